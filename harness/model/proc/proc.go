// Package proc runs commands: their arguments, their exit status and what they write to the terminal.
package proc

import (
	"log"
	"os"

	"github.com/FAU-CDI/hangover/internal/zverif/model"
	"github.com/FAU-CDI/hangover/internal/zverif/model/osm"
)

type process struct {
	exit   chan int
	exited bool
}

func get() *process {
	p, _ := model.Attached("proc.process").(*process)
	return p
}

// Run runs a command with arguments until it returns or exits.
//
// A command that exits stops at once: the goroutine that exits never continues.
func Run(main func(), args ...string) (code int) {
	p := &process{exit: make(chan int, 16)}
	model.Attach("proc.process", p)
	os.Args = append([]string{"command"}, args...)
	os.Stdout = osm.Terminal("/dev/stdout")
	os.Stderr = osm.Terminal("/dev/stderr")
	go func() {
		main()
		p.exit <- 0
	}()
	code = <-p.exit
	p.exited = true
	return
}

// Stdout is what was written to standard output.
func Stdout() string { return osm.Content("/dev/stdout") }

// Stderr is what was written to standard error.
func Stderr() string { return osm.Content("/dev/stderr") }

//gosym:replace os.Exit
func exit(code int) {
	p := get()
	if p == nil {
		model.Unsupported("exit outside of a command")
	}
	p.exit <- code
	select {}
}

//gosym:replace (*log.Logger).output
func output(l *log.Logger, pc uintptr, calldepth int, text func([]byte) []byte) error {
	b := text(nil)
	if len(b) == 0 || b[len(b)-1] != '\n' {
		b = append(b, '\n')
	}
	_, err := os.Stderr.Write(b)
	return err
}
