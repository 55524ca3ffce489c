// Package c22: the input files are located unambiguously or refused.
package c22

import (
	"errors"
	"io/fs"
	"os"
	"strings"

	"github.com/FAU-CDI/hangover"
	"github.com/FAU-CDI/hangover/internal/zverif/model/osm"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

func must(err error) { sym.Assert(err == nil, "no operation fails") }

// kind is what is at a path.
type kind int

const (
	nothing kind = iota
	file
	dir
	pipe
)

// put makes something at a path.
func put(path string, k kind) {
	switch k {
	case file:
		must(os.WriteFile(path, []byte("x"), 0o644))
	case dir:
		must(os.MkdirAll(path, 0o755))
	case pipe:
		osm.Special(path, fs.ModeNamedPipe)
	}
}

type entry struct {
	name string
	kind kind
}

// answer is what FindSource returns.
type answer struct{ nq, xml, index string }

func find(allow bool, argv ...string) (a answer, err error) {
	a.nq, a.xml, a.index, err = hangover.FindSource(allow, argv...)
	if err != nil {
		sym.Assert(a == answer{}, "an error returns no path")
		sym.Cover("?refused")
	}
	return
}

// single returns the only candidate with the extension.
func single(es []entry, ext string) (name string, ok bool) {
	n := 0
	for _, e := range es {
		if e.kind == nothing || !strings.HasSuffix(e.name, ext) {
			continue
		}
		n++
		name, ok = e.name, e.kind == file
	}
	return name, ok && n == 1
}

var exts = [...]string{".xml", ".nq", ".XML", "xml", ".xml.bak", ".nq~"}

// H_Directory: one directory.
// Bounds: 3 (thorough: 4) entries with names of one arbitrary letter or pattern character and one of 4 (thorough: 6) extensions, each a file, a directory or a pipe, directories holding files of both kinds; a plain directory name or one with pattern characters and a slash; an index allowed or not.
//gosym:native=no
//gosym:time=150
func H_Directory() {
	base := [...]string{"/in", "/in[1]*/"}[sym.Choose("base", 2)]
	clean := strings.TrimSuffix(base, "/")
	must(os.MkdirAll(base, 0o755))
	must(os.WriteFile("/out.xml", nil, 0o644))
	must(os.WriteFile("/out.nq", nil, 0o644))
	var es []entry
	n := 3 + sym.Tier()
	for k := 0; k < n; k++ {
		e := entry{sym.Alpha("name", 1, "ab[*.") + exts[sym.Choose("ext", 4+2*sym.Tier())], kind(1 + sym.Choose("kind", 3))}
		for _, o := range es {
			sym.Assume(e.name != o.name)
		}
		if k > 0 && e.kind == pipe {
			e.kind = nothing
		}
		put(clean+"/"+e.name, e.kind)
		if e.kind == dir {
			put(clean+"/"+e.name+"/x.xml", file)
			put(clean+"/"+e.name+"/x.nq", file)
		}
		es = append(es, e)
	}
	a, err := find(sym.Bool("allow"), base)
	xml, ok1 := single(es, ".xml")
	nq, ok2 := single(es, ".nq")
	if !ok1 || !ok2 {
		sym.Assert(err != nil, "none, several or no files are refused")
		return
	}
	sym.Assert(err == nil, "one file of each kind is found")
	sym.Assert(a.index == "" && a.xml == clean+"/"+xml && a.nq == clean+"/"+nq, "the files inside the directory")
	sym.Cover("found")
}

// H_Arguments: every number of arguments and everything they can name.
// Bounds: 0 to 3 arguments, each naming nothing, a file, an empty directory or a pipe; an index allowed or not.
//gosym:native=no
//gosym:time=60
func H_Arguments() {
	var argv []string
	var kinds []kind
	for n := sym.Choose("n", 4); n > 0; n-- {
		k := kind(sym.Choose("kind", 4))
		path := "/" + string(rune('a'+n))
		put(path, k)
		argv = append(argv, path)
		kinds = append(kinds, k)
	}
	allow := sym.Bool("allow")
	a, err := find(allow, argv...)
	switch len(argv) {
	case 1:
		if allow && (kinds[0] == file || kinds[0] == pipe) {
			sym.Assert(err == nil && a == answer{index: argv[0]}, "a file is an index")
			sym.Cover("index")
			return
		}
	case 2:
		if kinds[0] == file && kinds[1] == file {
			sym.Assert(err == nil && a == answer{xml: argv[0], nq: argv[1]}, "two files are pathbuilder and triples")
			sym.Cover("two")
			return
		}
	}
	sym.Assert(err != nil, "everything else is refused")
}

// H_Faults: any single failing operation.
// Bounds: a good directory, two good files or an index, the k-th file system operation failing, k arbitrary.
//gosym:native=no
func H_Faults() {
	put("/in", dir)
	put("/in/a.xml", file)
	put("/in/b.nq", file)
	argv := [][]string{{"/in"}, {"/in/a.xml", "/in/b.nq"}, {"/in/a.xml"}}[sym.Choose("what", 3)]
	at, n := sym.Int("at", 0, 20), 0
	hit := false
	osm.SetFault(func(op string) error {
		n++
		if n-1 == at && op != "os.close" {
			hit = true
			return errors.New("fault")
		}
		return nil
	})
	a, err := find(true, argv...)
	if hit {
		sym.Assert(err != nil, "a failing operation is an error")
		sym.Cover("fault")
		return
	}
	sym.Assert(err == nil && a != answer{}, "good input is found")
	sym.Cover("good")
}
