// Package c29: progress counters count the bytes and the terminal line stays clean.
package c29

import (
	"errors"
	"io"
	"strconv"
	"time"

	"github.com/FAU-CDI/hangover/internal/zverif/sym"
	"github.com/FAU-CDI/hangover/pkg/progress"
)

// terminal shows one line.
type terminal struct {
	line   []byte // what is shown
	col    int
	writes int
	fresh  bool // expects a carriage return first
}

func (t *terminal) Write(b []byte) (int, error) {
	t.writes++
	for i, c := range b {
		if t.fresh && i == 0 {
			sym.Assert(c == '\r', "a flush starts with a carriage return")
			t.fresh = false
		}
		if c == '\r' {
			t.col = 0
			continue
		}
		if t.col < len(t.line) {
			t.line[t.col] = c
		} else {
			t.line = append(t.line, c)
		}
		t.col++
	}
	return len(b), nil
}

// shows says that the line shows the text and nothing else.
func (t *terminal) shows(text string) {
	sym.Assert(len(t.line) >= len(text), "the whole text is shown")
	for i, c := range t.line {
		if i < len(text) {
			sym.Assert(c == text[i], "the text is shown")
		} else {
			sym.Assert(c == ' ', "longer text is blanked out")
		}
	}
}

const (
	early = time.Hour
	due   = -1
)

// H_Line: every sequence of writes, flushes and closes.
// Bounds: all sequences of 4 (thorough: 5) operations, each early or due, with texts of up to 2 arbitrary printable bytes (4 for every other).
//gosym:time=120
func H_Line() {
	t := new(terminal)
	rw := progress.Rewritable{Writer: t}
	var content string // written last
	var flushed bool
	for k := 0; k < 4+sym.Tier(); k++ {
		rw.FlushInterval = early
		if sym.Bool("due") {
			rw.FlushInterval = due
		}
		now := rw.FlushInterval == due || !flushed // the line was never written before
		before := t.writes
		shown := append([]byte(nil), t.line...)
		t.fresh = true
		switch sym.Choose("op", 4) {
		case 0:
			n := sym.Choose("len", 3)
			if k%2 == 0 {
				n *= 2
			}
			content = sym.String("text", n)
			for i := 0; i < n; i++ {
				sym.Assume(content[i] >= ' ')
			}
			rw.Write(content)
		case 1:
			rw.Flush(false)
		case 2:
			rw.Flush(true)
			now = true
		case 3:
			rw.Close()
			content, now = "", true
			sym.Assert(t.col == 0, "a closed line leaves the cursor at its start")
			sym.Cover("closed")
		}
		if now {
			sym.Assert(t.writes > before && !t.fresh, "what is due is flushed")
			t.shows(content)
			flushed = true
			sym.Cover("flushed")
		} else {
			sym.Assert(t.writes == before && len(shown) == len(t.line), "what comes too early is kept")
			sym.Cover("kept")
		}
	}
}

var errSome = errors.New("some")

// stub is a reader and writer with arbitrary results.
type stub struct {
	last []byte
	n    int
	err  error
}

func (s *stub) Read(b []byte) (int, error) {
	for i := 0; i < s.n; i++ {
		b[i] = s.last[i]
	}
	return s.n, s.err
}

func (s *stub) Write(b []byte) (int, error) {
	s.last = append([]byte(nil), b...)
	return s.n, s.err
}

// result chooses an arbitrary result for m bytes.
func (s *stub) result(m int) {
	s.n = sym.Choose("n", m+1)
	s.err = [...]error{nil, io.EOF, errSome}[sym.Choose("err", 3)]
}

func line(interval time.Duration) (progress.Rewritable, *terminal) {
	t := new(terminal)
	return progress.Rewritable{Writer: t, FlushInterval: interval}, t
}

// H_Reader: counting what is read.
// Bounds: 2 (thorough: 3) reads into up to 3 bytes, each returning any number of arbitrary bytes with or without an error; flushes early and due.
//gosym:time=60
func H_Reader() {
	s := new(stub)
	rw, t := line([...]time.Duration{early, due}[sym.Choose("due", 2)])
	r := &progress.Reader{Reader: s, Rewritable: rw}
	var total int64
	for k := 0; k < 2+sym.Tier(); k++ {
		m := sym.Choose("m", 4)
		s.result(m)
		s.last = sym.Bytes("data", s.n)
		buf := make([]byte, m)
		n, err := r.Read(buf)
		sym.Assert(n == s.n && err == s.err, "the result is passed through")
		sym.Assert(sym.EqBytes(buf[:n], s.last), "the bytes are passed through")
		total += int64(n)
		sym.Assert(r.Bytes == total, "the counter is the number of bytes read")
	}
	if rw.FlushInterval == due {
		t.shows("Read " + strconv.Itoa(int(total)) + " B")
		sym.Cover("shown")
	}
	sym.Cover("read")
}

// H_Writer: counting what is written.
// Bounds: 2 (thorough: 3) writes of up to 3 arbitrary bytes, each accepting any number of them with or without an error; flushes early and due.
//gosym:time=60
func H_Writer() {
	s := new(stub)
	rw, t := line([...]time.Duration{early, due}[sym.Choose("due", 2)])
	w := &progress.Writer{Writer: s, Rewritable: rw}
	var total int64
	for k := 0; k < 2+sym.Tier(); k++ {
		m := sym.Choose("m", 4)
		s.result(m)
		buf := sym.Bytes("data", m)
		n, err := w.Write(buf)
		sym.Assert(n == s.n && err == s.err, "the result is passed through")
		sym.Assert(sym.EqBytes(buf, s.last), "the bytes are passed through")
		total += int64(n)
		sym.Assert(w.Bytes == total, "the counter is the number of bytes written")
	}
	if rw.FlushInterval == due {
		t.shows("Wrote " + strconv.Itoa(int(total)) + " B")
		sym.Cover("shown")
	}
	sym.Cover("written")
}

// H_Progress: a count and a total.
// Bounds: all counts and totals from 0 to 12 (thorough: 101).
//gosym:time=60
func H_Progress() {
	rw, t := line(due)
	p := progress.Progress{Rewritable: rw}
	max := 12
	if sym.Tier() > 0 {
		max = 101
	}
	count, total := sym.Int("count", 0, max), sym.Int("total", 0, max)
	p.Set("x", count, total)
	c, n := strconv.Itoa(count), strconv.Itoa(total)
	for len(c) < len(n) {
		c = " " + c
	}
	if count < total {
		t.shows("x: " + c + "/" + n)
		sym.Cover("running")
	} else {
		t.shows("x: " + c)
		sym.Cover("over")
	}
}
