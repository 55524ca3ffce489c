// Package gz models compress/gzip: a header, pieces of the data as they are, and a trailer. What is written is kept back until it is flushed or there is much of it.
package gz

import (
	"compress/gzip"
	"errors"
	"io"

	"github.com/FAU-CDI/hangover/internal/zverif/model"
)

const (
	head  = "\x1f\x8b"
	piece = 'D'
	tail  = 'E'
	keep  = 40 // bytes kept back at most
)

type writer struct {
	w       io.Writer
	started bool
	closed  bool
	pending []byte
	err     error
}

func wr(z *gzip.Writer) *writer {
	if z == nil {
		var p *int
		*p = 0
	}
	s, _ := model.Attached(z).(*writer)
	if s == nil {
		model.Unsupported("a gzip writer that was not made")
	}
	return s
}

//gosym:replace compress/gzip.NewWriterLevel
func newWriterLevel(w io.Writer, level int) (*gzip.Writer, error) {
	if level < gzip.HuffmanOnly || level > gzip.BestCompression {
		return nil, errors.New("gzip: invalid compression level")
	}
	return newWriter(w), nil
}

//gosym:replace compress/gzip.NewWriter
func newWriter(w io.Writer) *gzip.Writer {
	z := new(gzip.Writer)
	model.Attach(z, &writer{w: w})
	return z
}

func (s *writer) start() {
	if !s.started {
		s.started = true
		_, s.err = s.w.Write([]byte(head))
	}
}

func (s *writer) emit() {
	for s.err == nil && len(s.pending) > 0 {
		n := len(s.pending)
		if n > 255 {
			n = 255
		}
		_, s.err = s.w.Write(append([]byte{piece, byte(n)}, s.pending[:n]...))
		s.pending = s.pending[n:]
	}
}

//gosym:replace (*compress/gzip.Writer).Write
func write(z *gzip.Writer, p []byte) (int, error) {
	s := wr(z)
	if s.err != nil {
		return 0, s.err
	}
	s.start()
	s.pending = append(s.pending, p...)
	if len(s.pending) > keep {
		s.emit()
	}
	return len(p), s.err
}

//gosym:replace (*compress/gzip.Writer).Flush
func flush(z *gzip.Writer) error {
	s := wr(z)
	if s.err != nil || s.closed {
		return s.err
	}
	s.start()
	s.emit()
	return s.err
}

//gosym:replace (*compress/gzip.Writer).Close
func closeWriter(z *gzip.Writer) error {
	s := wr(z)
	if s.err != nil || s.closed {
		return s.err
	}
	s.closed = true
	s.start()
	s.emit()
	if s.err == nil {
		_, s.err = s.w.Write([]byte{tail, tail})
	}
	return s.err
}

type reader struct {
	r     io.Reader
	avail []byte
	err   error
}

//gosym:replace compress/gzip.NewReader
func newReader(r io.Reader) (*gzip.Reader, error) {
	h := make([]byte, len(head))
	if _, err := io.ReadFull(r, h); err != nil {
		return nil, err
	}
	if string(h) != head {
		return nil, gzip.ErrHeader
	}
	z := new(gzip.Reader)
	model.Attach(z, &reader{r: r})
	return z, nil
}

//gosym:replace (*compress/gzip.Reader).Read
func read(z *gzip.Reader, p []byte) (int, error) {
	s, _ := model.Attached(z).(*reader)
	if s == nil {
		model.Unsupported("a gzip reader that was not made")
	}
	for len(s.avail) == 0 && s.err == nil {
		var h [2]byte
		if _, err := io.ReadFull(s.r, h[:]); err != nil {
			s.err = short(err)
			break
		}
		if h[0] == tail && h[1] == tail {
			s.err = io.EOF
			break
		}
		if h[0] != piece {
			s.err = gzip.ErrHeader
			break
		}
		b := make([]byte, int(h[1]))
		n, err := io.ReadFull(s.r, b)
		s.avail = b[:n]
		if err != nil {
			s.err = short(err)
		}
	}
	if len(s.avail) > 0 {
		n := copy(p, s.avail)
		s.avail = s.avail[n:]
		return n, nil
	}
	return 0, s.err
}

func short(err error) error {
	if err == io.EOF {
		return io.ErrUnexpectedEOF
	}
	return err
}

//gosym:replace (*compress/gzip.Reader).Close
func closeReader(z *gzip.Reader) error { return nil }
