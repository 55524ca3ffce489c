// Package osm models the file system the code under test uses: a flat table of absolute and relative paths.
package osm

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/FAU-CDI/hangover/internal/zverif/model"
)

var ErrLocked = errors.New("resource temporarily unavailable")

// node is a file or directory.
type node struct {
	path string
	dir  bool
	mode fs.FileMode // type bits of what is neither file nor directory
	data []byte
	ext  any // attached by other models
}

type world struct {
	nodes   []*node
	removed []string // arguments of RemoveAll and Remove
	created []string // paths created
	last    string   // what the latest operation on an open file is on
	fault   func(op string) error
}

func w() *world {
	x, _ := model.Attached("osm.world").(*world)
	if x == nil {
		x = &world{}
		model.Attach("osm.world", x)
	}
	return x
}

// SetFault installs a function that decides which operations fail.
func SetFault(f func(op string) error) { model.Quiet(func() { w().fault = f }) }

func Fault(op string) (err error) {
	if f := w().fault; f != nil {
		err = f(op)
	}
	return
}

// Last is the path of the file that was last written to, closed or created.
func Last() string { return w().last }

// Removed and Created report what was removed and created.
func Removed() []string { return w().removed }
func Created() []string { return w().created }

func (x *world) find(path string) *node {
	for _, n := range x.nodes {
		if n.path == path {
			return n
		}
	}
	return nil
}

func under(path, dir string) bool {
	return path == dir || strings.HasPrefix(path, strings.TrimSuffix(dir, "/")+"/")
}

func clean(path string) string { return filepath.Clean(path) }

// Mkdir creates a directory with its parents and returns what is attached to it.
func Mkdir(path string) (ext any, err error) {
	model.Quiet(func() {
		x := w()
		path = clean(path)
		if n := x.find(path); n != nil {
			if !n.dir {
				err = &fs.PathError{Op: "mkdir", Path: path, Err: syscall.ENOTDIR}
				return
			}
			ext = n.ext
			return
		}
		x.created = append(x.created, path)
		x.nodes = append(x.nodes, &node{path: path, dir: true})
		for d := filepath.Dir(path); d != "/" && d != "."; d = filepath.Dir(d) {
			if x.find(d) == nil {
				x.nodes = append(x.nodes, &node{path: d, dir: true})
			}
		}
	})
	return
}

func SetDirData(path string, ext any) {
	model.Quiet(func() {
		if n := w().find(clean(path)); n != nil {
			n.ext = ext
		}
	})
}

// Terminal is a file that is only written.
func Terminal(path string) *os.File {
	n := &node{path: path, mode: fs.ModeCharDevice}
	model.Quiet(func() { x := w(); x.nodes = append(x.nodes, n) })
	f := new(os.File)
	model.Attach(f, &file{n: n, path: path, wr: true})
	return f
}

// Content is what is in a file.
func Content(path string) (s string) {
	model.Quiet(func() {
		if n := w().find(clean(path)); n != nil {
			s = string(n.data)
		}
	})
	return
}

type info struct{ n *node }

func (i info) Name() string { return filepath.Base(i.n.path) }
func (i info) Size() int64  { return int64(len(i.n.data)) }
func (i info) Mode() fs.FileMode {
	if i.n.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644 | i.n.mode
}
func (i info) ModTime() (t time.Time) { return }
func (i info) IsDir() bool            { return i.n.dir }
func (i info) Sys() any               { return nil }

// Special creates something that is neither a file nor a directory.
func Special(path string, mode fs.FileMode) {
	model.Quiet(func() { x := w(); x.nodes = append(x.nodes, &node{path: clean(path), mode: mode}) })
}

// Exists says if the path exists.
func Exists(path string) bool { return w().find(clean(path)) != nil }

//gosym:replace os.Stat
func Stat(path string) (fi fs.FileInfo, err error) {
	if err := Fault("os.stat"); err != nil {
		return nil, &fs.PathError{Op: "stat", Path: path, Err: err}
	}
	model.Quiet(func() {
		n := w().find(clean(path))
		if path == "" || n == nil {
			err = &fs.PathError{Op: "stat", Path: path, Err: syscall.ENOENT}
			return
		}
		fi = info{n}
	})
	return
}

//gosym:replace os.Lstat
func Lstat(path string) (fs.FileInfo, error) { return Stat(path) }

//gosym:replace os.RemoveAll
func RemoveAll(path string) error {
	if err := Fault("os.removeall"); err != nil {
		return &fs.PathError{Op: "removeall", Path: path, Err: err}
	}
	model.Quiet(func() {
		x := w()
		p := clean(path)
		x.removed = append(x.removed, p)
		var keep []*node
		for _, n := range x.nodes {
			if !under(n.path, p) {
				keep = append(keep, n)
			}
		}
		x.nodes = keep
	})
	return nil
}

//gosym:replace os.Remove
func Remove(path string) error {
	if err := Fault("os.removeall"); err != nil {
		return &fs.PathError{Op: "remove", Path: path, Err: err}
	}
	var err error
	model.Quiet(func() {
		x := w()
		p := clean(path)
		x.removed = append(x.removed, p)
		var keep []*node
		for _, n := range x.nodes {
			if n.path != p && under(n.path, p) || n.path == p && n.dir && n.ext != nil {
				err = &fs.PathError{Op: "remove", Path: path, Err: syscall.ENOTEMPTY}
				return
			}
			if n.path != p {
				keep = append(keep, n)
			}
		}
		if len(keep) == len(x.nodes) {
			err = &fs.PathError{Op: "remove", Path: path, Err: syscall.ENOENT}
		}
		x.nodes = keep
	})
	return err
}

//gosym:replace os.Mkdir
func mkdir(path string, perm fs.FileMode) error {
	if err := Fault("os.mkdir"); err != nil {
		return &fs.PathError{Op: "mkdir", Path: path, Err: err}
	}
	if Exists(path) {
		return &fs.PathError{Op: "mkdir", Path: path, Err: syscall.EEXIST}
	}
	if d := filepath.Dir(clean(path)); d != "." && d != "/" && !Exists(d) {
		return &fs.PathError{Op: "mkdir", Path: path, Err: syscall.ENOENT}
	}
	_, err := Mkdir(path)
	return err
}

//gosym:replace os.MkdirAll
func MkdirAll(path string, perm fs.FileMode) error {
	if err := Fault("os.mkdir"); err != nil {
		return &fs.PathError{Op: "mkdir", Path: path, Err: err}
	}
	_, err := Mkdir(path)
	return err
}

//gosym:replace os.MkdirTemp
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	p := ""
	model.Quiet(func() {
		k := 0
		for {
			p = dir + "/" + strings.ReplaceAll(pattern, "*", "") + string(rune('0'+k))
			if w().find(p) == nil {
				break
			}
			k++
		}
	})
	_, err := Mkdir(p)
	return p, err
}

//gosym:replace os.TempDir
func TempDir() string { return "/tmp" }

// file is an open file.
type file struct {
	n      *node
	path   string
	pos    int
	closed bool
	rd     bool
	wr     bool
}

func of(f *os.File) *file {
	if f == nil {
		return nil
	}
	x, _ := model.Attached(f).(*file)
	if x == nil {
		model.Unsupported("a file that was not opened")
	}
	return x
}

func open(path string, flag int) (f *os.File, err error) {
	op := "os.open"
	if flag&os.O_CREATE != 0 {
		op = "os.create"
	}
	w().last = path
	if err := Fault(op); err != nil {
		return nil, &fs.PathError{Op: "open", Path: path, Err: err}
	}
	model.Quiet(func() {
		x := w()
		p := clean(path)
		n := x.find(p)
		switch {
		case path == "" || (n == nil && flag&os.O_CREATE == 0):
			err = &fs.PathError{Op: "open", Path: path, Err: syscall.ENOENT}
			return
		case n == nil:
			if d := filepath.Dir(p); d != "." && d != "/" {
				if dn := x.find(d); dn == nil || !dn.dir {
					err = &fs.PathError{Op: "open", Path: path, Err: syscall.ENOENT}
					return
				}
			}
			n = &node{path: p}
			x.nodes = append(x.nodes, n)
			x.created = append(x.created, p)
		case n.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0:
			err = &fs.PathError{Op: "open", Path: path, Err: syscall.EISDIR}
			return
		}
		if flag&os.O_TRUNC != 0 {
			n.data = nil
		}
		f = new(os.File)
		model.Attach(f, &file{n: n, path: path, rd: flag&os.O_WRONLY == 0, wr: flag&(os.O_WRONLY|os.O_RDWR) != 0})
	})
	return
}

//gosym:replace os.OpenFile
func OpenFile(path string, flag int, perm fs.FileMode) (*os.File, error) { return open(path, flag) }

//gosym:replace os.Open
func Open(path string) (*os.File, error) { return open(path, os.O_RDONLY) }

//gosym:replace os.Create
func Create(path string) (*os.File, error) { return open(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC) }

//gosym:replace os.ReadFile
func ReadFile(path string) ([]byte, error) {
	f, err := Open(path)
	if err != nil {
		return nil, err
	}
	x := of(f)
	if err := Fault("os.read"); err != nil {
		return nil, &fs.PathError{Op: "read", Path: path, Err: err}
	}
	if x.n.dir {
		return nil, &fs.PathError{Op: "read", Path: path, Err: syscall.EISDIR}
	}
	return append([]byte{}, x.n.data...), nil
}

//gosym:replace os.WriteFile
func WriteFile(path string, data []byte, perm fs.FileMode) error {
	f, err := Create(path)
	if err != nil {
		return err
	}
	_, err = Write(f, data)
	return err
}

//gosym:replace (*os.File).Read
func Read(f *os.File, b []byte) (int, error) {
	x := of(f)
	if x == nil {
		return 0, os.ErrInvalid
	}
	if x.closed {
		return 0, &fs.PathError{Op: "read", Path: x.path, Err: os.ErrClosed}
	}
	w().last = x.path
	if err := Fault("os.read"); err != nil {
		return 0, &fs.PathError{Op: "read", Path: x.path, Err: err}
	}
	if x.n.dir {
		return 0, &fs.PathError{Op: "read", Path: x.path, Err: syscall.EISDIR}
	}
	if len(b) == 0 {
		return 0, nil
	}
	if x.pos >= len(x.n.data) {
		return 0, io.EOF
	}
	n := copy(b, x.n.data[x.pos:])
	x.pos += n
	return n, nil
}

//gosym:replace (*os.File).Write
func Write(f *os.File, b []byte) (int, error) {
	x := of(f)
	if x == nil {
		return 0, os.ErrInvalid
	}
	if x.closed {
		return 0, &fs.PathError{Op: "write", Path: x.path, Err: os.ErrClosed}
	}
	w().last = x.path
	if err := Fault("os.write"); err != nil {
		return 0, &fs.PathError{Op: "write", Path: x.path, Err: err}
	}
	if !x.wr {
		return 0, &fs.PathError{Op: "write", Path: x.path, Err: syscall.EBADF}
	}
	d := append([]byte{}, x.n.data[:x.pos]...)
	d = append(d, b...)
	if len(x.n.data) > len(d) {
		d = append(d, x.n.data[len(d):]...)
	}
	x.n.data = d
	x.pos += len(b)
	return len(b), nil
}

//gosym:replace (*os.File).WriteString
func WriteString(f *os.File, s string) (int, error) { return Write(f, []byte(s)) }

//gosym:replace (*os.File).Close
func Close(f *os.File) error {
	x := of(f)
	if x == nil {
		return os.ErrInvalid
	}
	if x.closed {
		return &fs.PathError{Op: "close", Path: x.path, Err: os.ErrClosed}
	}
	x.closed = true
	w().last = x.path
	if err := Fault("os.close"); err != nil {
		return &fs.PathError{Op: "close", Path: x.path, Err: err}
	}
	return nil
}

//gosym:replace (*os.File).Name
func Name(f *os.File) string { return of(f).path }

//gosym:replace (*os.File).Stat
func fstat(f *os.File) (fs.FileInfo, error) {
	if err := Fault("os.fstat"); err != nil {
		return nil, &fs.PathError{Op: "stat", Path: of(f).path, Err: err}
	}
	return info{of(f).n}, nil
}

//gosym:replace (*os.File).Seek
func seek(f *os.File, off int64, whence int) (int64, error) {
	x := of(f)
	if err := Fault("os.seek"); err != nil {
		return 0, &fs.PathError{Op: "seek", Path: x.path, Err: err}
	}
	switch whence {
	case 1:
		off += int64(x.pos)
	case 2:
		off += int64(len(x.n.data))
	}
	if off < 0 {
		return 0, &fs.PathError{Op: "seek", Path: x.path, Err: syscall.EINVAL}
	}
	x.pos = int(off)
	return off, nil
}

// entries lists a directory in the order of the names.
func entries(dir string) (all []*node) {
	for _, m := range w().nodes {
		if m.path == dir || filepath.Dir(m.path) != dir {
			continue
		}
		k := len(all)
		for k > 0 && filepath.Base(all[k-1].path) > filepath.Base(m.path) {
			k--
		}
		all = append(all[:k:k], append([]*node{m}, all[k:]...)...)
	}
	return
}

// list reads the rest of an open directory.
func list(f *os.File, n int) (all []*node, err error) {
	x := of(f)
	if x == nil {
		return nil, os.ErrInvalid
	}
	if err := Fault("os.read"); err != nil {
		return nil, &fs.PathError{Op: "readdirent", Path: x.path, Err: err}
	}
	if !x.n.dir {
		return nil, &fs.PathError{Op: "readdirent", Path: x.path, Err: syscall.ENOTDIR}
	}
	model.Quiet(func() {
		all = entries(x.n.path)
		if x.pos > len(all) {
			x.pos = len(all)
		}
		all = all[x.pos:]
		if n > 0 && len(all) > n {
			all = all[:n]
		}
		x.pos += len(all)
	})
	if n > 0 && len(all) == 0 {
		err = io.EOF
	}
	return
}

//gosym:replace (*os.File).Readdirnames
func readdirnames(f *os.File, n int) (names []string, err error) {
	all, err := list(f, n)
	for _, m := range all {
		names = append(names, filepath.Base(m.path))
	}
	return
}

//gosym:replace (*os.File).Readdir
func readdir(f *os.File, n int) (infos []fs.FileInfo, err error) {
	all, err := list(f, n)
	for _, m := range all {
		infos = append(infos, info{m})
	}
	return
}

//gosym:replace (*os.File).ReadDir
func readDir(f *os.File, n int) (es []fs.DirEntry, err error) {
	all, err := list(f, n)
	for _, m := range all {
		es = append(es, fs.FileInfoToDirEntry(info{m}))
	}
	return
}

//gosym:replace os.ReadDir
func osReadDir(path string) ([]fs.DirEntry, error) {
	f, err := Open(path)
	if err != nil {
		return nil, err
	}
	return readDir(f, -1)
}
