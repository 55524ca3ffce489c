// Package netm models listening and serving: what serves requests is left to the harness.
package netm

import (
	"errors"
	"net"
	"net/http"

	"github.com/FAU-CDI/hangover/internal/zverif/model"
)

type world struct {
	listened []string
	open     int
	fault    func(addr string) error
	serve    func(http.Handler) error
}

func get() *world {
	w, _ := model.Attached("netm.world").(*world)
	if w == nil {
		w = &world{}
		model.Attach("netm.world", w)
	}
	return w
}

// Listened are the addresses listened on.
func Listened() []string { return get().listened }

// SetFault decides which addresses cannot be listened on.
func SetFault(f func(addr string) error) { get().fault = f }

// SetServe installs what requests are made with until it returns.
func SetServe(f func(http.Handler) error) { get().serve = f }

type listener struct{ addr string }

func (l *listener) Accept() (net.Conn, error) { return nil, errors.New("nobody connects") }
func (l *listener) Close() error              { get().open--; return nil }
func (l *listener) Addr() net.Addr            { return addr(l.addr) }

type addr string

func (addr) Network() string  { return "tcp" }
func (a addr) String() string { return string(a) }

//gosym:replace net.Listen
func listen(network, addr string) (net.Listener, error) {
	w := get()
	if f := w.fault; f != nil {
		if err := f(addr); err != nil {
			return nil, err
		}
	}
	w.listened = append(w.listened, addr)
	w.open++
	return &listener{addr}, nil
}

//gosym:replace net/http.Serve
func serve(l net.Listener, h http.Handler) error {
	if _, ok := l.(*listener); !ok {
		l.Addr()
		model.Unsupported("a listener that was not made")
	}
	f := get().serve
	if f == nil {
		select {}
	}
	err := f(h)
	l.Close()
	return err
}

//gosym:replace net/http.ListenAndServe
func listenAndServe(addr string, h http.Handler) error {
	l, err := listen("tcp", addr)
	if err != nil {
		return err
	}
	return serve(l, h)
}

//gosym:replace (*net/http.Server).Serve
func serverServe(s *http.Server, l net.Listener) error { return serve(l, s.Handler) }

//gosym:replace (*net/http.Server).ListenAndServe
func serverListen(s *http.Server) error { return listenAndServe(s.Addr, s.Handler) }
