// Package faulty wraps the storages of an index so that their operations are
// counted and can fail.
package faulty

import (
	"errors"

	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

var Err = errors.New("injected failure")

// Opened is one opened storage.
type Opened struct {
	Name      string
	Closed    int
	Finalized int
}

// Engine hands out the storages of another engine.
type Engine struct {
	Inner igraph.Engine
	Fault func(op string) error // may be nil
	Log   []*Opened
}

func (e *Engine) fault(op string) error {
	if e.Fault == nil {
		return nil
	}
	return e.Fault(op)
}

func open[S any](e *Engine, name string, f func() (S, error), wrap func(S, *Opened) S) (s S, err error) {
	if err = e.fault("open"); err != nil {
		return
	}
	if s, err = f(); err != nil {
		return
	}
	o := &Opened{Name: name}
	e.Log = append(e.Log, o)
	return wrap(s, o), nil
}

func (e *Engine) Forward() (imap.HashMap[impl.Label, imap.TripleID], error) {
	return open(e, "forward", e.Inner.Forward, wrap[impl.Label, imap.TripleID](e))
}
func (e *Engine) Reverse() (imap.HashMap[impl.ID, impl.Label], error) {
	return open(e, "reverse", e.Inner.Reverse, wrap[impl.ID, impl.Label](e))
}
func (e *Engine) Data() (imap.HashMap[impl.ID, impl.Datum], error) {
	return open(e, "data", e.Inner.Data, wrap[impl.ID, impl.Datum](e))
}
func (e *Engine) Language() (imap.HashMap[impl.ID, impl.Language], error) {
	return open(e, "language", e.Inner.Language, wrap[impl.ID, impl.Language](e))
}
func (e *Engine) Triples() (imap.HashMap[impl.ID, igraph.IndexTriple], error) {
	return open(e, "triples", e.Inner.Triples, wrap[impl.ID, igraph.IndexTriple](e))
}
func (e *Engine) Inverses() (imap.HashMap[impl.ID, impl.ID], error) {
	return open(e, "inverses", e.Inner.Inverses, wrap[impl.ID, impl.ID](e))
}
func (e *Engine) PSOIndex() (igraph.ThreeStorage, error) {
	return open(e, "pso", e.Inner.PSOIndex, e.three)
}
func (e *Engine) POSIndex() (igraph.ThreeStorage, error) {
	return open(e, "pos", e.Inner.POSIndex, e.three)
}

// Released asserts that all storages except the last n are closed exactly
// once, and those not at all.
func (e *Engine) Released(n int) {
	sym.Assert(len(e.Log) >= n, "the storages are open")
	for i, o := range e.Log {
		if i < len(e.Log)-n {
			sym.Assert(o.Closed != 0, "every opened storage is released: "+o.Name)
			sym.Assert(o.Closed == 1, "a storage is released only once: "+o.Name)
		} else {
			sym.Assert(o.Closed == 0, "a storage in use is not released: "+o.Name)
		}
	}
}

func wrap[K comparable, V any](e *Engine) func(imap.HashMap[K, V], *Opened) imap.HashMap[K, V] {
	return func(m imap.HashMap[K, V], o *Opened) imap.HashMap[K, V] { return &hashMap[K, V]{e, m, o} }
}

type hashMap[K comparable, V any] struct {
	e *Engine
	m imap.HashMap[K, V]
	o *Opened
}

func (h *hashMap[K, V]) Close() error {
	h.o.Closed++
	h.m.Close()
	return h.e.fault("close")
}
func (h *hashMap[K, V]) Compact() error {
	if err := h.e.fault("compact"); err != nil {
		return err
	}
	return h.m.Compact()
}
func (h *hashMap[K, V]) Finalize() error {
	h.o.Finalized++
	if err := h.e.fault("finalize"); err != nil {
		return err
	}
	return h.m.Finalize()
}
func (h *hashMap[K, V]) Set(k K, v V) error {
	if err := h.e.fault("set"); err != nil {
		return err
	}
	return h.m.Set(k, v)
}
func (h *hashMap[K, V]) Get(k K) (v V, ok bool, err error) {
	if err = h.e.fault("get"); err != nil {
		return
	}
	return h.m.Get(k)
}
func (h *hashMap[K, V]) GetZero(k K) (v V, err error) {
	if err = h.e.fault("get"); err != nil {
		return
	}
	return h.m.GetZero(k)
}
func (h *hashMap[K, V]) Has(k K) (ok bool, err error) {
	if err = h.e.fault("has"); err != nil {
		return
	}
	return h.m.Has(k)
}
func (h *hashMap[K, V]) Delete(k K) error {
	if err := h.e.fault("delete"); err != nil {
		return err
	}
	return h.m.Delete(k)
}
func (h *hashMap[K, V]) Iterate(f func(K, V) error) error {
	return h.m.Iterate(func(k K, v V) error {
		if err := h.e.fault("iterate"); err != nil {
			return err
		}
		return f(k, v)
	})
}
func (h *hashMap[K, V]) Count() (n uint64, err error) {
	if err = h.e.fault("count"); err != nil {
		return
	}
	return h.m.Count()
}

func (e *Engine) three(s igraph.ThreeStorage, o *Opened) igraph.ThreeStorage {
	return &three{e, s, o}
}

type three struct {
	e *Engine
	s igraph.ThreeStorage
	o *Opened
}

func (t *three) Close() error {
	t.o.Closed++
	t.s.Close()
	return t.e.fault("close")
}
func (t *three) Add(a, b, c impl.ID, l impl.ID, conflict func(old, new impl.ID) (impl.ID, error)) (bool, error) {
	if err := t.e.fault("add"); err != nil {
		return false, err
	}
	return t.s.Add(a, b, c, l, conflict)
}
func (t *three) Count() (int64, error) {
	if err := t.e.fault("count"); err != nil {
		return 0, err
	}
	return t.s.Count()
}
func (t *three) Compact() error {
	if err := t.e.fault("compact"); err != nil {
		return err
	}
	return t.s.Compact()
}
func (t *three) Finalize() error {
	t.o.Finalized++
	if err := t.e.fault("finalize"); err != nil {
		return err
	}
	return t.s.Finalize()
}
func (t *three) Fetch(a, b impl.ID, f func(c impl.ID, l impl.ID) error) error {
	if err := t.e.fault("fetch"); err != nil {
		return err
	}
	return t.s.Fetch(a, b, func(c impl.ID, l impl.ID) error {
		if err := f(c, l); err != nil {
			return err
		}
		return t.e.fault("fetch")
	})
}
func (t *three) Has(a, b, c impl.ID) (id impl.ID, ok bool, err error) {
	if err = t.e.fault("has"); err != nil {
		return
	}
	return t.s.Has(a, b, c)
}

// Map wraps a single map.
func Map[K comparable, V any](m imap.HashMap[K, V], fault func(op string) error) imap.HashMap[K, V] {
	return &hashMap[K, V]{&Engine{Fault: fault}, m, &Opened{}}
}
