package faulty

import (
	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/world"
	"github.com/tkw1536/pkglib/traversal"
)

// Bundles hands out the storages of another bundle engine.
type Bundles struct {
	Inner storages.BundleEngine
	Fault func(op string) error
	Log   []*Opened
}

func (e *Bundles) NewStorage(b *pathbuilder.Bundle) (storages.BundleStorage, error) {
	if err := e.Fault("bundle.open"); err != nil {
		return nil, err
	}
	s, err := e.Inner.NewStorage(b)
	if err != nil {
		return nil, err
	}
	o := &Opened{Name: b.MachineName()}
	e.Log = append(e.Log, o)
	return &bundle{s, e, o}, nil
}

type bundle struct {
	s storages.BundleStorage
	e *Bundles
	o *Opened
}

func (b *bundle) Close() error { b.o.Closed++; return b.s.Close() }
func (b *bundle) Add(uri impl.Label, path []impl.Label, triples []igraph.Triple) error {
	if err := b.e.Fault("bundle.add"); err != nil {
		return err
	}
	return b.s.Add(uri, path, triples)
}
func (b *bundle) AddFieldValue(uri impl.Label, field string, value impl.Datum, lang impl.Language, path []impl.Label, triples []igraph.Triple) error {
	if err := b.e.Fault("bundle.addfield"); err != nil {
		return err
	}
	return b.s.AddFieldValue(uri, field, value, lang, path, triples)
}
func (b *bundle) RegisterChildStorage(name string, s storages.BundleStorage) error {
	if err := b.e.Fault("bundle.register"); err != nil {
		return err
	}
	return b.s.RegisterChildStorage(name, s)
}
func (b *bundle) AddChild(parent impl.Label, name string, child impl.Label) error {
	if err := b.e.Fault("bundle.addchild"); err != nil {
		return err
	}
	return b.s.AddChild(parent, name, child)
}
func (b *bundle) Finalize() error {
	b.o.Finalized++
	if err := b.e.Fault("bundle.finalize"); err != nil {
		return err
	}
	return b.s.Finalize()
}
func (b *bundle) Get(pos int) traversal.Iterator[storages.LabelWithParent] {
	return traversal.New(func(sender traversal.Generator[storages.LabelWithParent]) {
		defer sender.Return()
		it := b.s.Get(pos)
		defer it.Close()
		for it.Next() {
			if err := b.e.Fault("bundle.get"); err != nil {
				sender.YieldError(err)
				return
			}
			if !sender.Yield(it.Datum()) {
				return
			}
		}
		sender.YieldError(it.Err())
	})
}
func (b *bundle) Count() (int64, error) {
	if err := b.e.Fault("bundle.count"); err != nil {
		return 0, err
	}
	return b.s.Count()
}
func (b *bundle) Load(uri impl.Label) (w wisski.Entity, err error) {
	if err = b.e.Fault("bundle.load"); err != nil {
		return
	}
	return b.s.Load(uri)
}

// Source is a token list that can fail.
type Source struct {
	world.Source
	Fault func(op string) error
}

func (s *Source) Open() error {
	if err := s.Fault("source.open"); err != nil {
		return err
	}
	return s.Source.Open()
}

func (s *Source) Next() sparkl.Token {
	if err := s.Fault("source.next"); err != nil {
		return sparkl.Token{Err: err}
	}
	return s.Source.Next()
}
