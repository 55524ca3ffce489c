// Package store is the specification of a tree of bundle storages.
package store

import (
	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

type Value struct {
	Field string
	V     wisski.FieldValue
}

type Child struct {
	Bundle string
	URI    impl.Label
}

type Entity struct {
	URI      impl.Label
	Path     []impl.Label
	Triples  []igraph.Triple
	Values   []Value
	Children []Child
}

type Added struct {
	URI  impl.Label
	Path []impl.Label
}

// S is the specification of one storage.
type S struct {
	Real     storages.BundleStorage
	Bundle   *pathbuilder.Bundle
	Entities []*Entity
	Added    []Added
	Subs     map[string]*S
}

func Must(err error) { sym.Assert(err == nil, "no operation fails") }

// Bundle makes a bundle with its fields and children.
func Bundle(id string, card int, fields []string, children ...*pathbuilder.Bundle) *pathbuilder.Bundle {
	b := &pathbuilder.Bundle{Path: pathbuilder.Path{ID: id, Bundle: "b_" + id, IsGroup: true, Cardinality: card}}
	for _, f := range fields {
		b.ChildFields = append(b.ChildFields, pathbuilder.Field{Path: pathbuilder.Path{ID: f, Field: "f_" + f, Cardinality: card}})
	}
	for _, c := range children {
		c.Parent = b
		b.ChildBundles = append(b.ChildBundles, c)
	}
	return b
}

// Open makes storages for the bundle and everything below it.
func Open(e storages.BundleEngine, b *pathbuilder.Bundle) *S {
	r, err := e.NewStorage(b)
	Must(err)
	s := &S{Real: r, Bundle: b, Subs: map[string]*S{}}
	for _, c := range b.ChildBundles {
		sub := Open(e, c)
		s.Subs[c.MachineName()] = sub
		Must(r.RegisterChildStorage(c.MachineName(), sub.Real))
	}
	return s
}

func (s *S) Close() {
	Must(s.Real.Close())
	for _, c := range s.Subs {
		c.Close()
	}
}

func (s *S) find(u impl.Label) *Entity {
	for _, e := range s.Entities {
		if e.URI == u {
			return e
		}
	}
	return nil
}

func (s *S) Add(u impl.Label, path []impl.Label, tr []igraph.Triple) {
	Must(s.Real.Add(u, append([]impl.Label{}, path...), append([]igraph.Triple{}, tr...)))
	s.Added = append(s.Added, Added{u, path})
	n := &Entity{URI: u, Path: path, Triples: tr}
	for i, e := range s.Entities {
		if e.URI == u {
			s.Entities[i] = n
			return
		}
	}
	s.Entities = append(s.Entities, n)
}

func (s *S) AddValue(u impl.Label, field string, v wisski.FieldValue) {
	err := s.Real.AddFieldValue(u, field, v.Value, v.Language, v.Path, v.Triples)
	e := s.find(u)
	if e == nil {
		sym.Assert(err == storages.ErrNoEntity, "a value for an unknown entity reports no such entity")
		sym.Cover("?value for an unknown entity")
		return
	}
	Must(err)
	e.Values = append(e.Values, Value{field, v})
}

func (s *S) AddChild(parent impl.Label, bundle string, child impl.Label) {
	err := s.Real.AddChild(parent, bundle, child)
	e := s.find(parent)
	if e == nil {
		sym.Assert(err == storages.ErrNoEntity, "a child for an unknown entity reports no such entity")
		sym.Cover("?child for an unknown entity")
		return
	}
	Must(err)
	e.Children = append(e.Children, Child{bundle, child})
}

func eqLabels(a, b []impl.Label) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func eqTriples(a, b []igraph.Triple) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// CheckEntity compares an entity with its specification.
func (s *S) CheckEntity(got wisski.Entity, e *Entity) {
	sym.Assert(got.URI == e.URI, "the entity has its URI")
	sym.Assert(eqLabels(got.Path, e.Path), "the entity has its path")
	sym.Assert(eqTriples(got.Triples, e.Triples), "the entity has its triples")
	total := 0
	for _, vs := range got.Fields {
		total += len(vs)
	}
	sym.Assert(total == len(e.Values), "the entity has no other values")
	next := map[string]int{}
	for _, v := range e.Values {
		i := next[v.Field]
		next[v.Field]++
		sym.Assert(i < len(got.Fields[v.Field]), "the entity has every value")
		x := got.Fields[v.Field][i]
		sym.Assert(x.Value == v.V.Value && x.Language == v.V.Language, "values keep text, language and order")
		sym.Assert(eqLabels(x.Path, v.V.Path) && eqTriples(x.Triples, v.V.Triples), "values keep path and triples")
	}
	total = 0
	for _, cs := range got.Children {
		total += len(cs)
	}
	sym.Assert(total == len(e.Children), "the entity has no other children")
	next = map[string]int{}
	for _, c := range e.Children {
		i := next[c.Bundle]
		next[c.Bundle]++
		sym.Assert(i < len(got.Children[c.Bundle]), "the entity has every child")
		s.Subs[c.Bundle].CheckEntity(got.Children[c.Bundle][i], s.Subs[c.Bundle].find(c.URI))
		sym.Cover("?child")
	}
}

// CheckLoad loads one entity.
func (s *S) CheckLoad(u impl.Label) {
	got, err := s.Real.Load(u)
	e := s.find(u)
	if e == nil {
		sym.Assert(err == storages.ErrNoEntity, "loading an unknown entity reports no such entity")
		return
	}
	Must(err)
	s.CheckEntity(got, e)
}

// CheckList lists the storage with the parent at the position, or without.
func (s *S) CheckList(pos int) {
	want := s.Added
	if pos < 0 {
		want = nil
		for _, e := range s.Entities {
			want = append(want, Added{URI: e.URI})
		}
	}
	used := make([]bool, len(want))
	it := s.Real.Get(pos)
	n := 0
	for it.Next() {
		x := it.Datum()
		n++
		found := false
		for i, w := range want {
			var parent impl.Label
			if pos >= 0 {
				parent = w.Path[pos]
			}
			if !used[i] && w.URI == x.Label && parent == x.Parent {
				used[i], found = true, true
				break
			}
		}
		sym.Assert(found, "every listed entity was added, with that parent")
	}
	Must(it.Err())
	it.Close()
	sym.Assert(n == len(want), "every entity is listed once")
}

// Check compares everything.
func (s *S) Check(positions int) {
	n, err := s.Real.Count()
	Must(err)
	sym.Assert(n == int64(len(s.Entities)), "the count is the number of entities")
	for _, e := range s.Entities {
		s.CheckLoad(e.URI)
	}
	for p := -1; p < positions; p++ {
		s.CheckList(p)
	}
	for _, sub := range s.Subs {
		sub.Check(positions)
	}
}
