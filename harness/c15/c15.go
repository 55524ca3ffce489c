// Package c15: an entity's triples are complete, unique and consistently ordered.
package c15

import (
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

// triple makes a triple with the given identity; its contents follow from it.
func triple(b []byte) igraph.Triple {
	var id impl.ID
	sym.Assert(impl.UnmarshalID(&id, b) == nil, "an identifier")
	return igraph.Triple{
		ID:      id,
		Subject: impl.Label(b), SSubject: "s", Predicate: "p", SPredicate: "p",
		Datum: "d", Role: igraph.Data,
	}
}

type scene struct {
	ids  [][]byte
	left int
}

// some makes a slice of n triples that all are noted.
func (s *scene) some(n int) (out []igraph.Triple) {
	for ; n > 0; n-- {
		b := sym.Bytes("id", impl.IDLen)
		s.ids = append(s.ids, b)
		out = append(out, triple(b))
	}
	return
}

// take makes none, one or two of the triples that are left.
func (s *scene) take() []igraph.Triple {
	n := sym.Choose("n", min(s.left, 2)+1)
	s.left -= n
	return s.some(n)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// values makes the values of a field.
func (s *scene) values(n int) (out []wisski.FieldValue) {
	for ; n > 0; n-- {
		out = append(out, wisski.FieldValue{Value: "v", Path: []impl.Label{"x"}, Triples: s.take()})
	}
	return
}

// same compares a triple without looking at the order of its fields.
func same(a, b igraph.Triple) bool { return a == b }

// check asks for the triples of the entity twice.
func (s *scene) check(e *wisski.Entity) {
	got := e.AllTriples()
	for i, t := range got {
		b, err := impl.MarshalID(t.ID)
		sym.Assert(err == nil, "an identifier")
		if i > 0 {
			a, _ := impl.MarshalID(got[i-1].ID)
			sym.Assert(string(a) < string(b), "sorted by identity, none twice")
		}
		var known bool
		for _, id := range s.ids {
			known = sym.Or(known, sym.EqBytes(b, id))
		}
		sym.Assert(known, "only triples of the entity")
		sym.Assert(same(t, triple(b)), "a triple keeps its contents")
	}
	for _, id := range s.ids {
		var found bool
		for _, t := range got {
			b, _ := impl.MarshalID(t.ID)
			found = sym.Or(found, sym.EqBytes(b, id))
		}
		sym.Assert(found, "no triple is missing")
	}
	if len(got) < len(s.ids) {
		sym.Cover("?duplicate")
	}
	if len(s.ids) > 0 && len(got) == len(s.ids) {
		sym.Cover("distinct")
	}
	again := e.AllTriples()
	sym.Assert(len(again) == len(got), "the same on every call")
	for i := range got {
		sym.Assert(same(got[i], again[i]), "the same on every call")
	}
}

// snapshot copies an entity with everything beneath it.
func snapshot(e wisski.Entity) wisski.Entity {
	c := wisski.Entity{URI: e.URI, Path: append([]impl.Label(nil), e.Path...), Triples: append([]igraph.Triple(nil), e.Triples...)}
	c.Fields = make(map[string][]wisski.FieldValue)
	for n, vs := range e.Fields {
		c.Fields[n] = nil
		for _, v := range vs {
			v.Triples = append([]igraph.Triple(nil), v.Triples...)
			c.Fields[n] = append(c.Fields[n], v)
		}
	}
	c.Children = make(map[string][]wisski.Entity)
	for n, es := range e.Children {
		c.Children[n] = nil
		for _, x := range es {
			c.Children[n] = append(c.Children[n], snapshot(x))
		}
	}
	return c
}

func triplesUnchanged(a, b []igraph.Triple) {
	sym.Assert(len(a) == len(b), "the entity is not changed")
	for i := range a {
		sym.Assert(same(a[i], b[i]), "the entity is not changed")
	}
}

func unchanged(a, b wisski.Entity) {
	sym.Assert(a.URI == b.URI && len(a.Path) == len(b.Path) && len(a.Fields) == len(b.Fields) && len(a.Children) == len(b.Children), "the entity is not changed")
	triplesUnchanged(a.Triples, b.Triples)
	for n, vs := range a.Fields {
		ws := b.Fields[n]
		sym.Assert(len(vs) == len(ws), "the entity is not changed")
		for i := range vs {
			sym.Assert(vs[i].Value == ws[i].Value, "the entity is not changed")
			triplesUnchanged(vs[i].Triples, ws[i].Triples)
		}
	}
	for n, es := range a.Children {
		fs := b.Children[n]
		sym.Assert(len(es) == len(fs), "the entity is not changed")
		for i := range es {
			unchanged(es[i], fs[i])
		}
	}
}

// H_Shapes: triples at every place.
// Bounds: up to 3 (thorough: 4) triples with arbitrary 32-bit identities, at most two per place, over the entity, two values of one field and one of another, a child with a field, a second child and a grandchild.
//gosym:time=200
func H_Shapes() {
	s := &scene{left: 3 + sym.Tier()}
	e := wisski.Entity{URI: "e", Path: []impl.Label{"e"}, Triples: s.take()}
	e.Fields = map[string][]wisski.FieldValue{"f": s.values(2), "g": s.values(1), "none": nil}
	grand := wisski.Entity{URI: "g", Triples: s.take()}
	child := wisski.Entity{URI: "c", Triples: s.take(), Fields: map[string][]wisski.FieldValue{"f": s.values(1)},
		Children: map[string][]wisski.Entity{"grand": {grand}}}
	other := wisski.Entity{URI: "o", Triples: s.some(s.left)}
	e.Children = map[string][]wisski.Entity{"kids": {child, other}, "none": nil}
	before := snapshot(e)
	s.check(&e)
	unchanged(before, e)
}

// H_Shared: the slices of an entity have room behind them, as those an index delivers may have.
// Bounds: 4 triples with arbitrary identities; the entity's and a field's slices share one array with spare capacity.
//gosym:time=60
func H_Shared() {
	s := &scene{}
	all := s.some(4)
	e := wisski.Entity{URI: "e", Triples: all[:1]}
	e.Fields = map[string][]wisski.FieldValue{"f": {{Value: "v", Triples: all[1:2]}, {Value: "w", Triples: all[2:3]}}}
	e.Children = map[string][]wisski.Entity{"c": {{URI: "c", Triples: all[3:4]}}}
	before := snapshot(e)
	s.check(&e)
	unchanged(before, e)
	if sym.Choose("again", 2) == 1 {
		c := e.Children["c"][0]
		sym.Assert(len(c.AllTriples()) == 1, "a child has its own triples")
		sym.Cover("child")
	}
}

// H_Orders: fields and children are visited in every order.
// Bounds: 4 triples with arbitrary identities, in the entity, two fields and two kinds of children; all orders of the maps.
//gosym:time=60
func H_Orders() {
	s := &scene{}
	e := wisski.Entity{URI: "e"}
	e.Fields = map[string][]wisski.FieldValue{"f": {{Value: "v", Triples: s.some(1)}}, "g": {{Value: "w", Triples: s.some(1)}}}
	e.Children = map[string][]wisski.Entity{"c": {{URI: "c", Triples: s.some(1)}}, "d": {{URI: "d", Triples: s.some(1)}}}
	sym.MapOrder(3)
	s.check(&e)
}
