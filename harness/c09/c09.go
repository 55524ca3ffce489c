// Package c09: a bundle storage returns exactly what was put into it.
package c09

import (
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/store"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/ldb"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

func label(name string) impl.Label { return impl.Label(sym.String(name, 1)) }

func engine(disk bool) storages.BundleEngine {
	if disk {
		return storages.NewBundleEngine(sym.TempDir())
	}
	return storages.NewBundleEngine("")
}

func triples(name string) (t []igraph.Triple) {
	for i := sym.Choose(name+".n", 2); i > 0; i-- {
		x := igraph.Triple{Subject: label(name), SSubject: "s", Predicate: "p", SPredicate: "q", Role: igraph.Role(sym.Choose(name+".role", 3)), Datum: impl.Datum(sym.String(name, 1)), Language: "l"}
		x.ID.Inc()
		t = append(t, x)
	}
	return
}

func value() wisski.FieldValue {
	return wisski.FieldValue{Value: impl.Datum(sym.String("v", sym.Choose("vlen", 2))), Language: impl.Language(sym.String("lang", sym.Choose("llen", 2))), Path: []impl.Label{label("vp")}}
}

// history applies n operations to the storages of a bundle with one child bundle.
func history(s *store.S, n int, distinct bool) {
	c := s.Subs["child"]
	attached := false // all entities are added before children are attached
	for k := 0; k < n; k++ {
		switch sym.Choose("op", 5) {
		case 0:
			sym.Assume(!attached)
			u := label("u")
			if distinct {
				fresh(s, u)
			}
			s.Add(u, []impl.Label{u, "x"}, nil)
		case 1:
			s.AddValue(label("u"), []string{"f", "g"}[sym.Choose("field", 2)], wisski.FieldValue{Value: impl.Datum(sym.String("v", 1))})
		case 2:
			sym.Assume(!attached)
			u := label("c")
			if distinct {
				fresh(c, u)
			}
			c.Add(u, []impl.Label{label("parent"), u}, nil)
		case 3:
			c.AddValue(label("c"), "h", wisski.FieldValue{Value: impl.Datum(sym.String("v", 1)), Language: "en"})
		case 4:
			sym.Assume(len(c.Entities) > 0)
			attached = true
			s.AddChild(label("u"), "child", c.Entities[sym.Choose("which", len(c.Entities))].URI)
		}
	}
}

func fresh(s *store.S, u impl.Label) {
	for _, e := range s.Entities {
		sym.Assume(e.URI != u)
	}
}

func run(disk bool, n int) {
	s := store.Open(engine(disk), store.Bundle("top", 1, []string{"f", "g"}, store.Bundle("child", -1, []string{"h"})))
	history(s, n, false)
	if sym.Choose("early", 2) == 1 {
		s.CheckLoad(label("q"))
		s.CheckList(-1)
	}
	store.Must(s.Real.Finalize())
	store.Must(s.Subs["child"].Real.Finalize())
	s.Check(2)
	s.CheckLoad(label("q"))
	s.Close()
	sym.Cover("checked")
}

// H_Memory: storages kept in memory.
// Bounds: all histories of 4 operations (5 in the thorough tier) on a bundle with one child bundle: adding entities, values and children under arbitrary one-byte URIs, the same or different.
func H_Memory() { run(false, 4+sym.Tier()) }

// H_Disk: storages kept on disk.
// Bounds: as H_Memory with 4 operations (5 in the thorough tier).
func H_Disk() { run(true, 4+sym.Tier()) }

// H_Content: everything an entity holds comes back.
// Bounds: two entities with up to 1 triple, 2 paths and 3 values of arbitrary short texts in 2 fields, in memory and on disk.
func H_Content() {
	s := store.Open(engine(sym.Choose("disk", 2) == 1), store.Bundle("top", sym.Choose("card", 3)-1, []string{"f", "g"}))
	a, b := label("a"), label("b")
	sym.Assume(a != b)
	s.Add(a, []impl.Label{a, label("p")}, triples("t"))
	s.Add(b, []impl.Label{b}, nil)
	for k := 0; k < 2+sym.Tier(); k++ {
		v := value()
		if k == 0 {
			v.Triples = triples("vt")
		}
		s.AddValue([]impl.Label{a, b}[sym.Choose("entity", 2)], []string{"f", "g"}[sym.Choose("field", 2)], v)
	}
	store.Must(s.Real.Finalize())
	s.Check(1)
	s.CheckLoad(a)
	s.Close()
	sym.Cover("checked")
}

// H_Deep: three levels of bundles.
// Bounds: one entity per level plus a sibling on the lowest two levels, one value per level, every order of attaching children, in memory and on disk.
func H_Deep() {
	one := wisski.FieldValue{Value: impl.Datum(sym.String("v", 1)), Path: []impl.Label{"x"}}
	low := store.Bundle("low", 2, []string{"h"})
	mid := store.Bundle("mid", 0, []string{"g"}, low)
	s := store.Open(engine(sym.Choose("disk", 2) == 1), store.Bundle("top", 1, []string{"f"}, mid))
	m := s.Subs["mid"]
	l := m.Subs["low"]
	s.Add("a", []impl.Label{"a"}, nil)
	m.Add("b", []impl.Label{"a", "b"}, nil)
	m.Add("b2", []impl.Label{"a", "b2"}, nil)
	l.Add("c", []impl.Label{"a", "b", "c"}, nil)
	l.Add("c2", []impl.Label{"a", "b2", "c2"}, nil)
	s.AddValue("a", "f", one)
	m.AddValue("b", "g", one)
	l.AddValue("c", "h", one)
	// children are attached level by level, in any order of the levels
	mids := []impl.Label{"b", "b2"}
	lows := []impl.Label{"c", "c2"}
	todo := []func(){
		func() { s.AddChild("a", "mid", mids[sym.Choose("m", 2)]) },
		func() { m.AddChild(mids[sym.Choose("m", 2)], "low", lows[sym.Choose("l", 2)]) },
		func() { m.AddChild(mids[sym.Choose("m", 2)], "low", lows[sym.Choose("l", 2)]) },
	}
	for len(todo) > 0 {
		i := sym.Choose("next", len(todo))
		todo[i]()
		todo = append(todo[:i:i], todo[i+1:]...)
	}
	s.Check(1)
	s.Close()
	sym.Cover("checked")
}
