// Package c11: every entity is found by its own URI and by every alias.
package c11

import (
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

func must(err error) { sym.Assert(err == nil, "no operation fails") }

func label(name string) impl.Label { return impl.Label(sym.String(name, 1)) }

type ent struct {
	uri    impl.Label
	bundle string
	mark   impl.Label // tells entities apart
}

type alias struct{ from, to impl.Label }

// scene is a set of entities and identities as an index delivers them: no URI
// has two canonical URIs, a canonical one is its own, and entities have
// canonical URIs.
type scene struct {
	ents    []ent
	aliases []alias
	bundles []string
}

func (s *scene) canonical(u impl.Label) (impl.Label, bool) {
	for _, a := range s.aliases {
		if a.from == u {
			return a.to, true
		}
	}
	for _, a := range s.aliases {
		if a.to == u {
			return u, true
		}
	}
	for _, e := range s.ents {
		if e.uri == u {
			return u, true
		}
	}
	return "", false
}

func (s *scene) in(u impl.Label, bundle string) (mark impl.Label, ok bool) {
	c, known := s.canonical(u)
	for _, e := range s.ents {
		if known && e.uri == c && e.bundle == bundle {
			return e.mark, true
		}
	}
	return "", false
}

func (s *scene) cache() sparkl.Cache {
	data := make(map[string][]wisski.Entity)
	for _, b := range s.bundles {
		data[b] = []wisski.Entity{}
	}
	for _, e := range s.ents {
		data[e.bundle] = append(data[e.bundle], wisski.Entity{URI: e.uri, Path: []impl.Label{e.mark}})
	}
	ids := imap.MakeMemory[impl.Label, impl.Label](0)
	for _, a := range s.aliases {
		must(ids.Set(a.from, a.to))
	}
	c, err := sparkl.NewCache(data, &ids, nil)
	must(err)
	return c
}

// check asks everything about a URI.
func (s *scene) check(c *sparkl.Cache, u impl.Label) {
	canon, known := s.canonical(u)
	got := c.Canonical(u)
	sym.Assert(got == canon, "the canonical URI")
	held := 0
	for _, b := range append(s.bundles[:len(s.bundles):len(s.bundles)], "none") {
		mark, ok := s.in(u, b)
		e, found := c.Entity(u, b)
		sym.Assert(found == ok, "an entity is found in the bundles that hold it")
		if ok {
			held++
			sym.Assert(e != nil && e.URI == canon && len(e.Path) == 1 && e.Path[0] == mark, "the entity itself is found")
			sym.Cover("?found")
		}
	}
	b, ok := c.Bundle(u)
	sym.Assert(ok == (held > 0), "the bundle of a URI")
	if ok {
		_, in := s.in(u, b)
		sym.Assert(in, "the bundle of a URI holds it")
	}
	as := c.Aliases(u)
	want := 0
	for _, a := range s.aliases {
		if a.to == u {
			want++
			found := false
			for _, x := range as {
				found = found || x == a.from
			}
			sym.Assert(found, "every alias is listed")
		}
	}
	sym.Assert(len(as) == want, "exactly the aliases are listed")
	if want > 0 {
		sym.Cover("?aliases")
	}
	if !known {
		sym.Cover("?unknown")
	}
}

func (s *scene) names(c *sparkl.Cache) {
	got := c.BundleNames()
	sym.Assert(len(got) == len(s.bundles), "all bundles are named")
	for i, n := range got {
		sym.Assert(i == 0 || got[i-1] < n, "the names are sorted")
		found := false
		for _, b := range s.bundles {
			found = found || b == n
		}
		sym.Assert(found, "all bundles are named")
	}
	for _, b := range append(s.bundles[:len(s.bundles):len(s.bundles)], "none") {
		es, k := c.Entities(b), 0
		for _, e := range s.ents {
			if e.bundle == b {
				sym.Assert(k < len(es) && es[k].URI == e.uri && es[k].Path[0] == e.mark, "the entities of a bundle in order")
				k++
			}
		}
		sym.Assert(k == len(es), "the entities of a bundle")
	}
}

func (s *scene) add(u impl.Label, bundle string) {
	for _, e := range s.ents {
		sym.Assume(e.uri != u || e.bundle != bundle)
	}
	s.ents = append(s.ents, ent{u, bundle, impl.Label("m" + string(rune('0'+len(s.ents))))})
}

func (s *scene) alias(from, to impl.Label) {
	sym.Assume(from != to)
	for _, a := range s.aliases {
		sym.Assume(a.from != from && a.from != to && a.to != from)
	}
	for _, e := range s.ents {
		sym.Assume(e.uri != from)
	}
	s.aliases = append(s.aliases, alias{from, to})
}

// H_Lookup: every lookup.
// Bounds: three entities in two bundles and an empty bundle, 2 identities, a URI to look up (and, in the thorough tier, a third identity), all arbitrary one-byte labels; only identities as an index delivers them.
//gosym:time=120
func H_Lookup() {
	s := &scene{bundles: []string{"two", "one", "empty"}}
	s.add(label("e1"), "one")
	s.add(label("e2"), "one")
	s.add(label("e3"), "two")
	for k := 0; k < 2+sym.Tier(); k++ {
		s.alias(label("from"), label("to"))
	}
	c := s.cache()
	s.check(&c, label("u"))
	s.names(&c)
	must(c.Close())
}

// H_Names: bundle names of any kind.
// Bounds: up to 3 bundles with arbitrary names of up to two bytes, one entity each with an arbitrary one-byte URI.
func H_Names() {
	s := &scene{}
	for k := sym.Choose("bundles", 4); k > 0; k-- {
		n := sym.String("name", sym.Choose("len", 3))
		for _, b := range s.bundles {
			sym.Assume(b != n)
		}
		sym.Assume(n != "none")
		s.bundles = append(s.bundles, n)
		s.add(label("u"), n)
	}
	c := s.cache()
	s.names(&c)
	s.check(&c, label("u"))
}

// H_First: the first bundle of a list of URIs.
// Bounds: two entities and an identity; all lists of up to 3 arbitrary one-byte URIs.
//gosym:time=60
func H_First() {
	s := &scene{bundles: []string{"one", "two"}}
	s.add("a", "one")
	s.add("b", "two")
	s.alias("c", "a")
	s.alias("d", "z")
	c := s.cache()
	var us []impl.Label
	for k := sym.Choose("n", 4); k > 0; k-- {
		us = append(us, label("u"))
	}
	u, b, ok := c.FirstBundle(us...)
	for _, x := range us {
		for _, name := range s.bundles {
			if _, in := s.in(x, name); in {
				sym.Assert(ok && u == x && b == name, "the bundle of the first URI that has one")
				sym.Cover("first")
				return
			}
		}
	}
	sym.Assert(!ok && u == "" && b == "", "no URI has a bundle")
	sym.Cover("none")
}

// H_Orders: the order in which maps are visited.
// Bounds: as H_Lookup with two entities in two bundles and 2 identities; all orders of up to three entries of a map.
//gosym:time=60
func H_Orders() {
	s := &scene{bundles: []string{"two", "one"}}
	s.add("a", "one")
	s.add(label("e2"), "two")
	s.alias("d", label("to"))
	s.alias("e", "a")
	u := label("u")
	sym.MapOrder(3)
	c := s.cache()
	s.check(&c, u)
	s.names(&c)
}
