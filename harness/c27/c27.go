// Package c27: concurrent readers do not disturb each other.
package c27

import (
	"sync"

	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/graph"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/ldb"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

var must = graph.Must

func label(name string) impl.Label { return impl.Label(sym.String(name, 1)) }

// build makes an index with identities, inverses, triples and data around two arbitrary nodes.
func build(disk bool) (*igraph.Index, *graph.G) {
	ix, g := graph.Open(disk), new(graph.G)
	g.Identify("a", "b")
	must(ix.MarkIdentical("a", "b"))
	g.Invert("p", "i")
	must(ix.MarkInverse("p", "i"))
	add := func(s, p, o impl.Label) {
		g.AddTriple(s, p, o)
		must(ix.AddTriple(s, p, o))
	}
	data := func(s, p impl.Label, d impl.Datum, l impl.Language) {
		g.AddData(s, p, d, l)
		must(ix.AddLangData(s, p, d, l))
	}
	add("a", "t", "kC")
	add("c", "t", "kC")
	add("b", "p", label("y"))
	add("c", "i", "b")
	data("b", "d", "text", "en")
	data("c", "d", "other", "")
	must(ix.Finalize())
	return ix, g
}

var queries = []graph.Query{
	{P: "t", O: "kC"},
	{P: "t", O: "kC", Steps: []graph.Step{{P: "p"}}},
	{P: "t", O: "kC", Steps: []graph.Step{{P: "p"}, {P: "d"}}},
	{P: "t", O: "kC", Steps: []graph.Step{{P: "d"}}},
	{P: "t", O: "kC", Steps: []graph.Step{{P: "p"}, {Ending: true, P: "i", O: "a"}}},
}

func start(ix *igraph.Index, q graph.Query) *igraph.Paths {
	p, err := ix.PathsStarting(q.P, q.O)
	must(err)
	for _, s := range q.Steps {
		if s.Ending {
			must(p.Ending(s.P, s.O))
		} else {
			must(p.Connected(s.P))
		}
	}
	return p
}

// result compares the answers with those of the query alone.
func result(g *graph.G, q graph.Query, all []igraph.Path) {
	want := q.Matches(g)
	sym.Assert(len(all) == len(want), "as many answers as alone")
	used := make([]bool, len(want))
	for _, x := range all {
		found := false
		for i, m := range want {
			if !used[i] && m.Is(g, x.Nodes, x.HasDatum, x.Datum, x.Language) {
				used[i], found = true, true
				g.CheckTriples(x.Triples, m)
				break
			}
		}
		sym.Assert(found, "the same answers as alone")
	}
	sym.Cover("?answers")
}

func pair(disk bool, delays int) {
	ix, g := build(disk)
	q1 := queries[sym.Choose("first", len(queries))]
	q2 := queries[sym.Choose("second", len(queries))]
	sym.Assume(len(q1.Steps) <= len(q2.Steps))
	sym.Assume(!disk || len(q1.Steps) == 1 || sym.Tier() == 1)
	var r1, r2 []igraph.Path
	var n1 int
	sym.Races(true)
	sym.Delays(delays)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		p := start(ix, q1)
		var err error
		n1, err = p.Size()
		must(err)
		r1 = graph.Collect(p)
	}()
	go func() {
		defer wg.Done()
		r2 = graph.Collect(start(ix, q2))
	}()
	wg.Wait()
	sym.NoSchedules()
	sym.Races(false)
	result(g, q1, r1)
	result(g, q2, r2)
	sym.Assert(n1 == len(r1), "the size is the number of answers")
	must(ix.Close())
	sym.Cover("checked")
}

// H_Queries: two queries at once.
// Bounds: an index with an identity, an inverse, four triples and two data, one node an arbitrary one-byte label; every pair of five queries; all schedules with at most one delay (two in the thorough tier), in memory; data races.
//gosym:time=200
func H_Queries() { pair(false, 1+sym.Tier()) }

// H_QueriesDisk: two queries at once on disk.
// Bounds: as H_Queries, on disk, the first query one of two (any in the thorough tier).
//gosym:time=100
func H_QueriesDisk() { pair(true, 1) }

// H_Reads: a query during other reads of the index.
// Bounds: the index of H_Queries, in memory or on disk; one query together with one of six other reads; all schedules with at most one delay (two in the thorough tier); data races.
//gosym:time=100
func H_Reads() {
	ix, g := build(sym.Choose("disk", 2) == 1)
	q := queries[2]
	kind := sym.Choose("read", 6)
	n, err := ix.TripleCount()
	must(err)
	var r []igraph.Path
	sym.Races(true)
	sym.Delays(1 + sym.Tier())
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		r = graph.Collect(start(ix, q))
	}()
	go func() {
		defer wg.Done()
		switch kind {
		case 0:
			m, err := ix.TripleCount()
			must(err)
			sym.Assert(m == n, "the same count as alone")
		case 1:
			m := imap.MakeMemory[impl.Label, impl.Label](0)
			must(ix.IdentityMap(&m))
			c, ok, err := m.Get("b")
			must(err)
			sym.Assert(ok && c == "a", "the same identities as alone")
		case 2:
			var id impl.ID
			id.Inc()
			t, err := ix.Triple(id)
			must(err)
			sym.Assert(t.Subject == "a" && t.SObject == "kC", "the same triple as alone")
		case 3:
			_ = ix.Stats()
		case 4:
			sym.Assert(ix.AddTriple("a", "p", "new") != nil, "modification is refused")
		case 5:
			sym.Assert(ix.Finalize() != nil, "modification is refused")
		}
	}()
	wg.Wait()
	sym.NoSchedules()
	sym.Races(false)
	result(g, q, r)
	sym.Cover("checked")
}

// H_Abandoned: a query that is not read to its end.
// Bounds: the index of H_Queries, in memory or on disk; a query of which 0 to 2 answers are read, which is then closed or not; every one of three second queries (one on disk, three in the thorough tier); all schedules with at most one delay; data races.
//gosym:time=200
func H_Abandoned() {
	disk := sym.Choose("disk", 2) == 1
	ix, g := build(disk)
	q := queries[[]int{2, 0, 4}[sym.Choose("second", 3)]]
	sym.Assume(!disk || len(q.Steps) == 2 && len(q.Steps[1].O) == 0 || sym.Tier() == 1)
	read, closed := sym.Choose("read", 3), sym.Choose("closed", 2) == 1
	sym.Races(true)
	sym.Delays(1)
	it := start(ix, queries[3]).Paths()
	for i := 0; i < read && it.Next(); i++ {
		_ = it.Datum()
	}
	if closed {
		it.Close()
	}
	r := graph.Collect(start(ix, q))
	sym.NoSchedules()
	sym.Races(false)
	result(g, q, r)
	sym.Cover("checked")
}

// H_Cache: concurrent lookups in a cache.
// Bounds: two bundles with three entities and two aliases; every pair of seven lookups of arbitrary one-byte URIs; all schedules with at most one delay; data races.
//gosym:time=150
func H_Cache() {
	e := func(u impl.Label) wisski.Entity {
		x := wisski.Entity{URI: u, Path: []impl.Label{u}, Fields: map[string][]wisski.FieldValue{}}
		x.Triples = []igraph.Triple{{Subject: u, SSubject: u, Predicate: "p", SPredicate: "p", Datum: "x", Role: igraph.Data}}
		x.Triples[0].ID.Inc()
		return x
	}
	data := map[string][]wisski.Entity{"one": {e("a"), e("b")}, "two": {e("c")}}
	ids := imap.MakeMemory[impl.Label, impl.Label](0)
	must(ids.Set("d", "a"))
	must(ids.Set("e", "z"))
	c, err := sparkl.NewCache(data, &ids, nil)
	must(err)
	canon := func(u impl.Label) impl.Label {
		switch u {
		case "d":
			return "a"
		case "e":
			return "z"
		case "a", "b", "c", "z":
			return u
		}
		return ""
	}
	in := func(u impl.Label) string {
		switch canon(u) {
		case "a", "b":
			return "one"
		case "c":
			return "two"
		}
		return ""
	}
	look := func(kind int, u impl.Label) {
		switch kind {
		case 0:
			sym.Assert(c.Canonical(u) == canon(u), "the same canonical URI as alone")
		case 1:
			b, ok := c.Bundle(u)
			sym.Assert(b == in(u) && ok == (b != ""), "the same bundle as alone")
		case 2:
			x, ok := c.Entity(u, "one")
			sym.Assert(ok == (in(u) == "one") && (!ok || x.URI == canon(u)), "the same entity as alone")
			if ok {
				ts := x.AllTriples()
				sym.Assert(len(ts) == 1 && ts[0].Subject == canon(u), "the same triples as alone")
			}
		case 3:
			as := c.Aliases(u)
			sym.Assert((len(as) == 1) == (u == "a" || u == "z"), "the same aliases as alone")
		case 4:
			ns := c.BundleNames()
			sym.Assert(len(ns) == 2 && ns[0] == "one" && ns[1] == "two", "the same bundles as alone")
		case 5:
			es := c.Entities("one")
			sym.Assert(len(es) == 2 && es[0].URI == "a" && es[1].URI == "b", "the same entities as alone")
		case 6:
			w, b, ok := c.FirstBundle("q", u)
			sym.Assert(ok == (in(u) != "") && (!ok || w == u && b == in(u)), "the same first bundle as alone")
		}
	}
	u, v := label("u"), label("v")
	k1, k2 := sym.Choose("first", 7), sym.Choose("second", 7)
	sym.Assume(k1 <= k2)
	sym.Races(true)
	sym.Delays(1)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); look(k1, u) }()
	go func() { defer wg.Done(); look(k2, v) }()
	wg.Wait()
	sym.NoSchedules()
	sym.Races(false)
	must(c.Close())
	sym.Cover("checked")
}
