// Package c05: path queries return exactly the matching paths.
package c05

import (
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/graph"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/ldb"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

var must = graph.Must

func label(name string) impl.Label { return impl.Label(sym.String(name, 1)) }

type (
	step  = graph.Step
	query = graph.Query
)

func ask(ix *igraph.Index, g *graph.G, q query, size bool) {
	p, err := ix.PathsStarting(q.P, q.O)
	must(err)
	for _, s := range q.Steps {
		if s.Ending {
			must(p.Ending(s.P, s.O))
		} else {
			must(p.Connected(s.P))
		}
	}
	want := q.Matches(g)
	if size {
		for k := 0; k < 2; k++ {
			n, err := p.Size()
			must(err)
			sym.Assert(n == len(want), "the size is the number of paths")
		}
	}
	got := graph.Collect(p)
	sym.Assert(len(got) == len(want), "as many paths as match")
	used := make([]bool, len(want))
	for _, x := range got {
		found := false
		for i, m := range want {
			if used[i] || !m.Is(g, x.Nodes, x.HasDatum, x.Datum, x.Language) {
				continue
			}
			used[i], found = true, true
			k := 0
			for _, s := range q.Steps {
				if s.Ending {
					continue
				}
				sym.Assert(k < len(x.Edges) && x.Edges[k] == g.Canonical(g.ClassOf(s.P)), "the edges are the queried ones")
				k++
			}
			sym.Assert(k == len(x.Edges), "the edges are the queried ones")
			g.CheckTriples(x.Triples, m)
			v := x.Value()
			if x.HasDatum {
				sym.Assert(v == x.Datum, "the value is the datum")
				sym.Cover("?path to datum")
			} else {
				sym.Assert(v == impl.Datum(x.Nodes[len(x.Nodes)-1]), "the value is the last node")
			}
			break
		}
		sym.Assert(found, "every path matches")
	}
	if len(want) > 1 {
		sym.Cover("?several paths")
	}
	if len(want) == 1 {
		sym.Cover("?one path")
	}
}

type builder struct {
	ix *igraph.Index
	g  *graph.G
}

func open(disk bool) builder { return builder{graph.Open(disk), new(graph.G)} }

func (b builder) triple(s, p, o impl.Label) {
	b.g.AddTriple(s, p, o)
	must(b.ix.AddTriple(s, p, o))
}

func (b builder) data(s, p impl.Label, d impl.Datum, l impl.Language) {
	b.g.AddData(s, p, d, l)
	must(b.ix.AddLangData(s, p, d, l))
}

const typ, class, class2, edge, edge2 = "ty", "cl", "c2", "e1", "e2"

func (b builder) ask(q query) {
	must(b.ix.Finalize())
	ask(b.ix, b.g, q, sym.Choose("size", 2) == 1)
	must(b.ix.Close())
	sym.Cover("checked")
}

func con(p impl.Label) step    { return step{P: p} }
func end(p, o impl.Label) step { return step{Ending: true, P: p, O: o} }

// H_Chain: two connecting steps between arbitrary nodes.
// Bounds: 1 typed node, 4 edges (5 in the thorough tier) with one predicate between arbitrary one-byte nodes, start and two connecting steps, with and without asking for the size.
//gosym:time=150
func H_Chain() {
	b := open(false)
	b.triple(label("a"), typ, class)
	for k := 0; k < 4+sym.Tier(); k++ {
		b.triple(label("s"), edge, label("o"))
	}
	b.ask(query{typ, class, []step{con(edge), con(edge)}})
}

// H_Ending: connecting steps with ending restrictions in between.
// Bounds: 2 typed nodes, 1 or 2 nodes of the ending class, 2 edges between arbitrary one-byte nodes; start, optional restriction, connecting step, one or two restrictions, connecting step.
func H_Ending() {
	b := open(false)
	b.triple(label("a"), typ, class)
	for k := 0; k < 1+sym.Tier(); k++ {
		b.triple(label("a2"), typ, class)
	}
	b.triple(label("b"), typ, class2)
	n := sym.Choose("more", 2)
	for k := 0; k < n; k++ {
		b.triple(label("b2"), typ, class2)
	}
	b.triple(label("s"), edge, label("o"))
	b.triple(label("s2"), edge, label("o2"))
	var st []step
	if sym.Choose("first", 2) == 1 {
		st = append(st, end(typ, class2))
	}
	st = append(st, con(edge), end(typ, class2))
	if sym.Choose("twice", 2) == 1 {
		st = append(st, end(typ, class))
	}
	st = append(st, con(edge))
	b.ask(query{typ, class, st})
}

// H_Data: paths that end in data.
// Bounds: 1 typed node, 1 edge, 2 data (3 in the thorough tier) with arbitrary one-byte or empty text and language on arbitrary one-byte nodes; start, connecting step, connecting step to the data, optionally one more step past the data.
func H_Data() {
	b := open(false)
	b.triple(label("a"), typ, class)
	b.triple(label("s"), edge, label("o"))
	for k := 0; k < 2+sym.Tier(); k++ {
		d := sym.String("d", sym.Choose("dlen", 2))
		l := sym.String("l", sym.Choose("llen", 2))
		b.data(label("x"), edge2, impl.Datum(d), impl.Language(l))
	}
	st := []step{con(edge), con(edge2)}
	switch sym.Choose("shape", 4) {
	case 1:
		st = st[1:]
	case 2:
		st = append(st, con(edge2))
	case 3:
		st = append(st, end(typ, class))
	}
	b.ask(query{typ, class, st})
}

// H_General: an arbitrary graph and an arbitrary query.
// Bounds: 2 triples with arbitrary one-byte labels everywhere, start and one connecting step (in the thorough tier also a restriction) over arbitrary one-byte labels, known or not.
//gosym:time=120
func H_General() {
	b := open(false)
	b.triple(label("s"), label("p"), label("o"))
	b.triple(label("s"), label("p"), label("o"))
	st := []step{con(label("q"))}
	if sym.Tier() > 0 {
		st = append(st, end(label("q"), label("qo")))
	}
	b.ask(query{label("q"), label("qo"), st})
}

// H_Identities: identities and inverses beneath the query.
// Bounds: 1 identity of arbitrary nodes, 1 identity of arbitrary predicates, one inverse pair, 1 typed node, 2 edges over arbitrary one-byte labels; start and two connecting steps.
func H_Identities() {
	b := open(false)
	n1, n2 := label("n1"), label("n2")
	b.g.Identify(n1, n2)
	must(b.ix.MarkIdentical(n1, n2))
	preds := []impl.Label{edge, edge2, "e3"}
	i, j := sym.Choose("i", 3), sym.Choose("j", 3)
	b.g.Identify(preds[i], preds[j])
	must(b.ix.MarkIdentical(preds[i], preds[j]))
	sym.Assume(b.g.Invert(edge, edge2))
	must(b.ix.MarkInverse(edge, edge2))
	b.triple(label("a"), typ, class)
	b.triple(label("s"), edge, label("o"))
	b.triple(label("s"), preds[sym.Choose("k", 3)], label("o"))
	b.ask(query{typ, class, []step{con(edge), con(preds[1+sym.Choose("l", 2)])}})
}

// H_Disk: the same on the disk engine.
// Bounds: 2 typed nodes, 2 edges, 1 datum between arbitrary one-byte nodes; start, connecting step, restriction, connecting step to the data.
func H_Disk() {
	b := open(true)
	b.triple(label("a"), typ, class)
	b.triple(label("b"), typ, class2)
	b.triple(label("s"), edge, label("o"))
	b.triple(label("s"), edge, label("o"))
	b.data(label("x"), edge2, impl.Datum(sym.String("d", 1)), impl.Language(sym.String("l", 1)))
	b.ask(query{typ, class, []step{con(edge), end(typ, class2), con(edge2)}})
}
