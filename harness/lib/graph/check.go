package graph

import (
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

const Typ, Class = "ty", "cl" // never equal to a one-byte label

// TypeAll adds a triple to every label so that every node can be reached.
func TypeAll(ix *igraph.Index, g *G) {
	labels := len(g.Labels)
	for _, l := range g.Labels[:labels] {
		g.AddTriple(l, Typ, Class)
		Must(ix.AddTriple(l, Typ, Class))
	}
}

// CheckIndex asks for the subjects and objects of every pair of labels.
func CheckIndex(ix *igraph.Index, g *G) {
	for _, p := range g.Labels {
		cp := g.ClassOf(p)
		if g.Canonical(cp) != p && p != g.Labels[0] {
			continue // other names of the class are asked once
		}
		for _, o := range g.Labels {
			co := g.ClassOf(o)
			if g.Canonical(co) != o && o != g.Labels[0] {
				continue
			}
			subjects(ix, g, p, o, cp, co)
		}
		objects(ix, g, p, cp)
	}
}

func subjects(ix *igraph.Index, g *G, p, o impl.Label, cp, co int) {
	q, err := ix.PathsStarting(p, o)
	Must(err)
	all := Collect(q)
	want := 0
	for _, e := range g.Edges {
		if e.P == cp && e.O == co {
			want++
		}
	}
	sym.Assert(len(all) == want, "as many subjects as triples")
	seen := make([]bool, len(g.Edges))
	for _, x := range all {
		sym.Assert(len(x.Nodes) == 1 && len(x.Edges) == 0 && len(x.Triples) == 1 && !x.HasDatum, "an answer is one node with its triple")
		found := false
		for i, e := range g.Edges {
			if e.P == cp && e.O == co && !seen[i] && g.Canonical(e.S) == x.Nodes[0] {
				if !g.IsTriple(x.Triples[0], e) {
					continue
				}
				seen[i], found = true, true
				t, err := ix.Triple(x.Triples[0].ID)
				Must(err)
				sym.Assert(t == x.Triples[0], "the triple can be loaded by its identifier")
				break
			}
		}
		sym.Assert(found, "every answer is a subject of a triple")
	}
	if want > 1 {
		sym.Cover("?several subjects")
	}
}

func objects(ix *igraph.Index, g *G, p impl.Label, cp int) {
	q, err := ix.PathsStarting(Typ, Class)
	Must(err)
	Must(q.Connected(p))
	all := Collect(q)
	want := 0
	for _, e := range g.Edges {
		if e.P == cp {
			want++ // every subject is typed, except the class
			if g.Canonical(e.S) == Class {
				want--
			}
		}
	}
	sym.Assert(len(all) == want, "as many objects as triples")
	seen := make([]bool, len(g.Edges))
	for _, x := range all {
		sym.Assert(len(x.Edges) == 1 && x.Edges[0] == g.Canonical(cp) && len(x.Triples) == 2, "an answer names its predicate")
		found := false
		for i, e := range g.Edges {
			if e.P != cp || seen[i] || g.Canonical(e.S) != x.Nodes[0] {
				continue
			}
			t := g.Triples[e.T]
			if t.Data != x.HasDatum {
				continue
			}
			if t.Data {
				if t.Datum != x.Datum || t.Lang != x.Language {
					continue
				}
				sym.Assert(len(x.Nodes) == 1, "a datum is not a node")
				sym.Cover("?datum")
			} else {
				if len(x.Nodes) != 2 || g.Canonical(e.O) != x.Nodes[1] {
					continue
				}
				if e.Role == igraph.Inverse {
					sym.Cover("?inferred")
				}
			}
			if !g.IsTriple(x.Triples[1], e) {
				continue
			}
			seen[i], found = true, true
			break
		}
		sym.Assert(found, "every answer is an object of a triple")
	}
}

