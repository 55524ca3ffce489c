// Package graph is the specification of the index: identity classes,
// inverses and added triples, kept as plain lists.
package graph

import (
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

// T is one added triple. S, P and O are positions in G.Labels.
type T struct {
	S, P, O int
	Data    bool
	Datum   impl.Datum
	Lang    impl.Language
}

// Edge is one answer of the index: a triple, or its reverse.
type Edge struct {
	S, P, O int // classes; O is -1-i for the datum of triple i
	T       int // the triple it comes from
	Role    igraph.Role
}

type G struct {
	Labels  []impl.Label
	Class   []int
	Canon   []int // class -> label
	Inv     [][2]int
	Triples []T
	Edges   []Edge
}

// Find returns the position of the label or -1.
func (g *G) Find(l impl.Label) int {
	for i, x := range g.Labels {
		if x == l {
			return i
		}
	}
	return -1
}

func (g *G) Add(l impl.Label) int {
	if i := g.Find(l); i >= 0 {
		return i
	}
	g.Labels = append(g.Labels, l)
	g.Class = append(g.Class, len(g.Canon))
	g.Canon = append(g.Canon, len(g.Labels)-1)
	return len(g.Labels) - 1
}

func (g *G) Identify(newer, old impl.Label) {
	a, b := g.Add(newer), g.Add(old)
	ca, cb := g.Class[a], g.Class[b]
	if ca == cb {
		return
	}
	for i := range g.Class {
		if g.Class[i] == cb {
			g.Class[i] = ca
		}
	}
}

// InverseOf returns the inverse of a class or -1.
func (g *G) InverseOf(c int) int {
	for _, p := range g.Inv {
		if p[0] == c {
			return p[1]
		}
	}
	return -1
}

// Invert declares two predicates inverse. It reports false when this is
// outside the contract: a predicate has at most one inverse and is not its own.
func (g *G) Invert(l, r impl.Label) bool {
	a, b := g.Add(l), g.Add(r)
	ca, cb := g.Class[a], g.Class[b]
	if ca == cb {
		return false
	}
	ia, ib := g.InverseOf(ca), g.InverseOf(cb)
	if ia == cb && ib == ca {
		return true
	}
	if ia >= 0 || ib >= 0 {
		return false
	}
	g.Inv = append(g.Inv, [2]int{ca, cb}, [2]int{cb, ca})
	return true
}

func (g *G) edge(e Edge) {
	for i, x := range g.Edges {
		if x.S == e.S && x.P == e.P && x.O == e.O {
			if e.Role < x.Role {
				g.Edges[i] = e
			}
			return
		}
	}
	g.Edges = append(g.Edges, e)
}

func (g *G) AddTriple(s, p, o impl.Label) {
	t := T{P: g.Add(p), S: g.Add(s), O: g.Add(o)}
	g.Triples = append(g.Triples, t)
	n := len(g.Triples) - 1
	g.edge(Edge{g.Class[t.S], g.Class[t.P], g.Class[t.O], n, igraph.Regular})
	if i := g.InverseOf(g.Class[t.P]); i >= 0 {
		g.edge(Edge{g.Class[t.O], i, g.Class[t.S], n, igraph.Inverse})
	}
}

func (g *G) AddData(s, p impl.Label, d impl.Datum, lang impl.Language) {
	t := T{P: g.Add(p), S: g.Add(s), O: -1, Data: true, Datum: d, Lang: lang}
	g.Triples = append(g.Triples, t)
	n := len(g.Triples) - 1
	g.edge(Edge{g.Class[t.S], g.Class[t.P], -1 - n, n, igraph.Data})
}

// Canonical is the canonical label of a class.
func (g *G) Canonical(c int) impl.Label { return g.Labels[g.Canon[c]] }

// ClassOf is the class of the label or -1.
func (g *G) ClassOf(l impl.Label) int {
	if i := g.Find(l); i >= 0 {
		return g.Class[i]
	}
	return -1
}

// IsTriple tells whether the triple is the one the edge stands for.
func (g *G) IsTriple(t igraph.Triple, e Edge) bool {
	x := g.Triples[e.T]
	if t.Role != e.Role || t.Subject != g.Labels[x.S] || t.Predicate != g.Labels[x.P] || t.SSubject != g.Canonical(e.S) || t.SPredicate != g.Canonical(e.P) {
		return false
	}
	if x.Data {
		return t.Datum == x.Datum && t.Language == x.Lang && t.Object == "" && t.SObject == ""
	}
	return t.Datum == "" && t.Language == "" && t.Object == g.Labels[x.O] && t.SObject == g.Canonical(e.O)
}

// CheckTriples asserts that the triples are those of the match: node by
// node, in any order at one node.
func (g *G) CheckTriples(ts []igraph.Triple, m Match) {
	sym.Assert(len(ts) == len(m.Edges), "one triple for every step")
	for i := 0; i < len(ts); {
		n := i + 1
		for n < len(ts) && m.At[n] == m.At[i] {
			n++
		}
		if n == i+1 {
			g.CheckTriple(ts[i], m.Edges[i])
		} else {
			used := make([]bool, n)
			for _, t := range ts[i:n] {
				found := false
				for j := i; j < n; j++ {
					if !used[j] && g.IsTriple(t, m.Edges[j]) {
						used[j], found = true, true
						break
					}
				}
				sym.Assert(found, "the triples of a node are those of its steps")
			}
		}
		i = n
	}
}

// CheckTriple asserts that the triple is the one the edge stands for.
func (g *G) CheckTriple(t igraph.Triple, e Edge) {
	x := g.Triples[e.T]
	sym.Assert(t.Role == e.Role, "the triple has the right role")
	sym.Assert(t.Subject == g.Labels[x.S] && t.Predicate == g.Labels[x.P], "the triple has its original subject and predicate")
	sym.Assert(t.SSubject == g.Canonical(e.S) && t.SPredicate == g.Canonical(e.P), "the triple has its canonical subject and predicate")
	if x.Data {
		sym.Assert(t.Datum == x.Datum && t.Language == x.Lang, "the triple has its datum and language")
		sym.Assert(t.Object == "" && t.SObject == "", "a data triple has no object")
	} else {
		sym.Assert(t.Datum == "" && t.Language == "", "a triple between nodes has no datum")
		sym.Assert(t.Object == g.Labels[x.O] && t.SObject == g.Canonical(e.O), "the triple has its original and canonical object")
	}
}

func Must(err error) { sym.Assert(err == nil, "no operation fails") }

// Open makes an empty index.
func Open(disk bool) *igraph.Index {
	ix := new(igraph.Index)
	if disk {
		Must(ix.Reset(igraph.DiskEngine{DiskMap: imap.DiskMap{Path: sym.TempDir()}}))
	} else {
		Must(ix.Reset(&igraph.MemoryEngine{}))
	}
	return ix
}

// Collect runs the query.
func Collect(p *igraph.Paths) (all []igraph.Path) {
	it := p.Paths()
	for it.Next() {
		all = append(all, it.Datum())
	}
	Must(it.Err())
	it.Close()
	return
}

// Step is one step of a query after the start.
type Step struct {
	Ending bool
	P, O   impl.Label
}

// Query is a path query.
type Query struct {
	P, O  impl.Label
	Steps []Step
}

// Match is an answer to a query.
type Match struct {
	Nodes []int // classes; the last one may be a datum (negative)
	Edges []Edge
	At    []int // the position of the node an edge belongs to
}

// Matches lists the answers to the query.
func (q Query) Matches(g *G) (all []Match) {
	cp, co := g.ClassOf(q.P), g.ClassOf(q.O)
	for _, e := range g.Edges {
		if cp >= 0 && co >= 0 && e.P == cp && e.O == co {
			all = append(all, Match{[]int{e.S}, []Edge{e}, []int{0}})
		}
	}
	for _, s := range q.Steps {
		cp := g.ClassOf(s.P)
		co := -1
		if s.Ending {
			co = g.ClassOf(s.O)
		}
		var next []Match
		for _, m := range all {
			last := m.Nodes[len(m.Nodes)-1]
			for _, e := range g.Edges {
				if cp < 0 || e.P != cp || e.S != last {
					continue
				}
				if s.Ending {
					if co < 0 || e.O != co {
						continue
					}
					next = append(next, Match{m.Nodes, append(m.Edges[:len(m.Edges):len(m.Edges)], e), append(m.At[:len(m.At):len(m.At)], len(m.Nodes)-1)})
					break
				}
				next = append(next, Match{append(m.Nodes[:len(m.Nodes):len(m.Nodes)], e.O), append(m.Edges[:len(m.Edges):len(m.Edges)], e), append(m.At[:len(m.At):len(m.At)], len(m.Nodes))})
			}
		}
		all = next
	}
	return
}

// Last is the last node.
func (m Match) Last() int { return m.Nodes[len(m.Nodes)-1] }

// Is tells whether an answer with these nodes and this datum is the match.
func (m Match) Is(g *G, labels []impl.Label, hasDatum bool, datum impl.Datum, lang impl.Language) bool {
	nodes := m.Nodes
	last := m.Last()
	if (last < 0) != hasDatum {
		return false
	}
	if last < 0 {
		t := g.Triples[-1-last]
		if t.Datum != datum || t.Lang != lang {
			return false
		}
		nodes = nodes[:len(nodes)-1]
	}
	if len(nodes) != len(labels) {
		return false
	}
	for i, n := range nodes {
		if g.Canonical(n) != labels[i] {
			return false
		}
	}
	return true
}
