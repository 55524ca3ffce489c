// Package world holds a data source, a pathbuilder and the specification of
// what extraction has to make of them.
package world

import (
	"io"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/graph"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

// Source delivers tokens from a list.
type Source struct {
	Tokens []sparkl.Token
	Opened int
	Closed int
	next   int
}

func (s *Source) Open() error  { s.next = 0; s.Opened++; return nil }
func (s *Source) Close() error { s.Closed++; return nil }
func (s *Source) Next() sparkl.Token {
	if s.next >= len(s.Tokens) {
		return sparkl.Token{Err: io.EOF}
	}
	s.next++
	return s.Tokens[s.next-1]
}

func (s *Source) Triple(su, p, o impl.Label) {
	s.Tokens = append(s.Tokens, sparkl.Token{Subject: su, Predicate: p, Object: o})
}

func (s *Source) Data(su, p impl.Label, d impl.Datum, l impl.Language) {
	s.Tokens = append(s.Tokens, sparkl.Token{Subject: su, Predicate: p, HasDatum: true, Datum: d, Language: l})
}

const (
	Same = wisski.SameAs
	Inv  = wisski.InverseOf
	Type = wisski.Type
)

var Predicates = sparkl.Predicates{SameAs: []impl.Label{Same, wisski.EquivalentClass, wisski.EquivalentProperty}, InverseOf: []impl.Label{Inv}}

// Graph is what the index of the source has to hold. Declarations outside the
// contract of the index are assumed away.
func (s *Source) Graph() *graph.G {
	g := new(graph.G)
	for _, t := range s.Tokens {
		if !t.HasDatum && (t.Predicate == Same || t.Predicate == wisski.EquivalentClass || t.Predicate == wisski.EquivalentProperty) {
			g.Identify(t.Subject, t.Object)
		}
	}
	for _, t := range s.Tokens {
		if !t.HasDatum && t.Predicate == Inv {
			sym.Assume(g.Invert(t.Subject, t.Object))
		}
	}
	for _, t := range s.Tokens {
		if t.HasDatum {
			g.AddData(t.Subject, t.Predicate, t.Datum, t.Language)
		} else {
			g.AddTriple(t.Subject, t.Predicate, t.Object)
		}
	}
	return g
}

// B makes a bundle and adds it to the pathbuilder.
func B(pb *pathbuilder.Pathbuilder, id string, parent *pathbuilder.Bundle, path ...string) *pathbuilder.Bundle {
	b := pb.GetOrCreate(id)
	b.Path = pathbuilder.Path{ID: id, Bundle: id, IsGroup: true, Enabled: true, PathArray: path, DatatypeProperty: "empty"}
	if parent != nil {
		b.Parent = parent
		parent.ChildBundles = append(parent.ChildBundles, b)
	}
	return b
}

// F adds a field to the bundle.
func F(b *pathbuilder.Bundle, id, datatype string, path ...string) {
	b.ChildFields = append(b.ChildFields, pathbuilder.Field{Path: pathbuilder.Path{ID: id, Field: id, Enabled: true, PathArray: path, DatatypeProperty: datatype, Cardinality: -1}})
}

func query(p pathbuilder.Path) graph.Query {
	a := append([]string{}, p.PathArray...)
	if d := p.Datatype(); d != "" && !p.IsGroup {
		a = append(a, d)
	}
	q := graph.Query{P: Type, O: impl.Label(a[0])}
	for i := 1; i < len(a); i++ {
		if i%2 == 0 {
			q.Steps = append(q.Steps, graph.Step{Ending: true, P: Type, O: impl.Label(a[i])})
		} else {
			q.Steps = append(q.Steps, graph.Step{P: impl.Label(a[i])})
		}
	}
	return q
}

func pos(b *pathbuilder.Bundle) int {
	if b.Parent == nil {
		return 0
	}
	return len(b.Path.PathArray) / 2
}

type spec struct {
	g       *graph.G
	matches map[string][]graph.Match
}

func (s *spec) of(p pathbuilder.Path) []graph.Match {
	m, ok := s.matches[p.ID]
	if !ok {
		m = query(p).Matches(s.g)
		s.matches[p.ID] = m
	}
	return m
}

// Check compares what was extracted with the specification.
func Check(pb *pathbuilder.Pathbuilder, g *graph.G, got map[string][]wisski.Entity) {
	s := &spec{g, map[string][]graph.Match{}}
	bundles := pb.Bundles()
	sym.Assert(len(got) == len(bundles), "every bundle is extracted")
	for _, b := range bundles {
		es, ok := got[b.MachineName()]
		sym.Assert(ok, "every bundle is extracted")
		var want []int
		for _, m := range s.of(b.Path) {
			if n := m.Nodes[0]; !contains(want, n) {
				want = append(want, n)
			}
		}
		sym.Assert(len(es) == len(want), "exactly the selected entities")
		for i := range es {
			found := false
			for j, c := range want {
				if c != gone && g.Canonical(c) == es[i].URI {
					want[j], found = gone, true
					s.entity(b, c, &es[i])
					break
				}
			}
			sym.Assert(found, "exactly the selected entities")
		}
		if len(es) > 0 {
			sym.Cover("entities")
		}
	}
}

const gone = -1 << 20

func contains(a []int, x int) bool {
	for _, y := range a {
		if x == y {
			return true
		}
	}
	return false
}

func (s *spec) triples(got []igraph.Triple, m graph.Match) {
	s.g.CheckTriples(got, m)
}

func (s *spec) entity(b *pathbuilder.Bundle, c int, e *wisski.Entity) {
	at := pos(b)
	found := false
	for _, m := range s.of(b.Path) {
		if m.Nodes[at] == c && m.Is(s.g, e.Path, false, "", "") {
			found = true
			s.triples(e.Triples, m)
			break
		}
	}
	sym.Assert(found, "the path of an entity is one that selects it")

	// values
	total := 0
	for _, f := range b.Fields() {
		vs := e.Fields[f.MachineName()]
		total += len(vs)
		var want []graph.Match
		for _, m := range s.of(f.Path) {
			if m.Nodes[at] == c {
				want = append(want, m)
			}
		}
		sym.Assert(len(vs) == len(want), "exactly the values of the field")
		used := make([]bool, len(want))
		for _, v := range vs {
			found := false
			for i, m := range want {
				if used[i] {
					continue
				}
				last := m.Last()
				datum, lang := v.Value, v.Language
				if last >= 0 {
					if datum != impl.Datum(s.g.Canonical(last)) || lang != "" {
						continue
					}
					datum = ""
				}
				if m.Is(s.g, v.Path, last < 0, datum, lang) {
					used[i], found = true, true
					s.triples(v.Triples, m)
					break
				}
			}
			sym.Assert(found, "exactly the values of the field")
			sym.Cover("?values")
		}
	}
	for _, vs := range e.Fields {
		total -= len(vs)
	}
	sym.Assert(total == 0, "no value under another field")

	// children
	total = 0
	for _, cb := range b.ChildBundles {
		cs := e.Children[cb.MachineName()]
		total += len(cs)
		var want []int
		for _, m := range s.of(cb.Path) {
			if m.Nodes[at] == c {
				want = append(want, m.Nodes[pos(cb)])
			}
		}
		sym.Assert(len(cs) == len(want), "exactly the children of the entity")
		for i := range cs {
			found := false
			for j, k := range want {
				if k != gone && s.g.Canonical(k) == cs[i].URI {
					want[j], found = gone, true
					s.entity(cb, k, &cs[i])
					break
				}
			}
			sym.Assert(found, "exactly the children of the entity")
			sym.Cover("?children")
		}
	}
	for _, cs := range e.Children {
		total -= len(cs)
	}
	sym.Assert(total == 0, "no child under another bundle")
}

// Engine returns an index engine, on disk below dir unless it is empty.
func Engine(dir string) igraph.Engine {
	if dir == "" {
		return &igraph.MemoryEngine{}
	}
	return igraph.DiskEngine{DiskMap: imap.DiskMap{Path: dir}}
}
