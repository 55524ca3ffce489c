// Package c04: the index holds exactly the declared triples.
package c04

import (
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/graph"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/ldb"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

var must = graph.Must

func label(name string) impl.Label { return impl.Label(sym.String(name, 1)) }

type ops struct{ ident, inv, triples int }

func build(ix *igraph.Index, n ops, compact bool) *graph.G {
	g := new(graph.G)
	for k := 0; k < n.ident; k++ {
		a, b := label("new"), label("old")
		g.Identify(a, b)
		must(ix.MarkIdentical(a, b))
	}
	for k := 0; k < n.inv; k++ {
		a, b := label("left"), label("right")
		sym.Assume(g.Invert(a, b))
		must(ix.MarkInverse(a, b))
	}
	if compact {
		must(ix.Compact())
	}
	for k := 0; k < n.triples; k++ {
		s, p := label("s"), label("p")
		switch sym.Choose("object", 3) {
		case 0:
			o := label("o")
			g.AddTriple(s, p, o)
			must(ix.AddTriple(s, p, o))
		case 1:
			d := impl.Datum(sym.String("datum", 1))
			g.AddData(s, p, d, "")
			must(ix.AddData(s, p, d))
		case 2:
			lang := impl.Language(sym.String("lang", 1))
			g.AddData(s, p, "", lang)
			must(ix.AddLangData(s, p, "", lang))
		}
	}
	graph.TypeAll(ix, g)
	return g
}

func run(disk, compact bool, n ops) {
	ix := graph.Open(disk)
	g := build(ix, n, compact)
	must(ix.Finalize())
	graph.CheckIndex(ix, g)
	must(ix.Close())
	sym.Cover("checked")
}

// H_Triples: triples and data without identities.
// Bounds: all histories of 3 additions of triples, data or data with language over arbitrary one-byte labels, on the memory engine.
//gosym:time=200
func H_Triples() { run(false, false, ops{0, 0, 3}) }

// H_Identities: identities before the triples.
// Bounds: 1 identity (2 in the thorough tier), 2 additions, arbitrary one-byte labels.
func H_Identities() { run(false, true, ops{1 + sym.Tier(), 0, 2}) }

// H_Inverses: inverses before the triples.
// Bounds: 1 inverse declaration (2 in the thorough tier), 2 additions, arbitrary one-byte labels.
func H_Inverses() { run(false, false, ops{0, 1 + sym.Tier(), 2}) }

// H_All: identities and inverses together.
// Bounds: 1 identity, 1 inverse declaration, 1 addition (2 in the thorough tier), arbitrary one-byte labels.
func H_All() { run(false, false, ops{1, 1, 1 + sym.Tier()}) }

// H_Disk: the disk engine.
// Bounds: 1 identity, 1 inverse declaration, 1 addition (2 in the thorough tier), arbitrary one-byte labels.
func H_Disk() { run(true, true, ops{1, 1, 1 + sym.Tier()}) }

// H_DiskTriples: the disk engine without identities.
// Bounds: 2 additions (3 in the thorough tier), arbitrary one-byte labels.
func H_DiskTriples() { run(true, false, ops{0, 0, 2 + sym.Tier()}) }
