// Package c07: the pathbuilder mask only drops what no path can reach.
package c07

import (
	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/world"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/ldb"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

func must(err error) { sym.Assert(err == nil, "no operation fails") }

func label(name string) impl.Label { return impl.Label(sym.String(name, 1)) }

func bundles() *pathbuilder.Pathbuilder {
	pb := pathbuilder.NewPathbuilder()
	t := world.B(&pb, "top", nil, "kC")
	world.F(t, "name", "d", "kC")
	world.F(t, "ref", "empty", "kC", "1", "kD")
	u := world.B(&pb, "child", t, "kC", "2", "kE")
	world.F(u, "title", "e", "kC", "2", "kE")
	return &pb
}

// compare extracts with the default options, which mask, and without.
func compare(src *world.Source, pb *pathbuilder.Pathbuilder, dir string) {
	g := src.Graph()
	var ids [2]imap.Memory[impl.Label, impl.Label]
	for i, opts := range []sparkl.IndexOptions{sparkl.DefaultIndexOptions(pb), {}} {
		ix, err := sparkl.MakeIndex(src, world.Predicates, sparkl.NewEngine(dir), opts, nil)
		must(err)
		got, err := sparkl.LoadPathbuilder(pb, ix, storages.NewBundleEngine(dir), nil)
		must(err)
		world.Check(pb, g, got)
		ids[i] = imap.MakeMemory[impl.Label, impl.Label](0)
		must(ix.IdentityMap(&ids[i]))
		must(ix.Close())
	}
	n, _ := ids[0].Count()
	m, _ := ids[1].Count()
	sym.Assert(n == m, "the same identities")
	must(ids[0].Iterate(func(k, v impl.Label) error {
		w, ok, _ := ids[1].Get(k)
		sym.Assert(ok && v == w, "the same identities")
		return nil
	}))
	sym.Cover("compared")
}

func scene() *world.Source {
	src := new(world.Source)
	src.Triple("a", world.Type, "kC")
	src.Triple("b", world.Type, "kE")
	src.Triple("c", world.Type, "kD")
	return src
}

// pred is a predicate: one of the pathbuilder, or any other.
func pred(name string) impl.Label { return impl.Label(sym.Alpha(name, 1, "12dxy")) }

// H_Plain: no declarations.
// Bounds: three typed nodes, 2 triples or data (3 in the thorough tier) with any of five predicates (three of the pathbuilder, two others) between arbitrary one-byte labels and fixed nodes.
//gosym:time=100
func H_Plain() {
	src := scene()
	for k := 0; k < 2+sym.Tier(); k++ {
		if sym.Choose("data", 2) == 1 {
			src.Data(label("s"), pred("p"), "v", "")
		} else {
			src.Triple("a", pred("p"), label("o"))
		}
	}
	compare(src, bundles(), "")
}

// H_Identity: identified predicates, in either direction and chained.
// Bounds: 2 identities between any two of five predicates; one triple and one datum with any of them.
//gosym:time=100
func H_Identity() {
	src := new(world.Source)
	for k := 0; k < 2; k++ {
		src.Triple(pred("new"), world.Same, pred("old"))
	}
	s := scene()
	src.Tokens = append(src.Tokens, s.Tokens...)
	src.Triple("a", pred("p"), []impl.Label{"b", "c"}[sym.Choose("o", 2)])
	src.Data([]impl.Label{"a", "b"}[sym.Choose("s", 2)], pred("q"), "v", "")
	compare(src, bundles(), "")
}

// H_Inverse: predicates with an inverse.
// Bounds: 1 inverse and at most 1 identity between any two of five predicates, one triple with any of them in either direction and one datum.
//gosym:time=100
func H_Inverse() {
	src := new(world.Source)
	if sym.Choose("identity", 2) == 1 {
		src.Triple(pred("new"), world.Same, pred("old"))
	}
	src.Triple(pred("left"), world.Inv, pred("right"))
	s := scene()
	src.Tokens = append(src.Tokens, s.Tokens...)
	o := []impl.Label{"b", "c"}[sym.Choose("o", 2)]
	if sym.Choose("reversed", 2) == 1 {
		src.Triple(o, pred("p"), "a")
	} else {
		src.Triple("a", pred("p"), o)
	}
	src.Data("a", "d", "v", "")
	compare(src, bundles(), "")
}

// H_Types: the type predicate and classes under other names.
// Bounds: an identity between the type predicate, a predicate of the pathbuilder or another one, an identity of two arbitrary classes; one more typed node with an arbitrary predicate; in either order of the tokens.
func H_Types() {
	ps := []impl.Label{world.Type, "x", "1"}
	ks := []impl.Label{"kC", "kE", "kX"}
	decl := new(world.Source)
	decl.Triple(ps[sym.Choose("new", 3)], world.Same, ps[sym.Choose("old", 3)])
	decl.Triple(ks[sym.Choose("newer", 3)], "http://www.w3.org/2002/07/owl#equivalentClass", ks[sym.Choose("older", 3)])
	src := scene()
	src.Triple("n", ps[sym.Choose("p", 3)], ks[sym.Choose("k", 3)])
	src.Data("n", "d", "v", "")
	if sym.Choose("last", 2) == 1 {
		src.Tokens = append(src.Tokens, decl.Tokens...)
	} else {
		src.Tokens = append(decl.Tokens, src.Tokens...)
	}
	compare(src, bundles(), "")
}

// H_Disk: on disk.
// Bounds: an identity or an inverse between two of five predicates, one triple and one datum.
func H_Disk() {
	src := new(world.Source)
	src.Triple(pred("left"), []impl.Label{world.Same, world.Inv}[sym.Choose("kind", 2)], pred("right"))
	s := scene()
	src.Tokens = append(src.Tokens, s.Tokens...)
	src.Triple("a", pred("p"), "b")
	src.Data("a", pred("q"), "v", "")
	compare(src, bundles(), sym.TempDir())
}

// H_Nested: fields at every level of nested bundles.
// Bounds: a bundle, a child and its child, with a field each (and one that is a reference); every connecting triple and datum of a chain is there, except that any one of them has an arbitrary other predicate of eight; the fields of two levels may share their property.
//gosym:time=60
func H_Nested() {
	pb := pathbuilder.NewPathbuilder()
	names := []string{"d", "e", "f"}
	if sym.Bool("shared") {
		names[2] = "d"
	}
	t := world.B(&pb, "top", nil, "kC")
	world.F(t, "name", names[0], "kC")
	u := world.B(&pb, "child", t, "kC", "2", "kE")
	world.F(u, "title", names[1], "kC", "2", "kE")
	w := world.B(&pb, "grandchild", u, "kC", "2", "kE", "3", "kD")
	world.F(w, "part", names[2], "kC", "2", "kE", "3", "kD")
	world.F(w, "ref", "empty", "kC", "2", "kE", "3", "kD", "4", "kE")
	other := impl.Label(sym.Alpha("other", 1, "234defxy"))
	k := sym.Choose("changed", 7)
	p := func(i int, l impl.Label) impl.Label {
		if i == k {
			return other
		}
		return l
	}
	src := scene()
	src.Data("a", p(0, impl.Label(names[0])), "v0", "")
	src.Triple("a", p(1, "2"), "b")
	src.Data("b", p(2, impl.Label(names[1])), "v1", "")
	src.Triple("b", p(3, "3"), "c")
	src.Data("c", p(4, impl.Label(names[2])), "v2", "en")
	src.Triple("c", p(5, "4"), "b")
	compare(src, &pb, "")
}

// H_Values: datatype properties with nodes as objects.
// Bounds: a datatype property and a connecting predicate, each with an arbitrary one-byte object and a datum.
func H_Values() {
	src := scene()
	src.Triple("a", "d", label("o"))
	src.Triple("b", "e", label("o2"))
	src.Data("a", "1", "v", "")
	src.Data("a", "d", "v", "")
	src.Triple("a", "2", "b")
	compare(src, bundles(), "")
}
