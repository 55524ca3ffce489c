// Package c10: extraction finds every entity under every schedule.
package c10

import (
	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/world"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/ldb"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

func must(err error) { sym.Assert(err == nil, "no operation fails") }

func label(name string) impl.Label { return impl.Label(sym.String(name, 1)) }

// standard is a bundle with two fields and a child bundle with a field, and a second bundle.
func standard() *pathbuilder.Pathbuilder {
	pb := pathbuilder.NewPathbuilder()
	t := world.B(&pb, "top", nil, "kC")
	world.F(t, "name", "d1", "kC")
	world.F(t, "ref", "empty", "kC", "p1", "kD")
	u := world.B(&pb, "child", t, "kC", "p2", "kE")
	world.F(u, "title", "d1", "kC", "p2", "kE")
	world.B(&pb, "other", nil, "kD")
	return &pb
}

func load(src *world.Source, pb *pathbuilder.Pathbuilder, dir string, opts sparkl.IndexOptions) (*igraph.Index, map[string][]wisski.Entity) {
	ix, err := sparkl.MakeIndex(src, world.Predicates, sparkl.NewEngine(dir), opts, nil)
	must(err)
	got, err := sparkl.LoadPathbuilder(pb, ix, storages.NewBundleEngine(dir), nil)
	must(err)
	return ix, got
}

func run(src *world.Source, pb *pathbuilder.Pathbuilder, dir string) {
	g := src.Graph()
	ix, got := load(src, pb, dir, sparkl.IndexOptions{})
	world.Check(pb, g, got)
	must(ix.Close())
	sym.Cover("checked")
}

func edge(s *world.Source, preds ...impl.Label) {
	s.Triple(label("s"), preds[sym.Choose("pred", len(preds))], label("o"))
}

// H_Nodes: arbitrary typed nodes and edges between them.
// Bounds: two nodes of the entity class, one of the child class, one of the referenced class, 2 edges (3 in the thorough tier) with either predicate, all but two nodes arbitrary one-byte labels; in memory.
//gosym:time=120
func H_Nodes() {
	src := new(world.Source)
	src.Triple("a", world.Type, "kC")
	src.Triple(label("a2"), world.Type, "kC")
	src.Triple(label("b"), world.Type, "kE")
	src.Triple("c", world.Type, "kD")
	for k := 0; k < 2+sym.Tier(); k++ {
		edge(src, "p1", "p2")
	}
	run(src, standard(), "")
}

// H_Values: data on entities and children.
// Bounds: one entity class node, two child class nodes, one fixed and one arbitrary edge to children, 2 data (3 in the thorough tier) with arbitrary text and language of up to one byte on arbitrary nodes; in memory.
func H_Values() {
	src := new(world.Source)
	src.Triple("a", world.Type, "kC")
	src.Triple("b", world.Type, "kE")
	src.Triple(label("b2"), world.Type, "kE")
	src.Triple("a", "p2", "b")
	src.Triple("a", "p2", label("o"))
	for k := 0; k < 2+sym.Tier(); k++ {
		src.Data(label("x"), "d1", impl.Datum(sym.String("v", 1)), impl.Language(sym.String("l", sym.Choose("ll", 2))))
	}
	run(src, standard(), "")
}

// H_Disk: the cache directory.
// Bounds: one entity, one child and an arbitrary referenced node, 1 arbitrary edge and one from the entity, one datum.
func H_Disk() {
	src := new(world.Source)
	src.Triple("a", world.Type, "kC")
	src.Triple("b", world.Type, "kE")
	src.Triple(label("c"), world.Type, "kD")
	edge(src, "p1", "p2")
	src.Triple("a", "p2", label("o"))
	src.Data(label("x"), "d1", "v", "")
	run(src, standard(), sym.TempDir())
}

// H_Identities: identities and inverses in the data.
// Bounds: identity of two arbitrary nodes, identity of one predicate with one of the pathbuilder, an inverse of the other one; one node per class, 1 edge with any predicate; arbitrary one-byte nodes.
func H_Identities() {
	src := new(world.Source)
	if sym.Choose("node identity", 2) == 1 {
		src.Triple(label("n"), world.Same, label("m"))
	}
	if sym.Choose("predicate identity", 2) == 1 {
		src.Triple("p1", world.Same, "q1")
	}
	if sym.Choose("inverse", 2) == 1 {
		src.Triple("p2", world.Inv, "i2")
	}
	src.Triple("a", world.Type, "kC")
	src.Triple("b", world.Type, "kE")
	src.Triple(label("c"), world.Type, "kD")
	edge(src, "p1", "q1", "i2")
	run(src, standard(), "")
}

// H_Deep: three levels of bundles, paths with several steps.
// Bounds: a fixed chain, plus 1 edge (2 in the thorough tier) between any two nodes with any of the four predicates.
func H_Deep() {
	pb := pathbuilder.NewPathbuilder()
	t := world.B(&pb, "top", nil, "kC", "p0", "kC2")
	world.F(t, "name", "d1", "kC", "p0", "kC2")
	u := world.B(&pb, "mid", t, "kC", "p2", "kE")
	w := world.B(&pb, "low", u, "kC", "p2", "kE", "p3", "kF")
	world.F(w, "title", "d1", "kC", "p2", "kE", "p3", "kF", "p4", "kG")
	src := new(world.Source)
	for _, x := range []impl.Label{"kC", "kC2", "kE", "kF", "kG"} {
		src.Triple(x[1:], world.Type, x)
	}
	src.Triple("C", "p0", "C2")
	src.Triple("C", "p2", "E")
	src.Triple("E", "p3", "F")
	src.Triple("F", "p4", "G")
	src.Data("G", "d1", "text", "en")
	nodes := []impl.Label{"C", "C2", "E", "F", "G", "new"}
	src.Triple("new", world.Type, []impl.Label{"kC", "kE", "kF", "kG"}[sym.Choose("class", 4)])
	for k := 0; k < 1+sym.Tier(); k++ {
		src.Triple(nodes[sym.Choose("s", 6)], []impl.Label{"p0", "p2", "p3", "p4"}[sym.Choose("pred", 4)], nodes[sym.Choose("o", 6)])
	}
	run(src, &pb, "")
}

func small(src *world.Source) *pathbuilder.Pathbuilder {
	src.Triple("a", world.Type, "kC")
	src.Triple("a2", world.Type, "kC")
	src.Triple("b", world.Type, "kE")
	src.Triple("a", "p2", "b")
	src.Triple("a2", "p2", "b")
	src.Data("a", "d1", "v", "en")
	src.Data("a2", "d1", "w", "de")
	src.Data("b", "d1", "z", "")
	src.Triple("c", world.Type, "kD")
	src.Triple("a", "p1", "c")
	return standard()
}

func tiny(src *world.Source) *pathbuilder.Pathbuilder {
	src.Triple("a", world.Type, "kC")
	src.Triple("b", world.Type, "kE")
	src.Triple("a", "p2", "b")
	src.Data("a", "d1", "v", "en")
	src.Data("b", "d1", "z", "")
	pb := pathbuilder.NewPathbuilder()
	t := world.B(&pb, "top", nil, "kC")
	world.F(t, "name", "d1", "kC")
	u := world.B(&pb, "child", t, "kC", "p2", "kE")
	world.F(u, "title", "d1", "kC", "p2", "kE")
	return &pb
}

func schedules(dir string, n int, make func(src *world.Source) *pathbuilder.Pathbuilder) {
	src := new(world.Source)
	pb := make(src)
	g := src.Graph()
	ix, err := sparkl.MakeIndex(src, world.Predicates, sparkl.NewEngine(dir), sparkl.IndexOptions{}, nil)
	must(err)
	sym.Races(true)
	sym.Delays(n)
	got, err := sparkl.LoadPathbuilder(pb, ix, storages.NewBundleEngine(dir), nil)
	must(err)
	sym.NoSchedules()
	sym.Races(false)
	world.Check(pb, g, got)
	must(ix.Close())
	sym.Cover("checked")
}

// H_Schedules: the goroutines of an extraction in memory, interleaved.
// Bounds: one fixed source with 3 entities, a shared child and 4 values; every schedule that deviates from round-robin by at most 1 delay (2 in the thorough tier); data races by happens-before on every one of them.
//gosym:time=150
func H_Schedules() { schedules("", 1+sym.Tier(), small) }

// H_SchedulesTwo: more deviations in a smaller extraction in memory.
// Bounds: one entity with a value and a child with a value; every schedule that deviates from round-robin by at most 2 delays (3 in the thorough tier); data races.
//gosym:time=200
func H_SchedulesTwo() { schedules("", 2+sym.Tier(), tiny) }

// H_SchedulesDisk: the same on disk.
// Bounds: as H_SchedulesTwo with 1 delay (2 in the thorough tier).
//gosym:time=150
func H_SchedulesDisk() { schedules(sym.TempDir(), 1+sym.Tier(), tiny) }

func deep(src *world.Source) *pathbuilder.Pathbuilder {
	src.Triple("a", world.Type, "kC")
	src.Triple("b", world.Type, "kE")
	src.Triple("c", world.Type, "kF")
	src.Triple("a", "p2", "b")
	src.Triple("b", "p3", "c")
	src.Data("c", "d1", "v", "en")
	pb := pathbuilder.NewPathbuilder()
	t := world.B(&pb, "top", nil, "kC")
	u := world.B(&pb, "mid", t, "kC", "p2", "kE")
	w := world.B(&pb, "low", u, "kC", "p2", "kE", "p3", "kF")
	world.F(w, "title", "d1", "kC", "p2", "kE", "p3", "kF")
	return &pb
}

// H_SchedulesDeep: three levels of bundles, interleaved, in memory and on disk.
// Bounds: one entity per level; every schedule that deviates from round-robin by at most 1 delay (2 in the thorough tier); data races.
//gosym:time=150
func H_SchedulesDeep() {
	dir := ""
	if sym.Choose("disk", 2) == 1 {
		dir = sym.TempDir()
	}
	schedules(dir, 1+sym.Tier(), deep)
}
