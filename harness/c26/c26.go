// Package c26: the disk cache writes and deletes only inside its directory.
package c26

import (
	"os"
	"strings"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/ldb"
	"github.com/FAU-CDI/hangover/internal/zverif/model/osm"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/world"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

func must(err error) { sym.Assert(err == nil, "no operation fails") }

// inside says that all paths lead strictly inside the directory. The paths are
// clean and absolute.
func inside(dir string, paths []string) {
	for _, p := range paths {
		sym.Assert(strings.HasPrefix(p, dir+"/") && len(p) > len(dir)+1, "only paths strictly inside the cache directory are touched")
	}
}

// outside makes files around the cache directory that have to stay.
func outside(dir string) []string {
	must(os.MkdirAll(dir, 0o755))
	must(os.MkdirAll("/data/x", 0o755))
	must(os.MkdirAll("/data/a", 0o755))
	paths := []string{"/data/file", "/data/x/file", "/data/a/file", dir + "/keep"}
	for _, p := range paths {
		must(os.WriteFile(p, []byte("x"), 0o644))
	}
	return paths
}

func kept(paths []string) {
	for _, p := range paths {
		_, err := os.Stat(p)
		sym.Assert(err == nil, "nothing else is deleted")
	}
}

// new is what was touched since the harness began.
type since struct{ created, removed int }

func now() since { return since{len(osm.Created()), len(osm.Removed())} }

func (s since) inside(dir string) {
	inside(dir, osm.Created()[s.created:])
	inside(dir, osm.Removed()[s.removed:])
}

func bundle(id, name string) *pathbuilder.Bundle {
	b := new(pathbuilder.Bundle)
	b.Path.ID = id
	b.Path.Bundle = name
	b.Path.IsGroup = true
	return b
}

func text(name string, max int) string {
	return sym.Alpha(name, sym.Choose("len", max+1), "./ax\\%~")
}

func put(s storages.BundleStorage, uri impl.Label) {
	must(s.Add(uri, []impl.Label{uri}, nil))
}

// holds says that the storage has exactly the given entity.
func holds(s storages.BundleStorage, uri impl.Label) {
	must(s.Finalize())
	n, err := s.Count()
	must(err)
	sym.Assert(n == 1, "a storage has its own entities only")
	e, err := s.Load(uri)
	sym.Assert(err == nil && e.URI == uri, "a storage has its own entities")
}

// H_Bundle: the storage of one bundle, twice.
// Bounds: identifiers and bundle names of up to 4 (thorough: 5) characters out of dots, slashes, backslashes, percent signs, tildes and letters, with the other one fixed; two cache directories.
//gosym:native=no
//gosym:time=150
func H_Bundle() {
	dir := [...]string{"/data/x/cache", "/data/a"}[sym.Choose("dir", 2)]
	keep := outside(dir)
	start := now()
	b := bundle("id", "name")
	if sym.Bool("id") {
		b.Path.ID = text("id", 4+sym.Tier())
	} else {
		b.Path.Bundle = text("bundle", 4+sym.Tier())
	}
	for _, uri := range []impl.Label{"first", "second"} {
		s, err := storages.NewBundleEngine(dir).NewStorage(b)
		if err != nil {
			sym.Cover("?refused")
			break
		}
		put(s, uri)
		holds(s, uri) // the second time the first entity is gone
		must(s.Close())
		sym.Cover("stored")
	}
	start.inside(dir)
	kept(keep)
}

// H_Two: the storages of two bundles at the same time.
// Bounds: two bundles with different identifiers of up to 2 (thorough: 3) characters as in H_Bundle, and bundle names that are empty, equal to the identifier or shared.
//gosym:native=no
//gosym:time=150
func H_Two() {
	dir := "/data/x/cache"
	keep := outside(dir)
	start := now()
	var bs [2]*pathbuilder.Bundle
	what := sym.Choose("names", 3)
	for i := range bs {
		id := sym.Alpha("id", 1+sym.Choose("len", 2+sym.Tier()), "./a\\%2F")
		bs[i] = bundle(id, [...]string{"", id, "shared"}[what])
	}
	sym.Assume(bs[0].MachineName() != bs[1].MachineName())
	engine := storages.NewBundleEngine(dir)
	var ss [2]storages.BundleStorage
	for i, b := range bs {
		s, err := engine.NewStorage(b)
		sym.Assert(err == nil, "two different bundles have two storages")
		ss[i] = s
	}
	put(ss[0], "first")
	put(ss[1], "second")
	holds(ss[0], "first")
	holds(ss[1], "second")
	must(ss[0].Close())
	must(ss[1].Close())
	start.inside(dir)
	kept(keep)
	sym.Cover("apart")
}

// H_Index: the storages of the index, twice in the same directory.
// Bounds: two runs that add one arbitrary triple each; two cache directories, one with what an earlier run left behind.
//gosym:native=no
func H_Index() {
	dir := [...]string{"/data/x/cache", "/data/a"}[sym.Choose("dir", 2)]
	keep := outside(dir)
	start := now()
	for k := 0; k < 2; k++ {
		var ix igraph.Index
		must(ix.Reset(sparkl.NewEngine(dir)))
		n, err := ix.TripleCount()
		must(err)
		sym.Assert(n == 0, "what an earlier run left behind is emptied before use")
		s, o := impl.Label(sym.String("s", 1)), impl.Label(sym.String("o", 1))
		must(ix.AddTriple(s, "p", o))
		must(ix.AddLangData(s, "q", "d", "en"))
		must(ix.MarkInverse("q", "r"))
		must(ix.Finalize())
		p, err := ix.PathsStarting("p", o)
		must(err)
		it := p.Paths()
		count := 0
		for it.Next() {
			count++
			sym.Assert(it.Datum().Nodes[0] == s, "the index holds what was added")
		}
		must(it.Err())
		sym.Assert(count == 1, "the index holds only what was added")
		must(ix.Close())
	}
	start.inside(dir)
	kept(keep)
	sym.Cover("index")
}

// H_Both: index and bundles in the same directory.
// Bounds: a top-level bundle and a child bundle with identifiers of up to 2 characters out of those of H_Bundle, or that are the names of index storages; one entity with a child and a value each.
//gosym:native=no
//gosym:time=100
func H_Both() {
	dir := "/data/x/cache"
	keep := outside(dir)
	start := now()
	names := [...]string{"forward.leveldb", "bundles", "triples", "."}
	id := names[sym.Choose("name", len(names))]
	if sym.Bool("other") {
		id = sym.Alpha("id", 2, "./a\\%")
	}
	pb := pathbuilder.NewPathbuilder()
	t := world.B(&pb, "top", nil, "kC")
	t.Path.ID = id
	world.F(t, "name", "d1", "kC")
	u := world.B(&pb, "child", t, "kC", "p2", "kE")
	world.F(u, "title", "d1", "kC", "p2", "kE")
	src := new(world.Source)
	src.Triple("a", world.Type, "kC")
	src.Triple("b", world.Type, "kE")
	src.Triple("a", "p2", "b")
	src.Data("a", "d1", "v", "")
	src.Data("b", "d1", "w", "en")
	for k := 0; k < 2; k++ {
		st := stats.NewStats(nil)
		ix, err := sparkl.MakeIndex(src, sparkl.Predicates{}, sparkl.NewEngine(dir), sparkl.DefaultIndexOptions(&pb), st)
		must(err)
		got, err := sparkl.LoadPathbuilder(&pb, ix, storages.NewBundleEngine(dir), st)
		must(err)
		es := got[t.MachineName()]
		sym.Assert(len(es) == 1 && es[0].URI == "a" && len(es[0].Fields["name"]) == 1 && len(es[0].Children["child"]) == 1, "the entities of every run")
		must(ix.Close())
	}
	start.inside(dir)
	kept(keep)
	sym.Cover("both")
}
