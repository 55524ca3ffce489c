// Package c28: modification after finalization is refused, storages are released exactly once.
package c28

import (
	"errors"

	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/faulty"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/graph"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/world"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/ldb"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

var must = graph.Must

func label(name string) impl.Label { return impl.Label(sym.String(name, 1)) }

func refused(err error) {
	sym.Assert(err != nil, "modification after finalization is refused")
	sym.Assert(errors.Is(err, igraph.ErrFinalized) || errors.Is(err, imap.ErrFinalized), "it is refused as finalized")
}

func identities(ix interface {
	IdentityMap(imap.HashMap[impl.Label, impl.Label]) error
}) (all [][2]impl.Label) {
	m := imap.MakeMemory[impl.Label, impl.Label](0)
	must(ix.IdentityMap(&m))
	must(m.Iterate(func(k, v impl.Label) error {
		all = append(all, [2]impl.Label{k, v})
		return nil
	}))
	return
}

func sameIdentities(a, b [][2]impl.Label) {
	sym.Assert(len(a) == len(b), "the identities stay as they were")
	for _, x := range a {
		found := false
		for _, y := range b {
			if x == y {
				found = true
			}
		}
		sym.Assert(found, "the identities stay as they were")
	}
}

func modify(ix *igraph.Index) {
	l, m := label("x"), label("y")
	switch sym.Choose("op", 8) {
	case 0:
		refused(ix.AddTriple(l, "p", m))
	case 1:
		refused(ix.AddTriple("a", l, m))
	case 2:
		refused(ix.AddData(l, m, "new"))
	case 3:
		refused(ix.AddLangData("a", l, "new", "en"))
	case 4:
		refused(ix.MarkIdentical(l, m))
	case 5:
		refused(ix.MarkInverse(l, m))
	case 6:
		refused(ix.Compact())
	case 7:
		refused(ix.Finalize())
	}
}

func index(disk bool) {
	ix := graph.Open(disk)
	g := new(graph.G)
	g.Identify("a", "b")
	must(ix.MarkIdentical("a", "b"))
	g.Invert("p", "i")
	must(ix.MarkInverse("p", "i"))
	g.AddTriple("b", "p", "c")
	must(ix.AddTriple("b", "p", "c"))
	g.AddData("a", "p", "text", "en")
	must(ix.AddLangData("a", "p", "text", "en"))
	graph.TypeAll(ix, g)
	must(ix.Finalize())
	n, err := ix.TripleCount()
	must(err)
	st, ids := ix.Stats(), identities(ix)
	for k := 0; k < 2+sym.Tier(); k++ {
		modify(ix)
	}
	m, err := ix.TripleCount()
	must(err)
	sym.Assert(n == m && st == ix.Stats(), "the counts stay as they were")
	sameIdentities(ids, identities(ix))
	graph.CheckIndex(ix, g)
	must(ix.Close())
	sym.Cover("checked")
}

// H_Refused: changing a finalized index.
// Bounds: one index with an identity, an inverse, a triple and a datum; all histories of 2 attempted changes (3 in the thorough tier) with arbitrary one-byte labels; in memory.
func H_Refused() { index(false) }

// H_RefusedDisk: changing a finalized index on disk.
// Bounds: as H_Refused, on disk.
func H_RefusedDisk() { index(true) }

// H_Map: changing a finalized label map.
// Bounds: a map with three labels, two of them identified; all histories of 3 attempted changes with arbitrary one-byte labels; memory and disk.
func H_Map() {
	var mp imap.IMap
	if sym.Choose("disk", 2) == 1 {
		must(mp.Reset(imap.DiskMap{Path: sym.TempDir()}))
	} else {
		must(mp.Reset(&imap.MemoryMap{}))
	}
	labels := []impl.Label{"a", "b", "c"}
	for _, l := range labels {
		_, err := mp.Add(l)
		must(err)
	}
	_, err := mp.MarkIdentical("a", "b")
	must(err)
	must(mp.Finalize())
	ids := identities(&mp)
	var before [3]imap.TripleID
	for i, l := range labels {
		before[i], _, err = mp.Get(l)
		must(err)
	}
	for k := 0; k < 3; k++ {
		l, m := label("x"), label("y")
		var err error
		switch sym.Choose("op", 4) {
		case 0:
			_, err = mp.Add(l)
		case 1:
			_, _, err = mp.AddNew(l)
		case 2:
			_, err = mp.MarkIdentical(l, m)
		case 3:
			err = mp.Finalize()
		}
		sym.Assert(errors.Is(err, imap.ErrFinalized), "it is refused as finalized")
	}
	sameIdentities(ids, identities(&mp))
	l := label("l")
	id, ok, err := mp.Get(l)
	must(err)
	f, err := mp.Forward(l)
	must(err)
	known := false
	for i, x := range labels {
		if l == x {
			known = true
			sym.Assert(ok && id == before[i] && f == before[i].Canonical, "the answers stay as they were")
			r, err := mp.Reverse(id.Literal)
			must(err)
			sym.Assert(r == x, "the answers stay as they were")
		}
	}
	sym.Assert(known || !ok && !f.Valid(), "an unknown label stays unknown")
	must(mp.Close())
	sym.Cover("checked")
}

// H_Release: resets and closes, some of which fail.
// Bounds: all histories of 4 operations (5 in the thorough tier) that reset (with any or none of the openings failing), close (with every or no closing failing), add or finalize.
func H_Release() {
	e := &faulty.Engine{Inner: &igraph.MemoryEngine{}}
	var ix igraph.Index
	fail, closing := -1, false
	e.Fault = func(op string) error {
		if op == "open" {
			fail--
			if fail == -1 {
				return faulty.Err
			}
		}
		if op == "close" && closing {
			return faulty.Err
		}
		return nil
	}
	open, final := 0, false
	for k := 0; k < 4+sym.Tier(); k++ {
		fail, closing = -1, false
		switch sym.Choose("op", 4) {
		case 0:
			if fail = sym.Int("opening", -1, 7); fail == -1 {
				closing = sym.Bool("closing")
			}
			want := fail >= 0 || closing && open > 0
			was := len(e.Log)
			err := ix.Reset(e)
			sym.Assert((err != nil) == want, "a reset fails when a storage cannot be opened or closed")
			open, final = 8, false
			if want {
				open = 0
				sym.Cover("?failed")
			} else {
				sym.Assert(len(e.Log) == was+8, "every storage is opened once")
				sym.Cover("?reset")
			}
		case 1:
			closing = sym.Bool("closing")
			err := ix.Close()
			sym.Assert((err != nil) == (closing && open > 0), "closing reports a failure")
			open = 0
		case 2:
			sym.Assume(open > 0)
			err := ix.AddTriple("a", "p", "b")
			sym.Assert(final == errors.Is(err, igraph.ErrFinalized) && (err == nil) == !final, "only a finalized index refuses")
		case 3:
			sym.Assume(open > 0)
			err := ix.Finalize()
			sym.Assert(final == errors.Is(err, igraph.ErrFinalized) && (err == nil) == !final, "finalizing twice is refused")
			final = true
			sym.Cover("?finalized")
		}
		e.Released(open)
	}
	closing = false
	must(ix.Close())
	e.Released(0)
}

// H_ReleaseMap: resets and closes of the label map.
// Bounds: all histories of 5 operations that reset (with any or none of the openings failing), close (with every or no closing failing), add or finalize.
func H_ReleaseMap() {
	e := &faulty.Engine{Inner: &igraph.MemoryEngine{}}
	var mp imap.IMap
	fail, closing := -1, false
	e.Fault = func(op string) error {
		if op == "open" {
			fail--
			if fail == -1 {
				return faulty.Err
			}
		}
		if op == "close" && closing {
			return faulty.Err
		}
		return nil
	}
	open, final := 0, false
	for k := 0; k < 5; k++ {
		fail, closing = -1, false
		switch sym.Choose("op", 4) {
		case 0:
			if fail = sym.Int("opening", -1, 1); fail == -1 {
				closing = sym.Bool("closing")
			}
			want := fail >= 0 || closing && open > 0
			err := mp.Reset(e)
			sym.Assert((err != nil) == want, "a reset fails when a storage cannot be opened or closed")
			open, final = 2, false
			if want {
				open = 0
			}
		case 1:
			closing = sym.Bool("closing")
			err := mp.Close()
			sym.Assert((err != nil) == (closing && open > 0), "closing reports a failure")
			open = 0
		case 2:
			sym.Assume(open > 0)
			_, err := mp.Add("a")
			sym.Assert((err == nil) == !final, "only a finalized map refuses")
		case 3:
			sym.Assume(open > 0)
			err := mp.Finalize()
			sym.Assert((err == nil) == !final, "finalizing twice is refused")
			final = true
		}
		e.Released(open)
	}
	closing = false
	must(mp.Close())
	e.Released(0)
	sym.Cover("checked")
}

// H_Load: an indexing run that fails leaves nothing open.
// Bounds: a source of five tokens; an arbitrary single operation of the source or of a storage of the index fails, or none.
func H_Load() {
	run := func(at int) (n int, ok bool) {
		fault := func(op string) error {
			n++
			if n-1 == at && op != "close" {
				return faulty.Err
			}
			return nil
		}
		e := &faulty.Engine{Inner: &igraph.MemoryEngine{}, Fault: fault}
		s := &faulty.Source{Fault: fault}
		s.Triple("a", world.Same, "b")
		s.Triple("p", world.Inv, "i")
		s.Triple("b", "p", "c")
		s.Triple("c", world.Type, "kC")
		s.Data("b", "d", "text", "en")
		ix, err := sparkl.MakeIndex(s, world.Predicates, e, sparkl.IndexOptions{CompactInterval: 2}, nil)
		sym.Assert(s.Closed == s.Opened, "the source is closed as often as it is opened")
		if err != nil {
			e.Released(0)
			return n, false
		}
		e.Released(8)
		must(ix.Close())
		e.Released(0)
		return n, true
	}
	n, ok := run(-1)
	sym.Assert(ok, "the run without failures succeeds")
	at := sym.Int("fails", 0, n)
	if _, ok := run(at); !ok {
		sym.Cover("failed")
	}
}
