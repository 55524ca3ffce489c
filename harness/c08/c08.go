// Package c08: a failure while loading is reported.
package c08

import (
	"context"
	"io"
	"os"
	"path/filepath"
	"sync"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/drincw/pathbuilder/pbxml"
	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/faulty"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/world"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/ldb"
	"github.com/FAU-CDI/hangover/internal/zverif/model/osm"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/pbm"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

func must(err error) { sym.Assert(err == nil, "no operation fails") }

// plan makes the operation at one position fail.
type plan struct {
	l     sync.Mutex
	at    int // counts down, never when negative at the start
	n     int
	armed bool
	fired string
}

func (p *plan) fault(op string) error {
	p.l.Lock()
	defer p.l.Unlock()
	if !p.armed || op == "close" || op == "leveldb.close" || op == "os.close" || op == "os.stat" {
		return nil
	}
	p.n++
	if p.n-1 == p.at {
		p.fired = op
		// what a reader reports when its input is cut short, closed or no longer wanted, or anything else
		return []error{faulty.Err, io.ErrUnexpectedEOF, os.ErrClosed, context.Canceled}[sym.Choose("error", 4)]
	}
	return nil
}

// each runs the load without failures, and then with a failure at an arbitrary operation.
func each(load func(p *plan) error) {
	p := &plan{at: -1, armed: true}
	err := load(p)
	sym.Assert(err == nil, "a load without failures succeeds")
	q := &plan{at: sym.Int("fails", 0, p.n), armed: true}
	err = load(q)
	if q.fired != "" {
		sym.Assert(err != nil, "a failure is reported: "+q.fired)
		sym.Cover("failed")
	} else {
		sym.Assert(err == nil, "a load without failures succeeds")
		sym.Cover("succeeded")
	}
}

func tokens(s *world.Source) {
	s.Triple("a", world.Same, "b")
	s.Triple("b", world.Same, "b2")
	s.Triple("p1", world.Inv, "i")
	s.Triple("a", world.Type, "kC")
	s.Triple("c", world.Type, "kE")
	s.Triple("c", "i", "b")
	s.Triple("b", "p1", "c")
	s.Data("b", "d1", "text", "en")
	s.Data("c", "d1", "text", "")
}

func bundles() *pathbuilder.Pathbuilder {
	pb := pathbuilder.NewPathbuilder()
	t := world.B(&pb, "top", nil, "kC")
	world.F(t, "name", "d1", "kC")
	world.F(t, "ref", "empty", "kC", "p1", "kE")
	u := world.B(&pb, "child", t, "kC", "p1", "kE")
	world.F(u, "title", "d1", "kC", "p1", "kE")
	world.B(&pb, "other", nil, "kE")
	return &pb
}

// H_Index: building the index.
// Bounds: a source of nine tokens (identities, an inverse, triples, data), with and without the mask; an arbitrary single operation of the source or of a storage of the index fails, or none; in memory.
func H_Index() {
	opts := sparkl.IndexOptions{CompactInterval: 4}
	if sym.Choose("mask", 2) == 1 {
		opts.Mask = bundles()
	}
	each(func(p *plan) error {
		s := &faulty.Source{Fault: p.fault}
		tokens(&s.Source)
		_, err := sparkl.MakeIndex(s, world.Predicates, &faulty.Engine{Inner: &igraph.MemoryEngine{}, Fault: p.fault}, opts, nil)
		return err
	})
}

// H_IndexDisk: building the index on disk.
// Bounds: as H_Index without mask; an arbitrary single operation of the file system or of a database fails, or none.
//gosym:native=no
func H_IndexDisk() {
	each(func(p *plan) error {
		s := new(world.Source)
		tokens(s)
		dir := sym.TempDir()
		osm.SetFault(p.fault)
		_, err := sparkl.MakeIndex(s, world.Predicates, sparkl.NewEngine(dir), sparkl.IndexOptions{CompactInterval: 4}, nil)
		osm.SetFault(nil)
		return err
	})
}

// H_Extract: extraction with failing storages and a failing index.
// Bounds: the graph of H_Index, two bundles with a child bundle and fields; an arbitrary single operation of a bundle storage or of a storage of the index fails, or none; one schedule.
func H_Extract() {
	each(func(p *plan) error {
		p.armed = false
		s := new(world.Source)
		tokens(s)
		ix, err := sparkl.MakeIndex(s, world.Predicates, &faulty.Engine{Inner: &igraph.MemoryEngine{}, Fault: p.fault}, sparkl.IndexOptions{}, nil)
		must(err)
		p.armed = true
		_, err = sparkl.LoadPathbuilder(bundles(), ix, &faulty.Bundles{Inner: storages.NewBundleEngine(""), Fault: p.fault}, nil)
		return err
	})
}

// H_ExtractDisk: extraction with failing databases.
// Bounds: as H_Extract, an arbitrary single operation of the file system or of a database fails, or none.
//gosym:native=no
//gosym:time=120
func H_ExtractDisk() {
	each(func(p *plan) error {
		dir := sym.TempDir()
		s := new(world.Source)
		tokens(s)
		ix, err := sparkl.MakeIndex(s, world.Predicates, sparkl.NewEngine(dir), sparkl.IndexOptions{}, nil)
		must(err)
		osm.SetFault(p.fault)
		_, err = sparkl.LoadPathbuilder(bundles(), ix, storages.NewBundleEngine(dir), nil)
		osm.SetFault(nil)
		return err
	})
}

// H_Schedules: extraction with a failing storage under several schedules.
// Bounds: as H_Extract, all schedules with at most one delay; an arbitrary single operation of a bundle storage fails, or none.
//gosym:time=200
func H_Schedules() {
	s := new(world.Source)
	s.Triple("a", world.Type, "kC")
	s.Triple("c", world.Type, "kE")
	s.Triple("a", "p1", "c")
	s.Data("a", "d1", "text", "en")
	ix, err := sparkl.MakeIndex(s, world.Predicates, &igraph.MemoryEngine{}, sparkl.IndexOptions{}, nil)
	must(err)
	pb := pathbuilder.NewPathbuilder()
	t := world.B(&pb, "top", nil, "kC")
	world.F(t, "name", "d1", "kC")
	world.B(&pb, "child", t, "kC", "p1", "kE")
	q := &plan{at: sym.Int("fails", 0, 12), armed: true}
	sym.Races(true)
	sym.Delays(1)
	_, err = sparkl.LoadPathbuilder(&pb, ix, &faulty.Bundles{Inner: storages.NewBundleEngine(""), Fault: q.fault}, nil)
	sym.NoSchedules()
	sym.Assert((q.fired != "") == (err != nil), "exactly a failure is reported")
	if q.fired != "" {
		sym.Cover("failed")
	}
}

// H_Identities: filling the identity map and the cache.
// Bounds: the graph of H_Index; an arbitrary single operation of a storage of the index or of the identity map fails, or none.
func H_Identities() {
	each(func(p *plan) error {
		p.armed = false
		s := new(world.Source)
		tokens(s)
		ix, err := sparkl.MakeIndex(s, world.Predicates, &faulty.Engine{Inner: &igraph.MemoryEngine{}, Fault: p.fault}, sparkl.IndexOptions{}, nil)
		must(err)
		data, err := sparkl.LoadPathbuilder(bundles(), ix, storages.NewBundleEngine(""), nil)
		must(err)
		p.armed = true
		ids := imap.MakeMemory[impl.Label, impl.Label](0)
		m := faulty.Map(&ids, p.fault)
		if err := ix.IdentityMap(m); err != nil {
			return err
		}
		_, err = sparkl.NewCache(data, m, nil)
		return err
	})
}

const quads = `# a comment
<a> <http://www.w3.org/2002/07/owl#sameAs> <b> .
<a> <http://www.w3.org/1999/02/22-rdf-syntax-ns#type> <kC> .
<c> <http://www.w3.org/1999/02/22-rdf-syntax-ns#type> <kE> .
<b> <p1> <c> .
<b> <d1> "text"@en .
`

// H_Create: loading a pathbuilder and a file of quads.
// Bounds: a file of five quads; with and without a cache directory; an arbitrary single operation on files or databases fails, or none.
//gosym:native=no
//gosym:time=200
func H_Create() {
	disk := sym.Choose("disk", 2) == 1
	each(func(p *plan) error {
		dir := sym.TempDir()
		pb, nq, cache := filepath.Join(dir, "pb.xml"), filepath.Join(dir, "data.nq"), ""
		xml, err := pbxml.Marshal(*bundles())
		must(err)
		must(os.WriteFile(pb, xml, 0o600))
		must(os.WriteFile(nq, []byte(quads), 0o600))
		if disk {
			cache = filepath.Join(dir, "cache")
		}
		osm.SetFault(p.fault)
		g, err := glass.Create(pb, nq, cache, viewer.RenderFlags{Predicates: world.Predicates}, nil)
		osm.SetFault(nil)
		if err == nil {
			es := g.Cache.Entities("top")
			sym.Assert(len(es) == 1 && len(es[0].Fields["name"]) == 1 && len(es[0].Fields["ref"]) == 1 && len(es[0].Children["child"]) == 1 && len(g.Cache.Aliases("a")) == 1, "a load that succeeds is complete")
		}
		return err
	})
}
