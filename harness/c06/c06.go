// Package c06: caching to disk changes nothing but where data is kept.
package c06

import (
	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/store"
	"github.com/FAU-CDI/hangover/internal/zverif/lib/world"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/ldb"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

func must(err error) { sym.Assert(err == nil, "no operation fails") }

func label(name string) impl.Label { return impl.Label(sym.String(name, 1)) }

func eqLabels(a, b []impl.Label) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func eqTriples(a, b []igraph.Triple) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func eqValue(a, b wisski.FieldValue) bool {
	return a.Value == b.Value && a.Language == b.Language && eqLabels(a.Path, b.Path) && eqTriples(a.Triples, b.Triples)
}

func sameEntity(a, b *wisski.Entity) {
	sym.Assert(a.URI == b.URI && eqLabels(a.Path, b.Path) && eqTriples(a.Triples, b.Triples), "the same entity")
	for k, vs := range a.Fields {
		sym.Assert(len(vs) == len(b.Fields[k]), "the same number of values")
		for i := range vs {
			sym.Assert(eqValue(vs[i], b.Fields[k][i]), "the same values")
		}
	}
	for k, vs := range b.Fields {
		sym.Assert(len(vs) == len(a.Fields[k]), "the same number of values")
	}
	for k, cs := range a.Children {
		sameEntities(cs, b.Children[k])
	}
	for k, cs := range b.Children {
		sym.Assert(len(cs) == len(a.Children[k]), "the same number of children")
	}
}

// sameEntities compares two lists up to their order.
func sameEntities(a, b []wisski.Entity) {
	sym.Assert(len(a) == len(b), "the same number of entities")
	used := make([]bool, len(b))
	for i := range a {
		found := false
		for j := range b {
			if !used[j] && a[i].URI == b[j].URI {
				used[j], found = true, true
				sameEntity(&a[i], &b[j])
				break
			}
		}
		sym.Assert(found, "the same entities")
	}
}

func extract(src *world.Source, pb *pathbuilder.Pathbuilder, dir string) map[string][]wisski.Entity {
	ix, err := sparkl.MakeIndex(src, world.Predicates, sparkl.NewEngine(dir), sparkl.DefaultIndexOptions(pb), nil)
	must(err)
	got, err := sparkl.LoadPathbuilder(pb, ix, storages.NewBundleEngine(dir), nil)
	must(err)
	must(ix.Close())
	return got
}

func compare(src *world.Source, pb *pathbuilder.Pathbuilder) {
	src.Graph() // within the contract
	a := extract(src, pb, "")
	b := extract(src, pb, sym.TempDir())
	sym.Assert(len(a) == len(b), "the same bundles")
	for k := range a {
		sameEntities(a[k], b[k])
	}
	sym.Cover("checked")
}

// H_Extraction: a run with and without a cache directory.
// Bounds: a bundle with two fields, a child and a grandchild bundle; one fixed node per class, 1 edge with one of three predicates to an arbitrary node, one datum (2 in the thorough tier), and one of: an identity with an arbitrary node, one more node of an arbitrary class, one more edge from an arbitrary node to a child; arbitrary one-byte nodes.
//gosym:time=150
func H_Extraction() {
	pb := pathbuilder.NewPathbuilder()
	t := world.B(&pb, "top", nil, "kC")
	world.F(t, "name", "d1", "kC")
	world.F(t, "ref", "empty", "kC", "p1", "kD")
	u := world.B(&pb, "child", t, "kC", "p2", "kE")
	world.F(u, "title", "d1", "kC", "p2", "kE")
	w := world.B(&pb, "low", u, "kC", "p2", "kE", "p3", "kF")
	world.F(w, "text", "d1", "kC", "p2", "kE", "p3", "kF")
	world.B(&pb, "other", nil, "kD", "p3", "kF")
	src := new(world.Source)
	what := sym.Choose("what", 3)
	if what == 0 || sym.Tier() > 0 {
		src.Triple(label("n"), world.Same, "b")
	}
	src.Triple("a", world.Type, "kC")
	src.Triple("b", world.Type, "kE")
	src.Triple("c", world.Type, "kD")
	src.Triple("d", world.Type, "kF")
	if what == 1 {
		src.Triple(label("e"), world.Type, []impl.Label{"kC", "kD", "kE", "kF"}[sym.Choose("class", 4)])
	}
	src.Triple("a", "p2", "b")
	src.Triple("b", "p3", "d")
	src.Triple("c", "p3", "d")
	src.Triple("a", []impl.Label{"p1", "p2", "p3"}[sym.Choose("pred", 3)], label("o"))
	if what == 2 {
		src.Triple(label("s"), "p2", "b")
	}
	for i := 0; i < 1+sym.Tier(); i++ {
		src.Data(label("x"), "d1", impl.Datum(sym.String("v", 1)), "en")
	}
	compare(src, &pb)
}

// H_Index: the two index engines under the same operations.
// Bounds: 1 identity or 1 inverse declaration (in or out of contract; both in the thorough tier), 2 additions (3 in the thorough tier) of triples or data, all labels arbitrary one-byte strings; every triple, every one-step query, the counts and the identity map are compared.
func H_Index() {
	var a, b igraph.Index
	must(a.Reset(sparkl.NewEngine("")))
	must(b.Reset(sparkl.NewEngine(sym.TempDir())))
	both := func(f func(ix *igraph.Index) error) {
		e1, e2 := f(&a), f(&b)
		sym.Assert((e1 == nil) == (e2 == nil), "the same failures")
	}
	var used, preds []impl.Label
	lab := func(name string) impl.Label {
		l := label(name)
		used = append(used, l)
		return l
	}
	what := sym.Choose("declare", 3+sym.Tier())
	if what == 1 || what == 3 {
		x, y := lab("x"), lab("y")
		both(func(ix *igraph.Index) error { return ix.MarkIdentical(x, y) })
	}
	if what > 1 {
		x, y := lab("x"), lab("y")
		both(func(ix *igraph.Index) error { return ix.MarkInverse(x, y) })
	}
	both((*igraph.Index).Compact)
	n := 1 + sym.Tier()
	for k := 0; k < n; k++ {
		s, p := lab("s"), lab("p")
		preds = append(preds, p)
		if sym.Choose("data", 2) == 1 {
			d := impl.Datum(sym.String("d", 1))
			l := impl.Language(sym.String("l", sym.Choose("ll", 2)))
			both(func(ix *igraph.Index) error { return ix.AddLangData(s, p, d, l) })
		} else {
			o := lab("o")
			both(func(ix *igraph.Index) error { return ix.AddTriple(s, p, o) })
		}
	}
	s, p := used[len(used)-1], used[0]
	preds = append(preds, p)
	both(func(ix *igraph.Index) error { return ix.AddTriple(s, p, s) })
	both((*igraph.Index).Finalize)
	sym.Assert(a.Stats() == b.Stats(), "the same statistics")
	na, err := a.TripleCount()
	must(err)
	nb, err := b.TripleCount()
	must(err)
	sym.Assert(na == nb, "the same number of triples")
	var id impl.ID
	for i := uint64(0); i <= na; i++ {
		t1, e1 := a.Triple(id)
		t2, e2 := b.Triple(id)
		sym.Assert((e1 == nil) == (e2 == nil) && t1 == t2, "the same triples")
		id.Inc()
	}
	for _, x := range preds {
		for _, y := range used {
			samePaths(&a, &b, x, y)
		}
	}
	m1, m2 := imap.MakeMemory[impl.Label, impl.Label](0), imap.MakeMemory[impl.Label, impl.Label](0)
	must(a.IdentityMap(&m1))
	must(b.IdentityMap(&m2))
	c1, _ := m1.Count()
	c2, _ := m2.Count()
	sym.Assert(c1 == c2, "the same identities")
	must(m1.Iterate(func(k, v impl.Label) error {
		w, ok, err := m2.Get(k)
		must(err)
		sym.Assert(ok && w == v, "the same identities")
		return nil
	}))
	both((*igraph.Index).Close)
	sym.Cover("checked")
}

func samePaths(a, b *igraph.Index, p, o impl.Label) {
	var got [2][]igraph.Path
	for i, ix := range []*igraph.Index{a, b} {
		q, err := ix.PathsStarting(p, o)
		must(err)
		must(q.Connected(p))
		it := q.Paths()
		for it.Next() {
			got[i] = append(got[i], it.Datum())
		}
		must(it.Err())
	}
	sym.Assert(len(got[0]) == len(got[1]), "as many paths")
	for i, x := range got[0] {
		y := got[1][i]
		sym.Assert(eqLabels(x.Nodes, y.Nodes) && eqLabels(x.Edges, y.Edges) && eqTriples(x.Triples, y.Triples), "the same paths in the same order")
		sym.Assert(x.HasDatum == y.HasDatum && x.Datum == y.Datum && x.Language == y.Language, "the same data")
	}
}

// H_LabelMap: the two label maps under the same operations.
// Bounds: all histories of 3 operations (4 in the thorough tier) over arbitrary one-byte labels; identifiers and lookups are compared.
func H_LabelMap() {
	var a, b imap.IMap
	must(a.Reset(new(imap.MemoryMap)))
	must(b.Reset(imap.DiskMap{Path: sym.TempDir()}))
	var used []impl.Label
	for k := 0; k < 3+sym.Tier(); k++ {
		switch sym.Choose("op", 3) {
		case 0:
			l := label("l")
			used = append(used, l)
			i1, o1, e1 := a.AddNew(l)
			i2, o2, e2 := b.AddNew(l)
			sym.Assert(i1 == i2 && o1 == o2 && e1 == nil && e2 == nil, "the same identifiers")
		case 1:
			x, y := label("x"), label("y")
			used = append(used, x, y)
			i1, e1 := a.MarkIdentical(x, y)
			i2, e2 := b.MarkIdentical(x, y)
			sym.Assert(i1 == i2 && e1 == nil && e2 == nil, "the same identifiers")
		case 2:
			sym.Assert(a.Next() == b.Next(), "the same identifiers")
		}
	}
	must(a.Finalize())
	must(b.Finalize())
	used = append(used, label("other"))
	for _, l := range used {
		i1, k1, e1 := a.Get(l)
		i2, k2, e2 := b.Get(l)
		sym.Assert(i1 == i2 && k1 == k2 && e1 == nil && e2 == nil, "the same identifiers")
		f1, _ := a.Forward(l)
		f2, _ := b.Forward(l)
		r1, _ := a.Reverse(f1)
		r2, _ := b.Reverse(f2)
		sym.Assert(f1 == f2 && r1 == r2, "the same canonical labels")
	}
	must(a.Close())
	must(b.Close())
	sym.Cover("checked")
}

// H_Storage: the two bundle storages under the same operations.
// Bounds: all histories of 4 operations (5 in the thorough tier) that add entities, values and children under arbitrary one-byte URIs.
func H_Storage() {
	b := store.Bundle("top", 2, []string{"f"}, store.Bundle("child", 0, []string{"h"}))
	x, y := store.Open(storages.NewBundleEngine(""), b), store.Open(storages.NewBundleEngine(sym.TempDir()), b)
	both := func(f func(s storages.BundleStorage) error) {
		sym.Assert(f(x.Real) == f(y.Real), "the same failures")
	}
	child := func(s storages.BundleStorage) storages.BundleStorage {
		if s == x.Real {
			return x.Subs["child"].Real
		}
		return y.Subs["child"].Real
	}
	attached := false
	var kids []impl.Label
	for k := 0; k < 4+sym.Tier(); k++ {
		u := label("u")
		switch sym.Choose("op", 4) {
		case 0:
			sym.Assume(!attached)
			both(func(s storages.BundleStorage) error { return s.Add(u, []impl.Label{u, "x"}, nil) })
		case 1:
			v := impl.Datum(sym.String("v", 1))
			both(func(s storages.BundleStorage) error { return s.AddFieldValue(u, "f", v, "en", []impl.Label{u}, nil) })
		case 2:
			sym.Assume(!attached)
			p := label("p")
			kids = append(kids, u)
			both(func(s storages.BundleStorage) error { return child(s).Add(u, []impl.Label{p, u}, nil) })
		case 3:
			sym.Assume(len(kids) > 0)
			attached = true
			c := kids[sym.Choose("kid", len(kids))]
			both(func(s storages.BundleStorage) error { return s.AddChild(u, "child", c) })
		}
	}
	both(storages.BundleStorage.Finalize)
	both(func(s storages.BundleStorage) error { return child(s).Finalize() })
	same(x.Real, y.Real)
	same(child(x.Real), child(y.Real))
	u := label("u")
	e1, r1 := x.Real.Load(u)
	e2, r2 := y.Real.Load(u)
	sym.Assert(r1 == r2, "the same failures")
	if r1 == nil {
		sameEntity(&e1, &e2)
	}
	x.Close()
	y.Close()
	sym.Cover("checked")
}

func list(s storages.BundleStorage, pos int) (all []storages.LabelWithParent) {
	it := s.Get(pos)
	for it.Next() {
		all = append(all, it.Datum())
	}
	must(it.Err())
	return
}

func same(a, b storages.BundleStorage) {
	n1, e1 := a.Count()
	n2, e2 := b.Count()
	sym.Assert(n1 == n2 && e1 == nil && e2 == nil, "the same number of entities")
	for pos := -1; pos < 2; pos++ {
		l1, l2 := list(a, pos), list(b, pos)
		sym.Assert(len(l1) == len(l2), "as many entities listed")
		used := make([]bool, len(l2))
		for _, x := range l1 {
			found := false
			for j, y := range l2 {
				if !used[j] && x == y {
					used[j], found = true, true
					break
				}
			}
			sym.Assert(found, "the same entities listed")
			if pos < 0 {
				e1, r1 := a.Load(x.Label)
				e2, r2 := b.Load(x.Label)
				sym.Assert(r1 == nil && r2 == nil, "listed entities can be loaded")
				sameEntity(&e1, &e2)
			}
		}
	}
}

// H_Values: a run with and without a cache directory over values of every length.
// Bounds: a bundle with two fields and a child bundle with one; 2 entities and a child, 3 data (one per place) of up to 2 arbitrary bytes with a language of up to 2 arbitrary bytes; nodes of one or two bytes.
//gosym:time=60
func H_Values() {
	pb := pathbuilder.NewPathbuilder()
	t := world.B(&pb, "top", nil, "kC")
	world.F(t, "name", "d1", "kC")
	world.F(t, "ref", "empty", "kC", "p1", "kD")
	u := world.B(&pb, "child", t, "kC", "p2", "kE")
	world.F(u, "title", "d1", "kC", "p2", "kE")
	src := new(world.Source)
	src.Triple("a", world.Type, "kC")
	src.Triple("ab", world.Type, "kC")
	src.Triple("b", world.Type, "kE")
	src.Triple("ab", "p2", "b")
	n := sym.Choose("empty", 4)
	for i, s := range []impl.Label{"a", "a", "b"} {
		v, l := 2, 2
		switch (n + i) % 4 {
		case 1:
			v, l = 0, 2
		case 2:
			v, l = 0, 0
		case 3:
			v, l = 1, 0
		}
		src.Data(s, "d1", impl.Datum(sym.String("v", v)), impl.Language(sym.String("l", l)))
	}
	compare(src, &pb)
	sym.Cover("compared")
}

// paired is a key-value map in memory and the same on disk.
type paired[K comparable, V comparable] struct {
	a, b imap.HashMap[K, V]
}

func both[K comparable, V comparable](a, b imap.HashMap[K, V], e1, e2 error) *paired[K, V] {
	must(e1)
	must(e2)
	return &paired[K, V]{a: a, b: b}
}

func (m *paired[K, V]) get(k K) {
	v1, ok1, e1 := m.a.Get(k)
	v2, ok2, e2 := m.b.Get(k)
	sym.Assert(e1 == nil && e2 == nil && ok1 == ok2 && v1 == v2, "the same value")
	h1, e1 := m.a.Has(k)
	h2, e2 := m.b.Has(k)
	sym.Assert(e1 == nil && e2 == nil && h1 == h2 && h1 == ok1, "the same keys")
	v1, e1 = m.a.GetZero(k)
	v2, e2 = m.b.GetZero(k)
	sym.Assert(e1 == nil && e2 == nil && v1 == v2, "the same value or none")
}

func (m *paired[K, V]) same() {
	c1, e1 := m.a.Count()
	c2, e2 := m.b.Count()
	sym.Assert(e1 == nil && e2 == nil && c1 == c2, "the same number of entries")
	seen := make([]K, 0, 4)
	must(m.b.Iterate(func(k K, v V) error {
		for _, x := range seen {
			sym.Assert(x != k, "every key once")
		}
		seen = append(seen, k)
		w, ok, err := m.a.Get(k)
		sym.Assert(err == nil && ok && v == w, "the same entries")
		return nil
	}))
	sym.Assert(uint64(len(seen)) == c1, "all entries")
}

// run applies arbitrary operations.
func (m *paired[K, V]) run(key func() K, value func() V) {
	for n := 3 + sym.Tier(); n > 0; n-- {
		k := key()
		switch sym.Choose("op", 2) {
		case 0:
			v := value()
			must(m.a.Set(k, v))
			must(m.b.Set(k, v))
		case 1:
			must(m.a.Delete(k))
			must(m.b.Delete(k))
		}
	}
	if sym.Bool("compact") {
		must(m.a.Compact())
		must(m.b.Compact())
	}
	m.same()
	m.get(key())
	must(m.a.Finalize())
	must(m.b.Finalize())
	m.get(key())
	m.same()
	must(m.a.Close())
	must(m.b.Close())
	sym.Cover("same")
}

func anyID() (id impl.ID) {
	must(impl.UnmarshalID(&id, sym.Bytes("id", impl.IDLen)))
	return
}

// H_Maps: every key-value map an index is made of.
// Bounds: the six maps of the index, the identity map of labels included; all histories of 3 operations (4 in the thorough tier) that set and delete arbitrary keys (any identifier, labels of up to 2 bytes) and values (any identifiers, texts of up to 2 bytes).
//gosym:time=100
func H_Maps() {
	mem, disk := sparkl.NewEngine(""), sparkl.NewEngine(sym.TempDir())
	text := func() string { return sym.String("text", sym.Choose("n", 3)) }
	switch sym.Choose("map", 6) {
	case 0:
		a, e1 := mem.Forward()
		b, e2 := disk.Forward()
		both(a, b, e1, e2).run(func() impl.Label { return impl.Label(text()) }, func() imap.TripleID { return imap.TripleID{Canonical: anyID(), Literal: anyID()} })
	case 1:
		a, e1 := mem.Reverse()
		b, e2 := disk.Reverse()
		both(a, b, e1, e2).run(anyID, func() impl.Label { return impl.Label(text()) })
	case 2:
		a, e1 := mem.Data()
		b, e2 := disk.Data()
		both(a, b, e1, e2).run(anyID, func() impl.Datum { return impl.Datum(text()) })
	case 3:
		a, e1 := mem.Language()
		b, e2 := disk.Language()
		both(a, b, e1, e2).run(anyID, func() impl.Language { return impl.Language(text()) })
	case 4:
		a, e1 := mem.Triples()
		b, e2 := disk.Triples()
		both(a, b, e1, e2).run(anyID, func() (t igraph.IndexTriple) {
			t.Role = igraph.Role(sym.U8("role"))
			for i := range t.Items {
				t.Items[i] = imap.TripleID{Canonical: anyID(), Literal: anyID()}
			}
			return
		})
	case 5:
		a, e1 := mem.Inverses()
		b, e2 := disk.Inverses()
		both(a, b, e1, e2).run(anyID, anyID)
	}
}
