// Package c03: the label map is a union-find.
package c03

import (
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/ldb"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

// ref is the specification: classes of labels with a canonical member each.
type ref struct {
	labels []impl.Label
	class  []int // index of the class
	canon  []int // class -> index of its canonical label
	ids    []impl.ID
}

func (r *ref) add(l impl.Label) int {
	for i, x := range r.labels {
		if x == l {
			return i
		}
	}
	r.labels = append(r.labels, l)
	r.class = append(r.class, len(r.canon))
	r.canon = append(r.canon, len(r.labels)-1)
	return len(r.labels) - 1
}

func (r *ref) identify(newer, old impl.Label) {
	a, b := r.add(newer), r.add(old)
	ca, cb := r.class[a], r.class[b]
	if ca == cb {
		return
	}
	for i := range r.class {
		if r.class[i] == cb {
			r.class[i] = ca
		}
	}
}

func must(err error) { sym.Assert(err == nil, "no operation fails") }

func open(disk bool) *imap.IMap {
	mp := new(imap.IMap)
	if disk {
		must(mp.Reset(imap.DiskMap{Path: sym.TempDir()}))
	} else {
		must(mp.Reset(new(imap.MemoryMap)))
	}
	return mp
}

func label(name string) impl.Label {
	if sym.Choose(name+".len", 2) == 0 {
		return impl.Label(sym.String(name, 1))
	}
	return impl.Label(sym.String(name, 2))
}

func short(name string) impl.Label { return impl.Label(sym.String(name, 1)) }

// history applies n operations to the map and to the specification.
func history(mp *imap.IMap, n int, label func(string) impl.Label) *ref {
	r := new(ref)
	for k := 0; k < n; k++ {
		switch sym.Choose("op", 3) {
		case 0:
			l := label("l")
			known := len(r.labels)
			i := r.add(l)
			ids, old, err := mp.AddNew(l)
			must(err)
			sym.Assert(old == (i < known), "AddNew reports known labels")
			if !old {
				r.ids = append(r.ids, ids.Literal)
				sym.Assert(ids.Canonical == ids.Literal, "a fresh label is its own canonical label")
			}
		case 1:
			a, b := label("new"), label("old")
			r.identify(a, b)
			id, err := mp.MarkIdentical(a, b)
			must(err)
			f, err := mp.Forward(a)
			must(err)
			sym.Assert(f == id, "MarkIdentical returns the canonical identifier of the new label")
		case 2:
			r.ids = append(r.ids, mp.Next())
		}
	}
	return r
}

func check(mp *imap.IMap, r *ref, unknown bool) {
	var lits, cans []impl.ID
	for i, l := range r.labels {
		ids, ok, err := mp.Get(l)
		must(err)
		sym.Assert(ok, "every label is found")
		f, err := mp.Forward(l)
		must(err)
		sym.Assert(f == ids.Canonical, "Forward is the canonical identifier")
		sym.Assert(f.Valid() && ids.Literal.Valid(), "identifiers are valid")
		back, err := mp.Reverse(ids.Literal)
		must(err)
		sym.Assert(back == l, "the literal identifier maps back to the label")
		cl, err := mp.Reverse(f)
		must(err)
		sym.Assert(cl == r.labels[r.canon[r.class[i]]], "the canonical label is that of the class")
		for j := range lits {
			sym.Assert(lits[j] != ids.Literal, "literal identifiers are distinct")
			sym.Assert((cans[j] == f) == (r.class[i] == r.class[j]), "same canonical identifier exactly when identified")
		}
		lits, cans = append(lits, ids.Literal), append(cans, f)
	}
	for i, x := range r.ids {
		sym.Assert(x.Valid(), "fresh identifiers are valid")
		for _, y := range r.ids[:i] {
			sym.Assert(x != y, "fresh identifiers are not handed out twice")
		}
	}
	// the identity map
	m := imap.MakeMemory[impl.Label, impl.Label](0)
	must(mp.IdentityMap(&m))
	want := 0
	for i, l := range r.labels {
		c := r.labels[r.canon[r.class[i]]]
		v, ok, err := m.Get(l)
		must(err)
		if c == l {
			sym.Assert(!ok, "a canonical label is not in the identity map")
			continue
		}
		want++
		sym.Assert(ok && v == c, "the identity map gives the canonical label")
	}
	n, err := m.Count()
	must(err)
	sym.Assert(n == uint64(want), "the identity map holds nothing else")
	if !unknown {
		return
	}
	// labels never added
	u := impl.Label(sym.String("other", 1))
	for _, l := range r.labels {
		if l == u {
			return
		}
	}
	_, ok, err := mp.Get(u)
	must(err)
	f, err := mp.Forward(u)
	must(err)
	sym.Assert(!ok && !f.Valid(), "a label never added is not found")
	sym.Cover("?unknown label")
}

func run(disk bool, n int, l func(string) impl.Label) {
	mp := open(disk)
	r := history(mp, n, l)
	check(mp, r, false)
	must(mp.Compact())
	must(mp.Finalize())
	check(mp, r, true)
	sym.Observe("labels", len(r.labels))
	must(mp.Close())
	sym.Cover("checked")
}

// H_Memory: the map kept in memory.
// Bounds: all histories of 4 operations (5 in the thorough tier), arbitrary one-byte labels with every equality pattern.
func H_Memory() { run(false, 4+sym.Tier(), short) }

// H_MemoryLengths: labels of different lengths.
// Bounds: all histories of 3 operations over arbitrary labels of one or two bytes.
func H_MemoryLengths() { run(false, 3, label) }

// H_Disk: the map kept on disk.
// Bounds: all histories of 3 operations (4 in the thorough tier), arbitrary one-byte labels with every order and equality pattern.
func H_Disk() { run(true, 3+sym.Tier(), short) }

// H_Merge: two classes that already have several members are merged, in memory and on disk.
// Bounds: 3 identity declarations (4 in the thorough tier) over 4 fixed labels, every choice of operands.
func H_Merge() {
	disk := sym.Choose("disk", 2) == 1
	all := []impl.Label{"m", "d", "x", "a", "q"}
	n := 4
	mp := open(disk)
	r := new(ref)
	for _, l := range all[:n] {
		r.add(l)
		_, err := mp.Add(l)
		must(err)
	}
	ops := 3 + sym.Tier()
	for k := 0; k < ops; k++ {
		i := sym.Choose("new", n)
		j := sym.Choose("old", n)
		r.identify(all[i], all[j])
		_, err := mp.MarkIdentical(all[i], all[j])
		must(err)
	}
	check(mp, r, false)
	must(mp.Finalize())
	check(mp, r, false)
	must(mp.Close())
	sym.Cover("checked")
}
