// Package c02: binary encodings round-trip, preserve order and reject short input.
package c02

import (
	"bytes"

	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

func mkID(name string) (id impl.ID) {
	id.Decode(sym.Bytes(name, impl.IDLen))
	return
}

func mkIDs(name string, n int) []impl.ID {
	ids := make([]impl.ID, n)
	for i := range ids {
		ids[i] = mkID(name)
	}
	return ids
}

func sameIDs(a, b []impl.ID) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, a[i] == b[i])
	}
	return ok
}

// guard runs f and reports whether it panicked.
func guard(f func()) (panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	f()
	return
}

// H_IDs: identifier sequences round-trip through every encoder and decoder of identifiers.
// Bounds: sequences of 0 to 6 arbitrary identifiers.
func H_IDs() {
	n := sym.Choose("n", 7)
	ids := mkIDs("id", n)
	enc := impl.EncodeIDs(ids...)
	sym.Assert(len(enc) == n*impl.IDLen, "length of the encoding")
	sym.Assert(sameIDs(impl.DecodeIDs(enc), ids), "DecodeIDs(EncodeIDs(ids)) == ids")
	for i := range ids {
		sym.Assert(impl.DecodeID(enc, i) == ids[i], "DecodeID finds the i-th identifier")
	}
	dst := make([]byte, n*impl.IDLen)
	sym.Assert(impl.MarshalIDs(dst, ids...) == nil, "MarshalIDs fits")
	sym.Assert(sym.EqBytes(dst, enc), "MarshalIDs equals EncodeIDs")
	back := make([]impl.ID, n)
	ptrs := make([]*impl.ID, n)
	for i := range back {
		ptrs[i] = &back[i]
	}
	sym.Assert(impl.UnmarshalIDs(enc, ptrs...) == nil, "UnmarshalIDs accepts the encoding")
	sym.Assert(sameIDs(back, ids), "UnmarshalIDs returns the identifiers")
	if n == 1 {
		b, err := impl.MarshalID(ids[0])
		sym.Assert(err == nil && sym.EqBytes(b, enc), "MarshalID equals EncodeIDs")
		var one impl.ID
		sym.Assert(impl.UnmarshalID(&one, b) == nil && one == ids[0], "UnmarshalID round-trips")
		g, err := ids[0].GobEncode()
		sym.Assert(err == nil, "GobEncode succeeds")
		var two impl.ID
		sym.Assert(two.GobDecode(g) == nil && two == ids[0], "GobDecode round-trips")
		sym.Cover("single identifier")
	}
	sym.Cover("encoded")
}

// H_Order: the byte order of encodings is the order of identifier sequences, and encodings of one length are injective.
// Bounds: pairs of sequences of 1 to 3 arbitrary identifiers.
func H_Order() {
	n := 1 + sym.Choose("n", 3)
	a, b := mkIDs("a", n), mkIDs("b", n)
	c := bytes.Compare(impl.EncodeIDs(a...), impl.EncodeIDs(b...))
	want := 0
	for i := range a {
		if k := a[i].Compare(b[i]); k != 0 {
			want = k
			break
		}
	}
	sym.Assert(c == want, "encodings sort like the identifiers")
	sym.Assert((c == 0) == sameIDs(a, b), "encodings are injective")
	sym.Cover("ordered")
}

// H_ShortDecode: decoders reject every source that is too short without panicking, and accept every other.
// Bounds: sources of 0 to 32 arbitrary bytes, 0 to 7 destinations.
func H_ShortDecode() {
	l := sym.Choose("len", 33)
	src := sym.Bytes("src", l)
	n := sym.Choose("dests", 8)
	ids := make([]impl.ID, n)
	ptrs := make([]*impl.ID, n)
	for i := range ids {
		ptrs[i] = &ids[i]
	}
	var err error
	sym.Assert(!guard(func() { err = impl.UnmarshalIDs(src, ptrs...) }), "UnmarshalIDs does not panic")
	sym.Assert((err != nil) == (l < n*impl.IDLen), "UnmarshalIDs fails exactly on short sources")
	if err == nil {
		for i := range ids {
			sym.Assert(ids[i] == impl.DecodeID(src, i), "UnmarshalIDs decodes each")
		}
		sym.Cover("long enough")
	} else {
		sym.Cover("too short")
	}
	if n != 0 {
		return
	}
	var one impl.ID
	sym.Assert(!guard(func() { err = impl.UnmarshalID(&one, src) }), "UnmarshalID does not panic")
	sym.Assert((err != nil) == (l < impl.IDLen), "UnmarshalID fails exactly on short sources")
	var pair imap.TripleID
	sym.Assert(!guard(func() { err = pair.Unmarshal(src) }), "TripleID.Unmarshal does not panic")
	sym.Assert((err != nil) == (l < 2*impl.IDLen), "TripleID.Unmarshal fails exactly on short sources")
	var tr igraph.IndexTriple
	sym.Assert(!guard(func() { err = igraph.UnmarshalTriple(&tr, src) }), "UnmarshalTriple does not panic")
	sym.Assert((err != nil) == (l < 6*impl.IDLen+1), "UnmarshalTriple fails exactly on short sources")
	if err == nil {
		sym.Assert(byte(tr.Role) == src[0], "the role is the first byte")
		b, err := igraph.MarshalTriple(tr)
		sym.Assert(err == nil && sym.EqBytes(b, src[:len(b)]), "UnmarshalTriple loses nothing")
		sym.Cover("triple decoded")
	}
}

// H_ShortMarshal: MarshalIDs reports a destination that is too small, never panics and never writes beyond what it needs.
// Bounds: destinations of 0 to 32 bytes, 0 to 7 identifiers.
func H_ShortMarshal() {
	l := sym.Choose("len", 33)
	n := sym.Choose("ids", 8)
	ids := mkIDs("id", n)
	dst := sym.Bytes("dst", l)
	old := append([]byte{}, dst...)
	var err error
	sym.Assert(!guard(func() { err = impl.MarshalIDs(dst, ids...) }), "MarshalIDs does not panic")
	sym.Assert((err != nil) == (l < n*impl.IDLen), "MarshalIDs fails exactly on short destinations")
	if err == nil {
		sym.Assert(sym.EqBytes(dst[n*impl.IDLen:], old[n*impl.IDLen:]), "MarshalIDs writes nothing beyond the identifiers")
		sym.Assert(sym.EqBytes(dst[:n*impl.IDLen], impl.EncodeIDs(ids...)), "MarshalIDs writes the identifiers")
		sym.Cover("fits")
	} else {
		sym.Cover("does not fit")
	}
}

// H_Pair: label pairs round-trip.
// Bounds: all pairs of identifiers.
func H_Pair() {
	p := imap.TripleID{Canonical: mkID("c"), Literal: mkID("l")}
	b, err := p.Marshal()
	sym.Assert(err == nil && len(b) == 2*impl.IDLen, "Marshal succeeds")
	q := imap.TripleID{Canonical: mkID("old"), Literal: mkID("old")}
	sym.Assert(q.Unmarshal(b) == nil, "Unmarshal succeeds")
	sym.Assert(sym.And(q.Canonical == p.Canonical, q.Literal == p.Literal), "the pair is unchanged")
	sym.Cover("pair")
}

// H_Triple: stored triples round-trip.
// Bounds: every role byte and all six identifiers arbitrary, with arbitrary previous contents of the destination.
func H_Triple() {
	mk := func(n string) (t igraph.IndexTriple) {
		t.Role = igraph.Role(sym.U8(n + ".role"))
		for i := range t.Items {
			t.Items[i].Canonical = mkID(n + ".c")
			t.Items[i].Literal = mkID(n + ".l")
		}
		return
	}
	a, b := mk("a"), mk("b")
	enc, err := igraph.MarshalTriple(a)
	sym.Assert(err == nil, "MarshalTriple succeeds")
	dst := b
	sym.Assert(igraph.UnmarshalTriple(&dst, enc) == nil, "UnmarshalTriple accepts it")
	same := func(x, y igraph.IndexTriple) bool {
		ok := x.Role == y.Role
		for i := range x.Items {
			ok = sym.And(ok, x.Items[i].Canonical == y.Items[i].Canonical, x.Items[i].Literal == y.Items[i].Literal)
		}
		return ok
	}
	sym.Assert(same(dst, a), "the triple is unchanged")
	enc2, err := igraph.MarshalTriple(b)
	sym.Assert(err == nil, "MarshalTriple succeeds again")
	sym.Assert(sym.EqBytes(enc, enc2) == same(a, b), "encodings of triples are injective")
	sym.Cover("triple")
}
