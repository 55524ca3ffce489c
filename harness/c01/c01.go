// Package c01: identifiers are totally ordered by allocation and never invalid or reused.
package c01

import (
	"math/big"

	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

func mkID(name string) (id impl.ID, v uint64) {
	b := sym.Bytes(name, impl.IDLen)
	id.Decode(b)
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return
}

func val(id impl.ID) (v uint64) {
	b := make([]byte, impl.IDLen)
	id.Encode(b)
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return
}

const maxID = 1<<(8*impl.IDLen) - 1

// H_Inc: incrementing an arbitrary identifier gives the next larger value, or panics at the maximum.
// Bounds: all 2^32 identifiers.
func H_Inc() {
	id, v := mkID("id")
	panicked := false
	var next impl.ID
	func() {
		defer func() {
			if recover() != nil {
				panicked = true
			}
		}()
		next = id.Inc()
	}()
	sym.Assert(panicked == (v == maxID), "Inc panics exactly at the largest identifier")
	if panicked {
		sym.Cover("overflow")
		return
	}
	sym.Cover("incremented")
	sym.Assert(val(next) == v+1, "Inc yields the successor")
	sym.Assert(val(id) == v+1, "Inc updates the receiver")
	sym.Assert(next.Valid(), "Inc never yields the invalid identifier")
	sym.Assert(next.Compare(id) == 0 && next == id, "the returned identifier is the new value")
	var old impl.ID
	b := make([]byte, impl.IDLen)
	for i := range b {
		b[i] = byte(v >> (8 * (impl.IDLen - 1 - i)))
	}
	old.Decode(b)
	sym.Assert(old.Compare(next) < 0 && next.Compare(old) > 0, "the successor is larger")
	sym.Observe("next", val(next))
}

// H_Order: Compare is the numeric order and Valid is being non-zero.
// Bounds: all pairs of 2^32 identifiers.
func H_Order() {
	a, x := mkID("a")
	b, y := mkID("b")
	c := a.Compare(b)
	sym.Assert(sym.Implies(x < y, c == -1), "smaller compares -1")
	sym.Assert(sym.Implies(x > y, c == 1), "larger compares +1")
	sym.Assert(sym.Implies(x == y, c == 0), "equal compares 0")
	sym.Assert((a == b) == (x == y), "equality is numeric")
	sym.Assert(a.Valid() == (x != 0), "valid exactly when non-zero")
	sym.Observe("cmp", c)
	sym.Cover("compared")
	a.Reset()
	sym.Assert(!a.Valid() && val(a) == 0, "Reset gives the invalid identifier")
}

// H_BigInt: conversion to and from big integers preserves the value.
// Bounds: all 2^32 identifiers; big integers below 2^32, with an arbitrary previous destination value.
func H_BigInt() {
	id, v := mkID("id")
	dirty := big.NewInt(int64(sym.U32("dirty")))
	n := id.Int(dirty)
	sym.Assert(n == dirty, "Int returns its argument")
	sym.Assert(n.IsUint64() && n.Uint64() == v, "Int is the numeric value")
	back, _ := mkID("old")
	r := back.LoadInt(n)
	sym.Assert(r == &back && back == id, "LoadInt restores the identifier")
	sym.Observe("n", n.Uint64())
	sym.Cover("converted")
	w := uint64(sym.U32("w"))
	var o impl.ID
	o.LoadInt(new(big.Int).SetUint64(w))
	sym.Assert(val(o) == w, "LoadInt sets the numeric value")
}

// H_BigIntTooLarge: loading an integer above the maximum panics and never wraps.
// Bounds: integers up to 2^64-1.
func H_BigIntTooLarge() {
	w := sym.U64("w")
	sym.Assume(w > maxID)
	n := new(big.Int).SetUint64(w)
	panicked := false
	func() {
		defer func() {
			if recover() != nil {
				panicked = true
			}
		}()
		var id impl.ID
		id.LoadInt(n)
	}()
	sym.Cover("loaded")
	sym.Assert(panicked, "an integer above the largest identifier is refused")
}

// H_IncSequence: identifiers handed out by repeated increments are pairwise distinct and increasing.
// Bounds: 6 increments from an arbitrary start.
func H_IncSequence() {
	id, v := mkID("start")
	sym.Assume(v <= maxID-6)
	prev := id
	for i := 0; i < 6; i++ {
		n := id.Inc()
		sym.Assert(prev.Compare(n) < 0, "increasing")
		sym.Assert(n.Valid(), "valid")
		prev = n
	}
	sym.Assert(val(id) == v+6, "six increments add six")
	sym.Cover("sequence")
}
