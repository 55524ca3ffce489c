// Package c13: streaming gob encoding of maps and slices loses nothing.
package c13

import (
	"bytes"
	"encoding/gob"
	"errors"
	"io"

	"github.com/FAU-CDI/hangover/internal/zverif/sym"
	"github.com/FAU-CDI/hangover/pkg/sgob"
)

// rec is a struct with fields of all kinds.
type rec struct {
	N int
	S string
	B bool
	L []string
	M map[string]uint8
	R []rec
}

func text(name string) string { return sym.String(name, sym.Choose("len", 2)) }
func num(name string) int     { return int(sym.I64(name)) }
func size(max int) int        { return sym.Choose("size", max+1) }

func put(enc *gob.Encoder, v any) { sym.Assert(sgob.Encode(enc, v) == nil, "encoding succeeds") }
func get(dec *gob.Decoder, v any) { sym.Assert(sgob.Decode(dec, v) == nil, "decoding succeeds") }

func ints(max int) []int {
	s := make([]int, 0, 4)
	for k := size(max); k > 0; k-- {
		s = append(s, num("n"))
	}
	return s
}

func texts(max int) []string {
	s := []string{}
	for k := size(max); k > 0; k-- {
		s = append(s, text("s"))
	}
	return s
}

func table(max int) map[string]int {
	m := make(map[string]int)
	for k := size(max); k > 0; k-- {
		m[sym.String("key", 1)] = num("value")
	}
	return m
}

func sameInts(a, b []int) {
	sym.Assert(len(a) == len(b), "as many elements")
	for i := range a {
		sym.Assert(a[i] == b[i], "the same element at every place")
	}
}

func sameTexts(a, b []string) {
	sym.Assert(len(a) == len(b), "as many elements")
	for i := range a {
		sym.Assert(a[i] == b[i], "the same element at every place")
	}
}

func sameTable(a, b map[string]int) {
	sym.Assert(len(a) == len(b), "as many keys")
	for k, v := range a {
		w, ok := b[k]
		sym.Assert(ok, "every key")
		sym.Assert(v == w, "with its value")
	}
}

func sameRec(a, b rec) {
	sym.Assert(a.N == b.N && a.S == b.S && a.B == b.B, "the same fields")
	sameTexts(a.L, b.L)
	sym.Assert(len(a.M) == len(b.M), "as many keys")
	for k, v := range a.M {
		w, ok := b.M[k]
		sym.Assert(ok && v == w, "every key with its value")
	}
	sameRecs(a.R, b.R)
}

func sameRecs(a, b []rec) {
	sym.Assert(len(a) == len(b), "as many elements")
	for i := range a {
		sameRec(a[i], b[i])
	}
}

// H_Slice: a slice of numbers and one of texts, one after the other, into fresh and into used variables.
// Bounds: up to 3 arbitrary numbers and 3 arbitrary texts of up to one byte; the variables decoded into hold nothing or other elements.
//gosym:time=60
func H_Slice() {
	var buf bytes.Buffer
	enc := gob.NewEncoder(&buf)
	a, b := ints(3), texts(3)
	put(enc, a)
	put(enc, b)

	var x []int
	var y []string
	if sym.Bool("used") {
		x, y = []int{7, 8, 9, 10}, []string{"old"}
	}
	ox, oy := x, y
	dec := gob.NewDecoder(&buf)
	get(dec, &x)
	get(dec, &y)
	sameInts(a, x)
	sameTexts(b, y)
	sym.Assert(len(ox) == 0 || (ox[0] == 7 && ox[3] == 10 && oy[0] == "old"), "what was there before is not changed")
	sym.Assert(sgob.Decode(dec, &x) != nil, "the end of the stream is an error")
	sameInts(a, x)
	if len(a) == 3 && len(b) == 3 {
		sym.Cover("full")
	}
}

// H_Map: a map of texts to numbers, one after the other, into fresh and into used variables.
// Bounds: two maps of up to 3 and 2 arbitrary one-byte keys with arbitrary numbers; the variables hold nothing or another key; every order of the keys.
//gosym:time=90
func H_Map() {
	var buf bytes.Buffer
	enc := gob.NewEncoder(&buf)
	a, b := table(3), table(2)
	sym.MapOrder(3)
	put(enc, a)
	put(enc, b)
	sym.MapOrder(0)

	var x, y map[string]int
	if sym.Bool("used") {
		x = map[string]int{"k": 1}
		y = x
	}
	dec := gob.NewDecoder(&buf)
	get(dec, &x)
	get(dec, &y)
	sameTable(a, x)
	sameTable(b, y)
	sym.Assert(sgob.Decode(dec, &x) != nil, "the end of the stream is an error")
	if len(a) == 3 && len(b) == 2 {
		sym.Cover("full")
	}
}

// H_Nested: slices and maps in each other.
// Bounds: a slice of up to 2 slices of up to 2 numbers; a slice of up to 2 maps and a map of slices of up to 2 elements; a map of maps; a map of texts to bytes.
//gosym:time=90
func H_Nested() {
	var buf bytes.Buffer
	enc := gob.NewEncoder(&buf)
	dec := gob.NewDecoder(&buf)
	switch sym.Choose("type", 5) {
	case 0:
		v := [][]int{}
		for k := size(2); k > 0; k-- {
			v = append(v, ints(2))
		}
		put(enc, v)
		var w [][]int
		get(dec, &w)
		sym.Assert(len(v) == len(w), "as many elements")
		for i := range v {
			sameInts(v[i], w[i])
		}
		sym.Cover("slices")
	case 1:
		v := []map[string]int{}
		for k := size(2); k > 0; k-- {
			v = append(v, table(2))
		}
		put(enc, v)
		var w []map[string]int
		get(dec, &w)
		sym.Assert(len(v) == len(w), "as many elements")
		for i := range v {
			sameTable(v[i], w[i])
		}
		sym.Cover("maps in a slice")
	case 2:
		v := map[string][]string{}
		for k := size(2); k > 0; k-- {
			v[sym.String("key", 1)] = texts(2)
		}
		put(enc, v)
		w := map[string][]string{"z": {"z"}}
		get(dec, &w)
		sym.Assert(len(v) == len(w), "as many keys")
		for k := range v {
			sameTexts(v[k], w[k])
		}
		sym.Cover("slices in a map")
	case 3:
		v := map[int]map[string]int{}
		for k := size(2); k > 0; k-- {
			v[num("key")] = table(2)
		}
		put(enc, v)
		var w map[int]map[string]int
		get(dec, &w)
		sym.Assert(len(v) == len(w), "as many keys")
		for k := range v {
			u, ok := w[k]
			sym.Assert(ok, "every key")
			sameTable(v[k], u)
		}
		sym.Cover("maps in a map")
	case 4:
		v := map[string][]byte{}
		for k := size(2); k > 0; k-- {
			v[sym.String("key", 1)] = sym.Bytes("bytes", sym.Choose("n", 3))
		}
		put(enc, v)
		var w map[string][]byte
		get(dec, &w)
		sym.Assert(len(v) == len(w), "as many keys")
		for k, a := range v {
			b, ok := w[k]
			sym.Assert(ok && len(a) == len(b), "every key")
			for i := range a {
				sym.Assert(a[i] == b[i], "with its bytes")
			}
		}
		sym.Cover("bytes in a map")
	}
}

func record(deep int) (r rec) {
	r.N = num("N")
	r.S = text("S")
	r.B = sym.Bool("B")
	if sym.Bool("list") {
		r.L = append(r.L, text("L"))
	}
	if sym.Bool("map") {
		r.M = map[string]uint8{sym.String("key", 1): sym.U8("M")}
	}
	if deep > 0 && sym.Bool("child") {
		r.R = append(r.R, record(deep-1))
	}
	return r
}

// H_Structs: structs in slices and maps; fields that are zero in one and not in the next.
// Bounds: two structs with number, text, bool, list, map and child struct, arbitrary or left out, as a slice, as the values of a map, and alone into a fresh variable.
//gosym:time=120
func H_Structs() {
	var buf bytes.Buffer
	enc := gob.NewEncoder(&buf)
	dec := gob.NewDecoder(&buf)
	a, b := record(sym.Tier()), record(1)
	switch sym.Choose("type", 3) {
	case 0:
		v := []rec{a, b}
		put(enc, v)
		w := []rec{{N: 1, S: "old"}, {N: 2, L: []string{"old"}}}
		get(dec, &w)
		sameRecs(v, w)
		sym.Cover("slice")
	case 1:
		v := map[string]rec{"a": a, "b": b}
		put(enc, v)
		var w map[string]rec
		get(dec, &w)
		sym.Assert(len(w) == 2, "as many keys")
		sameRec(w["a"], a)
		sameRec(w["b"], b)
		sym.Cover("map")
	case 2:
		put(enc, a)
		put(enc, b)
		var x, y rec
		get(dec, &x)
		get(dec, &y)
		sameRec(a, x)
		sameRec(b, y)
		sym.Cover("alone")
	}
}

var errStream = errors.New("stream fails")

// stream fails after some number of writes.
type stream struct {
	buf  bytes.Buffer
	left int
}

func (s *stream) Write(p []byte) (int, error) {
	if s.left == 0 {
		return 0, errStream
	}
	s.left--
	return s.buf.Write(p)
}

// cut delivers a part of a stream and then an error.
type cut struct {
	data []byte
	err  error
}

func (c *cut) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, c.err
	}
	n := copy(p, c.data)
	c.data = c.data[n:]
	return n, nil
}

// value is a map of slices or a slice of maps, and something to decode it into.
func value() (v, w any) {
	switch sym.Choose("value", 3) {
	case 0:
		return map[string][]int{"a": {1, 2}, "b": {}, "c": {3}}, new(map[string][]int)
	case 1:
		return []map[string]int{{"a": 1}, {}, {"b": 2, "c": 3}}, new([]map[string]int)
	}
	return map[string]rec{"a": {N: 1}, "b": {L: []string{"x"}}}, new(map[string]rec)
}

// H_WriteFault: a stream that fails is an error of the encoding.
// Bounds: three nested values; the stream fails at any of its writes.
func H_WriteFault() {
	v, _ := value()
	full := &stream{left: 1000}
	put(gob.NewEncoder(full), v)
	writes := 1000 - full.left
	s := &stream{left: sym.Int("left", 0, writes)}
	left := s.left
	err := sgob.Encode(gob.NewEncoder(s), v)
	sym.Assert((err == nil) == (left == writes), "encoding fails exactly when the stream does")
	if err != nil {
		sym.Cover("failed")
	} else {
		sym.Cover("complete")
	}
}

// pieces records what every write wrote.
type pieces struct{ all [][]byte }

func (s *pieces) Write(p []byte) (int, error) {
	s.all = append(s.all, append([]byte(nil), p...))
	return len(p), nil
}

// H_ReadFault: a stream that is cut or fails is an error of the decoding.
// Bounds: three nested values; the stream ends or fails before or in the middle of any piece of it.
//gosym:time=60
func H_ReadFault() {
	v, w := value()
	var ps pieces
	put(gob.NewEncoder(&ps), v)
	at := sym.Concrete(sym.Int("at", 0, len(ps.all)))
	var data []byte
	for _, p := range ps.all[:at] {
		data = append(data, p...)
	}
	if at < len(ps.all) && sym.Bool("inside") {
		data = append(data, ps.all[at][:len(ps.all[at])/2]...)
	}
	c := &cut{data: data, err: io.EOF}
	if sym.Bool("fails") {
		c.err = errStream
	}
	err := sgob.Decode(gob.NewDecoder(c), w)
	sym.Assert((err == nil) == (at == len(ps.all)), "decoding fails exactly when the stream is not complete")
	if err != nil {
		sym.Cover("failed")
	} else {
		sym.Cover("complete")
	}
}
