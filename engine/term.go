package main

// Bit-vector and boolean terms: hash-consed per worker, simplified on construction,
// printed as SMT-LIB2 definitions and evaluated under concrete models.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bool
	OAnd // bool
	OOr  // bool
	OIte // c, a, b
	OEq  // bv/bool, bool result
	OUlt // bool result
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	ONeg
	OShl
	OLshr
	OAshr
	OExtract // aux: lo ; width = W
	OZext
	OSext
	OConcat
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", OBand: "bvand", OBor: "bvor", OBxor: "bvxor",
	OBnot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat"}

// Term is a node of the term DAG. W == 0 means Bool.
type Term struct {
	op   Op
	w    uint8
	aux  uint8
	id   uint32
	val  uint64 // OConst
	name string // OVar
	a    [3]*Term
	n    uint8
	h    uint64 // structural hash, the same in every worker

	// evaluation memo
	evGen uint64
	evVal uint64
}

type tkey struct {
	op      Op
	w, aux  uint8
	val     uint64
	a, b, c uint32
	name    string
}

// Terms is a hash-consing table, owned by one worker.
type Terms struct {
	tab   map[tkey]*Term
	next  uint32
	True  *Term
	False *Term
}

func NewTerms() *Terms {
	t := &Terms{tab: make(map[tkey]*Term), next: 1}
	t.True = t.mk(OConst, 0, 0, 1, "")
	t.False = t.mk(OConst, 0, 0, 0, "")
	return t
}

func (ts *Terms) mk(op Op, w, aux uint8, val uint64, name string, args ...*Term) *Term {
	k := tkey{op: op, w: w, aux: aux, val: val, name: name}
	switch len(args) {
	case 3:
		k.c = args[2].id
		fallthrough
	case 2:
		k.b = args[1].id
		fallthrough
	case 1:
		k.a = args[0].id
	}
	if t, ok := ts.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, aux: aux, id: ts.next, val: val, name: name, n: uint8(len(args))}
	copy(t.a[:], args)
	t.h = t.structHash()
	ts.next++
	ts.tab[k] = t
	return t
}

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + h<<6 + h>>2
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	h *= 0xc4ceb9fe1a85ec53
	h ^= h >> 29
	return h
}

func (t *Term) structHash() uint64 {
	h := mix(uint64(t.op)<<16|uint64(t.w)<<8|uint64(t.aux), t.val)
	for i := 0; i < len(t.name); i++ {
		h = mix(h, uint64(t.name[i]))
	}
	for i := 0; i < int(t.n); i++ {
		h = mix(h, t.a[i].h)
	}
	return h
}

// after orders terms the same way in every worker.
func (t *Term) after(u *Term) bool {
	if t.h != u.h {
		return t.h > u.h
	}
	return t.id > u.id
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (ts *Terms) Const(v uint64, w uint8) *Term { return ts.mk(OConst, w, 0, v&mask(w), "") }
func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.True
	}
	return ts.False
}
func (ts *Terms) Var(name string, w uint8) *Term { return ts.mk(OVar, w, 0, 0, name) }

func (t *Term) isConst() bool { return t.op == OConst }

func (ts *Terms) Not(x *Term) *Term {
	switch x.op {
	case OConst:
		return ts.Bool(x.val == 0)
	case ONot:
		return x.a[0]
	case OUlt:
		return ts.mk(OUle, 0, 0, 0, "", x.a[1], x.a[0])
	case OUle:
		return ts.mk(OUlt, 0, 0, 0, "", x.a[1], x.a[0])
	case OSlt:
		return ts.mk(OSle, 0, 0, 0, "", x.a[1], x.a[0])
	case OSle:
		return ts.mk(OSlt, 0, 0, 0, "", x.a[1], x.a[0])
	}
	return ts.mk(ONot, 0, 0, 0, "", x)
}

func (ts *Terms) And(x, y *Term) *Term {
	if x.op == OConst {
		if x.val == 0 {
			return x
		}
		return y
	}
	if y.op == OConst {
		if y.val == 0 {
			return y
		}
		return x
	}
	if x == y {
		return x
	}
	if ts.Not(x) == y {
		return ts.False
	}
	if x.after(y) {
		x, y = y, x
	}
	return ts.mk(OAnd, 0, 0, 0, "", x, y)
}

func (ts *Terms) Or(x, y *Term) *Term {
	if x.op == OConst {
		if x.val != 0 {
			return x
		}
		return y
	}
	if y.op == OConst {
		if y.val != 0 {
			return y
		}
		return x
	}
	if x == y {
		return x
	}
	if ts.Not(x) == y {
		return ts.True
	}
	if x.after(y) {
		x, y = y, x
	}
	return ts.mk(OOr, 0, 0, 0, "", x, y)
}

func (ts *Terms) Ite(c, x, y *Term) *Term {
	if c.op == OConst {
		if c.val != 0 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if x.w == 0 {
		if x.op == OConst && y.op == OConst {
			if x.val != 0 {
				return c
			}
			return ts.Not(c)
		}
		if x.op == OConst {
			if x.val != 0 {
				return ts.Or(c, y)
			}
			return ts.And(ts.Not(c), y)
		}
		if y.op == OConst {
			if y.val != 0 {
				return ts.Or(ts.Not(c), x)
			}
			return ts.And(c, x)
		}
	}
	if c.op == ONot {
		return ts.Ite(c.a[0], y, x)
	}
	if y.op == OIte && y.a[0] == c {
		y = y.a[2]
		if x == y {
			return x
		}
	}
	if x.op == OIte && x.a[0] == c {
		x = x.a[1]
		if x == y {
			return x
		}
	}
	return ts.mk(OIte, x.w, 0, 0, "", c, x, y)
}

func (ts *Terms) Eq(x, y *Term) *Term {
	if x == y {
		return ts.True
	}
	if x.op == OConst && y.op == OConst {
		return ts.Bool(x.val == y.val)
	}
	if x.w == 0 {
		if x.op == OConst {
			x, y = y, x
		}
		if y.op == OConst {
			if y.val != 0 {
				return x
			}
			return ts.Not(x)
		}
	}
	if x.op == OConst {
		x, y = y, x
	}
	if y.op == OConst {
		switch x.op {
		case OIte:
			if x.a[1].op == OConst || x.a[2].op == OConst {
				return ts.Ite(x.a[0], ts.Eq(x.a[1], y), ts.Eq(x.a[2], y))
			}
		case OZext:
			in := x.a[0]
			if y.val > mask(in.w) {
				return ts.False
			}
			return ts.Eq(in, ts.Const(y.val, in.w))
		case OSext:
			in := x.a[0]
			if uint64(sext64(y.val&mask(in.w), in.w))&mask(x.w) != y.val {
				return ts.False
			}
			return ts.Eq(in, ts.Const(y.val, in.w))
		case OAdd:
			if x.a[1].op == OConst {
				return ts.Eq(x.a[0], ts.Const(y.val-x.a[1].val, x.w))
			}
		case OBxor:
			if x.a[1].op == OConst {
				return ts.Eq(x.a[0], ts.Const(y.val^x.a[1].val, x.w))
			}
		case OConcat:
			hi, lo := x.a[0], x.a[1]
			return ts.And(ts.Eq(hi, ts.Const(y.val>>lo.w, hi.w)), ts.Eq(lo, ts.Const(y.val, lo.w)))
		}
	} else {
		if x.op == OZext && y.op == OZext && x.a[0].w == y.a[0].w {
			return ts.Eq(x.a[0], y.a[0])
		}
		if x.op == OSext && y.op == OSext && x.a[0].w == y.a[0].w {
			return ts.Eq(x.a[0], y.a[0])
		}
		if x.after(y) {
			x, y = y, x
		}
	}
	return ts.mk(OEq, 0, 0, 0, "", x, y)
}

func (ts *Terms) Cmp(op Op, x, y *Term) *Term {
	if x.op == OConst && y.op == OConst {
		return ts.Bool(evalOp(op, x.w, 0, x.val, y.val, 0, x.w, y.w) != 0)
	}
	if x == y {
		return ts.Bool(op == OUle || op == OSle)
	}
	switch op {
	case OUlt:
		if y.op == OConst && y.val == 0 {
			return ts.False
		}
		if x.op == OConst && x.val == mask(x.w) {
			return ts.False
		}
		if y.op == OConst && y.val == 1 {
			return ts.Eq(x, ts.Const(0, x.w))
		}
	case OUle:
		if x.op == OConst && x.val == 0 {
			return ts.True
		}
		if y.op == OConst && y.val == mask(y.w) {
			return ts.True
		}
	}
	// comparisons of zero-extended narrow values
	if x.op == OZext || y.op == OZext {
		xi, yi := x, y
		var nw uint8
		if x.op == OZext {
			nw = x.a[0].w
		}
		if y.op == OZext && y.a[0].w > nw {
			nw = y.a[0].w
		}
		ok := true
		narrow := func(t *Term) *Term {
			switch {
			case t.op == OZext && t.a[0].w == nw:
				return t.a[0]
			case t.op == OZext:
				return ts.Zext(t.a[0], nw)
			case t.op == OConst && t.val <= mask(nw):
				return ts.Const(t.val, nw)
			}
			ok = false
			return t
		}
		xi, yi = narrow(x), narrow(y)
		if ok {
			switch op {
			case OSlt:
				op = OUlt
			case OSle:
				op = OUle
			}
			return ts.Cmp(op, xi, yi)
		}
		// constant outside the narrow range
		if x.op == OZext && y.op == OConst && y.val > mask(x.a[0].w) {
			if op == OUlt || op == OUle {
				return ts.True
			}
			return ts.Bool(sext64(y.val, y.w) > 0)
		}
		if y.op == OZext && x.op == OConst && x.val > mask(y.a[0].w) {
			if op == OUlt || op == OUle {
				return ts.False
			}
			return ts.Bool(sext64(x.val, x.w) < 0)
		}
	}
	if x.op == OIte && y.op == OConst && x.a[1].op == OConst && x.a[2].op == OConst {
		return ts.Ite(x.a[0], ts.Cmp(op, x.a[1], y), ts.Cmp(op, x.a[2], y))
	}
	if y.op == OIte && x.op == OConst && y.a[1].op == OConst && y.a[2].op == OConst {
		return ts.Ite(y.a[0], ts.Cmp(op, x, y.a[1]), ts.Cmp(op, x, y.a[2]))
	}
	return ts.mk(op, 0, 0, 0, "", x, y)
}

func (ts *Terms) Bin(op Op, x, y *Term) *Term {
	w := x.w
	if x.op == OConst && y.op == OConst {
		return ts.Const(evalOp(op, w, 0, x.val, y.val, 0, w, w), w)
	}
	switch op {
	case OAdd, OMul, OBand, OBor, OBxor:
		if x.op == OConst || (y.op != OConst && x.after(y)) {
			x, y = y, x
		}
	}
	if y.op == OConst {
		switch op {
		case OAdd:
			if y.val == 0 {
				return x
			}
			if x.op == OAdd && x.a[1].op == OConst {
				return ts.Bin(OAdd, x.a[0], ts.Const(x.a[1].val+y.val, w))
			}
		case OSub:
			return ts.Bin(OAdd, x, ts.Const(-y.val, w))
		case OMul:
			if y.val == 0 {
				return y
			}
			if y.val == 1 {
				return x
			}
			if bits.OnesCount64(y.val) == 1 {
				return ts.Bin(OShl, x, ts.Const(uint64(bits.TrailingZeros64(y.val)), w))
			}
		case OBand:
			if y.val == 0 {
				return y
			}
			if y.val == mask(w) {
				return x
			}
			if x.op == OZext && y.val >= mask(x.a[0].w) && y.val&mask(x.a[0].w) == mask(x.a[0].w) {
				return x
			}
		case OBor:
			if y.val == 0 {
				return x
			}
			if y.val == mask(w) {
				return y
			}
		case OBxor:
			if y.val == 0 {
				return x
			}
		case OUdiv:
			if y.val == 1 {
				return x
			}
			if y.val != 0 && bits.OnesCount64(y.val) == 1 {
				return ts.Bin(OLshr, x, ts.Const(uint64(bits.TrailingZeros64(y.val)), w))
			}
		case OUrem:
			if y.val != 0 && bits.OnesCount64(y.val) == 1 {
				return ts.Bin(OBand, x, ts.Const(y.val-1, w))
			}
		case OShl, OLshr, OAshr:
			if y.val == 0 {
				return x
			}
			if y.val >= uint64(w) && op != OAshr {
				return ts.Const(0, w)
			}
		}
	}
	if x.op == OConst && x.val == 0 {
		switch op {
		case OShl, OLshr, OAshr, OUdiv, OUrem, OSdiv, OSrem:
			if op == OShl || op == OLshr || op == OAshr {
				return x
			}
		}
	}
	if x == y {
		switch op {
		case OSub, OBxor:
			return ts.Const(0, w)
		case OBand, OBor:
			return x
		}
	}
	return ts.mk(op, w, 0, 0, "", x, y)
}

func (ts *Terms) Bnot(x *Term) *Term {
	if x.op == OConst {
		return ts.Const(^x.val, x.w)
	}
	if x.op == OBnot {
		return x.a[0]
	}
	return ts.mk(OBnot, x.w, 0, 0, "", x)
}

func (ts *Terms) Neg(x *Term) *Term {
	if x.op == OConst {
		return ts.Const(-x.val, x.w)
	}
	return ts.mk(ONeg, x.w, 0, 0, "", x)
}

// Extract takes bits [lo, lo+w).
func (ts *Terms) Extract(x *Term, lo, w uint8) *Term {
	if lo == 0 && w == x.w {
		return x
	}
	switch x.op {
	case OConst:
		return ts.Const(x.val>>lo, w)
	case OExtract:
		return ts.Extract(x.a[0], lo+x.aux, w)
	case OZext:
		in := x.a[0]
		if lo >= in.w {
			return ts.Const(0, w)
		}
		if lo+w <= in.w {
			return ts.Extract(in, lo, w)
		}
		if lo == 0 {
			return ts.Zext(in, w)
		}
	case OSext:
		in := x.a[0]
		if lo+w <= in.w {
			return ts.Extract(in, lo, w)
		}
		if lo == 0 {
			return ts.Sext(in, w)
		}
	case OConcat:
		hi, l := x.a[0], x.a[1]
		if lo+w <= l.w {
			return ts.Extract(l, lo, w)
		}
		if lo >= l.w {
			return ts.Extract(hi, lo-l.w, w)
		}
	case OIte:
		if x.a[1].op == OConst && x.a[2].op == OConst {
			return ts.Ite(x.a[0], ts.Extract(x.a[1], lo, w), ts.Extract(x.a[2], lo, w))
		}
	case OBor, OBand, OBxor:
		if x.a[1].op == OConst || (x.a[0].op == OZext || x.a[0].op == OShl) || (x.a[1].op == OZext || x.a[1].op == OShl) {
			return ts.Bin(x.op, ts.Extract(x.a[0], lo, w), ts.Extract(x.a[1], lo, w))
		}
	case OShl:
		if x.a[1].op == OConst {
			s := uint8(x.a[1].val)
			if lo >= s {
				return ts.Extract(x.a[0], lo-s, w)
			}
			if lo+w <= s {
				return ts.Const(0, w)
			}
		}
	case OLshr:
		if x.a[1].op == OConst {
			s := uint8(x.a[1].val)
			if uint16(lo)+uint16(s)+uint16(w) <= uint16(x.w) {
				return ts.Extract(x.a[0], lo+s, w)
			}
		}
	}
	return ts.mk(OExtract, w, lo, 0, "", x)
}

func (ts *Terms) Zext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.op == OConst {
		return ts.Const(x.val, w)
	}
	if x.op == OZext {
		return ts.Zext(x.a[0], w)
	}
	if x.op == OIte && x.a[1].op == OConst && x.a[2].op == OConst {
		return ts.Ite(x.a[0], ts.Const(x.a[1].val, w), ts.Const(x.a[2].val, w))
	}
	return ts.mk(OZext, w, 0, 0, "", x)
}

func (ts *Terms) Sext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.op == OConst {
		return ts.Const(uint64(sext64(x.val, x.w)), w)
	}
	if x.op == OZext {
		return ts.Zext(x.a[0], w)
	}
	if x.op == OSext {
		return ts.Sext(x.a[0], w)
	}
	if x.op == OIte && x.a[1].op == OConst && x.a[2].op == OConst {
		return ts.Ite(x.a[0], ts.Sext(x.a[1], w), ts.Sext(x.a[2], w))
	}
	return ts.mk(OSext, w, 0, 0, "", x)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// evalOp evaluates an operator on concrete values; w is the result width (0 = bool), wa the width of the first operand.
func evalOp(op Op, w, aux uint8, x, y, z uint64, wa, wb uint8) uint64 {
	switch op {
	case ONot:
		return x ^ 1
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OIte:
		if x != 0 {
			return y
		}
		return z
	case OEq:
		return b2u(x == y)
	case OUlt:
		return b2u(x < y)
	case OUle:
		return b2u(x <= y)
	case OSlt:
		return b2u(sext64(x, wa) < sext64(y, wa))
	case OSle:
		return b2u(sext64(x, wa) <= sext64(y, wa))
	case OAdd:
		return (x + y) & mask(w)
	case OSub:
		return (x - y) & mask(w)
	case OMul:
		return (x * y) & mask(w)
	case OUdiv:
		if y == 0 {
			return mask(w)
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		a, b := sext64(x, w), sext64(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return mask(w)
		}
		if b == -1 {
			return uint64(-a) & mask(w)
		}
		return uint64(a/b) & mask(w)
	case OSrem:
		a, b := sext64(x, w), sext64(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & mask(w)
	case OBand:
		return x & y
	case OBor:
		return x | y
	case OBxor:
		return x ^ y
	case OBnot:
		return ^x & mask(w)
	case ONeg:
		return -x & mask(w)
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & mask(w)
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext64(x, w)>>y) & mask(w)
	case OExtract:
		return (x >> aux) & mask(w)
	case OZext:
		return x
	case OSext:
		return uint64(sext64(x, wa)) & mask(w)
	case OConcat:
		return x<<wb | y
	}
	panic(fmt.Sprintf("evalOp %d", op))
}

// Model assigns values to variables; absent variables are zero.
type Model map[string]uint64

var evalGen uint64

// Eval evaluates t under m. gen identifies (worker, model) for memoisation.
func (t *Term) Eval(m Model, gen uint64) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.evGen == gen {
		return t.evVal
	}
	var v uint64
	switch t.op {
	case OVar:
		v = m[t.name] & maskb(t.w)
	case OIte:
		if t.a[0].Eval(m, gen) != 0 {
			v = t.a[1].Eval(m, gen)
		} else {
			v = t.a[2].Eval(m, gen)
		}
	case OAnd:
		v = t.a[0].Eval(m, gen)
		if v != 0 {
			v = t.a[1].Eval(m, gen)
		}
	case OOr:
		v = t.a[0].Eval(m, gen)
		if v == 0 {
			v = t.a[1].Eval(m, gen)
		}
	default:
		var x, y uint64
		var wb uint8
		x = t.a[0].Eval(m, gen)
		if t.n > 1 {
			y = t.a[1].Eval(m, gen)
			wb = t.a[1].w
		}
		v = evalOp(t.op, t.w, t.aux, x, y, 0, t.a[0].w, wb)
	}
	t.evGen, t.evVal = gen, v
	return v
}

func maskb(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// ref is how a term is referred to inside SMT-LIB text.
func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OVar:
		return fmt.Sprintf("|%s~%d|", t.name, t.w)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) body() string {
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.op {
	case OExtract:
		fmt.Fprintf(&sb, "(_ extract %d %d)", int(t.aux)+int(t.w)-1, t.aux)
	case OZext:
		fmt.Fprintf(&sb, "(_ zero_extend %d)", t.w-t.a[0].w)
	case OSext:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", t.w-t.a[0].w)
	default:
		sb.WriteString(opNames[t.op])
	}
	for i := 0; i < int(t.n); i++ {
		sb.WriteByte(' ')
		sb.WriteString(t.a[i].ref())
	}
	sb.WriteByte(')')
	return sb.String()
}

func (t *Term) String() string {
	if t.op == OConst || t.op == OVar {
		return t.ref()
	}
	var sb strings.Builder
	var rec func(t *Term, d int)
	rec = func(t *Term, d int) {
		if t.n == 0 {
			sb.WriteString(t.ref())
			return
		}
		if d > 6 {
			sb.WriteString("…")
			return
		}
		sb.WriteByte('(')
		sb.WriteString(opNames[t.op])
		if opNames[t.op] == "" {
			fmt.Fprintf(&sb, "op%d", t.op)
		}
		for i := 0; i < int(t.n); i++ {
			sb.WriteByte(' ')
			rec(t.a[i], d+1)
		}
		sb.WriteByte(')')
	}
	rec(t, 0)
	return sb.String()
}
