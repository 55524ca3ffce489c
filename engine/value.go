package main

// Run-time values of interpreted programs.

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

type value = any

// Concrete representation:
//   bool             bool | *Term (w=0)
//   integers         uint64 (masked to width) | *Term
//   floats           float64
//   complex          complex128
//   string           string | *symStr
//   pointer          *value | *symPtr ; nil pointer is (*value)(nil)
//   unsafe.Pointer   uptr
//   struct           structure ; array: array ; slice: []value ; map: *hmap ; chan: *channel
//   interface        iface ; func: *closure ; tuples: tuple

type structure []value
type array []value
type tuple []value

type iface struct {
	t types.Type // canonical; nil for the nil interface
	v value
}

type symStr struct{ b []value }

type closure struct {
	fn  *Func
	env []value
}

type uptr struct {
	p value
	t types.Type // element type of the pointer it came from
}

// symPtr points at arr[idx] for a symbolic idx known to be in range.
type symPtr struct {
	arr []value
	idx *Term
}

type poison struct{ why string }

var (
	canonMu  sync.Mutex
	canonMap typeutil.Map
	canonPtr sync.Map // types.Type -> types.Type
)

// canon maps identical types to one representative.
func canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if c, ok := canonPtr.Load(t); ok {
		return c.(types.Type)
	}
	canonMu.Lock()
	u := types.Unalias(t)
	c, _ := canonMap.At(u).(types.Type)
	if c == nil {
		c = u
		canonMap.Set(u, u)
	}
	canonMu.Unlock()
	canonPtr.Store(t, c)
	return c
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

// width of an integer or bool type; 0 for bool.
func basicWidth(k types.BasicKind) (uint8, bool) {
	switch k {
	case types.Bool, types.UntypedBool:
		return 0, true
	case types.Int8, types.Uint8:
		return 8, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32, true
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64, true
	}
	return 0, false
}

func typeWidth(t types.Type) (uint8, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	return basicWidth(b.Kind())
}

func zero(t types.Type) value {
	switch t := t.(type) {
	case *types.Basic:
		if t.Kind() == types.UnsafePointer {
			return uptr{}
		}
		switch {
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return uint64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		case t.Info()&types.IsString != 0:
			return ""
		}
		if t.Kind() == types.UntypedNil {
			return iface{}
		}
		if t.Kind() == types.Invalid {
			return nil
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		n := int(t.Len())
		if n > 1<<22 {
			panic(unsupported(fmt.Sprintf("array of %d elements", n)))
		}
		a := make(array, n)
		if n > 0 {
			z := zero(t.Elem())
			a[0] = z
			for i := 1; i < n; i++ {
				a[i] = copyVal(z)
			}
		}
		return a
	case *types.Slice:
		return []value(nil)
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Map:
		return (*hmap)(nil)
	case *types.Chan:
		return (*channel)(nil)
	case *types.Interface:
		return iface{}
	case *types.Signature:
		return (*closure)(nil)
	case *types.Tuple:
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.Named, *types.Alias:
		return zero(t.Underlying())
	case *types.TypeParam:
		panic(unsupported("zero of type parameter " + t.String()))
	}
	panic(unsupported("zero of " + t.String()))
}

// copyVal copies aggregates so that they do not share cells.
func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		c := make(structure, len(v))
		for i, x := range v {
			switch x.(type) {
			case structure, array:
				c[i] = copyVal(x)
			default:
				c[i] = x
			}
		}
		return c
	case array:
		c := make(array, len(v))
		for i, x := range v {
			switch x.(type) {
			case structure, array:
				c[i] = copyVal(x)
			default:
				c[i] = x
			}
		}
		return c
	}
	return v
}

// storeInto assigns v to the cell, keeping the addresses of its components.
func storeInto(cell *value, v value) {
	switch old := (*cell).(type) {
	case structure:
		nv, ok := v.(structure)
		if !ok {
			*cell = v
			return
		}
		for i := range old {
			storeInto(&old[i], nv[i])
		}
	case array:
		nv, ok := v.(array)
		if !ok {
			*cell = v
			return
		}
		for i := range old {
			storeInto(&old[i], nv[i])
		}
	default:
		switch v.(type) {
		case structure, array:
			v = copyVal(v)
		}
		*cell = v
	}
}

// --- strings

func mkStr(b []value) value {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			return &symStr{b}
		}
	}
	buf := make([]byte, len(b))
	for i, x := range b {
		buf[i] = byte(x.(uint64))
	}
	return string(buf)
}

func strLen(v value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *symStr:
		return len(v.b)
	}
	panic(unsupported(fmt.Sprintf("string value %T", v)))
}

func strBytes(v value) []value {
	switch v := v.(type) {
	case string:
		b := make([]value, len(v))
		for i := 0; i < len(v); i++ {
			b[i] = uint64(v[i])
		}
		return b
	case *symStr:
		return v.b
	}
	panic(unsupported(fmt.Sprintf("string value %T", v)))
}

func strAt(v value, i int) value {
	switch v := v.(type) {
	case string:
		return uint64(v[i])
	case *symStr:
		return v.b[i]
	}
	panic(unsupported(fmt.Sprintf("string value %T", v)))
}

func strSlice(v value, i, j int) value {
	switch v := v.(type) {
	case string:
		return v[i:j]
	case *symStr:
		return mkStr(v.b[i:j:j])
	}
	panic(unsupported(fmt.Sprintf("string value %T", v)))
}

func strConcat(a, b value) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	ab, bb := strBytes(a), strBytes(b)
	r := make([]value, 0, len(ab)+len(bb))
	r = append(append(r, ab...), bb...)
	return mkStr(r)
}

// --- term helpers (owned by a path)

func (p *Path) term(v value, w uint8) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case uint64:
		return p.ts.Const(v, w)
	case bool:
		return p.ts.Bool(v)
	}
	panic(unsupported(fmt.Sprintf("symbolic use of %T", v)))
}

// fromTerm turns constant terms into concrete values.
func fromTerm(t *Term) value {
	if t.op == OConst {
		if t.w == 0 {
			return t.val != 0
		}
		return t.val
	}
	return t
}

func (p *Path) boolAnd(a, b value) value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return fromTerm(p.ts.And(a.(*Term), b.(*Term)))
}

func (p *Path) boolOr(a, b value) value {
	return p.boolNot(p.boolAnd(p.boolNot(a), p.boolNot(b)))
}

func (p *Path) boolNot(a value) value {
	if x, ok := a.(bool); ok {
		return !x
	}
	return fromTerm(p.ts.Not(a.(*Term)))
}

// strEq is the equality of two strings as bool or term.
func (p *Path) strEq(a, b value) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x == y
		}
	}
	if strLen(a) != strLen(b) {
		return false
	}
	ab, bb := strBytes(a), strBytes(b)
	r := p.ts.True
	for i := range ab {
		r = p.ts.And(r, p.ts.Eq(p.term(ab[i], 8), p.term(bb[i], 8)))
		if r == p.ts.False {
			return false
		}
	}
	return fromTerm(r)
}

// bytesLess is a < b (lexicographically) as a value.
func (p *Path) bytesLess(ab, bb []value) value {
	n := min(len(ab), len(bb))
	r := p.ts.Bool(len(ab) < len(bb))
	for i := n - 1; i >= 0; i-- {
		x, y := p.term(ab[i], 8), p.term(bb[i], 8)
		r = p.ts.Ite(p.ts.Eq(x, y), r, p.ts.Cmp(OUlt, x, y))
	}
	return fromTerm(r)
}

func (p *Path) strLess(a, b value) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x < y
		}
	}
	return p.bytesLess(strBytes(a), strBytes(b))
}

// equals compares two values of the same static type; the result is a bool or a *Term.
func (p *Path) equals(a, b value) value {
	switch x := a.(type) {
	case bool:
		switch y := b.(type) {
		case bool:
			return x == y
		case *Term:
			return fromTerm(p.ts.Eq(p.ts.Bool(x), y))
		}
	case uint64:
		switch y := b.(type) {
		case uint64:
			return x == y
		case *Term:
			return fromTerm(p.ts.Eq(p.ts.Const(x, y.w), y))
		}
	case *Term:
		switch y := b.(type) {
		case *Term:
			return fromTerm(p.ts.Eq(x, y))
		case uint64:
			return fromTerm(p.ts.Eq(x, p.ts.Const(y, x.w)))
		case bool:
			return fromTerm(p.ts.Eq(x, p.ts.Bool(y)))
		}
	case float64:
		if y, ok := b.(float64); ok {
			return x == y
		}
	case complex128:
		if y, ok := b.(complex128); ok {
			return x == y
		}
	case string, *symStr:
		switch b.(type) {
		case string, *symStr:
			return p.strEq(a, b)
		}
	case *value:
		switch y := b.(type) {
		case *value:
			return x == y
		case *symPtr:
			return false
		}
	case uptr:
		y := b.(uptr)
		if x.p == nil || y.p == nil {
			return isNilPtr(x.p) == isNilPtr(y.p)
		}
		return x.p == y.p
	case *hmap:
		return x == b.(*hmap)
	case *channel:
		return x == b.(*channel)
	case *closure:
		return x == b.(*closure)
	case []value:
		y := b.([]value)
		if x == nil || y == nil {
			return (x == nil) == (y == nil)
		}
	case structure:
		y := b.(structure)
		var r value = true
		for i := range x {
			r = p.boolAnd(r, p.equals(x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case array:
		y := b.(array)
		var r value = true
		for i := range x {
			r = p.boolAnd(r, p.equals(x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case iface:
		y, ok := b.(iface)
		if !ok {
			break
		}
		if x.t != y.t {
			return false
		}
		if x.t == nil {
			return true
		}
		if !types.Comparable(x.t) {
			panic(p.rtPanic("comparing uncomparable type " + x.t.String()))
		}
		return p.equals(x.v, y.v)
	case *rtypeVal:
		y, ok := b.(*rtypeVal)
		return ok && x.t == y.t
	case nil:
		return b == nil
	}
	panic(unsupported(fmt.Sprintf("comparison of %T and %T", a, b)))
}

func isNilPtr(v value) bool {
	switch v := v.(type) {
	case nil:
		return true
	case *value:
		return v == nil
	}
	return false
}

// --- maps

type mapEntry struct {
	k, v value
	dead bool
}

type hmap struct {
	ents []*mapEntry
	idx  map[any]*mapEntry // concrete keys
	nsym int               // live entries with symbolic keys
	n    int
	id   int
	loc  value // race detection location
}

func (p *Path) newMap() *hmap {
	p.nextID++
	return &hmap{idx: map[any]*mapEntry{}, id: p.nextID}
}

// hashKey gives a comparable host key for a fully concrete value.
func hashKey(v value) (any, bool) {
	switch v := v.(type) {
	case uint64, bool, string, float64, *value, *channel, complex128:
		return v, true
	case *Term, *symStr:
		return nil, false
	case iface:
		if v.t == nil {
			return iface{}, true
		}
		k, ok := hashKey(v.v)
		if !ok {
			return nil, false
		}
		return [2]any{v.t, k}, true
	case structure:
		return aggKey([]value(v))
	case array:
		return aggKey([]value(v))
	case *rtypeVal:
		return v.t, true
	case uptr:
		return hashKey(v.p)
	case nil:
		return nil, true
	}
	panic(unsupported(fmt.Sprintf("map key %T", v)))
}

type aggK struct{ s string }

func aggKey(v []value) (any, bool) {
	var sb strings.Builder
	for _, x := range v {
		k, ok := hashKey(x)
		if !ok {
			return nil, false
		}
		switch k := k.(type) {
		case string:
			fmt.Fprintf(&sb, "%d:%s,", len(k), k)
		case uint64:
			fmt.Fprintf(&sb, "%d,", k)
		case aggK:
			fmt.Fprintf(&sb, "(%s),", k.s)
		default:
			fmt.Fprintf(&sb, "%T:%v,", k, k)
		}
	}
	return aggK{sb.String()}, true
}

func (p *Path) mapFind(m *hmap, k value) *mapEntry {
	if m == nil || m.n == 0 {
		if i, ok := k.(iface); ok && i.t != nil && !types.Comparable(i.t) {
			panic(p.rtPanic("hash of unhashable type " + i.t.String()))
		}
		return nil
	}
	if i, ok := k.(iface); ok && i.t != nil && !types.Comparable(i.t) {
		panic(p.rtPanic("hash of unhashable type " + i.t.String()))
	}
	hk, conc := hashKey(k)
	if conc {
		if e := m.idx[hk]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			if _, c := hashKey(e.k); c {
				continue
			}
			if p.decideV(p.equals(e.k, k)) {
				return e
			}
		}
		return nil
	}
	// a syntactically equal key first
	for _, e := range m.ents {
		if !e.dead {
			if b, ok := p.equals(e.k, k).(bool); ok && b {
				return e
			}
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if p.decideV(p.equals(e.k, k)) {
			return e
		}
	}
	return nil
}

func (p *Path) mapSet(m *hmap, k, v value) {
	if e := p.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: copyVal(k), v: v}
	m.ents = append(m.ents, e)
	m.n++
	if hk, ok := hashKey(k); ok {
		m.idx[hk] = e
	} else {
		m.nsym++
	}
}

func (p *Path) mapDelete(m *hmap, k value) {
	e := p.mapFind(m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	if hk, ok := hashKey(e.k); ok {
		delete(m.idx, hk)
	} else {
		m.nsym--
	}
	if len(m.ents) > 32 && m.n < len(m.ents)/2 {
		live := make([]*mapEntry, 0, m.n)
		for _, e := range m.ents {
			if !e.dead {
				live = append(live, e)
			}
		}
		m.ents = live
	}
}

func (p *Path) mapClear(m *hmap) {
	if m == nil {
		return
	}
	for _, e := range m.ents {
		e.dead = true
	}
	m.ents, m.idx, m.n, m.nsym = nil, map[any]*mapEntry{}, 0, 0
}

// --- formatting for diagnostics

func vstr(v value) string { return vstrd(v, 0) }

func vstrd(v value, d int) string {
	if d > 4 {
		return "…"
	}
	switch v := v.(type) {
	case string:
		return fmt.Sprintf("%q", v)
	case *symStr:
		var parts []string
		for _, x := range v.b {
			parts = append(parts, vstrd(x, d+1))
		}
		return "str[" + strings.Join(parts, " ") + "]"
	case structure:
		var parts []string
		for _, x := range v {
			parts = append(parts, vstrd(x, d+1))
		}
		return "{" + strings.Join(parts, " ") + "}"
	case array:
		return vstrd([]value(v), d)
	case []value:
		var parts []string
		for i, x := range v {
			if i > 20 {
				parts = append(parts, "…")
				break
			}
			parts = append(parts, vstrd(x, d+1))
		}
		return "[" + strings.Join(parts, " ") + "]"
	case iface:
		if v.t == nil {
			return "nil"
		}
		return v.t.String() + "(" + vstrd(v.v, d+1) + ")"
	case *value:
		if v == nil {
			return "nil"
		}
		return "&" + vstrd(*v, d+1)
	case *hmap:
		if v == nil {
			return "map(nil)"
		}
		var parts []string
		for _, e := range v.ents {
			if !e.dead {
				parts = append(parts, vstrd(e.k, d+1)+":"+vstrd(e.v, d+1))
			}
		}
		return "map[" + strings.Join(parts, " ") + "]"
	case *Term:
		return v.String()
	}
	return fmt.Sprintf("%v", v)
}
