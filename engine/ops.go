package main

// Instruction semantics.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sync/atomic"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isScalar(v value) bool {
	switch v.(type) {
	case uint64, bool, *Term:
		return true
	}
	return false
}

// loadPtr reads through a pointer.
func (p *Path) loadPtr(ptr value, t types.Type) value {
	switch q := ptr.(type) {
	case *value:
		if q == nil {
			panic(p.nilDeref())
		}
		v := *q
		if p.raceOn {
			p.raceRead(q, v)
		}
		switch x := v.(type) {
		case structure, array:
			return copyVal(v)
		case poison:
			panic(unsupported("use of " + x.why))
		}
		return v
	case *symPtr:
		w, _ := typeWidth(t)
		r := p.term(q.arr[len(q.arr)-1], w)
		for i := len(q.arr) - 2; i >= 0; i-- {
			r = p.ts.Ite(p.ts.Eq(q.idx, p.ts.Const(uint64(i), q.idx.w)), p.term(q.arr[i], w), r)
		}
		return fromTerm(r)
	}
	panic(unsupported(fmt.Sprintf("load through %T", ptr)))
}

func (p *Path) storePtr(ptr, v value, t types.Type) {
	switch q := ptr.(type) {
	case *value:
		if q == nil {
			panic(p.nilDeref())
		}
		if p.raceOn {
			p.raceWrite(q, *q)
		}
		storeInto(q, v)
		return
	case *symPtr:
		w, _ := typeWidth(t)
		nv := p.term(v, w)
		for i := range q.arr {
			old := p.term(q.arr[i], w)
			q.arr[i] = fromTerm(p.ts.Ite(p.ts.Eq(q.idx, p.ts.Const(uint64(i), q.idx.w)), nv, old))
		}
		return
	}
	panic(unsupported(fmt.Sprintf("store through %T", ptr)))
}

// index checks idx against n and returns a concrete index, or a term for scalar element access.
func (p *Path) index(idx value, it types.Type, n int, arr []value, allowSym bool) (int, *Term) {
	switch i := idx.(type) {
	case uint64:
		w, _ := typeWidth(it)
		var s int64
		if isSigned(it) {
			s = sext64(i, w)
		} else {
			s = int64(i)
			if i > math.MaxInt64 {
				s = -1
			}
		}
		if s < 0 || s >= int64(n) {
			panic(p.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", s, n)))
		}
		return int(s), nil
	case *Term:
		w := i.w
		var in *Term
		if w < 63 && uint64(n) > mask(w) && !isSigned(it) {
			in = p.ts.True
		} else if n == 0 {
			in = p.ts.False
		} else {
			in = p.ts.Cmp(OUlt, i, p.ts.Const(uint64(n), w)) // negative values are large
			if w < 63 && uint64(n) > mask(w) {
				in = p.ts.Not(p.ts.Cmp(OSlt, i, p.ts.Const(0, w)))
			}
		}
		if !p.decide(in) {
			panic(p.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", sext64(p.eval(i), w), n)))
		}
		if allowSym && n <= 4096 {
			ok := true
			for _, x := range arr {
				if !isScalar(x) {
					ok = false
					break
				}
			}
			if ok {
				if w < 64 {
					i = p.ts.Zext(i, 64)
				}
				return 0, i
			}
		}
		return int(p.concretize(i, w)), nil
	}
	panic(unsupported(fmt.Sprintf("index %T", idx)))
}

// intArg makes an int quantity (length, slice bound) concrete.
func (p *Path) intArg(v value, t types.Type) int64 {
	w, _ := typeWidth(t)
	c := p.concretize(v, w)
	if isSigned(t) {
		return sext64(c, w)
	}
	if c > math.MaxInt64 {
		return math.MaxInt64
	}
	return int64(c)
}

func (c *comp) instr(in ssa.Instruction) func(fr *frame) {
	switch in := in.(type) {
	case *ssa.Alloc:
		dst := c.slot(in)
		t := deref(in.Type())
		var tmpl atomic.Pointer[value]
		return func(fr *frame) {
			cell := new(value)
			if z := tmpl.Load(); z != nil {
				*cell = copyVal(*z)
			} else {
				z := zero(t)
				*cell = copyVal(z)
				tmpl.Store(&z)
			}
			fr.s[dst] = cell
		}
	case *ssa.UnOp:
		return c.unop(in)
	case *ssa.BinOp:
		return c.binop(in)
	case *ssa.Store:
		a, v := c.op(in.Addr), c.op(in.Val)
		t := in.Val.Type()
		if al, ok := in.Addr.(*ssa.Alloc); ok && !al.Heap {
			return func(fr *frame) { storeInto(fr.s[a.slot].(*value), v.get(fr)) }
		}
		return func(fr *frame) { fr.p.storePtr(a.get(fr), v.get(fr), t) }
	case *ssa.FieldAddr:
		dst, x, k := c.slot(in), c.op(in.X), in.Field
		return func(fr *frame) {
			q, ok := x.get(fr).(*value)
			if !ok {
				panic(unsupported(fmt.Sprintf("field address of %T", x.get(fr))))
			}
			if q == nil {
				panic(fr.p.nilDeref())
			}
			st, ok := (*q).(structure)
			if !ok {
				panic(unsupported(fmt.Sprintf("field address in %T", *q)))
			}
			fr.s[dst] = &st[k]
		}
	case *ssa.Field:
		dst, x, k := c.slot(in), c.op(in.X), in.Field
		return func(fr *frame) { fr.s[dst] = x.get(fr).(structure)[k] }
	case *ssa.IndexAddr:
		return c.indexAddr(in)
	case *ssa.Index:
		return c.index(in)
	case *ssa.Lookup:
		return c.lookup(in)
	case *ssa.MapUpdate:
		m, k, v := c.op(in.Map), c.op(in.Key), c.op(in.Value)
		return func(fr *frame) {
			h := m.get(fr).(*hmap)
			if h == nil {
				panic(fr.p.plainPanic("assignment to entry in nil map"))
			}
			if fr.p.raceOn {
				fr.p.raceWrite(h, nil)
			}
			fr.p.mapSet(h, k.get(fr), copyVal(v.get(fr)))
		}
	case *ssa.Extract:
		dst, x, k := c.slot(in), c.op(in.Tuple), in.Index
		return func(fr *frame) { fr.s[dst] = x.get(fr).(tuple)[k] }
	case *ssa.MakeInterface:
		dst, x := c.slot(in), c.op(in.X)
		t := canon(in.X.Type())
		return func(fr *frame) { fr.s[dst] = iface{t, x.get(fr)} }
	case *ssa.ChangeInterface:
		dst, x := c.slot(in), c.op(in.X)
		return func(fr *frame) { fr.s[dst] = x.get(fr) }
	case *ssa.ChangeType:
		dst, x := c.slot(in), c.op(in.X)
		return func(fr *frame) { fr.s[dst] = x.get(fr) }
	case *ssa.Convert:
		dst, x := c.slot(in), c.op(in.X)
		f := convert(in.X.Type(), in.Type())
		return func(fr *frame) { fr.s[dst] = f(fr.p, fr, x.get(fr)) }
	case *ssa.MultiConvert:
		dst, x := c.slot(in), c.op(in.X)
		f := convert(in.X.Type(), in.Type())
		return func(fr *frame) { fr.s[dst] = f(fr.p, fr, x.get(fr)) }
	case *ssa.SliceToArrayPointer:
		dst, x := c.slot(in), c.op(in.X)
		n := int(deref(in.Type()).Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s := x.get(fr).([]value)
			if len(s) < n {
				panic(fr.p.rtPanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n)))
			}
			if s == nil {
				fr.s[dst] = (*value)(nil)
				return
			}
			cell := new(value)
			*cell = array(s[:n:n])
			fr.s[dst] = cell
		}
	case *ssa.TypeAssert:
		return c.typeAssert(in)
	case *ssa.MakeClosure:
		dst := c.slot(in)
		fn := c.getFunc(in.Fn.(*ssa.Function))
		var bs []operand
		for _, b := range in.Bindings {
			bs = append(bs, c.op(b))
		}
		return func(fr *frame) {
			env := make([]value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(fr)
			}
			fr.s[dst] = &closure{fn, env}
		}
	case *ssa.MakeMap:
		dst := c.slot(in)
		return func(fr *frame) { fr.s[dst] = fr.p.newMap() }
	case *ssa.MakeChan:
		dst, n, t := c.slot(in), c.op(in.Size), in.Size.Type()
		return func(fr *frame) {
			k := fr.p.intArg(n.get(fr), t)
			if k < 0 {
				panic(fr.p.plainPanic("makechan: size out of range"))
			}
			fr.s[dst] = fr.p.makeChan(int(k))
		}
	case *ssa.MakeSlice:
		dst, l, cp := c.slot(in), c.op(in.Len), c.op(in.Cap)
		lt, ct := in.Len.Type(), in.Cap.Type()
		et := in.Type().Underlying().(*types.Slice).Elem()
		return func(fr *frame) {
			p := fr.p
			n := p.intArg(l.get(fr), lt)
			k := p.intArg(cp.get(fr), ct)
			if n < 0 || n > 1<<40 {
				panic(p.rtPanic("makeslice: len out of range"))
			}
			if k < n || k > 1<<40 {
				panic(p.rtPanic("makeslice: cap out of range"))
			}
			if k > 1<<20 {
				panic(abortPath{"limit", fmt.Sprintf("slice of %d elements", k)})
			}
			s := make([]value, k)
			z := zero(et)
			for i := range s {
				s[i] = copyVal(z)
			}
			fr.s[dst] = s[:n]
		}
	case *ssa.Slice:
		return c.slice(in)
	case *ssa.Range:
		dst, x := c.slot(in), c.op(in.X)
		return func(fr *frame) { fr.s[dst] = fr.p.rangeIter(x.get(fr)) }
	case *ssa.Next:
		dst, x := c.slot(in), c.op(in.Iter)
		tt := in.Type().(*types.Tuple)
		return func(fr *frame) { fr.s[dst] = x.get(fr).(iterator).next(fr, tt) }
	case *ssa.Call:
		dst := c.slot(in)
		f := c.call(&in.Call, in.Type())
		return func(fr *frame) { fr.s[dst] = f(fr) }
	case *ssa.Defer:
		c.fn.defers = true
		mk := c.prepCall(&in.Call, nil)
		return func(fr *frame) {
			f := mk(fr)
			fr.defers = append(fr.defers, func(fr *frame) { f(fr) })
		}
	case *ssa.Go:
		mk := c.prepCall(&in.Call, nil)
		pos := in.Pos()
		return func(fr *frame) {
			p := fr.p
			if p.noFork {
				return // background goroutines of library initialisers are left out
			}
			f := mk(fr)
			base := &frame{p: p, fn: fr.fn, pos: pos}
			var g *gor
			g = p.spawn(fr.fn.name+"·go@"+p.posStr(pos), func() {
				g.fr = base
				f(base)
			})
			p.yield()
		}
	case *ssa.RunDefers:
		return func(fr *frame) {
			// a panic in a deferred call unwinds this frame, the rest is run there
			for len(fr.defers) > 0 {
				d := fr.defers[len(fr.defers)-1]
				fr.defers = fr.defers[:len(fr.defers)-1]
				d(fr)
			}
		}
	case *ssa.Send:
		ch, v := c.op(in.Chan), c.op(in.X)
		return func(fr *frame) { fr.p.send(ch.get(fr).(*channel), copyVal(v.get(fr))) }
	case *ssa.Select:
		return c.selectInstr(in)
	}
	panic(unsupported(fmt.Sprintf("instruction %T", in)))
}

func (c *comp) selectInstr(in *ssa.Select) func(fr *frame) {
	dst := c.slot(in)
	type st struct {
		send bool
		ch   operand
		v    operand
		z    types.Type
	}
	var sts []st
	nrecv := 0
	for _, s := range in.States {
		x := st{send: s.Dir == types.SendOnly, ch: c.op(s.Chan)}
		if x.send {
			x.v = c.op(s.Send)
		} else {
			x.z = s.Chan.Type().Underlying().(*types.Chan).Elem()
			nrecv++
		}
		sts = append(sts, x)
	}
	blocking := in.Blocking
	return func(fr *frame) {
		cases := make([]selCase, len(sts))
		for i := range sts {
			cases[i].c = sts[i].ch.get(fr).(*channel)
			cases[i].send = sts[i].send
			if sts[i].send {
				cases[i].v = copyVal(sts[i].v.get(fr))
			} else {
				cases[i].zero = zero(sts[i].z)
			}
		}
		k, v, ok := fr.p.selectOp(cases, blocking)
		t := make(tuple, 2+nrecv)
		t[0] = uint64(int64(k))
		t[1] = ok
		j := 2
		for i := range sts {
			if !sts[i].send {
				if i == k {
					t[j] = v
				} else {
					t[j] = zero(sts[i].z)
				}
				j++
			}
		}
		fr.s[dst] = t
	}
}

func (c *comp) indexAddr(in *ssa.IndexAddr) func(fr *frame) {
	dst, x, ix, it := c.slot(in), c.op(in.X), c.op(in.Index), in.Index.Type()
	return func(fr *frame) {
		p := fr.p
		var arr []value
		switch a := x.get(fr).(type) {
		case []value:
			arr = a
		case *value:
			if a == nil {
				panic(p.nilDeref())
			}
			arr = []value((*a).(array))
		default:
			panic(unsupported(fmt.Sprintf("index address of %T", a)))
		}
		i, s := p.index(ix.get(fr), it, len(arr), arr, true)
		if s != nil {
			fr.s[dst] = &symPtr{arr, s}
			return
		}
		fr.s[dst] = &arr[i]
	}
}

func (c *comp) index(in *ssa.Index) func(fr *frame) {
	dst, x, ix, it := c.slot(in), c.op(in.X), c.op(in.Index), in.Index.Type()
	et := in.Type()
	return func(fr *frame) {
		p := fr.p
		switch a := x.get(fr).(type) {
		case array:
			i, s := p.index(ix.get(fr), it, len(a), a, true)
			if s != nil {
				fr.s[dst] = p.loadPtr(&symPtr{a, s}, et)
				return
			}
			fr.s[dst] = a[i]
		case string:
			fr.s[dst] = p.strIndex(a, ix.get(fr), it)
		case *symStr:
			fr.s[dst] = p.strIndex(a, ix.get(fr), it)
		case []value:
			i, s := p.index(ix.get(fr), it, len(a), a, true)
			if s != nil {
				fr.s[dst] = p.loadPtr(&symPtr{a, s}, et)
				return
			}
			fr.s[dst] = copyVal(a[i])
		default:
			panic(unsupported(fmt.Sprintf("index of %T", a)))
		}
	}
}

func (p *Path) strIndex(s, idx value, it types.Type) value {
	if c, ok := s.(string); ok {
		if i, ok := idx.(uint64); ok && i < uint64(len(c)) {
			return uint64(c[i])
		}
	}
	b := strBytes(s)
	i, t := p.index(idx, it, len(b), b, true)
	if t != nil {
		return p.loadPtr(&symPtr{b, t}, types.Typ[types.Uint8])
	}
	return b[i]
}

func (c *comp) lookup(in *ssa.Lookup) func(fr *frame) {
	dst, x, ix := c.slot(in), c.op(in.X), c.op(in.Index)
	if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		it := in.Index.Type()
		return func(fr *frame) { fr.s[dst] = fr.p.strIndex(x.get(fr), ix.get(fr), it) }
	}
	et := in.X.Type().Underlying().(*types.Map).Elem()
	commaOk := in.CommaOk
	return func(fr *frame) {
		h := x.get(fr).(*hmap)
		if fr.p.raceOn && h != nil {
			fr.p.raceRead(h, nil)
		}
		e := fr.p.mapFind(h, ix.get(fr))
		var v value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = zero(et)
		}
		if commaOk {
			fr.s[dst] = tuple{v, e != nil}
		} else {
			fr.s[dst] = v
		}
	}
}

func (c *comp) slice(in *ssa.Slice) func(fr *frame) {
	dst, x := c.slot(in), c.op(in.X)
	type bound struct {
		o  operand
		t  types.Type
		ok bool
	}
	mk := func(v ssa.Value) bound {
		if v == nil {
			return bound{}
		}
		return bound{c.op(v), v.Type(), true}
	}
	lo, hi, mx := mk(in.Low), mk(in.High), mk(in.Max)
	return func(fr *frame) {
		p := fr.p
		get := func(b bound, def int64) int64 {
			if !b.ok {
				return def
			}
			return p.intArg(b.o.get(fr), b.t)
		}
		xv := x.get(fr)
		switch a := xv.(type) {
		case string, *symStr:
			n := int64(strLen(a))
			h := get(hi, n)
			l := get(lo, 0)
			if h < 0 || h > n {
				panic(p.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", h, n)))
			}
			if l < 0 || l > h {
				panic(p.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h)))
			}
			fr.s[dst] = strSlice(a, int(l), int(h))
			return
		case []value:
			n := int64(cap(a))
			h := get(hi, int64(len(a)))
			m := get(mx, n)
			l := get(lo, 0)
			if m < 0 || m > n {
				panic(p.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", m, n)))
			}
			if h < 0 || h > m {
				panic(p.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, m)))
			}
			if l < 0 || l > h {
				panic(p.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h)))
			}
			if a == nil {
				fr.s[dst] = a
				return
			}
			fr.s[dst] = a[l:h:m]
		case *value:
			if a == nil {
				panic(p.nilDeref())
			}
			arr := []value((*a).(array))
			n := int64(len(arr))
			h := get(hi, n)
			m := get(mx, n)
			l := get(lo, 0)
			if m < 0 || m > n || h < 0 || h > m || l < 0 || l > h {
				panic(p.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h)))
			}
			fr.s[dst] = arr[l:h:m]
		default:
			panic(unsupported(fmt.Sprintf("slice of %T", a)))
		}
	}
}

func (c *comp) typeAssert(in *ssa.TypeAssert) func(fr *frame) {
	dst, x := c.slot(in), c.op(in.X)
	at := in.AssertedType
	cat := canon(at)
	it, isI := at.Underlying().(*types.Interface)
	commaOk := in.CommaOk
	e := c.e
	var cache atomic.Pointer[implCache]
	return func(fr *frame) {
		xv, okk := x.get(fr).(iface)
		if !okk {
			panic(unsupported(fmt.Sprintf("type assertion on %T", x.get(fr))))
		}
		ok := false
		var v value
		if xv.t != nil {
			if isI {
				if ic := cache.Load(); ic != nil && ic.t == xv.t {
					ok = ic.ok
				} else {
					ok = e.implements(xv.t, it, cat)
					cache.Store(&implCache{xv.t, ok})
				}
				v = xv
			} else {
				ok = xv.t == cat
				v = xv.v
			}
		}
		if commaOk {
			if !ok {
				v = zero(at)
			}
			fr.s[dst] = tuple{v, ok}
			return
		}
		if !ok {
			have := "nil"
			if xv.t != nil {
				have = xv.t.String()
			}
			p := fr.p
			panic(p.rtPanic("interface conversion: interface is " + have + ", not " + at.String()))
		}
		fr.s[dst] = v
	}
}

// --- calls

// prepCall evaluates callee and arguments now and returns the delayed call.
func (c *comp) prepCall(call *ssa.CallCommon, rt types.Type) func(fr *frame) func(fr *frame) value {
	var args []operand
	for _, a := range call.Args {
		args = append(args, c.op(a))
	}
	evalArgs := func(fr *frame, extra int) []value {
		vs := make([]value, 0, len(args)+extra)
		for i := range args {
			vs = append(vs, args[i].get(fr))
		}
		return vs
	}
	e := c.e
	if call.IsInvoke() {
		rv := c.op(call.Value)
		m := call.Method
		var cache atomic.Pointer[methCache]
		return func(fr *frame) func(fr *frame) value {
			p := fr.p
			recv, ok := rv.get(fr).(iface)
			if !ok {
				panic(unsupported(fmt.Sprintf("method call on %T", rv.get(fr))))
			}
			if recv.t == nil {
				panic(p.nilDeref())
			}
			vs := make([]value, 0, len(args)+1)
			vs = append(vs, recv.v)
			for i := range args {
				vs = append(vs, args[i].get(fr))
			}
			if r, ok := recv.v.(*rtypeVal); ok {
				return func(fr *frame) value { return p.rtypeMethod(fr, r, m.Name(), vs[1:]) }
			}
			if h, ok := recv.v.(hostObj); ok {
				return func(fr *frame) value { return h.call(p, fr, m.Name(), vs[1:]) }
			}
			var fn *Func
			if mc := cache.Load(); mc != nil && mc.t == recv.t {
				fn = mc.f
			} else {
				fn = e.findMethod(recv.t, m)
				if fn == nil {
					panic(unsupported("no method " + m.Name() + " on " + recv.t.String()))
				}
				cache.Store(&methCache{recv.t, fn})
			}
			return func(fr *frame) value { return p.callFn(fr, fn, vs, nil) }
		}
	}
	switch fv := call.Value.(type) {
	case *ssa.Builtin:
		b := c.builtin(fv, call, rt)
		return func(fr *frame) func(fr *frame) value {
			vs := evalArgs(fr, 0)
			if fv.Name() == "recover" {
				return func(fr *frame) value { return b(fr, vs) }
			}
			return func(fr2 *frame) value { return b(fr2, vs) }
		}
	case *ssa.Function:
		fn := c.getFunc(fv)
		return func(fr *frame) func(fr *frame) value {
			vs := evalArgs(fr, 0)
			return func(fr *frame) value { return fr.p.callFn(fr, fn, vs, nil) }
		}
	}
	f := c.op(call.Value)
	return func(fr *frame) func(fr *frame) value {
		fv := f.get(fr)
		vs := evalArgs(fr, 0)
		return func(fr *frame) value { return fr.p.callValue(fr, fv, vs) }
	}
}

func (c *comp) call(call *ssa.CallCommon, rt types.Type) func(fr *frame) value {
	if !call.IsInvoke() {
		if fv, ok := call.Value.(*ssa.Function); ok {
			fn := c.getFunc(fv)
			var args []operand
			for _, a := range call.Args {
				args = append(args, c.op(a))
			}
			return func(fr *frame) value {
				vs := make([]value, len(args))
				for i := range args {
					vs[i] = args[i].get(fr)
				}
				return fr.p.callFn(fr, fn, vs, nil)
			}
		}
	}
	mk := c.prepCall(call, rt)
	return func(fr *frame) value { return mk(fr)(fr) }
}

func (c *comp) builtin(b *ssa.Builtin, call *ssa.CallCommon, rt types.Type) func(fr *frame, args []value) value {
	switch b.Name() {
	case "append":
		isStr := false
		if len(call.Args) == 2 {
			if bt, ok := call.Args[1].Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				isStr = true
			}
		}
		return func(fr *frame, a []value) value {
			if len(a) == 1 {
				return a[0]
			}
			var add []value
			if isStr {
				add = strBytes(a[1])
			} else {
				add, _ = a[1].([]value)
			}
			s, ok := a[0].([]value)
			if !ok {
				panic(unsupported(fmt.Sprintf("append to %T", a[0])))
			}
			if len(add) == 0 {
				return s
			}
			p := fr.p
			if p.raceOn {
				if !isStr {
					for i := range add {
						p.raceRead(&add[i], add[i])
					}
				}
				if len(s)+len(add) <= cap(s) {
					ext := s[:len(s)+len(add)]
					for i := len(s); i < len(ext); i++ {
						p.raceWrite(&ext[i], nil)
					}
				}
			}
			return appendVals(s, add)
		}
	case "copy":
		return func(fr *frame, a []value) value {
			d := a[0].([]value)
			var s []value
			if x, ok := a[1].([]value); ok {
				s = x
			} else {
				s = strBytes(a[1])
			}
			n := min(len(d), len(s))
			if fr.p.raceOn {
				for i := 0; i < n; i++ {
					fr.p.raceWrite(&d[i], d[i])
				}
			}
			if n > 0 && len(d) > 0 {
				tmp := make([]value, n)
				for i := 0; i < n; i++ {
					tmp[i] = copyVal(s[i])
				}
				copy(d, tmp)
			}
			return uint64(n)
		}
	case "len":
		return func(fr *frame, a []value) value {
			switch x := a[0].(type) {
			case string:
				return uint64(len(x))
			case *symStr:
				return uint64(len(x.b))
			case []value:
				return uint64(len(x))
			case *hmap:
				if x == nil {
					return uint64(0)
				}
				if fr.p.raceOn {
					fr.p.raceRead(x, nil)
				}
				return uint64(x.n)
			case *channel:
				if x == nil {
					return uint64(0)
				}
				return uint64(len(x.buf))
			case array:
				return uint64(len(x))
			case *value:
				return uint64(len((*x).(array)))
			}
			panic(unsupported(fmt.Sprintf("len of %T", a[0])))
		}
	case "cap":
		return func(fr *frame, a []value) value {
			switch x := a[0].(type) {
			case []value:
				return uint64(cap(x))
			case *channel:
				if x == nil {
					return uint64(0)
				}
				return uint64(x.cap)
			case array:
				return uint64(len(x))
			case *value:
				return uint64(len((*x).(array)))
			}
			panic(unsupported(fmt.Sprintf("cap of %T", a[0])))
		}
	case "close":
		return func(fr *frame, a []value) value {
			fr.p.closeChan(a[0].(*channel))
			return nil
		}
	case "delete":
		return func(fr *frame, a []value) value {
			m := a[0].(*hmap)
			if m == nil {
				return nil
			}
			if fr.p.raceOn {
				fr.p.raceWrite(m, nil)
			}
			fr.p.mapDelete(m, a[1])
			return nil
		}
	case "clear":
		et := call.Args[0].Type()
		return func(fr *frame, a []value) value {
			switch x := a[0].(type) {
			case *hmap:
				if fr.p.raceOn && x != nil {
					fr.p.raceWrite(x, nil)
				}
				fr.p.mapClear(x)
			case []value:
				z := et.Underlying().(*types.Slice).Elem()
				for i := range x {
					x[i] = zero(z)
				}
			}
			return nil
		}
	case "print", "println":
		return func(fr *frame, a []value) value { return nil }
	case "recover":
		return func(fr *frame, a []value) value {
			c := fr.caller
			if c == nil || c.pan == nil {
				return iface{}
			}
			v := c.pan.v
			c.pan = nil
			return v
		}
	case "min", "max":
		isMin := b.Name() == "min"
		t := call.Args[0].Type()
		return func(fr *frame, a []value) value {
			r := a[0]
			for _, x := range a[1:] {
				var lt value
				if isMin {
					lt = fr.p.less(x, r, t)
				} else {
					lt = fr.p.less(r, x, t)
				}
				switch l := lt.(type) {
				case bool:
					if l {
						r = x
					}
				case *Term:
					if w, ok := typeWidth(t); ok {
						r = fromTerm(fr.p.ts.Ite(l, fr.p.term(x, w), fr.p.term(r, w)))
					} else if fr.p.decide(l) {
						r = x
					}
				}
			}
			return r
		}
	case "ssa:wrapnilchk":
		return func(fr *frame, a []value) value {
			if q, ok := a[0].(*value); ok && q == nil {
				panic(fr.p.rtPanic("value method called using nil pointer"))
			}
			return a[0]
		}
	case "real", "imag", "complex":
		name := b.Name()
		return func(fr *frame, a []value) value {
			switch name {
			case "real":
				return real(a[0].(complex128))
			case "imag":
				return imag(a[0].(complex128))
			}
			return complex(a[0].(float64), a[1].(float64))
		}
	case "SliceData":
		return func(fr *frame, a []value) value {
			s := a[0].([]value)
			if cap(s) == 0 {
				if s == nil {
					return (*value)(nil)
				}
				return new(value)
			}
			q := &s[:1][0]
			fr.p.tables[sdKey{q}] = s[:cap(s)]
			return q
		}
	case "StringData":
		return func(fr *frame, a []value) value {
			s := append([]value(nil), strBytes(a[0])...)
			if len(s) == 0 {
				return (*value)(nil)
			}
			fr.p.tables[sdKey{&s[0]}] = s
			return &s[0]
		}
	case "String":
		nt := call.Args[1].Type()
		elems := c.elemsAt(call.Args[0])
		return func(fr *frame, a []value) value {
			n := int(fr.p.intArg(a[1], nt))
			if n == 0 {
				return ""
			}
			s, ok := elems(fr, n)
			if !ok {
				s = fr.p.unsafeSlice(a[0], n)
			}
			return mkStr(append([]value(nil), s...))
		}
	case "Slice":
		nt := call.Args[1].Type()
		elems := c.elemsAt(call.Args[0])
		return func(fr *frame, a []value) value {
			n := int(fr.p.intArg(a[1], nt))
			if q, ok := a[0].(*value); ok && q == nil {
				return []value(nil)
			}
			if s, ok := elems(fr, n); ok {
				return s
			}
			return fr.p.unsafeSlice(a[0], n)
		}
	}
	name := b.Name()
	return func(fr *frame, a []value) value { panic(unsupported("builtin " + name)) }
}

type sdKey struct{ p *value }

// elemsAt returns a function that finds the n elements behind the pointer v,
// when v is written as the address of an element of a slice.
func (c *comp) elemsAt(v ssa.Value) func(fr *frame, n int) ([]value, bool) {
	ia, ok := v.(*ssa.IndexAddr)
	if !ok {
		return func(*frame, int) ([]value, bool) { return nil, false }
	}
	if _, ok := ia.X.Type().Underlying().(*types.Slice); !ok {
		return func(*frame, int) ([]value, bool) { return nil, false }
	}
	xs, at, it := c.op(ia.X), c.op(ia.Index), ia.Index.Type()
	return func(fr *frame, n int) ([]value, bool) {
		s, ok := xs.get(fr).([]value)
		if !ok {
			return nil, false
		}
		i := int(fr.p.intArg(at.get(fr), it))
		if n < 0 || i < 0 || i+n > cap(s) {
			return nil, false
		}
		return s[i : i+n : i+n], true
	}
}

func (p *Path) unsafeSlice(ptr value, n int) []value {
	q, ok := ptr.(*value)
	if ok && q != nil {
		if s, ok := p.tables[sdKey{q}].([]value); ok && len(s) >= n {
			return s[:n:n]
		}
		if n == 1 {
			// cannot alias a lone cell
		}
	}
	if n == 0 {
		return []value{}
	}
	panic(unsupported("unsafe slice"))
}

func appendVals(s, add []value) []value {
	n := len(s) + len(add)
	if n <= cap(s) {
		// the added values may alias the tail of s
		tmp := make([]value, len(add))
		for i, x := range add {
			tmp[i] = copyVal(x)
		}
		r := s[:n]
		copy(r[len(s):], tmp)
		return r
	}
	c := 2 * cap(s)
	if c < n {
		c = n
	}
	if c < 4 {
		c = 4
	}
	r := make([]value, n, c)
	copy(r, s)
	// the spare room must hold zero values of the element type for later reslicing; use copies of nothing
	for i, x := range add {
		r[len(s)+i] = copyVal(x)
	}
	if len(r) < cap(r) {
		z := zeroLike(add[0])
		ext := r[:cap(r)]
		for i := len(r); i < len(ext); i++ {
			ext[i] = copyVal(z)
		}
	}
	return r
}

// zeroLike is the zero value with the shape of v (used for spare slice capacity).
func zeroLike(v value) value {
	switch v := v.(type) {
	case bool:
		return false
	case uint64:
		return uint64(0)
	case *Term:
		if v.w == 0 {
			return false
		}
		return uint64(0)
	case float64:
		return float64(0)
	case complex128:
		return complex128(0)
	case string, *symStr:
		return ""
	case structure:
		r := make(structure, len(v))
		for i := range v {
			r[i] = zeroLike(v[i])
		}
		return r
	case array:
		r := make(array, len(v))
		for i := range v {
			r[i] = zeroLike(v[i])
		}
		return r
	case []value:
		return []value(nil)
	case *value, *symPtr:
		return (*value)(nil)
	case *hmap:
		return (*hmap)(nil)
	case *channel:
		return (*channel)(nil)
	case *closure:
		return (*closure)(nil)
	case iface:
		return iface{}
	case uptr:
		return uptr{}
	}
	return nil
}

// less is the < operator on values of type t.
func (p *Path) less(a, b value, t types.Type) value {
	switch x := a.(type) {
	case float64:
		if y, ok := b.(float64); ok {
			return x < y
		}
	case string, *symStr:
		return p.strLess(a, b)
	}
	w, ok := typeWidth(t)
	if !ok {
		panic(unsupported(fmt.Sprintf("comparison of %T", a)))
	}
	op := OUlt
	if isSigned(t) {
		op = OSlt
	}
	if x, ok := a.(uint64); ok {
		if y, ok := b.(uint64); ok {
			return evalOp(op, 0, 0, x, y, 0, w, w) != 0
		}
	}
	return fromTerm(p.ts.Cmp(op, p.term(a, w), p.term(b, w)))
}

func (c *comp) unop(in *ssa.UnOp) func(fr *frame) {
	dst, x := c.slot(in), c.op(in.X)
	t := in.Type()
	switch in.Op {
	case token.MUL:
		if al, ok := in.X.(*ssa.Alloc); ok && !al.Heap {
			return func(fr *frame) { fr.s[dst] = copyVal(*(fr.s[x.slot].(*value))) }
		}
		return func(fr *frame) { fr.s[dst] = fr.p.loadPtr(x.get(fr), t) }
	case token.NOT:
		return func(fr *frame) { fr.s[dst] = fr.p.boolNot(x.get(fr)) }
	case token.ARROW:
		et := in.X.Type().Underlying().(*types.Chan).Elem()
		commaOk := in.CommaOk
		return func(fr *frame) {
			v, ok := fr.p.recv(x.get(fr).(*channel), zero(et))
			if commaOk {
				fr.s[dst] = tuple{v, ok}
			} else {
				fr.s[dst] = v
			}
		}
	case token.SUB:
		w, _ := typeWidth(t)
		return func(fr *frame) {
			switch v := x.get(fr).(type) {
			case uint64:
				fr.s[dst] = -v & mask(w)
			case float64:
				fr.s[dst] = -v
			case complex128:
				fr.s[dst] = -v
			case *Term:
				fr.s[dst] = fromTerm(fr.p.ts.Neg(v))
			default:
				panic(unsupported(fmt.Sprintf("negation of %T", v)))
			}
		}
	case token.XOR:
		w, _ := typeWidth(t)
		return func(fr *frame) {
			switch v := x.get(fr).(type) {
			case uint64:
				fr.s[dst] = ^v & mask(w)
			case *Term:
				fr.s[dst] = fromTerm(fr.p.ts.Bnot(v))
			default:
				panic(unsupported(fmt.Sprintf("complement of %T", v)))
			}
		}
	}
	panic(unsupported("unary " + in.Op.String()))
}

func (c *comp) binop(in *ssa.BinOp) func(fr *frame) {
	dst, x, y := c.slot(in), c.op(in.X), c.op(in.Y)
	t := in.X.Type()
	switch in.Op {
	case token.EQL:
		return func(fr *frame) { fr.s[dst] = fr.p.equals(x.get(fr), y.get(fr)) }
	case token.NEQ:
		return func(fr *frame) { fr.s[dst] = fr.p.boolNot(fr.p.equals(x.get(fr), y.get(fr))) }
	case token.LSS:
		return func(fr *frame) { fr.s[dst] = fr.p.cmp(token.LSS, x.get(fr), y.get(fr), t) }
	case token.GTR:
		return func(fr *frame) { fr.s[dst] = fr.p.cmp(token.LSS, y.get(fr), x.get(fr), t) }
	case token.LEQ:
		return func(fr *frame) { fr.s[dst] = fr.p.cmp(token.LEQ, x.get(fr), y.get(fr), t) }
	case token.GEQ:
		return func(fr *frame) { fr.s[dst] = fr.p.cmp(token.LEQ, y.get(fr), x.get(fr), t) }
	case token.SHL, token.SHR:
		op := in.Op
		yt := in.Y.Type()
		return func(fr *frame) { fr.s[dst] = fr.p.shift(op, x.get(fr), y.get(fr), t, yt) }
	}
	b, _ := t.Underlying().(*types.Basic)
	op := in.Op
	if b != nil && b.Info()&types.IsString != 0 {
		return func(fr *frame) { fr.s[dst] = strConcat(x.get(fr), y.get(fr)) }
	}
	if b != nil && b.Info()&types.IsInteger != 0 {
		w, _ := basicWidth(b.Kind())
		signed := isSigned(t)
		m := mask(w)
		// fast paths
		switch op {
		case token.ADD:
			return func(fr *frame) {
				a, d := x.get(fr), y.get(fr)
				if u, ok := a.(uint64); ok {
					if v, ok := d.(uint64); ok {
						fr.s[dst] = (u + v) & m
						return
					}
				}
				fr.s[dst] = fr.p.arith(op, a, d, w, signed)
			}
		case token.SUB:
			return func(fr *frame) {
				a, d := x.get(fr), y.get(fr)
				if u, ok := a.(uint64); ok {
					if v, ok := d.(uint64); ok {
						fr.s[dst] = (u - v) & m
						return
					}
				}
				fr.s[dst] = fr.p.arith(op, a, d, w, signed)
			}
		}
		return func(fr *frame) { fr.s[dst] = fr.p.arith(op, x.get(fr), y.get(fr), w, signed) }
	}
	f32 := b != nil && b.Kind() == types.Float32
	return func(fr *frame) {
		switch a := x.get(fr).(type) {
		case float64:
			d, ok := y.get(fr).(float64)
			if !ok {
				panic(unsupported("float arithmetic"))
			}
			var r float64
			switch op {
			case token.ADD:
				r = a + d
			case token.SUB:
				r = a - d
			case token.MUL:
				r = a * d
			case token.QUO:
				r = a / d
			}
			if f32 {
				r = float64(float32(r))
			}
			fr.s[dst] = r
			return
		case complex128:
			d := y.get(fr).(complex128)
			switch op {
			case token.ADD:
				fr.s[dst] = a + d
			case token.SUB:
				fr.s[dst] = a - d
			case token.MUL:
				fr.s[dst] = a * d
			case token.QUO:
				fr.s[dst] = a / d
			}
			return
		case bool, *Term:
			// & and | on booleans do not occur in Go
		}
		panic(unsupported("binary " + op.String() + fmt.Sprintf(" on %T", x.get(fr))))
	}
}

func (p *Path) cmp(op token.Token, a, b value, t types.Type) value {
	if op == token.LSS {
		return p.less(a, b, t)
	}
	switch x := a.(type) {
	case float64:
		return x <= b.(float64)
	}
	return p.boolNot(p.less(b, a, t))
}

func (p *Path) arith(op token.Token, a, b value, w uint8, signed bool) value {
	var o Op
	switch op {
	case token.ADD:
		o = OAdd
	case token.SUB:
		o = OSub
	case token.MUL:
		o = OMul
	case token.QUO, token.REM:
		if signed {
			o = OSdiv
			if op == token.REM {
				o = OSrem
			}
		} else {
			o = OUdiv
			if op == token.REM {
				o = OUrem
			}
		}
		switch y := b.(type) {
		case uint64:
			if y == 0 {
				panic(p.rtPanic("integer divide by zero"))
			}
		case *Term:
			if p.decide(p.ts.Eq(y, p.ts.Const(0, w))) {
				panic(p.rtPanic("integer divide by zero"))
			}
		}
	case token.AND:
		o = OBand
	case token.OR:
		o = OBor
	case token.XOR:
		o = OBxor
	case token.AND_NOT:
		o = OBand
		switch y := b.(type) {
		case uint64:
			b = ^y & mask(w)
		case *Term:
			b = fromTerm(p.ts.Bnot(y))
		}
	default:
		panic(unsupported("arithmetic " + op.String()))
	}
	if x, ok := a.(uint64); ok {
		if y, ok := b.(uint64); ok {
			return evalOp(o, w, 0, x, y, 0, w, w)
		}
	}
	return fromTerm(p.ts.Bin(o, p.term(a, w), p.term(b, w)))
}

func (p *Path) shift(op token.Token, a, b value, t, yt types.Type) value {
	w, _ := typeWidth(t)
	yw, _ := typeWidth(yt)
	if isSigned(yt) {
		switch y := b.(type) {
		case uint64:
			if sext64(y, yw) < 0 {
				panic(p.rtPanic("negative shift amount"))
			}
		case *Term:
			if p.decide(p.ts.Cmp(OSlt, y, p.ts.Const(0, yw))) {
				panic(p.rtPanic("negative shift amount"))
			}
		}
	}
	o := OShl
	if op == token.SHR {
		o = OLshr
		if isSigned(t) {
			o = OAshr
		}
	}
	if y, ok := b.(uint64); ok {
		if x, ok := a.(uint64); ok {
			return evalOp(o, w, 0, x, y, 0, w, yw)
		}
		if y >= uint64(w) {
			if o == OAshr {
				y = uint64(w) - 1
			} else {
				return uint64(0)
			}
		}
		return fromTerm(p.ts.Bin(o, p.term(a, w), p.ts.Const(y, w)))
	}
	y := p.term(b, yw)
	x := p.term(a, w)
	// saturate the amount to the width of x
	var amt *Term
	if yw > w {
		big := p.ts.Not(p.ts.Cmp(OUlt, y, p.ts.Const(uint64(w), yw)))
		amt = p.ts.Ite(big, p.ts.Const(uint64(w), w), p.ts.Extract(y, 0, w))
	} else {
		amt = p.ts.Zext(y, w)
	}
	return fromTerm(p.ts.Bin(o, x, amt))
}

// --- conversions

func convert(from, to types.Type) func(p *Path, fr *frame, v value) value {
	fu, tu := from.Underlying(), to.Underlying()
	if _, ok := fu.(*types.TypeParam); ok {
		panic(unsupported("conversion of type parameter"))
	}
	switch tu := tu.(type) {
	case *types.Basic:
		if tu.Kind() == types.UnsafePointer {
			return func(p *Path, fr *frame, v value) value {
				switch x := v.(type) {
				case *value:
					if x == nil {
						return uptr{}
					}
					return uptr{x, deref(from)}
				case uptr:
					return x
				case uint64:
					if x == 0 {
						return uptr{}
					}
				}
				panic(unsupported(fmt.Sprintf("unsafe.Pointer of %T", v)))
			}
		}
		switch {
		case tu.Info()&types.IsString != 0:
			switch fu := fu.(type) {
			case *types.Slice:
				if isByte(fu.Elem()) {
					return func(p *Path, fr *frame, v value) value {
						b := v.([]value)
						if p.raceOn {
							for i := range b {
								p.raceRead(&b[i], b[i])
							}
						}
						return mkStr(append([]value(nil), b...))
					}
				}
				return func(p *Path, fr *frame, v value) value {
					var r value = ""
					for _, x := range v.([]value) {
						r = strConcat(r, p.runeToStr(fr, x, 32, true))
					}
					return r
				}
			case *types.Basic:
				if fu.Info()&types.IsString != 0 {
					return func(p *Path, fr *frame, v value) value { return v }
				}
				if fu.Info()&types.IsInteger != 0 {
					w, _ := basicWidth(fu.Kind())
					s := isSigned(fu)
					return func(p *Path, fr *frame, v value) value { return p.runeToStr(fr, v, w, s) }
				}
			}
		case tu.Info()&types.IsInteger != 0:
			tw, _ := basicWidth(tu.Kind())
			if fb, ok := fu.(*types.Basic); ok {
				if fb.Kind() == types.UnsafePointer {
					return func(p *Path, fr *frame, v value) value {
						u := v.(uptr)
						if isNilPtr(u.p) {
							return uint64(0)
						}
						return p.addrOf(u.p)
					}
				}
				if fb.Info()&types.IsInteger != 0 {
					fw, _ := basicWidth(fb.Kind())
					signed := isSigned(fb)
					return func(p *Path, fr *frame, v value) value {
						switch x := v.(type) {
						case uint64:
							if signed && tw > fw {
								return uint64(sext64(x, fw)) & mask(tw)
							}
							return x & mask(tw)
						case *Term:
							if tw < fw {
								return fromTerm(p.ts.Extract(x, 0, tw))
							}
							if tw > fw {
								if signed {
									return fromTerm(p.ts.Sext(x, tw))
								}
								return fromTerm(p.ts.Zext(x, tw))
							}
							return x
						}
						panic(unsupported(fmt.Sprintf("conversion of %T", v)))
					}
				}
				if fb.Info()&types.IsFloat != 0 {
					unsigned := tu.Info()&types.IsUnsigned != 0
					return func(p *Path, fr *frame, v value) value {
						f := v.(float64)
						if unsigned {
							return uint64(f) & mask(tw)
						}
						return uint64(int64(f)) & mask(tw)
					}
				}
			}
		case tu.Info()&types.IsFloat != 0:
			f32 := tu.Kind() == types.Float32
			if fb, ok := fu.(*types.Basic); ok {
				fw, _ := basicWidth(fb.Kind())
				signed := isSigned(fb)
				return func(p *Path, fr *frame, v value) value {
					var f float64
					switch x := v.(type) {
					case float64:
						f = x
					case uint64, *Term:
						u := p.concretize(x, fw)
						if signed {
							f = float64(sext64(u, fw))
						} else {
							f = float64(u)
						}
					default:
						panic(unsupported(fmt.Sprintf("conversion of %T", v)))
					}
					if f32 {
						f = float64(float32(f))
					}
					return f
				}
			}
		case tu.Info()&types.IsComplex != 0:
			return func(p *Path, fr *frame, v value) value { return v }
		case tu.Info()&types.IsBoolean != 0:
			return func(p *Path, fr *frame, v value) value { return v }
		}
	case *types.Slice:
		if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
			if isByte(tu.Elem()) {
				return func(p *Path, fr *frame, v value) value {
					return append(make([]value, 0, strLen(v)), strBytes(v)...)
				}
			}
			return func(p *Path, fr *frame, v value) value {
				r := []value{}
				for i := 0; i < strLen(v); {
					x, n := p.decodeRune(fr, v, i)
					r = append(r, x)
					i += n
				}
				return r
			}
		}
		return func(p *Path, fr *frame, v value) value { return v }
	case *types.Pointer:
		if fb, ok := fu.(*types.Basic); ok && fb.Kind() == types.UnsafePointer {
			et := tu.Elem()
			return func(p *Path, fr *frame, v value) value {
				u := v.(uptr)
				if isNilPtr(u.p) {
					return (*value)(nil)
				}
				if types.Identical(u.t, et) || types.Identical(u.t.Underlying(), et.Underlying()) {
					return u.p
				}
				if q, ok := u.p.(*value); ok {
					fs, tok := u.t.Underlying(), et.Underlying()
					if b, ok := tok.(*types.Basic); ok && b.Info()&types.IsString != 0 {
						if s, ok := fs.(*types.Slice); ok && isByte(s.Elem()) {
							cell := new(value)
							*cell = mkStr(append([]value(nil), (*q).([]value)...))
							return cell
						}
					}
					// pointer to the first field or element
					if in := firstCell(q, u.t, et); in != nil {
						return in
					}
				}
				panic(unsupported("unsafe conversion of *" + u.t.String() + " to *" + et.String()))
			}
		}
		return func(p *Path, fr *frame, v value) value { return v }
	case *types.Array:
		if _, ok := fu.(*types.Slice); ok {
			n := int(tu.Len())
			return func(p *Path, fr *frame, v value) value {
				s := v.([]value)
				if len(s) < n {
					panic(p.rtPanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n)))
				}
				return copyVal(array(s[:n]))
			}
		}
	}
	if types.Identical(fu, to.Underlying()) {
		return func(p *Path, fr *frame, v value) value { return v }
	}
	return func(p *Path, fr *frame, v value) value {
		panic(unsupported("conversion " + from.String() + " to " + to.String()))
	}
}

func firstCell(q *value, t, want types.Type) *value {
	for k := 0; k < 8; k++ {
		if types.Identical(t, want) || types.Identical(t.Underlying(), want.Underlying()) {
			return q
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if u.NumFields() == 0 {
				return nil
			}
			q = &(*q).(structure)[0]
			t = u.Field(0).Type()
		default:
			return nil
		}
	}
	return nil
}

func (p *Path) addrOf(ptr value) uint64 {
	type ak struct{ p any }
	if a, ok := p.tables[ak{ptr}]; ok {
		return a.(uint64)
	}
	p.nextID++
	a := uint64(0xc000000000) + uint64(p.nextID)*64
	p.tables[ak{ptr}] = a
	return a
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8 && false)
}

func (p *Path) runeToStr(fr *frame, v value, w uint8, signed bool) value {
	if x, ok := v.(uint64); ok {
		var i int64
		if signed {
			i = sext64(x, w)
		} else {
			i = int64(x)
		}
		if i < 0 || i > utf8.MaxRune {
			return string(utf8.RuneError)
		}
		return string(rune(i))
	}
	t := p.term(v, w)
	if w < 32 {
		if signed {
			t = p.ts.Sext(t, 32)
		} else {
			t = p.ts.Zext(t, 32)
		}
	} else if w > 32 {
		if p.decide(p.ts.Cmp(OUlt, t, p.ts.Const(utf8.MaxRune+1, w))) {
			t = p.ts.Extract(t, 0, 32)
		} else {
			return string(utf8.RuneError)
		}
	}
	f := p.w.e.lookup("unicode/utf8", "AppendRune")
	b := p.callFn(fr, p.w.e.getFunc(f), []value{[]value(nil), fromTerm(t)}, nil).([]value)
	return mkStr(append([]value(nil), b...))
}

func (p *Path) decodeRune(fr *frame, s value, i int) (value, int) {
	if c, ok := s.(string); ok {
		r, n := utf8.DecodeRuneInString(c[i:])
		return uint64(uint32(r)), n
	}
	b := s.(*symStr).b
	if x, ok := b[i].(uint64); ok && x < utf8.RuneSelf {
		return x, 1
	}
	f := p.w.e.lookup("unicode/utf8", "DecodeRuneInString")
	r := p.callFn(fr, p.w.e.getFunc(f), []value{strSlice(s, i, min(len(b), i+4))}, nil).(tuple)
	return r[0], int(p.concretize(r[1], 64))
}

// --- range

type iterator interface {
	next(fr *frame, t *types.Tuple) value
}

type strIter struct {
	s value
	i int
}

func (it *strIter) next(fr *frame, t *types.Tuple) value {
	if it.i >= strLen(it.s) {
		return tuple{false, uint64(0), uint64(0)}
	}
	r, n := fr.p.decodeRune(fr, it.s, it.i)
	k := it.i
	it.i += n
	return tuple{true, uint64(k), r}
}

type mapIter struct {
	m    *hmap
	ents []*mapEntry
	i    int
}

func (p *Path) rangeIter(x value) value {
	switch x := x.(type) {
	case string, *symStr:
		return &strIter{s: x}
	case *hmap:
		if x == nil {
			return &mapIter{}
		}
		if p.raceOn {
			p.raceRead(x, nil)
		}
		var live []*mapEntry
		for _, e := range x.ents {
			if !e.dead {
				live = append(live, e)
			}
		}
		if p.mapOrder > 1 && len(live) > 1 && len(live) <= p.mapOrder && p.initing == 0 {
			p.usedMap = true
			// any order: choose the next one repeatedly
			for i := 0; i < len(live)-1; i++ {
				k := i + p.choose(len(live)-i, "maporder")
				e := live[k]
				copy(live[i+1:k+1], live[i:k])
				live[i] = e
			}
		}
		return &mapIter{m: x, ents: live}
	}
	panic(unsupported(fmt.Sprintf("range over %T", x)))
}

func (it *mapIter) next(fr *frame, t *types.Tuple) value {
	for it.i < len(it.ents) {
		e := it.ents[it.i]
		it.i++
		if e.dead {
			continue
		}
		if fr.p.raceOn {
			fr.p.raceRead(it.m, nil)
		}
		return tuple{true, copyVal(e.k), copyVal(e.v)}
	}
	var k, v value
	if it.m != nil || true {
		if b, ok := t.At(1).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Invalid {
			k = zero(t.At(1).Type())
		}
		if b, ok := t.At(2).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Invalid {
			v = zero(t.At(2).Type())
		}
	}
	return tuple{false, k, v}
}

// budget is called now and then to stop runaway paths.
func (p *Path) budget() {
	if p.steps > p.maxSteps && p.initing == 0 {
		panic(abortPath{"limit", "step limit"})
	}
	if p.w.e.ex.expired() {
		panic(abortPath{"timeout", "time limit"})
	}
	if p.killed {
		panic(abortPath{"killed", ""})
	}
}

type hostObj interface {
	call(p *Path, fr *frame, method string, args []value) value
}

// inline caches of dynamic calls and type assertions
type methCache struct {
	t types.Type
	f *Func
}

type implCache struct {
	t  types.Type
	ok bool
}
