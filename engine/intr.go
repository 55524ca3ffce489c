package main

// Intrinsics: the parts of the run-time, the standard library and the harness API that are not executed from source.

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strings"
)

func (e *Engine) initIntrinsics() {
	e.intr = map[string]Intrinsic{}
	e.redir = map[string]redirect{}
	e.symIntrinsics()
	e.syncIntrinsics()
	e.runtimeIntrinsics()
	e.textIntrinsics()
	e.fmtIntrinsics()
	e.reflectIntrinsics()
	e.gobIntrinsics()
	e.modelRedirects()
}

func (e *Engine) reg(name string, f Intrinsic) { e.intr[name] = f }

func (p *Path) retNil() value { return nil }

func hostStr(v value) (string, bool) {
	s, ok := v.(string)
	return s, ok
}

// --- harness API

func (e *Engine) symIntrinsics() {
	s := func(name string, f Intrinsic) { e.reg(symPath+"."+name, f) }
	name := func(v value) string {
		n, ok := v.(string)
		if !ok {
			panic(unsupported("symbolic variable name"))
		}
		return n
	}
	s("U8", func(p *Path, fr *frame, fn *Func, a []value) value { return fromTerm(p.newVar(name(a[0]), 8)) })
	s("U16", func(p *Path, fr *frame, fn *Func, a []value) value { return fromTerm(p.newVar(name(a[0]), 16)) })
	s("U32", func(p *Path, fr *frame, fn *Func, a []value) value { return fromTerm(p.newVar(name(a[0]), 32)) })
	s("U64", func(p *Path, fr *frame, fn *Func, a []value) value { return fromTerm(p.newVar(name(a[0]), 64)) })
	s("I64", func(p *Path, fr *frame, fn *Func, a []value) value { return fromTerm(p.newVar(name(a[0]), 64)) })
	s("Bool", func(p *Path, fr *frame, fn *Func, a []value) value { return fromTerm(p.newVar(name(a[0]), 0)) })
	s("Int", func(p *Path, fr *frame, fn *Func, a []value) value {
		lo, hi := int64(a[1].(uint64)), int64(a[2].(uint64))
		if hi < lo {
			panic(abortPath{"infeasible", "empty range"})
		}
		return fromTerm(p.ts.Bin(OAdd, p.rangeVar(name(a[0]), uint64(hi-lo)+1), p.ts.Const(uint64(lo), 64)))
	})
	s("Bytes", func(p *Path, fr *frame, fn *Func, a []value) value {
		n := int(p.concretize(a[1], 64))
		b := make([]value, n)
		for i := range b {
			b[i] = fromTerm(p.newVar(name(a[0]), 8))
		}
		return b
	})
	s("String", func(p *Path, fr *frame, fn *Func, a []value) value {
		n := int(p.concretize(a[1], 64))
		b := make([]value, n)
		for i := range b {
			b[i] = fromTerm(p.newVar(name(a[0]), 8))
		}
		return mkStr(b)
	})
	s("Alpha", func(p *Path, fr *frame, fn *Func, a []value) value {
		n := int(p.concretize(a[1], 64))
		al := a[2].(string)
		b := make([]value, n)
		for i := range b {
			ix := p.rangeVar(name(a[0]), uint64(len(al)))
			t := p.ts.Const(uint64(al[len(al)-1]), 8)
			for k := len(al) - 2; k >= 0; k-- {
				t = p.ts.Ite(p.ts.Eq(ix, p.ts.Const(uint64(k), 64)), p.ts.Const(uint64(al[k]), 8), t)
			}
			b[i] = fromTerm(t)
		}
		return mkStr(b)
	})
	// Pick selects one of the given strings; strings of equal length stay symbolic
	s("Choose", func(p *Path, fr *frame, fn *Func, a []value) value {
		n := int(a[1].(uint64))
		full := p.choiceName(name(a[0]))
		k := p.choose(n, "input")
		p.chosen[full] = uint64(k)
		return uint64(k)
	})
	s("Assume", func(p *Path, fr *frame, fn *Func, a []value) value { p.assume(a[0]); return nil })
	s("Assert", func(p *Path, fr *frame, fn *Func, a []value) value {
		m, _ := a[1].(string)
		p.assert(a[0], m)
		return nil
	})
	s("Cover", func(p *Path, fr *frame, fn *Func, a []value) value { p.covers[a[0].(string)] = true; return nil })
	s("Observe", func(p *Path, fr *frame, fn *Func, a []value) value {
		p.obs = append(p.obs, obsRec{a[0].(string), deepCopy(a[1], map[any]value{})})
		return nil
	})
	s("And", func(p *Path, fr *frame, fn *Func, a []value) value {
		var r value = true
		for _, x := range a[0].([]value) {
			r = p.boolAnd(r, x)
		}
		return r
	})
	s("Or", func(p *Path, fr *frame, fn *Func, a []value) value {
		var r value = false
		for _, x := range a[0].([]value) {
			r = p.boolOr(r, x)
		}
		return r
	})
	s("Implies", func(p *Path, fr *frame, fn *Func, a []value) value { return p.boolOr(p.boolNot(a[0]), a[1]) })
	s("EqStr", func(p *Path, fr *frame, fn *Func, a []value) value { return p.strEq(a[0], a[1]) })
	s("EqBytes", func(p *Path, fr *frame, fn *Func, a []value) value {
		return p.strEq(mkStr(a[0].([]value)), mkStr(a[1].([]value)))
	})
	s("IteInt", func(p *Path, fr *frame, fn *Func, a []value) value {
		return fromTerm(p.ts.Ite(p.term(a[0], 0), p.term(a[1], 64), p.term(a[2], 64)))
	})
	s("Tier", func(p *Path, fr *frame, fn *Func, a []value) value { return uint64(p.w.e.ex.tier) })
	s("Symbolic", func(p *Path, fr *frame, fn *Func, a []value) value { return true })
	s("Concrete", func(p *Path, fr *frame, fn *Func, a []value) value { return p.concretize(a[0], 64) })
	s("ConcreteStr", func(p *Path, fr *frame, fn *Func, a []value) value {
		b := strBytes(a[0])
		r := make([]value, len(b))
		for i := range b {
			r[i] = p.concretize(b[i], 8)
		}
		return mkStr(r)
	})
	s("Schedules", func(p *Path, fr *frame, fn *Func, a []value) value {
		p.schedOn, p.preempt = true, int(a[0].(uint64))
		return nil
	})
	s("Delays", func(p *Path, fr *frame, fn *Func, a []value) value {
		p.schedOn, p.delay, p.preempt = true, true, int(a[0].(uint64))
		return nil
	})
	s("NoSchedules", func(p *Path, fr *frame, fn *Func, a []value) value {
		p.schedOn = false
		return nil
	})
	s("Races", func(p *Path, fr *frame, fn *Func, a []value) value { p.raceOn = a[0].(bool); return nil })
	s("MapOrder", func(p *Path, fr *frame, fn *Func, a []value) value { p.mapOrder = int(a[0].(uint64)); return nil })
	s("Field", func(p *Path, fr *frame, fn *Func, a []value) value { return p.symField(a[0].(iface), a[1].(string)) })
	s("Call", func(p *Path, fr *frame, fn *Func, a []value) value {
		f := a[0].(iface)
		sig, ok := f.t.Underlying().(*types.Signature)
		if !ok || sig.Variadic() {
			panic(unsupported("Call of a value that is no plain function"))
		}
		var args []value
		for i, x := range a[1].([]value) {
			if i >= sig.Params().Len() {
				panic(unsupported("Call with too many arguments"))
			}
			if _, isI := sig.Params().At(i).Type().Underlying().(*types.Interface); isI {
				args = append(args, x)
			} else {
				args = append(args, copyVal(x.(iface).v))
			}
		}
		r := p.callValue(fr, f.v, args)
		switch sig.Results().Len() {
		case 0:
			return iface{}
		case 1:
		default:
			r = r.(tuple)[0]
		}
		if _, isI := sig.Results().At(0).Type().Underlying().(*types.Interface); isI {
			return r
		}
		return iface{t: canon(sig.Results().At(0).Type()), v: r}
	})
	s("SetField", func(p *Path, fr *frame, fn *Func, a []value) value {
		x := a[0].(iface)
		pt, ok := x.t.Underlying().(*types.Pointer)
		if !ok {
			panic(unsupported("SetField of a non-pointer"))
		}
		st := pt.Elem().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == a[1].(string) {
				nv := a[2].(iface)
				cell := &(*x.v.(*value)).(structure)[i]
				if _, isI := st.Field(i).Type().Underlying().(*types.Interface); isI {
					storeInto(cell, nv)
				} else {
					storeInto(cell, nv.v)
				}
				return nil
			}
		}
		panic(unsupported("SetField: no field " + a[1].(string)))
	})
}

func (p *Path) choiceName(name string) string {
	k := p.names[name]
	p.names[name] = k + 1
	return strings.ReplaceAll(fmt.Sprintf("%s#%d", name, k), "|", "!")
}

// rangeVar is a fresh 64-bit term in [0, n); the default model value 0 always satisfies it.
func (p *Path) rangeVar(name string, n uint64) *Term {
	if n == 1 {
		p.names[name]++
		return p.ts.Const(0, 64)
	}
	w := uint8(64)
	if n != 0 {
		w = uint8(bits.Len64(n - 1))
	}
	v := p.newVar(name, w)
	if n != 0 && n&(n-1) != 0 {
		p.addPC(p.ts.Cmp(OUlt, v, p.ts.Const(n, w)))
	}
	return p.ts.Zext(v, 64)
}

func (p *Path) symField(x iface, name string) value {
	v := x.v
	t := x.t
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		q := v.(*value)
		if q == nil {
			panic(p.nilDeref())
		}
		v = *q
		t = pt.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(unsupported("Field of " + t.String()))
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			fv := copyVal(v.(structure)[i])
			if i, ok := fv.(iface); ok {
				return i
			}
			return iface{canon(st.Field(i).Type()), fv}
		}
	}
	// promoted fields
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Embedded() {
			if _, ok := f.Type().Underlying().(*types.Struct); ok {
				if o, _, _ := types.LookupFieldOrMethod(f.Type(), true, f.Pkg(), name); o != nil {
					if _, ok := o.(*types.Var); ok {
						return p.symField(iface{f.Type(), v.(structure)[i]}, name)
					}
				}
			}
		}
	}
	panic(unsupported("no field " + name + " in " + t.String()))
}

func deepCopy(v value, seen map[any]value) value {
	switch v := v.(type) {
	case structure:
		c := make(structure, len(v))
		for i := range v {
			c[i] = deepCopy(v[i], seen)
		}
		return c
	case array:
		c := make(array, len(v))
		for i := range v {
			c[i] = deepCopy(v[i], seen)
		}
		return c
	case []value:
		if v == nil {
			return v
		}
		c := make([]value, len(v))
		for i := range v {
			c[i] = deepCopy(v[i], seen)
		}
		return c
	case iface:
		return iface{v.t, deepCopy(v.v, seen)}
	case *value:
		if v == nil {
			return v
		}
		if c, ok := seen[v]; ok {
			return c
		}
		c := new(value)
		seen[v] = c
		*c = deepCopy(*v, seen)
		return c
	case *hmap:
		if v == nil {
			return v
		}
		if c, ok := seen[v]; ok {
			return c
		}
		c := &hmap{n: v.n}
		seen[v] = c
		for _, e := range v.ents {
			if !e.dead {
				c.ents = append(c.ents, &mapEntry{k: deepCopy(e.k, seen), v: deepCopy(e.v, seen)})
			}
		}
		return c
	}
	return v
}

// --- observed values, printed exactly as the native sym.Observe prints them

func (p *Path) showObs(v value, vals map[string]uint64) string {
	p.w.gen++
	gen := p.w.gen
	sh := &shower{p: p, m: Model(vals), gen: gen}
	x, ok := v.(iface)
	if !ok {
		return "?"
	}
	return sh.show(x.t, x.v, 0)
}

type shower struct {
	p   *Path
	m   Model
	gen uint64
}

func (s *shower) u(v value) uint64 {
	switch v := v.(type) {
	case uint64:
		return v
	case *Term:
		return v.Eval(s.m, s.gen)
	case bool:
		return b2u(v)
	}
	panic(unsupported("show"))
}

func (s *shower) show(t types.Type, v value, d int) string {
	if t == nil {
		return "nil"
	}
	if d > 12 {
		return "..."
	}
	if _, isI := t.Underlying().(*types.Interface); !isI && d >= 0 {
		if types.Implements(t, errorIface) {
			if q, ok := v.(*value); ok && q == nil {
				return "nil"
			}
			return "error"
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return fmt.Sprint(s.u(v) != 0)
		case u.Info()&types.IsInteger != 0:
			w, _ := basicWidth(u.Kind())
			if isSigned(u) {
				return fmt.Sprint(sext64(s.u(v), w))
			}
			return fmt.Sprint(s.u(v))
		case u.Info()&types.IsString != 0:
			return fmt.Sprintf("%q", s.str(v))
		case u.Info()&types.IsFloat != 0:
			return fmt.Sprint(v.(float64))
		}
	case *types.Slice:
		var parts []string
		for _, x := range v.([]value) {
			parts = append(parts, s.show(u.Elem(), x, d+1))
		}
		return "[" + strings.Join(parts, " ") + "]"
	case *types.Array:
		var parts []string
		for _, x := range v.(array) {
			parts = append(parts, s.show(u.Elem(), x, d+1))
		}
		return "[" + strings.Join(parts, " ") + "]"
	case *types.Struct:
		var parts []string
		for i, x := range v.(structure) {
			parts = append(parts, s.show(u.Field(i).Type(), x, d+1))
		}
		return "{" + strings.Join(parts, " ") + "}"
	case *types.Pointer:
		q, ok := v.(*value)
		if !ok {
			return "?"
		}
		if q == nil {
			return "nil"
		}
		return "&" + s.show(u.Elem(), *q, d+1)
	case *types.Map:
		var parts []string
		if h := v.(*hmap); h != nil {
			for _, e := range h.ents {
				if !e.dead {
					parts = append(parts, s.show(u.Key(), e.k, d+1)+":"+s.show(u.Elem(), e.v, d+1))
				}
			}
		}
		sort.Strings(parts)
		return "map[" + strings.Join(parts, " ") + "]"
	case *types.Interface:
		x := v.(iface)
		return s.show(x.t, x.v, d+1)
	}
	return "?"
}

func (s *shower) str(v value) string {
	switch v := v.(type) {
	case string:
		return v
	case *symStr:
		b := make([]byte, len(v.b))
		for i, x := range v.b {
			b[i] = byte(s.u(x))
		}
		return string(b)
	}
	return "?"
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (p *Path) panicMsg() string {
	defer func() { recover() }()
	if p.panicOut == nil {
		return ""
	}
	v := p.panicOut.v
	switch {
	case v.t == nil:
		return "nil"
	case v.t == p.w.e.rtErr:
		return "runtime error: " + fmt.Sprint(v.v)
	}
	if s, ok := v.v.(string); ok {
		return s
	}
	return v.t.String() + " " + vstr(v.v)
}

// --- synchronisation

type onceState struct {
	so      syncObj
	done    bool
	running bool
}

func (s *onceState) resetClock() { s.so = syncObj{} }
func (s *smap) resetClock()      { s.so = syncObj{} }

type smap struct {
	so syncObj
	m  *hmap
}

func (s *smap) sideMap() *hmap { return s.m }

func (e *Engine) syncIntrinsics() {
	r := e.reg
	r("(*sync.Mutex).Lock", func(p *Path, fr *frame, fn *Func, a []value) value { p.lock(a[0]); return nil })
	r("(*sync.Mutex).Unlock", func(p *Path, fr *frame, fn *Func, a []value) value { p.unlock(a[0]); return nil })
	r("(*sync.Mutex).TryLock", func(p *Path, fr *frame, fn *Func, a []value) value { return p.tryLock(a[0]) })
	r("(*sync.RWMutex).Lock", func(p *Path, fr *frame, fn *Func, a []value) value { p.lock(a[0]); return nil })
	r("(*sync.RWMutex).Unlock", func(p *Path, fr *frame, fn *Func, a []value) value { p.unlock(a[0]); return nil })
	r("(*sync.RWMutex).TryLock", func(p *Path, fr *frame, fn *Func, a []value) value { return p.tryLock(a[0]) })
	r("(*sync.RWMutex).RLock", func(p *Path, fr *frame, fn *Func, a []value) value { p.rlock(a[0]); return nil })
	r("(*sync.RWMutex).RUnlock", func(p *Path, fr *frame, fn *Func, a []value) value { p.runlock(a[0]); return nil })
	r("(*sync.WaitGroup).Add", func(p *Path, fr *frame, fn *Func, a []value) value {
		p.wgAdd(a[0], int64(p.concretize(a[1], 64)))
		return nil
	})
	r("(*sync.WaitGroup).Done", func(p *Path, fr *frame, fn *Func, a []value) value { p.wgAdd(a[0], -1); return nil })
	r("(*sync.WaitGroup).Wait", func(p *Path, fr *frame, fn *Func, a []value) value { p.wgWait(a[0]); return nil })

	r("(*sync.Once).Do", func(p *Path, fr *frame, fn *Func, a []value) value {
		if q, ok := a[0].(*value); ok && q == nil {
			panic(p.nilDeref())
		}
		o := p.side("once", a[0], func() any { return &onceState{} }).(*onceState)
		p.yield()
		p.block("once", func() bool { return !o.running })
		if o.done {
			p.acquire(&o.so)
			return nil
		}
		o.running = true
		tp := p.protect(fr, func() { p.callValue(fr, a[1], nil) })
		o.running = false
		o.done = true
		p.release(&o.so)
		if tp != nil {
			panic(*tp)
		}
		return nil
	})

	type poolState struct {
		so    syncObj
		items []value
	}
	pool := func(p *Path, ptr value) *poolState {
		return p.side("pool", ptr, func() any { return &poolState{} }).(*poolState)
	}
	r("(*sync.Pool).Get", func(p *Path, fr *frame, fn *Func, a []value) value {
		s := pool(p, a[0])
		p.yield()
		if n := len(s.items); n > 0 {
			v := s.items[n-1]
			s.items = s.items[:n-1]
			p.acquire(&s.so)
			return v
		}
		st := (*(a[0].(*value))).(structure)
		nw := st[len(st)-1]
		if c, ok := nw.(*closure); ok && c != nil {
			return p.callValue(fr, nw, nil)
		}
		return iface{}
	})
	r("(*sync.Pool).Put", func(p *Path, fr *frame, fn *Func, a []value) value {
		s := pool(p, a[0])
		if x, ok := a[1].(iface); ok && x.t == nil {
			return nil
		}
		p.release(&s.so)
		s.items = append(s.items, a[1])
		p.yield()
		return nil
	})

	sm := func(p *Path, ptr value) *smap {
		s := p.side("smap", ptr, func() any { return &smap{m: p.newMap()} }).(*smap)
		p.yield()
		p.acquire(&s.so)
		p.release(&s.so)
		return s
	}
	r("(*sync.Map).Load", func(p *Path, fr *frame, fn *Func, a []value) value {
		if e := p.mapFind(sm(p, a[0]).m, a[1]); e != nil {
			return tuple{e.v, true}
		}
		return tuple{iface{}, false}
	})
	r("(*sync.Map).Store", func(p *Path, fr *frame, fn *Func, a []value) value {
		p.mapSet(sm(p, a[0]).m, a[1], a[2])
		return nil
	})
	r("(*sync.Map).LoadOrStore", func(p *Path, fr *frame, fn *Func, a []value) value {
		s := sm(p, a[0])
		if e := p.mapFind(s.m, a[1]); e != nil {
			return tuple{e.v, true}
		}
		p.mapSet(s.m, a[1], a[2])
		return tuple{a[2], false}
	})
	r("(*sync.Map).LoadAndDelete", func(p *Path, fr *frame, fn *Func, a []value) value {
		s := sm(p, a[0])
		if e := p.mapFind(s.m, a[1]); e != nil {
			v := e.v
			p.mapDelete(s.m, a[1])
			return tuple{v, true}
		}
		return tuple{iface{}, false}
	})
	r("(*sync.Map).Delete", func(p *Path, fr *frame, fn *Func, a []value) value {
		p.mapDelete(sm(p, a[0]).m, a[1])
		return nil
	})
	r("(*sync.Map).Range", func(p *Path, fr *frame, fn *Func, a []value) value {
		s := sm(p, a[0])
		for _, e := range append([]*mapEntry(nil), s.m.ents...) {
			if e.dead {
				continue
			}
			if !p.decideV(p.callValue(fr, a[1], []value{e.k, e.v})) {
				break
			}
		}
		return nil
	})

	// atomics
	for _, k := range []struct {
		n string
		t types.Type
	}{{"Int32", types.Typ[types.Int32]}, {"Uint32", types.Typ[types.Uint32]}, {"Int64", types.Typ[types.Int64]}, {"Uint64", types.Typ[types.Uint64]}, {"Uintptr", types.Typ[types.Uintptr]}} {
		t := k.t
		w, _ := typeWidth(t)
		raw := func(p *Path, ptr value) *value {
			q, ok := ptr.(*value)
			if !ok {
				panic(unsupported("atomic access"))
			}
			if q == nil {
				panic(p.nilDeref())
			}
			p.atomicSync(q)
			return q
		}
		r("sync/atomic.Load"+k.n, func(p *Path, fr *frame, fn *Func, a []value) value { return *raw(p, a[0]) })
		r("sync/atomic.Store"+k.n, func(p *Path, fr *frame, fn *Func, a []value) value { *raw(p, a[0]) = a[1]; return nil })
		r("sync/atomic.Swap"+k.n, func(p *Path, fr *frame, fn *Func, a []value) value {
			q := raw(p, a[0])
			o := *q
			*q = a[1]
			return o
		})
		r("sync/atomic.Add"+k.n, func(p *Path, fr *frame, fn *Func, a []value) value {
			q := raw(p, a[0])
			if x, ok := (*q).(uint64); ok {
				if y, ok := a[1].(uint64); ok {
					*q = (x + y) & mask(w)
					return *q
				}
			}
			*q = fromTerm(p.ts.Bin(OAdd, p.term(*q, w), p.term(a[1], w)))
			return *q
		})
		r("sync/atomic.CompareAndSwap"+k.n, func(p *Path, fr *frame, fn *Func, a []value) value {
			q := raw(p, a[0])
			if p.decideV(p.equals(*q, a[1])) {
				*q = a[2]
				return true
			}
			return false
		})
	}
	ptrCell := func(p *Path, ptr value) *value {
		q := ptr.(*value)
		if q == nil {
			panic(p.nilDeref())
		}
		st := (*q).(structure)
		p.atomicSync(q)
		return &st[len(st)-1]
	}
	ld := func(v value) value {
		if u, ok := v.(uptr); ok {
			if u.p == nil {
				return (*value)(nil)
			}
			return u.p
		}
		return v
	}
	r("(*sync/atomic.Pointer[T]).Load", func(p *Path, fr *frame, fn *Func, a []value) value { return ld(*ptrCell(p, a[0])) })
	r("(*sync/atomic.Pointer[T]).Store", func(p *Path, fr *frame, fn *Func, a []value) value { *ptrCell(p, a[0]) = a[1]; return nil })
	r("(*sync/atomic.Pointer[T]).Swap", func(p *Path, fr *frame, fn *Func, a []value) value {
		c := ptrCell(p, a[0])
		o := ld(*c)
		*c = a[1]
		return o
	})
	r("(*sync/atomic.Pointer[T]).CompareAndSwap", func(p *Path, fr *frame, fn *Func, a []value) value {
		c := ptrCell(p, a[0])
		if ld(*c) == a[1] {
			*c = a[2]
			return true
		}
		return false
	})
	// atomic.Value keeps its interface in the first field
	valCell := func(p *Path, ptr value) *value {
		q := ptr.(*value)
		if q == nil {
			panic(p.nilDeref())
		}
		p.atomicSync(q)
		return &(*q).(structure)[0]
	}
	r("(*sync/atomic.Value).Load", func(p *Path, fr *frame, fn *Func, a []value) value { return *valCell(p, a[0]) })
	r("(*sync/atomic.Value).Store", func(p *Path, fr *frame, fn *Func, a []value) value {
		c := valCell(p, a[0])
		n := a[1].(iface)
		if n.t == nil {
			panic(p.plainPanic("sync/atomic: store of nil value into Value"))
		}
		if o := (*c).(iface); o.t != nil && o.t != n.t {
			panic(p.plainPanic("sync/atomic: store of inconsistently typed value into Value"))
		}
		*c = n
		return nil
	})
	r("(*sync/atomic.Value).Swap", func(p *Path, fr *frame, fn *Func, a []value) value {
		c := valCell(p, a[0])
		o := *c
		*c = a[1]
		return o
	})
	r("(*sync/atomic.Value).CompareAndSwap", func(p *Path, fr *frame, fn *Func, a []value) value {
		c := valCell(p, a[0])
		if p.decideV(p.equals(*c, a[1])) {
			*c = a[2]
			return true
		}
		return false
	})
}

// --- run-time

func (e *Engine) runtimeIntrinsics() {
	r := e.reg
	nop := func(p *Path, fr *frame, fn *Func, a []value) value { return nil }
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime/debug.FreeOSMemory", "runtime.ReadMemStats",
		"runtime.LockOSThread", "runtime.UnlockOSThread", "internal/godebug.registerMetric", "internal/godebug.setUpdate", "internal/godebug.setNewIncNonDefault",
		"(*internal/godebug.Setting).IncNonDefault", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable",
		"internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "log.Printf", "log.Println", "log.Print", "(*log.Logger).Printf", "(*log.Logger).Println", "(*log.Logger).Print",
		"internal/runtime/exithook.Add", "os.runtime_beforeExit", "runtime.runtimeInit", "runtime.init"} {
		r(n, nop)
	}
	r("(*internal/godebug.Setting).Value", func(p *Path, fr *frame, fn *Func, a []value) value { return "" })
	r("internal/godebug.New", func(p *Path, fr *frame, fn *Func, a []value) value {
		c := new(value)
		*c = zero(deref(fn.fn.Signature.Results().At(0).Type()))
		return c
	})
	r("runtime.Gosched", func(p *Path, fr *frame, fn *Func, a []value) value { p.gosched(); return nil })
	r("maps.clone", func(p *Path, fr *frame, fn *Func, a []value) value {
		i := a[0].(iface)
		m, _ := i.v.(*hmap)
		if m == nil {
			return i
		}
		if p.raceOn {
			p.raceRead(m, nil)
		}
		n := p.newMap()
		for _, e := range m.ents {
			if !e.dead {
				p.mapSet(n, e.k, copyVal(e.v))
			}
		}
		return iface{i.t, n}
	})
	r("math/rand.runtime_rand", func(p *Path, fr *frame, fn *Func, a []value) value { p.rand += 0x9e3779b97f4a7c15; return p.rand })
	r("math/rand/v2.runtime_rand", func(p *Path, fr *frame, fn *Func, a []value) value { p.rand += 0x9e3779b97f4a7c15; return p.rand })
	for _, n := range []string{"crypto/internal/boring/sig.StandardCrypto", "crypto/internal/boring/sig.BoringCrypto"} {
		r(n, nop)
	}
	r("runtime.NumCPU", func(p *Path, fr *frame, fn *Func, a []value) value { return uint64(4) })
	r("runtime.NumGoroutine", func(p *Path, fr *frame, fn *Func, a []value) value {
		n := 0
		for _, g := range p.gs {
			if !g.done {
				n++
			}
		}
		return uint64(n)
	})
	r("runtime.GOMAXPROCS", func(p *Path, fr *frame, fn *Func, a []value) value { return uint64(4) })
	r("runtime.Callers", func(p *Path, fr *frame, fn *Func, a []value) value { return uint64(0) })
	r("runtime.Caller", func(p *Path, fr *frame, fn *Func, a []value) value { return tuple{uint64(0), "", uint64(0), false} })
	r("runtime.Stack", func(p *Path, fr *frame, fn *Func, a []value) value { return uint64(0) })
	r("runtime/debug.Stack", func(p *Path, fr *frame, fn *Func, a []value) value { return []value{} })
	r("internal/abi.NoEscape", func(p *Path, fr *frame, fn *Func, a []value) value { return a[0] })
	r("internal/abi.Escape", func(p *Path, fr *frame, fn *Func, a []value) value { return a[0] })
	r("internal/bytealg.MakeNoZero", func(p *Path, fr *frame, fn *Func, a []value) value {
		n := p.concretize(a[0], 64)
		if n > 1<<20 {
			panic(abortPath{"limit", "large buffer"})
		}
		s := make([]value, n)
		for i := range s {
			s[i] = uint64(0)
		}
		return s
	})
	r("time.Now", func(p *Path, fr *frame, fn *Func, a []value) value {
		p.clock++
		return structure{uint64(0), uint64(63_000_000_000 + p.clock), (*value)(nil)}
	})
	r("time.runtimeNano", func(p *Path, fr *frame, fn *Func, a []value) value { p.clock++; return p.clock * 1000 })
	r("time.Sleep", func(p *Path, fr *frame, fn *Func, a []value) value { p.gosched(); return nil })
	r("os.Exit", func(p *Path, fr *frame, fn *Func, a []value) value {
		p.violation("exit", fmt.Sprintf("os.Exit(%s) called", vstr(a[0])), p.model)
		return nil
	})
	r("os.Getenv", func(p *Path, fr *frame, fn *Func, a []value) value { return "" })
	r("os.LookupEnv", func(p *Path, fr *frame, fn *Func, a []value) value { return tuple{"", false} })
	r("syscall.Getenv", func(p *Path, fr *frame, fn *Func, a []value) value { return tuple{"", false} })
	r("syscall.runtime_envs", func(p *Path, fr *frame, fn *Func, a []value) value { return []value{} })
	r("os.runtime_args", func(p *Path, fr *frame, fn *Func, a []value) value { return []value{} })
	r("syscall.Getpagesize", func(p *Path, fr *frame, fn *Func, a []value) value { return uint64(4096) })
	r("runtime_randn", func(p *Path, fr *frame, fn *Func, a []value) value { return uint64(0) })
	r("math.Float64bits", func(p *Path, fr *frame, fn *Func, a []value) value { return math.Float64bits(a[0].(float64)) })
	r("math.Float64frombits", func(p *Path, fr *frame, fn *Func, a []value) value {
		return math.Float64frombits(p.concretize(a[0], 64))
	})
	r("math.Float32bits", func(p *Path, fr *frame, fn *Func, a []value) value {
		return uint64(math.Float32bits(float32(a[0].(float64))))
	})
	r("math.Float32frombits", func(p *Path, fr *frame, fn *Func, a []value) value {
		return float64(math.Float32frombits(uint32(p.concretize(a[0], 32))))
	})
	f1 := func(n string, f func(float64) float64) {
		r("math."+n, func(p *Path, fr *frame, fn *Func, a []value) value { return f(a[0].(float64)) })
	}
	f1("Floor", math.Floor)
	f1("Ceil", math.Ceil)
	f1("Trunc", math.Trunc)
	f1("Sqrt", math.Sqrt)
	f1("Abs", math.Abs)
	f1("Log", math.Log)
	f1("Exp", math.Exp)
	f1("Log2", math.Log2)
	f1("Log10", math.Log10)
	r("math.Pow", func(p *Path, fr *frame, fn *Func, a []value) value { return math.Pow(a[0].(float64), a[1].(float64)) })

	// errors
	r("errors.Is", func(p *Path, fr *frame, fn *Func, a []value) value { return p.errorsIs(fr, a[0].(iface), a[1].(iface)) })
	r("errors.As", func(p *Path, fr *frame, fn *Func, a []value) value { return p.errorsAs(fr, a[0].(iface), a[1].(iface)) })
	// sort.Slice needs reflection
	srt := func(p *Path, fr *frame, fn *Func, a []value) value {
		s := a[0].(iface).v.([]value)
		// stable insertion sort in place, comparing by index as the caller's function expects
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !p.decideV(p.callValue(fr, a[1], []value{uint64(j), uint64(j - 1)})) {
					break
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				storeInto(&s[j], y)
				storeInto(&s[j-1], x)
			}
		}
		return nil
	}
	r("sort.Slice", srt)
	r("sort.SliceStable", srt)
}

// gosched lets another goroutine run.
func (p *Path) gosched() {
	if p.schedOn {
		p.yield()
		return
	}
	g := p.g
	n := p.pickNext(nil)
	if n != nil && n != g {
		p.switchTo(n)
	}
}

func (p *Path) errorsIs(fr *frame, err, target iface) value {
	if err.t == nil || target.t == nil {
		return err.t == nil && target.t == nil
	}
	comparable := types.Comparable(target.t)
	for {
		if comparable && err.t == target.t {
			if p.decideV(p.equals(err, target)) {
				return true
			}
		}
		if m := p.w.e.methodByName(err.t, "Is"); m != nil && m.fn.Signature.Params().Len() == 1 {
			if p.decideV(p.callFn(fr, m, []value{err.v, target}, nil)) {
				return true
			}
		}
		m := p.w.e.methodByName(err.t, "Unwrap")
		if m == nil {
			return false
		}
		u := p.callFn(fr, m, []value{err.v}, nil)
		switch x := u.(type) {
		case iface:
			if x.t == nil {
				return false
			}
			err = x
		case []value:
			for _, y := range x {
				if y.(iface).t != nil && p.decideV(p.errorsIs(fr, y.(iface), target)) {
					return true
				}
			}
			return false
		}
	}
}

func (p *Path) errorsAs(fr *frame, err, target iface) value {
	if err.t == nil {
		return false
	}
	if target.t == nil {
		panic(p.plainPanic("errors: target cannot be nil"))
	}
	et := deref(target.t)
	cet := canon(et)
	it, isI := et.Underlying().(*types.Interface)
	for {
		if isI && p.w.e.implements(err.t, it, cet) {
			storeInto(target.v.(*value), err)
			return true
		}
		if !isI && err.t == cet {
			storeInto(target.v.(*value), err.v)
			return true
		}
		m := p.w.e.methodByName(err.t, "Unwrap")
		if m == nil {
			return false
		}
		u := p.callFn(fr, m, []value{err.v}, nil)
		switch x := u.(type) {
		case iface:
			if x.t == nil {
				return false
			}
			err = x
		case []value:
			for _, y := range x {
				if y.(iface).t != nil && p.decideV(p.errorsAs(fr, y.(iface), target)) {
					return true
				}
			}
			return false
		}
	}
}

// --- bytes and strings

func bytesOf(v value) []value {
	switch v := v.(type) {
	case []value:
		return v
	}
	return strBytes(v)
}

func (e *Engine) textIntrinsics() {
	r := e.reg
	w8 := func(p *Path, v value) *Term { return p.term(v, 8) }
	indexByte := func(p *Path, b []value, c value) value {
		for i, x := range b {
			if p.decideV(p.equals(x, c)) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	r("internal/bytealg.IndexByte", func(p *Path, fr *frame, fn *Func, a []value) value { return indexByte(p, bytesOf(a[0]), a[1]) })
	ibs := func(p *Path, fr *frame, fn *Func, a []value) value {
		if s, ok := a[0].(string); ok {
			if c, ok := a[1].(uint64); ok {
				return uint64(strings.IndexByte(s, byte(c)))
			}
		}
		return indexByte(p, bytesOf(a[0]), a[1])
	}
	r("internal/bytealg.IndexByteString", ibs)
	r("strings.IndexByte", ibs)
	count := func(p *Path, fr *frame, fn *Func, a []value) value {
		t := p.ts.Const(0, 64)
		n := uint64(0)
		for _, x := range bytesOf(a[0]) {
			switch e := p.equals(x, a[1]).(type) {
			case bool:
				if e {
					n++
				}
			case *Term:
				t = p.ts.Bin(OAdd, t, p.ts.Ite(e, p.ts.Const(1, 64), p.ts.Const(0, 64)))
			}
		}
		return fromTerm(p.ts.Bin(OAdd, t, p.ts.Const(n, 64)))
	}
	r("internal/bytealg.Count", count)
	r("internal/bytealg.CountString", count)
	r("internal/bytealg.Equal", func(p *Path, fr *frame, fn *Func, a []value) value {
		return p.strEq(mkStr(bytesOf(a[0])), mkStr(bytesOf(a[1])))
	})
	r("bytes.Equal", func(p *Path, fr *frame, fn *Func, a []value) value {
		return p.strEq(mkStr(bytesOf(a[0])), mkStr(bytesOf(a[1])))
	})
	compare := func(p *Path, fr *frame, fn *Func, a []value) value {
		x, y := bytesOf(a[0]), bytesOf(a[1])
		eq := p.term(p.strEq(mkStr(x), mkStr(y)), 0)
		lt := p.term(p.bytesLess(x, y), 0)
		return fromTerm(p.ts.Ite(eq, p.ts.Const(0, 64), p.ts.Ite(lt, p.ts.Const(^uint64(0), 64), p.ts.Const(1, 64))))
	}
	r("internal/bytealg.Compare", compare)
	r("bytes.Compare", compare)
	r("internal/bytealg.CompareString", compare)
	r("runtime.cmpstring", compare)
	index := func(p *Path, fr *frame, fn *Func, a []value) value {
		s, sub := bytesOf(a[0]), bytesOf(a[1])
		cs, ok1 := mkStr(s).(string)
		cb, ok2 := mkStr(sub).(string)
		if ok1 && ok2 {
			return uint64(int64(strings.Index(cs, cb)))
		}
		for i := 0; i+len(sub) <= len(s); i++ {
			if p.decideV(p.strEq(mkStr(s[i:i+len(sub)]), mkStr(sub))) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	r("internal/bytealg.Index", index)
	r("internal/bytealg.IndexString", index)
	r("strings.Index", index)
	r("bytes.Index", index)
	r("strings.Contains", func(p *Path, fr *frame, fn *Func, a []value) value {
		s, sub := bytesOf(a[0]), bytesOf(a[1])
		var res value = false
		for i := 0; i+len(sub) <= len(s); i++ {
			res = p.boolOr(res, p.strEq(mkStr(s[i:i+len(sub)]), mkStr(sub)))
		}
		return res
	})
	r("strings.HasPrefix", func(p *Path, fr *frame, fn *Func, a []value) value {
		if strLen(a[0]) < strLen(a[1]) {
			return false
		}
		return p.strEq(strSlice(a[0], 0, strLen(a[1])), a[1])
	})
	r("strings.HasSuffix", func(p *Path, fr *frame, fn *Func, a []value) value {
		n, m := strLen(a[0]), strLen(a[1])
		if n < m {
			return false
		}
		return p.strEq(strSlice(a[0], n-m, n), a[1])
	})
	r("strings.Clone", func(p *Path, fr *frame, fn *Func, a []value) value { return a[0] })
	r("internal/stringslite.Clone", func(p *Path, fr *frame, fn *Func, a []value) value { return a[0] })
	r("strings.Compare", compare)
	_ = w8
}

// modelRedirects offers model packages state that is attached to a pointer or a name without any synchronisation.
func (e *Engine) modelRedirects() {
	type box struct{ v value }
	key := func(p *Path, v value) any {
		i := v.(iface)
		if s, ok := i.v.(string); ok {
			return s
		}
		if k, ok := hashKey(i.v); ok {
			return k
		}
		panic(unsupported("symbolic key of attached model state"))
	}
	tab := func(p *Path, v value) *box {
		return p.side("model", key(p, v), func() any { return &box{iface{}} }).(*box)
	}
	e.reg(mdlPath+".Attach", func(p *Path, fr *frame, fn *Func, a []value) value {
		tab(p, a[0]).v = a[1]
		return nil
	})
	e.reg(mdlPath+".Attached", func(p *Path, fr *frame, fn *Func, a []value) value { return tab(p, a[0]).v })
	// Quiet runs f without race detection or preemption.
	e.reg(mdlPath+".Quiet", func(p *Path, fr *frame, fn *Func, a []value) value {
		s, r, m := p.schedOn, p.raceOn, p.mapOrder
		p.schedOn, p.raceOn, p.mapOrder = false, false, 0
		p.callValue(fr, a[0], nil)
		p.schedOn, p.raceOn, p.mapOrder = s, r, m
		return nil
	})
	e.reg(mdlPath+".Idle", func(p *Path, fr *frame, fn *Func, a []value) value {
		p.idle(int64(p.concretize(a[0], 64)))
		return nil
	})
	e.reg(mdlPath+".Yield", func(p *Path, fr *frame, fn *Func, a []value) value { p.yield(); return nil })
	e.reg(mdlPath+".Unsupported", func(p *Path, fr *frame, fn *Func, a []value) value {
		panic(unsupported("model: " + vstr(a[0])))
	})
}
