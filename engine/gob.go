package main

// A model of encoding/gob: an encoded value is an opaque eight byte token in the stream that stands for a snapshot of the value.
// The snapshot keeps what gob transmits: exported fields, zero fields omitted, GobEncode and MarshalBinary honoured.

import (
	"fmt"
	"go/types"
)

type gval struct {
	kind   byte // i u f b s y(bytes) [ m { c(custom)
	v      value
	elems  []*gval
	keys   []*gval
	names  []string
	typ    string
	fields map[string]string // struct: field name -> kind signature (all fields of the sender's type)
}

type gobError struct{ msg string }

func (p *Path) errValue(msg value) iface {
	t := p.w.e.tpkgs["errors"].Scope().Lookup("errorString").Type()
	c := new(value)
	*c = structure{msg}
	return iface{canon(types.NewPointer(t)), c}
}

func (p *Path) globalErr(pkg, name string) iface {
	g := p.w.e.pkgs[pkg].Var(name)
	return (*p.globalCell(g)).(iface)
}

// gobMethod finds a gob or binary (un)marshaller among the methods of t or *t.
func (e *Engine) gobMethod(t types.Type, names ...string) (f *Func, ptr bool) {
	for _, n := range names {
		if m := e.methodByName(t, n); m != nil {
			return m, false
		}
		if _, isPtr := t.Underlying().(*types.Pointer); !isPtr && !types.IsInterface(t) {
			if m := e.methodByName(canon(types.NewPointer(t)), n); m != nil {
				return m, true
			}
		}
	}
	return nil, false
}

// gobSig describes the wire kind of a type.
func (e *Engine) gobSig(t types.Type, d int) string {
	if d > 12 {
		return "?"
	}
	for {
		if m, _ := e.gobMethod(t, "GobEncode", "MarshalBinary"); m != nil {
			return "c"
		}
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		t = pt.Elem()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "b"
		case u.Info()&types.IsUnsigned != 0:
			return "u"
		case u.Info()&types.IsInteger != 0:
			return "i"
		case u.Info()&types.IsFloat != 0:
			return "f"
		case u.Info()&types.IsString != 0:
			return "s"
		case u.Info()&types.IsComplex != 0:
			return "x"
		}
	case *types.Slice:
		if isByte(u.Elem()) {
			return "y"
		}
		return "[]" + e.gobSig(u.Elem(), d+1)
	case *types.Array:
		return fmt.Sprintf("[%d]", u.Len()) + e.gobSig(u.Elem(), d+1)
	case *types.Map:
		return "m" + e.gobSig(u.Key(), d+1) + ":" + e.gobSig(u.Elem(), d+1)
	case *types.Struct:
		return "{"
	case *types.Interface:
		return "I"
	}
	return "?"
}

func gobFields(st *types.Struct) (out []int) {
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		u := f.Type().Underlying()
		for {
			pt, ok := u.(*types.Pointer)
			if !ok {
				break
			}
			u = pt.Elem().Underlying()
		}
		switch u.(type) {
		case *types.Chan, *types.Signature:
			continue
		}
		out = append(out, i)
	}
	return
}

// gobCheck refuses types gob cannot send, wherever they occur in t, as its compilation of encoders does.
func (e *Engine) gobCheck(t types.Type, seen map[types.Type]bool) {
	t = canon(t)
	if seen[t] {
		return
	}
	seen[t] = true
	if m, _ := e.gobMethod(t, "GobEncode", "MarshalBinary"); m != nil {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		e.gobCheck(u.Elem(), seen)
	case *types.Slice:
		e.gobCheck(u.Elem(), seen)
	case *types.Array:
		e.gobCheck(u.Elem(), seen)
	case *types.Map:
		e.gobCheck(u.Key(), seen)
		e.gobCheck(u.Elem(), seen)
	case *types.Struct:
		fields := gobFields(u)
		for _, i := range fields {
			e.gobCheck(u.Field(i).Type(), seen)
		}
		if u.NumFields() > 0 && len(fields) == 0 {
			panic(gobError{"gob: type " + types.TypeString(t, pkgQual) + " has no exported fields"})
		}
	case *types.Chan, *types.Signature:
		panic(gobError{"gob: type not supported: " + types.TypeString(t, pkgQual)})
	}
}

func (p *Path) gobEncode(fr *frame, t types.Type, v value, cell *value, d int) *gval {
	if d > 80 {
		panic(abortPath{"limit", "gob depth"})
	}
	e := p.w.e
	if m, ptr := e.gobMethod(t, "GobEncode", "MarshalBinary"); m != nil {
		recv := v
		if ptr {
			if cell == nil {
				panic(gobError{"gob: cannot use unaddressable value of type " + t.String()})
			}
			recv = cell
		} else if isNilPtr(v) {
			if _, ok := t.Underlying().(*types.Pointer); ok {
				panic(gobError{"gob: cannot encode nil pointer of type " + t.String()})
			}
		}
		res := p.callFn(fr, m, []value{recv}, nil).(tuple)
		if er := res[1].(iface); er.t != nil {
			panic(gobErrVal{er})
		}
		b := append([]value{}, res[0].([]value)...)
		return &gval{kind: 'c', v: b}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		c, ok := v.(*value)
		if !ok {
			panic(unsupported("gob of a symbolic pointer"))
		}
		if c == nil {
			panic(gobError{"gob: cannot encode nil pointer of type " + types.TypeString(t, pkgQual)})
		}
		return p.gobEncode(fr, canon(u.Elem()), *c, c, d+1)
	case *types.Basic:
		k := e.gobSig(t, 0)
		switch k {
		case "b":
			return &gval{kind: 'b', v: v}
		case "i":
			w, _ := typeWidth(t)
			return &gval{kind: 'i', v: fromTerm(p.ts.Sext(p.term(v, w), 64))}
		case "u":
			w, _ := typeWidth(t)
			return &gval{kind: 'u', v: fromTerm(p.ts.Zext(p.term(v, w), 64))}
		case "f":
			return &gval{kind: 'f', v: v}
		case "s":
			return &gval{kind: 's', v: v}
		}
	case *types.Slice:
		s, _ := v.([]value)
		if isByte(u.Elem()) {
			return &gval{kind: 'y', v: append([]value{}, s...)}
		}
		g := &gval{kind: '[', typ: e.gobSig(t, 0)}
		for i := range s {
			g.elems = append(g.elems, p.gobEncode(fr, canon(u.Elem()), s[i], &s[i], d+1))
		}
		return g
	case *types.Array:
		s := v.(array)
		g := &gval{kind: '[', typ: e.gobSig(t, 0)}
		for i := range s {
			g.elems = append(g.elems, p.gobEncode(fr, canon(u.Elem()), s[i], &s[i], d+1))
		}
		return g
	case *types.Map:
		g := &gval{kind: 'm', typ: e.gobSig(t, 0)}
		m, _ := v.(*hmap)
		if m == nil {
			return g
		}
		it := p.rangeIter(m).(*mapIter)
		if p.raceOn {
			p.raceRead(m, nil)
		}
		for _, en := range it.ents {
			if en.dead {
				continue
			}
			g.keys = append(g.keys, p.gobEncode(fr, canon(u.Key()), en.k, nil, d+1))
			g.elems = append(g.elems, p.gobEncode(fr, canon(u.Elem()), en.v, nil, d+1))
		}
		return g
	case *types.Struct:
		s := v.(structure)
		g := &gval{kind: '{', fields: map[string]string{}}
		fs := gobFields(u)
		if len(fs) == 0 {
			panic(gobError{"gob: type " + types.TypeString(t, pkgQual) + " has no exported fields"})
		}
		for _, i := range fs {
			f := u.Field(i)
			g.fields[f.Name()] = e.gobSig(f.Type(), 0)
			if p.raceOn && cell != nil {
				p.raceRead(&s[i], nil)
			}
			if p.gobOmit(canon(f.Type()), s[i]) {
				continue
			}
			var fc *value
			if cell != nil {
				fc = &s[i]
			} else {
				// gob encodes a copy of unaddressable values only for pointer receivers, which fails
				fc = nil
			}
			g.names = append(g.names, f.Name())
			g.elems = append(g.elems, p.gobEncode(fr, canon(f.Type()), s[i], fc, d+1))
		}
		return g
	}
	panic(unsupported("gob encoding of " + t.String()))
}

// gobOmit tells whether a field is certainly left out; symbolic scalars are transmitted, which decoding into zero values does not notice.
func (p *Path) gobOmit(t types.Type, v value) bool {
	if m, _ := p.w.e.gobMethod(t, "GobEncode", "MarshalBinary"); m != nil {
		if b, ok := p.rIsZero(v).(bool); ok {
			if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
				return isNilPtr(v)
			}
			return b
		}
		return p.decideV(p.rIsZero(v))
	}
	switch x := v.(type) {
	case bool:
		return !x
	case uint64:
		return x == 0
	case float64:
		return x == 0
	case string:
		return x == ""
	case *symStr:
		return len(x.b) == 0
	case []value:
		return len(x) == 0
	case *hmap:
		return x == nil
	case *value:
		if x == nil {
			return true
		}
		return p.gobOmit(canon(elemOf(t)), *x)
	case iface:
		return x.t == nil
	case array:
		b, ok := p.rIsZero(x).(bool)
		if ok {
			return b
		}
		return p.decideV(p.rIsZero(x))
	}
	return false
}

type gobErrVal struct{ err iface }

func (p *Path) gobDecode(fr *frame, g *gval, t types.Type, cell *value, d int) {
	e := p.w.e
	if d > 80 {
		panic(abortPath{"limit", "gob depth"})
	}
	mismatch := func() {
		panic(gobError{"gob: decoding into local type " + types.TypeString(t, pkgQual) + ", received remote type"})
	}
	if m, ptr := e.gobMethod(t, "GobDecode", "UnmarshalBinary"); m != nil {
		var recv value = *cell
		if ptr {
			recv = cell
		} else if _, isPtr := t.Underlying().(*types.Pointer); isPtr && isNilPtr(*cell) {
			c := new(value)
			*c = zero(elemOf(t))
			*cell = c
			recv = c
		}
		if g.kind != 'c' {
			mismatch()
		}
		b := append([]value{}, g.v.([]value)...)
		if er := p.callFn(fr, m, []value{recv, b}, nil).(iface); er.t != nil {
			panic(gobErrVal{er})
		}
		return
	}
	if p.raceOn {
		p.raceWrite(cell, nil)
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		c, _ := (*cell).(*value)
		if c == nil {
			c = new(value)
			*c = zero(u.Elem())
			*cell = c
		}
		p.gobDecode(fr, g, canon(u.Elem()), c, d+1)
		return
	case *types.Basic:
		k := e.gobSig(t, 0)
		if k != string(g.kind) {
			mismatch()
		}
		switch k {
		case "i", "u":
			w, _ := typeWidth(t)
			x := p.term(g.v, 64)
			lo := p.ts.Extract(x, 0, w)
			var back *Term
			if k == "i" {
				back = p.ts.Sext(lo, 64)
			} else {
				back = p.ts.Zext(lo, 64)
			}
			if !p.decide(p.ts.Eq(back, x)) {
				panic(gobError{"gob: value out of range"})
			}
			*cell = fromTerm(lo)
		default:
			*cell = g.v
		}
		return
	case *types.Slice:
		if isByte(u.Elem()) {
			if g.kind != 'y' {
				mismatch()
			}
			*cell = append([]value{}, g.v.([]value)...)
			return
		}
		if g.kind != '[' || g.typ != e.gobSig(t, 0) {
			mismatch()
		}
		old, _ := (*cell).([]value)
		n := len(g.elems)
		s := old
		if cap(old) < n || old == nil {
			s = make([]value, n)
			for i := range s {
				s[i] = zero(u.Elem())
			}
		} else {
			s = old[:n]
		}
		for i, x := range g.elems {
			// elements beyond the old length start out zero; within it they are decoded in place
			p.gobDecode(fr, x, canon(u.Elem()), &s[i], d+1)
		}
		*cell = s
		return
	case *types.Array:
		if g.kind != '[' || g.typ != e.gobSig(t, 0) {
			mismatch()
		}
		a := (*cell).(array)
		for i, x := range g.elems {
			p.gobDecode(fr, x, canon(u.Elem()), &a[i], d+1)
		}
		return
	case *types.Map:
		if g.kind != 'm' || g.typ != e.gobSig(t, 0) {
			mismatch()
		}
		m, _ := (*cell).(*hmap)
		if m == nil {
			m = p.newMap()
			*cell = m
		}
		for i := range g.keys {
			var kc, vc value = zero(u.Key()), zero(u.Elem())
			p.gobDecode(fr, g.keys[i], canon(u.Key()), &kc, d+1)
			p.gobDecode(fr, g.elems[i], canon(u.Elem()), &vc, d+1)
			if p.raceOn {
				p.raceWrite(m, nil)
			}
			p.mapSet(m, kc, vc)
		}
		return
	case *types.Struct:
		if g.kind != '{' {
			mismatch()
		}
		s := (*cell).(structure)
		matched := 0
		for _, i := range gobFields(u) {
			f := u.Field(i)
			sig, ok := g.fields[f.Name()]
			if !ok {
				continue
			}
			matched++
			if sig != e.gobSig(f.Type(), 0) {
				panic(gobError{"gob: wrong type for received field " + f.Name()})
			}
			for k, n := range g.names {
				if n == f.Name() {
					p.gobDecode(fr, g.elems[k], canon(f.Type()), &s[i], d+1)
				}
			}
		}
		if matched == 0 {
			panic(gobError{"gob: type mismatch: no fields matched compiling decoder for " + types.TypeString(t, pkgQual)})
		}
		return
	}
	panic(unsupported("gob decoding into " + t.String()))
}

type gobEnc struct {
	w   iface
	err iface
}

type gobDec struct {
	r      iface
	direct bool
	buf    []value
	err    iface
}

func (p *Path) gobCatch(f func()) (er iface) {
	defer func() {
		if x := recover(); x != nil {
			switch x := x.(type) {
			case gobError:
				er = p.errValue(x.msg)
			case gobErrVal:
				er = x.err
			default:
				panic(x)
			}
		}
	}()
	f()
	return iface{}
}

func (p *Path) callMethod(fr *frame, recv iface, name string, args ...value) value {
	if h, ok := recv.v.(hostObj); ok {
		return h.call(p, fr, name, args)
	}
	m := p.w.e.methodByName(recv.t, name)
	if m == nil {
		panic(unsupported("no method " + name + " on " + recv.t.String()))
	}
	return p.callFn(fr, m, append([]value{recv.v}, args...), nil)
}

const gobTokLen = 8

func (e *Engine) gobIntrinsics() {
	r := func(name string, f Intrinsic) { e.reg(name, f) }
	newOf := func(p *Path, name string) *value {
		c := new(value)
		*c = zero(p.w.e.tpkgs["encoding/gob"].Scope().Lookup(name).Type())
		return c
	}
	for _, n := range []string{"encoding/gob.Register", "encoding/gob.RegisterName"} {
		r(n, func(p *Path, fr *frame, fn *Func, a []value) value { return nil })
	}
	r("encoding/gob.init", func(p *Path, fr *frame, fn *Func, a []value) value { return nil })
	r("encoding/gob.NewEncoder", func(p *Path, fr *frame, fn *Func, a []value) value {
		c := newOf(p, "Encoder")
		p.side("gobenc", c, func() any { return &gobEnc{w: a[0].(iface)} })
		return c
	})
	r("encoding/gob.NewDecoder", func(p *Path, fr *frame, fn *Func, a []value) value {
		c := newOf(p, "Decoder")
		rd := a[0].(iface)
		direct := false
		if _, ok := rd.v.(hostObj); !ok && rd.t != nil {
			direct = p.w.e.methodByName(rd.t, "ReadByte") != nil
		}
		p.side("gobdec", c, func() any { return &gobDec{r: rd, direct: direct} })
		return c
	})
	enc := func(p *Path, fr *frame, ptr value, x *rval) value {
		st := p.side("gobenc", ptr, func() any { return &gobEnc{} }).(*gobEnc)
		if x.t == nil {
			return p.errValue("gob: cannot encode nil value")
		}
		if x.t != nil && kindOf(x.t) == 22 && isNilPtr(x.get()) {
			panic(p.plainPanic("gob: cannot encode nil pointer of type " + types.TypeString(x.t, pkgQual)))
		}
		var g *gval
		if er := p.gobCatch(func() {
			p.w.e.gobCheck(x.t, map[types.Type]bool{})
			g = p.gobEncode(fr, x.t, x.get(), x.cell, 0)
		}); er.t != nil {
			return er
		}
		p.gobs = append(p.gobs, g)
		id := uint64(len(p.gobs))
		b := []value{uint64('G'), uint64(0xff), uint64('O'), id >> 24 & 255, id >> 16 & 255, id >> 8 & 255, id & 255, uint64('B')}
		res := p.callMethod(fr, st.w, "Write", b).(tuple)
		return res[1]
	}
	r("(*encoding/gob.Encoder).Encode", func(p *Path, fr *frame, fn *Func, a []value) value {
		return enc(p, fr, a[0], p.reflectValueOf(a[1].(iface)))
	})
	r("(*encoding/gob.Encoder).EncodeValue", func(p *Path, fr *frame, fn *Func, a []value) value {
		return enc(p, fr, a[0], p.rvOf(a[1]))
	})
	dec := func(p *Path, fr *frame, ptr value, x *rval) value {
		st := p.side("gobdec", ptr, func() any { return &gobDec{} }).(*gobDec)
		if st.err.t != nil {
			return st.err
		}
		if x.t != nil {
			if kindOf(x.t) == 22 {
				if isNilPtr(x.get()) {
					return p.errValue("gob: DecodeValue of unassignable value")
				}
			} else if x.cell == nil {
				return p.errValue("gob: attempt to decode into a non-pointer")
			}
		}
		zeroReads := 0
		for len(st.buf) < gobTokLen {
			n := 4096
			if st.direct {
				n = gobTokLen - len(st.buf)
			}
			b := make([]value, n)
			for i := range b {
				b[i] = uint64(0)
			}
			res := p.callMethod(fr, st.r, "Read", b).(tuple)
			k := int(p.concretize(res[0], 64))
			if k < 0 || k > n {
				panic(p.plainPanic("bufio: reader returned negative count from Read"))
			}
			st.buf = append(st.buf, b[:k]...)
			er := res[1].(iface)
			if er.t != nil {
				if len(st.buf) >= gobTokLen {
					break
				}
				eof := p.globalErr("io", "EOF")
				if p.decideV(p.equals(er, eof)) {
					if len(st.buf) == 0 {
						st.err = eof
					} else {
						st.err = p.globalErr("io", "ErrUnexpectedEOF")
					}
				} else {
					st.err = er
				}
				return st.err
			}
			if k == 0 {
				if zeroReads++; zeroReads > 100 {
					return p.globalErr("io", "ErrNoProgress")
				}
			}
		}
		tok := st.buf[:gobTokLen]
		st.buf = append([]value{}, st.buf[gobTokLen:]...)
		var id uint64
		ok := true
		for i, b := range tok {
			c := p.concretize(b, 8)
			switch i {
			case 0:
				ok = ok && c == 'G'
			case 1:
				ok = ok && c == 0xff
			case 2:
				ok = ok && c == 'O'
			case 7:
				ok = ok && c == 'B'
			default:
				id = id<<8 | c
			}
		}
		if !ok || id == 0 || id > uint64(len(p.gobs)) {
			st.err = p.errValue("gob: bad data: undefined type id or corrupted data")
			return st.err
		}
		if x.t == nil {
			return iface{} // skipped
		}
		g := p.gobs[id-1]
		er := p.gobCatch(func() {
			t, c := x.t, x.cell
			if kindOf(t) == 22 && c == nil {
				c = x.get().(*value)
				t = canon(elemOf(t))
			}
			p.gobDecode(fr, g, t, c, 0)
		})
		return er
	}
	r("(*encoding/gob.Decoder).Decode", func(p *Path, fr *frame, fn *Func, a []value) value {
		return dec(p, fr, a[0], p.reflectValueOf(a[1].(iface)))
	})
	r("(*encoding/gob.Decoder).DecodeValue", func(p *Path, fr *frame, fn *Func, a []value) value {
		return dec(p, fr, a[0], p.rvOf(a[1]))
	})
}
