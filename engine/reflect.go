package main

// A model of package reflect over the executor's values.

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"
)

// rtypeVal is the dynamic value of a reflect.Type.
type rtypeVal struct{ t types.Type }

// rval is the content of a reflect.Value.
type rval struct {
	t    types.Type // static type, nil for the invalid Value
	v    value
	cell *value // non-nil if addressable
	ro   bool   // obtained through unexported fields

	bound []value // receiver, if it is a method value
}

func (r *rval) get() value {
	if r.cell != nil {
		return *r.cell
	}
	return r.v
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	}
	return nil
}

func (p *Path) rtypeIface(t types.Type) value {
	if t == nil {
		return iface{}
	}
	rt := p.w.e.tpkgs["reflect"].Scope().Lookup("rtype")
	return iface{canon(types.NewPointer(rt.Type())), &rtypeVal{canon(t)}}
}

func (p *Path) reflectPanic(msg string) targetPanic { return p.plainPanic("reflect: " + msg) }

func pkgQual(pk *types.Package) string { return pk.Name() }

func (p *Path) structField(f *types.Var, tag string, i int) value {
	sf := p.w.e.tpkgs["reflect"].Scope().Lookup("StructField").Type()
	s := zero(sf).(structure)
	st := sf.Underlying().(*types.Struct)
	for k := 0; k < st.NumFields(); k++ {
		switch st.Field(k).Name() {
		case "Name":
			s[k] = f.Name()
		case "PkgPath":
			if !f.Exported() && f.Pkg() != nil {
				s[k] = f.Pkg().Path()
			}
		case "Type":
			s[k] = p.rtypeIface(f.Type())
		case "Tag":
			s[k] = tag
		case "Index":
			s[k] = []value{uint64(i)}
		case "Anonymous":
			s[k] = f.Anonymous()
		}
	}
	return s
}

func (p *Path) rtypeMethod(fr *frame, r *rtypeVal, name string, args []value) value {
	t := r.t
	switch name {
	case "Kind":
		return uint64(kindOf(t))
	case "Elem":
		e := elemOf(t)
		if e == nil {
			panic(p.reflectPanic("Elem of invalid type " + t.String()))
		}
		return p.rtypeIface(e)
	case "Key":
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			panic(p.reflectPanic("Key of non-map type " + t.String()))
		}
		return p.rtypeIface(m.Key())
	case "String":
		return types.TypeString(t, pkgQual)
	case "Name":
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name()
		}
		if b, ok := t.(*types.Basic); ok {
			return b.Name()
		}
		return ""
	case "PkgPath":
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	case "NumField":
		return uint64(t.Underlying().(*types.Struct).NumFields())
	case "Field":
		st := t.Underlying().(*types.Struct)
		i := int(args[0].(uint64))
		return p.structField(st.Field(i), st.Tag(i), i)
	case "Len":
		return uint64(t.Underlying().(*types.Array).Len())
	case "Comparable":
		return types.Comparable(t)
	case "Implements":
		o := args[0].(iface).v.(*rtypeVal).t
		return p.w.e.implements(t, o.Underlying().(*types.Interface), o)
	case "AssignableTo":
		return types.AssignableTo(t, args[0].(iface).v.(*rtypeVal).t)
	case "ConvertibleTo":
		return types.ConvertibleTo(t, args[0].(iface).v.(*rtypeVal).t)
	case "Bits":
		w, _ := typeWidth(t)
		return uint64(w)
	case "NumMethod":
		n := 0
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return uint64(n)
	case "Size":
		return uint64(types.SizesFor("gc", "amd64").Sizeof(t))
	case "NumIn":
		return uint64(sigOf(t).Params().Len())
	case "NumOut":
		return uint64(sigOf(t).Results().Len())
	case "In":
		return p.rtypeIface(sigOf(t).Params().At(int(args[0].(uint64))).Type())
	case "Out":
		return p.rtypeIface(sigOf(t).Results().At(int(args[0].(uint64))).Type())
	case "IsVariadic":
		return sigOf(t).Variadic()
	case "FieldByName":
		sf := p.w.e.tpkgs["reflect"].Scope().Lookup("StructField").Type()
		name, ok := hostStr(args[0])
		if !ok {
			panic(unsupported("reflect.Type.FieldByName of a symbolic name"))
		}
		st, isStruct := t.Underlying().(*types.Struct)
		if !isStruct {
			panic(p.reflectPanic("FieldByName of non-struct type " + t.String()))
		}
		var pkg *types.Package
		if n, ok := t.(*types.Named); ok {
			pkg = n.Obj().Pkg()
		}
		o, index, _ := types.LookupFieldOrMethod(t, true, pkg, name)
		f, isField := o.(*types.Var)
		if !isField {
			return tuple{zero(sf), false}
		}
		tag := ""
		if len(index) == 1 {
			tag = st.Tag(index[0])
		}
		r := p.structField(f, tag, 0).(structure)
		u := sf.Underlying().(*types.Struct)
		for k := 0; k < u.NumFields(); k++ {
			if u.Field(k).Name() == "Index" {
				var ix []value
				for _, i := range index {
					ix = append(ix, uint64(i))
				}
				r[k] = ix
			}
		}
		return tuple{r, true}
	}
	panic(unsupported("reflect.Type." + name))
}

func sigOf(t types.Type) *types.Signature {
	s, ok := t.Underlying().(*types.Signature)
	if !ok {
		panic(unsupported("reflect: not a function type"))
	}
	return s
}

func (p *Path) rField(x *rval, i int) *rval {
	st, ok := x.t.Underlying().(*types.Struct)
	if !ok {
		panic(p.reflectPanic("call of reflect.Value.Field on " + kindOf(x.t).String() + " Value"))
	}
	f := &rval{t: canon(st.Field(i).Type()), ro: x.ro || !st.Field(i).Exported()}
	s := x.get().(structure)
	if x.cell != nil {
		f.cell = &s[i]
	} else {
		f.v = s[i]
	}
	return f
}

func (p *Path) rCall(fr *frame, x *rval, in []*rval) []value {
	sig := sigOf(x.t)
	n := sig.Params().Len()
	args := append([]value(nil), x.bound...)
	if !sig.Variadic() && len(in) != n || sig.Variadic() && len(in) < n-1 {
		panic(p.reflectPanic("call with a wrong number of arguments"))
	}
	for i := 0; i < n; i++ {
		t := sig.Params().At(i).Type()
		if sig.Variadic() && i == n-1 {
			rest := []value{}
			for _, y := range in[i:] {
				rest = append(rest, p.assignTo(y, elemOf(t)))
			}
			args = append(args, rest)
			break
		}
		args = append(args, p.assignTo(in[i], t))
	}
	res := p.callValue(fr, x.get(), args)
	var out []value
	for i := 0; i < sig.Results().Len(); i++ {
		v := res
		if sig.Results().Len() > 1 {
			v = res.(tuple)[i]
		}
		out = append(out, mkRV(&rval{t: canon(sig.Results().At(i).Type()), v: v}))
	}
	return out
}

// mkRV makes a reflect.Value.
func mkRV(r *rval) value {
	if r == nil {
		return structure{nil, uptr{}, uint64(0)}
	}
	return structure{r, uptr{}, uint64(1)}
}

func (p *Path) rvOf(v value) *rval {
	s, ok := v.(structure)
	if !ok || len(s) != 3 {
		panic(unsupported("reflect.Value representation"))
	}
	r, ok := s[0].(*rval)
	if !ok {
		return &rval{}
	}
	return r
}

func (p *Path) reflectValueOf(i iface) *rval {
	if i.t == nil {
		return &rval{}
	}
	return &rval{t: i.t, v: i.v}
}

func (p *Path) toIface(r *rval) iface {
	v := copyVal(r.get())
	if types.IsInterface(r.t) {
		i, _ := v.(iface)
		return i
	}
	return iface{canon(r.t), v}
}

// assign converts r for storing into a location of type t.
func (p *Path) assignTo(r *rval, t types.Type) value {
	if r.t == nil {
		panic(p.reflectPanic("call using zero Value"))
	}
	if !types.AssignableTo(r.t, t) {
		panic(p.reflectPanic("value of type " + types.TypeString(r.t, pkgQual) + " is not assignable to type " + types.TypeString(t, pkgQual)))
	}
	v := copyVal(r.get())
	if types.IsInterface(t) && !types.IsInterface(r.t) {
		return iface{canon(r.t), v}
	}
	return v
}

type rmapIter struct {
	m  *rval
	it *mapIter
	k  value
	v  value
	ok bool
	st bool
}

func (p *Path) rElem(r *rval) *rval {
	switch u := r.t.Underlying().(type) {
	case *types.Pointer:
		switch ptr := r.get().(type) {
		case *value:
			if ptr == nil {
				return &rval{}
			}
			return &rval{t: canon(u.Elem()), cell: ptr, ro: r.ro}
		}
		panic(unsupported("reflect Elem of a symbolic pointer"))
	case *types.Interface:
		i, _ := r.get().(iface)
		if i.t == nil {
			return &rval{}
		}
		return &rval{t: i.t, v: i.v, ro: r.ro}
	}
	panic(p.reflectPanic("call of reflect.Value.Elem on " + kindOf(r.t).String() + " Value"))
}

func (p *Path) rLen(r *rval) int {
	switch v := r.get().(type) {
	case []value:
		return len(v)
	case array:
		return len(v)
	case *hmap:
		if v == nil {
			return 0
		}
		return v.n
	case string, *symStr:
		return strLen(v)
	case *channel:
		if v == nil {
			return 0
		}
		return len(v.buf)
	}
	panic(p.reflectPanic("call of reflect.Value.Len on " + kindOf(r.t).String() + " Value"))
}

func (p *Path) rIsZero(v value) value {
	switch v := v.(type) {
	case bool:
		return !v
	case uint64:
		return v == 0
	case *Term:
		if v.w == 0 {
			return p.boolNot(v)
		}
		return fromTerm(p.ts.Eq(v, p.ts.Const(0, v.w)))
	case float64:
		return v == 0
	case string:
		return v == ""
	case *symStr:
		return len(v.b) == 0
	case *value:
		return v == nil
	case []value:
		return v == nil
	case *hmap:
		return v == nil
	case *channel:
		return v == nil
	case *closure:
		return v == nil
	case iface:
		return v.t == nil
	case uptr:
		return v.p == nil
	case structure:
		var r value = true
		for _, x := range v {
			r = p.boolAnd(r, p.rIsZero(x))
		}
		return r
	case array:
		var r value = true
		for _, x := range v {
			r = p.boolAnd(r, p.rIsZero(x))
		}
		return r
	}
	panic(unsupported(fmt.Sprintf("IsZero of %T", v)))
}

func (p *Path) mustSet(r *rval) {
	if r.cell == nil {
		panic(p.reflectPanic("reflect.Value.Set using unaddressable value"))
	}
	if r.ro {
		panic(p.reflectPanic("reflect.Value.Set using value obtained using unexported field"))
	}
}

func (e *Engine) reflectIntrinsics() {
	r := func(name string, f Intrinsic) { e.reg(name, f) }
	v := func(name string, f func(p *Path, fr *frame, r *rval, a []value) value) {
		e.reg("(reflect.Value)."+name, func(p *Path, fr *frame, fn *Func, a []value) value {
			x := p.rvOf(a[0])
			if x.t == nil && name != "IsValid" && name != "Kind" && name != "String" {
				panic(p.reflectPanic("call of reflect.Value." + name + " on zero Value"))
			}
			return f(p, fr, x, a[1:])
		})
	}
	r("reflect.TypeOf", func(p *Path, fr *frame, fn *Func, a []value) value { return p.rtypeIface(a[0].(iface).t) })
	r("reflect.ValueOf", func(p *Path, fr *frame, fn *Func, a []value) value {
		i := a[0].(iface)
		if i.t == nil {
			return mkRV(nil)
		}
		return mkRV(&rval{t: i.t, v: i.v})
	})
	typ := func(v value) types.Type { return v.(iface).v.(*rtypeVal).t }
	r("reflect.New", func(p *Path, fr *frame, fn *Func, a []value) value {
		t := typ(a[0])
		c := new(value)
		*c = zero(t)
		return mkRV(&rval{t: canon(types.NewPointer(t)), v: c})
	})
	r("reflect.Zero", func(p *Path, fr *frame, fn *Func, a []value) value {
		t := typ(a[0])
		return mkRV(&rval{t: t, v: zero(t)})
	})
	r("reflect.MakeSlice", func(p *Path, fr *frame, fn *Func, a []value) value {
		t := typ(a[0])
		n, c := int64(p.concretize(a[1], 64)), int64(p.concretize(a[2], 64))
		if n < 0 || c < n {
			panic(p.reflectPanic("MakeSlice: bad len or cap"))
		}
		if c > 1<<20 {
			panic(abortPath{"limit", "large reflect.MakeSlice"})
		}
		s := make([]value, c)
		for i := range s {
			s[i] = zero(elemOf(t))
		}
		return mkRV(&rval{t: t, v: s[:n]})
	})
	mkmap := func(p *Path, fr *frame, fn *Func, a []value) value {
		return mkRV(&rval{t: typ(a[0]), v: p.newMap()})
	}
	r("reflect.MakeMapWithSize", mkmap)
	r("reflect.MakeMap", mkmap)
	r("reflect.Indirect", func(p *Path, fr *frame, fn *Func, a []value) value {
		x := p.rvOf(a[0])
		if x.t == nil || kindOf(x.t) != reflect.Pointer {
			return a[0]
		}
		return mkRVz(p.rElem(x))
	})
	r("reflect.PointerTo", func(p *Path, fr *frame, fn *Func, a []value) value { return p.rtypeIface(types.NewPointer(typ(a[0]))) })
	r("reflect.PtrTo", func(p *Path, fr *frame, fn *Func, a []value) value { return p.rtypeIface(types.NewPointer(typ(a[0]))) })
	r("reflect.SliceOf", func(p *Path, fr *frame, fn *Func, a []value) value { return p.rtypeIface(types.NewSlice(typ(a[0]))) })
	r("reflect.MapOf", func(p *Path, fr *frame, fn *Func, a []value) value {
		return p.rtypeIface(types.NewMap(typ(a[0]), typ(a[1])))
	})
	r("reflect.Append", func(p *Path, fr *frame, fn *Func, a []value) value {
		x := p.rvOf(a[0])
		s, _ := x.get().([]value)
		for _, y := range a[1].([]value) {
			s = appendVals(s, []value{p.assignTo(p.rvOf(y), elemOf(x.t))})
		}
		return mkRV(&rval{t: x.t, v: s})
	})
	r("reflect.DeepEqual", func(p *Path, fr *frame, fn *Func, a []value) value {
		x, y := a[0].(iface), a[1].(iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if x.t != y.t {
			return false
		}
		return p.deepEq(x.t, x.v, y.v, 0)
	})
	v("Type", func(p *Path, fr *frame, x *rval, a []value) value { return p.rtypeIface(x.t) })
	v("Kind", func(p *Path, fr *frame, x *rval, a []value) value {
		if x.t == nil {
			return uint64(0)
		}
		return uint64(kindOf(x.t))
	})
	v("IsValid", func(p *Path, fr *frame, x *rval, a []value) value { return x.t != nil })
	v("IsNil", func(p *Path, fr *frame, x *rval, a []value) value {
		switch x.get().(type) {
		case *value, *symPtr, []value, *hmap, *channel, *closure, iface, uptr:
			z := p.rIsZero(x.get())
			return z
		}
		panic(p.reflectPanic("call of reflect.Value.IsNil on " + kindOf(x.t).String() + " Value"))
	})
	v("IsZero", func(p *Path, fr *frame, x *rval, a []value) value { return p.rIsZero(x.get()) })
	v("Len", func(p *Path, fr *frame, x *rval, a []value) value { return uint64(p.rLen(x)) })
	v("Cap", func(p *Path, fr *frame, x *rval, a []value) value { s, _ := x.get().([]value); return uint64(cap(s)) })
	v("Index", func(p *Path, fr *frame, x *rval, a []value) value {
		n := p.rLen(x)
		i := int64(p.concretize(a[0], 64))
		if i < 0 || i >= int64(n) {
			panic(p.reflectPanic(kindOf(x.t).String() + " index out of range"))
		}
		switch s := x.get().(type) {
		case []value:
			return mkRV(&rval{t: canon(elemOf(x.t)), cell: &s[i], ro: x.ro})
		case array:
			if x.cell != nil {
				return mkRV(&rval{t: canon(elemOf(x.t)), cell: &s[i], ro: x.ro})
			}
			return mkRV(&rval{t: canon(elemOf(x.t)), v: s[i], ro: x.ro})
		case string, *symStr:
			return mkRV(&rval{t: types.Typ[types.Uint8], v: strAt(s, int(i))})
		}
		panic(unsupported("reflect Index"))
	})
	v("Elem", func(p *Path, fr *frame, x *rval, a []value) value { return mkRVz(p.rElem(x)) })
	v("Addr", func(p *Path, fr *frame, x *rval, a []value) value {
		if x.cell == nil {
			panic(p.reflectPanic("reflect.Value.Addr of unaddressable value"))
		}
		return mkRV(&rval{t: canon(types.NewPointer(x.t)), v: x.cell, ro: x.ro})
	})
	v("CanAddr", func(p *Path, fr *frame, x *rval, a []value) value { return x.cell != nil })
	v("CanSet", func(p *Path, fr *frame, x *rval, a []value) value { return x.cell != nil && !x.ro })
	v("CanInterface", func(p *Path, fr *frame, x *rval, a []value) value { return !x.ro })
	v("Interface", func(p *Path, fr *frame, x *rval, a []value) value {
		if x.ro {
			panic(p.reflectPanic("cannot return value obtained from unexported field or method"))
		}
		return p.toIface(x)
	})
	v("Set", func(p *Path, fr *frame, x *rval, a []value) value {
		p.mustSet(x)
		y := p.rvOf(a[0])
		storeInto(x.cell, p.assignTo(y, x.t))
		return nil
	})
	set := func(p *Path, x *rval, nv value) value { p.mustSet(x); *x.cell = nv; return nil }
	v("SetString", func(p *Path, fr *frame, x *rval, a []value) value { return set(p, x, a[0]) })
	v("SetBool", func(p *Path, fr *frame, x *rval, a []value) value { return set(p, x, a[0]) })
	num := func(p *Path, fr *frame, x *rval, a []value) value {
		w, ok := typeWidth(x.t)
		if !ok {
			panic(unsupported("reflect Set of a number"))
		}
		return set(p, x, fromTerm(p.ts.Extract(p.term(a[0], 64), 0, w)))
	}
	v("SetInt", num)
	v("SetUint", num)
	v("SetFloat", func(p *Path, fr *frame, x *rval, a []value) value { return set(p, x, a[0]) })
	v("SetLen", func(p *Path, fr *frame, x *rval, a []value) value {
		s, _ := x.get().([]value)
		n := int(p.concretize(a[0], 64))
		return set(p, x, s[:n])
	})
	v("Int", func(p *Path, fr *frame, x *rval, a []value) value {
		w, _ := typeWidth(x.t)
		return fromTerm(p.ts.Sext(p.term(x.get(), w), 64))
	})
	v("Uint", func(p *Path, fr *frame, x *rval, a []value) value {
		w, _ := typeWidth(x.t)
		return fromTerm(p.ts.Zext(p.term(x.get(), w), 64))
	})
	v("Bool", func(p *Path, fr *frame, x *rval, a []value) value { return x.get() })
	v("Float", func(p *Path, fr *frame, x *rval, a []value) value { return x.get() })
	v("Bytes", func(p *Path, fr *frame, x *rval, a []value) value { return x.get() })
	v("String", func(p *Path, fr *frame, x *rval, a []value) value {
		if x.t == nil {
			return "<invalid Value>"
		}
		if kindOf(x.t) == reflect.String {
			return x.get()
		}
		return "<" + types.TypeString(x.t, pkgQual) + " Value>"
	})
	v("NumField", func(p *Path, fr *frame, x *rval, a []value) value {
		return uint64(x.t.Underlying().(*types.Struct).NumFields())
	})
	v("Field", func(p *Path, fr *frame, x *rval, a []value) value { return mkRV(p.rField(x, int(a[0].(uint64)))) })
	byIndex := func(p *Path, x *rval, index []value) (*rval, bool) {
		for k, i := range index {
			if k > 0 && kindOf(x.t) == reflect.Pointer {
				if x = p.rElem(x); x.t == nil {
					return nil, false
				}
			}
			x = p.rField(x, int(i.(uint64)))
		}
		return x, true
	}
	v("FieldByIndex", func(p *Path, fr *frame, x *rval, a []value) value {
		y, ok := byIndex(p, x, a[0].([]value))
		if !ok {
			panic(p.reflectPanic("indirection through nil pointer to embedded struct"))
		}
		return mkRV(y)
	})
	v("FieldByIndexErr", func(p *Path, fr *frame, x *rval, a []value) value {
		y, ok := byIndex(p, x, a[0].([]value))
		if !ok {
			panic(unsupported("reflect: indirection through nil pointer to embedded struct"))
		}
		return tuple{mkRV(y), iface{}}
	})
	v("FieldByName", func(p *Path, fr *frame, x *rval, a []value) value {
		r := p.rtypeMethod(fr, &rtypeVal{x.t}, "FieldByName", a).(tuple)
		if r[1] != true {
			return mkRV(nil)
		}
		u := p.w.e.tpkgs["reflect"].Scope().Lookup("StructField").Type().Underlying().(*types.Struct)
		for k := 0; k < u.NumFields(); k++ {
			if u.Field(k).Name() == "Index" {
				y, ok := byIndex(p, x, r[0].(structure)[k].([]value))
				if !ok {
					panic(p.reflectPanic("indirection through nil pointer to embedded struct"))
				}
				return mkRV(y)
			}
		}
		return mkRV(nil)
	})
	v("MethodByName", func(p *Path, fr *frame, x *rval, a []value) value {
		name, ok := hostStr(a[0])
		if !ok {
			panic(unsupported("reflect.Value.MethodByName of a symbolic name"))
		}
		if types.IsInterface(x.t) {
			if x = p.rElem(x); x.t == nil {
				return mkRV(nil)
			}
		}
		if !token.IsExported(name) {
			return mkRV(nil)
		}
		m := p.w.e.methodByName(x.t, name)
		if m == nil {
			return mkRV(nil)
		}
		sig := m.fn.Signature
		sig = types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
		return mkRV(&rval{t: canon(sig), v: &closure{fn: m}, ro: x.ro, bound: []value{copyVal(x.get())}})
	})
	v("Call", func(p *Path, fr *frame, x *rval, a []value) value {
		var in []*rval
		for _, y := range a[0].([]value) {
			in = append(in, p.rvOf(y))
		}
		return p.rCall(fr, x, in)
	})
	v("Convert", func(p *Path, fr *frame, x *rval, a []value) value {
		t := typ(a[0])
		if types.IsInterface(t) {
			return mkRV(&rval{t: t, v: p.assignTo(x, t), ro: x.ro})
		}
		if kindOf(x.t) == kindOf(t) && !types.IsInterface(x.t) {
			return mkRV(&rval{t: t, v: copyVal(x.get()), ro: x.ro})
		}
		panic(unsupported("reflect.Value.Convert"))
	})
	v("Comparable", func(p *Path, fr *frame, x *rval, a []value) value {
		t := x.t
		if types.IsInterface(t) {
			y := p.rElem(x)
			if y.t == nil {
				return true
			}
			t = y.t
		}
		return types.Comparable(t)
	})
	can := func(name string, of func(k reflect.Kind) bool) {
		e.reg("(reflect.Value)."+name, func(p *Path, fr *frame, fn *Func, a []value) value {
			x := p.rvOf(a[0])
			return x.t != nil && of(kindOf(x.t))
		})
	}
	can("CanInt", func(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Int64 })
	can("CanUint", func(k reflect.Kind) bool { return k >= reflect.Uint && k <= reflect.Uintptr })
	can("CanFloat", func(k reflect.Kind) bool { return k == reflect.Float32 || k == reflect.Float64 })
	v("NumMethod", func(p *Path, fr *frame, x *rval, a []value) value {
		return p.rtypeMethod(fr, &rtypeVal{x.t}, "NumMethod", nil)
	})
	v("Slice", func(p *Path, fr *frame, x *rval, a []value) value {
		i, j := int64(p.concretize(a[0], 64)), int64(p.concretize(a[1], 64))
		switch s := x.get().(type) {
		case []value:
			if i < 0 || j < i || j > int64(cap(s)) {
				panic(p.reflectPanic("reflect.Value.Slice: slice index out of bounds"))
			}
			return mkRV(&rval{t: x.t, v: s[i:j], ro: x.ro})
		case string, *symStr:
			if i < 0 || j < i || j > int64(strLen(s)) {
				panic(p.reflectPanic("reflect.Value.Slice: string slice index out of bounds"))
			}
			return mkRV(&rval{t: x.t, v: strSlice(s, int(i), int(j)), ro: x.ro})
		}
		panic(unsupported("reflect Slice"))
	})
	v("MapIndex", func(p *Path, fr *frame, x *rval, a []value) value {
		m := x.get().(*hmap)
		if e := p.mapFind(m, p.assignTo(p.rvOf(a[0]), x.t.Underlying().(*types.Map).Key())); e != nil {
			return mkRV(&rval{t: canon(elemOf(x.t)), v: copyVal(e.v)})
		}
		return mkRV(nil)
	})
	v("SetMapIndex", func(p *Path, fr *frame, x *rval, a []value) value {
		mt := x.t.Underlying().(*types.Map)
		m := x.get().(*hmap)
		k := p.assignTo(p.rvOf(a[0]), mt.Key())
		y := p.rvOf(a[1])
		if y.t == nil {
			p.mapDelete(m, k)
			return nil
		}
		if m == nil {
			panic(p.rtPanic("assignment to entry in nil map"))
		}
		p.mapSet(m, k, p.assignTo(y, mt.Elem()))
		return nil
	})
	v("MapKeys", func(p *Path, fr *frame, x *rval, a []value) value {
		it := p.rangeIter(x.get()).(*mapIter)
		out := []value{}
		for _, e := range it.ents {
			out = append(out, mkRV(&rval{t: canon(x.t.Underlying().(*types.Map).Key()), v: copyVal(e.k)}))
		}
		return out
	})
	v("MapRange", func(p *Path, fr *frame, x *rval, a []value) value {
		if _, ok := x.t.Underlying().(*types.Map); !ok {
			panic(p.reflectPanic("call of reflect.Value.MapRange on " + kindOf(x.t).String() + " Value"))
		}
		c := new(value)
		*c = zero(p.w.e.tpkgs["reflect"].Scope().Lookup("MapIter").Type())
		p.side("mapiter", c, func() any { return &rmapIter{m: x} })
		return c
	})
	mi := func(p *Path, v value) *rmapIter {
		return p.side("mapiter", v, func() any { return &rmapIter{} }).(*rmapIter)
	}
	r("(*reflect.MapIter).Next", func(p *Path, fr *frame, fn *Func, a []value) value {
		it := mi(p, a[0])
		if it.it == nil {
			it.it = p.rangeIter(it.m.get()).(*mapIter)
		}
		it.ok = false
		for it.it.i < len(it.it.ents) {
			e := it.it.ents[it.it.i]
			it.it.i++
			if e.dead {
				continue
			}
			it.k, it.v, it.ok = copyVal(e.k), copyVal(e.v), true
			break
		}
		return it.ok
	})
	r("(*reflect.MapIter).Key", func(p *Path, fr *frame, fn *Func, a []value) value {
		it := mi(p, a[0])
		if !it.ok {
			panic(p.reflectPanic("MapIter.Key called before Next or on exhausted iterator"))
		}
		return mkRV(&rval{t: canon(it.m.t.Underlying().(*types.Map).Key()), v: it.k})
	})
	r("(*reflect.MapIter).Value", func(p *Path, fr *frame, fn *Func, a []value) value {
		it := mi(p, a[0])
		if !it.ok {
			panic(p.reflectPanic("MapIter.Value called before Next or on exhausted iterator"))
		}
		return mkRV(&rval{t: canon(it.m.t.Underlying().(*types.Map).Elem()), v: it.v})
	})
}

func mkRVz(r *rval) value {
	if r.t == nil {
		return mkRV(nil)
	}
	return mkRV(r)
}

// deepEq is reflect.DeepEqual on values of one type.
func (p *Path) deepEq(t types.Type, a, b value, d int) value {
	if d > 60 {
		panic(abortPath{"limit", "DeepEqual depth"})
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		x, _ := a.(*value)
		y, _ := b.(*value)
		if x == y {
			return true
		}
		if x == nil || y == nil {
			return false
		}
		return p.deepEq(u.Elem(), *x, *y, d+1)
	case *types.Slice:
		x, _ := a.([]value)
		y, _ := b.([]value)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		var r value = true
		for i := range x {
			r = p.boolAnd(r, p.deepEq(u.Elem(), x[i], y[i], d+1))
		}
		return r
	case *types.Array:
		x, y := a.(array), b.(array)
		var r value = true
		for i := range x {
			r = p.boolAnd(r, p.deepEq(u.Elem(), x[i], y[i], d+1))
		}
		return r
	case *types.Struct:
		x, y := a.(structure), b.(structure)
		var r value = true
		for i := range x {
			r = p.boolAnd(r, p.deepEq(u.Field(i).Type(), x[i], y[i], d+1))
		}
		return r
	case *types.Map:
		x, _ := a.(*hmap)
		y, _ := b.(*hmap)
		if (x == nil) != (y == nil) {
			return false
		}
		if x == nil {
			return true
		}
		if x.n != y.n {
			return false
		}
		var r value = true
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			o := p.mapFind(y, e.k)
			if o == nil {
				return false
			}
			r = p.boolAnd(r, p.deepEq(u.Elem(), e.v, o.v, d+1))
		}
		return r
	case *types.Interface:
		x, _ := a.(iface)
		y, _ := b.(iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if x.t != y.t {
			return false
		}
		return p.deepEq(x.t, x.v, y.v, d+1)
	case *types.Signature:
		x, _ := a.(*closure)
		y, _ := b.(*closure)
		return x == nil && y == nil
	}
	return p.equals(a, b)
}

var _ = strings.Contains
