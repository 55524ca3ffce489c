package main

// Formatting: fmt's functions over values that may contain symbolic strings and numbers.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

type fmtArg struct {
	v iface
}

// strBuf builds a string of concrete and symbolic bytes.
type strBuf struct{ v value }

func (b *strBuf) add(v value) {
	if b.v == nil {
		b.v = v
		return
	}
	b.v = strConcat(b.v, v)
}
func (b *strBuf) get() value {
	if b.v == nil {
		return ""
	}
	return b.v
}

// format implements Sprintf; lenient renders symbolic numbers as a placeholder instead of splitting the path.
func (p *Path) format(fr *frame, f value, args []value, lenient bool) (value, []iface) {
	var out strBuf
	var wrapped []iface
	fs, ok := f.(string)
	if !ok {
		b := make([]value, 0)
		for _, x := range strBytes(f) {
			b = append(b, p.concretize(x, 8))
		}
		fs, ok = mkStr(b).(string)
		if !ok {
			panic(unsupported("symbolic format"))
		}
	}
	ai := 0
	for i := 0; i < len(fs); {
		j := strings.IndexByte(fs[i:], '%')
		if j < 0 {
			out.add(fs[i:])
			break
		}
		out.add(fs[i : i+j])
		i += j
		k := i + 1
		for k < len(fs) && strings.IndexByte("+-# 0123456789.[]*", fs[k]) >= 0 {
			if fs[k] == '[' || fs[k] == '*' {
				panic(unsupported("format " + fs))
			}
			k++
		}
		if k >= len(fs) {
			out.add("%!(NOVERB)")
			break
		}
		flags, verb := fs[i+1:k], fs[k]
		i = k + 1
		if verb == '%' {
			out.add("%")
			continue
		}
		if ai >= len(args) {
			out.add("%!" + string(verb) + "(MISSING)")
			continue
		}
		a, _ := args[ai].(iface)
		ai++
		if verb == 'w' {
			if a.t != nil {
				wrapped = append(wrapped, a)
			}
			verb = 'v'
		}
		out.add(p.formatOne(fr, flags, verb, a, lenient, 0))
	}
	if ai < len(args) {
		out.add("%!(EXTRA)")
	}
	return out.get(), wrapped
}

func (p *Path) strOfMethod(fr *frame, a iface, verb byte, flags string) (value, bool) {
	if strings.Contains(flags, "#") {
		return nil, false
	}
	switch verb {
	case 'v', 's', 'q', 'x', 'X':
	default:
		return nil, false
	}
	if a.t == nil {
		return nil, false
	}
	if q, ok := a.v.(*value); ok && q == nil {
		return "<nil>", true
	}
	for _, n := range []string{"Error", "String"} {
		if m := p.w.e.methodByName(a.t, n); m != nil {
			sg := m.fn.Signature
			if sg.Params().Len() == 0 && sg.Results().Len() == 1 {
				if b, ok := sg.Results().At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
					return p.callFn(fr, m, []value{a.v}, nil), true
				}
			}
		}
	}
	return nil, false
}

func (p *Path) formatOne(fr *frame, flags string, verb byte, a iface, lenient bool, depth int) value {
	if a.t == nil {
		if verb == 'v' || verb == 's' {
			if verb == 's' {
				return "%!s(<nil>)"
			}
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'T' {
		return types.TypeString(a.t, func(p *types.Package) string { return p.Name() })
	}
	if s, ok := p.strOfMethod(fr, a, verb, flags); ok {
		return p.fmtString(flags, verb, s, lenient)
	}
	switch u := a.t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return p.fmtString(flags, verb, a.v, lenient)
		case u.Info()&types.IsBoolean != 0:
			switch x := a.v.(type) {
			case bool:
				return fmt.Sprintf("%"+flags+string(verb), x)
			case *Term:
				if lenient {
					return "⟨bool⟩"
				}
				return fmt.Sprintf("%"+flags+string(verb), p.decide(x))
			}
		case u.Info()&types.IsInteger != 0:
			w, _ := basicWidth(u.Kind())
			x, ok := a.v.(uint64)
			if !ok {
				if lenient {
					return "⟨num⟩"
				}
				x = p.concretize(a.v, w)
			}
			if isSigned(u) {
				if u.Kind() == types.Int32 {
					return fmt.Sprintf("%"+flags+string(verb), int32(sext64(x, w)))
				}
				return fmt.Sprintf("%"+flags+string(verb), sext64(x, w))
			}
			return fmt.Sprintf("%"+flags+string(verb), x)
		case u.Info()&types.IsFloat != 0:
			if u.Kind() == types.Float32 {
				return fmt.Sprintf("%"+flags+string(verb), float32(a.v.(float64)))
			}
			return fmt.Sprintf("%"+flags+string(verb), a.v)
		}
	case *types.Slice:
		if s, ok := a.v.([]value); ok {
			if isByte(u.Elem()) && (verb == 's' || verb == 'q' || verb == 'x') {
				return p.fmtString(flags, verb, mkStr(append([]value(nil), s...)), lenient)
			}
			return p.fmtList(fr, flags, verb, "[", "]", u.Elem(), s, lenient, depth)
		}
	case *types.Array:
		if s, ok := a.v.(array); ok {
			return p.fmtList(fr, flags, verb, "[", "]", u.Elem(), s, lenient, depth)
		}
	case *types.Struct:
		var b strBuf
		b.add("{")
		for i, x := range a.v.(structure) {
			if i > 0 {
				b.add(" ")
			}
			if strings.Contains(flags, "+") {
				b.add(u.Field(i).Name() + ":")
			}
			b.add(p.formatOne(fr, flags, verb, p.asIface(u.Field(i).Type(), x), lenient, depth+1))
		}
		b.add("}")
		return b.get()
	case *types.Pointer:
		q, ok := a.v.(*value)
		if ok && q == nil {
			return "<nil>"
		}
		if ok && depth == 0 && verb == 'v' {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Array, *types.Slice, *types.Map:
				return strConcat("&", p.formatOne(fr, flags, verb, iface{canon(u.Elem()), *q}, lenient, depth+1))
			}
		}
		return fmt.Sprintf("0x%x", p.addrOf(a.v))
	case *types.Map:
		h := a.v.(*hmap)
		var parts []value
		if h != nil {
			ents := make([]*mapEntry, 0, len(h.ents))
			for _, e := range h.ents {
				if !e.dead {
					ents = append(ents, e)
				}
			}
			sort.SliceStable(ents, func(i, j int) bool { return vstr(ents[i].k) < vstr(ents[j].k) })
			for _, e := range ents {
				parts = append(parts, strConcat(strConcat(p.formatOne(fr, flags, verb, p.asIface(u.Key(), e.k), lenient, depth+1), ":"),
					p.formatOne(fr, flags, verb, p.asIface(u.Elem(), e.v), lenient, depth+1)))
			}
		}
		var b strBuf
		b.add("map[")
		for i, x := range parts {
			if i > 0 {
				b.add(" ")
			}
			b.add(x)
		}
		b.add("]")
		return b.get()
	case *types.Interface:
		return p.formatOne(fr, flags, verb, a.v.(iface), lenient, depth)
	case *types.Signature, *types.Chan:
		return "0xc000"
	}
	panic(unsupported(fmt.Sprintf("formatting %s with %%%c", a.t, verb)))
}

func (p *Path) asIface(t types.Type, v value) iface {
	if i, ok := v.(iface); ok {
		if _, isI := t.Underlying().(*types.Interface); isI {
			return i
		}
	}
	return iface{canon(t), v}
}

func (p *Path) fmtList(fr *frame, flags string, verb byte, open, cl string, et types.Type, s []value, lenient bool, depth int) value {
	var b strBuf
	b.add(open)
	for i, x := range s {
		if i > 0 {
			b.add(" ")
		}
		b.add(p.formatOne(fr, flags, verb, p.asIface(et, x), lenient, depth+1))
	}
	b.add(cl)
	return b.get()
}

func (p *Path) fmtString(flags string, verb byte, s value, lenient bool) value {
	if c, ok := s.(string); ok {
		return fmt.Sprintf("%"+flags+string(verb), c)
	}
	if flags == "" || flags == "+" {
		switch verb {
		case 's', 'v':
			return s
		case 'q':
			if lenient {
				return strConcat(strConcat("\"", s), "\"")
			}
		}
	}
	if lenient {
		return s
	}
	// exact text needed: fix the bytes
	b := make([]value, 0)
	for _, x := range strBytes(s) {
		b = append(b, p.concretize(x, 8))
	}
	return fmt.Sprintf("%"+flags+string(verb), mkStr(b).(string))
}

func (p *Path) sprint(fr *frame, args []value, ln, lenient bool) value {
	var b strBuf
	prevStr := true
	for i, x := range args {
		a, _ := x.(iface)
		isStr := false
		if a.t != nil {
			if bt, ok := a.t.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				isStr = true
			}
		}
		if i > 0 && (ln || (!isStr && !prevStr)) {
			b.add(" ")
		}
		prevStr = isStr
		b.add(p.formatOne(fr, "", 'v', a, lenient, 0))
	}
	if ln {
		b.add("\n")
	}
	return b.get()
}

func (e *Engine) fmtIntrinsics() {
	r := e.reg
	r("fmt.Sprintf", func(p *Path, fr *frame, fn *Func, a []value) value {
		s, _ := p.format(fr, a[0], a[1].([]value), false)
		return s
	})
	r("fmt.Sprint", func(p *Path, fr *frame, fn *Func, a []value) value { return p.sprint(fr, a[0].([]value), false, false) })
	r("fmt.Sprintln", func(p *Path, fr *frame, fn *Func, a []value) value { return p.sprint(fr, a[0].([]value), true, false) })
	r("fmt.Errorf", func(p *Path, fr *frame, fn *Func, a []value) value {
		s, w := p.format(fr, a[0], a[1].([]value), true)
		tn := "errorString"
		pk := "errors"
		st := structure{s}
		switch {
		case len(w) == 1:
			pk, tn = "fmt", "wrapError"
			st = structure{s, w[0]}
		case len(w) > 1:
			pk, tn = "fmt", "wrapErrors"
			var es []value
			for _, x := range w {
				es = append(es, x)
			}
			st = structure{s, es}
		default:
			pk, tn = "fmt", "wrapError"
			// *errors.errorString and *fmt.fmtError behave alike
			if e.tpkgs["errors"] != nil {
				pk, tn = "errors", "errorString"
			} else {
				st = structure{s, iface{}}
			}
		}
		t := e.tpkgs[pk].Scope().Lookup(tn).Type()
		c := new(value)
		*c = st
		return iface{canon(types.NewPointer(t)), c}
	})
	out := func(p *Path, fr *frame, w value, s value) value {
		b := append([]value(nil), strBytes(s)...)
		x := w.(iface)
		if x.t == nil {
			panic(p.nilDeref())
		}
		m := p.w.e.methodByName(x.t, "Write")
		if m == nil {
			panic(unsupported("Fprint to " + x.t.String()))
		}
		return p.callFn(fr, m, []value{x.v, b}, nil)
	}
	r("fmt.Fprintf", func(p *Path, fr *frame, fn *Func, a []value) value {
		s, _ := p.format(fr, a[1], a[2].([]value), false)
		return out(p, fr, a[0], s)
	})
	r("fmt.Fprint", func(p *Path, fr *frame, fn *Func, a []value) value {
		return out(p, fr, a[0], p.sprint(fr, a[1].([]value), false, false))
	})
	r("fmt.Fprintln", func(p *Path, fr *frame, fn *Func, a []value) value {
		return out(p, fr, a[0], p.sprint(fr, a[1].([]value), true, false))
	})
	quiet := func(p *Path, fr *frame, fn *Func, a []value) value { return tuple{uint64(0), iface{}} }
	r("fmt.Printf", quiet)
	r("fmt.Println", quiet)
	r("fmt.Print", quiet)
	// concrete fast paths
	r("strconv.Itoa", func(p *Path, fr *frame, fn *Func, a []value) value {
		return strconv.FormatInt(int64(p.concretize(a[0], 64)), 10)
	})
	r("strconv.FormatInt", func(p *Path, fr *frame, fn *Func, a []value) value {
		return strconv.FormatInt(int64(p.concretize(a[0], 64)), int(p.concretize(a[1], 64)))
	})
	r("strconv.FormatUint", func(p *Path, fr *frame, fn *Func, a []value) value {
		return strconv.FormatUint(p.concretize(a[0], 64), int(p.concretize(a[1], 64)))
	})
}
