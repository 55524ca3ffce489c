package main

// Translation of SSA functions into slot-based closures that compute on concrete and symbolic values.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Intrinsic func(p *Path, fr *frame, fn *Func, args []value) value

type Func struct {
	name   string
	fn     *ssa.Function
	ext    Intrinsic
	once   sync.Once
	nslots int
	params []int32
	frees  []int32
	blocks []*cblock
	rec    *cblock
	defers bool
	err    string // not executable
	pkg    *ssa.Package
	self   *closure // closure value without environment
	race   bool     // instrument accesses for race detection
	shared bool
	hits   int64
}

type cinstr struct {
	f   func(fr *frame)
	pos token.Pos
}

type phi struct {
	dst   int32
	edges []operand
}

type cblock struct {
	idx    int
	phis   []phi
	ins    []cinstr
	kind   int // 0 jump, 1 if, 2 return, 3 panic
	cond   operand
	ret    []operand
	succ   [2]*cblock
	edge   [2]int
	pos    token.Pos
	npreds int
}

type deferred struct {
	f    func()
	recv func()
}

type frame struct {
	p      *Path
	fn     *Func
	s      []value
	caller *frame
	pos    token.Pos
	defers []func(fr *frame)
	pan    *targetPanic
	res    value
	depth  int
}

type operand struct {
	slot int32
	c    value
	g    *ssa.Global
}

func (o *operand) get(fr *frame) value {
	if o.slot >= 0 {
		return fr.s[o.slot]
	}
	if o.g != nil {
		return fr.p.globalCell(o.g)
	}
	return o.c
}

func (e *Engine) getFunc(f *ssa.Function) *Func {
	if x, ok := e.funcs.Load(f); ok {
		return x.(*Func)
	}
	fn := &Func{fn: f, name: f.String(), pkg: pkgOf(f)}
	if in, ok := e.intr[funcName(f)]; ok && !(funcName(f) == "os.Exit" && e.redir["os.Exit"].name != "") {
		fn.ext = in
	} else if f.Pkg != nil || f.Origin() != nil {
		if r, ok := e.redir[funcName(f)]; ok {
			if m := e.lookup(r.pkg, r.name); m != nil {
				mf := e.getFunc(m)
				fn.ext = func(p *Path, fr *frame, _ *Func, args []value) value { return p.callFn(fr, mf, args, nil) }
			} else {
				fn.err = "model function " + r.name + " is missing"
			}
		}
	}
	fn.self = &closure{fn: fn}
	x, _ := e.funcs.LoadOrStore(f, fn)
	return x.(*Func)
}

func (e *Engine) compile(fn *Func) {
	fn.once.Do(func() {
		if fn.err != "" {
			return
		}
		e.mu.Lock()
		defer e.mu.Unlock()
		defer func() {
			if r := recover(); r != nil {
				if a, ok := r.(abortPath); ok {
					fn.err = a.msg
					return
				}
				fn.err = fmt.Sprintf("compile %s: %v", fn.name, r)
				if debugEngine {
					fn.err += string(stack())
				}
			}
		}()
		f := fn.fn
		if fn.pkg != nil {
			e.ensureBuiltLocked(fn.pkg)
		}
		if f.Blocks == nil {
			fn.err = "no body: " + fn.name
			return
		}
		c := &comp{e: e, fn: fn, slots: map[ssa.Value]int32{}}
		c.run()
	})
}

type comp struct {
	e      *Engine
	fn     *Func
	slots  map[ssa.Value]int32
	blocks []*cblock
}

func (c *comp) slot(v ssa.Value) int32 {
	s, ok := c.slots[v]
	if !ok {
		s = int32(c.fn.nslots)
		c.fn.nslots++
		c.slots[v] = s
	}
	return s
}

func (c *comp) run() {
	f := c.fn.fn
	for _, p := range f.Params {
		c.fn.params = append(c.fn.params, c.slot(p))
	}
	for _, p := range f.FreeVars {
		c.fn.frees = append(c.fn.frees, c.slot(p))
	}
	if c.fn.pkg != nil {
		c.fn.shared = c.e.isShared(c.fn.pkg)
	}
	c.fn.race = true
	c.blocks = make([]*cblock, len(f.Blocks))
	for i, b := range f.Blocks {
		c.blocks[i] = &cblock{idx: i, npreds: len(b.Preds)}
	}
	for i, b := range f.Blocks {
		c.block(c.blocks[i], b)
	}
	if f.Recover != nil {
		c.fn.rec = c.blocks[f.Recover.Index]
	}
	c.fn.blocks = c.blocks
}

func (c *comp) op(v ssa.Value) operand {
	switch v := v.(type) {
	case *ssa.Const:
		return operand{slot: -1, c: constValue(v)}
	case *ssa.Global:
		return operand{slot: -1, g: v}
	case *ssa.Function:
		// the lock is held: build the Func without model lookup
		return operand{slot: -1, c: c.funcValue(v)}
	case *ssa.Builtin:
		return operand{slot: -1, c: v}
	}
	return operand{slot: c.slot(v)}
}

// funcValue: getFunc may need the engine lock for model functions; the lock is not re-entrant, so it is released around it.
func (c *comp) funcValue(f *ssa.Function) *closure {
	return c.getFunc(f).self
}

func (c *comp) getFunc(f *ssa.Function) *Func {
	c.e.mu.Unlock()
	defer c.e.mu.Lock()
	return c.e.getFunc(f)
}

func constValue(v *ssa.Const) value {
	t := v.Type()
	if v.Value == nil {
		return zero(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(v.Value)
		case b.Info()&types.IsInteger != 0:
			w, _ := basicWidth(b.Kind())
			if b.Info()&types.IsUnsigned != 0 {
				return v.Uint64() & mask(w)
			}
			return uint64(v.Int64()) & mask(w)
		case b.Info()&types.IsFloat != 0:
			f := v.Float64()
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case b.Info()&types.IsComplex != 0:
			return v.Complex128()
		case b.Info()&types.IsString != 0:
			if v.Value.Kind() == constant.String {
				return constant.StringVal(v.Value)
			}
			return string(rune(v.Int64()))
		case b.Kind() == types.UnsafePointer:
			return uptr{}
		}
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return iface{}
	}
	panic(unsupported("constant " + v.String()))
}

func (c *comp) block(cb *cblock, b *ssa.BasicBlock) {
	edgeIdx := func(succ *ssa.BasicBlock, k int) int {
		// index of the k-th edge b->succ among succ.Preds
		for i, p := range succ.Preds {
			if p == b {
				if k == 0 {
					return i
				}
				k--
			}
		}
		return 0
	}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			ph := phi{dst: c.slot(in)}
			for _, ed := range in.Edges {
				ph.edges = append(ph.edges, c.op(ed))
			}
			cb.phis = append(cb.phis, ph)
		case *ssa.Jump:
			cb.kind = 0
			cb.succ[0] = c.blocks[b.Succs[0].Index]
			cb.edge[0] = edgeIdx(b.Succs[0], 0)
		case *ssa.If:
			cb.kind = 1
			cb.cond = c.op(in.Cond)
			cb.pos = in.Cond.Pos()
			cb.succ[0] = c.blocks[b.Succs[0].Index]
			cb.succ[1] = c.blocks[b.Succs[1].Index]
			cb.edge[0] = edgeIdx(b.Succs[0], 0)
			if b.Succs[0] == b.Succs[1] {
				cb.edge[1] = edgeIdx(b.Succs[1], 1)
			} else {
				cb.edge[1] = edgeIdx(b.Succs[1], 0)
			}
		case *ssa.Return:
			cb.kind = 2
			for _, r := range in.Results {
				cb.ret = append(cb.ret, c.op(r))
			}
			cb.pos = in.Pos()
		case *ssa.Panic:
			cb.kind = 3
			cb.cond = c.op(in.X)
			cb.pos = in.Pos()
		default:
			f := c.instr(in)
			if f != nil {
				if c.fn.shared && c.fn.fn.Synthetic == "package initializer" {
					f = c.tolerant(in, f)
				}
				cb.ins = append(cb.ins, cinstr{f, in.Pos()})
			}
		}
	}
}

// tolerant makes an instruction of a library package's initialiser leave an unusable value where it cannot be executed; using that
// value later is what is unsupported.
func (c *comp) tolerant(in ssa.Instruction, f func(fr *frame)) func(fr *frame) {
	dst := int32(-1)
	var why string
	if v, ok := in.(ssa.Value); ok {
		dst = c.slot(v)
		why = "initialisation of " + c.fn.name
	}
	return func(fr *frame) {
		g := fr.p.g
		save := g.fr
		defer func() {
			if r := recover(); r != nil {
				if a, ok := r.(abortPath); ok && a.kind != "unsupported" {
					panic(r)
				}
				g.fr = save
				if dst >= 0 {
					why := why
					if a, ok := r.(abortPath); ok {
						why = a.msg
					}
					fr.s[dst] = poison{why}
				}
			}
		}()
		f(fr)
	}
}

// --- execution

const maxDepth = 3000

func (p *Path) callFn(caller *frame, fn *Func, args []value, env []value) value {
	if fn.ext != nil {
		return fn.ext(p, caller, fn, args)
	}
	if !p.w.encoded[fn] { // compiled at most once, published to this worker by the sync.Once
		p.w.e.compile(fn)
		if fn.err != "" {
			panic(unsupported(fn.err))
		}
		p.w.encoded[fn] = true
	}
	if fn.pkg != nil && fn.fn.Synthetic == "" {
		// package-level state is initialised on first use of a global
	}
	fr := &frame{p: p, fn: fn, s: make([]value, fn.nslots), caller: caller}
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > maxDepth {
			panic(abortPath{"limit", "call depth"})
		}
	}
	for i, s := range fn.params {
		fr.s[s] = args[i]
	}
	for i, s := range fn.frees {
		fr.s[s] = env[i]
	}
	g := p.g
	save := g.fr
	g.fr = fr
	var res value
	if fn.fn.Recover != nil || fn.hasDefers() {
		res = p.runDeferring(fr)
	} else {
		p.exec(fr, fn.blocks[0])
		res = fr.res
	}
	g.fr = save
	return res
}

func (fn *Func) hasDefers() bool { return fn.defers }

func (p *Path) protect(fr *frame, f func()) (tp *targetPanic) {
	g := p.g
	defer func() {
		if r := recover(); r != nil {
			if t, ok := r.(targetPanic); ok {
				tp = &t
				g.fr = fr
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

func (p *Path) runDeferring(fr *frame) value {
	tp := p.protect(fr, func() { p.exec(fr, fr.fn.blocks[0]) })
	if tp == nil {
		return fr.res
	}
	fr.pan = tp
	p.runDefers(fr)
	if fr.pan != nil {
		panic(*fr.pan)
	}
	if fr.fn.rec != nil {
		p.exec(fr, fr.fn.rec)
		return fr.res
	}
	return zeroResults(fr.fn.fn.Signature)
}

// runDefers runs pending deferred calls; a panic in one replaces the current panic.
func (p *Path) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		if tp := p.protect(fr, func() { d(fr) }); tp != nil {
			fr.pan = tp
		}
	}
}

func zeroResults(sig *types.Signature) value {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

func (p *Path) exec(fr *frame, b *cblock) {
	var tmp [8]value
	for {
		p.steps++
		if p.steps&1023 == 0 {
			p.budget()
		}
		for i := range b.ins {
			in := &b.ins[i]
			if in.pos != token.NoPos {
				fr.pos = in.pos
			}
			in.f(fr)
		}
		k := 0
		switch b.kind {
		case 0:
		case 1:
			c := b.cond.get(fr)
			switch c := c.(type) {
			case bool:
				if !c {
					k = 1
				}
			case *Term:
				if b.pos != token.NoPos {
					fr.pos = b.pos
				}
				if !p.decide(c) {
					k = 1
				}
			default:
				panic(unsupported(fmt.Sprintf("branch on %T in %s", c, fr.fn.name)))
			}
		case 2:
			switch len(b.ret) {
			case 0:
				fr.res = nil
			case 1:
				fr.res = b.ret[0].get(fr)
			default:
				t := make(tuple, len(b.ret))
				for i := range b.ret {
					t[i] = b.ret[i].get(fr)
				}
				fr.res = t
			}
			return
		case 3:
			if b.pos != token.NoPos {
				fr.pos = b.pos
			}
			v := b.cond.get(fr).(iface)
			panic(targetPanic{v: v, where: p.where()})
		}
		n := b.succ[k]
		if len(n.phis) > 0 {
			e := b.edge[k]
			if len(n.phis) == 1 {
				fr.s[n.phis[0].dst] = n.phis[0].edges[e].get(fr)
			} else {
				vals := tmp[:0]
				for i := range n.phis {
					vals = append(vals, n.phis[i].edges[e].get(fr))
				}
				for i := range n.phis {
					fr.s[n.phis[i].dst] = vals[i]
				}
			}
		}
		b = n
	}
}

// callValue calls a func value.
func (p *Path) callValue(fr *frame, f value, args []value) value {
	c, ok := f.(*closure)
	if !ok {
		panic(unsupported(fmt.Sprintf("call of %T", f)))
	}
	if c == nil {
		panic(p.nilDeref())
	}
	return p.callFn(fr, c.fn, args, c.env)
}

func (p *Path) nilDeref() targetPanic {
	return p.rtPanic("invalid memory address or nil pointer dereference")
}

// plainPanic panics with a runtime.plainError-like value.
func (p *Path) plainPanic(msg string) targetPanic {
	return targetPanic{v: iface{canon(types.Typ[types.String]), msg}, where: p.where()}
}
