package main

// A Path is one symbolic execution of a harness from its start, following a prefix of recorded decisions
// and continuing along the values of a satisfying model.

import (
	"fmt"
	"slices"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// dec is one recorded decision. Forced decisions need no re-check.
type dec struct {
	parent *dec
	n      int
	val    uint64
	tag    uint64 // identifies what was decided
	choice bool   // a choice among alternatives rather than the truth of a term
}

func (d *dec) tags() []uint64 {
	if d == nil {
		return nil
	}
	out := make([]uint64, d.n)
	for x := d; x != nil; x = x.parent {
		out[x.n-1] = x.tag
	}
	return out
}

func (d *dec) list() []uint64 {
	if d == nil {
		return nil
	}
	out := make([]uint64, d.n)
	for x := d; x != nil; x = x.parent {
		out[x.n-1] = x.val
	}
	return out
}

type work struct {
	pre   *dec
	model Model
}

// reasons for ending a path
type abortPath struct{ kind, msg string } // kind: infeasible, unsupported, limit, violation, killed, done

func unsupported(msg string) abortPath { return abortPath{"unsupported", msg} }

type targetPanic struct {
	v     iface
	where string
}

type symVar struct {
	Name string
	T    *Term
}

type Violation struct {
	Msg    string            `json:"msg"`
	Kind   string            `json:"kind"` // assert, panic, deadlock, race, exit
	Where  string            `json:"where"`
	Vals   map[string]uint64 `json:"vals"`
	Choice []uint64          `json:"decisions,omitempty"`
	Sched  bool              `json:"sched_dependent"`
	MapOrd bool              `json:"map_order_dependent"`
	Obs    []Obs             `json:"observed,omitempty"`
	last   *dec
}

type Obs struct {
	Name string `json:"name"`
	Val  string `json:"val"`
}

type Path struct {
	gobs    []*gval
	w       *Worker
	ts      *Terms
	pre     []uint64
	preTags []uint64
	pos     int
	cur     *dec // decisions taken so far

	pc     []*Term
	pcset  map[*Term]bool
	model  Model
	gen    uint64
	vars   []*Term
	names  map[string]int
	varSet map[string]*Term

	steps    int
	maxSteps int
	nextID   int
	deadline time.Time

	globals map[*ssa.Global]*value
	inited  map[*ssa.Package]int
	initing int // depth of package initialisation

	// scheduling
	gs        []*gor
	g         *gor
	schedOn   bool // explore schedules
	preempt   int  // remaining preemptions or delays
	delay     bool // every deviation from the default schedule costs
	usedSched bool
	mapOrder  int // explore iteration orders of maps up to this size
	usedMap   bool
	raceOn    bool
	shadow    map[any]*shadowCell
	killed    bool
	abort     *abortPath
	panicOut  *targetPanic
	mainDone  bool

	tables     map[any]any // side tables of intrinsics
	obs        []obsRec
	covers     map[string]bool
	noFork     bool
	fixed      map[string]uint64 // values of all inputs, when a counterexample is executed concretely
	sharedInit bool              // in the initialisation of a shared package
	viol       *Violation
	trace      []string
	stepsPre   int
	asserts    int
	inconcl    int
	clock      uint64
	rand       uint64
	vtime      int64             // passes when everybody waits
	chosen     map[string]uint64 // choices made by the harness
	opaque     map[*value]value
	tokens     []any
}

type obsRec struct {
	name string
	v    value
}

func (p *Path) rtPanic(msg string) targetPanic {
	return targetPanic{v: p.w.e.runtimeError(msg), where: p.where()}
}

// --- decisions

func (p *Path) addPC(t *Term) {
	if t.op == OConst {
		return
	}
	if t.op == OAnd {
		p.addPC(t.a[0])
		p.addPC(t.a[1])
		return
	}
	if p.pcset[t] {
		return
	}
	p.pcset[t] = true
	p.pc = append(p.pc, t)
}

func (p *Path) known(t *Term) (bool, bool) {
	if t.op == OConst {
		return t.val != 0, true
	}
	if p.pcset[t] {
		return true, true
	}
	if p.pcset[p.ts.Not(t)] {
		return false, true
	}
	if t.op == OAnd {
		a, ok1 := p.known(t.a[0])
		b, ok2 := p.known(t.a[1])
		if ok1 && ok2 {
			return a && b, true
		}
		if ok1 && !a || ok2 && !b {
			return false, true
		}
	}
	if t.op == OOr {
		a, ok1 := p.known(t.a[0])
		b, ok2 := p.known(t.a[1])
		if ok1 && ok2 {
			return a || b, true
		}
		if ok1 && a || ok2 && b {
			return true, true
		}
	}
	return false, false
}

func (p *Path) eval(t *Term) uint64 { return t.Eval(p.model, p.gen) }

func (p *Path) setModel(m Model) {
	p.model = m
	p.w.gen++
	p.gen = p.w.gen
}

func (p *Path) check(extra *Term) (SatResult, Model) {
	r, m := p.w.solver.Check(p.pc, extra, p.vars)
	if r == Sat {
		// keep values of variables created later on other paths at their default
		return r, m
	}
	return r, m
}

// next takes the next decision of the prefix, which must have been made about the same thing.
func (p *Path) next(tag uint64) uint64 {
	v := p.pre[p.pos]
	if p.preTags != nil && p.preTags[p.pos] != tag {
		panic(abortPath{"limit", "a replayed decision does not fit the execution"})
	}
	p.pos++
	return v
}

// choices lists the decisions that are choices among alternatives, such as those of the scheduler.
func (d *dec) choices() (vals, tags []uint64) {
	for x := d; x != nil; x = x.parent {
		if x.choice {
			vals = append(vals, x.val)
			tags = append(tags, x.tag)
		}
	}
	slices.Reverse(vals)
	slices.Reverse(tags)
	return
}

func (p *Path) push(val, tag uint64) { p.pushDec(val, tag, false) }

func (p *Path) pushDec(val, tag uint64, choice bool) {
	n := 1
	if p.cur != nil {
		n = p.cur.n + 1
	}
	p.cur = &dec{p.cur, n, val, tag, choice}
	if n > p.w.e.opt.MaxDecisions {
		panic(abortPath{"limit", "too many decisions"})
	}
}

func (p *Path) decideV(v value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return p.decide(v)
	}
	panic(unsupported(fmt.Sprintf("condition of type %T", v)))
}

// decide chooses the truth of t, scheduling the other feasible side for later.
func (p *Path) decide(t *Term) bool {
	if b, ok := p.known(t); ok {
		return b
	}
	if p.pos < len(p.pre) {
		b := p.next(t.h) != 0
		p.push(b2u(b), t.h)
		if b {
			p.addPC(t)
		} else {
			p.addPC(p.ts.Not(t))
		}
		return b
	}
	if p.noFork {
		panic(unsupported("symbolic branch where none is allowed"))
	}
	b := p.eval(t) != 0
	other := t
	if b {
		other = p.ts.Not(t)
	}
	r, m := p.check(other)
	switch r {
	case Sat:
		n := 1
		if p.cur != nil {
			n = p.cur.n + 1
		}
		p.w.e.addWork(&work{&dec{p.cur, n, b2u(!b), t.h, false}, m})
	case Unknown:
		p.inconcl++
	}
	p.push(b2u(b), t.h)
	if b {
		p.addPC(t)
	} else {
		p.addPC(p.ts.Not(t))
	}
	return b
}

// choose picks one of n alternatives, scheduling all others. The alternative is a symbolic variable decided by exploration.
func (p *Path) choose(n int, kind string) int {
	if n <= 1 {
		return 0
	}
	if p.pos < len(p.pre) {
		v := p.next(uint64(n))
		p.pushDec(v, uint64(n), true)
		return int(v)
	}
	if p.fixed != nil {
		panic(abortPath{"limit", "a choice beyond those of the counterexample"})
	}
	d := 1
	if p.cur != nil {
		d = p.cur.n + 1
	}
	for i := n - 1; i >= 1; i-- {
		p.w.e.addWork(&work{&dec{p.cur, d, uint64(i), uint64(n), true}, p.model})
	}
	p.pushDec(0, uint64(n), true)
	return 0
}

// concretize forks over the values of t.
func (p *Path) concretize(v value, w uint8) uint64 {
	switch x := v.(type) {
	case uint64:
		return x
	case *Term:
		for i := 0; ; i++ {
			if i > p.w.e.opt.MaxConcretize {
				panic(abortPath{"limit", "too many values of a symbolic quantity"})
			}
			if x.op == OConst {
				return x.val
			}
			// during replay the model may be a later one; candidates must be taken in a reproducible order
			var c uint64
			if p.pos < len(p.pre) {
				c = p.next(x.h)
				p.push(c, x.h)
			} else {
				c = p.eval(x)
				p.push(c, x.h)
			}
			if p.decide(p.ts.Eq(x, p.ts.Const(c, x.w))) {
				return c
			}
		}
	}
	panic(unsupported(fmt.Sprintf("concretization of %T", v)))
}

// assume restricts the path; an infeasible assumption ends it.
func (p *Path) assume(v value) {
	switch t := v.(type) {
	case bool:
		if !t {
			panic(abortPath{"infeasible", "assumption"})
		}
	case *Term:
		if b, ok := p.known(t); ok {
			if !b {
				panic(abortPath{"infeasible", "assumption"})
			}
			return
		}
		p.addPC(t)
		if p.pos < len(p.pre) {
			return // feasible, or this prefix would not have been scheduled with its model
		}
		if p.eval(t) != 0 {
			return
		}
		r, m := p.check(nil)
		switch r {
		case Sat:
			p.setModel(m)
		case Unsat:
			panic(abortPath{"infeasible", "assumption"})
		default:
			p.inconcl++
			panic(abortPath{"limit", "solver gave no answer on an assumption"})
		}
	default:
		panic(unsupported("assumption"))
	}
}

// assert checks that v holds for all values on this path.
func (p *Path) assert(v value, msg string) {
	p.asserts++
	switch t := v.(type) {
	case bool:
		if !t {
			p.violation("assert", msg, p.model)
		}
	case *Term:
		if b, ok := p.known(t); ok {
			if !b {
				p.violation("assert", msg, p.model)
			}
			return
		}
		if p.pos < len(p.pre) {
			// already checked when the prefix was first executed
			p.addPC(t)
			return
		}
		if p.eval(t) == 0 {
			p.violation("assert", msg, p.model)
		}
		r, m := p.check(p.ts.Not(t))
		switch r {
		case Sat:
			p.violation("assert", msg, m)
		case Unknown:
			p.inconcl++
		}
		p.addPC(t)
	default:
		panic(unsupported("assertion"))
	}
}

// valsOf lists the values of all symbolic inputs of the path under m.
func (p *Path) valsOf(m Model) map[string]uint64 {
	r := map[string]uint64{}
	for _, t := range p.vars {
		r[t.name] = m[t.name] & maskb(t.w)
	}
	for k, v := range p.chosen {
		r[k] = v
	}
	return r
}

func (p *Path) violation(kind, msg string, m Model) {
	v := &Violation{Msg: msg, Kind: kind, Where: p.where(), Vals: p.valsOf(m), Sched: p.usedSched, MapOrd: p.usedMap}
	v.Choice = p.cur.list()
	v.last = p.cur
	p.viol = v
	panic(abortPath{"violation", msg})
}

// --- variables

func (p *Path) newVar(name string, w uint8) *Term {
	k := p.names[name]
	p.names[name] = k + 1
	full := fmt.Sprintf("%s#%d", name, k)
	full = strings.ReplaceAll(full, "|", "!")
	if p.fixed != nil {
		if w == 0 {
			return p.ts.Bool(p.fixed[full] != 0)
		}
		return p.ts.Const(p.fixed[full], w)
	}
	t := p.ts.Var(full, w)
	p.vars = append(p.vars, t)
	return t
}

func (p *Path) where() string {
	if p.g == nil || p.g.fr == nil {
		return ""
	}
	var parts []string
	for fr := p.g.fr; fr != nil && len(parts) < 12; fr = fr.caller {
		pos := ""
		if fr.pos.IsValid() {
			ps := p.w.e.fset.Position(fr.pos)
			f := ps.Filename
			if i := strings.LastIndex(f, "/"); i >= 0 {
				if j := strings.LastIndex(f[:i], "/"); j >= 0 {
					f = f[j+1:]
				}
			}
			pos = fmt.Sprintf(" %s:%d", f, ps.Line)
		}
		parts = append(parts, fr.fn.name+pos)
	}
	return strings.Join(parts, " < ")
}

// --- globals and package initialisation

func (p *Path) global(g *ssa.Global) *value {
	return p.globalCell(g)
}

func (p *Path) globalCell(g *ssa.Global) *value {
	shared := p.w.e.isShared(g.Pkg)
	tab := p.globals
	if shared {
		tab = p.w.shGlobals
	}
	if c, ok := tab[g]; ok {
		return c
	}
	p.initPackage(g.Pkg)
	if c, ok := tab[g]; ok {
		return c
	}
	c := new(value)
	*c = p.w.e.initialValue(g)
	tab[g] = c
	return c
}

func (p *Path) initPackage(pkg *ssa.Package) {
	if pkg == nil {
		return
	}
	shared := p.w.e.isShared(pkg)
	ini := p.inited
	tab := p.globals
	if shared {
		ini = p.w.shInited
		tab = p.w.shGlobals
	}
	if ini[pkg] != 0 {
		return
	}
	ini[pkg] = 1
	if shared {
		p.w.e.need.add(pkg)
		p.w.shDirty = true
	}
	p.w.e.ensureBuilt(pkg)
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, ok := tab[g]; ok {
				continue
			}
			c := new(value)
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(abortPath); ok {
							*c = poison{"zero value"}
							return
						}
						panic(r)
					}
				}()
				*c = p.w.e.initialValue(g)
			}()
			tab[g] = c
		}
	}
	f := pkg.Func("init")
	if f == nil {
		return
	}
	// initialisation is deterministic and does not count
	save := p.steps
	saveS, saveR, saveM := p.schedOn, p.raceOn, p.mapOrder
	p.schedOn, p.raceOn, p.mapOrder = false, false, 0
	p.initing++
	saveNF := p.noFork
	saveSI := p.sharedInit
	p.sharedInit = shared
	if shared {
		p.noFork = true
	}
	fn := p.w.e.getFunc(f)
	p.callFn(p.curFrame(), fn, nil, nil)
	p.noFork = saveNF
	p.sharedInit = saveSI
	p.initing--
	p.schedOn, p.raceOn, p.mapOrder = saveS, saveR, saveM
	p.steps = save
	ini[pkg] = 2
}

func (p *Path) curFrame() *frame {
	if p.g == nil {
		return nil
	}
	return p.g.fr
}
