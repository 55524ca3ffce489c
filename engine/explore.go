package main

// Exploration of all paths of one harness by parallel workers.

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Worker struct {
	e         *Engine
	id        int
	ts        *Terms
	solver    *Solver
	gen       uint64
	shGlobals map[*ssa.Global]*value
	shInited  map[*ssa.Package]int
	shSide    map[any]any // state of synchronisation objects used in their initialisation
	shDirty   bool
	snap      *snapshot
	fin       chan struct{}
	encoded   map[*Func]bool
	pool      gorPool
}

func (e *Engine) newWorker(id int) *Worker {
	w := &Worker{e: e, id: id, encoded: map[*Func]bool{}}
	w.solver = NewSolver(e.opt.Solver, e.opt.SolverMS)
	w.recycle()
	return w
}

func (w *Worker) recycle() {
	w.ts = NewTerms()
	w.solver.Reset()
	w.shGlobals = map[*ssa.Global]*value{}
	w.shInited = map[*ssa.Package]int{}
	w.shSide = map[any]any{}
	w.snap = nil
}

type TraceSample struct {
	Vals  map[string]uint64 `json:"vals"`
	Obs   []Obs             `json:"obs"`
	Sched bool              `json:"sched,omitempty"`
	Decs  int               `json:"decisions"`
}

type Explorer struct {
	e        *Engine
	harness  *Func
	deadline time.Time
	mu       sync.Mutex
	cond     *sync.Cond
	stack    []*work
	busy     int
	stop     atomic.Bool
	timedOut atomic.Bool
	tier     int

	paths, infeasible, violated int
	steps                       int64
	decisions                   int64
	asserts                     int64
	inconcl                     int
	unsupported                 map[string]int
	limits                      map[string]int
	covers                      map[string]int
	pendingLeft                 int
	samples                     []TraceSample
	nsamp                       int
	rng                         *rand.Rand
	viols                       []*Violation
	violKeys                    map[string]int
	maxViols                    int
	preempts, maporder          int
	race                        bool
	known                       func(v *Violation) bool
	workers                     []*Worker
	sampleN                     int
	noVals                      bool
}

func (x *Explorer) expired() bool {
	if x.stop.Load() {
		return true
	}
	if time.Now().After(x.deadline) {
		x.timedOut.Store(true)
		x.stop.Store(true)
		return true
	}
	return false
}

func (e *Engine) addWork(w *work) {
	x := e.ex
	x.mu.Lock()
	x.stack = append(x.stack, w)
	x.mu.Unlock()
	x.cond.Signal()
}

func (x *Explorer) run(nw int) {
	x.cond = sync.NewCond(&x.mu)
	x.unsupported = map[string]int{}
	x.limits = map[string]int{}
	x.covers = map[string]int{}
	x.violKeys = map[string]int{}
	x.stack = []*work{{nil, Model{}}}
	x.e.ex = x
	if x.rng == nil {
		x.rng = rand.New(rand.NewSource(1))
	}
	done := make(chan struct{})
	go func() {
		// wake the waiters when time is over
		t := time.NewTicker(200 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-done:
				return
			case <-t.C:
				if x.expired() {
					x.cond.Broadcast()
				}
			}
		}
	}()
	var wg sync.WaitGroup
	for len(x.workers) < nw {
		x.workers = append(x.workers, x.e.newWorker(len(x.workers)))
	}
	for i := 0; i < nw; i++ {
		w := x.workers[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.work(w)
		}()
	}
	wg.Wait()
	close(done)
	x.pendingLeft = len(x.stack)
}

func (x *Explorer) work(w *Worker) {
	n := 0
	for {
		x.mu.Lock()
		for len(x.stack) == 0 && x.busy > 0 && !x.stop.Load() {
			x.cond.Wait()
		}
		if len(x.stack) == 0 || x.stop.Load() {
			x.mu.Unlock()
			x.cond.Broadcast()
			return
		}
		wk := x.stack[len(x.stack)-1]
		x.stack = x.stack[:len(x.stack)-1]
		x.busy++
		x.mu.Unlock()

		p := w.newPath(wk, x)
		w.runPath(p, x.harness)
		x.finish(p)

		x.mu.Lock()
		x.busy--
		if x.busy == 0 && len(x.stack) == 0 {
			x.cond.Broadcast()
		}
		x.mu.Unlock()
		n++
		if w.ts.next > 3_000_000 {
			w.recycle()
		}
	}
}

func (w *Worker) newPath(wk *work, x *Explorer) *Path {
	p := &Path{
		w: w, ts: w.ts, pre: wk.pre.list(), preTags: wk.pre.tags(),
		pcset: map[*Term]bool{}, names: map[string]int{},
		maxSteps: w.e.opt.MaxSteps,
		globals:  map[*ssa.Global]*value{}, inited: map[*ssa.Package]int{},
		shadow: map[any]*shadowCell{}, tables: map[any]any{}, covers: map[string]bool{}, chosen: map[string]uint64{},
	}
	p.setModel(wk.model)
	return p
}

func (w *Worker) runPath(p *Path, h *Func) {
	w.fin = make(chan struct{}, 1)
	p.runMain(func() {
		p.prepareShared()
		p.callFn(nil, h, nil, nil)
	})
}

// concretely executes the harness again with the inputs and choices of a counterexample and reports whether it fails the same way.
func (x *Explorer) concretely(w *Worker, v *Violation) (bool, string) {
	pre, tags := v.last.choices()
	p := &Path{
		w: w, ts: w.ts, pre: pre, preTags: tags, fixed: v.Vals,
		pcset: map[*Term]bool{}, names: map[string]int{},
		maxSteps: w.e.opt.MaxSteps,
		globals:  map[*ssa.Global]*value{}, inited: map[*ssa.Package]int{},
		shadow: map[any]*shadowCell{}, tables: map[any]any{}, covers: map[string]bool{}, chosen: map[string]uint64{},
	}
	if p.fixed == nil {
		p.fixed = map[string]uint64{}
	}
	p.setModel(Model{})
	x.stop.Store(false)
	x.deadline = time.Now().Add(60 * time.Second)
	w.runPath(p, x.harness)
	if p.abort != nil && p.abort.kind == "panic" {
		if v.Kind == "panic" && v.Msg == "panic: "+p.panicMsg() {
			return true, ""
		}
		return false, "panic: " + p.panicMsg()
	}
	if p.viol == nil {
		if p.abort != nil {
			return false, p.abort.kind + ": " + p.abort.msg
		}
		return false, fmt.Sprintf("no failure (%d of %d choices used)", p.pos, len(p.pre))
	}
	if p.viol.Kind == v.Kind && p.viol.Msg == v.Msg {
		return true, ""
	}
	return false, p.viol.Kind + ": " + p.viol.Msg
}

func (x *Explorer) finish(p *Path) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.steps += int64(p.steps)
	if p.cur != nil {
		x.decisions += int64(p.cur.n)
	}
	x.asserts += int64(p.asserts)
	x.inconcl += p.inconcl
	if p.abort != nil {
		switch p.abort.kind {
		case "infeasible":
			x.infeasible++
			return
		case "unsupported":
			x.unsupported[p.abort.msg]++
			if debugEngine && x.unsupported[p.abort.msg] == 1 {
				fmt.Println("UNSUPPORTED", p.abort.msg, "\n   at", p.where())
			}
			x.paths++
			return
		case "limit":
			x.limits[p.abort.msg]++
			if debugEngine && x.limits[p.abort.msg] == 1 {
				fmt.Println("LIMIT", p.abort.msg, "\n   at", p.where())
			}
			x.paths++
			return
		case "timeout", "killed":
			x.pendingLeft++
			return
		case "done":
		case "panic":
			v := &Violation{Msg: "panic: " + p.panicMsg(), Kind: "panic", Where: p.panicOut.where, Vals: p.valsOf(p.model), Sched: p.usedSched, MapOrd: p.usedMap}
			v.Choice = p.cur.list()
			v.last = p.cur
			p.viol = v
		}
	}
	x.paths++
	for c := range p.covers {
		x.covers[c]++
	}
	if p.viol != nil {
		x.violated++
		v := p.viol
		for _, o := range p.obs {
			func() {
				defer func() { recover() }()
				v.Obs = append(v.Obs, Obs{o.name, p.showObs(o.v, v.Vals)})
			}()
		}
		key := v.Kind + "|" + v.Msg
		if i := strings.Index(key, " by goroutine"); i > 0 {
			key = key[:i]
		}
		x.violKeys[key]++
		if x.violKeys[key] <= 3 && len(x.viols) < 60 {
			x.viols = append(x.viols, v)
		}
		if len(x.violKeys) >= x.maxViols || x.violated > 400 {
			x.stop.Store(true)
			x.cond.Broadcast()
		}
		return
	}
	// reservoir of validated traces
	x.nsamp++
	if len(x.samples) < x.sampleN {
		x.samples = append(x.samples, x.sample(p))
	} else if x.sampleN > 0 {
		if k := x.rng.Intn(x.nsamp); k < x.sampleN {
			x.samples[k] = x.sample(p)
		}
	}
}

func (x *Explorer) sample(p *Path) TraceSample {
	s := TraceSample{Vals: p.valsOf(p.model), Sched: p.usedSched || p.usedMap}
	if p.cur != nil {
		s.Decs = p.cur.n
	}
	for _, o := range p.obs {
		func() {
			defer func() {
				if r := recover(); r != nil {
					s.Obs = append(s.Obs, Obs{o.name, "?"})
				}
			}()
			s.Obs = append(s.Obs, Obs{o.name, p.showObs(o.v, s.Vals)})
		}()
	}
	return s
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
