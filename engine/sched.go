package main

// Goroutines, channels and synchronisation of interpreted programs. Exactly one goroutine runs at a time; the
// baton is handed over explicitly, and in schedule exploration every choice is a decision of the path.

import (
	"fmt"
	"go/token"
	"sync"
)

type gor struct {
	id      int
	wake    chan bool // true: run, false: die
	fr      *frame
	ready   func() bool // non-nil while blocked
	done    bool
	started bool
	vc      []int
	name    string
	why     string
	idle    bool  // waits until nobody else can run
	due     int64 // when, in virtual time
}

// spawn creates a goroutine that will run f.
func (p *Path) spawn(name string, f func()) *gor {
	g := &gor{id: len(p.gs), wake: make(chan bool, 1), name: name}
	p.gs = append(p.gs, g)
	if len(p.gs) > 4000 {
		panic(abortPath{"limit", "too many goroutines"})
	}
	if p.g != nil {
		g.vc = append([]int(nil), p.g.vc...)
		p.tick(p.g)
	}
	p.tick(g)
	p.w.pool.run(func() {
		if !<-g.wake {
			return
		}
		defer func() {
			r := recover()
			g.done = true
			switch r := r.(type) {
			case nil:
			case abortPath:
				if r.kind == "killed" {
					return
				}
				if p.abort == nil {
					p.abort = &r
				}
			case targetPanic:
				if p.abort == nil {
					p.panicOut = &r
					p.abort = &abortPath{"panic", ""}
				}
			default:
				if p.abort == nil {
					p.abort = &abortPath{"unsupported", fmt.Sprintf("engine: %v", r)}
					if debugEngine {
						p.abort.msg += "\n" + string(stack())
					}
				}
			}
			if p.abort != nil || g.id == 0 {
				p.w.fin <- struct{}{}
				return
			}
			// hand over to somebody else
			n := p.pickNext(nil)
			if n == nil {
				if p.abort == nil {
					p.deadlock()
				}
				p.w.fin <- struct{}{}
				return
			}
			p.g = n
			n.wake <- true
		}()
		f()
	})
	return g
}

// gorPool keeps goroutines whose stacks have grown already.
type gorPool struct {
	mu   sync.Mutex
	idle []chan func()
}

func (q *gorPool) run(f func()) {
	q.mu.Lock()
	var c chan func()
	if n := len(q.idle); n > 0 {
		c = q.idle[n-1]
		q.idle = q.idle[:n-1]
	}
	q.mu.Unlock()
	if c == nil {
		c = make(chan func(), 1)
		go func() {
			for f := range c {
				f()
				f = nil
				q.mu.Lock()
				if len(q.idle) >= 64 {
					q.mu.Unlock()
					return
				}
				q.idle = append(q.idle, c)
				q.mu.Unlock()
			}
		}()
	}
	c <- f
}

func (p *Path) deadlock() {
	// the main goroutine is blocked and nobody can run
	msg := "all goroutines are asleep - deadlock:"
	for _, g := range p.gs {
		if !g.done {
			msg += fmt.Sprintf(" [g%d %s: %s]", g.id, g.name, g.why)
		}
	}
	v := &Violation{Msg: msg, Kind: "deadlock", Vals: p.valsOf(p.model), Sched: p.usedSched, MapOrd: p.usedMap}
	v.Choice = p.cur.list()
	v.last = p.cur
	if g := p.gs[0]; g != nil {
		save := p.g
		p.g = g
		v.Where = p.where()
		p.g = save
	}
	p.viol = v
	p.abort = &abortPath{"violation", msg}
}

func (g *gor) runnable() bool {
	if g.done {
		return false
	}
	return g.ready == nil || g.ready()
}

// pickNext selects the goroutine to run when cur cannot continue (cur == nil) or may be preempted.
func (p *Path) pickNext(cur *gor) (res *gor) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abortPath); ok {
				if p.abort == nil {
					p.abort = &a
				}
				res = nil
				return
			}
			panic(r)
		}
	}()
	var cands []*gor
	n := len(p.gs)
	start := 0
	if p.g != nil {
		start = p.g.id + 1
	}
	for i := 0; i < n; i++ {
		g := p.gs[(start+i)%n]
		if g.runnable() {
			cands = append(cands, g)
		}
	}
	if len(cands) == 0 {
		// time passes only when everybody waits
		for _, g := range p.gs {
			if !g.done && g.idle && (res == nil || g.due < res.due) {
				res = g
			}
		}
		if res != nil {
			res.idle = false
			p.vtime = res.due
		}
		return res
	}
	if len(cands) == 1 || !p.schedOn {
		return cands[0]
	}
	p.usedSched = true
	if p.delay {
		n := min(len(cands), p.preempt+1)
		if n <= 1 {
			return cands[0]
		}
		c := p.choose(n, "delay")
		p.preempt -= c
		return cands[c]
	}
	return cands[p.choose(len(cands), "sched")]
}

// idle suspends the current goroutine until nobody else can run, for the given time.
func (p *Path) idle(d int64) {
	g := p.g
	g.idle, g.due = true, p.vtime+d
	p.block("timer", func() bool { return !g.idle })
	g.idle = false
}

// block suspends the current goroutine until ready() holds.
func (p *Path) block(why string, ready func() bool) {
	g := p.g
	if ready() {
		return
	}
	g.ready = ready
	g.why = why
	n := p.pickNext(nil)
	if n == nil {
		if p.abort == nil {
			p.deadlock()
		}
		panic(*p.abort)
	}
	if n != g {
		p.switchTo(n)
	}
	g.ready = nil
}

func (p *Path) switchTo(n *gor) {
	g := p.g
	p.g = n
	n.wake <- true
	if !<-g.wake {
		panic(abortPath{"killed", ""})
	}
	p.g = g
}

// yield is a scheduling point: in schedule exploration the current goroutine may be preempted here.
func (p *Path) yield() {
	if !p.schedOn || p.preempt <= 0 {
		return
	}
	g := p.g
	var cands []*gor
	for i := range p.gs {
		if h := p.gs[(g.id+1+i)%len(p.gs)]; h != g && h.runnable() {
			cands = append(cands, h)
		}
	}
	if len(cands) == 0 {
		return
	}
	p.usedSched = true
	n := len(cands)
	if p.delay {
		n = min(n, p.preempt)
	}
	c := p.choose(n+1, "preempt")
	if c == 0 {
		return
	}
	if p.delay {
		p.preempt -= c
	} else {
		p.preempt--
	}
	p.switchTo(cands[c-1])
}

// runMain runs f as goroutine 0 until it or the path ends, then kills the others.
func (p *Path) runMain(f func()) {
	g := p.spawn("main", f)
	p.g = g
	g.wake <- true
	<-p.w.fin
	p.killed = true
	for _, h := range p.gs {
		if h != g || !h.done {
			if !h.done {
				h.done = true
				select {
				case h.wake <- false:
				default:
					// not waiting: it is the goroutine that ended the path
				}
			}
		}
	}
}

// --- vector clocks

func (p *Path) tick(g *gor) {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func joinVC(a, b []int) []int {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

type syncObj struct{ vc []int }

func (p *Path) acquire(o *syncObj) {
	if p.raceOn {
		p.g.vc = joinVC(p.g.vc, o.vc)
	}
}

func (p *Path) release(o *syncObj) {
	if p.raceOn {
		o.vc = joinVC(o.vc, p.g.vc)
		p.tick(p.g)
	}
}

type shadowCell struct {
	wg, wc int
	wpos   token.Pos
	wset   bool
	reads  map[int]int
	rpos   map[int]token.Pos
}

func (p *Path) raceCell(loc any) *shadowCell {
	s := p.shadow[loc]
	if s == nil {
		s = &shadowCell{}
		p.shadow[loc] = s
	}
	return s
}

func (g *gor) knows(id, c int) bool { return id < len(g.vc) && g.vc[id] >= c }

func (p *Path) posStr(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.w.e.fset.Position(pos)
	return fmt.Sprintf("%s:%d", shortFile(ps.Filename), ps.Line)
}

func (p *Path) raceRead(loc any, v value) {
	if p.initing > 0 {
		return
	}
	switch v := v.(type) {
	case structure:
		for i := range v {
			p.raceRead(&v[i], v[i])
		}
		return
	case array:
		if len(v) > 16 {
			break
		}
		for i := range v {
			p.raceRead(&v[i], v[i])
		}
		return
	}
	s := p.raceCell(loc)
	g := p.g
	if s.wset && s.wg != g.id && !g.knows(s.wg, s.wc) {
		p.race("read", s.wg, s.wpos)
	}
	if s.reads == nil {
		s.reads = map[int]int{}
		s.rpos = map[int]token.Pos{}
	}
	s.reads[g.id] = g.vc[g.id]
	s.rpos[g.id] = p.pos0()
}

func (p *Path) raceWrite(loc any, v value) {
	if p.initing > 0 {
		return
	}
	switch v := v.(type) {
	case structure:
		for i := range v {
			p.raceWrite(&v[i], v[i])
		}
		return
	case array:
		if len(v) > 16 {
			break
		}
		for i := range v {
			p.raceWrite(&v[i], v[i])
		}
		return
	}
	s := p.raceCell(loc)
	g := p.g
	if s.wset && s.wg != g.id && !g.knows(s.wg, s.wc) {
		p.race("write", s.wg, s.wpos)
	}
	for id := range p.gs {
		if c, ok := s.reads[id]; ok && id != g.id && !g.knows(id, c) {
			p.race("write", id, s.rpos[id])
		}
	}
	s.wset, s.wg, s.wc, s.wpos = true, g.id, g.vc[g.id], p.pos0()
	s.reads, s.rpos = nil, nil
}

func (p *Path) pos0() token.Pos {
	for fr := p.g.fr; fr != nil; fr = fr.caller {
		if fr.pos.IsValid() {
			return fr.pos
		}
	}
	return token.NoPos
}

func (p *Path) race(what string, other int, opos token.Pos) {
	p.usedSched = true
	p.violation("race", fmt.Sprintf("data race: %s at %s by goroutine %d (%s) and unsynchronised access at %s by goroutine %d (%s)", what, p.posStr(p.pos0()), p.g.id, p.g.name, p.posStr(opos), other, p.gs[other].name), p.model)
}

// --- channels

type waiter struct {
	g    *gor
	val  value
	ok   bool
	done bool
	sel  *selState
	idx  int
	so   *syncObj
}

type selState struct {
	fired bool
	idx   int
	val   value
	ok    bool
	panic bool
}

type channel struct {
	cap    int
	buf    []value
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	so     syncObj
	id     int
}

func (p *Path) makeChan(n int) *channel {
	p.nextID++
	return &channel{cap: n, id: p.nextID}
}

func (w *waiter) live() bool { return !w.done && (w.sel == nil || !w.sel.fired) }

func popLive(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.live() {
			return w
		}
	}
	return nil
}

func peekLive(q *[]*waiter) bool {
	for len(*q) > 0 {
		if (*q)[0].live() {
			return true
		}
		*q = (*q)[1:]
	}
	return false
}

func (w *waiter) fire(v value, ok bool) {
	w.done = true
	w.val, w.ok = v, ok
	if w.sel != nil {
		w.sel.fired = true
		w.sel.idx = w.idx
		w.sel.val, w.sel.ok = v, ok
	}
}

func (p *Path) trySend(c *channel, v value) bool {
	if c.closed {
		panic(p.plainPanic("send on closed channel"))
	}
	if w := popLive(&c.recvq); w != nil {
		p.release(&c.so)
		p.acquire(&c.so)
		w.fire(v, true)
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		p.release(&c.so)
		return true
	}
	return false
}

func (p *Path) tryRecv(c *channel) (v value, ok, did bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		if w := popLive(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			w.fire(nil, true)
		}
		p.acquire(&c.so)
		p.release(&c.so)
		return v, true, true
	}
	if w := popLive(&c.sendq); w != nil {
		v = w.val
		w.fire(nil, true)
		p.acquire(&c.so)
		p.release(&c.so)
		return v, true, true
	}
	if c.closed {
		p.acquire(&c.so)
		return nil, false, true
	}
	return nil, false, false
}

func (p *Path) send(c *channel, v value) {
	p.yield()
	if c == nil {
		p.block("send on nil channel", func() bool { return false })
	}
	if p.trySend(c, v) {
		return
	}
	p.release(&c.so)
	w := &waiter{g: p.g, val: v}
	c.sendq = append(c.sendq, w)
	p.block("chan send", func() bool { return w.done || c.closed })
	if !w.done {
		w.done = true
		panic(p.plainPanic("send on closed channel"))
	}
	p.acquire(&c.so)
}

func (p *Path) recv(c *channel, zero value) (value, bool) {
	p.yield()
	if c == nil {
		p.block("receive from nil channel", func() bool { return false })
	}
	if v, ok, did := p.tryRecv(c); did {
		if !ok {
			return zero, false
		}
		return v, true
	}
	p.release(&c.so)
	w := &waiter{g: p.g}
	c.recvq = append(c.recvq, w)
	p.block("chan receive", func() bool { return w.done || c.closed })
	p.acquire(&c.so)
	if !w.done {
		w.done = true
		return zero, false
	}
	return w.val, w.ok
}

func (p *Path) closeChan(c *channel) {
	p.yield()
	if c == nil {
		panic(p.plainPanic("close of nil channel"))
	}
	if c.closed {
		panic(p.plainPanic("close of closed channel"))
	}
	p.release(&c.so)
	c.closed = true
	// waiters observe c.closed in their ready condition
	for _, w := range c.recvq {
		if w.live() && w.sel != nil {
			w.fire(nil, false)
		}
	}
	for _, w := range c.sendq {
		if w.live() && w.sel != nil {
			w.fire(nil, false)
			w.sel.panic = true
		}
	}
}

type selCase struct {
	c    *channel
	send bool
	v    value
	zero value
}

// selectOp returns the chosen case (-1: default), the received value and ok.
func (p *Path) selectOp(cases []selCase, blocking bool) (int, value, bool) {
	p.yield()
	var ready []int
	for i, sc := range cases {
		if sc.c == nil {
			continue
		}
		if sc.send {
			if sc.c.closed || peekLive(&sc.c.recvq) || len(sc.c.buf) < sc.c.cap {
				ready = append(ready, i)
			}
		} else if len(sc.c.buf) > 0 || peekLive(&sc.c.sendq) || sc.c.closed {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 && p.schedOn {
			p.usedSched = true
			k = p.choose(len(ready), "select")
		}
		i := ready[k]
		sc := cases[i]
		if sc.send {
			if !p.trySend(sc.c, sc.v) {
				panic(unsupported("select send"))
			}
			return i, nil, false
		}
		v, ok, did := p.tryRecv(sc.c)
		if !did {
			panic(unsupported("select receive"))
		}
		if !ok {
			v = sc.zero
		}
		return i, v, ok
	}
	if !blocking {
		return -1, nil, false
	}
	st := &selState{}
	for i, sc := range cases {
		if sc.c == nil {
			continue
		}
		p.release(&sc.c.so)
		w := &waiter{g: p.g, val: sc.v, sel: st, idx: i}
		if sc.send {
			sc.c.sendq = append(sc.c.sendq, w)
		} else {
			sc.c.recvq = append(sc.c.recvq, w)
		}
	}
	p.block("select", func() bool { return st.fired })
	sc := cases[st.idx]
	p.acquire(&sc.c.so)
	if st.panic {
		panic(p.plainPanic("send on closed channel"))
	}
	if sc.send {
		return st.idx, nil, false
	}
	if !st.ok {
		return st.idx, sc.zero, false
	}
	return st.idx, st.val, true
}

// --- sync primitives, keyed by the address of the Go object

type mutexState struct {
	so      syncObj
	wlocked bool
	readers int
	owner   int
}

type wgState struct {
	so syncObj
	n  int64
}

func (p *Path) side(kind string, ptr any, mk func() any) any {
	type k struct {
		kind string
		p    any
	}
	key := k{kind, ptr}
	if s, ok := p.tables[key]; ok {
		return s
	}
	if s, ok := p.w.shSide[key]; ok {
		return s
	}
	s := mk()
	if p.sharedInit && (kind == "once" || kind == "smap") {
		p.w.shSide[key] = s
	} else {
		p.tables[key] = s
	}
	return s
}

func (p *Path) mutex(ptr value) *mutexState {
	if c, ok := ptr.(*value); !ok || c == nil {
		panic(p.nilDeref())
	}
	return p.side("mu", ptr, func() any { return &mutexState{} }).(*mutexState)
}

func (p *Path) lock(ptr value) {
	m := p.mutex(ptr)
	p.yield()
	p.block("mutex lock", func() bool { return !m.wlocked && m.readers == 0 })
	m.wlocked = true
	m.owner = p.g.id
	p.acquire(&m.so)
}

func (p *Path) tryLock(ptr value) bool {
	m := p.mutex(ptr)
	p.yield()
	if m.wlocked || m.readers > 0 {
		return false
	}
	m.wlocked = true
	p.acquire(&m.so)
	return true
}

func (p *Path) unlock(ptr value) {
	m := p.mutex(ptr)
	if !m.wlocked {
		panic(p.fatal("sync: unlock of unlocked mutex"))
	}
	m.wlocked = false
	p.release(&m.so)
	p.yield()
}

func (p *Path) rlock(ptr value) {
	m := p.mutex(ptr)
	p.yield()
	p.block("rwmutex rlock", func() bool { return !m.wlocked })
	m.readers++
	p.acquire(&m.so)
}

func (p *Path) runlock(ptr value) {
	m := p.mutex(ptr)
	if m.readers == 0 {
		panic(p.fatal("sync: RUnlock of unlocked RWMutex"))
	}
	m.readers--
	p.release(&m.so)
	p.yield()
}

func (p *Path) wg(ptr value) *wgState {
	if c, ok := ptr.(*value); !ok || c == nil {
		panic(p.nilDeref())
	}
	return p.side("wg", ptr, func() any { return &wgState{} }).(*wgState)
}

func (p *Path) wgAdd(ptr value, d int64) {
	w := p.wg(ptr)
	p.yield()
	if d < 0 {
		p.release(&w.so)
	}
	w.n += d
	if w.n < 0 {
		panic(p.plainPanic("sync: negative WaitGroup counter"))
	}
}

func (p *Path) wgWait(ptr value) {
	w := p.wg(ptr)
	p.yield()
	p.block("WaitGroup.Wait", func() bool { return w.n == 0 })
	p.acquire(&w.so)
}

// atomicSync makes an atomic access to the cell an acquire/release operation.
func (p *Path) atomicSync(ptr value) {
	p.yield()
	if !p.raceOn {
		return
	}
	o := p.side("at", ptr, func() any { return &syncObj{} }).(*syncObj)
	p.acquire(o)
	p.release(o)
}

func (p *Path) fatal(msg string) targetPanic { return p.plainPanic("fatal error: " + msg) }
