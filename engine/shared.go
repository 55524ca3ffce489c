package main

// State of the packages that are initialised once per worker (everything but the code under test and the harnesses).
// Every path starts from the state right after their initialisation: what a path changes there is undone before the next.

import (
	"sync"

	"golang.org/x/tools/go/ssa"
)

type savedCell struct {
	c *value
	v value
}

type savedMap struct {
	m    *hmap
	ents []mapEntry
	ptrs []*mapEntry
	nsym int
	n    int
}

type savedChan struct {
	c      *channel
	buf    []value
	closed bool
}

// snapshot of the shared state of a worker
type snapshot struct {
	cells []savedCell
	maps  []savedMap
	chans []savedChan
	seenC map[*value]bool
	seenM map[*hmap]bool
	seenH map[*channel]bool
	seenF map[*closure]bool
}

// sharedNeed lists the packages whose state some path needed, in order of their first use.
type sharedNeed struct {
	mu   sync.Mutex
	list []*ssa.Package
	has  map[*ssa.Package]bool
}

func (n *sharedNeed) add(pkg *ssa.Package) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.has == nil {
		n.has = map[*ssa.Package]bool{}
	}
	if !n.has[pkg] {
		n.has[pkg] = true
		n.list = append(n.list, pkg)
	}
}

func (n *sharedNeed) get() []*ssa.Package {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]*ssa.Package(nil), n.list...)
}

// immutable packages consist of tables nobody writes to.
var immutablePkgs = map[string]bool{"unicode": true, "math/bits": true, "unicode/utf8": true}

// prepareShared brings the shared packages into the state after their initialisation.
func (p *Path) prepareShared() {
	w := p.w
	for _, x := range w.shSide {
		if r, ok := x.(interface{ resetClock() }); ok {
			r.resetClock()
		}
	}
	if w.snap != nil && !w.shDirty {
		w.snap.restore()
		return
	}
	w.shGlobals = map[*ssa.Global]*value{}
	w.shInited = map[*ssa.Package]int{}
	w.shSide = map[any]any{}
	for _, pkg := range w.e.need.get() {
		p.initPackage(pkg)
	}
	w.shDirty = false
	s := &snapshot{seenC: map[*value]bool{}, seenM: map[*hmap]bool{}, seenH: map[*channel]bool{}, seenF: map[*closure]bool{}}
	for g, c := range w.shGlobals {
		if g.Pkg != nil && immutablePkgs[g.Pkg.Pkg.Path()] {
			continue
		}
		s.cell(c)
	}
	if debugEngine {
		println("shared state:", len(w.shGlobals), "globals", len(s.cells), "cells", len(s.maps), "maps")
	}
	for _, x := range w.shSide {
		if m, ok := x.(interface{ sideMap() *hmap }); ok {
			s.visit(m.sideMap())
		}
	}
	w.snap = s
}

func (s *snapshot) cell(c *value) {
	if c == nil || s.seenC[c] {
		return
	}
	s.seenC[c] = true
	s.cells = append(s.cells, savedCell{c, *c})
	s.visit(*c)
}

func (s *snapshot) visit(v value) {
	switch v := v.(type) {
	case *value:
		s.cell(v)
	case structure:
		for i := range v {
			s.cell(&v[i])
		}
	case array:
		for i := range v {
			s.cell(&v[i])
		}
	case tuple:
		for _, x := range v {
			s.visit(x)
		}
	case []value:
		v = v[:cap(v)]
		for i := range v {
			s.cell(&v[i])
		}
	case iface:
		s.visit(v.v)
	case uptr:
		s.visit(v.p)
	case *symPtr:
		if v != nil {
			s.visit([]value(v.arr))
		}
	case *closure:
		if v != nil && !s.seenF[v] {
			s.seenF[v] = true
			for _, x := range v.env {
				s.visit(x)
			}
		}
	case *channel:
		if v != nil && !s.seenH[v] {
			s.seenH[v] = true
			s.chans = append(s.chans, savedChan{v, append([]value(nil), v.buf...), v.closed})
			for _, x := range v.buf {
				s.visit(x)
			}
		}
	case *hmap:
		if v == nil || s.seenM[v] {
			return
		}
		s.seenM[v] = true
		m := savedMap{m: v, nsym: v.nsym, n: v.n}
		for _, e := range v.ents {
			if e.dead {
				continue
			}
			m.ptrs = append(m.ptrs, e)
			m.ents = append(m.ents, *e)
		}
		s.maps = append(s.maps, m)
		for _, e := range m.ptrs {
			s.visit(e.k)
			s.visit(e.v)
		}
	}
}

func (s *snapshot) restore() {
	for i := range s.cells {
		*s.cells[i].c = s.cells[i].v
	}
	for i := range s.maps {
		m := &s.maps[i]
		h := m.m
		same := h.n == m.n && len(h.ents) == len(m.ptrs) && len(h.idx)+h.nsym == h.n
		for j, e := range m.ptrs {
			*e = m.ents[j]
			if same && h.ents[j] != e {
				same = false
			}
		}
		if same {
			continue
		}
		h.ents = append([]*mapEntry(nil), m.ptrs...)
		h.idx = map[any]*mapEntry{}
		h.n, h.nsym = m.n, m.nsym
		for _, e := range m.ptrs {
			if hk, ok := hashKey(e.k); ok {
				h.idx[hk] = e
			}
		}
	}
	for i := range s.chans {
		c := s.chans[i].c
		c.buf = append([]value(nil), s.chans[i].buf...)
		c.closed = s.chans[i].closed
		c.recvq, c.sendq, c.so = nil, nil, syncObj{}
	}
}
