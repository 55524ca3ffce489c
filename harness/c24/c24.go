// Package c24: progress statistics are consistent, nil-safe and frozen once done.
package c24

import (
	"errors"
	"sync"

	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	_ "github.com/FAU-CDI/hangover/internal/zverif/model/env"
	"github.com/FAU-CDI/hangover/internal/zverif/sym"
)

// stage is what is recorded of a stage.
type stage struct {
	name           stats.Stage
	current, total int
}

// record is the specification.
type record struct {
	all     []stage // completed stages in order
	running stage
	done    bool
	istats  igraph.Stats
}

func (r *record) end() (prev stage) {
	prev = r.running
	if prev.name != stats.StageInitial {
		r.all = append(r.all, prev)
	} else {
		prev = stage{}
	}
	r.running = stage{}
	return
}

func is(s stats.StageStats, w stage) {
	sym.Assert(s.Stage == w.name, "a stage has its name")
	sym.Assert(s.Current == w.current && s.Total == w.total, "a stage has its last counts")
}

// check compares everything that is reported.
func (r *record) check(st *stats.Stats) {
	all := st.All()
	want := r.all
	if r.running.name != stats.StageInitial {
		want = append(want[:len(want):len(want)], r.running)
	}
	sym.Assert(len(all) == len(want), "exactly the completed stages and the running one")
	for i := range want {
		is(all[i], want[i])
	}
	is(st.Current(), r.running)
	sym.Assert(st.Done() == r.done, "done once closed")
	p := st.Progress()
	sym.Assert(p.Done == r.done, "progress is done once closed")
	if r.done {
		sym.Assert(p.Stage == "" && p.Current == 0 && p.Total == 0, "progress reports nothing else once done")
	} else {
		sym.Assert(p.Stage == r.running.name && p.Current == r.running.current && p.Total == r.running.total, "progress is that of the running stage")
	}
	sym.Assert(st.IndexStats() == r.istats, "the index statistics stored last")
	// what was returned is a copy
	for i := range all {
		all[i] = stats.StageStats{Stage: "changed"}
	}
}

var errStage = errors.New("stage failed")

var names = [...]stats.Stage{"a", "b", stats.StageInitial}

// op applies one arbitrary operation.
func (r *record) op(st *stats.Stats, depth int) {
	n := 7
	if depth == 0 {
		n = 6
	}
	switch sym.Choose("op", n) {
	case 0:
		s := names[sym.Choose("stage", 3)]
		st.Start(s)
		if !r.done {
			r.end()
			r.running.name = s
		}
	case 1:
		c, t := int(sym.I64("current")), int(sym.I64("total"))
		st.SetCT(c, t)
		if !r.done {
			r.running.current, r.running.total = c, t
		}
	case 2:
		got := st.End()
		var want stage
		if !r.done {
			want = r.end()
		}
		is(got, want)
	case 3:
		st.Close()
		r.done = true
		sym.Cover("closed")
	case 4:
		is := igraph.Stats{DirectTriples: sym.U64("direct"), InverseTriples: 2}
		st.StoreIndexStats(is)
		if !r.done {
			r.istats = is
		}
	case 5:
		st.Log("message", "key", 1)
		st.LogDebug("message")
		st.LogError("message", errStage)
		st.Diff()
	case 6:
		s := names[sym.Choose("stage", 3)]
		was := r.done
		if !was {
			r.end()
			r.running.name = s
		}
		var want error
		if sym.Bool("fails") {
			want = errStage
		}
		ran := 0
		err := st.DoStage(s, func() error {
			ran++
			r.check(st)
			r.op(st, depth-1)
			r.check(st)
			return want
		})
		if !was {
			r.end() // a stage that was started before is completed even if closed meanwhile
		}
		sym.Assert(ran == 1, "a stage is run once")
		sym.Assert(err == want, "the error of a stage is passed through")
		sym.Cover("stage")
	}
}

// H_Sequence: every sequence of calls.
// Bounds: all sequences of 3 (thorough: 4) calls out of Start, SetCT, End, Close, StoreIndexStats, logging, and DoStage around one more call; two stages and the initial one, arbitrary counts.
//gosym:time=150
func H_Sequence() {
	st := stats.NewStats(nil)
	r := new(record)
	for k := 0; k < 3+sym.Tier(); k++ {
		r.op(st, 1)
		r.check(st)
	}
}

// H_Updates: the update handler sees every update when it has been made.
// Bounds: all sequences of 3 calls; the handler reads everything.
//gosym:time=60
func H_Updates() {
	st := stats.NewStats(nil)
	r := new(record)
	calls := 0
	st.OnUpdate = func(s *stats.Stats) {
		sym.Assert(s == st, "the handler gets the statistics")
		calls++
		s.All()
		s.Current()
		s.Progress()
		s.IndexStats()
	}
	c := int(sym.I64("current"))
	want := 0
	for k := 0; k < 3; k++ {
		switch sym.Choose("op", 4) {
		case 0:
			st.Start("a")
			if !r.done {
				want++
				r.end()
				r.running.name = "a"
			}
		case 1:
			st.SetCT(c, 7)
			if !r.done {
				want++
				r.running.current, r.running.total = c, 7
			}
		case 2:
			st.End()
			if !r.done {
				want++
				r.end()
			}
		case 3:
			st.Close()
			r.done = true
		}
		sym.Assert(calls == want, "every update is announced once")
		r.check(st)
	}
	sym.Cover("updates")
}

type nowhere struct{ n int }

func (w *nowhere) Write(b []byte) (int, error) { w.n += len(b); return len(b), nil }

// H_Written: statistics that are written somewhere report the same.
// Bounds: all sequences of 2 calls as in H_Sequence with two counts.
//gosym:time=60
func H_Written() {
	w := new(nowhere)
	st := stats.NewStats(w)
	r := new(record)
	for k := 0; k < 3; k++ {
		switch sym.Choose("op", 3) {
		case 0:
			st.Start("a")
			if !r.done {
				r.end()
				r.running.name = "a"
			}
		case 1:
			c := sym.Choose("current", 2)
			st.SetCT(c, 1)
			if !r.done {
				r.running.current, r.running.total = c, 1
			}
		case 2:
			err := st.DoStage("b", func() error { return errStage })
			sym.Assert(err == errStage, "the error of a stage is passed through")
			r.end()
			r.running.name = "b"
			r.end()
		}
		r.check(st)
	}
	sym.Assert(w.n > 0, "something is written")
	sym.Cover("written")
}

// H_Nil: statistics that are not there.
// Bounds: every call on a nil object, with arbitrary counts, and stages that fail or not.
func H_Nil() {
	var st *stats.Stats
	st.Start("a")
	st.SetCT(int(sym.I64("current")), int(sym.I64("total")))
	is(st.End(), stage{})
	st.StoreIndexStats(igraph.Stats{DirectTriples: 1})
	st.Log("message")
	st.LogDebug("message")
	st.LogError("message", errStage)
	sym.Assert(st.Rewritable() == nil, "nothing is written")
	st.Diff()
	var want error
	if sym.Bool("fails") {
		want = errStage
	}
	ran := 0
	err := st.DoStage("a", func() error { ran++; return want })
	sym.Assert(ran == 1 && err == want, "a stage is run once and its error passed through")
	st.Close()
	(&record{done: true}).check(st)
	sym.Cover("nil")
}

// H_Concurrent: updates and readers at the same time.
// Bounds: one goroutine that starts a stage, counts twice and ends or closes, one that counts and stores index statistics, one that reads everything; all schedules with up to 3 delays (4 in the thorough tier); data races are violations; with and without an output.
//gosym:time=150
func H_Concurrent() {
	sym.Races(true)
	st := stats.NewStats(nil)
	if sym.Bool("written") {
		st = stats.NewStats(new(nowhere))
	}
	st.Start("a")
	last := sym.Choose("last", 3)
	sym.Delays(3 + sym.Tier())
	var wg sync.WaitGroup
	wg.Add(3)
	go func() {
		defer wg.Done()
		st.SetCT(1, 1)
		switch last {
		case 0:
			st.End()
		case 1:
			st.Close()
		case 2:
			st.DoStage("b", func() error { st.SetCT(3, 3); return nil })
		}
	}()
	go func() {
		defer wg.Done()
		st.SetCT(2, 2)
		st.StoreIndexStats(igraph.Stats{DirectTriples: 5, InverseTriples: 5})
	}()
	go func() {
		defer wg.Done()
		consistent(st)
	}()
	wg.Wait()
	consistent(st)
	sym.Cover("ran")
}

// consistent reads everything and looks for mixtures.
func consistent(st *stats.Stats) {
	for _, s := range st.All() {
		sym.Assert(s.Current == s.Total, "no mixture of two updates")
	}
	c := st.Current()
	sym.Assert(c.Current == c.Total, "no mixture of two updates")
	p := st.Progress()
	sym.Assert(p.Current == p.Total && !(p.Done && p.Stage != ""), "no mixture of two updates")
	is := st.IndexStats()
	sym.Assert(is.DirectTriples == is.InverseTriples, "no mixture of two updates")
}
