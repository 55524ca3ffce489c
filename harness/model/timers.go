package model

import (
	"sync"
	"time"
)

// Idle waits until nobody else can run, for the given time among those who wait.
func Idle(d int64) {}

// timer is running while its round is odd.
type timer struct {
	round int
	f     func()
}

func timerOf(key any) *timer {
	s, _ := Attached(key).(*timer)
	if s == nil {
		s = new(timer)
		Attach(key, s)
	}
	return s
}

// start runs f when nobody else can run, unless the timer was stopped or started again meanwhile.
func start(key any, d time.Duration, again bool, f func()) {
	var s *timer
	round := 0
	Quiet(func() {
		s = timerOf(key)
		s.f = f
		s.round += 1 + s.round%2
		round = s.round
	})
	go func() {
		for on := true; on; {
			Idle(int64(d))
			Quiet(func() {
				on = s.round == round
				if on && !again {
					s.round++
				}
			})
			if on {
				f()
			}
			on = on && again
		}
	}()
}

// stop says if the timer was running.
func stop(key any) (was bool) {
	Quiet(func() {
		s := timerOf(key)
		was = s.round%2 == 1
		if was {
			s.round++
		}
	})
	return
}

func send(c chan time.Time) func() {
	return func() {
		select {
		case c <- time.Now():
		default:
		}
	}
}

//gosym:replace time.NewTimer
func newTimer(d time.Duration) *time.Timer {
	c := make(chan time.Time, 1)
	t := &time.Timer{C: c}
	start(t, d, false, send(c))
	return t
}

//gosym:replace time.AfterFunc
func afterFunc(d time.Duration, f func()) *time.Timer {
	t := new(time.Timer)
	start(t, d, false, f)
	return t
}

//gosym:replace time.After
func after(d time.Duration) <-chan time.Time { return newTimer(d).C }

//gosym:replace (*time.Timer).Stop
func timerStop(t *time.Timer) bool { return stop(t) }

//gosym:replace (*time.Timer).Reset
func timerReset(t *time.Timer, d time.Duration) bool {
	was := stop(t)
	var f func()
	Quiet(func() { f = timerOf(t).f })
	start(t, d, false, f)
	return was
}

//gosym:replace time.NewTicker
func newTicker(d time.Duration) *time.Ticker {
	c := make(chan time.Time, 1)
	t := &time.Ticker{C: c}
	start(t, d, true, send(c))
	return t
}

//gosym:replace time.Tick
func tick(d time.Duration) <-chan time.Time { return newTicker(d).C }

//gosym:replace (*time.Ticker).Stop
func tickerStop(t *time.Ticker) { stop(t) }

//gosym:replace (*time.Ticker).Reset
func tickerReset(t *time.Ticker, d time.Duration) {
	stop(t)
	var f func()
	Quiet(func() { f = timerOf(t).f })
	start(t, d, true, f)
}

type cond struct{ waiting []chan struct{} }

func condOf(c *sync.Cond) *cond {
	s, _ := Attached(c).(*cond)
	if s == nil {
		s = new(cond)
		Attach(c, s)
	}
	return s
}

//gosym:replace (*sync.Cond).Wait
func condWait(c *sync.Cond) {
	ch := make(chan struct{})
	Quiet(func() { s := condOf(c); s.waiting = append(s.waiting, ch) })
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

//gosym:replace (*sync.Cond).Signal
func condSignal(c *sync.Cond) {
	var ch chan struct{}
	Quiet(func() {
		if s := condOf(c); len(s.waiting) > 0 {
			ch, s.waiting = s.waiting[0], s.waiting[1:]
		}
	})
	if ch != nil {
		close(ch)
	}
}

//gosym:replace (*sync.Cond).Broadcast
func condBroadcast(c *sync.Cond) {
	var all []chan struct{}
	Quiet(func() { s := condOf(c); all, s.waiting = s.waiting, nil })
	for _, ch := range all {
		close(ch)
	}
}
