//go:build go1.21

package simrt

import (
	"sort"
	"time"
)

type timer struct {
	at  int64
	seq int64
	fn  func()
	off bool
}

func (w *World) addTimer(at int64, fn func()) *timer {
	w.tseq++
	t := &timer{at: at, seq: w.tseq, fn: fn}
	w.timers = append(w.timers, t)
	sort.SliceStable(w.timers, func(i, j int) bool {
		if w.timers[i].at != w.timers[j].at {
			return w.timers[i].at < w.timers[j].at
		}
		return w.timers[i].seq < w.timers[j].seq
	})
	return t
}

// fireTimer advances the clock to the next timer.
func (w *World) fireTimer() bool {
	for len(w.timers) > 0 {
		t := w.timers[0]
		w.timers = w.timers[1:]
		if t.off {
			continue
		}
		if t.at > w.now {
			w.now = t.at
		}
		t.fn()
		return true
	}
	return false
}

// Advance moves the simulated clock.
func Advance(d int64) {
	if w := W; w != nil {
		w.now += d
	}
}

func (w *World) tick() {
	w.now += 1000 + (w.ticks*7919)%997
	w.ticks++
	if w.Cfg.ClockSeed != 0 {
		w.now += int64(w.crng.Intn(5000)) // as fast as the machine is
		switch w.crng.Intn(12) {
		case 0: // jump ahead
			w.now += int64(w.crng.Intn(10000)) * 1_000_000
			w.jumps++
		case 2:
			w.now += int64(w.crng.Intn(48)) * 3600 * 1_000_000_000
			w.jumps++
		}
	}
}

// Now is time.Now.
func Now() time.Time {
	w := W
	if w == nil {
		return time.Now()
	}
	w.tick()
	return time.Unix(0, w.now)
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	w := W
	if w == nil {
		time.Sleep(d)
		return
	}
	Y()
	CheckDead()
	done := false
	me := w.cur
	w.addTimer(w.now+int64(d), func() { done = true; w.ready(me) })
	for !done {
		w.block("sleep")
	}
}

// Timer stands for time.Timer.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	t  *timer
	fn func()
}

func NewTimer(d time.Duration) *Timer {
	w := W
	c := make(chan time.Time, 1)
	x := &Timer{C: c, c: c}
	x.arm(w, d)
	return x
}
func (x *Timer) arm(w *World, d time.Duration) {
	x.t = w.addTimer(w.now+int64(d), func() {
		x.t.off = true
		if x.fn != nil {
			w.newG("timer", x.fn)
			return
		}
		s := w.state(ptrOf(&x.c), 1, x.c)
		if len(s.buf) == 0 {
			w.trySend(s, time.Unix(0, w.now))
		}
	})
}
func (x *Timer) Stop() bool {
	was := !x.t.off
	x.t.off = true
	return was
}
func (x *Timer) Reset(d time.Duration) bool {
	was := x.Stop()
	x.arm(W, d)
	return was
}
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }
func AfterFunc(d time.Duration, f func()) *Timer {
	x := &Timer{fn: f}
	x.arm(W, d)
	return x
}

// Ticker stands for time.Ticker.
type Ticker struct {
	C   <-chan time.Time
	c   chan time.Time
	t   *timer
	off bool
	d   time.Duration
}

func NewTicker(d time.Duration) *Ticker {
	c := make(chan time.Time, 1)
	x := &Ticker{C: c, c: c, d: d}
	x.arm(W)
	return x
}
func (x *Ticker) arm(w *World) {
	x.t = w.addTimer(w.now+int64(x.d), func() {
		if x.off {
			return
		}
		s := w.state(ptrOf(&x.c), 1, x.c)
		if len(s.buf) == 0 {
			w.trySend(s, time.Unix(0, w.now))
		}
		x.arm(w)
	})
}
func (x *Ticker) Stop()                 { x.off = true; x.t.off = true }
func (x *Ticker) Reset(d time.Duration) { x.t.off = true; x.off = false; x.d = d; x.arm(W) }
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
