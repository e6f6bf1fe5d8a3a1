//go:build go1.21

// Package simrt is the deterministic runtime under which the instrumented
// smart-cache code runs: goroutines, channels, map order, clock and process
// exit are all decided here, from one seed.
package simrt

import (
	"bytes"
	"fmt"
	"math/bits"
	"runtime"
	"runtime/debug"
	"strings"
)

// ---------------------------------------------------------------- PRNG

// Rand is a splitmix64 generator.
type Rand struct{ S uint64 }

func NewRand(seed uint64) *Rand { return &Rand{S: seed*0x9E3779B97F4A7C15 + 0x1234567} }

func (r *Rand) U64() uint64 {
	r.S += 0x9E3779B97F4A7C15
	z := r.S
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	hi, _ := bits.Mul64(r.U64(), uint64(n))
	return int(hi)
}
func (r *Rand) Float() float64      { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rand) P(p float64) bool    { return r.Float() < p }
func (r *Rand) Range(a, b int) int  { return a + r.Intn(b-a+1) }
func (r *Rand) Pick(w ...int) int { // weighted index
	t := 0
	for _, x := range w {
		t += x
	}
	v := r.Intn(t)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return len(w) - 1
}

func Hash64(vals ...uint64) uint64 {
	h := uint64(1469598103934665603)
	for _, v := range vals {
		h ^= v
		h *= 0x9E3779B97F4A7C15
		h ^= h >> 29
	}
	return h
}

func HashBytes(h uint64, b []byte) uint64 {
	for _, c := range b {
		h ^= uint64(c)
		h *= 1099511628211
	}
	return h
}

// ---------------------------------------------------------------- configuration

// Deviation is one departure from the default schedule (run the current
// goroutine until it blocks, then the runnable one with the lowest id).
type Deviation struct {
	At   int64 `json:"at"`   // ordinal of the decision
	Kind int   `json:"k"`    // 0 preemption (ordinal counts yields), 1 choice at a block (ordinal counts blocks)
	Pick int   `json:"pick"` // index into the runnable goroutines
}

// Config of a simulated execution.
type Config struct {
	SchedSeed  uint64      `json:"schedSeed"`
	Preempt    float64     `json:"preempt"`          // probability of preemption per yield point
	BlockRand  float64     `json:"blockRand"`        // probability of a random choice when a goroutine blocks
	StallGo    int         `json:"stallGo"`          // goroutine spawned as number N is starved (0: none)
	Explicit   bool        `json:"explicit"`         // follow Deviations only
	Deviations []Deviation `json:"deviations"`       // with Explicit
	MapSeed    uint64      `json:"mapSeed"`          // 0: canonical order, else permuted
	ClockSeed  uint64      `json:"clockSeed"`        // 0: smooth clock, else jumps
	ClockStart int64       `json:"clockStart"`       // unix nanoseconds
	MaxSteps   int64       `json:"maxSteps"`         // step budget
	Tracing    bool        `json:"-"`
}

// Exit describes how the simulated process ended.
type Exit struct {
	Kind  string `json:"kind"` // "return", "exit", "panic", "deadlock", "livelock", "crash"
	Code  int    `json:"code"`
	Msg   string `json:"msg"`
	Stack string `json:"stack,omitempty"`
}

func (e Exit) OK() bool { return e.Kind == "return" || (e.Kind == "exit" && e.Code == 0) }

// Hang says that the process neither finished nor died.
func (e Exit) Hang() bool { return e.Kind == "deadlock" || e.Kind == "livelock" }

func (e Exit) String() string {
	return fmt.Sprintf("%s(%d) %s", e.Kind, e.Code, e.Msg)
}

// ---------------------------------------------------------------- world

const (
	gRunnable = iota
	gRunning
	gBlocked
	gDone
)

type G struct {
	id     int
	state  int
	resume chan struct{}
	what   string
	wakeAt int64 // timer, 0 = none
}

// World is one simulated process execution.
type World struct {
	Cfg       Config
	gs        []*G // that have not ended, by id
	spawned   int
	cur       *G
	dead      bool
	exit      Exit
	finished  chan struct{}
	ycount    int64
	ynext     int64
	bcount    int64
	rng       *Rand
	mrng      *Rand
	crng      *Rand
	grng      *Rand
	devY      []Deviation
	devB      map[int64]int
	chans     map[uintptr]*chanState
	now       int64
	jumps     int
	maxG      int
	switches  int64
	preempts  int64
	schedHash uint64
	mapRanges int64
	Recorded  []Deviation
	OnDead    func()
	timers    []*timer
	tseq      int64
	ticks     int64
	Counters  map[string]int64
}

// W is the running world; nil outside a simulation.
var W *World

type killT struct{}

var kill = killT{}

const never = int64(1) << 62

// Run executes fn as the main goroutine of a fresh simulated process.
func Run(cfg Config, fn func()) (*World, Exit) {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 50_000_000
	}
	w := &World{Cfg: cfg, finished: make(chan struct{}), chans: map[uintptr]*chanState{},
		rng: NewRand(cfg.SchedSeed), mrng: NewRand(cfg.MapSeed ^ 0xABCDEF), crng: NewRand(cfg.ClockSeed ^ 0x5151), grng: NewRand(cfg.SchedSeed ^ 0x77),
		schedHash: 1469598103934665603, Counters: map[string]int64{}}
	w.now = cfg.ClockStart
	if w.now == 0 {
		w.now = 1_600_000_000_000_000_000
	}
	if cfg.Explicit {
		w.devB = map[int64]int{}
		for _, d := range cfg.Deviations {
			if d.Kind == 0 {
				w.devY = append(w.devY, d)
			} else {
				w.devB[d.At] = d.Pick
			}
		}
	}
	if W != nil {
		panic("simrt: nested Run")
	}
	W = w
	resetGlobals()
	w.nextPreempt()
	g := w.newG("main", fn)
	g.state = gRunning
	w.cur = g
	g.resume <- struct{}{}
	<-w.finished
	// unwind whatever is left, one at a time
	w.dead = true
	w.ynext = 0
	for _, g := range append([]*G(nil), w.gs...) {
		if g.state != gDone {
			w.cur = g
			g.resume <- struct{}{}
			<-w.finished
		}
	}
	W = nil
	return w, w.exit
}

func (w *World) newG(what string, fn func()) *G {
	g := &G{id: w.spawned, resume: make(chan struct{}, 1), what: what, state: gRunnable}
	w.spawned++
	w.gs = append(w.gs, g)
	if len(w.gs) > w.maxG {
		w.maxG = len(w.gs)
	}
	go func() {
		<-g.resume
		defer w.top(g)
		if w.dead {
			panic(kill)
		}
		fn()
		if g.id == 0 && !w.dead {
			// as in Go, main's return waits for a goroutine that is panicking
			for w.panicking() {
				w.block("the end of a panic")
			}
			w.die(Exit{Kind: "return"})
		}
	}()
	return g
}

// panicking says that some other goroutine is running deferred calls of a
// panic that will end the process.
func (w *World) panicking() bool {
	live := false
	for _, g := range w.gs {
		if g.id != 0 && g.state != gDone {
			live = true
		}
	}
	if !live || w.dead {
		return false
	}
	b := make([]byte, 1<<20)
	b = b[:runtime.Stack(b, true)]
	for _, g := range bytes.Split(b, []byte("\n\n")) {
		// parked by this world below a panic, not an unwound goroutine of an
		// earlier world, which panicked out of its park
		i, j := bytes.Index(g, []byte("simrt.(*World).park(")), bytes.Index(g, []byte("\npanic("))
		if i >= 0 && j > i {
			return true
		}
	}
	return false
}

// top runs when the real goroutine of g ends, normally or by panic.
func (w *World) top(g *G) {
	r := recover()
	g.state = gDone
	for i := range w.gs {
		if w.gs[i] == g {
			w.gs = append(w.gs[:i], w.gs[i+1:]...)
			break
		}
	}
	if w.dead {
		w.finished <- struct{}{}
		return
	}
	if r != nil {
		if _, ok := r.(killT); !ok {
			w.die(Exit{Kind: "panic", Code: 2, Msg: fmt.Sprint(r), Stack: trimStack(debug.Stack())})
		}
		w.finished <- struct{}{}
		return
	}
	if w.cur != g {
		// Goexit while not current cannot happen
		panic("simrt: goroutine ended out of turn")
	}
	if g.id == 0 { // runtime.Goexit in main
		w.die(Exit{Kind: "deadlock", Msg: "main goroutine exited"})
		w.finished <- struct{}{}
		return
	}
	n := w.pickNext()
	if n == nil {
		w.die(Exit{Kind: "deadlock", Msg: w.blockedList()})
		w.finished <- struct{}{}
		return
	}
	w.switchTo(n)
}

func trimStack(b []byte) string {
	s := string(b)
	lines := strings.Split(s, "\n")
	out := []string{}
	skip := true
	for i := 0; i < len(lines); i++ {
		if skip {
			if strings.HasPrefix(lines[i], "panic(") {
				skip = false
				i++
			}
			continue
		}
		if strings.Contains(lines[i], "verifsim/simrt") {
			continue
		}
		out = append(out, strings.TrimSpace(lines[i]))
		if len(out) > 16 {
			break
		}
	}
	return strings.Join(out, " | ")
}

// die marks the process dead. The caller unwinds by panicking.
func (w *World) die(e Exit) {
	if w.dead {
		return
	}
	w.dead = true
	w.ynext = 0
	w.exit = e
	if w.OnDead != nil {
		w.OnDead()
	}
}

// Die ends the simulated process at once (crash, exit, log.Fatal).
func Die(e Exit) {
	w := W
	if w == nil {
		panic("simrt.Die outside simulation: " + e.String())
	}
	w.die(e)
	panic(kill)
}

// Dead reports whether the process is being unwound.
func Dead() bool { return W != nil && W.dead }

// CheckDead unwinds the caller if the process is dead.
func CheckDead() {
	if w := W; w != nil && w.dead {
		panic(kill)
	}
}

func (w *World) blockedList() string {
	s := []string{}
	for _, g := range w.gs {
		if g.state != gDone {
			s = append(s, fmt.Sprintf("goroutine %d blocked on %s", g.id, g.what))
		}
	}
	return strings.Join(s, "; ")
}

// switchTo hands the token to n. The caller must then wait on its own resume
// channel (or end).
func (w *World) switchTo(n *G) {
	w.switches++
	w.schedHash = (w.schedHash ^ uint64(n.id+1)) * 1099511628211
	w.schedHash ^= uint64(w.ycount) << 7
	n.state = gRunning
	w.cur = n
	n.resume <- struct{}{}
}

func (w *World) runnable() []*G {
	var r []*G
	for _, g := range w.gs {
		if g.state == gRunnable {
			r = append(r, g)
		}
	}
	if len(r) > 1 && w.Cfg.StallGo > 0 {
		k := r[:0:0]
		for _, g := range r {
			if g.id != w.Cfg.StallGo {
				k = append(k, g)
			}
		}
		r = k
	}
	return r
}

// pickNext chooses who runs when the current goroutine cannot.
func (w *World) pickNext() *G {
	for {
		r := w.runnable()
		if len(r) == 0 {
			if w.fireTimer() {
				continue
			}
			return nil
		}
		w.bcount++
		i := 0
		if len(r) > 1 {
			if w.Cfg.Explicit {
				if p, ok := w.devB[w.bcount]; ok {
					i = p % len(r)
				}
			} else if w.rng.P(w.Cfg.BlockRand) {
				i = w.rng.Intn(len(r))
				if i != 0 {
					w.record(Deviation{At: w.bcount, Kind: 1, Pick: i})
				}
			}
		}
		return r[i]
	}
}

func (w *World) record(d Deviation) {
	if len(w.Recorded) < 20000 {
		w.Recorded = append(w.Recorded, d)
	}
}

func (w *World) nextPreempt() {
	w.ynext = w.Cfg.MaxSteps
	if w.Cfg.Explicit {
		if len(w.devY) > 0 {
			w.ynext = w.devY[0].At
		}
	} else if w.Cfg.Preempt > 0 {
		n := int64(1)
		if w.Cfg.Preempt < 1 {
			// geometric
			u := w.rng.Float()
			n = 1 + int64(logf(1-u)/logf(1-w.Cfg.Preempt))
			if n < 1 {
				n = 1
			}
		}
		w.ynext = w.ycount + n
	}
	if w.ynext > w.Cfg.MaxSteps {
		w.ynext = w.Cfg.MaxSteps
	}
}

// Y is the yield point inserted before statements of the instrumented code.
func Y() {
	if w := W; w != nil {
		w.ycount++
		if w.ycount >= w.ynext {
			w.slowY()
		}
	}
}

func (w *World) slowY() {
	if w.dead {
		panic(kill)
	}
	if w.ycount >= w.Cfg.MaxSteps {
		w.die(Exit{Kind: "livelock", Msg: fmt.Sprintf("no end within %d steps", w.Cfg.MaxSteps)})
		panic(kill)
	}
	pick := -1
	if w.Cfg.Explicit {
		if len(w.devY) > 0 && w.devY[0].At <= w.ycount {
			pick = w.devY[0].Pick
			w.devY = w.devY[1:]
		}
	} else {
		pick = 1 << 20
	}
	if pick >= 0 {
		w.cur.state = gRunnable
		r := w.runnable()
		w.cur.state = gRunning
		k := r[:0]
		for _, g := range r {
			if g != w.cur {
				k = append(k, g)
			}
		}
		if len(k) > 0 {
			if pick == 1<<20 {
				pick = w.rng.Intn(len(k))
				w.record(Deviation{At: w.ycount, Kind: 0, Pick: pick})
			}
			w.preempts++
			n := k[pick%len(k)]
			me := w.cur
			me.state = gRunnable
			w.nextPreempt()
			w.switchTo(n)
			w.park(me)
			return
		}
	}
	w.nextPreempt()
}

// park waits until the token comes back.
func (w *World) park(me *G) {
	<-me.resume
	if w.dead {
		panic(kill)
	}
}

// block parks the current goroutine until another one makes it runnable.
func (w *World) block(what string) {
	me := w.cur
	me.state = gBlocked
	me.what = what
	n := w.pickNext()
	if n == nil {
		w.die(Exit{Kind: "deadlock", Msg: w.blockedList()})
		panic(kill)
	}
	if n == me { // woken by its own timer
		me.state = gRunning
		return
	}
	w.switchTo(n)
	w.park(me)
}

func (w *World) ready(g *G) {
	if g.state == gBlocked {
		g.state = gRunnable
	}
}

// Stats of the finished execution.
func (w *World) Steps() int64      { return w.ycount }
func (w *World) Switches() int64   { return w.switches }
func (w *World) Preempts() int64   { return w.preempts }
func (w *World) SchedHash() uint64 { return w.schedHash }
func (w *World) NumG() int         { return w.maxG }
func (w *World) Now() int64        { return w.now }
func (w *World) ClockJumps() int   { return w.jumps }
func (w *World) MapRanges() int64  { return w.mapRanges }

// ---------------------------------------------------------------- globals

var resets []func()

// RegisterReset records a function re-initialising the package-level variables
// of an instrumented package, so that a simulated process starts fresh.
func RegisterReset(f func()) { resets = append(resets, f) }

// PreReset runs before them.
var PreReset func()

func resetGlobals() {
	if PreReset != nil {
		PreReset()
	}
	for _, f := range resets {
		f()
	}
}

// Caller is used in messages.
func Caller(skip int) string {
	_, f, l, _ := runtime.Caller(skip + 1)
	return fmt.Sprintf("%s:%d", f, l)
}

// Zero resets a package variable that has no initialiser.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Pid is the number of the simulated process.
func Pid() int {
	if W == nil {
		return 1
	}
	return 2 + int(W.Cfg.SchedSeed%30000)
}

// NumCPU and GOMAXPROCS: the simulated machine.
func NumCPU() int {
	if W == nil {
		return 1
	}
	return 1 + int(W.Cfg.SchedSeed>>16%64)
}
func GOMAXPROCS(int) int { return NumCPU() }
