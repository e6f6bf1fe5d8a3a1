//go:build go1.21

package main

// Reference model of the learning caches.

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
)

// Actions.
const (
	aNotStore = "NotStore"
	aStore    = "Store"
	aKeep     = "NotDelete"
	aOne      = "DeleteOne"
	aQuarter  = "DeleteQuarter"
	aHalf     = "DeleteHalf"
	aAll      = "DeleteAll"
)

var addActions = []string{aNotStore, aStore}
var evcActions = []string{aKeep, aOne, aQuarter, aHalf, aAll}

type memo struct {
	state int
	act   string
	cap   float64
	size  float64
}

type agent struct {
	feats    []Feat // in name order
	acts     []string
	q        [][]float64
	eps      float64
	startEps float64
	decay    float64
	unleash  bool
	steps    int64
	val      float64
	mem      map[int64][]memo
	keepMem  []memo // choices to keep files, all files together
	rng      *rand.Rand
	bad      int
	prev     float64
}

func (a *agent) clone() *agent {
	c := *a
	c.q = nil
	for _, r := range a.q {
		c.q = append(c.q, append([]float64(nil), r...))
	}
	return &c
}

const minEps = 0.1
const maxEps = 1.0

func (f Feat) n() int {
	switch f.Type {
	case "bool":
		return len(f.B)
	case "int":
		n := len(f.I)
		if f.Open {
			n++
		}
		return n
	}
	n := len(f.F)
	if f.Open {
		n++
	}
	return n
}

func (f Feat) idxInt(v int64) int {
	for i, b := range f.I {
		if v <= b {
			return i
		}
	}
	if f.Open {
		return len(f.I)
	}
	return -1
}

func (m *Model) idxFloat(f Feat, v float64) int {
	for i, b := range f.F {
		if near(v, b) {
			m.ambig("feature %s at a bucket bound within rounding", f.Name)
		}
		if v <= b {
			return i
		}
	}
	if f.Open {
		return len(f.F)
	}
	return -1
}

func (f Feat) idxBool(v bool) int {
	for i, b := range f.B {
		if v == b {
			return i
		}
	}
	return -1
}

func (f Feat) label(i int) string {
	switch f.Type {
	case "bool":
		return fmt.Sprintf("%t", f.B[i])
	case "int":
		if i >= len(f.I) {
			return "max"
		}
		return fmt.Sprint(f.I[i])
	}
	if i >= len(f.F) {
		return "max"
	}
	return fmt.Sprintf("%09.2f", f.F[i])
}

func newAgent(feats []Feat, acts []string, eps, decay float64, unleash bool, seed int64) *agent {
	a := &agent{acts: acts, eps: eps, startEps: eps, decay: decay, unleash: unleash, mem: map[int64][]memo{}, rng: rand.New(rand.NewSource(seed))}
	a.feats = append(a.feats, feats...)
	sort.Slice(a.feats, func(i, j int) bool { return a.feats[i].Name < a.feats[j].Name })
	n := 1
	for _, f := range a.feats {
		n *= f.n()
	}
	for i := 0; i < n; i++ {
		a.q = append(a.q, make([]float64, len(acts)))
	}
	return a
}

func (a *agent) stateOf(vec []int) int {
	s := 0
	for i, v := range vec {
		s = s*a.feats[i].n() + v
	}
	return s
}

func (a *agent) vecOf(s int) []int {
	v := make([]int, len(a.feats))
	for i := len(v) - 1; i >= 0; i-- {
		n := a.feats[i].n()
		v[i] = s % n
		s /= n
	}
	return v
}

func (a *agent) pos(name string) int {
	for i, f := range a.feats {
		if f.Name == name {
			return i
		}
	}
	return -1
}

func (a *agent) actIdx(act string) int {
	for i, x := range a.acts {
		if x == act {
			return i
		}
	}
	panic(act)
}

// best value of a state; among several later ones equal to the best the
// choice is random, and the first action wins when only it or one more ties.
func (a *agent) best(s int) (int, float64) {
	q := a.q[s]
	top := q[0]
	for _, v := range q {
		if v > top {
			top = v
		}
	}
	var later []int
	for i := 1; i < len(q); i++ {
		if q[i] == top {
			later = append(later, i)
		}
	}
	idx := 0
	if q[0] != top {
		idx = later[0]
	}
	if len(later) > 1 {
		idx = later[a.rng.Intn(len(later))]
	}
	return idx, top
}

func (a *agent) choose(s int) string {
	if a.rng.Float64() > a.eps {
		i, _ := a.best(s)
		return a.acts[i]
	}
	return a.acts[int(a.rng.Float64()*float64(len(a.acts)))]
}

// learn applies the update rule for one reward.
func (a *agent) learn(s, next int, act string, reward float64) {
	a.val += reward
	i := a.actIdx(act)
	old := a.q[s][i]
	_, b := a.best(next)
	a.q[s][i] = old + 0.9*(reward+0.5*b-old)
	a.fade()
}

func (a *agent) fade() {
	if a.eps > minEps {
		a.steps++
		e := minEps + (maxEps-minEps)*math.Exp(-a.decay*float64(a.steps))
		if e < a.eps {
			a.eps = e
		}
	}
}

func (a *agent) raise(target float64) {
	if !a.unleash {
		return
	}
	a.eps = 1
	a.steps = 0
	for target > 0 && a.eps > target {
		p := a.eps
		a.fade()
		if a.eps >= p {
			break
		}
	}
}

func (a *agent) table() string {
	var out []string
	var h []string
	for _, x := range a.acts {
		h = append(h, "Action"+x)
	}
	for _, f := range a.feats {
		h = append(h, f.Name)
	}
	out = append(out, strings.Join(h, ","))
	for s := range a.q {
		var r []string
		for _, v := range a.q[s] {
			r = append(r, fmt.Sprintf("%09.2f", v))
		}
		for i, v := range a.vecOf(s) {
			r = append(r, a.feats[i].label(v))
		}
		out = append(out, strings.Join(r, ","))
	}
	return strings.Join(out, "\n")
}

func (a *agent) coverage() (act, st float64) {
	na, ns := 0, 0
	for _, r := range a.q {
		any := false
		for _, v := range r {
			if v != 0 {
				na++
				any = true
			}
		}
		if any {
			ns++
		}
	}
	return float64(na) / float64(len(a.q)*len(a.acts)) * 100, float64(ns) / float64(len(a.q)) * 100
}

// ---------------------------------------------------------------- categories

type category struct {
	feat  map[string]int
	files []*MFile
	size  float64
}

type decision struct {
	state int
	cat   int
	act   string
	files []*MFile
}

type cats struct {
	of   map[int64]int
	m    map[int]*category
	last map[int]decision // by state, of the last round
}

func newCats(CacheCfg) *cats {
	return &cats{of: map[int64]int{}, m: map[int]*category{}, last: map[int]decision{}}
}

type rlState struct {
	add, evc   *agent
	cats       *cats
	step       int64
	calls      int64
	forced     int64
	acts       map[string]int64
	numCats    []int
	prevDay    int64
	hasDay     bool
	addBad     int
	evcBad     int
	addPrev    float64
	evcPrev    float64
	AddLearned int
	EvcLearned int
}

func newRL(c CacheCfg) *rlState {
	r := &rlState{acts: map[string]int64{}}
	if c.scdl2() {
		r.step = c.K
		if len(c.Evc) > 0 {
			r.evc = newAgent(c.Evc, evcActions, c.EvcEps, c.EvcDecay, c.EvcUnl, c.Seed)
			r.cats = newCats(c)
		}
	}
	if len(c.Add) > 0 {
		r.add = newAgent(c.Add, addActions, c.AddEps, c.AddDecay, c.AddUnl, c.Seed)
	}
	return r
}

func (c CacheCfg) onK() bool { return in(c.EvcType, "onK", "on_k", "ONK") }
func (c CacheCfg) onDay() bool {
	return in(c.EvcType, "onDayEnd", "on_day_end", "ONDAYEND")
}
func (c CacheCfg) onFree() bool { return in(c.EvcType, "onFree", "on_free", "ONFREE") }

func in(s string, l ...string) bool {
	for _, x := range l {
		if s == x {
			return true
		}
	}
	return false
}

// rlNewDay watches the value of the agents at each change of the request time.
func (m *Model) rlNewDay(q Req) {
	r := m.rl
	changed := !r.hasDay || q.T != r.prevDay
	r.prevDay, r.hasDay = q.T, true
	if !changed {
		return
	}
	watch := func(a *agent, bad *int, prev *float64) {
		var eps, val float64
		if a != nil {
			eps, val = a.eps, a.val
		} else {
			eps = 0
		}
		if a != nil && eps <= minEps+0.01 || a == nil {
			if *prev == 0 {
				*prev = val
			} else {
				if val < *prev {
					*bad++
				} else {
					*bad = 0
				}
				*prev = val
			}
		}
		if a != nil && *bad >= 8 {
			*bad = 0
			m.UnleashN++
			if a.val < 0 {
				a.raise(0)
				a.mem = map[int64][]memo{}
				a.keepMem = nil
			} else {
				a.raise(0.5)
			}
		}
	}
	watch(r.add, &r.addBad, &r.addPrev)
	watch(r.evc, &r.evcBad, &r.evcPrev)
}

func (m *Model) addState(f *MFile, hit bool) int {
	a := m.rl.add
	vec := make([]int, len(a.feats))
	for i, ft := range a.feats {
		switch ft.Name {
		case "hit":
			vec[i] = ft.idxBool(hit)
		case "size":
			vec[i] = m.idxFloat(ft, f.Size)
		case "numReq":
			vec[i] = ft.idxInt(f.Freq)
		case "deltaLastRequest":
			vec[i] = ft.idxInt(f.Delta)
		case "percOcc":
			vec[i] = m.idxFloat(ft, m.cap())
		case "hitRate":
			vec[i] = m.idxFloat(ft, m.hitRate())
		}
	}
	return a.stateOf(vec)
}

func (m *Model) fileCat(f *MFile) (int, map[string]int) {
	id := 0
	feat := map[string]int{}
	for _, ft := range m.rl.evc.feats {
		v := 0
		switch ft.Name {
		case "catSize":
			v = m.idxFloat(ft, f.Size)
		case "catNumReq":
			v = ft.idxInt(f.Freq)
		case "catDeltaLastRequest":
			v = ft.idxInt(f.Delta)
		default:
			continue
		}
		feat[ft.Name] = v
		id = id*ft.n() + v
	}
	return id, feat
}

func (m *Model) classify(f *MFile) {
	c := m.rl.cats
	id, feat := m.fileCat(f)
	if old, ok := c.of[f.Name]; ok {
		if old == id {
			return
		}
		m.CatMoves++
		m.unclassify(f)
	}
	k := c.m[id]
	if k == nil {
		k = &category{feat: feat}
		c.m[id] = k
	}
	k.files = append(k.files, f)
	k.size += f.Size
	c.of[f.Name] = id
}

func (m *Model) unclassify(f *MFile) {
	c := m.rl.cats
	id := c.of[f.Name]
	delete(c.of, f.Name)
	k := c.m[id]
	for i, x := range k.files {
		if x == f {
			k.files = append(k.files[:i:i], k.files[i+1:]...)
			break
		}
	}
	k.size -= f.Size
	if len(k.files) == 0 {
		delete(c.m, id)
	}
}

// evictionRound takes one decision per category and applies it.
func (m *Model) evictionRound() {
	r := m.rl
	r.calls++
	m.rollDelMiss()
	capa, rate := m.cap(), m.hitRate()
	ids := make([]int, 0, len(r.cats.m))
	for id := range r.cats.m {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	r.cats.last = map[int]decision{}
	var ds []decision
	for _, id := range ids {
		k := r.cats.m[id]
		vec := make([]int, len(r.evc.feats))
		for i, ft := range r.evc.feats {
			switch ft.Name {
			case "catPercOcc":
				vec[i] = m.idxFloat(ft, k.size/m.max*100)
			case "percOcc":
				vec[i] = m.idxFloat(ft, capa)
			case "hitRate":
				vec[i] = m.idxFloat(ft, rate)
			default:
				vec[i] = k.feat[ft.Name]
			}
		}
		s := r.evc.stateOf(vec)
		d := decision{state: s, cat: id, act: r.evc.choose(s), files: k.files}
		r.cats.last[s] = d
		ds = append(ds, d)
	}
	var gone []*MFile
	for _, d := range ds {
		r.acts[d.act]++
		list := d.files
		var del []*MFile
		switch d.act {
		case aKeep:
			for _, f := range list {
				x := memo{state: d.state, act: d.act, cap: m.cap(), size: f.Size}
				r.evc.mem[f.Name] = append(r.evc.mem[f.Name], x)
				r.evc.keepMem = append(r.evc.keepMem, x)
				m.fileRow("KEEP", f)
			}
		case aAll:
			for i := len(list) - 1; i >= 0; i-- {
				del = append(del, list[i])
			}
		default:
			byAge(list) // the category itself is left in this order
			switch n := len(list); {
			case d.act == aOne:
				del = list[:1:1]
			default:
				c := n / 2
				if d.act == aQuarter {
					c = n / 4
				}
				if c < 1 {
					c = 1
				}
				for i := n - 1; i >= n-c; i-- {
					del = append(del, list[i])
				}
			}
		}
		for _, f := range del {
			n := m.ndel
			m.drop2(f, decision{state: d.state, act: d.act})
			m.ndel = n
			gone = append(gone, f)
		}
	}
	for _, f := range gone {
		m.ndel++
		m.unclassify(f)
	}
}

func byAge(l []*MFile) {
	sort.SliceStable(l, func(i, j int) bool { return l[i].Recency < l[j].Recency })
}

func (m *Model) drop2(f *MFile, d decision) {
	delete(m.held, f.Name)
	m.size -= f.Size
	m.dd += f.Size
	m.Evicted++
	m.rl.evc.mem[f.Name] = append(m.rl.evc.mem[f.Name], memo{state: d.state, act: d.act, cap: m.cap(), size: f.Size})
	m.delMiss[f.Name] = 0
	m.fileRow("DELETE", f)
}

func (m *Model) lastDecisions() []decision {
	var st []int
	for s := range m.rl.cats.last {
		st = append(st, s)
	}
	sort.Ints(st)
	var out []decision
	for _, s := range st {
		out = append(out, m.rl.cats.last[s])
	}
	return out
}

func (m *Model) follows(old, next int) bool {
	a := m.rl.evc
	o, n := a.vecOf(old), a.vecOf(next)
	s, k, d := a.pos("catSize"), a.pos("catNumReq"), a.pos("catDeltaLastRequest")
	return (s < 0 || n[s] == o[s]) && (d < 0 || n[d] == o[d]) && (k < 0 || n[k] >= o[k])
}

func (m *Model) makeRoom(q Req) (forced bool) {
	if m.size+q.S <= m.max {
		return false
	}
	r := m.rl
	if r.evc == nil {
		m.Free(q.S, false)
		return false
	}
	switch {
	case m.cfg.onDay(), m.cfg.onK():
		m.event("FORCEDCALL", -1)
		r.forced++
		m.ForcedN++
		keep := r.evc.keepMem
		for _, x := range keep {
			for _, d := range m.lastDecisions() {
				if m.follows(x.state, d.state) {
					r.evc.learn(x.state, d.state, x.act, -1)
					r.EvcLearned++
				}
			}
		}
		r.evc.keepMem = nil
		m.evictionRound()
	case m.cfg.onFree():
		m.event("ONFREE", -1)
		m.evictionRound()
	}
	return true
}

func (m *Model) rlPolicy(q Req, f *MFile, hit bool) bool {
	r := m.rl
	if r.add != nil {
		s := m.addState(f, hit)
		if m.cfg.RLType == "SCDL" || m.cfg.RLType == "scdl" {
			m.rewardAddSCDL(q, hit)
		}
		if !hit {
			act := r.add.choose(s)
			r.acts[act]++
			l := append(r.add.mem[q.F], memo{state: s, act: act, cap: m.cap(), size: q.S})
			if !m.cfg.scdl2() && len(l) > 32 {
				l = l[1:]
			}
			r.add.mem[q.F] = l
			if act == aNotStore {
				m.fileRow("SKIP", f)
				m.Skips++
				return false
			}
		}
	}
	if hit {
		m.seq++
		f.seq = m.seq
		if r.evc != nil {
			m.classify(f)
		}
		return false
	}
	forced := m.makeRoom(q)
	if forced && r.add != nil {
		m.evictionRound() // with an admission agent a second round follows
	}
	ok := m.size+q.S <= m.max
	if ok {
		m.put(f)
		if r.evc != nil {
			m.classify(f)
		}
		m.size += q.S
	}
	if forced {
		for _, d := range m.lastDecisions() {
			rew := 1.0
			if !ok && d.act == aKeep {
				rew = -1
			}
			r.evc.learn(d.state, d.state, d.act, rew)
			r.EvcLearned++
		}
	}
	if ok {
		m.fileRow("ADD", f)
	}
	return ok
}

func (m *Model) rewardAddSCDL(q Req, hit bool) {
	a := m.rl.add
	mem := a.mem[q.F]
	delete(a.mem, q.F)
	for _, x := range mem {
		g := x.size / 1024
		rew := 0.0
		if x.act == aNotStore {
			if m.drm/m.bw < 0.5 || m.dw/m.dr < 0.1 {
				rew -= g
			}
		} else if m.drm/m.bw > 0.75 || m.dw/m.dr > 0.5 {
			rew -= g
		}
		if m.drm/m.dr > 0.5 {
			rew -= g
		}
		if rew == 0 {
			if hit {
				rew += g
			} else {
				rew -= g
			}
		}
		a.learn(x.state, x.state, x.act, rew)
		m.rl.AddLearned++
	}
}

func (m *Model) rlAfter(q Req, hit bool) {
	if !m.cfg.scdl2() {
		return
	}
	r := m.rl
	if r.add != nil {
		l := r.add.mem[q.F]
		for i := 0; i+2 < len(l); i++ {
			rew := 1.0
			if !hit {
				rew = -1
				if l[i].act == aNotStore {
					rew = -2
				}
			}
			r.add.learn(l[i].state, l[i+1].state, l[i].act, rew)
			r.AddLearned++
		}
	}
	if r.evc == nil {
		return
	}
	l := r.evc.mem[q.F]
	for i := 0; i+1 < len(l); i++ {
		p, n := l[i], l[i+1]
		rew := 1.0
		if hit {
			if p.act == aKeep {
				rew = 2
				if p.cap >= n.cap {
					rew = 3
				}
			}
		} else {
			rew = -1
			if p.act != aKeep {
				rew = -2
				if p.cap < n.cap {
					rew = -3
				}
			}
		}
		if near(p.cap, n.cap) {
			m.ambig("capacity equal within rounding")
		}
		r.evc.learn(p.state, n.state, p.act, rew)
		r.EvcLearned++
	}
	r.numCats = append(r.numCats, len(r.cats.m))
	if m.cfg.onK() {
		if r.step <= 0 {
			m.event("ONK", -1)
			m.evictionRound()
			r.step = m.cfg.K
		} else {
			r.step--
		}
	}
}

func (m *Model) rlNewPeriod() {
	r := m.rl
	r.calls, r.forced = 0, 0
	r.acts = map[string]int64{}
	if r.evc == nil {
		return
	}
	r.numCats = nil
	if m.cfg.onDay() {
		m.event("ONDAYEND", -1)
		m.evictionRound()
	}
}

func (m *Model) rlRestore(s *Saved) {
	r := m.rl
	load := func(a, from *agent) {
		if a == nil || from == nil {
			return
		}
		a.q = from.clone().q
		a.steps = 0
		a.val = 0
		a.eps = a.startEps
	}
	load(r.add, s.Add)
	load(r.evc, s.Evc)
	if r.evc != nil {
		l := m.order()
		sort.SliceStable(l, func(i, j int) bool {
			if l[i].Recency != l[j].Recency {
				return l[i].Recency < l[j].Recency
			}
			return l[i].Name < l[j].Name
		})
		for _, f := range l {
			m.classify(f)
		}
	}
}

func (m *Model) rlObserve(o *Obs) {
	r := m.rl
	var ae, ee, av, ev float64
	aa, as, ea, es := math.NaN(), math.NaN(), math.NaN(), math.NaN()
	if r.add != nil {
		ae, av = r.add.eps, r.add.val
		aa, as = r.add.coverage()
	}
	if r.evc != nil {
		ee, ev = r.evc.eps, r.evc.val
		ea, es = r.evc.coverage()
	}
	o.Eps = fmt.Sprintf("%0.6f,%0.6f", ae, ee)
	o.Val = fmt.Sprintf("%0.2f,%0.2f", av, ev)
	o.EvcStats = fmt.Sprintf("%d,%d", r.calls, r.forced)
	if r.evc == nil {
		o.CatStats = "-1,-1.00"
	} else {
		mean, sum := 0, 0
		for _, n := range r.numCats {
			sum += n
		}
		if len(r.numCats) > 0 {
			mean = sum / len(r.numCats)
		}
		v := 0
		for _, n := range r.numCats {
			v += (n - mean) * (n - mean)
		}
		o.CatStats = fmt.Sprintf("%d,%0.2f", mean, math.Sqrt(float64(v)/float64(len(r.numCats)-1)))
	}
	o.Act = fmt.Sprintf("%d,%d,%d,%d,%d,%d,%d", r.acts[aStore], r.acts[aNotStore], r.acts[aAll], r.acts[aHalf], r.acts[aQuarter], r.acts[aOne], r.acts[aKeep])
	o.Extra = fmt.Sprintf("SCov:%0.2f%%|ACov:%0.2f%%|Eps:%0.5f||SCov:%0.2f%%|ACov:%0.2f%%|Eps:%0.5f", as, aa, ae, es, ea, ee)
}

func featIdx(fs []Feat, name string) int {
	for i, f := range fs {
		if f.Name == name {
			return i
		}
	}
	return -1
}
