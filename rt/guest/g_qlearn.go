//go:build go1.21

package main

// C22: the Q-learning study (qLearning_smartCache), mounted next to the
// simulator: its packages under seeded operation sequences against a model, and
// its whole run against a model of the study, under two schedules and map orders.

import (
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"

	qmain "simulator/v2/verifguest/qlearn"
	qcache "simulator/v2/verifguest/qlearn/cache"
	"simulator/v2/verifguest/qlearn/qtable"
	"simulator/v2/verifsim/simos"
	"simulator/v2/verifsim/simrt"
)

func init() {
	guestGen["C22"] = genQ
	guestExec["qcache"] = execQCache
	guestExec["qtable"] = execQTable
	guestExec["qmain"] = execQMain
}

func genQ(seed, idx uint64) *Scenario {
	r := newRnd(seed, idx, 22)
	sc := &Scenario{Prop: "C22", Sim: genSim(r)}
	sc.Sim.MaxSteps = 20_000_000
	switch r.Pick(60, 39, 1) {
	case 0:
		sc.Kind = "qcache"
		sc.QTies = r.P(0.3)
		n := r.Range(2, 24)
		sc.QVals = []float64{}
		for i := 0; i < n; i++ {
			if sc.QTies {
				sc.QVals = append(sc.QVals, r.fl(50, 60, 100, 120))
			} else {
				sc.QVals = append(sc.QVals, float64(bigPrimes[i]))
			}
		}
		if !sc.QTies {
			for i := n - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				sc.QVals[i], sc.QVals[j] = sc.QVals[j], sc.QVals[i]
			}
			if r.P(0.3) {
				sc.QVals[r.Intn(n)] = 0
			}
			if r.P(0.2) {
				sc.QVals[r.Intn(n)] = 6007
			}
		}
		sum := 0.0
		for _, v := range sc.QVals {
			sum += v
		}
		sc.QMax = math.Floor(sum * r.fl(0.1, 0.2, 0.3, 0.5, 0.5, 0.8, 1, 1.5))
		if r.P(0.2) { // exactly full at some point
			sc.QMax = 0
			for i := 0; i < r.Range(1, n); i++ {
				sc.QMax += sc.QVals[i]
			}
		}
		if sc.QMax < 1 {
			sc.QMax = 1
		}
		for i, m := 0, r.Range(5, 150); i < m; i++ {
			f := r.Intn(n)
			switch r.Pick(60, 30, 4, 6) {
			case 0:
				sc.Calls = append(sc.Calls, Call{K: "put", F: f})
			case 1:
				sc.Calls = append(sc.Calls, Call{K: "see", F: f})
			case 2:
				sc.Calls = append(sc.Calls, Call{K: "del", F: f})
			case 3:
				sc.Calls = append(sc.Calls, Call{K: "burst", F: f, X: []float64{float64(r.Range(2, 8))}})
				if r.P(0.02) { // a file wanted very often
					sc.Calls[len(sc.Calls)-1].X[0] = float64(r.n(600, 1100, 2100, 5000))
				}
			}
		}
	case 1:
		sc.Kind = "qtable"
		rows := 1
		if r.P(0.2) { // one long feature
			var b []float64
			for j, k := 0, r.Range(10, 50); j < k; j++ {
				b = append(b, float64(j))
			}
			sc.QFeat, rows = append(sc.QFeat, b), len(b)
		}
		for i, m := 0, r.Range(1, 4); i < m; i++ {
			var b []float64
			v := r.fl(-5, 0, 1, 10)
			for j, k := 0, r.Range(1, 6); j < k; j++ {
				b = append(b, v)
				v += r.fl(0.5, 1, 7, 100)
			}
			if rows*len(b) > 300 || len(sc.QFeat) > 0 && len(sc.QFeat[0])+len(b) > 52 {
				break
			}
			rows *= len(b)
			if r.P(0.2) {
				b[len(b)-1] = -1 // as in the study: everything above
			}
			sc.QFeat = append(sc.QFeat, b)
		}
		sc.QSwap = r.P(0.6)
		for i, m := 0, r.Range(5, 150); i < m; i++ {
			var at []float64
			for _, b := range sc.QFeat {
				switch r.Pick(4, 3, 1, 1) {
				case 0:
					at = append(at, b[r.Intn(len(b))])
				case 1:
					at = append(at, b[r.Intn(len(b))]+r.fl(-0.25, 0.25))
				case 2:
					at = append(at, -1e9)
				case 3:
					at = append(at, 1e9)
				}
			}
			rew := r.fl(0, 1, -1, 2.5, -2.5, 1000, -1000, 123456.75)
			if r.P(0.3) {
				rew = math.Floor((r.Float() - 0.5) * 200)
			}
			sc.Calls = append(sc.Calls, Call{K: "upd", F: r.Intn(2), X: append([]float64{rew}, at...)})
		}
	case 2:
		sc.Kind = "qmain"
		sc.Sim.MaxSteps = 8_000_000
		sc.QDiv, sc.QDiv2 = r.n(15, 20, 30, 100, 500), 2000
		if sc.QDiv >= 100 {
			sc.QDiv2 = r.n(200, 400, 800)
		}
	}
	return sc
}

var bigPrimes = []int{211, 223, 227, 229, 233, 239, 241, 251, 257, 263, 269, 271, 277, 281, 283, 293, 307, 311, 313, 317, 331, 337, 347, 349}

// other draws another schedule, map order and clock for the same case.
func otherSim(c simrt.Config) simrt.Config {
	r := newRnd(c.SchedSeed, 991)
	n := genSim(r)
	n.MaxSteps = c.MaxSteps
	n.MapSeed = r.U64()>>1 | 1
	return n
}

func qrun(sc *Scenario, c simrt.Config, st *Stats, fn func()) (*simos.FS, simrt.Exit) {
	f := simos.NewFS("/w")
	f.StdoutCap = 4 << 20
	f.StartProcess("/w", nil)
	simos.Cur = f
	resetRand(c)
	simrt.ScaleDiv, simrt.ScaleDiv2 = sc.QDiv, sc.QDiv2
	start := c.ClockStart
	if start == 0 {
		start = 1_600_000_000_000_000_000
	}
	w, ex := simrt.Run(c, fn)
	st.world(w, f, start)
	return f, ex
}

// ---------------------------------------------------------------- cache

type qObs struct {
	Size, Points, Cap, Min float64
	MinF                   string
	S, N, V                float64
}

func qname(i int) string { return fmt.Sprintf("file%d", i) }

func runQCache(sc *Scenario, c simrt.Config, st *Stats) (obs []qObs, drain []string, done int, ex simrt.Exit) {
	_, ex = qrun(sc, c, st, func() {
		x := &qcache.SimCache{MaxSize: sc.QMax}
		x.Init()
		for _, op := range sc.Calls {
			var o qObs
			n := qname(op.F)
			switch op.K {
			case "put":
				o.S, o.N, o.V = x.UpdateStats(n, sc.QVals[op.F])
				x.Insert(n, sc.QVals[op.F])
			case "see":
				o.S, o.N, o.V = x.UpdateStats(n, sc.QVals[op.F])
			case "burst":
				for i := 0; i < int(op.X[0]); i++ {
					o.S, o.N, o.V = x.UpdateStats(n, sc.QVals[op.F])
				}
			case "del":
				x.Remove(n)
			}
			o.Size, o.Points, o.Cap = x.GetSize(), x.GetPoints(), x.GetCapacity()
			o.MinF, o.Min = x.GetMinValue()
			obs = append(obs, o)
			done++
		}
		for i := 0; i <= len(sc.QVals); i++ {
			n, _ := x.GetMinValue()
			if n == "" {
				break
			}
			drain = append(drain, n)
			x.Remove(n)
		}
	})
	return
}

func execQCache(sc *Scenario) (res Result) {
	obs, drain, done, ex := runQCache(sc, sc.Sim, &res.St)
	if !ex.OK() {
		res.Viol = fmt.Sprintf("operation %d of the study's cache did not return: %s %s", done+1, ex.String(), ex.Stack)
		return
	}
	if sc.QTies {
		o2, d2, _, ex2 := runQCache(sc, otherSim(sc.Sim), &res.St)
		if !ex2.OK() {
			res.Viol = "the study's cache died: " + ex2.String()
			return
		}
		for i := range obs {
			if obs[i] != o2[i] {
				res.Viol = fmt.Sprintf("operation %d: the same operations leave %+v in one run and %+v in another", i+1, obs[i], o2[i])
				return
			}
		}
		if strings.Join(drain, " ") != strings.Join(d2, " ") {
			res.Viol = fmt.Sprintf("the same operations leave %v in one run and %v in another", drain, d2)
			return
		}
		res.St.reach("compared-runs", 1)
	}
	// the model: files held, requests of every file ever seen
	held := map[int]bool{}
	req := map[int]float64{}
	val := func(f int) float64 { return sc.QVals[f] * req[f] }
	size := func() (s float64) {
		for f := range held {
			s += sc.QVals[f]
		}
		return
	}
	for i, op := range sc.Calls {
		o := obs[i]
		bad := func(s string, a ...interface{}) bool {
			res.Viol = fmt.Sprintf("after operation %d (%s file%d): ", i+1, op.K, op.F) + fmt.Sprintf(s, a...)
			return true
		}
		switch op.K {
		case "del":
			delete(held, op.F)
		case "burst":
			req[op.F] += op.X[0]
		default:
			req[op.F]++
		}
		if op.K != "del" {
			if o.S != sc.QVals[op.F] || o.N != req[op.F] || o.V != val(op.F) {
				bad("statistics are size %v requests %v value %v instead of %v %v %v", o.S, o.N, o.V, sc.QVals[op.F], req[op.F], val(op.F))
				return
			}
		}
		if !sc.QTies && req[op.F] > 200 {
			for f := range held {
				if f != op.F && val(f) == val(op.F) {
					return // equals: which goes is not the model's to say
				}
			}
		}
		if op.K == "put" && !held[op.F] {
			if sc.QVals[op.F] > sc.QMax {
				res.St.reach("qcache-too-large", 1)
			} else {
				for size()+sc.QVals[op.F] > sc.QMax {
					if sc.QTies {
						break // which of the equals goes is not the model's to say
					}
					min := -1
					for f := range held {
						if min < 0 || val(f) < val(min) {
							min = f
						}
					}
					delete(held, min)
					res.St.reach("qcache-evictions", 1)
				}
				held[op.F] = true
			}
		}
		if o.Size > sc.QMax {
			bad("the cache holds %v of at most %v", o.Size, sc.QMax)
			return
		}
		if sc.QTies {
			if d := o.Size / sc.QMax * 100; !same(o.Cap, d) {
				bad("occupancy %v%% of %v is given as %v", d, sc.QMax, o.Cap)
				return
			}
			continue
		}
		pts, min, minF := 0.0, math.MaxFloat64, ""
		for f := range held {
			pts += val(f)
			if val(f) < min {
				min, minF = val(f), qname(f)
			}
		}
		switch {
		case o.Size != size():
			bad("the cache holds %v instead of %v", o.Size, size())
		case o.Points != pts:
			bad("the files held are worth %v instead of %v", o.Points, pts)
		case !same(o.Cap, size()/sc.QMax*100):
			bad("occupancy is %v%% instead of %v", o.Cap, size()/sc.QMax*100)
		case o.MinF != minF || minF != "" && o.Min != min || minF == "" && o.Min < 1e300:
			bad("the least valued file is %q (%v) instead of %q (%v)", o.MinF, o.Min, minF, min)
		}
		if res.Viol != "" {
			return
		}
		res.St.States = append(res.St.States, simrt.Hash64(math.Float64bits(o.Size), math.Float64bits(o.Points)))
	}
	if !sc.QTies {
		var ks []int
		for f := range held {
			ks = append(ks, f)
		}
		sort.Slice(ks, func(i, j int) bool { return val(ks[i]) < val(ks[j]) })
		want := []string{}
		for _, f := range ks {
			want = append(want, qname(f))
		}
		if strings.Join(want, " ") != strings.Join(drain, " ") {
			res.Viol = fmt.Sprintf("the files held, by value, are %v instead of %v", drain, want)
		}
	}
	return
}

// ---------------------------------------------------------------- table

func qbucket(b []float64, v float64) int {
	for i, x := range b {
		if v <= x {
			return i
		}
	}
	return len(b) - 1
}

func qstate(fs [][]float64, at []float64) (st []float64, key string) {
	for i, b := range fs {
		k := qbucket(b, at[i])
		for j := range b {
			if j == k {
				st = append(st, 1)
			} else {
				st = append(st, 0)
			}
		}
		key += strconv.Itoa(k) + " "
	}
	return
}

type qrow [2]float64 // by action

func qnear(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*(1+math.Abs(a)+math.Abs(b))
}

var qActs = []qtable.ActionType{qtable.ActionStore, qtable.ActionNotStore}

func runQTable(sc *Scenario, c simrt.Config, st *Stats, res *Result) (string, simrt.Exit) {
	viol := func(s string, a ...interface{}) {
		if res.Viol == "" {
			res.Viol = fmt.Sprintf(s, a...)
		}
	}
	f, ex := qrun(sc, c, st, func() {
		var t qtable.QTable
		acts := []qtable.ActionType{qtable.ActionStore, qtable.ActionNotStore}
		if sc.QSwap {
			acts[0], acts[1] = acts[1], acts[0]
		}
		names := make([]string, len(sc.QFeat))
		for i := range names {
			names[i] = fmt.Sprintf("f%d", i)
		}
		t.Init(sc.QFeat, names, acts)
		simos.Print("\n=====\n")
		m := map[string]*qrow{}
		idxOf := map[string]uint64{}
		lr := math.NaN()
		check := func(i int) {
			for k, row := range m {
				for a, act := range qActs {
					if v := t.GetAction(idxOf[k], act); !qnear(v, row[a]) {
						viol("after update %d: state %s action %d is worth %v instead of %v", i+1, k, act, v, row[a])
						return
					}
				}
			}
		}
		for i, op := range sc.Calls {
			at := op.X[1:]
			want, key := qstate(sc.QFeat, at)
			got := t.GenCurState(append([]float64(nil), at...))
			if fmt.Sprint(got) != fmt.Sprint(want) {
				viol("the state of %v is %v instead of %v", at, got, want)
				return
			}
			idx := t.GetStateIdx(got)
			for k, j := range idxOf {
				if (j == idx) != (k == key) {
					viol("states %s and %s have the same row", k, key)
					return
				}
			}
			idxOf[key] = idx
			row := m[key]
			if row == nil {
				row = &qrow{}
				m[key] = row
				for a, act := range qActs {
					if v := t.GetAction(idx, act); v != 0 {
						viol("state %s begins with %v for action %d", key, v, act)
						return
					}
					_ = a
				}
			}
			// the best action before the update
			if row[0] != row[1] && math.Abs(row[0]-row[1]) > 1e-6 {
				w := qActs[0]
				if row[1] > row[0] {
					w = qActs[1]
				}
				if b := t.GetBestAction(got); b != w {
					viol("before update %d: the best action of state %s (%v) is given as %d", i+1, key, *row, b)
					return
				}
				res.St.reach("qtable-best", 1)
			}
			best := math.Max(row[0], row[1])
			old, rew := row[op.F], op.X[0]
			t.Update(got, qActs[op.F], rew)
			if target := rew + t.DecayRate*best - old; math.IsNaN(lr) && target != 0 {
				// the rate is the table's own business, but one for all
				lr = (t.GetAction(idx, qActs[op.F]) - old) / target
				if !(lr > 0 && lr <= 1) {
					viol("update %d: the value of state %s went from %v to %v for reward %v", i+1, key, old, t.GetAction(idx, qActs[op.F]), rew)
					return
				}
			}
			if !math.IsNaN(lr) {
				row[op.F] = old + lr*(rew+t.DecayRate*best-old)
			}
			check(i)
			if res.Viol != "" {
				return
			}
			res.St.reach("qtable-updates", 1)
		}
		simos.Print("\n=====\n")
		t.PrintTable()
		if res.Viol != "" {
			return
		}
	})
	return f.Stdout.String(), ex
}

var qRowRe = regexp.MustCompile(`^\[([01]+)\]\t\[([^\]]*)\]$`)

// qRows reads the rows of a printed table.
func qRows(text string) (rows map[string][]float64, twice string) {
	rows = map[string][]float64{}
	for _, l := range strings.Split(text, "\n") {
		m := qRowRe.FindStringSubmatch(strings.TrimRight(l, "\r"))
		if m == nil {
			continue
		}
		var v []float64
		for _, x := range strings.Fields(m[2]) {
			y, e := strconv.ParseFloat(x, 64)
			if e != nil {
				y = math.NaN()
			}
			v = append(v, y)
		}
		if _, ok := rows[m[1]]; ok {
			twice = m[1]
		}
		rows[m[1]] = v
	}
	return
}

func execQTable(sc *Scenario) (res Result) {
	out, ex := runQTable(sc, sc.Sim, &res.St, &res)
	if res.Viol != "" {
		return
	}
	if !ex.OK() {
		res.Viol = "the table died: " + ex.String() + " " + ex.Stack
		return
	}
	parts := strings.Split(out, "\n=====\n")
	n := 1
	for _, b := range sc.QFeat {
		n *= len(b)
	}
	for i, k := range []int{0, 2} {
		rows, twice := qRows(parts[k])
		if twice != "" || len(rows) != n {
			res.Viol = fmt.Sprintf("the printed table has %d different rows for %d states", len(rows), n)
			return
		}
		for s, v := range rows {
			if len(v) != 2 || i == 0 && (v[0] != 0 || v[1] != 0) {
				res.Viol = fmt.Sprintf("row %s is printed as %v", s, v)
				return
			}
		}
	}
	res.St.reach("qtable-rows", int64(n))
	var r2 Result
	o2, ex2 := runQTable(sc, otherSim(sc.Sim), &res.St, &r2)
	switch {
	case r2.Viol != "":
		res.Viol = r2.Viol
	case !ex2.OK():
		res.Viol = "the table died: " + ex2.String()
	case out != o2:
		res.Viol = "the same updates print different tables in two runs: " + firstDiff(out, o2)
	default:
		res.St.reach("compared-runs", 1)
	}
	return
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			z := ""
			if i < len(y) {
				z = y[i]
			}
			return fmt.Sprintf("line %d: %q and %q", i+1, tail(x[i], 200), tail(z, 200))
		}
	}
	return fmt.Sprintf("%d and %d lines", len(x), len(y))
}

// ---------------------------------------------------------------- the study

var qTok = regexp.MustCompile(`Start Episode \[(\d+)\]|Reward step (\d+) -> (-?[0-9.]+)|Total reward -> (-?[0-9.]+)`)

func execQMain(sc *Scenario) (res Result) {
	run := func(c simrt.Config) (string, simrt.Exit) {
		f, ex := qrun(sc, c, &res.St, qmain.VsimMain)
		return f.Stdout.String(), ex
	}
	out, ex := run(sc.Sim)
	whole := ex.OK()
	if !whole && ex.Kind != "livelock" { // of its full length: judged as far as it came
		res.Viol = "the study died: " + ex.String() + " " + ex.Stack
		return
	}
	if res.Viol = judgeStudy(out, whole, &res.St); res.Viol != "" {
		return
	}
	o2, ex2 := run(otherSim(sc.Sim))
	if !ex2.OK() && ex2.Kind != "livelock" {
		res.Viol = "the study died: " + ex2.String()
		return
	}
	if !whole || !ex2.OK() {
		n := len(out)
		if len(o2) < n {
			n = len(o2)
		}
		out, o2 = out[:n], o2[:n]
	}
	if out != o2 {
		res.Viol = "the study prints different results in two runs: " + firstDiff(out, o2)
		return
	}
	res.St.reach("compared-runs", 1)
	return
}

// judgeStudy follows the study's printed run with a model of it.
func judgeStudy(out string, whole bool, st *Stats) string {
	r := rand.New(rand.NewSource(42))
	var sizes []float64
	for i := 0; i < 1000; i++ {
		sizes = append(sizes, float64(r.Int()%1000))
	}
	feats := [][]float64{{50, 100, 200, 500, 750, 1000}, {1, 2, 3, 4, 5, 6, -1}, {10, 25, 50, 75, 90, 100}, {0, 1}}
	table := map[string]*qrow{} // Store, NotStore
	eps := 1.0
	episode := -1
	steps := 0
	var held map[int]bool
	var req []float64
	var size, points, sum float64
	near := func(a, b float64) bool { return math.Abs(a-b) <= 0.011+1e-12*math.Abs(b) }
	parts := strings.SplitN(out, "----- Start Episode", 2)
	rows, twice := qRows(parts[0])
	if twice != "" || len(rows) != 504 {
		return fmt.Sprintf("the table begins with %d different rows for 504 states", len(rows))
	}
	end := strings.LastIndex(out, "Total reward")
	for _, m := range qTok.FindAllStringSubmatch(out, -1) {
		switch {
		case m[1] != "":
			episode++
			if m[1] != strconv.Itoa(episode) {
				return fmt.Sprintf("episode %d follows episode %d", episode, episode-1)
			}
			held, req, size, points, sum, steps = map[int]bool{}, make([]float64, 1000), 0, 0, 0, 0
		case m[4] != "":
			if v, _ := strconv.ParseFloat(m[4], 64); !near(v, sum) {
				return fmt.Sprintf("episode %d: total reward %s instead of %.2f", episode, m[4], sum)
			}
			eps = 0.01 + 0.99*math.Exp(-0.005*float64(episode))
			st.reach("study-episodes", 1)
		default:
			if held == nil {
				return "a step before the first episode"
			}
			if m[2] != strconv.Itoa(steps) {
				return fmt.Sprintf("episode %d: step %s follows step %d", episode, m[2], steps-1)
			}
			steps++
			f := r.Int() % 1000
			req[f]++
			if held[f] {
				points += sizes[f]
			}
			val := sizes[f] * req[f]
			min := math.MaxFloat64
			for h := range held {
				if v := sizes[h] * req[h]; v < min {
					min = v
				}
			}
			gtms := 0.0
			if val > min {
				gtms = 1
			}
			_, key := qstate(feats, []float64{sizes[f], req[f], size / 1000000 * 100, gtms})
			row := table[key]
			if row == nil {
				row = &qrow{}
				table[key] = row
			}
			draw := r.Float64()
			store := false
			if draw > eps {
				store = row[0] > row[1]
				st.reach("study-best-actions", 1)
			} else {
				store = draw > 0.5
			}
			if store && !held[f] {
				if size+sizes[f] > 1000000 {
					return "" // cannot happen: all files fit
				}
				held[f] = true
				size += sizes[f]
				points += val
			}
			if v, _ := strconv.ParseFloat(m[3], 64); !near(v, points) {
				return fmt.Sprintf("episode %d step %d: reward %s, the files held are worth %.2f", episode, steps, m[3], points)
			}
			a := 1
			if store {
				a = 0
			}
			row[a] += 0.9 * (points + 0.005*math.Max(row[0], row[1]) - row[a])
			sum += points
			st.reach("study-steps", 1)
		}
	}
	if !whole {
		return ""
	}
	rows, twice = qRows(out[end:])
	if twice != "" || len(rows) != 504 {
		return fmt.Sprintf("the study ends with %d different rows for 504 states", len(rows))
	}
	for key, row := range table {
		at := strings.Fields(key)
		bits := ""
		for i, b := range feats {
			for j := range b {
				if at[i] == strconv.Itoa(j) {
					bits += "1"
				} else {
					bits += "0"
				}
			}
		}
		v := rows[strings.TrimLeft(bits, "0")]
		// printed in the order the study lists its actions: not storing, storing
		if len(v) != 2 || !near(v[0], row[1]) || !near(v[1], row[0]) {
			return fmt.Sprintf("the study ends with %v (not storing, storing) for state %s instead of [%.2f %.2f]", v, bits, row[1], row[0])
		}
	}
	for bits, v := range rows {
		if len(v) != 2 {
			return fmt.Sprintf("row %s is printed as %v", bits, v)
		}
	}
	st.reach("study-whole", 1)
	return ""
}
