//go:build go1.21

package main

// Generators of library-level scenarios. Every choice comes from one seed.

import (
	"sort"

	"simulator/v2/verifsim/simrt"
)

type rnd struct{ *simrt.Rand }

func newRnd(vals ...uint64) rnd { return rnd{simrt.NewRand(simrt.Hash64(vals...))} }

func (r rnd) of(xs ...string) string   { return xs[r.Intn(len(xs))] }
func (r rnd) fl(xs ...float64) float64 { return xs[r.Intn(len(xs))] }
func (r rnd) in64(xs ...int64) int64   { return xs[r.Intn(len(xs))] }
func (r rnd) n(xs ...int) int          { return xs[r.Intn(len(xs))] }
func (r rnd) i64(a, b int64) int64     { return a + int64(r.Intn(int(b-a+1))) }

const day0 = int64(1514764800) // 2018-01-01

// genSim draws the schedule, map order, clock and step budget of a process.
func genSim(r rnd) simrt.Config {
	c := simrt.Config{SchedSeed: r.U64()>>1 | 1, MaxSteps: 120_000_000}
	c.Preempt = r.fl(0, 0, 0.001, 0.01, 0.1, 0.5)
	c.BlockRand = r.fl(0, 0.3, 1)
	if r.P(0.2) {
		c.StallGo = r.Range(1, 4)
	}
	if r.P(0.8) {
		c.MapSeed = r.U64()>>1 | 1
	}
	if r.P(0.5) {
		c.ClockSeed = r.U64()>>1 | 1
	}
	c.ClockStart = 1_500_000_000_000_000_000 + int64(r.Intn(1_000_000))*1_000_000_000 + int64(r.Intn(1_000_000_000))
	return c
}

var queueTypes = []string{"lru", "lfu", "sizeBig", "sizeSmall", "lruDatasetVerifier", "random_lru", "aiNN"}

// genCache draws a configuration; kinds limits the type.
func genCache(r rnd, kinds ...string) CacheCfg {
	c := CacheCfg{Type: kinds[r.Intn(len(kinds))], Unit: "M", BW: r.fl(0.001, 0.01, 10), Seed: int64(r.Intn(1000)), High: 95, Low: 75, MaxDiff: 6, Delta: 7, GlobalEps: 1, GlobalDec: 0.001}
	c.SizeV = r.fl(16, 32, 64, 64, 100, 128, 256)
	if r.P(0.1) {
		c.SizeV, c.Unit = r.fl(0.25, 1, 2), r.of("G", "g", "G", "g", "T", "t", "P", "p")
	}
	if r.P(0.4) {
		c.MaxDiff = r.fl(0.5, 1, 2, 6, 30)
		c.Delta = r.fl(1, 2, 7, 14)
	}
	switch c.Type {
	case "weightFunLRU":
		c.WF = r.of("FuncAdditive", "FuncAdditiveExp", "FuncMultiplicative")
		c.Alpha, c.Beta, c.Gamma = r.fl(0, 1, 2), r.fl(0, 1, 2), r.fl(0, 1, 2)
		if c.WF == "FuncAdditive" {
			c.Alpha, c.Beta, c.Gamma = r.fl(0, 0.5, 1, 4), r.fl(0, 0.25, 1), r.fl(0, 0.5, 1)
		}
	case "aiRL":
		genRL(r, &c)
	}
	return c
}

// typesFor are the cache types a property is checked on.
func genFeats(r rnd, names []string) []Feat {
	var out []Feat
	fine := len(names) <= 3 && r.P(0.25) // hundreds of states
	for _, n := range names {
		f := Feat{Name: n}
		switch n {
		case "hit":
			f.Type, f.B = "bool", []bool{false, true}
			if r.P(0.5) {
				f.B = []bool{true, false}
			}
		case "size", "catSize":
			f.Type, f.F, f.Open = "float", [][]float64{{2, 8}, {1, 4, 16}, {5}}[r.Intn(3)], true
		case "numReq", "catNumReq":
			f.Type, f.I, f.Open = "int", [][]int64{{1, 2, 4}, {1}, {2, 10}}[r.Intn(3)], true
		case "deltaLastRequest", "catDeltaLastRequest":
			f.Type, f.I, f.Open = "int", [][]int64{{3, 20}, {10}, {1, 50, 100}}[r.Intn(3)], true
		case "percOcc", "catPercOcc":
			f.Type, f.F = "float", [][]float64{{25, 50, 100}, {50, 75}, {90}}[r.Intn(3)]
			f.Open = f.F[len(f.F)-1] != 100 || r.P(0.5)
		case "hitRate":
			f.Type, f.F = "float", [][]float64{{20, 50, 100}, {30, 60}}[r.Intn(2)]
			f.Open = f.F[len(f.F)-1] != 100
		}
		if fine {
			switch n {
			case "size", "catSize":
				f.F = []float64{0.5, 1, 2, 4, 8, 16, 32}
			case "numReq", "catNumReq":
				f.I = []int64{1, 2, 3, 4, 5, 6, 8, 12}
			case "deltaLastRequest", "catDeltaLastRequest":
				f.I = []int64{1, 2, 3, 5, 8, 12, 20, 50}
			}
		}
		out = append(out, f)
	}
	return out
}

func (r rnd) subset(xs []string, min int) []string {
	for {
		var o []string
		for _, x := range xs {
			if r.P(0.5) {
				o = append(o, x)
			}
		}
		if len(o) >= min {
			return o
		}
	}
}

func genRL(r rnd, c *CacheCfg) {
	c.RLType = r.of("SCDL2", "SCDL2", "scdl2", "SCDL")
	c.EvcType = r.of("onK", "on_k", "onDayEnd", "onFree", "onK")
	mode := r.Intn(3) // both, eviction, addition
	if c.RLType == "SCDL" {
		mode = 2
	}
	if mode != 1 {
		c.Add = genFeats(r, r.subset([]string{"size", "numReq", "deltaLastRequest", "percOcc", "hitRate", "hit"}, 1))
	}
	if mode != 2 {
		of := []string{"catSize", "catNumReq", "catDeltaLastRequest"}
		if r.P(0.35) { // as in featureMaps/no_*
			of = r.subset(of, 1)
		}
		c.Evc = genFeats(r, append(of, r.subset([]string{"catPercOcc", "percOcc", "hitRate"}, 0)...))
		for i := range c.Evc[:len(of)] {
			c.Evc[i].File = true
		}
	} else if c.scdl2() {
		c.EvcType = r.of("NONE", "none", "onK", "noEviction")
	}
	c.K = r.in64(0, 1, 3, 8, 32)
	eps := func() (float64, float64, bool) {
		return r.fl(1, 1, 0.5, 0.2, 0.11, 0.1, 0.05, 0), r.fl(0, 0.0001, 0.01, 0.05, 0.5, 2), r.P(0.6)
	}
	c.AddEps, c.AddDecay, c.AddUnl = eps()
	c.EvcEps, c.EvcDecay, c.EvcUnl = eps()
	c.GlobalEps, c.GlobalDec = r.fl(1, 0.5), r.fl(0.001, 0.1)
	c.MapZip = r.of("", "", "", ".gz", ".gzip")
}

// kindsFor are the cache types a property is checked on.
func kindsFor(prop string) []string {
	all := []string{"lru", "lfu", "sizeBig", "sizeSmall", "lruDatasetVerifier", "random_lru", "random", "aiNN", "weightFunLRU", "infinite", "aiRL", "aiRL"}
	switch prop {
	case "C02":
		return []string{"lru", "lfu", "lfu", "sizeBig", "sizeSmall", "lruDatasetVerifier", "random_lru", "aiNN", "aiRL"}
	case "C11":
		return []string{"lru", "lfu", "sizeBig", "sizeSmall", "lruDatasetVerifier", "random_lru", "random", "aiNN", "weightFunLRU", "aiRL"}
	case "C13":
		return []string{"lru", "lfu", "weightFunLRU", "lruDatasetVerifier", "aiRL", "random_lru"}
	case "C14", "C15", "C16":
		return []string{"aiRL"}
	case "C17":
		return []string{"weightFunLRU"}
	case "C32":
		return []string{"lruDatasetVerifier", "lruDatasetVerifier", "aiRL", "aiRL", "aiRL", "aiNN", "lru"}
	case "C06":
		return []string{"lru", "lfu", "sizeBig", "sizeSmall", "lruDatasetVerifier", "random_lru", "aiNN", "weightFunLRU", "weightFunLRU", "infinite", "aiRL", "aiRL", "random"}
	case "C04", "C20", "C05", "C10", "C18", "C19":
		return []string{"lru", "lfu", "sizeBig", "sizeSmall", "lruDatasetVerifier", "random_lru", "aiNN", "weightFunLRU", "weightFunLRU", "infinite", "aiRL", "aiRL"}
	}
	return all
}

func (r rnd) either(yes bool, a, b float64) bool {
	if yes {
		return r.P(a)
	}
	return r.P(b)
}

// genCfg draws a cache configuration for a property.
func genCfg(prop string, r rnd) CacheCfg {
	kinds := kindsFor(prop)
	c := genCache(r, kinds...)
	for prop == "C14" && !c.learnEvict() || (prop == "C02" || prop == "C11") && c.learnEvict() {
		c = genCache(r, kinds...)
	}
	c.Log = r.either(prop == "C09" || prop == "C14", 1, 0.25) || c.Type == "random"
	if c.Type != "infinite" {
		c.WM = r.either(prop == "C11", 0.85, 0.15)
		if prop == "C02" {
			c.WM = r.P(0.2)
		}
	}
	if c.WM || prop == "C11" {
		c.High = r.fl(95, 90, 75, 50, 25, 100, 62.5)
		c.Low = r.fl(75, 50, 25, 0, 12.5, 90)
		if c.Low > c.High {
			c.Low, c.High = c.High, c.Low
		}
		if r.P(0.1) {
			c.Low = c.High
		}
	}
	c.Redirect = r.either(prop == "C12", 0.85, 0.15)
	c.Region = r.of("", "", "it", "us")
	if c.Type == "lruDatasetVerifier" {
		c.Dataset = []int64{}
	}
	return c
}

// genLib builds a library-level scenario for a property.
func genLib(prop string, r rnd) *Scenario {
	sc := &Scenario{Prop: prop, Kind: "lib", Sim: genSim(r)}
	if r.P(0.3) {
		sc.Split = r.U64()>>1 | 1
	}
	genOps(prop, r, sc, genCfg(prop, r))
	return sc
}

// genOps draws the operations, following them with the model so that a file
// keeps its size while it is held.
func genOps(prop string, r rnd, sc *Scenario, c CacheCfg) {
	max := c.megabytes()
	nf := r.n(3, 5, 8, 15, 30, 60)
	n := r.n(10, 30, 60, 120, 250)
	switch prop {
	case "C13":
		n = r.n(30, 120, 250, 400)
		nf = r.n(1, 2, 5, 15, 40)
	case "C09":
		n = r.n(5, 30, 100, 300)
	case "C15", "C16", "C14":
		n = r.n(40, 120, 300)
	}
	if c.isRL() && n > 200 && r.P(0.5) {
		n = 200
	}
	long := false
	switch prop {
	case "C01", "C02", "C03", "C11", "C12", "C13", "C17":
		long = !c.isRL() && r.P(0.012)
	}
	if long { // a long period, many files
		n, nf = r.n(700, 1200), r.n(5, 60, 200)
	}
	flood := false
	switch prop {
	case "C01", "C02", "C04", "C09", "C11", "C14", "C15", "C16", "C17", "C20":
		flood = r.P(0.03)
	}
	if flood {
		n, nf = r.n(250, 400), r.n(100, 200, 300)
	}
	unit := max / r.fl(4, 8, 16, 32, 64)
	sizes := make([]float64, nf+1)
	newSize := func() float64 {
		switch r.Pick(6, 4, 2, 1, 1, 1, 1) {
		case 0:
			return unit * float64(r.Range(1, 4))
		case 1:
			return unit * float64(r.Range(1, 16)) / 8
		case 2:
			return unit
		case 3:
			return max
		case 4:
			return max + unit
		case 5:
			return max / 2
		}
		return 1. / 1024
	}
	if r.P(0.15) { // some files are empty
		more := newSize
		newSize = func() float64 {
			if r.P(0.2) {
				return 0
			}
			return more()
		}
	}
	if flood { // many small files, then one that takes the room of all of them
		unit = max / r.fl(64, 128, 256)
		part := r.P(0.5)
		newSize = func() float64 {
			switch {
			case r.P(0.06):
				return max / r.fl(1, 2, 4)
			case part:
				return unit * float64(r.Range(1, 8)) / 8
			}
			return unit
		}
	}
	uniform := r.P(0.25) && !flood
	for i := range sizes {
		sizes[i] = newSize()
		if uniform {
			sizes[i] = unit
		}
	}
	// bandwidth such that redirects happen within a period
	if c.Redirect {
		gb := (1000. / 8.) * 60 * 60 * 24
		c.BW = unit * r.fl(2, 4, 8, 20) / gb
		if r.P(0.3) { // 95 percent is reached exactly
			c.BW = unit * 16 / 0.95 / gb
		}
	}
	if c.Type == "lruDatasetVerifier" {
		for f := 1; f <= nf; f++ {
			if r.P(0.6) {
				c.Dataset = append(c.Dataset, int64(f))
			}
		}
	}
	sc.Cfg = c
	cur := c
	m := NewModel(c)
	t := day0 + int64(r.Intn(40))*86400
	mode := r.Intn(4) // request times: day granularity, hours, fine, wild
	if prop == "C13" {
		mode = r.n(0, 1, 3, 3)
	}
	dayP := r.fl(0, 0.02, 0.1)
	chkP := 0.05
	switch prop {
	case "C01", "C04", "C20":
		chkP = 0.15
	case "C13", "C15", "C17", "C02", "C14":
		chkP = 0.2
	case "C09":
		chkP = 0
	}
	if long {
		dayP, chkP = 0, 0.02
	}
	restP := 0.0
	kinds := []string{"hot", "cold", "coldns"}
	switch prop {
	case "C04":
		restP = r.fl(0.02, 0.05, 0.2)
		kinds = []string{"hot"}
	case "C20":
		restP = r.fl(0.02, 0.05, 0.2)
		kinds = []string{"cold", "coldns", "cold", "hot"}
	case "C01", "C02", "C11", "C17":
		restP = r.fl(0, 0.02, 0.05)
	case "C03", "C13", "C12", "C14", "C15", "C16":
		restP = r.fl(0, 0, 0.02)
		kinds = []string{"hot"}
	}
	if c.Type == "random" {
		restP = 0
	}
	back := mode == 3 && c.Type != "weightFunLRU" && r.P(0.2)
	last := t
	hot := r.Intn(nf) + 1
	lastDay := t
	autoDay := r.P(0.5) && !long
	for len(sc.Ops) < n {
		add := func(o Op) { sc.Ops = append(sc.Ops, o) }
		switch {
		case r.P(chkP):
			add(Op{K: "chk"})
		case r.P(restP) && len(sc.Ops) > 2:
			k := kinds[r.Intn(len(kinds))]
			o := Op{K: k}
			if k != "hot" && r.P(0.6) {
				nc := cur
				mutateCfg(r, &nc)
				o.NC = &nc
			}
			if k == "hot" && (prop == "C11" || prop == "C12" || prop == "C01") && r.P(0.5) {
				// the same cache under other marks or another bandwidth
				nc := cur
				if nc.Type != "infinite" {
					nc.WM = r.P(0.8)
					nc.High, nc.Low = r.fl(95, 90, 75, 50, 25), r.fl(75, 50, 25, 0)
					if nc.Low > nc.High {
						nc.Low, nc.High = nc.High, nc.Low
					}
				}
				nc.BW *= r.fl(1, 0.5, 2)
				o.NC = &nc
			}
			sv := m.Save(true)
			if o.NC != nil {
				cur = *o.NC
			}
			m = NewModel(cur)
			m.Restore(sv)
			if k != "hot" {
				m.ColdStart(k == "coldns")
			}
			add(o)
			if r.P(0.5) {
				add(Op{K: "chk"})
			}
		case r.P(dayP):
			add(Op{K: "day"})
			m.ClearStats()
		default:
			var f int64
			switch r.Pick(5, 2, 2, 1) {
			case 0:
				f = int64(r.Intn(nf)) + 1
			case 1:
				f = int64(hot)
			case 2:
				// a held file, in name order
				hs := make([]int64, 0, len(m.held))
				for k := range m.held {
					hs = append(hs, k)
				}
				sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
				if len(hs) == 0 {
					f = 1
				} else {
					f = hs[r.Intn(len(hs))]
				}
			case 3:
				hot = r.Intn(nf) + 1
				f = int64(hot)
			}
			if m.held[f] == nil && r.P(0.05) && !uniform {
				sizes[f] = newSize()
			}
			// time
			switch mode {
			case 0:
				if r.P(0.1) {
					t += 86400 * r.in64(1, 1, 1, 2)
				}
			case 1:
				t += r.in64(0, 0, 60, 3600, 7200, 82800, 82740, 86400)
			case 2:
				t += r.in64(0, 60, 60, 120)
			case 3:
				d := int64(cur.MaxDiff * 86400)
				g := int64(cur.Delta * 86400)
				t += r.in64(0, 0, 0, 60, 86400, d, d-60, d+60, d/2, g, g-60, g+60, g/2, 82800)
			}
			if back && r.P(0.05) && t > last+3600 {
				t -= 3600
			}
			if autoDay && t-lastDay >= 82800 {
				add(Op{K: "day"})
				m.ClearStats()
				lastDay = t
			}
			q := Req{F: f, S: sizes[f], P: r.in64(0, 1, 1, 2), E: r.fl(100, 75, 50, 25, 12.5, 0, 62.5, 1./4096, 99.9375), T: t, Site: r.i64(0, 20), User: r.i64(0, 5), FT: r.i64(0, 10)}
			last = t
			m.Request(q)
			add(Op{K: "req", R: &q})
		}
	}
	add := Op{K: "chk"}
	sc.Ops = append(sc.Ops, add)
}

// mutateCfg changes what a cold start may change.
func mutateCfg(r rnd, c *CacheCfg) {
	if r.P(0.6) && c.Type != "infinite" {
		c.SizeV *= r.fl(0.5, 0.25, 2)
	}
	switch c.Type {
	case "lru", "lfu", "sizeBig", "sizeSmall", "aiNN", "random_lru":
		if r.P(0.6) {
			c.Type = r.of("lru", "lfu", "sizeBig", "sizeSmall", "random_lru")
		}
	}
	if c.Type != "infinite" && r.P(0.4) {
		c.WM = !c.WM
		c.High, c.Low = r.fl(90, 75, 50), r.fl(50, 25)
	}
	if r.P(0.3) {
		c.Redirect = !c.Redirect
	}
	c.BW *= r.fl(1, 0.5, 2)
	if r.P(0.3) && c.Type != "random" {
		c.Log = !c.Log
	}
}
