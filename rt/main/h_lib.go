//go:build go1.21

package main

// Library-level runs: a cache driven request by request inside one simulated
// process, its whole history recorded, then judged against the model.

import (
	"bytes"
	"compress/gzip"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"

	"simulator/v2/cache"
	"simulator/v2/verifsim/simos"
	"simulator/v2/verifsim/simrt"
)

const logName = "simulationLogFile.csv.gz"

// dumpFile is the part of a dumped history the properties speak about.
type dumpFile struct {
	Filename  int64     `json:"filename"`
	Weight    float64   `json:"weight"`
	Size      float64   `json:"size"`
	Frequency int64     `json:"frequency"`
	Recency   int64     `json:"recency"`
	NHits     int64     `json:"nHits"`
	NMiss     int64     `json:"nMiss"`
	Ins       simTime   `json:"statInsertTime"`
	Upd       simTime   `json:"statLastUpdateTime"`
	Mean      float64   `json:"requestedTimesMean"`
	Times     []simTime `json:"requestedTimes"`
	Delta     int64     `json:"deltaLastRequest"`
	Idx       int       `json:"idxLastRequest"`
}

// DumpRec is a parsed dump.
type DumpRec struct {
	Files    []dumpFile
	Stats    map[int64]dumpFile
	Dup      string
	Q        map[string][][]float64 // ADDAGENT, EVCAGENT
	Eps      map[string]float64
	Err      string
	HasAgent map[string]bool
}

// StepRec is what the cache showed after one operation.
type StepRec struct {
	Done    bool
	Added   bool
	Red     bool
	O       Obs
	O2      *Obs // after a dump
	DelMiss int
	D       *DumpRec
	Tab     [2]string
	NFiles  int
}

// LibRun is the recorded history of a library-level run.
type LibRun struct {
	Steps []StepRec
	Logs  [][][]string
	LogE  []string
	Exit  simrt.Exit
}

func (c CacheCfg) initParams() cache.InitParameters {
	p := cache.InitParameters{
		Log: c.Log, RedirectReq: c.Redirect, Watermarks: c.WM, HighWatermark: c.High, LowWatermark: c.Low,
		FunctionTypeString: c.WF, WfParams: cache.WeightFunctionParameters{Alpha: c.Alpha, Beta: c.Beta, Gamma: c.Gamma},
		EvictionAgentType: c.EvcType, RandSeed: c.Seed, AIRLEvictionK: c.K, AIRLType: c.RLType,
		AIRLAdditionEpsilonStart: c.AddEps, AIRLAdditionEpsilonDecay: c.AddDecay, AIRLAdditionEpsilonUnleash: c.AddUnl,
		AIRLEvictionEpsilonStart: c.EvcEps, AIRLEvictionEpsilonDecay: c.EvcDecay, AIRLEvictionEpsilonUnleash: c.EvcUnl,
		MaxNumDayDiff: c.MaxDiff, DeltaDaysStep: c.Delta,
	}
	if c.Type == "lruDatasetVerifier" {
		p.Dataset2TestPath = "/w/dataset.json.gz"
	}
	if c.Type == "aiNN" {
		p.AIFeatureMap = "/w/nn.json"
	}
	if len(c.Add) > 0 {
		p.AIRLAdditionFeatureMap = "/w/add.json" + c.MapZip
	}
	if len(c.Evc) > 0 {
		p.AIRLEvictionFeatureMap = "/w/evc.json" + c.MapZip
	}
	return p
}

// putCfgFiles stores the files a cache configuration names.
func putCfgFiles(f *simos.FS, c CacheCfg) {
	if c.Type == "lruDatasetVerifier" {
		b, _ := json.Marshal(map[string]interface{}{"selected_files": c.Dataset})
		if c.Dataset == nil {
			b = []byte(`{"selected_files": []}`)
		}
		f.Put("/w/dataset.json.gz", gz(b, 0))
	}
	if c.Type == "aiNN" {
		f.Put("/w/nn.json", featMapJSON([]Feat{{Name: "size", Type: "float", F: []float64{1, 2}, Open: true}}))
	}
	if len(c.Add) > 0 {
		f.Put("/w/add.json"+c.MapZip, c.featMap(c.Add))
	}
	if len(c.Evc) > 0 {
		f.Put("/w/evc.json"+c.MapZip, c.featMap(c.Evc))
	}
}

func (c CacheCfg) featMap(fs []Feat) []byte {
	if c.MapZip != "" {
		return gz(featMapJSON(fs), 0)
	}
	return featMapJSON(fs)
}

func newCache(c CacheCfg) cache.Cache {
	x := cache.Create(c.Type, c.SizeV, c.Unit, c.WF, cache.WeightFunctionParameters{Alpha: c.Alpha, Beta: c.Beta, Gamma: c.Gamma})
	cache.InitInstance(c.Type, x, c.initParams())
	cache.SetBandwidth(x, c.BW)
	if c.Region == "us" || c.Region == "it" {
		cache.SetRegion(x, c.Region)
	}
	return x
}

func observe(x cache.Cache, c CacheCfg, full bool) (o Obs) {
	o = Obs{HitRate: x.HitRate(), WHit: x.WeightedHitRate(), Size: x.Size(), Max: x.GetMaxSize(), Cap: x.Capacity(), AvgFree: x.AvgFreeSpace(), StdFree: x.StdDevFreeSpace(),
		DW: x.DataWritten(), DR: x.DataRead(), DRH: x.DataReadOnHit(), DRM: x.DataReadOnMiss(), DD: x.DataDeleted(),
		CPU: x.CPUEff(), CPUH: x.CPUHitEff(), CPUM: x.CPUMissEff(), CPUU: x.CPUEffUpperBound(), CPUL: x.CPUEffLowerBound(),
		BW: x.Bandwidth(), BWU: x.BandwidthUsage(), RedSize: x.RedirectedSize(),
		NReq: x.NumRequests(), NHit: x.NumHits(), NAdd: x.NumAdded(), NDel: x.NumDeleted(), NRed: x.NumRedirected(), NFiles: -1}
	if full || !c.isRL() {
		o.Extra = x.ExtraStats()
	}
	if n, ok := x.(interface{ NumFiles() int }); ok {
		o.NFiles = n.NumFiles()
	}
	if c.isRL() {
		o.Eps = x.ExtraOutput("epsilonStats")
		o.Val = x.ExtraOutput("valueFunctions")
		o.EvcStats = x.ExtraOutput("evictionStats")
		o.CatStats = x.ExtraOutput("evictionCategoryStats")
		o.Act = x.ExtraOutput("actionStats")
	}
	return o
}

// simTime keeps the instant of a JSON time; the zero time is math.MinInt64.
type simTime int64

func (t *simTime) UnmarshalJSON(b []byte) error {
	u, e := parseTime(string(b))
	*t = simTime(u)
	return e
}

func parseDump(lines [][]byte) *DumpRec {
	d := &DumpRec{Stats: map[int64]dumpFile{}, Q: map[string][][]float64{}, Eps: map[string]float64{}, HasAgent: map[string]bool{}}
	held := map[int64]bool{}
	for i, l := range lines {
		var r struct {
			Info, Data string
			Filename   int64
		}
		var in struct{ Type string }
		if e := json.Unmarshal(l, &r); e != nil {
			d.Err = fmt.Sprintf("record %d: %v", i, e)
			return d
		}
		if e := json.Unmarshal([]byte(r.Info), &in); e != nil {
			d.Err = fmt.Sprintf("record %d info: %v", i, e)
			return d
		}
		switch in.Type {
		case "FILES", "STATS":
			var x dumpFile
			if e := json.Unmarshal([]byte(r.Data), &x); e != nil {
				d.Err = fmt.Sprintf("record %d data: %v", i, e)
				return d
			}
			if in.Type == "FILES" {
				if held[x.Filename] {
					d.Dup = fmt.Sprintf("file %d listed twice", x.Filename)
				}
				held[x.Filename] = true
				d.Files = append(d.Files, x)
			} else {
				if _, ok := d.Stats[r.Filename]; ok || r.Filename != x.Filename {
					d.Dup = fmt.Sprintf("history of file %d under %d", x.Filename, r.Filename)
				}
				d.Stats[r.Filename] = x
			}
		case "ADDAGENT", "EVCAGENT":
			var x struct {
				Q struct {
					Actions [][]float64 `json:"actions"`
				} `json:"qtable"`
				Eps float64 `json:"epsilon"`
			}
			if e := json.Unmarshal([]byte(r.Data), &x); e != nil {
				d.Err = fmt.Sprintf("record %d data: %v", i, e)
				return d
			}
			d.Q[in.Type] = x.Q.Actions
			d.Eps[in.Type] = x.Eps
			d.HasAgent[in.Type] = true
		}
	}
	return d
}

func trimNL(ls [][]byte) [][]byte {
	var o [][]byte
	for _, l := range ls {
		o = append(o, bytes.TrimRight(l, "\n"))
	}
	return o
}

func gunzip(b []byte) ([]byte, error) {
	r, e := gzip.NewReader(bytes.NewReader(b))
	if e != nil {
		return nil, e
	}
	return io.ReadAll(r)
}

func readLog(f *simos.FS, path string) ([][]string, string) {
	b, ok := f.Get(path)
	if !ok {
		return nil, "no log file"
	}
	raw, e := gunzip(b)
	if e != nil {
		return nil, "log file: " + e.Error()
	}
	r := csv.NewReader(bytes.NewReader(raw))
	r.FieldsPerRecord = -1
	rows, e := r.ReadAll()
	if e != nil {
		return nil, "log file: " + e.Error()
	}
	return rows, ""
}

// nextCfg returns the configuration after an operation.
func nextCfg(c CacheCfg, o Op) CacheCfg {
	if o.NC != nil {
		return *o.NC
	}
	return c
}

// resetRand restarts math/rand's own generator where a new process would find
// it: somewhere else for every process, but the same in a replay.
func resetRand(c simrt.Config) {
	simos.ResetRand(int64(simrt.Hash64(c.SchedSeed, c.MapSeed, c.ClockSeed, 77) >> 1))
}

func runLib(sc *Scenario, st *Stats) *LibRun {
	f := simos.NewFS("/w")
	putCfgFiles(f, sc.Cfg)
	for _, o := range sc.Ops {
		if o.NC != nil {
			putCfgFiles(f, *o.NC)
		}
	}
	f.SyncAll()
	f.SplitSeed = sc.Split
	f.Latency = sc.Lat
	f.StartProcess("/w", sc.Faults)
	simos.Cur = f
	resetRand(sc.Sim)
	lr := &LibRun{Steps: make([]StepRec, len(sc.Ops))}
	cfg := sc.Sim
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 120_000_000
	}
	start := cfg.ClockStart
	if start == 0 {
		start = 1_600_000_000_000_000_000
	}
	w, ex := simrt.Run(cfg, func() {
		c := sc.Cfg
		x := newCache(c)
		end := func() {
			_ = cache.Terminate(x)
			if c.Log {
				l, e := readLog(f, "/w/"+logName)
				lr.Logs, lr.LogE = append(lr.Logs, l), append(lr.LogE, e)
			} else {
				lr.Logs, lr.LogE = append(lr.Logs, nil), append(lr.LogE, "")
			}
		}
		for i := range sc.Ops {
			o := &sc.Ops[i]
			s := &lr.Steps[i]
			switch o.K {
			case "req":
				q := o.R
				s.Added, s.Red = cache.GetFile(x, q.F, q.S, q.P, q.E, q.T, q.Site, q.User, q.FT)
			case "day":
				s.DelMiss = x.GetTotDeletedFileMiss()
				cache.ClearStats(x)
			case "chk":
				s.D = parseDump(trimNL(x.Dumps(true)))
				o2 := observe(x, c, true)
				s.O2 = &o2
				if c.isRL() {
					s.Tab[0], s.Tab[1] = x.ExtraOutput("additionQTable"), x.ExtraOutput("evictionQTable")
				}
			case "hot", "cold", "coldns":
				cache.Dump(x, "dump.json.gz", true)
				end()
				c = nextCfg(c, *o)
				x = newCache(c)
				lines := cache.Load(x, "dump.json.gz")
				if c.isRL() {
					cache.Loads(x, lines, c.GlobalEps, c.GlobalDec)
				} else {
					cache.Loads(x, lines)
				}
				switch o.K {
				case "cold":
					cache.ClearFiles(x)
				case "coldns":
					cache.Clear(x)
				}
				s.D = parseDump(trimNL(x.Dumps(true)))
			}
			s.O = observe(x, c, o.K != "req")
			s.Done = true
		}
		end()
	})
	lr.Exit = ex
	st.world(w, f, start)
	for i := range sc.Ops {
		if r := sc.Ops[i].R; r != nil && i > 0 {
			if p := sc.Ops[i-1].R; p != nil && r.T > p.T {
				st.DataSecs += r.T - p.T
			}
		}
	}
	return lr
}

// ---------------------------------------------------------------- judging

func same(a, b float64) bool {
	if a == b || math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	d := math.Abs(a - b)
	return d <= 2e-6 || d <= 1e-9*(math.Abs(a)+math.Abs(b))
}

// sameText compares strings, numbers in them up to one unit of the last
// digit shown.
func sameText(a, b string) bool {
	if a == b {
		return true
	}
	x, y := split(a), split(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] == y[i] {
			continue
		}
		u, e1 := strconv.ParseFloat(x[i], 64)
		v, e2 := strconv.ParseFloat(y[i], 64)
		if e1 != nil || e2 != nil {
			return false
		}
		p := 0
		if k := strings.IndexByte(x[i], '.'); k >= 0 {
			p = len(x[i]) - k - 1
		}
		if p == 0 && u != v {
			return false
		}
		if math.Abs(u-v) > 1.01*math.Pow(10, -float64(p))+1e-9*math.Abs(u) {
			return false
		}
	}
	return true
}

func split(s string) []string {
	var out []string
	num := func(c byte) bool {
		return c >= '0' && c <= '9' || c == '.' || c == '-' || c == '+' || c == 'e'
	}
	for i := 0; i < len(s); {
		j := i
		k := num(s[i])
		for j < len(s) && num(s[j]) == k {
			j++
		}
		out = append(out, s[i:j])
		i = j
	}
	return out
}

// Mis is a difference from the model.
type Mis struct {
	Tags []string
	Msg  string
	Step int
}

func mis(step int, tags []string, f string, a ...interface{}) *Mis {
	return &Mis{Tags: tags, Msg: fmt.Sprintf(f, a...), Step: step}
}

// ctx says which properties a wrong decision of the cache concerns.
type ctx struct {
	cfg       CacheCfg
	hot, cold bool
}

func (c ctx) restart(t []string) []string {
	t = append([]string(nil), t...)
	if c.hot {
		t = append(t, "C04")
	}
	if c.cold {
		t = append(t, "C20")
	}
	return t
}

func (c ctx) content(extra ...string) []string {
	t := append([]string(nil), extra...)
	switch {
	case c.cfg.learnEvict():
		t = append(t, "C14", "C15", "C16")
	case c.cfg.isRL():
		t = append(t, "C02", "C15", "C16")
	case c.cfg.Type == "weightFunLRU":
		t = append(t, "C17", "C02")
	default:
		t = append(t, "C02")
	}
	return c.restart(t)
}

func (c ctx) water(t []string) []string {
	if c.cfg.WM {
		t = append(t, "C11")
	}
	return t
}

func (c ctx) obs(i int, g, w Obs) *Mis {
	num := func(name string, a, b float64, tags ...string) *Mis {
		if !same(a, b) {
			return mis(i, tags, "%s is %v, should be %v", name, a, b)
		}
		return nil
	}
	first := func(ms ...*Mis) *Mis {
		for _, m := range ms {
			if m != nil {
				return m
			}
		}
		return nil
	}
	text := func(name, a, b string, tags ...string) *Mis {
		if !sameText(a, b) {
			return mis(i, tags, "%s is %q, should be %q", name, a, b)
		}
		return nil
	}
	if g.NFiles < 0 {
		w.NFiles = g.NFiles
	}
	if m := first(
		num("maximum size", g.Max, w.Max, c.restart([]string{"C01"})...),
		num("number of files", float64(g.NFiles), float64(w.NFiles), c.water(c.content())...),
		num("occupied space", g.Size, w.Size, c.water(c.content("C01"))...),
		num("capacity", g.Cap, w.Cap, "C01", "C03", "C11"),
		num("redirected requests", float64(g.NRed), float64(w.NRed), "C12", "C03"),
		num("redirected size", g.RedSize, w.RedSize, "C12", "C03"),
		num("bandwidth", g.BW, w.BW, c.restart([]string{"C12", "C03"})...),
		num("bandwidth usage", g.BWU, w.BWU, "C12", "C03"),
		num("requests", float64(g.NReq), float64(w.NReq), "C03"),
		num("hits", float64(g.NHit), float64(w.NHit), "C03"),
		num("admissions", float64(g.NAdd), float64(w.NAdd), "C03"),
		num("evictions", float64(g.NDel), float64(w.NDel), "C03", "C14"),
		num("hit rate", g.HitRate, w.HitRate, "C03"),
		num("weighted hit rate", g.WHit, w.WHit, "C03"),
		num("data written", g.DW, w.DW, "C03"),
		num("data read", g.DR, w.DR, "C03"),
		num("data read on hit", g.DRH, w.DRH, "C03"),
		num("data read on miss", g.DRM, w.DRM, "C03", "C12"),
		num("data deleted", g.DD, w.DD, "C03"),
		num("mean free space", g.AvgFree, w.AvgFree, "C03"),
		num("deviation of free space", g.StdFree, w.StdFree, "C03"),
		num("CPU efficiency", g.CPU, w.CPU, "C03"),
		num("CPU efficiency on hit", g.CPUH, w.CPUH, "C03"),
		num("CPU efficiency on miss", g.CPUM, w.CPUM, "C03"),
		num("CPU efficiency upper bound", g.CPUU, w.CPUU, "C03"),
		num("CPU efficiency lower bound", g.CPUL, w.CPUL, "C03")); m != nil {
		return m
	}
	if c.cfg.isRL() {
		return first(
			text("epsilon", g.Eps, w.Eps, c.restart([]string{"C16", "C15"})...),
			text("eviction calls", g.EvcStats, w.EvcStats, "C14"),
			text("actions", g.Act, w.Act, "C14", "C15"),
			text("categories", g.CatStats, w.CatStats, "C14"),
			text("values", g.Val, w.Val, "C15"),
			func() *Mis {
				if g.Extra == "" {
					return nil
				}
				return text("extra statistics", g.Extra, w.Extra, c.restart([]string{"C15", "C16"})...)
			}())
	}
	return text("extra statistics", g.Extra, w.Extra, c.restart([]string{"C17"})...)
}

// invariants that need no model.
func (c ctx) invariants(i int, o Op, s, prev *StepRec, first bool) *Mis {
	g := s.O
	if g.Size < -1e-6 {
		return mis(i, []string{"C01"}, "occupied space is negative: %v", g.Size)
	}
	if c.cfg.Type != "infinite" && g.Size > g.Max*(1+1e-12)+1e-6 {
		return mis(i, []string{"C01"}, "occupied space %v exceeds the capacity %v", g.Size, g.Max)
	}
	if s.D != nil {
		if s.D.Err != "" {
			return mis(i, []string{"C04", "C19", "C13"}, "dump not readable: %s", s.D.Err)
		}
		if s.D.Dup != "" {
			return mis(i, c.content("C01", "C13"), "dump: %s", s.D.Dup)
		}
		sum := 0.0
		for _, x := range s.D.Files {
			sum += x.Size
		}
		if !same(sum, g.Size) {
			return mis(i, c.restart([]string{"C01"}), "occupied space is %v, the %d files held have %v", g.Size, len(s.D.Files), sum)
		}
		if g.NFiles >= 0 && g.NFiles != len(s.D.Files) {
			return mis(i, []string{"C01"}, "%d files reported, %d in the dump", g.NFiles, len(s.D.Files))
		}
	}
	if s.O2 != nil {
		if a, b := fmt.Sprintf("%v", s.O), fmt.Sprintf("%v", *s.O2); a != b {
			return mis(i, []string{"C04"}, "saving changed the cache: %s -> %s", b, a)
		}
	}
	if o.K == "req" && o.R != nil {
		if s.Added && c.cfg.Type != "infinite" && o.R.S > g.Max {
			return mis(i, []string{"C01"}, "file of %v admitted in a cache of %v", o.R.S, g.Max)
		}
		if s.Added && s.Red {
			return mis(i, []string{"C12"}, "request both redirected and admitted")
		}
	}
	return nil
}

func (c ctx) dump(i int, d *DumpRec, m *Model, seenAt string) *Mis {
	w := m.Save(true)
	// contents
	get := make([]int64, 0, len(d.Files))
	want := make([]int64, 0, len(w.Files))
	for _, x := range d.Files {
		get = append(get, x.Filename)
	}
	for _, x := range w.Files {
		want = append(want, x.Name)
	}
	order := "in order, "
	if c.cfg.unordered() || c.cfg.Type == "random" {
		order = ""
		sort.Slice(get, func(i, j int) bool { return get[i] < get[j] })
		sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
	}
	if fmt.Sprint(get) != fmt.Sprint(want) {
		return mis(i, c.water(c.content("C01")), "%sfiles held are %v, should be %v", order, get, want)
	}
	hist := c.restart([]string{"C13"})
	for _, x := range w.Files {
		for _, y := range d.Files {
			if y.Filename == x.Name {
				if e := c.file(i, y, x, hist); e != nil {
					return e
				}
			}
		}
	}
	for n := range w.Stats {
		x := w.Stats[n]
		y, ok := d.Stats[n]
		if !ok {
			return mis(i, append(hist, "C17"), "history of file %d is gone", n)
		}
		if e := c.file(i, y, x, hist); e != nil {
			return e
		}
	}
	if len(d.Stats) != len(w.Stats) {
		for n := range d.Stats {
			if _, ok := w.Stats[n]; !ok {
				return mis(i, append(hist, "C17"), "history of file %d should have been dropped", n)
			}
		}
	}
	if m.rl != nil {
		for _, k := range []string{"ADDAGENT", "EVCAGENT"} {
			a := w.Add
			if k == "EVCAGENT" {
				a = w.Evc
			}
			if (a != nil) != d.HasAgent[k] {
				return mis(i, c.restart([]string{"C15"}), "%s present: %v", k, d.HasAgent[k])
			}
			if a == nil {
				continue
			}
			q := d.Q[k]
			if len(q) != len(a.q) {
				return mis(i, c.restart([]string{"C15"}), "%s has %d states, should have %d", k, len(q), len(a.q))
			}
			for s := range q {
				if len(q[s]) != len(a.acts) {
					return mis(i, c.restart([]string{"C15"}), "%s state %d has %d actions", k, s, len(q[s]))
				}
				for j := range q[s] {
					if !same(q[s][j], a.q[s][j]) {
						return mis(i, c.restart([]string{"C15"}), "value of %s state %v action %s is %v, should be %v", k, a.vecOf(s), a.acts[j], q[s][j], a.q[s][j])
					}
				}
			}
			if !same(d.Eps[k], a.eps) {
				return mis(i, c.restart([]string{"C16"}), "epsilon of %s is %v, should be %v", k, d.Eps[k], a.eps)
			}
		}
	}
	return nil
}

func (c ctx) file(i int, g dumpFile, w MFile, hist []string) *Mis {
	bad := func(what string, a, b interface{}, tags []string) *Mis {
		return mis(i, tags, "file %d: %s is %v, should be %v", w.Name, what, a, b)
	}
	if !same(g.Size, w.Size) {
		return bad("size", g.Size, w.Size, append([]string{"C01"}, hist...))
	}
	if c.cfg.Type == "infinite" {
		return nil // keeps no request counts
	}
	switch {
	case g.Frequency != w.Freq:
		return bad("request count", g.Frequency, w.Freq, hist)
	case g.NHits != w.Hits:
		return bad("hit count", g.NHits, w.Hits, hist)
	case g.NMiss != w.Miss:
		return bad("miss count", g.NMiss, w.Miss, hist)
	case int64(g.Ins) != w.Ins:
		return bad("first request", g.Ins, w.Ins, hist)
	case w.HasUpd && int64(g.Upd) != w.Upd:
		return bad("last request", g.Upd, w.Upd, hist)
	case g.Recency != w.Recency:
		return bad("recency", g.Recency, w.Recency, hist)
	case g.Delta != w.Delta:
		return bad("request distance", g.Delta, w.Delta, hist)
	}
	a, b := recent(g), recentW(w)
	if fmt.Sprint(a) != fmt.Sprint(b) {
		return bad("recent request times", a, b, hist)
	}
	if c.cfg.Type == "weightFunLRU" {
		if !same(g.Weight, w.Weight) {
			return bad("weight", g.Weight, w.Weight, c.restart([]string{"C17"}))
		}
	}
	return nil
}

// recent request times, oldest first.
func recent(g dumpFile) []int64 {
	var o []int64
	for _, t := range g.Times {
		if t != zeroTime {
			o = append(o, int64(t))
		}
	}
	sort.Slice(o, func(i, j int) bool { return o[i] < o[j] })
	return o
}

func recentW(w MFile) []int64 {
	o := append([]int64(nil), w.Ring...)
	sort.Slice(o, func(i, j int) bool { return o[i] < o[j] })
	return o
}

// judgeLib replays the history through the model.
func judgeLib(sc *Scenario, lr *LibRun, st *Stats) (m0 *Mis, discard string) {
	c := ctx{cfg: sc.Cfg}
	m := NewModel(sc.Cfg)
	seg := 0
	hint := func() func(int64) []int64 {
		if seg >= len(lr.Logs) {
			return nil
		}
		by := map[string][]int64{}
		for _, r := range lr.Logs[seg] {
			if len(r) > 4 && r[1] == "DELETE" {
				n, _ := strconv.ParseInt(r[4], 10, 64)
				by[r[0]] = append(by[r[0]], n)
			}
		}
		return func(t int64) []int64 { return by[fmt.Sprint(t)] }
	}
	m.hint = hint()
	maxFree := 0
	check := func(i int) *Mis {
		o := sc.Ops[i]
		s := &lr.Steps[i]
		var dec *Mis
		switch o.K {
		case "req":
			q := *o.R
			h := m.held[q.F]
			if h != nil && h.Size != q.S {
				discard = "size of a held file changed"
				return nil
			}
			hitWas := m.hits
			added, red := m.Request(q)
			if m.Ambig != "" {
				discard = m.Ambig
				return nil
			}
			if s.Red != red {
				return mis(i, []string{"C12"}, "redirected: %v, should be %v", s.Red, red)
			}
			if !red && s.O.NHit != m.hits {
				hit := m.hits != hitWas
				return mis(i, c.content("C03"), "hit: %v, should be %v", !hit, hit)
			}
			if s.Added != added {
				return mis(i, c.content(), "admitted: %v, should be %v", s.Added, added)
			}
		case "day":
			d := m.DelMiss()
			if s.DelMiss != d {
				dec = mis(i, []string{"C03"}, "misses on deleted files: %d, should be %d", s.DelMiss, d)
			}
			m.ClearStats()
			if m.Ambig != "" {
				discard = m.Ambig
				return nil
			}
			if dec != nil {
				return dec
			}
			// a new period leaves the contents alone
			if !same(s.O.Size, m.size) {
				return mis(i, append(c.content("C01"), "C03"), "occupied space after a new period is %v, should be %v", s.O.Size, m.size)
			}
		case "chk":
			if e := c.dump(i, s.D, m, "dump"); e != nil {
				return e
			}
			if m.rl != nil {
				for k, a := range []*agent{m.rl.add, m.rl.evc} {
					w := ""
					if a != nil {
						w = a.table()
					}
					if e := sameTable(s.Tab[k], w); e != "" {
						return mis(i, c.restart([]string{"C15"}), "table %d: %s", k, e)
					}
				}
			}
		case "hot", "cold", "coldns":
			if e := judgeLog(i, lr, seg, m); e != nil {
				return e
			}
			sv := m.Save(true)
			nc := nextCfg(c.cfg, o)
			st.reach("restart-"+o.K, 1)
			nm := NewModel(nc)
			nm.Purged, nm.Evicted, nm.Trims, nm.CatMoves, nm.ForcedN, nm.UnleashN, nm.Skips, nm.Redirs = m.Purged, m.Evicted, m.Trims, m.CatMoves, m.ForcedN, m.UnleashN, m.Skips, m.Redirs
			m = nm
			m.Restore(sv)
			if o.K != "hot" {
				m.ColdStart(o.K == "coldns")
				c.cold, c.hot = true, false
			} else {
				c.hot = true
			}
			if c.hot && c.cold {
				// a hot restart after a cold one concerns both
			}
			c.cfg = nc
			seg++
			m.hint = hint()
			if e := c.dump(i, s.D, m, "restart"); e != nil {
				return e
			}
		}
		want := m.Observe()
		if m.Ambig != "" {
			discard = m.Ambig
			return nil
		}
		return c.obs(i, s.O, want)
	}
	var model *Mis
	for i := range sc.Ops {
		s := &lr.Steps[i]
		if !s.Done {
			break
		}
		var prev *StepRec
		if i > 0 {
			prev = &lr.Steps[i-1]
		}
		cc := c
		cc.cfg = nextCfg(cc.cfg, sc.Ops[i])
		if e := cc.invariants(i, sc.Ops[i], s, prev, i == 0); e != nil && model == nil {
			return e, ""
		}
		if model == nil {
			model = check(i)
			if discard != "" {
				return nil, discard
			}
			if model != nil {
				break
			}
			if s.O.NFiles > maxFree {
				maxFree = s.O.NFiles
			}
			if i%4 == 0 || i == len(sc.Ops)-1 {
				st.States = append(st.States, stateHash(m))
			}
		}
	}
	if model == nil && lr.Exit.OK() {
		model = judgeLog(len(sc.Ops), lr, seg, m)
	}
	st.reach("evictions", int64(m.Evicted))
	st.reach("redirects", int64(m.Redirs))
	st.reach("watermark-trims", int64(m.Trims))
	st.reach("histories-purged", int64(m.Purged))
	st.reach("category-moves", int64(m.CatMoves))
	st.reach("forced-evictions", int64(m.ForcedN))
	st.reach("epsilon-raised", int64(m.UnleashN))
	st.reach("admissions-refused", int64(m.Skips))
	if m.rl != nil {
		st.reach("learning-steps", int64(m.rl.AddLearned+m.rl.EvcLearned))
	}
	return model, ""
}

func stateHash(m *Model) uint64 {
	h := simrt.Hash64(uint64(len(m.cfg.Type)), uint64(math.Float64bits(m.size)))
	for _, f := range m.order() {
		h = simrt.Hash64(h, uint64(f.Name), uint64(f.Freq))
	}
	return h
}

func judgeLog(i int, lr *LibRun, seg int, m *Model) *Mis {
	if !m.cfg.Log {
		return nil
	}
	if seg >= len(lr.Logs) {
		return mis(i, []string{"C09"}, "log of part %d missing", seg)
	}
	if lr.LogE[seg] != "" {
		return mis(i, []string{"C09", "C10"}, "%s", lr.LogE[seg])
	}
	return sameLog(i, lr.Logs[seg], m.log, m.cfg)
}

func sameLog(i int, g, w [][]string, c CacheCfg) *Mis {
	for k := 0; k < len(g) && k < len(w); k++ {
		if len(g[k]) != len(w[k]) {
			return mis(i, []string{"C09"}, "log row %d is %v, should be %v", k, g[k], w[k])
		}
		for j := range g[k] {
			if !sameText(g[k][j], w[k][j]) {
				tags := []string{"C09"}
				if j == 4 && g[k][1] == w[k][1] && w[k][1] == "DELETE" {
					if c.learnEvict() {
						tags = append(tags, "C14")
					} else {
						tags = append(tags, "C02")
					}
				}
				if g[k][1] == w[k][1] && j >= 6 {
					tags = append(tags, "C13")
				}
				return mis(i, tags, "log row %d is %v, should be %v", k, g[k], w[k])
			}
		}
	}
	if len(g) != len(w) {
		var x []string
		if len(g) > len(w) {
			x = g[len(w)]
		} else {
			x = w[len(g)]
		}
		return mis(i, []string{"C09"}, "log has %d rows, should have %d (row %v)", len(g), len(w), x)
	}
	return nil
}

// sameTable compares learned tables: any row order, columns by name.
func sameTable(g, w string) string {
	if g == w {
		return ""
	}
	if g == "" || w == "" {
		return fmt.Sprintf("present: %v, should be %v", g != "", w != "")
	}
	gl, wl := strings.Split(strings.TrimSpace(g), "\n"), strings.Split(strings.TrimSpace(w), "\n")
	if len(gl) != len(wl) {
		return fmt.Sprintf("%d rows, should have %d", len(gl), len(wl))
	}
	for i := range gl {
		a, b := strings.Split(gl[i], ","), strings.Split(wl[i], ",")
		if len(a) != len(b) {
			return fmt.Sprintf("row %d is %q, should be %q", i, gl[i], wl[i])
		}
		for j := range a {
			if !sameText(a[j], b[j]) {
				return fmt.Sprintf("row %d is %q, should be %q", i, gl[i], wl[i])
			}
		}
	}
	return ""
}

// settle turns a difference into the outcome for the property under test.
func settle(sc *Scenario, res *Result, m *Mis) {
	if m == nil {
		return
	}
	res.Tags = m.Tags
	msg := m.Msg
	if m.Step >= 0 && m.Step < len(sc.Ops) {
		msg = fmt.Sprintf("after operation %d (%s): %s", m.Step+1, sc.Ops[m.Step].K, m.Msg)
	}
	if in(sc.Prop, m.Tags...) {
		res.Viol = msg
	} else {
		res.Foreign = msg
	}
}

// execLib runs and judges a library-level scenario.
func execLib(sc *Scenario) (res Result) {
	lr := runLib(sc, &res.St)
	if !lr.Exit.OK() && len(sc.Faults) == 0 {
		res.Viol = "the cache died: " + lr.Exit.String() + " " + lr.Exit.Stack
		return
	}
	if sc.Known == "size-drift" { // a recorded finding: only the sum of the sizes is judged
		for i := range sc.Ops {
			if s := lr.Steps[i]; s.D != nil {
				sum := 0.0
				for _, x := range s.D.Files {
					sum += x.Size
				}
				if !same(sum, s.O.Size) {
					res.Viol = fmt.Sprintf("after operation %d: occupied space is %v, the %d files held have %v", i+1, s.O.Size, len(s.D.Files), sum)
					return
				}
			}
		}
		return
	}
	m, d := judgeLib(sc, lr, &res.St)
	if d != "" {
		res.Discard = d
		return
	}
	settle(sc, &res, m)
	return
}

const zeroTime = simTime(math.MinInt64)

func parseTime(s string) (int64, error) {
	t, e := timeParse(strings.Trim(s, `"`))
	if e != nil {
		return 0, e
	}
	return t, nil
}
