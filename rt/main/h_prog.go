//go:build go1.21

package main

// Runs of the whole program: its real main over a simulated disk, one
// simulated process per session, several sessions over one disk.

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"simulator/v2/verifsim/simos"
	"simulator/v2/verifsim/simrt"
	"simulator/v2/verifsim/simviper"
)

const (
	resName  = "simulation_results.csv"
	statName = "simulation_run_stats.json"
	dumpName = "cache_dump.json.gz"
	cfgName  = "config.yaml"
)

// eff resolves the settings that have global defaults.
func (p ProgConf) eff() CacheCfg {
	c := p.Cache
	if c.isRL() {
		if c.AddEps == -1 {
			c.AddEps = p.GEps
		}
		if c.AddDecay == -1 {
			c.AddDecay = p.GDec
		}
		if c.EvcEps == -1 {
			c.EvcEps = p.GEps
		}
		if c.EvcDecay == -1 {
			c.EvcDecay = p.GDec
		}
		if p.GUnl {
			c.AddUnl, c.EvcUnl = true, true
		}
	}
	c.GlobalEps, c.GlobalDec = p.GEps, p.GDec
	return c
}

func (p ProgConf) region() string {
	if p.Cache.Region == "" {
		return "all"
	}
	return p.Cache.Region
}

func (p ProgConf) dir() string {
	c := p.Cache
	size := fmt.Sprintf("%0.0f%s", c.SizeV, strings.ToUpper(c.Unit))
	bw := fmt.Sprintf("%0.0fGbit", c.BW)
	var base string
	switch c.Type {
	case "weightFunLRU":
		base = fmt.Sprintf("%s_%s_%0.2f_%0.2f_%0.2f", c.Type, c.WF, c.Alpha, c.Beta, c.Gamma)
	case "aiRL":
		t := c.RLType
		if t == "SCDL2" {
			t += "-" + c.EvcType
		}
		base = fmt.Sprintf("%s_%s_%s_%s_%s", c.Type, t, size, bw, p.region())
	default:
		base = fmt.Sprintf("%s_%s_%s_%s", c.Type, size, bw, p.region())
	}
	return "/w/out/run_full_normal/" + base
}

func (p ProgConf) abs(name string) string {
	if name == "" {
		name = dumpName
	}
	if strings.HasPrefix(name, "/") {
		return name
	}
	return p.dir() + "/" + name
}

func (p ProgConf) yaml(data string) string {
	c := p.Cache
	var b strings.Builder
	w := func(f string, a ...interface{}) { fmt.Fprintf(&b, f+"\n", a...) }
	q := func(s string) string { return strconv.Quote(s) }
	w("sim:")
	w("  type: normal")
	w("  data: %s", q(data))
	w("  outputFolder: out")
	w("  region: %s", p.region())
	w("  overwrite: %v", p.Overwrite)
	w("  dump: %v", p.Dump)
	w("  dumpfilesandstats: %v", p.DumpFS)
	w("  dumpfilename: %s", q(p.DumpName))
	w("  loaddump: %v", p.Load)
	w("  loaddumpfilename: %s", q(p.LoadName))
	w("  coldstart: %v", p.Cold)
	w("  coldstartnostats: %v", p.ColdNS)
	w("  log: %v", c.Log)
	w("  seed: %d", c.Seed)
	w("  outputupdatedelay: %v", p.Delay)
	w("  cpuprofile: %s", q(p.CpuProf))
	w("  memprofile: %s", q(p.MemProf))
	w("  window:\n    size: %d\n    start: %d\n    stop: %d", p.WSize, p.WStart, p.WStop)
	w("  cache:\n    type: %s\n    watermarks: %v\n    watermark:\n      high: %v\n      low: %v", c.Type, c.WM, c.High, c.Low)
	w("    size:\n      value: %v\n      unit: %s", c.SizeV, c.Unit)
	w("    bandwidth:\n      value: %v\n      redirect: %v", fl(c.BW), c.Redirect)
	w("    stats:\n      maxNumDayDiff: %v\n      deltaDaysStep: %v", c.MaxDiff, c.Delta)
	if c.Type == "weightFunLRU" {
		w("  weightfunc:\n    name: %s\n    alpha: %v\n    beta: %v\n    gamma: %v", c.WF, c.Alpha, c.Beta, c.Gamma)
	}
	w("  ai:")
	if c.Type == "lruDatasetVerifier" {
		w("    dataset2TestPath: /w/dataset.json.gz")
	}
	if c.Type == "aiNN" {
		w("    featuremap: nn.json")
	}
	w("    rl:")
	if c.isRL() {
		w("      type: %s", c.RLType)
	}
	w("      epsilon:\n        start: %v\n        decay: %v\n        unleash: %v", fl(p.GEps), fl(p.GDec), p.GUnl)
	if c.isRL() {
		agent := func(name string, on bool, file string, e, d float64, u bool) {
			w("      %s:", name)
			if on {
				w("        featuremap: %s", file)
			}
			if name == "eviction" {
				w("        k: %d\n        type: %s", c.K, c.EvcType)
			}
			w("        epsilon:\n          unleash: %v", u)
			if e != -1 {
				w("          start: %v", fl(e))
			}
			if d != -1 {
				w("          decay: %v", fl(d))
			}
		}
		agent("addition", len(c.Add) > 0, "add.json"+c.MapZip, c.AddEps, c.AddDecay, c.AddUnl)
		agent("eviction", len(c.Evc) > 0, "/w/evc.json"+c.MapZip, c.EvcEps, c.EvcDecay, c.EvcUnl)
	}
	return b.String()
}

// fl prints a float so that YAML reads it back unchanged.
func fl(x float64) string { return strconv.FormatFloat(x, 'f', -1, 64) }

// ---------------------------------------------------------------- data

func (r Rec) value(col string) string {
	if v, ok := r.Raw[col]; ok {
		return v
	}
	i := func(v int64) string { return strconv.FormatInt(v, 10) }
	d := func(k uint64) int64 { return int64(simrt.Hash64(uint64(r.F), uint64(r.T), uint64(r.User), k) % 100000) }
	switch col {
	case "Filename":
		return i(r.F)
	case "SiteName":
		return i(r.Site)
	case "UserID":
		return i(r.User)
	case "TaskID":
		return i(d(1))
	case "TaskMonitorID":
		return i(d(2))
	case "JobID":
		return i(d(3))
	case "Protocol":
		return i(r.P)
	case "JobExecExitCode":
		return i(r.Exit)
	case "JobStart":
		return i(r.T)
	case "JobEnd":
		return i(r.T + 60)
	case "NumCPU":
		return i(d(4) % 16)
	case "WrapWC", "WrapCPU":
		return i(d(5))
	case "Size":
		return strconv.FormatFloat(r.S, 'f', -1, 64)
	case "DataType":
		return i(r.DT)
	case "FileType":
		return i(r.FT)
	case "JobLengthH":
		return strconv.FormatFloat(float64(d(6))/8, 'f', -1, 64)
	case "JobLengthM":
		return strconv.FormatFloat(float64(d(6))*60/8, 'f', -1, 64)
	case "JobSuccess":
		if r.Ok {
			return "True"
		}
		return "False"
	case "CPUTime":
		return strconv.FormatFloat(r.Cpu, 'f', -1, 64)
	case "IOTime":
		return strconv.FormatFloat(r.IO, 'f', -1, 64)
	case "reqDay":
		return i(r.T)
	case "Region":
		return i(d(7) % 7)
	case "Campaign":
		return i(d(8))
	case "Process":
		return i(d(9))
	}
	return "77"
}

// extraNames are columns the simulation does not use, named much like those
// it does.
var extraNames = []string{"extra0", "Job", "Size2", "size", "File", "reqDayOld", "ID", "FILENAME", "JobExec", "CPU", "SiteNames", "Time", "DataTypes", "oldSize", "req", "Protocol2", "User", "xreqDay"}

func (d DataFile) render() []byte {
	if d.Other != "" || d.Void {
		b := []byte(d.Other)
		if d.Gz {
			b = gz(b, d.Level)
		}
		if d.Cut > 0 && d.Cut < int64(len(b)) {
			b = b[:d.Cut]
		}
		return b
	}
	cols := append([]string(nil), columns...)
	for i := 0; i < d.Extra; i++ {
		cols = append(cols, extraNames[(int(hashOf(d.Name)%97)+i)%len(extraNames)])
	}
	if d.Lack != "" {
		for i, c := range cols {
			if c == d.Lack {
				cols = append(cols[:i:i], cols[i+1:]...)
				break
			}
		}
	}
	if d.Twice != "" {
		cols = append(cols, d.Twice)
	}
	if d.Perm != 0 {
		r := simrt.NewRand(d.Perm)
		for i := len(cols) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			cols[i], cols[j] = cols[j], cols[i]
		}
	}
	nl := "\n"
	if d.CRLF {
		nl = "\r\n"
	}
	var b bytes.Buffer
	b.WriteString(strings.Join(cols, ","))
	b.WriteString(nl)
	for i, r := range d.Recs {
		vs := make([]string, len(cols))
		for j, c := range cols {
			vs[j] = r.value(c)
		}
		if d.BadRow == i+1 {
			vs = vs[:len(vs)-1]
		}
		if d.BadRow == -(i + 1) {
			vs[0] = "\"" + vs[0]
		}
		b.WriteString(strings.Join(vs, ","))
		if i < len(d.Recs)-1 || !d.NoEOL {
			b.WriteString(nl)
		}
	}
	out := b.Bytes()
	if d.Gz {
		out = gz(out, d.Level)
	}
	if d.Cut > 0 && d.Cut < int64(len(out)) {
		out = out[:d.Cut]
	}
	return out
}

func putData(f *simos.FS, sc *Scenario) {
	for _, d := range sc.Data {
		f.Put("/w/"+d.Name, d.render())
	}
}

// inputOf lists the files read for a data path, in order.
func (sc *Scenario) inputOf(p string) []*DataFile {
	var fs []*DataFile
	for i := range sc.Data {
		d := &sc.Data[i]
		if d.Name == p {
			return []*DataFile{d}
		}
		if x := path.Ext(d.Name); path.Dir(d.Name) == p && (x == ".csv" || x == ".gz") {
			fs = append(fs, d)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Name < fs[j].Name })
	return fs
}

// recsOf lists the records of a data path, in order.
func (sc *Scenario) recsOf(p string) []Rec {
	var rs []Rec
	for _, d := range sc.inputOf(p) {
		rs = append(rs, d.Recs...)
	}
	return rs
}

// parsed values, as written in the file.
func (r Rec) int(col string) int64 { v, _ := strconv.ParseInt(r.value(col), 10, 64); return v }
func (r Rec) flt(col string) float64 {
	v, _ := strconv.ParseFloat(r.value(col), 64)
	return v
}
func (r Rec) boolean(col string) bool { v, _ := strconv.ParseBool(r.value(col)); return v }

// ---------------------------------------------------------------- run

// ProgOut is what a session left.
type ProgOut struct {
	Exit    simrt.Exit
	Files   map[string]string
	Stdout  string
	Trace   []simos.OpRec
	Faulted bool // a fault was really injected
	FailedW []string
	FailedR []string
	Crashed bool
	Sched   uint64
	Rec     []simrt.Deviation
}

func damage(b []byte, d Damage) []byte {
	at := d.At
	if at < 0 {
		at += int64(len(b))
	}
	if at < 0 {
		at = 0
	}
	if at > int64(len(b)) {
		at = int64(len(b))
	}
	b = append([]byte(nil), b...)
	switch d.Kind {
	case "trunc":
		return b[:at]
	case "flip":
		if at < int64(len(b)) {
			m := byte(d.Arg)
			if m == 0 {
				m = 1
			}
			b[at] ^= m
		}
	case "drop":
		e := at + d.Arg
		if e > int64(len(b)) {
			e = int64(len(b))
		}
		return append(b[:at:at], b[e:]...)
	case "rec": // well packed, but a record is cut or of the wrong kind
		raw, e := gunzip(b)
		if e != nil {
			return b
		}
		ls := bytes.SplitAfter(bytes.TrimSuffix(raw, []byte("\n")), []byte("\n"))
		k := int(at % int64(len(ls)))
		l := ls[k]
		switch x := d.Arg; {
		case x%2 == 0: // the file ends within the record
			body := bytes.TrimSuffix(l, []byte("\n"))
			if len(body) > 1 {
				raw = append(bytes.Join(ls[:k], nil), body[:1+int(x/2)%(len(body)-1)]...)
			}
		default: // text in the place of a number
			var at [][]int
			for _, m := range regexp.MustCompile(`\\":-?[0-9]`).FindAllIndex(l, -1) {
				at = append(at, m)
			}
			if len(at) == 0 {
				return b
			}
			m := at[int(x/2)%len(at)]
			e := m[1]
			for e < len(l) && bytes.IndexByte([]byte("0123456789.eE+-"), l[e]) >= 0 {
				e++
			}
			n := append([]byte(nil), l[:m[0]+3]...)
			n = append(n, `\"x\"`...)
			ls[k] = append(n, l[e:]...)
			raw = append(bytes.Join(ls, nil), '\n')
		}
		return gz(raw, 6)
	case "zero": // a run of bytes never written
		for i := at; i < at+d.Arg && i < int64(len(b)); i++ {
			b[i] = 0
		}
	}
	return b
}

func snapshotFiles(f *simos.FS, root string) map[string]string {
	m := map[string]string{}
	for _, p := range f.List(root) {
		b, _ := f.Get(p)
		m[p] = string(b)
	}
	return m
}

const sessSteps = 120_000_000

// runSession runs the program once over the disk f.
func runSession(f *simos.FS, s *Session, st *Stats, trace bool) *ProgOut {
	putCfgFiles(f, s.Conf.Cache)
	f.Put("/w/config.yml", []byte(s.Conf.yaml(s.Data)))
	for _, d := range s.Damage {
		if b, ok := f.Get(d.Path); ok {
			if d.Kind == "gone" {
				f.Del(d.Path)
			} else {
				f.Put(d.Path, damage(b, d))
			}
			st.fault("damage-"+d.Kind, 1)
		}
	}
	f.SyncAll()
	f.SplitSeed, f.Latency = s.Split, s.Lat
	if s.Cap > 0 {
		f.Capacity = f.Used() + s.Cap
	} else {
		f.Capacity = 0
	}
	f.TraceOn = trace
	f.StartProcess("/w", s.Faults)
	simos.Cur = f
	resetRand(s.Sim)
	simviper.Reset()
	os.Args = []string{"simulator", "sim", "config.yml", "--logLevel=NONE"}
	cfg := s.Sim
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = sessSteps
	}
	start := cfg.ClockStart
	if start == 0 {
		start = 1_600_000_000_000_000_000
	}
	w, ex := simrt.Run(cfg, vsimOrigMain)
	o := &ProgOut{Exit: ex, Stdout: f.Stdout.String(), Trace: f.Trace, FailedW: f.FailedW, FailedR: f.FailedR, Crashed: f.Crashed, Sched: w.SchedHash(), Rec: w.Recorded}
	for k, v := range f.Fired {
		if v > 0 && k != simos.FShortRead {
			o.Faulted = true
		}
	}
	f.TraceOn = false
	f.Capacity = 0
	if f.Power {
		f.PowerLoss(simrt.NewRand(s.Power))
	}
	st.world(w, f, start)
	o.Files = snapshotFiles(f, "/w")
	return o
}

// ---------------------------------------------------------------- driver model

type runStats struct {
	TimeElapsed           string  `json:"timeElapsed"`
	Extra                 string  `json:"extra"`
	TotNumRecords         int64   `json:"totNumRecords"`
	TotJumpedRecords      int64   `json:"totJumpedRecords"`
	TotInvalidRecords     int64   `json:"totInvalidRecords"`
	TotFilteredRecords    int64   `json:"totFilteredRecords"`
	TotRedirectedRecords  int64   `json:"totRedirectedRecords"`
	SizeRedirectedRecords float64 `json:"sizeRedirectedRecords"`
	AvgSpeed              string  `json:"avgSpeed"`
}

var rowNames = []string{"date", "num req", "num hit", "num added", "num deleted", "num redirected", "num miss after delete", "size redirected", "cache size", "size", "capacity", "bandwidth", "bandwidth usage", "hit rate", "weighted hit rate", "written data", "read data", "read on hit data", "read on miss data", "deleted data", "avg free space", "std dev free space", "CPU efficiency", "CPU hit efficiency", "CPU miss efficiency", "CPU efficiency upper bound", "CPU efficiency lower bound"}
var rowNamesRL = []string{"Addition epsilon", "Eviction epsilon", "Addition qvalue function", "Eviction qvalue function", "Eviction calls", "Eviction forced calls", "Eviction mean num categories", "Eviction std dev num categories", "Action store", "Action not store", "Action delete all", "Action delete half", "Action delete quarter", "Action delete one", "Action not delete"}

type drv struct {
	rows    [][]string
	st      runStats
	handled int64
	stopped bool
	resize  bool // a held file was requested with another size
}

func dayRow(m *Model, t int64) []string {
	o := m.Observe()
	d := func(v int64) string { return fmt.Sprintf("%d", v) }
	f := func(v float64) string { return fmt.Sprintf("%f", v) }
	row := []string{time.Unix(t, 0).String(), d(o.NReq), d(o.NHit), d(o.NAdd), d(o.NDel), d(o.NRed), d(int64(m.DelMiss())),
		f(o.RedSize), f(o.Max), f(o.Size), f(o.Cap), f(o.BW), f(o.BWU), fmt.Sprintf("%0.2f", o.HitRate), fmt.Sprintf("%0.2f", o.WHit),
		f(o.DW), f(o.DR), f(o.DRH), f(o.DRM), f(o.DD), f(o.AvgFree), f(o.StdFree), f(o.CPU), f(o.CPUH), f(o.CPUM), f(o.CPUU), f(o.CPUL)}
	if m.cfg.isRL() {
		for _, s := range []string{o.Eps, o.Val, o.EvcStats, o.CatStats, o.Act} {
			row = append(row, strings.Split(s, ",")...)
		}
	}
	return row
}

// drive is the model of a run over the records.
func drive(m *Model, recs []Rec, p ProgConf) *drv {
	d := &drv{}
	var cur int64
	have := false
	step, win := 0, 0
	for _, r := range recs {
		day := int64(r.flt("reqDay"))
		if !have {
			have = true
			cur = day
		}
		if (time.Duration(day-cur) * time.Second).Hours() >= 23 {
			if win >= p.WStart {
				d.rows = append(d.rows, dayRow(m, cur))
			}
			m.ClearStats()
			cur = day
			step++
		}
		if step == p.WSize {
			win++
			step = 0
		}
		if win == p.WStop {
			d.stopped = true
			break
		}
		d.st.TotNumRecords++
		if win < p.WStart {
			d.st.TotJumpedRecords++
			continue
		}
		dt, ft, site := r.int("DataType"), r.int("FileType"), r.int("SiteName")
		keep := r.boolean("JobSuccess") && r.int("JobExecExitCode") == 0
		switch p.Cache.Region {
		case "us":
			keep = keep && (dt == 0 || dt == 3) && (ft == 2 || ft == 9) && site < 9
		case "it":
			keep = keep && (dt == 0 || dt == 1)
		}
		if !keep {
			d.st.TotFilteredRecords++
			continue
		}
		cpu, io := r.flt("CPUTime"), r.flt("IOTime")
		eff := cpu / (cpu + io) * 100
		if !(eff >= 0 && eff <= 100) {
			d.st.TotInvalidRecords++
			continue
		}
		q := Req{F: r.int("Filename"), S: r.flt("Size") / (1024 * 1024), P: r.int("Protocol"), E: eff, T: day, Site: site, User: r.int("UserID"), FT: ft}
		if h := m.held[q.F]; h != nil && h.Size != q.S {
			d.resize = true
			return d
		}
		_, red := m.Request(q)
		if red {
			d.st.TotRedirectedRecords++
			d.st.SizeRedirectedRecords += q.S
			continue
		}
		d.handled++
	}
	d.st.Extra = m.Observe().Extra
	return d
}

// ---------------------------------------------------------------- judging

func parseCSV(s string) ([][]string, string) {
	r := csv.NewReader(strings.NewReader(s))
	r.FieldsPerRecord = -1
	rows, e := r.ReadAll()
	if e != nil {
		return nil, e.Error()
	}
	return rows, ""
}

// completeRows counts the finished rows of a results file after its header.
func completeRows(s string) int {
	n := strings.Count(s, "\n")
	if n == 0 {
		return 0
	}
	return n - 1
}

func rowTags(c ctx, col int) []string {
	switch {
	case col == 0:
		return []string{"C08"}
	case col == 1 || col == 8 || col == 11:
		return c.restart([]string{"C08", "C03", "C12"})
	case col == 2 || col == 3 || col == 4:
		return append(c.content("C03"), "C08")
	case col == 9 || col == 10:
		return append(c.water(c.content("C01", "C03")), "C08")
	case col == 5 || col == 7 || col == 12:
		return []string{"C08", "C12", "C03"}
	case col >= 27 && col < 29:
		return []string{"C08", "C16", "C15"}
	case col >= 29 && col < 31:
		return []string{"C08", "C15"}
	case col >= 31:
		return []string{"C08", "C14"}
	}
	return []string{"C08", "C03"}
}

func sameRows(c ctx, g, w [][]string) *Mis {
	names := rowNames
	if c.cfg.isRL() {
		names = append(append([]string(nil), rowNames...), rowNamesRL...)
	}
	if len(g) == 0 {
		return mis(-1, []string{"C08", "C10", "C21"}, "the results have no header")
	}
	if strings.Join(g[0], ",") != strings.Join(names, ",") {
		return mis(-1, []string{"C08"}, "header of the results is %v", g[0])
	}
	g = g[1:]
	for i := 0; i < len(g) && i < len(w); i++ {
		if len(g[i]) != len(w[i]) {
			return mis(-1, []string{"C08"}, "result row %d has %d columns, should have %d", i+1, len(g[i]), len(w[i]))
		}
		for j := range g[i] {
			if j == 0 && g[i][j] != w[i][j] || j > 0 && !sameText(g[i][j], w[i][j]) {
				return mis(-1, rowTags(c, j), "result row %d: %s is %q, should be %q", i+1, names[j], g[i][j], w[i][j])
			}
		}
	}
	if len(g) != len(w) {
		return mis(-1, []string{"C08"}, "%d result rows, should be %d", len(g), len(w))
	}
	return nil
}

func sameStats(c ctx, raw string, w runStats) *Mis {
	var g runStats
	if e := json.Unmarshal([]byte(raw), &g); e != nil {
		return mis(-1, []string{"C08", "C10"}, "run statistics unreadable: %v", e)
	}
	type f struct {
		n    string
		g, w int64
		t    []string
	}
	for _, x := range []f{
		{"records", g.TotNumRecords, w.TotNumRecords, []string{"C08", "C07"}},
		{"jumped records", g.TotJumpedRecords, w.TotJumpedRecords, []string{"C08"}},
		{"invalid records", g.TotInvalidRecords, w.TotInvalidRecords, []string{"C08"}},
		{"filtered records", g.TotFilteredRecords, w.TotFilteredRecords, []string{"C08"}},
		{"redirected records", g.TotRedirectedRecords, w.TotRedirectedRecords, []string{"C08", "C12"}},
	} {
		if x.g != x.w {
			return mis(-1, x.t, "run statistics: %d %s, should be %d", x.g, x.n, x.w)
		}
	}
	if !same(g.SizeRedirectedRecords, w.SizeRedirectedRecords) {
		return mis(-1, []string{"C08", "C12"}, "run statistics: redirected size %v, should be %v", g.SizeRedirectedRecords, w.SizeRedirectedRecords)
	}
	if !sameText(g.Extra, w.Extra) {
		return mis(-1, c.restart([]string{"C15", "C16", "C17"}), "run statistics: extra is %q, should be %q", g.Extra, w.Extra)
	}
	return nil
}

func parseDumpFile(raw string) *DumpRec {
	b, e := gunzip([]byte(raw))
	if e != nil {
		return &DumpRec{Err: "compressed data: " + e.Error()}
	}
	b = bytes.TrimRight(b, "\n")
	if len(b) == 0 {
		return parseDump(nil)
	}
	return parseDump(bytes.Split(b, []byte("\n")))
}

// finish is how a session should end.
type world struct {
	sc    *Scenario
	fs    *simos.FS
	dumps map[string]*Saved // model of the dumps on disk
}

func newWorld(sc *Scenario) *world {
	f := simos.NewFS("/w")
	f.Mkdir("/w/dumps")
	putData(f, sc)
	f.SyncAll()
	return &world{sc: sc, fs: f, dumps: map[string]*Saved{}}
}

// expectation of one fault-free session.
type expect struct {
	done    bool // results already there
	fail    bool // has to end with an error
	d       *drv
	m       *Model
	hot     bool
	cold    bool
	discard string
}

func (w *world) expect(s *Session, before map[string]string, logRows [][]string) *expect {
	p := s.Conf
	e := &expect{}
	if !p.Overwrite && completeRows(before[p.dir()+"/"+resName]) > 0 {
		e.done = true
		return e
	}
	m := NewModel(p.eff())
	if p.Cache.Type == "random" || p.Cache.learnEvict() {
		by := map[string][]int64{}
		for _, r := range logRows {
			if len(r) > 4 && r[1] == "DELETE" {
				n, _ := strconv.ParseInt(r[4], 10, 64)
				by[r[0]] = append(by[r[0]], n)
			}
		}
		m.hint = func(t int64) []int64 { return by[fmt.Sprint(t)] }
	} else {
		m.hint = func(t int64) []int64 { return nil }
	}
	if p.Load {
		sv := w.dumps[p.abs(p.LoadName)]
		if sv == nil {
			e.fail = true
			return e
		}
		m.Restore(sv)
		switch {
		case p.Cold && p.ColdNS:
			m.ColdStart(true)
			e.cold = true
		case p.Cold:
			m.ColdStart(false)
			e.cold = true
		default:
			e.hot = true
		}
	}
	e.m = m
	e.d = drive(m, w.sc.recsOf(s.Data), p)
	if e.d.resize {
		e.discard = "size of a held file changed"
	}
	if m.Ambig != "" {
		e.discard = m.Ambig
	}
	return e
}

// keep checks that what earlier runs left is still there.
func keepResults(p ProgConf, before, after map[string]string, e *expect, ok bool) *Mis {
	dir := p.dir() + "/"
	if e != nil && e.done {
		for n, b := range before {
			a, there := after[n]
			if n == "/w/config.yml" {
				continue
			}
			if !there || a != b {
				return mis(-1, []string{"C18", "C19"}, "a run whose results were already present changed %s", n)
			}
		}
		for n := range after {
			if _, there := before[n]; !there && strings.HasPrefix(n, dir) {
				return mis(-1, []string{"C18"}, "a run whose results were already present left %s", n)
			}
		}
		return nil
	}
	for n, b := range before {
		if !strings.Contains(path.Base(n), "simulation_results") || completeRows(b) == 0 {
			continue
		}
		if n == dir+resName {
			if after[n] == b || !p.Load {
				continue // kept, or overwritten as asked
			}
			found := false
			for k, a := range after {
				if _, had := before[k]; !had && a == b && strings.HasPrefix(k, dir) {
					found = true
				}
			}
			if !found {
				return mis(-1, []string{"C18"}, "the results of the run before the restart are gone")
			}
			continue
		}
		if after[n] != b {
			return mis(-1, []string{"C18"}, "earlier results %s changed", n)
		}
	}
	// inputs, and dumps that were not to be saved
	for n, b := range before {
		if strings.HasSuffix(n, ".json.gz") && strings.Contains(n, "dump") && (!p.Dump || n != p.abs(p.DumpName)) && after[n] != b {
			return mis(-1, []string{"C19"}, "%s was altered by a run that did not save it", n)
		}
	}
	return nil
}

// judge compares a fault-free session with the model.
func (w *world) judge(s *Session, before map[string]string, o *ProgOut, st *Stats) (*Mis, string) {
	p := s.Conf
	dir := p.dir() + "/"
	var logRows [][]string
	logErr := "no log file"
	if raw, ok := o.Files[dir+logName]; ok && p.Cache.Log {
		b, e := gunzip([]byte(raw))
		if e != nil {
			logErr = "log file: " + e.Error()
		} else if logRows, logErr = parseCSV(string(b)); logErr != "" {
			logErr = "log file: " + logErr
		}
	}
	e := w.expect(s, before, logRows)
	if e.discard != "" {
		return nil, e.discard
	}
	if m := keepResults(p, before, o.Files, e, o.Exit.OK()); m != nil {
		return m, ""
	}
	if e.fail {
		if o.Exit.Hang() {
			return mis(-1, []string{"C21", "C05"}, "the run never ends: %s", o.Exit), ""
		}
		if o.Exit.OK() {
			return mis(-1, []string{"C05"}, "the run went on without the dump it had to start from"), ""
		}
		st.reach("missing-dump", 1)
		return nil, ""
	}
	if !o.Exit.OK() {
		return mis(-1, []string{w.sc.Prop}, "the run failed: %s %s", o.Exit, o.Exit.Stack), ""
	}
	if e.done {
		st.reach("already-done", 1)
		return nil, ""
	}
	if b, ok := before[dir+resName]; ok && completeRows(b) == 0 && len(e.d.rows) > 0 {
		idle := true
		for n, a := range o.Files {
			if strings.HasPrefix(n, dir) && before[n] != a {
				idle = false
			}
		}
		if idle {
			return mis(-1, []string{"C18", "C08"}, "results without a completed day were taken for finished ones: nothing was run"), ""
		}
		st.reach("unfinished-results-redone", 1)
	}
	c := ctx{cfg: p.eff(), hot: e.hot, cold: e.cold}
	st.reach("result-rows", int64(len(e.d.rows)))
	st.reach("records", e.d.st.TotNumRecords)
	st.reach("records-jumped", e.d.st.TotJumpedRecords)
	st.reach("records-filtered", e.d.st.TotFilteredRecords)
	st.reach("records-invalid", e.d.st.TotInvalidRecords)
	st.reach("records-redirected", e.d.st.TotRedirectedRecords)
	st.reach("records-handled", e.d.handled)
	if e.d.stopped {
		st.reach("stopped-at-window", 1)
	}
	if e.hot {
		st.reach("restart-hot", 1)
	}
	if e.cold {
		st.reach("restart-cold", 1)
	}
	st.reach("evictions", int64(e.m.Evicted))
	st.States = append(st.States, stateHash(e.m))
	if rs := w.sc.recsOf(s.Data); len(rs) > 0 {
		if d := rs[len(rs)-1].T - rs[0].T; d > 0 {
			st.DataSecs += d
		}
	}
	missing := func(n string, tags ...string) *Mis {
		return mis(-1, append(tags, "C21", "C10"), "%s was not written", n)
	}
	for _, n := range []string{resName, statName, cfgName} {
		if o.Files[dir+n] == "" {
			return missing(n, "C08"), ""
		}
	}
	// the event log first: it shows the first wrong decision
	if p.Cache.Log {
		if logErr != "" {
			return mis(-1, []string{"C09", "C10", "C21"}, "%s", logErr), ""
		}
		if m := sameLog(-1, logRows, e.m.log, c.cfg); m != nil {
			// wrong decisions show in the rows as well
			if rows, er := parseCSV(o.Files[dir+resName]); er == "" {
				if r := sameRows(c, rows, e.d.rows); r != nil {
					m.Tags = append(m.Tags, r.Tags...)
				}
			}
			return m, ""
		}
	}
	rows, er := parseCSV(o.Files[dir+resName])
	if er != "" {
		return mis(-1, []string{"C08", "C10"}, "results unreadable: %s", er), ""
	}
	if m := sameRows(c, rows, e.d.rows); m != nil {
		return m, ""
	}
	if m := sameStats(c, o.Files[dir+statName], e.d.st); m != nil {
		return m, ""
	}
	if !strings.Contains(o.Files[dir+cfgName], p.Cache.Type) {
		return mis(-1, []string{"C10", "C21"}, "the copy of the configuration lacks the cache type"), ""
	}
	if p.Dump {
		n := p.abs(p.DumpName)
		raw, ok := o.Files[n]
		if !ok {
			return missing("the dump", "C19", "C04"), ""
		}
		d := parseDumpFile(raw)
		if d.Err != "" {
			return mis(-1, []string{"C19", "C10", "C04"}, "the dump is not readable: %s", d.Err), ""
		}
		if p.DumpFS {
			if m := c.dump(-1, d, e.m, "dump"); m != nil {
				return m, ""
			}
		} else if len(d.Files) > 0 || len(d.Stats) > 0 {
			return mis(-1, []string{"C04"}, "files in a dump without files"), ""
		}
		w.dumps[n] = e.m.Save(p.DumpFS)
	}
	if rl := e.m.rl; rl != nil {
		for k, a := range []*agent{rl.add, rl.evc} {
			n := []string{"additionQTable.csv", "evictionQTable.csv"}[k]
			want := ""
			if a != nil {
				want = a.table()
				if o.Files[dir+n] == "" {
					return missing(n, "C15"), ""
				}
			}
			if a != nil {
				if x := sameTable(o.Files[dir+n], want); x != "" {
					return mis(-1, c.restart([]string{"C15"}), "%s: %s", n, x), ""
				}
			}
		}
	}
	return nil, ""
}

func settleProg(sc *Scenario, res *Result, m *Mis, k int) {
	if m == nil {
		return
	}
	res.Tags = m.Tags
	msg := fmt.Sprintf("session %d: %s", k+1, m.Msg)
	if in(sc.Prop, m.Tags...) {
		res.Viol = msg
	} else {
		res.Foreign = msg
	}
}

// execProg runs fault-free sessions and compares each with the model.
func execProg(sc *Scenario) (res Result) {
	w := newWorld(sc)
	for k := range sc.Sess {
		s := &sc.Sess[k]
		before := snapshotFiles(w.fs, "/w")
		o := runSession(w.fs, s, &res.St, false)
		if o.Exit.Hang() {
			res.Viol = fmt.Sprintf("session %d: the run never ends: %s", k+1, o.Exit)
			return
		}
		m, d := w.judge(s, before, o, &res.St)
		if d != "" {
			res.Discard = d
			return
		}
		if m != nil {
			settleProg(sc, &res, m, k)
			return
		}
	}
	return
}

// ---------------------------------------------------------------- outputs

// norm is the content of an output file without what may differ.
func norm(c CacheCfg, name, raw string) string {
	b := path.Base(name)
	switch {
	case b == statName:
		var s runStats
		if e := json.Unmarshal([]byte(raw), &s); e != nil {
			return "unreadable: " + e.Error()
		}
		s.TimeElapsed, s.AvgSpeed = "", ""
		o, _ := json.Marshal(s)
		return string(o)
	case strings.HasSuffix(b, ".json.gz"):
		x, e := gunzip([]byte(raw))
		if e != nil {
			return "unreadable: " + e.Error()
		}
		return normDump(c, x)
	case strings.HasSuffix(b, ".gz"):
		x, e := gunzip([]byte(raw))
		if e != nil {
			return "unreadable: " + e.Error()
		}
		return string(x)
	}
	return raw
}

// normDump sorts the records whose order means nothing.
func normDump(c CacheCfg, x []byte) string {
	var keep, loose []string
	for _, l := range strings.Split(strings.TrimRight(string(x), "\n"), "\n") {
		var r struct{ Info string }
		_ = json.Unmarshal([]byte(l), &r)
		if strings.Contains(r.Info, "STATS") || strings.Contains(r.Info, "FILES") && c.unordered() {
			loose = append(loose, l)
		} else {
			keep = append(keep, l)
		}
	}
	sort.Strings(loose)
	return strings.Join(append(keep, loose...), "\n")
}

// outputs lists the files a session had to write, normalised.
func outputs(p ProgConf, fs map[string]string) map[string]string {
	dir := p.dir() + "/"
	m := map[string]string{}
	add := func(n string) {
		if raw, ok := fs[n]; ok {
			m[n] = norm(p.Cache, n, raw)
		} else {
			m[n] = "missing"
		}
	}
	add(dir + resName)
	add(dir + statName)
	add(dir + cfgName)
	if p.Cache.Log {
		add(dir + logName)
	}
	if p.Dump {
		add(p.abs(p.DumpName))
	}
	if p.Cache.isRL() {
		add(dir + "additionQTable.csv")
		add(dir + "evictionQTable.csv")
	}
	return m
}

func diffOutputs(a, b map[string]string) string {
	var ns []string
	for n := range a {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		if a[n] != b[n] {
			x, y := strings.Split(a[n], "\n"), strings.Split(b[n], "\n")
			for i := 0; i < len(x) && i < len(y); i++ {
				if x[i] != y[i] {
					return fmt.Sprintf("%s differs at line %d: %s | %s", n, i+1, clip(x[i]), clip(y[i]))
				}
			}
			return fmt.Sprintf("%s differs: %d and %d lines", n, len(x), len(y))
		}
	}
	return ""
}

func clip(s string) string {
	if len(s) > 160 {
		return s[:160] + "..."
	}
	return s
}

var _ = math.Inf
