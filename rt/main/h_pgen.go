//go:build go1.21

package main

// Generators of whole-program scenarios.

import (
	"fmt"
	"sort"
)

// popul is a population of files with fixed sizes (bytes).
type popul struct {
	size []float64
	unit float64
}

func genPopul(r rnd, c CacheCfg) popul {
	mb := c.megabytes()
	unit := mb / r.fl(4, 8, 16, 32)
	p := popul{unit: unit}
	n := r.n(2, 4, 8, 15, 30)
	uniform := r.P(0.25)
	empty := r.P(0.15) // some files are empty
	for i := 0; i <= n; i++ {
		s := unit
		if !uniform {
			switch r.Pick(6, 4, 2, 1, 1, 1) {
			case 0:
				s = unit * float64(r.Range(1, 4))
			case 1:
				s = unit * float64(r.Range(1, 16)) / 8
			case 2:
				s = unit
			case 3:
				s = mb
			case 4:
				s = mb + unit
			case 5:
				s = 1. / 1024
			}
			if empty && r.P(0.2) {
				s = 0
			}
		}
		p.size = append(p.size, s*1024*1024)
	}
	return p
}

// genRecs draws the records of some days, in time order.
func genRecs(r rnd, c CacheCfg, p popul, t0 int64, days, perDay int) []Rec {
	var out []Rec
	t := t0
	intra := r.n(0, 0, 1, 2)
	back := c.Type != "weightFunLRU" && r.P(0.05)
	filt := r.fl(0, 0.1, 0.4)
	inv := r.fl(0, 0.05, 0.2)
	hot := r.Range(1, len(p.size)-1)
	for d := 0; d < days; d++ {
		n := perDay
		if r.P(0.3) {
			n = r.Range(1, perDay)
		}
		dayT := t
		for i := 0; i < n; i++ {
			f := r.Range(1, len(p.size)-1)
			if r.P(0.3) {
				f = hot
			}
			if r.P(0.1) {
				hot = f
			}
			x := Rec{F: int64(f), S: p.size[f], T: t, P: r.in64(0, 1, 1, 2), Ok: true, DT: r.in64(0, 0, 0, 3, 1), FT: r.in64(2, 9, 2), Site: r.i64(0, 8), User: r.i64(0, 5)}
			if c.Region == "it" && x.DT == 3 {
				x.DT = 1
			}
			if c.Region == "us" && x.DT == 1 {
				x.DT = 3
			}
			e := r.fl(100, 75, 50, 25, 12.5, 0, 62.5)
			x.Cpu, x.IO = e*10, (100-e)*10
			if r.P(filt) {
				switch r.Intn(6) {
				case 0:
					x.Ok = false
				case 1:
					x.Exit = r.in64(1, 50, -1, 8021)
				case 2:
					x.DT = r.in64(0, 1, 2, 3, 4)
				case 3:
					x.FT = r.in64(0, 1, 2, 3, 9, 10)
				case 4:
					x.Site = r.in64(7, 8, 9, 10, 16, 20)
				case 5:
					x.Ok, x.Exit = false, 1
				}
			}
			if r.P(inv) {
				switch r.Intn(5) {
				case 0:
					x.Cpu, x.IO = 0, 0
				case 1:
					x.Cpu, x.IO = -5, 100
				case 2:
					x.Cpu, x.IO = 150, -50
				case 3:
					x.Cpu, x.IO = 10, -10
				case 4:
					x.Cpu, x.IO = 0, 10 // valid: zero
				}
			}
			if r.P(0.03) {
				x.Raw = map[string]string{}
				switch r.Intn(5) {
				case 0:
					x.Raw["reqDay"] = fmt.Sprintf("%d.0", x.T)
				case 1:
					x.Raw["JobSuccess"] = r.of("1", "true", "TRUE", "T", "0", "f", "", "yes")
				case 2:
					x.Raw["CPUTime"] = r.of("1e3", "", "nan", "inf", "-inf")
				case 3:
					x.Raw["JobExecExitCode"] = r.of("0", "00", "+0", "7", "65")
				case 4:
					x.Raw["TaskID"] = r.of("", "abc", "\"12,5\"")
				}
			}
			out = append(out, x)
			switch intra {
			case 1:
				t += r.in64(0, 0, 60, 3600)
			case 2:
				t += r.in64(0, 1800, 7200, 82800, 82799)
			}
			if back && r.P(0.1) && t-7200 > dayT {
				t -= 7200
			}
		}
		if intra == 0 {
			t = dayT
		}
		if t < dayT {
			t = dayT
		}
		t += r.in64(86400, 86400, 86400, 86400, 82800, 82799, 82740, 172800, 86400*7, 86400*31)
	}
	return out
}

// genFiles lays records out in files and returns the path to read.
func genFiles(r rnd, sc *Scenario, name string, recs []Rec) string {
	style := func(d *DataFile) {
		if r.P(0.3) {
			d.Perm = r.U64()>>1 | 1
		}
		if r.P(0.15) {
			d.Extra = r.Range(1, 3)
		}
		d.CRLF = r.P(0.1)
		d.NoEOL = r.P(0.15)
		d.Level = r.n(0, 0, 1, 9)
	}
	if r.P(0.5) {
		d := DataFile{Name: name + ".csv", Recs: recs}
		if d.Gz = r.P(0.6); d.Gz {
			d.Name += r.of(".gz", ".gz", ".gzip")
		}
		style(&d)
		sc.Data = append(sc.Data, d)
		return d.Name
	}
	n := r.Range(1, 5)
	var cuts []int
	for i := 0; i < n-1; i++ {
		cuts = append(cuts, r.Intn(len(recs)+1))
	}
	sort.Ints(cuts)
	cuts = append(cuts, len(recs))
	at := 0
	var fs []DataFile
	for i, c := range cuts {
		d := DataFile{Recs: recs[at:c]}
		at = c
		base := []string{fmt.Sprintf("results_2018-%02d", i+1), fmt.Sprintf("f%d", i+8), fmt.Sprintf("part %c", 'a'+i)}[sc.nameStyle(r)]
		d.Name = name + "/" + base + ".csv"
		if d.Gz = r.P(0.6); d.Gz {
			d.Name += ".gz"
		}
		style(&d)
		fs = append(fs, d)
	}
	// the name order decides, so hand the parts out in that order
	names := make([]string, len(fs))
	gzs := map[string]bool{}
	for i := range fs {
		names[i] = fs[i].Name
		gzs[fs[i].Name] = fs[i].Gz
	}
	sort.Strings(names)
	for i := range fs {
		fs[i].Name, fs[i].Gz = names[i], gzs[names[i]]
	}
	// stored in another order
	for i := len(fs) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		fs[i], fs[j] = fs[j], fs[i]
	}
	sc.Data = append(sc.Data, fs...)
	if r.P(0.3) {
		sc.Data = append(sc.Data, DataFile{Name: name + "/" + r.of("README.txt", "notes", "x.csv.bak", "old.json"), Other: "not data\n"})
	}
	return name
}

func (sc *Scenario) nameStyle(r rnd) int { return r.Intn(3) }

func genConf(r rnd, c CacheCfg) ProgConf {
	p := ProgConf{Cache: c, DumpFS: true, WSize: 7, WStop: 1000, Delay: r.fl(2.4, 0, 0.001), GEps: r.fl(1, 0.5), GDec: r.fl(0.001, 0.1, 0.0000042), GUnl: r.P(0.3)}
	if c.isRL() {
		if r.P(0.4) {
			p.Cache.AddEps = -1
		}
		if r.P(0.4) {
			p.Cache.AddDecay = -1
		}
		if r.P(0.4) {
			p.Cache.EvcEps = -1
		}
		if r.P(0.4) {
			p.Cache.EvcDecay = -1
		}
		if p.Cache.EvcType == "NONE" || p.Cache.EvcType == "none" {
			p.Cache.EvcType = "NONE"
		}
	}
	if r.P(0.1) {
		p.MemProf = "mem.prof"
	}
	if r.P(0.1) {
		p.CpuProf = "cpu.prof"
	}
	return p
}

func genSess(r rnd, p ProgConf, data string) Session {
	s := Session{Conf: p, Data: data, Sim: genSim(r)}
	s.Sim.MaxSteps = 0
	if r.P(0.5) {
		s.Split = r.U64()>>1 | 1
	}
	if r.P(0.1) {
		s.Lat = r.in64(1000, 1_000_000, 3_000_000_000)
	}
	return s
}

func (r rnd) windows(p *ProgConf, days int) {
	p.WSize = r.n(1, 1, 2, 3, 7)
	p.WStart = r.n(0, 0, 0, 1, 2)
	p.WStop = r.n(1, 2, 3, 5, 1000, 1000)
	if r.P(0.05) {
		p.WStop = 0
	}
}

// bandwidth small enough to be used up within a day.
func (r rnd) bandwidth(c *CacheCfg, p popul) {
	if !c.Redirect {
		return
	}
	gb := (1000. / 8.) * 60 * 60 * 24
	c.BW = p.unit * r.fl(2, 4, 8, 20) / gb
	if r.P(0.3) {
		c.BW = p.unit * 16 / 0.95 / gb
	}
}

func datasetFor(r rnd, c *CacheCfg, p popul) {
	if c.Type != "lruDatasetVerifier" {
		return
	}
	c.Dataset = []int64{}
	for f := 1; f < len(p.size); f++ {
		if r.P(0.6) {
			c.Dataset = append(c.Dataset, int64(f))
		}
	}
}

const dumpDir = "/w/dumps/"

// genProg builds fault-free sessions judged by the model.
func genProg(prop string, r rnd) *Scenario {
	sc := &Scenario{Prop: prop, Kind: "prog"}
	c := genCfg(prop, r)
	p := genPopul(r, c)
	r.bandwidth(&c, p)
	datasetFor(r, &c, p)
	t := day0 + int64(r.Intn(40))*86400
	days, per := r.n(1, 2, 4, 8, 15), r.n(1, 3, 8, 20, 40)
	if prop == "C08" || prop == "C21" {
		days = r.n(1, 3, 6, 12, 25)
	}
	ns := 1
	restart := false
	switch prop {
	case "C04", "C20":
		ns, restart = r.n(2, 2, 3), true
	case "C18":
		ns, restart = r.n(2, 3, 4), r.P(0.6)
	default:
		if r.P(0.3) {
			ns, restart = 2, true
		}
	}
	if c.Type == "random" {
		restart = false
	}
	conf := genConf(r, c)
	dn := r.of("", "", "d.json.gz", dumpDir+"d.json.gz")
	for k := 0; k < ns; k++ {
		recs := genRecs(r, c, p, t, days, per)
		if len(recs) > 0 {
			t = recs[len(recs)-1].T + r.in64(0, 3600, 86400, 86400*3)
		}
		data := genFiles(r, sc, fmt.Sprintf("d%d", k), recs)
		q := conf
		if prop == "C08" || r.P(0.2) {
			r.windows(&q, days)
		}
		q.Overwrite = k > 0 && r.P(0.8) || k == 0 && r.P(0.3)
		q.Dump = restart && k < ns-1 || r.P(0.3)
		q.DumpName, q.LoadName = dn, dn
		if k > 0 && restart {
			q.Load = r.P(0.9)
			if r.P(0.05) {
				q.LoadName = "nowhere.json.gz"
			}
			if prop == "C20" || prop != "C04" && r.P(0.2) {
				q.Cold = r.P(0.9)
				q.ColdNS = r.P(0.5)
			}
			if q.Cold && r.P(0.5) {
				// another configuration, its own folder
				if dn != "" && dn[0] == '/' {
					mutateCfg(r, &q.Cache)
				} else if q.Cache.Type != "infinite" {
					q.Cache.WM = !q.Cache.WM
					q.Cache.High, q.Cache.Low = r.fl(90, 75, 50), r.fl(50, 25)
				}
			}
			if prop == "C11" && !q.Cold && dn != "" && dn[0] == '/' {
				q.Cache.WM = r.P(0.8)
				q.Cache.High, q.Cache.Low = r.fl(90, 75, 50, 25), r.fl(25, 12.5, 0)
			}
			if c.isRL() && prop != "C04" {
				q.DumpFS = r.P(0.9)
			}
		}
		if prop != "C04" && prop != "C20" && r.P(0.1) {
			q.DumpFS = false
		}
		if prop == "C20" || prop == "C04" {
			q.Overwrite = true
		}
		sc.Sess = append(sc.Sess, genSess(r, q, data))
	}
	return sc
}

// genSmall builds sessions for fault injection: few records, all outputs.
func genSmall(prop string, r rnd) *Scenario {
	sc := &Scenario{Prop: prop}
	c := genCfg(prop, r)
	p := genPopul(r, c)
	r.bandwidth(&c, p)
	datasetFor(r, &c, p)
	t := day0 + int64(r.Intn(40))*86400
	conf := genConf(r, c)
	conf.MemProf, conf.CpuProf = "", ""
	ns := 1
	switch prop {
	case "C05":
		ns = 2
	case "C19":
		ns = r.n(1, 2, 2, 2)
	case "C18":
		ns = r.n(2, 3, 4, 5, 7)
	default:
		ns = r.n(1, 1, 2)
	}
	dn := r.of("", "", "d.json.gz", dumpDir+"d.json.gz")
	for k := 0; k < ns; k++ {
		days, per := r.n(1, 2, 3, 5), r.n(1, 3, 6, 12)
		if prop == "C18" {
			days, per = r.n(1, 2, 2, 3), r.n(1, 2, 4)
		}
		recs := genRecs(r, c, p, t, days, per)
		t = recs[len(recs)-1].T + 86400
		data := genFiles(r, sc, fmt.Sprintf("d%d", k), recs)
		q := conf
		q.Cache.Log = r.P(0.5)
		q.DumpName, q.LoadName = dn, dn
		q.Overwrite = true
		q.Dump = true
		q.Load = k > 0
		switch prop {
		case "C10":
			q.Dump = r.P(0.7) || k < ns-1
		case "C05":
			q.Dump = k == 0 || r.P(0.7)
			q.Cold = k > 0 && r.P(0.15)
			q.ColdNS = r.P(0.3)
		case "C19":
			q.Load = k > 0 && r.P(0.6)
			if k > 0 && k == ns-1 {
				q.Dump = r.P(0.9)
			}
		case "C18":
			q.Overwrite = r.P(0.5)
			q.Load = k > 0 && r.either(ns > 5, 0.95, 0.6)
			q.Dump = r.either(ns > 5, 0.95, 0.7)
			q.Cold = r.P(0.1)
		case "C21":
			q.Dump = r.P(0.5) || k < ns-1
			r.windows(&q, days)
		}
		sc.Sess = append(sc.Sess, genSess(r, q, data))
		if prop == "C18" && k > 1 && r.either(ns > 5, 0.25, 0.1) {
			sc.Sess[k].Tidy = r.Range(1, 4)
		}
	}
	sc.Pick = r.U64()>>1 | 1
	return sc
}

// genRead builds a reading of input data.
func genRead(r rnd) *Scenario {
	sc := &Scenario{Prop: "C07", Kind: "read", Sim: genSim(r)}
	sc.Sim.MaxSteps = 0
	c := CacheCfg{Type: "lru", SizeV: 64, Unit: "M"}
	p := genPopul(r, c)
	n := r.n(0, 1, 3, 20, 20, 1100, 2300)
	var recs []Rec
	if n > 0 {
		recs = genRecs(r, c, p, day0, 1+n/40, 40)
		if len(recs) > n {
			recs = recs[:n]
		}
	}
	if r.P(0.5) { // values of every size
		for i := range recs {
			if r.P(0.2) {
				wildRec(r, &recs[i])
			}
		}
	}
	sc.DataPath = genFiles(r, sc, "d", recs)
	if r.P(0.5) {
		sc.Split = r.U64()>>1 | 1
	}
	if r.P(0.1) {
		sc.Lat = 1000
	}
	if r.P(0.15) {
		sc.Take = r.Range(1, len(recs)+1)
	}
	if r.P(0.5) {
		sc.Pick = r.U64()>>1 | 1
	}
	return sc
}

// wildRec gives some columns of a record values as large, small or exact as
// the column can hold.
func wildRec(r rnd, x *Rec) {
	raw := map[string]string{}
	for k, v := range x.Raw {
		raw[k] = v
	}
	for i, n := 0, r.Range(1, 5); i < n; i++ {
		switch c := r.of("Filename", "SiteName", "UserID", "TaskID", "TaskMonitorID", "JobID", "Protocol", "JobExecExitCode", "DataType", "FileType", "Region", "Campaign", "Process",
			"Size", "JobLengthH", "JobLengthM", "CPUTime", "IOTime", "reqDay"); c {
		case "Size", "JobLengthH", "JobLengthM", "CPUTime", "IOTime":
			raw[c] = r.of("3221225473", "1234567891.5", "0.1", "1e-9", "123456789012345678", "2.5e11", "-0.25", "16777217", "1e300")
		case "reqDay":
			raw[c] = r.of("1530403201", "1530403259.75", "4102444799", "2147483648", "0", "-1")
		default:
			raw[c] = r.of("2147483648", "4294967297", "9007199254740993", "9223372036854775807", "-9223372036854775808", "-1", "0", "00012", "65536", "256")
		}
	}
	x.Raw = raw
}

// genSame builds runs to be compared with one another.
func genSame(prop string, r rnd) *Scenario {
	sc := genProg(prop, r)
	sc.Kind = "same"
	sc.Sim = genSim(r)
	sc.Sim.MaxSteps = 0
	sc.Sim.MapSeed = r.U64()>>1 | 1
	if r.P(0.7) {
		sc.Split = r.U64()>>1 | 1
	}
	sc.Lat = r.in64(0, 0, 1000, 5_000_000, 2_000_000_000)
	for k := range sc.Sess {
		// what else it depends on, besides map order (a known finding)
		if sc.Sess[k].Conf.Cache.Type == "random" {
			sc.Sim.MapSeed, sc.Sess[k].Sim.MapSeed = 0, 0
		}
	}
	return sc
}

// generate builds scenario number i of a property.
func generate(prop string, seed, i uint64) *Scenario {
	if f := guestGen[prop]; f != nil {
		return f(seed, i)
	}
	sc := generate1(prop, seed, i)
	if r := newRnd(seed, hashOf(prop), i, 77); r.P(0.12) {
		sc = renumber(sc, r.in64(1<<31, 1<<53, 1<<53, 1<<62))
	}
	return sc
}

// renumber adds a constant to all file names, keeping their order.
func renumber(sc *Scenario, by int64) *Scenario {
	sc = clone(sc)
	set := func(c *CacheCfg) {
		for i := range c.Dataset {
			c.Dataset[i] += by
		}
	}
	set(&sc.Cfg)
	for i := range sc.Ops {
		if o := &sc.Ops[i]; o.R != nil {
			o.R.F += by
		} else if o.NC != nil {
			set(o.NC)
		}
	}
	for i := range sc.Sess {
		set(&sc.Sess[i].Conf.Cache)
	}
	for i := range sc.Data {
		for j := range sc.Data[i].Recs {
			sc.Data[i].Recs[j].F += by
		}
	}
	return sc
}

func generate1(prop string, seed, i uint64) *Scenario {
	r := newRnd(seed, hashOf(prop), i)
	switch prop {
	case "C05", "C10", "C18", "C19", "C32":
		return genFault(prop, r)
	case "C06":
		return genSame(prop, r)
	case "C07":
		if r.P(0.25) {
			return genBadProg(r)
		}
		return genRead(r)
	case "C08":
		return genProg(prop, r)
	case "C21":
		switch r.Pick(4, 4, 2) {
		case 0:
			return genProg(prop, r)
		case 1:
			return genFault(prop, r)
		}
		return genLib(prop, r)
	case "C04", "C20", "C09":
		if r.P(0.3) {
			return genProg(prop, r)
		}
		return genLib(prop, r)
	}
	if r.P(0.15) {
		return genProg(prop, r)
	}
	return genLib(prop, r)
}

func genFault(prop string, r rnd) *Scenario {
	sc := genSmall(prop, r)
	sc.Kind = map[string]string{"C05": "damage", "C10": "fault", "C18": "results", "C19": "dump", "C21": "fault", "C32": "settings"}[prop]
	sc.Tries = r.n(4, 8, 16)
	if prop == "C18" && r.P(0.06) {
		sc.Old = r.n(12, 98, 99, 100)
	}
	if prop == "C32" && r.P(0.5) {
		z := r.of(".gz", ".gzip")
		for k := range sc.Sess {
			sc.Sess[k].Conf.Cache.MapZip = z
		}
	}
	return sc
}

// genBadProg runs the program over damaged input.
func genBadProg(r rnd) *Scenario {
	sc := genSmall("C07", r)
	sc.Kind = "bad"
	sc.Sess = sc.Sess[:1]
	sc.Sess[0].Conf.Load = false
	sc.Tries = 6
	return sc
}
