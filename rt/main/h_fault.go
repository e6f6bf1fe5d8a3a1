//go:build go1.21

package main

// Fault injection over whole-program sessions, comparison of runs, and the
// record readers.

import (
	"fmt"
	"path"
	"strings"

	"simulator/v2/cache"
	"simulator/v2/verifsim/simos"
	"simulator/v2/verifsim/simrt"
)

func copyFS(f *simos.FS) *simos.FS { return f.Snapshot() }

func hang(res *Result, sc *Scenario, k int, o *ProgOut) bool {
	if !o.Exit.Hang() {
		return false
	}
	res.Viol = fmt.Sprintf("session %d: the run never ends: %s", k+1, o.Exit)
	return true
}

// prefix runs all sessions but the last one; they have to end well.
func prefix(w *world, res *Result) (ok bool) {
	sc := w.sc
	for k := 0; k < len(sc.Sess)-1; k++ {
		s := &sc.Sess[k]
		o := runSession(w.fs, s, &res.St, false)
		if hang(res, sc, k, o) {
			return false
		}
		if !o.Exit.OK() {
			if len(s.Faults) > 0 || len(s.Damage) > 0 {
				continue
			}
			res.Foreign = fmt.Sprintf("session %d failed: %s %s", k+1, o.Exit, o.Exit.Stack)
			res.Tags = []string{"C21"}
			if sc.Prop == "C21" {
				res.Viol, res.Foreign = res.Foreign, ""
			}
			return false
		}
	}
	return true
}

// variant is one faulted version of the last session.
type variant struct {
	faults []simos.Fault
	damage []Damage
	cap    int64
	power  uint64
	sc     *Scenario
	what   string
}

// with returns the scenario with the variant made explicit.
func (sc *Scenario) with(v variant) *Scenario {
	n := clone(sc)
	n.Pick, n.Tries = 0, 0
	s := &n.Sess[len(n.Sess)-1]
	s.Faults, s.Damage, s.Cap, s.Power = v.faults, v.damage, v.cap, v.power
	return n
}

// explicit is the variant a scenario already spells out.
func (sc *Scenario) explicit() variant {
	s := sc.Sess[len(sc.Sess)-1]
	return variant{faults: s.Faults, damage: s.Damage, cap: s.Cap, power: s.Power}
}

func writeOp(o simos.OpRec) bool {
	switch o.Name {
	case "create", "write", "close", "sync", "rename", "mkdir", "truncate", "remove":
		return true
	}
	return false
}

// pickOp chooses an operation, each file and kind alike, first and last ones
// more often.
func pickOp(r rnd, tr []simos.OpRec, want func(simos.OpRec) bool) (simos.OpRec, bool) {
	var keys []string
	by := map[string][]simos.OpRec{}
	for _, o := range tr {
		if want != nil && !want(o) {
			continue
		}
		k := o.Path + "|" + o.Name
		if len(by[k]) == 0 {
			keys = append(keys, k)
		}
		by[k] = append(by[k], o)
	}
	if len(keys) == 0 {
		return simos.OpRec{}, false
	}
	l := by[keys[r.Intn(len(keys))]]
	switch r.Pick(3, 3, 4) {
	case 0:
		return l[0], true
	case 1:
		return l[len(l)-1], true
	}
	return l[r.Intn(len(l))], true
}

func writeFault(r rnd, o simos.OpRec) simos.Fault {
	f := simos.Fault{Op: o.N, Kind: r.of(simos.FErr, simos.FErr, simos.FNoSpc)}
	if o.Name == "write" {
		f.Kind = r.of(simos.FErr, simos.FNoSpc, simos.FNoSpc, simos.FShort)
		if o.Size > 0 {
			f.Arg = int64(r.Intn(o.Size))
		}
	}
	return f
}

// execFault: a session under write faults either fails or leaves everything.
func execFault(sc *Scenario) (res Result) {
	w := newWorld(sc)
	if !prefix(w, &res) {
		return
	}
	last := len(sc.Sess) - 1
	clean := sc.Sess[last]
	clean.Faults, clean.Damage, clean.Cap = nil, nil, 0
	base := runSession(copyFS(w.fs), &clean, &res.St, true)
	if hang(&res, sc, last, base) {
		return
	}
	if !base.Exit.OK() {
		res.Foreign = "fault-free session failed: " + base.Exit.String() + " " + base.Exit.Stack
		if sc.Prop == "C21" {
			res.Viol, res.Foreign = res.Foreign, ""
		}
		return
	}
	want := outputs(clean.Conf, base.Files)
	for n, x := range want {
		if x == "missing" && !strings.Contains(n, "QTable") || strings.HasPrefix(x, "unreadable") {
			res.Viol = fmt.Sprintf("%s is %s after a run that reported success", n, clip(x))
			return
		}
	}
	try := func(v variant) bool {
		s := clean
		s.Faults, s.Cap, s.Power = v.faults, v.cap, v.power
		o := runSession(copyFS(w.fs), &s, &res.St, false)
		if o.Exit.Hang() {
			res.Viol = "the run never ends under a storage fault: " + o.Exit.String()
		} else if sc.Prop != "C21" && o.Exit.OK() {
			if d := diffOutputs(want, outputs(clean.Conf, o.Files)); d != "" {
				res.Viol = "success reported although a write failed: " + d
			}
			if o.Faulted {
				res.St.reach("fault-absorbed", 1)
			}
		} else if o.Faulted {
			res.St.reach("fault-reported", 1)
		}
		if res.Viol != "" {
			res.Repro = sc.with(v)
			return false
		}
		return true
	}
	if sc.Pick == 0 {
		v := sc.explicit()
		if len(v.faults) > 0 || v.cap > 0 {
			try(v)
		}
		return
	}
	r := newRnd(sc.Pick)
	var total int64
	for _, o := range base.Trace {
		if o.Name == "write" {
			total += int64(o.Size)
		}
	}
	for k := 0; k < sc.Tries; k++ {
		var v variant
		switch {
		case r.P(0.12) && total > 0:
			v.cap = 1 + int64(r.Intn(int(total)+64))
		case sc.Prop == "C21" && r.P(0.5):
			o, ok := pickOp(r, base.Trace, func(o simos.OpRec) bool { return !writeOp(o) })
			if !ok {
				continue
			}
			v.faults = []simos.Fault{{Op: o.N, Kind: simos.FErr}}
		default:
			o, ok := pickOp(r, base.Trace, func(o simos.OpRec) bool { return writeOp(o) && o.Path != "" })
			if !ok {
				continue
			}
			v.faults = []simos.Fault{writeFault(r, o)}
			if r.P(0.15) { // the disk stays broken
				for _, x := range base.Trace {
					if x.N > o.N && writeOp(x) && r.P(0.5) {
						v.faults = append(v.faults, writeFault(r, x))
					}
				}
			}
		}
		if !try(v) {
			return
		}
	}
	return
}

// endsRecord returns the first length of the packed file from at on, if any is
// near, that can be unpacked up to the end of a record and no further.
func endsRecord(b []byte, at int64) int64 {
	for k := at; k < at+400 && k < int64(len(b))-8; k++ {
		raw, _ := gunzip(b[:k])
		if len(raw) > 0 && raw[len(raw)-1] == '\n' {
			return k
		}
	}
	return at
}

// execDamage: a damaged dump is refused or harmless.
func execDamage(sc *Scenario) (res Result) {
	w := newWorld(sc)
	if !prefix(w, &res) {
		return
	}
	last := len(sc.Sess) - 1
	clean := sc.Sess[last]
	clean.Faults, clean.Damage, clean.Cap, clean.Split = nil, nil, 0, 0
	dump := clean.Conf.abs(clean.Conf.LoadName)
	old, ok := w.fs.Get(dump)
	if !ok {
		res.Foreign = "no dump was written"
		return
	}
	base := runSession(copyFS(w.fs), &clean, &res.St, true)
	if hang(&res, sc, last, base) {
		return
	}
	if !base.Exit.OK() {
		res.Foreign = "loading an intact dump failed: " + base.Exit.String() + " " + base.Exit.Stack
		return
	}
	want := outputs(clean.Conf, base.Files)
	try := func(v variant) bool {
		s := sc.Sess[last]
		s.Faults, s.Damage, s.Cap = v.faults, v.damage, 0
		f := copyFS(w.fs)
		o := runSession(f, &s, &res.St, false)
		switch {
		case o.Exit.Hang():
			res.Viol = "the run never ends: " + o.Exit.String()
		case o.Exit.OK():
			if d := diffOutputs(want, outputs(clean.Conf, o.Files)); d != "" {
				res.Viol = "the run went on from a damaged dump: " + d
			}
			res.St.reach("damage-harmless", 1)
		default:
			res.St.reach("damage-refused", 1)
		}
		if res.Viol != "" {
			res.Repro = sc.with(v)
			res.Repro.Sess[last].Split = s.Split
			return false
		}
		return true
	}
	if sc.Pick == 0 {
		try(sc.explicit())
		return
	}
	if sc.Sess[last].Split != 0 { // short reads alone
		if !try(variant{}) {
			return
		}
	}
	r := newRnd(sc.Pick)
	n := int64(len(old))
	for k := 0; k < sc.Tries; k++ {
		var v variant
		d := Damage{Path: dump}
		switch r.Pick(5, 5, 3, 2, 4, 1, 2) {
		case 0:
			d.Kind = "trunc"
			d.At = int64(r.Intn(int(n)))
			if r.P(0.3) {
				d.At = -int64(r.Range(1, 12))
			} else if r.P(0.4) {
				d.At = endsRecord(old, d.At)
			}
			v.damage = []Damage{d}
		case 6:
			d.Kind, d.At, d.Arg = "rec", int64(r.Intn(1000)), int64(r.Intn(4000))
			v.damage = []Damage{d}
		case 1:
			d.Kind, d.At, d.Arg = "flip", int64(r.Intn(int(n))), int64(1<<uint(r.Intn(8)))
			v.damage = []Damage{d}
			if r.P(0.3) {
				d.At = int64(r.Intn(int(n)))
				v.damage = append(v.damage, d)
			}
		case 2:
			d.Kind, d.At, d.Arg = "drop", int64(r.Intn(int(n))), int64(r.Range(1, 64))
			v.damage = []Damage{d}
		case 3:
			d.Kind, d.At, d.Arg = "zero", int64(r.Intn(int(n))), int64(r.Range(1, 512))
			v.damage = []Damage{d}
		case 4:
			o, ok := pickOp(r, base.Trace, func(o simos.OpRec) bool {
				return o.Path == dump && !writeOp(o)
			})
			if !ok {
				continue
			}
			// the reads of the dump itself, before it is saved again
			v.faults = []simos.Fault{{Op: o.N, Kind: simos.FErr}}
		case 5:
			d.Kind = "gone"
			v.damage = []Damage{d}
		}
		if !try(v) {
			return
		}
	}
	return
}

// settings are the files a session's cache takes its settings from, and the
// configuration itself.
func settings(c CacheCfg) (zip, plain []string) {
	if c.Type == "lruDatasetVerifier" {
		zip = append(zip, "/w/dataset.json.gz")
	}
	if c.Type == "aiNN" {
		plain = append(plain, "/w/nn.json")
	}
	for i, m := range [][]Feat{c.Add, c.Evc} {
		if len(m) == 0 {
			continue
		}
		p := []string{"/w/add.json", "/w/evc.json"}[i] + c.MapZip
		if c.MapZip != "" {
			zip = append(zip, p)
		} else {
			plain = append(plain, p)
		}
	}
	return
}

// execSettings: a damaged settings file is refused or harmless.
func execSettings(sc *Scenario) (res Result) {
	w := newWorld(sc)
	if !prefix(w, &res) {
		return
	}
	last := len(sc.Sess) - 1
	clean := sc.Sess[last]
	clean.Faults, clean.Damage, clean.Cap, clean.Split = nil, nil, 0, 0
	base := runSession(copyFS(w.fs), &clean, &res.St, true)
	if hang(&res, sc, last, base) {
		return
	}
	if !base.Exit.OK() {
		res.Foreign = "the run with intact settings failed: " + base.Exit.String() + " " + base.Exit.Stack
		return
	}
	want := outputs(clean.Conf, base.Files)
	try := func(v variant) bool {
		s := sc.Sess[last]
		s.Faults, s.Damage, s.Cap = v.faults, v.damage, 0
		o := runSession(copyFS(w.fs), &s, &res.St, false)
		switch {
		case o.Exit.Hang():
			res.Viol = "the run never ends: " + o.Exit.String()
		case o.Exit.OK():
			if d := diffOutputs(want, outputs(clean.Conf, o.Files)); d != "" {
				res.Viol = "the run went on with damaged settings: " + d
			}
			res.St.reach("settings-harmless", 1)
		default:
			res.St.reach("settings-refused", 1)
		}
		if res.Viol != "" {
			res.Repro = sc.with(v)
			res.Repro.Sess[last].Split = s.Split
			return false
		}
		return true
	}
	if sc.Pick == 0 {
		try(sc.explicit())
		return
	}
	if sc.Sess[last].Split != 0 && !try(variant{}) { // short reads alone
		return
	}
	zip, plain := settings(clean.Conf.Cache)
	all := append(append([]string{"/w/config.yml"}, plain...), zip...)
	r := newRnd(sc.Pick)
	for k := 0; k < sc.Tries; k++ {
		var v variant
		hit := func(p string) {
			b, _ := base.Files[p]
			n := len(b)
			d := Damage{Path: p, At: int64(r.Intn(n))}
			j := 0 // plain text has no checksum, only its end is known
			if r.P(0.75) {
				j = 1 + r.Pick(5, 3, 2)
			}
			if strings.HasSuffix(p, ".json") {
				j = 0
			}
			switch j {
			case 0:
				d.Kind = "trunc"
				if r.P(0.4) {
					d.At = -int64(r.Range(1, 12))
				}
			case 1:
				d.Kind, d.Arg = "flip", int64(1<<uint(r.Intn(8)))
			case 2:
				d.Kind, d.Arg = "drop", int64(r.Range(1, 24))
			case 3:
				d.Kind, d.Arg = "zero", int64(r.Range(1, 48))
			}
			v.damage = append(v.damage, d)
		}
		cfg := all[1:]
		switch r.Pick(5, 4, 1) {
		case 0:
			if len(cfg) == 0 {
				continue
			}
			hit(cfg[r.Intn(len(cfg))])
			if r.P(0.2) {
				hit(cfg[r.Intn(len(cfg))])
			}
		case 1:
			p := all[r.Intn(len(all))]
			o, ok := pickOp(r, base.Trace, func(o simos.OpRec) bool {
				return o.Path == p && !writeOp(o)
			})
			if !ok {
				continue
			}
			v.faults = []simos.Fault{{Op: o.N, Kind: simos.FErr}}
		case 2:
			v.damage = []Damage{{Path: all[r.Intn(len(all))], Kind: "gone"}}
		}
		if !try(v) {
			return
		}
	}
	return
}

// execDump: saving is all or nothing.
func execDump(sc *Scenario) (res Result) {
	w := newWorld(sc)
	if !prefix(w, &res) {
		return
	}
	last := len(sc.Sess) - 1
	clean := sc.Sess[last]
	clean.Faults, clean.Damage, clean.Cap = nil, nil, 0
	dump := clean.Conf.abs(clean.Conf.DumpName)
	cfg := clean.Conf.Cache
	content := func(f map[string]string) string {
		raw, ok := f[dump]
		if !ok {
			return "missing"
		}
		return norm(cfg, dump, raw)
	}
	before := content(snapshotFiles(w.fs, "/w"))
	bf := copyFS(w.fs)
	base := runSession(bf, &clean, &res.St, true)
	if hang(&res, sc, last, base) {
		return
	}
	if !base.Exit.OK() {
		res.Foreign = "fault-free session failed: " + base.Exit.String() + " " + base.Exit.Stack
		return
	}
	after := content(base.Files)
	saved := clean.Conf.Dump
	if saved && (after == "missing" || strings.HasPrefix(after, "unreadable")) {
		res.Viol = "the dump is " + clip(after) + " after a run that reported success"
		return
	}
	if !saved && before != after {
		res.Viol = "a run that does not save altered the dump"
		return
	}
	// what a restart from a complete dump shows
	if saved && !loads(w, bf, &clean, &res, "") {
		return
	}
	// smaller runs that save, as they go when nothing failed before them
	type small struct {
		s    Session
		want string
	}
	var smaller []small
	again := func(f *simos.FS, got, what string) {
		if clean.Conf.Load && clean.Conf.abs(clean.Conf.LoadName) == dump && got != before {
			return
		}
		if smaller == nil {
			smaller = []small{}
			for k := 0; k < 2; k++ {
				t := clean
				t.Conf.Dump, t.Conf.Overwrite = true, true
				if k == 0 {
					t.Conf.WSize, t.Conf.WStart, t.Conf.WStop = 1, 0, 1
				} else {
					t.Conf.DumpFS = false
				}
				if o := runSession(copyFS(w.fs), &t, &res.St, false); o.Exit.OK() {
					smaller = append(smaller, small{t, content(o.Files)})
				}
			}
		}
		for _, x := range smaller {
			g := copyFS(f)
			t := x.s
			o := runSession(g, &t, &res.St, false)
			res.St.reach("dump-over-leftovers", 1)
			switch now := content(o.Files); {
			case !o.Exit.OK():
				res.Viol = fmt.Sprintf("after %s the next run fails: %s", what, o.Exit)
			case now != x.want:
				res.Viol = fmt.Sprintf("after %s the next run leaves a dump that is not its own: %s", what, clip(now))
			}
			if res.Viol != "" {
				return
			}
		}
	}
	try := func(v variant) bool {
		s := clean
		s.Faults, s.Cap, s.Power = v.faults, v.cap, v.power
		f := copyFS(w.fs)
		o := runSession(f, &s, &res.St, false)
		got := content(o.Files)
		switch {
		case o.Exit.Hang():
			res.Viol = "the run never ends: " + o.Exit.String()
		case got != before && got != after:
			res.Viol = fmt.Sprintf("after %s the dump is neither the earlier nor the new one: %s", v.what, clip(got))
		case o.Exit.OK() && got != after:
			res.Viol = fmt.Sprintf("the run reported success but the dump is not the new one (%s)", v.what)
		case got == before && got != after:
			res.St.reach("dump-old-kept", 1)
		default:
			res.St.reach("dump-new-there", 1)
		}
		if res.Viol == "" && got != "missing" && v.what != "" {
			loads(w, f, &clean, &res, " after "+v.what)
		}
		if res.Viol == "" && v.what != "" {
			for name := range o.Files {
				if _, ok := base.Files[name]; !ok { // something is left over
					again(f, got, v.what)
					break
				}
			}
		}
		if res.Viol != "" {
			res.Repro = sc.with(v)
			return false
		}
		return true
	}
	if sc.Pick == 0 {
		v := sc.explicit()
		v.what = "the fault"
		if len(v.faults) > 0 || v.cap > 0 {
			try(v)
		}
		return
	}
	r := newRnd(sc.Pick)
	// the operations that save the dump: from the first one on a file that
	// looks like it until the last
	lo, hi := int64(0), int64(0)
	for _, o := range base.Trace {
		if writeOp(o) && path.Dir(o.Path) == path.Dir(dump) && strings.Contains(path.Base(o.Path), strings.SplitN(path.Base(dump), ".", 2)[0]) {
			if lo == 0 {
				lo = o.N
			}
			hi = o.N
		}
	}
	if lo == 0 {
		lo, hi = 1, int64(len(base.Trace))
	}
	for k := 0; k < sc.Tries; k++ {
		var v variant
		o, ok := pickOp(r, base.Trace, func(o simos.OpRec) bool { return o.N >= lo-2 && o.N <= hi+3 })
		if r.P(0.2) || !ok {
			if o, ok = pickOp(r, base.Trace, nil); !ok {
				continue
			}
		}
		v.power = r.U64()>>1 | 1
		switch r.Pick(4, 4, 1) {
		case 0:
			x := simos.Fault{Op: o.N, Kind: simos.FErr}
			if writeOp(o) {
				x = writeFault(r, o)
			}
			v.faults = []simos.Fault{x}
			v.what = x.Kind
		case 1:
			x := simos.Fault{Op: o.N, Kind: r.of(simos.FCrashPre, simos.FCrashPost, simos.FPowerPre, simos.FPowerPost)}
			if o.Name == "write" && o.Size > 0 && r.P(0.4) {
				x.Kind, x.Arg = simos.FCrashMid, int64(r.Intn(o.Size))
			}
			v.faults = []simos.Fault{x}
			v.what = x.Kind
		case 2:
			v.cap = 1 + int64(r.Intn(4096))
			v.what = "a full disk"
		}
		if !try(v) {
			return
		}
	}
	return
}

// loads checks that a run starts from the dump on disk.
func loads(w *world, f *simos.FS, s *Session, res *Result, when string) bool {
	t := *s
	t.Faults, t.Damage, t.Cap = nil, nil, 0
	t.Conf.Load, t.Conf.LoadName = true, s.Conf.DumpName
	t.Conf.Dump, t.Conf.Overwrite = false, true
	g := copyFS(f)
	a, _ := g.Get(t.Conf.abs(t.Conf.LoadName))
	o := runSession(g, &t, &res.St, false)
	if !o.Exit.OK() {
		res.Viol = fmt.Sprintf("a run cannot start from the dump%s: %s", when, o.Exit)
		return false
	}
	if b := o.Files[t.Conf.abs(t.Conf.LoadName)]; string(a) != b {
		res.Viol = "a run that does not save altered the dump"
		return false
	}
	return true
}

// execResults: earlier results survive crashes, restarts and repetition.
func execResults(sc *Scenario) (res Result) {
	w := newWorld(sc)
	r := newRnd(sc.Pick)
	exp := clone(sc)
	exp.Pick, exp.Tries = 0, 0
	if sc.Old > 0 {
		for k := 0; k < sc.Old; k++ {
			w.fs.Put(fmt.Sprintf("%s/simulation_results_run-%02d.csv", sc.Sess[0].Conf.dir(), k), []byte(fmt.Sprintf("date,num req\nday,%d\n", k)))
		}
		w.fs.SyncAll()
		res.St.reach("many-earlier-results", 1)
	}
	for k := range sc.Sess {
		s := sc.Sess[k]
		if s.Tidy > 0 {
			var kept []string
			for _, f := range w.fs.List("/w") {
				if strings.Contains(path.Base(f), "_run-") {
					kept = append(kept, f)
				}
			}
			if len(kept) > 0 {
				w.fs.Del(kept[s.Tidy%len(kept)])
				w.fs.SyncAll()
			}
		}
		before := snapshotFiles(w.fs, "/w")
		if sc.Pick != 0 && r.P(0.5) {
			base := runSession(copyFS(w.fs), &s, &res.St, true)
			if o, ok := pickOp(r, base.Trace, nil); ok {
				kind := r.of(simos.FCrashPre, simos.FCrashPost, simos.FCrashPost, simos.FErr)
				s.Faults = []simos.Fault{{Op: o.N, Kind: kind}}
				if o.Name == "write" && o.Size > 0 && r.P(0.3) {
					s.Faults[0].Kind, s.Faults[0].Arg = simos.FCrashMid, int64(r.Intn(o.Size))
				}
				exp.Sess[k].Faults = s.Faults
			}
		}
		o := runSession(w.fs, &s, &res.St, false)
		fail := func(m *Mis) {
			settleProg(sc, &res, m, k)
			exp.Sess = exp.Sess[:k+1]
			res.Repro = exp
		}
		if hang(&res, sc, k, o) {
			return
		}
		p := s.Conf
		if len(s.Faults) > 0 {
			if p.Dump {
				delete(w.dumps, p.abs(p.DumpName))
			}
			e := &expect{done: !p.Overwrite && completeRows(before[p.dir()+"/"+resName]) > 0}
			if m := keepResults(p, before, o.Files, e, o.Exit.OK()); m != nil {
				fail(m)
				return
			}
			res.St.reach("interrupted-runs", 1)
			continue
		}
		if p.Load && w.dumps[p.abs(p.LoadName)] == nil && !(!p.Overwrite && completeRows(before[p.dir()+"/"+resName]) > 0) {
			// nothing known to start from: only keep what is there
			if m := keepResults(p, before, o.Files, &expect{}, o.Exit.OK()); m != nil {
				fail(m)
				return
			}
			if o.Exit.OK() && p.Dump {
				delete(w.dumps, p.abs(p.DumpName))
			}
			continue
		}
		m, d := w.judge(&s, before, o, &res.St)
		if d != "" {
			res.Discard = d
			return
		}
		if m != nil {
			fail(m)
			return
		}
	}
	return
}

// execSame: two executions differing only in what must not matter.
func execSame(sc *Scenario) (res Result) {
	wa, wb := newWorld(sc), newWorld(sc)
	for k := range sc.Sess {
		a := sc.Sess[k]
		b := a
		b.Sim, b.Split, b.Lat = sc.Sim, sc.Split, sc.Lat
		if b.Sim.SchedSeed != 0 {
			b.Sim.SchedSeed += uint64(k)
		}
		oa := runSession(wa.fs, &a, &res.St, false)
		ob := runSession(wb.fs, &b, &res.St, false)
		if hang(&res, sc, k, oa) || hang(&res, sc, k, ob) {
			return
		}
		if oa.Exit.OK() != ob.Exit.OK() {
			res.Viol = fmt.Sprintf("session %d: the same run ended differently: %s | %s", k+1, oa.Exit, ob.Exit)
			return
		}
		if !oa.Exit.OK() {
			return
		}
		if d := diffOutputs(outputs(a.Conf, oa.Files), outputs(b.Conf, ob.Files)); d != "" {
			res.Viol = fmt.Sprintf("session %d: the same run gave other results: %s", k+1, d)
			return
		}
		res.St.reach("compared-runs", 1)
		res.St.States = append(res.St.States, hashOf(outputs(a.Conf, oa.Files)))
	}
	return
}

// ---------------------------------------------------------------- reading

type readOut struct {
	recs []cache.CSVRecord
	end  bool // the stream ended
	ex   simrt.Exit
	tr   []simos.OpRec
	hit  bool // a fault was injected
}

func readOnce(sc *Scenario, faults []simos.Fault, data []DataFile, trace bool, st *Stats) *readOut {
	f := simos.NewFS("/w")
	for _, d := range data {
		f.Put("/w/"+d.Name, d.render())
	}
	if len(sc.inputOf(sc.DataPath)) == 0 {
		f.Mkdir("/w/" + sc.DataPath)
	}
	f.SyncAll()
	f.SplitSeed, f.Latency, f.TraceOn = sc.Split, sc.Lat, trace
	f.StartProcess("/w", faults)
	simos.Cur = f
	resetRand(sc.Sim)
	cfg := sc.Sim
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = sessSteps
	}
	start := cfg.ClockStart
	out := &readOut{}
	w, ex := simrt.Run(cfg, func() {
		p := "/w/" + sc.DataPath
		in, e := simos.Stat(p)
		if e != nil {
			panic(e)
		}
		if in.IsDir() {
			d, e := simos.Open(p)
			if e != nil {
				panic(e)
			}
			ch := cache.OpenSimFolder(d)
			for sc.Take == 0 || len(out.recs) < sc.Take {
				x, ok := simrt.Recv2(ch)
				if !ok {
					out.end = true
					break
				}
				out.recs = append(out.recs, x)
			}
		} else {
			ch := cache.OpenSimFile(p)
			for sc.Take == 0 || len(out.recs) < sc.Take {
				x, ok := simrt.Recv2(ch)
				if !ok {
					out.end = true
					break
				}
				out.recs = append(out.recs, x)
			}
		}
	})
	out.ex, out.tr = ex, f.Trace
	for k, v := range f.Fired {
		if v > 0 && k != simos.FShortRead {
			out.hit = true
		}
	}
	st.world(w, f, start)
	return out
}

func wantRecord(r Rec) cache.CSVRecord {
	return cache.CSVRecord{Day: int64(r.flt("reqDay")), Region: r.int("Region"), Filename: r.int("Filename"), FileType: r.int("FileType"),
		DataType: r.int("DataType"), Protocol: r.int("Protocol"), TaskMonitorID: r.int("TaskMonitorID"), TaskID: r.int("TaskID"), JobID: r.int("JobID"),
		SiteName: r.int("SiteName"), JobExecExitCode: r.int("JobExecExitCode"), JobSuccess: r.boolean("JobSuccess"), JobLengthH: r.flt("JobLengthH"),
		JobLengthM: r.flt("JobLengthM"), UserID: r.int("UserID"), CPUTime: r.flt("CPUTime"), IOTime: r.flt("IOTime"), Size: r.flt("Size"),
		SizeM: r.flt("Size") / (1024 * 1024), Campaign: r.int("Campaign"), Process: r.int("Process")}
}

// only the columns the simulation uses
func used(r cache.CSVRecord) cache.CSVRecord {
	r.JobStart, r.JobEnd, r.NumCPU, r.WrapWC, r.WrapCPU = 0, 0, 0, 0, 0
	return r
}

func judgeRead(sc *Scenario, o *readOut, recs []Rec, bad bool) string {
	for i, x := range o.recs {
		if i >= len(recs) {
			return fmt.Sprintf("record %d is not in the input: %+v", i+1, x)
		}
		if a, b := fmt.Sprintf("%+v", used(x)), fmt.Sprintf("%+v", wantRecord(recs[i])); a != b {
			return fmt.Sprintf("record %d is %s, should be %s", i+1, a, b)
		}
	}
	if o.ex.Hang() {
		return "reading never ends: " + o.ex.String()
	}
	if sc.Take > 0 && len(o.recs) == sc.Take && !o.end {
		if !bad && !o.ex.OK() {
			return "reading failed: " + o.ex.String() + " " + o.ex.Stack
		}
		return ""
	}
	if bad {
		if o.ex.OK() || o.end {
			return fmt.Sprintf("unreadable or malformed input was taken for the end of the data after %d of %d records", len(o.recs), len(recs))
		}
		return ""
	}
	if !o.ex.OK() {
		return "reading failed: " + o.ex.String() + " " + o.ex.Stack
	}
	if len(o.recs) != len(recs) {
		return fmt.Sprintf("%d records read, the input has %d", len(o.recs), len(recs))
	}
	return ""
}

// usedColumns are the columns the simulation uses.
var usedColumns = []string{"Filename", "SiteName", "UserID", "TaskID", "TaskMonitorID", "JobID", "Protocol", "JobExecExitCode", "Size", "DataType", "FileType", "JobLengthH", "JobLengthM", "JobSuccess", "CPUTime", "IOTime", "reqDay", "Region", "Campaign", "Process"}

// spoil damages one input file of the path; false: nothing to damage.
func spoil(r rnd, sc *Scenario, p string, data []DataFile) (v []DataFile, what string) {
	var idx []int
	for i := range data {
		x := path.Ext(data[i].Name)
		if data[i].Name == p || path.Dir(data[i].Name) == p && (x == ".csv" || x == ".gz") {
			idx = append(idx, i)
		}
	}
	if len(idx) == 0 {
		return nil, ""
	}
	v = append([]DataFile(nil), data...)
	d := v[idx[r.Intn(len(idx))]]
	n := int64(len(d.render()))
	switch {
	case d.Gz && r.P(0.5):
		d.Cut = 1 + int64(r.Intn(int(n)-1))
		if r.P(0.3) {
			d.Cut = n - int64(r.Range(1, 9))
		}
		what = "truncated"
	case len(d.Recs) > 0 && r.P(0.5):
		d.BadRow = 1 + r.Intn(len(d.Recs))
		if r.P(0.3) {
			d.BadRow = -d.BadRow
		}
		what = "malformed row"
	case r.P(0.2):
		d.Void, d.Recs = true, nil
		what = "empty"
	case r.P(0.2):
		d.Other, d.Recs = "Filename,Size\n1,2\n", nil
		what = "columns missing"
	case r.P(0.4):
		d.Twice = usedColumns[r.Intn(len(usedColumns))]
		what = "column twice"
	case r.P(0.8):
		d.Lack = usedColumns[r.Intn(len(usedColumns))]
		what = "column missing"
		if r.P(0.5) {
			// and another one twice, so that the number is right
			for d.Twice = d.Lack; d.Twice == d.Lack; {
				d.Twice = usedColumns[r.Intn(len(usedColumns))]
			}
			what = "column missing and column twice"
		}
	default:
		if !d.Gz {
			return nil, ""
		}
		d.Other, d.Recs, d.Gz = "this is not compressed data", nil, false
		what = "not compressed"
	}
	for i := range v {
		if v[i].Name == d.Name {
			v[i] = d
		}
	}
	return v, what
}

// isBad says that the data of a path are damaged.
func isBad(sc *Scenario, p string) bool {
	for _, d := range sc.inputOf(p) {
		if d.Cut > 0 || d.BadRow != 0 || d.Other != "" || d.Lack != "" || d.Twice != "" || d.Void {
			return true
		}
	}
	return false
}

func goodRecs(sc *Scenario, p string) []Rec {
	// damaged files may yield their rows up to the damage
	return sc.recsOf(p)
}

func execRead(sc *Scenario) (res Result) {
	recs := sc.recsOf(sc.DataPath)
	bad := isBad(sc, sc.DataPath) || len(sc.Faults) > 0
	o := readOnce(sc, sc.Faults, sc.Data, true, &res.St)
	if len(sc.Faults) > 0 && !o.hit {
		bad = isBad(sc, sc.DataPath)
	}
	res.St.reach("records-read", int64(len(o.recs)))
	if m := judgeRead(sc, o, recs, bad); m != "" {
		res.Viol = m
		return
	}
	if bad {
		res.St.reach("bad-input-refused", 1)
	}
	if sc.Pick == 0 || bad {
		return
	}
	r := newRnd(sc.Pick)
	for k := 0; k < 6; k++ {
		n := clone(sc)
		n.Pick = 0
		if r.P(0.5) {
			x, ok := pickOp(r, o.tr, func(o simos.OpRec) bool { return o.Name != "close" && o.Name != "stat" })
			if !ok {
				continue
			}
			n.Faults = []simos.Fault{{Op: x.N, Kind: simos.FErr}}
		} else {
			v, what := spoil(r, sc, sc.DataPath, sc.Data)
			if what == "" {
				continue
			}
			n.Data = v
			res.St.fault("input-"+strings.ReplaceAll(what, " ", "-"), 1)
		}
		sub := execRead(n)
		res.St.add(sub.St)
		if sub.Viol != "" {
			res.Viol, res.Repro = sub.Viol, n
			return
		}
	}
	return
}

// execBad: the whole program over damaged input must not report success.
func execBad(sc *Scenario) (res Result) {
	s := &sc.Sess[0]
	run := func(sc *Scenario, trace bool) (*ProgOut, bool) {
		w := newWorld(sc)
		o := runSession(w.fs, &sc.Sess[0], &res.St, trace)
		return o, isBad(sc, s.Data) || len(sc.Sess[0].Faults) > 0 && o.Faulted
	}
	judge := func(o *ProgOut, bad bool, n *Scenario) bool {
		switch {
		case o.Exit.Hang():
			res.Viol = "the run never ends: " + o.Exit.String()
		case bad && o.Exit.OK():
			res.Viol = "unreadable or malformed input was taken for the end of the data"
		case !bad && !o.Exit.OK():
			res.Viol = "the run failed: " + o.Exit.String() + " " + o.Exit.Stack
		}
		if bad && !o.Exit.OK() {
			res.St.reach("bad-input-refused", 1)
		}
		if res.Viol != "" {
			res.Repro = n
			return false
		}
		return true
	}
	base, bad := run(sc, true)
	if !judge(base, bad, nil) || sc.Pick == 0 || bad {
		return
	}
	r := newRnd(sc.Pick)
	for k := 0; k < sc.Tries; k++ {
		n := clone(sc)
		n.Pick, n.Tries = 0, 0
		if r.P(0.5) {
			x, ok := pickOp(r, base.Trace, func(o simos.OpRec) bool {
				return (o.Path == "/w/"+s.Data || path.Dir(o.Path) == "/w/"+s.Data) && (o.Name == "read" || o.Name == "open" || o.Name == "readdir")
			})
			if !ok {
				continue
			}
			n.Sess[0].Faults = []simos.Fault{{Op: x.N, Kind: simos.FErr}}
		} else {
			v, what := spoil(r, sc, s.Data, sc.Data)
			if what == "" {
				continue
			}
			n.Data = v
			res.St.fault("input-"+strings.ReplaceAll(what, " ", "-"), 1)
		}
		o, b := run(n, false)
		if !judge(o, b, n) {
			return
		}
	}
	return
}

// exec runs any scenario.
func exec(sc *Scenario) Result {
	switch sc.Kind {
	case "lib":
		return execLib(sc)
	case "prog":
		return execProg(sc)
	case "same":
		return execSame(sc)
	case "read":
		return execRead(sc)
	case "bad":
		return execBad(sc)
	case "fault":
		return execFault(sc)
	case "damage":
		return execDamage(sc)
	case "settings":
		return execSettings(sc)
	case "dump":
		return execDump(sc)
	case "results":
		return execResults(sc)
	}
	if f := guestExec[sc.Kind]; f != nil {
		return f(sc)
	}
	return Result{Trouble: "unknown kind " + sc.Kind}
}
