//go:build go1.21

package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	osexec "os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func loadBeat() int64 { return atomic.LoadInt64(&beat) }

// guarded runs one scenario under the watchdog.
func guarded(sc *Scenario) Result {
	atomic.StoreInt64(&beat, time.Now().UnixNano())
	defer atomic.StoreInt64(&beat, 0)
	return exec(sc)
}

// relevant: what a case must have reached to count as non-trivial.
var relevant = map[string][]string{
	"C01": {"evictions", "restart-hot", "restart-cold", "admissions-refused"},
	"C02": {"evictions"},
	"C03": {"evictions", "histories-purged", "records-handled"},
	"C04": {"restart-hot"},
	"C05": {"damage-refused", "damage-harmless"},
	"C06": {"compared-runs"},
	"C07": {"bad-input-refused", "records-read"},
	"C08": {"records-handled"},
	"C09": {"evictions", "records-handled"},
	"C10": {"fault-reported", "fault-absorbed"},
	"C11": {"watermark-trims"},
	"C12": {"records-redirected", "redirects"},
	"C13": {"histories-purged", "evictions"},
	"C14": {"category-moves", "forced-evictions", "learning-steps"},
	"C15": {"learning-steps"},
	"C16": {"epsilon-raised", "learning-steps"},
	"C17": {"admissions-refused", "histories-purged"},
	"C18": {"already-done", "restart-hot", "interrupted-runs"},
	"C19": {"dump-old-kept", "dump-new-there"},
	"C20": {"restart-cold", "restart-coldns"},
	"C22": {"qcache-evictions", "qtable-updates", "compared-runs", "study-steps"},
	"C23": {"pairs-made", "fault-reported", "runs-after-crash", "bad-arguments-refused"},
	"C32": {"settings-refused", "settings-harmless"},
	"C21": {"records-handled", "evictions", "fault-reported", "fault-absorbed"},
}

// msg is one line of a worker's output.
type msg struct {
	T       string           `json:"t"` // at, viol, trouble, done
	I       int64            `json:"i"`
	Viol    string           `json:"viol,omitempty"`
	Sc      *Scenario        `json:"sc,omitempty"`
	St      *Stats           `json:"st,omitempty"`
	Kinds   map[string]int64 `json:"kinds,omitempty"`
	Disc    map[string]int64 `json:"disc,omitempty"`
	Foreign map[string]int64 `json:"foreign,omitempty"`
	Good    int64            `json:"good,omitempty"`
	N       int64            `json:"n,omitempty"`
	Scheds  string           `json:"scheds,omitempty"`
	States  string           `json:"states,omitempty"`
	Digests []uint64         `json:"digests,omitempty"`
	Sample  []sample         `json:"sample,omitempty"`
	Cases   string           `json:"cases,omitempty"`
}

type sample struct {
	Index int64            `json:"scenario"`
	Kind  string           `json:"kind"`
	Brief string           `json:"case"`
	Reach map[string]int64 `json:"reached,omitempty"`
	Fault map[string]int64 `json:"injected,omitempty"`
}

type set struct {
	m   map[uint64]struct{}
	cap int
}

func newSet(c int) *set { return &set{m: map[uint64]struct{}{}, cap: c} }
func (s *set) add(v ...uint64) {
	for _, x := range v {
		if len(s.m) < s.cap {
			s.m[x] = struct{}{}
		}
	}
}
func (s *set) pack() string {
	b := make([]byte, 0, 8*len(s.m))
	for k := range s.m {
		b = binary.LittleEndian.AppendUint64(b, k)
	}
	return base64.StdEncoding.EncodeToString(b)
}
func (s *set) unpack(t string) {
	b, _ := base64.StdEncoding.DecodeString(t)
	for len(b) >= 8 {
		s.add(binary.LittleEndian.Uint64(b))
		b = b[8:]
	}
}

func digest(r Result) uint64 {
	return hashOf([]interface{}{r.Viol, r.Foreign, r.Discard, r.St.Steps, r.St.Switches, r.St.Scheds, r.St.States, r.St.Faults, r.St.Reach})
}

func brief(sc *Scenario) string {
	c := sc.Cfg
	s := ""
	recs := 0
	for _, d := range sc.Data {
		recs += len(d.Recs)
	}
	if len(sc.Sess) > 0 {
		c = sc.Sess[0].Conf.Cache
		s = fmt.Sprintf("%d sessions, %d records in %d files", len(sc.Sess), recs, len(sc.Data))
	} else if sc.Kind == "read" {
		return fmt.Sprintf("%d records in %d files read from %q", recs, len(sc.Data), sc.DataPath)
	} else if len(sc.Calls) > 0 || sc.QDiv > 0 || len(sc.Args) > 0 {
		return fmt.Sprintf("%d calls %v", len(sc.Calls), sc.Args)
	} else {
		s = fmt.Sprintf("%d operations", len(sc.Ops))
	}
	cb, _ := json.Marshal(c)
	x := string(cb)
	if len(x) > 300 {
		x = x[:300] + "..."
	}
	return s + ", cache " + x
}

func runWorker(prop string, seed uint64, from, stride, n int64, secs float64) {
	enc := json.NewEncoder(os.Stdout)
	end := time.Now().Add(time.Duration(secs * float64(time.Second)))
	var st Stats
	kinds, disc, foreign := map[string]int64{}, map[string]int64{}, map[string]int64{}
	scheds, states, cases := newSet(150000), newSet(150000), newSet(1<<20)
	var good, count int64
	var smp []sample
	var digs []uint64
	tick := time.Now()
	for i := from; i < n; i += stride {
		if time.Now().After(end) {
			break
		}
		if time.Since(tick) > 200*time.Millisecond {
			_ = enc.Encode(msg{T: "at", I: i})
			tick = time.Now()
		}
		sc := generate(prop, seed, uint64(i))
		res := guarded(sc)
		count++
		kinds[sc.Kind]++
		if len(digs) < 4 {
			digs = append(digs, digest(res))
		}
		if res.Trouble != "" {
			_ = enc.Encode(msg{T: "trouble", I: i, Viol: res.Trouble})
			os.Exit(9)
		}
		ok := false
		for _, k := range relevant[prop] {
			if res.St.Reach[k] > 0 {
				ok = true
			}
		}
		scheds.add(res.St.Scheds...)
		states.add(res.St.States...)
		if res.Discard != "" {
			disc[res.Discard]++
		} else if ok {
			good++
			cases.add(hashOf([]interface{}{res.St.Steps, res.St.Reach, res.St.Scheds, res.St.States}))
			if len(smp) < 2 {
				smp = append(smp, sample{i, sc.Kind, brief(sc), res.St.Reach, res.St.Faults})
			}
		}
		res.St.Scheds, res.St.States = nil, nil
		st.add(res.St)
		if res.Foreign != "" {
			foreign[strings.Join(res.Tags, " ")]++
			if foreign["_"] == 0 {
				fmt.Fprintf(os.Stderr, "verif: scenario %d breaks another property (%v): %s\n", i, res.Tags, res.Foreign)
				foreign["_"] = 1
			}
		}
		if res.Viol != "" {
			x := sc
			if res.Repro != nil {
				x = res.Repro
			}
			_ = enc.Encode(msg{T: "viol", I: i, Viol: res.Viol, Sc: x})
			break
		}
	}
	delete(foreign, "_")
	_ = enc.Encode(msg{T: "done", St: &st, Kinds: kinds, Disc: disc, Foreign: foreign, Good: good, N: count,
		Scheds: scheds.pack(), States: states.pack(), Cases: cases.pack(), Digests: digs, Sample: smp})
}

// Replay is the content of a replay file.
type Replay struct {
	Property  string          `json:"property"`
	Violation string          `json:"violation"`
	Seed      uint64          `json:"seed"`
	Index     int64           `json:"index"`
	Scenario  json.RawMessage `json:"scenario"`
}

func readReplay(file string) (*Replay, *Scenario, error) {
	b, e := os.ReadFile(file)
	if e != nil {
		return nil, nil, e
	}
	var r Replay
	if e := json.Unmarshal(b, &r); e != nil {
		return nil, nil, e
	}
	var sc Scenario
	if e := json.Unmarshal(r.Scenario, &sc); e != nil {
		return nil, nil, e
	}
	return &r, &sc, nil
}

func writeReplay(file string, r Replay, sc *Scenario) error {
	b, e := json.Marshal(sc)
	if e != nil {
		return e
	}
	r.Scenario = b
	o, e := json.MarshalIndent(r, "", " ")
	if e != nil {
		return e
	}
	tmp := file + ".tmp"
	if e := os.WriteFile(tmp, append(o, '\n'), 0o644); e != nil {
		return e
	}
	return os.Rename(tmp, file)
}

func replay(file string) int {
	r, sc, e := readReplay(file)
	if e != nil {
		fmt.Fprintln(os.Stderr, "verif:", e)
		return 2
	}
	res := guarded(sc)
	switch {
	case res.Trouble != "":
		fmt.Println("TROUBLE", res.Trouble)
		return 2
	case res.Viol != "":
		fmt.Printf("digest %x\n", digest(res))
		fmt.Println("REPRODUCED", r.Property+":", res.Viol)
		return 1
	case res.Foreign != "":
		fmt.Println("OTHER", res.Tags, res.Foreign)
	case res.Discard != "":
		fmt.Println("DISCARDED", res.Discard)
	default:
		fmt.Println("NO VIOLATION")
	}
	return 0
}

// self runs this program again and returns its output and exit status.
func self(limit time.Duration, args ...string) (string, string, int) {
	c := osexec.Command(os.Args[0], args...)
	var o, eb bytes.Buffer
	c.Stdout, c.Stderr = &o, &eb
	if e := c.Start(); e != nil {
		return "", e.Error(), -1
	}
	t := time.AfterFunc(limit, func() { _ = c.Process.Kill() })
	e := c.Wait()
	t.Stop()
	if e != nil {
		if x, ok := e.(*osexec.ExitError); ok {
			return o.String(), eb.String(), x.ExitCode()
		}
		return o.String(), eb.String(), -1
	}
	return o.String(), eb.String(), 0
}

// died says how a worker process ended when that is the program's own doing
// (a stack overflow or similar ends the real process).
func died(stderr string) string {
	for _, k := range []string{"fatal error: stack overflow", "goroutine stack exceeds", "fatal error: concurrent map", "fatal error: all goroutines are asleep"} {
		if strings.Contains(stderr, k) {
			return k
		}
	}
	return ""
}

type known struct {
	prop, scenario, expect, what string
}

func readKnown(home string) (ks []known) {
	b, _ := os.ReadFile(filepath.Join(home, "KNOWN_FINDINGS.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		p := strings.SplitN(strings.TrimPrefix(l, "known: "), " | ", 4)
		if len(p) != 4 {
			continue
		}
		ks = append(ks, known{strings.TrimPrefix(p[0], "property="), strings.TrimPrefix(p[1], "scenario="), strings.TrimPrefix(p[2], "expect="), p[3]})
	}
	return
}

func check(prop, tier string, seed uint64, home string, n int64, secs float64) int {
	t0 := time.Now()
	if _, ok := relevant[prop]; !ok {
		fmt.Fprintln(os.Stderr, "verif: no such property", prop)
		return 2
	}
	procs := runtime.NumCPU()
	if procs > 16 {
		procs = 16
	}
	if n <= 1 {
		n = 1 << 40
	}
	rdir := filepath.Join(home, "replays")
	_ = os.MkdirAll(rdir, 0o755)
	_ = os.MkdirAll(filepath.Join(home, "evidence"), 0o755)

	// findings recorded earlier
	var knownLines []string
	violated := ""
	var violMsg string
	for _, k := range readKnown(home) {
		if k.prop != prop {
			continue
		}
		f := filepath.Join(home, k.scenario)
		o, e, code := self(150*time.Second, "replay", "-file", f)
		switch {
		case code == 1 && strings.Contains(o, k.expect):
			l := fmt.Sprintf("KNOWN-FINDING: property=%s %s", prop, k.what)
			knownLines = append(knownLines, l)
			fmt.Println(l)
		case code == 1:
			violated, violMsg = f, o
		case code != 0:
			fmt.Fprintln(os.Stderr, "verif: replay of", f, "failed:", code, o, e)
			return 2
		}
	}

	type wk struct {
		cmd  *osexec.Cmd
		at   int64
		last int64
		done *msg
		err  bytes.Buffer
		exit int
	}
	var mu sync.Mutex
	var viol *msg
	var trouble []string
	ws := make([]*wk, procs)
	var wg sync.WaitGroup
	for k := 0; k < procs && violated == ""; k++ {
		w := &wk{at: int64(k), last: int64(k)}
		ws[k] = w
		w.cmd = osexec.Command(os.Args[0], "run", "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(k), "-stride", fmt.Sprint(procs), "-n", fmt.Sprint(n), "-secs", fmt.Sprint(secs))
		w.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200")
		p, e := w.cmd.StdoutPipe()
		if e != nil {
			fmt.Fprintln(os.Stderr, "verif:", e)
			return 2
		}
		w.cmd.Stderr = &w.err
		if e := w.cmd.Start(); e != nil {
			fmt.Fprintln(os.Stderr, "verif:", e)
			return 2
		}
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			s := bufio.NewReaderSize(p, 1<<20)
			for {
				line, e := s.ReadBytes('\n')
				if len(line) > 0 {
					var m msg
					if json.Unmarshal(line, &m) == nil {
						mu.Lock()
						switch m.T {
						case "at":
							w.at, w.last = m.I, m.I
						case "viol":
							if viol == nil || m.I < viol.I {
								v := m
								viol = &v
							}
							w.at = m.I
						case "trouble":
							trouble = append(trouble, fmt.Sprintf("scenario %d: %s", m.I, m.Viol))
						case "done":
							d := m
							w.done = &d
							w.at = 1 << 60
						}
						mu.Unlock()
					}
				}
				if e != nil {
					break
				}
			}
			e := w.cmd.Wait()
			if e != nil {
				w.exit = -1
				if x, ok := e.(*osexec.ExitError); ok {
					w.exit = x.ExitCode()
				}
			}
			mu.Lock()
			if w.done == nil {
				w.at = 1 << 60
			}
			mu.Unlock()
		}(k)
	}
	// once something is found, wait only for smaller indexes
	stop := make(chan struct{})
	go func() {
		var since time.Time
		for {
			select {
			case <-stop:
				return
			case <-time.After(100 * time.Millisecond):
			}
			mu.Lock()
			if viol != nil {
				if since.IsZero() {
					since = time.Now()
				}
				for _, w := range ws {
					if w != nil && w.done == nil && (w.at > viol.I || time.Since(since) > 20*time.Second) {
						_ = w.cmd.Process.Kill()
					}
				}
			}
			mu.Unlock()
		}
	}()
	wg.Wait()
	close(stop)

	agg := Stats{}
	kinds, disc, foreign := map[string]int64{}, map[string]int64{}, map[string]int64{}
	scheds, states, cases := newSet(4<<20), newSet(4<<20), newSet(8<<20)
	var good, count int64
	var smp []sample
	cut := false
	for k, w := range ws {
		if w == nil {
			continue
		}
		if w.done == nil {
			if viol == nil && violated == "" {
				// the process died: find out whether that case kills it again
				f := filepath.Join(rdir, fmt.Sprintf("%s-died-%d.json", prop, k))
				d := died(w.err.String())
				if d == "" {
					trouble = append(trouble, fmt.Sprintf("worker %d ended with %d: %s", k, w.exit, tail(w.err.String(), 800)))
					continue
				}
				i, sc := findDeath(prop, seed, w.last, int64(procs), n, f)
				if sc == nil {
					trouble = append(trouble, fmt.Sprintf("worker %d died (%s) but no scenario does so again", k, d))
					continue
				}
				viol = &msg{I: i, Viol: "the process died: " + d, Sc: sc}
			}
			continue
		}
		if s := w.err.String(); strings.Contains(s, "verif: scenario") {
			fmt.Fprint(os.Stderr, s)
		}
		d := w.done
		agg.add(*d.St)
		for a, b := range d.Kinds {
			kinds[a] += b
		}
		for a, b := range d.Disc {
			disc[a] += b
		}
		for a, b := range d.Foreign {
			foreign[a] += b
		}
		scheds.unpack(d.Scheds)
		states.unpack(d.States)
		cases.unpack(d.Cases)
		good += d.Good
		count += d.N
		smp = append(smp, d.Sample...)
		if d.N < (n-int64(k)+int64(procs)-1)/int64(procs) && n < 1<<40 {
			cut = true
		}
	}
	explore := time.Since(t0).Seconds()

	// the same case in another process must give the same execution
	compared, differ := 0, 0
	if viol == nil && violated == "" && len(trouble) == 0 && ws[0] != nil && ws[0].done != nil {
		o, _, code := self(120*time.Second, "run", "-prop", prop, "-seed", fmt.Sprint(seed), "-from", "0", "-stride", fmt.Sprint(procs), "-n", fmt.Sprint(min64(n, int64(procs)*3+1)), "-secs", "60")
		if code == 0 {
			for _, l := range strings.Split(o, "\n") {
				var m msg
				if json.Unmarshal([]byte(l), &m) == nil && m.T == "done" {
					for j := range m.Digests {
						if j < len(ws[0].done.Digests) {
							compared++
							if m.Digests[j] != ws[0].done.Digests[j] {
								differ++
							}
						}
					}
				}
			}
		}
	}

	nviol := 0
	if viol != nil {
		f := filepath.Join(rdir, fmt.Sprintf("%s-%d-%d.json", prop, seed, viol.I))
		r := Replay{Property: prop, Violation: viol.Viol, Seed: seed, Index: viol.I}
		if e := writeReplay(f, r, viol.Sc); e != nil {
			fmt.Fprintln(os.Stderr, "verif:", e)
			return 2
		}
		o, e, code := self(150*time.Second, "replay", "-file", f)
		if code != 1 && died(e) == "" {
			trouble = append(trouble, fmt.Sprintf("scenario %d: %s: not reproduced in another process: %s", viol.I, viol.Viol, o))
		} else {
			lim := 30 * time.Second
			if tier == "thorough" {
				lim = 90 * time.Second
			}
			small := f + ".small"
			_, _, _ = self(lim, "shrink", "-file", f, "-out", small)
			if _, e := os.Stat(small); e == nil {
				o2, _, c2 := self(150*time.Second, "replay", "-file", small)
				if c2 == 1 {
					_ = os.Rename(small, f)
					o = o2
				}
			}
			_ = os.Remove(small)
			violated, violMsg = f, o
			if violMsg == "" {
				violMsg = viol.Viol
			}
		}
	}
	if violated != "" {
		nviol = 1
	}

	// evidence
	sort.Slice(smp, func(i, j int) bool { return smp[i].Index < smp[j].Index })
	if len(smp) > 6 {
		smp = smp[:6]
	}
	simS := float64(agg.SimNS) / 1e9
	cov := map[string]interface{}{
		"evaluations":              count,
		"distinct_nontrivial":      len(cases.m),
		"nontrivial":               good,
		"rule":                     "A case is a scenario drawn from VERIF_SEED and its index: configuration, input, operations or program runs, schedule, map order, clock, read splits, faults. Non-trivial: the run reached at least one of " + strings.Join(relevant[prop], ", ") + ". Distinct: another execution digest (steps, schedule hashes, state hashes, what was reached).",
		"samples":                  smp,
		"kinds_of_scenario":        kinds,
		"simulated_process_runs":   agg.Runs,
		"runs_per_hour":            int64(float64(agg.Runs) / explore * 3600),
		"seeds_per_hour":           int64(float64(count) / explore * 3600),
		"simulated_clock_seconds":  simS,
		"trace_days_covered":       float64(agg.DataSecs) / 86400,
		"steps":                    agg.Steps,
		"context_switches":         agg.Switches,
		"faults_injected":          agg.Faults,
		"reached":                  agg.Reach,
		"distinct_schedules":       len(scheds.m),
		"distinct_schedules_means": "different sequences of (goroutine chosen, yield count) over whole simulated processes, by hash",
		"distinct_states":          len(states.m),
		"distinct_states_means":    "different (cache type, occupied space, files in eviction order with their request counts), by hash",
		"discarded":                disc,
		"other_properties_broken":  foreign,
		"cut_by_time":              cut,
		"determinism_selftest":     map[string]int{"compared_across_processes": compared, "different": differ},
		"real_components":          []string{"package cache with ai, files, functions, queue", "main package (commands, configuration mapping)", "cobra", "zap", "yaml/json/csv/gzip libraries"},
		"stub_components":          []string{"goroutine scheduler, channels, sync, select (simrt)", "os, ioutil, filepath and exit calls (simos: in-memory disk)", "clock and timers (simrt)", "map iteration order (simrt)", "viper (simviper: yaml subset)", "pprof writers"},
	}
	switch prop {
	case "C22":
		cov["distinct_states_means"] = "different (space held, value held) of the study's cache, by hash"
		cov["real_components"] = []string{"qLearning_smartCache: main, cache, qtable"}
		cov["stub_components"] = []string{"goroutine scheduler and channels (simrt)", "map iteration order (simrt)", "standard output (simos)", "the lengths of the study's loops (shortened)"}
	case "C23":
		cov["distinct_states_means"] = "not measured for this program"
		cov["real_components"] = []string{"minio/generate_cert.go", "crypto, x509, pem and flag libraries"}
		cov["stub_components"] = []string{"os and log (simos: in-memory disk)", "clock (simrt)", "crypto/rand (seeded)"}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"interleavings are those of sequentially consistent memory at statement granularity of the instrumented packages",
			"sampled, not exhaustive: a clean run is evidence for the executions explored",
		},
		"wall_s": time.Since(t0).Seconds(), "violations": nviol,
	}
	if len(knownLines) > 0 {
		ev["known_findings"] = knownLines
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	ef := filepath.Join(home, "evidence", prop+".json")
	if e := os.WriteFile(ef, append(b, '\n'), 0o644); e != nil {
		fmt.Fprintln(os.Stderr, "verif:", e)
		return 2
	}
	if violated != "" {
		fmt.Println(strings.TrimSpace(violMsg))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, violated)
		return 1
	}
	if len(trouble) > 0 {
		for _, t := range trouble {
			fmt.Fprintln(os.Stderr, "verif:", t)
		}
		return 2
	}
	fmt.Printf("%s: %d scenarios (%d distinct non-trivial), %d simulated runs, %d steps (at most %d), %.1f s\n", prop, count, len(cases.m), agg.Runs, agg.Steps, agg.MostSteps, time.Since(t0).Seconds())
	return 0
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// findDeath looks for the scenario that ends the real process, from the last
// one known to have begun.
func findDeath(prop string, seed uint64, at, stride, n int64, file string) (int64, *Scenario) {
	end := time.Now().Add(60 * time.Second)
	for i := at; i < n && time.Now().Before(end); i += stride {
		sc := generate(prop, seed, uint64(i))
		if writeReplay(file, Replay{Property: prop, Seed: seed, Index: i}, sc) != nil {
			return 0, nil
		}
		_, e, _ := self(150*time.Second, "replay", "-file", file)
		if died(e) != "" {
			_ = os.Remove(file)
			return i, sc
		}
	}
	_ = os.Remove(file)
	return 0, nil
}
