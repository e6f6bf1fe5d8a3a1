//go:build go1.21

package main

// The command line: coordinator of a check, worker, replay, minimiser.

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"
)

func main() {
	time.Local = time.UTC
	debug.SetMaxStack(256 << 20)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: worker check|run|replay|shrink|debug ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "quick or thorough")
	seed := fs.Uint64("seed", 1, "seed of the scenario list")
	from := fs.Int64("from", 0, "first scenario")
	stride := fs.Int64("stride", 1, "distance between scenarios")
	n := fs.Int64("n", 1, "end of the scenario list")
	secs := fs.Float64("secs", 600, "time limit")
	home := fs.String("home", "/verif", "directory of the machinery")
	file := fs.String("file", "", "scenario or replay file")
	out := fs.String("out", "", "output file")
	kind := fs.String("kind", "", "only this kind of scenario (debug)")
	_ = fs.Parse(os.Args[2:])
	switch cmd {
	case "check":
		os.Exit(check(*prop, *tier, *seed, *home, *n, *secs))
	case "run":
		go watchdog()
		runWorker(*prop, *seed, *from, *stride, *n, *secs)
	case "replay":
		go watchdog()
		os.Exit(replay(*file))
	case "shrink":
		go watchdog()
		shrink(*file, *out)
	case "hash":
		for i := *from; i < *n; i += *stride {
			r := exec(generate(*prop, *seed, uint64(i)))
			fmt.Printf("%s %d %d %016x\n", *prop, *seed, i, hashOf(r))
		}
	case "debug":
		debugRun(*prop, *seed, *from, *n, *kind)
	default:
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(2)
	}
}

// beat is the real time the current case began (0: none).
var beat int64

// watchdog ends the real process when a case outlives any bound (the step
// budget ends simulated hangs long before) or memory runs away.
func watchdog() {
	for {
		time.Sleep(200 * time.Millisecond)
		if b := loadBeat(); b != 0 && time.Now().UnixNano()-b > int64(120*time.Second) {
			fmt.Fprintln(os.Stderr, "verif: a case took more than 120 s of real time")
			os.Exit(7)
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 3<<30 {
			fmt.Fprintln(os.Stderr, "verif: more than 3 GB of memory in use")
			os.Exit(8)
		}
	}
}

func debugRun(prop string, seed uint64, from, n int64, kind string) {
	cnt := map[string]int{}
	var st Stats
	t0 := time.Now()
	for i := from; i < from+n; i++ {
		sc := generate(prop, seed, uint64(i))
		if kind != "" && sc.Kind != kind {
			continue
		}
		dbg := os.Getenv("DBG") != ""
		if dbg {
			b, _ := json.MarshalIndent(sc, "", " ")
			fmt.Println(string(b))
		}
		t := time.Now()
		res := exec(sc)
		if d := time.Since(t); d > 2*time.Second {
			fmt.Println("slow", i, sc.Kind, d, res.St.Steps, len(sc.Ops))
		}
		st.add(res.St)
		switch {
		case res.Viol != "":
			cnt[sc.Kind+" viol"]++
			if res.Repro != nil && dbg {
				x := *res.Repro
				b, _ := json.Marshal(x.Faults)
				fmt.Println("FAULTS", string(b))
				for _, d := range x.Data {
					fmt.Printf("FILE %s gz=%v cut=%d bad=%d other=%q\n%q\n", d.Name, d.Gz, d.Cut, d.BadRow, d.Other, d.render())
				}
			}
			if cnt[sc.Kind+" viol"] < 6 {
				fmt.Println(i, sc.Kind, "VIOL", res.Viol)
			}
		case res.Foreign != "":
			cnt[sc.Kind+" foreign"]++
			if cnt[sc.Kind+" foreign"] < 6 {
				fmt.Println(i, sc.Kind, "FOREIGN", res.Tags, res.Foreign)
			}
		case res.Discard != "":
			cnt[sc.Kind+" discard "+res.Discard]++
		default:
			cnt[sc.Kind+" ok"]++
		}
	}
	fmt.Println(cnt, st.Reach, st.Faults, st.Steps, time.Since(t0))
}
