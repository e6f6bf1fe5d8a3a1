//go:build go1.21

package main

import (
	"fmt"
	"os"
	"strings"

	"simulator/v2/verifsim/simrt"
)

type shrinker struct {
	r    Replay
	best *Scenario
	out  string
	runs int
	orig *Scenario
}

// input tells whether there are files under a data path.
func input(c *Scenario, path string) bool {
	for _, d := range c.Data {
		if d.Name == path || strings.HasPrefix(d.Name, strings.TrimSuffix(path, "/")+"/") {
			return true
		}
	}
	return false
}

// sound tells whether a candidate still has the input it reads.
func (s *shrinker) sound(c *Scenario) bool {
	paths := []string{c.DataPath}
	for _, x := range c.Sess {
		paths = append(paths, x.Data)
	}
	for _, p := range paths {
		if p != "" && input(s.orig, p) && !input(c, p) {
			return false
		}
	}
	return true
}

// try keeps the candidate if the property is still violated.
func (s *shrinker) try(c *Scenario) bool {
	if !s.sound(c) {
		return false
	}
	s.runs++
	res := guarded(c)
	if res.Viol == "" {
		return false
	}
	if res.Repro != nil {
		c = res.Repro
	}
	s.best = c
	s.r.Violation = res.Viol
	if e := writeReplay(s.out, s.r, c); e != nil {
		fmt.Fprintln(os.Stderr, "verif:", e)
		os.Exit(2)
	}
	return true
}

func (s *shrinker) edit(f func(c *Scenario)) bool {
	c := clone(s.best)
	f(c)
	if hashOf(c) == hashOf(s.best) {
		return false
	}
	return s.try(c)
}

// ddmin removes chunks of a list of n elements; set applies the kept indexes.
func (s *shrinker) ddmin(n int, set func(c *Scenario, keep []int)) bool {
	keep := make([]int, n)
	for i := range keep {
		keep[i] = i
	}
	any := false
	base := clone(s.best)
	for size := (n + 1) / 2; size >= 1; {
		removed := false
		for at := 0; at < len(keep); {
			end := at + size
			if end > len(keep) {
				end = len(keep)
			}
			k := append(append([]int(nil), keep[:at]...), keep[end:]...)
			c := clone(base)
			set(c, k)
			if s.try(c) {
				keep = k
				removed, any = true, true
			} else {
				at = end
			}
		}
		if size == 1 && !removed {
			break
		}
		if size > 1 {
			size /= 2
		}
	}
	return any
}

func pick[T any](x []T, keep []int) []T {
	var o []T
	for _, i := range keep {
		o = append(o, x[i])
	}
	return o
}

func sims(c *Scenario) []*simrt.Config {
	o := []*simrt.Config{&c.Sim}
	for i := range c.Sess {
		o = append(o, &c.Sess[i].Sim)
	}
	return o
}

func caches(c *Scenario) []*CacheCfg {
	o := []*CacheCfg{&c.Cfg}
	for i := range c.Sess {
		o = append(o, &c.Sess[i].Conf.Cache)
	}
	return o
}

// shrink minimises the scenario of a replay file, writing every improvement.
func shrink(file, out string) {
	r, sc, e := readReplay(file)
	if e != nil {
		fmt.Fprintln(os.Stderr, "verif:", e)
		os.Exit(2)
	}
	s := &shrinker{r: *r, best: sc, out: out, orig: clone(sc)}
	if !s.try(clone(sc)) {
		return
	}
	for more := true; more; {
		more = false
		// environment
		for k := range sims(s.best) {
			k := k
			for _, f := range []func(x *simrt.Config){
				func(x *simrt.Config) { x.Preempt, x.BlockRand, x.StallGo = 0, 0, 0 },
				func(x *simrt.Config) { x.StallGo = 0 },
				func(x *simrt.Config) { x.Preempt = 0 },
				func(x *simrt.Config) { x.BlockRand = 0 },
				func(x *simrt.Config) { x.MapSeed = 0 },
				func(x *simrt.Config) { x.ClockSeed = 0 },
			} {
				f := f
				more = s.edit(func(c *Scenario) { f(sims(c)[k]) }) || more
			}
		}
		more = s.edit(func(c *Scenario) { c.Split, c.Lat, c.Take = 0, 0, 0 }) || more
		for k := range s.best.Sess {
			k := k
			more = s.edit(func(c *Scenario) { c.Sess[k].Split, c.Sess[k].Lat = 0, 0 }) || more
			more = s.edit(func(c *Scenario) { c.Sess[k].Cap = 0 }) || more
		}
		// what happens
		if n := len(s.best.Ops); n > 1 {
			more = s.ddmin(n, func(c *Scenario, k []int) { c.Ops = pick(c.Ops, k) }) || more
		}
		if n := len(s.best.Calls); n > 1 {
			more = s.ddmin(n, func(c *Scenario, k []int) { c.Calls = pick(c.Calls, k) }) || more
		}
		for k := len(s.best.Sess) - 1; k >= 0 && len(s.best.Sess) > 1; k-- {
			k := k
			more = s.edit(func(c *Scenario) { c.Sess = append(c.Sess[:k:k], c.Sess[k+1:]...) }) || more
		}
		if n := len(s.best.Faults); n > 0 {
			more = s.ddmin(n, func(c *Scenario, k []int) { c.Faults = pick(c.Faults, k) }) || more
		}
		if n := len(s.best.Damage); n > 0 {
			more = s.ddmin(n, func(c *Scenario, k []int) { c.Damage = pick(c.Damage, k) }) || more
		}
		for j := range s.best.Sess {
			j := j
			if n := len(s.best.Sess[j].Faults); n > 0 {
				more = s.ddmin(n, func(c *Scenario, k []int) { c.Sess[j].Faults = pick(c.Sess[j].Faults, k) }) || more
			}
			if n := len(s.best.Sess[j].Damage); n > 0 {
				more = s.ddmin(n, func(c *Scenario, k []int) { c.Sess[j].Damage = pick(c.Sess[j].Damage, k) }) || more
			}
		}
		if n := len(s.best.Data); n > 1 {
			more = s.ddmin(n, func(c *Scenario, k []int) { c.Data = pick(c.Data, k) }) || more
		}
		for j := range s.best.Data {
			j := j
			if n := len(s.best.Data[j].Recs); n > 0 {
				more = s.ddmin(n, func(c *Scenario, k []int) { c.Data[j].Recs = pick(c.Data[j].Recs, k) }) || more
			}
			more = s.edit(func(c *Scenario) {
				c.Data[j].Perm, c.Data[j].Extra, c.Data[j].CRLF, c.Data[j].NoEOL = 0, 0, false, false
			}) || more
		}
		for k := range caches(s.best) {
			k := k
			for _, f := range []func(x *CacheCfg){
				func(x *CacheCfg) { x.Redirect = false },
				func(x *CacheCfg) { x.WM = false },
				func(x *CacheCfg) { x.Log = false },
			} {
				f := f
				more = s.edit(func(c *Scenario) { f(caches(c)[k]) }) || more
			}
		}
	}
	// the schedule as an explicit list of deviations
	for k := range sims(s.best) {
		k := k
		x := sims(s.best)[k]
		if x.Explicit || x.Preempt == 0 && x.BlockRand == 0 {
			continue
		}
		recorded = map[uint64][]simrt.Deviation{}
		guarded(clone(s.best))
		dev, ok := recorded[x.SchedSeed]
		recorded = nil
		if !ok || len(dev) > 5000 {
			continue
		}
		if !s.edit(func(c *Scenario) {
			x := sims(c)[k]
			x.Explicit, x.Deviations, x.Preempt, x.BlockRand = true, dev, 0, 0
		}) {
			continue
		}
		s.ddmin(len(dev), func(c *Scenario, keep []int) { y := sims(c)[k]; y.Deviations = pick(y.Deviations, keep) })
	}
}
