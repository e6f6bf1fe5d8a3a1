//go:build go1.21

package main

// Reference model of the caches, written from their documented behaviour:
// plain data structures, a full sort for every eviction, no code shared with
// the repository.

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"time"
)

// Feat is one feature of a feature map.
type Feat struct {
	Name string    `json:"name"`
	Type string    `json:"type"` // bool int float
	File bool      `json:"file"`
	Open bool      `json:"open"`
	I    []int64   `json:"i,omitempty"`
	F    []float64 `json:"f,omitempty"`
	B    []bool    `json:"b,omitempty"`
}

// CacheCfg is the configuration of a cache under test.
type CacheCfg struct {
	Type      string  `json:"type"`
	SizeV     float64 `json:"sizeV"`
	Unit      string  `json:"unit"`
	Redirect  bool    `json:"redirect,omitempty"`
	BW        float64 `json:"bw"`
	WM        bool    `json:"wm,omitempty"`
	High      float64 `json:"high"`
	Low       float64 `json:"low"`
	MaxDiff   float64 `json:"maxDiff"`
	Delta     float64 `json:"delta"`
	Log       bool    `json:"log,omitempty"`
	Region    string  `json:"region,omitempty"` // "", it, us
	Seed      int64   `json:"seed"`
	WF        string  `json:"wf,omitempty"`
	Alpha     float64 `json:"alpha,omitempty"`
	Beta      float64 `json:"beta,omitempty"`
	Gamma     float64 `json:"gamma,omitempty"`
	Dataset   []int64 `json:"dataset,omitempty"`
	RLType    string  `json:"rlType,omitempty"`
	Add       []Feat  `json:"add,omitempty"`
	Evc       []Feat  `json:"evc,omitempty"`
	AddEps    float64 `json:"addEps,omitempty"`
	AddDecay  float64 `json:"addDecay,omitempty"`
	AddUnl    bool    `json:"addUnl,omitempty"`
	EvcEps    float64 `json:"evcEps,omitempty"`
	EvcDecay  float64 `json:"evcDecay,omitempty"`
	EvcUnl    bool    `json:"evcUnl,omitempty"`
	EvcType   string  `json:"evcType,omitempty"`
	K         int64   `json:"k,omitempty"`
	MapZip    string  `json:"mapZip,omitempty"`    // "", .gz, .gzip: how the feature maps are stored
	GlobalEps float64 `json:"globalEps,omitempty"` // passed to Loads
	GlobalDec float64 `json:"globalDec,omitempty"`
}

func (c CacheCfg) megabytes() float64 {
	switch c.Unit {
	case "G", "g":
		return c.SizeV * 1024
	case "T", "t":
		return c.SizeV * 1024 * 1024
	case "P", "p":
		return c.SizeV * 1024 * 1024 * 1024
	}
	return c.SizeV
}

func (c CacheCfg) isRL() bool       { return c.Type == "aiRL" }
func (c CacheCfg) learnEvict() bool { return c.Type == "aiRL" && c.scdl2() && len(c.Evc) > 0 }
func (c CacheCfg) scdl2() bool      { return c.RLType == "SCDL2" || c.RLType == "scdl2" }
func (c CacheCfg) unordered() bool {
	return c.Type == "random" || c.Type == "infinite" || c.learnEvict()
}

// Req is one request.
type Req struct {
	F    int64   `json:"f"`
	S    float64 `json:"s"`
	P    int64   `json:"p"`
	E    float64 `json:"e"`
	T    int64   `json:"t"`
	Site int64   `json:"site,omitempty"`
	User int64   `json:"user,omitempty"`
	FT   int64   `json:"ft,omitempty"`
}

// MFile is the history of one file.
type MFile struct {
	Name             int64
	Size             float64
	Weight           float64
	Freq, Hits, Miss int64
	Ins              int64 // first request, unix seconds
	Upd              int64 // last request
	HasUpd           bool
	Mean             float64
	Ring             []int64
	Idx              int
	Delta            int64
	Recency          int64
	seq              int64 // order of insertion or update while held
}

const neverReq = int64(math.MaxInt64)

// Obs is what the cache reports after a step.
type Obs struct {
	HitRate, WHit, Size, Max, Cap, AvgFree, StdFree float64
	DW, DR, DRH, DRM, DD                            float64
	CPU, CPUH, CPUM, CPUU, CPUL, BW, BWU, RedSize   float64
	NReq, NHit, NAdd, NDel, NRed                    int64
	NFiles                                          int
	Extra                                           string // ExtraStats
	Eps, Val, EvcStats, CatStats, Act               string // learning caches
}

// Model of a cache.
type Model struct {
	cfg     CacheCfg
	max     float64
	size    float64
	held    map[int64]*MFile
	stats   map[int64]*MFile
	seq     int64
	tick    int64
	delMiss map[int64]int
	delLast int
	first   int64
	hasTime bool
	last    int64
	bw      float64

	hits, misses              int64
	nreq, nred, nadd, ndel    int64
	nloc, nrem                int64
	hitEff, missEff           float64
	upEff, loEff              float64
	dw, dr, dd, drh, drm, rsz float64
	free                      []float64

	rng *rand.Rand // random caches
	ds  map[int64]bool
	rl  *rlState

	log      [][]string
	wRun     float64
	wErr     float64
	wInexact bool
	Ambig    string // the outcome depends on rounding; stop judging
	Bad      string // an observation no correct cache can produce
	hint     func(tick int64) []int64
	Purged   int
	Evicted  int
	Redirs   int
	Trims    int
	CatMoves int
	ForcedN  int
	UnleashN int
	Skips    int
}

// NewModel builds the model of a fresh cache.
func NewModel(c CacheCfg) *Model {
	m := &Model{cfg: c, max: c.megabytes(), held: map[int64]*MFile{}, stats: map[int64]*MFile{},
		delMiss: map[int64]int{}, bw: c.BW * (1000. / 8.) * 60. * 60. * 24.}
	switch c.Type {
	case "random", "random_lru":
		m.rng = rand.New(rand.NewSource(c.Seed))
	case "lruDatasetVerifier":
		m.ds = map[int64]bool{}
		for _, f := range c.Dataset {
			m.ds[f] = true
		}
	case "aiRL":
		m.rl = newRL(c)
	}
	if c.Log {
		m.log = append(m.log, []string{"tick", "action or event", "cache size", "cache capacity", "filename", "size", "num req", "delta t"})
	}
	return m
}

func (m *Model) ambig(f string, a ...interface{}) {
	if m.Ambig == "" {
		m.Ambig = fmt.Sprintf(f, a...)
	}
}

// near: different, but within rounding of each other.
func near(a, b float64) bool {
	return a != b && math.Abs(a-b) <= 1e-9*(math.Abs(a)+math.Abs(b))
}

func (m *Model) cap() float64 { return m.size / m.max * 100 }

func (m *Model) hitRate() float64 {
	if m.hits+m.misses == 0 {
		return 0
	}
	return float64(m.hits) / float64(m.hits+m.misses) * 100
}

func (m *Model) row(ev string, f int64, size string, freq, delta int64) {
	if !m.cfg.Log {
		return
	}
	m.log = append(m.log, []string{fmt.Sprint(m.tick), ev, fmt.Sprintf("%0.2f", m.size), fmt.Sprintf("%0.2f", m.cap()),
		fmt.Sprint(f), size, fmt.Sprint(freq), fmt.Sprint(delta)})
}
func (m *Model) event(ev string, f int64) { m.row(ev, f, "-1.00", -1, -1) }
func (m *Model) fileRow(ev string, f *MFile) {
	m.row(ev, f.Name, fmt.Sprintf("%0.2f", f.Size), f.Freq, f.Delta)
}

// Request handles one request.
func (m *Model) Request(q Req) (added, redirected bool) {
	_, hit := m.held[q.F]
	if !hit {
		if n, ok := m.delMiss[q.F]; ok {
			m.delMiss[q.F] = n + 1
		}
	}
	if hit {
		m.event("HIT", q.F)
	} else {
		m.event("MISS", q.F)
		if m.cfg.Redirect {
			need := 0.95 * m.bw
			usage := m.drm / m.bw * 100
			if math.Abs(m.drm-need) <= 1e-9*need && (m.drm*100 == m.bw*95) != (usage >= 95) {
				m.ambig("bandwidth used up within rounding")
			}
			if usage >= 95 {
				m.nred++
				m.Redirs++
				m.rsz += q.S
				m.row("REDIRECT", q.F, fmt.Sprintf("%0.2f", q.S), -1, -1)
				return false, true
			}
		}
	}
	f := m.history(q, hit)
	added = m.policy(q, f, hit)
	m.account(q, f, hit, added)
	m.watermark()
	return added, false
}

// history records the request in the file's history.
func (m *Model) history(q Req, hit bool) *MFile {
	if !m.hasTime {
		m.hasTime = true
		m.first = q.T
	}
	m.last = q.T
	f := m.stats[q.F]
	if f == nil {
		f = &MFile{Name: q.F, Size: q.S, Ins: q.T, Delta: neverReq, Recency: m.tick}
		m.stats[q.F] = f
	} else {
		f.Size = q.S
		f.Delta = m.tick - f.Recency
		f.Recency = m.tick
	}
	if m.rl != nil {
		m.rlNewDay(q)
	}
	m.nreq++
	if m.cfg.Type == "infinite" { // keeps no request counts
		return f
	}
	f.Freq++
	if hit {
		f.Hits++
	} else {
		f.Miss++
	}
	f.Upd, f.HasUpd = q.T, true
	if len(f.Ring) < 32 {
		f.Ring = append(f.Ring, q.T)
		f.Idx = len(f.Ring) % 32
	} else {
		f.Ring[f.Idx] = q.T
		f.Idx = (f.Idx + 1) % 32
	}
	if m.cfg.Type == "weightFunLRU" {
		old := f.Weight
		f.Mean, f.Weight = m.weigh(f)
		m.wAdd(-old)
		m.wAdd(f.Weight)
	}
	return f
}

func (m *Model) weigh(f *MFile) (mean, w float64) {
	var sum int64
	for _, t := range f.Ring {
		sum += f.Upd - t
	}
	if sum != 0 {
		mean = (time.Duration(sum) * time.Second).Minutes() / 32
	}
	n := float64(f.Freq)
	a, b, g := m.cfg.Alpha, m.cfg.Beta, m.cfg.Gamma
	switch m.cfg.WF {
	case "FuncAdditive":
		w = a*n + b*f.Size + g*mean
	case "FuncAdditiveExp":
		w = math.Pow(n, a) + math.Pow(f.Size, b) + math.Pow(mean, g)
	case "FuncMultiplicative":
		w = math.Pow(n, a) * math.Pow(f.Size, b) * math.Pow(mean, g)
	}
	return
}

// wAdd follows a running sum of the weights, to know how far rounding can have
// carried it from the true sum.
func (m *Model) wAdd(x float64) {
	s := m.wRun + x
	b := s - m.wRun
	e := (m.wRun - (s - b)) + (x - b)
	if e != 0 {
		m.wInexact = true
	}
	m.wErr += 0x1p-50 * (math.Abs(m.wRun) + math.Abs(x) + math.Abs(s))
	m.wRun = s
}

// wSlack is the doubt about the mean weight.
func (m *Model) wSlack() float64 {
	if !m.wInexact || len(m.stats) == 0 {
		return 0
	}
	return m.wErr / float64(len(m.stats))
}

func sortedNames[T any](x map[int64]T) []int64 {
	names := make([]int64, 0, len(x))
	for n := range x {
		names = append(names, n)
	}
	sort.Slice(names, func(i, j int) bool { return names[i] < names[j] })
	return names
}

// avgWeight is the mean weight of all files with history.
func (m *Model) avgWeight() float64 {
	names := sortedNames(m.stats)
	s := 0.0
	for _, n := range names {
		s += m.stats[n].Weight
	}
	return s / float64(len(names))
}

func (m *Model) policy(q Req, f *MFile, hit bool) bool {
	switch m.cfg.Type {
	case "aiRL":
		return m.rlPolicy(q, f, hit)
	case "infinite":
		if hit {
			return false
		}
		m.put(f)
		m.size += q.S
		m.max += q.S
		m.fileRow("ADD", f)
		return true
	}
	if hit {
		m.seq++
		f.seq = m.seq
		return false
	}
	switch m.cfg.Type {
	case "random", "random_lru":
		if m.rng.Float32() < 0.5 {
			return false
		}
	case "lruDatasetVerifier":
		if !m.ds[q.F] {
			return false
		}
	case "weightFunLRU":
		avg := m.avgWeight()
		if near(f.Weight, avg) || m.wInexact && math.Abs(f.Weight-avg) <= m.wSlack() {
			m.ambig("weight equals the average within rounding")
		}
		if f.Weight > avg {
			m.Skips++
			return false
		}
	}
	return m.admit(q, f)
}

func (m *Model) admit(q Req, f *MFile) bool {
	if m.size+q.S > m.max {
		m.Free(q.S, false)
	}
	if m.size+q.S > m.max {
		return false
	}
	m.size += q.S
	m.put(f)
	m.fileRow("ADD", f)
	return true
}

func (m *Model) put(f *MFile) {
	m.seq++
	f.seq = m.seq
	m.held[f.Name] = f
}

// order of the held files, the first to go first.
func (m *Model) order() []*MFile {
	out := make([]*MFile, 0, len(m.held))
	for _, f := range m.held {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		switch m.cfg.Type {
		case "lfu":
			if a.Freq != b.Freq {
				return a.Freq < b.Freq
			}
		case "sizeBig":
			if a.Size != b.Size {
				return a.Size > b.Size
			}
		case "sizeSmall":
			if a.Size != b.Size {
				return a.Size < b.Size
			}
		}
		return a.seq < b.seq
	})
	return out
}

// Free makes room.
func (m *Model) Free(amount float64, perc bool) float64 {
	m.rollDelMiss()
	need := amount
	if perc {
		need = amount * (m.max / 100)
	}
	if need <= 0 {
		return 0
	}
	m.event("FREE", -1)
	order := m.order()
	if m.cfg.Type == "random" && m.hint != nil {
		order = m.hinted()
	}
	freed := 0.0
	for _, f := range order {
		m.drop(f)
		freed += f.Size
		if perc && near(freed, need) {
			m.ambig("trim reached within rounding")
		}
		if freed >= need {
			break
		}
	}
	return freed
}

// hinted returns the held files in the order the cache under test removed
// them (a cache without order may remove any).
func (m *Model) hinted() []*MFile {
	var out []*MFile
	seen := map[int64]bool{}
	for _, n := range m.hint(m.tick) {
		f := m.held[n]
		if f == nil || seen[n] {
			continue
		}
		seen[n] = true
		out = append(out, f)
	}
	if len(out) < len(m.held) {
		for _, f := range m.order() {
			if !seen[f.Name] {
				out = append(out, f)
			}
		}
	}
	return out
}

func (m *Model) rollDelMiss() {
	for _, v := range m.delMiss {
		m.delLast += v
	}
	m.delMiss = map[int64]int{}
}

func (m *Model) drop(f *MFile) {
	delete(m.held, f.Name)
	m.size -= f.Size
	m.dd += f.Size
	m.ndel++
	m.Evicted++
	m.delMiss[f.Name] = 0
	m.fileRow("DELETE", f)
}

func (m *Model) boundDiff() float64 {
	switch m.cfg.Region {
	case "it":
		return 19
	case "us":
		return 10
	case "":
		if m.nloc > 0 && m.nrem > 0 {
			if d := m.upEff/float64(m.nloc) - m.loEff/float64(m.nrem); d > 0 {
				return d
			}
		}
	}
	return 0
}

func (m *Model) account(q Req, f *MFile, hit, added bool) {
	if m.rl != nil {
		m.rlAfter(q, hit)
	}
	cur := 0.0
	if q.E != 0 {
		switch q.P {
		case 1:
			m.upEff += q.E
			m.nloc++
			cur = q.E
		case 0:
			m.loEff += q.E
			m.nrem++
			cur = q.E + m.boundDiff()
		}
	}
	if hit {
		m.hits++
		m.drh += q.S
		m.hitEff += cur
	} else {
		m.misses++
		m.drm += q.S
		if cur != 0 {
			m.missEff += cur - m.boundDiff()
		}
	}
	if added {
		m.dw += q.S
		m.nadd++
	}
	m.dr += q.S
	m.free = append(m.free, m.max-m.size)
	m.cleanUp()
	m.tick++
}

// cleanUp drops old histories when the clean-up period is over.
func (m *Model) cleanUp() {
	days := time.Duration(m.last-m.first) * time.Second
	if days.Hours()/24 < m.cfg.Delta {
		return
	}
	for _, n := range sortedNames(m.stats) {
		f := m.stats[n]
		if m.held[n] != nil {
			continue
		}
		age := math.Inf(1)
		if f.HasUpd {
			age = (time.Duration(m.last-f.Upd) * time.Second).Hours() / 24
		}
		if age >= m.cfg.MaxDiff {
			m.wAdd(-f.Weight)
			delete(m.stats, n)
			m.Purged++
		}
	}
	m.first = m.last
}

func (m *Model) watermark() {
	if !m.cfg.WM || m.cfg.learnEvict() {
		return
	}
	if near(m.cap(), m.cfg.High) {
		m.ambig("high watermark reached within rounding")
	}
	if m.cap() >= m.cfg.High {
		m.Trims++
		m.Free(m.cap()-m.cfg.Low, true)
	}
}

// ClearStats starts a new period.
func (m *Model) ClearStats() {
	m.hits, m.misses, m.nreq, m.nred, m.nadd, m.ndel, m.nloc, m.nrem = 0, 0, 0, 0, 0, 0, 0, 0
	m.hitEff, m.missEff, m.upEff, m.loEff = 0, 0, 0, 0
	m.dw, m.dr, m.dd, m.drh, m.drm, m.rsz = 0, 0, 0, 0, 0, 0
	m.free = nil
	if m.rl != nil {
		m.rlNewPeriod()
	}
}

// DelMiss is the number of misses on files evicted before (reading resets).
func (m *Model) DelMiss() int {
	s := m.delLast
	for k, v := range m.delMiss {
		s += v
		m.delMiss[k] = 0
	}
	m.delLast = 0
	return s
}

// Observe returns what the cache has to report.
func (m *Model) Observe() Obs {
	o := Obs{HitRate: m.hitRate(), Size: m.size, Max: m.max, Cap: m.cap(), DW: m.dw, DR: m.dr, DRH: m.drh, DRM: m.drm, DD: m.dd,
		BW: m.bw, BWU: m.drm / m.bw * 100, RedSize: m.rsz, NReq: m.nreq, NHit: m.hits, NAdd: m.nadd, NDel: m.ndel, NRed: m.nred, NFiles: len(m.held)}
	o.WHit = o.HitRate * m.drh
	n := float64(len(m.free))
	s := 0.0
	for _, x := range m.free {
		s += x
	}
	o.AvgFree = s / n
	v := 0.0
	for _, x := range m.free {
		v += (x - o.AvgFree) * (x - o.AvgFree)
	}
	o.StdFree = math.Sqrt(v / (n - 1))
	o.CPU = (m.hitEff + m.missEff) / float64(m.hits+m.misses)
	o.CPUH = m.hitEff / float64(m.hits)
	o.CPUM = m.missEff / float64(m.misses)
	o.CPUU = m.upEff / float64(m.nloc)
	o.CPUL = m.loEff / float64(m.nrem)
	o.Extra = "NONE"
	if m.cfg.Type == "weightFunLRU" {
		if m.wSlack() > 0.004 {
			m.ambig("mean weight unknown within rounding")
		}
		o.Extra = fmt.Sprintf("a:%0.2f|b:%0.2f|g:%0.2f|wAVG:%0.2f", m.cfg.Alpha, m.cfg.Beta, m.cfg.Gamma, m.avgWeight())
	}
	if m.rl != nil {
		m.rlObserve(&o)
	}
	return o
}

// ---------------------------------------------------------------- restart

// Saved is the state a dump has to hold.
type Saved struct {
	Files []MFile // the first to go first
	Stats map[int64]MFile
	Add   *agent
	Evc   *agent
}

// Save returns the state of the model.
func (m *Model) Save(filesAndStats bool) *Saved {
	s := &Saved{Stats: map[int64]MFile{}}
	if filesAndStats {
		for _, f := range m.order() {
			s.Files = append(s.Files, f.clone())
		}
		for n, f := range m.stats {
			s.Stats[n] = f.clone()
		}
	}
	if m.rl != nil {
		if m.rl.add != nil {
			s.Add = m.rl.add.clone()
		}
		if m.rl.evc != nil {
			s.Evc = m.rl.evc.clone()
		}
	}
	return s
}

func (f *MFile) clone() MFile {
	c := *f
	c.Ring = append([]int64(nil), f.Ring...)
	return c
}

// Restore loads a saved state into a fresh model.
func (m *Model) Restore(s *Saved) {
	for n := range s.Stats {
		f := s.Stats[n]
		c := f.clone()
		m.stats[n] = &c
		if c.Recency >= m.tick {
			m.tick = c.Recency + 1
		}
	}
	for _, n := range sortedNames(m.stats) {
		m.wAdd(m.stats[n].Weight)
	}
	for i := range s.Files {
		f := m.stats[s.Files[i].Name]
		m.put(f)
		m.size += f.Size
	}
	if m.rl != nil {
		m.rlRestore(s)
	}
}

// ColdStart empties the model, keeping the histories or not.
func (m *Model) ColdStart(noStats bool) {
	m.held = map[int64]*MFile{}
	m.size = 0
	m.tick = 0
	if noStats {
		m.stats = map[int64]*MFile{}
		m.wRun, m.wErr, m.wInexact = 0, 0, false
	}
	for _, f := range m.stats {
		f.Recency = 0
	}
	if m.rl != nil && m.rl.evc != nil {
		m.rl.cats = newCats(m.cfg)
	}
}
