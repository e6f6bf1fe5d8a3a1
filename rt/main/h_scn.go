//go:build go1.21

package main

// Scenarios: the explicit, replayable description of one simulated case.

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"hash/fnv"

	"simulator/v2/verifsim/simos"
	"simulator/v2/verifsim/simrt"
)

// Op is one step of a library-level run.
type Op struct {
	K    string    `json:"k"` // req day chk hot cold coldns
	R    *Req      `json:"r,omitempty"`
	NC   *CacheCfg `json:"nc,omitempty"` // configuration of the new run (cold starts)
	Perm uint64    `json:"perm,omitempty"`
}

// Session is one run of the whole program.
type Session struct {
	Conf   ProgConf      `json:"conf"`
	Data   string        `json:"data"` // input file or folder, relative to /w
	Sim    simrt.Config  `json:"sim"`
	Split  uint64        `json:"split,omitempty"`
	Lat    int64         `json:"lat,omitempty"`
	Cap    int64         `json:"cap,omitempty"` // free bytes of the disk, 0: unlimited
	Faults []simos.Fault `json:"faults,omitempty"`
	Power  uint64        `json:"power,omitempty"` // seed deciding what a power loss keeps
	Damage []Damage      `json:"damage,omitempty"`
	Tidy   int           `json:"tidy,omitempty"` // the user takes away this one of the kept results first
}

// Damage changes a stored file before the session starts.
type Damage struct {
	Path string `json:"path"`
	Kind string `json:"kind"` // trunc flip drop
	At   int64  `json:"at"`   // byte position; negative counts from the end
	Arg  int64  `json:"arg"`  // bit mask, or number of bytes
}

// Scenario is one case.
type Scenario struct {
	Prop     string        `json:"prop"`
	Kind     string        `json:"kind"`
	Cfg      CacheCfg      `json:"cfg"`
	Ops      []Op          `json:"ops,omitempty"`
	Sim      simrt.Config  `json:"sim"`
	Split    uint64        `json:"split,omitempty"`
	Lat      int64         `json:"lat,omitempty"`
	Data     []DataFile    `json:"data,omitempty"`
	DataPath string        `json:"dataPath,omitempty"`
	Sess     []Session     `json:"sess,omitempty"`
	Faults   []simos.Fault `json:"faults,omitempty"`
	Power    uint64        `json:"power,omitempty"`
	Damage   []Damage      `json:"damage,omitempty"`
	Take     int           `json:"take,omitempty"` // reader: stop consuming after so many records
	Known    string        `json:"known,omitempty"`
	Pick     uint64        `json:"pick,omitempty"` // seed choosing fault positions after a fault-free run
	Tries    int           `json:"tries,omitempty"`
	Old      int           `json:"old,omitempty"` // results kept by resumes before the first session

	// other programs of the repository (rt/guest)
	Calls []Call      `json:"calls,omitempty"`
	Args  []string    `json:"args,omitempty"`
	QVals []float64   `json:"qVals,omitempty"`
	QMax  float64     `json:"qMax,omitempty"`
	QTies bool        `json:"qTies,omitempty"`
	QSwap bool        `json:"qSwap,omitempty"`
	QFeat [][]float64 `json:"qFeat,omitempty"`
	QDiv  int         `json:"qDiv,omitempty"`
	QDiv2 int         `json:"qDiv2,omitempty"`
}

// Call is one operation on a library of another program.
type Call struct {
	K string    `json:"k"`
	F int       `json:"f"`
	X []float64 `json:"x,omitempty"`
}

// What rt/guest adds, by property and by kind of scenario.
var (
	guestGen  = map[string]func(seed, idx uint64) *Scenario{}
	guestExec = map[string]func(*Scenario) Result{}
)

// ProgConf is the configuration file of a run of the program.
type ProgConf struct {
	Cache     CacheCfg `json:"cache"`
	Overwrite bool     `json:"overwrite,omitempty"`
	Dump      bool     `json:"dump,omitempty"`
	DumpFS    bool     `json:"dumpFS"`
	DumpName  string   `json:"dumpName,omitempty"`
	Load      bool     `json:"load,omitempty"`
	LoadName  string   `json:"loadName,omitempty"`
	Cold      bool     `json:"cold,omitempty"`
	ColdNS    bool     `json:"coldNS,omitempty"`
	WSize     int      `json:"wSize"`
	WStart    int      `json:"wStart"`
	WStop     int      `json:"wStop"`
	MemProf   string   `json:"memProf,omitempty"`
	CpuProf   string   `json:"cpuProf,omitempty"`
	Delay     float64  `json:"delay"`
	GEps      float64  `json:"gEps"`
	GDec      float64  `json:"gDec"`
	GUnl      bool     `json:"gUnl"`
}

// Rec is one row of input data.
type Rec struct {
	F    int64             `json:"f"`
	S    float64           `json:"s"` // bytes
	T    int64             `json:"t"`
	P    int64             `json:"p"`
	Cpu  float64           `json:"cpu"`
	IO   float64           `json:"io"`
	Ok   bool              `json:"ok"`
	Exit int64             `json:"exit,omitempty"`
	DT   int64             `json:"dt"`
	FT   int64             `json:"ft"`
	Site int64             `json:"site"`
	User int64             `json:"user"`
	Raw  map[string]string `json:"raw,omitempty"`
}

// DataFile is one file of input data.
type DataFile struct {
	Name   string `json:"name"`
	Gz     bool   `json:"gz,omitempty"`
	Perm   uint64 `json:"perm,omitempty"`  // column order
	Extra  int    `json:"extra,omitempty"` // unknown columns
	CRLF   bool   `json:"crlf,omitempty"`
	NoEOL  bool   `json:"noEOL,omitempty"`
	Recs   []Rec  `json:"recs"`
	Cut    int64  `json:"cut,omitempty"`    // file truncated to so many bytes (0: whole)
	BadRow int    `json:"badRow,omitempty"` // row with a missing column (1 based)
	Other  string `json:"other,omitempty"`  // literal content instead
	Level  int    `json:"level,omitempty"`
	Lack   string `json:"lack,omitempty"`  // a column left out
	Twice  string `json:"twice,omitempty"` // a column given twice
	Void   bool   `json:"void,omitempty"`  // nothing at all, not even a header
}

var columns = []string{"Filename", "SiteName", "UserID", "TaskID", "TaskMonitorID", "JobID", "Protocol", "JobExecExitCode", "JobStart", "JobEnd", "NumCPU", "WrapWC", "WrapCPU", "Size", "DataType", "FileType", "JobLengthH", "JobLengthM", "JobSuccess", "CPUTime", "IOTime", "reqDay", "Region", "Campaign", "Process"}

// Result of running one scenario.
type Result struct {
	Viol    string            `json:"viol,omitempty"`    // violation of the property under test
	Foreign string            `json:"foreign,omitempty"` // another property broke first
	Tags    []string          `json:"tags,omitempty"`
	Discard string            `json:"discard,omitempty"`
	Trouble string            `json:"trouble,omitempty"` // harness error
	Trivial bool              `json:"trivial,omitempty"`
	St      Stats             `json:"st"`
	Repro   *Scenario         `json:"-"` // explicit scenario of the violation, when narrower than the one run
	Rec     []simrt.Deviation `json:"-"`
}

// Stats of one or many runs.
type Stats struct {
	Runs      int64            `json:"runs"` // simulated processes
	Steps     int64            `json:"steps"`
	MostSteps int64            `json:"mostSteps"` // of one process
	SimNS     int64            `json:"simNS"`
	DataSecs  int64            `json:"dataSecs"`
	Switches  int64            `json:"switches"`
	Preempts  int64            `json:"preempts"`
	Faults    map[string]int64 `json:"faults,omitempty"`
	Reach     map[string]int64 `json:"reach,omitempty"`
	Scheds    []uint64         `json:"scheds,omitempty"`
	States    []uint64         `json:"states,omitempty"`
}

func (s *Stats) fault(k string, n int64) {
	if n == 0 {
		return
	}
	if s.Faults == nil {
		s.Faults = map[string]int64{}
	}
	s.Faults[k] += n
}

func (s *Stats) reach(k string, n int64) {
	if n == 0 {
		return
	}
	if s.Reach == nil {
		s.Reach = map[string]int64{}
	}
	s.Reach[k] += n
}

func (s *Stats) add(o Stats) {
	s.Runs += o.Runs
	s.Steps += o.Steps
	if o.MostSteps > s.MostSteps {
		s.MostSteps = o.MostSteps
	}
	s.SimNS += o.SimNS
	s.DataSecs += o.DataSecs
	s.Switches += o.Switches
	s.Preempts += o.Preempts
	for k, v := range o.Faults {
		s.fault(k, v)
	}
	for k, v := range o.Reach {
		s.reach(k, v)
	}
	s.Scheds = append(s.Scheds, o.Scheds...)
	s.States = append(s.States, o.States...)
}

// recorded keeps, for the minimiser, the schedule of each process by its seed.
var recorded map[uint64][]simrt.Deviation

// world adds a finished simulated process to the statistics.
func (s *Stats) world(w *simrt.World, fs *simos.FS, start int64) {
	s.Runs++
	if recorded != nil {
		recorded[w.Cfg.SchedSeed] = w.Recorded
	}
	s.Steps += w.Steps()
	if w.Steps() > s.MostSteps {
		s.MostSteps = w.Steps()
	}
	s.Switches += w.Switches()
	s.Preempts += w.Preempts()
	s.SimNS += w.Now() - start
	s.Scheds = append(s.Scheds, w.SchedHash())
	s.fault("preemption", w.Preempts())
	s.fault("clock-jump", int64(w.ClockJumps()))
	if w.Cfg.MapSeed != 0 {
		s.fault("map-order", w.MapRanges())
	}
	if w.Cfg.StallGo != 0 {
		s.fault("stalled-goroutine", 1)
	}
	for k, v := range fs.Fired {
		s.fault(k, v)
	}
	if fs.Latency > 0 {
		s.fault("slow-disk", 1)
	}
}

func hashOf(v interface{}) uint64 {
	h := fnv.New64a()
	b, _ := json.Marshal(v)
	h.Write(b)
	return h.Sum64()
}

func gz(b []byte, level int) []byte {
	var o bytes.Buffer
	if level == 0 {
		level = 6
	}
	w, _ := gzip.NewWriterLevel(&o, level)
	_, _ = w.Write(b)
	_ = w.Close()
	return o.Bytes()
}

// featMapJSON writes a feature map in the format the program reads.
func featMapJSON(fs []Feat) []byte {
	m := map[string]interface{}{}
	for _, f := range fs {
		o := map[string]interface{}{"type": f.Type}
		if f.Open {
			o["openRight"] = true
		}
		if f.File {
			o["fileFeature"] = true
		}
		switch f.Type {
		case "bool":
			o["values"] = f.B
		case "int":
			o["buckets"] = f.I
		default:
			o["buckets"] = f.F
		}
		m[f.Name] = o
	}
	b, _ := json.MarshalIndent(m, "", " ")
	return b
}

func clone(sc *Scenario) *Scenario {
	b, _ := json.Marshal(sc)
	var o Scenario
	if e := json.Unmarshal(b, &o); e != nil {
		panic(e)
	}
	return &o
}
