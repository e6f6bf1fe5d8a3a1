//go:build go1.21

// Package simos is the simulated operating system: an in-memory file system
// that outlives simulated processes, with injected faults and crashes. It
// mirrors the parts of os, ioutil, filepath, log and fmt the code uses.
package simos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"simulator/v2/verifsim/simrt"
)

// Fault is one injected event, placed on the ordinal of a file-system
// operation of one simulated process.
type Fault struct {
	Op   int64  `json:"op"`   // ordinal of the operation within the process (1 based)
	Kind string `json:"kind"` // see apply
	Arg  int64  `json:"arg"`
}

// Fault kinds.
const (
	FErr        = "error"        // operation fails with EIO
	FNoSpc      = "enospc"       // write fails with ENOSPC after Arg bytes
	FShort      = "shortwrite"   // write stores Arg bytes and fails with EIO
	FShortRead  = "shortread"    // read returns at most Arg bytes (legal)
	FCrashPre   = "crash-before" // process killed before the operation
	FCrashMid   = "crash-inside" // write: killed after Arg bytes
	FCrashPost  = "crash-after"  // process killed right after the operation
	FPowerPre   = "power-before" // machine loses power before the operation
	FPowerPost  = "power-after"  // machine loses power right after it
	FSilentLoss = "lost-write"   // never injected by default: write acknowledged but dropped
	FFlip       = "bit-flip"     // applied between processes by the harness
)

// OpRec describes one operation (for placing faults and for reports).
type OpRec struct {
	N    int64
	Name string // open create read write close sync rename remove mkdir stat readdir chdir truncate
	Path string
	Size int
}

type inode struct {
	id     int
	dir    bool
	data   []byte
	synced []byte // content surviving a power loss
	mode   fs.FileMode
	kids   map[string]*inode
	mtime  int64
}

type metaUndo struct{ fn func() }

// FS is the simulated disk plus the per-process view of it.
type FS struct {
	root    *inode
	nextID  int
	cwd     string
	ops     int64
	faults  map[int64][]Fault
	Fired   map[string]int64
	Trace   []OpRec
	TraceOn bool
	// SplitSeed, when not 0, makes reads return arbitrary shorter chunks.
	SplitSeed uint64
	split     *simrt.Rand
	// Capacity in bytes, 0 = unlimited.
	Capacity int64
	Latency  int64 // nanoseconds per operation
	Crashed  bool
	Power    bool
	journal  []metaUndo // metadata operations since the last sync point, newest last
	Stdout   strings.Builder
	StdoutCap int // bytes of standard output kept (0: 64 KB)
	FailedW  []string // paths whose write/close/sync/create/rename reported an error to the program
	FailedR  []string // same for reads, opens of existing files
	openW    int
	OpenFDs  int
	argv     []string
	env      map[string]string
	ExitHook func()
	tempN    int
}

// Cur is the file system of the running world.
var Cur *FS

func NewFS(cwd string) *FS {
	f := &FS{nextID: 1, cwd: cwd}
	f.root = &inode{dir: true, kids: map[string]*inode{}, mode: 0755 | fs.ModeDir}
	f.mkdirAll(cwd)
	f.mkdirAll("/tmp")
	f.StartProcess(cwd, nil)
	f.journal = nil
	return f
}

// StartProcess prepares the file system for a new simulated process.
func (f *FS) StartProcess(cwd string, faults []Fault) {
	f.cwd = cwd
	f.ops = 0
	f.faults = map[int64][]Fault{}
	for _, x := range faults {
		f.faults[x.Op] = append(f.faults[x.Op], x)
	}
	f.Fired = map[string]int64{}
	f.Trace = nil
	f.Crashed, f.Power = false, false
	f.FailedW, f.FailedR = nil, nil
	f.Stdout.Reset()
	f.split = nil
	if f.SplitSeed != 0 {
		f.split = simrt.NewRand(f.SplitSeed)
	}
	f.OpenFDs = 0
}

func (f *FS) Ops() int64 { return f.ops }

// ---------------------------------------------------------------- harness access

func (f *FS) abs(p string) string {
	if p == "" {
		return ""
	}
	if !strings.HasPrefix(p, "/") {
		p = f.cwd + "/" + p
	}
	return path.Clean(p)
}

func (f *FS) walk(p string) *inode {
	n := f.root
	if p == "/" {
		return n
	}
	for _, e := range strings.Split(p[1:], "/") {
		if !n.dir {
			return nil
		}
		k := n.kids[e]
		if k == nil {
			return nil
		}
		n = k
	}
	return n
}

func (f *FS) mkdirAll(p string) *inode {
	n := f.root
	if p == "/" {
		return n
	}
	for _, e := range strings.Split(strings.TrimPrefix(path.Clean(p), "/"), "/") {
		k := n.kids[e]
		if k == nil {
			k = &inode{id: f.nextID, dir: true, kids: map[string]*inode{}, mode: 0755 | fs.ModeDir}
			f.nextID++
			n.kids[e] = k
		}
		n = k
	}
	return n
}

// Put stores a durable file (harness side, no faults).
func (f *FS) Put(p string, data []byte) {
	p = path.Clean(p)
	d := f.mkdirAll(path.Dir(p))
	d.kids[path.Base(p)] = &inode{id: f.nextID, data: append([]byte(nil), data...), synced: append([]byte(nil), data...), mode: 0644}
	f.nextID++
}

// Mkdir makes a directory (harness side).
func (f *FS) Mkdir(p string) { f.mkdirAll(p) }

// Get returns a file's content.
func (f *FS) Get(p string) ([]byte, bool) {
	n := f.walk(path.Clean(p))
	if n == nil || n.dir {
		return nil, false
	}
	return n.data, true
}

// Del removes a path (harness side).
func (f *FS) Del(p string) {
	p = path.Clean(p)
	if d := f.walk(path.Dir(p)); d != nil {
		delete(d.kids, path.Base(p))
	}
}

// List returns all regular files under p, sorted.
func (f *FS) List(p string) []string {
	var out []string
	var rec func(q string, n *inode)
	rec = func(q string, n *inode) {
		if !n.dir {
			out = append(out, q)
			return
		}
		for _, k := range names(n) {
			rec(path.Join(q, k), n.kids[k])
		}
	}
	if n := f.walk(path.Clean(p)); n != nil {
		rec(path.Clean(p), n)
	}
	return out
}

func names(n *inode) []string {
	ks := make([]string, 0, len(n.kids))
	for k := range n.kids {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Snapshot copies the disk (content as the program sees it).
func (f *FS) Snapshot() *FS {
	g := &FS{nextID: f.nextID, cwd: f.cwd, tempN: f.tempN, Capacity: f.Capacity, Latency: f.Latency, SplitSeed: f.SplitSeed, TraceOn: f.TraceOn}
	seen := map[*inode]*inode{}
	var cp func(n *inode) *inode
	cp = func(n *inode) *inode {
		if c, ok := seen[n]; ok {
			return c
		}
		c := &inode{id: n.id, dir: n.dir, mode: n.mode, mtime: n.mtime}
		seen[n] = c
		c.data = append([]byte(nil), n.data...)
		c.synced = append([]byte(nil), n.synced...)
		if n.dir {
			c.kids = map[string]*inode{}
			for k, v := range n.kids {
				c.kids[k] = cp(v)
			}
		}
		return c
	}
	g.root = cp(f.root)
	g.StartProcess(f.cwd, nil)
	return g
}

// Used is the number of bytes on disk.
func (f *FS) Used() int64 {
	var t int64
	for _, p := range f.List("/") {
		b, _ := f.Get(p)
		t += int64(len(b))
	}
	return t
}

// PowerLoss drops what was not made durable: a suffix of the metadata
// operations that no sync has covered, and for each file the bytes written
// since its last sync (a prefix of them may survive).
func (f *FS) PowerLoss(r *simrt.Rand) {
	keep := r.Intn(len(f.journal) + 1)
	for i := len(f.journal) - 1; i >= keep; i-- {
		f.journal[i].fn()
	}
	f.journal = nil
	for _, p := range f.List("/") {
		n := f.walk(p)
		if string(n.data) == string(n.synced) {
			continue
		}
		switch r.Intn(3) {
		case 0:
			n.data = append([]byte(nil), n.synced...)
		case 1: // all of it survived
		default:
			if len(n.data) >= len(n.synced) && string(n.data[:len(n.synced)]) == string(n.synced) {
				k := len(n.synced) + r.Intn(len(n.data)-len(n.synced)+1)
				n.data = append([]byte(nil), n.data[:k]...)
			} else {
				n.data = append([]byte(nil), n.data[:r.Intn(len(n.data)+1)]...)
			}
		}
		n.synced = append([]byte(nil), n.data...)
	}
}

// SyncAll makes everything durable (a clean shutdown, or time passing).
func (f *FS) SyncAll() {
	f.journal = nil
	for _, p := range f.List("/") {
		n := f.walk(p)
		n.synced = append(n.synced[:0], n.data...)
	}
}

// ---------------------------------------------------------------- operations

func perr(op, p string, e error) error { return &fs.PathError{Op: op, Path: p, Err: e} }

func dead() {
	simrt.CheckDead()
}

func (f *FS) die(power bool) {
	f.Crashed = true
	f.Power = power
	simrt.Die(simrt.Exit{Kind: "crash", Code: 137})
}

// begin counts an operation and returns the faults on it.
func (f *FS) begin(name, p string, size int) []Fault {
	dead()
	simrt.Y()
	dead()
	f.ops++
	if f.TraceOn {
		f.Trace = append(f.Trace, OpRec{f.ops, name, p, size})
	}
	if f.Latency > 0 {
		simrt.Advance(f.Latency)
	}
	fl := f.faults[f.ops]
	for _, x := range fl {
		switch x.Kind {
		case FCrashPre:
			f.Fired[x.Kind]++
			f.die(false)
		case FPowerPre:
			f.Fired[x.Kind]++
			f.die(true)
		}
	}
	return fl
}

func (f *FS) errOf(fl []Fault) error {
	for _, x := range fl {
		switch x.Kind {
		case FErr, FShort:
			f.Fired[FErr]++
			return syscall.EIO
		case FNoSpc:
			f.Fired[FNoSpc]++
			return syscall.ENOSPC
		}
	}
	return nil
}

func (f *FS) end(fl []Fault) {
	for _, x := range fl {
		switch x.Kind {
		case FCrashPost:
			f.Fired[x.Kind]++
			f.die(false)
		case FPowerPost:
			f.Fired[x.Kind]++
			f.die(true)
		}
	}
}

func (f *FS) undo(fn func()) { f.journal = append(f.journal, metaUndo{fn}) }

func cur() *FS {
	if Cur == nil { // package initialisers, before any simulated process
		Cur = NewFS("/")
	}
	return Cur
}

// File stands for os.File.
type File struct {
	f      *FS
	n      *inode
	name   string
	path   string
	pos    int64
	flag   int
	closed bool
	std    int
	dirPos int
}

var (
	Stdin  = &File{std: 1, name: "/dev/stdin"}
	Stdout = &File{std: 2, name: "/dev/stdout"}
	Stderr = &File{std: 3, name: "/dev/stderr"}
)

func (x *File) Name() string { return x.name }
func (x *File) Fd() uintptr  { return 3 }

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	f := cur()
	p := f.abs(name)
	op := "open"
	if flag&os.O_CREATE != 0 {
		op = "create"
	}
	fl := f.begin(op, p, 0)
	fail := func(e error, injected bool) (*File, error) {
		if injected {
			if flag&(os.O_WRONLY|os.O_RDWR) != 0 {
				f.FailedW = append(f.FailedW, p)
			} else {
				f.FailedR = append(f.FailedR, p)
			}
		}
		f.end(fl)
		return nil, perr("open", name, e)
	}
	if e := f.errOf(fl); e != nil {
		return fail(e, true)
	}
	if name == "" {
		return fail(syscall.ENOENT, false)
	}
	n := f.walk(p)
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return fail(syscall.ENOENT, false)
		}
		d := f.walk(path.Dir(p))
		if d == nil {
			return fail(syscall.ENOENT, false)
		}
		if !d.dir {
			return fail(syscall.ENOTDIR, false)
		}
		n = &inode{id: f.nextID, mode: perm & 0777}
		f.nextID++
		base := path.Base(p)
		d.kids[base] = n
		f.undo(func() { delete(d.kids, base) })
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return fail(syscall.EEXIST, false)
		}
		if n.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return fail(syscall.EISDIR, false)
		}
		if flag&os.O_TRUNC != 0 && !n.dir {
			n.data = nil
		}
	}
	x := &File{f: f, n: n, name: name, path: p, flag: flag}
	f.OpenFDs++
	f.end(fl)
	return x, nil
}

func Create(name string) (*File, error) { return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666) }
func Open(name string) (*File, error)   { return OpenFile(name, os.O_RDONLY, 0) }

func (x *File) check(op string) error {
	dead()
	if x == nil {
		return fs.ErrInvalid
	}
	if x.closed {
		return perr(op, x.name, fs.ErrClosed)
	}
	return nil
}

func (x *File) readAt(b []byte, pos int64) (int, error) {
	f := x.f
	fl := f.begin("read", x.path, len(b))
	if e := f.errOf(fl); e != nil {
		f.FailedR = append(f.FailedR, x.path)
		f.end(fl)
		return 0, perr("read", x.name, e)
	}
	if x.n.dir {
		f.end(fl)
		return 0, perr("read", x.name, syscall.EISDIR)
	}
	if x.flag&os.O_WRONLY != 0 {
		return 0, perr("read", x.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if pos >= int64(len(x.n.data)) {
		f.end(fl)
		return 0, io.EOF
	}
	n := copy(b, x.n.data[pos:])
	for _, q := range fl {
		if q.Kind == FShortRead && int(q.Arg) < n && q.Arg > 0 {
			n = int(q.Arg)
			f.Fired[FShortRead]++
		}
	}
	if f.split != nil && n > 1 {
		k := 1 + f.split.Intn(n)
		if f.split.P(0.5) && n > 64 {
			k = 1 + f.split.Intn(64)
		}
		if k < n {
			n = k
			f.Fired[FShortRead]++
		}
	}
	f.end(fl)
	return n, nil
}

func (x *File) Read(b []byte) (int, error) {
	if e := x.check("read"); e != nil {
		return 0, e
	}
	if x.std != 0 {
		return 0, io.EOF
	}
	n, e := x.readAt(b, x.pos)
	x.pos += int64(n)
	return n, e
}

func (x *File) ReadAt(b []byte, off int64) (int, error) {
	if e := x.check("read"); e != nil {
		return 0, e
	}
	t := 0
	for t < len(b) {
		n, e := x.readAt(b[t:], off+int64(t))
		t += n
		if e != nil {
			return t, e
		}
	}
	return t, nil
}

func (x *File) writeAt(b []byte, pos int64) (int, error) {
	f := x.f
	fl := f.begin("write", x.path, len(b))
	if x.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", x.name, syscall.EBADF)
	}
	n := len(b)
	var err error
	crash := false
	for _, q := range fl {
		a := int(q.Arg)
		if a > len(b) {
			a = len(b)
		}
		if a < 0 {
			a = 0
		}
		switch q.Kind {
		case FErr:
			n, err = 0, syscall.EIO
			f.Fired[FErr]++
		case FShort:
			n, err = a, syscall.EIO
			f.Fired[FShort]++
		case FNoSpc:
			n, err = a, syscall.ENOSPC
			f.Fired[FNoSpc]++
		case FCrashMid:
			n, crash = a, true
			f.Fired[FCrashMid]++
		}
	}
	if f.Capacity > 0 && err == nil {
		grow := pos + int64(n) - int64(len(x.n.data))
		if grow > 0 {
			if room := f.Capacity - f.Used(); grow > room {
				if room < 0 {
					room = 0
				}
				n -= int(grow - room)
				if n < 0 {
					n = 0
				}
				err = syscall.ENOSPC
				f.Fired["disk-full"]++
			}
		}
	}
	end := pos + int64(n)
	if end > int64(len(x.n.data)) && n > 0 {
		if int64(cap(x.n.data)) >= end {
			old := len(x.n.data)
			x.n.data = x.n.data[:end]
			for i := int64(old); i < pos; i++ {
				x.n.data[i] = 0
			}
		} else {
			d := make([]byte, end, end*2+64)
			copy(d, x.n.data)
			x.n.data = d
		}
	}
	if n > 0 {
		copy(x.n.data[pos:], b[:n])
	}
	if crash {
		f.die(false)
	}
	if err != nil {
		f.FailedW = append(f.FailedW, x.path)
		f.end(fl)
		return n, perr("write", x.name, err)
	}
	f.end(fl)
	return n, nil
}

func (x *File) Write(b []byte) (int, error) {
	if e := x.check("write"); e != nil {
		return 0, e
	}
	if x.std != 0 {
		cur().out(string(b))
		return len(b), nil
	}
	if x.flag&os.O_APPEND != 0 {
		x.pos = int64(len(x.n.data))
	}
	if len(b) == 0 {
		return 0, nil
	}
	n, e := x.writeAt(b, x.pos)
	x.pos += int64(n)
	return n, e
}

func (x *File) WriteAt(b []byte, off int64) (int, error) {
	if e := x.check("write"); e != nil {
		return 0, e
	}
	return x.writeAt(b, off)
}

func (x *File) WriteString(s string) (int, error) { return x.Write([]byte(s)) }

func (x *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{x}, r)
}

func (x *File) Seek(off int64, whence int) (int64, error) {
	if e := x.check("seek"); e != nil {
		return 0, e
	}
	switch whence {
	case io.SeekStart:
		x.pos = off
	case io.SeekCurrent:
		x.pos += off
	case io.SeekEnd:
		x.pos = int64(len(x.n.data)) + off
	}
	x.dirPos = 0
	return x.pos, nil
}

func (x *File) Sync() error {
	if e := x.check("sync"); e != nil {
		return e
	}
	if x.std != 0 {
		return nil
	}
	f := x.f
	fl := f.begin("sync", x.path, 0)
	if e := f.errOf(fl); e != nil {
		f.FailedW = append(f.FailedW, x.path)
		f.end(fl)
		return perr("sync", x.name, e)
	}
	if !x.n.dir {
		x.n.synced = append([]byte(nil), x.n.data...)
	}
	f.journal = nil // the journal commits with the sync
	f.end(fl)
	return nil
}

func (x *File) Close() error {
	if x == nil {
		dead()
		return fs.ErrInvalid
	}
	if e := x.check("close"); e != nil {
		return e
	}
	if x.std != 0 {
		return nil
	}
	f := x.f
	fl := f.begin("close", x.path, 0)
	x.closed = true
	f.OpenFDs--
	if e := f.errOf(fl); e != nil {
		if x.flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			f.FailedW = append(f.FailedW, x.path)
		}
		f.end(fl)
		return perr("close", x.name, e)
	}
	f.end(fl)
	return nil
}

func (x *File) Truncate(n int64) error {
	if e := x.check("truncate"); e != nil {
		return e
	}
	f := x.f
	fl := f.begin("truncate", x.path, 0)
	if e := f.errOf(fl); e != nil {
		f.FailedW = append(f.FailedW, x.path)
		f.end(fl)
		return perr("truncate", x.name, e)
	}
	d := make([]byte, n)
	copy(d, x.n.data)
	x.n.data = d
	f.end(fl)
	return nil
}

func (x *File) Chmod(fs.FileMode) error { return nil }
func (x *File) Chdir() error            { return Chdir(x.path) }

type info struct {
	name string
	n    *inode
	size int64
}

func (i info) Name() string               { return i.name }
func (i info) Size() int64                { return i.size }
func (i info) Mode() fs.FileMode          { return i.n.mode }
func (i info) ModTime() time.Time         { return time.Unix(0, i.n.mtime) }
func (i info) IsDir() bool                { return i.n.dir }
func (i info) Sys() interface{}           { return nil }
func (i info) Type() fs.FileMode          { return i.n.mode.Type() }
func (i info) Info() (fs.FileInfo, error) { return i, nil }

func mkinfo(name string, n *inode) info { return info{name, n, int64(len(n.data))} }

func (x *File) Stat() (fs.FileInfo, error) {
	if e := x.check("stat"); e != nil {
		return nil, e
	}
	if x.std != 0 {
		return nil, perr("stat", x.name, syscall.EINVAL)
	}
	return mkinfo(path.Base(x.path), x.n), nil
}

// dirOrder lists names in the order the directory returns them: not sorted.
func dirOrder(n *inode) []string {
	ks := names(n)
	sort.SliceStable(ks, func(i, j int) bool {
		return simrt.HashBytes(77, []byte(ks[i])) < simrt.HashBytes(77, []byte(ks[j]))
	})
	return ks
}

func (x *File) readdir(c int) ([]info, error) {
	if e := x.check("readdir"); e != nil {
		return nil, e
	}
	f := x.f
	fl := f.begin("readdir", x.path, 0)
	if e := f.errOf(fl); e != nil {
		f.FailedR = append(f.FailedR, x.path)
		f.end(fl)
		return nil, perr("readdirent", x.name, e)
	}
	if !x.n.dir {
		f.end(fl)
		return nil, perr("readdirent", x.name, syscall.ENOTDIR)
	}
	ks := dirOrder(x.n)
	var out []info
	for x.dirPos < len(ks) && (c <= 0 || len(out) < c) {
		out = append(out, mkinfo(ks[x.dirPos], x.n.kids[ks[x.dirPos]]))
		x.dirPos++
	}
	f.end(fl)
	if c > 0 && len(out) == 0 {
		return nil, io.EOF
	}
	return out, nil
}

func (x *File) Readdir(c int) ([]fs.FileInfo, error) {
	in, e := x.readdir(c)
	out := make([]fs.FileInfo, 0, len(in))
	for _, i := range in {
		out = append(out, i)
	}
	return out, e
}
func (x *File) ReadDir(c int) ([]fs.DirEntry, error) {
	in, e := x.readdir(c)
	out := make([]fs.DirEntry, 0, len(in))
	for _, i := range in {
		out = append(out, i)
	}
	return out, e
}
func (x *File) Readdirnames(c int) ([]string, error) {
	in, e := x.readdir(c)
	var out []string
	for _, i := range in {
		out = append(out, i.name)
	}
	return out, e
}

// ---------------------------------------------------------------- path operations

func Stat(name string) (fs.FileInfo, error) {
	f := cur()
	p := f.abs(name)
	fl := f.begin("stat", p, 0)
	if e := f.errOf(fl); e != nil {
		f.FailedR = append(f.FailedR, p)
		f.end(fl)
		return nil, perr("stat", name, e)
	}
	f.end(fl)
	if name == "" {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	n := f.walk(p)
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return mkinfo(path.Base(p), n), nil
}
func Lstat(name string) (fs.FileInfo, error) { return Stat(name) }

func Chdir(name string) error {
	f := cur()
	p := f.abs(name)
	fl := f.begin("chdir", p, 0)
	if e := f.errOf(fl); e != nil {
		f.FailedR = append(f.FailedR, p)
		f.end(fl)
		return perr("chdir", name, e)
	}
	f.end(fl)
	n := f.walk(p)
	if n == nil {
		return perr("chdir", name, syscall.ENOENT)
	}
	if !n.dir {
		return perr("chdir", name, syscall.ENOTDIR)
	}
	f.cwd = p
	return nil
}

func Getwd() (string, error) { dead(); return cur().cwd, nil }

func Mkdir(name string, perm fs.FileMode) error {
	f := cur()
	p := f.abs(name)
	fl := f.begin("mkdir", p, 0)
	if e := f.errOf(fl); e != nil {
		f.FailedW = append(f.FailedW, p)
		f.end(fl)
		return perr("mkdir", name, e)
	}
	if f.walk(p) != nil {
		f.end(fl)
		return perr("mkdir", name, syscall.EEXIST)
	}
	d := f.walk(path.Dir(p))
	if d == nil {
		f.end(fl)
		return perr("mkdir", name, syscall.ENOENT)
	}
	if !d.dir {
		f.end(fl)
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	base := path.Base(p)
	d.kids[base] = &inode{id: f.nextID, dir: true, kids: map[string]*inode{}, mode: perm | fs.ModeDir}
	f.nextID++
	f.undo(func() { delete(d.kids, base) })
	f.end(fl)
	return nil
}

func MkdirAll(name string, perm fs.FileMode) error {
	f := cur()
	p := f.abs(name)
	if n := f.walk(p); n != nil {
		fl := f.begin("mkdir", p, 0)
		if e := f.errOf(fl); e != nil {
			f.FailedW = append(f.FailedW, p)
			f.end(fl)
			return perr("mkdir", name, e)
		}
		f.end(fl)
		if n.dir {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if d := path.Dir(p); d != p {
		if e := MkdirAll(d, perm); e != nil {
			return e
		}
	}
	if e := Mkdir(p, perm); e != nil && !errors.Is(e, fs.ErrExist) {
		return e
	}
	return nil
}

func Remove(name string) error {
	f := cur()
	p := f.abs(name)
	fl := f.begin("remove", p, 0)
	if e := f.errOf(fl); e != nil {
		f.FailedW = append(f.FailedW, p)
		f.end(fl)
		return perr("remove", name, e)
	}
	n := f.walk(p)
	if n == nil {
		f.end(fl)
		return perr("remove", name, syscall.ENOENT)
	}
	if n.dir && len(n.kids) > 0 {
		f.end(fl)
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	d := f.walk(path.Dir(p))
	base := path.Base(p)
	delete(d.kids, base)
	f.undo(func() { d.kids[base] = n })
	f.end(fl)
	return nil
}

func RemoveAll(name string) error {
	f := cur()
	p := f.abs(name)
	fl := f.begin("remove", p, 0)
	if e := f.errOf(fl); e != nil {
		f.FailedW = append(f.FailedW, p)
		f.end(fl)
		return perr("unlinkat", name, e)
	}
	n := f.walk(p)
	if n != nil && p != "/" {
		d := f.walk(path.Dir(p))
		base := path.Base(p)
		delete(d.kids, base)
		f.undo(func() { d.kids[base] = n })
	}
	f.end(fl)
	return nil
}

func Rename(from, to string) error {
	f := cur()
	a, b := f.abs(from), f.abs(to)
	fl := f.begin("rename", a+" -> "+b, 0)
	lerr := func(e error) error { return &os.LinkError{Op: "rename", Old: from, New: to, Err: e} }
	if e := f.errOf(fl); e != nil {
		f.FailedW = append(f.FailedW, b)
		f.end(fl)
		return lerr(e)
	}
	n := f.walk(a)
	if n == nil || from == "" || to == "" {
		f.end(fl)
		return lerr(syscall.ENOENT)
	}
	da, db := f.walk(path.Dir(a)), f.walk(path.Dir(b))
	if db == nil {
		f.end(fl)
		return lerr(syscall.ENOENT)
	}
	if !db.dir {
		f.end(fl)
		return lerr(syscall.ENOTDIR)
	}
	ba, bb := path.Base(a), path.Base(b)
	old := db.kids[bb]
	if old != nil && old.dir != n.dir {
		f.end(fl)
		if old.dir {
			return lerr(syscall.EEXIST)
		}
		return lerr(syscall.ENOTDIR)
	}
	if old != nil && old.dir && len(old.kids) > 0 {
		f.end(fl)
		return lerr(syscall.ENOTEMPTY)
	}
	if a != b {
		delete(da.kids, ba)
		db.kids[bb] = n
		f.undo(func() {
			if old != nil {
				db.kids[bb] = old
			} else {
				delete(db.kids, bb)
			}
			da.kids[ba] = n
		})
	}
	f.end(fl)
	return nil
}

func Link(from, to string) error {
	f := cur()
	a, b := f.abs(from), f.abs(to)
	fl := f.begin("rename", a+" => "+b, 0)
	lerr := func(e error) error { return &os.LinkError{Op: "link", Old: from, New: to, Err: e} }
	if e := f.errOf(fl); e != nil {
		f.FailedW = append(f.FailedW, b)
		f.end(fl)
		return lerr(e)
	}
	n, d := f.walk(a), f.walk(path.Dir(b))
	if n == nil || d == nil {
		return lerr(syscall.ENOENT)
	}
	bb := path.Base(b)
	if d.kids[bb] != nil {
		return lerr(syscall.EEXIST)
	}
	d.kids[bb] = n
	f.undo(func() { delete(d.kids, bb) })
	f.end(fl)
	return nil
}

func Truncate(name string, n int64) error {
	x, e := OpenFile(name, os.O_WRONLY, 0)
	if e != nil {
		return e
	}
	defer x.Close()
	return x.Truncate(n)
}

func Chmod(string, fs.FileMode) error               { dead(); return nil }
func Chtimes(string, time.Time, time.Time) error    { dead(); return nil }

func ReadFile(name string) ([]byte, error) {
	x, e := Open(name)
	if e != nil {
		return nil, e
	}
	defer x.Close()
	return io.ReadAll(x)
}

func WriteFile(name string, b []byte, perm fs.FileMode) error {
	x, e := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if e != nil {
		return e
	}
	_, e = x.Write(b)
	if e1 := x.Close(); e1 != nil && e == nil {
		e = e1
	}
	return e
}

func ReadDir(name string) ([]fs.DirEntry, error) {
	x, e := Open(name)
	if e != nil {
		return nil, e
	}
	defer x.Close()
	l, e := x.ReadDir(-1)
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return l, e
}

// IoutilReadDir is ioutil.ReadDir.
func IoutilReadDir(name string) ([]fs.FileInfo, error) {
	x, e := Open(name)
	if e != nil {
		return nil, e
	}
	defer x.Close()
	l, e := x.Readdir(-1)
	if e != nil {
		return nil, e
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return l, nil
}

func tempName(dir, pattern string) string {
	f := cur()
	f.tempN++
	if dir == "" {
		dir = "/tmp"
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	sep := "/"
	if strings.HasSuffix(dir, "/") {
		sep = ""
	}
	return fmt.Sprintf("%s%s%s%d%s", dir, sep, pre, 100000+f.tempN, suf)
}

func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(tempName(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}
func MkdirTemp(dir, pattern string) (string, error) {
	n := tempName(dir, pattern)
	return n, Mkdir(n, 0700)
}
func TempDir() string { return "/tmp" }
