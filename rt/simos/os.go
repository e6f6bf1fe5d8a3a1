//go:build go1.21

package simos

import (
	crand "crypto/rand"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"log"
	"math/big"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"simulator/v2/verifsim/simrt"
)

// ---------------------------------------------------------------- process

// ExitProc is os.Exit.
func Exit(code int) {
	dead()
	simrt.Die(simrt.Exit{Kind: "exit", Code: code & 0xff})
}

func Getenv(k string) string              { return cur().env[k] }
func LookupEnv(k string) (string, bool)   { v, ok := cur().env[k]; return v, ok }
func Setenv(k, v string) error            { return nil }
func Unsetenv(k string) error             { return nil }
func Environ() []string                   { return nil }
func Hostname() (string, error)           { return "sim", nil }
func Getpid() int                         { return simrt.Pid() }
func UserHomeDir() (string, error)        { return "/tmp", nil }
func Executable() (string, error)         { return "/simulator", nil }

func (f *FS) out(s string) {
	max := f.StdoutCap
	if max == 0 {
		max = 1 << 16
	}
	if f.Stdout.Len() < max {
		f.Stdout.WriteString(s)
	}
}

// ---------------------------------------------------------------- fmt, log

func Println(a ...interface{}) (int, error) {
	dead()
	s := fmt.Sprintln(a...)
	cur().out(s)
	return len(s), nil
}
func Printf(format string, a ...interface{}) (int, error) {
	dead()
	s := fmt.Sprintf(format, a...)
	cur().out(s)
	return len(s), nil
}
func Print(a ...interface{}) (int, error) {
	dead()
	s := fmt.Sprint(a...)
	cur().out(s)
	return len(s), nil
}

func LogPrintln(a ...interface{})               { _, _ = Println(a...) }
func LogPrintf(format string, a ...interface{}) { _, _ = Printf(format+"\n", a...) }
func LogPrint(a ...interface{})                 { _, _ = Println(a...) }
func fatal(s string) {
	dead()
	cur().out(s + "\n")
	simrt.Die(simrt.Exit{Kind: "exit", Code: 1, Msg: s})
}
func LogFatal(a ...interface{})                 { fatal(fmt.Sprint(a...)) }
func LogFatalf(format string, a ...interface{}) { fatal(fmt.Sprintf(format, a...)) }
func LogFatalln(a ...interface{})               { fatal(fmt.Sprintln(a...)) }
func LogPanic(a ...interface{})                 { panic(fmt.Sprint(a...)) }
func LogPanicf(format string, a ...interface{}) { panic(fmt.Sprintf(format, a...)) }
func LogPanicln(a ...interface{})               { panic(fmt.Sprintln(a...)) }
func LogSetOutput(w io.Writer)                  {}
func LogSetFlags(int)                           {}
func LogSetPrefix(string)                       {}
func LogNew(w io.Writer, p string, flag int) *log.Logger {
	return log.New(w, p, flag)
}

// ---------------------------------------------------------------- filepath

func Abs(p string) (string, error) {
	dead()
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	return filepath.Join(cur().cwd, p), nil
}
func EvalSymlinks(p string) (string, error) {
	if _, e := Stat(p); e != nil {
		return "", e
	}
	return path.Clean(p), nil
}
func Glob(pattern string) ([]string, error) {
	dir, file := path.Split(pattern)
	if dir == "" {
		dir = "."
	}
	l, e := ReadDir(path.Clean(dir))
	if e != nil {
		return nil, nil
	}
	var out []string
	for _, x := range l {
		ok, e := path.Match(file, x.Name())
		if e != nil {
			return nil, e
		}
		if ok {
			out = append(out, path.Join(dir, x.Name()))
		}
	}
	return out, nil
}
func Walk(root string, fn filepath.WalkFunc) error {
	fi, e := Stat(root)
	if e != nil {
		return fn(root, nil, e)
	}
	e = walkRec(root, fi, fn)
	if e == filepath.SkipDir {
		return nil
	}
	return e
}
func walkRec(p string, fi fs.FileInfo, fn filepath.WalkFunc) error {
	if !fi.IsDir() {
		return fn(p, fi, nil)
	}
	l, e := IoutilReadDir(p)
	e1 := fn(p, fi, e)
	if e != nil || e1 != nil {
		return e1
	}
	for _, x := range l {
		if e := walkRec(filepath.Join(p, x.Name()), x, fn); e != nil {
			if !x.IsDir() || e != filepath.SkipDir {
				return e
			}
		}
	}
	return nil
}
func WalkDir(root string, fn fs.WalkDirFunc) error {
	return Walk(root, func(p string, fi fs.FileInfo, err error) error {
		if fi == nil {
			return fn(p, nil, err)
		}
		return fn(p, fs.FileInfoToDirEntry(fi), err)
	})
}

// ---------------------------------------------------------------- ioutil

func IoutilReadFile(n string) ([]byte, error)                     { return ReadFile(n) }
func IoutilWriteFile(n string, b []byte, p fs.FileMode) error     { return WriteFile(n, b, p) }
func IoutilTempFile(d, p string) (*File, error)                   { return CreateTemp(d, p) }
func IoutilTempDir(d, p string) (string, error)                   { return MkdirTemp(d, p) }

// ---------------------------------------------------------------- global math/rand

var grand = rand.New(rand.NewSource(1))

// ResetRand restarts the process-wide generator, as a new process would:
// from a different point each time.
func ResetRand(seed int64) { grand = rand.New(rand.NewSource(seed)) }

func RandInt() int                            { return grand.Int() }
func RandIntn(n int) int                      { return grand.Intn(n) }
func RandInt31() int32                        { return grand.Int31() }
func RandInt31n(n int32) int32                { return grand.Int31n(n) }
func RandInt63() int64                        { return grand.Int63() }
func RandInt63n(n int64) int64                { return grand.Int63n(n) }
func RandUint32() uint32                      { return grand.Uint32() }
func RandUint64() uint64                      { return grand.Uint64() }
func RandFloat32() float32                    { return grand.Float32() }
func RandFloat64() float64                    { return grand.Float64() }
func RandPerm(n int) []int                    { return grand.Perm(n) }
func RandShuffle(n int, s func(i, j int))     { grand.Shuffle(n, s) }
func RandSeed(s int64)                        { grand.Seed(s) }
func RandNormFloat64() float64                { return grand.NormFloat64() }
func RandExpFloat64() float64                 { return grand.ExpFloat64() }

// ---------------------------------------------------------------- pprof (stub)

func StartCPUProfile(w io.Writer) error  { _, e := w.Write([]byte("cpu profile\n")); return e }
func StopCPUProfile()                    { dead() }
func WriteHeapProfile(w io.Writer) error { _, e := w.Write([]byte("heap profile\n")); return e }

// IsNotExist and friends work on the errors above because they wrap real ones.
var _ = errors.Is
var _ = sort.Strings
var _ = strings.Join
var _ = os.IsNotExist

// ---------------------------------------------------------------- crypto/rand

// seeded stands for the system's randomness. Single bytes are not taken from
// the sequence: the library reads one or none of them at random.
type seeded struct{}

func (seeded) Read(p []byte) (int, error) {
	if len(p) == 1 {
		p[0] = 0
		return 1, nil
	}
	for i := range p {
		p[i] = byte(grand.Intn(256))
	}
	return len(p), nil
}

var CryptoReader io.Reader = seeded{}

func CryptoInt(r io.Reader, max *big.Int) (*big.Int, error) { return crand.Int(r, max) }
func CryptoRead(p []byte) (int, error)                     { return CryptoReader.Read(p) }
func CryptoPrime(r io.Reader, n int) (*big.Int, error)      { return crand.Prime(r, n) }

// StatRaw looks at a file from outside of a simulation.
func StatRaw(f *FS, name string) (fs.FileInfo, error) {
	n := f.walk(path.Clean(name))
	if n == nil {
		return nil, fs.ErrNotExist
	}
	return info{name: path.Base(name), n: n}, nil
}
