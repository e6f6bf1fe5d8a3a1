//go:build go1.21

// Package simviper points the configuration library at the simulated disk.
package simviper

import (
	"os"
	"time"

	"github.com/spf13/afero"
	"github.com/spf13/viper"

	"simulator/v2/verifsim/simos"
)

// Abs resolves a path against the simulated working directory: the library
// itself would use the real one.
func Abs(p string) string {
	a, err := simos.Abs(p)
	if err != nil {
		return p
	}
	return a
}

func AddConfigPath(in string) { viper.AddConfigPath(Abs(in)) }
func SetConfigFile(in string) { viper.SetConfigFile(Abs(in)) }
func Reset()                  { viper.Reset(); viper.SetFs(Fs{}) }
func New() *viper.Viper {
	v := viper.New()
	v.SetFs(Fs{})
	return v
}

// Fs is the simulated disk as an afero file system.
type Fs struct{}

type file struct{ *simos.File }

func (f file) Readdir(c int) ([]os.FileInfo, error)   { return f.File.Readdir(c) }
func (f file) Stat() (os.FileInfo, error)             { return f.File.Stat() }

func wrap(f *simos.File, e error) (afero.File, error) {
	if e != nil {
		return nil, e
	}
	return file{f}, nil
}

func (Fs) Create(n string) (afero.File, error) { return wrap(simos.Create(n)) }
func (Fs) Mkdir(n string, p os.FileMode) error { return simos.Mkdir(n, p) }
func (Fs) MkdirAll(n string, p os.FileMode) error {
	return simos.MkdirAll(n, p)
}
func (Fs) Open(n string) (afero.File, error) { return wrap(simos.Open(n)) }
func (Fs) OpenFile(n string, flag int, p os.FileMode) (afero.File, error) {
	return wrap(simos.OpenFile(n, flag, p))
}
func (Fs) Remove(n string) error                              { return simos.Remove(n) }
func (Fs) RemoveAll(n string) error                           { return simos.RemoveAll(n) }
func (Fs) Rename(a, b string) error                           { return simos.Rename(a, b) }
func (Fs) Stat(n string) (os.FileInfo, error)                 { return simos.Stat(n) }
func (Fs) Name() string                                       { return "sim" }
func (Fs) Chmod(n string, m os.FileMode) error                { return simos.Chmod(n, m) }
func (Fs) Chtimes(n string, a time.Time, m time.Time) error   { return simos.Chtimes(n, a, m) }
