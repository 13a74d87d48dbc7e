package sos

import (
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"syscall"
	"time"
	"vsim"
)

func ReadFile(name string) ([]byte, error) {
	if !vsim.Active() {
		return os.ReadFile(name)
	}
	b, err, ok := vsim.ReadFile(name)
	if err != nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: err}
	}
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
	}
	return b, nil
}

// Open gives a real file without a name that has the contents of the simulated one, so that it has the type that code
// expects.
func Open(name string) (*os.File, error) {
	if !vsim.Active() {
		return os.Open(name)
	}
	b, err := ReadFile(name)
	if err != nil {
		return nil, err
	}
	f, err := os.CreateTemp("", "vsim")
	if err != nil {
		return nil, err
	}
	if err = os.Remove(f.Name()); err == nil {
		if _, err = f.Write(b); err == nil {
			_, err = f.Seek(0, io.SeekStart)
		}
	}
	if err != nil {
		f.Close()
		return nil, err
	}
	return f, nil
}

func OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if vsim.Active() && flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) == 0 {
		return Open(name)
	}
	return os.OpenFile(name, flag, perm)
}

type info struct {
	name string
	size int64
}

func (i info) Name() string       { return filepath.Base(i.name) }
func (i info) Size() int64        { return i.size }
func (i info) Mode() fs.FileMode  { return 0o644 }
func (i info) ModTime() time.Time { return time.Unix(0, 0) }
func (i info) IsDir() bool        { return false }
func (i info) Sys() any           { return nil }

func Stat(name string) (os.FileInfo, error) {
	if !vsim.Active() {
		return os.Stat(name)
	}
	b, err := ReadFile(name)
	if err != nil {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: err.(*fs.PathError).Err}
	}
	return info{name, int64(len(b))}, nil
}

func Lstat(name string) (os.FileInfo, error) {
	if !vsim.Active() {
		return os.Lstat(name)
	}
	return Stat(name)
}

func Getenv(k string) string            { v, _ := vsim.Getenv(k); return v }
func LookupEnv(k string) (string, bool) { return vsim.Getenv(k) }
func Setenv(k, v string) error          { vsim.Setenv(k, v); return nil }
func Exit(code int)                     { panic("os.Exit called") }
