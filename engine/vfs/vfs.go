//go:build go1.22

// Package vfs stands in for the file system calls of the code under test that create, change or remove
// something.  Every call is recorded; a call whose target lies outside Root is only recorded, not executed.
package vfs

import (
	"errors"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/bgokden/veri/zzverif/vmc"
)

// Op is one recorded call.
type Op struct {
	Call, Path string
	Executed   bool
}

var (
	mu  sync.Mutex
	ops []Op
	// Dead: the process has ended, what is left of it changes nothing any more.
	Dead bool
	// Root confines what is executed ("": the temporary directory).
	Root string
)

// Ops returns what was recorded since the last Reset.
func Ops() []Op {
	mu.Lock()
	defer mu.Unlock()
	return append([]Op(nil), ops...)
}

// Reset forgets the record.
func Reset(root string) {
	mu.Lock()
	defer mu.Unlock()
	ops, Root, Dead = nil, root, false
}

var errOutside = errors.New("vfs: outside the scratch folder (recorded, not executed)")

// Inside reports whether p lies in dir (or is dir).
func Inside(dir, p string) bool {
	return p == dir || strings.HasPrefix(p, strings.TrimSuffix(dir, "/")+"/")
}

func abs(p string) string {
	a, err := filepath.Abs(p)
	if err != nil {
		return p
	}
	return a
}

func may(call, p string) bool {
	vmc.P(-40)
	a := abs(p)
	mu.Lock()
	defer mu.Unlock()
	if Dead {
		return false
	}
	ok := Root != "" && Inside(abs(Root), a) || Inside(abs(os.TempDir()), a) && a != abs(os.TempDir())
	ops = append(ops, Op{call, a, ok})
	return ok
}

func RemoveAll(p string) error {
	if !may("RemoveAll", p) {
		return nil
	}
	return os.RemoveAll(p)
}
func Remove(p string) error {
	if !may("Remove", p) {
		return nil
	}
	return os.Remove(p)
}
func Rename(a, b string) error {
	x, y := may("Rename", a), may("Rename", b)
	if !x || !y {
		return errOutside
	}
	return os.Rename(a, b)
}
func Mkdir(p string, m fs.FileMode) error {
	if !may("Mkdir", p) {
		return nil
	}
	return os.Mkdir(p, m)
}
func MkdirAll(p string, m fs.FileMode) error {
	if !may("MkdirAll", p) {
		return nil
	}
	return os.MkdirAll(p, m)
}
func OpenFile(p string, f int, m fs.FileMode) (*os.File, error) {
	if f&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC) != 0 && !may("OpenFile", p) {
		return nil, errOutside
	}
	return os.OpenFile(p, f, m)
}
func Create(p string) (*os.File, error) {
	if !may("Create", p) {
		return nil, errOutside
	}
	return os.Create(p)
}
func WriteFile(p string, b []byte, m fs.FileMode) error {
	if !may("WriteFile", p) {
		return errOutside
	}
	return os.WriteFile(p, b, m)
}
func Truncate(p string, n int64) error {
	if !may("Truncate", p) {
		return errOutside
	}
	return os.Truncate(p, n)
}
func Symlink(a, b string) error {
	if !may("Symlink", b) {
		return errOutside
	}
	return os.Symlink(a, b)
}
func Link(a, b string) error {
	if !may("Link", b) {
		return errOutside
	}
	return os.Link(a, b)
}
func Chmod(p string, m fs.FileMode) error {
	if !may("Chmod", p) {
		return errOutside
	}
	return os.Chmod(p, m)
}
func Chtimes(p string, a, m time.Time) error {
	if !may("Chtimes", p) {
		return errOutside
	}
	return os.Chtimes(p, a, m)
}
func dirOf(d string) string {
	if d == "" {
		return os.TempDir()
	}
	return d
}
func CreateTemp(d, pat string) (*os.File, error) {
	if !may("CreateTemp", filepath.Join(dirOf(d), pat)) {
		return nil, errOutside
	}
	return os.CreateTemp(d, pat)
}
func MkdirTemp(d, pat string) (string, error) {
	if !may("MkdirTemp", filepath.Join(dirOf(d), pat)) {
		return "", errOutside
	}
	return os.MkdirTemp(d, pat)
}

// TempFile and TempDir are the ioutil names.
func TempFile(d, pat string) (*os.File, error) { return CreateTemp(d, pat) }
func TempDir(d, pat string) (string, error)    { return MkdirTemp(d, pat) }
