// Package filepath stands in for path/filepath.
package filepath

import (
	"io/fs"
	"path/filepath"
	"sort"
	"strings"

	"vsim/shim/os"
)

const (
	Separator     = filepath.Separator
	ListSeparator = filepath.ListSeparator
)

type WalkFunc = filepath.WalkFunc

var (
	ErrBadPattern = filepath.ErrBadPattern
	SkipDir       = filepath.SkipDir
	SkipAll       = filepath.SkipAll
)

func Base(p string) string              { return filepath.Base(p) }
func Clean(p string) string             { return filepath.Clean(p) }
func Dir(p string) string               { return filepath.Dir(p) }
func Ext(p string) string               { return filepath.Ext(p) }
func FromSlash(p string) string         { return p }
func ToSlash(p string) string           { return p }
func IsAbs(p string) bool               { return filepath.IsAbs(p) }
func IsLocal(p string) bool             { return filepath.IsLocal(p) }
func Localize(p string) (string, error) { return filepath.Localize(p) }
func Join(e ...string) string           { return filepath.Join(e...) }
func Match(p, n string) (bool, error)   { return filepath.Match(p, n) }
func Rel(b, t string) (string, error)   { return filepath.Rel(b, t) }
func Split(p string) (string, string)   { return filepath.Split(p) }
func SplitList(p string) []string       { return filepath.SplitList(p) }
func VolumeName(p string) string        { return "" }
func Abs(p string) (string, error) {
	if IsAbs(p) {
		return Clean(p), nil
	}
	d, err := os.Getwd()
	return Join(d, p), err
}
func EvalSymlinks(p string) (string, error) {
	if _, err := os.Lstat(p); err != nil {
		return "", err
	}
	return Clean(p), nil
}
func Glob(pat string) ([]string, error) {
	if _, err := Match(pat, ""); err != nil {
		return nil, err
	}
	if !strings.ContainsAny(pat, `*?[\`) {
		if _, err := os.Lstat(pat); err != nil {
			return nil, nil
		}
		return []string{pat}, nil
	}
	dir, file := Split(pat)
	d := dir
	if d == "" {
		d = "."
	}
	l, _ := os.ReadDir(d)
	var r []string
	for _, e := range l {
		if ok, _ := Match(file, e.Name()); ok {
			r = append(r, Join(dir, e.Name()))
		}
	}
	sort.Strings(r)
	return r, nil
}
func WalkDir(root string, fn fs.WalkDirFunc) error {
	fi, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fs.FileInfoToDirEntry(fi), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}
func walk(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	l, err := os.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, e := range l {
		if err := walk(Join(p, e.Name()), e, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}
func Walk(root string, fn WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		var fi fs.FileInfo
		if d != nil {
			fi, _ = d.Info()
		}
		return fn(p, fi, err)
	})
}
