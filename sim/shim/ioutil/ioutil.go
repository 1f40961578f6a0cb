// Package ioutil stands in for io/ioutil.
package ioutil

import (
	"io"
	"io/fs"

	"vsim/shim/os"
)

var Discard io.Writer = io.Discard

func ReadAll(r io.Reader) ([]byte, error)  { return io.ReadAll(r) }
func ReadFile(name string) ([]byte, error) { return os.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return os.WriteFile(name, data, perm)
}
func NopCloser(r io.Reader) io.ReadCloser        { return io.NopCloser(r) }
func TempFile(dir, pat string) (*os.File, error) { return os.CreateTemp(dir, pat) }
func TempDir(dir, pat string) (string, error)    { return os.MkdirTemp(dir, pat) }
func ReadDir(name string) ([]fs.FileInfo, error) {
	l, err := os.ReadDir(name)
	var r []fs.FileInfo
	for _, e := range l {
		i, _ := e.Info()
		r = append(r, i)
	}
	return r, err
}
