// Package colorable stands in for github.com/mattn/go-colorable.
package colorable

import (
	"io"

	"vsim/shim/os"
)

func NewColorable(f *os.File) io.Writer     { return f }
func NewColorableStdout() io.Writer         { return os.Stdout }
func NewColorableStderr() io.Writer         { return os.Stderr }
func NewNonColorable(w io.Writer) io.Writer { return w }
func EnableColorsStdout(on *bool) func()    { return func() {} }
