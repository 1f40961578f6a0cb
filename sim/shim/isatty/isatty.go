// Package isatty stands in for github.com/mattn/go-isatty: nothing is a terminal.
package isatty

func IsTerminal(fd uintptr) bool       { return false }
func IsCygwinTerminal(fd uintptr) bool { return false }
