// Package log stands in for log: the standard logger writes to the process's stderr.
package log

import (
	"fmt"
	"io"
	"log"

	"vsim/shim/os"
)

type Logger = log.Logger

const (
	Ldate         = log.Ldate
	Ltime         = log.Ltime
	Lmicroseconds = log.Lmicroseconds
	Llongfile     = log.Llongfile
	Lshortfile    = log.Lshortfile
	LUTC          = log.LUTC
	Lmsgprefix    = log.Lmsgprefix
	LstdFlags     = log.LstdFlags
)

type stderr struct{}

func (stderr) Write(b []byte) (int, error) { return os.Stderr.Write(b) }

var std = log.New(stderr{}, "", LstdFlags)

func New(w io.Writer, prefix string, flag int) *Logger { return log.New(w, prefix, flag) }
func Default() *Logger                                 { return std }
func SetFlags(f int)                                   { std.SetFlags(f) }
func SetPrefix(p string)                               { std.SetPrefix(p) }
func SetOutput(w io.Writer)                            { std.SetOutput(w) }
func Flags() int                                       { return std.Flags() }
func Prefix() string                                   { return std.Prefix() }
func Writer() io.Writer                                { return std.Writer() }
func out(s string) {
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	os.Stderr.Write([]byte("2024/01/01 00:00:00 " + s))
}

func Print(a ...any)            { out(fmt.Sprint(a...)) }
func Printf(f string, a ...any) { out(fmt.Sprintf(f, a...)) }
func Println(a ...any)          { out(fmt.Sprintln(a...)) }
func Fatal(a ...any)            { Print(a...); os.Exit(1) }
func Fatalf(f string, a ...any) { Printf(f, a...); os.Exit(1) }
func Fatalln(a ...any)          { Println(a...); os.Exit(1) }
func Panic(a ...any)            { Print(a...); panic(fmt.Sprint(a...)) }
func Panicf(f string, a ...any) { Printf(f, a...); panic(fmt.Sprintf(f, a...)) }
func Panicln(a ...any)          { Println(a...); panic(fmt.Sprintln(a...)) }
