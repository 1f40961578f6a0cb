// Package signal stands in for os/signal: no signal that can be caught arrives.
package signal

import (
	"context"
	"os"
)

func Notify(c chan<- os.Signal, sig ...os.Signal) {}
func Stop(c chan<- os.Signal)                     {}
func Ignore(sig ...os.Signal)                     {}
func Ignored(sig os.Signal) bool                  { return false }
func Reset(sig ...os.Signal)                      {}
func NotifyContext(p context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	return context.WithCancel(p)
}
