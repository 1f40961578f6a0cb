// Package rand stands in for crypto/rand.
package rand

import (
	"crypto/rand"
	"io"
	"math/big"

	"vsim/simrt"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(simrt.Random())
	}
	return len(b), nil
}

var Reader io.Reader = reader{}

func Read(b []byte) (int, error)                      { return Reader.Read(b) }
func Int(r io.Reader, max *big.Int) (*big.Int, error) { return rand.Int(r, max) }
func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	for i := range b {
		b[i] = a[simrt.Random()%32]
	}
	return string(b)
}
