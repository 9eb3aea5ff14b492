// Package simcrand is package crypto/rand from the simulated source.
package simcrand

import (
	"io"

	"btrsim/simrt"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	for i := range b {
		if i%8 == 0 {
			v := simrt.RandU64()
			for j := 0; j < 8 && i+j < len(b); j++ {
				b[i+j] = byte(v >> (8 * uint(j)))
			}
		}
	}
	return len(b), nil
}

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }
