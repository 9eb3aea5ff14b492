// Package simrandv2 is package math/rand/v2 with the global source simulated.
package simrandv2

import (
	real "math/rand/v2"

	"btrsim/simrt"
)

type src struct{}

func (src) Uint64() uint64 { return simrt.RandU64() }

func g() *real.Rand { return real.New(src{}) }

func Int() int                           { return g().Int() }
func IntN(n int) int                     { return g().IntN(n) }
func Int32() int32                       { return g().Int32() }
func Int32N(n int32) int32               { return g().Int32N(n) }
func Int64() int64                       { return g().Int64() }
func Int64N(n int64) int64               { return g().Int64N(n) }
func Uint() uint                         { return g().Uint() }
func UintN(n uint) uint                  { return g().UintN(n) }
func Uint32() uint32                     { return g().Uint32() }
func Uint32N(n uint32) uint32            { return g().Uint32N(n) }
func Uint64() uint64                     { return g().Uint64() }
func Uint64N(n uint64) uint64            { return g().Uint64N(n) }
func Float64() float64                   { return g().Float64() }
func Float32() float32                   { return g().Float32() }
func NormFloat64() float64               { return g().NormFloat64() }
func ExpFloat64() float64                { return g().ExpFloat64() }
func Perm(n int) []int                   { return g().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g().Shuffle(n, swap) }

func N[Int interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n Int) Int {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return Int(g().Uint64N(uint64(n)))
}
