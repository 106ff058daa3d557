// Package simrand2 stands in for math/rand/v2 in the instrumented copy.
package simrand2

import zz "MODULE/zzsimrt"

type Source interface{ Uint64() uint64 }

type src struct{}

func (src) Uint64() uint64 { return zz.Draw(0) }

func NewPCG(a, b uint64) Source       { return src{} }
func NewChaCha8(seed [32]byte) Source { return src{} }

type Rand struct{}

func New(Source) *Rand { return &Rand{} }

func (*Rand) IntN(n int) int                     { return IntN(n) }
func (*Rand) Int64N(n int64) int64               { return Int64N(n) }
func (*Rand) Int32N(n int32) int32               { return Int32N(n) }
func (*Rand) UintN(n uint) uint                  { return UintN(n) }
func (*Rand) Uint32N(n uint32) uint32            { return Uint32N(n) }
func (*Rand) Uint64N(n uint64) uint64            { return Uint64N(n) }
func (*Rand) Int() int                           { return Int() }
func (*Rand) Int32() int32                       { return Int32() }
func (*Rand) Int64() int64                       { return Int64() }
func (*Rand) Uint32() uint32                     { return Uint32() }
func (*Rand) Uint64() uint64                     { return Uint64() }
func (*Rand) Float64() float64                   { return Float64() }
func (*Rand) Float32() float32                   { return Float32() }
func (*Rand) Perm(n int) []int                   { return Perm(n) }
func (*Rand) Shuffle(n int, swap func(i, j int)) { Shuffle(n, swap) }

func IntN(n int) int          { return N(n) }
func Int64N(n int64) int64    { return N(n) }
func Int32N(n int32) int32    { return N(n) }
func UintN(n uint) uint       { return N(n) }
func Uint32N(n uint32) uint32 { return N(n) }
func Uint64N(n uint64) uint64 { return N(n) }
func Int() int                { return int(zz.Draw(1 << 62)) }
func Int32() int32            { return int32(zz.Draw(1 << 31)) }
func Int64() int64            { return int64(zz.Draw(1 << 63)) }
func Uint() uint              { return uint(zz.Draw(0)) }
func Uint32() uint32          { return uint32(zz.Draw(1 << 32)) }
func Uint64() uint64          { return zz.Draw(0) }
func Float64() float64        { return float64(zz.Draw(1<<53)) / (1 << 53) }
func Float32() float32        { return float32(zz.Draw(1<<24)) / (1 << 24) }

func N[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return T(zz.Draw(uint64(n)))
}

func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, int(zz.Draw(uint64(i+1))))
	}
}
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
