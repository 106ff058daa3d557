// Package simrand stands in for math/rand in the instrumented copy.
package simrand

import zz "MODULE/zzsimrt"

type Source interface {
	Int63() int64
	Seed(seed int64)
}

type Source64 interface {
	Source
	Uint64() uint64
}

type src struct{}

func (src) Int63() int64   { return int64(zz.Draw(1 << 63)) }
func (src) Uint64() uint64 { return zz.Draw(0) }
func (src) Seed(int64)     {}

func NewSource(int64) Source { return src{} }

// Rand draws from the environment whatever its source.
type Rand struct{}

func New(Source) *Rand { return &Rand{} }

func (*Rand) Seed(int64)       {}
func (*Rand) Intn(n int) int   { return Intn(n) }
func (*Rand) Int() int         { return Int() }
func (*Rand) Int31() int32     { return Int31() }
func (*Rand) Int63() int64     { return Int63() }
func (*Rand) Uint32() uint32   { return Uint32() }
func (*Rand) Uint64() uint64   { return Uint64() }
func (*Rand) Float64() float64 { return Float64() }
func (*Rand) Float32() float32 { return Float32() }
func (*Rand) Int31n(n int32) int32 {
	return Int31n(n)
}
func (*Rand) Int63n(n int64) int64 {
	return Int63n(n)
}
func (*Rand) Perm(n int) []int                   { return Perm(n) }
func (*Rand) Shuffle(n int, swap func(i, j int)) { Shuffle(n, swap) }
func (*Rand) NormFloat64() float64               { return Float64()*2 - 1 }
func (*Rand) ExpFloat64() float64                { return Float64() }
func (*Rand) Read(p []byte) (n int, err error)   { return Read(p) }

func Seed(int64) {}
func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(zz.Draw(uint64(n)))
}
func Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return int32(zz.Draw(uint64(n)))
}
func Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return int64(zz.Draw(uint64(n)))
}
func Int() int             { return int(zz.Draw(1 << 62)) }
func Int31() int32         { return int32(zz.Draw(1 << 31)) }
func Int63() int64         { return int64(zz.Draw(1 << 63)) }
func Uint32() uint32       { return uint32(zz.Draw(1 << 32)) }
func Uint64() uint64       { return zz.Draw(0) }
func Float64() float64     { return float64(zz.Draw(1<<53)) / (1 << 53) }
func Float32() float32     { return float32(zz.Draw(1<<24)) / (1 << 24) }
func NormFloat64() float64 { return Float64()*2 - 1 }
func ExpFloat64() float64  { return Float64() }
func Read(p []byte) (n int, err error) {
	for i := range p {
		p[i] = byte(zz.Draw(256))
	}
	return len(p), nil
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, int(zz.Draw(uint64(i+1))))
	}
}
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
