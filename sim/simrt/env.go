package zzsimrt

import (
	"fmt"
	"reflect"
	"sort"
	"time"
)

// ---------------------------------------------------------------- map iteration

// Perm tells whether the environment permutes.
//
//go:noinline
func Perm() bool { return EnvPerm }

// Iter walks a map in an order chosen by the environment.
type Iter[K comparable, V any] struct {
	m   map[K]V
	ks  []K
	i   int
	Key K
	Val V
}

func MapIter[M ~map[K]V, K comparable, V any](m M) *Iter[K, V] {
	it := &Iter[K, V]{m: map[K]V(m)}
	for k := range m {
		it.ks = append(it.ks, k)
	}
	if len(it.ks) > 1 {
		sortKeys(it.ks)
		if Perm() {
			for i := len(it.ks) - 1; i > 0; i-- {
				j := int(EnvUint64() % uint64(i+1))
				it.ks[i], it.ks[j] = it.ks[j], it.ks[i]
			}
		}
	}
	return it
}

//go:noinline
func (it *Iter[K, V]) Next() bool {
	for it.i < len(it.ks) {
		k := it.ks[it.i]
		it.i++
		if v, ok := it.m[k]; ok {
			it.Key, it.Val = k, v
			return true
		}
	}
	return false
}

func sortKeys[K comparable](ks []K) {
	sort.Slice(ks, func(i, j int) bool { return keyLess(ks[i], ks[j]) })
}

func keyLess(a, b interface{}) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if !va.IsValid() || !vb.IsValid() {
		return !va.IsValid() && vb.IsValid()
	}
	if va.Kind() == vb.Kind() {
		switch va.Kind() {
		case reflect.String:
			return va.String() < vb.String()
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return va.Int() < vb.Int()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			return va.Uint() < vb.Uint()
		case reflect.Float32, reflect.Float64:
			return va.Float() < vb.Float()
		}
	}
	return fmt.Sprintf("%T%v", a, a) < fmt.Sprintf("%T%v", b, b)
}

// ---------------------------------------------------------------- time

// Now replaces time.Now: a simulated clock that advances with the work done
// and jumps when the environment says so.
//
//go:noinline
func Now() time.Time {
	SyncPoint()
	j := int64(1000)
	if EnvPerm {
		switch env.Uint64() % 8 {
		case 0:
			j = int64(env.Uint64() % uint64(2*time.Hour))
		case 1:
			j = 0
		default:
			j = int64(env.Uint64() % uint64(50*time.Millisecond))
		}
	}
	clock += j
	return time.Unix(0, clock)
}

//go:noinline
func Since(t time.Time) time.Duration { return Now().Sub(t) }

//go:noinline
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

//go:noinline
func Sleep(d time.Duration) {
	clock += int64(d)
	Gosched()
}

// Gosched replaces runtime.Gosched.
//
//go:noinline
func Gosched() {
	steps++
	if active && cur != nil && !killAll {
		t := cur
		to := pickNext(t.ID)
		if to >= 0 && to != t.ID {
			forced++
			switchTo(t, to, 0)
		}
	}
}

// ---------------------------------------------------------------- random numbers

// DrawMode biases random draws: 0 uniform, 1 mostly extremes, 2 always the
// lowest, 3 always the highest.
var DrawMode int

// Draws counts random numbers drawn by the code under test in this process;
// DrawLow and DrawHigh count draws that returned an end of their range.
var Draws, DrawLow, DrawHigh int64

// Draw returns a number in [0,n), or any number if n is 0.
//
//go:noinline
func Draw(n uint64) uint64 {
	SyncPoint()
	Draws++
	if n == 0 {
		return env.Uint64()
	}
	v := env.Uint64()
	switch DrawMode {
	case 1:
		switch v % 3 {
		case 0:
			v = 0
		case 1:
			v = n - 1
		default:
			v = env.Uint64() % n
		}
	case 2:
		v = 0
	case 3:
		v = n - 1
	default:
		v %= n
	}
	if v == 0 {
		DrawLow++
	} else if v == n-1 {
		DrawHigh++
	}
	return v
}

// SyncPoint is a yield point at a synchronisation operation.
//
//go:noinline
func SyncPoint() {
	steps++
	if active && cur != nil && !killAll {
		slow(0, 1)
	}
}
