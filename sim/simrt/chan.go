package zzsimrt

import "reflect"

// Channels keep their own buffers; only blocking is taken over, so that a
// thread that would wait gives control to another one. A rendezvous on an
// unbuffered channel goes through a slot kept here.

const maxSlots = 64

type slot struct {
	used  bool
	taken bool
	ch    interface{}
	v     interface{}
}

var slots [maxSlots]slot

//go:noinline
func findSlot(ch interface{}) *slot {
	for i := range slots {
		if slots[i].used && !slots[i].taken && slots[i].ch == ch {
			return &slots[i]
		}
	}
	return nil
}

//go:noinline
func blockChan() { Block(anyChan) }

type chanEvent struct{}

// chanID identifies a channel whatever its direction.
func chanID(c interface{}) interface{} { return reflect.ValueOf(c).Pointer() }

var anyChan = &chanEvent{}

//go:noinline
func event() { WakeOn(anyChan) }

//go:noinline
func inSim() bool { return active && cur != nil }

func Send[C ~chan T | ~chan<- T, T any](c C, v T) {
	if !inSim() {
		(chan<- T)(c) <- v
		return
	}
	SyncPoint()
	ch := (chan<- T)(c)
	if ch != nil && cap(ch) == 0 {
		offer(chanID(ch), v)
		return
	}
	for {
		select {
		case ch <- v:
			event()
			return
		default:
		}
		blockChan()
	}
}

//go:noinline
func offer(id, v interface{}) {
	var s *slot
	for s == nil {
		for i := range slots {
			if !slots[i].used {
				s = &slots[i]
				break
			}
		}
		if s == nil {
			blockChan()
		}
	}
	s.used, s.taken, s.ch, s.v = true, false, id, v
	defer func() { s.used = false }()
	event()
	for !s.taken {
		blockChan()
	}
	event()
}

// take returns what is offered on an unbuffered channel.
//
//go:noinline
func take(id interface{}) (v interface{}, ok bool) {
	s := findSlot(id)
	if s == nil {
		return nil, false
	}
	v = s.v
	s.taken = true
	event()
	return v, true
}

func tryRecv[T any](ch <-chan T) (v T, ok, ready bool) {
	if ch == nil {
		return
	}
	select {
	case v, ok = <-ch:
		event()
		return v, ok, true
	default:
	}
	if cap(ch) == 0 {
		if x, found := take(chanID(ch)); found {
			v, _ = x.(T)
			return v, true, true
		}
	}
	return
}

func Recv2[C ~chan T | ~<-chan T, T any](c C) (T, bool) {
	if !inSim() {
		v, ok := <-(<-chan T)(c)
		return v, ok
	}
	SyncPoint()
	for {
		if v, ok, ready := tryRecv((<-chan T)(c)); ready {
			return v, ok
		}
		blockChan()
	}
}

func Recv[C ~chan T | ~<-chan T, T any](c C) T {
	v, _ := Recv2[C, T](c)
	return v
}

func Close[C ~chan T | ~chan<- T, T any](c C) {
	SyncPoint()
	close((chan<- T)(c))
	if inSim() {
		event()
	}
}

// ChanLen is a yield point after the length n of a channel was read.
//
//go:noinline
func ChanLen(n int) int {
	SyncPoint()
	return n
}

// CIter ranges over a channel.
type CIter[T any] struct {
	c   <-chan T
	Key T
}

func ChanIter[C ~chan T | ~<-chan T, T any](c C) *CIter[T] {
	return &CIter[T]{c: (<-chan T)(c)}
}

func (it *CIter[T]) Next() bool {
	v, ok := Recv2[<-chan T, T](it.c)
	it.Key = v
	return ok
}

// Case is one case of a select statement.
type Case struct {
	try func() (v interface{}, ok, ready bool)
}

func CaseRecv[C ~chan T | ~<-chan T, T any](c C) Case {
	return Case{func() (interface{}, bool, bool) {
		v, ok, ready := tryRecv((<-chan T)(c))
		return v, ok, ready
	}}
}

func CaseSend[C ~chan T | ~chan<- T, T any](c C, v T) Case {
	return Case{func() (interface{}, bool, bool) {
		ch := (chan<- T)(c)
		if ch == nil {
			return nil, false, false
		}
		select {
		case ch <- v:
			event()
			return nil, false, true
		default:
		}
		return nil, false, false
	}}
}

// Chosen is the outcome of a select statement.
type Chosen struct {
	N  int
	OK bool
	v  interface{}
}

// Select picks a ready case; -1 is the default case.
//
//go:noinline
func Select(hasDefault bool, cases ...Case) Chosen {
	SyncPoint()
	for {
		n := len(cases)
		first := 0
		if EnvPerm && n > 1 {
			first = int(env.Uint64() % uint64(n))
		}
		for k := 0; k < n; k++ {
			i := (first + k) % n
			if v, ok, ready := cases[i].try(); ready {
				return Chosen{N: i, OK: ok, v: v}
			}
		}
		if hasDefault {
			return Chosen{N: -1}
		}
		if !inSim() {
			panic(Stop{"select would block outside a simulated thread"})
		}
		blockChan()
	}
}

// Received is the value a select received from c.
func Received[C ~chan T | ~<-chan T, T any](ch Chosen, c C) T {
	v, _ := ch.v.(T)
	return v
}
