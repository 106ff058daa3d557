// Package zzsimrt is the run-time half of the deterministic simulator.
//
// The instrumented copy of the code under test calls Y (or W) before every
// statement. At most one simulated thread runs at any time; which one runs,
// and at which statement it loses control, is decided here from a recorded or
// a seeded list of decisions and from nothing else.
package zzsimrt

import (
	"fmt"
	"runtime"
	"strings"
	"sync/atomic"
)

// ---------------------------------------------------------------- PRNG

// Rand is a splitmix64 generator: small, fast and stable across Go versions.
type Rand struct{ s uint64 }

//go:noinline
func NewRand(seed uint64) *Rand { return &Rand{seed} }

//go:noinline
func (r *Rand) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a number in [0,n).
//
//go:noinline
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		panic("simrt: Intn with n <= 0")
	}
	return int(r.Uint64() % uint64(n))
}

// Chance is true with probability p/1000.
//
//go:noinline
func (r *Rand) Chance(p int) bool { return int(r.Uint64()%1000) < p }

// Mix derives an independent seed.
//
//go:noinline
func Mix(a, b uint64) uint64 {
	r := Rand{a ^ (b+1)*0xd1342543de82ef95}
	r.Uint64()
	return r.Uint64()
}

// ---------------------------------------------------------------- plan of a schedule

// Decision takes control away from thread T when it has executed Y yield
// points of its operation Op, and gives it to thread To.
type Decision struct {
	T  int   `json:"t"`
	Op int   `json:"op"`
	Y  int64 `json:"y"`
	To int   `json:"to"`
}

// Strategy says how switches are chosen when a schedule is being recorded.
type Strategy struct {
	Gap    int `json:"gap"`    // mean yield points between random preemptions, 0: none
	Budget int `json:"budget"` // at most that many random preemptions (0: no limit)
	Write  int `json:"write"`  // chance (per mille) of a preemption around a write to shared-looking memory
	Sink   int `json:"sink"`   // chance (per mille) of a preemption inside a sink call
	Start  int `json:"start"`  // chance (per mille) of a preemption near the start of an operation
}

// Stop is why a simulated call did not run to its end.
type Stop struct{ Why string }

//go:noinline
func (s Stop) Error() string { return s.Why }

const (
	runnable int8 = iota
	blocked
	stalled
	finished
)

// Thread is one simulated caller thread.
type Thread struct {
	ID      int
	wake    chan struct{}
	state   int8
	on      interface{} // what it is blocked on
	op      int
	opY     int64 // yield points executed in the current op before the last resume
	extra   int64 // opY when the work budget was renewed
	resume  int64 // value of steps at the last resume
	killed  bool
	daemon  bool // started by the code under test, not by the harness
	lastRun int64
	crashAt int64 // kill the process at this yield point of the current op
	next    int   // next decision of the replayed schedule for this thread
	life    int   // threads that had this ID before
}

// maxThreads bounds the threads that are alive at one time; the ID of a
// finished thread that the code under test started is given out again.
const maxThreads = 4096

var (
	active  bool
	cur     *Thread
	threads [maxThreads]*Thread
	nth     int
	started int64 // threads started in this run
	free    []int // IDs of finished daemons

	steps     int64 // yield points executed in this run
	next      int64 // next value of steps at which slow must run
	opBudget  int64
	fairEvery int64 = 20000
	killAll   bool
	nowSlow   bool

	recording bool
	strat     Strategy
	srng      Rand
	randAt    int64 // steps value of the next random preemption
	randLeft  int
	hot       int8
	plan      [maxThreads][]Decision
	planned   int // IDs that have decisions
	trace     []Decision
	ntrace    int

	env      Rand
	EnvPerm  bool // permute map iteration and the like
	clock    int64
	clockOff int64

	finishedCh chan int
	stopWhy    string
	switches   int64
	forced     int64
	interHash  uint64
	deadlock   bool

	// Hits counts executions per instrumented site (whole process).
	Hits [1 << 16]uint32
	// SwitchSites counts switches taken per instrumented site (whole process).
	SwitchSites [1 << 16]uint32
)

const never = int64(1) << 62

func init() {
	next = never
	trace = make([]Decision, 1<<14)
}

// Y is a yield point.
//
//go:noinline
func Y(site int32) {
	Hits[site&0xffff]++
	steps++
	if steps >= next || hot != 0 {
		slow(site, 0)
	}
}

// W is a yield point in front of a statement that writes to memory other
// threads might see (a field, an element, a package variable).
//
//go:noinline
func W(site int32) {
	Hits[site&0xffff]++
	steps++
	if steps >= next || hot != 0 || (recording && strat.Write > 0) {
		slow(site, 1)
	}
}

// SinkPoint is the yield point inside a result sink.
//
//go:noinline
func SinkPoint() {
	steps++
	if active && cur != nil {
		slow(0, 2)
	}
}

func opYields(t *Thread) int64 { return t.opY + (steps - t.resume) }

func slow(site int32, kind int) {
	if !active || cur == nil {
		if steps >= next && next != never && !active {
			// sequential phase outside a run: only the work budget applies
			next = never
		}
		hot = 0
		return
	}
	t := cur
	if killAll || t.killed {
		panic(Stop{"killed"})
	}
	y := opYields(t)
	if y-t.extra > opBudget {
		stopWhy = "budget"
		killAll = true
		next = 0
		panic(Stop{"budget"})
	}
	if t.crashAt > 0 && y >= t.crashAt {
		stopWhy = "crash"
		killAll = true
		next = 0
		panic(Stop{"crash"})
	}
	if steps-t.lastRun > fairEvery {
		// fairness: a spinning or very long operation lets the others run
		to := pickNext(t.ID)
		if to >= 0 && to != t.ID {
			forced++
			switchTo(t, to, site)
			return
		}
		t.lastRun = steps
	}
	if recording {
		want := false
		switch {
		case hot != 0:
			hot = 0
			want = srng.Chance(strat.Write)
		case kind == 2:
			want = srng.Chance(strat.Sink)
		case kind == 1:
			want = srng.Chance(strat.Write)
			hot = 1
		}
		if !want && y <= 3 && strat.Start > 0 {
			want = srng.Chance(strat.Start)
		}
		if !want && steps >= randAt {
			if randLeft != 0 {
				want = true
				if randLeft > 0 {
					randLeft--
				}
			}
			drawGap()
		}
		setNext(t)
		if want {
			to := pickRandom(t.ID)
			if to >= 0 {
				if ntrace < len(trace) {
					trace[ntrace] = Decision{t.ID, t.op, y, to}
					ntrace++
				}
				switchTo(t, to, site)
			}
		}
		return
	}
	hot = 0
	// replay
	to := -1
	p := plan[t.ID]
	for t.next < len(p) {
		d := p[t.next]
		if d.Op < t.op || (d.Op == t.op && d.Y < y) {
			t.next++
			continue
		}
		if d.Op == t.op && d.Y == y {
			to = d.To
			t.next++
		}
		break
	}
	setNext(t)
	if to >= 0 && to < nth && to != t.ID && threads[to].state == runnable {
		if ntrace < len(trace) {
			trace[ntrace] = Decision{t.ID, t.op, y, to}
			ntrace++
		}
		switchTo(t, to, site)
	}
}

func drawGap() {
	if strat.Gap <= 0 || randLeft == 0 {
		randAt = never
		return
	}
	randAt = steps + 1 + int64(srng.Uint64()%uint64(2*strat.Gap))
}

// setNext computes when slow must run next for thread t.
func setNext(t *Thread) {
	n := steps + opBudget + t.extra - opYields(t) + 1
	if f := t.lastRun + fairEvery + 1; f < n {
		n = f
	}
	if t.crashAt > 0 {
		if c := steps + t.crashAt - opYields(t); c < n {
			n = c
		}
	}
	if recording {
		if randAt < n {
			n = randAt
		}
		if strat.Start > 0 && opYields(t) <= 3 {
			n = steps + 1
		}
	} else {
		p := plan[t.ID]
		for k := t.next; k < len(p); k++ {
			d := p[k]
			if d.Op < t.op || (d.Op == t.op && d.Y <= opYields(t)) {
				continue
			}
			if d.Op == t.op {
				if at := steps + d.Y - opYields(t); at < n {
					n = at
				}
			}
			break
		}
	}
	if killAll {
		n = 0
	}
	next = n
}

// pickNext returns the next runnable thread after id in cyclic order, or -1.
func pickNext(id int) int {
	for k := 1; k <= nth; k++ {
		c := (id + k) % nth
		if threads[c].state == runnable {
			return c
		}
	}
	return -1
}

func pickRandom(not int) int {
	n := 0
	for i := 0; i < nth; i++ {
		if i != not && threads[i].state == runnable {
			n++
		}
	}
	if n == 0 {
		return -1
	}
	k := srng.Intn(n)
	for i := 0; i < nth; i++ {
		if i != not && threads[i].state == runnable {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return -1
}

func switchTo(t *Thread, to int, site int32) {
	switches++
	SwitchSites[site&0xffff]++
	interHash = Mix(interHash, uint64(t.ID)<<40^uint64(to)<<32^uint64(uint32(site)))
	t.opY = opYields(t)
	give(to)
	park(t)
}

// give hands control to thread id.
func give(id int) {
	n := threads[id]
	cur = n
	n.resume = steps
	n.lastRun = steps
	setNext(n)
	raceOff()
	n.wake <- struct{}{}
	raceOn()
}

func park(t *Thread) {
	raceOff()
	<-t.wake
	raceOn()
	if killAll || t.killed {
		panic(Stop{"killed"})
	}
}

// Block parks the current thread until something wakes it; on names what it
// waits for.
//
//go:noinline
func Block(on interface{}) {
	t := cur
	if !active || t == nil {
		panic(Stop{"deadlock: blocked outside a simulated thread"})
	}
	if killAll || t.killed {
		panic(Stop{"killed"})
	}
	t.state = blocked
	t.on = on
	t.opY = opYields(t)
	to := pickNext(t.ID)
	if to < 0 {
		onStuck()
		t.state = runnable
		panic(Stop{"deadlock"})
	}
	forced++
	give(to)
	park(t)
}

// onStuck is called when no thread can run but some are unfinished.
func onStuck() {
	if allDaemonsOrStalled() {
		stopWhy = "quiescent"
	} else {
		stopWhy = "deadlock"
		deadlock = true
	}
	killAll = true
	next = 0
}

func allDaemonsOrStalled() bool {
	for i := 0; i < nth; i++ {
		if threads[i].state == blocked && !threads[i].daemon {
			return false
		}
	}
	return true
}

// WakeOn makes every thread blocked on x runnable.
//
//go:noinline
func WakeOn(x interface{}) {
	for i := 0; i < nth; i++ {
		if threads[i].state == blocked && threads[i].on == x {
			threads[i].state = runnable
			threads[i].on = nil
		}
	}
}

// StallForever parks the calling thread for the rest of the run (a consumer
// that never comes back).
//
//go:noinline
func StallForever() {
	t := cur
	if !active || t == nil {
		panic(Stop{"stall outside a simulated thread"})
	}
	t.state = stalled
	t.opY = opYields(t)
	to := pickNext(t.ID)
	if to < 0 {
		onStuck()
		t.state = runnable
		panic(Stop{"killed"})
	}
	forced++
	give(to)
	park(t)
}

// Self returns the index of the running simulated thread, or -1.
//
//go:noinline
func Self() int {
	if !active || cur == nil {
		return -1
	}
	return cur.ID
}

// BeginOp marks the start of operation op of the running thread.
//
//go:noinline
func BeginOp(op int) {
	if !active || cur == nil {
		return
	}
	t := cur
	t.op = op
	t.opY = 0
	t.extra = 0
	t.crashAt = 0
	t.resume = steps
	t.lastRun = steps
	setNext(t)
}

// Renew starts the work budget of the running operation anew: one operation of
// a plan may be several calls.
//
//go:noinline
func Renew() {
	if active && cur != nil {
		cur.extra = opYields(cur)
		setNext(cur)
	}
}

// CrashAfter stops the whole run when the running thread has executed n yield
// points of its current operation.
//
//go:noinline
func CrashAfter(n int64) {
	if active && cur != nil {
		cur.crashAt = n
		setNext(cur)
	}
}

// Others is the number of other threads that could run now.
//
//go:noinline
func Others() int {
	n := 0
	for i := 0; i < nth; i++ {
		if threads[i] != cur && threads[i].state == runnable {
			n++
		}
	}
	return n
}

// OpYields is the number of yield points the running thread has executed in
// its current operation.
//
//go:noinline
func OpYields() int64 {
	if !active || cur == nil {
		return 0
	}
	return opYields(cur)
}

// Steps is the number of yield points executed in this run.
//
//go:noinline
func Steps() int64 { return steps }

// Config of one run.
type Config struct {
	Record   bool
	Strategy Strategy
	Seed     uint64 // seed of recorded scheduling decisions
	EnvSeed  uint64 // seed of map order, pool reuse, random draws, clock
	Plan     []Decision
	First    int
	OpBudget int64
}

// Result of one run.
type Result struct {
	Stop      string // "", "deadlock", "budget", "quiescent"
	Stalled   []int  // threads that were unfinished at the end
	Steps     int64
	Switches  int64
	Forced    int64
	Trace     []Decision
	InterHash uint64
	Panics    []interface{} // per thread, nil if none
}

// Running is true while a simulation is in progress.
//
//go:noinline
func Running() bool { return active }

// StopReason is why the current run is being torn down, or "".
//
//go:noinline
func StopReason() string { return stopWhy }

func startThread(body func(), daemon bool) *Thread {
	raceOff()
	atomic.AddInt64(&started, 1)
	raceOn()
	t := &Thread{wake: make(chan struct{}, 1), daemon: daemon}
	if k := len(free); daemon && k > 0 {
		// the decisions of the schedule tell the threads that had one ID in turn
		// apart by the number of the operation
		t.ID = free[k-1]
		free = free[:k-1]
		old := threads[t.ID]
		t.life = old.life + 1
		t.op = t.life
		t.next = old.next
	} else {
		if nth >= maxThreads {
			panic("simrt: too many threads")
		}
		t.ID = nth
		nth++
	}
	threads[t.ID] = t
	return t
}

// Run executes the bodies as simulated threads and returns when all have
// finished or the run was stopped.
//
//go:noinline
func Run(cfg Config, bodies []func()) Result {
	if active {
		panic("simrt: nested Run")
	}
	n := len(bodies)
	nth, started, free = 0, 0, free[:0]
	steps, switches, forced, interHash = 0, 0, 0, 0
	ntrace = 0
	killAll, deadlock, stopWhy, hot = false, false, "", 0
	recording = cfg.Record
	strat = cfg.Strategy
	srng = Rand{cfg.Seed}
	env = Rand{cfg.EnvSeed}
	EnvPerm = cfg.EnvSeed != 0
	clock = int64(1700000000) * 1e9
	opBudget = cfg.OpBudget
	if opBudget <= 0 {
		opBudget = 2000000
	}
	randLeft = strat.Budget
	if randLeft == 0 {
		randLeft = -1
	}
	for i := 0; i < planned; i++ {
		plan[i] = plan[i][:0]
	}
	planned = 0
	for _, d := range cfg.Plan {
		if d.T >= 0 && d.T < maxThreads {
			plan[d.T] = append(plan[d.T], d)
			if d.T >= planned {
				planned = d.T + 1
			}
		}
	}
	drawGap()
	pan := make([]interface{}, n)
	finishedCh = make(chan int, 16)
	for i := 0; i < n; i++ {
		startThread(bodies[i], false)
	}
	active = true
	for i := 0; i < n; i++ {
		launch(threads[i], bodies[i], &pan[i])
	}
	first := cfg.First
	if first < 0 || first >= n {
		first = 0
	}
	give(first)
	done := 0
	for int64(done) < atomic.LoadInt64(&started) {
		<-finishedCh
		done++
	}
	active = false
	cur = nil
	next = never
	r := Result{Steps: steps, Switches: switches, Forced: forced, InterHash: interHash, Stop: stopWhy}
	r.Trace = append([]Decision(nil), trace[:ntrace]...)
	r.Panics = pan
	for i := 0; i < nth; i++ {
		if i < n {
			if _, ok := pan[i].(Stop); ok {
				r.Stalled = append(r.Stalled, i)
			}
		}
		threads[i] = nil
	}
	return r
}

func launch(t *Thread, body func(), pan *interface{}) {
	fin := finishedCh
	go func() {
		exited := true
		defer func() {
			if p := recover(); p != nil {
				*pan = p
				if _, stop := p.(Stop); t.daemon && !stop && stopWhy == "" {
					// nobody recovers it: the process dies
					stopWhy = "panic in a goroutine of the library: " + PanicString(p)
					killAll = true
					next = 0
				}
			} else if exited {
				*pan = "goexit"
			}
			threadDone(t)
			fin <- t.ID
		}()
		park(t)
		body()
		exited = false
	}()
}

// threadDone passes control on when a thread ends.
func threadDone(t *Thread) {
	t.state = finished
	t.opY = opYields(t)
	if t.daemon {
		free = append(free, t.ID)
	}
	if killAll {
		// tear-down: resume every unfinished thread in turn so it unwinds
		for i := 0; i < nth; i++ {
			if threads[i].state != finished {
				threads[i].state = runnable
				give(i)
				return
			}
		}
		return
	}
	to := pickNext(t.ID)
	if to >= 0 {
		// when only threads started by the code under test remain, let them go on
		give(to)
		return
	}
	for i := 0; i < nth; i++ {
		if threads[i].state != finished {
			onStuck()
			threads[i].state = runnable
			give(i)
			return
		}
	}
}

// Go starts a simulated thread from inside the code under test.
//
//go:noinline
func Go(f func()) {
	if !active || cur == nil {
		go f()
		return
	}
	t := startThread(f, true)
	pan := new(interface{})
	launch(t, f, pan)
}

// Continue runs f as the continuation of the current simulated thread on a
// fresh goroutine (used after a simulated caller was told to exit its
// goroutine) and waits for it without giving up control of the schedule.
//
//go:noinline
func Continue(f func()) (panicked interface{}, exited bool) {
	ch := make(chan struct{})
	exited = true
	go func() {
		defer func() {
			if p := recover(); p != nil {
				panicked = p
				exited = false
			}
			close(ch)
		}()
		f()
		exited = false
	}()
	<-ch
	return
}

// PanicString renders a recovered value without addresses.
//
//go:noinline
func PanicString(p interface{}) string {
	switch v := p.(type) {
	case nil:
		return ""
	case Stop:
		return "sim:" + v.Why
	case runtime.Error:
		return "runtime error: " + strings.TrimPrefix(v.Error(), "runtime error: ")
	case error:
		return v.Error()
	default:
		return fmt.Sprint(v)
	}
}

// ---------------------------------------------------------------- package state

type resetter struct {
	pkg string
	f   func()
}

var resetters []resetter

// OnReset registers the function that puts a package's variables back to
// their initial state. Packages register in initialisation order.
//
//go:noinline
func OnReset(pkg string, f func()) { resetters = append(resetters, resetter{pkg, f}) }

// ResetGlobals puts every instrumented package back to the state of a
// freshly started process.
//
//go:noinline
func ResetGlobals() {
	for i := range resetters {
		resetters[i].f()
	}
	epoch++
}

var epoch int

// Epoch changes when the packages are reset; pools made before are empty.
//
//go:noinline
func Epoch() int { return epoch }

// EnvUint64 is a choice of the environment.
//
//go:noinline
func EnvUint64() uint64 { return env.Uint64() }

// PoolHits counts objects the code under test got back from a pool.
var PoolHits int64

// CountPool counts one.
//
//go:noinline
func CountPool() { PoolHits++ }
