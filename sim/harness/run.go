package main

import (
	"fmt"
	"sort"

	"MODULE/gglob"
	"MODULE/glob"
	"MODULE/gtags"
	zz "MODULE/zzsimrt"
	"MODULE/zzsimrt/simsync"
)

// defaultBudget is the work one call may do before it counts as one that
// never finishes; calls of everyday size need a few thousand yield points.
const defaultBudget = 4000000

// budget is that of the running plan: wide ones and texts of 64 KiB take more.
var budget int64 = defaultBudget

type failure struct {
	Class string // kept the same while shrinking
	Msg   string
}

func failf(class, format string, a ...interface{}) *failure {
	return &failure{class, fmt.Sprintf(format, a...)}
}

// stats is what the evidence reports.
type stats struct {
	Runs        int64            `json:"runs"`
	Sims        int64            `json:"sims"`     // simulated executions (a run needs several: references, twins, replicas)
	Steps       int64            `json:"steps"`    // yield points executed
	Switches    int64            `json:"switches"` // preemptions
	Forced      int64            `json:"forced"`   // other context switches
	Ops         int64            `json:"ops"`
	Deliveries  int64            `json:"deliveries"`
	Nontrivial  int64            `json:"nontrivial"`
	Faults      map[string]int64 `json:"faults"`
	Counts      map[string]int64 `json:"counts"`
	Inter       map[uint64]bool  `json:"-"`
	Shapes      map[uint64]bool  `json:"-"`
	MaxOpSteps  int64            `json:"max_op_steps"`
	Objects     map[string]int64 `json:"objects"`
	OpKinds     map[string]int64 `json:"op_kinds"`
	Determinism int64            `json:"determinism_checked"`
	Nondet      []string         `json:"nondeterministic"`
	Races       int64            `json:"races"`
	Samples     []string         `json:"samples"`
}

func newStats() *stats {
	return &stats{Faults: map[string]int64{}, Counts: map[string]int64{}, Inter: map[uint64]bool{}, Shapes: map[uint64]bool{}, Objects: map[string]int64{}, OpKinds: map[string]int64{}}
}

type ctx struct {
	st     *stats
	p      *Plan
	digest uint64
	refs   map[string]*opRes
	nt     bool          // something worth checking happened
	races  int           // data races before this run
	refSt  int64         // steps used by the references
	trace  []zz.Decision // switches of the main run
}

func newCtx(st *stats, p *Plan) *ctx {
	return &ctx{st: st, p: p, refs: map[string]*opRes{}, races: zz.RaceErrors()}
}

func (c *ctx) note(s string) {
	h := c.digest
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	c.digest = h
}

func (c *ctx) run(cfg zz.Config, bodies []func()) zz.Result {
	if cfg.OpBudget == 0 {
		cfg.OpBudget = budget
	}
	zz.DrawMode = c.p.Draw
	r := zz.Run(cfg, bodies)
	c.st.Sims++
	c.st.Steps += r.Steps
	c.st.Switches += r.Switches
	c.st.Forced += r.Forced
	if r.Stop != "" {
		c.note(r.Stop)
	}
	c.digest = zz.Mix(c.digest, uint64(r.Steps)^r.InterHash)
	if len(bodies) > 1 {
		c.trace = r.Trace
		if r.Switches > 0 || r.Forced > 0 {
			c.st.Inter[r.InterHash] = true
		}
	}
	return r
}

// solo runs f alone as one simulated thread; it returns why f did not finish,
// or "".
func (c *ctx) solo(env uint64, f func()) string {
	r := c.run(zz.Config{EnvSeed: env}, []func(){f})
	if r.Stop != "" {
		return r.Stop
	}
	if r.Panics[0] != nil {
		return "panic: " + zz.PanicString(r.Panics[0])
	}
	return ""
}

// pristine is solo in the state of a fresh process.
func (c *ctx) pristine(f func()) string {
	zz.ResetGlobals()
	return c.solo(c.p.Env, f)
}

// ref is what an op returns and delivers when it runs alone on freshly built
// objects in a fresh process.
func (c *ctx) ref(op *Op) *opRes {
	op = op.plain()
	k := op.key()
	if r, ok := c.refs[k]; ok {
		return r
	}
	r := &opRes{}
	w := &world{p: c.p}
	stop := c.pristine(func() {
		w.objs = buildAll(c.p, op.O)
		zz.BeginOp(0)
		w.safe(0, 0, op, r)
	})
	if stop != "" {
		r.panicked += stop
	}
	c.refSt += r.steps
	c.refs[k] = r
	return r
}

// wear gives a plan a long life before the run.
func (g *gen) wear(p *Plan) {
	x := &Wear{}
	var as []Op
	p.eachOp(func(op *Op) {
		if (op.K == "m" || op.K == "mp" || op.K == "mm") && op.O >= 0 && op.O < len(p.Objs) {
			as = append(as, *op)
		}
	})
	switch {
	case len(as) > 0:
		x.A = as[g.r.Intn(len(as))]
		pats := p.Objs[x.A.O].pats()
		p.eachOp(func(op *Op) {
			if op.K == "reg" && op.O == x.A.O && !op.Bad && op.V != "" {
				pats = append(pats, op.V)
			}
		})
		x.B = g.matchOp(p, x.A.O, pats)
		if x.B.V != "" && (g.r.Chance(650) || len(x.B.V) > 60) {
			x.B.V = g.lits[0]
			if len(x.B.V) > 60 || g.r.Chance(500) {
				x.B.V = "a"
			}
		}
		if x.B.T != nil && (g.r.Chance(650) || len(x.B.T) > 6) {
			x.B.T = [][2]string{{"__name__", "a"}}
		}
		if g.r.Chance(600) {
			x.B.K = x.A.K
		}
	case p.Prop == "C09" || p.Prop == "C10" || p.Prop == "C11" || p.Prop == "C23":
		x.A, x.B = g.stateless(), g.stateless()
	default:
		return
	}
	for _, op := range []*Op{&x.A, &x.B} {
		if op.S != nil {
			op.S = &Sink{Kind: "rec"}
		}
	}
	top := 1 << uint([]int{7, 8, 8, 15, 16, 16, 16}[g.r.Intn(7)])
	x.N = top - 1
	if g.r.Chance(500) {
		x.N = top - 2 // a counter that leaves out zero
	}
	if g.r.Chance(200) {
		x.N = top + 2 - g.r.Intn(8)
	}
	if g.r.Chance(700) {
		p.Env = 0 // nothing is collected from a pool
	}
	p.Wear = x
	if len(as) > 0 && x.A.S == nil || x.A.S != nil && g.r.Chance(700) {
		if p.Prop == "C05" {
			p.Tail = append([]Op{x.A}, p.Tail...)
		} else if len(p.Clients) > 0 {
			p.Clients[0] = append([]Op{x.A}, p.Clients[0]...)
		}
	}
}

// wear makes the calls of a plan's long life.
func (c *ctx) wear(w *world) *failure {
	x := c.p.Wear
	if x == nil || zz.RaceBuild {
		return nil
	}
	c.fault("a long life of the same calls before the run", 1)
	var f *failure
	stop := c.solo(c.p.Env, func() {
		n := x.N
		for i := 0; i <= n; i++ {
			op := &x.B
			if i == 0 {
				op = &x.A
			}
			r := &opRes{}
			zz.BeginOp(0)
			(&world{p: w.p, objs: w.objs}).safe(0, 0, op, r)
			if r.panicked != "" {
				f = failf("wear", "call %d %s: %s", i, op, r.panicked)
				return
			}
			if i == 1 && r.steps*int64(n) > 20000000 {
				n = lesser(n, 300)
			}
		}
	})
	if stop != "" {
		return failf("wear", "calls before the run: %s", stop)
	}
	return f
}

func (c *ctx) config(total int64) zz.Config {
	p := c.p
	s := p.Strat
	if s.Gap < 0 {
		n := int64(s.Budget + 1)
		s.Gap = int(total/n) + 1
	}
	return zz.Config{Record: !p.Fixed, Strategy: s, Seed: p.Sched, EnvSeed: p.Env, Plan: p.Decisions, First: p.First}
}

// concurrent runs the clients of the plan as simulated threads. afterwards
// runs as one more caller that starts when all others have finished or stalled.
func (c *ctx) concurrent(w *world, cfg zz.Config) (res [][]*opRes, tail []*opRes, z zz.Result) {
	p := c.p
	res = make([][]*opRes, len(p.Clients))
	var bodies []func()
	for i := range p.Clients {
		i := i
		ops := p.Clients[i]
		res[i] = newRes(len(ops))
		rs := res[i]
		bodies = append(bodies, func() {
			for j := range ops {
				zz.BeginOp(j)
				w.safe(i, j, &ops[j], rs[j])
			}
		})
	}
	if len(p.Tail) > 0 {
		tail = newRes(len(p.Tail))
		th := len(p.Clients)
		bodies = append(bodies, func() {
			for zz.Others() > 0 {
				zz.BeginOp(0)
				zz.Gosched()
			}
			for j := range p.Tail {
				zz.BeginOp(j)
				w.safe(th, j, &p.Tail[j], tail[j])
			}
		})
	}
	z = c.run(cfg, bodies)
	for i := range res {
		for j, r := range res[i] {
			c.account(&p.Clients[i][j], r)
		}
	}
	for j, r := range tail {
		c.account(&p.Tail[j], r)
	}
	return
}

func newRes(n int) []*opRes {
	l := make([]*opRes, n)
	for i := range l {
		l[i] = &opRes{}
	}
	return l
}

func (c *ctx) account(op *Op, r *opRes) {
	c.st.Ops++
	c.st.OpKinds[op.K]++
	c.st.Deliveries += int64(len(r.del))
	if r.fired != "" {
		c.st.Faults["sink "+r.fired]++
	}
	if r.steps > c.st.MaxOpSteps {
		c.st.MaxOpSteps = r.steps
	}
	c.note(r.out())
	if len(r.del) > 0 || r.ret == "true" || r.ret != "false" && r.ret != "n=0" && r.ret != "" {
		c.nt = true
	}
}

func (c *ctx) fault(kind string, n int) {
	if n > 0 {
		c.st.Faults[kind] += int64(n)
	}
}

// checkStop judges how a run of well-behaved callers ended.
func checkStop(z zz.Result, allowed ...string) *failure {
	if z.Stop == "" {
		return nil
	}
	for _, a := range allowed {
		if z.Stop == a {
			return nil
		}
	}
	switch z.Stop {
	case "budget":
		return failf("unbounded", "a call did not finish within the work budget")
	case "deadlock":
		return failf("blocked", "callers %v are blocked for ever", z.Stalled)
	}
	return failf("stop", "the run stopped: %s", z.Stop)
}

// checkRaces reports data races seen by the race detector since this run
// started.
func (c *ctx) checkRaces() *failure {
	if n := zz.RaceErrors() - c.races; n > 0 {
		return failf("race", "the race detector reported %d data race(s) between simulated callers (see standard error)", n)
	}
	return nil
}

// ---------------------------------------------------------------- normal forms

type normal struct {
	norm, raw string
	ok        bool
}

var normCache = map[string]normal{}

// norm is the normalized text (and, for compiled patterns, the raw text) the
// library gives a pattern in a fresh process.
func (c *ctx) norm(kind, text string) normal {
	k := kind + "\x00" + text
	if n, ok := normCache[k]; ok {
		return n
	}
	var n normal
	zz.ResetGlobals()
	r := zz.Run(zz.Config{OpBudget: budget}, []func(){func() {
		switch kind {
		case "glob":
			if g, err := glob.Parse(text); err == nil {
				n = normal{g.Node, g.Glob, true}
			}
		case "gglob":
			if g, err := gglob.Parse(text); err == nil {
				n = normal{g.Node, g.Glob, true}
			}
		case "tags":
			if t, err := gtags.ParseSeriesByTag(text); err == nil {
				n = normal{t.String(), "", true}
				if len(t) == 0 {
					n.raw = text
				}
			}
		}
	}})
	if r.Stop != "" || r.Panics[0] != nil {
		n = normal{}
	}
	if len(normCache) > 30000 {
		normCache = map[string]normal{}
	}
	normCache[k] = n
	return n
}

// ---------------------------------------------------------------- histories

type logEntry struct {
	c, j int
	op   *Op
	r    *opRes
}

// history runs the clients of the plan: registrations hold their matcher
// exclusively, everything else shares it. The log is in the order in which
// the lock was taken.
func (c *ctx) history(w *world, cfg zz.Config, setup bool) (log []logEntry, z zz.Result, stop string) {
	p := c.p
	zz.ResetGlobals()
	if setup {
		if stop = c.solo(p.Env, func() { w.objs = buildAll(p, -1) }); stop != "" {
			return
		}
		if p.Prop != "C05" {
			if f := c.wear(w); f != nil {
				stop = f.Msg
				return
			}
		}
	}
	var bodies []func()
	var all []*logEntry
	for i := range p.Clients {
		i := i
		ops := p.Clients[i]
		for j := range ops {
			all = append(all, &logEntry{i, j, &ops[j], &opRes{pos: -1}})
		}
		mine := all[len(all)-len(ops):]
		bodies = append(bodies, func() {
			for j := range ops {
				zz.BeginOp(j)
				w.locked(i, j, &ops[j], mine[j].r)
			}
		})
	}
	z = c.run(cfg, bodies)
	for _, e := range all {
		if e.r.pos >= 0 {
			log = append(log, *e)
		}
		c.account(e.op, e.r)
	}
	sort.SliceStable(log, func(i, j int) bool { return log[i].r.pos < log[j].r.pos })
	return
}

func (w *world) locked(th, j int, op *Op, r *opRes) {
	var mu *simsync.RWMutex
	if op.O >= 0 && op.O < len(w.objs) && isTree(w.objs[op.O].kind) {
		mu = &w.objs[op.O].mu
	}
	if mu != nil {
		if op.K == "reg" || op.K == "g.reg" {
			mu.Lock()
			defer mu.Unlock()
		} else {
			mu.RLock()
			defer mu.RUnlock()
		}
	}
	w.clock++
	r.pos = w.clock
	if w.capture && (op.K == "reg" || op.K == "g.reg") && mu != nil {
		r.before = w.objs[op.O].tablesString()
		w.safe(th, j, op, r)
		r.after = w.objs[op.O].tablesString()
		return
	}
	w.safe(th, j, op, r)
}
