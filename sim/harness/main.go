package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"syscall"
	"time"

	zz "MODULE/zzsimrt"
)

//go:embed sites.json
var sitesJSON []byte

type site struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

// planFor makes the plan of one run: run number n of the search with this seed.
func planFor(prop string, seed uint64, n int) *Plan {
	g := newGen(zz.Mix(seed, uint64(n)))
	p := &Plan{Prop: prop, Wide: g.wide}
	scenarios[prop].gen(g, p)
	if g.r.Chance(200) {
		p.spread(g)
	}
	p.Sched, p.Env = g.r.Uint64(), g.r.Uint64()
	if g.r.Chance(1) || p.Prop == "C05" && g.r.Chance(2) {
		g.wear(p)
	}
	if k := len(p.Clients); k > 1 {
		p.First = g.r.Intn(k)
	}
	return p
}

// spread gives the indices of the registrations other values: far apart, huge,
// around powers of two, in any order.
func (p *Plan) spread(g *gen) {
	step, base := 1, 0
	switch g.r.Intn(4) {
	case 0:
		base = []int{63, 120, 250, 1000, 1<<15 - 5, 1<<16 - 9, 1<<31 - 7, 1<<32 - 6, 1<<53 - 3, 1<<63 - 1<<22}[g.r.Intn(10)]
	case 1:
		step = []int{64, 128, 256, 1000, 1 << 16, 1 << 24, 1 << 32, 1 << 40}[g.r.Intn(8)]
	case 2:
		step, base = 1<<32+1, 5
	case 3:
		step = 0
	}
	salt := g.r.Uint64()
	f := func(i int) int {
		switch {
		case i < 0:
			return []int{-1 << 63, -1 << 32, -1 << 31, -1 << 16, -1 << 15, -256}[-i%6] - i - 1
		case step == 0:
			return int(zz.Mix(salt, uint64(i)) >> 11)
		}
		return base + i*step
	}
	for i := range p.Objs {
		for j := range p.Objs[i].Regs {
			p.Objs[i].Regs[j].Index = f(p.Objs[i].Regs[j].Index)
		}
	}
	p.eachOp(func(op *Op) {
		if op.K == "reg" || op.K == "g.reg" || op.K == "k.store" {
			op.I = f(op.I)
		}
	})
}

// evaluate executes a plan and judges it.
func evaluate(st *stats, p *Plan) (c *ctx, f *failure) {
	budget = defaultBudget
	switch p.Wide {
	case "":
	case "huge":
		budget *= 64
	default:
		budget *= 16
	}
	c = newCtx(st, p)
	defer func() {
		if x := recover(); x != nil {
			f = failf("harness", "the harness itself panicked: %s\n%s", zz.PanicString(x), debug.Stack())
		}
	}()
	f = scenarios[p.Prop].judge(c)
	return c, f
}

type runFailure struct {
	Run    int    `json:"run"`
	First  int    `json:"first"`
	Stride int    `json:"stride"`
	Class  string `json:"class"`
	Msg    string `json:"msg"`
}

type workerOut struct {
	Stats    *stats      `json:"stats"`
	Inter    []uint64    `json:"inter"`
	Shapes   []uint64    `json:"shapes"`
	Hit      []int       `json:"hit"`
	Switched []int       `json:"switched"`
	Pool     int64       `json:"pool"`
	Failure  *runFailure `json:"failure"`
}

func planHash(p *Plan) uint64 {
	q := *p
	q.Sched, q.Env = 0, 0
	b, _ := json.Marshal(&q)
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return h
}

type args map[string]string

func parseArgs(l []string) args {
	a := args{}
	for i := 0; i+1 < len(l); i += 2 {
		a[l[i]] = l[i+1]
	}
	return a
}

func (a args) num(k string, def int) int {
	if s, ok := a[k]; ok {
		n, err := strconv.Atoi(s)
		if err != nil {
			fatal("bad number %s %q", k, s)
		}
		return n
	}
	return def
}

func (a args) seed() uint64 {
	n, err := strconv.ParseUint(a["-seed"], 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "sim: "+format+"\n", a...)
	os.Exit(3)
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(path+".tmp", append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	if err := os.Rename(path+".tmp", path); err != nil {
		fatal("%v", err)
	}
}

func readJSON(path string, v interface{}) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, v)
}

// worker executes runs first, first+stride, ... below total.
func worker(a args) {
	prop, seed := a["-prop"], a.seed()
	first, stride, total := a.num("-first", 0), a.num("-stride", 1), a.num("-total", 100)
	deadline := time.Now().Add(time.Duration(a.num("-secs", 60)) * time.Second)
	prog, err := os.OpenFile(a["-out"]+".at", os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	if err != nil {
		fatal("%v", err)
	}
	st := newStats()
	o := &workerOut{Stats: st}
	for n := first; n < total && time.Now().Before(deadline); n += stride {
		if _, err := prog.WriteAt([]byte(fmt.Sprintf("%-20d", n)), 0); err != nil {
			fatal("%v", err)
		}
		p := planFor(prop, seed, n)
		c, f := evaluate(st, p)
		st.Runs++
		if p.Wide != "" {
			st.Counts["runs with very large "+map[string]string{"list": "lists", "parts": "paths", "tags": "tag sets",
				"long": "texts", "huge": "texts (64 KiB)", "set": "sets", "many": "matchers"}[p.Wide]]++
		}
		if c.nt {
			st.Nontrivial++
			st.Shapes[planHash(p)] = true
		}
		if len(st.Samples) < 1 && c.nt && n >= total/2 {
			st.Samples = append(st.Samples, fmt.Sprintf("run %d: %s strategy %+v", n, describe(p), p.Strat))
		}
		for i := range p.Objs {
			st.Objects[p.Objs[i].Kind]++
		}
		if f != nil {
			o.Failure = &runFailure{n, first, stride, f.Class, f.Msg}
			break
		}
		if (n/stride)%64 == 7 && !zz.RaceBuild {
			// the same run once more must be the same execution
			scratch := newStats()
			scratch.MaxOpSteps = 0
			d, f2 := evaluate(scratch, planFor(prop, seed, n))
			st.Determinism++
			if f2 != nil || d.digest != c.digest {
				st.Nondet = append(st.Nondet, fmt.Sprintf("run %d", n))
			}
		}
	}
	st.Races = int64(zz.RaceErrors())
	for h := range st.Inter {
		o.Inter = append(o.Inter, h)
	}
	for h := range st.Shapes {
		o.Shapes = append(o.Shapes, h)
	}
	for i := range zz.Hits {
		if zz.Hits[i] > 0 {
			o.Hit = append(o.Hit, i)
		}
		if zz.SwitchSites[i] > 0 {
			o.Switched = append(o.Switched, i)
		}
	}
	o.Pool = zz.PoolHits
	writeJSON(a["-out"], o)
}

// replayFile is what a violation leaves behind: everything needed to repeat it.
type replayFile struct {
	Property string   `json:"property"`
	Class    string   `json:"class"`
	Message  string   `json:"message"`
	Seed     uint64   `json:"seed"`
	Run      int      `json:"run"`
	Race     bool     `json:"race,omitempty"`
	Before   []int    `json:"before,omitempty"` // runs executed first in the same process
	Shrunk   bool     `json:"shrunk"`
	Reads    []string `json:"reads,omitempty"`
	Plan     *Plan    `json:"plan"`
	Digest   string   `json:"digest,omitempty"`
}

// one executes a replay file and reports how it went: exit 0 held, 1 violated.
func one(a args) {
	var rf replayFile
	if err := readJSON(a["-file"], &rf); err != nil {
		fatal("%v", err)
	}
	st := newStats()
	for _, n := range rf.Before {
		evaluate(st, planFor(rf.Property, rf.Seed, n))
	}
	c, f := evaluate(st, rf.Plan)
	r := map[string]interface{}{"digest": fmt.Sprintf("%016x", c.digest)}
	if f != nil {
		r["class"], r["msg"] = f.Class, f.Msg
	}
	r["trace"] = c.trace
	if a["-out"] != "" {
		writeJSON(a["-out"], r)
	}
	if a["-v"] != "" {
		fmt.Print(describe(rf.Plan))
		for _, d := range c.trace {
			fmt.Printf("switch: caller %d loses control in op %d after %d statements to caller %d\n", d.T, d.Op, d.Y, d.To)
		}
		fmt.Printf("execution digest %016x\n", c.digest)
		if f != nil {
			fmt.Printf("%s: %s\n", f.Class, f.Msg)
		}
	}
	if f != nil {
		os.Exit(1)
	}
}

func main() {
	debug.SetMaxStack(256 << 20)
	if !zz.RaceBuild && len(os.Args) > 1 && os.Args[1] != "drive" {
		// a run-away allocation ends this process, not the machine
		lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	if len(os.Args) < 2 {
		fatal("usage: sim worker|drive|one|shrink|replay|plan ...")
	}
	a := parseArgs(os.Args[2:])
	if p := a["-prop"]; p != "" {
		if _, ok := scenarios[p]; !ok {
			fatal("unknown property %q", p)
		}
	}
	switch os.Args[1] {
	case "worker":
		runtime.GOMAXPROCS(2)
		worker(a)
	case "one":
		one(a)
	case "shrink":
		shrinkMain(a)
	case "drive":
		drive(a)
	case "plan":
		p := planFor(a["-prop"], a.seed(), a.num("-run", 0))
		fmt.Print(describe(p))
		fmt.Printf("%+v first %d draw %d\n", p.Strat, p.First, p.Draw)
	default:
		fatal("unknown mode %q", os.Args[1])
	}
}
