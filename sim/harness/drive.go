package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	zz "MODULE/zzsimrt"
)

type decision = zz.Decision

var errTimeout = errors.New("timeout")

// runCmd runs a command and returns the first part of what it wrote to
// standard error.
func runCmd(cmd *exec.Cmd, secs int) (string, error) {
	var b bytes.Buffer
	cmd.Stderr = &limited{b: &b, n: 12000}
	if err := cmd.Start(); err != nil {
		return "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		return b.String(), err
	case <-time.After(time.Duration(secs) * time.Second):
		_ = cmd.Process.Kill()
		<-done
		return b.String(), errTimeout
	}
}

type limited struct {
	b *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	k := len(p)
	if k > l.n {
		p = p[:l.n]
	}
	l.n -= len(p)
	l.b.Write(p)
	return k, nil
}

// phase is one seeded search with one binary.
type phase struct {
	bin   string
	race  bool
	total int
	secs  int
}

type driver struct {
	a        args
	prop     string
	seed     uint64
	dir      string
	inter    map[uint64]bool
	shapes   map[uint64]bool
	hit      map[int]bool
	switched map[int]bool
	sum      *stats
	pool     int64
	race     *stats
	searchS  float64
	failure  *runFailure
	failRace bool
	failBin  string
	workers  int
}

func (d *driver) search(ph phase) {
	t0 := time.Now()
	type res struct {
		k    int
		text string
		err  error
	}
	ch := make(chan res, d.workers)
	out := func(k int) string { return filepath.Join(d.dir, fmt.Sprintf("w%d-%v.json", k, ph.race)) }
	for k := 0; k < d.workers; k++ {
		k := k
		cmd := exec.Command(ph.bin, "worker", "-prop", d.prop, "-seed", strconv.FormatUint(d.seed, 10),
			"-first", strconv.Itoa(k), "-stride", strconv.Itoa(d.workers), "-total", strconv.Itoa(ph.total),
			"-secs", strconv.Itoa(ph.secs), "-out", out(k))
		go func() {
			text, err := d.watch(cmd, out(k)+".at", ph.secs)
			ch <- res{k, text, err}
		}()
	}
	var fails []*runFailure
	sum := d.sum
	if ph.race {
		d.race = newStats()
		sum = d.race
	}
	for k := 0; k < d.workers; k++ {
		r := <-ch
		var o workerOut
		if err := readJSON(out(r.k), &o); err != nil {
			b, _ := os.ReadFile(out(r.k) + ".at")
			n, err2 := strconv.Atoi(strings.TrimSpace(string(b)))
			if err2 != nil {
				fatal("worker %d failed before its first run: %v\n%s", r.k, r.err, r.text)
			}
			class := "crash"
			if r.err == errTimeout {
				class = "hang"
			}
			fails = append(fails, &runFailure{n, r.k, d.workers, class, r.text})
			continue
		}
		if o.Failure != nil {
			if o.Failure.Class == "race" {
				o.Failure.Msg += "\n" + r.text
			}
			fails = append(fails, o.Failure)
		}
		merge(sum, o.Stats)
		for _, h := range o.Inter {
			d.inter[h] = true
		}
		for _, h := range o.Shapes {
			d.shapes[h] = true
		}
		for _, i := range o.Hit {
			d.hit[i] = true
		}
		for _, i := range o.Switched {
			d.switched[i] = true
		}
		d.pool += o.Pool
	}
	d.searchS += time.Since(t0).Seconds()
	sort.Slice(fails, func(i, j int) bool {
		// a judged failure says more than a process that died or hung
		if a, b := rank(fails[i].Class), rank(fails[j].Class); a != b {
			return a < b
		}
		return fails[i].Run < fails[j].Run
	})
	if len(fails) > 0 && d.failure == nil {
		d.failure, d.failRace, d.failBin = fails[0], ph.race, ph.bin
	}
}

func rank(class string) int {
	switch class {
	case "harness":
		return 3
	case "hang":
		return 2
	case "crash":
		return 1
	}
	return 0
}

// watch runs a worker and ends it when it makes no progress for a long time.
func (d *driver) watch(cmd *exec.Cmd, at string, secs int) (string, error) {
	var b bytes.Buffer
	cmd.Stderr = &limited{b: &b, n: 12000}
	if err := cmd.Start(); err != nil {
		return "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	last, when := "", time.Now()
	for {
		select {
		case err := <-done:
			return b.String(), err
		case <-time.After(time.Second):
		}
		s, _ := os.ReadFile(at)
		if string(s) != last {
			last, when = string(s), time.Now()
		}
		if time.Since(when) > 90*time.Second {
			_ = cmd.Process.Kill()
			<-done
			return b.String(), errTimeout
		}
	}
}

func merge(a, b *stats) {
	a.Runs += b.Runs
	a.Sims += b.Sims
	a.Steps += b.Steps
	a.Switches += b.Switches
	a.Forced += b.Forced
	a.Ops += b.Ops
	a.Deliveries += b.Deliveries
	a.Nontrivial += b.Nontrivial
	a.Determinism += b.Determinism
	a.Races += b.Races
	a.Nondet = append(a.Nondet, b.Nondet...)
	a.Samples = append(a.Samples, b.Samples...)
	if b.MaxOpSteps > a.MaxOpSteps {
		a.MaxOpSteps = b.MaxOpSteps
	}
	for _, x := range []struct{ a, b map[string]int64 }{{a.Faults, b.Faults}, {a.Counts, b.Counts}, {a.Objects, b.Objects}, {a.OpKinds, b.OpKinds}} {
		for k, v := range x.b {
			x.a[k] += v
		}
	}
}

// drive searches, minimises what it finds and writes the evidence.
func drive(a args) {
	t0 := time.Now()
	self, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	d := &driver{a: a, prop: a["-prop"], seed: a.seed(), inter: map[uint64]bool{}, shapes: map[uint64]bool{}, hit: map[int]bool{}, switched: map[int]bool{}, sum: newStats()}
	d.workers = runtime.NumCPU()
	if d.workers > 8 {
		d.workers = 8
	}
	d.dir, err = os.MkdirTemp(a["-tmp"], "drive")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(d.dir)
	d.search(phase{self, false, a.num("-runs", 1000), a.num("-secs", 100)})
	if d.failure == nil && a["-racebin"] != "" {
		d.search(phase{a["-racebin"], true, a.num("-raceruns", 1000), a.num("-racesecs", 100)})
	}
	code := 0
	violations := 0
	var rf *replayFile
	if d.failure != nil {
		rf = d.confirm()
		violations = 1
	}
	if rf == nil && d.prop == "C17" && len(d.sum.Nondet) > 0 {
		var n int
		fmt.Sscanf(d.sum.Nondet[0], "run %d", &n)
		rf = &replayFile{Property: d.prop, Class: "nondeterministic", Message: "two executions of the same plan in the same environment differ", Seed: d.seed, Run: n, Plan: planFor(d.prop, d.seed, n)}
		violations = 1
	}
	if rf != nil {
		path := filepath.Join(a["-replays"], fmt.Sprintf("%s-%d.json", d.prop, rf.Run))
		if err := os.MkdirAll(a["-replays"], 0o755); err != nil {
			fatal("%v", err)
		}
		writeJSON(path, rf)
		fmt.Printf("%s", describe(rf.Plan))
		fmt.Printf("%s: %s\n", rf.Class, rf.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, path)
		code = 1
	}
	d.evidence(time.Since(t0).Seconds(), violations)
	if code == 0 {
		fmt.Printf("ok property=%s runs=%d simulations=%d nontrivial=%d interleavings=%d steps=%d in %.1fs\n", d.prop, d.sum.Runs, d.sum.Sims, len(d.shapes), len(d.inter), d.sum.Steps, time.Since(t0).Seconds())
	}
	os.RemoveAll(d.dir)
	os.Exit(code)
}

// confirm repeats a failure in a fresh process, minimises it and repeats it
// again.
func (d *driver) confirm() *replayFile {
	f := d.failure
	if f.Class == "harness" {
		fatal("run %d: %s", f.Run, f.Msg)
	}
	rf := &replayFile{Property: d.prop, Class: f.Class, Message: f.Msg, Seed: d.seed, Run: f.Run, Race: d.failRace, Plan: planFor(d.prop, d.seed, f.Run)}
	file := filepath.Join(d.dir, "replay.json")
	writeJSON(file, rf)
	class, msg, digest, _ := external(d.failBin, file, 120)
	if class != f.Class && !(needsProcess(class) && needsProcess(f.Class)) {
		// does it need what the same process did before?
		for n := f.First; n < f.Run; n += f.Stride {
			rf.Before = append(rf.Before, n)
		}
		writeJSON(file, rf)
		class, msg, digest, _ = external(d.failBin, file, 600)
		if class != f.Class {
			fatal("run %d failed (%s: %s) but does not fail when repeated (%s %s)", f.Run, f.Class, f.Msg, class, msg)
		}
		rf.Digest = digest
		return rf
	}
	if class == "hang" {
		// real time proves nothing about the code under test
		fatal("run %d did not finish in real time, although its work is bounded: %s", f.Run, msg)
	}
	rf.Class, rf.Message, rf.Digest = class, msg, digest
	writeJSON(file, rf)
	cmd := exec.Command(d.failBin, "shrink", "-file", file, "-secs", strconv.Itoa(d.a.num("-shrink", 20)))
	text, err := runCmd(cmd, d.a.num("-shrink", 20)+90)
	if err != nil {
		fmt.Fprintf(os.Stderr, "sim: minimising ended early: %v %s\n", err, text)
	}
	var small replayFile
	if readJSON(file+".shrunk", &small) != nil {
		return rf
	}
	class, msg, digest, _ = external(d.failBin, file+".shrunk", 120)
	if class != rf.Class {
		fmt.Fprintf(os.Stderr, "sim: the minimised run does not fail in a fresh process (%s); keeping the original\n", class)
		return rf
	}
	_, _, again, _ := external(d.failBin, file+".shrunk", 120)
	if again != digest {
		fmt.Fprintf(os.Stderr, "sim: two replays differ: %s %s\n", digest, again)
	}
	small.Message, small.Digest = msg, digest
	return &small
}

var components = map[string]interface{}{
	"real": []string{"glob", "gglob", "gtags", "expand", "pkg/escape", "pkg/items", "pkg/utils (all statements, compiled from the working tree with a yield point before each)", "pkg/wildcards", "Go standard library (strings, regexp, strconv, ...)"},
	"stub": []string{"sync and sync/atomic (scheduler-aware)", "goroutines and channels of the code under test", "math/rand and math/rand/v2 (seeded stream with forced extremes)", "time.Now/Sleep/After (virtual clock)", "map iteration order (sorted, then seeded permutation)", "sync.Pool reuse (seeded)", "result sinks, where a run injects a fault"},
}

func (d *driver) evidence(wall float64, violations int) {
	if d.a["-evidence"] == "" {
		return
	}
	var sites []site
	_ = json.Unmarshal(sitesJSON, &sites)
	byFile := map[string][2]int{}
	reached, switched := 0, 0
	for _, s := range sites {
		x := byFile[s.File]
		x[1]++
		if d.hit[s.ID] {
			x[0]++
			reached++
		}
		if d.switched[s.ID] {
			switched++
		}
		byFile[s.File] = x
	}
	files := map[string]string{}
	for f, x := range byFile {
		files[f] = fmt.Sprintf("%d of %d", x[0], x[1])
	}
	samples := d.sum.Samples
	if len(samples) > 3 {
		samples = samples[:3]
	}
	for i := range samples {
		if len(samples[i]) > 4000 {
			samples[i] = samples[i][:4000] + "..."
		}
	}
	if len(samples) == 0 {
		n := int(d.sum.Runs) / 2
		samples = append(samples, show(describe(planFor(d.prop, d.seed, n))))
	}
	runs := d.sum.Runs
	cov := map[string]interface{}{
		"evaluations":                 d.sum.Runs,
		"distinct_nontrivial":         len(d.shapes),
		"rule":                        "one run is one generated plan (objects, registrations, callers' calls, faults, schedule and environment seeds), made from the seed and the run number alone; non-trivial: " + scenarios[d.prop].what + "; distinct: different plan",
		"samples":                     samples,
		"simulated_executions":        d.sum.Sims,
		"runs_per_hour":               int64(float64(runs) / (d.searchS + 1e-9) * 3600),
		"executions_per_hour":         int64(float64(d.sum.Sims) / (d.searchS + 1e-9) * 3600),
		"seeds":                       fmt.Sprintf("%d derived seeds, one per run, from VERIF_SEED=%d", runs, d.seed),
		"simulated_steps":             d.sum.Steps,
		"simulated_time":              "steps of the scheduler; the code under test reads no clock, so the virtual clock only advances where a call asks for it",
		"preemptions":                 d.sum.Switches,
		"other_context_switches":      d.sum.Forced,
		"distinct_interleavings":      len(d.inter),
		"interleaving_measure":        "different sequences of (statement where control was taken, caller that got it)",
		"calls":                       d.sum.Ops,
		"calls_by_kind":               d.sum.OpKinds,
		"deliveries":                  d.sum.Deliveries,
		"objects":                     d.sum.Objects,
		"faults_injected":             d.sum.Faults,
		"pool_objects_reused":         d.pool,
		"most_steps_of_one_call":      d.sum.MaxOpSteps,
		"step_budget_of_one_call":     int64(defaultBudget),
		"statements_reached":          fmt.Sprintf("%d of %d", reached, len(sites)),
		"statements_reached_per_file": files,
		"statements_preempted_at":     switched,
		"determinism_rechecked":       d.sum.Determinism,
		"determinism_mismatches":      d.sum.Nondet,
		"components":                  components,
		"worker_processes":            d.workers,
	}
	if d.race != nil {
		cov["race_detector"] = map[string]interface{}{
			"runs": d.race.Runs, "simulated_executions": d.race.Sims, "preemptions": d.race.Switches, "calls": d.race.Ops, "races": d.race.Races,
			"note": "the same search in a binary with the race detector; the scheduler creates no happens-before edges",
		}
	}
	if d.failure != nil {
		cov["failure"] = map[string]interface{}{"run": d.failure.Run, "class": d.failure.Class}
	}
	tier := d.a["-tier"]
	if tier == "" {
		tier = "quick"
	}
	writeJSON(d.a["-evidence"], map[string]interface{}{
		"property": d.prop, "tier": tier, "seed": d.seed, "level": "exploration",
		"coverage": cov,
		"assumptions": []string{
			"one simulated thread runs at a time and loses control only between statements of the repository's own packages, at synchronisation operations and inside result sinks; memory is sequentially consistent except where the race detector looks",
			"standard library calls are atomic steps",
			"inputs are drawn from the generator's input space described in DESIGN.md",
		},
		"wall_s": wall, "violations": violations,
	})
}
