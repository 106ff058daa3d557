package main

import (
	"fmt"
	"os"
	"os/exec"
	"time"
	"unicode/utf8"
)

// ---------------------------------------------------------------- minimisation

// A shrinker makes a failing plan smaller as long as it keeps failing in the
// same way.
type shrinker struct {
	best     *Plan
	msg      string
	class    string
	deadline time.Time
	external func(p *Plan) (class, msg string) // runs a candidate in a process of its own
	left     int
	tried    int
	save     func()
	full     map[string]bool
}

func (s *shrinker) over() bool { return time.Now().After(s.deadline) || s.left == 0 }

func (s *shrinker) try(p *Plan) bool {
	if s.over() {
		return false
	}
	fixup(p)
	if !p.valid() || p.size() >= s.best.size() {
		return false
	}
	k := p.hash()
	if s.full[k] {
		return false
	}
	s.full[k] = true
	s.left--
	s.tried++
	class, msg := "", ""
	if s.external != nil {
		class, msg = s.external(p)
	} else if _, f := evaluate(newStats(), p.clone()); f != nil {
		class, msg = f.Class, f.Msg
	}
	if class != s.class {
		return false
	}
	s.best, s.msg = p, msg
	s.save()
	return true
}

func (p *Plan) hash() string { return fmt.Sprintf("%x %d %d", planHash(p), p.Sched, p.Env) }

// fixup restores the redundancy inside a plan after an edit.
func fixup(p *Plan) {
	for i := range p.Objs {
		for j := range p.Objs[i].Regs {
			if r := &p.Objs[i].Regs[j]; r.Obj > 0 && r.Obj <= len(p.Objs) {
				r.Text = p.Objs[r.Obj-1].Text
			}
		}
	}
	p.eachOp(func(op *Op) {
		if op.K == "reg" && op.J > 0 && op.J <= len(p.Objs) {
			op.V = p.Objs[op.J-1].Text
		}
	})
}

func (p *Plan) eachOp(f func(op *Op)) {
	var sub func(op *Op)
	sub = func(op *Op) {
		f(op)
		if op.S != nil && op.S.Sub != nil {
			sub(op.S.Sub)
		}
	}
	for i := range p.Clients {
		for j := range p.Clients[i] {
			sub(&p.Clients[i][j])
		}
	}
	for j := range p.Tail {
		sub(&p.Tail[j])
	}
}

// opList returns list k: the ops of client k, or the tail.
func (p *Plan) opList(k int) *[]Op {
	if k < len(p.Clients) {
		return &p.Clients[k]
	}
	return &p.Tail
}

// dropObj removes object k and everything that uses it.
func (p *Plan) dropObj(k int) {
	uses := func(op *Op) bool {
		for o := op; o != nil; {
			if o.O == k || o.K == "reg" && o.J == k+1 {
				return true
			}
			if o.S == nil {
				break
			}
			o = o.S.Sub
		}
		return false
	}
	for i := 0; i <= len(p.Clients); i++ {
		l := p.opList(i)
		var keep []Op
		for j := range *l {
			if !uses(&(*l)[j]) {
				keep = append(keep, (*l)[j])
			}
		}
		*l = keep
	}
	p.Objs = append(p.Objs[:k], p.Objs[k+1:]...)
	for i := range p.Objs {
		var keep []Reg
		for _, r := range p.Objs[i].Regs {
			if r.Obj == k+1 {
				r.Obj = 0
			} else if r.Obj > k+1 {
				r.Obj--
			}
			keep = append(keep, r)
		}
		p.Objs[i].Regs = keep
	}
	p.eachOp(func(op *Op) {
		if op.O > k {
			op.O--
		}
		if op.K == "reg" && op.J > k+1 {
			op.J--
		}
	})
}

// lists tries to remove chunks of a list: n is its length, cut returns the plan
// without [i,j).
func (s *shrinker) lists(n func(p *Plan) int, cut func(p *Plan, i, j int)) {
	for size := n(s.best); size >= 1; size /= 2 {
		for i := 0; i < n(s.best) && !s.over(); {
			j := i + size
			if j > n(s.best) {
				j = n(s.best)
			}
			q := s.best.clone()
			cut(q, i, j)
			if !s.try(q) {
				i = j
			}
		}
	}
}

// text shortens and simplifies a string of the plan.
func (s *shrinker) text(get func(p *Plan) *string) {
	if !utf8.ValidString(*get(s.best)) { // byte by byte
		s.lists(func(p *Plan) int { return len(*get(p)) }, func(p *Plan, i, j int) {
			t := get(p)
			*t = (*t)[:i] + (*t)[j:]
		})
		return
	}
	n := func() int { return len([]rune(*get(s.best))) }
	for size := n(); size >= 1; size /= 2 {
		for i := 0; i < n() && !s.over(); {
			j := i + size
			if j > n() {
				j = n()
			}
			q := s.best.clone()
			t := get(q)
			rs := []rune(*t)
			*t = string(rs[:i]) + string(rs[j:])
			if !s.try(q) {
				i = j
			}
		}
	}
}

func frozenText(k string) bool {
	switch k {
	case "exp", "exptry", "expr", "le", "rr", "tree", "pc", "util", "r.parse", "x.ask", "c.new", "c.add":
		return true
	}
	return false
}

func (s *shrinker) edit(f func(p *Plan)) {
	q := s.best.clone()
	f(q)
	s.try(q)
}

func (s *shrinker) pass() {
	if s.best.Wear != nil {
		s.edit(func(p *Plan) { p.Wear = nil })
	}
	if s.best.Wear != nil {
		s.edit(func(p *Plan) { p.Wear.N = 0 })
		s.edit(func(p *Plan) { p.Wear.N /= 256 })
	}
	// callers and calls
	for k := 0; k < len(s.best.Clients) && len(s.best.Clients) > 1; {
		q := s.best.clone()
		q.Clients = append(q.Clients[:k], q.Clients[k+1:]...)
		q.Decisions = dropThread(q.Decisions, k)
		if !s.try(q) {
			k++
		}
	}
	for k := 0; k <= len(s.best.Clients); k++ {
		k := k
		s.lists(func(p *Plan) int {
			if k > len(p.Clients) {
				return 0
			}
			return len(*p.opList(k))
		}, func(p *Plan, i, j int) {
			l := p.opList(k)
			*l = append((*l)[:i], (*l)[j:]...)
			for d := range p.Decisions {
				if e := &p.Decisions[d]; e.T == k && e.Op >= j {
					e.Op -= j - i
				}
			}
		})
	}
	for k := len(s.best.Objs) - 1; k >= 0; k-- {
		k := k
		if k < len(s.best.Objs) {
			s.edit(func(p *Plan) { p.dropObj(k) })
		}
	}
	for k := range s.best.Objs {
		k := k
		s.lists(func(p *Plan) int { return len(p.Objs[k].Regs) }, func(p *Plan, i, j int) {
			p.Objs[k].Regs = append(p.Objs[k].Regs[:i], p.Objs[k].Regs[j:]...)
		})
		for r := range s.best.Objs[k].Regs {
			r := r
			s.edit(func(p *Plan) { p.Objs[k].Regs[r].Pre, p.Objs[k].Regs[r].Obj = false, 0 })
			s.edit(func(p *Plan) { p.Objs[k].Regs[r].Index = r })
		}
	}
	// faults and arguments
	each := func(f func(at func(p *Plan) *Op)) {
		for k := 0; k <= len(s.best.Clients); k++ {
			for j := 0; j < len(*s.best.opList(k)); j++ {
				for d := 0; d < 5; d++ {
					k, j, d := k, j, d
					at := func(p *Plan) *Op {
						if k > len(p.Clients) || j >= len(*p.opList(k)) {
							return nil
						}
						op := &(*p.opList(k))[j]
						for n := 0; n < d; n++ {
							if op.S == nil || op.S.Sub == nil {
								return nil
							}
							op = op.S.Sub
						}
						return op
					}
					if at(s.best) == nil {
						break
					}
					f(at)
				}
			}
		}
	}
	each(func(at func(p *Plan) *Op) {
		op := at(s.best)
		if op.S != nil {
			if op.S.Fault != "" {
				s.edit(func(p *Plan) { o := at(p); o.S.Fault, o.S.At, o.S.Sub = "", 0, nil })
				s.edit(func(p *Plan) { at(p).S.At = 0 })
			}
			s.edit(func(p *Plan) { at(p).S.Grow = 0 })
			if op.K != "b.sink" && op.K != "k.match" {
				s.edit(func(p *Plan) { at(p).S.Kind = "rec" })
			}
		}
		if op.B {
			s.edit(func(p *Plan) { at(p).B = false })
		}
		if op.K == "reg" && op.I > 9 {
			s.edit(func(p *Plan) { at(p).I = 9 })
		}
		if op.K != "tree" && op.K != "b.sink" && op.K != "k.match" && op.K != "d.own" {
			s.lists(func(p *Plan) int { return len(at(p).L) }, func(p *Plan, i, j int) {
				o := at(p)
				o.L = append(o.L[:i], o.L[j:]...)
			})
		}
		s.lists(func(p *Plan) int { return len(at(p).T) }, func(p *Plan, i, j int) {
			o := at(p)
			o.T = append(o.T[:i], o.T[j:]...)
		})
		op = at(s.best)
		if op.Bad || frozenText(op.K) {
			return
		}
		s.text(func(p *Plan) *string { return &at(p).V })
		for n := range op.T {
			n := n
			s.text(func(p *Plan) *string { return &at(p).T[n][1] })
		}
		for n := range op.L {
			n := n
			if op.K != "b.sink" && op.K != "k.match" && !(op.K == "d.own" && n == 0) {
				s.text(func(p *Plan) *string { return &at(p).L[n] })
			}
		}
	})
	for k := range s.best.Objs {
		k := k
		if s.best.Objs[k].Kind != "expr" {
			s.text(func(p *Plan) *string { return &p.Objs[k].Text })
		}
		for r := range s.best.Objs[k].Regs {
			r := r
			s.text(func(p *Plan) *string { return &p.Objs[k].Regs[r].Text })
		}
	}
	// schedule
	if s.best.Fixed {
		s.lists(func(p *Plan) int { return len(p.Decisions) }, func(p *Plan, i, j int) {
			p.Decisions = append(p.Decisions[:i], p.Decisions[j:]...)
		})
	}
	s.edit(func(p *Plan) { p.First = 0 })
}

func dropThread(l []decision, k int) (r []decision) {
	for _, d := range l {
		if d.T == k || d.To == k {
			continue
		}
		if d.T > k {
			d.T--
		}
		if d.To > k {
			d.To--
		}
		r = append(r, d)
	}
	return
}

// fix replaces the seeded schedule by the recorded list of its switches.
func (s *shrinker) fix() {
	if s.best.Fixed {
		return
	}
	if len(s.best.Clients) < 2 && len(s.best.Tail) == 0 {
		s.edit(func(p *Plan) { p.Fixed = true })
		return
	}
	var trace []decision
	if s.external != nil {
		trace = s.lastTrace()
	} else {
		c, f := evaluate(newStats(), s.best.clone())
		if f == nil || f.Class != s.class {
			return
		}
		trace = c.trace
	}
	if len(trace) > 16000 {
		return
	}
	q := s.best.clone()
	q.Fixed, q.Decisions = true, trace
	s.try(q)
}

var lastTrace []decision

func (s *shrinker) lastTrace() []decision { return lastTrace }

func (s *shrinker) run() {
	s.edit(func(p *Plan) { p.Fixed, p.Decisions = true, nil })
	s.fix()
	for !s.over() {
		before := s.best.size()
		s.pass()
		s.fix()
		if s.best.size() >= before {
			break
		}
	}
}

// external executes a replay file in a process of its own.
func external(bin, file string, secs int) (class, msg, digest string, trace []decision) {
	out := file + ".out"
	_ = os.Remove(out)
	cmd := exec.Command(bin, "one", "-file", file, "-out", out)
	text, err := runCmd(cmd, secs)
	var r struct {
		Class, Msg, Digest string
		Trace              []decision
	}
	if err2 := readJSON(out, &r); err2 != nil {
		_ = os.Remove(out)
		if err == errTimeout {
			return "hang", "the process did not finish within " + fmt.Sprint(secs) + " s", "", nil
		}
		return "crash", "the process died: " + text, "", nil
	}
	_ = os.Remove(out)
	if r.Class == "race" {
		r.Msg += "\n" + text
	}
	return r.Class, r.Msg, r.Digest, r.Trace
}

func needsProcess(class string) bool {
	return class == "race" || class == "crash" || class == "hang"
}

// shrinkMain minimises the plan of a replay file, in place.
func shrinkMain(a args) {
	var rf replayFile
	file := a["-file"]
	if err := readJSON(file, &rf); err != nil {
		fatal("%v", err)
	}
	secs := a.num("-secs", 20)
	s := &shrinker{
		best: rf.Plan, msg: rf.Message, class: rf.Class, full: map[string]bool{},
		deadline: time.Now().Add(time.Duration(secs) * time.Second), left: 20000,
	}
	s.save = func() {
		r := rf
		r.Plan, r.Message, r.Shrunk = s.best, s.msg, true
		writeJSON(file+".shrunk", &r)
	}
	if needsProcess(rf.Class) {
		bin, err := os.Executable()
		if err != nil {
			fatal("%v", err)
		}
		s.left = a.num("-max", 250)
		s.external = func(p *Plan) (string, string) {
			r := rf
			r.Plan = p
			writeJSON(file+".try", &r)
			class, msg, _, trace := external(bin, file+".try", 30)
			if class == s.class {
				lastTrace = trace
			}
			_ = os.Remove(file + ".try")
			return class, msg
		}
	}
	s.run()
	fmt.Printf("minimised with %d candidates\n", s.tried)
}
