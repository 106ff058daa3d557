package main

import (
	"fmt"
	"sort"
	"strings"

	zz "MODULE/zzsimrt"
)

// A scenario generates plans for one property and judges their execution.
type scenario struct {
	gen   func(g *gen, p *Plan)
	judge func(c *ctx) *failure
	what  string // what makes a run non-trivial
}

var scenarios = map[string]scenario{
	"C01": {genC01, judgeC01, "a plan in which at least one call matched or delivered something while callers were interleaved"},
	"C02": {genC02, judgeC02, "at least one sink failure or stall actually happened during a match"},
	"C03": {genC03, judgeC03, "at least one registration was accepted and at least one refused"},
	"C04": {genC04, judgeC04, "at least one registration was refused and a later call delivered something"},
	"C05": {genC05, judgeC05, "at least one match delivered something after two or more accepted registrations"},
	"C06": {genC06, judgeC06, "two or more registrations whose arrival order differed between replicas, and at least one delivery"},
	"C07": {genC07, judgeC07, "at least one value for which the compared views delivered something"},
	"C13": {genC13, judgeC13, "at least one match was re-entered from its sink"},
	"C15": {genC15, judgeC15, "a compiled pattern was registered and a match delivered something"},
}

var kinds = []string{"glob", "gglob", "tags"}

func treeOf(kind string) string {
	switch kind {
	case "glob":
		return "gtree"
	case "gglob":
		return "ggtree"
	}
	return "ttree"
}

// ---------------------------------------------------------------- building blocks

// regs draws conflict-free registrations.
func (g *gen) regs(kind string, n int) []Reg {
	var l []Reg
	next := g.r.Intn(3)
	seen := map[string]bool{}
	for len(l) < n {
		t := g.pattern(kind)
		if seen[t] {
			n--
			continue
		}
		seen[t] = true
		l = append(l, Reg{Text: t, Index: next, Pre: g.r.Chance(200)})
		next += 1 + g.r.Intn(3)
	}
	// indices in a shuffled order
	if g.r.Chance(500) {
		for i := len(l) - 1; i > 0; i-- {
			j := g.r.Intn(i + 1)
			l[i].Index, l[j].Index = l[j].Index, l[i].Index
		}
	}
	return l
}

func texts(regs []Reg) []string {
	var l []string
	for i := range regs {
		l = append(l, regs[i].Text)
	}
	return l
}

func (g *gen) sinkSpec() *Sink {
	switch g.r.Intn(8) {
	case 0:
		return &Sink{Kind: "all", Grow: g.r.Intn(4)}
	case 1:
		return &Sink{Kind: []string{"min", "idx", "str"}[g.r.Intn(3)], Grow: g.r.Intn(4)}
	}
	return &Sink{Kind: "rec"}
}

// matchOp draws a match on object i of the plan.
func (g *gen) matchOp(p *Plan, i int, pats []string) Op {
	o := &p.Objs[i]
	kind := kindOf(o.Kind)
	op := Op{K: "m", O: i}
	switch kind {
	case "glob":
		op.V = g.value(kind, pats)
	case "gglob":
		op.V = g.value(kind, pats)
		if g.r.Chance(400) {
			op.K = "mp"
		}
	case "tags":
		op.T = g.tags(pats)
		if g.r.Chance(400) {
			op.K = "mm"
		}
	}
	if isTree(o.Kind) {
		op.S = g.sinkSpec()
	}
	return op
}

// sharedObjs adds compiled objects of all kinds to a plan; some of the batch
// matchers register the plan's own compiled patterns.
func (g *gen) sharedObjs(p *Plan) {
	n := 1 + g.r.Intn(3)
	for k := 0; k < n; k++ {
		kind := kinds[g.r.Intn(3)]
		if g.r.Chance(400) {
			p.Objs = append(p.Objs, ObjSpec{Kind: kind, Text: g.pattern(kind)})
		}
		if g.r.Chance(750) {
			regs := g.regs(kind, g.count(6, 12, 40))
			for i := range regs {
				for j := range p.Objs {
					if p.Objs[j].Kind == kind && p.Objs[j].Text == regs[i].Text {
						regs[i].Obj = j + 1
					}
				}
			}
			if j := len(p.Objs) - 1; j >= 0 && p.Objs[j].Kind == kind && g.r.Chance(500) {
				dup := false
				for i := range regs {
					dup = dup || regs[i].Text == p.Objs[j].Text
				}
				if !dup {
					regs = append(regs, Reg{Text: p.Objs[j].Text, Index: 1000, Obj: j + 1})
				}
			}
			p.Objs = append(p.Objs, ObjSpec{Kind: treeOf(kind), Regs: regs})
		}
	}
	if len(p.Objs) == 0 {
		kind := kinds[g.r.Intn(3)]
		p.Objs = append(p.Objs, ObjSpec{Kind: treeOf(kind), Regs: g.regs(kind, 1+g.r.Intn(6))})
	}
}

func (o *ObjSpec) pats() []string {
	if isTree(o.Kind) {
		return texts(o.Regs)
	}
	return []string{o.Text}
}

// crowd now and then makes many callers of a few, with few calls each.
func (g *gen) crowd(n, each int) (int, int) {
	if g.r.Chance(25) {
		return 5 + g.r.Intn(16), 2
	}
	return n, each
}

// spell now and then makes a long spell of calls of a few: what counts calls or
// remembers results has its say only then.
func (g *gen) spell(n int) int {
	if g.r.Chance(4) {
		return n + []int{100, 300, 700, 1500}[g.r.Intn(4)]
	}
	return n
}

// spells is a spell for properties that judge each call by a run of its own.
func (g *gen) spells(n, each int) int {
	if n < 5 && g.r.Chance(2) {
		return []int{40, 100, 300}[g.r.Intn(3)]
	}
	return each
}

// ---------------------------------------------------------------- C01

func genC01(g *gen, p *Plan) {
	g.sharedObjs(p)
	n, each := g.crowd(2+g.r.Intn(3), 5)
	each = g.spells(n, each)
	for i := 0; i < n; i++ {
		var ops []Op
		var same *Op
		for k := 1 + g.r.Intn(each); k > 0; k-- {
			i := g.r.Intn(len(p.Objs))
			op := g.matchOp(p, i, p.Objs[i].pats())
			if same != nil && g.r.Chance(150) {
				op = *same
			}
			same = &op
			ops = append(ops, op)
			if g.r.Chance(60) && !isTree(p.Objs[i].Kind) {
				ops = append(ops, Op{K: "str", O: i})
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	p.Strat = g.strategy()
	if g.r.Chance(300) {
		p.Tail = append(p.Tail, p.Clients[0]...)
	}
}

func judgeC01(c *ctx) *failure {
	p := c.p
	// the race detector is asked first: references run in between would hide
	// first-use races of package state
	var total int64
	refs := make([][]*opRes, len(p.Clients))
	for i := range p.Clients {
		for j := range p.Clients[i] {
			r := c.ref(&p.Clients[i][j])
			refs[i] = append(refs[i], r)
			total += r.steps
		}
	}
	w := &world{p: p}
	zz.ResetGlobals()
	if stop := c.solo(p.Env, func() { w.objs = buildAll(p, -1) }); stop != "" {
		return nil // no matcher to share: not this property's business
	}
	if f := c.wear(w); f != nil {
		return f
	}
	noTail := p.Tail
	p.Tail = nil
	res, _, z := c.concurrent(w, c.config(total))
	p.Tail = noTail
	if f := checkStop(z); f != nil {
		return f
	}
	for i := range res {
		for j, r := range res[i] {
			if r.out() != refs[i][j].out() {
				return failf("isolation", "caller %d op %d %s\n  alone:       %s\n  interleaved: %s", i, j, &p.Clients[i][j], show(refs[i][j].out()), show(r.out()))
			}
		}
	}
	if f := c.checkRaces(); f != nil {
		return f
	}
	// the shared objects must be unharmed
	after := newRes(len(p.Tail))
	if stop := c.solo(p.Env, func() {
		for j := range p.Tail {
			zz.BeginOp(j)
			w.safe(0, j, &p.Tail[j], after[j])
		}
	}); stop != "" {
		return failf("after", "calls after the concurrent phase: %s", stop)
	}
	for j, r := range after {
		if ref := c.ref(&p.Tail[j]); r.out() != ref.out() {
			return failf("after", "op %s after the concurrent phase\n  fresh matcher: %s\n  this matcher:  %s", &p.Tail[j], show(ref.out()), show(r.out()))
		}
	}
	if s := w.changed(); s != "" {
		return failf("changed", "%s", s)
	}
	c.nt = c.nt && (z.Switches > 0 || z.Forced > 0)
	return nil
}

// ---------------------------------------------------------------- C02

func genC02(g *gen, p *Plan) {
	g.sharedObjs(p)
	trees := 0
	for i := range p.Objs {
		if isTree(p.Objs[i].Kind) {
			trees++
		}
	}
	if trees == 0 {
		kind := kinds[g.r.Intn(3)]
		p.Objs = append(p.Objs, ObjSpec{Kind: treeOf(kind), Regs: g.regs(kind, g.count(6, 10, 30))})
	}
	n, each := g.crowd(1+g.r.Intn(3), 5)
	fault := 550
	if each == 5 && g.r.Chance(40) {
		// abandoned again and again
		each, fault = 40, 900
	}
	stalls := 0
	for i := 0; i < n; i++ {
		var ops []Op
		for k := 1 + g.r.Intn(each); k > 0; k-- {
			i := g.r.Intn(len(p.Objs))
			op := g.matchOp(p, i, p.Objs[i].pats())
			if op.S != nil && g.r.Chance(fault) {
				op.S = &Sink{Kind: "rec", Fault: []string{"panic", "panic", "goexit"}[g.r.Intn(3)], At: g.r.Intn(3)}
				if g.r.Chance(500) {
					op.S.At = 0
				}
				if g.r.Chance(120) && stalls < 2 {
					op.S.Fault = "stall"
					stalls++
				}
			}
			ops = append(ops, op)
		}
		p.Clients = append(p.Clients, ops)
	}
	// afterwards: matches on everything, sometimes after one more registration
	for i := range p.Objs {
		o := &p.Objs[i]
		pats := o.pats()
		if isTree(o.Kind) && g.r.Chance(400) {
			t := g.pattern(kindOf(o.Kind))
			p.Tail = append(p.Tail, Op{K: "reg", O: i, V: t, I: 2000 + g.r.Intn(3), B: g.r.Chance(200)})
			pats = append(pats, t)
		}
		for k := 1 + g.r.Intn(2); k > 0; k-- {
			p.Tail = append(p.Tail, g.matchOp(p, i, pats))
		}
	}
	p.Strat = g.strategy()
}

func judgeC02(c *ctx) *failure {
	p := c.p
	var total int64
	refs := make([][]*opRes, len(p.Clients))
	for i := range p.Clients {
		for j := range p.Clients[i] {
			r := c.ref(&p.Clients[i][j])
			refs[i] = append(refs[i], r)
			total += r.steps
		}
	}
	// the calls made afterwards, on matchers that never saw an abandoned match
	tailRef := newRes(len(p.Tail))
	rw := &world{p: p}
	if stop := c.pristine(func() {
		rw.objs = buildAll(p, -1)
		for j := range p.Tail {
			zz.BeginOp(j)
			rw.safe(0, j, &p.Tail[j], tailRef[j])
		}
	}); stop != "" {
		return nil
	}
	w := &world{p: p}
	zz.ResetGlobals()
	if stop := c.solo(p.Env, func() { w.objs = buildAll(p, -1) }); stop != "" {
		return nil
	}
	if f := c.wear(w); f != nil {
		return f
	}
	res, tail, z := c.concurrent(w, c.config(total))
	if f := checkStop(z, "quiescent"); f != nil {
		return f
	}
	stalled := map[int]bool{}
	fired := false
	for i := range res {
		for j, r := range res[i] {
			op, ref := &p.Clients[i][j], refs[i][j]
			if r.fired != "" {
				fired = true
				if n := op.S.At + 1; len(r.del) < n || len(ref.del) < n || fmt.Sprint(r.del[:n]) != fmt.Sprint(ref.del[:n]) {
					return failf("prefix", "caller %d op %d %s delivered before it was abandoned\n  %v\ninstead of\n  %v", i, j, op, r.del, ref.del)
				}
				if r.stalled {
					stalled[i] = true
					break
				}
				continue
			}
			if r.out() != ref.out() {
				return failf("others", "caller %d op %d %s\n  without abandoned calls: %s\n  with:                    %s", i, j, op, show(ref.out()), show(r.out()))
			}
		}
	}
	for _, i := range z.Stalled {
		if !stalled[i] {
			return failf("blocked", "caller %d never finished", i)
		}
	}
	for j, r := range tail {
		if r.out() != tailRef[j].out() {
			return failf("after", "op %s after abandoned calls\n  matcher without abandoned calls: %s\n  this matcher:                    %s", &p.Tail[j], show(tailRef[j].out()), show(r.out()))
		}
	}
	if s := w.changed(); s != "" {
		return failf("changed", "%s", s)
	}
	c.nt = fired
	return nil
}

// ---------------------------------------------------------------- histories

// variant writes a pattern differently without changing its normal form (or
// changes it a little).
func (g *gen) variant(kind, s string) string {
	for try := 0; try < 4; try++ {
		t := s
		switch g.r.Intn(6) {
		case 0:
			if i := strings.IndexByte(s, '*'); i >= 0 {
				t = s[:i] + "*" + s[i:]
			}
		case 1:
			if i, j := strings.IndexByte(s, '{'), strings.IndexByte(s, '}'); i >= 0 && j > i {
				v := strings.Split(s[i+1:j], ",")
				k := g.r.Intn(len(v))
				v = append(append([]string(nil), v[k:]...), v[:k]...)
				if g.r.Chance(300) {
					v = append(v, v[0])
				}
				t = s[:i+1] + strings.Join(v, ",") + s[j:]
			}
		case 2:
			if i, j := strings.IndexByte(s, '['), strings.IndexByte(s, ']'); i >= 0 && j > i && !strings.Contains(s[i:j], "-") {
				r := []rune(s[i+1 : j])
				for a, b := 0, len(r)-1; a < b; a, b = a+1, b-1 {
					r[a], r[b] = r[b], r[a]
				}
				t = s[:i+1] + string(r) + s[j:]
			}
		case 3:
			if kind == "gglob" {
				if strings.HasSuffix(s, ".") {
					t = s[:len(s)-1]
				} else {
					t = s + "."
				}
			}
		case 4:
			if kind == "tags" {
				if cs, ok := splitQuery(s); ok && len(cs) > 0 {
					k := g.r.Intn(len(cs))
					var b []string
					for _, x := range append(append([]string(nil), cs[k:]...), cs[:k]...) {
						if strings.Contains(x, "'") {
							b = append(b, `"`+x+`"`)
						} else {
							b = append(b, "'"+x+"'")
						}
					}
					t = "seriesByTag(" + strings.Join(b, ", ") + ")"
				}
			}
		case 5:
			r := []rune(s)
			for i, x := range r {
				if x >= 'a' && x <= 'z' && kind != "tags" && !strings.ContainsAny(s, "[{") && g.r.Chance(300) {
					t = string(r[:i]) + "[" + string(x) + "]" + string(r[i+1:])
					break
				}
			}
		}
		if t != s && modelOf(kind, t) != nil {
			return t
		}
	}
	return s
}

type histOpts struct {
	kinds    []string
	regs     int // number of registrations
	matches  int // number of other ops
	clients  int
	badIndex int // per mille
	dup      int
	bad      int
	pool     bool // register from compiled objects
	tables   int
}

// history draws clients that register into and match on the batch matchers of
// the plan (objects first..last).
func (g *gen) history(p *Plan, trees []int, h histOpts, match func(i int, pats []string) Op) {
	pats := map[int][]string{}
	next := map[int]int{}
	used := map[int][]int{}
	p.Clients = make([][]Op, h.clients)
	all := h.regs + h.matches
	left := h.regs
	for k := 0; k < all; k++ {
		cl := g.r.Intn(h.clients)
		i := trees[g.r.Intn(len(trees))]
		kind := kindOf(p.Objs[i].Kind)
		if left > 0 && (g.r.Intn(all-k) < left || k == 0) {
			left--
			op := Op{K: "reg", O: i, B: g.r.Chance(250)}
			op.I = next[i]
			if g.r.Chance(300) {
				op.I += g.r.Intn(4)
			}
			if op.I >= next[i] {
				next[i] = op.I + 1
			}
			if g.r.Chance(h.badIndex) {
				if len(used[i]) > 0 && g.r.Chance(700) {
					op.I = used[i][g.r.Intn(len(used[i]))]
				} else {
					op.I = -1 - g.r.Intn(3)
				}
			}
			switch {
			case g.r.Chance(h.bad):
				op.V, op.Bad = g.malformed(kind), true
			case len(pats[i]) > 0 && g.r.Chance(h.dup):
				op.V = g.pick(pats[i])
				if g.r.Chance(600) {
					op.V = g.variant(kind, op.V)
				}
			default:
				op.V = g.pattern(kind)
			}
			if h.pool && g.r.Chance(700) {
				for try := 0; try < 5; try++ {
					j := g.r.Intn(len(p.Objs))
					if p.Objs[j].Kind == kind {
						op.V, op.Bad, op.J, op.B = p.Objs[j].Text, false, j+1, false
						break
					}
				}
			}
			if !op.Bad {
				pats[i] = append(pats[i], op.V)
				if op.I >= 0 {
					used[i] = append(used[i], op.I)
				}
			}
			p.Clients[cl] = append(p.Clients[cl], op)
			continue
		}
		p.Clients[cl] = append(p.Clients[cl], match(i, pats[i]))
	}
}

// model follows a history.
type histModel struct {
	c    *ctx
	regs map[int]*registry
}

func (m *histModel) registry(i int) *registry {
	if m.regs[i] == nil {
		m.regs[i] = newRegistry(kindOf(m.c.p.Objs[i].Kind))
	}
	return m.regs[i]
}

// regTexts returns the raw and normalized texts of a registration.
func (c *ctx) regTexts(op *Op) (raw, norm string, ok bool) {
	kind := kindOf(c.p.Objs[op.O].Kind)
	text := c.p.text(op)
	n := c.norm(kind, text)
	raw = text
	if (op.B || op.J > 0) && n.ok {
		raw = n.raw
	}
	return raw, n.norm, n.ok
}

// wantDeliveries is what a match must report given the accepted patterns.
func wantDeliveries(r *registry, op *Op) (want []delivery) {
	for i := range r.entries {
		e := &r.entries[i]
		if r.kind == "tags" && e.p.matchTags(op.T) || r.kind != "tags" && e.p.matchText(op.V) {
			want = append(want, delivery{e.Norm, e.Index})
		}
	}
	return
}

// compareDeliveries judges a match against the model: exactly once each, the
// plain matcher at least once.
func compareDeliveries(kind string, want, got []delivery) string {
	n := map[delivery]int{}
	for _, d := range want {
		n[d]++
	}
	seen := map[delivery]int{}
	for _, d := range got {
		if n[d] == 0 {
			return fmt.Sprintf("reported %q/%d, which is not an accepted pattern that matches", d.s, d.i)
		}
		seen[d]++
		if seen[d] > n[d] && kind != "glob" {
			return fmt.Sprintf("reported %q/%d more than once", d.s, d.i)
		}
	}
	for d := range n {
		if seen[d] == 0 {
			return fmt.Sprintf("did not report %q/%d", d.s, d.i)
		}
	}
	return ""
}

// ---------------------------------------------------------------- C03

func genC03(g *gen, p *Plan) {
	kind := kinds[g.r.Intn(3)]
	p.Objs = []ObjSpec{{Kind: treeOf(kind)}}
	h := histOpts{regs: g.count(10, 40, 150), clients: 1 + g.r.Intn(3), badIndex: 120, dup: 250, bad: 40}
	if g.r.Chance(300) {
		h.badIndex, h.dup = 300, 500
	}
	g.history(p, []int{0}, h, nil)
	for i := range p.Clients {
		for j := range p.Clients[i] {
			op := &p.Clients[i][j]
			if g.r.Chance(10) {
				op.V, op.Bad, op.B = "", false, false
			}
			if op.Bad {
				op.B = false
			}
		}
	}
	p.Strat = g.strategy()
}

func judgeC03(c *ctx) *failure {
	p := c.p
	type rt struct {
		raw, norm string
		ok        bool
	}
	pre := map[string]rt{}
	for i := range p.Clients {
		for j := range p.Clients[i] {
			op := &p.Clients[i][j]
			if op.V != "" && !op.Bad {
				raw, norm, ok := c.regTexts(op)
				pre[op.key()] = rt{raw, norm, ok}
			}
		}
	}
	w := &world{p: p}
	log, z, stop := c.history(w, c.config(3000), true)
	if stop != "" {
		return failf("build", "%s", stop)
	}
	if f := checkStop(z); f != nil {
		return f
	}
	m := &histModel{c: c, regs: map[int]*registry{}}
	acc, ref := 0, 0
	for _, e := range log {
		op, r := e.op, e.r
		reg := m.registry(op.O)
		where := fmt.Sprintf("registration %d (caller %d) %s returned %s", r.pos, e.c, op, show(r.out()))
		if r.panicked != "" {
			return failf("panic", "%s", where)
		}
		if op.V == "" {
			continue
		}
		if op.Bad {
			if r.err == nil {
				return failf("malformed", "%s: a malformed pattern was accepted", where)
			}
			ref++
			continue
		}
		t := pre[op.key()]
		why, holder := "", -1
		if t.ok {
			why, holder = reg.decide(t.raw, t.norm, op.I)
		} else {
			// well-formed, but a fresh process does not parse it
			return failf("refused", "%s: the pattern is well-formed but a fresh process does not parse it", where)
		}
		switch why {
		case "":
			if r.err != nil {
				return failf("refused", "%s: nothing holds this pattern or index", where)
			}
			if r.norm != t.norm || r.n != op.I {
				return failf("returned", "%s: the normalized text is %q", where, t.norm)
			}
			reg.accept(t.raw, t.norm, op.I, nil)
			acc++
		default:
			ref++
			if r.err == nil {
				return failf("accepted", "%s: must be refused (%s)", where, why)
			}
			if why == "dup" && r.n != holder {
				return failf("holder", "%s: the pattern is held by index %d", where, holder)
			}
		}
	}
	// the tables list exactly the accepted patterns
	for i := range p.Objs {
		byText, byIndex := w.objs[i].tables()
		reg := m.registry(i)
		if s := diffMaps(byText, reg.byText); s != "" {
			return failf("table", "pattern table: %s", s)
		}
		if s := diffMaps(byIndex, reg.byIndex); s != "" {
			return failf("table", "index table: %s", s)
		}
	}
	c.fault("refused registration", ref)
	c.nt = acc > 0 && ref > 0
	return nil
}

func diffMaps[K comparable, V comparable](got, want map[K]V) string {
	var l []string
	for k, v := range want {
		if x, ok := got[k]; !ok {
			l = append(l, fmt.Sprintf("%#v is missing (want %#v)", k, v))
		} else if x != v {
			l = append(l, fmt.Sprintf("%#v is %#v instead of %#v", k, x, v))
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok {
			l = append(l, fmt.Sprintf("%#v=%#v should not be there", k, v))
		}
	}
	sort.Strings(l)
	if len(l) > 3 {
		l = l[:3]
	}
	return strings.Join(l, "; ")
}

// ---------------------------------------------------------------- C04

func genC04(g *gen, p *Plan) {
	kind := kinds[g.r.Intn(3)]
	p.Objs = []ObjSpec{{Kind: treeOf(kind)}}
	h := histOpts{regs: g.count(8, 25, 80), clients: 1, badIndex: 150, dup: 200, bad: 250}
	if g.r.Chance(400) {
		h.clients = 2 + g.r.Intn(2)
	}
	h.matches = 3 + h.regs/2
	g.history(p, []int{0}, h, func(i int, pats []string) Op { return g.matchOp(p, i, pats) })
	// what is registered last is asked for last
	var pats []string
	for i := range p.Clients {
		for j := range p.Clients[i] {
			op := &p.Clients[i][j]
			if op.Bad && g.r.Chance(850) {
				op.B = false
			}
			if op.K == "reg" && !op.Bad {
				pats = append(pats, op.V)
			}
		}
	}
	for k := 0; k < 3; k++ {
		p.Tail = append(p.Tail, g.matchOp(p, 0, pats))
	}
	if h.clients > 1 {
		p.Strat = g.strategy()
	}
}

func judgeC04(c *ctx) *failure {
	p := c.p
	w1 := &world{p: p, capture: true}
	log, z, stop := c.history(w1, c.config(3000), true)
	if stop != "" {
		return failf("build", "%s", stop)
	}
	if f := checkStop(z); f != nil {
		return f
	}
	tail := newRes(len(p.Tail))
	stop = c.solo(p.Env, func() {
		for j := range p.Tail {
			zz.BeginOp(j)
			w1.safe(0, j, &p.Tail[j], tail[j])
		}
	})
	if stop != "" {
		return failf("stop", "matches after the history: %s", stop)
	}
	for j, r := range tail {
		c.account(&p.Tail[j], r)
		log = append(log, logEntry{-1, j, &p.Tail[j], r})
	}
	m := &histModel{c: c, regs: map[int]*registry{}}
	skip := map[int]bool{}
	for k, e := range log {
		op, r := e.op, e.r
		where := fmt.Sprintf("op %d (caller %d) %s returned %s", r.pos, e.c, op, show(r.out()))
		if r.panicked != "" && op.K == "reg" {
			return failf("panic", "%s", where)
		}
		if op.K != "reg" {
			continue
		}
		if op.Bad && r.err == nil {
			return failf("malformed", "%s: a malformed pattern was accepted", where)
		}
		if r.err != nil {
			skip[k] = true
			if r.before != r.after {
				return failf("table", "%s: the tables changed from %s to %s", where, show(r.before), show(r.after))
			}
			continue
		}
		if op.V == "" || op.Bad {
			continue
		}
		if raw, norm, ok := c.regTexts(op); ok {
			reg := m.registry(op.O)
			if why, _ := reg.decide(raw, norm, op.I); why != "" {
				return failf("accepted", "%s: must be refused (%s)", where, why)
			}
			reg.accept(raw, norm, op.I, nil)
		}
	}
	// the same history without the refused registrations
	w2 := &world{p: p}
	twin := newRes(len(log))
	stop = c.pristine(func() {
		w2.objs = buildAll(p, -1)
		for k, e := range log {
			if !skip[k] {
				zz.BeginOp(k)
				w2.safe(0, k, e.op, twin[k])
			}
		}
	})
	if stop != "" {
		return failf("stop", "the history without refused registrations ended with: %s", stop)
	}
	del := 0
	for k, e := range log {
		if skip[k] {
			continue
		}
		if len(skip) > 0 {
			del += len(e.r.del)
		}
		if a, b := e.r.out(), twin[k].out(); a != b {
			return failf("trace", "op %d (caller %d) %s\n  with refused registrations before it: %s\n  without them:                         %s", e.r.pos, e.c, e.op, show(a), show(b))
		}
	}
	for i := range w1.objs {
		if a, b := w1.objs[i].tablesString(), w2.objs[i].tablesString(); a != b {
			return failf("table", "tables with refused registrations: %s\nwithout: %s", show(a), show(b))
		}
	}
	c.fault("refused registration", len(skip))
	c.nt = len(skip) > 0 && del > 0
	return nil
}

// ---------------------------------------------------------------- C05

func genC05(g *gen, p *Plan) {
	kind := kinds[g.r.Intn(3)]
	p.Objs = []ObjSpec{{Kind: treeOf(kind)}}
	h := histOpts{regs: g.count(8, 30, 150), clients: 1 + g.r.Intn(4), badIndex: 20, dup: 60, bad: 15}
	h.matches = 2 + h.regs
	if h.regs < 40 {
		h.matches = g.spell(h.matches)
	}
	g.history(p, []int{0}, h, func(i int, pats []string) Op {
		op := g.matchOp(p, i, pats)
		op.S = &Sink{Kind: "rec"}
		return op
	})
	var pats []string
	for i := range p.Clients {
		for _, op := range p.Clients[i] {
			if op.K == "reg" && !op.Bad {
				pats = append(pats, op.V)
			}
		}
	}
	for k := 0; k < 3; k++ {
		op := g.matchOp(p, 0, pats)
		op.S = &Sink{Kind: "rec"}
		p.Tail = append(p.Tail, op)
	}
	p.Strat = g.strategy()
}

// judgeHistory runs a history and judges every match against the model.
func judgeHistory(c *ctx) *failure {
	p := c.p
	for i := range p.Clients {
		for j := range p.Clients[i] {
			if op := &p.Clients[i][j]; op.K == "reg" && p.text(op) != "" && !op.Bad {
				c.regTexts(op)
			}
		}
	}
	prints := map[int]string{}
	for i := range p.Objs {
		if o := &p.Objs[i]; !isTree(o.Kind) {
			i := i
			c.pristine(func() {
				if x := buildSafe(o, nil); x.err == "" {
					prints[i] = x.print()
				}
			})
		}
	}
	w := &world{p: p}
	log, z, stop := c.history(w, c.config(3000), true)
	if stop != "" {
		return failf("build", "%s", stop)
	}
	if f := checkStop(z); f != nil {
		return f
	}
	if p.Prop == "C05" {
		if f := c.wear(w); f != nil {
			return f
		}
	}
	if len(p.Tail) > 0 {
		rs := newRes(len(p.Tail))
		stop := c.solo(p.Env, func() {
			for j := range p.Tail {
				zz.BeginOp(j)
				w.safe(0, j, &p.Tail[j], rs[j])
			}
		})
		if stop != "" {
			return failf("stop", "matches after the history: %s", stop)
		}
		for j, r := range rs {
			c.account(&p.Tail[j], r)
			log = append(log, logEntry{-1, j, &p.Tail[j], r})
		}
	}
	m := &histModel{c: c, regs: map[int]*registry{}}
	acc, del := 0, 0
	for _, e := range log {
		op, r := e.op, e.r
		where := fmt.Sprintf("op %d (caller %d) %s returned %s", r.pos, e.c, op, show(r.out()))
		if r.panicked != "" {
			return failf("panic", "%s", where)
		}
		o := &p.Objs[op.O]
		if op.K == "reg" {
			if r.err == nil && p.text(op) != "" && !op.Bad {
				raw, norm, _ := c.regTexts(op)
				m.registry(op.O).accept(raw, norm, op.I, modelOf(kindOf(o.Kind), p.text(op)))
				acc++
			}
			continue
		}
		if !isTree(o.Kind) {
			if op.K == "str" {
				if r.ret != prints[op.O] {
					return failf("print", "%s: it printed %q before", where, prints[op.O])
				}
				continue
			}
			pm := modelOf(o.Kind, o.Text)
			want := false
			if o.Kind == "tags" {
				want = pm.matchTags(op.T)
			} else {
				want = pm.matchText(op.V)
			}
			if r.ret != fmt.Sprint(want) {
				return failf("single", "%s: pattern %q must return %v", where, o.Text, want)
			}
			continue
		}
		reg := m.registry(op.O)
		want := wantDeliveries(reg, op)
		del += len(want)
		if s := compareDeliveries(reg.kind, want, r.del); s != "" {
			return failf("report", "%s: %s\naccepted so far: %s", where, s, showEntries(reg.entries))
		}
	}
	if s := w.changed(); s != "" {
		return failf("changed", "%s", s)
	}
	c.nt = acc >= 2 && del > 0
	return nil
}

func showEntries(es []entry) string {
	var b strings.Builder
	for i, e := range es {
		if i == 40 {
			b.WriteString(" ...")
			break
		}
		fmt.Fprintf(&b, " %d:%q", e.Index, e.Norm)
	}
	return b.String()
}

func judgeC05(c *ctx) *failure { return judgeHistory(c) }

// ---------------------------------------------------------------- C15

func genC15(g *gen, p *Plan) {
	n := 1 + g.r.Intn(2)
	var trees []int
	for k := 0; k < n; k++ {
		kind := kinds[g.r.Intn(3)]
		for i := 2 + g.r.Intn(5); i > 0; i-- {
			p.Objs = append(p.Objs, ObjSpec{Kind: kind, Text: g.pattern(kind)})
		}
		for i := 2 + g.r.Intn(2); i > 0; i-- {
			trees = append(trees, len(p.Objs))
			p.Objs = append(p.Objs, ObjSpec{Kind: treeOf(kind)})
		}
	}
	h := histOpts{regs: g.count(10, 25, 50), clients: 1 + g.r.Intn(3), badIndex: 30, dup: 60, pool: true}
	h.matches = 3 + h.regs
	g.history(p, trees, h, func(i int, pats []string) Op {
		if g.r.Chance(350) {
			for {
				i = g.r.Intn(len(p.Objs))
				if !isTree(p.Objs[i].Kind) {
					break
				}
			}
			if g.r.Chance(250) {
				return Op{K: "str", O: i}
			}
			return g.matchOp(p, i, p.Objs[i].pats())
		}
		op := g.matchOp(p, i, pats)
		op.S = &Sink{Kind: "rec"}
		return op
	})
	// everything is asked once more at the end
	pats := map[int][]string{}
	for i := range p.Clients {
		for _, op := range p.Clients[i] {
			if op.K == "reg" && !op.Bad {
				pats[op.O] = append(pats[op.O], op.V)
			}
		}
	}
	for i := range p.Objs {
		l := p.Objs[i].pats()
		if isTree(p.Objs[i].Kind) {
			l = pats[i]
		} else {
			p.Tail = append(p.Tail, Op{K: "str", O: i})
		}
		op := g.matchOp(p, i, l)
		if op.S != nil {
			op.S = &Sink{Kind: "rec"}
		}
		p.Tail = append(p.Tail, op)
	}
	p.Strat = g.strategy()
}

func judgeC15(c *ctx) *failure { return judgeHistory(c) }

// ---------------------------------------------------------------- C06

func genC06(g *gen, p *Plan) {
	kind := kinds[g.r.Intn(3)]
	p.Objs = []ObjSpec{{Kind: treeOf(kind)}}
	regs := g.regs(kind, 1+g.count(8, 25, 80))
	var ops []Op
	for _, r := range regs {
		ops = append(ops, Op{K: "reg", V: r.Text, I: r.Index, B: r.Pre})
	}
	p.Clients = [][]Op{ops}
	for k := 3 + g.r.Intn(5); k > 0; k-- {
		op := g.matchOp(p, 0, texts(regs))
		op.S = &Sink{Kind: "rec"}
		p.Tail = append(p.Tail, op)
	}
}

func judgeC06(c *ctx) *failure {
	p := c.p
	if len(p.Clients) != 1 {
		return nil
	}
	// conflict-free registrations only
	var ops []*Op
	seenN, seenI := map[string]bool{}, map[int]bool{}
	for j := range p.Clients[0] {
		op := &p.Clients[0][j]
		raw, norm, ok := c.regTexts(op)
		if !ok || seenN[norm] || seenN[raw] || seenI[op.I] || op.I < 0 {
			continue
		}
		seenN[norm], seenI[op.I] = true, true
		if raw != "" {
			seenN[raw] = true
		}
		ops = append(ops, op)
	}
	var first []string
	var order0 []int
	rnd := zz.NewRand(p.Sched)
	for k := 0; k < 5; k++ {
		order := make([]int, len(ops))
		for i := range order {
			order[i] = i
		}
		switch k {
		case 0:
		case 1:
			for a, b := 0, len(order)-1; a < b; a, b = a+1, b-1 {
				order[a], order[b] = order[b], order[a]
			}
		default:
			// the scheduler picks whose registration arrives next
			for i := len(order) - 1; i > 0; i-- {
				j := rnd.Intn(i + 1)
				order[i], order[j] = order[j], order[i]
			}
		}
		w := &world{p: p}
		rs := newRes(len(p.Tail))
		bad := ""
		zz.ResetGlobals()
		stop := c.solo(zz.Mix(p.Env, uint64(k)), func() {
			w.objs = buildAll(p, -1)
			for n, i := range order {
				zz.BeginOp(n)
				r := &opRes{}
				w.safe(0, n, ops[i], r)
				if r.panicked != "" {
					bad = fmt.Sprintf("registration %s panicked: %s", ops[i], r.panicked)
				} else if r.err != nil {
					bad = fmt.Sprintf("registration %s was refused: %v", ops[i], r.err)
				}
			}
			for j := range p.Tail {
				zz.BeginOp(j)
				w.safe(0, j, &p.Tail[j], rs[j])
			}
		})
		if stop != "" {
			return failf("stop", "arrival order %v: %s", order, stop)
		}
		if bad != "" {
			return failf("refused", "arrival order %v: %s", order, bad)
		}
		for j, r := range rs {
			c.account(&p.Tail[j], r)
			set := distinct(r)
			if k == 0 {
				first = append(first, set)
				order0 = order
			} else if set != first[j] {
				return failf("order", "%s\n  reports with arrival order %v: %s\n  reports with arrival order %v: %s", &p.Tail[j], order0, show(first[j]), order, show(set))
			}
		}
		c.st.Inter[zz.Mix(p.Sched^uint64(len(ops)), hashInts(order))] = true
		c.fault("arrival order changed", 1)
	}
	del := false
	for _, s := range first {
		del = del || s != ""
	}
	c.nt = del && len(ops) > 1
	return nil
}

func hashInts(l []int) (h uint64) {
	for _, x := range l {
		h = zz.Mix(h, uint64(x))
	}
	return
}

// distinct is the set of reported patterns.
func distinct(r *opRes) string {
	m := map[string]bool{}
	for _, d := range r.del {
		m[fmt.Sprintf("%d:%q", d.i, d.s)] = true
	}
	var l []string
	for s := range m {
		l = append(l, s)
	}
	sort.Strings(l)
	s := strings.Join(l, " ")
	if r.panicked != "" {
		s += " panic: " + r.panicked
	}
	return s
}

// ---------------------------------------------------------------- C07

func genC07(g *gen, p *Plan) {
	kind := kinds[g.r.Intn(3)]
	p.Objs = []ObjSpec{{Kind: treeOf(kind)}}
	h := histOpts{regs: g.count(8, 20, 50), clients: 1 + g.r.Intn(3), badIndex: 30, dup: 60, bad: 15}
	h.matches = g.spell(2 + h.regs/2)
	g.history(p, []int{0}, h, func(i int, pats []string) Op {
		op := g.matchOp(p, i, pats)
		op.K, op.S = "views", nil
		op.I = g.r.Intn(64)
		return op
	})
	p.Strat = g.strategy()
}

func judgeC07(c *ctx) *failure {
	p := c.p
	w := &world{p: p}
	log, z, stop := c.history(w, c.config(5000), true)
	if stop != "" {
		return failf("build", "%s", stop)
	}
	if f := checkStop(z); f != nil {
		return f
	}
	any := false
	for _, e := range log {
		if e.op.K != "views" {
			continue
		}
		if e.r.panicked != "" {
			return failf("panic", "%s panicked: %s", e.op, e.r.panicked)
		}
		if e.r.viol != "" {
			return failf("views", "op %d (caller %d) %s: %s", e.r.pos, e.c, e.op, e.r.viol)
		}
		any = any || e.r.count > 0
	}
	c.nt = any
	return nil
}

// ---------------------------------------------------------------- C13

func (g *gen) nest(p *Plan, op *Op, depth int) {
	if op.S == nil || depth == 0 {
		return
	}
	i := op.O
	if g.r.Chance(400) {
		i = g.r.Intn(len(p.Objs))
	}
	sub := g.matchOp(p, i, p.Objs[i].pats())
	if g.r.Chance(250) && i == op.O {
		sub.K, sub.V, sub.T = op.K, op.V, op.T
	}
	op.S = &Sink{Kind: "rec", Fault: "reenter", At: g.r.Intn(2) * g.r.Intn(3), Sub: &sub}
	if g.r.Chance(500) {
		g.nest(p, &sub, depth-1)
	}
}

func genC13(g *gen, p *Plan) {
	genC02(g, p)
	p.Tail = nil
	if g.r.Chance(600) {
		p.Clients = p.Clients[:1]
	}
	for i := range p.Clients {
		for j := range p.Clients[i] {
			op := &p.Clients[i][j]
			if op.S != nil {
				op.S.Fault, op.S.At = "", 0
				if g.r.Chance(700) {
					g.nest(p, op, 3)
				}
			}
		}
	}
}

// wantSubs is what the matches started from inside op's sink must return.
func (c *ctx) wantSubs(op *Op) (l []string) {
	if op.S == nil || op.S.Fault != "reenter" || len(c.ref(op).del) <= op.S.At {
		return nil
	}
	l = append(l, c.ref(op.S.Sub).out())
	return append(l, c.wantSubs(op.S.Sub)...)
}

func judgeC13(c *ctx) *failure {
	p := c.p
	var total int64
	wants := make([][][]string, len(p.Clients))
	for i := range p.Clients {
		for j := range p.Clients[i] {
			op := &p.Clients[i][j]
			total += c.ref(op).steps
			wants[i] = append(wants[i], c.wantSubs(op))
		}
	}
	w := &world{p: p}
	zz.ResetGlobals()
	if stop := c.solo(p.Env, func() { w.objs = buildAll(p, -1) }); stop != "" {
		return nil
	}
	if f := c.wear(w); f != nil {
		return f
	}
	res, _, z := c.concurrent(w, c.config(total))
	if f := checkStop(z); f != nil {
		return f
	}
	nested := false
	for i := range res {
		for j, r := range res[i] {
			op := &p.Clients[i][j]
			ref := c.ref(op)
			if r.out() != ref.out() {
				return failf("outer", "caller %d op %d %s\n  by itself:  %s\n  re-entered: %s", i, j, op, show(ref.out()), show(r.out()))
			}
			want := wants[i][j]
			nested = nested || len(want) > 0
			if strings.Join(r.subs, "\n") != strings.Join(want, "\n") {
				return failf("inner", "caller %d op %d %s: matches started from the sink\n  by themselves: %s\n  nested:        %s", i, j, op, show(strings.Join(want, " | ")), show(strings.Join(r.subs, " | ")))
			}
		}
	}
	if s := w.changed(); s != "" {
		return failf("changed", "%s", s)
	}
	c.nt = nested
	return nil
}
