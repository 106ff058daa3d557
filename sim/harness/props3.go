package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	"MODULE/gglob"
	"MODULE/pkg/items"
	"MODULE/pkg/utils"
	zz "MODULE/zzsimrt"
	"MODULE/zzsimrt/simsync"
)

func init() {
	scenarios["C19"] = scenario{genC19, judgeC19, "a sink took deliveries of at least two matches"}
	scenarios["C20"] = scenario{genC20, judgeC20, "something was built in at least two steps and asked about afterwards"}
}

const slots = 6

// slotted runs the clients of the plan; ops on different slots run side by
// side, questions about one slot as well.
func (c *ctx) slotted(w *world) (log []logEntry, z zz.Result) {
	p := c.p
	var mus [slots]simsync.RWMutex
	var all []*logEntry
	var bodies []func()
	for i := range p.Clients {
		i := i
		ops := p.Clients[i]
		for j := range ops {
			all = append(all, &logEntry{i, j, &ops[j], &opRes{pos: -1}})
		}
		mine := all[len(all)-len(ops):]
		bodies = append(bodies, func() {
			for j := range ops {
				zz.BeginOp(j)
				func() {
					op := &ops[j]
					a, b := &mus[op.Slot], &mus[op.Slot]
					if strings.HasSuffix(op.K, ".eq") {
						a, b = &mus[lesser(op.Slot, op.J)], &mus[greater(op.Slot, op.J)]
					}
					if op.K == "n.val" || op.K == "n.in" {
						a, b = &mus[lesser(op.Slot, op.J)], &mus[greater(op.Slot, op.J)]
						a.Lock()
						defer a.Unlock()
						if a == b {
							a = nil
						} else {
							a = b
						}
					}
					if strings.HasSuffix(op.K, ".ask") || strings.HasSuffix(op.K, ".eq") {
						a.RLock()
						defer a.RUnlock()
						if a != b {
							b.RLock()
							defer b.RUnlock()
						}
					} else if a != nil {
						a.Lock()
						defer a.Unlock()
					}
					w.clock++
					mine[j].r.pos = w.clock
					w.safe(i, j, op, mine[j].r)
				}()
			}
		})
	}
	z = c.run(c.config(2000), bodies)
	for _, e := range all {
		if e.r.pos >= 0 {
			log = append(log, *e)
		}
		c.account(e.op, e.r)
	}
	sort.SliceStable(log, func(i, j int) bool { return log[i].r.pos < log[j].r.pos })
	return
}

// ---------------------------------------------------------------- C19

func genC19(g *gen, p *Plan) {
	nt := 1 + g.r.Intn(2)
	for i := 0; i < nt; i++ {
		kind := kinds[g.r.Intn(3)]
		p.Objs = append(p.Objs, ObjSpec{Kind: treeOf(kind), Regs: g.regs(kind, g.count(6, 10, 30))})
	}
	n := 1 + g.r.Intn(4)
	p.Clients = make([][]Op, n)
	use := 1 + g.r.Intn(slots)
	match := func() Op {
		i := g.r.Intn(nt)
		op := g.matchOp(p, i, p.Objs[i].pats())
		op.L = []string{op.K}
		op.K = "k.match"
		return op
	}
	for ops := g.spell(3 + g.r.Intn(14)); ops > 0; ops-- {
		var op Op
		slot := g.r.Intn(use)
		switch g.r.Intn(10) {
		case 0:
			op = Op{K: "k.reset"}
		case 1:
			op = Op{K: "k.grow", I: []int{0, 1, 2, 3, 4, 8, 16, 17, 100, 1000, 4000}[g.r.Intn(11)]}
		case 2:
			op = Op{K: "k.store", V: g.lit(), I: []int{0, 1, 2, 7, g.r.Intn(50), 1 << 20}[g.r.Intn(6)]}
			if g.r.Chance(200) {
				op.V = ""
			}
			op.J = g.r.Intn(4) // how many more of them
			if g.r.Chance(25) {
				op.J = 50 + g.r.Intn([]int{500, 3000}[g.r.Intn(2)])
			}
		default:
			op = match()
			op.S = nil
			if g.r.Chance(400) {
				op.S = &Sink{Kind: "rec"} // through a tee
				if g.r.Chance(500) {
					op.S.Fault, op.S.At = []string{"panic", "goexit", "reenter"}[g.r.Intn(3)], g.r.Intn(4)
					if op.S.Fault == "reenter" {
						sub := match()
						sub.S = &Sink{Kind: "rec"}
						sub.Slot = slot
						op.S.Sub = &sub
					}
				}
			}
		}
		op.Slot = slot
		c := g.r.Intn(n)
		p.Clients[c] = append(p.Clients[c], op)
	}
	p.Strat = g.strategy()
}

func sinkFor(slot int) items.Store {
	switch slot {
	case 4:
		k := &items.AllStore{}
		k.Init()
		return k
	case 5:
		k := &items.MinStore{}
		k.Init()
		return k
	}
	return newStore(slot)
}

// sinkOp uses the sink of a slot; r.before and r.after hold what it contained.
func (w *world) sinkOp(th, opn int, op *Op, r *opRes) {
	st := w.sinks[op.Slot]
	flow := len(w.flow[op.Slot])
	defer func() {
		r.flowed = len(w.flow[op.Slot]) - flow
		r.after = showSink(st)
		switch k := st.(type) {
		case *items.AllStore:
			w.keepTexts(th, opn, k.S.S)
		case *items.StringStore:
			w.keepTexts(th, opn, k.S)
		}
	}()
	switch op.K {
	case "k.reset":
		resetStore(st)
	case "k.grow":
		growStore(st, op.I)
	case "k.store":
		for i := 0; i <= op.J; i++ {
			st.Store(op.V, op.I+i)
		}
	case "k.match":
		o := w.objs[op.O]
		if o.err != "" {
			r.ret = o.err
			return
		}
		to := st
		if op.S != nil {
			to = &flowSink{&recSink{w, th, opn, op.S, r}, st, &w.flow[op.Slot]}
		}
		n := w.matchTree(o, op.L[0], op.V, op.T, to, r)
		r.ret = fmt.Sprintf("n=%d", n)
	}
}

func (w *world) keepTexts(th, opn int, l []string) {
	for _, s := range l {
		w.keep(th, opn, s)
	}
}

// flowSink passes deliveries on to a library sink, noting them in the order
// in which the sink got them, and may fail afterwards.
type flowSink struct {
	rec  *recSink
	to   items.Store
	flow *[]delivery
}

func (t *flowSink) Store(s string, index int) {
	t.to.Store(s, index)
	*t.flow = append(*t.flow, delivery{s, index})
	t.rec.Store(s, index)
}

func wantSink(slot int, l []delivery) string {
	min, idx, s := -1, []int{}, []string{}
	for _, d := range l {
		if min < 0 || d.i < min {
			min = d.i
		}
		idx, s = append(idx, d.i), append(s, d.s)
	}
	switch slot {
	case 1, 5:
		return fmt.Sprintf("min=%d", min)
	case 2:
		return fmt.Sprintf("idx=%v", idx)
	case 3:
		return fmt.Sprintf("s=%q", s)
	}
	return fmt.Sprintf("min=%d idx=%v s=%q", min, idx, s)
}

func judgeC19(c *ctx) *failure {
	p := c.p
	w := &world{p: p, capture: true}
	zz.ResetGlobals()
	if stop := c.solo(p.Env, func() {
		w.objs = buildAll(p, -1)
		for i := 0; i < slots; i++ {
			w.sinks = append(w.sinks, sinkFor(i))
		}
	}); stop != "" {
		return nil
	}
	log, z := c.slotted(w)
	if f := checkStop(z); f != nil {
		return f
	}
	if s := w.changed(); s != "" {
		return failf("changed", "%s", s)
	}
	var have [slots][]delivery
	var took [slots]int
	var flow [slots]int
	for _, e := range log {
		op, r := e.op, e.r
		where := fmt.Sprintf("op %d (caller %d) %s", r.pos, e.c, op)
		if r.panicked != "" && r.panicked != "sink" {
			return failf("panic", "%s panicked: %s", where, r.panicked)
		}
		h := &have[op.Slot]
		switch op.K {
		case "k.reset":
			*h = nil
			took[op.Slot] = 0
		case "k.store":
			for i := 0; i <= op.J; i++ {
				*h = append(*h, delivery{op.V, op.I + i})
			}
		case "k.match":
			before := len(*h)
			if op.S != nil {
				// what went through the tee, in its order, nested matches included
				n := flow[op.Slot]
				k := n + r.flowed
				*h = append(*h, w.flow[op.Slot][n:k]...)
				flow[op.Slot] = k
				if n := fmt.Sprintf("n=%d", len(r.del)); r.ret != "" && r.panicked == "" && !r.stalled && w.objs[op.O].err == "" && r.ret != n {
					return failf("count", "%s made %d deliveries and returned %s", where, len(r.del), r.ret)
				}
			} else {
				alone := Op{K: op.L[0], O: op.O, V: op.V, T: op.T, S: &Sink{Kind: "rec"}}
				del := c.ref(&alone).del
				*h = append(*h, del...)
				if n := fmt.Sprintf("n=%d", len(del)); w.objs[op.O].err == "" && r.ret != n {
					return failf("count", "%s makes %d deliveries and returned %s", where, len(del), r.ret)
				}
			}
			if len(*h) > before {
				took[op.Slot]++
			}
			if took[op.Slot] > 1 {
				c.nt = true
			}
		}
		if want := wantSink(op.Slot, *h); r.after != want {
			return failf("sink", "%s\n  delivered since the last reset: %s\n  held:     %s", where, want, show(r.after))
		}
	}
	return nil
}

// ---------------------------------------------------------------- C20

// nearby draws runes next to one another, so that ranges meet and overlap.
func (g *gen) nearby(n int) string {
	var b strings.Builder
	base := g.rune()
	for ; n > 0; n-- {
		r := base + rune(g.r.Intn(9)) - 4
		switch g.r.Intn(8) {
		case 0:
			r = g.rune()
		case 1:
			base = g.rune()
			r = base
		case 2:
			r = []rune{0, 1, 0x1f, ' ', 0x7e, 0x7f, 0x80, 0x7ff, 0x800, 0xfffc, 0xfffd, 0xffff, 0x10000, 0x10ffff, '0', '9', 'a', 'z', '@', '`'}[g.r.Intn(20)]
		}
		if r < 0 || r > utf8.MaxRune || r >= 0xd800 && r < 0xe000 || strings.ContainsRune("-[]{},*?", r) {
			continue
		}
		b.WriteRune(r)
	}
	return b.String()
}

// setText writes a set of runes with ranges for the parser.
func (g *gen) setText() string {
	var b strings.Builder
	b.WriteByte('[')
	for k := g.r.Intn(6); k > 0; k-- {
		s := []rune(g.nearby(2))
		switch {
		case len(s) == 0:
		case len(s) == 1 || g.r.Chance(400) || utf8.RuneLen(s[0]) != utf8.RuneLen(s[1]):
			b.WriteRune(s[0])
		default:
			lo, hi := lesser(s[0], s[1]), greater(s[0], s[1])
			if hi-lo > 2000 || lo <= '-' && hi >= '-' || lo < 0xd800 && hi >= 0xe000 {
				hi = lo
			}
			b.WriteRune(lo)
			b.WriteByte('-')
			b.WriteRune(hi)
		}
	}
	b.WriteByte(']')
	return b.String()
}

func (g *gen) piece() string {
	switch g.r.Intn(8) {
	case 0:
		return "?"
	case 1:
		return "*"
	case 2:
		return g.class()
	case 3:
		stars := 0
		return g.list(&stars)
	case 4:
		return strings.Repeat("?", 1+g.r.Intn(3))
	}
	return g.lit()
}

func genC20(g *gen, p *Plan) {
	n := 1 + g.r.Intn(4)
	p.Clients = make([][]Op, n)
	use := 1 + g.r.Intn(slots)
	only := g.r.Intn(12)
	pieces := make([]string, slots)
	nested := &builtModel{}
	nest := only == 3 && g.r.Chance(400) || g.r.Chance(180)
	count := g.spell(4 + g.r.Intn(24))
	if nest && only == 3 {
		count += g.r.Intn(60)
	}
	for ops := count; ops > 0; ops-- {
		op := Op{Slot: g.r.Intn(use)}
		k := only
		if k > 4 {
			k = g.r.Intn(5)
		}
		ask := g.r.Chance(400)
		switch k {
		case 0: // ASCII sets
			if ask {
				op.K, op.V = "a.ask", g.nearby(1+g.r.Intn(6))
				if g.r.Chance(40) {
					op.V += "\x80"
				}
				break
			}
			op.K, op.V = []string{"a.add", "a.add", "a.add", "a.make", "a.clear", "a.reload"}[g.r.Intn(6)], g.nearby(1+g.r.Intn(5))
			if g.r.Chance(40) {
				op.V += "\x80" // the first byte that is none
			}
		case 1: // rune sets
			if ask {
				op.K, op.V = "r.ask", g.nearby(1+g.r.Intn(6))
				if g.r.Chance(200) {
					op.K, op.J, op.V = "r.eq", g.r.Intn(use), ""
				}
				break
			}
			op.K, op.V = []string{"r.add", "r.adds", "r.adds", "r.merge", "r.parse", "r.reload"}[g.r.Intn(6)], g.nearby(1+g.r.Intn(8))
			op.B = g.r.Chance(700)
			if op.K == "r.parse" {
				op.V = g.setText()
				if g.r.Chance(150) {
					op.V = g.badSet(op.V)
				}
			}
		case 2: // texts
			if ask {
				op.K, op.V = "t.ask", g.someText()
				if g.r.Chance(200) {
					op.K, op.J, op.V = "t.eq", g.r.Intn(use), ""
				} else if g.r.Chance(150) {
					op.K, op.J = "u.ask", g.r.Intn(8)
				}
				break
			}
			op.K, op.V = []string{"t.add", "t.pre", "t.addr", "t.prer", "t.addb", "t.preb", "t.new", "t.reload"}[g.r.Intn(8)], g.lit()
			op.I = g.r.Intn(6)
		case 3: // chains
			if nest && g.r.Chance(500) {
				if g.nestedOp(nested, &op, use, ask) {
					pieces[op.J] = "" // (no text of a pattern any more)
				}
				nested.apply(&op)
				break
			}
			if ask {
				op.K = "c.ask"
				op.V = g.value("glob", []string{"*" + pieces[op.Slot]})
				if ns, ok := parseModel(pieces[op.Slot]); ok && g.r.Chance(600) {
					op.V = g.sample(ns)
				}
				if g.r.Chance(200) {
					op.K, op.J = "c.eq", g.r.Intn(use)
				}
				break
			}
			op.K, op.V = "c.add", g.piece()
			if nest && g.r.Chance(500) {
				op.V = []string{"*", "?", string(g.rune()), string(g.rune()), "{" + string(g.rune()) + ",}"}[g.r.Intn(5)]
			}
			pieces[op.Slot] += op.V
			if g.r.Chance(120) || strings.Count(pieces[op.Slot], "*") > 3 || nodeWeight(nested.nodes[op.Slot]) > 40 {
				op.K = "c.new"
				pieces[op.Slot] = op.V
			} else if g.r.Chance(80) {
				op.K = "c.reload"
				pieces[op.Slot] = strings.TrimSuffix(pieces[op.Slot], op.V)
				op.V = ""
			}
			op.I = g.r.Intn(3)
			nested.apply(&op)
		case 4: // lists and single symbols
			if ask {
				op.K, op.V = []string{"l.ask", "x.ask"}[g.r.Intn(2)], g.someText()
				if op.K == "x.ask" {
					op.I = g.r.Intn(5)
					op.L = []string{string(g.rune())}
					if g.r.Chance(200) {
						op.K = "x.cmp"
						op.J = g.r.Intn(5)
						op.L = append(op.L, []string{op.L[0], string(g.rune())}[g.r.Intn(2)])
					}
				} else if g.r.Chance(250) {
					op.K, op.J, op.V = "l.eq", g.r.Intn(use), ""
				}
				break
			}
			stars := g.r.Intn(2)
			op.K, op.V = "l.make", g.list(&stars)
		}
		c := g.r.Intn(n)
		p.Clients[c] = append(p.Clients[c], op)
	}
	p.Strat = g.strategy()
}

// nestedOp draws an op on the groups: chains become values of groups and groups
// parts of chains, to any depth. It tells whether the chain op.J starts anew.
func (g *gen) nestedOp(m *builtModel, op *Op, use int, ask bool) bool {
	if ask {
		op.K = "n.ask"
		ns := []node{{kind: nAlt, alts: m.groups[op.Slot]}}
		if g.r.Chance(500) {
			op.K, ns = "c.ask", m.nodes[op.Slot]
		}
		if len(m.groups[op.Slot]) > 0 || op.K == "c.ask" {
			op.V = g.sample(ns)
		}
		if g.r.Chance(400) {
			op.V = g.mutate(op.V)
		}
		return false
	}
	op.J = g.r.Intn(use)
	last, what := m.last, g.r.Intn(8)
	switch {
	case last.K == "n.in" && g.r.Chance(400): // a group that ends with a group
		op.J, what = last.Slot, 7
	case last.K == "n.val" && g.r.Chance(250): // an empty value
		op.J, op.Slot, what = last.J, last.Slot, 7
	}
	defer func() { m.last = *op }()
	switch what {
	case 0:
		op.K = "n.new"
	case 1, 2, 3:
		op.K = "n.in"
		if nodeWeight(m.nodes[op.Slot])+nodeWeight([]node{{kind: nAlt, alts: m.groups[op.J]}}) > 40 {
			op.K = "n.new"
		}
	default:
		op.K = "n.val"
		if nodeWeight(m.nodes[op.J])+nodeWeight([]node{{kind: nAlt, alts: m.groups[op.Slot]}}) > 40 {
			op.K = "n.new"
			return false
		}
		return true
	}
	return false
}

// nodeWeight bounds the work of matching: a star counts a lot.
func nodeWeight(ns []node) (n int) {
	for _, x := range ns {
		switch x.kind {
		case nStar:
			n += 12
		case nAlt:
			for _, a := range x.alts {
				n += 1 + nodeWeight(a)
			}
		default:
			n++
		}
	}
	return
}

// badSet turns the text of a set into one that denotes none.
func (g *gen) badSet(s string) string {
	in := s[1 : len(s)-1]
	var r string
	switch g.r.Intn(6) {
	case 0:
		r = []string{"z-a", "9-0", "b-a", "\x7f-\x01"}[g.r.Intn(4)]
	case 1:
		r = []string{"a-я", "z-世", "0-\u0080", "~-\U0001F600"}[g.r.Intn(4)]
	case 2:
		r = []string{"я-а", "世-一", "\U0001F601-\U0001F600", "ё-е"}[g.r.Intn(4)]
	case 3:
		r = []string{"я-世", "а-\U0001F600", "世-\U0001F600", "\u07ff-\u0800"}[g.r.Intn(4)]
	case 4:
		return []string{"", "[", "]", "a", "[" + in, in + "]", in + "][" + in}[g.r.Intn(6)]
	default:
		return []string{"{" + in + "}", "[" + in + "}", "(" + in + "]", " " + s, s + " "}[g.r.Intn(5)]
	}
	if g.r.Chance(500) {
		return "[" + r + in + "]"
	}
	return "[" + in + r + "]"
}

func (g *gen) someText() string {
	var b strings.Builder
	for k := g.r.Intn(4); k > 0; k-- {
		b.WriteString(g.lit())
	}
	return b.String()
}

// asked collects what an object answers.
type asked []string

func (a *asked) say(format string, x ...interface{}) { *a = append(*a, fmt.Sprintf(format, x...)) }

// things is what the callers of C20 build.
type things struct {
	ascii [slots]utils.ASCIISet
	runes [slots]utils.RunesRanges
	texts [slots]*items.String
	chain [slots]*items.Chain
	lists [slots]items.Item
	made  [slots]string // the texts of the lists

	groups [slots]*items.Group
	deep   [slots]bool // the chain holds a group made of chains
	cw, gw [slots]int  // work to match the chains and groups
}

// heavy is the weight from which things are not asked.
const heavy = 60

// bearable bounds the work of asking things of a weight about a text: it grows
// with a power of the text's length.
func bearable(weight int, v string) bool {
	switch n := len(v); {
	case n <= 64:
		return weight <= heavy
	case n <= 256:
		return weight <= heavy/2
	}
	return weight <= heavy/3
}

func textWeight(s string) int {
	ns, _ := parseModel(s)
	return nodeWeight(ns)
}

func newThings() *things {
	t := &things{}
	for i := 0; i < slots; i++ {
		t.texts[i] = items.NewString("").(*items.String)
		t.chain[i] = items.NewChain()
		t.groups[i] = &items.Group{}
	}
	return t
}

// withValue is the group g with one more value.
func withValue(g *items.Group, it items.Item) *items.Group {
	n := &items.Group{Vals: append(append([]items.Item(nil), g.Vals...), it), MinSize: it.MinLen(), MaxSize: it.MaxLen()}
	if len(g.Vals) > 0 {
		n.MinSize = lesser(n.MinSize, g.MinSize)
		if n.MaxSize >= 0 && (g.MaxSize < 0 || g.MaxSize > n.MaxSize) {
			n.MaxSize = g.MaxSize
		}
	}
	return n
}

func (w *world) thingOp(th, opn int, op *Op, r *opRes) {
	t := w.things
	var a asked
	switch op.K {
	case "a.add":
		for i := 0; i < len(op.V); i++ {
			a.say("add %v", t.ascii[op.Slot].Add(op.V[i]))
		}
	case "a.make":
		s, ok := utils.MakeASCIISet(op.V)
		a.say("make %v", ok)
		if ok {
			t.ascii[op.Slot] = s
			if x := utils.MakeASCIISetMust(op.V); x != s {
				a.say("two sets of the same symbols differ")
			}
		} else {
			func() {
				defer func() {
					x := recover()
					if st, ok := x.(zz.Stop); ok {
						panic(st)
					}
					if x == nil {
						a.say("made of %q all the same", op.V)
					}
				}()
				utils.MakeASCIISetMust(op.V)
			}()
		}
	case "a.clear":
		t.ascii[op.Slot].Clear()
	case "a.reload":
		t.ascii[op.Slot] = utils.MakeASCIISetMust(t.ascii[op.Slot].StringAll())
	case "a.ask":
		askASCII(&t.ascii[op.Slot], op.V, &a)
	case "r.add":
		for _, c := range op.V {
			t.runes[op.Slot].Add(c)
			break
		}
		if op.B {
			t.runes[op.Slot].Merge()
		}
	case "r.adds":
		t.runes[op.Slot].Adds(op.V)
		if op.B {
			t.runes[op.Slot].Merge()
		}
	case "r.merge":
		t.runes[op.Slot].Merge()
	case "r.parse":
		rs, ok := utils.RunesRangeExpand(op.V)
		a.say("parse %v", ok)
		if ok {
			t.runes[op.Slot] = rs
		}
		if (items.NewRunesRanges(op.V) != nil) != ok {
			a.say("refused as a set or as an item only")
		}
	case "r.reload":
		t.runes[op.Slot].Merge()
		rs, ok := utils.RunesRangeExpand(t.runes[op.Slot].String())
		a.say("reload %v", ok)
		t.runes[op.Slot] = rs
	case "r.ask":
		if !t.runes[op.Slot].NeedMerge {
			askRunes(&t.runes[op.Slot], op.V, &a)
		}
	case "r.eq":
		x, y := &t.runes[op.Slot], &t.runes[op.J]
		if !x.NeedMerge && !y.NeedMerge {
			i, j := &items.RunesRanges{RunesRanges: *x}, &items.RunesRanges{RunesRanges: *y}
			a.say("equal %v %v %v %v", x.Equal(y), y.Equal(x), i.Equal(j), j.Equal(i))
		}
	case "t.eq":
		x, y := t.texts[op.Slot], t.texts[op.J]
		a.say("equal %v %v", x.Equal(y), y.Equal(x))
	case "u.ask":
		askTools(op.V, op.J, &a)
	case "t.add":
		t.texts[op.Slot].Add(op.V)
	case "t.pre":
		t.texts[op.Slot].Prepend(op.V)
	case "t.addr", "t.addb":
		for _, c := range op.V {
			if op.K == "t.addb" && c < utf8.RuneSelf {
				t.texts[op.Slot].AddByte(byte(c))
			} else {
				t.texts[op.Slot].AddRune(c)
			}
		}
	case "t.prer", "t.preb":
		for _, c := range op.V {
			if op.K == "t.preb" && c < utf8.RuneSelf {
				t.texts[op.Slot].PrependByte(byte(c))
			} else {
				t.texts[op.Slot].PrependRune(c)
			}
		}
	case "t.new":
		c, n := utf8.DecodeRuneInString(op.V)
		d, _ := utf8.DecodeRuneInString(op.V[n:])
		one := n == len(op.V)
		s := t.texts[op.Slot]
		switch {
		case c < utf8.RuneSelf && (op.I == 0 || one):
			s = items.Byte(c).Append(op.V[n:])
		case op.I == 1 || one:
			s = items.Rune(c).Append(op.V[n:])
		case c < utf8.RuneSelf && d < utf8.RuneSelf && op.I == 2:
			s = items.Byte(c).AppendByte(byte(d))
			s.Add(op.V[n+1:])
		case c < utf8.RuneSelf && op.I == 3:
			s = items.Byte(c).AppendRune(d)
			s.Add(op.V[n+utf8.RuneLen(d):])
		case d < utf8.RuneSelf && op.I == 4:
			s = items.Rune(c).AppendByte(byte(d))
			s.Add(op.V[n+1:])
		default:
			s = items.Rune(c).AppendRune(d)
			s.Add(op.V[n+utf8.RuneLen(d):])
		}
		t.texts[op.Slot] = s
	case "t.reload":
		t.texts[op.Slot] = items.NewString(t.texts[op.Slot].String()).(*items.String)
	case "t.ask":
		askText(t.texts[op.Slot], op.V, &a)
		w.keep(th, opn, t.texts[op.Slot].String())
	case "c.new", "c.add":
		if op.K == "c.new" {
			t.chain[op.Slot] = items.NewChain()
			t.deep[op.Slot], t.cw[op.Slot] = false, 0
		}
		t.cw[op.Slot] += textWeight(op.V)
		for s := op.V; s != ""; {
			it, next, err := items.NextWildcardItem(s)
			if err != nil {
				a.say("%q: %v", op.V, err)
				break
			}
			if len(next) >= len(s) {
				a.say("%q: nothing consumed", op.V)
				break
			}
			if it != nil {
				t.chain[op.Slot].Append(it)
			}
			s = next
		}
	case "c.reload":
		if t.deep[op.Slot] {
			break
		}
		c := items.NewChain()
		for s := t.chain[op.Slot].String(); s != ""; {
			it, next, err := items.NextWildcardItem(s)
			if err != nil {
				a.say("%q: %v", t.chain[op.Slot].String(), err)
				break
			}
			if it != nil {
				c.Append(it)
			}
			s = next
		}
		t.chain[op.Slot] = c
	case "c.ask":
		if !bearable(t.cw[op.Slot], op.V) {
			break
		}
		askChain(t.chain[op.Slot], op.V, t.deep[op.Slot], &a)
		w.keep(th, opn, t.chain[op.Slot].String())
	case "c.eq":
		x, y := t.chain[op.Slot], t.chain[op.J]
		same := x.String() == y.String()
		if len(x.Items) > 0 && len(y.Items) > 0 {
			a.say("equal %v", x.Equal(y) == y.Equal(x))
			if x.Equal(y) && !same {
				a.say("equal, but printed %q and %q", x, y)
			}
			if same && bearable(t.cw[op.Slot], op.V) && items.MatchItems(op.V, x.Items) != items.MatchItems(op.V, y.Items) {
				a.say("equal, but they differ on %q", op.V)
			}
			again := items.NewChain()
			for _, it := range x.Items {
				again.Append(it)
			}
			a.say("again %v %v %v", again.Equal(x), again.MinLen() == x.MinLen(), again.MaxLen() == x.MaxLen())
		}
	case "n.new":
		t.groups[op.Slot], t.gw[op.Slot] = &items.Group{}, 0
	case "n.val":
		var it items.Item = t.chain[op.J]
		if len(t.chain[op.J].Items) == 0 {
			it = items.NewString("")
		}
		t.groups[op.Slot] = withValue(t.groups[op.Slot], it)
		t.chain[op.J], t.deep[op.J] = items.NewChain(), false
		t.gw[op.Slot] += 1 + t.cw[op.J]
		t.cw[op.J] = 0
	case "n.in":
		if len(t.groups[op.J].Vals) > 0 {
			t.chain[op.Slot].Append(t.groups[op.J])
			t.deep[op.Slot] = true
			t.cw[op.Slot] += t.gw[op.J]
		}
	case "n.ask":
		if g := t.groups[op.Slot]; len(g.Vals) > 0 && bearable(t.gw[op.Slot], op.V) {
			askGroup(g, op.V, bearable(2*t.gw[op.Slot], op.V), &a)
			w.keep(th, opn, g.String())
		}
	case "l.eq":
		if x, y := t.lists[op.Slot], t.lists[op.J]; x != nil && y != nil {
			if listVals(t.made[op.Slot]) != nil && listVals(t.made[op.J]) != nil {
				a.say("equal %v %v", x.Equal(y), y.Equal(x))
			}
		}
	case "l.make":
		vals, ok := items.ListExpand(op.V)
		it, err := items.NewItemList(vals)
		a.say("make %v %v", ok, err)
		t.lists[op.Slot], t.made[op.Slot] = it, op.V
	case "l.ask":
		if t.lists[op.Slot] != nil {
			askList(t.lists[op.Slot], op.V, &a)
		}
	case "x.ask":
		if it := symbol(op); it != nil {
			askItem(it, op.V, &a)
		}
	case "x.cmp":
		x, y := symbol(op), symbol(&Op{I: op.J, L: op.L[1:]})
		if x.String() != y.String() || op.I == op.J {
			a.say("equal %v %v", x.Equal(y), y.Equal(x))
		}
	}
	r.subs = a
}

func symbol(op *Op) items.Item {
	c, _ := utf8.DecodeRuneInString(op.L[0])
	switch op.I {
	case 0:
		if c < utf8.RuneSelf {
			return items.Byte(c)
		}
		return items.Rune(c)
	case 1:
		return items.Rune(c)
	case 2, 3:
		return items.Any(op.I - 1)
	}
	return items.Star(1)
}

func askASCII(s *utils.ASCIISet, v string, a *asked) {
	for i := 0; i < len(v); i++ {
		a.say("contains %#x %v", v[i], s.Contains(v[i]))
	}
	a.say("index %d %d", s.Index(v), s.IndexByte([]byte(v)))
	a.say("last index %d %d", s.LastIndex(v), s.LastIndexByte([]byte(v)))
	n, first := s.Count()
	a.say("count %d first %q empty %v", n, first, s.IsEmpty())
	all := s.StringAll()
	a.say("all %q", all)
	var b strings.Builder
	b.WriteString("kept")
	s.WriteStringAll(&b)
	a.say("kept %v", b.String() == "kept"+all)
	x, ok := utils.MakeASCIISet(all)
	a.say("made again %v %v", ok, x == *s)
	b.Reset()
	b.WriteString("kept")
	s.WriteString(&b)
	a.say("kept %v", b.String() == "kept"+s.String())
	rs, ok := utils.RunesRangeExpand("[" + s.String() + "]")
	a.say("printed and parsed %v %v %v", ok, rs.ASCII == *s, len(rs.UnicodeRanges))
}

func wantASCII(m map[rune]bool, v string, a *asked) {
	in := func(i int) bool { return v[i] < utf8.RuneSelf && m[rune(v[i])] }
	first, last := -1, -1
	for i := 0; i < len(v); i++ {
		a.say("contains %#x %v", v[i], in(i))
		if in(i) {
			if first < 0 {
				first = i
			}
			last = i
		}
	}
	a.say("index %d %d", first, first)
	a.say("last index %d %d", last, last)
	l := sortedRunes(m)
	var low byte
	if len(l) > 0 {
		low = byte(l[0])
	}
	a.say("count %d first %q empty %v", len(l), low, len(l) == 0)
	a.say("all %q", string(l))
	a.say("kept true")
	a.say("made again true true")
	a.say("kept true")
	a.say("printed and parsed true true 0")
}

func sortedRunes(m map[rune]bool) (l []rune) {
	for c := range m {
		l = append(l, c)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return
}

func askRunes(rs *utils.RunesRanges, v string, a *asked) {
	for _, c := range v {
		a.say("contains %q %v", c, rs.Contains(c))
	}
	place := func(what string, p int, c rune, n int) {
		if p < 0 {
			a.say("%s none", what)
			return
		}
		a.say("%s %d %q %d", what, p, c, n)
	}
	p, c, n := rs.Index(v)
	place("index", p, c, n)
	p, c, n = rs.IndexByte([]byte(v))
	place("index", p, c, n)
	c, n = rs.StartsWith(v)
	place("starts", n, c, n)
	c, n = rs.EndsWith(v)
	place("ends", n, c, n)
	it := &items.RunesRanges{RunesRanges: *rs}
	p, n, f := it.Find(v)
	place("find", p, rune(f), n)
	p, f = it.Match(v)
	place("match", p, rune(f), 0)
	p, f = it.MatchLast(v)
	place("match last", p, rune(f), 0)
	a.say("whole %v", items.MatchItems(v, []items.Item{it}))
	a.say("sizes %d %d", it.MinLen(), it.MaxLen())
	var b strings.Builder
	b.WriteString("kept")
	s := it.WriteString(&b)
	a.say("kept %v %v", b.String() == "kept"+s, s == rs.String() && s == it.String())
	x, ok := utils.RunesRangeExpand(s)
	a.say("printed and parsed %v %v %v", ok, ok && x.Equal(rs), ok && x.String() == s)
	if y := items.NewRunesRanges(s); y == nil || !y.Equal(it) || !it.Equal(y) {
		a.say("a set made from the printed form %q differs", s)
	}
	if rs.MinSize > 0 {
		b.Reset()
		it.WriteRandom(&b)
		c, n := utf8.DecodeRuneInString(b.String())
		if n != b.Len() || !rs.Contains(c) {
			a.say("sample %q is not in the set", b.String())
		}
	}
}

func wantRunes(m map[rune]bool, v string, a *asked) {
	first, last, whole := "none", "none", false
	starts, ends, find, match, mlast := "none", "none", "none", "none", "none"
	lo, hi := 0, 0
	for c := range m {
		n := utf8.RuneLen(c)
		if lo == 0 || n < lo {
			lo = n
		}
		hi = greater(hi, n)
	}
	for i, c := range v {
		a.say("contains %q %v", c, m[c])
		n := utf8.RuneLen(c)
		if !m[c] {
			continue
		}
		if first == "none" {
			first = fmt.Sprintf("%d %q %d", i, c, n)
			find = fmt.Sprintf("%d %q %d", i, rune(items.FindDone), n)
		}
		last = fmt.Sprintf("%d %q %d", i, c, n)
		if i == 0 {
			starts = fmt.Sprintf("%d %q %d", n, c, n)
			match = fmt.Sprintf("%d %q 0", n, rune(items.FindDone))
			whole = n == len(v)
		}
		if i+n == len(v) {
			ends = fmt.Sprintf("%d %q %d", i, c, i)
			mlast = fmt.Sprintf("%d %q 0", i, rune(items.FindDone))
		}
	}
	_ = last
	a.say("index %s", first)
	a.say("index %s", first)
	a.say("starts %s", starts)
	a.say("ends %s", ends)
	a.say("find %s", find)
	a.say("match %s", match)
	a.say("match last %s", mlast)
	a.say("whole %v", whole)
	a.say("sizes %d %d", lo, hi)
	a.say("kept true true")
	a.say("printed and parsed true true true")
}

func askItem(it items.Item, v string, a *asked) {
	i, n, f := it.Find(v)
	if i < 0 {
		n = 0
	}
	a.say("find %d %d %d", i, n, f)
	i, f = it.Match(v)
	a.say("match %d %d", i, f)
	if l, f := it.MatchLast(v); f == items.FindDone {
		a.say("match last %d", l)
	}
	a.say("whole %v", items.MatchItems(v, []items.Item{it}))
	var b strings.Builder
	b.WriteString("kept")
	var s string
	if w, ok := it.(interface {
		WriteString(buf *strings.Builder) string
	}); ok {
		s = w.WriteString(&b)
	}
	a.say("printed %q %q %v", s, it.String(), b.String() == "kept"+s)
	if v == "" || i == len(v) {
		a.say("fits %v", it.MinLen() <= len(v) && (it.MaxLen() < 0 || len(v) <= it.MaxLen()))
	}
	a.say("equal %v", it.Equal(it))
}

func wantSymbol(op *Op, a *asked) {
	v := op.V
	c, _ := utf8.DecodeRuneInString(op.L[0])
	min := 1
	if op.I >= 2 {
		k := op.I - 1
		if op.I == 4 {
			k = 1
		}
		n, rest := 0, v
		for i := 0; i < k; i++ {
			_, m := utf8.DecodeRuneInString(rest)
			if m == 0 {
				n = -1
				break
			}
			rest, n = rest[m:], n+m
		}
		ff, mf := items.FindForwarded, items.FindDone
		text, whole := strings.Repeat("?", k), n == len(v)
		if op.I == 4 {
			ff, mf, text, whole = items.FindStar, items.FindStar, "*?", n >= 0
		}
		if n < 0 {
			a.say("find -1 0 %d", ff)
		} else {
			a.say("find 0 %d %d", n, ff)
		}
		a.say("match %d %d", n, mf)
		a.say("whole %v", whole)
		a.say("printed %q %q true", text, text)
		min = k
		if v == "" || n == len(v) {
			a.say("fits %v", len(v) >= min)
		}
		a.say("equal true")
		return
	}
	wantText(string(c), v, a)
}

// wantText is what an item of exactly this text answers.
func wantText(t, v string, a *asked) {
	if i := strings.Index(v, t); i < 0 {
		a.say("find -1 0 %d", items.FindDone)
	} else {
		a.say("find %d %d %d", i, len(t), items.FindDone)
	}
	n := -1
	if strings.HasPrefix(v, t) {
		n = len(t)
	}
	a.say("match %d %d", n, items.FindDone)
	l := -1
	if strings.HasSuffix(v, t) {
		l = len(v) - len(t)
	}
	a.say("match last %d", l)
	a.say("whole %v", v == t)
	a.say("printed %q %q true", t, t)
	if v == "" || n == len(v) {
		a.say("fits %v", v == t)
	}
	a.say("equal true")
}

func askText(it *items.String, v string, a *asked) {
	a.say("text %q", it.S)
	a.say("lengths %d %d", it.MinLen(), it.MaxLen())
	a.say("equal %v %v", it.Equal(items.NewString(it.S)), it.Equal(items.NewString(it.S+"x")))
	var b strings.Builder
	b.WriteString("kept")
	it.WriteRandom(&b)
	a.say("sample %q", b.String())
	askItem(it, v, a)
}

// askGroup asks a group made of chains.
func askGroup(g *items.Group, v string, twice bool, a *asked) {
	m := items.MatchItems(v, []items.Item{g})
	a.say("matches %v", m)
	if m {
		a.say("fits %v", g.MinLen() <= len(v) && (g.MaxLen() < 0 || len(v) <= g.MaxLen()))
	}
	if twice {
		a.say("twice %v", items.MatchItems(v+v, []items.Item{g, g}))
	}
	var l []string
	for _, x := range g.Vals {
		l = append(l, x.String())
	}
	var b strings.Builder
	b.WriteString("kept")
	s := g.WriteString(&b)
	a.say("printed %v %v %v", s == g.String(), b.String() == "kept"+s, s == "{"+strings.Join(l, ",")+"}")
	b.Reset()
	g.WriteRandom(&b)
	if !items.MatchItems(b.String(), []items.Item{g}) {
		a.say("sample %q does not match", b.String())
	}
	a.say("equal %v", g.Equal(g))
}

func askChain(c *items.Chain, v string, deep bool, a *asked) {
	s := c.String()
	ns, ok := parseModel(s)
	if deep {
		a.say("deep")
	} else if ok {
		a.say("printed true matches %v", matchNodes(ns, v))
	} else {
		a.say("printed %q, which is no pattern", s)
	}
	m := items.MatchItems(v, c.Items)
	a.say("matches %v", m)
	if m {
		a.say("fits %v", c.MinLen() <= len(v) && (c.MaxLen() < 0 || len(v) <= c.MaxLen()))
	}
	var b strings.Builder
	b.WriteString("kept")
	c.WriteString(&b)
	a.say("kept %v", b.String() == "kept"+s)
	b.Reset()
	c.WriteRandom(&b)
	if !items.MatchItems(b.String(), c.Items) {
		a.say("sample %q does not match", b.String())
	}
	a.say("equal %v", c.Equal(c))
}

func askList(it items.Item, v string, a *asked) {
	a.say("matches %v", items.MatchItems(v, []items.Item{it}))
	s := it.String()
	ns, ok := parseModel(s)
	a.say("printed %v matches %v", ok, ok && matchNodes(ns, v))
	l, ok := it.(*items.StringList)
	if !ok {
		return
	}
	var found, starts []string
	for i := 0; i < l.Len(); i++ {
		p, n := l.FindN(v, i)
		if p >= 0 {
			found = append(found, v[p:p+n]+fmt.Sprintf("@%d", p))
		}
		if n := l.MatchN(v, i); n >= 0 {
			starts = append(starts, v[:n])
		}
	}
	sort.Strings(found)
	sort.Strings(starts)
	a.say("count %d optional %v sizes %d %d", l.Len(), l.IsOptional(), l.MinLen(), l.MaxLen())
	a.say("found %q starts %q", found, starts)
	var all []string
	for k := range l.Map() {
		all = append(all, k)
	}
	sort.Strings(all)
	a.say("map %q", all)
	if i, ok := l.FindFirst(v); ok {
		// nothing can start before, and something may start there
		for _, f := range found {
			var p int
			fmt.Sscanf(f[strings.LastIndexByte(f, '@'):], "@%d", &p)
			if i < 0 || p < i {
				a.say("first %d, but %q", i, f)
			}
		}
	}
	if ok, known := l.MatchFirst(v); known && !ok && len(starts) > 0 {
		a.say("does not start, but %q", starts)
	}
	vals, _ := items.ListExpand(s)
	again, err := items.NewItemList(vals)
	a.say("printed and parsed %v", err == nil && again.Equal(l) && l.Equal(again) && again.String() == s)
}

func wantList(text, v string, a *asked) {
	ns, ok := parseModel(text)
	if !ok {
		panic("harness: list " + text)
	}
	m := matchNodes(ns, v)
	a.say("matches %v", m)
	a.say("printed true matches %v", m)
	vals := strings.Split(text[1:len(text)-1], ",")
	set := map[string]bool{}
	for _, x := range vals {
		if strings.ContainsAny(x, "*?[") {
			return
		}
		set[x] = true
	}
	opt := set[""]
	if len(set) == 1 {
		return
	}
	var all, found, starts []string
	lo, hi := -1, 0
	for x := range set {
		all = append(all, x)
		if lo < 0 || len(x) < lo {
			lo = len(x)
		}
		hi = greater(hi, len(x))
		if x == "" {
			continue
		}
		if i := strings.Index(v, x); i >= 0 {
			found = append(found, fmt.Sprintf("%s@%d", x, i))
		}
		if strings.HasPrefix(v, x) {
			starts = append(starts, x)
		}
	}
	n := len(set)
	if opt {
		n--
	}
	sort.Strings(all)
	sort.Strings(found)
	sort.Strings(starts)
	a.say("count %d optional %v sizes %d %d", n, opt, lo, hi)
	a.say("found %q starts %q", found, starts)
	a.say("map %q", all)
	a.say("printed and parsed true")
}

// builtModel is what the things of C20 must hold.
type builtModel struct {
	ascii   [slots]map[rune]bool
	runes   [slots]map[rune]bool
	pending [slots]bool // runes added and not merged
	texts   [slots]string
	chain   [slots]string
	lists   [slots]string
	nodes   [slots][]node   // what the chains denote
	groups  [slots][][]node // what the values of the groups denote
	deep    [slots]bool
	last    Op // on the groups
	steps   map[string]int
}

// refusedSet: is the text no set, or has it a range that denotes no symbol or
// crosses a length of encoding?
func refusedSet(text string) bool {
	if len(text) < 2 || text[0] != '[' || text[len(text)-1] != ']' {
		return true
	}
	rs := []rune(text[1 : len(text)-1])
	for i := 0; i+2 < len(rs); i++ {
		if rs[i+1] == '-' {
			if rs[i] > rs[i+2] || utf8.RuneLen(rs[i]) != utf8.RuneLen(rs[i+2]) {
				return true
			}
			i += 2
		}
	}
	return false
}

// listVals are the sorted values of a list without wildcards.
func listVals(text string) (l []string) {
	if len(text) < 2 {
		return nil
	}
	set := map[string]bool{}
	for _, x := range strings.Split(text[1:len(text)-1], ",") {
		if strings.ContainsAny(x, "*?[") {
			return nil
		}
		if !set[x] {
			set[x] = true
			l = append(l, x)
		}
	}
	sort.Strings(l)
	return
}

func symbolText(op *Op) string {
	switch op.I {
	case 0, 1:
		return op.L[0]
	case 2, 3:
		return strings.Repeat("?", op.I-1)
	}
	return "*?"
}

// marked puts special symbols between those of a text.
func marked(v string, n int) string {
	var b strings.Builder
	for i, c := range v {
		b.WriteRune(c)
		if (i+n)%3 == 0 {
			b.WriteByte("[]{}*?"[(i+n/3)%6])
		}
	}
	return b.String()
}

// askTools asks the helpers that walk over texts.
func askTools(v string, n int, a *asked) {
	skip := func(from int) int {
		if from < 0 {
			return -1
		}
		return from
	}
	a.say("skip %d last %d", skip(utils.StringSkipRunes(v, n)), skip(utils.StringSkipRunesLast(v, n)))
	at := lesser(n, len(v))
	x, y := utils.SplitString(v, at)
	a.say("split %q %q", x, y)
	a.say("clone %q", utils.CloneString(v))
	w := marked(v, n)
	a.say("wildcards %v %d %v %d %d", items.HasWildcard(v), items.WildcardCount(w), items.HasWildcard(w), items.IndexWildcard(w), items.IndexLastWildcard(w))
	a.say("wildcards %v %d %v %d %d", gglob.HasWildcard(v), gglob.WildcardCount(w), gglob.HasWildcard(w), gglob.IndexWildcard(w), gglob.IndexLastWildcard(w))
	a.say("sum %d %d %d %d", items.AddMaxLen(n, len(v)), items.AddMaxLen(-1, n), items.AddMaxLen(n, -1), utils.Min(n, len(v)))
	l := strings.Split(v, "")
	a.say("same %v %v", utils.SliceEqual(l, strings.Split(v, "")), utils.SliceEqual(l, append(strings.Split(v, ""), "")))
	last := ""
	if len(l) > 0 {
		last = l[0]
	}
	a.say("has %v %v", utils.ContainsReverse(l, last), utils.ContainsReverse(l, "no"))
}

func wantTools(v string, n int, a *asked) {
	rs := []rune(v)
	first, last := -1, -1
	if n <= len(rs) {
		first, last = len(string(rs[:n])), len(string(rs[:len(rs)-n]))
	}
	a.say("skip %d last %d", first, last)
	at := lesser(n, len(v))
	a.say("split %q %q", v[:at], v[at:])
	a.say("clone %q", v)
	count, first, last := 0, -1, -1
	for i, c := range marked(v, n) {
		if strings.ContainsRune("[]{}*?", c) {
			if last = i; first == -1 {
				first = i
			}
			if c != ']' && c != '}' {
				count++
			}
		}
	}
	for k := 0; k < 2; k++ {
		a.say("wildcards false %d %v %d %d", count, first != -1, first, last)
	}
	a.say("sum %d -1 -1 %d", n+len(v), at)
	a.say("same true false")
	a.say("has %v false", len(rs) > 0)
}

func setOf(text string) map[rune]bool {
	m := map[rune]bool{}
	rs := []rune(text)
	rs = rs[1 : len(rs)-1]
	for i := 0; i < len(rs); i++ {
		if i+2 < len(rs) && rs[i+1] == '-' {
			for c := rs[i]; c <= rs[i+2]; c++ {
				m[c] = true
			}
			i += 2
			continue
		}
		m[rs[i]] = true
	}
	return m
}

func (m *builtModel) apply(op *Op) (want asked, question bool) {
	k := op.Slot
	switch op.K {
	case "a.add":
		for i := 0; i < len(op.V); i++ {
			ok := op.V[i] < utf8.RuneSelf
			want.say("add %v", ok)
			if ok {
				m.ascii[k][rune(op.V[i])] = true
			}
		}
	case "a.make":
		ok := true
		for i := 0; i < len(op.V); i++ {
			ok = ok && op.V[i] < utf8.RuneSelf
		}
		want.say("make %v", ok)
		if ok {
			m.ascii[k] = map[rune]bool{}
			for _, c := range op.V {
				m.ascii[k][c] = true
			}
		}
	case "a.clear":
		m.ascii[k] = map[rune]bool{}
	case "a.ask":
		wantASCII(m.ascii[k], op.V, &want)
		question = true
	case "r.add", "r.adds":
		for _, c := range op.V {
			m.runes[k][c] = true
			m.pending[k] = m.pending[k] || c >= utf8.RuneSelf
			if op.K == "r.add" {
				break
			}
		}
		if op.B {
			m.pending[k] = false
		}
	case "r.merge":
		m.pending[k] = false
	case "r.parse":
		if refusedSet(op.V) {
			want.say("parse false")
			break
		}
		want.say("parse true")
		m.runes[k], m.pending[k] = setOf(op.V), false
	case "r.reload":
		want.say("reload true")
		m.pending[k] = false
	case "r.ask":
		if !m.pending[k] {
			wantRunes(m.runes[k], op.V, &want)
			question = true
		}
	case "r.eq":
		if !m.pending[k] && !m.pending[op.J] {
			same := string(sortedRunes(m.runes[k])) == string(sortedRunes(m.runes[op.J]))
			want.say("equal %v %v %v %v", same, same, same, same)
			question = true
		}
	case "t.add":
		m.texts[k] += op.V
	case "t.pre":
		m.texts[k] = op.V + m.texts[k]
	case "t.addr", "t.addb":
		m.texts[k] += op.V
	case "t.prer", "t.preb":
		for _, c := range op.V {
			m.texts[k] = string(c) + m.texts[k]
		}
	case "t.new":
		m.texts[k] = op.V
	case "t.ask":
		t := m.texts[k]
		want.say("text %q", t)
		want.say("lengths %d %d", len(t), len(t))
		want.say("equal true false")
		want.say("sample %q", "kept"+t)
		wantText(t, op.V, &want)
		question = true
	case "t.eq":
		same := m.texts[k] == m.texts[op.J]
		want.say("equal %v %v", same, same)
		question = true
	case "u.ask":
		wantTools(op.V, op.J, &want)
	case "c.eq":
		if m.chain[k] != "" && m.chain[op.J] != "" {
			want.say("equal true")
			want.say("again true true true")
			question = true
		}
	case "l.eq":
		if x, y := listVals(m.lists[k]), listVals(m.lists[op.J]); x != nil && y != nil {
			same := fmt.Sprint(x) == fmt.Sprint(y)
			want.say("equal %v %v", same, same)
			question = true
		}
	case "x.cmp":
		x, y := symbolText(op), symbolText(&Op{I: op.J, L: op.L[1:]})
		if x != y || op.I == op.J {
			want.say("equal %v %v", x == y, x == y)
		}
	case "c.new":
		m.chain[k] = op.V
		m.nodes[k], _ = parseModel(op.V)
		m.deep[k] = false
	case "c.add":
		m.chain[k] += op.V
		ns, _ := parseModel(op.V)
		m.nodes[k] = append(m.nodes[k][:len(m.nodes[k]):len(m.nodes[k])], ns...)
	case "n.new":
		m.groups[k] = nil
	case "n.val":
		m.groups[k] = append(m.groups[k][:len(m.groups[k]):len(m.groups[k])], m.nodes[op.J])
		m.chain[op.J], m.nodes[op.J], m.deep[op.J] = "", nil, false
	case "n.in":
		if len(m.groups[op.J]) > 0 {
			m.nodes[k] = append(m.nodes[k][:len(m.nodes[k]):len(m.nodes[k])], node{kind: nAlt, alts: m.groups[op.J]})
			m.chain[k] += "{...}"
			m.deep[k] = true
		}
	case "n.ask":
		ns := []node{{kind: nAlt, alts: m.groups[k]}}
		if wt := nodeWeight(ns); len(m.groups[k]) > 0 && bearable(wt, op.V) {
			ok := matchNodes(ns, op.V)
			want.say("matches %v", ok)
			if ok {
				want.say("fits true")
			}
			if bearable(2*wt, op.V) {
				want.say("twice %v", matchNodes(append(ns, ns...), op.V+op.V))
			}
			want.say("printed true true true")
			want.say("equal true")
			question = true
		}
	case "c.ask":
		if !bearable(nodeWeight(m.nodes[k]), op.V) {
			break
		}
		ok := matchNodes(m.nodes[k], op.V)
		if m.deep[k] {
			want.say("deep")
		} else {
			want.say("printed true matches %v", ok)
		}
		want.say("matches %v", ok)
		if ok {
			want.say("fits true")
		}
		want.say("kept true")
		want.say("equal true")
		question = true
	case "l.make":
		want.say("make true <nil>")
		m.lists[k] = op.V
		if ns, ok := parseModel(op.V); ok && emptyOnly(ns) {
			// nothing but empty values is no item
			m.lists[k] = ""
		}
	case "l.ask":
		if m.lists[k] != "" {
			wantList(m.lists[k], op.V, &want)
			question = true
		}
	case "x.ask":
		wantSymbol(op, &want)
		question = true
	}
	if !question && op.K[1:] != ".ask" && op.K != "r.eq" && m.steps != nil {
		m.steps[fmt.Sprint(op.K[:2], k)]++
	}
	return
}

func judgeC20(c *ctx) *failure {
	p := c.p
	w := &world{p: p, things: newThings()}
	zz.ResetGlobals()
	log, z := c.slotted(w)
	if f := checkStop(z); f != nil {
		return f
	}
	if s := w.changed(); s != "" {
		return failf("changed", "%s", s)
	}
	m := &builtModel{steps: map[string]int{}}
	for i := range m.ascii {
		m.ascii[i], m.runes[i] = map[rune]bool{}, map[rune]bool{}
	}
	for _, e := range log {
		op, r := e.op, e.r
		where := fmt.Sprintf("op %d (caller %d) %s", r.pos, e.c, op)
		if r.panicked != "" {
			return failf("panic", "%s panicked: %s", where, r.panicked)
		}
		want, question := m.apply(op)
		for i := 0; i < len(want) || i < len(r.subs); i++ {
			x, y := "nothing", "nothing"
			if i < len(want) {
				x = want[i]
			}
			if i < len(r.subs) {
				y = r.subs[i]
			}
			if x != y {
				return failf("built", "%s\n  expected: %s\n  answered: %s\n  built so far: %s", where, x, y, m.show(op))
			}
		}
		if question && m.steps[fmt.Sprint(op.K[:2], op.Slot)] > 1 {
			c.nt = true
		}
		if strings.HasSuffix(op.K, ".reload") {
			c.fault("lost and built again from its printed form", 1)
		}
	}
	return nil
}

func (m *builtModel) show(op *Op) string {
	switch op.K[0] {
	case 'a':
		return fmt.Sprintf("%q", string(sortedRunes(m.ascii[op.Slot])))
	case 'r':
		return fmt.Sprintf("%q", show(string(sortedRunes(m.runes[op.Slot]))))
	case 't':
		return fmt.Sprintf("%q", m.texts[op.Slot])
	case 'c':
		return fmt.Sprintf("%q", m.chain[op.Slot])
	case 'l':
		return fmt.Sprintf("%q", m.lists[op.Slot])
	}
	return op.K
}

func lesser[T rune | int](a, b T) T {
	if a < b {
		return a
	}
	return b
}

func greater[T rune | int](a, b T) T {
	if a > b {
		return a
	}
	return b
}
