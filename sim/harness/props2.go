package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"MODULE/gglob"
	"MODULE/gtags"
	"MODULE/pkg/escape"
	"MODULE/pkg/items"
	zz "MODULE/zzsimrt"
)

func init() {
	scenarios["C08"] = scenario{genC08, judgeC08, "a buffer or sink was used at least twice"}
	scenarios["C09"] = scenario{genC09, judgeC09, "at least two appends to one buffer"}
	scenarios["C10"] = scenario{genC10, judgeC10, "an expression was expanded at least twice and returned something"}
	scenarios["C11"] = scenario{genC11, judgeC11, "at least two callers whose calls were interleaved"}
	scenarios["C12"] = scenario{genC12, judgeC12, "at least one sample was drawn"}
	scenarios["C14"] = scenario{genC14, judgeC14, "arguments or results were overwritten and later calls delivered something"}
	scenarios["C16"] = scenario{genC16, judgeC16, "at least one restart with a non-empty table, followed by a match that delivered something"}
	scenarios["C17"] = scenario{genC17, judgeC17, "replicas ran under different environments and delivered something"}
	scenarios["C18"] = scenario{genC18, judgeC18, "calls that did at least a hundred steps of work, or a stalled sink"}
}

// ---------------------------------------------------------------- views (C07)

// views asks one matcher about one value in every way there is and compares.
func (w *world) views(th, opn int, o *object, op *Op, r *opRes) {
	forms := []string{"m"}
	switch o.kind {
	case "ggtree":
		forms = append(forms, "mp", "split", "splitB")
	case "ttree":
		forms = append(forms, "mm")
		if len(op.T) > 1 {
			forms = append(forms, tagForms...)
		}
	}
	bad := func(format string, a ...interface{}) {
		if r.viol == "" {
			r.viol = fmt.Sprintf(format, a...)
		}
	}
	var base *opRes
	all, min, idx, str := items.NewAllStore(), items.NewMinStore(), items.NewIndexStore(), items.NewStringStore()
	if op.I&1 != 0 {
		all.Grow(3)
		idx.Grow(2)
		str.Grow(2)
	}
	for k, form := range forms {
		zz.Renew()
		rec := &opRes{}
		n := w.matchTree(o, form, op.V, op.T, &recSink{w, th, opn, nil, rec}, rec)
		r.del = append(r.del, rec.del...)
		r.count = n
		if n != len(rec.del) {
			bad("form %s returned %d but delivered %d: %v", form, n, len(rec.del), rec.del)
		}
		if base == nil {
			base = rec
		} else if base.sorted() != rec.sorted() {
			bad("form %s reports %s, form %s reports %s", forms[0], base.sorted(), form, rec.sorted())
		}
		if rec.viol != "" {
			bad("%s", rec.viol)
		}
		if k > 1 && k != 2+(op.I>>1)%(len(forms)-2) {
			continue // all sinks with some of the forms only
		}
		lowest := -1
		var is []int
		var ss []string
		for _, d := range rec.del {
			is, ss = append(is, d.i), append(ss, d.s)
			if lowest < 0 || d.i < lowest {
				lowest = d.i
			}
		}
		// recycled between the forms
		all.Init()
		min.Init()
		idx.Init()
		str.Init()
		if k := w.matchTree(o, form, op.V, op.T, all, rec); k != n {
			bad("form %s returned %d with a recording sink and %d with an AllStore", form, n, k)
		}
		if fmt.Sprint(all.Index.N) != fmt.Sprint(is) || fmt.Sprintf("%q", all.S.S) != fmt.Sprintf("%q", ss) || all.Min.Min != lowest {
			bad("form %s: AllStore holds %s, delivered was %v", form, showSink(all), rec.del)
		}
		k1 := w.matchTree(o, form, op.V, op.T, min, rec)
		k2 := w.matchTree(o, form, op.V, op.T, idx, rec)
		k3 := w.matchTree(o, form, op.V, op.T, str, rec)
		if k1 != n || k2 != n || k3 != n {
			bad("form %s returned %d, but %d, %d and %d with other sinks", form, n, k1, k2, k3)
		}
		if min.Min != lowest {
			bad("form %s: MinStore holds %d, the lowest delivered index is %d", form, min.Min, lowest)
		}
		if fmt.Sprint(idx.N) != fmt.Sprint(is) {
			bad("form %s: IndexStore holds %v, delivered was %v", form, idx.N, is)
		}
		if fmt.Sprintf("%q", str.S) != fmt.Sprintf("%q", ss) {
			bad("form %s: StringStore holds %q, delivered was %q", form, str.S, ss)
		}
	}
	// the same patterns one by one
	want := map[int]string{}
	for _, a := range o.acc {
		zz.Renew()
		one := compile(kindOf(o.kind), a.text)
		if one.err != "" {
			bad("pattern %q was accepted but does not compile: %s", a.text, one.err)
			continue
		}
		var first bool
		for k, form := range forms {
			ok := w.matchOne(one, form, op.V, op.T, r)
			if r.viol != "" {
				return
			}
			if k == 0 {
				first = ok
			} else if ok != first {
				bad("pattern %q alone: form %s returns %v, form %s returns %v", a.text, forms[0], first, form, ok)
			}
		}
		if one.kind == "gglob" {
			parts := cutPath(op.V)
			if ok := one.gg.MatchByParts(parts, 0); ok != first {
				bad("pattern %q alone: Match returns %v, MatchByParts without a length returns %v", a.text, first, ok)
			}
		}
		if first {
			switch one.kind {
			case "glob":
				want[a.index] = one.g.Node
			case "gglob":
				want[a.index] = one.gg.Node
			default:
				want[a.index] = one.tl.String()
			}
		}
	}
	got := map[int]string{}
	for _, d := range base.del {
		got[d.i] = d.s
	}
	if s := diffMaps(got, want); s != "" {
		bad("batch matcher against the same patterns one by one: %s", s)
	}
}

// ---------------------------------------------------------------- C08

func genC08(g *gen, p *Plan) {
	kind := kinds[g.r.Intn(3)]
	p.Objs = []ObjSpec{{Kind: treeOf(kind), Regs: g.regs(kind, g.count(6, 10, 20))}}
	n := 1 + g.r.Intn(3)
	ops := g.spell(2 + g.r.Intn(10))
	p.Clients = make([][]Op, n)
	mode := g.r.Intn(4)
	for ; ops > 0; ops-- {
		var op Op
		k := mode
		if k == 3 {
			k = g.r.Intn(3)
		}
		switch k {
		case 0:
			op = Op{K: "b.split", Slot: g.r.Intn(2), V: g.path()}
		case 1:
			op = Op{K: []string{"b.ptags", "b.gptags"}[g.r.Intn(2)], Slot: g.r.Intn(2)}
			op.V = g.tagPath(op.K == "b.gptags")
		default:
			op = g.matchOp(p, 0, p.Objs[0].pats())
			op.L = []string{op.K}
			op.K = "b.sink"
			op.Slot = g.r.Intn(5)
			op.S = &Sink{Kind: "rec", Init: g.r.Chance(700)}
			if g.r.Chance(250) {
				op.S.Grow = 1 + g.r.Intn(8)
			}
			if g.r.Chance(200) {
				op.S.Fault, op.S.At = []string{"panic", "goexit"}[g.r.Intn(2)], g.r.Intn(3)
			}
		}
		if k < 2 && g.r.Chance(200) {
			op = Op{K: "b.scribble", Slot: op.Slot, I: k, J: g.r.Intn(4)}
		}
		c := g.r.Intn(n)
		p.Clients[c] = append(p.Clients[c], op)
	}
	p.Strat = g.strategy()
}

func (g *gen) path() string {
	s := g.value("gglob", g.part)
	switch g.r.Intn(8) {
	case 0:
		s = strings.Replace(s, ".", "..", 1)
	case 1:
		s = "." + s
	case 2:
		s = ""
	case 3:
		s = s + ".."
	}
	return s
}

// teeSink passes deliveries on to a library sink and may fail afterwards.
type teeSink struct {
	rec *recSink
	to  items.Store
}

func (t *teeSink) Store(s string, index int) {
	t.to.Store(s, index)
	t.rec.Store(s, index)
}

func newStore(slot int) items.Store {
	switch slot {
	case 1:
		return items.NewMinStore()
	case 2:
		return items.NewIndexStore()
	case 3:
		return items.NewStringStore()
	}
	return items.NewAllStore()
}

func resetStore(st items.Store) {
	switch k := st.(type) {
	case *items.AllStore:
		k.Init()
	case *items.MinStore:
		k.Init()
	case *items.IndexStore:
		k.Init()
	case *items.StringStore:
		k.Init()
	}
}

func growStore(st items.Store, n int) {
	switch k := st.(type) {
	case *items.AllStore:
		k.Grow(n)
	case *items.IndexStore:
		k.Grow(n)
	case *items.StringStore:
		k.Grow(n)
	}
}

// bufferOp uses a buffer or sink that is handed from caller to caller.
func (w *world) bufferOp(th, opn int, op *Op, r *opRes) {
	switch op.K {
	case "b.scribble":
		if op.I == 0 {
			b := (*w.parts[op.Slot])[:cap(*w.parts[op.Slot])]
			for i := range b {
				b[i] = "\x00left over"
			}
			switch op.J {
			case 0:
				*w.parts[op.Slot] = b
			case 1:
				if len(b) < 4096 {
					b = append(b, "a", "b", "c")
				}
				*w.parts[op.Slot] = b
			case 2:
				*w.parts[op.Slot] = b[:0]
			}
			return
		}
		m := w.maps[op.Slot]
		for k := range m {
			m[k] = "\x00left over"
		}
		m["left over"] = ""
		m["__name__"] = "left over"
		m["a"] = "left over"
	case "b.split":
		ok := gglob.PathSplitB(op.V, w.parts[op.Slot])
		r.ret = fmt.Sprintf("%v %q", ok, *w.parts[op.Slot])
	case "b.ptags":
		err := gtags.PathTagsMapB(op.V, w.maps[op.Slot])
		r.ret = showErr(err) + " " + showMap(w.maps[op.Slot])
	case "b.gptags":
		err := gtags.GraphitePathTagsMapB(op.V, w.maps[op.Slot])
		r.ret = showErr(err) + " " + showMap(w.maps[op.Slot])
	case "b.sink":
		st := w.sinks[op.Slot]
		if op.S.Init {
			resetStore(st)
		}
		if op.S.Grow > 0 {
			growStore(st, op.S.Grow)
		}
		defer func() { r.sink = showSink(st) }()
		w.objsUse(th, opn, op, r, st)
	}
}

func (w *world) objsUse(th, opn int, op *Op, r *opRes, st items.Store) {
	o := w.objs[op.O]
	if o.err != "" {
		r.ret = o.err
		return
	}
	var to items.Store = st
	if op.S.Fault != "" {
		to = &teeSink{&recSink{w, th, opn, op.S, r}, st}
	}
	n := w.matchTree(o, op.L[0], op.V, op.T, to, r)
	r.del = nil
	r.ret = fmt.Sprintf("n=%d", n)
}

func (w *world) makeBuffers() {
	for i := 0; i < 5; i++ {
		w.parts = append(w.parts, new([]string))
		w.maps = append(w.maps, map[string]string{})
		w.sinks = append(w.sinks, newStore(i))
	}
}

func judgeC08(c *ctx) *failure {
	p := c.p
	w := &world{p: p}
	zz.ResetGlobals()
	if stop := c.solo(p.Env, func() { w.objs = buildAll(p, -1); w.makeBuffers() }); stop != "" {
		return nil
	}
	if f := c.wear(w); f != nil {
		return f
	}
	log, z := c.exclusive(w)
	if f := checkStop(z); f != nil {
		return f
	}
	uses := map[string]int{}
	groups := map[int][]logEntry{}
	for _, e := range log {
		op, r := e.op, e.r
		if op.K == "b.scribble" {
			c.fault("buffer left scribbled over", 1)
			continue
		}
		if op.K == "b.sink" {
			if op.S.Init {
				groups[op.Slot] = nil
			}
			groups[op.Slot] = append(groups[op.Slot], e)
		}
		uses[fmt.Sprint(op.K == "b.sink", op.K == "b.split", op.Slot)]++
		// the same on brand-new buffers
		fw := &world{p: p}
		fr := &opRes{}
		stop := c.pristine(func() {
			fw.makeBuffers()
			if op.K != "b.sink" {
				fw.safe(0, 0, op, fr)
				return
			}
			fw.objs = buildAll(p, op.O)
			for _, x := range groups[op.Slot] {
				q := *x.op
				s := *q.S
				s.Init, s.Grow = false, 0
				q.S = &s
				fr = &opRes{}
				fw.safe(0, 0, &q, fr)
			}
		})
		if stop != "" {
			fr.panicked += stop
		}
		if r.out() != fr.out() {
			return failf("recycled", "op %d (caller %d) %s\n  brand-new: %s\n  recycled:  %s", r.pos, e.c, op, show(fr.out()), show(r.out()))
		}
	}
	c.nt = false
	for _, n := range uses {
		c.nt = c.nt || n > 1
	}
	return nil
}

// exclusive runs the clients with one lock around every op.
func (c *ctx) exclusive(w *world) (log []logEntry, z zz.Result) {
	p := c.p
	var all []*logEntry
	var bodies []func()
	for i := range p.Clients {
		i := i
		ops := p.Clients[i]
		for j := range ops {
			all = append(all, &logEntry{i, j, &ops[j], &opRes{pos: -1}})
		}
		mine := all[len(all)-len(ops):]
		bodies = append(bodies, func() {
			for j := range ops {
				zz.BeginOp(j)
				func() {
					w.mu.Lock()
					defer w.mu.Unlock()
					w.clock++
					mine[j].r.pos = w.clock
					w.safe(i, j, &ops[j], mine[j].r)
				}()
			}
		})
	}
	z = c.run(c.config(2000), bodies)
	for _, e := range all {
		if e.r.pos >= 0 {
			log = append(log, *e)
		}
		c.account(e.op, e.r)
	}
	sort.SliceStable(log, func(i, j int) bool { return log[i].r.pos < log[j].r.pos })
	return
}

// ---------------------------------------------------------------- C09

// text draws a text for the encoders.
func (g *gen) text() string {
	var b strings.Builder
	for k := g.r.Intn(6); k > 0; k-- {
		switch g.r.Intn(6) {
		case 0, 1:
			b.WriteString(g.lit())
		case 2:
			b.WriteByte(byte(g.r.Intn(256)))
		case 3:
			b.WriteString(g.pick([]string{" ", "%", "+", "%2", "%zz", "%41", "%e2%82%ac", "&", "=", "?", "a b", "/", "~", "%%", "%2B", "%4", "%+", "%%41", "%a+"}))
		case 4:
			b.WriteString(g.escaped(g.lit() + " " + g.lit()))
		case 5:
			b.WriteString(strings.Repeat(g.lit(), 1+g.r.Intn(6)))
		}
	}
	s := b.String()
	if s != "" && g.r.Chance(120) {
		// beyond every buffer of a fixed size
		s = strings.Repeat(s, 1+(40+g.r.Intn(300))/len(s))
	}
	return s
}

func genC09(g *gen, p *Plan) {
	n := 1 + g.r.Intn(3)
	p.Clients = make([][]Op, n)
	for k := g.spell(2 + g.r.Intn(10)); k > 0; k-- {
		op := Op{K: []string{"s.esc", "s.escp", "s.unesc", "s.unescn"}[g.r.Intn(4)], Slot: g.r.Intn(2), V: g.text()}
		if g.r.Chance(200) {
			op.K = []string{"s.raw", "s.reset", "s.grow"}[g.r.Intn(3)]
			op.I = g.r.Intn(2)
			op.J = g.r.Intn(100)
		} else if g.r.Chance(250) {
			op.K, op.O = []string{"esc", "escp", "unesc"}[g.r.Intn(3)], -1
		}
		c := g.r.Intn(n)
		p.Clients[c] = append(p.Clients[c], op)
	}
	p.Strat = g.strategy()
}

func (w *world) streamOp(th, opn int, op *Op, r *opRes) {
	b, s := w.bufs[op.Slot], w.sbs[op.Slot]
	switch op.K {
	case "s.esc":
		escape.QueryTo(op.V, b)
	case "s.escp":
		escape.PathTo(op.V, b)
	case "s.unesc":
		x := escape.UnescapeTo(op.V, s)
		w.keep(th, opn, x)
		r.subs = []string{x}
	case "s.unescn":
		x, y := escape.UnescapeNameTo(op.V, s)
		w.keep(th, opn, x)
		w.keep(th, opn, y)
		r.subs = []string{x, y}
	case "s.raw":
		if op.I == 0 {
			b.WriteString(op.V)
		} else {
			s.WriteString(op.V)
		}
	case "s.reset":
		if op.I == 0 {
			b.Reset()
		} else {
			s.Reset()
		}
	case "s.grow":
		if op.I == 0 {
			b.Grow(op.J)
		} else {
			s.Grow(op.J)
		}
	}
	r.ret, r.sink = strings.Clone(b.String()), strings.Clone(s.String())
	w.keep(th, opn, s.String())
}

func judgeC09(c *ctx) *failure {
	p := c.p
	w := &world{p: p}
	for i := 0; i < 2; i++ {
		w.bufs = append(w.bufs, new(bytes.Buffer))
		w.sbs = append(w.sbs, new(strings.Builder))
	}
	zz.ResetGlobals()
	if f := c.wear(w); f != nil {
		return f
	}
	log, z := c.exclusive(w)
	if f := checkStop(z); f != nil {
		return f
	}
	if s := w.changed(); s != "" {
		return failf("changed", "%s", s)
	}
	buf, sb := []string{"", ""}, []string{"", ""}
	appends := 0
	for _, e := range log {
		op, r := e.op, e.r
		where := fmt.Sprintf("op %d (caller %d) %s", r.pos, e.c, op)
		if r.panicked != "" {
			return failf("panic", "%s panicked: %s", where, r.panicked)
		}
		if op.K == "esc" || op.K == "escp" || op.K == "unesc" {
			if want := c.ref(op).out(); r.out() != want {
				return failf("returned", "%s returned %s, in a fresh process it returns %s", where, show(r.out()), show(want))
			}
			continue
		}
		b, s := buf[op.Slot], sb[op.Slot]
		plain := func(k string) string { return c.ref(&Op{K: k, O: -1, V: op.V}).ret }
		wantB, wantS, altS := b, s, ""
		if op.K == "s.esc" || op.K == "s.escp" {
			if x, y := escapeModel(op.V, op.K == "s.escp"), plain(op.K[2:]); x != y {
				return failf("escaped", "%s: escaped is %q, the buffer-less form returns %q", where, x, y)
			}
			if x := c.ref(&Op{K: "unesc", O: -1, V: plain(op.K[2:])}).ret; x != op.V && (op.K == "s.esc" || !strings.Contains(op.V, "+")) {
				return failf("roundtrip", "%s: escaped and unescaped it becomes %q", where, x)
			}
		} else if op.K == "s.unesc" || op.K == "s.unescn" {
			c.st.Counts["compared with the escaping model"]++
			if x, y := unescapeModel(op.V), plain("unesc"); x != y {
				return failf("unescaped", "%s: unescaped is %q, the buffer-less form returns %q", where, x, y)
			}
		}
		switch op.K {
		case "s.esc":
			wantB += plain("esc")
		case "s.escp":
			wantB += plain("escp")
		case "s.unesc":
			t := plain("unesc")
			if r.subs[0] != t {
				return failf("returned", "%s returned %q, the buffer-less form returns %q", where, r.subs[0], t)
			}
			wantS += t
			if !strings.ContainsAny(op.V, "%+") {
				altS, wantS = wantS, s // nothing to decode: nothing needs to be appended
			}
		case "s.unescn":
			t := plain("unesc")
			if r.subs[0] != t {
				return failf("returned", "%s returned the name %q, the buffer-less form returns %q", where, r.subs[0], t)
			}
			const prefix = "__name__="
			if r.subs[1] != prefix+t {
				return failf("returned", "%s returned the tag %q instead of %q", where, r.subs[1], prefix+t)
			}
			wantS += prefix + t
		case "s.raw":
			if op.I == 0 {
				wantB += op.V
			} else {
				wantS += op.V
			}
		case "s.reset":
			if op.I == 0 {
				wantB = ""
			} else {
				wantS = ""
			}
		}
		if r.ret != wantB {
			return failf("stream", "%s\n  buffer before: %q\n  after:         %q\n  expected:      %q", where, b, r.ret, wantB)
		}
		if r.sink != wantS && (altS == "" || r.sink != altS) {
			return failf("stream", "%s\n  builder before: %q\n  after:          %q\n  expected:       %q", where, s, r.sink, wantS)
		}
		buf[op.Slot], sb[op.Slot] = r.ret, r.sink
		appends++
	}
	c.nt = appends > 1
	return nil
}

// ---------------------------------------------------------------- C10

// expression draws a brace expression whose full expansion stays small.
func (g *gen) expression(limit int) string {
	var b strings.Builder
	n, k, most := 1, 1+g.r.Intn(6), 4
	switch g.wide {
	case "tags", "many":
		k *= 1 + g.r.Intn(40)
	case "list":
		most = 1 + g.r.Intn(300)
	}
	for ; k > 0; k-- {
		var x string
		switch g.r.Intn(7) {
		case 0, 1:
			x = g.lit()
		case 2:
			x = "."
			if g.wide == "parts" && g.r.Chance(500) {
				x = strings.Repeat(g.pick([]string{".", ".", "a.", "я."}), []int{15, 31, 63, 64, 100, 127, 128, 255, 256, 257, 300}[g.r.Intn(11)])
			}
		case 3, 4:
			var vs []string
			for i := 1 + g.r.Intn(most); i > 0; i-- {
				switch {
				case g.r.Chance(150):
					vs = append(vs, "")
				case g.r.Chance(100) && len(vs) > 0:
					vs = append(vs, vs[0])
				case g.r.Chance(80):
					vs = append(vs, g.lit()+"."+g.lit())
				default:
					vs = append(vs, g.lit())
				}
			}
			x = "{" + strings.Join(vs, ",") + "}"
		case 5:
			x = g.pick([]string{"[a-c]", "[0-2]", "[ab]", "[024]", "[a]", "[x-z0]", "[ac-e]", "[cba]", "[b-da-c]", "[c-a]", "[a-я]", "[]", "[\u044f]", "[a-b\u044f]"})
			if g.r.Chance(400) {
				x = g.class()
			}
		case 6:
			x = g.lit()
			if k := g.r.Intn(16); k < 9 {
				x = []string{"*", "?", "{}", "{a,{b,c}}", "}", "]", "{a", "[a", "{a[b],c}"}[k]
			}
		}
		m := 1
		if l, ok := parseExpression(x); ok {
			for _, p := range l {
				if len(p.alts) > 0 {
					m *= len(p.alts)
				}
			}
		}
		if n*m > limit {
			continue
		}
		n *= m
		b.WriteString(x)
	}
	return b.String()
}

func (g *gen) expandArgs(op *Op) {
	op.I = []int{-1, -1, -1, 1, 2, 3, 5, 10, 30, 0}[g.r.Intn(10)]
	op.J = []int{0, 0, 0, -1, 1, 1, 2, 3}[g.r.Intn(8)]
	if g.r.Chance(40) {
		op.I = []int{-2, -3, -100, -1 << 31, -1 << 63}[g.r.Intn(5)] // no limit either
	}
	if g.r.Chance(30) {
		op.I = []int{255, 256, 1 << 15, 1 << 16, 1 << 31, 1<<32 + 1, 1 << 62, 1<<63 - 1}[g.r.Intn(8)]
	}
	if g.r.Chance(40) {
		op.J = []int{-2, -100, -1 << 63, 255, 256, 1 << 16, 1 << 32, 1<<63 - 2}[g.r.Intn(8)]
	}
	op.B = g.r.Chance(250)
}

// around draws a limit next to how many texts the first elements denote.
func (g *gen) around(text string) int {
	n := 1
	if l, ok := parseExpression(text); ok {
		for _, p := range l[:g.r.Intn(len(l)+1)] {
			if len(p.alts) > 0 {
				n *= len(p.alts)
			}
		}
	}
	if n += g.r.Intn(3) - 1; n < 1 {
		n = 1
	}
	return n
}

func genC10(g *gen, p *Plan) {
	n := 1 + g.r.Intn(2)
	for i := 0; i < n; i++ {
		p.Objs = append(p.Objs, ObjSpec{Kind: "expr", Text: g.expression(200)})
	}
	nc := 1 + g.r.Intn(3)
	p.Clients = make([][]Op, nc)
	for k := g.spell(2 + g.r.Intn(7)); k > 0; k-- {
		op := Op{K: "expand", O: g.r.Intn(n)}
		g.expandArgs(&op)
		text := p.Objs[op.O].Text
		if g.r.Chance(150) {
			text = g.expression(100)
			op = Op{K: []string{"exp", "exptry"}[g.r.Intn(2)], O: -1, V: text, I: op.I, J: op.J}
		}
		if g.r.Chance(300) {
			op.I = g.around(text)
		}
		if d := strings.Count(text, "."); g.r.Chance(50) || d > 6 && g.r.Chance(600) {
			op.J = []int{d, d + 1, d - 1, d / 2, g.r.Intn(d + 1)}[g.r.Intn(5)] // a depth it reaches
		}
		c := g.r.Intn(nc)
		p.Clients[c] = append(p.Clients[c], op)
	}
	p.Strat = g.strategy()
}

func judgeC10(c *ctx) *failure {
	p := c.p
	var refs []map[int]*opRes
	for i := range p.Clients {
		m := map[int]*opRes{}
		for j := range p.Clients[i] {
			m[j] = c.ref(&p.Clients[i][j])
		}
		refs = append(refs, m)
	}
	w := &world{p: p}
	zz.ResetGlobals()
	if stop := c.solo(p.Env, func() { w.objs = buildAll(p, -1) }); stop != "" {
		return nil
	}
	if f := c.wear(w); f != nil {
		return f
	}
	log, z := c.exclusive(w)
	if f := checkStop(z); f != nil {
		return f
	}
	n := 0
	for _, e := range log {
		if ref := refs[e.c][e.j]; e.r.out() != ref.out() {
			return failf("repeat", "expansion %d (caller %d) %s\n  fresh parse: %s\n  this parse:  %s", e.r.pos, e.c, e.op, show(ref.out()), show(e.r.out()))
		}
		text, try := e.op.V, e.op.K == "exptry"
		if e.op.K == "expand" {
			n++
			text, try = p.Objs[e.op.O].Text, e.op.B
		}
		if want, ok := expandModel(text, e.op.I, e.op.J, try); ok {
			c.st.Counts["compared with the expansion model"]++
			if s := fmt.Sprintf("%q %s", want, showErr(nil)); e.r.ret != s {
				return failf("denotes", "expansion %d (caller %d) of %q %s\n  denotes: %s\n  returned: %s", e.r.pos, e.c, text, e.op, show(s), show(e.r.ret))
			}
		}
	}
	if s := w.changed(); s != "" {
		return failf("changed", "%s", s)
	}
	c.nt = c.nt && n > 1
	return nil
}

// ---------------------------------------------------------------- C11

// stateless draws a call that needs no shared object.
func (g *gen) stateless() Op {
	op := Op{O: -1}
	vals := func(kind, pat string) (l []string) {
		for k := g.r.Intn(3); k > 0; k-- {
			l = append(l, g.value(kind, []string{pat}))
		}
		return
	}
	switch g.r.Intn(22) {
	case 0, 1:
		op.K, op.V = "pg", g.pattern("glob")
		op.L = vals("glob", op.V)
		if g.r.Chance(150) {
			op.V, op.Bad, op.L = g.malformed("glob"), true, nil
		}
	case 2, 3:
		op.K, op.V = "pgg", g.pattern("gglob")
		op.L = vals("gglob", op.V)
		if g.r.Chance(150) {
			op.V, op.Bad, op.L = g.malformed("gglob"), true, nil
		}
	case 4, 5:
		op.K, op.V = "pq", g.pattern("tags")
		op.T = g.tags([]string{op.V})
		if g.r.Chance(150) {
			op.V, op.Bad, op.T = g.malformed("tags"), true, nil
		}
	case 6:
		q := g.pattern("tags")
		cs, _ := splitQuery(q)
		op.K, op.L = "pc", cs
		if g.r.Chance(150) {
			op.L = append(op.L, "broken")
		}
		op.T = g.tags([]string{q})
	case 7, 8:
		kind := kinds[g.r.Intn(3)]
		op.K, op.V, op.B = "tree", treeOf(kind), g.r.Chance(300)
		if g.r.Chance(250) {
			op.V = kind
		}
		for k := 1 + g.r.Intn(4); k > 0; k-- {
			op.L = append(op.L, g.pattern(kind))
		}
		if kind == "tags" {
			op.T = g.tags(op.L)
		} else {
			for k := 1 + g.r.Intn(2); k > 0; k-- {
				op.T = append(op.T, [2]string{g.value(kind, op.L), ""})
			}
		}
	case 9:
		op.K, op.V = []string{"split", "splitb"}[g.r.Intn(2)], g.path()
		op.B = g.r.Chance(500)
	case 10, 11:
		op.K = []string{"ptags", "ptagsm", "ptagsmb"}[g.r.Intn(3)]
		op.V = g.tagPath(false)
	case 12:
		op.K = []string{"gptags", "gptagsm", "gptagsmb"}[g.r.Intn(3)]
		op.V = g.tagPath(true)
	case 13:
		op.K, op.T = "tagsmap", g.tags(nil)
		if g.r.Chance(150) {
			op.T = nil
		}
	case 14:
		op.K, op.V = []string{"nexttag", "gnexttag"}[g.r.Intn(2)], g.tagPath(g.r.Chance(500))
	case 15, 16:
		op.K, op.V = []string{"esc", "escp", "unesc", "escto", "escpto", "unescto", "unescnto"}[g.r.Intn(7)], g.text()
		op.B = g.r.Chance(300)
	case 17, 18:
		op.K, op.V = []string{"exp", "exptry", "expr"}[g.r.Intn(3)], g.expression(60)
		g.expandArgs(&op)
		if op.K != "expr" {
			op.B = false
		}
	case 19:
		op.K, op.V = "rr", strings.Trim(g.class(), "[]")
		op.L = []string{g.lit(), g.lit()}
	case 20:
		s := 0
		op.K, op.V = "le", g.list(&s)
	case 21:
		op.K, op.V = "util", g.pattern([]string{"glob", "gglob"}[g.r.Intn(2)])
	}
	return op
}

func genC11(g *gen, p *Plan) {
	n, each := g.crowd(2+g.r.Intn(3), 5)
	each = g.spells(n, each)
	var common []Op
	for i := 0; i < n; i++ {
		var ops []Op
		for k := 1 + g.r.Intn(each); k > 0; k-- {
			op := g.stateless()
			if len(common) > 0 && g.r.Chance(250) {
				op = common[g.r.Intn(len(common))]
			}
			common = append(common, op)
			ops = append(ops, op)
		}
		p.Clients = append(p.Clients, ops)
	}
	for k := g.r.Intn(4); k > 0; k-- {
		op := g.stateless()
		if g.r.Chance(500) {
			op = common[g.r.Intn(len(common))]
		}
		p.Tail = append(p.Tail, op)
	}
	p.Strat = g.strategy()
}

func judgeC11(c *ctx) *failure {
	p := c.p
	var total int64
	refs := make([][]*opRes, len(p.Clients))
	for i := range p.Clients {
		for j := range p.Clients[i] {
			r := c.ref(&p.Clients[i][j])
			refs[i] = append(refs[i], r)
			total += r.steps
		}
	}
	var tailRef []*opRes
	for j := range p.Tail {
		tailRef = append(tailRef, c.ref(&p.Tail[j]))
	}
	w := &world{p: p}
	zz.ResetGlobals()
	if f := c.wear(w); f != nil {
		return f
	}
	tail := p.Tail
	p.Tail = nil
	res, _, z := c.concurrent(w, c.config(total))
	p.Tail = tail
	if f := checkStop(z); f != nil {
		return f
	}
	for i := range res {
		for j, r := range res[i] {
			if r.out() != refs[i][j].out() {
				return failf("influence", "caller %d op %d %s\n  alone:       %s\n  interleaved: %s", i, j, &p.Clients[i][j], show(refs[i][j].out()), show(r.out()))
			}
		}
	}
	if f := c.checkRaces(); f != nil {
		return f
	}
	after := newRes(len(tail))
	if stop := c.solo(p.Env, func() {
		for j := range tail {
			zz.BeginOp(j)
			w.safe(0, j, &tail[j], after[j])
		}
	}); stop != "" {
		return failf("after", "calls after the concurrent phase: %s", stop)
	}
	for j, r := range after {
		if r.out() != tailRef[j].out() {
			return failf("after", "op %s after other callers' calls\n  fresh process: %s\n  this process:  %s", &tail[j], show(tailRef[j].out()), show(r.out()))
		}
	}
	if s := w.changed(); s != "" {
		return failf("changed", "%s", s)
	}
	c.nt = c.nt && len(p.Clients) > 1 && z.Switches+z.Forced > 0
	return nil
}

// ---------------------------------------------------------------- C12

func genC12(g *gen, p *Plan) {
	g.hole = true
	p.Draw = g.r.Intn(4)
	n := 1 + g.r.Intn(3)
	p.Clients = make([][]Op, 1)
	if g.r.Chance(350) {
		p.Clients = make([][]Op, 2+g.r.Intn(2))
		p.Strat = g.strategy()
	}
	for i := 0; i < n; i++ {
		kind := kinds[g.r.Intn(3)]
		if g.r.Chance(600) {
			kind = "glob"
		}
		p.Objs = append(p.Objs, ObjSpec{Kind: kind, Text: g.pattern(kind)})
		for k := g.spell(3 + g.r.Intn(6)); k > 0; k-- {
			cl := g.r.Intn(len(p.Clients))
			p.Clients[cl] = append(p.Clients[cl], Op{K: "sample", O: i, B: g.r.Chance(150)})
		}
	}
}

func judgeC12(c *ctx) *failure {
	p := c.p
	w := &world{p: p}
	zz.ResetGlobals()
	lo, hi := zz.DrawLow, zz.DrawHigh
	stop := ""
	if stop = c.solo(p.Env, func() { w.objs = buildAll(p, -1) }); stop != "" {
		return nil
	}
	for i := range w.objs {
		if w.objs[i].err != "" {
			return nil // the property is about patterns that compile
		}
	}
	cfg := c.config(400)
	cfg.EnvSeed = p.Env | 1
	res, _, z := c.concurrent(w, cfg)
	c.fault("extreme random draw (lowest)", int(zz.DrawLow-lo))
	c.fault("extreme random draw (highest)", int(zz.DrawHigh-hi))
	if f := checkStop(z); f != nil {
		return f
	}
	for i := range res {
		for j, r := range res[i] {
			if r.panicked != "" {
				return failf("panic", "op %d %s panicked: %s", j, &p.Clients[i][j], r.panicked)
			}
			if r.viol != "" {
				return failf("sample", "op %d %s: %s", j, &p.Clients[i][j], r.viol)
			}
		}
	}
	c.nt = len(p.Objs) > 0
	return nil
}

// ---------------------------------------------------------------- C14

func genC14(g *gen, p *Plan) {
	g.sharedObjs(p)
	n, each := g.crowd(1+g.r.Intn(3), 5)
	for i := 0; i < n; i++ {
		var ops []Op
		for k := 1 + lesser(1, each-2) + g.r.Intn(each); k > 0; k-- {
			if g.r.Chance(550) {
				i := g.r.Intn(len(p.Objs))
				op := g.matchOp(p, i, p.Objs[i].pats())
				if kindOf(p.Objs[i].Kind) == "gglob" && g.r.Chance(500) {
					op.K = "mp"
				}
				ops = append(ops, op)
			} else {
				ops = append(ops, g.stateless())
			}
			if len(ops) > 1 && g.r.Chance(200) {
				ops[len(ops)-1] = ops[g.r.Intn(len(ops)-1)]
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	p.Strat = g.strategy()
}

func judgeC14(c *ctx) *failure {
	p := c.p
	var total int64
	refs := make([][]*opRes, len(p.Clients))
	for i := range p.Clients {
		for j := range p.Clients[i] {
			r := c.ref(&p.Clients[i][j])
			refs[i] = append(refs[i], r)
			total += r.steps
		}
	}
	w := &world{p: p, scribble: true}
	zz.ResetGlobals()
	if stop := c.solo(p.Env, func() { w.objs = buildAll(p, -1) }); stop != "" {
		return nil
	}
	if f := c.wear(w); f != nil {
		return f
	}
	res, _, z := c.concurrent(w, c.config(total))
	if f := checkStop(z); f != nil {
		return f
	}
	n := 0
	for i := range res {
		for j, r := range res[i] {
			n++
			if r.viol != "" {
				return failf("argument", "caller %d op %d %s: %s", i, j, &p.Clients[i][j], r.viol)
			}
			if r.out() != refs[i][j].out() {
				return failf("owner", "caller %d op %d %s\n  fresh process:                            %s\n  after arguments and results were overwritten: %s", i, j, &p.Clients[i][j], show(refs[i][j].out()), show(r.out()))
			}
		}
	}
	if s := w.changed(); s != "" {
		return failf("changed", "%s", s)
	}
	c.fault("arguments and results overwritten after the call", n)
	c.nt = c.nt && n > 1
	return nil
}

// ---------------------------------------------------------------- C16

func genC16(g *gen, p *Plan) {
	kind := kinds[g.r.Intn(3)]
	p.Objs = []ObjSpec{{Kind: treeOf(kind)}}
	h := histOpts{regs: g.count(8, 25, 80), clients: 1, badIndex: 80, dup: 120}
	if g.r.Chance(350) {
		h.clients = 2 + g.r.Intn(2)
		p.Strat = g.strategy()
	}
	h.matches = 3 + h.regs
	g.history(p, []int{0}, h, func(i int, pats []string) Op {
		op := g.matchOp(p, i, pats)
		op.S = &Sink{Kind: "rec"}
		return op
	})
	// restarts
	var pats []string
	for i := range p.Clients {
		for _, op := range p.Clients[i] {
			if op.K == "reg" && !op.Bad {
				pats = append(pats, op.V)
			}
		}
	}
	for k := 1 + g.r.Intn(3); k > 0; k-- {
		i := g.r.Intn(len(p.Clients))
		ops := p.Clients[i]
		if len(ops) == 0 {
			continue
		}
		at := 1 + g.r.Intn(len(ops))
		crash := Op{K: "crash", J: g.r.Intn(1 << 20), B: g.r.Chance(300)}
		if at < len(ops) && ops[at].K == "reg" && g.r.Chance(500) {
			crash.I = 1 + g.r.Intn(60)
			if g.r.Chance(300) {
				crash.I = 1 + g.r.Intn(600)
			}
		}
		p.Clients[i] = append(ops[:at], append([]Op{crash}, ops[at:]...)...)
	}
	for k := 0; k < 3; k++ {
		op := g.matchOp(p, 0, pats)
		op.S = &Sink{Kind: "rec"}
		p.Tail = append(p.Tail, op)
	}
}

func judgeC16(c *ctx) *failure {
	p := c.p
	if len(p.Objs) != 1 {
		return nil
	}
	kind := kindOf(p.Objs[0].Kind)
	for i := range p.Clients {
		for j := range p.Clients[i] {
			if op := &p.Clients[i][j]; op.K == "reg" {
				c.regTexts(op)
			}
		}
	}
	w := &world{p: p}
	res := make([][]*opRes, len(p.Clients))
	for i := range p.Clients {
		res[i] = newRes(len(p.Clients[i]))
	}
	reg := newRegistry(kind)
	restarts, del, nonEmpty := 0, 0, false
	var trace []decision
	defer func() { c.trace = trace }()
	zz.ResetGlobals()
	fresh := func() { w.objs = []*object{newObject(p.Objs[0].Kind)} }
	if stop := c.solo(p.Env, fresh); stop != "" {
		return failf("stop", "%s", stop)
	}
	judge := func(e logEntry) *failure {
		op, r := e.op, e.r
		c.account(op, r)
		where := fmt.Sprintf("op %d (caller %d) %s returned %s (after %d restarts)", e.j, e.c, op, show(r.out()), restarts)
		if r.panicked != "" {
			return failf("panic", "%s", where)
		}
		if op.K != "reg" {
			want := wantDeliveries(reg, op)
			if restarts > 0 {
				del += len(want)
			}
			if s := compareDeliveries(kind, want, r.del); s != "" {
				return failf("report", "%s: %s\naccepted so far: %s", where, s, showEntries(reg.entries))
			}
			return nil
		}
		raw, norm, ok := c.regTexts(op)
		if !ok {
			return failf("refused", "%s: does not parse in a fresh process", where)
		}
		why, holder := reg.decide(raw, norm, op.I)
		switch {
		case why == "" && (r.err != nil || r.norm != norm || r.n != op.I):
			return failf("decision", "%s: the original would accept it as %q", where, norm)
		case why != "" && r.err == nil:
			return failf("decision", "%s: the original would refuse it (%s)", where, why)
		case why == "dup" && r.n != holder:
			return failf("decision", "%s: the original would name the holder %d", where, holder)
		}
		if why == "" {
			reg.accept(raw, norm, op.I, modelOf(kind, op.V))
		}
		return nil
	}
	next := make([]int, len(p.Clients)) // first op of the next life
	for life := 0; ; life++ {
		// one life of the process: up to the next crash
		first := append([]int{}, next...)
		var crashOps []*Op
		var bodies []func()
		for i := range p.Clients {
			i := i
			ops := p.Clients[i]
			bodies = append(bodies, func() {
				var armed *Op
				for j := first[i]; j < len(ops); j++ {
					next[i] = j + 1
					zz.BeginOp(j)
					if ops[j].K == "crash" {
						armed = &ops[j]
						if armed.I <= 0 {
							crashOps = append(crashOps, armed)
							zz.CrashAfter(1)
							zz.SinkPoint()
						}
						continue
					}
					if armed != nil && ops[j].K == "reg" {
						crashOps = append(crashOps, armed)
						zz.CrashAfter(int64(armed.I))
					}
					w.locked(i, j, &ops[j], res[i][j])
					zz.CrashAfter(0)
					if armed != nil && ops[j].K == "reg" {
						crashOps = crashOps[:len(crashOps)-1]
					}
					armed = nil
				}
			})
		}
		cfg := c.config(1000)
		cfg.Seed = zz.Mix(p.Sched, uint64(life))
		z := c.run(cfg, bodies)
		trace = append(trace, z.Trace...)
		if z.Stop != "crash" {
			if f := checkStop(z); f != nil {
				return f
			}
		}
		var log []logEntry
		var cut *logEntry // the registration the crash interrupted
		for i := range p.Clients {
			for j := first[i]; j < next[i]; j++ {
				e := logEntry{i, j, &p.Clients[i][j], res[i][j]}
				switch {
				case e.op.K == "crash" || e.r.pos == 0:
				case e.r.done || e.r.panicked != "":
					log = append(log, e)
				case e.op.K == "reg":
					cut = &e
				default:
					c.fault("match abandoned by a crash", 1)
				}
			}
		}
		sort.SliceStable(log, func(i, j int) bool { return log[i].r.pos < log[j].r.pos })
		for _, e := range log {
			if f := judge(e); f != nil {
				return f
			}
		}
		if z.Stop != "crash" {
			break
		}
		_, table := w.objs[0].tables()
		if cut != nil {
			c.fault("crash inside a registration", 1)
			// it may or may not have reached the table
			op := cut.op
			raw, norm, _ := c.regTexts(op)
			if why, _ := reg.decide(raw, norm, op.I); why == "" {
				if got, ok := table[op.I]; ok && got == norm {
					reg.accept(raw, norm, op.I, modelOf(kind, op.V))
				}
			}
		} else {
			c.fault("crash between registrations", 1)
		}
		// only the table of indices and normalized patterns survives
		if s := diffMaps(table, reg.byIndex); s != "" {
			return failf("table", "surviving table: %s", s)
		}
		restarts++
		nonEmpty = nonEmpty || len(table) > 0
		var idx []int
		for i := range table {
			idx = append(idx, i)
		}
		sort.Ints(idx)
		crashOp := crashOps[0]
		rnd := zz.NewRand(uint64(crashOp.J))
		if crashOp.J != 0 {
			for i := len(idx) - 1; i > 0; i-- {
				j := rnd.Intn(i + 1)
				idx[i], idx[j] = idx[j], idx[i]
			}
		}
		var f *failure
		zz.ResetGlobals()
		stop := c.solo(zz.Mix(p.Env, uint64(restarts)), func() {
			fresh()
			for _, i := range idx {
				norm, n, err := w.objs[0].register(table[i], i, crashOp.B)
				if err != nil || norm != table[i] || n != i {
					if f == nil {
						f = failf("rebuild", "rebuilding entry %d=%q returned (%q, %d, %s)", i, table[i], norm, n, showErr(err))
					}
				}
			}
		})
		if stop != "" {
			return failf("rebuild", "rebuilding from %d entries: %s", len(table), stop)
		}
		if f != nil {
			return f
		}
		// the rebuilt matcher knows normalized texts only; a raw text is still a
		// duplicate because it normalizes to one of them
		reg.byText = map[string]int{}
		for i, s := range table {
			reg.byText[s] = i
		}
	}
	rs := newRes(len(p.Tail))
	stop := c.solo(p.Env, func() {
		for j := range p.Tail {
			zz.BeginOp(j)
			w.safe(0, j, &p.Tail[j], rs[j])
		}
	})
	if stop != "" {
		return failf("stop", "matches after the history: %s", stop)
	}
	for j, r := range rs {
		if f := judge(logEntry{-1, j, &p.Tail[j], r}); f != nil {
			return f
		}
	}
	c.fault("restart from the surviving table", restarts)
	c.nt = nonEmpty && del > 0
	return nil
}

// ---------------------------------------------------------------- C17

func genC17(g *gen, p *Plan) {
	kind := kinds[g.r.Intn(3)]
	p.Objs = []ObjSpec{{Kind: treeOf(kind)}, {Kind: kind, Text: g.pattern(kind)}, {Kind: "expr", Text: g.expression(60)}}
	h := histOpts{regs: g.count(8, 20, 60), clients: 1, badIndex: 80, dup: 120, bad: 60}
	h.matches = 4 + h.regs
	if h.regs < 30 {
		h.matches = g.spell(h.matches)
	}
	g.history(p, []int{0}, h, func(i int, pats []string) Op {
		switch g.r.Intn(6) {
		case 0:
			return g.stateless()
		case 1:
			if g.r.Chance(400) {
				op := Op{K: "expand", O: 2}
				g.expandArgs(&op)
				return op
			}
			return g.matchOp(p, 1, []string{p.Objs[1].Text})
		}
		return g.matchOp(p, i, pats)
	})
	// other callers that have nothing to do with the history
	var noise []Op
	for k := 1 + g.r.Intn(6); k > 0; k-- {
		noise = append(noise, g.stateless())
	}
	p.Clients = append(p.Clients, noise)
	p.Strat = g.strategy()
}

func judgeC17(c *ctx) *failure {
	p := c.p
	full := p.Clients
	defer func() { p.Clients = full }()
	var base []*opRes
	var what string
	for k := 0; k < 4; k++ {
		w := &world{p: p}
		if k != 2 {
			zz.ResetGlobals()
		}
		env := uint64(0)
		switch k {
		case 0:
			what = "alone, in a fresh process, map order sorted"
		case 1:
			what = "alone, in a fresh process, map order, pools, clock and random draws shuffled"
			env = p.Env | 1
		case 2:
			what = "a second matcher in the same process, environment shuffled differently"
			env = zz.Mix(p.Env, 2) | 1
		case 3:
			what = "interleaved with unrelated callers"
			env = zz.Mix(p.Env, 3) | 1
		}
		if stop := c.solo(env, func() { w.objs = buildAll(p, -1) }); stop != "" {
			return failf("stop", "%s", stop)
		}
		if f := c.wear(w); f != nil {
			return f
		}
		p.Clients = full[:1]
		cfg := zz.Config{EnvSeed: env, OpBudget: budget}
		if k == 3 {
			p.Clients = full
			var total int64
			for _, r := range base {
				total += r.steps
			}
			cfg = c.config(total)
			cfg.EnvSeed = env
		}
		res, _, z := c.concurrent(w, cfg)
		p.Clients = full
		if f := checkStop(z); f != nil {
			return f
		}
		if k == 0 {
			base = res[0]
		} else {
			for j, r := range res[0] {
				if r.out() != base[j].out() {
					return failf("replica", "op %d %s\n  first replica: %s\n  %s: %s", j, &full[0][j], show(base[j].out()), what, show(r.out()))
				}
			}
			c.fault("environment reshuffled", 1)
		}
		if s := w.changed(); s != "" {
			return failf("changed", "%s", s)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C18

func (g *gen) bigGlob(n int) string {
	for {
		s := g.globText(n/2 + g.r.Intn(n))
		if len(s) <= 60 && modelOf("glob", s) != nil {
			return s
		}
		n--
		if n < 2 {
			n = 4
		}
	}
}

// stretch repeats pieces of a value.
func (g *gen) stretch(s string, max int) string {
	rs := []rune(s)
	for len(rs) > 0 && len(rs) < max && g.r.Chance(700) {
		i := g.r.Intn(len(rs))
		j := i + 1 + g.r.Intn(3)
		if j > len(rs) {
			j = len(rs)
		}
		piece := append([]rune(nil), rs[i:j]...)
		rs = append(rs[:j], append(piece, rs[j:]...)...)
	}
	return string(rs)
}

func genC18(g *gen, p *Plan) {
	if g.r.Chance(500) {
		g.alpha = []rune("ab")
		g.lits = []string{"a", "b", "ab", "aa", "ba", "aab"}
	}
	for i := range g.part {
		if g.r.Chance(300) {
			g.part[i] = g.bigGlob(6)
		}
	}
	kind := kinds[g.r.Intn(3)]
	text := func() string {
		if kind == "glob" && g.r.Chance(500) {
			return g.bigGlob(4 + g.r.Intn(12))
		}
		return g.pattern(kind)
	}
	starry := g.r.Chance(250)
	if starry {
		p.Objs = append(p.Objs, ObjSpec{Kind: kind, Text: g.starry(kind)})
	} else {
		p.Objs = append(p.Objs, ObjSpec{Kind: kind, Text: text()})
	}
	var regs []Reg
	for k := g.count(5, 10, 30); k > 0; k-- {
		regs = append(regs, Reg{Text: text(), Index: len(regs)})
	}
	absent := kind == "tags" && g.r.Chance(100)
	if absent {
		for k := 1 + g.r.Intn(2); k > 0; k-- {
			regs = append(regs, Reg{Text: g.absentees(), Index: len(regs)})
		}
	}
	p.Objs = append(p.Objs, ObjSpec{Kind: treeOf(kind), Regs: regs})
	n := 1 + g.r.Intn(3)
	stalls, most, stall, each := 0, 2, 250, 5
	if g.r.Chance(60) {
		// a crowd, and most of it stalls
		n = 5 + g.r.Intn(16)
		most, stall, each = n, 800, 2
	}
	for i := 0; i < n; i++ {
		var ops []Op
		for k := 1 + g.r.Intn(each); k > 0; k-- {
			if each > 2 && g.r.Chance(250) {
				op := g.stateless()
				if g.r.Chance(300) {
					op = Op{K: "exp", O: -1, V: g.wideExpression(), I: 1 + g.r.Intn(200)}
					if g.r.Chance(300) {
						op.K = "exptry"
					}
					if g.r.Chance(300) {
						op.J = 1 + g.r.Intn(4)
					}
					if g.r.Chance(400) {
						// no limit of results: the depth, or the mode, keeps them few
						op.I = -1
						if l, ok := expandModel(op.V, -1, op.J, op.K == "exptry"); !ok || len(l) > 2000 {
							op.I = 1 + g.r.Intn(200)
						}
					}
				}
				if !op.Bad {
					ops = append(ops, op)
				}
				continue
			}
			i := g.r.Intn(2)
			if each == 2 && g.r.Chance(800) {
				i = 1
			}
			op := g.matchOp(p, i, p.Objs[i].pats())
			if starry && i == 0 {
				v := g.runs()
				switch kind {
				case "glob":
					op.V = v
				case "gglob":
					op.V = "n." + v
				case "tags":
					op.T = [][2]string{{"__name__", "n"}, {"k", v}}
				}
				ops = append(ops, op)
				continue
			}
			if kind == "glob" && g.r.Chance(600) {
				op.V = g.stretch(op.V, 40)
			}
			if kind == "tags" && g.r.Chance(300) {
				for j := range op.T {
					op.T[j][1] = g.stretch(op.T[j][1], 30)
				}
			}
			if i == 1 && absent && g.r.Chance(500) {
				op.T = [][2]string{{"__name__", "n"}, {"w50", g.lit()}}[:1+g.r.Intn(2)]
			}
			if i == 1 {
				op.S = &Sink{Kind: "rec"}
				if n > 1 && stalls < most && g.r.Chance(stall) {
					op.S.Fault, op.S.At = "stall", g.r.Intn(2)
					stalls++
				}
			}
			ops = append(ops, op)
		}
		p.Clients = append(p.Clients, ops)
	}
	// one more caller that comes when all others have finished or stalled
	for k := 1 + g.r.Intn(2); k > 0; k-- {
		op := g.matchOp(p, 1, p.Objs[1].pats())
		op.S = &Sink{Kind: "rec"}
		p.Tail = append(p.Tail, op)
	}
	p.Strat = g.strategy()
}

// absentees is a query with many conditions that a path without their keys
// satisfies.
func (g *gen) absentees() string {
	var b strings.Builder
	b.WriteString("seriesByTag('name=n'")
	for k := 10 + g.r.Intn(90); k > 0; k-- {
		b.WriteString(fmt.Sprintf(",'w%d", g.r.Intn(100)) + g.pick([]string{"!=a", "!=b*", "!=", "!=~a", "!=~^b$"}) + "'")
	}
	if g.r.Chance(300) {
		b.WriteString(",'w99=a'")
	}
	return b.String() + ")"
}

// starry is a pattern of many stars between a few texts, sets and question
// marks (no lists and groups: these may be tried one after the other).
func (g *gen) starry(kind string) string {
	var b strings.Builder
	seg := func() {
		b.WriteString(g.pick([]string{"a", "a", "a", "aa", "b", "c", "ab", "[ab]", "a?", "?a", "[a-c]b", "ba"}))
	}
	if g.r.Chance(300) {
		seg()
	}
	for k := 3 + g.r.Intn(8); k > 0; k-- {
		b.WriteString("*")
		seg()
	}
	if g.r.Chance(400) {
		b.WriteString("*")
	}
	switch kind {
	case "gglob":
		return "n." + b.String()
	case "tags":
		return "seriesByTag('name=n','k" + g.pick([]string{"=", "=", "!="}) + b.String() + "')"
	}
	return b.String()
}

// runs is a longer text of very few different symbols.
func (g *gen) runs() string {
	var b strings.Builder
	for k := 1 + g.r.Intn(4); k > 0; k-- {
		b.WriteString(strings.Repeat(g.pick([]string{"a", "a", "a", "ab", "b"}), 1+g.r.Intn(60)))
		if g.r.Chance(300) {
			b.WriteString(g.pick([]string{"b", "c", "x", "bc"}))
		}
	}
	return b.String()
}

// wideExpression has far more expansions than its limit admits.
func (g *gen) wideExpression() string {
	var b strings.Builder
	for k := 4 + g.r.Intn(20); k > 0; k-- {
		b.WriteString([]string{"{a,b,c}", "[a-z]", "x", "{,y}", ".", "[0-9]", "{aa,bb}"}[g.r.Intn(7)])
	}
	return b.String()
}

func judgeC18(c *ctx) *failure {
	p := c.p
	w := &world{p: p}
	zz.ResetGlobals()
	if stop := c.solo(p.Env, func() { w.objs = buildAll(p, -1) }); stop != "" {
		return failf("build", "registering and compiling: %s", stop)
	}
	for i, o := range w.objs {
		if strings.HasPrefix(o.err, "panic") {
			return failf("panic", "building object %d: %s", i, o.err)
		}
	}
	if f := c.wear(w); f != nil {
		return f
	}
	work := c.st.MaxOpSteps
	c.st.MaxOpSteps = 0
	defer func() {
		if work > c.st.MaxOpSteps {
			c.st.MaxOpSteps = work
		}
	}()
	res, tail, z := c.concurrent(w, c.config(2000))
	if f := checkStop(z, "quiescent"); f != nil {
		return f
	}
	stalled := map[int]bool{}
	check := func(where string, op *Op, r *opRes) *failure {
		if r.panicked != "" {
			return failf("panic", "%s %s panicked: %s", where, op, r.panicked)
		}
		if !r.done && !r.stalled {
			return failf("blocked", "%s %s never finished", where, op)
		}
		return nil
	}
	for i := range res {
		for j, r := range res[i] {
			if stalled[i] {
				break
			}
			if f := check(fmt.Sprintf("caller %d op %d", i, j), &p.Clients[i][j], r); f != nil {
				return f
			}
			stalled[i] = stalled[i] || r.stalled
		}
	}
	for j, r := range tail {
		if f := check(fmt.Sprintf("late caller op %d", j), &p.Tail[j], r); f != nil {
			return f
		}
	}
	c.nt = c.st.MaxOpSteps >= 100 || len(stalled) > 0
	return nil
}
