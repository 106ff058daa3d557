package main

import (
	"bytes"
	"fmt"
	"strings"

	"MODULE/expand"
	"MODULE/gglob"
	"MODULE/gtags"
	"MODULE/pkg/escape"
	"MODULE/pkg/items"
	"MODULE/pkg/utils"
	zz "MODULE/zzsimrt"
)

func init() {
	scenarios["C21"] = scenario{genC21, judgeC21, "a call with arbitrary text was answered while or before a well-formed call delivered something"}
	scenarios["C22"] = scenario{genC22, judgeC22, "at least one value matched and one did not"}
}

// ---------------------------------------------------------------- C21

var scraps = []string{"[", "]", "{", "}", "*", "?", ",", "-", ".", "..", "=", "~", "!", "=~", "!=", "!=~", "'", "\"", "(", ")", ";", "&", "%", "+", " ", "\\",
	"\x00", "\x7f", "\x80", "\xff", "\xc3", "\xe2\x82", "\xf0\x9f", "\xed\xa0\x80", "\ufffd", "\u00e9", "\U0010ffff", "\u2028", "%4", "%zz", "%00", "%ff", "%C3%A9", "%2",
	"[]", "{}", "[-]", "[a-]", "[-a]", "[z-a]", "[a-\xff]", "[\xff]", "[a-z-9]", "{,}", "{a", "a}", "{{a}}", "{[}", "[{]", "{a,}", "{,a}", "[a-я]", "[я-a]", "[^a]", "[!a]", "[\ufffd]",
	"seriesByTag(", "'a=b'", "'name=", "__name__", "name", "a=", "=b", "~", "\n", "\t", "?a=b", ";a=b", "&a=b", "a", "b", "ab"}

// garbage draws an arbitrary text.
func (g *gen) garbage(kind string) string {
	var s string
	switch x := g.r.Intn(10); {
	case x < 4: // a pattern or value damaged at some bytes
		switch kind {
		case "glob", "gglob", "tags":
			s = g.pattern(kind)
		case "value":
			s = g.value([]string{"glob", "gglob"}[g.r.Intn(2)], g.part)
		case "path":
			s = g.tagPath(g.r.Chance(500))
		case "expr":
			s = g.expression(40)
		default:
			s = g.text()
		}
		for k := 1 + g.r.Intn(4); k > 0; k-- {
			i := g.r.Intn(len(s) + 1)
			j := lesser(len(s), i+g.r.Intn(4))
			switch g.r.Intn(5) {
			case 0:
				s = s[:i] + s[j:]
			case 1:
				s = s[:j] + s[i:]
			case 2:
				s = s[:i]
			case 3:
				s = s[:i] + g.pick(scraps) + s[j:]
			default:
				s = s[:i] + g.pick(scraps) + s[i:]
			}
		}
	case x < 5 && kind == "tags":
		s = "seriesByTag("
		for k := g.r.Intn(4); k > 0; k-- {
			q := g.pick([]string{"'", "\"", ""})
			v := g.pick(scraps) + g.pick(scraps)
			e := g.pick([]string{"=", "!=", "=~", "!=~", "~", "!", ""})
			if strings.HasSuffix(e, "=~") && g.r.Chance(500) {
				v = g.brokenRe()
			}
			s += q + g.pick(g.keys) + e + v + q + g.pick([]string{",", " ", ""})
		}
		s += g.pick([]string{")", ""})
	case x < 6: // long and monotonous
		p := g.pick(scraps)
		if strings.Contains(p, "*") {
			p = "["
		}
		s = strings.Repeat(p, 1+g.r.Intn(150))
		if g.r.Chance(300) {
			s = g.lit() + s + g.pick(scraps)
		}
	default:
		for k := g.r.Intn(9); k > 0; k-- {
			if g.r.Chance(250) {
				s += g.lit()
			} else {
				s += g.pick(scraps)
			}
		}
	}
	// the work of a match is a power of the number of stars
	for n := strings.Count(s, "*"); n > 3; n-- {
		s = strings.Replace(s, "*", "", 1)
	}
	if kind != "tags" && kind != "text" && len(s) > 60 && strings.ContainsAny(s, "*{") {
		s = s[:60]
	}
	if (kind == "value" || kind == "path") && len(s) > 100 {
		s = s[:100] // the work is also a power of the length
	}
	return s
}

var garbageCalls = []string{"g.glob", "g.glob", "g.gglob", "g.gglob", "g.query", "g.query", "g.conds", "g.path", "g.next", "g.esc", "g.exp", "g.exp",
	"g.range", "g.list", "g.items", "g.split", "g.util", "g.sample"}

func (g *gen) garbageOp() Op {
	op := Op{K: g.pick(garbageCalls), O: -1}
	values := func(kind string) (l []string) {
		for k := 1 + g.r.Intn(3); k > 0; k-- {
			l = append(l, g.garbage(kind))
		}
		return
	}
	switch op.K {
	case "g.glob", "g.items", "g.sample":
		op.V, op.L = g.garbage("glob"), values("value")
		op.L = append(op.L, op.V)
	case "g.gglob":
		op.V, op.L = g.garbage("gglob"), values("value")
		op.L = append(op.L, op.V)
	case "g.query":
		op.V, op.L = g.garbage("tags"), values("path")
		for k := 1 + g.r.Intn(2); k > 0; k-- {
			op.L = append(op.L, g.tagPath(g.r.Chance(500)))
		}
	case "g.conds":
		for k := g.r.Intn(4); k > 0; k-- {
			c := g.cond()
			if g.r.Chance(600) {
				c = g.pick(g.keys) + g.pick([]string{"=", "!=", "=~", "!=~", "~", ""}) + g.garbage("glob")
			}
			if g.r.Chance(200) {
				c = g.pick(g.keys) + g.pick([]string{"=~", "!=~"}) + g.brokenRe()
			}
			op.L = append(op.L, c)
		}
		op.V = g.garbage("path")
	case "g.path", "g.next":
		op.V = g.garbage("path")
	case "g.exp":
		op.V = g.garbage("expr")
		op.I = g.pickInt(0, 1, 2, 3, 7, 20, 100)
		op.J = g.pickInt(0, 0, 0, 1, 2, 3)
		op.B = g.r.Chance(300)
	case "g.range", "g.list":
		op.V, op.L = g.garbage("glob"), values("value")
		if g.r.Chance(600) {
			s := map[string][2]string{"g.range": {"[", "]"}, "g.list": {"{", "}"}}[op.K]
			op.V = s[0] + strings.Trim(op.V, "[]{}") + s[1]
		}
	default:
		op.V = g.garbage("text")
		if op.K == "g.split" || op.K == "g.util" {
			op.V = g.garbage("value")
		}
	}
	return op
}

func (g *gen) pickInt(l ...int) int { return l[g.r.Intn(len(l))] }

// genC21: a well-formed batch matcher and pattern, batch matchers that
// anything is registered into, callers with calls of both kinds.
func genC21(g *gen, p *Plan) {
	kind := kinds[g.r.Intn(3)]
	p.Objs = append(p.Objs, ObjSpec{Kind: kind, Text: g.pattern(kind)}, ObjSpec{Kind: treeOf(kind), Regs: g.regs(kind, g.count(5, 8, 20))})
	for k := g.r.Intn(3); k > 0; k-- {
		kind := kinds[g.r.Intn(3)]
		p.Objs = append(p.Objs, ObjSpec{Kind: treeOf(kind), Regs: g.regs(kind, g.r.Intn(4))})
	}
	n, each := g.crowd(1+g.r.Intn(3), 8)
	next := 1000
	for i := 0; i < n; i++ {
		var ops []Op
		for k := 2 + g.r.Intn(each); k > 0; k-- {
			switch x := g.r.Intn(10); {
			case x < 4:
				ops = append(ops, g.garbageOp())
			case x < 6 && len(p.Objs) > 2:
				o := 2 + g.r.Intn(len(p.Objs)-2)
				kind := kindOf(p.Objs[o].Kind)
				op := Op{K: "g.reg", O: o, V: g.garbage(kind), I: next, B: g.r.Chance(300)}
				if g.r.Chance(50) {
					op.I = g.r.Intn(3) - 2
				}
				if g.r.Chance(200) {
					op.V = g.pattern(kind)
				}
				next++
				ops = append(ops, op)
			case x < 8:
				o := g.r.Intn(len(p.Objs))
				kind := "value"
				if kindOf(p.Objs[o].Kind) == "tags" {
					kind = "path"
				}
				op := Op{K: "g.m", O: o, V: g.garbage(kind), I: g.r.Intn(4)}
				if g.r.Chance(200) && kind == "value" {
					op.V = g.value(kindOf(p.Objs[o].Kind), p.Objs[o].pats())
				}
				ops = append(ops, op)
			default:
				o := g.r.Intn(2)
				op := g.matchOp(p, o, p.Objs[o].pats())
				if op.S != nil {
					op.S = &Sink{Kind: "rec"}
				}
				ops = append(ops, op)
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	// the well-formed objects once more
	for o := 0; o < 2; o++ {
		op := g.matchOp(p, o, p.Objs[o].pats())
		if op.S != nil {
			op.S = &Sink{Kind: "rec"}
		}
		p.Clients[n-1] = append(p.Clients[n-1], op)
	}
	p.Strat = g.strategy()
}

// garbageTags makes tags of a tagged path, whatever it looks like.
func garbageTags(v string, graphite bool) []gtags.Tag {
	var l []gtags.Tag
	if graphite {
		l, _ = gtags.GraphitePathTags(v)
	} else {
		l, _ = gtags.PathTags(v)
	}
	return l
}

// garbageOp runs a call with an arbitrary text.
func (w *world) garbageOp(th, opn int, op *Op, r *opRes) {
	var a asked
	defer func() { r.ret = strings.Join(a, "; ") }()
	say := func(format string, x ...interface{}) { a.say(format, x...) }
	var o *object
	if op.O >= 0 && op.O < len(w.objs) {
		o = w.objs[op.O]
	}
	switch op.K {
	case "g.reg":
		r.norm, r.n, r.err = o.register(op.V, op.I, op.B)
		say("%q %d %s", r.norm, r.n, showErr(r.err))
	case "g.m":
		if o.err != "" && !isTree(o.kind) {
			say("%s", o.err)
			return
		}
		k := &recSink{w, th, opn, nil, r}
		graphite := op.I&2 != 0
		switch o.kind {
		case "glob":
			say("%v", o.g.Match(op.V))
		case "gglob":
			say("%v", o.gg.Match(op.V))
			say("%v", o.gg.MatchByParts(gglob.PathSplit(op.V), len(op.V)))
		case "tags":
			t := garbageTags(op.V, graphite)
			say("%v %v", o.tl.MatchByTags(t), o.tl.MatchByTagsMap(gtags.TagsMap(t)))
		case "gtree":
			say("%d", o.gt.Match(op.V, k))
		case "ggtree":
			if op.I&1 == 0 {
				say("%d", o.ggt.Match(op.V, k))
			} else {
				say("%d", o.ggt.MatchByParts(gglob.PathSplit(op.V), k))
			}
		case "ttree":
			t := garbageTags(op.V, graphite)
			if op.I&1 == 0 {
				say("%d", o.tt.MatchByTags(t, k))
			} else {
				say("%d", o.tt.MatchByTagsMap(gtags.TagsMap(t), k))
			}
		}
	case "g.glob", "g.sample":
		x, err := parseGlob(op.V)
		if err != nil {
			say("%s", showErr(err))
			return
		}
		say("%s", printGlob(x))
		for _, v := range op.L {
			say("%v", x.Match(v))
		}
		if op.K == "g.sample" {
			var b strings.Builder
			x.WriteRandom(&b)
			for _, it := range x.Items {
				it.WriteRandom(&b)
			}
			x.Match(b.String())
			say("sampled")
		}
	case "g.gglob":
		x, err := parseGGlob(op.V)
		if err != nil {
			say("%s", showErr(err))
			return
		}
		say("%q %d %d", x.Node, x.MinLen, x.MaxLen)
		for _, v := range op.L {
			say("%v", x.Match(v))
			l := gglob.PathSplit(v)
			say("%v", x.MatchByParts(l, len(v)))
		}
	case "g.query", "g.conds":
		var t gtags.TaggedTermList
		var err error
		paths := op.L
		if op.K == "g.query" {
			t, err = gtags.ParseSeriesByTag(op.V)
		} else {
			t, err = gtags.ParseTaggedConditions(op.L)
			paths = []string{op.V}
		}
		if err != nil {
			say("%s", showErr(err))
			return
		}
		say("%s", t.String())
		for i, v := range paths {
			l := garbageTags(v, i%2 == 0)
			say("%v %v", t.MatchByTags(l), t.MatchByTagsMap(gtags.TagsMap(l)))
		}
		say("%v %v", t.MatchByTags(nil), t.MatchByTagsMap(nil))
	case "g.path":
		for _, graphite := range []bool{false, true} {
			var l []gtags.Tag
			var m map[string]string
			var err error
			b := map[string]string{"used": "before"}
			if graphite {
				l, err = gtags.GraphitePathTags(op.V)
				say("%s %s", showTags(l), showErr(err))
				m, err = gtags.GraphitePathTagsMap(op.V)
				say("%s %s", showMap(m), showErr(err))
				err = gtags.GraphitePathTagsMapB(op.V, b)
			} else {
				l, err = gtags.PathTags(op.V)
				say("%s %s", showTags(l), showErr(err))
				m, err = gtags.PathTagsMap(op.V)
				say("%s %s", showMap(m), showErr(err))
				err = gtags.PathTagsMapB(op.V, b)
			}
			say("%s %s", showMap(b), showErr(err))
		}
	case "g.next":
		for _, f := range []func(string) (string, string, string, bool){gtags.NextTag, gtags.GraphiteNextTag} {
			s, ok := op.V, true
			for i := 0; ok && i < 1000; i++ {
				var k, v string
				k, v, s, ok = f(s)
				say("%q %q %v", k, v, ok)
			}
		}
	case "g.esc":
		var b bytes.Buffer
		var sb strings.Builder
		escape.QueryTo(op.V, &b)
		escape.PathTo(op.V, &b)
		say("%q %q %q", escape.Query(op.V), escape.Path(op.V), b.String())
		say("%q", escape.Unescape(op.V))
		say("%q", escape.UnescapeTo(op.V, &sb))
		x, y := escape.UnescapeNameTo(op.V, &sb)
		say("%q %q %q", x, y, sb.String())
	case "g.exp":
		l, err := expand.Expand(op.V, op.I, op.J)
		say("%q %s", l, showErr(err))
		l, err = expand.ExpandTry(op.V, op.I, op.J)
		say("%q %s", l, showErr(err))
		e := expand.ParseExpr(op.V)
		for i := 0; i < 2; i++ {
			l, err = e.Expand(op.I, op.J, op.B)
			say("%q %s", l, showErr(err))
		}
	case "g.range":
		rs, ok := utils.RunesRangeExpand(op.V)
		say("%v", ok)
		if !ok {
			return
		}
		say("%s", rs.String())
		for _, v := range op.L {
			for _, c := range v {
				say("%v", rs.Contains(c))
			}
			p, c, n := rs.Index(v)
			say("%d %d %d", p, c, n)
			say("%v", fmt.Sprint(rs.StartsWith(v)))
			say("%v", fmt.Sprint(rs.EndsWith(v)))
		}
	case "g.list":
		l, ok := items.ListExpand(op.V)
		say("%q %v", l, ok)
	case "g.items":
		s := op.V
		for i := 0; s != "" && i < 1000; i++ {
			it, next, err := items.NextWildcardItem(s)
			if err != nil {
				say("%s", showErr(err))
				return
			}
			if len(next) >= len(s) {
				r.viol = fmt.Sprintf("NextWildcardItem(%q) leaves %q", s, next)
				return
			}
			s = next
			if it == nil {
				say("nothing")
				continue
			}
			say("%s %d %d", it.String(), it.MinLen(), it.MaxLen())
			for _, v := range op.L {
				o, ok := it.Match(v)
				say("%d %v", o, ok)
			}
		}
	case "g.split":
		l := gglob.PathSplit(op.V)
		say("%q %v", l, gglob.HasEmptyParts(l))
		b := []string{"used", "before"}
		say("%v", gglob.PathSplitB(op.V, &b))
		say("%q", b)
	case "g.util":
		s, n := gglob.PathLevel(op.V)
		say("%q %d %v %d %d %d", s, n, gglob.HasWildcard(op.V), gglob.IndexWildcard(op.V), gglob.IndexLastWildcard(op.V), gglob.WildcardCount(op.V))
		say("%v %d %d %d", items.HasWildcard(op.V), items.IndexWildcard(op.V), items.IndexLastWildcard(op.V), items.WildcardCount(op.V))
	default:
		panic("harness: unknown op " + op.K)
	}
}

func judgeC21(c *ctx) *failure {
	p := c.p
	w := &world{p: p, capture: true}
	log, z, stop := c.history(w, c.config(3000), true)
	if stop != "" {
		return failf("build", "%s", stop)
	}
	if f := checkStop(z); f != nil {
		return f
	}
	answered, delivered := 0, 0
	for _, e := range log {
		op, r := e.op, e.r
		where := fmt.Sprintf("op %d (caller %d) %s returned %s", r.pos, e.c, op, show(r.out()))
		switch {
		case r.panicked != "":
			return failf("panic", "%s", where)
		case !r.done:
			return failf("unfinished", "%s", where)
		case r.viol != "":
			return failf("stuck", "%s: %s", where, r.viol)
		}
		if strings.HasPrefix(op.K, "g.") {
			answered++
			if op.K == "g.reg" && r.err != nil && r.before != r.after {
				return failf("trace", "%s\n  tables before: %s\n  tables after:  %s", where, show(r.before), show(r.after))
			}
			continue
		}
		// well-formed calls on well-formed objects
		o := &p.Objs[op.O]
		if op.O > 1 || w.objs[op.O].err != "" {
			continue // some patterns have the same normal form
		}
		if !isTree(o.Kind) {
			if want := wantSingle(o, op); r.ret != fmt.Sprint(want) {
				return failf("wellformed", "%s: pattern %q must return %v", where, o.Text, want)
			}
			continue
		}
		reg := newRegistry(kindOf(o.Kind))
		for _, g := range o.Regs {
			n := c.norm(reg.kind, g.Text)
			if why, _ := reg.decide(g.Text, n.norm, g.Index); why == "" {
				reg.accept(g.Text, n.norm, g.Index, modelOf(reg.kind, g.Text))
			}
		}
		want := wantDeliveries(reg, op)
		delivered += len(want)
		if s := compareDeliveries(reg.kind, want, r.del); s != "" {
			return failf("wellformed", "%s: %s\nregistered: %s", where, s, showEntries(reg.entries))
		}
	}
	if s := w.changed(); s != "" {
		return failf("changed", "%s", s)
	}
	// the same calls one after another in a fresh process
	again := newRes(len(log))
	w2 := &world{p: p}
	if stop := c.pristine(func() {
		w2.objs = buildAll(p, -1)
		for i, e := range log {
			zz.BeginOp(i)
			w2.safe(0, i, e.op, again[i])
		}
	}); stop != "" {
		return failf("stop", "the same calls one after another: %s", stop)
	}
	for i, e := range log {
		if a, b := e.r.out(), again[i].out(); a != b {
			return failf("repeat", "op %d (caller %d) %s\n  among other callers:        %s\n  the same calls in a row: %s", e.r.pos, e.c, e.op, show(a), show(b))
		}
	}
	c.st.Counts["arbitrary_calls"] += int64(answered)
	c.nt = answered > 0 && delivered > 0
	return nil
}

func wantSingle(o *ObjSpec, op *Op) bool {
	if o.Kind == "tags" {
		return modelOf(o.Kind, o.Text).matchTags(op.T)
	}
	return modelOf(o.Kind, o.Text).matchText(op.V)
}

// ---------------------------------------------------------------- C22

// genC22: compiled patterns shared by several callers, in every calling form,
// and patterns compiled by the callers themselves.
func genC22(g *gen, p *Plan) {
	g.hole = true
	for k := 1 + g.r.Intn(4); k > 0; k-- {
		kind := kinds[g.r.Intn(3)]
		p.Objs = append(p.Objs, ObjSpec{Kind: kind, Text: g.pattern(kind)})
	}
	n, each := g.crowd(1+g.r.Intn(4), 8)
	for i := 0; i < n; i++ {
		var ops []Op
		for k := g.spell(2 + g.r.Intn(each)); k > 0; k-- {
			o := g.r.Intn(len(p.Objs))
			kind := p.Objs[o].Kind
			switch g.r.Intn(10) {
			case 0, 1: // compiled by the caller, then by its printed form
				op := Op{K: "d.own", O: -1, V: g.pattern(kind), J: g.r.Intn(3)}
				if g.r.Chance(400) {
					op.V = g.variant(kind, p.Objs[o].Text)
					if modelOf(kind, op.V) == nil {
						continue
					}
				}
				op.L = []string{kind}
				g.denotedArgs(&op, kind, op.V)
				ops = append(ops, op)
			default:
				op := Op{K: "d.m", O: o}
				g.denotedArgs(&op, kind, p.Objs[o].Text)
				ops = append(ops, op)
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	p.Strat = g.strategy()
}

func (g *gen) denotedArgs(op *Op, kind, text string) {
	switch kind {
	case "glob":
		op.L = append(op.L, g.nearValue(kind, text))
	case "gglob":
		op.L = append(op.L, g.nearValue(kind, text))
		op.I = g.r.Intn(4)
	default:
		op.T = g.tags([]string{text})
		op.I = g.r.Intn(2 + len(tagForms))
	}
}

// nearValue draws a value at the border of what a pattern matches.
func (g *gen) nearValue(kind, text string) string {
	s := g.value(kind, []string{text})
	if !g.r.Chance(250) {
		return s
	}
	rs := []rune(s)
	i := g.r.Intn(len(rs) + 1)
	j := i + g.r.Intn(len(rs)-i+1)
	switch g.r.Intn(4) {
	case 0: // its ends overlap
		s = string(rs[:i]) + string(rs[j:])
	case 1: // a piece twice
		s = string(rs[:j]) + string(rs[i:])
	case 2: // a neighbouring symbol
		if i < len(rs) {
			rs[i] += rune(g.r.Intn(3) - 1)
		}
		s = string(rs)
	default:
		s = string(rs[i:j])
	}
	return s
}

// denotedOp asks a compiled pattern in one calling form.
func (w *world) denotedOp(th, opn int, op *Op, r *opRes) {
	var o *object
	var v string
	kind := ""
	if op.K == "d.own" {
		if len(op.L) == 0 {
			return
		}
		kind = op.L[0]
		o = compile(kind, op.V)
		for k := 0; k < op.J && o.err == ""; k++ {
			text := ""
			switch kind {
			case "glob":
				text = o.g.String()
			case "gglob":
				text = o.gg.Node
			default:
				text = o.tl.String()
			}
			if k > 0 && text != r.norm {
				r.viol = fmt.Sprintf("the printed form %q compiled again is printed %q", r.norm, text)
			}
			r.norm = text
			o = compile(kind, text)
			if o.err != "" {
				r.viol = fmt.Sprintf("the printed form %q is refused: %s", text, o.err)
			}
		}
		if len(op.L) > 1 {
			v = op.L[1]
		}
	} else {
		o = w.objs[op.O]
		kind = o.kind
		if len(op.L) > 0 {
			v = op.L[0]
		}
	}
	if o.err != "" {
		r.ret = o.err
		return
	}
	form := "m"
	switch kind {
	case "gglob":
		form = []string{"m", "mp", "split", "splitB"}[op.I]
	case "tags":
		form = append([]string{"m", "mm"}, tagForms...)[op.I]
		if len(op.T) < 2 && op.I > 1 {
			form = "conv" // a name alone is no tagged path
		}
	}
	r.ret = fmt.Sprint(w.matchOne(o, form, v, op.T, r))
}

func judgeC22(c *ctx) *failure {
	p := c.p
	w := &world{p: p}
	zz.ResetGlobals()
	if stop := c.solo(p.Env, func() { w.objs = buildAll(p, -1) }); stop != "" {
		return failf("build", "%s", stop)
	}
	for i, o := range w.objs {
		if o.err != "" {
			return failf("refused", "pattern %q is refused: %s", p.Objs[i].Text, o.err)
		}
	}
	if f := c.wear(w); f != nil {
		return f
	}
	res, _, z := c.concurrent(w, c.config(1500))
	if f := checkStop(z); f != nil {
		return f
	}
	yes, no := 0, 0
	for i := range res {
		for j, r := range res[i] {
			op := &p.Clients[i][j]
			where := fmt.Sprintf("caller %d op %d %s returned %s", i, j, op, show(r.out()))
			if r.panicked != "" {
				return failf("panic", "%s", where)
			}
			if r.viol != "" {
				return failf("printed", "%s: %s", where, r.viol)
			}
			kind, text, v := "", op.V, ""
			l := op.L
			if op.K == "d.own" {
				kind, l = l[0], l[1:]
			} else {
				kind, text = p.Objs[op.O].Kind, p.Objs[op.O].Text
			}
			if len(l) > 0 {
				v = l[0]
			}
			m := modelOf(kind, text)
			want := false
			if kind == "tags" {
				want = m.matchTags(op.T)
			} else {
				want = m.matchText(v)
			}
			if r.ret != fmt.Sprint(want) {
				return failf("denotes", "%s: pattern %q must return %v for %q", where, text, want, v)
			}
			if want {
				yes++
			} else {
				no++
			}
		}
	}
	c.st.Counts["matched"] += int64(yes)
	c.st.Counts["not_matched"] += int64(no)
	c.nt = yes > 0 && no > 0
	return nil
}
