package main

import (
	"fmt"
	"sort"
	"strings"

	"MODULE/gglob"
	"MODULE/glob"
	"MODULE/gtags"
	zz "MODULE/zzsimrt"
)

func init() {
	scenarios["C23"] = scenario{genC23, judgeC23, "two calls split something into at least two parts"}
}

// ---------------------------------------------------------------- C23

// dotted draws a path; some have empty parts or trailing dots.
func (g *gen) dotted() string {
	if g.r.Chance(300) {
		return g.value("gglob", nil) + g.pick([]string{"", "", ".", "..", ".a."})
	}
	var l []string
	for k := g.r.Intn(7); k > 0; k-- {
		s := g.lit()
		if g.r.Chance(80) {
			s = ""
		}
		l = append(l, s)
	}
	s := strings.Join(l, ".")
	if g.r.Chance(150) {
		s += g.pick([]string{".", ".", "..", "..."})
	}
	return s
}

// rawTagPath draws a tagged path piece by piece; some are malformed.
func (g *gen) rawTagPath(graphite bool) string {
	if g.r.Chance(400) {
		return g.tagPath(graphite)
	}
	first, sep := "?", "&"
	if graphite {
		first, sep = ";", ";"
	}
	text := func() string {
		s := g.escaped(g.lit())
		switch g.r.Intn(12) {
		case 0:
			s += g.pick([]string{"%", "%4", "%zz", "+", "%%41", "%C3%A9", "%00", "?", "%26", "%3D", "%3b", "."})
		case 1:
			s = ""
		}
		// the other format's signs are ordinary symbols here
		if g.r.Chance(50) {
			s += map[bool]string{true: "&", false: ";"}[graphite]
		}
		return s
	}
	s := strings.ReplaceAll(text(), first, "")
	if g.r.Chance(40) {
		return s
	}
	s += first
	n := g.r.Intn(6)
	if g.r.Chance(50) {
		n = 8 + g.r.Intn(20)
	}
	var keys []string
	for i := 0; i < n; i++ {
		k := strings.ReplaceAll(text(), "=", "")
		switch g.r.Intn(12) {
		case 0:
			k = g.pick([]string{"__name__", "name", "a", "b"})
		case 1:
			if len(keys) > 0 {
				k = g.pick(keys)
			}
		}
		if k == "" {
			k = "k"
		}
		keys = append(keys, k)
		v := text()
		if g.r.Chance(60) {
			v += "=" + text()
		}
		kv := k + "=" + v
		if g.r.Chance(15) {
			kv = k // refused
		}
		if i > 0 {
			s += sep
		}
		s += kv
	}
	if n > 0 && g.r.Chance(60) {
		s += sep
		if g.r.Chance(200) {
			s += sep
		}
	}
	return s
}

// spaced writes a condition with blanks wherever they do not count.
func (g *gen) spaced(c string) string {
	t, ok := parseCond(c)
	if !ok || g.r.Chance(600) {
		return c
	}
	sp := func() string { return strings.Repeat(" ", g.r.Intn(3)) }
	k := t.key
	if k == "__name__" && g.r.Chance(300) {
		k = "name"
	}
	op := "="
	switch {
	case t.re != nil && t.neg:
		op = "!=~"
	case t.re != nil:
		op = "=~"
	case t.neg:
		op = "!="
	}
	v := sp() + t.val + sp()
	if op[len(op)-1] == '=' && strings.HasPrefix(t.val, "~") {
		v = " " + v
	}
	return sp() + k + sp() + op + v
}

func (g *gen) queryText() string {
	if g.r.Chance(300) {
		return g.query()
	}
	n := g.r.Intn(6)
	if g.r.Chance(30) {
		n = 100 + g.r.Intn(40)
	}
	var b strings.Builder
	b.WriteString(g.pick([]string{"", "", "", " "}))
	b.WriteString("seriesByTag(")
	gap := func() {
		b.WriteString(g.pick([]string{"", "", " ", "  "}))
	}
	gap()
	for i := 0; i < n; i++ {
		c := g.spaced(g.cond())
		q := "'"
		if strings.Contains(c, "'") || !strings.Contains(c, `"`) && g.r.Chance(300) {
			q = `"`
		}
		if strings.Contains(c, q) {
			continue
		}
		b.WriteString(q + c + q)
		b.WriteString(g.pick([]string{",", ",", ", ", " , ", " ", ""}))
		if g.r.Chance(50) {
			b.WriteString(g.pick([]string{"''", `""`, ",,", "'',"}))
		}
	}
	gap()
	b.WriteString(")")
	b.WriteString(g.pick([]string{"", "", "", " "}))
	s := b.String()
	switch {
	case g.r.Chance(150):
		s = g.brokenQuery(s)
	case g.r.Chance(100):
		s = g.editedQuery(s)
	}
	return s
}

// editedQuery changes one byte outside of the quotes; the model knows whether
// this is still a query.
func (g *gen) editedQuery(s string) string {
	var at []int // where a byte outside of quotes begins, and the end
	var q byte
	for i := 0; i < len(s); i++ {
		switch {
		case q == 0 && (s[i] == '\'' || s[i] == '"'):
			at = append(at, i) // in front of the quote
			q = s[i]
		case q == 0:
			at = append(at, i)
		case s[i] == q:
			q = 0
		}
	}
	at = append(at, len(s))
	if g.r.Chance(500) && len(at) > 4 {
		at = at[len(at)-4:] // what closes the query
	}
	i := at[g.r.Intn(len(at))]
	quote := i == len(s) || s[i] == '\'' || s[i] == '"'
	put := g.pick([]string{")", ")", "(", ",", " ", "\t", "a", "=", ";", ".", "]", "}", "\\", "))", ") "})
	switch {
	case !quote && g.r.Chance(300):
		return s[:i] + s[i+1:]
	case !quote && g.r.Chance(300):
		return s[:i] + put + s[i+1:]
	case !quote && g.r.Chance(300):
		return s[:i] + s[i:i+1] + s[i:]
	}
	return s[:i] + put + s[i:]
}

// brokenQuery spoils a query so that it must be refused.
func (g *gen) brokenQuery(s string) string {
	in := strings.TrimSpace(s)
	switch g.r.Intn(6) {
	case 0:
		return in[:len(in)-1]
	case 1:
		return in[1:]
	case 2:
		return in[:len(in)-1] + g.pick([]string{"'a=b", `"a=b`, "a=b", "x", ";"}) + ")"
	case 3:
		return in[:len(in)-1] + g.pick([]string{"'a'", "'=b'", "' =b'", "'~a'", "'a~b'", "'a!b'", "'a=~['", "'a!=~(b'", "'a=[b'", "'a!={b'"}) + ")"
	case 4:
		return strings.Replace(in, "(", "", 1)
	}
	return "x" + in
}

func genC23(g *gen, p *Plan) {
	n := 1 + g.r.Intn(4)
	p.Clients = make([][]Op, n)
	use := 1 + g.r.Intn(slots)
	only := g.r.Intn(8)
	for ops := g.spell(3 + g.r.Intn(12)); ops > 0; ops-- {
		op := Op{Slot: g.r.Intn(use), O: -1}
		k := only
		if k > 4 {
			k = g.r.Intn(5)
		}
		switch k {
		case 0:
			op.K, op.V = "p.path", g.dotted()
		case 1:
			op.K, op.V = "p.tags", g.rawTagPath(false)
		case 2:
			op.K, op.V, op.B = "p.tags", g.rawTagPath(true), true
		case 3:
			op.K, op.V = "p.query", g.queryText()
		case 4:
			op.K = "p.conds"
			for k := g.r.Intn(6); k > 0; k-- {
				c := g.spaced(g.cond())
				if g.r.Chance(30) {
					c = g.pick([]string{"a", "=b", " =b", "~a", "a~b", "a!b", "a=~[", "a!=~(b", "a=[b", "a!={b", ""})
				}
				op.L = append(op.L, c)
			}
		}
		c := g.r.Intn(n)
		p.Clients[c] = append(p.Clients[c], op)
	}
	p.Strat = g.strategy()
}

func sayTags(a *asked, what string, l [][2]string, refused bool) {
	if refused {
		a.say("%s refused", what)
		return
	}
	a.say("%s %q", what, l)
}

func pairs(t []gtags.Tag) (l [][2]string) {
	for _, x := range t {
		l = append(l, [2]string{x.Key, x.Value})
	}
	return
}

func sortedMap(m map[string]string) (l [][2]string) {
	for k, v := range m {
		l = append(l, [2]string{k, v})
	}
	sort.Slice(l, func(i, j int) bool { return l[i][0] < l[j][0] })
	return
}

func sayTerms(a *asked, t gtags.TaggedTermList, err error) {
	if err != nil {
		a.say("refused")
		return
	}
	var l []string
	for _, x := range t {
		l = append(l, fmt.Sprintf("%q %s %q", x.Key, x.Op, x.Value))
	}
	a.say("terms %v", l)
}

// splitOp splits something in all ways the library offers.
func (w *world) splitOp(th, opn int, op *Op, r *opRes) {
	var a asked
	keep := func(l [][2]string) {
		for _, x := range l {
			w.keep(th, opn, x[0])
			w.keep(th, opn, x[1])
		}
	}
	switch op.K {
	case "p.path":
		l := gglob.PathSplit(op.V)
		a.say("parts %q empty %v", l, gglob.HasEmptyParts(l))
		b := w.parts[op.Slot]
		if gglob.PathSplitB(op.V, b) {
			a.say("parts %q", *b)
			w.keepTexts(th, opn, *b)
		} else {
			a.say("refused")
		}
		s, n := gglob.PathLevel(op.V)
		a.say("level %q %d", s, n)
		w.keepTexts(th, opn, l)
		w.keepList(th, opn, l)
	case "p.tags":
		list, inmap, into, next := gtags.PathTags, gtags.PathTagsMap, gtags.PathTagsMapB, gtags.NextTag
		if op.B {
			list, inmap, into, next = gtags.GraphitePathTags, gtags.GraphitePathTagsMap, gtags.GraphitePathTagsMapB, gtags.GraphiteNextTag
		}
		l, err := list(op.V)
		sayTags(&a, "list", pairs(l), err != nil)
		keep(pairs(l))
		m, err1 := inmap(op.V)
		sayTags(&a, "map", sortedMap(m), err1 != nil)
		keep(sortedMap(m))
		b := w.maps[op.Slot]
		err2 := into(op.V, b)
		sayTags(&a, "into", sortedMap(b), err2 != nil)
		keep(sortedMap(b))
		if err == nil {
			sayTags(&a, "tags map", sortedMap(gtags.TagsMap(l)), false)
		}
		// one at a time
		_, rest, _ := strings.Cut(op.V, map[bool]string{true: ";", false: "?"}[op.B])
		var raw [][2]string
		ok := true
		for i := 0; rest != "" && ok && i < 1000; i++ {
			var k, v string
			if k, v, rest, ok = next(rest); ok {
				raw = append(raw, [2]string{k, v})
			}
		}
		sayTags(&a, "one by one", raw, !ok)
	case "p.query":
		t, err := gtags.ParseSeriesByTag(op.V)
		sayTerms(&a, t, err)
	case "p.conds":
		l := cloneList(op.L)
		t, err := gtags.ParseTaggedConditions(l)
		sayTerms(&a, t, err)
		for i := range l {
			if l[i] != op.L[i] {
				a.say("changed its arguments")
			}
		}
	}
	r.subs = a
}

// wantSplit says what they must yield; n counts the parts.
func wantSplit(op *Op, normal func(string) string) (a asked, n int) {
	switch op.K {
	case "p.path":
		var l []string
		empty, s := false, op.V
		if s != "" {
			s = strings.TrimSuffix(s, ".")
			for from := 0; ; {
				i := from
				for i < len(s) && s[i] != '.' {
					i++
				}
				l = append(l, s[from:i])
				empty = empty || i == from
				if i == len(s) {
					break
				}
				from = i + 1
			}
		}
		a.say("parts %q empty %v", l, empty)
		if empty || l == nil {
			a.say("refused")
		} else {
			a.say("parts %q", l)
		}
		a.say("level %q %d", s, len(l))
		n = len(l)
	case "p.tags":
		first, sep := byte('?'), byte('&')
		if op.B {
			first, sep = ';', ';'
		}
		i := strings.IndexByte(op.V, first)
		refused := i < 0 || strings.IndexByte(op.V[:i], '=') >= 0
		name, rest := op.V, ""
		if i >= 0 {
			name, rest = op.V[:i], op.V[i+1:]
		}
		l := [][2]string{{"__name__", unescapeModel(name)}}
		var raw [][2]string
		broken := false
		for rest != "" && !broken {
			kv := rest
			if j := strings.IndexByte(rest, sep); j >= 0 {
				kv, rest = rest[:j], rest[j+1:]
			} else {
				rest = ""
			}
			if j := strings.IndexByte(kv, '='); j >= 0 {
				raw = append(raw, [2]string{kv[:j], kv[j+1:]})
				l = append(l, [2]string{unescapeModel(kv[:j]), unescapeModel(kv[j+1:])})
			} else {
				broken = true
			}
		}
		refused = refused || broken
		m := map[string]string{}
		for _, x := range l {
			m[x[0]] = x[1]
		}
		sayTags(&a, "list", l, refused)
		sayTags(&a, "map", sortedMap(m), refused)
		sayTags(&a, "into", sortedMap(m), refused)
		if !refused {
			sayTags(&a, "tags map", sortedMap(m), false)
			n = len(l)
		}
		sayTags(&a, "one by one", raw, broken)
	case "p.query", "p.conds":
		conds, ok := op.L, true
		if op.K == "p.query" {
			conds, ok = splitQuery(op.V)
		}
		type term struct {
			k  string
			op int
			v  string
		}
		var l []term
		for _, c := range conds {
			t, good := parseCond(c)
			ok = ok && good
			x := term{t.key, 0, t.val}
			if good && t.re == nil && !t.plain {
				x.v = normal(t.val)
			}
			if t.re != nil {
				x.op++
			}
			if t.neg {
				x.op += 2
			}
			l = append(l, x)
		}
		if !ok {
			a.say("refused")
			return
		}
		less := func(x, y term) bool {
			if x.k != y.k {
				if x.k == "__name__" || y.k == "__name__" {
					return x.k == "__name__"
				}
				return x.k < y.k
			}
			if x.op != y.op {
				return x.op < y.op
			}
			return x.v < y.v
		}
		sort.Slice(l, func(i, j int) bool { return less(l[i], l[j]) })
		var s []string
		for _, x := range l {
			s = append(s, fmt.Sprintf("%q %s %q", x.k, []string{"=", "=~", "!=", "!=~"}[x.op], x.v))
		}
		a.say("terms %v", s)
		n = len(l)
	}
	return
}

func judgeC23(c *ctx) *failure {
	p := c.p
	w := &world{p: p}
	for i := 0; i < slots; i++ {
		l := []string{"used", "before"}
		w.parts = append(w.parts, &l)
		w.maps = append(w.maps, map[string]string{"used": "before", "a": "x"})
	}
	zz.ResetGlobals()
	if f := c.wear(w); f != nil {
		return f
	}
	log, z := c.slotted(w)
	if f := checkStop(z); f != nil {
		return f
	}
	if s := w.changed(); s != "" {
		return failf("changed", "%s", s)
	}
	// values with wildcards are listed in their normal form
	norms := map[string]string{}
	normal := func(v string) string {
		if s, ok := norms[v]; ok {
			return s
		}
		s := ""
		c.pristine(func() {
			if x, err := glob.Parse(v); err == nil {
				s = x.Node
			}
		})
		norms[v] = s
		return s
	}
	several, refused := 0, 0
	for _, e := range log {
		op, r := e.op, e.r
		where := fmt.Sprintf("op %d (caller %d) %s", r.pos, e.c, op)
		if r.panicked != "" {
			return failf("panic", "%s panicked: %s", where, r.panicked)
		}
		want, n := wantSplit(op, normal)
		if n > 1 {
			several++
		}
		for i := 0; i < len(want) || i < len(r.subs); i++ {
			x, y := "nothing", "nothing"
			if i < len(want) {
				x = want[i]
			}
			if i < len(r.subs) {
				y = r.subs[i]
			}
			if strings.HasSuffix(x, "refused") {
				refused++
			}
			if x != y {
				return failf("split", "%s\n  expected: %s\n  answered: %s", where, x, y)
			}
		}
	}
	c.st.Counts["refused answers"] += int64(refused)
	if several > 1 {
		c.nt = true
	}
	return nil
}
