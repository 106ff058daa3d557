package main

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"

	zz "MODULE/zzsimrt"
)

// gen draws patterns, values and queries. The pools it draws from are small
// within one run, so that patterns share nodes and values hit several of them.
type gen struct {
	r     *zz.Rand
	alpha []rune
	lits  []string
	part  []string // part patterns of dotted globs
	keys  []string
	vals  []string            // tag values and tag value patterns
	long  bool                // some texts are long
	big   int                 // 0 small, 1 medium, 2 large, 3 very large
	set   string              // one of the sets drawn
	prior map[string][]string // some of the patterns drawn
	hole  bool                // sets may have very wide ranges
	wide  string              // what is drawn far larger than usual in this run
	pair  []string            // two texts of one checksum
	seen  map[string][]string // some of the values drawn
	sets  [][][2]string       // some of the tag sets drawn
}

// samePairs are texts that usual hash functions and checksums map to one value.
var samePairs = [][2]string{
	{"qjybtc", "fomrel"}, {"rofmjo", "egmcdw"}, // FNV-1, 32 bits
	{"zjwaxj", "rizcrf"}, {"valdek", "ylrpye"}, // FNV-1a, 32 bits
	{"fmvzlcwge", "xurvzqsrp"}, {"wndmmjwii", "kvbjhclrb"}, // CRC-32
	{"raliwccze", "ruridnbpm"}, {"wicajajsh", "xrdxnnmyz"}, // CRC-32C
	{"skda", "zace"}, {"ncvg", "iomi"}, // Adler-32
	{"rftmrfdvwewybf", "hvydrwzmzyisgf"}, // FNV-1a, 64 bits
	{"dciejanzwrtdcc", "lkrncijrsvlgce"}, // FNV-1, 64 bits
	{"Aa", "BB"}, {"xAa", "xBB"}, // times 31
	{"Ab", "BA"}, {"xAbc", "xBAc"}, // times 33
}

var alphabets = []string{
	"abc", "ab", "abcdefgh", "abc_-1", "aZ09_", "abя", "aбв日本", "aé€𝛼😀", "xyzXYZ", "0123456789",
	"aAbB:/#@", "ab\x00\x01\x02\x1f\x7f", "АВДЖКМПСФШбгеzéĀ日本語中€😀",
	"ab\ufffc\ufffd\ufffe",
	"xz|\x7f\u0080\u0081\u07fe\u07ff\u0800\u0801\uffff\U00010000\U00010001\U0010ffff",
}

func newGen(seed uint64) *gen {
	g := &gen{r: zz.NewRand(seed)}
	g.alpha = []rune(alphabets[g.r.Intn(len(alphabets))])
	switch x := g.r.Intn(100); {
	case x < 62:
	case x < 94:
		g.big = 1
	default:
		g.big = 2
	}
	if g.r.Chance(25) {
		g.wide = g.pick([]string{"list", "parts", "tags", "long", "set", "many"})
		if g.wide == "long" && g.r.Chance(150) {
			g.wide = "huge"
			g.big = 0
		}
		if g.wide == "many" {
			g.big = 2
			if g.r.Chance(300) {
				g.big = 3
			}
		}
	}
	for i := 0; i < 4+g.r.Intn(4); i++ {
		g.lits = append(g.lits, g.word(1+g.r.Intn(4)))
	}
	// words that extend one another
	for i := 0; i < 2; i++ {
		w := g.lits[g.r.Intn(len(g.lits))]
		g.lits = append(g.lits, w+g.word(1+g.r.Intn(2)))
	}
	// now and then long ones
	if g.r.Chance(60) {
		g.long = true
		w := g.word([]int{9, 17, 33, 65, 130}[g.r.Intn(5)] + g.r.Intn(8) - 3)
		g.lits = append(g.lits, w, w+g.word(1))
	}
	if g.wide == "long" {
		g.long = true
		for i := 1 + g.r.Intn(3); i > 0; i-- {
			w := g.word([]int{63, 127, 128, 255, 256, 257, 511, 1024, 4096}[g.r.Intn(9)] + g.r.Intn(3) - 1)
			g.lits = append(g.lits, w, w+g.word(1))
			if len(w) > 1000 {
				g.big = 0 // matching takes the square of the length
			}
		}
	}
	if g.wide == "huge" {
		g.long = true
		w := g.word([]int{1 << 15, 1 << 16, 1 << 16}[g.r.Intn(3)] + g.r.Intn(7) - 3)
		g.lits = append(g.lits, w)
	}
	if g.r.Chance(50) {
		x := samePairs[g.r.Intn(len(samePairs))]
		g.pair = x[:]
		g.lits = append(g.lits, x[0], x[1], x[0], x[1])
		k := g.r.Intn(2)
		g.part = append(g.part, x[k][:1]+"*", "*"+x[k][len(x[k])-1:], x[k][:1]+strings.Repeat("?", len(x[k])-1))
	}
	n := 3 + g.r.Intn(4)
	if g.big > 0 {
		n += 4 * g.big * g.big
	}
	for i := 0; i < n; i++ {
		g.part = append(g.part, g.partPattern())
	}
	g.keys = []string{"__name__"}
	pool := []string{"a", "b", "c", "d", "e", "f", "g", "h", "A", "Zone", "_x", "ab", "dc", "host", "k1", "k2", "zz"}
	n = 2 + g.r.Intn(5)
	if g.big > 0 {
		n += 6
	}
	for i := 0; i < n; i++ {
		k := pool[g.r.Intn(len(pool))]
		if !has(g.keys, k) {
			g.keys = append(g.keys, k)
		}
	}
	if g.pair != nil && g.r.Chance(300) {
		g.keys = append(g.keys, g.pair...)
	}
	if g.big > 0 && g.r.Chance(250) {
		for i := 8 + g.r.Intn(24); i > 0; i-- {
			if k := "t" + strconv.Itoa(g.r.Intn(40)); !has(g.keys, k) {
				g.keys = append(g.keys, k)
			}
		}
	}
	if g.wide == "tags" {
		for i := []int{16, 17, 31, 32, 33, 64, 65, 100, 128, 130}[g.r.Intn(10)]; i > 0; i-- {
			if k := "w" + strconv.Itoa(i); !has(g.keys, k) {
				g.keys = append(g.keys, k)
			}
		}
	}
	for i := 0; i < 5+4*g.big; i++ {
		g.vals = append(g.vals, g.tagValue())
	}
	return g
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (g *gen) rune() rune { return g.alpha[g.r.Intn(len(g.alpha))] }

func (g *gen) word(n int) string {
	var b strings.Builder
	for ; n > 0; n-- {
		b.WriteRune(g.rune())
	}
	return b.String()
}

func (g *gen) lit() string {
	if len(g.lits) > 0 && g.r.Chance(600) {
		return g.lits[g.r.Intn(len(g.lits))]
	}
	return g.word(1 + g.r.Intn(3))
}

func (g *gen) pick(l []string) string { return l[g.r.Intn(len(l))] }

// class writes a set of runes.
func (g *gen) class() string {
	if g.set != "" && g.r.Chance(70) {
		return g.sibling(g.set)
	}
	s := g.freshClass()
	if g.set == "" || g.r.Chance(200) {
		g.set = s
	}
	return s
}

// sibling changes one member of a set.
func (g *gen) sibling(set string) string {
	rs := []rune(set)
	i := 1 + g.r.Intn(len(rs)-1)
	if i == len(rs)-1 || rs[i] == '-' || rs[i-1] == '-' || rs[i+1] == '-' {
		return set
	}
	c := rs[i] + rune(g.r.Intn(7)-3)
	if g.r.Chance(300) {
		c = g.rune()
	}
	if plainRune(c) && sameLen(c, rs[i]) {
		rs[i] = c
	}
	return string(rs)
}

func (g *gen) freshClass() string {
	var b strings.Builder
	b.WriteByte('[')
	n := 1 + g.r.Intn(4)
	if g.r.Chance(150) {
		n += 4
	}
	if g.hole && g.r.Chance(100) {
		// wide ranges, some of them with the surrogates inside
		b.WriteString(g.pick([]string{"\ud7ff-\ue000", "\ud7f0-\ue00f", "\ud700-\ue0ff", "\u0080-\u07ff", "\u0800-\u0fff", "\u0800-\uf8ff", "\U00010000-\U0010ffff", "\U0001f300-\U0001f6ff"}))
		n = g.r.Intn(3)
	}
	wide := g.wide == "set" && g.r.Chance(400)
	if wide {
		n = []int{8, 9, 16, 17, 32, 33, 64, 65, 128, 130, 257}[g.r.Intn(11)]
	}
	for i := 0; i < n; i++ {
		c := g.rune()
		if wide {
			c = []rune{'0', 'А', 0x4e00, 0x1f300}[g.r.Intn(4)] + rune(g.r.Intn(40*n))
			if !plainRune(c) || c >= 0x80 && c < 0xa0 {
				continue
			}
		}
		if c == '-' {
			c = '_'
		}
		if g.r.Chance(450) {
			d := c + rune(g.r.Intn(4))
			if sameLen(c, d) && plainRune(d) && plainRange(c, d) {
				b.WriteRune(c)
				b.WriteByte('-')
				b.WriteRune(d)
				continue
			}
		}
		b.WriteRune(c)
	}
	b.WriteByte(']')
	return b.String()
}

func sameLen(a, b rune) bool { return len(string(a)) == len(string(b)) }

func plainRune(r rune) bool {
	return r >= 0 && r != 0x20 && (r < 9 || r > 13) && !strings.ContainsRune("[]{}*?,-.'\"()=~!;&%+", r)
}

func plainRange(a, b rune) bool {
	for ; a <= b; a++ {
		if !plainRune(a) {
			return false
		}
	}
	return true
}

// list writes a list of values, some of them with wildcards.
func (g *gen) list(stars *int) string {
	n := 2 + g.r.Intn(4)
	if g.r.Chance(80) {
		n += 5
		if g.r.Chance(150) {
			n += 20
		}
	}
	if g.wide == "list" && g.r.Chance(300) {
		n = []int{15, 16, 17, 31, 33, 63, 65, 127, 129, 255, 257, 300}[g.r.Intn(12)]
	}
	wild := 0
	if g.r.Chance(350) {
		wild = 400
	}
	var vs []string
	if g.r.Chance(200) && *stars > 0 {
		*stars--
		vs = append(vs, "")
	}
	for i := 0; i < n; i++ {
		if !g.r.Chance(wild) {
			vs = append(vs, g.lit())
			continue
		}
		var b strings.Builder
		for k := 1 + g.r.Intn(3); k > 0; k-- {
			switch g.r.Intn(6) {
			case 0, 1:
				b.WriteString(g.lit())
			case 2:
				b.WriteString("?")
			case 3:
				b.WriteString(g.class())
			case 4:
				if *stars > 0 {
					*stars--
					b.WriteString("*")
				}
			case 5:
				if g.r.Chance(100) {
					b.WriteString("[]") // an empty set is nothing
					break
				}
				fallthrough
			default:
				b.WriteString(g.lit())
			}
		}
		vs = append(vs, b.String())
	}
	if g.r.Chance(100) {
		vs = append(vs, vs[g.r.Intn(len(vs))])
	}
	for i := len(vs) - 1; i > 0; i-- {
		j := g.r.Intn(i + 1)
		vs[i], vs[j] = vs[j], vs[i]
	}
	return "{" + strings.Join(vs, ",") + "}"
}

// globText writes a glob of n segments.
func (g *gen) globText(n int) string {
	for {
		var b strings.Builder
		stars := 3
		if g.long {
			stars = 1 // the work is a power of their number
		}
		for i := 0; i < n; i++ {
			switch x := g.r.Intn(100); {
			case x < 38:
				b.WriteString(g.lit())
			case x < 52:
				b.WriteString("?")
			case x < 68:
				if stars > 0 {
					stars--
					b.WriteString("*")
				}
			case x < 82:
				b.WriteString(g.class())
			case x < 96:
				b.WriteString(g.list(&stars))
			case x < 97:
				b.WriteString([]string{"[*]", "[?]", "[a*]", "[]", "{}", "[?*]"}[g.r.Intn(6)])
			case x < 98:
				b.WriteString("{" + g.lit() + "}")
			default:
				b.WriteString("[" + string(g.rune()) + "]")
			}
		}
		s := b.String()
		ns, ok := parseModel(s)
		if ok && s != "" && !emptyOnly(ns) {
			return s
		}
	}
}

func (g *gen) glob() string {
	if g.r.Chance(80) {
		return g.lit()
	}
	s := g.globText(1 + g.r.Intn(5))
	if g.r.Chance(40) {
		// a dot means nothing to a plain glob
		if d := strings.Replace(s, string(g.rune()), ".", 1); modelOf("glob", d) != nil {
			s = d
		}
	}
	return s
}

func (g *gen) partPattern() string {
	switch g.r.Intn(8) {
	case 0, 1:
		return g.lit()
	case 2:
		return "*"
	}
	return g.globText(1 + g.r.Intn(3))
}

func (g *gen) gglob() string {
	n := 1 + g.r.Intn(4)
	if g.big > 0 && g.r.Chance(100) {
		n += 4
	}
	if g.wide == "parts" && g.r.Chance(500) || g.wide == "" && !g.long && g.r.Chance(4) {
		n = []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128}[g.r.Intn(14)]
	}
	var ps []string
	for i := 0; i < n; i++ {
		if g.r.Chance(850) {
			ps = append(ps, g.pick(g.part))
		} else {
			ps = append(ps, g.partPattern())
		}
	}
	s := strings.Join(ps, ".")
	if g.r.Chance(60) {
		s += "."
	}
	return s
}

func (g *gen) tagValue() string {
	switch g.r.Intn(6) {
	case 0, 1, 2:
		return g.lit()
	}
	return g.globText(1 + g.r.Intn(3))
}

func (g *gen) regex() string {
	a, b := g.rune(), g.rune()
	if a == '-' || b == '-' {
		a, b = 'a', 'b'
	}
	switch g.r.Intn(14) {
	case 10:
		return "^" + g.lit() + g.pick([]string{"$", "", "?$", ".$", ".*", "(" + g.lit() + ")?$", "+"})
	case 11:
		return "^(" + g.lit() + "|" + g.pick([]string{".", "", g.lit() + ".*", "[" + string(a) + string(b) + "]", g.lit() + "$"}) + "|" + g.lit() + ")$"
	case 12:
		if g.r.Chance(500) {
			return "(?i)" + g.lit()
		}
		return g.pick([]string{"(?i:", "^(?:", "("}) + g.lit() + "|" + g.lit() + ")"
	case 13:
		return g.pick([]string{`\d`, `\w+`, `[^` + string(a) + `]`, `^.$`, `^$`, `.+`, `^..`, `\.`, `^` + g.lit() + `|` + g.lit() + `$`, `[` + string(a) + `-` + string(a+2) + `]$`})
	case 0:
		return "^" + string(a)
	case 1:
		return string(b) + "$"
	case 2:
		return string(a) + "|" + string(b)
	case 3:
		return "^" + string(a) + ".*" + string(b) + "$"
	case 4:
		return "[" + string(a) + string(b) + "]+"
	case 5:
		return "^(" + g.lit() + "|" + g.lit() + ")$"
	case 6:
		return ""
	case 7:
		return string(a) + "{2}"
	case 8:
		return ".*"
	}
	return string(a) + "?" + string(b)
}

// brokenRe is a regular expression that lost its end, or something else, or
// got a symbol too many.
func (g *gen) brokenRe() string {
	s := g.regex()
	switch g.r.Intn(5) {
	case 0:
		return strings.TrimRight(s, "$") + `\`
	case 1:
		return s[:g.r.Intn(len(s)+1)]
	case 2:
		i := g.r.Intn(len(s) + 1)
		return s[:i] + g.pick([]string{`\`, "[", "(", ")", "]", "^", "$", "|", "+", "?", "{", "{1", "{1,", "(?", "(?:", "(?i", "[^", "[a-", `\x`, `\p`, `\Q`, "[:", "[[:alpha:"}) + s[i:]
	case 3:
		return "^" + g.lit() + g.pick([]string{`\`, "[", "(", "|", `\d`, "{", "{2", "[^", "(?", `\$`, `\\$`, `\\`}) + g.pick([]string{"", "", "$"})
	}
	return g.pick([]string{"^", "$", "^$", "$^", "^^", "$$", "|", "^|$", "(", ")", `\`, "^\\", "[", "[]", "[^]", "()", "^()$", "(|)", "(?:)", "^*", "$*", "^+", "**", "a**", "a{1001}", "(?", "(?P<", "(?P<n>a)", `\pN`, `\pX`, `\8`})
}

func (g *gen) cond() string {
	k := g.pick(g.keys)
	if k == "__name__" && g.r.Chance(500) {
		k = "name"
	}
	sp := func() string {
		if g.r.Chance(40) {
			return " "
		}
		return ""
	}
	val := func() string {
		if g.r.Chance(40) {
			return ""
		}
		if g.r.Chance(850) {
			return g.pick(g.vals)
		}
		return g.tagValue()
	}
	switch g.r.Intn(10) {
	case 0:
		return k + sp() + "!=" + sp() + val()
	case 1:
		return k + sp() + "!=~" + sp() + g.regex()
	case 2, 3:
		return k + sp() + "=~" + sp() + g.regex()
	case 4:
		if g.r.Chance(150) {
			return k + g.pick([]string{"=it's", "=it's", `=say"so`, `!="`, "!=o'"})
		}
		if g.r.Chance(150) { // signs that mean something elsewhere
			if g.r.Chance(300) {
				k = g.pick([]string{"it's", `k"`, "a b", "k(", "x)", "a,b", "~k", "k.x", "Name", "name2", "_"})
				if k == "~k" {
					k = "k;"
				}
			}
			return k + g.pick([]string{"= ~", "!= ~", "= ~" + val(), "!= ~" + val(), "==", "!==", "=a=b", "!=a!=b", "=a,b", "=a)b", "=)", "=(", "=a b", "=!",
				"!=~ ~x", "=~~", "=a;b", "=&", "=?", "!=;=", "=a%20b", "=a+b", "=" + val() + " " + val()})
		}
	}
	return k + sp() + "=" + sp() + val()
}

func (g *gen) query() string {
	n := 1 + g.r.Intn(3)
	if g.r.Chance(200) {
		n += 3
	}
	if g.r.Chance(30) {
		n = 0
	}
	if g.big >= 2 && g.r.Chance(30) {
		n = 12 + g.r.Intn(10)
	}
	keys := g.keys
	if g.r.Chance(8) {
		// many conditions on few keys
		n = 13 + g.r.Intn(30)
		defer func() { g.keys = keys }()
		g.keys = g.keys[:1+g.r.Intn(lesser(3, len(g.keys)))]
	}
	if g.wide == "tags" && g.r.Chance(300) {
		n = 8 + g.r.Intn(lesser(120, len(g.keys)))
	}
	var cs []string
	for i := 0; i < n; i++ {
		c := g.cond()
		q := "'"
		if strings.Contains(c, "'") || !strings.Contains(c, `"`) && g.r.Chance(200) {
			q = `"`
		}
		cs = append(cs, q+c+q)
	}
	return "seriesByTag(" + strings.Join(cs, []string{",", ", ", " "}[g.r.Intn(3)]) + ")"
}

func (g *gen) pattern(kind string) string {
	for {
		var s string
		l := g.prior[kind]
		switch {
		case len(l) > 0 && g.r.Chance(120):
			s = g.vary(l[g.r.Intn(len(l))])
		case kind == "glob":
			s = g.glob()
		case kind == "gglob":
			s = g.gglob()
		default:
			s = g.query()
		}
		if modelOf(kind, s) != nil {
			if len(l) < 6 {
				if g.prior == nil {
					g.prior = map[string][]string{}
				}
				g.prior[kind] = append(l, s)
			}
			return s
		}
	}
}

// near makes a text that is easily taken for s: of the same checksum, or of the
// same symbols in another order or with the borders elsewhere.
func (g *gen) near(s string) string {
	if g.pair != nil && g.r.Chance(700) {
		k := g.r.Intn(2)
		if !strings.Contains(s, g.pair[k]) {
			k = 1 - k
		}
		if strings.Contains(s, g.pair[k]) {
			return strings.Replace(s, g.pair[k], g.pair[1-k], 1+g.r.Intn(2))
		}
	}
	rs := []rune(s)
	if len(rs) < 2 {
		return s
	}
	i := g.r.Intn(len(rs) - 1)
	switch ps := strings.Split(s, "."); g.r.Intn(3) {
	case 0: // two parts change places
		if len(ps) > 1 {
			i, j := g.r.Intn(len(ps)), g.r.Intn(len(ps))
			ps[i], ps[j] = ps[j], ps[i]
			return strings.Join(ps, ".")
		}
		fallthrough
	case 1: // two symbols
		j := i + 1 + g.r.Intn(lesser(4, len(rs)-i-1))
		if plainRune(rs[i]) && plainRune(rs[j]) {
			rs[i], rs[j] = rs[j], rs[i]
		}
	case 2: // a border moves
		border := func(c rune) bool { return c == '.' || c == ',' }
		for k := range rs {
			j := (i + k) % len(rs)
			if j+2 < len(rs) && border(rs[j]) && plainRune(rs[j+1]) && plainRune(rs[j+2]) {
				rs[j], rs[j+1] = rs[j+1], rs[j]
				break
			}
			if j > 1 && border(rs[j]) && plainRune(rs[j-1]) && plainRune(rs[j-2]) {
				rs[j], rs[j-1] = rs[j-1], rs[j]
				break
			}
		}
	}
	return string(rs)
}

// nearTags makes tags that are easily taken for others.
func (g *gen) nearTags(l [][2]string) [][2]string {
	m := map[string]string{}
	for _, t := range l {
		m[t[0]] = t[1]
	}
	a, b := l[g.r.Intn(len(l))], l[g.r.Intn(len(l))]
	switch g.r.Intn(4) {
	case 0: // two values change places
		m[a[0]], m[b[0]] = b[1], a[1]
	case 1: // the border between key and value moves
		rs := []rune(a[0])
		k := string(rs[:len(rs)-1])
		if _, ok := m[k]; !ok && len(rs) > 1 && has(g.keys, k) {
			delete(m, a[0])
			m[k] = string(rs[len(rs)-1]) + a[1]
		} else if rs := []rune(a[1]); len(rs) > 0 && has(g.keys, a[0]+string(rs[0])) && a[0] != "__name__" {
			if _, ok := m[a[0]+string(rs[0])]; !ok {
				delete(m, a[0])
				m[a[0]+string(rs[0])] = string(rs[1:])
			}
		}
	case 2: // a value moves to another key
		if k := g.pick(g.keys); a[0] != "__name__" {
			if _, ok := m[k]; !ok {
				delete(m, a[0])
				m[k] = a[1]
			}
		}
	default:
		m[a[0]] = g.near(a[1])
	}
	return sortTags(m)
}

// vary changes one symbol of a pattern.
func (g *gen) vary(s string) string {
	if g.r.Chance(250) {
		return g.near(s)
	}
	rs := []rune(s)
	for k := 0; k < 10; k++ {
		i := g.r.Intn(len(rs))
		c := rs[i]
		if !plainRune(c) && c != '?' || c == '?' && g.r.Chance(800) {
			continue
		}
		d := g.rune()
		if g.r.Chance(500) {
			d = c + rune(g.r.Intn(7)-3)
		}
		if d != c && plainRune(d) && sameLen(c, d) {
			rs[i] = d
			break
		}
	}
	return string(rs)
}

// mutate changes a text a little.
func (g *gen) mutate(s string) string {
	rs := []rune(s)
	switch g.r.Intn(6) {
	case 5:
		// a neighbour, or the other case
		if len(rs) > 0 {
			i := g.r.Intn(len(rs))
			d := rs[i] + []rune{1, -1, 32, -32}[g.r.Intn(4)]
			if plainRune(d) && d < 0x10000 {
				rs[i] = d
			}
		}
	case 0:
		if len(rs) > 0 {
			i := g.r.Intn(len(rs))
			rs = append(rs[:i], rs[i+1:]...)
		}
	case 1:
		i := g.r.Intn(len(rs) + 1)
		rs = append(rs[:i], append([]rune{g.rune()}, rs[i:]...)...)
	case 2:
		if len(rs) > 0 {
			rs[g.r.Intn(len(rs))] = g.rune()
		}
	case 3:
		rs = append(rs, []rune(g.lit())...)
	case 4:
		rs = append([]rune(g.lit()), rs...)
	}
	return string(rs)
}

func (g *gen) sample(ns []node) string {
	if g.pair != nil && g.r.Chance(350) {
		if x := g.pick(g.pair); matchNodes(ns, x) {
			return x
		}
	}
	var b strings.Builder
	sampleNodes(g, ns, &b)
	return b.String()
}

// value draws a text to match against the given patterns.
func (g *gen) value(kind string, pats []string) string {
	var s string
	if len(pats) > 0 && g.r.Chance(900) {
		p := modelOf(kind, g.pick(pats))
		switch {
		case p == nil:
			s = g.lit()
		case kind == "glob":
			s = g.sample(p.glob)
			if g.r.Chance(250) {
				s = g.mutate(s)
			}
		default:
			var ps []string
			for _, ns := range p.parts {
				x := g.sample(ns)
				if g.r.Chance(120) {
					x = g.mutate(x)
				}
				x = strings.ReplaceAll(x, ".", "")
				if x == "" {
					x = string(g.rune())
				}
				ps = append(ps, x)
			}
			if g.r.Chance(60) {
				ps = append(ps, g.lit())
			}
			s = strings.Join(ps, ".")
		}
	} else {
		s = g.lit()
		if kind == "gglob" {
			for k := g.r.Intn(3); k > 0; k-- {
				s += "." + g.lit()
			}
		}
	}
	if g.r.Chance(30) {
		s = g.damage(s)
	}
	if kind == "gglob" && g.r.Chance(60) {
		s += "."
	}
	if kind == "gglob" && g.r.Chance(25) {
		s = g.hollow(s)
	}
	if l := g.seen[kind]; len(l) > 0 && (g.r.Chance(50) || g.pair != nil && g.r.Chance(150)) {
		return g.near(l[g.r.Intn(len(l))])
	}
	if g.seen == nil {
		g.seen = map[string][]string{}
	}
	if l := g.seen[kind]; len(l) < 8 {
		g.seen[kind] = append(l, s)
	} else {
		l[g.r.Intn(len(l))] = s
	}
	return s
}

// hollow makes a path with an empty part somewhere.
func (g *gen) hollow(s string) string {
	parts := strings.Split(s, ".")
	i := g.r.Intn(len(parts))
	switch g.r.Intn(8) {
	case 0, 1: // a part lost
		parts[i] = ""
	case 2:
		return "." + s
	case 3:
		return s + ".."
	case 4:
		return g.pick([]string{"", ".", "..", "..."})
	default: // one more
		parts = append(parts[:i:i], append([]string{""}, parts[i:]...)...)
	}
	return strings.Join(parts, ".")
}

// damage puts bytes that are no valid UTF-8, or the replacement symbol, into a
// value: each of them counts as one symbol.
func (g *gen) damage(s string) string {
	i := 0
	for j := range s {
		if g.r.Chance(400) {
			i = j
			break
		}
	}
	return s[:i] + g.pick([]string{"\xff", "\xd1", "\xe2", "\xf0\x9f", "\x8f", "\ufffd"}) + s[i:]
}

// tags draws a tag list to match against the given queries: the name first,
// the rest sorted by key.
func (g *gen) tags(pats []string) [][2]string {
	m := map[string]string{}
	set := func(t *mterm) {
		v := g.lit()
		switch {
		case t.plain:
			v = t.val
		case t.glob != nil:
			v = g.sample(t.glob)
		case t.re != nil:
			switch g.r.Intn(3) {
			case 0:
				v = strings.Trim(t.val, "^$.*+?{}()[]|12")
			case 1:
				v = g.sampleRe(t.val)
			}
		}
		if t.neg && g.r.Chance(500) {
			v = g.lit()
		}
		if g.r.Chance(100) {
			v = g.mutate(v)
		}
		if g.r.Chance(15) {
			v = g.damage(v)
		}
		m[t.key] = v
	}
	for k := 1 + g.r.Intn(2); k > 0 && len(pats) > 0; k-- {
		if p := modelOf("tags", g.pick(pats)); p != nil {
			for i := range p.terms {
				if g.r.Chance(930) {
					set(&p.terms[i])
				}
			}
		}
	}
	most := 300
	if g.r.Chance(120) {
		most = 900
	}
	for _, k := range g.keys {
		if _, ok := m[k]; !ok && g.r.Chance(most) {
			v := g.lit()
			if p, ok := parseModel(g.pick(g.vals)); ok && g.r.Chance(600) {
				v = g.sample(p)
			}
			if len(v) > 300 && len(m) > 3 {
				v = string(g.rune()) // a call has a work budget
			}
			m[k] = v
		}
	}
	if _, ok := m["__name__"]; !ok {
		m["__name__"] = g.lit()
	}
	if len(g.sets) > 0 && (g.r.Chance(50) || g.pair != nil && g.r.Chance(150)) {
		return g.nearTags(g.sets[g.r.Intn(len(g.sets))])
	}
	l := sortTags(m)
	if len(g.sets) < 8 {
		g.sets = append(g.sets, l)
	} else {
		g.sets[g.r.Intn(len(g.sets))] = l
	}
	return l
}

// sampleRe writes a text that a regular expression matches, more or less.
func (g *gen) sampleRe(s string) string {
	re, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return ""
	}
	var b strings.Builder
	var walk func(re *syntax.Regexp)
	walk = func(re *syntax.Regexp) {
		n := 1
		switch re.Op {
		case syntax.OpLiteral:
			for _, r := range re.Rune {
				if re.Flags&syntax.FoldCase != 0 && r < 0x80 && g.r.Chance(400) {
					r = []rune(strings.ToUpper(string(r)))[0]
				}
				b.WriteRune(r)
			}
			return
		case syntax.OpCharClass:
			if len(re.Rune) > 0 {
				i := g.r.Intn(len(re.Rune)/2) * 2
				if r := re.Rune[i] + rune(g.r.Intn(3)); r <= re.Rune[i+1] && r > ' ' {
					b.WriteRune(r)
					return
				}
			}
			b.WriteRune(g.rune())
			return
		case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
			b.WriteRune(g.rune())
			return
		case syntax.OpAlternate:
			walk(re.Sub[g.r.Intn(len(re.Sub))])
			return
		case syntax.OpStar:
			n = g.r.Intn(3)
		case syntax.OpPlus:
			n = 1 + g.r.Intn(2)
		case syntax.OpQuest:
			n = g.r.Intn(2)
		case syntax.OpRepeat:
			n = re.Min
		}
		for ; n > 0; n-- {
			for _, sub := range re.Sub {
				walk(sub)
			}
		}
	}
	walk(re)
	return b.String()
}

func sortTags(m map[string]string) [][2]string {
	var ks []string
	for k := range m {
		if k != "__name__" {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var out [][2]string
	if v, ok := m["__name__"]; ok {
		out = append(out, [2]string{"__name__", v})
	}
	for _, k := range ks {
		out = append(out, [2]string{k, m[k]})
	}
	return out
}

func validTags(t [][2]string) bool {
	if len(t) == 0 || t[0][0] != "__name__" {
		return false
	}
	for i := range t {
		if t[i][0] == "" || i > 0 && t[i][0] == "__name__" || i > 1 && t[i-1][0] >= t[i][0] {
			return false
		}
	}
	return true
}

// escaped writes a text for use in a tagged path.
func (g *gen) escaped(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == ' ' && g.r.Chance(700):
			b.WriteByte('+')
		case strings.IndexByte("%+&=?;/ ", c) >= 0 || c >= 0x80 && g.r.Chance(500) || g.r.Chance(30):
			if g.r.Chance(500) {
				fmt.Fprintf(&b, "%%%02X", c)
			} else {
				fmt.Fprintf(&b, "%%%02x", c)
			}
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

// tagPath writes a tagged path; some are malformed.
func (g *gen) tagPath(graphite bool) string {
	t := g.tags(nil)
	sep, sep2 := "?", "&"
	if graphite {
		sep, sep2 = ";", ";"
	}
	var kv []string
	for _, x := range t[1:] {
		kv = append(kv, g.escaped(x[0])+"="+g.escaped(x[1]))
	}
	if len(kv) > 0 && g.r.Chance(80) {
		kv = append(kv, kv[0])
	}
	s := g.escaped(t[0][1])
	if len(kv) > 0 {
		s += sep + strings.Join(kv, sep2)
	}
	switch g.r.Intn(12) {
	case 0:
		s += sep2 + "broken"
	case 1:
		s = strings.Replace(s, "=", "", 1)
	case 2:
		s += sep2
	case 3:
		s = "a=b" + s
	}
	return s
}

// malformed draws a pattern that every matcher of the kind must refuse.
func (g *gen) malformed(kind string) string {
	bad := []string{"[", "{", "]", "}", g.lit() + "[" + g.lit(), g.lit() + "{" + g.lit() + ",", g.lit() + "]", "*" + g.lit() + "}",
		"[b-a]", "{" + g.lit() + "," + g.lit() + "*", "?[" + g.lit(), "*{a,b", "a*[b", "a{b,c}d[", "*]"}
	for {
		s := g.pick(bad)
		switch kind {
		case "glob":
		case "gglob":
			if g.r.Chance(200) {
				// several bad parts
				var ps []string
				for k := 2 + g.r.Intn(8); k > 0; k-- {
					if g.r.Chance(500) {
						ps = append(ps, g.pick(bad))
					} else {
						ps = append(ps, g.pick(g.part))
					}
				}
				s = strings.Join(ps, ".")
				break
			}
			switch g.r.Intn(5) {
			case 0:
				s = g.pick(g.part) + ".." + g.pick(g.part)
			case 4:
				s = g.pick([]string{".", "..", g.pick(g.part) + "..", g.pick(g.part) + "." + g.pick(g.part) + "..", g.pick(g.part) + "..."})
			case 1:
				s = "." + g.pick(g.part)
			case 2:
				s = g.pick(g.part) + "." + s
			case 3:
				s = g.pick(g.part) + "." + s + "." + g.pick(g.part)
			}
		default:
			k := g.pick(g.keys)
			good := "'" + strings.ReplaceAll(g.cond(), "'", "") + "',"
			if g.r.Chance(300) {
				good = ""
			}
			if g.r.Chance(150) {
				// several bad conditions
				s = "seriesByTag("
				for k := 2 + g.r.Intn(5); k > 0; k-- {
					s += "'" + g.pick(g.keys) + g.pick([]string{"=a[", "={a", "!=b]", "=~[", "=~(", "!=~a)", "", "=a", "=b*", "=~a"}) + "',"
				}
				s += ")"
				break
			}
			switch g.r.Intn(9) {
			case 0:
				s = "seriesByTag(" + good + "'" + k + "=" + g.pick([]string{"a[", "{a", "b]", "*}", "a*[b"}) + "')"
			case 1:
				s = "seriesByTag(" + good + "'" + k + "=~" + g.pick([]string{"[", "(", "a)", "*", "a{2,1}"}) + "')"
			case 2:
				s = "seriesByTag(" + good + "'" + k + "=a"
			case 3:
				s = "seriesByTag(" + good + "'" + k + "=a)"
			case 4:
				s = "seriesByTag(" + good + "'=" + k + "')"
			case 5:
				s = "seriesByTag(" + good + "' =" + k + "')"
			case 6:
				s = "series(" + good + "'a=b')"
			case 7:
				s = "seriesByTag(" + good + "'" + k + "')"
			case 8:
				var b strings.Builder
				b.WriteString("seriesByTag(")
				for i := 0; i < 129; i++ {
					b.WriteString("'k" + strconv.Itoa(i) + "=v',")
				}
				b.WriteString(")")
				s = b.String()
			}
		}
		if newModel(kind, s) == nil {
			return s
		}
	}
}

func (g *gen) count(small, medium, large int) int {
	switch g.big {
	case 0:
		return 1 + g.r.Intn(small)
	case 1:
		return 2 + g.r.Intn(medium)
	case 3:
		return 4*large + g.r.Intn(large)
	}
	return 4 + g.r.Intn(large)
}
