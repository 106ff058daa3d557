package main

// The reference model: what patterns and queries mean, written from the
// documentation and independently of the code under test.

import (
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"
)

const (
	nLit = iota
	nAny
	nStar
	nSet
	nAlt
)

type rng struct{ lo, hi rune }

// node is one element of a parsed glob.
type node struct {
	kind int
	r    rune
	set  []rng
	alts [][]node
}

// parseModel parses a glob of the supported syntax; ok is false for anything
// outside of it (such plans are not judged).
func parseModel(s string) (ns []node, ok bool) { return parseNodes(s, true) }

func parseNodes(s string, braces bool) (ns []node, ok bool) {
	if !utf8.ValidString(s) {
		return nil, false
	}
	rs := []rune(s)
	for i := 0; i < len(rs); i++ {
		c := rs[i]
		switch c {
		case '?':
			ns = append(ns, node{kind: nAny})
		case '*':
			if len(ns) > 0 && ns[len(ns)-1].kind == nStar {
				continue
			}
			ns = append(ns, node{kind: nStar})
		case '[':
			j := i + 1
			for j < len(rs) && rs[j] != ']' {
				j++
			}
			if j == len(rs) {
				return nil, false
			}
			set, ok := parseSet(rs[i+1 : j])
			if !ok {
				return nil, false
			}
			if len(set) > 0 {
				ns = append(ns, node{kind: nSet, set: set})
			}
			i = j
		case '{':
			if !braces {
				return nil, false
			}
			j := i + 1
			for j < len(rs) && rs[j] != '}' {
				if rs[j] == '{' {
					return nil, false
				}
				j++
			}
			if j == len(rs) {
				return nil, false
			}
			n := node{kind: nAlt}
			for _, a := range strings.Split(string(rs[i+1:j]), ",") {
				an, ok := parseNodes(a, false)
				if !ok {
					return nil, false
				}
				n.alts = append(n.alts, an)
			}
			ns = append(ns, n)
			i = j
		case ']', '}':
			return nil, false
		default:
			ns = append(ns, node{kind: nLit, r: c})
		}
	}
	return ns, true
}

func parseSet(rs []rune) (set []rng, ok bool) {
	for i := 0; i < len(rs); i++ {
		if rs[i] == '-' {
			return nil, false
		}
		if i+1 < len(rs) && rs[i+1] == '-' {
			if i+2 >= len(rs) || rs[i+2] == '-' || rs[i+2] < rs[i] || utf8.RuneLen(rs[i]) != utf8.RuneLen(rs[i+2]) {
				return nil, false
			}
			set = append(set, rng{rs[i], rs[i+2]})
			i += 2
			continue
		}
		set = append(set, rng{rs[i], rs[i]})
	}
	return set, true
}

func inSet(set []rng, r rune) bool {
	for _, x := range set {
		if r >= x.lo && r <= x.hi {
			return true
		}
	}
	return false
}

// step advances the (ascending) positions in rs reachable by ns.
func step(ns []node, rs []rune, at []int) []int {
	for k, n := range ns {
		if len(at) == 0 {
			return nil
		}
		var next []int
		switch n.kind {
		case nLit, nAny, nSet:
			if k > 0 && ns[k-1].kind != nAlt && ns[k-1].kind != nStar {
				next = at[:0] // made below
			}
			for _, i := range at {
				if i < len(rs) && (n.kind == nAny || n.kind == nLit && rs[i] == n.r || n.kind == nSet && inSet(n.set, rs[i])) {
					next = append(next, i+1)
				}
			}
		case nStar:
			for i := at[0]; i <= len(rs); i++ {
				next = append(next, i)
			}
		case nAlt:
			seen := map[int]bool{}
			for _, a := range n.alts {
				for _, i := range step(a, rs, at) {
					if !seen[i] {
						seen[i] = true
						next = append(next, i)
					}
				}
			}
			sort.Ints(next)
		}
		at = next
	}
	return at
}

func matchNodes(ns []node, s string) bool {
	rs := []rune(s)
	if !utf8.ValidString(s) {
		// a byte of broken UTF-8 is a symbol, but none that can be written
		rs = rs[:0]
		for i, c := range s {
			if c == utf8.RuneError && !strings.HasPrefix(s[i:], string(c)) {
				c = -1
			}
			rs = append(rs, c)
		}
	}
	at := step(ns, rs, []int{0})
	return len(at) > 0 && at[len(at)-1] == len(rs)
}

// sampleNodes draws a text matched by ns.
func sampleNodes(g *gen, ns []node, b *strings.Builder) {
	for _, n := range ns {
		switch n.kind {
		case nLit:
			b.WriteRune(n.r)
		case nAny:
			b.WriteRune(g.rune())
		case nStar:
			for k := g.r.Intn(4); k > 0; k-- {
				b.WriteRune(g.rune())
			}
		case nSet:
			x := n.set[g.r.Intn(len(n.set))]
			switch g.r.Intn(3) {
			case 0:
				b.WriteRune(x.lo)
			case 1:
				b.WriteRune(x.hi)
			default:
				b.WriteRune(x.lo + rune(g.r.Intn(int(x.hi-x.lo)+1)))
			}
		case nAlt:
			sampleNodes(g, n.alts[g.r.Intn(len(n.alts))], b)
		}
	}
}

// ---------------------------------------------------------------- patterns of the three matchers

// pattern is the model of one compiled pattern.
type pattern struct {
	kind  string // "glob", "gglob", "tags"
	glob  []node
	parts [][]node
	terms []mterm
}

type mterm struct {
	key, val string
	neg      bool
	re       *regexp.Regexp
	glob     []node
	plain    bool
}

var modelCache = map[string]*pattern{}

// modelOf returns the model of a pattern text, or nil if the text is outside
// of the supported syntax.
func modelOf(kind, text string) *pattern {
	k := kind + "\x00" + text
	if p, ok := modelCache[k]; ok {
		return p
	}
	p := newModel(kind, text)
	if len(modelCache) > 20000 {
		modelCache = map[string]*pattern{}
	}
	modelCache[k] = p
	return p
}

func newModel(kind, text string) *pattern {
	p := &pattern{kind: kind}
	switch kind {
	case "glob":
		ns, ok := parseModel(text)
		if !ok || text == "" || emptyOnly(ns) {
			return nil
		}
		p.glob = ns
	case "gglob":
		parts, ok := splitPath(text)
		if !ok {
			return nil
		}
		for _, s := range parts {
			ns, ok := parseModel(s)
			if !ok || emptyOnly(ns) {
				return nil
			}
			p.parts = append(p.parts, ns)
		}
	case "tags":
		conds, ok := splitQuery(text)
		if !ok {
			return nil
		}
		for _, c := range conds {
			t, ok := parseCond(c)
			if !ok {
				return nil
			}
			p.terms = append(p.terms, t)
		}
	default:
		return nil
	}
	return p
}

// emptyOnly is true for patterns that match nothing but the empty text; the
// library normalizes them to an empty pattern.
func emptyOnly(ns []node) bool {
	for _, n := range ns {
		if n.kind != nAlt {
			return false
		}
		for _, a := range n.alts {
			if !emptyOnly(a) {
				return false
			}
		}
	}
	return true
}

// cutPath splits any path; one trailing dot counts for nothing.
func cutPath(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(s, "."), ".")
}

// splitPath splits a path without empty parts; one trailing dot is allowed.
func splitPath(s string) ([]string, bool) {
	s = strings.TrimSuffix(s, ".")
	if s == "" {
		return nil, false
	}
	parts := strings.Split(s, ".")
	for _, p := range parts {
		if p == "" {
			return nil, false
		}
	}
	return parts, true
}

// splitQuery splits seriesByTag('a=b',"c=d").
func splitQuery(s string) (conds []string, ok bool) {
	s = strings.Trim(s, " ")
	if !strings.HasPrefix(s, "seriesByTag(") || !strings.HasSuffix(s, ")") {
		return nil, false
	}
	s = s[len("seriesByTag(") : len(s)-1]
	for {
		s = strings.TrimLeft(s, " ,")
		if s == "" {
			break
		}
		q := s[0]
		if q != '\'' && q != '"' {
			return nil, false
		}
		e := strings.IndexByte(s[1:], q)
		if e < 0 {
			return nil, false
		}
		if e > 0 {
			conds = append(conds, s[1:1+e])
		}
		s = s[e+2:]
	}
	return conds, len(conds) <= 128
}

func parseCond(c string) (t mterm, ok bool) {
	i := strings.IndexAny(c, "=~!")
	if i < 1 {
		return t, false
	}
	t.key = strings.TrimSpace(c[:i])
	rest := c[i:]
	isRe := false
	switch {
	case strings.HasPrefix(rest, "!=~"):
		t.neg, isRe, rest = true, true, rest[3:]
	case strings.HasPrefix(rest, "!="):
		t.neg, rest = true, rest[2:]
	case strings.HasPrefix(rest, "=~"):
		isRe, rest = true, rest[2:]
	case strings.HasPrefix(rest, "="):
		rest = rest[1:]
	default:
		return t, false
	}
	if t.key == "" {
		return t, false
	}
	if t.key == "name" {
		t.key = "__name__"
	}
	t.val = strings.TrimSpace(rest)
	if isRe {
		re, err := regexp.Compile(t.val)
		if err != nil {
			return t, false
		}
		t.re = re
		return t, true
	}
	if strings.ContainsAny(t.val, "[]{}*?") {
		ns, ok := parseModel(t.val)
		if !ok || emptyOnly(ns) {
			return t, false
		}
		t.glob = ns
	} else {
		t.plain = true
	}
	return t, true
}

func (t *mterm) holds(v string) bool {
	var m bool
	switch {
	case t.re != nil:
		m = t.re.MatchString(v)
	case t.plain:
		m = v == t.val
	default:
		m = matchNodes(t.glob, v)
	}
	return m != t.neg
}

// matchText is for glob and gglob patterns.
func (p *pattern) matchText(s string) bool {
	if p.kind == "glob" {
		return matchNodes(p.glob, s)
	}
	parts, ok := splitPath(s)
	if !ok || len(parts) != len(p.parts) {
		return false
	}
	for i := range parts {
		if !matchNodes(p.parts[i], parts[i]) {
			return false
		}
	}
	return true
}

func (p *pattern) matchTags(tags [][2]string) bool {
	for i := range p.terms {
		t := &p.terms[i]
		found := false
		for _, kv := range tags {
			if kv[0] == t.key {
				found = true
				if !t.holds(kv[1]) {
					return false
				}
			}
		}
		if !found && !t.neg {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- the registry model

// entry is one accepted registration.
type entry struct {
	Text  string // as registered
	Norm  string
	Index int
	p     *pattern
}

// registry is the sequential specification of a batch matcher.
type registry struct {
	kind    string
	entries []entry
	byText  map[string]int
	byIndex map[int]string
}

func newRegistry(kind string) *registry {
	return &registry{kind: kind, byText: map[string]int{}, byIndex: map[int]string{}}
}

// decide says what a registration must do. raw is "" when the caller
// registers a compiled query, which has no raw text.
// why is "" (accept), "index", "dup" (duplicate pattern only) or "both".
func (r *registry) decide(raw, norm string, index int) (why string, holder int) {
	badIndex := index < 0
	if !badIndex {
		_, badIndex = r.byIndex[index]
	}
	h, dup := -1, false
	if raw != "" {
		h, dup = lookup(r.byText, raw)
	}
	if !dup {
		h, dup = lookup(r.byText, norm)
	}
	switch {
	case badIndex && dup:
		return "both", h
	case badIndex:
		return "index", -1
	case dup:
		return "dup", h
	}
	return "", -1
}

func lookup(m map[string]int, k string) (int, bool) { v, ok := m[k]; return v, ok }

func (r *registry) accept(raw, norm string, index int, p *pattern) {
	if raw != "" {
		r.byText[raw] = index
	}
	r.byText[norm] = index
	r.byIndex[index] = norm
	r.entries = append(r.entries, entry{raw, norm, index, p})
}
