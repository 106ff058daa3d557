package main

// Reference models of brace expansion and of URL escaping.

import (
	"sort"
	"strings"
	"unicode/utf8"
)

// epart is one element of an expression: a text, or a choice of texts.
type epart struct {
	raw  string // what stands in its place when it is not expanded
	alts []string
}

const eSpecial = "*?{}[]"

// parseExpression splits an expression into its elements. From the first
// thing that cannot be expanded on (a wildcard, a nested or unclosed brace)
// the expression is one text. ok is false outside of what the model covers.
func parseExpression(s string) (l []epart, ok bool) {
	if !utf8.ValidString(s) {
		return nil, false
	}
	for s != "" {
		i := strings.IndexAny(s, eSpecial)
		if i < 0 {
			return append(l, epart{raw: s}), true
		}
		if i > 0 {
			l = append(l, epart{raw: s[:i]})
			s = s[i:]
		}
		end := map[byte]byte{'{': '}', '[': ']'}[s[0]]
		j := strings.IndexAny(s[1:], eSpecial)
		if end == 0 || j < 0 || s[1+j] != end {
			return append(l, epart{raw: s}), true
		}
		raw, body := s[:j+2], s[1:j+1]
		s = s[j+2:]
		switch {
		case body == "":
		case end == '}' && !strings.Contains(body, ","):
			l = append(l, epart{raw: body})
		case end == '}':
			l = append(l, epart{raw: raw, alts: strings.Split(body, ",")})
		case len(body) == 1:
			l = append(l, epart{raw: body})
		default:
			rs := []rune(body)
			if rs[0] == '-' || rs[len(rs)-1] == '-' || strings.Contains(body, "--") {
				return nil, false
			}
			members := map[rune]bool{}
			valid := true
			for k := 0; k < len(rs); k++ {
				lo, hi := rs[k], rs[k]
				if k+2 < len(rs) && rs[k+1] == '-' {
					hi = rs[k+2]
					k += 2
				} else if rs[k] == '-' {
					return nil, false
				}
				if lo > hi || utf8.RuneLen(lo) != utf8.RuneLen(hi) {
					valid = false
				}
				if hi-lo > 5000 {
					return nil, false
				}
				for ; lo <= hi; lo++ {
					members[lo] = true
				}
			}
			if !valid {
				l = append(l, epart{raw: raw})
				continue
			}
			var alts []string
			for c := range members {
				alts = append(alts, string(c))
			}
			sort.Strings(alts)
			l = append(l, epart{raw: raw, alts: alts})
		}
	}
	return l, true
}

// expandModel is what an expansion returns.
func expandModel(text string, max, depth int, try bool) (out []string, ok bool) {
	l, ok := parseExpression(text)
	if !ok {
		return nil, false
	}
	// how far elements are expanded: up to the limit, and inside the first
	// depth nodes
	n, nodes := 1, 0
	upto := 0
	for ; upto < len(l) && max != 0; upto++ {
		p := l[upto]
		if max > 0 && len(p.alts) > 0 {
			if n *= len(p.alts); n > max {
				break
			}
		}
		if depth > 0 && p.alts == nil {
			if nodes += strings.Count(p.raw, "."); nodes >= depth {
				break
			}
		}
	}
	out = []string{""}
	for i, p := range l {
		alts := p.alts
		if alts == nil || i >= upto {
			alts = []string{p.raw}
		} else if try {
			alts = alts[:1]
		}
		if len(out)*len(alts) > 20000 {
			return nil, false
		}
		var next []string
		for _, s := range out {
			for _, a := range alts {
				next = append(next, s+a)
			}
		}
		out = next
	}
	return out, true
}

// escapeModel escapes a text for a URL query or path (RFC 3986).
func escapeModel(s string, path bool) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= '0' && c <= '9', c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', strings.IndexByte("-_.~", c) >= 0,
			path && strings.IndexByte("$&+,/:;=@", c) >= 0:
			b.WriteByte(c)
		case c == ' ' && !path:
			b.WriteByte('+')
		default:
			b.WriteByte('%')
			b.WriteByte("0123456789ABCDEF"[c/16])
			b.WriteByte("0123456789ABCDEF"[c%16])
		}
	}
	return b.String()
}

// unescapeModel undoes it: what is no well-formed escape stays as it is.
func unescapeModel(s string) string {
	hex := func(c byte) int {
		return strings.IndexByte("0123456789abcdef", c|0x20&-(c>>6&1))
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '+':
			b.WriteByte(' ')
		case s[i] == '%' && i+2 < len(s) && hex(s[i+1]) >= 0 && hex(s[i+2]) >= 0:
			b.WriteByte(byte(hex(s[i+1])*16 + hex(s[i+2])))
			i += 2
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}
