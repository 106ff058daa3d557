package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	zz "MODULE/zzsimrt"
)

// Plan is everything that determines one simulated run: what is built, what
// every caller does, which faults happen where, and how the schedule and the
// environment choose.
// Wear is a long life before the run: one call, then another one N times.
// What counts calls, generations or uses may wrap around in it.
type Wear struct {
	N int `json:"n"`
	A Op  `json:"a"`
	B Op  `json:"b"`
}

type Plan struct {
	Prop    string      `json:"prop"`
	Mode    string      `json:"mode,omitempty"`
	Objs    []ObjSpec   `json:"objs,omitempty"`
	Clients [][]Op      `json:"clients"`
	Tail    []Op        `json:"tail,omitempty"`
	Strat   zz.Strategy `json:"strat"`
	Sched   uint64      `json:"sched"`
	Env     uint64      `json:"env"`
	First   int         `json:"first,omitempty"`
	Draw    int         `json:"draw,omitempty"`
	Wear    *Wear       `json:"wear,omitempty"`
	Wide    string      `json:"wide,omitempty"` // what was drawn far larger than usual
	// Fixed schedules follow Decisions instead of Strat and Sched.
	Fixed     bool          `json:"fixed,omitempty"`
	Decisions []zz.Decision `json:"decisions,omitempty"`
}

// ObjSpec is a compiled object built before the callers start.
type ObjSpec struct {
	Kind string `json:"kind"` // glob gglob tags gtree ggtree ttree expr
	Text string `json:"text,omitempty"`
	Regs []Reg  `json:"regs,omitempty"`
}

// Reg is one registration of the initial history of a batch matcher.
type Reg struct {
	Text  string `json:"text"`
	Index int    `json:"index"`
	Pre   bool   `json:"pre,omitempty"` // compile first, register the compiled pattern
	Obj   int    `json:"obj,omitempty"` // register compiled object Obj-1
}

// Op is one call (or a short fixed sequence of calls) by a caller.
type Op struct {
	K    string      `json:"k"`
	O    int         `json:"o,omitempty"`
	V    string      `json:"v,omitempty"`
	T    [][2]string `json:"t,omitempty"`
	L    []string    `json:"l,omitempty"`
	I    int         `json:"i,omitempty"`
	J    int         `json:"j,omitempty"`
	B    bool        `json:"b,omitempty"`
	Bad  bool        `json:"bad,omitempty"` // a registration that must be refused as malformed
	Slot int         `json:"slot,omitempty"`
	S    *Sink       `json:"s,omitempty"`
}

// Sink is where a batch match delivers, and what goes wrong there.
type Sink struct {
	Kind  string `json:"kind"`            // rec all min idx str
	Fault string `json:"fault,omitempty"` // panic goexit stall reenter
	At    int    `json:"at,omitempty"`    // delivery at which it happens
	Sub   *Op    `json:"sub,omitempty"`
	Grow  int    `json:"grow,omitempty"`
	Init  bool   `json:"init,omitempty"`
}

func (p *Plan) clone() *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	q := new(Plan)
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

// text is the pattern a registration registers.
func (p *Plan) text(op *Op) string {
	if op.J > 0 && op.K == "reg" {
		return p.Objs[op.J-1].Text
	}
	return op.V
}

// plain is the op without faults: what it would deliver to a well-behaved
// sink.
func (op *Op) plain() *Op {
	if op.S == nil || op.S.Fault == "" {
		return op
	}
	q := *op
	s := *op.S
	s.Fault, s.At, s.Sub = "", 0, nil
	q.S = &s
	return &q
}

func (op *Op) key() string {
	b, _ := json.Marshal(op)
	return string(b)
}

// MarshalJSON keeps texts that are not valid UTF-8 intact.
func (op Op) MarshalJSON() ([]byte, error) {
	type plain Op
	q := struct {
		plain
		Quoted  string   `json:"quoted,omitempty"`
		QuotedL []string `json:"quotedl,omitempty"`
		QuotedT []string `json:"quotedt,omitempty"`
	}{plain: plain(op)}
	if !utf8.ValidString(op.V) {
		q.V, q.Quoted = "", strconv.Quote(op.V)
	}
	for _, s := range op.L {
		if !utf8.ValidString(s) {
			q.L = nil
			for _, s := range op.L {
				q.QuotedL = append(q.QuotedL, strconv.Quote(s))
			}
			break
		}
	}
	for _, t := range op.T {
		if !utf8.ValidString(t[0]) || !utf8.ValidString(t[1]) {
			q.T = nil
			for _, t := range op.T {
				q.QuotedT = append(q.QuotedT, strconv.Quote(t[0]), strconv.Quote(t[1]))
			}
			break
		}
	}
	return json.Marshal(q)
}

// UnmarshalJSON is its inverse.
func (op *Op) UnmarshalJSON(b []byte) error {
	type plain Op
	var q struct {
		plain
		Quoted  string   `json:"quoted,omitempty"`
		QuotedL []string `json:"quotedl,omitempty"`
		QuotedT []string `json:"quotedt,omitempty"`
	}
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	*op = Op(q.plain)
	if q.Quoted != "" {
		v, err := strconv.Unquote(q.Quoted)
		if err != nil {
			return err
		}
		op.V = v
	}
	for _, s := range q.QuotedL {
		v, err := strconv.Unquote(s)
		if err != nil {
			return err
		}
		op.L = append(op.L, v)
	}
	for i := 0; i+1 < len(q.QuotedT); i += 2 {
		k, err := strconv.Unquote(q.QuotedT[i])
		if err != nil {
			return err
		}
		v, err := strconv.Unquote(q.QuotedT[i+1])
		if err != nil {
			return err
		}
		op.T = append(op.T, [2]string{k, v})
	}
	return nil
}

func (op *Op) String() string { return op.key() }

// size orders plans during shrinking.
func (p *Plan) size() int {
	n := 40 * len(p.Decisions)
	if !p.Fixed {
		n += 100000
	}
	ops := func(l []Op) {
		for i := range l {
			n += 100 + opSize(&l[i])
		}
	}
	for _, c := range p.Clients {
		n += 50
		ops(c)
	}
	ops(p.Tail)
	for _, o := range p.Objs {
		n += 200 + len(o.Text)
		for _, r := range o.Regs {
			n += 100 + len(r.Text)
			if r.Index > 9 || r.Index < -1 {
				n++
			}
			if r.Pre || r.Obj > 0 {
				n++
			}
		}
	}
	return n
}

func opSize(op *Op) int {
	n := len(op.V)
	for _, t := range op.T {
		n += 5 + len(t[0]) + len(t[1])
	}
	for _, s := range op.L {
		n += 5 + len(s)
	}
	if op.S != nil {
		n += 3 + op.S.At
		if op.S.Fault != "" {
			n += 20
		}
		if op.S.Grow != 0 {
			n += 2
		}
		if op.S.Sub != nil {
			n += 50 + opSize(op.S.Sub)
		}
	}
	if op.I > 9 || op.I < -1 {
		n++
	}
	if op.B {
		n++
	}
	return n
}

// ---------------------------------------------------------------- validity

func kindOf(obj string) string {
	switch obj {
	case "gtree":
		return "glob"
	case "ggtree":
		return "gglob"
	case "ttree":
		return "tags"
	}
	return obj
}

// valid tells whether a plan stays inside the input space of the properties;
// generated plans do, shrunk ones may not.
func (p *Plan) valid() bool {
	if len(p.Clients) == 0 || len(p.Clients) > 24 {
		return false
	}
	for i, o := range p.Objs {
		k := kindOf(o.Kind)
		if k != "expr" && o.Text != "" && modelOf(k, o.Text) == nil {
			return false
		}
		if o.Text == "" && (o.Kind == "glob" || o.Kind == "gglob" || o.Kind == "tags") {
			return false
		}
		for _, r := range o.Regs {
			if modelOf(k, r.Text) == nil || r.Index < 0 {
				return false
			}
			if r.Obj > 0 && (r.Obj > i || p.Objs[r.Obj-1].Kind != k || p.Objs[r.Obj-1].Text != r.Text) {
				return false
			}
		}
	}
	for _, c := range p.Clients {
		for i := range c {
			if !p.validOp(&c[i]) {
				return false
			}
		}
	}
	for i := range p.Tail {
		if !p.validOp(&p.Tail[i]) {
			return false
		}
	}
	return true
}

func (p *Plan) validOp(op *Op) bool {
	kind := ""
	if op.O >= 0 && op.O < len(p.Objs) {
		kind = kindOf(p.Objs[op.O].Kind)
	}
	if op.S != nil && op.S.Sub != nil && !p.validOp(op.S.Sub) {
		return false
	}
	switch op.K {
	case "m", "mp", "mm", "views", "reg", "str", "crash", "expand", "sample":
		if kind == "" {
			return false
		}
	}
	switch op.K {
	case "m", "mp", "mm", "views":
		return validValue(kind, op)
	case "reg":
		if op.V == "" && op.J == 0 {
			return true
		}
		if op.J > 0 { // registers compiled object J-1
			return op.J <= len(p.Objs) && p.Objs[op.J-1].Kind == kind
		}
		return (modelOf(kind, op.V) != nil) != op.Bad
	case "pg":
		return op.Bad || modelOf("glob", op.V) != nil
	case "pgg":
		if !op.Bad && modelOf("gglob", op.V) == nil {
			return false
		}
	case "pq":
		return (op.Bad || modelOf("tags", op.V) != nil) && (len(op.T) == 0 || validTags(op.T))
	case "tree":
		kind = kindOf(op.V)
		for _, t := range op.L {
			if modelOf(kind, t) == nil {
				return false
			}
		}
		return len(op.T) == 0 || kind != "tags" || validTags(op.T)
	case "tagsmap":
		return validTags(op.T)
	case "d.m", "d.own":
		l := op.L
		if op.K == "d.own" {
			if len(l) == 0 || modelOf(l[0], op.V) == nil {
				return false
			}
			kind, l = l[0], l[1:]
		} else if kind == "" {
			return false
		}
		switch kind {
		case "tags":
			return op.I >= 0 && op.I < 2+len(tagForms) && validTags(op.T)
		case "gglob":
			return len(l) > 0 && op.I >= 0 && op.I <= 3
		}
		return true
	case "g.m", "g.reg":
		return kind != ""
	case "k.match":
		return kind != "" && len(op.L) == 1 && validValue(kind, op)
	case "l.make":
		_, ok := parseModel(op.V)
		return ok && len(op.V) > 1 && op.V[0] == '{' && strings.IndexByte(op.V, '}') == len(op.V)-1
	case "c.new", "c.add":
		_, ok := parseModel(op.V)
		return ok && op.V != ""
	case "t.new":
		return op.V != ""
	}
	return true
}

func validValue(kind string, op *Op) bool {
	switch kind {
	case "tags":
		return validTags(op.T)
	}
	return true
}

// ---------------------------------------------------------------- strategies

func (g *gen) strategy() (s zz.Strategy) {
	switch g.r.Intn(10) {
	case 0: // run to completion, one caller after another
	case 1: // a few preemptions at random places
		s.Gap, s.Budget = -1, 1+g.r.Intn(4)
	case 2, 3:
		s.Gap, s.Budget = -1, 1+g.r.Intn(4)
		s.Sink = 500
	case 4, 5:
		s.Gap = []int{1, 2, 3, 5, 8, 15, 30, 60, 120, 300}[g.r.Intn(10)]
	case 6:
		s.Write = []int{50, 200, 500, 1000}[g.r.Intn(4)]
	case 7:
		s.Write = 300
		s.Gap = 1 + g.r.Intn(100)
	case 8:
		s.Sink = 1000
		s.Gap = 20 + g.r.Intn(200)
	case 9:
		s.Start = 300 + g.r.Intn(700)
		s.Gap = 5 + g.r.Intn(50)
	}
	return
}

func show(s string) string {
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func describe(p *Plan) string {
	var b strings.Builder
	for i, o := range p.Objs {
		fmt.Fprintf(&b, "object %d: %s %q", i, o.Kind, o.Text)
		for _, r := range o.Regs {
			fmt.Fprintf(&b, " [%d]=%q", r.Index, r.Text)
		}
		b.WriteString("\n")
	}
	for i, c := range p.Clients {
		for j := range c {
			fmt.Fprintf(&b, "caller %d op %d: %s\n", i, j, c[j].key())
		}
	}
	for j := range p.Tail {
		fmt.Fprintf(&b, "afterwards op %d: %s\n", j, p.Tail[j].key())
	}
	return b.String()
}
