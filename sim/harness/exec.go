package main

import (
	"bytes"
	"fmt"
	"runtime"
	"sort"
	"strings"

	"MODULE/expand"
	"MODULE/gglob"
	"MODULE/glob"
	"MODULE/gtags"
	"MODULE/pkg/escape"
	"MODULE/pkg/items"
	"MODULE/pkg/utils"
	zz "MODULE/zzsimrt"
	"MODULE/zzsimrt/simsync"
)

// ---------------------------------------------------------------- objects

type object struct {
	spec *ObjSpec
	kind string
	g    *glob.Glob
	gg   *gglob.GGlob
	tl   gtags.TaggedTermList
	gt   *glob.GlobTree
	ggt  *gglob.GGlobTree
	tt   *gtags.GTagsTree
	ex   *expand.Expressions
	err  string
	mu   simsync.RWMutex
	acc  []accepted // registrations the library accepted, in order
}

type accepted struct {
	text  string
	index int
}

func isTree(kind string) bool { return kind == "gtree" || kind == "ggtree" || kind == "ttree" }

func newObject(kind string) *object {
	o := &object{kind: kind}
	switch kind {
	case "gtree":
		o.gt = glob.NewTree()
	case "ggtree":
		o.ggt = gglob.NewTree()
	case "ttree":
		o.tt = gtags.NewTree()
	}
	return o
}

// parseGlob compiles a glob in both forms: the one that panics must do so exactly
// when the other reports an error, with that error, and compile the same otherwise.
func parseGlob(text string) (*glob.Glob, error) {
	g, err := glob.Parse(text)
	if len(text)&1 == 0 {
		return g, err
	}
	m, merr := must(func() *glob.Glob { return glob.ParseMust(text) })
	if showErr(err) != showErr(merr) || err == nil && m.Node != g.Node {
		panic(fmt.Sprintf("ParseMust(%q) differs: %s instead of %s", text, showErr(merr), showErr(err)))
	}
	return m, merr
}

func parseGGlob(text string) (*gglob.GGlob, error) {
	g, err := gglob.Parse(text)
	if len(text)&1 == 0 {
		return g, err
	}
	m, merr := must(func() *gglob.GGlob { return gglob.ParseMust(text) })
	if showErr(err) != showErr(merr) || err == nil && m.Node != g.Node {
		panic(fmt.Sprintf("ParseMust(%q) differs: %s instead of %s", text, showErr(merr), showErr(err)))
	}
	return m, merr
}

// must turns the panic of a refusal back into its error.
func must[T any](f func() *T) (t *T, err error) {
	defer func() {
		if x := recover(); x != nil {
			e, ok := x.(error)
			switch x.(type) {
			case runtime.Error, zz.Stop: // a crash, or the end of the run
				ok = false
			}
			if !ok {
				panic(x)
			}
			t, err = nil, e
		}
	}()
	return f(), nil
}

// compile builds a compiled pattern or a parsed expression.
func compile(kind, text string) *object {
	o := &object{kind: kind}
	var err error
	switch kind {
	case "glob":
		o.g, err = parseGlob(text)
	case "gglob":
		o.gg, err = parseGGlob(text)
	case "tags":
		o.tl, err = gtags.ParseSeriesByTag(text)
	case "expr":
		o.ex = expand.ParseExpr(text)
	}
	if err != nil {
		o.err = "error: " + err.Error()
	}
	return o
}

func build(s *ObjSpec, objs []*object) *object {
	if !isTree(s.Kind) {
		o := compile(s.Kind, s.Text)
		o.spec = s
		return o
	}
	o := newObject(s.Kind)
	o.spec = s
	for i := range s.Regs {
		r := &s.Regs[i]
		var err error
		if r.Obj > 0 {
			_, _, err = o.registerObj(objs[r.Obj-1], r.Index)
		} else {
			_, _, err = o.register(r.Text, r.Index, r.Pre)
		}
		if err != nil {
			o.err += fmt.Sprintf("registration %d: %v; ", i, err)
		}
	}
	return o
}

// register adds a pattern to a batch matcher, compiled first or not.
func (o *object) register(text string, index int, pre bool) (norm string, n int, err error) {
	switch o.kind {
	case "gtree":
		if pre {
			g, err := parseGlob(text)
			if err != nil {
				return "", 0, err
			}
			return o.gt.AddGlob(g, index)
		}
		return o.gt.Add(text, index)
	case "ggtree":
		if pre {
			g, err := parseGGlob(text)
			if err != nil {
				return "", 0, err
			}
			return o.ggt.AddGlob(g, index)
		}
		return o.ggt.Add(text, index)
	case "ttree":
		if pre {
			t, err := gtags.ParseSeriesByTag(text)
			if err != nil {
				return "", 0, err
			}
			if len(t) > 0 {
				return o.tt.AddTerms(t, index)
			}
			// an empty list of conditions can only be registered as text
		}
		return o.tt.Add(text, index)
	}
	panic("not a tree: " + o.kind)
}

// registerObj adds a compiled pattern.
func (o *object) registerObj(c *object, index int) (norm string, n int, err error) {
	switch o.kind {
	case "gtree":
		return o.gt.AddGlob(c.g, index)
	case "ggtree":
		return o.ggt.AddGlob(c.gg, index)
	}
	if len(c.tl) == 0 {
		return o.tt.Add(c.spec.Text, index)
	}
	return o.tt.AddTerms(c.tl, index)
}

// buildAll builds the objects of a plan (or only what object `only` needs).
func buildAll(p *Plan, only int) []*object {
	need := make([]bool, len(p.Objs))
	for i := range need {
		need[i] = only < 0 || i == only
	}
	if only >= 0 && only < len(p.Objs) {
		for _, r := range p.Objs[only].Regs {
			if r.Obj > 0 {
				need[r.Obj-1] = true
			}
		}
	}
	objs := make([]*object, len(p.Objs))
	for i := range p.Objs {
		if need[i] {
			objs[i] = buildSafe(&p.Objs[i], objs)
		}
	}
	return objs
}

func buildSafe(s *ObjSpec, objs []*object) (o *object) {
	defer func() {
		if x := recover(); x != nil {
			if st, ok := x.(zz.Stop); ok {
				panic(st)
			}
			o = &object{kind: s.Kind, spec: s, err: "panic: " + zz.PanicString(x)}
		}
	}()
	return build(s, objs)
}

// tables copies the public tables of a batch matcher.
func (o *object) tables() (byText map[string]int, byIndex map[int]string) {
	var t map[string]int
	var x map[int]string
	switch o.kind {
	case "gtree":
		t, x = o.gt.Globs, o.gt.GlobsIndex
	case "ggtree":
		t, x = o.ggt.Globs, o.ggt.GlobsIndex
	case "ttree":
		t, x = o.tt.Queries, o.tt.QueryIndex
	}
	byText, byIndex = map[string]int{}, map[int]string{}
	for k, v := range t {
		byText[k] = v
	}
	for k, v := range x {
		byIndex[k] = v
	}
	return
}

func (o *object) tablesString() string {
	t, x := o.tables()
	var l []string
	for k, v := range t {
		l = append(l, fmt.Sprintf("%q=%d", k, v))
	}
	for k, v := range x {
		l = append(l, fmt.Sprintf("%d:%q", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// print is the text form of a compiled pattern and of everything it consists of.
func (o *object) print() string {
	switch o.kind {
	case "glob":
		return printGlob(o.g)
	case "gglob":
		b := fmt.Sprintf("%q %q", o.gg.Node, o.gg.Glob)
		for _, g := range o.gg.Parts {
			b += " / " + printGlob(g)
		}
		return b
	case "tags":
		b := o.tl.String()
		for i := range o.tl {
			b += " / " + o.tl[i].String()
			if o.tl[i].Glob != nil {
				b += " " + printGlob(o.tl[i].Glob)
			}
		}
		return b
	}
	return ""
}

func printGlob(g *glob.Glob) string {
	b := fmt.Sprintf("%q %q %d %d", g.String(), g.Raw(), g.MinLen, g.MaxLen)
	for _, x := range g.Items {
		b += " " + x.String()
	}
	return b
}

// ---------------------------------------------------------------- results

type delivery struct {
	s string
	i int
}

type kept struct {
	s, copy string
	op      int
}

type keptList struct {
	l    []string
	copy []string
	op   int
}

// opRes is what one op returned and delivered.
type opRes struct {
	ret      string
	del      []delivery
	sink     string
	subs     []string
	panicked string
	fired    string // fault that happened
	done     bool
	stalled  bool
	steps    int64
	viol     string // broken ownership of arguments
	norm     string
	n        int
	err      error
	count    int
	flowed   int    // deliveries through a tee, nested ones included
	pos      int    // place in the linear history
	before   string // tables before and after a registration
	after    string
}

func (r *opRes) out() string {
	var b strings.Builder
	b.WriteString(r.ret)
	if len(r.del) > 0 {
		b.WriteString(" delivered")
		for _, d := range r.del {
			fmt.Fprintf(&b, " %q/%d", d.s, d.i)
		}
	}
	if r.sink != "" {
		b.WriteString(" sink " + r.sink)
	}
	if r.panicked != "" {
		b.WriteString(" panic: " + r.panicked)
	}
	if !r.done {
		b.WriteString(" (unfinished)")
	}
	return b.String()
}

func (r *opRes) sorted() string {
	d := append([]delivery(nil), r.del...)
	sort.Slice(d, func(i, j int) bool {
		if d[i].i != d[j].i {
			return d[i].i < d[j].i
		}
		return d[i].s < d[j].s
	})
	return fmt.Sprint(d)
}

// ---------------------------------------------------------------- sinks

type sinkPanic struct{}

// recSink records deliveries and goes wrong where it is told to.
type recSink struct {
	w  *world
	th int
	op int
	s  *Sink
	r  *opRes
}

func (k *recSink) Store(s string, index int) {
	n := len(k.r.del)
	k.r.del = append(k.r.del, delivery{s, index})
	k.w.keep(k.th, k.op, s)
	if k.s != nil && k.s.Fault != "" && n == k.s.At && k.r.fired == "" {
		k.r.fired = k.s.Fault
		switch k.s.Fault {
		case "panic":
			panic(sinkPanic{})
		case "goexit":
			runtime.Goexit()
		case "stall":
			k.r.stalled = true
			zz.StallForever()
		case "reenter":
			sub := &opRes{}
			k.w.safe(k.th, k.op, k.s.Sub, sub)
			k.r.subs = append(k.r.subs, sub.out())
			k.r.subs = append(k.r.subs, sub.subs...)
		}
	}
	zz.SinkPoint()
}

// newSink makes the sink of an op; finish renders what a library sink holds.
func (w *world) newSink(th, opn int, s *Sink, r *opRes) (st items.Store, finish func()) {
	kind := "rec"
	if s != nil {
		kind = s.Kind
	}
	switch kind {
	case "all":
		k := items.NewAllStore()
		if s.Grow > 0 {
			k.Grow(s.Grow)
		}
		return k, func() { r.sink = showSink(k) }
	case "min":
		k := items.NewMinStore()
		return k, func() { r.sink = showSink(k) }
	case "idx":
		k := items.NewIndexStore()
		if s.Grow > 0 {
			k.Grow(s.Grow)
		}
		return k, func() { r.sink = showSink(k) }
	case "str":
		k := items.NewStringStore()
		if s.Grow > 0 {
			k.Grow(s.Grow)
		}
		return k, func() {
			r.sink = showSink(k)
			for _, x := range k.S {
				w.keep(th, opn, x)
			}
		}
	}
	return &recSink{w, th, opn, s, r}, func() {}
}

func showSink(st items.Store) string {
	switch k := st.(type) {
	case *items.AllStore:
		return fmt.Sprintf("min=%d idx=%v s=%q", k.Min.Min, k.Index.N, k.S.S)
	case *items.MinStore:
		return fmt.Sprintf("min=%d", k.Min)
	case *items.IndexStore:
		return fmt.Sprintf("idx=%v", k.N)
	case *items.StringStore:
		return fmt.Sprintf("s=%q", k.S)
	}
	return "?"
}

// ---------------------------------------------------------------- world

type world struct {
	p        *Plan
	objs     []*object
	kept     [64][]kept
	lists    [64][]keptList
	scribble bool
	clock    int     // position in the linear history (one thread runs at a time)
	capture  bool    // keep the tables around registrations
	own      [64]int // lists taken over

	parts []*[]string // shared buffers of C08
	maps  []map[string]string
	sinks []items.Store
	bufs  []*bytes.Buffer // shared streams of C09
	sbs   []*strings.Builder
	mu    simsync.Mutex

	flow   [slots][]delivery // what went into the sinks of C19
	things *things           // what is built in C20
}

func (w *world) keep(th, op int, s string) {
	if len(s) > 0 && len(w.kept[th]) < 3000 {
		w.kept[th] = append(w.kept[th], kept{s, strings.Clone(s), op})
	}
}

func (w *world) keepList(th, op int, l []string) {
	if len(w.lists[th]) < 300 {
		w.lists[th] = append(w.lists[th], keptList{l, cloneList(l), op})
	}
}

func cloneList(l []string) []string {
	c := make([]string, len(l))
	for i := range l {
		c[i] = strings.Clone(l[i])
	}
	return c
}

// changed reports a text or list handed out earlier that has changed since.
func (w *world) changed() string {
	for th := range w.kept {
		for _, k := range w.kept[th] {
			if k.s != k.copy {
				return fmt.Sprintf("a text handed to caller %d by op %d changed from %q to %q", th, k.op, k.copy, k.s)
			}
		}
		for _, k := range w.lists[th] {
			for i := range k.copy {
				if i >= len(k.l) || k.l[i] != k.copy[i] {
					return fmt.Sprintf("a list handed to caller %d by op %d changed from %q to %q", th, k.op, k.copy, k.l)
				}
			}
		}
	}
	return ""
}

// safe executes an op and records a panic as part of its outcome.
func (w *world) safe(th, opn int, op *Op, r *opRes) {
	if op.S != nil && op.S.Fault == "goexit" {
		p, exited := zz.Continue(func() { w.safe1(th, opn, op, r) })
		if p != nil {
			panic(p)
		}
		_ = exited
		return
	}
	w.safe1(th, opn, op, r)
}

func (w *world) safe1(th, opn int, op *Op, r *opRes) {
	defer func() {
		if p := recover(); p != nil {
			if s, ok := p.(zz.Stop); ok {
				panic(s)
			}
			if _, ok := p.(sinkPanic); ok && r.fired == "panic" {
				r.panicked = "sink"
				return
			}
			r.panicked = zz.PanicString(p)
			if r.panicked == "" {
				r.panicked = "?"
			}
		}
	}()
	w.exec(th, opn, op, r)
	r.steps = zz.OpYields()
	r.done = true
}

const guardText = "\x00guard"

// guarded copies a list into a slice whose hidden capacity is watched.
func guarded(l []string) []string {
	b := make([]string, len(l)+2)
	copy(b, l)
	b[len(l)], b[len(l)+1] = guardText, guardText
	return b[:len(l)]
}

func (w *world) after(r *opRes, what string, in, orig []string) {
	b := in[: len(orig)+2 : len(orig)+2]
	for i := range orig {
		if b[i] != orig[i] {
			r.viol = fmt.Sprintf("%s: element %d of the argument changed from %q to %q", what, i, orig[i], b[i])
		}
	}
	for i := len(orig); i < len(b); i++ {
		if b[i] != guardText {
			r.viol = fmt.Sprintf("%s: memory behind the argument was overwritten with %q", what, b[i])
		}
	}
	if w.scribble {
		for i := range b {
			b[i] = "\x00overwritten"
		}
	}
}

func tagList(t [][2]string) []gtags.Tag {
	b := make([]gtags.Tag, len(t)+2)
	for i := range t {
		b[i] = gtags.Tag{Key: t[i][0], Value: t[i][1]}
	}
	b[len(t)].Key, b[len(t)+1].Key = guardText, guardText
	return b[:len(t)]
}

func (w *world) afterTags(r *opRes, what string, in []gtags.Tag, t [][2]string) {
	b := in[: len(t)+2 : len(t)+2]
	for i := range t {
		if b[i].Key != t[i][0] || b[i].Value != t[i][1] {
			r.viol = fmt.Sprintf("%s: tag %d of the argument changed from %q to %q", what, i, t[i], b[i])
		}
	}
	for i := len(t); i < len(b); i++ {
		if b[i].Key != guardText || b[i].Value != "" {
			r.viol = fmt.Sprintf("%s: memory behind the argument was overwritten", what)
		}
	}
	if w.scribble {
		for i := range b {
			b[i] = gtags.Tag{Key: "\x00k", Value: "\x00overwritten"}
		}
	}
}

func tagMap(t [][2]string) map[string]string {
	m := make(map[string]string, len(t))
	for _, kv := range t {
		m[kv[0]] = kv[1]
	}
	return m
}

func (w *world) afterMap(r *opRes, what string, in map[string]string, t [][2]string) {
	for _, kv := range t {
		if v, ok := in[kv[0]]; !ok || v != kv[1] {
			r.viol = fmt.Sprintf("%s: key %q of the argument changed from %q to %q", what, kv[0], kv[1], v)
		}
	}
	if len(in) != len(t) {
		r.viol = fmt.Sprintf("%s: the argument has %d keys instead of %d", what, len(in), len(t))
	}
	w.junkMap(in)
}

func (w *world) junkMap(m map[string]string) {
	if w.scribble && m != nil {
		for k := range m {
			delete(m, k)
		}
		m["\x00k"] = "\x00overwritten"
		m["__name__"] = "\x00overwritten"
	}
}

// result takes over a list the library returned: it's the caller's own, to
// append to or to overwrite.
func (w *world) result(th, opn int, l []string) {
	for _, s := range l {
		w.keep(th, opn, s)
	}
	w.own[th]++
	mine := fmt.Sprintf("\x00of caller %d, number %d", th, w.own[th])
	if !w.scribble {
		w.keepList(th, opn, append(l, mine))
		return
	}
	b := l[:cap(l)]
	for i := range b {
		b[i] = mine
	}
	w.keepList(th, opn, b)
}

func (w *world) resultTags(l []gtags.Tag) {
	if w.scribble {
		b := l[:cap(l)]
		for i := range b {
			b[i] = gtags.Tag{Key: "\x00k", Value: "\x00overwritten"}
		}
	}
}

func showErr(err error) string {
	if err == nil {
		return "ok"
	}
	return fmt.Sprintf("error(%T %v)", err, err)
}

func showMap(m map[string]string) string {
	if m == nil {
		return "nil"
	}
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%q=%q ", k, m[k])
	}
	return b.String()
}

func showTags(t []gtags.Tag) string {
	var b strings.Builder
	for i := range t {
		fmt.Fprintf(&b, "%q=%q ", t[i].Key, t[i].Value)
	}
	return b.String()
}

// match runs one calling form of one match.
func (w *world) match(th, opn int, o *object, op *Op, r *opRes) {
	if o.err != "" {
		r.ret = o.err
		return
	}
	if !isTree(o.kind) {
		r.ret = fmt.Sprint(w.matchOne(o, op.K, op.V, op.T, r))
		return
	}
	st, finish := w.newSink(th, opn, op.S, r)
	r.count = w.matchTree(o, op.K, op.V, op.T, st, r)
	finish()
	r.ret = fmt.Sprintf("n=%d", r.count)
}

func (w *world) matchOne(o *object, form, v string, t [][2]string, r *opRes) (ok bool) {
	switch o.kind {
	case "glob":
		return o.g.Match(v)
	case "gglob":
		if form == "mp" {
			orig := cutPath(v)
			in := guarded(orig)
			n := len(v)
			if n%4 == 3 {
				n = 0 // not known
			}
			ok = o.gg.MatchByParts(in, n)
			w.after(r, "MatchByParts", in, orig)
			return ok
		}
		if form != "m" {
			return o.gg.MatchByParts(librarySplit(form, v, r), len(v))
		}
		return o.gg.Match(v)
	}
	if form == "mm" {
		m := tagMap(t)
		ok = o.tl.MatchByTagsMap(m)
		w.afterMap(r, "MatchByTagsMap", m, t)
		return ok
	}
	if form != "m" {
		if l, m := libraryTags(form, t, r); m != nil {
			return o.tl.MatchByTagsMap(m)
		} else {
			return o.tl.MatchByTags(l)
		}
	}
	in := tagList(t)
	ok = o.tl.MatchByTags(in)
	w.afterTags(r, "MatchByTags", in, t)
	return ok
}

// librarySplit splits a path the way the library does it.
func librarySplit(form, v string, r *opRes) []string {
	if form == "split" {
		return gglob.PathSplit(v)
	}
	l := []string{"used", "before", "", "."}
	ok := gglob.PathSplitB(v, &l)
	if _, want := splitPath(v); ok != want {
		r.viol = fmt.Sprintf("PathSplitB returns %v for %q", ok, v)
	}
	if !ok {
		return nil // a refused path has no parts to match
	}
	return l
}

var tagForms = []string{"tags", "map", "mapB", "gtags", "gmap", "gmapB", "conv"}

// libraryTags makes the tags the way the library does it: from a tagged path
// or from a tag list. A form that gives a list returns no map.
func libraryTags(form string, t [][2]string, r *opRes) (l []gtags.Tag, m map[string]string) {
	if form == "conv" {
		return nil, gtags.TagsMap(tagList(t))
	}
	sep, sep2 := "?", "&"
	if form[0] == 'g' {
		sep, sep2 = ";", ";"
	}
	var b strings.Builder
	for i, x := range t {
		switch i {
		case 0:
		case 1:
			b.WriteString(sep)
		default:
			b.WriteString(sep2)
		}
		if i > 0 {
			percent(&b, x[0], i)
			b.WriteByte('=')
		}
		percent(&b, x[1], i)
	}
	path := b.String()
	var err error
	m = map[string]string{"used": "before", "__name__": "x", t[0][0]: "y"}
	switch form {
	case "tags":
		l, err = gtags.PathTags(path)
		m = nil
	case "gtags":
		l, err = gtags.GraphitePathTags(path)
		m = nil
	case "map":
		m, err = gtags.PathTagsMap(path)
	case "gmap":
		m, err = gtags.GraphitePathTagsMap(path)
	case "mapB":
		err = gtags.PathTagsMapB(path, m)
	case "gmapB":
		err = gtags.GraphitePathTagsMapB(path, m)
	}
	if err != nil {
		r.viol = fmt.Sprintf("form %s: path %q is refused: %v", form, path, err)
	}
	return
}

// percent encodes a text for a tagged path.
func percent(b *strings.Builder, s string, k int) {
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '-':
			b.WriteByte(c)
		case c == ' ' && (i+k)%2 == 0:
			b.WriteByte('+')
		case c >= 0x80 && k%2 == 0:
			b.WriteByte(c)
		case (i+k)%3 == 0:
			fmt.Fprintf(b, "%%%02x", c)
		default:
			fmt.Fprintf(b, "%%%02X", c)
		}
	}
}

func (w *world) matchTree(o *object, form, v string, t [][2]string, st items.Store, r *opRes) (n int) {
	switch o.kind {
	case "gtree":
		return o.gt.Match(v, st)
	case "ggtree":
		if form == "mp" {
			orig := cutPath(v)
			in := guarded(orig)
			n = o.ggt.MatchByParts(in, st)
			w.after(r, "MatchByParts", in, orig)
			return n
		}
		if form != "m" {
			return o.ggt.MatchByParts(librarySplit(form, v, r), st)
		}
		return o.ggt.Match(v, st)
	}
	if form == "mm" {
		m := tagMap(t)
		n = o.tt.MatchByTagsMap(m, st)
		w.afterMap(r, "MatchByTagsMap", m, t)
		return n
	}
	if form != "m" {
		if l, m := libraryTags(form, t, r); m != nil {
			return o.tt.MatchByTagsMap(m, st)
		} else {
			return o.tt.MatchByTags(l, st)
		}
	}
	in := tagList(t)
	n = o.tt.MatchByTags(in, st)
	w.afterTags(r, "MatchByTags", in, t)
	return n
}

// exec runs one op.
func (w *world) exec(th, opn int, op *Op, r *opRes) {
	var o *object
	if op.O >= 0 && op.O < len(w.objs) {
		o = w.objs[op.O]
	}
	switch op.K {
	case "m", "mp", "mm":
		w.match(th, opn, o, op, r)
	case "str":
		if o.err != "" {
			r.ret = o.err
		} else {
			r.ret = o.print()
			w.keep(th, opn, r.ret)
		}
	case "reg":
		if op.J > 0 {
			if e := w.objs[op.J-1].err; e != "" {
				r.ret, r.err = e, fmt.Errorf("%s", e)
				return
			}
			r.norm, r.n, r.err = o.registerObj(w.objs[op.J-1], op.I)
		} else {
			r.norm, r.n, r.err = o.register(op.V, op.I, op.B)
		}
		w.keep(th, opn, r.norm)
		r.ret = fmt.Sprintf("%q %d %s", r.norm, r.n, showErr(r.err))
		if text := w.p.text(op); r.err == nil && text != "" {
			o.acc = append(o.acc, accepted{text, op.I})
		}
	case "expand":
		l, err := o.ex.Expand(op.I, op.J, op.B)
		r.ret = fmt.Sprintf("%q %s", l, showErr(err))
		w.result(th, opn, l)
	case "sample":
		w.sample(o, op, r)
	case "views":
		w.views(th, opn, o, op, r)
	case "k.match", "k.store", "k.reset", "k.grow":
		w.sinkOp(th, opn, op, r)
	case "a.add", "a.make", "a.clear", "a.reload", "a.ask", "r.add", "r.adds", "r.merge", "r.parse", "r.reload", "r.ask", "r.eq",
		"t.add", "t.pre", "t.addr", "t.prer", "t.addb", "t.preb", "t.new", "t.reload", "t.ask", "c.new", "c.add", "c.reload", "c.ask",
		"l.make", "l.ask", "x.ask", "x.cmp", "t.eq", "c.eq", "l.eq", "u.ask", "n.new", "n.val", "n.in", "n.ask":
		w.thingOp(th, opn, op, r)
	case "p.path", "p.tags", "p.query", "p.conds":
		w.splitOp(th, opn, op, r)
	case "d.m", "d.own":
		w.denotedOp(th, opn, op, r)
	case "b.scribble", "b.split", "b.ptags", "b.gptags", "b.sink":
		w.bufferOp(th, opn, op, r)
	case "s.esc", "s.escp", "s.unesc", "s.unescn", "s.raw", "s.reset", "s.grow":
		w.streamOp(th, opn, op, r)

	// stateless calls
	case "pg":
		g, err := parseGlob(op.V)
		if err != nil {
			r.ret = showErr(err)
			return
		}
		r.ret = fmt.Sprintf("%q %q %d %d", g.Node, g.Raw(), g.MinLen, g.MaxLen)
		w.keep(th, opn, g.Node)
		for _, v := range op.L {
			r.ret += fmt.Sprint(" ", g.Match(v))
		}
	case "pgg":
		g, err := parseGGlob(op.V)
		if err != nil {
			r.ret = showErr(err)
			return
		}
		r.ret = fmt.Sprintf("%q %d %d", g.Node, g.MinLen, g.MaxLen)
		w.keep(th, opn, g.Node)
		o := &object{kind: "gglob", gg: g}
		for _, v := range op.L {
			r.ret += fmt.Sprint(" ", w.matchOne(o, "m", v, nil, r), w.matchOne(o, "mp", v, nil, r))
		}
	case "pq":
		t, err := gtags.ParseSeriesByTag(op.V)
		if err != nil {
			r.ret = showErr(err)
			return
		}
		r.ret = t.String()
		w.keep(th, opn, r.ret)
		o := &object{kind: "tags", tl: t}
		if len(op.T) > 0 {
			r.ret += fmt.Sprint(" ", w.matchOne(o, "m", "", op.T, r), w.matchOne(o, "mm", "", op.T, r))
		}
		w.junkTerms(t)
	case "pc":
		in := guarded(op.L)
		t, err := gtags.ParseTaggedConditions(in)
		w.after(r, "ParseTaggedConditions", in, op.L)
		if err != nil {
			r.ret = showErr(err)
			return
		}
		r.ret = t.String()
		w.keep(th, opn, r.ret)
		o := &object{kind: "tags", tl: t}
		if len(op.T) > 0 {
			r.ret += fmt.Sprint(" ", w.matchOne(o, "m", "", op.T, r), w.matchOne(o, "mm", "", op.T, r))
		}
		w.junkTerms(t)
	case "tree":
		o := newObject(op.V)
		if !isTree(op.V) {
			o = compile(op.V, op.L[0])
		} else {
			for i, t := range op.L {
				norm, n, err := o.register(t, i+op.I, op.B)
				r.ret += fmt.Sprintf("%q %d %s; ", norm, n, showErr(err))
			}
		}
		q := *op
		q.K, q.S = "m", nil
		q.V = ""
		if op.J > 0 && len(op.T) == 0 {
			q.V = op.L[len(op.L)-1]
		}
		if kindOf(op.V) == "tags" && len(q.T) == 0 {
			return
		}
		if kindOf(op.V) != "tags" {
			for _, v := range op.T {
				q.V = v[0]
				w.match(th, opn, o, &q, r)
			}
			return
		}
		ret := r.ret
		w.match(th, opn, o, &q, r)
		r.ret = ret + r.ret
	case "split":
		l := gglob.PathSplit(op.V)
		r.ret = fmt.Sprintf("%q %v", l, gglob.HasEmptyParts(l))
		w.result(th, opn, l)
	case "splitb":
		var l []string
		if op.B {
			l = make([]string, 2, 4)
		}
		ok := gglob.PathSplitB(op.V, &l)
		r.ret = fmt.Sprintf("%q %v", l, ok)
		w.result(th, opn, l)
	case "ptags", "gptags":
		var t []gtags.Tag
		var err error
		if op.K == "ptags" {
			t, err = gtags.PathTags(op.V)
		} else {
			t, err = gtags.GraphitePathTags(op.V)
		}
		r.ret = showTags(t) + showErr(err)
		for i := range t {
			w.keep(th, opn, t[i].Key)
			w.keep(th, opn, t[i].Value)
		}
		w.resultTags(t)
	case "ptagsm", "gptagsm", "ptagsmb", "gptagsmb":
		m := map[string]string{"stale": "stale"}
		var err error
		switch op.K {
		case "ptagsm":
			m, err = gtags.PathTagsMap(op.V)
		case "gptagsm":
			m, err = gtags.GraphitePathTagsMap(op.V)
		case "ptagsmb":
			err = gtags.PathTagsMapB(op.V, m)
		case "gptagsmb":
			err = gtags.GraphitePathTagsMapB(op.V, m)
		}
		r.ret = showMap(m) + showErr(err)
		for _, x := range sortTags(m) {
			w.keep(th, opn, x[1])
		}
		w.junkMap(m)
	case "tagsmap":
		in := tagList(op.T)
		m := gtags.TagsMap(in)
		r.ret = showMap(m)
		w.afterTags(r, "TagsMap", in, op.T)
		w.junkMap(m)
	case "nexttag", "gnexttag":
		s := op.V
		for i := 0; i < 20; i++ {
			var k, v, next string
			var ok bool
			if op.K == "nexttag" {
				k, v, next, ok = gtags.NextTag(s)
			} else {
				k, v, next, ok = gtags.GraphiteNextTag(s)
			}
			r.ret += fmt.Sprintf("%q %q %q %v;", k, v, next, ok)
			w.keep(th, opn, v)
			if !ok {
				break
			}
			s = next
		}
	case "esc":
		x := escape.Query(op.V)
		w.keep(th, opn, x)
		r.ret = strings.Clone(x)
	case "escp":
		x := escape.Path(op.V)
		w.keep(th, opn, x)
		r.ret = strings.Clone(x)
	case "unesc":
		x := escape.Unescape(op.V)
		w.keep(th, opn, x)
		r.ret = strings.Clone(x)
	case "escto", "escpto":
		var b bytes.Buffer
		if op.B {
			b.WriteString("kept ")
		}
		if op.K == "escto" {
			escape.QueryTo(op.V, &b)
		} else {
			escape.PathTo(op.V, &b)
		}
		r.ret = b.String()
	case "unescto":
		var b strings.Builder
		if op.B {
			b.WriteString("kept ")
		}
		s := escape.UnescapeTo(op.V, &b)
		r.ret = fmt.Sprintf("%q %q", s, b.String())
		w.keep(th, opn, s)
	case "unescnto":
		var b strings.Builder
		if op.B {
			b.WriteString("kept ")
		}
		s, t := escape.UnescapeNameTo(op.V, &b)
		r.ret = fmt.Sprintf("%q %q %q", s, t, b.String())
		w.keep(th, opn, s)
		w.keep(th, opn, t)
	case "exp", "exptry":
		var l []string
		var err error
		if op.K == "exp" {
			l, err = expand.Expand(op.V, op.I, op.J)
		} else {
			l, err = expand.ExpandTry(op.V, op.I, op.J)
		}
		r.ret = fmt.Sprintf("%q %s", l, showErr(err))
		w.result(th, opn, l)
	case "expr":
		e := expand.ParseExpr(op.V)
		l, err := e.Expand(op.I, op.J, op.B)
		r.ret = fmt.Sprintf("%q %s", l, showErr(err))
		w.result(th, opn, l)
	case "rr":
		rs, ok := utils.RunesRangeExpand(op.V)
		r.ret = fmt.Sprint(ok)
		if ok {
			r.ret += " " + rs.String()
			for _, s := range op.L {
				for _, c := range s {
					r.ret += fmt.Sprint(" ", rs.Contains(c))
				}
				p, c, n := rs.Index(s)
				r.ret += fmt.Sprint(" ", p, c, n)
			}
		}
	case "le":
		l, ok := items.ListExpand(op.V)
		r.ret = fmt.Sprintf("%q %v", l, ok)
		w.result(th, opn, l)
	case "util":
		s, n := gglob.PathLevel(op.V)
		r.ret = fmt.Sprint(gglob.HasWildcard(op.V), gglob.IndexWildcard(op.V), gglob.IndexLastWildcard(op.V), gglob.WildcardCount(op.V),
			items.HasWildcard(op.V), items.IndexWildcard(op.V), items.IndexLastWildcard(op.V), items.WildcardCount(op.V), " ", s, n)
	default:
		if strings.HasPrefix(op.K, "g.") {
			w.garbageOp(th, opn, op, r)
			return
		}
		panic("harness: unknown op " + op.K)
	}
}

func (w *world) junkTerms(t gtags.TaggedTermList) {
	if w.scribble {
		b := t[:cap(t)]
		for i := range b {
			b[i] = gtags.TaggedTerm{Key: "\x00k", Op: gtags.TaggedTermEq, Value: "\x00overwritten"}
		}
	}
}

// sample lets a compiled object, and each of its items, write a sample of
// itself and matches it.
func (w *world) sample(o *object, op *Op, r *opRes) {
	var globs []*glob.Glob
	switch o.kind {
	case "glob":
		globs = append(globs, o.g)
	case "gglob":
		globs = append(globs, o.gg.Parts...)
	case "tags":
		for i := range o.tl {
			if o.tl[i].Glob != nil {
				globs = append(globs, o.tl[i].Glob)
			}
		}
	}
	var whole []string
	for _, g := range globs {
		var b strings.Builder
		if op.B {
			b.WriteString("kept")
		}
		pre := b.Len()
		g.WriteRandom(&b)
		s := b.String()[pre:]
		if op.B && b.String()[:pre] != "kept" {
			r.viol = fmt.Sprintf("%q: the buffer's content changed to %q", g.Node, b.String()[:pre])
		}
		r.ret += fmt.Sprintf("%q ", s)
		if !g.Match(s) {
			r.viol = fmt.Sprintf("glob %q generated the sample %q, which it does not match", g.Node, s)
		}
		whole = append(whole, s)
		for i := range g.Items {
			var b strings.Builder
			g.Items[i].WriteRandom(&b)
			s := b.String()
			r.ret += fmt.Sprintf("%q ", s)
			if !items.MatchItems(s, g.Items[i:i+1]) {
				r.viol = fmt.Sprintf("item %d (%s) of glob %q generated the sample %q, which it does not match", i, itemName(g.Items[i]), g.Node, s)
			}
		}
	}
	if o.kind == "gglob" {
		ok := true
		for _, s := range whole {
			ok = ok && s != "" && !strings.Contains(s, ".")
		}
		if s := strings.Join(whole, "."); ok && !o.gg.Match(s) {
			r.viol = fmt.Sprintf("dotted glob %q does not match the sample %q of its parts", o.gg.Node, s)
		}
	}
}

func itemName(it items.Item) string {
	var b strings.Builder
	it.WriteString(&b)
	return strings.TrimPrefix(fmt.Sprintf("%T ", it), "*items.") + b.String()
}
