// Command instr makes the simulated copy of the code under test.
//
//	instr -repo /repo -out DIR -simrt DIR -harness DIR
//
// Every non-test package of the repository is copied to DIR with a call to the
// simulator in front of every statement, and with its sources of
// nondeterminism (sync, goroutines, channels, map order, clock, random
// numbers, package variables) put behind the simulator's seam. The simulator
// run-time and the harness are placed in the same module. /repo is only read.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	pos, end int // byte offsets
	text     string
	seq      int
}

type file struct {
	name  string // path relative to the repository
	src   []byte
	ast   *ast.File
	edits []edit
	tail  bytes.Buffer
	need  bool
}

func (f *file) add(pos, end int, text string) {
	f.edits = append(f.edits, edit{pos, end, text, len(f.edits)})
}

type pkg struct {
	dir   string // relative
	path  string
	name  string
	files []*file
	typ   *types.Package
	info  *types.Info
	err   error
	state int
}

type site struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
	W    bool   `json:"w,omitempty"`
}

var (
	fset    = token.NewFileSet()
	pkgs    = map[string]*pkg{}
	module  string
	sites   []site
	warns   []string
	exports = map[string]string{}
)

func fatal(a ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"instr:"}, a...)...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	simrt := flag.String("simrt", "", "")
	harness := flag.String("harness", "", "")
	flag.Parse()

	mod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		fatal(err)
	}
	for _, l := range strings.Split(string(mod), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "module" {
			module = strings.Trim(f[1], `"`)
		}
	}
	if module == "" {
		fatal("no module line in go.mod")
	}

	scan(*repo, "")
	loadExports(*repo)
	var order []string
	for p := range pkgs {
		order = append(order, p)
	}
	sort.Strings(order)
	for _, p := range order {
		check(pkgs[p])
	}
	for _, p := range order {
		rewrite(pkgs[p])
	}

	if err := os.MkdirAll(*out, 0o755); err != nil {
		fatal(err)
	}
	for _, p := range order {
		for _, f := range pkgs[p].files {
			write(filepath.Join(*out, f.name), apply(f))
		}
	}
	write(filepath.Join(*out, "go.mod"), mod)
	if b, err := os.ReadFile(filepath.Join(*repo, "go.sum")); err == nil {
		write(filepath.Join(*out, "go.sum"), b)
	}
	copyPkg(*simrt, filepath.Join(*out, "zzsimrt"))
	copyPkg(*harness, filepath.Join(*out, "zzsim"))
	b, _ := json.Marshal(sites)
	write(filepath.Join(*out, "zzsim", "sites.json"), b)
	for _, w := range warns {
		fmt.Fprintln(os.Stderr, "instr: note:", w)
	}
	fmt.Printf("instr: %d packages, %d yield points\n", len(order), len(sites))
}

func write(name string, b []byte) {
	if err := os.MkdirAll(filepath.Dir(name), 0o755); err != nil {
		fatal(err)
	}
	if err := os.WriteFile(name, b, 0o644); err != nil {
		fatal(err)
	}
}

// copyPkg copies the Go files of the simulator, adapting their import paths.
func copyPkg(from, to string) {
	err := filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		b = bytes.ReplaceAll(b, []byte(`"MODULE/`), []byte(`"`+module+`/`))
		rel, _ := filepath.Rel(from, p)
		write(filepath.Join(to, rel), b)
		return nil
	})
	if err != nil {
		fatal(err)
	}
}

func scan(root, rel string) {
	dir := filepath.Join(root, rel)
	ents, err := os.ReadDir(dir)
	if err != nil {
		fatal(err)
	}
	ctx := build.Default
	p := &pkg{dir: rel, path: module}
	if rel != "" {
		p.path = module + "/" + filepath.ToSlash(rel)
	}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() {
			if n == "testdata" || n == "vendor" || strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || strings.HasPrefix(n, "zzsim") {
				continue
			}
			if _, err := os.Stat(filepath.Join(dir, n, "go.mod")); err == nil {
				continue
			}
			scan(root, filepath.Join(rel, n))
			continue
		}
		if strings.HasSuffix(n, ".s") || strings.HasSuffix(n, ".h") {
			b, err := os.ReadFile(filepath.Join(dir, n))
			if err == nil {
				p.files = append(p.files, &file{name: filepath.Join(rel, n), src: b})
			}
			continue
		}
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := ctx.MatchFile(dir, n); err != nil || !ok {
			continue
		}
		src, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			fatal(err)
		}
		name := filepath.Join(rel, n)
		a, err := parser.ParseFile(fset, name, src, parser.ParseComments)
		if err != nil {
			fatal(err)
		}
		p.name = a.Name.Name
		p.files = append(p.files, &file{name: name, src: src, ast: a})
	}
	hasGo := false
	for _, f := range p.files {
		if f.ast != nil {
			hasGo = true
		}
	}
	if hasGo {
		pkgs[p.path] = p
	}
}

// loadExports finds the compiled form of every package the code imports.
func loadExports(repo string) {
	need := map[string]bool{}
	for _, p := range pkgs {
		for _, f := range p.files {
			if f.ast == nil {
				continue
			}
			for _, im := range f.ast.Imports {
				path, _ := strconv.Unquote(im.Path.Value)
				if pkgs[path] == nil && path != "unsafe" && path != "C" {
					need[path] = true
				}
			}
		}
	}
	args := []string{"list", "-e", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}"}
	var l []string
	for p := range need {
		l = append(l, p)
	}
	if len(l) == 0 {
		return
	}
	sort.Strings(l)
	cmd := exec.Command("go", append(args, l...)...)
	cmd.Dir = repo
	var out, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &er
	if err := cmd.Run(); err != nil {
		warns = append(warns, "go list -export: "+err.Error()+" "+er.String())
	}
	for _, line := range strings.Split(out.String(), "\n") {
		f := strings.Split(line, "\t")
		if len(f) == 2 && f[1] != "" {
			exports[f[0]] = f[1]
		}
	}
}

type imp struct{ gc types.Importer }

func (m imp) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p := pkgs[path]; p != nil {
		check(p)
		if p.typ == nil {
			return nil, fmt.Errorf("no types for %s", path)
		}
		return p.typ, nil
	}
	return m.gc.Import(path)
}

var gcimp types.Importer

func check(p *pkg) {
	if p.state != 0 {
		return
	}
	p.state = 1
	if gcimp == nil {
		gcimp = importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e, ok := exports[path]
			if !ok {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		})
	}
	p.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Defs:  map[*ast.Ident]types.Object{},
		Uses:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{Importer: imp{gcimp}, Error: func(err error) {
		if p.err == nil {
			p.err = err
		}
	}}
	var files []*ast.File
	for _, f := range p.files {
		if f.ast != nil {
			files = append(files, f.ast)
		}
	}
	p.typ, _ = conf.Check(p.path, fset, files, p.info)
	if p.err != nil {
		warns = append(warns, "types: "+p.err.Error())
	}
	p.state = 2
}

func off(pos token.Pos) int { return fset.Position(pos).Offset }

func text(f *file, n ast.Node) string { return string(f.src[off(n.Pos()):off(n.End())]) }

var shimImports = map[string]string{
	"sync":         "zzsimrt/simsync",
	"math/rand":    "zzsimrt/simrand",
	"math/rand/v2": "zzsimrt/simrand2",
}

var timeFuncs = map[string]bool{"Now": true, "Since": true, "Until": true, "Sleep": true}

func rewrite(p *pkg) {
	nreset := 0
	type varInit struct {
		fn string
	}
	resetOf := map[*ast.ValueSpec][]string{}
	var inits []string
	var zeroes []string
	for _, f := range p.files {
		if f.ast == nil {
			continue
		}
		w := &walker{p: p, f: f}
		f.need = true
		imports := map[string]string{} // local name -> path
		for _, im := range f.ast.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			name := filepath.Base(path)
			if path == "math/rand/v2" {
				name = "rand"
			}
			if im.Name != nil {
				name = im.Name.Name
			}
			if s, ok := shimImports[path]; ok && name != "_" {
				f.add(off(im.Pos()), off(im.End()), name+" "+strconv.Quote(module+"/"+s))
			}
			imports[name] = path
		}
		w.imports = imports
		ninit := 0
		for _, d := range f.ast.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Body == nil {
					continue
				}
				w.fn = d.Name.Name
				if d.Recv != nil && len(d.Recv.List) > 0 {
					w.fn = text(f, d.Recv.List[0].Type) + "." + w.fn
				}
				if d.Recv == nil && d.Name.Name == "init" {
					ninit++
					name := fmt.Sprintf("zzInit_%s_%d", ident(f.name), ninit)
					f.add(off(d.Name.Pos()), off(d.Name.End()), name)
					fmt.Fprintf(&f.tail, "\nfunc init() { %s() }\n", name)
					inits = append(inits, name)
				}
				w.node(d.Body)
			case *ast.GenDecl:
				w.fn = "init"
				if d.Tok == token.VAR {
					for _, s := range d.Specs {
						vs := s.(*ast.ValueSpec)
						for _, v := range vs.Values {
							w.node(v)
						}
						if len(vs.Values) == 0 {
							for _, n := range vs.Names {
								if n.Name == "_" {
									continue
								}
								nreset++
								fn := fmt.Sprintf("zzReset%d", nreset)
								fmt.Fprintf(&f.tail, "\nfunc %s() { %s = *new(%s) }\n", fn, n.Name, text(f, vs.Type))
								zeroes = append(zeroes, fn)
							}
							continue
						}
						if len(vs.Values) == len(vs.Names) {
							for i, n := range vs.Names {
								if n.Name == "_" {
									continue
								}
								nreset++
								fn := fmt.Sprintf("zzReset%d", nreset)
								fmt.Fprintf(&f.tail, "\nfunc %s() { %s = %s }\n", fn, n.Name, initText(p, f, vs, vs.Values[i]))
								resetOf[vs] = append(resetOf[vs], fn)
								resetName[p.path+"."+n.Name] = fn
							}
						} else {
							nreset++
							fn := fmt.Sprintf("zzReset%d", nreset)
							var names []string
							for _, n := range vs.Names {
								names = append(names, n.Name)
								resetName[p.path+"."+n.Name] = fn
							}
							fmt.Fprintf(&f.tail, "\nfunc %s() { %s = %s }\n", fn, strings.Join(names, ", "), text(f, vs.Values[0]))
						}
					}
				}
			}
		}
		for name := range w.keep {
			// the last use of an import may have been replaced
			fmt.Fprintf(&f.tail, "\nvar _ = %s\n", name)
		}
	}
	// order of initialisation
	var order []string
	seen := map[string]bool{}
	if p.info != nil && p.err == nil {
		for _, in := range p.info.InitOrder {
			for _, l := range in.Lhs {
				fn := resetName[p.path+"."+l.Name()]
				if fn != "" && !seen[fn] {
					seen[fn] = true
					order = append(order, fn)
				}
			}
		}
	}
	var f *file
	for _, x := range p.files {
		if x.ast != nil {
			f = x
			break
		}
	}
	if nreset == 0 && len(inits) == 0 {
		return
	}
	fmt.Fprintf(&f.tail, "\nfunc init() {\n\tzzsimrt.OnReset(%q, func() {\n", p.path)
	for _, l := range [][]string{zeroes, order, inits} {
		for _, fn := range l {
			fmt.Fprintf(&f.tail, "\t\t%s()\n", fn)
		}
	}
	fmt.Fprintf(&f.tail, "\t})\n}\n")
}

var resetName = map[string]string{}

func initText(p *pkg, f *file, vs *ast.ValueSpec, v ast.Expr) string {
	return rendered(f, v)
}

// rendered is the source of v with the edits made so far inside it.
func rendered(f *file, v ast.Node) string {
	lo, hi := off(v.Pos()), off(v.End())
	g := &file{src: f.src[lo:hi]}
	for _, e := range f.edits {
		if e.pos >= lo && e.end <= hi {
			g.edits = append(g.edits, edit{e.pos - lo, e.end - lo, e.text, e.seq})
		}
	}
	return string(applyEdits(g.src, g.edits))
}

func ident(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, s)
}

type walker struct {
	p       *pkg
	f       *file
	fn      string
	imports map[string]string
	keep    map[string]bool
	uniq    int
}

func (w *walker) isPkg(x ast.Expr, path string) bool {
	id, ok := x.(*ast.Ident)
	if !ok || w.imports[id.Name] != path {
		return false
	}
	if w.p.info != nil {
		if o, ok := w.p.info.Uses[id]; ok {
			_, isPkg := o.(*types.PkgName)
			return isPkg
		}
	}
	return true
}

func (w *walker) typeOf(e ast.Expr) types.Type {
	if w.p.info == nil || w.p.err != nil {
		return nil
	}
	if tv, ok := w.p.info.Types[e]; ok {
		return tv.Type
	}
	return nil
}

func (w *walker) under(e ast.Expr) types.Type {
	t := w.typeOf(e)
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		return nil
	}
	return t.Underlying()
}

func (w *walker) isChan(e ast.Expr) bool {
	t := w.under(e)
	if t == nil {
		return false
	}
	_, ok := t.(*types.Chan)
	return ok
}

func (w *walker) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name || w.p.info == nil {
		return false
	}
	_, ok = w.p.info.Uses[id].(*types.Builtin)
	return ok
}

// list instruments one statement list.
func (w *walker) list(l []ast.Stmt) {
	for _, s := range l {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		id := len(sites)
		p := fset.Position(s.Pos())
		wr := w.writes(s)
		sites = append(sites, site{ID: id, File: w.f.name, Line: p.Line, Func: w.fn, W: wr})
		fn := "Y"
		if wr {
			fn = "W"
		}
		w.f.add(p.Offset, p.Offset, fmt.Sprintf("zzsimrt.%s(%d); ", fn, id))
	}
}

// writes tells whether a statement writes to memory other threads might see.
func (w *walker) writes(s ast.Stmt) bool {
	shared := func(e ast.Expr) bool {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
				return true
			case *ast.Ident:
				if w.p.info == nil {
					return false
				}
				o := w.p.info.Uses[x]
				v, ok := o.(*types.Var)
				return ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
			}
			return false
		}
	}
	switch s := s.(type) {
	case *ast.AssignStmt:
		if s.Tok == token.DEFINE {
			return false
		}
		for _, l := range s.Lhs {
			if shared(l) {
				return true
			}
		}
	case *ast.IncDecStmt:
		return shared(s.X)
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			return w.isBuiltin(c.Fun, "delete") || w.isBuiltin(c.Fun, "copy") || w.isBuiltin(c.Fun, "clear")
		}
	case *ast.LabeledStmt:
		return w.writes(s.Stmt)
	}
	return false
}

func (w *walker) used(name string) {
	if w.keep == nil {
		w.keep = map[string]bool{}
	}
	w.keep[name] = true
}

// node instruments everything below n.
func (w *walker) node(n ast.Node) {
	skip := map[ast.Node]bool{}
	ast.Inspect(n, func(n ast.Node) bool {
		if n == nil || skip[n] {
			return false
		}
		switch s := n.(type) {
		case *ast.BlockStmt:
			clauses := false
			for _, x := range s.List {
				switch x.(type) {
				case *ast.CaseClause, *ast.CommClause:
					clauses = true
				}
			}
			if !clauses {
				w.list(s.List)
			}
		case *ast.CaseClause:
			w.list(s.Body)
		case *ast.CommClause:
			w.list(s.Body)
		case *ast.ForStmt:
			w.emptyLoop(s.Body)
		case *ast.RangeStmt:
			w.emptyLoop(s.Body)
			w.rangeStmt(s)
		case *ast.GoStmt:
			w.goStmt(s)
		case *ast.SelectStmt:
			w.selectStmt(s)
			for _, c := range s.Body.List {
				cc := c.(*ast.CommClause)
				w.list(cc.Body)
				if cc.Comm != nil {
					skip[cc.Comm] = true
				}
				for _, b := range cc.Body {
					w.node(b)
				}
			}
			return false
		case *ast.SendStmt:
			if w.isChan(s.Chan) {
				w.f.add(off(s.Chan.Pos()), off(s.Chan.Pos()), "zzsimrt.Send(")
				w.f.add(off(s.Arrow), off(s.Arrow)+2, ",")
				w.f.add(off(s.Value.End()), off(s.Value.End()), ")")
			}
		case *ast.AssignStmt:
			if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
				if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW && w.isChan(u.X) {
					w.f.add(off(u.OpPos), off(u.OpPos)+2, "zzsimrt.Recv2(")
					w.f.add(off(u.X.End()), off(u.X.End()), ")")
					skip[u] = true
					w.node(u.X)
				}
			}
		case *ast.UnaryExpr:
			if s.Op == token.ARROW && w.isChan(s.X) {
				w.f.add(off(s.OpPos), off(s.OpPos)+2, "zzsimrt.Recv(")
				w.f.add(off(s.X.End()), off(s.X.End()), ")")
			}
		case *ast.CallExpr:
			if len(s.Args) == 1 && w.isChan(s.Args[0]) {
				if w.isBuiltin(s.Fun, "close") {
					w.f.add(off(s.Fun.Pos()), off(s.Fun.End()), "zzsimrt.Close")
				}
				if w.isBuiltin(s.Fun, "len") {
					w.f.add(off(s.Pos()), off(s.Pos()), "zzsimrt.ChanLen(")
					w.f.add(off(s.End()), off(s.End()), ")")
				}
			}
		case *ast.SelectorExpr:
			if timeFuncs[s.Sel.Name] && w.isPkg(s.X, "time") {
				w.f.add(off(s.Pos()), off(s.End()), "zzsimrt."+s.Sel.Name)
				w.used(s.X.(*ast.Ident).Name + ".Nanosecond")
				return false
			}
			if s.Sel.Name == "Gosched" && w.isPkg(s.X, "runtime") {
				w.f.add(off(s.Pos()), off(s.End()), "zzsimrt.Gosched")
				w.used(s.X.(*ast.Ident).Name + ".GOOS")
				return false
			}
		}
		return true
	})
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (w *walker) emptyLoop(b *ast.BlockStmt) {
	if len(b.List) > 0 {
		return
	}
	id := len(sites)
	p := fset.Position(b.Lbrace)
	sites = append(sites, site{ID: id, File: w.f.name, Line: p.Line, Func: w.fn})
	w.f.add(p.Offset+1, p.Offset+1, fmt.Sprintf(" zzsimrt.Y(%d) ", id))
}

func (w *walker) rangeStmt(s *ast.RangeStmt) {
	t := w.under(s.X)
	if t == nil {
		return
	}
	isMap, isCh := false, false
	switch t.(type) {
	case *types.Map:
		isMap = true
	case *types.Chan:
		isCh = true
	}
	if !isMap && !isCh {
		return
	}
	w.uniq++
	it := fmt.Sprintf("zzit%d", w.uniq)
	ctor := "MapIter"
	if isCh {
		ctor = "ChanIter"
	}
	head := fmt.Sprintf("for %s := zzsimrt.%s(", it, ctor)
	// for <key, value := range> X {   ->   for it := ctor(X); it.Next(); { key, value := it.Key, it.Val
	w.f.add(off(s.For), off(s.X.Pos()), head)
	body := fmt.Sprintf("); %s.Next(); { ", it)
	var l, r []string
	if s.Key != nil && !isBlank(s.Key) {
		l = append(l, text(w.f, s.Key))
		r = append(r, it+".Key")
	}
	if s.Value != nil && !isBlank(s.Value) {
		l = append(l, text(w.f, s.Value))
		r = append(r, it+".Val")
	}
	if len(l) > 0 {
		body += strings.Join(l, ", ") + " " + s.Tok.String() + " " + strings.Join(r, ", ") + "; "
	}
	w.f.add(off(s.X.End()), off(s.Body.Lbrace)+1, body)
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (w *walker) goStmt(s *ast.GoStmt) {
	c := s.Call
	if len(c.Args) == 0 {
		w.f.add(off(s.Go), off(c.Pos()), "zzsimrt.Go(func() { ")
		w.f.add(off(s.End()), off(s.End()), " })")
		return
	}
	w.uniq++
	// go F(a, b)  ->  { za, zb := a, b; zzsimrt.Go(func() { F(za, zb) }) }
	var names []string
	for i := range c.Args {
		names = append(names, fmt.Sprintf("zzarg%d_%d", w.uniq, i))
	}
	if c.Ellipsis.IsValid() {
		// rare: evaluate inside
		w.f.add(off(s.Go), off(c.Pos()), "zzsimrt.Go(func() { ")
		w.f.add(off(s.End()), off(s.End()), " })")
		return
	}
	// the argument texts move in front of the call; edits inside them are lost,
	// which only loses yield points inside function literals among them
	var args []string
	for _, a := range c.Args {
		args = append(args, text(w.f, a))
	}
	w.f.add(off(s.Go), off(c.Pos()), fmt.Sprintf("{ %s := %s; zzsimrt.Go(func() { ", strings.Join(names, ", "), strings.Join(args, ", ")))
	w.f.add(off(c.Lparen)+1, off(c.Rparen), strings.Join(names, ", "))
	w.f.add(off(s.End()), off(s.End()), " }) }")
}

// selectStmt turns a select over channels into a switch over the simulator's
// choice of a ready case.
func (w *walker) selectStmt(s *ast.SelectStmt) {
	w.uniq++
	v := fmt.Sprintf("zzsel%d", w.uniq)
	var cases []string
	hasDefault := false
	n := 0
	type c struct {
		cl  *ast.CommClause
		txt string
	}
	var heads []c
	for _, x := range s.Body.List {
		cl := x.(*ast.CommClause)
		if cl.Comm == nil {
			hasDefault = true
			heads = append(heads, c{cl, "default:"})
			continue
		}
		head := fmt.Sprintf("case %d:", n)
		switch cm := cl.Comm.(type) {
		case *ast.SendStmt:
			cases = append(cases, fmt.Sprintf("zzsimrt.CaseSend(%s, %s)", text(w.f, cm.Chan), text(w.f, cm.Value)))
		case *ast.ExprStmt:
			u, ok := unparen(cm.X).(*ast.UnaryExpr)
			if !ok {
				return
			}
			cases = append(cases, fmt.Sprintf("zzsimrt.CaseRecv(%s)", text(w.f, u.X)))
		case *ast.AssignStmt:
			u, ok := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			if !ok {
				return
			}
			cases = append(cases, fmt.Sprintf("zzsimrt.CaseRecv(%s)", text(w.f, u.X)))
			var l, r []string
			if !isBlank(cm.Lhs[0]) {
				l = append(l, text(w.f, cm.Lhs[0]))
				r = append(r, fmt.Sprintf("zzsimrt.Received(%s, %s)", v, text(w.f, u.X)))
			}
			if len(cm.Lhs) == 2 && !isBlank(cm.Lhs[1]) {
				l = append(l, text(w.f, cm.Lhs[1]))
				r = append(r, v+".OK")
			}
			if len(l) > 0 {
				head += " " + strings.Join(l, ", ") + " " + cm.Tok.String() + " " + strings.Join(r, ", ") + ";"
			}
		default:
			return
		}
		heads = append(heads, c{cl, head})
		n++
	}
	w.f.add(off(s.Select), off(s.Body.Lbrace), fmt.Sprintf("switch %s := zzsimrt.Select(%v, %s); %s.N ", v, hasDefault, strings.Join(append([]string{}, cases...), ", "), v))
	for _, h := range heads {
		w.f.add(off(h.cl.Pos()), off(h.cl.Colon)+1, h.txt)
	}
	if !hasDefault { // stays a terminating statement
		w.f.add(off(s.Body.Rbrace), off(s.Body.Rbrace), " default: panic(\"select without a case\") ")
	}
}

func applyEdits(src []byte, edits []edit) []byte {
	es := append([]edit(nil), edits...)
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].pos != es[j].pos {
			return es[i].pos < es[j].pos
		}
		// insertions before replacements at the same place, each in order
		ri, rj := es[i].end > es[i].pos, es[j].end > es[j].pos
		if ri != rj {
			return !ri
		}
		return es[i].seq < es[j].seq
	})
	var b bytes.Buffer
	at := 0
	for _, e := range es {
		if e.pos < at {
			// inside a replaced stretch
			continue
		}
		b.Write(src[at:e.pos])
		b.WriteString(e.text)
		at = e.end
	}
	b.Write(src[at:])
	return b.Bytes()
}

func apply(f *file) []byte {
	if f.ast == nil {
		return f.src
	}
	end := off(f.ast.Name.End())
	f.edits = append(f.edits, edit{end, end, "; import zzsimrt " + strconv.Quote(module+"/zzsimrt"), -1})
	b := applyEdits(f.src, f.edits)
	b = append(b, "\nvar _ = zzsimrt.Y\n"...)
	return append(b, f.tail.Bytes()...)
}
