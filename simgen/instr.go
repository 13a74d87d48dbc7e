package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/constant"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// shimmed standard packages
var shims = map[string]string{
	"sync": "vsim/ssync", "sync/atomic": "vsim/satomic", "time": "vsim/stime", "net": "vsim/snet",
	"context": "vsim/scontext", "os": "vsim/sos", "runtime": "vsim/sruntime", "math/rand": "vsim/smrand",
	"crypto/rand": "vsim/scrand",
}

type pkgSrc struct {
	path  string // import path
	dir   string // source dir
	rel   string // dir relative to module root
	files []*ast.File
	names []string
	deps  []string
	tpkg  *types.Package
	info  *types.Info
	guest bool // guest universe variant
	noY   bool
	goVer string
	extra *ast.File // type-checked but not printed
}

type instr struct {
	fset    *token.FileSet
	sites   []string
	modPath string
	tmp     int
	p       *pkgSrc
	file    *ast.File
	fnDepth int
	recv2   map[*ast.UnaryExpr]bool
	repo    string
	funcs   []ast.Node // enclosing functions, innermost last
}

func matchTags(f *ast.File, src []byte, tags map[string]bool) bool {
	for _, cg := range f.Comments {
		if cg.Pos() > f.Package {
			break
		}
		for _, c := range cg.List {
			if constraint.IsGoBuild(c.Text) {
				x, err := constraint.Parse(c.Text)
				if err != nil {
					return true
				}
				return x.Eval(func(tag string) bool {
					if strings.HasPrefix(tag, "go1.") {
						n, _ := strconv.Atoi(tag[4:])
						return n <= 26
					}
					return tags[tag]
				})
			}
		}
	}
	return true
}

func knownSuffix(name string) bool { // crude GOOS/GOARCH suffix filter
	name = strings.TrimSuffix(name, ".go")
	parts := strings.Split(name, "_")
	if len(parts) < 2 {
		return true
	}
	l := parts[len(parts)-1]
	switch l {
	case "windows", "darwin", "js", "wasm", "arm64", "arm", "386", "freebsd", "plan9", "wasip1", "openbsd", "netbsd", "solaris", "android", "ios", "aix", "dragonfly":
		return false
	}
	return true
}

func loadPkg(fset *token.FileSet, dir, path string, tags map[string]bool) (*pkgSrc, error) {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	p := &pkgSrc{path: path, dir: dir}
	imps := map[string]bool{}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || strings.HasPrefix(n, "_") || strings.HasPrefix(n, ".") || !knownSuffix(n) {
			continue
		}
		src, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			return nil, err
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, n), src, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		if !matchTags(f, src, tags) {
			continue
		}
		if f.Name.Name == "main" {
			return nil, nil
		}
		p.files = append(p.files, f)
		p.names = append(p.names, n)
		for _, im := range f.Imports {
			s, _ := strconv.Unquote(im.Path.Value)
			imps[s] = true
		}
	}
	if len(p.files) == 0 {
		return nil, nil
	}
	for s := range imps {
		p.deps = append(p.deps, s)
	}
	sort.Strings(p.deps)
	return p, nil
}

type impFunc func(path string) (*types.Package, error)

func (f impFunc) Import(path string) (*types.Package, error) { return f(path) }

func (p *pkgSrc) check(fset *token.FileSet, imp types.Importer) error {
	p.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Implicits: map[ast.Node]types.Object{},
		Instances: map[*ast.Ident]types.Instance{},
	}
	fs := append([]*ast.File(nil), p.files...)
	if p.extra != nil {
		fs = append(fs, p.extra)
	}
	conf := types.Config{Importer: imp, Error: func(error) {}, GoVersion: p.goVer, IgnoreFuncBodies: false}
	tp, err := conf.Check(p.path, fset, fs, p.info)
	if err != nil && !strings.Contains(err.Error(), "missing function body") {
		return fmt.Errorf("type-check %s: %w", p.path, err)
	}
	p.tpkg = tp
	return nil
}

// ------------------------------------------------------------------ helpers

func id(n string) *ast.Ident { return ast.NewIdent(n) }
func sel(x, n string) ast.Expr {
	return &ast.SelectorExpr{X: id(x), Sel: id(n)}
}
func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }
func vs(n string, args ...ast.Expr) *ast.CallExpr     { return call(sel("vsim", n), args...) }
func intLit(n int) ast.Expr {
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}
}
func exprStmt(e ast.Expr) ast.Stmt { return &ast.ExprStmt{X: e} }
func define(lhs []ast.Expr, rhs ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
}
func assign(lhs []ast.Expr, rhs ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: rhs}
}

func (in *instr) fresh(p string) string { in.tmp++; return fmt.Sprintf("_v%s%d", p, in.tmp) }

func (in *instr) site(n ast.Node) int {
	pos := in.fset.Position(n.Pos())
	rel, err := filepath.Rel(in.repo, pos.Filename)
	if err != nil {
		rel = pos.Filename
	}
	s := fmt.Sprintf("%s:%d", rel, pos.Line)
	if in.p.guest {
		s = "guest:" + s
	}
	in.sites = append(in.sites, s)
	return len(in.sites) - 1
}

func (in *instr) y(n ast.Node) ast.Stmt { return exprStmt(vs("Y", intLit(in.site(n)))) }

func (in *instr) typeOf(e ast.Expr) types.Type {
	if tv, ok := in.p.info.Types[e]; ok {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := in.p.info.ObjectOf(i); o != nil {
			return o.Type()
		}
	}
	return nil
}

func coreUnder(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (in *instr) isChan(e ast.Expr) bool {
	_, ok := coreUnder(in.typeOf(e)).(*types.Chan)
	return ok
}
func (in *instr) isMap(e ast.Expr) bool {
	_, ok := coreUnder(in.typeOf(e)).(*types.Map)
	return ok
}

func (in *instr) isBuiltin(e ast.Expr, name string) bool {
	i, ok := ast.Unparen(e).(*ast.Ident)
	if !ok || i.Name != name {
		return false
	}
	_, ok = in.p.info.Uses[i].(*types.Builtin)
	return ok
}

// pure: evaluating it twice is harmless (no calls, no receives).
func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.CompositeLit, *ast.TypeAssertExpr:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// shared: may another goroutine see this location?
func (in *instr) shared(e ast.Expr) bool {
	switch x := ast.Unparen(e).(type) {
	case *ast.SelectorExpr:
		if s := in.p.info.Selections[x]; s != nil {
			if s.Kind() != types.FieldVal {
				return false
			}
			if s.Indirect() {
				return true
			}
			if _, ok := coreUnder(in.typeOf(x.X)).(*types.Pointer); ok {
				return true
			}
			return in.shared(x.X)
		}
		_, isVar := in.p.info.Uses[x.Sel].(*types.Var)
		return isVar
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		if in.isMap(x.X) {
			return in.shared(x.X)
		}
		if _, ok := coreUnder(in.typeOf(x.X)).(*types.Slice); ok {
			return true
		}
		return in.shared(x.X)
	case *ast.Ident:
		v, ok := in.p.info.Uses[x].(*types.Var)
		if !ok {
			return false
		}
		if v.Parent() == in.p.tpkg.Scope() {
			return true
		}
		if v.Parent() == nil || len(in.funcs) == 0 {
			return false
		}
		// captured from an enclosing function?
		f := in.funcs[len(in.funcs)-1]
		return v.Pos() < f.Pos() || v.Pos() >= f.End()
	}
	return false
}

func (in *instr) readsShared(e ast.Expr) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			return false
		}
		if x, ok := n.(ast.Expr); ok {
			switch x.(type) {
			case *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr, *ast.Ident:
				if _, isType := in.p.info.Types[x]; isType && in.p.info.Types[x].IsType() {
					return false
				}
				if in.shared(x) {
					r = true
				}
			}
		}
		return !r
	})
	return r
}

// ------------------------------------------------------------------ expressions

func (in *instr) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = in.expr(l[i])
	}
}

func (in *instr) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.Ident, *ast.BasicLit:
		return e
	case *ast.ParenExpr:
		x.X = in.expr(x.X)
	case *ast.SelectorExpr:
		x.X = in.expr(x.X)
	case *ast.StarExpr:
		x.X = in.expr(x.X)
	case *ast.IndexExpr:
		x.X = in.expr(x.X)
		x.Index = in.expr(x.Index)
	case *ast.IndexListExpr:
		x.X = in.expr(x.X)
		in.exprs(x.Indices)
	case *ast.SliceExpr:
		x.X = in.expr(x.X)
		x.Low, x.High, x.Max = in.expr(x.Low), in.expr(x.High), in.expr(x.Max)
	case *ast.TypeAssertExpr:
		x.X = in.expr(x.X)
	case *ast.BinaryExpr:
		x.X, x.Y = in.expr(x.X), in.expr(x.Y)
	case *ast.KeyValueExpr:
		x.Key, x.Value = in.expr(x.Key), in.expr(x.Value)
	case *ast.CompositeLit:
		in.exprs(x.Elts)
	case *ast.FuncLit:
		in.funcs = append(in.funcs, x)
		in.block(x.Body)
		in.funcs = in.funcs[:len(in.funcs)-1]
	case *ast.UnaryExpr:
		x.X = in.expr(x.X)
		if x.Op == token.ARROW {
			if in.recv2[x] {
				return vs("Recv2", x.X)
			}
			return vs("Recv", x.X)
		}
	case *ast.CallExpr:
		return in.call(x)
	}
	return e
}

func (in *instr) call(x *ast.CallExpr) ast.Expr {
	isClose := in.isBuiltin(x.Fun, "close")
	isLen := in.isBuiltin(x.Fun, "len") && in.isChan(x.Args[0])
	isMake := in.isBuiltin(x.Fun, "make") && in.isChan(x.Args[0])
	if isMake {
		for i := 1; i < len(x.Args); i++ {
			x.Args[i] = in.expr(x.Args[i])
		}
		for i := 1; i < len(x.Args); i++ {
			x.Args[i] = call(id("int"), x.Args[i])
		}
		return call(&ast.IndexExpr{X: sel("vsim", "Make"), Index: x.Args[0]}, x.Args[1:]...)
	}
	sized := len(x.Args) > 1 && in.isBuiltin(x.Fun, "make")
	x.Fun = in.expr(x.Fun)
	in.exprs(x.Args)
	if sized {
		for i := 1; i < len(x.Args); i++ {
			if tv, ok := in.p.info.Types[x.Args[i]]; !ok || tv.Value == nil {
				x.Args[i] = vs("MakeLen", x.Args[i])
			}
		}
	}
	if isClose {
		return vs("Close", x.Args[0])
	}
	if isLen {
		return vs("Len", x.Args[0])
	}
	return x
}

// ------------------------------------------------------------------ statements

func (in *instr) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = in.stmts(b.List)
	}
}

func (in *instr) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range splitLabels(l) {
		if _, ok := s.(*ast.EmptyStmt); ok {
			out = append(out, s)
			continue
		}
		if !in.p.noY {
			if _, isDecl := s.(*ast.DeclStmt); !isDecl || in.declHasCall(s) {
				out = append(out, in.y(s))
			}
		}
		out = append(out, in.mapMarks(s)...)
		out = append(out, in.stmt(s)...)
	}
	return out
}

// splitLabels gives the labels that gotos name a statement of their own, because
// what the labelled statement turns into may be a block.
func splitLabels(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		lab, ok := s.(*ast.LabeledStmt)
		if !ok {
			out = append(out, s)
			continue
		}
		loops := false
		ast.Inspect(lab.Stmt, func(n ast.Node) bool {
			if b, ok := n.(*ast.BranchStmt); ok && b.Label != nil && b.Label.Name == lab.Label.Name && b.Tok != token.GOTO {
				loops = true
			}
			return true
		})
		if loops {
			out = append(out, s)
			continue
		}
		out = append(out, &ast.LabeledStmt{Label: lab.Label, Stmt: &ast.EmptyStmt{}}, lab.Stmt)
	}
	return out
}

func (in *instr) declHasCall(s ast.Stmt) bool {
	r := false
	ast.Inspect(s, func(n ast.Node) bool {
		if _, ok := n.(*ast.CallExpr); ok {
			r = true
		}
		return !r
	})
	return r
}

// mapMarks opens a race window around map accesses of shared maps.
func (in *instr) mapMarks(s ast.Stmt) []ast.Stmt {
	if in.p.noY {
		return nil
	}
	var out []ast.Stmt
	seen := map[string]bool{}
	mark := func(fn string, m ast.Expr) {
		if !pure(m) || !in.shared(m) || !in.isMap(m) {
			return
		}
		k := fn + exprString(in.fset, m)
		if seen[k] {
			return
		}
		seen[k] = true
		out = append(out, exprStmt(vs(fn, cloneExpr(m))))
	}
	var read func(e ast.Expr)
	read = func(e ast.Expr) {
		switch x := ast.Unparen(e).(type) {
		case *ast.IndexExpr:
			read(x.Index)
			mark("MapR", x.X)
		case *ast.BinaryExpr:
			read(x.X)
			if x.Op != token.LAND && x.Op != token.LOR {
				read(x.Y)
			}
		case *ast.CallExpr:
			if in.isBuiltin(x.Fun, "len") && len(x.Args) == 1 {
				mark("MapR", x.Args[0])
			}
			for _, a := range x.Args {
				read(a)
			}
		case *ast.UnaryExpr:
			read(x.X)
		case *ast.SelectorExpr:
			read(x.X)
		case *ast.StarExpr:
			read(x.X)
		}
	}
	var do func(s ast.Stmt)
	do = func(s ast.Stmt) {
		switch x := s.(type) {
		case *ast.AssignStmt:
			for _, r := range x.Rhs {
				read(r)
			}
			for _, l := range x.Lhs {
				if ix, ok := ast.Unparen(l).(*ast.IndexExpr); ok {
					mark("MapW", ix.X)
				}
			}
		case *ast.IncDecStmt:
			if ix, ok := ast.Unparen(x.X).(*ast.IndexExpr); ok {
				mark("MapW", ix.X)
			}
		case *ast.ExprStmt:
			if c, ok := x.X.(*ast.CallExpr); ok && (in.isBuiltin(c.Fun, "delete") || in.isBuiltin(c.Fun, "clear")) {
				mark("MapW", c.Args[0])
			} else {
				read(x.X)
			}
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				read(r)
			}
		case *ast.IfStmt:
			if x.Init != nil {
				do(x.Init)
			} else {
				read(x.Cond)
			}
		case *ast.SwitchStmt:
			if x.Init == nil && x.Tag != nil {
				read(x.Tag)
			}
		}
	}
	do(s)
	return out
}

func cloneExpr(e ast.Expr) ast.Expr {
	var b bytes.Buffer
	_ = format.Node(&b, token.NewFileSet(), e)
	x, err := parser.ParseExpr(b.String())
	if err != nil {
		return e
	}
	clearPos(x)
	return x
}

func clearPos(ast.Node) {}

func exprString(fset *token.FileSet, e ast.Expr) string {
	var b bytes.Buffer
	_ = format.Node(&b, fset, e)
	return b.String()
}

func (in *instr) stmt(s ast.Stmt) []ast.Stmt {
	one := []ast.Stmt{s}
	switch x := s.(type) {
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok && in.isBuiltin(c.Fun, "delete") && len(c.Args) == 2 {
			in.exprs(c.Args)
			return one
		}
		x.X = in.expr(x.X)
	case *ast.SendStmt:
		x.Chan, x.Value = in.expr(x.Chan), in.expr(x.Value)
		return []ast.Stmt{exprStmt(call(vs("SendTo", x.Chan), x.Value))}
	case *ast.IncDecStmt:
		if in.shared(x.X) && pure(x.X) && !in.p.noY {
			op := token.ADD
			if x.Tok == token.DEC {
				op = token.SUB
			}
			t := in.fresh("t")
			return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
				define([]ast.Expr{id(t)}, x.X),
				in.y(x),
				assign([]ast.Expr{cloneExpr(x.X)}, &ast.BinaryExpr{X: id(t), Op: op, Y: intLit(1)}),
			}}}
		}
		x.X = in.expr(x.X)
	case *ast.AssignStmt:
		return in.assign(x)
	case *ast.GoStmt:
		return in.goStmt(x)
	case *ast.DeferStmt:
		// defer close(ch) and friends: evaluate like the original
		if in.isBuiltin(x.Call.Fun, "close") {
			x.Call.Args[0] = in.expr(x.Call.Args[0])
			x.Call = &ast.CallExpr{Fun: sel("vsim", "Close"), Args: x.Call.Args}
			return one
		}
		r := in.call(x.Call)
		if c, ok := r.(*ast.CallExpr); ok {
			x.Call = c
		}
	case *ast.ReturnStmt:
		if len(x.Results) == 1 {
			if u, ok := ast.Unparen(x.Results[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW && in.funcResults() == 2 {
				in.recv2[u] = true
			}
		}
		in.exprs(x.Results)
	case *ast.BlockStmt:
		in.block(x)
	case *ast.IfStmt:
		x.Init = in.simple(x.Init)
		x.Cond = in.expr(x.Cond)
		in.block(x.Body)
		if x.Else != nil {
			switch e := x.Else.(type) {
			case *ast.BlockStmt:
				in.block(e)
			default:
				x.Else = &ast.BlockStmt{List: in.stmt(e)}
			}
		}
	case *ast.ForStmt:
		x.Init = in.simple(x.Init)
		if x.Cond != nil {
			x.Cond = in.expr(x.Cond)
		}
		x.Post = in.simple(x.Post)
		in.block(x.Body)
		if len(x.Body.List) == 0 {
			x.Body.List = []ast.Stmt{in.y(x)}
		}
	case *ast.RangeStmt:
		return in.rangeStmt(x, nil)
	case *ast.LabeledStmt:
		switch b := x.Stmt.(type) {
		case *ast.RangeStmt:
			return in.rangeStmt(b, x)
		case *ast.SelectStmt:
			return in.selectStmt(b, x)
		}
		r := in.stmt(x.Stmt)
		if len(r) == 1 {
			x.Stmt = r[0]
			return one
		}
		x.Stmt = &ast.BlockStmt{List: r}
	case *ast.SwitchStmt:
		x.Init = in.simple(x.Init)
		if x.Tag != nil {
			x.Tag = in.expr(x.Tag)
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			in.exprs(cc.List)
			cc.Body = in.stmts(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		x.Init = in.simple(x.Init)
		x.Assign = in.simple(x.Assign)
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = in.stmts(cc.Body)
		}
	case *ast.SelectStmt:
		return in.selectStmt(x, nil)
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					if len(v.Names) == 2 && len(v.Values) == 1 {
						if u, ok := ast.Unparen(v.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
							in.recv2[u] = true
						}
					}
					in.exprs(v.Values)
				}
			}
		}
	}
	return one
}

func (in *instr) funcResults() int {
	if len(in.funcs) == 0 {
		return 0
	}
	var ft *ast.FuncType
	switch f := in.funcs[len(in.funcs)-1].(type) {
	case *ast.FuncDecl:
		ft = f.Type
	case *ast.FuncLit:
		ft = f.Type
	}
	return ft.Results.NumFields()
}

// simple rewrites a simple statement in a position where it must stay simple.
func (in *instr) simple(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.AssignStmt:
		in.assignPlain(x)
		return x
	case *ast.ExprStmt:
		x.X = in.expr(x.X)
		return x
	case *ast.IncDecStmt:
		x.X = in.expr(x.X)
		return x
	case *ast.SendStmt:
		x.Chan, x.Value = in.expr(x.Chan), in.expr(x.Value)
		return exprStmt(call(vs("SendTo", x.Chan), x.Value))
	}
	return s
}

func (in *instr) assignPlain(x *ast.AssignStmt) {
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		if u, ok := ast.Unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			in.recv2[u] = true
		}
	}
	for i, l := range x.Lhs {
		if ix, ok := ast.Unparen(l).(*ast.IndexExpr); ok && in.isMap(ix.X) {
			m := coreUnder(in.typeOf(ix.X)).(*types.Map)
			if _, isPtr := m.Key().Underlying().(*types.Pointer); isPtr {
				ix.X = in.expr(ix.X)
				ix.Index = vs("NoteKey", in.expr(ix.Index))
				continue
			}
		}
		x.Lhs[i] = in.expr(l)
	}
	in.exprs(x.Rhs)
}

var opOf = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
	token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

func (in *instr) assign(x *ast.AssignStmt) []ast.Stmt {
	if in.p.noY || len(x.Lhs) != 1 || len(x.Rhs) != 1 {
		in.assignPlain(x)
		return []ast.Stmt{x}
	}
	l := x.Lhs[0]
	if op, ok := opOf[x.Tok]; ok {
		if in.shared(l) && pure(l) {
			t := in.fresh("t")
			lc := cloneExpr(l)
			r := in.expr(x.Rhs[0])
			return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
				define([]ast.Expr{id(t)}, l),
				in.y(x),
				assign([]ast.Expr{lc}, &ast.BinaryExpr{X: id(t), Op: op, Y: &ast.ParenExpr{X: r}}),
			}}}
		}
		in.assignPlain(x)
		return []ast.Stmt{x}
	}
	if x.Tok == token.ASSIGN && in.shared(l) && pure(l) && in.readsShared(x.Rhs[0]) {
		lt := in.typeOf(l)
		tv, ok := in.p.info.Types[x.Rhs[0]]
		_, isFn := x.Rhs[0].(*ast.FuncLit)
		if ok && tv.Value == nil && !tv.IsNil() && lt != nil && types.Identical(lt, tv.Type) && !isFn {
			t := in.fresh("t")
			y := in.y(x)
			in.assignPlain(x)
			r := x.Rhs[0]
			x.Rhs[0] = id(t)
			return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{define([]ast.Expr{id(t)}, r), y, x}}}
		}
	}
	in.assignPlain(x)
	return []ast.Stmt{x}
}

func (in *instr) goStmt(x *ast.GoStmt) []ast.Stmt {
	site := in.site(x)
	c := x.Call
	var pre []ast.Stmt
	fun := ast.Unparen(c.Fun)
	inline := false
	base := fun
	switch b := fun.(type) {
	case *ast.IndexExpr:
		base = b.X
	case *ast.IndexListExpr:
		base = b.X
	}
	switch b := base.(type) {
	case *ast.Ident:
		switch in.p.info.Uses[b].(type) {
		case *types.Func, *types.Builtin:
			inline = true
		}
	case *ast.SelectorExpr:
		if f, ok := in.p.info.Uses[b.Sel].(*types.Func); ok && f.Type().(*types.Signature).Recv() == nil {
			inline = true
		}
	}
	keep := make([]bool, len(c.Args))
	for i, a := range c.Args {
		tv := in.p.info.Types[a]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			keep[i] = true
		}
		if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			keep[i] = true
		}
		if _, ok := tv.Type.(*types.Tuple); ok {
			keep[i] = true
		}
	}
	var nf ast.Expr
	isClose := in.isBuiltin(fun, "close")
	if inline {
		nf = in.expr(c.Fun)
	} else {
		n := in.fresh("f")
		pre = append(pre, define([]ast.Expr{id(n)}, in.expr(c.Fun)))
		nf = id(n)
	}
	args := make([]ast.Expr, len(c.Args))
	for i, a := range c.Args {
		if keep[i] {
			args[i] = in.expr(a)
			continue
		}
		n := in.fresh("a")
		pre = append(pre, define([]ast.Expr{id(n)}, in.expr(a)))
		args[i] = id(n)
	}
	nc := &ast.CallExpr{Fun: nf, Args: args}
	if c.Ellipsis.IsValid() {
		nc.Ellipsis = 1
	}
	if isClose {
		nc.Fun = sel("vsim", "Close")
	}
	pre = append(pre, exprStmt(vs("Go", intLit(site), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{exprStmt(nc)}}})))
	return []ast.Stmt{&ast.BlockStmt{List: pre}}
}

func (in *instr) rangeStmt(x *ast.RangeStmt, lab *ast.LabeledStmt) []ast.Stmt {
	wrap := func(f ast.Stmt, pre ...ast.Stmt) []ast.Stmt {
		if lab != nil {
			lab.Stmt = f
			f = lab
		}
		if len(pre) == 0 {
			return []ast.Stmt{f}
		}
		return []ast.Stmt{&ast.BlockStmt{List: append(pre, f)}}
	}
	isBlank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		i, ok := e.(*ast.Ident)
		return ok && i.Name == "_"
	}
	switch {
	case in.isChan(x.X):
		c, ok := in.fresh("c"), in.fresh("ok")
		pre := []ast.Stmt{define([]ast.Expr{id(c)}, in.expr(x.X))}
		var v ast.Expr = id("_")
		if !isBlank(x.Key) {
			if x.Tok == token.DEFINE {
				pre = append(pre, define([]ast.Expr{x.Key}, vs("ZeroOf", id(c))))
			}
			v = x.Key
		}
		pre = append(pre, define([]ast.Expr{id(ok)}, id("false")))
		y := in.y(x)
		in.block(x.Body)
		body := append([]ast.Stmt{y, assign([]ast.Expr{v, id(ok)}, vs("Recv2", id(c))),
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}},
			x.Body.List...)
		return wrap(&ast.ForStmt{Body: &ast.BlockStmt{List: body}}, pre...)
	case in.isMap(x.X):
		m := in.fresh("m")
		pre := []ast.Stmt{define([]ast.Expr{id(m)}, in.expr(x.X))}
		key := x.Key
		tok := x.Tok
		if isBlank(key) {
			key = id(in.fresh("k"))
			tok = token.DEFINE
		}
		in.block(x.Body)
		ok := in.fresh("ok")
		var head []ast.Stmt
		mi := &ast.IndexExpr{X: id(m), Index: key}
		if isBlank(x.Value) {
			head = append(head, define([]ast.Expr{id("_"), id(ok)}, mi))
		} else if x.Tok == token.DEFINE {
			head = append(head, define([]ast.Expr{x.Value, id(ok)}, mi))
		} else {
			head = append(head, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(ok)}, Type: id("bool")}}}},
				assign([]ast.Expr{x.Value, id(ok)}, mi))
		}
		head = append(head, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		body := append(head, x.Body.List...)
		return wrap(&ast.RangeStmt{Key: id("_"), Value: key, Tok: tok, X: vs("Keys", id(m)), Body: &ast.BlockStmt{List: body}}, pre...)
	}
	x.X = in.expr(x.X)
	in.block(x.Body)
	if len(x.Body.List) == 0 {
		x.Body.List = []ast.Stmt{in.y(x)}
	}
	return wrap(x)
}

func (in *instr) selectStmt(x *ast.SelectStmt, lab *ast.LabeledStmt) []ast.Stmt {
	var pre []ast.Stmt
	selv := in.fresh("s")
	var cases []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDef := false
	n := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: intLit(1)}}, Body: in.stmts(cc.Body)})
			continue
		}
		var head []ast.Stmt
		recvOf := func(e ast.Expr) string {
			u := ast.Unparen(e).(*ast.UnaryExpr)
			ch := in.fresh("c")
			pre = append(pre, define([]ast.Expr{id(ch)}, in.expr(u.X)))
			cases = append(cases, vs("CaseRecv", id(ch)))
			return ch
		}
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			ch := in.fresh("c")
			pre = append(pre, define([]ast.Expr{id(ch)}, in.expr(cm.Chan)))
			cases = append(cases, call(vs("CaseSend", id(ch)), in.expr(cm.Value)))
		case *ast.ExprStmt:
			recvOf(cm.X)
		case *ast.AssignStmt:
			ch := recvOf(cm.Rhs[0])
			lhs := append([]ast.Expr(nil), cm.Lhs...)
			for i := range lhs {
				if cm.Tok == token.ASSIGN {
					lhs[i] = in.expr(lhs[i])
				}
			}
			if len(lhs) == 1 {
				lhs = append(lhs, id("_"))
			}
			tok := cm.Tok
			allBlank := true
			for _, l := range lhs {
				if i, ok := l.(*ast.Ident); !ok || i.Name != "_" {
					allBlank = false
				}
			}
			if allBlank {
				tok = token.ASSIGN
			}
			head = append(head, &ast.AssignStmt{Lhs: lhs, Tok: tok, Rhs: []ast.Expr{vs("SelVal", id(ch), id(selv))}})
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{intLit(n)}, Body: append(head, in.stmts(cc.Body)...)})
		n++
	}
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{exprStmt(call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"vsim: unreachable select case"`}))}})
	def := "false"
	if hasDef {
		def = "true"
	}
	pre = append(pre, define([]ast.Expr{id(selv)}, vs("Select", append([]ast.Expr{id(def)}, cases...)...)))
	sw.Tag = &ast.SelectorExpr{X: id(selv), Sel: id("Idx")}
	var st ast.Stmt = sw
	if lab != nil {
		lab.Stmt = sw
		st = lab
	}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, st)}}
}

// ------------------------------------------------------------------ files

type exportFn struct{ name, fn string }

// instrument rewrites the package and returns file name -> source.
func (in *instr) instrument(p *pkgSrc, rewriteImport func(string) string) (map[string][]byte, error) {
	in.p = p
	in.recv2 = map[*ast.UnaryExpr]bool{}
	out := map[string][]byte{}
	nInit := 0
	var inits []string
	resetOf := map[*types.Initializer]string{}
	fileOf := func(pos token.Pos) *ast.File {
		for _, f := range p.files {
			if f.FileStart <= pos && pos <= f.FileEnd {
				return f
			}
		}
		return nil
	}
	extra := map[*ast.File][]ast.Decl{}
	var exports []exportFn
	hasInit := map[types.Object]bool{}
	for _, ini := range p.info.InitOrder {
		for _, l := range ini.Lhs {
			hasInit[l] = true
		}
	}
	for _, f := range p.files {
		in.file = f
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				directive := ""
				if x.Doc != nil {
					for _, c := range x.Doc.List {
						for _, pf := range []string{"//go:export ", "//export ", "//go:wasmexport "} {
							if strings.HasPrefix(c.Text, pf) {
								directive = strings.TrimSpace(strings.TrimPrefix(c.Text, pf))
							}
						}
					}
				}
				if x.Body == nil {
					if !p.guest {
						return nil, fmt.Errorf("%s: function %s without a body", p.path, x.Name.Name)
					}
					var args []ast.Expr
					args = append(args, id("zzUniverse"), &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(directive)})
					k := 0
					for _, fl := range x.Type.Params.List {
						for range max(1, len(fl.Names)) {
							if len(fl.Names) > k {
								_ = k
							}
						}
						for _, n := range fl.Names {
							args = append(args, call(id("uint64"), id(n.Name)))
						}
					}
					x.Body = &ast.BlockStmt{List: []ast.Stmt{exprStmt(call(sel("wabridge", "Import"), args...))}}
					continue
				}
				if p.guest && directive != "" && x.Recv == nil {
					exports = append(exports, exportFn{directive, x.Name.Name})
				}
				in.funcs = []ast.Node{x}
				in.block(x.Body)
				in.funcs = nil
				if p.noY && strings.HasSuffix(p.path, "/msgpack") {
					x.Body.List = append([]ast.Stmt{exprStmt(vs("Enter")), &ast.DeferStmt{Call: vs("Leave")}}, x.Body.List...)
				}
				if x.Recv == nil && x.Name.Name == "init" {
					x.Name = id(fmt.Sprintf("zzInit%d", nInit))
					inits = append(inits, x.Name.Name)
					nInit++
				}
			case *ast.GenDecl:
				if x.Tok == token.VAR {
					for _, sp := range x.Specs {
						in.exprs(sp.(*ast.ValueSpec).Values)
					}
				}
			}
		}
	}
	// resets
	var body, vars []string
	scope := p.tpkg.Scope()
	for _, n := range scope.Names() {
		if _, ok := scope.Lookup(n).(*types.Var); ok {
			vars = append(vars, "&"+n)
		}
	}
	for _, n := range scope.Names() {
		if v, ok := scope.Lookup(n).(*types.Var); ok && !hasInit[v] {
			body = append(body, fmt.Sprintf("vsim.Zero(&%s)", n))
		}
	}
	k := 0
	for _, ini := range p.info.InitOrder {
		f := fileOf(ini.Rhs.Pos())
		if f == nil {
			return nil, fmt.Errorf("initialiser without a file in %s", p.path)
		}
		allBlank := true
		var lhs []ast.Expr
		for _, l := range ini.Lhs {
			lhs = append(lhs, id(l.Name()))
			if l.Name() != "_" {
				allBlank = false
			}
		}
		if allBlank {
			continue
		}
		// find the rewritten expression: the ValueSpec value at that position
		rhs := in.findValue(f, ini)
		if rhs == nil {
			return nil, fmt.Errorf("initialiser of %s not found", ini.Lhs[0].Name())
		}
		fn := fmt.Sprintf("zzReset%d", k)
		k++
		resetOf[ini] = fn
		extra[f] = append(extra[f], &ast.FuncDecl{Name: id(fn), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{assign(lhs, rhs)}}})
		body = append(body, fn+"()")
	}
	for _, n := range inits {
		body = append(body, n+"()")
	}
	for fi, f := range p.files {
		f.Decls = append(f.Decls, extra[f]...)
		src, err := in.print(f, rewriteImport)
		if err != nil {
			return nil, fmt.Errorf("%s/%s: %w", p.path, p.names[fi], err)
		}
		out[p.names[fi]] = src
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport \"vsim\"\n", p.files[0].Name.Name)
	if p.guest && strings.HasSuffix(p.path, "transport/wasmrs/guest") {
		b.WriteString("import \"vsim/wabridge\"\n\nconst zzUniverse = ZZUNIVERSE\n")
		b.WriteString("func init() {\n\twabridge.Register(zzUniverse, map[string]any{\n")
		for _, e := range exports {
			fmt.Fprintf(&b, "\t\t%q: %s,\n", e.name, e.fn)
		}
		b.WriteString("\t})\n}\n")
	} else if p.guest {
		b.WriteString("\nconst zzUniverse = ZZUNIVERSE\n")
	}
	fmt.Fprintf(&b, "\nfunc init() { vsim.RegisterReset(zzResetAll) }\n\nfunc zzResetAll() {\n\t%s\n}\n", strings.Join(body, "\n\t"))
	if len(vars) > 0 {
		fmt.Fprintf(&b, "\nfunc init() { vsim.RegisterGlobals(%s) }\n", strings.Join(vars, ", "))
	}
	out["zz_reset.go"] = []byte(b.String())
	return out, nil
}

func (in *instr) findValue(f *ast.File, ini *types.Initializer) ast.Expr {
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, sp := range g.Specs {
			v := sp.(*ast.ValueSpec)
			for i, n := range v.Names {
				if in.p.info.Defs[n] == ini.Lhs[0] || (n.Name == ini.Lhs[0].Name() && n.Name != "_") {
					if len(v.Values) == len(v.Names) {
						return v.Values[i]
					}
					if len(v.Values) == 1 {
						return v.Values[0]
					}
				}
			}
		}
	}
	return nil
}

func usesIdent(f *ast.File, name string) bool {
	used := false
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if i, ok := s.X.(*ast.Ident); ok && i.Name == name {
					used = true
				}
			}
			return !used
		})
	}
	return used
}

func (in *instr) print(f *ast.File, rewriteImport func(string) string) ([]byte, error) {
	// strip comments
	f.Comments = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
	f.Doc = nil
	type imp struct{ name, path string }
	var imps []imp
	var decls []ast.Decl
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		for _, sp := range g.Specs {
			is := sp.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			name := ""
			if is.Name != nil {
				name = is.Name.Name
			}
			if sh, ok := shims[path]; ok {
				if name == "" {
					name = path[strings.LastIndexByte(path, '/')+1:]
				}
				imps = append(imps, imp{name, sh})
				continue
			}
			imps = append(imps, imp{name, rewriteImport(path)})
		}
	}
	f.Decls = decls
	f.Imports = nil
	if usesIdent(f, "vsim") {
		imps = append(imps, imp{"", "vsim"})
	}
	if usesIdent(f, "wabridge") {
		imps = append(imps, imp{"", "vsim/wabridge"})
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\n", f.Name.Name)
	if len(imps) > 0 {
		b.WriteString("import (\n")
		seen := map[imp]bool{}
		for _, i := range imps {
			if seen[i] {
				continue
			}
			seen[i] = true
			fmt.Fprintf(&b, "\t%s %q\n", i.name, i.path)
		}
		b.WriteString(")\n\n")
	}
	for _, d := range f.Decls {
		if err := format.Node(&b, in.fset, d); err != nil {
			return nil, err
		}
		b.WriteString("\n\n")
	}
	return b.Bytes(), nil
}

var _ = constant.BoolVal
