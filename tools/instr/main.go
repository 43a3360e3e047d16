// Command instr rewrites Go packages so that every goroutine, channel, lock, clock, random source and network
// operation goes through the controlled scheduler of verif.local/rt.
//
//	instr -mod DIR -out DIR -shims prefix=path,... pkgdir...
//
// The packages named are type-checked from source, the rest of the world from the compiler's export data.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

type pkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Imports    []string
	ImportMap  map[string]string
	Standard   bool
}

func fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", a...)
	os.Exit(2)
}

const rt = "verif.local/rt/"

func main() {
	mod := flag.String("mod", "", "directory of the main module, where go list is run")
	out := flag.String("out", "", "output directory")
	shimList := flag.String("shims", "", "original=replacement,... import paths")
	strip := flag.String("strip", "", "import path of the root of the output directory")
	race := flag.Bool("race", false, "list with -race")
	flag.Parse()

	want := map[string]bool{}
	for _, p := range flag.Args() {
		want[p] = true
	}
	args := []string{"list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Imports,ImportMap,Standard"}
	if *race {
		args = append(args, "-race")
	}
	var shims = map[string]string{}
	var shimPaths []string
	for _, s := range strings.Split(*shimList, ",") {
		if s == "" {
			continue
		}
		kv := strings.SplitN(s, "=", 2)
		shims[kv[0]] = kv[1]
		shimPaths = append(shimPaths, kv[1])
	}
	cmd := exec.Command("go", append(append(args, flag.Args()...), shimPaths...)...)
	cmd.Dir = *mod
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	b, err := cmd.Output()
	if err != nil {
		fatal("go list: %v\n%s", err, stderr.String())
	}
	pkgs := map[string]*pkg{}
	var order []string
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &pkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list: %v", err)
		}
		pkgs[p.ImportPath] = p
		order = append(order, p.ImportPath)
	}

	fset := token.NewFileSet()
	checked := map[string]*types.Package{}
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	imp := func(path string) (*types.Package, error) {
		if path == "unsafe" {
			return types.Unsafe, nil
		}
		if p := checked[path]; p != nil {
			return p, nil
		}
		return gc.Import(path)
	}
	shimNames := map[string]map[string]bool{}
	for orig, repl := range shims {
		p, err := gc.Import(repl)
		if err != nil {
			fatal("shim %s: %v", repl, err)
		}
		names := map[string]bool{}
		for _, n := range p.Scope().Names() {
			if ast.IsExported(n) {
				names[n] = true
			}
		}
		shimNames[orig] = names
	}
	for _, path := range order {
		if !want[path] {
			continue
		}
		p := pkgs[path]
		var files []*ast.File
		var names []string
		for _, f := range p.GoFiles {
			name := filepath.Join(p.Dir, f)
			a, err := parser.ParseFile(fset, name, nil, parser.ParseComments)
			if err != nil {
				fatal("%v", err)
			}
			files = append(files, a)
			names = append(names, f)
		}
		info := &types.Info{
			Types:      map[ast.Expr]types.TypeAndValue{},
			Defs:       map[*ast.Ident]types.Object{},
			Uses:       map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{},
			Implicits:  map[ast.Node]types.Object{},
		}
		conf := types.Config{Importer: importerFunc(imp), GoVersion: "go1.21", Error: func(err error) {}}
		tp, err := conf.Check(path, fset, files, info)
		if err != nil {
			fatal("%s does not type-check: %v", path, err)
		}
		checked[path] = tp
		rel := strings.TrimPrefix(strings.TrimPrefix(path, *strip), "/")
		dir := filepath.Join(*out, rel)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			fatal("%v", err)
		}
		for i, f := range files {
			r := &rewriter{fset: fset, info: info, shims: shims, names: shimNames, need: map[string]string{}, file: f, pkg: tp, stmts: !strings.HasSuffix(path, "/zmc")}
			src := r.rewrite()
			if err := os.WriteFile(filepath.Join(dir, names[i]), src, 0o644); err != nil {
				fatal("%v", err)
			}
		}
	}
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

type rewriter struct {
	fset  *token.FileSet
	info  *types.Info
	shims map[string]string
	names map[string]map[string]bool
	need  map[string]string // import path -> local name
	file  *ast.File
	pkg   *types.Package
	tmp   int
	stmts bool // put scheduling points in front of statements

	leaves [][2]token.Pos // bodies without any

	commaOK map[ast.Expr]bool // receive expressions in a v, ok context
	inSel   map[ast.Node]bool // communications of select statements, handled with the statement
}

func (r *rewriter) fresh(s string) *ast.Ident {
	r.tmp++
	return ast.NewIdent(fmt.Sprintf("vs%s%d_", s, r.tmp))
}

func (r *rewriter) rt(pkg, name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(r.local(rt + pkg)), Sel: ast.NewIdent(name)}
}

func (r *rewriter) local(path string) string {
	if n, ok := r.need[path]; ok {
		return n
	}
	n := "zz" + strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(path[strings.LastIndex(path, "/")+1:])
	r.need[path] = n
	return n
}

func call(fn ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: fn, Args: args} }
func sel(x ast.Expr, name string) *ast.SelectorExpr {
	return &ast.SelectorExpr{X: x, Sel: ast.NewIdent(name)}
}

func (r *rewriter) isChan(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		if id, isID := e.(*ast.Ident); isID {
			if o := r.info.Uses[id]; o != nil {
				return chanType(o.Type())
			}
			if o := r.info.Defs[id]; o != nil {
				return chanType(o.Type())
			}
		}
		return false
	}
	return chanType(tv.Type)
}

func chanType(t types.Type) bool {
	if t == nil {
		return false
	}
	if tp, ok := t.(*types.TypeParam); ok {
		t = tp.Constraint()
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) isMap(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Map)
	return ok
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func isRecv(e ast.Expr) *ast.UnaryExpr {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (r *rewriter) rewrite() []byte {
	r.commaOK, r.inSel = map[ast.Expr]bool{}, map[ast.Node]bool{}
	// build constraints survive; all other comments go
	var header []string
	for _, cg := range r.file.Comments {
		if cg.Pos() > r.file.Package {
			break
		}
		for _, c := range cg.List {
			if constraint.IsGoBuild(c.Text) {
				header = append(header, c.Text)
			}
		}
	}
	r.file.Comments = nil
	r.file.Doc = nil

	// first pass: contexts
	ast.Inspect(r.file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u := isRecv(n.Rhs[0]); u != nil {
					r.commaOK[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u := isRecv(n.Values[0]); u != nil {
					r.commaOK[u] = true
				}
			}
		case *ast.CommClause:
			switch s := n.Comm.(type) {
			case *ast.SendStmt:
				r.inSel[s] = true
			case *ast.ExprStmt:
				if u := isRecv(s.X); u != nil {
					r.inSel[u] = true
				}
			case *ast.AssignStmt:
				if u := isRecv(s.Rhs[0]); u != nil {
					r.inSel[u] = true
				}
			}
		}
		return true
	})
	r.findLeaves()
	f := r.walk(reflect.ValueOf(r.file)).Interface().(*ast.File)
	r.fixImports(f)

	var buf bytes.Buffer
	for _, h := range header {
		buf.WriteString(h + "\n\n")
	}
	cfg := printer.Config{Mode: printer.SourcePos | printer.TabIndent, Tabwidth: 8}
	if err := cfg.Fprint(&buf, r.fset, f); err != nil {
		fatal("%v", err)
	}
	return buf.Bytes()
}

var (
	nodeT = reflect.TypeOf((*ast.Node)(nil)).Elem()
	objT  = reflect.TypeOf((*ast.Object)(nil))
	scopT = reflect.TypeOf((*ast.Scope)(nil))
)

// walk rebuilds the tree bottom up in place, replacing nodes through post.
func (r *rewriter) walk(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := r.walk(v.Elem())
		out := reflect.New(v.Type()).Elem()
		out.Set(n)
		return out
	case reflect.Ptr:
		if v.IsNil() || v.Type() == objT || v.Type() == scopT || !v.Type().Implements(nodeT) {
			return v
		}
		s := v.Elem()
		if cg, ok := v.Interface().(*ast.CommentGroup); ok {
			_ = cg
			return reflect.Zero(v.Type())
		}
		for i := 0; i < s.NumField(); i++ {
			f := s.Field(i)
			name := s.Type().Field(i).Name
			if name == "Obj" || name == "Scope" || name == "Unresolved" || name == "Imports" || name == "Comments" {
				continue
			}
			switch f.Kind() {
			case reflect.Interface, reflect.Ptr:
				if f.Kind() == reflect.Interface && f.NumMethod() == 0 {
					continue
				}
				n := r.walk(f)
				if f.Type() != n.Type() && f.Kind() == reflect.Interface {
					f.Set(n)
				} else if n.Type().AssignableTo(f.Type()) {
					f.Set(n)
				}
			case reflect.Slice:
				for j := 0; j < f.Len(); j++ {
					e := f.Index(j)
					if e.Kind() == reflect.Interface || e.Kind() == reflect.Ptr {
						n := r.walk(e)
						if n.Type().AssignableTo(e.Type()) {
							e.Set(n)
						}
					}
				}
			}
		}
		old := v.Interface().(ast.Node)
		n := r.post(old)
		if oe, ok := old.(ast.Expr); ok && n != old {
			if ne, ok := n.(ast.Expr); ok {
				if tv, ok := r.info.Types[oe]; ok {
					r.info.Types[ne] = tv
				}
			}
		}
		return reflect.ValueOf(n)
	}
	return v
}

func (r *rewriter) post(n ast.Node) ast.Node {
	switch n := n.(type) {
	case *ast.ChanType:
		return &ast.StarExpr{X: &ast.IndexExpr{X: r.rt("vsched", "Chan"), Index: n.Value}}
	case *ast.TypeSpec:
		if o := r.info.Defs[n.Name]; o != nil && chanType(o.Type()) && n.TypeParams == nil {
			n.Assign = n.Name.End() // an alias: methods of the channel stay available
		}
	case *ast.SelectorExpr:
		return r.selector(n)
	case *ast.UnaryExpr:
		if n.Op == token.ARROW && !r.inSel[n] {
			if r.commaOK[n] {
				return call(sel(n.X, "Recv2"))
			}
			return call(sel(n.X, "Recv"))
		}
	case *ast.SendStmt:
		if !r.inSel[n] {
			return &ast.ExprStmt{X: call(sel(n.Chan, "Send"), n.Value)}
		}
	case *ast.CallExpr:
		return r.callExpr(n)
	case *ast.GoStmt:
		return r.goStmt(n)
	case *ast.RangeStmt:
		return r.rangeStmt(n)
	case *ast.BlockStmt:
		n.List = r.points(n.List)
	case *ast.CaseClause:
		n.Body = r.points(n.Body)
	case *ast.CommClause:
		n.Body = r.points(n.Body)
	case *ast.SelectStmt:
		return r.selectStmt(n)
	}
	return n
}

// findLeaves finds the functions that only compute with bytes and numbers they are passed: nothing in them is a
// scheduling point.
func (r *rewriter) findLeaves() {
	for _, d := range r.file.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || fn.Recv != nil || fn.Body == nil {
			continue
		}
		sig, ok := r.info.Defs[fn.Name].Type().(*types.Signature)
		if !ok || sig.TypeParams() != nil {
			continue
		}
		leaf := true
		for i := 0; i < sig.Params().Len(); i++ {
			t := sig.Params().At(i).Type().Underlying()
			switch u := t.(type) {
			case *types.Slice:
				t = u.Elem().Underlying()
			case *types.Array:
				t = u.Elem().Underlying()
			}
			if _, ok := t.(*types.Basic); !ok {
				leaf = false
			}
		}
		ast.Inspect(fn.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt, *ast.FuncLit:
				leaf = false
			case *ast.Ident:
				if v, ok := r.info.Uses[n].(*types.Var); ok && v.Parent() == r.pkg.Scope() {
					leaf = false
				}
			}
			return leaf
		})
		if leaf {
			r.leaves = append(r.leaves, [2]token.Pos{fn.Body.Pos(), fn.Body.End()})
		}
	}
}

// points puts a scheduling point in front of every statement that does something.
func (r *rewriter) points(list []ast.Stmt) []ast.Stmt {
	if !r.stmts || len(list) == 0 {
		return list
	}
	for _, l := range r.leaves {
		if l[0] <= list[0].Pos() && list[0].Pos() < l[1] {
			return list
		}
	}
	var out []ast.Stmt
	for _, s := range list {
		switch n := s.(type) {
		case *ast.CaseClause, *ast.CommClause: // the body of a switch or select
			return list
		case *ast.EmptyStmt, *ast.BranchStmt, *ast.DeferStmt:
		case *ast.ReturnStmt:
			if len(n.Results) > 0 {
				out = append(out, &ast.ExprStmt{X: call(r.rt("vsched", "Stmt"))})
			}
		case *ast.DeclStmt:
		default:
			out = append(out, &ast.ExprStmt{X: call(r.rt("vsched", "Stmt"))})
		}
		out = append(out, s)
	}
	return out
}

func (r *rewriter) selector(n *ast.SelectorExpr) ast.Node {
	id, ok := n.X.(*ast.Ident)
	if !ok {
		return n
	}
	pn, ok := r.info.Uses[id].(*types.PkgName)
	if !ok {
		return n
	}
	path := pn.Imported().Path()
	repl, ok := r.shims[path]
	if !ok {
		return n
	}
	if r.names[path][n.Sel.Name] {
		return &ast.SelectorExpr{X: &ast.Ident{NamePos: id.NamePos, Name: r.local(repl)}, Sel: n.Sel}
	}
	return n
}

func (r *rewriter) callExpr(n *ast.CallExpr) ast.Node {
	id, ok := unparen(n.Fun).(*ast.Ident)
	if !ok {
		return n
	}
	b, ok := r.info.Uses[id].(*types.Builtin)
	if !ok {
		return n
	}
	switch b.Name() {
	case "close":
		return call(sel(n.Args[0], "Close"))
	case "len":
		if r.isChan(n.Args[0]) {
			return call(sel(n.Args[0], "Len"))
		}
	case "cap":
		if r.isChan(n.Args[0]) {
			return call(sel(n.Args[0], "Cap"))
		}
	case "make":
		tv := r.info.Types[n]
		if tv.Type == nil {
			return n
		}
		if chanType(tv.Type) {
			var elem ast.Expr
			if st, ok := n.Args[0].(*ast.StarExpr); ok {
				if ix, ok := st.X.(*ast.IndexExpr); ok {
					elem = ix.Index
				}
			}
			var args []ast.Expr
			for _, a := range n.Args[1:] {
				args = append(args, call(ast.NewIdent("int"), a))
			}
			if elem != nil {
				return call(&ast.IndexExpr{X: r.rt("vsched", "MakeChan"), Index: elem}, args...)
			}
			// a named channel type: an alias of *Chan[T]
			return call(r.rt("vsched", "MakeFor"), append([]ast.Expr{call(&ast.ParenExpr{X: n.Args[0]}, ast.NewIdent("nil"))}, args...)...)
		}
		if _, ok := tv.Type.Underlying().(*types.Map); ok && len(n.Args) == 2 {
			if r.info.Types[n.Args[1]].Value != nil {
				n.Args = n.Args[:1] // size hints of thousands of entries only cost time
			}
		}
	}
	return n
}

func (r *rewriter) site(n ast.Node) ast.Expr {
	p := r.fset.Position(n.Pos())
	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line))}
}

func (r *rewriter) goStmt(n *ast.GoStmt) ast.Node {
	c := n.Call
	site := r.site(n)
	if lit, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		if lit.Type.Results == nil {
			return &ast.ExprStmt{X: call(r.rt("vsched", "Go"), site, lit)}
		}
	}
	var pre []ast.Stmt
	hoist := func(e ast.Expr, orig ast.Expr) ast.Expr {
		tv := r.info.Types[orig]
		if tv.Value != nil || tv.IsNil() || tv.IsBuiltin() || tv.IsType() {
			return e
		}
		if _, ok := e.(*ast.FuncLit); ok {
			return e
		}
		v := r.fresh("g")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return v
	}
	fun := c.Fun
	isBuiltin := false
	if id, ok := unparen(fun).(*ast.Ident); ok {
		_, isBuiltin = r.info.Uses[id].(*types.Builtin)
		if _, isFunc := r.info.Uses[id].(*types.Func); isFunc {
			isBuiltin = true // a plain function: nothing to evaluate
		}
	}
	if !isBuiltin {
		fun = hoist(fun, c.Fun)
	}
	args := make([]ast.Expr, len(c.Args))
	for i, a := range c.Args {
		args[i] = hoist(a, a)
	}
	inner := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: c.Ellipsis}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
	pre = append(pre, &ast.ExprStmt{X: call(r.rt("vsched", "Go"), site, lit)})
	return &ast.BlockStmt{List: pre}
}

func (r *rewriter) rangeStmt(n *ast.RangeStmt) ast.Node {
	blank := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return e == nil || (ok && id.Name == "_")
	}
	switch {
	case r.isChan(n.X):
		c, ok := r.fresh("c"), r.fresh("ok")
		var lhs ast.Expr = ast.NewIdent("_")
		f := &ast.ForStmt{Body: n.Body, For: n.For}
		init := &ast.AssignStmt{Lhs: []ast.Expr{c, ok, ast.NewIdent("_")}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.rt("vsched", "RangeChan"), n.X)}}
		if !blank(n.Key) {
			lhs = n.Key
			if n.Tok == token.DEFINE {
				init.Lhs[2] = n.Key
				lhs = ast.NewIdent(n.Key.(*ast.Ident).Name)
			}
		}
		f.Init = init
		recv := &ast.AssignStmt{Lhs: []ast.Expr{lhs, ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{call(sel(c, "Recv2"))}}
		stop := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
		f.Body.List = append([]ast.Stmt{recv, stop}, f.Body.List...)
		return f
	case r.isMap(n.X):
		it := r.fresh("it")
		f := &ast.ForStmt{Body: n.Body, For: n.For, Cond: call(sel(it, "Next"))}
		if blank(n.Key) && blank(n.Value) {
			f.Init = &ast.AssignStmt{Lhs: []ast.Expr{it}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.rt("vsched", "Iter"), n.X)}}
			return f
		}
		k, v := n.Key, n.Value
		if k == nil {
			k = ast.NewIdent("_")
		}
		if v == nil {
			v = ast.NewIdent("_")
		}
		if n.Tok == token.DEFINE {
			f.Init = &ast.AssignStmt{Lhs: []ast.Expr{it, k, v}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.rt("vsched", "IterKV"), n.X)}}
			k, v = ast.NewIdent(k.(*ast.Ident).Name), ast.NewIdent(v.(*ast.Ident).Name)
		} else {
			f.Init = &ast.AssignStmt{Lhs: []ast.Expr{it}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.rt("vsched", "Iter"), n.X)}}
		}
		set := &ast.AssignStmt{Lhs: []ast.Expr{k, v}, Tok: token.ASSIGN, Rhs: []ast.Expr{sel(it, "Key"), sel(it, "Val")}}
		f.Body.List = append([]ast.Stmt{set}, f.Body.List...)
		return f
	}
	return n
}

func (r *rewriter) selectStmt(n *ast.SelectStmt) ast.Node {
	if len(n.Body.List) == 0 {
		return &ast.ExprStmt{X: call(ast.NewIdent("panic"), call(r.rt("vsched", "BlockForever")))}
	}
	var lhs, rhs, cases []ast.Expr
	hasDef := "false"
	sw := &ast.SwitchStmt{Switch: n.Select, Body: &ast.BlockStmt{Lbrace: n.Body.Lbrace, Rbrace: n.Body.Rbrace}}
	i := 0
	for _, st := range n.Body.List {
		cc := st.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Case: cc.Case, List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "-1"}}, Body: cc.Body})
			continue
		}
		c := r.fresh("s")
		body := cc.Body
		var mk ast.Expr
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			mk = call(sel(s.Chan, "SendCase"), s.Value)
		case *ast.ExprStmt:
			mk = call(sel(isRecv(s.X).X, "RecvCase"))
		case *ast.AssignStmt:
			mk = call(sel(isRecv(s.Rhs[0]).X, "RecvCase"))
			a := &ast.AssignStmt{Lhs: s.Lhs, Tok: s.Tok, Rhs: []ast.Expr{sel(c, "V")}}
			if len(s.Lhs) == 2 {
				a.Rhs = append(a.Rhs, sel(c, "OK"))
			}
			allBlank := true
			for _, l := range s.Lhs {
				if id, ok := l.(*ast.Ident); !ok || id.Name != "_" {
					allBlank = false
				}
			}
			if !allBlank {
				body = append([]ast.Stmt{a}, body...)
			}
		default:
			fatal("%s: select case not understood", r.fset.Position(cc.Pos()))
		}
		lhs, rhs, cases = append(lhs, c), append(rhs, mk), append(cases, ast.NewIdent(c.Name))
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Case: cc.Case, List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)}}, Body: body})
		i++
	}
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}})
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	sw.Tag = call(r.rt("vsched", "Select"), append([]ast.Expr{ast.NewIdent(hasDef)}, cases...)...)
	return sw
}

func (r *rewriter) fixImports(f *ast.File) {
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
					used[pn.Imported().Path()+" "+pn.Name()] = true
				}
			}
		}
		return true
	})
	var decls []ast.Decl
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		var specs []ast.Spec
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			var pn *types.PkgName
			if is.Name != nil {
				pn, _ = r.info.Defs[is.Name].(*types.PkgName)
			} else {
				pn, _ = r.info.Implicits[is].(*types.PkgName)
			}
			keep := true
			if pn != nil && pn.Name() != "_" && pn.Name() != "." {
				keep = used[pn.Imported().Path()+" "+pn.Name()]
			}
			if keep {
				specs = append(specs, s)
			}
		}
		if len(specs) > 0 {
			g.Specs = specs
			if len(specs) > 1 {
				g.Lparen = g.TokPos + 1
			}
			decls = append(decls, g)
		}
	}
	var paths []string
	for p := range r.need {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	var imp []ast.Decl
	for _, p := range paths {
		imp = append(imp, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
			Name: ast.NewIdent(r.need[p]), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(p)}}}})
	}
	f.Decls = append(imp, decls...)
}
