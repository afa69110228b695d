// Command rewrite turns the current working tree of the repository under test
// into the simulated build: it type-checks every in-scope package, replaces
// each source of nondeterminism (goroutines, channels, select, map iteration,
// and the packages os, sync, time, ... ) by the simulator's counterpart, and
// writes the results with an overlay file for `go build -overlay`.
// It works on whatever the tree contains; it knows no names of the repository.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

const module = "github.com/KitchenMishap/pudding-shed"
const simBase = module + "/verifsim/"

var shims = map[string]string{
	"os": "simos", "sync": "simsync", "sync/atomic": "simatomic", "time": "simtime", "runtime": "simruntime",
	"fmt": "simfmt", "log": "simlog", "path/filepath": "simfilepath", "github.com/edsrzf/mmap-go": "simmmap",
	"net/http": "simhttp", "bufio": "simbufio", "context": "simcontext", "io/ioutil": "simioutil",
}

type pkgInfo struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	ImportMap  map[string]string
	Error      *struct{ Err string }
}

var noYield = flag.String("noyield", "", "comma separated package path suffixes without statement preemption points")
var scale = flag.String("scale", "", "PKG=N: the constants N and N-1 of package PKG become adjustable (simrt.Scale)")
var noHook = flag.String("nohook", "", "comma separated hook files to leave out")

func fatal(f string, a ...any) { fmt.Fprintf(os.Stderr, "rewrite: "+f+"\n", a...); os.Exit(3) }

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "output directory")
	src := flag.String("sim", "", "directory holding the simulator packages to inject")
	modfile := flag.String("modfile", "", "")
	tags := flag.String("tags", "verif", "")
	flag.Parse()
	pkgs := flag.Args()

	args := []string{"list", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,Export,Standard,ImportMap,Error", "-tags", *tags, "-modfile", *modfile}
	args = append(args, pkgs...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	var eb bytes.Buffer
	cmd.Stderr = &eb
	o, err := cmd.Output()
	if err != nil {
		fatal("go list: %v\n%s", err, eb.String())
	}
	var list []*pkgInfo
	dec := json.NewDecoder(bytes.NewReader(o))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		list = append(list, &p)
	}
	exports := map[string]string{}
	for _, p := range list {
		exports[p.ImportPath] = p.Export
	}
	fset := token.NewFileSet()
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	checked := map[string]*types.Package{}
	overlay := map[string]string{}
	files := 0
	for _, p := range list {
		if p.Standard || !(p.ImportPath == module || strings.HasPrefix(p.ImportPath, module+"/")) {
			continue
		}
		var fs []*ast.File
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				fatal("%v", err)
			}
			fs = append(fs, af)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}}
		conf := types.Config{Importer: imp{gc, checked, p.ImportMap}, Sizes: types.SizesFor("gc", "amd64")}
		tp, err := conf.Check(p.ImportPath, fset, fs, info)
		if err != nil {
			fatal("type check %s: %v", p.ImportPath, err)
		}
		checked[p.ImportPath] = tp
		yield := true
		for _, n := range strings.Split(*noYield, ",") {
			if n != "" && strings.HasPrefix(strings.TrimPrefix(p.ImportPath, module+"/")+"/", n) {
				yield = false
			}
		}
		for i, af := range fs {
			r := &rw{fset: fset, info: info, pkg: tp, yield: yield}
			if p, n, ok := strings.Cut(*scale, "="); ok && tp.Path() == module+"/"+p {
				r.scale, _ = strconv.ParseInt(n, 10, 64)
			}
			r.file(af)
			var buf bytes.Buffer
			if err := format.Node(&buf, token.NewFileSet(), af); err != nil {
				fatal("print %s: %v", p.GoFiles[i], err)
			}
			rel := strings.ReplaceAll(strings.TrimPrefix(p.ImportPath, module), "/", "_") + "_" + p.GoFiles[i]
			dst := filepath.Join(*out, "src", rel)
			os.MkdirAll(filepath.Dir(dst), 0755)
			if err := os.WriteFile(dst, buf.Bytes(), 0644); err != nil {
				fatal("%v", err)
			}
			overlay[filepath.Join(p.Dir, p.GoFiles[i])] = dst
			files++
		}
	}
	// inject the simulator's own packages
	filepath.Walk(*src, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			fatal("%v", err)
		}
		if !fi.IsDir() && strings.HasSuffix(path, ".go") {
			rel, _ := filepath.Rel(*src, path)
			if h, ok := strings.CutPrefix(rel, "hooks"+string(filepath.Separator)); ok {
				// hooks/PKG/x.go goes into the repository's package PKG
				if _, err := os.Stat(filepath.Join(*repo, filepath.Dir(h))); err == nil && !strings.Contains(","+*noHook+",", ","+h+",") {
					overlay[filepath.Join(*repo, filepath.Dir(h), "zz_verif_"+filepath.Base(h))] = path
				}
				return nil
			}
			overlay[filepath.Join(*repo, "verifsim", rel)] = path
		}
		return nil
	})
	gen := filepath.Join(*out, "src", "swapped.go")
	if err := os.WriteFile(gen, []byte(fmt.Sprintf("package simrt\n\nfunc init() { Swapped = %#v }\n", swapped)), 0644); err != nil {
		fatal("%v", err)
	}
	overlay[filepath.Join(*repo, "verifsim", "simrt", "zz_swapped.go")] = gen
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("rewrote %d files\n", files)
}

type imp struct {
	gc      types.Importer
	checked map[string]*types.Package
	m       map[string]string
}

func (i imp) Import(path string) (*types.Package, error) {
	if m, ok := i.m[path]; ok {
		path = m
	}
	if p, ok := i.checked[path]; ok {
		return p, nil
	}
	return i.gc.Import(path)
}

type rw struct {
	fset     *token.FileSet
	info     *types.Info
	pkg      *types.Package
	yield    bool
	scale    int64
	exact    bool // here constants are not to be scaled
	compared bool // this operand is compared with something
	uses     bool
	n        int
	funcs    []ast.Node // enclosing functions
}

func (r *rw) tmp(p string) *ast.Ident { r.n++; return ast.NewIdent("_sim" + p + strconv.Itoa(r.n)) }
func (r *rw) sim(name string) ast.Expr {
	r.uses = true
	return &ast.SelectorExpr{X: ast.NewIdent("simrt_"), Sel: ast.NewIdent(name)}
}
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }
func method(x ast.Expr, name string, a ...ast.Expr) *ast.CallExpr {
	switch x.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.IndexExpr, *ast.CallExpr, *ast.ParenExpr:
	default:
		x = &ast.ParenExpr{X: x}
	}
	return call(&ast.SelectorExpr{X: x, Sel: ast.NewIdent(name)}, a...)
}
func define(tok token.Token, l []ast.Expr, rr ...ast.Expr) *ast.AssignStmt {
	return &ast.AssignStmt{Lhs: l, Tok: tok, Rhs: rr}
}

func (r *rw) file(f *ast.File) {
	for _, d := range f.Decls {
		r.decl(d)
	}
	for _, i := range f.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		if s, ok := shims[p]; ok {
			i.Path.Value = strconv.Quote(simBase + s)
		}
	}
	if r.uses {
		spec := &ast.ImportSpec{Name: ast.NewIdent("simrt_"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(simBase + "simrt")}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
	f.Comments = nil
	stripPos(f)
}

// stripPos zeroes positions so that the printer lays the file out afresh.
func stripPos(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			x.Doc = nil
			x.TokPos = 0
			if len(x.Specs) > 1 || x.Lparen != 0 {
				x.Lparen = 1
			}
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
}

func (r *rw) decl(d ast.Decl) {
	switch d := d.(type) {
	case *ast.GenDecl:
		if d.Tok == token.CONST {
			r.exactly(func() {
				for _, s := range d.Specs {
					r.spec(s)
				}
			})
			return
		}
		for _, s := range d.Specs {
			r.spec(s)
		}
	case *ast.FuncDecl:
		if d.Recv != nil {
			r.fields(d.Recv)
		}
		r.funcType(d.Type)
		if d.Body != nil {
			r.funcs = append(r.funcs, d)
			r.block(d.Body)
			r.funcs = r.funcs[:len(r.funcs)-1]
			if r.yield {
				d.Body.List = append([]ast.Stmt{r.p()}, d.Body.List...)
			}
		}
	}
}

func (r *rw) spec(s ast.Spec) {
	switch s := s.(type) {
	case *ast.ValueSpec:
		if s.Type != nil {
			s.Type = r.expr(s.Type)
		}
		if len(s.Names) == 2 && len(s.Values) == 1 {
			if u, ok := ast.Unparen(s.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				s.Values[0] = method(r.expr(u.X), "Recv2")
				return
			}
		}
		r.exprs(s.Values)
	case *ast.TypeSpec:
		if s.TypeParams != nil {
			r.fields(s.TypeParams)
		}
		s.Type = r.expr(s.Type)
	}
}

func (r *rw) fields(f *ast.FieldList) {
	if f == nil {
		return
	}
	for _, x := range f.List {
		x.Type = r.expr(x.Type)
	}
}
func (r *rw) funcType(t *ast.FuncType) {
	r.fields(t.TypeParams)
	r.fields(t.Params)
	r.fields(t.Results)
}
func (r *rw) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	if t := r.info.TypeOf(e); t != nil {
		return t
	}
	return types.Typ[types.Invalid]
}
func core(t types.Type) types.Type {
	u := t.Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		if i, ok := tp.Constraint().Underlying().(*types.Interface); ok && i.NumEmbeddeds() == 1 {
			if un, ok := i.EmbeddedType(0).(*types.Union); ok && un.Len() == 1 {
				return un.Term(0).Type().Underlying()
			}
			return i.EmbeddedType(0).Underlying()
		}
	}
	return u
}
func (r *rw) isChan(e ast.Expr) bool { _, ok := core(r.typeOf(e)).(*types.Chan); return ok }

func (r *rw) builtin(e ast.Expr) string {
	if id, ok := ast.Unparen(e).(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

// scaled makes a capacity that is a constant of the program adjustable, so that
// what happens when it is reached can happen in a short run.
func (r *rw) scaled(e ast.Expr) ast.Expr {
	if r.scale == 0 || r.exact || len(r.funcs) == 0 {
		return nil
	}
	switch x := e.(type) {
	case *ast.BasicLit:
		if !r.compared && (strings.HasPrefix(x.Value, "0x") || strings.HasPrefix(x.Value, "0X")) {
			return nil
		}
	case *ast.Ident, *ast.SelectorExpr, *ast.BinaryExpr:
	default:
		return nil
	}
	tv := r.info.Types[e]
	if id, ok := e.(*ast.Ident); ok {
		if c, ok := r.info.Uses[id].(*types.Const); !ok || c.Pkg() != r.pkg {
			return nil
		}
	}
	if tv.Value == nil || tv.Value.Kind() != constant.Int {
		return nil
	}
	n, ok := constant.Int64Val(tv.Value)
	if !ok || n != r.scale && n != r.scale-1 {
		return nil
	}
	t := "int"
	if b, ok := tv.Type.(*types.Basic); !ok || b.Info()&types.IsUntyped == 0 {
		t = types.TypeString(tv.Type, types.RelativeTo(r.pkg))
		if strings.Contains(t, "/") {
			return nil
		}
	}
	return call(ast.NewIdent(t), call(r.sim("Scaled"), &ast.BasicLit{Kind: token.INT, Value: strconv.FormatInt(r.scale-n, 10)}))
}

// digits: a call that creates a store of numbered arrays, whose third argument
// says (in decimal digits) how many arrays go into one file. Every access to
// such a file costs as much as it has arrays, so most runs use fewer.
func (r *rw) digits(x *ast.CallExpr) bool {
	var id *ast.Ident
	switch f := ast.Unparen(x.Fun).(type) {
	case *ast.Ident:
		id = f
	case *ast.SelectorExpr:
		id = f.Sel
	default:
		return false
	}
	f, ok := r.info.Uses[id].(*types.Func)
	if !ok || f.Pkg() == nil || f.Pkg().Path() != module+"/intarrayarray" || f.Name() != "NewConcreteMapStoreCreator" {
		return false
	}
	p := f.Type().(*types.Signature).Params()
	return len(x.Args) == p.Len() && p.Len() == 6 && types.Identical(p.At(2).Type(), types.Typ[types.Int64])
}

// callOf: a call of the named function of a package of the repository
func (r *rw) callOf(x *ast.CallExpr, pkg, name string) bool {
	f := r.callee(x)
	return f != nil && f.Pkg().Path() == module+"/"+pkg && f.Name() == name
}

func (r *rw) callee(x *ast.CallExpr) *types.Func {
	var id *ast.Ident
	switch f := ast.Unparen(x.Fun).(type) {
	case *ast.Ident:
		id = f
	case *ast.SelectorExpr:
		id = f.Sel
	default:
		return nil
	}
	f, ok := r.info.Uses[id].(*types.Func)
	if !ok || f.Pkg() == nil || f.Type().(*types.Signature).Recv() != nil {
		return nil
	}
	return f
}

// sensible: a call, from outside its package, of one of the functions that give
// the parameters of the index of a whole year's hashes. They are made for so
// many hashes that a simulated run replaces them by parameters of its own.
func (r *rw) sensible(x *ast.CallExpr) string {
	f := r.callee(x)
	if f == nil || len(x.Args) > 0 || f.Pkg() == r.pkg || f.Pkg().Path() != module+"/indexedhashes3" {
		return ""
	}
	m := sensibleName.FindStringSubmatch(f.Name())
	if m == nil {
		return ""
	}
	return m[1]
}

var sensibleName = regexp.MustCompile("^Sensible[0-9]+Years(Block|Transaction|Address)HashParams$")
var swapped = map[string]int{}

func (r *rw) exactly(f func()) {
	was := r.exact
	r.exact = true
	f()
	r.exact = was
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	if e != nil {
		if x := r.scaled(e); x != nil {
			return x
		}
	}
	r.compared = false
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.ChanType:
		return &ast.StarExpr{X: &ast.IndexExpr{X: r.sim("Chan"), Index: r.expr(x.Value)}}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return method(r.expr(x.X), "Recv")
		}
		x.X = r.expr(x.X)
	case *ast.CallExpr:
		switch r.builtin(x.Fun) {
		case "make":
			if r.isChan(x.Args[0]) {
				var rest []ast.Expr
				for _, a := range x.Args[1:] {
					// capacity may be any integer type
					rest = append(rest, call(ast.NewIdent("int"), r.expr(a)))
				}
				if ct, ok := ast.Unparen(x.Args[0]).(*ast.ChanType); ok {
					return call(&ast.IndexExpr{X: r.sim("MakeChan"), Index: r.expr(ct.Value)}, rest...)
				}
				return call(&ast.IndexExpr{X: r.sim("MakeFor"), Index: r.expr(x.Args[0])}, rest...)
			}
		case "close":
			return method(r.expr(x.Args[0]), "Close")
		case "len":
			if r.isChan(x.Args[0]) {
				return method(r.expr(x.Args[0]), "Len")
			}
		case "cap":
			if r.isChan(x.Args[0]) {
				return method(r.expr(x.Args[0]), "Cap")
			}
		}
		dig := *scale != "" && r.digits(x)
		if *scale != "" {
			if k := r.sensible(x); k != "" {
				swapped[k]++
				return call(r.sim("Swap"), &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(k)}, x.Fun)
			}
			if r.callOf(x, "indexedhashes3", "NewBinsArray") && len(x.Args) == 3 && r.pkg.Path() == module+"/jobs" && types.Identical(r.typeOf(x.Args[2]), types.Typ[types.Int64]) {
				swapped["bins"]++
				r.exprs(x.Args)
				x.Args[2] = call(r.sim("BinsPerPass"), x.Args[2])
				return x
			}
		}
		x.Fun = r.expr(x.Fun)
		r.exprs(x.Args)
		if dig {
			x.Args[2] = call(r.sim("Digits"), x.Args[2])
		}
	case *ast.FuncLit:
		r.funcType(x.Type)
		r.funcs = append(r.funcs, x)
		r.block(x.Body)
		r.funcs = r.funcs[:len(r.funcs)-1]
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
	case *ast.SelectorExpr:
		x.X = r.expr(x.X)
	case *ast.IndexExpr:
		x.X = r.expr(x.X)
		x.Index = r.expr(x.Index)
	case *ast.IndexListExpr:
		x.X = r.expr(x.X)
		r.exprs(x.Indices)
	case *ast.SliceExpr:
		x.X, x.Low, x.High, x.Max = r.expr(x.X), r.nexpr(x.Low), r.nexpr(x.High), r.nexpr(x.Max)
	case *ast.TypeAssertExpr:
		x.X, x.Type = r.expr(x.X), r.nexpr(x.Type)
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	case *ast.BinaryExpr:
		switch x.Op {
		case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR:
			r.exactly(func() { x.X, x.Y = r.expr(x.X), r.expr(x.Y) })
			return x
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			r.compared = true
			x.X = r.expr(x.X)
			r.compared = true
			x.Y = r.expr(x.Y)
			r.compared = false
			return x
		}
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
	case *ast.KeyValueExpr:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
	case *ast.CompositeLit:
		x.Type = r.nexpr(x.Type)
		r.exprs(x.Elts)
	case *ast.ArrayType:
		r.exactly(func() { x.Len = r.nexpr(x.Len) })
		x.Elt = r.expr(x.Elt)
	case *ast.MapType:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
	case *ast.StructType:
		r.fields(x.Fields)
	case *ast.InterfaceType:
		r.fields(x.Methods)
	case *ast.FuncType:
		r.funcType(x)
	case *ast.Ellipsis:
		x.Elt = r.nexpr(x.Elt)
	}
	return e
}
func (r *rw) nexpr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	return r.expr(e)
}

func (r *rw) p() ast.Stmt { return &ast.ExprStmt{X: call(r.sim("P"))} }

func (r *rw) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.stmts(b.List)
	}
}
func (r *rw) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if r.yield {
			switch s.(type) {
			case *ast.DeclStmt, *ast.EmptyStmt, *ast.BranchStmt, *ast.BlockStmt:
			default:
				out = append(out, r.p())
			}
		}
		out = append(out, r.stmt(s))
	}
	return out
}

func (r *rw) recv2(s *ast.AssignStmt) bool {
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		if u, ok := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			s.Rhs[0] = method(r.expr(u.X), "Recv2")
			return true
		}
	}
	return false
}

func (r *rw) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	return r.stmt2(s, false)
}
func (r *rw) stmt(s ast.Stmt) ast.Stmt { return r.stmt2(s, true) }

// shared reports whether e may denote memory visible to another goroutine.
func (r *rw) shared(e ast.Expr) bool {
	switch x := ast.Unparen(e).(type) {
	case *ast.SelectorExpr, *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		if _, ok := core(r.typeOf(x.X)).(*types.Map); ok {
			return false
		}
		return true
	case *ast.Ident:
		v, ok := r.info.Uses[x].(*types.Var)
		if !ok || len(r.funcs) == 0 {
			return false
		}
		f := r.funcs[len(r.funcs)-1]
		return v.Pos() < f.Pos() || v.Pos() > f.End()
	}
	return false
}

// updates reports whether rhs makes the new value of lhs from what it reads:
// an append or an operation, of the very type of lhs.
func (r *rw) updates(lhs, rhs ast.Expr) bool {
	lt, rt := r.info.Types[lhs].Type, r.info.Types[rhs].Type
	if lt == nil || rt == nil || r.info.Types[rhs].Value != nil || !types.Identical(lt, rt) {
		return false
	}
	switch x := ast.Unparen(rhs).(type) {
	case *ast.CallExpr:
		return r.builtin(x.Fun) == "append"
	case *ast.BinaryExpr:
		return !hasCall(x)
	}
	return false
}
func hasCall(e ast.Expr) bool {
	h := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			h = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				h = true
			}
		}
		return !h
	})
	return h
}

func (r *rw) stmt2(s ast.Stmt, list bool) ast.Stmt {
	switch x := s.(type) {
	case *ast.BlockStmt:
		r.block(x)
	case *ast.DeclStmt:
		r.decl(x.Decl)
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: method(r.expr(x.Chan), "Send", r.expr(x.Value))}
	case *ast.IncDecStmt:
		if list && r.yield && r.shared(x.X) {
			op := token.ADD
			if x.Tok == token.DEC {
				op = token.SUB
			}
			return r.rmw(x.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"})
		}
		x.X = r.expr(x.X)
	case *ast.AssignStmt:
		if r.recv2(x) {
			r.exprs(x.Lhs)
			return x
		}
		if list && r.yield && len(x.Lhs) == 1 && x.Tok != token.ASSIGN && x.Tok != token.DEFINE && r.shared(x.Lhs[0]) && !hasCall(x.Rhs[0]) {
			ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND, token.XOR_ASSIGN: token.XOR}
			if op, ok := ops[x.Tok]; ok {
				return r.rmw(x.Lhs[0], op, x.Rhs[0])
			}
		}
		if list && r.yield && x.Tok == token.ASSIGN && len(x.Lhs) == 1 && len(x.Rhs) == 1 && r.shared(x.Lhs[0]) && r.updates(x.Lhs[0], x.Rhs[0]) {
			// what is read and what is written may be separated by another goroutine
			pt, v := r.tmp("p"), r.tmp("v")
			return &ast.BlockStmt{List: []ast.Stmt{
				define(token.DEFINE, []ast.Expr{pt}, &ast.UnaryExpr{Op: token.AND, X: &ast.ParenExpr{X: r.expr(x.Lhs[0])}}),
				define(token.DEFINE, []ast.Expr{v}, r.expr(x.Rhs[0])),
				r.p(),
				define(token.ASSIGN, []ast.Expr{&ast.StarExpr{X: pt}}, v),
			}}
		}
		r.exprs(x.Lhs)
		r.exprs(x.Rhs)
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		x.Call = r.expr(x.Call).(*ast.CallExpr)
	case *ast.ReturnStmt:
		r.exprs(x.Results)
	case *ast.IfStmt:
		x.Init = r.simple(x.Init)
		x.Cond = r.expr(x.Cond)
		r.block(x.Body)
		if x.Else != nil {
			x.Else = r.stmt(x.Else)
		}
	case *ast.CaseClause:
		r.exprs(x.List)
		x.Body = r.stmts(x.Body)
	case *ast.SwitchStmt:
		x.Init = r.simple(x.Init)
		x.Tag = r.nexpr(x.Tag)
		r.clauses(x.Body)
	case *ast.TypeSwitchStmt:
		x.Init = r.simple(x.Init)
		x.Assign = r.simple(x.Assign)
		r.clauses(x.Body)
	case *ast.SelectStmt:
		return r.selectStmt(x, nil)
	case *ast.LabeledStmt:
		if sel, ok := x.Stmt.(*ast.SelectStmt); ok {
			return r.selectStmt(sel, x.Label)
		}
		inner := r.stmt2(x.Stmt, false)
		if b, ok := inner.(*ast.BlockStmt); ok && len(b.List) > 0 {
			if _, was := x.Stmt.(*ast.BlockStmt); !was {
				// a statement that grew a prologue: keep the label on its last part
				b.List[len(b.List)-1] = &ast.LabeledStmt{Label: x.Label, Stmt: b.List[len(b.List)-1]}
				return b
			}
		}
		x.Stmt = inner
	case *ast.ForStmt:
		x.Init, x.Post = r.simple(x.Init), r.simple(x.Post)
		x.Cond = r.nexpr(x.Cond)
		r.block(x.Body)
		if r.yield && len(x.Body.List) == 0 {
			x.Body.List = []ast.Stmt{r.p()}
		}
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	}
	return s
}

func (r *rw) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		r.stmt2(c, false)
	}
}

func (r *rw) rmw(lhs ast.Expr, op token.Token, rhs ast.Expr) ast.Stmt {
	pt, v := r.tmp("p"), r.tmp("v")
	return &ast.BlockStmt{List: []ast.Stmt{
		define(token.DEFINE, []ast.Expr{pt}, &ast.UnaryExpr{Op: token.AND, X: &ast.ParenExpr{X: r.expr(lhs)}}),
		define(token.DEFINE, []ast.Expr{v}, &ast.StarExpr{X: pt}),
		r.p(),
		define(token.ASSIGN, []ast.Expr{&ast.StarExpr{X: pt}}, &ast.BinaryExpr{X: v, Op: op, Y: &ast.ParenExpr{X: r.expr(rhs)}}),
	}}
}

func (r *rw) goStmt(g *ast.GoStmt) ast.Stmt {
	c := g.Call
	if fl, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		return &ast.ExprStmt{X: call(r.sim("Go"), r.expr(fl))}
	}
	var pre []ast.Stmt
	sig, _ := core(r.typeOf(c.Fun)).(*types.Signature)
	bi := r.builtin(c.Fun)
	args := make([]ast.Expr, len(c.Args))
	for i, a := range c.Args {
		tv := r.info.Types[a]
		inline := tv.Value != nil || tv.IsNil() || tv.IsType()
		ne := r.expr(a)
		if inline || bi == "make" || bi == "new" {
			args[i] = ne
			continue
		}
		t := r.tmp("a")
		pre = append(pre, define(token.DEFINE, []ast.Expr{t}, ne))
		args[i] = t
	}
	fun := c.Fun
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		if _, isVar := r.info.Uses[f].(*types.Var); isVar {
			t := r.tmp("f")
			pre = append(pre, define(token.DEFINE, []ast.Expr{t}, r.expr(fun)))
			fun = t
		}
	case *ast.SelectorExpr:
		if r.info.Selections[f] != nil { // method value or field: bind now
			t := r.tmp("f")
			pre = append(pre, define(token.DEFINE, []ast.Expr{t}, r.expr(fun)))
			fun = t
		}
	case *ast.FuncLit:
		t := r.tmp("f")
		pre = append(pre, define(token.DEFINE, []ast.Expr{t}, r.expr(fun)))
		fun = t
	case *ast.IndexExpr, *ast.IndexListExpr:
		fun = r.expr(fun)
	default:
		t := r.tmp("f")
		pre = append(pre, define(token.DEFINE, []ast.Expr{t}, r.expr(fun)))
		fun = t
	}
	_ = sig
	var inner ast.Expr
	cc := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: c.Ellipsis}
	inner = cc
	if bi == "close" {
		inner = method(args[0], "Close")
	}
	body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
	pre = append(pre, &ast.ExprStmt{X: call(r.sim("Go"), body)})
	return &ast.BlockStmt{List: pre}
}

func (r *rw) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	switch core(r.typeOf(x.X)).(type) {
	case *types.Chan:
		ch := r.tmp("c")
		ok := r.tmp("ok")
		var recv []ast.Stmt
		src := method(ch, "Recv2")
		if x.Key == nil {
			recv = append(recv, define(token.DEFINE, []ast.Expr{ast.NewIdent("_"), ok}, src))
		} else if x.Tok == token.DEFINE {
			recv = append(recv, define(token.DEFINE, []ast.Expr{x.Key, ok}, src))
		} else {
			v := r.tmp("v")
			recv = append(recv, define(token.DEFINE, []ast.Expr{v, ok}, src))
			recv = append(recv, define(token.ASSIGN, []ast.Expr{r.expr(x.Key)}, v))
		}
		brk := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
		// with plain assignment the variable keeps its old value at the end
		list := append([]ast.Stmt{recv[0], brk}, recv[1:]...)
		chx := r.expr(x.X)
		r.block(x.Body)
		list = append(list, x.Body)
		return &ast.BlockStmt{List: []ast.Stmt{
			define(token.DEFINE, []ast.Expr{ch}, chx),
			&ast.ForStmt{Body: &ast.BlockStmt{List: list}},
		}}
	case *types.Map:
		if pointerKey(core(r.typeOf(x.X)).(*types.Map).Key()) {
			break
		}
		if x.Key == nil {
			break
		}
		m, k, ok := r.tmp("m"), r.tmp("k"), r.tmp("ok")
		var list []ast.Stmt
		var val ast.Expr = ast.NewIdent("_")
		hasVal := x.Value != nil && !isBlank(x.Value)
		vt := r.tmp("v")
		if hasVal {
			val = vt
		}
		mx := r.expr(x.X)
		list = append(list, define(token.DEFINE, []ast.Expr{val, ok}, &ast.IndexExpr{X: m, Index: k}))
		list = append(list, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		tok := x.Tok
		if !isBlank(x.Key) {
			list = append(list, define(tok, []ast.Expr{r.expr(x.Key)}, k))
		}
		if hasVal {
			list = append(list, define(tok, []ast.Expr{r.expr(x.Value)}, vt))
		}
		r.block(x.Body)
		list = append(list, x.Body)
		return &ast.BlockStmt{List: []ast.Stmt{
			define(token.DEFINE, []ast.Expr{m}, mx),
			&ast.RangeStmt{Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE, X: call(r.sim("MapKeys"), m), Body: &ast.BlockStmt{List: list}},
		}}
	}
	x.Key, x.Value = r.nexpr(x.Key), r.nexpr(x.Value)
	x.X = r.expr(x.X)
	r.block(x.Body)
	return x
}

func isBlank(e ast.Expr) bool { id, ok := e.(*ast.Ident); return ok && id.Name == "_" }
func pointerKey(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Chan:
		return true
	}
	return false
}

func (r *rw) selectStmt(x *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	sel := r.tmp("sel")
	hasDef := "false"
	for _, c := range x.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			hasDef = "true"
		}
	}
	pre := []ast.Stmt{define(token.DEFINE, []ast.Expr{sel}, call(r.sim("NewSelect"), ast.NewIdent(hasDef)))}
	var cases []ast.Stmt
	idx := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		clause := &ast.CaseClause{}
		var body []ast.Stmt
		if cc.Comm == nil {
			clause.List = []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}
		} else {
			clause.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}
			idx++
			switch s := cc.Comm.(type) {
			case *ast.SendStmt:
				pre = append(pre, &ast.ExprStmt{X: call(r.sim("SelSend"), sel, r.expr(s.Chan), r.expr(s.Value))})
			case *ast.ExprStmt:
				u := ast.Unparen(s.X).(*ast.UnaryExpr)
				pre = append(pre, &ast.ExprStmt{X: call(r.sim("SelRecv"), sel, r.expr(u.X))})
			case *ast.AssignStmt:
				u := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr)
				rc := r.tmp("rc")
				pre = append(pre, define(token.DEFINE, []ast.Expr{rc}, call(r.sim("SelRecv"), sel, r.expr(u.X))))
				pre = append(pre, define(token.ASSIGN, []ast.Expr{ast.NewIdent("_")}, rc))
				rhs := []ast.Expr{&ast.SelectorExpr{X: rc, Sel: ast.NewIdent("Val")}}
				if len(s.Lhs) == 2 {
					rhs = append(rhs, &ast.SelectorExpr{X: rc, Sel: ast.NewIdent("OK")})
				}
				r.exprs(s.Lhs)
				body = append(body, &ast.AssignStmt{Lhs: s.Lhs, Tok: s.Tok, Rhs: rhs})
			}
		}
		body = append(body, r.stmts(cc.Body)...)
		clause.Body = body
		cases = append(cases, clause)
	}
	var sw ast.Stmt = &ast.SwitchStmt{Tag: method(sel, "Do"), Body: &ast.BlockStmt{List: cases}}
	if label != nil {
		sw = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return &ast.BlockStmt{List: append(pre, sw)}
}

var _ = sort.Strings
