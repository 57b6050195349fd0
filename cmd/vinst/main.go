// Command vinst rewrites the packages of /repo that a harness uses so that
// every synchronisation operation, clock read and random draw goes through the
// shims, and writes the result as a build overlay.  /repo itself is untouched.
//
//	vinst -out DIR [-race] PKG...      (PKG: harness packages, run in /verif)
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"go/version"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/unsafe-risk/utilx"
const shim = "verif.local/mc/mc/"

// shims maps an import path to its stand-in and the selectors it takes over
// (nil: all of them).
var shims = map[string]struct {
	path string
	sel  map[string]bool
}{
	"sync":                       {shim + "vsync", nil},
	"sync/atomic":                {shim + "vatomic", nil},
	"context":                    {shim + "vctx", nil},
	"os/signal":                  {shim + "vsignal", nil},
	"runtime":                    {shim + "vruntime", set("Gosched")},
	"time":                       {shim + "vtime", set("Now Since Until Sleep After AfterFunc NewTimer NewTicker Tick Timer Ticker")},
	"math/rand":                  {shim + "vrand", set("Intn Int31n Int63n Shuffle Perm Uint64 Int63 Int Uint32 Int31 Float64 Float32 Seed")},
	"math/rand/v2":               {shim + "vrand", set("IntN Int32N Int64N UintN Uint32N Uint64N Shuffle Perm Uint64 Int64 Int Uint32 Int32 Uint Float64 Float32")},
	"crypto/rand":                {shim + "vcrand", set("Read Reader Int Prime")},
	"golang.org/x/crypto/argon2": {shim + "vargon2", set("IDKey Key Version")},
	"golang.org/x/crypto/bcrypt": {shim + "vbcrypt", set("GenerateFromPassword CompareHashAndPassword")},
	"crypto/cipher":              {shim + "vcipher", set("NewCBCEncrypter NewCBCDecrypter NewCTR NewGCM NewGCMWithNonceSize NewGCMWithTagSize")},
}

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, f := range strings.Fields(s) {
		m[f] = true
	}
	return m
}

type pkgInfo struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Module     *struct{ Path, GoVersion string }
	Error      *struct{ Err string }
}

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "vinst: "+format+"\n", a...)
	os.Exit(2)
}

func main() {
	out := flag.String("out", "", "output directory")
	race := flag.Bool("race", false, "list export data of a race build")
	flag.Parse()
	args := []string{"list", "-deps", "-export", "-json=ImportPath,Name,Dir,GoFiles,CgoFiles,Export,Module,Error"}
	if *race {
		args = append(args, "-race")
	}
	args = append(args, flag.Args()...)
	cmd := exec.Command("go", args...)
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	exports := map[string]string{}
	var targets []pkgInfo
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Path == modPath {
			targets = append(targets, p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	overlay := map[string]string{}
	os.MkdirAll(*out, 0o755)
	n := 0
	for _, p := range targets {
		if len(p.CgoFiles) > 0 {
			fatal("%s uses cgo", p.ImportPath)
		}
		var files []*ast.File
		for _, g := range p.GoFiles {
			f, err := parser.ParseFile(fset, filepath.Join(p.Dir, g), nil, parser.SkipObjectResolution)
			if err != nil {
				fatal("%v", err)
			}
			files = append(files, f)
		}
		info := &types.Info{
			Types:     map[ast.Expr]types.TypeAndValue{},
			Defs:      map[*ast.Ident]types.Object{},
			Uses:      map[*ast.Ident]types.Object{},
			Instances: map[*ast.Ident]types.Instance{},

			FileVersions: map[*ast.File]string{},
		}
		conf := types.Config{Importer: imp}
		if p.Module.GoVersion != "" {
			conf.GoVersion = "go" + p.Module.GoVersion
		}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			fatal("type-checking %s: %v", p.ImportPath, err)
		}
		var rs *resetter
		if hasState(tp, files) {
			rs = &resetter{pieces: map[types.Object]string{}}
		}
		for i, f := range files {
			r := &rewriter{info: info, pkg: tp, file: f, fset: fset, reset: rs, loopVar: version.Compare(info.FileVersions[f], "go1.22") >= 0}
			changed := r.file_()
			if !changed {
				continue
			}
			var buf bytes.Buffer
			cfg := printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}
			if err := cfg.Fprint(&buf, fset, f); err != nil {
				fatal("printing: %v", err)
			}
			n++
			dst := filepath.Join(*out, fmt.Sprintf("f%03d_%s", n, p.GoFiles[i]))
			src := buf.Bytes()
			if r.need[shim+"vmap"] && !bytes.Contains(src, []byte("//go:build")) {
				// Before Go 1.20 a map key holding interfaces could not be the
				// type argument of vmap.Keys.
				src = append([]byte("//go:build go1.20\n\n"), src...)
			}
			if err := os.WriteFile(dst, src, 0o644); err != nil {
				fatal("%v", err)
			}
			overlay[filepath.Join(p.Dir, p.GoFiles[i])] = dst
		}
		if rs != nil {
			n++
			dst := filepath.Join(*out, fmt.Sprintf("f%03d_vreset_gen.go", n))
			if err := os.WriteFile(dst, []byte(rs.master(tp, info)), 0o644); err != nil {
				fatal("%v", err)
			}
			overlay[filepath.Join(p.Dir, "vreset_gen.go")] = dst
		}
	}
	js, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644); err != nil {
		fatal("%v", err)
	}
}

type rewriter struct {
	info    *types.Info
	pkg     *types.Package
	file    *ast.File
	fset    *token.FileSet
	changed bool
	tmp     int
	tryLock bool
	need    map[string]bool // shim imports needed
	reset   *resetter
	loopVar bool // loop variables are per iteration
}

// hasState tells whether a package has variables other than error values, or
// code that runs when it is initialised.
func hasState(p *types.Package, files []*ast.File) bool {
	if p.Name() == "main" {
		return false
	}
	for _, n := range p.Scope().Names() {
		if v, ok := p.Scope().Lookup(n).(*types.Var); ok && !isError(v.Type()) {
			return true
		}
	}
	for _, f := range files {
		for _, d := range f.Decls {
			if d, ok := d.(*ast.FuncDecl); ok && d.Recv == nil && d.Name.Name == "init" {
				return true
			}
		}
	}
	return false
}

func isError(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// resetter collects functions that repeat a package's initialisation.
type resetter struct {
	pieces map[types.Object]string // variable -> function that initialises it
	zero   []string                // variables without initialiser
	inits  []string
	n      int
}

func (s *resetter) name(k string) string {
	s.n++
	return fmt.Sprintf("_v%s%d", k, s.n)
}

func (r *rewriter) resetDecls(f *ast.File) {
	s := r.reset
	var add []ast.Decl
	fn := func(name string, body ...ast.Stmt) {
		add = append(add, &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" {
				n := s.name("init")
				d.Name = ast.NewIdent(n)
				s.inits = append(s.inits, n)
				add = append(add, &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(n)}}}}})
			}
		case *ast.GenDecl:
			if d.Tok != token.VAR {
				continue
			}
			for _, sp := range d.Specs {
				v := sp.(*ast.ValueSpec)
				switch {
				case len(v.Values) == 0:
					for _, id := range v.Names {
						if o := r.info.Defs[id]; id.Name == "_" || o != nil && isError(o.Type()) {
							continue
						}
						n := s.name("zero")
						s.zero = append(s.zero, n)
						fn(n, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_vz")}, Type: v.Type}}}},
							&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(id.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent("_vz")}})
					}
				case len(v.Values) == len(v.Names):
					for i, id := range v.Names {
						if o := r.info.Defs[id]; o != nil && isError(o.Type()) {
							continue
						}
						n := s.name("var")
						s.pieces[r.info.Defs[id]] = n
						fn(n, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(id.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{v.Values[i]}})
					}
				default:
					n := s.name("var")
					var lhs []ast.Expr
					for _, id := range v.Names {
						lhs = append(lhs, ast.NewIdent(id.Name))
						s.pieces[r.info.Defs[id]] = n
					}
					fn(n, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: v.Values})
				}
			}
		}
	}
	if len(add) > 0 {
		f.Decls = append(f.Decls, add...)
		r.changed = true
	}
}

func (s *resetter) master(p *types.Package, info *types.Info) string {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport _vsched %q\n\nfunc init() {\n\t_vsched.RegisterReset(%q, func() {\n", p.Name(), shim+"vsched", p.Path())
	for _, z := range s.zero {
		fmt.Fprintf(&b, "\t\t%s()\n", z)
	}
	for _, in := range info.InitOrder {
		if n := s.pieces[in.Lhs[0]]; n != "" {
			fmt.Fprintf(&b, "\t\t%s()\n", n)
		}
	}
	for _, i := range s.inits {
		fmt.Fprintf(&b, "\t\t%s()\n", i)
	}
	b.WriteString("\t})\n}\n")
	return b.String()
}

func (r *rewriter) name(s string) string {
	r.tmp++
	return fmt.Sprintf("_v%s%d", s, r.tmp)
}

func (r *rewriter) sched(sel string) ast.Expr {
	r.use(shim + "vsched")
	return &ast.SelectorExpr{X: ast.NewIdent("_vsched"), Sel: ast.NewIdent(sel)}
}

func (r *rewriter) use(path string) string {
	r.need[path] = true
	r.changed = true
	return "_" + path[strings.LastIndex(path, "/")+1:]
}

func (r *rewriter) file_() bool {
	f := r.file
	r.need = map[string]bool{}
	for _, d := range f.Decls {
		r.hookDecl(d)
	}
	for i := range f.Decls {
		r.walk(reflect.ValueOf(&f.Decls[i]).Elem())
	}
	if r.reset != nil {
		r.resetDecls(f)
	}
	if !r.changed {
		return false
	}
	// drop comments except directives before the package clause
	var keep []*ast.CommentGroup
	for _, c := range f.Comments {
		if c.End() < f.Package {
			keep = append(keep, c)
		}
	}
	f.Comments = keep
	f.Doc = nil
	stripDocs(f)
	// imports
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
					used[pn.Imported().Path()+"\x00"+pn.Name()] = true
				}
			}
		}
		return true
	})
	var decls []ast.Decl
	if r.tryLock {
		decls = append(decls, &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(r.use(shim + "vsync")), Sel: ast.NewIdent("UnlockPoints")}}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent("true")}}}}})
	}
	imports := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Rparen: 2}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			if _, ok := shims[path]; ok {
				if is.Name != nil && is.Name.Name == "." {
					fatal("dot import of %s", path)
				}
				if is.Name == nil || is.Name.Name != "_" {
					name := ""
					if is.Name != nil {
						name = is.Name.Name
					}
					keepIt := false
					for k := range used {
						kp, kn, _ := strings.Cut(k, "\x00")
						if kp == path && (name == "" || kn == name) {
							keepIt = true
						}
					}
					if !keepIt {
						continue
					}
				}
			}
			imports.Specs = append(imports.Specs, &ast.ImportSpec{Name: is.Name, Path: &ast.BasicLit{Kind: token.STRING, Value: is.Path.Value}})
		}
	}
	var paths []string
	for p := range r.need {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		imports.Specs = append(imports.Specs, &ast.ImportSpec{Name: ast.NewIdent("_" + p[strings.LastIndex(p, "/")+1:]), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(p)}})
	}
	f.Decls = decls
	if len(imports.Specs) > 0 {
		f.Decls = append([]ast.Decl{imports}, decls...)
	}
	f.Imports = nil
	return true
}

func stripDocs(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.GenDecl:
			v.Doc = nil
		case *ast.FuncDecl:
			v.Doc = nil
		case *ast.Field:
			v.Doc, v.Comment = nil, nil
		case *ast.ValueSpec:
			v.Doc, v.Comment = nil, nil
		case *ast.TypeSpec:
			v.Doc, v.Comment = nil, nil
		}
		return true
	})
}

// hookDecl: the skip list's coin flips become explorer choices.
func (r *rewriter) hookDecl(d ast.Decl) {
	fd, ok := d.(*ast.FuncDecl)
	if !ok || fd.Recv != nil || fd.Body == nil || fd.Name.Name != "splitmix64" || r.pkg.Name() != "sklmapx" {
		return
	}
	o, ok := r.info.Defs[fd.Name].(*types.Func)
	if !ok || o.Type().String() != "func(state *uint64) uint64" && types.TypeString(o.Type(), nil) != "func(state *uint64) uint64" {
		sig, ok := o.Type().(*types.Signature)
		if !ok || sig.Params().Len() != 1 || sig.Results().Len() != 1 || sig.Results().At(0).Type() != types.Typ[types.Uint64] {
			return
		}
	}
	v, k := r.name("h"), r.name("ok")
	fd.Body.List = append([]ast.Stmt{&ast.IfStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v), ast.NewIdent(k)}, Tok: token.DEFINE,
			Rhs: []ast.Expr{&ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(r.use(shim + "vrand")), Sel: ast.NewIdent("Hook64")}}}},
		Cond: ast.NewIdent(k),
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{ast.NewIdent(v)}}}},
	}}, fd.Body.List...)
}

var (
	exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	nodeT = reflect.TypeOf((*ast.Node)(nil)).Elem()
)

// walk rewrites bottom-up every expression and statement below v.
func (r *rewriter) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		if v.Type() == stmtT {
			v.Set(reflect.ValueOf(r.stmt(v.Interface().(ast.Stmt))))
			return
		}
		if v.Type() == exprT {
			v.Set(reflect.ValueOf(r.expr(v.Interface().(ast.Expr))))
			return
		}
		r.walk(v.Elem())
	case reflect.Ptr:
		if v.IsNil() || !v.Type().Implements(nodeT) {
			return
		}
		switch v.Interface().(type) {
		case *ast.Ident, *ast.BasicLit, *ast.CommentGroup, *ast.Comment, *ast.ImportSpec:
			return
		}
		if ts, ok := v.Interface().(*ast.TypeSpec); ok {
			if _, ok := ts.Type.(*ast.ChanType); ok {
				ts.Assign = 1 // a named channel type becomes an alias
			}
		}
		if vs, ok := v.Interface().(*ast.ValueSpec); ok && len(vs.Names) == 2 && len(vs.Values) == 1 {
			if u, ok := unparen(vs.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				vs.Values[0] = r.recv2(u)
				if vs.Type != nil {
					r.walk(reflect.ValueOf(&vs.Type).Elem())
				}
				return
			}
		}
		r.walk(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			switch f.Kind() {
			case reflect.Interface, reflect.Ptr, reflect.Slice:
				if v.Type() == reflect.TypeOf(ast.File{}) {
					continue
				}
				r.walk(f)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Interface || v.Type().Elem().Kind() == reflect.Ptr {
			for i := 0; i < v.Len(); i++ {
				r.walk(v.Index(i))
			}
		}
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func coreOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	u := t.Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		if i, ok := tp.Constraint().Underlying().(*types.Interface); ok && i.NumEmbeddeds() == 1 {
			if un, ok := i.EmbeddedType(0).(*types.Union); ok && un.Len() == 1 {
				return un.Term(0).Type().Underlying()
			}
			return i.EmbeddedType(0).Underlying()
		}
	}
	return u
}

func (r *rewriter) isChan(e ast.Expr) bool {
	_, ok := coreOf(r.typeOf(e)).(*types.Chan)
	return ok
}

func (r *rewriter) isMap(e ast.Expr) bool {
	_, ok := coreOf(r.typeOf(e)).(*types.Map)
	return ok
}

func (r *rewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func method(x ast.Expr, name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: x, Sel: ast.NewIdent(name)}, Args: args}
}

func paren(x ast.Expr) ast.Expr {
	switch x.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.CallExpr, *ast.ParenExpr, *ast.IndexExpr:
		return x
	}
	return &ast.ParenExpr{X: x}
}

func (r *rewriter) recv2(u *ast.UnaryExpr) ast.Expr {
	r.changed = true
	return method(paren(r.expr(u.X)), "Recv2")
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch v := e.(type) {
	case *ast.ChanType:
		r.changed = true
		return &ast.StarExpr{X: &ast.IndexExpr{X: r.sched("Chan"), Index: r.expr(v.Value)}}
	case *ast.UnaryExpr:
		if v.Op == token.ARROW {
			r.changed = true
			return method(paren(r.expr(v.X)), "Recv")
		}
	case *ast.SelectorExpr:
		if id, ok := v.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				s, ok := shims[pn.Imported().Path()]
				if ok && (s.sel == nil || s.sel[v.Sel.Name]) {
					return &ast.SelectorExpr{X: ast.NewIdent(r.use(s.path)), Sel: ast.NewIdent(v.Sel.Name)}
				}
				return v
			}
		}
	case *ast.CallExpr:
		if sel, ok := unparen(v.Fun).(*ast.SelectorExpr); ok && (sel.Sel.Name == "TryLock" || sel.Sel.Name == "TryRLock") {
			r.tryLock, r.changed = true, true
		}
		if r.isBuiltin(v.Fun, "make") && len(v.Args) > 0 && r.isChan(v.Args[0]) {
			ct := coreOf(r.typeOf(v.Args[0])).(*types.Chan)
			var elem ast.Expr
			if lit, ok := unparen(v.Args[0]).(*ast.ChanType); ok {
				elem = r.expr(lit.Value)
			} else {
				elem = r.typeExpr(ct.Elem())
			}
			if len(v.Args) == 1 {
				return &ast.CallExpr{Fun: &ast.IndexExpr{X: r.sched("MakeChan0"), Index: elem}}
			}
			return &ast.CallExpr{Fun: &ast.IndexExpr{X: r.sched("MakeChan"), Index: elem}, Args: []ast.Expr{r.expr(v.Args[1])}}
		}
		if _, ok := v.Fun.(*ast.ChanType); ok {
			v.Fun = &ast.ParenExpr{X: v.Fun}
		}
		for b, m := range map[string]string{"close": "Close", "len": "Len", "cap": "Cap"} {
			if r.isBuiltin(v.Fun, b) && len(v.Args) == 1 && r.isChan(v.Args[0]) {
				r.changed = true
				return method(paren(r.expr(v.Args[0])), m)
			}
		}
	}
	r.walk(reflect.ValueOf(e))
	return e
}

// typeExpr renders a type (only for make of a named channel type).
func (r *rewriter) typeExpr(t types.Type) ast.Expr {
	s := types.TypeString(t, func(p *types.Package) string {
		if p == r.pkg {
			return ""
		}
		return p.Name()
	})
	e, err := parser.ParseExpr(s)
	if err != nil {
		fatal("cannot render type %s", s)
	}
	return e
}

func (r *rewriter) list(l []ast.Stmt) {
	for i := range l {
		l[i] = r.stmt(l[i])
	}
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch v := s.(type) {
	case *ast.SendStmt:
		r.changed = true
		return &ast.ExprStmt{X: method(paren(r.expr(v.Chan)), "Send", r.expr(v.Value))}
	case *ast.AssignStmt:
		if len(v.Lhs) == 2 && len(v.Rhs) == 1 {
			if u, ok := unparen(v.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				for i := range v.Lhs {
					v.Lhs[i] = r.expr(v.Lhs[i])
				}
				v.Rhs[0] = r.recv2(u)
				return v
			}
		}
	case *ast.GoStmt:
		return r.goStmt(v)
	case *ast.DeferStmt:
		if c, ok := r.expr(v.Call).(*ast.CallExpr); ok {
			v.Call = c
			return v
		}
	case *ast.LabeledStmt:
		switch w := v.Stmt.(type) {
		case *ast.SelectStmt:
			pre, sw := r.selectStmt(w)
			v.Stmt = sw
			return &ast.BlockStmt{List: append(pre, v)}
		case *ast.RangeStmt:
			if r.isMap(w.X) {
				pre, f := r.mapRange(w)
				v.Stmt = f
				return &ast.BlockStmt{List: append(pre, v)}
			}
		}
	case *ast.SelectStmt:
		pre, sw := r.selectStmt(v)
		return &ast.BlockStmt{List: append(pre, sw)}
	case *ast.RangeStmt:
		if r.isChan(v.X) {
			return r.chanRange(v)
		}
		if r.isMap(v.X) {
			pre, f := r.mapRange(v)
			return &ast.BlockStmt{List: append(pre, f)}
		}
	}
	r.walk(reflect.ValueOf(s))
	return s
}

func define(names []string, rhs ...ast.Expr) *ast.AssignStmt {
	a := &ast.AssignStmt{Tok: token.DEFINE, Rhs: rhs}
	for _, n := range names {
		a.Lhs = append(a.Lhs, ast.NewIdent(n))
	}
	return a
}

func (r *rewriter) goStmt(g *ast.GoStmt) ast.Stmt {
	call := g.Call
	var pre []ast.Stmt
	var args []ast.Expr
	isBuiltin := false
	if id, ok := unparen(call.Fun).(*ast.Ident); ok {
		_, isBuiltin = r.info.Uses[id].(*types.Builtin)
	}
	for _, a := range call.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() || isBuiltin || tv.IsType() {
			args = append(args, r.expr(a))
			continue
		}
		n := r.name("a")
		pre = append(pre, define([]string{n}, r.expr(a)))
		args = append(args, ast.NewIdent(n))
	}
	nc := &ast.CallExpr{Args: args, Ellipsis: call.Ellipsis}
	fun := unparen(call.Fun)
	direct := isBuiltin
	switch f := fun.(type) {
	case *ast.FuncLit:
		direct = true
	case *ast.Ident:
		_, direct2 := r.info.Uses[f].(*types.Func)
		direct = direct || direct2
	case *ast.IndexExpr, *ast.IndexListExpr:
		direct = true
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			_, pk := r.info.Uses[id].(*types.PkgName)
			direct = pk
		}
	}
	if direct {
		nc.Fun = r.expr(call.Fun)
	} else {
		n := r.name("f")
		pre = append([]ast.Stmt{define([]string{n}, r.expr(call.Fun))}, pre...)
		nc.Fun = ast.NewIdent(n)
	}
	var inner ast.Stmt = &ast.ExprStmt{X: nc}
	if isBuiltin {
		inner = r.stmt(&ast.ExprStmt{X: nc})
	}
	var body *ast.FuncLit
	if lit, ok := nc.Fun.(*ast.FuncLit); ok && len(args) == 0 && (lit.Type.Results == nil || len(lit.Type.Results.List) == 0) {
		body = lit
	} else {
		body = &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{inner}}}
	}
	r.changed = true
	st := &ast.ExprStmt{X: &ast.CallExpr{Fun: r.sched("Go"), Args: []ast.Expr{body}}}
	if len(pre) == 0 {
		return st
	}
	return &ast.BlockStmt{List: append(pre, st)}
}

func (r *rewriter) chanRange(v *ast.RangeStmt) ast.Stmt {
	r.changed = true
	ch, ok := r.name("ch"), r.name("ok")
	val := "_"
	body := v.Body
	r.walk(reflect.ValueOf(body))
	if v.Key != nil {
		if id, isID := v.Key.(*ast.Ident); isID && v.Tok == token.DEFINE {
			val = id.Name
		} else {
			val = r.name("v")
			body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{r.expr(v.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(val)}}}, body.List...)
		}
	}
	return &ast.ForStmt{
		Init: define([]string{ch, val, ok}, method(paren(r.expr(v.X)), "Range3")),
		Cond: ast.NewIdent(ok),
		Post: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(val), ast.NewIdent(ok)}, Tok: token.ASSIGN, Rhs: []ast.Expr{method(ast.NewIdent(ch), "Recv2")}},
		Body: body,
	}
}

func (r *rewriter) mapRange(v *ast.RangeStmt) ([]ast.Stmt, ast.Stmt) {
	m, k, ok, val := r.name("m"), r.name("k"), r.name("ok"), r.name("v")
	pre := []ast.Stmt{define([]string{m}, r.expr(v.X))}
	body := v.Body
	r.walk(reflect.ValueOf(body))
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, isID := e.(*ast.Ident)
		return isID && id.Name == "_"
	}
	get := &ast.IndexExpr{X: ast.NewIdent(m), Index: ast.NewIdent(k)}
	head := []ast.Stmt{}
	vn := "_"
	if !blank(v.Value) {
		vn = val
	}
	head = append(head, define([]string{vn, ok}, get), &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
	bind := func(dst ast.Expr, src string) {
		if !blank(dst) {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(dst)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(src)}})
		}
	}
	if v.Tok == token.DEFINE && !(blank(v.Key) && blank(v.Value)) {
		// The variables are shared by all iterations, as the module's Go
		// version has it, or made anew for each.
		names := []string{"_", "_"}
		for i, e := range []ast.Expr{v.Key, v.Value} {
			if !blank(e) {
				names[i] = e.(*ast.Ident).Name
			}
		}
		decl := define(names, &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(r.use(shim + "vmap")), Sel: ast.NewIdent("Zero")}, Args: []ast.Expr{ast.NewIdent(m)}})
		if r.loopVar {
			head = append(head, decl)
		} else {
			pre = append(pre, decl)
		}
	}
	bind(v.Key, k)
	bind(v.Value, val)
	keys := &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(r.use(shim + "vmap")), Sel: ast.NewIdent("Keys")}, Args: []ast.Expr{ast.NewIdent(m)}}
	f := &ast.RangeStmt{Key: ast.NewIdent("_"), Value: ast.NewIdent(k), Tok: token.DEFINE, X: keys,
		Body: &ast.BlockStmt{List: append(head, &ast.BlockStmt{List: body.List})}}
	return pre, f
}

func (r *rewriter) selectStmt(s *ast.SelectStmt) ([]ast.Stmt, ast.Stmt) {
	sel := r.name("sel")
	hasDef := "false"
	for _, c := range s.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			hasDef = "true"
		}
	}
	pre := []ast.Stmt{define([]string{sel}, &ast.CallExpr{Fun: r.sched("NewSelect"), Args: []ast.Expr{ast.NewIdent(hasDef)}})}
	sw := &ast.SwitchStmt{Tag: method(ast.NewIdent(sel), "Wait"), Body: &ast.BlockStmt{}}
	i := 0
	for _, cc := range s.Body.List {
		c := cc.(*ast.CommClause)
		var head []ast.Stmt
		label := ast.Expr(&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)})
		switch v := c.Comm.(type) {
		case nil:
			label = &ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}
			i--
		case *ast.SendStmt:
			pre = append(pre, &ast.ExprStmt{X: method(paren(r.expr(v.Chan)), "SelSend", ast.NewIdent(sel), r.expr(v.Value))})
		case *ast.ExprStmt:
			u := unparen(v.X).(*ast.UnaryExpr)
			pre = append(pre, &ast.ExprStmt{X: method(paren(r.expr(u.X)), "SelRecv", ast.NewIdent(sel))})
		case *ast.AssignStmt:
			u := unparen(v.Rhs[0]).(*ast.UnaryExpr)
			n := r.name("r")
			pre = append(pre, define([]string{n}, method(paren(r.expr(u.X)), "SelRecv", ast.NewIdent(sel))))
			rhs := []ast.Expr{method(ast.NewIdent(n), "V")}
			if len(v.Lhs) == 2 {
				rhs = append(rhs, method(ast.NewIdent(n), "OK"))
			}
			var lhs []ast.Expr
			for _, l := range v.Lhs {
				lhs = append(lhs, r.expr(l))
			}
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(n)}})
			tok := v.Tok
			if tok == token.DEFINE {
				all := true
				for _, l := range lhs {
					if id, ok := l.(*ast.Ident); !ok || id.Name != "_" {
						all = false
					}
				}
				if all {
					tok = token.ASSIGN
				}
			}
			head = append(head, &ast.AssignStmt{Lhs: lhs, Tok: tok, Rhs: rhs})
		}
		i++
		r.list(c.Body)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{label}, Body: append(head, c.Body...)})
	}
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}}}})
	return pre, sw
}
