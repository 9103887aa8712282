package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

// Harnesses about concurrent code name the packages of gx whose accesses to
// shared memory are to be scheduling points, in a comment line
//
//	// instrument: sync math/rand
//
// Those harnesses see a copy of /repo, made on every run, in which these
// packages are rewritten: every read or write through a pointer or of a
// package variable, and every operation of sync and sync/atomic, goes through
// package verif/sched. Nothing else of the code changes; outside of
// sched.Par the rewritten code does what the code did.

const schedPkg = "verif/sched"

// Likewise "// replace: fs" names packages whose use of the file system goes
// to the tree in memory of package verif/vos: their imports of os and
// path/filepath are redirected.
func instrumentList(verifDir, harness, what string) []string {
	fs, _ := filepath.Glob(filepath.Join(verifDir, "harness", filepath.Base(harness), "*.go"))
	var r []string
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			l = strings.TrimSpace(strings.TrimPrefix(l, "//"))
			if strings.HasPrefix(l, what+":") {
				r = append(r, strings.Fields(strings.TrimPrefix(l, what+":"))...)
			}
		}
	}
	return r
}

// instrumentLines is instrumentList line by line.
func instrumentLines(verifDir, harness, what string) (r [][]string) {
	fs, _ := filepath.Glob(filepath.Join(verifDir, "harness", filepath.Base(harness), "*.go"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			if l, ok := strings.CutPrefix(strings.TrimSpace(strings.TrimPrefix(l, "//")), what+":"); ok {
				r = append(r, strings.Fields(l))
			}
		}
	}
	return r
}

// copyRepo copies the Go files of /repo, as they are now.
func copyRepo(repo, dst string) error {
	return filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if fi.IsDir() {
			if fi.Name() == ".git" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if !fi.Mode().IsRegular() || !strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, ".s") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
}

// redirectFiles gives packages the file system of verif/vos.
func redirectFiles(gopath string, pkgs []string) error {
	for _, p := range pkgs {
		fs, _ := filepath.Glob(filepath.Join(gopath, "src", gxPath, p, "*.go"))
		for _, name := range fs {
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, name, nil, parser.ParseComments)
			if err != nil {
				return err
			}
			for _, is := range f.Imports {
				path, _ := strconv.Unquote(is.Path.Value)
				switch path {
				case "os":
					is.Path.Value = strconv.Quote("verif/vos")
				case "path/filepath":
					is.Path.Value = strconv.Quote("verif/vos/vfilepath")
				case "io/ioutil":
					is.Path.Value = strconv.Quote("verif/vos/vioutil")
				default:
					continue
				}
				if is.Name == nil {
					is.Name = ast.NewIdent(filepath.Base(path))
				}
			}
			var buf bytes.Buffer
			if err := printer.Fprint(&buf, fset, f); err != nil {
				return err
			}
			if err := os.WriteFile(name, buf.Bytes(), 0o644); err != nil {
				return err
			}
		}
	}
	return nil
}

// instrument rewrites the packages in the copy under gopath.
func instrument(gopath string, pkgs []string) error {
	src := filepath.Join(gopath, "src")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes,
		Dir: src,
		Env: append(goEnv(gopath), "PWD="+src),
	}
	// the cycle counter needs cgo; the encoding has none
	timeDir := filepath.Join(src, gxPath, "time")
	if tp, err := packages.Load(cfg, gxPath+"/time"); err == nil && len(tp) == 1 && tp[0].Types != nil {
		var sb strings.Builder
		for _, n := range []string{"RDTSC", "Clock"} {
			if tp[0].Types.Scope().Lookup(n) == nil {
				sb.WriteString("\nfunc " + n + "() uint64 { return 0 }\n")
			}
		}
		if sb.Len() > 0 {
			if err := os.WriteFile(filepath.Join(timeDir, "zz_verif_nocgo.go"), []byte("package time\n"+sb.String()), 0o644); err != nil {
				return err
			}
		}
	}
	var pats []string
	for _, p := range pkgs {
		pats = append(pats, gxPath+"/"+p)
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return err
	}
	for _, p := range ps {
		if len(p.Errors) > 0 {
			return fmt.Errorf("load %s: %v", p.PkgPath, p.Errors[0])
		}
		for i, f := range p.Syntax {
			w := &rewriter{p: p, info: p.TypesInfo, f: f}
			text, err := w.file()
			if err != nil {
				return err
			}
			if err := os.WriteFile(p.CompiledGoFiles[i], text, 0o644); err != nil {
				return err
			}
		}
	}
	return nil
}

type rewriter struct {
	p    *packages.Package
	info *types.Info
	f    *ast.File
	used bool
}

func (w *rewriter) file() ([]byte, error) {
	fset := w.p.Fset
	for _, d := range w.f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			w.stmts(fd.Body)
		}
	}
	for _, is := range w.f.Imports {
		path, _ := strconv.Unquote(is.Path.Value)
		name := filepath.Base(path)
		switch path {
		case "sync/atomic":
			is.Path.Value = strconv.Quote(schedPkg)
		case "sync":
			is.Path.Value = strconv.Quote(schedPkg + "/xsync")
		default:
			continue
		}
		if is.Name == nil {
			is.Name = ast.NewIdent(name)
		}
		is.EndPos = 0
	}
	if w.used {
		astutil.AddNamedImport(fset, w.f, "vsched", schedPkg)
	}
	for _, path := range []string{"runtime", "time"} {
		if !astutil.UsesImport(w.f, path) {
			astutil.DeleteImport(fset, w.f, path)
		}
	}
	// comments are placed by position and would end up in the wrong spots
	w.f.Comments = nil
	ast.Inspect(w.f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
	w.f.Doc = nil
	var buf bytes.Buffer
	if err := printer.Fprint(&buf, fset, w.f); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

func (w *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	w.used = true
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vsched"), Sel: ast.NewIdent(name)}, Args: args}
}

func (w *rewriter) ref(x ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: x} }

// isVar: x denotes a variable (or element), not a constant, type or function.
func (w *rewriter) isVar(x ast.Expr) bool {
	tv, ok := w.info.Types[x]
	if !ok {
		if id, isId := x.(*ast.Ident); isId {
			_, v := w.info.Uses[id].(*types.Var)
			return v
		}
		return false
	}
	return tv.IsValue() && tv.Value == nil
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// shared: x is an addressable location other threads may know.
func (w *rewriter) shared(x ast.Expr) bool {
	if !w.isVar(x) {
		return false
	}
	switch x := x.(type) {
	case *ast.ParenExpr:
		return w.shared(x.X)
	case *ast.Ident:
		v, ok := w.info.Uses[x].(*types.Var)
		return ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		sel := w.info.Selections[x]
		if sel == nil { // package variable
			_, ok := w.info.Uses[x.Sel].(*types.Var)
			return ok
		}
		if sel.Kind() != types.FieldVal {
			return false
		}
		return sel.Indirect() || isPtr(w.info.TypeOf(x.X)) || w.shared(x.X)
	case *ast.IndexExpr:
		switch t := w.info.TypeOf(x.X).Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Array:
			return w.shared(x.X)
		case *types.Pointer:
			_, ok := t.Elem().Underlying().(*types.Array)
			return ok
		}
	}
	return false
}

// addr rewrites the reads inside the location x, not x itself.
func (w *rewriter) addr(x ast.Expr) ast.Expr {
	switch x := x.(type) {
	case *ast.ParenExpr:
		x.X = w.addr(x.X)
		return x
	case *ast.StarExpr:
		x.X = w.expr(x.X)
		return x
	case *ast.SelectorExpr:
		if w.info.Selections[x] == nil {
			return x
		}
		if isPtr(w.info.TypeOf(x.X)) {
			x.X = w.expr(x.X)
		} else {
			x.X = w.addr(x.X)
		}
		return x
	case *ast.IndexExpr:
		x.Index = w.expr(x.Index)
		switch w.info.TypeOf(x.X).Underlying().(type) {
		case *types.Array:
			x.X = w.addr(x.X)
		default:
			x.X = w.expr(x.X)
		}
		return x
	case *ast.Ident:
		return x
	}
	return w.expr(x)
}

// expr rewrites the reads of the value x.
func (w *rewriter) expr(x ast.Expr) ast.Expr {
	if x == nil {
		return nil
	}
	if w.shared(x) {
		return &ast.ParenExpr{X: &ast.StarExpr{X: w.call("P", w.ref(w.addr(x)))}}
	}
	var holder = &ast.ParenExpr{X: x}
	w.apply(holder, true)
	return holder.X
}

// stmts rewrites everything below n.
func (w *rewriter) stmts(n ast.Node) { w.apply(n, false) }

// apply walks below root; skipTop: the direct child was found not to be a
// shared location itself.
func (w *rewriter) apply(root ast.Node, skipTop bool) {
	astutil.Apply(root, func(c *astutil.Cursor) bool {
		n := c.Node()
		if n == root || n == nil {
			return true
		}
		switch n := n.(type) {
		case *ast.AssignStmt:
			w.assign(c, n)
			return false
		case *ast.IncDecStmt:
			if w.shared(n.X) {
				op := token.ADD
				if n.Tok == token.DEC {
					op = token.SUB
				}
				w.opAssign(c, n.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"})
				return false
			}
			return true
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				if cl, ok := n.X.(*ast.CompositeLit); ok {
					n.X = w.expr(cl)
				} else {
					n.X = w.addr(n.X)
				}
				return false
			}
			return true
		case *ast.KeyValueExpr:
			if id, ok := n.Key.(*ast.Ident); !ok || w.info.Uses[id] == nil || !isField(w.info.Uses[id]) {
				n.Key = w.expr(n.Key)
			}
			n.Value = w.expr(n.Value)
			return false
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok {
				if pn, ok := w.info.Uses[id].(*types.PkgName); ok {
					switch pn.Imported().Path() + "." + n.Sel.Name {
					case "runtime.Gosched":
						c.Replace(w.call("Gosched").Fun)
					case "time.Sleep":
						c.Replace(w.call("Sleep").Fun)
					default:
						if w.shared(n) {
							c.Replace(w.expr(n))
						}
					}
					return false
				}
			}
			sel := w.info.Selections[n]
			if sel != nil && sel.Kind() == types.MethodVal {
				f := sel.Obj().(*types.Func)
				rt := f.Type().(*types.Signature).Recv().Type()
				if isPtr(rt) && !isPtr(w.info.TypeOf(n.X)) && !types.IsInterface(w.info.TypeOf(n.X)) {
					n.X = w.addr(n.X)
				} else {
					n.X = w.expr(n.X)
				}
				return false
			}
			if sel != nil && sel.Kind() == types.MethodExpr {
				return false
			}
		case *ast.RangeStmt:
			n.X = w.expr(n.X)
			w.stmts(n.Body)
			return false
		}
		if e, ok := n.(ast.Expr); ok && w.shared(e) {
			c.Replace(w.expr(e))
			return false
		}
		return true
	}, nil)
}

func isField(o types.Object) bool {
	v, ok := o.(*types.Var)
	return ok && v.IsField()
}

func (w *rewriter) assign(c *astutil.Cursor, n *ast.AssignStmt) {
	if n.Tok == token.DEFINE {
		for i := range n.Rhs {
			n.Rhs[i] = w.expr(n.Rhs[i])
		}
		return
	}
	if n.Tok != token.ASSIGN {
		if w.shared(n.Lhs[0]) {
			w.opAssign(c, n.Lhs[0], assignOps[n.Tok], n.Rhs[0])
			return
		}
		n.Lhs[0] = w.addr(n.Lhs[0])
		n.Rhs[0] = w.expr(n.Rhs[0])
		return
	}
	if len(n.Lhs) == 1 && len(n.Rhs) == 1 && w.shared(n.Lhs[0]) {
		p := w.ref(w.addr(n.Lhs[0]))
		c.Replace(&ast.ExprStmt{X: &ast.CallExpr{Fun: w.call("St", p), Args: []ast.Expr{w.expr(n.Rhs[0])}}})
		return
	}
	for i := range n.Rhs {
		n.Rhs[i] = w.expr(n.Rhs[i])
	}
	for i, l := range n.Lhs {
		if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
			continue
		}
		if w.shared(l) {
			n.Lhs[i] = &ast.StarExpr{X: w.call("W", w.ref(w.addr(l)))}
		} else {
			n.Lhs[i] = w.addr(l)
		}
	}
}

func (w *rewriter) opAssign(c *astutil.Cursor, l ast.Expr, op token.Token, r ast.Expr) {
	p := w.ref(w.addr(l))
	v := &ast.ParenExpr{X: &ast.StarExpr{X: w.call("P", p)}}
	c.Replace(&ast.ExprStmt{X: &ast.CallExpr{
		Fun:  w.call("St", p),
		Args: []ast.Expr{&ast.BinaryExpr{X: v, Op: op, Y: &ast.ParenExpr{X: w.expr(r)}}},
	}})
}

var assignOps = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
	token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}
