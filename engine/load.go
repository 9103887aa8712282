package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var sizes = types.SizesFor("gc", "amd64")

type Program struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package
	rtErr    types.Type
	rtypePtr types.Type
	harness  *ssa.Package
	gopath   string
}

// mkGopath builds a throw-away GOPATH through which /repo and the harnesses
// are seen under their import paths.
//
// shipped: leave the instances of templates as they are in the repository.
func mkGopath(verifDir, repo, harness string, shipped bool) (string, error) {
	d, err := os.MkdirTemp("", "verif-gopath-")
	if err != nil {
		return "", err
	}
	if err := os.MkdirAll(filepath.Join(d, "src/github.com/vipally"), 0o755); err != nil {
		return d, err
	}
	if err := os.Symlink(filepath.Join(verifDir, "harness"), filepath.Join(d, "src/verif")); err != nil {
		return d, err
	}
	gx := filepath.Join(d, "src", gxPath)
	l, r := instrumentList(verifDir, harness, "instrument"), instrumentList(verifDir, harness, "replace")
	t, n := instrumentList(verifDir, harness, "templates"), instrumentLines(verifDir, harness, "instance")
	if shipped {
		t = nil
	}
	if len(l)+len(r)+len(t)+len(n) > 0 {
		if err := copyRepo(repo, gx); err != nil {
			return d, err
		}
		if err := instantiate(verifDir, repo, gx, t, n); err != nil {
			return d, err
		}
		if err := redirectFiles(d, r); err != nil {
			return d, err
		}
		if len(l) == 0 {
			return d, nil
		}
		return d, instrument(d, l)
	}
	return d, os.Symlink(repo, gx)
}

func goEnv(gopath string) []string {
	var env []string
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "GOPATH", "GO111MODULE", "GOFLAGS", "GOWORK", "GOROOT", "GOOS", "GOARCH", "GOTOOLCHAIN", "GOPROXY", "PWD", "CGO_ENABLED":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOPATH="+gopath, "GO111MODULE=off", "GOFLAGS=", "GOWORK=off", "GOTOOLCHAIN=local", "GOPROXY=off", "CGO_ENABLED=0")
}

func loadProgram(gopath string, harness string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes,
		Dir: filepath.Join(gopath, "src"),
		Env: append(goEnv(gopath), "PWD="+filepath.Join(gopath, "src")),
	}
	pats := []string{harness, "verif/models", "unicode/utf8", "runtime", "reflect"}
	initial, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, "verif/") || strings.HasPrefix(p.PkgPath, gxPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	pr := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, gopath: gopath}
	for _, p := range prog.AllPackages() {
		pr.pkgs[p.Pkg.Path()] = p
	}
	prog.Build()
	rt := pr.pkgs["runtime"]
	if rt == nil {
		return nil, fmt.Errorf("runtime not loaded")
	}
	pr.rtErr = rt.Pkg.Scope().Lookup("errorString").Type()
	pr.rtypePtr = types.NewPointer(pr.pkgs["reflect"].Pkg.Scope().Lookup("rtype").Type())
	pr.harness = pr.pkgs[harness]
	if pr.harness == nil {
		return nil, fmt.Errorf("harness %s not found", harness)
	}
	return pr, nil
}

func (p *Program) lookupFunc(pkg, name string) *ssa.Function {
	if k := p.pkgs[pkg]; k != nil {
		return k.Func(name)
	}
	return nil
}

// lookupModel finds a model: in verif/models, or where its name says, if the
// harness uses that package.
func (p *Program) lookupModel(name string) *ssa.Function {
	if i := strings.IndexByte(name, '.'); i >= 0 {
		return p.lookupFunc(name[:i], name[i+1:])
	}
	return p.lookupFunc("verif/models", name)
}
