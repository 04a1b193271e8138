package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/Carbonfrost/joe-cli"

// World is the resolved program of the repository: every package the build
// covers, type-checked and in SSA form.
type World struct {
	once   map[*ssa.Function]bool
	models map[string]*ssa.Function
	Repo   string
	Env    string // human readable build configuration
	Fset   *token.FileSet
	Pkgs   []*packages.Package
	ByPath map[string]*packages.Package
	Prog   *ssa.Program
	SSA    map[string]*ssa.Package
	Funcs  []*ssa.Function // every source function of the module (non test), closures included
	fnSet  map[*ssa.Function]bool
	astOf  map[types.Object]*ast.FuncDecl
	parent map[*ssa.Function]*ssa.MakeClosure

	callers map[*ssa.Function][]ssa.CallInstruction
	impls   map[string][]*ssa.Function
	ginit   map[*ssa.Global][]*ssa.Store
	gvals   map[*ssa.Global]*globalVal
	inits   map[*ssa.Function]*aState

	varStores map[ssa.Value][]*ssa.Store
	fldStores map[fieldID][]*ssa.Store
}

// excluded are generated test doubles; they are not part of the product.
func excludedPkg(p string) bool {
	return strings.HasSuffix(p, "fakes")
}

func goEnv(extra ...string) []string {
	var out []string
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOSUMDB", "GOWORK", "GOOS", "GOARCH", "PWD":
			continue
		}
		out = append(out, e)
	}
	out = append(out, "GOFLAGS=-mod=readonly", "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off")
	return append(out, extra...)
}

func Load(repo string, patterns []string, extraEnv ...string) (*World, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedExportFile | packages.NeedTypes | packages.NeedSyntax |
			packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule | packages.NeedEmbedFiles,
		Dir:  repo,
		Env:  goEnv(extraEnv...),
		Fset: token.NewFileSet(),
	}
	// Dependencies outside the module only need their types: drop NeedDeps so that
	// they come from export data rather than from syntax.
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	w := &World{
		Repo: repo, Env: strings.Join(extraEnv, " "), Fset: cfg.Fset,
		ByPath: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{},
		fnSet: map[*ssa.Function]bool{}, astOf: map[types.Object]*ast.FuncDecl{},
		parent: map[*ssa.Function]*ssa.MakeClosure{},
	}
	var keep []*packages.Package
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
		if !strings.HasPrefix(p.PkgPath, modPath) {
			continue
		}
		keep = append(keep, p)
		w.ByPath[p.PkgPath] = p
	}
	if len(keep) == 0 {
		return nil, fmt.Errorf("no packages of %s found under %s", modPath, repo)
	}
	sort.Slice(keep, func(i, j int) bool { return keep[i].PkgPath < keep[j].PkgPath })
	w.Pkgs = keep
	if err := w.build(0, ""); err != nil {
		return nil, err
	}
	return w, nil
}

// Driven is the program with every instance of a generic function built, and
// with a package of functions (in driver) that use it.
func (w *World) Driven(driver string) (*World, error) {
	n := &World{
		Repo: w.Repo, Env: w.Env, Fset: w.Fset, ByPath: w.ByPath, Pkgs: w.Pkgs, SSA: map[string]*ssa.Package{},
		fnSet: map[*ssa.Function]bool{}, astOf: map[types.Object]*ast.FuncDecl{},
		parent: map[*ssa.Function]*ssa.MakeClosure{},
	}
	return n, n.build(ssa.InstantiateGenerics, driver)
}

type pkgImporter map[string]*types.Package

func (m pkgImporter) Import(path string) (*types.Package, error) {
	if p := m[path]; p != nil {
		return p, nil
	}
	return nil, fmt.Errorf("no package %s", path)
}

func (w *World) build(mode ssa.BuilderMode, driver string) error {
	keep := w.Pkgs
	prog, spkgs := ssautil.Packages(keep, mode)
	w.Prog = prog
	for i, sp := range spkgs {
		if sp == nil {
			return fmt.Errorf("no SSA for %s", keep[i].PkgPath)
		}
		sp.Build()
		w.SSA[keep[i].PkgPath] = sp
	}
	if err := w.loadModels(); err != nil {
		return err
	}
	if driver != "" {
		im := pkgImporter{}
		for _, p := range keep {
			im[p.PkgPath] = p.Types
			for _, q := range p.Types.Imports() {
				im[q.Path()] = q
			}
		}
		sp, err := w.typeAndBuild("driver", driver, im)
		if err != nil {
			return err
		}
		w.SSA["driver"] = sp
	}
	for _, p := range keep {
		if excludedPkg(p.PkgPath) {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if obj := p.TypesInfo.Defs[fd.Name]; obj != nil {
						w.astOf[obj] = fd
					}
				}
			}
		}
	}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || w.fnSet[f] || len(f.Blocks) == 0 {
			return
		}
		w.fnSet[f] = true
		w.Funcs = append(w.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range keep {
		if excludedPkg(p.PkgPath) {
			continue
		}
		sp := w.SSA[p.PkgPath]
		add(sp.Func("init"))
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				obj, _ := p.TypesInfo.Defs[fd.Name].(*types.Func)
				if obj == nil {
					continue
				}
				if fd.Name.Name == "init" && fd.Recv == nil {
					continue
				}
				add(prog.FuncValue(obj))
			}
		}
		for _, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(f.Name(), "init#") {
				add(f)
			}
		}
	}
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					if cf, ok := mc.Fn.(*ssa.Function); ok {
						w.parent[cf] = mc
					}
				}
			}
		}
	}
	return nil
}

// Pos renders a position relative to the repository.
func (w *World) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := w.Fset.Position(p)
	if r, err := filepath.Rel(w.Repo, ps.Filename); err == nil && !strings.HasPrefix(r, "..") {
		ps.Filename = r
	}
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}

func (w *World) InstrPos(in ssa.Instruction) string {
	if in.Pos().IsValid() {
		return w.Pos(in.Pos())
	}
	if v, ok := in.(ssa.Value); ok {
		if r := v.Referrers(); r != nil {
			for _, u := range *r {
				if u.Pos().IsValid() {
					return w.Pos(u.Pos())
				}
			}
		}
	}
	if f := in.Parent(); f != nil {
		return w.Pos(f.Pos())
	}
	return "?"
}

// short name of the package within the module
func shortPkg(p *types.Package) string {
	if p == nil {
		return ""
	}
	if p.Path() == modPath {
		return "cli"
	}
	if strings.HasPrefix(p.Path(), modPath+"/") {
		s := strings.TrimPrefix(p.Path(), modPath+"/")
		s = strings.TrimPrefix(s, "extensions/")
		return s
	}
	return p.Path()
}

// FName is the stable, human readable name of a function: pkg.Name,
// pkg.(T).Name; closures are parent$n.
func FName(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	if f.Parent() != nil {
		return FName(f.Parent()) + strings.TrimPrefix(f.Name(), f.Parent().Name())
	}
	var pk *types.Package
	if f.Pkg != nil {
		pk = f.Pkg.Pkg
	} else if f.Object() != nil {
		pk = f.Object().Pkg()
	}
	s := shortPkg(pk)
	if r := f.Signature.Recv(); r != nil {
		return s + ".(" + recvName(r.Type()) + ")." + f.Name()
	}
	if s == "" {
		return f.Name()
	}
	return s + "." + f.Name()
}

func recvName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return types.TypeString(t, func(p *types.Package) string { return shortPkg(p) })
}

func TypeStr(t types.Type) string {
	if t == nil {
		return "nil"
	}
	return types.TypeString(t, func(p *types.Package) string { return shortPkg(p) })
}
