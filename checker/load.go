package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked and SSA-built repository.
type Program struct {
	root   string
	mod    string
	fset   *token.FileSet
	prog   *ssa.Program
	pkgs   []*packages.Package
	byPath map[string]*packages.Package // short path
	spkg   map[string]*ssa.Package
	funcs  []*ssa.Function // every function with a body in the repository, sorted
	fnName map[string]*ssa.Function
	mutTab map[string]bool
}

type loadError struct{ msg string }

func loadProgram(root string) *Program {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule | packages.NeedDeps | packages.NeedImports,
		Dir:  root, Fset: fset,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GO111MODULE=on", "GOTOOLCHAIN=local"),
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(loadError{"load: " + err.Error()})
	}
	pr := &Program{root: root, fset: fset, byPath: map[string]*packages.Package{}, spkg: map[string]*ssa.Package{}, fnName: map[string]*ssa.Function{}}
	for _, p := range ps {
		for _, e := range p.Errors {
			panic(loadError{"type-check: " + e.Error()})
		}
		if p.Module != nil {
			pr.mod = p.Module.Path
		}
	}
	if len(ps) < 10 || pr.mod == "" {
		panic(loadError{fmt.Sprintf("only %d packages loaded", len(ps))})
	}
	pr.pkgs = ps
	prog, sps := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	pr.prog = prog
	for i, p := range ps {
		if sps[i] == nil {
			panic(loadError{"no SSA for " + p.PkgPath})
		}
		pr.byPath[pr.short(p.PkgPath)] = p
		pr.spkg[pr.short(p.PkgPath)] = sps[i]
	}
	for f := range ssautil.AllFunctions(prog) {
		if len(f.Blocks) == 0 || !pr.inRepo(f) {
			continue
		}
		pr.funcs = append(pr.funcs, f)
	}
	sort.Slice(pr.funcs, func(i, j int) bool {
		a, b := pr.funcs[i], pr.funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	for _, f := range pr.funcs {
		pr.fnName[pr.fname(f)] = f
	}
	return pr
}

// pkgOf finds the package a function belongs to, following closures and
// synthetic wrappers.
func pkgOf(f *ssa.Function) *types.Package {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg.Pkg
		}
		if g.Object() != nil && g.Object().Pkg() != nil {
			return g.Object().Pkg()
		}
		if o := g.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg
		}
	}
	return nil
}
func (pr *Program) inRepo(f *ssa.Function) bool {
	p := pkgOf(f)
	return p != nil && (p.Path() == pr.mod || strings.HasPrefix(p.Path(), pr.mod+"/"))
}

// production excludes test helpers and the developer tools that ship no component.
func (pr *Program) production(f *ssa.Function) bool {
	p := pkgOf(f)
	if p == nil || !pr.inRepo(f) {
		return false
	}
	s := pr.short(p.Path())
	return s != "spouttest" && s != "cmd/slowinfluxd" && s != "cmd/benchcheck"
}

func (pr *Program) short(s string) string {
	if pr.mod != "" {
		s = strings.ReplaceAll(s, pr.mod+"/", "")
	}
	s = strings.ReplaceAll(s, "github.com/nats-io/nats.go.", "nats.")
	return s
}
func (pr *Program) fname(f *ssa.Function) string { return pr.short(f.String()) }
func (pr *Program) posString(p token.Pos) string {
	q := pr.fset.Position(p)
	if !q.IsValid() {
		return "?"
	}
	if r, err := filepath.Rel(pr.root, q.Filename); err == nil && !strings.HasPrefix(r, "..") {
		return fmt.Sprintf("%s:%d", r, q.Line)
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// fn resolves a function by short name; an unresolved anchor fails the check.
func (pr *Program) fn(name string) *ssa.Function {
	if f := pr.fnName[name]; f != nil {
		return f
	}
	panic(undecided{"anchor function not found: " + name})
}
func (pr *Program) lookup(name string) *ssa.Function {
	for _, f := range pr.funcs {
		if pr.fname(f) == name {
			return f
		}
	}
	return nil
}

func (pr *Program) pkg(name string) *packages.Package {
	if p := pr.byPath[name]; p != nil {
		return p
	}
	panic(undecided{"anchor package not found: " + name})
}
func (pr *Program) typ(pkg, name string) types.Type {
	o := pr.pkg(pkg).Types.Scope().Lookup(name)
	if o == nil {
		panic(undecided{"anchor type not found: " + pkg + "." + name})
	}
	return o.Type()
}
func (pr *Program) typOrNil(pkg, name string) types.Type {
	p := pr.byPath[pkg]
	if p == nil {
		return nil
	}
	o := p.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}
func (pr *Program) field(pkg, typ, field string) int {
	s, ok := pr.typ(pkg, typ).Underlying().(*types.Struct)
	if ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == field {
				return i
			}
		}
	}
	panic(undecided{"anchor field not found: " + pkg + "." + typ + "." + field})
}

// eachFile visits the syntax of the repository.
func (pr *Program) eachFile(f func(p *packages.Package, file *ast.File)) {
	for _, p := range pr.pkgs {
		for _, x := range p.Syntax {
			f(p, x)
		}
	}
}

// mutable reports whether a struct field is ever stored to through a pointer
// other than one freshly allocated in the storing function.
func (pr *Program) mutable(t types.Type, i int) bool {
	if pr.mutTab == nil {
		pr.mutTab = map[string]bool{}
		for _, f := range pr.funcs {
			if !pr.production(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					s, ok := ins.(*ssa.Store)
					if !ok {
						continue
					}
					a := s.Addr
					for {
						fa, ok := a.(*ssa.FieldAddr)
						if !ok {
							break
						}
						if _, ok := fa.X.(*ssa.Alloc); !ok {
							pr.mutTab[fieldKey(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field)] = true
						}
						a = fa.X
					}
					if ia, ok := a.(*ssa.IndexAddr); ok {
						_ = ia
					}
				}
			}
		}
	}
	return pr.mutTab[fieldKey(t, i)]
}
func fieldKey(t types.Type, i int) string { return fmt.Sprintf("%s#%d", types.Unalias(t).String(), i) }
