package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modulePath = "github.com/stephen/cssc"

// Program is the type-checked repository in SSA form. Packages outside of the
// repository have types, but no bodies.
type Program struct {
	Fset  *token.FileSet
	Prog  *ssa.Program
	Pkgs  map[string]*ssa.Package // by import path relative to the module ("" is the root)
	TPkgs map[string]*packages.Package
	All   []*ssa.Function // every function with a body in the repository
	Root  string
}

// loadProgram loads the repository. overlay holds further files, by absolute path.
func loadProgram(root string, overlay map[string][]byte) (*Program, error) {
	var env []string
	for _, kv := range os.Environ() {
		switch kv[:strings.IndexByte(kv, '=')+1] {
		case "GOFLAGS=", "GOOS=", "GOARCH=", "GOWORK=", "GO111MODULE=":
			continue
		}
		env = append(env, kv)
	}
	env = append(env, "GOFLAGS=-mod=readonly", "GOWORK=off")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir: root,
		Env: env,

		Overlay: overlay,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, fmt.Errorf("cannot load %s: %v", root, err)
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}

	prog, ssapkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()

	p := &Program{
		Fset:  prog.Fset,
		Prog:  prog,
		Pkgs:  map[string]*ssa.Package{},
		TPkgs: map[string]*packages.Package{},
		Root:  root,
	}
	for i, sp := range ssapkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(pkgs[i].PkgPath, modulePath), "/")
		p.Pkgs[rel] = sp
		p.TPkgs[rel] = pkgs[i]
	}
	for fn := range ssautil.AllFunctions(prog) {
		if inRepo(fn) && len(fn.Blocks) > 0 {
			p.All = append(p.All, fn)
		}
	}
	sort.Slice(p.All, func(i, j int) bool {
		a, b := p.All[i], p.All[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	if len(p.All) < 100 {
		return nil, fmt.Errorf("only %d functions found in %s", len(p.All), root)
	}
	return p, nil
}

// fnPackage is the package of a function, also of closures, wrappers and bound methods.
func fnPackage(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg()
		}
		if org := f.Origin(); org != nil && org.Pkg != nil {
			return org.Pkg.Pkg
		}
	}
	return nil
}

func pkgInRepo(p *types.Package) bool {
	return p != nil && (p.Path() == modulePath || strings.HasPrefix(p.Path(), modulePath+"/"))
}

func inRepo(fn *ssa.Function) bool { return pkgInRepo(fnPackage(fn)) }

// Pos renders a position relative to the repository root.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	if rel, err := filepath.Rel(p.Root, ps.Filename); err == nil && !strings.HasPrefix(rel, "..") {
		ps.Filename = rel
	}
	return fmt.Sprintf("%s:%d:%d", ps.Filename, ps.Line, ps.Column)
}

// instrPos finds a position for an instruction, if necessary the one of a neighbour.
func instrPos(in ssa.Instruction) token.Pos {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	if b := in.Block(); b != nil {
		seen := false
		for _, o := range b.Instrs {
			if o == in {
				seen = true
			}
			if seen && o.Pos().IsValid() {
				return o.Pos()
			}
		}
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			if b.Instrs[i].Pos().IsValid() {
				return b.Instrs[i].Pos()
			}
		}
	}
	if in.Parent() != nil {
		return in.Parent().Pos()
	}
	return token.NoPos
}

// Func finds a function or method by package (relative path) and name, e.g. "Next" or "Lexer.Next".
func (p *Program) Func(pkg, name string) *ssa.Function {
	sp := p.Pkgs[pkg]
	if sp == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		t := sp.Type(name[:i])
		if t == nil {
			return nil
		}
		for _, typ := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
			if sel := p.Prog.MethodSets.MethodSet(typ).Lookup(sp.Pkg, name[i+1:]); sel != nil {
				return p.Prog.MethodValue(sel)
			}
		}
		return nil
	}
	return sp.Func(name)
}

// Named finds a named type.
func (p *Program) Named(pkg, name string) *types.Named {
	sp := p.Pkgs[pkg]
	if sp == nil {
		return nil
	}
	t := sp.Type(name)
	if t == nil {
		return nil
	}
	n, _ := t.Type().(*types.Named)
	return n
}
