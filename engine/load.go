package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/bnb-chain/zkbnb-setup"

type Program struct {
	prog *ssa.Program
	pkgs map[string]*ssa.Package
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule | packages.NeedExportFile,
		Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	pr := &Program{prog: prog, pkgs: map[string]*ssa.Package{}}
	for i, p := range sp {
		if p != nil {
			pr.pkgs[pkgs[i].PkgPath] = p
		}
	}
	return pr, nil
}

func (p *Program) inRepo(fn *ssa.Function) bool {
	pk := fn.Pkg
	if pk == nil && fn.Parent() != nil {
		return p.inRepo(fn.Parent())
	}
	if pk == nil {
		if o := fn.Origin(); o != nil && o != fn {
			return p.inRepo(o)
		}
		// wrappers: look at the object
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return strings.HasPrefix(fn.Object().Pkg().Path(), modPath)
		}
		return false
	}
	return strings.HasPrefix(pk.Pkg.Path(), modPath)
}

func (p *Program) fn(pkg, name string) *ssa.Function {
	pk := p.pkgs[modPath+pkg]
	if pk == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		tn := strings.TrimPrefix(name[:i], "*")
		t := pk.Type(tn)
		if t == nil {
			return nil
		}
		var ty types.Type = t.Type()
		if strings.HasPrefix(name, "*") {
			ty = types.NewPointer(ty)
		}
		ms := p.prog.MethodSets.MethodSet(ty)
		for j := 0; j < ms.Len(); j++ {
			if ms.At(j).Obj().Name() == name[i+1:] {
				return p.prog.MethodValue(ms.At(j))
			}
		}
		return nil
	}
	return pk.Func(name)
}

func (p *Program) method(t types.Type, m *types.Func) *ssa.Function {
	if t == nil {
		return nil
	}
	ms := p.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

func (p *Program) typ(pkg, name string) types.Type {
	pk := p.pkgs[modPath+pkg]
	if pk == nil || pk.Type(name) == nil {
		return nil
	}
	return pk.Type(name).Type()
}

// typ2 finds a type of any package
func (w *world) typ2(path, name string) types.Type {
	for _, p := range w.c.prog.prog.AllPackages() {
		if p.Pkg.Path() == path && p.Type(name) != nil {
			return p.Type(name).Type()
		}
	}
	w.c.ob(false, path+"."+name, "no such type")
	return types.Typ[types.Int]
}
