package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	Prog *ssa.Program
	Zygo *ssa.Package
	Cmd  *ssa.Package
	Pkgs []*packages.Package
	Fset *token.FileSet
	Repo string
	NFun int
}

func LoadProgram(repo string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOWORK=off", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")}
	pkgs, err := packages.Load(cfg, "./zygo", "./cmd/...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("type check: %v", e)
		}
	}
	prog, sps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	P := &Program{Prog: prog, Pkgs: pkgs, Fset: prog.Fset, Repo: repo}
	for _, sp := range sps {
		if sp == nil {
			return nil, fmt.Errorf("no SSA package")
		}
		sp.Build()
		switch {
		case strings.HasSuffix(sp.Pkg.Path(), "/zygo") && sp.Pkg.Name() == "zygo":
			P.Zygo = sp
		case sp.Pkg.Name() == "main" && strings.HasSuffix(sp.Pkg.Path(), "/cmd/zygo"):
			P.Cmd = sp
		}
	}
	if P.Zygo == nil {
		return nil, fmt.Errorf("package zygo not found")
	}
	return P, nil
}

func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	f := strings.TrimPrefix(ps.Filename, p.Repo+"/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// Func finds a package-level function of zygo.
func (p *Program) Func(name string) *ssa.Function { return p.Zygo.Func(name) }

func (p *Program) Type(name string) types.Type {
	m := p.Zygo.Type(name)
	if m == nil {
		return nil
	}
	return m.Type()
}

// Method finds a method of *T (or T).
func (p *Program) Method(T, name string) *ssa.Function {
	t := p.Type(T)
	if t == nil {
		return nil
	}
	if sel := p.Prog.MethodSets.MethodSet(types.NewPointer(t)).Lookup(p.Zygo.Pkg, name); sel != nil {
		return p.Prog.MethodValue(sel)
	}
	return nil
}
