package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/analyzer/ai"
)

const modPath = "github.com/lafriks/go-svg"

// Program is the type-checked program in SSA form.
type Program struct {
	Dir   string
	Prog  *ssa.Program
	Pkgs  []*packages.Package
	SSA   []*ssa.Package // module packages that are not commands
	All   []*ssa.Package // all module packages
	Svg   *ssa.Package
	mods  []types.Type
	extra []*ssa.Package
}

// Load loads and builds the module in dir.
func Load(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the program does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Dir: dir, Prog: prog, Pkgs: pkgs}
	for i, sp := range ps {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.All = append(p.All, sp)
		if sp.Pkg.Name() != "main" {
			p.SSA = append(p.SSA, sp)
		}
		if sp.Pkg.Path() == modPath {
			p.Svg = sp
		}
	}
	if p.Svg == nil {
		return nil, fmt.Errorf("package %s not found", modPath)
	}
	for _, sp := range p.SSA {
		sc := sp.Pkg.Scope()
		names := sc.Names()
		sort.Strings(names)
		for _, n := range names {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
					p.mods = append(p.mods, nt)
				}
			}
		}
	}
	return p, nil
}

// Interp returns a fresh interpreter.
func (p *Program) Interp() *ai.Interp {
	in := ai.New(p.Prog, modPath)
	in.AllMod = p.mods
	in.Until = deadline
	return in
}

// Base returns the state after package initialisation.
func (p *Program) Base(in *ai.Interp) *ai.State {
	st := in.NewState()
	all := append(append([]*ssa.Package{}, p.extra...), p.SSA...)
	for _, sp := range all {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				o := in.GlobalObj(g)
				st.Heap[o] = ai.Zero(o.T)
			}
		}
	}
	for _, sp := range all {
		f := sp.Func("init")
		rs := in.Call(st, f, nil, nil, nil)
		if len(rs) != 1 {
			panic(fmt.Sprintf("package initialisation of %s has %d outcomes", sp.Pkg.Path(), len(rs)))
		}
		st = rs[0].St
	}
	st.Evs = nil
	in.Log = &ai.Log{}
	return st
}

// Pos renders the position of an instruction.
func (p *Program) Pos(i ssa.Instruction) string {
	if i == nil {
		return "-"
	}
	return p.PosOf(bestPos(i)) + " (" + i.Parent().Name() + ")"
}

func bestPos(i ssa.Instruction) token.Pos {
	if i.Pos().IsValid() {
		return i.Pos()
	}
	b := i.Block()
	if b != nil {
		at := -1
		for k, x := range b.Instrs {
			if x == i {
				at = k
			}
		}
		for d := 1; d < len(b.Instrs); d++ {
			for _, k := range []int{at - d, at + d} {
				if k >= 0 && k < len(b.Instrs) && b.Instrs[k].Pos().IsValid() {
					return b.Instrs[k].Pos()
				}
			}
		}
	}
	return i.Parent().Pos()
}

// PosOf renders a position relative to the repository.
func (p *Program) PosOf(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Prog.Fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(p.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}
