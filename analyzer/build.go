package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// typ returns an exported type of the root package.
func (p *Program) typ(name string) types.Type {
	o := p.Svg.Pkg.Scope().Lookup(name)
	if o == nil {
		panic("the exported type " + name + " is gone")
	}
	return o.Type()
}

// cnst returns an exported integer constant of a package.
func cnst(pk *types.Package, name string) int64 {
	o, ok := pk.Scope().Lookup(name).(*types.Const)
	if !ok {
		panic("the constant " + name + " is gone")
	}
	n, _ := constant.Int64Val(o.Val())
	return n
}

func (p *Program) pkg(path string) *types.Package {
	for _, sp := range p.Prog.AllPackages() {
		if sp.Pkg.Path() == path {
			return sp.Pkg
		}
	}
	panic("package " + path + " is not loaded")
}

func (p *Program) ssaPkg(path string) *ssa.Package {
	for _, sp := range p.Prog.AllPackages() {
		if sp.Pkg.Path() == path {
			return sp
		}
	}
	panic("package " + path + " is not loaded")
}

// fieldIdx finds a field of a struct type.
func fieldIdx(t types.Type, name string) int {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	panic(fmt.Sprintf("the field %s of %s is gone", name, t))
}

// field reads v.name where name may be a dotted path.
func field(v ai.Val, t types.Type, name string) ai.Val {
	for _, n := range strings.Split(name, ".") {
		i := fieldIdx(t, n)
		v = v.(*ai.StructV).F[i]
		t = t.Underlying().(*types.Struct).Field(i).Type()
	}
	return v
}

// with returns v with v.name replaced.
func with(v ai.Val, t types.Type, name string, nv ai.Val) ai.Val {
	n, rest, deep := strings.Cut(name, ".")
	i := fieldIdx(t, n)
	s := v.(*ai.StructV)
	c := &ai.StructV{F: append([]ai.Val{}, s.F...)}
	if deep {
		nv = with(s.F[i], t.Underlying().(*types.Struct).Field(i).Type(), rest, nv)
	}
	c.F[i] = nv
	return c
}

func ftype(t types.Type, name string) types.Type {
	for _, n := range strings.Split(name, ".") {
		t = t.Underlying().(*types.Struct).Field(fieldIdx(t, n)).Type()
	}
	return t
}

// sliceOf allocates a slice with the given elements.
func sliceOf(in *ai.Interp, st *ai.State, elem types.Type, label string, vs ...ai.Val) *ai.SliceV {
	return in.NewSlice(st, &ai.SeqV{Elem: elem, Segs: []ai.Seg{{Elems: vs}}}, label)
}

// real strips the roundings and conversions off an arithmetic term and normalises it.
func real(t *ai.Term) *ai.Term {
	return realMemo(t, map[*ai.Term]*ai.Term{})
}

func realMemo(t *ai.Term, memo map[*ai.Term]*ai.Term) *ai.Term {
	if r, ok := memo[t]; ok {
		return r
	}
	r := real1(t, memo)
	memo[t] = r
	return r
}

func toF(t *ai.Term) *ai.Term {
	if t.IsConst() {
		return ai.ConstOf(t.C, ai.KFloat)
	}
	if t.Kind == ai.KInt {
		// one real-valued atom per integer atom
		return ai.App(ai.KFloat, "real", t)
	}
	return t
}

func real1(t *ai.Term, memo map[*ai.Term]*ai.Term) *ai.Term {
	switch {
	case t.IsConst():
		return toF(t)
	case t.Op == "i2f", t.Op == "f32", strings.HasPrefix(t.Op, "f2i:"), strings.HasPrefix(t.Op, "conv:"), t.Op == "math.Round", t.Op == "math.Trunc", t.Op == "math.Floor":
		return realMemo(t.Args[0], memo)
	}
	if t.Kind != ai.KInt && t.Kind != ai.KFloat {
		return t
	}
	ms, cs := ai.PolyOf(t)
	if len(ms) == 1 && len(ms[0].Atoms) == 1 && ms[0].Atoms[0] == t {
		// an atom
		if len(t.Args) > 0 && t.Kind == ai.KFloat {
			as := make([]*ai.Term, len(t.Args))
			diff := false
			for i, a := range t.Args {
				as[i] = a
				if a.Kind == ai.KFloat {
					as[i] = realMemo(a, memo)
				}
				diff = diff || as[i] != a
			}
			if diff {
				if t.Op == "inv" {
					return ai.Quo(ai.Float(1), as[0])
				}
				return ai.App(t.Kind, t.Op, as...)
			}
			return t
		}
		return toF(t)
	}
	sum := ai.Float(0)
	for i, m := range ms {
		x := ai.ConstOf(constant.Make(new(big.Rat).Set(cs[i])), ai.KFloat)
		for k, a := range m.Atoms {
			ra := realMemo(a, memo)
			for e := m.Exps[k]; e > 0; e-- {
				x = ai.Mul(x, ra)
			}
			for e := m.Exps[k]; e < 0; e++ {
				x = ai.Quo(x, ra)
			}
		}
		sum = ai.Add(sum, x)
	}
	return sum
}

// rat makes a float constant.
func rat(a, b int64) *ai.Term {
	return ai.ConstOf(constant.BinaryOp(constant.MakeInt64(a), token.QUO, constant.MakeInt64(b)), ai.KFloat)
}

// termOf views a value as a term.
func termOf(v ai.Val) *ai.Term {
	t, ok := v.(*ai.Term)
	if !ok {
		return ai.TermOf(v)
	}
	return t
}

// unbox strips an interface.
func unbox(v ai.Val) ai.Val {
	if i, ok := v.(*ai.IfaceV); ok {
		return i.V
	}
	return v
}

// mentions reports whether t depends on a term accepted by f.
func mentions(t *ai.Term, f func(*ai.Term) bool) bool {
	found := false
	t.Walk(func(x *ai.Term) bool {
		if f(x) {
			found = true
		}
		return !found
	})
	return found
}

func mentionsTerm(t, x *ai.Term) bool {
	return mentions(t, func(y *ai.Term) bool { return y == x })
}
