package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"hash/fnv"
	"math"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	"verif/analyzer/ai"
)

// Identity of formulas: two terms are the same function of the symbols if their normal
// forms agree or, where the normal form is not complete (roots, angles), if they agree at
// a set of points (identity testing). Points satisfy the facts of the path.

type env struct {
	seed int64
	wide bool // sample very small and very large numbers too
	draw bool // symbols of an abstract image, exact integer arithmetic
	memo map[*ai.Term]float64
	bad  map[*ai.Term]bool
}

func newEnv(seed int64) *env {
	return &env{seed: seed, memo: map[*ai.Term]float64{}, bad: map[*ai.Term]bool{}}
}

func (e *env) rnd(key string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s", e.seed, key)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// eval evaluates a term; ok is false if it has no numeric meaning.
func (e *env) eval(t *ai.Term) (float64, bool) {
	if v, ok := e.memo[t]; ok {
		return v, true
	}
	if e.bad[t] {
		return 0, false
	}
	v, ok := e.eval1(t)
	if ok && (math.IsNaN(v) || math.IsInf(v, 0)) {
		ok = false
	}
	if !ok {
		e.bad[t] = true
		return 0, false
	}
	e.memo[t] = v
	return v, true
}

func (e *env) eval1(t *ai.Term) (float64, bool) {
	switch t.Op {
	case "const":
		switch t.Kind {
		case ai.KInt, ai.KFloat:
			f, _ := constant.Float64Val(constant.ToFloat(t.C))
			return f, true
		case ai.KBool:
			if b, _ := t.BoolVal(); b {
				return 1, true
			}
			return 0, true
		}
		return 0, false
	case "sym":
		if e.draw {
			return e.drawSym(t)
		}
		if t.Kind == ai.KInt && strings.HasPrefix(t.Sym.Label, "n:") {
			return float64(e.rnd(t.Sym.Label).Intn(20000) - 10000), true
		}
		if t.Kind != ai.KFloat || !strings.HasPrefix(t.Sym.Label, "n") || !t.Sym.Pos && !strings.HasPrefix(t.Sym.Label, "n:") {
			return 0, false // not an input
		}
		r := e.rnd(t.Sym.Label)
		if t.Sym.Pos && e.wide {
			return math.Pow(10, 12*r.Float64()-5), true
		}
		if t.Sym.Pos {
			if e.seed%3 == 2 {
				return 1 + 40*r.Float64(), true
			}
			return math.Pow(10, 2.5*r.Float64()+0.4), true
		}
		return 200*r.Float64() - 100, true
	case "poly":
		ms, cs := ai.PolyOf(t)
		sum := 0.0
		for i, m := range ms {
			x, _ := cs[i].Float64()
			for k, a := range m.Atoms {
				v, ok := e.eval(a)
				if !ok {
					return 0, false
				}
				x *= math.Pow(v, float64(m.Exps[k]))
			}
			sum += x
		}
		return sum, true
	}
	if e.draw {
		if v, ok := e.drawOp(t); ok {
			return v, true
		}
	}
	as := make([]float64, len(t.Args))
	for i, a := range t.Args {
		v, ok := e.eval(a)
		if !ok {
			return 0, false
		}
		as[i] = v
	}
	b2f := func(b bool) (float64, bool) {
		if b {
			return 1, true
		}
		return 0, true
	}
	if e.draw {
		switch {
		case t.Op == "math.Round":
			return math.Round(as[0]), true
		case t.Op == "math.Trunc", strings.HasPrefix(t.Op, "f2i:"):
			return math.Trunc(as[0]), true
		case t.Op == "math.Floor":
			return math.Floor(as[0]), true
		case t.Op == "conv:uint8":
			return math.Mod(as[0], 256), as[0] >= 0
		case t.Op == "op>>":
			return math.Floor(as[0] / math.Pow(2, as[1])), true
		case t.Op == "op<<":
			return as[0] * math.Pow(2, as[1]), true
		}
	}
	switch t.Op {
	case "real", "i2f", "f32", "math.Round", "math.Trunc", "math.Floor":
		return as[0], true
	case "inv":
		return 1 / as[0], true
	case "math.Sin":
		return math.Sin(as[0]), true
	case "math.Cos":
		return math.Cos(as[0]), true
	case "math.Tan":
		return math.Tan(as[0]), true
	case "math.Sqrt":
		return math.Sqrt(as[0]), true
	case "math.Abs":
		return math.Abs(as[0]), true
	case "math.Atan":
		return math.Atan(as[0]), true
	case "math.Acos":
		return math.Acos(as[0]), true
	case "math.Asin":
		return math.Asin(as[0]), true
	case "math.Atan2":
		return math.Atan2(as[0], as[1]), true
	case "math.Hypot":
		return math.Hypot(as[0], as[1]), true
	case "math.Pow":
		return math.Pow(as[0], as[1]), true
	case "math.Mod":
		return math.Mod(as[0], as[1]), true
	case "math.Sincos.0":
		return math.Sin(as[0]), true
	case "math.Sincos.1":
		return math.Cos(as[0]), true
	case "math.Max", "max":
		return math.Max(as[0], as[1]), true
	case "math.Min", "min":
		return math.Min(as[0], as[1]), true
	case "math.Ceil":
		return math.Ceil(as[0]), true
	case "quo":
		if as[1] == 0 {
			return 0, false
		}
		return as[0] / as[1], true
	case "op>>":
		return as[0] / math.Pow(2, as[1]), true
	case "flt":
		return b2f(as[0] < as[1])
	case "fle":
		return b2f(as[0] <= as[1])
	case "feq":
		return b2f(as[0] == as[1])
	case "ge0":
		return b2f(as[0] >= 0)
	case "eq0":
		return b2f(as[0] == 0)
	case "and":
		for _, a := range as {
			if a == 0 {
				return b2f(false)
			}
		}
		return b2f(true)
	case "not":
		return b2f(as[0] == 0)
	}
	if strings.HasPrefix(t.Op, "f2i:") || strings.HasPrefix(t.Op, "conv:") {
		return as[0], true
	}
	return 0, false
}

// points returns evaluation points that satisfy the float facts; nil if none was found.
func points(f *ai.Facts, n int) []*env { return pointsOf(f, n, false) }

func pointsOf(f *ai.Facts, n int, draw bool) []*env {
	var lits []*ai.Term
	var want []bool
	var ints []*ai.Term
	var iwant []bool
	for l, v := range f.Lits {
		switch l.Op {
		case "flt", "fle", "feq", "and":
			if l.Op == "and" && v {
				continue // its parts are there too
			}
			lits = append(lits, l)
			want = append(want, v)
		case "ge0", "eq0":
			if draw || numeric(l.Args[0]) {
				ints = append(ints, l)
				iwant = append(iwant, v)
			}
		}
	}
	sort.Slice(ints, func(i, j int) bool { return ints[i].String() < ints[j].String() })
	for i, l := range ints {
		iwant[i] = f.Lits[l]
	}
	sort.Slice(lits, func(i, j int) bool { return lits[i].String() < lits[j].String() })
	for i, l := range lits {
		want[i] = f.Lits[l]
	}
	var out []*env
	for seed := int64(1); seed < 900 && len(out) < n; seed++ {
		e := newEnv(seed)
		e.wide = seed > 400
		e.draw = draw
		for i, l := range lits {
			if l.Op == "feq" && want[i] {
				e.solve(l.Args[0], l.Args[1])
			}
		}
		for i, l := range ints {
			if l.Op == "eq0" && iwant[i] {
				e.solve(l.Args[0], ai.Int(0))
			}
		}
		ok := true
		for i, l := range ints {
			v, known := e.eval(real(l.Args[0]))
			if !known {
				continue
			}
			tol := slack(l.Args[0])
			switch {
			case l.Op == "eq0" && iwant[i]:
				ok = ok && math.Abs(v) <= tol+1e-6*math.Abs(v)
			case l.Op == "eq0":
				ok = ok && math.Abs(v) > 0
			case iwant[i]:
				ok = ok && v >= -tol
			default:
				ok = ok && v < tol
			}
		}
		for i, l := range lits {
			v, known := e.eval(l)
			if l.Op == "feq" && want[i] {
				a, ok1 := e.eval(l.Args[0])
				b, ok2 := e.eval(l.Args[1])
				if ok1 && ok2 && near(a, b) {
					continue
				}
			}
			if known && (v == 1) != want[i] {
				ok = false
				break
			}
		}
		if ok {
			out = append(out, e)
		}
	}
	return out
}

// numeric tells whether an integer term is made of numbers of the input only.
func numeric(t *ai.Term) bool {
	ms, _ := ai.PolyOf(t)
	for _, m := range ms {
		for _, a := range m.Atoms {
			if a.Op == "sym" && !strings.HasPrefix(a.Sym.Label, "n:") {
				return false
			}
			if a.Op != "sym" && !strings.HasPrefix(a.Op, "f2i:") {
				return false
			}
		}
	}
	return true
}

// slack bounds what rounding to integers changes in a term.
func slack(t *ai.Term) float64 {
	ms, cs := ai.PolyOf(t)
	sum := 0.0
	for i, m := range ms {
		for _, a := range m.Atoms {
			if a.Op != "sym" {
				c, _ := cs[i].Float64()
				sum += math.Abs(c)
			}
		}
	}
	return sum
}

// solve chooses the value of a symbol such that a equals b.
func (e *env) solve(a, b *ai.Term) {
	ms, cs := ai.PolyOf(real(ai.Sub(real(a), real(b))))
	for i, m := range ms {
		for k, at := range m.Atoms {
			if m.Exps[k] != 1 || len(m.Atoms) > 1 && !e.draw {
				continue
			}
			if e.solveFor(ms, cs, i, k, at) {
				return
			}
		}
	}
}

// solveFor chooses the symbol that is atom k of monomial i such that the sum is zero.
func (e *env) solveFor(ms []ai.Mono, cs []*big.Rat, i, k int, s *ai.Term) bool {
	if s.Op == "real" {
		s = s.Args[0]
	}
	if s.Op != "sym" {
		return false
	}
	free := strings.HasPrefix(s.Sym.Label, "n:") || e.draw
	if !free && !s.Sym.Pos {
		return false
	}
	if _, done := e.memo[s]; done {
		return false
	}
	rest, coef := 0.0, 0.0
	for q, m := range ms {
		x, _ := cs[q].Float64()
		for j, at := range m.Atoms {
			if q == i && j == k {
				continue
			}
			if mentionsTerm(at, s) {
				return false
			}
			v, known := e.eval(at)
			if !known {
				return false
			}
			x *= math.Pow(v, float64(m.Exps[j]))
		}
		if q == i {
			coef = x
		} else {
			rest += x
		}
	}
	x := -rest / coef
	if math.IsNaN(x) || math.IsInf(x, 0) || x <= 0 && !free || s.Kind == ai.KInt && x != math.Trunc(x) {
		return false
	}
	if e.draw && strings.Contains(strings.ToLower(s.Sym.Label), "opacity") && (x < 0 || x > 1) {
		return false
	}
	e.memo[s] = x
	return true
}

// same compares two real-valued terms: 1 the same, -1 different, 0 not decided.
func same(a, b *ai.Term, ps []*env) int {
	a, b = real(a), real(b)
	if a == b {
		return 1
	}
	if len(ps) == 0 {
		return 0
	}
	for _, e := range ps {
		x, ok1 := e.eval(a)
		y, ok2 := e.eval(b)
		if !ok1 || !ok2 {
			return 0
		}
		if !near(x, y) {
			return -1
		}
	}
	return 1
}

func near(x, y float64) bool {
	return math.Abs(x-y) <= 1e-7*(1+math.Max(math.Abs(x), math.Abs(y)))
}

// expr builds a term from a Go expression; three-digit numerals are generic.
func expr(s string) *ai.Term {
	x, err := parser.ParseExpr(s)
	if err != nil {
		panic("expression " + s + ": " + err.Error())
	}
	return exprOf(x)
}

func exprOf(x ast.Expr) *ai.Term {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return exprOf(n.X)
	case *ast.BasicLit:
		if generic.MatchString(n.Value) {
			return num(n.Value)
		}
		r, ok := new(big.Rat).SetString(n.Value)
		if !ok {
			panic("literal " + n.Value)
		}
		return ai.ConstOf(constant.ToFloat(constant.Make(r)), ai.KFloat)
	case *ast.Ident:
		if n.Name == "pi" {
			return ai.Float(math.Pi)
		}
	case *ast.UnaryExpr:
		if n.Op == token.SUB {
			return ai.Neg(exprOf(n.X))
		}
		return exprOf(n.X)
	case *ast.BinaryExpr:
		a, b := exprOf(n.X), exprOf(n.Y)
		switch n.Op {
		case token.ADD:
			return ai.Add(a, b)
		case token.SUB:
			return ai.Sub(a, b)
		case token.MUL:
			return ai.Mul(a, b)
		case token.QUO:
			return ai.Quo(a, b)
		}
	case *ast.CallExpr:
		f := map[string]string{"sqrt": "math.Sqrt", "sin": "math.Sin", "cos": "math.Cos", "tan": "math.Tan"}[n.Fun.(*ast.Ident).Name]
		if f != "" {
			return ai.App(ai.KFloat, f, exprOf(n.Args[0]))
		}
	}
	panic(fmt.Sprintf("expression %T", x))
}
