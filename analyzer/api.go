package main

import (
	"fmt"
	"go/types"
	"math"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	checks["C18"] = checkPathText
	checks["C19"] = checkMatrix
}

// Direct analysis of exported functions and methods for symbolic arguments.

// method finds an exported method of a type of the root package.
func (p *Program) method(typ, name string) *ssa.Function {
	nt := p.typ(typ).(*types.Named)
	for i := 0; i < nt.NumMethods(); i++ {
		if m := nt.Method(i); m.Name() == name {
			if f := p.Prog.FuncValue(m); f != nil && len(f.Blocks) > 0 {
				return f
			}
		}
	}
	panic("the exported method " + typ + "." + name + " is gone")
}

// symbolic makes a value of symbols that stand for any number; their names have the prefix n:.
func symbolic(t types.Type, label string) ai.Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &ai.StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, symbolic(u.Field(i).Type(), label+"."+u.Field(i).Name()))
		}
		return s
	case *types.Array:
		a := &ai.ArrV{}
		for i := int64(0); i < u.Len(); i++ {
			a.E = append(a.E, symbolic(u.Elem(), fmt.Sprintf("%s.%d", label, i)))
		}
		return a
	case *types.Basic:
		if u.Info()&types.IsFloat != 0 {
			return ai.Fresh(ai.KFloat, "n:"+label)
		}
		if u.Info()&types.IsInteger != 0 {
			return ai.Fresh(ai.KInt, "n:"+label)
		}
	}
	panic("no symbolic value of " + t.String())
}

func flatVal(v ai.Val) []*ai.Term {
	var out []*ai.Term
	switch x := v.(type) {
	case ai.TupleV:
		for _, e := range x {
			out = append(out, flatVal(e)...)
		}
	case *ai.IfaceV:
		return flatVal(x.V)
	default:
		flat(v, &out)
	}
	return out
}

// formula decides that a function computes the given function of its arguments.
func (s *Scripts) formula(fn *ssa.Function, want func(a []float64) []float64, tol float64) {
	in := s.in
	in.Log = &ai.Log{}
	in.Fns = map[*ssa.Function]bool{}
	var args []ai.Val
	var flatArgs []*ai.Term
	for i, p := range fn.Params {
		v := symbolic(p.Type(), fmt.Sprintf("%s/%d", fn.String(), i))
		args = append(args, v)
		flatArgs = append(flatArgs, flatVal(v)...)
	}
	name := fmt.Sprintf("%s at %s", fn.Name(), s.c.P.PosOf(fn.Pos()))
	rs := s.call(s.base.Clone(), fn, args, name)
	for _, u := range in.Log.Undec {
		s.c.Note("%s: %s", name, u)
	}
	if len(rs) == 0 {
		s.c.Note("%s: no outcome was found", name)
	}
	for _, r := range rs {
		o := &Outcome{s: s, St: r.St, fns: in.Fns}
		ps := points(r.St.Facts, 8)
		if len(ps) == 0 {
			s.c.Note("%s: no point satisfies the conditions of a path", name)
			continue
		}
		res := flatVal(r.Ret)
		var diff, unk []string
		for _, e := range ps {
			var as []float64
			for _, t := range flatArgs {
				x, _ := e.eval(t)
				as = append(as, x)
			}
			w := want(as)
			if w == nil {
				continue
			}
			if len(w) != len(res) {
				diff = append(diff, fmt.Sprintf("%d results where %d are expected", len(res), len(w)))
				break
			}
			for i, t := range res {
				x, ok := e.eval(real(t))
				if !ok {
					unk = append(unk, clip(t.String()))
					break
				}
				if math.Abs(x-w[i]) > tol+1e-6*math.Max(math.Abs(x), math.Abs(w[i])) {
					diff = append(diff, fmt.Sprintf("component %d of the result is %s (%.6g where %.6g is expected)", i, clip(t.String()), x, w[i]))
					break
				}
			}
			if len(diff) > 0 {
				break
			}
		}
		s.report(o, diff, unk, "%s computes what its name says", name)
	}
}

// ---- C19 ----

func checkMatrix(c *Check) {
	s := c.skeletons("Exported methods of Matrix2D are interpreted for symbolic matrices and arguments and must compute the affine map they are named after. Families for transform attributes: every transform function with every number of parameters, every ordered pair (thorough: triple) of functions in a list with several separators, nested groups, transforms of used definitions.")
	id := func(m [6]float64) []float64 { return m[:] }
	m6 := func(a []float64) (m [6]float64) { copy(m[:], a); return }
	tr := func(m [6]float64, x, y float64) (float64, float64) {
		return m[0]*x + m[2]*y + m[4], m[1]*x + m[3]*y + m[5]
	}
	M := func(name string, tol float64, f func(m [6]float64, a []float64) []float64) {
		s.formula(c.P.method("Matrix2D", name), func(a []float64) []float64 { return f(m6(a), a[6:]) }, tol)
	}
	M("Mult", 0, func(m [6]float64, a []float64) []float64 { return id(mul(m, m6(a))) })
	M("Translate", 0, func(m [6]float64, a []float64) []float64 {
		return id(mul(m, [6]float64{1, 0, 0, 1, a[0], a[1]}))
	})
	M("Scale", 0, func(m [6]float64, a []float64) []float64 { return id(mul(m, [6]float64{a[0], 0, 0, a[1], 0, 0})) })
	M("Rotate", 1e-9, func(m [6]float64, a []float64) []float64 {
		sn, cs := math.Sincos(a[0])
		return id(mul(m, [6]float64{cs, sn, -sn, cs, 0, 0}))
	})
	M("SkewX", 1e-9, func(m [6]float64, a []float64) []float64 {
		return id(mul(m, [6]float64{1, 0, math.Tan(a[0]), 1, 0, 0}))
	})
	M("SkewY", 1e-9, func(m [6]float64, a []float64) []float64 {
		return id(mul(m, [6]float64{1, math.Tan(a[0]), 0, 1, 0, 0}))
	})
	M("Invert", 1e-9, func(m [6]float64, a []float64) []float64 {
		d := m[0]*m[3] - m[1]*m[2]
		if math.Abs(d) < 1e-3 {
			return nil
		}
		return []float64{m[3] / d, -m[1] / d, -m[2] / d, m[0] / d, (m[2]*m[5] - m[3]*m[4]) / d, (m[1]*m[4] - m[0]*m[5]) / d}
	})
	M("Transform", 0, func(m [6]float64, a []float64) []float64 {
		x, y := tr(m, a[0], a[1])
		return []float64{x, y}
	})
	M("TransformVector", 0, func(m [6]float64, a []float64) []float64 {
		x, y := tr(m, a[0], a[1])
		return []float64{x - m[4], y - m[5]}
	})
	fixedPts := func(m [6]float64, a []float64) []float64 {
		var out []float64
		for i := 0; i+1 < len(a); i += 2 {
			x, y := tr(m, a[i]/64, a[i+1]/64)
			out = append(out, 64*x, 64*y)
		}
		return out
	}
	for _, n := range []string{"TFixed", "MoveTo", "LineTo", "QuadTo", "CubicTo"} {
		M(n, 1, fixedPts)
	}
	M("LineWidthScale", 0, func(m [6]float64, a []float64) []float64 { return []float64{(m[0] + m[3]) / 2} })
	c.Must(len(s.base.Heap) > 0, "the package is initialised")
	if g := c.P.Svg.Var("Identity"); g != nil {
		v := flatVal(s.base.Load(s.in.Get(s.base, g).(*ai.PtrV)))
		ok := len(v) == 6
		for i, t := range v {
			f, known := newEnv(1).eval(t)
			ok = ok && known && f == []float64{1, 0, 0, 1, 0, 0}[i]
		}
		c.Must(ok, "Identity at %s is the identity matrix", c.P.PosOf(g.Pos()))
	}
	// transform attributes
	fns := []string{
		"translate(@)", "translate(@,@)", "translate(-@ @)", "scale(@)", "scale(@,@)", "scale(-@ @)", "rotate(@)", "rotate(-@)", "rotate(@,@,@)", "rotate(30 5 -6)", "skewX(@)", "skewX(-20)", "skewY(@)", "skewY(15)",
		"matrix(@,@,@,@,@,@)", "matrix(1 .5 -.25 2 3.5-4.5)", "TRANSLATE(@ @)", "Skewx(@)", "translate( @ , @ )", " scale (@)",
	}
	line := `<line x1="@" y1="@" x2="@" y2="@"/>`
	asp := aTransform | aGeom
	for _, f := range fns {
		s.agree(asp, wrap(`<line transform="`+f+`" x2="@"/>`+line), wrap(`<g transform="`+f+`">`+line+`</g>`+line), wrap(`<g style="transform:`+f+`">`+line+`</g>`), at(`<svg viewBox="0 0 @ @" transform="`+f+`">`+line+`</svg>`),
			wrap(`<mask id="m" transform="`+f+`">`+line+`</mask>`), wrap(`<defs><line id="a" x2="@" transform="`+f+`"/></defs><use href="#a" x="@"/><use href="#a" transform="`+f+`"/>`))
	}
	s.agree(asp, inverses()...)
	s.large(asp, func(n int) string { return `<line x2="@" transform="` + many(n, piece("translate(§ 1) ")) + `"/>` })
	s.large(asp, func(n int) string {
		return many(n, piece(`<g transform="translate(§ 1)">`)) + line + strings.Repeat("</g>", n)
	})
	for i, f := range fns {
		for j, g := range fns {
			sep := []string{" ", "", "\n", "  ", ",", " , "}[(i+j)%6]
			s.agree(asp, wrap(`<g transform="`+f+sep+g+`">`+line+`</g>`))
			if (i+j)%3 == 0 {
				s.agree(asp, wrap(`<g transform="`+f+`"><g transform="`+g+`">`+line+`</g>`+line+`</g>`))
			}
		}
	}
	few := fns[:14:14]
	for i, q := range seqs(few, 3) {
		if c.Tier == "thorough" || i%13 == 0 {
			s.agree(asp, wrap(`<g transform="`+q[0]+`"><line transform="`+q[1]+" "+q[2]+`" x2="@"/></g>`), wrap(`<g transform="`+strings.Join(q, " ")+`">`+line+`</g>`))
		}
	}
	for _, f := range []string{"translate(~)", "translate(~,~)", "scale(~)", "scale(~,~)", "rotate(~)", "rotate(~ ~ ~)", "skewX(~)", "skewY(~)", "matrix(~ ~ ~ ~ ~ ~)"} {
		s.agree(asp, vary(`<g transform="translate(@,@) `+f+` scale(@)">`+line+`</g>`)...)
		s.agree(asp, vary(`<g transform="matrix(@ @ @ @ @ @)"><line transform="`+f+`" x2="@"/></g>`)...)
	}
	s.agree(asp, wrap(`<g transform="">`+line+`</g>`), wrap(`<g transform="  ">`+line+`</g>`))
	s.mixed(asp, profile{shape: 4, group: 5, use: 2, def: 1, mask: 1, style: 2, transforms: true, depth: 4, width: 3}, 19, 150)
}

// ---- C18 ----

// opVal makes an operation with the given coordinates (in 1/64).
func (p *Program) opVal(letter string, cs ...ai.Val) ai.Val {
	for n, l := range opLetters {
		if l != letter {
			continue
		}
		t := p.typ(n)
		i := 0
		var mk func(t types.Type) ai.Val
		mk = func(t types.Type) ai.Val {
			switch u := t.Underlying().(type) {
			case *types.Struct:
				s := &ai.StructV{}
				for k := 0; k < u.NumFields(); k++ {
					s.F = append(s.F, mk(u.Field(k).Type()))
				}
				return s
			case *types.Array:
				a := &ai.ArrV{}
				for k := int64(0); k < u.Len(); k++ {
					a.E = append(a.E, mk(u.Elem()))
				}
				return a
			}
			i++
			return cs[i-1]
		}
		return &ai.IfaceV{T: t, V: mk(t)}
	}
	panic("no operation " + letter)
}

var opArity = map[string]int{"M": 2, "L": 2, "Q": 4, "C": 6, "Z": 0}

func checkPathText(c *Check) {
	s := c.skeletons("The building methods of Path are interpreted for symbolic points on paths of several lengths: the operations already there stay, exactly the operation asked for is added. String of every operation and ToSVGPath are interpreted for constants of all magnitudes and signs; the text, read by the grammar of path data, must denote the operation, in order, to three decimals. String of the mode enumerations is decided for every constant.")
	p := c.P
	in := s.in
	fresh := func(label string) ai.Val { return ai.Fresh(ai.KInt, "n:"+label) }
	pathT := p.typ("Path")
	opT := p.typ("Operation")
	k := 0
	mkOps := func(letters string) []ai.Val {
		var out []ai.Val
		for _, l := range letters {
			var cs []ai.Val
			for i := 0; i < opArity[string(l)]; i++ {
				k++
				cs = append(cs, fresh(strconv.Itoa(k)))
			}
			out = append(out, p.opVal(string(l), cs...))
		}
		return out
	}
	// building
	for _, m := range []struct{ name, letter string }{{"Start", "M"}, {"Line", "L"}, {"QuadBezier", "Q"}, {"CubeBezier", "C"}, {"Stop", "Z"}, {"Stop", ""}, {"Clear", ""}} {
		fn := p.method("Path", m.name)
		for _, have := range []string{"", "M", "MLQCZ", "MCCZMLLZMQ"} {
			for _, spare := range []bool{false, true} {
				st := s.base.Clone()
				ops := mkOps(have)
				sl := sliceOf(in, st, opT, "ops", ops...)
				if spare {
					cp := ai.Fresh(ai.KInt, "cap")
					st.Facts = st.Facts.WithLin(ai.Sub(cp, sl.Len))
					sl.Cap = cp
				}
				ptr := in.NewVar(st, pathT, sl, "path")
				args := []ai.Val{ptr}
				var added []*ai.Term
				for i, prm := range fn.Params[1:] {
					if m.name == "Stop" {
						args = append(args, ai.Bool(m.letter == "Z"))
						continue
					}
					v := symbolic(prm.Type(), fmt.Sprintf("%s/%d", m.name, i))
					added = append(added, flatVal(v)...)
					args = append(args, v)
				}
				in.Log = &ai.Log{}
				in.Fns = map[*ssa.Function]bool{}
				name := fmt.Sprintf("%s at %s on a path of %d operations", m.name, p.PosOf(fn.Pos()), len(have))
				for _, r := range s.call(st, fn, args, name) {
					o := &Outcome{s: s, St: r.St, fns: in.Fns}
					want := append([]ai.Val{}, ops...)
					if m.name == "Clear" {
						want = nil
					}
					if m.letter != "" {
						var cs []ai.Val
						for _, t := range added {
							cs = append(cs, t)
						}
						want = append(want, p.opVal(m.letter, cs...))
					}
					got, ok := elems(r.St, r.St.Load(ptr))
					var diff, unk []string
					if !ok {
						unk = append(unk, "the path")
					} else if len(got) != len(want) {
						diff = append(diff, fmt.Sprintf("the path has %d operations where %d are expected", len(got), len(want)))
					} else {
						for i := range got {
							if ai.Key(got[i]) != ai.Key(want[i]) {
								a, ok1 := readOp(got[i])
								b, _ := readOp(want[i])
								if !ok1 {
									unk = append(unk, fmt.Sprintf("operation %d", i))
								} else if fmt.Sprint(a) != fmt.Sprint(b) {
									diff = append(diff, fmt.Sprintf("operation %d is %v where %v is expected", i, a, b))
								}
							}
						}
					}
					s.report(o, diff, unk, "%s adds exactly what is asked for", name)
				}
			}
		}
	}
	// text
	vals := []int64{0, 64, -64, 96, -96, 1, -1, 63, 65, 100, -12345, 99999, 640000, -6400001, 1 << 20, 1<<24 + 64, -(1 << 22), 48, 32, 16, 8, 4, 2}
	if c.Tier == "thorough" {
		for i := int64(0); i < 64; i++ {
			vals = append(vals, i, -i, 6400+i, 64000*i+7*i)
		}
	}
	at := 0
	next := func() int64 { at++; return vals[(at*7)%len(vals)] }
	consts := func(letters string) (ops []ai.Val, want [][]float64) {
		for _, l := range letters {
			var cs []ai.Val
			var w []float64
			for i := 0; i < opArity[string(l)]; i++ {
				n := next()
				cs = append(cs, ai.Int(n))
				w = append(w, float64(n)/64)
			}
			ops = append(ops, p.opVal(string(l), cs...))
			want = append(want, w)
		}
		return
	}
	text := func(fn *ssa.Function, st *ai.State, arg ai.Val, letters string, want [][]float64) {
		in.Log = &ai.Log{}
		in.Fns = map[*ssa.Function]bool{}
		name := fmt.Sprintf("%s at %s for %s%v", fn.Name(), p.PosOf(fn.Pos()), letters, want)
		if len(name) > 200 {
			name = name[:200] + "…"
		}
		for _, r := range s.call(st, fn, []ai.Val{arg}, name) {
			o := &Outcome{s: s, St: r.St, fns: in.Fns}
			t, _ := r.Ret.(*ai.Term)
			str, ok := "", false
			if t != nil {
				str, ok = t.StrVal()
			}
			if !ok {
				s.report(o, nil, []string{"the text"}, "%s: the text denotes the path", name)
				continue
			}
			var diff []string
			if msg := denotes(str, letters, want); msg != "" {
				diff = append(diff, fmt.Sprintf("%q: %s", str, msg))
			}
			s.report(o, diff, nil, "%s: the text denotes the path", name)
		}
	}
	for _, l := range []string{"M", "L", "Q", "C", "Z"} {
		fn := p.method(map[string]string{"M": "OpMoveTo", "L": "OpLineTo", "Q": "OpQuadTo", "C": "OpCubicTo", "Z": "OpClose"}[l], "String")
		for i := 0; i < len(vals); i++ {
			ops, want := consts(l)
			text(fn, s.base.Clone(), ops[0].(*ai.IfaceV).V, l, want)
		}
	}
	for _, m := range []string{"ToSVGPath", "String"} {
		fn := p.method("Path", m)
		for _, ls := range append([]string{"", "M", "ML", "MLZ", "MQCLZMLLZ", "MZMZ", "LLLL", "MCCCCCCCC", "ZZZ"}, seqStrings("MLQCZ", 2)...) {
			st := s.base.Clone()
			ops, want := consts(ls)
			text(fn, st, sliceOf(in, st, opT, "ops", ops...), ls, want)
		}
	}
	// text of any numbers
	whole := func(fn *ssa.Function, st *ai.State, arg ai.Val, ls string, ops []ai.Val) {
		in.Log = &ai.Log{}
		in.Fns = map[*ssa.Function]bool{}
		in.Holes = &ai.Holes{}
		defer func() { in.Holes = nil }()
		name := fmt.Sprintf("%s at %s for any path %s", fn.Name(), p.PosOf(fn.Pos()), ls)
		for _, r := range s.call(st, fn, []ai.Val{arg}, name) {
			o := &Outcome{s: s, St: r.St, fns: in.Fns}
			t, _ := r.Ret.(*ai.Term)
			str, ok := "", false
			if t != nil {
				str, ok = t.StrVal()
			}
			ps := points(r.St.Facts, 6)
			if !ok || len(ps) == 0 {
				s.report(o, nil, []string{"the text"}, "%s: the text denotes the path", name)
				continue
			}
			var diff, unk []string
			for _, e := range ps {
				var want [][]float64
				for _, op := range ops {
					var w []float64
					for _, t := range flatVal(op) {
						x, ok := e.eval(t)
						if !ok {
							unk = append(unk, t.String())
						}
						w = append(w, x/64)
					}
					want = append(want, w)
				}
				text := holeRe.ReplaceAllStringFunc(str, func(h string) string {
					m := holeRe.FindStringSubmatch(h)
					i, _ := strconv.Atoi(m[1])
					x, ok := e.eval(real(in.Holes.Terms[i]))
					if !ok {
						unk = append(unk, clip(in.Holes.Terms[i].String()))
					}
					return fmt.Sprintf(m[2], x)
				})
				if msg := denotes(text, ls, want); msg != "" {
					diff = append(diff, fmt.Sprintf("%q: %s", text, msg))
					break
				}
			}
			s.report(o, diff, unk, "%s: the text denotes the path", name)
		}
	}
	depth := 3
	if c.Tier == "thorough" {
		depth = 4
	}
	for n := 0; n <= depth; n++ {
		for _, ls := range seqStrings("MLQCZ", n) {
			for _, m := range []string{"ToSVGPath", "String"} {
				st := s.base.Clone()
				ops := mkOps(ls)
				whole(p.method("Path", m), st, sliceOf(in, st, opT, "ops", ops...), ls, ops)
			}
		}
	}
	for _, l := range []string{"M", "L", "Q", "C"} {
		fn := p.method(map[string]string{"M": "OpMoveTo", "L": "OpLineTo", "Q": "OpQuadTo", "C": "OpCubicTo"}[l], "String")
		ops := mkOps(l)
		whole(fn, s.base.Clone(), ops[0].(*ai.IfaceV).V, l, ops)
	}
	// enumerations
	for _, en := range []string{"JoinMode", "CapMode", "GapMode"} {
		fn := p.method(en, "String")
		seen := map[string]string{}
		sc := p.Svg.Pkg.Scope()
		for _, n := range sc.Names() {
			k, ok := sc.Lookup(n).(*types.Const)
			if !ok || !types.Identical(k.Type(), p.typ(en)) || !k.Exported() {
				continue
			}
			in.Log = &ai.Log{}
			in.Fns = map[*ssa.Function]bool{}
			for _, r := range s.call(s.base.Clone(), fn, []ai.Val{ai.Int(cnst(p.Svg.Pkg, n))}, en) {
				t, _ := r.Ret.(*ai.Term)
				if t == nil {
					continue
				}
				str, ok := t.StrVal()
				if !ok {
					c.Note("the text of %s is not known", n)
					continue
				}
				c.Must(str == n, "%s at %s: the text of %s is its name (%q)", en+".String", p.PosOf(fn.Pos()), n, str)
				if prev, dup := seen[str]; dup {
					c.Violate("%s at %s: %s and %s have the same text %q", en+".String", p.PosOf(fn.Pos()), prev, n, str)
				}
				seen[str] = n
			}
		}
	}
}

var holeRe = regexp.MustCompile("\x01([0-9]+)\\|([^\x02]*)\x02")

func seqStrings(letters string, n int) []string {
	var ls []string
	for _, l := range letters {
		ls = append(ls, string(l))
	}
	var out []string
	for _, q := range seqs(ls, n) {
		out = append(out, "M"+strings.Join(q, ""))
	}
	return out
}

// denotes reads path data of absolute commands, one set of parameters each, and compares.
func denotes(s, letters string, want [][]float64) string {
	i := 0
	skip := func() {
		for i < len(s) && (s[i] == ' ' || s[i] == ',' || s[i] == '\n' || s[i] == '\t') {
			i++
		}
	}
	for k, l := range letters {
		skip()
		if i >= len(s) || s[i] != byte(l) {
			return fmt.Sprintf("operation %d is not %c", k, l)
		}
		i++
		for j, w := range want[k] {
			skip()
			b := i
			for i < len(s) && (s[i] >= '0' && s[i] <= '9' || s[i] == '.' || (s[i] == '-' || s[i] == '+') && i == b) {
				i++
			}
			x, err := strconv.ParseFloat(s[b:i], 64)
			if err != nil {
				return fmt.Sprintf("operation %d has no number in position %d", k, j)
			}
			if math.Abs(x-w) > 0.00051 {
				return fmt.Sprintf("operation %d has %g in position %d where %g is expected", k, x, j, w)
			}
		}
	}
	skip()
	if i < len(s) {
		return "there is more text than operations"
	}
	return ""
}

// checkGradAPI decides the exported gradient helpers.
func checkGradAPI(c *Check, s *Scripts) {
	p, in := c.P, s.in
	gt := p.typ("Gradient")
	call := func(fn *ssa.Function, st *ai.State, args ...ai.Val) []ai.RetState {
		in.Log = &ai.Log{}
		in.Fns = map[*ssa.Function]bool{}
		return s.call(st, fn, args, fn.Name())
	}
	// ApplyPathExtent
	fn := p.method("Gradient", "ApplyPathExtent")
	name := fmt.Sprintf("ApplyPathExtent at %s", p.PosOf(fn.Pos()))
	for _, u := range []string{"ObjectBoundingBox", "UserSpaceOnUse"} {
		st := s.base.Clone()
		g := ai.Zero(gt)
		for _, f := range []string{"Matrix", "Bounds"} {
			g = with(g, gt, f, symbolic(ftype(gt, f), f))
		}
		g = with(g, gt, "Units", ai.Int(cnst(p.Svg.Pkg, u)))
		ptr := in.NewVar(st, gt, g, "gradient")
		ext := symbolic(fn.Params[1].Type(), "extent")
		for _, r := range call(fn, st, ptr, ext) {
			o := &Outcome{s: s, St: r.St, fns: in.Fns}
			var diff, unk []string
			for _, e := range points(r.St.Facts, 6) {
				ev := func(v ai.Val) (out []float64) {
					for _, t := range flatVal(v) {
						x, ok := e.eval(real(t))
						if !ok {
							unk = append(unk, clip(t.String()))
						}
						out = append(out, x)
					}
					return
				}
				var m [6]float64
				copy(m[:], ev(field(g, gt, "Matrix")))
				b := ev(field(g, gt, "Bounds"))
				if u == "ObjectBoundingBox" {
					x := ev(ext)
					b = []float64{x[0] / 64, x[1] / 64, (x[2] - x[0]) / 64, (x[3] - x[1]) / 64}
					m = mul([6]float64{b[2], 0, 0, b[3], 0, 0}, m)
				}
				for i, x := range ev(r.Ret) {
					if !near(x, m[i]) && len(diff) == 0 {
						diff = append(diff, fmt.Sprintf("component %d of the matrix is %.6g where %.6g is expected", i, x, m[i]))
					}
				}
				for i, x := range ev(field(r.St.Load(ptr), gt, "Bounds")) {
					if !near(x, b[i]) && len(diff) == 0 {
						diff = append(diff, fmt.Sprintf("component %d of the bounds is %.6g where %.6g is expected", i, x, b[i]))
					}
				}
			}
			s.report(o, diff, unk, "%s with units %s maps gradient space as the units say", name, u)
		}
	}
	// GetColor
	get := p.Svg.Func("GetColor")
	if get == nil {
		panic("the exported function GetColor is gone")
	}
	ct := p.typ("PlainColor")
	col := func(n int64) ai.Val {
		i := int64(0)
		var mk func(t types.Type) ai.Val
		mk = func(t types.Type) ai.Val {
			if u, ok := t.Underlying().(*types.Struct); ok {
				s := &ai.StructV{}
				for k := 0; k < u.NumFields(); k++ {
					s.F = append(s.F, mk(u.Field(k).Type()))
				}
				return s
			}
			i++
			return ai.Int(n + i)
		}
		return &ai.IfaceV{T: ct, V: mk(ct)}
	}
	stT := ftype(gt, "Stops").Underlying().(*types.Slice).Elem()
	grad := func(st *ai.State, cols ...ai.Val) ai.Val {
		var ss []ai.Val
		for _, x := range cols {
			v := ai.Zero(stT)
			if x != nil {
				v = with(v, stT, "StopColor", x)
			}
			ss = append(ss, v)
		}
		return &ai.IfaceV{T: gt, V: with(ai.Zero(gt), gt, "Stops", sliceOf(in, st, stT, "stops", ss...))}
	}
	black := []float64{0, 0, 0, 255}
	rgb := func(n float64) []float64 { return []float64{n + 1, n + 2, n + 3, n + 4} }
	for _, x := range []struct {
		what string
		v    func(st *ai.State) ai.Val
		want []float64
	}{
		{"nil", func(*ai.State) ai.Val { return ai.Nil() }, black},
		{"a colour", func(*ai.State) ai.Val { return col(10) }, rgb(10)},
		{"a gradient without stops", func(st *ai.State) ai.Val { return grad(st) }, black},
		{"a gradient with a stop", func(st *ai.State) ai.Val { return grad(st, col(20)) }, rgb(20)},
		{"a gradient with two stops", func(st *ai.State) ai.Val { return grad(st, col(30), col(40)) }, rgb(30)},
		{"a gradient whose first stops have no colour", func(st *ai.State) ai.Val { return grad(st, nil, nil, col(50), col(60), nil) }, rgb(50)},
		{"a gradient whose stops have no colour", func(st *ai.State) ai.Val { return grad(st, nil, nil) }, black},
	} {
		st := s.base.Clone()
		v := x.v(st)
		for _, r := range call(get, st, v) {
			o := &Outcome{s: s, St: r.St, fns: in.Fns}
			var diff, unk []string
			ts := flatVal(r.Ret)
			if len(ts) != 4 {
				unk = append(unk, "the colour")
			}
			for i, t := range ts {
				f, ok := newEnv(1).eval(real(t))
				if !ok || len(ts) != 4 {
					unk = append(unk, clip(t.String()))
				} else if f != x.want[i] {
					diff = append(diff, fmt.Sprintf("channel %d is %g where %g is expected", i, f, x.want[i]))
				}
			}
			s.report(o, diff, unk, "GetColor at %s of %s", p.PosOf(get.Pos()), x.what)
		}
	}
}

// inverses lists documents with transforms that undo others, or do nothing.
func inverses() []string {
	line := `<line x1="@" y1="@" x2="@" y2="@"/>`
	var out []string
	for _, p := range [][2]string{
		{"translate(111)", "translate(-111)"}, {"translate(111 112)", "translate(-111 -112)"}, {"scale(2)", "scale(0.5)"}, {"scale(-1 1)", "scale(-1 1)"}, {"scale(-1)", "scale(-1)"}, {"rotate(0)", "rotate(0)"}, {"scale(1)", "scale(1 1)"}, {"translate(0)", "translate(0 0)"},
		{"matrix(1 0 0 1 0 0)", "matrix(1 0 0 1 5 6)"}, {"matrix(0 1 -1 0 0 0)", "matrix(0 -1 1 0 0 0)"}, {"skewX(0)", "skewY(0)"}, {"translate(5) scale(2)", "scale(.5) translate(-5)"}, {"scale(0)", "translate(1)"}, {"matrix(0 0 0 0 0 0)", "scale(2)"}, {"matrix(1 2 -2 -1 3 4)", "matrix(-1 0 0 -1 0 0)"},
	} {
		a, b := p[0], p[1]
		out = append(out,
			wrap(`<g transform="`+a+`"><line transform="`+b+`" x2="@"/>`+line+`</g>`+line), wrap(`<g transform="`+b+`"><g transform="`+a+`">`+line+`</g>`+line+`</g>`+line),
			wrap(`<line x2="@" transform="`+a+` `+b+`"/>`+line), wrap(`<g fill="red" transform="`+a+`" stroke-width="@">`+line+`</g>`+line), wrap(`<defs><g id="a" transform="`+a+`">`+line+`</g></defs><use href="#a" transform="`+b+`"/><use href="#a" x="@"/>`+line),
			wrap(`<g transform="`+a+`"><linearGradient id="g" gradientTransform="`+b+`"/></g><line x2="@" fill="url(#g)"/>`))
	}
	return out
}
