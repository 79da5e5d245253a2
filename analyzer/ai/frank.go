package ai

import (
	"math"
	"math/big"
)

// interval bounds a float term; ok is false if no bound is known. NaN is not excluded:
// a comparison with NaN is false, so it ends the loops this is used for.
func interval(t *Term, f *Facts, depth int) (lo, hi float64, ok bool) {
	if depth > 12 {
		return 0, 0, false
	}
	if t.IsConst() {
		r := ratOf(t.C)
		if r == nil {
			return 0, 0, false
		}
		v, _ := r.Float64()
		return v, v, true
	}
	switch t.Op {
	case "math.Atan2", "math.Asin", "math.Acos":
		return -math.Pi, math.Pi, true
	case "math.Atan":
		return -2, 2, true
	case "math.Sin", "math.Cos", "math.Tanh":
		return -1, 1, true
	}
	if t.Sym != nil && len(t.Sym.Prov) > 0 && !t.Sym.Loop {
		lo, hi = math.Inf(1), math.Inf(-1)
		for _, p := range t.Sym.Prov {
			pt, isT := p.V.(*Term)
			if !isT {
				return 0, 0, false
			}
			l, h, ok := interval(pt, p.Facts, depth+1)
			if !ok {
				return 0, 0, false
			}
			lo, hi = math.Min(lo, l), math.Max(hi, h)
		}
		return lo, hi, true
	}
	ms, cs := PolyOf(t)
	if len(ms) == 1 && len(ms[0].Atoms) == 1 && ms[0].Atoms[0] == t {
		return 0, 0, false
	}
	for i, m := range ms {
		l, h := 1.0, 1.0
		for k, a := range m.Atoms {
			al, ah, ok := interval(a, f, depth+1)
			if !ok || m.Exps[k] < 0 {
				return 0, 0, false
			}
			for e := 0; e < m.Exps[k]; e++ {
				p := []float64{l * al, l * ah, h * al, h * ah}
				l, h = p[0], p[0]
				for _, x := range p {
					l, h = math.Min(l, x), math.Max(h, x)
				}
			}
		}
		c, _ := cs[i].Float64()
		l, h = l*c, h*c
		if l > h {
			l, h = h, l
		}
		lo, hi = lo+l, hi+h
	}
	return lo, hi, true
}

// rankFloat recognises a float that moves by a constant towards a bound, with both ends
// small enough that the sum always changes.
func (in *Interp) rankFloat(g *genSet, h *State, backs []*State) string {
	const big50 = 1 << 40
	for _, k := range g.order {
		l := g.leaves[k]
		r, ok := l.rep.(*Term)
		if !ok || r.Kind != KFloat || r.Sym == nil {
			continue
		}
		et, ok := l.entry.(*Term)
		if !ok {
			continue
		}
		elo, ehi, ok := interval(et, h.Facts, 0)
		if !ok || elo < -big50 || ehi > big50 {
			continue
		}
		sign := 0
		good := true
		for _, b := range backs {
			v, ok := l.at(b).(*Term)
			if !ok {
				good = false
				break
			}
			d := Sub(v, r)
			if !d.IsConst() {
				good = false
				break
			}
			c := ratOf(d.C)
			if c == nil || c.Sign() == 0 || sign != 0 && c.Sign() != sign {
				good = false
				break
			}
			if new(big.Rat).Abs(c).Cmp(big.NewRat(1, 1<<10)) < 0 {
				good = false
				break
			}
			sign = c.Sign()
			found := false
			for _, lit := range b.Facts.Seq {
				if !lit.Val || lit.T.Op != "flt" && lit.T.Op != "fle" {
					continue
				}
				x, y := lit.T.Args[0], lit.T.Args[1]
				if sign < 0 {
					x, y = y, x
				}
				if x != r || symMark(y) > r.Sym.N {
					continue
				}
				if lo, hi, ok := interval(y, b.Facts, 0); ok && lo > -big50 && hi < big50 {
					found = true
				}
			}
			if !found {
				good = false
				break
			}
		}
		if good && sign != 0 {
			return "a float moves by a constant step to a bound: " + l.label()
		}
	}
	return ""
}
