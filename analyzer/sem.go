package main

import (
	"math"
	"strings"

	"verif/analyzer/ai"
)

// Meaning of the values handed to a graphics library. Where two terms are not the same
// normal form (a path of the code on which a condition such as "the opacity is 1" holds, a
// conversion written another way) they are compared at points that satisfy the facts of the path.

// drawPoints returns evaluation points for the symbols of an abstract image.
func drawPoints(f *ai.Facts, n int) []*env { return pointsOf(f, n, true) }

// drawSym gives a symbol of an abstract image a value.
func (e *env) drawSym(t *ai.Term) (float64, bool) {
	if t.Kind != ai.KInt && t.Kind != ai.KFloat {
		return 0, false
	}
	l := t.Op
	if t.Sym != nil {
		l, _, _ = strings.Cut(t.Sym.Label, "#")
	}
	r := e.rnd(t.String())
	switch {
	case strings.HasSuffix(l, ".NRGBA.A"):
		return 255, true // colours of a document are opaque
	case strings.Contains(l, ".NRGBA."):
		return float64(r.Intn(256)), true
	case strings.Contains(strings.ToLower(l), "opacity"):
		switch r.Intn(6) {
		case 0, 1:
			return 1, true
		case 2:
			return 0, true
		}
		return 0.05 + 0.9*r.Float64(), true
	case strings.HasSuffix(l, ".W"), strings.HasSuffix(l, ".H"), strings.HasSuffix(l, ".w"), strings.HasSuffix(l, ".h"), strings.HasSuffix(l, "Width"):
		return 0.5 + 100*r.Float64(), true
	case t.Kind == ai.KInt:
		return float64(r.Intn(20000) - 10000), true
	}
	return 20*r.Float64() - 10, true
}

// nrgba gives the colour a term stands for, channels from 0 to 255, not premultiplied.
func (e *env) nrgba(t *ai.Term) ([4]float64, bool) {
	var out [4]float64
	switch {
	case t.Op == "sym" && t.Kind == ai.KOther:
		// some opaque colour
		r := e.rnd("color " + t.String())
		for i := range out {
			out[i] = float64(r.Intn(256))
		}
		out[3] = 255
		return out, true
	case t.Op == "iface" && len(t.Args) == 2:
		if strings.Contains(t.Args[0].String(), "image/color.RGBA") {
			c, ok := e.nrgba(t.Args[1])
			for i := 0; ok && i < 3 && c[3] > 0; i++ {
				c[i] = c[i] * 255 / c[3]
			}
			return c, ok
		}
		if s := t.Args[0].String(); strings.Contains(s, "NRGBA64") || strings.Contains(s, "Gray") || strings.Contains(s, "CMYK") || strings.Contains(s, "RGBA64") {
			return out, false
		}
		return e.nrgba(t.Args[1])
	case t.Op == "mk" && len(t.Args) == 1:
		return e.nrgba(t.Args[0])
	case t.Op == "mk" && len(t.Args) == 4:
		for i, a := range t.Args {
			v, ok := e.eval(a)
			if !ok {
				return out, false
			}
			out[i] = v
		}
		return out, true
	case strings.HasSuffix(t.Op, "gg.NewSolidPattern.0") && len(t.Args) > 0, strings.HasSuffix(t.Op, "image.NewUniform.0") && len(t.Args) > 0:
		return e.nrgba(t.Args[0])
	case strings.HasSuffix(t.Op, "rasterx.ApplyOpacity.0") && len(t.Args) > 1:
		c, ok := e.nrgba(t.Args[0])
		o, ok2 := e.eval(t.Args[1])
		c[3] = math.Trunc(o * 255)
		return c, ok && ok2
	}
	return out, false
}

// drawOp gives the operations on colours a meaning.
func (e *env) drawOp(t *ai.Term) (float64, bool) {
	if i := strings.LastIndex(t.Op, "RGBA."); i >= 0 && len(t.Op) == i+6 && len(t.Args) > 0 {
		c, ok := e.nrgba(t.Args[0])
		k := int(t.Op[i+5] - '0')
		if k == 3 {
			return c[3] * 257, ok
		}
		return math.Floor(c[k] * 257 * c[3] / 255), ok
	}
	if len(t.Op) == 3 && strings.HasPrefix(t.Op, "f:") {
		if k := strings.Index("RGBA", t.Op[2:]); k >= 0 {
			c, ok := e.nrgba(t.Args[0])
			return c[k], ok
		}
	}
	if strings.HasPrefix(t.Op, "f:") {
		b := t.Args[0]
		for (b.Op == "sel" || strings.HasPrefix(b.Op, "f:")) && len(b.Args) > 0 {
			b = b.Args[0]
		}
		if b.Op == "sym" {
			return e.drawSym(t)
		}
	}
	return 0, false
}

// sameReal counts an obligation: got is exp, whatever the numbers.
func (c *Check) sameReal(st *ai.State, got, exp *ai.Term, format string, args ...interface{}) bool {
	if got != nil && exp != nil {
		if real(got) == real(exp) {
			return c.Must(true, format, args...)
		}
		switch same(got, exp, drawPoints(st.Facts, 6)) {
		case 1:
			return c.Must(true, format, args...)
		case 0:
			c.Note("not decided: "+format, args...)
			return true
		}
	}
	return c.Must(false, format, args...)
}

// sameColor: the colour is the one given by the source with the opacity; 0 if not decided.
func sameColor(st *ai.State, col, src, alpha *ai.Term) int {
	ps := drawPoints(st.Facts, 6)
	if len(ps) == 0 {
		return 0
	}
	for _, e := range ps {
		got, ok1 := e.nrgba(col)
		exp, ok2 := e.nrgba(src)
		a, ok3 := e.eval(alpha)
		if !ok1 || !ok2 || !ok3 {
			return 0
		}
		exp[3] *= a
		for k := range got {
			if math.Abs(got[k]-exp[k]) > 1.5 {
				return -1
			}
		}
	}
	return 1
}
