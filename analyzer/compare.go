package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"

	"verif/analyzer/ai"
)

// Aspects of a result that are compared with the reference.
type aspect int

const (
	aGeom aspect = 1 << iota
	aFill
	aLine
	aStroke // width, caps, join, gap, miter limit, dashes
	aOpacity
	aRule
	aTransform
	aMaskRefs
	aBox
	aText
	aMasks
	aAll aspect = 1<<iota - 1
)

const aStyle = aFill | aLine | aStroke | aOpacity | aRule | aTransform | aMaskRefs

// cmp compares the result of one outcome with the reference at one point.
type cmp struct {
	o    *Outcome
	e    *env
	asp  aspect
	diff []string
	unk  []string
}

func (c *cmp) bad(format string, args ...interface{}) {
	c.diff = append(c.diff, fmt.Sprintf(format, args...))
}
func (c *cmp) dunno(format string, args ...interface{}) {
	c.unk = append(c.unk, fmt.Sprintf(format, args...))
}

func (c *cmp) num(what string, v ai.Val, want float64) {
	t, ok := v.(*ai.Term)
	if !ok {
		c.dunno("%s", what)
		return
	}
	x, ok := c.e.eval(real(t))
	if !ok {
		c.dunno("%s = %s", what, clip(t.String()))
		return
	}
	if !near(x, want) {
		c.bad("%s is %s (%.6g where %.6g is expected)", what, clip(t.String()), x, want)
	}
}

func clip(s string) string {
	if len(s) > 160 {
		return s[:160] + "…"
	}
	return s
}

func (c *cmp) int(what string, v ai.Val, want int64) {
	t, ok := v.(*ai.Term)
	if ok {
		if n, ok := t.IntVal(); ok {
			if n != want {
				c.bad("%s is %d where %d is expected", what, n, want)
			}
			return
		}
	}
	c.dunno("%s", what)
}

func (c *cmp) str(what string, v ai.Val, want string) {
	t, ok := v.(*ai.Term)
	if ok {
		if s, ok := t.StrVal(); ok {
			if s != want {
				c.bad("%s is %q where %q is expected", what, s, want)
			}
			return
		}
	}
	c.dunno("%s", what)
}

func (c *cmp) bool(what string, v ai.Val, want bool) {
	t, ok := v.(*ai.Term)
	if ok {
		if b, ok := t.BoolVal(); ok {
			if b != want {
				c.bad("%s is %v", what, b)
			}
			return
		}
	}
	c.dunno("%s", what)
}

func (c *cmp) strs(what string, v ai.Val, want []string) {
	es, ok := elems(c.o.St, v)
	if !ok {
		c.dunno("%s", what)
		return
	}
	if len(es) != len(want) {
		c.bad("%s has %d entries where %d are expected", what, len(es), len(want))
		return
	}
	for i := range es {
		c.str(fmt.Sprintf("%s[%d]", what, i), es[i], want[i])
	}
}

func (c *cmp) svg(r *refSvg) {
	o := c.o
	if v, _ := o.svgStruct(); v == nil {
		c.bad("no image is returned")
		return
	}
	if c.asp&aBox != 0 {
		for i, f := range []string{"X", "Y", "W", "H"} {
			c.num("ViewBox."+f, o.get("ViewBox."+f), r.vb[i])
		}
		c.str("Width", o.get("Width"), r.width)
		c.str("Height", o.get("Height"), r.height)
	}
	if c.asp&aTransform != 0 {
		c.matrix("Transform", o.get("Transform"), [6]float64{1, 0, 0, 1, 0, 0})
	}
	if c.asp&aText != 0 {
		c.strs("Titles", o.get("Titles"), r.titles)
		c.strs("Descriptions", o.get("Descriptions"), r.descs)
	}
	c.paths("SvgPaths", o.get("SvgPaths"), r.paths)
	if c.asp&aMasks != 0 {
		c.maskMap(o.get("SvgMasks"), r)
	}
}

func (c *cmp) maskMap(v ai.Val, r *refSvg) {
	mv, ok := v.(*ai.MapV)
	if !ok {
		c.dunno("SvgMasks")
		return
	}
	mc, ok := c.o.St.Content(mv.Obj).(*ai.MapC)
	if !ok || mc.Base != nil {
		c.dunno("SvgMasks")
		return
	}
	got := map[string]ai.Val{}
	for _, e := range mc.Known {
		k, ok := e.K.(*ai.Term)
		s, ok2 := k.StrVal()
		if !ok || !ok2 {
			c.dunno("a key of SvgMasks")
			return
		}
		got[s] = e.V
	}
	var ids []string
	for id := range r.masks {
		ids = append(ids, id)
	}
	for id := range got {
		if r.masks[id] == nil {
			c.bad("SvgMasks has an entry %q", id)
		}
	}
	sort.Strings(ids)
	t := c.o.s.c.P.typ("SvgMask")
	for _, id := range ids {
		p, ok := got[id].(*ai.PtrV)
		if !ok {
			if got[id] == nil {
				c.bad("SvgMasks has no entry %q", id)
			} else {
				c.dunno("SvgMasks[%q]", id)
			}
			continue
		}
		sv, ok := c.o.St.Load(p).(*ai.StructV)
		if !ok {
			c.dunno("SvgMasks[%q]", id)
			continue
		}
		m := r.masks[id]
		w := fmt.Sprintf("SvgMasks[%q].", id)
		c.str(w+"ID", field(sv, t, "ID"), id)
		c.num(w+"X", field(sv, t, "X"), m.x)
		c.num(w+"Y", field(sv, t, "Y"), m.y)
		c.num(w+"W", field(sv, t, "W"), m.w)
		c.num(w+"H", field(sv, t, "H"), m.h)
		c.matrix(w+"Transform", field(sv, t, "Transform"), [6]float64{1, 0, 0, 1, 0, 0})
		c.paths(w+"SvgPaths", field(sv, t, "SvgPaths"), m.paths)
	}
}

func (c *cmp) paths(what string, v ai.Val, want []*refPath) {
	es, ok := elems(c.o.St, v)
	if !ok {
		c.dunno("%s", what)
		return
	}
	if len(es) != len(want) {
		c.bad("%s has %d paths where %d are expected", what, len(es), len(want))
		return
	}
	t := c.o.s.c.P.typ("SvgPath")
	for i, e := range es {
		w := fmt.Sprintf("%s[%d]", what, i)
		if c.asp&aGeom != 0 {
			c.geom(w, field(e, t, "Path"), want[i].segs)
		}
		c.style(w, field(e, t, "Style"), ftype(t, "Style"), &want[i].style)
	}
}

func (c *cmp) style(what string, v ai.Val, t types.Type, s *refStyle) {
	f := func(n string) ai.Val { return field(v, t, n) }
	if c.asp&aOpacity != 0 {
		c.num(what+".FillOpacity", f("FillOpacity"), s.fillOp)
		c.num(what+".LineOpacity", f("LineOpacity"), s.lineOp)
	}
	if c.asp&aRule != 0 {
		c.bool(what+".UseNonZeroWinding", f("UseNonZeroWinding"), s.nonzero)
	}
	if c.asp&aStroke != 0 {
		c.num(what+".LineWidth", f("LineWidth"), s.width)
		if ml, ok := f("Join.MiterLimit").(*ai.Term); ok {
			if n, isInt := ml.IntVal(); isInt { // rounded to 1/64
				if math.Abs(float64(n)-s.miter*64) > 1 {
					c.bad("%s.MiterLimit is %d/64 where %g is expected", what, n, s.miter)
				}
			} else {
				c.num(what+".MiterLimit", ml, s.miter*64)
			}
		}
		c.int(what+".LineJoin", f("Join.LineJoin"), s.join)
		c.int(what+".TrailLineCap", f("Join.TrailLineCap"), s.trail)
		c.int(what+".LeadLineCap", f("Join.LeadLineCap"), s.lead)
		c.int(what+".LineGap", f("Join.LineGap"), s.gap)
		c.num(what+".DashOffset", f("Dash.DashOffset"), s.dashOff)
		es, ok := elems(c.o.St, f("Dash.Dash"))
		switch {
		case !ok:
			c.dunno("%s.Dash", what)
		case len(es) != len(s.dash):
			c.bad("%s.Dash has %d entries where %d are expected", what, len(es), len(s.dash))
		default:
			for i := range es {
				c.num(fmt.Sprintf("%s.Dash[%d]", what, i), es[i], s.dash[i])
			}
		}
	}
	if c.asp&aFill != 0 {
		c.paint(what+".FillerColor", f("FillerColor"), s.fill)
	}
	if c.asp&aLine != 0 {
		c.paint(what+".LinerColor", f("LinerColor"), s.line)
	}
	if c.asp&aTransform != 0 {
		c.matrix(what+".Transform", f("Transform"), s.m)
	}
	if c.asp&aMaskRefs != 0 {
		c.strs(what+".Masks", f("Masks"), s.masks)
	}
}

func (c *cmp) matrix(what string, v ai.Val, want [6]float64) {
	t := c.o.s.c.P.typ("Matrix2D")
	for i, n := range []string{"A", "B", "C", "D", "E", "F"} {
		c.num(what+"."+n, field(v, t, n), want[i])
	}
}

// colour reads a colour value as a list of component terms.
func colour(v ai.Val) ([]*ai.Term, bool) {
	var out []*ai.Term
	ok := true
	var walk func(v ai.Val)
	walk = func(v ai.Val) {
		switch x := v.(type) {
		case *ai.StructV:
			for _, f := range x.F {
				walk(f)
			}
		case *ai.Term:
			out = append(out, x)
		default:
			ok = false
		}
	}
	walk(v)
	return out, ok && len(out) == 4
}

func (c *cmp) colour(what string, v ai.Val, want *refColor) {
	if want == nil {
		if n := nilOf(c.o.St, v); n < 0 {
			c.bad("%s is %s where none is expected", what, clip(ai.VStr(v)))
		} else if n == 0 {
			c.dunno("%s", what)
		}
		return
	}
	iv, ok := v.(*ai.IfaceV)
	if !ok {
		if nilOf(c.o.St, v) == 1 {
			c.bad("%s is nil where %v is expected", what, *want)
		} else {
			c.dunno("%s", what)
		}
		return
	}
	ts, ok := colour(iv.V)
	if !ok {
		c.dunno("%s", what)
		return
	}
	for i, ch := range "RGBA" {
		c.int(fmt.Sprintf("%s.%c", what, ch), ts[i], int64(want[i]))
	}
}

func (c *cmp) paint(what string, v ai.Val, want refPaint) {
	switch w := want.(type) {
	case nil:
		c.colour(what, v, nil)
	case *refColor:
		if iv, ok := v.(*ai.IfaceV); ok && isNamed(iv.T, "Gradient") {
			c.bad("%s is a gradient where the colour %v is expected", what, *w)
			return
		}
		c.colour(what, v, w)
	case *refGrad:
		c.gradient(what, v, w)
	}
}

func isNamed(t types.Type, n string) bool {
	nt, ok := t.(*types.Named)
	return ok && nt.Obj().Name() == n
}

func (c *cmp) gradient(what string, v ai.Val, g *refGrad) {
	p := c.o.s.c.P
	iv, ok := v.(*ai.IfaceV)
	if !ok {
		if nilOf(c.o.St, v) == 1 {
			c.bad("%s is nil where a gradient is expected", what)
		} else {
			c.dunno("%s", what)
		}
		return
	}
	if !isNamed(iv.T, "Gradient") {
		c.bad("%s is %s where a gradient is expected", what, clip(ai.VStr(v)))
		return
	}
	t := p.typ("Gradient")
	f := func(n string) ai.Val { return field(iv.V, t, n) }
	for i, n := range []string{"X", "Y", "W", "H"} {
		c.num(what+".Bounds."+n, f("Bounds."+n), g.bounds[i])
	}
	c.matrix(what+".Matrix", f("Matrix"), g.m)
	spread := map[string]string{"pad": "PadSpread", "reflect": "ReflectSpread", "repeat": "RepeatSpread"}[g.spread]
	c.int(what+".Spread", f("Spread"), cnst(p.Svg.Pkg, spread))
	u := "ObjectBoundingBox"
	if g.user {
		u = "UserSpaceOnUse"
	}
	c.int(what+".Units", f("Units"), cnst(p.Svg.Pkg, u))
	d, ok := f("Direction").(*ai.IfaceV)
	if !ok {
		if nilOf(c.o.St, f("Direction")) == 1 {
			c.bad("%s has no direction", what)
		} else {
			c.dunno("%s.Direction", what)
		}
		return
	}
	kind := "Linear"
	if g.radial {
		kind = "Radial"
	}
	if !isNamed(d.T, kind) {
		c.bad("%s.Direction is %s where %s is expected", what, d.T, kind)
		return
	}
	av, ok := d.V.(*ai.ArrV)
	if !ok || len(av.E) != len(g.dir) {
		c.dunno("%s.Direction", what)
		return
	}
	for i := range g.dir {
		c.num(fmt.Sprintf("%s.Direction[%d]", what, i), av.E[i], g.dir[i])
	}
	es, ok := elems(c.o.St, f("Stops"))
	if !ok {
		c.dunno("%s.Stops", what)
		return
	}
	if len(es) != len(g.stops) {
		c.bad("%s has %d stops where %d are expected", what, len(es), len(g.stops))
		return
	}
	st := p.typ("GradStop")
	for i, e := range es {
		w := fmt.Sprintf("%s.Stops[%d].", what, i)
		c.num(w+"Offset", field(e, st, "Offset"), g.stops[i].off)
		c.num(w+"Opacity", field(e, st, "Opacity"), g.stops[i].op)
		c.colour(w+"StopColor", field(e, st, "StopColor"), g.stops[i].color)
	}
}

// ---- geometry ----

type numOp struct {
	k string
	p []float64
}

func (n numOp) String() string {
	var s []string
	for _, x := range n.p {
		s = append(s, fmt.Sprintf("%.5g", x))
	}
	return n.k + strings.Join(s, ",")
}

const coordTol = 1.0 / 40

func nearC(x, y float64) bool {
	return math.Abs(x-y) <= coordTol+1e-7*math.Max(math.Abs(x), math.Abs(y))
}

func (c *cmp) geom(what string, v ai.Val, segs []refSeg) {
	ops, ok := c.o.ops(v)
	if !ok {
		c.dunno("%s.Path", what)
		return
	}
	var ns []numOp
	for _, o := range ops {
		n := numOp{k: o.name}
		for _, t := range o.c {
			x, ok := c.e.eval(real(t))
			if !ok {
				c.dunno("%s.Path has a coordinate %s", what, clip(t.String()))
				return
			}
			n.p = append(n.p, x)
		}
		ns = append(ns, n)
	}
	var curve bool
	for _, s := range segs {
		curve = curve || s.k == "A" || s.k == "O"
	}
	if curve {
		ns = dropEmpty(ns)
	}
	cur := [2]float64{}
	start := cur
	i := 0
	for k, s := range segs {
		if curve && s.k == "L" && nearC(s.p[0], cur[0]) && nearC(s.p[1], cur[1]) {
			continue
		}
		if s.k == "A" && nearC(s.p[0], s.p[2]) && nearC(s.p[1], s.p[3]) {
			continue // an arc without extent is left out
		}
		if i >= len(ns) {
			c.bad("%s.Path ends after %d operations, before segment %d (%s) of what is described", what, i, k, s.k)
			return
		}
		switch s.k {
		case "A", "O":
			n, msg := c.arc(ns[i:], s, cur)
			if msg != "" {
				c.bad("%s.Path, operation %d: %s", what, i, msg)
				return
			}
			i += n
			if s.k == "A" {
				cur = [2]float64{s.p[2], s.p[3]}
			}
			continue
		}
		o := ns[i]
		if o.k != s.k || len(o.p) != len(s.p) {
			c.bad("%s.Path, operation %d is %v where %s%v is expected", what, i, o, s.k, s.p)
			return
		}
		for j := range o.p {
			if !nearC(o.p[j], s.p[j]) {
				c.bad("%s.Path, operation %d: coordinate %d is %s (%.6g where %.6g is expected)", what, i, j, clip(ops[min(i, len(ops)-1)].String()), o.p[j], s.p[j])
				return
			}
		}
		if len(s.p) > 0 {
			cur = [2]float64{s.p[len(s.p)-2], s.p[len(s.p)-1]}
			if s.k == "M" {
				start = cur
			}
		} else {
			cur = start
		}
		i++
	}
	if i < len(ns) {
		c.bad("%s.Path has %d more operations than described, first %v", what, len(ns)-i, ns[i])
	}
}

// dropEmpty removes lines and curves that go nowhere.
func dropEmpty(ns []numOp) []numOp {
	var out []numOp
	var x, y float64
	for _, n := range ns {
		still := n.k == "L" || n.k == "C"
		for i, q := range n.p {
			still = still && nearC(q, [2]float64{x, y}[i%2])
		}
		if still {
			continue
		}
		if len(n.p) > 0 {
			x, y = n.p[len(n.p)-2], n.p[len(n.p)-1]
		}
		out = append(out, n)
	}
	return out
}

// arc matches a run of cubic curves with an elliptic arc.
func (c *cmp) arc(ns []numOp, s refSeg, cur [2]float64) (int, string) {
	var cx, cy, total float64
	rx, ry := math.Abs(s.rx), math.Abs(s.ry)
	end := cur
	if s.k == "O" {
		cx, cy = s.p[0], s.p[1]
	} else {
		end = [2]float64{s.p[2], s.p[3]}
		if rx == 0 || ry == 0 {
			if ns[0].k == "L" && nearC(ns[0].p[0], end[0]) && nearC(ns[0].p[1], end[1]) {
				return 1, ""
			}
			return 0, "an arc with a zero radius is not a straight line"
		}
		cx, cy, rx, ry, total = arcCenter(s)
	}
	sin, cos := math.Sin(s.phi), math.Cos(s.phi)
	unit := func(x, y float64) (float64, float64) {
		x, y = x-cx, y-cy
		return (x*cos + y*sin) / rx, (-x*sin + y*cos) / ry
	}
	// deviation from the ellipse in units of its radii: that of 4 curves per circle, and the rounding of the coordinates
	tol := 2e-3 + coordTol/math.Min(rx, ry)
	px, py := cur[0], cur[1]
	u0, v0 := unit(px, py)
	ang := math.Atan2(v0, u0)
	sum := 0.0
	n := 0
	for n < len(ns) && ns[n].k == "C" {
		p := ns[n].p
		const steps = 8
		for k := 1; k <= steps; k++ {
			t := float64(k) / steps
			q := 1 - t
			b0, b1, b2, b3 := q*q*q, 3*q*q*t, 3*q*t*t, t*t*t
			u, v := unit(b0*px+b1*p[0]+b2*p[2]+b3*p[4], b0*py+b1*p[1]+b2*p[3]+b3*p[5])
			if math.Abs(math.Hypot(u, v)-1) > tol {
				return n, fmt.Sprintf("the curve %v leaves the ellipse with centre (%.5g,%.5g) and radii %.5g,%.5g (relative distance %.5g)", ns[n], cx, cy, rx, ry, math.Hypot(u, v))
			}
			a := math.Atan2(v, u)
			d := a - ang
			for d > math.Pi {
				d -= 2 * math.Pi
			}
			for d < -math.Pi {
				d += 2 * math.Pi
			}
			if sum != 0 && math.Abs(d) > 1e-3+tol && (d > 0) != (sum > 0) {
				return n, fmt.Sprintf("the curve %v turns back", ns[n])
			}
			sum += d
			ang = a
		}
		px, py = p[4], p[5]
		n++
		if nearC(px, end[0]) && nearC(py, end[1]) && (s.k == "A" && math.Abs(sum-total) < 2e-2+2*tol || s.k == "O" && math.Abs(sum) > math.Pi) {
			break
		}
	}
	if n == 0 {
		return 0, fmt.Sprintf("%v where an elliptic arc is expected", ns[0])
	}
	if !nearC(px, end[0]) || !nearC(py, end[1]) {
		return n, fmt.Sprintf("the arc ends at (%.5g,%.5g) where (%.5g,%.5g) is expected", px, py, end[0], end[1])
	}
	// an ellipse of the size of the rounding: what is left of it does not matter
	for tol > 0.005 && n < len(ns) && ns[n].k == "C" && math.Hypot(ns[n].p[4]-end[0], ns[n].p[5]-end[1]) < 8*coordTol {
		n++
	}
	if s.k == "O" {
		if math.Abs(math.Abs(sum)-2*math.Pi) > 1e-2+2*tol {
			return n, fmt.Sprintf("the ellipse is traced over an angle of %.4g", sum)
		}
	} else if math.Abs(sum-total) > 2e-2+2*tol {
		return n, fmt.Sprintf("the arc spans an angle of %.4g where %.4g is expected", sum, total)
	}
	return n, ""
}

// arcCenter is the conversion of the SVG specification (F.6.5, F.6.6).
func arcCenter(s refSeg) (cx, cy, rx, ry, dTheta float64) {
	rx, ry = math.Abs(s.rx), math.Abs(s.ry)
	x1, y1, x2, y2 := s.p[0], s.p[1], s.p[2], s.p[3]
	sin, cos := math.Sin(s.phi), math.Cos(s.phi)
	dx, dy := (x1-x2)/2, (y1-y2)/2
	xp, yp := cos*dx+sin*dy, -sin*dx+cos*dy
	l := xp*xp/(rx*rx) + yp*yp/(ry*ry)
	if l > 1 {
		rx, ry = rx*math.Sqrt(l), ry*math.Sqrt(l)
	}
	num := rx*rx*ry*ry - rx*rx*yp*yp - ry*ry*xp*xp
	f := 0.0
	if num > 0 {
		f = math.Sqrt(num / (rx*rx*yp*yp + ry*ry*xp*xp))
	}
	if s.large == s.swp {
		f = -f
	}
	cxp, cyp := f*rx*yp/ry, -f*ry*xp/rx
	cx, cy = cos*cxp-sin*cyp+(x1+x2)/2, sin*cxp+cos*cyp+(y1+y2)/2
	a1 := math.Atan2((yp-cyp)/ry, (xp-cxp)/rx)
	a2 := math.Atan2((-yp-cyp)/ry, (-xp-cxp)/rx)
	d := a2 - a1
	if s.swp && d < 0 {
		d += 2 * math.Pi
	}
	if !s.swp && d > 0 {
		d -= 2 * math.Pi
	}
	return cx, cy, rx, ry, d
}

// ---- deciding ----

func (s *Scripts) enums() map[string]int64 {
	m := map[string]int64{}
	for _, l := range []map[string]string{refCaps, refJoins, refGaps} {
		for _, n := range l {
			m[n] = cnst(s.c.P.Svg.Pkg, n)
		}
	}
	for _, n := range []string{"NilCap", "NilGap"} {
		m[n] = cnst(s.c.P.Svg.Pkg, n)
	}
	return m
}

// ref evaluates the reference at a point.
func (s *Scripts) ref(doc string, e *env) (*refSvg, error) {
	r := &refSvg{val: func(n string) float64 {
		v, _ := e.eval(num(n))
		return v
	}, names: s.enums()}
	err := r.run(doc)
	return r, err
}

// agree decides whether all outcomes for a valid document have the meaning of the reference.
func (s *Scripts) agree(asp aspect, docs ...string) {
	for _, doc := range docs {
		s.agreeAs(doc, doc, asp)
	}
}

// agreeAs compares the outcomes of a document with the meaning of another one.
func (s *Scripts) agreeAs(doc, refDoc string, asp aspect) {
	s.judge(s.run(doc, "StrictErrorMode"), doc, refDoc, asp, -1)
}

// judge compares outcomes with the meaning of a document; logs is the number of messages
// expected: none (0), some (1) or any (-1).
func (s *Scripts) judge(outs []*Outcome, doc, refDoc string, asp aspect, logs int) {
	for _, o := range outs {
		ps := points(o.St.Facts, 6)
		if len(ps) == 0 {
			s.c.Note("%s: no point satisfies the conditions of a path", doc)
			continue
		}
		var diff, unk []string
		switch {
		case logs == 0 && o.Logs > 0:
			diff = []string{"a message is logged"}
		case logs == 1 && o.Logs == 0:
			diff = []string{"no message is logged"}
		}
		for _, e := range ps {
			if len(diff) > 0 {
				break
			}
			r, err := s.ref(refDoc, e)
			if err != nil {
				s.c.Note("the reference rejects %s", refDoc)
				return
			}
			if o.Err {
				diff = []string{"an error is returned"}
				break
			}
			cm := &cmp{o: o, e: e, asp: asp}
			cm.svg(r)
			unk = append(unk, cm.unk...)
			if len(cm.diff) > 0 {
				diff = cm.diff
			}
		}
		s.report(o, diff, unk, "%s: the result is what the document says", doc)
	}
}

// report counts an obligation about an outcome.
func (s *Scripts) report(o *Outcome, diff, unk []string, format string, args ...interface{}) {
	what := fmt.Sprintf(format, args...)
	switch {
	case len(diff) > 0 && (o.St.Unsure != "" && os.Getenv("SVGCHECK_SURE") == ""):
		s.c.Note("%s: %s, if %s can go that way", what, diff[0], o.St.Unsure)
	case len(diff) > 0:
		if len(diff) > 3 {
			diff = diff[:3]
		}
		s.c.Oblig++
		s.c.Violate("%s — violated: %s [analysed: %s]", what, strings.Join(diff, "; "), s.blame(o))
	case len(unk) > 0:
		s.c.Note("%s: not known: %s", what, unk[0])
	default:
		s.c.Must(true, "%s", what)
	}
}

// blame names the functions that handle a document, apart from the ones for every document.
func (s *Scripts) blame(o *Outcome) string {
	var out []string
	for f := range o.fns {
		if !s.common[f] && f.Pos().IsValid() && s.in.InModule(f) {
			out = append(out, fmt.Sprintf("%s at %s", f.Name(), s.c.P.PosOf(f.Pos())))
		}
	}
	sort.Strings(out)
	if len(out) > 10 {
		out = append(out[:10], "…")
	}
	return strings.Join(out, ", ")
}

// wantErr decides that a document is rejected.
func (s *Scripts) wantErr(doc, mode string) {
	for _, o := range s.run(doc, mode) {
		var diff []string
		if !o.Err {
			diff = []string{"Parse returns without an error"}
		}
		s.report(o, diff, nil, "%s (%s): malformed input is reported", doc, mode)
	}
}

func sortStrings(s []string) { sort.Strings(s) }
