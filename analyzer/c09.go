package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	checks["C09"] = checkForwards
	checks["C10"] = checkPaint
	checks["C11"] = checkModes
}

// image is an abstract image drawn by a backend.
type image struct {
	specs []*pathSpec
	opts  string // options, in order: T for Target, O for Opacity
	masks map[string][]*pathSpec
	fails bool // drawing it is an error
}

// drawn is the outcome of drawing an abstract image.
type drawn struct {
	img     *image
	backend string
	in      *ai.Interp
	main    string // key of the context passed in
	pt      []*painter
	rets    []ai.RetState
	opac    *ai.Term
	mtx     func(s *pathSpec) [6]*ai.Term
	level   string                 // what is drawn: the image or a mask
	all     map[string][]*pathSpec // all masks of the image
}

// DrawImage interprets Draw of a backend on an abstract image.
func (c *Check) DrawImage(backend string, img *image) *drawn {
	in := c.P.Interp()
	st := c.P.Base(in)
	in.Opt.MergeFloats = false
	in.Opt.RetCap = 300
	in.Opt.BlockCap = 300
	in.Opt.LoopCap = 300
	in.Opt.Unroll = true
	in.Opt.InlineRec = 40
	in.Opt.KeepFacts = func(*ssa.Function) bool { return true }
	fn := c.P.ssaPkg(modPath + "/renderer/" + backend).Func("Draw")
	if fn == nil {
		panic("the exported function Draw of " + backend + " is gone")
	}
	svgT := c.P.typ("Svg")
	sv := ai.FreshVal(svgT, "s")
	pathT := c.P.typ("SvgPath")
	var paths []ai.Val
	for i, s := range img.specs {
		paths = append(paths, c.P.abstractPath(in, st, s, fmt.Sprintf("path%d", i)))
	}
	sv = with(sv, svgT, "SvgPaths", sliceOf(in, st, pathT, "paths", paths...))
	if img.masks != nil {
		mt := ftype(svgT, "SvgMasks")
		maskT := mt.Underlying().(*types.Map).Elem().Underlying().(*types.Pointer).Elem()
		var keys []string
		for k := range img.masks {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		var ents []ai.MapEnt
		for _, k := range keys {
			var mp []ai.Val
			for i, s := range img.masks[k] {
				mp = append(mp, c.P.abstractPath(in, st, s, fmt.Sprintf("mask.%s.path%d", k, i)))
			}
			mv := explicit(maskT, "mask."+k)
			mv = with(mv, maskT, "ID", ai.Str(k))
			mv = with(mv, maskT, "SvgPaths", sliceOf(in, st, pathT, "mask."+k+".paths", mp...))
			ents = append(ents, ai.MapEnt{K: ai.Str(k), V: in.Alloc(st, maskT, mv, "mask "+k)})
		}
		sv = with(sv, svgT, "SvgMasks", in.NewMap(st, mt, ents, "masks"))
	}
	obj := in.Alloc(st, svgT, sv, "svg")
	d := &drawn{img: img, backend: backend, in: in, opac: ai.Float(1), level: "image", all: img.masks}
	tgt := identity()
	rt := c.P.ssaPkg(modPath + "/renderer")
	optT := rt.Pkg.Scope().Lookup("RenderOption").Type()
	var opts []ai.Val
	for i := 0; i < len(img.opts); i++ {
		if img.opts[i] == 'O' {
			d.opac = ai.Fresh(ai.KFloat, "opacity")
			opts = append(opts, &ai.IfaceV{T: rt.Pkg.Scope().Lookup("Opacity").Type(), V: d.opac})
			continue
		}
		var as []ai.Val
		for _, n := range []string{"x", "y", "w", "h"} {
			as = append(as, ai.Fresh(ai.KFloat, "target."+n))
		}
		rs := in.Call(st, rt.Func("Target"), as, nil, nil)
		st = rs[0].St
		opts = append(opts, rs[0].Ret)
		tgt = targetMatrix(as, func(n string) *ai.Term { return field(sv, svgT, "ViewBox."+n).(*ai.Term) })
	}
	d.mtx = func(s *pathSpec) [6]*ai.Term {
		return mult(tgt, matrixOf(field(s.style, c.P.typ("PathStyle"), "Transform"), c.P.typ("Matrix2D")))
	}
	gc := ai.Fresh(ai.KOther, "gc")
	gc.Sym.NonNil = true
	d.main = ai.Key(gc)
	args := []ai.Val{ai.ValOf(gc, fn.Params[0].Type()), obj, sliceOf(in, st, optT, "opts", opts...)}
	rs, why := in.Try(st, fn, args)
	if why != "" {
		c.Note("%s: %s", backend, why)
	}
	d.rets = rs
	for _, u := range in.Log.Undec {
		c.Note("%s", u)
	}
	for _, r := range d.rets {
		if t, ok := r.Ret.(*ai.Term); ok && r.Ret != nil && t.Op != "nil" && fn.Signature.Results().Len() > 0 {
			continue // an error return
		}
		pt, err := replay(backend, r.St.Evs)
		if err != nil {
			c.Note("%s: %v", backend, err)
			continue
		}
		for _, n := range pt.notes {
			c.Note("%s: %s", backend, n)
		}
		if len(pt.notes) > 0 {
			continue
		}
		d.pt = append(d.pt, pt)
	}
	if len(d.pt) == 0 && !img.fails {
		c.Note("%s: Draw has no analysable outcome", backend)
	}
	c.Cov["abstract_images"] = toInt(c.Cov["abstract_images"]) + 1
	return d
}

// targetMatrix maps the view box to the rectangle x, y, w, h.
func targetMatrix(as []ai.Val, vb func(n string) *ai.Term) [6]*ai.Term {
	sx, sy := ai.Quo(as[2].(*ai.Term), vb("W")), ai.Quo(as[3].(*ai.Term), vb("H"))
	z := ai.Float(0)
	return [6]*ai.Term{sx, z, z, sy,
		ai.Sub(as[0].(*ai.Term), ai.Mul(sx, vb("X"))), ai.Sub(as[1].(*ai.Term), ai.Mul(sy, vb("Y")))}
}

func toInt(v interface{}) int { n, _ := v.(int); return n }

func identity() [6]*ai.Term {
	o, z := ai.Float(1), ai.Float(0)
	return [6]*ai.Term{o, z, z, o, z, z}
}

// matrixOf reads the members A to F.
func matrixOf(v ai.Val, t types.Type) [6]*ai.Term {
	var m [6]*ai.Term
	for i, n := range []string{"A", "B", "C", "D", "E", "F"} {
		m[i] = field(v, t, n).(*ai.Term)
	}
	return m
}

// mult is the product a*b of affine maps.
func mult(a, b [6]*ai.Term) [6]*ai.Term {
	dot := func(x, y, z, w *ai.Term) *ai.Term { return ai.Add(ai.Mul(x, y), ai.Mul(z, w)) }
	return [6]*ai.Term{
		dot(a[0], b[0], a[2], b[1]), dot(a[1], b[0], a[3], b[1]),
		dot(a[0], b[2], a[2], b[3]), dot(a[1], b[2], a[3], b[3]),
		ai.Add(dot(a[0], b[4], a[2], b[5]), a[4]), ai.Add(dot(a[1], b[4], a[3], b[5]), a[5]),
	}
}

// expectOps gives the operations of a path after the transform.
func (d *drawn) expectOps(s *pathSpec) []pathOp {
	m := d.mtx(s)
	var out []pathOp
	open := false
	for i := 0; i < len(s.ops); i++ {
		k := s.ops[i]
		if d.backend == "rasterx" && k == 'M' && open {
			out = append(out, pathOp{'E', nil})
		}
		open = k != 'Z'
		o := pathOp{kind: k}
		cs := s.coords[i]
		for j := 0; j+1 < len(cs); j += 2 {
			x, y := real(cs[j]), real(cs[j+1])
			for r := 0; r < 2; r++ {
				t := ai.Add(ai.Add(ai.Mul(m[r], x), ai.Mul(m[r+2], y)), ai.Mul(ai.Float(64), m[r+4]))
				if d.backend != "rasterx" {
					t = ai.Mul(t, rat(1, 64))
				}
				o.coords = append(o.coords, real(t))
			}
		}
		out = append(out, o)
	}
	if d.backend == "rasterx" && open {
		out = append(out, pathOp{'E', nil})
	}
	return out
}

func opString(ops []pathOp) string {
	var sb strings.Builder
	for _, o := range ops {
		sb.WriteByte(o.kind)
	}
	return sb.String()
}

// paintsOf returns what was painted on the context passed in.
func (d *drawn) paintsOf(pt *painter) []*Paint {
	if d.backend == "rasterx" {
		return pt.paints["rasterx"]
	}
	return pt.paints[d.main]
}

type want struct {
	s      *pathSpec
	stroke bool
}

func (d *drawn) wants() []want {
	var out []want
	for _, s := range d.img.specs {
		if s.fill != "" {
			out = append(out, want{s, false})
		}
		if s.line != "" {
			out = append(out, want{s, true})
		}
	}
	return out
}

func what(stroke bool) string {
	if stroke {
		return "stroke"
	}
	return "fill"
}

// align matches the paints with the expected ones by kind and order; ok is false if they differ.
func (c *Check) align(d *drawn, pt *painter) ([]*Paint, []want, bool) {
	ps, ws := d.paintsOf(pt), d.wants()
	var a, b []string
	for _, p := range ps {
		a = append(a, what(p.Stroke))
	}
	for _, w := range ws {
		b = append(b, what(w.stroke))
	}
	return ps, ws, strings.Join(a, ",") == strings.Join(b, ",")
}

func (d *drawn) describe() string {
	var s []string
	for _, p := range d.img.specs {
		s = append(s, fmt.Sprintf("path %s fill=%s line=%s", p.ops, orElse(p.fill, "none"), orElse(p.line, "none")))
	}
	o := ""
	for _, k := range d.img.opts {
		o += map[rune]string{'T': " Target", 'O': " Opacity"}[k]
	}
	if o != "" {
		o = " with options" + o
	}
	return "[" + strings.Join(s, "; ") + "]" + o
}

// checkForwards: each backend forwards every operation, transformed, in order.
func checkForwards(c *Check) {
	c.Rule("Abstract interpretation of each backend's Draw on images whose coordinates, matrices and colours are unknown; the calls on the graphics context are replayed in a model of its path, and the path painted must be the path of the image, operation by operation, with every point equal (as a polynomial over the rationals, roundings aside) to target*transform*point.")
	c.Assume = append(c.Assume, "the graphics libraries do what their documentation says", "rounding to 1/64 pixel is not part of the property")
	lists := []string{"MLQCZ", "MLZMLL", "MCMQLMLZ", "ML", "MLLLLLLLLLZ", "MLLZLQZCL"}
	for _, b := range backends {
		for _, ops := range lists {
			for _, cl := range [][4]string{{"plain", "", "plain", ""}, {"", "plain", "", "plain"}, {"plain", "plain", "plain", "plain"}, {"gradient", "gradient", "gradient", "gradient"},
				{"", "", "", "plain"}, {"", "", "plain", ""}, {"", "", "plain", "plain"}, {"plain", "", "", "plain"}, {"", "plain", "plain", ""}} {
				for _, tg := range []string{"", "TO"} {
					img := &image{opts: tg}
					img.specs = append(img.specs, &pathSpec{ops: ops, fill: cl[0], line: cl[1], winding: true}, &pathSpec{ops: "MLLZ", fill: cl[2], line: cl[3]})
					d := c.DrawImage(b, img)
					for _, pt := range d.pt {
						ps, ws, ok := c.align(d, pt)
						if !c.Must(ok, "renderer/%s Draw %s: paints the paths of the image in order", b, d.describe()) {
							continue
						}
						for i, w := range ws {
							exp := d.expectOps(w.s)
							got := ps[i].Ops
							pos := c.P.Pos(ps[i].Ev.Instr)
							if !c.Must(opString(exp) == opString(got), "renderer/%s (%s): %s of %s: operations sent %s, of the path %s", b, pos, what(w.stroke), d.describe(), opString(got), opString(exp)) {
								continue
							}
							for k := range exp {
								for j := range exp[k].coords {
									g := (*ai.Term)(nil)
									if j < len(got[k].coords) {
										g = real(got[k].coords[j])
									}
									if g != nil {
										c.rounded(ps[i].State, got[k].coords[j], exp[k].coords[j], unitOf(b), "renderer/%s (%s): %s of %s: coordinate %d of operation %d (%c) is rounded to 1/64: %v", b, pos, what(w.stroke), d.describe(), j, k, exp[k].kind, got[k].coords[j])
									}
									c.sameReal(ps[i].State, g, exp[k].coords[j], "renderer/%s (%s): %s of %s: coordinate %d of operation %d (%c) is target*transform*point: got %v, expected %v", b, pos, what(w.stroke), d.describe(), j, k, exp[k].kind, g, exp[k].coords[j])
								}
							}
						}
					}
				}
			}
		}
	}
}

// checkPaint: paint gating, opacity, colour and rule.
func checkPaint(c *Check) {
	c.Rule("Same abstract images: a path is filled exactly when it has a fill and stroked exactly when it has a stroke, fill first; the colour in force when it is painted derives from its own fill (stroke) and is scaled by its own fill (line) opacity times the opacity option, and by nothing else; the fill rule in force is the path's; width, dashes and dash offset in force are the path's.")
	c.Assume = append(c.Assume, "the graphics libraries do what their documentation says")
	classes := []string{"", "plain", "gradient"}
	styleT := c.P.typ("PathStyle")
	for _, b := range backends {
		for _, f1 := range classes {
			for _, l1 := range classes {
				for _, f2 := range classes {
					for _, l2 := range classes {
						if f1 != "plain" && l1 != "plain" && f1 != "" && (f2 == "gradient" || l2 == "gradient") && c.Tier == "quick" {
							continue
						}
						for _, dir := range []string{"linear", "radial"} {
							if dir == "radial" && f1 != "gradient" && l1 != "gradient" && f2 != "gradient" && l2 != "gradient" {
								continue
							}
							for _, v := range variants(c.Tier, f1, l1, f2, l2, dir) {
								c.paints(b, &image{opts: v.opts, specs: []*pathSpec{
									{ops: "MLZ", fill: f1, line: l1, winding: v.rule, cap: 1, join: 1, grad: dir, dash: v.dash[0]},
									{ops: "MQL", fill: f2, line: l2, winding: !v.rule, cap: 3, join: 2, grad: dir, dash: v.dash[1]},
								}}, styleT)
							}
						}
					}
				}
			}
		}
	}
}

type variant struct {
	opts string
	dash [2]int
	rule bool
}

// variants of an image: options and dashes.
func variants(tier, f1, l1, f2, l2, dir string) []variant {
	vs := []variant{{"TO", [2]int{2, 0}, true}}
	if dir == "linear" && (f1 != "gradient" && l1 != "gradient" && f2 != "gradient" && l2 != "gradient" || tier != "quick") {
		vs = append(vs, variant{"OT", [2]int{0, 3}, false}, variant{"O", [2]int{1, 4}, false}, variant{"T", [2]int{3, 1}, true}, variant{"", [2]int{2, 2}, false})
	}
	return vs
}

// paints checks gating, paint, rule and stroke of the paths of an image.
func (c *Check) paints(b string, img *image, styleT types.Type) {
	d := c.DrawImage(b, img)
	for _, pt := range d.pt {
		ps, ws, ok := c.align(d, pt)
		if !c.Must(ok, "renderer/%s Draw %s: fills and strokes exactly the paths with a fill or stroke", b, d.describe()) {
			continue
		}
		for i, w := range ws {
			c.checkColor(d, pt, ps[i], w, styleT)
			c.checkStroke(d, ps[i], w, styleT)
		}
	}
}

func symsOf(v ai.Val, out map[*ai.Term]bool) {
	var walk func(v ai.Val)
	walk = func(v ai.Val) {
		switch x := v.(type) {
		case *ai.Term:
			if x.Op != "const" && x.Op != "nil" {
				out[x] = true
			}
		case *ai.StructV:
			for _, f := range x.F {
				walk(f)
			}
		case *ai.ArrV:
			for _, f := range x.E {
				walk(f)
			}
		case *ai.IfaceV:
			walk(x.V)
		}
	}
	walk(v)
}

// deep renders a value with the content of slices it holds as a term.
func deep(st *ai.State, v ai.Val) *ai.Term { return ai.ArgTerm(st, v) }

// foreign finds what a term must not depend on: the other paint and opacity of the path,
// and the styles of the other paths.
func (c *Check) foreign(d *drawn, w want, own string, styleT types.Type) map[*ai.Term]string {
	bad := map[*ai.Term]string{}
	add := func(v ai.Val, n string) {
		ts := map[*ai.Term]bool{}
		symsOf(v, ts)
		for t := range ts {
			bad[t] = n
		}
	}
	for _, n := range []string{"FillerColor", "LinerColor", "FillOpacity", "LineOpacity"} {
		if !strings.Contains(own, n) {
			add(field(w.s.style, styleT, n), n)
		}
	}
	for _, v := range w.s.stops[!w.stroke] {
		add(v, "the other gradient")
	}
	for _, s := range d.img.specs {
		if s == w.s {
			continue
		}
		add(s.style, "the style of another path")
		for _, k := range []bool{false, true} {
			for _, v := range s.stops[k] {
				add(v, "the style of another path")
			}
		}
	}
	return bad
}

func dependsOn(t *ai.Term, bad map[*ai.Term]string) string {
	wrong := ""
	t.Walk(func(x *ai.Term) bool {
		if n, ok := bad[x]; ok {
			wrong = n
		}
		return true
	})
	return wrong
}

func (c *Check) checkColor(d *drawn, pt *painter, p *Paint, w want, styleT types.Type) {
	pos := c.P.Pos(p.Ev.Instr)
	ctx := fmt.Sprintf("renderer/%s (%s): %s of %s", d.backend, pos, what(w.stroke), d.describe())
	if !c.Must(p.Color != nil, "%s: a colour is set", ctx) {
		return
	}
	own, ownOp := "FillerColor", "FillOpacity"
	if w.stroke {
		own, ownOp = "LinerColor", "LineOpacity"
	}
	op := field(w.s.style, styleT, ownOp).(*ai.Term)
	bad := c.foreign(d, w, own+","+ownOp, styleT)
	alpha := ai.Mul(op, d.opac)
	col := deep(p.State, p.Color)
	stopT := ftype(c.P.typ("Gradient"), "Stops").Underlying().(*types.Slice).Elem()
	isGrad := w.s.class(w.stroke) == "gradient"
	stops := w.s.stops[w.stroke]
	if isGrad && d.backend == "gg" && (strings.Contains(col.Op, "NewLinearGradient") || strings.Contains(col.Op, "NewRadialGradient")) {
		// a gradient object: its geometry and its stops
		dir := w.s.dirs[w.stroke]
		kind, order := "NewLinearGradient", []int{0, 1, 2, 3}
		if w.s.grad == "radial" {
			kind, order = "NewRadialGradient", []int{2, 3, 5, 0, 1, 4}
		}
		if c.Must(strings.Contains(col.Op, kind), "%s: a %s gradient is drawn as one", ctx, w.s.grad) {
			for k, j := range order {
				c.sameReal(p.State, col.Args[k], dir[j], "%s: argument %d of %s is number %d of the direction of the gradient", ctx, k, kind, j)
			}
		}
		got := pt.stops[ai.Key(p.Color)]
		if len(got) == 0 {
			got = pt.stops[ai.Key(unbox(p.Color))]
		}
		if c.Must(len(got) == len(stops), "%s: the gradient has %d colour stops, drawn with %d", ctx, len(stops), len(got)) {
			for k, st := range stops {
				c.sameReal(p.State, termOf(got[k][0]), field(st, stopT, "Offset").(*ai.Term), "%s: colour stop %d is at its offset", ctx, k)
				so := field(st, stopT, "Opacity").(*ai.Term)
				c.colorIs(p.State, deep(p.State, got[k][1]), termOf(field(st, stopT, "StopColor")), ai.Mul(alpha, so), "%s: colour stop %d has its colour, scaled by %s, the opacity option and its own opacity", ctx, k, ownOp)
			}
		}
		return
	}
	if !isGrad {
		c.colorIs(p.State, col, deep(p.State, field(w.s.style, styleT, own)), alpha, "%s: the colour in force is %s of the path, scaled by its %s and the opacity option", ctx, own, ownOp)
		return
	}
	if d.backend == "rasterx" && strings.Contains(col.Op, "GetColorFunction") && len(col.Args) > 1 {
		wrong := dependsOn(col, bad)
		c.Must(wrong == "", "%s: the gradient in force does not depend on %s", ctx, orElse(wrong, "other styles"))
		c.sameReal(p.State, col.Args[1], alpha, "%s: %s and the opacity option multiply, once each", ctx, ownOp)
		c.rasterxGradient(ctx, p.State, w, col, stopT)
		return
	}
	c.colorIs(p.State, col, termOf(field(stops[0], stopT, "StopColor")), alpha, "%s: the colour in force is the first one of the gradient %s of the path, scaled by its %s and the opacity option", ctx, own, ownOp)
}

// colorIs counts an obligation: the colour is src scaled by alpha.
func (c *Check) colorIs(st *ai.State, col, src, alpha *ai.Term, format string, args ...interface{}) {
	switch sameColor(st, col, src, alpha) {
	case 1:
		c.Must(true, format, args...)
	case -1:
		c.Must(false, format, args...)
	default:
		c.Note("not decided: "+format, args...)
	}
}

// rasterxGradient: the gradient handed over is the one of the path.
func (c *Check) rasterxGradient(ctx string, st *ai.State, w want, col *ai.Term, stopT types.Type) {
	if !strings.Contains(col.Op, "GetColorFunction") || len(col.Args) == 0 {
		return
	}
	g := col.Args[0]
	if g.Op == "ref" {
		g = g.Args[1]
	}
	gt := c.P.pkg("github.com/srwiley/rasterx").Scope().Lookup("Gradient").Type()
	if g.Op != "mk" || len(g.Args) != gt.Underlying().(*types.Struct).NumFields() {
		return
	}
	get := func(n string) *ai.Term { return g.Args[fieldIdx(gt, n)] }
	style := unbox(field(w.s.style, c.P.typ("PathStyle"), map[bool]string{false: "FillerColor", true: "LinerColor"}[w.stroke]))
	svgG := c.P.typ("Gradient")
	dir := w.s.dirs[w.stroke]
	if pts := get("Points"); pts.Op == "mk" || pts.Op == "mkarr" || len(pts.Args) == 5 {
		n := 4
		if w.s.grad == "radial" {
			n = 5
		}
		for k := 0; k < n; k++ {
			c.sameReal(st, pts.Args[k], dir[k], "%s: point %d of the gradient", ctx, k)
		}
	} else {
		c.keeps(ctx, "points", pts, dir[:4]...)
	}
	if b, ok := get("IsRadial").BoolVal(); ok {
		c.Must(b == (w.s.grad == "radial"), "%s: a %s gradient is drawn as one", ctx, w.s.grad)
	}
	if l := get("Stops"); l.Op == "list" {
		if c.Must(len(l.Args) == len(w.s.stops[w.stroke]), "%s: the gradient has all its colour stops", ctx) {
			for k, sv := range w.s.stops[w.stroke] {
				for _, n := range []string{"StopColor", "Offset", "Opacity"} {
					c.Must(mentionsTerm(l.Args[k], termOf(field(sv, stopT, n))), "%s: colour stop %d keeps its %s", ctx, k, n)
				}
			}
		}
	}
	for _, n := range []string{"Spread", "Units"} {
		t := termOf(field(style, svgG, n))
		c.Must(mentionsTerm(get(n), t), "%s: the gradient keeps its %s", ctx, n)
	}
	mtx := matrixOf(field(style, svgG, "Matrix"), c.P.typ("Matrix2D"))
	m := get("Matrix")
	if m.Op == "mk" && len(m.Args) == 6 {
		for k := range mtx {
			c.sameReal(st, m.Args[k], mtx[k], "%s: the gradient keeps its matrix (%c)", ctx, "ABCDEF"[k])
		}
	} else {
		c.keeps(ctx, "matrix", m, mtx[:]...)
	}
	// bounds: of the path, unless the units are those of the user space
	units := termOf(field(style, svgG, "Units"))
	bounds := get("Bounds")
	box, known := st.Facts.Decide(ai.Eq0(ai.Sub(units, ai.Int(cnst(c.P.Svg.Pkg, "ObjectBoundingBox")))))
	if !known {
		user, k2 := st.Facts.Decide(ai.Eq0(ai.Sub(units, ai.Int(cnst(c.P.Svg.Pkg, "UserSpaceOnUse")))))
		known, box = k2 && user, false
	}
	extent := mentions(bounds, func(x *ai.Term) bool { return strings.Contains(x.Op, "GetPathExtent") })
	if !known || box {
		var cs []*ai.Term
		for _, x := range w.s.coords {
			cs = append(cs, x...)
		}
		own := false
		for _, x := range cs {
			own = own || mentionsTerm(bounds, x)
		}
		if own && !extent {
			c.Note("%s: the bounds of the gradient are not known: %v", ctx, bounds)
		} else {
			c.Must(extent, "%s: the bounds of a gradient in units of the bounding box are the extent of the path", ctx)
		}
		if !extent || bounds.Op != "mk" || len(bounds.Args) != 4 {
			return
		}
		c.extents(ctx, st, bounds)
		return
	}
	c.Must(!extent, "%s: the bounds of a gradient in user space are its own", ctx)
}

// extents: the bounds x, y, w, h are those of the path extent.
func (c *Check) extents(ctx string, st *ai.State, b *ai.Term) {
	var ext *ai.Term
	b.Walk(func(t *ai.Term) bool {
		if ext == nil && strings.Contains(t.Op, "GetPathExtent") {
			ext = t
		}
		return ext == nil
	})
	f := func(n, k string) *ai.Term {
		return ai.Mul(rat(1, 64), ai.App(ai.KFloat, "i2f", ai.App(ai.KInt, "f:"+k, ai.App(ai.KOther, "f:"+n, ext))))
	}
	exp := []*ai.Term{f("Min", "X"), f("Min", "Y"), ai.Sub(f("Max", "X"), f("Min", "X")), ai.Sub(f("Max", "Y"), f("Min", "Y"))}
	for k, n := range []string{"X", "Y", "W", "H"} {
		if real(b.Args[k]) == real(exp[k]) {
			c.Must(true, "%s: the bounds of the gradient are the extent of the path (%s)", ctx, n)
			continue
		}
		c.sameReal(st, b.Args[k], exp[k], "%s: the bounds of the gradient are the extent of the path (%s): %v", ctx, n, b.Args[k])
	}
}

// keeps counts an obligation: the term depends on all the parts.
func (c *Check) keeps(ctx, what string, t *ai.Term, parts ...*ai.Term) {
	for _, p := range parts {
		if !c.Must(mentionsTerm(t, p), "%s: the gradient keeps its %s: %v", ctx, what, t) {
			return
		}
	}
}

// unitOf is the unit coordinates are rounded to.
func unitOf(backend string) float64 {
	if backend == "rasterx" {
		return 1
	}
	return 1.0 / 64
}

// rounded counts an obligation: roundings in got change it by no more than two units.
func (c *Check) rounded(st *ai.State, got, exp *ai.Term, unit float64, format string, args ...interface{}) {
	if got == real(got) {
		return
	}
	for _, e := range drawPoints(st.Facts, 4) {
		x, ok1 := e.eval(got)
		y, ok2 := e.eval(exp)
		if !ok1 || !ok2 {
			return
		}
		if !c.Must(math.Abs(x-y) <= 2*unit+1e-6*math.Abs(y), format, args...) {
			return
		}
	}
}

// checkStroke: fill rule, width and dashes in force.
func (c *Check) checkStroke(d *drawn, p *Paint, w want, styleT types.Type) {
	pos := c.P.Pos(p.Ev.Instr)
	ctx := fmt.Sprintf("renderer/%s (%s): %s of %s", d.backend, pos, what(w.stroke), d.describe())
	if !w.stroke {
		rule := "evenodd"
		if w.s.winding {
			rule = "nonzero"
		}
		c.Must(p.Winding == rule, "%s: the fill rule in force is %s, the path's %s", ctx, orElse(p.Winding, "unset"), rule)
		return
	}
	lw := field(w.s.style, styleT, "LineWidth").(*ai.Term)
	if c.Must(p.Width != nil, "%s: a width is set", ctx) {
		m := d.mtx(w.s)
		exp := ai.Mul(lw, ai.Mul(rat(1, 2), ai.Add(m[0], m[3])))
		if d.backend == "rasterx" {
			exp = ai.Mul(exp, ai.Float(64))
		}
		c.Must(real(p.Width) == real(exp) || scaleOnly(real(p.Width), lw) || same(p.Width, exp, drawPoints(p.State.Facts, 6)) == 1, "%s: the width in force is the path's times a scale of its transform: %v", ctx, p.Width)
		c.rounded(p.State, p.Width, exp, unitOf(d.backend), "%s: the width in force keeps its fraction: %v", ctx, p.Width)
		wrong := dependsOn(p.Width, c.foreign(d, w, "", styleT))
		c.Must(wrong == "", "%s: the width in force does not depend on %s", ctx, orElse(wrong, "other styles"))
	}
	if d.backend == "rasterx" {
		return
	}
	dash := field(w.s.style, styleT, "Dash.Dash")
	off := field(w.s.style, styleT, "Dash.DashOffset")
	if c.Must(p.Dash != nil || w.s.dash == 0, "%s: the dash array is set", ctx) && p.Dash != nil {
		got, exp := deep(p.State, p.Dash), deep(p.State, dash)
		switch {
		case got.Op == "nil" && w.s.dash == 0:
		case got.Op != "list":
			c.Note("%s: the dash array in force is not known: %v", ctx, got)
		case c.Must(len(got.Args) == len(exp.Args), "%s: the dash array in force has %d lengths, the path's %d", ctx, len(got.Args), len(exp.Args)):
			for k := range exp.Args {
				c.sameReal(p.State, got.Args[k], exp.Args[k], "%s: dash %d in force is the path's", ctx, k)
			}
		}
	}
	c.sameReal(p.State, dashOff(p), termOf(off), "%s: the dash offset in force is the path's", ctx)
}

func dashOff(p *Paint) *ai.Term {
	if p.DashOff == nil {
		return nil
	}
	return termOf(p.DashOff)
}

// scaleOnly: t is w times something that does not depend on w.
func scaleOnly(t, w *ai.Term) bool {
	ms, _ := ai.PolyOf(t)
	if len(ms) == 0 {
		return false
	}
	for _, m := range ms {
		n := 0
		for i, a := range m.Atoms {
			if a == w {
				n = m.Exps[i]
			} else if mentionsTerm(a, w) {
				return false
			}
		}
		if n != 1 {
			return false
		}
	}
	return true
}

func (s *pathSpec) class(stroke bool) string {
	if stroke {
		return s.line
	}
	return s.fill
}

// checkModes: caps, joins and gaps.
func checkModes(c *Check) {
	c.Rule("Same abstract images, over every cap, join and gap mode of the API: the mode in force when a path is stroked is the one of the graphics library with the same meaning, whatever the path drawn before had; the miter limit and, for rasterx, both caps are the path's own.")
	c.Assume = append(c.Assume, "the graphics libraries do what their documentation says", "gg has no miter join: miter and arc joins may map to any join but a round one there; cubic and quadratic caps exist in rasterx only and may map to a butt cap elsewhere")
	pk := c.P.Svg.Pkg
	styleT := c.P.typ("PathStyle")
	caps := []string{"NilCap", "ButtCap", "SquareCap", "RoundCap", "CubicCap", "QuadraticCap"}
	joins := []string{"Arc", "Round", "Bevel", "Miter", "MiterClip", "ArcClip"}
	gaps := []string{"NilGap", "FlatGap", "RoundGap", "CubicGap", "QuadraticGap"}
	run := func(b string, s2 *pathSpec, name string) {
		for _, prev := range []*pathSpec{
			{ops: "ML", fill: "", line: "plain", cap: cnst(pk, "RoundCap"), lead: cnst(pk, "SquareCap"), join: cnst(pk, "Round"), gap: cnst(pk, "RoundGap")},
			{ops: "ML", fill: "plain", line: "plain", cap: cnst(pk, "SquareCap"), lead: cnst(pk, "RoundCap"), join: cnst(pk, "Bevel"), gap: cnst(pk, "CubicGap")},
		} {
			for _, fl := range []string{"", "plain"} {
				cp := *s2
				cp.ops, cp.line, cp.fill = "MLL", "plain", fl
				d := c.DrawImage(b, &image{specs: []*pathSpec{prev, &cp}, opts: "TO"})
				for _, pt := range d.pt {
					ps, ws, ok := c.align(d, pt)
					if !ok {
						continue // another property
					}
					for i, w := range ws {
						if w.stroke && w.s == &cp {
							c.modes(b, ps[i], w.s, styleT, name)
						}
					}
				}
			}
		}
	}
	for _, b := range backends {
		for _, cp := range caps {
			for _, lead := range caps {
				if lead != "NilCap" && b != "rasterx" {
					continue
				}
				run(b, &pathSpec{cap: cnst(pk, cp), lead: cnst(pk, lead), join: cnst(pk, "Miter")}, cp+" lead "+lead)
			}
		}
		for _, j := range joins {
			run(b, &pathSpec{cap: cnst(pk, "ButtCap"), join: cnst(pk, j)}, j)
		}
		for _, g := range gaps {
			run(b, &pathSpec{cap: cnst(pk, "ButtCap"), join: cnst(pk, "Bevel"), gap: cnst(pk, g)}, g)
		}
	}
}

var capMap = map[string]map[string]string{
	"draw2d": {"NilCap": "ButtCap", "ButtCap": "ButtCap", "SquareCap": "SquareCap", "RoundCap": "RoundCap"},
	"gg":     {"NilCap": "LineCapButt", "ButtCap": "LineCapButt", "SquareCap": "LineCapSquare", "RoundCap": "LineCapRound"},
}

var joinMap = map[string]map[string]string{
	"draw2d":  {"Round": "RoundJoin", "Bevel": "BevelJoin", "Miter": "MiterJoin", "MiterClip": "MiterJoin"},
	"gg":      {"Round": "LineJoinRound", "Bevel": "LineJoinBevel"},
	"rasterx": {"Arc": "Arc", "Round": "Round", "Bevel": "Bevel", "Miter": "Miter", "MiterClip": "MiterClip", "ArcClip": "ArcClip"},
}

func (c *Check) modes(b string, p *Paint, s *pathSpec, styleT types.Type, name string) {
	ctx := fmt.Sprintf("renderer/%s (%s): stroke of a path with %s", b, c.P.Pos(p.Ev.Instr), name)
	svgPk := c.P.Svg.Pkg
	nameOf := func(prefix []string, n int64) string {
		for _, k := range prefix {
			if cnst(svgPk, k) == n {
				return k
			}
		}
		return ""
	}
	capName := nameOf([]string{"NilCap", "ButtCap", "SquareCap", "RoundCap", "CubicCap", "QuadraticCap"}, s.cap)
	leadName := nameOf([]string{"NilCap", "ButtCap", "SquareCap", "RoundCap", "CubicCap", "QuadraticCap"}, s.lead)
	joinName := nameOf([]string{"Arc", "Round", "Bevel", "Miter", "MiterClip", "ArcClip"}, s.join)
	gapName := nameOf([]string{"NilGap", "FlatGap", "RoundGap", "CubicGap", "QuadraticGap"}, s.gap)
	lib := map[string]string{"draw2d": "github.com/llgcode/draw2d", "gg": "github.com/fogleman/gg", "rasterx": "github.com/srwiley/rasterx"}[b]
	lp := c.P.pkg(lib)
	same := func(v ai.Val, want string) (bool, string) {
		if v == nil {
			return false, "unset"
		}
		n, ok := termOf(v).IntVal()
		return ok && n == cnst(lp, want), fmt.Sprint(termOf(v))
	}
	if b != "rasterx" {
		if w := capMap[b][capName]; w != "" {
			ok, got := same(p.Cap, w)
			c.Must(ok, "%s: the cap in force is %s.%s (got %s)", ctx, b, w, got)
		} else {
			c.Must(p.Cap != nil, "%s: a cap is set", ctx)
		}
		if w := joinMap[b][joinName]; w != "" {
			ok, got := same(p.Join, w)
			c.Must(ok, "%s: the join in force is %s.%s (got %s)", ctx, b, w, got)
		} else if c.Must(p.Join != nil, "%s: a join is set", ctx) {
			rj := map[string]string{"draw2d": "RoundJoin", "gg": "LineJoinRound"}[b]
			ok, _ := same(p.Join, rj)
			c.Must(!ok, "%s: a miter join is not drawn round", ctx)
		}
		return
	}
	// SetStroke(width, miterLimit, capL, capT, gap, join)
	if !c.Must(len(p.Extra) == 5, "%s: the stroke is set up", ctx) {
		return
	}
	ml := field(field(s.style, styleT, "Join"), ftype(styleT, "Join"), "MiterLimit").(*ai.Term)
	c.sameReal(p.State, termOf(p.Extra[0]), ml, "%s: the miter limit in force is the path's", ctx)
	fnIs := func(v ai.Val, want string) (bool, string) {
		f := c.funcName(v, lib)
		return f == want, f
	}
	trail := capName
	if trail == "NilCap" {
		trail = "ButtCap"
	}
	lead := leadName
	if lead == "NilCap" {
		lead = trail
	}
	ok, got := fnIs(p.Extra[1], lead)
	c.Must(ok, "%s: the leading cap in force is %s (got %s)", ctx, lead, got)
	ok, got = fnIs(p.Extra[2], trail)
	c.Must(ok, "%s: the trailing cap in force is %s (got %s)", ctx, trail, got)
	gap := gapName
	if gap == "NilGap" {
		gap = "FlatGap"
	}
	ok, got = fnIs(p.Extra[3], gap)
	c.Must(ok, "%s: the gap in force is %s (got %s)", ctx, gap, got)
	ok, got = same(p.Extra[4], joinMap[b][joinName])
	c.Must(ok, "%s: the join in force is %s (got %s)", ctx, joinName, got)
}

// funcName names the function of a library that a function value is: a variable of
// the library holding one, or the function itself.
func (c *Check) funcName(v ai.Val, lib string) string {
	switch x := v.(type) {
	case *ai.FuncV:
		if x.Fn != nil {
			return x.Fn.Name()
		}
	case *ai.Term:
		if x.Sym != nil && x.Sym.Global != "" {
			return x.Sym.Global[strings.LastIndex(x.Sym.Global, ".")+1:]
		}
		return fmt.Sprint(x)
	}
	return ai.VStr(v)
}
