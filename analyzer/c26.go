package main

import (
	"verif/analyzer/ai"
)

func init() {
	checks["C26"] = checkOptions
}

// checkOptions: renderer.Options combines options as documented.
func checkOptions(c *Check) {
	c.Rule("Abstract interpretation of renderer.Options for every sequence of Target and Opacity options up to a length, all numbers and the view box symbolic: the opacity is that of the last Opacity option (1 without one), the matrix maps the view box to the rectangle of the last Target option (identity without one), as rational functions; Draw of each backend places a point and scales a paint by exactly these, whatever the order of the options.")
	max := 4
	if c.Tier == "thorough" {
		max = 7
	}
	rt := c.P.ssaPkg(modPath + "/renderer")
	fn := rt.Func("Options")
	if fn == nil {
		panic("the exported function Options is gone")
	}
	var seqs []string
	level := []string{""}
	for n := 0; n <= max; n++ {
		seqs = append(seqs, level...)
		var next []string
		for _, s := range level {
			next = append(next, s+"T", s+"O")
		}
		level = next
	}
	resT := rt.Pkg.Scope().Lookup("RenderOptions").Type()
	optT := rt.Pkg.Scope().Lookup("RenderOption").Type()
	svgT := c.P.typ("Svg")
	for _, seq := range seqs {
		in := c.P.Interp()
		st := c.P.Base(in)
		in.Opt.MergeFloats = false
		in.Opt.RetCap = 64
		in.Opt.BlockCap = 64
		sv := ai.FreshVal(svgT, "s")
		obj := in.Alloc(st, svgT, sv, "svg")
		opac, tgt := ai.Float(1), identity()
		var opts []ai.Val
		for i := 0; i < len(seq); i++ {
			if seq[i] == 'O' {
				opac = ai.Fresh(ai.KFloat, "opacity")
				opts = append(opts, &ai.IfaceV{T: rt.Pkg.Scope().Lookup("Opacity").Type(), V: opac})
				continue
			}
			var as []ai.Val
			for _, n := range []string{"x", "y", "w", "h"} {
				as = append(as, ai.Fresh(ai.KFloat, "target."+n))
			}
			rs := in.Call(st, rt.Func("Target"), as, nil, nil)
			if len(rs) != 1 {
				c.Note("renderer.Target has %d outcomes", len(rs))
				return
			}
			st = rs[0].St
			opts = append(opts, rs[0].Ret)
			tgt = targetMatrix(as, func(n string) *ai.Term { return field(sv, svgT, "ViewBox."+n).(*ai.Term) })
		}
		rs := in.Call(st, fn, []ai.Val{obj, sliceOf(in, st, optT, "opts", opts...)}, nil, nil)
		for _, u := range in.Log.Undec {
			c.Note("%s", u)
		}
		name := seq
		if name == "" {
			name = "none"
		}
		if len(rs) == 0 {
			c.Note("renderer.Options has no analysable outcome for the options %s", name)
		}
		for _, r := range rs {
			p, ok := r.Ret.(*ai.PtrV)
			if !ok {
				c.Note("renderer.Options returns %s", ai.VStr(r.Ret))
				continue
			}
			v := r.St.Load(p)
			c.sameReal(r.St, termOf(field(v, resT, "Opacity")), opac, "renderer.Options (%s): with the options %s (T Target, O Opacity) the opacity is that of the last Opacity option, or 1", c.P.PosOf(fn.Pos()), name)
			m := matrixOf(field(v, resT, "Target"), c.P.typ("Matrix2D"))
			for k, n := range []string{"A", "B", "C", "D", "E", "F"} {
				c.sameReal(r.St, m[k], tgt[k], "renderer.Options (%s): with the options %s member %s of the matrix maps the view box to the rectangle of the last Target option, or is that of the identity", c.P.PosOf(fn.Pos()), name, n)
			}
		}
		c.Cov["option_lists"] = toInt(c.Cov["option_lists"]) + 1
		if len(seq) > 3 {
			continue
		}
		for _, b := range backends {
			d := c.DrawImage(b, &image{opts: seq, specs: []*pathSpec{{ops: "ML", fill: "plain", line: "plain", winding: true}}})
			for _, pt := range d.pt {
				ps, ws, ok := c.align(d, pt)
				if !ok {
					continue // another property
				}
				for i, w := range ws {
					exp := d.expectOps(w.s)
					for k := range exp {
						for j := range exp[k].coords {
							if k < len(ps[i].Ops) && j < len(ps[i].Ops[k].coords) {
								c.sameReal(ps[i].State, ps[i].Ops[k].coords[j], exp[k].coords[j], "renderer/%s Draw %s: coordinate %d of operation %d of the %s is placed by the last Target option", b, d.describe(), j, k, what(w.stroke))
							}
						}
					}
					c.checkColor(d, pt, ps[i], w, c.P.typ("PathStyle"))
				}
			}
		}
	}
}
