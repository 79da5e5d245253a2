package main

import (
	"fmt"
	"sort"
	"strings"

	"verif/analyzer/ai"
)

func init() {
	checks["C27"] = checkMasks
}

// checkMasks: the gg renderer draws paths through their masks.
func checkMasks(c *Check) {
	c.Rule("Abstract interpretation of Draw of the gg backend on images with masks (coordinates, matrices, colours and opacities symbolic); each context created for a mask is replayed in the same graphics-state model as the main one: what is drawn on it when it becomes the clip mask must be the paths of the mask named last, operation by operation with the matrix of the masked path, with their own paints at full opacity option and with their own masks; a path without a mask, or with an unknown one, is painted without a clip whatever was drawn before; masks that refer to themselves make every outcome an error.")
	c.Assume = append(c.Assume, "gg.Context does what its documentation says")
	p := func(fill, line string, masks ...string) *pathSpec {
		return &pathSpec{ops: "MLQZ", fill: fill, line: line, winding: true, masks: masks}
	}
	q := func(fill, line string, masks ...string) *pathSpec {
		return &pathSpec{ops: "MCL", fill: fill, line: line, masks: masks, dash: 2}
	}
	two := func() []*pathSpec { return []*pathSpec{p("plain", ""), q("plain", "plain")} }
	type m = map[string][]*pathSpec
	type l = []*pathSpec
	imgs := []*image{
		{specs: l{p("plain", "", "a")}, masks: m{"a": two()}},
		{specs: l{p("plain", "plain", "a"), q("plain", "plain")}, masks: m{"a": two()}},
		{specs: l{p("plain", ""), q("", "plain", "a"), p("plain", "")}, masks: m{"a": two()}},
		{specs: l{p("plain", "", "a"), q("plain", "", "none"), p("plain", "")}, masks: m{"a": two()}},
		{specs: l{p("plain", "", "none"), q("plain", "", "a")}, masks: m{"a": two()}},
		{specs: l{p("plain", "", "a", "b")}, masks: m{"a": two(), "b": l{q("", "plain")}}},
		{specs: l{p("plain", "", "b", "a")}, masks: m{"a": two(), "b": l{q("", "plain")}}},
		{specs: l{p("plain", "", "a", "none")}, masks: m{"a": two()}},
		{specs: l{p("plain", "", "none", "a")}, masks: m{"a": two()}},
		{specs: l{p("plain", "", "a"), q("plain", "plain", "b"), p("", "plain", "a")}, masks: m{"a": two(), "b": l{q("", "plain")}}},
		{specs: l{p("plain", "", "a"), q("plain", "", "a")}, masks: m{"a": two()}},
		{specs: l{p("plain", "", "a"), q("plain", "")}, masks: m{"a": l{p("plain", "", "b"), q("plain", "plain")}, "b": l{q("", "plain"), p("plain", "plain")}}},
		{specs: l{p("plain", "", "a"), q("plain", "")}, masks: m{"a": l{p("plain", "", "b")}, "b": l{q("", "plain", "c")}, "c": two()}},
		{specs: l{p("plain", "", "a"), q("plain", "")}, masks: m{"a": l{}}},
		{specs: l{p("plain", "", "a"), q("plain", "")}, masks: m{"a": l{p("", "")}}},
		{specs: l{p("plain", "", "a"), q("plain", "", "")}, masks: m{"a": two()}},
		{specs: l{p("gradient", "", "a"), q("plain", "gradient")}, masks: m{"a": two()}},
		{specs: l{p("plain", "", "a")}, masks: m{}},
		{specs: l{p("plain", "", "a")}, masks: m{"a": l{p("plain", "", "a")}}, fails: true},
		{specs: l{q("plain", ""), p("plain", "", "a")}, masks: m{"a": l{p("plain", "", "b")}, "b": l{q("plain", ""), p("plain", "", "a")}}, fails: true},
		{specs: l{p("plain", "", "a")}, masks: m{"a": l{p("plain", "", "b")}, "b": l{q("plain", "", "c")}, "c": l{p("", "plain", "b")}}, fails: true},
	}
	for _, img := range imgs {
		for _, o := range []string{"", "TO"} {
			img.opts = o
			d := c.DrawImage("gg", img)
			name := d.describe() + maskNames(img)
			if img.fails {
				for _, r := range d.rets {
					t, ok := r.Ret.(*ai.Term)
					c.Must(!ok || t.Op != "nil", "renderer/gg Draw %s: masks that refer to themselves are an error", name)
				}
				continue
			}
			ok := false
			for _, pt := range d.pt {
				ok = true
				c.masked(d, pt, d.paintsOf(pt), name)
			}
			if !ok {
				errs := 0
				for _, r := range d.rets {
					if t, isT := r.Ret.(*ai.Term); !isT || t.Op != "nil" {
						errs++
					}
				}
				if errs == len(d.rets) && errs > 0 && len(d.in.Log.Undec) == 0 {
					c.Must(false, "renderer/gg Draw %s: an image without cyclic masks is drawn without an error", name)
				}
			}
		}
	}
}

func maskNames(img *image) string {
	var out []string
	for i, s := range img.specs {
		if s.masks != nil {
			out = append(out, fmt.Sprintf("path %d masks %q", i, s.masks))
		}
	}
	for k, l := range img.masks {
		for i, s := range l {
			if s.masks != nil {
				out = append(out, fmt.Sprintf("mask %s path %d masks %q", k, i, s.masks))
			}
		}
	}
	sort.Strings(out)
	return " (" + strings.Join(out, ", ") + ")"
}

// masked checks the masks in force for the paints of a context.
func (c *Check) masked(d *drawn, pt *painter, ps []*Paint, name string) {
	ws := d.wants()
	var a, b []string
	for _, p := range ps {
		a = append(a, what(p.Stroke))
	}
	for _, w := range ws {
		b = append(b, what(w.stroke))
	}
	if !c.Must(strings.Join(a, ",") == strings.Join(b, ","), "renderer/gg Draw %s: %s: paints %s, of its paths %s", name, d.level, orElse(strings.Join(a, ","), "nothing"), orElse(strings.Join(b, ","), "nothing")) {
		return
	}
	styleT := c.P.typ("PathStyle")
	for i, w := range ws {
		p := ps[i]
		pos := c.P.Pos(p.Ev.Instr)
		if d.level != "image" {
			exp := d.expectOps(w.s)
			if c.Must(opString(exp) == opString(p.Ops), "renderer/gg (%s) Draw %s: %s: operations sent %s, of the path %s", pos, name, d.level, opString(p.Ops), opString(exp)) {
				for k := range exp {
					for j := range exp[k].coords {
						if c.Must(j < len(p.Ops[k].coords), "renderer/gg (%s) Draw %s: %s: operation %d has its coordinates", pos, name, d.level, k) {
							c.sameReal(p.State, p.Ops[k].coords[j], exp[k].coords[j], "renderer/gg (%s) Draw %s: %s: coordinate %d of operation %d (%c) is placed with the matrix of the masked path", pos, name, d.level, j, k, exp[k].kind)
						}
					}
				}
			}
			c.checkColor(d, pt, p, w, styleT)
			c.checkStroke(d, p, w, styleT)
		}
		var inner []*pathSpec
		masked := false
		id := ""
		if n := len(w.s.masks); n > 0 {
			id = w.s.masks[n-1]
			inner, masked = d.all[id]
		}
		if !c.Must(p.Masked == masked, "renderer/gg (%s) Draw %s: %s: the %s of path %d is drawn with a mask in force: %v, it names one that exists last: %v", pos, name, d.level, what(w.stroke), i, p.Masked, masked) || !masked {
			continue
		}
		m := d.mtx(w.s)
		in := *d
		in.img = &image{specs: inner, opts: d.img.opts}
		in.opac = ai.Float(1)
		in.mtx = func(*pathSpec) [6]*ai.Term { return m }
		in.level = "mask " + id + " of the " + what(w.stroke)
		c.masked(&in, pt, p.Mask, name)
		if t := p.MaskCtx; strings.Contains(t.Op, "gg.NewContext.") && len(t.Args) >= 2 {
			x, ok1 := extent(t.Args[0])
			y, ok2 := extent(t.Args[1])
			if !ok1 || !ok2 {
				c.Note("renderer/gg: size of the context of a mask: %v", t)
				continue
			}
			c.Must(x == "w" && y == "h", "renderer/gg (%s) Draw %s: the mask %s has the size of the context: %v", pos, name, id, t)
		}
	}
}

// extent tells whether a term is the width or the height of a context.
func extent(t *ai.Term) (string, bool) {
	switch {
	case strings.HasSuffix(t.Op, ").Dx"), strings.Contains(t.Op, ").Width."), t.Op == "f:X" && strings.Contains(t.String(), "f:Max"):
		return "w", true
	case strings.HasSuffix(t.Op, ").Dy"), strings.Contains(t.Op, ").Height."), t.Op == "f:Y" && strings.Contains(t.String(), "f:Max"):
		return "h", true
	}
	ms, _ := ai.PolyOf(t)
	if len(ms) == 2 {
		for _, m := range ms {
			if len(m.Atoms) == 1 && strings.Contains(m.Atoms[0].String(), "f:Max") {
				return extent(m.Atoms[0])
			}
		}
	}
	if t.IsConst() || mentions(t, func(x *ai.Term) bool { return x.Op == "sym" && strings.HasPrefix(x.Sym.Label, "mask.") }) {
		return "other", true
	}
	return "", false
}
