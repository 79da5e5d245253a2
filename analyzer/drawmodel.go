package main

import (
	"fmt"
	"go/types"
	"strings"

	"verif/analyzer/ai"
)

// ---- abstract images ----

// pathSpec describes a path of an abstract image.
type pathSpec struct {
	ops        string // letters of operations: M L Q C Z
	fill, line string // "", "plain" or "gradient"
	grad       string // direction of gradients: "linear" or "radial"
	winding    bool
	cap, lead  int64
	join, gap  int64
	dash       int // number of dashes
	masks      []string
	path       ai.Val
	style      ai.Val
	stops      map[bool][]ai.Val // of the gradients, by stroke
	dirs       map[bool][]*ai.Term
	coords     [][]*ai.Term
}

var opNames = map[byte]string{'M': "OpMoveTo", 'L': "OpLineTo", 'Q': "OpQuadTo", 'C': "OpCubicTo", 'Z': "OpClose"}

// explicit returns an unknown value with one symbol per member.
func explicit(t types.Type, label string) ai.Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := &ai.StructV{}
		for i := 0; i < u.NumFields(); i++ {
			v.F = append(v.F, explicit(u.Field(i).Type(), label+"."+u.Field(i).Name()))
		}
		return v
	case *types.Array:
		v := &ai.ArrV{}
		for i := int64(0); i < u.Len(); i++ {
			v.E = append(v.E, explicit(u.Elem(), fmt.Sprintf("%s[%d]", label, i)))
		}
		return v
	}
	return ai.FreshVal(t, label)
}

// pattern returns the paint of the given class.
func (p *Program) pattern(in *ai.Interp, st *ai.State, s *pathSpec, stroke bool, label string) ai.Val {
	switch s.class(stroke) {
	case "":
		return ai.Nil()
	case "plain":
		t := p.typ("PlainColor")
		return &ai.IfaceV{T: t, V: explicit(t, label+".plain")}
	}
	t := p.typ("Gradient")
	v := explicit(t, label+".grad")
	dt := p.typ("Linear")
	if s.grad == "radial" {
		dt = p.typ("Radial")
	}
	dv := explicit(dt, label+".dir")
	var ds []*ai.Term
	flat(dv, &ds)
	s.dirs[stroke] = ds
	v = with(v, t, "Direction", &ai.IfaceV{T: dt, V: dv})
	st_ := ftype(t, "Stops").Underlying().(*types.Slice).Elem()
	var stops []ai.Val
	for i := 0; i < 2; i++ {
		s := explicit(st_, fmt.Sprintf("%s.stop%d", label, i))
		if c, ok := field(s, st_, "StopColor").(*ai.Term); ok {
			// a colour is set once the image is parsed
			if f, ok := st.Facts.Assume(ai.App(ai.KBool, "isnil", c), false); ok {
				st.Facts = f
			}
		}
		stops = append(stops, s)
	}
	s.stops[stroke] = stops
	v = with(v, t, "Stops", sliceOf(in, st, st_, label+".stops", stops...))
	return &ai.IfaceV{T: t, V: v}
}

// abstractPath builds a path with unknown coordinates and style values.
func (p *Program) abstractPath(in *ai.Interp, st *ai.State, s *pathSpec, label string) ai.Val {
	opT := p.typ("Operation")
	var ops []ai.Val
	s.coords = nil
	for i := 0; i < len(s.ops); i++ {
		t := p.typ(opNames[s.ops[i]])
		v := ai.FreshVal(t, fmt.Sprintf("%s.op%d", label, i))
		var cs []*ai.Term
		flat(v, &cs)
		s.coords = append(s.coords, cs)
		ops = append(ops, &ai.IfaceV{T: t, V: v})
	}
	pt := p.typ("SvgPath")
	v := explicit(pt, label)
	s.stops, s.dirs = map[bool][]ai.Val{}, map[bool][]*ai.Term{}
	s.path = sliceOf(in, st, opT, label+".ops", ops...)
	v = with(v, pt, "Path", s.path)
	v = with(v, pt, "Style.FillerColor", p.pattern(in, st, s, false, label+".fill"))
	v = with(v, pt, "Style.LinerColor", p.pattern(in, st, s, true, label+".line"))
	v = with(v, pt, "Style.UseNonZeroWinding", ai.Bool(s.winding))
	v = with(v, pt, "Style.Join.TrailLineCap", ai.Int(s.cap))
	v = with(v, pt, "Style.Join.LeadLineCap", ai.Int(s.lead))
	v = with(v, pt, "Style.Join.LineJoin", ai.Int(s.join))
	v = with(v, pt, "Style.Join.LineGap", ai.Int(s.gap))
	var ms, ds []ai.Val
	for _, m := range s.masks {
		ms = append(ms, ai.Str(m))
	}
	for i := 0; i < s.dash; i++ {
		ds = append(ds, ai.Fresh(ai.KFloat, fmt.Sprintf("%s.dash%d", label, i)))
	}
	v = with(v, pt, "Style.Masks", sliceOf(in, st, types.Typ[types.String], label+".masks", ms...))
	v = with(v, pt, "Style.Dash.Dash", sliceOf(in, st, types.Typ[types.Float64], label+".dashes", ds...))
	s.style = field(v, pt, "Style")
	return v
}

func flat(v ai.Val, out *[]*ai.Term) {
	switch x := v.(type) {
	case *ai.Term:
		*out = append(*out, x)
	case *ai.StructV:
		for _, f := range x.F {
			flat(f, out)
		}
	case *ai.ArrV:
		for _, f := range x.E {
			flat(f, out)
		}
	}
}

// ---- model of the graphics contexts ----

type pathOp struct {
	kind   byte
	coords []*ai.Term
}

// Paint is one fill or stroke of a path.
type Paint struct {
	Stroke  bool
	Ops     []pathOp
	Color   ai.Val
	Winding string // "nonzero", "evenodd"
	Width   *ai.Term
	Cap     ai.Val
	Join    ai.Val
	Dash    ai.Val
	DashOff ai.Val
	Extra   []ai.Val // further stroke parameters
	Mask    []*Paint // what is drawn on the mask in force
	Masked  bool
	MaskCtx *ai.Term // the context the mask was drawn on
	Ev      *ai.Ev
	State   *ai.State
}

// painter replays the calls on a context.
type painter struct {
	backend string
	ctx     map[string]*gcState
	notes   []string
	paints  map[string][]*Paint
	stops   map[string][][]ai.Val // colour stops added to gradients
	masks   map[string][]*Paint   // what contexts turned into masks show
}

type gcState struct {
	Paint
	fill, stroke ai.Val
	current      bool // a current point (gg)
	saved        []gcState
}

func (g *gcState) get() Paint {
	p := g.Paint
	p.Ops = append([]pathOp{}, g.Ops...)
	return p
}

func (pt *painter) state(key string) *gcState {
	if s, ok := pt.ctx[key]; ok {
		return s
	}
	s := &gcState{}
	pt.ctx[key] = s
	return s
}

func lastName(n string) (recv, m string) {
	i := strings.LastIndex(n, ".")
	if i < 0 {
		return "", n
	}
	return n[:i], n[i+1:]
}

func terms(vs []ai.Val) []*ai.Term {
	var out []*ai.Term
	for _, v := range vs {
		flat(v, &out)
	}
	return out
}

// feed processes one call.
func (pt *painter) feed(e *ai.Ev) {
	if e.Kind != "call" {
		return
	}
	recv, m := lastName(e.Name)
	if len(e.Args) == 0 {
		return
	}
	switch pt.backend {
	case "draw2d":
		if !strings.Contains(recv, "llgcode/draw2d.") {
			return
		}
		pt.draw2d(m, e)
	case "gg":
		if m == "AddColorStop" {
			k := ai.Key(unbox(e.Args[0]))
			pt.stops[k] = append(pt.stops[k], e.Args[1:])
		}
		if recv != "(*github.com/fogleman/gg.Context)" {
			return
		}
		pt.gg(m, e)
	case "rasterx":
		if !strings.Contains(recv, "srwiley/rasterx.") {
			return
		}
		pt.rasterx(recv, m, e)
	}
}

func (pt *painter) paint(key string, g *gcState, stroke bool, e *ai.Ev) {
	p := g.get()
	p.Stroke = stroke
	p.Ev = e
	p.State = e.State
	if stroke {
		p.Color = g.stroke
	} else {
		p.Color = g.fill
	}
	pt.paints[key] = append(pt.paints[key], &p)
}

func (pt *painter) note(e *ai.Ev) {
	pt.notes = append(pt.notes, "call of "+e.Name+" is not modelled")
}

func (pt *painter) draw2d(m string, e *ai.Ev) {
	key := ai.Key(e.Args[0])
	g := pt.state(key)
	a := e.Args[1:]
	add := func(k byte) { g.Ops = append(g.Ops, pathOp{k, terms(a)}) }
	switch m {
	case "BeginPath":
		g.Ops = nil
	case "MoveTo":
		add('M')
	case "LineTo":
		add('L')
	case "QuadCurveTo":
		add('Q')
	case "CubicCurveTo":
		add('C')
	case "Close":
		add('Z')
	case "SetFillRule":
		g.Winding = "evenodd"
		if n, ok := termOf(a[0]).IntVal(); ok && n == 1 {
			g.Winding = "nonzero"
		}
	case "SetFillColor":
		g.fill = a[0]
	case "SetStrokeColor":
		g.stroke = a[0]
	case "SetLineWidth":
		g.Width = termOf(a[0])
	case "SetLineCap":
		g.Cap = a[0]
	case "SetLineJoin":
		g.Join = a[0]
	case "SetLineDash":
		g.Dash, g.DashOff = a[0], a[1]
	case "Fill":
		pt.paint(key, g, false, e)
		g.Ops = nil
	case "Stroke":
		pt.paint(key, g, true, e)
		g.Ops = nil
	case "FillStroke":
		pt.paint(key, g, false, e)
		pt.paint(key, g, true, e)
		g.Ops = nil
	case "Save":
		c := *g
		c.saved = nil
		c.Ops = append([]pathOp{}, g.Ops...)
		g.saved = append(g.saved, c)
	case "Restore":
		if n := len(g.saved); n > 0 {
			s := g.saved[:n-1]
			*g = g.saved[n-1]
			g.saved = s
		}
	default:
		if !strings.HasPrefix(m, "Get") {
			pt.note(e)
		}
	}
}

func (pt *painter) gg(m string, e *ai.Ev) {
	key := ai.Key(e.Args[0])
	g := pt.state(key)
	a := e.Args[1:]
	add := func(k byte) { g.Ops = append(g.Ops, pathOp{k, terms(a)}) }
	solid := func(v ai.Val) ai.Val { return v }
	switch m {
	case "ClearPath":
		g.Ops, g.current = nil, false
	case "NewSubPath":
		g.current = false
	case "MoveTo":
		add('M')
		g.current = true
	case "LineTo":
		// without a current point it only moves there
		add(map[bool]byte{true: 'L', false: 'M'}[g.current])
		g.current = true
	case "QuadraticTo":
		if !g.current {
			g.Ops = append(g.Ops, pathOp{'M', terms(a[:2])})
		}
		add('Q')
		g.current = true
	case "CubicTo":
		if !g.current {
			g.Ops = append(g.Ops, pathOp{'M', terms(a[:2])})
		}
		add('C')
		g.current = true
	case "ClosePath":
		add('Z')
	case "SetFillRuleWinding":
		g.Winding = "nonzero"
	case "SetFillRuleEvenOdd":
		g.Winding = "evenodd"
	case "SetFillRule":
		g.Winding = "nonzero"
		if n, ok := termOf(a[0]).IntVal(); ok && n == 1 {
			g.Winding = "evenodd"
		}
	case "SetFillStyle":
		g.fill = solid(a[0])
	case "SetStrokeStyle":
		g.stroke = solid(a[0])
	case "SetColor":
		g.fill, g.stroke = solid(a[0]), solid(a[0])
	case "SetLineWidth":
		g.Width = termOf(a[0])
	case "SetLineCap":
		g.Cap = a[0]
	case "SetLineCapRound":
		g.Cap = ai.Int(0)
	case "SetLineCapButt":
		g.Cap = ai.Int(1)
	case "SetLineCapSquare":
		g.Cap = ai.Int(2)
	case "SetLineJoin":
		g.Join = a[0]
	case "SetLineJoinRound":
		g.Join = ai.Int(0)
	case "SetLineJoinBevel":
		g.Join = ai.Int(1)
	case "SetDash":
		g.Dash = a[0]
	case "SetDashOffset":
		g.DashOff = a[0]
	case "SetMask":
		g.Mask, g.Masked = nil, true
		known := false
		deep(e.State, a[0]).Walk(func(t *ai.Term) bool {
			if strings.Contains(t.Op, "gg.Context).AsMask") && len(t.Args) > 0 {
				if ps, ok := pt.masks[ai.Key(t.Args[0])]; ok {
					g.Mask, known, g.MaskCtx = ps, true, t.Args[0]
				}
			}
			return true
		})
		if !known {
			pt.note(e)
		}
	case "ResetClip":
		g.Mask, g.Masked = nil, false
	case "Fill":
		pt.paint(key, g, false, e)
		g.Ops, g.current = nil, false
	case "FillPreserve":
		pt.paint(key, g, false, e)
	case "Stroke":
		pt.paint(key, g, true, e)
		g.Ops, g.current = nil, false
	case "StrokePreserve":
		pt.paint(key, g, true, e)
	case "AsMask":
		pt.masks[key] = append([]*Paint{}, pt.paints[key]...)
	case "Image", "Width", "Height":
	case "Push":
		c := *g
		c.saved = nil
		c.Ops = append([]pathOp{}, g.Ops...)
		g.saved = append(g.saved, c)
	case "Pop":
		if n := len(g.saved); n > 0 {
			s := g.saved[:n-1]
			*g = g.saved[n-1]
			g.saved = s
		}
	default:
		pt.note(e)
	}
}

// rasterx has a filler and a stroker that share a scanner, which holds the colour and
// the rule.
func (pt *painter) rasterx(recv, m string, e *ai.Ev) {
	part := ""
	switch {
	case strings.Contains(recv, "Filler"):
		part = "fill"
	case strings.Contains(recv, "Stroker"), strings.Contains(recv, "Dasher"):
		part = "stroke"
	case strings.Contains(recv, "Scanner"):
		part = "scanner"
	default:
		return
	}
	scan := pt.state("scanner")
	g := pt.state(part)
	a := e.Args[1:]
	add := func(k byte) { g.Ops = append(g.Ops, pathOp{k, terms(a)}) }
	open := func() bool {
		n := len(g.Ops)
		return n > 0 && g.Ops[n-1].kind != 'Z' && g.Ops[n-1].kind != 'E'
	}
	switch m {
	case "Clear":
		// the stroker adds its outlines to the same rasterizer
		pt.state("fill").Ops, pt.state("stroke").Ops = nil, nil
	case "Start":
		add('M')
	case "Line":
		add('L')
	case "QuadBezier":
		add('Q')
	case "CubeBezier":
		add('C')
	case "Stop":
		if b, ok := termOf(a[0]).BoolVal(); ok && b {
			g.Ops = append(g.Ops, pathOp{'Z', nil})
		} else if open() {
			g.Ops = append(g.Ops, pathOp{'E', nil})
		}
	case "SetWinding":
		scan.Winding = "evenodd"
		if b, ok := termOf(a[0]).BoolVal(); ok && b {
			scan.Winding = "nonzero"
		}
	case "SetColor":
		scan.fill = a[0]
	case "SetStroke":
		g.Width = termOf(a[0])
		g.Extra = a[1:]
	case "Draw":
		for _, k := range []string{"fill", "stroke"} {
			src := pt.state(k)
			if len(src.Ops) == 0 {
				continue
			}
			c := *src
			c.fill, c.stroke, c.Winding = scan.fill, scan.fill, scan.Winding
			pt.paint("rasterx", &c, k == "stroke", e)
		}
	case "GetPathExtent", "SetBounds", "SetClip":
	default:
		pt.note(e)
	}
}

// replay feeds the events of a run without alternatives.
func replay(backend string, evs *ai.EvList) (*painter, error) {
	pt := &painter{backend: backend, ctx: map[string]*gcState{}, paints: map[string][]*Paint{}, stops: map[string][][]ai.Val{}, masks: map[string][]*Paint{}}
	for _, e := range evs.Slice() {
		if e.Kind == "alt" || e.Kind == "loop" {
			if hasCalls(e) {
				return nil, fmt.Errorf("the calls depend on a condition the analysis cannot resolve (%s)", e.Kind)
			}
			continue
		}
		pt.feed(e)
	}
	return pt, nil
}

func hasCalls(e *ai.Ev) bool {
	for _, a := range e.Alts {
		for _, x := range a.Evs.Slice() {
			if x.Kind == "call" || (x.Kind == "alt" || x.Kind == "loop") && hasCalls(x) {
				return true
			}
		}
	}
	return false
}
