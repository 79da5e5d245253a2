package main

import (
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"math"
	"regexp"
	"strconv"
	"strings"
)

// The reference: what a document means according to the SVG specification (for the
// subset the library documents), over plain numbers. It is written independently of the
// library and is compared with the formulas the analysis finds, never with a run of it.

type refSvg struct {
	vb            [4]float64
	width, height string
	titles, descs []string
	paths         []*refPath
	masks         map[string]*refMask
	grads         map[string]*refGrad
	defs          map[string]*refNode
	val           func(string) float64
	// state
	offX, offY float64
	depth      int
	mask       *refMask
	def        refStyle
	names      map[string]int64 // enumeration constants
}

type refMask struct {
	x, y, w, h float64
	paths      []*refPath
}

type refPath struct {
	segs  []refSeg
	style refStyle
}

// refSeg is a path segment; k is one of M L Q C Z A (elliptic arc) and O (a whole ellipse).
type refSeg struct {
	k          string
	p          []float64
	rx, ry     float64 // A, O
	phi        float64
	large, swp bool
}

type refStyle struct {
	fillOp, lineOp, width, miter, dashOff float64
	nonzero                               bool
	join, trail, lead, gap                int64
	dash                                  []float64
	fill, line                            refPaint
	masks                                 []string
	m                                     [6]float64
}

// refPaint is nil, *refColor or *refGrad.
type refPaint interface{}

type refColor [4]int

type refGrad struct {
	radial bool
	dir    []float64
	stops  []refStop
	bounds [4]float64
	m      [6]float64
	spread string
	user   bool
}

type refStop struct {
	color   *refColor
	off, op float64
}

type refNode struct {
	name string
	text string // character data if name is empty
	at   [][2]string
	kids []*refNode
}

func parseDoc(doc string) (*refNode, error) {
	root := &refNode{name: "#"}
	stack := []*refNode{root}
	d := xml.NewDecoder(strings.NewReader(doc))
	for {
		t, err := d.Token()
		if err == io.EOF {
			return root, nil
		}
		if err != nil {
			return root, err
		}
		top := stack[len(stack)-1]
		switch x := t.(type) {
		case xml.StartElement:
			n := &refNode{name: x.Name.Local}
			for _, a := range x.Attr {
				n.at = append(n.at, [2]string{a.Name.Local, a.Value})
			}
			top.kids = append(top.kids, n)
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			top.kids = append(top.kids, &refNode{text: string(x)})
		}
	}
}

var errRef = errors.New("the document is invalid")

func (r *refSvg) run(doc string) error {
	root, err := parseDoc(doc)
	if err != nil {
		return err
	}
	r.masks = map[string]*refMask{}
	r.grads = map[string]*refGrad{}
	r.defs = map[string]*refNode{}
	r.def = refStyle{fillOp: 1, lineOp: 1, width: 2, miter: 4, nonzero: true, join: r.names["Bevel"], trail: r.names["ButtCap"],
		lead: r.names["NilCap"], gap: r.names["NilGap"],
		fill: &refColor{0, 0, 0, 255}, m: [6]float64{1, 0, 0, 1, 0, 0}}
	for _, k := range root.kids {
		if err := r.node(k, r.def); err != nil {
			return err
		}
	}
	return nil
}

var numRe = regexp.MustCompile(`^[-+]?([0-9]+\.?[0-9]*|\.[0-9]+)(e-?[0-9]+)?$`)

func (r *refSvg) number(s string) (float64, error) {
	if generic.MatchString(s) {
		if s[0] == '-' {
			return -r.val(s[1:]), nil
		}
		return r.val(strings.TrimPrefix(s, "+")), nil
	}
	if !numRe.MatchString(s) {
		return 0, errRef
	}
	return strconv.ParseFloat(s, 64)
}

var unitPx = map[string]float64{"px": 1, "cm": 96 / 2.54, "mm": 9.6 / 2.54, "pt": 96.0 / 72, "in": 96, "Q": 96 / 2.54 / 40, "pc": 16, "%": 1}

// length reads a length; % refers to base.
func (r *refSvg) length(s string, base float64) (float64, error) {
	s = strings.TrimSpace(s)
	for u, f := range unitPx {
		if strings.HasSuffix(s, u) {
			v, err := r.number(strings.TrimSpace(strings.TrimSuffix(s, u)))
			if u == "%" {
				return v / 100 * base, err
			}
			return v * f, err
		}
	}
	return r.number(s)
}

func diag(w, h float64) float64 { return math.Sqrt((w*w + h*h) / 2) }

// lengths reads the named lengths of an element; the letter is the base of percentages.
func (r *refSvg) lengths(n *refNode, want map[string]byte) (map[string]float64, error) {
	out := map[string]float64{}
	for _, a := range n.at {
		b, ok := want[a[0]]
		if !ok {
			continue
		}
		v, err := r.length(a[1], r.base(b))
		if err != nil {
			return nil, err
		}
		out[a[0]] = v
	}
	return out, nil
}

func (r *refSvg) base(b byte) float64 {
	switch b {
	case 'w':
		return r.vb[2]
	case 'h':
		return r.vb[3]
	}
	return diag(r.vb[2], r.vb[3])
}

var numbersRe = regexp.MustCompile(`[-+]?([0-9]+\.?[0-9]*|\.[0-9]+)(e-?[0-9]+)?`)

func (r *refSvg) numbers(s string) ([]float64, error) {
	var out []float64
	if rest := strings.Trim(numbersRe.ReplaceAllString(s, " "), ", \t\r\n"); strings.Trim(rest, ", \t\r\n") != "" {
		return nil, errRef
	}
	for _, f := range numbersRe.FindAllString(s, -1) {
		v, err := r.number(f)
		if err != nil {
			return nil, err
		}
		out = append(out, v)
	}
	return out, nil
}

func (n *refNode) attr(name string) (string, bool) {
	v, found := "", false
	for _, a := range n.at {
		if a[0] == name {
			v, found = a[1], true
		}
	}
	return v, found
}

func (r *refSvg) node(n *refNode, parent refStyle) error {
	if n.name == "" {
		return nil
	}
	st, err := r.style(n, parent)
	if err != nil {
		return err
	}
	switch n.name {
	case "svg":
		r.vb = [4]float64{}
		for _, a := range n.at {
			switch a[0] {
			case "width":
				r.width = a[1]
			case "height":
				r.height = a[1]
			}
		}
		l := [2]float64{}
		for i, k := range []string{"width", "height"} {
			if v, ok := n.attr(k); ok {
				if l[i], err = r.length(v, 100); err != nil {
					return err
				}
			}
		}
		if v, ok := n.attr("viewBox"); ok {
			ns, err := r.numbers(v)
			if err != nil || len(ns) != 4 {
				return errRef
			}
			copy(r.vb[:], ns)
		}
		for i := range l {
			if r.vb[2+i] == 0 {
				r.vb[2+i] = l[i]
			}
		}
		return r.kids(n, st)
	case "g":
		return r.kids(n, st)
	case "defs":
		for _, k := range n.kids {
			switch k.name {
			case "":
			case "linearGradient", "radialGradient":
				if err := r.node(k, st); err != nil {
					return err
				}
			default:
				if id, ok := k.attr("id"); ok {
					r.defs[id] = k
				}
			}
		}
		return nil
	case "title", "desc":
		t := ""
		for _, k := range n.kids {
			t += k.text
		}
		if n.name == "title" {
			r.titles = append(r.titles, t)
		} else {
			r.descs = append(r.descs, t)
		}
		return nil
	case "mask":
		l, err := r.lengths(n, map[string]byte{"x": 'w', "y": 'h', "width": 'w', "height": 'h'})
		if err != nil {
			return err
		}
		id, ok := n.attr("id")
		if ok && id == "" {
			return errRef
		}
		m := &refMask{x: l["x"], y: l["y"], w: l["width"], h: l["height"]}
		r.mask = m
		err = r.kids(n, st)
		r.mask = nil
		r.masks[id] = m
		return err
	case "linearGradient", "radialGradient":
		return r.gradient(n, st)
	case "stop":
		return nil
	case "use":
		l, err := r.lengths(n, map[string]byte{"x": 'w', "y": 'h'})
		if err != nil {
			return err
		}
		href, _ := n.attr("href")
		d, ok := r.defs[strings.TrimPrefix(href, "#")]
		if !ok || !strings.HasPrefix(href, "#") {
			return errRef
		}
		if r.depth++; r.depth > 100 {
			return errRef
		}
		defer func() { r.depth-- }()
		ox, oy := r.offX, r.offY
		r.offX, r.offY = ox+l["x"], oy+l["y"]
		err = r.node(d, st)
		r.offX, r.offY = ox, oy
		return err
	}
	segs, known, err := r.shape(n)
	if err != nil {
		return err
	}
	if !known {
		return errRef
	}
	if len(segs) > 0 {
		for i := range segs {
			p := append([]float64{}, segs[i].p...)
			for j := range p {
				if j%2 == 0 {
					p[j] += r.offX
				} else {
					p[j] += r.offY
				}
			}
			segs[i].p = p
		}
		rp := &refPath{segs: segs, style: st}
		if r.mask != nil {
			r.mask.paths = append(r.mask.paths, rp)
		} else {
			r.paths = append(r.paths, rp)
		}
	}
	return r.kids(n, st)
}

func (r *refSvg) kids(n *refNode, st refStyle) error {
	for _, k := range n.kids {
		if err := r.node(k, st); err != nil {
			return err
		}
	}
	return nil
}

func (r *refSvg) shape(n *refNode) (segs []refSeg, known bool, err error) {
	seg := func(k string, p ...float64) { segs = append(segs, refSeg{k: k, p: p}) }
	switch n.name {
	case "rect":
		l, err := r.lengths(n, map[string]byte{"x": 'w', "y": 'h', "width": 'w', "height": 'h', "rx": 'w', "ry": 'h'})
		if err != nil {
			return nil, true, err
		}
		x, y, w, h, rx, ry := l["x"], l["y"], l["width"], l["height"], l["rx"], l["ry"]
		if w == 0 || h == 0 {
			return nil, true, nil
		}
		if rx == 0 {
			rx = ry
		}
		if ry == 0 {
			ry = rx
		}
		if rx <= 0 || ry <= 0 {
			seg("M", x, y)
			seg("L", x+w, y)
			seg("L", x+w, y+h)
			seg("L", x, y+h)
			seg("Z")
			return segs, true, nil
		}
		rx, ry = math.Min(rx, w/2), math.Min(ry, h/2)
		arc := func(x1, y1, x2, y2 float64) {
			segs = append(segs, refSeg{k: "A", p: []float64{x1, y1, x2, y2}, rx: rx, ry: ry, swp: true})
		}
		seg("M", x+rx, y)
		seg("L", x+w-rx, y)
		arc(x+w-rx, y, x+w, y+ry)
		seg("L", x+w, y+h-ry)
		arc(x+w, y+h-ry, x+w-rx, y+h)
		seg("L", x+rx, y+h)
		arc(x+rx, y+h, x, y+h-ry)
		seg("L", x, y+ry)
		arc(x, y+ry, x+rx, y)
		seg("Z")
		return segs, true, nil
	case "circle", "ellipse":
		l, err := r.lengths(n, map[string]byte{"cx": 'w', "cy": 'h', "r": 'd', "rx": 'w', "ry": 'h'})
		if err != nil {
			return nil, true, err
		}
		rx, ry := l["rx"], l["ry"]
		if n.name == "circle" {
			rx, ry = l["r"], l["r"]
		}
		if rx == 0 || ry == 0 {
			return nil, true, nil
		}
		seg("M", l["cx"]+rx, l["cy"])
		segs = append(segs, refSeg{k: "O", p: []float64{l["cx"], l["cy"]}, rx: rx, ry: ry})
		seg("Z")
		return segs, true, nil
	case "line":
		l, err := r.lengths(n, map[string]byte{"x1": 'w', "y1": 'h', "x2": 'w', "y2": 'h'})
		if err != nil {
			return nil, true, err
		}
		seg("M", l["x1"], l["y1"])
		seg("L", l["x2"], l["y2"])
		return segs, true, nil
	case "polyline", "polygon":
		v, _ := n.attr("points")
		ns, err := r.numbers(v)
		if err != nil || len(ns)%2 != 0 {
			return nil, true, errRef
		}
		if len(ns) <= 4 {
			return nil, true, nil
		}
		for i := 0; i < len(ns); i += 2 {
			k := "L"
			if i == 0 {
				k = "M"
			}
			seg(k, ns[i], ns[i+1])
		}
		if n.name == "polygon" {
			seg("Z")
		}
		return segs, true, nil
	case "path":
		v, ok := n.attr("d")
		if !ok {
			return nil, true, nil
		}
		segs, err := r.pathData(v)
		return segs, true, err
	}
	return nil, false, nil
}

var cmdRe = regexp.MustCompile(`[A-DF-Za-df-z][^A-DF-Za-df-z]*`)

var cmdArgs = map[byte]int{'m': 2, 'l': 2, 'h': 1, 'v': 1, 'c': 6, 's': 4, 'q': 4, 't': 2, 'a': 7, 'z': 0}

func (r *refSvg) pathData(d string) ([]refSeg, error) {
	var segs []refSeg
	seg := func(k string, p ...float64) { segs = append(segs, refSeg{k: k, p: p}) }
	var x, y, sx, sy, cx, cy float64
	var last byte
	for _, c := range cmdRe.FindAllString(d, -1) {
		k := c[0] | 0x20
		rel := c[0] >= 'a'
		ns, err := r.numbers(c[1:])
		if err != nil {
			return segs, err
		}
		na, ok := cmdArgs[k]
		if !ok || na == 0 && len(ns) > 0 || na > 0 && (len(ns) == 0 || len(ns)%na != 0) {
			return segs, errRef
		}
		if na == 0 {
			seg("Z")
			x, y = sx, sy
			last = k
			continue
		}
		for i := 0; i < len(ns); i += na {
			a := append([]float64{}, ns[i:i+na]...)
			ox, oy := 0.0, 0.0
			if rel {
				ox, oy = x, y
			}
			if k != 'a' && k != 'h' && k != 'v' {
				for j := range a {
					if j%2 == 0 {
						a[j] += ox
					} else {
						a[j] += oy
					}
				}
			}
			switch k {
			case 'm':
				if i == 0 {
					seg("M", a...)
					sx, sy = a[0], a[1]
				} else {
					seg("L", a...)
				}
				x, y = a[0], a[1]
			case 'l':
				seg("L", a...)
				x, y = a[0], a[1]
			case 'h':
				x = a[0] + ox
				seg("L", x, y)
			case 'v':
				y = a[0] + oy
				seg("L", x, y)
			case 'q':
				seg("Q", a...)
				cx, cy, x, y = a[0], a[1], a[2], a[3]
			case 't':
				if last == 'q' || last == 't' {
					cx, cy = 2*x-cx, 2*y-cy
				} else {
					cx, cy = x, y
				}
				seg("Q", cx, cy, a[0], a[1])
				x, y = a[0], a[1]
			case 'c':
				seg("C", a...)
				cx, cy, x, y = a[2], a[3], a[4], a[5]
			case 's':
				if last == 'c' || last == 's' {
					cx, cy = 2*x-cx, 2*y-cy
				} else {
					cx, cy = x, y
				}
				seg("C", cx, cy, a[0], a[1], a[2], a[3])
				cx, cy, x, y = a[0], a[1], a[2], a[3]
			case 'a':
				ex, ey := a[5]+ox, a[6]+oy
				segs = append(segs, refSeg{k: "A", p: []float64{x, y, ex, ey}, rx: a[0], ry: a[1], phi: a[2] * math.Pi / 180, large: a[3] != 0, swp: a[4] != 0})
				x, y = ex, ey
			}
			last = k
		}
	}
	return segs, nil
}

// ---- style ----

func mul(a, b [6]float64) [6]float64 {
	return [6]float64{
		a[0]*b[0] + a[2]*b[1], a[1]*b[0] + a[3]*b[1],
		a[0]*b[2] + a[2]*b[3], a[1]*b[2] + a[3]*b[3],
		a[0]*b[4] + a[2]*b[5] + a[4], a[1]*b[4] + a[3]*b[5] + a[5],
	}
}

var trRe = regexp.MustCompile(`^[\s,]*([A-Za-z]+)\s*\(([^()]*)\)`)

func (r *refSvg) transform(m [6]float64, v string) ([6]float64, error) {
	for strings.Trim(v, " ,\t\n") != "" {
		x := trRe.FindStringSubmatch(v)
		if x == nil {
			return m, errRef
		}
		v = v[len(x[0]):]
		a, err := r.numbers(x[2])
		if err != nil {
			return m, err
		}
		rad := func(d float64) float64 { return d * math.Pi / 180 }
		rot := func(d float64) [6]float64 {
			s, c := math.Sin(rad(d)), math.Cos(rad(d))
			return [6]float64{c, s, -s, c, 0, 0}
		}
		switch k := strings.ToLower(x[1]) + strconv.Itoa(len(a)); k {
		case "translate1":
			m = mul(m, [6]float64{1, 0, 0, 1, a[0], 0})
		case "translate2":
			m = mul(m, [6]float64{1, 0, 0, 1, a[0], a[1]})
		case "scale1":
			m = mul(m, [6]float64{a[0], 0, 0, a[0], 0, 0})
		case "scale2":
			m = mul(m, [6]float64{a[0], 0, 0, a[1], 0, 0})
		case "rotate1":
			m = mul(m, rot(a[0]))
		case "rotate3":
			m = mul(mul(mul(m, [6]float64{1, 0, 0, 1, a[1], a[2]}), rot(a[0])), [6]float64{1, 0, 0, 1, -a[1], -a[2]})
		case "skewx1":
			m = mul(m, [6]float64{1, 0, math.Tan(rad(a[0])), 1, 0, 0})
		case "skewy1":
			m = mul(m, [6]float64{1, math.Tan(rad(a[0])), 0, 1, 0, 0})
		case "matrix6":
			m = mul(m, [6]float64{a[0], a[1], a[2], a[3], a[4], a[5]})
		default:
			return m, errRef
		}
	}
	return m, nil
}

var (
	refCaps  = map[string]string{"butt": "ButtCap", "round": "RoundCap", "square": "SquareCap", "cubic": "CubicCap", "quadratic": "QuadraticCap"}
	refJoins = map[string]string{"miter": "Miter", "miter-clip": "MiterClip", "arc-clip": "ArcClip", "round": "Round", "arc": "Arc", "bevel": "Bevel"}
	refGaps  = map[string]string{"flat": "FlatGap", "round": "RoundGap", "cubic": "CubicGap", "quadratic": "QuadraticGap"}
)

func (r *refSvg) style(n *refNode, parent refStyle) (refStyle, error) {
	s := parent
	var kv [][2]string
	for _, a := range n.at {
		if strings.ToLower(a[0]) != "style" {
			kv = append(kv, a)
			continue
		}
		for _, p := range strings.Split(a[1], ";") {
			if k, v, ok := strings.Cut(p, ":"); ok {
				kv = append(kv, [2]string{k, v})
			}
		}
	}
	for _, p := range kv {
		k, v := strings.ToLower(strings.TrimSpace(p[0])), strings.TrimSpace(p[1])
		var err error
		pick := func(f *int64, m map[string]string) {
			c, ok := m[v]
			if !ok {
				err = errRef
				return
			}
			*f = r.names[c]
		}
		switch k {
		case "fill":
			s.fill, err = r.paint(v, s.fill)
		case "stroke":
			s.line, err = r.paint(v, s.line)
		case "fill-rule":
			switch v {
			case "evenodd":
				s.nonzero = false
			case "nonzero":
				s.nonzero = true
			default:
				err = errRef
			}
		case "stroke-linegap":
			pick(&s.gap, refGaps)
		case "stroke-linecap":
			pick(&s.trail, refCaps)
		case "stroke-leadlinecap":
			pick(&s.lead, refCaps)
		case "stroke-linejoin":
			pick(&s.join, refJoins)
		case "stroke-miterlimit":
			s.miter, err = r.length(v, 100)
		case "stroke-width":
			s.width, err = r.length(v, r.base('w'))
		case "stroke-dashoffset":
			s.dashOff, err = r.length(v, r.base('d'))
		case "stroke-dasharray":
			s.dash = nil
			if v != "none" {
				for _, f := range strings.FieldsFunc(v, func(c rune) bool { return c == ',' || c == ' ' }) {
					var x float64
					if x, err = r.length(f, r.base('d')); err != nil {
						return s, err
					}
					s.dash = append(s.dash, x)
				}
			}
		case "opacity", "fill-opacity", "stroke-opacity":
			var x float64
			x, err = r.number(v)
			if k != "stroke-opacity" {
				s.fillOp *= x
			}
			if k != "fill-opacity" {
				s.lineOp *= x
			}
		case "transform":
			s.m, err = r.transform(parent.m, v)
		case "mask":
			id := ""
			if v != "none" && v != "" {
				if !strings.HasPrefix(v, "url(#") || !strings.HasSuffix(v, ")") {
					return s, errRef
				}
				id = v[5 : len(v)-1]
			}
			s.masks = append(append([]string{}, s.masks...), id)
		}
		if err != nil {
			return s, err
		}
	}
	return s, nil
}

func (r *refSvg) paint(v string, cur refPaint) (refPaint, error) {
	if strings.HasPrefix(v, "url(") && strings.HasSuffix(v, ")") {
		id := strings.TrimPrefix(strings.TrimSpace(v[4:len(v)-1]), "#")
		g, ok := r.grads[id]
		if !ok {
			return &refColor{0, 0, 0, 255}, nil
		}
		c := *g
		c.stops = append([]refStop{}, g.stops...)
		for i := range c.stops {
			if c.stops[i].color == nil {
				c.stops[i].color = firstColor(cur)
			}
		}
		return &c, nil
	}
	c, err := refColorOf(v)
	if c == nil {
		return nil, err
	}
	return c, err
}

func firstColor(p refPaint) *refColor {
	switch x := p.(type) {
	case *refColor:
		return x
	case *refGrad:
		for _, s := range x.stops {
			if s.color != nil {
				return s.color
			}
		}
	}
	return &refColor{0, 0, 0, 255}
}

var hexRe = regexp.MustCompile(`^#([0-9a-fA-F]{3}|[0-9a-fA-F]{6})$`)

// refColorOf reads a colour; nil means none.
func refColorOf(v string) (*refColor, error) {
	l := strings.ToLower(v)
	if l == "none" {
		return nil, nil
	}
	if c, ok := cssColors[l]; ok {
		return &refColor{int(c >> 16), int(c >> 8 & 255), int(c & 255), 255}, nil
	}
	if hexRe.MatchString(v) {
		h := v[1:]
		if len(h) == 3 {
			h = string([]byte{h[0], h[0], h[1], h[1], h[2], h[2]})
		}
		n, _ := strconv.ParseUint(h, 16, 32)
		return &refColor{int(n >> 16), int(n >> 8 & 255), int(n & 255), 255}, nil
	}
	if strings.HasPrefix(v, "rgb(") && strings.HasSuffix(v, ")") {
		fs := strings.Split(v[4:len(v)-1], ",")
		if len(fs) != 3 {
			return nil, errRef
		}
		c := &refColor{0, 0, 0, 255}
		for i, f := range fs {
			f = strings.TrimSpace(f)
			p := strings.HasSuffix(f, "%")
			n, err := strconv.Atoi(strings.TrimSpace(strings.TrimSuffix(f, "%")))
			if err != nil {
				return nil, errRef
			}
			if p {
				n = n * 255 / 100
			}
			c[i] = int(math.Max(0, math.Min(255, float64(n))))
		}
		return c, nil
	}
	return nil, errRef
}

func (r *refSvg) gradient(n *refNode, st refStyle) error {
	g := &refGrad{bounds: r.vb, m: [6]float64{1, 0, 0, 1, 0, 0}, spread: "pad"}
	if v, ok := n.attr("gradientUnits"); ok && v == "userSpaceOnUse" {
		g.user = true
	}
	if v, ok := n.attr("spreadMethod"); ok {
		g.spread = v
	}
	if v, ok := n.attr("gradientTransform"); ok {
		m, err := r.transform(st.m, v)
		if err != nil {
			return err
		}
		g.m = m
	}
	w, h := 1.0, 1.0
	if g.user {
		w, h = r.vb[2], r.vb[3]
	}
	var err error
	get := func(name, def string, base float64) float64 {
		v, ok := n.attr(name)
		if !ok {
			v = def
		}
		x, e := r.length(v, base)
		if e != nil {
			err = e
		}
		return x
	}
	if n.name == "linearGradient" {
		g.dir = []float64{get("x1", "0%", w), get("y1", "0%", h), get("x2", "100%", w), get("y2", "0", h)}
	} else {
		g.radial = true
		at := func(n1, n2 string) string {
			if v, ok := n.attr(n1); ok {
				return v
			}
			if v, ok := n.attr(n2); ok {
				return v
			}
			return "50%"
		}
		d := diag(w, h)
		g.dir = []float64{get("cx", "50%", w), get("cy", "50%", h), get("fx", at("fx", "cx"), w), get("fy", at("fy", "cy"), h), get("r", "50%", d), get("fr", "0%", d)}
	}
	if err != nil {
		return err
	}
	for _, k := range n.kids {
		if k.name != "stop" {
			continue
		}
		s := refStop{op: 1}
		at := k.at
		if v, ok := k.attr("style"); ok {
			for _, p := range strings.Split(v, ";") {
				if a, b, ok := strings.Cut(p, ":"); ok {
					a = strings.ToLower(strings.TrimSpace(a))
					if a == "stop-color" || a == "stop-opacity" {
						at = append(at[:len(at):len(at)], [2]string{a, strings.TrimSpace(b)})
					}
				}
			}
		}
		for _, a := range at {
			switch a[0] {
			case "offset":
				v := strings.TrimSpace(a[1])
				s.off, err = r.number(strings.TrimSpace(strings.TrimSuffix(v, "%")))
				if strings.HasSuffix(v, "%") {
					s.off /= 100
				}
			case "stop-color":
				s.color, err = refColorOf(a[1])
			case "stop-opacity":
				s.op, err = r.number(strings.TrimSpace(a[1]))
			}
			if err != nil {
				return err
			}
		}
		g.stops = append(g.stops, s)
	}
	if id, ok := n.attr("id"); ok {
		r.grads[id] = g
	}
	return nil
}

var _ = fmt.Sprint

var refTransforms = map[string]bool{"translate": true, "scale": true, "rotate": true, "skewx": true, "skewy": true, "matrix": true}
