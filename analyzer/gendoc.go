package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"
)

// A generator of larger skeletons: trees of all kinds of elements with any combination of
// attributes. The sequence is fixed (the seed is a constant), so every run covers the same
// documents; what is decided for each of them holds for all numbers in it.

type gen struct {
	r *rand.Rand
	p profile
	// what may be referred to
	grads, masks, defs []string
	n, nums            int
	inMask, inDefs     bool
	noTitle            bool
	marks              bool // leave marks where an unsupported item could stand
}

// profile weighs what a family is about.
type profile struct {
	shape, group, grad, mask, def, use, text, noise int
	style                                           int // style attributes per element
	units                                           bool
	paint                                           bool // mostly gradients as paints
	path                                            bool // mostly paths
	transforms                                      bool // mostly transforms
	depth, width                                    int
}

func (g *gen) in(n int) int           { return g.r.Intn(n) }
func (g *gen) of(xs ...string) string { return xs[g.in(len(xs))] }
func (g *gen) chance(pct int) bool    { return g.in(100) < pct }

// num is a number, nearly always a generic one.
func (g *gen) num() string {
	g.nums++
	switch k := g.in(20); {
	case k < 15:
		return "@"
	case k < 17:
		return "-@"
	}
	return g.of("0", "1", "2.5", "-3", "0.125", ".5")
}

func (g *gen) pos() string {
	g.nums++
	if g.chance(85) {
		return "@"
	}
	return g.of("1", "2.5", "7", "40")
}

func (g *gen) unit(v string) string {
	if g.p.units && g.chance(40) {
		return v + g.of(unitNames...)
	}
	return v
}

func (g *gen) attrs(list ...string) string {
	g.r.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
	out := ""
	for _, a := range list {
		if a != "" {
			out += " " + a
		}
	}
	return out
}

func (g *gen) len(name string) string {
	if g.chance(15) {
		return ""
	}
	return fmt.Sprintf(`%s="%s"`, name, g.unit(g.num()))
}

func (g *gen) lenp(name string) string {
	return fmt.Sprintf(`%s="%s"`, name, g.unit(g.pos()))
}

func (g *gen) styleAttrs() []string {
	n := g.in(g.p.style + 1)
	var out []string
	var css []string
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := styleKeys[g.in(len(styleKeys))]
		if g.p.transforms && g.chance(60) {
			k = "transform"
		}
		if g.p.paint && g.chance(70) {
			k = g.of("fill", "stroke")
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		v := g.of(styleVals[k]...)
		switch {
		case (k == "fill" || k == "stroke") && len(g.grads) > 0 && (g.p.paint || g.chance(50)):
			v = "url(#" + g.of(g.grads...) + ")"
		case k == "mask" && len(g.masks) > 0 && g.chance(70):
			v = "url(#" + g.of(g.masks...) + ")"
		case k == "transform":
			v = g.transform()
		}
		g.nums += strings.Count(v, "@")
		if g.chance(30) {
			css = append(css, k+":"+v)
		} else {
			out = append(out, fmt.Sprintf(`%s="%s"`, k, v))
		}
	}
	if g.marks && !g.inDefs && g.chance(30) {
		if g.chance(50) {
			out = append(out, "§a")
		} else {
			css = append(css, "§c")
			g.r.Shuffle(len(css), func(i, j int) { css[i], css[j] = css[j], css[i] })
		}
	}
	if len(css) > 0 {
		out = append(out, `style="`+strings.Join(css, g.of(";", "; ", " ;"))+g.of("", ";")+`"`)
	}
	return out
}

func (g *gen) transform() string {
	out := ""
	for i := 0; i <= g.in(3); i++ {
		f := g.of("translate(#)", "translate(#,#)", "scale(#)", "scale(# #)", "rotate(#)", "rotate(#,#,#)", "skewX(#)", "skewY(#)", "matrix(# # # # # #)", "Translate( # , # )")
		out += g.of("", " ", ", ") + f
	}
	for strings.Contains(out, "#") {
		out = strings.Replace(out, "#", g.num(), 1)
	}
	return strings.TrimLeft(out, ", ")
}

func (g *gen) path() string {
	out := g.of("M", "m") + g.num() + g.of(" ", ",") + g.num()
	n := 1 + g.in(5)
	if g.p.path {
		n += g.in(5)
	}
	marked := false
	for i := 0; i < n; i++ {
		if g.marks && !g.inDefs && g.chance(10) {
			out += "§p"
			marked = true
		}
		k := "mlhvqtcszamlhvqtcs"[g.in(18)]
		if marked && (k == 't' || k == 's') {
			k = 'l' // what these reflect after an unknown command is a matter of taste
		}
		marked = false
		c := string(k)
		if g.chance(50) {
			c = strings.ToUpper(c)
		}
		out += g.of("", " ") + c
		if k == 'z' {
			continue
		}
		if k == 'a' {
			out = strings.TrimSuffix(out, c) + "a" + g.of("30 50", "20 20", "5 4") + " " + g.of("0", "20", "-35") + " " + g.of("0", "1") + " " + g.of("0", "1") + " " + g.of("34 13", "-20 6", "7 -40")
			continue
		}
		for rep := 0; rep == 0 || rep < 3 && g.chance(25); rep++ {
			for j := 0; j < cmdArgs[k]; j++ {
				sep := g.of(" ", ",")
				if j == 0 && rep == 0 {
					sep = g.of("", " ")
				}
				out += sep + g.num()
			}
		}
	}
	return out
}

func (g *gen) points() string {
	out := ""
	for i := 0; i < 3+g.in(4); i++ {
		out += g.of(" ", ",") + g.num() + g.of(" ", ",") + g.num()
	}
	return strings.TrimLeft(out, ", ")
}

func (g *gen) shape(id string) string {
	st := g.styleAttrs()
	if id != "" {
		st = append(st, `id="`+id+`"`)
	}
	el := func(name string, as ...string) string {
		body := ""
		if !g.noTitle && g.p.text > 0 && g.chance(5) {
			body = g.text()
		}
		if body != "" {
			return "<" + name + g.attrs(append(as, st...)...) + ">" + body + "</" + name + ">"
		}
		return "<" + name + g.attrs(append(as, st...)...) + "/>"
	}
	k := g.in(8)
	if g.p.path && g.chance(80) {
		k = 7
	}
	switch k {
	case 0:
		return el("line", g.len("x1"), g.len("y1"), g.len("x2"), g.len("y2"))
	case 1:
		if g.chance(10) {
			return el("rect", g.len("x"), g.len("y"), g.of(`width="0"`, `height="0"`))
		}
		return el("rect", g.len("x"), g.len("y"), g.lenp("width"), g.lenp("height"))
	case 2:
		return el("rect", `x="1"`, `y="-2"`, `width="30"`, `height="40"`, `rx="5"`, g.of(`ry="4"`, ""))
	case 3:
		if g.chance(10) {
			return el("circle", g.len("cx"), g.of(`r="0"`, ""))
		}
		return el("circle", g.len("cx"), g.len("cy"), g.lenp("r"))
	case 4:
		return el("ellipse", g.len("cx"), g.len("cy"), g.lenp("rx"), g.lenp("ry"))
	case 5:
		return el(g.of("polyline", "polygon"), `points="`+g.points()+`"`)
	}
	return el("path", `d="`+g.path()+`"`)
}

func (g *gen) stop() string {
	out := ""
	if g.chance(85) {
		out += ` offset="` + g.of("@", "@%", "0", "1", "50%", "0.25") + `"`
	}
	col := g.of("red", "#123456", "rgb(1,2,3)", "lime")
	switch g.in(7) {
	case 0:
		out += ` stop-color="` + col + `"`
	case 1:
		out = ` stop-color="` + col + `" stop-opacity="@"` + out
	case 2:
		out += ` style="stop-color:` + col + `"`
	case 3:
		out += ` style="stop-opacity:@;stop-color:` + col + `"`
	case 4:
		out = ` stop-opacity="@"` + out
	}
	return `<stop` + out + `/>`
}

func (g *gen) gradient() string {
	id := fmt.Sprintf("g%d", g.in(4))
	if g.chance(50) {
		g.n++
		id = fmt.Sprintf("gr%d", g.n)
	}
	as := []string{`id="` + id + `"`, g.of("", `gradientUnits="userSpaceOnUse"`, `gradientUnits="objectBoundingBox"`), g.of("", "", `spreadMethod="reflect"`, `spreadMethod="repeat"`, `spreadMethod="pad"`)}
	if g.chance(25) {
		as = append(as, `gradientTransform="`+g.transform()+`"`)
	}
	opt := func(n string) {
		if g.chance(50) {
			v := g.num()
			if g.chance(30) {
				v += "%"
			}
			as = append(as, fmt.Sprintf(`%s="%s"`, n, v))
		}
	}
	name := g.of("linearGradient", "radialGradient")
	if name == "linearGradient" {
		for _, n := range []string{"x1", "y1", "x2", "y2"} {
			opt(n)
		}
	} else {
		for _, n := range []string{"cx", "cy", "fx", "fy", "r", "fr"} {
			opt(n)
		}
	}
	body := ""
	for i := g.in(4); i > 0; i-- {
		body += g.stop()
		if g.p.noise > 0 && g.chance(10) {
			body += g.noise()
		}
	}
	out := "<" + name + g.attrs(as...) + ">" + body + "</" + name + ">"
	g.grads = append(g.grads, id)
	return out
}

func (g *gen) text() string {
	k := g.of("title", "desc")
	switch g.in(6) {
	case 0:
		return "<" + k + "/>"
	case 1:
		return "<" + k + ">a &amp; b<!-- c -->d</" + k + ">"
	case 2:
		return "<" + k + "> x <![CDATA[<y>]]></" + k + ">"
	}
	g.n++
	return fmt.Sprintf("<%s>text %d</%s>", k, g.n, k)
}

func (g *gen) noise() string {
	return g.of("<!-- comment -->", "\n  ", "stray", "<?pi x?>", "<![CDATA[data]]>")
}

func (g *gen) group(id string, depth int) string {
	as := g.styleAttrs()
	if id != "" {
		as = append(as, `id="`+id+`"`)
	}
	return `<g` + g.attrs(as...) + `>` + g.list(depth-1) + `</g>`
}

func (g *gen) use(id string) string {
	as := append(g.styleAttrs(), g.len("x"), g.len("y"), g.of("href", "xlink:href")+`="#`+g.of(g.defs...)+`"`)
	if id != "" {
		as = append(as, `id="`+id+`"`)
	}
	return `<use` + g.attrs(as...) + `/>`
}

func (g *gen) definitions(depth int) string {
	out := ""
	g.inDefs, g.noTitle = true, true
	for i := 1 + g.in(3); i > 0; i-- {
		if g.p.noise > 0 && g.chance(15) {
			out += g.noise()
		}
		if g.chance(25) && g.p.grad > 0 {
			out += g.gradient()
			continue
		}
		g.n++
		id := fmt.Sprintf("d%d", g.n)
		if len(g.defs) > 0 && g.chance(15) {
			id = g.of(g.defs...)
		}
		x := ""
		switch k := g.in(4); {
		case k == 0 && id == fmt.Sprintf("d%d", g.n):
			x = g.group(id, min(depth, 2))
		case k == 1 && len(g.defs) > 0 && id == fmt.Sprintf("d%d", g.n):
			x = g.use(id)
		default:
			x = g.shape(id)
		}
		out += x
		g.defs = append(g.defs, id)
	}
	g.inDefs, g.noTitle = false, false
	return `<defs>` + out + `</defs>`
}

func (g *gen) maskEl(depth int) string {
	id := fmt.Sprintf("m%d", g.in(4))
	as := append(g.styleAttrs(), `id="`+id+`"`, g.len("x"), g.len("y"), g.len("width"), g.len("height"))
	g.inMask = true
	out := `<mask` + g.attrs(as...) + `>` + g.list(depth-1) + `</mask>`
	g.inMask = false
	g.masks = append(g.masks, id)
	return out
}

// list is the content of a container.
func (g *gen) list(depth int) string {
	out := ""
	for i := g.in(g.p.width + 1); i > 0 && g.nums < 250; i-- {
		if g.marks && !g.inDefs && g.chance(20) {
			out += "§e"
		}
		out += g.element(depth)
	}
	if g.marks && !g.inDefs && g.chance(20) {
		out += "§e"
	}
	return out
}

func (g *gen) element(depth int) string {
	p := g.p
	if depth <= 0 {
		p.group, p.mask, p.def = 0, 0, 0
	}
	if g.inDefs {
		p.grad, p.mask, p.def, p.text = 0, 0, 0, 0
	}
	if g.inMask {
		p.mask, p.def = 0, 0
	}
	if len(g.defs) == 0 {
		p.use = 0
	}
	k := g.in(p.shape + p.group + p.grad + p.mask + p.def + p.use + p.text + p.noise)
	for _, x := range []struct {
		w int
		f func() string
	}{
		{p.shape, func() string { return g.shape("") }},
		{p.group, func() string { return g.group("", depth) }},
		{p.grad, g.gradient},
		{p.mask, func() string { return g.maskEl(depth) }},
		{p.def, func() string { return g.definitions(depth) }},
		{p.use, func() string { return g.use("") }},
		{p.text, g.text},
		{p.noise, g.noise},
	} {
		if k < x.w {
			return x.f()
		}
		k -= x.w
	}
	return ""
}

// mixed lists n documents of a profile.
func mixed(p profile, seed int64, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		g := &gen{r: rand.New(rand.NewSource(seed*1000003 + int64(i))), p: p}
		out = append(out, g.document())
	}
	return out
}

// mixed compares generated documents with the reference.
func (s *Scripts) mixed(asp aspect, p profile, seed int64, n int) {
	if s.c.Tier == "thorough" {
		n *= 20
	}
	s.agree(asp, mixed(p, seed, n)...)
}

func (g *gen) document() string {
	body := ""
	for k := 2 + g.in(g.p.width+1); k > 0 && g.nums < 250; k-- {
		body += g.element(g.p.depth)
		if g.marks && g.chance(20) {
			body += "§e"
		}
	}
	if g.chance(33) {
		return at(`<svg width="901" height="902` + g.of("", "px", "mm") + `">` + body + `</svg>`)
	}
	return wrap(body)
}

var anyProfile = profile{shape: 6, group: 4, grad: 2, mask: 2, def: 2, use: 3, text: 1, noise: 1, style: 3, units: true, depth: 3, width: 3}

var genericIn = regexp.MustCompile(`[0-9]{3}`)

// mutants lists generated documents with one thing wrong in each.
func (s *Scripts) mutants(seed int64, n int, f func(doc, mode string)) {
	if s.c.Tier == "thorough" {
		n *= 20
	}
	e := newEnv(1)
	for i := 0; n > 0; i++ {
		g := &gen{r: rand.New(rand.NewSource(seed*1000003 + int64(i))), p: anyProfile}
		doc := g.document()
		at := genericIn.FindAllStringIndex(doc, -1)
		k := at[g.in(len(at))]
		switch g.in(8) {
		case 0, 1, 2, 3:
			doc = doc[:k[0]] + g.of("1e", "-", "x", "", "1e", "-") + doc[k[1]:]
		case 4, 5: // one number less or more in a list
			if c := doc[k[1]]; c == ' ' || c == ',' {
				doc = doc[:k[0]] + g.of("", "801 802") + doc[k[1]:]
			}
		case 6: // a reference to nowhere
			doc = strings.Replace(doc, `href="#d`, `href="#`+g.of("nope", "", "D"), 1)
		case 7: // the end is missing
			doc = doc[:len(doc)-1-g.in(len(doc)*2/3)]
		}
		if _, err := s.ref(doc, e); err == nil {
			continue
		}
		n--
		f(doc, modes[i%3])
	}
}

// unsupported lists generated documents with an unsupported item, and without it.
func (s *Scripts) unsupported(seed int64, n int, f func(doc, ref string)) {
	if s.c.Tier == "thorough" {
		n *= 20
	}
	for i := 0; n > 0; i++ {
		g := &gen{r: rand.New(rand.NewSource(seed*1000003 + int64(i))), p: anyProfile, marks: true}
		doc := g.document()
		k := g.of("§e", "§a", "§c", "§p")
		at := []int{}
		for j := range doc {
			if strings.HasPrefix(doc[j:], k) {
				at = append(at, j)
			}
		}
		if len(at) == 0 {
			continue
		}
		n--
		j := at[g.in(len(at))]
		clean := func(x string) string {
			for _, m := range []string{"§e", "§a", "§c", "§p"} {
				x = strings.ReplaceAll(x, m, "")
			}
			return x
		}
		prop := g.of("fill-rule", "stroke-linecap", "stroke-leadlinecap", "stroke-linejoin", "stroke-linegap")
		with, without := "", ""
		switch k {
		case "§e":
			x := [][2]string{{`<foo/>`, ``}, {`<foo fill="#0a0b0c" transform="scale(805)" mask="url(#mm)" stroke-width="804"><line x2="806"/></foo>`, `<g fill="#0a0b0c" transform="scale(805)" mask="url(#mm)" stroke-width="804"><line x2="806"/></g>`},
				{`<style>x</style>`, ``}, {`<text x="801" y="802">hello</text>`, ``}, {`<Circle r="807" style="fill:red"/>`, ``}}[g.in(5)]
			with, without = x[0], x[1]
		case "§a":
			if strings.Contains(doc[strings.LastIndex(doc[:j], "<"):j+strings.Index(doc[j:], ">")], prop+"=") {
				n++
				continue // the same attribute twice
			}
			with = prop + `="` + g.of("foo", "", "Round", "inherit") + `"`
		case "§c":
			with = prop + `:` + g.of("foo", "", "Round", "inherit")
		case "§p":
			with = g.of("X", "x801 802", "B801", "n-801,802 803")
		}
		f(clean(doc[:j])+with+clean(doc[j:]), clean(doc[:j])+without+clean(doc[j:]))
	}
}
