package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	checks["C03"] = checkMalformed
	checks["C04"] = checkErrorModes
}

var modes = []string{"IgnoreErrorMode", "WarnErrorMode", "StrictErrorMode"}

// ---- C03 ----

func checkMalformed(c *Check) {
	s := c.skeletons("Families: documents that are well formed but for one value: every numeric attribute of every element and every numeric style property with values that are no number, in every position among the other attributes; every path command and every transform with wrong numbers of parameters; point lists and view boxes of wrong length; references without target; malformed XML. Every outcome must be an error, in every error mode.")
	n := 0
	all := func(docs ...string) {
		for _, d := range docs {
			if c.Tier == "thorough" {
				for _, m := range modes {
					s.wantErr(d, m)
				}
				continue
			}
			s.wantErr(d, modes[n%3])
			n++
		}
	}
	garbage := []string{"abc", "", "12x", "1,2", "px", "%", "--1", "1 2", "5em", "1.2.3", "0x", "1%%", "@ @"}
	elems := [][]string{
		{"line", "x1", "y1", "x2", "y2"}, {"rect", "x", "y", "width", "height", "rx", "ry"}, {"circle", "cx", "cy", "r"}, {"ellipse", "cx", "cy", "rx", "ry"},
		{"mask", "x", "y", "width", "height"}, {"linearGradient", "x1", "y1", "x2", "y2"}, {"radialGradient", "cx", "cy", "fx", "fy", "r", "fr"},
		{"use", "x", "y"}, {"svg", "width", "height"},
	}
	for _, e := range elems {
		tag, attrs := e[0], e[1:]
		extra := ""
		pre := ""
		switch tag {
		case "mask", "linearGradient", "radialGradient":
			extra = ` id="k"`
		case "use":
			extra = ` href="#d"`
			pre = `<defs><line id="d" x2="@"/></defs>`
		}
		for i, a := range attrs {
			for j, g := range garbage {
				if tag == "svg" && g == "1%%" {
					continue
				}
				var rest []string
				for _, b := range attrs {
					if b != a {
						rest = append(rest, fmt.Sprintf(` %s="@"`, b))
					}
				}
				bad := fmt.Sprintf(` %s="%s"`, a, g)
				// the bad value first, last, and in the middle
				first := "<" + tag + bad + strings.Join(rest, "") + extra + "/>"
				last := "<" + tag + extra + strings.Join(rest, "") + bad + "/>"
				mid := "<" + tag + rest[0] + bad + extra + strings.Join(rest[1:], "") + "/>"
				if tag == "svg" {
					all(at(first), at(last), at(mid))
					continue
				}
				switch (i + j) % 4 {
				case 0:
					all(wrap(pre+first), wrap(pre+last))
				case 1:
					all(wrap(pre+last), wrap(pre+`<g fill="red">`+mid+`</g>`))
				case 2:
					all(wrap(pre+first), wrap(pre+mid+`<line x2="@"/>`))
				case 3:
					all(wrap(pre+`<line x2="@"/>`+last), wrap(pre+`<g>`+first+`</g>`))
				}
				if strings.Contains("line rect circle ellipse", tag) && j < 3 {
					all(wrap(`<mask id="k">`+first+`</mask>`), wrap(`<defs>`+strings.Replace(last, tag, tag+` id="q"`, 1)+`</defs><use href="#q"/>`))
				}
			}
		}
	}
	for _, p := range []string{"stroke-width", "stroke-miterlimit", "stroke-dashoffset", "stroke-dasharray", "opacity", "fill-opacity", "stroke-opacity"} {
		for j, g := range garbage {
			if p == "stroke-dasharray" && (g == "" || g == "1,2" || g == "1 2" || g == "@ @") {
				continue
			}
			for k, el := range []string{`<line x2="@" %s/>`, `<g %s><line x2="@"/></g>`, `<rect %s width="@" height="@"/>`, `<mask id="m" %s/>`, `<title %s/>`} {
				if c.Tier != "thorough" && (j+k)%2 == 0 {
					continue
				}
				all(wrap(fmt.Sprintf(el, fmt.Sprintf(`%s="%s"`, p, g))), wrap(fmt.Sprintf(el, fmt.Sprintf(`fill="red" %s="%s" stroke="blue"`, p, g))))
				all(wrap(fmt.Sprintf(el, fmt.Sprintf(`style="%s:%s"`, p, g))), wrap(fmt.Sprintf(el, fmt.Sprintf(`style="fill:red; %s : %s ;stroke:blue"`, p, g))))
			}
		}
	}
	all(wrap(`<line x2="@" stroke-dasharray="@,@,x"/>`), wrap(`<line x2="@" stroke-dasharray="x,@,@"/>`), wrap(`<line x2="@" stroke-dasharray="@,@,x,@"/>`))
	for _, k := range []string{"linearGradient", "radialGradient"} {
		for _, g := range garbage {
			st := func(a string) string {
				return wrap(`<` + k + ` id="a"><stop offset="@"/><stop ` + a + `/><stop offset="@"/></` + k + `>`)
			}
			all(st(`offset="`+g+`"`), st(`offset="`+g+`" stop-color="red"`), st(`stop-color="red" offset="`+g+`" stop-opacity="1"`), st(`stop-opacity="`+g+`"`), st(`style="stop-opacity:`+g+`"`), st(`style="stop-color:red;stop-opacity:`+g+`" offset="@"`))
		}
		for _, t := range badTransforms {
			all(wrap(`<` + k + ` id="a" gradientTransform="` + t + `" spreadMethod="pad"/>`))
		}
	}
	// path data
	for _, pc := range []struct {
		k string
		n int
	}{{"M", 2}, {"L", 2}, {"H", 1}, {"V", 1}, {"Q", 4}, {"T", 2}, {"C", 6}, {"S", 4}, {"A", 7}, {"Z", 0}} {
		for _, k := range []string{pc.k, strings.ToLower(pc.k)} {
			for m := 0; m <= 2*pc.n+1; m++ {
				if pc.n == 0 && m == 0 || pc.n > 0 && m > 0 && m%pc.n == 0 {
					continue
				}
				seg := k + strings.Repeat(" @", m)
				all(wrap(`<path d="M@ @ L@ @`+seg+`"/>`), wrap(`<path d="M@ @`+seg+`l@ @"/>`))
				if m == pc.n+1 || m == pc.n-1 {
					all(wrap(`<path d="M@ @`+seg+`z"/><line x2="@"/>`), wrap(`<path d="`+seg+`"/>`), wrap(`<path fill="red" d="M@ @`+seg+`" stroke="red"/>`), wrap(`<defs><path id="a" d="M@ @`+seg+`"/></defs><use href="#a"/>`), wrap(`<mask id="m"><path d="M@ @`+seg+`"/></mask>`))
				}
			}
			if pc.n == 0 {
				continue
			}
			for _, g := range []string{"1e", "-", "-.", ".", "1e-", "1ee2"} {
				for i := 0; i < pc.n; i++ {
					if c.Tier != "thorough" && i > 0 && i < pc.n-1 {
						continue
					}
					a := strings.Repeat(" @", i) + " " + g + strings.Repeat(" @", pc.n-i-1)
					all(wrap(`<path d="M@ @` + k + a + `"/>`))
				}
			}
		}
	}
	// lists
	for _, k := range []string{"polyline", "polygon"} {
		for _, p := range []string{"@", "@ @ @", "@,@ @,@ @,@ @", "@,@ @,@ @", "- -", "@,@ @,@ @,1e", "1e,@ @,@ @,@", "@ @ @ @ @ - @"} {
			all(wrap(`<`+k+` points="`+p+`"/>`), wrap(`<g><`+k+` fill="red" points="`+p+`" stroke="red"/></g>`))
		}
	}
	for _, v := range []string{"", "@", "@ @", "@ @ @", "@ @ @ @ @", "0 0 1e @", "@ @ @ -", "none"} {
		all(at(`<svg viewBox="`+v+`"/>`), at(`<svg viewBox="`+v+`" width="@" height="@"/>`), at(`<svg width="@" height="@" viewBox="`+v+`"/>`))
	}
	for _, t := range badTransforms {
		all(wrap(`<line x2="@" transform="`+t+`"/>`), wrap(`<g transform="`+t+`"/>`), wrap(`<line style="transform:`+t+`" x2="@"/>`), wrap(`<g transform="translate(@,@) `+t+`" fill="red"><line x2="@"/></g>`))
	}
	for _, t := range badTransforms[:20] {
		all(wrap(`<g transform="` + t + ` translate(@,@)"/>`))
	}
	// references
	for _, a := range []string{"", `href=""`, `href="a"`, `href="#"`, `href="#b"`, `href="url(#a)"`, `href="#a "`, `x="@"`, `xlink:href="#b" x="@"`} {
		all(wrap(`<defs><line id="a" x2="@"/></defs><use `+a+`/>`), wrap(`<defs><line id="a" x2="@"/></defs><g><use `+a+`/></g><line x2="@"/>`), wrap(`<defs><line id="a" x2="@"/><use id="z" `+a+`/></defs><use href="#z"/>`))
	}
	all(wrap(`<defs><use id="a" href="#a"/></defs><use href="#a"/>`), wrap(`<defs><use id="a" href="#b"/><use id="b" href="#a"/></defs><use href="#a"/>`), wrap(`<use href="#a"/><defs><line id="a" x2="@"/></defs>`))
	for _, m := range []string{"m", "#m", "url(m)", "url(#m", "url()", "url(http://x#m)", "uri(#m)"} {
		all(wrap(`<line x2="@" mask="`+m+`"/>`), wrap(`<g style="fill:red;mask:`+m+`"/>`), wrap(`<g mask="`+m+`" fill="red"><line x2="@"/></g>`))
	}
	all(wrap(`<mask id=""/>`), wrap(`<mask x="@" id="" y="@"><line x2="@"/></mask>`))
	// XML
	for _, m := range modes {
		for _, d := range []string{``, ` `, `text`, `<!-- c -->`, `<?xml version="1.0"?>`, `<`, `<svg`, `<svg>`, `<svg><g></svg>`, `<svg><g>`, `<svg a=b/>`, `<svg></g>`, `<svg>&nope;</svg>`, `<svg><line x2="1"/>`, `<svg/><g>`, `<svg></svg></svg>`, `<svg><line x2=1/></svg>`, `<svg><![CDATA[</svg>`} {
			s.wantErr(d, m)
		}
	}
	// the words of the code where they mean nothing
	for _, w := range c.words() {
		if plain := wordRe.FindString(w) == w; plain {
			if _, unit := unitPx[w]; !unit && w != "none" {
				all(wrap(`<rect width="@` + w + `" height="@"/>`))
				all(wrap(`<g><line x1="@" y2="` + w + `"/></g>`))
			}
			if !refTransforms[strings.ToLower(w)] {
				all(wrap(`<line x2="@" transform="`+w+`(@)"/>`), wrap(`<g transform="translate(@) `+w+`(@,@)"/>`), wrap(`<g transform="`+w+`(@ @ @ @ @ @)"/>`))
			}
			if w != "none" && w != "url" {
				all(wrap(`<g mask="`+w+`"><line x2="@"/></g>`), wrap(`<line x2="@" style="mask:`+w+`(#m)"/>`))
			}
			if w != "url" {
				all(wrap(`<line x2="@" fill="` + w + `(#m)"/>`))
			}
		}
	}
	for _, k := range []string{"@", "@ @ @", "@ @ @ @ @ @ @"} {
		k := k
		for _, n := range c.sizes() {
			all(wrap(`<polyline points="`+many(n, piece("§ 2 "))+k+`"/>`), wrap(`<path d="M1 2l`+many(n, piece("§ 2 "))+k+`"/>`))
		}
	}
	for _, n := range c.sizes() {
		all(wrap(many(n, piece(`<line x2="§"/>`))+`<line x2="a"/>`), wrap(`<line style="`+many(n, piece(`stroke-width:§;`))+`stroke-width:x" x2="@"/>`), wrap(strings.Repeat("<g>", n)+`<rect rx="x"/>`+strings.Repeat("</g>", n)), wrap(`<line x2="@" stroke-dasharray="`+many(n, piece(" § "))+`x"/>`))
	}
	s.mutants(3, 150, s.wantErr)
	checkFile(c, s)
}

var badTransforms = []string{
	"rotate()", "rotate(@,@)", "rotate(@,@,@,@)", "translate()", "translate(@,@,@)", "skewX()", "skewX(@,@)", "skewY()", "skewY(@,@)", "scale()", "scale(@,@,@)", "matrix(@,@,@,@,@)", "matrix(@,@,@,@,@,@,@)", "matrix()",
	"foo(@)", "(@)", "translate((@))", "rotate(1e)", "scale(-)", "translatex(@)", "translate", "translate @", "scale(", "1",
}

// checkFile decides what ParseFile does with the file.
func checkFile(c *Check, s *Scripts) {
	fn := c.P.Svg.Func("ParseFile")
	if fn == nil {
		panic("the exported function ParseFile is gone")
	}
	s.entry = fn
	prev := s.in.Opt.Call
	defer func() { s.entry, s.in.Opt.Call = nil, prev }()
	open := true
	s.in.Opt.Call = func(in *ai.Interp, st *ai.State, name string, args []ai.Val, instr ssa.Instruction) ([]ai.RetState, bool) {
		if name == "os.Open" || name == "os.OpenFile" {
			t := ai.Fresh(ai.KOther, "opened")
			t.Sym.NonNil = true
			if open {
				return []ai.RetState{{St: st, Ret: ai.TupleV{t, ai.Nil()}}}, true
			}
			return []ai.RetState{{St: st, Ret: ai.TupleV{ai.Nil(), t}}}, true
		}
		return prev(in, st, name, args, instr)
	}
	for _, m := range modes {
		for _, d := range []string{wrap(kinds[0]), wrap(kinds[10]), `<svg/>`} {
			outs := s.run(d, m)
			s.judge(outs, "ParseFile of "+d, d, aAll, 0)
			s.closed(outs, d)
		}
		for _, d := range []string{wrap(`<line x2="a"/>`), ``, `<svg>`} {
			s.wantErr(d, m)
			s.closed(s.run(d, m), d)
		}
		open = false
		s.wantErr(wrap(kinds[0]), m)
		open = true
	}
}

func (s *Scripts) closed(outs []*Outcome, d string) {
	for _, o := range outs {
		var diff []string
		if o.Closed != 1 {
			diff = append(diff, fmt.Sprintf("the file is closed %d times", o.Closed))
		}
		s.report(o, diff, nil, "ParseFile of %s closes the file", d)
	}
}

// ---- C04 ----

func checkErrorModes(c *Check) {
	s := c.skeletons("Families: every kind of unsupported item (unknown elements, with and without content, also in definitions; unknown keywords of every keyword property; unknown path commands) in every kind of surrounding. Strict mode must return an error; Warn mode must log and Ignore mode must not, and both must give the image of the document without the item. Documents without such items give the same image in every mode and log nothing.")
	item := func(doc, refDoc string) {
		doc, refDoc = wrap(doc), ""+refDoc
		s.wantErr(doc, "StrictErrorMode")
		for i, m := range modes[:2] {
			s.judge(s.run(doc, m), doc+" ("+m+")", refDoc, aAll, i)
		}
	}
	// the numerals are given by position: fill in before cutting the item out
	cut := func(body, with, without string) {
		b := at(body)
		doc := strings.ReplaceAll(b, "§", with)
		ref := strings.ReplaceAll(b, "§", without)
		item(doc, wrap(ref))
	}
	around := []string{
		`§`, `<line x2="@"/>§`, `§<line x2="@"/>`, `<g fill="red">§<line x2="@"/></g>`, `<g transform="translate(@)"><line x2="@"/>§</g><rect width="@" height="@"/>`, `<mask id="m">§<line x2="@"/></mask>`,
		`<path d="M@ @L@ @"/>§<path d="m@ @l@ @"/>`, `<title>a</title>§<desc>b</desc>`,
		`<defs><line id="a" x2="@"/></defs>§<use href="#a"/>`, `<linearGradient id="g"><stop offset="@"/></linearGradient>§<line x2="@" fill="url(#g)"/>`,
	}
	for _, k := range kinds {
		around = append(around, `§`+k, k+`§`)
	}
	if c.Tier != "thorough" {
		for i := 10; i+2 < len(around); i++ {
			around = append(around[:i], around[i+1:]...)
		}
	}
	for i, a := range around {
		els := [][2]string{
			{`<foo/>`, ``}, {`<foo>text</foo>`, `<g>text</g>`}, {`<foo fill="#0a0b0c" transform="scale(805)"><line x2="806"/></foo>`, `<g fill="#0a0b0c" transform="scale(805)"><line x2="806"/></g>`},
			{`<foo><bar/></foo>`, ``}, {`<style>x</style>`, ``}, {`<text x="801" y="802">hello</text>`, ``}, {`<image href="x" width="803"/>`, ``}, {`<Rect width="807" height="808"/>`, ``}, {`<clipPath id="c"><rect width="807" height="808"/></clipPath>`, `<g><rect width="807" height="808"/></g>`},
			{`<fooo xmlns="urn:x"/>`, ``},
		}
		for j, e := range els {
			if c.Tier == "thorough" || j < 3 || (i+j)%3 == 0 {
				cut(a, e[0], e[1])
			}
		}
	}
	// inside of definitions
	for _, d := range []string{`<g id="a"><line x2="@"/>§<line y2="@"/></g>`, `<g id="a" fill="red">§</g>`, `<g id="a">§<rect width="@" height="@"/></g>`, `<g id="a"><g stroke="blue">§<line x2="@"/></g>§</g>`} {
		for _, u := range []string{`<use href="#a"/>`, `<use href="#a" x="@"/><line x2="@"/>`, `<g fill="lime"><use href="#a"/></g>`} {
			cut(`<defs>`+d+`</defs>`+u, `<foo/>`, ``)
			cut(`<defs>`+d+`</defs>`+u, `<text x="801">t</text>`, ``)
			cut(`<defs>`+d+`</defs>`+u, `<Line x2="801"/>`, ``)
		}
	}
	cut(`<defs>§</defs><use href="#a"/><line x2="@"/>`, `<foo id="a"/>`, `<g id="a"></g>`)
	// keywords
	words := []string{"", "foo", "Round", "none", "inherit"}
	for _, p := range []string{"fill-rule", "stroke-linecap", "stroke-leadlinecap", "stroke-linejoin", "stroke-linegap"} {
		for _, w := range words {
			cut(`<line x2="@" §/>`, fmt.Sprintf(`%s="%s"`, p, w), ``)
			cut(`<g `+rich+`><line x2="@" fill="red" § stroke="#123456"/></g>`, fmt.Sprintf(`%s="%s"`, p, w), ``)
			cut(`<g `+rich+`><g §><line x2="@"/></g></g><line x2="@"/>`, fmt.Sprintf(`%s="%s"`, p, w), ``)
			cut(`<g style="fill:red;§;stroke:#123456;opacity:@"><line x2="@"/></g>`, fmt.Sprintf(`%s:%s`, p, w), ``)
			cut(`<defs><line id="a" x2="@" §/></defs><use href="#a" stroke="red"/>`, fmt.Sprintf(`%s="%s"`, p, w), ``)
		}
	}
	for _, w := range c.words() {
		for i, p := range []string{"fill-rule", "stroke-linecap", "stroke-leadlinecap", "stroke-linejoin", "stroke-linegap"} {
			known := refCaps[w] != "" && (i == 1 || i == 2) || refJoins[w] != "" && i == 3 || refGaps[w] != "" && i == 4 || (w == "evenodd" || w == "nonzero") && i == 0
			if !known && !strings.Contains(w, ":") {
				cut(`<g `+rich+`><line x2="@" §/></g>`, fmt.Sprintf(`%s="%s"`, p, w), ``)
			}
		}
	}
	for _, w := range names(c.words()) {
		if !knownElements[w] {
			cut(`<g fill="red">§<line x2="@"/></g>`, `<`+w+` x="801" id="q"/>`, ``)
			cut(`<line x2="@"/>§<line x2="@"/>`, `<`+w+` fill="lime"><line x2="801"/></`+w+`>`, `<g fill="lime"><line x2="801"/></g>`)
			cut(`<defs><g id="a" fill="red"><line x1="@"/>§<line x2="@"/></g></defs><use href="#a"/>`, `<`+w+` x="801"/>`, ``)
		}
	}
	// an unsupported element with a style of its own among the parts of a definition
	for _, d := range []string{`<g id="a"><line x2="@"/>§<line y2="@"/></g>`, `<g id="a" stroke="blue">§<line y2="@"/></g>`, `<g id="a"><g stroke="blue">§<line x2="@"/></g>§<rect width="@" height="@"/></g>`} {
		for _, u := range []string{`<use href="#a"/>`, `<use href="#a" x="@"/><line x2="@"/>`, `<g fill="lime"><use href="#a" opacity="@"/></g><line x2="@"/>`} {
			cut(`<defs>`+d+`</defs>`+u, `<foo fill="#0a0b0c" stroke-width="801" transform="scale(802)"/>`, ``)
			cut(`<defs>`+d+`</defs>`+u, `<text style="fill:#0a0b0c" mask="url(#k)">t</text>`, ``)
		}
	}
	// path commands
	for ch := 'a'; ch <= 'z'; ch++ {
		if !strings.ContainsRune("aceghilmqstvz", ch) || ch == 'g' || ch == 'i' {
			cut(`<path d="M@ @L@ @§H@"/>`, string(ch)+"801", ``)
			cut(`<path d="M@ @l@ @§l@ @ z"/><path d="M@ @h@"/>`, strings.ToUpper(string(ch))+"801 802 803", ``)
			cut(`<path d="M@ @q@ @ @ @§"/>`, string(ch), ``)
		}
	}
	for _, d := range []string{"§M@ @L@ @", "M@ @§L@ @", "M@ @L@ @§", "M@ @L@ @§z", "M@ @L@ @z§m@ @h@", "m@ @l@ @§l@ @", "M@ @c@ @ @ @ @ @§l@ @", "M@ @h@§v@", "M@ @q@ @ @ @§t@ @§T@ @", "M@ @C@ @ @ @ @ @§s@ @ @ @§S@ @ @ @", "M@ @l@ @§t@ @", "M@ @q@ @ @ @ z§t@ @"} {
		for _, k := range []string{"X801 802", "x", "B801", "g801 802 803", "N", "R801-802", "p801,802"} {
			cut(`<path d="`+d+`"/>`, k, ``)
			cut(`<g fill="red"><path d="`+d+`" stroke="blue"/></g><path d="M@ @l@ @"/>`, k, ``)
		}
	}
	// nothing unsupported: no mode matters
	for i, a := range kinds {
		for j, b := range kinds {
			if c.Tier == "thorough" || (i+j)%4 == 0 {
				for _, m := range modes[:2] {
					d := wrap(a + b)
					s.judge(s.run(d, m), d+" ("+m+")", d, aAll, 0)
				}
			}
		}
		d := wrap(a)
		s.judge(s.run(d, "StrictErrorMode"), d+" (StrictErrorMode)", d, aAll, 0)
	}
	s.unsupported(4, 100, func(doc, ref string) {
		s.wantErr(doc, "StrictErrorMode")
		for i, m := range modes[:2] {
			s.judge(s.run(doc, m), doc+" ("+m+")", ref, aAll, i)
		}
	})
}
