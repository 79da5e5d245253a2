package main

import (
	"fmt"
	"strings"
)

// Families of documents. In a template @ stands for the next unused generic number.

func at(t string) string {
	var b strings.Builder
	n := 110
	for _, r := range t {
		if r == '@' {
			n++
			fmt.Fprint(&b, n)
			continue
		}
		b.WriteRune(r)
	}
	return b.String()
}

// wrap puts a body into an image with a generic view box.
func wrap(body string) string { return at(`<svg viewBox="901 902 903 904">` + body + `</svg>`) }

// seqs lists all sequences of n elements of xs.
func seqs(xs []string, n int) [][]string {
	if n == 0 {
		return [][]string{nil}
	}
	var out [][]string
	for _, s := range seqs(xs, n-1) {
		for _, x := range xs {
			out = append(out, append(append([]string{}, s...), x))
		}
	}
	return out
}

// subsets lists all subsets of xs in order.
func subsets(xs []string) [][]string {
	var out [][]string
	for m := 0; m < 1<<len(xs); m++ {
		var s []string
		for i, x := range xs {
			if m>>i&1 == 1 {
				s = append(s, x)
			}
		}
		out = append(out, s)
	}
	return out
}

// vary lists a template with every ~ in turn a negative number, zero, a fraction and a number
// that occurs elsewhere, the others being generic, and with all of them negative or zero.
func vary(tmpl string) []string {
	parts := strings.Split(tmpl, "~")
	join := func(f func(i int) string) string {
		var b strings.Builder
		for i, p := range parts {
			b.WriteString(p)
			if i+1 < len(parts) {
				b.WriteString(f(i))
			}
		}
		return wrap(b.String())
	}
	var out []string
	for k := 0; k+1 < len(parts); k++ {
		for _, r := range []string{"-@", "0", "0.25", "-7.5"} {
			out = append(out, join(func(i int) string {
				if i == k {
					return r
				}
				return "@"
			}))
		}
	}
	for _, r := range []string{"-@", "0", "3.5", "-2"} {
		out = append(out, join(func(int) string { return r }))
	}
	return out
}

func init() {
	checks["C05"] = checkScoping
	checks["C06"] = checkRecorded
	checks["C12"] = checkUnits
	checks["C13"] = checkShapes
	checks["C14"] = checkStyleProps
	checks["C15"] = checkGradients
	checks["C16"] = checkPathData
	checks["C17"] = checkUse
	checks["C20"] = checkRouting
	checks["C21"] = checkColours
}

const skeletonRule = "Parse is interpreted abstractly (context-sensitive, go/ssa) for document skeletons: element names, attribute names and keywords are fixed, every three-digit number is an arbitrary positive number. The formulas in the resulting image are compared with the meaning the SVG specification gives the skeleton (normal forms, then polynomial identity testing under the path conditions)."

func (c *Check) skeletons(about string) *Scripts {
	c.Rule("%s %s", skeletonRule, about)
	c.Assume = append(c.Assume, "encoding/xml delivers the tokens of the document", "rounding of coordinates to 1/64 and of floating point numbers is outside the property")
	return c.Scripts()
}

// ---- C13 ----

func checkShapes(c *Check) {
	s := c.skeletons("Families: every shape with every subset of its attributes, in both orders, degenerate sizes, point lists of several lengths and separators, every shape after every other.")
	shape := func(name string, attrs ...string) []string {
		var out []string
		for _, sub := range subsets(attrs) {
			f := "<" + name
			b := "<" + name
			for i := range sub {
				f += fmt.Sprintf(` %s="@"`, sub[i])
				b += fmt.Sprintf(` %s="@"`, sub[len(sub)-1-i])
			}
			out = append(out, wrap(f+"/>"))
			if len(sub) > 1 {
				out = append(out, wrap(b+"/>"))
			}
		}
		return out
	}
	s.agree(aGeom, shape("line", "x1", "y1", "x2", "y2")...)
	s.agree(aGeom, shape("rect", "x", "y", "width", "height")...)
	s.agree(aGeom, shape("circle", "cx", "cy", "r")...)
	s.agree(aGeom, shape("ellipse", "cx", "cy", "rx", "ry")...)
	var docs []string
	for _, b := range []string{
		`<rect x="@" y="@" width="@" height="@" rx="@"/>`,
		`<rect x="@" y="@" width="@" height="@" ry="@"/>`,
		`<rect x="@" y="@" width="@" height="@" rx="@" ry="@"/>`,
		`<rect ry="@" rx="@" height="@" width="@" y="@" x="@"/>`,
		`<rect x="-@" y="-@" width="@" height="@"/>`,
		`<rect x="10" y="20" width="100" height="60" rx="10" ry="5"/>`,
		`<rect x="10" y="20" width="100" height="60" rx="5" ry="10"/>`,
		`<rect x="10" y="20" width="100" height="60" rx="500" ry="10"/>`,
		`<rect x="10" y="20" width="100" height="60" rx="10" ry="500"/>`,
		`<rect x="10.5" y="-20.25" width="100.75" height="60.5"/>`,
		`<rect x="@" y="@" width="0" height="@"/>`, `<rect x="@" y="@" width="@" height="0"/>`, `<rect x="@" y="@" width="0" height="@" rx="@"/>`,
		`<circle cx="-@" cy="-@" r="@"/>`, `<circle cx="10.5" cy="-20.25" r="7.75"/>`, `<circle cx="@" cy="@" r="0"/>`,
		`<ellipse cx="-@" cy="-@" rx="@" ry="@"/>`, `<ellipse cx="10" cy="20" rx="30" ry="3"/>`, `<ellipse cx="10" cy="20" rx="3" ry="30"/>`,
		`<ellipse cx="@" cy="@" rx="0" ry="@"/>`, `<ellipse cx="@" cy="@" rx="@" ry="0"/>`,
		`<line x1="-@" y1="-@" x2="-@" y2="-@"/>`, `<line x1="1.5" y1="2.25" x2="-3.75" y2="0.5"/>`,
	} {
		docs = append(docs, wrap(b))
	}
	for _, k := range []string{"polyline", "polygon"} {
		for _, p := range []string{
			"@,@ @,@ @,@", "@,@ @,@ @,@ @,@", "@ @ @ @ @ @", "@,@,@,@,@,@,@,@", "@ ,@ @ , @\n@\t@", "-@-@-@-@-@-@", "@-@,@-@,@-@", "  @,@ @,@ @,@  ",
			"@,@ @,@ @,@ @,@ @,@ @,@ @,@ @,@ @,@", "1.5,2.25 3.5,4.75 -5.5,6.125", ".5.25.75.5.125.375", "@,@ @,@ @,@ @,@ @,@", "",
			"0,0 @,0 0,@",
		} {
			docs = append(docs, wrap(fmt.Sprintf(`<%s points="%s"/>`, k, p)))
		}
		docs = append(docs, wrap("<"+k+"/>"))
	}
	s.agree(aGeom, docs...)
	for _, t := range []string{
		`<line x1="~" y1="~" x2="~" y2="~"/>`, `<rect x="~" y="~" width="@" height="@"/>`, `<rect x="~" y="~" width="@" height="@" rx="4" ry="4"/>`, `<circle cx="~" cy="~" r="@"/>`, `<ellipse cx="~" cy="~" rx="@" ry="@"/>`,
		`<polyline points="~,~ ~,~ ~,~"/>`, `<polygon points="~ ~ ~ ~ ~ ~ @ @"/>`,
	} {
		s.agree(aGeom, vary(t)...)
	}
	// every shape after every other
	shapes := []string{
		`<line x1="@" y1="@" x2="@" y2="@"/>`, `<rect x="@" y="@" width="@" height="@"/>`, `<rect x="1" y="2" width="30" height="40" rx="5"/>`,
		`<circle cx="@" cy="@" r="@"/>`, `<ellipse cx="@" cy="@" rx="@" ry="@"/>`, `<polyline points="@,@ @,@ @,@ @,@"/>`, `<polygon points="@,@ @,@ @,@"/>`,
		`<path d="M@ @ C@ @ @ @ @ @"/>`, `<rect width="0" height="0"/>`, `<circle r="0"/>`, `<polygon points=""/>`, `<polygon/>`, `<polyline/>`, `<path/>`, `<line/>`, `<rect/>`, `<circle/>`,
	}
	n := 2
	for _, q := range seqs(shapes, n) {
		s.agree(aGeom, wrap(strings.Join(q, "")))
	}
	if c.Tier == "thorough" {
		for _, q := range seqs(shapes[:13], 3) {
			s.agree(aGeom, wrap(strings.Join(q, "")))
		}
	}
	for _, k := range []string{"polyline", "polygon"} {
		k := k
		s.large(aGeom, func(n int) string {
			return `<` + k + ` points="` + many(n, piece("§,-1§ ")) + `"/><` + k + ` points="1 2 3 4 5 6"/>`
		})
	}
	s.large(aGeom, func(n int) string {
		return many(n, piece(`<rect x="§" y="2" width="1§" height="5"/>`)) + `<circle r="3"/>`
	})
	s.wordsAsNames(aGeom, map[string]bool{"x": true, "y": true, "width": true, "height": true, "rx": true, "ry": true, "cx": true, "cy": true, "r": true, "x1": true, "x2": true, "y1": true, "y2": true, "transform": true, "points": true, "d": true, "id": true, "style": true,
		"fill": true, "stroke": true, "fill-rule": true, "stroke-linecap": true, "stroke-leadlinecap": true, "stroke-linejoin": true, "stroke-linegap": true, "stroke-dasharray": true, "mask": true},
		`<line §="77" x1="@" y1="@" x2="@" y2="@"/>`, `<rect x="@" y="@" §="77" width="@" height="@"/>`, `<circle cx="@" §="77" cy="@" r="@"/>`, `<ellipse rx="@" cx="@" ry="@" cy="@" §="77"/>`, `<polygon §="7" points="@ @ @ @ @ @"/>`)
	s.mixed(aGeom, profile{shape: 8, group: 2, use: 1, def: 1, units: true, style: 1, depth: 2, width: 4}, 13, 150)
}

// ---- C16 ----

func checkPathData(c *Check) {
	s := c.skeletons("Families: every pair of path commands, absolute and relative (thorough: every triple), implicit repetition, number separators, several subpaths, paths after paths, arcs for constants over all flags, rotations and radii too small.")
	cmds := []string{"M@ @", "m@ @", "L@ @", "l@ @", "H@", "h@", "V@", "v@", "Q@ @ @ @", "q@ @ @ @", "T@ @", "t@ @", "C@ @ @ @ @ @", "c@ @ @ @ @ @", "S@ @ @ @", "s@ @ @ @", "Z", "z"}
	p := func(d string) string { return wrap(`<path d="` + d + `"/>`) }
	for _, q := range seqs(cmds, 2) {
		s.agree(aGeom, p("M@ @"+q[0]+q[1]+"l@ @ t@ @"))
		s.agree(aGeom, p("m@ @"+q[0]+q[1]+"s@ @ @ @"))
	}
	if c.Tier == "thorough" {
		for _, q := range seqs(cmds, 3) {
			s.agree(aGeom, p("M@ @"+strings.Join(q, " ")+"c@ @ @ @ @ @"))
		}
	}
	var docs []string
	for _, k := range cmds[:16] {
		args := k[1:]
		docs = append(docs, p("M@ @"+k[:1]+args+" "+args), p("M@ @ L@ @"+k[:1]+args+" "+args+" "+args), p("M@ @ l@ @"+k[:1]+args+","+args+" l@ @"),
			p("M@ @"+k+k+k+k), p("M@ @"+k+"z"+k+"m@ @"+k+"z"))
	}
	for _, d := range []string{
		"M@,@L@,@", "M @ , @ L @ , @", "M@ @\nL\t@\n@", "M@-@L-@-@", "M-@-@l-@,@", "  M@ @ L@ @ ", "M@ @ @ @ @ @", "m@ @ @ @ @ @", "M@ @ @ @ z m@ @ @ @ z",
		"M1.5.5L.25-.75", "M1.5,2.5l-.5.5.25.75", "M1e-1 2L3 4", "m1.5 2.25h.5v-.75h-1.5v2.125z", "M0 0H10V10H0Z", "M10 10c1 2 3 4 5 6 7 8 9 10 11 12", "M10 10q1 2 3 4 5 6 7 8", "M10 10t1 2 3 4 5 6", "M10 10s1 2 3 4 5 6 7 8",
		"M10 10Q1 2 3 4T5 6 7 8T9 10", "M10 10C1 2 3 4 5 6S7 8 9 10 11 12 13 14S13 14 15 16",
		"M@ @z", "M@ @", "M@ @ M@ @ M@ @ L@ @", "M@ @L@ @zM@ @L@ @z", "m@ @l@ @zm@ @l@ @z", "M@ @L@ @zl@ @", "M@ @L@ @Zh@v@", "", "  ",
		"M@ @h@ @ @v@ @ @", "M@ @H@ @ @V@ @ @",
	} {
		docs = append(docs, p(d))
	}
	for _, k := range cmds[:16] {
		t := strings.ReplaceAll(k, "@", "~")
		docs = append(docs, vary(`<path d="M@ @ L@ @ `+t+` l@ @"/>`)...)
		docs = append(docs, vary(`<path d="m~ ~`+k+k+` z `+strings.ToLower(k)+`"/>`)...)
	}
	// after another path
	for _, a := range cmds {
		for _, b := range []string{"t@ @", "s@ @ @ @", "l@ @", "h@", "q@ @ @ @ t@ @"} {
			docs = append(docs, wrap(`<path d="M@ @ L@ @ `+a+`"/><path d="m@ @`+b+`"/>`))
		}
		docs = append(docs, wrap(`<path d="M@ @ L@ @ `+a+`"/><rect x="@" y="@" width="@" height="@"/>`), wrap(`<polyline points="@,@ @,@ @,@"/><path d="m@ @`+a+`"/>`))
	}
	s.agree(aGeom, docs...)
	// signs and separators
	docs = nil
	for _, d := range []string{
		"M111+112L+113,+114", "M+111+112+113+114", "m+@ +@ l+@+@-@+@", "M@ @h+@v+@", "M@,@ C+@+@+@+@+@+@", "M1+2L3+4+5-6", "M.5+.5l-.5+.25", "M1e-1+2L3+4", "M@ @q+@,-@ +@,-@t+@+@",
		"M@\r\n@\rL@,\n@", "M@ , @ , @ , @", "M@ @L@ @ , z", "M@,@,L@,@", "\tM@\t@\nl@\n@\n",
	} {
		docs = append(docs, p(strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(d, `\n`, "&#10;"), `\r`, "&#13;"), `\t`, "&#9;")))
	}
	// a path that starts with a command that depends on the previous one
	for _, a := range []string{"q@ @ @ @", "t@ @", "c@ @ @ @ @ @", "s@ @ @ @", "Q@ @ @ @ T@ @", "C@ @ @ @ @ @ S@ @ @ @", "l@ @", "z"} {
		for _, b := range []string{"t@ @", "T@ @", "s@ @ @ @", "S@ @ @ @", "l@ @", "h@", "V@", "q@ @ @ @", "c@ @ @ @ @ @", "a5 6 7 0 1 8 9"} {
			docs = append(docs, wrap(`<path d="M@ @ L@ @ `+a+`"/><path d="`+b+` l@ @"/><path d="`+b+b+`"/>`))
		}
	}
	s.decide(aGeom, docs...)
	// arcs
	docs = nil
	for _, flags := range []string{"0 0", "0 1", "1 0", "1 1"} {
		for _, rr := range []string{"30 30", "30 50", "50 30", "5 5", "5 9", "200.0 80"} {
			for _, phi := range []string{"0", "20", "90", "-35", "180.0", "130.0"} {
				for _, to := range []string{"44 33", "-20 60", "10 80", "80 20", "10 -30", "-70 20"} {
					docs = append(docs, p("M10 20A"+rr+" "+phi+" "+flags+" "+to))
				}
			}
		}
		for _, d := range []string{
			"M10 20a30 50 20 " + flags + " 34 13", "M10 20a30 50 20 " + flags + " 34 13 l5 6", "M10 20A30 50 20 " + flags + " 34 13 L5 6 h7", "M10 20a30 30 0 " + flags + " 30 30 20 40 10 1 0 15 -25",
			"M10 20A30 30 0 " + flags + " 30 30 20 40 10 0 1 15 -25", "M10 20 l5 5 a30 50 20 " + flags + " 34 13 t 4 5", "M10 20c1 2 3 4 5 6a3 5 20 " + flags + " 34 13s4 5 6 7z", "M10,20a30,50 20 " + flags + " 34,13z l 5 6",
			"M@ @a300.0 500.0 20 " + flags + " 340.0 -130.0", "M@ @a30 50 0 " + flags + " -34 13 l@ @", "M@ @l@ @a30 50 70 " + flags + " -3 -13 7 9 5 1 1 10 10 z l@ @", "M-@ -@a30 30 0 " + flags + " 34 13z", "M10.5 20.25a3.5 5.5 20.5 " + flags + " 3.25 1.75",
		} {
			docs = append(docs, p(d))
		}
	}
	step := 3
	if c.Tier == "thorough" {
		step = 1
	}
	for i := 0; i < len(docs); i += step {
		s.agree(aGeom, docs[i])
	}
	for _, k := range []string{"L§ 1§", "l§ -1§", " h§v5", "q1 2 § 4", "C1 2 3 4 § 6", "M§ 2l3 4z", "a§ 9 20 0 1 3 4", "t§ 3", "z"} {
		k := k
		if k[0] == 'a' && c.Tier != "thorough" {
			continue
		}
		s.large(aGeom, func(n int) string { return `<path d="M@ @` + many(n, piece(k)) + `"/><path d="M@ @l@ @"/>` })
	}
	s.large(aGeom, func(n int) string { return `<path d="M@ @L` + many(n, piece(" § -1§")) + `"/>` })
	s.mixed(aGeom, profile{path: true, shape: 8, group: 1, use: 1, def: 1, style: 1, depth: 1, width: 3}, 16, 250)
}

// ---- C12 ----

var unitNames = []string{"", "px", "cm", "mm", "pt", "in", "Q", "pc", "%"}

func checkUnits(c *Check) {
	s := c.skeletons("Families: every length attribute of every element with every unit, for view boxes given by viewBox and by width and height.")
	type la struct{ tmpl string }
	tmpls := []string{}
	add := func(t ...string) { tmpls = append(tmpls, t...) }
	for _, x := range []string{"x", "y", "width", "height"} {
		rest := ""
		for _, o := range []string{"x", "y", "width", "height"} {
			if o != x {
				rest += fmt.Sprintf(` %s="@"`, o)
			}
		}
		add(fmt.Sprintf(`<rect %s="~"%s/>`, x, rest), fmt.Sprintf(`<mask id="m" %s="~"%s><line x1="@" y1="@" x2="@" y2="@"/></mask>`, x, rest))
	}
	add(`<rect x="@" y="@" width="@" height="@" rx="~" ry="@"/>`, `<rect x="@" y="@" width="@" height="@" rx="@" ry="~"/>`)
	add(`<circle cx="~" cy="@" r="@"/>`, `<circle cx="@" cy="~" r="@"/>`, `<circle cx="@" cy="@" r="~"/>`)
	add(`<ellipse cx="~" cy="@" rx="@" ry="@"/>`, `<ellipse cx="@" cy="~" rx="@" ry="@"/>`, `<ellipse cx="@" cy="@" rx="~" ry="@"/>`, `<ellipse cx="@" cy="@" rx="@" ry="~"/>`)
	add(`<line x1="~" y1="@" x2="@" y2="@"/>`, `<line x1="@" y1="~" x2="@" y2="@"/>`, `<line x1="@" y1="@" x2="~" y2="@"/>`, `<line x1="@" y1="@" x2="@" y2="~"/>`)
	for _, p := range []string{"stroke-width", "stroke-dashoffset", "stroke-dasharray"} {
		add(fmt.Sprintf(`<line %s="~" x1="@" y1="@" x2="@" y2="@"/>`, p), fmt.Sprintf(`<g style="%s:~"><line x1="@" y1="@" x2="@" y2="@"/></g>`, p))
	}
	add(`<line stroke-dasharray="~,@ ~" x1="@" y1="@" x2="@" y2="@"/>`)
	add(`<defs><line id="a" x1="@" y1="@" x2="@" y2="@"/></defs><use href="#a" x="~" y="@"/>`, `<defs><line id="a" x1="@" y1="@" x2="@" y2="@"/></defs><use href="#a" x="@" y="~"/>`)
	add(`<defs><rect id="a" x="~" y="~" width="~" height="~"/></defs><use href="#a"/>`)
	for _, u := range []string{"userSpaceOnUse", "objectBoundingBox"} {
		for _, a := range []string{"x1", "y1", "x2", "y2"} {
			add(fmt.Sprintf(`<linearGradient id="g" gradientUnits="%s" %s="~"/><line fill="url(#g)" x2="@"/>`, u, a))
			add(fmt.Sprintf(`<linearGradient %s="~" gradientUnits="%s" id="g"/><line stroke="url(#g)" x2="@"/>`, a, u))
		}
		for _, a := range []string{"cx", "cy", "fx", "fy", "r", "fr"} {
			add(fmt.Sprintf(`<radialGradient id="g" gradientUnits="%s" %s="~"/><line fill="url(#g)" x2="@"/>`, u, a))
		}
	}
	asp := aGeom | aStroke | aMasks | aFill | aLine | aBox
	full := c.Tier == "thorough"
	for i, t := range tmpls {
		for k, u := range unitNames {
			d := strings.ReplaceAll(t, "~", "@"+u)
			s.agree(asp, wrap(d))
			if full || (i+k)%3 == 0 {
				s.agree(asp, at(`<svg width="@" height="@">`+d+`</svg>`))
				if !strings.Contains(t, "dasharray") && !strings.Contains(t, "r=\"~") && !strings.Contains(t, "<rect") && !strings.Contains(t, "rx=\"~") && !strings.Contains(t, "ry=\"~") {
					s.agree(asp, wrap(strings.ReplaceAll(t, "~", " -@ "+u+" ")))
				}
			}
			if full {
				s.agree(asp, wrap(strings.ReplaceAll(t, "~", "12.5"+u)))
				s.agree(asp, wrap(`<g>`+strings.ReplaceAll(t, "~", "0"+u)+`</g>`))
			}
		}
	}
	for _, u := range unitNames {
		if u == "%" {
			continue
		}
		s.agree(asp, at(fmt.Sprintf(`<svg width="@%s" height="@%s"><rect width="50%%" height="25%%"/></svg>`, u, u)))
		s.agree(asp, at(fmt.Sprintf(`<svg viewBox="@ @ @ @" width="@%s" height="@%s"><rect width="50%%" height="25%%"/><circle r="@%%"/></svg>`, u, u)))
	}
	for _, t := range []string{
		`<mask id="m" x="~" y="~" width="~" height="~"/>`, `<defs><line id="a" x1="@" y1="@" x2="@" y2="@"/></defs><use href="#a" x="~" y="~"/>`, `<line stroke-width="~" stroke-dashoffset="~" x2="@"/>`,
		`<line x1="~%" y1="~cm" x2="~in" y2="~%"/>`, `<linearGradient id="g" gradientUnits="userSpaceOnUse" x1="~" y1="~" x2="~" y2="~"/><line fill="url(#g)" x2="@"/>`,
		`<radialGradient id="g" cx="~" cy="~%" fx="~%" fy="~" r="~" fr="~"/><line fill="url(#g)" x2="@"/>`, `<svg viewBox="~ ~ ~ ~"/>`, `<line stroke-dasharray="~ ~ ~" x2="@"/>`,
	} {
		s.agree(asp, vary(t)...)
	}
	s.agree(asp,
		at(`<svg height="@" width="@" viewBox="@,@,@,@"/>`), at(`<svg viewBox="-@ -@ @ @"/>`), at(`<svg viewBox="0 0 @ @" width="100%" height="100%"/>`), at(`<svg width="@"/>`), at(`<svg height="@"/>`), at(`<svg viewBox="0 0 @ 0" height="@"/>`), at(`<svg viewBox="0 0 0 @" width="@"/>`), at(`<svg/>`),
		at(`<svg viewBox="1.5 2.5 30.25 40.75" width="12.5" height="7.25"/>`))
	for _, u := range unitNames {
		for _, v := range []string{"5", "0", "-5", ".5", "5.", "-.5", "0.5", "10", "1e-1", "+5", "12345.678", "00", "007", "-0", "1000000", " 5", "5 ", " 5 "} {
			s.decide(asp, wrap(`<line x1="`+v+u+`" y1="@" x2="@" y2="`+v+u+`"/>`))
			s.decide(asp, wrap(`<g stroke-dashoffset="`+v+u+`"><line x2="@" stroke-width="`+strings.TrimLeft(v, "+- ")+u+`"/></g><mask id="m" x="`+v+u+`"/>`))
			s.decide(asp, wrap(`<linearGradient id="g" gradientUnits="userSpaceOnUse" x1="`+v+u+`"/><line fill="url(#g)" x2="@"/>`))
			if u != "%" && v[0] != '-' && v != "0" && v != "00" {
				s.decide(asp, at(`<svg width="`+v+u+`" height="`+v+u+`"><line x2="50%"/></svg>`), at(`<svg viewBox="0 0 @ @" width=" `+v+u+` " height=" `+v+u+`"/>`))
			}
		}
	}
	s.wordsAsNames(asp, map[string]bool{"viewbox": true, "width": true, "height": true, "style": true, "transform": true, "fill": true, "stroke": true, "mask": true, "fill-rule": true, "stroke-linecap": true, "stroke-leadlinecap": true, "stroke-linejoin": true, "stroke-linegap": true, "stroke-width": true},
		`<svg viewBox="@ @ @ @" §="7"><line x2="50%"/></svg>`)
	s.mixed(asp, profile{shape: 6, group: 1, grad: 2, mask: 2, use: 2, def: 1, units: true, style: 3, depth: 2, width: 4}, 12, 150)
}

// ---- C14 ----

var styleVals = map[string][]string{
	"fill": {"red", "none", "#12ab9F", "rgb(1, 2, 3)"}, "stroke": {"blue", "none", "#fa0"},
	"fill-rule": {"evenodd", "nonzero"}, "stroke-linecap": {"butt", "round", "square", "cubic", "quadratic"},
	"stroke-leadlinecap": {"butt", "round", "square", "cubic", "quadratic"},
	"stroke-linejoin":    {"miter", "miter-clip", "arc-clip", "round", "arc", "bevel"},
	"stroke-linegap":     {"flat", "round", "cubic", "quadratic"},
	"stroke-miterlimit":  {"@", "3.5"}, "stroke-width": {"@", "0", "@%"}, "stroke-dashoffset": {"@", "-@"},
	"stroke-dasharray": {"@", "@,@", "@ @ @", "@, @ , @,@", "none"},
	"opacity":          {"@", "0", "0.5"}, "fill-opacity": {"@", "0.25"}, "stroke-opacity": {"@", "0.75"},
	"transform": {"translate(@,@)", "scale(@)", "rotate(@) translate(@)", "matrix(@ @ @ @ @ @)"},
	"mask":      {"url(#m)", "none"},
}

var styleKeys = []string{"fill", "stroke", "fill-rule", "stroke-linecap", "stroke-leadlinecap", "stroke-linejoin", "stroke-linegap", "stroke-miterlimit", "stroke-width", "stroke-dashoffset", "stroke-dasharray", "opacity", "fill-opacity", "stroke-opacity", "transform", "mask"}

// rich sets every style property to something that is not the default.
const rich = `fill="#102030" stroke="#405060" fill-rule="evenodd" stroke-linecap="square" stroke-leadlinecap="round" stroke-linejoin="arc" stroke-linegap="cubic" stroke-miterlimit="@" stroke-width="@" stroke-dashoffset="@" stroke-dasharray="@ @ @" fill-opacity="@" stroke-opacity="@" transform="matrix(@ @ @ @ @ @)" mask="url(#p)"`

func checkStyleProps(c *Check) {
	s := c.skeletons("Families: every style property with every kind of value, as attribute and in a style attribute, on a shape and on a group, over default and non-default inherited styles, and every ordered pair of properties.")
	line := func(a string) string { return `<line ` + a + ` x1="@" y1="@" x2="@" y2="@"/>` }
	for _, k := range styleKeys {
		for _, v := range styleVals[k] {
			a := fmt.Sprintf(`%s="%s"`, k, v)
			st := fmt.Sprintf(`style="%s:%s"`, k, v)
			st2 := fmt.Sprintf(`style=" %s : %s ; "`, strings.ToUpper(k), v)
			s.agree(aStyle|aGeom,
				wrap(line(a)), wrap(line(st)), wrap(line(st2)), wrap(`<g `+a+`>`+line("")+`</g>`), wrap(`<g `+rich+`>`+line(a)+`</g>`), wrap(`<g `+rich+`><g `+st+`>`+line("")+`</g></g>`),
				wrap(`<g `+rich+`>`+line(a)+line("")+`</g>`),
				at(`<svg viewBox="0 0 @ @" `+a+`>`+line("")+`</svg>`))
			for _, v2 := range styleVals[k] {
				if v2 != v {
					s.agree(aStyle, wrap(`<g `+a+`>`+line(fmt.Sprintf(`%s="%s"`, k, v2))+line(``)+`</g>`), wrap(line(fmt.Sprintf(`style="%s:%s;%s:%s"`, k, v, k, v2))))
				}
			}
		}
	}
	for _, a := range styleKeys {
		for _, b := range styleKeys {
			va, vb := styleVals[a][0], styleVals[b][len(styleVals[b])-1]
			if a == b {
				continue
			}
			s.agree(aStyle, wrap(line(fmt.Sprintf(`%s="%s" %s="%s"`, a, va, b, vb))), wrap(line(fmt.Sprintf(`style="%s:%s;%s:%s"`, a, va, b, vb))), wrap(line(fmt.Sprintf(`style="%s:%s" %s="%s"`, a, va, b, vb))))
		}
	}
	for _, t := range []string{`<g opacity="~" fill-opacity="~"><line x2="@" stroke-opacity="~" opacity="~"/></g>`, `<line stroke-miterlimit="~" stroke-width="~" stroke-dashoffset="~" stroke-dasharray="~,~" x2="@"/>`,
		`<g transform="matrix(~ ~ ~ ~ ~ ~)"><line x2="@" transform="translate(~,~)"/></g>`} {
		s.agree(aStyle, vary(t)...)
	}
	s.agree(aStyle, wrap(line(rich)), wrap(`<g `+rich+`>`+line(rich)+`</g>`), wrap(line(`style=""`)), wrap(line(`style=";;"`)), wrap(line(`style="fill:red;"`)), wrap(line(`style="fill"`)), wrap(line(`class="x" style="foo:bar;fill:red" data-x="1"`)),
		wrap(line(`STYLE="fill:red"`)), wrap(line(`opacity="@" fill-opacity="@" stroke-opacity="@"`)), wrap(`<g opacity="@"><g opacity="@" fill-opacity="@"><g stroke-opacity="@">`+line(`opacity="@"`)+`</g></g></g>`))
	s.large(aStyle, func(n int) string {
		return `<line style="` + many(n, piece("stroke-width:§;fill:red;")) + `fill:blue" x2="@"/>`
	})
	s.large(aStyle, func(n int) string { return `<line stroke-dasharray="` + many(n, piece(" § ")) + `" x2="@"/>` })
	s.large(aStyle, func(n int) string {
		return many(n, piece(`<g opacity="0.9§">`)) + line("") + strings.Repeat("</g>", n) + line("")
	})
	meant := map[string]bool{"x": true, "y": true, "width": true, "height": true, "x1": true, "x2": true, "y1": true, "y2": true, "style": true}
	for _, k := range styleKeys {
		meant[k] = true
	}
	s.wordsAsNames(aStyle|aGeom, meant, `<g `+rich+`><line §="7" x1="@" y1="@" x2="@" y2="@"/></g>`, `<line §="red" x1="@" y1="@" x2="@" y2="@"/>`, `<g §="round"><line x2="@"/></g>`, `<g style="fill:red;§:7;stroke:lime"><line x2="@" style="§:round;§:red"/></g>`)
	for _, k := range styleKeys {
		for _, v := range styleVals[k] {
			for _, v2 := range styleVals[k] {
				if v2 != v {
					s.agree(aStyle, wrap(line(fmt.Sprintf(`%s="%s" style="%s:%s"`, k, v, k, v2))), wrap(line(fmt.Sprintf(`style="%s:%s" %s="%s"`, k, v2, k, v))))
				}
			}
		}
	}
	s.mixed(aStyle, profile{shape: 6, group: 5, grad: 1, style: 9, depth: 3, width: 3}, 14, 200)
}

// ---- C05, C06 ----

// kinds are complete fragments that leave nothing behind.
var kinds = []string{
	`<line x1="@" y1="@" x2="@" y2="@" stroke="red" stroke-width="@" stroke-dasharray="@ @"/>`,
	`<rect x="@" y="@" width="@" height="@" fill="#010203" transform="translate(@ @)"/>`,
	`<rect x="1" y="2" width="30" height="40" rx="5" mask="url(#m1)"/>`,
	`<circle cx="@" cy="@" r="@" opacity="@" fill-rule="evenodd"/>`,
	`<ellipse cx="1" cy="2" rx="30" ry="40" style="stroke:#00f;stroke-linecap:round"/>`,
	`<polyline points="@,@ @,@ @,@ @,@" stroke-dasharray="@ @ @ @" stroke-dashoffset="@"/>`,
	`<polygon points="@ @ @ @ @ @" fill="none" stroke-linejoin="round"/>`,
	`<path d="M@ @ C@ @ @ @ @ @ S@ @ @ @" fill="rgb(1,2,3)" stroke-miterlimit="@"/>`,
	`<path d="m@ @ q@ @ @ @ t@ @ z l@ @" stroke-opacity="@"/>`,
	`<path d="M@ @ h@ v@ z m@ @ l@ @" fill-opacity="@" stroke-leadlinecap="square" stroke-linegap="round"/>`,
	`<g fill="green" transform="scale(@ @)" stroke-width="@" mask="url(#m2)"><path d="M@ @ L@ @"/><g fill="blue" mask="url(#m3)" stroke-dasharray="@"><path d="M@ @ L@ @" mask="url(#m4)"/></g><line x2="@"/></g>`,
	`<g opacity="@"/>`,
	`<defs><linearGradient id="la" x1="@"><stop offset="10%" stop-color="red"/><stop offset="@" stop-opacity="@"/></linearGradient></defs><line x1="@" y2="@" fill="url(#la)" stroke="url(#la)"/>`,
	`<radialGradient id="ra" gradientUnits="userSpaceOnUse" cx="@" r="@" fr="@"><stop offset="@" style="stop-color:#123456;stop-opacity:@"/></radialGradient><line x1="@" y2="@" stroke="url(#ra)"/>`,
	`<mask id="ma" x="@" y="@" width="@" height="@"><rect x="@" y="@" width="@" height="@" fill="#fff"/><path d="M@ @L@ @"/></mask><line x1="@" y2="@" mask="url(#ma)"/>`,
	`<defs><path id="da" d="m@ @ l@ @ q@ @ @ @" fill="#0a0b0c"/></defs><use href="#da" x="@" y="@" stroke="#d0e0f0" transform="translate(@)"/>`,
	`<defs><g id="ga" stroke-width="@"><rect x="@" y="@" width="@" height="@" fill="red"/><g fill="lime"><line x1="@" y1="@" x2="@" y2="@"/></g></g></defs><use href="#ga" x="@" fill="#111213"/>`,
	`<title>one</title>`, `<desc>two &amp; three</desc>`, `<rect width="0" height="@" fill="red"/>`, `<circle r="0" stroke="red"/>`, `<polygon points="" transform="scale(@)"/>`,
	`<g><title>deep</title><g transform="rotate(@)"/></g>`,
}

func checkScoping(c *Check) {
	s := c.skeletons("Families: every ordered pair of element kinds side by side, the second also below a group, the first also in a group of its own (thorough: triples).")
	for _, a := range kinds {
		for _, b := range kinds {
			s.agree(aAll, wrap(a+b))
			s.agree(aAll, wrap(`<g fill="#aabbcc" transform="translate(@,@)" stroke="#ddeeff" stroke-width="@" mask="url(#q)" opacity="@">`+a+`</g>`+b))
		}
	}
	deep := []string{kinds[0], kinds[1], kinds[7], kinds[10], kinds[14], kinds[15], kinds[19]}
	for _, q := range seqs(deep, 3) {
		if c.Tier == "thorough" {
			s.agree(aAll, wrap(q[0]+`<g fill="#aabbcc" transform="scale(@)" stroke-dasharray="@" mask="url(#q)">`+q[1]+`</g>`+q[2]))
		}
	}
	for d := 1; d <= 6; d++ {
		open, cl := "", ""
		for i := 0; i < d; i++ {
			open += fmt.Sprintf(`<g mask="url(#m%d)" transform="translate(@ @)" opacity="@" stroke-width="@"><line x1="@"/>`, i)
			cl += `<line x2="@"/></g>`
		}
		s.agree(aAll, wrap(open+kinds[0]+cl+kinds[1]))
	}
	s.agree(aAll, inverses()...)
	s.large(aAll, func(n int) string {
		return many(n, piece(`<g stroke-width="§" transform="translate(1)">`)) + kinds[0] + strings.Repeat("</g>", n) + kinds[1]
	})
	s.large(aAll, func(n int) string { return many(n, piece(`<g fill="rgb(1,2,§)" stroke-width="§"/>`)) + kinds[0] })
	s.large(aAll, func(n int) string {
		if n > 130 {
			n = 130
		}
		return many(n, func(i int) string { return fmt.Sprintf(`<g mask="url(#m%d)">`, i) }) + `<line x2="@"/>` + strings.Repeat(`</g>`, n) + `<line x2="@"/>`
	})
	s.mixed(aAll, profile{shape: 6, group: 5, grad: 2, mask: 2, def: 2, use: 3, text: 1, noise: 1, style: 4, depth: 4, width: 3}, 5, 250)
}

func checkRecorded(c *Check) {
	s := c.skeletons("Appending into a slice with possible spare capacity makes the overwritten elements unknown, and character buffers are invalid after the next token, so a result that shares memory with anything written later cannot be equal to its meaning. Families: runs of up to five elements of every kind, growing and shrinking paths, mask lists, dash lists and gradients that are used while later elements are parsed.")
	asp := aAll
	for _, a := range kinds {
		s.agree(asp, wrap(a+a), wrap(a+a+a), wrap(a+kinds[7]+a), wrap(a+kinds[8]+kinds[7]+kinds[9]), wrap(kinds[9]+kinds[5]+a+kinds[1]))
	}
	long := "M@ @"
	for i := 1; i <= 6; i++ {
		long += " l@ @"
		s.agree(asp, wrap(`<path d="`+long+`"/><path d="m@ @ h@"/><path d="`+long+`"/>`), wrap(`<path d="`+long+`z"/><rect x="@" y="@" width="@" height="@"/><circle r="@"/>`))
	}
	masks := ""
	for i := 0; i < 6; i++ {
		masks += fmt.Sprintf(`<g mask="url(#a%d)"><line x2="@" mask="url(#b%d)"/><line y2="@" mask="url(#c%d)"/>`, i, i, i)
		s.agree(asp, wrap(masks+strings.Repeat("</g>", i+1)+`<line/>`))
		s.agree(asp, wrap(masks+`<line mask="url(#z)"/>`+strings.Repeat("<line mask=\"url(#y)\"/></g>", i+1)))
	}
	s.agree(asp,
		wrap(`<g stroke-dasharray="@ @ @"><line x1="@"/><line stroke-dasharray="@ @" x1="@"/><line x2="@"/><line stroke-dasharray="@ @ @ @" x1="@"/></g>`),
		wrap(`<linearGradient id="a"><stop offset="@" stop-color="red"/></linearGradient><line x2="@" fill="url(#a)"/><linearGradient id="a"><stop offset="@" stop-color="blue"/><stop offset="@"/></linearGradient><line x2="@" fill="url(#a)"/>`),
		wrap(`<linearGradient id="a"><stop offset="@"/><stop offset="@"/></linearGradient><line x2="@" fill="red" style="fill:url(#a)"/><line x2="@" fill="blue" style="fill:url(#a)"/><line x2="@" fill="url(#a)"/>`),
		wrap(`<g fill="red"><linearGradient id="a"><stop offset="@"/></linearGradient><line x2="@" fill="url(#a)"/></g><g fill="lime"><line x2="@" fill="url(#a)" stroke="url(#a)"/></g>`),
		wrap(`<mask id="a"><line x2="@"/></mask><mask id="b"><line x2="@"/><line y2="@"/></mask><line mask="url(#a)"/>`),
		wrap(`<title>a</title><desc>b</desc><title>c</title><desc>d</desc><title>e</title>`),
		wrap(`<title>aa<!-- c -->bb</title>text<desc>b<![CDATA[ccc]]>d</desc>`),
		wrap(`<defs><path id="a" d="M@ @ l@ @ l@ @"/><path id="b" d="M@ @ h@"/></defs><use href="#a"/><use href="#b"/><use href="#a" x="@"/><use href="#b" y="@"/>`),
	)
	s.large(asp, func(n int) string {
		p := `<path d="M@ @` + many(n, piece("l§ 2")) + `"/>`
		return p + kinds[8] + p + kinds[1]
	})
	s.large(asp, func(n int) string {
		p := `<line x2="@" stroke-dasharray="` + many(n, piece(" §")) + `"/>`
		return p + p + kinds[0]
	})
	s.mixed(asp, profile{shape: 8, group: 3, grad: 2, mask: 2, def: 2, use: 3, text: 2, noise: 1, style: 5, depth: 3, width: 5}, 6, 200)
}

// ---- C15 ----

func checkGradients(c *Check) {
	s := c.skeletons("Families: linear and radial gradients with every subset of their attributes, both unit systems, every spread, transforms, stops in attribute and style form, inherited stop colours, several gradients and users of them.")
	use := `<line x1="@" y2="@" fill="url(#a)"/><line x1="@" y2="@" stroke="url(#a)"/>`
	stops := `<stop offset="@" stop-color="red"/><stop offset="@%" stop-color="#0f0" stop-opacity="@"/>`
	asp := aFill | aLine
	for _, u := range []string{``, ` gradientUnits="userSpaceOnUse"`, ` gradientUnits="objectBoundingBox"`} {
		for _, sub := range subsets([]string{"x1", "y1", "x2", "y2"}) {
			a := ""
			for _, x := range sub {
				a += fmt.Sprintf(` %s="@"`, x)
			}
			s.agree(asp, wrap(`<linearGradient id="a"`+a+u+`>`+stops+`</linearGradient>`+use), wrap(`<linearGradient`+u+a+` id="a">`+stops+`</linearGradient>`+use))
		}
		for _, sub := range subsets([]string{"cx", "cy", "fx", "fy", "r", "fr"}) {
			a := ""
			for _, x := range sub {
				a += fmt.Sprintf(` %s="@%%"`, x)
			}
			s.agree(asp, wrap(`<radialGradient id="a"`+a+u+`>`+stops+`</radialGradient>`+use))
			if len(sub)%2 == 1 {
				s.agree(asp, wrap(`<radialGradient id="a"`+strings.ReplaceAll(a, "%", "")+u+`>`+stops+`</radialGradient>`+use))
			}
		}
	}
	for _, k := range []string{"linearGradient", "radialGradient"} {
		g := func(attrs, stops string) string { return `<` + k + ` id="a" ` + attrs + `>` + stops + `</` + k + `>` }
		for _, sp := range []string{"pad", "reflect", "repeat"} {
			s.agree(asp, wrap(g(`spreadMethod="`+sp+`"`, stops)+use))
		}
		for _, t := range []string{"translate(@,@)", "scale(@)", "rotate(@)", "matrix(@,@,@,@,@,@)", "translate(@) scale(@,@) skewX(@)"} {
			s.agree(asp, wrap(g(`gradientTransform="`+t+`"`, stops)+use))
		}
		for _, st := range []string{
			``, `<stop/>`, `<stop offset="@"/>`, `<stop offset="@%"/>`, `<stop offset=" @ % "/>`, `<stop stop-color="blue"/>`, `<stop stop-opacity="@"/>`, `<stop offset="0"/><stop offset="1"/>`,
			`<stop style="stop-color:red"/>`, `<stop style="stop-opacity:@"/>`, `<stop style="stop-color:red;stop-opacity:@" offset="@"/>`, `<stop style=" STOP-COLOR : #abc ; foo:bar; stop-opacity : @ ; "/>`,
			`<stop stop-color="red" style="stop-color:blue"/>`, `<stop style="stop-color:blue" stop-color="red"/>`, `<stop offset="@" style="fill:red"/>`, `<stop style="stop-color" offset="@"/>`,
			`<stop offset="0.25" stop-color="#123"/><stop offset="50%" stop-color="rgb(4,5,6)"/><stop offset="75%" stop-color="white" stop-opacity="0.5"/><stop offset="1"/>`,
			`<stop offset="@" stop-color="none"/>`, `<stop offset="@"/><stop offset="@" stop-color="red"/><stop offset="@"/>`,
		} {
			s.agree(asp, wrap(g("", st)+use), wrap(`<defs>`+g("", st)+`</defs>`+use), wrap(g("", st)+`<g fill="#0a0b0c" stroke="#0d0e0f">`+use+`</g>`), wrap(`<g>`+g("", st)+use+`</g>`))
		}
		s.agree(asp,
			wrap(g("", stops)+`<linearGradient id="b"><stop stop-color="blue"/></linearGradient>`+use+`<line x1="@" fill="url(#b)" stroke="url(#a)"/>`),
			wrap(`<linearGradient id="b"><stop stop-color="blue"/></linearGradient>`+g("", `<stop/><stop/>`)+`<g fill="url(#b)"><line x2="@" fill="url(#a)"/><line x2="@"/></g>`),
			wrap(g("", stops)+`<line x2="@" style="fill: url(#a); stroke:url( #a )"/>`),
			wrap(g("", stops)+`<line x2="@" fill="url(#none)" stroke="url(#nope)"/>`),
			wrap(g("", stops)+`<g fill="url(#a)"><line x2="@"/><line x2="@" fill="red"/></g>`),
			wrap(g("", stops)+`<g fill="url(#a)"><line x2="@" fill="none" stroke="url(#a)"/></g>`),
			wrap(g("", stops)+g("", `<stop offset="@" stop-color="lime"/>`)+use),
			wrap(`<`+k+`><stop offset="@"/></`+k+`>`+g("", stops)+use),
			wrap(g("", stops)+`<stop offset="@" stop-color="red"/>`+use),
			wrap(`<g transform="scale(@)">`+g("", stops)+`</g>`+use),
		)
	}
	for _, t := range []string{
		`<linearGradient id="a" x1="~" y1="~" x2="~" y2="~"><stop offset="~" stop-color="red" stop-opacity="~"/><stop offset="~%"/></linearGradient>`,
		`<linearGradient id="a" x1="~%" y1="~%" x2="~%" y2="~%" gradientUnits="userSpaceOnUse"/>`,
		`<radialGradient id="a" cx="~" cy="~" fx="~" fy="~" r="~" fr="~"/>`, `<radialGradient id="a" cx="~%" cy="~%" r="~%" gradientUnits="userSpaceOnUse" gradientTransform="matrix(~ ~ ~ ~ ~ ~)"/>`,
	} {
		s.agree(asp, vary(t+use)...)
	}
	s.agree(asp, wrap(`<linearGradient id="n:a.b-c_d"><stop stop-color="red"/></linearGradient><line x2="@" fill="url(#n:a.b-c_d)" style="stroke:url(#n:a.b-c_d)"/>`))
	s.large(asp, func(n int) string {
		return `<linearGradient id="a">` + many(n, piece(`<stop offset="0.§" stop-color="rgb(1,2,§)"/>`)) + `</linearGradient>` + use
	})
	s.large(asp, func(n int) string {
		return many(n, func(i int) string { return fmt.Sprintf(`<radialGradient id="a%d" r="%d%%"/>`, i, i) }) + `<line x2="@" fill="url(#a0)"/><line x2="@" fill="url(#a3)"/>`
	})
	s.wordsAsValues(asp, `<linearGradient id="§"><stop stop-color="red"/></linearGradient><linearGradient id="x§"/><line x2="@" fill="url(#§)"/><line x2="@" stroke="url(#x§)"/>`)
	s.wordsAsNames(asp, map[string]bool{"id": true, "x1": true, "x2": true, "y1": true, "y2": true, "cx": true, "cy": true, "fx": true, "fy": true, "r": true, "fr": true, "gradienttransform": true, "gradientunits": true, "spreadmethod": true, "style": true, "offset": true, "stop-color": true, "stop-opacity": true,
		"fill": true, "stroke": true, "fill-rule": true, "stroke-linecap": true, "stroke-leadlinecap": true, "stroke-linejoin": true, "stroke-linegap": true, "mask": true, "transform": true},
		`<linearGradient id="a" §="0.7" x1="@"><stop offset="@" §="0.7" stop-color="red"/></linearGradient>`+use, `<radialGradient id="a" r="@" §="0.7"><stop style="§:0.7;stop-color:lime" offset="@"/></radialGradient>`+use)
	s.mixed(asp, profile{shape: 5, group: 3, grad: 6, mask: 1, def: 1, use: 1, noise: 1, style: 2, paint: true, depth: 3, width: 4}, 15, 300)
	checkGradAPI(c, s)
}

// ---- C17 ----

func checkUse(c *Check) {
	s := c.skeletons("Families: every shape and groups of shapes as definition, used once and several times, with offsets, styles and transforms on the use, its ancestors and the definition, definitions that use other definitions, in masks and groups.")
	asp := aAll
	shapes := []string{
		`<line ID x1="@" y1="@" x2="@" y2="@"/>`, `<rect ID x="@" y="@" width="@" height="@"/>`, `<rect ID x="1" y="2" width="30" height="40" rx="5" ry="4"/>`, `<circle ID cx="@" cy="@" r="@"/>`, `<ellipse ID cx="@" cy="@" rx="@" ry="@"/>`,
		`<polyline ID points="@,@ @,@ @,@"/>`, `<polygon ID points="@,@ @,@ @,@ @,@"/>`, `<path ID d="M@ @ L@ @ H@ V@ Q@ @ @ @ T@ @ C@ @ @ @ @ @ S@ @ @ @ z m@ @ l@ @ h@ v@"/>`, `<path ID d="M10 20 A30 50 20 1 0 44 33 a3 5 20 0 1 4 3"/>`,
		`<g ID><rect x="@" y="@" width="@" height="@"/><circle cx="@" cy="@" r="@"/></g>`, `<g ID fill="red"><g stroke="blue"><line x2="@"/></g><line y2="@"/></g>`,
		`<path ID d="m@ @ l@ @ t@ @ s@ @ @ @"/>`,
	}
	id := func(x, attrs string) string { return strings.Replace(x, "ID", attrs, 1) }
	for _, x := range shapes {
		s.agree(asp,
			wrap(`<defs>`+id(x, `id="a"`)+`</defs>`),
			wrap(`<defs>`+id(x, `id="a"`)+`</defs><use href="#a"/>`),
			wrap(`<defs>`+id(x, `id="a"`)+`</defs><use href="#a" x="@" y="@"/>`),
			wrap(`<defs>`+id(x, `id="a"`)+`</defs><use x="@" href="#a"/><use y="@" href="#a"/>`),
			wrap(`<defs>`+id(x, `id="a"`)+`</defs><use href="#a" x="-@" y="@"/>`+id(x, "")),
			wrap(`<defs>`+id(x, `id="a" fill="#010203" stroke-width="@" transform="scale(@)"`)+`</defs><use href="#a" x="@" fill="#040506" stroke="#070809" transform="translate(@ @)"/><line x2="@"/>`),
			wrap(`<defs>`+id(x, `id="a"`)+`</defs><g transform="rotate(@)" opacity="@"><use href="#a" opacity="@"/></g><line x2="@"/>`),
			wrap(`<defs>`+id(x, `id="a"`)+`<use id="b" href="#a" x="@" y="@" stroke="red"/></defs><use href="#b" x="@" y="@"/><use href="#a"/>`),
			wrap(`<defs>`+id(x, `id="a"`)+`<g id="b" fill="blue"><use href="#a" x="@"/><use href="#a" y="@"/></g></defs><use href="#b" x="@" y="@"/>`),
			wrap(`<defs>`+id(x, `id="a"`)+`</defs><mask id="m"><use href="#a" x="@"/></mask><use href="#a" mask="url(#m)"/>`),
			wrap(`<defs><line id="z" x2="@"/>`+id(x, `id="a"`)+`<circle id="y" r="5"/></defs><use href="#a"/><use href="#y"/><use href="#z"/>`),
			wrap(`<defs><line id="z" x2="@"/></defs><use href="#z"/><defs>`+id(x, `id="a"`)+`</defs><use href="#a"/><use href="#z" x="@"/>`),
			wrap(`<defs>`+id(x, `id="a"`)+`</defs><use xlink:href="#a" x="10%" y="@%"/>`),
			wrap(`<defs>`+id(x, `id="a"`)+`</defs><defs><line id="a" x2="@"/></defs><use href="#a"/>`),
		)
	}
	for _, t := range []string{`<defs><path id="a" d="m@ @ h@ v@ q@ @ @ @ a5 6 7 0 1 8 9 z"/><use id="b" href="#a" x="~" y="~"/></defs><use href="#b" x="~" y="~"/><line x1="@"/>`, `<defs><polygon id="a" points="@ @ @ @ @ @"/></defs><use href="#a" x="~" y="~" transform="translate(~ ~)"/><use href="#a" x="~"/>`} {
		s.agree(asp, vary(t)...)
	}
	s.agree(asp,
		wrap(`<defs><linearGradient id="g"><stop offset="@" stop-color="red"/></linearGradient><rect id="a" width="@" height="@" fill="url(#g)"/></defs><use href="#a"/>`),
		wrap(`<defs><rect id="a" width="@" height="@"/><linearGradient id="g"><stop offset="@" stop-color="red"/></linearGradient></defs><use href="#a" fill="url(#g)"/>`),
		wrap(`<defs><path id="a" d="M@ @ L@ @"/><use id="b" href="#a" x="@"/><use id="c" href="#b" x="@"/><use id="d" href="#c" y="@"/></defs><use href="#d"/><use href="#c"/><use href="#b"/><use href="#a"/>`),
		wrap(`<defs><g id="a"><g fill="red"><g stroke="lime"><line x2="@"/></g><line x2="@"/></g><line x2="@"/></g><line id="b" x2="@"/></defs><use href="#a" fill="blue"/><use href="#b"/>`),
		wrap(`<defs><rect id="a" width="0" height="@"/><line id="b" x2="@"/></defs><use href="#a"/><use href="#b"/>`),
		wrap(`<defs><line id="a" x1="@"/><line id="b" x2="@"/><line id="c" y1="@"/></defs><use href="#c"/><use href="#a"/><use href="#b"/>`),
		wrap(`<defs></defs><line x2="@"/>`), wrap(`<defs/><line x2="@"/>`),
	)
	s.large(asp, func(n int) string {
		return `<defs>` + many(n, func(i int) string { return fmt.Sprintf(`<line id="a%d" x2="%d"/>`, i, i) }) + `</defs>` + fmt.Sprintf(`<use href="#a0"/><use href="#a%d"/><use href="#a%d"/>`, n/2, n-1)
	})
	s.large(asp, func(n int) string {
		return `<defs><g id="a">` + many(n, piece(`<line x2="§"/>`)) + `</g></defs><use href="#a" x="@"/>`
	})
	s.large(asp, func(n int) string {
		return `<defs><path id="a" d="M1 2` + many(n, piece("l§ 3")) + `"/></defs><use href="#a" x="@"/><use href="#a"/>`
	})
	s.large(asp, func(n int) string {
		if n > 40 && c.Tier != "thorough" {
			n = 40
		}
		return `<defs><line id="a" x2="5"/></defs>` + many(n, piece(`<use href="#a" x="§"/>`)) + `<line x2="@"/>`
	})
	s.wordsAsValues(asp, `<defs><line id="§" x2="@"/><line id="x§" y2="@"/></defs><use href="#§"/><use href="#x§"/>`)
	s.agree(asp,
		wrap(`<defs><g id="a"><rect/><g><line/></g><line x2="@"/><circle/><path/></g></defs><use href="#a" x="@"/><line y2="@"/>`),
		wrap(`<defs><g id="a"><g fill="red" stroke-width="@"><line/></g><line x2="@"/><g transform="scale(@)"><circle/><rect/><path/><polygon/></g><line x2="@"/></g></defs><use href="#a" x="@"/><line y2="@"/>`),
		wrap(`<defs><g id="a"><g><g/></g><line x2="@"/></g></defs><g fill="red"><use href="#a" fill="blue"/></g><line y2="@"/>`),
		wrap(`<defs><g id="a" fill="red"><line/><g><line/><line fill="lime"/></g><line/></g></defs><use href="#a" stroke="blue"/><line/>`),
	)
	s.mixed(asp, profile{shape: 4, group: 3, grad: 1, mask: 1, def: 4, use: 8, style: 3, depth: 3, width: 4}, 17, 200)
}

// ---- C20 ----

func checkRouting(c *Check) {
	s := c.skeletons("Families: titles, descriptions, masks and definitions in every order with shapes, with text, comments, entities and CDATA around and inside.")
	asp := aText | aMasks | aBox | aGeom | aMaskRefs
	parts := []string{
		`<title>alpha</title>`, `<desc>beta</desc>`, `<title/>`, `<title>a &lt; b &#65;</title>`, `<desc>x<!-- no -->y<![CDATA[<z>]]></desc>`, `stray text`, `<!-- comment -->`, `<?pi data?>`,
		`<mask id="m" x="@" y="@" width="@" height="@"><rect x="@" y="@" width="@" height="@"/></mask>`, `<mask id="n"><g transform="translate(@)"><line x2="@"/><line y2="@"/></g></mask>`, `<mask id="o"/>`,
		`<line x1="@" y1="@" x2="@" y2="@"/>`, `<g><line x2="@" mask="url(#m)"/></g>`, `<defs><line id="a" x2="@"/></defs>`, `<g><title>in group</title><desc>in group</desc></g>`,
	}
	for _, q := range seqs(parts, 2) {
		s.agree(asp, wrap(strings.Join(q, "")))
	}
	if c.Tier == "thorough" {
		for _, q := range seqs(parts, 3) {
			s.agree(asp, wrap(strings.Join(q, "")))
		}
	}
	for _, d := range []string{
		`<title> spaces kept </title>`, `<title>line
break</title>`, `<title>a</title><title>a</title>`, `<desc>d</desc><title>t</title>`, `<title>t</title>tail<desc>d</desc>tail`, `<text>`,
		`<line x2="@"><title>tip</title></line><line y2="@"/>`, `<g><desc>d1</desc><g><desc>d2</desc></g></g>`,
		`<mask id="m"><title>mask title</title><line x2="@"/></mask>`,
		`<mask id="m"><line x2="@"/></mask><mask id="m"><line y2="@"/></mask>`,
		`<mask id="m" x="@%" y="@%" width="@%" height="@%"/>`, `<mask id="m" height="@" width="@" y="-@" x="-@" fill="red"><line x2="@"/></mask>`,
		`<mask id="m" mask="url(#n)"><line x2="@"/></mask><mask id="n"><line mask="url(#m)" y2="@"/></mask>`,
		`<mask id="a:b"><line x2="@"/></mask><line y2="@" mask="url(#a:b)" style="mask:url(#c:d)"/>`,
		`<mask id="m"><circle r="0"/><rect width="0" height="0"/></mask><line x2="@"/>`,
		`<mask id="m"><path d="M@ @L@ @"/><path d="M@ @L@ @"/><path d="M@ @L@ @"/></mask><path d="M@ @L@ @"/>`,
	} {
		if d == `<text>` {
			continue
		}
		s.agree(asp|aStyle, wrap(d))
	}
	s.agree(asp, at(`<?xml version="1.0"?><!DOCTYPE svg><svg width="@" height="@px" viewBox="0 0 @ @"><title>x</title></svg>`), at(`<svg xmlns="http://www.w3.org/2000/svg" height="@cm"><desc>x</desc></svg>`))
	s.large(asp, func(n int) string {
		return `<title>` + strings.Repeat("x", n) + `</title><desc>` + strings.Repeat("yz", n) + `</desc>`
	})
	s.large(asp, func(n int) string { return many(n, piece(`<title>t§</title><desc/>`)) })
	s.large(asp, func(n int) string {
		return `<mask id="m">` + many(n, piece(`<line x2="§"/>`)) + `</mask><line x2="@"/>` + `<mask id="n"/>`
	})
	s.large(asp, func(n int) string {
		if n > 140 {
			n = 140
		}
		return many(n, func(i int) string { return fmt.Sprintf(`<mask id="m%d"><line x2="%d"/></mask>`, i, i) }) + `<line x2="@"/>`
	})
	s.wordsAsValues(asp, `<mask id="§"><line x2="@"/></mask><title>§</title><line x2="@" mask="url(#§)"/><desc>x § y</desc>§<mask id="x§"/>`)
	s.agree(aGeom|aText|aBox,
		wrap(`<defs><mask id="m"><line x2="@"/></mask></defs><line y2="@"/>`), wrap(`<defs><line id="a" x2="@"/><mask id="m"><rect width="@" height="@"/></mask></defs><use href="#a"/><line y2="@"/><title>t</title>`),
		wrap(`<defs><mask id="m"/></defs><g><line y2="@"/></g><mask id="n"><line x1="@"/></mask><line x2="@"/>`))
	s.mixed(asp|aStyle, profile{shape: 5, group: 4, grad: 1, mask: 5, def: 2, use: 2, text: 4, noise: 3, style: 2, depth: 4, width: 4}, 20, 300)
}

// ---- C21 ----

func checkColours(c *Check) {
	s := c.skeletons("Families: all named colours, hexadecimal forms, rgb() with integers and percentages in and out of range, none, in every case and place a colour may occur; malformed colours are an error.")
	good := []string{"none", "NONE", "None", "#000", "#fff", "#FFF", "#1aF", "#012345", "#6789ab", "#CDEFcd", "#fF00a9", "rgb(0,0,0)", "rgb(255,255,255)", "rgb(1,2,3)", "rgb( 10 , 20 , 30 )", "rgb(300,-5,256)", "rgb(0%,50%,100%)", "rgb(10%,20%,30%)", "rgb(150%,-10%,99%)", "rgb(7,50%,200)", "rgb(33%, 66% ,1%)", "#abc", "#abcdef"}
	i := 0
	var names []string
	for n := range cssColors {
		names = append(names, n)
	}
	sortStrings(names)
	for _, n := range names {
		switch i % 3 {
		case 0:
			good = append(good, n)
		case 1:
			good = append(good, strings.ToUpper(n[:1])+n[1:])
		case 2:
			good = append(good, strings.ToUpper(n))
		}
		i++
	}
	for _, v := range good {
		s.agree(aFill|aLine, wrap(fmt.Sprintf(`<line x2="@" fill="%s" stroke="#010203"/><line x2="@" stroke="%s"/><line style="fill:%s;stroke:%s" x2="@"/>`, v, v, v, v)),
			wrap(fmt.Sprintf(`<linearGradient id="a"><stop offset="@" stop-color="%s"/><stop style="stop-color:%s"/></linearGradient><line x2="@" fill="url(#a)"/>`, v, v)))
	}
	// every pattern of equal digits, every byte in every place, every integer and percentage
	var many []string
	digits := "0123456789abcdefABCDEF"
	n := 0
	var grow func(p []int, max int)
	grow = func(p []int, max int) {
		if len(p) == 6 || len(p) == 3 {
			b := []byte("#")
			for _, k := range p {
				b = append(b, digits[(n*5+k*7)%len(digits)])
			}
			n++
			many = append(many, string(b))
		}
		if len(p) == 6 {
			return
		}
		for k := 0; k <= max; k++ {
			m := max
			if k == max {
				m++
			}
			grow(append(p[:len(p):len(p)], k), m)
		}
	}
	grow(nil, 0)
	for k := 0; k < 256; k++ {
		a, b := (k*37+11)%256, (k*91+5)%256
		many = append(many, fmt.Sprintf("#%02x%02X%02x", k, a, b), fmt.Sprintf("#%02X%02x%02x", b, k, a), fmt.Sprintf("#%02x%02x%02X", a, b, k), fmt.Sprintf("rgb(%d,%d,%d)", k, (k+85)%256, (k+170)%256))
	}
	for k := -3; k <= 104; k++ {
		many = append(many, fmt.Sprintf("rgb(%d%%,%d%%,%d%%)", k, (k+53)%106, (k+90)%103))
	}
	for _, k := range []int{-1000, -256, -255, -1, 0, 1, 99, 100, 101, 254, 255, 256, 257, 511, 512, 1000, 65535, 65536} {
		many = append(many, fmt.Sprintf("rgb(%d,%d,%d)", k, k+1, 7), fmt.Sprintf("rgb(3,%d%%,%d)", k, k), fmt.Sprintf("rgb(%d%%,5,%d%%)", k, k))
	}
	for len(many) > 0 {
		k := 24
		if k > len(many) {
			k = len(many)
		}
		var b strings.Builder
		for i := 0; i < k; i++ {
			if i%2 == 0 {
				fmt.Fprintf(&b, `<line fill="%s" stroke="%s" x2="@"/>`, many[i], many[(i+1)%k])
			} else if i%6 == 1 {
				fmt.Fprintf(&b, `<line style="fill:%s;stroke:%s" x2="@"/>`, many[i], many[(i+3)%k])
			}
		}
		s.agree(aFill|aLine, wrap(b.String()))
		many = many[k:]
	}
	for _, pos := range []int{1, 2, 3, 4, 5, 6} {
		for _, ch := range "gG-+ .xz/:@`_#%é" {
			if pos <= 3 {
				b := []rune("#1aF")
				b[pos] = ch
				s.wantErr(wrap(`<line x2="@" fill="`+string(b)+`"/>`), "IgnoreErrorMode")
			}
			b := []rune("#09aF5e")
			b[pos] = ch
			s.wantErr(wrap(`<line x2="@" stroke="`+string(b)+`"/>`), "StrictErrorMode")
		}
	}
	for _, w := range c.words() {
		if strings.HasPrefix(strings.ToLower(w), "url") {
			continue // a reference
		}
		for _, v := range []string{w, strings.ToUpper(w), "#" + w, w + "(1,2,3)", w + "(1,2,3,4)", w + "(1,2,3,0.5)"} {
			s.decide(aFill|aLine, wrap(`<line x2="@" stroke="`+v+`"/>`), wrap(`<linearGradient id="a"><stop offset="@" stop-color="`+v+`"/></linearGradient><line x2="@" fill="url(#a)"/>`))
		}
	}
	for _, v := range []string{"", "nocolour", "#", "#1", "#12", "#1234", "#12345", "#1234567", "#ggg", "#12345g", "#-12", "rgb()", "rgb(1)", "rgb(1,2)", "rgb(1,2,3,4)", "rgb(a,b,c)", "rgb(1,,3)", "rgb(1,2,x%)", "rgb(1.5x,2,3)", "123456", "%", "#+12", "#+12345", "#12 456"} {
		for _, mode := range []string{"IgnoreErrorMode", "WarnErrorMode", "StrictErrorMode"} {
			for _, t := range []string{`<line x2="@" fill="%s"/>`, `<line x2="@" stroke="%s"/>`, `<g style="fill:%s"/>`, `<linearGradient id="a"><stop offset="@" stop-color="%s"/></linearGradient>`} {
				s.wantErr(wrap(fmt.Sprintf(t, v)), mode)
			}
		}
	}
}
