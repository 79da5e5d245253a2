package main

import (
	"fmt"
	"os"
	"time"

	"verif/analyzer/ai"
)

func docRun(args []string) {
	if args[0] == "draw2d" || args[0] == "gg" || args[0] == "rasterx" {
		drawDebug(args[0])
		return
	}
	p, err := Load(repoDir())
	if err != nil {
		panic(err)
	}
	c := &Check{P: p, seen: map[string]bool{}, Cov: map[string]interface{}{}}
	t0 := time.Now()
	s := c.Scripts()
	fmt.Println("base", time.Since(t0))
	if args[0] == "ref" {
		for _, a := range args[1:] {
			t0 = time.Now()
			s.agree(aAll, a)
			fmt.Println(a, time.Since(t0), c.OK, c.Oblig)
		}
		for _, u := range c.Bad {
			fmt.Println("BAD", u)
		}
		args = nil
	}
	for _, a := range args {
		t0 = time.Now()
		outs := s.run(a, "StrictErrorMode")
		fmt.Println(a, time.Since(t0))
		for _, o := range outs {
			o.print(os.Stdout)
		}
	}
	for _, u := range c.Undec {
		fmt.Println("UNDEC", u)
	}
}

func (o *Outcome) print(w *os.File) {
	fmt.Fprintln(w, "== err", o.Err, "logs", o.Logs, "svg", o.Svg != nil)
	for l, v := range o.St.Facts.Lits {
		fmt.Fprintln(w, "   fact", v, l)
	}
	if o.Svg == nil {
		return
	}
	for _, f := range []string{"ViewBox", "Titles", "Descriptions", "Width", "Height", "SvgMasks", "Transform"} {
		fmt.Fprintln(w, "  ", f, ai.VStr(o.get(f)))
	}
	es, ok := elems(o.St, o.get("SvgPaths"))
	if !ok {
		fmt.Fprintln(w, "  paths unknown", ai.VStr(o.get("SvgPaths")))
		return
	}
	t := o.s.c.P.typ("SvgPath")
	for _, e := range es {
		ops, ok := o.ops(field(e, t, "Path"))
		fmt.Fprintln(w, "   PATH", ops, ok)
		if !ok {
			fmt.Fprintln(w, "     ", ai.VStr(o.St.SliceContent(field(e, t, "Path").(*ai.SliceV))))
		}
		fmt.Fprintln(w, "   STYLE", ai.VStr(field(e, t, "Style")))
	}
}
