package main

import (
	"fmt"
	"os"
	"strings"

	"verif/analyzer/ai"
)

var backends = []string{"draw2d", "gg", "rasterx"}

// DrawRun interprets Draw of a backend for an arbitrary image and options.
func (c *Check) DrawRun(backend string, tune func(in *ai.Interp)) (*ai.Interp, []ai.RetState, []ai.Val, *ai.State) {
	in := c.P.Interp()
	st := c.P.Base(in)
	in.Opt.MergeFloats = false
	in.Opt.RetCap = 64
	in.Opt.BlockCap = 64
	if tune != nil {
		tune(in)
	}
	for _, sp := range c.P.SSA {
		if sp.Pkg.Path() != modPath+"/renderer/"+backend {
			continue
		}
		fn := sp.Func("Draw")
		if fn == nil {
			panic("the exported function Draw of " + backend + " is gone")
		}
		var args []ai.Val
		for _, prm := range fn.Params {
			args = append(args, ai.FreshVal(prm.Type(), prm.Name()))
		}
		return in, in.Call(st, fn, args, nil, nil), args, st
	}
	panic("package renderer/" + backend + " is gone")
}

func printEvs(l *ai.EvList, ind string, w *os.File) {
	for _, e := range l.Slice() {
		var as []string
		for _, a := range e.Args {
			as = append(as, ai.VStr(a))
		}
		fmt.Fprintf(w, "%s%s %s(%s) elem=%v target=%v\n", ind, e.Kind, e.Name, strings.Join(as, "; "), e.Elem, e.Target != nil)
		for i, a := range e.Alts {
			fmt.Fprintf(w, "%s alt %d\n", ind, i)
			printEvs(a.Evs, ind+"    ", w)
		}
	}
}

func drawDebug(backend string) {
	p, err := Load("/repo")
	if err != nil {
		panic(err)
	}
	c := &Check{P: p, seen: map[string]bool{}, Cov: map[string]interface{}{}}
	in, rs, _, _ := c.DrawRun(backend, nil)
	fmt.Println(len(rs), in.Steps, in.Log.Undec)
	for i, r := range rs {
		if i > 3 {
			break
		}
		fmt.Println("--- ret", i, ai.VStr(r.Ret))
		printEvs(r.St.Evs, "", os.Stdout)
	}
	for _, l := range in.Log.Loops {
		fmt.Println("LOOP", l.Fn, l.Ranked, l.Passes, len(l.Backs))
	}
	for _, l := range in.Log.Recs {
		fmt.Println("REC", l.Fn, l.Ranked)
	}
	n := 0
	for _, o := range in.Log.Obl {
		if !o.OK {
			fmt.Println("OBL", p.Pos(o.Instr), o.Kind, o.What)
		} else {
			n++
		}
	}
	fmt.Println("ok", n, "stores", len(in.Log.Stores))
	for _, s := range in.Log.Stores {
		if s.Ptr != nil {
			fmt.Println("STORE", p.Pos(s.Instr), s.Ptr.Obj.Label, s.Ptr.Obj.Kind)
		}
	}
}
