package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"time"

	"verif/analyzer/ai"
)

// debugRun runs the general analysis of Parse and prints what it found.
func debugRun(args []string) {
	fs := flag.NewFlagSet("debug", flag.ExitOnError)
	dbg := fs.Bool("d", false, "")
	dbg2 := fs.Int("f", 0, "")
	trace := fs.String("t", "", "")
	fs.Parse(args)
	t0 := time.Now()
	p, err := Load("/repo")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	in := p.Interp()
	in.Debug = *dbg
	in.Trace = *trace
	st := p.Base(in)
	fn := p.Svg.Func("Parse")
	var as []ai.Val
	for _, prm := range fn.Params {
		as = append(as, ai.FreshVal(prm.Type(), prm.Name()))
	}
	rs := in.Call(st, fn, as, nil, nil)
	fmt.Println("parse", time.Since(t0), len(rs), in.Steps)
	for k, c := range ai.FnCount {
		fmt.Println("FN", k, c[0], c[1]/1000)
	}
	sum := map[string]int{}
	bad := map[string]bool{}
	for _, o := range in.Log.Obl {
		sum[o.Kind]++
		if !o.OK {
			sum[o.Kind+"!"]++
			bad[p.Pos(o.Instr)+" "+o.Kind+" "+o.What] = true
			if *dbg2 > 0 {
				*dbg2--
				fmt.Println("FACTS", p.Pos(o.Instr), o.What, o.Stack)
				for _, l := range o.Facts.Lin {
					fmt.Println("   lin", l)
				}
				for l, v := range o.Facts.Lits {
					fmt.Println("   lit", v, l)
				}
			}
		}
	}
	fmt.Println(sum)
	var bs []string
	for b := range bad {
		bs = append(bs, b)
	}
	sort.Strings(bs)
	for _, b := range bs {
		fmt.Println("  ", b)
	}
	for _, u := range in.Log.Undec {
		fmt.Println("UNDEC", u)
	}
	for _, l := range in.Log.Recs {
		fmt.Println("REC", l.Fn, l.Ranked)
	}
	seen := map[string]bool{}
	for _, l := range in.Log.Loops {
		k := fmt.Sprint(l.Fn, l.Head.Index, l.Ranked == "")
		if !seen[k] {
			seen[k] = true
			fmt.Println("LOOP", l.Fn, l.Head.Index, l.Ranked, "passes", l.Passes)
		}
	}
}

// debugMixed compares generated documents (all aspects).
func init() {
	checks["GEN"] = func(c *Check) {
		s := c.skeletons("")
		p := profile{shape: 6, group: 4, grad: 2, mask: 2, def: 2, use: 3, text: 1, noise: 1, style: 5, units: true, depth: 3, width: 3}
		s.agree(aAll, mixed(p, 11, 3000)...)
	}
}
