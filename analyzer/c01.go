package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	checks["C01"] = checkNoPanic
	checks["C02"] = checkTerminates
}

// General is the result of the general analysis of Parse: any document, any error mode.
type General struct {
	In   *ai.Interp
	Base *ai.State
	Rets []ai.RetState
}

// ParseGeneral interprets Parse with arbitrary arguments.
func (c *Check) ParseGeneral() *General {
	in := c.P.Interp()
	st := c.P.Base(in)
	fn := c.P.Svg.Func("Parse")
	if fn == nil {
		panic("the exported function Parse is gone")
	}
	var args []ai.Val
	for _, prm := range fn.Params {
		args = append(args, ai.FreshVal(prm.Type(), prm.Name()))
	}
	rs := in.Call(st, fn, args, nil, nil)
	for _, u := range in.Log.Undec {
		c.Note("%s", u)
	}
	c.Cov["functions_analysed"] = len(in.Fns)
	c.Cov["abstract_steps"] = in.Steps
	return &General{in, st, rs}
}

var panicKinds = map[string]string{
	"index":     "index within the length",
	"slice":     "slice bounds in order and within the capacity",
	"nil":       "no nil dereference",
	"nilmap":    "no write to a nil map",
	"divzero":   "no integer division by zero",
	"makeslice": "no negative size",
	"assert":    "type assertion succeeds",
	"panic":     "no explicit panic",
}

func checkNoPanic(c *Check) {
	g := c.ParseGeneral()
	c.Rule("Abstract interpretation of Parse for an arbitrary token stream and error mode to a fixpoint of the token loop; every index, slice, nil dereference, nil map write, integer division, make size and type assertion in the code it reaches is an obligation that the invariants must imply.")
	c.Assume = append(c.Assume, "encoding/xml delivers end elements only for open elements and errors otherwise", "the standard library and the reader passed in do not panic themselves", "memory does not run out")
	kinds := map[string]int{}
	for _, o := range g.In.Log.Obl {
		kinds[o.Kind]++
		what := panicKinds[o.Kind]
		if what == "" {
			what = o.Kind
		}
		if o.OK {
			c.Must(true, "%s: %s", c.P.Pos(o.Instr), what)
		} else {
			c.Must(false, "%s: not proved: %s: %s (reached through %s)", c.P.Pos(o.Instr), what, o.What, chain(o.Stack))
		}
	}
	c.Cov["obligations_by_kind"] = kinds
	c.Must(len(g.Rets) > 0, "Parse returns")
}

func chain(s []string) string {
	for i := range s {
		s[i] = strings.ReplaceAll(s[i], modPath, "svg")
	}
	return strings.Join(s, " > ")
}

func checkTerminates(c *Check) {
	g := c.ParseGeneral()
	c.Rule("Every loop reached by Parse has a ranking: a quantity bounded below that decreases with each iteration on every back edge of the solved loop, a finite map, a token of the input read per iteration, or a float moving by a constant to a bound; every recursive call increases a quantity that is bounded.")
	c.Assume = append(c.Assume, "the reader passed in is finite and its Read returns")
	loops := map[*ssa.BasicBlock]string{}
	for _, l := range g.In.Log.Loops {
		if r, ok := loops[l.Head]; !ok || r != "" {
			loops[l.Head] = l.Ranked
		}
		c.Must(l.Ranked != "", "%s: loop in %s: %s", c.P.PosOf(l.Pos()), l.Fn.Name(), orElse(l.Ranked, "no quantity found that decreases with every iteration and is bounded below"))
	}
	c.Cov["loops"] = len(loops)
	for _, r := range g.In.Log.Recs {
		c.Must(r.Ranked != "", "%s: recursion of %s: %s", c.P.PosOf(r.Fn.Pos()), r.Fn.Name(), orElse(r.Ranked, "no bounded quantity grows with every call"))
	}
	c.Cov["recursive_functions"] = len(g.In.Log.Recs)
	drawTerminates(c)
}

func orElse(s, d string) string {
	if s == "" {
		return d
	}
	return s
}

func drawTerminates(c *Check) {
	c.Rule("The same for Draw of each backend on an arbitrary image.")
	for _, b := range backends {
		in, rets, _, _ := c.DrawRun(b, nil)
		for _, u := range in.Log.Undec {
			c.Note("%s", u)
		}
		c.Must(len(rets) > 0, "renderer/%s: Draw returns", b)
		for _, l := range in.Log.Loops {
			c.Must(l.Ranked != "", "%s: loop in %s: %s", c.P.PosOf(l.Pos()), l.Fn.Name(), orElse(l.Ranked, "no quantity found that decreases with every iteration and is bounded below"))
		}
		for _, r := range in.Log.Recs {
			c.Must(r.Ranked != "", "%s: recursion of %s: %s", c.P.PosOf(r.Fn.Pos()), r.Fn.Name(), orElse(r.Ranked, "no bounded quantity grows with every call"))
		}
	}
}
