package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	checks["C07"] = checkGlobals
	checks["C08"] = checkDrawPure
}

// fromGlobals collects the objects reachable from package-level variables.
func fromGlobals(st *ai.State) map[*ai.Obj]string {
	seen := map[*ai.Obj]string{}
	var obj func(o *ai.Obj, name string)
	var val func(v ai.Val, name string)
	val = func(v ai.Val, name string) {
		switch x := v.(type) {
		case *ai.PtrV:
			obj(x.Obj, name)
		case *ai.SliceV:
			obj(x.Obj, name)
		case *ai.MapV:
			obj(x.Obj, name)
		case *ai.IfaceV:
			val(x.V, name)
		case *ai.StructV:
			for _, f := range x.F {
				val(f, name)
			}
		case *ai.ArrV:
			for _, f := range x.E {
				val(f, name)
			}
		case *ai.SeqV:
			for _, g := range x.Segs {
				for _, e := range g.Elems {
					val(e, name)
				}
			}
		case *ai.MapC:
			for _, e := range x.Known {
				val(e.V, name)
			}
		}
	}
	obj = func(o *ai.Obj, name string) {
		if o == nil {
			return
		}
		if _, ok := seen[o]; ok {
			return
		}
		seen[o] = name
		if c, ok := st.Heap[o]; ok {
			val(c, name)
		}
	}
	for o := range st.Heap {
		if o.Kind == ai.OGlobal {
			obj(o, o.Label)
		}
	}
	return seen
}

func storeObj(s *ai.StoreEv) *ai.Obj {
	if s.Map != nil {
		return s.Map.Obj
	}
	if s.Ptr != nil {
		return s.Ptr.Obj
	}
	return nil
}

// globalOf tells which package-level variable a store may go to: the object, the arrays
// it continues, and the values that were merged into the pointer it was found through.
func globalOf(o *ai.Obj, shared map[*ai.Obj]string) string {
	seenO, seenS := map[*ai.Obj]bool{}, map[*ai.Sym]bool{}
	var obj func(o *ai.Obj) string
	var val func(v ai.Val) string
	val = func(v ai.Val) string {
		switch x := v.(type) {
		case *ai.PtrV:
			return obj(x.Obj)
		case *ai.SliceV:
			return obj(x.Obj)
		case *ai.MapV:
			return obj(x.Obj)
		case *ai.IfaceV:
			return val(x.V)
		case *ai.Term:
			n := ""
			x.Walk(func(t *ai.Term) bool {
				if n != "" || t.Sym == nil || seenS[t.Sym] {
					return n == ""
				}
				seenS[t.Sym] = true
				if t.Sym.Global != "" {
					n = t.Sym.Global
					return false
				}
				for _, p := range t.Sym.Prov {
					if n = val(p.V); n != "" {
						return false
					}
				}
				return true
			})
			return n
		}
		return ""
	}
	obj = func(o *ai.Obj) string {
		for ; o != nil && !seenO[o]; o = o.From {
			seenO[o] = true
			if n, ok := shared[o]; ok {
				return n
			}
			if o.Kind == ai.OGlobal {
				return o.Label
			}
			for _, m := range o.Merged {
				if n := obj(m); n != "" {
					return n
				}
			}
			if o.Key != nil {
				if n := val(o.Key); n != "" {
					return n
				}
			}
		}
		return ""
	}
	return obj(o)
}

func (c *Check) noGlobalStores(in *ai.Interp, shared map[*ai.Obj]string, entry string) {
	for _, s := range in.Log.Stores {
		o := storeObj(s)
		if o == nil {
			continue
		}
		n := globalOf(o, shared)
		c.Must(n == "", "%s: %s through %s writes to the package-level variable %s", c.P.Pos(s.Instr), s.How, chain(s.Stack), orElse(n, "none"))
	}
	for _, u := range in.Log.Undec {
		c.Note("%s: %s", entry, u)
	}
}

// checkGlobals: nothing reachable from the exported API writes package-level state.
func checkGlobals(c *Check) {
	c.Rule("Abstract interpretation of Parse, Draw of each backend and every other exported function and method with arbitrary arguments: no store, map update, copy, append into spare capacity or delete reaches an object that is a package-level variable or was reachable from one after initialisation.")
	c.Assume = append(c.Assume, "the standard library and the graphics libraries are safe for concurrent use on distinct objects")
	g := c.ParseGeneral()
	c.noGlobalStores(g.In, fromGlobals(g.Base), "Parse")
	n := 1
	for _, b := range backends {
		in, _, _, base := c.DrawRun(b, nil)
		c.noGlobalStores(in, fromGlobals(base), "Draw of "+b)
		n++
	}
	for _, fn := range c.P.exported() {
		if fn.Name() == "Parse" || fn.Name() == "ParseFile" || fn.Name() == "Draw" {
			continue
		}
		in := c.P.Interp()
		st := c.P.Base(in)
		shared := fromGlobals(st)
		var args []ai.Val
		for _, prm := range fn.Params {
			args = append(args, ai.FreshVal(prm.Type(), prm.Name()))
		}
		if _, why := in.Try(st, fn, args); why != "" {
			c.Note("%s: the analysis gives up: %s", fn, why)
		}
		c.noGlobalStores(in, shared, fn.String())
		n++
	}
	c.Cov["entry_points"] = n
}

// exported lists the exported functions and methods of the library packages.
func (p *Program) exported() []*ssa.Function {
	var out []*ssa.Function
	for _, sp := range p.SSA {
		for _, name := range sortedMembers(sp) {
			switch m := sp.Members[name].(type) {
			case *ssa.Function:
				if m.Object() != nil && m.Object().Exported() && len(m.Blocks) > 0 {
					out = append(out, m)
				}
			}
		}
	}
	for _, t := range p.mods {
		nt, ok := t.(*types.Named)
		if !ok {
			continue
		}
		for i := 0; i < nt.NumMethods(); i++ {
			m := nt.Method(i)
			if !m.Exported() {
				continue
			}
			if f := p.Prog.FuncValue(m); f != nil && len(f.Blocks) > 0 {
				out = append(out, f)
			}
		}
	}
	return out
}

func sortedMembers(sp *ssa.Package) []string {
	sc := sp.Pkg.Scope()
	return sc.Names()
}

// checkDrawPure: drawing does not modify the image.
func checkDrawPure(c *Check) {
	c.Rule("Abstract interpretation of Draw of each backend for an arbitrary image: no store, map update, copy, sort, append into spare capacity or delete goes to an object reached through the image passed in.")
	c.Assume = append(c.Assume, "the graphics libraries do not write to the slices passed to them")
	for _, b := range backends {
		in, rets, args, _ := c.DrawRun(b, nil)
		c.Must(len(rets) > 0, "renderer/%s: Draw returns", b)
		for _, u := range in.Log.Undec {
			c.Note("%s: %s", b, u)
		}
		root := keyOf(args[1])
		if root == nil {
			c.Note("%s: the image parameter is not a pointer", b)
			continue
		}
		for _, s := range in.Log.Stores {
			o := storeObj(s)
			bad := false
			for x := o; x != nil; x = x.From {
				if x.Key != nil && (x.Key == root || mentionsTerm(x.Key, root)) {
					bad = true
				}
			}
			c.Must(!bad, "%s: %s through %s writes to the image", c.P.Pos(s.Instr), s.How, chain(s.Stack))
		}
	}
}

func keyOf(v ai.Val) *ai.Term {
	switch x := v.(type) {
	case *ai.PtrV:
		return x.Obj.Key
	case *ai.Term:
		return x
	}
	return nil
}
