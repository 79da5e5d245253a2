package ai

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// RecRes describes a recursive function.
type RecRes struct {
	Fn     *ssa.Function
	Stack  []string
	Ranked string
	Calls  int
}

type recCall struct {
	st    *State
	instr ssa.Instruction
}

type recInfo struct {
	calls []recCall
	sum   *recSum
	found bool
}

// recSum is what is assumed about a recursive call.
type recSum struct {
	effects map[string]*leaf
	order   []string
	cands   []*effCand
	dead    map[string]bool
	known   map[string]bool
	epochs  map[string]bool
	classes map[string]*recClass
	corder  []string
}

type recClass struct {
	ret  Val
	pend Val
}

// effCand relates values before and after the call.
type effCand struct {
	name  string
	holds func(pre, post func(string) Val, f *Facts) bool
	facts func(pre, post func(string) Val) []*Term // >= 0
	after func(st *State, pre, post func(string) Val)
}

func (in *Interp) recursiveCall(f *frame, st *State, args []Val, instr ssa.Instruction) []RetState {
	f.rec.found = true
	c := st.Clone()
	c.Regs = map[ssa.Value]Val{}
	for i, p := range f.fn.Params {
		c.Regs[p] = args[i]
	}
	f.rec.calls = append(f.rec.calls, recCall{c, instr})
	if f.rec.sum == nil {
		return nil
	}
	s := f.rec.sum
	var out []RetState
	for _, k := range s.corder {
		cl := s.classes[k]
		n := st.Clone()
		pre := map[string]Val{}
		post := map[string]Val{}
		for _, ek := range s.order {
			l := s.effects[ek]
			v := l.at(st)
			if v == nil {
				continue
			}
			pre[ek] = v
			if l.kind != "" {
				l2 := *l
				l2.entry = v
				post[ek] = l2.fresh("rec:")
			} else {
				post[ek] = l.fresh("rec:")
			}
			l.put(n, post[ek])
		}
		for ek := range s.epochs {
			t := epochTypes[ek]
			n.Ghost[ek] = Fresh(KInt, "epoch")
			for o := range n.Heap {
				if (o.Kind == OSym || o.Shared) && !o.IsSeq && !o.IsMap && types.Identical(o.T, t) {
					if o.Kind == OSym {
						delete(n.Heap, o)
					} else {
						n.Heap[o] = FreshVal(o.T, "shared")
					}
				}
			}
		}
		g1 := func(k string) Val { return pre[k] }
		g2 := func(k string) Val { return post[k] }
		for _, ec := range s.cands {
			if ec.facts != nil {
				for _, p := range ec.facts(g1, g2) {
					n.Facts = n.Facts.WithLin(p)
				}
			}
			if ec.after != nil {
				ec.after(n, g1, g2)
			}
		}
		if cl.pend != nil {
			n.Ghost["!pend"] = cl.pend
		}
		n.Add(&Ev{Kind: "rec", Name: f.fn.String(), Args: args, Instr: instr, Facts: st.Facts, Stack: in.StackNames()})
		out = append(out, RetState{n, in.template(cl.ret, f.fn.Signature.Results())})
	}
	return out
}

// template makes a fresh result of the same class.
func (in *Interp) template(v Val, t types.Type) Val {
	if tup, ok := t.(*types.Tuple); ok {
		if tup.Len() == 0 {
			return nil
		}
		if tup.Len() == 1 {
			t = tup.At(0).Type()
		} else {
			var out TupleV
			for i, x := range v.(TupleV) {
				out = append(out, in.template(x, tup.At(i).Type()))
			}
			return out
		}
	}
	switch x := v.(type) {
	case *Term:
		if x.IsConst() && x.Kind != KFloat || x.Op == "nil" {
			return x
		}
		if x.Kind == KOther {
			r := FreshVal(t, "recret")
			if rt, ok := r.(*Term); ok && x.Sym != nil && x.Sym.NonNil {
				rt.Sym.NonNil = true
			}
			return r
		}
	case *IfaceV, *PtrV:
		r := FreshVal(t, "recret")
		if rt, ok := r.(*Term); ok && rt.Sym != nil {
			rt.Sym.NonNil = true
		}
		return r
	}
	return FreshVal(t, "recret")
}

func (s *recSum) propose() {
	add := func(c *effCand) {
		if s.known[c.name] || s.dead[c.name] {
			return
		}
		s.known[c.name] = true
		s.cands = append(s.cands, c)
	}
	iv := func(get func(string) Val, k string) *Term {
		v := get(k)
		if v == nil {
			return nil
		}
		t, _ := intOf(v)
		return t
	}
	lin := func(name string, f func(pre, post func(string) Val) *Term) {
		add(&effCand{name: name, holds: func(pre, post func(string) Val, fs *Facts) bool {
			p := f(pre, post)
			return p == nil || fs.Prove(p)
		}, facts: func(pre, post func(string) Val) []*Term {
			if p := f(pre, post); p != nil {
				return []*Term{p}
			}
			return nil
		}})
	}
	var ints []string
	for _, k := range s.order {
		k := k
		l := s.effects[k]
		switch l.kind {
		case "map":
			add(&effCand{name: k + " map", holds: func(pre, post func(string) Val, fs *Facts) bool {
				a, ok1 := pre(k).(*MapC)
				b, ok2 := post(k).(*MapC)
				return ok1 && ok2 && (!a.NonNil || b.NonNil)
			}})
			continue
		case "seq":
			continue
		}
		if _, ok := intOf(Zero(l.t)); ok {
			ints = append(ints, k)
			lin(k+" up", func(pre, post func(string) Val) *Term {
				a, b := iv(pre, k), iv(post, k)
				if a == nil || b == nil {
					return nil
				}
				return Sub(b, a)
			})
			lin(k+" down", func(pre, post func(string) Val) *Term {
				a, b := iv(pre, k), iv(post, k)
				if a == nil || b == nil {
					return nil
				}
				return Sub(a, b)
			})
			lin(k+" nonneg", func(pre, post func(string) Val) *Term { return iv(post, k) })
		}
		if KindOf(l.t) == KOther {
			lit := func(v Val) *Term {
				if t, ok := v.(*Term); ok {
					return App(KBool, "isnil", t)
				}
				return nil
			}
			_ = lit
			add(&effCand{name: k + " stays non-nil", holds: func(pre, post func(string) Val, fs *Facts) bool {
				st := &State{Facts: fs}
				in := &Interp{}
				n := in.nilness(st, post(k))
				if n != "?" && n != "nil" {
					return true
				}
				// it may be nil only if it was
				if p := lit(pre(k)); p != nil {
					if v, ok := fs.Decide(p); ok && v {
						return true
					}
				}
				return false
			}, after: func(st *State, pre, post func(string) Val) {
				p := pre(k)
				in := &Interp{}
				n := in.nilness(st, p)
				if n == "?" || n == "nil" {
					return
				}
				if t, ok := post(k).(*Term); ok {
					if f, ok := st.Facts.Assume(App(KBool, "isnil", t), false); ok {
						st.Facts = f
					}
				}
			}})
		}
	}
	// a flag that vouches for a pointer or a non-empty slice still does afterwards
	for _, fk := range s.order {
		if s.effects[fk].kind != "" || KindOf(s.effects[fk].t) != KBool {
			continue
		}
		for _, p := range s.order {
			l := s.effects[p]
			if l.kind != "" {
				continue
			}
			_, isSlice := l.t.Underlying().(*types.Slice)
			_, isPtr := l.t.Underlying().(*types.Pointer)
			if !isSlice && !isPtr {
				continue
			}
			for _, fv := range []bool{true, false} {
				fk, p, fv := fk, p, fv
				c := &cand{flag: fk, fval: fv}
				if isPtr {
					c.nn = p
				} else {
					c.lin = func(get func(string) Val) (*Term, bool) {
						x := iv(get, p)
						if x == nil {
							return nil, false
						}
						return AddInt(x, -1), true
					}
				}
				in := &Interp{}
				add(&effCand{name: fmt.Sprintf("%s=%v->%s", fk, fv, p),
					holds: func(pre, post func(string) Val, fs *Facts) bool {
						return c.holds(in, &State{Facts: fs}, post)
					},
					after: func(st *State, pre, post func(string) Val) {
						if c.holds(in, st, pre) {
							c.assume(st, post)
						}
					}})
			}
		}
	}
	for i, k := range ints {
		for _, m := range ints[i+1:] {
			k, m := k, m
			d := func(pre, post func(string) Val) *Term {
				a, b, c, e := iv(pre, k), iv(post, k), iv(pre, m), iv(post, m)
				if a == nil || b == nil || c == nil || e == nil {
					return nil
				}
				return Sub(Sub(b, e), Sub(a, c))
			}
			lin(k+"-"+m+" up", d)
			lin(k+"-"+m+" down", func(pre, post func(string) Val) *Term {
				if t := d(pre, post); t != nil {
					return Neg(t)
				}
				return nil
			})
		}
	}
}

func (in *Interp) solveRec(fr *frame, st *State, args, bind []Val) []RetState {
	e := st.Clone()
	e.Regs = map[ssa.Value]Val{}
	for i, p := range fr.fn.Params {
		e.Regs[p] = args[i]
	}
	g := newGen()
	sum := &recSum{effects: map[string]*leaf{}, dead: map[string]bool{}, known: map[string]bool{}, epochs: map[string]bool{}, classes: map[string]*recClass{}}
	fr.rec.sum = sum
	save := in.Log
	defer func() { in.Log = save }()
	const maxPass = 40
	for pass := 1; ; pass++ {
		h := g.header(in, e, "in:")
		g.propose(in, e)
		for _, c := range g.cands {
			c.assume(h, func(k string) Val { return g.leaves[k].rep })
		}
		mark := symCount
		log := &Log{}
		in.Log = log
		fr.rec.calls = nil
		var hargs []Val
		for _, p := range fr.fn.Params {
			hargs = append(hargs, h.Regs[p])
		}
		sum.propose()
		outs := in.runBody(fr, h, hargs, bind)
		var backs []*State
		for _, c := range fr.rec.calls {
			backs = append(backs, c.st)
		}
		var slots []slot
		for _, p := range fr.fn.Params {
			slots = append(slots, regSlot(p))
		}
		slots = append(slots, in.heapSlots(h, backs, mark)...)
		changed := in.update(fr, g, nil, slots, e, h, backs)
		// effects
		var posts []*State
		for _, o := range outs {
			posts = append(posts, o.St)
		}
		hs := in.heapSlots(h, posts, mark)
		for _, o := range outs {
			for k, v := range o.St.Ghost {
				if strings.HasPrefix(k, "!epoch:") && !sum.epochs[k] && (h.Ghost[k] == nil || Key(h.Ghost[k]) != Key(v)) {
					sum.epochs[k] = true
					changed = true
				}
			}
			for _, sl := range hs {
				if sl.obj != nil && (sl.obj.Kind == OSym || sl.obj.Shared) && !sl.obj.IsSeq && !sl.obj.IsMap && sum.epochs[epochKey(sl.obj.T)] {
					continue
				}
				diff(sl, h, o.St, func(l *leaf, hv, bv Val) {
					markShared(hv)
					markShared(bv)
					if sum.effects[l.key] != nil {
						return
					}
					l.entry = hv
					sum.effects[l.key] = l
					sum.order = append(sum.order, l.key)
					sort.Strings(sum.order)
					changed = true
				})
			}
			k := in.class(o.St, o.Ret)
			pend := o.St.Ghost["!pend"]
			if h.Ghost["!pend"] != nil {
				pend = nil
			}
			if pend != nil {
				k += "|pend"
			}
			if sum.classes[k] == nil {
				sum.classes[k] = &recClass{ret: o.Ret, pend: pend}
				sum.corder = append(sum.corder, k)
				changed = true
			}
		}
		// effect candidates
		var kept []*effCand
		for _, c := range sum.cands {
			ok := true
			for _, o := range outs {
				pre := func(k string) Val { return sum.effects[k].at(h) }
				post := func(k string) Val { return sum.effects[k].at(o.St) }
				if !c.holds(pre, post, o.St.Facts) {
					ok = false
					break
				}
			}
			if ok {
				kept = append(kept, c)
			} else {
				sum.dead[c.name] = true
				changed = true
			}
		}
		sum.cands = kept
		if changed && pass < maxPass {
			continue
		}
		in.Log = save
		if changed {
			in.undecided("recursion of %s did not stabilise", fr.fn)
		}
		in.Log.addAll(log)
		r := &RecRes{Fn: fr.fn, Stack: append(in.StackNames(), fr.fn.String()), Calls: len(backs)}
		r.Ranked = rankRec(g, h, backs)
		in.Log.Recs = append(in.Log.Recs, r)
		if in.Debug {
			fmt.Fprintf(os.Stderr, "rec %s: %d passes, %d leaves, %d effects %v, ranked %q\n", fr.fn.Name(), pass, len(g.order), len(sum.order), sum.corder, r.Ranked)
		}
		break
	}
	fr.rec.calls = nil
	return in.runBody(fr, st, args, bind)
}

// rankRec finds an integer that moves towards a constant bound with each recursive call.
func rankRec(g *genSet, h *State, calls []*State) string {
	for _, k := range g.intKeys() {
		l := g.leaves[k]
		x, ok := l.rep.(*Term)
		if !ok || x.Kind != KInt {
			continue
		}
		up, down := true, true
		for _, c := range calls {
			y, ok := l.at(c).(*Term)
			if !ok {
				up, down = false, false
				break
			}
			if !c.Facts.Prove(AddInt(Sub(y, x), -1)) || !c.Facts.Prove(Sub(Int(1<<20), x)) {
				up = false
			}
			if !c.Facts.Prove(AddInt(Sub(x, y), -1)) || !c.Facts.Prove(Add(Int(1<<20), x)) {
				down = false
			}
		}
		if up {
			return l.label() + " grows with every call and is bounded"
		}
		if down {
			return l.label() + " shrinks with every call and is bounded"
		}
	}
	return ""
}
