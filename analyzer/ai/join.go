package ai

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// joinAtom is one join point value.
type joiner struct {
	in  *Interp
	sts []*State
	out *State
	tag string
	// integer atoms made by the join with the values they stand for
	ints   []intJoin
	bools  []intJoin
	ptrs   []ptrJoin
	epochs map[string]bool
}

type ptrJoin struct {
	atom *Term
	vals []Val
}

type intJoin struct {
	atom *Term
	vals []*Term
}

func sameRef(a, b Val) bool {
	if _, ok := a.(TupleV); ok {
		return false
	}
	if _, ok := b.(TupleV); ok {
		return false
	}
	return a == b
}

func allSame(vs []Val) bool {
	refs := true
	for _, v := range vs[1:] {
		if !sameRef(v, vs[0]) {
			refs = false
			break
		}
	}
	if refs {
		return true
	}
	k := Key(vs[0])
	for _, v := range vs[1:] {
		if !sameRef(v, vs[0]) && Key(v) != k {
			return false
		}
	}
	return true
}

func (j *joiner) prov(t *Term, vs []Val) {
	for i, v := range vs {
		t.Sym.Prov = append(t.Sym.Prov, Prov{Facts: j.sts[i].Facts, V: v})
	}
}

// join returns a value that covers vs, one per state.
func (j *joiner) join(vs []Val, t types.Type, label string) Val {
	if allSame(vs) {
		return vs[0]
	}
	switch x := vs[0].(type) {
	case *StructV:
		ok := true
		for _, v := range vs {
			if y, is := v.(*StructV); !is || len(y.F) != len(x.F) {
				ok = false
			}
		}
		if ok {
			n := &StructV{}
			for i := range x.F {
				var fs []Val
				for _, v := range vs {
					fs = append(fs, v.(*StructV).F[i])
				}
				ft := fieldType(t, i)
				fl := label
				if st, isS := t.Underlying().(*types.Struct); isS {
					fl += "." + st.Field(i).Name()
				}
				n.F = append(n.F, j.join(fs, ft, fl))
			}
			return n
		}
	case *ArrV:
		ok := true
		for _, v := range vs {
			if y, is := v.(*ArrV); !is || len(y.E) != len(x.E) {
				ok = false
			}
		}
		if ok {
			n := &ArrV{}
			et := t.Underlying().(*types.Array).Elem()
			for i := range x.E {
				var fs []Val
				for _, v := range vs {
					fs = append(fs, v.(*ArrV).E[i])
				}
				n.E = append(n.E, j.join(fs, et, label))
			}
			return n
		}
	case TupleV:
		ok := true
		for _, v := range vs {
			if y, is := v.(TupleV); !is || len(y) != len(x) {
				ok = false
			}
		}
		if ok {
			tt, isT := t.(*types.Tuple)
			var n TupleV
			for i := range x {
				var fs []Val
				for _, v := range vs {
					fs = append(fs, v.(TupleV)[i])
				}
				if allSame(fs) {
					n = append(n, fs[0])
					continue
				}
				if !isT {
					panic(unsupported("join of tuples"))
				}
				n = append(n, j.join(fs, tt.At(i).Type(), fmt.Sprintf("%s#%d", label, i)))
			}
			return n
		}
	case *IfaceV:
		ok := true
		for _, v := range vs {
			if y, is := v.(*IfaceV); !is || !types.Identical(y.T, x.T) {
				ok = false
			}
		}
		if ok {
			var fs []Val
			for _, v := range vs {
				fs = append(fs, v.(*IfaceV).V)
			}
			return &IfaceV{T: x.T, V: j.join(fs, x.T, label)}
		}
	case *SliceV:
		ok := true
		for _, v := range vs {
			if _, is := v.(*SliceV); !is {
				ok = false
			}
		}
		if ok {
			return j.joinSlice(vs, t, label)
		}
	case *SeqV:
		return j.joinSeq(vs, label)
	case *MapC:
		n := &MapC{Base: Fresh(KOther, label), KT: x.KT, VT: x.VT, NonNil: true}
		for _, v := range vs {
			y := v.(*MapC)
			n.NonNil = n.NonNil && y.NonNil
			markShared(y)
		}
		j.prov(n.Base, vs)
		return n
	}
	for _, v := range vs {
		markShared(v)
	}
	r := Fresh(KindOf(t), label)
	j.prov(r, vs)
	v := ValOf(r, t)
	rt, isT := v.(*Term)
	if !isT {
		return v
	}
	// the same constant everywhere after all?
	switch rt.Kind {
	case KInt, KBool:
		ij := intJoin{atom: rt}
		for _, x := range vs {
			y, ok := x.(*Term)
			if !ok {
				return v
			}
			ij.vals = append(ij.vals, y)
		}
		if rt.Kind == KInt {
			j.ints = append(j.ints, ij)
		} else {
			j.bools = append(j.bools, ij)
		}
	case KOther:
		if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
			j.ptrs = append(j.ptrs, ptrJoin{rt, vs})
		}
		nn := true
		for i, x := range vs {
			n := j.in.nilness(j.sts[i], x)
			if n == "?" || n == "nil" {
				nn = false
			}
		}
		if nn {
			rt.Sym.NonNil = true
		}
	}
	return v
}

func (j *joiner) joinSlice(vs []Val, t types.Type, label string) Val {
	x := vs[0].(*SliceV)
	sameObj := true
	for _, v := range vs {
		if v.(*SliceV).Obj != x.Obj {
			sameObj = false
		}
	}
	terms := func(f func(*SliceV) *Term, l string) *Term {
		var ts []Val
		for _, v := range vs {
			ts = append(ts, f(v.(*SliceV)))
		}
		return j.join(ts, types.Typ[types.Int], label+l).(*Term)
	}
	if sameObj && x.Obj != nil {
		return &SliceV{Obj: x.Obj, Off: terms(func(s *SliceV) *Term { return s.Off }, "|off"), Len: terms(func(s *SliceV) *Term { return s.Len }, "|len"), Cap: terms(func(s *SliceV) *Term { return s.Cap }, "|cap")}
	}
	// equal contents behind different arrays
	same := true
	var k string
	for i, v := range vs {
		s := v.(*SliceV)
		if s.Obj == nil {
			same = false
			break
		}
		c := Key(j.sts[i].SliceContent(s))
		if i == 0 {
			k = c
		} else if c != k {
			same = false
			break
		}
	}
	if same {
		return vs[0]
	}
	for i, v := range vs {
		if s := v.(*SliceV); s.Obj != nil {
			markShared(j.sts[i].SliceContent(s))
		}
	}
	r := Fresh(KOther, label)
	j.prov(r, vs)
	sv := ValOf(r, t).(*SliceV)
	ij := intJoin{atom: sv.Len}
	for _, v := range vs {
		ij.vals = append(ij.vals, v.(*SliceV).Len)
	}
	j.ints = append(j.ints, ij)
	// content of the same known length: join the elements
	if n, ok := x.Len.IntVal(); ok && n <= maxArr {
		var es [][]Val
		for i, v := range vs {
			s := v.(*SliceV)
			if s.Len != x.Len || s.Obj == nil {
				es = nil
				break
			}
			e, ok := plainElems(j.sts[i].SliceContent(s))
			if !ok || int64(len(e)) != n {
				es = nil
				break
			}
			es = append(es, e)
		}
		if es != nil && n > 0 {
			et := t.Underlying().(*types.Slice).Elem()
			sq := &SeqV{Elem: et}
			var els []Val
			for p := int64(0); p < n; p++ {
				var fs []Val
				for _, e := range es {
					fs = append(fs, e[p])
				}
				els = append(els, j.join(fs, et, fmt.Sprintf("%s[%d]", label, p)))
			}
			sq.Segs = []Seg{{Elems: els}}
			o := newObj(OAlloc, et, label)
			o.IsSeq = true
			for _, v := range vs {
				o.Merged = append(o.Merged, v.(*SliceV).Obj)
			}
			j.out.Heap[o] = sq
			return &SliceV{Obj: o, Off: Int(0), Len: x.Len, Cap: x.Len}
		}
	}
	nn := true
	for i, v := range vs {
		s := v.(*SliceV)
		if s.Obj == nil {
			nn = false
		} else if s.Obj.Kind == OSym {
			if d, ok := j.sts[i].Facts.Decide(App(KBool, "isnil", s.Obj.Key)); !ok || d {
				nn = false
			}
		}
	}
	r.Sym.NonNil = nn
	return sv
}

func (j *joiner) joinSeq(vs []Val, label string) Val {
	x := vs[0].(*SeqV)
	var es [][]Val
	for _, v := range vs {
		markShared(v)
		if e, ok := plainElems(v.(*SeqV)); ok && es != nil || ok && len(es) == 0 {
			es = append(es, e)
		}
	}
	if len(es) == len(vs) {
		n := len(es[0])
		same := true
		for _, e := range es {
			if len(e) != n {
				same = false
			}
		}
		if same && n <= maxArr {
			var els []Val
			for p := 0; p < n; p++ {
				var fs []Val
				for _, e := range es {
					fs = append(fs, e[p])
				}
				els = append(els, j.join(fs, x.Elem, label))
			}
			return &SeqV{Elem: x.Elem, Segs: []Seg{{Elems: els}}}
		}
	}
	var ts []Val
	for _, v := range vs {
		ts = append(ts, v.(*SeqV).total())
	}
	b := Fresh(KOther, label)
	j.prov(b, vs)
	return &SeqV{Elem: x.Elem, Segs: []Seg{{Base: b, Off: Int(0), Len: j.join(ts, types.Typ[types.Int], label+"|total").(*Term)}}}
}

// joinStates merges states; rets, if given, are merged along.
func (in *Interp) joinStates(sts []*State, regs map[ssa.Value]bool, rets []Val, retT types.Type, tag string) (*State, Val) {
	j := &joiner{in: in, sts: sts, tag: tag, epochs: map[string]bool{}}
	out := &State{Regs: map[ssa.Value]Val{}, Heap: map[*Obj]Val{}, Ghost: map[string]Val{}, Facts: NewFacts(), Defers: sts[0].Defers}
	for _, s := range sts {
		if s.Unsure != "" {
			out.Unsure = s.Unsure
		}
	}
	j.out = out
	for _, s := range sts {
		if len(s.Defers) != len(out.Defers) {
			panic(unsupported("conditional defer"))
		}
	}
	// registers
	var vs []ssa.Value
	for v := range sts[0].Regs {
		if regs != nil && !regs[v] {
			continue
		}
		vs = append(vs, v)
	}
	sort.Slice(vs, func(a, b int) bool { return vs[a].Name() < vs[b].Name() })
	for _, v := range vs {
		var xs []Val
		for _, s := range sts {
			x, ok := s.Regs[v]
			if !ok {
				xs = nil
				break
			}
			xs = append(xs, x)
		}
		if xs == nil {
			continue
		}
		out.Regs[v] = j.join(xs, v.Type(), v.Name())
	}
	// ghosts, epochs first
	names := map[string]bool{}
	for _, s := range sts {
		for n := range s.Ghost {
			names[n] = true
		}
	}
	for n := range names {
		var xs []Val
		missing := false
		for _, s := range sts {
			x, ok := s.Ghost[n]
			if !ok {
				missing = true
				x = Int(0)
			}
			xs = append(xs, x)
		}
		if strings.HasPrefix(n, "!epoch:") {
			if missing || !allSame(xs) {
				out.Ghost[n] = Fresh(KInt, "epoch")
				j.epochs[n] = true
			} else {
				out.Ghost[n] = xs[0]
			}
			continue
		}
		if strings.HasPrefix(n, "!") {
			if !missing && allSame(xs) {
				out.Ghost[n] = xs[0]
			} else if n == "!pend" {
				for _, s := range sts {
					if x, ok := s.Ghost[n]; ok {
						out.Ghost[n] = x
					}
				}
			}
			continue
		}
		if t, ok := xs[0].(*Term); ok && t.Kind == KInt {
			out.Ghost[n] = j.join(xs, types.Typ[types.Int], n)
		} else if !missing && allSame(xs) {
			out.Ghost[n] = xs[0]
		}
	}
	// heap
	objs := map[*Obj]Val{}
	for _, s := range sts {
		for o := range s.Heap {
			objs[o] = nil
		}
	}
	for _, o := range sortedObjs(objs) {
		if o.Kind == OSym && !o.IsSeq && !o.IsMap && j.epochs[epochKey(o.T)] {
			// known only if every state says so
			all := true
			for _, s := range sts {
				if _, ok := s.Heap[o]; !ok {
					all = false
				}
			}
			if !all {
				continue
			}
		}
		var xs []Val
		var idx []int
		for i, s := range sts {
			x, ok := s.Heap[o]
			if !ok {
				if o.Kind == OAlloc {
					continue // not allocated there
				}
				x = s.Content(o)
			}
			xs = append(xs, x)
			idx = append(idx, i)
		}
		if len(idx) == len(sts) {
			out.Heap[o] = j.join(xs, o.T, o.Label)
			continue
		}
		if allSame(xs) {
			out.Heap[o] = xs[0]
			continue
		}
		sub := &joiner{in: in, out: out, epochs: j.epochs}
		for _, i := range idx {
			sub.sts = append(sub.sts, sts[i])
		}
		out.Heap[o] = sub.join(xs, o.T, o.Label)
	}
	var ret Val
	if rets != nil {
		if rets[0] != nil {
			ret = j.join(rets, retT, "ret")
		}
	}
	j.facts()
	out.Evs = joinEvs(sts)
	return out, ret
}

// facts keeps what holds in every state.
func (j *joiner) facts() {
	f := NewFacts()
	first := j.sts[0].Facts
	for _, l := range first.Seq {
		if v, ok := first.Lits[l.T]; !ok || v != l.Val {
			continue
		}
		all := true
		for _, s := range j.sts[1:] {
			v, ok := s.Facts.Lits[l.T]
			if !ok {
				if l.T.Op != "ge0" && l.T.Op != "eq0" {
					v, ok = s.Facts.Decide(l.T)
				}
			}
			if !ok || v != l.Val {
				all = false
				break
			}
		}
		if all {
			f.Lits[l.T] = l.Val
			f.Seq = append(f.Seq, l)
		}
	}
	tries := 0
	seen := map[*Term]bool{}
	for _, s := range j.sts {
		for _, p := range s.Facts.Lin {
			if seen[p] {
				continue
			}
			seen[p] = true
			all := true
			for _, o := range j.sts {
				if o == s {
					continue
				}
				has := false
				for _, q := range o.Facts.Lin {
					if q == p {
						has = true
						break
					}
				}
				if !has {
					tries++
					if tries > 400 || !o.Facts.Prove(p) {
						all = false
						break
					}
				}
			}
			if all {
				f.addLin(p)
			}
		}
	}
	for _, im := range first.Imp {
		all := true
		for _, s := range j.sts[1:] {
			has := false
			for _, o := range s.Facts.Imp {
				if o == im {
					has = true
				}
			}
			if !has {
				// vacuous or already true there
				if v, ok := s.Facts.Decide(im.If); ok && v != im.IfVal {
					has = true
				} else if v, ok := s.Facts.Decide(im.Then); ok && v == im.ThenVal {
					has = true
				}
			}
			if !has {
				all = false
				break
			}
		}
		if all {
			f.Imp = append(f.Imp, im)
		}
	}
	// bounds of joined integers
	try := func(p func(i int) *Term, atom *Term) {
		for i, s := range j.sts {
			if !s.Facts.Prove(p(i)) {
				return
			}
		}
		f.addLin(atom)
	}
	if len(j.ints) <= 40 {
		for n, ij := range j.ints {
			ij := ij
			var lo, hi *Term
			allC := true
			for _, v := range ij.vals {
				c, ok := v.IntVal()
				if !ok {
					allC = false
					continue
				}
				if lo == nil || c < mustInt(lo) {
					lo = Int(c)
				}
				if hi == nil || c > mustInt(hi) {
					hi = Int(c)
				}
			}
			if allC {
				f.addLin(Sub(ij.atom, lo))
				f.addLin(Sub(hi, ij.atom))
			} else {
				for _, c := range []int64{1, 0, -1} {
					c := c
					k := len(f.Lin)
					try(func(i int) *Term { return AddInt(ij.vals[i], -c) }, AddInt(ij.atom, -c))
					if len(f.Lin) > k {
						break
					}
				}
			}
			// relative to the value in each state, if that is meaningful in all of them
			done := map[*Term]bool{}
			for _, v := range ij.vals {
				if v.IsConst() || done[v] || len(done) > 6 {
					continue
				}
				done[v] = true
				try(func(i int) *Term { return Sub(ij.vals[i], v) }, Sub(ij.atom, v))
				try(func(i int) *Term { return Sub(v, ij.vals[i]) }, Sub(v, ij.atom))
			}
			for m := 0; m < n && m < 12; m++ {
				o := j.ints[m]
				if len(o.vals) != len(ij.vals) {
					continue
				}
				d := Sub(ij.vals[0], o.vals[0])
				if !d.IsConst() {
					d = Int(0)
				}
				try(func(i int) *Term { return Sub(Sub(ij.vals[i], o.vals[i]), d) }, Sub(Sub(ij.atom, o.atom), d))
				try(func(i int) *Term { return Sub(d, Sub(ij.vals[i], o.vals[i])) }, Sub(d, Sub(ij.atom, o.atom)))
			}
		}
	}
	j.out.Facts = f
	// correlations with joined flags
	for _, b := range j.bools {
		for _, val := range []bool{true, false} {
			var in []int
			for i, v := range b.vals {
				d, ok := j.sts[i].Facts.Decide(v)
				if !ok || d == val {
					in = append(in, i)
				}
			}
			if len(in) == 0 {
				continue
			}
			for _, pj := range j.ptrs {
				if pj.atom.Sym.NonNil {
					continue
				}
				ok := true
				for _, i := range in {
					fs, feasible := j.sts[i].Facts.Assume(b.vals[i], val)
					if !feasible {
						continue
					}
					if n := j.in.nilness(&State{Facts: fs}, pj.vals[i]); n == "?" || n == "nil" {
						ok = false
						break
					}
				}
				if ok {
					f = f.WithImp(Impl{If: b.atom, IfVal: val, Then: App(KBool, "isnil", pj.atom), ThenVal: false})
				}
			}
			for _, ij := range j.ints {
				for _, c := range []int64{0, 1} {
					if c == 0 && len(in) == len(j.sts) {
						continue
					}
					if f.Prove(AddInt(ij.atom, -c)) {
						continue
					}
					ok := true
					for _, i := range in {
						fs := j.sts[i].Facts
						p := AddInt(ij.vals[i], -c)
						if fs.Prove(p) {
							continue
						}
						g, feasible := fs.Assume(b.vals[i], val)
						if feasible && (g == fs || !g.Prove(p)) {
							ok = false
							break
						}
					}
					if ok && !f.Prove(AddInt(ij.atom, -c)) {
						f = f.WithImp(Impl{If: b.atom, IfVal: val, Then: Ge0(AddInt(ij.atom, -c)), ThenVal: true})
					}
				}
			}
		}
	}
	j.out.Facts = f
}

func mustInt(t *Term) int64 { n, _ := t.IntVal(); return n }

func joinEvs(sts []*State) *EvList {
	// common prefix
	same := true
	for _, s := range sts[1:] {
		if s.Evs != sts[0].Evs {
			same = false
		}
	}
	if same {
		return sts[0].Evs
	}
	ptrs := make([]*EvList, len(sts))
	for i, s := range sts {
		ptrs[i] = s.Evs
	}
	n := func(l *EvList) int {
		if l == nil {
			return 0
		}
		return l.N
	}
	for {
		min := n(ptrs[0])
		eq := true
		for _, p := range ptrs {
			if p != ptrs[0] {
				eq = false
			}
			if n(p) < min {
				min = n(p)
			}
		}
		if eq {
			break
		}
		moved := false
		for i := range ptrs {
			for n(ptrs[i]) > min {
				ptrs[i] = ptrs[i].Prev
				moved = true
			}
		}
		if !moved {
			for i := range ptrs {
				ptrs[i] = ptrs[i].Prev
			}
		}
	}
	base := ptrs[0]
	alt := &Ev{Kind: "alt"}
	for _, s := range sts {
		a := &EvAlt{Facts: s.Facts, State: s}
		// the part after the common prefix
		var evs []*Ev
		for l := s.Evs; l != base; l = l.Prev {
			evs = append(evs, l.E)
		}
		var nl *EvList
		for i := len(evs) - 1; i >= 0; i-- {
			k := 1
			if nl != nil {
				k = nl.N + 1
			}
			nl = &EvList{Prev: nl, E: evs[i], N: k}
		}
		a.Evs = nl
		alt.Alts = append(alt.Alts, a)
	}
	return &EvList{Prev: base, E: alt, N: n(base) + 1}
}

func ghostClass(s *State) string {
	c := ""
	for _, g := range []string{"!pend", "!tok"} {
		if v, ok := s.Ghost[g]; ok {
			c += "|" + g + Key(v)
		}
	}
	return c
}

func liveAt(fr *frame, b *ssa.BasicBlock) map[ssa.Value]bool {
	live := map[ssa.Value]bool{}
	for v := range fr.info.live[b] {
		live[v] = true
	}
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		live[p] = true
	}
	return live
}

// mergeFloats merges the states that differ in floating point values only.
func (in *Interp) mergeFloats(fr *frame, b *ssa.BasicBlock, as []arrival) []arrival {
	live := liveAt(fr, b)
	var groups [][]arrival
next:
	for _, a := range as {
		in.evalPhis(a)
		a.prev = nil
		for i, g := range groups {
			if floatsApart(g[0].st, a.st, live) {
				groups[i] = append(g, a)
				continue next
			}
		}
		groups = append(groups, []arrival{a})
	}
	var out []arrival
	for _, g := range groups {
		if len(g) == 1 {
			out = append(out, g[0])
			continue
		}
		var sts []*State
		for _, a := range g {
			sts = append(sts, a.st)
		}
		s, _ := in.joinStates(sts, live, nil, nil, "join")
		out = append(out, arrival{nil, b, s})
	}
	return out
}

// floatsApart tells whether two states differ in floating point values only.
func floatsApart(x, y *State, live map[ssa.Value]bool) bool {
	if x.Evs != y.Evs || len(x.Defers) != len(y.Defers) || ghostClass(x) != ghostClass(y) {
		return false
	}
	for k, v := range x.Ghost {
		w, ok := y.Ghost[k]
		if !ok || Key(v) != Key(w) {
			return false
		}
	}
	if len(x.Ghost) != len(y.Ghost) {
		return false
	}
	// what separates the states must be floating point comparisons
	fx, fy := x.Facts.Seq, y.Facts.Seq
	n := 0
	for n < len(fx) && n < len(fy) && fx[n] == fy[n] {
		n++
	}
	for _, q := range [][]Lit{fx[n:], fy[n:]} {
		for _, l := range q {
			if l.T.Op != "feq" && l.T.Op != "flt" && l.T.Op != "fle" {
				return false
			}
		}
	}
	for r := range live {
		a, ok1 := x.Regs[r]
		b, ok2 := y.Regs[r]
		if ok1 != ok2 || !floatDiff(a, b) {
			return false
		}
	}
	for o, a := range x.Heap {
		b, ok := y.Heap[o]
		if !ok {
			if o.Kind == OAlloc {
				return false
			}
			continue
		}
		if !floatDiff(a, b) {
			return false
		}
	}
	for o := range y.Heap {
		if _, ok := x.Heap[o]; !ok && o.Kind == OAlloc {
			return false
		}
	}
	return true
}

func floatDiff(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && (x == y || x.Kind == KFloat && y.Kind == KFloat)
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.F {
			if !floatDiff(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case *ArrV:
		y, ok := b.(*ArrV)
		if !ok || len(x.E) != len(y.E) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.E {
			if !floatDiff(x.E[i], y.E[i]) {
				return false
			}
		}
		return true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !floatDiff(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return sameRef(a, b)
}

func (in *Interp) mergeArrivals(fr *frame, b *ssa.BasicBlock, as []arrival) []arrival {
	groups := map[string][]*State{}
	var order []string
	live := liveAt(fr, b)
	// function values decide what is called next: never merge them
	var fns []ssa.Value
	for v := range live {
		if hasFunc(v.Type()) {
			fns = append(fns, v)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	for _, a := range as {
		in.evalPhis(a)
		k := ghostClass(a.st)
		for _, v := range fns {
			k += "|" + in.funcClass(a.st, a.st.Regs[v])
		}
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], a.st)
	}
	var out []arrival
	for _, k := range order {
		g := groups[k]
		s := g[0]
		if len(g) > 1 {
			s, _ = in.joinStates(g, live, nil, nil, "join")
		}
		out = append(out, arrival{nil, b, s})
	}
	return out
}

// hasFunc tells whether values of type t are, or directly hold, functions.
func hasFunc(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Signature:
		return true
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasFunc(u.At(i).Type()) {
				return true
			}
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasFunc(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (in *Interp) funcClass(st *State, v Val) string {
	switch x := v.(type) {
	case *FuncV:
		return Key(x)
	case TupleV:
		s := "("
		for _, y := range x {
			s += in.funcClass(st, y) + ","
		}
		return s + ")"
	case *StructV:
		s := "{"
		for _, y := range x.F {
			s += in.funcClass(st, y) + ","
		}
		return s + "}"
	case *Term:
		if x.Kind == KOther {
			return in.nilness(st, x)
		}
		if x.Kind == KBool && x.IsConst() {
			return Key(x)
		}
	}
	return ""
}

func (in *Interp) mergeRets(fr *frame, g []RetState) RetState {
	var sts []*State
	var rets []Val
	for _, r := range g {
		sts = append(sts, r.St)
		rets = append(rets, r.Ret)
	}
	var t types.Type
	rs := fr.fn.Signature.Results()
	switch rs.Len() {
	case 0:
	case 1:
		t = rs.At(0).Type()
	default:
		t = rs
	}
	s, r := in.joinStates(sts, nil, rets, t, "ret of "+fr.fn.Name())
	return RetState{s, r}
}
