package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// LoopRes describes a solved loop.
type LoopRes struct {
	Fn     *ssa.Function
	Head   *ssa.BasicBlock
	Stack  []string
	Entry  *State
	H      *State
	Backs  []*State
	Leaves []*LeafInfo
	Ranked string // why it terminates; empty if unknown
	Tokens bool
	Passes int
	fr     *frame
	L      *loop
}

// LeafInfo tells how a location is represented in the header state.
type LeafInfo struct {
	Label string
	Rep   Val
	l     *leaf
}

// Pos is a position inside of the loop.
func (l *LoopRes) Pos() token.Pos {
	for _, i := range l.Head.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	for b := range l.L.body {
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	return l.Fn.Pos()
}

type activeLoop struct {
	L      *loop
	tokens bool
}

func (in *Interp) noteTokenLoop() {
	for i := len(in.stack) - 1; i >= 0; i-- {
		if n := len(in.stack[i].active); n > 0 {
			in.stack[i].active[n-1].tokens = true
			return
		}
	}
}

// constHeader evaluates the header of a counting loop; ok is false if its branch is not a constant.
func (in *Interp) constHeader(fr *frame, L *loop, st *State) (ok bool) {
	last, isIf := L.head.Instrs[len(L.head.Instrs)-1].(*ssa.If)
	if !isIf || L.body[L.head.Succs[0]] == L.body[L.head.Succs[1]] {
		return false
	}
	for _, ins := range L.head.Instrs {
		switch x := ins.(type) {
		case *ssa.Call:
			if b, isB := x.Call.Value.(*ssa.Builtin); !isB || b.Name() != "len" {
				return false
			}
		case *ssa.Next:
			return false
		}
	}
	save := in.Log
	in.Log = &Log{}
	defer func() { in.Log = save }()
	cur := []*State{st.Clone()}
	for _, ins := range L.head.Instrs[:len(L.head.Instrs)-1] {
		if _, isPhi := ins.(*ssa.Phi); isPhi {
			continue
		}
		var next []*State
		for _, s := range cur {
			next = append(next, in.stepInstr(fr, s, ins)...)
		}
		cur = next
	}
	if len(cur) == 0 {
		return false
	}
	for _, s := range cur {
		c, isT := in.Get(s, last.Cond).(*Term)
		if !isT || !c.IsConst() {
			return false
		}
	}
	return true
}

const maxUnroll = 40

func (in *Interp) solveLoop(fr *frame, L *loop, a arrival) []outcome {
	in.evalPhis(a)
	a.prev = nil
	if fr.info.irred {
		in.undecided("irreducible control flow")
	}
	if in.Opt.Unroll {
		if outs, ok := in.follow(fr, L, a); ok {
			return outs
		}
	}
	// counting loops with constant bounds
	var outs []outcome
	cur := []arrival{a}
	for it := 0; it < maxUnroll && len(cur) > 0; it++ {
		var next []arrival
		done := true
		for _, x := range cur {
			if !in.constHeader(fr, L, x.st) {
				next = append(next, x)
				continue
			}
			done = false
			for _, o := range in.runScope(fr, L, []arrival{x}) {
				if o.kind != outBack {
					outs = append(outs, o)
					continue
				}
				b := arrival{prev: o.prev, b: L.head, st: o.st}
				in.evalPhis(b)
				b.prev = nil
				next = append(next, b)
			}
		}
		cur = next
		if done {
			break
		}
		if len(cur) > in.Opt.BlockCap {
			cur = in.mergeArrivals(fr, L.head, cur)
		}
	}
	if len(cur) > in.Opt.LoopCap {
		cur = in.mergeArrivals(fr, L.head, cur)
	}
	for _, x := range cur {
		outs = append(outs, in.fixLoop(fr, L, x)...)
	}
	return outs
}

// follow interprets a loop iteration by iteration. It gives up, without a trace, if the
// number of iterations turns out to depend on unknown values.
func (in *Interp) follow(fr *frame, L *loop, a arrival) (outs []outcome, ok bool) {
	save := in.Log
	in.Log = &Log{}
	act := &activeLoop{L: L}
	fr.active = append(fr.active, act)
	defer func() {
		fr.active = fr.active[:len(fr.active)-1]
		if ok {
			save.addAll(in.Log)
		}
		in.Log = save
	}()
	cur := []arrival{{nil, L.head, a.st.Clone()}}
	forks := 0
	for it := 0; len(cur) > 0; it++ {
		if it > 6000 {
			return nil, false
		}
		var next []arrival
		for _, x := range cur {
			backs, exits := 0, 0
			for _, o := range in.runScope(fr, L, []arrival{x}) {
				if o.kind != outBack {
					if o.kind == outExit {
						exits++
					}
					outs = append(outs, o)
					continue
				}
				backs++
				b := arrival{prev: o.prev, b: L.head, st: o.st}
				in.evalPhis(b)
				b.prev = nil
				next = append(next, b)
			}
			if backs > 0 && exits > 0 || backs > 1 {
				forks++
				if forks > 12 {
					return nil, false
				}
			}
		}
		cur = next
		if len(cur) > in.Opt.BlockCap {
			return nil, false
		}
	}
	return outs, true
}

func (in *Interp) slots(L *loop, h *State, others []*State, mark int) []slot {
	var out []slot
	for _, ins := range L.head.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, regSlot(p))
	}
	return append(out, in.heapSlots(h, others, mark)...)
}

// symMark returns the largest number of a fresh symbol in t.
func symMark(t *Term) int {
	m := 0
	t.Walk(func(x *Term) bool {
		if x.Sym != nil && x.Sym.N > m {
			m = x.Sym.N
		}
		return true
	})
	return m
}

func (in *Interp) heapSlots(h *State, others []*State, mark int) []slot {
	var out []slot
	seen := map[*Obj]bool{}
	for _, o := range sortedObjs(h.Heap) {
		seen[o] = true
		out = append(out, objSlot(o))
	}
	for _, s := range others {
		for _, o := range sortedObjs(s.Heap) {
			if seen[o] {
				continue
			}
			seen[o] = true
			switch {
			case o.Kind == OGlobal:
				out = append(out, objSlot(o))
			case o.Kind == OSym && (o.IsSeq || o.IsMap) && symMark(o.Key) <= mark:
				out = append(out, objSlot(o))
			}
		}
	}
	names := map[string]bool{}
	for _, s := range append([]*State{h}, others...) {
		for n := range s.Ghost {
			if !strings.HasPrefix(n, "!") {
				names[n] = true
			}
		}
	}
	var ns []string
	for n := range names {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		out = append(out, ghostSlot(n))
	}
	return out
}

type bound struct {
	name string
	t    *Term
}

// bounds collects loop-invariant integers that may bound others.
func (in *Interp) boundTerms(regs map[ssa.Value]bool, st *State) []bound {
	seen := map[*Term]bool{}
	var out []bound
	add := func(n string, t *Term) {
		if t.IsConst() || seen[t] || len(out) >= 24 {
			return
		}
		seen[t] = true
		out = append(out, bound{n, t})
	}
	var vals []Val
	var names []string
	var vs []ssa.Value
	for v := range regs {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	for _, v := range vs {
		if x, ok := st.Regs[v]; ok {
			vals = append(vals, x)
			names = append(names, v.Name())
		}
	}
	for i, v := range vals {
		if t, ok := intOf(v); ok {
			add(names[i], t)
		}
	}
	for i, v := range vals {
		if p, ok := v.(*PtrV); ok {
			var c Val
			func() {
				defer func() { recover() }()
				c = st.Load(p)
			}()
			if t, ok := intOf(c); ok {
				add("*"+names[i], t)
			}
			if s, ok := c.(*StructV); ok {
				for k, f := range s.F {
					if sl, ok := f.(*SliceV); ok {
						add(fmt.Sprintf("%s.%d", names[i], k), sl.Len)
					}
				}
			}
		}
	}
	return out
}

func (in *Interp) fixLoop(fr *frame, L *loop, a arrival) []outcome {
	e := a.st
	g := newGen()
	g.bounds = in.boundTerms(fr.info.live[L.head], e)
	// warm start from an earlier solution in the same context
	wk := fmt.Sprintf("%s|%d", fr.ctx, L.head.Index)
	warm := in.warm[wk]
	if warm == nil {
		warm = &warmSet{}
		in.warm[wk] = warm
	}
	in.warmStart(L, e, g, warm)
	save := in.Log
	defer func() { in.Log = save }()
	act := &activeLoop{L: L}
	fr.active = append(fr.active, act)
	defer func() { fr.active = fr.active[:len(fr.active)-1] }()
	const maxPass = 60
	for pass := 1; ; pass++ {
		if in.Trace != "" && fr.fn.Name() == in.Trace {
			fmt.Fprintf(os.Stderr, "PASS %d\n", pass)
		}
		for k := range warm.epochs {
			g.epochs[k] = true
		}
		h := g.header(in, e, "")
		g.propose(in, e)
		get := func(k string) Val { return g.leaves[k].rep }
		for _, c := range g.cands {
			c.assume(h, get)
		}
		mark := symCount
		log := &Log{}
		in.Log = log
		act.tokens = false
		run := h.Clone()
		outs := in.runScope(fr, L, []arrival{{nil, L.head, run}})
		var backs []*State
		for _, o := range outs {
			if o.kind == outBack {
				b := arrival{prev: o.prev, b: L.head, st: o.st}
				in.evalPhis(b)
				backs = append(backs, o.st)
			}
		}
		changed := in.update(fr, g, warm, in.slots(L, h, backs, mark), e, h, backs)
		if !changed || pass >= maxPass {
			if changed {
				in.Log = save
				in.undecided("loop did not stabilise")
				in.Log = log
			}
			in.Log = save
			in.Log.addAll(log)
			return in.finishLoop(fr, L, g, e, h, backs, outs, act.tokens, pass)
		}
	}
}

// update grows the generalisation until the back states are covered by the header state.
func (in *Interp) update(fr *frame, g *genSet, warm *warmSet, slots []slot, e, h *State, backs []*State) bool {
	changed := false
	for _, b := range backs {
		for k, v := range b.Ghost {
			if strings.HasPrefix(k, "!epoch:") && !g.epochs[k] && (h.Ghost[k] == nil || Key(h.Ghost[k]) != Key(v)) {
				g.epochs[k] = true
				if warm != nil {
					if warm.epochs == nil {
						warm.epochs = map[string]bool{}
					}
					warm.epochs[k] = true
				}
				changed = true
			}
		}
	}
	type pair struct {
		b *State
		v Val
	}
	diffs := map[string][]pair{}
	newLeaves := map[string]*leaf{}
	for _, sl := range slots {
		if sl.obj != nil && (sl.obj.Kind == OSym || sl.obj.Shared) && !sl.obj.IsSeq && !sl.obj.IsMap {
			if g.epochs[epochKey(sl.obj.T)] {
				continue // already arbitrary
			}
		}
		for _, b := range backs {
			diff(sl, h, b, func(l *leaf, hv, bv Val) {
				diffs[l.key] = append(diffs[l.key], pair{b, bv})
				if _, ok := g.leaves[l.key]; !ok && newLeaves[l.key] == nil {
					newLeaves[l.key] = l
				}
				markShared(hv)
				markShared(bv)
			})
		}
	}
	var ks []string
	for k := range newLeaves {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		l := newLeaves[k]
		ev := l.at(e)
		if ev == nil {
			continue
		}
		changed = true
		if in.Trace != "" && fr.fn.Name() == in.Trace {
			for _, d := range diffs[k] {
				fmt.Fprintf(os.Stderr, "  new leaf %s: %s -> %s\n", l.label(), VStr(l.at(h)), VStr(d.v))
			}
		}
		g.add(l, ev)
		// constant stride?
		if l.kind == "" && !g.noStr[k] {
			if t, ok := ev.(*Term); ok && t.Kind == KInt && len(diffs[k]) == len(backs) {
				var st *Term
				ok := true
				for _, p := range diffs[k] {
					hv, isT := l.at(h).(*Term)
					bv, isB := p.v.(*Term)
					if !isT || !isB {
						ok = false
						break
					}
					d := Sub(bv, hv)
					if !d.IsConst() || st != nil && st != d {
						ok = false
						break
					}
					st = d
				}
				if ok && st != nil {
					l.stride = st
				}
			}
		}
		if warm != nil {
			warm.note(l)
		}
	}
	// strides must persist
	for _, k := range g.order {
		l := g.leaves[k]
		if l.stride == nil || newLeaves[k] != nil {
			continue
		}
		bad := false
		for _, b := range backs {
			hv, ok1 := l.at(h).(*Term)
			bv, ok2 := l.at(b).(*Term)
			if !ok1 || !ok2 {
				bad = true
				continue
			}
			d := Sub(bv, hv)
			if d != l.stride && !(b.Facts.Prove(Sub(d, l.stride)) && b.Facts.Prove(Sub(l.stride, d))) {
				bad = true
			}
		}
		if bad {
			l.stride = nil
			l.rep = nil
			g.noStr[k] = true
			if warm != nil {
				warm.noStride(l)
			}
			changed = true
		}
	}
	// candidates must be preserved
	var kept []*cand
	for _, c := range g.cands {
		ok := true
		for _, b := range backs {
			get := func(k string) Val {
				l := g.leaves[k]
				return l.at(b)
			}
			if !c.holds(in, b, get) {
				ok = false
				break
			}
		}
		if ok {
			kept = append(kept, c)
		} else {
			g.dead[c.name] = true
			if in.Trace != "" && fr.fn.Name() == in.Trace {
				fmt.Fprintf(os.Stderr, "  dead %s\n", c.name)
			}
			if warm != nil {
				if warm.dead == nil {
					warm.dead = map[string]bool{}
				}
				warm.dead[c.name] = true
			}
			changed = true
		}
	}
	g.cands = kept
	return changed
}

func (in *Interp) finishLoop(fr *frame, L *loop, g *genSet, e, h *State, backs []*State, outs []outcome, tokens bool, passes int) []outcome {
	// where loop-carried values come from
	for _, k := range g.order {
		l := g.leaves[k]
		if t := atomOf(l.rep); t != nil && t.Sym != nil && l.stride == nil {
			t.Sym.Loop = true
			t.Sym.Prov = []Prov{{Facts: e.Facts, V: l.entry, Entry: true}}
			for _, b := range backs {
				if v := l.at(b); v != nil && !sameVal(h, b, l.rep, v) {
					t.Sym.Prov = append(t.Sym.Prov, Prov{Facts: b.Facts, V: v})
				}
			}
		}
	}
	res := &LoopRes{Fn: fr.fn, Head: L.head, Stack: in.StackNames(), Tokens: tokens, Passes: passes, fr: fr, L: L}
	res.Ranked = in.rank(fr, L, g, h, backs)
	for _, k := range g.order {
		l := g.leaves[k]
		res.Leaves = append(res.Leaves, &LeafInfo{Label: l.label(), Rep: l.rep, l: l})
	}
	res.Entry, res.H, res.Backs = e, h, backs
	in.Log.Loops = append(in.Log.Loops, res)
	for _, b := range backs {
		if w, ok := b.Ghost["!pend"]; ok {
			if _, had := e.Ghost["!pend"]; !had {
				s, _ := w.(*Term).StrVal()
				in.Log.Pend = append(in.Log.Pend, &PendEv{Where: s, Stack: in.StackNames(), State: b, Tokens: tokens})
			}
		}
	}
	le := &Ev{Kind: "loop", Stack: in.StackNames(), Facts: e.Facts, Instr: L.head.Instrs[0], N: g.n}
	has := false
	for _, b := range backs {
		le.Alts = append(le.Alts, &EvAlt{Facts: b.Facts, Evs: b.Evs, State: b})
		if b.Evs != nil {
			has = true
		}
	}
	base := e.Evs
	if has {
		n := 1
		if base != nil {
			n = base.N + 1
		}
		base = &EvList{Prev: base, E: le, N: n}
	}
	var res2 []outcome
	for _, o := range outs {
		if o.kind == outBack {
			continue
		}
		o.st.Evs = rebase(o.st.Evs, base)
		res2 = append(res2, o)
	}
	if in.Debug {
		fmt.Fprintf(os.Stderr, "%sloop %s b%d: %d passes, %d leaves, %d cands, %d backs, %d outs\n", strings.Repeat(" ", len(in.stack)), fr.fn.Name(), L.head.Index, passes, len(g.order), len(g.cands), len(backs), len(res2))
	}
	return res2
}

func atomOf(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *SliceV:
		if x.Obj != nil {
			return x.Obj.Key
		}
	case *SeqV:
		if len(x.Segs) == 1 {
			return x.Segs[0].Base
		}
	case *MapC:
		return x.Base
	case *StructV:
		return nil
	}
	return nil
}

// rebase puts the events of l after base.
func rebase(l, base *EvList) *EvList {
	if l == nil {
		return base
	}
	p := rebase(l.Prev, base)
	n := 1
	if p != nil {
		n = p.N + 1
	}
	return &EvList{Prev: p, E: l.E, N: n}
}

// rank looks for a quantity that decreases with every iteration and is bounded below.
func (in *Interp) rank(fr *frame, L *loop, g *genSet, h *State, backs []*State) string {
	if len(backs) == 0 {
		return "at most one iteration"
	}
	// range loops over maps end: the map is finite and not extended
	for b := range L.body {
		for _, ins := range b.Instrs {
			if n, ok := ins.(*ssa.Next); ok && !n.IsString && fr.info.inner[b] == L {
				return "iteration over a map"
			}
		}
	}
	type rf struct {
		name string
		f    func(get func(string) Val) (*Term, bool)
	}
	var rs []rf
	ints := g.intKeys()
	bounds := []*Term{Int(0)}
	for _, b := range g.bounds {
		bounds = append(bounds, b.t)
	}
	// every integer that occurs in a header fact may serve as a bound
	for _, b := range backs {
		for _, l := range b.Facts.Seq {
			if l.T.Op == "ge0" {
				p := l.T.Args[0]
				rs = append(rs, rf{"condition " + p.String(), nil})
				_ = p
			}
		}
	}
	rs = rs[:0]
	for _, k := range ints {
		k := k
		rs = append(rs, rf{k, func(get func(string) Val) (*Term, bool) { return intOf(get(k)) }})
		for _, b := range bounds {
			b := b
			rs = append(rs, rf{b.String() + "-" + k, func(get func(string) Val) (*Term, bool) {
				x, ok := intOf(get(k))
				if !ok {
					return nil, false
				}
				return Sub(b, x), true
			}})
		}
		for _, m := range ints {
			m := m
			if m == k {
				continue
			}
			rs = append(rs, rf{m + "-" + k, func(get func(string) Val) (*Term, bool) {
				x, ok1 := intOf(get(k))
				y, ok2 := intOf(get(m))
				if !ok1 || !ok2 {
					return nil, false
				}
				return Sub(y, x), true
			}})
		}
	}
	for _, r := range rs {
		hv, ok := r.f(func(k string) Val { return g.leaves[k].rep })
		if !ok {
			continue
		}
		good := true
		for _, b := range backs {
			bv, ok := r.f(func(k string) Val { return g.leaves[k].at(b) })
			if !ok || !b.Facts.Prove(AddInt(Sub(hv, bv), -1)) || !b.Facts.Prove(AddInt(hv, 1)) {
				good = false
				break
			}
		}
		if good {
			return "decreases: " + hv.String()
		}
	}
	// conditions on quantities that are not leaves themselves, and strides
	for _, k := range ints {
		l := g.leaves[k]
		if l.stride == nil {
			continue
		}
		s, _ := l.stride.IntVal()
		for _, lit := range backs[0].Facts.Seq {
			if lit.T.Op != "ge0" {
				continue
			}
			p := lit.T.Args[0]
			if !lit.Val {
				p = AddInt(Neg(p), -1)
			}
			// p >= 0 holds in every back state and contains N with a negative coefficient
			ms, cs := PolyOf(p)
			neg := false
			other := true
			for i, m := range ms {
				if len(m.Atoms) == 1 && m.Atoms[0] == g.n && m.Exps[0] == 1 {
					neg = cs[i].Cmp(new(big.Rat)) < 0
				} else {
					for _, a := range m.Atoms {
						if a == g.n || symMark(a) > g.n.Sym.N && !headerAtom(g, a) {
							other = false
						}
						if headerAtom(g, a) {
							other = false
						}
					}
				}
			}
			if !neg || !other || s == 0 {
				continue
			}
			all := true
			for _, b := range backs {
				if !b.Facts.Prove(p) {
					all = false
				}
			}
			if all {
				return "counts up to a bound: " + p.String()
			}
		}
	}
	// each iteration consumes input
	if l, ok := g.leaves["g:ntok"]; ok {
		good := true
		for _, b := range backs {
			x, ok1 := l.at(b).(*Term)
			y, ok2 := l.rep.(*Term)
			if !ok1 || !ok2 || !b.Facts.Prove(AddInt(Sub(x, y), -1)) {
				good = false
			}
		}
		if good {
			return "every iteration reads a token of the finite input"
		}
	}
	return in.rankFloat(g, h, backs)
}

func headerAtom(g *genSet, a *Term) bool {
	for _, l := range g.leaves {
		if l.stride == nil && atomOf(l.rep) == a {
			return true
		}
	}
	return false
}

// ---- warm start ----

// warmSet remembers, by stable names, what had to be generalised in a context.
type warmSet struct {
	leaves map[string]*warmLeaf
	dead   map[string]bool
	epochs map[string]bool
}

type warmLeaf struct {
	root   string
	path   []int
	t      types.Type
	kind   string
	stride *Term
	noStr  bool
}

func stableRoot(sl slot) string {
	if o := sl.obj; o != nil {
		switch {
		case o.Kind == OGlobal:
			return "G" + o.Label
		case o.Root != "":
			return "R" + o.Root
		}
		return ""
	}
	return sl.key
}

// stable is a name of the leaf that is the same in every evaluation of the loop.
func (l *leaf) stable() string {
	if l.name == "" {
		r := stableRoot(l.slot)
		if r == "" {
			r = l.slot.key
		}
		l.name = leafKey(r, l.path)
	}
	return l.name
}

func (w *warmSet) note(l *leaf) {
	r := stableRoot(l.slot)
	if r == "" {
		return
	}
	if w.leaves == nil {
		w.leaves = map[string]*warmLeaf{}
	}
	w.leaves[l.stable()] = &warmLeaf{root: r, path: l.path, t: l.t, kind: l.kind, stride: l.stride}
}

func (w *warmSet) noStride(l *leaf) {
	if e := w.leaves[l.stable()]; e != nil {
		e.stride = nil
		e.noStr = true
	}
}

func (in *Interp) warmStart(L *loop, e *State, g *genSet, w *warmSet) {
	if len(w.leaves) == 0 {
		return
	}
	roots := map[string][]slot{}
	for _, sl := range in.slots(L, e, nil, symCount) {
		if r := stableRoot(sl); r != "" {
			roots[r] = append(roots[r], sl)
		}
	}
	var names []string
	for n := range w.leaves {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		wl := w.leaves[n]
		for _, sl := range roots[wl.root] {
			l := &leaf{key: leafKey(sl.key, wl.path), t: wl.t, slot: sl, path: wl.path, kind: wl.kind, stride: wl.stride}
			ev := l.at(e)
			if ev == nil {
				continue
			}
			if l.kind == "seq" != isSeqLeaf(ev) || l.kind == "map" != isMapLeaf(ev) {
				continue
			}
			if wl.noStr {
				g.noStr[l.key] = true
			}
			g.add(l, ev)
		}
	}
	for d := range w.dead {
		g.dead[d] = true
	}
}
