package ai

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A leaf is a smallest location that analyses of loops, recursion and joins treat as
// a unit: a header phi, a field of an object, the content of an array or map, a ghost.

// slot is a root location.
type slot struct {
	key string
	t   types.Type
	get func(*State) Val
	set func(*State, Val)
	obj *Obj
}

func regSlot(v ssa.Value) slot {
	return slot{key: "r:" + v.Name(), t: v.Type(),
		get: func(s *State) Val { return s.Regs[v] },
		set: func(s *State, x Val) { s.Regs[v] = x }}
}

func objSlot(o *Obj) slot {
	return slot{key: "o:" + strconv.Itoa(o.ID), t: o.T, obj: o,
		get: func(s *State) Val { return s.Content(o) },
		set: func(s *State, x Val) { s.Heap[o] = x }}
}

func ghostSlot(name string) slot {
	return slot{key: "g:" + name, t: types.Typ[types.Int],
		get: func(s *State) Val {
			if v, ok := s.Ghost[name]; ok {
				return v
			}
			return Int(0)
		},
		set: func(s *State, x Val) { s.Ghost[name] = x }}
}

// markShared notes that pointers inside v are now also reachable through symbols.
func markShared(v Val) {
	switch x := v.(type) {
	case *PtrV:
		if x.Obj.Kind == OAlloc {
			x.Obj.Shared = true
		}
	case *StructV:
		for _, f := range x.F {
			markShared(f)
		}
	case *ArrV:
		for _, f := range x.E {
			markShared(f)
		}
	case *IfaceV:
		markShared(x.V)
	case TupleV:
		for _, f := range x {
			markShared(f)
		}
	case *FuncV:
		for _, f := range x.Bind {
			markShared(f)
		}
	case *SeqV:
		for _, g := range x.Segs {
			for _, e := range g.Elems {
				markShared(e)
			}
		}
		for _, w := range x.W {
			markShared(w.V)
		}
	case *MapC:
		for _, e := range x.Known {
			markShared(e.V)
		}
	}
}

// leaf is a generalised location.
type leaf struct {
	key   string
	t     types.Type
	slot  slot
	path  []int
	kind  string // "", "seq", "map"
	entry Val
	// representation in the header state
	rep    Val
	stride *Term // not nil: entry + stride*N
	nodes  []Val
	name   string
}

func isSeqLeaf(v Val) bool { _, ok := v.(*SeqV); return ok }
func isMapLeaf(v Val) bool { _, ok := v.(*MapC); return ok }

// plainElems returns the elements of a sequence all of which are known.
func plainElems(s *SeqV) ([]Val, bool) {
	if len(s.W) != 0 {
		return nil, false
	}
	if len(s.Segs) == 0 {
		return nil, true
	}
	if len(s.Segs) == 1 && s.Segs[0].Base == nil && !s.Segs[0].Zero {
		return s.Segs[0].Elems, true
	}
	return nil, false
}

// sameVal compares two values in their states.
func sameVal(hs, bs *State, h, b Val) bool {
	if Key(h) == Key(b) {
		return true
	}
	x, ok1 := h.(*SliceV)
	y, ok2 := b.(*SliceV)
	if ok1 && ok2 {
		if x.Obj == nil || y.Obj == nil {
			return false
		}
		if x.Len != y.Len {
			if !(bs.Facts.Prove(Sub(x.Len, y.Len)) && bs.Facts.Prove(Sub(y.Len, x.Len))) {
				return false
			}
		}
		return Key(hs.SliceContent(x)) == Key(bs.SliceContent(y))
	}
	s, ok1 := h.(*Term)
	t, ok2 := b.(*Term)
	if ok1 && ok2 && s.Kind == t.Kind {
		switch s.Kind {
		case KInt:
			if v, ok := bs.Facts.Decide(Eq0(Sub(s, t))); ok && v {
				return true
			}
		case KStr:
			if v, ok := bs.Facts.Decide(SEq(s, t)); ok && v {
				return true
			}
		case KBool:
			v, ok1 := bs.Facts.Decide(t)
			w, ok2 := bs.Facts.Decide(s)
			return ok1 && ok2 && v == w
		case KOther:
			if s.Op == "nil" {
				v, ok := bs.Facts.Decide(App(KBool, "isnil", t))
				return ok && v
			}
			if t.Op == "nil" {
				v, ok := bs.Facts.Decide(App(KBool, "isnil", s))
				return ok && v
			}
		}
	}
	return false
}

// diff calls add for every leaf at which the two states differ.
func diff(sl slot, hs, bs *State, add func(l *leaf, h, b Val)) {
	h, b := sl.get(hs), sl.get(bs)
	if h == nil || b == nil {
		return
	}
	diffVal(sl, nil, sl.t, hs, bs, h, b, add)
}

func diffVal(sl slot, path []int, t types.Type, hs, bs *State, h, b Val, add func(l *leaf, h, b Val)) {
	mk := func(kind string) *leaf {
		return &leaf{key: leafKey(sl.key, path), t: t, slot: sl, path: append([]int(nil), path...), kind: kind}
	}
	switch x := h.(type) {
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.F) == len(y.F) {
			for i := range x.F {
				if sameRef(x.F[i], y.F[i]) {
					continue
				}
				diffVal(sl, append(path[:len(path):len(path)], i), fieldType(t, i), hs, bs, x.F[i], y.F[i], add)
			}
			return
		}
	case *ArrV:
		if y, ok := b.(*ArrV); ok && len(x.E) == len(y.E) {
			et := t.Underlying().(*types.Array).Elem()
			for i := range x.E {
				diffVal(sl, append(path[:len(path):len(path)], i), et, hs, bs, x.E[i], y.E[i], add)
			}
			return
		}
	case *SeqV:
		y, ok := b.(*SeqV)
		if !ok || Key(x) == Key(y) {
			return
		}
		xe, ok1 := plainElems(x)
		ye, ok2 := plainElems(y)
		if ok1 && ok2 && len(xe) == len(ye) && len(xe) <= maxArr {
			for i := range xe {
				diffVal(sl, append(path[:len(path):len(path)], i), x.Elem, hs, bs, xe[i], ye[i], add)
			}
			return
		}
		add(mk("seq"), h, b)
		return
	case *MapC:
		if Key(h) != Key(b) {
			add(mk("map"), h, b)
		}
		return
	case TupleV:
		return // iterators: immutable
	}
	if sameVal(hs, bs, h, b) {
		return
	}
	add(mk(""), h, b)
}

func leafKey(root string, path []int) string {
	var sb strings.Builder
	sb.WriteString(root)
	for _, p := range path {
		sb.WriteByte('.')
		sb.WriteString(strconv.Itoa(p))
	}
	return sb.String()
}

// at returns the value of the leaf in a state.
func (l *leaf) at(s *State) Val {
	v := l.slot.get(s)
	for _, p := range l.path {
		switch x := v.(type) {
		case *StructV:
			v = x.F[p]
		case *ArrV:
			v = x.E[p]
		case *SeqV:
			if es, ok := plainElems(x); ok && p < len(es) {
				v = es[p]
			} else {
				v = x.Read(s.Facts, Int(int64(p)))
			}
		default:
			return nil
		}
	}
	return v
}

// put replaces the value of the leaf.
func (l *leaf) put(s *State, nv Val) {
	l.slot.set(s, putPath(s, l.slot.get(s), l.path, nv))
}

func putPath(s *State, v Val, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	switch x := v.(type) {
	case *StructV:
		n := &StructV{F: append([]Val(nil), x.F...)}
		n.F[p] = putPath(s, x.F[p], path[1:], nv)
		return n
	case *ArrV:
		n := &ArrV{E: append([]Val(nil), x.E...)}
		n.E[p] = putPath(s, x.E[p], path[1:], nv)
		return n
	case *SeqV:
		old := x.Read(s.Facts, Int(int64(p)))
		return x.Write(s.Facts, Int(int64(p)), putPath(s, old, path[1:], nv))
	}
	return v
}

// label is a readable name for the location.
func (l *leaf) label() string {
	n := l.slot.key
	t := l.slot.t
	if l.slot.obj != nil {
		n = l.slot.obj.Label
	}
	for _, p := range l.path {
		if t == nil {
			break
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			n += "." + u.Field(p).Name()
			t = u.Field(p).Type()
		case *types.Array:
			n += "[" + strconv.Itoa(p) + "]"
			t = u.Elem()
		default:
			n += "[" + strconv.Itoa(p) + "]"
		}
	}
	return n
}

// fresh returns the general value of the leaf.
func (l *leaf) fresh(tag string) Val {
	lab := tag + l.label()
	switch l.kind {
	case "seq":
		s := l.entry.(*SeqV)
		tot := s.total()
		return &SeqV{Elem: s.Elem, Segs: []Seg{{Base: Fresh(KOther, lab), Off: Int(0), Len: tot}}}
	case "map":
		m := l.entry.(*MapC)
		return &MapC{Base: Fresh(KOther, lab), KT: m.KT, VT: m.VT, NonNil: m.NonNil}
	}
	return FreshVal(l.t, lab)
}

// intOf returns the integer view of a value: itself, or a length.
func intOf(v Val) (*Term, bool) {
	switch x := v.(type) {
	case *Term:
		switch x.Kind {
		case KInt:
			return x, true
		case KStr:
			return Len(x), true
		}
	case *SliceV:
		return x.Len, true
	}
	return nil, false
}

// cand is a candidate invariant over leaves.
type cand struct {
	name string
	// eval returns the obligations in a state given the leaf values
	lin  func(get func(key string) Val) (*Term, bool) // >= 0
	nn   string                                       // leaf that is not nil
	mapN string                                       // leaf map whose values are not nil
	flag string                                       // only when this boolean leaf ...
	fval bool                                         // ... has this value
}

func (c *cand) holds(in *Interp, s *State, get func(string) Val) bool {
	f := s.Facts
	if c.flag != "" {
		t, ok := get(c.flag).(*Term)
		if !ok {
			return false
		}
		n, ok := f.Assume(t, c.fval)
		if !ok {
			return true
		}
		f = n
	}
	switch {
	case c.lin != nil:
		p, ok := c.lin(get)
		return ok && f.Prove(p)
	case c.nn != "":
		s2 := &State{Facts: f}
		n := in.nilness(s2, get(c.nn))
		return n != "?" && n != "nil"
	case c.mapN != "":
		m, ok := get(c.mapN).(*MapC)
		return ok && m.NonNil
	}
	return false
}

// assume adds the candidate to the facts of the header state.
func (c *cand) assume(s *State, get func(string) Val) {
	var lit *Term
	val := true
	switch {
	case c.lin != nil:
		p, ok := c.lin(get)
		if !ok || p.IsConst() {
			return
		}
		if c.flag == "" {
			s.Facts = s.Facts.WithLin(p)
			return
		}
		lit = Ge0(p)
	case c.nn != "":
		v := get(c.nn)
		t, ok := v.(*Term)
		if !ok {
			if sl, isS := v.(*SliceV); isS && sl.Obj != nil && sl.Obj.Kind == OSym {
				t = sl.Obj.Key
			} else {
				return
			}
		}
		lit, val = App(KBool, "isnil", t), false
		if c.flag == "" {
			if f, ok := s.Facts.Assume(lit, false); ok {
				s.Facts = f
			}
			return
		}
	case c.mapN != "":
		if m, ok := get(c.mapN).(*MapC); ok {
			m.NonNil = true
		}
		return
	}
	fl, ok := get(c.flag).(*Term)
	if !ok {
		return
	}
	fv := c.fval
	for fl.Op == "not" {
		fl, fv = fl.Args[0], !fv
	}
	s.Facts = s.Facts.WithImp(Impl{If: fl, IfVal: fv, Then: lit, ThenVal: val})
}

// genSet is the set of generalised leaves of a loop with the candidate invariants.
type genSet struct {
	leaves map[string]*leaf
	order  []string
	cands  []*cand
	dead   map[string]bool
	known  map[string]bool
	epochs map[string]bool
	noStr  map[string]bool
	n      *Term // iteration counter
	bounds []bound
}

func newGen() *genSet {
	n := Fresh(KInt, "N")
	n.Sym.Lo = big64(0)
	return &genSet{leaves: map[string]*leaf{}, dead: map[string]bool{}, known: map[string]bool{}, epochs: map[string]bool{}, noStr: map[string]bool{}, n: n}
}

func (g *genSet) add(l *leaf, entry Val) {
	l.entry = entry
	g.leaves[l.key] = l
	g.order = append(g.order, l.key)
	sort.Strings(g.order)
}

// intKeys lists the leaves that have an integer view.
func (g *genSet) intKeys() []string {
	var out []string
	for _, k := range g.order {
		if _, ok := intOf(g.leaves[k].rep); ok {
			out = append(out, k)
		}
	}
	return out
}

func (g *genSet) addCand(c *cand) {
	if g.known[c.name] || g.dead[c.name] {
		return
	}
	g.known[c.name] = true
	g.cands = append(g.cands, c)
}

// propose makes candidate invariants for the leaves; entry values must satisfy them.
func (g *genSet) propose(in *Interp, e *State) {
	before := len(g.cands)
	sn := func(k string) string { return g.leaves[k].stable() }
	ints := g.intKeys()
	iv := func(get func(string) Val, k string) (*Term, bool) {
		v := get(k)
		if v == nil {
			return nil, false
		}
		return intOf(v)
	}
	for _, k := range ints {
		k := k
		ev, ok := intOf(g.leaves[k].entry)
		if !ok {
			continue
		}
		if g.leaves[k].stride == nil {
			g.addCand(&cand{name: sn(k) + ">=e", lin: func(get func(string) Val) (*Term, bool) {
				x, ok := iv(get, k)
				if !ok {
					return nil, false
				}
				return Sub(x, ev), true
			}})
			if _, isSlice := g.leaves[k].t.Underlying().(*types.Slice); !isSlice || g.leaves[k].slot.obj == nil {
				g.addCand(&cand{name: sn(k) + "<=e", lin: func(get func(string) Val) (*Term, bool) {
					x, ok := iv(get, k)
					if !ok {
						return nil, false
					}
					return Sub(ev, x), true
				}})
			}
			for _, c := range []int64{-1, 0, 1} {
				c := c
				g.addCand(&cand{name: fmt.Sprintf("%s>=%d", sn(k), c), lin: func(get func(string) Val) (*Term, bool) {
					x, ok := iv(get, k)
					if !ok {
						return nil, false
					}
					return AddInt(x, -c), true
				}})
			}
		}
		for _, b := range g.bounds {
			bn := b.name
			for _, c := range []int64{0, 1} {
				b, c := b.t, c
				g.addCand(&cand{name: fmt.Sprintf("%s<=%s-%d", sn(k), bn, c), lin: func(get func(string) Val) (*Term, bool) {
					x, ok := iv(get, k)
					if !ok {
						return nil, false
					}
					return AddInt(Sub(b, x), -c), true
				}})
			}
		}
	}
	for i, k := range ints {
		for _, m := range ints[i+1:] {
			k, m := k, m
			if len(ints) > 8 && !pairable(g.leaves[k]) && !pairable(g.leaves[m]) || strings.Contains(k+m, "ntok") {
				continue
			}
			a, ok1 := intOf(g.leaves[k].entry)
			b, ok2 := intOf(g.leaves[m].entry)
			if !ok1 || !ok2 {
				continue
			}
			d := Sub(a, b)
			ds := map[*Term]bool{Int(0): true}
			if d.IsConst() || len(ints) < 12 {
				ds[d] = true
			}
			for d := range ds {
				d := d
				g.addCand(&cand{name: fmt.Sprintf("%s-%s>=%v", sn(k), sn(m), d == Int(0)), lin: func(get func(string) Val) (*Term, bool) {
					x, ok1 := iv(get, k)
					y, ok2 := iv(get, m)
					if !ok1 || !ok2 {
						return nil, false
					}
					return Sub(Sub(x, y), d), true
				}})
				g.addCand(&cand{name: fmt.Sprintf("%s-%s<=%v", sn(k), sn(m), d == Int(0)), lin: func(get func(string) Val) (*Term, bool) {
					x, ok1 := iv(get, k)
					y, ok2 := iv(get, m)
					if !ok1 || !ok2 {
						return nil, false
					}
					return Add(Sub(y, x), d), true
				}})
			}
		}
	}
	var flags, ptrs, lens []string
	for _, k := range g.order {
		l := g.leaves[k]
		if l.kind == "map" {
			g.addCand(&cand{name: sn(k) + " values", mapN: k})
			continue
		}
		if l.kind == "seq" {
			continue
		}
		switch r := l.rep.(type) {
		case *Term:
			switch r.Kind {
			case KBool:
				flags = append(flags, k)
			case KOther:
				ptrs = append(ptrs, k)
				g.addCand(&cand{name: sn(k) + " nonnil", nn: k})
			}
		case *SliceV:
			lens = append(lens, k)
			g.addCand(&cand{name: sn(k) + " nonnil", nn: k})
		}
	}
	for _, fk := range flags {
		for _, v := range []bool{true, false} {
			for _, p := range ptrs {
				g.addCand(&cand{name: fmt.Sprintf("%s=%v->%s", sn(fk), v, sn(p)), nn: p, flag: fk, fval: v})
			}
			for _, p := range lens {
				p := p
				g.addCand(&cand{name: fmt.Sprintf("%s=%v->%s>=1", sn(fk), v, sn(p)), flag: fk, fval: v, lin: func(get func(string) Val) (*Term, bool) {
					x, ok := iv(get, p)
					if !ok {
						return nil, false
					}
					return AddInt(x, -1), true
				}})
			}
		}
	}
	// keep those that hold on entry
	get := func(k string) Val { return g.leaves[k].entry }
	kept := g.cands[:before]
	for _, c := range g.cands[before:] {
		if !g.dead[c.name] && c.holds(in, e, get) {
			kept = append(kept, c)
		}
	}
	g.cands = kept
}

// pairable tells whether a leaf is worth comparing with all others.
func pairable(l *leaf) bool {
	return l.slot.obj == nil
}

// header builds the general header state.
func (g *genSet) header(in *Interp, e *State, tag string) *State {
	h := e.Clone()
	h.Evs = nil
	for k := range g.epochs {
		t := epochTypes[k]
		h.Ghost[k] = Fresh(KInt, "epoch")
		for o := range h.Heap {
			if (o.Kind == OSym || o.Shared) && !o.IsSeq && !o.IsMap && types.Identical(o.T, t) {
				if o.Kind == OSym {
					delete(h.Heap, o)
				} else {
					h.Heap[o] = FreshVal(o.T, "shared")
				}
			}
		}
	}
	for _, k := range g.order {
		l := g.leaves[k]
		if l.stride != nil {
			x, _ := intOf(l.entry)
			l.rep = Add(x, Mul(l.stride, g.n))
		} else if l.rep == nil {
			l.rep = l.fresh(tag)
		} else if m, ok := l.rep.(*MapC); ok {
			l.rep = &MapC{Base: m.Base, KT: m.KT, VT: m.VT}
		}
		l.put(h, l.rep)
	}
	return h
}

// epochTypes finds the type for an epoch ghost.
var epochTypes = map[string]types.Type{}
