package ai

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
)

func epochKey(t types.Type) string {
	k := "!epoch:" + types.TypeString(t, nil)
	if _, ok := epochTypes[k]; !ok {
		epochTypes[k] = t
	}
	return k
}

func (st *State) epoch(t types.Type) string {
	if v, ok := st.Ghost[epochKey(t)]; ok {
		return "@" + v.(*Term).String()
	}
	return ""
}

// Content returns what is stored in obj.
func (st *State) Content(o *Obj) Val {
	if v, ok := st.Heap[o]; ok {
		return v
	}
	return st.defaultContent(o)
}

func (st *State) defaultContent(o *Obj) Val {
	switch {
	case o.Kind == OSym && o.IsSeq:
		l := o.InitLen
		if l == nil {
			l = App(KInt, "cap", o.Key)
		}
		return &SeqV{Elem: o.T, Segs: []Seg{{Base: o.Key, Off: Int(0), Len: l}}}
	case o.Kind == OSym && o.IsMap:
		m := o.T.Underlying().(*types.Map)
		return &MapC{Base: o.Key, KT: m.Key(), VT: m.Elem()}
	case o.Kind == OSym:
		return ValOf(App(KindOf(o.T), "deref"+st.epoch(o.T), o.Key), o.T)
	case o.Kind == OGlobal:
		t := NewSym("global:"+o.Label, KindOf(o.T), o.Label)
		t.Sym.Global = o.Label
		return ValOf(t, o.T)
	}
	if o.IsSeq {
		return &SeqV{Elem: o.T}
	}
	return Zero(o.T)
}

// SetContent replaces what is stored in obj and forgets what may alias it.
func (st *State) SetContent(o *Obj, v Val) {
	if o.Kind == OSym && !o.IsSeq && !o.IsMap || o.Shared {
		for p := range st.Heap {
			if p != o && (p.Kind == OSym || p.Shared) && !p.IsSeq && !p.IsMap && types.Identical(p.T, o.T) {
				st.Heap[p] = FreshVal(p.T, "alias")
			}
		}
		st.Ghost[epochKey(o.T)] = Fresh(KInt, "epoch")
	}
	st.Heap[o] = v
}

// ---- sequences ----

func (s *SeqV) asTerm() *Term {
	if len(s.Segs) == 1 && len(s.W) == 0 && s.Segs[0].Base != nil && s.Segs[0].Off == Int(0) {
		return s.Segs[0].Base
	}
	if s.term == nil {
		k := Key(s)
		s.term = NewSym("seq:"+k, KOther, "seq"+strconv.Itoa(len(k)))
	}
	return s.term
}

func (s *SeqV) sel(base, idx *Term) Val {
	return ValOf(App(KindOf(s.Elem), "sel", base, idx), s.Elem)
}

// Read returns the element at idx.
func (s *SeqV) Read(f *Facts, idx *Term) Val {
	for i := len(s.W) - 1; i >= 0; i-- {
		d := Sub(idx, s.W[i].Idx)
		if v, ok := f.Decide(Eq0(d)); ok {
			if v {
				return s.W[i].V
			}
			continue
		}
		return s.sel(s.asTerm(), idx)
	}
	if len(s.Segs) == 1 && s.Segs[0].Base != nil {
		return s.sel(s.Segs[0].Base, Add(s.Segs[0].Off, idx))
	}
	pos := Int(0)
	for _, g := range s.Segs {
		end := Add(pos, g.length())
		rel := Sub(idx, pos)
		if g.Base == nil && !g.Zero {
			if n, ok := rel.IntVal(); ok && n >= 0 && n < int64(len(g.Elems)) {
				return g.Elems[n]
			}
		}
		if f.Prove(Sub(idx, end)) {
			pos = end
			continue
		}
		if f.Prove(rel) && f.Prove(AddInt(Sub(end, idx), -1)) {
			if g.Zero {
				return Zero(s.Elem)
			}
			if g.Base != nil {
				return s.sel(g.Base, Add(g.Off, rel))
			}
			if len(g.Elems) == 1 {
				return g.Elems[0]
			}
			same := true
			for _, e := range g.Elems {
				if Key(e) != Key(g.Elems[0]) {
					same = false
				}
			}
			if same {
				return g.Elems[0]
			}
		}
		return s.sel(s.asTerm(), idx)
	}
	return s.sel(s.asTerm(), idx)
}

// Write returns the sequence with the element at idx replaced.
func (s *SeqV) Write(f *Facts, idx *Term, v Val) *SeqV {
	n := &SeqV{Elem: s.Elem, Segs: append([]Seg(nil), s.Segs...)}
	for _, w := range s.W {
		if w.Idx != idx {
			n.W = append(n.W, w)
		}
	}
	if len(n.W) == 0 {
		pos := Int(0)
		for i, g := range n.Segs {
			if g.Base == nil && !g.Zero {
				if k, ok := Sub(idx, pos).IntVal(); ok && k >= 0 && k < int64(len(g.Elems)) {
					e := append([]Val(nil), g.Elems...)
					e[k] = v
					n.Segs[i] = Seg{Elems: e}
					return n
				}
			}
			if g.Zero {
				if l, ok := g.Len.IntVal(); ok && l <= maxSeq {
					if k, ok := Sub(idx, pos).IntVal(); ok && k >= 0 && k < l {
						var e []Val
						for j := int64(0); j < l; j++ {
							e = append(e, Zero(s.Elem))
						}
						e[k] = v
						n.Segs[i] = Seg{Elems: e}
						return n
					}
				}
			}
			pos = Add(pos, g.length())
		}
	}
	n.W = append(n.W, Wr{idx, v})
	if len(n.W) > 48 {
		t := s.total()
		b := Fresh(KOther, "seqw")
		return &SeqV{Elem: s.Elem, Segs: []Seg{{Base: b, Off: Int(0), Len: t}}}
	}
	return n
}

// Cut returns the elements [off, off+n).
func (s *SeqV) Cut(f *Facts, off, n *Term) *SeqV {
	if off == Int(0) && n == s.total() {
		return s
	}
	out := &SeqV{Elem: s.Elem}
	end := Add(off, n)
	pos := Int(0)
	opaque := func() *SeqV {
		return &SeqV{Elem: s.Elem, Segs: []Seg{{Base: s.asTerm(), Off: off, Len: n}}}
	}
	started := false
	for _, g := range s.Segs {
		gl := g.length()
		gend := Add(pos, gl)
		if !started {
			if f.Prove(Sub(off, gend)) && !f.Prove(AddInt(Sub(gend, off), -1)) {
				pos = gend
				continue
			}
			if !f.Prove(Sub(off, pos)) {
				return opaque()
			}
			if off != pos && !f.Prove(Sub(gend, off)) {
				return opaque()
			}
		}
		lo := Int(0)
		if !started {
			lo = Sub(off, pos)
			started = true
		}
		// upper end
		var hi *Term
		last := false
		switch {
		case f.Prove(Sub(end, gend)):
			hi = gl
		case f.Prove(Sub(gend, end)) && f.Prove(Sub(end, Add(pos, lo))):
			hi = Sub(end, pos)
			last = true
		default:
			return opaque()
		}
		switch {
		case g.Zero:
			out.Segs = append(out.Segs, Seg{Zero: true, Len: Sub(hi, lo)})
		case g.Base != nil:
			out.Segs = append(out.Segs, Seg{Base: g.Base, Off: Add(g.Off, lo), Len: Sub(hi, lo)})
		default:
			l, ok1 := lo.IntVal()
			h, ok2 := hi.IntVal()
			if !ok1 || !ok2 || l < 0 || h > int64(len(g.Elems)) || l > h {
				return opaque()
			}
			if l < h {
				out.Segs = append(out.Segs, Seg{Elems: g.Elems[l:h]})
			}
		}
		if last {
			break
		}
		if f.Prove(Sub(gend, end)) {
			break
		}
		pos = gend
	}
	for _, w := range s.W {
		i := Sub(w.Idx, off)
		if f.Prove(AddInt(Neg(i), -1)) || f.Prove(Sub(i, n)) {
			continue
		}
		out.W = append(out.W, Wr{i, w.V})
	}
	return out.norm()
}

func (s *SeqV) norm() *SeqV {
	var segs []Seg
	for _, g := range s.Segs {
		if g.Base == nil && !g.Zero && len(g.Elems) == 0 {
			continue
		}
		if (g.Base != nil || g.Zero) && g.Len == Int(0) {
			continue
		}
		if k := len(segs); k > 0 {
			p := segs[k-1]
			if p.Base == nil && !p.Zero && g.Base == nil && !g.Zero {
				segs[k-1] = Seg{Elems: append(append([]Val(nil), p.Elems...), g.Elems...)}
				continue
			}
			if p.Base != nil && p.Base == g.Base && Add(p.Off, p.Len) == g.Off {
				segs[k-1] = Seg{Base: p.Base, Off: p.Off, Len: Add(p.Len, g.Len)}
				continue
			}
		}
		segs = append(segs, g)
	}
	s.Segs = segs
	return s
}

// SliceContent returns the elements of a slice.
func (st *State) SliceContent(s *SliceV) *SeqV {
	if s.Obj == nil {
		return &SeqV{}
	}
	return st.objSeq(s.Obj).Cut(st.Facts, s.Off, s.Len)
}

// objSeq returns the content of a backing array as a sequence.
func (st *State) objSeq(o *Obj) *SeqV {
	switch c := st.Content(o).(type) {
	case *SeqV:
		return c
	case *ArrV:
		return (&SeqV{Elem: o.elem(), Segs: []Seg{{Elems: c.E}}}).norm()
	case *Term:
		a := o.T.Underlying().(*types.Array)
		return &SeqV{Elem: a.Elem(), Segs: []Seg{{Base: c, Off: Int(0), Len: Int(a.Len())}}}
	}
	panic(unsupported("backing array"))
}

// elem is the element type of a backing array object.
func (o *Obj) elem() types.Type {
	if o.IsSeq {
		return o.T
	}
	if a, ok := o.T.Underlying().(*types.Array); ok {
		return a.Elem()
	}
	return o.T
}

// Concat returns a followed by b.
func concatSeq(a, b *SeqV) *SeqV {
	n := &SeqV{Elem: a.Elem}
	if n.Elem == nil {
		n.Elem = b.Elem
	}
	n.Segs = append(append([]Seg(nil), a.Segs...), b.Segs...)
	n.W = append([]Wr(nil), a.W...)
	t := a.total()
	for _, w := range b.W {
		n.W = append(n.W, Wr{Add(w.Idx, t), w.V})
	}
	return n.norm()
}

// NewSlice makes a slice with the given content.
func (in *Interp) NewSlice(st *State, c *SeqV, label string) *SliceV {
	o := newObj(OAlloc, c.Elem, label)
	o.IsSeq = true
	st.Heap[o] = c
	n := c.total()
	return &SliceV{Obj: o, Off: Int(0), Len: n, Cap: n}
}

// NewMap allocates a map with exactly the given entries.
func (in *Interp) NewMap(st *State, t types.Type, ents []MapEnt, label string) *MapV {
	m := t.Underlying().(*types.Map)
	o := newObj(OAlloc, t, label)
	o.IsMap = true
	st.Heap[o] = &MapC{KT: m.Key(), VT: m.Elem(), NonNil: true, Known: ents}
	return &MapV{Obj: o}
}

// ---- pointers ----

// Load reads through a pointer.
func (st *State) Load(p *PtrV) Val {
	v := st.Content(p.Obj)
	t := p.Obj.T
	for _, e := range p.Path {
		v, t = st.step(v, t, e)
	}
	return v
}

func fieldType(t types.Type, i int) types.Type {
	if s, ok := t.Underlying().(*types.Struct); ok {
		return s.Field(i).Type()
	}
	return nil
}

func (st *State) step(v Val, t types.Type, e PE) (Val, types.Type) {
	if e.Idx != nil {
		switch x := v.(type) {
		case *SeqV:
			return x.Read(st.Facts, e.Idx), x.Elem
		case *ArrV:
			et := t.Underlying().(*types.Array).Elem()
			if n, ok := st.intConst(e.Idx); ok && n >= 0 && n < int64(len(x.E)) {
				return x.E[n], et
			}
			same := len(x.E) > 0
			for _, y := range x.E {
				if Key(y) != Key(x.E[0]) {
					same = false
				}
			}
			if same {
				return x.E[0], et
			}
			return ValOf(App(KindOf(et), "sel", TermOf(x), e.Idx), et), et
		case *Term:
			if a, ok := t.Underlying().(*types.Array); ok {
				return ValOf(App(KindOf(a.Elem()), "sel", x, e.Idx), a.Elem()), a.Elem()
			}
		}
		panic(unsupported(fmt.Sprintf("index of %T", v)))
	}
	ft := fieldType(t, e.F)
	switch x := v.(type) {
	case *StructV:
		return x.F[e.F], ft
	case *Term:
		return ValOf(App(KindOf(ft), "f:"+t.Underlying().(*types.Struct).Field(e.F).Name(), x), ft), ft
	}
	panic(unsupported(fmt.Sprintf("field of %T", v)))
}

// intConst returns the constant an integer term is known to equal.
func (st *State) intConst(t *Term) (int64, bool) {
	if n, ok := t.IntVal(); ok {
		return n, true
	}
	// try the bounds that occur as literals
	for _, l := range st.Facts.Seq {
		if l.Val && l.T.Op == "eq0" {
			d := Sub(t, l.T.Args[0])
			if n, ok := d.IntVal(); ok {
				return n, true
			}
			d = Add(t, l.T.Args[0])
			if n, ok := d.IntVal(); ok {
				return n, true
			}
		}
	}
	return 0, false
}

// Store writes through a pointer.
func (st *State) Store(p *PtrV, v Val) {
	if len(p.Path) == 0 {
		st.SetContent(p.Obj, v)
		return
	}
	st.SetContent(p.Obj, st.update(st.Content(p.Obj), p.Obj.T, p.Path, v))
}

func (st *State) update(old Val, t types.Type, path []PE, v Val) Val {
	if len(path) == 0 {
		return v
	}
	e := path[0]
	if e.Idx != nil {
		switch x := old.(type) {
		case *SeqV:
			if len(path) > 1 {
				v = st.update(x.Read(st.Facts, e.Idx), x.Elem, path[1:], v)
			}
			return x.Write(st.Facts, e.Idx, v)
		case *ArrV:
			et := t.Underlying().(*types.Array).Elem()
			n := &ArrV{E: append([]Val(nil), x.E...)}
			if k, ok := st.intConst(e.Idx); ok && k >= 0 && k < int64(len(x.E)) {
				n.E[k] = st.update(x.E[k], et, path[1:], v)
				return n
			}
			for i := range n.E {
				if st.Facts.Prove(AddInt(Sub(e.Idx, Int(int64(i))), -1)) || st.Facts.Prove(AddInt(Sub(Int(int64(i)), e.Idx), -1)) {
					continue
				}
				n.E[i] = FreshVal(et, "weak")
			}
			return n
		case *Term:
			return Fresh(KOther, "arr")
		}
		panic(unsupported(fmt.Sprintf("index store into %T", old)))
	}
	ft := fieldType(t, e.F)
	switch x := old.(type) {
	case *StructV:
		n := &StructV{F: append([]Val(nil), x.F...)}
		n.F[e.F] = st.update(x.F[e.F], ft, path[1:], v)
		return n
	}
	panic(unsupported(fmt.Sprintf("field store into %T", old)))
}

type unsupported string

func big64(n int64) *big.Int { return big.NewInt(n) }

// Alloc allocates an object with the given content and returns a pointer to it.
func (in *Interp) Alloc(st *State, t types.Type, v Val, label string) *PtrV {
	o := newObj(OAlloc, t, label)
	st.Heap[o] = v
	return &PtrV{Obj: o}
}

// ArgTerm views a value with the content of its slices as a term.
func ArgTerm(st *State, v Val) *Term { return argTerm(st, v) }
