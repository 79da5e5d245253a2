package ai

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// argTerm names a value by its content, so that equal arguments get equal terms.
func argTerm(st *State, v Val) *Term {
	switch x := v.(type) {
	case *SliceV:
		if x.Obj == nil {
			return App(KOther, "list")
		}
		c := st.SliceContent(x)
		if len(c.W) == 0 {
			var args []*Term
			for _, g := range c.Segs {
				switch {
				case g.Zero:
					args = append(args, App(KOther, "zeros", g.Len))
				case g.Base != nil:
					if g.Off == Int(0) && (g.Len == App(KInt, "len", g.Base) || len(c.Segs) == 1 && g.Len == App(KInt, "cap", g.Base)) {
						args = append(args, App(KOther, "all", g.Base))
					} else {
						args = append(args, App(KOther, "part", g.Base, g.Off, g.Len))
					}
				default:
					for _, e := range g.Elems {
						args = append(args, argTerm(st, e))
					}
				}
			}
			if len(args) == 1 && args[0].Op == "all" {
				return args[0].Args[0]
			}
			return App(KOther, "list", args...)
		}
		return c.asTerm()
	case *IfaceV:
		return App(KOther, "iface", TypeTerm(x.T), argTerm(st, x.V))
	case *StructV:
		hasSlice := false
		for _, f := range x.F {
			switch f.(type) {
			case *SliceV, *IfaceV, *StructV, *ArrV:
				hasSlice = true
			}
		}
		if hasSlice {
			if t := TermOf(x); t.Op != "mk" {
				return t
			}
			var args []*Term
			for _, f := range x.F {
				args = append(args, argTerm(st, f))
			}
			return App(KOther, "mk", args...)
		}
	}
	return TermOf(v)
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

// dispatch resolves a call and returns the states after it.
func (in *Interp) dispatch(st *State, c *ssa.CallCommon, fn Val, args []Val, instr ssa.Instruction) []RetState {
	if c.IsInvoke() {
		return in.invoke(st, c, fn, args, instr)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return in.builtin(st, b, c, args, instr)
	}
	return in.callVal(st, fn, args, c.Signature(), instr)
}

func (in *Interp) callVal(st *State, fn Val, args []Val, sig *types.Signature, instr ssa.Instruction) []RetState {
	switch f := fn.(type) {
	case *FuncV:
		if in.inlinable(f.Fn) {
			return in.Call(st, f.Fn, args, f.Bind, instr)
		}
		return in.external(st, fnName(f.Fn), f.Fn.Signature, args, instr)
	case *Term:
		d, ok := st.Facts.Decide(App(KBool, "isnil", f))
		bad := f.Op == "nil" || !ok || d
		in.oblige(st, "nilfunc", instr, !bad, "call of a function value that may be nil: "+f.String())
		if f.Op == "nil" || ok && d {
			return nil
		}
		// an unknown function value
		return in.external(st, "func:"+f.String(), sig, args, instr)
	}
	panic(unsupported(fmt.Sprintf("call of %T", fn)))
}

// Implementers lists the module types that implement an interface.
func (in *Interp) Implementers(it types.Type) []types.Type {
	k := types.TypeString(it, nil)
	if r, ok := in.impl[k]; ok {
		return r
	}
	iface := it.Underlying().(*types.Interface)
	var out []types.Type
	for _, t := range in.AllMod {
		if types.IsInterface(t) {
			continue
		}
		if types.Implements(t, iface) {
			out = append(out, t)
		} else if p := types.NewPointer(t); types.Implements(p, iface) {
			out = append(out, p)
		}
	}
	in.impl[k] = out
	return out
}

func (in *Interp) invoke(st *State, c *ssa.CallCommon, recv Val, args []Val, instr ssa.Instruction) []RetState {
	name := c.Method.Name()
	switch r := recv.(type) {
	case *IfaceV:
		in.oblige(st, "nil", instr, true, "")
		return in.method(st, r, c.Method, args, instr)
	case *Term:
		if r.Op == "nil" {
			in.oblige(st, "nil", instr, false, "method call on nil interface")
			return nil
		}
		d, ok := st.Facts.Decide(App(KBool, "isnil", r))
		in.oblige(st, "nil", instr, ok && !d, "method "+name+" called on "+r.String()+", which may be nil")
		if ok && d {
			return nil
		}
		it := c.Value.Type()
		nt, isNamed := it.(*types.Named)
		if isNamed && nt.Obj().Pkg() != nil && in.modPath(nt.Obj().Pkg().Path()) {
			var out []RetState
			for _, t := range in.Implementers(it) {
				s := st.Clone()
				f, ok := s.Facts.Assume(App(KBool, "istype", r, TypeTerm(t)), true)
				if !ok {
					continue
				}
				s.Facts = f
				iv := &IfaceV{T: t, V: ValOf(App(KindOf(t), "unbox", r, TypeTerm(t)), t)}
				if p, isPtr := iv.V.(*Term); isPtr {
					if _, isP := t.Underlying().(*types.Pointer); isP {
						if f, ok := s.Facts.Assume(App(KBool, "isnil", p), false); ok {
							s.Facts = f
						}
					}
				}
				in.unsure(instr, s)
				out = append(out, in.method(s, iv, c.Method, args, instr)...)
			}
			return out
		}
		n := c.Method.FullName()
		return in.external(st, n, c.Method.Type().(*types.Signature), append([]Val{recv}, args...), instr)
	}
	panic(unsupported(fmt.Sprintf("invoke on %T", recv)))
}

func (in *Interp) method(st *State, r *IfaceV, m *types.Func, args []Val, instr ssa.Instruction) []RetState {
	f := in.Prog.LookupMethod(r.T, m.Pkg(), m.Name())
	if f == nil {
		panic(unsupported("method " + m.Name()))
	}
	all := append([]Val{r.V}, args...)
	if in.inlinable(f) {
		return in.Call(st, f, all, nil, instr)
	}
	return in.external(st, fnName(f), f.Signature, all, instr)
}

func ret(st *State, v Val) []RetState { return []RetState{{st, v}} }

func (in *Interp) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, instr ssa.Instruction) []RetState {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *SliceV:
			return ret(st, x.Len)
		case *Term:
			if x.Kind == KStr {
				return ret(st, Len(x))
			}
			if x.Op == "nil" {
				return ret(st, Int(0))
			}
		case *ArrV:
			return ret(st, Int(int64(len(x.E))))
		case *MapV:
			mc := st.Content(x.Obj).(*MapC)
			if mc.Base == nil && len(mc.Known) == 0 {
				return ret(st, Int(0))
			}
			n := Fresh(KInt, "maplen")
			n.Sym.Lo = big.NewInt(0)
			return ret(st, n)
		case *PtrV:
			if a, ok := elemOf(c.Args[0].Type()).Underlying().(*types.Array); ok {
				return ret(st, Int(a.Len()))
			}
		}
	case "cap":
		if x, ok := args[0].(*SliceV); ok {
			return ret(st, x.Cap)
		}
	case "append":
		return in.appendTo(st, c, args, instr)
	case "copy":
		d, ok := args[0].(*SliceV)
		if !ok || d.Obj == nil {
			return ret(st, Int(0))
		}
		var src *SeqV
		var sl *Term
		if s, ok := args[1].(*SliceV); ok {
			if s.Obj == nil {
				return ret(st, Int(0))
			}
			src, sl = st.SliceContent(s), s.Len
		} else {
			sl = Len(args[1].(*Term))
			src = &SeqV{Elem: d.Obj.elem(), Segs: []Seg{{Base: App(KOther, "bytes:byte", args[1].(*Term)), Off: Int(0), Len: sl}}}
		}
		in.Log.Stores = append(in.Log.Stores, &StoreEv{Ptr: &PtrV{Obj: d.Obj}, Instr: instr, Stack: in.StackNames(), Facts: st.Facts, How: "copy"})
		full := st.objSeq(d.Obj)
		var n *Term
		switch {
		case st.Facts.Prove(Sub(d.Len, sl)):
			n = sl
		case st.Facts.Prove(Sub(sl, d.Len)):
			n = d.Len
			src = src.Cut(st.Facts, Int(0), n)
		}
		var res *SeqV
		if n != nil {
			tot := full.total()
			pre := full.Cut(st.Facts, Int(0), d.Off)
			lo := Add(d.Off, n)
			post := full.Cut(st.Facts, lo, Sub(tot, lo))
			res = concatSeq(concatSeq(pre, src), post)
		} else {
			res = &SeqV{Elem: d.Obj.elem(), Segs: []Seg{{Base: Fresh(KOther, "copied"), Off: Int(0), Len: full.total()}}}
			n = Fresh(KInt, "copied")
			st.Facts = st.Facts.WithLin(n, Sub(sl, n), Sub(d.Len, n))
		}
		in.setSeq(st, d.Obj, res)
		return ret(st, n)
	case "delete":
		if m, ok := args[0].(*MapV); ok {
			mc := st.Content(m.Obj).(*MapC)
			in.Log.Stores = append(in.Log.Stores, &StoreEv{Map: m, Instr: instr, Stack: in.StackNames(), Facts: st.Facts, How: "delete"})
			st.Add(&Ev{Kind: "mapdel", Args: args[1:], Target: m, Instr: instr, Facts: st.Facts, Stack: in.StackNames()})
			st.Heap[m.Obj] = &MapC{Base: Fresh(KOther, "map"), KT: mc.KT, VT: mc.VT, NonNil: mc.NonNil}
		}
		return ret(st, nil)
	case "print", "println":
		return ret(st, nil)
	case "recover":
		return ret(st, Nil())
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if r.IsConst() && t.IsConst() {
				less := constant.Compare(t.C, 40, r.C) // token.LSS
				if (b.Name() == "min") == less {
					r = t
				}
				continue
			}
			if r.Kind == KInt {
				d := Sub(r, t)
				if st.Facts.Prove(d) {
					if b.Name() == "min" {
						r = t
					}
					continue
				}
				if st.Facts.Prove(Neg(d)) {
					if b.Name() == "max" {
						r = t
					}
					continue
				}
			}
			nr := App(r.Kind, b.Name(), r, t)
			if r.Kind == KInt {
				if b.Name() == "min" {
					st.Facts = st.Facts.WithLin(Sub(r, nr), Sub(t, nr))
					if st.Facts.Prove(r) && st.Facts.Prove(t) {
						st.Facts = st.Facts.WithLin(nr)
					}
				} else {
					st.Facts = st.Facts.WithLin(Sub(nr, r), Sub(nr, t))
				}
			}
			r = nr
		}
		return ret(st, r)
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			mc := st.Content(x.Obj).(*MapC)
			st.Heap[x.Obj] = &MapC{KT: mc.KT, VT: mc.VT, NonNil: true}
		case *SliceV:
			if x.Obj != nil {
				in.setSeq(st, x.Obj, &SeqV{Elem: x.Obj.elem(), Segs: []Seg{{Base: Fresh(KOther, "cleared"), Off: Int(0), Len: st.objSeq(x.Obj).total()}}})
			}
		}
		return ret(st, nil)
	case "ssa:wrapnilchk":
		return ret(st, args[0])
	}
	panic(unsupported("builtin " + b.Name()))
}

// setSeq replaces the content of a backing array.
func (in *Interp) setSeq(st *State, o *Obj, s *SeqV) {
	if o.IsSeq {
		st.Heap[o] = s
		return
	}
	a := o.T.Underlying().(*types.Array)
	if a.Len() > maxArr {
		st.Heap[o] = Fresh(KOther, "arr")
		return
	}
	v := &ArrV{}
	for i := int64(0); i < a.Len(); i++ {
		v.E = append(v.E, s.Read(st.Facts, Int(i)))
	}
	st.Heap[o] = v
}

func (in *Interp) appendTo(st *State, c *ssa.CallCommon, args []Val, instr ssa.Instruction) []RetState {
	s := args[0].(*SliceV)
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	var add *SeqV
	switch x := args[1].(type) {
	case *SliceV:
		if x.Obj == nil {
			return ret(st, s)
		}
		add = st.SliceContent(x)
	case *Term: // append([]byte, string...)
		if x.Kind != KStr {
			return ret(st, s)
		}
		add = &SeqV{Elem: et, Segs: []Seg{{Base: App(KOther, "bytes:byte", x), Off: Int(0), Len: Len(x)}}}
	default:
		return ret(st, s)
	}
	if add.Elem == nil {
		add.Elem = et
	}
	cur := &SeqV{Elem: et}
	if s.Obj != nil {
		cur = st.SliceContent(s)
		cur.Elem = et
	}
	n := concatSeq(cur, add)
	if s.Obj != nil && !st.Facts.Prove(Sub(s.Len, s.Cap)) {
		// there may be room behind the slice: the append may write to its array
		in.Log.Stores = append(in.Log.Stores, &StoreEv{Ptr: &PtrV{Obj: s.Obj}, Instr: instr, Stack: in.StackNames(), Facts: st.Facts, How: "append"})
	}
	if in.Opt.AliasAppend && s.Obj != nil && s.Obj.IsSeq && st.Facts.Prove(Sub(Sub(s.Cap, s.Len), add.total())) && in.inPlace(st, s, add) {
		return ret(st, &SliceV{Obj: s.Obj, Off: s.Off, Len: Add(s.Len, add.total()), Cap: s.Cap})
	}
	if in.Opt.AliasAppend && s.Obj != nil && s.Obj.IsSeq && !st.Facts.Prove(Sub(s.Len, s.Cap)) {
		in.clobber(st, s, add)
	}
	o := newObj(OAlloc, et, "append")
	o.IsSeq = true
	o.Site = instr
	o.Root = fmt.Sprintf("%p@%s", instr, in.stack[len(in.stack)-1].ctx)
	o.From = s.Obj
	st.Heap[o] = n
	cp := Fresh(KInt, "cap")
	l := Add(s.Len, add.total())
	st.Facts = st.Facts.WithLin(Sub(cp, l))
	r := &SliceV{Obj: o, Off: Int(0), Len: l, Cap: cp}
	var elems []Val
	spread := false
	for _, g := range add.Segs {
		if g.Base != nil || g.Zero {
			spread = true
		}
		elems = append(elems, g.Elems...)
	}
	e := &Ev{Kind: "append", Elem: et, Args: elems, Instr: instr, Facts: st.Facts, Stack: in.StackNames(), Target: s}
	if spread {
		e.Kind = "spread"
		e.Args = []Val{s, args[1]}
	}
	st.Add(e)
	return ret(st, r)
}

// inPlace appends to a slice that certainly has room: the elements behind it are replaced.
func (in *Interp) inPlace(st *State, s *SliceV, add *SeqV) bool {
	full := st.objSeq(s.Obj)
	tot, ok1 := full.total().IntVal()
	n, ok2 := add.total().IntVal()
	lo, ok3 := Add(s.Off, s.Len).IntVal()
	if !ok1 || !ok2 || !ok3 || tot < lo || len(full.W) > 0 || len(add.W) > 0 {
		return false
	}
	var es []Val
	for i := int64(0); i < lo; i++ {
		es = append(es, full.Read(st.Facts, Int(i)))
	}
	for i := int64(0); i < n; i++ {
		es = append(es, add.Read(st.Facts, Int(i)))
	}
	for i := lo + n; i < tot; i++ {
		es = append(es, full.Read(st.Facts, Int(i)))
	}
	st.Heap[s.Obj] = &SeqV{Elem: full.Elem, Segs: []Seg{{Elems: es}}}
	return true
}

// clobber models that an append may write to the array of s: what is stored there behind s
// is the old or the new element afterwards.
func (in *Interp) clobber(st *State, s *SliceV, add *SeqV) {
	full := st.objSeq(s.Obj)
	tot, ok1 := full.total().IntVal()
	n, ok2 := add.total().IntVal()
	lo, ok3 := Add(s.Off, s.Len).IntVal()
	if !ok1 || !ok2 || !ok3 || tot <= lo || len(full.W) > 0 {
		return
	}
	var es []Val
	for i := int64(0); i < tot; i++ {
		v := full.Read(st.Facts, Int(i))
		if i >= lo && i < lo+n {
			if w := add.Read(st.Facts, Int(i-lo)); Key(w) != Key(v) {
				v = FreshVal(full.Elem, "overwritten")
			}
		}
		es = append(es, v)
	}
	st.Heap[s.Obj] = &SeqV{Elem: full.Elem, Segs: []Seg{{Elems: es}}}
}

// ---- external functions ----

func strArg(v Val) *Term { return v.(*Term) }

func fold1(t *Term, f func(string) string) (*Term, bool) {
	if s, ok := t.StrVal(); ok {
		return Str(f(s)), true
	}
	return nil, false
}

var purePrefixes = []string{"math.", "strings.", "unicode.", "strconv.", "unicode/utf8.", "(image/color.", "image/color.", "fmt.Sprint", "(image.", "image.", "path.", "bytes.", "math/bits."}

func (in *Interp) branch(st *State, lit *Term, yes, no func(*State) []RetState) []RetState {
	if v, ok := st.Facts.Decide(lit); ok {
		if f, ok2 := st.Facts.Assume(lit, v); ok2 {
			st.Facts = f
		}
		if v {
			return yes(st)
		}
		return no(st)
	}
	s2 := st.Clone()
	var out []RetState
	if f, ok := st.Facts.Assume(lit, true); ok {
		st.Facts = f
		out = append(out, yes(st)...)
	}
	if f, ok := s2.Facts.Assume(lit, false); ok {
		s2.Facts = f
		out = append(out, no(s2)...)
	}
	return out
}

func (in *Interp) newErr(label string) *Term {
	t := Fresh(KOther, label)
	t.Sym.NonNil = true
	return t
}

// AnyErr tells whether t is the error of a source that may be any error but io.EOF.
func AnyErr(t *Term) bool { return t.Sym != nil && strings.HasPrefix(t.Sym.Label, "err:Token#") }

func first(vs []Val) Val {
	if len(vs) == 0 {
		return nil
	}
	return vs[0]
}

// failing returns the two outcomes of a call that may fail.
func (in *Interp) failing(st *State, name string, okVals, errVals []Val) []RetState {
	s2 := st.Clone()
	in.setPend(s2, name)
	return []RetState{
		{st, mkTuple(append(append([]Val{}, okVals...), Nil()))},
		{s2, mkTuple(append(append([]Val{}, errVals...), in.newErr("err:"+name)))},
	}
}

func mkTuple(vs []Val) Val {
	if len(vs) == 1 {
		return vs[0]
	}
	return TupleV(vs)
}

func (in *Interp) external(st *State, name string, sig *types.Signature, args []Val, instr ssa.Instruction) []RetState {
	rs := in.external1(st, name, sig, args, instr)
	if len(rs) > 1 && instr != nil {
		if t, ok := first(args).(*Term); ok && name == "errors.As" && AnyErr(t) {
			return rs
		}
		for _, r := range rs {
			in.unsure(instr, r.St)
		}
	}
	return rs
}

func (in *Interp) external1(st *State, name string, sig *types.Signature, args []Val, instr ssa.Instruction) []RetState {
	if in.Opt.Call != nil {
		if r, ok := in.Opt.Call(in, st, name, args, instr); ok {
			return r
		}
	}
	if strings.HasSuffix(name, ".init") && len(args) == 0 {
		return ret(st, nil)
	}
	if r, ok := in.fold(st, name, args, instr); ok {
		return r
	}
	if r, ok := in.text(st, name, args, instr); ok {
		return r
	}
	switch name {
	case "(*encoding/xml.Decoder).Token", "(*encoding/xml.Decoder).RawToken":
		return in.xmlToken(st, instr)
	case "encoding/xml.NewDecoder", "encoding/xml.NewTokenDecoder":
		t := Fresh(KOther, "decoder")
		t.Sym.NonNil = true
		return ret(st, t)
	case "errors.Is":
		t, ok1 := args[0].(*Term)
		u, ok2 := args[1].(*Term)
		if ok1 && ok2 {
			switch {
			case t == u:
				return ret(st, Bool(true))
			case t.Op == "nil" || u.Op == "nil":
				return ret(st, in.eq(st, t, u, types.Universe.Lookup("error").Type()))
			case AnyErr(t):
				if t.ID > u.ID {
					t, u = u, t
				}
				return ret(st, App(KBool, "veq", t, u))
			}
		}
	case "errors.As":
		t, ok1 := args[0].(*Term)
		p, ok2 := args[1].(*PtrV)
		if i, ok := args[1].(*IfaceV); ok {
			p, ok2 = i.V.(*PtrV)
		}
		if ok1 && ok2 && AnyErr(t) && len(p.Path) == 0 {
			s2 := st.Clone()
			v := Fresh(KOther, "as")
			v.Sym.NonNil = true
			st.Store(p, ValOf(v, p.Obj.T))
			return []RetState{{st, Bool(true)}, {s2, Bool(false)}}
		}
	case "errors.New", "fmt.Errorf":
		return ret(st, in.newErr("error"))
	case "strings.ToLower", "strings.ToUpper":
		t := strArg(args[0])
		op, f := "lower", strings.ToLower
		if name == "strings.ToUpper" {
			op, f = "upper", strings.ToUpper
		}
		if r, ok := fold1(t, f); ok {
			return ret(st, r)
		}
		if t.Op == op {
			return ret(st, t)
		}
		return ret(st, App(KStr, op, t))
	case "strings.TrimSpace":
		t := strArg(args[0])
		if r, ok := fold1(t, strings.TrimSpace); ok {
			return ret(st, r)
		}
		if t.Op == "trim" && t.Args[1] == Str("space") {
			return ret(st, t)
		}
		return ret(st, App(KStr, "trim", t, Str("space")))
	case "strings.Trim", "strings.TrimLeft", "strings.TrimRight":
		return ret(st, App(KStr, "trim", strArg(args[0]), Str(name), strArg(args[1])))
	case "strings.TrimFunc", "strings.TrimLeftFunc", "strings.TrimRightFunc":
		return ret(st, App(KStr, "trim", strArg(args[0]), Str(name), argTerm(st, args[1])))
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		op := strings.ToLower(name[len("strings."):])
		l := App(KBool, op, strArg(args[0]), strArg(args[1]))
		if v, ok := st.Facts.Decide(l); ok {
			return ret(st, Bool(v))
		}
		return ret(st, l)
	case "strings.TrimPrefix", "strings.CutPrefix":
		s, p := strArg(args[0]), strArg(args[1])
		return in.branch(st, App(KBool, "hasprefix", s, p), func(st *State) []RetState {
			r := Substr(s, Len(p), Len(s))
			if name == "strings.CutPrefix" {
				return ret(st, TupleV{r, Bool(true)})
			}
			return ret(st, r)
		}, func(st *State) []RetState {
			if name == "strings.CutPrefix" {
				return ret(st, TupleV{s, Bool(false)})
			}
			return ret(st, s)
		})
	case "strings.TrimSuffix", "strings.CutSuffix":
		s, p := strArg(args[0]), strArg(args[1])
		return in.branch(st, App(KBool, "hassuffix", s, p), func(st *State) []RetState {
			r := Substr(s, Int(0), Sub(Len(s), Len(p)))
			if name == "strings.CutSuffix" {
				return ret(st, TupleV{r, Bool(true)})
			}
			return ret(st, r)
		}, func(st *State) []RetState {
			if name == "strings.CutSuffix" {
				return ret(st, TupleV{s, Bool(false)})
			}
			return ret(st, s)
		})
	case "strings.Split":
		return ret(st, ValOf(App(KOther, "split", strArg(args[0]), strArg(args[1])), types.NewSlice(types.Typ[types.String])))
	case "strings.SplitN":
		t := App(KOther, "splitn", strArg(args[0]), strArg(args[1]), strArg(args[2]))
		v := ValOf(t, types.NewSlice(types.Typ[types.String])).(*SliceV)
		if n, ok := strArg(args[2]).IntVal(); ok && n > 0 {
			st.Facts = st.Facts.WithLin(Sub(Int(n), v.Len))
			if sep, ok := strArg(args[1]).StrVal(); ok && sep != "" {
				st.Facts = st.Facts.WithLin(AddInt(v.Len, -1))
			}
		}
		return ret(st, v)
	case "strings.Fields", "strings.FieldsFunc":
		as := []*Term{strArg(args[0])}
		if len(args) > 1 {
			as = append(as, argTerm(st, args[1]))
		}
		return ret(st, ValOf(App(KOther, "fields", as...), types.NewSlice(types.Typ[types.String])))
	case "strings.Cut":
		s, p := strArg(args[0]), strArg(args[1])
		return in.branch(st, App(KBool, "contains", s, p), func(st *State) []RetState {
			i := App(KInt, "index", s, p)
			st.Facts = st.Facts.WithLin(i, Sub(Sub(Len(s), Len(p)), i))
			return ret(st, TupleV{Substr(s, Int(0), i), Substr(s, Add(i, Len(p)), Len(s)), Bool(true)})
		}, func(st *State) []RetState {
			return ret(st, TupleV{s, Str(""), Bool(false)})
		})
	case "strings.Index", "strings.IndexByte", "strings.IndexRune":
		s, p := strArg(args[0]), strArg(args[1])
		if p.Kind == KInt {
			if n, ok := p.IntVal(); ok {
				p = Str(string(rune(n)))
			} else {
				p = App(KStr, "runestr", p)
			}
		}
		if a, ok := s.StrVal(); ok {
			if b, ok := p.StrVal(); ok {
				return ret(st, Int(int64(strings.Index(a, b))))
			}
		}
		i := App(KInt, "index", s, p)
		return in.branch(st, Ge0(i), func(st *State) []RetState {
			st.Facts = st.Facts.WithLin(Sub(Sub(Len(s), Len(p)), i))
			n := st.Facts.clone()
			n.affixes(s)
			for l, v := range n.Lits {
				if v && l.Op == "hasprefix" && l.Args[0] == s {
					if c, ok := l.Args[1].StrVal(); ok {
						n.indexBound(i, c)
					}
				}
			}
			st.Facts = n
			return ret(st, i)
		}, func(st *State) []RetState { return ret(st, Int(-1)) })
	case "strings.LastIndex", "strings.LastIndexByte", "strings.IndexAny", "strings.IndexFunc", "strings.LastIndexAny":
		s := strArg(args[0])
		i := App(KInt, name, s, argTerm(st, args[1]))
		st.Facts = st.Facts.WithLin(AddInt(i, 1), Sub(Len(s), i))
		return ret(st, i)
	case "strings.EqualFold":
		return ret(st, SEq(lowerT(strArg(args[0])), lowerT(strArg(args[1]))))
	case "strings.Join":
		return ret(st, App(KStr, "join", argTerm(st, args[0]), strArg(args[1])))
	case "strconv.ParseFloat":
		return in.failing(st, name, []Val{App(KFloat, "parsefloat", strArg(args[0]))}, []Val{App(KFloat, "parsefloat!", strArg(args[0]))})
	case "strconv.Atoi":
		return in.failing(st, name, []Val{App(KInt, "atoi", strArg(args[0]))}, []Val{App(KInt, "atoi!", strArg(args[0]))})
	case "strconv.ParseInt", "strconv.ParseUint":
		b, bits := strArg(args[1]), strArg(args[2])
		op := "parseint"
		if name == "strconv.ParseUint" {
			op = "parseuint"
		}
		v := App(KInt, op, strArg(args[0]), b, bits)
		if n, ok := bits.IntVal(); ok && op == "parseuint" {
			if n > 0 && n < 40 {
				st.Facts = st.Facts.WithLin(v, Sub(Int(1<<uint(n)-1), v))
			} else {
				st.Facts = st.Facts.WithLin(v)
			}
		}
		e := App(KInt, op+"!", strArg(args[0]), b, bits)
		return in.failing(st, name, []Val{v}, []Val{e})
	case "log.Default":
		l := Fresh(KOther, "logger")
		l.Sym.NonNil = true
		return ret(st, l)
	case "(*log.Logger).Print", "(*log.Logger).Println", "(*log.Logger).Printf", "(*log.Logger).Output", "log.Output":
		st.Add(&Ev{Kind: "log", Name: name, Args: args, Instr: instr, Facts: st.Facts, Stack: in.StackNames()})
		if sig.Results().Len() == 0 {
			return ret(st, nil)
		}
		return ret(st, ValOf(Fresh(KOther, "logerr"), sig.Results().At(0).Type()))
	case "log.Print", "log.Println", "log.Printf":
		st.Add(&Ev{Kind: "log", Name: name, Args: args, Instr: instr, Facts: st.Facts, Stack: in.StackNames()})
		return ret(st, nil)
	case "os.Open", "os.OpenFile":
		f := Fresh(KOther, "file")
		f.Sym.NonNil = true
		r := in.failing(st, name, []Val{f}, []Val{Nil()})
		for _, x := range r {
			x.St.Add(&Ev{Kind: "call", Name: name, Args: args, Instr: instr, Facts: x.St.Facts, Stack: in.StackNames()})
		}
		return r
	case "(*os.File).Close":
		st.Add(&Ev{Kind: "call", Name: name, Args: args, Instr: instr, Facts: st.Facts, Stack: in.StackNames()})
		return ret(st, ValOf(Fresh(KOther, "closeerr"), sig.Results().At(0).Type()))
	}
	if strings.HasPrefix(name, "log.Fatal") || strings.HasPrefix(name, "log.Panic") || name == "os.Exit" {
		in.oblige(st, "panic", instr, false, "call of "+name)
		return nil
	}
	if strings.HasPrefix(name, "math.") && len(args) <= 2 {
		if name == "math.Sincos" {
			if a, ok := foldMath("math.Sin", args); ok {
				if b, ok := foldMath("math.Cos", args); ok {
					return ret(st, TupleV{a, b})
				}
			}
		}
		if r, ok := foldMath(name, args); ok {
			return ret(st, r)
		}
	}
	for _, p := range purePrefixes {
		if strings.HasPrefix(name, p) {
			return ret(st, pureResult(st, name, sig, args))
		}
	}
	return in.unknownCall(st, name, sig, args, instr)
}

func lowerT(t *Term) *Term {
	if s, ok := t.StrVal(); ok {
		return Str(strings.ToLower(s))
	}
	if t.Op == "lower" {
		return t
	}
	return App(KStr, "lower", t)
}

func pureResult(st *State, name string, sig *types.Signature, args []Val) Val {
	var as []*Term
	for _, a := range args {
		as = append(as, argTerm(st, a))
	}
	rs := sig.Results()
	var vs []Val
	for i := 0; i < rs.Len(); i++ {
		op := name
		if rs.Len() > 1 {
			op += "." + strconv.Itoa(i)
		}
		ty := rs.At(i).Type()
		vs = append(vs, ValOf(App(KindOf(ty), op, as...), ty))
	}
	if len(vs) == 0 {
		return nil
	}
	return mkTuple(vs)
}

func foldMath(name string, args []Val) (*Term, bool) {
	if name == "math.Atan2" {
		y, ok1 := args[0].(*Term)
		x, ok2 := args[1].(*Term)
		if ok1 && ok2 && !(y.IsConst() && x.IsConst()) {
			zero := func(t *Term) bool { return t.IsConst() && constant.Sign(t.C) == 0 }
			switch {
			case zero(y) && signOf(x) > 0:
				return Float(0), true
			case zero(y) && signOf(x) < 0:
				return Float(math.Pi), true
			case zero(x) && signOf(y) > 0:
				return Float(math.Pi / 2), true
			case zero(x) && signOf(y) < 0:
				return Float(-math.Pi / 2), true
			}
		}
	}
	var fs []float64
	for _, a := range args {
		t, ok := a.(*Term)
		if !ok || !t.IsConst() {
			return nil, false
		}
		f, _ := constant.Float64Val(t.C)
		fs = append(fs, f)
	}
	fin := func(f float64) (*Term, bool) {
		if math.IsInf(f, 0) || math.IsNaN(f) {
			return nil, false
		}
		return Float(f), true
	}
	if len(fs) == 1 {
		switch name {
		case "math.Sqrt":
			if fs[0] == 2 { // keep it recognisable
				return App(KFloat, "math.Sqrt", Float(2)), true
			}
			return fin(math.Sqrt(fs[0]))
		case "math.Sin":
			return fin(math.Sin(fs[0]))
		case "math.Cos":
			return fin(math.Cos(fs[0]))
		case "math.Tan":
			return fin(math.Tan(fs[0]))
		case "math.Abs":
			return fin(math.Abs(fs[0]))
		case "math.Floor":
			return fin(math.Floor(fs[0]))
		case "math.Ceil":
			return fin(math.Ceil(fs[0]))
		case "math.Round":
			return fin(math.Round(fs[0]))
		case "math.Trunc":
			return fin(math.Trunc(fs[0]))
		case "math.Atan":
			return fin(math.Atan(fs[0]))
		case "math.Asin":
			return fin(math.Asin(fs[0]))
		case "math.Acos":
			return fin(math.Acos(fs[0]))
		}
	}
	if len(fs) == 2 {
		switch name {
		case "math.Atan2":
			return fin(math.Atan2(fs[0], fs[1]))
		case "math.Hypot":
			return fin(math.Hypot(fs[0], fs[1]))
		case "math.Pow":
			return fin(math.Pow(fs[0], fs[1]))
		case "math.Mod":
			return fin(math.Mod(fs[0], fs[1]))
		case "math.Max":
			return fin(math.Max(fs[0], fs[1]))
		case "math.Min":
			return fin(math.Min(fs[0], fs[1]))
		}
	}
	return nil, false
}

// unknownCall models a call to code outside of the module about which nothing is known:
// its results are arbitrary, and so is what the pointers it receives refer to afterwards.
func (in *Interp) unknownCall(st *State, name string, sig *types.Signature, args []Val, instr ssa.Instruction) []RetState {
	ev := &Ev{Kind: "call", Name: name, Args: args, Instr: instr, Facts: st.Facts, Stack: in.StackNames(), State: st.Clone()}
	in.Log.Calls = append(in.Log.Calls, ev)
	if strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.") {
		for _, a := range args {
			if i, ok := a.(*IfaceV); ok {
				a = i.V
			}
			if s, ok := a.(*SliceV); ok && s.Obj != nil {
				in.Log.Stores = append(in.Log.Stores, &StoreEv{Ptr: &PtrV{Obj: s.Obj}, Instr: instr, Stack: in.StackNames(), Facts: st.Facts, How: "call of " + name})
			}
		}
	}
	var as []*Term
	for _, a := range args {
		if p, ok := a.(*PtrV); ok && p.Obj.Kind == OAlloc && len(p.Path) == 0 {
			if s, ok := st.Heap[p.Obj].(*StructV); ok {
				as = append(as, App(KOther, "ref", argTerm(st, a), argTerm(st, s)))
				continue
			}
		}
		as = append(as, argTerm(st, a))
	}
	for _, a := range args {
		in.havoc(st, a, map[*Obj]bool{})
	}
	symCount++
	as = append(as, Int(int64(symCount)))
	rs := sig.Results()
	mk := func() []Val {
		var vs []Val
		for i := 0; i < rs.Len(); i++ {
			ty := rs.At(i).Type()
			v := ValOf(App(KindOf(ty), "call:"+name+"."+strconv.Itoa(i), as...), ty)
			vs = append(vs, v)
		}
		return vs
	}
	vs := mk()
	if n := rs.Len(); n > 0 && isError(rs.At(n-1).Type()) {
		s2 := st.Clone()
		in.setPend(s2, name)
		ok := append(append([]Val{}, vs[:n-1]...), Nil())
		for _, v := range vs[:n-1] {
			if t, isT := v.(*Term); isT && t.Kind == KOther {
				if f, k := st.Facts.Assume(App(KBool, "isnil", t), false); k {
					st.Facts = f
				}
			}
		}
		bad := append(append([]Val{}, vs[:n-1]...), in.newErr("err:"+name))
		st.Add(ev)
		s2.Add(ev)
		return []RetState{{st, mkTuple(ok)}, {s2, mkTuple(bad)}}
	}
	for _, v := range vs {
		if t, isT := v.(*Term); isT && t.Kind == KOther {
			// constructors return something usable
			if f, k := st.Facts.Assume(App(KBool, "isnil", t), false); k {
				st.Facts = f
			}
		}
	}
	st.Add(ev)
	if len(vs) == 0 {
		return ret(st, nil)
	}
	return ret(st, mkTuple(vs))
}

func (in *Interp) havoc(st *State, v Val, seen map[*Obj]bool) {
	switch x := v.(type) {
	case *PtrV:
		if seen[x.Obj] || x.Obj.Kind == OGlobal {
			return
		}
		seen[x.Obj] = true
		if x.Obj.Kind == OSym {
			return
		}
		st.SetContent(x.Obj, FreshVal(x.Obj.T, "havoc"))
	case *IfaceV:
		in.havoc(st, x.V, seen)
	}
}

// xmlToken models Decoder.Token: a start or end element (properly nested: the decoder
// checks that), character data, something else, the end of the input, or an error.
func (in *Interp) xmlToken(st *State, instr ssa.Instruction) []RetState {
	in.noteTokenLoop()
	if in.Opt.Token != nil {
		return in.Opt.Token(in, st, instr)
	}
	var out []RetState
	for _, k := range []string{"start", "end", "chars", "other", "eof", "err"} {
		out = append(out, in.TokenOf(st.Clone(), k, instr)...)
	}
	return out
}

// XML types, resolved from the program.
func (in *Interp) xmlType(name string) types.Type {
	for _, p := range in.Prog.AllPackages() {
		if p.Pkg.Path() == "encoding/xml" {
			return p.Pkg.Scope().Lookup(name).Type()
		}
	}
	panic(unsupported("encoding/xml not loaded"))
}

// TokenOf returns the outcome of Token for one kind of token.
func (in *Interp) TokenOf(st *State, kind string, instr ssa.Instruction) []RetState {
	depth, ok := st.Ghost["depth"].(*Term)
	if !ok {
		depth = Int(0)
	}
	st.Ghost["!tok"] = Str(kind)
	ntok, ok := st.Ghost["ntok"].(*Term)
	if !ok {
		ntok = Int(0)
	}
	st.Ghost["ntok"] = AddInt(ntok, 1)
	switch kind {
	case "start":
		t := in.xmlType("StartElement")
		v := ValOf(Fresh(KOther, "start"), t)
		st.Ghost["depth"] = AddInt(depth, 1)
		st.Ghost["!start"] = v
		return ret(st, TupleV{&IfaceV{T: t, V: v}, Nil()})
	case "end":
		f, ok := st.Facts.Assume(Ge0(AddInt(depth, -1)), true)
		if !ok {
			return nil
		}
		st.Facts = f
		st.Ghost["depth"] = AddInt(depth, -1)
		t := in.xmlType("EndElement")
		v := ValOf(Fresh(KOther, "end"), t)
		st.Ghost["!end"] = v
		return ret(st, TupleV{&IfaceV{T: t, V: v}, Nil()})
	case "chars":
		t := in.xmlType("CharData")
		v := ValOf(Fresh(KOther, "chars"), t)
		st.Ghost["!chars"] = v
		return ret(st, TupleV{&IfaceV{T: t, V: v}, Nil()})
	case "other":
		tok := Fresh(KOther, "token")
		tok.Sym.NonNil = true
		f := st.Facts
		for _, n := range []string{"StartElement", "EndElement", "CharData"} {
			f, _ = f.Assume(App(KBool, "istype", tok, TypeTerm(in.xmlType(n))), false)
		}
		st.Facts = f
		return ret(st, TupleV{tok, Nil()})
	case "eof":
		return ret(st, TupleV{Nil(), in.eof(st)})
	case "err":
		e := in.newErr("err:Token")
		eof := in.eof(st)
		a, b := e, TermOf(eof)
		if a.ID > b.ID {
			a, b = b, a
		}
		if f, ok := st.Facts.Assume(App(KBool, "veq", a, b), false); ok {
			st.Facts = f
		}
		in.setPend(st, "(*encoding/xml.Decoder).Token")
		return ret(st, TupleV{Nil(), e})
	}
	return nil
}

func (in *Interp) eof(st *State) Val {
	for _, p := range in.Prog.AllPackages() {
		if p.Pkg.Path() == "io" {
			if g, ok := p.Members["EOF"].(*ssa.Global); ok {
				v := st.Content(in.GlobalObj(g))
				if t, ok := v.(*Term); ok && t.Sym != nil {
					t.Sym.NonNil = true
				}
				return v
			}
		}
	}
	return in.newErr("EOF")
}
