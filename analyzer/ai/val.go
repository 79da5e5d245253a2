package ai

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func mkBig(b *big.Int) constant.Value { return constant.Make(new(big.Int).Set(b)) }

// Val is an abstract value: *Term, *StructV, *ArrV, *SliceV, *PtrV, *IfaceV, *FuncV, *MapV or TupleV.
type Val interface{}

// StructV is a struct value.
type StructV struct{ F []Val }

// ArrV is an array value.
type ArrV struct{ E []Val }

// SliceV is a slice value. Obj is nil for the nil slice.
type SliceV struct {
	Obj           *Obj
	Off, Len, Cap *Term
}

// PE is a step of a pointer path: a field, or an index.
type PE struct {
	F   int
	Idx *Term
}

// PtrV is a pointer into an object.
type PtrV struct {
	Obj  *Obj
	Path []PE
}

// IfaceV is an interface holding a value of a known type.
type IfaceV struct {
	T types.Type
	V Val
}

// FuncV is a known function or closure.
type FuncV struct {
	Fn   *ssa.Function
	Bind []Val
}

// MapV refers to a map object.
type MapV struct{ Obj *Obj }

// TupleV is the result of a call with several results.
type TupleV []Val

// ObjKind tells where an object comes from.
type ObjKind uint8

// Kinds of objects.
const (
	OAlloc ObjKind = iota
	OSym
	OGlobal
)

// Obj is an abstract memory object: a variable, a backing array or a map.
type Obj struct {
	ID      int
	Kind    ObjKind
	T       types.Type // type of the content (element type for sequences)
	Key     *Term      // for symbolic objects: the pointer they belong to
	Label   string
	Global  *ssa.Global
	IsSeq   bool
	IsMap   bool
	Shared  bool   // a pointer to it was merged with another one
	From    *Obj   // backing array this one continues after an append
	Merged  []*Obj // backing arrays it stands for after a join
	Site    ssa.Instruction
	InitLen *Term // length of a symbolic sequence
	Root    string
}

var objCount int

func newObj(k ObjKind, t types.Type, label string) *Obj {
	objCount++
	return &Obj{ID: objCount, Kind: k, T: t, Label: label}
}

// Seg is a piece of a sequence: known elements, or a part of an opaque sequence.
type Seg struct {
	Elems []Val // known elements
	Base  *Term // opaque sequence
	Off   *Term
	Len   *Term
	Zero  bool // all elements are zero values
}

func (s Seg) length() *Term {
	if s.Base != nil || s.Zero {
		return s.Len
	}
	return Int(int64(len(s.Elems)))
}

// Wr is a write at an index that could not be resolved to a known element.
type Wr struct {
	Idx *Term
	V   Val
}

// SeqV is the content of a backing array.
type SeqV struct {
	Elem types.Type
	Segs []Seg
	W    []Wr
	term *Term
}

func (s *SeqV) total() *Term {
	t := Int(0)
	for _, g := range s.Segs {
		t = Add(t, g.length())
	}
	return t
}

// MapEnt is a known map entry.
type MapEnt struct {
	K, V Val
}

// MapC is the content of a map.
type MapC struct {
	Base    *Term // nil when everything in the map is known
	Known   []MapEnt
	NonNil  bool // all values are non-nil
	KT, VT  types.Type
	Writes  int
	MayLess bool // entries may have been deleted
}

// Ev is something observable that happened.
type Ev struct {
	Kind   string // "call", "append", "store", "log", "alt", "loop"
	Name   string
	Args   []Val
	Instr  ssa.Instruction
	Facts  *Facts
	Alts   []*EvAlt
	Stack  []string
	State  *State
	Elem   types.Type
	Target Val
	N      *Term // iteration number of a loop event
}

// EvAlt is one alternative of an alt or loop event.
type EvAlt struct {
	Facts *Facts
	Evs   *EvList
	State *State
}

// EvList is a persistent list of events, newest first.
type EvList struct {
	Prev *EvList
	E    *Ev
	N    int
}

// Slice returns the events oldest first.
func (l *EvList) Slice() []*Ev {
	var out []*Ev
	for ; l != nil; l = l.Prev {
		if l.E != nil {
			out = append(out, l.E)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// State is an abstract state at a program point.
type State struct {
	Regs   map[ssa.Value]Val
	Heap   map[*Obj]Val
	Facts  *Facts
	Ghost  map[string]Val
	Evs    *EvList
	Defers []*deferred
	bad    string
	Unsure string // a fork whose sides are not known to be possible was taken here
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	in   ssa.Instruction
}

// Clone copies the state.
func (s *State) Clone() *State {
	n := &State{Facts: s.Facts, Evs: s.Evs, bad: s.bad, Unsure: s.Unsure}
	n.Regs = make(map[ssa.Value]Val, len(s.Regs)+4)
	for k, v := range s.Regs {
		n.Regs[k] = v
	}
	n.Heap = make(map[*Obj]Val, len(s.Heap)+4)
	for k, v := range s.Heap {
		n.Heap[k] = v
	}
	n.Ghost = make(map[string]Val, len(s.Ghost))
	for k, v := range s.Ghost {
		n.Ghost[k] = v
	}
	n.Defers = s.Defers[:len(s.Defers):len(s.Defers)]
	return n
}

// Add appends an event.
func (s *State) Add(e *Ev) {
	n := 1
	if s.Evs != nil {
		n = s.Evs.N + 1
	}
	s.Evs = &EvList{Prev: s.Evs, E: e, N: n}
}

var symCount int

// Fresh returns a new symbol.
func Fresh(k Kind, label string) *Term {
	symCount++
	t := NewSym("#"+strconv.Itoa(symCount), k, label+"#"+strconv.Itoa(symCount))
	t.Sym.N = symCount
	return t
}

// KindOf returns the term kind for values of type t.
func KindOf(t types.Type) Kind {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsInteger != 0:
			return KInt
		case b.Info()&types.IsFloat != 0:
			return KFloat
		case b.Info()&types.IsString != 0:
			return KStr
		case b.Info()&types.IsBoolean != 0:
			return KBool
		}
	}
	return KOther
}

const maxArr = 32

// maxSeq is the length up to which a slice of zero values is spelled out when written to.
const maxSeq = 1024

var typeTerms = map[string]*Term{}

// TypeTerm names a type inside terms.
func TypeTerm(t types.Type) *Term {
	k := types.TypeString(t, nil)
	if x, ok := typeTerms[k]; ok {
		return x
	}
	l := k
	if types.IsInterface(t) {
		l = "iface " + k
	}
	x := NewSym("type:"+k, KOther, l)
	typeTerms[k] = x
	return x
}

var (
	symObjs  = map[string]*Obj{}
	symTypes = map[*Term]types.Type{}
)

// objOfTerm returns the symbolic object with the given key.
func objOfTerm(t *Term, elem types.Type, kind string) *Obj {
	k := kind + strconv.Itoa(t.ID) + types.TypeString(elem, nil)
	if o, ok := symObjs[k]; ok {
		return o
	}
	o := newObj(OSym, elem, t.String())
	o.Key = t
	o.IsSeq = kind == "seq"
	o.IsMap = kind == "map"
	symObjs[k] = o
	return o
}

// ValOf returns the value of type ty denoted by the opaque term t.
func ValOf(t *Term, ty types.Type) Val {
	switch u := ty.Underlying().(type) {
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, ValOf(App(KindOf(u.Field(i).Type()), "f:"+u.Field(i).Name(), t), u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() <= maxArr {
			a := &ArrV{}
			for i := int64(0); i < u.Len(); i++ {
				a.E = append(a.E, ValOf(App(KindOf(u.Elem()), "sel", t, Int(i)), u.Elem()))
			}
			return a
		}
		return t
	case *types.Slice:
		o := objOfTerm(t, u.Elem(), "seq")
		o.InitLen = App(KInt, "cap", t)
		return &SliceV{Obj: o, Off: Int(0), Len: App(KInt, "len", t), Cap: App(KInt, "cap", t)}
	case *types.Map:
		return &MapV{Obj: objOfTerm(t, ty, "map")}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, ValOf(App(KindOf(u.At(i).Type()), "res"+strconv.Itoa(i), t), u.At(i).Type()))
		}
		return tv
	}
	if t.Kind != KindOf(ty) && t.Op != "const" {
		t = App(KindOf(ty), "as", t)
	}
	if _, ok := symTypes[t]; !ok {
		symTypes[t] = ty
	}
	if b, ok := ty.Underlying().(*types.Basic); ok && t.Sym != nil && t.Sym.Lo == nil {
		switch b.Kind() {
		case types.Uint8:
			t.Sym.Lo, t.Sym.Hi = big.NewInt(0), big.NewInt(255)
		case types.Uint, types.Uint16, types.Uint32, types.Uint64:
			t.Sym.Lo = big.NewInt(0)
		}
	}
	return t
}

// FreshVal returns an unknown value of type ty.
func FreshVal(ty types.Type, label string) Val { return ValOf(Fresh(KindOf(ty), label), ty) }

// Zero returns the zero value of ty.
func Zero(ty types.Type) Val {
	switch u := ty.Underlying().(type) {
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, Zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() <= maxArr {
			a := &ArrV{}
			for i := int64(0); i < u.Len(); i++ {
				a.E = append(a.E, Zero(u.Elem()))
			}
			return a
		}
		return Fresh(KOther, "zeroarr")
	case *types.Slice:
		return &SliceV{Off: Int(0), Len: Int(0), Cap: Int(0)}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, Zero(u.At(i).Type()))
		}
		return tv
	}
	switch KindOf(ty) {
	case KInt:
		return Int(0)
	case KFloat:
		return Float(0)
	case KStr:
		return Str("")
	case KBool:
		return Bool(false)
	}
	return Nil()
}

// ---- structural keys ----

func (o *Obj) name() string { return "o" + strconv.Itoa(o.ID) }

// Key returns a structural key of v (objects by identity).
func Key(v Val) string {
	var sb strings.Builder
	writeKey(&sb, v)
	return sb.String()
}

func writeKey(sb *strings.Builder, v Val) {
	switch x := v.(type) {
	case nil:
		sb.WriteString("_")
	case *Term:
		sb.WriteString("t")
		sb.WriteString(strconv.Itoa(x.ID))
	case *StructV:
		sb.WriteString("{")
		for _, f := range x.F {
			writeKey(sb, f)
			sb.WriteByte(',')
		}
		sb.WriteString("}")
	case *ArrV:
		sb.WriteString("[")
		for _, f := range x.E {
			writeKey(sb, f)
			sb.WriteByte(',')
		}
		sb.WriteString("]")
	case *SliceV:
		if x.Obj == nil {
			sb.WriteString("s0")
			return
		}
		fmt.Fprintf(sb, "s%d:%d:%d:%d", x.Obj.ID, x.Off.ID, x.Len.ID, x.Cap.ID)
	case *PtrV:
		fmt.Fprintf(sb, "p%d", x.Obj.ID)
		for _, p := range x.Path {
			if p.Idx != nil {
				fmt.Fprintf(sb, "[%d]", p.Idx.ID)
			} else {
				fmt.Fprintf(sb, ".%d", p.F)
			}
		}
	case *IfaceV:
		sb.WriteString("i<" + types.TypeString(x.T, nil) + ">")
		writeKey(sb, x.V)
	case *FuncV:
		sb.WriteString("f" + x.Fn.String() + fmt.Sprintf("%p", x.Fn))
		for _, b := range x.Bind {
			writeKey(sb, b)
			sb.WriteByte(',')
		}
	case *MapV:
		sb.WriteString("m" + x.Obj.name())
	case TupleV:
		sb.WriteString("(")
		for _, f := range x {
			writeKey(sb, f)
			sb.WriteByte(',')
		}
		sb.WriteString(")")
	case *SeqV:
		sb.WriteString("q")
		for _, g := range x.Segs {
			if g.Zero {
				fmt.Fprintf(sb, "<z%d>", g.Len.ID)
			} else if g.Base != nil {
				fmt.Fprintf(sb, "<%d:%d:%d>", g.Base.ID, g.Off.ID, g.Len.ID)
			} else {
				sb.WriteString("<")
				for _, e := range g.Elems {
					writeKey(sb, e)
					sb.WriteByte(';')
				}
				sb.WriteString(">")
			}
		}
		for _, w := range x.W {
			fmt.Fprintf(sb, "w%d=", w.Idx.ID)
			writeKey(sb, w.V)
		}
	case *MapC:
		sb.WriteString("M")
		if x.Base != nil {
			sb.WriteString(strconv.Itoa(x.Base.ID))
		}
		for _, e := range x.Known {
			writeKey(sb, e.K)
			sb.WriteByte(':')
			writeKey(sb, e.V)
			sb.WriteByte(',')
		}
	default:
		fmt.Fprintf(sb, "?%T", v)
	}
}

// TermOf gives a term for any value (used in terms that embed values).
func TermOf(v Val) *Term {
	if t, ok := v.(*Term); ok {
		return t
	}
	if i, ok := v.(*IfaceV); ok {
		return App(KOther, "iface", TypeTerm(i.T), TermOf(i.V))
	}
	if s, ok := v.(*StructV); ok {
		// a struct whose fields are all selections of one term is that term
		var base *Term
		same := len(s.F) > 0
		var args []*Term
		for _, f := range s.F {
			t, ok := f.(*Term)
			if !ok {
				same = false
				t = TermOf(f)
			}
			args = append(args, t)
			if same {
				if !strings.HasPrefix(t.Op, "f:") || base != nil && base != t.Args[0] {
					same = false
				} else {
					base = t.Args[0]
				}
			}
		}
		if same && base != nil {
			return base
		}
		return App(KOther, "mk", args...)
	}
	if s, ok := v.(*ArrV); ok {
		var args []*Term
		for _, f := range s.E {
			args = append(args, TermOf(f))
		}
		return App(KOther, "mkarr", args...)
	}
	if s, ok := v.(*SliceV); ok && s.Obj != nil && s.Obj.Kind == OSym && s.Obj.Key != nil && s.Len == App(KInt, "len", s.Obj.Key) {
		return s.Obj.Key
	}
	if s, ok := v.(*MapV); ok && s.Obj.Kind == OSym && s.Obj.Key != nil {
		return s.Obj.Key
	}
	if f, ok := v.(*FuncV); ok && len(f.Bind) == 0 {
		return NewSym("fn:"+f.Fn.String(), KOther, f.Fn.String())
	}
	k := Key(v)
	l := k
	if len(l) > 60 {
		l = l[:60] + "…"
	}
	return NewSym("val:"+k, KOther, l)
}

// VStr renders a value for reports.
func VStr(v Val) string {
	switch x := v.(type) {
	case nil:
		return "-"
	case *Term:
		return x.String()
	case *StructV:
		var p []string
		for _, f := range x.F {
			p = append(p, VStr(f))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case *ArrV:
		var p []string
		for _, f := range x.E {
			p = append(p, VStr(f))
		}
		return "[" + strings.Join(p, ", ") + "]"
	case *SliceV:
		if x.Obj == nil {
			return "nil-slice"
		}
		return fmt.Sprintf("slice(%s off %s len %s)", x.Obj.Label, x.Off, x.Len)
	case *PtrV:
		s := "&" + x.Obj.Label
		for _, p := range x.Path {
			if p.Idx != nil {
				s += "[" + p.Idx.String() + "]"
			} else {
				s += "." + strconv.Itoa(p.F)
			}
		}
		return s
	case *IfaceV:
		return types.TypeString(x.T, func(*types.Package) string { return "" }) + "(" + VStr(x.V) + ")"
	case *FuncV:
		return x.Fn.Name()
	case *MapV:
		return "map " + x.Obj.Label
	case TupleV:
		var p []string
		for _, f := range x {
			p = append(p, VStr(f))
		}
		return "(" + strings.Join(p, ", ") + ")"
	case *SeqV:
		var p []string
		for _, g := range x.Segs {
			switch {
			case g.Zero:
				p = append(p, "0*"+g.Len.String())
			case g.Base != nil:
				p = append(p, fmt.Sprintf("%s[%s:+%s]", g.Base, g.Off, g.Len))
			default:
				for _, e := range g.Elems {
					p = append(p, VStr(e))
				}
			}
		}
		for _, w := range x.W {
			p = append(p, fmt.Sprintf("w[%s]=%s", w.Idx, VStr(w.V)))
		}
		return "<" + strings.Join(p, "; ") + ">"
	case *MapC:
		return fmt.Sprintf("map(base %v, %d known)", x.Base, len(x.Known))
	}
	return fmt.Sprintf("%T", v)
}

func sortedObjs(m map[*Obj]Val) []*Obj {
	out := make([]*Obj, 0, len(m))
	for o := range m {
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}
