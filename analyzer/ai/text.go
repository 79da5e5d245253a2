package ai

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Text produced from constants: fmt.Sprint and friends, strconv.Format and strings.Builder.

// goVal turns a constant of a basic type into the Go value.
func (in *Interp) goVal(t types.Type, v Val) (interface{}, bool) {
	c, ok := v.(*Term)
	if !ok || t == nil {
		return nil, false
	}
	if !c.IsConst() {
		if b, ok := t.Underlying().(*types.Basic); ok && in.Holes != nil && b.Info()&types.IsNumeric != 0 && types.NewMethodSet(t).Len() == 0 {
			return Hole{in, c}, true
		}
		return nil, false
	}
	if types.NewMethodSet(t).Len() > 0 {
		return nil, false // may format itself
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	switch {
	case b.Info()&types.IsString != 0:
		s, ok := c.StrVal()
		return s, ok
	case b.Info()&types.IsBoolean != 0:
		x, ok := c.BoolVal()
		return x, ok
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(c.C))
		if b.Kind() == types.Float32 {
			return float32(f), true
		}
		return f, true
	case b.Info()&types.IsInteger != 0:
		n, ok := c.IntVal()
		switch b.Kind() {
		case types.Uint8:
			return uint8(n), ok
		case types.Uint16, types.Uint32, types.Uint, types.Uint64, types.Uintptr:
			return uint64(n), ok
		case types.Int32:
			return int32(n), ok
		}
		return n, ok
	}
	return nil, false
}

// Hole is a number that is not known: it is printed as a mark that stands for its text.
type Hole struct {
	in *Interp
	T  *Term
}

// Format writes the mark: the index of the term and the verb.
func (h Hole) Format(f fmt.State, verb rune) {
	fmt.Fprintf(f, "%s", h.in.mark(h.T, fmt.FormatString(f, verb)))
}

func (in *Interp) mark(t *Term, verb string) string {
	in.Holes.Terms = append(in.Holes.Terms, t)
	return fmt.Sprintf("\x01%d|%s\x02", len(in.Holes.Terms)-1, verb)
}

// Holes are the unknown numbers that were printed.
type Holes struct{ Terms []*Term }

func (in *Interp) goVals(st *State, v Val) ([]interface{}, bool) {
	s, ok := v.(*SliceV)
	if !ok {
		t, ok := v.(*Term)
		return nil, ok && t.Op == "nil"
	}
	if s.Obj == nil {
		return nil, true
	}
	c := st.SliceContent(s)
	if len(c.W) > 0 {
		return nil, false
	}
	var out []interface{}
	for _, g := range c.Segs {
		if g.Base != nil || g.Zero {
			return nil, false
		}
		for _, e := range g.Elems {
			i, ok := e.(*IfaceV)
			if !ok {
				return nil, false
			}
			x, ok := in.goVal(i.T, i.V)
			if !ok {
				return nil, false
			}
			out = append(out, x)
		}
	}
	return out, true
}

func (in *Interp) sprint(st *State, kind string, args []Val) (string, bool) {
	format := ""
	if kind == "f" {
		f, ok := args[0].(*Term)
		if !ok {
			return "", false
		}
		if format, ok = f.StrVal(); !ok {
			return "", false
		}
		args = args[1:]
	}
	if len(args) != 1 {
		return "", false
	}
	vs, ok := in.goVals(st, args[0])
	if !ok {
		return "", false
	}
	switch kind {
	case "f":
		return fmt.Sprintf(format, vs...), true
	case "ln":
		return fmt.Sprintln(vs...), true
	}
	return fmt.Sprint(vs...), true
}

// text models functions that make text of constants.
func (in *Interp) text(st *State, name string, args []Val, instr ssa.Instruction) ([]RetState, bool) {
	one := func(v Val) ([]RetState, bool) { return ret(st, v), true }
	switch name {
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		if s, ok := in.sprint(st, strings.TrimPrefix(name, "fmt.Sprint"), args); ok {
			return one(Str(s))
		}
		return nil, false
	case "strconv.Itoa":
		if n, ok := args[0].(*Term).IntVal(); ok {
			return one(Str(strconv.Itoa(int(n))))
		}
		return nil, false
	case "strconv.Quote":
		if s, ok := args[0].(*Term).StrVal(); ok {
			return one(Str(strconv.Quote(s)))
		}
		return nil, false
	case "strconv.FormatInt":
		n, ok := args[0].(*Term).IntVal()
		b, ok2 := args[1].(*Term).IntVal()
		if ok && ok2 {
			return one(Str(strconv.FormatInt(n, int(b))))
		}
		return nil, false
	case "strconv.FormatFloat":
		x, ok := in.goVal(types.Typ[types.Float64], args[0])
		f, ok2 := args[1].(*Term).IntVal()
		p, ok3 := args[2].(*Term).IntVal()
		b, ok4 := args[3].(*Term).IntVal()
		if h, hole := x.(Hole); hole && ok2 && ok3 && ok4 {
			return one(Str(in.mark(h.T, fmt.Sprintf("%%.%d%c", p, rune(f)))))
		}
		if ok && ok2 && ok3 && ok4 {
			return one(Str(strconv.FormatFloat(x.(float64), byte(f), int(p), int(b))))
		}
		return nil, false
	}
	if !in.Opt.Unroll {
		return nil, false
	}
	for _, b := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		if strings.HasPrefix(name, b) {
			return in.builder(st, strings.TrimPrefix(name, b), args, b == "(*bytes.Buffer).")
		}
	}
	if strings.HasPrefix(name, "bytes.") {
		return in.bytesFn(st, strings.TrimPrefix(name, "bytes."), args)
	}
	if strings.HasPrefix(name, "fmt.Fprint") && len(args) > 1 {
		w, ok := args[0].(*IfaceV)
		if !ok {
			return nil, false
		}
		p, ok := w.T.(*types.Pointer)
		if !ok || p.Elem().String() != "strings.Builder" && p.Elem().String() != "bytes.Buffer" {
			return nil, false
		}
		s, ok := in.sprint(st, strings.TrimPrefix(name, "fmt.Fprint"), args[1:])
		if !ok {
			return nil, false
		}
		r, ok := in.builder(st, "WriteString", []Val{w.V, Str(s)}, p.Elem().String() == "bytes.Buffer")
		return r, ok
	}
	return nil, false
}

// builder models a strings.Builder of constant text: the text is kept in the place of its buffer.
func (in *Interp) builder(st *State, m string, args []Val, buffer bool) ([]RetState, bool) {
	p, ok := args[0].(*PtrV)
	if !ok {
		return nil, false
	}
	b, ok := st.Load(p).(*StructV)
	if !ok || len(b.F) < 2 {
		return nil, false
	}
	at := len(b.F) - 1
	if buffer {
		at = 0
	}
	cur := ""
	switch x := b.F[at].(type) {
	case *Term:
		if x.Op != "nil" {
			s, ok := x.StrVal()
			if !ok {
				return nil, false
			}
			cur = s
		}
	case *SliceV:
		if x.Obj != nil {
			return nil, false
		}
	default:
		return nil, false
	}
	set := func(s string) {
		f := append([]Val{}, b.F...)
		f[at] = Str(s)
		st.Store(p, &StructV{F: f})
	}
	one := func(v Val) ([]RetState, bool) { return ret(st, v), true }
	switch m {
	case "String":
		return one(Str(cur))
	case "Len":
		return one(Int(int64(len(cur))))
	case "Reset":
		set("")
		return one(nil)
	case "Grow":
		return one(nil)
	case "WriteString":
		if s, ok := args[1].(*Term).StrVal(); ok {
			set(cur + s)
			return one(TupleV{Int(int64(len(s))), Nil()})
		}
	case "Write":
		if x, ok := args[1].(*SliceV); ok {
			if s, ok := st.constBytes(x); ok {
				set(cur + s)
				return one(TupleV{Int(int64(len(s))), Nil()})
			}
		}
	case "Bytes":
		if buffer {
			return one(in.bytesOf(st, cur))
		}
	case "WriteByte":
		if n, ok := args[1].(*Term).IntVal(); ok {
			set(cur + string([]byte{byte(n)}))
			return one(Nil())
		}
	case "WriteRune":
		if n, ok := args[1].(*Term).IntVal(); ok {
			set(cur + string(rune(n)))
			return one(TupleV{Int(int64(len(string(rune(n))))), Nil()})
		}
	}
	return nil, false
}

// NewVar allocates a variable.
func (in *Interp) NewVar(st *State, t types.Type, v Val, label string) *PtrV {
	o := newObj(OAlloc, t, label)
	st.Heap[o] = v
	return &PtrV{Obj: o}
}

// constBytes reads a slice of known bytes.
func (st *State) constBytes(x *SliceV) (string, bool) {
	if x.Obj == nil {
		return "", true
	}
	c := st.SliceContent(x)
	if len(c.W) > 0 {
		return "", false
	}
	var b []byte
	for _, g := range c.Segs {
		if g.Base != nil || g.Zero {
			return "", false
		}
		for _, e := range g.Elems {
			t, ok := e.(*Term)
			if !ok {
				return "", false
			}
			n, ok := t.IntVal()
			if !ok {
				return "", false
			}
			b = append(b, byte(n))
		}
	}
	return string(b), true
}

func (in *Interp) bytesOf(st *State, s string) *SliceV {
	sq := &SeqV{Elem: types.Typ[types.Byte]}
	var es []Val
	for i := 0; i < len(s); i++ {
		es = append(es, Int(int64(s[i])))
	}
	if len(es) > 0 {
		sq.Segs = []Seg{{Elems: es}}
	}
	return in.NewSlice(st, sq, "bytes")
}

// bytesFn models functions of package bytes for known bytes; trimming keeps the array.
func (in *Interp) bytesFn(st *State, m string, args []Val) ([]RetState, bool) {
	var ss []string
	for _, a := range args {
		switch x := a.(type) {
		case *SliceV:
			s, ok := st.constBytes(x)
			if !ok {
				return nil, false
			}
			ss = append(ss, s)
		case *Term:
			s, ok := x.StrVal()
			if !ok {
				return nil, false
			}
			ss = append(ss, s)
		default:
			return nil, false
		}
	}
	one := func(v Val) ([]RetState, bool) { return ret(st, v), true }
	part := func(skip int, r string) ([]RetState, bool) {
		x := args[0].(*SliceV)
		return one(&SliceV{Obj: x.Obj, Off: AddInt(x.Off, int64(skip)), Len: Int(int64(len(r))), Cap: AddInt(x.Cap, int64(-skip))})
	}
	trim := func(l, r func(string) string) ([]RetState, bool) {
		if x := args[0].(*SliceV); x.Obj == nil {
			return one(x)
		}
		a := l(ss[0])
		return part(len(ss[0])-len(a), r(a))
	}
	same := func(s string) string { return s }
	switch {
	case m == "NewBufferString" && len(ss) == 1 || m == "NewBuffer" && len(ss) == 1:
		return nil, false
	case len(ss) == 1:
		switch m {
		case "TrimSpace":
			return trim(func(s string) string { return strings.TrimLeft(s, " \t\n\v\f\r\u0085\u00a0") }, strings.TrimSpace)
		case "ToLower":
			return one(in.bytesOf(st, strings.ToLower(ss[0])))
		case "ToUpper":
			return one(in.bytesOf(st, strings.ToUpper(ss[0])))
		case "Clone":
			return one(in.bytesOf(st, ss[0]))
		}
	case len(ss) == 2:
		switch m {
		case "Trim", "TrimLeft", "TrimRight":
			l, r := func(s string) string { return strings.TrimLeft(s, ss[1]) }, func(s string) string { return strings.TrimRight(s, ss[1]) }
			if m == "TrimLeft" {
				r = same
			}
			if m == "TrimRight" {
				l = same
			}
			return trim(l, r)
		case "TrimPrefix":
			return trim(func(s string) string { return strings.TrimPrefix(s, ss[1]) }, same)
		case "TrimSuffix":
			return trim(same, func(s string) string { return strings.TrimSuffix(s, ss[1]) })
		case "Equal":
			return one(Bool(ss[0] == ss[1]))
		case "Contains":
			return one(Bool(strings.Contains(ss[0], ss[1])))
		case "HasPrefix":
			return one(Bool(strings.HasPrefix(ss[0], ss[1])))
		case "HasSuffix":
			return one(Bool(strings.HasSuffix(ss[0], ss[1])))
		case "Index":
			return one(Int(int64(strings.Index(ss[0], ss[1]))))
		}
	}
	return nil, false
}
