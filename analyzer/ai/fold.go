package ai

import (
	"go/constant"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// strs makes a slice of constant strings.
func (in *Interp) strs(st *State, ss []string) *SliceV {
	et := types.Typ[types.String]
	if ss == nil {
		return &SliceV{Off: Int(0), Len: Int(0), Cap: Int(0)}
	}
	sq := &SeqV{Elem: et}
	if len(ss) > 0 {
		var vs []Val
		for _, s := range ss {
			vs = append(vs, Str(s))
		}
		sq.Segs = []Seg{{Elems: vs}}
	}
	return in.NewSlice(st, sq, "strings")
}

// constStrs reads a slice of constant strings.
func (in *Interp) constStrs(st *State, v Val) ([]string, bool) {
	s, ok := v.(*SliceV)
	if !ok {
		return nil, false
	}
	if s.Obj == nil {
		return nil, true
	}
	c := st.SliceContent(s)
	if len(c.W) > 0 {
		return nil, false
	}
	var out []string
	for _, g := range c.Segs {
		if g.Base != nil || g.Zero {
			return nil, false
		}
		for _, e := range g.Elems {
			t, ok := e.(*Term)
			if !ok {
				return nil, false
			}
			x, ok := t.StrVal()
			if !ok {
				return nil, false
			}
			out = append(out, x)
		}
	}
	return out, true
}

// predicate evaluates a function of a rune for the runes of a constant string.
func (in *Interp) predicate(st *State, f Val, s string, instr ssa.Instruction) (func(rune) bool, bool) {
	fv, ok := f.(*FuncV)
	if !ok {
		return nil, false
	}
	res := map[rune]bool{}
	for _, r := range s {
		if _, done := res[r]; done {
			continue
		}
		if v, ok := unicodeFold(fnName(fv.Fn), int64(r)); ok {
			res[r] = v
			continue
		}
		rs := in.callVal(st.Clone(), f, []Val{Int(int64(r))}, fv.Fn.Signature, instr)
		if len(rs) != 1 {
			return nil, false
		}
		t, ok := rs[0].Ret.(*Term)
		if !ok {
			return nil, false
		}
		v, ok := rs[0].St.Facts.Decide(t)
		if !ok {
			return nil, false
		}
		res[r] = v
	}
	return func(r rune) bool { return res[r] }, true
}

func unicodeFold(name string, n int64) (v, ok bool) {
	r := rune(n)
	switch name {
	case "unicode.IsLetter":
		return unicode.IsLetter(r), true
	case "unicode.IsNumber":
		return unicode.IsNumber(r), true
	case "unicode.IsDigit":
		return unicode.IsDigit(r), true
	case "unicode.IsSpace":
		return unicode.IsSpace(r), true
	case "unicode.IsUpper":
		return unicode.IsUpper(r), true
	case "unicode.IsLower":
		return unicode.IsLower(r), true
	case "unicode.IsPunct":
		return unicode.IsPunct(r), true
	case "unicode.IsControl":
		return unicode.IsControl(r), true
	}
	return false, false
}

// fold evaluates pure library functions on constant arguments.
func (in *Interp) fold(st *State, name string, args []Val, instr ssa.Instruction) ([]RetState, bool) {
	dot := strings.IndexByte(name, '.')
	if dot < 0 || len(args) == 0 {
		return nil, false
	}
	one := func(v Val) ([]RetState, bool) { return ret(st, v), true }
	a0, isT := args[0].(*Term)
	switch name[:dot] {
	case "unicode":
		if !isT {
			return nil, false
		}
		n, ok := a0.IntVal()
		if !ok {
			return nil, false
		}
		if v, ok := unicodeFold(name, n); ok {
			return one(Bool(v))
		}
		switch name {
		case "unicode.ToLower":
			return one(Int(int64(unicode.ToLower(rune(n)))))
		case "unicode.ToUpper":
			return one(Int(int64(unicode.ToUpper(rune(n)))))
		}
		return nil, false
	case "unicode/utf8":
		if !isT {
			return nil, false
		}
		if s, ok := a0.StrVal(); ok {
			switch name {
			case "unicode/utf8.RuneCountInString":
				return one(Int(int64(utf8.RuneCountInString(s))))
			case "unicode/utf8.DecodeRuneInString":
				r, n := utf8.DecodeRuneInString(s)
				return one(TupleV{Int(int64(r)), Int(int64(n))})
			case "unicode/utf8.DecodeLastRuneInString":
				r, n := utf8.DecodeLastRuneInString(s)
				return one(TupleV{Int(int64(r)), Int(int64(n))})
			}
		}
		return nil, false
	case "strconv":
		if !isT {
			return nil, false
		}
		s, ok := a0.StrVal()
		if !ok {
			return nil, false
		}
		fail := func(v Val) ([]RetState, bool) {
			in.setPend(st, name)
			return one(TupleV{v, in.newErr("err:" + name)})
		}
		switch name {
		case "strconv.ParseFloat":
			f, err := strconv.ParseFloat(s, 64)
			if math.IsInf(f, 0) || math.IsNaN(f) {
				v := App(KFloat, "parsefloat", a0)
				if err != nil {
					return fail(v)
				}
				return one(TupleV{v, Nil()})
			}
			if err != nil {
				return fail(Float(f))
			}
			return one(TupleV{Float(f), Nil()})
		case "strconv.Atoi":
			n, err := strconv.Atoi(s)
			if err != nil {
				return fail(Int(int64(n)))
			}
			return one(TupleV{Int(int64(n)), Nil()})
		case "strconv.ParseInt", "strconv.ParseUint":
			b, ok1 := args[1].(*Term).IntVal()
			bits, ok2 := args[2].(*Term).IntVal()
			if !ok1 || !ok2 {
				return nil, false
			}
			if name == "strconv.ParseInt" {
				n, err := strconv.ParseInt(s, int(b), int(bits))
				if err != nil {
					return fail(Int(n))
				}
				return one(TupleV{Int(n), Nil()})
			}
			n, err := strconv.ParseUint(s, int(b), int(bits))
			v := ConstOf(constant.MakeUint64(n), KInt)
			if err != nil {
				return fail(v)
			}
			return one(TupleV{v, Nil()})
		}
		return nil, false
	case "strings":
		if name == "strings.Join" {
			ss, ok := in.constStrs(st, args[0])
			sep, ok2 := args[1].(*Term).StrVal()
			if ok && ok2 {
				return one(Str(strings.Join(ss, sep)))
			}
			return nil, false
		}
		if name == "strings.Map" && len(args) == 2 {
			s, ok := args[1].(*Term).StrVal()
			fv, ok2 := args[0].(*FuncV)
			if !ok || !ok2 {
				return nil, false
			}
			var sb strings.Builder
			for _, r := range s {
				rs := in.callVal(st.Clone(), args[0], []Val{Int(int64(r))}, fv.Fn.Signature, instr)
				if len(rs) != 1 {
					return nil, false
				}
				n, ok := rs[0].Ret.(*Term).IntVal()
				if !ok {
					return nil, false
				}
				if n >= 0 {
					sb.WriteRune(rune(n))
				}
			}
			return one(Str(sb.String()))
		}
		if !isT {
			return nil, false
		}
		s, ok := a0.StrVal()
		if !ok {
			return nil, false
		}
		switch name {
		case "strings.ToLower":
			return one(Str(strings.ToLower(s)))
		case "strings.ToUpper":
			return one(Str(strings.ToUpper(s)))
		case "strings.TrimSpace":
			return one(Str(strings.TrimSpace(s)))
		case "strings.Fields":
			return one(in.strs(st, strings.Fields(s)))
		}
		if len(args) < 2 {
			return nil, false
		}
		switch name {
		case "strings.FieldsFunc", "strings.TrimFunc", "strings.TrimLeftFunc", "strings.TrimRightFunc", "strings.IndexFunc", "strings.LastIndexFunc", "strings.ContainsFunc":
			p, ok := in.predicate(st, args[1], s, instr)
			if !ok {
				return nil, false
			}
			switch name {
			case "strings.FieldsFunc":
				return one(in.strs(st, strings.FieldsFunc(s, p)))
			case "strings.TrimFunc":
				return one(Str(strings.TrimFunc(s, p)))
			case "strings.TrimLeftFunc":
				return one(Str(strings.TrimLeftFunc(s, p)))
			case "strings.TrimRightFunc":
				return one(Str(strings.TrimRightFunc(s, p)))
			case "strings.IndexFunc":
				return one(Int(int64(strings.IndexFunc(s, p))))
			case "strings.LastIndexFunc":
				return one(Int(int64(strings.LastIndexFunc(s, p))))
			case "strings.ContainsFunc":
				return one(Bool(strings.IndexFunc(s, p) >= 0))
			}
		}
		b, isB := args[1].(*Term)
		if !isB {
			return nil, false
		}
		if n, ok := b.IntVal(); ok {
			switch name {
			case "strings.IndexByte":
				return one(Int(int64(strings.IndexByte(s, byte(n)))))
			case "strings.LastIndexByte":
				return one(Int(int64(strings.LastIndexByte(s, byte(n)))))
			case "strings.IndexRune":
				return one(Int(int64(strings.IndexRune(s, rune(n)))))
			case "strings.ContainsRune":
				return one(Bool(strings.ContainsRune(s, rune(n))))
			case "strings.Repeat":
				if n >= 0 && n < 1000 {
					return one(Str(strings.Repeat(s, int(n))))
				}
			}
			return nil, false
		}
		p, ok := b.StrVal()
		if !ok {
			return nil, false
		}
		switch name {
		case "strings.HasPrefix":
			return one(Bool(strings.HasPrefix(s, p)))
		case "strings.HasSuffix":
			return one(Bool(strings.HasSuffix(s, p)))
		case "strings.Contains":
			return one(Bool(strings.Contains(s, p)))
		case "strings.ContainsAny":
			return one(Bool(strings.ContainsAny(s, p)))
		case "strings.EqualFold":
			return one(Bool(strings.EqualFold(s, p)))
		case "strings.Count":
			return one(Int(int64(strings.Count(s, p))))
		case "strings.Compare":
			return one(Int(int64(strings.Compare(s, p))))
		case "strings.Index":
			return one(Int(int64(strings.Index(s, p))))
		case "strings.LastIndex":
			return one(Int(int64(strings.LastIndex(s, p))))
		case "strings.IndexAny":
			return one(Int(int64(strings.IndexAny(s, p))))
		case "strings.LastIndexAny":
			return one(Int(int64(strings.LastIndexAny(s, p))))
		case "strings.Trim":
			return one(Str(strings.Trim(s, p)))
		case "strings.TrimLeft":
			return one(Str(strings.TrimLeft(s, p)))
		case "strings.TrimRight":
			return one(Str(strings.TrimRight(s, p)))
		case "strings.TrimPrefix":
			return one(Str(strings.TrimPrefix(s, p)))
		case "strings.TrimSuffix":
			return one(Str(strings.TrimSuffix(s, p)))
		case "strings.CutPrefix":
			x, k := strings.CutPrefix(s, p)
			return one(TupleV{Str(x), Bool(k)})
		case "strings.CutSuffix":
			x, k := strings.CutSuffix(s, p)
			return one(TupleV{Str(x), Bool(k)})
		case "strings.Cut":
			x, y, k := strings.Cut(s, p)
			return one(TupleV{Str(x), Str(y), Bool(k)})
		case "strings.Split":
			return one(in.strs(st, strings.Split(s, p)))
		case "strings.SplitAfter":
			return one(in.strs(st, strings.SplitAfter(s, p)))
		case "strings.SplitN", "strings.SplitAfterN":
			if n, ok := args[2].(*Term).IntVal(); ok {
				if name == "strings.SplitN" {
					return one(in.strs(st, strings.SplitN(s, p, int(n))))
				}
				return one(in.strs(st, strings.SplitAfterN(s, p, int(n))))
			}
		case "strings.ReplaceAll", "strings.Replace":
			if r, ok := args[2].(*Term).StrVal(); ok {
				n := int64(-1)
				if name == "strings.Replace" {
					if n, ok = args[3].(*Term).IntVal(); !ok {
						return nil, false
					}
				}
				return one(Str(strings.Replace(s, p, r, int(n))))
			}
		}
	}
	return nil, false
}

// signOf returns the sign of a float term built from symbols known to be positive: 1, -1, or 0 if unknown.
func signOf(t *Term) int {
	switch {
	case t.IsConst():
		return constant.Sign(t.C)
	case t.Sym != nil:
		if t.Sym.Pos {
			return 1
		}
		return 0
	case t.Op == "inv", t.Op == "math.Sqrt", t.Op == "i2f", t.Op == "f32", strings.HasPrefix(t.Op, "f2i:"):
		return signOf(t.Args[0])
	case t.Op == "math.Abs" || t.Op == "math.Hypot":
		if signOf(t.Args[0]) != 0 {
			return 1
		}
	}
	if t.Poly == nil {
		return 0
	}
	res := 0
	for i, m := range t.Poly.Monos {
		s := t.Poly.Coefs[i].Sign()
		for k, a := range m.Atoms {
			if m.Exps[k]%2 == 0 {
				if signOf(a) == 0 {
					return 0
				}
				continue
			}
			s *= signOf(a)
		}
		if s == 0 || res != 0 && s != res {
			return 0
		}
		res = s
	}
	return res
}
