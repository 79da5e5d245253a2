// Package ai is an abstract interpreter for Go SSA.
//
// Scalars are value-numbered terms kept in a normal form (polynomials over
// atoms for arithmetic), so two pieces of code that compute the same value in
// different ways get the same term. Loops are solved by fixpoint iteration with
// generalisation, never unrolled; recursion is treated the same way.
package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Kind is the sort of a term.
type Kind uint8

// Kinds of terms.
const (
	KOther Kind = iota // pointers, interfaces, functions, maps, aggregates
	KInt
	KFloat
	KStr
	KBool
)

// Term is a hash-consed value number.
type Term struct {
	ID   int
	Op   string // "const", "nil", "sym", "poly", or an operator
	Kind Kind
	Args []*Term
	C    constant.Value
	Poly *Poly
	Sym  *Sym
}

// Prov is one possible source of the value of a symbol.
type Prov struct {
	Facts *Facts
	V     Val
	Entry bool // the value before the first iteration
}

// Sym carries what is known about a symbol.
type Sym struct {
	Global string // package-level variable of another module it is the content of
	Label  string
	NonNil bool
	Pos    bool     // a positive number
	Lo, Hi *big.Int // optional bounds
	Prov   []Prov
	Loop   bool
	N      int // creation order of fresh symbols
}

// Mono is a monomial: atoms with exponents, sorted by atom ID.
type Mono struct {
	Key   string
	Atoms []*Term
	Exps  []int
}

// Poly is a sum of monomials with rational coefficients; never constant and never a bare atom.
type Poly struct {
	Monos []Mono
	Coefs []*big.Rat
}

var (
	termTab  = map[string]*Term{}
	allTerms []*Term
)

func intern(key string, mk func() *Term) *Term {
	if t, ok := termTab[key]; ok {
		return t
	}
	t := mk()
	t.ID = len(allTerms)
	allTerms = append(allTerms, t)
	termTab[key] = t
	return t
}

// ConstOf returns the constant term for v.
func ConstOf(v constant.Value, k Kind) *Term {
	switch k {
	case KInt:
		v = constant.ToInt(v)
	case KFloat:
		v = constant.ToFloat(v)
	}
	key := fmt.Sprintf("c%d:%s", k, v.ExactString())
	return intern(key, func() *Term { return &Term{Op: "const", Kind: k, C: v} })
}

// Int returns an integer constant.
func Int(n int64) *Term { return ConstOf(constant.MakeInt64(n), KInt) }

// Float returns a float constant.
func Float(f float64) *Term { return ConstOf(constant.MakeFloat64(f), KFloat) }

// Str returns a string constant.
func Str(s string) *Term { return ConstOf(constant.MakeString(s), KStr) }

// Bool returns a boolean constant.
func Bool(b bool) *Term { return ConstOf(constant.MakeBool(b), KBool) }

// Nil is the nil constant.
func Nil() *Term { return intern("nil", func() *Term { return &Term{Op: "nil"} }) }

// NewSym returns the symbol with the given unique key.
func NewSym(key string, k Kind, label string) *Term {
	return intern("s"+strconv.Itoa(int(k))+":"+key, func() *Term {
		return &Term{Op: "sym", Kind: k, Sym: &Sym{Label: label}}
	})
}

// App returns the application of op to args.
func App(k Kind, op string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString("a")
	sb.WriteString(strconv.Itoa(int(k)))
	sb.WriteString(op)
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	return intern(sb.String(), func() *Term {
		return &Term{Op: op, Kind: k, Args: append([]*Term(nil), args...)}
	})
}

// IsConst reports whether t is a constant.
func (t *Term) IsConst() bool { return t.Op == "const" }

// IntVal returns the constant integer value of t.
func (t *Term) IntVal() (int64, bool) {
	if t.Op != "const" || t.Kind != KInt {
		return 0, false
	}
	return constant.Int64Val(t.C)
}

// StrVal returns the constant string value of t.
func (t *Term) StrVal() (string, bool) {
	if t.Op != "const" || t.Kind != KStr {
		return "", false
	}
	return constant.StringVal(t.C), true
}

// BoolVal returns the constant boolean value of t.
func (t *Term) BoolVal() (v, ok bool) {
	if t.Op != "const" || t.Kind != KBool {
		return false, false
	}
	return constant.BoolVal(t.C), true
}

func ratOf(v constant.Value) *big.Rat {
	switch x := constant.Val(constant.ToFloat(v)).(type) {
	case int64:
		return new(big.Rat).SetInt64(x)
	case *big.Int:
		return new(big.Rat).SetInt(x)
	case *big.Rat:
		return new(big.Rat).Set(x)
	case *big.Float:
		r, _ := x.Rat(nil)
		if r == nil {
			return new(big.Rat)
		}
		return r
	}
	return new(big.Rat)
}

func ratConst(r *big.Rat, k Kind) *Term {
	if k == KInt {
		return ConstOf(constant.Make(new(big.Int).Set(r.Num())), KInt)
	}
	return ConstOf(constant.ToFloat(constant.Make(new(big.Rat).Set(r))), KFloat)
}

// lin is the mutable form of a polynomial.
type lin struct {
	k Kind
	m map[string]*linTerm
}

type linTerm struct {
	mono Mono
	c    *big.Rat
}

func monoKey(atoms []*Term, exps []int) string {
	var sb strings.Builder
	for i, a := range atoms {
		sb.WriteString(strconv.Itoa(a.ID))
		if exps[i] != 1 {
			sb.WriteByte('^')
			sb.WriteString(strconv.Itoa(exps[i]))
		}
		sb.WriteByte('.')
	}
	return sb.String()
}

func newLin(k Kind) *lin { return &lin{k: k, m: map[string]*linTerm{}} }

func (l *lin) addMono(m Mono, c *big.Rat) {
	if c.Sign() == 0 {
		return
	}
	if e, ok := l.m[m.Key]; ok {
		e.c = new(big.Rat).Add(e.c, c)
		if e.c.Sign() == 0 {
			delete(l.m, m.Key)
		}
		return
	}
	l.m[m.Key] = &linTerm{m, new(big.Rat).Set(c)}
}

// PolyOf returns the polynomial view of a numeric term: monomials and coefficients.
func PolyOf(t *Term) ([]Mono, []*big.Rat) {
	switch t.Op {
	case "const":
		r := ratOf(t.C)
		if r.Sign() == 0 {
			return nil, nil
		}
		return []Mono{{}}, []*big.Rat{r}
	case "poly":
		return t.Poly.Monos, t.Poly.Coefs
	}
	return []Mono{{Key: monoKey([]*Term{t}, []int{1}), Atoms: []*Term{t}, Exps: []int{1}}}, []*big.Rat{big.NewRat(1, 1)}
}

func (l *lin) add(t *Term, c *big.Rat) {
	ms, cs := PolyOf(t)
	for i := range ms {
		l.addMono(ms[i], new(big.Rat).Mul(cs[i], c))
	}
}

func (l *lin) term() *Term {
	if len(l.m) == 0 {
		return ratConst(new(big.Rat), l.k)
	}
	keys := make([]string, 0, len(l.m))
	for k := range l.m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	if len(keys) == 1 {
		e := l.m[keys[0]]
		if len(e.mono.Atoms) == 0 {
			return ratConst(e.c, l.k)
		}
		if len(e.mono.Atoms) == 1 && e.mono.Exps[0] == 1 && e.c.Cmp(big.NewRat(1, 1)) == 0 {
			return e.mono.Atoms[0]
		}
	}
	p := &Poly{}
	var sb strings.Builder
	fmt.Fprintf(&sb, "p%d", l.k)
	for _, k := range keys {
		e := l.m[k]
		p.Monos = append(p.Monos, e.mono)
		p.Coefs = append(p.Coefs, e.c)
		sb.WriteString("|" + k + "*" + e.c.RatString())
	}
	return intern(sb.String(), func() *Term { return &Term{Op: "poly", Kind: l.k, Poly: p} })
}

var ratOne = big.NewRat(1, 1)

// Add returns a+b.
func Add(a, b *Term) *Term {
	l := newLin(a.Kind)
	l.add(a, ratOne)
	l.add(b, ratOne)
	return l.term()
}

// Sub returns a-b.
func Sub(a, b *Term) *Term {
	l := newLin(a.Kind)
	l.add(a, ratOne)
	l.add(b, big.NewRat(-1, 1))
	return l.term()
}

// Scale returns c*a.
func Scale(a *Term, c *big.Rat) *Term {
	l := newLin(a.Kind)
	l.add(a, c)
	return l.term()
}

// AddInt returns a+n.
func AddInt(a *Term, n int64) *Term { return Add(a, Int(n)) }

func mulMono(a, b Mono) Mono {
	type ae struct {
		t *Term
		e int
	}
	var out []ae
	i, j := 0, 0
	for i < len(a.Atoms) || j < len(b.Atoms) {
		switch {
		case j >= len(b.Atoms) || (i < len(a.Atoms) && a.Atoms[i].ID < b.Atoms[j].ID):
			out = append(out, ae{a.Atoms[i], a.Exps[i]})
			i++
		case i >= len(a.Atoms) || b.Atoms[j].ID < a.Atoms[i].ID:
			out = append(out, ae{b.Atoms[j], b.Exps[j]})
			j++
		default:
			if e := a.Exps[i] + b.Exps[j]; e != 0 {
				out = append(out, ae{a.Atoms[i], e})
			}
			i++
			j++
		}
	}
	m := Mono{}
	for _, x := range out {
		m.Atoms = append(m.Atoms, x.t)
		m.Exps = append(m.Exps, x.e)
	}
	m.Key = monoKey(m.Atoms, m.Exps)
	return m
}

const maxMonos = 200

// Mul returns a*b.
func Mul(a, b *Term) *Term {
	am, ac := PolyOf(a)
	bm, bc := PolyOf(b)
	if len(am)*len(bm) > maxMonos {
		if a.ID > b.ID {
			a, b = b, a
		}
		return App(a.Kind, "mul", a, b)
	}
	l := newLin(a.Kind)
	for i := range am {
		for j := range bm {
			l.addMono(mulMono(am[i], bm[j]), new(big.Rat).Mul(ac[i], bc[j]))
		}
	}
	return l.term()
}

// Quo returns the float quotient a/b.
func Quo(a, b *Term) *Term {
	bm, bc := PolyOf(b)
	if len(bm) == 0 {
		return App(KFloat, "div0", a)
	}
	if len(bm) == 1 {
		inv := Mono{}
		for i := range bm[0].Atoms {
			inv.Atoms = append(inv.Atoms, bm[0].Atoms[i])
			inv.Exps = append(inv.Exps, -bm[0].Exps[i])
		}
		inv.Key = monoKey(inv.Atoms, inv.Exps)
		ci := new(big.Rat).Inv(bc[0])
		l := newLin(KFloat)
		am, ac := PolyOf(a)
		for i := range am {
			l.addMono(mulMono(am[i], inv), new(big.Rat).Mul(ac[i], ci))
		}
		return l.term()
	}
	return Mul(a, App(KFloat, "inv", b))
}

// Neg returns -a.
func Neg(a *Term) *Term { return Scale(a, big.NewRat(-1, 1)) }

// Not returns the negation of a boolean term.
func Not(a *Term) *Term {
	if v, ok := a.BoolVal(); ok {
		return Bool(!v)
	}
	if a.Op == "not" {
		return a.Args[0]
	}
	return App(KBool, "not", a)
}

// Ge0 is the proposition t >= 0 for an integer term.
func Ge0(t *Term) *Term {
	if t.IsConst() {
		return Bool(constant.Sign(t.C) >= 0)
	}
	return App(KBool, "ge0", t)
}

// Eq0 is the proposition t == 0 for an integer term.
func Eq0(t *Term) *Term {
	if t.IsConst() {
		return Bool(constant.Sign(t.C) == 0)
	}
	// normalise the sign: first coefficient positive
	_, cs := PolyOf(t)
	if cs[len(cs)-1].Sign() < 0 {
		t = Neg(t)
	}
	return App(KBool, "eq0", t)
}

// Len returns the length of a string or opaque term.
func Len(t *Term) *Term {
	if s, ok := t.StrVal(); ok {
		return Int(int64(len(s)))
	}
	switch t.Op {
	case "substr":
		return Sub(t.Args[2], t.Args[1])
	case "concat":
		return Add(Len(t.Args[0]), Len(t.Args[1]))
	case "bstr":
		return t.Args[1]
	}
	return App(KInt, "len", t)
}

// Substr returns s[lo:hi].
func Substr(s, lo, hi *Term) *Term {
	if l, ok := lo.IntVal(); ok && l == 0 && hi == Len(s) {
		return s
	}
	if c, ok := s.StrVal(); ok {
		l, ok1 := lo.IntVal()
		h, ok2 := hi.IntVal()
		if ok1 && ok2 && 0 <= l && l <= h && h <= int64(len(c)) {
			return Str(c[l:h])
		}
	}
	if s.Op == "substr" {
		return Substr(s.Args[0], Add(s.Args[1], lo), Add(s.Args[1], hi))
	}
	return App(KStr, "substr", s, lo, hi)
}

// Concat returns a+b for strings.
func Concat(a, b *Term) *Term {
	x, ok1 := a.StrVal()
	y, ok2 := b.StrVal()
	if ok1 && ok2 {
		return Str(x + y)
	}
	if ok1 && x == "" {
		return b
	}
	if ok2 && y == "" {
		return a
	}
	if a.Op == "concat" {
		return Concat(a.Args[0], Concat(a.Args[1], b))
	}
	return App(KStr, "concat", a, b)
}

// And is the conjunction.
func And(ts ...*Term) *Term {
	var open []*Term
	for _, t := range ts {
		if v, ok := t.BoolVal(); ok {
			if !v {
				return t
			}
			continue
		}
		open = append(open, t)
	}
	switch len(open) {
	case 0:
		return Bool(true)
	case 1:
		return open[0]
	}
	return App(KBool, "and", open...)
}

// SEq is string equality.
func SEq(a, b *Term) *Term {
	if a == b {
		return Bool(true)
	}
	x, ok1 := a.StrVal()
	y, ok2 := b.StrVal()
	if ok1 && ok2 {
		return Bool(x == y)
	}
	if ok1 || (!ok2 && a.ID > b.ID) {
		a, b = b, a
	}
	return App(KBool, "seq", a, b)
}

// FCmp is a float comparison.
func FCmp(op token.Token, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return Bool(constant.Compare(a.C, op, b.C))
	}
	switch op {
	case token.EQL:
		if a.ID > b.ID {
			a, b = b, a
		}
		return App(KBool, "feq", a, b)
	case token.NEQ:
		return Not(FCmp(token.EQL, a, b))
	case token.LSS:
		return App(KBool, "flt", a, b)
	case token.GTR:
		return App(KBool, "flt", b, a)
	case token.LEQ:
		return App(KBool, "fle", a, b)
	case token.GEQ:
		return App(KBool, "fle", b, a)
	}
	return App(KBool, "fcmp"+op.String(), a, b)
}

// String renders t for reports.
func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<none>"
	}
	if d == 0 {
		return fmt.Sprintf("#%d", t.ID)
	}
	switch t.Op {
	case "const":
		if t.Kind == KStr {
			return strconv.Quote(constant.StringVal(t.C))
		}
		if t.Kind == KFloat {
			f, _ := constant.Float64Val(t.C)
			return strconv.FormatFloat(f, 'g', 8, 64)
		}
		return t.C.ExactString()
	case "nil":
		return "nil"
	case "sym":
		return t.Sym.Label
	case "poly":
		var parts []string
		for i, m := range t.Poly.Monos {
			var fs []string
			c := t.Poly.Coefs[i]
			f, _ := c.Float64()
			if f != 1 || len(m.Atoms) == 0 {
				fs = append(fs, strconv.FormatFloat(f, 'g', 8, 64))
			}
			for j, a := range m.Atoms {
				s := a.str(d - 1)
				if m.Exps[j] != 1 {
					s += "^" + strconv.Itoa(m.Exps[j])
				}
				fs = append(fs, s)
			}
			parts = append(parts, strings.Join(fs, "*"))
		}
		return "(" + strings.Join(parts, " + ") + ")"
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, a.str(d-1))
	}
	return t.Op + "(" + strings.Join(as, ", ") + ")"
}

// Walk visits t and everything below it.
func (t *Term) Walk(f func(*Term) bool) {
	if t == nil || !f(t) {
		return
	}
	for _, a := range t.Args {
		a.Walk(f)
	}
	if t.Poly != nil {
		for _, m := range t.Poly.Monos {
			for _, a := range m.Atoms {
				a.Walk(f)
			}
		}
	}
}
