package ai

import (
	"go/constant"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Facts is an immutable set of literals and linear constraints that hold in a state.
type Facts struct {
	Lits map[*Term]bool
	Lin  []*Term // integer terms that are >= 0
	Imp  []Impl
	Seq  []Lit // literals in the order they were learnt
	memo map[*Term]bool
}

// Lit is a literal.
type Lit struct {
	T   *Term
	Val bool
}

// Impl states that literal (If,IfVal) implies (Then,ThenVal).
type Impl struct {
	If      *Term
	IfVal   bool
	Then    *Term
	ThenVal bool
}

// NewFacts returns the empty fact set.
func NewFacts() *Facts { return &Facts{Lits: map[*Term]bool{}} }

func (f *Facts) clone() *Facts {
	n := &Facts{Lits: make(map[*Term]bool, len(f.Lits)+2)}
	for k, v := range f.Lits {
		n.Lits[k] = v
	}
	n.Lin = f.Lin[:len(f.Lin):len(f.Lin)]
	n.Imp = f.Imp[:len(f.Imp):len(f.Imp)]
	n.Seq = f.Seq[:len(f.Seq):len(f.Seq)]
	return n
}

// WithLin adds p >= 0.
func (f *Facts) WithLin(ps ...*Term) *Facts {
	n := f.clone()
	for _, p := range ps {
		n.addLin(p)
	}
	return n
}

// WithImp adds an implication.
func (f *Facts) WithImp(i Impl) *Facts {
	if v, ok := f.Lits[i.If]; ok {
		if v == i.IfVal {
			n, _ := f.Assume(i.Then, i.ThenVal)
			return n
		}
		return f
	}
	n := f.clone()
	n.Imp = append(n.Imp, i)
	return n
}

func (f *Facts) addLin(p *Term) {
	if p.IsConst() {
		return
	}
	c, ok := row(p)
	for i, q := range f.Lin {
		if q == p {
			return
		}
		if d, ok2 := row(q); ok && ok2 && sameVec(c, d) {
			if d.k <= c.k {
				return
			}
			n := append([]*Term(nil), f.Lin...)
			n[i] = p
			f.Lin = n
			f.memo = nil
			return
		}
	}
	f.Lin = append(f.Lin, p)
	f.memo = nil
}

// ConstStr returns the constant string t is known to equal.
func (f *Facts) ConstStr(t *Term) (string, bool) {
	if s, ok := t.StrVal(); ok {
		return s, true
	}
	for l, v := range f.Lits {
		if v && l.Op == "seq" && (l.Args[0] == t || l.Args[1] == t) {
			o := l.Args[0]
			if o == t {
				o = l.Args[1]
			}
			if s, ok := o.StrVal(); ok {
				return s, true
			}
		}
	}
	return "", false
}

// Assume adds the literal t==val; ok is false if that contradicts the facts.
func (f *Facts) Assume(t *Term, val bool) (*Facts, bool) {
	for t.Op == "not" {
		t, val = t.Args[0], !val
	}
	if v, ok := f.Decide(t); ok {
		if v != val {
			return f, false
		}
		if !(t.Op == "ge0" || t.Op == "eq0") || t.IsConst() {
			return f, true
		}
		if _, has := f.Lits[t]; has {
			return f, true
		}
	}
	n := f.clone()
	n.set(t, val, 0)
	// contradictions among linear constraints
	if t.Op == "ge0" || t.Op == "eq0" {
		if n.Prove(Int(-1)) {
			return n, false
		}
	}
	return n, true
}

func (f *Facts) set(t *Term, val bool, depth int) {
	for t.Op == "not" {
		t, val = t.Args[0], !val
	}
	if t.IsConst() {
		return
	}
	if v, ok := f.Lits[t]; ok && v == val {
		return
	}
	f.Lits[t] = val
	f.Seq = append(f.Seq, Lit{t, val})
	switch t.Op {
	case "ge0":
		if val {
			f.addLin(t.Args[0])
		} else {
			f.addLin(AddInt(Neg(t.Args[0]), -1))
		}
	case "eq0":
		p := t.Args[0]
		if val {
			f.addLin(p)
			f.addLin(Neg(p))
			if p.Op == "rem" {
				q := App(KInt, "quo", p.Args[0], p.Args[1])
				d := Sub(p.Args[0], Mul(p.Args[1], q))
				f.addLin(d)
				f.addLin(Neg(d))
			}
		} else {
			if f.Prove(p) {
				f.addLin(AddInt(p, -1))
			} else if f.Prove(Neg(p)) {
				f.addLin(AddInt(Neg(p), -1))
			}
		}
	case "seq":
		a, b := t.Args[0], t.Args[1]
		if val {
			d := Sub(Len(a), Len(b))
			f.addLin(d)
			f.addLin(Neg(d))
		} else {
			if s, ok := b.StrVal(); ok && s == "" {
				f.addLin(AddInt(Len(a), -1))
			}
			if s, ok := a.StrVal(); ok && s == "" {
				f.addLin(AddInt(Len(b), -1))
			}
		}
	case "and":
		for _, a := range t.Args {
			if val {
				f.set(a, true, depth)
			}
		}
		if !val {
			var open []*Term
			for _, a := range t.Args {
				if v, ok := f.Decide(a); !ok || !v {
					open = append(open, a)
				}
			}
			if len(open) == 1 {
				f.set(open[0], false, depth)
			}
		}
	case "hasprefix", "hassuffix", "contains":
		if val {
			f.addLin(Sub(Len(t.Args[0]), Len(t.Args[1])))
			f.affixes(t.Args[0])
		}
	}
	if depth < 6 {
		for _, im := range f.Imp {
			if im.If == t && im.IfVal == val {
				f.set(im.Then, im.ThenVal, depth+1)
			}
		}
	}
	// a disequality learnt earlier may become a bound now
	if (t.Op == "ge0" || t.Op == "eq0" && val) && depth == 0 {
		for _, l := range f.Seq {
			if l.T.Op == "eq0" && !l.Val && l.T != t {
				p := l.T.Args[0]
				if f.Prove(p) {
					f.addLin(AddInt(p, -1))
				} else if f.Prove(Neg(p)) {
					f.addLin(AddInt(Neg(p), -1))
				}
			}
		}
	}
}

// affixes derives bounds from known prefixes and suffixes of s.
func (f *Facts) affixes(s *Term) {
	var pre, suf []string
	var idx []*Term
	for l, v := range f.Lits {
		if !v {
			continue
		}
		switch l.Op {
		case "hasprefix":
			if l.Args[0] == s {
				if c, ok := l.Args[1].StrVal(); ok {
					pre = append(pre, c)
				}
			}
		case "hassuffix":
			if l.Args[0] == s {
				if c, ok := l.Args[1].StrVal(); ok {
					suf = append(suf, c)
				}
			}
		}
		l.Walk(func(x *Term) bool {
			if x.Op == "index" && x.Args[0] == s {
				idx = append(idx, x)
			}
			return true
		})
	}
	for _, p := range pre {
		for _, q := range suf {
			best := 0
			for k := 1; k <= len(p) && k <= len(q); k++ {
				if p[len(p)-k:] == q[:k] {
					best = k
				}
			}
			if strings.HasSuffix(p, q) || strings.HasPrefix(q, p) {
				continue
			}
			f.addLin(AddInt(Len(s), -int64(len(p)+len(q)-best)))
		}
		for _, x := range idx {
			f.indexBound(x, p)
		}
	}
}

// indexBound: if s starts with p, which does not contain sep, a successful Index is at or after len(p).
func (f *Facts) indexBound(x *Term, p string) {
	if x.Op != "index" || !f.Prove(x) {
		return
	}
	if sep, ok := x.Args[1].StrVal(); ok && len(sep) == 1 && !strings.Contains(p, sep) {
		f.addLin(AddInt(x, -int64(len(p))))
	}
}

// Decide returns the value of t if the facts determine it.
func (f *Facts) Decide(t *Term) (val, ok bool) {
	neg := false
	for t.Op == "not" {
		t, neg = t.Args[0], !neg
	}
	v, ok := f.decide(t)
	return v != neg, ok
}

func (f *Facts) decide(t *Term) (val, ok bool) {
	if v, ok := t.BoolVal(); ok {
		return v, true
	}
	if v, ok := f.Lits[t]; ok {
		return v, true
	}
	switch t.Op {
	case "and":
		all := true
		for _, a := range t.Args {
			if v, ok := f.Decide(a); ok && !v {
				return false, true
			} else if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	case "ge0":
		if f.Prove(t.Args[0]) {
			return true, true
		}
		if f.Prove(AddInt(Neg(t.Args[0]), -1)) {
			return false, true
		}
	case "eq0":
		p := t.Args[0]
		if f.Prove(AddInt(p, -1)) || f.Prove(AddInt(Neg(p), -1)) {
			return false, true
		}
		if f.Prove(p) && f.Prove(Neg(p)) {
			return true, true
		}
		// divisibility: all coefficients share a factor the constant does not
		if !divisible(p) {
			return false, true
		}
	case "seq":
		a, b := t.Args[0], t.Args[1]
		x, ok1 := f.ConstStr(a)
		y, ok2 := f.ConstStr(b)
		if ok1 && ok2 {
			return x == y, true
		}
		if c, isC := b.StrVal(); isC {
			if r, done := f.strMatch(a, c); done {
				return r, true
			}
		}
		d := Sub(Len(a), Len(b))
		if f.Prove(AddInt(d, -1)) || f.Prove(AddInt(Neg(d), -1)) {
			return false, true
		}
	case "hasprefix", "hassuffix", "contains":
		x, ok1 := f.ConstStr(t.Args[0])
		y, ok2 := t.Args[1].StrVal()
		if ok1 && ok2 {
			switch t.Op {
			case "hasprefix":
				return strings.HasPrefix(x, y), true
			case "hassuffix":
				return strings.HasSuffix(x, y), true
			default:
				return strings.Contains(x, y), true
			}
		}
		if ok2 && f.Prove(AddInt(Neg(Sub(Len(t.Args[0]), Int(int64(len(y))))), -1)) {
			return false, true
		}
		if ok2 {
			for l, v := range f.Lits {
				if l.Op == t.Op && l.Args[0] == t.Args[0] && l != t {
					if z, ok := l.Args[1].StrVal(); ok {
						longer := t.Op == "hasprefix" && strings.HasPrefix(z, y) || t.Op == "hassuffix" && strings.HasSuffix(z, y)
						shorter := t.Op == "hasprefix" && strings.HasPrefix(y, z) || t.Op == "hassuffix" && strings.HasSuffix(y, z)
						if v && longer {
							return true, true
						}
						if v && !longer && !shorter {
							return false, true
						}
						if !v && shorter {
							return false, true
						}
					}
				}
			}
		}
	case "isnil":
		if nonNilTerm(t.Args[0]) {
			return false, true
		}
		for l, v := range f.Lits {
			if v && l.Op == "istype" && l.Args[0] == t.Args[0] {
				return false, true
			}
		}
	case "istype":
		if v, ok := f.Lits[App(KBool, "isnil", t.Args[0])]; ok && v {
			return false, true
		}
		for l, v := range f.Lits {
			if v && l.Op == "istype" && l.Args[0] == t.Args[0] && l.Args[1] != t.Args[1] && concreteTypeTerm(l.Args[1]) && concreteTypeTerm(t.Args[1]) {
				return false, true
			}
		}
	case "flt", "fle":
		switch d := Sub(t.Args[1], t.Args[0]); {
		case d.IsConst():
			n := constant.Sign(d.C)
			return n > 0 || n == 0 && t.Op == "fle", true
		default:
			if n := signOf(d); n != 0 {
				return n > 0, true
			}
		}
	case "feq":
		if signOf(Sub(t.Args[0], t.Args[1])) != 0 {
			return false, true
		}
		if t.Args[0] == t.Args[1] {
			return true, true // up to NaN
		}
		if t.Args[0].IsConst() || t.Args[1].IsConst() {
			x, c := t.Args[0], t.Args[1]
			if x.IsConst() {
				x, c = c, x
			}
			for l, v := range f.Lits {
				if v && l.Op == "feq" && l != t && (l.Args[0] == x && l.Args[1].IsConst() || l.Args[1] == x && l.Args[0].IsConst()) {
					return false, true
				}
			}
		}
	}
	return false, false
}

// strMatch decides a == c for a term built by concatenation with known parts.
func (f *Facts) strMatch(a *Term, c string) (res, done bool) {
	for l, v := range f.Lits {
		if l.Op == "hasprefix" && l.Args[0] == a {
			if p, ok := l.Args[1].StrVal(); ok {
				if v && !strings.HasPrefix(c, p) || !v && strings.HasPrefix(c, p) {
					return false, true
				}
			}
		}
		if l.Op == "hassuffix" && l.Args[0] == a {
			if p, ok := l.Args[1].StrVal(); ok {
				if v && !strings.HasSuffix(c, p) || !v && strings.HasSuffix(c, p) {
					return false, true
				}
			}
		}
	}
	return false, false
}

func divisible(p *Term) bool {
	ms, cs := PolyOf(p)
	g := new(big.Int)
	k := new(big.Int)
	for i := range ms {
		if !cs[i].IsInt() {
			return true
		}
		if len(ms[i].Atoms) == 0 {
			k.Set(cs[i].Num())
			continue
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(cs[i].Num()))
	}
	if g.Sign() == 0 || k.Sign() == 0 {
		return true
	}
	return new(big.Int).Mod(new(big.Int).Abs(k), g).Sign() == 0
}

func concreteTypeTerm(t *Term) bool { return t.Sym != nil && !strings.HasPrefix(t.Sym.Label, "iface ") }

func nonNilTerm(t *Term) bool {
	if t.Sym != nil {
		return t.Sym.NonNil
	}
	return t.Op == "addr" || t.Op == "nonnil"
}

// ---- linear arithmetic ----

type cons struct {
	v []int // variable ids, sorted
	c []int64
	k int64
}

func (c cons) key() string {
	var buf [256]byte
	out := buf[:0]
	for i := range c.v {
		out = strconv.AppendInt(out, int64(c.v[i]), 36)
		out = append(out, '*')
		out = strconv.AppendInt(out, c.c[i], 36)
		out = append(out, ' ')
	}
	return string(out)
}

// monomials are numbered once for the whole run
var (
	monoIDs   = map[string]int{}
	monoNames []Mono
	rowTab    = map[*Term]rowEnt{}
)

type rowEnt struct {
	c  cons
	ok bool
}

func monoID(m Mono) int {
	if i, ok := monoIDs[m.Key]; ok {
		return i
	}
	i := len(monoNames)
	monoIDs[m.Key] = i
	monoNames = append(monoNames, m)
	return i
}

const bigLimit = int64(1) << 40

// row is the constraint t >= 0.
func row(t *Term) (cons, bool) {
	if e, ok := rowTab[t]; ok {
		return e.c, e.ok
	}
	c, ok := mkRow(t)
	rowTab[t] = rowEnt{c, ok}
	return c, ok
}

func mkRow(t *Term) (cons, bool) {
	ms, cs := PolyOf(t)
	l := big.NewInt(1)
	for _, c := range cs {
		d := c.Denom()
		g := new(big.Int).GCD(nil, nil, l, d)
		l = new(big.Int).Div(new(big.Int).Mul(l, d), g)
	}
	var out cons
	type vc struct {
		v int
		c int64
	}
	var vs []vc
	for i := range ms {
		n := new(big.Rat).Mul(cs[i], new(big.Rat).SetInt(l))
		if !n.Num().IsInt64() {
			return out, false
		}
		x := n.Num().Int64()
		if x > bigLimit || x < -bigLimit {
			return out, false
		}
		if len(ms[i].Atoms) == 0 {
			out.k = x
			continue
		}
		vs = append(vs, vc{monoID(ms[i]), x})
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].v < vs[j].v })
	for _, x := range vs {
		out.v = append(out.v, x.v)
		out.c = append(out.c, x.c)
	}
	return tighten(out), true
}

func tighten(c cons) cons {
	var g int64
	for _, x := range c.c {
		g = gcd(g, abs(x))
	}
	if g > 1 {
		cc := make([]int64, len(c.c))
		for i := range c.c {
			cc[i] = c.c[i] / g
		}
		c.c = cc
		k := c.k / g
		if c.k%g != 0 && c.k < 0 {
			k--
		}
		c.k = k
	}
	return c
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func abs(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

// combine eliminates variable v from a (coef>0) and b (coef<0).
func combine(a, b cons, v int) (cons, bool) {
	var ca, cb int64
	for i, x := range a.v {
		if x == v {
			ca = a.c[i]
		}
	}
	for i, x := range b.v {
		if x == v {
			cb = -b.c[i]
		}
	}
	g := gcd(ca, cb)
	ma, mb := cb/g, ca/g
	var out cons
	i, j := 0, 0
	for i < len(a.v) || j < len(b.v) {
		switch {
		case j >= len(b.v) || i < len(a.v) && a.v[i] < b.v[j]:
			out.v = append(out.v, a.v[i])
			out.c = append(out.c, a.c[i]*ma)
			i++
		case i >= len(a.v) || b.v[j] < a.v[i]:
			out.v = append(out.v, b.v[j])
			out.c = append(out.c, b.c[j]*mb)
			j++
		default:
			if x := a.c[i]*ma + b.c[j]*mb; x != 0 {
				out.v = append(out.v, a.v[i])
				out.c = append(out.c, x)
			}
			i++
			j++
		}
	}
	out.k = a.k*ma + b.k*mb
	for _, x := range out.c {
		if x > bigLimit || x < -bigLimit {
			return out, false
		}
	}
	if out.k > bigLimit || out.k < -bigLimit {
		return out, false
	}
	return tighten(out), true
}

// axioms lists what holds for an atom regardless of the state.
func (f *Facts) axioms(a *Term) []*Term {
	var out []*Term
	if a.Sym != nil {
		if a.Sym.Lo != nil {
			out = append(out, Sub(a, ConstOf(mkBig(a.Sym.Lo), KInt)))
		}
		if a.Sym.Hi != nil {
			out = append(out, Sub(ConstOf(mkBig(a.Sym.Hi), KInt), a))
		}
	}
	switch a.Op {
	case "len":
		out = append(out, a)
		x := a.Args[0]
		switch x.Op {
		case "trim":
			out = append(out, Sub(Len(x.Args[0]), a))
		case "split":
			if s, ok := x.Args[1].StrVal(); ok && s != "" {
				out = append(out, AddInt(a, -1))
			}
		case "lower", "upper":
			// case mapping may change the length, but not emptiness
		}
	case "cap":
		out = append(out, Sub(a, App(KInt, "len", a.Args[0])))
	case "at", "conv:uint8":
		out = append(out, a, Sub(Int(255), a))
	case "index":
		out = append(out, AddInt(a, 1), Sub(Sub(Len(a.Args[0]), Len(a.Args[1])), a))
		// when not found the second bound is void: weaken unless it is known that a >= 0
		if !f.litGe(a) {
			out = out[:len(out)-1]
			out = append(out, Sub(Len(a.Args[0]), a))
		}
	case "rem":
		if n, ok := a.Args[1].IntVal(); ok && n > 0 {
			out = append(out, Sub(Int(n-1), a), Add(Int(n-1), a))
			if f.Prove(a.Args[0]) {
				out = append(out, a)
			}
		}
	case "quo":
		if n, ok := a.Args[1].IntVal(); ok && n > 0 && f.Prove(a.Args[0]) {
			out = append(out, a, Sub(a.Args[0], Scale(a, big.NewRat(n, 1))), AddInt(Sub(Scale(a, big.NewRat(n, 1)), a.Args[0]), n-1))
		}
	case "f2i:uint8", "f2i:uint32", "f2i:uint":
		out = append(out, a)
	}
	if strings.HasPrefix(a.Op, "conv:uint") && a.Op != "conv:uint8" {
		out = append(out, a)
	}
	return out
}

func (f *Facts) litGe(a *Term) bool {
	for _, p := range f.Lin {
		if p == a {
			return true
		}
		if p.Op == "poly" {
			d := Sub(a, p)
			if n, ok := d.IntVal(); ok && n >= 0 {
				return true
			}
		}
	}
	return false
}

// Prove reports whether p >= 0 follows from the facts.
func (f *Facts) Prove(p *Term) bool {
	if n, ok := p.IntVal(); ok && n >= 0 {
		return true
	}
	if f.memo == nil {
		f.memo = map[*Term]bool{}
	}
	// the memo is only valid for a frozen fact set: key on the number of constraints as well
	key := App(KOther, "q", p, Int(int64(len(f.Lin))))
	if v, ok := f.memo[key]; ok {
		return v
	}
	f.memo[key] = false
	r := f.prove(p)
	f.memo[key] = r
	return r
}

func (f *Facts) prove(p *Term) bool {
	goal, ok := row(AddInt(Neg(p), -1))
	if !ok {
		return false
	}
	// a single constraint may already say it
	pg, _ := row(p)
	for _, t := range f.Lin {
		c, ok := row(t)
		if ok && sameVec(c, pg) && c.k <= pg.k {
			return true
		}
	}
	// relevant constraints: those sharing atoms, transitively
	var pool []cons
	used := make([]bool, 0, len(f.Lin)+16)
	add := func(t *Term) {
		if t.IsConst() {
			if n, ok := t.IntVal(); ok && n < 0 {
				pool = append(pool, cons{k: n})
				used = append(used, false)
			}
			return
		}
		c, ok := row(t)
		if ok {
			pool = append(pool, c)
			used = append(used, false)
		}
	}
	for _, t := range f.Lin {
		add(t)
	}
	done := map[*Term]bool{}
	relevant := map[int]bool{}
	rows := []cons{goal}
	var frontier []int
	mark := func(c cons) {
		for _, v := range c.v {
			if !relevant[v] {
				relevant[v] = true
				frontier = append(frontier, v)
			}
		}
	}
	mark(goal)
	for round := 0; ; round++ {
		if round == 2 || round == 4 {
			if refute(rows) {
				return true
			}
		}
		for len(frontier) > 0 {
			v := frontier[0]
			frontier = frontier[1:]
			for _, a := range monoNames[v].Atoms {
				if !done[a] {
					done[a] = true
					for _, ax := range f.axioms(a) {
						add(ax)
					}
				}
			}
		}
		progress := false
		n := len(rows)
		for i := range pool {
			if used[i] {
				continue
			}
			hit := len(pool[i].v) == 0
			for _, v := range pool[i].v {
				if relevant[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				rows = append(rows, pool[i])
				progress = true
			}
		}
		for _, c := range rows[n:] {
			mark(c)
		}
		if !progress || len(rows) > 150 {
			break
		}
	}
	return refute(rows)
}

func sameVec(a, b cons) bool {
	if len(a.v) != len(b.v) {
		return false
	}
	for i := range a.v {
		if a.v[i] != b.v[i] || a.c[i] != b.c[i] {
			return false
		}
	}
	return true
}

// substitute eliminates a variable with the help of an equality.
func substitute(rows []cons, best map[string]cons) ([]cons, bool) {
	for _, a := range rows {
		if len(a.v) == 0 {
			continue
		}
		neg := cons{v: a.v, c: make([]int64, len(a.c)), k: -a.k}
		unit := -1
		for i, x := range a.c {
			neg.c[i] = -x
			if unit < 0 && (x == 1 || x == -1) {
				unit = i
			}
		}
		if unit < 0 {
			continue
		}
		b, ok := best[neg.key()]
		if !ok || b.k != -a.k {
			continue
		}
		v := a.v[unit]
		p, n := a, b
		if a.c[unit] < 0 {
			p, n = b, a
		}
		ka, kb := a.key(), neg.key()
		var out []cons
		for _, r := range rows {
			var c int64
			for i, x := range r.v {
				if x == v {
					c = r.c[i]
				}
			}
			switch {
			case c == 0:
				out = append(out, r)
			default:
				if k := r.key(); k == ka || k == kb {
					continue
				}
				var m cons
				var ok bool
				if c > 0 {
					m, ok = combine(r, n, v)
				} else {
					m, ok = combine(p, r, v)
				}
				if ok {
					out = append(out, m)
				}
			}
		}
		return out, true
	}
	return nil, false
}

// refute looks for a contradiction by eliminating variables one at a time.
func refute(in []cons) bool {
	rows := append([]cons(nil), in...)
	for {
		best := map[string]cons{}
		for _, c := range rows {
			if len(c.v) == 0 {
				if c.k < 0 {
					return true
				}
				continue
			}
			k := c.key()
			if o, ok := best[k]; !ok || c.k < o.k {
				best[k] = c
			}
		}
		rows = rows[:0]
		keys := make([]string, 0, len(best))
		for k := range best {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		pos, neg := map[int]int{}, map[int]int{}
		for _, k := range keys {
			c := best[k]
			rows = append(rows, c)
			for i, v := range c.v {
				if c.c[i] > 0 {
					pos[v]++
				} else {
					neg[v]++
				}
			}
		}
		if len(rows) == 0 {
			return false
		}
		// an equality with a unit coefficient is used up by substitution
		if next, ok := substitute(rows, best); ok {
			rows = next
			continue
		}
		pick, cost := -1, 1<<30
		for _, m := range []map[int]int{pos, neg} {
			for v := range m {
				c := pos[v]*neg[v] - pos[v] - neg[v]
				if c < cost || c == cost && v < pick {
					pick, cost = v, c
				}
			}
		}
		if pick < 0 {
			return false
		}
		var ps, ns, rest []cons
		for _, c := range rows {
			s := int64(0)
			for i, v := range c.v {
				if v == pick {
					s = c.c[i]
				}
			}
			switch {
			case s > 0:
				ps = append(ps, c)
			case s < 0:
				ns = append(ns, c)
			default:
				rest = append(rest, c)
			}
		}
		if len(ps)*len(ns) > 600 {
			return false
		}
		for _, a := range ps {
			for _, b := range ns {
				if c, ok := combine(a, b, pick); ok {
					rest = append(rest, c)
				}
			}
		}
		if len(rest) > 800 {
			return false
		}
		rows = rest
	}
}
