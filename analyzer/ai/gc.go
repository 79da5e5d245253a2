package ai

import (
	"math/big"
	"os"
	"sort"
	"strconv"
)

// Facts about values that only a finished call could name are of no further use.

var leafTab = map[*Term][]*Term{}

// leafSyms lists the fresh symbols in t.
func leafSyms(t *Term) []*Term {
	if t.IsConst() {
		return nil
	}
	if r, ok := leafTab[t]; ok {
		return r
	}
	var out []*Term
	seen := map[*Term]bool{}
	add := func(xs []*Term) {
		for _, x := range xs {
			if !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
	}
	if t.Sym != nil && t.Sym.N > 0 {
		out = append(out, t)
	}
	for _, a := range t.Args {
		add(leafSyms(a))
	}
	if t.Poly != nil {
		for _, m := range t.Poly.Monos {
			for _, a := range m.Atoms {
				add(leafSyms(a))
			}
		}
	}
	leafTab[t] = out
	return out
}

type liveSet struct {
	st    *State
	mark  int
	syms  map[*Term]bool
	objs  map[*Obj]bool
	terms map[*Term]bool
}

func (l *liveSet) term(t *Term) {
	if t == nil || l.terms[t] {
		return
	}
	l.terms[t] = true
	for _, s := range leafSyms(t) {
		if s.Sym.N > l.mark {
			l.syms[s] = true
		}
	}
}

func (l *liveSet) obj(o *Obj) {
	if o == nil || l.objs[o] {
		return
	}
	l.objs[o] = true
	l.term(o.Key)
	l.term(o.InitLen)
	l.val(l.st.Heap[o])
}

func (l *liveSet) val(v Val) {
	switch x := v.(type) {
	case *Term:
		l.term(x)
	case *StructV:
		for _, f := range x.F {
			l.val(f)
		}
	case *ArrV:
		for _, f := range x.E {
			l.val(f)
		}
	case TupleV:
		for _, f := range x {
			l.val(f)
		}
	case *SliceV:
		l.term(x.Off)
		l.term(x.Len)
		l.term(x.Cap)
		l.obj(x.Obj)
	case *PtrV:
		for _, p := range x.Path {
			l.term(p.Idx)
		}
		l.obj(x.Obj)
	case *IfaceV:
		l.val(x.V)
	case *FuncV:
		for _, b := range x.Bind {
			l.val(b)
		}
	case *MapV:
		l.obj(x.Obj)
	case *SeqV:
		for _, s := range x.Segs {
			for _, e := range s.Elems {
				l.val(e)
			}
			l.term(s.Base)
			l.term(s.Off)
			l.term(s.Len)
		}
		for _, w := range x.W {
			l.term(w.Idx)
			l.val(w.V)
		}
	case *MapC:
		l.term(x.Base)
		for _, e := range x.Known {
			l.val(e.K)
			l.val(e.V)
		}
	}
}

// forget drops the facts about symbols newer than mark that are not reachable any more.
func (s *State) forget(mark int, before map[*Obj]Val, roots ...Val) {
	l := &liveSet{st: s, mark: mark, syms: map[*Term]bool{}, objs: map[*Obj]bool{}, terms: map[*Term]bool{}}
	for _, r := range roots {
		l.val(r)
	}
	for _, v := range s.Ghost {
		l.val(v)
	}
	for _, d := range s.Defers {
		l.val(d.fn)
		for _, a := range d.args {
			l.val(a)
		}
	}
	for o, v := range s.Heap {
		if old, ok := before[o]; ok && old != v {
			l.obj(o)
		} else if !ok && o.Kind != OAlloc {
			l.obj(o)
		}
	}
	dead := func(t *Term) bool {
		for _, x := range leafSyms(t) {
			if x.Sym.N > mark && !l.syms[x] {
				return true
			}
		}
		return false
	}
	any := false
	for k := range s.Facts.Lits {
		if dead(k) {
			any = true
			break
		}
	}
	if !any {
		for _, q := range s.Facts.Lin {
			if dead(q) {
				any = true
				break
			}
		}
	}
	if !any {
		return
	}
	n := &Facts{Lits: make(map[*Term]bool, len(s.Facts.Lits))}
	for k, v := range s.Facts.Lits {
		if !dead(k) {
			n.Lits[k] = v
		}
	}
	var gone []cons
	deadMono := map[int]bool{}
	for _, q := range s.Facts.Lin {
		if !dead(q) {
			n.Lin = append(n.Lin, q)
			continue
		}
		if c, ok := row(q); ok {
			gone = append(gone, c)
			for _, v := range c.v {
				for _, a := range monoNames[v].Atoms {
					if dead(a) {
						deadMono[v] = true
					}
				}
			}
		}
	}
	for _, c := range project(gone, deadMono) {
		n.addLin(c.term())
	}
	for _, q := range s.Facts.Imp {
		if !dead(q.If) && !dead(q.Then) {
			n.Imp = append(n.Imp, q)
		}
	}
	for _, q := range s.Facts.Seq {
		if !dead(q.T) {
			n.Seq = append(n.Seq, q)
		}
	}
	s.Facts = n
}

// term is the left side of the constraint.
func (c cons) term() *Term {
	l := newLin(KInt)
	for i, v := range c.v {
		l.addMono(monoNames[v], big.NewRat(c.c[i], 1))
	}
	l.addMono(Mono{}, big.NewRat(c.k, 1))
	return l.term()
}

// project eliminates variables, giving up constraints where that is too costly.
func project(rows []cons, dead map[int]bool) []cons {
	order := make([]int, 0, len(dead))
	for v := range dead {
		order = append(order, v)
	}
	sort.Ints(order)
	for len(order) > 0 {
		// cheapest first
		best, cost := 0, 1<<30
		for i, v := range order {
			p, n := 0, 0
			for _, r := range rows {
				for j, x := range r.v {
					if x == v {
						if r.c[j] > 0 {
							p++
						} else {
							n++
						}
					}
				}
			}
			if c := p*n - p - n; c < cost {
				best, cost = i, c
			}
		}
		v := order[best]
		order = append(order[:best:best], order[best+1:]...)
		var ps, ns, rest []cons
		for _, r := range rows {
			s := int64(0)
			for j, x := range r.v {
				if x == v {
					s = r.c[j]
				}
			}
			switch {
			case s > 0:
				ps = append(ps, r)
			case s < 0:
				ns = append(ns, r)
			default:
				rest = append(rest, r)
			}
		}
		if len(ps)*len(ns) <= 24 {
			for _, a := range ps {
				for _, b := range ns {
					if c, ok := combine(a, b, v); ok && len(c.v) > 0 && len(c.v) <= 4 {
						rest = append(rest, c)
					}
				}
			}
		}
		// keep the strongest of each
		m := map[string]int{}
		var out []cons
		for _, r := range rest {
			k := r.key()
			if i, ok := m[k]; ok {
				if r.k < out[i].k {
					out[i] = r
				}
				continue
			}
			m[k] = len(out)
			out = append(out, r)
		}
		rows = out
	}
	return rows
}

func envInt(k string, d int) int {
	if n, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return n
	}
	return d
}
