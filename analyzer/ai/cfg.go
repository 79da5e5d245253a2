package ai

import (
	"golang.org/x/tools/go/ssa"
)

type loop struct {
	head   *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	parent *loop
}

type fnInfo struct {
	rpo   []*ssa.BasicBlock
	inner map[*ssa.BasicBlock]*loop
	loops []*loop
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
	irred bool
}

func (in *Interp) fnInfo(fn *ssa.Function) *fnInfo {
	if i, ok := in.info[fn]; ok {
		return i
	}
	i := &fnInfo{inner: map[*ssa.BasicBlock]*loop{}}
	in.info[fn] = i
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		// visit in reverse so that the order follows the source
		for k := len(b.Succs) - 1; k >= 0; k-- {
			if !seen[b.Succs[k]] {
				dfs(b.Succs[k])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	num := map[*ssa.BasicBlock]int{}
	for k := len(post) - 1; k >= 0; k-- {
		num[post[k]] = len(i.rpo)
		i.rpo = append(i.rpo, post[k])
	}
	byHead := map[*ssa.BasicBlock]*loop{}
	for _, b := range i.rpo {
		for _, s := range b.Succs {
			if num[s] > num[b] {
				continue
			}
			if !s.Dominates(b) {
				i.irred = true
				continue
			}
			l := byHead[s]
			if l == nil {
				l = &loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
				byHead[s] = l
				i.loops = append(i.loops, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				for _, p := range x.Preds {
					if seen[p] {
						work = append(work, p)
					}
				}
			}
		}
	}
	for _, l := range i.loops {
		for _, m := range i.loops {
			if m != l && m.body[l.head] && (l.parent == nil || len(m.body) < len(l.parent.body)) {
				l.parent = m
			}
		}
	}
	for _, b := range i.rpo {
		for _, l := range i.loops {
			if l.body[b] && (i.inner[b] == nil || len(l.body) < len(i.inner[b].body)) {
				i.inner[b] = l
			}
		}
	}
	i.liveness()
	return i
}

// liveness computes the registers live at the start of each block (after its phis).
func (i *fnInfo) liveness() {
	i.live = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range i.rpo {
		i.live[b] = map[ssa.Value]bool{}
	}
	tracked := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for changed := true; changed; {
		changed = false
		for k := len(i.rpo) - 1; k >= 0; k-- {
			b := i.rpo[k]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				if _, ok := i.live[s]; !ok {
					continue
				}
				for v := range i.live[s] {
					live[v] = true
				}
				pi := -1
				for n, p := range s.Preds {
					if p == b {
						pi = n
					}
				}
				for _, ins := range s.Instrs {
					p, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, p)
				}
				for _, ins := range s.Instrs {
					p, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					if tracked(p.Edges[pi]) {
						live[p.Edges[pi]] = true
					}
				}
			}
			for n := len(b.Instrs) - 1; n >= 0; n-- {
				ins := b.Instrs[n]
				if _, ok := ins.(*ssa.Phi); ok {
					break
				}
				if v, ok := ins.(ssa.Value); ok {
					delete(live, v)
				}
				var ops [16]*ssa.Value
				for _, o := range ins.Operands(ops[:0]) {
					if o != nil && *o != nil && tracked(*o) {
						live[*o] = true
					}
				}
			}
			if len(live) != len(i.live[b]) {
				changed = true
				i.live[b] = live
			} else {
				for v := range live {
					if !i.live[b][v] {
						changed = true
						i.live[b] = live
						break
					}
				}
			}
		}
	}
}
