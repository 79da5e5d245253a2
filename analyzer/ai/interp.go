package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Obligation is a check that must hold whenever an instruction executes.
type Obligation struct {
	Kind  string
	Instr ssa.Instruction
	OK    bool
	What  string
	Stack []string
	Facts *Facts
}

// Log collects what one pass over the program observed.
type Log struct {
	Obl    []*Obligation
	Undec  []string
	Stores []*StoreEv
	Loops  []*LoopRes
	Recs   []*RecRes
	Calls  []*Ev
	Pend   []*PendEv
}

func (l *Log) addAll(o *Log) {
	l.Obl = append(l.Obl, o.Obl...)
	l.Undec = append(l.Undec, o.Undec...)
	l.Stores = append(l.Stores, o.Stores...)
	l.Loops = append(l.Loops, o.Loops...)
	l.Recs = append(l.Recs, o.Recs...)
	l.Calls = append(l.Calls, o.Calls...)
	l.Pend = append(l.Pend, o.Pend...)
}

// StoreEv is a write to memory.
type StoreEv struct {
	Ptr   *PtrV
	Map   *MapV
	V     Val
	Instr ssa.Instruction
	Stack []string
	Facts *Facts
	How   string
}

// PendEv is an error that was dropped.
type PendEv struct {
	Where  string
	Instr  ssa.Instruction
	Stack  []string
	State  *State
	Tokens bool
}

// Options tunes a run.
type Options struct {
	RetCap   int // states kept apart per result class at a return
	BlockCap int // states kept apart at a join
	LoopCap  int // entry states of a loop kept apart
	Quiet    bool
	// MergeFloats merges states at joins when they differ in floating point values only.
	MergeFloats bool
	// NoMergeAt decides per function whether the states at its returns stay apart.
	KeepApart func(fn *ssa.Function) bool
	// KeepFacts decides per function whether facts about its locals survive the call.
	KeepFacts func(fn *ssa.Function) bool
	// Token overrides the model of xml.Decoder.Token.
	Token func(in *Interp, st *State, instr ssa.Instruction) []RetState
	// Call, if set, sees each external call first.
	Call func(in *Interp, st *State, name string, args []Val, instr ssa.Instruction) ([]RetState, bool)
	// Unroll follows loops iteration by iteration while their course is determined.
	Unroll bool
	// InlineRec is how many activations of a function are interpreted before recursion is summarised.
	InlineRec int
	// AliasAppend lets an append into possible spare capacity clobber the elements behind the slice.
	AliasAppend bool
	// Evaluable tells whether the truth of a condition depends on the inputs of interest only.
	Evaluable func(c *Term) bool
	// PinStr, if set, may fix the truth of a string comparison with a constant.
	Deadline int
}

// Try interprets a call; if the analysis gives up, it returns the reason.
func (in *Interp) Try(st *State, fn *ssa.Function, args []Val) (rs []RetState, why string) {
	n := len(in.stack)
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("SVGCHECK_PANIC") != "" {
				panic(r)
			}
			in.stack = in.stack[:n]
			rs, why = nil, fmt.Sprint(r)
		}
	}()
	return in.Call(st, fn, args, nil, nil), ""
}

// Interp interprets a program abstractly.
type Interp struct {
	Holes   *Holes // text of unknown numbers, if wanted
	Prog    *ssa.Program
	Mod     string
	Opt     Options
	Log     *Log
	Inline  func(fn *ssa.Function) bool
	stack   []*frame
	info    map[*ssa.Function]*fnInfo
	globals map[*ssa.Global]*Obj
	warm    map[string]*warmSet
	Steps   int
	MaxStep int
	Until   time.Time
	Fns     map[*ssa.Function]bool
	impl    map[string][]types.Type
	AllMod  []types.Type
	Debug   bool
	Trace   string
	// TokenHead receives the stable header state of the loop that reads tokens.
	TokenLoops []*LoopRes
}

type frame struct {
	fn   *ssa.Function
	ctx  string
	info *fnInfo
	rec  *recInfo
	call ssa.Instruction
	// loops being solved, outermost first
	active []*activeLoop
}

// RetState is the state after a call with its results.
type RetState struct {
	St  *State
	Ret Val
}

// New returns an interpreter.
func New(prog *ssa.Program, mod string) *Interp {
	in := &Interp{Prog: prog, Mod: mod, Log: &Log{}, info: map[*ssa.Function]*fnInfo{}, globals: map[*ssa.Global]*Obj{}, warm: map[string]*warmSet{}, Fns: map[*ssa.Function]bool{}}
	in.Opt = Options{RetCap: 1, BlockCap: envInt("BC", 24), LoopCap: envInt("LC", 3), MergeFloats: true}
	in.MaxStep = 40000000
	in.impl = map[string][]types.Type{}
	return in
}

// InModule reports whether fn belongs to the analysed module.
func (in *Interp) InModule(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil {
		if fn.Signature.Recv() != nil || fn.Synthetic != "" {
			// wrappers and bound methods belong to the method they wrap
			if o := fn.Object(); o != nil && o.Pkg() != nil {
				return in.modPath(o.Pkg().Path())
			}
			if fn.Parent() != nil {
				return in.InModule(fn.Parent())
			}
		}
		return false
	}
	return in.modPath(p.Pkg.Path())
}

func (in *Interp) modPath(p string) bool {
	return p == in.Mod || strings.HasPrefix(p, in.Mod+"/")
}

var inlinePkgs = map[string]bool{
	"golang.org/x/image/math/fixed": true,
}

func (in *Interp) inlinable(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	if in.InModule(fn) {
		return true
	}
	if fn.Pkg != nil && inlinePkgs[fn.Pkg.Pkg.Path()] {
		return true
	}
	if in.Inline != nil && in.Inline(fn) {
		return true
	}
	return false
}

// StackNames lists the functions on the stack, outermost first.
func (in *Interp) StackNames() []string {
	var out []string
	for _, f := range in.stack {
		out = append(out, f.fn.String())
	}
	return out
}

func (in *Interp) oblige(st *State, kind string, instr ssa.Instruction, ok bool, what string) {
	o := &Obligation{Kind: kind, Instr: instr, OK: ok, What: what}
	if !ok {
		o.Stack = in.StackNames()
		o.Facts = st.Facts
	}
	in.Log.Obl = append(in.Log.Obl, o)
}

func (in *Interp) undecided(format string, args ...interface{}) {
	in.Log.Undec = append(in.Log.Undec, fmt.Sprintf(format, args...)+" in "+strings.Join(in.StackNames(), " > "))
}

// GlobalObj returns the object of a package-level variable.
func (in *Interp) GlobalObj(g *ssa.Global) *Obj {
	if o, ok := in.globals[g]; ok {
		return o
	}
	o := newObj(OGlobal, g.Type().(*types.Pointer).Elem(), g.String())
	o.Global = g
	in.globals[g] = o
	return o
}

// NewState returns the state at program start.
func (in *Interp) NewState() *State {
	return &State{Regs: map[ssa.Value]Val{}, Heap: map[*Obj]Val{}, Facts: NewFacts(), Ghost: map[string]Val{}}
}

// Get evaluates an operand.
func (in *Interp) Get(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Global:
		return &PtrV{Obj: in.GlobalObj(x)}
	case *ssa.Function:
		return &FuncV{Fn: x}
	case *ssa.Builtin:
		return Nil()
	}
	if r, ok := st.Regs[v]; ok {
		return r
	}
	panic(unsupported(fmt.Sprintf("no value for %s (%T) in %s", v.Name(), v, v.Parent())))
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return Zero(c.Type())
	}
	k := KindOf(c.Type())
	switch k {
	case KStr:
		if c.Value.Kind() == constant.Int { // rune to string handled by ssa
			return Str(string(rune(c.Int64())))
		}
		return ConstOf(c.Value, KStr)
	case KInt, KFloat:
		return ConstOf(c.Value, k)
	case KBool:
		return ConstOf(c.Value, k)
	}
	return Fresh(KOther, "const")
}

// ---- calls ----

// Call runs fn with args and returns the states after it.
func (in *Interp) Call(st *State, fn *ssa.Function, args, bind []Val, instr ssa.Instruction) []RetState {
	if len(in.stack) > 60 {
		in.undecided("inlining too deep at %s", fn)
		return nil
	}
	in.Fns[fn] = true
	act := 0
	for _, f := range in.stack {
		if f.fn == fn && f.rec != nil {
			act++
		}
	}
	if act > in.Opt.InlineRec {
		for i := len(in.stack) - 1; i >= 0; i-- {
			if f := in.stack[i]; f.fn == fn && f.rec != nil {
				return in.recursiveCall(f, st, args, instr)
			}
		}
	}
	ctx := ""
	if len(in.stack) > 0 {
		ctx = in.stack[len(in.stack)-1].ctx
	}
	pos := "0"
	if instr != nil {
		pos = fmt.Sprint(instr.Pos())
	}
	fr := &frame{fn: fn, ctx: ctx + "/" + fn.Name() + "@" + pos, info: in.fnInfo(fn), rec: &recInfo{}, call: instr}
	return in.callFrame(fr, st, args, bind)
}

// FnCount counts calls and time per function.
var FnCount = map[string][2]int{}

func (in *Interp) callFrame(fr *frame, st *State, args, bind []Val) []RetState {
	save := in.Log
	in.Log = &Log{}
	t0 := time.Now()
	defer func() {
		c := FnCount[fr.fn.Name()]
		c[0]++
		c[1] += int(time.Since(t0).Microseconds())
		FnCount[fr.fn.Name()] = c
	}()
	outs := in.runBody(fr, st, args, bind)
	if fr.rec.found {
		in.Log = save
		outs = in.solveRec(fr, st, args, bind)
	} else {
		save.addAll(in.Log)
		in.Log = save
	}
	return in.joinReturns(fr, outs)
}

// runBody interprets the body once.
func (in *Interp) runBody(fr *frame, st *State, args, bind []Val) []RetState {
	mark := symCount
	n := st.Clone()
	callerRegs, callerDefers := st.Regs, st.Defers
	n.Regs = map[ssa.Value]Val{}
	n.Defers = nil
	for i, p := range fr.fn.Params {
		n.Regs[p] = args[i]
	}
	for i, f := range fr.fn.FreeVars {
		n.Regs[f] = bind[i]
	}
	in.stack = append(in.stack, fr)
	var outs []outcome
	func() {
		defer func() { in.stack = in.stack[:len(in.stack)-1] }()
		outs = in.runScope(fr, nil, []arrival{{nil, fr.fn.Blocks[0], n}})
	}()
	var rs []RetState
	for _, o := range outs {
		if o.kind != outRet {
			continue
		}
		s := o.st
		if in.Opt.KeepFacts == nil || !in.Opt.KeepFacts(fr.fn) {
			s.forget(mark, st.Heap, o.ret)
		}
		s.Regs = make(map[ssa.Value]Val, len(callerRegs)+2)
		for k, v := range callerRegs {
			s.Regs[k] = v
		}
		s.Defers = callerDefers
		rs = append(rs, RetState{s, o.ret})
	}
	return rs
}

func (in *Interp) nilness(st *State, v Val) string {
	switch x := v.(type) {
	case *Term:
		if x.Op == "nil" {
			return "nil"
		}
		if d, ok := st.Facts.Decide(App(KBool, "isnil", x)); ok {
			if d {
				return "nil"
			}
			return "nonnil"
		}
		return "?"
	case *IfaceV:
		return "i<" + types.TypeString(x.T, nil) + ">"
	case *SliceV:
		if x.Obj == nil {
			return "nil"
		}
		return "slice"
	}
	return "nonnil"
}

func (in *Interp) class(st *State, v Val) string {
	switch x := v.(type) {
	case *Term:
		if x.IsConst() && x.Kind != KFloat {
			return Key(x)
		}
		if x.Kind == KOther {
			return in.nilness(st, x)
		}
		return "?"
	case TupleV:
		s := ""
		for _, y := range x {
			s += in.class(st, y) + ","
		}
		return s
	case nil:
		return ""
	case *StructV:
		// a flag field separates alternatives (optional values)
		s := "{"
		for _, y := range x.F {
			if t, ok := y.(*Term); ok && t.Kind == KBool && t.IsConst() {
				s += Key(t)
			}
		}
		return s + "}"
	case *FuncV:
		return Key(x)
	}
	return in.nilness(st, v)
}

func (in *Interp) joinReturns(fr *frame, outs []RetState) []RetState {
	if len(outs) <= 1 {
		return outs
	}
	groups := map[string][]RetState{}
	var order []string
	for _, o := range outs {
		c := in.class(o.St, o.Ret)
		for _, g := range []string{"!pend"} {
			if v, ok := o.St.Ghost[g]; ok {
				c += "|" + Key(v)
			}
		}
		if _, ok := groups[c]; !ok {
			order = append(order, c)
		}
		groups[c] = append(groups[c], o)
	}
	cap := in.Opt.RetCap
	if in.Opt.KeepApart != nil && in.Opt.KeepApart(fr.fn) {
		cap = 1 << 20
	}
	var res []RetState
	for _, c := range order {
		g := groups[c]
		if len(g) <= cap {
			res = append(res, g...)
			continue
		}
		res = append(res, in.mergeRets(fr, g))
	}
	return res
}

// ---- blocks ----

type outKind uint8

const (
	outRet outKind = iota
	outExit
	outBack
)

type outcome struct {
	kind     outKind
	prev, to *ssa.BasicBlock
	st       *State
	ret      Val
}

type arrival struct {
	prev, b *ssa.BasicBlock
	st      *State
}

func (in *Interp) runScope(fr *frame, L *loop, init []arrival) []outcome {
	pend := map[*ssa.BasicBlock][]arrival{}
	for _, a := range init {
		pend[a.b] = append(pend[a.b], a)
	}
	var outs []outcome
	first := true
	route := func(prev, to *ssa.BasicBlock, st *State) {
		if L != nil {
			if to == L.head {
				outs = append(outs, outcome{kind: outBack, prev: prev, to: to, st: st})
				return
			}
			if !L.body[to] {
				outs = append(outs, outcome{kind: outExit, prev: prev, to: to, st: st})
				return
			}
		}
		pend[to] = append(pend[to], arrival{prev, to, st})
	}
	for _, b := range fr.info.rpo {
		if L != nil && !L.body[b] {
			continue
		}
		as := pend[b]
		if len(as) == 0 {
			continue
		}
		inner := fr.info.inner[b]
		if inner != L {
			// header of a nested loop, or inside of one (then not reached directly)
			c := inner
			for c != nil && c.parent != L {
				c = c.parent
			}
			if c == nil || c.head != b {
				continue
			}
			if L != nil && b == L.head && first {
				// cannot happen: L's header has inner == L
				first = false
			}
			if len(as) > in.Opt.LoopCap {
				as = in.mergeArrivals(fr, b, as)
			}
			for _, a := range as {
				for _, o := range in.solveLoop(fr, c, a) {
					switch o.kind {
					case outRet:
						outs = append(outs, o)
					case outExit:
						route(o.prev, o.to, o.st)
					}
				}
			}
			continue
		}
		if len(as) > 1 && in.Opt.MergeFloats {
			as = in.mergeFloats(fr, b, as)
		}
		if len(as) > in.Opt.BlockCap {
			as = in.mergeArrivals(fr, b, as)
		}
		for _, a := range as {
			for _, o := range in.runBlock(fr, a) {
				if o.kind == outRet {
					outs = append(outs, o)
				} else {
					route(b, o.to, o.st)
				}
			}
		}
	}
	return outs
}

func (in *Interp) evalPhis(a arrival) {
	if a.prev == nil {
		return
	}
	idx := -1
	for i, p := range a.b.Preds {
		if p == a.prev {
			idx = i
		}
	}
	var phis []*ssa.Phi
	var vals []Val
	for _, i := range a.b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, in.Get(a.st, p.Edges[idx]))
	}
	for i, p := range phis {
		a.st.Regs[p] = vals[i]
	}
}

func (in *Interp) runBlock(fr *frame, a arrival) []outcome {
	in.evalPhis(a)
	cur := []*State{a.st}
	for _, ins := range a.b.Instrs {
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		in.Steps++
		if in.Steps > in.MaxStep {
			panic(unsupported("step limit"))
		}
		if in.Steps&63 == 0 && !in.Until.IsZero() && time.Now().After(in.Until) {
			panic(unsupported("time limit"))
		}
		switch x := ins.(type) {
		case *ssa.Jump:
			var outs []outcome
			for _, s := range cur {
				outs = append(outs, outcome{kind: outExit, to: a.b.Succs[0], st: s})
			}
			return outs
		case *ssa.If:
			var outs []outcome
			for _, s := range cur {
				c, ok := in.Get(s, x.Cond).(*Term)
				if !ok {
					panic(unsupported("condition"))
				}
				if v, ok := s.Facts.Decide(c); ok {
					to := a.b.Succs[0]
					if !v {
						to = a.b.Succs[1]
					}
					if !c.IsConst() {
						if f, ok := s.Facts.Assume(c, v); ok {
							s.Facts = f
						}
					}
					outs = append(outs, outcome{kind: outExit, to: to, st: s})
					continue
				}
				s2 := s.Clone()
				n := len(outs)
				if f, ok := s.Facts.Assume(c, true); ok {
					s.Facts = f
					outs = append(outs, outcome{kind: outExit, to: a.b.Succs[0], st: s})
				}
				if f, ok := s2.Facts.Assume(c, false); ok {
					s2.Facts = f
					outs = append(outs, outcome{kind: outExit, to: a.b.Succs[1], st: s2})
				}
				if len(outs) == n+2 && in.Opt.Evaluable != nil && !in.Opt.Evaluable(c) {
					in.unsure(x, s, s2)
				}
			}
			return outs
		case *ssa.Return:
			var outs []outcome
			for _, s := range cur {
				var ret Val
				switch len(x.Results) {
				case 0:
				case 1:
					ret = in.Get(s, x.Results[0])
				default:
					var tv TupleV
					for _, r := range x.Results {
						tv = append(tv, in.Get(s, r))
					}
					ret = tv
				}
				in.notePend(fr, s, x, ret)
				outs = append(outs, outcome{kind: outRet, st: s, ret: ret})
			}
			return outs
		case *ssa.Panic:
			for _, s := range cur {
				in.oblige(s, "panic", ins, false, "explicit panic is reachable")
			}
			return nil
		default:
			var next []*State
			for _, s := range cur {
				ns := in.stepInstr(fr, s, ins)
				if _, isCall := ins.(ssa.CallInstruction); !isCall && len(ns) > 1 && !in.anyErr(ins, s) {
					in.unsure(ins, ns...)
				}
				next = append(next, ns...)
			}
			cur = next
			if len(cur) == 0 {
				return nil
			}
		}
	}
	return nil
}

// anyErr tells whether an instruction asks for the type of an error that may be any.
func (in *Interp) anyErr(ins ssa.Instruction, st *State) bool {
	x, ok := ins.(*ssa.TypeAssert)
	if !ok {
		return false
	}
	t, ok := in.Get(st, x.X).(*Term)
	return ok && AnyErr(t)
}

// unsure marks states after a fork that the analysis could not decide.
func (in *Interp) unsure(at ssa.Instruction, sts ...*State) {
	for _, s := range sts {
		if s.Unsure == "" {
			s.Unsure = at.String() + " in " + at.Parent().Name()
		}
	}
}

// notePend remembers that an error is on its way to the caller.
func (in *Interp) notePend(fr *frame, st *State, r *ssa.Return, ret Val) {
	if !in.InModule(fr.fn) {
		return
	}
	sig := fr.fn.Signature.Results()
	for i := 0; i < sig.Len(); i++ {
		if !isError(sig.At(i).Type()) {
			continue
		}
		v := ret
		if tv, ok := ret.(TupleV); ok {
			v = tv[i]
		}
		n := in.nilness(st, v)
		if n == "nonnil" || strings.HasPrefix(n, "i<") {
			in.setPend(st, fr.fn.String())
		}
	}
}

func (in *Interp) setPend(st *State, where string) {
	if _, ok := st.Ghost["!pend"]; !ok {
		st.Ghost["!pend"] = Str(where)
	}
}

func isError(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func one(s *State) []*State { return []*State{s} }

// deref checks that v is a usable pointer and returns it.
func (in *Interp) deref(st *State, v Val, elem types.Type, instr ssa.Instruction) *PtrV {
	switch p := v.(type) {
	case *PtrV:
		in.oblige(st, "nil", instr, true, "")
		return p
	case *Term:
		if p.Op == "nil" {
			in.oblige(st, "nil", instr, false, "nil pointer dereference")
			return nil
		}
		d, ok := st.Facts.Decide(App(KBool, "isnil", p))
		in.oblige(st, "nil", instr, ok && !d, "pointer "+p.String()+" may be nil")
		if ok && d {
			return nil
		}
		if !ok {
			if f, ok := st.Facts.Assume(App(KBool, "isnil", p), false); ok {
				st.Facts = f
			}
		}
		return &PtrV{Obj: objOfTerm(p, elem, "ptr")}
	}
	panic(unsupported(fmt.Sprintf("dereference of %T", v)))
}

func elemOf(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func ext(p []PE, e PE) []PE { return append(p[:len(p):len(p)], e) }

func (in *Interp) index(st *State, instr ssa.Instruction, idx, n *Term) bool {
	ok := st.Facts.Prove(idx) && st.Facts.Prove(AddInt(Sub(n, idx), -1))
	in.oblige(st, "index", instr, ok, fmt.Sprintf("index %s with length %s", idx, n))
	if !ok {
		f := st.Facts
		f, ok1 := f.Assume(Ge0(idx), true)
		f, ok2 := f.Assume(Ge0(AddInt(Sub(n, idx), -1)), true)
		if !ok1 || !ok2 {
			return false
		}
		st.Facts = f
	}
	return true
}

func (in *Interp) stepInstr(fr *frame, st *State, ins ssa.Instruction) []*State {
	switch x := ins.(type) {
	case *ssa.DebugRef:
		return one(st)
	case *ssa.Alloc:
		t := elemOf(x.Type())
		o := newObj(OAlloc, t, x.Comment+"@"+fr.fn.Name())
		o.Site = x
		o.Root = fmt.Sprintf("%p@%s", x, fr.ctx)
		st.Heap[o] = Zero(t)
		st.Regs[x] = &PtrV{Obj: o}
		return one(st)
	case *ssa.BinOp:
		v, ok := in.binop(st, x)
		if !ok {
			return nil
		}
		st.Regs[x] = v
		return one(st)
	case *ssa.UnOp:
		return in.unop(st, x)
	case *ssa.ChangeType:
		st.Regs[x] = in.Get(st, x.X)
		return one(st)
	case *ssa.ChangeInterface:
		st.Regs[x] = in.Get(st, x.X)
		return one(st)
	case *ssa.Convert:
		st.Regs[x] = in.convert(st, in.Get(st, x.X), x.X.Type(), x.Type())
		return one(st)
	case *ssa.MultiConvert:
		st.Regs[x] = in.convert(st, in.Get(st, x.X), x.X.Type(), x.Type())
		return one(st)
	case *ssa.MakeInterface:
		st.Regs[x] = &IfaceV{T: x.X.Type(), V: in.Get(st, x.X)}
		return one(st)
	case *ssa.MakeClosure:
		f := &FuncV{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, in.Get(st, b))
		}
		st.Regs[x] = f
		return one(st)
	case *ssa.MakeMap:
		o := newObj(OAlloc, x.Type(), "map@"+fr.fn.Name())
		o.IsMap = true
		o.Root = fmt.Sprintf("%p@%s", x, fr.ctx)
		o.Site = x
		m := x.Type().Underlying().(*types.Map)
		st.Heap[o] = &MapC{KT: m.Key(), VT: m.Elem(), NonNil: true}
		st.Regs[x] = &MapV{Obj: o}
		return one(st)
	case *ssa.MakeSlice:
		n := in.Get(st, x.Len).(*Term)
		c := in.Get(st, x.Cap).(*Term)
		ok := st.Facts.Prove(n) && st.Facts.Prove(Sub(c, n))
		in.oblige(st, "makeslice", ins, ok, "make with length "+n.String())
		et := x.Type().Underlying().(*types.Slice).Elem()
		o := newObj(OAlloc, et, "make@"+fr.fn.Name())
		o.IsSeq = true
		o.Site = x
		o.Root = fmt.Sprintf("%p@%s", x, fr.ctx)
		sq := &SeqV{Elem: et, Segs: []Seg{{Zero: true, Len: c}}}
		if k, isC := c.IntVal(); isC && k == 0 {
			sq.Segs = nil
		}
		st.Heap[o] = sq
		st.Regs[x] = &SliceV{Obj: o, Off: Int(0), Len: n, Cap: c}
		return one(st)
	case *ssa.Extract:
		t, ok := in.Get(st, x.Tuple).(TupleV)
		if !ok {
			panic(unsupported("extract"))
		}
		st.Regs[x] = t[x.Index]
		return one(st)
	case *ssa.Field:
		v, _ := st.step(in.Get(st, x.X), x.X.Type(), PE{F: x.Field})
		st.Regs[x] = v
		return one(st)
	case *ssa.FieldAddr:
		p := in.deref(st, in.Get(st, x.X), elemOf(x.X.Type()), ins)
		if p == nil {
			return nil
		}
		st.Regs[x] = &PtrV{Obj: p.Obj, Path: ext(p.Path, PE{F: x.Field})}
		return one(st)
	case *ssa.Index:
		idx := in.Get(st, x.Index).(*Term)
		switch v := in.Get(st, x.X).(type) {
		case *Term:
			if v.Kind == KStr {
				if !in.index(st, ins, idx, Len(v)) {
					return nil
				}
				st.Regs[x] = charAt(v, idx)
				return one(st)
			}
			a := x.X.Type().Underlying().(*types.Array)
			if !in.index(st, ins, idx, Int(a.Len())) {
				return nil
			}
			r, _ := st.step(v, x.X.Type(), PE{Idx: idx})
			st.Regs[x] = r
			return one(st)
		case *ArrV:
			if !in.index(st, ins, idx, Int(int64(len(v.E)))) {
				return nil
			}
			r, _ := st.step(v, x.X.Type(), PE{Idx: idx})
			st.Regs[x] = r
			return one(st)
		}
	case *ssa.IndexAddr:
		idx := in.Get(st, x.Index).(*Term)
		switch v := in.Get(st, x.X).(type) {
		case *SliceV:
			if !in.index(st, ins, idx, v.Len) || v.Obj == nil {
				return nil
			}
			st.Regs[x] = &PtrV{Obj: v.Obj, Path: []PE{{Idx: Add(v.Off, idx)}}}
			return one(st)
		default:
			at := elemOf(x.X.Type())
			p := in.deref(st, v, at, ins)
			if p == nil {
				return nil
			}
			if !in.index(st, ins, idx, Int(at.Underlying().(*types.Array).Len())) {
				return nil
			}
			st.Regs[x] = &PtrV{Obj: p.Obj, Path: ext(p.Path, PE{Idx: idx})}
			return one(st)
		}
	case *ssa.Store:
		p := in.deref(st, in.Get(st, x.Addr), elemOf(x.Addr.Type()), ins)
		if p == nil {
			return nil
		}
		v := in.Get(st, x.Val)
		in.Log.Stores = append(in.Log.Stores, &StoreEv{Ptr: p, V: v, Instr: ins, Stack: in.StackNames(), Facts: st.Facts, How: "store"})
		st.Store(p, v)
		return one(st)
	case *ssa.MapUpdate:
		m := in.Get(st, x.Map)
		mv, ok := m.(*MapV)
		in.oblige(st, "nilmap", ins, ok, "write to a map that may be nil")
		if !ok {
			return one(st)
		}
		k, v := in.Get(st, x.Key), in.Get(st, x.Value)
		in.Log.Stores = append(in.Log.Stores, &StoreEv{Map: mv, V: v, Instr: ins, Stack: in.StackNames(), Facts: st.Facts, How: "mapupdate"})
		st.Add(&Ev{Kind: "mapset", Args: []Val{k, v}, Target: mv, Instr: ins, Facts: st.Facts, Stack: in.StackNames()})
		in.mapSet(st, mv, k, v)
		return one(st)
	case *ssa.Lookup:
		return in.lookup(st, x)
	case *ssa.Slice:
		return in.slice(st, x)
	case *ssa.SliceToArrayPointer:
		panic(unsupported("slice to array pointer"))
	case *ssa.TypeAssert:
		return in.typeAssert(st, x)
	case *ssa.Range:
		return in.rangeInit(st, x)
	case *ssa.Next:
		return in.next(st, x)
	case *ssa.Defer:
		d := &deferred{call: &x.Call, in: x}
		if !x.Call.IsInvoke() {
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				d.fn = in.Get(st, x.Call.Value)
			}
		} else {
			d.fn = in.Get(st, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, in.Get(st, a))
		}
		st.Defers = append(st.Defers[:len(st.Defers):len(st.Defers)], d)
		return one(st)
	case *ssa.RunDefers:
		cur := one(st)
		for len(cur) > 0 {
			var next []*State
			progress := false
			for _, s := range cur {
				if len(s.Defers) == 0 {
					next = append(next, s)
					continue
				}
				progress = true
				d := s.Defers[len(s.Defers)-1]
				s.Defers = s.Defers[:len(s.Defers)-1]
				for _, r := range in.dispatch(s, d.call, d.fn, d.args, d.in) {
					next = append(next, r.St)
				}
			}
			cur = next
			if !progress {
				break
			}
		}
		return cur
	case *ssa.Call:
		var fn Val
		if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
			fn = in.Get(st, x.Call.Value)
		}
		var args []Val
		for _, a := range x.Call.Args {
			args = append(args, in.Get(st, a))
		}
		var out []*State
		for _, r := range in.dispatch(st, &x.Call, fn, args, x) {
			r.St.Regs[x] = r.Ret
			out = append(out, r.St)
		}
		return out
	}
	panic(unsupported(fmt.Sprintf("instruction %T in %s", ins, fr.fn)))
}

func charAt(s, idx *Term) *Term {
	if c, ok := s.StrVal(); ok {
		if n, ok := idx.IntVal(); ok && n >= 0 && n < int64(len(c)) {
			return Int(int64(c[n]))
		}
	}
	if s.Op == "substr" {
		return charAt(s.Args[0], Add(s.Args[1], idx))
	}
	return App(KInt, "at", s, idx)
}

func isNilTerm(v Val) bool {
	t, ok := v.(*Term)
	return ok && t.Op == "nil"
}

func (in *Interp) eq(st *State, a, b Val, t types.Type) *Term {
	// nil comparisons
	if isNilTerm(b) || isNilTerm(a) {
		if isNilTerm(a) {
			a, b = b, a
		}
		switch x := a.(type) {
		case *Term:
			if x.Op == "nil" {
				return Bool(true)
			}
			return App(KBool, "isnil", x)
		case *SliceV:
			return in.sliceNil(x)
		}
		return Bool(false)
	}
	if s, ok := a.(*SliceV); ok {
		if o, ok := b.(*SliceV); ok && o.Obj == nil {
			return in.sliceNil(s)
		}
		if o, ok := b.(*SliceV); ok && s.Obj == nil {
			return in.sliceNil(o)
		}
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			switch x.Kind {
			case KInt:
				return Eq0(Sub(x, y))
			case KStr:
				return SEq(x, y)
			case KFloat:
				return FCmp(token.EQL, x, y)
			case KBool:
				if v, ok := y.BoolVal(); ok {
					if v {
						return x
					}
					return Not(x)
				}
				if v, ok := x.BoolVal(); ok {
					if v {
						return y
					}
					return Not(y)
				}
			}
			if x == y {
				return Bool(true)
			}
		}
	case *StructV:
		if y, ok := b.(*StructV); ok {
			return in.allEq(st, x.F, y.F)
		}
	case *ArrV:
		if y, ok := b.(*ArrV); ok && len(x.E) == len(y.E) {
			return in.allEq(st, x.E, y.E)
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok && x.T != nil && y.T != nil {
			if !types.Identical(x.T, y.T) {
				return Bool(false)
			}
			return in.eq(st, x.V, y.V, x.T)
		}
	case *PtrV:
		if y, ok := b.(*PtrV); ok {
			if Key(x) == Key(y) {
				return Bool(true)
			}
			if x.Obj != y.Obj && x.Obj.Kind != OSym && y.Obj.Kind != OSym {
				return Bool(false)
			}
		}
	}
	x, y := TermOf(a), TermOf(b)
	if x == y {
		return Bool(true)
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return App(KBool, "veq", x, y)
}

func (in *Interp) allEq(st *State, xs, ys []Val) *Term {
	var open []*Term
	for i := range xs {
		e := in.eq(st, xs[i], ys[i], nil)
		if v, ok := st.Facts.Decide(e); ok {
			if !v {
				return Bool(false)
			}
			continue
		}
		open = append(open, e)
	}
	return And(open...)
}

func (in *Interp) sliceNil(s *SliceV) *Term {
	if s.Obj == nil {
		return Bool(true)
	}
	if s.Obj.Kind == OSym {
		return App(KBool, "isnil", s.Obj.Key)
	}
	return Bool(false)
}

func basicKind(t types.Type) types.BasicKind {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind()
	}
	return types.Invalid
}

func intName(t types.Type) string {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Byte:
			return "uint8"
		case types.Rune:
			return "int32"
		}
		return b.Name()
	}
	return "?"
}

// narrow wraps t into the integer type ty unless it provably fits.
func (in *Interp) narrow(st *State, t *Term, ty types.Type) *Term {
	lo, hi, ok := intRange(ty)
	if !ok {
		return t
	}
	if t.IsConst() {
		b, isInt := constant.Val(t.C).(int64)
		if isInt {
			if b >= lo && b <= hi {
				return t
			}
			return ConstOf(constant.MakeInt64(wrapInt(b, ty)), KInt)
		}
	}
	if st.Facts.Prove(AddInt(t, -lo)) && st.Facts.Prove(Sub(Int(hi), t)) {
		return t
	}
	return App(KInt, "conv:"+intName(ty), t)
}

func wrapInt(b int64, ty types.Type) int64 {
	switch basicKind(ty) {
	case types.Uint8:
		return int64(uint8(b))
	case types.Uint16:
		return int64(uint16(b))
	case types.Uint32:
		return int64(uint32(b))
	case types.Int8:
		return int64(int8(b))
	case types.Int16:
		return int64(int16(b))
	case types.Int32:
		return int64(int32(b))
	}
	return b
}

func intRange(t types.Type) (lo, hi int64, ok bool) {
	switch basicKind(t) {
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 65535, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	case types.Int8:
		return -128, 127, true
	case types.Int16:
		return -32768, 32767, true
	}
	return 0, 0, false
}

func (in *Interp) binop(st *State, x *ssa.BinOp) (Val, bool) {
	a, b := in.Get(st, x.X), in.Get(st, x.Y)
	switch x.Op {
	case token.EQL:
		return in.eq(st, a, b, x.X.Type()), true
	case token.NEQ:
		return Not(in.eq(st, a, b, x.X.Type())), true
	}
	s, ok1 := a.(*Term)
	t, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported("operands of " + x.Op.String()))
	}
	switch s.Kind {
	case KStr:
		switch x.Op {
		case token.ADD:
			return Concat(s, t), true
		}
		if s.IsConst() && t.IsConst() {
			return Bool(constant.Compare(s.C, x.Op, t.C)), true
		}
		return App(KBool, "s"+x.Op.String(), s, t), true
	case KFloat:
		switch x.Op {
		case token.ADD:
			return Add(s, t), true
		case token.SUB:
			return Sub(s, t), true
		case token.MUL:
			return Mul(s, t), true
		case token.QUO:
			return Quo(s, t), true
		}
		return FCmp(x.Op, s, t), true
	case KInt:
		var r *Term
		switch x.Op {
		case token.ADD:
			r = Add(s, t)
		case token.SUB:
			r = Sub(s, t)
		case token.MUL:
			r = Mul(s, t)
		case token.QUO, token.REM:
			nz := st.Facts.Prove(AddInt(t, -1)) || st.Facts.Prove(AddInt(Neg(t), -1))
			in.oblige(st, "divzero", x, nz, "division by "+t.String())
			if !nz {
				f, ok := st.Facts.Assume(Eq0(t), false)
				if !ok {
					return nil, false
				}
				st.Facts = f
			}
			m, okm := s.IntVal()
			n, okn := t.IntVal()
			if okm && okn && n != 0 {
				if x.Op == token.QUO {
					return Int(m / n), true
				}
				return Int(m % n), true
			}
			op := "quo"
			if x.Op == token.REM {
				op = "rem"
				if okn && n > 0 && divBy(s, n) {
					return Int(0), true
				}
			}
			return App(KInt, op, s, t), true
		case token.LSS:
			return Ge0(AddInt(Sub(t, s), -1)), true
		case token.LEQ:
			return Ge0(Sub(t, s)), true
		case token.GTR:
			return Ge0(AddInt(Sub(s, t), -1)), true
		case token.GEQ:
			return Ge0(Sub(s, t)), true
		case token.SHL:
			if n, ok := t.IntVal(); ok && n >= 0 && n < 60 {
				r = Mul(s, Int(1<<uint(n)))
			}
		case token.SHR:
			if n, ok := t.IntVal(); ok && n >= 0 && n < 60 {
				if m, ok := s.IntVal(); ok {
					return Int(m >> uint(n)), true
				}
			}
		}
		if r == nil {
			if s.IsConst() && t.IsConst() {
				switch x.Op {
				case token.AND, token.OR, token.XOR, token.AND_NOT:
					return ConstOf(constant.BinaryOp(s.C, x.Op, t.C), KInt), true
				}
			}
			return App(KInt, "op"+x.Op.String(), s, t), true
		}
		return in.narrow(st, r, x.Type()), true
	case KBool:
		return App(KBool, "b"+x.Op.String(), s, t), true
	}
	panic(unsupported("operator " + x.Op.String()))
}

func divBy(t *Term, n int64) bool {
	_, cs := PolyOf(t)
	for _, c := range cs {
		if !c.IsInt() || c.Num().Int64()%n != 0 {
			return false
		}
	}
	// only exact when every atom is an integer, which holds for integer terms
	ms, _ := PolyOf(t)
	for _, m := range ms {
		for _, e := range m.Exps {
			if e < 0 {
				return false
			}
		}
	}
	return true
}

func (in *Interp) unop(st *State, x *ssa.UnOp) []*State {
	v := in.Get(st, x.X)
	switch x.Op {
	case token.MUL:
		p := in.deref(st, v, elemOf(x.X.Type()), x)
		if p == nil {
			return nil
		}
		st.Regs[x] = st.Load(p)
		return one(st)
	case token.NOT:
		st.Regs[x] = Not(v.(*Term))
		return one(st)
	case token.SUB:
		st.Regs[x] = in.narrow(st, Neg(v.(*Term)), x.Type())
		return one(st)
	case token.XOR:
		st.Regs[x] = App(KInt, "compl", v.(*Term))
		return one(st)
	}
	panic(unsupported("unary " + x.Op.String()))
}

func (in *Interp) convert(st *State, v Val, from, to types.Type) Val {
	fk, tk := KindOf(from), KindOf(to)
	t, isT := v.(*Term)
	switch {
	case isT && fk == KInt && tk == KInt:
		return in.narrow(st, t, to)
	case isT && fk == KInt && tk == KFloat:
		if t.IsConst() {
			return ConstOf(t.C, KFloat)
		}
		return i2f(t)
	case isT && fk == KFloat && tk == KInt:
		if t.IsConst() {
			r := ratOf(t.C)
			q := big64(0)
			q.Quo(r.Num(), r.Denom())
			return in.narrow(st, ConstOf(mkBig(q), KInt), to)
		}
		return f2i(t, intName(to))
	case isT && fk == KFloat && tk == KFloat:
		if basicKind(from) != basicKind(to) && basicKind(to) == types.Float32 {
			return App(KFloat, "f32", t)
		}
		return t
	case fk == KInt && tk == KStr:
		if n, ok := t.IntVal(); ok {
			return Str(string(rune(n)))
		}
		return App(KStr, "runestr", t)
	case tk == KStr:
		switch s := v.(type) {
		case *Term:
			return s
		case *SliceV:
			c := st.SliceContent(s)
			var cs []byte
			known := true
			for _, g := range c.Segs {
				if g.Base != nil || g.Zero {
					known = false
					break
				}
				for _, e := range g.Elems {
					n, ok := e.(*Term).IntVal()
					if !ok || n < 0 {
						known = false
						break
					}
					if sl, ok := from.Underlying().(*types.Slice); ok && basicKind(sl.Elem()) == types.Int32 {
						cs = utf8.AppendRune(cs, rune(n))
						continue
					}
					cs = append(cs, byte(n))
				}
			}
			if known && len(c.W) == 0 {
				return Str(string(cs))
			}
			return App(KStr, "bstr", argTerm(st, s), s.Len)
		}
	case fk == KStr:
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if c, isC := t.StrVal(); isC && len(c) <= 256 {
				var es []Val
				if basicKind(sl.Elem()) == types.Uint8 {
					for i := 0; i < len(c); i++ {
						es = append(es, Int(int64(c[i])))
					}
				} else {
					for _, r := range c {
						es = append(es, Int(int64(r)))
					}
				}
				sq := &SeqV{Elem: sl.Elem()}
				if len(es) > 0 {
					sq.Segs = []Seg{{Elems: es}}
				}
				return in.NewSlice(st, sq, "bytes")
			}
			base := App(KOther, "bytes:"+types.TypeString(sl.Elem(), nil), t)
			o := objOfTerm(base, sl.Elem(), "seq")
			n := Len(t)
			if basicKind(sl.Elem()) != types.Uint8 {
				n = App(KInt, "len", base)
			}
			o.InitLen = n
			return &SliceV{Obj: o, Off: Int(0), Len: n, Cap: n}
		}
	case types.Identical(from.Underlying(), to.Underlying()):
		return v
	}
	if tk == fk {
		return v
	}
	panic(unsupported(fmt.Sprintf("conversion %s to %s", from, to)))
}

func i2f(t *Term) *Term {
	return App(KFloat, "i2f", t)
}

func f2i(t *Term, name string) *Term {
	// truncating what came from an integer is the identity
	if t.Op == "i2f" {
		return t.Args[0]
	}
	return App(KInt, "f2i:"+name, t)
}

func (in *Interp) slice(st *State, x *ssa.Slice) []*State {
	v := in.Get(st, x.X)
	get := func(o ssa.Value, def *Term) *Term {
		if o == nil {
			return def
		}
		return in.Get(st, o).(*Term)
	}
	f := st.Facts
	switch s := v.(type) {
	case *Term:
		if s.Kind != KStr {
			break
		}
		n := Len(s)
		lo, hi := get(x.Low, Int(0)), get(x.High, n)
		ok := f.Prove(lo) && f.Prove(Sub(hi, lo)) && f.Prove(Sub(n, hi))
		in.oblige(st, "slice", x, ok, fmt.Sprintf("slice [%s:%s] of a string of length %s", lo, hi, n))
		if !ok && !in.assumeAll(st, lo, Sub(hi, lo), Sub(n, hi)) {
			return nil
		}
		st.Regs[x] = Substr(s, lo, hi)
		return one(st)
	case *SliceV:
		lo, hi := get(x.Low, Int(0)), get(x.High, s.Len)
		c := s.Cap
		if x.Max != nil {
			c = in.Get(st, x.Max).(*Term)
		}
		ok := f.Prove(lo) && f.Prove(Sub(hi, lo)) && (f.Prove(Sub(s.Len, hi)) || f.Prove(Sub(s.Cap, hi)))
		if x.Max != nil {
			ok = ok && f.Prove(Sub(c, hi)) && (f.Prove(Sub(s.Len, c)) || f.Prove(Sub(s.Cap, c)))
		}
		in.oblige(st, "slice", x, ok, fmt.Sprintf("slice [%s:%s] of a slice of length %s", lo, hi, s.Len))
		if !ok && !in.assumeAll(st, lo, Sub(hi, lo), Sub(s.Cap, hi)) {
			return nil
		}
		if s.Obj == nil {
			st.Regs[x] = s
			return one(st)
		}
		st.Regs[x] = &SliceV{Obj: s.Obj, Off: Add(s.Off, lo), Len: Sub(hi, lo), Cap: Sub(c, lo)}
		return one(st)
	default:
		at := elemOf(x.X.Type())
		a, isArr := at.Underlying().(*types.Array)
		if !isArr {
			break
		}
		p := in.deref(st, v, at, x)
		if p == nil {
			return nil
		}
		n := Int(a.Len())
		lo, hi := get(x.Low, Int(0)), get(x.High, n)
		ok := f.Prove(lo) && f.Prove(Sub(hi, lo)) && f.Prove(Sub(n, hi))
		in.oblige(st, "slice", x, ok, fmt.Sprintf("slice [%s:%s] of an array of length %s", lo, hi, n))
		o := p.Obj
		if len(p.Path) != 0 {
			// part of a larger object: the slice gets a copy, which is exact as long as
			// only one of the two is written afterwards
			o = newObj(OAlloc, p.Obj.T, "part")
			o.T = at
			o.Site = x
			st.Heap[o] = st.Load(p)
			in.undecided("slice of an array inside of a larger object")
		}
		st.Regs[x] = &SliceV{Obj: o, Off: lo, Len: Sub(hi, lo), Cap: Sub(n, lo)}
		return one(st)
	}
	panic(unsupported(fmt.Sprintf("slice of %T", v)))
}

func (in *Interp) assumeAll(st *State, ps ...*Term) bool {
	for _, p := range ps {
		f, ok := st.Facts.Assume(Ge0(p), true)
		if !ok {
			return false
		}
		st.Facts = f
	}
	return true
}

func (in *Interp) typeAssert(st *State, x *ssa.TypeAssert) []*State {
	v := in.Get(st, x.X)
	conv := func(iv *IfaceV) Val {
		if types.IsInterface(x.AssertedType) {
			return iv
		}
		return iv.V
	}
	switch iv := v.(type) {
	case *IfaceV:
		match := false
		if types.IsInterface(x.AssertedType) {
			match = types.Implements(iv.T, x.AssertedType.Underlying().(*types.Interface))
		} else {
			match = types.Identical(iv.T, x.AssertedType)
		}
		if !x.CommaOk {
			in.oblige(st, "assert", x, match, "type assertion")
			if !match {
				return nil
			}
			st.Regs[x] = conv(iv)
			return one(st)
		}
		if match {
			st.Regs[x] = TupleV{conv(iv), Bool(true)}
		} else {
			st.Regs[x] = TupleV{Zero(x.AssertedType), Bool(false)}
		}
		return one(st)
	case *Term:
		if iv.Op == "nil" {
			if !x.CommaOk {
				in.oblige(st, "assert", x, false, "type assertion on nil")
				return nil
			}
			st.Regs[x] = TupleV{Zero(x.AssertedType), Bool(false)}
			return one(st)
		}
		lit := App(KBool, "istype", iv, TypeTerm(x.AssertedType))
		var val Val
		if types.IsInterface(x.AssertedType) {
			val = iv
		} else {
			val = ValOf(App(KindOf(x.AssertedType), "unbox", iv, TypeTerm(x.AssertedType)), x.AssertedType)
		}
		if !x.CommaOk {
			d, ok := st.Facts.Decide(lit)
			in.oblige(st, "assert", x, ok && d, "type assertion on "+iv.String())
			f, ok := st.Facts.Assume(lit, true)
			if !ok {
				return nil
			}
			st.Facts = f
			st.Regs[x] = val
			return one(st)
		}
		var out []*State
		s2 := st.Clone()
		if f, ok := st.Facts.Assume(lit, true); ok {
			st.Facts = f
			st.Regs[x] = TupleV{val, Bool(true)}
			out = append(out, st)
		}
		if f, ok := s2.Facts.Assume(lit, false); ok {
			s2.Facts = f
			s2.Regs[x] = TupleV{Zero(x.AssertedType), Bool(false)}
			out = append(out, s2)
		}
		return out
	}
	panic(unsupported(fmt.Sprintf("type assertion on %T", v)))
}

// ---- maps and iteration ----

func (in *Interp) mapSet(st *State, m *MapV, k, v Val) {
	c := st.Content(m.Obj).(*MapC)
	n := &MapC{Base: c.Base, KT: c.KT, VT: c.VT, Writes: c.Writes + 1}
	nn := in.nilness(st, v)
	n.NonNil = c.NonNil && nn != "nil" && nn != "?"
	if _, isSlice := v.(*SliceV); isSlice {
		n.NonNil = c.NonNil
	}
	for _, e := range c.Known {
		d, ok := st.Facts.Decide(in.eq(st, e.K, k, c.KT))
		if ok && d {
			continue
		}
		if !ok {
			// may be overwritten: forget the value
			n.Known = append(n.Known, MapEnt{e.K, FreshVal(c.VT, "maybe")})
			continue
		}
		n.Known = append(n.Known, e)
	}
	n.Known = append(n.Known, MapEnt{k, v})
	st.Heap[m.Obj] = n
}

func (in *Interp) lookup(st *State, x *ssa.Lookup) []*State {
	v := in.Get(st, x.X)
	if t, ok := v.(*Term); ok && t.Kind == KStr {
		idx := in.Get(st, x.Index).(*Term)
		if !in.index(st, x, idx, Len(t)) {
			return nil
		}
		st.Regs[x] = charAt(t, idx)
		return one(st)
	}
	mt := x.X.Type().Underlying().(*types.Map)
	set := func(s *State, val Val, ok bool) *State {
		if x.CommaOk {
			s.Regs[x] = TupleV{val, Bool(ok)}
		} else {
			s.Regs[x] = val
		}
		return s
	}
	mv, isMap := v.(*MapV)
	if !isMap {
		return one(set(st, Zero(mt.Elem()), false))
	}
	c := st.Content(mv.Obj).(*MapC)
	k := in.Get(st, x.Index)
	var out []*State
	cur := st
	for i := len(c.Known) - 1; i >= 0; i-- {
		e := c.Known[i]
		q := in.eq(cur, e.K, k, mt.Key())
		d, ok := cur.Facts.Decide(q)
		if ok && d {
			return append(out, set(cur, e.V, true))
		}
		if ok {
			continue
		}
		s2 := cur.Clone()
		if f, ok := s2.Facts.Assume(q, true); ok {
			s2.Facts = f
			out = append(out, set(s2, e.V, true))
		}
		f, ok := cur.Facts.Assume(q, false)
		if !ok {
			return out
		}
		cur.Facts = f
	}
	if c.Base == nil {
		return append(out, set(cur, Zero(mt.Elem()), false))
	}
	kt := TermOf(k)
	has := App(KBool, "has", c.Base, kt)
	val := ValOf(App(KindOf(mt.Elem()), "get", c.Base, kt), mt.Elem())
	hit := cur.Clone()
	if f, ok := hit.Facts.Assume(has, true); ok {
		hit.Facts = f
		if t, isT := val.(*Term); isT && c.NonNil && t.Kind == KOther {
			if f, ok := hit.Facts.Assume(App(KBool, "isnil", t), false); ok {
				hit.Facts = f
			}
		}
		out = append(out, set(hit, val, true))
	}
	if f, ok := cur.Facts.Assume(has, false); ok {
		cur.Facts = f
		out = append(out, set(cur, Zero(mt.Elem()), false))
	}
	return out
}

func (in *Interp) rangeInit(st *State, x *ssa.Range) []*State {
	v := in.Get(st, x.X)
	o := newObj(OAlloc, iterType, "iter")
	o.Site = x
	o.Root = fmt.Sprintf("%p@%s", x, in.stack[len(in.stack)-1].ctx)
	st.Heap[o] = &StructV{F: []Val{Int(0)}}
	st.Regs[x] = TupleV{v, &PtrV{Obj: o, Path: []PE{{F: 0}}}}
	return one(st)
}

var iterType = types.NewStruct([]*types.Var{types.NewField(token.NoPos, nil, "pos", types.Typ[types.Int], false)}, nil)

func (in *Interp) next(st *State, x *ssa.Next) []*State {
	tv := in.Get(st, x.Iter).(TupleV)
	p := tv[1].(*PtrV)
	pos := st.Load(p).(*Term)
	if x.IsString {
		s := tv[0].(*Term)
		if c, ok := s.StrVal(); ok {
			if i, ok := pos.IntVal(); ok {
				if i >= int64(len(c)) {
					st.Regs[x] = TupleV{Bool(false), Int(0), Int(0)}
					return one(st)
				}
				r, w := utf8.DecodeRuneInString(c[i:])
				st.Store(p, Int(i+int64(w)))
				st.Regs[x] = TupleV{Bool(true), pos, Int(int64(r))}
				return one(st)
			}
		}
		n := Len(s)
		// invariant of string iteration: 0 <= pos <= len
		st.Facts = st.Facts.WithLin(Sub(n, pos), pos)
		done := st.Clone()
		var out []*State
		more := Ge0(AddInt(Sub(n, pos), -1))
		if f, ok := st.Facts.Assume(more, true); ok {
			st.Facts = f
			np := Fresh(KInt, "pos")
			st.Facts = st.Facts.WithLin(AddInt(Sub(np, pos), -1), Sub(n, np), AddInt(Sub(Add(pos, Int(4)), np), 0))
			st.Store(p, np)
			st.Regs[x] = TupleV{Bool(true), pos, App(KInt, "rune", s, pos)}
			out = append(out, st)
		}
		if f, ok := done.Facts.Assume(more, false); ok {
			done.Facts = f
			done.Regs[x] = TupleV{Bool(false), Int(0), Int(0)}
			out = append(out, done)
		}
		return out
	}
	tup := x.Type().(*types.Tuple)
	if in.Opt.Unroll {
		n, isC := pos.IntVal()
		mv, isM := tv[0].(*MapV)
		if isC && isM {
			if c := st.Content(mv.Obj).(*MapC); c.Base == nil {
				if n >= int64(len(c.Known)) {
					st.Regs[x] = TupleV{Bool(false), Zero(c.KT), Zero(c.VT)}
				} else {
					st.Store(p, Int(n+1))
					st.Regs[x] = TupleV{Bool(true), c.Known[n].K, c.Known[n].V}
				}
				return one(st)
			}
		}
	}
	done := st.Clone()
	done.Regs[x] = TupleV{Bool(false), Zero(tup.At(1).Type()), Zero(tup.At(2).Type())}
	zero := func(t types.Type, l string) Val {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return Nil()
		}
		return FreshVal(t, l)
	}
	st.Store(p, Fresh(KInt, "mappos"))
	var mt *types.Map
	if r, ok := x.Iter.(*ssa.Range); ok {
		mt, _ = r.X.Type().Underlying().(*types.Map)
	}
	k, v := zero(tup.At(1).Type(), "key"), zero(tup.At(2).Type(), "val")
	if mt != nil {
		k = FreshVal(mt.Key(), "key")
		v = FreshVal(mt.Elem(), "val")
	}
	st.Regs[x] = TupleV{Bool(true), k, v}
	return []*State{st, done}
}

func debugf(f string, a ...interface{}) { fmt.Fprintf(os.Stderr, f, a...) }
