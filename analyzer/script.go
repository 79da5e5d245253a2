package main

import (
	"encoding/xml"
	"fmt"
	"go/constant"
	"go/types"
	"io"
	"math/big"
	"regexp"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// Skeleton analysis: Parse is interpreted for the token sequence of a document whose
// element names, attribute names and keywords are fixed, while every three-digit number
// in it stands for an arbitrary positive number (a symbol of the term domain). What the
// abstract state holds at a return is therefore a formula over those symbols.

var generic = regexp.MustCompile(`^[-+]?[1-9][0-9][0-9]$`)

// num is the symbol for a generic numeral.
func num(s string) *ai.Term {
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimLeft(s, "-+")
	t := ai.NewSym("num:"+s, ai.KFloat, "n"+s)
	t.Sym.Pos = true
	if neg {
		return ai.Neg(t)
	}
	return t
}

// Scripts runs documents through Parse.
type Scripts struct {
	slow   int // analyses that were given up
	c      *Check
	in     *ai.Interp
	base   *ai.State
	parse  *ssa.Function
	entry  *ssa.Function // analysed in place of Parse
	docs   int
	fns    map[*ssa.Function]bool
	common map[*ssa.Function]bool // reached for the empty image
}

// Outcome is one way Parse can end for a document.
type Outcome struct {
	s    *Scripts
	Doc  string
	St   *ai.State
	Svg  ai.Val // nil if none was returned
	Err  bool
	Logs int

	Closed int
	fns    map[*ssa.Function]bool
}

// Scripts prepares the skeleton analysis.
func (c *Check) Scripts() *Scripts {
	in := c.P.Interp()
	base := c.P.baseWith(in, "golang.org/x/image/colornames")
	in.Opt.MergeFloats = false
	in.Opt.RetCap = 64
	in.Opt.BlockCap = 64
	in.Opt.LoopCap = 64
	in.Opt.Unroll = true
	in.Opt.InlineRec = 10
	in.Opt.AliasAppend = true
	in.Opt.KeepFacts = func(*ssa.Function) bool { return true }
	in.Inline = func(fn *ssa.Function) bool {
		return fn.Pkg != nil && (fn.Pkg.Pkg.Path() == "image/color" || fn.Pkg.Pkg.Path() == "golang.org/x/image/colornames")
	}
	in.Opt.Call = genericCall
	in.Opt.Evaluable = func(t *ai.Term) bool {
		if (t.Op == "veq" || t.Op == "istype") && (ai.AnyErr(t.Args[0]) || t.Op == "veq" && ai.AnyErr(t.Args[1])) {
			return true // the source may fail with any error
		}
		_, ok := newEnv(1).eval(t)
		return ok
	}
	fn := c.P.Svg.Func("Parse")
	if fn == nil {
		panic("the exported function Parse is gone")
	}
	s := &Scripts{c: c, in: in, base: base, parse: fn, fns: map[*ssa.Function]bool{}}
	if o := s.run("<svg/>", "StrictErrorMode"); len(o) > 0 {
		s.common = o[0].fns
	}
	s.docs = 0
	return s
}

func genericCall(in *ai.Interp, st *ai.State, name string, args []ai.Val, instr ssa.Instruction) ([]ai.RetState, bool) {
	if name == "strconv.ParseFloat" {
		if s, ok := args[0].(*ai.Term).StrVal(); ok && generic.MatchString(s) {
			return []ai.RetState{{St: st, Ret: ai.TupleV{num(s), ai.Nil()}}}, true
		}
	}
	return nil, false
}

// errMode returns the value of an exported error mode.
func (s *Scripts) errMode(name string) int64 { return cnst(s.c.P.Svg.Pkg, name) }

// run interprets Parse for a document.
func (s *Scripts) run(doc, mode string) []*Outcome {
	var toks []xml.Token
	d := xml.NewDecoder(strings.NewReader(doc))
	bad := false
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			bad = true
			break
		}
		toks = append(toks, xml.CopyToken(t))
	}
	s.docs++
	in := s.in
	in.Log = &ai.Log{}
	in.Fns = map[*ssa.Function]bool{}
	in.Opt.Token = func(in *ai.Interp, st *ai.State, instr ssa.Instruction) []ai.RetState {
		return s.token(in, st, instr, toks, bad)
	}
	st := s.base.Clone()
	fn := s.parse
	if s.entry != nil {
		fn = s.entry
	}
	args := []ai.Val{ai.FreshVal(fn.Params[0].Type(), "source"), ai.Int(s.errMode(mode))}
	rs := s.call(st, fn, args, doc)
	for _, u := range in.Log.Undec {
		s.c.Note("%s: %s", doc, u)
	}
	s.c.Cov["skeletons"] = s.docs
	for f := range in.Fns {
		s.fns[f] = true
	}
	s.c.Cov["functions_analysed"] = len(s.fns)
	s.c.Cov["abstract_steps"] = in.Steps
	var out []*Outcome
	for _, r := range rs {
		tv := r.Ret.(ai.TupleV)
		o := &Outcome{s: s, Doc: doc, St: r.St, fns: in.Fns}
		n := nilOf(r.St, tv[1])
		if n == 0 {
			s.c.Note("%s: it is not known whether the error is nil", doc)
			continue
		}
		o.Err = n < 0
		if nilOf(r.St, tv[0]) != 1 {
			o.Svg = tv[0]
		}
		for _, e := range r.St.Evs.Slice() {
			switch {
			case e.Kind == "log":
				o.Logs++
			case strings.HasSuffix(e.Name, "os.File).Close"):
				o.Closed++
			}
		}
		out = append(out, o)
	}
	if len(out) == 0 {
		s.c.Note("%s: no outcome was found", doc)
	}
	return out
}

// call interprets a call within a limited time.
func (s *Scripts) call(st *ai.State, fn *ssa.Function, args []ai.Val, name string) []ai.RetState {
	if time.Now().After(deadline) || s.slow > 12 {
		s.c.Note("%s: no time left", name)
		return nil
	}
	s.in.Until = time.Now().Add(20 * time.Second)
	s.in.MaxStep = s.in.Steps + 40000000
	rs, why := s.in.Try(st, fn, args)
	if why != "" {
		s.slow++
		s.c.Note("%s: the analysis gives up: %s", name, why)
	}
	return rs
}

// nilOf tells whether v is nil (1), not nil (-1) or unknown (0).
func nilOf(st *ai.State, v ai.Val) int {
	t, ok := v.(*ai.Term)
	if !ok {
		return -1
	}
	if t.Op == "nil" {
		return 1
	}
	if d, ok := st.Facts.Decide(ai.App(ai.KBool, "isnil", t)); ok {
		if d {
			return 1
		}
		return -1
	}
	return 0
}

func (s *Scripts) xmlT(name string) types.Type {
	return s.c.P.pkg("encoding/xml").Scope().Lookup(name).Type()
}

func (s *Scripts) bytes(in *ai.Interp, st *ai.State, b []byte) *ai.SliceV {
	var es []ai.Val
	for _, x := range b {
		es = append(es, ai.Int(int64(x)))
	}
	sq := &ai.SeqV{Elem: types.Typ[types.Byte]}
	if len(es) > 0 {
		sq.Segs = []ai.Seg{{Elems: es}}
	}
	return in.NewSlice(st, sq, "chars")
}

func name(n xml.Name) ai.Val {
	return &ai.StructV{F: []ai.Val{ai.Str(n.Space), ai.Str(n.Local)}}
}

func (s *Scripts) token(in *ai.Interp, st *ai.State, instr ssa.Instruction, toks []xml.Token, bad bool) []ai.RetState {
	pos := int64(0)
	if t, ok := st.Ghost["!pos"].(*ai.Term); ok {
		pos, _ = t.IntVal()
	}
	// the buffer of the previous token is reused
	if p, ok := st.Ghost["!buf"].(*ai.SliceV); ok {
		n, _ := p.Len.IntVal()
		st.Heap[p.Obj] = &ai.SeqV{Elem: types.Typ[types.Byte], Segs: []ai.Seg{{Base: ai.Fresh(ai.KOther, "reused"), Off: ai.Int(0), Len: ai.Int(n)}}}
		delete(st.Ghost, "!buf")
	}
	st.Ghost["!pos"] = ai.Int(pos + 1)
	if pos >= int64(len(toks)) {
		if bad {
			return in.TokenOf(st, "err", instr)
		}
		return in.TokenOf(st, "eof", instr)
	}
	wrap := func(tn string, v ai.Val) []ai.RetState {
		return []ai.RetState{{St: st, Ret: ai.TupleV{&ai.IfaceV{T: s.xmlT(tn), V: v}, ai.Nil()}}}
	}
	buf := func(tn string, b []byte) []ai.RetState {
		v := s.bytes(in, st, b)
		st.Ghost["!buf"] = v
		return wrap(tn, v)
	}
	switch t := toks[pos].(type) {
	case xml.StartElement:
		at := s.xmlT("Attr")
		var as []ai.Val
		for _, a := range t.Attr {
			as = append(as, &ai.StructV{F: []ai.Val{name(a.Name), ai.Str(a.Value)}})
		}
		sq := &ai.SeqV{Elem: at}
		if len(as) > 0 {
			sq.Segs = []ai.Seg{{Elems: as}}
		}
		sl := in.NewSlice(st, sq, "attrs")
		cp := ai.Fresh(ai.KInt, "cap")
		st.Facts = st.Facts.WithLin(ai.Sub(cp, sl.Len))
		sl.Cap = cp
		return wrap("StartElement", &ai.StructV{F: []ai.Val{name(t.Name), sl}})
	case xml.EndElement:
		return wrap("EndElement", &ai.StructV{F: []ai.Val{name(t.Name)}})
	case xml.CharData:
		return buf("CharData", t)
	case xml.Comment:
		return buf("Comment", t)
	case xml.Directive:
		return buf("Directive", t)
	case xml.ProcInst:
		return wrap("ProcInst", &ai.StructV{F: []ai.Val{ai.Str(t.Target), s.bytes(in, st, t.Inst)}})
	}
	panic("token")
}

// baseWith is Base with the initialisation of further packages interpreted too.
func (p *Program) baseWith(in *ai.Interp, more ...string) *ai.State {
	for _, m := range more {
		for _, sp := range p.Prog.AllPackages() {
			if sp.Pkg.Path() == m {
				p.extra = append(p.extra, sp)
			}
		}
	}
	defer func() { p.extra = nil }()
	return p.Base(in)
}

// ---- reading results ----

func (o *Outcome) svgStruct() (*ai.StructV, types.Type) {
	p, ok := o.Svg.(*ai.PtrV)
	if !ok {
		return nil, nil
	}
	v, _ := o.St.Load(p).(*ai.StructV)
	return v, o.s.c.P.typ("Svg")
}

func (o *Outcome) get(path string) ai.Val {
	v, t := o.svgStruct()
	if v == nil {
		return nil
	}
	return field(v, t, path)
}

// elems lists the elements of a slice if they are all known.
func elems(st *ai.State, v ai.Val) ([]ai.Val, bool) {
	s, ok := v.(*ai.SliceV)
	if !ok {
		if t, ok := v.(*ai.Term); ok && t.Op == "nil" {
			return nil, true
		}
		return nil, false
	}
	if s.Obj == nil {
		return nil, true
	}
	c := st.SliceContent(s)
	if len(c.W) > 0 {
		return nil, false
	}
	var out []ai.Val
	for _, g := range c.Segs {
		if g.Zero {
			n, ok := g.Len.IntVal()
			if !ok {
				return nil, false
			}
			for ; n > 0; n-- {
				out = append(out, ai.Zero(c.Elem))
			}
			continue
		}
		if g.Base != nil {
			return nil, false
		}
		out = append(out, g.Elems...)
	}
	return out, true
}

// op is a path operation with its coordinates as real-valued terms.
type op struct {
	name string
	c    []*ai.Term
}

func (o op) String() string {
	var s []string
	for _, t := range o.c {
		s = append(s, t.String())
	}
	return o.name + "(" + strings.Join(s, ", ") + ")"
}

// ops reads a Path; the second result is false if its length is not known.
func (o *Outcome) ops(v ai.Val) ([]op, bool) {
	es, ok := elems(o.St, v)
	if !ok {
		return nil, false
	}
	var out []op
	for _, e := range es {
		x, ok := readOp(e)
		if !ok {
			return nil, false
		}
		out = append(out, x)
	}
	return out, true
}

var opLetters = map[string]string{"OpMoveTo": "M", "OpLineTo": "L", "OpQuadTo": "Q", "OpCubicTo": "C", "OpClose": "Z"}

func readOp(e ai.Val) (op, bool) {
	i, ok := e.(*ai.IfaceV)
	if !ok {
		return op{}, false
	}
	nt, ok := i.T.(*types.Named)
	if !ok {
		return op{}, false
	}
	r := op{name: opLetters[nt.Obj().Name()]}
	var walk func(v ai.Val)
	walk = func(v ai.Val) {
		switch x := v.(type) {
		case *ai.StructV:
			for _, f := range x.F {
				walk(f)
			}
		case *ai.ArrV:
			for _, f := range x.E {
				walk(f)
			}
		case *ai.Term:
			r.c = append(r.c, ai.Scale(real(x), big.NewRat(1, 64)))
		}
	}
	walk(i.V)
	return r, r.name != ""
}

// strsOf reads a slice of strings.
func (o *Outcome) strsOf(v ai.Val) ([]string, bool) {
	es, ok := elems(o.St, v)
	if !ok {
		return nil, false
	}
	out := []string{}
	for _, e := range es {
		s, ok := e.(*ai.Term).StrVal()
		if !ok {
			return nil, false
		}
		out = append(out, s)
	}
	return out, true
}

var _ = constant.Sign
var _ = fmt.Sprint
