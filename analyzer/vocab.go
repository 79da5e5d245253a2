package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// The vocabulary of the code. A dispatch on names compares them with constants, so two
// documents that differ only in a name the code does not mention are treated alike; the
// names to try are the ones it does mention. The same goes for sizes and the integer
// constants in comparisons. Both are read off the program on every run.

var (
	wordRe  = regexp.MustCompile(`[A-Za-z][A-Za-z0-9_.-]*`)
	plainRe = regexp.MustCompile(`^[A-Za-z0-9_#().-]+$`)
)

// words lists the words in the string constants of the parsing package.
func (c *Check) words() []string {
	seen := map[string]bool{}
	add := func(s string) {
		if len(s) > 0 && len(s) <= 24 && plainRe.MatchString(s) && !numLike(s) {
			seen[s] = true
		}
	}
	c.constants(func(k *ssa.Const, in ssa.Instruction) {
		if k.Value == nil || k.Value.Kind() != constant.String {
			return
		}
		s := constant.StringVal(k.Value)
		if strings.Contains(s, "%") && len(s) > 1 || strings.Count(s, " ") > 4 {
			return // a message
		}
		add(s)
		for _, w := range wordRe.FindAllString(s, -1) {
			add(w)
		}
	})
	var out []string
	for w := range seen {
		out = append(out, w)
	}
	sort.Strings(out)
	c.Cov["words_of_the_code"] = len(out)
	return out
}

// numLike tells whether strconv takes s for a number.
func numLike(s string) bool {
	switch strings.ToLower(strings.TrimLeft(s, "+-")) {
	case "inf", "infinity", "nan", "e":
		return true
	}
	return strings.Trim(s, "0123456789.-") == ""
}

// names keeps the words that can be names in XML.
func names(ws []string) []string {
	var out []string
	for _, w := range ws {
		if wordRe.FindString(w) == w && !strings.HasPrefix(strings.ToLower(w), "xml") {
			out = append(out, w)
		}
	}
	return out
}

// sizes lists the numbers around the integers the parsing package compares with.
func (c *Check) sizes() []int {
	seen := map[int]bool{}
	c.constants(func(k *ssa.Const, in ssa.Instruction) {
		b, ok := in.(*ssa.BinOp)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			return
		}
		t, ok := b.X.Type().Underlying().(*types.Basic)
		if !ok || t.Info()&types.IsInteger == 0 || t.Kind() == types.Int32 || t.Kind() == types.Uint8 {
			return
		}
		switch b.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ, token.REM, token.AND:
		default:
			return
		}
		n, ok := constant.Int64Val(k.Value)
		if ok && n >= 7 && n <= 600 && n != 255 && n != 256 {
			seen[int(n)] = true
		}
	})
	set := map[int]bool{9: true, 17: true, 33: true}
	for n := range seen {
		for d := -2; d <= 2; d++ {
			set[n+d] = true
		}
		set[(n+1)/2], set[(n+3)/2] = true, true
	}
	var out []int
	for n := range set {
		out = append(out, n)
	}
	sort.Ints(out)
	c.Cov["sizes_of_the_code"] = len(out)
	return out
}

func (c *Check) constants(f func(k *ssa.Const, in ssa.Instruction)) {
	for fn := range ssautil.AllFunctions(c.P.Prog) {
		p := fn.Package()
		if p == nil && fn.Parent() != nil {
			p = fn.Parent().Package()
		}
		if p != c.P.Svg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if k, ok := (*op).(*ssa.Const); ok {
						f(k, in)
					}
				}
			}
		}
	}
}

// decide compares a document with its meaning, or wants an error if it has none.
func (s *Scripts) decide(asp aspect, docs ...string) {
	for _, d := range docs {
		if _, err := s.ref(d, newEnv(1)); err != nil {
			s.wantErr(d, modes[len(d)%3])
			continue
		}
		s.agree(asp, d)
	}
}

// many repeats a piece; @ in it stands for changing small numbers.
func many(n int, piece func(i int) string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(piece(i))
	}
	return b.String()
}

// piece makes a repeated piece; § stands for its number.
func piece(t string) func(i int) string {
	return func(i int) string { return strings.ReplaceAll(t, "§", fmt.Sprint(i%90+1)) }
}

var knownElements = map[string]bool{"svg": true, "g": true, "line": true, "rect": true, "circle": true, "ellipse": true, "polyline": true, "polygon": true, "path": true, "desc": true, "defs": true, "title": true,
	"linearGradient": true, "radialGradient": true, "stop": true, "mask": true, "use": true}

// wordsAsValues tries the words of the code where a value is expected.
func (s *Scripts) wordsAsValues(asp aspect, tmpls ...string) {
	for _, w := range s.c.words() {
		for _, t := range tmpls {
			if strings.Contains(t, `id="§`) && strings.ContainsAny(w, "()#") {
				continue
			}
			s.decide(asp, wrap(strings.ReplaceAll(t, "§", w)))
		}
	}
}

// wordsAsNames tries the names in the code as attributes and properties that mean nothing.
func (s *Scripts) wordsAsNames(asp aspect, meant map[string]bool, tmpls ...string) {
	for _, w := range names(s.c.words()) {
		if meant[strings.ToLower(w)] {
			continue
		}
		for _, t := range tmpls {
			s.agree(asp, wrap(strings.ReplaceAll(t, "§", w)))
		}
	}
}

// large compares documents with n pieces for the sizes of the code.
func (s *Scripts) large(asp aspect, doc func(n int) string) {
	ns := append(s.c.sizes(), 65, 130)
	for _, n := range ns {
		s.agree(asp, wrap(doc(n)))
	}
}
