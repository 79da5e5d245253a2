// Command svgcheck decides properties of the go-svg sources by static analysis.
//
//	svgcheck check <property> [quick|thorough]
//
// It loads the current working tree, builds its SSA form and applies the rules of the
// property. It writes evidence/<property>.json and exits with 0, or with 1 after printing
// a VIOLATION line.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/analyzer/ai"
)

// Check is one run of the rules of a property.
type Check struct {
	ID, Tier string
	P        *Program
	Cov      map[string]interface{}
	Rules    []string
	Assume   []string
	Samples  []string
	Bad      []string // violations: construct and rule
	Undec    []string // what the analysis could not model; not reported as violations
	Oblig    int
	OK       int
	seen     map[string]bool
}

// Violate reports a construct that breaks a rule.
func (c *Check) Violate(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	if !c.seen[s] {
		c.seen[s] = true
		c.Bad = append(c.Bad, s)
	}
}

// Must counts an obligation and reports it if it does not hold.
func (c *Check) Must(ok bool, format string, args ...interface{}) bool {
	c.Oblig++
	if ok {
		c.OK++
		if len(c.Samples) < 12 {
			c.Samples = append(c.Samples, fmt.Sprintf(format, args...))
		}
		return true
	}
	c.Violate(format, args...)
	return false
}

// Note records something the analysis could not decide.
func (c *Check) Note(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	if !c.seen["n:"+s] {
		c.seen["n:"+s] = true
		c.Undec = append(c.Undec, s)
	}
}

// Rule records a rule that was applied.
func (c *Check) Rule(format string, args ...interface{}) {
	c.Rules = append(c.Rules, fmt.Sprintf(format, args...))
}

// deadline is when the analysis gives up what it has not decided.
var deadline time.Time

type checkFn func(c *Check)

var checks = map[string]checkFn{}

// Verif is the directory with the evidence.
var verifDir = "/verif"

func main() {
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(20 << 30)
	if len(os.Args) < 2 {
		fmt.Println("usage: svgcheck check <property> [tier]")
		os.Exit(2)
	}
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	switch os.Args[1] {
	case "debug":
		defer startProf()()
		debugRun(os.Args[2:])
	case "doc":
		deadline = time.Now().Add(time.Hour)
		defer startProf()()
		docRun(os.Args[2:])
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(runCheck(os.Args[2], tier))
	}
}

func runCheck(id, tier string) int {
	defer startProf()()
	t0 := time.Now()
	fn, ok := checks[id]
	if !ok {
		fmt.Println("unknown property", id)
		return 2
	}
	limit := 780 * time.Second
	if tier == "thorough" {
		limit = 2 * time.Hour
	}
	deadline = t0.Add(limit)
	c := &Check{ID: id, Tier: tier, Cov: map[string]interface{}{}, seen: map[string]bool{}}
	time.AfterFunc(limit+60*time.Second, func() {
		c.Note("the analysis took too long")
		os.Exit(c.finish(t0))
	})
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("SVGCHECK_PANIC") != "" {
					panic(r)
				}
				c.Note("the analysis stopped: %v", r)
				fmt.Fprintf(os.Stderr, "analysis stopped: %v\n%s\n", r, debug.Stack())
			}
		}()
		p, err := Load(repoDir())
		if err != nil {
			c.Note("%v", err)
			return
		}
		c.P = p
		fn(c)
	}()
	return c.finish(t0)
}

func repoDir() string {
	if d := os.Getenv("SVGCHECK_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func (c *Check) finish(t0 time.Time) int {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := c.Cov
	expl := "Static analysis of the current /repo sources (go/ssa form). Rules applied: " + strings.Join(c.Rules, " ")
	if len(c.Undec) > 0 {
		expl += " NOT DECIDED on this tree: " + strings.Join(c.Undec, "; ")
	}
	cov["explanation"] = expl
	cov["obligations"] = c.Oblig
	cov["discharged"] = c.OK
	cov["undecided"] = len(c.Undec)
	cov["samples"] = c.Samples
	ev := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": c.Assume, "wall_s": time.Since(t0).Seconds(), "violations": len(c.Bad),
	}
	if c.Assume == nil {
		ev["assumptions"] = []string{}
	}
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	for _, u := range c.Undec {
		fmt.Println("undecided:", u)
	}
	rep := filepath.Join(dir, c.ID+".report.txt")
	if len(c.Bad) == 0 {
		os.Remove(rep)
		fmt.Printf("property %s holds: %d obligations discharged in %.1fs\n", c.ID, c.OK, time.Since(t0).Seconds())
		return 0
	}
	sort.Slice(c.Bad, func(i, j int) bool {
		if a, b := len(c.Bad[i]), len(c.Bad[j]); a != b {
			return a < b
		}
		return c.Bad[i] < c.Bad[j]
	})
	os.WriteFile(rep, []byte("property "+c.ID+"\n"+strings.Join(c.Bad, "\n")+"\n"), 0o644)
	for i, b := range c.Bad {
		if i >= 20 {
			fmt.Printf("  ... and %d more\n", len(c.Bad)-i)
			break
		}
		fmt.Println("  " + b)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rep)
	return 1
}

var _ = ai.Int
