// rdcheck decides the properties listed in properties.jsonl on the source tree of routedns.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

type check struct {
	run         func(p *Prog, r *Report)
	explanation string
	assumptions []string
}

var checks = map[string]*check{}

func register(id, explanation string, run func(p *Prog, r *Report), assumptions ...string) {
	checks[id] = &check{run: run, explanation: explanation, assumptions: assumptions}
}

func main() {
	repo := flag.String("repo", "/repo", "source tree to analyse")
	prop := flag.String("prop", "", "property id")
	verif := flag.String("verif", "/verif", "directory with known-findings.txt and evidence/")
	all := flag.Bool("all", false, "run every check and print a summary (development aid)")
	verbose := flag.Bool("v", false, "print obligations")
	flag.Parse()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)

	start := time.Now()
	p, err := loadProg(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		os.Exit(2)
	}
	var ids []string
	if *all {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	known := loadKnown(filepath.Join(*verif, "known-findings.txt"))
	bad := false
	for _, id := range ids {
		c := checks[id]
		if c == nil {
			fmt.Fprintf(os.Stderr, "error: no check for %s\n", id)
			os.Exit(2)
		}
		t0 := time.Now()
		if !*all && len(ids) == 1 {
			t0 = start
		}
		r := &Report{prop: id, p: p, rules: map[string]*ruleStat{}, funcs: map[string]bool{}}
		runCheck(c, p, r)
		r.finish(c, known, *verif, tier, seed, time.Since(t0))
		if *verbose {
			for _, o := range r.obls {
				fmt.Printf("  ok  [%s] %s\n", o.Rule, o.What)
			}
		}
		if len(r.viols) > 0 {
			bad = true
		}
		if *all {
			fmt.Printf("%s obligations=%d violations=%d %.1fs\n", id, r.total(), len(r.viols), time.Since(t0).Seconds())
		}
	}
	if bad {
		os.Exit(1)
	}
}

func runCheck(c *check, p *Prog, r *Report) {
	defer func() {
		if x := recover(); x != nil {
			fmt.Fprintf(os.Stderr, "analysis panic: %v\n%s\n", x, debug.Stack())
			r.viol("analysis", "panic", "", fmt.Sprintf("the analysis could not decide this tree: %v", x), nil)
		}
	}()
	c.run(p, r)
}

// ---------------------------------------------------------------------------------------------

type obligation struct {
	Rule string `json:"rule"`
	What string `json:"what"`
}

type violation struct {
	Rule string   `json:"rule"`
	Key  string   `json:"key"`
	Pos  string   `json:"pos"`
	Msg  string   `json:"msg"`
	Path []string `json:"path,omitempty"`
}

type ruleStat struct {
	Obligations int `json:"obligations"`
	Violations  int `json:"violations"`
	seen        map[string]bool
}

// Report collects what one check analysed and found.
type Report struct {
	prop  string
	p     *Prog
	obls  []obligation
	viols []violation
	known []violation
	rules map[string]*ruleStat
	funcs map[string]bool
	paths int
	calls int
	steps int
	notes []string
	vseen map[string]bool
	extra map[string]any
}

func (r *Report) stat(rule string) *ruleStat {
	s := r.rules[rule]
	if s == nil {
		s = &ruleStat{seen: map[string]bool{}}
		r.rules[rule] = s
	}
	return s
}

// ok records a discharged obligation (once per construct).
func (r *Report) ok(rule, what string) {
	s := r.stat(rule)
	if s.seen[what] {
		return
	}
	s.seen[what] = true
	s.Obligations++
	r.obls = append(r.obls, obligation{rule, what})
}

// viol records a violation (once per key).
func (r *Report) viol(rule, key, pos, msg string, path []string) {
	if r.vseen == nil {
		r.vseen = map[string]bool{}
	}
	k := rule + "|" + key
	if r.vseen[k] {
		return
	}
	r.vseen[k] = true
	s := r.stat(rule)
	s.Violations++
	r.viols = append(r.viols, violation{rule, key, pos, msg, path})
}

func (r *Report) check(rule, key, pos string, good bool, msg string, path []string) {
	if good {
		r.ok(rule, key)
	} else {
		r.viol(rule, key, pos, msg, path)
	}
}

func (r *Report) note(f string, a ...any) { r.notes = append(r.notes, fmt.Sprintf(f, a...)) }

// atLeast fails when a rule found fewer instances than it must (vacuity).
func (r *Report) atLeast(rule string, n int) {
	s := r.stat(rule)
	if s.Obligations+s.Violations < n {
		r.viol("vacuity", rule, "", fmt.Sprintf("rule %q found %d instances, at least %d expected: the construct it decides is gone", rule, s.Obligations+s.Violations, n), nil)
	}
}

func (r *Report) total() int {
	n := 0
	for _, s := range r.rules {
		n += s.Obligations + s.Violations
	}
	return n
}

// engine folds the statistics of an engine run into the report.
func (r *Report) engine(e *Engine) {
	for f := range e.funcs {
		r.funcs[e.p.fnName(f)] = true
	}
	r.paths += e.branches
	r.calls += e.calls
	r.steps += e.steps
	if e.over {
		r.viol("budget", e.p.fnName(e.entry), e.p.pos(e.entry.Pos()), "analysis budget exhausted; the property is undecided here", nil)
	}
}

func (r *Report) finish(c *check, known []knownFinding, verif, tier string, seed int, d time.Duration) {
	var left []violation
	for _, v := range r.viols {
		sup := false
		for _, k := range known {
			if k.prop == r.prop && k.key == v.Rule+"|"+v.Key {
				sup = true
			}
		}
		if sup {
			r.known = append(r.known, v)
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s] %s\n", r.prop, v.Pos, v.Rule, v.Msg)
		} else {
			left = append(left, v)
		}
	}
	r.viols = left
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	replay := filepath.Join(dir, r.prop+".replay.txt")
	os.Remove(replay)
	if len(r.viols) > 0 {
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\n", r.prop)
		for _, v := range r.viols {
			fmt.Fprintf(&sb, "\n%s: [%s] %s\n  key: %s|%s\n", v.Pos, v.Rule, v.Msg, v.Rule, v.Key)
			for _, s := range v.Path {
				fmt.Fprintf(&sb, "    %s\n", s)
			}
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		for _, v := range r.viols {
			fmt.Printf("%s: [%s] %s  (key %s|%s)\n", v.Pos, v.Rule, v.Msg, v.Rule, v.Key)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, replay)
	}
	ob := r.total()
	disch := ob
	for _, s := range r.rules {
		disch -= s.Violations
	}
	var samples []string
	step := len(r.obls)/12 + 1
	for i := 0; i < len(r.obls); i += step {
		samples = append(samples, r.obls[i].Rule+": "+r.obls[i].What)
	}
	cov := map[string]any{
		"explanation":          c.explanation,
		"obligations":          ob,
		"discharged":           disch,
		"functions_analysed":   len(r.funcs),
		"branches_evaluated":   r.paths,
		"calls_resolved":       r.calls,
		"instructions_stepped": r.steps,
		"rules":                r.rules,
		"samples":              samples,
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	if len(r.known) > 0 {
		cov["known_findings"] = r.known
	}
	if len(r.notes) > 0 {
		cov["notes"] = r.notes
	}
	if len(r.viols) > 0 {
		cov["violations"] = r.viols
	}
	ev := map[string]any{"property": r.prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": d.Seconds(), "violations": len(r.viols), "assumptions": append([]string{
		"the Go type checker and the SSA construction of golang.org/x/tools are correct", "build constraints: linux/amd64, no cgo, tests excluded"}, c.assumptions...)}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, r.prop+".json"), append(b, '\n'), 0o644)
}

type knownFinding struct{ prop, key string }

func loadKnown(path string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue // comments and fixed: records suppress nothing
		}
		f := strings.Fields(strings.TrimPrefix(l, "finding:"))
		var k knownFinding
		for _, w := range f {
			if strings.HasPrefix(w, "property=") {
				k.prop = strings.TrimPrefix(w, "property=")
			}
			if strings.HasPrefix(w, "key=") {
				k.key = strings.TrimPrefix(w, "key=")
			}
		}
		if k.prop != "" && k.key != "" {
			out = append(out, k)
		}
	}
	return out
}
