package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C23: names are compared without regard to letter case.

func init() {
	register("C23", "names in lists, host tables, cache keys and response checks are matched without regard to letter case",
		runC23,
		"Domain names in messages are the fields github.com/miekg/dns tags as such; list entries are what a BlocklistLoader returns",
		"Regular expressions of a list are matched against the lower-case name; those of routes and of name replacement are documented as case-sensitive")
}

// c23Names collects where the letters of a string come from: raw (as they
// were received) and folded. The sources are the roots of the message or list.
type c23Names struct {
	raw, folded map[string]bool
	params      map[string]bool // string parameters of the function itself
}

func isNameField(t types.Type, name string) bool {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != dnsPath {
		return false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return strings.HasSuffix(reflect.StructTag(s.Tag(i)).Get("dns"), "domain-name")
		}
	}
	return false
}

var c23Fold = map[string]bool{
	"strings.ToLower": true, "bytes.ToLower": true, "unicode.ToLower": true,
	dnsPath + ".CanonicalName": true, dnsPath + ".ReverseAddr": true,
	"(net.IP).String": true, "(net/netip.Addr).String": true, "(net.IPNet).String": true, "(net/netip.Prefix).String": true,
	"net.ParseMAC": true, "strconv.Itoa": true,
}

func c23Of(e *Engine, t *Term, entry string) *c23Names {
	out := &c23Names{map[string]bool{}, map[string]bool{}, map[string]bool{}}
	type visit struct {
		t *Term
		f bool
	}
	seen := map[visit]bool{}
	add := func(root string, folded bool) {
		if folded {
			out.folded[root] = true
		} else {
			out.raw[root] = true
		}
	}
	var rec func(t *Term, folded bool)
	rec = func(t *Term, folded bool) {
		if seen[visit{t, folded}] {
			return
		}
		seen[visit{t, folded}] = true
		switch t.op {
		case "fa", "vf":
			if len(t.args) > 0 && t.args[0].typ != nil && isNameField(t.args[0].typ, t.s) {
				add(c23Root(t), folded)
				return
			}
		case "len", "cap", "const", "is":
			return
		case "ia", "vi", "lookup", "slice":
			rec(t.args[0], folded)
			return
		case "param":
			if t.typ != nil && isStringT(t.typ) && strings.HasSuffix(t.s, "@"+entry) && !folded {
				out.params[strings.TrimSuffix(t.s, "@"+entry)] = true
			}
			return
		case "call":
			n := t.callName()
			if strings.HasSuffix(n, "BlocklistLoader).Load") {
				add("list", folded)
				return
			}
			if c23Fold[n] {
				folded = true
			}
		case "bin":
			if t.s != "+" {
				return
			}
		case "phi", "merge":
			for in := range e.T.phiIn[t] {
				rec(in, folded)
			}
		}
		for _, a := range t.args {
			rec(a, folded)
		}
	}
	rec(t, false)
	return out
}

// c23Root: the message a name is in.
func c23Root(t *Term) string {
	for len(t.args) > 0 && (t.op == "fa" || t.op == "vf" || t.op == "ld" || t.op == "ia" || t.op == "vi" || t.op == "ta" || t.op == "ext") {
		t = t.args[0]
	}
	if t.op == "call" && len(t.args) > 0 {
		switch n := t.callName(); {
		case strings.HasSuffix(n, ".Header"), strings.HasSuffix(n, "dns.Msg).Copy"):
			return c23Root(t.args[0])
		}
	}
	return t.String()
}

func runC23(p *Prog, r *Report) {
	type job struct {
		fn     *ssa.Function
		inline map[*ssa.Function]bool
	}
	var work []job
	done := map[*ssa.Function]bool{}
	dbs := map[*ssa.Function]bool{}
	if it := p.iface(p.root, "BlocklistDB"); it != nil {
		for _, t := range p.implementers(it) {
			if f := p.method(t, "Match"); f != nil && p.inRepo(f) {
				dbs[f] = true
				p.staticReach(f, func(g *ssa.Function) bool { dbs[g] = true; return true })
			}
		}
	}
	for _, fn := range p.funcs {
		if (p.inRoot(fn) || fn.Pkg == p.sec) && c23Has(fn) {
			work = append(work, job{fn, nil})
			done[fn] = true
		}
	}
	for len(work) > 0 {
		j := work[0]
		work = work[1:]
		for prm := range c23Run(p, r, j.fn, j.inline, dbs) {
			_ = prm
			for _, ci := range p.callersOf(j.fn) {
				c := ci.Parent()
				if !p.inRoot(c) || len(j.inline) > 3 {
					continue
				}
				in := map[*ssa.Function]bool{j.fn: true}
				for f := range j.inline {
					in[f] = true
				}
				if !done[c] || !in[c] && len(j.inline) < 3 {
					done[c] = true
					work = append(work, job{c, in})
				}
			}
		}
	}
	// keys of caches and of merged queries
	tmp := &Report{prop: r.prop, p: p, rules: map[string]*ruleStat{}, funcs: map[string]bool{}}
	runC12(p, tmp)
	keys := map[string]bool{}
	for _, v := range tmp.viols {
		if strings.HasSuffix(v.Key, "/case") {
			r.viol("key", strings.TrimSuffix(v.Key, "/case"), v.Pos, v.Msg, v.Path)
			keys[v.Key] = true
		}
	}
	for _, o := range tmp.obls {
		if o.Rule == "key-complete" {
			r.ok("key", o.What)
		}
	}
	for f := range tmp.funcs {
		r.funcs[f] = true
	}
	r.paths += tmp.paths
	r.calls += tmp.calls
	r.steps += tmp.steps
	r.atLeast("list", 4)
	r.atLeast("compare", 2)
	r.atLeast("key", 4)
}

// c23Site: the instruction decides by the contents of strings.
func c23Site(in ssa.Instruction) (kind string, vals []ssa.Value) {
	switch in := in.(type) {
	case *ssa.Lookup:
		if isMapT(in.X.Type()) && c23Key(in.Index.Type()) && !answerMap(in.X.Type()) {
			return "table", []ssa.Value{in.Index}
		}
	case *ssa.MapUpdate:
		if c23Key(in.Key.Type()) && !answerMap(in.Map.Type()) {
			return "table", []ssa.Value{in.Key}
		}
	case *ssa.BinOp:
		if (in.Op == token.EQL || in.Op == token.NEQ) && isStringT(in.X.Type()) {
			if _, ok := in.X.(*ssa.Const); ok {
				return "", nil
			}
			if _, ok := in.Y.(*ssa.Const); ok {
				return "", nil
			}
			return "compare", []ssa.Value{in.X, in.Y}
		}
	case ssa.CallInstruction:
		c := in.Common()
		n := calleeName(c)
		switch {
		case n == "strings.EqualFold":
			return "fold", c.Args
		case n == "strings.HasSuffix" || n == "strings.HasPrefix" || n == "strings.Contains" || n == "strings.Compare" || n == "strings.Index":
			if _, ok := c.Args[1].(*ssa.Const); ok {
				return "", nil
			}
			return "compare", c.Args
		case strings.HasPrefix(n, "slices.Contains") || strings.HasPrefix(n, "slices.Index"):
			if len(c.Args) == 2 && isStringT(c.Args[1].Type()) {
				return "compare", c.Args
			}
		case strings.HasPrefix(n, "(regexp.Regexp).Match") || strings.HasPrefix(n, "(regexp.Regexp).Find"):
			return "regexp", c.Args[1:]
		}
	}
	return "", nil
}

// c23Key: a string or a structure with one in it.
func c23Key(t types.Type) bool {
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if isStringT(s.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return isStringT(t)
}

func c23Has(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if k, _ := c23Site(in); k != "" {
				return true
			}
		}
	}
	return false
}

func c23Run(p *Prog, r *Report, fn *ssa.Function, inline, dbs map[*ssa.Function]bool) map[string]bool {
	name := p.fnName(fn)
	open := map[string]bool{}
	e := newEngine(p, nil)
	site := func(e *Engine, st *State, in ssa.Instruction) {
		kind, vals := c23Site(in)
		if kind == "" {
			return
		}
		at := p.fnName(in.Parent())
		var ns []*c23Names
		for _, v := range vals {
			n := c23Of(e, e.ev(st, v), name)
			ns = append(ns, n)
			for x := range n.params {
				open[x] = true
			}
		}
		named := func(n *c23Names) bool { return len(n.raw)+len(n.folded) > 0 }
		switch kind {
		case "table":
			if named(ns[0]) {
				r.check("list", at+":table", p.iPos(in), len(ns[0].raw) == 0, "a name is looked up or stored in a table with its letters as they were received", st.path())
			}
		case "regexp":
			if dbs[in.Parent()] && named(ns[0]) {
				r.check("list", at+":regexp", p.iPos(in), len(ns[0].raw) == 0, "the regular expressions of a list are matched against the name with its letters as they were received", st.path())
			}
		case "fold":
			if named(ns[0]) || named(ns[1]) {
				r.ok("compare", at+":fold")
			}
		case "compare":
			if !named(ns[0]) || !named(ns[1]) {
				return
			}
			same := false
			for _, m := range []map[string]bool{ns[0].raw, ns[0].folded} {
				for x := range m {
					same = same || ns[1].raw[x] || ns[1].folded[x]
				}
			}
			if same && len(ns[0].raw) > 0 && len(ns[1].raw) > 0 {
				return // a name compared with a part of itself
			}
			r.check("compare", at+":compare", p.iPos(in), len(ns[0].raw) == 0 && len(ns[1].raw) == 0, "two names are compared with regard to letter case", st.path())
		}
	}
	e.r = &Rule{
		Event: func(f *ssa.Function) bool { return inline[f] },
		Inline: func(e *Engine, f *ssa.Function) bool {
			return inline[f] || f.Pkg == fn.Pkg && e.getInfo(f).size < 40 && len(e.stack) < 4
		},
		Keep: func(e *Engine, t *Term) bool { return false },
		Instr: func(e *Engine, st *State, in ssa.Instruction) {
			if _, ok := in.(ssa.CallInstruction); !ok {
				site(e, st, in)
			}
		},
		Call: func(e *Engine, st *State, c *CallEv) []Outcome {
			site(e, st, c.In)
			return nil
		},
	}
	e.run(fn, "", nil)
	r.engine(e)
	if e.over {
		r.viol("compare", name, p.pos(fn.Pos()), "the analysis budget was exceeded", nil)
	}
	return open
}
