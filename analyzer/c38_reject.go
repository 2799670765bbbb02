package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C38: invalid configurations are rejected at start-up.

func init() {
	register("C38", `For every kind of element the code that builds it is followed on all paths. A keyword option that equals none of the words it is compared with must lead to an error being returned by the function that builds the elements; so must every error of a call made on the way, a missing element that a listener refers to, and a number of upstreams other than the one the constructor takes. All options whose value selects another element are traced into the edges of the dependency graph, all descriptions of elements into its vertices, and no edge may be left out unless the reference is empty.`,
		runC38,
		"the graph library reports duplicate vertices, unknown vertices and cycles as errors",
		"the TOML library reports duplicate tables and keys",
		"listeners bound to a named network namespace are built when the namespace appears")
}

// Keyword options: domain, kinds ("" if the option chooses the kind), option.
var c38Words = []struct{ domain, kinds, key string }{
	{"group", "", "type"}, {"resolver", "", "protocol"}, {"listener", "", "protocol"},
	{"group", "ttl-modifier", "ttl-select"},
	{"group", "ecs-modifier", "ecs-op"},
	{"group", "edns0-modifier", "edns0-op"},
	{"group", "syslog", "priority"},
	{"group", "cache", "cache-answer-shuffle"}, {"group", "cache", "backend.type"},
	{"group", "blocklist", "format"},
	{"group", "blocklist-v2", "blocklist-format"}, {"group", "blocklist-v2", "allowlist-format"},
	{"group", "blocklist-v2", "blocklist-source.format"}, {"group", "blocklist-v2", "allowlist-source.format"},
	{"group", "response-blocklist-ip,response-blocklist-cidr,response-blocklist-name,client-blocklist", "blocklist-format"},
	{"group", "response-blocklist-ip,response-blocklist-cidr,response-blocklist-name,client-blocklist", "blocklist-source.format"},
	{"listener", "tcp,udp,dot,dtls,doh,doq,odoh,admin", "ip-version"},
}

// Keyword settings that the library looks at: constructor, parameter type.field or parameter number.
var c38Lib = []struct{ fn, setting string }{
	{"NewDoHClient", "DoHClientOptions.Transport"}, {"NewDoHClient", "DoHClientOptions.Method"},
	{"NewDoHListener", "DoHListenerOptions.Transport"}, {"NewAdminListener", "AdminListenerOptions.Transport"},
	{"NewODoHListener", "ODoHListenerOptions.OdohMode"}, {"NewQueryLogResolver", "QueryLogResolverOptions.OutputFormat"},
	{"NewRoute", "#1"}, {"NewRoute", "#2"}, {"NewRoute", "#3"},
}

type c38 struct {
	*c37
}

func runC38(p *Prog, r *Report) {
	base := c37New(p, r)
	if base == nil {
		r.viol("keyword", "config", "", "no type is found that the configuration file is decoded into", nil)
		return
	}
	c := &c38{base}
	for _, k := range c37Parse() {
		c.errors(k)
	}
	for _, w := range c38Words {
		for _, kind := range strings.Split(w.kinds, ",") {
			c.unknown(w.domain, kind, w.key)
		}
	}
	for _, l := range c38Lib {
		c.unknownSetting(l.fn, l.setting)
	}
	c.graph()
	r.atLeast("keyword", 35)
	r.atLeast("errors", 60)
	r.atLeast("upstreams", 25)
	r.atLeast("reference", 6)
	r.atLeast("graph", 8)
	r.atLeast("order", 7)
}

// kindKey is the option that selects the kind of an element.
func (c *c38) kindKey(domain string) string {
	return map[string]string{"group": "type", "resolver": "protocol", "listener": "protocol"}[domain]
}

func (c *c38) inline(e *Engine, f *ssa.Function) bool {
	pkg := f.Pkg
	if pkg == nil && f.Parent() != nil {
		pkg = f.Parent().Pkg
	}
	return pkg == c.p.cmd
}

// ofKind ends paths that build another kind of element.
func (c *c38) ofKind(st *State, atom *Term, val bool, kindKey, kind string) {
	if atom.op != "bin" || atom.s != "==" || kind == "" || kindKey == "" {
		return
	}
	for i := 0; i < 2; i++ {
		if s, ok := atom.args[i].str(); ok && c.key(atom.args[1-i]) == kindKey {
			if val != (s == kind) {
				st.dead = true
			} else if val {
				set(st, "kind")
			}
		}
	}
}

// word strips what does not change which keyword a text is.
func c38Word(t *Term) *Term {
	for {
		switch {
		case t.op == "conv":
			t = t.args[0]
		case t.op == "call" && len(t.args) == 1 && (strings.HasPrefix(t.s, "strings.ToUpper") || strings.HasPrefix(t.s, "strings.ToLower") || strings.HasPrefix(t.s, "strings.TrimSpace")):
			t = t.args[0]
		default:
			return t
		}
	}
}

// unmatched treats the value as one that equals no word it is ever compared with.
func c38Unmatched(e *Engine, st *State, atom *Term, val bool, is func(*Term) bool) {
	lookup := func(t *Term) bool {
		return t.op == "lookup" && is(c38Word(t.args[1]))
	}
	about, positive := false, false
	switch {
	case atom.op == "bin" && atom.s == "==":
		for i := 0; i < 2; i++ {
			x, y := atom.args[i], atom.args[1-i]
			if is(c38Word(x)) {
				about, positive = true, val
			}
			if lookup(x) && (y.isNil() || y.isConst()) {
				about, positive = true, !val
			}
		}
	case atom.op == "ext" && lookup(atom.args[0]):
		about, positive = true, val
	case atom.op == "lookup" && lookup(atom):
		about, positive = true, val
	case atom.op == "call" && (strings.HasPrefix(atom.s, "slices.Contains") || strings.HasPrefix(atom.s, "strings.EqualFold")):
		for _, a := range atom.args {
			if is(c38Word(a)) {
				about, positive = true, val
			}
		}
	}
	if about {
		if positive {
			st.dead = true
		} else {
			set(st, "asked")
		}
	}
}

// fails: the function returns an error here.
func c38Fails(e *Engine, st *State, fn *ssa.Function, in *ssa.Return, res []*Term) bool {
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		if !isErrorT(fn.Signature.Results().At(i).Type()) {
			continue
		}
		if isnil, known := e.isNil(st, res[i]); known && !isnil {
			return true
		}
		if res[i].op == "mi" || res[i].op == "call" && (strings.HasPrefix(res[i].s, "fmt.Errorf") || strings.HasPrefix(res[i].s, "errors.New")) {
			return true
		}
	}
	return false
}

// unknown follows the construction of an element whose keyword option is none of the known words.
func (c *c38) unknown(domain, kind, key string) {
	p := c.p
	name := strings.TrimSpace(domain+" "+kind) + ": " + key
	asked, ok := false, true
	for _, fn := range c.entries(domain) {
		e := newEngine(p, &Rule{
			Keep:   c.keep,
			Inline: c.inline,
			Skip: func(e *Engine, st *State, ev *CallEv) bool {
				return ev.Fn != nil && c.ofOther(ev.Fn, domain)
			},
			Branch: func(e *Engine, st *State, in *ssa.If, atom *Term, val bool) {
				c.ofKind(st, atom, val, c.kindKey(domain), kind)
				c38Unmatched(e, st, atom, val, func(t *Term) bool { return c.key(t) == key })
			},
			Call: c.libCall,
			Return: func(e *Engine, st *State, in *ssa.Return, res []*Term) {
				if !has(st, "asked") {
					return
				}
				asked = true
				if !c38Fails(e, st, fn, in, res) && ok {
					ok = false
					c.r.viol("keyword", name, p.pos(in.Pos()), fmt.Sprintf("an unknown word in option %q of a %s is accepted", key, strings.TrimSpace(domain+" "+kind)), st.path())
				}
			},
		})
		e.budget = 1500000
		e.run(fn, "", func(st *State, params []*Term) {})
		c.over(e, name, fn)
	}
	if ok {
		c.r.check("keyword", name, "", asked, fmt.Sprintf("option %q of a %s is never compared with the words that are allowed", key, strings.TrimSpace(domain+" "+kind)), nil)
	}
}

func (c *c38) over(e *Engine, name string, fn *ssa.Function) {
	if e.over {
		c.r.viol("budget", name, c.p.pos(fn.Pos()), "the code that builds this kind of element is too large to be followed", nil)
	}
	c.r.engine(e)
}

func (c *c38) keep(e *Engine, atom *Term) bool {
	return atom.op != "bin" || atom.args[0].op == "len" || atom.args[1].op == "len" || atom.args[0].isNil() || atom.args[1].isNil()
}

// libCall: what the library makes depends only on what it is given.
func (c *c38) libCall(e *Engine, st *State, ev *CallEv) []Outcome {
	if ev.Fn == nil || ev.Fn.Pkg != c.p.root {
		return nil
	}
	res := e.opaque(st, ev, ev.Args)
	if len(res) > 0 && res[0].typ != nil && !isBool(res[0].typ) && !isErrorT(res[0].typ) {
		res[0] = c.made(e, res[0])
	}
	return []Outcome{{st, res}}
}

// unknownSetting does the same for settings that a constructor of the library looks at.
func (c *c38) unknownSetting(ctor, setting string) {
	p := c.p
	fn := p.root.Func(ctor)
	name := ctor + ": " + setting
	if fn == nil {
		c.r.viol("keyword", name, "", "constructor "+ctor+" is gone", nil)
		return
	}
	var is func(t *Term) bool
	if n, ok := strings.CutPrefix(setting, "#"); ok {
		i := 0
		fmt.Sscan(n, &i)
		if i >= len(fn.Params) {
			c.r.viol("keyword", name, p.pos(fn.Pos()), "constructor "+ctor+" has another signature", nil)
			return
		}
		var root *Term
		is = func(t *Term) bool {
			for t.op == "ld" || t.op == "ia" || t.op == "vi" || t.op == "ext" || t.op == "next" || t.op == "range" {
				t = t.args[0]
			}
			return t == root
		}
		c.setting(name, fn, func(params []*Term) { root = params[i] }, func(t *Term) bool { return is(t) })
		return
	}
	_, field, _ := strings.Cut(setting, ".")
	is = func(t *Term) bool {
		if t.op == "ld" && t.args[0].op == "fa" {
			t = t.args[0]
		}
		if t.op != "vf" && t.op != "fa" || t.s != field {
			return false
		}
		for t.op == "vf" || t.op == "fa" {
			t = t.args[0]
		}
		return t.op == "param"
	}
	c.setting(name, fn, func(params []*Term) {}, is)
}

func (c *c38) setting(name string, fn *ssa.Function, setup func([]*Term), is func(*Term) bool) {
	p := c.p
	asked, ok := false, true
	e := newEngine(p, &Rule{
		Keep: c.keep,
		Inline: func(e *Engine, f *ssa.Function) bool {
			return f.Pkg == p.root && e.getInfo(f).size < 400
		},
		Skip: func(e *Engine, st *State, ev *CallEv) bool { return ev.Depth > 2 },
		Branch: func(e *Engine, st *State, in *ssa.If, atom *Term, val bool) {
			c38Unmatched(e, st, atom, val, is)
		},
		Return: func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			if !has(st, "asked") {
				return
			}
			asked = true
			if !c38Fails(e, st, fn, in, res) && ok {
				ok = false
				c.r.viol("keyword", name, p.pos(in.Pos()), fmt.Sprintf("%s accepts an unknown word for %s", fn.Name(), name), st.path())
			}
		},
	})
	e.run(fn, "", func(st *State, params []*Term) { setup(params) })
	c.over(e, name, fn)
	if ok {
		c.r.check("keyword", name, p.pos(fn.Pos()), asked, fmt.Sprintf("%s never compares its setting with the words that are allowed", fn.Name()), nil)
	}
}

// errors follows the construction of an element of a kind on all paths.
func (c *c38) errors(k *c37Kind) {
	p := c.p
	what := k.domain + " " + k.kind
	single, many := map[string]int{}, map[string]int{}
	for _, row := range k.rows {
		h, n, ok := strings.Cut(row.sink, "#")
		if !ok || len(row.need) != 1 || len(row.need[0]) != 1 || row.need[0][0] != "resolvers" {
			continue
		}
		i := 0
		fmt.Sscan(n, &i)
		fn := p.root.Func(h)
		if fn == nil || i >= fn.Signature.Params().Len() {
			continue
		}
		if fn.Signature.Variadic() && i == fn.Signature.Params().Len()-1 {
			many[h] = i
		} else {
			single[h] = i
		}
	}
	sites := map[string]string{}
	bad := map[string]bool{}
	counted := map[string]bool{}
	refs, refBad, serving := 0, false, false
	report := func(rule, key, pos, msg string, st *State) {
		if !bad[rule+key] {
			bad[rule+key] = true
			c.r.viol(rule, key, pos, msg, st.path())
		}
	}
	for _, fn := range c.entries(k.domain) {
		fn := fn
		e := newEngine(p, &Rule{
			Keep:   c.keep,
			Inline: c.inline,
			Skip: func(e *Engine, st *State, ev *CallEv) bool {
				return ev.Fn != nil && c.ofOther(ev.Fn, k.domain)
			},
			Branch: func(e *Engine, st *State, in *ssa.If, atom *Term, val bool) {
				c.ofKind(st, atom, val, c.kindKey(k.domain), k.kind)
				c.lengths(st, atom, val)
				// an error that is looked at
				if atom.op == "bin" && atom.s == "==" {
					for i := 0; i < 2; i++ {
						x := atom.args[i]
						if !atom.args[1-i].isNil() {
							continue
						}
						if id := fmt.Sprintf("pend:%d:", x.id); len(flags(st, id)) > 0 {
							for _, s := range flags(st, id) {
								unset(st, id+s)
								if !val {
									set(st, "failed:"+s)
								}
							}
						}
						if x.op == "lookup" && c.key(x.args[1]) == "resolver" {
							c.found(st, !val)
						}
					}
				}
				if atom.op == "ext" && atom.args[0].op == "lookup" && c.key(atom.args[0].args[1]) == "resolver" {
					c.found(st, val)
				}
			},
			Call: func(e *Engine, st *State, ev *CallEv) []Outcome {
				if ev.Fn == nil || ev.Fn.Pkg != p.root {
					return nil
				}
				h := ev.Fn.Name()
				if _, ok := single[h]; ok {
					counted[h] = true
					if !has(st, "one") {
						report("upstreams", what+": "+h, p.pos(ev.In.Pos()), fmt.Sprintf("a %s is built without making sure that there is exactly one upstream", what), st)
					}
				}
				if _, ok := many[h]; ok && k.kind != "lua" {
					counted[h] = true
					if !has(st, "some") {
						report("upstreams", what+": "+h, p.pos(ev.In.Pos()), fmt.Sprintf("a %s is built without making sure that there is an upstream", what), st)
					}
				}
				return c.libCall(e, st, ev)
			},
			After: func(e *Engine, ev *CallEv, outs []Outcome) {
				if ev.C == nil {
					return
				}
				rs := ev.C.Signature().Results()
				if rs.Len() == 0 || !isErrorT(rs.At(rs.Len()-1).Type()) || ev.Fn != nil && c.inline(e, ev.Fn) {
					return
				}
				n := calleeName(ev.C)
				if n == "fmt.Errorf" || n == "errors.New" || strings.HasPrefix(n, "errors.") || strings.HasPrefix(n, "fmt.") || strings.HasSuffix(n, ".Close") || strings.HasPrefix(n, "(bytes.Buffer)") || strings.HasPrefix(n, "(strings.Builder)") {
					return
				}
				if _, isCall := ev.In.(*ssa.Call); !isCall {
					return
				}
				pos := p.pos(ev.In.Pos())
				site := n
				sites[site] = pos
				for _, o := range outs {
					if len(o.Res) == rs.Len() {
						x := o.Res[len(o.Res)-1]
						if isnil, known := e.isNil(o.St, x); known && isnil {
							continue
						}
						set(o.St, fmt.Sprintf("pend:%d:%s", x.id, site))
					}
				}
			},
			Instr: func(e *Engine, st *State, in ssa.Instruction) {
				if g, ok := in.(*ssa.Go); ok && k.domain == "listener" {
					if f := goTarget(g); f != nil && c.serves(f) || g.Call.IsInvoke() && c.starts(&g.Call) {
						set(st, "serving")
						serving = true
					}
				}
			},
			BackEdge: func(e *Engine, st *State, from, head *ssa.BasicBlock) {
				for _, f := range flags(st, "pend:") {
					_, s, _ := strings.Cut(f, ":")
					report("errors", what+": "+s, sites[s], fmt.Sprintf("while building a %s an error of %s is not looked at", what, s), st)
				}
			},
			Return: func(e *Engine, st *State, in *ssa.Return, res []*Term) {
				fails := c38Fails(e, st, fn, in, res)
				for _, f := range flags(st, "pend:") {
					id, s, _ := strings.Cut(f, ":")
					passed := false
					for _, x := range res {
						passed = passed || fmt.Sprint(x.id) == id
					}
					if !passed && !fails {
						report("errors", what+": "+s, sites[s], fmt.Sprintf("while building a %s an error of %s is not looked at", what, s), st)
					}
				}
				if fails {
					if has(st, "serving") {
						report("order", what, p.pos(in.Pos()), "an error in the configuration is noticed only after a listener was started", st)
					}
					return
				}
				for _, s := range flags(st, "failed:") {
					report("errors", what+": "+s, sites[s], fmt.Sprintf("while building a %s an error of %s does not stop the server from starting", what, s), st)
				}
				if k.domain == "listener" && has(st, "kind") && k.kind != "admin" {
					refs++
					if has(st, "missing") || !has(st, "found") {
						refBad = true
						report("reference", what, p.pos(in.Pos()), fmt.Sprintf("a %s may refer to an element that does not exist", what), st)
					}
				}
			},
		})
		e.budget = 1500000
		e.run(fn, "", func(st *State, params []*Term) {})
		c.over(e, what, fn)
		c.r.funcs[p.fnName(fn)] = true
	}
	for s := range sites {
		if !bad["errors"+what+": "+s] {
			c.r.ok("errors", what+": "+s)
		}
	}
	for _, m := range []map[string]int{single, many} {
		for h := range m {
			if h == "NewLua" {
				continue
			}
			if !bad["upstreams"+what+": "+h] {
				c.r.check("upstreams", what+": "+h, "", counted[h], fmt.Sprintf("no %s is ever built", what), nil)
			}
		}
	}
	if k.domain == "listener" && !bad["order"+what] {
		c.r.check("order", what, "", serving, "no listener is ever started", nil)
	}
	if k.domain == "listener" && k.kind != "admin" && !refBad {
		c.r.check("reference", what, "", refs > 0, fmt.Sprintf("no %s is ever built", what), nil)
	}
}

// serves: the function starts a listener.
func (c *c38) serves(fn *ssa.Function) bool {
	return c.p.reachesCall(fn, c.starts)
}

func (c *c38) starts(x *ssa.CallCommon) bool {
	l, ok := c.p.root.Pkg.Scope().Lookup("Listener").(*types.TypeName)
	return ok && x.IsInvoke() && x.Method.Name() == "Start" && types.Identical(x.Value.Type(), l.Type())
}

func (c *c38) found(st *State, yes bool) {
	unset(st, "found")
	if yes {
		set(st, "found")
	} else {
		set(st, "missing")
	}
}

// lengths notes what a branch says about the number of upstreams.
func (c *c38) lengths(st *State, atom *Term, val bool) {
	if atom.op != "bin" {
		return
	}
	upstreams := func(t *Term) bool {
		if t.op != "len" || t.args[0].typ == nil {
			return false
		}
		sl, ok := t.args[0].typ.Underlying().(*types.Slice)
		return ok && (isResolverT(sl.Elem()) || c.key(t.args[0]) == "resolvers")
	}
	for i := 0; i < 2; i++ {
		n, ok := atom.args[1-i].intv()
		if !ok || !upstreams(atom.args[i]) {
			continue
		}
		switch {
		case atom.s == "==" && n == 1 && val:
			set(st, "one")
			set(st, "some")
		case atom.s == "==" && n == 0 && !val, atom.s == "<" && i == 0 && n == 1 && !val, atom.s == "<" && i == 1 && n == 0 && val, atom.s == "<=" && i == 0 && n == 0 && !val:
			set(st, "some")
			if has(st, "most") {
				set(st, "one")
			}
		case atom.s == "<" && i == 0 && n == 2 && val, atom.s == "<" && i == 1 && n == 1 && !val:
			set(st, "most")
			if has(st, "some") {
				set(st, "one")
			}
		}
	}
}

// graph: every element is a vertex, every reference an edge.
func (c *c38) graph() {
	p := c.p
	var vertices, edges []*ssa.Call
	for _, fn := range p.funcs {
		if !c.inline(nil, fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok {
					switch n := calleeName(&call.Call); {
					case strings.Contains(n, "heimdalr/dag") && strings.HasSuffix(n, ".AddVertex"), strings.Contains(n, "heimdalr/dag") && strings.HasSuffix(n, ".AddVertexByID"):
						vertices = append(vertices, call)
					case strings.Contains(n, "heimdalr/dag") && strings.HasSuffix(n, ".AddEdge"):
						edges = append(edges, call)
					}
				}
			}
		}
	}
	if len(vertices) == 0 || len(edges) == 0 {
		c.r.viol("graph", "dag", "", "elements and references are not checked with the graph library", nil)
		return
	}
	// vertices
	seen := map[string]bool{}
	for _, v := range vertices {
		for _, a := range v.Call.Args[1:] {
			for f := range c.flow(a) {
				seen[f] = true
			}
		}
	}
	for _, d := range []string{"resolver", "group", "router"} {
		c.r.check("graph", "vertex "+d, p.pos(vertices[0].Pos()), seen[d+"s"], fmt.Sprintf("a %s is not entered in the graph, so that duplicates and references to it go unnoticed", d), nil)
	}
	// edges
	reach := map[string]bool{}
	for _, e := range edges {
		for f := range c.flow(e.Call.Args[2]) {
			reach[f] = true
		}
	}
	used := map[string]token.Pos{}
	for _, fn := range p.funcs {
		if !c.inline(nil, fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				l, ok := in.(*ssa.Lookup)
				if !ok {
					continue
				}
				m, ok := l.X.Type().Underlying().(*types.Map)
				if !ok || !isResolverT(m.Elem()) {
					continue
				}
				for f := range c.flow(l.Index) {
					if strings.Contains(f, ".") {
						if _, dup := used[f]; !dup {
							used[f] = l.Pos()
						}
					}
				}
			}
		}
	}
	var names []string
	for f := range used {
		if !strings.HasPrefix(f, "listener.") {
			names = append(names, f)
		}
	}
	sort.Strings(names)
	for _, f := range names {
		c.r.check("graph", "edge "+f, p.pos(used[f]), reach[f], fmt.Sprintf("the reference in option %s is no edge of the graph: a missing element or a cycle through it is not noticed", f), nil)
	}
	// edges left out
	for _, e := range edges {
		c.complete(e)
	}
}

// complete: within the loop that adds edges only empty references are passed over.
func (c *c38) complete(call *ssa.Call) {
	p := c.p
	body := map[*ssa.BasicBlock]bool{}
	for _, b := range call.Parent().Blocks {
		if reachesBlock(b, call.Block()) && reachesBlock(call.Block(), b) {
			body[b] = true
		}
	}
	good, pos := true, call.Pos()
	for b := range body {
		if len(b.Instrs) == 0 || b == call.Block() {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		// a branch that decides whether the edge is added in this round
		skips := false
		for _, s := range b.Succs {
			if body[s] && !reachesBefore(s, call.Block(), body) {
				skips = true
			}
		}
		if !skips || rangeCond(iff.Cond) {
			continue
		}
		if bo, ok := iff.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
			if emptyText(bo.X) || emptyText(bo.Y) {
				continue
			}
			if isNilV(bo.X) || isNilV(bo.Y) {
				continue
			}
		}
		good, pos = false, iff.Cond.Pos()
	}
	c.r.check("graph", "all edges", p.pos(pos), good, "a reference that is not empty may be left out of the graph", nil)
}

func isNilV(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.IsNil()
}

func emptyText(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == ""
}

func rangeCond(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Extract:
		_, ok := x.Tuple.(*ssa.Next)
		return ok
	case *ssa.BinOp:
		if x.Op != token.LSS {
			return false
		}
		if call, ok := x.Y.(*ssa.Call); ok {
			b, ok := call.Call.Value.(*ssa.Builtin)
			return ok && b.Name() == "len"
		}
	}
	return false
}

func reachesBlock(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if s == to {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if rec(s) {
					return true
				}
			}
		}
		return false
	}
	return rec(from)
}

// reachesBefore: from reaches to without going through the head of a loop around it.
func reachesBefore(from, to *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] || !body[b] || b.Dominates(to) && b != from {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if rec(s) {
				return true
			}
		}
		return false
	}
	return rec(from)
}

// flow collects the options and sections of the configuration that a value may come from.
func (c *c38) flow(v ssa.Value) map[string]bool {
	p := c.p
	out := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	field := func(x ssa.Value, i int) bool {
		s, n := c.structOf(x.Type())
		if s == nil {
			return false
		}
		k := c37Tag(s, i)
		if n == c.root {
			out[k] = true
			return true
		}
		name := ""
		if n != nil {
			name = c.domains[n]
			if name == "" {
				name = strings.ToLower(n.Obj().Name())
			}
		}
		out[name+"."+k] = true
		rec(x)
		return true
	}
	rec = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if field(x.X, x.Field) {
				return
			}
			// whatever is stored in that field
			for _, fn := range p.funcs {
				if !c.inline(nil, fn) {
					continue
				}
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if s, ok := in.(*ssa.Store); ok {
							if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.Field == x.Field && types.Identical(fa.X.Type(), x.X.Type()) {
								rec(s.Val)
							}
						}
					}
				}
			}
			rec(x.X)
		case *ssa.Field:
			if !field(x.X, x.Field) {
				rec(x.X)
			}
		case *ssa.Alloc:
			for _, r := range *x.Referrers() {
				switch y := r.(type) {
				case *ssa.Store:
					if y.Addr == x {
						rec(y.Val)
					}
				case *ssa.FieldAddr:
					for _, q := range *y.Referrers() {
						if s, ok := q.(*ssa.Store); ok && s.Addr == y {
							rec(s.Val)
						}
					}
				case *ssa.IndexAddr:
					for _, q := range *y.Referrers() {
						if s, ok := q.(*ssa.Store); ok && s.Addr == y {
							rec(s.Val)
						}
					}
				}
			}
		case *ssa.Parameter:
			for _, site := range p.callersOf(x.Parent()) {
				for i, q := range x.Parent().Params {
					if q == x && i < len(site.Common().Args) {
						rec(site.Common().Args[i])
					}
				}
			}
		case *ssa.FreeVar:
			for i, q := range x.Parent().FreeVars {
				if q != x || x.Parent().Parent() == nil {
					continue
				}
				for _, b := range x.Parent().Parent().Blocks {
					for _, in := range b.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == x.Parent() {
							rec(mc.Bindings[i])
						}
					}
				}
			}
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && c.inline(nil, f) {
				for _, b := range f.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, y := range r.Results {
							rec(y)
						}
					}
				}
			}
			for _, a := range x.Call.Args {
				rec(a)
			}
		default:
			if mt, ok := v.Type().Underlying().(*types.Map); ok {
				// what is put into maps of that type
				for _, fn := range p.funcs {
					if !c.inline(nil, fn) {
						continue
					}
					for _, b := range fn.Blocks {
						for _, in := range b.Instrs {
							if u, ok := in.(*ssa.MapUpdate); ok && types.Identical(u.Map.Type().Underlying(), mt) {
								rec(u.Key)
								rec(u.Value)
							}
						}
					}
				}
			}
			if in, ok := v.(ssa.Instruction); ok {
				for _, op := range in.Operands(nil) {
					if *op != nil {
						rec(*op)
					}
				}
			}
		}
	}
	rec(v)
	return out
}
