package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", `Must-pass-through typestate from every Resolve method that reaches a cache backend's Store, background goroutines followed. At each Store the stored message must come from an upstream call whose error is known to be nil and whose answer is known not to be nil, must be known not to be truncated, must have passed a test of its response code against one of the cacheable codes, and its expiry must have been set: from the lowest record lifetime where the answer has records, otherwise from the configured negative lifetime; for server failures at most 300 seconds.`,
		runC13)
}

var cacheable = map[int64]bool{0: true, 1: true, 2: true, 3: true, 4: true, 5: true}

// constSet returns the constants held by a list or the keys of a map (package level or local).
func constSet(e *Engine, st *State, t *Term) []int64 {
	var out []int64
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if k, ok := t.intv(); ok {
			out = append(out, k)
		}
		switch t.op {
		case "alloc":
			for a, v := range st.mem {
				if rootOf(a) == t {
					rec(v)
				}
			}
		case "slice", "mi", "conv", "mkstruct", "merge":
			for _, a := range t.args {
				if a != nil {
					rec(a)
				}
			}
		case "ld":
			if g := t.args[0]; g.op == "global" {
				out = append(out, globalConsts(e.p, g)...)
			}
		}
	}
	rec(t)
	return out
}

// globalConsts lists the constant keys or elements a package-level map or list is initialised with.
func globalConsts(p *Prog, g *Term) []int64 {
	var out []int64
	for _, pkg := range []*ssa.Package{p.root, p.sec, p.cmd} {
		if pkg == nil {
			continue
		}
		init := pkg.Func("init")
		if init == nil {
			continue
		}
		var holder ssa.Value
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if gl, ok := s.Addr.(*ssa.Global); ok && strings.HasSuffix(g.s, gl.Name()) && strings.Contains(g.s, gl.Pkg.Pkg.Path()) {
						holder = s.Val
					}
				}
			}
		}
		if holder == nil {
			continue
		}
		if sl, ok := holder.(*ssa.Slice); ok {
			holder = sl.X
		}
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if x.Map == holder {
						if c, ok := x.Key.(*ssa.Const); ok && c.Value.Kind() == constant.Int {
							out = append(out, c.Int64())
						}
					}
				case *ssa.Store:
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok && ia.X == holder {
						if c, ok := x.Val.(*ssa.Const); ok && c.Value.Kind() == constant.Int {
							out = append(out, c.Int64())
						}
					}
				}
			}
		}
	}
	return out
}

func backendCall(c *ssa.CallCommon, it *types.Interface, name string) bool {
	return it != nil && c.IsInvoke() && c.Method.Name() == name && types.Identical(c.Value.Type().Underlying(), it)
}

func runC13(p *Prog, r *Report) {
	it := p.iface(p.root, "CacheBackend")
	for _, fn := range p.resolvers() {
		reach := false
		p.staticReach(fn, func(g *ssa.Function) bool {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && backendCall(c.Common(), it, "Store") {
						reach = true
					}
				}
			}
			return true
		})
		if reach {
			c13Run(p, r, fn, it)
		}
	}
	r.atLeast("stored", 1)
}

func c13Run(p *Prog, r *Report, fn *ssa.Function, it *types.Interface) {
	rule := &Rule{FollowGo: true, Unroll: true}
	rule.Inline = func(e *Engine, f *ssa.Function) bool {
		if f.Name() == "Resolve" && isResolveSig(f.Signature) || f.Name() == "logger" {
			return false
		}
		return e.getInfo(f).size < 500
	}
	base := func(t *Term) *Term { // the message a header field is read from
		for t.op == "ld" || t.op == "fa" || t.op == "vf" {
			t = t.args[0]
		}
		return t
	}
	name := p.fnName(fn)
	rule.Branch = func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
		if a.op == "bin" && a.s == "==" && a.args[1].isNil() && a.args[0].op == "ext" {
			set(st, fmt.Sprintf("nil:%s:%d:%v", a.args[0].s, a.args[0].args[0].id, val))
		}
		if a.isField("Truncated") && !val {
			set(st, fmt.Sprintf("whole:%d", base(a).id))
		}
		code := func(t *Term) bool {
			return t.op == "ld" && t.isField("Rcode") || t.op == "conv" && t.args[0].isField("Rcode")
		}
		put := func(m *Term, ks []int64) {
			for _, k := range ks {
				set(st, fmt.Sprintf("rc:%d:%d", base(m).id, k))
			}
		}
		strip := func(t *Term) *Term {
			for t.op == "conv" {
				t = t.args[0]
			}
			return t
		}
		if a.op == "bin" && a.s == "==" && val {
			for i := 0; i < 2; i++ {
				if k, ok := a.args[1-i].intv(); ok && code(a.args[i]) {
					put(strip(a.args[i]), []int64{k})
				}
			}
		}
		if val {
			t := a
			if t.op == "ext" {
				t = t.args[0]
			}
			if t.op == "lookup" && code(t.args[1]) {
				put(strip(t.args[1]), constSet(e, st, t.args[0]))
			}
			if t.op == "call" && strings.HasPrefix(t.callName(), "slices.Contains") && len(t.args) >= 2 && code(t.args[len(t.args)-1]) {
				put(strip(t.args[len(t.args)-1]), constSet(e, st, t.args[len(t.args)-2]))
			}
		}
		if a.op == "call" && len(a.args) >= 2 {
			x, y := a.args[len(a.args)-2], a.args[len(a.args)-1]
			switch a.callName() {
			case "(time.Time).After":
				if val {
					set(st, fmt.Sprintf("less:%d:%d", y.id, x.id))
				}
			case "(time.Time).Before":
				if val {
					set(st, fmt.Sprintf("less:%d:%d", x.id, y.id))
				}
			}
		}
		if a.op == "bin" && a.args[1].op == "len" && sectionOf(e, a.args[1]) != "" {
			if x := scanOf(e, a.args[0]); x != "" && !has(st, "scan:"+x) { // another scan of the records
				for _, f := range flags(st, "scan:") {
					unset(st, "scan:"+f)
				}
				for _, f := range flags(st, "sec:") {
					unset(st, "sec:"+f)
				}
				unset(st, "records")
				set(st, "scan:"+x)
			}
			if !val {
				for _, f := range strings.Fields(sectionOf(e, a.args[1])) {
					set(st, "sec:"+f)
				}
			}
		}
		if a.op == "bin" && a.s == "<" {
			if a.args[0].isField("Ttl") && !val {
				set(st, fmt.Sprintf("ge:%d", a.args[0].id))
			}
			if a.args[1].isField("Ttl") && val {
				set(st, fmt.Sprintf("ge:%d", a.args[1].id))
			}
		}
		if a.op == "bin" && val && (e.T.readsField(a.args[0], "Ttl") || e.T.readsField(a.args[1], "Ttl")) {
			set(st, "records")
		}
	}
	rule.BackEdge = func(e *Engine, st *State, from, head *ssa.BasicBlock) {
		for k, pr := range head.Preds {
			if pr != from {
				continue
			}
			for _, in := range head.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if v := e.ev(st, ph.Edges[k]); v.isField("Ttl") {
					r.check("lowest", name, p.iPos(ph), !has(st, fmt.Sprintf("ge:%d", v.id)), "the lifetime kept is not the lowest one", st.path())
				}
			}
		}
		for _, f := range flags(st, "ge:") {
			unset(st, "ge:"+f)
		}
	}
	rule.After = func(e *Engine, c *CallEv, outs []Outcome) {
		if isResolveCall(c.C) {
			for _, o := range outs {
				unset(o.St, "records")
			}
		}
	}
	rule.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
		if !backendCall(c.C, it, "Store") {
			return nil
		}
		args := c.Args[len(c.Args)-2:]
		pos := p.iPos(c.In)
		item := args[1]
		s := deref(item.typ)
		if s == nil || !isStruct(s) {
			r.viol("stored", name, pos, "what is stored cannot be followed", st.path())
			return nil
		}
		var msg, exp *Term
		for i := 0; i < s.Underlying().(*types.Struct).NumFields(); i++ {
			f := s.Underlying().(*types.Struct).Field(i)
			v := e.load(st, e.fa(item, f.Name(), types.NewPointer(f.Type())), f.Type())
			if isMsgPtr(f.Type()) {
				msg = v
			}
			if f.Name() == "Expiry" {
				exp = v
			}
		}
		r.ok("stored", name)
		if msg == nil || exp == nil {
			r.viol("stored", name, pos, "what is stored cannot be followed", st.path())
			return nil
		}
		c13Answer(e, r, st, name, pos, msg)
		r.check("not-truncated", name, pos, has(st, fmt.Sprintf("whole:%d", msg.id)), "a response that may be truncated is stored", st.path())
		codes := flags(st, fmt.Sprintf("rc:%d:", msg.id))
		good := len(codes) > 0
		fail := false
		for _, k := range codes {
			var n int64
			fmt.Sscan(k, &n)
			if !cacheable[n] {
				good = false
			}
			fail = fail || n == 2
		}
		r.check("outcome", name, pos, good, "a response is stored without its code being one of the cacheable ones", st.path())
		c13Expiry(e, r, st, name, pos, exp, fail)
		return nil
	}
	e := newEngine(p, rule)
	e.run(fn, "", nil)
	r.engine(e)
}

// c13Answer: the stored message is the successful answer of an upstream.
func c13Answer(e *Engine, r *Report, st *State, name, pos string, msg *Term) {
	if msg.op != "ext" || msg.args[0].op != "call" || !strings.HasSuffix(msg.args[0].callName(), ".Resolve") {
		if msg.isNil() {
			r.viol("answered", name, pos, "no answer is stored", st.path())
		}
		r.ok("answered", name)
		return
	}
	id := msg.args[0].id
	r.check("answered", name, pos, has(st, fmt.Sprintf("nil:1:%d:true", id)), "the answer of a failed upstream call is stored", st.path())
	r.check("answered", name+"/nil", pos, has(st, fmt.Sprintf("nil:0:%d:false", id)), "a missing answer may be stored", st.path())
}

func c13Expiry(e *Engine, r *Report, st *State, name, pos string, exp *Term, fail bool) {
	set := exp.op == "call" && strings.HasSuffix(exp.callName(), "time.Time).Add")
	r.check("expiry", name, pos, set, "a response is stored without an expiry", st.path())
	if !set {
		return
	}
	// all values that are known not to lie before the expiry
	bounds := []*Term{exp}
	for _, f := range flags(st, fmt.Sprintf("less:%d:", exp.id)) {
		var id int32
		fmt.Sscan(f, &id)
		if t := e.T.byID(id); t != nil && t.op == "call" {
			bounds = append(bounds, t)
		}
	}
	if fail {
		good := false
		for _, b := range bounds {
			if hi, ok := secondsAtMost(e, st, b.args[len(b.args)-1]); ok && hi <= 300 {
				good = true
			}
		}
		r.check("failure-bounded", name, pos, good, "a server failure may be kept for more than 300 seconds", st.path())
		return
	}
	for _, f := range []string{"Answer", "Ns", "Extra"} {
		r.check("all-records", name+"/"+f, pos, has(st, "sec:"+f), "the lifetime of records of this section is not looked at: "+f, st.path())
	}
	if has(st, "records") {
		good := false
		for _, b := range bounds {
			good = good || e.T.readsField(b, "Ttl")
		}
		r.check("from-records", name, pos, good, "the expiry does not depend on the lifetime of the answer's records", st.path())
	}
}

// secondsAtMost bounds a duration.
func secondsAtMost(e *Engine, st *State, d *Term) (int64, bool) {
	const sec = 1_000_000_000
	if k, ok := d.intv(); ok {
		return (k + sec - 1) / sec, true
	}
	switch {
	case d.op == "conv":
		return secondsAtMost(e, st, d.args[0])
	case d.op == "min" || d.op == "call" && d.callName() == "builtin.min":
		for _, a := range d.args {
			if k, ok := secondsAtMost(e, st, a); ok {
				return k, true
			}
		}
	case d.op == "bin" && d.s == token.MUL.String():
		for i := 0; i < 2; i++ {
			if u, ok := d.args[1-i].intv(); ok && u > 0 {
				if k, ok := valueAtMost(e, st, d.args[i]); ok {
					return (k*u + sec - 1) / sec, true
				}
			}
		}
	}
	return 0, false
}

func valueAtMost(e *Engine, st *State, t *Term) (int64, bool) {
	if k, ok := t.intv(); ok {
		return k, true
	}
	if _, hi, _ := e.interval(st, t); hi != nil && *hi < 1<<31 {
		return *hi, true
	}
	switch {
	case t.op == "conv":
		return valueAtMost(e, st, t.args[0])
	case t.op == "min" || t.op == "call" && t.callName() == "builtin.min":
		best, ok := int64(0), false
		for _, a := range t.args {
			if k, o := valueAtMost(e, st, a); o && (!ok || k < best) {
				best, ok = k, true
			}
		}
		return best, ok
	}
	return 0, false
}

// sectionOf returns the sections of a message a term is taken from.
func sectionOf(e *Engine, t *Term) string {
	out := ""
	for _, s := range []string{"Answer", "Ns", "Extra"} {
		if e.T.readsField(t, s) {
			out += s + " "
		}
	}
	return strings.TrimSpace(out)
}

// scanOf names the activation of a loop by its counter.
func scanOf(e *Engine, t *Term) string {
	x := ""
	e.T.contains(t, func(y *Term) bool {
		if y.op == "phi" {
			if i, j := strings.Index(y.s, "@"), strings.Index(y.s, "#"); i >= 0 && j > i {
				x = y.s[i:j]
			}
		}
		return x != ""
	})
	return x
}
