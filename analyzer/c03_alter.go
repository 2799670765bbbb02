package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C03", `Mutation analysis over every Resolve method of the repository. An address or value is "the caller's" when it is reached from the query parameter through fields, elements, slices, type tests, interface values or the accessors of the DNS library that return parts of a message; a copy made by the DNS library is not. Writing through such an address, calling a method that writes or normalises (Set*, Pack*, Truncate, Unpack, sending the message over a connection), or an in-place library operation is a violation, in the element itself and in everything it calls; callees reached through an interface or a function value are summarised by the parameters they alter. Handing the query to another element is allowed because that element is held to the same rule.`,
		runC03, "methods of the DNS library other than the listed ones do not write to their message")
}

// dnsMutator: index of the argument the library call writes to, or -1.
func dnsMutator(name string) int {
	if strings.HasPrefix(name, "("+dnsPath+".") {
		m := name[strings.LastIndex(name, ".")+1:]
		switch {
		case strings.HasPrefix(m, "Set"), strings.HasPrefix(m, "Pack"), m == "Truncate", m == "Unpack", m == "Insert", m == "RemoveName":
			return 0
		case strings.HasPrefix(m, "Exchange"), m == "WriteMsg", m == "TsigGenerate":
			return 1
		case m == "CopyTo":
			return 1
		}
		if strings.HasPrefix(m, "ExchangeWithConn") {
			return 1
		}
		return -1
	}
	switch name {
	case dnsPath + ".Exchange", dnsPath + ".ExchangeContext", dnsPath + ".ExchangeConn":
		return 0
	}
	return -1
}

func inPlace(name string) bool {
	i := strings.LastIndex(name, ".")
	if i < 0 {
		return false
	}
	switch name[:i] {
	case "sort":
		return true
	case "slices":
		m := name[i+1:]
		for _, p := range []string{"Sort", "Delete", "Reverse", "Compact", "Replace", "Insert"} {
			if strings.HasPrefix(m, p) {
				return true
			}
		}
	}
	return name == "builtin.copy" || name == "builtin.clear"
}

// derived: the value refers to memory reached from root.
func derivedFrom(t *Term, root func(*Term) bool) bool {
	for depth := 0; depth < 64; depth++ {
		if root(t) {
			return true
		}
		switch t.op {
		case "fa", "ia", "ld", "ext", "lookup", "ta", "vf", "vi", "mi", "slice", "conv", "next", "range":
			if len(t.args) == 0 {
				return false
			}
			t = t.args[0]
		case "append":
			t = t.args[0]
		case "call":
			n := t.callName()
			if !strings.HasPrefix(n, "("+dnsPath+".") || len(t.args) == 0 {
				return false
			}
			switch n[strings.LastIndex(n, ".")+1:] {
			case "IsEdns0", "IsTsig", "Header":
				t = t.args[0]
			default:
				return false
			}
		case "phi", "merge":
			return false
		default:
			return false
		}
	}
	return false
}

type c03 struct {
	p       *Prog
	mut     map[*ssa.Function]map[int]string
	changed bool
	dyn     map[string][]*ssa.Function
}

func (c *c03) run(fn *ssa.Function, idx map[int]bool, report func(e *Engine, st *State, in ssa.Instruction, i int, what string)) *Engine {
	rule := &Rule{FollowGo: true}
	rule.Inline = func(e *Engine, f *ssa.Function) bool {
		if f.Name() == "Resolve" && isResolveSig(f.Signature) {
			return false
		}
		return (len(e.stack) <= 2 || len(e.stack) <= 4 && len(f.Blocks) <= 6) && e.getInfo(f).size < 400
	}
	rule.Keep = func(e *Engine, a *Term) bool { return true }
	whose := func(t *Term) int {
		for d := 0; d < 1; d++ {
			for i, p := range fn.Params {
				if !idx[i] {
					continue
				}
				name := p.Name() + "@" + c.p.fnName(fn)
				if derivedFrom(t, func(x *Term) bool { return x.op == "param" && x.s == name }) {
					return i
				}
			}
		}
		return -1
	}
	var anyOf func(e *Engine, t *Term, seen map[*Term]bool) int
	anyOf = func(e *Engine, t *Term, seen map[*Term]bool) int {
		if i := whose(t); i >= 0 {
			return i
		}
		// a loop variable or merged value may be any of its inputs
		b := t
		for b.op == "fa" || b.op == "ia" || b.op == "ld" || b.op == "ta" || b.op == "mi" || b.op == "slice" || b.op == "ext" || b.op == "vf" || b.op == "append" ||
			b.op == "call" && len(b.args) > 0 && (strings.HasSuffix(b.callName(), ").IsEdns0") || strings.HasSuffix(b.callName(), ").Header")) {
			b = b.args[0]
		}
		if (b.op == "phi" || b.op == "merge") && !seen[b] {
			seen[b] = true
			for in := range e.T.phiIn[b] {
				if i := anyOf(e, in, seen); i >= 0 {
					return i
				}
			}
		}
		return -1
	}
	rule.Instr = func(e *Engine, st *State, in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		a := e.ev(st, s.Addr)
		if i := anyOf(e, a, map[*Term]bool{}); i >= 0 && (a.op == "fa" || a.op == "ia" || a.op == "param") {
			report(e, st, in, i, "writes to "+short(a))
			return
		}
	}
	// calls the message cannot reach are not followed
	rule.Skip = func(e *Engine, st *State, ev *CallEv) bool {
		if ev.Fn == nil || len(ev.Fn.FreeVars) > 0 {
			return false
		}
		for i, a := range ev.Args {
			if i < len(ev.Fn.Params) {
				if _, basic := ev.Fn.Params[i].Type().Underlying().(*types.Basic); basic {
					continue
				}
			}
			if e.T.contains(a, func(x *Term) bool {
				if x.op == "alloc" || x.op == "phi" || x.op == "merge" || x.op == "closure" || x.op == "make" {
					return true
				}
				if x.op == "param" {
					for i, p := range fn.Params {
						if idx[i] && x.s == p.Name()+"@"+c.p.fnName(fn) {
							return true
						}
					}
				}
				return false
			}) {
				return false
			}
		}
		return true
	}
	rule.Call = func(e *Engine, st *State, ev *CallEv) []Outcome {
		if len(ev.Args) == 0 || isResolveCall(ev.C) && ev.C.IsInvoke() {
			return nil
		}
		if k := dnsMutator(ev.Name); k >= 0 && k < len(ev.Args) {
			if i := anyOf(e, ev.Args[k], map[*Term]bool{}); i >= 0 {
				report(e, st, ev.In, i, "calls "+ev.Name[strings.LastIndex(ev.Name, "/")+1:]+" on it")
			}
			return nil
		}
		if inPlace(ev.Name) {
			if i := anyOf(e, ev.Args[0], map[*Term]bool{}); i >= 0 {
				report(e, st, ev.In, i, "reorders or removes its elements in place")
			}
			return nil
		}
		if ev.Name == "builtin.append" {
			if a := ev.Args[0]; a.op == "slice" && !a.args[2].isNil() {
				if i := anyOf(e, a, map[*Term]bool{}); i >= 0 {
					report(e, st, ev.In, i, "overwrites its elements in place")
				}
			}
			return nil
		}
		var gs []*ssa.Function
		switch {
		case ev.C.IsInvoke():
			gs = c.p.impls(ev.C)
		case ev.Fn != nil:
			if !e.wantInline(ev.Fn) && !(ev.Fn.Name() == "Resolve" && isResolveSig(ev.Fn.Signature)) {
				gs = []*ssa.Function{ev.Fn}
			}
		default:
			if _, ok := ev.C.Value.(*ssa.Builtin); !ok {
				gs = c.dyn[sigKey(ev.C.Signature())]
			}
		}
		for k, a := range ev.Args {
			i := -2
			for _, g := range gs {
				if m := c.mut[g]; m != nil && m[k] != "" {
					if i == -2 {
						i = anyOf(e, a, map[*Term]bool{})
					}
					if i >= 0 {
						report(e, st, ev.In, i, "passes it to "+c.p.fnName(g)+", which alters it")
						break
					}
				}
			}
		}
		return nil
	}
	e := newEngine(c.p, rule)
	e.run(fn, "", nil)
	return e
}

func runC03(p *Prog, r *Report) {
	c := &c03{p: p, mut: map[*ssa.Function]map[int]string{}, dyn: map[string][]*ssa.Function{}}
	for fn := range p.escaping() {
		c.dyn[sigKey(fn.Signature)] = append(c.dyn[sigKey(fn.Signature)], fn)
	}
	scope := map[*ssa.Function]bool{}
	for _, f := range p.resolvers() {
		for g := range p.reach(f) {
			scope[g] = true
		}
	}
	// parameter summaries of everything reachable
	for round := 0; round < 5; round++ {
		c.changed = false
		for _, fn := range p.funcs {
			if !scope[fn] || fn.Name() == "Resolve" && isResolveSig(fn.Signature) {
				continue
			}
			idx := map[int]bool{}
			for i, pr := range fn.Params {
				if i == 0 && fn.Signature.Recv() != nil {
					continue
				}
				if messagePart(pr.Type()) {
					idx[i] = true
				}
			}
			if len(idx) == 0 {
				continue
			}
			e := c.run(fn, idx, func(e *Engine, st *State, in ssa.Instruction, i int, what string) {
				if c.mut[fn] == nil {
					c.mut[fn] = map[int]string{}
				}
				if c.mut[fn][i] == "" {
					c.mut[fn][i] = what
					c.changed = true
				}
			})
			if e.over {
				r.engine(e)
			}
		}
		if !c.changed {
			break
		}
	}
	for _, fn := range p.resolvers() {
		idx := map[int]bool{1: true}
		bad := false
		e := c.run(fn, idx, func(e *Engine, st *State, in ssa.Instruction, i int, what string) {
			bad = true
			r.viol("query-unaltered", p.fnName(fn)+"/"+strings.Fields(what)[0], p.iPos(in), "the caller's query is altered: "+p.fnName(in.Parent())+" "+what, st.path())
		})
		r.engine(e)
		if !bad {
			r.ok("query-unaltered", p.fnName(fn))
		}
	}
	n := 0
	for fn, m := range c.mut {
		if len(m) > 0 && fn != nil {
			n++
			r.ok("altering-helper", p.fnName(fn))
		}
	}
	r.atLeast("query-unaltered", 25)
	r.atLeast("altering-helper", 3)
}

// messagePart: a parameter type through which part of a message can be reached.
func messagePart(t types.Type) bool {
	if isMsgPtr(t) || isNamed(t, dnsPath, "OPT") || isNamedT(t, dnsPath, "RR") || isNamedT(t, dnsPath, "EDNS0") {
		return true
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return messagePart(s.Elem()) || isNamedT(s.Elem(), dnsPath, "Question") || types.IsInterface(s.Elem())
	}
	if pt, ok := t.(*types.Pointer); ok {
		if n, ok := types.Unalias(pt.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == dnsPath {
			return true
		}
	}
	return false
}
