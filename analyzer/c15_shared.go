package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", `Ownership dataflow. Every message returned by an element or by a cache backend's Lookup is traced: it may come from an upstream call, be built on the spot or be a copy, but neither it nor any record or list of records in it may be read from the element's own state, a package variable or a shared table without a copying call in between; and a message that was put into such a place on the path may only be returned as a copy. A backend's Store keeps neither the query nor the message: nothing it stores, sends or hands to a goroutine is one of them.`,
		runC15, "dns.Msg.Copy and dns.Copy return independent records")
}

// msgPiece: the type is a message, a record or a list of records.
func msgPiece(t types.Type) bool {
	if t == nil {
		return false
	}
	if isMsgPtr(t) || isNamedT(t, dnsPath, "RR") {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return msgPiece(u.Elem())
	case *types.Pointer:
		return implementsRR(t)
	}
	return false
}

func implementsRR(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != dnsPath {
		return false
	}
	s, ok := n.Underlying().(*types.Struct)
	return ok && s.NumFields() > 0 && s.Field(0).Name() == "Hdr"
}

func copyingCall(n string) bool {
	switch n {
	case dnsPath + ".Copy", "(" + dnsPath + ".Msg).Copy", "(*" + dnsPath + ".Msg).Copy", "(" + dnsPath + ".Msg).CopyTo", dnsPath + ".NewRR":
		return true
	}
	return false
}

// sharedRoot: the address or value belongs to state that outlives the call.
func sharedRoot(t *Term, recv string) bool {
	for {
		switch t.op {
		case "fa", "ia", "vf", "vi", "ld", "ext", "ta", "mi":
			t = t.args[0]
		case "param":
			return t.s == recv
		case "global":
			return true
		case "lookup":
			return sharedRoot(t.args[0], recv)
		default:
			return false
		}
	}
}

// sharedPiece finds a part of t that is kept elsewhere and not copied.
func sharedPiece(e *Engine, st *State, t *Term, recv string) *Term {
	seen := map[*Term]bool{}
	var found *Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || found != nil || seen[t] {
			return
		}
		seen[t] = true
		if (t.op == "ld" || t.op == "vf" || t.op == "ext" || t.op == "lookup" || t.op == "ta") && msgPiece(t.typ) && sharedRoot(t, recv) {
			found = t
			return
		}
		if t.op == "ld" && msgPiece(t.typ) && has(st, fmt.Sprintf("kept:%d", rootOf(t.args[0]).id)) {
			found = t
			return
		}
		switch t.op {
		case "call":
			return // results of calls are the callee's to account for
		case "ext":
			if t.args[0].op == "call" {
				return
			}
		case "phi":
			for in := range e.T.phiIn[t] {
				rec(in)
			}
		case "alloc":
			for a, v := range st.mem {
				if rootOf(a) == t {
					rec(v)
				}
			}
		case "len", "bin", "not", "is", "conv", "cap":
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return found
}

func runC15(p *Prog, r *Report) {
	it := p.iface(p.root, "CacheBackend")
	for _, fn := range p.resolvers() {
		c15Run(p, r, fn)
	}
	if it != nil {
		for _, t := range p.implementers(it) {
			if f := p.method(t, "Lookup"); f != nil && p.inRepo(f) {
				c15Run(p, r, f)
			}
			if f := p.method(t, "Store"); f != nil && p.inRepo(f) {
				c15Store(p, r, f)
			}
		}
	}
	r.atLeast("own-answer", 20)
	r.atLeast("not-kept", 2)
}

func c15Run(p *Prog, r *Report, fn *ssa.Function) {
	name := p.fnName(fn)
	recv := ""
	if fn.Signature.Recv() != nil {
		recv = fn.Params[0].Name() + "@" + name
	}
	rule := &Rule{Unroll: true}
	rule.Inline = func(e *Engine, f *ssa.Function) bool {
		if f.Name() == "Resolve" && isResolveSig(f.Signature) || f.Name() == "logger" || len(e.stack) > 3 {
			return false
		}
		if e.getInfo(f).size > 250 {
			return false
		}
		return c15Relevant(f)
	}
	rule.Keep = func(e *Engine, a *Term) bool { return a.op == "bin" && a.s == "==" && a.args[1].isNil() }
	keep := func(st *State, t *Term) {
		if t.op == "ext" && isMsgPtr(t.typ) || t.op == "alloc" && isMsgPtr(t.typ) || t.op == "call" && isMsgPtr(t.typ) {
			set(st, fmt.Sprintf("kept:%d", t.id))
		}
	}
	publish := func(e *Engine, st *State, t *Term) {
		for t.op == "mi" {
			t = t.args[0]
		}
		keep(st, t)
		if t.op == "alloc" && !isMsgPtr(t.typ) {
			set(st, fmt.Sprintf("pub:%d", t.id))
			for a, v := range st.mem {
				if rootOf(a) == t {
					keep(st, v)
				}
			}
		}
	}
	rule.Instr = func(e *Engine, st *State, in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			a, v := e.ev(st, x.Addr), e.ev(st, x.Val)
			ra := rootOf(a)
			if sharedRoot(a, recv) || ra.op == "alloc" && has(st, fmt.Sprintf("pub:%d", ra.id)) {
				publish(e, st, v)
			}
		case *ssa.MapUpdate:
			if m := e.ev(st, x.Map); sharedRoot(m, recv) {
				publish(e, st, e.ev(st, x.Value))
			}
		}
	}
	rule.Return = func(e *Engine, st *State, in *ssa.Return, res []*Term) {
		if len(res) == 0 || !isMsgPtr(res[0].typ) && !res[0].isNil() {
			return
		}
		m := res[0]
		if n, ok := e.isNil(st, m); ok && n {
			return
		}
		pos := p.iPos(in)
		r.ok("own-answer", name)
		if has(st, fmt.Sprintf("kept:%d", m.id)) {
			r.viol("own-answer", name+"/kept", pos, "the answer returned is also kept where others read it", st.path())
		}
		if x := sharedPiece(e, st, m, recv); x != nil {
			r.viol("own-answer", name+"/shared", pos, "the answer contains something that is kept and handed to others: "+short(x), st.path())
		}
	}
	e := newEngine(p, rule)
	e.run(fn, "", nil)
	r.engine(e)
}

// c15Relevant: the function handles messages or records.
func c15Relevant(f *ssa.Function) bool {
	ts := []*types.Tuple{f.Signature.Params(), f.Signature.Results()}
	for _, tup := range ts {
		for i := 0; i < tup.Len(); i++ {
			if msgPiece(tup.At(i).Type()) {
				return true
			}
		}
	}
	for _, v := range f.FreeVars {
		if pt, ok := v.Type().Underlying().(*types.Pointer); ok && msgPiece(pt.Elem()) || msgPiece(v.Type()) {
			return true
		}
	}
	return false
}

func c15Store(p *Prog, r *Report, fn *ssa.Function) {
	name := p.fnName(fn)
	given := map[string]bool{}
	for _, prm := range fn.Params[1:] {
		given[prm.Name()+"@"+name] = true
	}
	recv := fn.Params[0].Name() + "@" + name
	// alias: the term is one of the arguments or a piece of the message in them
	alias := func(t *Term) bool {
		for t.op == "mi" {
			t = t.args[0]
		}
		if t.op == "param" {
			return given[t.s]
		}
		if t.op != "ld" && t.op != "vf" || t.typ == nil {
			return false
		}
		switch t.typ.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Interface, *types.Map:
		default:
			return false
		}
		x := t
		for x.op == "ld" || x.op == "fa" || x.op == "ia" || x.op == "vf" || x.op == "vi" {
			x = x.args[0]
		}
		return x.op == "param" && given[x.s]
	}
	var holds func(e *Engine, st *State, t *Term, d int) bool
	holds = func(e *Engine, st *State, t *Term, d int) bool {
		if alias(t) {
			return true
		}
		if d > 4 {
			return false
		}
		switch t.op {
		case "mkstruct", "mi", "append", "slice", "closure":
			for _, a := range t.args {
				if a != nil && holds(e, st, a, d+1) {
					return true
				}
			}
		case "alloc":
			for a, v := range st.mem {
				if rootOf(a) == t && holds(e, st, v, d+1) {
					return true
				}
			}
		}
		return false
	}
	rule := &Rule{FollowGo: true}
	rule.Inline = func(e *Engine, f *ssa.Function) bool { return e.getInfo(f).size < 200 && len(e.stack) < 5 }
	rule.Keep = func(e *Engine, a *Term) bool { return a.op == "bin" && a.s == "==" && a.args[1].isNil() }
	rule.Instr = func(e *Engine, st *State, in ssa.Instruction) {
		bad := func(v ssa.Value) {
			t := e.ev(st, v)
			r.check("not-kept", name, p.iPos(in), !holds(e, st, t, 0), "the caller's query or message is kept after Store returns", st.path())
		}
		switch x := in.(type) {
		case *ssa.Store:
			if a := e.ev(st, x.Addr); rootOf(a).op != "alloc" && rootOf(a).op != "param" || sharedRoot(a, recv) {
				bad(x.Val)
			}
		case *ssa.MapUpdate:
			bad(x.Value)
			bad(x.Key)
		case *ssa.Send:
			bad(x.X)
		case *ssa.Go:
			for _, a := range x.Call.Args {
				bad(a)
			}
			if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
				for _, b := range mc.Bindings {
					bad(b)
				}
			}
			r.ok("not-kept", name)
		}
	}
	e := newEngine(p, rule)
	e.run(fn, "", nil)
	r.engine(e)
	r.ok("not-kept", name)
}
