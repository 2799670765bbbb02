package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C20: block and allow decisions of the query blocklists.

func init() {
	register("C20", "a blocked query never reaches the upstream it was blocked from",
		runC20,
		"The options named Block.../Allow... of an element hold the lists and alternatives of that kind; its other resolver is the protected upstream")
}

// listMatch: the call asks a list whether it matches. The last result says so.
func listMatch(p *Prog, c *ssa.CallCommon) bool {
	if !c.IsInvoke() || c.Method.Name() != "Match" {
		return false
	}
	for _, n := range []string{"BlocklistDB", "IPBlocklistDB"} {
		if it := p.iface(p.root, n); it != nil && types.Identical(c.Value.Type().Underlying(), it) {
			return true
		}
	}
	return false
}

// lastField names the field a term was read from.
func lastField(t *Term) string {
	for n := 0; t != nil && n < 10; n++ {
		switch t.op {
		case "ld", "mi", "ta", "conv":
			if len(t.args) == 0 {
				return ""
			}
			t = t.args[0]
		case "fa", "vf":
			return t.s
		default:
			return ""
		}
	}
	return ""
}

func listRole(name string) string {
	n := strings.ToLower(name)
	switch {
	case strings.Contains(n, "allow"):
		return "allow"
	case strings.Contains(n, "block"):
		return "block"
	}
	return "upstream"
}

// hasCall: fn itself makes a call satisfying pred.
func hasCall(fn *ssa.Function, pred func(c *ssa.CallCommon) bool) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && pred(c.Common()) {
				return true
			}
		}
	}
	return false
}

// reachesCall: fn or a function it calls makes such a call.
func (p *Prog) reachesCall(fn *ssa.Function, pred func(c *ssa.CallCommon) bool) bool {
	found := false
	p.staticReach(fn, func(g *ssa.Function) bool {
		found = found || hasCall(g, pred)
		return !found
	})
	return found
}

func runC20(p *Prog, r *Report) {
	isMatch := func(c *ssa.CallCommon) bool { return listMatch(p, c) }
	for _, fn := range p.resolvers() {
		if p.reachesCall(fn, isMatch) && !matchesAnswers(p, fn) {
			c20Run(p, r, fn)
		}
	}
	for _, n := range []string{"BlocklistDB", "IPBlocklistDB"} {
		it := p.iface(p.root, n)
		for _, t := range p.implementers(it) {
			fn := p.method(t, "Match")
			if fn != nil && p.reachesCall(fn, isMatch) {
				c20Multi(p, r, fn)
			}
		}
	}
	r.atLeast("element", 2)
	r.atLeast("multi", 2)
}

// matchesAnswers: the element asks its list about answers, not about queries: an upstream's answer
// is there before the list is asked.
func matchesAnswers(p *Prog, fn *ssa.Function) bool {
	answers := true
	e := newEngine(p, nil)
	e.r = &Rule{
		Event: func(f *ssa.Function) bool {
			return hasCall(f, func(c *ssa.CallCommon) bool { return listMatch(p, c) || isResolveCall(c) })
		},
		Call: func(e *Engine, st *State, c *CallEv) []Outcome {
			if isResolveCall(c.C) {
				set(st, "up")
			}
			if listMatch(p, c.C) && !has(st, "up") {
				answers = false
			}
			return nil
		},
	}
	e.run(fn, "", nil)
	return answers
}

func c20Run(p *Prog, r *Report, fn *ssa.Function) {
	name := p.fnName(fn)
	n := 0
	bad := func(e *Engine, st *State, what string, in ssa.Instruction, msg string) {
		r.viol("element", name+":"+what, p.iPos(in), msg, st.path())
	}
	// the element has an allow list at all
	hasAllow := false
	p.staticReach(fn, func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && listRole(fieldName(deref(fa.X.Type()), fa.Field)) == "allow" {
					if _, ok := deref(fa.Type()).Underlying().(*types.Interface); ok && isNamedT(deref(fa.Type()), modPath, "BlocklistDB") {
						hasAllow = true
					}
				}
			}
		}
		return true
	})
	e := newEngine(p, nil)
	e.r = &Rule{
		Event: func(f *ssa.Function) bool {
			return hasCall(f, func(c *ssa.CallCommon) bool { return listMatch(p, c) || isResolveCall(c) })
		},
		Branch: func(e *Engine, st *State, in *ssa.If, atom *Term, val bool) {
			if val && lastField(atom) == "UseECS" {
				set(st, "ecs")
			}
			if atom.op != "bin" || atom.s != "==" || !atom.args[1].isNil() && !atom.args[0].isNil() {
				return
			}
			x := atom.args[0]
			if x.isNil() {
				x = atom.args[1]
			}
			if listRole(lastField(x)) == "allow" && val && isListT(x.typ) {
				set(st, "noallow")
			}
			if x.typ != nil && isNamed(x.typ, "net", "IP") && val && clientOrQuery(e, fn, x) {
				set(st, "noaddr")
			}
		},
		Call: func(e *Engine, st *State, c *CallEv) []Outcome {
			if listMatch(p, c.C) {
				role := listRole(lastField(c.Args[0]))
				n++
				if role == "upstream" {
					bad(e, st, "role", c.In, "a list is asked that is neither the block list nor the allow list of the element")
					return nil
				}
				if !clientOrQuery(e, fn, c.Args[1]) {
					bad(e, st, "subject", c.In, "the list is not asked about this query or its client")
				}
				if !isMsgPtr(c.Args[1].typ) && e.T.readsField(c.Args[1], "Address") && !has(st, "ecs") {
					bad(e, st, "ecs", c.In, "the list is asked about the address in the query's client subnet option although the option to use it is not set")
				}
				res := e.opaque(st, c, c.Args)
				yes, no := st.clone(), st
				ok := res[len(res)-1]
				e.assume(yes, ok, true)
				e.assume(no, ok, false)
				set(yes, role+"+")
				set(no, role+"-")
				yes.note("%s: the %s list matches", p.iPos(c.In), role)
				no.note("%s: the %s list does not match", p.iPos(c.In), role)
				return []Outcome{{yes, res}, {no, res}}
			}
			if isResolveCall(c.C) {
				role := listRole(lastField(c.Args[0]))
				allowed := has(st, "allow+")
				switch role {
				case "upstream":
					switch {
					case allowed, has(st, "block-"):
					case has(st, "block+"):
						bad(e, st, "leak", c.In, "a query on the block list is sent to the protected upstream")
					case has(st, "noaddr"):
					default:
						bad(e, st, "unchecked", c.In, "a query is sent to the protected upstream without having been looked up in the block list")
					}
				case "allow":
					if !allowed {
						bad(e, st, "allowres", c.In, "a query that is not on the allow list is sent to the resolver for allowed queries")
					}
				case "block":
					if allowed {
						bad(e, st, "blockedallowed", c.In, "a query on the allow list is sent to the resolver for blocked queries")
					} else if !has(st, "block+") {
						bad(e, st, "blockres", c.In, "a query that is not on the block list is sent to the resolver for blocked queries")
					}
				}
				set(st, "fwd"+role)
			}
			return nil
		},
		Return: func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			up := has(st, "fwdupstream")
			switch {
			case has(st, "allow+"):
				if !up && !has(st, "fwdallow") {
					bad(e, st, "allowlocal", in, "a query on the allow list is answered here instead of being forwarded")
				}
			case has(st, "block-"):
				if !up {
					bad(e, st, "notforwarded", in, "a query that matches nothing is not forwarded")
				}
			case has(st, "block+"):
				if hasAllow && !has(st, "allow-") && !has(st, "noallow") {
					bad(e, st, "allowlast", in, "a query is blocked without having been looked up in the allow list")
				}
			case has(st, "noaddr"):
				if !up {
					bad(e, st, "notforwarded", in, "a query without a client address is not forwarded")
				}
			}
		},
	}
	e.run(fn, "", nil)
	r.engine(e)
	r.check("element", name, p.pos(fn.Pos()), n > 0 && !e.over, "the list is not reached or the analysis budget was exceeded", nil)
}

func isListT(t types.Type) bool {
	return t != nil && (isNamedT(t, modPath, "BlocklistDB") || isNamedT(t, modPath, "IPBlocklistDB"))
}

// clientOrQuery: the subject of a list lookup is the query itself, the client's address, or (where
// asked for) the address in the query's client subnet option.
func clientOrQuery(e *Engine, fn *ssa.Function, t *Term) bool {
	if isMsgPtr(t.typ) {
		return t.op == "param" || e.T.contains(t, func(x *Term) bool { return x.op == "param" && isMsgPtr(x.typ) })
	}
	return e.T.contains(t, func(x *Term) bool {
		return (x.op == "fa" || x.op == "vf") && (x.s == "SourceIP" || x.s == "Address")
	})
}

// c20Multi: a list of lists matches if one of them does, and says no only when all were asked.
func c20Multi(p *Prog, r *Report, fn *ssa.Function) {
	name := p.fnName(fn)
	e := newEngine(p, nil)
	n := 0
	e.r = &Rule{
		Branch: func(e *Engine, st *State, in *ssa.If, atom *Term, val bool) {
			// the loop over the lists is through
			if in == nil || val {
				return
			}
			if atom.op == "bin" && e.T.contains(atom, func(x *Term) bool { return x.op == "len" }) {
				if l := natLoop(in.Block()); l != nil {
					set(st, "through")
				}
			}
		},
		Call: func(e *Engine, st *State, c *CallEv) []Outcome {
			if !listMatch(p, c.C) {
				return nil
			}
			n++
			res := e.opaque(st, c, c.Args)
			yes, no := st.clone(), st
			ok := res[len(res)-1]
			e.assume(yes, ok, true)
			e.assume(no, ok, false)
			set(yes, "hit")
			yes.note("%s: a list matches", p.iPos(c.In))
			return []Outcome{{yes, res}, {no, res}}
		},
		Return: func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			v, known := e.eval(st, res[len(res)-1])
			switch {
			case !known:
				r.viol("multi", name+":unknown", p.iPos(in), "cannot decide what is reported", st.path())
			case has(st, "hit") && !v:
				r.viol("multi", name+":lost", p.iPos(in), "one of the lists matches and the combined list says no", st.path())
			case !has(st, "hit") && v:
				r.viol("multi", name+":invented", p.iPos(in), "none of the lists matches and the combined list says yes", st.path())
			case !v && !has(st, "through"):
				r.viol("multi", name+":early", p.iPos(in), "the combined list says no before all lists were asked", st.path())
			}
		},
	}
	e.run(fn, "", nil)
	r.engine(e)
	r.check("multi", name, p.pos(fn.Pos()), n > 0 && !e.over, "no list is asked", nil)
}
