package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C04", `Must-pass-through dataflow over the Resolve method of every upstream client (those that decode messages from the wire or use a connection pipeline). At each return with a message and without a known error the path must have passed the branch facts "names equal ignoring case", "types equal" and "classes equal" between the question of the query and the question of the response (or the query has no question), and the returned message's ID must hold the value read from the query's ID. Where the response is handed over through a request object, every function that stores it there must restore the ID from the request's query.`,
		runC04, "dns.Msg.Copy preserves ID and question")
}

// questionOf: the message whose question section a term reads.
func questionOf(e *Engine, t *Term) *Term {
	var m *Term
	e.T.walk(t, func(x *Term) bool {
		if x.op == "fa" && x.s == "Question" {
			m = rootOf(x)
		}
		return m == nil
	})
	return m
}

func stripCase(t *Term) *Term {
	for t.op == "call" && len(t.args) == 1 {
		switch t.callName() {
		case "strings.ToLower", "strings.ToUpper", dnsPath + ".CanonicalName", dnsPath + ".Fqdn":
			t = t.args[0]
			continue
		}
		break
	}
	return t
}

// copyOf: t is the message m or a copy (of a copy ...) of it.
func copyOf(e *Engine, t *Term, pred func(*Term) bool) bool {
	for i := 0; i < 8; i++ {
		if pred(t) {
			return true
		}
		if t.op == "call" && t.callName() == "("+dnsPath+".Msg).Copy" {
			t = t.args[0]
			continue
		}
		if t.op == "phi" || t.op == "merge" {
			for x := range e.T.phiIn[t] {
				if !copyOf(e, x, pred) {
					return false
				}
			}
			return len(e.T.phiIn[t]) > 0
		}
		return false
	}
	return false
}

// idOf: current value of a message's ID.
func idOf(e *Engine, st *State, m *Term) *Term {
	return e.load(st, e.fa(e.fa(m, "MsgHdr", nil), "Id", nil), types.Typ[types.Uint16])
}

// readsID: t is the ID read from a message; returns the message.
func readsID(t *Term) *Term {
	if t.op == "ld" && t.args[0].op == "fa" && t.args[0].s == "Id" {
		return rootOf(t.args[0])
	}
	return nil
}

func runC04(p *Prog, r *Report) {
	type field struct{ owner, name string }
	via := map[field]bool{}
	for _, fn := range p.resolvers() {
		client := p.reachesName(fn, "("+dnsPath+".Msg).Unpack")
		for g := range p.staticSet(fn) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && p.isPipelineSend(c.Common().StaticCallee()) {
						client = true
					}
				}
			}
		}
		if !client {
			continue
		}
		rule := handlerRule()
		rule.FollowGo = false
		rule.Branch = func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
			if !val {
				return
			}
			var x, y *Term
			switch {
			case a.op == "call" && a.callName() == "strings.EqualFold":
				x, y = a.args[0], a.args[1]
			case a.op == "bin" && a.s == "==":
				x, y = stripCase(a.args[0]), stripCase(a.args[1])
			default:
				return
			}
			if x.op == "len" {
				if k, ok := y.intv(); ok && k == 0 && questionOf(e, x) != nil {
					set(st, "noquestion"+sfKey(questionOf(e, x)))
				}
				return
			}
			for _, f := range []string{"Name", "Qtype", "Qclass"} {
				if x.isField(f) && y.isField(f) {
					mx, my := questionOf(e, x), questionOf(e, y)
					if mx != nil && my != nil && mx != my {
						set(st, f)
					}
				}
			}
			// whole questions compared at once
			if isNamed(x.typ, dnsPath, "Question") && isNamed(y.typ, dnsPath, "Question") {
				for _, f := range []string{"Name", "Qtype", "Qclass"} {
					set(st, f)
				}
			}
		}
		rule.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
			if p.isPipelineSend(c.Fn) {
				q := c.Args[1]
				m := readsID(idOf(e, st, q))
				r.check("id-kept", p.fnName(fn), p.iPos(c.In), m == q && copyOf(e, q, func(t *Term) bool { return t.op == "param" }), "the query given to the connection does not carry the caller's ID, so the response will not either", st.path())
			}
			return nil
		}
		rule.Return = func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			a, err := res[0], res[1]
			key := p.fnName(fn)
			if n, ok := e.isNil(st, err); ok && !n {
				return
			}
			if n, ok := e.isNil(st, a); ok && n {
				return
			}
			var missing []string
			noq := false
			for _, f := range flags(st, "noquestion") {
				_ = f
				noq = true
			}
			// a missing question excuses only when it is the query's: the response is the other message
			if noq && has(st, "noquestion"+sfKey(a)) && len(flags(st, "noquestion")) == 1 {
				noq = false
			}
			for _, f := range []string{"Name", "Qtype", "Qclass"} {
				if !has(st, f) && !noq {
					missing = append(missing, f)
				}
			}
			r.check("question-checked", key, p.iPos(in), len(missing) == 0, fmt.Sprintf("a response is returned although its question's %s was not compared with the query's", strings.Join(missing, ", ")), st.path())
			if a.op == "ld" && a.args[0].op == "fa" && a.args[0].args[0].typ != nil && !isNamed(deref(a.args[0].args[0].typ), dnsPath, "Msg") {
				via[field{ownerName(a.args[0].args[0].typ), a.args[0].s}] = true
				r.ok("id-through-request", key)
				return
			}
			m := readsID(idOf(e, st, a))
			good := m != nil && m != a && copyOf(e, m, func(t *Term) bool { return t.op == "param" })
			r.check("id-restored", key, p.iPos(in), good, "a response is returned that does not carry the query's ID", st.path())
		}
		e := newEngine(p, rule)
		e.run(fn, "", nil)
		r.engine(e)
	}
	// responses handed over through a request object
	for _, fn := range p.funcs {
		touches := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && via[field{ownerName(fa.X.Type()), fieldName(fa.X.Type(), fa.Field)}] && isMsgPtr(s.Val.Type()) {
						touches = true
					}
				}
			}
		}
		if !touches {
			continue
		}
		rule := &Rule{}
		reg := newRegs()
		rule.Pins = reg.pins
		rule.Instr = func(e *Engine, st *State, in ssa.Instruction) {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && via[field{ownerName(fa.X.Type()), fieldName(fa.X.Type(), fa.Field)}] && isMsgPtr(s.Val.Type()) {
					reg.put(st, "v", e.ev(st, s.Val))
					reg.put(st, "x", e.ev(st, fa.X))
				}
			}
		}
		rule.Return = func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			v, x := reg.get(st, "v"), reg.get(st, "x")
			if v == nil {
				return
			}
			if n, ok := e.isNil(st, v); ok && n {
				r.ok("id-restored", p.fnName(fn)+"/none")
				return
			}
			m := readsID(idOf(e, st, v))
			good := m != nil && m != v && e.T.contains(m, func(t *Term) bool { return t == x })
			r.check("id-restored", p.fnName(fn), p.iPos(in), good, "a response is handed over without the query's ID having been restored in it", st.path())
		}
		e := newEngine(p, rule)
		e.run(fn, "", nil)
		r.engine(e)
	}
	r.atLeast("question-checked", 6)
	r.atLeast("id-restored", 4)
	r.atLeast("id-through-request", 1)
}
