package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C21: response blocklists look at every record.

func init() {
	register("C21", "response filters inspect every record before letting an answer through",
		runC21,
		"Addresses are in A and AAAA records; names in CNAME, MX, NS, PTR, SRV, SVCB, HTTPS, TXT and SOA records")
}

var inspected = map[string][]string{
	"IPBlocklistDB": {"A", "AAAA"},
	"BlocklistDB":   {"CNAME", "MX", "NS", "PTR", "SRV", "HTTPS", "TXT", "SVCB", "SOA"},
}

func runC21(p *Prog, r *Report) {
	for _, fn := range p.resolvers() {
		for kind := range inspected {
			it := p.iface(p.root, kind)
			if it == nil {
				continue
			}
			isMatch := func(c *ssa.CallCommon) bool {
				return c.IsInvoke() && c.Method.Name() == "Match" && types.Identical(c.Value.Type().Underlying(), it)
			}
			if p.reachesCall(fn, isMatch) && matchesAnswers(p, fn) {
				c21Run(p, r, fn, kind, isMatch)
			}
		}
	}
	r.atLeast("filter", 2)
}

func c21Run(p *Prog, r *Report, fn *ssa.Function, kind string, isMatch func(*ssa.CallCommon) bool) {
	name := p.fnName(fn)
	want := inspected[kind]
	bad := func(st *State, what string, pos string, msg string) {
		r.viol("filter", name+":"+what, pos, msg, st.path())
	}
	asked := 0
	var upstream func(t *Term) bool
	e := newEngine(p, nil)
	// the answer of the protected upstream, or a part of it
	upstream = func(t *Term) bool {
		return e.T.contains(t, func(x *Term) bool {
			return x.op == "call" && strings.HasSuffix(x.callName(), ").Resolve") && len(x.args) > 0 && listRole(lastField(x.args[0])) == "upstream"
		})
	}
	fresh := func(st *State) {
		for _, f := range flags(st, "i:") {
			unset(st, "i:"+f)
		}
	}
	memo := map[*ssa.BasicBlock]bool{}
	asks := func(head *ssa.BasicBlock) bool {
		if v, ok := memo[head]; ok {
			return v
		}
		for b := range natLoop(head) {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := goTarget(c)
				if isMatch(c.Common()) || f != nil && p.inRepo(f) && p.reachesCall(f, isMatch) {
					memo[head] = true
					return true
				}
			}
		}
		memo[head] = false
		return false
	}
	// endOf judges one round of a loop over records.
	endOf := func(st *State, filters bool, pos string) {
		if !has(st, "i:in") {
			return
		}
		typ, all := "", true
		for _, w := range want {
			if has(st, "i:T"+w) {
				typ = w
			}
			if !has(st, "i:N"+w) {
				all = false
			}
		}
		hit, miss, inv, noinv := has(st, "i:hit"), has(st, "i:miss"), has(st, "inv"), has(st, "noinv")
		off := has(st, "i:off") || hit && noinv || miss && inv
		clean := has(st, "i:clean") || hit && inv || miss && noinv
		kept := has(st, "i:kept")
		switch {
		case typ == "" && !all:
			for _, w := range want {
				if !has(st, "i:N"+w) {
					bad(st, "type:"+w, pos, "a "+w+" record is let through without being looked up in the list")
					break
				}
			}
		case typ != "" && !off && !clean:
			bad(st, "unchecked:"+typ, pos, "a "+typ+" record is let through on this path without having been looked up in the list")
		case off && (!filters || kept):
			bad(st, "passed:"+typ, pos, "an offending "+typ+" record is let through")
		case off, kept, !filters:
		default:
			bad(st, "removed:"+typ, pos, "a record that is not offending is removed")
		}
	}
	e.r = &Rule{
		Unroll: true,
		Event: func(f *ssa.Function) bool {
			return hasCall(f, func(c *ssa.CallCommon) bool { return isMatch(c) || isResolveCall(c) }) || assertsRR(f, want)
		},
		Inline: func(e *Engine, f *ssa.Function) bool { return e.hasEvent(f) },
		Branch: func(e *Engine, st *State, in *ssa.If, atom *Term, val bool) {
			// loops over sections
			if atom.op == "bin" && atom.s == "<" && atom.args[1].op == "len" && in != nil && asks(in.Block()) {
				for _, s := range sectionsOf(e, atom.args[1]) {
					if !upstream(s.msg) {
						continue
					}
					if val {
						fresh(st)
						set(st, "i:in")
					} else {
						set(st, "done:"+s.sec)
						unset(st, "i:in")
					}
				}
				return
			}
			if atom.op == "bin" && atom.s == "==" {
				a, b := atom.args[0], atom.args[1]
				// nothing in the record
				if val && e.T.contains(a, func(x *Term) bool { return x.op == "ta" }) && (b.isNil() && isNamed(a.typ, "net", "IP") || isEmptyString(b)) {
					set(st, "i:clean")
				}
				if k, ok := b.intv(); ok && k == 0 {
					if e.T.readsField(a, "Rcode") && upstream(a) && !val {
						set(st, "failed")
					}
					if a.op == "len" && isRRs(a.args[0].typ) {
						if val {
							for _, s := range sectionsOf(e, a) {
								set(st, "done:"+s.sec)
							}
						} else {
							set(st, "some")
						}
					}
				}
				// matched == Inverted
				if isBool(a.typ) && (matchOK(e, a) && lastField(b) == "Inverted" || matchOK(e, b) && lastField(a) == "Inverted") {
					if val {
						set(st, "i:clean")
					} else {
						set(st, "i:off")
					}
				}
				return
			}
			if lastField(atom) == "Inverted" {
				if val {
					set(st, "inv")
				} else {
					set(st, "noinv")
				}
			}
			if matchOK(e, atom) {
				if val {
					set(st, "i:hit")
				} else {
					set(st, "i:miss")
				}
			}
			for _, w := range want {
				if atom.op == "is" && strings.HasSuffix(atom.s, "/dns."+w) {
					if val {
						set(st, "i:T"+w)
					} else {
						set(st, "i:N"+w)
					}
				}
			}
		},
		Call: func(e *Engine, st *State, c *CallEv) []Outcome {
			if isMatch(c.C) {
				asked++
				ofRecord := func(x *Term) bool { return x.op == "ta" || x.op == "deep" }
				if !isMsgPtr(c.Args[1].typ) && !e.T.contains(c.Args[1], ofRecord) || isMsgPtr(c.Args[1].typ) && !has(st, "i:named") && !e.T.contains(c.Args[1], ofRecord) {
					bad(st, "subject", p.iPos(c.In), "the list is not asked about what is in the record")
				}
				unset(st, "i:hit")
				unset(st, "i:miss")
				st.note("%s: looks up %s", p.iPos(c.In), c.Args[1].String())
			}
			if strings.HasSuffix(c.Name, "/dns.Msg).SetQuestion") && len(c.Args) > 1 && e.T.contains(c.Args[1], func(x *Term) bool { return x.op == "ta" || x.op == "deep" }) {
				set(st, "i:named")
			}
			if isResolveCall(c.C) {
				if listRole(lastField(c.Args[0])) != "upstream" {
					set(st, "alt")
				}
			}
			if bi, ok := c.C.Value.(*ssa.Builtin); ok && bi.Name() == "append" && isRRs(c.C.Args[0].Type()) && has(st, "i:in") {
				set(st, "i:kept")
			}
			return nil
		},
		Instr: func(e *Engine, st *State, in ssa.Instruction) {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && isNamed(fa.X.Type(), dnsPath, "Msg") {
					switch n := fieldName(deref(fa.X.Type()), fa.Field); n {
					case "Answer", "Ns", "Extra":
						if has(st, "done:"+n) {
							set(st, "new:"+n)
						}
					}
				}
			}
		},
		BackEdge: func(e *Engine, st *State, from, head *ssa.BasicBlock) {
			if !asks(head) {
				return
			}
			filters := false
			for b := range natLoop(head) {
				for _, i := range b.Instrs {
					if c, ok := i.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && isRRs(c.Call.Args[0].Type()) {
							filters = true
						}
					}
				}
			}
			if filters {
				set(st, "filtered")
			}
			endOf(st, filters, p.iPos(from.Instrs[len(from.Instrs)-1]))
			fresh(st)
		},
		Return: func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			if isnil, known := e.isNil(st, res[0]); known && isnil {
				return
			}
			if isnil, known := e.isNil(st, res[1]); known && !isnil {
				return
			}
			if !upstream(res[0]) || res[0].op == "alloc" {
				return
			}
			if kind == "IPBlocklistDB" && has(st, "failed") {
				return
			}
			// the answer of the upstream is returned
			pos := p.iPos(in)
			for _, s := range []string{"Answer", "Ns", "Extra"} {
				if !has(st, "done:"+s) {
					bad(st, "section:"+s, pos, "the answer is let through although the records of its "+s+" section were not all looked at")
				} else if has(st, "filtered") && !has(st, "new:"+s) {
					bad(st, "dropped:"+s, pos, "the filtered "+s+" section does not replace the original one")
				}
			}
			if has(st, "filtered") && !has(st, "some") {
				bad(st, "empty", pos, "an answer with nothing left after filtering is returned instead of being blocked")
			}
			if has(st, "i:off") && has(st, "i:in") {
				bad(st, "returned", pos, "the answer is returned although one of its records is on the list")
			}
		},
	}
	e.run(fn, "", nil)
	r.engine(e)
	r.check("filter", name, p.pos(fn.Pos()), asked > 0 && !e.over, "the list is not asked, or the analysis budget was exceeded", nil)
}

func isRRs(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNamedT(s.Elem(), dnsPath, "RR")
}

// matchOK: the term is a list's verdict.
func matchOK(e *Engine, t *Term) bool {
	return t.op == "ext" && len(t.args) == 1 && t.args[0].op == "call" && strings.HasSuffix(t.args[0].callName(), "BlocklistDB).Match") && isBool(t.typ)
}

// assertsRR: fn looks whether a record is of one of the given types.
func assertsRR(fn *ssa.Function, want []string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ta, ok := in.(*ssa.TypeAssert); ok {
				for _, w := range want {
					if isNamed(ta.AssertedType, dnsPath, w) {
						return true
					}
				}
			}
		}
	}
	return false
}

func isEmptyString(t *Term) bool {
	s, ok := t.str()
	return ok && s == ""
}
