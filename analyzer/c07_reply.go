package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C07", `Typestate over every path of every registered handler and every listener goroutine: resolver call, reply (message write, HTTP write or error, stream write), connection close. At the end of each path on which the query was handed to a resolver there is exactly one reply, unless the answer is known missing (dropped) or encoding it is known to have failed; a reply on a path on which the resolver's error is known non-nil must be a message that had the server-failure code set; a reply on the other paths must carry the resolver's answer.`,
		runC07, "the libraries' write functions deliver what they are given")
}

// sfKey names the value of a message for flags.
func sfKey(t *Term) string { return fmt.Sprint(t.id) }

// replyEvents: what a call writes to the client: kind "" (nothing), "msg" (a *dns.Msg), "bytes", "error", "head".
func replyEvent(c *CallEv) (string, *Term) {
	switch c.Name {
	case "(" + dnsPath + ".ResponseWriter).WriteMsg":
		return "msg", c.Args[1]
	case "(" + dnsPath + ".ResponseWriter).Write", "(net/http.ResponseWriter).Write", "(github.com/quic-go/quic-go.Stream).Write", "(github.com/quic-go/quic-go.SendStream).Write":
		return "bytes", c.Args[1]
	case "net/http.Error":
		return "error", nil
	case "(net/http.ResponseWriter).WriteHeader":
		return "head", nil
	}
	return "", nil
}

func runC07(p *Prog, r *Report) {
	dnsH, httpH := p.handlers()
	analyse := func(fn *ssa.Function) {
		rule := handlerRule()
		rule.Keep = keepNil
		reg := newRegs()
		mark := func(e *Engine, st *State, t *Term) {
			set(st, "sf"+sfKey(t))
		}
		rule.Instr = func(e *Engine, st *State, in ssa.Instruction) {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "Rcode" {
					k := sfKey(e.ev(st, fa.X))
					if v, ok := e.ev(st, s.Val).intv(); ok && v == 2 {
						set(st, "sf"+k)
					} else {
						unset(st, "sf"+k)
					}
				}
			}
		}
		reply := func(e *Engine, st *State, in ssa.Instruction, kind string, t *Term) {
			ansT, errT, packErr := reg.get(st, "ans"), reg.get(st, "err"), reg.get(st, "pack")
			if !has(st, "resolved") {
				return
			}
			key := p.fnName(fn)
			if kind == "head" {
				set(st, "head")
				return
			}
			if has(st, "replied") {
				r.viol("one-reply", key+"/second", p.iPos(in), "a second reply is written for the same query", st.path())
				return
			}
			set(st, "replied")
			if kind == "error" {
				// fine only when there is nothing to send: encoding or encrypting failed
				if n, ok := e.isNil(st, errT); ok && !n {
					unenc := false
					if packErr != nil {
						m, ok := e.isNil(st, packErr)
						unenc = ok && !m
					}
					if !unenc && !has(st, "packsf") {
						r.viol("error-is-servfail", key, p.iPos(in), "a resolver error is reported as a transport error instead of a server failure", st.path())
					}
				}
				return
			}
			if t == nil || errT == nil {
				return
			}
			failed, known := e.isNil(st, errT)
			msgIn := func(pred func(*Term) bool) bool {
				if kind == "msg" {
					return pred(t)
				}
				// bytes: derived from an encoded message
				return e.T.contains(t, func(x *Term) bool {
					return x.op == "call" && strings.Contains(x.callName(), "Msg).Pack") && len(x.args) > 0 && pred(x.args[0])
				})
			}
			bytesOpaque := kind == "bytes" && !e.T.contains(t, func(x *Term) bool { return x.op == "call" && strings.Contains(x.callName(), "Msg).Pack") })
			if known && !failed {
				good := msgIn(func(m *Term) bool { return has(st, "sf"+sfKey(m)) })
				if bytesOpaque {
					good = has(st, "packsf")
				}
				r.check("error-is-servfail", key, p.iPos(in), good, "the resolver failed but the reply is not a server failure", st.path())
			} else if known {
				good := msgIn(func(m *Term) bool { return m == ansT || e.T.contains(m, func(x *Term) bool { return x == ansT }) })
				if bytesOpaque {
					good = has(st, "packans")
				}
				r.check("reply-is-answer", key, p.iPos(in), good, fmt.Sprintf("the resolver answered but the reply is something else (%s)", short(t)), st.path())
			} else {
				r.viol("error-unchecked", key, p.iPos(in), "a reply is sent without the resolver's error having been checked", st.path())
			}
		}
		rule.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
			if isResolveCall(c.C) {
				if has(st, "resolved") {
					r.viol("one-resolve", p.fnName(fn), p.iPos(c.In), "the query is handed to the resolver twice", st.path())
				}
				set(st, "resolved")
				res := e.opaque(st, c, c.Args)
				reg.put(st, "ans", res[0])
				reg.put(st, "err", res[1])
				return []Outcome{{st, res}}
			}
			switch c.Name {
			case "(" + dnsPath + ".Msg).SetRcode":
				if v, ok := c.Args[2].intv(); ok && v == 2 {
					mark(e, st, c.Args[0])
				} else {
					unset(st, "sf"+sfKey(c.Args[0]))
				}
				return []Outcome{{st, []*Term{c.Args[0]}}}
			case "(" + dnsPath + ".Msg).Pack", "(" + dnsPath + ".Msg).PackBuffer":
				res := e.opaque(st, c, c.Args)
				reg.put(st, "pack", res[1])
				unset(st, "packsf")
				unset(st, "packans")
				if has(st, "sf"+sfKey(c.Args[0])) {
					set(st, "packsf")
				}
				if reg.get(st, "ans") == c.Args[0] {
					set(st, "packans")
				}
				return []Outcome{{st, res}}
			}
			if k, t := replyEvent(c); k != "" && c.Kind != "go" {
				reply(e, st, c.In, k, t)
				return nil
			}
			// a response writer handed to something else writes the reply there
			if c.Fn == nil || !e.wantInline(c.Fn) {
				for _, a := range c.Args {
					x := a
					for x.op == "mi" {
						x = x.args[0]
					}
					if x.typ != nil && isNamed(x.typ, "net/http", "ResponseWriter") && c.Name != "net/http.MaxBytesReader" && !c.C.IsInvoke() {
						reply(e, st, c.In, "bytes", nil)
					}
				}
			}
			return nil
		}
		rule.Pins = reg.pins
		end := func(e *Engine, st *State, pos string) {
			if !has(st, "resolved") {
				return
			}
			ansT, errT, packErr := reg.get(st, "ans"), reg.get(st, "err"), reg.get(st, "pack")
			key := p.fnName(fn)
			if has(st, "replied") {
				if n, ok := e.isNil(st, errT); ok && n {
					if m, ok := e.isNil(st, ansT); ok && m {
						r.viol("drop-is-silent", key, pos, "a reply with content is sent for a dropped query", st.path())
						return
					}
				}
				r.ok("one-reply", key)
				return
			}
			if n, ok := e.isNil(st, ansT); ok && n {
				if f, ok := e.isNil(st, errT); !ok || f {
					r.ok("drop", key)
					return
				}
			}
			if packErr != nil {
				if n, ok := e.isNil(st, packErr); ok && !n {
					r.ok("unencodable", key)
					return
				}
			}
			r.viol("one-reply", key+"/none", pos, "a path ends without a reply although the query was neither dropped nor unencodable", st.path())
		}
		rule.Return = func(e *Engine, st *State, in *ssa.Return, res []*Term) { end(e, st, p.iPos(in)) }
		rule.GoEnd = func(e *Engine, st *State, in *ssa.Go) { end(e, st, p.iPos(in)) }
		e := newEngine(p, rule)
		e.run(fn, "", nil)
		r.engine(e)
		r.ok("entry", p.fnName(fn))
	}
	for _, fn := range append(append(append([]*ssa.Function{}, dnsH...), httpH...), p.startMethods()...) {
		analyse(fn)
	}
	r.atLeast("one-reply", 4)
	r.atLeast("error-is-servfail", 4)
	r.atLeast("reply-is-answer", 4)
	r.atLeast("drop", 4)
}
