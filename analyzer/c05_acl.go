package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C05", `Must-pass-through typestate over every registered DNS/HTTP handler and every listener's Start (goroutines followed). A path becomes "allowed" only by the branch facts "the allowed-network list is empty" or "an element of the list contains an address derived from the peer's remote address". Sinks: resolver calls, outgoing HTTP requests, delegated handlers, response data that is not an encoded DNS message. A sink on a path that is not allowed is a violation. Further: every function taking a network list is given one that derives from the AllowedNet option, and every listener options literal carries the common listen options.`,
		runC05, "the net/http, quic and dns servers report the peer's address in RemoteAddr")
	register("C06", `Provenance dataflow over every registered handler. Every address that becomes the client's identity (ClientInfo.SourceIP, or the address given to an access check) must derive from the network peer; when it derives from a request header the path must have passed a branch on which the trusted-proxy network contains the peer's address, and the address must be known to have parsed.`,
		runC06)
}

func peerTerm(e *Engine, t *Term) bool {
	return e.T.readsField(t, "RemoteAddr") || e.T.callsTo(t, ").RemoteAddr")
}

func headerTerm(e *Engine, t *Term) bool {
	return e.T.contains(t, func(x *Term) bool {
		if x.op == "call" && pkgOf(x.callName()) == "net/http" && strings.Contains(x.callName(), "Header).") {
			return true
		}
		return x.typ != nil && isNamed(x.typ, "net/http", "Header")
	})
}

// containsCall: atom is (net.IPNet).Contains(n, ip)
func containsCall(a *Term) (n, ip *Term, ok bool) {
	if a.op == "call" && a.callName() == "(net.IPNet).Contains" && len(a.args) == 2 {
		return a.args[0], a.args[1], true
	}
	return nil, nil, false
}

func fromNetList(e *Engine, n *Term) bool {
	return e.T.contains(n, func(x *Term) bool { return isIPNetList(x.typ) })
}

func emptyListFact(e *Engine, a *Term, val bool) bool {
	if a.op != "bin" || a.s != "==" || !val {
		return false
	}
	x, y := a.args[0], a.args[1]
	if x.op == "len" && isIPNetList(x.args[0].typ) {
		k, ok := y.intv()
		return ok && k == 0
	}
	return y.isNil() && isIPNetList(x.typ)
}

// handlerRule: inline everything small enough in listeners; resolver calls stay opaque.
func handlerRule() *Rule {
	r := &Rule{FollowGo: true}
	r.Inline = func(e *Engine, f *ssa.Function) bool {
		if f.Name() == "Resolve" && isResolveSig(f.Signature) {
			return false
		}
		return e.getInfo(f).size < 1200
	}
	return r
}

func runC05(p *Prog, r *Report) {
	dnsH, httpH := p.handlers()
	analyse := func(fn *ssa.Function, kind string) {
		rule := handlerRule()
		hasW := func(c *CallEv, t *Term) bool { return t.typ != nil && isNamed(t.typ, "net/http", "ResponseWriter") }
		sink := func(e *Engine, st *State, in ssa.Instruction, what string) {
			key := p.fnName(fn) + "/" + what
			r.check("acl-before-"+strings.Fields(what)[0], key, p.iPos(in), has(st, "allowed"),
				fmt.Sprintf("%s without the client's address having been checked against the allowed networks (handler %s)", what, p.fnName(fn)), st.path())
		}
		rule.Branch = func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
			if emptyListFact(e, a, val) {
				set(st, "allowed")
			}
			if n, ip, ok := containsCall(a); ok && val && fromNetList(e, n) && (peerTerm(e, ip) || headerTerm(e, ip)) {
				set(st, "allowed")
			}
		}
		rule.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
			if isResolveCall(c.C) {
				sink(e, st, c.In, "resolve")
				return nil
			}
			switch {
			case c.Name == "(net.IPNet).Contains" && len(c.Args) == 2 && c.Args[1].isNil():
				return []Outcome{{st, []*Term{e.T.boolT(false)}}} // no network contains a missing address
			case kind != "http":
			case strings.HasPrefix(c.Name, "(net/http.Client)."):
				sink(e, st, c.In, "proxy request "+c.Name)
			case c.Fn != nil && e.wantInline(c.Fn):
			case c.Name == "(net/http.ResponseWriter).Write":
				if !e.T.callsTo(c.Args[1], ".Msg).Pack") && !e.T.callsTo(c.Args[1], ".Msg).PackBuffer") {
					sink(e, st, c.In, "data write")
				}
			case c.Name == "net/http.Error" || c.Name == "net/http.MaxBytesReader" || strings.HasPrefix(c.Name, "(net/http.ResponseWriter)."):
			default:
				for _, a := range c.Args {
					x := a
					for x.op == "mi" {
						x = x.args[0]
					}
					if hasW(c, x) && !e.p.inRepoName(c) {
						sink(e, st, c.In, "delegate to "+c.Name)
					}
				}
			}
			return nil
		}
		e := newEngine(p, rule)
		e.run(fn, "", nil)
		r.engine(e)
		r.ok("entry", kind+" "+p.fnName(fn))
	}
	for _, fn := range dnsH {
		analyse(fn, "dns")
	}
	for _, fn := range httpH {
		analyse(fn, "http")
	}
	for _, fn := range p.startMethods() {
		analyse(fn, "start")
	}
	// the list that reaches the check is the configured one
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || !p.inRepo(g) {
					continue
				}
				for _, a := range c.Common().Args {
					if !isIPNetList(a.Type()) {
						continue
					}
					good := p.fromField(a, "AllowedNet")
					if pr := paramOf(a); pr != nil {
						good = true
					}
					r.check("acl-list", p.fnName(fn)+" -> "+p.fnName(g), p.iPos(in), good, "a network list that does not come from the AllowedNet option is used for access control", nil)
				}
			}
		}
	}
	p.optionLiterals(r)
	r.atLeast("acl-before-resolve", 4)
	r.atLeast("entry", 5)
	r.atLeast("acl-list", 5)
	r.atLeast("listen-options", 5)
}

func (p *Prog) inRepoName(c *CallEv) bool { return c.Fn != nil && p.inRepo(c.Fn) }

// paramOf returns the parameter or captured parameter v is, if any.
func paramOf(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.Parameter:
		return x
	case *ssa.UnOp:
		return paramOf(x.X)
	case *ssa.FreeVar:
		return x
	}
	return nil
}

// optionLiterals: every literal of a listener options type passes on the common listen options, and
// every literal of the common options carries the access list.
func (p *Prog) optionLiterals(r *Report) {
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				t := deref(al.Type())
				s, ok := t.Underlying().(*types.Struct)
				n, named := types.Unalias(t).(*types.Named)
				if !ok || !named || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
					continue
				}
				field := ""
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == "ListenOptions" && s.Field(i).Embedded() || s.Field(i).Name() == "AllowedNet" && isIPNetList(s.Field(i).Type()) {
						field = s.Field(i).Name()
					}
				}
				if field == "" {
					continue
				}
				whole, set, any := false, false, false
				var val ssa.Value
				for _, ref := range *al.Referrers() {
					switch x := ref.(type) {
					case *ssa.Store:
						if x.Addr == al {
							whole = true
						}
					case *ssa.FieldAddr:
						for _, rr := range *x.Referrers() {
							if st, ok := rr.(*ssa.Store); ok && st.Addr == x {
								any = true
								if fieldName(x.X.Type(), x.Field) == field {
									set = true
									val = st.Val
								}
							}
							if fa, ok := rr.(*ssa.FieldAddr); ok && fieldName(x.X.Type(), x.Field) == field {
								// the embedded options are filled in place
								for _, r3 := range *fa.Referrers() {
									if st, ok := r3.(*ssa.Store); ok && st.Addr == fa && fieldName(fa.X.Type(), fa.Field) == "AllowedNet" {
										any, set, val = true, true, st.Val
									}
								}
								any = true
							}
						}
					}
				}
				if whole || !any {
					continue
				}
				good := set
				if set && field == "AllowedNet" {
					good = p.fromField(val, "AllowedNet")
				}
				r.check("listen-options", p.fnName(fn)+": "+n.Obj().Name(), p.iPos(in), good, "listener options are built without the configured access list", nil)
			}
		}
	}
}

func runC06(p *Prog, r *Report) {
	dnsH, httpH := p.handlers()
	analyse := func(fn *ssa.Function, kind string) {
		rule := handlerRule()
		ident := func(e *Engine, st *State, in ssa.Instruction, t *Term, what string) {
			if t.isNil() {
				r.ok("identity", p.fnName(fn)+"/"+what+" (none)")
				return
			}
			key := p.fnName(fn) + "/" + what
			if headerTerm(e, t) {
				nilv, known := e.isNil(st, t)
				switch {
				case !has(st, "trusted"):
					r.viol("header-trust", key, p.iPos(in), fmt.Sprintf("%s comes from a request header although the peer was not found in the trusted-proxy network", what), st.path())
				case !known || nilv:
					r.viol("header-parse", key, p.iPos(in), fmt.Sprintf("%s comes from a request header that may not have parsed as an address", what), st.path())
				default:
					r.ok("header-trust", key)
				}
				return
			}
			r.check("identity", key, p.iPos(in), peerTerm(e, t), fmt.Sprintf("%s does not derive from the network peer's address (%s)", what, short(t)), st.path())
		}
		rule.Branch = func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
			if n, ip, ok := containsCall(a); ok && val && !fromNetList(e, n) && !headerTerm(e, n) && peerTerm(e, ip) && !headerTerm(e, ip) {
				set(st, "trusted")
			}
			if a.op == "call" && a.callName() == "(net.IPNet).Contains" {
				if n, ip, _ := containsCall(a); fromNetList(e, n) {
					ident(e, st, in, ip, "address used for access control")
				}
			}
		}
		rule.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
			if c.Name == "(net.IPNet).Contains" && len(c.Args) == 2 && c.Args[1].isNil() {
				return []Outcome{{st, []*Term{e.T.boolT(false)}}}
			}
			if isResolveCall(c.C) && len(c.Args) > queryArg(c.C, c.Args)+1 {
				ci := c.Args[queryArg(c.C, c.Args)+1]
				if isNamed(ci.typ, modPath, "ClientInfo") || ci.op == "mkstruct" {
					ident(e, st, c.In, e.vf(st, ci, "SourceIP", nil), "ClientInfo.SourceIP")
				}
			}
			return nil
		}
		e := newEngine(p, rule)
		e.run(fn, "", nil)
		r.engine(e)
	}
	for _, fn := range dnsH {
		analyse(fn, "dns")
	}
	for _, fn := range httpH {
		analyse(fn, "http")
	}
	for _, fn := range p.startMethods() {
		analyse(fn, "start")
	}
	r.atLeast("identity", 4)
	r.atLeast("header-trust", 1)
}
