package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C08", `Constant propagation plus typestate. Every listener constructor that installs a DNS handler is followed with each transport name it accepts bound to its network parameter; the installed handler is followed in the resulting state, so branches on the transport are decided. On every path to the reply the message must have been truncated to the size advertised in the query (512 without EDNS) when the transport is a datagram transport, not lengthened afterwards, and not truncated otherwise. HTTP and QUIC handlers are checked for the absence of truncation.`,
		runC08, "dns.Msg.Truncate cuts to the given size and sets the flag")
	register("C09", `Typestate: message values are padded or stripped by the functions that set or remove the EDNS padding option (recognised by their effect). Sinks: replies in handlers (per transport, see C08), HTTP bodies that are an encoded message, messages given to a connection pipeline or encoded for HTTP by a client. A sink whose message did not pass the step its transport requires is a violation; the padding functions themselves are checked to take effect on every path on which the peer uses EDNS.`,
		runC09)
	register("C10", `Typestate over listener goroutines, HTTP handlers and client Resolve methods. A path is replay-safe after a branch fact "opcode is QUERY or NOTIFY" for that message, after waiting for the connection's handshake, or when the TLS state says the handshake is complete. Sinks: resolver calls in QUIC and HTTP/3 capable listeners, opening a stream on a connection dialled early, building a request with an early-data method.`,
		runC10, "quic-go and http3 send nothing but MethodGet0RTT/MethodHead0RTT requests and stream data as early data")
}

// ---------------------------------------------------------------------------------------------
// Transports

type transport struct {
	name      string
	datagram  bool
	encrypted bool
}

// structHas: a struct type (through pointers and nested structs of this repository) has a field satisfying f.
func structHas(t types.Type, f func(*types.Var) bool) bool {
	seen := map[types.Type]bool{}
	var rec func(t types.Type, d int) bool
	rec = func(t types.Type, d int) bool {
		t = deref(t)
		s, ok := t.Underlying().(*types.Struct)
		if !ok || seen[t] || d > 3 {
			return false
		}
		if n, ok := types.Unalias(t).(*types.Named); ok && (n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath)) {
			return false
		}
		seen[t] = true
		for i := 0; i < s.NumFields(); i++ {
			if f(s.Field(i)) || rec(s.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	return rec(t, 0)
}

func hasFieldType(t types.Type, pkgPrefix, name string) bool {
	return structHas(t, func(v *types.Var) bool {
		pt, ok := types.Unalias(v.Type()).(*types.Pointer)
		if !ok {
			return false
		}
		n, ok := types.Unalias(pt.Elem()).(*types.Named)
		return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), pkgPrefix)
	})
}

// security of a constructor's options: "dtls", "tls" or "".
func optionSecurity(fn *ssa.Function) string {
	for _, pr := range fn.Params {
		if hasFieldType(pr.Type(), "github.com/pion/dtls", "Config") {
			return "dtls"
		}
	}
	for _, pr := range fn.Params {
		if hasFieldType(pr.Type(), "crypto/tls", "Config") {
			return "tls"
		}
	}
	return ""
}

func isServerField(fa *ssa.FieldAddr, name string) bool {
	return isNamed(deref(fa.X.Type()), dnsPath, "Server") && fieldName(fa.X.Type(), fa.Field) == name
}

// dnsConstructors: package-level functions that (with helpers) install a handler in a dns.Server.
func (p *Prog) dnsConstructors() []*ssa.Function {
	installs := map[*ssa.Function]bool{}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && isServerField(fa, "Handler") {
						installs[fn] = true
					}
				}
			}
		}
	}
	var out []*ssa.Function
	for _, fn := range p.funcs {
		if fn.Parent() != nil || fn.Signature.Recv() != nil || fn.Pkg != p.root || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		found := false
		p.staticReach(fn, func(f *ssa.Function) bool {
			if installs[f] {
				found = true
			}
			return !found
		})
		if found {
			out = append(out, fn)
		}
	}
	return out
}

// eachDNSHandler follows every constructor and, in its state, the handler it installs.
func eachDNSHandler(p *Prog, r *Report, mk func(ctor *ssa.Function, tr transport, inHandler *bool) *Rule) {
	n := 0
	for _, ctor := range p.dnsConstructors() {
		var params []int
		{
			// which parameter is the network name
			rule := &Rule{}
			found := map[string]bool{}
			rule.Instr = func(e *Engine, st *State, in ssa.Instruction) {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && isServerField(fa, "Net") {
						e.T.walk(e.ev(st, s.Val), func(x *Term) bool {
							if x.op == "param" {
								found[x.s] = true
							}
							return true
						})
					}
				}
			}
			e := newEngine(p, rule)
			e.run(ctor, "", nil)
			for i, pr := range ctor.Params {
				if found[pr.Name()+"@"+p.fnName(ctor)] {
					params = append(params, i)
				}
			}
		}
		var trs []transport
		switch optionSecurity(ctor) {
		case "dtls":
			trs = []transport{{"udp", true, true}}
		case "tls":
			for _, n := range []string{"", "tcp", "tcp4", "tcp6"} {
				trs = append(trs, transport{n, false, true})
			}
		default:
			for _, n := range []string{"udp", "udp4", "udp6"} {
				trs = append(trs, transport{n, true, false})
			}
			for _, n := range []string{"tcp", "tcp4", "tcp6"} {
				trs = append(trs, transport{n, false, false})
			}
		}
		for _, tr := range trs {
			in := false
			rule := mk(ctor, tr, &in)
			handlers := 0
			old := rule.Instr
			rule.Instr = func(e *Engine, st *State, x ssa.Instruction) {
				if old != nil {
					old(e, st, x)
				}
				s, ok := x.(*ssa.Store)
				if !ok || in {
					return
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !isServerField(fa, "Handler") {
					return
				}
				h := e.ev(st, s.Val)
				for h.op == "mi" {
					h = h.args[0]
				}
				var fn *ssa.Function
				var args, free []*Term
				if (h.op == "closure" || h.op == "fn") && h.fn != nil {
					fn = h.fn
					if h.op == "closure" {
						free = h.args
					}
				} else if h.typ != nil {
					fn = p.method(h.typ, "ServeDNS")
					args = []*Term{h}
				}
				if fn == nil || !p.inRepo(fn) && fn.Synthetic == "" {
					return
				}
				handlers++
				n++
				for i := len(args); i < len(fn.Params); i++ {
					args = append(args, e.T.mk("param", fn.Params[i].Name()+"@handler", fn.Params[i].Type(), false))
				}
				in = true
				e.exec(fn, args, free, st.clone(), e.ctxOf(0, x), e.pinsFor(st, nil, append(args, free...)), nil)
				in = false
			}
			e := newEngine(p, rule)
			key := p.fnName(ctor) + "(" + tr.name + ")"
			e.run(ctor, "", func(st *State, ps []*Term) {
				for _, i := range params {
					ps[i] = e.T.constT(constant.MakeString(tr.name), types.Typ[types.String])
				}
			})
			r.engine(e)
			r.check("handler-followed", key, p.pos(ctor.Pos()), handlers > 0, "no handler could be followed for this listener", nil)
		}
	}
	if n == 0 {
		r.viol("vacuity", "handlers", "", "no DNS listener constructor found", nil)
	}
}

// ---------------------------------------------------------------------------------------------
// Padding functions, recognised by effect

func isOptField(fa *ssa.FieldAddr, typ, field string) bool {
	return isNamed(deref(fa.X.Type()), dnsPath, typ) && fieldName(fa.X.Type(), fa.Field) == field
}

// padKind: "pad" when fn (with helpers) fills in padding of a message parameter, "strip" when it
// rewrites the option list depending on the padding code, "" otherwise.
func (p *Prog) padKind(fn *ssa.Function) string {
	if fn == nil || !p.inRepo(fn) || len(fn.Blocks) == 0 {
		return ""
	}
	if p.padMemo == nil {
		p.padMemo = map[*ssa.Function]string{}
	}
	if k, ok := p.padMemo[fn]; ok {
		return k
	}
	msg := false
	for _, pr := range fn.Params {
		if isMsgPtr(pr.Type()) {
			msg = true
		}
	}
	k := ""
	if msg && fn.Signature.Results().Len() <= 1 && !isResolveSig(fn.Signature) && !isDNSHandler(fn) {
		fills, rewrites, code := false, false, false
		p.staticReach(fn, func(f *ssa.Function) bool {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
							if c, isC := x.Val.(*ssa.Const); isOptField(fa, "EDNS0_PADDING", "Padding") && !(isC && c.Value == nil) {
								fills = true
							}
							if isOptField(fa, "OPT", "Option") {
								rewrites = true
							}
						}
					case *ssa.BinOp:
						for _, o := range []ssa.Value{x.X, x.Y} {
							if c, ok := o.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
								if v, _ := constant.Int64Val(c.Value); v == 12 && (x.Op == token.EQL || x.Op == token.NEQ) {
									code = true
								}
							}
						}
					case *ssa.TypeAssert:
						if isNamed(x.AssertedType, dnsPath, "EDNS0_PADDING") {
							code = true
						}
					}
				}
			}
			return true
		})
		if fills {
			k = "pad"
		} else if rewrites && code {
			k = "strip"
		}
	}
	p.padMemo[fn] = k
	return k
}

// lastMsg: the message a padding function works on (its last message argument).
func lastMsg(c *CallEv) *Term {
	var t *Term
	for i, a := range c.Args {
		if i < len(c.Fn.Params) && isMsgPtr(c.Fn.Params[i].Type()) {
			t = a
		}
	}
	return t
}

// messageSteps handles the calls that pad, strip or truncate; it returns true when it took the call.
func messageSteps(p *Prog, e *Engine, st *State, c *CallEv, size func(e *Engine, st *State, c *CallEv) bool) bool {
	switch p.padKind(c.Fn) {
	case "pad":
		k := sfKey(lastMsg(c))
		set(st, "pad"+k)
		unset(st, "strip"+k)
		unset(st, "trunc"+k)
		unset(st, "badtrunc"+k)
		return true
	case "strip":
		k := sfKey(lastMsg(c))
		set(st, "strip"+k)
		unset(st, "pad"+k)
		return true
	}
	switch c.Name {
	case "(" + dnsPath + ".Msg).Truncate":
		k := sfKey(c.Args[0])
		if size == nil || size(e, st, c) {
			set(st, "trunc"+k)
			unset(st, "badtrunc"+k)
		} else {
			set(st, "badtrunc"+k)
			unset(st, "trunc"+k)
		}
		return true
	case "(" + dnsPath + ".Msg).SetEdns0", "(" + dnsPath + ".Msg).SetReply", "(" + dnsPath + ".Msg).SetRcode", "(" + dnsPath + ".Msg).CopyTo":
		k := sfKey(c.Args[0])
		unset(st, "trunc"+k)
		unset(st, "badtrunc"+k)
	}
	return false
}

func isEdnsOf(t *Term, q func(*Term) bool) bool {
	return t.op == "call" && t.callName() == "("+dnsPath+".Msg).IsEdns0" && len(t.args) == 1 && q(t.args[0])
}

// truncSize: the size given to Truncate is the one the query advertised.
func truncSize(e *Engine, st *State, c *CallEv) bool {
	isReq := func(t *Term) bool { return t.op == "param" && t.typ != nil && isMsgPtr(t.typ) }
	isUDP := func(t *Term) bool {
		return t.op == "call" && t.callName() == "("+dnsPath+".OPT).UDPSize" && isEdnsOf(t.args[0], isReq)
	}
	strip := func(t *Term) *Term {
		for t.op == "conv" {
			t = t.args[0]
		}
		return t
	}
	t := strip(c.Args[1])
	if isUDP(t) {
		return true
	}
	is512 := func(t *Term) bool { k, ok := strip(t).intv(); return ok && k == 512 }
	switch t.op {
	case "max":
		return len(t.args) == 2 && (isUDP(strip(t.args[0])) && is512(t.args[1]) || isUDP(strip(t.args[1])) && is512(t.args[0]))
	case "min":
		for _, a := range t.args {
			if isUDP(strip(a)) {
				return true
			}
		}
	}
	return is512(t) && (has(st, "noedns") || has(st, "smalludp"))
}

// sizeFacts remembers what the query says about the reply size.
func sizeFacts(e *Engine, st *State, in *ssa.If, f *Term, v bool) {
	if f.op != "bin" || len(f.args) != 2 {
		return
	}
	isReq := func(t *Term) bool { return t.op == "param" && t.typ != nil && isMsgPtr(t.typ) }
	x := f.args[0]
	for x.op == "conv" {
		x = x.args[0]
	}
	if f.s == "==" && v && isEdnsOf(x, isReq) && f.args[1].isNil() {
		set(st, "noedns")
	}
	if k, ok := f.args[1].intv(); ok && x.op == "call" && x.callName() == "("+dnsPath+".OPT).UDPSize" && isEdnsOf(x.args[0], isReq) && f.s == "<" && v && k <= 513 {
		set(st, "smalludp")
	}
}

func runC08(p *Prog, r *Report) {
	eachDNSHandler(p, r, func(ctor *ssa.Function, tr transport, inH *bool) *Rule {
		rule := handlerRule()
		key := p.fnName(ctor) + "(" + tr.name + ")"
		rule.Branch = sizeFacts
		rule.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
			if messageSteps(p, e, st, c, truncSize) {
				return []Outcome{{st, e.opaque(st, c, c.Args)}}
			}
			if k, t := replyEvent(c); k == "msg" {
				id := sfKey(t)
				if tr.datagram {
					if has(st, "badtrunc"+id) {
						r.viol("truncate-size", key, p.iPos(c.In), "the reply is cut to a size other than the one the client advertised", st.path())
					} else {
						r.check("truncate", key, p.iPos(c.In), has(st, "trunc"+id), "a reply on a datagram transport is written without having been cut to the client's size", st.path())
					}
				} else {
					r.check("no-truncate", key, p.iPos(c.In), !has(st, "trunc"+id) && !has(st, "badtrunc"+id), "a reply on a stream transport is cut to a datagram size", st.path())
				}
			}
			return nil
		}
		return rule
	})
	// HTTP and QUIC: never truncated
	_, httpH := p.handlers()
	for _, fn := range append(append([]*ssa.Function{}, httpH...), p.startMethods()...) {
		rule := handlerRule()
		rule.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
			if c.Name == "("+dnsPath+".Msg).Truncate" {
				r.viol("no-truncate", p.fnName(fn), p.iPos(c.In), "a reply on a stream transport is cut to a datagram size", st.path())
			}
			return nil
		}
		e := newEngine(p, rule)
		e.run(fn, "", nil)
		r.engine(e)
		r.ok("no-truncate", p.fnName(fn))
	}
	r.atLeast("truncate", 4)
	r.atLeast("no-truncate", 8)
}

// ---------------------------------------------------------------------------------------------

// pipelineTypes: types that dial through an interface producing *dns.Conn and exchange messages on it.
func (p *Prog) isPipelineSend(fn *ssa.Function) bool {
	if fn == nil || !p.inRepo(fn) || fn.Signature.Recv() == nil {
		return false
	}
	rs := fn.Signature.Results()
	if rs.Len() != 2 || !isMsgPtr(rs.At(0).Type()) || fn.Signature.Params().Len() < 1 || !isMsgPtr(fn.Signature.Params().At(0).Type()) {
		return false
	}
	return structHas(fn.Signature.Recv().Type(), func(v *types.Var) bool {
		it, ok := v.Type().Underlying().(*types.Interface)
		if !ok {
			return false
		}
		for i := 0; i < it.NumMethods(); i++ {
			rs := it.Method(i).Type().(*types.Signature).Results()
			for k := 0; k < rs.Len(); k++ {
				if isNamed(rs.At(k).Type(), dnsPath, "Conn") {
					return true
				}
			}
		}
		return false
	})
}

// reachesName: fn statically reaches a call with that name prefix.
func (p *Prog) reachesName(fn *ssa.Function, prefixes ...string) bool {
	found := false
	p.staticReach(fn, func(f *ssa.Function) bool {
		if found {
			return false
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					n := calleeName(c.Common())
					for _, pre := range prefixes {
						if strings.HasPrefix(n, pre) {
							found = true
						}
					}
				}
			}
		}
		return !found
	})
	return found
}

// constructorsOf: exported functions whose first result is the type (or a pointer to it).
func (p *Prog) constructorsOf(t types.Type) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.funcs {
		if fn.Parent() != nil || fn.Signature.Recv() != nil || fn.Signature.Results().Len() == 0 || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		if types.Identical(deref(fn.Signature.Results().At(0).Type()), deref(t)) {
			out = append(out, fn)
		}
	}
	return out
}

func runC09(p *Prog, r *Report) {
	eachDNSHandler(p, r, func(ctor *ssa.Function, tr transport, inH *bool) *Rule {
		rule := handlerRule()
		key := p.fnName(ctor) + "(" + tr.name + ")"
		rule.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
			if messageSteps(p, e, st, c, nil) {
				return []Outcome{{st, e.opaque(st, c, c.Args)}}
			}
			if k, t := replyEvent(c); k == "msg" {
				id := sfKey(t)
				if tr.encrypted {
					r.check("pad-reply", key, p.iPos(c.In), has(st, "pad"+id), "a reply leaves over an encrypted transport without having passed the padding step", st.path())
				} else {
					r.check("strip-reply", key, p.iPos(c.In), has(st, "strip"+id), "a reply leaves in plain text without padding having been removed", st.path())
				}
			}
			return nil
		}
		return rule
	})
	_, httpH := p.handlers()
	for _, fn := range httpH {
		rule := handlerRule()
		rule.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
			if messageSteps(p, e, st, c, nil) {
				return []Outcome{{st, e.opaque(st, c, c.Args)}}
			}
			if k, t := replyEvent(c); k == "bytes" && t != nil && !e.T.contains(t, func(x *Term) bool { return x.op == "call" && strings.Contains(x.callName(), "odoh-go") }) {
				e.T.walk(t, func(x *Term) bool {
					if x.op == "call" && strings.HasSuffix(x.callName(), ".Msg).Pack") {
						r.check("pad-http", p.fnName(fn), p.iPos(c.In), has(st, "pad"+sfKey(x.args[0])), "an HTTPS reply is encoded without having passed the padding step", st.path())
					}
					return true
				})
			}
			return nil
		}
		e := newEngine(p, rule)
		e.run(fn, "", nil)
		r.engine(e)
	}
	// clients
	for _, fn := range p.resolvers() {
		var direct bool
		for g := range p.staticSet(fn) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && p.isPipelineSend(c.Common().StaticCallee()) {
						direct = true
					}
				}
			}
		}
		http := p.reachesName(fn, "(net/http.Client).Do") && !p.reachesName(fn, "github.com/cloudflare/odoh-go", "(github.com/cloudflare/odoh-go")
		if !direct && !http {
			continue
		}
		sec := ""
		for _, ctor := range p.constructorsOf(fn.Signature.Recv().Type()) {
			if s := optionSecurity(ctor); s != "" {
				sec = s
			}
		}
		rule := handlerRule()
		rule.Inline = func(e *Engine, f *ssa.Function) bool {
			return !(f.Name() == "Resolve" && isResolveSig(f.Signature)) && !p.isPipelineSend(f) && e.getInfo(f).size < 400
		}
		sink := func(e *Engine, st *State, in ssa.Instruction, m *Term) {
			if sec != "" {
				r.check("pad-query", p.fnName(fn), p.iPos(in), has(st, "pad"+sfKey(m)), "a query leaves over an encrypted transport without having passed the padding step", st.path())
			} else {
				r.check("strip-query", p.fnName(fn), p.iPos(in), has(st, "strip"+sfKey(m)), "a query leaves in plain text without padding having been removed", st.path())
			}
		}
		rule.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
			if messageSteps(p, e, st, c, nil) {
				return []Outcome{{st, e.opaque(st, c, c.Args)}}
			}
			if direct && p.isPipelineSend(c.Fn) {
				sink(e, st, c.In, c.Args[1])
			}
			if http && strings.HasPrefix(c.Name, "("+dnsPath+".Msg).Pack") {
				sink(e, st, c.In, c.Args[0])
			}
			return nil
		}
		e := newEngine(p, rule)
		e.run(fn, "", nil)
		r.engine(e)
	}
	// the steps take effect
	for _, fn := range p.funcs {
		kind := p.padKind(fn)
		if kind == "" || fn.Parent() != nil {
			continue
		}
		rule := &Rule{}
		noEdns := func(e *Engine, st *State) bool {
			for f, v := range st.facts {
				if v && f.op == "bin" && f.s == "==" && f.args[1].isNil() && isEdnsOf(f.args[0], func(t *Term) bool { return t.op == "param" }) {
					return true
				}
			}
			return false
		}
		rule.Branch = func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
			if noEdns(e, st) {
				set(st, "noedns")
			}
		}
		rule.Instr = func(e *Engine, st *State, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			if isOptField(fa, "EDNS0_PADDING", "Padding") {
				if e.ev(st, s.Val).isNil() {
					unset(st, "done")
				} else if kind == "pad" {
					set(st, "done")
				}
			}
			if kind == "strip" && isOptField(fa, "OPT", "Option") {
				set(st, "done")
			}
		}
		rule.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
			if kind == "strip" && c.Name == "builtin.append" {
				for _, el := range appended(e, st, c) {
					opt := e.T.mk("call", "("+dnsPath+".EDNS0).Option", nil, false, el)
					eq := e.T.bin(token.EQL, opt, e.T.intT(12), types.Typ[types.Bool])
					v, known := e.eval(st, eq)
					is, kt := e.eval(st, e.T.mk("is", "*"+dnsPath+".EDNS0_PADDING", types.Typ[types.Bool], false, el))
					r.check("strip-effect", p.fnName(fn)+"/kept option", p.iPos(c.In), known && !v || kt && !is, "an option is kept although it may be padding", st.path())
				}
			}
			return nil
		}
		rule.Return = func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			r.check(kind+"-effect", p.fnName(fn), p.iPos(in), has(st, "done") || has(st, "noedns"), fmt.Sprintf("the %s step returns without effect although the peer uses EDNS", kind), st.path())
		}
		e := newEngine(p, rule)
		e.run(fn, "", nil)
		r.engine(e)
	}
	r.atLeast("pad-reply", 2)
	r.atLeast("strip-reply", 6)
	r.atLeast("pad-http", 1)
	r.atLeast("pad-query", 3)
	r.atLeast("strip-query", 1)
	r.atLeast("pad-effect", 2)
	r.atLeast("strip-effect", 1)
}

// appended returns the elements an append call adds (when they are listed one by one).
func appended(e *Engine, st *State, c *CallEv) []*Term {
	if len(c.Args) != 2 {
		return nil
	}
	t := c.Args[1]
	if t.op == "slice" && t.args[0].op == "alloc" {
		var out []*Term
		for a, v := range st.mem {
			if a.op == "ia" && a.args[0] == t.args[0] {
				out = append(out, v)
			}
		}
		return out
	}
	return nil
}

// staticSet is the set of functions staticReach visits.
func (p *Prog) staticSet(fn *ssa.Function) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	p.staticReach(fn, func(f *ssa.Function) bool { m[f] = true; return true })
	return m
}

// ---------------------------------------------------------------------------------------------

func isHandshakeChan(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	n := calleeName(c.Common())
	if strings.HasSuffix(n, "HandshakeComplete") {
		return true
	}
	return false
}

func isConnDoneChan(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok || calleeName(c.Common()) != "(context.Context).Done" {
		return false
	}
	x, ok := c.Common().Value.(*ssa.Call)
	return ok && strings.HasPrefix(calleeName(x.Common()), "(github.com/quic-go/quic-go.") && strings.HasSuffix(calleeName(x.Common()), ".Context")
}

func runC10(p *Prog, r *Report) {
	// msgOfOpcode: the message whose opcode a comparison reads
	msgOfOpcode := func(e *Engine, t *Term) *Term {
		var m *Term
		e.T.walk(t, func(x *Term) bool {
			if x.op == "fa" && x.s == "Opcode" {
				m = rootOf(x)
			}
			return m == nil
		})
		return m
	}
	common := func(rule *Rule, client bool) {
		rule.Branch = func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
			if a.op == "bin" && a.s == "==" && val {
				if m := msgOfOpcode(e, a.args[0]); m != nil {
					if k, ok := a.args[1].intv(); ok && (k == 0 || k == 4) {
						set(st, "replay"+sfKey(m))
						set(st, "replayable")
					}
				}
				if e.T.readsField(a.args[0], "TLS") && a.args[1].isNil() {
					set(st, "handshake")
				}
			}
			if val && a.isField("HandshakeComplete") {
				set(st, "handshake")
			}
			// select on the handshake
			x := a
			if x.op == "bin" && x.s == "==" && x.args[0].op == "ext" && x.args[0].args[0].op == "select" {
				if sel, ok := x.args[0].args[0].in.(*ssa.Select); ok {
					k, _ := x.args[1].intv()
					for i, s := range sel.States {
						hit := val && int64(i) == k || !val && len(sel.States) == 2 && int64(i) != k && sel.Blocking
						if hit && (isHandshakeChan(s.Chan) || client && isConnDoneChan(s.Chan)) {
							set(st, "handshake")
						}
					}
				}
			}
		}
		rule.Instr = func(e *Engine, st *State, in ssa.Instruction) {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW && isHandshakeChan(u.X) {
				set(st, "handshake")
			}
		}
	}
	// servers
	_, httpH := p.handlers()
	var entries []*ssa.Function
	for _, fn := range httpH {
		f := fn
		for f.Parent() != nil {
			f = f.Parent()
		}
		rc := f.Signature.Recv()
		if rc == nil {
			continue
		}
		// only listeners that can be run over QUIC
		opt := deref(rc.Type())
		s, ok := opt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		can := false
		for i := 0; i < s.NumFields(); i++ {
			if os, ok := deref(s.Field(i).Type()).Underlying().(*types.Struct); ok && strings.HasSuffix(ownerName(s.Field(i).Type()), "Options") {
				for k := 0; k < os.NumFields(); k++ {
					if os.Field(k).Name() == "Transport" {
						can = true
					}
				}
			}
		}
		if can {
			entries = append(entries, fn)
		}
	}
	for _, fn := range append(entries, p.startMethods()...) {
		rule := handlerRule()
		common(rule, false)
		rule.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
			if isResolveCall(c.C) {
				m := c.Args[queryArg(c.C, c.Args)]
				r.check("server-early-data", p.fnName(fn), p.iPos(c.In), has(st, "handshake") || has(st, "replay"+sfKey(m)),
					"a request that may have arrived as early data is handed to the pipeline without its operation being known to be replayable", st.path())
			}
			return nil
		}
		e := newEngine(p, rule)
		e.run(fn, "", nil)
		r.engine(e)
	}
	// clients
	for _, fn := range p.resolvers() {
		quicC := p.reachesName(fn, "(github.com/quic-go/quic-go.Conn).OpenStream", "(github.com/quic-go/quic-go.Transport).Dial")
		httpC := p.reachesName(fn, "net/http.NewRequest")
		if !quicC && !httpC {
			continue
		}
		rule := handlerRule()
		common(rule, true)
		rule.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
			if strings.HasPrefix(c.Name, "net/http.NewRequest") {
				for _, a := range c.Args {
					if s, ok := a.str(); ok && strings.HasSuffix(s, "_0RTT") {
						r.check("client-early-data", p.fnName(fn)+"/http", p.iPos(c.In), has(st, "replayable"), "a request is sent as early data although its operation is not known to be replayable", st.path())
					}
				}
			}
			rs := c.C.Signature().Results()
			if quicC && rs.Len() > 0 && isNamed(rs.At(0).Type(), "github.com/quic-go/quic-go", "Conn") && (c.Fn == nil || !e.wantInline(c.Fn)) {
				unset(st, "handshake") // a new connection
				return nil
			}
			if strings.HasPrefix(c.Name, "(github.com/quic-go/quic-go.Conn).OpenStream") {
				r.check("client-early-data", p.fnName(fn)+"/quic", p.iPos(c.In), has(st, "handshake") || has(st, "replayable"), "a stream is opened on a connection whose handshake may be incomplete although the operation is not known to be replayable", st.path())
			}
			return nil
		}
		e := newEngine(p, rule)
		e.run(fn, "", nil)
		r.engine(e)
	}
	r.atLeast("server-early-data", 2)
	r.atLeast("client-early-data", 2)
}
