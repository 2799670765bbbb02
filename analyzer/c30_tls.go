package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C30: encrypted connections are authenticated.

func init() {
	register("C30", "encrypted connections verify the peer against the configured name and authority",
		runC30,
		"crypto/tls, quic-go and pion/dtls verify certificates against ServerName and RootCAs unless told not to; with RequireAndVerifyClientCert servers verify clients against ClientCAs",
		"crypto/tls does not offer versions before 1.2 unless MinVersion says so (the main module asks for go 1.22 or later)",
		"An http.Transport or http3.Transport without ServerName verifies the host of the request URL",
		"The exported options of a client or listener hold what the configuration asked for (C37)")
}

func isTLSConfig(t types.Type) bool { return isNamed(deref(t), "crypto/tls", "Config") }

func isDTLSConfig(t types.Type) bool {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	return ok && n.Obj().Name() == "Config" && n.Obj().Pkg() != nil && strings.Contains(n.Obj().Pkg().Path(), "/pion/dtls")
}

func isAnyTLS(t types.Type) bool { return isTLSConfig(t) || isDTLSConfig(t) }

func isAnyTLSPtr(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.Pointer)
	return ok && isAnyTLS(t)
}

// tlsOption tells whether a struct carries a TLS configuration in an exported field.
func tlsOption(t types.Type) bool {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Exported() && isAnyTLSPtr(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

func runC30(p *Prog, r *Report) {
	c30Fields(p, r)
	c30Files(p, r)
	c30Names(p, r)
	c30Used(p, r)
	c30Plain(p, r)
	r.atLeast("setting", 3)
	r.atLeast("files", 4)
	r.atLeast("name", 3)
	r.atLeast("used", 8)
	r.atLeast("plain", 4)
}

// c30Fields: what may be written in a TLS configuration, anywhere.
func c30Fields(p *Prog, r *Report) {
	for _, fn := range p.funcs {
		if !p.inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !isAnyTLS(fa.X.Type()) {
					continue
				}
				name := fieldName(fa.X.Type(), fa.Field)
				key := p.fnName(fn) + " " + name
				bad := ""
				vals := c30Consts(p, s.Val, map[ssa.Value]bool{})
				all := func(good func(constant.Value) bool) bool {
					for _, v := range vals {
						if v == nil || !good(v) {
							return false
						}
					}
					return len(vals) > 0
				}
				switch name {
				case "InsecureSkipVerify", "InsecureHashes":
					if !all(func(v constant.Value) bool { return v.Kind() == constant.Bool && !constant.BoolVal(v) }) {
						bad = "verification can be turned off"
					}
				case "InsecureSkipVerifyHello":
					continue
				case "MinVersion", "MaxVersion":
					if !all(func(v constant.Value) bool { i, ok := constant.Int64Val(v); return ok && i >= 0x0303 }) {
						bad = "a version before TLS 1.2 may be negotiated"
					}
				case "ClientAuth":
					want := int64(4)
					if !all(func(v constant.Value) bool { i, ok := constant.Int64Val(v); return ok && (i == want || i == 0) }) {
						bad = "clients can connect without a verified certificate"
					}
				case "GetConfigForClient", "PSK":
					if c, ok := s.Val.(*ssa.Const); !ok || !c.IsNil() {
						bad = "another configuration than the checked one can be used"
					}
				case "KeyLogWriter":
					if c, ok := s.Val.(*ssa.Const); !ok || !c.IsNil() {
						bad = "session keys are written out"
					}
				default:
					continue
				}
				r.check("setting", key, p.iPos(in), bad == "", bad, nil)
			}
		}
	}
}

// c30Consts lists the constants a value can have, nil for anything else.
func c30Consts(p *Prog, v ssa.Value, seen map[ssa.Value]bool) []constant.Value {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return []constant.Value{nil}
		}
		return []constant.Value{x.Value}
	case *ssa.Phi:
		var out []constant.Value
		for _, e := range x.Edges {
			out = append(out, c30Consts(p, e, seen)...)
		}
		return out
	case *ssa.ChangeType:
		return c30Consts(p, x.X, seen)
	case *ssa.Convert:
		return c30Consts(p, x.X, seen)
	case *ssa.Parameter:
		var out []constant.Value
		i := -1
		for k, q := range x.Parent().Params {
			if q == x {
				i = k
			}
		}
		cs := p.callersOf(x.Parent())
		if len(cs) == 0 || token.IsExported(x.Parent().Name()) {
			return []constant.Value{nil}
		}
		for _, c := range cs {
			if i < 0 || i >= len(c.Common().Args) {
				return []constant.Value{nil}
			}
			out = append(out, c30Consts(p, c.Common().Args[i], seen)...)
		}
		return out
	}
	return []constant.Value{nil}
}

// c30Files: the functions that build a configuration from files.
func c30Files(p *Prog, r *Report) {
	for _, name := range []string{"TLSServerConfig", "DTLSServerConfig", "TLSClientConfig", "DTLSClientConfig"} {
		fn := p.root.Func(name)
		if fn == nil || len(fn.Params) < 3 {
			r.viol("files", name, "", "there is no function "+name+" that builds a configuration from files", nil)
			continue
		}
		server := strings.Contains(name, "Server")
		pairOf := func(t *Term) bool { return t.op == "ext" && t.args[0].callName() == "crypto/tls.LoadX509KeyPair" }
		var ca, crt, key, last *Term
		loads := func(t *Term) bool {
			c := t.args[0]
			n := len(c.args)
			return n >= 2 && c.args[n-2] == crt && c.args[n-1] == key
		}
		rule := &Rule{}
		rule.Event = func(f *ssa.Function) bool {
			return p.inRoot(f) && hasCall(f, func(c *ssa.CallCommon) bool {
				n := calleeName(c)
				return n == "os.ReadFile" || strings.HasSuffix(n, "CertPool).AppendCertsFromPEM") || n == "crypto/tls.LoadX509KeyPair"
			})
		}
		rule.Branch = func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
			if strings.HasSuffix(a.callName(), "CertPool).AppendCertsFromPEM") {
				n := len(a.args)
				from := e.T.contains(a.args[n-1], func(t *Term) bool { return t == ca })
				if val && from {
					set(st, "pool:"+itoa(int32(a.args[n-2].id)))
				}
				if !val {
					set(st, "failed:authorities")
				}
			}
			if a.op == "bin" && a.s == "==" {
				for i := range a.args {
					x, y := a.args[i], a.args[1-i]
					if !y.isNil() || x.op != "ext" {
						continue
					}
					switch {
					case pairOf(x):
						if val && loads(x) {
							set(st, "pair")
						} else if !val {
							set(st, "failed:key pair")
						}
					case x.args[0].callName() == "os.ReadFile" && !val:
						set(st, "failed:file")
					}
				}
			}
		}
		e := newEngine(p, rule)
		rule.Return = func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			if len(res) != 2 {
				return
			}
			if isnil, known := e.isNil(st, res[1]); known && !isnil {
				return
			}
			empty := func(t *Term) bool {
				v, known := e.eval(st, e.T.bin(token.EQL, t, e.T.constT(constant.MakeString(""), types.Typ[types.String]), types.Typ[types.Bool]))
				return known && v
			}
			cfg := res[0]
			field := func(n string) *Term {
				s := deref(cfgType(fn)).Underlying().(*types.Struct)
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == n {
						return e.load(st, e.fa(cfg, n, s.Field(i).Type()), s.Field(i).Type())
					}
				}
				return nil
			}
			say := func(key, msg string, good bool) {
				r.check("files", name+" "+key, p.iPos(in), good, msg, st.path())
			}
			for _, f := range flags(st, "failed:") {
				say("fails", "a configuration is returned although reading its "+f+" failed", false)
			}
			say("fails", "", true)
			pool := "RootCAs"
			if server {
				pool = "ClientCAs"
			}
			if !empty(ca) {
				v := field(pool)
				say("authority", "the configured authority is not the one peers are verified against ("+pool+")", v != nil && has(st, "pool:"+itoa(int32(v.id))))
			}
			if !empty(crt) && !empty(key) {
				v := field("Certificates")
				isnil, known := e.isNil(st, v)
				say("certificate", "the configured certificate and key are not used", has(st, "pair") && !(known && isnil) && !v.isNil())
			}
			if server {
				if v, known := e.eval(st, last); !(known && !v) {
					a := field("ClientAuth")
					n, ok := a.intv()
					say("mutual", "a listener that asks for client certificates accepts clients without one", ok && n == 4)
					say("mutual authority", "a listener that asks for client certificates verifies them against no configured authority", !empty(ca))
				}
			}
			if strings.HasPrefix(name, "TLSClient") {
				say("server name", "the configured server name is not the one that is verified", field("ServerName") == last)
			}
		}
		e.run(fn, "", func(st *State, ps []*Term) {
			ca, crt, key, last = ps[0], ps[1], ps[2], ps[len(ps)-1]
		})
		r.engine(e)
	}
}

func cfgType(fn *ssa.Function) types.Type { return fn.Signature.Results().At(0).Type() }

// c30Names: the name that is verified is the configured one, else that of the endpoint.
func c30Names(p *Prog, r *Report) {
	stores := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && isAnyTLS(fa.X.Type()) && fieldName(fa.X.Type(), fa.Field) == "ServerName" {
						return true
					}
				}
			}
		}
		return false
	}
	done := map[*ssa.Function]bool{}
	var entry func(f *ssa.Function, n int)
	entry = func(f *ssa.Function, n int) {
		if done[f] {
			return
		}
		done[f] = true
		if f.Parent() != nil {
			entry(f.Parent(), n)
			return
		}
		cs := p.callersOf(f)
		if token.IsExported(f.Name()) || len(cs) == 0 || n > 6 {
			c30Name(p, r, f, stores)
			return
		}
		for _, c := range cs {
			entry(c.Parent(), n+1)
		}
	}
	for _, fn := range p.funcs {
		if p.inRepo(fn) && stores(fn) {
			entry(fn, 0)
		}
	}
	// clients that connect to another address than the one that was configured
	for _, name := range []string{"NewDoTClient", "NewDoQClient", "NewDTLSClient"} {
		fn := p.root.Func(name)
		if fn == nil {
			r.viol("bootstrap", name, "", "there is no constructor "+name, nil)
			continue
		}
		if !done[fn] {
			c30Name(p, r, fn, stores)
		}
	}
	r.atLeast("bootstrap", 3)
}

func c30Name(p *Prog, r *Report, fn *ssa.Function, stores func(*ssa.Function) bool) {
	if strings.HasSuffix(fn.Name(), "TLSClientConfig") {
		return // c30Files
	}
	look := func(n string) bool {
		return strings.HasPrefix(n, "net.Lookup") || strings.HasPrefix(n, "net.Resolve") || strings.HasPrefix(n, "(net.Resolver).")
	}
	looks := func(f *ssa.Function) bool {
		res := f.Signature.Results()
		return p.inRoot(f) && res.Len() > 0 && isStringT(res.At(0).Type()) && hasCall(f, func(c *ssa.CallCommon) bool { return look(calleeName(c)) })
	}
	rule := &Rule{Event: func(f *ssa.Function) bool { return stores(f) || looks(f) }}
	rule.Inline = func(e *Engine, f *ssa.Function) bool {
		return e.hasEvent(f) || len(f.Blocks) > 0 && e.getInfo(f).size < 12 && p.inRoot(f)
	}
	// a copy has the name of the original
	rule.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
		if strings.HasSuffix(c.Name, ").Clone") && len(c.Args) == 1 && isAnyTLSPtr(c.C.Args[0].Type()) {
			return []Outcome{{st, []*Term{c.Args[0]}}}
		}
		return nil
	}
	nameOf := func(t *Term) bool {
		return t.op == "ld" && len(t.args) > 0 && t.args[0].op == "fa" && t.args[0].s == "ServerName" || t.op == "vf" && t.s == "ServerName"
	}
	rule.Keep = func(e *Engine, a *Term) bool {
		return e.T.contains(a, func(t *Term) bool {
			return nameOf(t) || t.op == "ext" && isErrorType(t.typ) || lastField(t) == "BootstrapAddr"
		})
	}
	rule.Branch = func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
		if a.op == "bin" && a.s == "==" {
			for i := range a.args {
				if isEmptyString(a.args[1-i]) {
					x := a.args[i]
					if nameOf(x) && !val {
						set(st, "named")
					}
					if lastField(x) == "BootstrapAddr" && val {
						set(st, "direct")
					}
				}
			}
		}
	}
	rule.Instr = func(e *Engine, st *State, in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok || !isAnyTLS(fa.X.Type()) || fieldName(fa.X.Type(), fa.Field) != "ServerName" {
			return
		}
		a, v := e.ev(st, s.Addr), e.ev(st, s.Val)
		old := e.load(st, a, types.Typ[types.String])
		key := p.fnName(fn) + " " + p.fnName(in.Parent())
		known := isEmptyString(old)
		if x, k := e.eval(st, e.T.bin(token.EQL, old, e.T.constT(constant.MakeString(""), types.Typ[types.String]), types.Typ[types.Bool])); k && x {
			known = true
		}
		r.check("name", key+" configured", p.iPos(in), known, "the server name that was configured can be replaced", st.path())
		other := ""
		given := false
		e.T.walk(v, func(t *Term) bool {
			switch {
			case lastField(t) == "BootstrapAddr":
				other = "the bootstrap address"
			case t.op == "call" && look(t.callName()):
				other = "the result of an address lookup"
			case t.op == "param":
				given = true
			}
			return true
		})
		msg := ""
		switch {
		case other != "":
			msg = "the certificate is verified against " + other + " instead of the configured endpoint"
		case !given:
			msg = "the certificate is not verified against the name of the configured endpoint"
		}
		r.check("name", key+" endpoint", p.iPos(in), msg == "", msg, st.path())
		set(st, "named")
	}
	client := false
	if n := fn.Signature.Results().Len(); n > 0 && fn.Signature.Recv() == nil {
		for _, s := range []string{"DoTClient", "DoQClient", "DTLSClient"} {
			client = client || isNamed(deref(fn.Signature.Results().At(0).Type()), modPath, s)
		}
	}
	rule.Return = func(e *Engine, st *State, in *ssa.Return, res []*Term) {
		if !client || len(res) != 2 {
			return
		}
		if isnil, known := e.isNil(st, res[1]); known && !isnil {
			return
		}
		if res[0].isNil() {
			return
		}
		r.check("bootstrap", p.fnName(fn), p.iPos(in), has(st, "named") || has(st, "direct"), "with a bootstrap address the certificate is not verified against the configured endpoint", st.path())
	}
	e := newEngine(p, rule)
	e.run(fn, "", nil)
	r.engine(e)
}

// c30Used: every encrypted connection and listener uses the configuration it was given.
func c30Used(p *Prog, r *Report) {
	reached := map[*types.Named]bool{}
	for _, fn := range p.funcs {
		if !p.inRoot(fn) || strings.HasSuffix(fn.Name(), "ServerConfig") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					c := x.Common()
					f := c.StaticCallee()
					if f != nil && p.inRepo(f) {
						continue
					}
					if _, ok := c.Value.(*ssa.Builtin); ok {
						continue
					}
					for i, a := range c.Args {
						if !isAnyTLSPtr(a.Type()) || i == 0 && f != nil && f.Signature.Recv() != nil {
							continue
						}
						c30Source(p, r, a, p.fnName(fn)+" "+calleeName(c), in, reached)
					}
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || !isAnyTLSPtr(x.Val.Type()) {
						continue
					}
					n, ok := types.Unalias(deref(fa.X.Type())).(*types.Named)
					if !ok || n.Obj().Pkg() == nil {
						continue
					}
					c30Source(p, r, x.Val, p.fnName(fn)+" "+n.Obj().Name()+"."+fieldName(fa.X.Type(), fa.Field), in, reached)
				case *ssa.Alloc:
					n, ok := types.Unalias(deref(x.Type())).(*types.Named)
					if !ok || n.Obj().Pkg() == nil {
						continue
					}
					pk, nm := n.Obj().Pkg().Path(), n.Obj().Name()
					field := ""
					switch {
					case pk == "net/http" && nm == "Transport", strings.HasSuffix(pk, "/http3") && nm == "Transport":
						field = "TLSClientConfig"
					case pk == "net/http" && nm == "Server", strings.HasSuffix(pk, "/http3") && nm == "Server":
						field = "TLSConfig"
					default:
						continue
					}
					given := false
					for _, q := range *x.Referrers() {
						if fa, ok := q.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == field {
							for _, s := range *fa.Referrers() {
								if st, ok := s.(*ssa.Store); ok && st.Addr == fa {
									given = true
								}
							}
						}
						// handed to a function that fills it in
						if c, ok := q.(ssa.CallInstruction); ok {
							if f := c.Common().StaticCallee(); f != nil && p.inRepo(f) {
								given = true
							}
						}
					}
					r.check("given", p.fnName(fn)+" "+nm, p.iPos(in), given, "this "+nm+" is not given the configured TLS settings", nil)
				}
			}
		}
	}
	for _, m := range p.root.Members {
		t, ok := m.(*ssa.Type)
		if !ok || !tlsOption(t.Type()) || !strings.HasSuffix(t.Name(), "Options") {
			continue
		}
		n := t.Type().(*types.Named)
		r.check("kept", t.Name(), "", reached[n], "the TLS configuration in "+t.Name()+" is used by no connection or listener", nil)
	}
	r.atLeast("kept", 5)
	r.atLeast("given", 4)
}

// c30Source: a configuration comes from the options, or is an empty one because there was none.
func c30Source(p *Prog, r *Report, v ssa.Value, key string, in ssa.Instruction, reached map[*types.Named]bool) {
	seen := map[ssa.Value]bool{}
	var bad []string
	good := false
	var rec func(v ssa.Value)
	stored := func(base types.Type, i int) {
		for _, fn := range p.funcs {
			if !p.inRoot(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.Field == i && types.Identical(deref(fa.X.Type()), deref(base)) {
							rec(s.Val)
						}
					}
				}
			}
		}
	}
	field := func(x ssa.Value, i int) {
		n, ok := types.Unalias(deref(x.Type())).(*types.Named)
		if ok && n.Obj().Pkg() != nil {
			if tlsOption(n) {
				good = true
				reached[n] = true
				// the library may put an empty configuration in place of none
				if strings.HasSuffix(n.Obj().Name(), "Options") {
					stored(x.Type(), i)
				}
				return
			}
		}
		stored(x.Type(), i)
	}
	addr := func(a ssa.Value) {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			field(x.X, x.Field)
		case *ssa.Alloc:
			for _, q := range *x.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == x {
					rec(s.Val)
				}
			}
			for _, w := range captured(x) {
				rec(w)
			}
		case *ssa.FreeVar:
			rec(x)
		default:
			bad = append(bad, "an unknown place")
		}
	}
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				addr(x.X)
			}
		case *ssa.Field:
			field(x.X, x.Field)
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e)
			}
		case *ssa.Const:
			if x.Value != nil {
				bad = append(bad, "a constant")
			}
		case *ssa.Alloc:
			if isAnyTLS(x.Type()) && types.Unalias(deref(x.Type())) != nil {
				if _, ok := deref(x.Type()).(*types.Pointer); ok {
					addr(x)
					return
				}
			}
			if !c30Fresh(x) {
				bad = append(bad, "a configuration of its own although one was given ("+p.pos(x.Pos())+")")
			}
		case *ssa.FreeVar:
			fn := x.Parent()
			for i, fv := range fn.FreeVars {
				if fv != x {
					continue
				}
				for _, b := range fn.Parent().Blocks {
					for _, in := range b.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
							if _, ok := mc.Bindings[i].(*ssa.Alloc); ok {
								addr(mc.Bindings[i])
							} else {
								rec(mc.Bindings[i])
							}
						}
					}
				}
			}
		case *ssa.Parameter:
			fn := x.Parent()
			i := 0
			for k, q := range fn.Params {
				if q == x {
					i = k
				}
			}
			cs := p.callersOf(fn)
			if len(cs) == 0 || token.IsExported(fn.Name()) {
				good = true // handed in from outside
			}
			for _, c := range cs {
				cc := c.Common()
				if cc.IsInvoke() {
					i--
				}
				if i >= 0 && i < len(cc.Args) {
					rec(cc.Args[i])
				}
			}
		case *ssa.Extract:
			rec(x.Tuple)
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f != nil && p.inRepo(f) && len(f.Blocks) > 0 {
				for _, b := range f.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, v := range ret.Results {
							if isAnyTLSPtr(v.Type()) {
								rec(v)
							}
						}
					}
				}
				return
			}
			n := 0
			for _, a := range x.Call.Args {
				if isAnyTLSPtr(a.Type()) {
					n++
					rec(a)
				}
			}
			if n == 0 {
				bad = append(bad, calleeName(&x.Call))
			}
		case *ssa.ChangeType:
			rec(x.X)
		default:
			bad = append(bad, "an unknown value")
		}
	}
	rec(v)
	opt := false
	if s, ok := in.(*ssa.Store); ok {
		if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
			opt = tlsOption(fa.X.Type())
		}
	}
	msg := ""
	switch {
	case len(bad) > 0:
		msg = "the TLS configuration used here comes from " + strings.Join(bad, ", ")
	case !good && !opt && !c30NoOption(in.Parent()):
		msg = "the TLS configuration used here does not come from the options"
	}
	r.check("used", key, p.iPos(in), msg == "", msg, nil)
}

// c30NoOption: a function that is given no TLS configuration.
func c30NoOption(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	for _, q := range fn.Params {
		if carriesTLS(q.Type(), 0) {
			return false
		}
	}
	return true
}

func carriesTLS(t types.Type, depth int) bool {
	if isAnyTLS(t) {
		return true
	}
	if depth > 2 {
		return false
	}
	n, ok := types.Unalias(deref(t)).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if carriesTLS(s.Field(i).Type(), depth+1) {
			return true
		}
	}
	return false
}

// captured lists what closures assign to a variable of their surroundings.
func captured(a *ssa.Alloc) []ssa.Value {
	var out []ssa.Value
	for _, q := range *a.Referrers() {
		mc, ok := q.(*ssa.MakeClosure)
		if !ok {
			continue
		}
		for i, b := range mc.Bindings {
			if b != a {
				continue
			}
			fv := mc.Fn.(*ssa.Function).FreeVars[i]
			for _, u := range *fv.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == fv {
					out = append(out, s.Val)
				}
			}
		}
	}
	return out
}

// c30Listens: functions that open a listener without encryption.
func c30Listens(n string) bool {
	return strings.HasPrefix(n, "net.Listen") || strings.HasPrefix(n, "(net.ListenConfig).") || strings.HasSuffix(n, ".ListenInNetNS")
}

// c30Fresh: an empty configuration is made only where none was given.
func c30Fresh(a *ssa.Alloc) bool {
	if c30NoOption(a.Parent()) {
		return true
	}
	for b := a.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			break
		}
		ifi, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bin, ok := ifi.Cond.(*ssa.BinOp)
		if !ok || !isAnyTLSPtr(bin.X.Type()) {
			continue
		}
		isNilCmp := false
		for _, o := range []ssa.Value{bin.X, bin.Y} {
			if c, ok := o.(*ssa.Const); ok && c.IsNil() {
				isNilCmp = true
			}
		}
		if !isNilCmp {
			continue
		}
		succ := d.Succs[0]
		if bin.Op == token.NEQ {
			succ = d.Succs[1]
		}
		if len(succ.Preds) == 1 && succ.Dominates(a.Block()) {
			return true
		}
	}
	// made first and replaced when one was given
	for _, q := range *a.Referrers() {
		if phi, ok := q.(*ssa.Phi); ok {
			for i, e := range phi.Edges {
				if e != a {
					continue
				}
				pred := phi.Block().Preds[i]
				ifi, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If)
				if !ok {
					return false
				}
				bin, ok := ifi.Cond.(*ssa.BinOp)
				if !ok || !isAnyTLSPtr(bin.X.Type()) {
					return false
				}
				side := 0
				if bin.Op == token.NEQ {
					side = 1
				}
				return pred.Succs[side] == phi.Block()
			}
		}
	}
	return false
}

// c30Plain: nothing that asks for encryption is served or sent in the clear.
func c30Plain(p *Prog, r *Report) {
	serves := func(n string) bool {
		switch n {
		case "(net/http.Server).Serve", "(net/http.Server).ListenAndServe", "net/http.Serve", "net/http.ListenAndServe":
			return true
		}
		return false
	}
	isListener := func(fa *ssa.FieldAddr) bool {
		n := fieldName(fa.X.Type(), fa.Field)
		return (n == "Listener" || n == "PacketConn") && isNamed(deref(fa.X.Type()), dnsPath, "Server")
	}
	stores := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && isListener(fa) {
						return true
					}
				}
			}
		}
		return false
	}
	for _, fn := range p.startMethods() {
		if !carriesTLS(fn.Signature.Recv().Type(), -1) {
			continue
		}
		fn := fn
		rule := &Rule{Event: func(f *ssa.Function) bool {
			return p.inRoot(f) && (stores(f) || hasCall(f, func(c *ssa.CallCommon) bool {
				return serves(calleeName(c)) || calleeName(c) == "(net/http.Server).ServeTLS"
			}))
		}}
		noTLS := func(t *Term) bool { return lastField(t) == "NoTLS" }
		rule.Keep = func(e *Engine, a *Term) bool { return e.T.contains(a, noTLS) }
		rule.Branch = func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
			if noTLS(a) {
				if val {
					set(st, "plain")
				} else {
					set(st, "tls")
				}
			}
		}
		rule.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
			if serves(c.Name) {
				r.check("plain", p.fnName(fn)+" serves", p.iPos(c.In), has(st, "plain"), "requests are served in the clear although encryption was not turned off", st.path())
			}
			if c.Name == "(net/http.Server).ServeTLS" {
				r.ok("plain", p.fnName(fn)+" encrypts")
			}
			return nil
		}
		rule.Instr = func(e *Engine, st *State, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || !isListener(fa) {
				return
			}
			v := e.ev(st, s.Val)
			good := v.isNil()
			deep := func(t *Term) bool {
				return t.op == "call" && (t.callName() == "crypto/tls.NewListener" || strings.Contains(t.callName(), "/pion/dtls") && strings.Contains(t.callName(), ".Listen"))
			}
			if !good {
				good = e.T.contains(v, deep) || c30Holds(e, st, v, deep, 0)
				if !good && !e.T.contains(v, func(t *Term) bool { return t.op == "call" && c30Listens(t.callName()) }) {
					p.slice(s.Val, func(x ssa.Value) bool {
						if c, ok := x.(*ssa.Call); ok && strings.Contains(calleeName(&c.Call), "/pion/dtls") {
							good = true
						}
						// a variable set by a function that is run elsewhere
						if a, ok := x.(*ssa.Alloc); ok {
							for _, w := range captured(a) {
								p.slice(w, func(y ssa.Value) bool {
									if c, ok := y.(*ssa.Call); ok && strings.Contains(calleeName(&c.Call), "/pion/dtls") {
										good = true
									}
									return !good
								})
							}
						}
						return !good
					})
				}
			}
			r.check("plain", p.fnName(fn)+" listener", p.iPos(in), good, "the listener of an encrypted service accepts connections in the clear", st.path())
		}
		e := newEngine(p, rule)
		e.run(fn, "", nil)
		r.engine(e)
	}
	// the transport of a DNS-over-TLS listener
	if fn := p.root.Func("NewDoTListener"); fn != nil {
		for _, net := range []string{"", "tcp", "tcp4", "tcp6"} {
			rule := &Rule{}
			net := net
			rule.Instr = func(e *Engine, st *State, in ssa.Instruction) {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "Net" && isNamed(deref(fa.X.Type()), dnsPath, "Server") {
						v, ok := e.ev(st, s.Val).str()
						r.check("plain", "dot listener "+net, p.iPos(in), ok && strings.HasSuffix(v, "-tls"), "a DNS-over-TLS listener on "+net+" listens in the clear", st.path())
					}
				}
			}
			e := newEngine(p, rule)
			e.run(fn, "", func(st *State, ps []*Term) {
				if len(ps) > 2 && isStringT(fn.Params[2].Type()) {
					ps[2] = e.T.constT(constant.MakeString(net), types.Typ[types.String])
				}
			})
			r.engine(e)
		}
	}
	// the client
	t := p.typ(p.root, "GenericDNSClient")
	if t == nil {
		return
	}
	for _, fn := range p.funcs {
		if !p.inRoot(fn) || c30NoOption(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fieldName(fa.X.Type(), fa.Field) != "Net" || !isNamed(deref(fa.X.Type()), modPath, "GenericDNSClient") {
					continue
				}
				c, ok := s.Val.(*ssa.Const)
				r.check("plain", p.fnName(fn)+" net", p.iPos(in), ok && c.Value != nil && strings.HasSuffix(constant.StringVal(c.Value), "-tls"), "a client with a TLS configuration connects in the clear", nil)
			}
		}
	}
	dial := p.method(t, "Dial")
	if dial == nil {
		return
	}
	rule := &Rule{}
	isClient := func(t *Term) bool { return t.op == "call" && t.callName() == "crypto/tls.Client" }
	suffixed := func(a *Term) bool {
		return a.op == "call" && (a.callName() == "strings.HasSuffix" || a.callName() == "strings.HasPrefix")
	}
	rule.Keep = func(e *Engine, a *Term) bool { return true }
	rule.Branch = func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
		if suffixed(a) && !val && e.T.contains(a, func(t *Term) bool { return lastField(t) == "Net" }) {
			set(st, "notls")
		}
		if a.op == "bin" && a.s == "==" && !val {
			for _, x := range a.args {
				if s, ok := x.str(); ok && strings.HasSuffix(s, "-tls") {
					set(st, "notls")
				}
			}
		}
	}
	rule.Return = func(e *Engine, st *State, in *ssa.Return, res []*Term) {
		if len(res) != 2 || has(st, "notls") {
			return
		}
		if isnil, known := e.isNil(st, res[1]); known && !isnil {
			return
		}
		s, ok := deref(cfgType(dial)).Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "Conn" {
				v := e.load(st, e.fa(res[0], "Conn", s.Field(i).Type()), s.Field(i).Type())
				r.check("plain", "client", p.iPos(in), e.T.contains(v, isClient), "a connection that asks for TLS is handed out without it", st.path())
			}
		}
	}
	e := newEngine(p, rule)
	e.run(dial, "", nil)
	r.engine(e)
}

// c30Holds: a wrapper whose fields hold such a value.
func c30Holds(e *Engine, st *State, v *Term, want func(*Term) bool, depth int) bool {
	if depth > 3 {
		return false
	}
	for v.op == "mi" && len(v.args) > 0 {
		v = v.args[0]
	}
	if v.typ == nil {
		return false
	}
	s, ok := deref(v.typ).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		var f *Term
		if isPtr(v.typ) {
			f = e.load(st, e.fa(v, s.Field(i).Name(), s.Field(i).Type()), s.Field(i).Type())
		} else {
			f = e.vf(st, v, s.Field(i).Name(), s.Field(i).Type())
		}
		if f != nil && (e.T.contains(f, want) || c30Holds(e, st, f, want, depth+1)) {
			return true
		}
	}
	return false
}
