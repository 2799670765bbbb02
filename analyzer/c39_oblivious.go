package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C39: the oblivious proxy cannot be steered to arbitrary requests.

func init() {
	register("C39", "the oblivious proxy forwards only after its checks and the target answers only complete, decrypted queries",
		runC39,
		"http.MaxBytesReader makes reading a longer body fail; (*url.URL).String escapes what a path may not contain",
		"A client whose CheckRedirect returns an error does not follow redirects")
}

const odohType = "application/oblivious-dns-message"

func runC39(p *Prog, r *Report) {
	sends := func(c *ssa.CallCommon) bool {
		n := calleeName(c)
		return strings.HasPrefix(n, "(net/http.Client).") || strings.HasPrefix(n, "net/http.Get") || strings.HasPrefix(n, "net/http.Post") || strings.HasSuffix(n, "RoundTripper).RoundTrip") || strings.HasSuffix(n, ".Transport).RoundTrip")
	}
	decrypts := func(c *ssa.CallCommon) bool { return strings.HasSuffix(calleeName(c), ").DecryptQuery") }
	for _, fn := range p.funcs {
		sig := fn.Signature
		if !p.inRoot(fn) || sig.Params().Len() != 2 || !isNamed(sig.Params().At(0).Type(), "net/http", "ResponseWriter") || !isNamed(deref(sig.Params().At(1).Type()), "net/http", "Request") || sig.Results().Len() != 0 || len(fn.Params) < 2 {
			continue
		}
		if p.reachesCall(fn, sends) {
			c39Proxy(p, r, fn, sends)
		}
		if p.reachesCall(fn, decrypts) {
			c39Target(p, r, fn, decrypts)
		}
	}
	r.atLeast("proxy", 6)
	r.atLeast("redirect", 1)
	r.atLeast("target", 4)
}

// c39Common keeps track of what is known about the request.
type c39Req struct {
	p *Prog
	e *Engine
	r string // the request
}

func (x *c39Req) branch(st *State, a *Term, val bool) {
	e := x.e
	if a.op == "bin" && a.s == "==" {
		u, v := a.args[0], a.args[1]
		if s, ok := u.str(); ok && !v.isConst() {
			u, v = v, u
			_ = s
		}
		s, isC := v.str()
		switch {
		case isC && u.isField("Method") && partOf(u, x.r):
			if val && s == "POST" {
				set(st, "post")
			}
		case isC && x.header(u) != "":
			if val && s == odohType {
				set(st, x.header(u))
			}
		case v.isNil() && isErrorType(u.typ):
			if c := u; c.op == "ext" || c.op == "call" {
				if c.op == "ext" {
					c = c.args[0]
				}
				if val {
					set(st, "ok:"+itoa(c.id))
				}
			}
		case u.isField("StatusCode"):
			if k, ok := v.intv(); ok && k == 200 && val {
				set(st, "status")
			}
		}
		return
	}
	if a.op == "call" {
		switch n := a.callName(); {
		case n == "(regexp.Regexp).MatchString" && len(a.args) == 2 && val:
			if re, ok := c39Pattern(x.p, a.args[0]); ok && hostsOnly(re) {
				set(st, "host:"+itoa(a.args[1].id))
			}
		case n == "strings.HasPrefix" && len(a.args) == 2 && val:
			if s, ok := a.args[1].str(); ok && s == "/" {
				set(st, "slash:"+itoa(a.args[0].id))
			}
		case n == "strings.Contains" && len(a.args) == 2 && !val:
			if s, ok := a.args[1].str(); ok && (s == ".." || s == ".") {
				set(st, "nodots:"+itoa(a.args[0].id))
			}
		}
	}
	if a.op == "bin" && a.s == "<" {
		// length of the host
		u, v := a.args[0], a.args[1]
		if k, ok := u.intv(); ok && v.op == "len" && !val && k <= 255 {
			set(st, "short:"+itoa(v.args[0].id))
		}
		if k, ok := v.intv(); ok && u.op == "len" && val && k <= 256 {
			set(st, "short:"+itoa(u.args[0].id))
		}
	}
	_ = e
}

// header: the term is the content type of the request ("type") or of the target's answer ("rtype").
func (x *c39Req) header(t *Term) string {
	if t.op != "call" || t.callName() != "(net/http.Header).Get" || len(t.args) != 2 {
		return ""
	}
	if s, ok := t.args[1].str(); !ok || !strings.EqualFold(s, "Content-Type") {
		return ""
	}
	if partOf(t.args[0], x.r) {
		return "type"
	}
	return "rtype"
}

// whole: the term holds the complete body of the request, of limited size.
func (x *c39Req) whole(st *State, t *Term) bool {
	return x.e.T.contains(t, func(y *Term) bool {
		if y.op != "call" || y.callName() != "io.ReadAll" || !has(st, "ok:"+itoa(y.id)) {
			return false
		}
		return x.e.T.contains(y, func(z *Term) bool {
			return z.op == "call" && z.callName() == "net/http.MaxBytesReader" && len(z.args) == 3 && z.args[2].isConst() && x.e.T.contains(z.args[1], func(b *Term) bool { return b.isField("Body") })
		})
	})
}

func c39Proxy(p *Prog, r *Report, fn *ssa.Function, sends func(*ssa.CallCommon) bool) {
	name := p.fnName(fn)
	e := newEngine(p, nil)
	req := fn.Params[len(fn.Params)-1]
	x := &c39Req{p, e, req.Name() + "@" + name}
	sent := 0
	clients := map[string]bool{}
	e.r = &Rule{
		Event:  func(f *ssa.Function) bool { return hasCall(f, sends) },
		Inline: func(e *Engine, f *ssa.Function) bool { return e.hasEvent(f) || e.getInfo(f).size < 80 },
		Branch: func(e *Engine, st *State, in *ssa.If, a *Term, val bool) { x.branch(st, a, val) },
		Call: func(e *Engine, st *State, c *CallEv) []Outcome {
			pos := p.iPos(c.In)
			chk := func(what string, ok bool, msg string) {
				r.check("proxy", name+":"+what, pos, ok, msg, st.path())
			}
			switch {
			case c.Name == "(net/url.URL).String":
				u := c.Args[0]
				get := func(f string, t types.Type) *Term { return e.load(st, e.fa(u, f, types.NewPointer(t)), t) }
				str := types.Typ[types.String]
				scheme, _ := get("Scheme", str).str()
				host, path := get("Host", str), get("Path", str)
				good := u.op == "alloc" && scheme == "https"
				for _, f := range []string{"RawQuery", "Fragment", "RawFragment", "Opaque", "RawPath"} {
					if !isEmptyString(get(f, str)) {
						good = false
					}
				}
				if !get("User", types.Typ[types.UnsafePointer]).isNil() && st.mem[e.fa(u, "User", nil)] != nil {
					good = false
				}
				res := e.opaque(st, c, c.Args)
				if good {
					set(st, "url:"+itoa(res[0].id))
					set(st, "to:"+itoa(res[0].id)+":"+itoa(host.id)+":"+itoa(path.id))
				} else {
					st.note("%s: the URL is not one with only the scheme https, a host and a path", pos)
				}
				return []Outcome{{st, res}}
			case c.Name == "net/http.NewRequest" || c.Name == "net/http.NewRequestWithContext":
				a := c.Args
				if c.Name != "net/http.NewRequest" {
					a = a[1:]
				}
				m, _ := a[0].str()
				res := e.opaque(st, c, c.Args)
				if m == "POST" {
					base := res[0]
					for base.op == "ext" {
						base = base.args[0]
					}
					set(st, "req:"+itoa(base.id))
					if has(st, "url:"+itoa(a[1].id)) {
						set(st, "ru:"+itoa(base.id)+":"+itoa(a[1].id))
					}
					if x.whole(st, a[2]) {
						set(st, "rb:"+itoa(base.id))
					}
				}
				return []Outcome{{st, res}}
			case sends(c.C):
				sent++
				chk("method", has(st, "post"), "something is forwarded that is not known to be a POST request")
				chk("type", has(st, "type"), "something is forwarded that is not known to be declared an oblivious message")
				base := (*Term)(nil)
				if strings.HasSuffix(c.Name, ".Do") && len(c.Args) == 2 {
					base = c.Args[1]
					for base.op == "ext" {
						base = base.args[0]
					}
				}
				if base == nil || !has(st, "req:"+itoa(base.id)) {
					chk("request", false, "what is sent is not known to be a POST request made for the target")
					return nil
				}
				us := flags(st, "ru:"+itoa(base.id)+":")
				chk("https", len(us) == 1, "the request is not known to go only to a host and path over HTTPS")
				chk("body", has(st, "rb:"+itoa(base.id)), "the message forwarded is not known to be the complete, size-limited one received")
				for _, u := range us {
					for _, hp := range flags(st, "to:"+u+":") {
						h, pa, _ := strings.Cut(hp, ":")
						chk("host", has(st, "host:"+h), "the target is not known to be a host name")
						chk("host-length", has(st, "short:"+h), "the length of the target's name is not limited")
						chk("path", has(st, "slash:"+pa) && has(st, "nodots:"+pa), "the path is not known to be absolute and free of parent references")
					}
				}
				if f := lastField(c.Args[0]); f != "" {
					clients[f] = true
				} else {
					chk("client", false, "the request is not sent with the proxy's own client")
				}
				set(st, "sent")
				return nil
			case has(st, "sent") && (c.Name == "io.Copy" || c.Name == "io.CopyN" || c.Name == "(net/http.ResponseWriter).Write" || c.Name == "(io.Writer).Write"):
				chk("answer", has(st, "status") && has(st, "rtype"), "an answer of the target is passed on that is not known to be a successful oblivious one")
			}
			return nil
		},
	}
	e.run(fn, "", nil)
	r.engine(e)
	r.check("proxy", name, p.pos(fn.Pos()), sent > 0 && !e.over, "nothing is forwarded, or the analysis budget was exceeded", nil)
	for f := range clients {
		c39Client(p, r, f)
	}
}

// c39Client: every client kept in the field refuses redirects.
func c39Client(p *Prog, r *Report, field string) {
	n := 0
	for _, fn := range p.funcs {
		if !p.inRoot(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fieldName(fa.X.Type(), fa.Field) != field || !isNamed(deref(s.Val.Type()), "net/http", "Client") {
					continue
				}
				n++
				r.check("redirect", p.fnName(fn)+":"+field, p.iPos(in), refusesRedirects(p, s.Val, 0), "the proxy's client is not known to refuse redirects", nil)
			}
		}
	}
	r.check("redirect", field, "", n > 0, "the proxy's client is made nowhere", nil)
}

func refusesRedirects(p *Prog, v ssa.Value, depth int) bool {
	if depth > 3 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		found, good := false, true
		for _, ref := range *x.Referrers() {
			fa, ok := ref.(*ssa.FieldAddr)
			if !ok || fieldName(fa.X.Type(), fa.Field) != "CheckRedirect" {
				continue
			}
			for _, r2 := range *fa.Referrers() {
				s, ok := r2.(*ssa.Store)
				if !ok {
					continue
				}
				found = true
				f := fnValue(s.Val)
				if f == nil || len(f.Blocks) == 0 {
					good = false
					continue
				}
				for _, b := range f.Blocks {
					ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
					if !ok {
						continue
					}
					if !nonNilErr(ret.Results[0]) {
						good = false
					}
				}
			}
		}
		return found && good
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || !p.inRepo(f) {
			return false
		}
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if c, isC := ret.Results[0].(*ssa.Const); isC && c.IsNil() {
					continue
				}
				if !refusesRedirects(p, ret.Results[0], depth+1) {
					return false
				}
			}
		}
		return true
	case *ssa.Extract:
		return refusesRedirects(p, x.Tuple, depth)
	}
	return false
}

func fnValue(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return fnValue(x.X)
	}
	return nil
}

// nonNilErr: an exported error variable or a new error.
func nonNilErr(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		g, ok := x.X.(*ssa.Global)
		return ok && strings.HasPrefix(g.Name(), "Err")
	case *ssa.Call:
		n := calleeName(&x.Call)
		return n == "errors.New" || n == "fmt.Errorf"
	case *ssa.MakeInterface:
		return true
	}
	return false
}

// c39Pattern finds the constant a regular expression is compiled from.
func c39Pattern(p *Prog, t *Term) (string, bool) {
	if t.op == "call" && t.callName() == "regexp.MustCompile" && len(t.args) == 1 {
		return t.args[0].str()
	}
	if t.op == "ld" && t.args[0].op == "global" {
		t = t.args[0]
	}
	if t.op != "global" {
		return "", false
	}
	for _, pkg := range []*ssa.Package{p.root, p.cmd} {
		init := pkg.Func("init")
		if init == nil {
			continue
		}
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok || !strings.HasSuffix(t.s, g.Name()) {
					continue
				}
				if c, ok := s.Val.(*ssa.Call); ok && calleeName(&c.Call) == "regexp.MustCompile" {
					if k, ok := c.Call.Args[0].(*ssa.Const); ok && k.Value.Kind() == constant.String {
						return constant.StringVal(k.Value), true
					}
				}
			}
		}
	}
	return "", false
}

// hostsOnly: the expression accepts only whole strings of labels of letters,
// digits and hyphens separated by dots, the last of letters.
func hostsOnly(pattern string) bool {
	re, err := syntax.Parse(pattern, syntax.Perl)
	if err != nil {
		return false
	}
	re = re.Simplify()
	// every rune accepted
	okRune := func(lo, hi rune) bool {
		for _, r := range [][2]rune{{'a', 'z'}, {'A', 'Z'}, {'0', '9'}, {'-', '.'}} {
			if lo >= r[0] && hi <= r[1] {
				return true
			}
		}
		return false
	}
	good := true
	var walk func(x *syntax.Regexp)
	walk = func(x *syntax.Regexp) {
		switch x.Op {
		case syntax.OpLiteral:
			for _, r := range x.Rune {
				if !okRune(r, r) {
					good = false
				}
			}
		case syntax.OpCharClass:
			for i := 0; i+1 < len(x.Rune); i += 2 {
				if !okRune(x.Rune[i], x.Rune[i+1]) {
					// letters folded to other scripts and the like
					good = false
				}
			}
		case syntax.OpAnyChar, syntax.OpAnyCharNotNL, syntax.OpBeginLine, syntax.OpEndLine:
			good = false
		}
		for _, s := range x.Sub {
			walk(s)
		}
	}
	walk(re)
	if !good || re.Op != syntax.OpConcat || len(re.Sub) < 3 {
		return false
	}
	first, last := re.Sub[0], re.Sub[len(re.Sub)-1]
	if first.Op != syntax.OpBeginText || last.Op != syntax.OpEndText {
		return false
	}
	// the end: letters only
	var letters func(x *syntax.Regexp) bool
	letters = func(x *syntax.Regexp) bool {
		switch x.Op {
		case syntax.OpCharClass:
			for i := 0; i+1 < len(x.Rune); i += 2 {
				if !(x.Rune[i] >= 'a' && x.Rune[i+1] <= 'z' || x.Rune[i] >= 'A' && x.Rune[i+1] <= 'Z') {
					return false
				}
			}
			return true
		case syntax.OpPlus, syntax.OpCapture:
			return letters(x.Sub[0])
		case syntax.OpConcat:
			return letters(x.Sub[len(x.Sub)-1])
		case syntax.OpAlternate:
			for _, s := range x.Sub {
				if !letters(s) {
					return false
				}
			}
			return true
		}
		return false
	}
	return letters(re.Sub[len(re.Sub)-2])
}

func c39Target(p *Prog, r *Report, fn *ssa.Function, decrypts func(*ssa.CallCommon) bool) {
	name := p.fnName(fn)
	e := newEngine(p, nil)
	req := fn.Params[len(fn.Params)-1]
	x := &c39Req{p, e, req.Name() + "@" + name}
	okCall := func(st *State, t *Term, suffix string) bool {
		return e.T.contains(t, func(y *Term) bool {
			return y.op == "call" && strings.HasSuffix(y.callName(), suffix) && has(st, "ok:"+itoa(y.id))
		})
	}
	n := 0
	e.r = &Rule{
		Event:  func(f *ssa.Function) bool { return hasCall(f, decrypts) },
		Inline: func(e *Engine, f *ssa.Function) bool { return e.hasEvent(f) || e.getInfo(f).size < 80 },
		Skip: func(e *Engine, st *State, c *CallEv) bool {
			return c.Fn != nil && takesWriter(c.Fn) && !e.hasEvent(c.Fn)
		},
		Branch: func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
			x.branch(st, a, val)
			if lastField(a) == "AllowDoH" && val {
				set(st, "doh")
			}
		},
		Call: func(e *Engine, st *State, c *CallEv) []Outcome {
			pos := p.iPos(c.In)
			chk := func(what string, ok bool, msg string) {
				r.check("target", name+":"+what, pos, ok, msg, st.path())
			}
			switch {
			case decrypts(c.C):
				n++
				chk("type", has(st, "type"), "something is decrypted that is not known to be declared an oblivious message")
				chk("parsed", okCall(st, c.Args[len(c.Args)-1], "odoh-go.UnmarshalDNSMessage"), "something is decrypted that is not known to be a well-formed oblivious message")
				chk("body", x.whole(st, c.Args[len(c.Args)-1]), "the message decrypted is not known to be complete and of limited size")
				set(st, "dec")
			case isResolveCall(c.C):
				m := c.Args[queryArg(c.C, c.Args)]
				chk("query", has(st, "un:"+itoa(m.id)), "the query answered is not known to be the one decrypted")
				set(st, "asked")
			case strings.HasSuffix(c.Name, "/dns.Msg).Unpack") && len(c.Args) == 2:
				res := e.opaque(st, c, c.Args)
				yes, no := st.clone(), st
				nilErr := e.T.bin(token.EQL, res[0], e.T.nilT(), types.Typ[types.Bool])
				e.assume(yes, nilErr, true)
				e.assume(no, nilErr, false)
				if okCall(yes, c.Args[1], ").DecryptQuery") {
					set(yes, "un:"+itoa(c.Args[0].id))
				}
				return []Outcome{{yes, res}, {no, res}}
			case strings.HasSuffix(c.Name, "ResponseWriter).Write") && has(st, "asked"):
				chk("encrypted", okCall(st, c.Args[1], ").EncryptResponse"), "an answer leaves that is not known to be encrypted")
			case c.Fn != nil && takesWriter(c.Fn) && p.inRepo(c.Fn) && !e.hasEvent(c.Fn) && p.reachesCall(c.Fn, isResolveCall):
				chk("plain", has(st, "doh"), "a plain query is answered although that is not known to be allowed")
			}
			return nil
		},
	}
	e.run(fn, "", nil)
	r.engine(e)
	r.check("target", name, p.pos(fn.Pos()), n > 0 && !e.over, "nothing is decrypted, or the analysis budget was exceeded", nil)
}

// takesWriter: an HTTP handler.
func takesWriter(f *ssa.Function) bool {
	ps := f.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		if isNamed(ps.At(i).Type(), "net/http", "ResponseWriter") {
			return true
		}
	}
	return false
}
