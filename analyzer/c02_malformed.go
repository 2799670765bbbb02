package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C02", `Every index and slice expression on a message section, an option list, an address or a list of labels, every unchecked type assertion on a record or option, and every use of a possibly missing EDNS record in code reachable from a listener or an element is enumerated. Each needs a fact on its path: the length was compared, the loop bound is that length, the type was tested, the pointer was compared with nil. The question of a query is a requirement that is passed on to the caller (through static calls, interface calls and function values) until the caller has a fact; a listener must have one before it hands a query to the pipeline.`,
		runC02, "messages decoded by the DNS library contain no nil records", "indices that were stored in a list of indices are not followed")
}

type reqKey struct {
	fn   *ssa.Function
	i    int // parameter index
	free bool
	kind string // "" a message with a question, "each" a list of such messages, "v4" a four-byte address, "#k" a list longer than k
}

type c02 struct {
	p        *Prog
	r        *Report
	requires map[reqKey]bool
	changed  bool
	dynamic  map[string][]*ssa.Function // signature -> escaping functions
	visited  map[ssa.Instruction]bool
	filled   map[string]bool // map types whose values are only ever the result of appending an element
	nofill   map[string]bool

	containers map[string]bool // packages of containers that hold messages
}

func isNamedT(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

// sliceKind classifies a slice type the rule is about.
func sliceKind(t types.Type) string {
	if isNamedT(t, "net", "IP") {
		return "address"
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return ""
	}
	el := s.Elem()
	switch {
	case isNamedT(el, dnsPath, "Question"):
		return "question section"
	case isNamedT(el, dnsPath, "RR"):
		return "record section"
	case isNamedT(el, dnsPath, "EDNS0"):
		return "option list"
	}
	if b, ok := el.Underlying().(*types.Basic); ok && b.Kind() == types.String {
		return "list of strings"
	}
	return ""
}

func sigKey(s *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), nil)
}

func runC02(p *Prog, r *Report) {
	c := &c02{p: p, r: r, requires: map[reqKey]bool{}, dynamic: map[string][]*ssa.Function{}}
	for fn := range p.escaping() {
		c.dynamic[sigKey(fn.Signature)] = append(c.dynamic[sigKey(fn.Signature)], fn)
	}
	scope := map[*ssa.Function]bool{}
	dnsH, httpH := p.handlers()
	roots := append(append(append([]*ssa.Function{}, p.resolvers()...), dnsH...), httpH...)
	roots = append(roots, p.startMethods()...)
	for _, f := range roots {
		for g := range p.reach(f) {
			scope[g] = true
		}
	}
	// goroutines started by constructors and everything with a message parameter
	for _, f := range p.funcs {
		if fnTouchesMsg(f) {
			for g := range p.reach(f) {
				scope[g] = true
			}
		}
	}
	c.filled, c.nofill = map[string]bool{}, map[string]bool{}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok {
					k := types.TypeString(mu.Map.Type().Underlying(), nil)
					if c.appended(mu.Value) {
						c.filled[k] = true
					} else {
						c.nofill[k] = true
					}
				}
			}
		}
	}
	c.containers = map[string]bool{}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if cl, ok := in.(ssa.CallInstruction); ok {
					if pk := containerCall(p, cl.Common()); pk != "" && msgArg(cl.Common()) >= 0 {
						c.containers[pk] = true
					}
				}
			}
		}
	}
	for round := 0; round < 6; round++ {
		c.changed = false
		tmp := &Report{prop: r.prop, p: p, rules: map[string]*ruleStat{}, funcs: map[string]bool{}}
		c.r = tmp
		c.visited = map[ssa.Instruction]bool{}
		for _, fn := range p.funcs {
			if scope[fn] {
				c.fn(fn, dnsH, httpH)
			}
		}
		if !c.changed {
			r.absorb(tmp)
			break
		}
		if round == 5 {
			r.viol("fixpoint", "rounds", "", "the requirements of the functions did not settle", nil)
		}
	}
	r.atLeast("question", 15)
	r.atLeast("resolve-with-question", 20)
	r.atLeast("edns-present", 5)
}

// appended: v is a list to which one or more elements were just appended.
func (c *c02) appended(v ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := call.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" || len(call.Call.Args) != 2 {
		return false
	}
	sl, ok := call.Call.Args[1].(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return false
	}
	pt, ok := sl.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	a, ok := pt.Elem().Underlying().(*types.Array)
	return ok && a.Len() > 0
}

// mapElem: s is a value met while ranging over a map whose values are never empty lists.
func (c *c02) mapElem(s *Term) bool {
	if s.op != "ext" || s.args[0].op != "next" || s.args[0].args[0].op != "range" {
		return false
	}
	m := s.args[0].args[0].args[0]
	if m.typ == nil {
		return false
	}
	k := types.TypeString(m.typ.Underlying(), nil)
	return c.filled[k] && !c.nofill[k]
}

func (c *c02) want(k reqKey) {
	if !c.requires[k] {
		c.requires[k] = true
		c.changed = true
	}
}

func (c *c02) isContract(fn *ssa.Function, i int) bool {
	return fn.Name() == "Resolve" && isResolveSig(fn.Signature) && fn.Signature.Recv() != nil && i == 1
}

// paramIndex: the entry's parameter (or captured variable) that root is.
func (c *c02) paramIndex(fn *ssa.Function, root *Term) (reqKey, bool) {
	for i, p := range fn.Params {
		if root.op == "param" && root.s == p.Name()+"@"+c.p.fnName(fn) {
			return reqKey{fn, i, false, ""}, true
		}
	}
	for i, f := range fn.FreeVars {
		if root.op == "param" && root.s == "free:"+f.Name()+"@"+c.p.fnName(fn) {
			return reqKey{fn, i, true, ""}, true
		}
	}
	return reqKey{}, false
}

func neFlag(t *Term) string { return fmt.Sprintf("ne%d;", t.id) }

// nonempty: the message has at least one question. need collects entry parameters this depends on.
func (c *c02) nonempty(e *Engine, st *State, fn *ssa.Function, m *Term, need *[]reqKey, depth int) bool {
	if depth > 12 {
		return false
	}
	if has(st, neFlag(m)) {
		return true
	}
	if s := e.load(st, e.fa(m, "Question", types.NewPointer(questionSlice(e.p))), questionSlice(e.p)); c.longer(e, st, s, 0) {
		return true
	}
	switch m.op {
	case "param":
		if k, ok := c.paramIndex(fn, m); ok {
			if !c.isContract(fn, k.i) || k.free {
				*need = append(*need, k)
			}
			return true
		}
	case "call", "ext":
		cl := m
		if m.op == "ext" {
			cl = m.args[0]
		}
		if n := cl.callName(); cl.op == "call" && n != "" && c.containers[pkgOf(n)] {
			return true // put there by code that is checked where it does so
		}
		if strings.HasSuffix(m.callName(), ".Msg).Copy") || strings.HasSuffix(m.callName(), ".Msg).CopyTo") {
			return c.nonempty(e, st, fn, m.args[0], need, depth+1)
		}
	case "ld":
		if a := m.args[0]; a.op == "ia" {
			return c.each(e, st, fn, a.args[0], need, depth+1)
		}
		// a captured variable
		if m.args[0].op == "param" {
			if k, ok := c.paramIndex(fn, m.args[0]); ok && k.free {
				*need = append(*need, k)
				return true
			}
		}
	case "phi", "merge":
		if len(m.args) == 0 {
			return false
		}
		for _, a := range m.args {
			if a != m && !c.nonempty(e, st, fn, a, need, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// each: every message of the list has a question.
func (c *c02) each(e *Engine, st *State, fn *ssa.Function, s *Term, need *[]reqKey, depth int) bool {
	switch s.op {
	case "param":
		if k, ok := c.paramIndex(fn, s); ok && !k.free {
			k.kind = "each"
			*need = append(*need, k)
			return true
		}
	case "slice":
		return c.each(e, st, fn, s.args[0], need, depth)
	case "alloc":
		n := 0
		for a, v := range st.mem {
			if a.op == "ia" && a.args[0] == s {
				n++
				if !c.nonempty(e, st, fn, v, need, depth+1) {
					return false
				}
			}
		}
		return n > 0
	}
	return false
}

func questionSlice(p *Prog) types.Type {
	return types.NewSlice(p.typ(p.dns, "Question"))
}

// longer: len(s) > k is known.
func (c *c02) longer(e *Engine, st *State, s *Term, k int64) bool {
	switch s.op {
	case "call":
		n := s.callName()
		if strings.HasPrefix(n, "strings.Split") && k == 0 {
			return true
		}
		if (n == "(net.IP).To4" && k < 4) || (n == "(net.IP).To16" && k < 16) {
			if nl, ok := e.isNil(st, s); ok && !nl {
				return true
			}
			// To4 of something that is already four bytes long
			if n == "(net.IP).To4" {
				return c.longer(e, st, s.args[0], 3) && s.args[0].op == "call"
			}
		}
	case "ext":
		if k == 0 && c.mapElem(s) {
			return true
		}
	case "append":
		if k == 0 && len(s.args) > 1 {
			if s.args[1].op == "slice" {
				return true // at least one element was appended
			}
		}
		return c.longer(e, st, s.args[0], k)
	case "slice":
		if p, ok := s.args[0].typ.Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok && s.args[1].isNil() && s.args[2].isNil() {
				return a.Len() > k
			}
		}
		if hi, ok := s.args[2].intv(); ok {
			if lo, ok := s.args[1].intv(); ok || s.args[1].isNil() {
				return hi-lo > k // the slice expression itself needs as many
			}
		}
		if lo, ok := s.args[1].intv(); (ok || s.args[1].isNil()) && s.args[2].isNil() {
			return c.longer(e, st, s.args[0], k+lo)
		}
	case "phi", "merge":
		if len(s.args) > 0 {
			all := true
			for _, a := range s.args {
				if a == s || !c.longer(e, st, a, k) {
					all = false
					break
				}
			}
			if all {
				return true
			}
		}
	}
	l := e.T.lenOf(s)
	v, ok := e.eval(st, e.T.bin(token.LSS, e.T.intT(k), l, types.Typ[types.Bool]))
	return ok && v
}

func msgOfSection(s *Term) *Term {
	if s.op == "ld" && s.args[0].op == "fa" && s.args[0].args[0].typ != nil && isNamed(s.args[0].args[0].typ, dnsPath, "Msg") {
		return s.args[0].args[0]
	}
	return nil
}

func (c *c02) fn(fn *ssa.Function, dnsH, httpH []*ssa.Function) {
	p := c.p
	handler := false
	for _, h := range append(append([]*ssa.Function{}, dnsH...), httpH...) {
		if h == fn {
			handler = true
		}
	}
	rule := &Rule{FollowGo: true}
	rule.Inline = func(e *Engine, f *ssa.Function) bool {
		if f.Name() == "Resolve" && isResolveSig(f.Signature) {
			return false
		}
		return len(e.stack) <= 2 && e.getInfo(f).size <= 120 && len(f.Blocks) <= 25
	}
	rule.Keep = func(e *Engine, a *Term) bool { return relevant(e, a) }
	// require discharges a requirement on a message, or passes it on to the callers of fn.
	require := func(e *Engine, st *State, in ssa.Instruction, m *Term, ruleName, what string) {
		c.visited[in] = true
		var need []reqKey
		key := p.fnName(in.Parent()) + " in " + p.fnName(fn)
		if !c.nonempty(e, st, fn, m, &need, 0) {
			c.r.viol(ruleName, key, p.iPos(in), what+" although the message may have no question ("+short(m)+")", st.path())
			return
		}
		for _, k := range need {
			if handler {
				c.r.viol(ruleName, key, p.iPos(in), what+" although a client's message may have no question", st.path())
				return
			}
			c.want(k)
		}
		c.r.ok(ruleName, key)
	}
	index := func(e *Engine, st *State, in ssa.Instruction, x, idx ssa.Value) {
		kind := sliceKind(x.Type())
		if kind == "" {
			return
		}
		s, i := e.ev(st, x), e.ev(st, idx)
		key := p.fnName(in.Parent()) + "/" + kind
		if k, ok := i.intv(); ok {
			if c.longer(e, st, s, k) {
				c.r.ok("index", key)
				return
			}
			if kind == "question section" && k == 0 {
				if m := msgOfSection(s); m != nil {
					require(e, st, in, m, "question", "the question is read")
					return
				}
			}
			if kind == "list of strings" && !labelList(e, s) {
				return
			}
			if !handler && s.op == "param" {
				if k2, ok := c.paramIndex(fn, s); ok && !k2.free {
					k2.kind = fmt.Sprintf("#%d", k)
					c.want(k2)
					c.r.ok("index", key)
					return
				}
			}
			if !handler && s.op == "call" && s.callName() == "(net.IP).To4" && k < 4 && s.args[0].op == "param" {
				if k2, ok := c.paramIndex(fn, s.args[0]); ok && !k2.free {
					k2.kind = "v4"
					c.want(k2)
					c.r.ok("index", key)
					return
				}
			}
			c.r.viol("index", key, p.iPos(in), fmt.Sprintf("element %d of the %s is used although it may not exist (%s)", k, kind, short(s)), st.path())
			return
		}
		if kind == "list of strings" || kind == "address" {
			return
		}
		// a computed index
		l := e.T.lenOf(s)
		if v, ok := e.eval(st, e.T.bin(token.LSS, i, l, types.Typ[types.Bool])); ok && v {
			c.r.ok("index", key)
			return
		}
		if i.op == "bin" && i.s == "-" && i.args[0] == l { // len-k
			if k, ok := i.args[1].intv(); ok {
				c.r.check("index", key, p.iPos(in), c.longer(e, st, s, k-1), "the last element of the "+kind+" is used although it may be empty", st.path())
				return
			}
		}
		if k, ok := offsetOf(i); ok && k > 0 {
			c.r.viol("index", key, p.iPos(in), fmt.Sprintf("an element after the current one of the %s is used without knowing that it exists", kind), st.path())
			return
		}
		c.r.note("%s: index %s of the %s is not decided", p.iPos(in), short(i), kind)
	}
	rule.Branch = func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
		if a.op != "bin" {
			return
		}
		for _, x := range a.args {
			if x.op == "len" {
				if m := msgOfSection(x.args[0]); m != nil && x.args[0].args[0].s == "Question" && c.longer(e, st, x.args[0], 0) {
					set(st, neFlag(m))
				}
			}
		}
	}
	rule.Instr = func(e *Engine, st *State, in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.IndexAddr:
			index(e, st, in, x.X, x.Index)
		case *ssa.Index:
			index(e, st, in, x.X, x.Index)
		case *ssa.Slice:
			kind := sliceKind(x.X.Type())
			if kind == "" || kind == "list of strings" || kind == "address" {
				return
			}
			if x.Low != nil {
				if k, ok := e.ev(st, x.Low).intv(); ok && k > 0 {
					s := e.ev(st, x.X)
					c.r.check("index", p.fnName(in.Parent())+"/"+kind, p.iPos(in), c.longer(e, st, s, k-1), "the "+kind+" is cut although it may be shorter", st.path())
				}
			}
			if x.High != nil {
				if k, ok := e.ev(st, x.High).intv(); ok && k > 0 {
					s := e.ev(st, x.X)
					c.r.check("index", p.fnName(in.Parent())+"/"+kind, p.iPos(in), c.longer(e, st, s, k-1), "the "+kind+" is cut although it may be shorter", st.path())
				}
			}
		case *ssa.TypeAssert:
			if x.CommaOk || !(isNamedT(x.X.Type(), dnsPath, "RR") || isNamedT(x.X.Type(), dnsPath, "EDNS0") || isNamedT(x.X.Type(), "net", "Addr")) {
				return
			}
			v := e.ev(st, x.X)
			key := p.fnName(in.Parent()) + "/" + types.TypeString(x.AssertedType, nil)
			good := v.op == "mi"
			if b, ok := e.eval(st, e.T.mk("is", x.AssertedType.String(), types.Typ[types.Bool], false, v)); ok && b {
				good = true
			}
			if !good && isNamedT(x.X.Type(), dnsPath, "RR") {
				good = rrtypeFact(e, st, v, x.AssertedType)
			}
			c.r.check("assertion", key, p.iPos(in), good, "the concrete type of a record, option or address is assumed without having been tested", st.path())
		case *ssa.FieldAddr:
			c.ednsUse(e, st, in, e.ev(st, x.X))
		case *ssa.MakeClosure:
			g := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if c.requires[reqKey{g, i, true, ""}] {
					t := e.ev(st, b)
					if pt, ok := b.Type().Underlying().(*types.Pointer); ok && isMsgPtr(pt.Elem()) {
						t = e.load(st, t, pt.Elem())
					}
					require(e, st, in, t, "question-closure", "a captured message's question will be read")
				}
			}
		case *ssa.Store:
			// replacing the question section invalidates what was known about it
			a := e.ev(st, x.Addr)
			if a.op == "fa" && a.s == "Question" {
				v := e.ev(st, x.Val)
				m := a.args[0]
				if c.longer(e, st, v, 0) {
					set(st, neFlag(m))
				} else if src := msgOfSection(v); src != nil {
					var need []reqKey
					if c.nonempty(e, st, fn, src, &need, 0) && len(need) == 0 {
						set(st, neFlag(m))
					} else {
						unset(st, neFlag(m))
					}
				} else {
					unset(st, neFlag(m))
				}
			}
		}
	}
	rule.Call = func(e *Engine, st *State, ev *CallEv) []Outcome {
		for _, a := range ev.Args {
			if strings.HasPrefix(ev.Name, "("+dnsPath+".OPT).") {
				c.ednsUse(e, st, ev.In, a)
			}
		}
		if strings.HasPrefix(ev.Name, "("+dnsPath+".Msg).") && len(ev.Args) > 0 {
			m := ev.Args[0]
			switch {
			case strings.HasSuffix(ev.Name, ").SetQuestion"), strings.HasSuffix(ev.Name, ").SetUpdate"), strings.HasSuffix(ev.Name, ").SetAxfr"), strings.HasSuffix(ev.Name, ").SetIxfr"), strings.HasSuffix(ev.Name, ").SetNotify"):
				set(st, neFlag(m))
			case strings.HasSuffix(ev.Name, ").SetReply"), strings.HasSuffix(ev.Name, ").SetRcode"):
				var need []reqKey
				if c.nonempty(e, st, fn, ev.Args[1], &need, 0) && len(need) == 0 {
					set(st, neFlag(m))
				}
			case strings.HasSuffix(ev.Name, ").SetEdns0"):
				set(st, fmt.Sprintf("ed%d;", m.id))
			case strings.HasSuffix(ev.Name, ").IsEdns0"):
				if has(st, fmt.Sprintf("ed%d;", m.id)) {
					res := e.opaque(st, ev, ev.Args)
					e.assume(st, e.T.bin(token.EQL, res[0], e.T.nilT(), types.Typ[types.Bool]), false)
					return []Outcome{{st, res}}
				}
			case strings.HasSuffix(ev.Name, ").Unpack"):
				unset(st, neFlag(m))
				if own := e.ctxFn(ev); own != nil && isConnWrite(own) && len(ev.Args) > 1 && ev.Args[1].op == "param" {
					set(st, neFlag(m)) // written by this process' own resolver
				}
			}
			return nil
		}
		if isResolveCall(ev.C) {
			require(e, st, ev.In, ev.Args[queryArg(ev.C, ev.Args)], "resolve-with-question", "a query is handed to a resolver")
			return nil
		}
		if pk := containerCall(p, ev.C); pk != "" {
			if i := msgArg(ev.C); i >= 0 && i < len(ev.Args) {
				require(e, st, ev.In, ev.Args[i], "question-stored", "a message is put in a container that others take queries from")
			}
			return nil
		}
		// requirements of callees that are not followed here
		var gs []*ssa.Function
		switch {
		case ev.C.IsInvoke():
			gs = p.impls(ev.C)
		case ev.Fn != nil:
			if !e.wantInline(ev.Fn) {
				gs = []*ssa.Function{ev.Fn}
			}
		default:
			if _, ok := ev.C.Value.(*ssa.Builtin); !ok {
				gs = c.dynamic[sigKey(ev.C.Signature())]
			}
		}
		for _, g := range gs {
			for i := range ev.Args {
				if i >= len(g.Params) {
					continue
				}
				if c.requires[reqKey{g, i, false, ""}] {
					require(e, st, ev.In, ev.Args[i], "question-passed", "a message is passed to "+p.fnName(g)+", which reads its question,")
				}
				if c.requires[reqKey{g, i, false, "each"}] {
					var need []reqKey
					good := c.each(e, st, fn, ev.Args[i], &need, 0)
					c.r.check("question-passed", p.fnName(fn)+" -> "+p.fnName(g), p.iPos(ev.In), good, "messages are passed to "+p.fnName(g)+", which reads their questions, although they may have none", st.path())
					for _, k := range need {
						c.want(k)
					}
				}
				if _, ok := g.Params[i].Type().Underlying().(*types.Slice); ok {
					for k := int64(0); k < 16; k++ {
						if c.requires[reqKey{g, i, false, fmt.Sprintf("#%d", k)}] {
							c.passed(e, st, ev.In, fn, g, ev.Args[i], k, handler)
						}
					}
					if c.requires[reqKey{g, i, false, "v4"}] {
						a := ev.Args[i]
						n, known := e.isNil(st, a)
						good := a.op == "call" && a.callName() == "(net.IP).To4" && known && !n
						if k2, ok := c.paramIndex(fn, a); ok && !k2.free && !handler {
							k2.kind = "v4"
							c.want(k2)
							good = true
						}
						c.r.check("index", p.fnName(fn)+" -> "+p.fnName(g), p.iPos(ev.In), good, "an address that may not be an IPv4 address is passed to "+p.fnName(g)+", which takes its bytes", st.path())
					}
				}
			}
		}
		return nil
	}
	e := newEngine(p, rule)
	e.run(fn, "", nil)
	c.r.engine(e)
}

func (c *c02) passed(e *Engine, st *State, in ssa.Instruction, fn, g *ssa.Function, s *Term, k int64, handler bool) {
	good := c.longer(e, st, s, k)
	if k2, ok := c.paramIndex(fn, s); !good && ok && !k2.free && !handler {
		k2.kind = fmt.Sprintf("#%d", k)
		c.want(k2)
		good = true
	}
	c.r.check("index", c.p.fnName(fn)+" -> "+c.p.fnName(g), c.p.iPos(in), good, fmt.Sprintf("a list that may not have element %d is passed to %s, which uses it", k, c.p.fnName(g)), st.path())
}

// containerCall: a call into a generic container package (not the DNS library, not this module);
// returns the package.
func containerCall(p *Prog, c *ssa.CallCommon) string {
	g := c.StaticCallee()
	if g == nil || p.inRepo(g) || len(g.TypeArgs()) == 0 {
		return ""
	}
	if o := g.Origin(); o != nil {
		g = o
	}
	if g.Pkg == nil {
		return ""
	}
	pk := g.Pkg.Pkg.Path()
	if pk == dnsPath || !strings.Contains(pk, ".") {
		return ""
	}
	return pk
}

func msgArg(c *ssa.CallCommon) int {
	for i, a := range c.Args {
		if isMsgPtr(a.Type()) {
			return i
		}
	}
	return -1
}

// isConnWrite: a Write method of a connection that exists in this process only.
func isConnWrite(fn *ssa.Function) bool {
	s := fn.Signature
	if fn.Name() != "Write" || s.Recv() == nil || s.Params().Len() != 1 || s.Results().Len() != 2 {
		return false
	}
	return types.TypeString(s.Params().At(0).Type(), nil) == "[]byte"
}

func (e *Engine) ctxFn(c *CallEv) *ssa.Function { return c.In.Parent() }

// relevant: facts the rule draws conclusions from.
func relevant(e *Engine, a *Term) bool {
	if a.op == "is" || a.op == "param" || a.op == "phi" || a.op == "merge" || a.op == "ext" {
		return true
	}
	if a.op != "bin" {
		return false
	}
	if a.args[1].isNil() {
		return true
	}
	return e.T.contains(a, func(x *Term) bool {
		return x.op == "len" || x.op == "fa" && (x.s == "Rrtype" || x.s == "Header") || x.op == "call" && strings.HasSuffix(x.callName(), ").Option") || x.op == "phi" || x.op == "make"
	})
}

// ednsUse: a pointer obtained from IsEdns0 is used.
func (c *c02) ednsUse(e *Engine, st *State, in ssa.Instruction, t *Term) {
	if t.op != "call" || !strings.HasPrefix(t.callName(), "("+dnsPath+".Msg).IsEdns0") {
		return
	}
	n, ok := e.isNil(st, t)
	c.r.check("edns-present", c.p.fnName(in.Parent()), c.p.iPos(in), ok && !n, "the EDNS record is used although the message may have none", st.path())
}

// labelList: a list of strings that can be empty depending on message content.
func labelList(e *Engine, s *Term) bool {
	n := s.callName()
	return n == dnsPath+".SplitDomainName" || n == "strings.Fields" || n == "strings.FieldsFunc" || strings.HasPrefix(n, "(regexp.Regexp).Find")
}

func offsetOf(t *Term) (int64, bool) {
	if t.op == "bin" && t.s == "+" {
		return t.args[1].intv()
	}
	return 0, false
}

// rrtypeFact: the record's type number is known and belongs to the asserted Go type.
func rrtypeFact(e *Engine, st *State, v *Term, asserted types.Type) bool {
	name := ""
	if p, ok := asserted.(*types.Pointer); ok {
		if n, ok := types.Unalias(p.Elem()).(*types.Named); ok {
			name = n.Obj().Name()
		}
	}
	var want int64 = -1
	if k, ok := e.p.dns.Members["Type"+name].(*ssa.NamedConst); ok {
		want = k.Value.Int64()
	}
	if want < 0 {
		return false
	}
	for f, val := range st.facts {
		if val && f.op == "bin" && f.s == "==" {
			if k, ok := f.args[1].intv(); ok && k == want && e.T.readsField(f.args[0], "Rrtype") && e.T.contains(f.args[0], func(x *Term) bool { return x == v }) {
				return true
			}
		}
	}
	return false
}

// absorb takes over the obligations of another report.
func (r *Report) absorb(o *Report) {
	for k, s := range o.rules {
		r.rules[k] = s
	}
	r.obls = append(r.obls, o.obls...)
	for _, v := range o.viols {
		r.viols = append(r.viols, v)
	}
	r.vseen = o.vseen
	r.paths += o.paths
	r.calls += o.calls
	for f := range o.funcs {
		r.funcs[f] = true
	}
	r.notes = append(r.notes, o.notes...)
	r.steps += o.steps
}
