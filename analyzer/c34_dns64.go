package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C34: IPv6 synthesis never masks native data or security state.

func init() {
	register("C34", "synthesised addresses only replace empty successful answers to AAAA queries without DNSSEC and are made from the A records",
		runC34,
		"Addresses are laid out as RFC 6052 section 2.2 says; the prefix is a network address (bits after the prefix are zero)",
		"The library's SetReply makes an empty reply that claims no authenticated data")
}

// where the four bytes of the IPv4 address go (RFC 6052, 2.2)
var c34Layout = map[int64][4]int{
	32: {4, 5, 6, 7},
	40: {5, 6, 7, 9},
	48: {6, 7, 9, 10},
	56: {7, 9, 10, 11},
	64: {9, 10, 11, 12},
	96: {12, 13, 14, 15},
}

func runC34(p *Prog, r *Report) {
	for _, fn := range p.resolvers() {
		t := deref(fn.Params[0].Type())
		if !makesRecord(p, fn, "AAAA") || !matchesA(p, fn) {
			continue
		}
		for _, k := range []int64{32, 40, 48, 56, 64, 96} {
			c34Resolve(p, r, fn, k)
		}
		c34Prefixes(p, r, t)
	}
	r.atLeast("synthesis", 6)
	r.atLeast("prefix", 1)
}

// makesRecord: the function or something it calls makes records of that type.
func makesRecord(p *Prog, fn *ssa.Function, typ string) bool {
	found := false
	p.staticReach(fn, func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && isNamed(deref(a.Type()), dnsPath, typ) {
					found = true
				}
			}
		}
		return !found
	})
	return found
}

// matchesA: the function asks for addresses of the other family.
func matchesA(p *Prog, fn *ssa.Function) bool {
	found := false
	p.staticReach(fn, func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && isNamed(deref(fa.X.Type()), dnsPath, "Question") && fieldName(fa.X.Type(), fa.Field) == "Qtype" {
						found = true
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && strings.HasSuffix(calleeName(c.Common()), "/dns.Msg).SetQuestion") {
					found = true
				}
			}
		}
		return !found
	})
	return found
}

// isPrefixList: a list of address prefixes kept by the element.
func isPrefixList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	st, ok := deref(s.Elem()).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if isNamed(st.Field(i).Type(), "net", "IP") {
			return true
		}
	}
	return false
}

func c34Resolve(p *Prog, r *Report, fn *ssa.Function, plen int64) {
	name := p.fnName(fn)
	q := fn.Params[1].Name() + "@" + name
	tag := fmt.Sprintf("%s:/%d", name, plen)
	e := newEngine(p, nil)
	bad := func(st *State, what, pos, msg string) {
		r.viol("synthesis", tag+":"+what, pos, msg, st.path())
	}
	ofPrefix := func(t *Term) bool {
		return e.T.contains(t, func(x *Term) bool { return x.typ != nil && isPrefixList(x.typ) })
	}
	lists := 0 // the loop over the prefixes
	// which: the part of a term that comes from the answer to the query itself (1) or from the A answer (2)
	which := func(st *State, t *Term) int {
		w := 0
		e.T.contains(t, func(x *Term) bool {
			if x.op == "call" {
				if has(st, "c:1:"+itoa(x.id)) {
					w |= 1
				}
				if has(st, "c:2:"+itoa(x.id)) {
					w |= 2
				}
			}
			return false
		})
		return w
	}
	// base: the array a slice is part of, and where it starts and ends
	var base func(t *Term) (*Term, int64, int64)
	base = func(t *Term) (*Term, int64, int64) {
		switch t.op {
		case "conv":
			return base(t.args[0])
		case "slice":
			b, lo, hi := base(t.args[0])
			if b == nil {
				return nil, 0, 0
			}
			if k, ok := t.args[1].intv(); ok {
				if h, ok := t.args[2].intv(); ok {
					return b, lo + k, lo + h
				}
				if !t.args[2].isNil() {
					return nil, 0, 0
				}
				return b, lo + k, hi
			} else if !t.args[1].isNil() {
				return nil, 0, 0
			}
			if h, ok := t.args[2].intv(); ok {
				return b, lo, lo + h
			} else if !t.args[2].isNil() {
				return nil, 0, 0
			}
			return b, lo, hi
		case "call":
			if isTo4(t) {
				return t, 0, 4
			}
			return t, 0, 16
		}
		return t, 0, 16
	}
	setByte := func(st *State, b *Term, i int64, src string) {
		pre := fmt.Sprintf("b:%d:%d:", b.id, i)
		for _, f := range flags(st, pre) {
			unset(st, pre+f)
		}
		set(st, pre+src)
	}
	// source of a byte
	source := func(b *Term, i int64) string {
		switch {
		case isTo4(b) && e.T.contains(b, func(x *Term) bool { return x.isField("A") }):
			return fmt.Sprint(i)
		case ofPrefix(b):
			return fmt.Sprintf("p%d", i)
		}
		return "x"
	}
	clear := func(st *State, pre string) {
		for _, f := range flags(st, pre) {
			unset(st, pre+f)
		}
	}
	endScan := func(st *State) {
		if has(st, "i:in") && !has(st, "i:no") {
			set(st, "unsure")
		}
		clear(st, "i:")
	}
	endPrefix := func(st *State, pos string) {
		if has(st, "p:in") && !has(st, "p:made") && has(st, "r:A") && !has(st, "r:none") {
			bad(st, "prefix", pos, "no address is made from an A record with one of the configured prefixes")
		}
		clear(st, "p:")
	}
	endRecord := func(st *State, pos string) {
		if has(st, "r:in") && !has(st, "r:none") && !has(st, "r:all") && (has(st, "r:A") || !has(st, "r:other")) {
			bad(st, "record", pos, "an A record is passed over")
		}
		clear(st, "r:")
	}
	synth, passed := 0, 0
	isAAAA := func(a *Term) bool {
		if a.op == "is" {
			return strings.HasSuffix(a.s, dnsPath+".AAAA")
		}
		if a.op != "bin" || a.s != "==" {
			return false
		}
		k, ok := a.args[1].intv()
		return ok && k == 28 && a.args[0].isField("Rrtype")
	}
	e.r = &Rule{
		Unroll: true,
		Inline: func(e *Engine, f *ssa.Function) bool { return p.inRepo(f) && e.getInfo(f).size < 300 },
		Field: func(t *Term) *Term {
			// the length of a prefix
			if t.typ != nil && isIntT(t.typ) && ofPrefix(t) {
				return e.T.intT(plen)
			}
			return nil
		},
		Call: func(e *Engine, st *State, c *CallEv) []Outcome {
			pos := p.iPos(c.In)
			if bi, ok := c.C.Value.(*ssa.Builtin); ok {
				switch {
				case bi.Name() == "len" && isTo4(c.Args[0]):
					if isnil, known := e.isNil(st, c.Args[0]); known && !isnil {
						return []Outcome{{st, []*Term{e.T.intT(4)}}}
					}
				case bi.Name() == "len" && isRRs(c.C.Args[0].Type()) && c.Args[0].isNil():
					set(st, "empty")
				case bi.Name() == "copy" && len(c.Args) == 2:
					d, lo, hi := base(c.Args[0])
					s, slo, shi := base(c.Args[1])
					if d == nil || s == nil {
						return nil
					}
					for i := int64(0); i < hi-lo && i < shi-slo && i < 16; i++ {
						setByte(st, d, lo+i, source(s, slo+i))
					}
				case bi.Name() == "append" && isRRs(c.C.Args[0].Type()):
					var els []*Term
					if b := c.Args[1]; b.op == "slice" && b.args[0].op == "alloc" {
						for k := int64(0); k < 8; k++ {
							v, ok := st.mem[e.T.mk("ia", "", nil, false, b.args[0], e.T.intT(k))]
							if !ok {
								break
							}
							els = append(els, v)
						}
					}
					for _, v := range els {
						for v.op == "mi" {
							v = v.args[0]
						}
						if v.op == "alloc" && isNamed(deref(v.typ), dnsPath, "AAAA") {
							if has(st, "p:made") {
								bad(st, "twice", pos, "more than one address is made from an A record with the same prefix")
							}
							set(st, "p:made")
							synth++
							c34Record(p, r, e, st, v, tag, plen, pos, which, base, bad)
						}
					}
				}
				return nil
			}
			if isResolveCall(c.C) {
				i := queryArg(c.C, c.Args)
				m := c.Args[i]
				res := e.opaque(st, c, c.Args)
				t := res[0]
				for t.op == "ext" {
					t = t.args[0]
				}
				switch {
				case m.op == "param" && m.s == q:
					if has(st, "c:asked") {
						bad(st, "again", pos, "the query is forwarded more than once")
					}
					set(st, "c:asked")
					set(st, "c:1:"+itoa(t.id))
				case has(st, "aq:"+itoa(m.id)):
					set(st, "c:2:"+itoa(t.id))
				default:
					bad(st, "query", pos, "what is forwarded is neither the query nor the same query for A records")
				}
				return []Outcome{{st, res}}
			}
			switch {
			case strings.HasSuffix(c.Name, "/dns.Msg).SetQuestion"):
				k, ok := c.Args[2].intv()
				if ok && k == 1 && c.Args[0].op == "alloc" && c.Args[1].isField("Name") && partOf(c.Args[1], q) {
					set(st, "aq:"+itoa(c.Args[0].id))
				}
			case strings.HasSuffix(c.Name, "/dns.Msg).SetReply") && len(c.Args) == 2:
				if c.Args[1].op == "param" && c.Args[1].s == q {
					set(st, "reply:"+itoa(c.Args[0].id))
				}
			case isTo4Call(c) && isTo4(c.Args[0]):
				return []Outcome{{st, []*Term{c.Args[0]}}}
			case c.Name == "(net.IPMask).Size":
				return []Outcome{{st, []*Term{e.T.intT(plen), e.T.intT(128)}}}
			case strings.HasPrefix(c.Name, "slices.ContainsFunc") && len(c.Args) == 2 && which(st, c.Args[0]) == 1 && c.Args[1].fn != nil:
				if c36Pred(p, r, c.Args[1].fn, c.Args[1], isAAAA, e, st.clone()) {
					res := e.opaque(st, c, c.Args)
					yes, no := st.clone(), st
					e.assume(yes, res[0], true)
					set(yes, "native")
					e.assume(no, res[0], false)
					set(no, "scanned")
					return []Outcome{{yes, res}, {no, res}}
				}
			}
			return nil
		},
		Branch: func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
			pos := p.pos(fn.Pos())
			if in != nil {
				pos = p.pos(condPos(in))
			}
			w := which(st, a)
			if isAAAA(a) && w == 1 {
				if val {
					set(st, "native")
				} else {
					set(st, "i:no")
				}
				return
			}
			if a.op == "is" && w == 2 && has(st, "r:in") {
				isA := strings.HasSuffix(a.s, dnsPath+".A")
				switch {
				case isA && val:
					set(st, "r:A")
				case isA || val:
					set(st, "r:other")
				}
				return
			}
			if a.op == "call" && strings.HasSuffix(a.callName(), "/dns.OPT).Do") {
				set(st, map[bool]string{true: "do", false: "nodo"}[val])
				return
			}
			if a.op != "bin" {
				return
			}
			x, y := a.args[0], a.args[1]
			k, isC := y.intv()
			switch {
			case a.s == "<" && y.op == "len" && in != nil && y.args[0].typ != nil && isPrefixList(y.args[0].typ):
				if l := y.args[0]; l.op == "slice" {
					bad(st, "prefixes", pos, "not all configured prefixes are used")
				}
				lists++
				endPrefix(st, pos)
				if val {
					set(st, "p:in")
				} else {
					set(st, "r:all")
				}
			case a.s == "<" && y.op == "len" && in != nil:
				for _, s := range sectionsOf(e, y) {
					if s.sec != "Answer" {
						continue
					}
					switch which(st, s.msg) {
					case 1:
						endScan(st)
						if val {
							set(st, "i:in")
						} else {
							set(st, "scanned")
						}
					case 2:
						endRecord(st, pos)
						if val {
							set(st, "r:in")
						} else {
							set(st, "all2")
						}
					}
				}
			case a.s == "==" && isC && k == 28 && x.isField("Qtype") && partOf(x, q):
				set(st, map[bool]string{true: "aaaa", false: "notaaaa"}[val])
			case a.s == "==" && isC && k == 1 && x.isField("Rrtype") && w == 2 && has(st, "r:in"):
				set(st, map[bool]string{true: "r:A", false: "r:other"}[val])
			case a.s == "==" && y.isNil() && x.op == "call" && strings.HasSuffix(x.callName(), "/dns.Msg).IsEdns0"):
				if val {
					set(st, "nodo")
				}
			case a.s == "==" && y.isNil() && isErrorType(x.typ):
				if w == 1 || w == 2 {
					set(st, map[bool]string{true: "ok", false: "err"}[val]+fmt.Sprint(w))
				}
			case a.s == "==" && y.isNil() && isMsgPtr(x.typ):
				if val && (w == 1 || w == 2) {
					set(st, "nil"+fmt.Sprint(w))
				}
			case a.s == "==" && isC && k == 0 && x.isField("Rcode"):
				if w == 1 || w == 2 {
					set(st, map[bool]string{true: "succ", false: "fail"}[val]+fmt.Sprint(w))
				}
			case a.s == "==" && isC && k == 0 && x.op == "len" && isRRs(x.args[0].typ):
				if val && w == 1 {
					for _, s := range sectionsOf(e, x) {
						if s.sec == "Answer" {
							set(st, "scanned")
						}
					}
				} else if val {
					set(st, "empty")
				}
			case a.s == "==" && y.isNil() && isRRs(x.typ) && val && w != 1:
				set(st, "empty")
			case a.s == "==" && isTo4(x) && y.isNil() && val, a.s == "==" && x.op == "len" && isTo4(x.args[0]) && isC && (k == 4) != val && (k == 4 || k == 0):
				set(st, "r:none")
			}
		},
		BackEdge: func(e *Engine, st *State, from, head *ssa.BasicBlock) {
			pos := p.iPos(from.Instrs[len(from.Instrs)-1])
			switch c34Loop(head) {
			case "prefix":
				endPrefix(st, pos)
			case "records":
				endScan(st)
				endRecord(st, pos)
			default:
				return
			}
			for a := range st.mem {
				if ro := rootOf(a); ro.op == "alloc" && ro != a && !isNamed(deref(ro.typ), dnsPath, "Msg") && !isNamed(deref(ro.typ), dnsPath, "Question") {
					delete(st.mem, a)
				}
			}
			clear(st, "b:")
		},
		Instr: func(e *Engine, st *State, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			a, v := e.ev(st, s.Addr), e.ev(st, s.Val)
			pos := p.iPos(in)
			if a.op == "ia" {
				if b, lo, _ := base(a.args[0]); b != nil {
					k, ok := a.args[1].intv()
					if !ok || !isByte(s.Val.Type()) {
						return
					}
					src := "x"
					if z, ok := v.intv(); ok && z == 0 {
						src = "z"
					} else if v.op == "ld" && v.args[0].op == "ia" {
						if sb, slo, _ := base(v.args[0].args[0]); sb != nil {
							if i, ok := v.args[0].args[1].intv(); ok {
								src = source(sb, slo+i)
							}
						}
					}
					setByte(st, b, lo+k, src)
				}
				return
			}
			if a.op != "fa" {
				return
			}
			if w := which(st, a); w&1 != 0 {
				bad(st, "altered", pos, "the answer to the query is changed")
			}
			// the query for A records
			ro := rootOf(a)
			for ro.op == "ld" || ro.op == "ia" || ro.op == "fa" {
				ro = ro.args[0]
			}
			if ro.op == "call" && strings.HasSuffix(ro.callName(), "/dns.Msg).Copy") && len(ro.args) == 1 && ro.args[0].op == "param" && ro.args[0].s == q {
				if k, ok := v.intv(); a.s == "Qtype" && ok && k == 1 {
					set(st, "aq:"+itoa(ro.id))
				} else {
					bad(st, "aquery", pos, "the query for A records differs in more than the type: "+a.s)
				}
			}
			if a.s == "AuthenticatedData" && !v.isFalse() {
				set(st, "ad:"+itoa(ro.id))
			}
			if a.s == "Answer" && isNamed(deref(a.args[0].typ), dnsPath, "Msg") {
				set(st, "answer:"+itoa(a.args[0].id))
				clear(st, "raw:"+itoa(a.args[0].id))
				if c34Raw(e, v, func(t *Term) bool { return which(st, t) == 2 }) {
					set(st, "raw:"+itoa(a.args[0].id))
				}
			}
		},
		Return: func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			pos := p.iPos(in)
			m := res[0]
			if isnil, known := e.isNil(st, m); known && isnil {
				if has(st, "nil1") || has(st, "err1") {
					return
				}
				if isnil, known := e.isNil(st, res[1]); known && isnil {
					bad(st, "lost", pos, "the answer is lost")
				}
				return
			}
			if m.op != "alloc" {
				passed++
				if w := which(st, m); w != 1 {
					bad(st, "other", pos, "what is returned is neither the answer to the query nor a synthesised one")
					return
				}
				if w := which(st, res[1]); w != 1 && !(has(st, "ok1") && res[1].isNil()) {
					bad(st, "error", pos, "the answer to the query is not returned with its error")
				}
				if has(st, "aaaa") && has(st, "nodo") && !has(st, "do") && has(st, "ok1") && !has(st, "nil1") && has(st, "succ1") && has(st, "scanned") && !has(st, "unsure") && !has(st, "native") {
					r.check("synthesis", tag+":missing", pos, has(st, "err2") || has(st, "nil2") || has(st, "fail2") || has(st, "empty"), "an empty answer is returned although there may be A records", st.path())
				}
				return
			}
			for f, what := range map[string]string{
				"aaaa":    "the query is known to be for AAAA records",
				"nodo":    "the client is known not to ask for DNSSEC data",
				"ok1":     "the query is known to have been answered",
				"succ1":   "the answer is known to be a success",
				"scanned": "all records of the answer were looked at",
				"ok2":     "the A query is known to have been answered",
				"succ2":   "the A answer is known to be a success",
				"all2":    "all records of the A answer were looked at",
			} {
				r.check("synthesis", tag+":"+f, pos, has(st, f), "a synthesised answer is returned before "+what, st.path())
			}
			r.check("synthesis", tag+":native", pos, !has(st, "native") && !has(st, "unsure"), "a synthesised answer replaces one that may have AAAA records", st.path())
			r.check("synthesis", tag+":do", pos, !has(st, "do"), "an answer is synthesised for a client that asks for DNSSEC data", st.path())
			r.check("synthesis", tag+":reply", pos, has(st, "reply:"+itoa(m.id)) && has(st, "answer:"+itoa(m.id)) && !has(st, "raw:"+itoa(m.id)), "the synthesised answer is not a reply to the query with the addresses made", st.path())
			r.check("synthesis", tag+":authenticated", pos, !has(st, "ad:"+itoa(m.id)), "a synthesised answer claims to be authenticated", st.path())
			if isnil, known := e.isNil(st, res[1]); !known || !isnil {
				bad(st, "error", pos, "a synthesised answer is returned with an error")
			}
		},
	}
	e.run(fn, "", nil)
	r.engine(e)
	r.check("synthesis", tag, p.pos(fn.Pos()), !e.over && synth > 0 && passed > 0 && lists > 0, "no address is made for every configured prefix, or the analysis budget was exceeded", nil)
}

func isTo4Call(c *CallEv) bool { return c.Name == "(net.IP).To4" }

// c34Raw: a section of the message is part of the list.
func c34Raw(e *Engine, t *Term, of func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		switch t.op {
		case "append":
			return rec(t.args[0]) || rec(t.args[1])
		case "phi", "merge":
			for _, x := range t.args {
				if rec(x) {
					return true
				}
			}
			for x := range e.T.phiIn[t] {
				if rec(x) {
					return true
				}
			}
		case "slice", "conv":
			return rec(t.args[0])
		case "ld":
			return of(t)
		}
		return false
	}
	return rec(t)
}

// c34Loop tells what a loop runs over.
func c34Loop(head *ssa.BasicBlock) string {
	ifi, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If)
	if !ok {
		return ""
	}
	b, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return ""
	}
	for _, v := range []ssa.Value{b.X, b.Y} {
		if c, ok := v.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				switch t := c.Call.Args[0].Type(); {
				case isPrefixList(t):
					return "prefix"
				case isRRs(t):
					return "records"
				}
			}
		}
	}
	return ""
}

// c34Record: a synthesised record has the name and lifetime of the A record
// and its address in the place the prefix length asks for.
func c34Record(p *Prog, r *Report, e *Engine, st *State, rec *Term, tag string, plen int64, pos string, which func(*State, *Term) int, base func(*Term) (*Term, int64, int64), bad func(*State, string, string, string)) {
	hdr := e.fa(rec, "Hdr", nil)
	str, u16, u32 := types.Typ[types.String], types.Typ[types.Uint16], types.Typ[types.Uint32]
	nm := e.load(st, e.fa(hdr, "Name", nil), str)
	r.check("synthesis", tag+":owner", pos, nm.isField("Name") && which(st, nm) == 2, "a synthesised record is not for the name that has the A record", st.path())
	typ, ok := e.load(st, e.fa(hdr, "Rrtype", nil), u16).intv()
	r.check("synthesis", tag+":type", pos, ok && typ == 28, "a synthesised record is not of type AAAA", st.path())
	cl := e.load(st, e.fa(hdr, "Class", nil), u16)
	in, isC := cl.intv()
	r.check("synthesis", tag+":class", pos, cl.isField("Qclass") || cl.isField("Class") || isC && in == 1, "a synthesised record does not have the class of the query", st.path())
	ttl := e.load(st, e.fa(hdr, "Ttl", nil), u32)
	r.check("synthesis", tag+":lifetime", pos, ttl.isField("Ttl") && which(st, ttl) == 2, "a synthesised record does not have the lifetime of the A record", st.path())
	addr := e.load(st, e.fa(rec, "AAAA", nil), nil)
	b, lo, hi := base(addr)
	if b == nil || lo != 0 || hi != 16 {
		bad(st, "address", pos, "the address of a synthesised record is not known")
		return
	}
	want := [16]string{}
	for i := int64(0); i < 16; i++ {
		if i < plen/8 {
			want[i] = fmt.Sprintf("p%d", i)
		}
	}
	for k, i := range c34Layout[plen] {
		want[i] = fmt.Sprint(k)
	}
	for i := 0; i < 16; i++ {
		fs := flags(st, fmt.Sprintf("b:%d:%d:", b.id, i))
		got := "z"
		if len(fs) == 1 {
			got = fs[0]
		}
		ok := got == want[i] || want[i] == "" && (got == "z" || got == fmt.Sprintf("p%d", i))
		r.check("synthesis", fmt.Sprintf("%s:byte%d", tag, i), pos, ok, fmt.Sprintf("byte %d of an address with a prefix of %d bits is not the one RFC 6052 puts there", i, plen), st.path())
	}
}

// c34Prefixes: only prefixes of the lengths above are kept, with the length and
// address given.
func c34Prefixes(p *Prog, r *Report, t types.Type) {
	n := 0
	for _, fn := range p.funcs {
		if !p.inRoot(fn) || fn.Parent() != nil || fn.Signature.Results().Len() == 0 {
			continue
		}
		rt := fn.Signature.Results().At(0).Type()
		if !isPtr(rt) || !types.Identical(deref(rt), t) {
			continue
		}
		name := p.fnName(fn)
		e := newEngine(p, nil)
		accepts := func(m *Term) bool { return m.op == "make" }
		tab := map[*Term]bool{} // tables that accept other lengths
		e.r = &Rule{
			Inline: func(e *Engine, f *ssa.Function) bool { return p.inRepo(f) && e.getInfo(f).size < 300 },
			Instr: func(e *Engine, st *State, in ssa.Instruction) {
				if mu, ok := in.(*ssa.MapUpdate); ok {
					m := e.ev(st, mu.Map)
					k, ok := e.ev(st, mu.Key).intv()
					_, known := c34Layout[k]
					v := e.ev(st, mu.Value)
					if !ok || !known && !v.isFalse() {
						tab[m] = true
					}
				}
			},
			Branch: func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
				size := func(t *Term, i string) bool {
					return t.op == "ext" && t.s == i && t.args[0].op == "call" && t.args[0].callName() == "(net.IPMask).Size"
				}
				switch {
				case a.op == "lookup" && size(a.args[1], "0") && accepts(a.args[0]) && val,
					a.op == "ext" && a.args[0].op == "lookup" && size(a.args[0].args[1], "0") && accepts(a.args[0].args[0]) && val:
					l := a
					if l.op == "ext" {
						l = l.args[0]
					}
					if !tab[l.args[0]] {
						set(st, "len:ok")
					}
				case a.op == "call" && strings.HasPrefix(a.callName(), "slices.Contains") && len(a.args) == 2 && size(a.args[1], "0") && val:
					set(st, "len:ok")
				case a.op == "bin" && a.s == "==" && size(a.args[0], "0") && val:
					if k, ok := a.args[1].intv(); ok {
						if _, known := c34Layout[k]; known {
							set(st, "len:ok")
						}
					}
				case a.op == "bin" && a.s == "==" && size(a.args[0], "1") && val:
					if k, ok := a.args[1].intv(); ok && k == 128 {
						set(st, "len:v6")
					}
				case a.op == "bin" && a.s == "==" && a.args[1].isNil() && isErrorType(a.args[0].typ) && val:
					set(st, "len:parsed")
				}
			},
			BackEdge: func(e *Engine, st *State, from, head *ssa.BasicBlock) {
				for _, f := range flags(st, "len:") {
					unset(st, "len:"+f)
				}
			},
			Call: func(e *Engine, st *State, c *CallEv) []Outcome {
				bi, ok := c.C.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "append" || !isPrefixList(c.C.Args[0].Type()) {
					return nil
				}
				n++
				pos := p.iPos(c.In)
				r.check("prefix", name+":length", pos, has(st, "len:ok"), "a prefix with a length that no address can be made for is accepted", st.path())
				r.check("prefix", name+":family", pos, has(st, "len:v6"), "a prefix that is not IPv6 is accepted", st.path())
				b := c.Args[1]
				if b.op != "slice" {
					return nil
				}
				el := b.args[0]
				okIP, okLen := false, false
				for a, v := range st.mem {
					if !isUnder(a, el) {
						continue
					}
					fromCIDR := e.T.contains(v, func(x *Term) bool { return x.op == "call" && x.callName() == "net.ParseCIDR" })
					switch {
					case v.op == "ext" && v.s == "0" && v.args[0].op == "call" && v.args[0].callName() == "(net.IPMask).Size" && fromCIDR:
						okLen = true
					case v.typ != nil && isNamed(v.typ, "net", "IP") && fromCIDR && e.T.contains(v, func(x *Term) bool { return x.isField("IP") }):
						okIP = true
					}
				}
				r.check("prefix", name+":kept", pos, okIP && okLen, "the prefix kept is not the network address and length configured", st.path())
				return nil
			},
		}
		e.run(fn, "", nil)
		r.engine(e)
	}
	r.check("prefix", "constructor:"+typeName(t), "", n > 0, "no prefix is kept", nil)
}
