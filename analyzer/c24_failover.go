package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C24: failover groups.

func init() {
	register("C24", "failover groups only give up when every member has failed",
		runC24,
		"The options ServfailError and EmptyError of a group say which answers count as failures; without them SERVFAIL does",
		"A group asks its members in one loop, or all of them at once and collects the answers in one loop")
}

func isResolverT(t types.Type) bool { return t != nil && isNamedT(t, modPath, "Resolver") }

func isResolvers(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && isResolverT(s.Elem())
}

// carriesAnswer: the channel transports the outcome of a query.
func carriesAnswer(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	s, ok := deref(ch.Elem()).Underlying().(*types.Struct)
	if !ok {
		return isMsgPtr(ch.Elem())
	}
	for i := 0; i < s.NumFields(); i++ {
		if isMsgPtr(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

func runC24(p *Prog, r *Report) {
	for _, fn := range p.resolvers() {
		rt := deref(fn.Params[0].Type())
		st, ok := rt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		group := false
		for i := 0; i < st.NumFields(); i++ {
			group = group || isResolvers(st.Field(i).Type())
		}
		if !group {
			continue
		}
		// a loop that asks members or collects their answers
		var heads []*ssa.BasicBlock
		p.staticReach(fn, func(g *ssa.Function) bool {
			for _, b := range g.Blocks {
				if natLoop(b) != nil && c24Tries(p, b) {
					heads = append(heads, b)
				}
			}
			return true
		})
		if len(heads) > 0 {
			c24Run(p, r, fn, st, heads)
		}
	}
	r.atLeast("failover", 5)
}

// c24Tries: in every round the loop asks one member or receives one answer.
func c24Tries(p *Prog, head *ssa.BasicBlock) bool {
	for b := range natLoop(head) {
		for _, in := range b.Instrs {
			if c24Asks(p, in) {
				return true
			}
		}
	}
	return false
}

func c24Asks(p *Prog, in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Call:
		if isResolveCall(&in.Call) && in.Call.IsInvoke() {
			return true
		}
		if f := in.Call.StaticCallee(); f != nil && p.inRepo(f) {
			return p.reachesCall(f, func(c *ssa.CallCommon) bool { return isResolveCall(c) && c.IsInvoke() && isResolverT(c.Value.Type()) })
		}
	case *ssa.UnOp:
		return in.Op == token.ARROW && carriesAnswer(in.X.Type())
	}
	return false
}

func c24Run(p *Prog, r *Report, fn *ssa.Function, recv *types.Struct, heads []*ssa.BasicBlock) {
	name := p.fnName(fn)
	isHead := map[*ssa.BasicBlock]bool{}
	for _, h := range heads {
		isHead[h] = true
	}
	bad := func(st *State, what, pos, msg string) {
		r.viol("failover", name+":"+what, pos, msg, st.path())
	}
	hasOpt := hasField(recv, "ServfailError", 3)
	e := newEngine(p, nil)
	tried := 0
	me := fn.Params[0].Name() + "@" + name
	answer := func(t *Term) bool {
		return t.typ != nil && isMsgPtr(t.typ) && !e.T.contains(t, func(x *Term) bool { return x.op == "param" && isMsgPtr(x.typ) && x == t })
	}
	reset := func(st *State) {
		for _, f := range flags(st, "x:") {
			unset(st, "x:"+f)
		}
	}
	// what is known about the last answer
	success := func(st *State) (bool, string) {
		switch {
		case !has(st, "x:noerr"):
			return false, "its error was not looked at"
		case has(st, "x:drop"):
			return true, ""
		}
		not := func(k int) bool {
			if has(st, fmt.Sprintf("x:not%d", k)) {
				return true
			}
			for _, o := range flags(st, "x:rc") {
				if o != fmt.Sprint(k) {
					return true
				}
			}
			return false
		}
		if !hasOpt {
			return not(2), "it may be a SERVFAIL"
		}
		switch {
		case !not(5):
			return false, "it may be a REFUSED"
		case !not(4):
			return false, "it may be a NOTIMP"
		case !not(2) && !has(st, "o:noservfail"):
			return false, "it may be a SERVFAIL that is to be treated as a failure"
		case !has(st, "o:noempty") && !has(st, "x:useful") && !has(st, "x:any"):
			return false, "it may be an empty answer that is to be treated as a failure"
		}
		return true, ""
	}
	failure := func(st *State) bool {
		switch {
		case has(st, "x:err"):
			return true
		case !has(st, "x:noerr") && !has(st, "x:asked"):
			return true // no answer in this round
		case has(st, "x:drop"):
			return false
		case !hasOpt:
			return has(st, "x:rc2")
		case has(st, "x:rc5"), has(st, "x:rc4"), has(st, "x:rc2") && has(st, "o:servfail"):
			return true
		}
		return has(st, "o:empty") && has(st, "x:looked") && !has(st, "x:useful")
	}
	option := func(st *State, name string, val bool) {
		on, off := "o:"+name, "o:no"+name
		if !val {
			on, off = off, on
		}
		set(st, on)
		unset(st, off)
	}
	// advance: the next round asks another member
	members := func(t *Term) bool { return t != nil && isResolvers(t.typ) }
	e.r = &Rule{
		Event: func(f *ssa.Function) bool {
			found := false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.FieldAddr:
						t := in.Type().Underlying().(*types.Pointer).Elem()
						found = found || isResolvers(t)
					case *ssa.Field:
						found = found || isResolvers(in.Type())
					}
				}
			}
			return found || len(f.Params) > 0 && f.Signature.Results().Len() == 1 && isBool(f.Signature.Results().At(0).Type()) && readsMsg(f)
		},
		Inline: func(e *Engine, f *ssa.Function) bool { return e.hasEvent(f) },
		Keep: func(e *Engine, a *Term) bool {
			if a.op == "bin" && (a.args[1].isNil() || a.s == "<" || e.T.readsField(a, "Rcode")) {
				return true
			}
			if a.op == "bin" && partOf(a.args[0], me) && (a.args[1].op == "const" || a.args[1].op == "nil") {
				return true
			}
			return isBool(a.typ) && a.op != "bin"
		},
		Branch: func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
			if in != nil {
				if bo, ok := in.Cond.(*ssa.BinOp); ok {
					if v, ok := c24Exhausted(p, bo, isHead); ok && v == c24Cond(e, st, in, a, val) {
						set(st, "exhausted")
					}
				}
			}
			switch lastField(a) {
			case "ServfailError":
				option(st, "servfail", val)
				return
			case "EmptyError":
				option(st, "empty", val)
				return
			}
			if a.op == "ext" && !val && len(a.args) == 1 && a.args[0].op == "recv" {
				set(st, "exhausted") // the channel is closed
			}
			if a.op != "bin" {
				return
			}
			x, y := a.args[0], a.args[1]
			if e.T.readsField(a, "Answer") && (a.s == "<" || x.op == "len") {
				set(st, "x:looked")
			}
			for _, t := range a.args {
				if t.op == "len" && members(t.args[0]) && e.T.contains(a, func(x *Term) bool { return x.op == "bin" && x.s == "+" }) {
					set(st, "x:wrapped")
				}
			}
			if a.s != "==" {
				return
			}
			switch {
			case y.isNil() && isErrorType0(x.typ):
				set(st, map[bool]string{true: "x:noerr", false: "x:err"}[val])
			case y.isNil() && answer(x):
				if val {
					set(st, "x:drop")
				}
			case e.T.readsField(x, "Rcode"):
				if k, ok := y.intv(); ok {
					if val {
						set(st, fmt.Sprintf("x:rc%d", k))
					} else {
						set(st, fmt.Sprintf("x:not%d", k))
					}
				}
			case val && (e.T.readsField(x, "Rrtype") && e.T.readsField(y, "Qtype") || e.T.readsField(y, "Rrtype") && e.T.readsField(x, "Qtype")):
				set(st, "x:useful")
			case val && e.T.readsField(x, "InfoCode"):
				if k, ok := y.intv(); ok && k >= 15 && k <= 17 {
					set(st, "x:useful")
				}
			case val && e.T.readsField(x, "Qtype"):
				if k, ok := y.intv(); ok && k == 255 {
					set(st, "x:any")
				}
			case y.isNil() && isResolverT(x.typ) && val && x.op == "ld":
				set(st, "exhausted") // there are no nil members
			case x.op == "len" && members(x.args[0]):
				if k, ok := y.intv(); ok && k == 0 && val {
					set(st, "exhausted")
				}
			case isResolverT(x.typ) && isResolverT(y.typ) && !y.isNil():
				for _, f := range flags(st, "j:") {
					unset(st, "j:"+f)
				}
				set(st, map[bool]string{true: "j:same", false: "j:other"}[val])
			}
			// somebody else moved on already
			for _, f := range flags(st, "x:by=") {
				if !val && (lastField(x) == f || lastField(y) == f) {
					set(st, "x:moved")
				}
			}
		},
		Call: func(e *Engine, st *State, c *CallEv) []Outcome {
			if bi, ok := c.C.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				if isResolvers(c.C.Args[0].Type()) {
					set(st, "j:kept")
				} else if has(st, "x:asked") {
					set(st, "x:append")
				}
			}
			if c.Name == "slices.Delete" {
				set(st, "x:append")
			}
			if c.Name == "time.AfterFunc" {
				set(st, "j:back")
			}
			if c.Kind == "call" && isResolveCall(c.C) && c.C.IsInvoke() {
				tried++
				for _, f := range flags(st, "x:") {
					unset(st, "x:"+f)
				}
				set(st, "x:asked")
				idx := (*Term)(nil)
				e.T.walk(c.Args[0], func(x *Term) bool {
					if (x.op == "ia" || x.op == "vi") && idx == nil && len(x.args) > 1 {
						idx = x.args[1]
					}
					return idx == nil
				})
				if idx != nil {
					set(st, fmt.Sprintf("x:idx=%d", idx.id))
					if f := lastField(idx); f != "" {
						set(st, "x:by="+f)
					}
					// taken from a list of numbers
					e.T.walk(idx, func(x *Term) bool {
						if (x.op == "ia" || x.op == "vi") && len(x.args) > 1 {
							set(st, fmt.Sprintf("x:pos=%d", x.args[1].id))
							return false
						}
						return true
					})
				}
				return []Outcome{{st, e.opaque(st, c, nil)}}
			}
			return nil
		},
		Instr: func(e *Engine, st *State, in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.UnOp:
				if in.Op == token.ARROW && carriesAnswer(in.X.Type()) {
					tried++
					reset(st)
					set(st, "x:asked")
					set(st, "x:moved") // every answer comes from another member
				}
			case *ssa.Go:
				set(st, "j:back")
			case *ssa.Store:
				switch a := in.Addr.(type) {
				case *ssa.FieldAddr:
					f := fieldName(deref(a.X.Type()), a.Field)
					v := e.ev(st, in.Val)
					if isResolvers(in.Val.Type()) {
						set(st, "x:moved")
					}
					if has(st, "x:by="+f) {
						k, isc := v.intv()
						if e.T.contains(v, func(x *Term) bool {
							if x.op == "bin" && x.s == "+" {
								for _, y := range x.args {
									if k, ok := y.intv(); ok && k == 1 {
										return true
									}
								}
							}
							return false
						}) || isc && k == 0 && has(st, "x:wrapped") {
							set(st, "x:moved")
						}
					}
				case *ssa.IndexAddr:
					if has(st, fmt.Sprintf("x:pos=%d", e.ev(st, a.Index).id)) {
						set(st, "x:moved")
					}
				}
				if root := rootOf(e.ev(st, in.Addr)); root.typ != nil && isMsgPtr(root.typ) && root.op != "alloc" && answer(root) && root.op != "param" {
					bad(st, "altered", p.iPos(in), "the answer of a member is changed")
				}
			}
		},
		BackEdge: func(e *Engine, st *State, from, head *ssa.BasicBlock) {
			pos := p.iPos(from.Instrs[len(from.Instrs)-1])
			// taking members out of service
			if has(st, "j:same") || has(st, "j:other") {
				for b := range natLoop(head) {
					for _, in := range b.Instrs {
						bo, ok := in.(*ssa.BinOp)
						if !ok || bo.Op != token.EQL && bo.Op != token.NEQ || !isResolverT(bo.X.Type()) {
							continue
						}
						switch {
						case has(st, "j:same") && has(st, "j:kept"):
						case has(st, "j:same") && !has(st, "j:back"):
							bad(st, "lost", pos, "a member is taken out of service without arranging for it to come back")
						case has(st, "j:other") && !has(st, "j:kept"):
							bad(st, "others", pos, "a member that did not fail is taken out of service")
						}
					}
				}
				for _, f := range flags(st, "j:") {
					unset(st, "j:"+f)
				}
			}
			if !isHead[head] {
				return
			}
			if has(st, "x:asked") {
				if !failure(st) {
					bad(st, "discarded", pos, "another member is asked (and the answer thrown away) although this one did not fail")
				}
				moved := has(st, "x:moved") || has(st, "x:append")
				for _, in := range head.Instrs {
					switch v := in.(type) {
					case *ssa.Phi, *ssa.BinOp:
						if t, ok := st.env[v.(ssa.Value)]; ok {
							moved = moved || has(st, fmt.Sprintf("x:idx=%d", t.id))
						}
					}
				}
				if !moved {
					bad(st, "stuck", pos, "after a failure the next attempt goes to the same member again")
				}
			}
			reset(st)
			for a := range st.mem {
				if rootOf(a).op == "param" {
					delete(st.mem, a)
				}
			}
		},
		Return: func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			if !has(st, "x:asked") && !has(st, "exhausted") && len(res) == 2 {
				bad(st, "unasked", p.iPos(in), "the query fails without asking the members")
				return
			}
			ok, why := success(st)
			if has(st, "exhausted") && !ok {
				return
			}
			if !ok {
				bad(st, "early", p.iPos(in), "the answer of one member is returned although others were not tried: "+why)
				return
			}
			t := res[0]
			member := e.T.contains(t, func(x *Term) bool {
				return x.op == "call" && strings.HasSuffix(x.callName(), ").Resolve") || x.op == "recv" || x.op == "next"
			})
			if isnil, known := e.isNil(st, t); has(st, "x:drop") && known && isnil {
				member = true
			}
			if has(st, "x:asked") && !member {
				bad(st, "replaced", p.iPos(in), "something other than the successful answer of the member is returned")
			}
		},
	}
	e.run(fn, "", nil)
	r.engine(e)
	r.check("failover", name, p.pos(fn.Pos()), tried > 0 && !e.over, "no member is asked, or the analysis budget was exceeded", nil)
}

// hasField: a struct or one of the structs in it has a field of that name.
func hasField(s *types.Struct, name string, depth int) bool {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return true
		}
		if t, ok := s.Field(i).Type().Underlying().(*types.Struct); ok && depth > 0 && hasField(t, name, depth-1) {
			return true
		}
	}
	return false
}

// readsMsg: a predicate on an answer.
func readsMsg(f *ssa.Function) bool {
	for _, q := range f.Params {
		if isMsgPtr(q.Type()) {
			return true
		}
	}
	return false
}

// c24Cond: the value of the condition of the branch itself, given that one of its facts has a value.
func c24Cond(e *Engine, st *State, in *ssa.If, a *Term, val bool) bool {
	c := e.ev(st, in.Cond)
	neg := false
	for c.op == "not" {
		c, neg = c.args[0], !neg
	}
	if c == a {
		return val != neg
	}
	if v, ok := e.eval(st, c); ok {
		return v != neg
	}
	return val
}

// c24Exhausted: the value of the condition which means that there have been as many attempts as
// members.
func c24Exhausted(p *Prog, c *ssa.BinOp, heads map[*ssa.BasicBlock]bool) (val, ok bool) {
	var head *ssa.BasicBlock
	for h := range heads {
		if natLoop(h)[c.Block()] {
			head = h
		}
	}
	if head == nil {
		return false, false
	}
	pre := int64(0)
	for b := range natLoop(head) {
		for _, in := range b.Instrs {
			if c24Asks(p, in) && precedes(in, c) {
				pre = 1
			}
		}
	}
	x, y, op := c.X, c.Y, c.Op
	// up: k + d compared with len + o
	d, okx := c24Count(x, head, 1)
	o, oky := c24Len(y)
	if !okx || !oky {
		if d, okx = c24Count(y, head, 1); okx {
			if o, oky = c24Len(x); oky {
				x, y = y, x
				op = mirrorTok(op)
			}
		}
	}
	if okx && oky {
		switch op {
		case token.LSS, token.NEQ: // false: k+d >= len+o
			return false, d-o <= pre
		case token.GEQ, token.EQL:
			return true, d-o <= pre
		case token.LEQ: // false: k+d >= len+o+1
			return false, d-o-1 <= pre
		case token.GTR:
			return true, d-o-1 <= pre
		}
		return false, false
	}
	// down: len + b - k compared with a number
	k, isC := y.(*ssa.Const)
	b, okd := c24Count(x, head, -1)
	if !isC || !okd {
		if k, isC = x.(*ssa.Const); isC {
			b, okd = c24Count(y, head, -1)
			op = mirrorTok(op)
		}
	}
	if isC && okd && k.Value != nil && k.Value.Kind() == constant.Int {
		n := k.Int64()
		switch op {
		case token.GTR, token.NEQ: // false: len+b-k <= n
			return false, b-n+pre >= 0
		case token.LEQ, token.EQL:
			return true, b-n+pre >= 0
		case token.GEQ: // false: len+b-k <= n-1
			return false, b-n+1+pre >= 0
		case token.LSS:
			return true, b-n+1+pre >= 0
		}
	}
	return false, false
}

func mirrorTok(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// c24Len: the number of members plus a constant.
func c24Len(v ssa.Value) (int64, bool) {
	switch v := v.(type) {
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if isResolvers(v.Call.Args[0].Type()) {
				return 0, true
			}
		}
	case *ssa.BinOp:
		k, ok := v.Y.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			return 0, false
		}
		if o, ok := c24Len(v.X); ok && v.Op == token.ADD {
			return o + k.Int64(), true
		} else if ok && v.Op == token.SUB {
			return o - k.Int64(), true
		}
	}
	return 0, false
}

// c24Count: in the k-th round (from 0) the value is k+d (dir 1) or the number of members + d - k
// (dir -1).
func c24Count(v ssa.Value, head *ssa.BasicBlock, dir int64) (int64, bool) {
	switch v := v.(type) {
	case *ssa.BinOp:
		k, ok := v.Y.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			return 0, false
		}
		if d, ok := c24Count(v.X, head, dir); ok && v.Op == token.ADD {
			return d + k.Int64(), true
		} else if ok && v.Op == token.SUB {
			return d - k.Int64(), true
		}
	case *ssa.Phi:
		if v.Block() != head {
			return 0, false
		}
		loop := natLoop(head)
		var init int64
		for i, ed := range v.Edges {
			if loop[head.Preds[i]] {
				bo, ok := ed.(*ssa.BinOp)
				if !ok || bo.X != ssa.Value(v) {
					return 0, false
				}
				k, ok := bo.Y.(*ssa.Const)
				if !ok || k.Value == nil {
					return 0, false
				}
				step := k.Int64()
				if bo.Op == token.SUB {
					step = -step
				}
				if (bo.Op != token.ADD && bo.Op != token.SUB) || step != dir {
					return 0, false
				}
				continue
			}
			if dir > 0 {
				k, ok := ed.(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
					return 0, false
				}
				init = k.Int64()
			} else {
				o, ok := c24Len(ed)
				if !ok {
					return 0, false
				}
				init = o
			}
		}
		return init, true
	case *ssa.Call:
		// the length of a list that gets shorter
		if b, ok := v.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" || dir > 0 {
			return 0, false
		}
		ph, ok := v.Call.Args[0].(*ssa.Phi)
		if !ok || ph.Block() != head {
			return 0, false
		}
		loop := natLoop(head)
		for i, ed := range ph.Edges {
			if loop[head.Preds[i]] {
				if !c24Shorter(ed, ph) {
					return 0, false
				}
			} else if !c24AsLong(ed, map[ssa.Value]bool{}) {
				return 0, false
			}
		}
		return 0, true
	}
	return 0, false
}

func c24Shorter(v ssa.Value, ph *ssa.Phi) bool {
	switch v := v.(type) {
	case *ssa.Slice:
		if v.X != ssa.Value(ph) {
			return false
		}
		if v.Low == nil {
			bo, ok := v.High.(*ssa.BinOp)
			return ok && bo.Op == token.SUB && isOne(bo.Y) && isLenOf(bo.X, ph)
		}
		return v.High == nil && isOne(v.Low)
	case *ssa.Call:
		if calleeName(&v.Call) == "slices.Delete" && v.Call.Args[0] == ssa.Value(ph) {
			bo, ok := v.Call.Args[2].(*ssa.BinOp)
			return ok && bo.Op == token.ADD && isOne(bo.Y) && bo.X == v.Call.Args[1]
		}
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			x, ok1 := v.Call.Args[0].(*ssa.Slice)
			y, ok2 := v.Call.Args[1].(*ssa.Slice)
			if !ok1 || !ok2 || x.X != ssa.Value(ph) || y.X != ssa.Value(ph) || x.High == nil {
				return false
			}
			bo, ok := y.Low.(*ssa.BinOp)
			return ok && bo.Op == token.ADD && isOne(bo.Y) && bo.X == x.High
		}
	}
	return false
}

func isOne(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.Int && k.Int64() == 1
}

func isLenOf(v, x ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && c.Call.Args[0] == x
}

// c24AsLong: the list has as many elements as there are members.
func c24AsLong(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, x := range v.Edges {
			if !c24AsLong(x, seen) {
				return false
			}
		}
		return true
	case *ssa.Slice:
		if v.Low == nil && v.High != nil {
			o, ok := c24Len(v.High)
			return ok && o == 0
		}
		return v.Low == nil && c24AsLong(v.X, seen)
	case *ssa.MakeSlice:
		o, ok := c24Len(v.Len)
		return ok && o == 0
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil || len(f.Blocks) == 0 {
			return false
		}
		if seenResolvers(v.Call.Args) {
			return true
		}
		n := 0
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				n++
				if len(ret.Results) != 1 || !c24AsLong(ret.Results[0], seen) {
					return false
				}
			}
		}
		return n > 0
	}
	return false
}

// seenResolvers: the list is made by a function from the members.
func seenResolvers(args []ssa.Value) bool {
	for _, a := range args {
		if isResolvers(a.Type()) {
			return true
		}
		if o, ok := c24Len(a); ok && o == 0 {
			return true
		}
	}
	return false
}
