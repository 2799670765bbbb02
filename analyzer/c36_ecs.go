package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C36: client-subnet and EDNS option rules are applied to every query.

func init() {
	register("C36", "client-subnet and EDNS option rules are applied to every query",
		runC36,
		"The library's IsEdns0 returns the options record of a message; an option is a client subnet if it is an *EDNS0_SUBNET",
		"A query has at most one options record",
		"(net.IP).Mask with a mask made by net.CIDRMask(n, bits) keeps the n leading bits")
}

var c36Kinds = map[string]struct{ add, cond, mask, ecs bool }{
	"ECSModifierDelete":       {ecs: true},
	"ECSModifierAdd":          {ecs: true, add: true},
	"ECSModifierAddIfMissing": {ecs: true, add: true, cond: true},
	"ECSModifierPrivacy":      {ecs: true, mask: true},
	"EDNS0ModifierDelete":     {},
	"EDNS0ModifierAdd":        {add: true},
}

func runC36(p *Prog, r *Report) {
	for _, fn := range p.funcs {
		if _, ok := c36Kinds[fn.Name()]; ok && p.inRoot(fn) && fn.Parent() == nil && fn.Signature.Recv() == nil {
			c36Modifier(p, r, fn)
		}
	}
	for _, fn := range p.resolvers() {
		t := deref(fn.Params[0].Type())
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); isModifierFunc(f.Type()) {
				c36Resolve(p, r, fn, f.Name())
				c36Make(p, r, t, f.Name())
			}
		}
	}
	c36Wiring(p, r)
	r.atLeast("modifier", 6)
	r.atLeast("applied", 2)
	r.atLeast("wiring", 6)
}

// isModifierFunc: a named function type that changes a query in place.
func isModifierFunc(t types.Type) bool {
	sig, ok := t.Underlying().(*types.Signature)
	if _, named := t.(*types.Named); !ok || !named || sig.Results().Len() != 0 || !strings.HasSuffix(typeName(t), "ModifierFunc") {
		return false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if isMsgPtr(sig.Params().At(i).Type()) {
			return true
		}
	}
	return false
}

func isOptions(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNamedT(s.Elem(), dnsPath, "EDNS0")
}

// c36Modifier analyses a function that changes the options of a query, or the
// function it returns.
func c36Modifier(p *Prog, r *Report, outer *ssa.Function) {
	name := outer.Name()
	kind := c36Kinds[name]
	// what the parameters of the constructor stand for
	role := map[string]string{}
	nmask := 0
	for _, prm := range outer.Params {
		id := prm.Name() + "@" + p.fnName(outer)
		switch t := prm.Type(); {
		case isNamed(t, "net", "IP"):
			role[id] = "addr"
		case types.Identical(t.Underlying(), types.Typ[types.Uint8]):
			role[id] = [...]string{"prefix4", "prefix6", ""}[nmask]
			if nmask < 2 {
				nmask++
			}
		case types.Identical(t.Underlying(), types.Typ[types.Uint16]):
			role[id] = "code"
		case isSliceOf(t, isByte):
			role[id] = "data"
		}
	}
	e := newEngine(p, nil)
	is := func(t *Term, what string) bool {
		for t.op == "conv" || t.op == "mi" {
			t = t.args[0]
		}
		return t.op == "param" && role[t.s] == what
	}
	has1 := func(t *Term, what string) bool {
		return e.T.contains(t, func(x *Term) bool { return is(x, what) })
	}
	bad := func(st *State, what, pos, msg string) {
		r.viol("modifier", name+":"+what, pos, msg, st.path())
	}
	// the options of the query
	optionsOf := func(t *Term) bool {
		return e.T.contains(t, func(x *Term) bool { return x.isField("Option") })
	}
	element := func(t *Term) bool {
		return t.op != "alloc" && t.op != "mi" && optionsOf(t)
	}
	// match: the atom tells whether an element of the options is concerned
	match := func(a *Term) bool {
		if kind.ecs {
			if a.op == "is" && strings.HasSuffix(a.s, dnsPath+".EDNS0_SUBNET") {
				return true
			}
		}
		if a.op != "bin" || a.s != "==" {
			return false
		}
		x, y := a.args[0], a.args[1]
		for _, pr := range [][2]*Term{{x, y}, {y, x}} {
			if pr[0].op == "call" && strings.HasSuffix(pr[0].callName(), ").Option") {
				k, isC := pr[1].intv()
				return kind.ecs && isC && k == 8 || !kind.ecs && is(pr[1], "code")
			}
		}
		return false
	}
	type leaf struct {
		t     *Term
		fresh bool
	}
	// leaves lists what a slice of options is made of
	var leaves func(t *Term, seen map[*Term]bool, out *[]leaf)
	leaves = func(t *Term, seen map[*Term]bool, out *[]leaf) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "append":
			leaves(t.args[0], seen, out)
			for _, x := range t.args[2:] {
				*out = append(*out, leaf{x, true})
			}
			if len(t.args) == 2 {
				*out = append(*out, leaf{t.args[1], false})
			}
		case "phi", "merge":
			for _, x := range t.args {
				leaves(x, seen, out)
			}
			for x := range e.T.phiIn[t] {
				leaves(x, seen, out)
			}
		case "conv":
			leaves(t.args[0], seen, out)
		case "nil":
		case "make":
			if k, ok := t.args[0].intv(); !ok || k != 0 {
				*out = append(*out, leaf{t, false})
			}
		case "slice":
			if k, ok := t.args[2].intv(); t.args[2].op != "const" || !ok || k != 0 {
				*out = append(*out, leaf{t, false})
			}
		default:
			*out = append(*out, leaf{t, false})
		}
	}
	fresh := func(st *State) {
		for _, f := range flags(st, "i:") {
			unset(st, "i:"+f)
		}
	}
	// masked: the address is the given one with only the configured leading bits
	masked := func(addr *Term, family int64) bool {
		want, bits := "prefix4", int64(32)
		if family == 2 {
			want, bits = "prefix6", 128
		}
		if addr.op != "call" || addr.callName() != "(net.IP).Mask" || len(addr.args) < 2 {
			return false
		}
		m := addr.args[1]
		if m.op != "call" || m.callName() != "net.CIDRMask" || len(m.args) != 2 {
			return false
		}
		k, ok := m.args[1].intv()
		return ok && k == bits && is(m.args[0], want)
	}
	entry := false
	adds := 0
	endRound := func(st *State, pos string, filters bool) {
		if !has(st, "i:in") {
			return
		}
		switch {
		case kind.mask && has(st, "i:yes"):
			for f, pre := range map[string]string{"1": "IPv4", "2": "IPv6"} {
				if has(st, "i:fam"+f) || !has(st, "i:not"+f) && !has(st, "i:fam1") && !has(st, "i:fam2") {
					if !has(st, "i:addr"+f) {
						bad(st, "address"+f, pos, "an "+pre+" client subnet keeps more than the configured leading bits")
					}
					if !has(st, "i:len"+f) {
						bad(st, "length"+f, pos, "the prefix length of an "+pre+" client subnet is not set to the configured one")
					}
				}
			}
		case kind.mask && !has(st, "i:no"):
			bad(st, "skipped", pos, "an option is passed over without looking whether it is a client subnet")
		case filters && has(st, "i:no") && !has(st, "i:kept"):
			bad(st, "removed", pos, "an option that is not concerned is removed")
		}
		fresh(st)
	}
	filterLoop := func(head *ssa.BasicBlock) bool {
		for b := range natLoop(head) {
			for _, i := range b.Instrs {
				if c, ok := i.(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && isOptions(c.Call.Args[0].Type()) {
						return true
					}
				}
			}
		}
		return false
	}
	e.r = &Rule{
		Inline: func(e *Engine, f *ssa.Function) bool { return p.inRepo(f) && e.getInfo(f).size < 300 },
		Call: func(e *Engine, st *State, c *CallEv) []Outcome {
			if bi, ok := c.C.Value.(*ssa.Builtin); ok {
				if bi.Name() == "append" && isOptions(c.C.Args[0].Type()) && has(st, "i:in") {
					set(st, "i:kept")
					if !has(st, "i:no") {
						bad(st, "kept", p.iPos(c.In), "an option is kept without being known not to be one that is removed")
					}
				}
				return nil
			}
			if strings.HasPrefix(c.Name, "slices.DeleteFunc") && len(c.Args) == 2 && optionsOf(c.Args[0]) {
				if f := c.Args[1].fn; f != nil && c36Pred(p, r, f, c.Args[1], match, e, st.clone()) {
					res := e.opaque(st, c, c.Args)
					set(st, "del:"+itoa(res[0].id))
					return []Outcome{{st, res}}
				}
			}
			return nil
		},
		Branch: func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
			pos := p.pos(outer.Pos())
			if in != nil {
				pos = p.pos(condPos(in))
			}
			if match(a) {
				if val {
					set(st, "i:yes")
					set(st, "seen")
				} else {
					set(st, "i:no")
				}
				return
			}
			if a.op != "bin" {
				return
			}
			x, y := a.args[0], a.args[1]
			k, isC := y.intv()
			switch {
			case a.s == "<" && y.op == "len" && optionsOf(y) && in != nil:
				endRound(st, pos, filterLoop(in.Block()))
				if val {
					set(st, "i:in")
				} else {
					set(st, "done")
				}
			case a.s == "==" && isC && k == 0 && x.op == "len" && optionsOf(x) && val:
				set(st, "done")
			case a.s == "==" && y.isNil() && x.op == "call" && strings.HasSuffix(x.callName(), "/dns.Msg).IsEdns0") && val:
				set(st, "noedns")
			case a.s == "==" && y.isNil() && is(x, "addr"):
				set(st, map[bool]string{true: "addr:none", false: "addr:set"}[val])
			case a.s == "==" && isC && k == 0 && x.op == "len" && is(x.args[0], "addr"):
				set(st, map[bool]string{true: "addr:none", false: "addr:set"}[val])
			case a.s == "==" && x.isField("Family") && isC:
				f := itoa(int32(k))
				if val {
					set(st, "i:fam"+f)
				} else {
					set(st, "i:not"+f)
				}
			case a.s == "==" && isTo4(x) && y.isNil():
				set(st, map[bool]string{true: "v6", false: "v4"}[val])
			case a.s == "==" && x.op == "len" && isTo4(x.args[0]) && isC && k == 4:
				set(st, map[bool]string{true: "v4", false: "v6"}[val])
			case a.s == "==" && x.op == "len" && isTo4(x.args[0]) && isC && k == 0:
				set(st, map[bool]string{true: "v6", false: "v4"}[val])
			}
		},
		BackEdge: func(e *Engine, st *State, from, head *ssa.BasicBlock) {
			endRound(st, p.iPos(from.Instrs[len(from.Instrs)-1]), filterLoop(head))
		},
		Instr: func(e *Engine, st *State, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok || !entry {
				return
			}
			a := e.ev(st, s.Addr)
			pos := p.iPos(in)
			if a.op != "fa" {
				return
			}
			v := e.ev(st, s.Val)
			switch {
			case a.s == "Option" && isNamed(deref(a.args[0].typ), dnsPath, "OPT"):
				var ls []leaf
				leaves(v, map[*Term]bool{}, &ls)
				orig, list := false, false
				for _, l := range ls {
					x := l.t
					for x.op == "mi" || x.op == "conv" {
						x = x.args[0]
					}
					switch {
					case l.fresh && x.op == "alloc" && isNamed(deref(x.typ), dnsPath, "EDNS0_SUBNET"), l.fresh && x.op == "alloc" && isNamed(deref(x.typ), dnsPath, "EDNS0_LOCAL"):
						adds++
						c36Added(e, st, r, name, kind.ecs, x, pos, is, has1, masked, bad)
						if has(st, "added") {
							bad(st, "twice", pos, "the option is added more than once")
						}
						set(st, "added")
					case l.fresh && element(l.t): // judged when it was kept
						list = true
					case l.t.op == "call" && has(st, "del:"+itoa(l.t.id)):
						set(st, "done")
						list = true
					case l.t.isField("Option"):
						orig = true
					default:
						bad(st, "list", pos, "the options are replaced by something else: "+short(l.t))
					}
				}
				if !orig {
					if !has(st, "done") && !has(st, "noedns") && !has(st, "o:new") {
						bad(st, "incomplete", pos, "the options are replaced before all of them were looked at")
					}
					set(st, "cleaned")
				}
				_ = list
			case a.s == "Address" && isNamed(deref(a.args[0].typ), dnsPath, "EDNS0_SUBNET") && kind.mask:
				for f, k := range map[string]int64{"1": 1, "2": 2} {
					if masked(v, k) && e.T.contains(v.args[0], func(x *Term) bool { return x.isField("Address") }) {
						set(st, "i:addr"+f)
					} else {
						unset(st, "i:addr"+f)
					}
				}
			case a.s == "SourceNetmask" && isNamed(deref(a.args[0].typ), dnsPath, "EDNS0_SUBNET") && kind.mask:
				for f, w := range map[string]string{"1": "prefix4", "2": "prefix6"} {
					if is(v, w) {
						set(st, "i:len"+f)
					} else {
						unset(st, "i:len"+f)
					}
				}
			}
		},
		Return: func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			if !entry {
				return
			}
			pos := p.iPos(in)
			none := has(st, "noedns") || has(st, "cleaned") || has(st, "done") && !has(st, "seen")
			switch {
			case kind.add && kind.cond:
				r.check("modifier", name+":added", pos, has(st, "added") || has(st, "seen"), "a query without the option is forwarded without adding it", st.path())
			case kind.add:
				r.check("modifier", name+":added", pos, has(st, "added"), "a query is forwarded without adding the option", st.path())
				r.check("modifier", name+":removed", pos, none, "a query is forwarded with the option it came with", st.path())
			case kind.mask:
				r.check("modifier", name+":all", pos, has(st, "noedns") || has(st, "done"), "a query is forwarded without all of its options having been looked at", st.path())
			default:
				r.check("modifier", name+":removed", pos, none, "a query is forwarded with the option that is to be removed", st.path())
			}
		},
	}
	call := func(fn *ssa.Function, free []*Term, st *State) {
		entry = true
		e.entry = fn
		var args []*Term
		for _, prm := range fn.Params {
			args = append(args, e.T.mk("param", prm.Name()+"@"+p.fnName(fn), prm.Type(), false))
		}
		e.exec(fn, args, free, st, 0, nil, nil)
	}
	if outer.Signature.Results().Len() == 0 {
		call(outer, nil, e.newState())
	} else {
		n := 0
		for _, o := range e.run(outer, "", nil) {
			t := o.Res[0]
			for t.op == "conv" {
				t = t.args[0]
			}
			if t.fn == nil {
				r.viol("modifier", name+":function", p.pos(outer.Pos()), "what is returned is not a known function", nil)
				continue
			}
			n++
			var free []*Term
			if t.op == "closure" {
				free = t.args
			}
			call(t.fn, free, o.St)
			entry = false
		}
		r.check("modifier", name+":made", p.pos(outer.Pos()), n > 0, "no function is returned", nil)
	}
	r.engine(e)
	r.check("modifier", name, p.pos(outer.Pos()), !e.over && (!kind.add || adds > 0), "the analysis budget was exceeded, or nothing is added", nil)
}

func isTo4(t *Term) bool { return t.op == "call" && t.callName() == "(net.IP).To4" }

// c36Added: an added option carries what is configured.
func c36Added(e *Engine, st *State, r *Report, name string, ecs bool, opt *Term, pos string, is func(*Term, string) bool, has1 func(*Term, string) bool, masked func(*Term, int64) bool, bad func(*State, string, string, string)) {
	get := func(f string) *Term {
		s := deref(opt.typ).Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				return e.load(st, e.fa(opt, f, types.NewPointer(s.Field(i).Type())), s.Field(i).Type())
			}
		}
		return e.T.nilT()
	}
	if isNamed(deref(opt.typ), dnsPath, "EDNS0_LOCAL") {
		r.check("modifier", name+":code", pos, !ecs && is(get("Code"), "code"), "the added option does not have the configured code", st.path())
		r.check("modifier", name+":data", pos, !ecs && is(get("Data"), "data"), "the added option does not have the configured data", st.path())
		return
	}
	family, okF := get("Family").intv()
	if !ecs || !okF || family != 1 && family != 2 {
		bad(st, "family", pos, "the family of the added client subnet is not known to be right")
		return
	}
	want, ver := "prefix4", "v4"
	if family == 2 {
		want, ver = "prefix6", "v6"
	}
	addr := get("Address")
	r.check("modifier", name+":family", pos, has(st, ver), "the family of the added client subnet does not follow from the address", st.path())
	r.check("modifier", name+":length", pos, is(get("SourceNetmask"), want), "the prefix length of the added client subnet is not the configured one", st.path())
	r.check("modifier", name+":masked", pos, masked(addr, family), "the address in the added client subnet is not cut to the configured leading bits", st.path())
	client := e.T.contains(addr, func(x *Term) bool { return x.isField("SourceIP") })
	conf := has1(addr, "addr")
	ok := client && !conf && has(st, "addr:none") || conf && !client && has(st, "addr:set")
	r.check("modifier", name+":source", pos, ok, "the address in the added client subnet is not the configured one or, without one, that of the client", st.path())
	scope, okS := get("SourceScope").intv()
	r.check("modifier", name+":scope", pos, okS && scope == 0, "a query's client subnet has a scope", st.path())
}

// c36Pred: a predicate given to slices.DeleteFunc is true exactly for the
// options that are to be removed.
func c36Pred(p *Prog, r *Report, f *ssa.Function, fnT *Term, match func(*Term) bool, outer *Engine, st *State) bool {
	good, n := true, 0
	e := newEngine(p, nil)
	e.T = outer.T
	e.r = &Rule{
		Branch: func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
			if match(a) {
				set(st, map[bool]string{true: "p:yes", false: "p:no"}[val])
			}
		},
		Return: func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			n++
			v := res[0]
			if match(v) {
				return
			}
			b, known := e.eval(st, v)
			if !known || b && !has(st, "p:yes") || !b && !has(st, "p:no") {
				good = false
			}
		},
	}
	e.entry = f
	var args, free []*Term
	for _, prm := range f.Params {
		args = append(args, e.T.mk("param", prm.Name()+"@"+p.fnName(f), prm.Type(), false))
	}
	if fnT.op == "closure" {
		free = fnT.args
	}
	e.exec(f, args, free, st, 0, nil, nil)
	r.engine(e)
	return good && n > 0 && !e.over
}

// c36Resolve: the query that is forwarded is the one the modifier was applied to.
func c36Resolve(p *Prog, r *Report, fn *ssa.Function, field string) {
	name := p.fnName(fn)
	n := 0
	e := newEngine(p, nil)
	e.r = &Rule{
		Branch: func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
			if a.op == "bin" && a.s == "==" && a.args[1].isNil() && lastField(a.args[0]) == field && val {
				set(st, "none")
			}
		},
		Call: func(e *Engine, st *State, c *CallEv) []Outcome {
			if isResolveCall(c.C) {
				n++
				var q *Term
				if i := queryArg(c.C, c.Args); i >= 0 {
					q = c.Args[i]
				}
				r.check("applied", name, p.iPos(c.In), has(st, "none") || q != nil && has(st, "mod:"+itoa(q.id)), "a query is forwarded without the configured change", st.path())
				return nil
			}
			if c.Fn == nil && !c.C.IsInvoke() {
				if f := e.ev(st, c.C.Value); lastField(f) == field {
					for _, a := range c.Args {
						if isMsgPtr(a.typ) {
							set(st, "mod:"+itoa(a.id))
						}
					}
				}
			}
			return nil
		},
	}
	e.run(fn, "", nil)
	r.engine(e)
	r.check("applied", name+":forwards", p.pos(fn.Pos()), n > 0 && !e.over, "nothing is forwarded", nil)
}

// c36Make: the constructor keeps the modifier it is given.
func c36Make(p *Prog, r *Report, t types.Type, field string) {
	n := 0
	for _, fn := range p.funcs {
		sig := fn.Signature
		if !p.inRoot(fn) || fn.Parent() != nil || sig.Results().Len() == 0 || !isPtr(sig.Results().At(0).Type()) || !types.Identical(deref(sig.Results().At(0).Type()), t) {
			continue
		}
		n++
		name := p.fnName(fn)
		e := newEngine(p, nil)
		e.r = &Rule{Return: func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			if isnil, known := e.isNil(st, res[0]); known && isnil {
				return
			}
			v := e.load(st, e.fa(res[0], field, nil), nil)
			r.check("applied", name+":kept", p.iPos(in), v != nil && v.op == "param" && isModifierFunc(v.typ), "the configured change is not kept", st.path())
		}}
		e.run(fn, "", nil)
		r.engine(e)
	}
	r.check("applied", "constructor:"+typeName(t), "", n > 0, "nothing creates the element", nil)
}

var c36Ops = map[string][2]string{
	"ECSModifierDelete":       {"ECSOp", "delete"},
	"ECSModifierAdd":          {"ECSOp", "add"},
	"ECSModifierAddIfMissing": {"ECSOp", "add-if-missing"},
	"ECSModifierPrivacy":      {"ECSOp", "privacy"},
	"EDNS0ModifierDelete":     {"EDNS0Op", "delete"},
	"EDNS0ModifierAdd":        {"EDNS0Op", "add"},
}

// c36Wiring: the configured operation selects the matching modifier and gives
// it the configured values.
func c36Wiring(p *Prog, r *Report) {
	found := map[string]int{}
	for _, fn := range p.funcs {
		if pkg := fn.Package(); pkg == nil || pkg != p.cmd {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops [10]*ssa.Value
				for i, op := range in.Operands(ops[:0]) {
					if op == nil || *op == nil {
						continue
					}
					v := *op
					if ct, ok := v.(*ssa.ChangeType); ok {
						v = ct.X
					}
					f, ok := v.(*ssa.Function)
					if !ok {
						continue
					}
					want, ok := c36Ops[f.Name()]
					if !ok || !p.inRoot(f) {
						continue
					}
					found[f.Name()]++
					at := b
					if _, ok := in.(*ssa.Phi); ok {
						at = b.Preds[i]
					}
					pos := p.iPos(in)
					r.check("wiring", f.Name(), pos, chosenBy(p, at, want[0], want[1]) || tabled(in, want[1]), "the operation is not selected exactly by "+want[0]+" = "+want[1], nil)
					c, ok := in.(ssa.CallInstruction)
					if !ok || c.Common().StaticCallee() != f {
						continue
					}
					nmask := 0
					for k, a := range c.Common().Args {
						w := ""
						switch t := f.Params[k].Type(); {
						case isNamed(t, "net", "IP"):
							w = "ECSAddress"
						case types.Identical(t.Underlying(), types.Typ[types.Uint8]):
							w = [...]string{"ECSPrefix4", "ECSPrefix6"}[min(nmask, 1)]
							nmask++
						case types.Identical(t.Underlying(), types.Typ[types.Uint16]):
							w = "EDNS0Code"
						case isSliceOf(t, isByte):
							w = "EDNS0Data"
						default:
							continue
						}
						r.check("wiring", f.Name()+":"+w, pos, p.fromField(a, w), "the modifier is not given the configured value "+w, nil)
					}
				}
			}
		}
	}
	for f := range c36Ops {
		r.check("wiring", f+":used", "", found[f] > 0, "no configuration selects the modifier", nil)
	}
}

// tabled: the instruction's value, or what it is used in, is kept under the key.
func tabled(in ssa.Instruction, want string) bool {
	if mu, ok := in.(*ssa.MapUpdate); ok {
		k, ok := mu.Key.(*ssa.Const)
		return ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == want
	}
	v, ok := in.(ssa.Value)
	if !ok || v.Referrers() == nil {
		return false
	}
	for _, ref := range *v.Referrers() {
		switch ref.(type) {
		case *ssa.MapUpdate, *ssa.ChangeType:
			if tabled(ref, want) {
				return true
			}
		}
	}
	return false
}

// chosenBy: the block runs only where the string field is known to be want.
func chosenBy(p *Prog, b *ssa.BasicBlock, field, want string) bool {
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil {
			break
		}
		ifi, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := ifi.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			continue
		}
		val := 0
		if bo.Op == token.NEQ {
			val = 1
		}
		if id.Succs[val] != d || len(d.Preds) != 1 {
			continue
		}
		for _, pr := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
			if c, ok := pr[1].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == want && p.fromField(pr[0], field) {
				return true
			}
		}
	}
	return false
}

func isByte(t types.Type) bool { return types.Identical(t.Underlying(), types.Typ[types.Byte]) }

func itoa(i int32) string { return strconv.Itoa(int(i)) }
