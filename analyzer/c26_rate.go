package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C26: rate limits.

func init() {
	register("C26", "rate limits are enforced and count every query",
		runC26,
		"The element that limits rates has the options Requests, Window, Prefix4, Prefix6 and LimitResolver")
}

func runC26(p *Prog, r *Report) {
	for _, fn := range p.resolvers() {
		st, ok := deref(fn.Params[0].Type()).Underlying().(*types.Struct)
		if ok && hasField(st, "Requests", 2) && hasField(st, "Window", 2) {
			c26Run(p, r, fn, st)
		}
	}
	r.atLeast("limit", 1)
	r.atLeast("key", 2)
}

func c26Run(p *Prog, r *Report, fn *ssa.Function, recv *types.Struct) {
	name := p.fnName(fn)
	me := fn.Params[0].Name() + "@" + name
	bad := func(st *State, rule, what, pos, msg string) {
		r.viol(rule, name+":"+what, pos, msg, st.path())
	}
	// the table of counters
	table := ""
	for i := 0; i < recv.NumFields(); i++ {
		if _, ok := recv.Field(i).Type().Underlying().(*types.Map); ok {
			table = recv.Field(i).Name()
		}
	}
	e := newEngine(p, nil)
	field := func(t *Term, n string) bool {
		return e.T.contains(t, func(x *Term) bool { return lastField(x) == n && partOf(x, me) })
	}
	// isTable: the table, or one that was just made to replace it
	isTable := func(t *Term) bool {
		return lastField(t) == table && partOf(t, me) || t.op == "make" || t.op == "alloc" && t.typ != nil && isMapT(t.typ)
	}
	// count: the term is the number of queries counted so far plus n
	var count func(t *Term) (int64, bool)
	count = func(t *Term) (int64, bool) {
		if k, ok := t.intv(); ok && k == 0 {
			return 0, true
		}
		switch t.op {
		case "bin":
			if t.s == "+" {
				for i := range t.args {
					if k, ok := t.args[i].intv(); ok {
						if n, ok := count(t.args[1-i]); ok {
							return n + k, true
						}
					}
				}
			}
		case "ld", "ext", "conv":
			return count(t.args[0])
		case "lookup":
			return 0, isTable(t.args[0])
		case "alloc":
			return 0, true
		}
		return 0, false
	}
	windows, keys, admitted := 0, 0, 0
	isKey := func(st *State, k *Term, pos string) {
		keys++
		var mask *Term
		other := ""
		e.T.walk(k, func(x *Term) bool {
			if x.op == "call" && strings.HasSuffix(x.callName(), "net.IP).Mask") {
				mask = x
			}
			if x.op == "param" && isMsgPtr(x.typ) {
				other = "the query"
			}
			if x.op == "vf" || x.op == "fa" {
				if len(x.args) > 0 && x.args[0].typ != nil && isNamed(x.args[0].typ, modPath, "ClientInfo") && x.s != "SourceIP" {
					other = x.s
				}
			}
			return true
		})
		v4 := has(st, "v4")
		kind, field0, bits := "6", "Prefix6", int64(128)
		if v4 {
			kind, field0, bits = "4", "Prefix4", 32
		}
		switch {
		case mask == nil:
			bad(st, "key", "mask"+kind, pos, "queries are not counted by the network of their source address")
			return
		case other != "":
			bad(st, "key", "other", pos, "queries of one network are counted separately depending on "+other)
			return
		case !has(st, "v4") && !has(st, "v6"):
			bad(st, "key", "family", pos, "the family of the source address is not looked at")
			return
		}
		if !e.T.readsField(mask.args[0], "SourceIP") {
			bad(st, "key", "source", pos, "queries are counted under something other than the source address of the query")
		}
		m := mask.args[1]
		ok := false
		if m.op == "call" && m.callName() == "net.CIDRMask" {
			b, isC := m.args[1].intv()
			ok = field(m.args[0], field0) && isC && b == bits
		}
		r.check("key", name+":prefix"+kind, pos, ok, "an IPv"+kind+" source address is not reduced to the "+field0+" bits configured for it", st.path())
	}
	use := func(e *Engine, st *State, k *Term, in ssa.Instruction) {
		if has(st, "key") && !has(st, fmt.Sprintf("key=%d", k.id)) {
			bad(st, "limit", "two-keys", p.iPos(in), "the counter is read under one key and stored under another")
		}
		if !has(st, "key") {
			isKey(st, k, p.iPos(in))
		}
		set(st, "key")
		set(st, fmt.Sprintf("key=%d", k.id))
	}
	e.r = &Rule{
		Event: func(f *ssa.Function) bool {
			return hasCall(f, func(c *ssa.CallCommon) bool {
				_, op, _ := lockOp(c)
				n := calleeName(c)
				return isResolveCall(c) || op != 0 || n == "net.CIDRMask" || n == "time.Now"
			}) || usesMap(f)
		},
		Inline: func(e *Engine, f *ssa.Function) bool { return e.hasEvent(f) || e.getInfo(f).size < 60 },
		Branch: func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
			if a.op != "bin" {
				return
			}
			x, y := a.args[0], a.args[1]
			to4 := func(t *Term) bool {
				return e.T.contains(t, func(x *Term) bool { return x.op == "call" && strings.HasSuffix(x.callName(), "net.IP).To4") })
			}
			switch {
			case a.s == "==" && to4(x):
				k, isC := y.intv()
				is4 := val
				if y.isNil() || isC && k == 0 {
					is4 = !val
				} else if !isC || k != 4 {
					return
				}
				set(st, map[bool]string{true: "v4", false: "v6"}[is4])
			case a.s == "==" && (field(x, "Window") || field(y, "Window")):
				windows++
				set(st, map[bool]string{true: "same", false: "new"}[val])
				if now, ok := windowOf(e, x, y); ok {
					set(st, fmt.Sprintf("win=%d", now.id))
				} else {
					bad(st, "limit", "window", p.iPos(in), "the current time window is not the time divided by the configured length")
				}
			case a.s == "==" && lastField(x) == "Requests" && has(st, "fresh"):
				if k, ok := y.intv(); ok && k == 0 {
					set(st, map[bool]string{true: "over", false: "under"}[val])
				}
			case a.s == "<" && lastField(y) == "Requests" && partOf(y, me):
				if n, ok := count(x); ok && n == 0 {
					set(st, map[bool]string{true: "under", false: "over"}[val])
				} else if ok && n == 1 && has(st, "counted") {
					bad(st, "limit", "off", p.iPos(in), "the query that reaches the limit exactly is not let through")
				}
			case a.s == "<" && lastField(x) == "Requests" && partOf(x, me):
				if n, ok := count(y); ok && n == 1 {
					set(st, map[bool]string{true: "over", false: "under"}[val])
				}
			}
		},
		Call: func(e *Engine, st *State, c *CallEv) []Outcome {
			_, op, _ := lockOp(c.C)
			switch {
			case op > 0 && c.Kind == "call":
				set(st, "locked")
			case op < 0:
				if has(st, "locked") && has(st, "key") && !has(st, "counted") && !has(st, "over") {
					bad(st, "limit", "split", p.iPos(c.In), "the counter is read and increased in separate critical sections, so concurrent queries can pass together")
				}
				if has(st, "own") && !has(st, "fresh") {
					bad(st, "limit", "lost", p.iPos(c.In), "the query is counted in a counter that is not kept")
				}
				unset(st, "locked")
			case c.Name == "time.Now":
				if has(st, "locked") {
					set(st, "clock-locked")
				}
			}
			if bi, ok := c.C.Value.(*ssa.Builtin); ok && (bi.Name() == "clear" || bi.Name() == "delete") && isTable(c.Args[0]) {
				if !has(st, "new") {
					bad(st, "limit", "restart", p.iPos(c.In), "counts are removed although the time window did not change")
				}
				if bi.Name() == "clear" {
					set(st, "reset")
				}
			}
			if isResolveCall(c.C) {
				pos := p.iPos(c.In)
				if !has(st, "counted") && !has(st, "over") {
					bad(st, "limit", "uncounted", pos, "the query is passed on without having been counted")
				}
				if listRole(lastField(c.Args[0])) == "upstream" && lastField(c.Args[0]) != "LimitResolver" {
					admitted++
					if !has(st, "under") {
						bad(st, "limit", "exceeded", pos, "the query reaches the upstream although the number of queries in this window was not found to be below the limit")
					}
				} else if !has(st, "over") {
					bad(st, "limit", "diverted", pos, "a query within the limit is not sent to the upstream")
				}
				set(st, "sent")
			}
			return nil
		},
		Instr: func(e *Engine, st *State, in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.Lookup:
				if isMapT(in.X.Type()) && isTable(e.ev(st, in.X)) {
					use(e, st, e.ev(st, in.Index), in)
				}
			case *ssa.MapUpdate:
				if !isTable(e.ev(st, in.Map)) {
					return
				}
				use(e, st, e.ev(st, in.Key), in)
				v := e.ev(st, in.Value)
				if isPtr(v.typ) {
					set(st, "fresh")
					return
				}
				c26Count(e, st, bad, p.iPos(in), count, v)
			case *ssa.Store:
				a := e.ev(st, in.Addr)
				v := e.ev(st, in.Val)
				if fa, ok := in.Addr.(*ssa.FieldAddr); ok && partOf(rootOf(a), me) {
					f := fieldName(deref(fa.X.Type()), fa.Field)
					switch {
					case f == table:
						if !has(st, "new") {
							bad(st, "limit", "restart", p.iPos(in), "the counts are restarted although the time window did not change")
						}
						set(st, "reset")
					case has(st, fmt.Sprintf("win=%d", v.id)):
						set(st, "moved")
					}
					return
				}
				if isIntT(in.Val.Type()) && (a.op == "ext" || a.op == "lookup" || a.op == "alloc" || a.op == "phi") && v.op == "bin" {
					if a.op == "alloc" {
						set(st, "own")
					}
					c26Count(e, st, bad, p.iPos(in), count, v)
				}
			}
		},
		Return: func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			pos := p.iPos(in)
			if has(st, "locked") {
				return // C18
			}
			switch {
			case !has(st, "counted") && !has(st, "over"):
				bad(st, "limit", "uncounted", pos, "the query is answered without having been counted")
			case has(st, "new") && (!has(st, "reset") || !has(st, "moved")):
				bad(st, "limit", "stale", pos, "a new time window does not restart the counts exactly once")
			case !has(st, "new") && !has(st, "same"):
				bad(st, "limit", "windowless", pos, "the time window is not looked at")
			case !has(st, "clock-locked"):
				bad(st, "limit", "clock", pos, "the clock is read before the lock is taken, so a delayed query can bring back the previous window and the counts are lost")
			case !has(st, "sent") && !has(st, "over"):
				bad(st, "limit", "dropped", pos, "a query within the limit is dropped")
			}
			if !has(st, "sent") {
				a, k1 := e.isNil(st, res[0])
				b, k2 := e.isNil(st, res[1])
				if !(k1 && a && k2 && b) {
					bad(st, "limit", "answered", pos, "a query above the limit is neither sent to the limit resolver nor dropped")
				}
			}
		},
	}
	e.run(fn, "", nil)
	r.engine(e)
	// nobody else touches the counts
	mine := map[*ssa.Function]bool{fn: true}
	p.staticReach(fn, func(f *ssa.Function) bool { mine[f] = true; return true })
	for _, f := range p.funcs {
		if mine[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fieldName(deref(fa.X.Type()), fa.Field) != table || !types.Identical(deref(fa.X.Type()), deref(fn.Params[0].Type())) {
					continue
				}
				_, fresh := fa.X.(*ssa.Alloc)
				r.check("limit", name+":only:"+p.fnName(f), p.iPos(in), fresh, "the counts are changed outside of the handling of a query", nil)
			}
		}
	}
	r.check("limit", name, p.pos(fn.Pos()), admitted > 0 && keys > 0 && windows > 0 && !e.over, "no limit is enforced, or the analysis budget was exceeded", nil)
}

func c26Count(e *Engine, st *State, bad func(st *State, rule, what, pos, msg string), pos string, count func(t *Term) (int64, bool), v *Term) {
	n, ok := count(v)
	switch {
	case !ok || n != 1 || has(st, "counted"):
		bad(st, "limit", "count", pos, "the query is not counted exactly once")
	case !has(st, "locked"):
		bad(st, "limit", "unlocked", pos, "the query is counted without holding the lock")
	}
	set(st, "counted")
}

// windowOf: one of the terms is time / window length; the other the remembered window.
func windowOf(e *Engine, x, y *Term) (*Term, bool) {
	for _, t := range []*Term{x, y} {
		if t.op == "bin" && t.s == "/" && e.T.readsField(t.args[1], "Window") && e.T.callsTo(t.args[0], "time.Time).Unix") && e.T.callsTo(t.args[0], "time.Now") {
			return t, true
		}
	}
	return nil, false
}

func isMapT(t types.Type) bool {
	_, ok := deref(t).Underlying().(*types.Map)
	return ok
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// usesMap: fn reads or writes a map.
func usesMap(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.MapUpdate:
				return true
			case *ssa.Lookup:
				if isMapT(in.X.Type()) {
					return true
				}
			case *ssa.UnOp:
				if in.Op == token.MUL && isMapT(in.Type()) {
					return true
				}
			}
		}
	}
	return false
}
