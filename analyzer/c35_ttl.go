package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C35: lifetime limits hold for every record of every answer.

func init() {
	register("C35", "after a TTL-limiting element every record of every section has a lifetime within the limits and the options record is untouched",
		runC35,
		"The configured minimum is not above the configured maximum",
		"The element that limits lifetimes has the options MinTTL and MaxTTL; 0 means no maximum")
}

func runC35(p *Prog, r *Report) {
	var limiters []types.Type
	for _, fn := range p.resolvers() {
		t := deref(fn.Params[0].Type())
		st, ok := t.Underlying().(*types.Struct)
		if !ok || !hasField(st, "MinTTL", 2) || !hasField(st, "MaxTTL", 2) {
			continue
		}
		limiters = append(limiters, t)
		zero := c35Run(p, r, fn, true)
		c35Make(p, r, t, st, zero)
	}
	// functions that choose a lifetime before the limits are applied
	for _, fn := range p.funcs {
		sig := fn.Signature
		if !p.inRoot(fn) || fn.Parent() != nil || sig.Recv() != nil || sig.Params().Len() != 2 || sig.Results().Len() != 1 || !isBool(sig.Results().At(0).Type()) || !isMsgPtr(sig.Params().At(1).Type()) {
			continue
		}
		for _, t := range limiters {
			if types.Identical(deref(sig.Params().At(0).Type()), t) {
				c35Run(p, r, fn, false)
			}
		}
	}
	// the cache: lifetimes read to decide how long to keep an answer and lifetimes of cached answers
	if it := p.iface(p.root, "CacheBackend"); it != nil {
		for _, t := range p.implementers(it) {
			if f := p.method(t, "Lookup"); f != nil && p.inRepo(f) {
				c35Cache(p, r, f)
			}
		}
		for _, fn := range p.resolvers() {
			if st, ok := deref(fn.Params[0].Type()).Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if types.Identical(st.Field(i).Type().Underlying(), it) {
						c35Cache(p, r, fn)
					}
				}
			}
		}
	}
	r.atLeast("cache", 3)
	r.atLeast("limit", 3)
	r.atLeast("options-record", 2)
	r.atLeast("select", 3)
}

// c35Run analyses the limiter's Resolve (limits) or a function that selects a
// lifetime. It returns whether a maximum of 0 is treated as no maximum.
func c35Run(p *Prog, r *Report, fn *ssa.Function, limits bool) bool {
	name := p.fnName(fn)
	me := fn.Params[0].Name() + "@" + name
	opt := func(t *Term, n string) bool { return lastField(t) == n && partOf(t, me) }
	zero := false
	stored := map[string]bool{}
	e := newEngine(p, nil)
	// bounds: the value is known to be at least the minimum, at most the maximum
	var bounds func(st *State, v *Term) (ge, le bool)
	bounds = func(st *State, v *Term) (bool, bool) {
		switch {
		case opt(v, "MinTTL"), opt(v, "MaxTTL"):
			return true, true
		case v.op == "min" || v.op == "max":
			ge, le := v.op == "min", v.op == "max"
			for _, a := range v.args {
				g, l := bounds(st, a)
				if v.op == "min" {
					ge, le = ge && g, le || l
				} else {
					ge, le = ge || g, le && l
				}
			}
			return ge, le
		case v.isField("Ttl"):
			return has(st, "ge-min"), has(st, "le-max")
		}
		return false, false
	}
	endRound := func(st *State, pos string) {
		if limits && has(st, "todo") {
			r.check("limit", name+":min", pos, has(st, "ge-min") || has(st, "o:nomin"), "a record's lifetime can remain below the minimum", st.path())
			r.check("limit", name+":max", pos, has(st, "le-max") || has(st, "o:nomax"), "a record's lifetime can remain above the maximum", st.path())
		}
		for _, f := range []string{"todo", "ge-min", "le-max", "lt-min", "gt-max", "notopt", "opt"} {
			unset(st, f)
		}
		for _, f := range flags(st, "in:") {
			unset(st, "in:"+f)
		}
	}
	e.r = &Rule{
		Unroll: true,
		Inline: func(e *Engine, f *ssa.Function) bool { return e.getInfo(f).size < 200 },
		Branch: func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
			pos := p.pos(fn.Pos())
			if in != nil {
				pos = p.pos(condPos(in))
			}
			if a.op == "is" && strings.HasSuffix(a.s, dnsPath+".OPT") {
				set(st, map[bool]string{true: "opt", false: "notopt"}[val])
				if val {
					unset(st, "todo")
				}
			}
			if a.op != "bin" {
				return
			}
			x, y := a.args[0], a.args[1]
			switch {
			case a.s == "<" && y.op == "len":
				ss := sectionsOf(e, y)
				if len(ss) == 0 {
					return
				}
				endRound(st, pos)
				for _, s := range ss {
					if val {
						set(st, "todo")
						set(st, "in:"+s.sec)
					} else {
						set(st, fmt.Sprintf("sec:%d:%s", s.msg.id, s.sec))
					}
				}
			case a.s == "==":
				k, isC := y.intv()
				switch {
				case isC && k == 41 && x.isField("Rrtype"):
					set(st, map[bool]string{true: "opt", false: "notopt"}[val])
					if val {
						unset(st, "todo")
					}
				case isC && k == 0 && opt(x, "MaxTTL"):
					zero = true
					if val {
						set(st, "o:nomax")
					}
				case isC && k == 0 && opt(x, "MinTTL") && val:
					set(st, "o:nomin")
				case val && (x.isField("Ttl") && (opt(y, "MinTTL") || opt(y, "MaxTTL")) || y.isField("Ttl") && (opt(x, "MinTTL") || opt(x, "MaxTTL"))):
					set(st, "ge-min")
					set(st, "le-max")
				}
			case a.s == "<" && opt(x, "MaxTTL") && opt(y, "MinTTL"): // contradictory limits
				if val {
					set(st, "gt-max")
					set(st, "lt-min")
				}
			case a.s == "<" && opt(y, "MinTTL") && x.isField("Ttl"):
				if val {
					set(st, "lt-min")
				} else {
					set(st, "ge-min")
				}
			case a.s == "<" && opt(x, "MinTTL") && y.isField("Ttl") && val:
				set(st, "ge-min")
			case a.s == "<" && opt(x, "MaxTTL") && y.isField("Ttl"):
				if val {
					set(st, "gt-max")
				} else {
					set(st, "le-max")
				}
			case a.s == "<" && opt(y, "MaxTTL") && x.isField("Ttl") && val:
				set(st, "le-max")
			}
		},
		BackEdge: func(e *Engine, st *State, from, head *ssa.BasicBlock) {
			for a := range st.mem { // counts and sums do not matter here
				if a.op == "alloc" && a.typ != nil && isIntT(deref(a.typ)) {
					delete(st.mem, a)
				}
			}
		},
		Instr: func(e *Engine, st *State, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			a := e.ev(st, s.Addr)
			if a.op != "fa" || a.s != "Ttl" || rootOf(a).op == "alloc" {
				return
			}
			pos := p.iPos(in)
			for _, sec := range flags(st, "in:") {
				stored[sec] = true
			}
			r.check("options-record", name, pos, has(st, "notopt") || !has(st, "in:Extra") && has(st, "todo"), "the lifetime field of the options record, which holds its flags, may be overwritten", st.path())
			if !limits {
				return
			}
			v := e.ev(st, s.Val)
			switch {
			case opt(v, "MinTTL"):
				if !has(st, "lt-min") {
					r.viol("limit", name+":raised", pos, "a lifetime that is not below the minimum is set to the minimum", st.path())
				}
				set(st, "ge-min")
				set(st, "le-max")
			case opt(v, "MaxTTL"):
				if !has(st, "gt-max") {
					r.viol("limit", name+":lowered", pos, "a lifetime that is not above the maximum is set to the maximum", st.path())
				}
				set(st, "ge-min")
				set(st, "le-max")
			default:
				ge, le := bounds(st, v)
				for f, ok := range map[string]bool{"ge-min": ge, "le-max": le} {
					if ok {
						set(st, f)
					} else {
						unset(st, f)
					}
				}
			}
		},
		Return: func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			pos := p.iPos(in)
			m := res[0]
			if limits {
				if isnil, known := e.isNil(st, m); known && isnil {
					return
				}
				if isnil, known := e.isNil(st, res[1]); known && !isnil {
					return
				}
			} else {
				m = nil
				for _, prm := range fn.Params {
					if isMsgPtr(prm.Type()) {
						m = st.env[prm]
					}
				}
			}
			if m == nil {
				return
			}
			endRound(st, pos)
			for _, s := range []string{"Answer", "Ns", "Extra"} {
				rule := "limit"
				if !limits {
					rule = "select"
				}
				r.check(rule, name+":"+s, pos, has(st, fmt.Sprintf("sec:%d:%s", m.id, s)), "an answer is returned without the lifetimes of this section having been looked at: "+s, st.path())
			}
		},
	}
	e.run(fn, "", nil)
	r.engine(e)
	for _, s := range []string{"Answer", "Ns", "Extra"} {
		r.check("limit", name+":set:"+s, p.pos(fn.Pos()), stored[s] && !e.over, "lifetimes in this section are never changed: "+s, nil)
	}
	return zero
}

// c35Make: the limits are kept as given; no maximum is the largest value.
func c35Make(p *Prog, r *Report, t types.Type, st0 *types.Struct, zero bool) {
	n := 0
	for _, fn := range p.funcs {
		sig := fn.Signature
		if !p.inRoot(fn) || fn.Parent() != nil || sig.Results().Len() == 0 || !isPtr(sig.Results().At(0).Type()) || !types.Identical(deref(sig.Results().At(0).Type()), t) {
			continue
		}
		n++
		name := p.fnName(fn)
		e := newEngine(p, nil)
		e.r = &Rule{
			Branch: func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
				if a.op == "bin" && a.s == "==" && lastField(a.args[0]) == "MaxTTL" {
					if k, ok := a.args[1].intv(); ok && k == 0 && val {
						set(st, "nomax")
					} else if ok && k == 0 {
						set(st, "max")
					}
				}
			},
			Return: func(e *Engine, st *State, in *ssa.Return, res []*Term) {
				if isnil, known := e.isNil(st, res[0]); known && isnil {
					return
				}
				for _, f := range leafFields(st0, nil) {
					leaf := f[len(f)-1]
					if leaf != "MinTTL" && leaf != "MaxTTL" {
						continue
					}
					a := res[0]
					for _, x := range f {
						a = e.fa(a, x, nil)
					}
					v := e.load(st, a, types.Typ[types.Uint32])
					k, isC := v.intv()
					ok := lastField(v) == leaf
					if leaf == "MaxTTL" {
						ok = ok && (zero || has(st, "max")) || isC && k == 1<<32-1 && has(st, "nomax")
					}
					r.check("limit", name+":"+leaf, p.iPos(in), ok, "the limit is not kept as configured: "+leaf, st.path())
				}
			},
		}
		e.run(fn, "", nil)
		r.engine(e)
	}
	r.check("limit", "constructor:"+typeName(t), "", n > 0, "nothing creates the element", nil)
}

// ttlAccess: the function reads or sets the lifetime of records.
func ttlAccess(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && isNamed(deref(fa.X.Type()), dnsPath, "RR_Header") && fieldName(deref(fa.X.Type()), fa.Field) == "Ttl" {
				return true
			}
		}
	}
	return false
}

// c35Cache: the lifetime field of an options record is neither read as a lifetime nor changed.
func c35Cache(p *Prog, r *Report, fn *ssa.Function) {
	name := p.fnName(fn)
	e := newEngine(p, nil)
	n := 0
	e.r = &Rule{
		Unroll: true,
		Event:  ttlAccess,
		Inline: func(e *Engine, f *ssa.Function) bool { return e.hasEvent(f) },
		Keep:   func(e *Engine, a *Term) bool { return false },
		Call: func(e *Engine, st *State, c *CallEv) []Outcome {
			if _, ok := c.C.Value.(*ssa.Builtin); !ok && (c.Fn == nil || !p.inRepo(c.Fn)) && !strings.HasSuffix(c.Name, ".Header") {
				return []Outcome{{st, e.opaque(st, c, nil)}} // keeps terms short
			}
			return nil
		},
		Branch: func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
			switch {
			case a.op == "is" && strings.HasSuffix(a.s, dnsPath+".OPT") && !val:
				set(st, "notopt")
			case a.op == "is" && val && strings.Contains(a.s, dnsPath+"."):
				set(st, "notopt")
			case a.op == "bin" && a.s == "==" && a.args[0].isField("Rrtype"):
				if k, ok := a.args[1].intv(); ok && (k == 41) != val {
					set(st, "notopt")
				}
			case a.op == "bin" && a.s == "<" && a.args[1].op == "len":
				ss := sectionsOf(e, a.args[1])
				if len(ss) == 0 {
					return
				}
				unset(st, "notopt")
				unset(st, "extra")
				for _, s := range ss {
					if s.sec == "Extra" && val {
						set(st, "extra")
					}
				}
			}
		},
		Instr: func(e *Engine, st *State, in ssa.Instruction) {
			fa, ok := in.(*ssa.FieldAddr)
			if !ok || !isNamed(deref(fa.X.Type()), dnsPath, "RR_Header") || fieldName(deref(fa.X.Type()), fa.Field) != "Ttl" {
				return
			}
			if !has(st, "extra") || rootOf(e.ev(st, fa.X)).op == "alloc" {
				return
			}
			n++
			r.check("cache", name, p.iPos(in), has(st, "notopt"), "the flags of the options record are treated as a lifetime", st.path())
		},
	}
	e.run(fn, "", nil)
	r.engine(e)
	r.check("cache", name+":analysed", p.pos(fn.Pos()), !e.over, "the analysis budget was exceeded", nil)
}
