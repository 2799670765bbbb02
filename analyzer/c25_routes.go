package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C25: a route applies exactly when all its criteria match.

func init() {
	register("C25", "a route applies exactly when all its criteria match",
		runC25,
		"The meaning of the configured criteria is fixed by the table in c25_routes.go: configuration field to attribute of the query",
		"regexp, net.IPNet.Contains and slices.Contains decide as documented")
}

// c25Attr: configuration field of a route -> attribute of the query it is about.
var c25Attr = map[string]string{
	"Type": "Qtype", "Types": "Qtype", "Class": "Qclass", "Name": "Name",
	"Source": "SourceIP", "ECSSource": "Address", "DoHPath": "DoHPath",
	"Listener": "Listener", "TLSServerName": "TLSServerName",
	"Weekdays": "Weekday", "Before": "before", "After": "after",
}

var c25Class = map[string]int64{"IN": 1, "INET": 1, "CH": 3, "HS": 4, "NONE": 254, "ANY": 255}
var c25Days = map[string]int64{"sun": 0, "mon": 1, "tue": 2, "wed": 3, "thu": 4, "fri": 5, "sat": 6}

func runC25(p *Prog, r *Report) {
	var make *ssa.Function
	for _, fn := range p.funcs {
		if fn.Name() == "NewRoute" && p.inRoot(fn) && fn.Signature.Recv() == nil {
			make = fn
		}
	}
	if make == nil {
		r.viol("criteria", "NewRoute", "", "no function creates routes", nil)
		return
	}
	rt, ok := deref(make.Signature.Results().At(0).Type()).Underlying().(*types.Struct)
	if !ok {
		r.viol("criteria", "NewRoute", p.pos(make.Pos()), "routes are not structures", nil)
		return
	}
	roles := c25Config(p, r, make)
	fields := c25Fields(p, r, make, rt, roles)
	parts := c25Parse(p, r, make)
	matches := 0
	inverted := c25Invert(p, r, make, rt)
	for _, fn := range p.funcs {
		sig := fn.Signature
		if sig.Recv() == nil || len(fn.Params) < 2 || !types.Identical(deref(sig.Recv().Type()), deref(make.Signature.Results().At(0).Type())) {
			continue
		}
		inner := false
		for _, ci := range p.callersOf(fn) {
			c := ci.Parent().Signature
			inner = inner || c.Recv() != nil && types.Identical(c.Recv().Type(), sig.Recv().Type())
		}
		if sig.Results().Len() == 1 && isBool(sig.Results().At(0).Type()) && isMsgPtr(fn.Params[1].Type()) && !inner {
			matches++
			c25Match(p, r, fn, fields, parts, inverted)
		}
	}
	r.check("match", "routes", p.pos(make.Pos()), matches > 0, "no function decides whether a route applies to a query", nil)
	for _, fn := range p.resolvers() {
		st, ok := deref(fn.Params[0].Type()).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(deref(sl.Elem()), deref(make.Signature.Results().At(0).Type())) {
				c25Router(p, r, fn, st.Field(i), deref(sl.Elem()))
			}
		}
	}
	r.atLeast("criteria", 12)
	r.atLeast("match", 2)
	r.atLeast("router", 3)
}

// c25Config: the parameters of NewRoute get the configuration fields they are about. Returns parameter index -> role.
func c25Config(p *Prog, r *Report, make *ssa.Function) map[int]string {
	roles := map[int]string{}
	seen := map[string]bool{}
	n := 0
	for _, ci := range p.callersOf(make) {
		fn := ci.Parent()
		if fn.Pkg != p.cmd {
			continue
		}
		n++
		for i, a := range ci.Common().Args {
			var got []string
			p.slice(a, func(v ssa.Value) bool {
				var t types.Type
				var k int
				switch v := v.(type) {
				case *ssa.FieldAddr:
					t, k = deref(v.X.Type()), v.Field
				case *ssa.Field:
					t, k = v.X.Type(), v.Field
				default:
					return true
				}
				if c25IsConf(t) {
					got = append(got, fieldName(t, k))
				}
				return true
			})
			sort.Strings(got)
			role := ""
			for _, g := range got {
				a := c25Attr[g]
				if a == "" {
					continue
				}
				seen[g] = true
				if role != "" && role != a {
					r.viol("criteria", "config:"+g, p.iPos(ci), "one parameter of the route gets several criteria of the configuration", nil)
				}
				role = a
			}
			if role == "" {
				continue
			}
			for k, v := range roles {
				if v == role && k != i {
					r.viol("criteria", "config:"+role, p.iPos(ci), "two parameters of the route get the same criterion", nil)
				}
			}
			roles[i] = role
		}
		var conf *types.Struct
		if t := c25ConfOf(p, fn); t != nil {
			conf = t
		}
		for f := range c25Attr {
			if conf != nil && !hasField(conf, f, 1) {
				if f != "Type" {
					r.viol("criteria", "config:"+f, p.iPos(ci), "the criterion "+f+" can not be configured", nil)
				}
				continue
			}
			r.check("criteria", "config:"+f, p.iPos(ci), seen[f], "the configured criterion "+f+" does not reach the route", nil)
		}
		c25Added(p, r, ci)
	}
	r.check("criteria", "config", p.pos(make.Pos()), n > 0, "no route is created from the configuration", nil)
	return roles
}

func c25IsConf(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	return ok && hasField(s, "ECSSource", 1) && hasField(s, "Weekdays", 1) && hasField(s, "Invert", 1)
}

func c25ConfOf(p *Prog, fn *ssa.Function) (s *types.Struct) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && c25IsConf(deref(v.Type())) {
				s = deref(v.Type()).Underlying().(*types.Struct)
			}
		}
	}
	return
}

// c25Added: a route made from the configuration is inverted as configured and added to the router.
func c25Added(p *Prog, r *Report, mk ssa.CallInstruction) {
	fn := mk.Parent()
	name := p.fnName(fn)
	rt := mk.Common().Signature().Results().At(0).Type()
	e := newEngine(p, nil)
	added, lost := 0, false
	e.r = &Rule{
		Event: func(f *ssa.Function) bool {
			return hasCall(f, func(c *ssa.CallCommon) bool { return c.StaticCallee() == mk.Common().StaticCallee() })
		},
		Inline: func(e *Engine, f *ssa.Function) bool { return f.Pkg == p.cmd },
		Call: func(e *Engine, st *State, c *CallEv) []Outcome {
			if c.In == mk.(ssa.Instruction) || c.C.StaticCallee() == mk.Common().StaticCallee() {
				outs := e.opaque(st, c, nil)
				set(st, "made")
				unset(st, "invert")
				unset(st, "added")
				return []Outcome{{st, outs}}
			}
			sig := c.C.Signature()
			if sig.Recv() != nil && types.Identical(sig.Recv().Type(), rt) && sig.Params().Len() == 1 && isBool(sig.Params().At(0).Type()) {
				if len(c.Args) == 2 && e.T.readsField(c.Args[1], "Invert") && c.Args[1].op != "not" {
					set(st, "invert")
				}
				return nil
			}
			if sig.Recv() != nil && sig.Params().Len() > 0 {
				if sl, ok := sig.Params().At(sig.Params().Len() - 1).Type().(*types.Slice); ok && types.Identical(sl.Elem(), rt) {
					if !has(st, "invert") {
						r.viol("criteria", name+":Invert", p.iPos(c.In), "the route is added without the inversion that is configured for it", st.path())
					}
					set(st, "added")
					added++
				}
			}
			return nil
		},
		BackEdge: func(e *Engine, st *State, from, head *ssa.BasicBlock) {
			if has(st, "made") && !has(st, "added") {
				lost = true
			}
			unset(st, "made")
			unset(st, "added")
			unset(st, "invert")
		},
		Return: func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			if len(res) == 0 {
				return
			}
			if isnil, known := e.isNil(st, res[len(res)-1]); !(known && !isnil) && has(st, "made") && !has(st, "added") {
				lost = true
			}
		},
	}
	e.run(fn, "", nil)
	r.engine(e)
	r.check("criteria", name+":added", p.iPos(mk), added > 0 && !lost && !e.over, "a configured route is not added to the router", nil)
	// in the order of the configuration
	ok := false
	p.slice(mk.Common().Args[0], func(v ssa.Value) bool {
		if ia, is := v.(*ssa.IndexAddr); is && c25IsConf(deref(ia.Type())) && c25Forward(ia.Index) {
			ok = true
		}
		return true
	})
	r.check("router", name+":order", p.iPos(mk), ok, "routes are not created in the order of the configuration", nil)
}

// c25Forward: the index runs 0, 1, 2, ...
func c25Forward(v ssa.Value) bool {
	from := int64(0)
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD && isOne(b.Y) {
		v, from = b.X, -1
	}
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, x := range ph.Edges {
		switch x := x.(type) {
		case *ssa.Const:
			if x.Value == nil || x.Value.Kind() != constant.Int || x.Int64() != from {
				return false
			}
		case *ssa.BinOp:
			if x.Op != token.ADD || x.X != ssa.Value(ph) || !isOne(x.Y) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// c25Fields: field of the route -> role, from the parameters stored into it.
func c25Fields(p *Prog, r *Report, make *ssa.Function, rt *types.Struct, roles map[int]string) map[string]string {
	index := map[string]int{}
	for i, prm := range make.Params {
		index[prm.Name()+"@"+p.fnName(make)] = i
	}
	fields := map[string]string{}
	e := newEngine(p, nil)
	good := 0
	e.r = &Rule{
		Inline: func(e *Engine, f *ssa.Function) bool { return false },
		Return: func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			if isnil, known := e.isNil(st, res[len(res)-1]); known && !isnil {
				return
			}
			if isnil, known := e.isNil(st, res[0]); known && isnil {
				return
			}
			good++
			for i := 0; i < rt.NumFields(); i++ {
				f := rt.Field(i)
				v := e.load(st, e.fa(res[0], f.Name(), types.NewPointer(f.Type())), f.Type())
				e.T.walk(v, func(x *Term) bool {
					if x.op == "param" {
						if k, ok := index[x.s]; ok && roles[k] != "" {
							if old := fields[f.Name()]; old != "" && old != roles[k] {
								r.viol("criteria", "field:"+f.Name(), p.iPos(in), "a field of the route mixes the criteria "+old+" and "+roles[k], st.path())
							}
							fields[f.Name()] = roles[k]
						}
					}
					return true
				})
			}
		},
	}
	e.run(make, "", nil)
	r.engine(e)
	inv := map[string]string{}
	for f, a := range fields {
		if o := inv[a]; o != "" {
			r.viol("criteria", "stored:"+a, p.pos(make.Pos()), "the criterion "+a+" is stored in "+o+" and "+f, nil)
		}
		inv[a] = f
	}
	// parsing code written out in NewRoute itself: pair what is left over if there is no choice
	var leftA, leftF []string
	for _, a := range sortedVals(roles) {
		if inv[a] == "" {
			leftA = append(leftA, a)
		}
	}
	for i := 0; i < rt.NumFields(); i++ {
		f := rt.Field(i)
		if fields[f.Name()] == "" && !isBool(f.Type()) && !isResolverT(f.Type()) {
			leftF = append(leftF, f.Name())
		}
	}
	if len(leftA) == 1 && len(leftF) == 1 {
		fields[leftF[0]] = leftA[0]
		inv[leftA[0]] = leftF[0]
	}
	for _, a := range sortedVals(roles) {
		r.check("criteria", "stored:"+a, p.pos(make.Pos()), good > 0 && inv[a] != "", "the criterion for "+a+" is not kept in the route", nil)
	}
	return fields
}

func sortedVals(m map[int]string) (out []string) {
	for _, v := range m {
		out = append(out, v)
	}
	sort.Strings(out)
	return
}

// c25Parse: weekdays, classes and times of day are read as written. Returns which part of a time of
// day a field holds: h or m.
func c25Parse(p *Prog, r *Report, make *ssa.Function) map[string]string {
	parts := map[string]string{}
	e := newEngine(p, nil)
	day := func(t types.Type) bool { return isNamedT(t, "time", "Weekday") }
	lit := func(a *Term) (string, bool) {
		if a.op != "bin" || a.s != "==" {
			return "", false
		}
		for _, x := range a.args {
			if s, ok := x.str(); ok {
				return s, true
			}
		}
		return "", false
	}
	var outer *types.Struct
	for _, fn := range p.funcs {
		sig := fn.Signature
		if !p.inRoot(fn) || fn.Parent() != nil || len(fn.Params) != 1 || sig.Results().Len() != 2 || !isErrorT(sig.Results().At(1).Type()) {
			continue
		}
		res := sig.Results().At(0).Type()
		name := p.fnName(fn)
		reached := false
		p.staticReach(make, func(f *ssa.Function) bool { reached = reached || f == fn; return true })
		if !reached {
			continue
		}
		e = newEngine(p, nil)
		switch {
		case isUint16(res) && isStringT(fn.Params[0].Type()):
			e.r = &Rule{
				Branch: func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
					if s, ok := lit(a); ok && val {
						set(st, "s="+s)
					}
				},
				Return: func(e *Engine, st *State, in *ssa.Return, res []*Term) {
					if isnil, known := e.isNil(st, res[1]); known && !isnil {
						return
					}
					k, isC := res[0].intv()
					for _, s := range flags(st, "s=") {
						want, ok := c25Class[strings.ToUpper(s)]
						if ok && isC {
							r.check("parse", name+":"+s, p.iPos(in), k == want, "the class "+s+" is read as another class", st.path())
						}
					}
				},
			}
		case isSliceOf(res, day):
			e.r = &Rule{
				Branch: func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
					if s, ok := lit(a); ok && val {
						for _, o := range flags(st, "s=") {
							unset(st, "s="+o)
						}
						set(st, "s="+s)
					}
				},
				After: func(e *Engine, c *CallEv, outs []Outcome) {
					if bi, ok := c.C.Value.(*ssa.Builtin); !ok || bi.Name() != "append" {
						return
					}
					for _, o := range outs {
						t := o.Res[0]
						if t.op != "append" || len(t.args) != 3 {
							continue
						}
						k, isC := t.args[2].intv()
						for _, s := range flags(o.St, "s=") {
							want, ok := c25Days[s]
							if ok && isC {
								r.check("parse", name+":"+s, p.iPos(c.In), k == want, "the weekday "+s+" is read as another day", o.St.path())
							}
						}
					}
				},
			}
		case isPtr(res) && isStruct(deref(res)) && isStringT(fn.Params[0].Type()):
			outer = deref(res).Underlying().(*types.Struct)
			if outer.NumFields() != 2 || !isIntT(outer.Field(0).Type()) || !isIntT(outer.Field(1).Type()) {
				continue
			}
			e.r = &Rule{
				Return: func(e *Engine, st *State, in *ssa.Return, res []*Term) {
					if isnil, known := e.isNil(st, res[0]); known && isnil {
						return
					}
					for i := 0; i < 2; i++ {
						f := outer.Field(i)
						v := e.load(st, e.fa(res[0], f.Name(), types.NewPointer(f.Type())), f.Type())
						if v.isConst() {
							continue
						}
						h, m := e.T.callsTo(v, "time.Time).Hour"), e.T.callsTo(v, "time.Time).Minute")
						e.T.walk(v, func(x *Term) bool {
							if x.op == "ia" || x.op == "vi" {
								if k, isC := x.args[1].intv(); isC {
									h = h || k == 0
									m = m || k == 1
								}
							}
							return true
						})
						if !h && !m {
							continue
						}
						part := "h"
						if m {
							part = "m"
						}
						o := outer.Field(1 - i).Name()
						ok := !(h && m) && parts[o] != part && (parts[f.Name()] == "" || parts[f.Name()] == part)
						r.check("parse", name+":"+f.Name(), p.iPos(in), ok, "hour and minute of a time of day are mixed up", st.path())
						parts[f.Name()] = part
					}
				},
			}
		default:
			continue
		}
		e.run(fn, "", nil)
		r.engine(e)
	}
	return parts
}

func isUint16(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint16
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isSliceOf(t types.Type, pred func(types.Type) bool) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && pred(s.Elem())
}

// c25Invert finds the field that holds the inversion: the one the route's setter stores.
func c25Invert(p *Prog, r *Report, make *ssa.Function, rt *types.Struct) string {
	for _, fn := range p.funcs {
		sig := fn.Signature
		if sig.Recv() == nil || !types.Identical(sig.Recv().Type(), make.Signature.Results().At(0).Type()) || sig.Params().Len() != 1 || !isBool(sig.Params().At(0).Type()) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					r.check("criteria", p.fnName(fn), p.iPos(in), s.Val == ssa.Value(fn.Params[1]), "the inversion is not set as asked for", nil)
					return fieldName(deref(fa.X.Type()), fa.Field)
				}
			}
		}
	}
	r.viol("criteria", "Invert", p.pos(make.Pos()), "a route can not be inverted", nil)
	return ""
}

// signs is a set of possible results of comparing the current time with the
// criterion: bit 0 earlier, bit 1 same, bit 2 later.
func c25Signs(st *State, crit, part string) int {
	m := 7
	for _, f := range flags(st, "cmp:"+crit+":"+part+":") {
		k := 0
		fmt.Sscanf(f, "%d", &k)
		m &= k
	}
	return m
}

// c25Time: the verdict of a time criterion on this path: 1 holds, -1 fails, 0 not known, 2 impossible
func c25Time(st *State, crit string) int {
	h, m, t := c25Signs(st, crit, "h"), c25Signs(st, crit, "m"), c25Signs(st, crit, "t")
	yes, no := false, false
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			if h&(1<<i) == 0 || m&(1<<j) == 0 {
				continue
			}
			s := i
			if i == 1 {
				s = j
			}
			if t&(1<<s) == 0 {
				continue
			}
			ok := s == 0
			if crit == "after" {
				ok = s >= 1
			}
			if ok {
				yes = true
			} else {
				no = true
			}
		}
	}
	switch {
	case yes && no:
		return 0
	case yes:
		return 1
	case no:
		return -1
	}
	return 2
}

func c25Match(p *Prog, r *Report, fn *ssa.Function, fields, parts map[string]string, inverted string) {
	name := p.fnName(fn)
	me := fn.Params[0].Name() + "@" + name
	e := newEngine(p, nil)
	// crit: the criterion a term is part of
	crit := func(t *Term) string {
		c := ""
		e.T.walk(t, func(x *Term) bool {
			if x.op == "fa" && x.args[0].op == "param" && x.args[0].s == me && fields[x.s] != "" {
				c = fields[x.s]
			}
			return true
		})
		return c
	}
	attr := func(t *Term, role string) bool {
		switch role {
		case "Weekday":
			return e.T.callsTo(t, "time.Time).Weekday") && e.T.callsTo(t, "time.Now")
		case "Address":
			return e.T.contains(t, func(x *Term) bool {
				return (x.op == "fa" || x.op == "vf") && x.s == "Address" && len(x.args) > 0 && x.args[0].typ != nil && isNamed(x.args[0].typ, dnsPath, "EDNS0_SUBNET")
			})
		}
		return e.T.contains(t, func(x *Term) bool {
			if x.op != "fa" && x.op != "vf" || x.s != role || len(x.args) == 0 || x.args[0].typ == nil {
				return false
			}
			return isNamed(x.args[0].typ, dnsPath, "Question") || isNamed(x.args[0].typ, modPath, "ClientInfo")
		})
	}
	// clock: which part of the current time a term is: h, m or t (both)
	clock := func(t *Term) string {
		h, m := e.T.callsTo(t, "time.Time).Hour"), e.T.callsTo(t, "time.Time).Minute")
		switch {
		case h && m:
			return "t"
		case h:
			return "h"
		case m:
			return "m"
		}
		return ""
	}
	limit := func(t *Term) string {
		h, m := false, false
		e.T.walk(t, func(x *Term) bool {
			if x.op == "fa" {
				part := parts[x.s]
				h = h || part == "h" || part == "" && strings.HasPrefix(strings.ToLower(x.s), "hour")
				m = m || part == "m" || part == "" && strings.HasPrefix(strings.ToLower(x.s), "min")
			}
			return true
		})
		switch {
		case h && m:
			return "t"
		case h:
			return "h"
		case m:
			return "m"
		}
		return ""
	}
	wrong := func(st *State, c string, in *ssa.If) {
		pos := p.pos(fn.Pos())
		if in != nil {
			pos = p.pos(condPos(in))
		}
		r.viol("match", name+":"+c+":attribute", pos, "the criterion for "+c+" is compared with something other than this attribute of the query", st.path())
	}
	seen := map[string]bool{}
	e.r = &Rule{
		Inline: func(e *Engine, f *ssa.Function) bool { return true },
		Branch: func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
			state := func(c string, ok bool) {
				if ok {
					set(st, "holds:"+c)
				} else {
					set(st, "fails:"+c)
				}
			}
			switch {
			case a.op == "call" || a.op == "ext" && a.args[0].op == "call":
				call := a
				if a.op == "ext" {
					call = a.args[0]
				}
				n := call.callName()
				if len(call.args) < 2 {
					return
				}
				x, y := call.args[0], call.args[1]
				c := crit(x)
				if c == "" {
					return
				}
				if strings.HasPrefix(n, "(regexp.Regexp).Match") || n == "(net.IPNet).Contains" || strings.HasPrefix(n, "slices.Contains") {
					if !attr(y, c) {
						wrong(st, c, in)
					}
					state(c, val)
				}
			case a.op == "bin" && (a.s == "==" || a.s == "<"):
				x, y := a.args[0], a.args[1]
				cx, cy := crit(x), crit(y)
				swapped := false
				if cx == "" && cy != "" {
					x, y, cx, cy, swapped = y, x, cy, cx, true
				}
				if cx == "" {
					// an address the query does not have
					if a.s == "==" && y.isNil() && attr(x, "Address") && val {
						set(st, "missing:Address")
					}
					if a.s == "==" && y.isNil() && x.op == "call" && strings.HasSuffix(x.callName(), "dns.Msg).IsEdns0") && val {
						set(st, "noopt")
					}
					if a.s == "<" && !val && y.op == "len" && e.T.readsField(y, "Option") {
						set(st, "scanned")
					}
					return
				}
				if cx == "before" || cx == "after" {
					if a.s == "==" && y.isNil() {
						if val {
							set(st, "absent:"+cx)
						}
						return
					}
					pt := limit(x)
					if clock(y) != pt || pt == "" {
						wrong(st, cx, in)
						return
					}
					// sign of (now - criterion); y is now, x the criterion
					k := 0
					switch {
					case a.s == "==" && val:
						k = 2
					case a.s == "==":
						k = 5
					case swapped && val: // now < criterion
						k = 1
					case swapped:
						k = 6
					case val: // criterion < now
						k = 4
					default:
						k = 3
					}
					set(st, fmt.Sprintf("cmp:%s:%s:%d", cx, pt, k))
					return
				}
				k, isC := y.intv()
				_, isS := y.str()
				switch {
				case a.s == "==" && (y.isNil() || isC && k == 0 || isS):
					if val {
						set(st, "absent:"+cx)
					} else {
						set(st, "asks:"+cx)
					}
				case a.s == "==" && attr(y, cx):
					state(cx, val)
					if val {
						unset(st, "fails:"+cx)
					}
				case a.s == "<" && x.op == "len":
					// range over the values of the criterion; an empty one is not configured
					if isC && k == 0 && !val && swapped {
						set(st, "absent:"+cx)
					} else if swapped && !val && !has(st, "holds:"+cx) && has(st, "asks:"+cx) {
						set(st, "fails:"+cx) // none of the values is the one of the query
					}
				default:
					if a.s == "==" {
						wrong(st, cx, in)
					}
				}
			}
		},
		Return: func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			// matched: what the route decided before inversion
			t, neg := res[0], false
			for t.op == "not" {
				t, neg = t.args[0], !neg
			}
			isInv := func(x *Term) bool { return lastField(x) == inverted && partOf(x, me) }
			matched, known := false, false
			if isInv(t) {
				matched, known = neg, true
			} else if t.isConst() {
				for x, v := range st.facts {
					if isInv(x) {
						matched, known = t.isTrue() != v, true
					}
				}
			}
			pos := p.iPos(in)
			if !known {
				r.viol("match", name+":inversion", pos, "the decision of the route does not depend on the inversion as configured", st.path())
				return
			}
			for _, c := range []string{"before", "after"} {
				if has(st, "absent:"+c) {
					continue
				}
				switch c25Time(st, c) {
				case 1:
					set(st, "holds:"+c)
				case -1:
					set(st, "fails:"+c)
				case 2:
					return // contradictory
				}
			}
			var failed []string
			for _, f := range []string{"Qtype", "Qclass", "Name", "SourceIP", "Address", "DoHPath", "Listener", "TLSServerName", "Weekday", "before", "after"} {
				abs, ok, no := has(st, "absent:"+f), has(st, "holds:"+f), has(st, "fails:"+f)
				if f == "Address" && has(st, "missing:Address") {
					no = true
				}
				if ok {
					no = false
				}
				if no {
					failed = append(failed, f)
					seen["fails:"+f] = true
				}
				if matched && !ok && !abs {
					r.viol("match", name+":"+f, pos, "a route can apply to a query although the criterion for "+f+" was not found to hold", st.path())
				}
				if matched && ok {
					seen["holds:"+f] = true
				}
			}
			if !matched && len(failed) == 0 && !(has(st, "asks:Address") && !has(st, "holds:Address") && (has(st, "noopt") || has(st, "scanned") || has(st, "missing:Address"))) {
				r.viol("match", name+":refused", pos, "a route does not apply to a query although none of its criteria was found to fail", st.path())
			}
		},
	}
	e.run(fn, "", nil)
	r.engine(e)
	for _, a := range sortedStr(fields) {
		ok := seen["holds:"+a] && (seen["fails:"+a] || a == "Address")
		r.check("match", name+":"+a+":decides", p.pos(fn.Pos()), ok, "the criterion for "+a+" takes no part in the decision", nil)
	}
	r.check("match", name, p.pos(fn.Pos()), !e.over, "the analysis budget was exceeded", nil)
}

func sortedStr(m map[string]string) (out []string) {
	for _, v := range m {
		out = append(out, v)
	}
	sort.Strings(out)
	return
}

// c25Router: the first route that applies gets the query.
func c25Router(p *Prog, r *Report, fn *ssa.Function, routes *types.Var, rt types.Type) {
	name := p.fnName(fn)
	e := newEngine(p, nil)
	isMatch := func(c *ssa.CallCommon) bool {
		f := c.StaticCallee()
		if f == nil || f.Signature.Recv() == nil || !types.Identical(deref(f.Signature.Recv().Type()), rt) {
			return false
		}
		s := f.Signature
		return s.Results().Len() == 1 && isBool(s.Results().At(0).Type()) && s.Params().Len() > 0 && isMsgPtr(s.Params().At(0).Type())
	}
	asked, sent := 0, 0
	e.r = &Rule{
		Event: func(f *ssa.Function) bool {
			return hasCall(f, func(c *ssa.CallCommon) bool { return isMatch(c) || isResolveCall(c) })
		},
		Inline: func(e *Engine, f *ssa.Function) bool { return e.hasEvent(f) },
		Call: func(e *Engine, st *State, c *CallEv) []Outcome {
			if isMatch(c.C) {
				asked++
				if len(flags(st, "match=")) > 0 {
					r.viol("router", name+":skipped", p.iPos(c.In), "a route that applies is passed over for a later one", st.path())
				}
				// asked in the order they were added
				rv := c.C.Args[0]
				ok := c25InOrder(p, rv, routes)
				r.check("router", name+":order", p.iPos(c.In), ok, "the routes are not tried one by one in the order they were added", st.path())
				res := e.opaque(st, c, nil)
				yes, no := st.clone(), st
				e.assume(yes, res[0], true)
				e.assume(yes, e.T.bin(token.EQL, c.Args[0], e.T.nilT(), types.Typ[types.Bool]), false)
				e.assume(no, res[0], false)
				set(yes, fmt.Sprintf("match=%d", c.Args[0].id))
				return []Outcome{{yes, res}, {no, res}}
			}
			if isResolveCall(c.C) {
				sent++
				ok := false
				for _, m := range flags(st, "match=") {
					id := int32(0)
					fmt.Sscanf(m, "%d", &id)
					ok = ok || e.T.contains(c.Args[0], func(x *Term) bool { return x.id == id })
				}
				r.check("router", name+":taken", p.iPos(c.In), ok, "the query is sent to the resolver of a route that was not found to apply", st.path())
				set(st, "sent")
			}
			return nil
		},
		Return: func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			if has(st, "sent") {
				return
			}
			if len(flags(st, "match=")) > 0 {
				r.viol("router", name+":unused", p.iPos(in), "the resolver of the route that applies is not asked", st.path())
			}
			isnil, known := e.isNil(st, res[1])
			r.check("router", name+":none", p.iPos(in), known && !isnil, "a query no route applies to does not fail", st.path())
		},
	}
	e.run(fn, "", nil)
	r.engine(e)
	r.check("router", name, p.pos(fn.Pos()), asked > 0 && sent > 0 && !e.over, "the routes are not asked whether they apply", nil)
	// routes are only ever appended
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !isStruct(deref(fa.X.Type())) || deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field) != routes {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				r.check("router", p.fnName(f)+":append", p.iPos(in), c25Append(s.Val, routes), "a new route is not put after the existing ones", nil)
			}
		}
	}
}

// c25InOrder: the route is the element of the list of routes at an index that runs 0, 1, 2, ...
func c25InOrder(p *Prog, v ssa.Value, routes *types.Var) bool {
	if prm, ok := v.(*ssa.Parameter); ok {
		// a helper that is given the route
		for i, q := range prm.Parent().Params {
			if q != prm {
				continue
			}
			n := 0
			for _, ci := range p.callersOf(prm.Parent()) {
				n++
				if i >= len(ci.Common().Args) || !c25InOrder(p, ci.Common().Args[i], routes) {
					return false
				}
			}
			return n > 0
		}
		return false
	}
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	ia, ok := ld.X.(*ssa.IndexAddr)
	return ok && c25Forward(ia.Index) && c25IsList(p, ia.X, routes)
}

func c25IsList(p *Prog, v ssa.Value, routes *types.Var) bool {
	switch v := v.(type) {
	case *ssa.UnOp:
		fa, ok := v.X.(*ssa.FieldAddr)
		return ok && v.Op == token.MUL && isStruct(deref(fa.X.Type())) && deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field) == routes
	case *ssa.Call:
		return strings.HasPrefix(calleeName(v.Common()), "slices.Clone") && c25IsList(p, v.Common().Args[0], routes)
	case *ssa.Parameter:
		for i, q := range v.Parent().Params {
			if q != v {
				continue
			}
			n := 0
			for _, ci := range p.callersOf(v.Parent()) {
				n++
				if i >= len(ci.Common().Args) || !c25IsList(p, ci.Common().Args[i], routes) {
					return false
				}
			}
			return n > 0
		}
	}
	return false
}

// c25Append: the value is the list with something appended to it.
func c25Append(v ssa.Value, routes *types.Var) bool {
	switch v := v.(type) {
	case *ssa.Call:
		if bi, ok := v.Common().Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			return c25Append(v.Common().Args[0], routes)
		}
	case *ssa.UnOp:
		fa, ok := v.X.(*ssa.FieldAddr)
		return ok && deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field) == routes
	case *ssa.Phi:
		for _, x := range v.Edges {
			if x != ssa.Value(v) && !c25AppendPhi(x, v, routes) {
				return false
			}
		}
		return true
	}
	return false
}

func c25AppendPhi(v ssa.Value, ph *ssa.Phi, routes *types.Var) bool {
	if c, ok := v.(*ssa.Call); ok {
		if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "append" && c.Common().Args[0] == ssa.Value(ph) {
			return true
		}
	}
	return c25Append(v, routes)
}
