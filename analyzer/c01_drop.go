package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C01: a value that may be a dropped (missing) answer is never dereferenced.

func init() {
	register("C01", `Path-sensitive nilness dataflow. Sources: the answer of every resolver call (interface or concrete), every message field or channel element that such an answer is stored into. Sinks: every field access, load, library call or resolver call that uses a message pointer. A sink reached in a state where the pointer may be a missing answer is a violation. Helpers are followed in the caller's state.`,
		runC01, "query messages handed to an element by its caller are never missing (checked at the call sites: a may-be-missing message as a query argument is a violation)",
		"fields of message type are tracked by struct type and field name, not per object")
}

type msgField struct{ owner, name string }

func hasMsg(t types.Type) bool {
	return isMsgPtr(t)
}

func fnTouchesMsg(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if hasMsg(p.Type()) {
			return true
		}
	}
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if hasMsg(rs.At(i).Type()) {
			return true
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && hasMsg(v.Type()) {
				return true
			}
			if c, ok := in.(ssa.CallInstruction); ok && isResolveCall(c.Common()) {
				return true
			}
		}
	}
	return false
}

func ownerName(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// dropsNever: external functions that return a usable message whenever they return no error, or always.
func runC01(p *Prog, r *Report) {
	tainted := map[msgField]bool{} // fields that may hold a missing answer
	touch := map[*ssa.Function]bool{}
	for _, fn := range p.funcs {
		if fnTouchesMsg(fn) {
			touch[fn] = true
		}
	}
	isDropSource := func(e *Engine, t *Term) bool {
		return e.T.contains(t, func(x *Term) bool {
			switch x.op {
			case "nil":
				return true
			case "ext":
				return x.s == "0" && x.args[0].op == "call" && len(x.args[0].args) > 0 && x.args[0].typ == nil && x.args[0].in != nil && isResolveInstr(x.args[0].in)
			case "ld":
				if x.args[0].op == "fa" && x.args[0].args[0].typ != nil && isMsgPtr2(x.typ) {
					return tainted[msgField{ownerName(x.args[0].args[0].typ), x.args[0].s}]
				}
			case "vf":
				if x.args[0].typ != nil && isMsgPtr2(x.typ) {
					return tainted[msgField{ownerName(x.args[0].typ), x.s}]
				}
			}
			return false
		})
	}
	// mayDrop: t is a message pointer that on this path may be missing.
	mayDrop := func(e *Engine, st *State, t *Term) bool {
		if t.isNil() {
			return true
		}
		if n, ok := e.isNil(st, t); ok && !n {
			return false
		}
		// only the top-level identity of t matters: t is the answer, not something computed from it
		switch t.op {
		case "ext", "phi", "merge", "ld", "vf", "lookup", "recv":
		default:
			return false
		}
		if t.op == "ext" && !(t.args[0].op == "call" && t.args[0].in != nil && isResolveInstr(t.args[0].in)) {
			return false
		}
		if t.op == "ld" || t.op == "vf" {
			return isDropSource2(e, t, tainted)
		}
		return isDropSource(e, t)
	}
	for round := 0; round < 4; round++ {
		before := len(tainted)
		last := round == 3
		_ = last
		tmp := &Report{prop: r.prop, p: p, rules: map[string]*ruleStat{}, funcs: map[string]bool{}}
		for _, fn := range p.funcs {
			if !touch[fn] {
				continue
			}
			use := func(e *Engine, st *State, in ssa.Instruction, t *Term, what string) {
				if t == nil {
					return
				}
				k := p.fnName(in.Parent()) + ": " + what + " of " + short(t)
				if mayDrop(e, st, t) {
					tmp.viol("drop-deref", p.fnName(in.Parent())+"/"+what, p.iPos(in), fmt.Sprintf("%s of a message that is missing when the upstream dropped the query (%s)", what, short(t)), st.path())
				} else if isResolveAnswer(e, t) {
					tmp.ok("drop-deref", k+" at "+p.fnName(fn))
				}
			}
			rule := &Rule{FollowGo: true}
			rule.Keep = keepNil
			rule.Skip = func(e *Engine, st *State, c *CallEv) bool {
				if c.Fn.Parent() != nil || c.Fn.Synthetic != "" {
					return false
				}
				rs := c.Fn.Signature.Results()
				for i := 0; i < rs.Len(); i++ {
					if isMsgPtr(rs.At(i).Type()) {
						return false
					}
				}
				msgs := 0
				for i, a := range c.Args {
					if i < len(c.Fn.Params) && isMsgPtr(c.Fn.Params[i].Type()) {
						msgs++
						if mayDrop(e, st, a) {
							return false
						}
					}
				}
				// analysed as an entry of its own, under the assumption that just was established
				return msgs > 0 && rs.Len() == 1 && isErrorT(rs.At(0).Type()) || e.getInfo(c.Fn).size > 150
			}
			rule.Event = func(f *ssa.Function) bool { return false }
			rule.Inline = func(e *Engine, f *ssa.Function) bool {
				if f.Name() == "Resolve" && isResolveSig(f.Signature) {
					return false
				}
				if f.Parent() != nil || f.Synthetic != "" {
					return e.getInfo(f).size < 1500
				}
				return (touch[f] && e.getInfo(f).size < 900) || e.getInfo(f).size <= 40
			}
			rule.Instr = func(e *Engine, st *State, in ssa.Instruction) {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if isMsgPtr(x.X.Type()) {
						use(e, st, in, e.ev(st, x.X), "use of ."+fieldName(x.X.Type(), x.Field))
					}
				case *ssa.UnOp:
					if x.Op == token.MUL && isMsgPtr(x.X.Type()) {
						use(e, st, in, e.ev(st, x.X), "load")
					}
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && isMsgPtr(x.Val.Type()) {
						v := e.ev(st, x.Val)
						if !v.isNil() && mayDrop(e, st, v) {
							tainted[msgField{ownerName(fa.X.Type()), fieldName(fa.X.Type(), fa.Field)}] = true
						}
					}
				}
			}
			rule.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
				if isResolveCall(c.C) {
					use(e, st, c.In, c.Args[queryArg(c.C, c.Args)], "query argument")
					if c.Kind == "go" {
						return []Outcome{}
					}
					tmp.ok("resolver-call", fmt.Sprintf("%s calls %s", p.fnName(c.In.Parent()), c.Name))
					t := e.fresh(st, "call", "resolve", c.In, c.Ctx, nil, c.Args...)
					return []Outcome{{st, []*Term{e.T.mk("ext", "0", c.C.Signature().Results().At(0).Type(), false, t), e.T.mk("ext", "1", c.C.Signature().Results().At(1).Type(), false, t)}}}
				}
				inl := c.Fn != nil && e.wantInline(c.Fn)
				if !inl && !(c.Fn != nil && isLogging(c.Fn)) && !purePkgs[pkgOf(c.Name)] {
					n := c.Name
					for i, a := range c.Args {
						var at types.Type
						if c.C.IsInvoke() {
							if i == 0 {
								continue
							}
							at = c.C.Args[i-1].Type()
						} else if i < len(c.C.Args) {
							at = c.C.Args[i].Type()
						}
						if at == nil || !isMsgPtr(at) {
							continue
						}
						if c.Fn != nil && p.inRepo(c.Fn) && !derefsParam(p, c.Fn, i) {
							continue
						}
						use(e, st, c.In, a, "passing to "+shortName(n))
					}
				}
				return nil
			}
			e := newEngine(p, rule)
			e.run(fn, "", func(st *State, params []*Term) {
				for i, pt := range fn.Params {
					if isMsgPtr(pt.Type()) {
						e.assume(st, e.T.bin(token.EQL, params[i], e.T.nilT(), types.Typ[types.Bool]), false)
					}
				}
			})
			tmp.engine(e)
		}
		if len(tainted) == before || round == 3 {
			r.merge(tmp)
			break
		}
	}
	for f := range tainted {
		r.note("field %s.%s may hold a missing answer; every read of it is a source", f.owner, f.name)
	}
	r.atLeast("resolver-call", 30)
	r.atLeast("drop-deref", 30)
}

func isMsgPtr2(t types.Type) bool { return t != nil && isMsgPtr(t) }

func isDropSource2(e *Engine, x *Term, tainted map[msgField]bool) bool {
	switch x.op {
	case "ld":
		if x.args[0].op == "fa" && x.args[0].args[0].typ != nil {
			return tainted[msgField{ownerName(x.args[0].args[0].typ), x.args[0].s}]
		}
	case "vf":
		if x.args[0].typ != nil {
			return tainted[msgField{ownerName(x.args[0].typ), x.s}]
		}
	}
	return false
}

func isResolveInstr(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	return ok && isResolveCall(c.Common())
}

func isResolveAnswer(e *Engine, t *Term) bool {
	return e.T.contains(t, func(x *Term) bool {
		return x.op == "ext" && x.s == "0" && x.args[0].op == "call" && x.args[0].in != nil && isResolveInstr(x.args[0].in)
	})
}

// derefsParam: a repository function that is not followed uses its i-th parameter without a nil check in view.
func derefsParam(p *Prog, fn *ssa.Function, i int) bool {
	if i >= len(fn.Params) {
		return true
	}
	pv := fn.Params[i]
	for _, ref := range *pv.Referrers() {
		if b, ok := ref.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			return false
		}
	}
	return true
}

func shortName(n string) string {
	s := n
	s = replaceAll(s, modPath, "rdns")
	s = replaceAll(s, dnsPath, "dns")
	return s
}

// keepNil keeps nil comparisons and flags; sizes, names and numbers do not decide whether an answer is missing.
func keepNil(e *Engine, a *Term) bool {
	if a.op == "is" {
		return false
	}
	if a.op == "bin" {
		return a.s == "==" && a.args[1].isNil()
	}
	return true
}
