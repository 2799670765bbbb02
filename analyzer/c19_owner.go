package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Requests others wait for: structs with a channel that is closed when the request is done. Whoever
// takes one out of a queue or out of the table of open requests must complete it, queue it again or
// put it into the table, along every path, and must not complete what somebody else may complete.

func (a *c19) requests(cs []*chanClass) {
	owned := map[string]types.Type{}
	for _, c := range cs {
		if !a.doneChan(c) {
			continue
		}
		for _, ref := range *c.mk.Referrers() {
			if s, ok := ref.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					t := deref(fa.X.Type())
					owned[typeName(t)] = t
				}
			}
		}
	}
	var names []string
	for n := range owned {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		a.owner(n, owned[n])
	}
}

func (a *c19) owner(name string, t types.Type) {
	p, r := a.p, a.r
	isO := func(x types.Type) bool {
		pt, ok := x.Underlying().(*types.Pointer)
		return ok && types.Identical(pt.Elem(), t)
	}
	isTable := func(x types.Type) bool {
		m, ok := x.Underlying().(*types.Map)
		return ok && isO(m.Elem())
	}
	isQueue := func(x types.Type) bool {
		c, ok := x.Underlying().(*types.Chan)
		return ok && isO(c.Elem())
	}
	touches := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.Op == token.ARROW && isQueue(x.X.Type()) {
						return true
					}
				case *ssa.Send:
					if isQueue(x.Chan.Type()) {
						return true
					}
				case *ssa.Select:
					for _, s := range x.States {
						if isQueue(s.Chan.Type()) {
							return true
						}
					}
				case *ssa.MapUpdate:
					if isTable(x.Map.Type()) {
						return true
					}
				case *ssa.Lookup:
					if isTable(x.X.Type()) {
						return true
					}
				case *ssa.Range:
					if isTable(x.X.Type()) {
						return true
					}
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" && isTable(x.Common().Args[0].Type()) || bi.Name() == "close" && a.doneOf(x.Common().Args[0], t)) {
						return true
					}
				}
			}
		}
		return false
	}
	// entries: functions that reach such code and are not called by others that do
	reach := map[*ssa.Function]bool{}
	for _, fn := range p.funcs {
		if !p.inRoot(fn) || len(fn.Blocks) == 0 {
			continue
		}
		hit := false
		p.staticReach(fn, func(f *ssa.Function) bool {
			if touches(f) {
				hit = true
			}
			return true
		})
		if hit {
			reach[fn] = true
		}
	}
	var entries []*ssa.Function
	for _, fn := range p.funcs {
		if !touches(fn) {
			continue
		}
		// the outermost function that obtains such an object, or whose callers do not hold one
		entries = append(entries, a.holders(fn, t, touches)...)
	}
	done := map[*ssa.Function]bool{}
	for _, fn := range entries {
		if done[fn] {
			continue
		}
		done[fn] = true
		a.ownerPaths(name, fn, t, isO, isTable, isQueue, touches)
	}
	_ = r
}

// holders: the functions in which ownership of what fn handles begins and ends. A function that takes
// the object as a parameter, or returns it, is followed in its callers.
func (a *c19) holders(fn *ssa.Function, t types.Type, touches func(*ssa.Function) bool) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		up := false
		for _, pa := range f.Params {
			if ptrTo(pa.Type(), t) {
				up = true
			}
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if ptrTo(f.Signature.Results().At(i).Type(), t) {
				up = true
			}
		}
		if up {
			if cs := a.p.callersOf(f); len(cs) > 0 {
				for _, c := range cs {
					rec(c.Parent())
				}
				return
			}
		}
		if up && len(f.Params) > 0 {
			// a goroutine body handed the object: checked where it is started
			return
		}
		out = append(out, f)
	}
	rec(fn)
	return out
}

func ptrTo(x, t types.Type) bool {
	pt, ok := x.Underlying().(*types.Pointer)
	return ok && types.Identical(pt.Elem(), t)
}

// doneOf: the value is the done channel of a t.
func (a *c19) doneOf(v ssa.Value, t types.Type) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && types.Identical(deref(fa.X.Type()), t)
}

// ownerPaths follows ownership along every path of fn.
//
//	own    taken out of a queue or the table: this path must pass it on
//	peek   seen in the table, still in there
//	fin    completed while still in the table: must be taken out
//	pub    made here and put into the table: must be completed and taken out
func (a *c19) ownerPaths(name string, fn *ssa.Function, t types.Type, isO, isTable, isQueue func(types.Type) bool, touches func(*ssa.Function) bool) {
	p, r := a.p, a.r
	key := name + "@" + p.fnName(fn)
	bad := func(what string, in ssa.Instruction, msg string, st *State) {
		pos := p.pos(fn.Pos())
		if in != nil {
			pos = p.iPos(in)
		}
		r.viol("owner", key+":"+what, pos, msg, st.path())
	}
	e := newEngine(p, nil)
	own := func(st *State) {
		unset(st, "peek")
		set(st, "own")
	}
	atEnd := func(st *State, in ssa.Instruction, where string) {
		if has(st, "own") {
			bad("dropped", in, "a "+name+" taken over here is neither completed, queued again nor kept "+where+": whoever waits for it is not released", st)
		}
		if has(st, "fin") {
			bad("stays", in, "a "+name+" that was completed stays in the table: it is completed a second time", st)
		}
	}
	e.r = &Rule{
		Event: touches,
		Inline: func(e *Engine, f *ssa.Function) bool {
			return e.hasEvent(f) || e.getInfo(f).size < 30 && len(e.stack) < 4
		},
		Instr: func(e *Engine, st *State, in ssa.Instruction) {
			// the chosen case of a select
			if in == in.Block().Instrs[0] {
				for _, pb := range in.Parent().Blocks {
					sel, ok := lastSelect(pb)
					if !ok {
						continue
					}
					for k, s := range sel.States {
						if isQueue(s.Chan.Type()) && selectCase(sel, k) == in.Block() {
							if s.Dir == types.RecvOnly {
								atEnd(st, sel, "before the next one is taken")
								own(st)
								st.note("%s: takes a %s from the queue", p.iPos(sel), name)
							} else {
								unset(st, "own")
							}
						}
					}
				}
			}
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op == token.ARROW && isQueue(x.X.Type()) {
					if x.CommaOk {
						set(st, "maybe")
					} else {
						own(st)
					}
					st.note("%s: takes a %s from the queue", p.iPos(x), name)
				}
			case *ssa.Send:
				if isQueue(x.Chan.Type()) {
					unset(st, "own")
				}
			case *ssa.Go:
				// handed to a goroutine, which must pass it on
				vals := x.Call.Args
				if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
					vals = append(append([]ssa.Value{}, vals...), mc.Bindings...)
				}
				for _, v := range vals {
					if (isO(v.Type()) || isO(deref(v.Type()))) && goTarget(x) != nil && a.handsOn(goTarget(x), isQueue, t) {
						unset(st, "own")
					}
				}
			case *ssa.MapUpdate:
				if isTable(x.Map.Type()) {
					v := e.ev(st, x.Value)
					if has(st, "own") {
						unset(st, "own")
					} else if rootOf(v).op == "alloc" {
						set(st, "pub")
					}
				}
			}
		},
		Branch: func(e *Engine, st *State, in *ssa.If, atom *Term, val bool) {
			if in == nil {
				return
			}
			// received something, found something, one more in the table
			ex, ok := in.Cond.(*ssa.Extract)
			if !ok {
				if u, okn := in.Cond.(*ssa.UnOp); okn && u.Op == token.NOT {
					ex, ok = u.X.(*ssa.Extract)
				}
			}
			if ok {
				switch tu := ex.Tuple.(type) {
				case *ssa.UnOp:
					if tu.Op == token.ARROW && isQueue(tu.X.Type()) {
						unset(st, "maybe")
						if val {
							own(st)
						}
					}
				case *ssa.Next:
					if rg, ok := tu.Iter.(*ssa.Range); ok && isTable(rg.X.Type()) && val {
						set(st, "peek")
					}
				case *ssa.Lookup:
					if isTable(tu.X.Type()) && val && usesValue(tu) {
						set(st, "peek")
						// nothing in the table is nil
						for _, ref := range *tu.Referrers() {
							if v, ok := ref.(*ssa.Extract); ok && v.Index == 0 {
								e.assume(st, e.T.bin(token.EQL, e.ev(st, v), e.T.nilT(), types.Typ[types.Bool]), false)
							}
						}
					}
				}
				return
			}
			if bo, ok := in.Cond.(*ssa.BinOp); ok {
				for _, v := range []ssa.Value{bo.X, bo.Y} {
					if lk, ok := v.(*ssa.Lookup); ok && isTable(lk.X.Type()) && val == (bo.Op == token.EQL) {
						if c, ok := bo.Y.(*ssa.Const); ok && c.IsNil() {
							continue
						}
						set(st, "match")
					}
				}
			}
		},
		Call: func(e *Engine, st *State, c *CallEv) []Outcome {
			if c.Kind == "go" {
				return []Outcome{{st, nil}}
			}
			bi, ok := c.C.Value.(*ssa.Builtin)
			if !ok {
				return nil
			}
			switch {
			case bi.Name() == "close" && a.doneOf(c.C.Args[0], t):
				st.note("%s: completes the %s", p.iPos(c.In), name)
				switch {
				case has(st, "pub"):
					if has(st, "done") {
						bad("twice", c.In, "the "+name+" is completed twice", st)
					}
					set(st, "done")
				case has(st, "own"):
					unset(st, "own")
				case has(st, "peek"):
					unset(st, "peek")
					set(st, "fin")
				default:
					bad("notowned", c.In, "a "+name+" is completed here although it was not taken over by this path: somebody else may complete it too (closing its channel twice panics) ", st)
				}
			case bi.Name() == "delete" && isTable(c.C.Args[0].Type()):
				switch {
				case has(st, "fin"):
					unset(st, "fin")
				case has(st, "pub"):
					set(st, "removed")
				case has(st, "peek"):
					own(st)
				case has(st, "match"):
					// the one who made the request gives it up
				default:
					bad("blind", c.In, "a "+name+" is removed from the table without having been found there", st)
				}
			}
			return nil
		},
		BackEdge: func(e *Engine, st *State, from, head *ssa.BasicBlock) {
			if loopHolds(head, from, isQueue, isTable) {
				atEnd(st, nil, "when the loop goes on")
				unset(st, "peek")
			}
		},
		Return: func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			atEnd(st, in, "on this return")
			if has(st, "pub") {
				if !has(st, "done") {
					bad("never", in, "the "+name+" put into the table here is not completed on this path: everybody merged with it waits forever", st)
				}
				if !has(st, "removed") {
					bad("left", in, "the "+name+" put into the table here is not taken out on this path: later queries get an old result", st)
				}
			}
		},
	}
	e.run(fn, "", nil)
	r.engine(e)
	r.check("owner", key+":followed", p.pos(fn.Pos()), !e.over, "analysis budget exceeded", nil)
}

// usesValue: the lookup is for the object, not only whether there is one.
func usesValue(l *ssa.Lookup) bool {
	for _, ref := range *l.Referrers() {
		if v, ok := ref.(*ssa.Extract); ok && v.Index == 0 && len(*v.Referrers()) > 0 {
			return true
		}
	}
	return false
}

func lastSelect(b *ssa.BasicBlock) (*ssa.Select, bool) {
	for _, i := range b.Instrs {
		if s, ok := i.(*ssa.Select); ok {
			return s, true
		}
	}
	return nil, false
}

// loopHolds: the loop takes such objects from somewhere.
func loopHolds(head, from *ssa.BasicBlock, isQueue, isTable func(types.Type) bool) bool {
	body := natLoop(head)
	for b := range body {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.UnOp:
				if x.Op == token.ARROW && isQueue(x.X.Type()) {
					return true
				}
			case *ssa.Select:
				for _, s := range x.States {
					if isQueue(s.Chan.Type()) {
						return true
					}
				}
			case *ssa.Next:
				if rg, ok := x.Iter.(*ssa.Range); ok && isTable(rg.X.Type()) {
					return true
				}
			case *ssa.Call:
				if f := x.Call.StaticCallee(); f != nil && f.Signature.Results().Len() > 0 {
					for k := 0; k < f.Signature.Results().Len(); k++ {
						rt := f.Signature.Results().At(k).Type()
						if isTable(types.NewMap(types.Typ[types.Int], rt)) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// handsOn: every path of the goroutine queues or completes the object.
func (a *c19) handsOn(fn *ssa.Function, isQueue func(types.Type) bool, t types.Type) bool {
	pred := func(i ssa.Instruction) bool {
		switch x := i.(type) {
		case *ssa.Send:
			return isQueue(x.Chan.Type())
		case ssa.CallInstruction:
			if f := goTarget(x); f != nil && a.p.inRepo(f) && len(f.Blocks) > 0 && f != fn {
				return a.handsOn(f, isQueue, t)
			}
			if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
				return a.doneOf(x.Common().Args[0], t)
			}
		}
		return false
	}
	k := fmt.Sprintf("hands/%p/%s", fn, typeName(t))
	if _, ok := a.relMemo[k]; ok {
		return false
	}
	a.relMemo[k] = 1
	defer delete(a.relMemo, k)
	first := fn.Blocks[0].Instrs[0]
	return pred(first) || mustReach(first, pred)
}
