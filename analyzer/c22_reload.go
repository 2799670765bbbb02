package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C22: reloading lists.

func init() {
	register("C22", "list reloads never lose protection",
		runC22,
		"A list is reloaded by a task started with a go statement; the Load method of a loader reads the list's source",
		"sync locks exclude as documented")
}

// listCall: a call of a method of a list (or loader) through its interface.
func listCall(c *ssa.CallCommon, method string) bool {
	return c.IsInvoke() && c.Method.Name() == method && isListT(c.Value.Type())
}

func runC22(p *Prog, r *Report) {
	isReload := func(c *ssa.CallCommon) bool { return listCall(c, "Reload") }
	reloads := map[*ssa.Function]bool{}
	var impls []types.Type
	for _, n := range []string{"BlocklistDB", "IPBlocklistDB"} {
		it := p.iface(p.root, n)
		if it == nil {
			continue
		}
		for _, t := range p.implementers(it) {
			if fn := p.method(t, "Reload"); fn != nil {
				fn = p.unwrap(fn)
				if p.inRepo(fn) && !reloads[fn] {
					reloads[fn] = true
					impls = append(impls, t)
				}
			}
		}
	}
	// tasks
	seen := map[*ssa.Function]bool{}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				f := goTarget(g)
				if f == nil || !p.inRepo(f) || seen[f] || !p.reachesCall(f, isReload) {
					continue
				}
				seen[f] = true
				c22Task(p, r, f)
			}
		}
	}
	c22Users(p, r)
	done := map[*ssa.Function]bool{}
	for _, t := range impls {
		fn := p.unwrap(p.method(t, "Reload"))
		if !done[fn] {
			done[fn] = true
			c22Reload(p, r, fn)
		}
	}
	if it := p.iface(p.root, "BlocklistLoader"); it != nil {
		for _, t := range p.implementers(it) {
			if fn := p.method(t, "Load"); fn != nil {
				if fn = p.unwrap(fn); p.inRepo(fn) && !done[fn] {
					done[fn] = true
					c22Load(p, r, fn)
				}
			}
		}
	}
	r.atLeast("task", 5)
	r.atLeast("in-use", 2)
	r.atLeast("rebuild", 8)
	r.atLeast("load", 3)
}

// c22Task: the task that replaces a list from time to time.
func c22Task(p *Prog, r *Report, fn *ssa.Function) {
	name := p.fnName(fn)
	bad := func(st *State, what string, in ssa.Instruction, msg string) {
		r.viol("task", name+":"+what, p.iPos(in), msg, st.path())
	}
	l := p.lockSets()
	reset := func(st *State) {
		for _, f := range flags(st, "x:") {
			unset(st, "x:"+f)
		}
	}
	n := 0
	isReload := func(c *ssa.CallCommon) bool { return listCall(c, "Reload") }
	rule := &Rule{
		Event: func(f *ssa.Function) bool {
			return hasCall(f, func(c *ssa.CallCommon) bool { return isReload(c) || listCall(c, "Close") }) || len(listStores(f)) > 0
		},
		Inline: func(e *Engine, f *ssa.Function) bool { return e.hasEvent(f) },
		After: func(e *Engine, c *CallEv, outs []Outcome) {
			if !isReload(c.C) {
				return
			}
			n++
			held := l.at[c.In]
			for k := range held {
				if !strings.HasSuffix(k, "/r") {
					r.viol("task", name+":held", p.iPos(c.In), "the list is reloaded while "+k+" is held: queries wait instead of being judged by the previous list", nil)
				}
			}
			for _, o := range outs {
				f := lastField(c.Args[0])
				for _, k := range flags(o.St, fmt.Sprintf("f=%d=", c.Args[0].id)) {
					f = k
				}
				if len(o.Res) == 2 {
					set(o.St, fmt.Sprintf("x:rl=%d=%d=%s", o.Res[0].id, o.Res[1].id, f))
				}
			}
		},
		Branch: func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
			if a.op != "bin" || a.s != "==" || !a.args[1].isNil() {
				return
			}
			for _, f := range flags(st, "x:rl=") {
				k := strings.SplitN(f, "=", 3)
				if k[1] == fmt.Sprint(a.args[0].id) {
					if val {
						set(st, "x:ok="+k[0]+"="+k[2])
					} else {
						set(st, "x:failed")
					}
				}
			}
		},
		Instr: func(e *Engine, st *State, in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.UnOp:
				fa, ok := in.X.(*ssa.FieldAddr)
				if in.Op == token.MUL && ok && isListT(in.Type()) {
					f := fieldName(deref(fa.X.Type()), fa.Field)
					id := e.load(st, e.ev(st, in.X), in.Type()).id
					set(st, fmt.Sprintf("f=%d=%s", id, f))
					if !has(st, "x:stored="+f) {
						set(st, fmt.Sprintf("x:old=%d", id))
					}
				}
			case *ssa.Store:
				fa, ok := in.Addr.(*ssa.FieldAddr)
				if !ok || !isListT(in.Val.Type()) {
					return
				}
				f := fieldName(deref(fa.X.Type()), fa.Field)
				v := e.ev(st, in.Val)
				if has(st, fmt.Sprintf("x:ok=%d=%s", v.id, f)) {
					set(st, "x:stored="+f)
					return
				}
				for _, g := range flags(st, "x:ok=") {
					if k := strings.SplitN(g, "=", 2); k[0] == fmt.Sprint(v.id) {
						bad(st, "crossed", in, "the reloaded "+k[1]+" replaces "+f)
						return
					}
				}
				bad(st, "unproven", in, "the list in force is replaced by something that is not the outcome of a successful reload of it")
			}
		},
		Call: func(e *Engine, st *State, c *CallEv) []Outcome {
			if listCall(c.C, "Close") {
				t := c.Args[0]
				old := has(st, fmt.Sprintf("x:old=%d", t.id))
				stored := len(flags(st, "x:stored=")) > 0
				fresh := false
				for _, f := range flags(st, "x:rl=") {
					fresh = fresh || strings.HasPrefix(f, fmt.Sprintf("%d=", t.id))
				}
				switch {
				case old && !stored:
					bad(st, "early", c.In, "the list is released while it is still in force")
				case old, fresh && !stored:
				default:
					bad(st, "wrong", c.In, "the list that was just put in force is released instead of the one it replaced")
				}
			}
			return nil
		},
		BackEdge: func(e *Engine, st *State, from, head *ssa.BasicBlock) {
			for _, f := range flags(st, "x:ok=") {
				k := strings.SplitN(f, "=", 2)
				if !has(st, "x:stored="+k[1]) {
					bad(st, "unused", from.Instrs[len(from.Instrs)-1], "a successfully reloaded "+k[1]+" is not put in force")
				}
			}
			if head.Parent() == fn {
				reset(st)
				for a, v := range st.mem {
					if isListT(v.typ) {
						delete(st.mem, a)
					}
				}
			}
		},
		Return: func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			if has(st, "x:failed") {
				bad(st, "gives-up", in, "after a failed reload the list is never reloaded again")
			}
			for _, f := range flags(st, "x:ok=") {
				k := strings.SplitN(f, "=", 2)
				if !has(st, "x:stored="+k[1]) {
					bad(st, "unused", in, "a successfully reloaded "+k[1]+" is not put in force")
				}
			}
		},
	}
	e := newEngine(p, rule)
	e.run(fn, "", nil)
	r.engine(e)
	r.check("task", name, p.pos(fn.Pos()), n > 0 && !e.over, "the list is not reloaded, or the analysis budget was exceeded", nil)
}

// listStores: the fields of list type fn itself assigns.
func listStores(fn *ssa.Function) []*ssa.Store {
	var out []*ssa.Store
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && isListT(s.Val.Type()) {
				if _, ok := s.Addr.(*ssa.FieldAddr); ok {
					out = append(out, s)
				}
			}
		}
	}
	return out
}

// c22Users: lists that are released after replacement are only used under the lock under which they
// are replaced.
func c22Users(p *Prog, r *Report) {
	l := p.lockSets()
	guard := map[string]lockset{}
	for _, fn := range p.funcs {
		for _, s := range listStores(fn) {
			if _, ok := p.typ(p.root, "IPBlocklistDB").(*types.Named); !ok || !isNamedT(s.Val.Type(), modPath, "IPBlocklistDB") {
				continue
			}
			n := lockName(s.Addr)
			if h := l.at[s]; len(h) > 0 {
				guard[n] = h
			}
		}
	}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !listCall(c.Common(), "Match") {
					continue
				}
				var names []string
				p.slice(c.Common().Value, func(v ssa.Value) bool {
					if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
						if fa, ok := u.X.(*ssa.FieldAddr); ok && isListT(u.Type()) {
							names = append(names, lockName(fa))
							return false
						}
					}
					return true
				})
				for _, n := range names {
					g := guard[n]
					if g == nil {
						continue
					}
					ok := false
					for k := range g {
						ok = ok || l.at[in].has(strings.TrimSuffix(k, "/r"))
					}
					r.check("in-use", p.fnName(fn)+":"+n, p.iPos(in), ok, "the list is used without holding the lock under which it is replaced, so it may be released during the lookup", nil)
				}
			}
		}
	}
}

// c22Reload: building the new list from the old one.
func c22Reload(p *Prog, r *Report, fn *ssa.Function) {
	name := p.fnName(fn)
	key := func(what string) string { return name + ":" + what }
	bad := func(st *State, what string, pos string, msg string) {
		r.viol("rebuild", key(what), pos, msg, st.path())
	}
	recvT := fn.Params[0].Type()
	recv := "" + fn.Params[0].Name() + "@" + name
	e := newEngine(p, nil)
	ofRecv := func(t *Term) bool {
		return e.T.contains(t, func(x *Term) bool { return x.op == "param" && x.s == recv })
	}
	st0, _ := deref(recvT).Underlying().(*types.Struct)
	members := "" // field holding the lists this one is made of
	loaders := ""
	if st0 != nil {
		for i := 0; i < st0.NumFields(); i++ {
			f := st0.Field(i)
			if s, ok := f.Type().Underlying().(*types.Slice); ok && isListT(s.Elem()) {
				members = f.Name()
			}
			if isNamedT(f.Type(), modPath, "BlocklistLoader") {
				loaders = f.Name()
			}
		}
	}
	isOpaque := func(t *Term) bool {
		return t != nil && (t.op == "call" || t.op == "ext" && t.args[0].op == "call")
	}
	rets := 0
	e.r = &Rule{
		Keep: func(e *Engine, a *Term) bool {
			if a.op != "bin" || a.s != "==" {
				return false
			}
			return isErrorType0(a.args[0].typ) || ofRecv(a.args[0])
		},
		Inline: func(e *Engine, f *ssa.Function) bool {
			sig := f.Signature.Results()
			return sig.Len() > 0 && (isErrorType(sig.At(sig.Len()-1).Type()) || e.getInfo(f).size < 40)
		},
		After: func(e *Engine, c *CallEv, outs []Outcome) {
			short := c.Name[strings.LastIndex(c.Name, ".")+1:]
			for _, o := range outs {
				if short == "Close" && len(c.Args) > 0 && partOf(c.Args[0], recv) {
					bad(o.St, "closes", p.iPos(c.In), "something the list in force still needs is closed while it is being reloaded")
				}
				if c.C.IsInvoke() && c.C.Method.Name() == "Load" && isNamedT(c.C.Value.Type(), modPath, "BlocklistLoader") && ofRecv(c.Args[0]) {
					set(o.St, "loaded")
				}
				if listCall(c.C, "Reload") && ofRecv(c.Args[0]) {
					set(o.St, "m:asked")
				}
				err := errOf(e, c, o)
				if err == nil || !isOpaque(err) || short == "Close" || short == "ReverseAddr" || c.Name == "fmt.Errorf" || strings.HasPrefix(c.Name, "errors.") {
					continue
				}
				set(o.St, fmt.Sprintf("un:%d", err.id))
			}
		},
		Call: func(e *Engine, st *State, c *CallEv) []Outcome {
			if bi, ok := c.C.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				if s, ok := c.C.Args[0].Type().Underlying().(*types.Slice); ok && isListT(s.Elem()) {
					set(st, "m:kept")
				}
			}
			return nil
		},
		Branch: func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
			if a.op != "bin" {
				return
			}
			if a.s == "==" && a.args[1].isNil() {
				id := fmt.Sprintf("un:%d", a.args[0].id)
				if has(st, id) {
					unset(st, id)
					if !val {
						set(st, "failed")
					}
				}
				return
			}
			if a.s == "==" && val && isEmptyString(a.args[1]) && partOf(a.args[0], recv) {
				set(st, "empty:"+lastField(a.args[0]))
			}
			if members != "" && a.s == "<" && a.args[1].op == "len" && lastField(a.args[1].args[0]) == members && ofRecv(a.args[1]) {
				if val {
					set(st, "m:in")
					unset(st, "m:asked")
					unset(st, "m:kept")
				} else {
					unset(st, "m:in")
					set(st, "all")
				}
			}
		},
		Instr: func(e *Engine, st *State, in ssa.Instruction) {
			var to *Term
			switch in := in.(type) {
			case *ssa.Store:
				if _, ok := in.Addr.(*ssa.Alloc); ok {
					return
				}
				if ia, ok := in.Addr.(*ssa.IndexAddr); ok && members != "" && isListT(in.Val.Type()) && !partOf(e.ev(st, ia.X), recv) {
					set(st, "m:kept")
				}
				to = rootOf(e.ev(st, in.Addr))
			case *ssa.MapUpdate:
				to = e.ev(st, in.Map)
			default:
				return
			}
			if partOf(to, recv) {
				bad(st, "in-place", p.iPos(in), "the list in force is changed while it is being reloaded")
			}
		},
		BackEdge: func(e *Engine, st *State, from, head *ssa.BasicBlock) {
			reloads := false
			for b := range natLoop(head) {
				for _, i := range b.Instrs {
					if c, ok := i.(ssa.CallInstruction); ok && (listCall(c.Common(), "Reload") || c.Common().StaticCallee() != nil && p.inRepo(c.Common().StaticCallee()) && p.reachesCall(c.Common().StaticCallee(), func(c *ssa.CallCommon) bool { return listCall(c, "Reload") })) {
						reloads = true
					}
				}
			}
			if !has(st, "m:in") || !reloads {
				return
			}
			pos := p.iPos(from.Instrs[len(from.Instrs)-1])
			if !has(st, "m:asked") {
				bad(st, "skipped", pos, "one of the lists is not reloaded")
			} else if !has(st, "m:kept") {
				bad(st, "lost", pos, "a reloaded list is not kept")
			}
		},
		Return: func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			if len(res) != 2 {
				return
			}
			if isnil, known := e.isNil(st, res[1]); known && !isnil {
				return
			}
			if isOpaque(res[1]) && !has(st, fmt.Sprintf("un:%d", res[1].id)) && has(st, "failed") {
				return // the error itself
			}
			pos := p.iPos(in)
			rets++
			if has(st, "failed") {
				bad(st, "swallowed", pos, "a list is returned as good although loading or parsing it failed")
			} else {
				for _, u := range flags(st, "un:") {
					if u != fmt.Sprint(res[1].id) {
						bad(st, "ignored", pos, "a list is returned as good without looking whether loading and parsing it succeeded")
					}
				}
			}
			if members != "" {
				if !has(st, "all") {
					bad(st, "partial", pos, "a list is returned before all the lists it consists of were reloaded")
				}
			} else if loaders != "" && !has(st, "loaded") {
				bad(st, "unloaded", pos, "a list is returned without having been loaded again from its source")
			}
			t := res[0]
			if t.op == "mi" {
				t = t.args[0]
			}
			if t.typ == nil || !types.Identical(t.typ, recvT) {
				bad(st, "kind", pos, "the reloaded list is of another kind")
				return
			}
			if isnil, known := e.isNil(st, t); isPtr(t.typ) && known && isnil {
				bad(st, "nil", pos, "nothing is returned where a list is expected")
				return
			}
			if st0 == nil {
				return
			}
			for i := 0; i < st0.NumFields(); i++ {
				f := st0.Field(i)
				var v *Term
				if isPtr(t.typ) {
					v = e.load(st, e.fa(t, f.Name(), types.NewPointer(f.Type())), f.Type())
				} else {
					v = e.vf(st, t, f.Name(), f.Type())
				}
				same := lastField(v) == f.Name() && ofRecv(v)
				switch f.Type().Underlying().(type) {
				case *types.Basic, *types.Interface:
					if same {
						continue
					}
					if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && v.op == "const" && f.Name() != "" {
						// a default for an option that was not given
						if has(st, "empty:"+f.Name()) {
							continue
						}
					}
					if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 && !ofRecv(v) && v.op != "const" {
						continue // a number worked out from the content
					}
					bad(st, "option:"+f.Name(), pos, "the reloaded list does not have the "+f.Name()+" of the list it replaces")
				default:
					if same {
						bad(st, "stale:"+f.Name(), pos, "the reloaded list keeps the "+f.Name()+" of the list it replaces")
					}
				}
			}
		},
	}
	e.run(fn, "", nil)
	r.engine(e)
	r.check("rebuild", name, p.pos(fn.Pos()), rets > 0 && !e.over, "no way to reload the list, or the analysis budget was exceeded", nil)
}

func isErrorType0(t types.Type) bool { return t != nil && isErrorType(t) }

// partOf: the term is something read out of the named parameter.
func partOf(t *Term, param string) bool {
	for t != nil {
		switch t.op {
		case "ld", "fa", "vf", "ia", "vi", "conv", "mi", "ta", "slice":
			t = t.args[0]
		default:
			return t.op == "param" && t.s == param
		}
	}
	return false
}

// c22Load: reading a list from its source.
func c22Load(p *Prog, r *Report, fn *ssa.Function) {
	name := p.fnName(fn)
	bad := func(st *State, what string, pos string, msg string) {
		r.viol("load", name+":"+what, pos, msg, st.path())
	}
	recv := fn.Params[0].Name() + "@" + name
	e := newEngine(p, nil)
	ofRecv := func(t *Term) bool {
		return e.T.contains(t, func(x *Term) bool { return x.op == "param" && x.s == recv })
	}
	// complete: reading from this scanner is known to have reached the end
	scans := func(t *Term, f func(id int32)) {
		e.T.walk(t, func(x *Term) bool {
			if x.op == "call" && len(x.args) > 0 && (strings.HasSuffix(x.callName(), "bufio.Scanner).Text") || strings.HasSuffix(x.callName(), "bufio.Scanner).Bytes")) {
				f(x.args[0].id)
			}
			return true
		})
	}
	var fallback map[string]bool // where the previous list is kept
	var successes []*State
	e.r = &Rule{
		Keep: func(e *Engine, a *Term) bool {
			if a.op == "bin" && a.s == "==" && isErrorType0(a.args[0].typ) {
				return true
			}
			return e.T.readsField(a, "StatusCode") || lastField(a) == "AllowFailure"
		},
		Branch: func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
			if a.op == "bin" && a.s == "==" && a.args[1].isNil() {
				t := a.args[0]
				if t.op == "call" && strings.HasSuffix(t.callName(), "bufio.Scanner).Err") {
					if val {
						set(st, fmt.Sprintf("read:%d", t.args[0].id))
					} else {
						set(st, fmt.Sprintf("cut:%d", t.args[0].id))
					}
				}
			}
			if a.op == "bin" && e.T.readsField(a, "StatusCode") {
				x, y := a.args[0], a.args[1]
				switch k, ok := y.intv(); {
				case a.s == "==" && val && ok && (k >= 200 && k <= 299 || k == 2 && x.op == "bin" && x.s == "/"):
					set(st, "status-from-200")
					set(st, "status-to-299")
				case a.s == "<" && ok && k >= 200 && k <= 300 && !val:
					set(st, "status-from-200")
				case a.s == "<" && ok && k >= 200 && k <= 300 && val:
					set(st, "status-to-299")
				}
				switch k, ok := x.intv(); {
				case a.s == "<" && ok && k >= 199 && k <= 299 && val:
					set(st, "status-from-200")
				case a.s == "<" && ok && k >= 199 && k <= 299 && !val:
					set(st, "status-to-299")
				}
			}
			if in != nil && a.op == "bin" && a.s == "==" && a.args[1].isNil() && isErrorType0(a.args[0].typ) {
				f := "err:" + p.fnName(in.Parent())
				if val {
					unset(st, f)
				} else {
					set(st, f)
				}
			}
			if lastField(a) == "AllowFailure" {
				if val {
					set(st, "lenient")
				} else {
					set(st, "strict")
				}
			}
		},
		Instr: func(e *Engine, st *State, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			if _, ok := s.Addr.(*ssa.FieldAddr); !ok {
				return
			}
			if sl, ok := s.Val.Type().Underlying().(*types.Slice); !ok || !types.Identical(sl.Elem().Underlying(), types.Typ[types.String]) {
				return
			}
			if !ofRecv(rootOf(e.ev(st, s.Addr))) {
				return
			}
			// what is kept for later
			set(st, "kept:"+fieldName(deref(s.Addr.(*ssa.FieldAddr).X.Type()), s.Addr.(*ssa.FieldAddr).Field))
			scans(e.ev(st, s.Val), func(id int32) {
				if !has(st, fmt.Sprintf("read:%d", id)) && !has(st, "strict") {
					bad(st, "keeps", p.iPos(in), "a list that may be incomplete is kept as the last good one")
				}
			})
			if v := e.ev(st, s.Val); v.isNil() && !has(st, "strict") && has(st, "err:"+p.fnName(s.Parent())) {
				bad(st, "forgets", p.iPos(in), "the last good list is forgotten")
			}
		},
		Call: func(e *Engine, st *State, c *CallEv) []Outcome {
			switch {
			case c.Name == "bufio.NewScanner" || c.Name == "io.ReadAll":
				t := c.Args[0]
				if !e.T.readsField(t, "Body") {
					break
				}
				if !has(st, "status-from-200") || !has(st, "status-to-299") {
					bad(st, "status", p.iPos(c.In), "the body of an HTTP response that may be an error page is read as the list")
				}
			}
			return nil
		},
		Return: func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			if isnil, known := e.isNil(st, res[1]); known && !isnil {
				return
			}
			pos := p.iPos(in)
			good := partOf(res[0], recv) || len(flags(st, "read:")) > 0 || res[1].op == "call" && strings.HasSuffix(res[1].callName(), "bufio.Scanner).Err")
			r.check("load", name+":content", pos, good, "a list is returned as good although nothing was read", st.path())
			if partOf(res[0], recv) {
				if len(flags(st, "err:")) > 0 || has(st, "lenient") {
					fallback[lastField(res[0])] = true
				}
			} else {
				successes = append(successes, st.clone())
			}
			scans(res[0], func(id int32) {
				self := res[1].op == "call" && strings.HasSuffix(res[1].callName(), "bufio.Scanner).Err") && res[1].args[0].id == id
				if !self && !has(st, fmt.Sprintf("read:%d", id)) {
					bad(st, "cut", pos, "a list is returned as complete without looking whether it was read to its end")
				}
			})
		},
	}
	fallback, successes = map[string]bool{}, nil
	// the list may also be written to a file
	write := func(f *ssa.Function) bool {
		return hasCall(f, func(c *ssa.CallCommon) bool { n := calleeName(c); return n == "os.Rename" || n == "os.CreateTemp" })
	}
	call := e.r.Call
	e.r.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
		if c.Fn != nil && p.inRepo(c.Fn) && write(c.Fn) {
			return []Outcome{{st, e.opaque(st, c, c.Args)}}
		}
		if c.Fn != nil && p.inRepo(c.Fn) {
			for _, a := range c.Args {
				if a.typ == nil {
					continue
				}
				if sl, ok := a.typ.Underlying().(*types.Slice); ok && types.Identical(sl.Elem().Underlying(), types.Typ[types.String]) {
					found := false
					p.staticReach(c.Fn, func(g *ssa.Function) bool { found = found || write(g); return true })
					if found {
						scans(a, func(id int32) {
							if !has(st, fmt.Sprintf("read:%d", id)) {
								bad(st, "caches", p.iPos(c.In), "a list that may be incomplete is written to the list cache")
							}
						})
					}
				}
			}
		}
		return call(e, st, c)
	}
	e.run(fn, "", nil)
	r.engine(e)
	for f := range fallback {
		for _, st := range successes {
			if !has(st, "kept:"+f) && !has(st, "strict") {
				bad(st, "unkept", p.pos(fn.Pos()), "a list that was read completely is not kept for the case that reading it fails the next time")
				break
			}
		}
	}
	r.check("load", name, p.pos(fn.Pos()), !e.over, "the analysis budget was exceeded", nil)
}
