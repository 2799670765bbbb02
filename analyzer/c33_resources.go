package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C33: whatever is opened is closed or handed on.

func init() {
	register("C33", "everything that is opened is closed or handed to an owner on every path",
		runC33,
		"A library function that is given a connection or listener other than as a reader or writer becomes its owner; if it reports an error instead of the object it builds, it does not",
		"An operation that opens something returns nothing to close when it returns an error",
		"An object in a field of a longer-lived object is closed by that object's owner")
}

func runC33(p *Prog, r *Report) {
	x := newOwners(p)
	x.solve(func(fn *ssa.Function) bool { return true })
	x.report(r, "held", func(fn *ssa.Function) bool { return !x.descriptors(fn) })
	c33Stops(p, r, x)
	r.atLeast("held", 25)
	r.atLeast("stopped", 5)
	r.atLeast("replaced", 2)
}

// owners follows the objects a function opens until they are closed or somebody else has them.
type owners struct {
	p     *Prog
	acq   map[*ssa.Function]map[int]bool // functions that return something open
	query map[*ssa.Function]bool
	cb    map[*ssa.Function][]int             // functions that take over parameters
	free  map[ssa.Instruction]map[shared]bool // goroutines that share what was opened
	bad   map[shared]bool                     // do not close their share on every path
	grp   map[shared]ssa.Instruction
	kept  map[*types.Named]map[string]bool // fields that hold something open
}

// shared is a captured variable of a goroutine that holds something open.
type shared struct {
	fn *ssa.Function
	i  int
}

func newOwners(p *Prog) *owners {
	return &owners{p: p, acq: map[*ssa.Function]map[int]bool{}, cb: map[*ssa.Function][]int{},
		free: map[ssa.Instruction]map[shared]bool{}, bad: map[shared]bool{}, grp: map[shared]ssa.Instruction{}, kept: map[*types.Named]map[string]bool{}}
}

// takesOver: the function closes what it is given, somewhere.
func (x *owners) takesOver(f *ssa.Function, i, depth int) bool {
	if f == nil || !x.p.inRepo(f) || len(f.Blocks) == 0 || i >= len(f.Params) || !closable(f.Params[i].Type()) {
		return false
	}
	fns := append([]*ssa.Function{f}, f.AnonFuncs...)
	found := false
	for _, g := range fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if h := c.Common().StaticCallee(); h != nil && h != f && x.p.inRepo(h) && depth < 3 {
					for k, a := range c.Common().Args {
						hit := false
						if k < len(h.Params) && closable(h.Params[k].Type()) {
							x.p.slice(a, func(v ssa.Value) bool {
								hit = hit || v == f.Params[i]
								return !hit
							})
						}
						if hit && x.takesOver(h, k, depth+1) {
							return true
						}
					}
				}
				if !isCloser(calleeName(c.Common())) {
					continue
				}
				recv := c.Common().Value
				if !c.Common().IsInvoke() {
					if len(c.Common().Args) == 0 {
						continue
					}
					recv = c.Common().Args[0]
				}
				x.p.slice(recv, func(v ssa.Value) bool {
					found = found || v == f.Params[i]
					return !found
				})
			}
		}
	}
	return found
}

func (x *owners) owns(f *ssa.Function, i int) {
	for _, j := range x.cb[f] {
		if j == i {
			return
		}
	}
	x.cb[f] = append(x.cb[f], i)
}

// closable: types whose values must be closed.
func closable(t types.Type) bool {
	if isNamed(deref(t), "net/http", "Response") {
		return true
	}
	if n, ok := types.Unalias(deref(t)).(*types.Named); ok && n.Obj().Pkg() != nil {
		pk := n.Obj().Pkg().Path()
		if strings.Contains(pk, "gopher-lua") || strings.HasPrefix(pk, "compress/") || strings.HasPrefix(pk, "archive/") || pk == "os/exec" || pk == "net/http" {
			return false // memory only
		}
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		return false
	}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "Close", "CloseWithError":
			return true
		}
	}
	return false
}

var opensFd = map[string]bool{"Socket": true, "InotifyInit1": true, "InotifyInit": true, "Open": true, "Openat": true, "Accept": true, "Accept4": true, "Dup": true, "EpollCreate1": true, "Eventfd": true}

func isUnixCall(name string) bool {
	return strings.HasPrefix(name, "golang.org/x/sys/unix.") || strings.HasPrefix(name, "syscall.")
}

// opens tells which results of a call the caller has to close.
func (x *owners) opens(name string, fn *ssa.Function, c *ssa.CallCommon) []int {
	p := x.p
	var out []int
	res := c.Signature().Results()
	if fn != nil && p.inRepo(fn) && len(fn.Blocks) > 0 {
		for i := range x.acq[fn] {
			out = append(out, i)
		}
		sort.Ints(out)
		return out
	}
	if c.IsInvoke() {
		if n, ok := types.Unalias(c.Value.Type()).(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) && res.Len() > 0 && len(p.impls(c)) > 0 {
			found := map[int]bool{}
			for _, f := range p.impls(c) {
				for i := range x.acq[f] {
					found[i] = true
				}
			}
			for i := range found {
				out = append(out, i)
			}
			sort.Ints(out)
			return out
		}
	}
	if isUnixCall(name) {
		if opensFd[name[strings.LastIndexByte(name, '.')+1:]] && res.Len() == 2 {
			return []int{0}
		}
		return nil
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	switch name {
	case "io.NopCloser", "net/http.MaxBytesReader", "(sync.Pool).Get", "io.Pipe":
		return nil
	}
	for i := 0; i < res.Len(); i++ {
		if closable(res.At(i).Type()) && !types.Identical(res.At(i).Type(), types.Universe.Lookup("error").Type()) {
			out = append(out, i)
		}
	}
	return out
}

func (x *owners) hasOpen(fn *ssa.Function) bool {
	return hasCall(fn, func(c *ssa.CallCommon) bool {
		if c.StaticCallee() != nil && x.p.inRepo(c.StaticCallee()) {
			return len(x.acq[c.StaticCallee()]) > 0
		}
		return len(x.opens(calleeName(c), c.StaticCallee(), c)) > 0
	})
}

// descriptors: functions that deal in raw descriptors of other namespaces (C31).
func (x *owners) descriptors(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if hasCall(f, func(c *ssa.CallCommon) bool {
			if isUnixCall(calleeName(c)) && !strings.Contains(calleeName(c), "Inotify") {
				return true
			}
			s := c.StaticCallee()
			return s != nil && x.p.inRepo(s) && len(x.acq[s]) > 0 && isIntT(s.Signature.Results().At(0).Type())
		}) {
			return true
		}
	}
	return false
}

func (x *owners) entries() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range x.p.funcs {
		if x.p.inRepo(fn) && x.p.inRoot(fn) && len(fn.Blocks) > 0 && (x.hasOpen(fn) || len(x.cb[fn]) > 0 || x.shares(fn)) {
			out = append(out, fn)
		}
	}
	return out
}

// alone: nobody else closes what the goroutine shares.
func (x *owners) alone(s shared) bool {
	for o := range x.free[x.grp[s]] {
		if !x.bad[o] {
			return false
		}
	}
	return true
}

func (x *owners) shares(fn *ssa.Function) bool {
	for s := range x.grp {
		if s.fn == fn {
			return true
		}
	}
	return false
}

func (x *owners) solve(want func(*ssa.Function) bool) {
	for round := 0; round < 6; round++ {
		before := fmt.Sprint(len(x.acq), len(x.cb), len(x.grp))
		for _, fn := range x.entries() {
			x.run(fn, nil, "")
		}
		if fmt.Sprint(len(x.acq), len(x.cb), len(x.grp)) == before {
			break
		}
	}
	x.bad = map[shared]bool{}
	for _, fn := range x.entries() {
		if x.shares(fn) {
			x.run(fn, nil, "")
		}
	}
}

func (x *owners) report(r *Report, rule string, want func(*ssa.Function) bool) {
	for _, fn := range x.entries() {
		if want(fn) {
			x.run(fn, r, rule)
		}
	}
}

// perQuery: functions that run for every query.
func (x *owners) perQuery(fn *ssa.Function) bool {
	if x.query == nil {
		x.query = map[*ssa.Function]bool{}
		for _, f := range x.p.resolvers() {
			for g := range x.p.reach(f) {
				x.query[g] = true
			}
		}
	}
	return x.query[fn]
}

func isCloser(name string) bool {
	i := strings.LastIndexByte(name, '.')
	switch name[i+1:] {
	case "Close", "CloseWithError", "Shutdown", "CancelWrite":
		return true
	}
	return false
}

func (x *owners) run(fn *ssa.Function, r *Report, kind string) {
	p := x.p
	T := (*Terms)(nil)
	rule := &Rule{}
	own := func(st *State) []*Term {
		var out []*Term
		for _, s := range flags(st, "own:") {
			n, _ := strconv.Atoi(s)
			out = append(out, T.byID(int32(n)))
		}
		return out
	}
	within := func(st *State, R *Term) map[int32]bool {
		out := map[int32]bool{R.id: true}
		for _, s := range flags(st, "in:"+itoa(R.id)+":") {
			n, _ := strconv.Atoi(s)
			out[int32(n)] = true
		}
		return out
	}
	reached := func(st *State, v *Term) []*Term {
		var out []*Term
		if v == nil {
			return nil
		}
		for _, R := range own(st) {
			ids := within(st, R)
			found := false
			T.walk(v, func(t *Term) bool {
				found = found || ids[t.id]
				return !found && (!c33Data(t.typ) || t.op == "conv" || t.op == "phi" || t.op == "merge")
			})
			if found {
				out = append(out, R)
			}
		}
		return out
	}
	drop := func(st *State, R *Term) {
		unset(st, "own:"+itoa(R.id))
		for _, s := range flags(st, "in:"+itoa(R.id)+":") {
			unset(st, "in:"+itoa(R.id)+":"+s)
		}
	}
	hand := func(st *State, v *Term) {
		for _, R := range reached(st, v) {
			drop(st, R)
		}
	}
	what := map[int32]string{}
	mine := map[int32]shared{}
	where := map[int32]ssa.Instruction{}
	take := func(st *State, t *Term, name string, in ssa.Instruction) {
		set(st, "own:"+itoa(t.id))
		what[t.id] = name
		where[t.id] = in
	}
	oldAt := map[int32]ssa.Instruction{}
	// again: done more than once in the life of the owner
	again := func(R *Term) bool {
		in := where[R.id]
		return in != nil && in.Parent() == fn && (inLoop(in.Block()) || x.perQuery(fn))
	}
	stale := func(st *State) {
		for _, s := range flags(st, "old:") {
			n, _ := strconv.Atoi(s)
			in := oldAt[int32(n)]
			if r != nil && kind == "held" {
				r.check("replaced", p.fnName(fn), p.iPos(in), false, "what was open here before is replaced without being closed", st.path())
			}
			unset(st, "old:"+s)
		}
	}
	key := func(R *Term) string { return p.fnName(fn) + " " + what[R.id] }
	rule.Event = func(f *ssa.Function) bool {
		return hasCall(f, func(c *ssa.CallCommon) bool {
			return isCloser(calleeName(c)) || calleeName(c) == "golang.org/x/sys/unix.Close"
		})
	}
	rule.Inline = func(e *Engine, f *ssa.Function) bool {
		if len(x.acq[f]) > 0 {
			return false
		}
		n := e.getInfo(f).size
		if e.hasEvent(f) && n < 150 {
			return true
		}
		for _, q := range f.Params {
			if _, ok := q.Type().Underlying().(*types.Signature); ok && n < 120 {
				return true
			}
		}
		if f.Parent() != nil && n < 120 {
			return true
		}
		return n < 40 && len(f.Blocks) <= 8
	}
	rule.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
		name := c.Name
		if _, ok := c.C.Value.(*ssa.Builtin); ok {
			return nil
		}
		if c.Kind == "go" {
			return nil
		}
		if isCloser(name) || isUnixCall(name) && strings.HasSuffix(name, ".Close") {
			if len(c.Args) > 0 {
				e.T.walk(c.Args[0], func(t *Term) bool {
					set(st, "shut:"+itoa(t.id))
					if has(st, "old:"+itoa(t.id)) {
						unset(st, "old:"+itoa(t.id))
						if r != nil && kind == "held" {
							r.ok("replaced", p.fnName(fn))
						}
					}
					return true
				})
				for _, R := range reached(st, c.Args[0]) {
					if r != nil {
						r.ok(kind, key(R))
					}
					st.note("%s: closed", p.iPos(c.In))
					drop(st, R)
				}
			}
			return nil
		}
		if c33Closes(p, c.Fn) {
			for _, a := range c.Args {
				for _, R := range reached(st, a) {
					if r != nil {
						r.ok(kind, key(R))
					}
				}
				hand(st, a)
			}
		}
		idx := x.opens(name, c.Fn, c.C)
		inl := c.Fn != nil && p.inRepo(c.Fn) && len(c.Fn.Blocks) > 0 && len(idx) == 0
		var given []*Term
		if inl && (c.Kind == "" || c.Kind == "call") {
			for i, a := range c.Args {
				if e.getInfo(c.Fn).size >= 150 && len(reached(st, a)) > 0 && x.takesOver(c.Fn, i, 0) {
					x.owns(c.Fn, i)
					hand(st, a)
				}
			}
		}
		if strings.HasSuffix(name, "quic-go.Conn).AcceptStream") && len(reached(st, c.Args[0])) > 0 {
			// fails once the connection is closed
			res := e.opaque(st, c, c.Args)
			yes, no := st.clone(), st
			isnil := e.T.bin(token.EQL, res[1], e.T.nilT(), types.Typ[types.Bool])
			e.assume(yes, isnil, true)
			e.assume(no, isnil, false)
			hand(no, c.Args[0])
			take(yes, res[0], name, c.In)
			return []Outcome{{yes, res}, {no, res}}
		}
		if !inl && !isUnixCall(name) {
			sig := c.C.Signature()
			for i, a := range c.Args {
				if len(reached(st, a)) == 0 {
					continue
				}
				k := i
				if c.C.IsInvoke() || sig.Recv() != nil {
					k--
				}
				if k < 0 {
					continue // a method of its own
				}
				if k < sig.Params().Len() && c33Borrows(name, sig.Params().At(k).Type()) {
					continue
				}
				given = append(given, a)
			}
		}
		if len(idx) == 0 {
			for _, a := range given {
				hand(st, a)
			}
			return nil
		}
		sig := c.C.Signature().Results()
		res := append([]*Term(nil), e.opaque(st, c, c.Args)...)
		for i := range res {
			res[i] = e.fresh(st, "call", fmt.Sprintf("%s#%d", name, i), c.In, c.Ctx, sig.At(i).Type())
		}
		last := sig.At(sig.Len() - 1).Type()
		yes := st
		var outs []Outcome
		if isErrorType(last) && sig.Len() > 1 {
			yes = st.clone()
			err := res[len(res)-1]
			isnil := e.T.bin(token.EQL, err, e.T.nilT(), types.Typ[types.Bool])
			no := st
			no.note("%s: %s fails", p.iPos(c.In), name)
			nres := append([]*Term(nil), res...)
			for _, i := range idx {
				nres[i] = e.zero(sig.At(i).Type())
			}
			if e.assume(no, isnil, false) {
				outs = append(outs, Outcome{no, nres})
			}
			if !e.assume(yes, isnil, true) {
				return outs
			}
		}
		for _, a := range given {
			hand(yes, a)
		}
		for _, i := range idx {
			t := res[i]
			yes.note("%s: opened by %s", p.iPos(c.In), name)
			take(yes, t, name, c.In)
			if isIntT(t.typ) {
				e.assume(yes, e.T.bin(token.LSS, t, e.T.intT(0), types.Typ[types.Bool]), false)
			} else {
				e.assume(yes, e.T.bin(token.EQL, t, e.T.nilT(), types.Typ[types.Bool]), false)
			}
		}
		return append(outs, Outcome{yes, res})
	}
	rule.Instr = func(e *Engine, st *State, in ssa.Instruction) {
		switch y := in.(type) {
		case *ssa.Store:
			v := e.ev(st, y.Val)
			if fa, ok := y.Addr.(*ssa.FieldAddr); ok {
				if n, ok := types.Unalias(deref(fa.X.Type())).(*types.Named); ok && where[v.id] != nil {
					if x.kept[n] == nil {
						x.kept[n] = map[string]bool{}
					}
					x.kept[n][fieldName(fa.X.Type(), fa.Field)] = true
				}
			}
			rs := reached(st, v)
			if len(rs) == 0 {
				return
			}
			a := e.ev(st, y.Addr)
			root := rootOf(a)
			for _, R := range rs {
				if root.op == "alloc" {
					set(st, "in:"+itoa(R.id)+":"+itoa(root.id))
				} else {
					if r != nil {
						r.ok(kind, key(R))
					}
					drop(st, R)
					if again(R) && v == R {
						old := e.load(st, a, y.Val.Type())
						if isnil, known := e.isNil(st, old); !(known && isnil) && !has(st, "shut:"+itoa(old.id)) && old != R {
							set(st, "old:"+itoa(old.id))
							oldAt[old.id] = in
						}
					}
				}
			}
		case *ssa.Go:
			f := y.Call.StaticCallee()
			for i, a := range y.Call.Args {
				v := e.ev(st, a)
				if f != nil && p.inRepo(f) && len(reached(st, v)) > 0 && i < len(f.Params) && closable(f.Params[i].Type()) {
					x.owns(f, i)
				}
				for _, R := range reached(st, v) {
					if r != nil {
						r.ok(kind, key(R))
					}
				}
				hand(st, v)
			}
			if mc, ok := y.Call.Value.(*ssa.MakeClosure); ok {
				g, _ := mc.Fn.(*ssa.Function)
				for i, b := range mc.Bindings {
					v := e.ev(st, b)
					for _, R := range reached(st, v) {
						if where[R.id] == nil || !closable(R.typ) {
							continue
						}
						if x.free[where[R.id]] == nil {
							x.free[where[R.id]] = map[shared]bool{}
						}
						x.free[where[R.id]][shared{g, i}] = true
						x.grp[shared{g, i}] = where[R.id]
						set(st, "went:"+itoa(v.id)+":"+itoa(R.id))
					}
					for _, s := range flags(st, "went:"+itoa(v.id)+":") {
						n, _ := strconv.Atoi(s)
						if in := where[int32(n)]; in != nil {
							x.free[in][shared{g, i}] = true
							x.grp[shared{g, i}] = in
						}
					}
				}
			}
			hand(st, e.ev(st, y.Call.Value))
		case *ssa.Send:
			hand(st, e.ev(st, y.X))
		case *ssa.MapUpdate:
			hand(st, e.ev(st, y.Value))
		case *ssa.Select:
			for _, s := range y.States {
				if s.Send != nil {
					hand(st, e.ev(st, s.Send))
				}
			}
		}
	}
	// what has just been opened is nothing that was there before
	rule.Branch = func(e *Engine, st *State, in *ssa.If, atom *Term, val bool) {
		if atom.op == "not" {
			atom, val = atom.args[0], !val
		}
		if atom.op != "bin" || atom.s != "==" || !val {
			return
		}
		for i := range atom.args {
			if atom.args[1-i].isNil() {
				unset(st, "old:"+itoa(atom.args[i].id))
			}
			for _, R := range reached(st, atom.args[i]) {
				o := atom.args[1-i]
				if o.op == "ld" && !T.contains(o, func(t *Term) bool { return t == R }) && !isIntT(o.typ) {
					st.dead = true
				}
			}
		}
	}
	rule.BackEdge = func(e *Engine, st *State, from, head *ssa.BasicBlock) {
		if head.Parent() == fn {
			stale(st)
			for _, s := range flags(st, "shut:") {
				unset(st, "shut:"+s)
			}
		}
		for _, R := range own(st) {
			in := where[R.id]
			if in == nil || in.Parent() != head.Parent() || !head.Dominates(in.Block()) || !reachableAvoiding2(in.Block(), from, head) {
				continue
			}
			if len(flags(st, "in:"+itoa(R.id)+":")) > 0 {
				continue
			}
			if R.op == "param" && strings.HasPrefix(R.s, "free:") {
				continue
			}
			if r != nil {
				r.check(kind, key(R), p.iPos(in), false, "what "+what[R.id]+" opened is still open and lost in the next round", st.path())
			}
			drop(st, R)
		}
	}
	rule.Return = func(e *Engine, st *State, in *ssa.Return, res []*Term) {
		stale(st)
		failed := false
		if n := len(res); n > 1 && isErrorType(fn.Signature.Results().At(n-1).Type()) {
			if isnil, known := e.isNil(st, res[n-1]); known && !isnil {
				failed = true
			}
		}
		for i, v := range res {
			if isErrorType(fn.Signature.Results().At(i).Type()) || failed {
				continue
			}
			for _, R := range reached(st, v) {
				if r != nil {
					r.ok(kind, key(R))
				}
				t := fn.Signature.Results().At(i).Type()
				if closable(t) || isIntT(t) {
					if x.acq[fn] == nil {
						x.acq[fn] = map[int]bool{}
					}
					x.acq[fn][i] = true
				}
				drop(st, R)
			}
		}
		for _, R := range own(st) {
			if s, ok := mine[R.id]; ok {
				x.bad[s] = true
				if !x.alone(s) {
					continue
				}
			}
			if r != nil {
				r.check(kind, key(R), p.iPos(in), false, "what "+what[R.id]+" opened is not closed on this path", st.path())
			}
		}
	}
	e := newEngine(p, rule)
	T = e.T
	e.run(fn, "", func(st *State, ps []*Term) {
		for _, i := range x.cb[fn] {
			take(st, ps[i], "the caller", nil)
		}
		for i, f := range fn.FreeVars {
			if in := x.grp[shared{fn, i}]; in != nil {
				t := e.T.mk("param", "free:"+f.Name()+"@"+p.fnName(fn), f.Type(), false)
				take(st, t, "the caller", nil)
				mine[t.id] = shared{fn, i}
			}
		}
	})
	if r != nil {
		r.engine(e)
	}
}

// c33Borrows: parameters that only use what they are given.
func c33Borrows(name string, t types.Type) bool {
	switch name {
	case "os.NewFile":
		return false
	case "net.FileListener", "net.FileConn", "net.FilePacketConn":
		return true
	}
	if isNamed(t, "io", "Reader") || isNamed(t, "io", "Writer") || isNamed(t, "io", "ReadCloser") {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Interface:
		return u.NumMethods() == 0
	case *types.Slice:
		return c33Borrows("", u.Elem())
	}
	return false
}

// reachableAvoiding2: to can be reached from from without leaving through head.
func reachableAvoiding2(from, to, head *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{head: true}
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] && b != head {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if s != head && rec(s) {
				return true
			}
		}
		return false
	}
	return rec(from)
}

// c33Stops: what an object keeps open is closed when the object is stopped or closed.
func c33Stops(p *Prog, r *Report, x *owners) {
	var named []*types.Named
	for n := range x.kept {
		if n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			named = append(named, n)
		}
	}
	sort.Slice(named, func(i, j int) bool { return named[i].Obj().Name() < named[j].Obj().Name() })
	for _, n := range named {
		var fn *ssa.Function
		for _, m := range []string{"Stop", "Close"} {
			if f := p.method(types.NewPointer(n), m); f != nil && len(f.Blocks) > 0 && fn == nil && p.inRepo(f) {
				fn = f
			}
		}
		if fn == nil {
			continue
		}
		fields := map[string]bool{}
		for f := range x.kept[n] {
			fields[f] = true
		}
		rule := &Rule{}
		eng := newEngine(p, rule)
		part := func(st *State, t *Term) string {
			found := ""
			if t == nil {
				return ""
			}
			eng.T.walk(t, func(t *Term) bool {
				if t.op == "ld" && len(t.args) > 0 && t.args[0].op == "fa" || t.op == "vf" {
					if f := lastField(t); fields[f] {
						found = f
					}
				}
				return found == ""
			})
			return found
		}
		rule.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
			if c33Closes(p, c.Fn) {
				for _, a := range c.Args {
					for k, v := range st.mem {
						if root := rootOf(k); root.op == "alloc" && e.T.contains(a, func(t *Term) bool { return t == root }) {
							if f := part(st, v); f != "" {
								set(st, "closed:"+f)
							}
						}
					}
				}
			}
			if isCloser(c.Name) && len(c.Args) > 0 {
				if f := part(st, c.Args[0]); f != "" {
					set(st, "closed:"+f)
				}
			}
			return nil
		}
		rule.Branch = func(e *Engine, st *State, in *ssa.If, atom *Term, val bool) {
			if atom.op == "not" {
				atom, val = atom.args[0], !val
			}
			if atom.op == "bin" && atom.s == "==" && val {
				for i := range atom.args {
					if atom.args[1-i].isNil() {
						set(st, "none")
						if f := part(st, atom.args[i]); f != "" {
							set(st, "nil:"+f)
						}
					}
				}
			}
			if atom.op == "bin" && atom.s == "==" && !val && c33Mode(atom) {
				set(st, "mode")
			}
		}
		rule.Return = func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			any := len(flags(st, "closed:")) > 0
			for f := range fields {
				k := n.Obj().Name() + "." + f
				if has(st, "closed:"+f) || has(st, "nil:"+f) {
					r.ok("stopped", k)
				} else if any || !has(st, "none") && !has(st, "mode") {
					r.check("stopped", k, p.iPos(in), false, "the object is stopped without closing "+f, st.path())
				}
			}
		}
		eng.run(fn, "", nil)
		r.engine(eng)
	}
}

// c33Mode: a comparison with a configured constant.
func c33Mode(atom *Term) bool {
	for _, a := range atom.args {
		if a.isConst() && isStringT(a.typ) {
			return true
		}
	}
	return false
}

// c33Data: values that were read out of something, not the thing itself.
func c33Data(t types.Type) bool {
	if t == nil {
		return false
	}
	if isErrorType(t) || isMsgPtr(t) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer && u.Kind() != types.Invalid && u.Kind() != types.UntypedNil
	case *types.Slice:
		return c33Data(u.Elem())
	case *types.Array:
		return c33Data(u.Elem())
	}
	return false
}

// c33Closes: the function closes every element of a list it is given.
func c33Closes(p *Prog, fn *ssa.Function) bool {
	if fn == nil || !p.inRepo(fn) || len(fn.Blocks) == 0 || len(fn.Params) == 0 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok || !c.Common().IsInvoke() || !isCloser(calleeName(c.Common())) || !inLoop(b) {
				continue
			}
			list := false
			p.slice(c.Common().Value, func(v ssa.Value) bool {
				if q, ok := v.(*ssa.Parameter); ok {
					_, isList := q.Type().Underlying().(*types.Slice)
					list = list || isList
				}
				return true
			})
			if list {
				return true
			}
		}
	}
	return false
}
