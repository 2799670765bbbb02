package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C31: work in another network namespace stays on its own thread, and sockets of another namespace
// are limited and accounted for.

func init() {
	register("C31", "threads return from other network namespaces; sockets handed between namespaces are limited and closed",
		runC31,
		"A thread that is still locked when its goroutine ends is not used again (Go runtime)",
		"/proc/thread-self/ns/net is the namespace of the calling thread",
		"ParseUnixRights returns the descriptors received with the message, and nothing when it fails")
}

func runC31(p *Prog, r *Report) {
	var enter []*ssa.Function
	for _, fn := range p.funcs {
		if !p.inRepo(fn) || len(fn.Blocks) == 0 || fn.Parent() != nil {
			continue
		}
		if !c31Within(fn, "golang.org/x/sys/unix.Setns") {
			continue
		}
		enter = append(enter, fn)
	}
	// a helper that only switches is decided in the function that calls it
	var tops []*ssa.Function
	for _, fn := range enter {
		if c31Callback(fn) >= 0 {
			tops = append(tops, fn)
		}
	}
	for _, fn := range p.funcs {
		if !p.inRepo(fn) || len(fn.Blocks) == 0 || fn.Parent() != nil || c31Callback(fn) < 0 {
			continue
		}
		for _, h := range enter {
			if c31Callback(h) < 0 && p.staticCalls(fn, h) {
				tops = append(tops, fn)
				break
			}
		}
	}
	for _, fn := range enter {
		used := c31Callback(fn) >= 0
		for _, t := range tops {
			used = used || p.staticCalls(t, fn)
		}
		if !used {
			tops = append(tops, fn)
		}
	}
	for _, fn := range tops {
		c31Thread(p, r, fn)
		c31Bodies(p, r, fn)
	}
	c31Sockets(p, r)
	x := newOwners(p)
	for _, fn := range p.funcs {
		// the descriptors of a message come without being opened here
		if p.inRepo(fn) && fn.Signature.Results().Len() == 2 && isIntT(fn.Signature.Results().At(0).Type()) &&
			hasCall(fn, func(c *ssa.CallCommon) bool { return calleeName(c) == "golang.org/x/sys/unix.Recvmsg" }) {
			x.acq[fn] = map[int]bool{0: true}
		}
	}
	x.solve(func(fn *ssa.Function) bool { return true })
	x.report(r, "descriptor", x.descriptors)
	c31Received(p, r)
	r.atLeast("thread", 1)
	r.atLeast("home", 1)
	r.atLeast("ran", 1)
	r.atLeast("body", 4)
	r.atLeast("kind", 1)
	r.atLeast("descriptor", 5)
	r.atLeast("received", 1)
}

func c31Within(fn *ssa.Function, name string) bool {
	pred := func(c *ssa.CallCommon) bool { return calleeName(c) == name }
	if hasCall(fn, pred) {
		return true
	}
	for _, f := range fn.AnonFuncs {
		if c31Within(f, name) {
			return true
		}
	}
	return false
}

func (p *Prog) staticCalls(fn, target *ssa.Function) bool {
	if hasCall(fn, func(c *ssa.CallCommon) bool { return c.StaticCallee() == target }) {
		return true
	}
	for _, f := range fn.AnonFuncs {
		if p.staticCalls(f, target) {
			return true
		}
	}
	return false
}

// c31Callback: the parameter that is run in the namespace.
func c31Callback(fn *ssa.Function) int {
	for i, q := range fn.Params {
		if s, ok := q.Type().Underlying().(*types.Signature); ok && s.Params().Len() == 0 {
			return i
		}
	}
	return -1
}

// c31Thread follows the thread of a function that changes the namespace.
func c31Thread(p *Prog, r *Report, fn *ssa.Function) {
	rule := &Rule{}
	rule.Inline = func(e *Engine, f *ssa.Function) bool { return e.getInfo(f).size < 200 }
	name := p.fnName(fn)
	file := map[int32]string{} // open namespace files: "home" or "other"
	cb := c31Callback(fn)
	var eng *Engine
	role := func(t *Term) (string, int32) {
		role, id := "", int32(0)
		eng.T.walk(t, func(x *Term) bool {
			if f, ok := file[x.id]; ok && role == "" {
				role, id = f, x.id
			}
			return role == ""
		})
		return role, id
	}
	bad := func(in ssa.Instruction, st *State, rl, msg string) {
		r.check(rl, name, p.iPos(in), false, msg, st.path())
	}
	rule.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
		switch {
		case c.Name == "runtime.LockOSThread":
			set(st, "locked")
		case c.Name == "runtime.UnlockOSThread":
			if has(st, "away") {
				bad(c.In, st, "thread", "the thread is unlocked while it is in another network namespace")
			} else {
				r.ok("thread", name)
			}
			unset(st, "locked")
		case c.Name == "os.Open" || c.Name == "os.OpenFile" || c.Name == "golang.org/x/sys/unix.Open":
			sig := c.C.Signature().Results()
			res := append([]*Term(nil), e.opaque(st, c, c.Args)...)
			for i := range res {
				res[i] = e.fresh(st, "call", fmt.Sprintf("%s#%d", c.Name, i), c.In, c.Ctx, sig.At(i).Type())
			}
			yes, no := st.clone(), st
			isnil := e.T.bin(token.EQL, res[1], e.T.nilT(), types.Typ[types.Bool])
			var outs []Outcome
			if e.assume(no, isnil, false) {
				outs = append(outs, Outcome{no, res})
			}
			if e.assume(yes, isnil, true) {
				kind := "other"
				path, hasTid := "", false
				e.T.walk(c.Args[0], func(t *Term) bool {
					if v, ok := t.str(); ok {
						path += v
					}
					hasTid = hasTid || strings.HasSuffix(t.callName(), ".Gettid")
					return true
				})
				if strings.HasPrefix(path, "/proc/") && strings.HasSuffix(path, "/ns/net") {
					kind = "home"
					if !strings.HasPrefix(path, "/proc/thread-self/") && !strings.Contains(path, "/task/") && !hasTid {
						kind = "main"
					} else if !has(yes, "locked") {
						kind = "early"
					} else if has(yes, "away") {
						kind = "late"
					}
				}
				file[res[0].id] = kind
				set(yes, "open:"+itoa(res[0].id))
				outs = append(outs, Outcome{yes, res})
			}
			return outs
		case isCloser(c.Name) && len(c.Args) > 0, c.Name == "golang.org/x/sys/unix.Close":
			if _, id := role(c.Args[0]); id != 0 {
				unset(st, "open:"+itoa(id))
			}
		case c.Name == "golang.org/x/sys/unix.Setns":
			to, id := role(c.Args[0])
			if !has(st, "locked") {
				bad(c.In, st, "thread", "the namespace is changed on a thread that is not locked to the goroutine")
			} else {
				r.ok("thread", name)
			}
			res := e.opaque(st, c, c.Args)
			yes, no := st.clone(), st
			isnil := e.T.bin(token.EQL, res[0], e.T.nilT(), types.Typ[types.Bool])
			var outs []Outcome
			if e.assume(no, isnil, false) {
				outs = append(outs, Outcome{no, res})
			}
			if !e.assume(yes, isnil, true) {
				return outs
			}
			switch {
			case has(yes, "away") && to != "other" && to != "":
				switch {
				case to == "main":
					bad(c.In, st, "home", "the thread is returned to the namespace of the main thread, not to its own")
				case to == "early":
					bad(c.In, st, "home", "the thread is returned to a namespace that was looked up before the goroutine was locked to the thread")
				case to == "late":
					bad(c.In, st, "home", "the thread is returned to a namespace that was looked up in the other namespace")
				case !has(yes, "open:"+itoa(id)):
					bad(c.In, st, "home", "the original namespace is closed before the thread is returned to it")
				default:
					r.ok("home", name)
				}
				unset(yes, "away")
			case to == "other":
				set(yes, "away")
				set(yes, "went")
			case to == "":
				bad(c.In, st, "home", "the namespace that is entered here cannot be told")
			}
			return append(outs, Outcome{yes, res})
		case cb >= 0 && c.C.Value != nil && c.Fn == nil && c.Name == "" || cb >= 0 && isParam(e, st, c, fn, cb):
			if !isParam(e, st, c, fn, cb) {
				return nil
			}
			if has(st, "away") {
				r.ok("ran", name)
			} else if !has(st, "noname") {
				bad(c.In, st, "ran", "the function runs outside of the namespace it was given for")
			}
			set(st, "called")
		}
		return nil
	}
	rule.Branch = func(e *Engine, st *State, in *ssa.If, atom *Term, val bool) {
		for atom.op == "not" {
			atom, val = atom.args[0], !val
		}
		if atom.op == "bin" && atom.s == "==" && val {
			for i, a := range atom.args {
				b := atom.args[1-i]
				if b.isNil() && a.op == "param" || isEmptyString(b) && a.isField("Name") {
					set(st, "noname")
				}
			}
		}
		if atom.op == "bin" && atom.s == "==" && val {
			for i, a := range atom.args {
				if v, ok := atom.args[1-i].intv(); ok && v == 0 && a.op == "len" && a.args[0].isField("Name") {
					set(st, "noname")
				}
			}
		}
	}
	rule.Return = func(e *Engine, st *State, in *ssa.Return, res []*Term) {
		if has(st, "away") && !has(st, "locked") {
			bad(in, st, "thread", "the function returns with the thread in another network namespace")
		}
	}
	eng = newEngine(p, rule)
	eng.run(fn, "", nil)
	r.engine(eng)
	// a panic in the function runs the deferred calls only
	c31Deferred(p, r, fn)
}

func isParam(e *Engine, st *State, c *CallEv, fn *ssa.Function, i int) bool {
	if c.C.IsInvoke() || c.C.Value == nil {
		return false
	}
	if c.C.Value == ssa.Value(fn.Params[i]) {
		return true
	}
	if _, ok := c.C.Value.(*ssa.Function); ok {
		return false
	}
	if _, ok := c.C.Value.(*ssa.Builtin); ok {
		return false
	}
	if c.In == nil || c.In.Parent() == nil {
		return false
	}
	t := e.ev(st, c.C.Value)
	return t != nil && t.op == "param" && t.s == fn.Params[i].Name()+"@"+e.p.fnName(fn)
}

// c31Deferred: when the unlocking is deferred, the way back is deferred too.
func c31Deferred(p *Prog, r *Report, fn *ssa.Function) {
	deferred := func(name string) (found, direct bool) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				d, ok := in.(*ssa.Defer)
				if !ok {
					continue
				}
				if calleeName(&d.Call) == name {
					found, direct = true, true
				}
				f := d.Call.StaticCallee()
				if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
					f, _ = mc.Fn.(*ssa.Function)
				}
				if f != nil && len(f.Blocks) > 0 && c31Within(f, name) {
					found = true
				}
			}
		}
		return
	}
	_, unlock := deferred("runtime.UnlockOSThread")
	back, _ := deferred("golang.org/x/sys/unix.Setns")
	if unlock {
		r.check("thread", p.fnName(fn)+" panic", p.pos(fn.Pos()), back, "when the function panics the thread is unlocked without leaving the namespace", nil)
	}
}

// c31Bodies: nothing that runs in the namespace starts a goroutine, which would run elsewhere.
func c31Bodies(p *Prog, r *Report, fn *ssa.Function) {
	i := c31Callback(fn)
	if i < 0 {
		return
	}
	for _, c := range p.callersOf(fn) {
		args := c.Common().Args
		if i >= len(args) {
			continue
		}
		mc, _ := args[i].(*ssa.MakeClosure)
		var body *ssa.Function
		if mc != nil {
			body, _ = mc.Fn.(*ssa.Function)
		} else if f, ok := args[i].(*ssa.Function); ok {
			body = f
		}
		if body == nil || !p.inRepo(body) {
			continue
		}
		var at ssa.Instruction
		p.staticReach(body, func(f *ssa.Function) bool {
			if !p.inRepo(f) {
				return false
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if g, ok := in.(*ssa.Go); ok && at == nil {
						at = g
					}
				}
			}
			return true
		})
		pos := p.pos(body.Pos())
		if at != nil {
			pos = p.iPos(at)
		}
		r.check("body", p.fnName(body), pos, at == nil, "a goroutine started inside the namespace runs outside of it", nil)
	}
}

// c31Sockets: which sockets are made for others.
func c31Sockets(p *Prog, r *Report) {
	const sock = "golang.org/x/sys/unix.Socket"
	for _, fn := range p.funcs {
		if !p.inRepo(fn) || len(fn.Blocks) == 0 {
			continue
		}
		asked := hasCall(fn, func(c *ssa.CallCommon) bool {
			if calleeName(c) != sock {
				return false
			}
			_, k := c.Args[0].(*ssa.Const)
			return !k
		})
		if !asked {
			continue
		}
		// a helper that makes the socket is decided where the request is read
		entries := []*ssa.Function{fn}
		if len(fn.Params) > 0 {
			fromParam := false
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.Call); ok && calleeName(&c.Call) == sock {
						if q, ok := c.Call.Args[0].(*ssa.Parameter); ok && isIntT(q.Type()) {
							fromParam = true
						}
					}
				}
			}
			if fromParam {
				entries = nil
				seen := map[*ssa.Function]bool{}
				for _, c := range p.callersOf(fn) {
					if f := c.Parent(); !seen[f] {
						seen[f] = true
						entries = append(entries, f)
					}
				}
			}
		}
		for _, en := range entries {
			c31Kind(p, r, en)
		}
	}
}

func c31Kind(p *Prog, r *Report, fn *ssa.Function) {
	const sock = "golang.org/x/sys/unix.Socket"
	const extra = 0x80000 | 0x800 // SOCK_CLOEXEC, SOCK_NONBLOCK
	rule := &Rule{}
	rule.Event = func(f *ssa.Function) bool {
		return hasCall(f, func(c *ssa.CallCommon) bool { return calleeName(c) == sock })
	}
	rule.Inline = func(e *Engine, f *ssa.Function) bool {
		if e.hasEvent(f) || e.getInfo(f).size < 60 {
			return true
		}
		return f.Signature.Results().Len() == 1 && isBool(f.Signature.Results().At(0).Type())
	}
	// base strips the flags that do not matter
	var base func(t *Term) *Term
	base = func(t *Term) *Term {
		for t.op == "conv" && len(t.args) == 1 && isIntT(t.typ) {
			t = t.args[0]
		}
		if t.op == "bin" && len(t.args) == 2 && (t.s == "|" || t.s == "&^" || t.s == "&") {
			for i := range t.args {
				v, ok := t.args[1-i].intv()
				if !ok || t.s == "&^" && i == 1 {
					continue
				}
				if t.s == "&" {
					v = ^v
				}
				if v&^extra == 0 {
					return base(t.args[i])
				}
			}
		}
		return t
	}
	rule.Branch = func(e *Engine, st *State, in *ssa.If, atom *Term, val bool) {
		for atom.op == "not" {
			atom, val = atom.args[0], !val
		}
		if atom.isField("Unrestricted") && val {
			set(st, "free")
		}
		if atom.op == "bin" && atom.s == "==" && val {
			for i, a := range atom.args {
				if v, ok := atom.args[1-i].intv(); ok {
					set(st, "is:"+itoa(base(a).id)+":"+strconv.FormatInt(v, 10))
				}
			}
		}
	}
	rule.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
		if c.Name != sock || len(c.Args) != 3 {
			return nil
		}
		if _, k := c.Args[0].intv(); k {
			return nil
		}
		is := func(t *Term, vs ...int64) bool {
			b := base(t)
			if v, ok := b.intv(); ok {
				for _, w := range vs {
					if v == w {
						return true
					}
				}
				return false
			}
			for _, w := range vs {
				if has(st, "is:"+itoa(b.id)+":"+strconv.FormatInt(w, 10)) {
					return true
				}
			}
			return false
		}
		fam := is(c.Args[0], 2, 10)
		ok := fam && (is(c.Args[1], 1) && is(c.Args[2], 0, 6) || is(c.Args[1], 2) && is(c.Args[2], 0, 17))
		r.check("kind", p.fnName(fn), p.iPos(c.In), ok || has(st, "free"), "a socket of a kind that is not allowed is made for a client", st.path())
		return nil
	}
	e := newEngine(p, rule)
	e.run(fn, "", nil)
	r.engine(e)
}

// c31Received: descriptors that came with a message are closed or handed on.
func c31Received(p *Prog, r *Report) {
	const unix = "golang.org/x/sys/unix."
	for _, fn := range p.funcs {
		if !p.inRepo(fn) || len(fn.Blocks) == 0 || !hasCall(fn, func(c *ssa.CallCommon) bool { return calleeName(c) == unix+"Recvmsg" }) {
			continue
		}
		c31Recv(p, r, fn)
	}
}

func c31Recv(p *Prog, r *Report, fn *ssa.Function) {
	const unix = "golang.org/x/sys/unix."
	rule := &Rule{}
	rule.Inline = func(e *Engine, f *ssa.Function) bool {
		return e.getInfo(f).size < 150
	}
	name := p.fnName(fn)
	isList := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && isIntT(s.Elem())
	}
	rule.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
		switch c.Name {
		case unix + "Recvmsg":
			res := e.opaque(st, c, c.Args)
			yes, no := st.clone(), st
			isnil := e.T.bin(token.EQL, res[len(res)-1], e.T.nilT(), types.Typ[types.Bool])
			var outs []Outcome
			if e.assume(no, isnil, false) {
				outs = append(outs, Outcome{no, res})
			}
			if e.assume(yes, isnil, true) {
				set(yes, "got")
				outs = append(outs, Outcome{yes, res})
			}
			return outs
		case unix + "ParseSocketControlMessage":
			set(st, "parsed")
		case unix + "ParseUnixRights":
			res := e.opaque(st, c, c.Args)
			yes, no := st.clone(), st
			isnil := e.T.bin(token.EQL, res[len(res)-1], e.T.nilT(), types.Typ[types.Bool])
			var outs []Outcome
			if e.assume(no, isnil, false) {
				outs = append(outs, Outcome{no, res})
			}
			if e.assume(yes, isnil, true) {
				set(yes, "holds")
				outs = append(outs, Outcome{yes, res})
			}
			return outs
		}
		return nil
	}
	// the loop that closes them is passed, even when it has nothing to do
	closes := map[*ssa.BasicBlock]string{}
	fns := append([]*ssa.Function{fn}, fn.AnonFuncs...)
	for _, f := range p.funcs {
		if p.inRepo(f) && p.staticCalls(fn, f) {
			fns = append(fns, f)
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || calleeName(&c.Call) != unix+"Close" || len(c.Call.Args) != 1 {
					continue
				}
				u, ok := c.Call.Args[0].(*ssa.UnOp)
				if !ok {
					continue
				}
				ia, ok := u.X.(*ssa.IndexAddr)
				if !ok || !isList(ia.X.Type()) {
					continue
				}
				kind := "all"
				if s, ok := ia.X.(*ssa.Slice); ok && s.Low != nil {
					if k, ok := s.Low.(*ssa.Const); ok && k.Value != nil && k.Int64() == 1 && s.High == nil {
						kind = "rest"
					} else {
						kind = ""
					}
				} else if first := c31From(ia); first == 1 {
					kind = "rest"
				} else if first != 0 {
					kind = ""
				}
				l := c31Loop(b)
				if kind == "" || l == nil {
					continue
				}
				// every element: the close is not skipped inside the loop
				if c31Skipped(l, b) {
					continue
				}
				closes[l] = kind
			}
		}
	}
	rule.Instr = func(e *Engine, st *State, in ssa.Instruction) {
		if k := closes[in.Block()]; k != "" && in == in.Block().Instrs[len(in.Block().Instrs)-1] && has(st, "parsed") {
			set(st, "closed:"+k)
		}
	}
	rule.Branch = func(e *Engine, st *State, in *ssa.If, atom *Term, val bool) {
		for atom.op == "not" {
			atom, val = atom.args[0], !val
		}
		if atom.op != "bin" || !has(st, "parsed") {
			return
		}
		for i, a := range atom.args {
			if a.op != "len" || a.args[0].typ == nil || !isList(a.args[0].typ) {
				continue
			}
			v, ok := atom.args[1-i].intv()
			if !ok {
				continue
			}
			switch {
			case atom.s == "==" && v == 0 && val,
				atom.s == "<" && i == 0 && v == 1 && val,
				atom.s == "<" && i == 1 && v == 0 && !val:
				set(st, "closed:all")
			case atom.s == "==" && v == 1 && val:
				set(st, "closed:rest")
			}
		}
	}
	rule.Return = func(e *Engine, st *State, in *ssa.Return, res []*Term) {
		if !has(st, "got") {
			return
		}
		failed := false
		if n := len(res); n > 1 {
			if isnil, known := e.isNil(st, res[n-1]); known && !isnil {
				failed = true
			}
		}
		handed := false
		if len(res) > 0 && !failed {
			v := res[0]
			if !v.isConst() && isIntT(v.typ) {
				handed = true
			}
			if res[0].typ != nil && isList(res[0].typ) {
				handed = true
				set(st, "closed:rest")
			}
		}
		msg := ""
		switch {
		case !has(st, "parsed"):
			msg = "descriptors that came with the message are not looked at"
		case has(st, "closed:all"), !has(st, "holds"):
		case handed && has(st, "closed:rest"):
		case handed:
			msg = "descriptors beyond the one that is handed on stay open"
		default:
			msg = "the descriptors that came with the message stay open"
		}
		r.check("received", name, p.iPos(in), msg == "", msg, st.path())
	}
	e := newEngine(p, rule)
	e.run(fn, "", nil)
	r.engine(e)
}

// c31From: the index a loop over a list starts at (-1 when it cannot be told).
func c31From(ia *ssa.IndexAddr) int64 {
	idx := ia.Index
	off := int64(0)
	if b, ok := idx.(*ssa.BinOp); ok && b.Op == token.ADD {
		if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil {
			off, idx = k.Int64(), b.X
		}
	}
	phi, ok := idx.(*ssa.Phi)
	if !ok {
		return -1
	}
	for _, v := range phi.Edges {
		if k, ok := v.(*ssa.Const); ok && k.Value != nil {
			return k.Int64() + off
		}
	}
	return -1
}

// c31Loop: the head of the loop around a block.
func c31Loop(b *ssa.BasicBlock) *ssa.BasicBlock {
	for h := b; h != nil; h = h.Idom() {
		for _, q := range h.Preds {
			if h.Dominates(q) && (q == b || reachableAvoiding2(b, q, h)) {
				return h
			}
		}
	}
	return nil
}

// c31Skipped: a round of the loop can pass without the block.
func c31Skipped(head, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{b: true, head: true}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == head && x != head {
				return true
			}
			if !seen[s] && head.Dominates(s) && c31Reaches(s, head) {
				seen[s] = true
				if rec(s) {
					return true
				}
			}
		}
		return false
	}
	return rec(head)
}

func c31Reaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if rec(s) {
				return true
			}
		}
		return false
	}
	return rec(from)
}
