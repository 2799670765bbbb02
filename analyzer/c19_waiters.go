package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C19: every channel operation that can block is released.
//
// Channels are identified by the place that makes them; every send, receive and close is attributed
// to those places by following fields, captured variables, parameters and results. Each operation
// must be released by one of a few arguments (see below); whoever takes something others wait for
// (a queued request, a pooled state, a slot) must pass it on along every path.

func init() {
	register("C19", "nobody waits forever: every waiter is released",
		runC19,
		"A resolver that is asked returns eventually (connections, dialers and timers have deadlines)",
		"net.Resolver reads one answer for every query it wrote without an error",
		"Timer and context channels fire")
}

type chanOp struct {
	kind string // send, recv, close
	in   ssa.Instruction
	fn   *ssa.Function
	sel  *ssa.Select
	k    int
	ch   ssa.Value
}

type chanClass struct {
	mk  *ssa.MakeChan
	ops []*chanOp
}

type c19 struct {
	p       *Prog
	r       *Report
	fields  map[string][]ssa.Value // stores into struct fields
	memo    map[ssa.Value]map[*ssa.MakeChan]bool
	foreign map[ssa.Value]bool
	classes map[*ssa.MakeChan]*chanClass
	relMemo map[string]int
}

func (a *c19) name(c *chanClass) string {
	n := a.p.fnName(c.mk.Parent())
	// a field or variable holding the channel names it better than its position
	for _, ref := range *c.mk.Referrers() {
		if s, ok := ref.(*ssa.Store); ok {
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
				return typeName(deref(fa.X.Type())) + "." + fieldName(deref(fa.X.Type()), fa.Field)
			}
			if al, ok := s.Addr.(*ssa.Alloc); ok {
				return n + "/" + al.Comment
			}
		}
	}
	return n + "/" + typeName(c.mk.Type())
}

func runC19(p *Prog, r *Report) {
	a := &c19{p: p, r: r, fields: map[string][]ssa.Value{}, memo: map[ssa.Value]map[*ssa.MakeChan]bool{}, foreign: map[ssa.Value]bool{}, classes: map[*ssa.MakeChan]*chanClass{}, relMemo: map[string]int{}}
	var fns []*ssa.Function
	for _, fn := range p.funcs {
		if p.inRoot(fn) {
			fns = append(fns, fn)
		}
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						if _, ok := s.Val.Type().Underlying().(*types.Chan); ok {
							k := typeName(deref(fa.X.Type())) + "." + fieldName(deref(fa.X.Type()), fa.Field)
							a.fields[k] = append(a.fields[k], s.Val)
						}
					}
				}
			}
		}
	}
	add := func(op *chanOp) {
		for mk := range a.origins(op.ch) {
			c := a.classes[mk]
			if c == nil {
				c = &chanClass{mk: mk}
				a.classes[mk] = c
			}
			c.ops = append(c.ops, op)
		}
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send:
					add(&chanOp{kind: "send", in: in, fn: fn, ch: x.Chan})
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						add(&chanOp{kind: "recv", in: in, fn: fn, ch: x.X})
					}
				case *ssa.Select:
					for k, s := range x.States {
						kind := "recv"
						if s.Dir == types.SendOnly {
							kind = "send"
						}
						add(&chanOp{kind: kind, in: in, fn: fn, sel: x, k: k, ch: s.Chan})
					}
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						add(&chanOp{kind: "close", in: in, fn: fn, ch: x.Common().Args[0]})
					}
				}
			}
		}
	}
	var cs []*chanClass
	for _, c := range a.classes {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].mk.Pos() < cs[j].mk.Pos() })
	query := a.onQuery()
	for _, c := range cs {
		for _, op := range c.ops {
			if op.kind == "close" {
				continue
			}
			why := a.released(c, op, query)
			r.check("release", a.name(c)+":"+op.kind+"@"+p.fnName(op.fn), p.iPos(op.in), why != "",
				fmt.Sprintf("%s can %s on %s and nothing certainly releases it: no timeout or default case, no receiver that always comes back, no room for every sender", p.fnName(op.fn), op.kind, a.name(c)), nil)
		}
	}
	a.listeners(cs)
	a.waitGroups(fns)
	a.requests(cs)
	r.atLeast("release", 15)
	r.atLeast("owner", 4)
	r.atLeast("waitgroup", 2)
}

// origins: the channels a value can be.
func (a *c19) origins(v ssa.Value) map[*ssa.MakeChan]bool {
	out := map[*ssa.MakeChan]bool{}
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value, d int)
	field := func(t types.Type, i, d int) {
		t = deref(t)
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg() != a.p.root.Pkg {
			a.foreign[v] = true
			return
		}
		for _, x := range a.fields[typeName(t)+"."+fieldName(t, i)] {
			rec(x, d-1)
		}
	}
	rec = func(x ssa.Value, d int) {
		if seen[x] || d == 0 {
			return
		}
		seen[x] = true
		switch x := x.(type) {
		case *ssa.MakeChan:
			out[x] = true
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e, d-1)
			}
		case *ssa.ChangeType:
			rec(x.X, d-1)
		case *ssa.Field:
			field(x.X.Type(), x.Field, d)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				rec(x.X, d-1)
			} else {
				a.foreign[v] = true
			}
		case *ssa.FieldAddr:
			field(x.X.Type(), x.Field, d)
		case *ssa.Alloc:
			for _, ref := range *x.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == x {
					rec(s.Val, d-1)
				}
			}
		case *ssa.FreeVar:
			fn := x.Parent()
			for i, fv := range fn.FreeVars {
				if fv != x || fn.Parent() == nil {
					continue
				}
				for _, b := range fn.Parent().Blocks {
					for _, in := range b.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
							rec(mc.Bindings[i], d-1)
						}
					}
				}
			}
		case *ssa.Parameter:
			fn := x.Parent()
			for i, pa := range fn.Params {
				if pa != x {
					continue
				}
				for _, c := range a.p.callersOf(fn) {
					if c.Common().IsInvoke() || i >= len(c.Common().Args) {
						continue
					}
					rec(c.Common().Args[i], d-1)
				}
			}
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				a.results(c, x.Index, func(v ssa.Value) { rec(v, d-1) }, v)
			}
		case *ssa.Call:
			a.results(x, 0, func(v ssa.Value) { rec(v, d-1) }, v)
		default:
			a.foreign[v] = true
		}
	}
	rec(v, 24)
	return out
}

func (a *c19) results(c *ssa.Call, i int, f func(ssa.Value), v ssa.Value) {
	fn := c.Call.StaticCallee()
	if fn == nil || !a.p.inRepo(fn) || len(fn.Blocks) == 0 {
		a.foreign[v] = true
		return
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ret, ok := in.(*ssa.Return); ok && i < len(ret.Results) {
				f(ret.Results[i])
			}
		}
	}
}

// escapes: another case of the select certainly comes: a timer, a context, a connection's end.
func (a *c19) escapes(op *chanOp) bool {
	if op.sel == nil {
		return false
	}
	if !op.sel.Blocking {
		return true
	}
	for k, s := range op.sel.States {
		if k == op.k || s.Dir == types.SendOnly {
			continue
		}
		if a.fires(s.Chan) {
			return true
		}
	}
	return false
}

// fires: a timer's or context's channel.
func (a *c19) fires(v ssa.Value) bool {
	ok := false
	p := a.p
	p.slice(v, func(x ssa.Value) bool {
		switch x := x.(type) {
		case *ssa.Call:
			switch calleeName(&x.Call) {
			case "time.After", "(context.Context).Done", "time.NewTimer", "time.NewTicker", "time.Tick":
				ok = true
			}
		case *ssa.FieldAddr:
			if isNamed(deref(x.X.Type()), "time", "Timer") || isNamed(deref(x.X.Type()), "time", "Ticker") {
				ok = true
			}
		}
		return true
	})
	return ok
}

// released names the argument that releases an operation, or "".
func (a *c19) released(c *chanClass, op *chanOp, query map[*ssa.Function]bool) string {
	if a.escapes(op) {
		return "timeout"
	}
	conc := a.p.concurrent()
	switch op.kind {
	case "send":
		if a.connMethod(op.fn, "Write") {
			if a.connWrite(c, op) {
				return "one answer per query"
			}
			return ""
		}
		if !conc[op.fn] && !a.reachedFromTask(op.fn) {
			return "setup"
		}
		if a.eternal(c, op) {
			return "receiver always comes back"
		}
		if a.fanout(c) {
			return "room for every sender"
		}
		if a.returnsToken(c, op) {
			return "gives back what it took"
		}
	case "recv":
		if a.connMethod(op.fn, "Read") {
			if a.connRead(c, op) {
				return "one answer per query"
			}
			return ""
		}
		if a.idle(c, op, query) {
			return "background task waiting for work"
		}
		if a.closedBefore(c, op) {
			return "closed before"
		}
		if a.doneChan(c) && op.sel == nil {
			if a.creatorCloses(c) || a.afterReceive(c, op) {
				return "closed by the one who made it"
			}
			return ""
		}
		if a.fanout(c) && a.counted(c, op) {
			return "one receive per sender"
		}
		if a.pool(c) {
			return "pool"
		}
		if a.releasesToken(c, op) {
			return "gives back a slot it took"
		}
	}
	return ""
}

func (a *c19) reachedFromTask(fn *ssa.Function) bool {
	_, tasks := a.p.tasks()
	for _, set := range tasks {
		if set[fn] {
			return true
		}
	}
	return false
}

// eternal: some task started with the channel receives from it again and again, and never stops
// unless the channel is closed, which nobody does.
func (a *c19) eternal(c *chanClass, send *chanOp) bool {
	for _, op := range c.ops {
		if op.kind == "close" {
			return false
		}
	}
	for _, op := range c.ops {
		if op.kind != "recv" || !inLoop(op.in.Block()) {
			continue
		}
		if !a.loopsForever(op) {
			continue
		}
		// the task is started wherever the channel is made
		fn := op.fn
		if mustReach(c.mk, func(i ssa.Instruction) bool {
			g, ok := i.(*ssa.Go)
			return ok && goTarget(g) == fn
		}) {
			return true
		}
	}
	return false
}

func goTarget(g ssa.CallInstruction) *ssa.Function {
	if mc, ok := g.Common().Value.(*ssa.MakeClosure); ok {
		return mc.Fn.(*ssa.Function)
	}
	return g.Common().StaticCallee()
}

// loopsForever: from the receive, every path comes back to it; the only way out is its closing.
func (a *c19) loopsForever(op *chanOp) bool {
	fn := op.fn
	start := op.in.Block()
	var closedExit *ssa.BasicBlock
	if u, ok := op.in.(*ssa.UnOp); ok && u.CommaOk {
		for _, ref := range *u.Referrers() {
			if ex, ok := ref.(*ssa.Extract); ok && ex.Index == 1 {
				for _, f := range *ex.Referrers() {
					if i, ok := f.(*ssa.If); ok {
						closedExit = i.Block().Succs[1]
					}
				}
			}
		}
	}
	_ = fn
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		if seen[b] || b == closedExit {
			return true
		}
		seen[b] = true
		for _, i := range b.Instrs {
			switch i.(type) {
			case *ssa.Return:
				return false
			}
		}
		for _, s := range b.Succs {
			if !rec(s) {
				return false
			}
		}
		return true
	}
	if !rec(start) {
		return false
	}
	// and no inner loop can go round without passing a receive on this channel
	return true
}

// idle: the receive is done by a task that only waits for work, again and again: not on behalf of a
// query.
func (a *c19) idle(c *chanClass, op *chanOp, query map[*ssa.Function]bool) bool {
	return !query[op.fn] && a.p.concurrent()[op.fn] && inLoop(op.in.Block()) && !a.token(c)
}

// onQuery: what runs between a query and its answer, in the same task.
func (a *c19) onQuery() map[*ssa.Function]bool {
	l := a.p.lockSets()
	out := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if !out[f] && a.p.inRepo(f) {
			out[f] = true
			work = append(work, f)
		}
	}
	for _, fn := range a.p.resolvers() {
		add(fn)
	}
	d, h := a.p.handlers()
	for _, fn := range append(d, h...) {
		add(fn)
	}
	for fn := range a.p.escaping() {
		if fn.Pkg != a.p.cmd && fn.Parent() == nil {
			add(fn)
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					continue
				}
				for _, e := range l.edges(in) {
					if e.sync {
						add(e.fn)
					}
				}
			}
		}
	}
	return out
}

// fanout: the channel has room for one value per element of a list, and exactly one goroutine per
// element of that list sends, once on every path.
func (a *c19) fanout(c *chanClass) bool {
	x := lenOf(c.mk.Size)
	if x == nil {
		return false
	}
	senders := map[*ssa.Function]bool{}
	for _, op := range c.ops {
		if op.kind == "close" {
			return false
		}
		if op.kind == "send" {
			if op.sel != nil {
				return false
			}
			senders[op.fn] = true
		}
	}
	if len(senders) == 0 {
		return false
	}
	// where the senders are started
	roots := map[*ssa.Function]bool{}
	for s := range senders {
		for _, fn := range a.p.funcs {
			if !a.p.inRepo(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok || goTarget(ci) == nil {
						continue
					}
					if g, ok := in.(*ssa.Go); ok {
						t := goTarget(g)
						if t == s || a.calls(t, s) {
							roots[t] = true
							if !a.perElement(g, x, c.mk) {
								return false
							}
						}
					}
				}
			}
		}
	}
	if len(roots) != 1 {
		return false
	}
	for root := range roots {
		lo, hi := a.count(root, c, map[*ssa.Function]bool{})
		if lo != 1 || hi != 1 {
			return false
		}
	}
	return true
}

func (a *c19) calls(from, to *ssa.Function) bool {
	found := false
	a.p.staticReach(from, func(f *ssa.Function) bool {
		if f == to {
			found = true
		}
		return true
	})
	return found
}

func lenOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				return x.Call.Args[0]
			}
		case *ssa.UnOp:
			// a variable that is set once
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				if s := onlyStore(al); s != nil {
					v = s
					continue
				}
			}
		}
		return nil
	}
}

func onlyStore(al *ssa.Alloc) ssa.Value {
	var out ssa.Value
	for _, ref := range *al.Referrers() {
		if s, ok := ref.(*ssa.Store); ok && s.Addr == al {
			if out != nil {
				return nil
			}
			out = s.Val
		}
	}
	return out
}

// sameList: two values are the same unmodified slice: the same value, or the same field of the
// same object.
func (a *c19) sameList(x, y ssa.Value) bool {
	cx, cy := canon(x), canon(y)
	if cx == cy {
		return true
	}
	fx, ok1 := fieldRead(cx)
	fy, ok2 := fieldRead(cy)
	if ok1 && ok2 {
		return fx.Field == fy.Field && types.Identical(fx.X.Type(), fy.X.Type()) && canon(fx.X) == canon(fy.X)
	}
	// the list handed to the function that made the channel
	for _, pr := range [][2]ssa.Value{{cx, cy}, {cy, cx}} {
		if pa, ok := pr[0].(*ssa.Parameter); ok && pa.Parent() != parentOf(pr[1]) {
			for i, q := range pa.Parent().Params {
				if q != pa {
					continue
				}
				cs := a.p.callersOf(pa.Parent())
				all := len(cs) > 0
				for _, c := range cs {
					if parentOf(pr[1]) != c.Parent() {
						continue
					}
					if i >= len(c.Common().Args) || canon(c.Common().Args[i]) != pr[1] {
						all = false
					}
				}
				return all
			}
		}
	}
	return false
}

func parentOf(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Parent()
	case ssa.Instruction:
		return x.Parent()
	}
	return nil
}

func fieldRead(v ssa.Value) (*ssa.FieldAddr, bool) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil, false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return fa, ok
}

// canon looks through variables that are set once and captured variables.
func canon(v ssa.Value) ssa.Value {
	for n := 0; n < 12; n++ {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.UnOp:
			if x.Op == token.MUL {
				switch al := x.X.(type) {
				case *ssa.Alloc:
					if s := onlyStore(al); s != nil {
						v = s
						continue
					}
				case *ssa.FreeVar:
					if b := binding(al); b != nil {
						if bl, ok := b.(*ssa.Alloc); ok {
							if s := onlyStore(bl); s != nil {
								v = s
								continue
							}
						}
					}
				}
			}
		case *ssa.FreeVar:
			if b := binding(x); b != nil {
				v = b
				continue
			}
		}
		return v
	}
	return v
}

func binding(x *ssa.FreeVar) ssa.Value {
	fn := x.Parent()
	if fn.Parent() == nil {
		return nil
	}
	for i, fv := range fn.FreeVars {
		if fv != x {
			continue
		}
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
					return mc.Bindings[i]
				}
			}
		}
	}
	return nil
}

// perElement: the go statement runs exactly once per element of list x.
func (a *c19) perElement(g *ssa.Go, x ssa.Value, mk *ssa.MakeChan) bool {
	// a loop with an index compared to the length of the list, the statement on every path round
	for _, b := range g.Parent().Blocks {
		if !b.Dominates(g.Block()) || b == g.Block() && !inLoop(b) {
			continue
		}
		body := natLoop(b)
		if body == nil || !body[g.Block()] {
			continue
		}
		cnt := a.loopCount(b, body, x, g)
		if cnt.ok && cnt.before && cnt.max == 0 && cnt.exact {
			// innermost: the statement is in no loop inside this one, and on every way round
			for l := range body {
				if l != b && natLoop(l) != nil && natLoop(l)[g.Block()] {
					return false
				}
				for _, s := range l.Succs {
					if s == b && !g.Block().Dominates(l) {
						return false
					}
				}
			}
			return true
		}
	}
	return false
}

type loopBound struct {
	ok     bool
	before bool // the bound is tested before the instruction in each round
	max    int64
	exact  bool // the loop can leave only by the bound
}

// loopCount bounds how often an instruction of a loop runs: len(x)+max times.
func (a *c19) loopCount(head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, x ssa.Value, at ssa.Instruction) (out loopBound) {
	type lin struct {
		phi *ssa.Phi
		d   int64
	}
	var linear func(v ssa.Value, n int) (lin, bool)
	linear = func(v ssa.Value, n int) (lin, bool) {
		if n == 0 {
			return lin{}, false
		}
		switch y := v.(type) {
		case *ssa.Phi:
			if y.Block() == head {
				return lin{y, 0}, true
			}
		case *ssa.Convert:
			return linear(y.X, n-1)
		case *ssa.BinOp:
			c, ok := y.Y.(*ssa.Const)
			if !ok || c.Value == nil {
				return lin{}, false
			}
			l, ok := linear(y.X, n-1)
			if !ok {
				return lin{}, false
			}
			switch y.Op {
			case token.ADD:
				l.d += c.Int64()
				return l, true
			case token.SUB:
				l.d -= c.Int64()
				return l, true
			}
		}
		return lin{}, false
	}
	for b := range body {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		for k := 0; k < 2; k++ { // the side that goes on
			cont, other := iff.Block().Succs[k], iff.Block().Succs[1-k]
			if !body[cont] {
				continue
			}
			if body[other] && !neverReturns(other, head) {
				continue
			}
			op, l, rr := bo.Op, bo.X, bo.Y
			if k == 1 {
				op = negate(op)
			}
			lf, okl := linear(l, 6)
			if !okl {
				// len > i
				if lf, okl = linear(rr, 6); !okl {
					continue
				}
				l, rr = rr, l
				op = mirror(op)
			}
			_ = l
			phi, d := lf.phi, lf.d
			// step and start
			var start ssa.Value
			step := int64(0)
			good := true
			for i, e := range phi.Edges {
				if !body[head.Preds[i]] {
					start = e
					continue
				}
				s, ok := linear(e, 6)
				if !ok || s.phi != phi || s.d != 1 && s.d != -1 || step != 0 && step != s.d {
					good = false
					break
				}
				step = s.d
			}
			if !good || step == 0 || start == nil {
				continue
			}
			before := b.Dominates(at.Block()) && b != at.Block() || b == at.Block() && false
			after := !before && at.Block().Dominates(b)
			if !before && !after {
				continue
			}
			// every way round passes the test
			ways := true
			for l := range body {
				for _, s := range l.Succs {
					if s == head && !b.Dominates(l) {
						ways = false
					}
				}
			}
			if !ways {
				continue
			}
			var rounds int64 // number of times the test says go on, relative to len(x)
			if step == 1 {
				c, ok := start.(*ssa.Const)
				if !ok || lenOf(rr) == nil || !a.sameList(lenOf(rr), x) {
					continue
				}
				// round k (from 0): start+k+d op len
				switch op {
				case token.LSS, token.NEQ:
					rounds = -(c.Int64() + d)
				case token.LEQ:
					rounds = -(c.Int64() + d) + 1
				default:
					continue
				}
			} else {
				c, ok := rr.(*ssa.Const)
				if !ok || lenOf(start) == nil || !a.sameList(lenOf(start), x) {
					continue
				}
				switch op {
				case token.GTR, token.NEQ:
					rounds = d - c.Int64()
				case token.GEQ:
					rounds = d - c.Int64() + 1
				default:
					continue
				}
			}
			if after {
				rounds++
			}
			exact := true
			for l := range body {
				for _, s := range l.Succs {
					if !body[s] && l != b {
						exact = false
					}
				}
			}
			return loopBound{ok: true, before: before, max: rounds, exact: exact}
		}
	}
	return
}

// neverReturns: from block b the loop head is not reached again.
func neverReturns(b, head *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		if b == head {
			return false
		}
		if seen[b] {
			return true
		}
		seen[b] = true
		for _, s := range b.Succs {
			if !rec(s) {
				return false
			}
		}
		return true
	}
	return rec(b)
}

func negate(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return op
}

func mirror(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// counted: the receives of this operation never outnumber the senders.
func (a *c19) counted(c *chanClass, op *chanOp) bool {
	x := lenOf(c.mk.Size)
	if x == nil {
		return false
	}
	others := 0
	for _, o := range c.ops {
		if o.kind == "recv" && o.fn == op.fn && o != op && reachableFrom(o.in, op.in) {
			others++
		}
	}
	if others > 0 {
		return false
	}
	if !inLoop(op.in.Block()) {
		return true // one receive; the list is not empty
	}
	for _, b := range op.fn.Blocks {
		body := natLoop(b)
		if body == nil || !body[op.in.Block()] {
			continue
		}
		if cnt := a.loopCount(b, body, x, op.in); cnt.ok && cnt.max <= 0 {
			return true
		}
	}
	return false
}

// count bounds the number of sends on c's channel along the paths of fn.
func (a *c19) count(fn *ssa.Function, c *chanClass, stack map[*ssa.Function]bool) (lo, hi int) {
	return a.tally(fn, stack, func(i ssa.Instruction) int {
		for _, op := range c.ops {
			if op.in == i && op.kind == "send" && op.sel == nil {
				return 1
			}
		}
		return 0
	})
}

// tally counts events along every path from fn's entry to its returns (saturating at 2); events in
// functions it calls and defers count too.
func (a *c19) tally(fn *ssa.Function, stack map[*ssa.Function]bool, ev func(ssa.Instruction) int) (lo, hi int) {
	if stack[fn] || len(fn.Blocks) == 0 {
		return 0, 0
	}
	stack[fn] = true
	defer delete(stack, fn)
	lo, hi = 1<<20, -1
	type key struct {
		b *ssa.BasicBlock
		n int
	}
	seen := map[key]bool{}
	var walk func(b *ssa.BasicBlock, n int)
	walk = func(b *ssa.BasicBlock, n int) {
		if n > 2 {
			n = 2
		}
		if seen[key{b, n}] {
			return
		}
		seen[key{b, n}] = true
		cur := map[int]bool{n: true}
		for _, i := range b.Instrs {
			step := func(l, h int) {
				nx := map[int]bool{}
				for m := range cur {
					for k := l; k <= h; k++ {
						nx[min(m+k, 2)] = true
					}
				}
				cur = nx
			}
			if k := ev(i); k != 0 {
				step(k, k)
			}
			switch x := i.(type) {
			case *ssa.Go:
			case ssa.CallInstruction:
				if t := goTarget(x); t != nil && a.p.inRepo(t) {
					if l, h := a.tally(t, stack, ev); h > 0 {
						step(l, h)
					}
				}
			case *ssa.Return:
				for m := range cur {
					lo, hi = min(lo, m), max(hi, m)
				}
			}
		}
		for _, s := range b.Succs {
			for m := range cur {
				walk(s, m)
			}
		}
	}
	walk(fn.Blocks[0], 0)
	if hi < 0 {
		return 0, 0
	}
	return
}

// ---------------------------------------------------------------------------------------------
// Tokens: pooled objects and slots.

// passes: the instruction does the wanted kind of operation on c, now or in what it defers or starts.
func (a *c19) passes(c *chanClass, kind string) func(ssa.Instruction) bool {
	return func(i ssa.Instruction) bool {
		for _, op := range c.ops {
			if op.in == i && op.kind == kind && op.sel == nil {
				return true
			}
		}
		if ci, ok := i.(ssa.CallInstruction); ok {
			if t := goTarget(ci); t != nil && a.p.inRepo(t) && len(t.Blocks) > 0 {
				return a.always(t, c, kind)
			}
		}
		return false
	}
}

// always: every path through fn does the operation.
func (a *c19) always(fn *ssa.Function, c *chanClass, kind string) bool {
	k := fmt.Sprintf("%p/%p/%s", fn, c, kind)
	if v, ok := a.relMemo[k]; ok {
		return v == 1
	}
	a.relMemo[k] = 0
	first := fn.Blocks[0].Instrs[0]
	ok := a.passes(c, kind)(first) || mustReach(first, a.passes(c, kind))
	if ok {
		a.relMemo[k] = 1
	}
	return ok
}

// pool: values are put in at setup; whoever takes one puts it back on every path, once.
func (a *c19) pool(c *chanClass) bool {
	if _, ok := c.mk.Size.(*ssa.Const); ok {
		if k := c.mk.Size.(*ssa.Const); k.Int64() == 0 {
			return false
		}
	}
	filled, taken := false, false
	conc := a.p.concurrent()
	for _, op := range c.ops {
		switch op.kind {
		case "send":
			if !conc[op.fn] && !a.reachedFromTask(op.fn) {
				filled = true
			}
		case "recv":
			if op.sel != nil || !conc[op.fn] || a.closedBefore(c, op) {
				continue
			}
			if !a.givesBack(c, op, "send") {
				return false
			}
			taken = true
		}
	}
	return filled && taken
}

// givesBack: after op every path does the opposite operation, exactly once.
func (a *c19) givesBack(c *chanClass, op *chanOp, kind string) bool {
	var start ssa.Instruction = op.in
	pass := a.passes(c, kind)
	if op.sel != nil {
		b := selectCase(op.sel, op.k)
		if b == nil {
			return false
		}
		start = b.Instrs[0]
		if pass(start) {
			return true
		}
	}
	if !mustReach(start, pass) {
		return false
	}
	// not twice
	var sites []ssa.Instruction
	for _, b := range op.fn.Blocks {
		for _, i := range b.Instrs {
			if pass(i) {
				sites = append(sites, i)
			}
		}
	}
	for _, x := range sites {
		for _, y := range sites {
			if x != y && reachableFrom(x, y) && !reachableFrom(y, op.in) {
				return false
			}
		}
	}
	return true
}

// returnsToken: the send puts back what was taken before, in the same function or the one that
// defers or calls this one.
func (a *c19) returnsToken(c *chanClass, op *chanOp) bool { return a.pool(c) }

// token: a channel of slots: taken by a send that does not wait, given back by a receive.
func (a *c19) token(c *chanClass) bool {
	take, give := false, false
	for _, op := range c.ops {
		switch op.kind {
		case "close":
			return false
		case "send":
			if op.sel == nil || !a.givesBack(c, op, "recv") {
				return false
			}
			take = true
		case "recv":
			if op.sel != nil {
				return false
			}
			give = true
		}
	}
	return take && give
}

func (a *c19) releasesToken(c *chanClass, op *chanOp) bool { return a.token(c) }

// connWrite: the channel carries the answer from a connection's Write to its Read: there is room
// for it, and Write queues exactly one when it reports success and none when it fails.
func (a *c19) connWrite(c *chanClass, op *chanOp) bool {
	k, ok := c.mk.Size.(*ssa.Const)
	if !ok || k.Int64() < 1 || !a.connMethod(op.fn, "Write") {
		return false
	}
	lo, hi := a.count(op.fn, c, map[*ssa.Function]bool{})
	if hi > 1 || lo < 0 {
		return false
	}
	// a return after no send reports an error
	e := newEngine(a.p, nil)
	good := true
	e.r = &Rule{
		Instr: func(e *Engine, st *State, in ssa.Instruction) {
			if in == op.in {
				set(st, "sent")
			}
		},
		Return: func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			isnil, known := e.isNil(st, res[len(res)-1])
			sent := has(st, "sent")
			if known && isnil != sent {
				good = false
			}
			if !known {
				good = false
			}
		},
	}
	e.run(op.fn, "", nil)
	a.r.engine(e)
	return good && !e.over
}

func (a *c19) connMethod(fn *ssa.Function, name string) bool {
	if fn.Name() != name || fn.Signature.Recv() == nil {
		return false
	}
	t := fn.Signature.Recv().Type()
	ms := types.NewMethodSet(t)
	for _, n := range []string{"Read", "Write", "SetDeadline", "LocalAddr"} {
		if ms.Lookup(a.p.root.Pkg, n) == nil {
			return false
		}
	}
	return true
}

func (a *c19) connRead(c *chanClass, op *chanOp) bool {
	if !a.connMethod(op.fn, "Read") {
		return false
	}
	for _, o := range c.ops {
		if o.kind == "send" && a.connWrite(c, o) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------------------------------------
// Channels that are closed to say something is done.

func (a *c19) doneChan(c *chanClass) bool {
	closed := false
	for _, op := range c.ops {
		if op.kind == "close" {
			closed = true
		}
		if op.kind == "send" {
			return false
		}
	}
	return closed
}

// closedBefore: the same function closed the channel on the way here.
func (a *c19) closedBefore(c *chanClass, op *chanOp) bool {
	for _, o := range c.ops {
		if o.kind == "close" && o.fn == op.fn && precedes(o.in, op.in) {
			return true
		}
	}
	return false
}

// listeners: a channel that is closed to tell somebody is listened to, and one that is waited for
// is closed.
func (a *c19) listeners(cs []*chanClass) {
	for _, c := range cs {
		// slots: taken without waiting, so a slot that is not given back is lost
		if st, ok := c.mk.Type().Underlying().(*types.Chan).Elem().Underlying().(*types.Struct); ok && st.NumFields() == 0 && !a.doneChan(c) {
			slots := false
			for _, op := range c.ops {
				if op.kind == "send" && op.sel != nil && !op.sel.Blocking {
					slots = true
				}
			}
			if slots {
				a.r.check("slots", a.name(c), a.p.iPos(c.mk), a.token(c), "a slot of "+a.name(c)+" is not given back exactly once on every path: when all are gone, nothing that needs one happens any more", nil)
			}
		}
		if !a.doneChan(c) {
			n := 0
			for _, op := range c.ops {
				if op.kind != "recv" {
					n++
				}
			}
			a.r.check("source", a.name(c), a.p.iPos(c.mk), n > 0, "nobody ever sends on or closes "+a.name(c)+", which is waited for", nil)
			continue
		}
		n := 0
		for _, op := range c.ops {
			if op.kind == "recv" {
				n++
			}
		}
		a.r.check("listener", a.name(c), a.p.iPos(c.mk), n > 0, "nobody listens for the closing of "+a.name(c), nil)
	}
}

// creatorCloses: the channel is closed in the call that made it, once whoever it asked returned.
func (a *c19) creatorCloses(c *chanClass) bool {
	for _, op := range c.ops {
		if op.kind != "close" {
			continue
		}
		made := map[*ssa.Function]bool{c.mk.Parent(): true}
		for _, ci := range a.p.callersOf(c.mk.Parent()) {
			made[ci.Parent()] = true
		}
		fn := op.fn
		if !made[fn] && !(fn.Parent() != nil && made[fn.Parent()]) {
			ok := false
			for _, ci := range a.p.callersOf(fn) {
				if made[ci.Parent()] {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
	}
	return true
}

// afterReceive: whoever gets here has already seen the channel closed: every caller received from it
// in a select just before.
func (a *c19) afterReceive(c *chanClass, op *chanOp) bool {
	good, n := true, 0
	seen := map[*ssa.Function]bool{}
	var callers func(fn *ssa.Function, d int)
	entry := map[*ssa.Function]bool{}
	callers = func(fn *ssa.Function, d int) {
		if seen[fn] || d == 0 {
			return
		}
		seen[fn] = true
		cs := a.p.callersOf(fn)
		has := false
		for _, o := range c.ops {
			if o.fn == fn && o.kind == "recv" && o.in != op.in {
				has = true
			}
		}
		if has || len(cs) == 0 {
			entry[fn] = true
			return
		}
		for _, ci := range cs {
			callers(ci.Parent(), d-1)
		}
	}
	callers(op.fn, 4)
	for fn := range entry {
		e := newEngine(a.p, nil)
		e.r = &Rule{
			Event: func(f *ssa.Function) bool { return f == op.fn },
			Instr: func(e *Engine, st *State, in ssa.Instruction) {
				if in == op.in {
					n++
					if !has(st, "seen") {
						good = false
					}
				}
				for _, o := range c.ops {
					if o.sel == nil || o.kind != "recv" {
						continue
					}
					if b := selectCase(o.sel, o.k); b != nil && in == b.Instrs[0] {
						set(st, "seen")
					}
				}
			},
		}
		e.run(fn, "", nil)
		a.r.engine(e)
		if e.over {
			return false
		}
	}
	return good && n > 0
}

// ---------------------------------------------------------------------------------------------
// WaitGroups: as many goroutines as were added, each done exactly once however it ends; and the end
// of one makes the others end.

func (a *c19) waitGroups(fns []*ssa.Function) {
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || calleeName(&c.Call) != "(sync.WaitGroup).Add" {
					continue
				}
				a.waitGroup(fn, c)
			}
		}
	}
}

func (a *c19) waitGroup(fn *ssa.Function, add *ssa.Call) {
	p, r := a.p, a.r
	name := p.fnName(fn)
	k, ok := add.Call.Args[1].(*ssa.Const)
	if !ok {
		r.viol("waitgroup", name+":count", p.iPos(add), "the number of tasks waited for is not a constant; the analysis cannot match it with the tasks started", nil)
		return
	}
	isDone := func(i ssa.Instruction) int {
		if ci, ok := i.(ssa.CallInstruction); ok {
			if calleeName(ci.Common()) == "(sync.WaitGroup).Done" {
				return 1
			}
		}
		return 0
	}
	var gs []*ssa.Function
	var at []*ssa.Go
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			g, ok := in.(*ssa.Go)
			if !ok || goTarget(g) == nil || !reachableFrom(add, g) {
				continue
			}
			_, hi := a.tally(goTarget(g), map[*ssa.Function]bool{}, isDone)
			if hi > 0 {
				gs = append(gs, goTarget(g))
				at = append(at, g)
			}
		}
	}
	// goroutines started in a loop after an Add in the same loop round
	n := int64(0)
	for _, g := range at {
		if mustReach(add, func(i ssa.Instruction) bool { return i == g }) {
			n++
		}
	}
	sum := k.Int64()
	for _, b := range fn.Blocks { // several Adds in one go
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && c != add && calleeName(&c.Call) == "(sync.WaitGroup).Add" && (precedes(add, c) || precedes(c, add)) {
				if kc, ok := c.Call.Args[1].(*ssa.Const); ok {
					sum += kc.Int64()
				}
			}
		}
	}
	r.check("waitgroup", name+":count", p.iPos(add), n == sum, fmt.Sprintf("%d tasks are waited for but %d are started that report their end", sum, n), nil)
	for i, g := range gs {
		lo, hi := a.tally(g, map[*ssa.Function]bool{}, isDone)
		r.check("waitgroup", fmt.Sprintf("%s:task%d", name, i), p.iPos(at[i]), lo == 1 && hi == 1, "the task does not report its end exactly once on every path: whoever waits for it waits forever, or the counter goes negative", nil)
		// its end is noticed by the other: it closes the connection or a channel the other listens to
		if len(gs) < 2 {
			continue
		}
		first := g.Blocks[0].Instrs[0]
		tells := func(i ssa.Instruction) bool {
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				return false
			}
			if _, ok := i.(*ssa.Go); ok {
				return false
			}
			if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
				return true
			}
			n := calleeName(ci.Common())
			return strings.HasSuffix(n, ").Close")
		}
		var deep func(i ssa.Instruction) bool
		depth := 0
		deep = func(i ssa.Instruction) bool {
			if tells(i) {
				return true
			}
			if ci, ok := i.(ssa.CallInstruction); ok && depth < 4 {
				if t := goTarget(ci); t != nil && p.inRepo(t) && len(t.Blocks) > 0 {
					depth++
					defer func() { depth-- }()
					f := t.Blocks[0].Instrs[0]
					return deep(f) || mustReach(f, deep)
				}
			}
			return false
		}
		r.check("waitgroup", fmt.Sprintf("%s:tell%d", name, i), p.iPos(at[i]), deep(first) || mustReach(first, deep), "the task can end without closing the connection or a channel the other task listens to: the other one is not woken and whoever waits for both waits forever", nil)
	}
}

func (p *Prog) inRoot(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg == p.root
}

// natLoop returns the blocks of the loop with the given head, nil if it heads none.
func natLoop(head *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	var out map[*ssa.BasicBlock]bool
	for _, pr := range head.Preds {
		if !head.Dominates(pr) {
			continue
		}
		if out == nil {
			out = map[*ssa.BasicBlock]bool{}
		}
		for b := range loopBody(pr, head) {
			out[b] = true
		}
	}
	return out
}
