package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------------------------
// State

type deferred struct {
	in    ssa.CallInstruction
	fnT   *Term
	args  []*Term
	frame int
}

type traceNode struct {
	prev *traceNode
	msg  string
}

// State is one abstract state: the rule's automaton state plus what is known about values.
type State struct {
	auto   string
	facts  map[*Term]bool
	env    map[ssa.Value]*Term
	mem    map[*Term]*Term
	ver    map[string]string
	defers []deferred
	trace  *traceNode
	e      *Engine
	dead   bool // set by a rule that knows the path cannot happen
}

func (s *State) clone() *State {
	n := &State{auto: s.auto, e: s.e, trace: s.trace}
	n.facts = make(map[*Term]bool, len(s.facts)+4)
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.env = make(map[ssa.Value]*Term, len(s.env)+4)
	for k, v := range s.env {
		n.env[k] = v
	}
	n.mem = make(map[*Term]*Term, len(s.mem)+4)
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.ver = make(map[string]string, len(s.ver))
	for k, v := range s.ver {
		n.ver[k] = v
	}
	n.defers = append([]deferred(nil), s.defers...)
	return n
}

func (s *State) note(format string, a ...any) {
	s.trace = &traceNode{prev: s.trace, msg: fmt.Sprintf(format, a...)}
}

func (s *State) path() []string {
	var out []string
	for t := s.trace; t != nil; t = t.prev {
		out = append(out, t.msg)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ---------------------------------------------------------------------------------------------
// Engine

type CallEv struct {
	In    ssa.CallInstruction
	C     *ssa.CallCommon
	Name  string        // full name of the static callee or interface method
	Fn    *ssa.Function // static callee or known function value; nil for interface calls
	Args  []*Term       // receiver first
	Kind  string        // "call", "go", "defer"
	Ctx   int
	Depth int
}

type Outcome struct {
	St  *State
	Res []*Term
}

type Rule struct {
	// Call may take over a call. Return nil for default treatment.
	Call func(e *Engine, st *State, c *CallEv) []Outcome
	// After is told about every call that was not taken over, with its outcomes (may edit states).
	After func(e *Engine, c *CallEv, outs []Outcome)
	// Instr sees every instruction before it is executed.
	Instr func(e *Engine, st *State, in ssa.Instruction)
	// Branch sees every fact learned at a branch.
	Branch func(e *Engine, st *State, in *ssa.If, atom *Term, val bool)
	// Return sees every return of the entry function.
	Return func(e *Engine, st *State, in *ssa.Return, res []*Term)
	// FuncReturn sees every return of every function followed.
	FuncReturn func(e *Engine, st *State, fn *ssa.Function, in *ssa.Return, res []*Term)
	// BackEdge sees every loop back edge taken.
	BackEdge func(e *Engine, st *State, from, head *ssa.BasicBlock)
	// Inline decides whether a repository function is followed; nil means the default policy.
	Inline func(e *Engine, fn *ssa.Function) bool
	// Skip leaves a call that would be followed opaque in this state.
	Skip func(e *Engine, st *State, c *CallEv) bool
	// Event tells whether a function contains something the rule cares about (always inlined if
	// it can reach such a function).
	Event func(fn *ssa.Function) bool
	// GoEnd sees every normal end of a goroutine body that was followed.
	GoEnd func(e *Engine, st *State, in *ssa.Go)
	// FollowGo: follow goroutine bodies in the state of the go statement.
	FollowGo bool
	// Keep tells whether a branch fact is worth remembering; nil keeps everything.
	Keep func(e *Engine, atom *Term) bool
	// Peel treats the first iteration of counting loops exactly.
	Peel bool
	// Unroll follows loops with a small constant number of rounds (sections of a message) exactly.
	Unroll bool
	// Field may replace what is read from a field that is not otherwise known.
	Field func(t *Term) *Term
	// Pins are terms whose facts must survive.
	Pins func(st *State) []*Term
	// Prune may drop what the rule remembers about terms that are no longer covered.
	Prune func(e *Engine, st *State, covered func(*Term) bool)
	// InvokeImpls returns implementations to follow for an interface call (all are explored).
	InvokeImpls func(e *Engine, c *ssa.CallCommon) []*ssa.Function
}

type fnInfo struct {
	live  []map[ssa.Value]bool // live-in per block
	back  map[[2]int]bool      // back edges
	heads map[int]bool
	size  int
}

type Engine struct {
	p         *Prog
	T         *Terms
	r         *Rule
	info      map[*ssa.Function]*fnInfo
	instID    map[ssa.Instruction]int
	ctxTab    map[string]int
	steps     int
	budget    int
	maxStk    int
	depth     int
	cap       int
	over      bool
	funcs     map[*ssa.Function]bool // functions followed
	calls     int
	branches  int
	evMemo    map[*ssa.Function]bool
	stack     []*ssa.Function
	entry     *ssa.Function
	storeMemo map[*ssa.Function]map[string]bool
	ment      map[*ssa.Function][]map[string]bool
}

func newEngine(p *Prog, r *Rule) *Engine {
	return &Engine{p: p, T: newTerms(), r: r, info: map[*ssa.Function]*fnInfo{}, instID: map[ssa.Instruction]int{}, ctxTab: map[string]int{},
		depth: maxTermDepth, budget: 300_000, maxStk: 10, cap: 250, funcs: map[*ssa.Function]bool{}, evMemo: map[*ssa.Function]bool{}, storeMemo: map[*ssa.Function]map[string]bool{}, ment: map[*ssa.Function][]map[string]bool{}}
}

func (e *Engine) iid(in ssa.Instruction) int {
	if n, ok := e.instID[in]; ok {
		return n
	}
	n := len(e.instID) + 1
	e.instID[in] = n
	return n
}

func (e *Engine) newState() *State {
	return &State{e: e, facts: map[*Term]bool{}, env: map[ssa.Value]*Term{}, mem: map[*Term]*Term{}, ver: map[string]string{}}
}

// run explores fn from auto state init with parameters bound to param terms.
func (e *Engine) run(fn *ssa.Function, init string, setup func(st *State, params []*Term)) []Outcome {
	st := e.newState()
	st.auto = init
	var args []*Term
	for _, p := range fn.Params {
		t := e.T.mk("param", p.Name()+"@"+e.p.fnName(fn), p.Type(), false)
		args = append(args, t)
	}
	var free []*Term
	for _, f := range fn.FreeVars {
		free = append(free, e.T.mk("param", "free:"+f.Name()+"@"+e.p.fnName(fn), f.Type(), false))
	}
	if setup != nil {
		setup(st, args)
	}
	e.entry = fn
	var outs []Outcome
	e.timed(e.p.fnName(fn), func() { outs = e.exec(fn, args, free, st, 0, nil, nil) })
	return outs
}

func (e *Engine) getInfo(fn *ssa.Function) *fnInfo {
	if fi, ok := e.info[fn]; ok {
		return fi
	}
	fi := &fnInfo{back: map[[2]int]bool{}, heads: map[int]bool{}}
	n := len(fn.Blocks)
	fi.live = make([]map[ssa.Value]bool, n)
	for i := range fi.live {
		fi.live[i] = map[ssa.Value]bool{}
	}
	track := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range fi.live[s.Index] {
					live[v] = true
				}
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, ph)
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if pi >= 0 && track(ph.Edges[pi]) {
						live[ph.Edges[pi]] = true
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && track(*op) {
						live[*op] = true
					}
				}
				fi.size++
			}
			// phis of b itself are live-in by definition of entry handling
			for _, in := range b.Instrs {
				if ph, ok := in.(*ssa.Phi); ok {
					live[ph] = true
				} else {
					break
				}
			}
			if len(live) != len(fi.live[i]) {
				fi.live[i] = live
				changed = true
			}
		}
	}
	fi.size = 0
	for _, b := range fn.Blocks {
		fi.size += len(b.Instrs)
		for _, s := range b.Succs {
			if s.Dominates(b) {
				fi.back[[2]int{b.Index, s.Index}] = true
				fi.heads[s.Index] = true
			}
		}
	}
	e.info[fn] = fi
	return fi
}

type item struct {
	b  *ssa.BasicBlock
	st *State
}

// exec explores one function in context and returns its normal outcomes.
func (e *Engine) exec(fn *ssa.Function, args, free []*Term, st *State, ctx int, pins map[int32]bool, cont *mentions) []Outcome {
	if len(fn.Blocks) == 0 {
		return nil
	}
	e.funcs[fn] = true
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	fi := e.getInfo(fn)

	outerEnv := st.env
	outerDefers := st.defers
	st = st.clone()
	st.env = map[ssa.Value]*Term{}
	st.defers = nil
	for i, p := range fn.Params {
		if i < len(args) && args[i] != nil {
			st.env[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(free) {
			st.env[f] = free[i]
		}
	}
	_ = outerEnv

	visited := map[string]bool{}
	if debugTime {
		debugSteps2[fn]++
	}
	count := map[int]int{}
	merged := map[string]*State{}
	var outs []Outcome
	outSeen := map[string]bool{}
	work := []item{{fn.Blocks[0], st}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		b, st := it.b, it.st
		e.prune(st, fi.live[b.Index], pins, &mentions{e.mentioned(fn, b.Index), cont})
		k := fmt.Sprintf("%d|%s", b.Index, e.key(st))
		if visited[k] {
			continue
		}
		visited[k] = true
		count[b.Index]++
		if debugFn != "" && debugFn == e.p.fnName(fn) && (count[b.Index] > 20 && count[b.Index] < 26 || b.Index == 0 && os.Getenv("RD_ENTRY") != "") {
			e.dump(fn, b, st)
		}
		if count[b.Index] > e.cap {
			// merge with everything seen in this block with the same automaton state
			mk := fmt.Sprintf("%d|%s|%d", b.Index, st.auto, len(st.defers))
			if m, ok := merged[mk]; ok {
				changed := false
				for f, v := range m.facts {
					if w, ok := st.facts[f]; !ok || w != v {
						delete(m.facts, f)
						changed = true
					}
				}
				for a, v := range m.mem {
					if w, ok := st.mem[a]; !ok || w != v {
						delete(m.mem, a)
						m.ver[fmt.Sprintf("a%d", a.id)] = "m"
						changed = true
					}
				}
				for x, v := range m.env {
					if w, ok := st.env[x]; !ok || w != v {
						u := e.T.mk("merge", fmt.Sprintf("%s@%d#%d", x.Name(), ctx, b.Index), x.Type(), true)
						e.addPhi(u, v)
						if w != nil {
							e.addPhi(u, w)
						}
						if m.env[x] != u {
							m.env[x] = u
							changed = true
						}
					}
				}
				if !changed {
					continue
				}
				st = m.clone()
				st.trace = it.st.trace
			} else {
				merged[mk] = st.clone()
			}
		}
		e.block(fn, fi, b, st, ctx, pins, &mentions{e.mentioned(fn, b.Index), cont}, func(nb *ssa.BasicBlock, ns *State) {
			work = append(work, item{nb, ns})
		}, func(ns *State, res []*Term) {
			// drop the frame, restore caller's
			ns.env = map[ssa.Value]*Term{}
			ns.defers = append([]deferred(nil), outerDefers...)
			extra := map[int32]bool{}
			for p := range pins {
				extra[p] = true
			}
			for _, r := range res {
				for _, l := range r.leaves {
					extra[l] = true
				}
			}
			e.prune(ns, nil, extra, cont)
			ids := make([]string, len(res))
			for i, r := range res {
				ids[i] = fmt.Sprint(r.id)
			}
			k := e.key(ns) + "|" + strings.Join(ids, ",")
			if outSeen[k] {
				return
			}
			outSeen[k] = true
			for v, t := range outerEnv {
				ns.env[v] = t
			}
			outs = append(outs, Outcome{ns, res})
		})
		if e.steps > e.budget {
			e.over = true
			break
		}
	}
	return outs
}

// block executes the instructions of b starting in st (phis already bound).
func (e *Engine) block(fn *ssa.Function, fi *fnInfo, b *ssa.BasicBlock, st *State, ctx int, pins map[int32]bool, cont *mentions,
	push func(*ssa.BasicBlock, *State), ret func(*State, []*Term)) {
	states := []*State{st}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		var next []*State
		for _, s := range states {
			e.steps++
			if debugTime {
				debugSteps[fn]++
			}
			if e.steps > e.budget {
				e.over = true
				return
			}
			if e.r.Instr != nil {
				e.r.Instr(e, s, in)
			}
			switch x := in.(type) {
			case *ssa.Jump:
				e.edge(fi, b, b.Succs[0], s, ctx, push)
				continue
			case *ssa.If:
				e.branch(fi, b, x, s, ctx, push)
				continue
			case *ssa.Return:
				res := make([]*Term, len(x.Results))
				for i, r := range x.Results {
					res[i] = e.ev(s, r)
				}
				if e.r.FuncReturn != nil {
					e.r.FuncReturn(e, s, fn, x, res)
				}
				if len(e.stack) == 1 && e.r.Return != nil {
					e.r.Return(e, s, x, res)
				}
				ret(s, res)
				continue
			case *ssa.Panic:
				continue
			case *ssa.RunDefers:
				next = append(next, e.runDefers(s, ctx, pins, cont)...)
				continue
			case *ssa.Defer:
				d := deferred{in: x}
				d.fnT, d.args = e.callArgs(s, &x.Call)
				if len(s.defers) < 12 {
					s.defers = append(s.defers, d)
				}
			case *ssa.Go:
				fnT, as := e.callArgs(s, &x.Call)
				if e.r.FollowGo || e.r.Call != nil {
					c := s.clone()
					c.note("%s: go", e.p.iPos(in))
					outs := e.call(c, x, &x.Call, fnT, as, ctx, pins, cont, "go")
					if e.r.GoEnd != nil {
						for _, o := range outs {
							e.r.GoEnd(e, o.St, x)
						}
					}
				}
				e.havocArgs(s, append(as, fnT), in, "")
			case *ssa.Call:
				fnT, as := e.callArgs(s, &x.Call)
				for _, o := range e.call(s, x, &x.Call, fnT, as, ctx, pins, cont, "call") {
					o.St.env[x] = e.tuple(x, o.Res)
					next = append(next, o.St)
				}
				continue
			default:
				e.instr(s, in, ctx)
				if v, ok := in.(ssa.Value); ok && isBool(v.Type()) && carried(fi, v) {
					next = append(next, e.split(s, v)...)
					continue
				}
			}
			next = append(next, s)
		}
		states = next
		if len(states) == 0 {
			return
		}
	}
}

// carried: the condition is kept in a variable over the rounds of a loop.
func carried(fi *fnInfo, v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, ref := range *v.Referrers() {
		if ph, ok := ref.(*ssa.Phi); ok && fi.heads[ph.Block().Index] {
			return true
		}
	}
	return false
}

// split decides a condition where it is computed instead of where it is tested.
func (e *Engine) split(st *State, v ssa.Value) []*State {
	c := st.env[v]
	if c == nil || c.isConst() {
		return []*State{st}
	}
	var out []*State
	for _, val := range []bool{true, false} {
		if k, known := e.eval(st, c); known && k != val {
			continue
		}
		ns := st.clone()
		if !e.assume(ns, c, val) {
			continue
		}
		a, x := c, val
		for a.op == "not" {
			a, x = a.args[0], !x
		}
		ns.env[v] = e.T.boolT(val)
		if e.r.Branch != nil && !a.isConst() {
			e.r.Branch(e, ns, nil, a, x)
		}
		out = append(out, ns)
	}
	return out
}

func (e *Engine) tuple(x *ssa.Call, res []*Term) *Term {
	if tt, ok := x.Type().(*types.Tuple); ok {
		if tt.Len() == 1 && len(res) == 1 {
			return res[0]
		}
		return e.T.mk("tuple", fmt.Sprint(len(res)), x.Type(), false, res...)
	}
	if len(res) == 1 {
		return res[0]
	}
	return e.T.mk("tuple", fmt.Sprint(len(res)), x.Type(), false, res...)
}

func (e *Engine) addPhi(ph, in *Term) {
	m := e.T.phiIn[ph]
	if m == nil {
		m = map[*Term]bool{}
		e.T.phiIn[ph] = m
	}
	if in != ph {
		m[in] = true
	}
}

// edge transfers control from b to s, binding phis.
func (e *Engine) edge(fi *fnInfo, b, s *ssa.BasicBlock, st *State, ctx int, push func(*ssa.BasicBlock, *State)) {
	pi := -1
	for k, p := range s.Preds {
		if p == b {
			pi = k
		}
	}
	back := fi.back[[2]int{b.Index, s.Index}]
	if back && e.r.BackEdge != nil {
		e.r.BackEdge(e, st, b, s)
	}
	var phis []*ssa.Phi
	var vals []*Term
	for _, in := range s.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, e.ev(st, ph.Edges[pi]))
	}
	var exact *ssa.Phi
	if e.r.Unroll && fi.heads[s.Index] {
		exact = e.constLoop(st, s, phis, vals)
	}
	if back {
		// loop variables: forget the exact value, keep what is known about it
		var pts []*Term
		for i, ph := range phis {
			t := e.T.mk("phi", fmt.Sprintf("%s/%s@%d#%d", ph.Name(), ph.Comment, ctx, e.iid(ph)), ph.Type(), true)
			t.in = ph
			e.addPhi(t, vals[i])
			pts = append(pts, t)
		}
		type nf struct {
			a *Term
			v bool
		}
		var add []nf
		for i, t := range pts {
			v := vals[i]
			if v == t {
				continue
			}
			if v.isNil() || (v.isConst() && (v.cv.Kind() == constant.Bool || v.cv.Kind() == constant.String)) {
				a := e.T.bin(token.EQL, t, v, types.Typ[types.Bool])
				add = append(add, nf{a, true})
			} else if v.nonnil() && !v.isConst() {
				add = append(add, nf{e.T.bin(token.EQL, t, e.T.nilT(), types.Typ[types.Bool]), false})
			}
			if v.op == "append" && len(v.args) > 2 { // something was added
				if at := e.T.bin(token.EQL, e.T.lenOf(t), e.T.intT(0), types.Typ[types.Bool]); !at.isConst() {
					add = append(add, nf{at, false})
				}
			}
			for f, val := range st.facts {
				if len(f.args) == 2 && f.args[0] == v && (f.args[1].isNil() || f.args[1].isConst()) {
					add = append(add, nf{e.T.mk(f.op, f.s, f.typ, false, t, f.args[1]), val})
				}
				if f == v {
					add = append(add, nf{t, val})
				}
			}
		}
		for i, t := range pts {
			if vals[i] == t || phis[i] == exact || exact != nil && vals[i].isConst() {
				continue
			}
			e.kill(st, t)
		}
		for _, a := range add {
			at, v := a.a, a.v
			for at.op == "not" {
				at, v = at.args[0], !v
			}
			if !at.isConst() {
				st.facts[at] = v
			}
		}
		for i, ph := range phis {
			if ph == exact || exact != nil && vals[i].isConst() {
				st.env[ph] = vals[i]
				continue
			}
			st.env[ph] = pts[i]
			if isInteger(ph.Type()) {
				e.lowerBound(st, ph, s, pts[i])
			}
		}
	} else {
		for i, ph := range phis {
			if fi.heads[s.Index] && isInteger(ph.Type()) && !e.r.Peel && ph != exact && !(exact != nil && vals[i].isConst()) {
				t := e.T.mk("phi", fmt.Sprintf("%s/%s@%d#%d", ph.Name(), ph.Comment, ctx, e.iid(ph)), ph.Type(), true)
				t.in = ph
				e.addPhi(t, vals[i])
				e.kill(st, t)
				e.lowerBound(st, ph, s, t)
				st.env[ph] = t
				continue
			}
			st.env[ph] = vals[i]
		}
	}
	push(s, st)
}

func (e *Engine) branch(fi *fnInfo, b *ssa.BasicBlock, x *ssa.If, st *State, ctx int, push func(*ssa.BasicBlock, *State)) {
	e.branches++
	c := e.ev(st, x.Cond)
	if v, ok := e.eval(st, c); ok {
		i := 1
		if v {
			i = 0
		}
		if e.r.Branch != nil {
			a, val := c, v
			for a.op == "not" {
				a, val = a.args[0], !val
			}
			if !a.isConst() {
				e.r.Branch(e, st, x, a, val)
			}
		}
		if !st.dead {
			e.edge(fi, b, b.Succs[i], st, ctx, push)
		}
		return
	}
	for i, v := range []bool{true, false} {
		ns := st.clone()
		if !e.assume(ns, c, v) {
			continue
		}
		ns.note("%s: %s is %v", e.p.pos(condPos(x)), short(c), v)
		a, val := c, v
		for a.op == "not" {
			a, val = a.args[0], !val
		}
		if e.r.Branch != nil {
			e.r.Branch(e, ns, x, a, val)
		}
		if !ns.dead {
			e.edge(fi, b, b.Succs[i], ns, ctx, push)
		}
	}
}

// constLoop returns the counter of a loop that runs a small constant number of times.
func (e *Engine) constLoop(st *State, head *ssa.BasicBlock, phis []*ssa.Phi, vals []*Term) *ssa.Phi {
	x, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	c, ok := x.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS && c.Op != token.LEQ && c.Op != token.NEQ {
		return nil
	}
	var bound *Term
	if in, ok := c.Y.(ssa.Instruction); ok && in.Block() == head {
		l, ok := c.Y.(*ssa.Call)
		if !ok || calleeName(&l.Call) != "builtin.len" {
			return nil
		}
		if in, ok := l.Call.Args[0].(ssa.Instruction); ok && in.Block() == head {
			return nil
		}
		bound = e.T.lenOf(e.ev(st, l.Call.Args[0]))
	} else {
		bound = e.ev(st, c.Y)
	}
	if k, ok := bound.intv(); !ok || k > 6 {
		return nil
	}
	v := c.X
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		v = b.X
	}
	for i, ph := range phis {
		if ssa.Value(ph) == v && vals[i].isConst() {
			return ph
		}
	}
	return nil
}

func condPos(x *ssa.If) token.Pos {
	if x.Cond.Pos().IsValid() {
		return x.Cond.Pos()
	}
	for i := len(x.Block().Instrs) - 1; i >= 0; i-- {
		if p := x.Block().Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	return x.Parent().Pos()
}

func short(t *Term) string {
	s := t.String()
	s = strings.ReplaceAll(s, modPath, "rdns")
	s = strings.ReplaceAll(s, dnsPath, "dns")
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}

// ---------------------------------------------------------------------------------------------
// Facts

func (e *Engine) assume(st *State, c *Term, val bool) bool {
	for c.op == "not" {
		c, val = c.args[0], !val
	}
	if v, ok := e.eval(st, c); ok {
		return v == val
	}
	if e.r.Keep != nil && !e.r.Keep(e, c) {
		return true
	}
	st.facts[c] = val
	return true
}

func (e *Engine) eval(st *State, c *Term) (bool, bool) {
	neg := false
	for c.op == "not" {
		c, neg = c.args[0], !neg
	}
	if c.isTrue() {
		return !neg, true
	}
	if c.isFalse() {
		return neg, true
	}
	if v, ok := st.facts[c]; ok {
		return v != neg, true
	}
	if v, ok := e.derive(st, c); ok {
		return v != neg, true
	}
	return false, false
}

func (e *Engine) derive(st *State, c *Term) (bool, bool) {
	if c.op == "is" {
		for f, v := range st.facts {
			if f.op == "is" && f.args[0] == c.args[0] && v && f.s != c.s && !strings.HasPrefix(f.s, "iface:") && !strings.HasPrefix(c.s, "iface:") {
				return false, true
			}
		}
		if c.args[0].isNil() {
			return false, true
		}
		return false, false
	}
	if c.op != "bin" {
		return false, false
	}
	x, y := c.args[0], c.args[1]
	switch c.s {
	case "==":
		if y.isNil() {
			if x.nonnil() {
				return false, true
			}
			// a successful type test implies non-nil
			for f, v := range st.facts {
				if f.op == "is" && f.args[0] == x && v {
					return false, true
				}
				if x.op == "ta" && f.op == "is" && f.args[0] == x.args[0] && f.s == x.s && v {
					_ = f // the asserted pointer itself may be nil; decoded records never are
					return false, true
				}
			}
			return false, false
		}
		if y.isConst() {
			if y.cv.Kind() == constant.Int {
				lo, hi, ex := e.interval(st, x)
				k, _ := constant.Int64Val(y.cv)
				if lo != nil && k < *lo || hi != nil && k > *hi {
					return false, true
				}
				if lo != nil && hi != nil && *lo == *hi && *lo == k {
					return true, true
				}
				if ex[k] {
					return false, true
				}
				return false, false
			}
			for f, v := range st.facts {
				if v && f.op == "bin" && f.s == "==" && f.args[0] == x && f.args[1].isConst() && f.args[1] != y {
					return false, true
				}
			}
		}
	case "<":
		if k, ok := y.intv(); ok {
			lo, hi, _ := e.interval(st, x)
			if hi != nil && *hi < k {
				return true, true
			}
			if lo != nil && *lo >= k {
				return false, true
			}
		}
		if k, ok := x.intv(); ok {
			lo, hi, _ := e.interval(st, y)
			if lo != nil && *lo > k {
				return true, true
			}
			if hi != nil && *hi <= k {
				return false, true
			}
		}
		// a<b known true => b<a false
		if v, ok := st.facts[e.T.tab[key2("bin", "<", y, x)]]; ok && v {
			return false, true
		}
		if v, ok := st.facts[e.T.bin(token.EQL, x, y, types.Typ[types.Bool])]; ok && v {
			return false, true
		}
	}
	return false, false
}

func key2(op, s string, a, b *Term) string {
	return fmt.Sprintf("%s\x00%s\x00%d\x00%d", op, s, a.id, b.id)
}

func (e *Engine) interval(st *State, x *Term) (lo, hi *int64, ex map[int64]bool) {
	ex = map[int64]bool{}
	set := func(p **int64, v int64, low bool) {
		if *p == nil || (low && v > **p) || (!low && v < **p) {
			*p = &v
		}
	}
	if k, ok := x.intv(); ok {
		return &k, &k, ex
	}
	if x.nonneg() {
		set(&lo, 0, true)
	}
	if x.op == "len" && st.facts[e.T.mk("bin", "==", types.Typ[types.Bool], false, x.args[0], e.T.nilT())] {
		set(&hi, 0, false) // nothing in a nil list
	}
	for f, v := range st.facts {
		if f.op != "bin" {
			continue
		}
		switch f.s {
		case "==":
			if f.args[0] == x {
				if k, ok := f.args[1].intv(); ok {
					if v {
						set(&lo, k, true)
						set(&hi, k, false)
					} else {
						ex[k] = true
					}
				}
			}
		case "<":
			if f.args[0] == x {
				if k, ok := f.args[1].intv(); ok {
					if v {
						set(&hi, k-1, false)
					} else {
						set(&lo, k, true)
					}
				}
			} else if f.args[1] == x {
				if k, ok := f.args[0].intv(); ok {
					if v {
						set(&lo, k+1, true)
					} else {
						set(&hi, k, false)
					}
				}
			}
		}
	}
	if x.op == "bin" && (x.s == "+" || x.s == "-") && !isUnsigned(x.typ) {
		if k, ok := x.args[1].intv(); ok {
			if x.s == "-" {
				k = -k
			}
			l, h, _ := e.interval(st, x.args[0])
			if l != nil {
				set(&lo, *l+k, true)
			}
			if h != nil {
				set(&hi, *h+k, false)
			}
		}
	}
	for lo != nil && ex[*lo] {
		v := *lo + 1
		lo = &v
	}
	return
}

// isNil reports whether t is known nil (true,true), known non-nil (false,true) or unknown.
func (e *Engine) isNil(st *State, t *Term) (bool, bool) {
	if t.isNil() {
		return true, true
	}
	return e.eval(st, e.T.bin(token.EQL, t, e.T.nilT(), types.Typ[types.Bool]))
}

// kill removes facts and memory contents that mention the fresh term t.
func (e *Engine) kill(st *State, t *Term) {
	l := t.id
	for f := range st.facts {
		if f.hasLeaf(l) {
			delete(st.facts, f)
		}
	}
	for a, v := range st.mem {
		if a.hasLeaf(l) || v.hasLeaf(l) {
			delete(st.mem, a)
			if !a.hasLeaf(l) {
				st.ver[fmt.Sprintf("a%d", a.id)] = "k"
			}
		}
	}
	delete(st.ver, fmt.Sprintf("t%d", l))
}

// prune drops dead values and facts about terms nothing can refer to any more.
func (e *Engine) prune(st *State, live map[ssa.Value]bool, pins map[int32]bool, cont *mentions) {
	reach := map[int32]bool{}
	for p := range pins {
		reach[p] = true
	}
	add := func(t *Term) {
		if t != nil {
			for _, l := range t.leaves {
				reach[l] = true
			}
		}
	}
	for v, t := range st.env {
		if live != nil && !live[v] {
			delete(st.env, v)
			continue
		}
		add(t)
	}
	for _, d := range st.defers {
		add(d.fnT)
		for _, a := range d.args {
			add(a)
		}
	}
	if e.r.Pins != nil {
		for _, t := range e.r.Pins(st) {
			add(t)
		}
	}
	covered := func(t *Term) bool {
		for _, l := range t.leaves {
			if !reach[l] {
				return false
			}
		}
		return true
	}
	// closures keep their bindings reachable
	done := map[int32]bool{}
	for changed := true; changed; {
		changed = false
		for a, v := range st.mem {
			if covered(a) {
				for _, l := range v.leaves {
					if !reach[l] {
						reach[l] = true
						changed = true
					}
				}
			}
		}
		for l := range reach {
			if done[l] {
				continue
			}
			done[l] = true
			t := e.T.all[l]
			if t.op == "closure" || t.op == "phi" || t.op == "merge" || t.op == "append" || t.op == "call" {
				for _, a := range t.args {
					for _, x := range a.leaves {
						if !reach[x] {
							reach[x] = true
							changed = true
						}
					}
				}
			}
		}
	}
	for a := range st.mem {
		if !covered(a) {
			delete(st.mem, a)
		}
	}
	avail := map[*Term]bool{}
	for _, t := range st.env {
		avail[t] = true
	}
	for _, d := range st.defers {
		for _, a := range d.args {
			avail[a] = true
		}
	}
	for _, t := range st.mem {
		avail[t] = true
	}
	if e.r.Pins != nil {
		for _, t := range e.r.Pins(st) {
			avail[t] = true
		}
	}
	if e.r.Prune != nil {
		e.r.Prune(e, st, covered)
	}
	memo := map[*Term]bool{}
	for f := range st.facts {
		if !covered(f) || !e.recomputable(f, avail, pins, cont, memo) {
			delete(st.facts, f)
		}
	}
	for k := range st.ver {
		if k[0] == 'f' {
			if !cont.has(k[1:]) {
				delete(st.ver, k)
			}
			continue
		}
		n, _ := strconv.Atoi(k[1:])
		t := e.T.all[n]
		if !covered(t) || !e.recomputable(t, avail, pins, cont, memo) {
			delete(st.ver, k)
		}
	}
}

func (e *Engine) key(st *State) string {
	var sb strings.Builder
	sb.WriteString(st.auto)
	sb.WriteByte('|')
	ids := make([]int, 0, len(st.facts))
	for f, v := range st.facts {
		n := int(f.id) * 2
		if v {
			n++
		}
		ids = append(ids, n)
	}
	sort.Ints(ids)
	for _, n := range ids {
		fmt.Fprintf(&sb, "%x,", n)
	}
	sb.WriteByte('|')
	var es []string
	for v, t := range st.env {
		es = append(es, fmt.Sprintf("%s=%x", v.Name(), t.id))
	}
	sort.Strings(es)
	sb.WriteString(strings.Join(es, ","))
	sb.WriteByte('|')
	es = es[:0]
	for a, v := range st.mem {
		es = append(es, fmt.Sprintf("%x=%x", a.id, v.id))
	}
	sort.Strings(es)
	sb.WriteString(strings.Join(es, ","))
	sb.WriteByte('|')
	es = es[:0]
	for a, v := range st.ver {
		es = append(es, a+"="+v)
	}
	sort.Strings(es)
	sb.WriteString(strings.Join(es, ","))
	for _, d := range st.defers {
		fmt.Fprintf(&sb, ";%d", e.iid(d.in))
		for _, a := range d.args {
			fmt.Fprintf(&sb, ".%x", a.id)
		}
	}
	return sb.String()
}

// mentions: names of fields and functions that code still to be executed refers to, innermost frame first.
type mentions struct {
	m    map[string]bool
	next *mentions
}

func (m *mentions) has(n string) bool {
	for ; m != nil; m = m.next {
		if m.m[n] {
			return true
		}
	}
	return false
}

// recomputable: code still to be executed could form this term again.
func (e *Engine) recomputable(t *Term, avail map[*Term]bool, pins map[int32]bool, cont *mentions, memo map[*Term]bool) bool {
	if v, ok := memo[t]; ok {
		return v
	}
	if avail[t] {
		memo[t] = true
		return true
	}
	r := false
	switch t.op {
	case "nil", "const", "param", "global", "fn":
		r = true
	case "fa", "vf":
		r = cont.has(t.s)
	case "call":
		if t.fresh {
			r = pins[t.id]
			memo[t] = r
			return r
		}
		r = cont.has(t.callName())
	default:
		if t.fresh {
			r = pins[t.id]
			memo[t] = r
			return r
		}
		r = true
	}
	if r {
		for _, a := range t.args {
			if !e.recomputable(a, avail, pins, cont, memo) {
				r = false
				break
			}
		}
	}
	memo[t] = r
	return r
}

// mentioned returns the names referred to in blocks reachable from block i of fn, including callees.
func (e *Engine) mentioned(fn *ssa.Function, i int) map[string]bool {
	ms := e.ment[fn]
	if ms == nil {
		ms = make([]map[string]bool, len(fn.Blocks))
		e.ment[fn] = ms
	}
	if ms[i] != nil {
		return ms[i]
	}
	out := map[string]bool{}
	seen := map[int]bool{}
	fns := map[*ssa.Function]bool{}
	var addFn func(f *ssa.Function)
	addIn := func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.FieldAddr:
			out[fieldName(x.X.Type(), x.Field)] = true
		case *ssa.Field:
			out[fieldName(x.X.Type(), x.Field)] = true
		case ssa.CallInstruction:
			c := x.Common()
			out[calleeName(c)] = true
			if g := c.StaticCallee(); g != nil && e.p.inRepo(g) {
				addFn(g)
			}
		}
		for _, op := range in.Operands(nil) {
			if g, ok := (*op).(*ssa.Function); ok && e.p.inRepo(g) {
				addFn(g)
			}
		}
	}
	addFn = func(f *ssa.Function) {
		if fns[f] {
			return
		}
		fns[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				addIn(in)
			}
		}
	}
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		if seen[b.Index] {
			return
		}
		seen[b.Index] = true
		for _, in := range b.Instrs {
			addIn(in)
		}
		for _, s := range b.Succs {
			rec(s)
		}
	}
	rec(fn.Blocks[i])
	// deferred functions run at the end
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				addIn(d)
			}
		}
	}
	ms[i] = out
	return out
}

// lowerBound: an integer loop variable that starts at a constant and only grows is never below it.
func (e *Engine) lowerBound(st *State, ph *ssa.Phi, head *ssa.BasicBlock, t *Term) {
	var lo *int64
	for i, ed := range ph.Edges {
		if head.Dominates(head.Preds[i]) {
			b, ok := ed.(*ssa.BinOp)
			if !ok || b.Op != token.ADD || b.X != ssa.Value(ph) {
				return
			}
			c, ok := b.Y.(*ssa.Const)
			if !ok || c.Value == nil || constant.Sign(c.Value) < 0 {
				return
			}
			continue
		}
		c, ok := ed.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return
		}
		v, _ := constant.Int64Val(c.Value)
		if lo == nil || v < *lo {
			lo = &v
		}
	}
	if lo != nil {
		at, v := stripNot(e.T.bin(token.LSS, t, e.T.intT(*lo), types.Typ[types.Bool]), false)
		if !at.isConst() {
			st.facts[at] = v
		}
	}
}
