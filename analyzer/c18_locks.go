package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", `Lock analysis over the whole program. For every function: the locks possibly held at each instruction (through calls, deferred calls and closures). No lock may still be held at a return that was not held at entry (helpers that only take or only release a lock are judged in their callers); no unlock without the lock held; no lock taken, directly or in a callee, while already held; the graph of locks taken while others are held has no cycle; nothing waits for a resolver, channel, timer or other task while holding a lock.`,
		runC18, "locks are named by type and field")
}

type heldSet map[string]bool

func runC18(p *Prog, r *Report) {
	must := p.lockSets()
	a := &c18{p: p, r: r, must: must, gain: map[*ssa.Function]heldSet{}, lose: map[*ssa.Function]heldSet{}, acq: map[*ssa.Function]map[string]ssa.Instruction{}, order: map[string]map[string]string{}}
	// transitive acquisitions
	for _, fn := range p.funcs {
		a.acq[fn] = map[string]ssa.Instruction{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if addr, op, _ := lockOp(c.Common()); op > 0 {
						a.acq[fn][lockName(addr)] = in
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range p.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, g := range a.callees(in) {
						for k := range a.acq[g] {
							if a.acq[fn][k] == nil {
								a.acq[fn][k] = in
								changed = true
							}
						}
					}
				}
			}
		}
	}
	// transitive waiting
	a.blk = map[*ssa.Function]string{}
	for changed := true; changed; {
		changed = false
		for _, fn := range p.funcs {
			if a.blk[fn] != "" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					w := waits(in)
					for _, g := range a.callees(in) {
						if w == "" {
							w = a.blk[g]
						}
					}
					if w != "" && a.blk[fn] == "" {
						a.blk[fn] = w
						changed = true
					}
				}
			}
		}
	}
	// helpers' net effects to a fixed point, then the reports
	for i := 0; i < 6; i++ {
		for _, fn := range p.funcs {
			a.function(fn, false)
		}
	}
	for _, fn := range p.funcs {
		a.function(fn, true)
	}
	a.cycles()
	r.atLeast("released", 40)
	r.atLeast("reentry", 30)
}

type c18 struct {
	p     *Prog
	r     *Report
	must  *locks
	gain  map[*ssa.Function]heldSet // possibly held at return, not at entry
	lose  map[*ssa.Function]heldSet // released although not taken here
	acq   map[*ssa.Function]map[string]ssa.Instruction
	order map[string]map[string]string
	blk   map[*ssa.Function]string // what a function may wait for
}

// callees lists functions an instruction runs before it completes. Calls through the program's own
// interfaces are not followed: they are upstream exchanges, reported by themselves.
func (a *c18) callees(in ssa.Instruction) []*ssa.Function {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, e := range a.must.edges(in) {
		if !e.sync || c.Common().IsInvoke() && isResolveCall(c.Common()) {
			continue
		}
		out = append(out, e.fn)
	}
	return out
}

func (a *c18) function(fn *ssa.Function, report bool) {
	p, r := a.p, a.r
	name := p.fnName(fn)
	in := map[*ssa.BasicBlock]heldSet{fn.Blocks[0]: {}}
	var deferred []ssa.Instruction
	any := false
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if d, ok := i.(*ssa.Defer); ok {
				deferred = append(deferred, d)
			}
			if c, ok := i.(ssa.CallInstruction); ok {
				if _, op, _ := lockOp(c.Common()); op != 0 {
					any = true
				}
			}
		}
	}
	gain, lose := heldSet{}, heldSet{}
	where := map[string]ssa.Instruction{}
	entry := a.must.entry[fn]
	apply := func(c *ssa.CallCommon, held heldSet, i ssa.Instruction) {
		if addr, op, _ := lockOp(c); op != 0 {
			n := lockName(addr)
			if op > 0 {
				held[n] = true
				where[n] = i
			} else {
				if !held[n] {
					lose[n] = true
				}
				delete(held, n)
			}
			return
		}
		for _, g := range a.callees(i) {
			for k := range a.lose[g] {
				if !held[k] {
					lose[k] = true
				}
				delete(held, k)
			}
			for k := range a.gain[g] {
				held[k] = true
				where[k] = i
			}
		}
	}
	done := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	visit := func(b *ssa.BasicBlock, final bool) heldSet {
		held := heldSet{}
		for k := range in[b] {
			held[k] = true
		}
		for _, i := range b.Instrs {
			if final {
				a.examine(fn, name, i, held, entry)
			}
			switch i := i.(type) {
			case *ssa.Call:
				apply(i.Common(), held, i)
			case *ssa.RunDefers:
				for j := len(deferred) - 1; j >= 0; j-- {
					d := deferred[j].(*ssa.Defer)
					if d.Block().Dominates(b) || held != nil && reachableFrom(d, i) {
						if final {
							a.examine(fn, name, d, held, entry)
						}
						apply(d.Common(), held, d)
					}
				}
			case *ssa.Return:
				for k := range held {
					gain[k] = true
				}
			}
		}
		return held
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		held := visit(b, false)
		done[b] = true
		for _, s := range b.Succs {
			changed := !done[s]
			if in[s] == nil {
				in[s] = heldSet{}
			}
			for k := range held {
				if !in[s][k] {
					in[s][k] = true
					changed = true
				}
			}
			if changed {
				work = append(work, s)
			}
		}
	}
	a.gain[fn], a.lose[fn] = gain, lose
	if !report || !any && len(gain) == 0 && len(entry) == 0 {
		return
	}
	for _, b := range fn.Blocks {
		if done[b] {
			visit(b, true)
		}
	}
	r.ok("released", name)
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || !done[b] {
			continue
		}
		held := visit(b, false)
		for k := range held {
			// a helper that takes the lock on every path hands it to its callers
			if a.must.gained[fn][k] || a.must.gained[fn][k+"/r"] {
				if len(a.must.p.callersOf(fn)) > 0 && !a.must.root[fn] {
					continue
				}
			}
			r.viol("released", name+"/"+k, p.iPos(ret), k+" may still be held when "+name+" returns", nil)
		}
	}
	if len(lose) > 0 && a.must.root[fn] {
		for k := range lose {
			if !a.deferredHelper(fn) {
				r.viol("unlocked", name+"/"+k, p.pos(fn.Pos()), k+" is released without being held", nil)
			}
		}
	}
}

// deferredHelper: the function releases on behalf of another (a closure handed out for that purpose).
func (a *c18) deferredHelper(fn *ssa.Function) bool { return fn.Parent() != nil }

// examine judges one instruction given the locks possibly held before it.
func (a *c18) examine(fn *ssa.Function, name string, i ssa.Instruction, held heldSet, entry lockset) {
	p, r := a.p, a.r
	all := map[string]bool{}
	for k := range held {
		all[k] = true
	}
	for k := range entry {
		if k = strings.TrimSuffix(k, "/r"); !a.must.once[k] {
			all[k] = true
		}
	}
	c, isCall := i.(ssa.CallInstruction)
	if _, ok := i.(*ssa.Go); ok {
		return
	}
	if isCall {
		if addr, op, _ := lockOp(c.Common()); op > 0 {
			n := lockName(addr)
			r.ok("reentry", name+"/"+n)
			if all[n] && n != "?" && !otherObject(fn, addr, n) {
				r.viol("reentry", name+"/"+n, p.iPos(i), n+" is taken while it may already be held", nil)
			}
			for k := range all {
				a.edge(k, n, p.iPos(i)+" in "+name)
			}
			return
		}
		for _, g := range a.callees(i) {
			for n := range a.acq[g] {
				for k := range all {
					a.edge(k, n, p.iPos(i)+" in "+name)
				}
				if all[n] {
					r.viol("reentry", name+"/"+p.fnName(g)+"/"+n, p.iPos(i), n+" is taken again by "+p.fnName(g)+" while it may be held", nil)
				}
			}
		}
	}
	if len(all) == 0 {
		return
	}
	what := waits(i)
	for _, g := range a.callees(i) {
		if what == "" && a.blk[g] != "" {
			what = a.blk[g] + " (in " + p.fnName(g) + ")"
		}
	}
	if what != "" {
		var ks []string
		for k := range all {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		r.viol("waits", name+"/"+what, p.iPos(i), what+" while holding "+strings.Join(ks, ", "), nil)
	}
}

// otherObject: the lock belongs to an object created in this function.
func otherObject(fn *ssa.Function, addr ssa.Value, n string) bool {
	if fa, ok := addr.(*ssa.FieldAddr); ok {
		_, ok := fa.X.(*ssa.Alloc)
		return ok
	}
	return false
}

// foreignChan: the channel belongs to a library (a context, a connection), whose progress does not
// depend on locks of this program. Timers count as waiting.
func foreignChan(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	n := calleeName(c.Common())
	return !strings.Contains(n, "routedns") && !strings.HasPrefix(strings.TrimLeft(n, "(*"), "time.")
}

// waits names what an instruction may wait for.
func waits(i ssa.Instruction) string {
	switch i := i.(type) {
	case *ssa.Send:
		return "waiting to send on a channel"
	case *ssa.UnOp:
		if i.Op == token.ARROW && !foreignChan(i.X) {
			return "waiting for a channel"
		}
	case *ssa.Select:
		if i.Blocking {
			for _, s := range i.States {
				if !foreignChan(s.Chan) {
					return "waiting for channels"
				}
			}
		}
	case *ssa.Range:
		if _, ok := i.X.Type().Underlying().(*types.Chan); ok {
			return "waiting for a channel"
		}
	case *ssa.Call:
		c := i.Common()
		if c.IsInvoke() && isResolveCall(c) {
			return "waiting for another resolver"
		}
		switch n := calleeName(c); n {
		case "time.Sleep", "(sync.WaitGroup).Wait", "(sync.Cond).Wait":
			return "waiting in " + n
		}
	}
	return ""
}

func (a *c18) edge(from, to, where string) {
	if from == to {
		return
	}
	if a.order[from] == nil {
		a.order[from] = map[string]string{}
	}
	if _, ok := a.order[from][to]; !ok {
		a.order[from][to] = where
		if os.Getenv("RD_DEBUG") != "" {
			fmt.Println("order", from, "->", to, where)
		}
	}
}

func (a *c18) cycles() {
	var froms []string
	for f := range a.order {
		froms = append(froms, f)
	}
	sort.Strings(froms)
	a.r.ok("order", fmt.Sprintf("%d locks are taken while others are held", len(froms)))
	for _, f := range froms {
		// is f reachable from f
		seen := map[string]bool{}
		var path []string
		var rec func(x string) bool
		rec = func(x string) bool {
			var tos []string
			for t := range a.order[x] {
				tos = append(tos, t)
			}
			sort.Strings(tos)
			for _, t := range tos {
				if t == f {
					path = append(path, x+" then "+t+" at "+a.order[x][t])
					return true
				}
				if !seen[t] {
					seen[t] = true
					if rec(t) {
						path = append(path, x+" then "+t+" at "+a.order[x][t])
						return true
					}
				}
			}
			return false
		}
		if rec(f) {
			a.r.viol("order", f, "", "locks are taken in conflicting orders: "+strings.Join(path, "; "), nil)
		}
	}
}
