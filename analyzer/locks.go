package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lock sets: which locks are certainly held at every instruction of the program. Locks are named by
// the field that holds them ("failrotate.mu"), by variable for global and local ones. A lock held for
// reading only has the suffix "/r".

type lockset map[string]bool

func (l lockset) has(name string) bool { return l[name] || l[name+"/r"] }

func (l lockset) copy() lockset {
	n := lockset{}
	for k := range l {
		n[k] = true
	}
	return n
}

func (l lockset) String() string {
	var s []string
	for k := range l {
		s = append(s, k)
	}
	sort.Strings(s)
	return "{" + strings.Join(s, " ") + "}"
}

// meet intersects; write-held meets read-held as read-held. nil is "everything" (unreached).
func meetLocks(a, b lockset) lockset {
	if a == nil {
		return b.copy()
	}
	n := lockset{}
	for k := range a {
		base := strings.TrimSuffix(k, "/r")
		if b[k] {
			n[k] = true
		} else if b.has(base) {
			n[base+"/r"] = true
		}
	}
	return n
}

func sameLocks(a, b lockset) bool {
	if len(a) != len(b) || (a == nil) != (b == nil) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

type locks struct {
	p      *Prog
	entry  map[*ssa.Function]lockset
	at     map[ssa.Instruction]lockset
	gained map[*ssa.Function]lockset // locks certainly held at return that were not at entry
	lost   map[*ssa.Function]lockset // locks possibly released
	root   map[*ssa.Function]bool
	refs   map[*ssa.Function]int
	once   map[string]bool
}

// lockName names the lock (or once, channel, ...) at an address.
func lockName(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		st := deref(v.X.Type())
		return typeName(st) + "." + fieldName(st, v.Field)
	case *ssa.Global:
		return "var " + v.Name()
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return lockName(v.X)
		}
	case *ssa.Alloc:
		return "local " + v.Parent().Name() + "." + v.Comment
	case *ssa.FreeVar:
		// the variable of the enclosing function
		if fn := v.Parent().Parent(); fn != nil {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == v.Parent() {
						for i, f := range v.Parent().FreeVars {
							if f == v {
								return lockName(mc.Bindings[i])
							}
						}
					}
				}
			}
		}
	case *ssa.Parameter:
		return "param " + v.Parent().Name() + "." + v.Name()
	case *ssa.Phi:
		n := ""
		for _, x := range v.Edges {
			if m := lockName(x); n == "" {
				n = m
			} else if n != m {
				return "?"
			}
		}
		return n
	}
	return "?"
}

func typeName(t types.Type) string {
	t = deref(t)
	if n, ok := t.(*types.Named); ok {
		n = n.Origin()
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Name() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	if a, ok := t.(*types.Alias); ok {
		return typeName(types.Unalias(a))
	}
	return t.String()
}

// lockOp recognises an operation on a lock: +1 lock, -1 unlock; read for shared mode.
func lockOp(c *ssa.CallCommon) (addr ssa.Value, op int, read bool) {
	n := calleeName(c)
	i := strings.LastIndex(n, ".")
	if i < 0 {
		return nil, 0, false
	}
	recv, m := n[:i], n[i+1:]
	if !strings.Contains(recv, "sync.Mutex") && !strings.Contains(recv, "sync.RWMutex") && !(c.IsInvoke() && isNamedT(c.Value.Type(), "sync", "Locker")) {
		return nil, 0, false
	}
	if c.IsInvoke() {
		addr = c.Value
	} else if len(c.Args) > 0 {
		addr = c.Args[0]
	} else {
		return nil, 0, false
	}
	switch m {
	case "Lock":
		return addr, 1, false
	case "RLock":
		return addr, 1, true
	case "Unlock":
		return addr, -1, false
	case "RUnlock":
		return addr, -1, true
	}
	return nil, 0, false
}

// syncCall tells whether functions given to a call run before it returns.
func (l *locks) syncCall(c *ssa.CallCommon) bool {
	n := strings.TrimLeft(calleeName(c), "(*")
	for _, p := range []string{"sort.", "slices.", "maps.", "strings.", "bytes.", "sync.Once", "iter.", "expvar."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	f := c.StaticCallee()
	return f != nil && l.p.inRepo(f)
}

func (p *Prog) lockSets() *locks {
	if p.lockMemo != nil {
		return p.lockMemo
	}
	l := &locks{p: p, entry: map[*ssa.Function]lockset{}, at: map[ssa.Instruction]lockset{}, gained: map[*ssa.Function]lockset{}, lost: map[*ssa.Function]lockset{}, root: map[*ssa.Function]bool{}, refs: map[*ssa.Function]int{}, once: map[string]bool{}}
	p.lockMemo = l
	called := map[*ssa.Function]bool{}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, e := range l.edges(in) {
					l.refs[e.fn]++
					if e.sync {
						called[e.fn] = true
					} else {
						l.root[e.fn] = true
					}
				}
			}
		}
	}
	for _, fn := range p.funcs {
		if !called[fn] || fn.Parent() == nil && fn.Object() != nil && fn.Object().Exported() {
			l.root[fn] = true
		}
		if l.root[fn] {
			l.entry[fn] = lockset{}
		}
	}
	for round := 0; round < 50; round++ {
		changed := false
		for _, fn := range p.funcs {
			if l.entry[fn] == nil {
				continue
			}
			if l.function(fn) {
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	return l
}

type lockEdge struct {
	fn   *ssa.Function
	sync bool
}

// edges lists the functions an instruction calls or hands out.
func (l *locks) edges(in ssa.Instruction) []lockEdge {
	var out []lockEdge
	fnOf := func(v ssa.Value) *ssa.Function {
		switch v := v.(type) {
		case *ssa.Function:
			return l.p.unwrap(v)
		case *ssa.MakeClosure:
			return l.p.unwrap(v.Fn.(*ssa.Function))
		}
		return nil
	}
	add := func(f *ssa.Function, sync bool) {
		if f != nil && l.p.inRepo(f) && len(f.Blocks) > 0 {
			out = append(out, lockEdge{f, sync})
		}
	}
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		if _, ok := in.(*ssa.MakeClosure); ok {
			return nil
		}
		for _, op := range in.Operands(nil) {
			if f := fnOf(*op); f != nil {
				// a local function kept in a variable is called in the same function or stored
				add(f, false)
			}
		}
		return out
	}
	cc := c.Common()
	_, isGo := in.(*ssa.Go)
	if cc.IsInvoke() {
		for _, f := range l.p.impls(cc) {
			add(f, !isGo)
		}
	} else {
		add(fnOf(cc.Value), !isGo)
	}
	for _, a := range cc.Args {
		for {
			if ct, ok := a.(*ssa.ChangeType); ok {
				a = ct.X
				continue
			}
			break
		}
		if f := fnOf(a); f != nil {
			add(f, !isGo && l.syncCall(cc))
		}
	}
	return out
}

func (l *locks) function(fn *ssa.Function) bool {
	changed := false
	in := map[*ssa.BasicBlock]lockset{fn.Blocks[0]: l.entry[fn]}
	lost := lockset{}
	deferred := lockset{}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if d, ok := i.(*ssa.Defer); ok {
				if a, op, _ := lockOp(d.Common()); op < 0 {
					deferred[lockName(a)] = true
				} else if f := d.Common().StaticCallee(); f != nil {
					for k := range l.lost[f] {
						deferred[k] = true
					}
				}
			}
		}
	}
	var exit lockset
	drop := func(s lockset, name string) {
		delete(s, name)
		delete(s, name+"/r")
	}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for n := 0; len(work) > 0 && n < 5000; n++ {
		b := work[0]
		work = work[1:]
		cur := in[b].copy()
		for _, i := range b.Instrs {
			l.at[i] = cur.copy()
			for _, e := range l.edges(i) {
				if !e.sync {
					// what a sync.Once has done stays done in tasks started afterwards
					if _, ok := i.(*ssa.Go); ok && l.refs[e.fn] == 1 {
						for k := range cur {
							if l.once[strings.TrimSuffix(k, "/r")] && !l.entry[e.fn].has(strings.TrimSuffix(k, "/r")) {
								l.entry[e.fn][strings.TrimSuffix(k, "/r")+"/r"] = true
								changed = true
							}
						}
					}
					continue
				}
				ls := cur
				if _, ok := i.(*ssa.Defer); ok {
					// deferred functions run with what is held at exit: only what entered
					ls = lockset{}
					for k := range cur {
						if l.entry[fn][k] || !deferred[strings.TrimSuffix(k, "/r")] {
							ls[k] = true
						}
					}
				}
				if c, ok := i.(ssa.CallInstruction); ok && strings.Contains(calleeName(c.Common()), "sync.Once") {
					ls = ls.copy()
					ls[lockName(c.Common().Args[0])] = true
					l.once[lockName(c.Common().Args[0])] = true
				}
				old := l.entry[e.fn]
				nw := meetLocks(old, ls)
				if l.root[e.fn] {
					nw = lockset{}
				}
				if old == nil || !sameLocks(old, nw) {
					l.entry[e.fn] = nw
					changed = true
				}
			}
			switch i := i.(type) {
			case *ssa.Call:
				if a, op, rd := lockOp(i.Common()); op != 0 {
					name := lockName(a)
					drop(cur, name)
					if op > 0 {
						if rd {
							name += "/r"
						}
						cur[name] = true
					} else {
						lost[name] = true
					}
				} else if f := i.Common().StaticCallee(); f != nil {
					if strings.Contains(calleeName(i.Common()), "sync.Once") {
						cur[lockName(i.Common().Args[0])+"/r"] = true
						break
					}
					for k := range l.lost[f] {
						drop(cur, k)
						lost[k] = true
					}
					for k := range l.gained[f] {
						cur[k] = true
					}
				}
			case *ssa.RunDefers:
				for k := range deferred {
					drop(cur, k)
					lost[k] = true
				}
			case *ssa.Return:
				exit = meetLocks(exit, cur)
			}
		}
		for _, s := range b.Succs {
			nw := meetLocks(in[s], cur)
			if in[s] == nil || !sameLocks(in[s], nw) {
				in[s] = nw
				work = append(work, s)
			}
		}
	}
	gained := lockset{}
	for k := range exit {
		if !l.entry[fn][k] {
			gained[k] = true
		}
	}
	for k := range gained {
		delete(lost, strings.TrimSuffix(k, "/r"))
	}
	if !sameLocks(l.gained[fn], gained) || !sameLocks(l.lost[fn], lost) {
		l.gained[fn], l.lost[fn] = gained, lost
		changed = true
	}
	return changed
}
