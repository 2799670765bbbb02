package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", `Lock-set analysis. Every access to a field or package variable that code running for queries, timers, reloads or background tasks modifies is listed with the locks certainly held there (computed over the whole program, through calls). One lock must be held at all of them, for writing at every modification; alternatively the field is set before a channel is closed and read after receiving from it, or set once under sync.Once, or accessed by atomics only. Objects still private to the function that created them are exempt.`,
		runC17, "two objects of one type are guarded alike: locks are named by type and field")
}

type access struct {
	in    ssa.Instruction
	fn    *ssa.Function
	base  ssa.Value
	write bool
	ls    lockset
	how   string
}

func runC17(p *Prog, r *Report) {
	l := p.lockSets()
	conc := p.concurrent()
	query, tasks := p.tasks()
	fr := &freshness{p: p, memo: map[ssa.Value]int{}}
	acc := map[string][]access{}
	for _, fn := range p.funcs {
		if !conc[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, a := range accesses(p, in) {
					if a.base != nil && fr.fresh(a.base, in) {
						continue
					}
					a.a.fn, a.a.in, a.a.base, a.a.ls = fn, in, a.base, l.at[in]
					acc[a.name] = append(acc[a.name], a.a)
				}
			}
		}
	}
	var names []string
	for n, as := range acc {
		for _, a := range as {
			if a.write {
				names = append(names, n)
				break
			}
		}
	}
	sort.Strings(names)
	for _, n := range names {
		as := acc[n]
		if os.Getenv("RD_DEBUG") != "" {
			fmt.Println("==", n)
			for _, a := range as {
				fmt.Printf("   %-5v %s %s %s %s\n", a.write, p.iPos(a.in), p.fnName(a.fn), a.ls, a.how)
			}
		}
		c17Field(p, r, n, as, query, tasks)
	}
	r.atLeast("guarded", 20)
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					c17Captured(p, r, l, g)
				}
				if c, ok := in.(*ssa.Call); ok && calleeName(c.Common()) == "time.AfterFunc" {
					c17Captured(p, r, l, c)
				}
			}
		}
	}
}

// concurrent returns the functions that may run while queries are being processed.
func (p *Prog) concurrent() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	add := func(fn *ssa.Function) {
		for f := range p.reach(fn) {
			out[f] = true
		}
	}
	for _, fn := range p.resolvers() {
		add(fn)
	}
	d, h := p.handlers()
	for _, fn := range append(d, h...) {
		add(fn)
	}
	for _, fn := range p.startMethods() {
		add(fn)
	}
	for fn := range p.escaping() {
		if p.inRepo(fn) && fn.Pkg != p.cmd && fn.Parent() == nil {
			add(fn)
		}
	}
	for _, fn := range p.funcs {
		switch fn.Name() {
		case "Stop", "Close", "Shutdown":
			if fn.Signature.Recv() != nil {
				add(fn)
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					c := g.Common()
					if c.IsInvoke() {
						for _, f := range p.impls(c) {
							add(f)
						}
					} else if f := c.StaticCallee(); f != nil && p.inRepo(f) {
						add(f)
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && strings.HasPrefix(calleeName(c.Common()), "time.AfterFunc") {
					for _, a := range c.Common().Args {
						if mc, ok := a.(*ssa.MakeClosure); ok {
							add(p.unwrap(mc.Fn.(*ssa.Function)))
						}
					}
				}
			}
		}
	}
	return out
}

// tasks separates what runs for queries, or in tasks of which there can be many per object, from the
// background tasks that are started once when an object is created.
func (p *Prog) tasks() (query map[*ssa.Function]bool, tasks map[*ssa.Function]map[*ssa.Function]bool) {
	query = map[*ssa.Function]bool{}
	tasks = map[*ssa.Function]map[*ssa.Function]bool{}
	add := func(fn *ssa.Function) {
		for f := range p.reach(fn) {
			query[f] = true
		}
	}
	for _, fn := range p.resolvers() {
		add(fn)
	}
	d, h := p.handlers()
	for _, fn := range append(append(d, h...), p.startMethods()...) {
		add(fn)
	}
	for fn := range p.escaping() {
		if p.inRepo(fn) && fn.Pkg != p.cmd && fn.Parent() == nil {
			add(fn)
		}
	}
	// what a function does itself, not in the tasks it starts
	for changed := true; changed; {
		changed = false
		for _, fn := range p.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					g, ok := in.(*ssa.Go)
					if !ok {
						continue
					}
					f := g.Common().StaticCallee()
					if f == nil || !p.inRepo(f) {
						continue
					}
					many := query[fn] || inLoop(b)
					for _, t := range tasks {
						many = many || t[fn]
					}
					if many && !query[f] {
						add(f)
						changed = true
					}
					if !many && tasks[f] == nil {
						tasks[f] = p.reach(f)
						changed = true
					}
				}
			}
		}
	}
	return
}

func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if !seen[x] {
			seen[x] = true
			work = append(work, x.Succs...)
		}
	}
	return false
}

type namedAccess struct {
	name string
	base ssa.Value
	a    access
}

// place names the field or global an address designates, and the pointer to the struct it is in.
func place(v ssa.Value) (string, ssa.Value) { return placeD(v, 8) }

func placeD(v ssa.Value, d int) (string, ssa.Value) {
	if d == 0 {
		return "", nil
	}
	switch v := v.(type) {
	case *ssa.FieldAddr:
		t := deref(v.X.Type())
		n := fieldName(t, v.Field)
		if _, ok := t.(*types.Named); !ok {
			// anonymous struct: named by its holder
			if h, b := placeD(v.X, d-1); h != "" {
				return h + "." + n, b
			}
			return "", nil
		}
		// struct embedded by value belongs to its holder
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			if _, b := placeD(fa, d-1); b != nil {
				return typeName(t) + "." + n, b
			}
		}
		return typeName(t) + "." + n, v.X
	case *ssa.Global:
		return "var " + v.Pkg.Pkg.Name() + "." + v.Name(), nil
	case *ssa.IndexAddr:
		return placeD(v.X, d-1)
	case *ssa.UnOp:
		// contents of a slice or map held in a field
		if v.Op == token.MUL {
			switch v.Type().Underlying().(type) {
			case *types.Slice, *types.Map:
				if n, b := placeD(v.X, d-1); n != "" {
					return n + "[]", b
				}
			}
		}
		// what a pointer held there points to
		if isPtr(v.Type()) && !isStruct(deref(v.Type())) {
			if n, b := placeD(v.X, d-1); n != "" {
				return n + "*", b
			}
		}
	case *ssa.Slice:
		return placeD(v.X, d-1)
	case *ssa.Lookup:
		if isPtr(v.Type()) && !isStruct(deref(v.Type())) {
			if n, b := placeD(v.X, d-1); n != "" {
				return n + "*", b
			}
		}
	case *ssa.Extract:
		if l, ok := v.Tuple.(*ssa.Lookup); ok && v.Index == 0 && isPtr(v.Type()) && !isStruct(deref(v.Type())) {
			if n, b := placeD(l.X, d-1); n != "" {
				return n + "*", b
			}
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			switch e.(type) {
			case *ssa.Phi, *ssa.Alloc:
				continue
			}
			if n, b := placeD(e, d-1); n != "" {
				return n, b
			}
		}
	}
	return "", nil
}

func repoPlace(p *Prog, n string) bool {
	i := strings.Index(n, ".")
	if i < 0 {
		return false
	}
	pk := strings.TrimPrefix(n[:i], "var ")
	for _, q := range []*ssa.Package{p.root, p.sec, p.cmd} {
		if q != nil && q.Pkg.Name() == pk {
			return true
		}
	}
	return false
}

func syncType(t types.Type) bool {
	if n, ok := deref(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "sync/atomic", "expvar":
			return true
		}
	}
	return false
}

// accesses lists the reads and writes an instruction performs on shared places.
func accesses(p *Prog, in ssa.Instruction) []namedAccess {
	var out []namedAccess
	add := func(addr ssa.Value, write bool, how string) {
		n, b := place(addr)
		if n != "" && repoPlace(p, n) {
			out = append(out, namedAccess{n, b, access{write: write, how: how}})
		}
	}
	switch in := in.(type) {
	case *ssa.Store:
		add(in.Addr, true, "store")
	case *ssa.UnOp:
		if in.Op == token.MUL && !syncType(in.Type()) {
			add(in.X, false, "load")
		}
	case *ssa.MapUpdate:
		add(in.Map, true, "map update")
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			add(in.X, false, "map lookup")
		}
	case *ssa.Range:
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			add(in.X, false, "map range")
		}
	case ssa.CallInstruction:
		c := in.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete", "clear":
				add(c.Args[0], true, b.Name())
			case "len":
				if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
					add(c.Args[0], false, "len")
				}
			case "copy":
				add(c.Args[0], true, "copy")
				add(c.Args[1], false, "copy")
			}
			break
		}
		n := calleeName(c)
		if strings.HasPrefix(n, "sync/atomic.") && len(c.Args) > 0 {
			nm, b := place(c.Args[0])
			if nm != "" {
				out = append(out, namedAccess{nm, b, access{write: !strings.Contains(n, ".Load"), how: "atomic"}})
			}
		}
		// methods of types that are not safe for concurrent use
		if len(c.Args) > 0 && !c.IsInvoke() {
			for _, pre := range []string{"(*math/rand.Rand).", "(*math/rand/v2.Rand).", "(*container/list.List).", "(*container/heap", "(*bytes.Buffer).", "(*bufio.Writer).", "(*encoding/json.Encoder)."} {
				if strings.HasPrefix(n, pre) {
					if u, ok := c.Args[0].(*ssa.UnOp); ok && u.Op == token.MUL {
						if nm, b := place(u.X); nm != "" && repoPlace(p, nm) {
							out = append(out, namedAccess{nm + "[]", b, access{write: true, how: n}})
						}
					} else {
						add(c.Args[0], true, n)
					}
				}
			}
		}
	}
	return out
}

func c17Field(p *Prog, r *Report, n string, as []access, query map[*ssa.Function]bool, tasks map[*ssa.Function]map[*ssa.Function]bool) {
	// candidates
	cand := map[string]int{}
	atomics := 0
	for i := range as {
		if as[i].how == "atomic" {
			atomics++
		}
		for _, s := range chanSync(as[i]) {
			if as[i].ls == nil {
				as[i].ls = lockset{}
			}
			as[i].ls = as[i].ls.copy()
			as[i].ls[s] = true
		}
		for k := range as[i].ls {
			cand[strings.TrimSuffix(k, "/r")]++
		}
	}
	if atomics == len(as) {
		r.ok("guarded", n)
		return
	}
	best, score := "", -1
	for k := range cand {
		s := 0
		for _, a := range as {
			if a.ls[k] || !a.write && a.ls.has(k) {
				s++
			}
		}
		if s > score || s == score && k < best {
			best, score = k, s
		}
	}
	if score == len(as) {
		r.ok("guarded", n)
		return
	}
	held := func(a access) bool { return best != "" && (a.ls[best] || !a.write && a.ls.has(best)) }
	// background tasks that modify the field; one per object
	var owners []*ssa.Function
	owned := true
	for _, a := range as {
		if !a.write {
			continue
		}
		if query[a.fn] {
			owned = false
		}
		for t, m := range tasks {
			if m[a.fn] {
				owners = append(owners, t)
			}
		}
	}
	owned = owned && len(owners) > 0
	private := owned // nothing but the owning tasks uses it
	for _, a := range as {
		in := false
		for _, t := range owners {
			in = in || tasks[t][a.fn]
		}
		private = private && in && !query[a.fn]
	}
	// set at most once: only when found unset
	once := true
	for _, a := range as {
		if a.write {
			once = once && held(a) && setWhenNil(a)
		}
	}
	for _, a := range as {
		if held(a) {
			continue
		}
		if owned && !query[a.fn] && (!a.write || private) {
			mine := 0
			for _, t := range owners {
				if tasks[t][a.fn] {
					mine++
				}
			}
			// confined to the tasks that modify it
			if mine == len(owners) {
				r.ok("guarded", n)
				continue
			}
		}
		if once && !a.write {
			seen := false
			for _, b := range as {
				seen = seen || b.fn == a.fn && held(b) && b.base == a.base && precedes(b.in, a.in)
			}
			if seen {
				r.ok("guarded", n)
				continue
			}
		}
		w := "read"
		if a.write {
			w = "modified"
		}
		msg := n + " is " + w + " without a lock although it can be modified concurrently"
		if best != "" {
			msg = n + " is " + w + " without " + best + ", which guards its other uses"
			if a.ls.has(best) {
				msg = n + " is modified while " + best + " is held for reading only"
			}
		}
		r.viol("guarded", n+"/"+p.fnName(a.fn), p.iPos(a.in), msg, nil)
	}
}

// chanSync: the access is ordered by a channel kept in the same struct. A write is followed on every
// path by closing the channel; a read comes after a receive from it.
func chanSync(a access) []string {
	if a.base == nil {
		return nil
	}
	st, ok := deref(a.base.Type()).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Chan); !ok {
			continue
		}
		fld := i
		isChan := func(v ssa.Value) bool {
			u, ok := v.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				return false
			}
			fa, ok := u.X.(*ssa.FieldAddr)
			return ok && fa.Field == fld && fa.X == a.base
		}
		name := "chan " + typeName(a.base.Type()) + "." + st.Field(i).Name()
		if a.write {
			if mustReach(a.in, func(in ssa.Instruction) bool {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					return false
				}
				b, ok := c.Common().Value.(*ssa.Builtin)
				return ok && b.Name() == "close" && isChan(c.Common().Args[0])
			}) {
				out = append(out, name)
			}
			continue
		}
		// a read: dominated by a receive, or by its own write
		for _, b := range a.in.Parent().Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.UnOp:
					if in.Op == token.ARROW && isChan(in.X) && precedes(in, a.in) {
						out = append(out, name)
					}
				case *ssa.Select:
					for k, s := range in.States {
						if s.Dir == types.RecvOnly && isChan(s.Chan) {
							if blk := selectCase(in, k); blk != nil && blk.Dominates(a.in.Block()) {
								out = append(out, name)
							}
						}
					}
				}
			}
		}
	}
	return out
}

func precedes(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

// selectCase returns the block entered when case k of a select was chosen.
func selectCase(s *ssa.Select, k int) *ssa.BasicBlock {
	for _, ref := range *s.Referrers() {
		ex, ok := ref.(*ssa.Extract)
		if !ok || ex.Index != 0 {
			continue
		}
		for _, u := range *ex.Referrers() {
			bo, ok := u.(*ssa.BinOp)
			if !ok || bo.Op != token.EQL {
				continue
			}
			c, ok := bo.Y.(*ssa.Const)
			if !ok || c.Int64() != int64(k) {
				continue
			}
			for _, f := range *bo.Referrers() {
				if _, ok := f.(*ssa.If); ok {
					return f.Block().Succs[0]
				}
			}
		}
	}
	return nil
}

// mustReach: every path from in to a return passes an instruction satisfying pred (panics aside).
func mustReach(in ssa.Instruction, pred func(ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock, from int) bool
	rec = func(b *ssa.BasicBlock, from int) bool {
		for _, i := range b.Instrs[from:] {
			if pred(i) {
				return true
			}
			switch i.(type) {
			case *ssa.Return:
				return false
			case *ssa.Panic:
				return true
			}
		}
		for _, s := range b.Succs {
			if seen[s] {
				continue
			}
			seen[s] = true
			if !rec(s, 0) {
				return false
			}
		}
		return true
	}
	for i, x := range in.Block().Instrs {
		if x == in {
			return rec(in.Block(), i+1)
		}
	}
	return false
}

// ---------------------------------------------------------------------------------------------

// freshness decides whether a pointer certainly refers to an object other tasks cannot see yet.
type freshness struct {
	p    *Prog
	memo map[ssa.Value]int // 1 in progress/fresh, 2 shared
}

func (f *freshness) fresh(v ssa.Value, at ssa.Instruction) bool {
	return f.val(v, at, map[ssa.Value]bool{})
}

func (f *freshness) val(v ssa.Value, at ssa.Instruction, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Alloc:
		// a variable: holds a struct itself, or a pointer to be looked at
		return !f.published(v, at, seen)
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		return !f.published(v, at, seen)
	case *ssa.Const:
		return true
	case *ssa.FieldAddr:
		return f.val(v.X, at, seen)
	case *ssa.IndexAddr:
		return f.val(v.X, at, seen)
	case *ssa.Slice:
		return f.val(v.X, at, seen)
	case *ssa.ChangeType:
		return f.val(v.X, at, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !f.val(e, at, seen) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		return f.val(v.Tuple, at, seen)
	case *ssa.Lookup:
		return f.val(v.X, at, seen)
	case *ssa.TypeAssert:
		return f.val(v.X, at, seen)
	case *ssa.MakeInterface:
		return f.val(v.X, at, seen)
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return false
		}
		if a, ok := v.X.(*ssa.Alloc); ok {
			// local variable: what was stored into it
			if a.Heap && f.captured(a) {
				return false
			}
			any := false
			for _, ref := range *a.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == a {
					any = true
					if !f.val(s.Val, at, seen) {
						return false
					}
				}
			}
			if any {
				return true
			}
			return f.val(a, at, seen)
		}
		return f.val(v.X, at, seen)
	case *ssa.Call:
		if b, ok := v.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return f.val(v.Common().Args[0], at, seen) && !f.published(v, at, seen)
		}
		g := v.Common().StaticCallee()
		if g == nil || !f.p.inRepo(g) || len(g.Blocks) == 0 {
			return false
		}
		// constructors: every result is fresh
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				for _, x := range ret.Results {
					if isErrorType(x.Type()) {
						continue
					}
					switch x.Type().Underlying().(type) {
					case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
						if !f.val(x, ret, seen) {
							return false
						}
					}
				}
			}
		}
		return !f.published(v, at, seen)
	case *ssa.Parameter:
		return f.param(v)
	}
	return false
}

// param: every caller passes a fresh object.
func (f *freshness) param(v *ssa.Parameter) bool {
	if s, ok := f.memo[v]; ok {
		return s == 1
	}
	f.memo[v] = 1
	fn := v.Parent()
	idx := -1
	for i, q := range fn.Params {
		if q == v {
			idx = i
		}
	}
	ok, any := true, false
	if f.p.lockSets().root[fn] && !(fn.Object() != nil && fn.Object().Exported() && len(f.p.callersOf(fn)) > 0 && !f.p.escaping()[fn]) {
		ok = false
	}
	if ok {
		for _, c := range f.p.callersOf(fn) {
			any = true
			cc := c.Common()
			if _, isGo := c.(*ssa.Go); isGo || cc.IsInvoke() || idx >= len(cc.Args) || !f.fresh(cc.Args[idx], c) {
				ok = false
				break
			}
		}
	}
	if !ok || !any {
		f.memo[v] = 2
		return false
	}
	return true
}

// published: the object may have been made visible to others before at.
func (f *freshness) published(v ssa.Value, at ssa.Instruction, seen map[ssa.Value]bool) bool {
	if at.Parent() != v.Parent() {
		return false
	}
	for _, ref := range *v.Referrers() {
		pub := false
		switch ref := ref.(type) {
		case *ssa.Store:
			if ref.Val == v {
				if a, ok := ref.Addr.(*ssa.Alloc); ok && !f.captured(a) {
					break
				}
				pub = !f.val(ref.Addr, ref, seen)
			}
		case *ssa.MapUpdate:
			if ref.Value == v || ref.Key == v {
				pub = !f.val(ref.Map, ref, seen)
			}
		case *ssa.Send:
			pub = ref.X == v
		case *ssa.Go:
			pub = true
		case *ssa.MakeClosure:
			pub = f.goesAway(ref)
		}
		if pub && reachableFrom(ref, at) {
			return true
		}
	}
	return false
}

func (f *freshness) captured(a *ssa.Alloc) bool {
	for _, ref := range *a.Referrers() {
		if mc, ok := ref.(*ssa.MakeClosure); ok && f.goesAway(mc) {
			return true
		}
	}
	return false
}

// goesAway: the closure may run in another task.
func (f *freshness) goesAway(mc *ssa.MakeClosure) bool {
	for _, ref := range *mc.Referrers() {
		switch ref := ref.(type) {
		case *ssa.Call, *ssa.Defer:
			if c := ref.(ssa.CallInstruction).Common(); c.Value != mc && !f.p.lockSets().syncCall(c) {
				return true
			}
		case *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

func reachableFrom(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() && precedes(a, b) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Block().Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b.Block() {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

// callersOf lists the static call sites of a function.
func (p *Prog) callersOf(fn *ssa.Function) []ssa.CallInstruction {
	if p.callerMemo == nil {
		p.callerMemo = map[*ssa.Function][]ssa.CallInstruction{}
		for _, f := range p.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if c.Common().IsInvoke() {
							for _, g := range p.impls(c.Common()) {
								p.callerMemo[g] = append(p.callerMemo[g], c)
							}
						} else if g := c.Common().StaticCallee(); g != nil {
							p.callerMemo[g] = append(p.callerMemo[g], c)
						}
					}
				}
			}
		}
	}
	return p.callerMemo[fn]
}

// setWhenNil: the store happens only on finding the place nil.
func setWhenNil(a access) bool {
	for _, b := range a.fn.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok || c.Op != token.EQL && c.Op != token.NEQ {
			continue
		}
		x, y := c.X, c.Y
		if k, ok := x.(*ssa.Const); ok && k.IsNil() {
			x, y = y, x
		}
		if k, ok := y.(*ssa.Const); !ok || !k.IsNil() {
			continue
		}
		u, ok := x.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			continue
		}
		st, ok := a.in.(*ssa.Store)
		if !ok {
			return false
		}
		n1, b1 := place(u.X)
		n2, b2 := place(st.Addr)
		if n1 != n2 || b1 != b2 {
			continue
		}
		s := b.Succs[0]
		if c.Op == token.NEQ {
			s = b.Succs[1]
		}
		if len(s.Preds) == 1 && s.Dominates(a.in.Block()) {
			return true
		}
	}
	return false
}

// c17Captured: local variables shared with a task started here.
func c17Captured(p *Prog, r *Report, l *locks, g ssa.CallInstruction) {
	mc, ok := g.Common().Value.(*ssa.MakeClosure)
	if !ok && len(g.Common().Args) == 2 {
		mc, ok = g.Common().Args[1].(*ssa.MakeClosure)
	}
	if !ok {
		return
	}
	fn := g.Parent()
	for i, bnd := range mc.Bindings {
		v, ok := bnd.(*ssa.Alloc)
		if !ok || syncType(v.Type()) {
			continue
		}
		var inside, outside []access
		var scan func(f *ssa.Function, v ssa.Value)
		scan = func(f *ssa.Function, v ssa.Value) {
			for _, ref := range *v.Referrers() {
				switch ref := ref.(type) {
				case *ssa.Store:
					if ref.Addr == v {
						inside = append(inside, access{in: ref, fn: f, write: true, ls: l.at[ref]})
					}
				case *ssa.UnOp:
					inside = append(inside, access{in: ref, fn: f, ls: l.at[ref]})
				case *ssa.MakeClosure:
					for j, x := range ref.Bindings {
						if x == v {
							h := ref.Fn.(*ssa.Function)
							scan(h, h.FreeVars[j])
						}
					}
				}
			}
		}
		cl := mc.Fn.(*ssa.Function)
		scan(cl, cl.FreeVars[i])
		for _, ref := range *v.Referrers() {
			w := false
			switch ref := ref.(type) {
			case *ssa.Store:
				if ref.Addr != v {
					continue
				}
				w = true
			case *ssa.UnOp:
			default:
				continue
			}
			// a variable declared inside a loop is a new one in each round
			if !reachableAvoiding(g, ref, v) {
				continue
			}
			if !w && waited(g, ref) {
				continue
			}
			outside = append(outside, access{in: ref, fn: fn, write: w, ls: l.at[ref]})
		}
		key := p.fnName(fn) + "/" + v.Comment
		bad := func(a, b access) bool {
			if !a.write && !b.write {
				return false
			}
			for k := range a.ls {
				if b.ls.has(strings.TrimSuffix(k, "/r")) {
					return false
				}
			}
			return true
		}
		r.ok("captured", key)
		for _, a := range inside {
			for _, b := range outside {
				if bad(a, b) {
					r.viol("captured", key, p.iPos(b.in), "variable "+v.Comment+" is used here while a task started before uses it, one of them modifying it", nil)
				}
			}
			if a.write && inLoop(g.Block()) && reachableAvoiding(g, g, v) && len(a.ls) == 0 {
				r.viol("captured", key, p.iPos(a.in), "variable "+v.Comment+" is modified by several tasks without synchronisation", nil)
			}
		}
	}
}

// waited: every path from g to the use passes a wait for other tasks.
func waited(g, use ssa.Instruction) bool {
	for _, b := range use.Parent().Blocks {
		for _, in := range b.Instrs {
			ok := false
			switch in := in.(type) {
			case *ssa.UnOp:
				ok = in.Op == token.ARROW
			case *ssa.Select:
				ok = in.Blocking
			case *ssa.Call:
				ok = strings.HasSuffix(calleeName(in.Common()), "WaitGroup).Wait")
			}
			if ok && precedes(in, use) && reachableFrom(g, in) {
				return true
			}
		}
	}
	return false
}

// reachableAvoiding: b can be reached from a without passing the creation of v.
func reachableAvoiding(a, b ssa.Instruction, v *ssa.Alloc) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var scan func(blk *ssa.BasicBlock, from int) bool
	scan = func(blk *ssa.BasicBlock, from int) bool {
		for _, in := range blk.Instrs[from:] {
			if in == b {
				return true
			}
			if in == ssa.Instruction(v) {
				return false
			}
		}
		for _, s := range blk.Succs {
			if !seen[s] {
				seen[s] = true
				if scan(s, 0) {
					return true
				}
			}
		}
		return false
	}
	for i, in := range a.Block().Instrs {
		if in == a {
			return scan(a.Block(), i+1)
		}
	}
	return false
}
