package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C12", `Key-completeness dataflow. Entry points are the Store, Lookup and Evict methods of every cache backend and every Resolve method that looks up shared answers in a map. On every path, each value used as a key (of a map that leads to messages, of a hash over a key structure, of a Redis command) must be built from the query's name (through a case-folding call only), type, class and checking-disabled bit; when the path saw an EDNS record from its DNSSEC-OK bit; and when the path saw a client-subnet option from its address and prefix length (or, for an option without address family, from the family). Text built piece by piece is followed through the builder; a flag may also be encoded by branching on it when the two branches build different keys. Key structures that are persisted must keep every field when encoded, rebuilt and compared. Queries with several questions never reach a cache or a merge.`,
		runC12, "hashing and formatting functions of the standard library keep different values apart")
}

const subnetT = "EDNS0_SUBNET"

// keyAttrs are the parts of the query that term t is built from.
func keyAttrs(e *Engine, st *State, t *Term, out map[string]bool) {
	type visit struct {
		t *Term
		f bool
	}
	seen := map[visit]bool{}
	var rec func(t *Term, folded bool)
	rec = func(t *Term, folded bool) {
		if seen[visit{t, folded}] {
			return
		}
		seen[visit{t, folded}] = true
		field := ""
		switch {
		case t.op == "fa" || t.op == "vf":
			field = t.s
		}
		switch field {
		case "Name":
			if folded {
				out["name"] = true
			} else {
				out["NAME"] = true
			}
		case "Qtype", "Qclass", "CheckingDisabled", "Family":
			out[field] = true
		case "Address", "SourceNetmask":
			out[field] = true
		}
		if t.op == "ld" && t.typ != nil && isNamedT(t.typ, dnsPath, "Question") {
			out["Qtype"], out["Qclass"] = true, true
			if !folded {
				out["NAME"] = true
			}
		}
		if t.op == "call" {
			n := t.callName()
			switch {
			case n == "("+dnsPath+".OPT).Do":
				out["Do"] = true
			case n == "strings.ToLower" || n == dnsPath+".CanonicalName" || n == "strings.ToUpper":
				folded = true
			case strings.HasSuffix(n, "strings.Builder).String"), strings.HasSuffix(n, "bytes.Buffer).String"), strings.HasSuffix(n, "bytes.Buffer).Bytes"), strings.HasSuffix(n, "maphash.Hash).Sum64"):
				for _, f := range flags(st, "w:") {
					out[f] = true
				}
			}
		}
		if t.op == "alloc" {
			for a, v := range st.mem {
				if rootOf(a) == t {
					rec(v, folded)
				}
			}
		}
		if t.op == "ld" && rootOf(t.args[0]).op == "alloc" { // set in a loop
			for _, f := range flags(st, fmt.Sprintf("s:%d:", rootOf(t.args[0]).id)) {
				out[f] = true
			}
		}
		if t.op == "vf" && t.args[0].op == "ld" { // a field of a loaded value, not the whole value
			rec(t.args[0].args[0], folded)
			return
		}
		if t.op == "phi" || t.op == "merge" {
			for in := range e.T.phiIn[t] {
				rec(in, folded)
			}
		}
		for _, a := range t.args {
			rec(a, folded)
		}
	}
	rec(t, false)
}

// armsDiffer: the two branches of x build different things (so that the branch encodes the condition).
func armsDiffer(x *ssa.If) bool {
	arm := func(i int) string {
		s := x.Block().Succs[i]
		if len(s.Preds) != 1 {
			return ""
		}
		var sb strings.Builder
		for _, b := range x.Parent().Blocks {
			if !s.Dominates(b) {
				continue
			}
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case ssa.CallInstruction:
					fmt.Fprintf(&sb, "%s(", calleeName(y.Common()))
					for _, a := range y.Common().Args {
						if c, ok := a.(*ssa.Const); ok {
							sb.WriteString(c.String())
						}
						sb.WriteByte(',')
					}
					sb.WriteByte(')')
				case *ssa.Store:
					fmt.Fprintf(&sb, "%s=", y.Addr.Name())
					if c, ok := y.Val.(*ssa.Const); ok {
						sb.WriteString(c.String())
					}
				}
			}
		}
		return sb.String()
	}
	if arm(0) != arm(1) {
		return true
	}
	// values chosen by the branch
	for _, b := range x.Parent().Blocks {
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			vals := map[int]ssa.Value{}
			for k, pr := range b.Preds {
				for i := 0; i < 2; i++ {
					s := x.Block().Succs[i]
					if pr == x.Block() && b == s || s != b && len(s.Preds) == 1 && s.Dominates(pr) {
						vals[i] = ph.Edges[k]
					}
				}
			}
			if vals[0] != nil && vals[1] != nil && vals[0] != vals[1] {
				return true
			}
		}
	}
	return false
}

// reachesMsg: a value of this type leads to a message.
func reachesMsg(t types.Type, depth int) bool {
	if depth > 4 {
		return false
	}
	if isNamed(t, dnsPath, "Msg") {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return reachesMsg(u.Elem(), depth+1)
	case *types.Slice:
		return reachesMsg(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if f := u.Field(i).Type(); !types.IsInterface(f) && reachesMsg(f, depth+1) {
				return true
			}
		}
	}
	return false
}

func answerMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok || !reachesMsg(m.Elem(), 0) {
		return false
	}
	b, ok := m.Key().Underlying().(*types.Basic)
	return !ok || b.Kind() == types.String
}

// reachesKey: the variable is a structure.
func reachesKey(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := deref(t).Underlying().(*types.Struct)
	return ok
}

// keySite returns the key values an instruction uses.
func keySite(in ssa.Instruction) []ssa.Value {
	switch x := in.(type) {
	case *ssa.MapUpdate:
		if answerMap(x.Map.Type()) {
			return []ssa.Value{x.Key}
		}
	case *ssa.Lookup:
		if answerMap(x.X.Type()) {
			return []ssa.Value{x.Index}
		}
	case ssa.CallInstruction:
		c := x.Common()
		n := calleeName(c)
		switch {
		case n == "builtin.delete" && answerMap(c.Args[0].Type()):
			return []ssa.Value{c.Args[1]}
		case n == "hash/maphash.Comparable":
			return []ssa.Value{c.Args[1]}
		case pkgOf(n) == "github.com/redis/go-redis/v9" || strings.HasPrefix(pkgOf(n), "github.com/go-redis/"):
			m := n[strings.LastIndex(n, ".")+1:]
			if !strings.HasPrefix(m, "Get") && !strings.HasPrefix(m, "Set") {
				return nil
			}
			for _, a := range c.Args {
				if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
					return []ssa.Value{a}
				}
			}
		}
	}
	return nil
}

func runC12(p *Prog, r *Report) {
	it := p.iface(p.root, "CacheBackend")
	entries := map[*ssa.Function]bool{}
	if it != nil {
		for _, t := range p.implementers(it) {
			for _, m := range []string{"Store", "Lookup", "Evict"} {
				if f := p.method(t, m); f != nil && p.inRepo(f) {
					entries[f] = true
				}
			}
		}
	}
	merging := map[*ssa.Function]bool{}
	for _, f := range p.resolvers() {
		p.staticReach(f, func(g *ssa.Function) bool {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if keySite(in) != nil {
						entries[f] = true
						merging[f] = true
					}
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() && it != nil && types.Identical(c.Common().Value.Type().Underlying(), it) {
						merging[f] = true
					}
				}
			}
			return true
		})
	}
	keyTypes := map[string]*types.Named{}
	for _, fn := range p.funcs {
		if entries[fn] || merging[fn] {
			c12Run(p, r, fn, entries, it, keyTypes)
		}
	}
	persisted := map[string]bool{}
	for _, fn := range p.funcs {
		c12Persist(p, r, fn, keyTypes, persisted)
	}
	r.atLeast("key-complete", 5)
	r.atLeast("one-question", 2)
	r.atLeast("key-kept", 2)
}

func reachesSite(p *Prog, f *ssa.Function) bool {
	found := false
	p.staticReach(f, func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if keySite(in) != nil {
					found = true
				}
			}
		}
		return !found
	})
	return found
}

func c12Run(p *Prog, r *Report, fn *ssa.Function, entries map[*ssa.Function]bool, it *types.Interface, keyTypes map[string]*types.Named) {
	rule := &Rule{FollowGo: true}
	entry := entries[fn]
	var relevant func(f *ssa.Function) bool
	rule.Inline = func(e *Engine, f *ssa.Function) bool {
		if f.Name() == "Resolve" && isResolveSig(f.Signature) || e.getInfo(f).size >= 400 || entries[f] {
			return false
		}
		return relevant(f)
	}
	relevant = func(f *ssa.Function) bool {
		for _, prm := range f.Params {
			t := prm.Type()
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
				if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "strings" || n.Obj().Pkg().Path() == "bytes") {
					return true
				}
				if i := f.Signature.Recv(); i == nil && reachesKey(t) {
					return true
				}
			}
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == dnsPath {
				return true
			}
		}
		return reachesSite(p, f)
	}
	rule.Keep = func(e *Engine, a *Term) bool {
		return e.T.contains(a, func(x *Term) bool {
			return x.op == "call" && strings.HasSuffix(x.callName(), ".Msg).IsEdns0") || x.isField("Question") || x.isField("Family") || x.op == "is" && strings.HasSuffix(x.s, "."+subnetT)
		})
	}
	isRes := fn.Name() == "Resolve" && isResolveSig(fn.Signature)
	absorb := func(e *Engine, st *State, t *Term) {
		m := map[string]bool{}
		keyAttrs(e, st, t, m)
		for a := range m {
			set(st, "w:"+a)
		}
	}
	single := func(e *Engine, st *State, in ssa.Instruction) {
		if !isRes {
			return
		}
		r.check("one-question", p.fnName(fn), p.iPos(in), has(st, "one"), "a query that may have several questions is cached or merged by its first one", st.path())
	}
	site := func(e *Engine, st *State, in ssa.Instruction, v ssa.Value) {
		t := e.ev(st, v)
		if n, ok := types.Unalias(v.Type()).(*types.Named); ok {
			if _, ok := n.Underlying().(*types.Struct); ok {
				keyTypes[n.String()] = n
			}
		}
		single(e, st, in)
		m := map[string]bool{}
		keyAttrs(e, st, t, m)
		key := p.fnName(fn)
		bad := func(what string) {
			r.viol("key-complete", key+"/"+what, p.iPos(in), "the key does not distinguish queries by "+what, st.path())
		}
		switch {
		case m["NAME"]:
			r.viol("key-complete", key+"/case", p.iPos(in), "the key contains the name without its letter case having been folded", st.path())
		case !m["name"]:
			bad("name")
		}
		if !m["Qtype"] {
			bad("type")
		}
		if !m["Qclass"] {
			bad("class")
		}
		if !m["CheckingDisabled"] && !has(st, "b:CheckingDisabled") {
			bad("the checking-disabled bit")
		}
		if has(st, "edns") && !m["Do"] && !has(st, "b:Do") {
			bad("the DNSSEC-OK bit")
		}
		if !has(st, "edns") && !has(st, "noedns") {
			bad("EDNS (it is not looked at)")
		}
		if has(st, "edns") && !has(st, "opts") {
			bad("client subnet (the options are not looked at)")
		}
		if has(st, "ecs") {
			if !m["Address"] && !has(st, "b:Address") && !(has(st, "nofam") && m["Family"]) {
				bad("client subnet address")
			}
			if !m["SourceNetmask"] && !(has(st, "nofam") && m["Family"]) {
				bad("client subnet length")
			}
		}
		r.ok("key-complete", key)
	}
	rule.Branch = func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
		if a.op == "bin" && a.s == "==" && a.args[1].isNil() && e.T.callsTo(a.args[0], ".Msg).IsEdns0") && a.args[0].op == "call" {
			if val {
				set(st, "noedns")
			} else {
				set(st, "edns")
			}
		}
		if a.op == "is" && strings.HasSuffix(a.s, "."+subnetT) && val {
			set(st, "ecs")
			unset(st, "nofam")
		}
		if a.op == "bin" && a.s == "==" && a.args[0].op != "const" && e.T.readsField(a.args[0], "Family") {
			if k, ok := a.args[1].intv(); ok {
				if val && (k == 1 || k == 2) {
					unset(st, "nofam")
					set(st, "fam")
				}
				if !val {
					set(st, fmt.Sprintf("nf%d", k))
					if has(st, "nf1") && has(st, "nf2") {
						set(st, "nofam")
					}
				}
			}
		}
		if in != nil && armsDiffer(in) {
			if a.op == "call" && a.callName() == "("+dnsPath+".OPT).Do" {
				set(st, "b:Do")
			}
			if a.isField("CheckingDisabled") {
				set(st, "b:CheckingDisabled")
			}
		}
		if a.op == "bin" {
			for _, x := range a.args {
				if x.op == "len" && e.T.readsField(x.args[0], "Address") {
					set(st, "b:Address") // not an address at all
				}
				if x.op == "len" && e.T.readsField(x.args[0], "Question") {
					if _, hi, _ := e.interval(st, x); hi != nil && *hi <= 1 {
						set(st, "one")
					}
				}
				if e.T.contains(x, func(y *Term) bool {
					return y.op == "len" && e.T.readsField(y.args[0], "Option")
				}) {
					set(st, "opts")
				}
			}
		}
	}
	rule.Instr = func(e *Engine, st *State, in ssa.Instruction) {
		if _, ok := in.(*ssa.TypeAssert); ok && strings.HasSuffix(in.(*ssa.TypeAssert).AssertedType.String(), subnetT) {
			set(st, "opts")
		}
		if x, ok := in.(*ssa.Store); ok {
			if a := rootOf(e.ev(st, x.Addr)); a.op == "alloc" && reachesKey(a.typ) {
				m := map[string]bool{}
				keyAttrs(e, st, e.ev(st, x.Val), m)
				for n := range m {
					set(st, fmt.Sprintf("s:%d:%s", a.id, n))
				}
			}
		}
		if _, ok := in.(ssa.CallInstruction); ok || !entry {
			return
		}
		for _, v := range keySite(in) {
			site(e, st, in, v)
		}
	}
	rule.BackEdge = func(e *Engine, st *State, from, head *ssa.BasicBlock) {
		for b := range loopBody(from, head) { // the next key is built from scratch
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if keySite(in) != nil || ok && c.Common().StaticCallee() != nil && p.inRepo(c.Common().StaticCallee()) && reachesSite(p, c.Common().StaticCallee()) {
					st.auto = ""
					return
				}
			}
		}
	}
	rule.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
		if c.C.IsInvoke() && it != nil && types.Identical(c.C.Value.Type().Underlying(), it) && (c.C.Method.Name() == "Store" || c.C.Method.Name() == "Lookup") {
			single(e, st, c.In)
		}
		if entry {
			for _, v := range keySite(c.In) {
				site(e, st, c.In, v)
			}
		}
		m := c.Name[strings.LastIndex(c.Name, ".")+1:]
		if c.Fn == nil || !p.inRepo(c.Fn) {
			if strings.HasPrefix(m, "Write") || strings.HasPrefix(m, "Fprint") {
				for _, a := range c.Args[1:] {
					absorb(e, st, a)
				}
			}
		}
		return nil
	}
	e := newEngine(p, rule)
	e.run(fn, "", nil)
	r.engine(e)
}

// leafFields lists the paths of the basic fields of a structure.
func leafFields(t types.Type, pre []string) [][]string {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return [][]string{append([]string(nil), pre...)}
	}
	var out [][]string
	for i := 0; i < s.NumFields(); i++ {
		out = append(out, leafFields(s.Field(i).Type(), append(append([]string(nil), pre...), s.Field(i).Name()))...)
	}
	return out
}

// c12Persist: functions that rebuild or compare keys, and encoders that persist them.
func c12Persist(p *Prog, r *Report, fn *ssa.Function, keyTypes map[string]*types.Named, done map[string]bool) {
	sig := fn.Signature
	keyOf := func(t types.Type) *types.Named {
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return keyTypes[n.String()]
		}
		return nil
	}
	// encoders
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok || pkgOf(calleeName(c.Common())) != "encoding/json" {
				continue
			}
			for _, a := range c.Common().Args {
				mi, ok := a.(*ssa.MakeInterface)
				if !ok {
					continue
				}
				var visit func(t types.Type, d int)
				visit = func(t types.Type, d int) {
					if d > 5 {
						return
					}
					t = deref(t)
					if k := keyOf(t); k != nil {
						if !done[k.String()] {
							done[k.String()] = true
							var fields func(t types.Type)
							fields = func(t types.Type) {
								s, ok := t.Underlying().(*types.Struct)
								if !ok {
									return
								}
								for i := 0; i < s.NumFields(); i++ {
									tag := reflect.StructTag(s.Tag(i)).Get("json")
									good := s.Field(i).Exported() && !strings.HasPrefix(tag, "-")
									r.check("key-kept", k.Obj().Name()+"."+s.Field(i).Name(), p.pos(s.Field(i).Pos()), good, "the field is lost when the key is written to disk", nil)
									fields(s.Field(i).Type())
								}
							}
							fields(k)
						}
						return
					}
					if s, ok := t.Underlying().(*types.Struct); ok {
						for i := 0; i < s.NumFields(); i++ {
							visit(s.Field(i).Type(), d+1)
						}
					}
				}
				visit(mi.X.Type(), 0)
			}
		}
	}
	hasMsg := false
	for i := 0; i < sig.Params().Len(); i++ {
		if isMsgPtr(sig.Params().At(i).Type()) {
			hasMsg = true
		}
	}
	if sig.Results().Len() != 1 || hasMsg {
		return
	}
	inline := func(e *Engine, f *ssa.Function) bool { return e.getInfo(f).size < 200 }
	// a key rebuilt from something stored
	if k := keyOf(sig.Results().At(0).Type()); k != nil {
		kept := map[string]bool{}
		var site *ssa.Return
		rule := &Rule{Inline: inline}
		rule.Return = func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			for _, f := range leafFields(k, nil) {
				v := res[0]
				for _, n := range f {
					v = e.vf(st, v, n, nil)
				}
				n := strings.Join(f, ".")
				if !v.isNil() && (!v.isConst() || v.isTrue()) {
					kept[n] = true
				}
				if site == nil {
					site = in
				}
				if !v.isNil() && v.isConst() && !v.isTrue() && !v.isFalse() {
					r.viol("key-kept", p.fnName(fn)+"."+n, p.iPos(in), "the field is lost when the key is rebuilt from a stored entry", st.path())
				}
			}
		}
		e := newEngine(p, rule)
		e.run(fn, "", nil)
		r.engine(e)
		if site != nil {
			for _, f := range leafFields(k, nil) {
				n := strings.Join(f, ".")
				r.check("key-kept", p.fnName(fn)+"."+n, p.iPos(site), kept[n], "the field is lost when the key is rebuilt from a stored entry", nil)
			}
		}
		return
	}
	// a comparison with a key
	if b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return
	}
	for i, prm := range fn.Params {
		k := keyOf(prm.Type())
		if k == nil {
			continue
		}
		leaves := leafFields(k, nil)
		name := prm.Name() + "@" + p.fnName(fn)
		mentions := func(e *Engine, t *Term, path []string) bool {
			return e.T.contains(t, func(x *Term) bool {
				for j := len(path) - 1; j >= 0; j-- {
					if (x.op != "vf" && x.op != "fa") || x.s != path[j] {
						return false
					}
					x = x.args[0]
					for x.op == "ld" {
						x = x.args[0]
					}
				}
				return x.op == "param" && x.s == name
			})
		}
		rule := &Rule{Inline: inline}
		rule.Branch = func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
			for _, f := range leaves {
				if mentions(e, a, f) {
					set(st, strings.Join(f, "."))
				}
			}
		}
		rule.Return = func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			if v, ok := e.eval(st, res[0]); ok && !v {
				return
			}
			for _, f := range leaves {
				n := strings.Join(f, ".")
				r.check("key-compared", p.fnName(fn)+"."+n, p.iPos(in), has(st, n) || mentions(e, res[0], f), "entries are taken to match although "+n+" was not compared", st.path())
			}
		}
		e := newEngine(p, rule)
		e.run(fn, "", nil)
		r.engine(e)
		_ = i
	}
}

// loopBody returns the blocks of the natural loop of a back edge.
func loopBody(from, head *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{head: true}
	work := []*ssa.BasicBlock{from}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if body[b] {
			continue
		}
		body[b] = true
		work = append(work, b.Preds...)
	}
	return body
}
