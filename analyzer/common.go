package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------------------------
// Flags in the automaton state

func has(st *State, f string) bool {
	return strings.Contains(st.auto, "<"+f+">")
}

func set(st *State, f string) {
	if has(st, f) {
		return
	}
	var fs []string
	for _, x := range strings.Split(st.auto, ">") {
		if x = strings.TrimPrefix(x, "<"); x != "" {
			fs = append(fs, x)
		}
	}
	fs = append(fs, f)
	sort.Strings(fs)
	st.auto = "<" + strings.Join(fs, "><") + ">"
}

func unset(st *State, f string) {
	st.auto = strings.Replace(st.auto, "<"+f+">", "", 1)
}

// flags returns the flags with a prefix (prefix removed).
func flags(st *State, prefix string) []string {
	var fs []string
	for _, x := range strings.Split(st.auto, ">") {
		x = strings.TrimPrefix(x, "<")
		if strings.HasPrefix(x, prefix) && x != "" {
			fs = append(fs, strings.TrimPrefix(x, prefix))
		}
	}
	return fs
}

// ---------------------------------------------------------------------------------------------
// Entry points

// escaping returns the repository functions whose value is used other than by calling it on the spot.
func (p *Prog) escaping() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f == nil {
			return
		}
		out[f] = true
		if f.Synthetic != "" {
			if o, ok := f.Object().(*types.Func); ok {
				if g := p.ssa.FuncValue(o); g != nil {
					out[g] = true
				}
			}
		}
	}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().Value
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					used := false
					for _, ref := range *mc.Referrers() {
						if c, ok := ref.(ssa.CallInstruction); ok && c.Common().Value == mc {
							continue
						}
						if _, ok := ref.(*ssa.DebugRef); ok {
							continue
						}
						used = true
					}
					if used {
						add(mc.Fn.(*ssa.Function))
					}
					continue
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && *op != callee {
						add(f)
					}
				}
			}
		}
	}
	return out
}

func sigIs(fn *ssa.Function, pred func(a, b types.Type) bool) bool {
	ps := fn.Signature.Params()
	return ps.Len() == 2 && pred(ps.At(0).Type(), ps.At(1).Type())
}

func isDNSHandler(fn *ssa.Function) bool {
	return sigIs(fn, func(a, b types.Type) bool { return isNamed(a, dnsPath, "ResponseWriter") && isMsgPtr(b) })
}

func isHTTPHandler(fn *ssa.Function) bool {
	return sigIs(fn, func(a, b types.Type) bool {
		return isNamed(a, "net/http", "ResponseWriter") && isNamed(b, "net/http", "Request")
	})
}

// handlers returns the functions of the repository that are registered as DNS or HTTP handlers, or
// are ServeHTTP/ServeDNS methods.
func (p *Prog) handlers() (dnsH, httpH []*ssa.Function) {
	esc := p.escaping()
	for _, fn := range p.funcs {
		m := fn.Signature.Recv() != nil && (fn.Name() == "ServeHTTP" || fn.Name() == "ServeDNS")
		if !esc[fn] && !m {
			continue
		}
		if isDNSHandler(fn) {
			dnsH = append(dnsH, fn)
		}
		if isHTTPHandler(fn) {
			httpH = append(httpH, fn)
		}
	}
	return
}

// resolvers returns the Resolve methods of every Resolver implementation of the repository.
func (p *Prog) resolvers() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, fn := range p.funcs {
		if fn.Signature.Recv() != nil && fn.Name() == "Resolve" && isResolveSig(fn.Signature) && !seen[fn] {
			seen[fn] = true
			out = append(out, fn)
		}
	}
	return out
}

// startMethods returns the Start methods of every Listener implementation.
func (p *Prog) startMethods() []*ssa.Function {
	it := p.iface(p.root, "Listener")
	var out []*ssa.Function
	if it == nil {
		return nil
	}
	seen := map[*ssa.Function]bool{}
	for _, t := range p.implementers(it) {
		if f := p.method(t, "Start"); f != nil && p.inRepo(f) && !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	return out
}

// ---------------------------------------------------------------------------------------------
// Backward slices (flow-insensitive)

// slice visits every value v may be computed from inside its function: operands, stores into local
// memory, and (through parameters of closures) captured variables.
func (p *Prog) slice(v ssa.Value, visit func(ssa.Value) bool) {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	var stores func(addr ssa.Value)
	stores = func(addr ssa.Value) {
		refs := addr.Referrers()
		if refs == nil {
			return
		}
		for _, r := range *refs {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == addr {
					rec(x.Val)
				}
			case *ssa.FieldAddr:
				if x.X == addr {
					stores(x)
				}
			case *ssa.IndexAddr:
				if x.X == addr {
					stores(x)
				}
			case *ssa.Slice:
				if x.X == addr {
					stores(x)
				}
			case *ssa.MapUpdate:
				if x.Map == addr {
					rec(x.Key)
					rec(x.Value)
				}
			}
		}
	}
	rec = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if !visit(v) {
			return
		}
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
			stores(x)
		case *ssa.FreeVar:
			fn := x.Parent()
			idx := -1
			for i, f := range fn.FreeVars {
				if f == x {
					idx = i
				}
			}
			if par := fn.Parent(); par != nil && idx >= 0 {
				for _, b := range par.Blocks {
					for _, in := range b.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
							rec(mc.Bindings[idx])
						}
					}
				}
			}
			return
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, op := range in.Operands(nil) {
				if *op != nil {
					rec(*op)
				}
			}
		}
	}
	rec(v)
}

// fromField reports whether v may be computed from a field with that name.
func (p *Prog) fromField(v ssa.Value, names ...string) bool {
	found := false
	p.slice(v, func(x ssa.Value) bool {
		n := ""
		switch y := x.(type) {
		case *ssa.FieldAddr:
			n = fieldName(y.X.Type(), y.Field)
		case *ssa.Field:
			n = fieldName(y.X.Type(), y.Field)
		}
		for _, w := range names {
			if n == w {
				found = true
			}
		}
		return !found
	})
	return found
}

// fieldsOf collects the names of fields v may be computed from.
func (p *Prog) fieldsOf(v ssa.Value) map[string]bool {
	out := map[string]bool{}
	p.slice(v, func(x ssa.Value) bool {
		switch y := x.(type) {
		case *ssa.FieldAddr:
			out[fieldName(y.X.Type(), y.Field)] = true
		case *ssa.Field:
			out[fieldName(y.X.Type(), y.Field)] = true
		}
		return true
	})
	return out
}

// fieldRead reports whether term t is built from a read of a field with that name.
func (T *Terms) readsField(t *Term, name string) bool {
	return T.contains(t, func(x *Term) bool { return x.op != "fa" && x.isField(name) || x.op == "fa" && x.s == name })
}

func (T *Terms) callsTo(t *Term, suffix string) bool {
	return T.contains(t, func(x *Term) bool { return x.op == "call" && strings.HasSuffix(x.callName(), suffix) })
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isIPNetList(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(s.Elem(), "net", "IPNet")
}

// regs keep terms in named registers of the automaton state.
type regs struct{ m map[string]*Term }

func newRegs() *regs { return &regs{map[string]*Term{}} }

func (g *regs) put(st *State, name string, t *Term) {
	for _, f := range flags(st, "$"+name+"=") {
		unset(st, "$"+name+"="+f)
	}
	id := fmt.Sprint(t.id)
	g.m[id] = t
	set(st, "$"+name+"="+id)
}

func (g *regs) get(st *State, name string) *Term {
	for _, f := range flags(st, "$"+name+"=") {
		return g.m[f]
	}
	return nil
}

func (g *regs) drop(st *State, name string) {
	for _, f := range flags(st, "$"+name+"=") {
		unset(st, "$"+name+"="+f)
	}
}

func (g *regs) pins(st *State) []*Term {
	var out []*Term
	for _, f := range flags(st, "$") {
		if i := strings.IndexByte(f, '='); i >= 0 {
			out = append(out, g.m[f[i+1:]])
		}
	}
	return out
}
