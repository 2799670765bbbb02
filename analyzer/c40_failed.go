package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C40: what a failed operation returns is not used.

func init() {
	register("C40", `Path-sensitive dataflow from every function of the repository. Sources: every pointer, interface and function that a call returns together with an error. Sinks: every field access, load, call through an interface or function value, and every method of a library that is called on such a value, every call that is given it without the error, and every return of it as a success. At a sink the path must have passed the branch fact that the error of that call is nil or that the value is not nil.`,
		runC40, "An operation that returns no error returns a usable value (dropped queries, which return neither, are decided by C01)",
		"Methods of *os.File and of the connections of package net can be called without a file or connection")
}

// c40Source: results of this type cannot be used when they are missing.
func c40Source(t types.Type) bool {
	if isErrorT(t) {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature:
		return true
	}
	return false
}

// c40Never: the function has an error among its results but never returns one.
func c40Never(fn *ssa.Function, depth int) bool {
	if len(fn.Blocks) == 0 || depth == 0 {
		return false
	}
	n := 0
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) == 0 {
			continue
		}
		n++
		switch x := ret.Results[len(ret.Results)-1].(type) {
		case *ssa.Const:
			if !x.IsNil() {
				return false
			}
		case *ssa.Extract:
			c, ok := x.Tuple.(*ssa.Call)
			if !ok || c.Common().StaticCallee() == nil || x.Index != c.Common().Signature().Results().Len()-1 || !c40Never(c.Common().StaticCallee(), depth-1) {
				return false
			}
		default:
			return false
		}
	}
	return n > 0
}

func runC40(p *Prog, r *Report) {
	for _, fn := range p.funcs {
		var e *Engine
		of := map[*Term][]*Term{} // error -> what was returned with it
		src := map[*Term]string{} // what was returned with an error -> operation
		use := func(st *State, in ssa.Instruction, t *Term, what string) {
			for t.op == "conv" && len(t.args) > 0 {
				t = t.args[0]
			}
			op := src[t]
			if op == "" {
				return
			}
			key := p.fnName(in.Parent()) + " " + op
			if n, known := e.isNil(st, t); known && !n {
				r.ok("succeeded", key)
				return
			}
			r.viol("succeeded", key, p.iPos(in), what+" the result of "+op+", which is not known to have succeeded", st.path())
		}
		rule := &Rule{FollowGo: true}
		rule.Keep = func(e *Engine, a *Term) bool {
			return a.op == "bin" && a.s == "==" && a.args[1].isNil() && (src[a.args[0]] != "" || of[a.args[0]] != nil)
		}
		rule.Inline = func(e *Engine, f *ssa.Function) bool {
			if f.Parent() != nil || f.Synthetic != "" {
				return e.getInfo(f).size < 800
			}
			return e.getInfo(f).size <= 60
		}
		rule.Skip = func(e *Engine, st *State, c *CallEv) bool {
			if c.Fn.Parent() != nil || c.Fn.Synthetic != "" {
				return false
			}
			for _, a := range c.Args {
				for a.op == "conv" && len(a.args) > 0 {
					a = a.args[0]
				}
				if src[a] != "" || of[a] != nil {
					return false
				}
			}
			return true // analysed as an entry of its own
		}
		rule.Event = func(*ssa.Function) bool { return false }
		rule.After = func(e *Engine, c *CallEv, outs []Outcome) {
			for _, o := range outs {
				n := len(o.Res)
				if n < 2 || o.Res[n-1].op != "ext" || !isErrorT(o.Res[n-1].typ) {
					continue
				}
				if len(of[o.Res[n-1]]) > 0 || c.Fn != nil && c40Never(c.Fn, 3) {
					continue
				}
				for _, v := range o.Res[:n-1] {
					if v.op == "ext" && v.args[0] == o.Res[n-1].args[0] && c40Source(v.typ) {
						of[o.Res[n-1]] = append(of[o.Res[n-1]], v)
						src[v] = shortName(c.Name)
					}
				}
			}
		}
		rule.Branch = func(e *Engine, st *State, in *ssa.If, atom *Term, val bool) {
			if !val || atom.op != "bin" || atom.s != "==" || !atom.args[1].isNil() {
				return
			}
			ok := of[atom.args[0]]
			if x := atom.args[0]; x.op == "call" && strings.HasPrefix(x.s, "errors.Join") {
				for _, vs := range of { // none of the errors that were joined; which ones is not followed
					ok = append(ok[:len(ok):len(ok)], vs...)
				}
			}
			for _, v := range ok {
				e.assume(st, e.T.bin(token.EQL, v, e.T.nilT(), types.Typ[types.Bool]), false)
			}
		}
		rule.Instr = func(e *Engine, st *State, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				use(st, in, e.ev(st, x.X), "uses a field of")
			case *ssa.UnOp:
				if x.Op == token.MUL {
					use(st, in, e.ev(st, x.X), "reads")
				}
			}
		}
		rule.Return = func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			if len(res) == 0 || !isErrorT(in.Results[len(res)-1].Type()) || !res[len(res)-1].isNil() {
				return
			}
			for _, v := range res[:len(res)-1] {
				use(st, in, v, "returns")
			}
		}
		rule.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
			if c.C.IsInvoke() {
				use(st, c.In, c.Args[0], "calls a method of")
				return nil
			}
			if c.Fn != nil && !p.inRepo(c.Fn) && c.Fn.Signature.Recv() != nil && len(c.Args) > 0 {
				if pk := pkgOf(c.Name); pk != "os" && pk != "net" {
					use(st, c.In, c.Args[0], "calls a method of")
				}
			}
			if _, builtin := c.C.Value.(*ssa.Builtin); builtin {
				return nil
			}
			if c.C.StaticCallee() == nil {
				use(st, c.In, e.ev(st, c.C.Value), "calls")
			}
			if c.Fn != nil && (isLogging(c.Fn) || e.wantInline(c.Fn) && !rule.Skip(e, st, c)) || strings.HasPrefix(c.Name, "fmt.") {
				return nil
			}
			for _, a := range c.Args {
				if of[a] != nil {
					return nil // told about the error as well
				}
			}
			for i, a := range c.Args {
				if i > 0 || c.C.Signature().Recv() == nil {
					use(st, c.In, a, "hands on")
				}
			}
			return nil
		}
		if strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		e = newEngine(p, rule)
		e.budget = 3_000_000
		e.run(fn, "", nil)
		r.engine(e)
	}
	r.atLeast("succeeded", 60)
}
