package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C32: what scripts can reach, what their errors do, and who uses an interpreter.

const luaPath = "github.com/yuin/gopher-lua"

func init() {
	register("C32", "scripts are confined, their errors are query errors, and interpreters are used by one query at a time",
		runC32,
		"The table, string, math and coroutine libraries and the rest of the base library give no access to files, processes, modules or debugging",
		"PCall and protected CallByParam turn everything a script does wrong into an error and restore the stack",
		"Functions that are given to a script run under the protection of the call that runs the script")
}

// c32Loaders are the functions of the base library that load code.
var c32Loaders = []string{"dofile", "loadfile", "load", "loadstring", "module", "require"}

var c32Libs = map[string]bool{"OpenBase": true, "OpenTable": true, "OpenString": true, "OpenMath": true, "OpenCoroutine": true}

func runC32(p *Prog, r *Report) {
	var made, asked []*ssa.Function
	for _, fn := range p.funcs {
		if !p.inRepo(fn) || !p.inRoot(fn) || len(fn.Blocks) == 0 || fn.Parent() != nil {
			continue
		}
		sig := fn.Signature
		if sig.Recv() == nil {
			for i := 0; i < sig.Params().Len(); i++ {
				if c32HasField(sig.Params().At(i).Type(), "NoSandbox") {
					made = append(made, fn)
				}
			}
			continue
		}
		if fn.Name() == "Resolve" && isResolveSig(sig) && c32Pool(sig.Recv().Type()) {
			asked = append(asked, fn)
		}
	}
	for _, fn := range made {
		c32Sandbox(p, r, fn)
		c32Distinct(p, r, fn)
	}
	for _, fn := range asked {
		c32Use(p, r, fn)
	}
	c32Granted(p, r)
	r.atLeast("libs", 1)
	r.atLeast("loaders", 1)
	r.atLeast("protected", 2)
	r.atLeast("granted", 30)
	r.atLeast("pool", 1)
	r.atLeast("state", 1)
	r.atLeast("distinct", 1)
}

// c32HasField: a (pointer to a) struct that has the field.
func c32HasField(t types.Type, name string) bool {
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return true
		}
	}
	return false
}

func isLuaState(t types.Type) bool { return isNamed(deref(t), luaPath, "LState") }

// c32Holds: the type carries an interpreter.
func c32Holds(t types.Type) bool {
	if isLuaState(t) {
		return true
	}
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if isLuaState(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

// c32Pool: the object keeps interpreters in a channel.
func c32Pool(t types.Type) bool {
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if c, ok := ft.Underlying().(*types.Chan); ok && c32Holds(c.Elem()) || c32Holds(ft) {
			return true
		}
	}
	return false
}

func luaCall(name string) string {
	if i := strings.Index(name, "gopher-lua."); i >= 0 {
		rest := name[i+len("gopher-lua."):]
		return strings.TrimPrefix(rest, "LState).")
	}
	return ""
}

// c32Sandbox: what is there when the script is run.
func c32Sandbox(p *Prog, r *Report, fn *ssa.Function) {
	rule := &Rule{}
	event := func(c *ssa.CallCommon) bool {
		switch luaCall(calleeName(c)) {
		case "NewState", "NewFunctionFromProto", "PCall", "OpenLibs", "DoString", "DoFile":
			return true
		case "SetGlobal":
			return strings.Contains(c.Args[2].String(), "LNil")
		}
		return false
	}
	rule.Event = func(f *ssa.Function) bool { return hasCall(f, event) }
	rule.Inline = func(e *Engine, f *ssa.Function) bool { return e.hasEvent(f) }
	rule.Unroll = true
	name := p.fnName(fn)
	open := func(st *State) bool { return has(st, "nosandbox") }
	rule.Branch = func(e *Engine, st *State, in *ssa.If, atom *Term, val bool) {
		for atom.op == "not" {
			atom, val = atom.args[0], !val
		}
		if atom.isField("NoSandbox") && val {
			set(st, "nosandbox")
		}
	}
	rule.Instr = func(e *Engine, st *State, in ssa.Instruction) {
		var ops [12]*ssa.Value
		for _, o := range in.Operands(ops[:0]) {
			if g, ok := (*o).(*ssa.Global); ok && p.inRepo(in.Parent()) {
				for _, l := range c32Cleared(p, in.Parent(), g) {
					set(st, "gone:"+l)
				}
			}
			f, ok := (*o).(*ssa.Function)
			if !ok || f.Pkg == nil || f.Pkg.Pkg.Path() != luaPath || !strings.HasPrefix(f.Name(), "Open") {
				continue
			}
			if c32Libs[f.Name()] {
				r.ok("libs", name+" "+f.Name())
			} else if !open(st) {
				r.check("libs", name+" "+f.Name(), p.iPos(in), false, "a sandboxed script is given the library opened by "+f.Name(), st.path())
			}
		}
	}
	rule.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
		switch luaCall(c.Name) {
		case "NewState":
			skip := false
			e.T.walk(c.Args[0], func(t *Term) bool {
				if t.op == "alloc" {
					for k, v := range st.mem {
						if k.op == "fa" && k.s == "SkipOpenLibs" && rootOf(k) == t && v.isTrue() {
							skip = true
						}
						if rootOf(k) == t {
							if w := e.vf(st, v, "SkipOpenLibs", types.Typ[types.Bool]); w != nil && w.isTrue() {
								skip = true
							}
						}
					}
				}
				return true
			})
			r.check("libs", name+" NewState", p.iPos(c.In), skip || open(st), "a sandboxed script is given every library of the interpreter", st.path())
			unset(st, "proto")
			for _, l := range c32Loaders {
				unset(st, "gone:"+l)
			}
		case "OpenLibs":
			r.check("libs", name+" OpenLibs", p.iPos(c.In), open(st), "a sandboxed script is given every library of the interpreter", st.path())
		case "SetGlobal":
			if s, ok := c.Args[1].str(); ok {
				isNil := false
				e.T.walk(c.Args[2], func(t *Term) bool {
					isNil = isNil || strings.Contains(t.s, "LNil") || t.typ != nil && isNamed(deref(t.typ), luaPath, "LNilType")
					return true
				})
				if isNil {
					set(st, "gone:"+s)
				} else {
					unset(st, "gone:"+s)
				}
			}
		case "NewFunctionFromProto":
			set(st, "proto")
		case "PCall", "Call", "DoString", "DoFile", "CallByParam":
			kind := luaCall(c.Name)
			if kind == "DoString" || kind == "DoFile" {
				r.check("protected", name+" "+kind, p.iPos(c.In), open(st), "code from elsewhere is run in the interpreter", st.path())
			}
			if !has(st, "proto") {
				// the libraries are loaded
				for _, l := range c32Loaders {
					unset(st, "gone:"+l)
				}
				return nil
			}
			r.check("protected", name, p.iPos(c.In), kind == "PCall", "an error in the script body panics", st.path())
			if !open(st) {
				for _, l := range c32Loaders {
					r.check("loaders", name+" "+l, p.iPos(c.In), has(st, "gone:"+l), "a sandboxed script can call "+l, st.path())
				}
			}
			res := e.opaque(st, c, c.Args)
			if len(res) == 1 {
				yes, no := st.clone(), st
				isnil := e.T.bin(token.EQL, res[0], e.T.nilT(), types.Typ[types.Bool])
				var outs []Outcome
				if e.assume(yes, isnil, true) {
					outs = append(outs, Outcome{yes, res})
				}
				if e.assume(no, isnil, false) {
					set(no, "failed")
					outs = append(outs, Outcome{no, res})
				}
				return outs
			}
		}
		return nil
	}
	rule.Return = func(e *Engine, st *State, in *ssa.Return, res []*Term) {
		if !has(st, "failed") || len(res) == 0 {
			return
		}
		isnil, known := e.isNil(st, res[len(res)-1])
		if known && isnil {
			r.check("protected", name+" error", p.iPos(in), false, "an error in the script body is not reported", st.path())
		} else if known {
			r.ok("protected", name+" error")
		}
	}
	e := newEngine(p, rule)
	e.run(fn, "", nil)
	r.engine(e)
}

// c32Use: a query takes an interpreter, calls the script, and gives it back as it was.
func c32Use(p *Prog, r *Report, fn *ssa.Function) {
	rule := &Rule{}
	rule.Event = func(f *ssa.Function) bool {
		return hasCall(f, func(c *ssa.CallCommon) bool {
			switch luaCall(calleeName(c)) {
			case "CallByParam", "PCall", "Call", "SetTop", "Pop", "Get", "GetGlobal":
				return true
			}
			return false
		})
	}
	rule.Inline = func(e *Engine, f *ssa.Function) bool {
		if c32LGFunc(f) {
			return false
		}
		return e.hasEvent(f) || f.Parent() != nil || e.getInfo(f).size < 30
	}
	name := p.fnName(fn)
	var eng *Engine
	script := func(t *Term) *Term {
		var out *Term
		eng.T.walk(t, func(x *Term) bool {
			if out == nil && (x.op == "recv" || x.op == "ext" || x.op == "call") && x.typ != nil && c32Holds(x.typ) {
				out = x
			}
			return out == nil
		})
		return out
	}
	assert := func(e *Engine, st *State, in *ssa.TypeAssert) { c32Assert(p, r, fn, e, st, in) }
	// loop bodies that are called by an iterator
	p.staticReach(fn, func(f *ssa.Function) bool {
		if !p.inRepo(f) || c32LGFunc(f) {
			return false
		}
		for _, g := range f.AnonFuncs {
			if !strings.Contains(g.Synthetic, "yield") {
				continue
			}
			sub := &Rule{Branch: c32Types}
			sub.Instr = func(e *Engine, st *State, in ssa.Instruction) {
				if y, ok := in.(*ssa.TypeAssert); ok {
					assert(e, st, y)
				}
			}
			e := newEngine(p, sub)
			e.run(g, "", nil)
			r.engine(e)
		}
		return true
	})
	rule.Branch = c32Types
	rule.Instr = func(e *Engine, st *State, in ssa.Instruction) {
		switch y := in.(type) {
		case *ssa.UnOp:
			if y.Op == token.ARROW && c32Holds(y.X.Type().Underlying().(*types.Chan).Elem()) {
				set(st, "taken")
				unset(st, "back")
			}
		case *ssa.Extract:
			if s, ok := y.Tuple.(*ssa.Select); ok && s != nil && c32Holds(y.Type()) {
				set(st, "taken")
				unset(st, "back")
			}
		case *ssa.Send:
			if c32Holds(y.X.Type()) {
				c32GiveBack(p, r, name, st, in)
			}
		case *ssa.Select:
			for _, s := range y.States {
				if s.Send != nil && c32Holds(s.Send.Type()) {
					c32GiveBack(p, r, name, st, in)
				}
			}
		case *ssa.Go:
			for _, a := range append([]ssa.Value{y.Call.Value}, y.Call.Args...) {
				if c32Holds(a.Type()) {
					r.check("pool", name, p.iPos(in), false, "the interpreter is used by another goroutine", st.path())
				}
				if mc, ok := a.(*ssa.MakeClosure); ok {
					for _, b := range mc.Bindings {
						if c32Holds(b.Type()) || c32Holds(deref(b.Type())) {
							r.check("pool", name, p.iPos(in), false, "the interpreter is used by another goroutine", st.path())
						}
					}
				}
			}
		case *ssa.TypeAssert:
			assert(e, st, y)
		}
	}
	rule.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
		k := luaCall(c.Name)
		if k == "" || len(c.Args) == 0 {
			return nil
		}
		if isLuaState(c.C.Signature().Recv().Type()) && has(st, "back") && c.C.Signature().Recv() != nil {
			r.check("pool", name, p.iPos(c.In), false, "the interpreter is used after it was given back", st.path())
		}
		switch k {
		case "GetGlobal", "GetField", "GetTable", "SetGlobal", "SetField", "SetTable", "ObjLen", "Concat", "ToStringMeta", "LessThan", "Equal":
			r.check("protected", name+" "+k, p.iPos(c.In), false, "an error in a metamethod of the script panics", st.path())
		case "Call", "DoString", "DoFile":
			r.check("protected", name, p.iPos(c.In), false, "an error in the script panics", st.path())
		case "CallByParam", "PCall":
			if k == "CallByParam" {
				prot := e.vf(st, c.Args[1], "Protect", types.Typ[types.Bool])
				r.check("protected", name, p.iPos(c.In), prot != nil && prot.isTrue(), "an error in the script panics", st.path())
			}
			R := script(c.Args[0])
			r.check("pool", name, p.iPos(c.In), has(st, "taken") && R != nil && R.op != "call", "the script is called in an interpreter that was not taken out of the pool", st.path())
			res := e.opaque(st, c, c.Args)
			yes, no := st.clone(), st
			isnil := e.T.bin(token.EQL, res[0], e.T.nilT(), types.Typ[types.Bool])
			var outs []Outcome
			if e.assume(yes, isnil, true) {
				set(yes, "dirty")
				outs = append(outs, Outcome{yes, res})
			}
			if e.assume(no, isnil, false) {
				set(no, "failed")
				outs = append(outs, Outcome{no, res})
			}
			return outs
		case "GetTop":
			t := e.fresh(st, "call", c.Name, c.In, c.Ctx, types.Typ[types.Int])
			if !has(st, "dirty") {
				set(st, "top:"+itoa(t.id))
			}
			return []Outcome{{st, []*Term{t}}}
		case "SetTop":
			v, isK := c.Args[1].intv()
			if has(st, "top:"+itoa(c.Args[1].id)) || isK && v == 0 {
				if has(st, "dirty") {
					r.ok("state", name)
				}
				unset(st, "dirty")
			} else {
				set(st, "dirty")
			}
		}
		return nil
	}
	rule.Return = func(e *Engine, st *State, in *ssa.Return, res []*Term) {
		if has(st, "taken") {
			r.check("pool", name, p.iPos(in), false, "the interpreter is not given back", st.path())
		}
		if has(st, "failed") && len(res) == 2 {
			isnil, known := e.isNil(st, res[1])
			r.check("protected", name+" error", p.iPos(in), known && !isnil, "an error in the script is not the result of the query", st.path())
		}
	}
	eng = newEngine(p, rule)
	eng.run(fn, "", nil)
	r.engine(eng)
}

func c32GiveBack(p *Prog, r *Report, name string, st *State, in ssa.Instruction) {
	if has(st, "back") || !has(st, "taken") {
		r.check("pool", name, p.iPos(in), false, "an interpreter is given back twice", st.path())
		return
	}
	r.ok("pool", name)
	r.check("state", name, p.iPos(in), !has(st, "dirty"), "the interpreter is given back with values left on its stack", st.path())
	unset(st, "taken")
	set(st, "back")
}

var c32Kinds = map[string]int{"LNilType": 0, "LBool": 1, "LNumber": 2, "LString": 3, "LFunction": 4, "LUserData": 5, "LState": 6, "LTable": 7, "LChannel": 8}

// c32LGFunc: functions that are called by scripts.
func c32LGFunc(fn *ssa.Function) bool {
	s := fn.Signature
	return s.Params().Len() == 1 && isLuaState(s.Params().At(0).Type()) && s.Results().Len() == 1 && isIntT(s.Results().At(0).Type())
}

// c32Distinct: every place in the pool has an interpreter of its own.
func c32Distinct(p *Prog, r *Report, fn *ssa.Function) {
	p.staticReach(fn, func(f *ssa.Function) bool {
		if !p.inRepo(f) {
			return false
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Send)
				if !ok || !c32Holds(s.X.Type()) {
					continue
				}
				head := c31Loop(b)
				good := head == nil
				p.slice(s.X, func(v ssa.Value) bool {
					if c, ok := v.(*ssa.Call); ok {
						good = good || c.Parent() != f || c31Loop(c.Block()) == head
						return false
					}
					if _, ok := v.(*ssa.Alloc); ok {
						good = good || c31Loop(v.(*ssa.Alloc).Block()) == head
					}
					return true
				})
				r.check("distinct", p.fnName(f), p.iPos(in), good, "the same interpreter is put into the pool several times", nil)
			}
		}
		return true
	})
}

// c32Granted: what the functions given to scripts can do.
func c32Granted(p *Prog, r *Report) {
	for _, fn := range p.funcs {
		if !p.inRepo(fn) || !p.inRoot(fn) || len(fn.Blocks) == 0 || !c32LGFunc(fn) {
			continue
		}
		var at ssa.Instruction
		what := ""
		p.staticReach(fn, func(f *ssa.Function) bool {
			if !p.inRepo(f) {
				return false
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok || at != nil {
						continue
					}
					if w := calleeName(c.Common()); c32Forbidden(w) {
						at, what = in, w
					}
				}
			}
			return true
		})
		pos := p.pos(fn.Pos())
		if at != nil {
			pos = p.iPos(at)
		}
		r.check("granted", p.fnName(fn), pos, at == nil, "a function that scripts can call reaches "+what, nil)
	}
}

func c32Forbidden(name string) bool {
	switch luaCall(name) {
	case "DoFile", "LoadFile", "OpenLibs", "DoString", "LoadString", "Load", "OpenOs", "OpenIo", "OpenPackage", "OpenDebug", "OpenChannel":
		return true
	}
	switch pkgOf(name) {
	case "os", "os/exec", "syscall", "plugin", "io/ioutil", "net/http", "golang.org/x/sys/unix", "os/user", "os/signal", "runtime/debug":
		return true
	case "net":
		i := strings.LastIndexByte(name, '.')
		f := name[i+1:]
		return strings.HasPrefix(f, "Dial") || strings.HasPrefix(f, "Listen") || strings.HasPrefix(f, "Lookup") || strings.HasPrefix(f, "Interface")
	}
	return false
}

// c32Types notes what is known about the kind of a script's value.
func c32Types(e *Engine, st *State, in *ssa.If, atom *Term, val bool) {
	for atom.op == "not" {
		atom, val = atom.args[0], !val
	}
	if atom.op == "bin" && atom.s == "==" && val {
		for i, a := range atom.args {
			if v, ok := atom.args[1-i].intv(); ok && strings.HasSuffix(a.callName(), ").Type") && len(a.args) > 0 {
				set(st, "type:"+itoa(a.args[0].id)+":"+strconv.FormatInt(v, 10))
			}
		}
	}
}

// c32Assert: a value of the script is only taken for what it was seen to be.
func c32Assert(p *Prog, r *Report, fn *ssa.Function, e *Engine, st *State, y *ssa.TypeAssert) {
	f := y.Parent()
	if y.CommaOk || c32LGFunc(f) {
		return
	}
	v := e.ev(st, y.X)
	lv := isNamed(y.X.Type(), luaPath, "LValue")
	outer := f
	for outer.Parent() != nil {
		outer = outer.Parent()
	}
	if !lv && !(outer == fn || outer.Signature.Recv() != nil && c32Holds(outer.Signature.Recv().Type())) {
		return
	}
	ok := false
	if n, isn := types.Unalias(deref(y.AssertedType)).(*types.Named); isn && lv {
		if k, found := c32Kinds[n.Obj().Name()]; found {
			ok = has(st, "type:"+itoa(v.id)+":"+strconv.Itoa(k))
		}
	}
	r.check("protected", p.fnName(fn)+" "+p.fnName(f), p.iPos(y), ok, "a value of an unexpected type returned by the script panics", st.path())
}

// c32Cleared: names in a package-level list that a function sets to nil, one by one.
func c32Cleared(p *Prog, fn *ssa.Function, g *ssa.Global) []string {
	good := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || luaCall(calleeName(&c.Call)) != "SetGlobal" || !strings.Contains(c32Text(c.Call.Args[2]), "LNil") {
				continue
			}
			from := false
			p.slice(c.Call.Args[1], func(v ssa.Value) bool {
				from = from || v == ssa.Value(g)
				return true
			})
			head := c31Loop(b)
			good = good || from && head != nil && !c31Skipped(head, b)
		}
	}
	if !good {
		return nil
	}
	var out []string
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	var holder ssa.Value
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
				if sl, ok := s.Val.(*ssa.Slice); ok {
					holder = sl.X
				}
			}
		}
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if ia, ok := s.Addr.(*ssa.IndexAddr); ok && (ia.X == holder && holder != nil || ia.X == ssa.Value(g)) {
				if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
					out = append(out, constant.StringVal(k.Value))
				}
			}
		}
	}
	return out
}

func c32Text(v ssa.Value) string {
	out := v.String()
	if u, ok := v.(*ssa.UnOp); ok {
		out += u.X.String()
	}
	if m, ok := v.(*ssa.MakeInterface); ok {
		out += c32Text(m.X)
	}
	return out
}
