package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C16", `Effect enumeration plus typestate. Every call of the program that creates, opens for writing, truncates or renames a file is listed: apart from opening for appending, files may only be written as a temporary that is renamed. On every path of the functions that do so, the rename must find: the temporary created in the target's own directory, every write to it finished with an error known to be nil, buffers flushed, the file synced after the last write and closed, and it must rename that temporary; every other way out must remove the temporary and return an error. Functions that produce the content must not swallow an error of a write.`,
		runC16, "rename replaces a file atomically; fsync makes the content durable")
}

func runC16(p *Prog, r *Report) {
	creates := func(fn *ssa.Function, name string) bool {
		found := false
		p.staticReach(fn, func(g *ssa.Function) bool {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && calleeName(c.Common()) == name {
						found = true
					}
				}
			}
			return true
		})
		return found
	}
	both := map[*ssa.Function]bool{}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c16Call(p, r, fn, c)
			}
		}
		if creates(fn, "os.CreateTemp") && creates(fn, "os.Rename") {
			both[fn] = true
		}
	}
	covered := map[ssa.Instruction]bool{}
	// Functions whose output ends up in such a file
	content := map[*ssa.Function]bool{}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil || !both[c.Common().StaticCallee()] {
					continue
				}
				for _, a := range c.Common().Args {
					if mc, ok := a.(*ssa.MakeClosure); ok {
						a = mc.Fn
					}
					if g, ok := a.(*ssa.Function); ok {
						p.staticReach(g, func(h *ssa.Function) bool { content[h] = true; return true })
					}
				}
			}
		}
	}
	for _, fn := range p.funcs {
		if !both[fn] {
			continue
		}
		minimal := true
		p.staticReach(fn, func(g *ssa.Function) bool {
			if g != fn && both[g] {
				minimal = false
			}
			return true
		})
		if minimal {
			c16Atomic(p, r, fn, covered)
		}
	}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && calleeName(c.Common()) == "os.Rename" {
					r.check("rename-covered", p.fnName(fn), p.iPos(in), covered[in], "a file is renamed outside a complete write, sync and rename sequence", nil)
				}
			}
		}
		if content[fn] {
			c16Content(p, r, fn)
		}
	}
	r.atLeast("replace", 1)
	r.atLeast("content", 2)
}

// c16Call: calls that write files in place.
func c16Call(p *Prog, r *Report, fn *ssa.Function, c ssa.CallInstruction) {
	n := calleeName(c.Common())
	key := p.fnName(fn) + "/" + n
	switch n {
	case "os.Create", "os.WriteFile", "io/ioutil.WriteFile", "os.Truncate", "(*os.File).Truncate", "(os.File).Truncate", "os.CopyFS":
		r.viol("in-place", key, p.iPos(c), "a file is overwritten in place", nil)
	case "os.OpenFile":
		fl, ok := c.Common().Args[1].(*ssa.Const)
		if !ok || fl.Value.Kind() != constant.Int {
			r.viol("in-place", key, p.iPos(c), "a file is opened in a mode that cannot be determined", nil)
			return
		}
		m := fl.Int64()
		const wronly, rdwr, appnd, trunc = 1, 2, 0x400, 0x200
		bad := m&(wronly|rdwr) != 0 && (m&appnd == 0 || m&trunc != 0)
		r.check("in-place", key, p.iPos(c), !bad, "a file is opened for overwriting in place", nil)
	}
}

// errOf returns the error a call term yields.
func errOf(e *Engine, c *CallEv, o Outcome) *Term {
	res := c.C.Signature().Results()
	if res.Len() == 0 || len(o.Res) != res.Len() {
		return nil
	}
	if !isErrorType(res.At(res.Len() - 1).Type()) {
		return nil
	}
	return o.Res[res.Len()-1]
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func c16Atomic(p *Prog, r *Report, fn *ssa.Function, covered map[ssa.Instruction]bool) {
	name := p.fnName(fn)
	isTmp := func(e *Engine, t *Term) bool {
		return e.T.contains(t, func(x *Term) bool {
			return x.op == "ext" && x.s == "0" && x.args[0].op == "call" && x.args[0].callName() == "os.CreateTemp"
		})
	}
	isName := func(e *Engine, t *Term) bool {
		return e.T.contains(t, func(x *Term) bool {
			return x.op == "call" && strings.HasSuffix(x.callName(), "os.File).Name") && isTmp(e, x.args[0])
		})
	}
	rule := &Rule{}
	rule.Inline = func(e *Engine, f *ssa.Function) bool { return e.getInfo(f).size < 400 }
	rule.Branch = func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
		if a.op != "bin" || a.s != "==" || !a.args[1].isNil() {
			return
		}
		id := fmt.Sprint(a.args[0].id)
		for _, f := range flags(st, "need:") {
			if k := strings.SplitN(f, "=", 2); k[0] == id {
				if val {
					unset(st, "need:"+f)
					set(st, k[1])
				}
			}
		}
	}
	rule.After = func(e *Engine, c *CallEv, outs []Outcome) {
		for _, o := range outs {
			st := o.St
			err := errOf(e, c, o)
			need := func(what string) {
				if err != nil {
					set(st, fmt.Sprintf("need:%d=%s", err.id, what))
				}
			}
			switch {
			case c.Name == "os.CreateTemp":
				need("created")
				set(st, "maybe")
				continue
			case c.Name == "os.Rename":
				need("renamed")
				continue
			case c.Name == "os.Remove" || c.Name == "os.RemoveAll":
				covered[c.In] = true
				if isName(e, c.Args[0]) {
					set(st, "removed")
				} else {
					r.viol("replace", name+"/removes", p.iPos(c.In), "a file other than the temporary is removed", st.path())
				}
				continue
			}
			touches := false
			for _, a := range c.Args {
				touches = touches || isTmp(e, a) && !isName(e, a)
			}
			if !touches {
				continue
			}
			m := c.Name[strings.LastIndex(c.Name, ".")+1:]
			switch {
			case m == "Name" || m == "Chmod" || m == "Chown" || m == "Stat" || m == "Fd":
			case m == "Sync":
				unset(st, "dirty")
				need("synced")
			case m == "Close":
				need("closed")
			case m == "Flush":
				unset(st, "unflushed")
				unset(st, "synced")
				need("flushed")
			case strings.HasPrefix(m, "NewWriter"):
			default:
				if err == nil {
					continue
				}
				unset(st, "synced")
				buf := false
				for _, a := range c.Args {
					buf = buf || e.T.callsTo(a, "bufio.NewWriter") || e.T.callsTo(a, "bufio.NewWriterSize")
				}
				if buf {
					unset(st, "flushed")
					set(st, "unflushed")
				}
				set(st, "dirty")
				need("written")
			}
		}
	}
	rule.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
		if c.Name != "os.Rename" {
			return nil
		}
		covered[c.In] = true
		pos := p.iPos(c.In)
		r.ok("replace", name)
		bad := func(k, msg string) { r.viol("replace", name+"/"+k, pos, msg, st.path()) }
		if !isName(e, c.Args[0]) {
			bad("source", "what is renamed is not the temporary file that was written")
		}
		dir := false
		e.T.contains(c.Args[0], func(x *Term) bool {
			if x.op == "call" && x.callName() == "os.CreateTemp" {
				d := x.args[0]
				dir = d.op == "call" && strings.HasPrefix(d.callName(), "path/filepath.Dir") && d.args[0] == c.Args[1] ||
					d.op == "ext" && d.args[0].op == "call" && d.args[0].callName() == "path/filepath.Split" && d.args[0].args[0] == c.Args[1]
			}
			return dir
		})
		if !dir {
			bad("dir", "the temporary file is not created in the directory of the file it replaces")
		}
		if has(st, "unflushed") || has(st, "dirty") {
			bad("order", "the file is renamed before its content was flushed and synced")
		}
		for _, f := range flags(st, "need:") {
			k := strings.SplitN(f, "=", 2)
			if k[1] == "closed" || k[1] == "renamed" {
				continue
			}
			bad("unchecked", "the file is renamed although this step may have failed: "+k[1])
		}
		if !has(st, "synced") {
			bad("sync", "the file is renamed without having been synced after the last write")
		}
		if !has(st, "written") {
			bad("empty", "the file is renamed without content having been written")
		}
		return nil
	}
	rule.Return = func(e *Engine, st *State, in *ssa.Return, res []*Term) {
		pos := p.iPos(in)
		if has(st, "created") && !has(st, "renamed") {
			r.check("cleanup", name, pos, has(st, "removed"), "the temporary file is left behind when the file is not replaced", st.path())
		}
		if len(res) == 0 || has(st, "renamed") {
			return
		}
		for _, f := range flags(st, "need:") {
			if strings.HasSuffix(f, "=renamed") && strings.HasPrefix(f, fmt.Sprint(res[len(res)-1].id)+"=") {
				return
			}
		}
		isnil, known := e.isNil(st, res[len(res)-1])
		r.check("reported", name, pos, !(known && isnil), "success is reported although the file was not replaced", st.path())
	}
	e := newEngine(p, rule)
	e.run(fn, "", nil)
	r.engine(e)
}

// c16Content: a function that receives the writer of a temporary file.
func c16Content(p *Prog, r *Report, fn *ssa.Function) {
	sig := fn.Signature
	if sig.Results().Len() != 1 || !isErrorType(sig.Results().At(0).Type()) {
		return
	}
	var w *ssa.Parameter
	for _, prm := range fn.Params {
		if isNamedT(prm.Type(), "io", "Writer") {
			w = prm
		}
	}
	if w == nil {
		return
	}
	name := p.fnName(fn)
	rule := &Rule{Inline: func(e *Engine, f *ssa.Function) bool { return e.getInfo(f).size < 150 }}
	rule.Branch = func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
		if a.op == "bin" && a.s == "==" && a.args[1].isNil() {
			id := fmt.Sprint(a.args[0].id)
			if val {
				unset(st, "need:"+id)
			} else if has(st, "need:"+id) {
				unset(st, "need:"+id)
				set(st, "failed:"+id)
			}
		}
	}
	rule.After = func(e *Engine, c *CallEv, outs []Outcome) {
		if c.Fn != nil && p.inRepo(c.Fn) && len(outs) > 0 && e.wantInline(c.Fn) {
			return
		}
		touches := false
		for _, a := range c.Args {
			touches = touches || e.T.contains(a, func(x *Term) bool { return x.op == "param" && x.s == w.Name()+"@"+name })
		}
		if !touches {
			return
		}
		for _, o := range outs {
			if err := errOf(e, c, o); err != nil {
				set(o.St, fmt.Sprintf("need:%d", err.id))
			}
		}
	}
	rule.BackEdge = func(e *Engine, st *State, from, head *ssa.BasicBlock) {
		for _, f := range append(flags(st, "need:"), flags(st, "failed:")...) {
			r.viol("content", name+"/loop", p.pos(fn.Pos()), "an error while writing the content is dropped before the next write", st.path())
			unset(st, "need:"+f)
			unset(st, "failed:"+f)
		}
	}
	n := 0
	rule.Return = func(e *Engine, st *State, in *ssa.Return, res []*Term) {
		n++
		for _, k := range []string{"need:", "failed:"} {
			for _, f := range flags(st, k) {
				var id int32
				fmt.Sscan(f, &id)
				t := e.T.byID(id)
				isnil, known := e.isNil(st, res[0])
				good := e.T.contains(res[0], func(x *Term) bool { return x == t }) || k == "failed:" && !(known && isnil)
				r.check("content", name, p.iPos(in), good, "an error while writing the content is not reported", st.path())
			}
		}
	}
	e := newEngine(p, rule)
	e.run(fn, "", nil)
	r.engine(e)
	if n > 0 {
		r.ok("content", name)
	}
}
