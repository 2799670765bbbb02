package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C11", `Every call that buffers a reader to its end (io.ReadAll, Buffer.ReadFrom, copies into memory, stream decoders) is enumerated; unless the reader is a local file it must be wrapped in http.MaxBytesReader or io.LimitReader with a constant limit (or a limit parameter that is constant at every call site). Path rule: the bytes are used only after the read error is known nil and, with a LimitReader, only after the branch fact "length does not exceed the limit" - so an oversized message is an error and never a shortened message. Buffers sized by a number read from the network must be sized by at most 16 bits.`,
		runC11, "block and allow list downloads are scanned line by line and are excepted by the property")
}

var bufferingCalls = map[string]int{ // name -> index of the reader among the arguments
	"io.ReadAll":                 0,
	"io/ioutil.ReadAll":          0,
	"(bytes.Buffer).ReadFrom":    1,
	"(strings.Builder).ReadFrom": 1,
	"encoding/json.NewDecoder":   0,
	"encoding/xml.NewDecoder":    0,
	"encoding/gob.NewDecoder":    0,
	"io.Copy":                    1,
}

func isFileTerm(e *Engine, t *Term) bool {
	return e.T.contains(t, func(x *Term) bool {
		return isNamed2(x.typ, "os", "File") || x.op == "call" && (strings.HasPrefix(x.callName(), "os.") || strings.HasPrefix(x.callName(), "strings.NewReader") || strings.HasPrefix(x.callName(), "bytes.New"))
	})
}

func isNamed2(t types.Type, pkg, name string) bool { return t != nil && isNamed(t, pkg, name) }

// limitTerm: reader wrapped in a limiter; returns kind and limit.
func limitTerm(t *Term) (string, *Term) {
	for t.op == "mi" {
		t = t.args[0]
	}
	switch t.callName() {
	case "net/http.MaxBytesReader":
		return "max", t.args[2]
	case "io.LimitReader":
		return "limit", t.args[1]
	case "bufio.NewReader":
		return limitTerm(t.args[0])
	}
	return "", nil
}

func runC11(p *Prog, r *Report) {
	for _, fn := range p.funcs {
		if fn.Pkg == p.cmd {
			// configuration files are local
			if !p.reachesName(fn, "(net/http.Client)", "net/http.") {
				continue
			}
		}
		has0 := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if _, ok := bufferingCalls[calleeName(c.Common())]; ok {
						has0 = true
					}
				}
			}
		}
		if !has0 {
			continue
		}
		rule := &Rule{}
		reg := newRegs()
		rule.Pins = reg.pins
		rule.Inline = func(e *Engine, f *ssa.Function) bool { return false }
		use := func(e *Engine, st *State, in ssa.Instruction, t *Term) {
			b := reg.get(st, "b")
			if b == nil || !e.T.contains(t, func(x *Term) bool { return x == b }) || t.op == "len" {
				return
			}
			er := reg.get(st, "err")
			key := p.fnName(fn)
			n, ok := e.isNil(st, er)
			if ok && !n {
				return
			}
			if !ok {
				r.viol("oversize-is-error", key, p.iPos(in), "bytes read from the network are used without the read error having been checked", st.path())
				return
			}
			if has(st, "limit") && !has(st, "lenok") {
				r.viol("oversize-is-error", key, p.iPos(in), "an oversized message is silently shortened: its length is not compared with the limit before it is used", st.path())
				return
			}
			r.ok("oversize-is-error", key)
		}
		rule.Branch = func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
			b := reg.get(st, "b")
			if b == nil || a.op != "bin" || len(a.args) != 2 {
				return
			}
			isLen := func(t *Term) bool {
				for t.op == "conv" {
					t = t.args[0]
				}
				return t.op == "len" && t.args[0] == b
			}
			lim := reg.get(st, "lim")
			isLim := func(t *Term) bool {
				return t == lim || t.isConst() || lim != nil && e.T.contains(lim, func(x *Term) bool { return x == t }) || e.T.contains(t, func(x *Term) bool { return x == lim })
			}
			switch {
			case a.s == "<" && isLim(a.args[0]) && isLen(a.args[1]) && !val, // !(limit < len)
				a.s == "<" && isLen(a.args[0]) && isLim(a.args[1]) && val, // len < limit+1
				a.s == "==" && isLen(a.args[0]) && isLim(a.args[1]) && !val:
				set(st, "lenok")
			}
		}
		rule.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
			i, ok := bufferingCalls[c.Name]
			if !ok {
				if c.Name != "builtin.len" {
					for _, a := range c.Args {
						use(e, st, c.In, a)
					}
				}
				return nil
			}
			rd := c.Args[i]
			if c.Name == "io.Copy" {
				// only copies into memory buffer anything
				w := c.Args[0]
				for w.op == "mi" {
					w = w.args[0]
				}
				if !isNamed2(w.typ, "bytes", "Buffer") && !isNamed2(w.typ, "strings", "Builder") {
					return nil
				}
			}
			if isFileTerm(e, rd) || p.fileParam(fn, rd) {
				r.ok("local-file", p.fnName(fn))
				return nil
			}
			kind, lim := limitTerm(rd)
			key := p.fnName(fn)
			if kind == "" {
				r.viol("bounded-read", key, p.iPos(c.In), "data from a peer is buffered without a size limit", st.path())
				return nil
			}
			good := lim.isConst() || !e.T.contains(lim, func(x *Term) bool { return x.op == "call" || x.op == "ext" || x.op == "ld" && x.args[0].op != "global" })
			r.check("bounded-read", key, p.iPos(c.In), good, "the size limit of a read is not fixed", st.path())
			e.T.walk(lim, func(x *Term) bool {
				if x.op == "param" {
					for k, pr := range fn.Params {
						if x.s == pr.Name()+"@"+p.fnName(fn) {
							p.constAtCalls(r, fn, k)
						}
					}
				}
				return true
			})
			res := e.opaque(st, c, c.Args)
			if len(res) == 2 {
				reg.put(st, "b", res[0])
				reg.put(st, "err", res[1])
				reg.put(st, "lim", lim)
				unset(st, "lenok")
				if kind == "limit" {
					set(st, "limit")
				} else {
					unset(st, "limit")
				}
			}
			return []Outcome{{st, res}}
		}
		rule.Return = func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			if len(res) == 2 {
				if n, ok := e.isNil(st, res[1]); ok && !n {
					return
				}
			}
			for _, t := range res {
				use(e, st, in, t)
			}
		}
		e := newEngine(p, rule)
		e.run(fn, "", nil)
		r.engine(e)
	}
	// buffers sized by the peer
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ms, ok := in.(*ssa.MakeSlice)
				if !ok {
					continue
				}
				wide := false
				net := false
				p.slice(ms.Len, func(v ssa.Value) bool {
					if c, ok := v.(*ssa.Call); ok {
						n := calleeName(c.Common())
						if strings.HasPrefix(n, "(encoding/binary.") && strings.Contains(n, ").Uint") {
							net = true
							if !strings.HasSuffix(n, "Uint16") {
								wide = true
							}
						}
						if n == "builtin.len" || n == "builtin.cap" {
							return false
						}
					}
					if al, ok := v.(*ssa.Alloc); ok {
						for _, ref := range *al.Referrers() {
							if mi, ok := ref.(*ssa.MakeInterface); ok && mi.Referrers() != nil {
								for _, rr := range *mi.Referrers() {
									if c, ok := rr.(*ssa.Call); ok && calleeName(c.Common()) == "encoding/binary.Read" {
										net = true
										if bt, ok := deref(al.Type()).Underlying().(*types.Basic); !ok || bt.Kind() != types.Uint16 && bt.Kind() != types.Uint8 {
											wide = true
										}
									}
								}
							}
						}
					}
					return true
				})
				if net {
					r.check("bounded-buffer", p.fnName(fn), p.iPos(in), !wide, "a buffer is sized by a number from the network that has more than 16 bits", nil)
				}
			}
		}
	}
	r.atLeast("bounded-read", 3)
	r.atLeast("oversize-is-error", 3)
	r.atLeast("bounded-buffer", 2)
}

// constAtCalls: the k-th parameter of fn is constant at every call.
func (p *Prog) constAtCalls(r *Report, fn *ssa.Function, k int) {
	for _, g := range p.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn && k < len(c.Common().Args) {
					_, isC := c.Common().Args[k].(*ssa.Const)
					r.check("bounded-read", p.fnName(g)+" -> "+p.fnName(fn), p.iPos(in), isC, "the size limit given here is not fixed", nil)
				}
			}
		}
	}
}

// fileParam: the reader is a parameter of fn that is a local file at every call.
func (p *Prog) fileParam(fn *ssa.Function, t *Term) bool {
	if t.op != "param" {
		return false
	}
	n, files := 0, 0
	for k, pr := range fn.Params {
		if t.s != pr.Name()+"@"+p.fnName(fn) && !strings.HasPrefix(t.s, pr.Name()+"@") && t.s != pr.Name() {
			continue
		}
		for _, g := range p.funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn && k < len(c.Common().Args) {
						n++
						p.slice(c.Common().Args[k], func(v ssa.Value) bool {
							if isNamed2(deref(v.Type()), "os", "File") {
								files++
								return false
							}
							return true
						})
					}
				}
			}
		}
	}
	return n > 0 && files >= n
}
