package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C14", `Typestate on every path of each cache backend's Lookup to a hit: every record of every section (options record excepted) has had its lifetime reduced by the time since the entry was stored, in a place where that time is known to be below the lifetime; the hit carries the query's own ID and question; and the entry's expiry has been compared with the current time, or the backend stores with a positive time-to-live derived from the expiry. Byte layouts are matched between writer and reader, so that the value compared is the expiry and the value subtracted from is the time of storing, including entries written to and read from disk.`,
		runC14, "a Redis server drops a key when the time-to-live it was stored with has passed")
}

// timeLayout says which time is kept at an offset of an encoded entry: type and offset -> field.
type timeLayout map[string]string

func layoutKey(v ssa.Value) string {
	if c, ok := v.(*ssa.ChangeType); ok {
		v = c.X
	}
	s, ok := v.(*ssa.Slice)
	if !ok {
		return ""
	}
	lo := int64(0)
	if s.Low != nil {
		c, ok := s.Low.(*ssa.Const)
		if !ok {
			return ""
		}
		lo = c.Int64()
	}
	return fmt.Sprintf("%s@%d", s.X.Type(), lo)
}

var timeFields = []string{"Timestamp", "Expiry"}

func timeLayouts(p *Prog) timeLayout {
	out := timeLayout{}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !strings.HasSuffix(calleeName(c.Common()), "PutUint64") {
					continue
				}
				args := c.Common().Args
				k := layoutKey(args[len(args)-2])
				if k == "" {
					continue
				}
				var got []string
				for _, f := range timeFields {
					if valueReads(p, args[len(args)-1], f) {
						got = append(got, f)
					}
				}
				if len(got) == 1 && (out[k] == "" || out[k] == got[0]) {
					out[k] = got[0]
				} else if len(got) > 0 {
					out[k] = "?"
				}
			}
		}
	}
	return out
}

// valueReads: v is computed from a field of that name (through calls).
func valueReads(p *Prog, v ssa.Value, field string) bool {
	found := false
	p.slice(v, func(x ssa.Value) bool {
		switch y := x.(type) {
		case *ssa.FieldAddr:
			found = found || fieldName(y.X.Type(), y.Field) == field
		case *ssa.Field:
			found = found || fieldName(y.X.Type(), y.Field) == field
		}
		return !found
	})
	return found
}

// timeRole: the times of a stored entry a term is computed from.
func timeRole(e *Engine, lay timeLayout, t *Term) map[string]bool {
	out := map[string]bool{}
	e.T.contains(t, func(x *Term) bool {
		for _, f := range timeFields {
			if x.isField(f) {
				out[f] = true
			}
		}
		if x.op == "call" && strings.HasSuffix(x.callName(), "Uint64") {
			s := x.args[len(x.args)-1]
			if s.op == "slice" {
				lo := int64(0)
				if !s.args[1].isNil() {
					lo, _ = s.args[1].intv()
				}
				if f := lay[fmt.Sprintf("%s@%d", s.args[0].typ, lo)]; f != "" {
					out[f] = true
				}
			}
		}
		return false
	})
	return out
}

func readsClock(e *Engine, t *Term) bool {
	return e.T.contains(t, func(x *Term) bool {
		return x.op == "call" && (x.callName() == "time.Now" || x.callName() == "time.Since" || x.callName() == "time.Until")
	})
}

type msgSection struct {
	msg *Term
	sec string
}

// sectionsOf returns the message sections a list is made of.
func sectionsOf(e *Engine, t *Term) []msgSection {
	var out []msgSection
	seen := map[*Term]bool{}
	e.T.contains(t, func(x *Term) bool {
		if (x.op == "ld" || x.op == "vf") && !seen[x] {
			seen[x] = true
			a := x
			if x.op == "ld" {
				a = x.args[0]
			}
			if a.op == "fa" || a.op == "vf" {
				switch a.s {
				case "Answer", "Ns", "Extra":
					out = append(out, msgSection{a.args[0], a.s})
				}
			}
		}
		return false
	})
	return out
}

func runC14(p *Prog, r *Report) {
	it := p.iface(p.root, "CacheBackend")
	if it == nil {
		r.viol("backends", "CacheBackend", "", "the cache backend interface was not found", nil)
		return
	}
	lay := timeLayouts(p)
	r.note("layout of encoded entries: %v", lay)
	for _, t := range p.implementers(it) {
		store, look := p.method(t, "Store"), p.method(t, "Lookup")
		if store == nil || look == nil || !p.inRepo(look) {
			continue
		}
		bounded := c14Store(p, r, store, lay)
		c14Lookup(p, r, look, t, lay, bounded)
	}
	c14Copies(p, r, lay)
	r.atLeast("aged", 2)
	r.atLeast("expired", 2)
	r.atLeast("identity", 2)
	r.atLeast("times-kept", 3)
}

// c14Store: the backend hands every entry to a store that expires it.
func c14Store(p *Prog, r *Report, fn *ssa.Function, lay timeLayout) bool {
	n, bad := 0, 0
	rule := &Rule{FollowGo: true}
	rule.Inline = func(e *Engine, f *ssa.Function) bool { return e.getInfo(f).size < 150 }
	rule.Branch = func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
		if a.op != "bin" || a.s != "<" {
			return
		}
		if k, ok := a.args[0].intv(); ok && k >= 0 && val {
			set(st, fmt.Sprintf("pos:%d", a.args[1].id))
		}
		if k, ok := a.args[1].intv(); ok && k >= 1 && !val {
			set(st, fmt.Sprintf("pos:%d", a.args[0].id))
		}
	}
	rule.Call = func(e *Engine, st *State, c *CallEv) []Outcome {
		if !strings.Contains(pkgOf(c.Name), "go-redis") || !strings.HasPrefix(c.Name[strings.LastIndex(c.Name, ".")+1:], "Set") {
			return nil
		}
		n++
		good := false
		for _, a := range c.Args {
			if a.typ != nil && isNamedT(a.typ, "time", "Duration") {
				good = timeRole(e, lay, a)["Expiry"] && readsClock(e, a) && has(st, fmt.Sprintf("pos:%d", a.id))
			}
		}
		if !good {
			bad++
		}
		r.check("expired", p.fnName(fn), p.iPos(c.In), good, "an entry is stored without a positive time-to-live taken from its expiry", st.path())
		return nil
	}
	e := newEngine(p, rule)
	e.run(fn, "", nil)
	r.engine(e)
	return n > 0 && bad == 0
}

func c14Lookup(p *Prog, r *Report, fn *ssa.Function, recv types.Type, lay timeLayout, bounded bool) {
	name := p.fnName(fn)
	own := deref(fn.Signature.Recv().Type())
	rule := &Rule{Unroll: true}
	qname := fn.Params[len(fn.Params)-1].Name() + "@" + name
	rule.Inline = func(e *Engine, f *ssa.Function) bool {
		if f.Signature.Recv() != nil && !types.Identical(deref(f.Signature.Recv().Type()), own) && reachesSite(p, f) {
			return false
		}
		return f.Name() != "Evict" && e.getInfo(f).size < 300
	}
	rule.Branch = func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
		if a.op == "bin" && a.s == "<" && a.args[1].op == "len" {
			if ss := sectionsOf(e, a.args[1]); len(ss) > 0 {
				pos := ""
				if in != nil {
					pos = p.pos(condPos(in))
				}
				if has(st, "todo") {
					r.viol("aged", name+"/each", pos, "a record is passed over without its lifetime being reduced", st.path())
				}
				for _, f := range flags(st, "left:") {
					unset(st, "left:"+f)
				}
				if val {
					set(st, "todo")
				} else {
					unset(st, "todo")
					for _, s := range ss {
						set(st, fmt.Sprintf("sec:%d:%s", s.msg.id, s.sec))
					}
				}
			}
		}
		if a.op == "is" && strings.HasSuffix(a.s, dnsPath+".OPT") && val {
			unset(st, "todo")
		}
		if a.op == "bin" && a.s == "==" && val {
			for i := 0; i < 2; i++ {
				if k, ok := a.args[i].intv(); ok && k == 41 && a.args[1-i].isField("Rrtype") {
					unset(st, "todo")
				}
			}
		}
		// comparisons with the clock; less: x is known to be below (or at) y
		less := func(x, y *Term) {
			if readsClock(e, x) && timeRole(e, lay, y)["Timestamp"] && !readsClock(e, y) {
				set(st, "future")
			}
			if readsClock(e, x) && timeRole(e, lay, y)["Expiry"] {
				set(st, "exp")
			}
			if k, ok := x.intv(); ok && k == 0 && y.op == "call" && y.callName() == "time.Until" && timeRole(e, lay, y)["Expiry"] {
				set(st, "exp")
			}
		}
		if a.op == "bin" && a.s == "<" && val && a.args[1].isField("Ttl") && a.args[1].op == "ld" {
			set(st, fmt.Sprintf("left:%d:%d", a.args[1].args[0].id, a.args[0].id))
		}
		if a.op == "bin" && a.s == "<" {
			if val {
				less(a.args[0], a.args[1])
			} else {
				less(a.args[1], a.args[0])
			}
		}
		if a.op == "call" && len(a.args) >= 2 {
			x, y := a.args[len(a.args)-2], a.args[len(a.args)-1]
			n := a.callName()
			if strings.HasSuffix(n, "time.Time).After") != val && strings.Contains(n, "time.Time).") || strings.HasSuffix(n, "time.Time).Before") && val {
				less(x, y) // not after, or before
			} else if strings.Contains(n, "time.Time).") {
				less(y, x)
			}
		}
	}
	rule.Instr = func(e *Engine, st *State, in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		a := e.ev(st, s.Addr)
		if a.op == "fa" && (a.s == "Id" && a.args[0].op == "fa" && a.args[0].s == "MsgHdr" || a.s == "Question") {
			m := a.args[0]
			if a.s == "Id" {
				m = m.args[0]
			}
			k := fmt.Sprintf("%s:%d", a.s, m.id)
			unset(st, k)
			if e.T.contains(e.ev(st, s.Val), func(z *Term) bool {
				return z.isField(a.s) && z.op == "ld" && rootOf(z.args[0]).op == "param" && rootOf(z.args[0]).s == qname
			}) {
				set(st, k)
			}
		}
		if a.op != "fa" || a.s != "Ttl" {
			return
		}
		v := e.ev(st, s.Val)
		pos := p.iPos(in)
		old := v
		age := e.T.intT(0)
		if v.op == "bin" && v.s == "-" {
			old, age = v.args[0], v.args[1]
		}
		unset(st, "todo")
		if k, ok := v.intv(); ok && k == 0 {
			return
		}
		if !old.isField("Ttl") {
			good := e.T.readsField(v, "Ttl") && timeRole(e, lay, v)["Timestamp"] && readsClock(e, v)
			r.check("aged", name+"/by", pos, good, "a record's lifetime is not set to what remains of it", st.path())
			return
		}
		if k, ok := age.intv(); ok && k == 0 {
			r.check("aged", name+"/zero", pos, has(st, "future"), "a record's lifetime is not reduced", st.path())
			return
		}
		r.check("aged", name+"/by", pos, timeRole(e, lay, age)["Timestamp"] && readsClock(e, age), "a record's lifetime is not reduced by the time since the entry was stored", st.path())
		r.check("aged", name+"/left", pos, has(st, fmt.Sprintf("left:%d:%d", a.id, age.id)), "a record whose lifetime has run out may be served", st.path())
	}
	rule.Return = func(e *Engine, st *State, in *ssa.Return, res []*Term) {
		if len(res) == 0 {
			return
		}
		if v, ok := e.eval(st, res[len(res)-1]); ok && !v {
			return
		}
		pos := p.iPos(in)
		m := res[0]
		for _, s := range []string{"Answer", "Ns", "Extra"} {
			r.check("aged", name+"/"+s, pos, has(st, fmt.Sprintf("sec:%d:%s", m.id, s)) && !has(st, "todo"), "a hit is returned without the lifetimes of this section having been reduced: "+s, st.path())
		}
		r.check("expired", name, pos, bounded || has(st, "exp"), "a hit is returned without its expiry having been compared with the time", st.path())
		r.check("identity", name+"/id", pos, has(st, fmt.Sprintf("Id:%d", m.id)), "a hit does not carry the query's ID", st.path())
		r.check("identity", name+"/question", pos, has(st, fmt.Sprintf("Question:%d", m.id)), "a hit does not carry the query's question", st.path())
	}
	e := newEngine(p, rule)
	e.run(fn, "", nil)
	r.engine(e)
}

// c14Copies: where an entry is converted, each time goes to the field of the same meaning.
func c14Copies(p *Prog, r *Report, lay timeLayout) {
	var roles func(v ssa.Value, depth int) map[string]bool
	roles = func(v ssa.Value, depth int) map[string]bool {
		out := map[string]bool{}
		p.slice(v, func(x ssa.Value) bool {
			switch y := x.(type) {
			case *ssa.FieldAddr:
				n := fieldName(y.X.Type(), y.Field)
				if n == "Timestamp" || n == "Expiry" {
					out[n] = true
					return false
				}
			case *ssa.Field:
				n := fieldName(y.X.Type(), y.Field)
				if n == "Timestamp" || n == "Expiry" {
					out[n] = true
					return false
				}
			case *ssa.Call:
				if strings.HasSuffix(calleeName(&y.Call), "Uint64") {
					if f := lay[layoutKey(y.Call.Args[len(y.Call.Args)-1])]; f != "" {
						out[f] = true
					}
				}
				if g := y.Call.StaticCallee(); g != nil && p.inRepo(g) && depth < 3 {
					for _, b := range g.Blocks {
						if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
							for _, v := range ret.Results {
								for f := range roles(v, depth+1) {
									out[f] = true
								}
							}
						}
					}
				}
			}
			return true
		})
		return out
	}
	hasField := func(t types.Type, n string) bool {
		s, ok := deref(t).Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				return true
			}
		}
		return false
	}
	for _, fn := range p.funcs {
		got := map[ssa.Value]map[string]bool{}
		both := map[ssa.Value]token.Pos{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !hasField(fa.X.Type(), "Timestamp") || !hasField(fa.X.Type(), "Expiry") {
					continue
				}
				n := fieldName(fa.X.Type(), fa.Field)
				if n != "Timestamp" && n != "Expiry" {
					continue
				}
				if got[fa.X] == nil {
					got[fa.X] = map[string]bool{}
				}
				got[fa.X][n] = true
				rs := roles(s.Val, 0)
				if len(rs) == 0 {
					continue
				}
				key := fmt.Sprintf("%s.%s", p.fnName(fn), n)
				r.check("times-kept", key, p.iPos(in), rs[n] && len(rs) == 1, "a stored entry's "+n+" is set from another time", nil)
				if n == "Timestamp" && c14SourceHasExpiry(p, s.Val, lay) {
					both[fa.X] = s.Pos()
				}
			}
		}
		for v, pos := range both {
			r.check("times-kept", p.fnName(fn)+"/both", p.pos(pos), got[v]["Expiry"], "the expiry is lost when an entry is converted", nil)
		}
	}
}

// c14SourceHasExpiry: the entry a time is copied from also has an expiry.
func c14SourceHasExpiry(p *Prog, v ssa.Value, lay timeLayout) bool {
	found := false
	p.slice(v, func(x ssa.Value) bool {
		check := func(t types.Type) {
			if s, ok := deref(t).Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == "Expiry" {
						found = true
					}
				}
			}
		}
		switch y := x.(type) {
		case *ssa.FieldAddr:
			if fieldName(y.X.Type(), y.Field) == "Timestamp" {
				check(y.X.Type())
				return false
			}
		case *ssa.Field:
			if fieldName(y.X.Type(), y.Field) == "Timestamp" {
				check(y.X.Type())
				return false
			}
		case *ssa.Call:
			if strings.HasSuffix(calleeName(&y.Call), "Uint64") {
				k := layoutKey(y.Call.Args[len(y.Call.Args)-1])
				if lay[k] == "Timestamp" {
					for o, f := range lay {
						if f == "Expiry" && strings.HasPrefix(o, k[:strings.LastIndex(k, "@")+1]) {
							found = true
						}
					}
				}
			}
		}
		return true
	})
	return found
}
