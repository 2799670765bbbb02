package main

import (
	"fmt"
	"go/token"
	"go/types"
	"maps"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C27, C28, C29: validation of signed answers.
//
// The three properties share one model of what the validator learns on a path: which signatures
// verified which records with whose keys, which records of which lists were compared with a
// delegation record, and what authenticated denial records say about which names. Every
// acceptance (a nil error, an insecure-delegation error, keys handed out or remembered) must be
// supported by what was learned on every path that leads to it.

const dnssecPath = modPath + "/dnssec"

func init() {
	register("C27", "answers leave the validator only when every record set was verified, proven unsigned or denied with proof, and only verified answers carry the authenticated flag",
		runC27,
		"Replies with a code other than success or name error carry no data to validate",
		"RRSIG.Verify of the DNS library checks type, name, signer and key tag and is cryptographically sound")
	register("C28", "keys are handed out or remembered only when a verified delegation record of the zone matches a key that signed them; accepted signatures are within their period and made by an ancestor",
		runC28,
		"RRSIG.Verify and DNSKEY.ToDS of the DNS library are correct; Verify insists on the signer being the owner of the key")
	register("C29", "absence is accepted only with verified denial records that deny exactly what was asked",
		runC29,
		"NSEC3.Match and NSEC3.Cover of the DNS library are correct",
		"The name-ordering function of the package orders names canonically")
}

var c27Rules = map[string]map[string]bool{
	"C27": {"answer": true, "flag": true, "sets": true, "records": true},
	"C28": {"keys": true, "remember": true, "delegation": true, "expiry": true, "signature": true},
	"C29": {"denial": true, "unsigned": true, "encloser": true},
}

func runC27(p *Prog, r *Report) {
	c27Run(p, r)
	r.atLeast("answer", 4)
	r.atLeast("flag", 4)
	r.atLeast("sets", 2)
	r.atLeast("records", 1)
}

func runC28(p *Prog, r *Report) {
	c27Run(p, r)
	r.atLeast("keys", 2)
	r.atLeast("remember", 1)
	r.atLeast("delegation", 1)
	r.atLeast("expiry", 1)
	r.atLeast("signature", 1)
}

func runC29(p *Prog, r *Report) {
	c27Run(p, r)
	r.atLeast("denial", 4)
	r.atLeast("unsigned", 2)
}

// c27Run analyses the validator and keeps the findings that belong to the property.
func c27Run(p *Prog, r *Report) {
	sub := &Report{prop: r.prop, p: p, rules: map[string]*ruleStat{}, funcs: map[string]bool{}}
	chains := c27Chains(p)
	c27Enclosers(p, sub)
	for _, fn := range p.resolvers() {
		if t, ok := deref(fn.Params[0].Type()).Underlying().(*types.Struct); ok {
			for i := 0; i < t.NumFields(); i++ {
				if n, ok := deref(t.Field(i).Type()).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == dnssecPath {
					c27Element(p, sub, fn)
				}
			}
		}
	}
	for _, fn := range p.funcs {
		if !c27In(fn) || fn.Signature.Recv() == nil || !token.IsExported(fn.Name()) {
			continue
		}
		sig := fn.Signature
		if sig.Params().Len() == 1 && isMsgPtr(sig.Params().At(0).Type()) && sig.Results().Len() == 1 && isErrorT(sig.Results().At(0).Type()) {
			newC27(p, sub, chains, fn).run(false)
		}
	}
	for f := range chains {
		newC27(p, sub, chains, f).run(!c27Walk(f))
	}
	if !slices.ContainsFunc(slices.Collect(maps.Keys(chains)), func(f *ssa.Function) bool { return !c27Walk(f) }) {
		sub.viol("vacuity", "chain", "", "no function that follows the chain of trust was found", nil)
	}
	mine := c27Rules[r.prop]
	keep := &Report{prop: r.prop, p: p, rules: map[string]*ruleStat{}, funcs: sub.funcs, paths: sub.paths, calls: sub.calls, steps: sub.steps, notes: sub.notes}
	for _, o := range sub.obls {
		if mine[o.Rule] {
			keep.ok(o.Rule, o.What)
		}
	}
	for _, v := range sub.viols {
		if mine[v.Rule] || v.Rule == "budget" || v.Rule == "vacuity" {
			keep.viol(v.Rule, v.Key, v.Pos, v.Msg, v.Path)
		}
	}
	r.merge(keep)
}

// c27Walk: a method that looks for an unsigned zone on the way to a name.
func c27Walk(fn *ssa.Function) bool {
	sig := fn.Signature
	if !c27In(fn) || fn.Parent() != nil || sig.Recv() == nil || sig.Results().Len() != 1 || !isErrorT(sig.Results().At(0).Type()) {
		return false
	}
	name := false
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		name = name || isStringT(t)
		if _, ok := t.Underlying().(*types.Basic); !ok && !isNamedT(t, "time", "Time") && !isNamedT(t, "context", "Context") {
			return false
		}
	}
	return name
}

func c27In(fn *ssa.Function) bool {
	return fn.Pkg != nil && fn.Pkg.Pkg.Path() == dnssecPath
}

func isKeyList(t types.Type) bool {
	return isSliceOf(t, func(e types.Type) bool { return isPtr(e) && isNamedT(deref(e), dnsPath, "DNSKEY") })
}

// c27Chains: functions that return keys and an error and ask for the keys of another zone the same way.
func c27Chains(p *Prog) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, fn := range p.funcs {
		if !c27In(fn) || fn.Parent() != nil {
			continue
		}
		rs := fn.Signature.Results()
		keys, err, str := false, false, false
		for i := 0; i < rs.Len(); i++ {
			keys = keys || isKeyList(rs.At(i).Type())
			err = err || isErrorT(rs.At(i).Type())
		}
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			str = str || isStringT(fn.Signature.Params().At(i).Type())
		}
		if c27Walk(fn) {
			out[fn] = true
		}
		if !keys || !err || !str {
			continue
		}
		self := false
		p.staticReach(fn, func(f *ssa.Function) bool {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
						self = true
					}
				}
			}
			return true
		})
		if self {
			out[fn] = true
		}
	}
	return out
}

// c27Element analyses the resolver that validates the answers of another one.
func c27Element(p *Prog, r *Report, fn *ssa.Function) {
	name := p.fnName(fn)
	e := newEngine(p, nil)
	e.r = &Rule{
		Inline: func(e *Engine, f *ssa.Function) bool { return !c27In(f) && e.getInfo(f).size < 120 },
		Branch: func(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
			switch {
			case a.op == "bin" && a.s == "==" && val && a.args[1].isNil() && c27Validates(p, a.args[0]):
				set(st, fmt.Sprintf("valid:%d", a.args[0].args[len(a.args[0].args)-1].id))
			case a.op == "call" && a.callName() == "errors.Is" && val && c27Insecure(e, a.args[1]) && c27Validates(p, a.args[0]):
				set(st, fmt.Sprintf("unsigned:%d", a.args[0].args[len(a.args[0].args)-1].id))
			case lastField(a) == "LogOnly" && val:
				set(st, "logonly")
			case a.op == "bin" && a.s == "==" && !val && lastField(a.args[0]) == "Rcode":
				if n, ok := a.args[1].intv(); ok {
					set(st, fmt.Sprintf("not:%d", n))
				}
			}
		},
		Return: func(e *Engine, st *State, in *ssa.Return, res []*Term) {
			m := res[0]
			if isnil, known := e.isNil(st, m); known && isnil {
				return
			}
			if en, known := e.isNil(st, res[1]); known && !en {
				return
			}
			if !e.T.contains(m, func(t *Term) bool { return t.op == "ext" && strings.HasSuffix(t.args[0].callName(), ".Resolve") }) {
				return // an answer of its own
			}
			if isnil, known := e.isNil(st, m); !known || isnil {
				// handed on together with its error
				if m.op == "ext" && res[1].op == "ext" && m.args[0] == res[1].args[0] {
					return
				}
			}
			pos := p.iPos(in)
			valid, unsigned := has(st, fmt.Sprintf("valid:%d", m.id)), has(st, fmt.Sprintf("unsigned:%d", m.id))
			other := has(st, "not:0") && has(st, "not:3")
			kind := "other code"
			switch {
			case valid:
				kind = "validated"
			case unsigned:
				kind = "unsigned"
			case has(st, "logonly") && !other:
				kind = "log only"
			}
			r.check("answer", name+":"+kind, pos, valid || unsigned || other || has(st, "logonly"), "an answer that was neither validated nor proven to be unsigned is returned", st.path())
			ad := e.load(st, e.fa(e.fa(m, "MsgHdr", nil), "AuthenticatedData", types.NewPointer(types.Typ[types.Bool])), types.Typ[types.Bool])
			v, known := e.eval(st, ad)
			r.check("flag", name+":"+kind, pos, valid || known && !v, "an answer that was not validated is returned with the authenticated flag set, or as received from upstream", st.path())
		},
	}
	e.run(fn, "", nil)
	r.engine(e)
}

// c27Validates: the result of the validator's verdict on a message.
func c27Validates(p *Prog, t *Term) bool {
	return t.op == "call" && strings.Contains(t.callName(), dnssecPath+".") && len(t.args) > 0 && t.args[len(t.args)-1].typ != nil && isMsgPtr(t.args[len(t.args)-1].typ)
}

// c27Insecure: the error value that stands for a zone proven to be unsigned.
func c27Insecure(e *Engine, t *Term) bool {
	return e.T.contains(t, func(x *Term) bool { return x.op == "global" && strings.HasSuffix(x.s, "ErrInsecureDelegation") })
}

// c27 is one analysis of the validator from an entry function.
type c27 struct {
	p      *Prog
	r      *Report
	e      *Engine
	fn     *ssa.Function
	name   string
	chains map[*ssa.Function]bool
	chain  bool              // the entry follows the chain of trust
	good   map[int32]bool    // append terms: every element added was found good
	plain  map[int32]bool    // append terms: some key was added without comparing it
	incs   map[[2]int32]bool // list, list whose elements are stored in it
	errs   map[int32]string  // errors made from the insecure-delegation error ("I") or another one ("M")
}

func newC27(p *Prog, r *Report, chains map[*ssa.Function]bool, fn *ssa.Function) *c27 {
	return &c27{p: p, r: r, fn: fn, name: p.fnName(fn), chains: chains, good: map[int32]bool{}, errs: map[int32]string{}, incs: map[[2]int32]bool{}, plain: map[int32]bool{}}
}

// text-valued and number-valued helpers stay opaque: only their arguments matter
func c27Opaque(f *ssa.Function) bool {
	rs := f.Signature.Results()
	if rs.Len() != 1 {
		return false
	}
	t := rs.At(0).Type().Underlying()
	if s, ok := t.(*types.Slice); ok {
		t = s.Elem().Underlying()
	}
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsBoolean == 0
}

// isTypeIn: a function that tells whether a type is in a list of types.
func c27Contains(sig *types.Signature) bool {
	if sig.Recv() != nil || sig.Params().Len() != 2 || sig.Results().Len() != 1 || !isBool(sig.Results().At(0).Type()) {
		return false
	}
	a, b := sig.Params().At(0).Type(), sig.Params().At(1).Type()
	return isSliceOf(a, isUint16) && isUint16(b) || isSliceOf(b, isUint16) && isUint16(a)
}

func c27Cmp(f *ssa.Function) bool {
	sig := f.Signature
	return c27In(f) && sig.Recv() == nil && sig.Params().Len() == 2 && isStringT(sig.Params().At(0).Type()) && isStringT(sig.Params().At(1).Type()) &&
		sig.Results().Len() == 1 && isIntT(sig.Results().At(0).Type())
}

func (c *c27) run(chain bool) {
	c.chain = chain
	c.e = newEngine(c.p, &Rule{
		Inline: func(e *Engine, f *ssa.Function) bool {
			return c27In(f) && !c.chains[f] && !c27Opaque(f) && !c27Contains(f.Signature)
		},
		Call:     c.call,
		After:    c.after,
		Instr:    c.instr,
		Branch:   c.branch,
		BackEdge: c.backEdge,
		Peel:     true,
		Return:   c.ret,
		Prune:    c.prune,
		Keep:     c.keep,
	})
	c.e.depth = 60
	c.e.budget = 4_000_000
	c.e.run(c.fn, "", nil)
	c.r.engine(c.e)
}

// keep: what single records look like is recorded as flags where it matters.
func (c *c27) keep(e *Engine, a *Term) bool {
	if c.chain || a.op == "bin" && a.s == "==" && (a.args[1].isNil() || a.args[0].op == "len") {
		return true
	}
	return !e.T.contains(a, func(t *Term) bool { return t.op == "ia" || t.op == "next" || t.op == "vi" })
}

// nameBase strips what does not change which name is meant.
func nameBase(t *Term) *Term {
	for {
		switch {
		case t.op == "call" && len(t.args) == 1 && (t.callName() == dnsPath+".CanonicalName" || t.callName() == dnsPath+".Fqdn" || t.callName() == "strings.ToLower"):
			t = t.args[0]
		case t.op == "conv" && len(t.args) == 1:
			t = t.args[0]
		default:
			return t
		}
	}
}

// fieldBase: the record whose field is read.
func fieldBase(t *Term, path ...string) *Term {
	if t.op == "ld" {
		t = t.args[0]
	}
	for i := len(path) - 1; i >= 0; i-- {
		if t.op != "fa" && t.op != "vf" || t.s != path[i] {
			return nil
		}
		t = t.args[0]
		if t.op == "ld" && i > 0 {
			t = t.args[0]
		}
	}
	return t
}

// role names a domain name: the owner or next name of a denial record, or a term.
func (c *c27) role(t *Term) string {
	t = nameBase(t)
	if b := fieldBase(t, "Hdr", "Name"); b != nil {
		return fmt.Sprintf("o%d", b.id)
	}
	if b := fieldBase(t, "NextDomain"); b != nil {
		return fmt.Sprintf("x%d", b.id)
	}
	if b := fieldBase(t, "Name"); b != nil && b.op == "call" && strings.HasSuffix(b.callName(), ".Header") {
		h := b.args[0]
		for h.op == "mi" {
			h = h.args[0]
		}
		return fmt.Sprintf("o%d", h.id)
	}
	return fmt.Sprint(t.id)
}

// listOf: the list a value is an element of.
func listOf(t *Term) *Term {
	for {
		switch t.op {
		case "ta", "mi", "conv":
			t = t.args[0]
			continue
		case "ld":
			if t.args[0].op == "ia" {
				return t.args[0].args[0]
			}
		case "vi":
			return t.args[0]
		}
		return nil
	}
}

func (c *c27) isChainKeys(t *Term) bool {
	for t.op == "ext" || t.op == "phi" && len(c.e.T.phiIn[t]) == 1 {
		if t.op == "ext" {
			t = t.args[0]
		} else {
			for x := range c.e.T.phiIn[t] {
				t = x
			}
		}
	}
	if t.op == "call" {
		for f := range c.chains {
			if t.callName() == funcFullName(f) {
				return true
			}
		}
	}
	return false
}

// fromStore: what the validator remembered.
func (c *c27) fromStore(t *Term) bool {
	return c.e.T.contains(t, func(x *Term) bool {
		return x.op == "lookup" && c.e.T.contains(x.args[0], func(y *Term) bool { return y.op == "param" })
	})
}

func (c *c27) fromReply(t *Term) bool {
	return c.e.T.contains(t, func(x *Term) bool {
		return (x.op == "fa" || x.op == "vf") && (x.s == "Answer" || x.s == "Ns" || x.s == "Extra")
	})
}

// trusted tells where the keys of a list come from: "chain" for keys of a zone whose chain was
// followed, "ds" for keys that matched a delegation record, "" if some of them come from elsewhere.
func (c *c27) trusted(st *State, t *Term, ds map[*Term]bool, seen map[*Term]bool) string {
	if seen[t] {
		return "any"
	}
	seen[t] = true
	join := func(a, b string) string {
		switch {
		case a == "" || b == "":
			return ""
		case a == "any":
			return b
		case b == "any" || a == b:
			return a
		}
		return ""
	}
	switch {
	case t.isNil():
		return "any"
	case c.isChainKeys(t):
		return "chain"
	case t.op == "phi" || t.op == "merge":
		out := "any"
		for x := range c.e.T.phiIn[t] {
			out = join(out, c.trusted(st, x, ds, seen))
		}
		return out
	case t.op == "append":
		out := c.trusted(st, t.args[0], ds, seen)
		if len(t.args) < 3 {
			return join(out, c.trusted(st, t.args[1], ds, seen))
		}
		for _, x := range t.args[2:] {
			if !c.plain[t.id] { // every key added had matched; nothing was added on this path if there are no flags
				if !c.keyMatched(st, t.id) {
					out = join(out, "any")
					continue
				}
				for _, m := range flags(st, fmt.Sprintf("matched:%d:", t.id)) {
					var id int32
					fmt.Sscan(m, &id)
					ds[c.e.T.byID(id)] = true
				}
				out = join(out, "ds")
			} else if l := listOf(x); l != nil {
				out = join(out, c.trusted(st, l, ds, seen))
			} else {
				return ""
			}
		}
		return out
	case t.op == "make":
		return "any"
	case t.op == "slice":
		return c.trusted(st, t.args[0], ds, seen)
	}
	if !c.fromReply(t) && c.fromStore(t) {
		return "chain"
	}
	return ""
}

func (c *c27) call(e *Engine, st *State, ev *CallEv) []Outcome {
	if ev.Fn == nil && ev.Name == "" {
		unset(st, "unexpired") // a reply is asked for
	}
	if ev.Fn != nil && c.chains[ev.Fn] {
		// what it remembers is no concern of the caller
		base := e.fresh(st, "call", ev.Name, ev.In, ev.Ctx, nil, ev.Args...)
		rs := ev.C.Signature().Results()
		if rs.Len() == 1 {
			base = e.fresh(st, "call", ev.Name, ev.In, ev.Ctx, rs.At(0).Type(), ev.Args...)
			return []Outcome{{st, []*Term{base}}}
		}
		var res []*Term
		for i := 0; i < rs.Len(); i++ {
			res = append(res, e.T.mk("ext", fmt.Sprint(i), rs.At(i).Type(), false, base))
		}
		return []Outcome{{st, res}}
	}
	if ev.Name == "fmt.Errorf" {
		kind := ""
		if n := len(ev.Args); n > 1 && ev.Args[n-1].op == "slice" {
			root := ev.Args[n-1].args[0]
			for a, v := range st.mem {
				if isUnder(a, root) {
					switch {
					case c27Insecure(e, v):
						kind = "I"
					case kind == "" && c.mayUnsigned(st, v, map[*Term]bool{}):
						kind = "M"
					}
				}
			}
		}
		res := e.opaque(st, ev, ev.Args)
		if kind != "" && c.errs[res[0].id] != "I" {
			c.errs[res[0].id] = kind
		}
		return []Outcome{{st, res}}
	}
	return nil
}

// mayUnsigned: the error can stand for a zone proven to be unsigned.
func (c *c27) mayUnsigned(st *State, t *Term, seen map[*Term]bool) bool {
	for t.op == "mi" {
		t = t.args[0]
	}
	if seen[t] || has(st, fmt.Sprintf("notunsigned:%d", t.id)) {
		return false
	}
	seen[t] = true
	switch {
	case c27Insecure(c.e, t):
		return true
	case c.errs[t.id] != "":
		return true
	case t.op == "phi" || t.op == "merge":
		for x := range c.e.T.phiIn[t] {
			if c.mayUnsigned(st, x, seen) {
				return true
			}
		}
		return false
	}
	return isErrorT0(t.typ) && c.isChainKeys(t)
}

func isErrorT0(t types.Type) bool { return t != nil && isErrorT(t) }

// ownProof: the error was made here from the insecure-delegation error.
func (c *c27) ownProof(st *State, t *Term, seen map[*Term]bool) bool {
	for t.op == "mi" {
		t = t.args[0]
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.op == "phi" || t.op == "merge" {
		for x := range c.e.T.phiIn[t] {
			if c.ownProof(st, x, seen) {
				return true
			}
		}
		return false
	}
	return c.errs[t.id] == "I" || t.op != "call" && t.op != "ext" && c27Insecure(c.e, t)
}

func (c *c27) after(e *Engine, ev *CallEv, outs []Outcome) {
	bi, ok := ev.C.Value.(*ssa.Builtin)
	if !ok || bi.Name() != "append" {
		return
	}
	elem := ev.C.Args[0].Type().Underlying().(*types.Slice).Elem()
	for _, o := range outs {
		t := o.Res[0]
		if t.op != "append" || len(t.args) < 3 {
			continue
		}
		good, known := true, false
		for _, x := range t.args[2:] {
			switch {
			case isPtr(elem) && isNamedT(deref(elem), dnsPath, "DNSKEY"):
				ms := flags(o.St, fmt.Sprintf("match:%d:", x.id))
				for _, m := range ms {
					set(o.St, fmt.Sprintf("matched:%d:%s", t.id, m))
				}
				if len(ms) == 0 {
					c.plain[t.id] = true
				}
			case isPtr(elem) && isNamedT(deref(elem), dnsPath, "DS"):
				if c.chain && c.fromReply(x) {
					c.r.check("delegation", c.name+":"+c.p.fnName(ev.In.Parent()), c.p.iPos(ev.In), has(o.St, fmt.Sprintf("owner:%d", listElem(x).id)),
						"a delegation record is used although its owner need not be the zone", o.St.path())
				}
			case isPtr(elem) && (isNamedT(deref(elem), dnsPath, "NSEC") || isNamedT(deref(elem), dnsPath, "NSEC3")):
				known = true
				good = good && c.verified(o.St, x, true)
			}
		}
		if known {
			if old, seen := c.good[t.id]; seen {
				good = good && old
			}
			c.good[t.id] = good
		}
	}
}

func (c *c27) keyMatched(st *State, id int32) bool {
	return len(flags(st, fmt.Sprintf("matched:%d:", id))) > 0
}

// listElem strips assertions from an element.
func listElem(t *Term) *Term {
	for t.op == "ta" || t.op == "mi" || t.op == "conv" {
		t = t.args[0]
	}
	return t
}

// verified: the record is an element of a set whose signature was accepted (for names: by a zone
// above the name asked about), or of a list of such records.
func (c *c27) verified(st *State, x *Term, names bool) bool {
	l := listOf(x)
	if l == nil {
		return false
	}
	return c.verifiedList(st, l, names, map[*Term]bool{})
}

func (c *c27) verifiedList(st *State, l *Term, names bool, seen map[*Term]bool) bool {
	if seen[l] || l.isNil() {
		return true
	}
	seen[l] = true
	if len(flags(st, fmt.Sprintf("V:%d:chain", l.id))) > 0 {
		return !names || len(flags(st, fmt.Sprintf("B:%d:q", l.id))) > 0
	}
	switch l.op {
	case "phi", "merge":
		for x := range c.e.T.phiIn[l] {
			if !c.verifiedList(st, x, names, seen) {
				return false
			}
		}
		return len(c.e.T.phiIn[l]) > 0
	case "append":
		return c.good[l.id] && c.verifiedList(st, l.args[0], names, seen)
	case "make":
		n, ok := l.args[0].intv()
		return ok && n == 0
	case "slice":
		return c.verifiedList(st, l.args[0], names, seen)
	}
	return false
}

func (c *c27) instr(e *Engine, st *State, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Store:
		a, v := e.ev(st, x.Addr), e.ev(st, x.Val)
		if a.op == "ia" && isErrorlessRecord(x.Val.Type()) {
			if l := listOf(v); l != nil {
				c.incs[[2]int32{a.args[0].id, l.id}] = true
			}
		}
		// remembering keys
		if c.chain && rootOf(a).op != "alloc" && c27HasKeys(x.Val.Type()) {
			ok := false
			for _, f := range flags(st, "V:") {
				ok = ok || strings.Contains(f, ":ds:ok")
			}
			c.r.check("remember", c.name+":"+c.p.fnName(in.Parent()), c.p.iPos(in), ok, "keys are remembered before a key that matches a verified delegation record has been found to have signed them", st.path())
		}
	case *ssa.MapUpdate:
		v := e.ev(st, x.Value)
		set(st, fmt.Sprintf("filled:%d", e.ev(st, x.Map).id))
		for _, s := range sectionsOf(e, v) {
			if s.sec == "Answer" && s.msg.op == "param" {
				unset(st, "rec")
				set(st, fmt.Sprintf("map:%d", e.ev(st, x.Map).id))
			}
		}
	}
}

func isErrorlessRecord(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Name() == "RR" {
		return true
	}
	return isPtr(t) && isStruct(deref(t))
}

// c27HasKeys: a pointer to something that holds keys, or a list of keys.
func c27HasKeys(t types.Type) bool {
	if isKeyList(t) {
		return true
	}
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if isKeyList(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

// raw flags speak about one element of a loop and end with its round
var c27Raw = []string{"ver:", "period:", "bw:", "bm:", "own:", "lt:", "sub:", "opt:", "mt:", "cv:", "match:", "owner:"}

// c27Ids: the parts of a flag that name terms.
func c27Ids(pre, f string) []string {
	w := strings.Split(f, ":")
	n := 1
	switch pre {
	case "bw:", "own:", "lt:", "sub:", "mt:", "cv:", "match:", "ver:":
		n = 2
	}
	return w[:min(n, len(w))]
}

func (c *c27) backEdge(e *Engine, st *State, from, head *ssa.BasicBlock) {
	// the list the loop runs over
	var list *Term
	if i, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If); ok {
		if b, ok := i.Cond.(*ssa.BinOp); ok {
			if l := e.ev(st, b.Y); l != nil && l.op == "len" {
				list = l.args[0]
			}
		}
	}
	memo := map[int32]bool{}
	about := func(id int32) bool {
		if v, ok := memo[id]; ok {
			return v
		}
		t := e.T.byID(id)
		v := t != nil && (list != nil && listOf(t) == list || e.T.contains(t, func(x *Term) bool { return x.op == "phi" && x.in != nil && x.in.Block() == head }))
		memo[id] = v
		return v
	}
	for _, pre := range c27Raw {
		for _, f := range flags(st, pre) {
			for _, w := range c27Ids(pre, f) {
				var id int32
				if n, err := fmt.Sscanf(strings.TrimLeft(w, "ox"), "%d", &id); err == nil && n == 1 && about(id) {
					unset(st, pre+f)
					break
				}
			}
		}
	}
}

// prune ends what is known about records nothing can refer to any more.
func (c *c27) prune(e *Engine, st *State, covered func(*Term) bool) {
	memo := map[int32]bool{}
	gone := func(id int32) bool {
		v, ok := memo[id]
		if !ok {
			t := e.T.byID(id)
			v = t != nil && !covered(t)
			memo[id] = v
		}
		return v
	}
	drop := func(pre string) {
		for _, f := range flags(st, pre) {
			for i, w := range c27Ids(pre, f) {
				if pre == "lt:" || pre == "sub:" {
					if w == strings.TrimLeft(w, "ox") {
						continue // a name
					}
				} else if i > 0 {
					continue
				}
				var id int32
				if n, err := fmt.Sscanf(strings.TrimLeft(w, "ox"), "%d", &id); err == nil && n == 1 && gone(id) {
					unset(st, pre+f)
					break
				}
			}
		}
	}
	for _, pre := range c27Raw {
		drop(pre)
	}
	drop("filled:")
	// errors remembered by a live variable
	var held []*Term
	for _, t := range st.env {
		if t.op == "phi" || t.op == "merge" {
			for x := range e.T.phiIn[t] {
				held = append(held, x)
			}
		}
	}
	for _, f := range flags(st, "notunsigned:") {
		var id int32
		fmt.Sscan(f, &id)
		if gone(id) && !slices.Contains(held, e.T.byID(id)) {
			unset(st, "notunsigned:"+f)
		}
	}
	if c.chain {
		return
	}
	for _, pre := range []string{"V:", "B:"} {
		for _, f := range flags(st, pre) {
			var id int32
			fmt.Sscanf(f, "%d", &id)
			if gone(id) && !e.T.contains(e.T.byID(id), func(t *Term) bool {
				return t.op == "next" && has(st, fmt.Sprintf("map:%d", t.args[0].args[0].id))
			}) {
				unset(st, pre+f)
			}
		}
	}
}

func (c *c27) branch(e *Engine, st *State, in *ssa.If, a *Term, val bool) {
	T := e.T
	changed := true
	switch {
	case a.op == "bin" && a.s == "==" && a.args[1].isNil() && strings.HasSuffix(a.args[0].callName(), dnsPath+".RRSIG).Verify") && val:
		ca := a.args[0]
		key, set_ := ca.args[1], ca.args[2]
		ds := map[*Term]bool{}
		kind := ""
		if l := listOf(key); l != nil {
			kind = c.trusted(st, l, ds, map[*Term]bool{})
		}
		switch kind {
		case "chain":
			arg := ""
			inMap := T.contains(set_, func(t *Term) bool {
				return t.op == "next" && has(st, fmt.Sprintf("map:%d", t.args[0].args[0].id))
			})
			T.contains(key, func(t *Term) bool {
				if t.op == "call" && c.isChainKeys(t) && len(t.args) > 1 && !inMap {
					arg = fmt.Sprint(nameBase(t.args[1]).id)
				}
				return false
			})
			set(st, fmt.Sprintf("ver:%d:%d:chain:%s", ca.args[0].id, set_.id, arg))
		case "ds":
			ok := len(ds) > 0
			for d := range ds {
				ok = ok && c.trustedDS(st, d)
			}
			if ok {
				set(st, fmt.Sprintf("ver:%d:%d:ds:ok", ca.args[0].id, set_.id))
			}
		}
	case a.op == "call" && strings.HasSuffix(a.callName(), dnsPath+".RRSIG).ValidityPeriod") && val:
		if !c.fromReply(a.args[1]) && !a.args[1].isConst() {
			set(st, fmt.Sprintf("period:%d", a.args[0].id))
		}
	case a.op == "call" && a.callName() == dnsPath+".IsSubDomain":
		if s := fieldBase(nameBase(a.args[0]), "SignerName"); s != nil {
			if val {
				set(st, fmt.Sprintf("bw:%d:%s", s.id, c.role(a.args[1])))
			}
		} else {
			decide(st, fmt.Sprintf("sub:%s:%s:", c.role(a.args[0]), c.role(a.args[1])), val)
		}
	case a.op == "call" && a.callName() == "errors.Is" && c27Insecure(e, a.args[1]):
		t := a.args[0]
		for t.op == "mi" {
			t = t.args[0]
		}
		may := c.mayUnsigned(st, t, map[*Term]bool{})
		switch {
		case val && !may:
			st.dead = true // no such error
		case val:
			set(st, "roundunsigned")
			pos := c.name
			if in != nil {
				pos = c.p.pos(condPos(in))
			}
			c.proof(st, t, pos)
		case may:
			set(st, fmt.Sprintf("notunsigned:%d", t.id))
		}
	case a.op == "call" && len(a.args) == 2 && a.in != nil && c27ContainsTerm(a):
		l, x := a.args[0], a.args[1]
		if !isSliceOf(l.typ, isUint16) {
			l, x = x, l
		}
		if b := fieldBase(l, "TypeBitMap"); b != nil {
			w := "q"
			if n, ok := x.intv(); ok {
				w = fmt.Sprint(n)
			} else if lastField(x) != "Qtype" {
				return
			}
			decide(st, fmt.Sprintf("bm:%d:%s:", b.id, w), val)
		}
	case a.op == "call" && strings.HasSuffix(a.callName(), dnsPath+".NSEC3).Match") && val:
		set(st, fmt.Sprintf("mt:%d:%d", a.args[0].id, nameBase(a.args[1]).id))
	case a.op == "call" && strings.HasSuffix(a.callName(), dnsPath+".NSEC3).Cover") && val:
		set(st, fmt.Sprintf("cv:%d:%d", a.args[0].id, nameBase(a.args[1]).id))
	case a.op == "ext" && a.s == "0" && a.args[0].op == "next":
		c.round(e, st, in, a.args[0], val)
	case a.op == "is" && strings.HasSuffix(a.s, dnsPath+".RRSIG") && val && has(st, "rec"):
		unset(st, "rec")
	case a.op == "bin" && a.s == "<" && a.args[1].op == "len":
		for _, s := range sectionsOf(e, a.args[1]) {
			if s.sec == "Answer" && s.msg.op == "param" && lastField(a.args[1].args[0]) == "Answer" {
				pos := c.name
				if in != nil {
					pos = c.p.pos(condPos(in))
				}
				c.r.check("records", c.name, pos, !has(st, "rec"), "a record of the answer is left out of what is validated", st.path())
				unset(st, "rec")
				if val {
					set(st, "rec")
				} else {
					set(st, "grouped")
				}
			}
		}
	case a.op == "call" && a.callName() == "strings.EqualFold" || a.op == "bin" && a.s == "==":
		c.equal(e, st, a, val)
	case a.op == "bin" && a.s == "<":
		c.less(e, st, a, val)
	case a.op == "call" && strings.HasSuffix(a.callName(), "time.Time).After"):
		if !val && T.contains(a.args[1], func(t *Term) bool { return t.op == "lookup" }) {
			set(st, "unexpired")
		}
	case a.op == "call" && strings.HasSuffix(a.callName(), "time.Time).Before"):
		if val && T.contains(a.args[1], func(t *Term) bool { return t.op == "lookup" }) || !val && T.contains(a.args[0], func(t *Term) bool { return t.op == "lookup" }) {
			set(st, "unexpired")
		}
	default:
		changed = false
	}
	if changed {
		c.promote(e, st)
	}
}

// decide records an outcome; the other one for the same values cannot happen as well.
func decide(st *State, what string, val bool) {
	yes, no := what+"1", what+"0"
	if !val {
		yes, no = no, yes
	}
	if has(st, no) {
		st.dead = true
	}
	set(st, yes)
}

func c27ContainsTerm(a *Term) bool {
	ci, ok := a.in.(ssa.CallInstruction)
	return ok && c27Contains(ci.Common().Signature())
}

// trustedDS: delegation records of the anchors, or verified with the keys of the zone above.
func (c *c27) trustedDS(st *State, d *Term) bool {
	if d.isNil() {
		return false
	}
	if !c.fromReply(d) && c.fromStore(d) {
		// the anchor of the root vouches for the root alone
		root := c.e.T.contains(d, func(t *Term) bool {
			if t.op != "lookup" {
				return false
			}
			s, ok := nameBase(t.args[1]).str()
			return ok && s == "."
		})
		return !root || has(st, "rootzone")
	}
	for _, f := range flags(st, "V:") {
		var id int32
		fmt.Sscanf(f, "%d", &id)
		if strings.Contains(f, ":chain:") && c.includes(st, c.e.T.byID(id), d) {
			return true
		}
	}
	return false
}

// includes: the elements of list l are elements of list x.
func (c *c27) includes(st *State, x, l *Term) bool {
	if x == l || c.incs[[2]int32{x.id, l.id}] {
		return true
	}
	return c.e.T.contains(x, func(t *Term) bool {
		if t == l || c.incs[[2]int32{t.id, l.id}] {
			return true
		}
		return false
	})
}

// round: a loop over the record sets of a map.
func (c *c27) round(e *Engine, st *State, in *ssa.If, next *Term, val bool) {
	defer c.forget(e, st, next, val)
	m := next.args[0].args[0] // next(range(m))
	if val && c.unfilled(st, m) {
		st.dead = true // nothing was put into the map
		return
	}
	if !has(st, fmt.Sprintf("map:%d", m.id)) {
		return
	}
	pos := c.name
	if in != nil {
		pos = c.p.pos(condPos(in))
	}
	if has(st, "set") {
		okv := false
		for _, f := range flags(st, "V:") {
			var id int32
			fmt.Sscanf(f, "%d", &id)
			if strings.Contains(f, ":chain:") && c.e.T.contains(e.T.byID(id), func(t *Term) bool { return t == next }) {
				if len(flags(st, fmt.Sprintf("B:%d:o", id))) > 0 {
					okv = true
				} else {
					c.r.viol("signature", c.name+":signer", pos, "a signature is accepted although the signer need not be a zone above the records", st.path())
				}
			}
		}
		if okv {
			set(st, "verifiedset")
			c.r.ok("signature", c.name+":signer")
		}
		c.r.check("sets", c.name+":round", pos, okv || has(st, "roundunsigned"), "a record set of the answer is passed over although no signature of it was verified and it was not proven to be unsigned", st.path())
		if has(st, "roundunsigned") && !okv {
			set(st, "someunsigned")
		}
	}
	unset(st, "roundunsigned")
	unset(st, "proved")
	for _, n := range flags(st, "nods:") {
		unset(st, "nods:"+n)
	}
	unset(st, "set")
	if val {
		set(st, "set")
		set(st, "anyset")
	} else {
		set(st, "setsdone")
	}
}

// unfilled: a map made here into which nothing was put.
func (c *c27) unfilled(st *State, m *Term) bool {
	return m.op == "make" && isMapT(m.typ) && !has(st, fmt.Sprintf("filled:%d", m.id))
}

// forget drops what is known about the records of the round that has ended.
func (c *c27) forget(e *Engine, st *State, next *Term, val bool) {
	if !val {
		unset(st, fmt.Sprintf("filled:%d", next.args[0].args[0].id))
	}
	for _, pre := range append([]string{"V:", "B:"}, c27Raw...) {
		for _, f := range flags(st, pre) {
			for _, w := range c27Ids(pre, f) {
				var id int32
				if n, err := fmt.Sscanf(strings.TrimLeft(w, "ox"), "%d", &id); err == nil && n == 1 {
					if t := e.T.byID(id); t != nil && t.typ != nil && !isIntT(t.typ) && e.T.contains(t, func(t *Term) bool { return t == next }) {
						unset(st, pre+f)
						break
					}
				}
			}
		}
	}
}

// equal: names, delegation digests and codes compared.
func (c *c27) equal(e *Engine, st *State, a *Term, val bool) {
	T := e.T
	x, y := a.args[0], a.args[1]
	for i := 0; i < 2; i++ {
		if n, ok := y.intv(); ok {
			switch {
			case lastField(x) == "Rcode" && val && T.contains(x, func(t *Term) bool { return t.op == "param" && t.typ != nil && isMsgPtr(t.typ) }):
				set(st, fmt.Sprintf("rc:%d", n))
			case lastField(x) == "Qtype" && n == 43:
				decide(st, "qds:", val)
			case x.op == "bin" && x.s == "&" && (n == 0 || n == 1):
				c.optOut(st, x, val == (n == 1))
			case x.op == "len" && n == 0 && !val && c.unfilled(st, x.args[0]):
				st.dead = true
			case x.op == "len" && n == 0 && !val && has(st, fmt.Sprintf("map:%d", x.args[0].id)):
				set(st, fmt.Sprintf("nonempty:%d", x.args[0].id))
			case x.op == "call" && c27CmpTerm(x) && n == 0 && val:
				decide(st, fmt.Sprintf("lt:%s:%s:", c.role(x.args[0]), c.role(x.args[1])), false)
				decide(st, fmt.Sprintf("lt:%s:%s:", c.role(x.args[1]), c.role(x.args[0])), false)
			}
		}
		if s, ok := nameBase(y).str(); ok && s == "." && val && c.chain && c.isEntryName(x) {
			set(st, "rootzone")
		}
		// the digest of a key and that of a delegation record
		if kb, db := fieldBase(x, "Digest"), fieldBase(y, "Digest"); kb != nil && db != nil && val {
			if strings.HasSuffix(kb.callName(), dnsPath+".DNSKEY).ToDS") {
				if l := listOf(db); l != nil && T.contains(kb.args[1], func(t *Term) bool { return t == db }) {
					set(st, fmt.Sprintf("match:%d:%d", kb.args[0].id, l.id))
				}
			}
		}
		if x.typ != nil && isStringT(x.typ) {
			// owner of a record of a reply
			if b := fieldBase(nameBase(x), "Name"); b != nil && val {
				rec := b
				if b.op == "call" && strings.HasSuffix(b.callName(), ".Header") {
					rec = b.args[0]
				} else if h := fieldBase(nameBase(x), "Hdr", "Name"); h != nil {
					rec = h
				}
				rec = listElem(rec)
				if !y.isConst() && !T.contains(y, func(t *Term) bool { return t == rec }) && listOf(rec) != nil {
					set(st, fmt.Sprintf("owner:%d", rec.id))
				}
			}
			if r := c.role(x); strings.HasPrefix(r, "o") && !nameBase(y).isConst() {
				decide(st, fmt.Sprintf("own:%s:%s:", r[1:], c.role(y)), val)
			}
		}
		x, y = y, x
	}
}

// isEntryName: the zone the entry function was asked about.
func (c *c27) isEntryName(t *Term) bool {
	t = nameBase(t)
	return t.op == "param" && t.typ != nil && isStringT(t.typ)
}

// optOut: the opt-out bit of a denial record.
func (c *c27) optOut(st *State, x *Term, val bool) {
	if n, ok := x.args[1].intv(); ok && n == 1 && val {
		if b := fieldBase(x.args[0], "Flags"); b != nil {
			set(st, fmt.Sprintf("opt:%d", b.id))
		}
	}
}

func c27CmpTerm(t *Term) bool {
	ci, ok := t.in.(ssa.CallInstruction)
	return ok && ci.Common().StaticCallee() != nil && c27Cmp(ci.Common().StaticCallee())
}

// less: the order of two names.
func (c *c27) less(e *Engine, st *State, a *Term, val bool) {
	x, y := a.args[0], a.args[1]
	if n, ok := y.intv(); ok && n == 0 && x.op == "call" && c27CmpTerm(x) {
		decide(st, fmt.Sprintf("lt:%s:%s:", c.role(x.args[0]), c.role(x.args[1])), val)
	}
	if n, ok := x.intv(); ok && n == 0 && y.op == "call" && c27CmpTerm(y) {
		decide(st, fmt.Sprintf("lt:%s:%s:", c.role(y.args[1]), c.role(y.args[0])), val)
	}
	if n, ok := x.intv(); ok && n == 0 && y.op == "len" && val && c.unfilled(st, y.args[0]) {
		st.dead = true
	}
	if n, ok := x.intv(); ok && n == 0 && y.op == "len" && val && has(st, fmt.Sprintf("map:%d", y.args[0].id)) {
		set(st, fmt.Sprintf("nonempty:%d", y.args[0].id))
	}
}

// promote draws conclusions that outlive the round of the loop they were reached in.
func (c *c27) promote(e *Engine, st *State) {
	ids := func(f string) []string { return strings.Split(f, ":") }
	term := func(s string) *Term {
		var id int32
		fmt.Sscan(s, &id)
		return e.T.byID(id)
	}
	for _, f := range flags(st, "ver:") {
		w := ids(f) // sig, set, kind, info
		if !has(st, "period:"+w[0]) {
			continue
		}
		set(st, fmt.Sprintf("V:%s:%s:%s", w[1], w[2], w[3]))
		if c.chain {
			unset(st, "ver:"+f)
			unset(st, "period:"+w[0])
		}
		for _, b := range flags(st, "bw:"+w[0]+":") {
			s := term(w[1])
			if strings.HasPrefix(b, "o") && listOf(term(b[1:])) == s {
				set(st, "B:"+w[1]+":o")
			}
			if t := term(b); !strings.HasPrefix(b, "o") && t != nil && c.isQuestion(t) {
				set(st, "B:"+w[1]+":q")
			}
		}
	}
	bm := func(r, w string) string {
		if has(st, "bm:"+r+":"+w+":1") {
			return "1"
		}
		if has(st, "bm:"+r+":"+w+":0") {
			return "0"
		}
		return ""
	}
	cut := func(r string) bool { return !(bm(r, "2") == "0" || bm(r, "6") == "1") } // may be the upper side of a zone cut
	// what a record matching a name says
	match := func(r, n string) {
		t := term(r)
		okq, okn := c.verified(st, t, true), c.verified(st, t, false)
		if okq && !cut(r) {
			set(st, "exists:"+n)
		}
		if okq && bm(r, "q") == "0" && bm(r, "5") == "0" && (!cut(r) || has(st, "qds:1") || c.wild(term(n))) { // a wildcard is no zone cut
			set(st, "nodata:"+n)
		}
		if okn && bm(r, "2") == "1" && bm(r, "43") == "0" && bm(r, "6") == "0" && c.parentKeys(st, t, n) {
			set(st, "nods:"+n)
		}
	}
	for _, f := range flags(st, "mt:") {
		w := ids(f)
		match(w[0], w[1])
	}
	for _, f := range flags(st, "own:") {
		w := ids(f) // record, name, val
		if w[2] == "1" {
			match(w[0], w[1])
		}
	}
	for _, f := range flags(st, "cv:") {
		w := ids(f)
		t := term(w[0])
		opt := has(st, "opt:"+w[0])
		if c.verified(st, t, true) {
			set(st, "cov3:"+w[1])
			if opt {
				set(st, "covopt:"+w[1])
			}
		}
		if opt && c.verified(st, t, false) && c.parentKeys(st, t, w[1]) {
			set(st, "nods:"+w[1])
		}
	}
	// owner < name < next
	lt := func(a, b string) string {
		if has(st, "lt:"+a+":"+b+":1") {
			return "1"
		}
		if has(st, "lt:"+a+":"+b+":0") {
			return "0"
		}
		return ""
	}
	for _, f := range flags(st, "lt:") {
		w := ids(f)
		rec, n := "", ""
		switch {
		case strings.HasPrefix(w[0], "o") && !strings.HasPrefix(w[1], "x"):
			rec, n = w[0][1:], w[1]
		case strings.HasPrefix(w[1], "x") && !strings.HasPrefix(w[0], "o"):
			rec, n = w[1][1:], w[0]
		default:
			continue
		}
		o, x := "o"+rec, "x"+rec
		in := lt(o, x) == "1" && lt(o, n) == "1" && lt(n, x) == "1" ||
			lt(o, x) == "0" && (lt(o, n) == "1" || lt(n, x) == "1" && has(st, "own:"+rec+":"+n+":0"))
		below := cut(rec) && !has(st, "sub:"+o+":"+n+":0")
		if in && !below && c.verified(st, term(rec), true) {
			set(st, "cov1:"+n)
		}
	}
}

// isQuestion: the name asked about.
func (c *c27) isQuestion(t *Term) bool {
	return lastField(t) == "Name" && c.e.T.contains(t, func(x *Term) bool { return x.isField("Question") })
}

// parentKeys: the record was verified with the keys of a zone other than the one it denies.
func (c *c27) parentKeys(st *State, rec *Term, name string) bool {
	l := listOf(rec)
	for _, f := range flags(st, fmt.Sprintf("V:%d:chain:", l.id)) {
		if f != "" && f == name {
			return false
		}
	}
	return true
}

// ret judges an outcome of the entry function.
func (c *c27) ret(e *Engine, st *State, in *ssa.Return, res []*Term) {
	pos := c.p.iPos(in)
	err := res[len(res)-1]
	isnil, known := e.isNil(st, err)
	if c.chain && (!known || isnil) {
		c.keys(e, st, in, res)
	}
	if !c.chain && !c27Walk(c.fn) && (!known || isnil) {
		c.accept(e, st, pos)
	}
	if known && isnil || !c.mayUnsigned(st, err, map[*Term]bool{}) {
		return
	}
	if !c.chain && has(st, "anyset") && !has(st, "setsdone") {
		c.r.viol("sets", c.name+":unsigned", pos, "the answer is judged to be of an unsigned zone while some of its record sets have not been looked at", st.path())
	} else if !c.chain && has(st, "anyset") {
		c.r.ok("sets", c.name+":unsigned")
	}
	c.proof(st, err, pos)
}

// proof: an error that stands for an unsigned zone rests on a verified record of the zone above,
// or on the same error for that zone.
func (c *c27) proof(st *State, err *Term, pos string) {
	if c.ownProof(st, err, map[*Term]bool{}) {
		proof := has(st, "proved") || has(st, "someunsigned")
		for _, n := range flags(st, "nods:") {
			var id int32
			fmt.Sscan(n, &id)
			if t := c.e.T.byID(id); !c.chain && !c27Walk(c.fn) || c.isEntryName(t) || c27Walk(c.fn) && c.e.T.contains(t, c.isEntryName) {
				proof = true
			}
		}
		c.r.check("unsigned", c.name, pos, proof, "a zone is taken to be unsigned without a verified record of the zone above that says so", st.path())
	}
	for _, n := range flags(st, "nods:") {
		unset(st, "nods:"+n)
	}
	set(st, "proved")
}

// keys: keys handed out without an error.
func (c *c27) keys(e *Engine, st *State, in *ssa.Return, res []*Term) {
	pos := c.p.iPos(in)
	for _, k := range res {
		if k.typ == nil || !isKeyList(k.typ) {
			continue
		}
		if isnil, known := e.isNil(st, k); known && isnil {
			continue
		}
		if !c.fromReply(k) {
			switch {
			case c.isChainKeys(k):
				c.r.viol("keys", c.name+":other", pos, "keys of another zone are handed out", st.path())
			case c.fromStore(k):
				own := e.T.contains(k, func(t *Term) bool { return t.op == "lookup" && e.T.contains(t.args[1], c.isEntryName) })
				c.r.check("keys", c.name+":remembered", pos, own, "remembered keys of another zone are handed out", st.path())
				c.r.check("expiry", c.name, pos, has(st, "unexpired"), "remembered keys are used although their lifetime may have ended", st.path())
			}
			continue
		}
		ok := false
		for _, f := range flags(st, "V:") {
			var id int32
			fmt.Sscanf(f, "%d", &id)
			ok = ok || strings.Contains(f, ":ds:ok") && c.includes(st, e.T.byID(id), k)
		}
		c.r.check("keys", c.name+":fetched", pos, ok, "keys are handed out that were not signed, within the period of the signature, by a key that matches a verified delegation record of the zone", st.path())
	}
}

// accept: the answer is taken to be authentic.
func (c *c27) accept(e *Engine, st *State, pos string) {
	if has(st, "anyset") || has(st, "setsdone") {
		if !has(st, "anyset") {
			for _, m := range flags(st, "map:") {
				if has(st, "nonempty:"+m) {
					return // no such path: there are sets
				}
			}
		}
		ok := has(st, "grouped") && has(st, "setsdone") && has(st, "verifiedset")
		c.r.check("sets", c.name+":accepted", pos, ok, "an answer is accepted before every record set of it was verified", st.path())
		if has(st, "someunsigned") {
			c.r.viol("sets", c.name+":mixed", pos, "an answer with records of an unsigned zone is accepted as authentic", st.path())
		}
		return
	}
	T := e.T
	get := func(pre string, f func(t *Term) bool) *Term {
		for _, n := range flags(st, pre) {
			var id int32
			fmt.Sscan(n, &id)
			if t := T.byID(id); f(t) {
				return t
			}
		}
		return nil
	}
	wild := c.wild
	// the wildcard at the longest part the name shares with the record that covers it
	encl := func(t *Term) bool {
		if !wild(t) {
			return false
		}
		cut := nameBase(t.args[1])
		return cut.op != "call" || !slices.ContainsFunc(cut.args, func(x *Term) bool {
			return x.op == "min" || x.op == "bin" && (x.s == "+" || x.s == "-") && x.args[1].isConst() && x.typ != nil && isIntT(x.typ)
		})
	}
	part := func(t *Term) bool { return !wild(t) && T.contains(t, c.isQuestion) }
	proof := ""
	switch {
	case has(st, "rc:0"):
		switch {
		case get("nodata:", c.isQuestion) != nil:
			proof = "no data"
		case get("nodata:", encl) != nil && get("cov1:", c.isQuestion) != nil:
			proof = "no data of wildcard"
		case get("nodata:", wild) != nil && get("cov3:", part) != nil && get("exists:", part) != nil:
			proof = "no data of hashed wildcard"
		case has(st, "qds:1") && get("covopt:", c.isQuestion) != nil:
			proof = "no delegation record, opt-out"
		}
	case has(st, "rc:3"):
		switch {
		case get("cov1:", c.isQuestion) != nil && get("cov1:", encl) != nil:
			proof = "no name"
		case c.closest(st):
			proof = "no hashed name"
		}
	}
	c.r.check("denial", c.name+":"+proof, pos, proof != "", "absence is accepted without verified denial records that deny what was asked", st.path())
}

// wild: the wildcard at a name above the one asked about.
func (c *c27) wild(t *Term) bool {
	if t.op != "bin" || t.s != "+" {
		return false
	}
	s, ok := t.args[0].str()
	return ok && s == "*." && c.e.T.contains(t.args[1], c.isQuestion)
}

// closest: an existing ancestor, the name below it covered, and its wildcard covered or the span opted out.
func (c *c27) closest(st *State) bool {
	T := c.e.T
	term := func(s string) *Term {
		var id int32
		fmt.Sscan(s, &id)
		return T.byID(id)
	}
	for _, ce := range flags(st, "exists:") {
		for _, nc := range flags(st, "cov3:") {
			if c.wild(term(nc)) || !c27OneMore(term(nc), term(ce)) || !T.contains(term(nc), c.isQuestion) {
				continue
			}
			if has(st, "covopt:"+nc) {
				return true
			}
			for _, w := range flags(st, "cov3:") {
				if t := term(w); t.op == "bin" && t.s == "+" && nameBase(t.args[1]) == term(ce) {
					return true
				}
			}
		}
	}
	return false
}

// c27OneMore: n has one label more than ce, where that can be told.
func c27OneMore(n, ce *Term) bool {
	if n == ce {
		return false
	}
	if n.op != "call" || ce.op != "call" || n.callName() != ce.callName() || len(n.args) != 2 || len(ce.args) != 2 || n.args[0] != ce.args[0] {
		return true
	}
	a, b := n.args[1], ce.args[1]
	if a.typ == nil || !isIntT(a.typ) {
		return true
	}
	x, okx := a.intv()
	y, oky := b.intv()
	if okx && oky {
		return x == y+1
	}
	lin := func(t *Term) (*Term, int64) {
		d := int64(0)
		for t.op == "bin" && (t.s == "+" || t.s == "-") {
			k, ok := t.args[1].intv()
			if !ok {
				break
			}
			if t.s == "-" {
				k = -k
			}
			t, d = t.args[0], d+k
		}
		return t, d
	}
	ta, da := lin(a)
	tb, db := lin(b)
	return ta == tb && da == db+1
}

// c27Enclosers checks how the longest existing ancestor is told from a record that covers a name:
// the name is compared with both ends of the span and the longer common part counts.
func c27Enclosers(p *Prog, r *Report) {
	for _, fn := range p.funcs {
		if !c27In(fn) {
			continue
		}
		ends := map[string]bool{}
		bad := ""
		pos := ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || calleeName(c.Common()) != dnsPath+".CompareDomainName" {
					continue
				}
				var with []string
				for _, a := range c.Call.Args {
					with = append(with, c27End(p, a))
				}
				if with[0] == "" && with[1] == "" {
					continue
				}
				pos = p.iPos(c)
				if with[0] != "" && with[1] != "" {
					bad = "the ends of the span of a denial record are compared with each other instead of with the name asked about"
				}
				ends[with[0]+with[1]] = true
				if shortens(c, map[ssa.Value]bool{}) {
					bad = "the closest existing ancestor is not the longest part the name shares with the denial record that covers it"
				}
			}
		}
		if len(ends) == 0 {
			continue
		}
		if bad == "" && !(ends["owner"] && ends["next"]) {
			bad = "the closest existing ancestor is told from one end of the span of a denial record only"
		}
		r.check("encloser", p.fnName(fn), pos, bad == "", bad, nil)
	}
}

// c27End: the end of the span of a denial record a name comes from.
func c27End(p *Prog, v ssa.Value) string {
	out := ""
	p.slice(v, func(x ssa.Value) bool {
		if fa, ok := x.(*ssa.FieldAddr); ok {
			switch n := fieldName(fa.X.Type(), fa.Field); {
			case n == "NextDomain":
				out = "next"
			case n == "Hdr" && isNamedT(deref(fa.X.Type()), dnsPath, "NSEC"):
				out = "owner"
			}
		}
		return out == ""
	})
	return out
}

// shortens: the count is reduced, or the smaller of two is taken, before it is used.
func shortens(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.BinOp:
			if _, ok := x.Y.(*ssa.Const); ok && x.X == v && (x.Op == token.SUB || x.Op == token.ADD) {
				return true
			}
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
				if bi.Name() == "min" || bi.Name() == "max" && shortens(x, seen) {
					return true
				}
			}
		case *ssa.Phi:
			if shortens(x, seen) {
				return true
			}
		}
	}
	return false
}
