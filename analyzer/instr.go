package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxTermDepth = 16

func (e *Engine) ev(st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if isStruct(x.Type()) {
				return e.zero(x.Type())
			}
			switch x.Type().Underlying().(type) {
			case *types.Basic, *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
				return e.T.nilT()
			}
			return e.zero(x.Type())
		}
		return e.T.constT(x.Value, x.Type())
	case *ssa.Global:
		return e.T.mk("global", x.String(), x.Type(), false)
	case *ssa.Function:
		t := e.T.mk("fn", x.String(), x.Type(), false)
		t.fn = x
		return t
	case *ssa.Builtin:
		return e.T.mk("builtin", x.Name(), x.Type(), false)
	}
	if t, ok := st.env[v]; ok {
		return t
	}
	t := e.T.mk("unk", fmt.Sprintf("%s@%s", v.Name(), v.Parent()), v.Type(), true)
	st.env[v] = t
	return t
}

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func (e *Engine) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.T.boolT(false)
		case u.Info()&types.IsString != 0:
			return e.T.constT(constant.MakeString(""), t)
		case u.Info()&types.IsInteger != 0:
			return e.T.constT(constant.MakeInt64(0), t)
		case u.Info()&types.IsNumeric != 0:
			return e.T.constT(constant.MakeInt64(0), t)
		}
		return e.T.nilT()
	case *types.Struct:
		if u.NumFields() <= 60 {
			var args []*Term
			for i := 0; i < u.NumFields(); i++ {
				args = append(args, e.zero(u.Field(i).Type()))
			}
			return e.T.mk("mkstruct", t.String(), t, false, args...)
		}
		return e.T.mk("zero", t.String(), t, false)
	case *types.Array:
		return e.T.mk("zero", t.String(), t, false)
	}
	return e.T.nilT()
}

func (e *Engine) fresh(st *State, op, s string, in ssa.Instruction, ctx int, typ types.Type, args ...*Term) *Term {
	for i, a := range args {
		if a.depth > e.depth {
			args[i] = e.T.mk("deep", fmt.Sprintf("%d", e.iid(in)), a.typ, true)
		}
	}
	t := e.T.mk(op, fmt.Sprintf("%s#%d@%d", s, e.iid(in), ctx), typ, true, args...)
	t.in = in
	e.kill(st, t)
	return t
}

func (e *Engine) set(st *State, v ssa.Value, t *Term) {
	if t.depth > e.depth+4 || t.depth > e.depth && !isBool(v.Type()) {
		t = e.T.mk("deep", fmt.Sprintf("%s@%s", v.Name(), v.Parent()), v.Type(), true)
		e.kill(st, t)
	}
	st.env[v] = t
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i).Name()
}

func (e *Engine) fa(base *Term, name string, typ types.Type) *Term {
	return e.T.mk("fa", name, typ, false, base)
}

func (e *Engine) vf(st *State, v *Term, name string, typ types.Type) *Term {
	if v.op == "mkstruct" {
		if s, ok := v.typ.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields() && i < len(v.args); i++ {
				if s.Field(i).Name() == name {
					return v.args[i]
				}
			}
		}
	}
	if v.op == "ld" {
		return e.load(st, e.fa(v.args[0], name, types.NewPointer(typ)), typ)
	}
	return e.field(e.T.mk("vf", name, typ, false, v))
}

func (e *Engine) field(t *Term) *Term {
	if e.r != nil && e.r.Field != nil {
		if x := e.r.Field(t); x != nil {
			return x
		}
	}
	return t
}

func rootOf(a *Term) *Term {
	for a.op == "fa" || a.op == "ia" {
		a = a.args[0]
	}
	return a
}

func (e *Engine) verOf(st *State, a *Term) string {
	var parts []string
	for x := a; ; x = x.args[0] {
		if v, ok := st.ver[fmt.Sprintf("a%d", x.id)]; ok {
			parts = append(parts, v)
		}
		if v, ok := st.ver[fmt.Sprintf("t%d", x.id)]; ok {
			parts = append(parts, v)
		}
		if x.op == "fa" && x == a {
			if v, ok := st.ver["f"+x.s]; ok {
				parts = append(parts, v)
			}
		}
		if x.op != "fa" && x.op != "ia" {
			break
		}
	}
	return strings.Join(parts, ";")
}

// touched reports whether memory below a may differ from its zero value for an allocation.
func (e *Engine) load(st *State, a *Term, typ types.Type) *Term {
	if v, ok := st.mem[a]; ok {
		return v
	}
	if isStruct(typ) {
		s := typ.Underlying().(*types.Struct)
		under := rootOf(a).op == "alloc"
		if !under {
			for k := range st.mem {
				if isUnder(k, a) {
					under = true
					break
				}
			}
		}
		if under && s.NumFields() <= 60 && s.NumFields() > 0 {
			var args []*Term
			for i := 0; i < s.NumFields(); i++ {
				ft := s.Field(i).Type()
				args = append(args, e.load(st, e.fa(a, s.Field(i).Name(), types.NewPointer(ft)), ft))
			}
			if whole := sameStruct(s, args); whole != nil {
				return whole
			}
			t := e.T.mk("mkstruct", typ.String(), typ, false, args...)
			if t.depth <= e.depth {
				return t
			}
		}
	}
	if a.op == "fa" {
		if v := e.whole(st, a.args[0]); v != nil {
			return e.vf(st, v, a.s, typ) // part of a value stored as a whole
		}
	}
	ver := e.verOf(st, a)
	if rootOf(a).op == "alloc" && !e.hasVer(st, a) && !isArrayElem(a) {
		if _, isArr := typ.Underlying().(*types.Array); !isArr {
			return e.zero(typ)
		}
	}
	return e.field(e.T.mk("ld", ver, typ, false, a))
}

// whole: the struct value stored at a, itself or as part of a larger one.
func (e *Engine) whole(st *State, a *Term) *Term {
	v, ok := st.mem[a]
	if !ok && a.op == "fa" && a.typ != nil {
		if up := e.whole(st, a.args[0]); up != nil {
			v = e.vf(st, up, a.s, deref(a.typ))
		}
	}
	if v == nil || v.typ == nil || !isStruct(v.typ) || v.op == "mkstruct" {
		return nil
	}
	return v
}

// sameStruct: the fields are exactly those of one value.
func sameStruct(s *types.Struct, args []*Term) *Term {
	var whole *Term
	for i, a := range args {
		if a.op != "vf" || a.s != s.Field(i).Name() || a.args[0].typ == nil || whole != nil && whole != a.args[0] {
			return nil
		}
		whole = a.args[0]
	}
	if whole == nil || !isStruct(whole.typ) || whole.typ.Underlying().(*types.Struct) != s {
		return nil
	}
	return whole
}

func isArrayElem(a *Term) bool {
	for a.op == "fa" || a.op == "ia" {
		if a.op == "ia" {
			return true
		}
		a = a.args[0]
	}
	return false
}

func (e *Engine) hasVer(st *State, a *Term) bool {
	for x := a; ; x = x.args[0] {
		if _, ok := st.ver[fmt.Sprintf("a%d", x.id)]; ok {
			return true
		}
		if _, ok := st.ver[fmt.Sprintf("t%d", x.id)]; ok {
			return true
		}
		if x.op != "fa" && x.op != "ia" {
			return false
		}
	}
}

func isUnder(k, a *Term) bool {
	for k.op == "fa" || k.op == "ia" {
		k = k.args[0]
		if k == a {
			return true
		}
	}
	return false
}

func (e *Engine) store(st *State, a, v *Term, site string) {
	for k := range st.mem {
		if isUnder(k, a) {
			delete(st.mem, k)
		}
	}
	ra := rootOf(a)
	// other addresses that may alias a
	for k := range st.mem {
		if k == a {
			continue
		}
		rk := rootOf(k)
		if ra.op == "alloc" && rk.op == "alloc" && ra != rk {
			continue
		}
		switch {
		case a.op == "fa" && k.op == "fa" && k.s == a.s && k.args[0] != a.args[0]:
			if (ra.op == "alloc") != (rk.op == "alloc") {
				continue // a local object and somebody else's
			}
			delete(st.mem, k)
			st.ver[fmt.Sprintf("a%d", k.id)] = site
		case a.op == "ia" && k.op == "ia" && k.args[0] == a.args[0] && k.args[1] != a.args[1]:
			if k.args[1].isConst() && a.args[1].isConst() {
				continue
			}
			delete(st.mem, k)
			st.ver[fmt.Sprintf("a%d", k.id)] = site
		}
	}
	if a.op == "fa" && ra.op != "alloc" {
		st.ver["f"+a.s] = site
	}
	if a.op == "ia" {
		st.ver[fmt.Sprintf("t%d", a.args[0].id)] = site
	}
	if v.op == "mkstruct" {
		if s, ok := v.typ.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields() && i < len(v.args); i++ {
				e.store1(st, e.fa(a, s.Field(i).Name(), types.NewPointer(s.Field(i).Type())), v.args[i])
			}
			delete(st.mem, a)
			return
		}
	}
	if v.typ != nil && isStruct(v.typ) {
		s := v.typ.Underlying().(*types.Struct)
		if s.NumFields() <= 60 && s.NumFields() > 0 {
			for i := 0; i < s.NumFields(); i++ {
				e.store1(st, e.fa(a, s.Field(i).Name(), types.NewPointer(s.Field(i).Type())), e.vf(st, v, s.Field(i).Name(), s.Field(i).Type()))
			}
			delete(st.mem, a)
			return
		}
	}
	st.mem[a] = v
}

func (e *Engine) store1(st *State, a, v *Term) {
	if v.op == "mkstruct" {
		if s, ok := v.typ.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields() && i < len(v.args); i++ {
				e.store1(st, e.fa(a, s.Field(i).Name(), types.NewPointer(s.Field(i).Type())), v.args[i])
			}
			return
		}
	}
	if v.typ != nil && isStruct(v.typ) && v.depth <= e.depth {
		if s := v.typ.Underlying().(*types.Struct); s.NumFields() <= 20 && s.NumFields() > 0 {
			for i := 0; i < s.NumFields(); i++ {
				e.store1(st, e.fa(a, s.Field(i).Name(), types.NewPointer(s.Field(i).Type())), e.vf(st, v, s.Field(i).Name(), s.Field(i).Type()))
			}
			return
		}
	}
	st.mem[a] = v
}

// havoc forgets memory reachable from t.
func (e *Engine) havoc(st *State, t *Term, site string) {
	if t == nil || t.isConst() || t.isNil() {
		return
	}
	switch t.op {
	case "mi":
		e.havoc(st, t.args[0], site)
		return
	case "closure":
		for i, a := range t.args {
			if t.fn != nil && i < len(t.fn.FreeVars) && readOnly(t.fn.FreeVars[i], 0) {
				continue
			}
			e.havoc(st, a, site)
		}
		return
	case "mkstruct":
		for _, a := range t.args {
			if a.op == "alloc" || a.op == "mi" {
				e.havoc(st, a, site)
			}
		}
		return
	}
	if t.typ != nil {
		switch u := t.typ.Underlying().(type) {
		case *types.Basic:
			return
		case *types.Interface:
			return
		case *types.Slice:
			if _, ok := u.Elem().Underlying().(*types.Basic); ok {
				return
			}
		}
	}
	for k := range st.mem {
		if isUnder(k, t) || k == t {
			delete(st.mem, k)
		}
	}
	st.ver[fmt.Sprintf("t%d", t.id)] = site
}

// readOnly: the memory at address v is only read through v.
func readOnly(v ssa.Value, depth int) bool {
	if depth > 4 || v.Referrers() == nil {
		return false
	}
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.UnOp:
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !readOnly(x, depth+1) {
				return false
			}
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == v && !readOnly(x.Fn.(*ssa.Function).FreeVars[i], depth+1) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// packages whose functions do not write through their arguments
var purePkgs = map[string]bool{"log/slog": true, "fmt": true, "strings": true, "strconv": true, "errors": true, "expvar": true, "time": true,
	"unicode": true, "math": true, "math/bits": true, "path": true, "path/filepath": true, "net/netip": true, "github.com/pkg/errors": true, "slices": true, "maps": true, "cmp": true, "regexp": true, "net/url": true, "bytes": true, "encoding/hex": true, "encoding/base64": true}

// functions that do not write through their arguments although their package may
var pureFuncs = map[string]bool{
	"(" + dnsPath + ".Msg).Copy": true, "(" + dnsPath + ".Msg).IsEdns0": true, "(" + dnsPath + ".Msg).Len": true, "(" + dnsPath + ".Msg).Pack": true, "(" + dnsPath + ".Msg).String": true, "(" + dnsPath + ".Msg).PackBuffer": true,
	dnsPath + ".Fqdn": true, dnsPath + ".IsSubDomain": true, dnsPath + ".CanonicalName": true, dnsPath + ".Copy": true, dnsPath + ".CompareDomainName": true, dnsPath + ".SplitDomainName": true, dnsPath + ".CountLabel": true,
	dnsPath + ".HashName": true, dnsPath + ".IsDuplicate": true,
	"net.ParseIP": true, "(net.IP).To4": true, "(net.IP).To16": true, "(net.IP).Equal": true, "(net.IP).String": true, "(net.IPNet).Contains": true, "(net.IP).Mask": true, "net.SplitHostPort": true, "net.JoinHostPort": true, "net.CIDRMask": true, "net.ParseCIDR": true,
	"(net/http.Header).Get": true, "(net/http.Header).Values": true, "(net/url.URL).Query": true, "(net/url.Values).Get": true,
	"(sync.Mutex).Lock": true, "(sync.Mutex).Unlock": true, "(sync.RWMutex).Lock": true, "(sync.RWMutex).Unlock": true, "(sync.RWMutex).RLock": true, "(sync.RWMutex).RUnlock": true,
	"(" + dnsPath + ".RR).Header": true, "(" + dnsPath + ".RR).String": true, "(" + dnsPath + ".OPT).UDPSize": true, "(" + dnsPath + ".OPT).Do": true,
	"(" + dnsPath + ".EDNS0).Option": true,
	"(" + dnsPath + ".RRSIG).Verify": true, "(" + dnsPath + ".RRSIG).ValidityPeriod": true, "(" + dnsPath + ".NSEC3).Cover": true, "(" + dnsPath + ".NSEC3).Match": true, "(" + dnsPath + ".DNSKEY).KeyTag": true, "(" + dnsPath + ".DNSKEY).ToDS": true,
}

// functional: the result depends only on the arguments, so equal arguments give equal value numbers.
func functional(name string, c *ssa.CallCommon) bool {
	switch name {
	case "strings.ToLower", "strings.HasPrefix", "strings.HasSuffix", "strings.TrimSuffix", "strings.TrimPrefix", "strings.EqualFold", "strings.Contains",
		"strings.ToUpper", "strings.TrimSpace", "strings.Trim",
		dnsPath + ".Fqdn", dnsPath + ".CanonicalName", dnsPath + ".IsSubDomain", dnsPath + ".IsFqdn",
		"net.ParseIP", "(net.IP).To4", "(net.IP).To16", "(net.IP).Equal", "(net.IPNet).Contains", "(net.IP).Mask", "net.CIDRMask",
		"(" + dnsPath + ".Msg).IsEdns0", "(" + dnsPath + ".RR).Header", "(" + dnsPath + ".EDNS0).Option", "(" + dnsPath + ".OPT).Do", "(" + dnsPath + ".OPT).UDPSize",
		"(net/http.Header).Get", "(net/url.URL).Query", "(net/url.Values).Get", "(net/url.URL).Hostname", "(net/url.URL).Port",
		"(time.Time).IsZero", "(time.Duration).Seconds":
		return true
	}
	return false
}

func pkgOf(name string) string {
	s := strings.TrimPrefix(name, "(")
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		if j := strings.IndexByte(s[i:], '.'); j >= 0 {
			return s[:i+j]
		}
		return s
	}
	if j := strings.IndexByte(s, '.'); j >= 0 {
		return s[:j]
	}
	return s
}

func (e *Engine) havocArgs(st *State, args []*Term, in ssa.Instruction, name string) {
	if pureFuncs[name] || purePkgs[pkgOf(name)] {
		return
	}
	site := fmt.Sprintf("h%d", e.iid(in))
	for _, a := range args {
		e.havoc(st, a, site)
	}
}

// instr executes a non-control, non-call instruction.
func (e *Engine) instr(st *State, in ssa.Instruction, ctx int) {
	T := e.T
	switch x := in.(type) {
	case *ssa.Alloc:
		t := e.fresh(st, "alloc", x.Comment, in, ctx, x.Type())
		e.set(st, x, t)
	case *ssa.Store:
		e.store(st, e.ev(st, x.Addr), e.ev(st, x.Val), fmt.Sprintf("s%d", e.iid(in)))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			e.set(st, x, e.load(st, e.ev(st, x.X), x.Type()))
		case token.NOT:
			e.set(st, x, T.not(e.ev(st, x.X)))
		case token.ARROW:
			ch := e.ev(st, x.X)
			t := e.fresh(st, "recv", "", in, ctx, x.Type(), ch)
			if x.CommaOk {
				t = T.mk("tuple", "2", x.Type(), false, T.mk("ext", "0", x.Type().(*types.Tuple).At(0).Type(), false, t), T.mk("ext", "1", types.Typ[types.Bool], false, t))
			}
			e.set(st, x, t)
		default:
			e.set(st, x, T.mk("un", x.Op.String(), x.Type(), false, e.ev(st, x.X)))
		}
	case *ssa.BinOp:
		e.set(st, x, T.bin(x.Op, e.ev(st, x.X), e.ev(st, x.Y), x.Type()))
	case *ssa.ChangeType:
		e.set(st, x, e.ev(st, x.X))
	case *ssa.ChangeInterface:
		e.set(st, x, e.ev(st, x.X))
	case *ssa.MakeInterface:
		v := e.ev(st, x.X)
		e.set(st, x, T.mk("mi", "", x.Type(), false, v))
	case *ssa.Convert:
		v := e.ev(st, x.X)
		if sameKind(x.X.Type(), x.Type()) {
			e.set(st, x, v)
		} else if v.isConst() && v.cv.Kind() == constant.Int && isInteger(x.Type()) {
			e.set(st, x, T.constT(v.cv, x.Type()))
		} else if isInteger(x.X.Type()) && isInteger(x.Type()) && widening(x.X.Type(), x.Type()) {
			e.set(st, x, T.mk("conv", "int", x.Type(), false, v))
		} else {
			e.set(st, x, T.mk("conv", x.Type().String(), x.Type(), false, v))
		}
	case *ssa.MultiConvert:
		e.set(st, x, T.mk("conv", x.Type().String(), x.Type(), false, e.ev(st, x.X)))
	case *ssa.SliceToArrayPointer:
		e.set(st, x, T.mk("conv", x.Type().String(), x.Type(), false, e.ev(st, x.X)))
	case *ssa.FieldAddr:
		e.set(st, x, e.fa(e.ev(st, x.X), fieldName(x.X.Type(), x.Field), x.Type()))
	case *ssa.Field:
		e.set(st, x, e.vf(st, e.ev(st, x.X), fieldName(x.X.Type(), x.Field), x.Type()))
	case *ssa.IndexAddr:
		b := e.ev(st, x.X)
		if b.op == "slice" && b.args[1].isNil() && b.args[0].op == "alloc" {
			b = b.args[0] // an element of a list literal
		}
		e.set(st, x, T.mk("ia", "", x.Type(), false, b, e.ev(st, x.Index)))
	case *ssa.Index:
		b, i := e.ev(st, x.X), e.ev(st, x.Index)
		if b.op == "ld" && b.args[0].op == "alloc" {
			if v, ok := st.mem[T.mk("ia", "", types.NewPointer(x.Type()), false, b.args[0], i)]; ok {
				e.set(st, x, v)
				break
			}
		}
		e.set(st, x, T.mk("vi", "", x.Type(), false, b, i))
	case *ssa.Lookup:
		m, k := e.ev(st, x.X), e.ev(st, x.Index)
		t := e.fresh(st, "lookup", "", in, ctx, x.Type(), m, k)
		if x.CommaOk {
			t = T.mk("tuple", "2", x.Type(), false, T.mk("ext", "0", x.Type().(*types.Tuple).At(0).Type(), false, t), T.mk("ext", "1", types.Typ[types.Bool], false, t))
		}
		e.set(st, x, t)
	case *ssa.Extract:
		tup := e.ev(st, x.Tuple)
		if tup.op == "tuple" && x.Index < len(tup.args) {
			e.set(st, x, tup.args[x.Index])
		} else {
			e.set(st, x, T.mk("ext", fmt.Sprint(x.Index), x.Type(), false, tup))
		}
	case *ssa.TypeAssert:
		v := e.ev(st, x.X)
		s := x.AssertedType.String()
		if types.IsInterface(x.AssertedType) {
			s = "iface:" + s
		}
		var val *Term
		if v.op == "mi" && v.args[0].typ != nil && types.Identical(v.args[0].typ, x.AssertedType) {
			val = v.args[0]
		} else {
			val = T.mk("ta", s, x.AssertedType, false, v)
		}
		if x.CommaOk {
			ok := T.mk("is", s, types.Typ[types.Bool], false, v)
			if val.op != "ta" {
				ok = T.boolT(true)
			}
			e.set(st, x, T.mk("tuple", "2", x.Type(), false, val, ok))
		} else {
			e.set(st, x, val)
		}
	case *ssa.Slice:
		args := []*Term{e.ev(st, x.X)}
		for _, o := range []ssa.Value{x.Low, x.High, x.Max} {
			if o == nil {
				args = append(args, T.nilT())
			} else {
				args = append(args, e.ev(st, o))
			}
		}
		e.set(st, x, T.mk("slice", "", x.Type(), false, args...))
	case *ssa.MakeSlice:
		t := e.fresh(st, "make", "slice", in, ctx, x.Type(), e.ev(st, x.Len))
		e.set(st, x, t)
	case *ssa.MakeMap:
		e.set(st, x, e.fresh(st, "make", "map", in, ctx, x.Type()))
	case *ssa.MakeChan:
		e.set(st, x, e.fresh(st, "make", "chan", in, ctx, x.Type(), e.ev(st, x.Size)))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.ev(st, b))
		}
		t := e.fresh(st, "closure", "", in, ctx, x.Type(), bs...)
		t.fn = x.Fn.(*ssa.Function)
		e.set(st, x, t)
	case *ssa.Range:
		e.set(st, x, T.mk("range", fmt.Sprint(e.iid(in)), x.Type(), false, e.ev(st, x.X)))
	case *ssa.Next:
		t := e.fresh(st, "next", "", in, ctx, x.Type(), e.ev(st, x.Iter))
		tt := x.Type().(*types.Tuple)
		e.set(st, x, T.mk("tuple", "3", x.Type(), false, T.mk("ext", "0", types.Typ[types.Bool], false, t), T.mk("ext", "1", tt.At(1).Type(), false, t), T.mk("ext", "2", tt.At(2).Type(), false, t)))
	case *ssa.Select:
		for _, s := range x.States {
			if s.Send != nil {
				e.escape(st, e.ev(st, s.Send), in)
			}
		}
		t := e.fresh(st, "select", "", in, ctx, x.Type())
		tt := x.Type().(*types.Tuple)
		var rs []*Term
		for i := 0; i < tt.Len(); i++ {
			rs = append(rs, T.mk("ext", fmt.Sprint(i), tt.At(i).Type(), false, t))
		}
		e.set(st, x, T.mk("tuple", fmt.Sprint(tt.Len()), x.Type(), false, rs...))
	case *ssa.Send:
		e.escape(st, e.ev(st, x.X), in)
	case *ssa.MapUpdate:
		e.escape(st, e.ev(st, x.Value), in)
	case *ssa.DebugRef:
	default:
		if v, ok := in.(ssa.Value); ok {
			e.set(st, v, e.fresh(st, "other", "", in, ctx, v.Type()))
		}
	}
}

// escape: somebody else can write through v from here on.
func (e *Engine) escape(st *State, v *Term, in ssa.Instruction) {
	if rootOf(v).op == "alloc" {
		e.havoc(st, v, fmt.Sprintf("h%d", e.iid(in)))
	}
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func sameKind(a, b types.Type) bool {
	x, ok1 := a.Underlying().(*types.Basic)
	y, ok2 := b.Underlying().(*types.Basic)
	return ok1 && ok2 && x.Kind() == y.Kind()
}

func widening(a, b types.Type) bool {
	sz := types.SizesFor("gc", "amd64")
	return sz.Sizeof(a.Underlying()) <= sz.Sizeof(b.Underlying()) && isUnsigned(a) || sz.Sizeof(a.Underlying()) < sz.Sizeof(b.Underlying()) || (!isUnsigned(a) && !isUnsigned(b) && sz.Sizeof(a.Underlying()) <= sz.Sizeof(b.Underlying()))
}

// ---------------------------------------------------------------------------------------------
// Calls

func (e *Engine) callArgs(st *State, c *ssa.CallCommon) (fnT *Term, args []*Term) {
	fnT = e.ev(st, c.Value)
	if c.IsInvoke() {
		args = append(args, fnT)
		fnT = nil
	}
	for _, a := range c.Args {
		args = append(args, e.ev(st, a))
	}
	return
}

func (e *Engine) ctxOf(ctx int, in ssa.Instruction) int {
	k := fmt.Sprintf("%d/%d", ctx, e.iid(in))
	if n, ok := e.ctxTab[k]; ok {
		return n
	}
	n := len(e.ctxTab) + 1
	e.ctxTab[k] = n
	return n
}

func (e *Engine) call(st *State, in ssa.CallInstruction, c *ssa.CallCommon, fnT *Term, args []*Term, ctx int, pins map[int32]bool, cont *mentions, kind string) []Outcome {
	e.calls++
	ev := &CallEv{In: in, C: c, Name: calleeName(c), Args: args, Kind: kind, Ctx: ctx, Depth: len(e.stack)}
	ev.Fn = c.StaticCallee()
	var free []*Term
	if fnT != nil {
		t := fnT
		if t.op == "closure" || t.op == "fn" {
			ev.Fn = t.fn
			if t.op == "closure" {
				free = t.args
			}
			if ev.Name == "" {
				ev.Name = funcFullName(t.fn)
			}
		}
	}
	// bound method values and thunks: report the underlying method
	if ev.Fn != nil && strings.HasPrefix(ev.Fn.Synthetic, "bound method") && len(free) == 1 && ev.Fn.Object() != nil {
		ev.Name = fullName(ev.Fn.Object().(*types.Func))
		ev.Args = append([]*Term{free[0]}, args...)
	}
	if e.r.Call != nil {
		if outs := e.r.Call(e, st, ev); outs != nil {
			return outs
		}
	}
	if kind == "go" && !e.r.FollowGo {
		return nil
	}
	outs := e.defaultCall(st, ev, fnT, args, free, pins, cont)
	if e.r.After != nil {
		e.r.After(e, ev, outs)
	}
	return outs
}

func (e *Engine) onStack(fn *ssa.Function) bool {
	for _, f := range e.stack {
		if f == fn {
			return true
		}
	}
	return false
}

func (e *Engine) wantInline(fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 || e.onStack(fn) || len(e.stack) >= e.maxStk {
		return false
	}
	if !e.p.inRepo(fn) {
		// synthetic wrappers (bound methods, thunks) of external methods are followed
		return fn.Synthetic != "" && fn.Pkg == nil && len(fn.Blocks) == 1 && !strings.HasPrefix(fn.Synthetic, "instance")
	}
	if isLogging(fn) {
		return false
	}
	if e.r.Inline != nil {
		return e.r.Inline(e, fn)
	}
	return e.defaultInline(fn)
}

// isLogging: helpers that build or use a logger (a type with Debug, Info and Error methods).
func isLogging(fn *ssa.Function) bool {
	if rs := fn.Signature.Results(); rs.Len() > 0 && isLogger(rs.At(0).Type()) {
		return true
	}
	if rc := fn.Signature.Recv(); rc != nil && isLogger(rc.Type()) {
		return true
	}
	return false
}

func isLogger(t types.Type) bool {
	ms := types.NewMethodSet(t)
	n := 0
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "Debug", "Info", "Warn", "Error":
			n++
		}
	}
	return n >= 3
}

func (e *Engine) defaultInline(fn *ssa.Function) bool {
	if e.hasEvent(fn) {
		return true
	}
	return e.getInfo(fn).size <= 60 && len(fn.Blocks) <= 12
}

// hasEvent: fn or something it statically calls is an event function for the rule.
func (e *Engine) hasEvent(fn *ssa.Function) bool {
	if e.r.Event == nil {
		return false
	}
	if v, ok := e.evMemo[fn]; ok {
		return v
	}
	found := false
	e.p.staticReach(fn, func(f *ssa.Function) bool {
		if found {
			return false
		}
		if e.r.Event(f) {
			found = true
			return false
		}
		return true
	})
	e.evMemo[fn] = found
	return found
}

// higher-order library functions that call their function argument synchronously
var callsArg = map[string]bool{"(sync.Once).Do": true, "slices.ContainsFunc": true, "slices.IndexFunc": true, "slices.DeleteFunc": true, "sort.Slice": true, "slices.SortFunc": true, "sort.Search": true, "strings.Map": true, "strings.FieldsFunc": true, "strings.IndexFunc": true, "strings.ContainsFunc": true}

func (e *Engine) defaultCall(st *State, c *CallEv, fnT *Term, args, free []*Term, pins map[int32]bool, cont *mentions) []Outcome {
	in := c.In
	sig := c.C.Signature()
	T := e.T
	if bi, ok := c.C.Value.(*ssa.Builtin); ok && !c.C.IsInvoke() {
		return []Outcome{{st, e.builtin(st, bi, c, args)}}
	}
	if c.C.IsInvoke() && e.r.InvokeImpls != nil {
		fns := e.r.InvokeImpls(e, c.C)
		if len(fns) > 0 {
			var outs []Outcome
			for _, f := range fns {
				if e.onStack(f) || len(e.stack) >= e.maxStk {
					outs = append(outs, Outcome{st.clone(), e.opaque(st, c, args)})
					continue
				}
				s := st.clone()
				s.note("%s: dispatch to %s", e.p.iPos(in), e.p.fnName(f))
				as := append([]*Term(nil), args...)
				if as[0].op == "mi" {
					as[0] = as[0].args[0]
				}
				outs = append(outs, e.exec(f, as, nil, s, e.ctxOf(c.Ctx, in), e.pinsFor(st, pins, args), cont)...)
			}
			return outs
		}
	}
	// an interface call on a value whose dynamic type is known from a conversion in view
	if c.C.IsInvoke() && args[0].op == "mi" && args[0].args[0].typ != nil {
		if f := e.p.method(args[0].args[0].typ, c.C.Method.Name()); f != nil && e.p.inRepo(f) && e.wantInline(f) {
			as := append([]*Term{args[0].args[0]}, args[1:]...)
			return e.exec(f, as, nil, st, e.ctxOf(c.Ctx, in), e.pinsFor(st, pins, args), cont)
		}
	}
	if c.Fn != nil && e.wantInline(c.Fn) && (e.r.Skip == nil || !e.r.Skip(e, st, c)) {
		return e.exec(c.Fn, args, free, st, e.ctxOf(c.Ctx, in), e.pinsFor(st, pins, append(args, free...)), cont)
	}
	if callsArg[c.Name] {
		for _, a := range args {
			if (a.op == "closure" || a.op == "fn") && a.fn != nil && e.wantInline(a.fn) {
				var as []*Term
				for i := range a.fn.Params {
					t := e.fresh(st, "cbarg", fmt.Sprint(i), in, c.Ctx, a.fn.Params[i].Type(), args...)
					as = append(as, t)
				}
				var fr []*Term
				if a.op == "closure" {
					fr = a.args
				}
				outs := []Outcome{}
				if c.Name != "(sync.Once).Do" || true {
					s := st.clone()
					outs = append(outs, Outcome{s, e.opaque(s, c, args)})
				}
				for _, o := range e.exec(a.fn, as, fr, st, e.ctxOf(c.Ctx, in), e.pinsFor(st, pins, args), cont) {
					res := e.opaque(o.St, c, args)
					if (c.Name == "slices.ContainsFunc" || c.Name == "strings.ContainsFunc") && len(o.Res) == 1 {
						// the function returns true exactly when some call did
						if v, ok := e.eval(o.St, o.Res[0]); ok {
							if v {
								res = []*Term{T.boolT(true)}
							} else {
								res = []*Term{T.boolT(false)}
							}
						} else {
							s2 := o.St.clone()
							if e.assume(s2, o.Res[0], true) {
								if e.r.Branch != nil {
									a, v := stripNot(o.Res[0], true)
									e.r.Branch(e, s2, nil, a, v)
								}
								outs = append(outs, Outcome{s2, []*Term{T.boolT(true)}})
							}
							e.assume(o.St, o.Res[0], false)
							res = []*Term{T.boolT(false)}
						}
					}
					outs = append(outs, Outcome{o.St, res})
				}
				if c.Name == "slices.ContainsFunc" || c.Name == "strings.ContainsFunc" {
					outs[0].Res = []*Term{T.boolT(false)} // empty list
				}
				return outs
			}
		}
	}
	res := e.opaque(st, c, args)
	_ = sig
	return []Outcome{{st, res}}
}

func stripNot(t *Term, v bool) (*Term, bool) {
	for t.op == "not" {
		t, v = t.args[0], !v
	}
	return t, v
}

func (e *Engine) pinsFor(st *State, pins map[int32]bool, args []*Term) map[int32]bool {
	out := make(map[int32]bool, len(pins)+16)
	for p := range pins {
		out[p] = true
	}
	for _, t := range st.env {
		for _, l := range t.leaves {
			out[l] = true
		}
	}
	for _, d := range st.defers {
		for _, a := range d.args {
			for _, l := range a.leaves {
				out[l] = true
			}
		}
		if d.fnT != nil {
			for _, l := range d.fnT.leaves {
				out[l] = true
			}
		}
	}
	for _, a := range args {
		if a != nil {
			for _, l := range a.leaves {
				out[l] = true
			}
		}
	}
	return out
}

// storedFields: names of struct fields a function may write, transitively (repository code only).
func (e *Engine) storedFields(fn *ssa.Function) map[string]bool {
	if m, ok := e.storeMemo[fn]; ok {
		return m
	}
	m := map[string]bool{}
	e.storeMemo[fn] = m
	for f := range e.p.reach(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && !ownAlloc(fa) {
						m[fieldName(fa.X.Type(), fa.Field)] = true
					}
				}
			}
		}
	}
	return m
}

// ownAlloc: the address is part of something the function itself allocates, which nobody knew of before the call.
func ownAlloc(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Alloc:
			return true
		default:
			return false
		}
	}
}

// opaque models a call that is not followed.
func (e *Engine) opaque(st *State, c *CallEv, args []*Term) []*Term {
	name := c.Name
	if name == "" {
		name = "dynamic"
	}
	inrepo := c.Fn != nil && e.p.inRepo(c.Fn)
	if inrepo {
		site := fmt.Sprintf("c%d", e.iid(c.In))
		sf := e.storedFields(c.Fn)
		for k := range st.mem {
			if k.op == "fa" && sf[k.s] {
				delete(st.mem, k)
				st.ver[fmt.Sprintf("a%d", k.id)] = site
			}
		}
		for f := range sf {
			st.ver["f"+f] = site
		}
		for _, a := range args {
			if a.op == "alloc" || a.op == "closure" {
				e.havoc(st, a, site)
			}
		}
	} else {
		e.havocArgs(st, args, c.In, name)
	}
	rs := c.C.Signature().Results()
	if rs.Len() == 0 {
		return nil
	}
	var base *Term
	if t := e.fold(name, args); t != nil {
		return []*Term{t}
	}
	if functional(name, c.C) {
		base = e.T.mk("call", name, nil, false, args...)
		if rs.Len() == 1 {
			base = e.T.mk("call", name, rs.At(0).Type(), false, args...)
		}
		for _, a := range args {
			// results read through a pointer depend on its contents
			if v, ok := st.ver[fmt.Sprintf("t%d", a.id)]; ok {
				base = e.T.mk("call", name+"#"+v, base.typ, false, args...)
			}
		}
	} else {
		var ty types.Type
		if rs.Len() == 1 {
			ty = rs.At(0).Type()
		}
		base = e.fresh(st, "call", name, c.In, c.Ctx, ty, args...)
	}
	if rs.Len() == 1 {
		if base.typ == nil {
			base.typ = rs.At(0).Type()
		}
		return []*Term{base}
	}
	var res []*Term
	for i := 0; i < rs.Len(); i++ {
		res = append(res, e.T.mk("ext", fmt.Sprint(i), rs.At(i).Type(), false, base))
	}
	return res
}

// fold evaluates pure string functions of constants.
func (e *Engine) fold(name string, args []*Term) *Term {
	var ss []string
	for _, a := range args {
		v, ok := a.str()
		if !ok {
			return nil
		}
		ss = append(ss, v)
	}
	str := func(s string) *Term { return e.T.constT(constant.MakeString(s), types.Typ[types.String]) }
	switch len(ss) {
	case 1:
		switch name {
		case "strings.ToLower":
			return str(strings.ToLower(ss[0]))
		case "strings.ToUpper":
			return str(strings.ToUpper(ss[0]))
		case "strings.TrimSpace":
			return str(strings.TrimSpace(ss[0]))
		}
	case 2:
		switch name {
		case "strings.HasPrefix":
			return e.T.boolT(strings.HasPrefix(ss[0], ss[1]))
		case "strings.HasSuffix":
			return e.T.boolT(strings.HasSuffix(ss[0], ss[1]))
		case "strings.Contains":
			return e.T.boolT(strings.Contains(ss[0], ss[1]))
		case "strings.EqualFold":
			return e.T.boolT(strings.EqualFold(ss[0], ss[1]))
		case "strings.TrimPrefix":
			return str(strings.TrimPrefix(ss[0], ss[1]))
		case "strings.TrimSuffix":
			return str(strings.TrimSuffix(ss[0], ss[1]))
		}
	}
	return nil
}

// lenOf is the length of x, folded where it is known.
func (T *Terms) lenOf(x *Term) *Term {
	if s, ok := x.str(); ok {
		return T.intT(int64(len(s)))
	}
	if x.isNil() {
		return T.intT(0)
	}
	if x.op == "slice" && x.args[1].isNil() && x.args[2].isNil() {
		// x[:] of an array pointer
		if p, ok := x.args[0].typ.Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return T.intT(a.Len())
			}
		}
	}
	if x.op == "make" && x.typ != nil && len(x.args) > 0 && x.args[0] != nil {
		if _, ok := x.typ.Underlying().(*types.Slice); ok {
			return x.args[0]
		}
	}
	return T.mk("len", "", types.Typ[types.Int], false, x)
}

func (e *Engine) builtin(st *State, b *ssa.Builtin, c *CallEv, args []*Term) []*Term {
	T := e.T
	switch b.Name() {
	case "len":
		return []*Term{T.lenOf(args[0])}
	case "cap":
		return []*Term{T.mk("cap", "", types.Typ[types.Int], false, args[0])}
	case "append":
		if len(args) == 2 && args[1].op == "slice" && args[1].args[0].op == "alloc" { // the elements given
			for k := int64(0); k < 8; k++ {
				at := T.mk("ia", "", nil, false, args[1].args[0], T.intT(k))
				v, ok := st.mem[at]
				if sl, isSl := c.C.Signature().Results().At(0).Type().Underlying().(*types.Slice); !ok && isSl && isStruct(sl.Elem()) {
					for m := range st.mem { // written field by field
						if isUnder(m, at) {
							v, ok = e.load(st, at, sl.Elem()), true
							break
						}
					}
				}
				if !ok {
					break
				}
				args = append(args[:len(args):len(args)], v)
			}
		}
		t := e.fresh(st, "append", "", c.In, c.Ctx, c.C.Signature().Results().At(0).Type(), args...)
		return []*Term{t}
	case "min", "max":
		return []*Term{T.mk(b.Name(), "", c.C.Signature().Results().At(0).Type(), false, args...)}
	case "copy":
		e.havoc(st, args[0], fmt.Sprintf("h%d", e.iid(c.In)))
		return []*Term{e.fresh(st, "call", "copy", c.In, c.Ctx, types.Typ[types.Int], args...)}
	case "clear", "delete":
		return nil
	case "recover":
		return []*Term{e.fresh(st, "call", "recover", c.In, c.Ctx, nil)}
	}
	if c.C.Signature().Results().Len() == 1 {
		return []*Term{e.fresh(st, "call", "builtin."+b.Name(), c.In, c.Ctx, c.C.Signature().Results().At(0).Type(), args...)}
	}
	return nil
}

func (e *Engine) runDefers(st *State, ctx int, pins map[int32]bool, cont *mentions) []*State {
	states := []*State{st}
	for {
		var next []*State
		did := false
		for _, s := range states {
			if len(s.defers) == 0 {
				next = append(next, s)
				continue
			}
			did = true
			d := s.defers[len(s.defers)-1]
			s.defers = s.defers[:len(s.defers)-1]
			for _, o := range e.call(s, d.in, d.in.Common(), d.fnT, d.args, ctx, pins, cont, "defer") {
				next = append(next, o.St)
			}
		}
		states = next
		if !did {
			return states
		}
	}
}
