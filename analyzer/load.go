package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/folbricht/routedns"

// Prog is the type-checked, SSA-form program under analysis.
type Prog struct {
	dir    string
	fset   *token.FileSet
	pkgs   []*packages.Package
	ssa    *ssa.Program
	root   *ssa.Package // rdns
	sec    *ssa.Package // dnssec
	cmd    *ssa.Package // cmd/routedns
	dns    *ssa.Package // miekg/dns
	byPath map[string]*packages.Package

	funcs []*ssa.Function // every function with a body defined in the repository (incl. closures)

	implCache  map[string][]*ssa.Function
	reachMemo  map[*ssa.Function]map[*ssa.Function]bool
	lockMemo   *locks
	callerMemo map[*ssa.Function][]ssa.CallInstruction
	padMemo    map[*ssa.Function]string
}

func loadProg(dir string) (*Prog, error) {
	env := append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env, Tests: false}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	p := &Prog{dir: dir, pkgs: ps, byPath: map[string]*packages.Package{}, implCache: map[string][]*ssa.Function{}, reachMemo: map[*ssa.Function]map[*ssa.Function]bool{}}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p.ssa = prog
	p.fset = prog.Fset
	packages.Visit(ps, nil, func(pk *packages.Package) { p.byPath[pk.PkgPath] = pk })
	get := func(path string) *ssa.Package {
		if pk := p.byPath[path]; pk != nil {
			return prog.Package(pk.Types)
		}
		return nil
	}
	p.root = get(modPath)
	p.sec = get(modPath + "/dnssec")
	p.cmd = get(modPath + "/cmd/routedns")
	p.dns = get("github.com/miekg/dns")
	if p.root == nil || p.sec == nil || p.cmd == nil || p.dns == nil {
		return nil, fmt.Errorf("expected packages are missing from the module")
	}
	for fn := range ssautil.AllFunctions(prog) {
		if p.inRepo(fn) && len(fn.Blocks) > 0 && fn.Synthetic == "" {
			p.funcs = append(p.funcs, fn)
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool {
		a, b := p.funcs[i], p.funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	return p, nil
}

// inRepo reports whether fn is declared (or synthesised for a declaration) in the repository.
func (p *Prog) inRepo(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if fn.Pkg != nil {
		return strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
	}
	if o := fn.Origin(); o != nil && o != fn && o.Pkg != nil {
		return strings.HasPrefix(o.Pkg.Pkg.Path(), modPath)
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return strings.HasPrefix(fn.Object().Pkg().Path(), modPath)
	}
	if fn.Parent() != nil {
		return p.inRepo(fn.Parent())
	}
	return false
}

func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.fset.Position(ps)
	f := q.Filename
	if r, err := filepath.Rel(p.dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// iPos returns the best source position for an instruction.
func (p *Prog) iPos(in ssa.Instruction) string {
	if in.Pos().IsValid() {
		return p.pos(in.Pos())
	}
	// look for the nearest instruction of the block with a position
	b := in.Block()
	if b != nil {
		idx := 0
		for i, x := range b.Instrs {
			if x == in {
				idx = i
			}
		}
		for i := idx; i >= 0; i-- {
			if b.Instrs[i].Pos().IsValid() {
				return p.pos(b.Instrs[i].Pos())
			}
		}
		for i := idx; i < len(b.Instrs); i++ {
			if b.Instrs[i].Pos().IsValid() {
				return p.pos(b.Instrs[i].Pos())
			}
		}
		return p.pos(b.Parent().Pos())
	}
	return "?"
}

func (p *Prog) fnName(fn *ssa.Function) string {
	s := fn.RelString(p.root.Pkg)
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

// typ looks up a named type by package and name; nil when it does not exist.
func (p *Prog) typ(pk *ssa.Package, name string) types.Type {
	o := pk.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (p *Prog) iface(pk *ssa.Package, name string) *types.Interface {
	t := p.typ(pk, name)
	if t == nil {
		return nil
	}
	i, _ := t.Underlying().(*types.Interface)
	return i
}

// implementers returns the named types of the repository (T or *T) implementing the interface.
func (p *Prog) implementers(it *types.Interface) []types.Type {
	var out []types.Type
	for _, pk := range []*ssa.Package{p.root, p.sec, p.cmd} {
		sc := pk.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if types.IsInterface(t) {
				continue
			}
			if types.Implements(t, it) {
				out = append(out, t)
			} else if types.Implements(types.NewPointer(t), it) {
				out = append(out, types.NewPointer(t))
			}
		}
	}
	return out
}

func (p *Prog) method(t types.Type, name string) *ssa.Function {
	ms := p.ssa.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			f := p.ssa.MethodValue(s)
			return p.unwrap(f)
		}
	}
	return nil
}

// unwrap follows a synthetic wrapper to the method it wraps, when there is exactly one call.
func (p *Prog) unwrap(f *ssa.Function) *ssa.Function {
	for i := 0; i < 4 && f != nil && f.Synthetic != "" && !strings.HasPrefix(f.Synthetic, "instance"); i++ {
		var next *ssa.Function
		n := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if sc := c.Common().StaticCallee(); sc != nil && sc.Name() == f.Name() {
						next = sc
						n++
					}
				}
			}
		}
		if n != 1 {
			return f
		}
		f = next
	}
	return f
}

// impls returns the repository functions an interface call may reach (class hierarchy).
func (p *Prog) impls(c *ssa.CallCommon) []*ssa.Function {
	if !c.IsInvoke() {
		return nil
	}
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	key := c.Value.Type().String() + "." + c.Method.Name()
	if r, ok := p.implCache[key]; ok {
		return r
	}
	var out []*ssa.Function
	for _, t := range p.implementers(it) {
		if f := p.method(t, c.Method.Name()); f != nil && p.inRepo(f) {
			out = append(out, f)
		}
	}
	p.implCache[key] = out
	return out
}

func isNamed(t types.Type, pkg, name string) bool {
	if t == nil {
		return false
	}
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	t = types.Unalias(t)
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	if o.Name() != name {
		return false
	}
	if o.Pkg() == nil {
		return pkg == ""
	}
	return o.Pkg().Path() == pkg
}

const dnsPath = "github.com/miekg/dns"

func isPtr(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.Pointer)
	return ok
}

// isMsgPtr reports whether t is *dns.Msg.
func isMsgPtr(t types.Type) bool { return isPtr(t) && isNamed(t, dnsPath, "Msg") }

// isResolve reports whether the call is Resolve(*dns.Msg, ClientInfo) (*dns.Msg, error), on an
// interface or a concrete element.
func isResolveSig(sig *types.Signature) bool {
	if sig.Params().Len() != 2 || sig.Results().Len() != 2 {
		return false
	}
	return isMsgPtr(sig.Params().At(0).Type()) && isNamed(sig.Params().At(1).Type(), modPath, "ClientInfo") && isMsgPtr(sig.Results().At(0).Type())
}

func isResolveCall(c *ssa.CallCommon) bool {
	if c.IsInvoke() {
		return c.Method.Name() == "Resolve" && isResolveSig(c.Method.Type().(*types.Signature))
	}
	if f := c.StaticCallee(); f != nil {
		return f.Signature.Recv() != nil && f.Name() == "Resolve" && isResolveSig(f.Signature)
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return false
	}
	// a function value that exchanges a query for an answer
	sig := c.Signature()
	return sig.Params().Len() >= 1 && sig.Results().Len() == 2 && isMsgPtr(sig.Params().At(0).Type()) && isMsgPtr(sig.Results().At(0).Type()) && isErrorT(sig.Results().At(1).Type())
}

// queryArg returns the index of the query among the arguments of a resolver call (receiver first).
func queryArg(c *ssa.CallCommon, args []*Term) int {
	if c.IsInvoke() || c.Signature().Recv() != nil {
		return 1
	}
	return 0
}

// calleeName gives a stable name "pkg/path.Func" or "(pkg/path.Type).Method" for a call target.
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return fullName(c.Method)
	}
	if f := c.StaticCallee(); f != nil {
		return funcFullName(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return ""
}

func funcFullName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if o, ok := f.Object().(*types.Func); ok {
		return fullName(o)
	}
	return f.String()
}

// fullName is types.Func.FullName with pointer receivers written without the star.
func fullName(o *types.Func) string {
	sig := o.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if pt, ok := types.Unalias(t).(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			pk := ""
			if n.Obj().Pkg() != nil {
				pk = n.Obj().Pkg().Path() + "."
			}
			return "(" + pk + n.Obj().Name() + ")." + o.Name()
		}
		if _, ok := t.Underlying().(*types.Interface); ok {
			return "(interface)." + o.Name()
		}
	}
	if o.Pkg() == nil {
		return o.Name()
	}
	return o.Pkg().Path() + "." + o.Name()
}

// reach returns the repository functions reachable from fn through calls, go, defer and closures,
// following interface calls to repository types (class hierarchy).
func (p *Prog) reach(fn *ssa.Function) map[*ssa.Function]bool {
	if m, ok := p.reachMemo[fn]; ok {
		return m
	}
	m := map[*ssa.Function]bool{}
	work := []*ssa.Function{fn}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if m[f] {
			continue
		}
		m[f] = true
		for _, g := range p.callees(f) {
			if !m[g] {
				work = append(work, g)
			}
		}
	}
	p.reachMemo[fn] = m
	return m
}

// callees lists repository functions directly called or captured by f.
func (p *Prog) callees(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(g *ssa.Function) {
		if g != nil && !seen[g] && p.inRepo(g) && len(g.Blocks) > 0 {
			seen[g] = true
			out = append(out, g)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				cc := c.Common()
				if cc.IsInvoke() {
					for _, g := range p.impls(cc) {
						add(g)
					}
				} else {
					add(cc.StaticCallee())
				}
			}
			for _, op := range in.Operands(nil) {
				switch v := (*op).(type) {
				case *ssa.Function:
					add(v)
				case *ssa.MakeClosure:
					if g, ok := v.Fn.(*ssa.Function); ok {
						add(g)
					}
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				if g, ok := mc.Fn.(*ssa.Function); ok {
					add(g)
				}
			}
		}
	}
	return out
}

// staticReach is like reach but does not follow interface calls.
func (p *Prog) staticReach(fn *ssa.Function, visit func(*ssa.Function) bool) {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if seen[f] || !visit(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					if g := c.Common().StaticCallee(); g != nil && p.inRepo(g) && len(g.Blocks) > 0 {
						rec(g)
					}
				}
				for _, op := range in.Operands(nil) {
					if v, ok := (*op).(*ssa.Function); ok && p.inRepo(v) && len(v.Blocks) > 0 {
						rec(v)
					}
				}
			}
		}
	}
	rec(fn)
}
