package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed value number. "Fresh" terms stand for the result of one program point in
// one calling context (a call, an allocation, a loop variable); everything else is built from them.
type Term struct {
	id     int32
	op     string
	s      string
	args   []*Term
	typ    types.Type
	fresh  bool
	leaves []int32 // fresh terms this term is built from, sorted
	depth  int
	cv     constant.Value
	fn     *ssa.Function   // fn / closure
	in     ssa.Instruction // creating instruction of fresh terms
}

type Terms struct {
	tab map[string]*Term
	all []*Term
	// phiIn records, for loop variables, the terms seen flowing into them (for origin queries).
	phiIn map[*Term]map[*Term]bool
}

func newTerms() *Terms {
	return &Terms{tab: map[string]*Term{}, phiIn: map[*Term]map[*Term]bool{}}
}

func mergeLeaves(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func (T *Terms) mk(op, s string, typ types.Type, fresh bool, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('\x00')
	sb.WriteString(s)
	for _, a := range args {
		fmt.Fprintf(&sb, "\x00%d", a.id)
	}
	k := sb.String()
	if t, ok := T.tab[k]; ok {
		return t
	}
	t := &Term{id: int32(len(T.all)), op: op, s: s, args: args, typ: typ, fresh: fresh}
	for _, a := range args {
		if a.depth+1 > t.depth {
			t.depth = a.depth + 1
		}
		if !fresh {
			t.leaves = mergeLeaves(t.leaves, a.leaves)
		}
	}
	if fresh {
		t.leaves = []int32{t.id}
	}
	T.all = append(T.all, t)
	T.tab[k] = t
	return t
}

func (T *Terms) nilT() *Term { return T.mk("nil", "", nil, false) }

func (T *Terms) constT(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return T.nilT()
	}
	t := T.mk("const", v.ExactString(), typ, false)
	t.cv = v
	return t
}

func (T *Terms) boolT(b bool) *Term { return T.constT(constant.MakeBool(b), types.Typ[types.Bool]) }
func (T *Terms) intT(i int64) *Term { return T.constT(constant.MakeInt64(i), types.Typ[types.Int]) }

func (t *Term) isNil() bool   { return t.op == "nil" }
func (t *Term) isConst() bool { return t.op == "const" }
func (t *Term) isTrue() bool {
	return t.op == "const" && t.cv.Kind() == constant.Bool && constant.BoolVal(t.cv)
}
func (t *Term) isFalse() bool {
	return t.op == "const" && t.cv.Kind() == constant.Bool && !constant.BoolVal(t.cv)
}
func (t *Term) str() (string, bool) {
	if t.op == "const" && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv), true
	}
	return "", false
}
func (t *Term) intv() (int64, bool) {
	if t.op == "const" && t.cv.Kind() == constant.Int {
		return constant.Int64Val(t.cv)
	}
	return 0, false
}

func (t *Term) hasLeaf(l int32) bool {
	i := sort.Search(len(t.leaves), func(i int) bool { return t.leaves[i] >= l })
	return i < len(t.leaves) && t.leaves[i] == l
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	switch t.op {
	case "nil":
		return "nil"
	case "const":
		return t.s
	case "param":
		return t.s
	case "fa":
		return "&" + t.args[0].String() + "." + t.s
	case "vf":
		return t.args[0].String() + "." + t.s
	case "ld":
		a := t.args[0]
		if a.op == "fa" {
			return a.args[0].String() + "." + a.s
		}
		if a.op == "ia" {
			return a.args[0].String() + "[" + a.args[1].String() + "]"
		}
		return "*" + a.String()
	case "not":
		return "!" + t.args[0].String()
	case "bin":
		return "(" + t.args[0].String() + " " + t.s + " " + t.args[1].String() + ")"
	case "phi":
		return "phi:" + t.s
	}
	if t.depth > 6 {
		return t.op + "(...)"
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.String())
	}
	name := t.op
	if t.op == "call" {
		name = t.s
		if i := strings.IndexByte(name, '#'); i >= 0 {
			name = name[:i]
		}
	} else if t.s != "" {
		name += ":" + t.s
	}
	return name + "(" + strings.Join(as, ", ") + ")"
}

// nonnil: the term can never be nil by construction.
func (t *Term) nonnil() bool {
	if t.typ != nil && isNamed(t.typ, "log/slog", "Logger") {
		return true
	}
	switch t.op {
	case "alloc", "mi", "closure", "fn", "fa", "ia", "make", "global", "mkstruct":
		return true
	case "const":
		return true
	case "call":
		// constructors that never return nil
		n := t.callName()
		switch n {
		case "errors.New", "fmt.Errorf", "(" + dnsPath + ".Msg).Copy", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf",
			"context.Background", "context.TODO", "time.NewTimer", "bytes.NewReader", "bufio.NewReader", "bufio.NewWriter", "bufio.NewScanner":
			return true
		}
	}
	return false
}

// callName returns the callee name of an opaque call term ("" otherwise).
func (t *Term) callName() string {
	if t.op != "call" {
		return ""
	}
	if i := strings.IndexByte(t.s, '#'); i >= 0 {
		return t.s[:i]
	}
	return t.s
}

func (T *Terms) not(x *Term) *Term {
	if x.isTrue() {
		return T.boolT(false)
	}
	if x.isFalse() {
		return T.boolT(true)
	}
	if x.op == "not" {
		return x.args[0]
	}
	return T.mk("not", "", types.Typ[types.Bool], false, x)
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (t *Term) nonneg() bool {
	return t.op == "len" || t.op == "cap" || isUnsigned(t.typ)
}

// bin builds a normalised binary term: comparisons are reduced to == and <, possibly negated.
func (T *Terms) bin(op token.Token, x, y *Term, typ types.Type) *Term {
	if x.isConst() && y.isConst() && x.cv.Kind() == y.cv.Kind() {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if x.cv.Kind() != constant.Bool || op == token.EQL || op == token.NEQ {
				return T.boolT(constant.Compare(x.cv, op, y.cv))
			}
		case token.QUO, token.REM:
			if x.cv.Kind() == constant.Int && constant.Sign(y.cv) != 0 {
				if op == token.QUO {
					op = token.QUO_ASSIGN // integer division
				}
				return T.constT(constant.BinaryOp(x.cv, op, y.cv), typ)
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
			if x.cv.Kind() == constant.Int || (op == token.ADD && x.cv.Kind() == constant.String) {
				return T.constT(constant.BinaryOp(x.cv, op, y.cv), typ)
			}
		}
	}
	switch op {
	case token.NEQ:
		return T.not(T.bin(token.EQL, x, y, typ))
	case token.GTR:
		return T.bin(token.LSS, y, x, typ)
	case token.GEQ:
		return T.not(T.bin(token.LSS, x, y, typ))
	case token.LEQ:
		return T.not(T.bin(token.LSS, y, x, typ))
	case token.EQL:
		if x == y {
			return T.boolT(true)
		}
		if x.isNil() || x.isConst() {
			x, y = y, x
		}
		if y.isNil() && x.nonnil() || x.isNil() && y.nonnil() {
			return T.boolT(false)
		}
		if y.isTrue() {
			return x
		}
		if y.isFalse() {
			return T.not(x)
		}
		if !y.isNil() && !y.isConst() && x.id > y.id {
			x, y = y, x
		}
		// (a - b) == 0 is a == b
		return T.mk("bin", "==", types.Typ[types.Bool], false, x, y)
	case token.LSS:
		if x == y {
			return T.boolT(false)
		}
		if c, ok := x.intv(); ok && c == 0 && y.nonneg() {
			return T.not(T.bin(token.EQL, y, x, typ))
		}
		if c, ok := y.intv(); ok && x.nonneg() {
			if c <= 0 {
				return T.boolT(false)
			}
			if c == 1 {
				return T.bin(token.EQL, x, T.constT(constant.MakeInt64(0), x.typ), typ)
			}
		}
		return T.mk("bin", "<", types.Typ[types.Bool], false, x, y)
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
		if basic, ok := typ.Underlying().(*types.Basic); !ok || basic.Info()&types.IsString == 0 {
			if x.isConst() && !y.isConst() || (!x.isConst() && !y.isConst() && x.id > y.id) {
				x, y = y, x
			}
		}
		// (x + c1) + c2
		if op == token.ADD && y.isConst() && x.op == "bin" && x.s == "+" && x.args[1].isConst() && x.args[1].cv.Kind() == constant.Int && y.cv.Kind() == constant.Int {
			return T.bin(token.ADD, x.args[0], T.constT(constant.BinaryOp(x.args[1].cv, token.ADD, y.cv), typ), typ)
		}
		if op == token.ADD {
			if c, ok := y.intv(); ok && c == 0 {
				return x
			}
		}
	}
	return T.mk("bin", op.String(), typ, false, x, y)
}

// walk visits t and everything it is built from (following loop-variable inputs).
func (T *Terms) walk(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		for a := range T.phiIn[t] {
			rec(a)
		}
	}
	rec(t)
}

// contains reports whether any sub-term satisfies f.
func (T *Terms) contains(t *Term, f func(*Term) bool) bool {
	found := false
	T.walk(t, func(x *Term) bool {
		if found {
			return false
		}
		if f(x) {
			found = true
			return false
		}
		return true
	})
	return found
}

// field reports whether t is a read of (or the address of) a field with that name.
func (t *Term) isField(name string) bool {
	switch t.op {
	case "ld":
		return t.args[0].op == "fa" && t.args[0].s == name
	case "vf", "fa":
		return t.s == name
	}
	return false
}

// byID returns the term with a number.
func (T *Terms) byID(id int32) *Term {
	if id < 0 || int(id) >= len(T.all) {
		return nil
	}
	return T.all[id]
}
