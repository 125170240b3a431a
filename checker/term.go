package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed abstract value: two equal pointers denote the same
// value on every execution of the path under exploration.
type Term struct {
	ID    int
	Op    string
	Aux   string
	Args  []*Term
	C     constant.Value
	Typ   types.Type
	Fn    *ssa.Function
	Instr ssa.Instruction
	Obj   types.Object // callee object for calls, field var for field/fieldaddr
}

type Terms struct {
	tab map[string]*Term
	// Unset tells the package-level variables that are not set once and for all
	Unset func(name string) bool
}

func NewTerms() *Terms { return &Terms{tab: map[string]*Term{}} }

func (ts *Terms) mk(op, aux string, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(aux)
	for _, a := range args {
		if a == nil {
			b.WriteString("|_")
		} else {
			fmt.Fprintf(&b, "|%d", a.ID)
		}
	}
	k := b.String()
	if t, ok := ts.tab[k]; ok {
		if t.Typ == nil {
			t.Typ = typ
		}
		return t
	}
	t := &Term{ID: len(ts.tab) + 1, Op: op, Aux: aux, Args: args, Typ: typ}
	ts.tab[k] = t
	return t
}

func (ts *Terms) Const(c constant.Value, typ types.Type) *Term {
	if c == nil {
		return ts.mk("nil", "", nil)
	}
	t := ts.mk("const", c.Kind().String()+":"+c.ExactString(), typ)
	t.C = c
	return t
}
func (ts *Terms) Nil() *Term        { return ts.mk("nil", "", nil) }
func (ts *Terms) Bool(b bool) *Term { return ts.Const(constant.MakeBool(b), types.Typ[types.Bool]) }
func (ts *Terms) Int(i int64) *Term { return ts.Const(constant.MakeInt64(i), types.Typ[types.Int]) }
func (ts *Terms) Str(s string) *Term {
	return ts.Const(constant.MakeString(s), types.Typ[types.String])
}
func (ts *Terms) Sym(name string, typ types.Type) *Term { return ts.mk("sym", name, typ) }

func (ts *Terms) Zero(typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ts.Bool(false)
		case u.Info()&types.IsInteger != 0:
			return ts.Int(0)
		case u.Info()&types.IsFloat != 0:
			return ts.Const(constant.MakeFloat64(0), typ)
		case u.Info()&types.IsString != 0:
			return ts.Str("")
		}
		return ts.Nil()
	case *types.Struct, *types.Array:
		return ts.mk("zero", types.TypeString(typ, nil), typ)
	}
	return ts.Nil()
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	u := t.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		u = p.Elem().Underlying()
	}
	s, _ := u.(*types.Struct)
	return s
}

func (ts *Terms) FieldAddr(base *Term, baseTyp types.Type, i int) *Term {
	st := structOf(baseTyp)
	f := st.Field(i)
	t := ts.mk("fieldaddr", fmt.Sprintf("%d:%s", i, f.Name()), types.NewPointer(f.Type()), base)
	t.Obj = f
	return t
}

func (ts *Terms) Field(x *Term, xTyp types.Type, i int) *Term {
	st := structOf(xTyp)
	f := st.Field(i)
	switch x.Op {
	case "struct":
		return x.Args[i]
	case "zero":
		return ts.Zero(f.Type())
	case "load":
		return ts.mkLoad(ts.FieldAddr(x.Args[0], xTyp, i), f.Type())
	}
	t := ts.mk("field", fmt.Sprintf("%d:%s", i, f.Name()), f.Type(), x)
	t.Obj = f
	return t
}

func (ts *Terms) mkLoad(addr *Term, typ types.Type) *Term { return ts.mk("load", "", typ, addr) }

func (ts *Terms) Not(x *Term) *Term {
	if x.Op == "const" && x.C.Kind() == constant.Bool {
		return ts.Bool(!constant.BoolVal(x.C))
	}
	if x.Op == "not" {
		return x.Args[0]
	}
	return ts.mk("not", "", types.Typ[types.Bool], x)
}

func (t *Term) IsConst() bool { return t.Op == "const" }
func (t *Term) IsNil() bool   { return t.Op == "nil" }
func (t *Term) Int() (int64, bool) {
	if t != nil && t.Op == "const" && t.C.Kind() == constant.Int {
		v, ok := constant.Int64Val(t.C)
		return v, ok
	}
	return 0, false
}
func (t *Term) StrVal() (string, bool) {
	if t != nil && t.Op == "const" && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}

var nonNilCalls = map[string]bool{
	"errors.New": true, "fmt.Errorf": true, "errors.Join": false,
	"context.WithValue": true, "context.Background": true, "context.TODO": true,
}

func (ts *Terms) NonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "closure", "func", "makemap", "makechan", "makeslice", "list", "global", "fieldaddr", "struct", "zero", "const", "elemaddr":
		return true
	case "load":
		a := t.Args[0]
		if a.Op == "global" && t.Typ != nil && types.IsInterface(t.Typ) && t.Typ.String() == "error" {
			return ts.Unset == nil || !ts.Unset(a.Aux)
		}
	case "call":
		if t.Obj != nil {
			if f, ok := t.Obj.(*types.Func); ok {
				return nonNilCalls[f.FullName()]
			}
		}
	case "iface":
		return true
	case "sym":
		return strings.HasPrefix(t.Aux, "nonnil:")
	case "append":
		return true
	}
	return false
}

func (ts *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return ts.Bool(true)
	}
	if a.IsConst() && b.IsConst() {
		if a.C.Kind() == b.C.Kind() || (isNum(a.C) && isNum(b.C)) {
			return ts.Bool(constant.Compare(a.C, token.EQL, b.C))
		}
	}
	if (a.IsNil() && ts.NonNil(b)) || (b.IsNil() && ts.NonNil(a)) {
		return ts.Bool(false)
	}
	// comparisons of booleans with constants
	if a.IsConst() && a.C.Kind() == constant.Bool {
		a, b = b, a
	}
	if b.IsConst() && b.C.Kind() == constant.Bool {
		if constant.BoolVal(b.C) {
			return a
		}
		return ts.Not(a)
	}
	// distinct fresh objects
	if a.Op == "alloc" && b.Op == "alloc" {
		return ts.Bool(false)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return ts.mk("eq", "", types.Typ[types.Bool], a, b)
}

func isNum(c constant.Value) bool {
	return c.Kind() == constant.Int || c.Kind() == constant.Float
}

func (ts *Terms) Lt(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return ts.Bool(constant.Compare(a.C, token.LSS, b.C))
	}
	if a == b {
		return ts.Bool(false)
	}
	if v, ok := a.Int(); ok && b.Op == "len" {
		if v < 0 {
			return ts.Bool(true)
		}
		if v == 0 { // 0 < len  <=> len != 0
			return ts.Not(ts.Eq(b, ts.Int(0)))
		}
	}
	if v, ok := b.Int(); ok && a.Op == "len" {
		if v <= 0 {
			return ts.Bool(false)
		}
		if v == 1 {
			return ts.Eq(a, ts.Int(0))
		}
	}
	return ts.mk("lt", "", types.Typ[types.Bool], a, b)
}

func (ts *Terms) Len(x *Term) *Term {
	switch x.Op {
	case "list":
		return ts.Int(int64(len(x.Args)))
	case "nil":
		return ts.Int(0)
	case "const":
		if s, ok := x.StrVal(); ok {
			return ts.Int(int64(len(s)))
		}
	case "makeslice":
		return x.Args[0]
	}
	return ts.mk("len", "", types.Typ[types.Int], x)
}

// Mentions reports whether t contains sub.
func (t *Term) Mentions(sub *Term) bool {
	return t.Any(func(x *Term) bool { return x == sub })
}

func (t *Term) Any(p func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(x *Term) bool {
		if x == nil || seen[x] {
			return false
		}
		seen[x] = true
		if p(x) {
			return true
		}
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// Root strips field/element selections off an address.
func (t *Term) Root() *Term {
	for t.Op == "fieldaddr" || t.Op == "elemaddr" {
		t = t.Args[0]
	}
	return t
}

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if t == nil {
		return "_"
	}
	if d > 6 {
		return "…"
	}
	as := func() string {
		var s []string
		for _, a := range t.Args {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "const":
		return t.C.ExactString()
	case "nil":
		return "nil"
	case "sym":
		if i := strings.IndexByte(t.Aux, '@'); i > 0 {
			return t.Aux[:i]
		}
		return t.Aux
	case "fieldaddr":
		return "&" + t.Args[0].str(d+1) + "." + t.Aux[strings.Index(t.Aux, ":")+1:]
	case "field":
		return t.Args[0].str(d+1) + "." + t.Aux[strings.Index(t.Aux, ":")+1:]
	case "load":
		return "*(" + t.Args[0].str(d+1) + ")"
	case "call":
		n := t.Aux
		if t.Obj != nil {
			n = t.Obj.Name()
		}
		return n + "(" + as() + ")"
	case "closure", "func":
		return t.Fn.String()
	case "alloc":
		if t.Instr != nil {
			if a, ok := t.Instr.(*ssa.Alloc); ok && a.Comment != "" {
				return "new:" + a.Comment
			}
		}
		return "new"
	case "global":
		return t.Aux
	case "extract":
		return t.Args[0].str(d+1) + "#" + t.Aux
	}
	return t.Op + "(" + as() + ")"
}
