package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C40: errors stay recognisable. The errors that packages declare form a tree below the
// generic one, through what they wrap; an error made from another one keeps it, and an error made
// where another one is at hand keeps it or is one of those declared.

func init() {
	register("C40", "error-provenance analysis over SSA of the library, the generator, the command and the code that the templates generate: how each declared error wraps another (verbs of the formats matched with their arguments), and, for each error that is made, which errors it is made from, which are known to have happened (dominating tests), and whether it reaches a return", ruleErrors)
}

// errMade is an error made by a call of fmt.Errorf, errors.New or errors.Join.
type errMade struct {
	call    *ssa.Call
	kind    string
	known   bool        // the format is known
	wrapped []ssa.Value // the errors that it wraps
	texts   []ssa.Value // the errors of which it holds only the text
}

func unwrapValue(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// variadicValues are the values of a variadic argument, false when they are not written there.
func variadicValues(v ssa.Value) ([]ssa.Value, bool) {
	if c, ok := v.(*ssa.Const); ok && c.IsNil() {
		return nil, true
	}
	s, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	a, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	arr, ok := elemType(a.Type()).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]ssa.Value, arr.Len())
	for _, ref := range *a.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		c, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		i, _ := constant.Int64Val(c.Value)
		for _, x := range *ia.Referrers() {
			if st, ok := x.(*ssa.Store); ok && st.Addr == ssa.Value(ia) && int(i) < len(out) {
				out[i] = st.Val
			}
		}
	}
	for _, x := range out {
		if x == nil {
			return nil, false
		}
	}
	return out, true
}

// formatVerbs are the verbs of a format, in the order of their arguments; false when
// it uses explicit indexes or widths given as arguments.
func formatVerbs(f string) (out []byte, ok bool) {
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) || f[i] == '[' || f[i] == '*' {
			return nil, false
		}
		if f[i] != '%' {
			out = append(out, f[i])
		}
	}
	return out, true
}

// constStrings are the texts that a value can be, through concatenations and the parameters
// of functions whose callers are all known; nil when they are not.
func constStrings(v ssa.Value, depth int) (out []string) {
	if depth > 5 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return []string{constant.StringVal(x.Value)}
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			for _, a := range constStrings(x.X, depth+1) {
				for _, b := range constStrings(x.Y, depth+1) {
					out = append(out, a+b)
				}
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			l := constStrings(e, depth+1)
			if l == nil {
				return nil
			}
			out = append(out, l...)
		}
	case *ssa.Parameter:
		f := x.Parent()
		if f.Object() == nil || f.Object().Exported() || f.Pkg == nil {
			return nil
		}
		k := -1
		for i, p := range f.Params {
			if p == x {
				k = i
			}
		}
		calls := 0
		for _, g := range packageFuncs(f.Pkg) {
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					c, ok := i.(ssa.CallInstruction)
					if ok && c.Common().StaticCallee() == f {
						calls++
						l := constStrings(c.Common().Args[k], depth+1)
						if l == nil {
							return nil
						}
						out = append(out, l...)
					}
				}
			}
		}
		if refs := f.Referrers(); refs != nil && len(*refs) > calls {
			return nil
		}
	}
	return out
}

// textOf gives the errors whose text a value is made of.
func textOf(v ssa.Value, depth int) (out []ssa.Value) {
	if depth > 6 {
		return nil
	}
	switch x := unwrapValue(v).(type) {
	case *ssa.Call:
		c := x.Common()
		if c.IsInvoke() && c.Method.Name() == "Error" && isErrorType(c.Value.Type()) {
			return []ssa.Value{c.Value}
		}
		if f := c.StaticCallee(); f != nil {
			switch f.String() {
			case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
				if l, ok := variadicValues(c.Args[len(c.Args)-1]); ok {
					for _, a := range l {
						if isErrorValue(a) {
							out = append(out, unwrapValue(a))
						} else {
							out = append(out, textOf(a, depth+1)...)
						}
					}
				}
			}
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return append(textOf(x.X, depth+1), textOf(x.Y, depth+1)...)
		}
	}
	return out
}

// isErrorValue: the value, as it is given, is an error.
func isErrorValue(v ssa.Value) bool {
	v = unwrapValue(v)
	return types.Implements(v.Type(), types.Universe.Lookup("error").Type().Underlying().(*types.Interface))
}

func madeError(i ssa.Instruction) *errMade {
	c, ok := i.(*ssa.Call)
	if !ok || c.Common().StaticCallee() == nil {
		return nil
	}
	m := &errMade{call: c, known: true}
	args := c.Common().Args
	switch c.Common().StaticCallee().String() {
	case "errors.New":
		m.kind = "new"
		m.texts = textOf(args[0], 0)
	case "errors.Join":
		m.kind = "join"
		l, ok := variadicValues(args[0])
		m.known = ok
		for _, a := range l {
			m.wrapped = append(m.wrapped, unwrapValue(a))
		}
	case "fmt.Errorf":
		m.kind = "format"
		l, ok := variadicValues(args[1])
		fs := constStrings(args[0], 0)
		if !ok || len(fs) == 0 {
			m.known = false
			return m
		}
		// a format that depends on the caller: what each one keeps must be the same
		verbs, ok := formatVerbs(fs[0])
		m.known = ok
		for _, f := range fs[1:] {
			other, ok := formatVerbs(f)
			for k, a := range l {
				if isErrorValue(a) && (k >= len(verbs) || k >= len(other) || verbs[k] != other[k]) {
					ok = false
				}
			}
			m.known = m.known && ok
		}
		if !m.known {
			return m
		}
		for k, a := range l {
			switch {
			case isErrorValue(a) && k < len(verbs) && verbs[k] == 'w':
				m.wrapped = append(m.wrapped, unwrapValue(a))
			case isErrorValue(a) && (k >= len(verbs) || verbs[k] != 'T'):
				m.texts = append(m.texts, unwrapValue(a))
			default:
				m.texts = append(m.texts, textOf(a, 0)...)
			}
		}
	default:
		return nil
	}
	return m
}

func errGlobal(v ssa.Value) *ssa.Global {
	if u, ok := unwrapValue(v).(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok && isErrType(elemType(g.Type())) {
			return g
		}
	}
	return nil
}

// returned: the value flows to a return of the function (or out of it).
func returned(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.Return, *ssa.Send, *ssa.Panic:
			return true
		case *ssa.Phi:
			if returned(x, seen) {
				return true
			}
		case *ssa.MakeInterface:
			if returned(x, seen) {
				return true
			}
		case *ssa.ChangeInterface:
			if returned(x, seen) {
				return true
			}
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			a, ok := x.Addr.(*ssa.Alloc)
			if !ok {
				return true // a field, a variable captured, ...
			}
			for _, l := range *a.Referrers() {
				if u, ok := l.(*ssa.UnOp); ok && u.Op == token.MUL && returned(u, seen) {
					return true
				}
			}
		case *ssa.Call:
			if m := madeError(x); m != nil && returned(x, seen) {
				return true
			}
		}
	}
	return false
}

// sameError: the values hold the same error (loads of the same variable included).
func sameError(a, b ssa.Value, seen map[ssa.Value]bool) bool {
	a, b = unwrapValue(a), unwrapValue(b)
	if a == b {
		return true
	}
	if seen[a] {
		return false
	}
	seen[a] = true
	switch x := a.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if sameError(e, b, seen) {
				return true
			}
		}
	case *ssa.UnOp:
		if y, ok := b.(*ssa.UnOp); ok && x.Op == token.MUL && y.Op == token.MUL && x.X == y.X {
			return true
		}
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) && sameError(s.Val, b, seen) {
					return true
				}
			}
		}
	case *ssa.Call:
		// made from it, or given it
		if m := madeError(x); m != nil {
			for _, w := range m.wrapped {
				if sameError(w, b, seen) {
					return true
				}
			}
			return false
		}
		for _, g := range x.Common().Args {
			if isErrorType(g.Type()) && sameError(g, b, seen) {
				return true
			}
		}
	}
	return false
}

// happened are the errors known not to be nil where a block starts.
func happened(b *ssa.BasicBlock) (out []ssa.Value) {
	for d := b; d != nil; d = d.Idom() {
		i := d.Idom()
		if i == nil || len(i.Instrs) == 0 || len(d.Preds) != 1 || d.Preds[0] != i {
			continue
		}
		c, ok := i.Instrs[len(i.Instrs)-1].(*ssa.If)
		if !ok || i.Succs[0] == i.Succs[1] {
			continue
		}
		op, ok := c.Cond.(*ssa.BinOp)
		if !ok || op.Op != token.NEQ && op.Op != token.EQL {
			continue
		}
		v, n := op.X, op.Y
		if k, ok := v.(*ssa.Const); ok && k.IsNil() {
			v, n = n, v
		}
		if k, ok := n.(*ssa.Const); !ok || !k.IsNil() || !isErrorType(v.Type()) {
			continue
		}
		if (op.Op == token.NEQ) == (i.Succs[0] == d) {
			out = append(out, v)
		}
	}
	return out
}

func ruleErrors(r *Report) {
	r.declaredErrors()
	var fns []*ssa.Function
	fns = append(fns, r.W.Funcs(Mod+"/pkg", Mod+"/cmd")...)
	for _, f := range fns {
		r.errorsMade(f, f.String(), r.W.PosStr)
	}
	seen := map[string]bool{}
	for _, x := range r.expansions(nil) {
		for _, f := range expansionFuncs(x) {
			k := f.String() + x.Shape.key()
			if seen[k] {
				continue
			}
			seen[k] = true
			r.errorsMade(f, "generated "+f.Name(), func(token.Pos) string { return x.Shape.key() + " " + f.Name() })
		}
	}
	r.Floor("errors declared", 15)
	r.Floor("errors made", 100)
	r.Floor("errors made from others", 40)
	r.Floor("errors made where another happened", 20)
}

func expansionFuncs(x *Expansion) []*ssa.Function { return packageFuncs(x.SSA) }

func packageFuncs(p *ssa.Package) (out []*ssa.Function) {
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || len(f.Blocks) == 0 {
			return
		}
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range p.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			n, ok := m.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < n.NumMethods(); i++ {
				add(p.Prog.FuncValue(n.Method(i)))
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// errorsMade checks the errors that a function makes.
func (r *Report) errorsMade(f *ssa.Function, what string, where func(token.Pos) string) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			m := madeError(i)
			if m == nil {
				continue
			}
			r.Count("errors made", 1)
			if !m.known {
				// the format is not written there: what it is made from cannot be seen
				if len(m.call.Common().Args) > 1 {
					if l, ok := variadicValues(m.call.Common().Args[1]); ok {
						for _, a := range l {
							if isErrorValue(a) {
								r.FailAt("format:"+what, where(m.call.Pos()), "%s makes an error from another one with a format that cannot be decided", what)
							}
						}
					}
				}
				continue
			}
			out := returned(m.call, map[ssa.Value]bool{})
			if len(m.wrapped)+len(m.texts) > 0 {
				r.Count("errors made from others", 1)
			}
			for _, t := range m.texts {
				kept := false
				for _, w := range m.wrapped {
					kept = kept || errGlobal(w) != nil || sameError(w, t, map[ssa.Value]bool{})
				}
				if !kept && out {
					r.FailAt("text:"+what, where(m.call.Pos()), "%s makes an error with the text of another one only: callers cannot recognise it any more", what)
				}
			}
			if before := happened(b); len(before) > 0 {
				r.Count("errors made where another happened", 1)
				ok := !out
				for _, w := range m.wrapped {
					ok = ok || errGlobal(w) != nil
					for _, e := range before {
						ok = ok || sameError(w, e, map[ssa.Value]bool{})
					}
				}
				if !ok {
					r.FailAt("lost:"+what, where(m.call.Pos()), "%s gives a new error where another one happened, and does not keep it", what)
				}
			}
		}
	}
}

// globalsWrapped are the declared errors that a value wraps, and whether it is an error made
// for it: there, or by a function that makes one for each call.
func globalsWrapped(v ssa.Value, args map[ssa.Value]ssa.Value, depth int) (out []*ssa.Global, own bool) {
	v = unwrapValue(v)
	if a := args[v]; a != nil {
		v = unwrapValue(a)
	}
	c, ok := v.(*ssa.Call)
	if !ok || depth > 6 {
		return nil, false
	}
	if m := madeError(c); m != nil {
		for _, w := range m.wrapped {
			if a := args[w]; a != nil {
				w = unwrapValue(a)
			}
			if g := errGlobal(w); g != nil {
				out = append(out, g)
				continue
			}
			l, _ := globalsWrapped(w, args, depth+1)
			out = append(out, l...)
		}
		return out, m.known
	}
	f := c.Common().StaticCallee()
	if f == nil || len(f.Blocks) == 0 || f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), Mod) {
		return nil, false
	}
	inner := map[ssa.Value]ssa.Value{}
	for i, p := range f.Params {
		inner[p] = c.Common().Args[i]
		if a := args[c.Common().Args[i]]; a != nil {
			inner[p] = a
		}
	}
	own = true
	n := 0
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
			l, o := globalsWrapped(ret.Results[0], inner, depth+1)
			own = own && o
			out = append(out, l...)
			n++
		}
	}
	return out, own && n > 0
}

// declaredErrors checks the errors that the packages of the library declare.
func (r *Report) declaredErrors() {
	root := extPath + ".ErrAsyncAPI"
	parents := map[*ssa.Global][]*ssa.Global{}
	var all []*ssa.Global
	for _, p := range r.W.Repo {
		if !strings.HasPrefix(p.PkgPath, Mod+"/pkg/") {
			continue
		}
		sp := r.W.SSA[p.PkgPath]
		for _, n := range p.Types.Scope().Names() {
			g, ok := sp.Members[n].(*ssa.Global)
			if !ok || !g.Object().Exported() || !isErrType(elemType(g.Type())) {
				continue
			}
			all = append(all, g)
			r.Count("errors declared", 1)
			var vals []ssa.Value
			for _, f := range r.W.Funcs(Mod) {
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						if s, ok := i.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
							vals = append(vals, s.Val)
						}
					}
				}
			}
			if init := sp.Func("init"); init != nil && len(vals) == 0 {
				for _, b := range init.Blocks {
					for _, i := range b.Instrs {
						if s, ok := i.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
							vals = append(vals, s.Val)
						}
					}
				}
			}
			if len(vals) != 1 {
				r.Fail("declared:"+g.String(), g.Pos(), "%s is given %d values", g, len(vals))
				continue
			}
			hs, own := globalsWrapped(vals[0], nil, 0)
			if !own {
				r.Fail("declared:"+g.String(), g.Pos(), "%s is not made as an error of its own: it cannot be told from others", g)
				continue
			}
			parents[g] = hs
		}
	}
	var below func(g *ssa.Global, depth int) bool
	below = func(g *ssa.Global, depth int) bool {
		if g.String() == root {
			return true
		}
		for _, p := range parents[g] {
			if depth < 10 && below(p, depth+1) {
				return true
			}
		}
		return false
	}
	found := false
	for _, g := range all {
		if g.String() == root {
			found = true
			if len(parents[g]) > 0 {
				r.Fail("declared:"+g.String(), g.Pos(), "the generic error wraps another one")
			}
			continue
		}
		if !below(g, 0) {
			r.Fail("generic:"+g.String(), g.Pos(), "%s does not wrap the generic error: errors.Is(err, ErrAsyncAPI) does not hold for it", g)
		}
		for _, p := range parents[g] {
			if p.String() != root {
				r.Fail("other:"+g.String(), g.Pos(), "%s wraps %s: the two cannot be told apart", g, p)
			}
		}
	}
	if !found {
		r.FailAt("declared:root", "-", "the generic error is not resolved")
	}
}
