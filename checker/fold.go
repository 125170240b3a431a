package main

// Constant folding of the generator. The generator's exported entry points are
// folded over constant document shapes written in this checker: every value is
// a compile-time constant of the analysis, every call is resolved in the typed
// SSA of the current source, and the outcome is the text of the generated
// program, which the flow rules then analyse. No repository code is compiled
// or run.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Cell struct{ V any }
type VStruct struct {
	T types.Type
	F []*Cell
}
type VArr struct{ E []*Cell }
type VSlice struct{ E []*Cell }
type vment struct{ k, v any }
type VMap struct{ M map[string]*vment }
type VIface struct {
	T types.Type
	V any
}
type VFunc struct {
	Fn   *ssa.Function
	Bind []any
	Nat  func(m *Machine, args []any) any
	Sig  *types.Signature
}
type VTuple []any

// VErr is an error made by a modelled library function.
type VErr struct {
	msg   string
	wraps []any
}

type foldPanic struct {
	msg   string
	pos   token.Pos
	stack []string
}
type foldUnsup struct{ msg string }

type Machine struct {
	w       *World
	globals map[*ssa.Global]*Cell
	side    map[*Cell]any
	steps   int
	max     int
	stack   []*ssa.Function
	where   []token.Pos
	inited  map[*ssa.Package]bool
	initing *ssa.Package

	Written map[string]string                   // os.WriteFile calls
	Files   map[string]string                   // what os.ReadFile reads
	Seen    map[*ssa.Function]bool              // functions entered, if not nil
	Branch  map[string][2]int                   // template branches taken / not taken
	Order   func(ents []*vment, n int) []*vment // order the n-th iteration over a map follows
	Ranged  map[ssa.Instruction]bool            // iterations over maps of several entries, if not nil
	ranges  int
	NoLines bool // no line directives in template output
}

func NewMachine(w *World) *Machine {
	m := &Machine{w: w, globals: map[*ssa.Global]*Cell{}, side: map[*Cell]any{}, max: 40_000_000,
		inited: map[*ssa.Package]bool{}, Written: map[string]string{}, Branch: map[string][2]int{}}
	if w.endless.Load() >= 4 {
		m.max /= 100
	}
	return m
}

// exhausted ends a folding that takes too many steps. When several foldings of a run did
// not end, the others are given much less: the check fails anyway, in a reasonable time.
func (m *Machine) exhausted() {
	m.w.endless.Add(1)
	unsup("step limit")
}

func (m *Machine) init(p *ssa.Package) {
	if p == nil || m.inited[p] {
		return
	}
	m.inited[p] = true
	for _, ip := range p.Pkg.Imports() {
		if strings.HasPrefix(ip.Path(), Mod) {
			m.init(m.w.SSA[ip.Path()])
		}
	}
	if f := p.Func("init"); f != nil && f.Blocks != nil {
		m.initing = p
		m.call(f, nil, nil)
	}
}

func unsup(f string, a ...any) { panic(foldUnsup{fmt.Sprintf(f, a...)}) }

func (m *Machine) pos() token.Pos {
	for i := len(m.where) - 1; i >= 0; i-- {
		if m.where[i].IsValid() {
			return m.where[i]
		}
	}
	return token.NoPos
}

func (m *Machine) gopanic(f string, a ...any) {
	var st []string
	for _, fn := range m.stack {
		st = append(st, fn.String())
	}
	panic(&foldPanic{msg: fmt.Sprintf(f, a...), pos: m.pos(), stack: st})
}

// Try folds a call, turning folding failures into an error. The second result
// tells a panic of the folded code from a limit of the folder.
func (m *Machine) Try(f func() any) (v any, err error, panicked *foldPanic) {
	defer func() {
		if r := recover(); r != nil {
			m2 := m.stackString()
			m.stack, m.where = nil, nil
			switch x := r.(type) {
			case *foldPanic:
				panicked = x
				err = fmt.Errorf("the code panics: %s", x.msg)
			case foldUnsup:
				err = fmt.Errorf("cannot fold: %s (in %s)", x.msg, m2)
			default:
				panic(r)
			}
		}
	}()
	return f(), nil, nil
}

func (m *Machine) stackString() string {
	var s []string
	for i := len(m.stack) - 1; i >= 0 && len(s) < 4; i-- {
		s = append(s, m.stack[i].Name())
	}
	return strings.Join(s, " < ") + " at " + m.w.PosStr(m.pos())
}

func zeroVal(t types.Type) any {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsUnsigned != 0:
			return uint64(0)
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		}
		return nil
	case *types.Struct:
		s := &VStruct{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, &Cell{zeroVal(u.Field(i).Type())})
		}
		return s
	case *types.Array:
		a := &VArr{}
		for i := int64(0); i < u.Len(); i++ {
			a.E = append(a.E, &Cell{zeroVal(u.Elem())})
		}
		return a
	case *types.Tuple:
		var tu VTuple
		for i := 0; i < u.Len(); i++ {
			tu = append(tu, zeroVal(u.At(i).Type()))
		}
		return tu
	}
	return nil
}

func cp(v any) any {
	switch x := v.(type) {
	case *VStruct:
		n := &VStruct{T: x.T, F: make([]*Cell, len(x.F))}
		for i, c := range x.F {
			n.F[i] = &Cell{cp(c.V)}
		}
		return n
	case *VArr:
		n := &VArr{E: make([]*Cell, len(x.E))}
		for i, c := range x.E {
			n.E[i] = &Cell{cp(c.V)}
		}
		return n
	}
	return v
}

// store keeps the identity of field cells, so that pointers to fields stay valid.
func storeCell(c *Cell, v any) {
	switch x := v.(type) {
	case *VStruct:
		if old, ok := c.V.(*VStruct); ok && len(old.F) == len(x.F) && old != x {
			tmp := cp(x).(*VStruct)
			for i := range old.F {
				storeCell(old.F[i], tmp.F[i].V)
			}
			return
		}
		c.V = cp(v)
		return
	case *VArr:
		c.V = cp(v)
		return
	}
	c.V = v
}

func wrapInt(v int64, t types.Type) any {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	switch b.Kind() {
	case types.Int8:
		return int64(int8(v))
	case types.Int16:
		return int64(int16(v))
	case types.Int32, types.UntypedRune:
		return int64(int32(v))
	case types.Uint8:
		return uint64(uint8(v))
	case types.Uint16:
		return uint64(uint16(v))
	case types.Uint32:
		return uint64(uint32(v))
	case types.Uint, types.Uint64, types.Uintptr:
		return uint64(v)
	}
	return v
}

func constVal(c *ssa.Const) any {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		return zeroVal(c.Type())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsString != 0:
		return constant.StringVal(c.Value)
	case b.Info()&types.IsUnsigned != 0:
		u, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return u
	case b.Info()&types.IsInteger != 0:
		i, _ := constant.Int64Val(constant.ToInt(c.Value))
		return i
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return f
	}
	return nil
}

func keyStr(v any) string {
	switch x := v.(type) {
	case string:
		return "s" + x
	case *VIface:
		if x == nil {
			return "nil"
		}
		return "i" + x.T.String() + ":" + keyStr(x.V)
	case *VStruct:
		s := "{"
		for _, f := range x.F {
			s += keyStr(f.V) + ","
		}
		return s + "}"
	case nil:
		return "nil"
	default:
		return fmt.Sprintf("%T%v", v, v)
	}
}

func (mp *VMap) sorted() []*vment {
	ks := make([]string, 0, len(mp.M))
	for k := range mp.M {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := make([]*vment, len(ks))
	for i, k := range ks {
		out[i] = mp.M[k]
	}
	return out
}

func eqVal(a, b any) bool {
	if x, ok := a.(*VIface); ok && x == nil {
		a = nil
	}
	if x, ok := b.(*VIface); ok && x == nil {
		b = nil
	}
	switch x := a.(type) {
	case *VIface:
		y, ok := b.(*VIface)
		return ok && types.Identical(x.T, y.T) && eqVal(x.V, y.V)
	case *VStruct:
		y, ok := b.(*VStruct)
		if !ok {
			return false
		}
		for i := range x.F {
			if !eqVal(x.F[i].V, y.F[i].V) {
				return false
			}
		}
		return true
	case *VArr:
		y := b.(*VArr)
		for i := range x.E {
			if !eqVal(x.E[i].V, y.E[i].V) {
				return false
			}
		}
		return true
	case *VSlice, *VMap, *VFunc:
		return a == b
	}
	return a == b
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]any
	bind   []any
	defers []func()
	ret    any
}

func (m *Machine) get(f *frame, v ssa.Value) any {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Global:
		return m.global(x)
	case *ssa.Function:
		return &VFunc{Fn: x}
	case *ssa.Builtin:
		return x
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == x {
				return f.bind[i]
			}
		}
	}
	r, ok := f.env[v]
	if !ok {
		unsup("value %s of %s has no definition", v.Name(), f.fn)
	}
	return r
}

func (m *Machine) global(g *ssa.Global) *Cell {
	c := m.globals[g]
	if c == nil {
		t := g.Type().(*types.Pointer).Elem()
		c = &Cell{zeroVal(t)}
		m.globals[g] = c
		if !strings.HasPrefix(g.Pkg.Pkg.Path(), Mod) && types.Implements(t, errorIface) {
			c.V = m.mkErr(g.Pkg.Pkg.Name()+"."+g.Name(), nil)
		}
		m.init(g.Pkg)
	}
	return c
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (m *Machine) mkErr(msg string, wraps []any) any {
	return &VIface{T: types.Universe.Lookup("error").Type(), V: &VErr{msg, wraps}}
}

// Call folds a call of a function.
func (m *Machine) Call(fn *ssa.Function, args ...any) any {
	m.init(fn.Package())
	return m.call(fn, args, nil)
}

func (m *Machine) call(fn *ssa.Function, args []any, bind []any) any {
	if fn.Name() == "init" && fn.Parent() == nil && fn.Signature.Recv() == nil && !strings.HasPrefix(m.w.FnPkgPath(fn), Mod) {
		// a library package is initialised only when its body is used
		if m.initing != fn.Pkg || fn.Blocks == nil {
			return nil
		}
		m.initing = nil
	}
	if fn.Blocks == nil || !strings.HasPrefix(m.w.FnPkgPath(fn), Mod) {
		if fn.Synthetic == "" || fn.Blocks == nil || fn.Object() != nil && !strings.HasPrefix(m.w.FnPkgPath(fn), Mod) {
			if m.modelled(fn) || !m.pure(fn) {
				return m.native(fn, args)
			}
		}
	}
	if len(m.stack) > 300 {
		m.gopanic("stack overflow: unbounded recursion through %s", fn)
	}
	if fn.Pkg != nil && fn.Name() != "init" {
		m.init(fn.Pkg)
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		m.init(o.Pkg)
	}
	if m.Seen != nil {
		m.Seen[fn] = true
	}
	m.stack = append(m.stack, fn)
	m.where = append(m.where, token.NoPos)
	defer func() {
		if r := recover(); r != nil {
			panic(r)
		}
		m.stack = m.stack[:len(m.stack)-1]
		m.where = m.where[:len(m.where)-1]
	}()
	f := &frame{fn: fn, env: map[ssa.Value]any{}, bind: bind}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = cp(args[i])
		}
	}
	var prev *ssa.BasicBlock
	b := fn.Blocks[0]
	for b != nil {
		next := m.block(f, b, prev)
		prev, b = b, next
	}
	return f.ret
}

// pure makes the body of a standard library function available.
func (m *Machine) pure(fn *ssa.Function) bool {
	p := m.w.FnPkgPath(fn)
	if !pureLib[p] || m.w.SSA[p] == nil {
		return false
	}
	m.w.builtMu.Lock()
	if !m.w.built[p] {
		m.w.SSA[p].Build()
		m.w.built[p] = true
	}
	m.w.builtMu.Unlock()
	return fn.Blocks != nil
}

func (m *Machine) block(f *frame, b, prev *ssa.BasicBlock) *ssa.BasicBlock {
	// phis read their inputs in parallel
	var phis []any
	n := 0
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range b.Preds {
			if p == prev {
				phis = append(phis, m.get(f, ph.Edges[i]))
				break
			}
		}
		n++
	}
	for i := 0; i < n; i++ {
		f.env[b.Instrs[i].(*ssa.Phi)] = phis[i]
	}
	for _, in := range b.Instrs[n:] {
		m.steps++
		if m.steps > m.max {
			m.exhausted()
		}
		if p := in.Pos(); p.IsValid() {
			m.where[len(m.where)-1] = p
		}
		switch x := in.(type) {
		case *ssa.If:
			if m.get(f, x.Cond).(bool) {
				return b.Succs[0]
			}
			return b.Succs[1]
		case *ssa.Jump:
			return b.Succs[0]
		case *ssa.Return:
			switch len(x.Results) {
			case 0:
			case 1:
				f.ret = cp(m.get(f, x.Results[0]))
			default:
				var t VTuple
				for _, r := range x.Results {
					t = append(t, cp(m.get(f, r)))
				}
				f.ret = t
			}
			return nil
		case *ssa.Panic:
			m.gopanic("panic(%s)", m.show(m.get(f, x.X)))
		case *ssa.RunDefers:
			for i := len(f.defers) - 1; i >= 0; i-- {
				f.defers[i]()
			}
			f.defers = nil
		case *ssa.Defer:
			fn, args := m.callee(f, &x.Call)
			f.defers = append(f.defers, func() { m.apply(fn, args) })
		case *ssa.Store:
			c := m.deref(m.get(f, x.Addr))
			storeCell(c, m.get(f, x.Val))
		case *ssa.MapUpdate:
			mp, _ := m.get(f, x.Map).(*VMap)
			if mp == nil {
				m.gopanic("assignment to entry in nil map")
			}
			k := m.get(f, x.Key)
			mp.M[keyStr(k)] = &vment{k, cp(m.get(f, x.Value))}
		case *ssa.DebugRef:
		case ssa.Value:
			f.env[x] = m.value(f, x)
		default:
			unsup("instruction %T", in)
		}
	}
	return nil
}

func (m *Machine) show(v any) string {
	if i, ok := v.(*VIface); ok && i != nil {
		if s, ok := m.strOf(i.V, i.T); ok {
			return s
		}
		return m.show(i.V)
	}
	switch v.(type) {
	case string, int64, uint64, bool, float64:
		return fmt.Sprint(v)
	}
	return fmt.Sprintf("%T", v)
}

func (m *Machine) deref(v any) *Cell {
	c, ok := v.(*Cell)
	if !ok || c == nil {
		m.gopanic("nil pointer dereference")
	}
	return c
}

func (m *Machine) callee(f *frame, c *ssa.CallCommon) (any, []any) {
	var args []any
	if c.IsInvoke() {
		recv := m.get(f, c.Value)
		i, _ := recv.(*VIface)
		if i == nil {
			m.gopanic("nil interface method call (%s)", c.Method.Name())
		}
		for _, a := range c.Args {
			args = append(args, m.get(f, a))
		}
		if e, ok := i.V.(*VErr); ok {
			switch c.Method.Name() {
			case "Error":
				return &VFunc{Nat: func(*Machine, []any) any { return e.msg }}, nil
			}
		}
		fn := m.w.Prog.LookupMethod(i.T, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			unsup("method %s of %s", c.Method.Name(), i.T)
		}
		return &VFunc{Fn: fn}, append([]any{i.V}, args...)
	}
	for _, a := range c.Args {
		args = append(args, m.get(f, a))
	}
	return m.get(f, c.Value), args
}

func (m *Machine) apply(fn any, args []any) any {
	switch x := fn.(type) {
	case *VFunc:
		if x == nil {
			break
		}
		if x.Nat != nil {
			return x.Nat(m, args)
		}
		return m.call(x.Fn, args, x.Bind)
	}
	m.gopanic("call of a nil function")
	return nil
}

func (m *Machine) builtin(b *ssa.Builtin, args []any, c *ssa.CallCommon) any {
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case string:
			return int64(len(x))
		case *VSlice:
			return int64(len(x.E))
		case *VMap:
			return int64(len(x.M))
		case *VArr:
			return int64(len(x.E))
		case *Cell:
			return int64(len(x.V.(*VArr).E))
		case nil:
			return int64(0)
		}
	case "append":
		var e []*Cell
		if s, ok := args[0].(*VSlice); ok {
			e = s.E
		}
		e = e[:len(e):len(e)]
		switch s := args[1].(type) {
		case *VSlice:
			for _, c := range s.E {
				e = append(e, &Cell{cp(c.V)})
			}
		case string:
			for i := 0; i < len(s); i++ {
				e = append(e, &Cell{uint64(s[i])})
			}
		}
		if e == nil {
			return args[0]
		}
		return &VSlice{e}
	case "copy":
		d, _ := args[0].(*VSlice)
		n := 0
		if d == nil {
			return int64(0)
		}
		switch s := args[1].(type) {
		case *VSlice:
			for n < len(d.E) && n < len(s.E) {
				storeCell(d.E[n], s.E[n].V)
				n++
			}
		case string:
			for n < len(d.E) && n < len(s) {
				d.E[n].V = uint64(s[n])
				n++
			}
		}
		return int64(n)
	case "delete":
		if mp, ok := args[0].(*VMap); ok {
			delete(mp.M, keyStr(args[1]))
		}
		return nil
	case "clear":
		if mp, ok := args[0].(*VMap); ok {
			mp.M = map[string]*vment{}
		}
		return nil
	case "recover":
		return nil
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			lt := cmpVal(a, r) < 0
			if lt == (b.Name() == "min") {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if args[0] == nil {
			m.gopanic("nil pointer dereference (value method called through nil pointer)")
		}
		return args[0]
	}
	unsup("builtin %s", b.Name())
	return nil
}

func cmpVal(a, b any) int {
	switch x := a.(type) {
	case int64:
		y := b.(int64)
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	case uint64:
		y := b.(uint64)
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	case float64:
		y := b.(float64)
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	case string:
		return strings.Compare(x, b.(string))
	}
	unsup("comparison of %T", a)
	return 0
}

func (m *Machine) value(f *frame, v ssa.Value) any {
	switch x := v.(type) {
	case *ssa.Alloc:
		return &Cell{zeroVal(x.Type().(*types.Pointer).Elem())}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			var args []any
			for _, a := range x.Call.Args {
				args = append(args, m.get(f, a))
			}
			return m.builtin(b, args, &x.Call)
		}
		fn, args := m.callee(f, &x.Call)
		return m.apply(fn, args)
	case *ssa.BinOp:
		return m.binop(x, m.get(f, x.X), m.get(f, x.Y))
	case *ssa.UnOp:
		a := m.get(f, x.X)
		switch x.Op {
		case token.MUL:
			return cp(m.deref(a).V)
		case token.NOT:
			return !a.(bool)
		case token.SUB:
			switch y := a.(type) {
			case int64:
				return wrapInt(-y, x.Type())
			case uint64:
				return wrapInt(int64(-y), x.Type())
			case float64:
				return -y
			}
		case token.XOR:
			switch y := a.(type) {
			case int64:
				return wrapInt(^y, x.Type())
			case uint64:
				return wrapInt(int64(^y), x.Type())
			}
		}
		unsup("unary %s", x.Op)
	case *ssa.FieldAddr:
		c := m.deref(m.get(f, x.X))
		s, ok := c.V.(*VStruct)
		if !ok {
			unsup("field of %T", c.V)
		}
		return s.F[x.Field]
	case *ssa.Field:
		return cp(m.get(f, x.X).(*VStruct).F[x.Field].V)
	case *ssa.IndexAddr:
		var e []*Cell
		switch y := m.get(f, x.X).(type) {
		case *VSlice:
			e = y.E
		case *Cell:
			e = y.V.(*VArr).E
		}
		i := toInt(m.get(f, x.Index))
		if i < 0 || i >= int64(len(e)) {
			m.gopanic("index out of range [%d] with length %d", i, len(e))
		}
		return e[i]
	case *ssa.Index:
		i := toInt(m.get(f, x.Index))
		switch y := m.get(f, x.X).(type) {
		case string:
			if i < 0 || i >= int64(len(y)) {
				m.gopanic("index out of range [%d] with length %d", i, len(y))
			}
			return uint64(y[i])
		case *VArr:
			if i < 0 || i >= int64(len(y.E)) {
				m.gopanic("index out of range [%d]", i)
			}
			return cp(y.E[i].V)
		}
	case *ssa.Lookup:
		switch y := m.get(f, x.X).(type) {
		case string:
			i := toInt(m.get(f, x.Index))
			if i < 0 || i >= int64(len(y)) {
				m.gopanic("index out of range [%d] with length %d", i, len(y))
			}
			return uint64(y[i])
		default:
			var e *vment
			if mp, ok := y.(*VMap); ok {
				e = mp.M[keyStr(m.get(f, x.Index))]
			}
			var r any
			if e != nil {
				r = cp(e.v)
			} else {
				r = zeroVal(x.X.Type().Underlying().(*types.Map).Elem())
			}
			if x.CommaOk {
				return VTuple{r, e != nil}
			}
			return r
		}
	case *ssa.Extract:
		return m.get(f, x.Tuple).(VTuple)[x.Index]
	case *ssa.MakeClosure:
		var b []any
		for _, bv := range x.Bindings {
			b = append(b, m.get(f, bv))
		}
		return &VFunc{Fn: x.Fn.(*ssa.Function), Bind: b}
	case *ssa.MakeMap:
		return &VMap{M: map[string]*vment{}}
	case *ssa.MakeSlice:
		n := toInt(m.get(f, x.Len))
		s := &VSlice{E: []*Cell{}}
		et := x.Type().Underlying().(*types.Slice).Elem()
		for i := int64(0); i < n; i++ {
			s.E = append(s.E, &Cell{zeroVal(et)})
		}
		return s
	case *ssa.Slice:
		return m.slice(f, x)
	case *ssa.MakeInterface:
		return &VIface{T: x.X.Type(), V: cp(m.get(f, x.X))}
	case *ssa.ChangeInterface:
		return m.get(f, x.X)
	case *ssa.ChangeType:
		r := m.get(f, x.X)
		if s, ok := r.(*VStruct); ok {
			s = cp(s).(*VStruct)
			s.T = x.Type()
			return s
		}
		return r
	case *ssa.Convert:
		return m.convert(m.get(f, x.X), x.X.Type(), x.Type())
	case *ssa.TypeAssert:
		i, _ := m.get(f, x.X).(*VIface)
		ok := false
		var r any
		if i != nil {
			if types.IsInterface(x.AssertedType) {
				if _, isErr := i.V.(*VErr); isErr {
					ok = types.Implements(i.T, x.AssertedType.Underlying().(*types.Interface))
				} else {
					ok = types.Implements(i.T, x.AssertedType.Underlying().(*types.Interface))
				}
				if ok {
					r = i
				}
			} else if types.Identical(i.T, x.AssertedType) {
				ok, r = true, cp(i.V)
			}
		}
		if !ok {
			if !x.CommaOk {
				d := "nil"
				if i != nil {
					d = i.T.String()
				}
				m.gopanic("interface conversion: %s is not %s", d, x.AssertedType)
			}
			r = zeroVal(x.AssertedType)
		}
		if x.CommaOk {
			return VTuple{r, ok}
		}
		return r
	case *ssa.Range:
		switch y := m.get(f, x.X).(type) {
		case *VMap:
			ents := y.sorted()
			if m.Order != nil {
				m.ranges++
				ents = m.Order(ents, m.ranges)
			}
			if m.Ranged != nil && len(ents) > 1 {
				m.Ranged[x] = true
			}
			return &rangeIter{ents: ents}
		case string:
			return &rangeIter{str: y, isStr: true}
		default:
			return &rangeIter{}
		}
	case *ssa.Next:
		it := m.get(f, x.Iter).(*rangeIter)
		if it.isStr {
			for i, r := range it.str[it.i:] {
				_ = i
				k := it.i
				n := len(string(r))
				if r == '\uFFFD' {
					n = 1
				}
				it.i += n
				return VTuple{true, int64(k), int64(r)}
			}
			return VTuple{false, int64(0), int64(0)}
		}
		if it.i < len(it.ents) {
			e := it.ents[it.i]
			it.i++
			return VTuple{true, e.k, cp(e.v)}
		}
		tt := x.Type().(*types.Tuple)
		var k, vv any
		if tt.At(1).Type() != types.Typ[types.Invalid] {
			k = zeroVal(tt.At(1).Type())
		}
		if tt.At(2).Type() != types.Typ[types.Invalid] {
			vv = zeroVal(tt.At(2).Type())
		}
		return VTuple{false, k, vv}
	}
	unsup("instruction %T", v)
	return nil
}

type rangeIter struct {
	ents  []*vment
	str   string
	isStr bool
	i     int
}

func toInt(v any) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case uint64:
		return int64(x)
	}
	unsup("integer expected, got %T", v)
	return 0
}

func (m *Machine) slice(f *frame, x *ssa.Slice) any {
	lo, hi := int64(0), int64(-1)
	if x.Low != nil {
		lo = toInt(m.get(f, x.Low))
	}
	if x.High != nil {
		hi = toInt(m.get(f, x.High))
	}
	chk := func(n int64) {
		if hi < 0 && x.High == nil {
			hi = n
		}
		if lo < 0 || hi < lo || hi > n {
			m.gopanic("slice bounds out of range [%d:%d] with length %d", lo, hi, n)
		}
	}
	switch y := m.get(f, x.X).(type) {
	case string:
		chk(int64(len(y)))
		return y[lo:hi]
	case *VSlice:
		chk(int64(len(y.E)))
		return &VSlice{y.E[lo:hi]}
	case *Cell:
		a := y.V.(*VArr)
		chk(int64(len(a.E)))
		return &VSlice{a.E[lo:hi]}
	case nil:
		chk(0)
		return nil
	}
	unsup("slice of unexpected value")
	return nil
}

func (m *Machine) convert(v any, from, to types.Type) any {
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		switch {
		case tb.Info()&types.IsString != 0:
			switch x := v.(type) {
			case string:
				return x
			case int64:
				return string(rune(x))
			case uint64:
				return string(rune(x))
			case *VSlice:
				et := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
				if et.Kind() == types.Uint8 {
					return string(bytesOf(x))
				}
				var rs []rune
				for _, c := range x.E {
					rs = append(rs, rune(c.V.(int64)))
				}
				return string(rs)
			case nil:
				return ""
			}
		case tb.Info()&types.IsInteger != 0:
			switch x := v.(type) {
			case int64:
				return wrapInt(x, to)
			case uint64:
				return wrapIntTo(int64(x), tb)
			case float64:
				return wrapIntTo(int64(x), tb)
			}
		case tb.Info()&types.IsFloat != 0:
			switch x := v.(type) {
			case int64:
				return float64(x)
			case uint64:
				return float64(x)
			case float64:
				if tb.Kind() == types.Float32 {
					return float64(float32(x))
				}
				return x
			}
		}
	}
	if ts, ok := tu.(*types.Slice); ok {
		if s, ok := v.(string); ok {
			if ts.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
				return bytesVal([]byte(s))
			}
			out := &VSlice{E: []*Cell{}}
			for _, r := range s {
				out.E = append(out.E, &Cell{int64(r)})
			}
			return out
		}
		return v
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

func wrapIntTo(v int64, b *types.Basic) any {
	if b.Info()&types.IsUnsigned != 0 {
		return wrapInt(v, b)
	}
	r := wrapInt(v, b)
	if u, ok := r.(uint64); ok {
		return int64(u)
	}
	return r
}

func bytesVal(b []byte) *VSlice {
	cells := make([]Cell, len(b))
	s := &VSlice{E: make([]*Cell, len(b))}
	for i := range b {
		cells[i].V = uint64(b[i])
		s.E[i] = &cells[i]
	}
	return s
}

func bytesOf(v any) []byte {
	s, _ := v.(*VSlice)
	if s == nil {
		return nil
	}
	b := make([]byte, len(s.E))
	for i, c := range s.E {
		b[i] = byte(c.V.(uint64))
	}
	return b
}

func strsVal(ss []string) any {
	if ss == nil {
		return nil
	}
	s := &VSlice{E: []*Cell{}}
	for _, x := range ss {
		s.E = append(s.E, &Cell{x})
	}
	return s
}

func strsOf(v any) []string {
	s, _ := v.(*VSlice)
	if s == nil {
		return nil
	}
	out := []string{}
	for _, c := range s.E {
		out = append(out, c.V.(string))
	}
	return out
}

func (m *Machine) binop(x *ssa.BinOp, a, b any) any {
	switch x.Op {
	case token.EQL:
		return eqVal(a, b)
	case token.NEQ:
		return !eqVal(a, b)
	case token.LSS:
		return cmpVal(a, b) < 0
	case token.LEQ:
		return cmpVal(a, b) <= 0
	case token.GTR:
		return cmpVal(a, b) > 0
	case token.GEQ:
		return cmpVal(a, b) >= 0
	}
	if s, ok := a.(string); ok && x.Op == token.ADD {
		return s + b.(string)
	}
	if p, ok := a.(float64); ok {
		q := b.(float64)
		switch x.Op {
		case token.ADD:
			return p + q
		case token.SUB:
			return p - q
		case token.MUL:
			return p * q
		case token.QUO:
			return p / q
		}
		return math.NaN()
	}
	_, uns := a.(uint64)
	p, q := toInt(a), toInt(b)
	var r int64
	switch x.Op {
	case token.ADD:
		r = p + q
	case token.SUB:
		r = p - q
	case token.MUL:
		r = p * q
	case token.QUO, token.REM:
		if q == 0 {
			m.gopanic("integer divide by zero")
		}
		switch {
		case uns && x.Op == token.QUO:
			r = int64(uint64(p) / uint64(q))
		case uns:
			r = int64(uint64(p) % uint64(q))
		case x.Op == token.QUO:
			r = p / q
		default:
			r = p % q
		}
	case token.AND:
		r = p & q
	case token.OR:
		r = p | q
	case token.XOR:
		r = p ^ q
	case token.AND_NOT:
		r = p &^ q
	case token.SHL:
		r = p << uint64(q)
	case token.SHR:
		if uns {
			r = int64(uint64(p) >> uint64(q))
		} else {
			r = p >> uint64(q)
		}
	default:
		unsup("operator %s", x.Op)
	}
	return wrapInt(r, x.Type())
}
