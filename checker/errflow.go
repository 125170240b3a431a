package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Forward propagation of "this call failed" through the control-flow graph of
// the function that made the call: from the call on, its error is known not to
// be nil, every condition that depends on it is decided, the others are taken
// both ways, and each way out of the function must report a failure.

type nilness byte

const (
	nUnknown nilness = iota
	nNil
	nNonNil
)

type errWalk struct {
	w     *World
	f     *ssa.Function
	call  ssa.CallInstruction // the failing call, or nil
	param *ssa.Parameter      // or the parameter known to be non-nil
	memo  map[string]bool
	bad   ssa.Instruction // first way out that reports no failure
	out   int             // ways out examined
	depth int
	over  bool
}

func errResultIndex(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && isErrorType(sig.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

type errEnv map[ssa.Value]nilness // phis, loads and tested values; allocs: their content

func (ew *errWalk) isE(v ssa.Value) bool {
	if ew.param != nil {
		return v == ew.param
	}
	c, ok := ew.call.(*ssa.Call)
	if !ok {
		return false
	}
	if v == ssa.Value(c) {
		return isErrorType(c.Type())
	}
	x, ok := v.(*ssa.Extract)
	return ok && x.Tuple == ssa.Value(c) && x.Index == errResultIndex(c.Common().Signature())
}

func (ew *errWalk) val(v ssa.Value, env errEnv) nilness {
	if s, ok := env[v]; ok {
		return s
	}
	if ew.isE(v) && env[nil] != nNil {
		return nNonNil
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return nNil
		}
		return nNonNil
	case *ssa.MakeInterface, *ssa.Alloc:
		return nNonNil
	case *ssa.ChangeInterface:
		return ew.val(x.X, env)
	case *ssa.ChangeType:
		return ew.val(x.X, env)
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && isErrorType(x.Type()) {
			_ = g
			return nNonNil // the package's error values
		}
	case *ssa.Call:
		return ew.wraps(x, -1, env)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return ew.wraps(c, x.Index, env)
		}
	}
	return nUnknown
}

// wraps: the call makes a non-nil error of the one it is given.
func (ew *errWalk) wraps(c *ssa.Call, i int, env errEnv) nilness {
	callee := c.Common().StaticCallee()
	if callee == nil {
		return nUnknown
	}
	switch callee.String() {
	case "fmt.Errorf", "errors.New":
		return nNonNil
	case "errors.Join":
		for _, v := range variadic(c.Common().Args) {
			if ew.val(v, env) == nNonNil {
				return nNonNil
			}
		}
		return nUnknown
	}
	if len(callee.Blocks) == 0 || ew.depth > 3 {
		return nUnknown
	}
	ri := errResultIndex(callee.Signature)
	if ri < 0 || i >= 0 && i != ri {
		return nUnknown
	}
	if alwaysFails(callee) {
		return nNonNil
	}
	for k, a := range c.Common().Args {
		if k < len(callee.Params) && isErrorType(callee.Params[k].Type()) && ew.val(a, env) == nNonNil {
			sub := &errWalk{w: ew.w, f: callee, param: callee.Params[k], memo: map[string]bool{}, depth: ew.depth + 1}
			sub.run()
			if sub.bad == nil && !sub.over && sub.out > 0 {
				return nNonNil
			}
		}
	}
	return nUnknown
}

// variadic lists what is put in the slice of a variadic call.
func variadic(args []ssa.Value) (out []ssa.Value) {
	if len(args) == 0 {
		return
	}
	s, ok := args[len(args)-1].(*ssa.Slice)
	if !ok {
		return
	}
	a, ok := s.X.(*ssa.Alloc)
	if !ok {
		return
	}
	for _, r := range *a.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, q := range *ia.Referrers() {
				if st, ok := q.(*ssa.Store); ok {
					out = append(out, st.Val)
				}
			}
		}
	}
	return
}

func (ew *errWalk) run() {
	if ew.param != nil {
		ew.walk(ew.f.Blocks[0], 0, nil, errEnv{})
		return
	}
	b := ew.call.Block()
	for k, i := range b.Instrs {
		if i == ssa.Instruction(ew.call) {
			ew.walk(b, k+1, nil, errEnv{})
		}
	}
}

func (e errEnv) key() string {
	var ks []string
	for v, s := range e {
		n := "E"
		if v != nil {
			n = v.Name()
		}
		ks = append(ks, fmt.Sprintf("%s=%d", n, s))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func (e errEnv) with(v ssa.Value, s nilness) errEnv {
	n := make(errEnv, len(e)+1)
	for k, x := range e {
		n[k] = x
	}
	n[v] = s
	return n
}

func (ew *errWalk) walk(b *ssa.BasicBlock, from int, pred *ssa.BasicBlock, env errEnv) {
	if ew.bad != nil || ew.over {
		return
	}
	if from == 0 {
		k := fmt.Sprintf("%d<%v|%s", b.Index, idx(pred), env.key())
		if ew.memo[k] {
			return
		}
		ew.memo[k] = true
		if len(ew.memo) > 20000 {
			ew.over = true
			return
		}
		// phis read their edges all at once
		upd := env
		for _, i := range b.Instrs {
			p, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			if !tracked(p.Type()) {
				continue
			}
			for k, q := range b.Preds {
				if q == pred {
					upd = upd.with(p, ew.val(p.Edges[k], env))
				}
			}
		}
		env = upd
	}
	for _, i := range b.Instrs[from:] {
		switch x := i.(type) {
		case *ssa.Store:
			if a, ok := x.Addr.(*ssa.Alloc); ok && tracked(x.Val.Type()) {
				env = env.with(a, ew.val(x.Val, env))
				env[a] |= 0
			} else if _, free := x.Addr.(*ssa.FreeVar); free && tracked(x.Val.Type()) && ew.val(x.Val, env) == nNonNil {
				// the enclosing function's variable
				ew.out++
				return
			} else if ew.isE(x.Val) && env[nil] != nNil && !isVarargSlot(x.Addr) {
				ew.out++ // kept in an object: not followed further
				return
			}
		case *ssa.UnOp:
			if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && tracked(x.Type()) {
				s, known := env[a]
				if !known {
					s = nUnknown
				}
				env = env.with(x, s)
			}
		case *ssa.Send:
			if ew.isE(x.X) {
				ew.out++
				return
			}
		case *ssa.RunDefers:
			for a := range env {
				if al, ok := a.(*ssa.Alloc); ok && deferredWrite(ew.f, al) {
					env = env.with(al, nUnknown)
				}
			}
		case ssa.CallInstruction:
			if i == ssa.Instruction(ew.call) {
				env = env.with(nil, nNil) // made again: its former error is gone
				if v, ok := x.(*ssa.Call); ok {
					env = env.with(v, nUnknown)
				}
			}
			if exits(x) {
				ew.out++
				return
			}
			if collects(x) {
				for _, v := range variadic(x.Common().Args) {
					if ew.isE(v) && env[nil] != nNil {
						ew.out++
						return
					}
				}
			}
		case *ssa.Panic:
			ew.out++
			return
		case *ssa.Return:
			ew.out++
			ri := errResultIndex(ew.f.Signature)
			if ri < 0 || ew.val(x.Results[ri], env) != nNonNil {
				ew.bad = x
			}
			return
		case *ssa.Jump:
			ew.walk(b.Succs[0], 0, b, env)
			return
		case *ssa.If:
			v, whenTrue, ok := nilTest(x.Cond)
			if !ok {
				if c, isC := x.Cond.(*ssa.Const); isC && c.Value != nil && c.Value.Kind() == constant.Bool {
					if constant.BoolVal(c.Value) {
						ew.walk(b.Succs[0], 0, b, env)
					} else {
						ew.walk(b.Succs[1], 0, b, env)
					}
					return
				}
				ew.walk(b.Succs[0], 0, b, env)
				ew.walk(b.Succs[1], 0, b, env)
				return
			}
			s := ew.val(v, env)
			for k, got := range []nilness{whenTrue, opposite(whenTrue)} {
				if s != nUnknown && s != got {
					continue
				}
				e := env
				if s == nUnknown && tracked(v.Type()) {
					e = env.with(v, got)
				}
				ew.walk(b.Succs[k], 0, b, e)
			}
			return
		}
	}
}

func opposite(n nilness) nilness {
	if n == nNil {
		return nNonNil
	}
	return nNil
}

func idx(b *ssa.BasicBlock) int {
	if b == nil {
		return -1
	}
	return b.Index
}

func tracked(t types.Type) bool { return isErrorType(t) }

// nilTest: a condition comparing a value with nil.
func nilTest(c ssa.Value) (v ssa.Value, whenTrue nilness, ok bool) {
	bo, isBin := c.(*ssa.BinOp)
	if !isBin || bo.Op != token.EQL && bo.Op != token.NEQ {
		if u, isNot := c.(*ssa.UnOp); isNot && u.Op == token.NOT {
			v, t, ok := nilTest(u.X)
			return v, opposite(t), ok
		}
		return nil, nUnknown, false
	}
	x, y := bo.X, bo.Y
	if k, isC := x.(*ssa.Const); isC && k.IsNil() {
		x, y = y, x
	}
	k, isC := y.(*ssa.Const)
	if !isC || !k.IsNil() {
		return nil, nUnknown, false
	}
	if bo.Op == token.EQL {
		return x, nNil, true
	}
	return x, nNonNil, true
}

// isVarargSlot: the address of an element of an array made for a call.
func isVarargSlot(a ssa.Value) bool {
	ia, ok := a.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	_, ok = ia.X.(*ssa.Alloc)
	return ok
}

// collects: the error is put in a list of errors.
func collects(c ssa.CallInstruction) bool {
	b, ok := c.Common().Value.(*ssa.Builtin)
	return ok && b.Name() == "append"
}

// exits: the call ends the process with a failure.
func exits(c ssa.CallInstruction) bool {
	f := c.Common().StaticCallee()
	if f == nil {
		return false
	}
	switch f.String() {
	case "os.Exit":
		k, ok := c.Common().Args[0].(*ssa.Const)
		return ok && k.Value != nil && constant.Sign(k.Value) != 0
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln":
		return true
	}
	return false
}

// deferredWrite: a deferred closure of f may change the variable.
func deferredWrite(f *ssa.Function, a *ssa.Alloc) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			d, ok := i.(*ssa.Defer)
			if !ok {
				continue
			}
			mc, ok := d.Call.Value.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			fn := mc.Fn.(*ssa.Function)
			for k, bd := range mc.Bindings {
				if bd != ssa.Value(a) {
					continue
				}
				for _, r := range *fn.FreeVars[k].Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(fn.FreeVars[k]) {
						return true
					}
				}
			}
		}
	}
	return false
}

// alwaysFails: every return of the function gives a non-nil error made on the spot.
func alwaysFails(f *ssa.Function) bool {
	ri := errResultIndex(f.Signature)
	n := 0
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if r, ok := i.(*ssa.Return); ok {
				n++
				switch x := r.Results[ri].(type) {
				case *ssa.MakeInterface:
				case *ssa.Call:
					c := x.Common().StaticCallee()
					if c == nil || c.String() != "fmt.Errorf" && c.String() != "errors.New" {
						return false
					}
				default:
					return false
				}
			}
		}
	}
	return n > 0
}

// calleeName names what a call runs, for reports.
func calleeName(c *ssa.CallCommon) string {
	if f := c.StaticCallee(); f != nil {
		return f.String()
	}
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	return "a function value of type " + types.TypeString(c.Value.Type(), nil)
}

// harmless: an error nobody can act on.
func harmless(name string) bool {
	for _, p := range []string{"fmt.Fprint", "fmt.Print", "(*bytes.Buffer).", "(*strings.Builder)."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return strings.HasSuffix(name, ").Close") || strings.HasSuffix(name, ").Flush") && false
}

// intoMemory: the call writes to a buffer through the interface of writers.
func intoMemory(c *ssa.CallCommon) bool {
	if f := c.StaticCallee(); f == nil || f.String() != "io.WriteString" || len(c.Args) == 0 {
		return false
	}
	switch unwrapValue(c.Args[0]).Type().String() {
	case "*bytes.Buffer", "*strings.Builder":
		return true
	}
	return false
}

// errorsReported checks each fallible call of the functions.
func (r *Report) errorsReported(fns []*ssa.Function) {
	for _, f := range fns {
		r.Count("functions examined", 1)
		seen := map[string]int{}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(*ssa.Call); ok {
					if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
						r.Fail("recover:"+f.String(), i.Pos(), "%s recovers from panics: what becomes of the failure is not decided", f)
					}
				}
				c, ok := i.(ssa.CallInstruction)
				if !ok || errResultIndex(c.Common().Signature()) < 0 {
					continue
				}
				name := calleeName(c.Common())
				if harmless(name) || intoMemory(c.Common()) {
					continue
				}
				r.Count("fallible calls", 1)
				seen[name]++
				key := fmt.Sprintf("dropped:%s:%s:%d", f, name, seen[name])
				if _, plain := i.(*ssa.Call); !plain {
					r.Fail(key, i.Pos(), "%s calls %s with go or defer: its error is lost", f, name)
					continue
				}
				ew := &errWalk{w: r.W, f: f, call: c, memo: map[string]bool{}}
				ew.run()
				r.Count("ways out after a failure", ew.out)
				switch {
				case ew.over:
					r.Fail("undecided:"+key, i.Pos(), "the ways out of %s after a failure of %s are too many", f, name)
				case ew.bad != nil:
					r.Fail(key, i.Pos(), "when %s fails, %s may still return without an error, at %s", name, f, r.W.PosStr(ew.bad.Pos()))
				}
			}
		}
	}
}
