package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// C19: controllers start in a usable state, or not at all. The constructors the templates
// make are interpreted with no broker, and with every sequence of up to three options; the
// fields of the controller that results are compared with what the options are called for.

func init() {
	register("C19", "constant propagation of the generator over the document shapes; then path-sensitive interpretation of every folded constructor, with a nil broker and with every sequence of up to three options (each option twice with different values), over the options' closures and the runtime library's defaults: the error for a nil broker, non-nil logger, error handler and subscription storage, the value of the last option of each aspect and no other; and of every SubscribeToAllChannels with a nil subscriber: an error and no subscription", ruleConstructors)
}

// An aspect of a controller is one of its fields.
type aspect struct {
	name string
	path []int // fields to go through
	typ  types.Type
}

func aspectsOf(t types.Type) (out []aspect) {
	var rec func(t types.Type, path []int)
	rec = func(t types.Type, path []int) {
		st := structOf(t)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			p := append(append([]int{}, path...), i)
			ft := st.Field(i).Type()
			if _, ok := ft.Underlying().(*types.Struct); ok && st.Field(i).Embedded() {
				rec(ft, p)
				continue
			}
			out = append(out, aspect{name: st.Field(i).Name(), path: p, typ: ft})
		}
	}
	rec(t, nil)
	return
}

// ctrlOption is an option of the generated code, with the value it is given.
type ctrlOption struct {
	name string
	fn   *Term // the closure
	val  *Term
}

func ruleConstructors(r *Report) {
	r.ctrlSides(func(cw *ctrlWorld, side string, ops []*docOp) {
		f := cw.ctors[side]
		if f == nil {
			r.FailAt("ctor:"+cw.x.Shape.key()+side, cw.x.Shape.key(), "there is no constructor for %sController", side)
			return
		}
		r.constructed(cw, side, f)
		for _, o := range cw.ops {
			if o.side == side && o.kind == "suball" {
				r.subscribeAll(cw, o)
			}
		}
	})
	r.defaults()
	r.Floor("constructors", 70)
	r.Floor("options", 200)
	r.Floor("constructions without a broker", 70)
	r.Floor("constructions", 10000)
	r.Floor("subscriptions without a subscriber", 30)
}

// sure: the value cannot be nil.
func (r *Report) sure(in *Interp, t *Trace, v *Term, depth int) bool {
	if v == nil || v.IsNil() || depth > 5 {
		return false
	}
	if isNil, known := t.IsNilTerm(v); known {
		return !isNil
	}
	if in.T.NonNil(v) {
		return true
	}
	switch v.Op {
	case "struct", "alloc", "closure", "func", "makemap", "list":
		return true
	case "call":
		return t.nonNilErr(v)
	case "load":
		return false
	}
	if v.Fn != nil {
		return true
	}
	if _, ok := v.Typ.Underlying().(*types.Struct); ok {
		return true
	}
	return false
}

// unsetErrors lists the errors kept in package-level variables that do not hold one
// error once and for all: nothing is stored in them by the initialisation of the package,
// or nil is, or something is stored later.
func (w *World) unsetErrors() map[string]bool {
	out := map[string]bool{}
	stores, wrong := map[ssa.Value]int{}, map[ssa.Value]bool{}
	for f := range ssautil.AllFunctions(w.Prog) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				stores[g]++
				c, isConst := s.Val.(*ssa.Const)
				if f != g.Pkg.Func("init") || isConst && c.IsNil() {
					wrong[g] = true
				}
			}
		}
	}
	for _, p := range w.Repo {
		for _, m := range w.SSA[p.PkgPath].Members {
			if g, ok := m.(*ssa.Global); ok && isErrType(elemType(g.Type())) && (stores[g] == 0 || wrong[g]) {
				out[g.String()] = true
			}
		}
	}
	return out
}

func (r *Report) ctorInterp() *Interp {
	in := r.Interp()
	in.Derefs = true
	in.Traps = true
	return in
}

func (in *Interp) crash(t *Trace) string {
	if w := in.wildAccess(t); w != "" {
		return w
	}
	for _, e := range t.Events {
		if e.Kind == EvTrap {
			return e.Val.String()
		}
	}
	if t.Exit != "return" {
		return "it does not return: " + t.Exit
	}
	return ""
}

func (r *Report) constructed(cw *ctrlWorld, side string, f *ssa.Function) {
	x := cw.x
	id := x.Pkg.Path() + side
	where := x.Shape.key()
	said := map[string]bool{}
	bad := func(format string, a ...any) {
		msg := fmt.Sprintf(format, a...)
		if !said[msg] {
			said[msg] = true
			r.FailAt(where+":"+f.Name()+":"+msg, where, "%s.%s: %s", x.Shape.key(), f.Name(), msg)
		}
	}
	r.Count("constructors", 1)
	if len(f.Params) != 2 || !f.Signature.Variadic() || f.Signature.Results().Len() != 2 {
		bad("its signature is %s", f.Signature)
		return
	}
	in := r.ctorInterp()
	ot := f.Signature.Params().At(1).Type().(*types.Slice).Elem()
	ptr, _ := f.Signature.Results().At(0).Type().(*types.Pointer)
	if ptr == nil {
		bad("its signature is %s", f.Signature)
		return
	}
	ct := ptr.Elem()
	asp := aspectsOf(ct)

	// the options, each with two different values
	type kind struct {
		name string
		of   int // the aspect it is about
		vals []ctrlOption
	}
	var kinds []kind
	init := map[*Term]*Term{}
	for _, n := range []struct{ fn, typ string }{{"WithLogger", "Logger"}, {"WithMiddlewares", "Middleware"}, {"WithErrorHandler", "ErrorHandler"}} {
		of := r.W.Func(x.Pkg.Path(), n.fn)
		if of == nil || len(of.Params) != 1 {
			bad("there is no option %s", n.fn)
			continue
		}
		r.Count("options", 1)
		k := kind{name: n.fn, of: -1}
		for i, a := range asp {
			at := a.typ
			if s, ok := at.Underlying().(*types.Slice); ok {
				at = s.Elem()
			}
			if isExtType(at, n.typ) {
				k.of = i
			}
		}
		if k.of < 0 {
			bad("the controller has no %s", n.typ)
			continue
		}
		for _, v := range []string{"first", "second"} {
			pt := of.Params[0].Type()
			val := in.T.Sym("nonnil:"+v+":"+n.fn+id, pt)
			if s, ok := pt.Underlying().(*types.Slice); ok {
				val = in.T.mk("list", "", pt, in.T.Sym("nonnil:"+v+":a:"+n.fn+id, s.Elem()), in.T.Sym("nonnil:"+v+":b:"+n.fn+id, s.Elem()))
			}
			got := 0
			for _, t := range in.Run(of, []*Term{val}, nil, nil) {
				if c := in.crash(t); c != "" || len(t.Ret) != 1 || t.Ret[0].Fn == nil {
					bad("%s gives no option: %s", n.fn, c)
					continue
				}
				got++
				for a, b := range t.Mem {
					init[a] = b
				}
				// each option has its own variables
				o := t.Ret[0]
				if o.Op == "closure" {
					var bind []*Term
					for i, b := range o.Args {
						if b.Op == "alloc" {
							own := in.T.Sym(fmt.Sprintf("nonnil:own:%d:%s:%s%s", i, v, n.fn, id), b.Typ)
							init[own] = in.Load(&Config{mem: t.Mem, facts: t.Facts}, b, elemType(b.Typ))
							b = own
						}
						bind = append(bind, b)
					}
					fn := o.Fn
					o = in.T.mk("closure", o.Aux, o.Typ, bind...)
					o.Fn = fn
				}
				k.vals = append(k.vals, ctrlOption{name: n.fn + "(" + v + ")", fn: o, val: val})
			}
			if got == 0 {
				bad("%s gives no option", n.fn)
			}
		}
		kinds = append(kinds, k)
	}

	run := func(broker *Term, opts []*Term) []*Trace {
		c := &Config{mem: map[*Term]*Term{}, facts: map[*Term]bool{}}
		for a, b := range init {
			c.mem[a] = b
		}
		list := in.T.mk("list", "", types.NewSlice(ot), opts...)
		if len(opts) == 0 {
			list = in.T.Nil()
		}
		return in.Run(f, []*Term{broker, list}, nil, c)
	}

	// without a broker
	for _, k := range append([]kind{{}}, kinds...) {
		var opts []*Term
		if len(k.vals) > 0 {
			opts = []*Term{k.vals[0].fn}
		}
		n := 0
		for _, t := range run(in.T.Nil(), opts) {
			n++
			r.Count("constructions without a broker", 1)
			if c := in.crash(t); c != "" || len(t.Ret) != 2 {
				bad("without a broker, it crashes: %s", c)
				continue
			}
			if !r.sure(in, t, t.Ret[1], 0) {
				bad("without a broker, it may return no error")
			}
			if !t.Ret[0].IsNil() {
				bad("without a broker, it returns a controller")
			}
		}
		if n == 0 {
			bad("without a broker, nothing is returned")
		}
	}

	// with a broker, and options
	broker := in.T.Sym("nonnil:broker:"+id, f.Params[0].Type())
	type step struct{ kind, val int }
	var seqs [][]step
	var rec func(p []step)
	rec = func(p []step) {
		seqs = append(seqs, append([]step{}, p...))
		if len(p) == 3 {
			return
		}
		for i, k := range kinds {
			for j := range k.vals {
				rec(append(p, step{i, j}))
			}
		}
	}
	rec(nil)
	for _, seq := range seqs {
		var fs []*Term
		var names []string
		last := map[int]*Term{}
		for _, s := range seq {
			o := kinds[s.kind].vals[s.val]
			fs = append(fs, o.fn)
			names = append(names, o.name)
			last[kinds[s.kind].of] = o.val
		}
		with := "with no option"
		if len(seq) > 0 {
			with = "with " + strings.Join(names, ", ")
		}
		n := 0
		for _, t := range run(broker, fs) {
			r.Count("constructions", 1)
			if c := in.crash(t); c != "" || len(t.Ret) != 2 {
				bad("%s, it crashes: %s", with, c)
				continue
			}
			n++
			if isNil, known := t.errNil(t.Ret[1]); !t.Ret[1].IsNil() && !(known && isNil) {
				bad("%s, it may fail", with)
				continue
			}
			if !r.sure(in, t, t.Ret[0], 0) {
				bad("%s, it may return no controller", with)
				continue
			}
			c := &Config{mem: t.Mem, facts: t.Facts}
			get := func(i int) *Term {
				a, typ := t.Ret[0], ct
				for _, p := range asp[i].path {
					a = in.T.FieldAddr(a, typ, p)
					typ = structOf(typ).Field(p).Type()
				}
				return in.Load(c, a, typ)
			}
			for i, a := range asp {
				v := get(i)
				want, set := last[i]
				switch {
				case set:
					if v != want && !sameList(in, c, v, want) {
						bad("%s, the controller's %s is not the one given last", with, a.name)
					}
				case isExtType(a.typ, "BrokerController"):
					if v != broker {
						bad("%s, the controller's %s is not the one given", with, a.name)
					}
				case isExtType(a.typ, "Logger"), isExtType(a.typ, "ErrorHandler"):
					if !r.sure(in, t, v, 0) {
						bad("%s, the controller's %s may be nil", with, a.name)
					}
				default:
					if _, ok := a.typ.Underlying().(*types.Map); ok && !r.sure(in, t, v, 0) {
						bad("%s, the controller's %s may be nil", with, a.name)
					}
					if s, ok := a.typ.Underlying().(*types.Slice); ok && isExtType(s.Elem(), "Middleware") {
						if l := lenOf(in, c, v); l != 0 {
							bad("%s, the controller may have middlewares", with)
						}
					}
				}
			}
		}
		if n == 0 {
			bad("%s, it never returns a controller", with)
		}
	}
}

// sameList: two lists of the same values.
func sameList(in *Interp, c *Config, a, b *Term) bool {
	la, lb := listElems(in, c, a), listElems(in, c, b)
	if la == nil || len(la) != len(lb) {
		return false
	}
	for i := range la {
		if la[i] != lb[i] {
			return false
		}
	}
	return true
}

func listElems(in *Interp, c *Config, v *Term) []*Term {
	if v != nil && v.Op == "list" {
		return v.Args
	}
	return nil
}

// lenOf is the number of elements of a slice, or -1.
func lenOf(in *Interp, c *Config, v *Term) int64 {
	if v.IsNil() {
		return 0
	}
	if v.Op == "list" {
		return int64(len(v.Args))
	}
	if n, ok := in.T.Len(v).Int(); ok {
		return n
	}
	return -1
}

func (r *Report) subscribeAll(cw *ctrlWorld, o *ctrlOp) {
	where := o.x.Shape.key()
	cr := r.ctrl(cw, 0)
	cr.in.Derefs = true
	args := cr.in.ParamTerms(o.fn)
	for i, p := range o.fn.Params {
		if n := genNamed(o.x.Pkg, p.Type()); i > 0 && n != nil {
			if _, ok := n.Underlying().(*types.Interface); ok {
				args[i] = cr.in.T.Nil()
			}
		}
	}
	n := 0
	for _, t := range cr.in.Run(o.fn, args, nil, cr.base(o.fn, args[0])) {
		n++
		r.Count("subscriptions without a subscriber", 1)
		if t.Exit != "return" || len(t.Ret) != 1 {
			r.FailAt(o.id()+":crash", where, "%s: without a subscriber, it does not return: %s", o.id(), t.Exit)
			continue
		}
		if !r.sure(cr.in, t, t.Ret[0], 0) {
			r.FailAt(o.id()+":noerror", where, "%s: without a subscriber, it may return no error", o.id())
		}
		for _, e := range t.Events {
			if isBroker(e, "Subscribe") {
				r.FailAt(o.id()+":subscribed", where, "%s: without a subscriber, it subscribes", o.id())
			}
		}
	}
	if n == 0 {
		r.FailAt(o.id()+":nothing", where, "%s: nothing is returned", o.id())
	}
}

// defaults: the runtime library's default error handler and logger can be called.
func (r *Report) defaults() {
	in := r.ctorInterp()
	p := r.W.SSA[extPath]
	if p == nil {
		r.FailAt("library", "-", "the runtime library is missing")
		return
	}
	called := func(what string, f *ssa.Function, args, bind []*Term, c *Config) {
		r.Count("default behaviours interpreted", 1)
		for _, t := range in.Run(f, args, bind, c) {
			if w := in.crash(t); w != "" {
				r.FailAt("default:"+what, what, "%s crashes: %s", what, w)
			}
		}
	}
	if f := p.Func("DefaultErrorHandler"); f != nil {
		for _, t := range in.Run(f, nil, nil, nil) {
			if in.crash(t) != "" || len(t.Ret) != 1 || t.Ret[0].Fn == nil {
				r.FailAt("default:DefaultErrorHandler", "DefaultErrorHandler", "the default error handler is not a function")
				continue
			}
			h := t.Ret[0]
			args := in.ParamTerms(h.Fn)
			called("the default error handler", h.Fn, args, h.Args, t.config())
		}
	}
	if dl, _ := p.Pkg.Scope().Lookup("DummyLogger").(*types.TypeName); dl != nil {
		ms := types.NewMethodSet(dl.Type())
		for i := 0; i < ms.Len(); i++ {
			if f := r.W.Func(extPath, "DummyLogger."+ms.At(i).Obj().Name()); f != nil {
				called("DummyLogger."+f.Name(), f, in.ParamTerms(f), nil, nil)
			}
		}
	}
	r.Floor("default behaviours interpreted", 4)
}
