package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C09", "every constructor of the runtime library is interpreted with every sequence of up to two of its options, and every other exported function and method with what it starts: the roots of all addresses written (fields, elements, map entries) are computed through the values stored on the path; none may be a package-level variable, an object loaded from one, or, for constructors and options, an object received as an argument; no mutable object held by a new instance may come from a package-level variable", ruleNoSharedConfig)
}

// root follows an address or value to the object it belongs to.
func root(x *Term) *Term {
	for x != nil && len(x.Args) > 0 {
		switch x.Op {
		case "fieldaddr", "elemaddr", "load", "field", "elem", "lookup", "slice", "convert", "typeassert", "extract", "nextval", "next", "range", "havoc", "assert":
			x = x.Args[0]
		default:
			return x
		}
	}
	return x
}

// reference: writing through such a value changes an object others may see.
func isReference(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Map, *types.Chan, *types.Slice, *types.Pointer:
		return true
	}
	return false
}

func ruleNoSharedConfig(r *Report) {
	w := r.W
	var pkgs []string
	for path := range w.SSA {
		if path == extPath || strings.HasPrefix(path, extPath+"/") {
			pkgs = append(pkgs, path)
		}
	}
	r.Count("packages", len(pkgs))
	var fns []*ssa.Function
	for _, path := range pkgs {
		p := w.SSA[path]
		if p == nil {
			continue
		}
		for _, f := range w.rootsOf(path) {
			if f.Signature.Recv() != nil || !isConfigurator(f) {
				continue
			}
			r.configured(p, f)
		}
		// nothing else in the library writes to package-level variables either
		for _, f := range w.Funcs(path) {
			if w.FnPkgPath(f) == path {
				fns = append(fns, f)
			}
		}
	}
	r.libraryWrites(fns)
	r.Floor("functions of the library", 60)
	r.Floor("configurations", 80)
	r.Floor("options", 15)
	r.Floor("writes of constructors and options", 100)
}

// isConfigurator: the function returns something of its package to be used
// later: an instance, an option, a middleware.
func isConfigurator(f *ssa.Function) bool {
	return f.Signature.Results().Len() > 0
}

func (r *Report) globalWrites(in *Interp, t *Trace, f *ssa.Function) {
	for _, e := range t.Events {
		if e.Kind != EvStore && e.Kind != EvMapUpd && e.Kind != EvMapDel {
			continue
		}
		if g := root(e.Addr); g != nil && g.Op == "global" {
			r.Fail("global:"+f.String()+":"+g.Aux, e.Pos(), "%s writes to %s, which every instance shares", f, g.Aux)
		}
	}
}

// configured interprets a constructor with its options.
func (r *Report) configured(p *ssa.Package, f *ssa.Function) {
	sig := f.Signature
	var optType types.Type
	if sig.Variadic() {
		optType = sig.Params().At(sig.Params().Len() - 1).Type().(*types.Slice).Elem()
	}
	in := r.brokerInterp(0)
	in.NoHavoc = func(ev *Event) bool { return ev.Obj == nil || isLib(ev) }
	var opts []*Term
	var params []*Term
	init := &Config{mem: map[*Term]*Term{}, facts: map[*Term]bool{}}
	if optType != nil {
		for _, o := range r.W.rootsOf(p.Pkg.Path()) {
			if o.Signature.Recv() != nil || o.Signature.Results().Len() != 1 || !types.Identical(o.Signature.Results().At(0).Type(), optType) {
				continue
			}
			ps := in.ParamTerms(o)
			for _, t := range in.Run(o, ps, nil, nil) {
				if t.Exit == "return" && t.Ret[0].Fn != nil {
					opts = append(opts, t.Ret[0])
					params = append(params, ps...)
					for k, v := range t.Mem {
						init.mem[k] = v
					}
				}
			}
			r.Count("options", 1)
		}
	}
	seqs := [][]*Term{nil}
	for _, a := range opts {
		seqs = append(seqs, []*Term{a})
		for _, b := range opts {
			seqs = append(seqs, []*Term{a, b})
		}
	}
	for _, s := range seqs {
		args := in.ParamTerms(f)
		given := append([]*Term{}, params...)
		if optType != nil && len(opts) > 0 {
			given = append(given, args[:len(args)-1]...)
			args[len(args)-1] = in.T.mk("list", "", types.NewSlice(optType), s...)
		} else {
			given = append(given, args...)
		}
		r.Count("configurations", 1)
		for _, t := range in.Run(f, args, nil, init) {
			r.globalWrites(in, t, f)
			for _, e := range t.Events {
				if e.Kind != EvStore && e.Kind != EvMapUpd && e.Kind != EvMapDel {
					continue
				}
				r.Count("writes of constructors and options", 1)
				g := root(e.Addr)
				// an option run on its own writes to the instance it is given
				for _, x := range given {
					if g == x && g != nil {
						r.Fail("argument:"+f.String(), e.Pos(), "%s writes to an object it was given, which others may share (%s)", f, e.Addr)
					}
				}
			}
			if t.Exit != "return" {
				continue
			}
			r.shares(in, t, f)
		}
	}
}

// shares: an instance returned holds mutable objects of its own only.
func (r *Report) shares(in *Interp, t *Trace, f *ssa.Function) {
	for k, v := range t.Mem {
		if v == nil || !isReference(v.Typ) {
			continue
		}
		if _, isPtr := v.Typ.Underlying().(*types.Pointer); isPtr {
			continue // judged by what is written through it
		}
		if g := root(v); g != nil && g.Op == "global" && root(k) != nil && root(k).Op == "alloc" && k.Op == "fieldaddr" {
			r.Fail("shared:"+f.String()+":"+g.Aux, f.Pos(), "an instance made by %s holds the mutable object %s, which every instance shares", f, g.Aux)
		}
	}
}

// ssaRoots follows an address to the objects it may belong to.
func ssaRoots(v ssa.Value, seen map[ssa.Value]bool) []ssa.Value {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return ssaRoots(x.X, seen)
	case *ssa.IndexAddr:
		return ssaRoots(x.X, seen)
	case *ssa.Field:
		return ssaRoots(x.X, seen)
	case *ssa.Index:
		return ssaRoots(x.X, seen)
	case *ssa.Lookup:
		return ssaRoots(x.X, seen)
	case *ssa.Slice:
		return ssaRoots(x.X, seen)
	case *ssa.UnOp:
		// what a local variable holds
		if a, ok := x.X.(*ssa.Alloc); ok {
			var out []ssa.Value
			for _, ref := range *a.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == a && isReference(s.Val.Type()) {
					out = append(out, ssaRoots(s.Val, seen)...)
				}
			}
			return append(out, a)
		}
		return ssaRoots(x.X, seen)
	case *ssa.ChangeType:
		return ssaRoots(x.X, seen)
	case *ssa.Convert:
		return ssaRoots(x.X, seen)
	case *ssa.MakeInterface:
		return ssaRoots(x.X, seen)
	case *ssa.ChangeInterface:
		return ssaRoots(x.X, seen)
	case *ssa.TypeAssert:
		return ssaRoots(x.X, seen)
	case *ssa.Extract:
		return ssaRoots(x.Tuple, seen)
	case *ssa.Phi:
		var out []ssa.Value
		for _, e := range x.Edges {
			out = append(out, ssaRoots(e, seen)...)
		}
		return out
	}
	return []ssa.Value{v}
}

// libraryWrites looks for writes to package-level variables in the functions,
// directly or through the functions they give an address to.
func (r *Report) libraryWrites(fns []*ssa.Function) {
	// parameters and captured variables a function writes through
	writes := map[*ssa.Function]map[ssa.Value]bool{}
	note := func(f *ssa.Function, v ssa.Value) bool {
		if writes[f] == nil {
			writes[f] = map[ssa.Value]bool{}
		}
		if writes[f][v] {
			return false
		}
		writes[f][v] = true
		return true
	}
	type site struct {
		f *ssa.Function
		i ssa.Instruction
		g *ssa.Global
	}
	bad := map[site]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			if f.Name() == "init" && f.Signature.Recv() == nil && f.Parent() == nil {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					var targets []ssa.Value
					switch x := i.(type) {
					case *ssa.Store:
						targets = append(targets, x.Addr)
					case *ssa.MapUpdate:
						targets = append(targets, x.Map)
					case ssa.CallInstruction:
						cc := x.Common()
						if bi, ok := cc.Value.(*ssa.Builtin); ok {
							if n := bi.Name(); n == "delete" || n == "copy" || n == "clear" {
								targets = append(targets, cc.Args[0])
							}
							break
						}
						callee := cc.StaticCallee()
						if callee == nil {
							break
						}
						for k, p := range callee.Params {
							if writes[callee][p] && k < len(cc.Args) {
								targets = append(targets, cc.Args[k])
							}
						}
					case *ssa.MakeClosure:
						c := x.Fn.(*ssa.Function)
						for k, fv := range c.FreeVars {
							if writes[c][fv] {
								targets = append(targets, x.Bindings[k])
							}
						}
					}
					for _, t := range targets {
						for _, v := range ssaRoots(t, map[ssa.Value]bool{}) {
							switch g := v.(type) {
							case *ssa.Global:
								bad[site{f, i, g}] = true
							case *ssa.Parameter, *ssa.FreeVar:
								changed = note(f, g) || changed
							}
						}
					}
				}
			}
		}
	}
	r.Count("functions of the library", len(fns))
	for s := range bad {
		r.Fail("global:"+s.f.String()+":"+s.g.String(), s.i.Pos(), "%s writes to %s, which every instance shares", s.f, s.g)
	}
}
