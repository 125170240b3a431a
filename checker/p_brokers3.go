package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C08", "the adapters' constructors are interpreted with every sequence of up to three connection options and failing options, each library call succeeding and failing, and the resulting controller is closed in the state reached: every connection opened on a path is closed on it when the construction fails or when it is replaced, and otherwise by Close; the supplied ones are never closed; the connections, readers and writers of publications, subscriptions and connection tests are closed on every path", ruleConnections)
}

// opened gives what a library call opened, if it did on this path.
func (in *Interp) opened(t *Trace, e *Event) *Term {
	if !libCall(e, "Connect", "Dial", "DialContext", "DialLeader", "DialPartition", "NewReader") {
		return nil
	}
	er := in.errorResult(e)
	if er == nil {
		return e.Res
	}
	if n, k := t.errNil(er); k && !n {
		return nil
	}
	return in.extract(e.Res, 0)
}

// absurd: this path takes a connection opened without error for nil.
func (in *Interp) absurd(t *Trace) bool {
	for _, e := range t.Events {
		if c := in.opened(t, e); c != nil {
			if n, k := t.IsNilTerm(c); k && n {
				return true
			}
		}
	}
	return false
}

func closes(e *Event, x *Term) bool {
	return libCall(e, "Close", "Drain") && len(e.Args) > 0 && e.Args[0] == x
}

func ruleConnections(r *Report) {
	for _, a := range r.adapters() {
		for _, c := range a.ctors {
			r.constructions(a, c)
		}
		for _, f := range []*ssa.Function{a.pub, a.sub} {
			if f != nil {
				r.temporary(a, f)
			}
		}
	}
	r.Floor("constructions", 60)
	r.Floor("connections opened", 40)
	r.Floor("connections supplied", 10)
	r.Floor("controllers closed", 10)
	r.Floor("temporary connections", 10)
}

// connectionOptions lists the options that open or receive a connection.
type connOption struct {
	name     string
	fn       *Term
	supplied *Term
}

func (r *Report) connOptions(a *adapter, in *Interp) []connOption {
	var out []connOption
	for _, o := range a.opts {
		ps := in.ParamTerms(o)
		var sup *Term
		for _, p := range ps {
			if libType(p.Typ) == "Conn" {
				sup = p
			}
		}
		for _, t := range in.Run(o, ps, nil, nil) {
			if t.Exit != "return" || len(t.Ret) != 1 || t.Ret[0].Fn == nil {
				continue
			}
			opens := sup != nil
			for _, u := range in.Run(t.Ret[0].Fn, in.ParamTerms(t.Ret[0].Fn), t.Ret[0].Args, t.config()) {
				for _, e := range u.Events {
					opens = opens || in.opened(u, e) != nil
				}
			}
			if opens {
				out = append(out, connOption{o.Name(), t.Ret[0], sup})
				r.optMem = append(r.optMem, t.Mem)
			}
		}
	}
	return out
}

func (r *Report) constructions(a *adapter, ctor *ssa.Function) {
	in := r.brokerInterp(0)
	// an option of the user may fail, it has no access to the connections
	in.NoHavoc = func(ev *Event) bool { return ev.Obj == nil || isLib(ev) }
	r.optMem = nil
	opts := r.connOptions(a, in)
	// the other options at least can fail
	var ot types.Type
	for _, p := range ctor.Params {
		if s, ok := p.Type().Underlying().(*types.Slice); ok && ctor.Signature.Variadic() {
			ot = s.Elem()
		}
	}
	all := append([]connOption{}, opts...)
	if ot != nil {
		all = append(all, connOption{"another option", in.T.Sym("another option", ot), nil})
	}
	var seqs [][]connOption
	var rec func(p []connOption)
	rec = func(p []connOption) {
		seqs = append(seqs, append([]connOption{}, p...))
		if len(p) == 3 {
			return
		}
		for _, o := range all {
			rec(append(p, o))
		}
	}
	rec(nil)
	for _, seq := range seqs {
		init := &Config{mem: map[*Term]*Term{}, facts: map[*Term]bool{}}
		for _, m := range r.optMem {
			for k, v := range m {
				init.mem[k] = v
			}
		}
		args := in.ParamTerms(ctor)
		var names []string
		var sup []*Term
		var fs []*Term
		for _, o := range seq {
			names = append(names, o.name)
			fs = append(fs, o.fn)
			if o.supplied != nil {
				sup = append(sup, o.supplied)
				init.facts[in.T.Eq(o.supplied, in.T.Nil())] = false
			}
		}
		if ot != nil {
			args[len(args)-1] = in.T.mk("list", "", types.NewSlice(ot), fs...)
		}
		what := fmt.Sprintf("%s.%s(%s)", a.name, ctor.Name(), strings.Join(names, ", "))
		for _, t := range in.Run(ctor, args, nil, init) {
			if t.Exit != "return" || in.absurd(t) {
				continue
			}
			r.Count("constructions", 1)
			r.Count("connections supplied", len(sup))
			ret := t.Ret[len(t.Ret)-1]
			failed := t.nonNilErr(ret)
			for _, e := range t.Events {
				for _, s := range sup {
					if closes(e, s) {
						r.Fail(a.name+":"+ctor.Name()+":supplied", e.Pos(), "%s closes a connection that was supplied", what)
					}
				}
			}
			// what Close does then
			var closing []*Trace
			cf := r.W.Func(a.pkg, a.typ.Obj().Name()+".Close")
			if !failed && cf != nil && len(t.Ret) > 1 {
				// whatever happened to the controller since then
				later := t.config().clone()
				st := structOf(a.typ)
				for i := 0; i < st.NumFields(); i++ {
					if f := st.Field(i); libType(f.Type()) != "Conn" && !isBoolType(f.Type()) {
						fa := in.T.FieldAddr(t.Ret[0], a.typ, i)
						for k := range later.mem {
							if isAncestor(fa, k) {
								delete(later.mem, k)
							}
						}
						later.mem[fa] = in.T.Sym("later "+f.Name(), f.Type())
					}
				}
				closing = in.Run(cf, []*Term{t.Ret[0]}, nil, later)
			}
			for _, u := range closing {
				r.Count("controllers closed", 1)
				for _, e := range u.Events {
					for _, s := range sup {
						if closes(e, s) {
							r.Fail(a.name+":Close:supplied", e.Pos(), "closing a controller made by %s closes a connection that was supplied", what)
						}
					}
				}
			}
			for i, e := range t.Events {
				c := in.opened(t, e)
				if c == nil {
					continue
				}
				r.Count("connections opened", 1)
				done := false
				for _, x := range t.Events[i+1:] {
					done = done || closes(x, c)
				}
				if done {
					st := structOf(a.typ)
					for k := 0; !failed && k < st.NumFields(); k++ {
						if libType(st.Field(k).Type()) == "Conn" && in.Load(t.config(), in.T.FieldAddr(t.Ret[0], a.typ, k), st.Field(k).Type()) == c {
							r.Fail(a.name+":"+ctor.Name()+":closed", e.Pos(), "%s returns a controller whose connection is closed", what)
						}
					}
					continue
				}
				if failed || cf == nil {
					r.Fail(a.name+":"+ctor.Name()+":leak", e.Pos(), "%s leaves a connection open when it %s", what, map[bool]string{true: "fails", false: "returns"}[failed])
					continue
				}
				for _, u := range closing {
					ok := u.Exit != "return"
					for _, x := range u.Events {
						ok = ok || closes(x, c)
					}
					// not a path of this controller
					if n, k := u.IsNilTerm(c); k && n {
						ok = true
					}
					if !ok {
						r.Fail(a.name+":"+ctor.Name()+":unowned", e.Pos(), "a connection opened by %s is closed neither when it is replaced nor with the controller", what)
					}
				}
			}
		}
	}
}

// temporary: what a publication or a subscription opens for itself.
func (r *Report) temporary(a *adapter, fn *ssa.Function) {
	in := r.errorsInterp()
	key := a.name + ":" + fn.Name()
	ths := in.threads(fn, in.ParamTerms(fn), nil)
	for _, t := range ths[0].traces {
		if t.Exit != "return" || in.absurd(t) {
			continue
		}
		judge := func(i int, e *Event, x *Term) {
			r.Count("temporary connections", 1)
			for _, y := range t.Events[i+1:] {
				if closes(y, x) {
					return
				}
			}
			if !t.nonNilErr(t.Ret[len(t.Ret)-1]) {
				// closed once the subscription is cancelled
				for _, y := range t.Events[i+1:] {
					if y.Kind != EvCall || y.Obj == nil || y.Obj.Name() != "WaitForCancellationAsync" || y.Snap == nil {
						continue
					}
					cl := y.Args[len(y.Args)-1]
					if cl.Fn == nil {
						continue
					}
					us := in.Run(cl.Fn, nil, cl.Args, t.config())
					all := len(us) > 0
					for _, u := range us {
						ok := u.Exit != "return"
						for _, z := range u.Events {
							ok = ok || closes(z, x)
						}
						all = all && ok
					}
					if all {
						return
					}
				}
			}
			r.Fail(key+":leak", e.Pos(), "%s of the adapter %s does not close what %s opened on every path", fn.Name(), a.name, e.Obj.Name())
		}
		seen := map[*Term]bool{}
		for i, e := range t.Events {
			if x := in.opened(t, e); x != nil {
				judge(i, e, x)
			} else if libCall(e, "WriteMessages") && e.Args[0].Op == "alloc" && !seen[e.Args[0]] {
				seen[e.Args[0]] = true
				judge(i, e, e.Args[0])
			}
		}
	}
}
