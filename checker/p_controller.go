package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ctrlOp is one exported operation of a generated controller.
type ctrlOp struct {
	x    *Expansion
	side string // App or User
	fn   *ssa.Function
	kind string // subscribe, unsubscribe, send, request, reply, suball, unsuball, close
	name string // operation name without the verb
	fnP  int    // index of the callback parameter, or -1
	msgP int    // index of the message parameter, or -1
}

func (o *ctrlOp) id() string { return o.x.Shape.key() + ":" + o.side + "." + o.fn.Name() }

// ctrlWorld is the part of an expansion the controller rules look at.
type ctrlWorld struct {
	x        *Expansion
	ops      []*ctrlOp
	ctors    map[string]*ssa.Function // side -> constructor
	types    map[string]*types.Named
	subIface map[string]*types.Interface
	enc      map[*types.Named]*ssa.Function
	dec      map[*types.Named]*ssa.Function
}

func isCtxType(t types.Type) bool { return t.String() == "context.Context" }
func isErrType(t types.Type) bool { return t.String() == "error" }
func isExtType(t types.Type, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == extPath
}

func genNamed(p *types.Package, t types.Type) *types.Named {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	if ok && n.Obj().Pkg() == p {
		return n
	}
	return nil
}

// controllers identifies the generated controllers by the generator's public
// contract: their names, constructors, and the signatures of their methods.
func (w *World) controllers(x *Expansion) *ctrlWorld {
	cw := &ctrlWorld{x: x, ctors: map[string]*ssa.Function{}, types: map[string]*types.Named{}, subIface: map[string]*types.Interface{},
		enc: map[*types.Named]*ssa.Function{}, dec: map[*types.Named]*ssa.Function{}}
	path := x.Pkg.Path()
	for _, f := range w.Funcs(path) {
		if f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		sig := f.Signature
		if sig.Results().Len() == 2 && isErrType(sig.Results().At(1).Type()) {
			r0 := sig.Results().At(0).Type()
			if isExtType(r0, "BrokerMessage") && len(f.Params) == 1 {
				if n := genNamed(x.Pkg, f.Params[0].Type()); n != nil {
					cw.enc[n] = f
				}
			}
			if n := genNamed(x.Pkg, r0); n != nil && len(f.Params) == 1 && isExtType(f.Params[0].Type(), "BrokerMessage") {
				cw.dec[n] = f
			}
		}
	}
	for _, side := range []string{"App", "User"} {
		tn, _ := x.Pkg.Scope().Lookup(side + "Controller").(*types.TypeName)
		if tn == nil {
			continue
		}
		cw.types[side] = tn.Type().(*types.Named)
		cw.ctors[side] = w.Func(path, "New"+side+"Controller")
		if it, _ := x.Pkg.Scope().Lookup(side + "Subscriber").(*types.TypeName); it != nil {
			cw.subIface[side], _ = it.Type().Underlying().(*types.Interface)
		}
		ms := types.NewMethodSet(types.NewPointer(tn.Type()))
		for i := 0; i < ms.Len(); i++ {
			m := ms.At(i).Obj().(*types.Func)
			if !m.Exported() || len(ms.At(i).Index()) > 1 {
				continue
			}
			f := w.Func(path, side+"Controller."+m.Name())
			if f == nil {
				continue
			}
			o := &ctrlOp{x: x, side: side, fn: f, fnP: -1, msgP: -1}
			sig := m.Type().(*types.Signature)
			for j := 1; j < len(f.Params); j++ {
				pt := f.Params[j].Type()
				if fs, ok := pt.Underlying().(*types.Signature); ok {
					o.fnP = j
					_ = fs
				} else if n := genNamed(x.Pkg, pt); n != nil {
					if it, ok := n.Underlying().(*types.Interface); cw.enc[n] != nil || ok && hasMethod(it, "CorrelationID") {
						o.msgP = j
					}
				}
			}
			nres := sig.Results().Len()
			switch {
			case m.Name() == "Close":
				o.kind = "close"
			case m.Name() == "SubscribeToAllChannels" || m.Name() == "SubscribeAll":
				o.kind = "suball"
			case m.Name() == "UnsubscribeFromAllChannels" || m.Name() == "UnsubscribeAll":
				o.kind = "unsuball"
			case nres == 0 && strings.HasPrefix(m.Name(), "Unsubscribe"):
				o.kind = "unsubscribe"
				o.name = strings.TrimPrefix(strings.TrimPrefix(m.Name(), "Unsubscribe"), "From")
			case nres == 2:
				o.kind = "request"
				o.name = trimVerb(m.Name(), "RequestTo", "RequestAs", "WaitFor")
			case nres == 1 && o.fnP >= 0 && strings.HasPrefix(m.Name(), "Subscribe"):
				o.kind = "subscribe"
				o.name = trimVerb(m.Name(), "SubscribeTo", "Subscribe")
			case nres == 1 && o.fnP >= 0 && o.msgP >= 0:
				o.kind = "reply"
				o.name = trimVerb(m.Name(), "ReplyTo")
			case nres == 1 && o.msgP >= 0:
				o.kind = "send"
				o.name = trimVerb(m.Name(), "SendTo", "SendAs", "Publish")
			default:
				continue
			}
			if x.Shape.Major == 2 {
				// the verbs of v2 have no preposition
				switch o.kind {
				case "subscribe":
					o.name = strings.TrimPrefix(m.Name(), "Subscribe")
				case "unsubscribe":
					o.name = strings.TrimPrefix(m.Name(), "Unsubscribe")
				}
			}
			cw.ops = append(cw.ops, o)
		}
	}
	return cw
}

func hasMethod(it *types.Interface, name string) bool {
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == name {
			return true
		}
	}
	return false
}

func trimVerb(s string, verbs ...string) string {
	for _, v := range verbs {
		if strings.HasPrefix(s, v) {
			return strings.TrimPrefix(s, v)
		}
	}
	return s
}

// ctrlRun interprets operations of a controller whose middlewares are a list of
// unknown functions.
type ctrlRun struct {
	in  *Interp
	cw  *ctrlWorld
	mws []*Term
}

func (r *Report) ctrl(cw *ctrlWorld, nMW int, counts ...int) *ctrlRun {
	in := r.Interp()
	in.MaxRecv = 2
	cr := &ctrlRun{in: in, cw: cw}
	for _, n := range []string{"TransmitReceivedMessage", "Cancel", "MessagesChannel"} {
		in.Opaque["("+extPath+".BrokerChannelSubscription)."+n] = true
	}
	for _, n := range []string{"Ack", "Nak"} {
		in.Opaque["("+extPath+".AcknowledgeableBrokerMessage)."+n] = true
		in.Opaque["(*"+extPath+".AcknowledgeableBrokerMessage)."+n] = true
	}
	for _, n := range []string{"IsUninitialized", "String"} {
		in.Opaque["("+extPath+".BrokerMessage)."+n] = true
		in.Opaque["("+extPath+".AcknowledgeableBrokerMessage)."+n] = true
	}
	for _, f := range cw.enc {
		in.Opaque[fnObj(f).FullName()] = true
	}
	for _, f := range cw.dec {
		in.Opaque[fnObj(f).FullName()] = true
	}
	for n := range cw.enc {
		for i := 0; i < n.NumMethods(); i++ {
			if n.Method(i).Name() == "CorrelationID" {
				in.Opaque[n.Method(i).FullName()] = true
			}
		}
	}
	mt := r.W.SSA[extPath].Pkg.Scope().Lookup("Middleware").Type()
	for i := 0; i < nMW; i++ {
		cr.mws = append(cr.mws, in.T.Sym(fmt.Sprintf("middleware#%d", i), mt))
	}
	if len(counts) == 0 {
		counts = []int{0, 1}
	}
	in.Invoke = func(ev *Event, fns []*Term) []int {
		if cr.mw(ev) >= 0 {
			return counts
		}
		return []int{0}
	}
	// middlewares show what their message holds when they are called; the broker
	// and the decoder, what the middlewares' message holds by then
	in.OnCall = func(c *Config, ev *Event) {
		if cr.mw(ev) >= 0 && len(ev.Args) > 1 {
			ev.Addr = ev.Args[1]
			ev.Val = in.Load(c, ev.Addr, elemType(ev.Addr.Typ))
		} else if isBroker(ev, "Publish") || cr.isDecode(ev) {
			for x := c.trace; x != nil; x = x.prev {
				if cr.mw(x.ev) >= 0 && x.ev.Addr != nil {
					ev.Addr = x.ev.Addr
					ev.Val = in.Load(c, ev.Addr, elemType(ev.Addr.Typ))
					break
				}
				if x.ev.Kind == EvRecv {
					break
				}
			}
		}
	}
	return cr
}

// mw tells which middleware an event calls, or -1.
func (cr *ctrlRun) mw(e *Event) int {
	if e.Kind == EvCall && e.Callee != nil {
		for i, m := range cr.mws {
			if e.Callee == m {
				return i
			}
		}
	}
	return -1
}

// base is the memory of a controller with the given middlewares.
func (cr *ctrlRun) base(fn *ssa.Function, c *Term) *Config {
	cfg := &Config{mem: map[*Term]*Term{}, facts: map[*Term]bool{}}
	addr, typ := cr.ctrlField(c, fn.Params[0].Type(), func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && isExtType(s.Elem(), "Middleware")
	})
	if addr != nil {
		cr.in.Store(cfg, addr, cr.in.T.mk("list", "", typ, cr.mws...))
	}
	return cfg
}

// ctrlField finds the address of a controller's field by its type.
func (cr *ctrlRun) ctrlField(c *Term, t types.Type, pred func(types.Type) bool) (*Term, types.Type) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st := structOf(t)
	if st == nil {
		return nil, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		fa := cr.in.T.FieldAddr(c, t, i)
		if pred(ft) {
			return fa, ft
		}
		if _, ok := ft.Underlying().(*types.Struct); ok {
			if a, at := cr.ctrlField(fa, ft, pred); a != nil {
				return a, at
			}
		}
	}
	return nil, nil
}

func (cr *ctrlRun) run(o *ctrlOp) ([]*Trace, []*Term) {
	args := cr.in.ParamTerms(o.fn)
	return cr.in.Run(o.fn, args, nil, cr.base(o.fn, args[0])), args
}

func (cr *ctrlRun) threads(o *ctrlOp) ([]thread, []*Term) {
	args := cr.in.ParamTerms(o.fn)
	return cr.in.threads(o.fn, args, cr.base(o.fn, args[0])), args
}

func init() {
	register("dbgx", "debug", func(r *Report) {
		for _, sh := range allShapes() {
			if !strings.HasPrefix(sh.key(), os.Getenv("SHAPE")) {
				continue
			}
			cw := r.W.controllers(r.W.Expand(sh))
			for _, o := range cw.ops {
				fmt.Println("##", sh.key(), o.side, o.fn.Name(), o.kind, o.name)
				if o.fn.Name() != os.Getenv("FN") {
					continue
				}
				n := 0
				fmt.Sscan(os.Getenv("MW"), &n)
				cr := r.ctrl(cw, n)
				ths, _ := cr.threads(o)
				for _, th := range ths {
					for _, t := range th.traces {
						fmt.Printf("--- %s %s\n%s", th.fn, th.spawn, cr.in.Describe(t))
					}
				}
			}
		}
	})
}
