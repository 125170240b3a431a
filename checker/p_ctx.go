package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func init() {
	register("C18", "every path of each generated send, reception, request and reply, with unknown middlewares: the chain of values of each context given to the broker, a middleware, the error handler and the user's function is read off the term and compared with the document (version, side, address, direction), with the message of the path, and with its correlation identifier; the keys are shown distinct, and the functions reading them to read the key they are given", ruleContext)
}

// The keys of the context, by what they are for.
var ctxKeys = []string{"ContextKeyIsVersion", "ContextKeyIsProvider", "ContextKeyIsChannel", "ContextKeyIsDirection", "ContextKeyIsBrokerMessage", "ContextKeyIsCorrelationID"}

type ctxRead struct {
	cr   *ctrlRun
	t    *Trace
	keys map[string]string
}

// value is what a context holds under a key; nil if nothing.
func (c *ctxRead) value(ctx *Term, key string) *Term {
	for i := 0; i < 100 && ctx != nil; i++ {
		switch {
		case ctx.Op == "call" && ctx.Obj != nil && fullName(ctx.Obj) == "context.WithValue" && len(ctx.Args) == 3:
			if k, ok := ctx.Args[1].StrVal(); ok && k == c.keys[key] {
				return ctx.Args[2]
			}
			ctx = ctx.Args[0]
		case ctx.Op == "call" && ctx.Obj != nil && fullName(ctx.Obj) == "context.WithoutCancel":
			ctx = ctx.Args[0]
		case ctx.Op == "extract" && ctx.Args[0].Op == "call" && ctx.Args[0].Obj != nil && strings.HasPrefix(fullName(ctx.Args[0].Obj), "context.With"):
			ctx = ctx.Args[0].Args[0]
		case ctx.Op == "iface" || ctx.Op == "convert":
			ctx = ctx.Args[0]
		case ctx.Op == "cbarg":
			// a middleware continues with its own context, or one made from it
			var next *Term
			for _, e := range c.t.Events {
				if c.cr.mw(e) >= 0 && e.Res == ctx.Args[0] {
					next = e.Args[0]
				}
			}
			ctx = next
		default:
			return nil
		}
	}
	return nil
}

func ruleContext(r *Report) {
	keys := map[string]string{}
	by := map[string]string{}
	scope := r.W.SSA[extPath].Pkg.Scope()
	for _, n := range ctxKeys {
		c, ok := scope.Lookup(n).(*types.Const)
		if !ok || c.Val().Kind() != constant.String {
			r.FailAt("key:"+n, "pkg/extensions", "the context key %s is not a constant string", n)
			return
		}
		keys[n] = constant.StringVal(c.Val())
		if o := by[keys[n]]; o != "" {
			r.Fail("key:"+n, c.Pos(), "the context keys %s and %s are the same (%q): one value hides the other", n, o, keys[n])
		}
		by[keys[n]] = n
		r.Count("context keys", 1)
	}
	r.ctxReaders()
	r.ctrlOps(func(cw *ctrlWorld, o *ctrlOp, d *docOp) {
		ver, _ := shapeDoc(o.x.Shape).get("info", "version").(string)
		mws := 1
		switch o.kind {
		case "send", "reply":
			mws = 2
		case "subscribe", "request":
		default:
			return
		}
		cr := r.ctrl(cw, mws)
		cr.in.MaxRecv = 1
		if o.kind == "request" {
			cr.in.MaxRecv = 2
		}
		ths, args := cr.threads(o)
		// the channels used in each direction
		chans := map[string]map[*Term]bool{}
		c := &ctxRead{cr, nil, keys}
		for _, th := range ths {
			for _, t := range th.traces {
				c.t = t
				for _, e := range t.Events {
					if isBroker(e, "Publish") || isBroker(e, "Subscribe") {
						dir := ""
						if v := c.value(e.Args[1], "ContextKeyIsDirection"); v != nil {
							dir, _ = v.StrVal()
						}
						if chans[dir] == nil {
							chans[dir] = map[*Term]bool{}
						}
						chans[dir][e.Args[2]] = true
					}
				}
			}
		}
		for _, th := range ths {
			for _, t := range th.traces {
				c.t = t
				r.contexts(c, o, d, th, args, ver, chans)
			}
		}
	})
	r.ctxTypes()
	r.Floor("context keys", 6)
	r.Floor("contexts of middlewares", 1000)
	r.Floor("contexts of publications", 300)
	r.Floor("contexts of subscriptions", 100)
	r.Floor("contexts of user functions", 100)
	r.Floor("contexts of error handlers", 100)
}

func (r *Report) contexts(c *ctxRead, o *ctrlOp, d *docOp, th thread, args []*Term, ver string, chans map[string]map[*Term]bool) {
	cr, t := c.cr, c.t
	bad := func(format string, a ...any) {
		m := fmt.Sprintf(format, a...)
		r.FailAt(o.id()+":"+m, o.where(r), "%s: %s", o.id(), m)
	}
	var recv, enc, dec *Event
	var sets []*Event
	for _, e := range t.Events {
		name := ""
		switch {
		case isMsgRecv(e):
			recv, dec = e, nil
		case cr.isEncode(e):
			enc = e
		case cr.isDecode(e):
			dec = e
		case e.Kind == EvEnter && e.SSAFn != nil && e.SSAFn.Name() == "SetCorrelationID", e.Kind == EvCall && e.Obj != nil && e.Obj.Name() == "SetCorrelationID":
			sets = append(sets, e)
		}
		var ctx *Term
		switch {
		case isBroker(e, "Publish"):
			name, ctx = "publication", e.Args[1]
		case isBroker(e, "Subscribe"):
			name, ctx = "subscription", e.Args[1]
		case cr.mw(e) >= 0:
			name, ctx = "middleware", e.Args[0]
		case isErrHandler(e):
			name, ctx = "error handler", e.Args[0]
		case o.fnP >= 0 && o.kind == "subscribe" && e.Kind == EvCall && e.Callee == args[o.fnP] && len(e.Args) > 0 && e.Args[0].Typ != nil && isCtxType(e.Args[0].Typ):
			name, ctx = "user function", e.Args[0]
		default:
			continue
		}
		r.Count("contexts of "+name+"s", 1)
		what := "the context given to the " + map[string]string{"publication": "broker when publishing", "subscription": "broker when subscribing", "middleware": "middlewares", "error handler": "error handler", "user function": "user's function"}[name]
		if s, _ := strOf(c.value(ctx, "ContextKeyIsVersion")); s != ver {
			bad("%s does not carry the document's version %q", what, ver)
		}
		if s, _ := strOf(c.value(ctx, "ContextKeyIsProvider")); s != strings.ToLower(o.side) {
			bad("%s does not carry the side %q", what, strings.ToLower(o.side))
		}
		dir, _ := strOf(c.value(ctx, "ContextKeyIsDirection"))
		want := "reception"
		if name == "subscription" {
			if o.kind == "request" {
				want = "wait-for"
			}
		} else if o.kind != "subscribe" {
			if want = "publication"; recv != nil {
				want = "wait-for"
			}
		}
		if dir != want {
			bad("%s carries the direction %q instead of %q", what, dir, want)
		}
		ch := c.value(ctx, "ContextKeyIsChannel")
		switch {
		case ch == nil:
			bad("%s does not carry the channel's address", what)
		case name == "publication" || name == "subscription":
			if ch != e.Args[2] {
				bad("%s carries another address than the one used", what)
			}
		case name == "error handler" && len(e.Args) > 1 && e.Args[1] != ch:
			bad("%s carries another address than the error handler is given", what)
		case !chans[want][ch] && !(want == "publication" && len(chans[want]) == 0):
			bad("%s carries another address than the one used", what)
		}
		if name == "subscription" {
			continue
		}
		// the message
		m := c.value(ctx, "ContextKeyIsBrokerMessage")
		var bm *Term
		if recv != nil {
			bm = cr.brokerMessage(recv.Val)
		} else if enc != nil {
			bm = cr.in.extract(enc.Res, 0)
		}
		switch {
		case m == nil:
			bad("%s does not carry the message", what)
		case bm == nil || m.Op != "call" || m.Obj == nil || m.Obj.Name() != "String" || m.Args[0] != bm:
			bad("%s carries something else than the text of the message", what)
		}
		// its correlation identifier
		id := c.value(ctx, "ContextKeyIsCorrelationID")
		switch {
		case want == "publication" && enc != nil:
			if corrOf(o, enc.Obj) {
				r.Count("correlation identifiers published", 1)
				ok := isCorr(id, enc.Args[0])
				for _, s := range sets {
					ok = ok || id != nil && len(s.Args) > 1 && s.Args[1] == id
				}
				if !ok {
					bad("%s does not carry the message's correlation identifier", what)
				}
			} else if id != nil {
				bad("%s carries a correlation identifier although the message has none", what)
			}
		case name == "user function" && dec != nil:
			msg := cr.in.extract(dec.Res, 0)
			if !corrOfType(msg.Typ) {
				continue
			}
			r.Count("correlation identifiers received", 1)
			if id == nil {
				// only if it is known to be empty
				if !c.emptyCorr(msg) {
					bad("%s does not carry the correlation identifier of a message that has one", what)
				}
			} else if !isCorr(id, msg) {
				bad("%s carries something else than the message's correlation identifier", what)
			}
		}
	}
	_ = th
}

func strOf(t *Term) (string, bool) {
	if t == nil {
		return "", false
	}
	return t.StrVal()
}

func isCorr(id, msg *Term) bool {
	return id != nil && id.Op == "call" && id.Obj != nil && id.Obj.Name() == "CorrelationID" && id.Args[0] == msg
}

// corrOf: the message encoded has a correlation identifier.
func corrOf(o *ctrlOp, enc types.Object) bool {
	f, ok := enc.(*types.Func)
	if !ok {
		return false
	}
	return corrOfType(f.Type().(*types.Signature).Recv().Type())
}

func corrOfType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == "CorrelationID" {
			return true
		}
	}
	return false
}

// emptyCorr: the path knows that the identifier of the message is empty.
func (c *ctxRead) emptyCorr(msg *Term) bool {
	for _, e := range c.t.Events {
		if e.Kind != EvBranch {
			continue
		}
		x, taken := e.Cond, e.Taken
		if x.Op == "not" {
			x, taken = x.Args[0], !taken
		}
		if x.Op != "eq" || len(x.Args) != 2 {
			continue
		}
		for i := 0; i < 2; i++ {
			if s, ok := x.Args[i].StrVal(); ok && s == "" && isCorr(x.Args[1-i], msg) && taken {
				return true
			}
			l := x.Args[1-i]
			if n, ok := x.Args[i].Int(); ok && n == 0 && taken && l.Op == "len" && isCorr(l.Args[0], msg) {
				return true
			}
		}
	}
	return false
}

// ctxTypes: the keys given to the contexts in generated code have the type of the
// keys (a plain string is another key), and the values that of a string.
func (r *Report) ctxTypes() {
	for _, x := range r.expansions(nil) {
		ast.Inspect(x.File, func(n ast.Node) bool {
			call, ok := n.(*ast.CallExpr)
			if !ok || len(call.Args) != 3 {
				return true
			}
			sel, ok := call.Fun.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			f, _ := x.Info.Uses[sel.Sel].(*types.Func)
			if f == nil || f.FullName() != "context.WithValue" {
				return true
			}
			r.Count("context values set", 1)
			if !isExtType(x.Info.Types[call.Args[1]].Type, "ContextKey") {
				r.FailAt(x.Shape.key()+":key type", r.W.PosStr(call.Pos()), "%s: a context value is set under a key of another type than extensions.ContextKey: nobody finds it", x.Shape.key())
			}
			if b, ok := x.Info.Types[call.Args[2]].Type.Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
				r.FailAt(x.Shape.key()+":value type", r.W.PosStr(call.Pos()), "%s: a context value is not a string", x.Shape.key())
			}
			return true
		})
	}
	r.Floor("context values set", 1000)
}

// ctxReaders: the functions reading the contexts. The function given runs exactly when
// the value is there (not there), and is given it.
func (r *Report) ctxReaders() {
	var fns []*ssa.Function
	for f := range ssautil.AllFunctions(r.W.Prog) {
		g := f
		if f.Origin() != nil {
			g = f.Origin()
		}
		if g.Pkg != nil && g.Pkg.Pkg.Path() == extPath && g.Parent() == nil && strings.HasPrefix(g.Name(), "IfContext") && len(f.Blocks) > 0 {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		in := r.Interp()
		args := in.ParamTerms(f)
		base := f.Name()
		if f.Origin() != nil {
			base = f.Origin().Name()
		}
		bad := func(format string, a ...any) {
			m := fmt.Sprintf(format, a...)
			r.Fail(base+":"+m, f.Pos(), "%s: %s", base, m)
		}
		fn := args[len(args)-1]
		r.Count("functions reading contexts", 1)
		for _, t := range in.Run(f, args, nil, nil) {
			r.Count("paths of functions reading contexts", 1)
			var val *Term
			var calls []*Event
			for _, e := range t.Events {
				switch {
				case e.Kind == EvCall && e.Obj != nil && e.Obj.FullName() == "(context.Context).Value":
					if e.Args[0] != args[0] || unwrap(e.Args[1]) != args[1] {
						bad("another key or context than the given one is read")
					}
					val = e.Res
				case e.Kind == EvCall && e.Callee == fn:
					calls = append(calls, e)
				}
			}
			if val == nil {
				bad("the context is not read")
				continue
			}
			isNil, known := t.IsNilTerm(val)
			typed, taken := true, false
			equal, compared := false, false
			for _, e := range t.Events {
				if e.Kind != EvBranch {
					continue
				}
				x, yes := e.Cond, e.Taken
				if x.Op == "not" {
					x, yes = x.Args[0], !yes
				}
				if x.Op == "typeok" && x.Args[0] == val {
					typed, taken = yes, true
				}
				if x.Op == "eq" && base == "IfContextValueEquals" {
					for i := 0; i < 2; i++ {
						if unwrap(x.Args[i]) == args[2] && x.Args[1-i].Mentions(val) {
							equal, compared = yes, true
						}
					}
				}
			}
			// a type assertion that succeeds, or an equality, shows that the value is there
			if taken && typed || compared && equal {
				known, isNil = true, false
			}
			if !known && len(calls) > 0 {
				bad("the function is called without knowing whether the value is there")
				continue
			}
			want := known && !isNil && typed
			switch base {
			case "IfContextNotSetWith":
				want = known && isNil
			case "IfContextValueEquals":
				want = want && compared && equal
			}
			switch {
			case len(calls) > 1:
				bad("the function is called twice")
			case want && len(calls) == 0:
				bad("the function is not called although the condition holds")
			case !want && len(calls) > 0:
				bad("the function is called although the condition does not hold")
			}
			if base == "IfContextSetWith" && len(calls) == 1 && (len(calls[0].Args) != 1 || !calls[0].Args[0].Mentions(val)) {
				bad("the function is not given the value")
			}
		}
	}
	r.Floor("functions reading contexts", 3)
	r.Floor("paths of functions reading contexts", 8)
}

func unwrap(t *Term) *Term {
	for t.Op == "iface" || t.Op == "convert" {
		t = t.Args[0]
	}
	return t
}
