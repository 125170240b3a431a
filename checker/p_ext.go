package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C36", "every path of the functions built by the middleware and error-handler factories is interpreted (continuations returning or panicking): number of continuations, what is returned, what is logged, that the message is not written to; every path of the loggers' methods is interpreted: one entry is written per call, in which the message, every given pair, every context value present and a marker of the severity are found by dataflow; the recursive functions that place a pair in the entry and render it are analysed on their own", ruleShipped)
}

// recursiveFuncs lists the functions of a package that may call themselves.
func recursiveFuncs(w *World, path string) []*ssa.Function {
	calls := map[*ssa.Function][]*ssa.Function{}
	var all []*ssa.Function
	for _, f := range w.Funcs(path) {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != path || len(f.Blocks) == 0 {
			continue
		}
		all = append(all, f)
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						calls[f] = append(calls[f], g)
					}
				}
			}
		}
	}
	var out []*ssa.Function
	for _, f := range all {
		seen := map[*ssa.Function]bool{}
		var rec func(g *ssa.Function) bool
		rec = func(g *ssa.Function) bool {
			for _, h := range calls[g] {
				if h == f {
					return true
				}
				if !seen[h] {
					seen[h] = true
					if rec(h) {
						return true
					}
				}
			}
			return false
		}
		if rec(f) {
			out = append(out, f)
		}
	}
	return out
}

const (
	mwPath  = extPath + "/middlewares"
	logPath = extPath + "/loggers"
	ehPath  = extPath + "/errorhandlers"
)

// built runs a factory and then what it returns, on all paths.
func (r *Report) built(in *Interp, factory *ssa.Function, f func(fargs, args []*Term, fn *ssa.Function, t *Trace)) {
	fargs := in.ParamTerms(factory)
	n := 0
	for _, t := range in.Run(factory, fargs, nil, nil) {
		if t.Exit == "truncated" {
			continue
		}
		if len(t.Ret) != 1 || t.Ret[0].Fn == nil {
			r.Fail("undecided:factory:"+factory.Name(), factory.Pos(), "what %s returns is not known", factory.Name())
			continue
		}
		c := t.Ret[0]
		args := in.ParamTerms(c.Fn)
		for _, u := range in.Run(c.Fn, args, c.Args, t.config()) {
			if u.Exit != "truncated" {
				n++
				f(fargs, args, c.Fn, u)
			}
		}
	}
	if n == 0 {
		r.Fail("undecided:factory:"+factory.Name(), factory.Pos(), "no path of what %s returns could be followed", factory.Name())
	}
	r.Count("factories analysed", 1)
	r.Count("paths of middlewares and handlers", n)
}

func argOf(args []*Term, is func(types.Type) bool) *Term {
	for _, a := range args {
		if a.Typ != nil && is(a.Typ) {
			return a
		}
	}
	return nil
}

func isExtPtr(name string) func(types.Type) bool {
	return func(t types.Type) bool {
		p, ok := t.(*types.Pointer)
		return ok && isExtType(p.Elem(), name)
	}
}

// deepMentions looks for y in x and in what the variables x designates hold.
func (t *Trace) deepMentions(x, y *Term) bool {
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if x == nil || seen[x] {
			return false
		}
		if x == y {
			return true
		}
		seen[x] = true
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		if v, ok := t.Mem[x]; ok && rec(v) {
			return true
		}
		return false
	}
	return rec(x)
}

// touches: an event of the path that may change the message, or settle it.
func (t *Trace) touches(msg *Term) *Event {
	for _, e := range t.Events {
		switch e.Kind {
		case EvStore, EvMapUpd, EvMapDel:
			if root(e.Addr) == msg {
				return e
			}
		case EvCall:
			if e.Obj != nil && e.Obj.Pkg() != nil && e.Obj.Pkg().Path() == extPath {
				switch e.Obj.Name() {
				case "Ack", "Nak", "AckMessage", "NakMessage":
					return e
				}
			}
			if e.Obj != nil && (isLoggerCall(e) != "" || pureNames[e.Name()]) {
				continue
			}
			for _, a := range e.Args {
				if a == msg {
					return e
				}
			}
		case EvGo:
			if e.Callee != nil && mentions(e.Callee, msg) {
				return e
			}
		}
	}
	return nil
}

// isLoggerCall gives the severity of a call to a logger.
func isLoggerCall(e *Event) string {
	if e.Kind != EvCall || e.Obj == nil || e.Obj.Pkg() == nil || e.Obj.Pkg().Path() != extPath {
		return ""
	}
	if s := e.Obj.Type().(*types.Signature); s.Recv() == nil || s.Results().Len() != 0 || s.Params().Len() != 3 {
		return ""
	}
	switch e.Obj.Name() {
	case "Info", "Warning", "Error":
		return e.Obj.Name()
	}
	return ""
}

func (t *Trace) logged(ctx *Term) (es []*Event, foreign *Event) {
	for _, e := range t.Events {
		if isLoggerCall(e) != "" {
			es = append(es, e)
			if a := lastN(e.Args, 3)[0]; !t.deepMentions(a, ctx) {
				foreign = e
			}
		}
	}
	return
}

func lastN(a []*Term, n int) []*Term {
	if len(a) < n {
		return make([]*Term, n)
	}
	return a[len(a)-n:]
}

func dynCall(e *Event, f *Term) bool {
	return e.Kind == EvCall && !e.Invoke && e.Obj == nil && e.Callee == f
}

func ruleShipped(r *Report) {
	r.shippedMiddlewares()
	r.shippedHandlers()
	r.shippedLoggers()
	r.Floor("factories analysed", 5)
	r.Floor("paths of middlewares and handlers", 9)
	r.Floor("logger methods", 6)
	r.Floor("entries written", 100)
	r.Floor("pairs followed into an entry", 100)
}

func (r *Report) shippedMiddlewares() {
	w := r.W
	var names []string
	for n, m := range w.SSA[mwPath].Members {
		if f, ok := m.(*ssa.Function); ok && f.Object() != nil && f.Object().Exported() && f.Signature.Results().Len() == 1 && isExtType(f.Signature.Results().At(0).Type(), "Middleware") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		f := w.Func(mwPath, n)
		in := r.Interp()
		bad := func(e *Event, key, msg string, a ...any) {
			p := f.Pos()
			if e != nil && e.Instr != nil && e.Instr.Pos().IsValid() {
				p = e.Pos()
			}
			r.Fail(key+":"+n, p, n+": "+msg, a...)
		}
		var next *Term
		in.PanicOn = func(e *Event) bool {
			return next == nil && e.Obj == nil && !e.Invoke && e.Callee != nil && e.Callee.Typ != nil && isExtType(e.Callee.Typ, "NextMiddleware")
		}
		seen := map[string]map[*Term]bool{} // direction -> texts logged
		panics := 0
		r.built(in, f, func(fargs, args []*Term, fn *ssa.Function, t *Trace) {
			ctx, msg, next := argOf(args, isCtxType), argOf(args, isExtPtr("BrokerMessage")), argOf(args, func(t types.Type) bool { return isExtType(t, "NextMiddleware") })
			if ctx == nil || msg == nil || next == nil {
				bad(nil, "undecided", "its parameters are not those of a middleware")
				return
			}
			if e := t.touches(msg); e != nil {
				bad(e, "alters", "the message is changed, settled or given away")
			}
			var nexts []*Event
			var panicked *Event
			for i, e := range t.Events {
				if dynCall(e, next) {
					nexts = append(nexts, e)
					if i+1 < len(t.Events) && t.Events[i+1].Kind == EvPanic && t.Events[i+1].Instr == e.Instr {
						panicked = e
					}
				}
			}
			for _, e := range nexts {
				if !t.deepMentions(e.Args[0], ctx) {
					bad(e, "context", "the continuation gets another context than the operation's")
				}
			}
			logs, foreign := t.logged(ctx)
			if foreign != nil {
				bad(foreign, "context", "the logger gets another context than the operation's")
			}
			if t.Exit == "return" && panicked == nil {
				// the operation goes on
				var res *Term
				for _, e := range nexts {
					res = e.Res
				}
				if len(nexts) > 1 {
					bad(nexts[1], "twice", "the continuation is called twice")
				}
				isNil, known := t.errNil(t.Ret[0])
				if t.Ret[0].IsNil() {
					isNil, known = true, true
				}
				switch {
				case res == nil && !(known && isNil):
					bad(nil, "aborts", "an error is returned although nothing failed below")
				case res != nil && t.Ret[0] != res:
					n1, k1 := t.errNil(res)
					if !(k1 && known && n1 && isNil) {
						bad(nexts[0], "result", "the result of what is below is not what is returned")
					}
				}
			}
			switch n {
			case "Recovery":
				if len(nexts) != 1 {
					bad(nil, "skips", "the continuation is called %d times", len(nexts))
					return
				}
				if panicked == nil {
					if len(logs) > 0 {
						bad(logs[0], "logs", "something is logged although nothing panicked")
					}
					return
				}
				panics++
				if t.Exit != "return" {
					bad(panicked, "panics", "a panic below is not recovered")
					return
				}
				if !t.nonNilErr(t.Ret[0]) {
					bad(panicked, "swallowed", "a panic below does not give an error")
				}
				if g := r.W.SSA[extPath].Var("ErrRecoveredFromPanic"); g != nil {
					found := false
					walk(t.Ret[0], func(x *Term) {
						found = found || x.Op == "global" && x.Aux == g.String()
					})
					if !found {
						bad(panicked, "swallowed", "the error given after a panic is not ErrRecoveredFromPanic")
					}
				}
				if !t.mentionsPanic(t.Ret[0]) {
					bad(panicked, "swallowed", "the error given after a panic does not tell what the panic was")
				}
				if len(logs) != 1 || isLoggerCall(logs[0]) != "Error" {
					bad(panicked, "unlogged", "a panic below is not logged once as an error")
				} else if !t.mentionsPanic(logs[0].Args[len(logs[0].Args)-2]) && !t.mentionsPanic(logs[0].Args[len(logs[0].Args)-1]) {
					bad(panicked, "unlogged", "the entry logged after a panic does not tell what the panic was")
				}
			case "Logging":
				if len(logs) > 1 {
					bad(logs[1], "logs", "a message is logged twice")
				}
				for k, v := range t.Facts {
					if !v || k.Op != "eq" {
						continue
					}
					for i := 0; i < 2; i++ {
						d, ok := k.Args[i].StrVal()
						if !ok || !mentionsStr(k.Args[1-i], constStr(r, extPath, "ContextKeyIsDirection")) {
							continue
						}
						if len(logs) != 1 || isLoggerCall(logs[0]) != "Info" {
							bad(nil, "unlogged", "a message in %s is not logged once", d)
							continue
						}
						if seen[d] == nil {
							seen[d] = map[*Term]bool{}
						}
						seen[d][logs[0].Args[len(logs[0].Args)-2]] = true
					}
				}
			case "Intercepter":
				var sends []*Event
				for _, e := range t.Events {
					if e.Kind == EvSend {
						sends = append(sends, e)
					}
				}
				if len(sends) != 1 || sends[0].Addr != fargs[0] || sends[0].Select == 2 {
					bad(nil, "lost", "the message is not sent once on the channel")
				} else if v := sends[0].Val; v != in.Load(&Config{mem: map[*Term]*Term{}, facts: t.Facts}, msg, v.Typ) {
					bad(sends[0], "lost", "what is sent on the channel is not the message")
				}
			}
		})
		switch n {
		case "Recovery":
			if panics == 0 {
				bad(nil, "undecided", "no panic of the continuation was followed")
			}
		case "Logging":
			for _, d := range []string{"reception", "publication"} {
				if len(seen[d]) == 0 {
					bad(nil, "unlogged", "messages in %s are never logged", d)
				}
			}
			for x := range seen["reception"] {
				if seen["publication"][x] {
					bad(nil, "unlogged", "receptions and publications give the same entry")
				}
			}
		}
	}
	for _, n := range []string{"Recovery", "Logging", "Intercepter"} {
		if w.Func(mwPath, n) == nil {
			r.FailAt("anchor:"+n, "-", "the middleware %s is not found", n)
		}
	}
}

func walk(x *Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		f(x)
		for _, a := range x.Args {
			rec(a)
		}
	}
	rec(x)
}

func mentionsStr(x *Term, s string) bool {
	found := false
	walk(x, func(y *Term) {
		if v, ok := y.StrVal(); ok && v == s {
			found = true
		}
	})
	return found
}

func (t *Trace) mentionsPanic(x *Term) bool {
	found := false
	var look func(x *Term, d int)
	look = func(x *Term, d int) {
		walk(x, func(y *Term) {
			found = found || y.Op == "panicval"
			if v, ok := t.Mem[y]; ok && d < 3 {
				look(v, d+1)
			}
		})
	}
	look(x, 0)
	return found
}

func (r *Report) shippedHandlers() {
	w := r.W
	for _, path := range []string{ehPath, extPath} {
		var names []string
		for n, m := range w.SSA[path].Members {
			if f, ok := m.(*ssa.Function); ok && f.Object() != nil && f.Object().Exported() && f.Signature.Results().Len() == 1 && isExtType(f.Signature.Results().At(0).Type(), "ErrorHandler") {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			f := w.Func(path, n)
			r.built(r.Interp(), f, func(fargs, args []*Term, fn *ssa.Function, t *Trace) {
				bad := func(key, msg string, a ...any) { r.Fail(key+":"+n, fn.Pos(), n+" error handler: "+msg, a...) }
				ctx, msg, err := argOf(args, isCtxType), argOf(args, isExtPtr("AcknowledgeableBrokerMessage")), argOf(args, isErrType)
				topic := argOf(args, func(t types.Type) bool { return t.String() == "string" })
				if ctx == nil || msg == nil || err == nil || topic == nil {
					bad("undecided", "its parameters are not those of an error handler")
					return
				}
				if e := t.touches(msg); e != nil {
					bad("alters", "the message is changed or settled")
				}
				logs, foreign := t.logged(ctx)
				if foreign != nil {
					bad("context", "the logger gets another context than the operation's")
				}
				if n != "Logging" {
					return
				}
				if len(logs) != 1 || isLoggerCall(logs[0]) != "Error" {
					bad("unlogged", "a failure is not logged once as an error")
					return
				}
				var told [2]bool
				for _, a := range lastN(logs[0].Args, 2) {
					told[0] = told[0] || t.deepMentions(a, err)
					told[1] = told[1] || t.deepMentions(a, topic)
				}
				if !told[0] {
					bad("unlogged", "the entry does not tell the error")
				}
				if !told[1] {
					bad("unlogged", "the entry does not tell the channel")
				}
			})
		}
	}
	if w.Func(ehPath, "Logging") == nil {
		r.FailAt("anchor:Logging", "-", "the logging error handler is not found")
	}
}

// ---- loggers ---------------------------------------------------------------

// what each shipped logger tells of the operation.
var loggerContext = map[string][]string{
	"ECS":  {"ContextKeyIsProvider", "ContextKeyIsChannel", "ContextKeyIsDirection", "ContextKeyIsBrokerMessage", "ContextKeyIsCorrelationID"},
	"Text": {"ContextKeyIsChannel", "ContextKeyIsBrokerMessage", "ContextKeyIsCorrelationID"},
}

func isOutput(e *Event) bool {
	if e.Kind != EvCall {
		return false
	}
	if e.Obj == nil {
		return e.Callee != nil && e.Callee.Op == "builtin" && (e.Callee.Aux == "print" || e.Callee.Aux == "println")
	}
	n := e.Obj.Name()
	if e.Obj.Pkg() == nil {
		return false
	}
	switch e.Obj.Pkg().Path() {
	case "fmt", "log", "github.com/fatih/color", "log/slog":
		return strings.HasPrefix(n, "Print") || strings.HasPrefix(n, "Fprint") || n == "Output"
	case "os", "io", "bufio":
		return strings.HasPrefix(n, "Write")
	}
	return false
}

func (r *Report) shippedLoggers() {
	w := r.W
	var names []string
	iface := w.Pkgs[extPath].Types.Scope().Lookup("Logger").Type().Underlying().(*types.Interface)
	for n, m := range w.SSA[logPath].Members {
		if t, ok := m.(*ssa.Type); ok && t.Object().Exported() && types.Implements(t.Type(), iface) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	units := map[string]*ssa.Function{}
	for _, f := range recursiveFuncs(w, logPath) {
		units[fnObj(f).FullName()] = f
	}
	roles := map[*ssa.Function][2]int{} // where a unit gets the key and the value
	for _, n := range names {
		ctor := r.loggerFields(n)
		for _, sev := range []string{"Info", "Warning", "Error"} {
			f := w.methodOf(w.SSA[logPath].Members[n].(*ssa.Type).Type(), sev)
			if f == nil {
				r.FailAt("anchor:"+n+"."+sev, "-", "%s has no method %s", n, sev)
				continue
			}
			r.Count("logger methods", 1)
			in := r.Interp()
			for u := range units {
				in.Opaque[u] = true
			}
			args := in.ParamTerms(f)
			for _, t := range in.Run(f, args, nil, nil) {
				if t.Exit == "truncated" {
					continue
				}
				r.entry(in, n, sev, f, args, t, units, roles, ctor)
			}
		}
	}
	for n := range loggerContext {
		if w.SSA[logPath].Members[n] == nil {
			r.FailAt("anchor:"+n, "-", "the logger %s is not found", n)
		}
	}
	for _, u := range recursiveFuncs(w, logPath) {
		if ro, ok := roles[u]; ok {
			r.placing(u, ro)
		} else if u.Signature.Results().Len() == 1 && u.Signature.Results().At(0).Type().String() == "string" {
			r.rendering(u)
		}
	}
}

// loggerFields: what the constructor puts in each field of a logger.
func (r *Report) loggerFields(name string) map[string]*Term {
	out := map[string]*Term{}
	for _, m := range r.W.SSA[logPath].Members {
		f, ok := m.(*ssa.Function)
		if !ok || f.Signature.Results().Len() == 0 {
			continue
		}
		nt, ok := f.Signature.Results().At(0).Type().(*types.Named)
		if !ok || nt.Obj().Name() != name {
			continue
		}
		in := r.Interp()
		for _, t := range in.Run(f, in.ParamTerms(f), nil, nil) {
			st := structOf(nt)
			for i := 0; st != nil && i < st.NumFields() && len(t.Ret) > 0; i++ {
				out[st.Field(i).Name()] = in.T.Field(t.Ret[0], nt, i)
			}
		}
	}
	return out
}

// severities lists the severities a value carries a mark of.
func severities(x *Term, recv *Term, fields map[string]*Term, out map[string]bool) {
	walk(x, func(y *Term) {
		if s, ok := y.StrVal(); ok {
			switch strings.ToLower(s) {
			case "info", "information":
				out["Info"] = true
			case "warn", "warning":
				out["Warning"] = true
			case "err", "error":
				out["Error"] = true
			}
		}
		if y.Op == "call" && y.Obj != nil && y.Obj.Pkg() != nil && y.Obj.Pkg().Path() == "github.com/fatih/color" {
			walk(y, func(z *Term) {
				if n, ok := z.Int(); ok {
					switch n {
					case 31, 91:
						out["Error"] = true
					case 33, 93:
						out["Warning"] = true
					case 37, 97:
						out["Info"] = true
					}
				}
			})
		}
		if y.Op == "field" && y.Args[0] == recv && y.Obj != nil && fields[y.Obj.Name()] != nil {
			severities(fields[y.Obj.Name()], recv, nil, out)
		}
	})
}

func isInfoList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isExtType(s.Elem(), "LogInfo")
}

// parts lists the pairs of a list of pairs built on a path, and what it starts from.
func parts(x *Term, list *[]*Term, bases map[*Term]bool) {
	switch x.Op {
	case "append":
		parts(x.Args[0], list, bases)
		parts(x.Args[1], list, bases)
	case "list":
		*list = append(*list, x.Args...)
	case "nil", "zero":
	case "slice":
		bases[x] = true
	default:
		bases[x] = true
	}
}

func (r *Report) entry(in *Interp, name, sev string, f *ssa.Function, args []*Term, t *Trace, units map[string]*ssa.Function, roles map[*ssa.Function][2]int, fields map[string]*Term) {
	id := name + "." + sev
	bad := func(key, msg string, a ...any) { r.Fail(key+":"+id, f.Pos(), id+": "+msg, a...) }
	recv, ctx := args[0], argOf(args[1:], isCtxType)
	msg := argOf(args[1:], func(t types.Type) bool { return t.String() == "string" })
	info := argOf(args[1:], isInfoList)
	if ctx == nil || msg == nil || info == nil {
		bad("undecided", "its parameters are not those of a logger")
		return
	}
	if t.Exit != "return" {
		bad("panics", "a call panics")
		return
	}
	var outs []*Event
	for _, e := range t.Events {
		if isOutput(e) {
			outs = append(outs, e)
		}
	}
	if len(outs) != 1 {
		bad("entries", "a call writes %d entries", len(outs))
		return
	}
	r.Count("entries written", 1)
	// what is put in the entry
	type ins struct {
		e   *Event
		mid *Term // map
	}
	var puts []ins
	cont := map[*Term]bool{}
	for _, e := range t.Events {
		switch e.Kind {
		case EvMapUpd:
			puts = append(puts, ins{e, e.Addr})
			cont[e.Addr] = true
		case EvCall:
			if units[e.Name()] == nil {
				continue
			}
			for _, a := range e.Args {
				if a.Typ == nil {
					continue
				}
				if _, ok := a.Typ.Underlying().(*types.Map); ok {
					puts = append(puts, ins{e, a})
					cont[a] = true
					if e.Res != nil {
						cont[e.Res] = true
					}
				}
			}
		}
	}
	out := outs[0]
	tells := func(x *Term) bool {
		for _, a := range out.Args {
			if t.deepMentions(a, x) {
				return true
			}
		}
		return false
	}
	whole := false
	for c := range cont {
		whole = whole || tells(c)
	}
	for _, p := range puts {
		if len(p.e.Args) > 0 {
			for _, a := range p.e.Args {
				whole = whole || p.e.Kind == EvCall && tells(a) && cont[a]
			}
		}
	}
	// the JSON encoder of a map of strings does not fail
	for _, e := range t.Events {
		if e.Kind == EvCall && e.Name() == "encoding/json.Marshal" {
			if n, k := t.errNil(in.extract(e.Res, 1)); k && !n {
				return
			}
		}
	}
	placed := func(k, v *Term) bool {
		if tells(k) && tells(v) && len(puts) == 0 {
			return true
		}
		for _, p := range puts {
			var as []*Term
			if p.e.Kind == EvMapUpd {
				as = []*Term{p.e.Args[0], p.e.Val}
			} else {
				as = p.e.Args
			}
			ki, vi := -1, -1
			for i, a := range as {
				if a == p.mid {
					continue
				}
				if ki < 0 && t.deepMentions(a, k) {
					ki = i
				} else if t.deepMentions(a, v) {
					vi = i
				}
			}
			if ki >= 0 && vi >= 0 {
				if u := units[p.e.Name()]; u != nil && p.e.Kind == EvCall {
					roles[u] = [2]int{ki, vi}
				}
				return true
			}
		}
		return false
	}
	if !whole && len(puts) > 0 {
		bad("lost", "what is gathered is not what is written")
	}
	// the lists of pairs that are gone through
	var pairs []*Term
	bases := map[*Term]bool{}
	for _, it := range t.iterationsOf(func(x *Term) bool { return x.Typ != nil && isInfoList(x.Typ) }, func(m *Term, i int, e *Term) (pair, bool) {
		return pair{in.fieldByName(e, "Key"), in.fieldByName(e, "Value")}, true
	}) {
		if !it.complete {
			bad("lost", "some pairs are not gone through")
			continue
		}
		for _, p := range it.pairs {
			r.Count("pairs followed into an entry", 1)
			if !placed(p.k, p.v) {
				bad("lost", "a pair is not put in the entry")
			}
		}
		parts(it.src, &pairs, bases)
	}
	if !bases[info] && !tells(info) {
		bad("lost", "the pairs given by the caller are not part of the entry")
	}
	keys := map[string]bool{}
	sevs := map[string]bool{}
	var values []*Term
	for _, p := range pairs {
		v := in.fieldByName(p, "Value")
		values = append(values, v)
		if k, ok := in.fieldByName(p, "Key").StrVal(); ok {
			if keys[k] {
				bad("conflict", "two values are put under %q", k)
			}
			keys[k] = true
		}
		severities(v, recv, fields, sevs)
	}
	for _, p := range puts {
		if p.e.Kind == EvMapUpd {
			values = append(values, p.e.Val)
			if s, ok := p.e.Args[0].StrVal(); ok && s != "" {
				severities(p.e.Val, recv, fields, sevs)
			}
		} else {
			values = append(values, p.e.Args...)
		}
	}
	for a := range keys {
		for b := range keys {
			if strings.HasPrefix(b, a+".") {
				bad("conflict", "the value under %q hides the one under %q", b, a)
			}
		}
	}
	for _, a := range out.Args {
		severities(a, recv, fields, sevs)
	}
	told := func(x *Term) bool {
		for _, v := range values {
			if t.deepMentions(v, x) {
				return true
			}
		}
		return len(puts) == 0 && tells(x)
	}
	if !told(msg) {
		bad("lost", "the message is not part of the entry")
	}
	if !sevs[sev] || len(sevs) != 1 {
		bad("severity", "the entry is marked as %s", strings.Join(sortedKeys(sevs), ", "))
	}
	want := loggerContext[name]
	if want == nil {
		want = loggerContext["Text"]
	}
	for _, k := range want {
		ks := constStr(r, extPath, k)
		var val *Term
		for _, e := range t.Events {
			if e.Kind == EvCall && e.Invoke && e.Obj.Name() == "Value" && e.Obj.Pkg().Path() == "context" && mentionsStr(e.Args[len(e.Args)-1], ks) && mentions(e.Args[0], ctx) {
				val = e.Res
			}
		}
		if val == nil {
			bad("context", "the value of %s in the context is not read", k)
			continue
		}
		if isNil, known := t.IsNilTerm(val); known && isNil {
			continue
		}
		r.Count("context values followed into an entry", 1)
		if k == "ContextKeyIsDirection" {
			for f, v := range t.Facts {
				if f.Op != "eq" || !v {
					continue
				}
				for i := 0; i < 2; i++ {
					d, ok := f.Args[i].StrVal()
					if !ok || !mentions(f.Args[1-i], val) {
						continue
					}
					stem := map[string]string{"publication": "publi", "reception": "rec"}[d]
					found := false
					for _, v := range values {
						walk(v, func(y *Term) {
							if s, ok := y.StrVal(); ok && stem != "" && strings.HasPrefix(s, stem) {
								found = true
							}
						})
					}
					if !found && !told(val) {
						bad("context", "the direction %q of the operation is not part of the entry", d)
					}
				}
			}
			continue
		}
		if !told(val) {
			bad("context", "the value of %s in the context is not part of the entry", k)
		}
	}
}

// placing: a unit that puts a value under a key of nested maps.
func (r *Report) placing(u *ssa.Function, role [2]int) {
	in := r.Interp()
	in.Opaque[fnObj(u).FullName()] = true
	args := in.ParamTerms(u)
	bad := func(e *Event, msg string, a ...any) {
		p := u.Pos()
		if e != nil {
			p = e.Pos()
		}
		r.Fail("placing:"+u.Name(), p, u.Name()+": "+msg, a...)
	}
	key, val := args[role[0]], args[role[1]]
	m := argOf(args, func(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok })
	if m == nil {
		return
	}
	r.Count("recursive functions analysed", 1)
	for _, t := range in.Run(u, args, nil, nil) {
		if t.Exit == "truncated" {
			continue
		}
		if t.Exit != "return" {
			bad(nil, "it may panic")
			continue
		}
		if len(t.Ret) > 0 && t.Ret[0] != m {
			bad(nil, "it does not give back the map it was given")
		}
		done := false
		for _, e := range t.Events {
			switch e.Kind {
			case EvMapDel:
				bad(e, "it removes entries")
			case EvMapUpd:
				if e.Addr != m {
					continue
				}
				switch {
				case !mentions(e.Args[0], key):
					bad(e, "it writes under a key that does not come from the key asked for")
				case mentions(e.Val, val) || e.Val == val:
					done = true
					if e.Val != val && !isSelfCall(e.Val, u) {
						bad(e, "it does not store the value itself")
					}
				default:
					// the sub-map filled by the recursive call
					for _, c := range t.Events {
						if c.Kind == EvCall && c.Obj == fnObj(u) && c.Args[role[1]] == val && contains(c.Args, e.Val) {
							done = true
						}
					}
					if !done {
						bad(e, "it stores something else than the value")
					}
				}
			case EvCall:
				if e.Obj != fnObj(u) {
					continue
				}
				if e.Args[role[1]] != val {
					bad(e, "it places another value deeper")
				}
				if e.Args[role[0]] == key || !mentions(e.Args[role[0]], key) {
					bad(e, "it places the value deeper under the wrong key")
				}
				sub := argOf(e.Args, func(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok })
				// what was there is kept
				absent := false
				for f, v := range t.Facts {
					absent = absent || !v && (f.Op == "typeok" || f.Op == "has") && mentions(f, m)
					absent = absent || v && f.Op == "eq" && mentions(f, m) && (f.Args[0].IsNil() || f.Args[1].IsNil())
				}
				if sub != nil && !mentions(sub, m) && !absent {
					bad(e, "it forgets the values already under the key")
				}
				walk(e.Args[role[0]], func(x *Term) {
					if x.Op != "call" || x.Obj == nil || fullName(x.Obj) != "strings.Join" || len(x.Args) < 1 {
						return
					}
					y := x.Args[0]
					if y.Op == "call" {
						bad(e, "it places the value deeper under the same key")
					} else if y.Op == "slice" && len(y.Args) > 1 {
						if n, ok := y.Args[1].Int(); ok && n != 1 || y.Args[1].IsNil() {
							bad(e, "it places the value deeper under the wrong key")
						}
					}
				})
			}
		}
		if !done {
			bad(nil, "it does not store the value")
		}
	}
}

func contains(l []*Term, x *Term) bool {
	for _, a := range l {
		if a == x {
			return true
		}
	}
	return false
}

func isSelfCall(x *Term, u *ssa.Function) bool { return x.Op == "call" && x.Obj == fnObj(u) }

// rendering: a unit that turns nested maps into text.
func (r *Report) rendering(u *ssa.Function) {
	in := r.Interp()
	in.Opaque[fnObj(u).FullName()] = true
	in.MaxForks = 3
	args := in.ParamTerms(u)
	isMap := func(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok }
	m := argOf(args, isMap)
	if m == nil {
		return
	}
	r.Count("recursive functions analysed", 1)
	bad := func(e *Event, msg string, a ...any) {
		p := u.Pos()
		if e != nil {
			p = e.Pos()
		}
		r.Fail("rendering:"+u.Name(), p, u.Name()+": "+msg, a...)
	}
	for _, t := range in.Run(u, args, nil, nil) {
		if t.Exit == "truncated" || t.Exit != "return" {
			continue
		}
		ret := t.Ret[0]
		through := false
		for _, it := range t.iterationsOf(func(x *Term) bool { return x == m }, func(m *Term, i int, e *Term) (pair, bool) { return pair{}, false }) {
			through = through || it.complete
			for _, p := range it.pairs {
				if !t.deepMentions(ret, p.k) || !t.deepMentions(ret, p.v) {
					bad(nil, "an entry is not rendered")
				}
			}
		}
		for _, e := range t.Events {
			if e.Kind == EvCall && e.Obj == fnObj(u) && contains(e.Args, m) && t.deepMentions(ret, e.Res) {
				through = true
			}
			if e.Kind == EvMapDel && e.Addr == m {
				found := false
				walk(ret, func(y *Term) {
					found = found || y.Op == "lookup" && y.Args[0] == m && y.Args[1] == e.Args[0]
				})
				if !found {
					bad(e, "an entry is removed without being rendered")
				}
			}
		}
		if !through {
			empty := false
			for f, v := range t.Facts {
				if v && f.Op == "eq" && (mentions(f, m) && strings.Contains(f.String(), "len(")) {
					empty = true
				}
			}
			if !empty {
				bad(nil, "the entries are not all rendered")
			}
		}
	}
}
