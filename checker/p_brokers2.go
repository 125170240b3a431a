package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C06", "every path of the adapters' constructors, options, publications and subscriptions, and of the version wrapper, is interpreted with each library call both succeeding and failing: the status of every call is looked at, a failure ends in a non-nil error (or in a successful retry where the code tests for a given error), no success is returned without the call that does the work, and failures in handlers, goroutines, clean-ups and acknowledgements are logged", ruleBrokerErrors)
	register("C07", "the acknowledgement handler of every message given to a subscription is run (interpreted) in the state the adapter's code leaves behind: what it commits, acknowledges or refuses must be that very message, exactly once, as the configured mode requires; other settlements in the adapters are allowed only for messages no subscription covers", ruleBrokerSettlement)
}

// errorResult gives the error result of a call, if any.
func (in *Interp) errorResult(e *Event) *Term {
	if e.Res == nil {
		return nil
	}
	if tp, ok := e.Res.Typ.(*types.Tuple); ok {
		if n := tp.Len(); n > 0 && isErrorType(tp.At(n-1).Type()) {
			return in.extract(e.Res, n-1)
		}
		return nil
	}
	if e.Res.Typ != nil && isErrorType(e.Res.Typ) {
		return e.Res
	}
	return nil
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// isLater: running code that other code was given: a handler, a goroutine.
func (th thread) isLater() bool { return th.spawn != "" }

// fallible: a call of the broker library, of the wrapped broker or of a
// configuration function.
func (in *Interp) fallible(e *Event) *Term {
	if e.Kind != EvCall {
		return nil
	}
	er := in.errorResult(e)
	if er == nil {
		return nil
	}
	if isLib(e) {
		return er
	}
	if e.Obj == nil {
		return er // an unknown function: an option
	}
	if e.Invoke && e.Obj.Pkg() != nil && e.Obj.Pkg().Path() == extPath {
		return er
	}
	return nil
}

// nonNilErr: this path knows the error is one.
func (t *Trace) nonNilErr(x *Term) bool {
	if x == nil || x.IsNil() {
		return false
	}
	if n, k := t.errNil(x); k {
		return !n
	}
	switch x.Op {
	case "alloc", "struct":
		return true
	case "call":
		if x.Obj == nil {
			return false
		}
		switch fullName(x.Obj) {
		case "fmt.Errorf", "errors.New":
			return true
		case "errors.Join":
			for _, a := range x.Args {
				if a.Op != "list" {
					continue
				}
				for _, b := range a.Args {
					if t.nonNilErr(b) {
						return true
					}
				}
			}
		}
	case "load":
		// an error kept in a package-level variable
		return x.Args[0].Op == "global"
	}
	return false
}

func isLogCall(e *Event) bool {
	if e.Kind != EvCall || e.Obj == nil {
		return false
	}
	switch e.Obj.Name() {
	case "Error", "Warning":
		s := e.Obj.Type().(*types.Signature)
		return s.Recv() != nil && s.Results().Len() == 0 && e.Obj.Pkg() != nil && e.Obj.Pkg().Path() == extPath
	}
	return false
}

// checkErrors judges the failures of one exploration.
func (r *Report) checkErrors(who string, in *Interp, th thread, foreground bool) {
	bad := func(key string, e *Event, format string, x ...any) {
		r.Fail(who+":"+key, e.Pos(), "%s: "+format, append([]any{who}, x...)...)
	}
	for _, t := range th.traces {
		if t.Exit == "panic" {
			continue
		}
		var ret *Term
		if foreground && len(t.Ret) > 0 {
			ret = t.Ret[len(t.Ret)-1]
		}
		for i, e := range t.Events {
			er := in.fallible(e)
			if er == nil {
				continue
			}
			if e.Obj != nil && e.Obj.Name() == "Close" && foreground {
				continue // giving something up
			}
			r.Count("library calls judged", 1)
			name := "an option"
			if e.Obj != nil {
				name = e.Obj.Name()
			}
			isNil, known := t.errNil(er)
			if known && isNil {
				continue
			}
			if t.Exit == "truncated" && !known {
				continue
			}
			if ret != nil && wraps(ret, er) {
				r.Count("failures returned", 1)
				continue
			}
			if !known {
				bad("ignored:"+name, e, "the error of %s is not looked at", name)
				continue
			}
			// a failure
			if t.Exit == "truncated" {
				continue
			}
			excused := false
			for f, v := range t.Facts {
				if f.Op != "call" || f.Obj == nil || fullName(f.Obj) != "errors.Is" || f.Args[0] != er || !v {
					continue
				}
				if foreground {
					for _, x := range t.Events[i+1:] {
						if xe := in.fallible(x); xe != nil && (x.Obj == nil || x.Obj.Name() != "Close") {
							if n, k := t.errNil(xe); k && n || ret != nil && wraps(ret, xe) {
								excused = true
							}
						}
					}
				} else if s := f.Args[1]; s.Op == "load" && s.Args[0].Op == "global" && s.Args[0].Aux == "io.EOF" {
					excused = true
				}
			}
			if excused {
				r.Count("failures answered by another call", 1)
				continue
			}
			if foreground {
				if t.nonNilErr(ret) {
					r.Count("failures returned", 1)
					continue
				}
				bad("swallowed:"+name, e, "a failure of %s is not returned", name)
				continue
			}
			logged := false
			for _, x := range t.Events[i+1:] {
				logged = logged || isLogCall(x)
			}
			if !logged {
				bad("unlogged:"+name, e, "a failure of %s in the background is not logged", name)
				continue
			}
			r.Count("failures logged", 1)
		}
	}
}

func (r *Report) errorsInterp() *Interp {
	in := r.brokerInterp(0)
	in.Callbacks = true
	return in
}

func ruleBrokerErrors(r *Report) {
	for _, a := range r.adapters() {
		if a.pub == nil || a.sub == nil {
			continue
		}
		fns := append([]*ssa.Function{a.pub, a.sub}, a.ctors...)
		for _, fn := range fns {
			in := r.errorsInterp()
			var ths []thread
			for _, th := range in.threads(fn, in.ParamTerms(fn), nil) {
				r.checkErrors(a.name+"."+fn.Name(), in, th, !th.isLater())
				ths = append(ths, th)
			}
			if len(ths) == 0 {
				continue
			}
			switch {
			case fn == a.pub:
				r.workDone(a, in, ths[0], fn, publishCall)
			case fn == a.sub:
				r.workDone(a, in, ths[0], fn, subscribeCall)
				r.ackErrors(a, in, ths)
			default:
				r.ctorDone(a, in, ths[0], fn)
			}
		}
		for _, o := range a.opts {
			in := r.errorsInterp()
			for _, t := range in.Run(o, in.ParamTerms(o), nil, nil) {
				if t.Exit != "return" || len(t.Ret) != 1 || t.Ret[0].Fn == nil {
					r.Fail(a.name+":option:"+o.Name(), o.Pos(), "%s: the option %s does not return a known function", a.name, o.Name())
					continue
				}
				c := t.Ret[0]
				r.Count("options", 1)
				for _, th := range in.threads2(c.Fn, in.ParamTerms(c.Fn), c.Args, t.config()) {
					r.checkErrors(a.name+"."+o.Name(), in, th, !th.isLater())
				}
			}
		}
	}
	// the version wrapper
	for _, n := range []string{"Publish", "Subscribe"} {
		fn := r.W.Func(extPath+"/versioning", "Wrapper."+n)
		if fn == nil {
			r.FailAt("wrapper", "-", "the version wrapper has no method %s", n)
			continue
		}
		in := r.errorsInterp()
		for _, th := range in.threads(fn, in.ParamTerms(fn), nil) {
			r.checkErrors("versioning."+n, in, th, !th.isLater())
			if th.isLater() {
				continue
			}
			for _, t := range th.traces {
				if n != "Publish" || t.Exit != "return" || t.nonNilErr(t.Ret[len(t.Ret)-1]) {
					continue
				}
				done := false
				for _, e := range t.Events {
					done = done || e.Kind == EvCall && e.Invoke && e.Obj.Name() == "Publish"
				}
				if !done {
					r.Fail("versioning.Publish:nothing", fn.Pos(), "the version wrapper can report success without publishing")
				}
			}
		}
	}
	r.Floor("library calls judged", 40)
	r.Floor("failures returned", 20)
	r.Floor("failures logged", 6)
	r.Floor("options", 12)
	r.Floor("work checked", 12)
}

func subscribeCall(e *Event) bool {
	return libCall(e, "QueueSubscribe", "Subscribe", "ChanSubscribe", "ChanQueueSubscribe", "NewReader", "Consume", "Messages")
}

// workDone: success is only reported after the call that does the work.
func (r *Report) workDone(a *adapter, in *Interp, th thread, fn *ssa.Function, work func(*Event) bool) {
	for _, t := range th.traces {
		if t.Exit != "return" {
			continue
		}
		ret := t.Ret[len(t.Ret)-1]
		if t.nonNilErr(ret) {
			continue
		}
		r.Count("work checked", 1)
		done := false
		for i, e := range t.Events {
			if !work(e) {
				continue
			}
			er := in.errorResult(e)
			ok := er == nil || wraps(ret, er)
			if er != nil {
				if n, k := t.errNil(er); k && n {
					ok = true
				}
			}
			// core NATS only buffers what is published
			if ok && fn == a.pub && e.Obj.Pkg().Path() == "github.com/nats-io/nats.go" && recvName(e.Obj) == "Conn" {
				ok = false
				for _, x := range t.Events[i+1:] {
					if libCall(x, "Flush", "FlushTimeout", "FlushWithContext") {
						fe := in.errorResult(x)
						if n, k := t.errNil(fe); k && n || wraps(ret, fe) {
							ok = true
						}
					}
				}
				if !ok {
					r.Fail(a.name+":flush", e.Pos(), "%s: a publication is reported as successful although it is only buffered", a.name)
					return
				}
			}
			done = done || ok
			// asynchronous writers report nothing
			if e.Obj.Name() == "WriteMessages" && e.Val != nil {
				if as := in.fieldByName(e.Val, "Async"); as.Op != "zero" {
					if v, known := boolConst(as); !known || v {
						r.Fail(a.name+":async", e.Pos(), "%s: the writer is asynchronous, failures are not reported", a.name)
					}
				}
			}
		}
		if !done && fn == a.sub {
			// a consumer already running
			for f, v := range t.Facts {
				if f.Op != "eq" || v {
					continue
				}
				x := f.Args[0]
				if x.IsNil() {
					x = f.Args[1]
				}
				if x.Op == "load" && libType(x.Typ) == "ConsumeContext" {
					done = true
				}
			}
		}
		if !done {
			r.Fail(a.name+":nothing:"+fn.Name(), fn.Pos(), "%s: %s can report success without the library call that does the work having succeeded", a.name, fn.Name())
		}
		if fn == a.sub {
			waited := false
			for _, e := range t.Events {
				if e.Kind == EvCall && e.Name() == "("+extPath+".BrokerChannelSubscription).WaitForCancellationAsync" && e.Args[0] == t.Ret[0] {
					waited = true
				}
			}
			if !waited {
				r.Fail(a.name+":uncancellable", fn.Pos(), "%s: a subscription is returned whose cancellation nobody waits for", a.name)
			}
		}
	}
}

func boolConst(t *Term) (v, ok bool) {
	if t.Op == "const" && t.C != nil {
		return t.C.String() == "true", true
	}
	return false, false
}

// libType gives the name of a type of a broker library.
func libType(t types.Type) string {
	if t == nil {
		return ""
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	for _, p := range libPaths {
		if pp := n.Obj().Pkg().Path(); pp == p || len(pp) > len(p) && pp[:len(p)+1] == p+"/" {
			return n.Obj().Name()
		}
	}
	return ""
}

func recvName(o *types.Func) string {
	s := o.Type().(*types.Signature)
	if s.Recv() == nil {
		return ""
	}
	t := s.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// ctorDone: a controller returned without error has its connection.
func (r *Report) ctorDone(a *adapter, in *Interp, th thread, fn *ssa.Function) {
	st := structOf(a.typ)
	for _, t := range th.traces {
		if t.Exit != "return" || t.nonNilErr(t.Ret[len(t.Ret)-1]) {
			continue
		}
		r.Count("work checked", 1)
		for i := 0; i < st.NumFields(); i++ {
			lt := libType(st.Field(i).Type())
			if lt != "Conn" && lt != "JetStream" && lt != "Dialer" {
				continue
			}
			v := in.Load(t.config(), in.T.FieldAddr(t.Ret[0], a.typ, i), st.Field(i).Type())
			ok := v.Op == "alloc"
			if n, k := t.IsNilTerm(v); k && !n {
				ok = true
			}
			if v.Op == "extract" && v.Args[0].Op == "call" {
				if n, k := t.errNil(in.T.mk("extract", "1", nil, v.Args[0])); k && n {
					ok = true
				}
			}
			if v.Op == "havoc" || v.Op == "field" && v.Args[0].Op == "havoc" || v.Op == "load" {
				// whatever an option put there, once known to be something
				ok = ok || lt == "Dialer"
			}
			if !ok {
				r.Fail(a.name+":"+fn.Name()+":"+lt, fn.Pos(), "%s: %s can succeed without its %s (%s)", a.name, fn.Name(), lt, v)
			}
		}
	}
}

// ackErrors: failed acknowledgements are logged.
func (r *Report) ackErrors(a *adapter, in *Interp, ths []thread) {
	for _, th := range ths {
		for _, t := range th.traces {
			for _, e := range t.Events {
				if !isTransmitCall(e) || len(e.Args) < 2 {
					continue
				}
				_, _, ack := in.ackParts(e.Args[1])
				for _, n := range []string{"AckMessage", "NakMessage"} {
					ts := r.runAck(in, t, ack, n)
					r.checkErrors(a.name+"."+n, in, thread{fn: a.sub, traces: ts, spawn: "ack"}, false)
				}
			}
		}
	}
}

func isTransmitCall(e *Event) bool { return e.Kind == EvCall && isTransmit(e) }

// config is the state at the end of a path.
func (t *Trace) config() *Config {
	return &Config{mem: t.Mem, facts: t.Facts}
}

// runAck interprets a method of an acknowledgement handler, in the state at
// the end of the path that built it.
func (r *Report) runAck(in *Interp, t *Trace, ack *Term, name string) []*Trace {
	if ack == nil || ack.Typ == nil {
		return nil
	}
	fn := r.W.methodOf(ack.Typ, name)
	if fn == nil {
		r.FailAt("ack:"+name, "-", "the acknowledgement handler of a message is not known (%s)", ack)
		return nil
	}
	arg := ack
	if _, isPtr := fn.Signature.Recv().Type().(*types.Pointer); !isPtr {
		if _, isPtr := ack.Typ.(*types.Pointer); isPtr {
			arg = in.Load(t.config(), ack, fn.Signature.Recv().Type())
		}
	}
	return in.Run(fn, []*Term{arg}, nil, t.config())
}

// methodOf finds the method of a concrete type.
func (w *World) methodOf(t types.Type, name string) *ssa.Function {
	if types.IsInterface(t) {
		return nil
	}
	ms := w.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if f := ms.At(i).Obj().(*types.Func); f.Name() == name {
			if fn := w.Prog.FuncValue(f); fn != nil {
				return fn
			}
			return w.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func settles(e *Event) bool {
	return libCall(e, "CommitMessages", "Ack", "DoubleAck", "AckSync", "Nak", "NakWithDelay", "Term", "TermWithReason", "CommitOffsets")
}

// fieldSetBy finds the field an option sets to its parameter of the given type.
func (r *Report) fieldSetBy(a *adapter, is func(types.Type) bool, option string) *types.Var {
	var out *types.Var
	for _, o := range a.opts {
		if option != "" && o.Name() != option {
			continue
		}
		in := r.brokerInterp(0)
		ps := in.ParamTerms(o)
		for _, t := range in.Run(o, ps, nil, nil) {
			if t.Exit != "return" || len(t.Ret) != 1 || t.Ret[0].Fn == nil {
				continue
			}
			c := t.Ret[0]
			for _, u := range in.Run(c.Fn, in.ParamTerms(c.Fn), c.Args, t.config()) {
				for _, e := range u.Events {
					if e.Kind != EvStore || e.Addr.Op != "fieldaddr" {
						continue
					}
					for _, p := range ps {
						if e.Val == p && is(p.Typ) {
							out, _ = e.Addr.Obj.(*types.Var)
						}
					}
				}
			}
		}
	}
	return out
}

func isDuration(t types.Type) bool { return t != nil && t.String() == "time.Duration" }
func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func ruleBrokerSettlement(r *Report) {
	for _, a := range r.adapters() {
		if a.sub == nil {
			continue
		}
		r.adapterSettlement(a)
	}
	r.Floor("messages settled", 24)
	r.Floor("commits by settlement", 8)
	r.Floor("acknowledgements by settlement", 2)
	r.Floor("refusals by settlement", 2)
	r.Floor("messages without subscription", 1)
	r.Floor("commit modes", 2)
}

func (r *Report) adapterSettlement(a *adapter) {
	in := r.brokerInterp(0)
	in.Callbacks = true
	// whether a subject matches is the business of another property
	for _, m := range r.W.SSA[a.pkg].Members {
		if f, ok := m.(*ssa.Function); ok && f.Object() != nil && isMatcher(f.Signature) {
			in.Opaque[f.Object().(*types.Func).FullName()] = true
		}
	}
	bad := func(key string, e *Event, format string, x ...any) {
		r.Fail(a.name+":"+key, e.Pos(), "adapter %s: "+format, append([]any{a.name}, x...)...)
	}
	auto := r.fieldSetBy(a, isBoolType, "WithAutoCommit")
	delay := r.fieldSetBy(a, isDuration, "")
	ths := in.threads(a.sub, in.ParamTerms(a.sub), nil)
	// what is put in the tables is never nil, what is found there neither
	filled := map[*types.Var]bool{}
	for _, th := range ths {
		for _, t := range th.traces {
			for _, e := range t.Events {
				if e.Kind == EvMapUpd && e.Addr.Op == "load" && e.Addr.Args[0].Op == "fieldaddr" {
					f := e.Addr.Args[0].Obj.(*types.Var)
					if _, seen := filled[f]; !seen {
						filled[f] = true
					}
					n, k := t.IsNilTerm(e.Val)
					filled[f] = filled[f] && (e.Val.Op == "alloc" || k && !n)
				}
			}
		}
	}
	impossible := func(t *Trace) bool {
		for f, v := range t.Facts {
			if f.Op != "eq" || !v || !f.Args[0].IsNil() && !f.Args[1].IsNil() {
				continue
			}
			x := f.Args[0]
			if x.IsNil() {
				x = f.Args[1]
			}
			if x.Op == "nextval" {
				m := x.Args[0].Args[0].Args[0]
				if m.Op == "load" && m.Args[0].Op == "fieldaddr" && filled[m.Args[0].Obj.(*types.Var)] {
					return true
				}
			}
		}
		return false
	}
	r.commitMode(a, in, ths, auto, bad)
	for _, th := range ths {
		for _, t := range th.traces {
			if !impossible(t) {
				r.ownSettlements(a, in, t, bad)
			}
			for _, ar := range in.arrivals(t) {
				for _, e := range ar.evs {
					if !isTransmitCall(e) || len(e.Args) < 2 || ar.failed {
						continue
					}
					_, _, ack := in.ackParts(e.Args[1])
					for _, n := range []string{"AckMessage", "NakMessage"} {
						r.judgeAck(a, in, t, ar, e, ack, n, delay, bad)
					}
				}
			}
		}
	}
}

func isMatcher(s *types.Signature) bool {
	if s.Recv() != nil || s.Params().Len() != 2 || s.Results().Len() != 1 || !isBoolType(s.Results().At(0).Type()) {
		return false
	}
	for i := 0; i < 2; i++ {
		if b, ok := s.Params().At(i).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
			return false
		}
	}
	return true
}

// commitMode: messages are read as the commit mode says.
func (r *Report) commitMode(a *adapter, in *Interp, ths []thread, auto *types.Var, bad func(string, *Event, string, ...any)) {
	how := map[*ssa.Function]map[string]bool{}
	for _, th := range ths {
		for _, t := range th.traces {
			for _, ar := range in.arrivals(t) {
				if how[th.fn] == nil {
					how[th.fn] = map[string]bool{}
				}
				how[th.fn][ar.how] = true
			}
		}
	}
	for _, th := range ths {
		for _, t := range th.traces {
			for _, e := range t.Events {
				if e.Kind != EvGo || e.Callee == nil || e.Callee.Fn == nil {
					continue
				}
				for h := range how[e.Callee.Fn] {
					if h != "read" && h != "fetch" {
						continue
					}
					r.Count("commit modes", 1)
					if auto == nil {
						bad("mode", e, "no option sets the commit mode")
						continue
					}
					known := false
					for f, v := range t.Facts {
						if isFieldTerm(f, auto) {
							known = true
							if v != (h == "read") {
								bad("mode", e, "messages are read in the wrong commit mode")
							}
						}
					}
					if !known {
						bad("mode", e, "messages are read whatever the commit mode is")
					}
				}
			}
		}
	}
}

func (r *Report) judgeAck(a *adapter, in *Interp, t *Trace, ar *arrival, tr *Event, ack *Term, name string, delay *types.Var, bad func(string, *Event, string, ...any)) {
	for _, u := range r.runAck(in, t, ack, name) {
		if u.Exit != "return" {
			if u.Exit == "panic" {
				bad("panic:"+name, tr, "%s of a message can panic", name)
			}
			continue
		}
		r.Count("messages settled", 1)
		var calls []*Event
		for _, e := range u.Events {
			if settles(e) {
				calls = append(calls, e)
			}
		}
		want, kind := "", libType(ar.msg.Typ)
		switch {
		case ar.how == "fetch":
			want = "CommitMessages"
		case ar.how == "read":
		case kind == "Msg" && types.IsInterface(ar.msg.Typ) && name == "AckMessage":
			want = "Ack"
		case kind == "Msg" && types.IsInterface(ar.msg.Typ):
			want = "NakWithDelay"
		}
		if want == "" {
			if len(calls) > 0 {
				bad("needless:"+name, tr, "%s of a message calls %s, although this mode has nothing to settle", name, calls[0].Obj.Name())
			}
			continue
		}
		if len(calls) != 1 {
			bad("count:"+name, tr, "%s of a message settles %d messages with the broker instead of one", name, len(calls))
			continue
		}
		c := calls[0]
		if c.Obj.Name() != want && !(want == "Ack" && c.Obj.Name() == "DoubleAck") {
			bad("kind:"+name, c, "%s of a message calls %s instead of %s", name, c.Obj.Name(), want)
			continue
		}
		switch want {
		case "CommitMessages":
			l := c.Args[len(c.Args)-1]
			if l.Op != "list" || len(l.Args) != 1 || l.Args[0] != ar.msg {
				bad("other:"+name, c, "%s of a message commits something else than that message (%s)", name, l)
				continue
			}
			r.Count("commits by settlement", 1)
		default:
			if c.Args[0] != ar.msg {
				bad("other:"+name, c, "%s of a message settles another one (%s)", name, c.Args[0])
				continue
			}
			if want == "NakWithDelay" {
				if delay == nil || !isFieldTerm(c.Args[len(c.Args)-1], delay) {
					bad("delay", c, "a refused message does not come back after the configured delay (%s)", c.Args[len(c.Args)-1])
				}
				r.Count("refusals by settlement", 1)
			} else {
				r.Count("acknowledgements by settlement", 1)
			}
		}
	}
}

// ownSettlements: the adapter itself only settles what no subscription covers.
func (r *Report) ownSettlements(a *adapter, in *Interp, t *Trace, bad func(string, *Event, string, ...any)) {
	ars := in.arrivals(t)
	for _, e := range t.Events {
		if !settles(e) {
			continue
		}
		var of *arrival
		for _, ar := range ars {
			for _, x := range ar.evs {
				if x == e {
					of = ar
				}
			}
		}
		if of == nil && len(e.Args) > 0 && e.Args[0].Op == "cbarg" {
			of = &arrival{e: e, msg: e.Args[0], how: "callback", evs: t.Events}
		}
		if of == nil || of.msg != e.Args[0] || of.how != "callback" || !types.IsInterface(of.msg.Typ) {
			bad("own", e, "the adapter settles a message (%s) that was not settled by its receiver", e.Obj.Name())
			continue
		}
		if e.Obj.Name() != "Ack" {
			bad("own", e, "the adapter settles by itself with %s", e.Obj.Name())
			continue
		}
		for _, x := range of.evs {
			if x.Kind == EvSend && x.Val == of.msg {
				bad("own", e, "the adapter acknowledges a message it gives to a subscription")
			}
		}
		// every pattern was tried, none matches
		its := t.iterationsOf(func(s *Term) bool {
			_, isMap := s.Typ.Underlying().(*types.Map)
			return isMap && s.Op == "load" && s.Args[0].Op == "fieldaddr"
		}, nil)
		good := false
		for _, it := range its {
			ok := it.complete
			for _, p := range it.pairs {
				no := false
				for f, v := range t.Facts {
					if f.Op == "call" && !v && f.Obj != nil && isMatcher(f.Obj.Type().(*types.Signature)) && len(f.Args) == 2 && f.Args[0] == p.k {
						if b, ok := readOf(f.Args[1], "Subject"); ok && b == of.msg {
							no = true
						}
					}
				}
				ok = ok && no
			}
			good = good || ok
		}
		if !good {
			bad("covered", e, "the adapter acknowledges a message although a subscription may cover it")
			continue
		}
		r.Count("messages without subscription", 1)
	}
}
