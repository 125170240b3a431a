package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fieldOf finds the only field of a struct type satisfying pred.
func fieldOf(t types.Type, pred func(v *types.Var) bool) *types.Var {
	st := structOf(t)
	if st == nil {
		return nil
	}
	var out *types.Var
	for i := 0; i < st.NumFields(); i++ {
		if pred(st.Field(i)) {
			if out != nil {
				return nil
			}
			out = st.Field(i)
		}
	}
	return out
}

// isField: t is (a load of) the field f of some object.
func isFieldTerm(t *Term, f *types.Var) bool {
	if t.Op == "load" {
		t = t.Args[0]
	}
	return (t.Op == "fieldaddr" || t.Op == "field") && t.Obj == f
}

func baseOfField(t *Term) *Term {
	if t.Op == "load" {
		t = t.Args[0]
	}
	if len(t.Args) == 0 {
		return t
	}
	return t.Args[0]
}

// copiedAll: on trace t up to event n, map dst received every entry of src
// (range loop storing each key and value unconditionally, maps.Copy or Clone).
func copiedAll(t *Trace, src, dst *Term, n int) (bool, string) {
	if dst == src {
		return true, ""
	}
	if dst.Op == "call" && strings.HasPrefix(dst.Aux, "maps.Clone") && len(dst.Args) > 0 && dst.Args[len(dst.Args)-1] == src {
		return true, ""
	}
	pending := (*Term)(nil) // iteration whose entry has not been copied yet
	completed := false
	for i := 0; i < n && i < len(t.Events); i++ {
		e := t.Events[i]
		switch e.Kind {
		case EvCall:
			if strings.HasPrefix(e.Name(), "maps.Copy") && len(e.Args) == 2 && e.Args[0] == dst && e.Args[1] == src {
				return true, ""
			}
		case EvBranch:
			c := e.Cond
			taken := e.Taken
			if c.Op == "not" {
				c, taken = c.Args[0], !taken
			}
			if c.Op == "nextok" && c.Args[0].Args[0].Args[0] == src {
				if pending != nil {
					return false, "an entry is skipped"
				}
				if taken {
					pending = c.Args[0]
				} else {
					completed = true
				}
			}
		case EvMapUpd:
			if pending != nil && e.Addr == dst && e.Args[0].Op == "nextkey" && e.Args[0].Args[0] == pending && e.Val.Op == "nextval" && e.Val.Args[0] == pending {
				pending = nil
			}
		}
	}
	if pending != nil {
		return false, "an entry is skipped"
	}
	if !completed {
		return false, "no complete copy found"
	}
	return true, ""
}

func ruleVersionRouting(r *Report) {
	in := r.Interp()
	for _, n := range []string{"TransmitReceivedMessage", "Cancel", "MessagesChannel"} {
		in.Opaque["("+extPath+".BrokerChannelSubscription)."+n] = true
	}
	pub, sub := r.fn(verPath, "Wrapper.Publish"), r.fn(verPath, "Wrapper.Subscribe")
	if pub == nil || sub == nil {
		return
	}
	wt := pub.F.Params[0].Type()
	isStr := func(t types.Type) bool { b, ok := t.Underlying().(*types.Basic); return ok && b.Kind() == types.String }
	keyF := fieldOf(wt, func(v *types.Var) bool { return isStr(v.Type()) })
	defF := fieldOf(wt, func(v *types.Var) bool {
		p, ok := v.Type().Underlying().(*types.Pointer)
		return ok && isStr(p.Elem())
	})
	var bsT types.Type
	chF := fieldOf(wt, func(v *types.Var) bool {
		m, ok := v.Type().Underlying().(*types.Map)
		if ok {
			bsT = m.Elem()
		}
		return ok
	})
	if keyF == nil || defF == nil || chF == nil {
		r.FailAt("anchor:Wrapper", r.W.PosStr(pub.F.Pos()), "the wrapper's header key, default version or channels table cannot be identified")
		return
	}
	var vsT types.Type
	vcF := fieldOf(bsT, func(v *types.Var) bool {
		m, ok := v.Type().Underlying().(*types.Map)
		if ok {
			vsT = m.Elem()
		}
		return ok
	})
	if vcF == nil {
		r.FailAt("anchor:brokerSubscription", "-", "the table of versions cannot be identified")
		return
	}
	vsubF := fieldOf(vsT, func(v *types.Var) bool { return strings.HasSuffix(v.Type().String(), "BrokerChannelSubscription") })

	// ---- publishing
	pt := in.ParamTerms(pub.F)
	r.Count("publish paths", 0)
	ctxVersion := func(t *Trace) (*Term, bool) { // the version carried by the context on this path
		for f, v := range t.Facts {
			if f.Op == "typeok" && v && f.Args[0].Op == "call" && strings.HasSuffix(f.Args[0].Aux, "Context).Value") {
				if s, ok := f.Args[0].Args[1].StrVal(); ok && s == ctxKey(r, "ContextKeyIsVersion") {
					return in.T.mk("typeassert", f.Aux, types.Typ[types.String], f.Args[0]), true
				}
			}
		}
		return nil, false
	}
	for _, t := range in.Run(pub.F, pt, nil, nil) {
		if t.Exit == "truncated" {
			continue
		}
		r.Count("publish paths", 1)
		if t.Exit == "panic" {
			r.Fail("publish:panic", pub.F.Pos(), "publishing panics")
			continue
		}
		n := 0
		v, hasV := ctxVersion(t)
		oh := termField(in, pt[3], "Headers")
		for i, e := range t.Events {
			if e.Kind == EvMapUpd && e.Addr.Op != "makemap" {
				if nn, known := t.IsNilTerm(e.Addr); !known || nn {
					r.Fail("publish:nil-headers", e.Pos(), "publishing writes to a headers map that may be nil")
				}
			}
			if !ifaceCall(e, "BrokerController", "Publish") {
				continue
			}
			n++
			if e.Args[2] != pt[2] {
				r.Fail("publish:channel", e.Pos(), "the message is published on %s instead of the requested channel", e.Args[2])
			}
			if e.Args[1] != pt[1] {
				// the context must still carry the version
				if fv := in.fold("(context.Context).Value", nil, []*Term{e.Args[1], in.T.Str(ctxKey(r, "ContextKeyIsVersion"))}); fv == nil || hasV && fv != v.Args[0] {
					r.Fail("publish:ctx", e.Pos(), "the context given to the broker is not the caller's")
				}
			}
			m := e.Args[3]
			if termField(in, m, "Payload") != termField(in, pt[3], "Payload") {
				r.Fail("publish:payload", e.Pos(), "the payload is altered")
			}
			h := termField(in, m, "Headers")
			if hasV {
				// last write on the key
				good := false
				for k := 0; k < i; k++ {
					u := t.Events[k]
					if u.Kind != EvMapUpd || u.Addr != h {
						continue
					}
					if isFieldTerm(u.Args[0], keyF) {
						good = u.Val.Op == "convert" && u.Val.Args[0] == v
						if !good {
							r.Fail("publish:value", u.Pos(), "the version header is set to %s instead of the context's version", u.Val)
						}
					} else {
						good = false // a later copy may overwrite the version
					}
				}
				if !good {
					r.Fail("publish:untagged", e.Pos(), "a message published for a known version does not carry that version in the configured header on every path")
				}
			}
			if ok, why := copiedAll(t, oh, h, i); !ok {
				r.Fail("publish:headers", e.Pos(), "the message's own headers are not all published (%s)", why)
			}
			if t.Ret[0] != e.Res {
				r.Fail("publish:result", e.Pos(), "the broker's result is not what the caller gets")
			}
		}
		if n != 1 {
			r.Fail("publish:count", pub.F.Pos(), "the message is handed to the broker %d times on a path", n)
		}
	}
	r.Floor("publish paths", 3)

	// ---- subscribing
	st := in.ParamTerms(sub.F)
	listeners := 0
	for _, th := range in.threads(sub.F, st, nil) {
		if th.fn == sub.F {
			for _, t := range th.traces {
				checkSubscribe(r, in, t, st, sub.F, chF, vcF, ctxVersion)
			}
			continue
		}
		isListener := false
		for _, t := range th.traces {
			for _, e := range t.Events {
				if e.Kind == EvRecv && fromBrokerStream(e.Addr) {
					isListener = true
				}
			}
		}
		if isListener {
			listeners++
			for _, t := range th.traces {
				checkRounds(r, in, t, th.fn, keyF, defF, vcF, vsubF)
			}
		} else {
			for _, t := range th.traces {
				checkRemoval(r, in, t, th.fn, st, chF, vcF)
			}
		}
	}
	r.Count("listeners", listeners)
	r.Floor("listeners", 1)
	r.Floor("subscribe paths", 4)
	r.Floor("delivery rounds", 20)
	r.Floor("deliveries", 2)
	r.Floor("removals", 2)
}

func ctxKey(r *Report, name string) string {
	c, _ := r.W.SSA[extPath].Pkg.Scope().Lookup(name).(*types.Const)
	if c == nil {
		r.FailAt("anchor:"+name, "-", "context key %s not found", name)
		return "?"
	}
	return strings.Trim(c.Val().ExactString(), "\"")
}

// termField selects a (possibly promoted) field by name from a struct value.
func termField(in *Interp, t *Term, name string) *Term {
	if t == nil || t.Typ == nil {
		return nil
	}
	_, idx, _ := types.LookupFieldOrMethod(t.Typ, true, nil, name)
	if idx == nil {
		// unexported names need the package
		if n, ok := t.Typ.(*types.Named); ok {
			_, idx, _ = types.LookupFieldOrMethod(t.Typ, true, n.Obj().Pkg(), name)
		}
	}
	for _, i := range idx {
		t = in.T.Field(t, t.Typ, i)
	}
	return t
}

func fromBrokerStream(t *Term) bool {
	if t.Op == "call" && t.Obj != nil && t.Obj.Name() == "MessagesChannel" {
		return brokerSub(t.Args[0])
	}
	return false
}

func checkSubscribe(r *Report, in *Interp, t *Trace, st []*Term, fn *ssa.Function, chF, vcF *types.Var, ctxVersion func(*Trace) (*Term, bool)) {
	if t.Exit == "truncated" {
		return
	}
	if t.Exit != "return" || len(t.Ret) != 2 {
		r.Fail("subscribe:exit", fn.Pos(), "Subscribe does not return (%s)", t.Exit)
		return
	}
	r.Count("subscribe paths", 1)
	v, hasV := ctxVersion(t)
	var brokerSubs, regs, chRegs, listeners []*Event
	for _, e := range t.Events {
		switch {
		case ifaceCall(e, "BrokerController", "Subscribe"):
			brokerSubs = append(brokerSubs, e)
		case e.Kind == EvMapUpd && isMapOf(e.Addr, vcF, t):
			regs = append(regs, e)
		case e.Kind == EvMapUpd && isFieldTerm(e.Addr, chF):
			chRegs = append(chRegs, e)
		case e.Kind == EvGo && e.Callee != nil && e.Callee.Fn != nil && receivesBroker(e.Callee.Fn):
			listeners = append(listeners, e)
		}
	}
	channel := st[2]
	known, subscribed := false, false
	for f, val := range t.Facts {
		if f.Op == "has" && isFieldTerm(f.Args[0], chF) && f.Args[1] == channel {
			known, subscribed = true, val
		}
	}
	errNil, ek := t.IsNilTerm(t.Ret[1])
	success := ek && errNil
	if !ek {
		success = false
	}
	if len(brokerSubs) > 0 {
		if !known || subscribed {
			r.Fail("subscribe:twice", fn.Pos(), "the broker is subscribed although the channel may already be subscribed")
		}
		if len(brokerSubs) > 1 {
			r.Fail("subscribe:count", fn.Pos(), "the broker is subscribed %d times", len(brokerSubs))
		}
		if brokerSubs[0].Args[2] != channel {
			r.Fail("subscribe:channel", brokerSubs[0].Pos(), "the broker is subscribed on %s", brokerSubs[0].Args[2])
		}
		be := in.T.mk("extract", "1", nil, brokerSubs[0].Res)
		bn, bk := t.IsNilTerm(be)
		if bk && !bn { // broker failure
			if t.Ret[1] != be && !t.Ret[1].Mentions(be) {
				r.Fail("subscribe:broker-error", fn.Pos(), "the broker's subscription error is not returned")
			}
			if len(chRegs)+len(regs)+len(listeners) > 0 {
				r.Fail("subscribe:failed-registered", fn.Pos(), "a failed broker subscription is registered")
			}
			return
		}
		if !bk {
			r.Fail("subscribe:unchecked", fn.Pos(), "the broker's subscription error is not examined")
		}
		if len(chRegs) != 1 || chRegs[0].Args[0] != channel {
			r.Fail("subscribe:not-registered", fn.Pos(), "a new broker subscription is not recorded exactly once under its channel")
		}
		if len(listeners) != 1 {
			r.Fail("subscribe:listeners", fn.Pos(), "%d delivery loops are started for a new broker subscription", len(listeners))
		}
	} else if len(chRegs)+len(listeners) > 0 {
		r.Fail("subscribe:spurious", fn.Pos(), "a channel or delivery loop is registered without a broker subscription")
	}
	if success {
		if !hasV {
			r.Fail("subscribe:no-version", fn.Pos(), "a subscription succeeds without a version")
			return
		}
		if len(regs) != 1 {
			r.Fail("subscribe:version-registration", fn.Pos(), "a successful subscription registers %d versions", len(regs))
			return
		}
		e := regs[0]
		if e.Args[0] != v {
			r.Fail("subscribe:version-key", e.Pos(), "the subscription is registered under %s instead of the caller's version", e.Args[0])
		}
		if !structContains(in, e.Val, t.Ret[0]) {
			r.Fail("subscribe:version-value", e.Pos(), "the registered subscription is not the one returned")
		}
		fresh := false
		for f, val := range t.Facts {
			if f.Op == "has" && f.Args[0] == e.Addr && f.Args[1] == v && !val {
				fresh = true
			}
		}
		if !fresh {
			r.Fail("subscribe:overwrite", e.Pos(), "an existing subscription of the same version may be replaced")
		}
		if subscribed == false && len(brokerSubs) == 0 {
			r.Fail("subscribe:no-broker", fn.Pos(), "a subscription succeeds without a broker subscription")
		}
	} else if len(regs) > 0 {
		r.Fail("subscribe:error-registered", regs[0].Pos(), "a failing subscription is registered")
	}
}

func structContains(in *Interp, v, sub *Term) bool {
	if v == sub {
		return true
	}
	if v.Op == "struct" {
		for _, a := range v.Args {
			if structContains(in, a, sub) {
				return true
			}
		}
	}
	return false
}

// isMapOf: the map is the value of field f of some object of the trace.
func isMapOf(m *Term, f *types.Var, t *Trace) bool {
	if isFieldTerm(m, f) {
		return true
	}
	mt, ok := f.Type().Underlying().(*types.Map)
	return ok && m.Op == "makemap" && m.Typ != nil && types.Identical(m.Typ.Underlying(), mt)
}

// receivesBroker: the goroutine body takes messages from MessagesChannel.
func receivesBroker(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if s := c.Call.StaticCallee(); s != nil {
					if s.Name() == "MessagesChannel" {
						return true
					}
					if s.Pkg == f.Pkg && s != f && len(s.Blocks) > 0 && receivesBroker(s) {
						return true
					}
				}
			}
		}
	}
	return false
}

func checkRounds(r *Report, in *Interp, t *Trace, fn *ssa.Function, keyF, defF, vcF, vsubF *types.Var) {
	type round struct {
		msg, ok *Term
		evs     []*Event
	}
	var rounds []*round
	for _, e := range t.Events {
		if e.Kind == EvRecv && fromBrokerStream(e.Addr) {
			rounds = append(rounds, &round{msg: e.Val, ok: e.Res})
			continue
		}
		if len(rounds) > 0 {
			rounds[len(rounds)-1].evs = append(rounds[len(rounds)-1].evs, e)
		}
	}
	complete := func(i int) bool { return i < len(rounds)-1 || t.Exit == "return" }
	for i, rd := range rounds {
		if rd.ok == nil {
			r.Fail("listen:closed", fn.Pos(), "the delivery loop does not notice the end of the stream")
			continue
		}
		open, known := t.Fact(rd.ok)
		if !known {
			if complete(i) {
				r.Fail("listen:closed", fn.Pos(), "the delivery loop does not notice the end of the stream")
			}
			continue
		}
		if !open {
			for _, e := range rd.evs {
				if isTransmit(e) {
					r.Fail("listen:after-close", e.Pos(), "a message is delivered after the end of the stream")
				}
			}
			continue
		}
		if !complete(i) {
			continue
		}
		if t.Exit == "return" && i == len(rounds)-1 {
			r.Fail("listen:stops", fn.Pos(), "the delivery loop stops although the stream is still open")
		}
		r.Count("delivery rounds", 1)
		// which version does the message designate?
		h := termField(in, rd.msg, "Headers")
		var key *Term
		for _, e := range rd.evs {
			if e.Kind == EvLookup && e.Addr == h {
				key = e.Args[0]
				if !isFieldTerm(key, keyF) {
					r.Fail("listen:key", e.Pos(), "the version is read from header %s", key)
				}
			}
		}
		var want *Term
		if key != nil {
			lk := in.T.mk("lookup", "", nil, h, key)
			carried := in.T.mk("convert", "string", types.Typ[types.String], lk)
			has, hk := t.Fact(in.T.mk("has", "", types.Typ[types.Bool], h, key))
			empty, emk := t.Fact(in.T.Eq(carried, in.T.Str("")))
			switch {
			case hk && !has, emk && empty:
				for f, v := range t.Facts {
					if f.Op == "eq" && (isFieldTerm(f.Args[0], defF) || isFieldTerm(f.Args[1], defF)) && (f.Args[0].IsNil() || f.Args[1].IsNil()) && !v {
						d := f.Args[0]
						if d.IsNil() {
							d = f.Args[1]
						}
						want = in.T.mkLoad(d, types.Typ[types.String])
					}
				}
			case emk && !empty:
				want = carried
			case hk && has:
				want = carried // an empty carried version finds no registration
			}
		}
		var deliveries []*Event
		for _, e := range rd.evs {
			if isTransmit(e) {
				deliveries = append(deliveries, e)
			}
		}
		r.Count("deliveries", len(deliveries))
		registered := false
		if want != nil {
			for f, v := range t.Facts {
				if f.Op == "has" && isMapOf(f.Args[0], vcF, t) && f.Args[1] == want {
					registered = v
				}
			}
		}
		switch {
		case len(deliveries) > 1:
			r.Fail("listen:many", deliveries[1].Pos(), "a message is delivered %d times", len(deliveries))
		case len(deliveries) == 1:
			e := deliveries[0]
			if want == nil {
				r.Fail("listen:no-version", e.Pos(), "a message without an eligible version is delivered (to %s)", e.Args[0])
			} else if !registered {
				r.Fail("listen:unregistered", e.Pos(), "a message is delivered to %s although no subscription is known for its version", e.Args[0])
			} else {
				okSub := false
				e.Args[0].Any(func(x *Term) bool {
					if x.Op == "lookup" && isMapOf(x.Args[0], vcF, t) && x.Args[1] == want {
						okSub = true
					}
					return false
				})
				if !okSub {
					r.Fail("listen:target", e.Pos(), "a message is delivered to %s instead of the subscription of its version", e.Args[0])
				}
				if e.Args[1] != rd.msg {
					r.Fail("listen:message", e.Pos(), "what is delivered (%s) is not the received message", e.Args[1])
				}
			}
		case want != nil && registered:
			r.Fail("listen:lost", fn.Pos(), "a message whose version is registered is not delivered")
		}
		// independence of earlier rounds
		for j := 0; j < i; j++ {
			prev := rounds[j].msg
			for _, e := range rd.evs {
				for _, a := range e.Args {
					if a != nil && e.Kind == EvCall && a.Mentions(prev) {
						r.Fail("listen:carry-over", e.Pos(), "handling a message uses data of an earlier message (%s)", e.Name())
					}
				}
			}
		}
	}
}

func isTransmit(e *Event) bool {
	return (e.Kind == EvCall || e.Kind == EvEnter) && e.Obj != nil && e.Obj.Name() == "TransmitReceivedMessage" && strings.HasPrefix(e.Name(), "("+extPath)
}

func isCancel(e *Event) bool {
	return (e.Kind == EvCall || e.Kind == EvEnter) && e.Obj != nil && e.Obj.Name() == "Cancel" && strings.HasPrefix(e.Name(), "("+extPath+".BrokerChannelSubscription")
}

func checkRemoval(r *Report, in *Interp, t *Trace, fn *ssa.Function, st []*Term, chF, vcF *types.Var) {
	if t.Exit != "return" {
		return
	}
	r.Count("removals", 1)
	var vdel, cdel, cancels int
	deleted := -1
	empty, known := false, false
	for i, e := range t.Events {
		switch {
		case e.Kind == EvMapDel && isMapOf(e.Addr, vcF, t):
			vdel++
			deleted = i
		case e.Kind == EvMapDel && isFieldTerm(e.Addr, chF):
			cdel++
			if k := e.Args[0]; k != st[2] && !(k.Op == "load" && k.Args[0].Op == "fieldaddr") {
				r.Fail("remove:key", e.Pos(), "the channel forgotten is %s", k)
			}
		case isCancel(e):
			cancels++
			if !brokerSub(e.Args[0]) {
				r.Fail("remove:cancel", e.Pos(), "removal cancels %s instead of the broker subscription", e.Args[0])
			}
		case e.Kind == EvBranch:
			c := e.Cond
			taken := e.Taken
			if c.Op == "not" {
				c, taken = c.Args[0], !taken
			}
			if c.Op == "eq" && (c.Args[0].Op == "len" || c.Args[1].Op == "len") {
				l := c.Args[0]
				if l.Op != "len" {
					l = c.Args[1]
				}
				z, ok := other(c, l).Int()
				if isMapOf(l.Args[0], vcF, t) && ok && z == 0 {
					known, empty = true, taken
					if deleted < 0 {
						r.Fail("remove:order", e.Pos(), "whether versions remain is decided before the version was removed")
					}
				}
			}
		}
	}
	if vdel != 1 {
		r.Fail("remove:version", fn.Pos(), "cancelling a version removes it from the table %d times", vdel)
	}
	if !known {
		r.Fail("remove:undecided", fn.Pos(), "a removal path does not depend on whether versions remain")
		return
	}
	want := 0
	if empty {
		want = 1
	}
	if cdel != want || cancels != want {
		r.Fail(fmt.Sprintf("remove:empty=%v", empty), fn.Pos(), "when versions remain = %v the broker subscription is cancelled %d times and the channel forgotten %d times", !empty, cancels, cdel)
	}
}
