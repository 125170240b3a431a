package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C12", "each reception of every generated subscription is interpreted on all paths with 0, 1 and 2 unknown middlewares: settlements, error handler calls and the loop's continuation are compared with the outcome of the chain", ruleSettling)
	register("C13", "on every path of every generated operation the message and address given to the broker, to the middlewares, to the decoder and to the user's function are traced back to the operation's arguments, the document's address and the memory the middlewares were given", ruleThroughChain)
	register("C14", "every path of each generated subscribe and unsubscribe operation is compared with the specification of the subscription table: same address in look-up, broker call and record", ruleTable)
}

// listeners calls f on each path of the goroutines a subscription starts.
func (r *Report) listeners(o *ctrlOp, cr *ctrlRun, f func(th thread, t *Trace, args []*Term)) {
	ths, args := cr.threads(o)
	n := 0
	for _, th := range ths {
		if th.spawn == "" {
			continue
		}
		n++
		for _, t := range th.traces {
			f(th, t, args)
		}
	}
	if n == 0 {
		r.FailAt(o.id()+":no listener", o.where(r), "%s starts no goroutine that listens to the subscription", o.id())
	}
}

func ruleSettling(r *Report) {
	r.ctrlOps(func(cw *ctrlWorld, o *ctrlOp, d *docOp) {
		if o.kind != "subscribe" {
			return
		}
		for n := 0; n <= 2; n++ {
			cr := r.ctrl(cw, n)
			if n == 2 {
				cr.in.MaxRecv = 1
			}
			r.listeners(o, cr, func(th thread, t *Trace, args []*Term) {
				bad := func(format string, a ...any) {
					m := fmt.Sprintf(format, a...)
					r.FailAt(o.id()+":"+m, r.W.PosStr(th.fn.Pos()), "%s with %d middlewares: %s", o.id(), n, m)
				}
				pre, segs := segmentsOf(t)
				for _, e := range pre {
					if isSettle(e) != "" || isErrHandler(e) || e.Kind == EvCall && e.Callee == args[o.fnP] {
						bad("acts on a message before one is received")
					}
				}
				if len(segs) == 0 && t.Exit != "truncated" {
					bad("a path of the listener receives nothing (%s)", t.Exit)
				}
				for _, s := range segs {
					if !s.closed {
						if t.Exit == "truncated" {
							bad("the handling of a message does not end")
						}
						continue
					}
					r.Count("receptions", 1)
					if t.Exit == "panic" && s.last {
						bad("the listener may panic")
						continue
					}
					if cr.ended(t, s) && cr.uninit(t, s) {
						if !s.last {
							bad("the listener goes on after the stream has ended")
						}
						for _, e := range s.evs {
							if isSettle(e) != "" || isErrHandler(e) || cr.mw(e) >= 0 || e.Kind == EvCall && e.Callee == args[o.fnP] {
								bad("the end of the stream is handled as a message")
							}
						}
						r.Count("stream ends", 1)
						continue
					}
					if s.last {
						bad("the listener stops although the stream has not ended")
					}
					cr.settled(t, s, args[o.fnP], bad)
				}
			})
		}
	})
	r.zeroMessages()
	r.Floor("receptions", 500)
	r.Floor("stream ends", 50)
}

// zeroMessages: what tells the end of a stream from a message says so of the zero message only.
func (r *Report) zeroMessages() {
	f := r.W.Func(extPath, "BrokerMessage.IsUninitialized")
	if f == nil || len(f.Params) != 1 {
		r.FailAt("zero message", "-", "the function that recognises the zero message is not resolved")
		return
	}
	n := 0
	for i := 0; i < 4; i++ {
		in := r.Interp()
		args := in.ParamTerms(f)
		h, p := i&1 != 0, i&2 != 0
		init := &Config{mem: map[*Term]*Term{}, facts: map[*Term]bool{
			in.T.Eq(in.fieldByName(args[0], "Headers"), in.T.Nil()): h,
			in.T.Eq(in.fieldByName(args[0], "Payload"), in.T.Nil()): p,
		}}
		for _, t := range in.Run(f, args, nil, init) {
			got, known := false, false
			if t.Exit == "return" && len(t.Ret) == 1 {
				if got, known = boolConst(t.Ret[0]); !known {
					got, known = t.Fact(t.Ret[0])
				}
			}
			n++
			if !known || got != (h && p) {
				r.Fail("zero message", f.Pos(), "a message (without headers: %t, without payload: %t) is taken for the zero value: %t (decided: %t)", h, p, got, known)
			}
		}
		if len(in.Undecided) > 0 {
			r.Fail("undecided:zero message", f.Pos(), "%s", in.Undecided[0])
		}
	}
	if n < 4 {
		r.Fail("zero message", f.Pos(), "the function that recognises the zero message does not always return")
	}
}

// uninit: this path knows that what was received is no message.
func (cr *ctrlRun) uninit(t *Trace, s *segment) bool {
	for _, e := range s.evs {
		if e.Kind == EvCall && e.Obj != nil && e.Obj.Name() == "IsUninitialized" {
			if v, k := t.Fact(e.Res); k && v {
				return true
			}
		}
	}
	return false
}

func (cr *ctrlRun) settled(t *Trace, s *segment, fn *Term, bad func(string, ...any)) {
	ch := cr.listenChain(t, s, fn)
	if ch.bad != "" {
		return // C11
	}
	var acks, naks, hands []int
	lastStep := -1
	for i, e := range s.evs {
		switch {
		case isSettle(e) != "":
			if !cr.isMsg(e.Args[0], s) {
				bad("settles something else than the message received")
			}
			if isSettle(e) == "Ack" {
				acks = append(acks, i)
			} else {
				naks = append(naks, i)
			}
		case isErrHandler(e):
			hands = append(hands, i)
			if len(e.Args) != 4 {
				bad("the error handler is called with %d arguments", len(e.Args))
				continue
			}
			if !ch.free && !cr.sameErr(t, e.Args[3], ch.res) {
				bad("the error handler is not given the error that occurred")
			}
			if !cr.isMsg(e.Args[2], s) {
				bad("the error handler is not given the message")
			}
			if sub := cr.subOf(s); sub == nil || e.Args[1] != sub {
				bad("the error handler is not given the channel's address")
			}
		case cr.mw(e) >= 0 || cr.isDecode(e) || e.Kind == EvCall && e.Callee == fn:
			lastStep = i
		}
	}
	isNil, known := t.errNil(ch.res)
	if len(acks)+len(naks) != 1 {
		bad("a message is settled %d times", len(acks)+len(naks))
		return
	}
	if len(acks) == 1 {
		if !known {
			bad("a message is acknowledged whether or not its handling failed")
		} else if !isNil && !ch.free {
			bad("a message whose handling failed is acknowledged")
		}
		if acks[0] < lastStep {
			bad("a message is acknowledged before it is handled")
		}
		if len(hands) != 0 {
			bad("the error handler is called for a message that is acknowledged")
		}
		return
	}
	if known && isNil && !ch.free {
		bad("a message that was handled is negatively acknowledged")
	}
	if len(hands) != 1 {
		bad("the error handler is called %d times for a failed message", len(hands))
	}
}

// isMsg: x is the received message, or the variable that holds it.
func (cr *ctrlRun) isMsg(x *Term, s *segment) bool {
	return x == s.recv.Val || x.Op == "alloc" && x.Typ != nil && isExtType(elemType(x.Typ), "AcknowledgeableBrokerMessage") ||
		x.Any(func(y *Term) bool { return y == s.recv.Val })
}

// subOf gives the address under which the subscription listened to was made.
func (cr *ctrlRun) subOf(s *segment) *Term {
	var a *Term
	s.recv.Addr.Any(func(x *Term) bool {
		if x.Op == "call" && x.Obj != nil && x.Obj.Name() == "Subscribe" && len(x.Args) == 3 {
			a = x.Args[2]
			return true
		}
		return false
	})
	return a
}

// ---- C13 --------------------------------------------------------------------------

func ruleThroughChain(r *Report) {
	r.ctrlOps(func(cw *ctrlWorld, o *ctrlOp, d *docOp) {
		switch o.kind {
		case "send", "reply", "request":
			for n := 0; n <= 2; n++ {
				cr := r.ctrl(cw, n)
				ts, args := cr.run(o)
				for _, t := range ts {
					r.published(cr, o, d, t, args, n)
					if o.kind == "request" {
						_, segs := segmentsOf(t)
						for _, s := range segs {
							r.handedOver(cr, o, t, s, nil, n)
						}
						r.returned(cr, o, t, segs)
					}
				}
			}
		case "subscribe":
			for n := 0; n <= 2; n++ {
				cr := r.ctrl(cw, n)
				cr.in.MaxRecv = 1
				r.listeners(o, cr, func(th thread, t *Trace, args []*Term) {
					_, segs := segmentsOf(t)
					for _, s := range segs {
						if s.closed {
							r.handedOver(cr, o, t, s, args[o.fnP], n)
						}
					}
				})
			}
		}
	})
	r.Floor("publications", 300)
	r.Floor("messages handed over", 300)
}

func strParam(fn *ssa.Function, args []*Term, x *Term) bool {
	for i := 1; i < len(args); i++ {
		if b, ok := fn.Params[i].Type().Underlying().(*types.Basic); ok && b.Kind() == types.String && args[i] == x {
			return true
		}
	}
	return false
}

func (r *Report) published(cr *ctrlRun, o *ctrlOp, d *docOp, t *Trace, args []*Term, n int) {
	bad := func(format string, a ...any) {
		m := fmt.Sprintf(format, a...)
		r.FailAt(o.id()+":"+m, o.where(r), "%s with %d middlewares: %s", o.id(), n, m)
	}
	var enc, fnCall, firstMW *Event
	for _, e := range t.Events {
		if isMsgRecv(e) {
			break // what follows belongs to the reply
		}
		switch {
		case cr.isEncode(e):
			enc = e
		case o.fnP >= 0 && e.Kind == EvCall && e.Callee == args[o.fnP]:
			fnCall = e
		case cr.mw(e) >= 0:
			if firstMW == nil {
				firstMW = e
				if enc == nil || e.Val != cr.in.extract(enc.Res, 0) {
					bad("the message given to the first middleware is not the encoded one")
				}
			} else if e.Addr != firstMW.Addr {
				bad("the middlewares are not given the same message")
			}
		case isBroker(e, "Publish"):
			r.Count("publications", 1)
			if o.x.Shape.Major == 2 && o.kind == "request" {
				// the user's function publishes
				bad("publishes by itself")
				continue
			}
			if enc == nil {
				bad("publishes a message that was not encoded")
				continue
			}
			if isNil, k := t.errNil(cr.in.extract(enc.Res, 1)); !k || !isNil {
				bad("publishes a message whose encoding may have failed")
			}
			switch {
			case n == 0 && e.Args[3] != cr.in.extract(enc.Res, 0):
				bad("the message published is not the encoded one")
			case n > 0 && firstMW == nil:
				bad("publishes outside the middlewares")
			case n > 0 && e.Args[3] != e.Val:
				bad("the message published is not the one the middlewares leave")
			}
			switch {
			case o.kind == "reply":
				if fnCall == nil || !enc.Args[0].Mentions(fnCall.Res) {
					bad("the reply published is not the one the caller's function filled")
				}
			default:
				if !enc.Args[0].Mentions(args[o.msgP]) {
					bad("the message encoded is not the one given")
				}
			}
			r.address(cr, o, d, t, args, e.Args[2], bad)
		}
	}
}

func (r *Report) address(cr *ctrlRun, o *ctrlOp, d *docOp, t *Trace, args []*Term, a *Term, bad func(string, ...any)) {
	if d == nil {
		bad("the document has no such operation")
		return
	}
	if o.kind == "reply" {
		if d.rep == nil {
			bad("the document has no reply for this operation")
			return
		}
		d = d.rep
		if d.dyn {
			if !a.Mentions(args[o.msgP]) {
				bad("the reply is not sent to the address the request designates")
			}
			r.Count("addresses checked", 1)
			return
		}
	}
	if d.null {
		if !strParam(o.fn, args, a) {
			bad("the message is not sent to the given address")
		}
		r.Count("addresses checked", 1)
		return
	}
	got, ok := canonTerm(a)
	if !ok || got != d.addr {
		bad("the address is %q instead of %q", got, d.addr)
	}
	r.Count("addresses checked", 1)
}

// handedOver: what is decoded and given to the user after a reception.
func (r *Report) handedOver(cr *ctrlRun, o *ctrlOp, t *Trace, s *segment, fn *Term, n int) {
	bad := func(format string, a ...any) {
		m := fmt.Sprintf(format, a...)
		r.FailAt(o.id()+":"+m, o.where(r), "%s with %d middlewares: on reception, %s", o.id(), n, m)
	}
	bm := cr.brokerMessage(s.recv.Val)
	var firstMW, dec *Event
	for _, e := range s.evs {
		switch {
		case cr.mw(e) >= 0:
			if firstMW == nil {
				firstMW = e
				if e.Val != bm {
					bad("the message given to the first middleware is not the one received")
				}
			} else if e.Addr != firstMW.Addr {
				bad("the middlewares are not given the same message")
			}
		case cr.isDecode(e):
			dec = e
			want := bm
			if firstMW != nil {
				want = e.Val
			}
			if e.Args[0] != want {
				bad("what is decoded is not the message the middlewares leave")
			}
		case fn != nil && e.Kind == EvCall && e.Callee == fn:
			r.Count("messages handed over", 1)
			if dec == nil || len(e.Args) < 2 || e.Args[1] != cr.in.extract(dec.Res, 0) {
				bad("the user's function is not given the decoded message")
			} else if isNil, k := t.errNil(cr.in.extract(dec.Res, 1)); !k || !isNil {
				bad("the user's function may be called with a message that could not be decoded")
			}
			if n > 0 && firstMW == nil {
				bad("the user's function is called outside the middlewares")
			}
		}
	}
}

func (cr *ctrlRun) brokerMessage(v *Term) *Term {
	st := structOf(v.Typ)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if isExtType(st.Field(i).Type(), "BrokerMessage") {
			return cr.in.T.Field(v, v.Typ, i)
		}
	}
	return nil
}

// returned: a request returns the message decoded last.
func (r *Report) returned(cr *ctrlRun, o *ctrlOp, t *Trace, segs []*segment) {
	if t.Exit != "return" {
		return
	}
	if isNil, k := t.errNil(t.Ret[1]); k && !isNil {
		return
	}
	var dec, mw *Event
	after := false
	if len(segs) > 0 {
		for _, e := range segs[len(segs)-1].evs {
			if cr.isDecode(e) {
				dec, after = e, mw != nil
			} else if cr.mw(e) >= 0 {
				mw, after = e, false
			}
		}
	}
	switch {
	case dec == nil:
		r.FailAt(o.id()+":no reply", o.where(r), "%s returns without an error and without a received message", o.id())
	case t.Ret[0] != cr.in.extract(dec.Res, 0):
		r.FailAt(o.id()+":other reply", o.where(r), "%s returns something else than the decoded reply", o.id())
	case mw != nil && !after:
		r.FailAt(o.id()+":stale reply", o.where(r), "%s returns the reply as it was before the middlewares", o.id())
	default:
		if isNil, k := t.errNil(cr.in.extract(dec.Res, 1)); !k || !isNil {
			r.FailAt(o.id()+":undecoded", o.where(r), "%s may return a reply that could not be decoded", o.id())
		}
		r.Count("replies returned", 1)
	}
}

// ---- C14 --------------------------------------------------------------------------

// isSubTable: the map of subscriptions of the controller c.
func isSubTable(m *Term) bool {
	if m == nil || m.Typ == nil {
		return false
	}
	mt, ok := m.Typ.Underlying().(*types.Map)
	return ok && isExtType(mt.Elem(), "BrokerChannelSubscription")
}

func ruleTable(r *Report) {
	r.ctrlOps(func(cw *ctrlWorld, o *ctrlOp, d *docOp) {
		if o.kind != "subscribe" && o.kind != "unsubscribe" {
			return
		}
		cr := r.ctrl(cw, 0)
		ts, args := cr.run(o)
		for _, t := range ts {
			bad := func(format string, a ...any) {
				m := fmt.Sprintf(format, a...)
				r.FailAt(o.id()+":"+m, o.where(r), "%s: %s", o.id(), m)
			}
			r.Count("paths of "+o.kind, 1)
			if t.Exit != "return" {
				bad("does not return (%s)", t.Exit)
				continue
			}
			var look, sub, upd, del, cancel, spawn []*Event
			for _, e := range t.Events {
				switch {
				case e.Kind == EvLookup && isSubTable(e.Addr):
					look = append(look, e)
				case isBroker(e, "Subscribe"):
					sub = append(sub, e)
				case e.Kind == EvMapUpd && isSubTable(e.Addr):
					upd = append(upd, e)
				case e.Kind == EvMapDel && isSubTable(e.Addr):
					del = append(del, e)
				case isSubCall(e, "Cancel"):
					cancel = append(cancel, e)
				case e.Kind == EvGo:
					spawn = append(spawn, e)
				case isBroker(e, "Publish"):
					bad("publishes")
				}
			}
			if len(look) == 0 {
				bad("does not consult the subscriptions")
				continue
			}
			key := look[0].Args[0]
			tab := look[0].Addr
			for _, e := range append(append(append([]*Event{}, look...), upd...), del...) {
				if e.Addr != tab || e.Args[0] != key {
					bad("uses different addresses for the same subscription")
				}
			}
			if d != nil && !d.null {
				r.address(cr, o, d, t, args, key, bad)
			} else if d == nil {
				bad("the document has no such operation")
			}
			has, known := t.Fact(cr.in.T.mk("has", "", types.Typ[types.Bool], tab, key))
			if !known {
				bad("does not distinguish whether the address is subscribed")
				continue
			}
			if o.kind == "unsubscribe" {
				if len(sub)+len(upd)+len(spawn) > 0 {
					bad("subscribes")
				}
				if !has {
					if len(cancel)+len(del) > 0 {
						bad("acts although the address is not subscribed")
					}
					r.Count("absent subscriptions", 1)
					continue
				}
				if len(cancel) != 1 || len(del) != 1 {
					bad("cancels %d times and forgets %d times", len(cancel), len(del))
					continue
				}
				if want := cr.in.T.mk("lookup", "", nil, tab, key); cancel[0].Args[0] != want {
					bad("cancels something else than the subscription of the address")
				}
				r.Count("subscriptions ended", 1)
				continue
			}
			ret := t.Ret[len(t.Ret)-1]
			isNil, k := t.errNil(ret)
			if len(cancel)+len(del) > 0 {
				bad("cancels")
			}
			if has {
				if len(sub)+len(upd)+len(spawn) > 0 {
					bad("touches the broker or the subscriptions although the address is subscribed")
				}
				if !k || isNil {
					bad("subscribing twice is not refused")
				}
				r.Count("second subscriptions", 1)
				continue
			}
			if len(sub) != 1 {
				bad("subscribes %d times on the broker", len(sub))
				continue
			}
			if sub[0].Args[2] != key {
				bad("subscribes on the broker under another address than the recorded one")
			}
			er := cr.in.extract(sub[0].Res, 1)
			failed, fk := t.errNil(er)
			if !fk {
				bad("does not check the broker's error")
				continue
			}
			if !failed { // an error
				if len(upd)+len(spawn) > 0 {
					bad("records or listens to a failed subscription")
				}
				if !cr.sameErr(t, ret, er) {
					bad("does not return the broker's error")
				}
				r.Count("failed subscriptions", 1)
				continue
			}
			if len(upd) != 1 || upd[0].Val != cr.in.extract(sub[0].Res, 0) {
				bad("does not record the subscription once")
			}
			if len(spawn) != 1 {
				bad("starts %d listeners", len(spawn))
			}
			if !k || !isNil {
				bad("reports an error although the subscription was made")
			}
			r.Count("new subscriptions", 1)
		}
	})
	for _, n := range []string{"absent subscriptions", "subscriptions ended", "second subscriptions", "failed subscriptions", "new subscriptions"} {
		r.Floor(n, 40)
	}
}
