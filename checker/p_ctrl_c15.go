package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", "every path of the bulk operations is interpreted with their callees inlined: the addresses subscribed on the broker and the handlers their listeners call are compared with the document's receivable channels, and what unsubscribing and closing cancel with the subscription table", ruleBulk)
	register("C16", "every path of each generated request operation is interpreted, including its deferred clean-up and each outcome of its wait: order of subscription and publication, cancellation on each exit, settlement of each reply consumed, correlation of the reply returned, and the error on each way out are checked", ruleRequest)
}

// receivable: the addresses one side receives on without parameters, with the
// names their handlers may have.
func receivable(ops []*docOp, side string) (m map[string][]string, withParams bool, twice bool) {
	m = map[string][]string{}
	for _, d := range ops {
		if d.send != (side == "User") || d.reply {
			continue
		}
		if len(d.params) > 0 {
			withParams = true
			continue
		}
		if m[d.addr] != nil {
			twice = true
		}
		m[d.addr] = append(m[d.addr], d.names...)
	}
	return
}

func ruleBulk(r *Report) {
	r.ctrlSides(func(cw *ctrlWorld, side string, ops []*docOp) {
		recv, withParams, twice := receivable(ops, side)
		have := map[string]bool{}
		nsub := 0
		for _, o := range cw.ops {
			if o.side != side {
				continue
			}
			have[o.kind] = true
			if o.kind == "subscribe" {
				nsub++
			}
		}
		if nsub > 0 && (!have["suball"] || !have["unsuball"] || !have["close"]) {
			r.FailAt(cw.x.Shape.key()+":"+side+":no bulk operations", "-", "%s %s can subscribe but lacks a bulk operation", cw.x.Shape.key(), side)
		}
		if twice {
			r.Count("controllers with two operations on an address", 1)
		}
		for _, o := range cw.ops {
			if o.side != side {
				continue
			}
			switch o.kind {
			case "suball":
				if !twice {
					r.subAll(cw, o, recv)
				}
			case "unsuball", "close":
				if nsub > 0 {
					r.unsubAll(cw, o, recv, withParams)
				}
			}
		}
	})
	r.Floor("paths of bulk subscriptions", 100)
	r.Floor("paths of bulk cancellations", 150)
	r.Floor("handlers bound", 40)
}

func (r *Report) subAll(cw *ctrlWorld, o *ctrlOp, recv map[string][]string) {
	cr := r.ctrl(cw, 0)
	cr.in.MaxRecv = 1
	cr.in.MaxForks, cr.in.MaxVisit = 12, 12
	bad := func(format string, a ...any) {
		m := fmt.Sprintf(format, a...)
		r.FailAt(o.id()+":"+m, o.where(r), "%s: %s", o.id(), m)
	}
	ths, args := cr.threads(o)
	as := args[len(args)-1]
	for _, th := range ths {
		for _, t := range th.traces {
			if th.spawn != "" {
				// the handler bound to the address
				_, segs := segmentsOf(t)
				for _, s := range segs {
					sub := cr.subOf(s)
					if sub == nil {
						continue
					}
					a, _ := canonTerm(sub)
					for _, e := range s.evs {
						if e.Kind == EvCall && e.Invoke && len(e.Args) > 0 && e.Args[0] == as {
							n := strings.TrimSuffix(strings.TrimSuffix(norm(e.Obj.Name()), "received"), "operation")
							ok := false
							for _, w := range recv[a] {
								ok = ok || n == strings.TrimSuffix(w, "operation")
							}
							if !ok {
								bad("messages of %q are given to the handler %s", a, e.Obj.Name())
							}
							r.Count("handlers bound", 1)
						}
					}
				}
				continue
			}
			if t.Exit == "truncated" {
				bad("a path does not end")
				continue
			}
			r.Count("paths of bulk subscriptions", 1)
			var done []string
			var failed *Term // error of the step that failed
			ret := t.Ret[0]
			for _, e := range t.Events {
				switch {
				case e.Kind == EvLookup && isSubTable(e.Addr):
					if v, k := t.Fact(e.Res); k && v && failed == nil {
						failed = cr.in.T.Sym("nonnil:already subscribed", nil)
					}
				case isBroker(e, "Subscribe"):
					if v, k := t.errNil(as); !k || v {
						bad("subscribes without a subscriber")
					}
					if failed != nil {
						bad("goes on after an error")
					}
					a, _ := canonTerm(e.Args[2])
					if recv[a] == nil {
						bad("subscribes to %q, which is not a receivable channel without parameters", a)
					}
					er := cr.in.extract(e.Res, 1)
					isNil, k := t.errNil(er)
					if k && !isNil {
						failed = er
					} else {
						done = append(done, a)
					}
				}
			}
			isNil, k := t.errNil(ret)
			if !k {
				bad("returns an error it has not examined")
				continue
			}
			if failed != nil {
				if isNil || failed.Op != "sym" && !cr.sameErr(t, ret, failed) {
					bad("does not return the first error")
				}
				continue
			}
			if isNil {
				sort.Strings(done)
				if got, want := strings.Join(done, " "), strings.Join(sortedKeys(recv), " "); got != want {
					bad("subscribes to [%s] instead of [%s]", got, want)
				}
			} else if v, k := t.errNil(as); !k || !v || len(done) > 0 {
				bad("returns an error although nothing failed")
			}
		}
	}
}

func (r *Report) unsubAll(cw *ctrlWorld, o *ctrlOp, recv map[string][]string, withParams bool) {
	cr := r.ctrl(cw, 0)
	bad := func(format string, a ...any) {
		m := fmt.Sprintf(format, a...)
		r.FailAt(o.id()+":"+m, o.where(r), "%s: %s", o.id(), m)
	}
	ts, _ := cr.run(o)
	complete := 0
	for _, t := range ts {
		if t.Exit == "truncated" {
			continue
		}
		complete++
		r.Count("paths of bulk cancellations", 1)
		if t.Exit != "return" {
			bad("does not return (%s)", t.Exit)
			continue
		}
		known := map[string]bool{} // addresses looked up
		cancelled := map[*Term]bool{}
		deleted := map[*Term]bool{}
		var owed [][2]*Term // subscriptions and keys
		ranged := false
		owe := func(v, k *Term) { owed = append(owed, [2]*Term{v, k}) }
		for _, e := range t.Events {
			switch {
			case e.Kind == EvLookup && isSubTable(e.Addr):
				if a, ok := canonTerm(e.Args[0]); ok {
					known[a] = true
				}
				if v, k := t.Fact(e.Res); k && v {
					owe(e.Val, e.Args[0])
				}
			case e.Kind == EvBranch:
				c, taken := e.Cond, e.Taken
				if c.Op == "not" {
					c, taken = c.Args[0], !taken
				}
				if c.Op == "nextok" && isSubTable(c.Args[0].Args[0].Args[0]) {
					if !taken {
						ranged = true
						continue
					}
					nx := c.Args[0]
					owe(cr.in.T.mk("nextval", "", nil, nx), cr.in.T.mk("nextkey", "", nil, nx))
				}
			case isSubCall(e, "Cancel"):
				cancelled[e.Args[0]] = true
			case e.Kind == EvMapDel && isSubTable(e.Addr):
				deleted[e.Args[0]] = true
			case e.Kind == EvCall && e.Obj == nil && false:
			}
			if e.Kind == EvMapDel && isSubTable(e.Addr) && e.Args[0] == nil {
				bad("forgets subscriptions wholesale")
			}
		}
		for _, w := range owed {
			if !cancelled[w[0]] {
				bad("a subscription is not cancelled")
			}
			if !deleted[w[1]] {
				bad("a cancelled subscription is not forgotten")
			}
		}
		if !ranged {
			if withParams {
				bad("subscriptions of channels with parameters are not cancelled")
			}
			for a := range recv {
				if !known[a] {
					bad("the subscription of %q is not cancelled", a)
				}
			}
		}
	}
	if complete == 0 {
		bad("no path ends within the bounds")
	}
}

// ---- C16 --------------------------------------------------------------------------

// derives: ctx is the context base with values, deadlines or cancellation added.
func derives(ctx, base *Term) bool {
	for i := 0; i < 40 && ctx != nil; i++ {
		if ctx == base {
			return true
		}
		switch {
		case ctx.Op == "call" && ctx.Aux == "context.WithValue":
			ctx = ctx.Args[0]
		case ctx.Op == "extract" && ctx.Aux == "0" && ctx.Args[0].Op == "call" && strings.Contains(ctx.Args[0].Aux+ctx.Args[0].String(), "With"):
			ctx = ctx.Args[0].Args[0]
		default:
			return false
		}
	}
	return false
}

func isDone(ch *Term, base *Term) bool {
	return ch.Op == "call" && strings.HasSuffix(ch.Aux, "Context).Done") && derives(ch.Args[0], base)
}

func ruleRequest(r *Report) {
	r.ctrlOps(func(cw *ctrlWorld, o *ctrlOp, d *docOp) {
		if o.kind != "request" {
			return
		}
		for n := 0; n <= 1; n++ {
			cr := r.ctrl(cw, n)
			ts, args := cr.run(o)
			bad := func(format string, a ...any) {
				m := fmt.Sprintf(format, a...)
				r.FailAt(o.id()+":"+m, o.where(r), "%s with %d middlewares: %s", o.id(), n, m)
			}
			ctx := args[1]
			// what each wait can end with
			waits := map[ssa.Instruction][]*Term{}
			for _, t := range ts {
				for _, e := range t.Events {
					if e.Kind == EvRecv {
						waits[e.Instr] = append(waits[e.Instr], e.Addr)
					}
				}
			}
			for _, t := range ts {
				r.Count("paths of requests", 1)
				r.request(cr, o, d, t, args, ctx, waits, bad)
			}
		}
	})
	r.Floor("paths of requests", 2000)
	r.Floor("replies returned", 200)
	r.Floor("waits ended by the caller's context", 50)
	r.Floor("waits ended by the stream", 50)
}

func (r *Report) request(cr *ctrlRun, o *ctrlOp, d *docOp, t *Trace, args []*Term, ctx *Term, waits map[ssa.Instruction][]*Term, bad func(string, ...any)) {
	var sub, pub *Event
	cancels := 0
	sent := false
	var failedSend *Term
	var doneRecv *Event
	for _, e := range t.Events {
		switch {
		case isBroker(e, "Subscribe"):
			if sub != nil {
				bad("subscribes twice")
			}
			sub = e
			if pub != nil {
				bad("publishes before subscribing to the reply channel")
			}
			r.replyAddr(cr, o, d, e.Args[2], args, bad)
		case isBroker(e, "Publish") || o.fnP >= 0 && e.Kind == EvCall && e.Callee == args[o.fnP]:
			if pub != nil {
				bad("publishes twice")
			}
			pub, sent = e, true
			if sub == nil {
				bad("publishes before subscribing to the reply channel")
			} else if isNil, k := t.errNil(cr.in.extract(sub.Res, 1)); !k || !isNil {
				bad("publishes although the reply channel may not be subscribed")
			}
			if isNil, k := t.errNil(e.Res); k && !isNil {
				failedSend = e.Res
			}
		case isSubCall(e, "Cancel"):
			if sub == nil || e.Args[0] != cr.in.extract(sub.Res, 0) {
				bad("cancels something else than its subscription")
			}
			cancels++
		case e.Kind == EvRecv:
			if !sent {
				bad("waits before publishing")
			}
			if cancels > 0 {
				bad("waits after cancelling")
			}
			if isDone(e.Addr, ctx) {
				doneRecv = e
				continue
			}
			if !isMsgRecv(e) {
				bad("waits for something else than a reply or the end of its context")
			}
			// the wait must also end with the caller's context
			ok := false
			if e.Select == 1 {
				for _, ch := range waits[e.Instr] {
					ok = ok || isDone(ch, ctx)
				}
			}
			if !ok {
				bad("the wait for a reply does not end with the caller's context")
			}
			if sub == nil || !e.Addr.Mentions(cr.in.extract(sub.Res, 0)) {
				bad("waits for replies on something else than its subscription")
			}
		}
	}
	_, segs := segmentsOf(t)
	for _, s := range segs {
		if !s.closed {
			continue
		}
		if cr.ended(t, s) && cr.uninit(t, s) {
			if !s.last {
				bad("keeps waiting after the reply stream ended")
			}
			continue
		}
		settled := 0
		for _, e := range s.evs {
			if isSettle(e) != "" {
				settled++
				if !cr.isMsg(e.Args[0], s) {
					bad("settles something else than the reply consumed")
				}
			}
		}
		if settled != 1 {
			bad("a reply consumed is settled %d times", settled)
		}
	}
	switch t.Exit {
	case "return":
	case "panic":
		bad("may panic")
		return
	default:
		return
	}
	ret := t.Ret[1]
	isNil, k := t.errNil(ret)
	subOK := false
	if sub != nil {
		v, k := t.errNil(cr.in.extract(sub.Res, 1))
		subOK = !k || v
		if k && !v && (!cr.sameErr(t, ret, cr.in.extract(sub.Res, 1))) {
			bad("does not return the broker's error")
		}
	}
	if subOK && cancels != 1 {
		bad("cancels its subscription %d times on a way out", cancels)
	}
	if !subOK && cancels > 0 {
		bad("cancels a subscription that was not made")
	}
	if failedSend != nil && !isNil && cr.mws == nil && !cr.sameErr(t, ret, failedSend) {
		bad("does not return the error of the publication")
	}
	if doneRecv != nil {
		r.Count("waits ended by the caller's context", 1)
		if !k || isNil {
			bad("returns without an error although the caller's context ended")
		}
	}
	if len(segs) > 0 && doneRecv == nil {
		s := segs[len(segs)-1]
		if cr.ended(t, s) && cr.uninit(t, s) {
			r.Count("waits ended by the stream", 1)
			if !k || isNil {
				bad("returns without an error although the reply stream ended")
			}
			return
		}
	}
	if k && !isNil {
		return
	}
	// success
	if !sent {
		bad("returns a reply although nothing was published")
		return
	}
	if len(segs) == 0 || doneRecv != nil {
		bad("returns a reply although none was received")
		return
	}
	if failedSend != nil && cr.mws == nil {
		bad("returns a reply although the publication failed")
	}
	r.Count("replies returned", 1)
	// no middleware on the reply failed
	s := segs[len(segs)-1]
	ch := cr.chainOf(t, s.evs, nil, nil)
	if ch.bad != "" {
		bad("on the reply, %s", ch.bad)
	} else if v, k := t.errNil(ch.res); !ch.free && (!k || !v) {
		bad("returns a reply although a middleware failed")
	}
	both := d != nil && (o.x.Shape.Major == 2 && d.corr && o.msgP >= 0 || d.rep != nil && d.corr && d.rep.corr)
	if both {
		// the identifiers of the request and of a decoded reply are known equal
		ok := false
		for f, v := range t.Facts {
			if f.Op != "eq" || !v {
				continue
			}
			a, b := f.Args[0], f.Args[1]
			if isCorrID(b, nil) && !isCorrID(a, nil) {
				a, b = b, a
			}
			if !isCorrID(a, nil) || !isCorrID(b, nil) {
				continue
			}
			if b.Mentions(args[o.msgP]) && !fromRecv(b, s) {
				a, b = b, a
			}
			ok = ok || fromRecv(b, s) && a.Mentions(args[o.msgP]) && !fromRecv(a, s)
		}
		r.Count("replies compared", 1)
		if !ok {
			bad("returns a reply whose correlation identifier was not compared with the request's")
		}
	}
}

func fromRecv(x *Term, s *segment) bool { return x.Mentions(s.recv.Val) }

// isCorrID: the correlation identifier of a message.
func isCorrID(x, of *Term) bool {
	return x.Op == "call" && x.Obj != nil && x.Obj.Name() == "CorrelationID" && (of == nil || x.Args[0] == of)
}

func (cr *ctrlRun) hasCorr(t types.Type) bool {
	if n := genNamed(cr.cw.x.Pkg, t); n != nil {
		for i := 0; i < n.NumMethods(); i++ {
			if n.Method(i).Name() == "CorrelationID" {
				return true
			}
		}
	}
	return false
}

// replyAddr: the address subscribed by a request is the reply channel's.
func (r *Report) replyAddr(cr *ctrlRun, o *ctrlOp, d *docOp, a *Term, args []*Term, bad func(string, ...any)) {
	if d == nil {
		bad("the document has no such operation")
		return
	}
	want := d
	if o.x.Shape.Major == 3 {
		want = d.rep
	}
	if want == nil {
		bad("the document has no reply for this operation")
		return
	}
	r.Count("reply addresses", 1)
	if want.dyn {
		if !a.Mentions(args[o.msgP]) {
			bad("does not wait on the address the request designates")
		}
		return
	}
	if want.null {
		return
	}
	if got, ok := canonTerm(a); !ok || got != want.addr {
		bad("waits on %q instead of %q", got, want.addr)
	}
}
