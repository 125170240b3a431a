package main

import (
	"go/types"
)

func init() {
	register("C11", "every path of each generated send and reception is interpreted with 0 to 3 unknown middlewares that call their continuation 0, 1 or 2 times and fail or not: the order and number of executions and the error returned are compared with the chain's definition", ruleChain)
}

func (o *ctrlOp) where(r *Report) string { return r.W.PosStr(o.fn.Pos()) }

func ruleChain(r *Report) {
	r.ctrlOps(func(cw *ctrlWorld, o *ctrlOp, d *docOp) {
		switch o.kind {
		case "send":
			for n := 0; n <= 3; n++ {
				counts := []int{0, 1, 2}
				if n == 3 {
					counts = []int{0, 1}
				}
				cr := r.ctrl(cw, n, counts...)
				ts, args := cr.run(o)
				for _, t := range ts {
					r.Count("paths of sends", 1)
					r.chainSend(cr, o, t, args)
				}
			}
		case "subscribe":
			for n := 0; n <= 2; n++ {
				cr := r.ctrl(cw, n)
				if n == 2 {
					cr.in.MaxRecv = 1
				}
				ths, args := cr.threads(o)
				for _, th := range ths {
					if th.spawn == "" {
						continue
					}
					for _, t := range th.traces {
						_, segs := segmentsOf(t)
						for _, s := range segs {
							if !s.closed || cr.ended(t, s) {
								continue
							}
							r.Count("receptions", 1)
							ch := cr.listenChain(t, s, args[o.fnP])
							if ch.bad != "" {
								r.FailAt(o.id()+":"+ch.bad, o.where(r), "%s: on reception, %s", o.id(), ch.bad)
							}
						}
					}
				}
			}
		}
	})
	r.Floor("paths of sends", 500)
	r.Floor("receptions", 500)
}

// listenChain: the chain of one reception; its final operation is decoding and
// the user's function.
func (cr *ctrlRun) listenChain(t *Trace, s *segment, fn *Term) *chain {
	var dec, call *Event
	for _, e := range s.evs {
		if cr.isDecode(e) && dec == nil {
			dec = e
		}
		if e.Kind == EvCall && e.Callee == fn {
			if call != nil {
				return &chain{bad: "the user's function runs more than once"}
			}
			call = e
		}
	}
	final := func(e *Event) bool { return e == dec && dec != nil || e == call && dec == nil }
	return cr.chainOf(t, s.evs, final, func() *Term {
		if dec != nil {
			er := cr.in.extract(dec.Res, 1)
			if isNil, k := t.errNil(er); !k || !isNil {
				return er
			}
		}
		if call == nil {
			// nothing handled the message
			return cr.in.T.Sym("nonnil:the user's function is not called", types.Universe.Lookup("error").Type())
		}
		return call.Res
	})
}

func (r *Report) chainSend(cr *ctrlRun, o *ctrlOp, t *Trace, args []*Term) {
	var pub *Event
	for _, e := range t.Events {
		if isBroker(e, "Publish") {
			pub = e
		}
	}
	nm := 0
	for _, e := range t.Events {
		if cr.mw(e) >= 0 {
			nm++
		}
	}
	if t.Exit != "return" {
		r.FailAt(o.id()+":exit", o.where(r), "%s does not return (%s)", o.id(), t.Exit)
		return
	}
	ret := t.Ret[len(t.Ret)-1]
	if pub == nil && nm == 0 {
		// refused before reaching the middlewares
		if isNil, k := t.errNil(ret); !k || isNil {
			r.FailAt(o.id()+":silent", o.where(r), "%s returns without an error although nothing was sent", o.id())
		}
		return
	}
	ch := cr.chainOf(t, t.Events, func(e *Event) bool { return isBroker(e, "Publish") }, func() *Term { return pub.Res })
	if ch.bad == "" && !ch.free && !cr.sameErr(t, ret, ch.res) {
		ch.bad = "the error returned is not the one of the middleware or publication that failed"
	}
	if ch.bad != "" {
		r.FailAt(o.id()+":"+ch.bad, o.where(r), "%s: %s", o.id(), ch.bad)
	}
}
