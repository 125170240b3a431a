package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("C01", "every sequence of acknowledge / negative-acknowledge calls (up to 3, closed by an induction step on the message state) on a message built by its constructor is interpreted on all paths; the calls on the broker's acknowledgement interface are counted: one, of the first kind requested", ruleSettleOnce)
	register("C02", "the canceller, the broker-side goroutine and the transmitters are extracted from the source as synchronisation skeletons and all their interleavings are enumerated, with the channel capacities found at the creation sites; every adapter and the version wrapper is checked to start the cancellation goroutine for each subscription it returns", ruleCancel)
}

const extPath = Mod + "/pkg/extensions"

// extFn returns a runtime-library function or reports its absence.
func (r *Report) fn(pkg, name string) *Fn {
	f := r.W.Func(pkg, name)
	if f == nil || len(f.Blocks) == 0 {
		r.FailAt("anchor:"+pkg+"."+name, "-", "function %s.%s not found: the rule cannot be decided", strings.TrimPrefix(pkg, Mod+"/"), name)
		return nil
	}
	return &Fn{f}
}

func ifaceCall(e *Event, iface, method string) bool {
	if e.Kind != EvCall || !e.Invoke || e.Obj == nil || e.Obj.Name() != method {
		return false
	}
	return strings.HasSuffix(e.Name(), "."+iface+")."+method)
}

func ruleSettleOnce(r *Report) {
	in := r.Interp()
	ctor := r.fn(extPath, "NewAcknowledgeableBrokerMessage")
	fns := map[string]*Fn{"Ack": r.fn(extPath, "AcknowledgeableBrokerMessage.Ack"), "Nak": r.fn(extPath, "AcknowledgeableBrokerMessage.Nak")}
	if ctor == nil || fns["Ack"] == nil || fns["Nak"] == nil {
		return
	}
	obj := r.W.SSA[extPath].Pkg.Scope().Lookup("AcknowledgeableBrokerMessage")
	ptr := types.NewPointer(obj.Type())
	for _, ct := range in.Run(ctor.F, in.ParamTerms(ctor.F), nil, nil) {
		if ct.Exit != "return" {
			r.Fail("ctor", ctor.F.Pos(), "the constructor does not return (%s)", ct.Exit)
			continue
		}
		ackTerm := in.ParamTerms(ctor.F)[1]
		addr := in.T.mk("alloc", "the message", ptr)
		in.T.Eq(addr, addr)
		base := &Config{mem: map[*Term]*Term{}, facts: map[*Term]bool{}}
		for k, v := range ct.Mem {
			base.mem[k] = v
		}
		in.Store(base, addr, ct.Ret[0])
		type st struct {
			c     *Config
			seq   []string
			calls []string
		}
		work := []st{{c: base}}
		for len(work) > 0 {
			s := work[0]
			work = work[1:]
			if len(s.seq) == 3 {
				continue
			}
			for _, op := range []string{"Ack", "Nak"} {
				for _, t := range in.Run(fns[op].F, []*Term{addr}, nil, s.c) {
					seq := append(append([]string(nil), s.seq...), op)
					r.Count("call sequences", 1)
					calls := append([]string(nil), s.calls...)
					for _, e := range t.Events {
						for _, m := range []string{"AckMessage", "NakMessage"} {
							if ifaceCall(e, "BrokerAcknowledgment", m) && e.Args[0] == ackTerm {
								calls = append(calls, m)
							}
						}
					}
					where := fmt.Sprintf("after %s the broker received [%s]", strings.Join(seq, ", "), strings.Join(calls, ", "))
					if t.Exit != "return" {
						r.Fail("exit:"+op, fns[op].F.Pos(), "%s does not return normally (%s)", op, t.Exit)
						continue
					}
					want := seq[0] + "Message"
					if len(calls) != 1 || calls[0] != want {
						r.Fail("settled:"+strings.Join(seq, ","), fns[op].F.Pos(), "%s; expected exactly [%s]", where, want)
					}
					r.Sample("%s", where)
					nc := &Config{mem: t.Mem, facts: t.Facts}
					// induction: once the second call leaves the state unchanged, longer
					// sequences repeat it
					if len(seq) >= 2 && sameMem(in, s.c, nc, addr, obj.Type()) {
						r.Count("induction steps", 1)
						continue
					}
					work = append(work, st{nc, seq, calls})
				}
			}
		}
	}
	r.Floor("call sequences", 6)
	if r.Counts["induction steps"] == 0 {
		r.Note("no induction step: sequences bounded by length 3")
	}
}

func sameMem(in *Interp, a, b *Config, addr *Term, typ types.Type) bool {
	return in.Load(a, addr, typ) == in.Load(b, addr, typ)
}

// ---- C02 --------------------------------------------------------------------

// subscription creators: package -> functions whose returned subscription is
// handed to a user
var subscribers = []struct{ pkg, fn string }{
	{extPath + "/brokers/kafka", "Controller.Subscribe"},
	{extPath + "/brokers/nats", "Controller.Subscribe"},
	{extPath + "/brokers/natsjetstream", "Controller.Subscribe"},
	{extPath + "/versioning", "Wrapper.Subscribe"},
}

func isCtor(e *Event, name string) bool {
	return (e.Kind == EvEnter || e.Kind == EvCall) && e.Name() == extPath+"."+name
}

func ruleCancel(r *Report) {
	in := r.Interp()
	ctor := r.fn(extPath, "NewBrokerChannelSubscription")
	cancel := r.fn(extPath, "BrokerChannelSubscription.Cancel")
	wait := r.fn(extPath, "BrokerChannelSubscription.WaitForCancellationAsync")
	transmit := r.fn(extPath, "BrokerChannelSubscription.TransmitReceivedMessage")
	mchan := r.fn(extPath, "BrokerChannelSubscription.MessagesChannel")
	if ctor == nil || cancel == nil || wait == nil || transmit == nil || mchan == nil {
		return
	}
	caps := map[int64]string{}
	msgCaps := map[int64]string{}

	// every subscription handed to a user has its cancellation goroutine
	for _, sc := range subscribers {
		f := r.fn(sc.pkg, sc.fn)
		if f == nil {
			continue
		}
		sin := r.Interp()
		sin.Opaque[extPath+".NewBrokerChannelSubscription"] = false
		for _, t := range sin.Run(f.F, sin.ParamTerms(f.F), nil, nil) {
			if t.Exit != "return" || len(t.Ret) != 2 {
				continue
			}
			// creations on this path
			for _, e := range t.Events {
				if isCtor(e, "NewBrokerChannelSubscription") {
					r.Count("subscription creations", 1)
					for i, m := range []map[int64]string{msgCaps, caps} {
						c := e.Args[i]
						if c.Op != "makechan" {
							r.Fail("chan:"+sc.pkg+":"+fmt.Sprint(i), e.Pos(), "the channel given to the subscription is not created for it alone (%s)", c)
							continue
						}
						if n, ok := c.Args[0].Int(); ok {
							m[n] = r.W.PosStr(e.Pos())
						} else {
							r.Fail("chancap:"+sc.pkg+":"+fmt.Sprint(i), e.Pos(), "channel capacity not constant: %s", c.Args[0])
						}
					}
				}
			}
			isNil, known := t.IsNilTerm(t.Ret[1])
			if known && !isNil {
				continue // an error is returned: nothing is handed out
			}
			r.Count("paths returning a subscription", 1)
			sub := t.Ret[0]
			found := false
			for _, e := range t.Events {
				if e.Kind == EvEnter && e.Obj != nil && e.SSAFn == wait.F {
					if e.Args[0] == sub {
						found = true
					} else if sub.Op == "struct" && e.Args[0].Op == "struct" && sub.Args[0] == e.Args[0].Args[0] && sub.Args[1] == e.Args[0].Args[1] {
						found = true
					}
				}
			}
			if !found {
				r.Fail("no-listener:"+sc.pkg+"."+sc.fn, f.F.Pos(), "a path of %s returns a subscription for which no cancellation goroutine was started: %s", f.F, sub)
			}
		}
	}
	r.Floor("subscription creations", 4)
	r.Floor("paths returning a subscription", 4)

	// the handshake
	for c, where := range caps {
		ct := in.Run(ctor.F, []*Term{in.T.Sym("nonnil:messages", ctor.F.Params[0].Type()), in.T.Sym("nonnil:cancel", ctor.F.Params[1].Type())}, nil, nil)
		for _, k := range ct {
			if k.Exit != "return" {
				continue
			}
			sub := k.Ret[0]
			base := &Config{mem: k.Mem, facts: k.Facts}
			r.handshake(in, c, where, base, sub, ctor, cancel, wait, transmit, mchan)
		}
	}
	r.Floor("interleavings enumerated", 3)
}

func (r *Report) handshake(in *Interp, capN int64, where string, base *Config, sub *Term, ctor, cancel, wait, transmit, mchan *Fn) {
	cleanup := in.T.Sym("nonnil:cleanup", wait.F.Params[1].Type())
	msgs := in.T.Sym("nonnil:messages", ctor.F.Params[0].Type())
	can := in.T.Sym("nonnil:cancel", ctor.F.Params[1].Type())
	mark := func(e *Event) string {
		if e.Kind == EvCall && e.Callee == cleanup {
			return "cleanup"
		}
		if e.Kind == EvClose && e.Addr == msgs {
			return "end of stream"
		}
		return ""
	}
	run := func(f *Fn, args ...*Term) *[]*Trace {
		ts := in.Run(f.F, args, nil, base)
		return &ts
	}
	ctx := in.T.Sym("ctx", cancel.F.Params[1].Type())
	for _, t := range *run(mchan, sub) {
		if t.Exit != "return" || t.Ret[0] != msgs {
			r.Fail("messages-channel", mchan.F.Pos(), "MessagesChannel does not return the message stream")
		}
	}
	msg := in.T.Sym("msg", transmit.F.Params[1].Type())
	for _, t := range *run(transmit, sub, msg) {
		n := 0
		for _, e := range t.Events {
			if e.Kind == EvSend && e.Addr == msgs {
				n++
				if e.Val != msg {
					r.Fail("transmit-value", transmit.F.Pos(), "a message is altered while it is transmitted")
				}
			}
		}
		if n > 1 {
			r.Fail("transmit-twice", transmit.F.Pos(), "a message is transmitted %d times", n)
		}
	}
	for _, sc := range []struct {
		name string
		n    int
		tx   int
		env  bool
	}{{"one canceller", 1, 0, false}, {"two cancellers", 2, 0, false}, {"one canceller whose context may end", 1, 0, true}, {"a canceller and a transmitter", 1, 1, false}} {
		p := in.NewProduct()
		p.Caps[msgs], p.Caps[can] = 0, int(capN)
		p.EnvDone = sc.env
		p.Mark = mark
		p.OnMark = func(s *pState, m string) string {
			if s.marks["cleanup"] > 1 {
				return "the clean-up runs more than once"
			}
			if m == "end of stream" && s.marks["cleanup"] == 0 {
				return "the message stream is closed before the clean-up ran"
			}
			return ""
		}
		var names []string
		var roots []*pNode
		wt := *run(wait, sub, cleanup)
		names, roots = append(names, "broker side"), append(roots, p.Trie(wt))
		for i := 0; i < sc.n; i++ {
			names, roots = append(names, fmt.Sprintf("canceller %d", i+1)), append(roots, p.Trie(*run(cancel, sub, ctx)))
		}
		for i := 0; i < sc.tx; i++ {
			names, roots = append(names, fmt.Sprintf("transmitter %d", i+1)), append(roots, p.Trie(*run(transmit, sub, msg)))
		}
		p.OnEnd = func(s *pState, pi int, end string) string {
			nm := s.procs[pi].name
			if strings.HasPrefix(nm, "canceller") && s.marks["ctxdone:"+nm] == 0 && (s.marks["cleanup"] == 0 || s.marks["end of stream"] == 0) {
				return "the canceller returns before the cancellation was carried out"
			}
			return ""
		}
		p.Final = func(s *pState) string {
			if s.marks["cleanup"] != 1 {
				return fmt.Sprintf("the clean-up ran %d times", s.marks["cleanup"])
			}
			if s.marks["end of stream"] != 1 {
				return "the message stream is never closed"
			}
			return ""
		}
		p.Explore(names, roots)
		r.Count("interleavings enumerated", p.States)
		r.Sample("scenario %q with cancel capacity %d (%s): %d states", sc.name, capN, where, p.States)
		for _, k := range sortedKeys(p.Problems) {
			if r.ID == "C10" && !strings.Contains(k, "send on") {
				continue
			}
			r.Fail("handshake:"+sc.name+":"+k, cancel.F.Pos(), "with %s and a cancellation channel of capacity %d (created at %s): %s. Schedule: %s", sc.name, capN, where, k, p.Problems[k])
		}
	}
}
