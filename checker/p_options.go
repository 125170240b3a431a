package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C38: the configuration of a broker controller takes effect. Controllers are built with
// every sequence of up to two options (two values for each), then used: what the broker
// library is given for each concern (address, group, partition, security, stream, consumer,
// delay, connection, logger, commit mode) has to be what the last option about it gave, and
// the documented default when no option is about it.

func init() {
	register("C38", "path-sensitive dataflow over SSA: every constructor of a broker adapter is interpreted with each sequence of up to two options (two symbolic values each), then publication, subscription and what they start are interpreted from the state it leaves; the arguments and receivers of the broker library's calls, and the loggers used, are compared with the value of the last option about them or the documented default", ruleBrokerOptions)
}

// A use is something that the broker library is given.
type optUse struct {
	what string // the concern
	e    *Event
	v    *Term
}

// optWant says what a concern is expected to be.
type optWant struct {
	options []string                                        // the options about it
	value   func(in *Interp, given *Term, opt string) *Term // from the parameter of the option
	def     func(in *Interp, args []*Term) *Term            // the documented default, if any
	least   int
}

type optChoice struct {
	name string
	fn   *Term
	val  *Term
}

func defaultGroup(r *Report) func(in *Interp, _ []*Term) *Term {
	return func(in *Interp, _ []*Term) *Term {
		c, ok := r.W.SSA[extPath+"/brokers"].Pkg.Scope().Lookup("DefaultQueueGroupID").(*types.Const)
		if !ok {
			return nil
		}
		return in.T.Str(constant.StringVal(c.Val()))
	}
}

func asGiven(_ *Interp, v *Term, _ string) *Term { return v }

func nameOf(in *Interp, v *Term, opt string) *Term {
	if strings.HasSuffix(opt, "Config") {
		return in.fieldByName(v, "Name")
	}
	return v
}

// optTable gives, for each adapter, its concerns.
func (r *Report) optTable() map[string]map[string]*optWant {
	hosts := func(in *Interp, args []*Term) *Term { return args[0] }
	isTrue := func(in *Interp, _ []*Term) *Term { return in.T.Bool(true) }
	return map[string]map[string]*optWant{
		"kafka": {
			"addresses":          {def: hosts, least: 3},
			"group":              {options: []string{"WithGroupID"}, value: asGiven, def: defaultGroup(r), least: 1},
			"partition":          {options: []string{"WithPartition"}, value: asGiven, def: func(in *Interp, _ []*Term) *Term { return in.T.Int(0) }, least: 1},
			"size":               {options: []string{"WithMaxBytes"}, value: asGiven, def: func(in *Interp, _ []*Term) *Term { return in.T.Int(10000000) }, least: 1},
			"TLS":                {options: []string{"WithTLS"}, value: asGiven, least: 3},
			"authentication":     {options: []string{"WithSasl"}, value: asGiven, least: 3},
			"automatic commit":   {options: []string{"WithAutoCommit"}, value: asGiven, def: isTrue, least: 1},
			"test at connection": {options: []string{"WithConnectionTest"}, value: asGiven, def: isTrue, least: 1},
			"logger":             {options: []string{"WithLogger"}, value: asGiven, least: 3},
		},
		"nats": {
			"address":            {def: hosts, least: 1},
			"connection options": {options: []string{"WithConnectionOpts"}, value: asGiven, def: func(in *Interp, _ []*Term) *Term { return in.T.Nil() }, least: 1},
			"connection":         {options: []string{"WithConnectionOpts"}, least: 2},
			"group":              {options: []string{"WithQueueGroup"}, value: asGiven, def: defaultGroup(r), least: 1},
			"logger":             {options: []string{"WithLogger"}, value: asGiven, least: 1},
		},
		"natsjetstream": {
			"address":            {def: hosts},
			"connection options": {options: []string{"WithConnectionOpts"}, value: asGiven, def: func(in *Interp, _ []*Term) *Term { return in.T.Nil() }},
			"connection":         {options: []string{"WithConnectionOpts", "WithConnection"}, least: 3},
			"stream created":     {options: []string{"WithStreamConfig"}, value: asGiven},
			"stream":             {options: []string{"WithStream", "WithStreamConfig"}, value: nameOf, least: 1},
			"consumer created":   {options: []string{"WithConsumerConfig"}, value: asGiven},
			"consumer":           {options: []string{"WithConsumer", "WithConsumerConfig"}, value: nameOf, least: 1},
			"delay":              {options: []string{"WithNakDelay"}, value: asGiven, least: 1},
			"logger":             {options: []string{"WithLogger"}, value: asGiven, least: 3},
		},
	}
}

func ruleBrokerOptions(r *Report) {
	table := r.optTable()
	for _, a := range r.adapters() {
		tb := table[a.name]
		if tb == nil {
			r.FailAt("adapter:"+a.name, "-", "the options of the adapter %s are not known", a.name)
			continue
		}
		known := map[string]bool{}
		for _, w := range tb {
			for _, o := range w.options {
				known[o] = true
			}
		}
		have := map[string]bool{}
		for _, o := range a.opts {
			have[o.Name()] = true
			if !known[o.Name()] {
				r.Fail("option:"+a.name+"."+o.Name(), o.Pos(), "the effect of the option %s.%s is not known", a.name, o.Name())
			}
		}
		for o := range known {
			if !have[o] {
				r.FailAt("option:"+a.name+"."+o, "-", "the option %s.%s is gone", a.name, o)
			}
		}
		for _, c := range a.ctors {
			r.adapterOptions(a, c, tb)
		}
	}
	r.Floor("options", 16)
	r.Floor("constructions", 300)
	r.Floor("uses compared", 3000)
	r.Floor("uses of an option", 800)
}

func (r *Report) optInterp(a *adapter) *Interp {
	in := r.brokerInterp(0)
	in.Callbacks = true
	in.NoHavoc = func(*Event) bool { return true }
	for _, m := range r.W.SSA[a.pkg].Members {
		if f, ok := m.(*ssa.Function); ok && f.Object() != nil && isMatcher(f.Signature) {
			in.Opaque[f.Object().(*types.Func).FullName()] = true
		}
	}
	return in
}

func (r *Report) adapterOptions(a *adapter, ctor *ssa.Function, tb map[string]*optWant) {
	in := r.optInterp(a)
	var ot types.Type
	if ctor.Signature.Variadic() {
		ot = ctor.Params[len(ctor.Params)-1].Type().Underlying().(*types.Slice).Elem()
	}
	if ot == nil {
		r.Fail("ctor:"+a.name, ctor.Pos(), "%s.%s takes no options", a.name, ctor.Name())
		return
	}
	base := map[*Term]*Term{}
	facts := map[*Term]bool{}
	var all []optChoice
	for _, o := range a.opts {
		r.Count("options", 1)
		if len(o.Params) != 1 {
			r.Fail("option:"+a.name+"."+o.Name(), o.Pos(), "the option %s.%s does not take one parameter", a.name, o.Name())
			continue
		}
		pt := o.Params[0].Type()
		vals := []*Term{in.T.Sym("nonnil:first:"+a.name+o.Name(), pt), in.T.Sym("nonnil:second:"+a.name+o.Name(), pt)}
		if isBoolType(pt) {
			vals = []*Term{in.T.Bool(true), in.T.Bool(false)}
		}
		for i, v := range vals {
			got := 0
			for _, t := range in.Run(o, []*Term{v}, nil, nil) {
				if t.Exit != "return" || len(t.Ret) != 1 || t.Ret[0].Fn == nil {
					continue
				}
				got++
				f := t.Ret[0]
				for x, y := range t.Mem {
					base[x] = y
				}
				if f.Op == "closure" {
					// each option has its own variables
					var bind []*Term
					for k, b := range f.Args {
						if b.Op == "alloc" {
							own := in.T.Sym(fmt.Sprintf("nonnil:own:%d:%d:%s%s", k, i, a.name, o.Name()), b.Typ)
							base[own] = in.Load(t.config(), b, elemType(b.Typ))
							b = own
						}
						bind = append(bind, b)
					}
					g := in.T.mk("closure", f.Aux, f.Typ, bind...)
					g.Fn = f.Fn
					f = g
				}
				all = append(all, optChoice{o.Name(), f, v})
			}
			if got != 1 {
				r.Fail("option:"+a.name+"."+o.Name(), o.Pos(), "%s.%s gives %d options", a.name, o.Name(), got)
			}
		}
	}
	seqs := [][]optChoice{nil}
	for _, o := range all {
		seqs = append(seqs, []optChoice{o})
		for _, p := range all {
			seqs = append(seqs, []optChoice{o, p})
		}
	}
	seen := map[string]int{}
	for _, s := range seqs {
		r.optionSequence(a, in, ctor, ot, s, base, facts, tb, seen)
	}
	for _, what := range sortedKeys(tb) {
		w := tb[what]
		if seen[what] < w.least || seen[what] == 0 {
			r.Fail("unused:"+a.name+":"+what, ctor.Pos(), "adapter %s: nothing that the broker library is given is about the %s", a.name, what)
		}
	}
	if len(in.Undecided) > 0 {
		r.Fail("undecided:"+a.name, ctor.Pos(), "adapter %s could not be decided: %s", a.name, in.Undecided[0])
	}
}

func (r *Report) optionSequence(a *adapter, in *Interp, ctor *ssa.Function, ot types.Type, seq []optChoice, base map[*Term]*Term, facts map[*Term]bool, tb map[string]*optWant, seen map[string]int) {
	init := &Config{mem: map[*Term]*Term{}, facts: map[*Term]bool{}}
	for k, v := range base {
		init.mem[k] = v
	}
	for k, v := range facts {
		init.facts[k] = v
	}
	args := in.ParamTerms(ctor)
	var names []string
	var fs []*Term
	for _, o := range seq {
		n := o.name
		if b, ok := boolConst(o.val); ok {
			n = fmt.Sprintf("%s(%t)", n, b)
		}
		names = append(names, n)
		fs = append(fs, o.fn)
	}
	args[len(args)-1] = in.T.mk("list", "", types.NewSlice(ot), fs...)
	what := fmt.Sprintf("%s.%s(%s)", a.name, ctor.Name(), strings.Join(names, ", "))
	// the last option about a concern
	given := func(w *optWant) *optChoice {
		for i := len(seq) - 1; i >= 0; i-- {
			for _, o := range w.options {
				if seq[i].name == o {
					return &seq[i]
				}
			}
		}
		return nil
	}
	// two options of different names about a concern: which wins is not documented
	unclear := func(w *optWant) bool {
		return len(seq) == 2 && seq[0].name != seq[1].name && isIn2(seq[0].name, w.options) && isIn2(seq[1].name, w.options)
	}
	done := 0
	for _, t := range in.Run(ctor, args, nil, init) {
		if t.Exit != "return" || in.absurd(t) || len(t.Ret) != 2 || t.nonNilErr(t.Ret[1]) {
			continue
		}
		if n, k := t.IsNilTerm(t.Ret[1]); !k || !n {
			r.Fail("undecided:"+a.name, ctor.Pos(), "%s may succeed or not", what)
			continue
		}
		done++
		r.Count("constructions", 1)
		ctl := t.Ret[0]
		uses := r.optUses(a, in, t, nil, "constructor")
		if a.name == "kafka" {
			tested := in.T.Bool(false)
			for _, e := range t.Events {
				if libCall(e, "Brokers", "Controller", "ReadPartitions", "ApiVersions") {
					tested = in.T.Bool(true)
				}
			}
			uses = append(uses, optUse{"test at connection", nil, tested})
		}
		for _, fn := range []*ssa.Function{a.pub, a.sub} {
			as := in.ParamTerms(fn)
			as[0] = ctl
			for _, th := range in.threads(fn, as, t.config().clone()) {
				for _, u := range th.traces {
					uses = append(uses, r.optUses(a, in, u, t, fn.Name())...)
				}
			}
		}
		for _, u := range uses {
			w := tb[u.what]
			if w == nil || unclear(w) {
				continue
			}
			seen[u.what]++
			o := given(w)
			var want *Term
			switch {
			case u.what == "connection":
				want = r.connectionOf(in, t, o)
			case o != nil:
				want = w.value(in, o.val, o.name)
				r.Count("uses of an option", 1)
			case w.def != nil:
				want = w.def(in, args)
			default:
				continue
			}
			r.Count("uses compared", 1)
			if want == nil {
				r.Fail("undecided:"+a.name+":"+u.what, ctor.Pos(), "%s: what the %s has to be is not known", what, u.what)
				continue
			}
			if !sameUse(u.v, want) {
				pos := ctor.Pos()
				if u.e != nil {
					pos = u.e.Pos()
				}
				r.Fail("effect:"+a.name+":"+u.what, pos, "after %s, the %s is not what was configured: %s instead of %s", what, u.what, u.v, want)
			}
		}
		// what was configured is created
		for _, k := range []string{"stream created", "consumer created"} {
			if w := tb[k]; w != nil && given(w) != nil {
				n := 0
				for _, u := range uses {
					if u.what == k {
						n++
					}
				}
				if n == 0 {
					r.Fail("created:"+a.name+":"+k, ctor.Pos(), "%s succeeds without the configuration being given to the broker (%s)", what, k)
				}
			}
		}
	}
	if done == 0 {
		r.Fail("never:"+a.name, ctor.Pos(), "%s never succeeds", what)
	}
}

func sameUse(got, want *Term) bool {
	if got == want {
		return true
	}
	if got == nil {
		return false
	}
	if want.IsNil() && (got.IsNil() || got.Op == "zero" || got.Op == "list" && len(got.Args) == 0) {
		return true
	}
	if a, ok := got.Int(); ok {
		if b, ok := want.Int(); ok {
			return a == b
		}
	}
	// a copy of the settings
	if got.Op == "call" && got.Obj != nil && got.Obj.Name() == "Clone" && len(got.Args) == 1 && got.Args[0] == want {
		return true
	}
	return false
}

// connectionOf is the connection that a controller has to work with.
func (r *Report) connectionOf(in *Interp, t *Trace, o *optChoice) *Term {
	if o != nil && o.name == "WithConnection" {
		return o.val
	}
	var last *Term
	for _, e := range t.Events {
		if c := in.opened(t, e); c != nil {
			last = c
		}
	}
	return last
}

// optUses are the uses of the configuration on a path.
func (r *Report) optUses(a *adapter, in *Interp, t, built *Trace, where string) (out []optUse) {
	add := func(what string, e *Event, v *Term) {
		if v != nil {
			out = append(out, optUse{what, e, v})
		}
	}
	arg := func(e *Event, i int) *Term {
		if i < len(e.Args) {
			return e.Args[i]
		}
		return nil
	}
	field := func(p *Term, name string) *Term {
		if p != nil && (p.IsNil() || p.Op == "zero") {
			// without settings, the library's defaults are used
			return in.T.Nil()
		}
		return in.fieldOfPointer(t, p, name)
	}
	loads := func(e *Event, p *Term, w string) {
		// the settings of a dialer
		add("TLS", e, field(p, "TLS"))
		add("authentication", e, field(p, "SASLMechanism"))
	}
	var js *Term
	if built != nil {
		for _, e := range built.Events {
			if libCall(e, "New") && len(e.Args) > 0 && libType(e.Args[0].Typ) == "Conn" {
				js = in.extract(e.Res, 0)
			}
		}
	}
	jsconn := func(e *Event) {
		// the library's management interface is the one made of the connection
		if js == nil || len(e.Args) == 0 {
			return
		}
		if e.Args[0] != js {
			r.Fail("connection:"+a.name, e.Pos(), "adapter %s: %s is called on something else than what was made of the connection", a.name, e.Obj.Name())
		}
	}
	for _, e := range t.Events {
		if isLogger(e) {
			add("logger", e, arg(e, 0))
			continue
		}
		if !isLib(e) {
			continue
		}
		switch a.name + "." + e.Obj.Name() {
		case "kafka.TCP":
			add("addresses", e, arg(e, 0))
		case "kafka.Dial", "kafka.DialContext", "kafka.DialLeader", "kafka.DialPartition":
			h := e.Args[len(e.Args)-1]
			if h.Op == "elem" {
				h = h.Args[0]
			} else if h.Op == "load" && h.Args[0].Op == "elemaddr" {
				h = h.Args[0].Args[0]
			}
			add("addresses", e, h)
			loads(e, arg(e, 0), where)
		case "kafka.NewReader":
			c := arg(e, 0)
			add("addresses", e, in.fieldByName(c, "Brokers"))
			add("group", e, in.fieldByName(c, "GroupID"))
			add("partition", e, in.fieldByName(c, "Partition"))
			add("size", e, in.fieldByName(c, "MaxBytes"))
			loads(e, in.fieldByName(c, "Dialer"), where)
		case "kafka.WriteMessages":
			if w := e.Val; w != nil {
				tr := in.fieldByName(w, "Transport")
				if tr.Op == "iface" || tr.Op == "makeiface" {
					tr = tr.Args[0]
				}
				add("TLS", e, field(tr, "TLS"))
				add("authentication", e, field(tr, "SASL"))
				if ad := in.fieldByName(w, "Addr"); ad.Op != "call" || ad.Obj == nil || ad.Obj.Name() != "TCP" {
					add("addresses", e, ad)
				}
			} else {
				r.Fail("writer:"+a.name, e.Pos(), "adapter %s: what messages are written with is not known", a.name)
			}
		case "kafka.ReadMessage":
			add("automatic commit", e, in.T.Bool(true))
		case "kafka.FetchMessage":
			add("automatic commit", e, in.T.Bool(false))
		case "nats.Connect", "natsjetstream.Connect":
			add("address", e, arg(e, 0))
			if len(t.Events) > 0 && !r.replaced(in, t, e) {
				add("connection options", e, arg(e, 1))
			}
		case "nats.PublishMsg", "nats.QueueSubscribe", "nats.Flush", "nats.FlushTimeout", "nats.FlushWithContext", "nats.QueueSubscribeSync", "nats.ChanQueueSubscribe":
			add("connection", e, arg(e, 0))
			if strings.Contains(e.Obj.Name(), "Queue") {
				add("group", e, arg(e, 2))
			}
		case "nats.Subscribe", "nats.SubscribeSync", "nats.ChanSubscribe":
			add("connection", e, arg(e, 0))
			add("group", e, in.T.Str(""))
		case "natsjetstream.New":
			add("connection", e, arg(e, 0))
		case "natsjetstream.CreateStream", "natsjetstream.UpdateStream", "natsjetstream.CreateOrUpdateStream":
			add("stream created", e, arg(e, 2))
		case "natsjetstream.CreateConsumer", "natsjetstream.UpdateConsumer", "natsjetstream.CreateOrUpdateConsumer":
			add("stream", e, arg(e, 2))
			add("consumer created", e, arg(e, 3))
		case "natsjetstream.Consumer":
			jsconn(e)
			add("stream", e, arg(e, 2))
			add("consumer", e, arg(e, 3))
		case "natsjetstream.PublishMsg", "natsjetstream.PublishMsgAsync", "natsjetstream.Publish":
			jsconn(e)
		}
	}
	// the delay before a refused message comes back
	for _, ar := range in.arrivals(t) {
		for _, e := range ar.evs {
			if a.name != "natsjetstream" || !isTransmitCall(e) || len(e.Args) < 2 || ar.failed {
				continue
			}
			_, _, ack := in.ackParts(e.Args[1])
			for _, u := range r.runAck(in, t, ack, "NakMessage") {
				for _, x := range u.Events {
					if libCall(x, "NakWithDelay") {
						add("delay", x, x.Args[len(x.Args)-1])
					} else if libCall(x, "Nak") {
						add("delay", x, in.T.Int(0))
					}
					if isLogger(x) {
						add("logger", x, x.Args[0])
					}
				}
			}
		}
	}
	return out
}

// replaced: the connection is closed on the path, another one takes its place.
func (r *Report) replaced(in *Interp, t *Trace, e *Event) bool {
	c := in.opened(t, e)
	if c == nil {
		return true
	}
	for _, x := range t.Events {
		if closes(x, c) {
			return true
		}
	}
	return false
}

// isLogger: an entry is written with a logger.
func isLogger(e *Event) bool {
	if e.Kind != EvCall || e.Obj == nil || len(e.Args) == 0 || e.Obj.Pkg() == nil || e.Obj.Pkg().Path() != extPath {
		return false
	}
	s := e.Obj.Type().(*types.Signature)
	return s.Recv() != nil && isExtType(s.Recv().Type(), "Logger")
}

// fieldOfPointer reads a field through a pointer at the end of a path.
func (in *Interp) fieldOfPointer(t *Trace, p *Term, name string) *Term {
	if p == nil || p.Typ == nil {
		return nil
	}
	pt, ok := p.Typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	st := structOf(pt.Elem())
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return in.Load(t.config(), in.T.FieldAddr(p, pt.Elem(), i), st.Field(i).Type())
		}
	}
	return nil
}
