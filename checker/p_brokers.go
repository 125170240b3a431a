package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C05", "every path of each adapter's publication and reception code (handlers, goroutines and consumers found through the call graph) is interpreted over header sets of up to three entries; the message given to the broker library, and the one given to the subscriber, are compared term by term with their source: channel, payload, every header name and value, completeness of the iteration, one transmission per message", ruleAdapterContent)
}

// adapter is a type of a broker package that implements BrokerController.
type adapter struct {
	pkg      string
	name     string
	typ      *types.Named
	pub, sub *ssa.Function
	methods  []*ssa.Function
	ctors    []*ssa.Function
	opts     []*ssa.Function // functions returning a configuration function
}

// adapters lists the broker adapters of the repository.
func (r *Report) adapters() []*adapter {
	w := r.W
	bc := w.SSA[extPath].Pkg.Scope().Lookup("BrokerController").Type().Underlying().(*types.Interface)
	var out []*adapter
	for path, p := range w.SSA {
		if !strings.HasPrefix(path, extPath+"/brokers/") || p == nil {
			continue
		}
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(nt) {
				continue
			}
			pt := types.NewPointer(nt)
			if !types.Implements(pt, bc) {
				continue
			}
			a := &adapter{pkg: path, name: p.Pkg.Name(), typ: nt}
			ms := w.Prog.MethodSets.MethodSet(pt)
			for i := 0; i < ms.Len(); i++ {
				f := w.Prog.MethodValue(ms.At(i))
				if f == nil || f.Synthetic != "" {
					continue
				}
				a.methods = append(a.methods, f)
				switch f.Name() {
				case "Publish":
					a.pub = f
				case "Subscribe":
					a.sub = f
				}
			}
			for _, m := range p.Members {
				f, ok := m.(*ssa.Function)
				if !ok || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() {
					continue
				}
				res := f.Signature.Results()
				if res.Len() == 0 {
					continue
				}
				if types.Identical(res.At(0).Type(), pt) {
					a.ctors = append(a.ctors, f)
				} else if s, ok := res.At(0).Type().Underlying().(*types.Signature); ok && s.Params().Len() == 1 && types.Identical(s.Params().At(0).Type(), pt) {
					a.opts = append(a.opts, f)
				}
			}
			sort.Slice(a.opts, func(i, j int) bool { return a.opts[i].Name() < a.opts[j].Name() })
			out = append(out, a)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].pkg < out[j].pkg })
	for _, a := range out {
		if a.pub == nil || a.sub == nil || len(a.ctors) == 0 {
			r.FailAt("adapter:"+a.name, "-", "adapter %s lacks a publication, a subscription or a constructor of its own", a.pkg)
		}
		r.Count("adapters", 1)
	}
	r.Floor("adapters", 3)
	return out
}

var libPaths = []string{"github.com/segmentio/kafka-go", "github.com/nats-io/nats.go"}

// isLib: a call into a broker library.
func isLib(e *Event) bool {
	if e.Kind != EvCall || e.Obj == nil || e.Obj.Pkg() == nil {
		return false
	}
	for _, p := range libPaths {
		if pp := e.Obj.Pkg().Path(); pp == p || strings.HasPrefix(pp, p+"/") {
			return true
		}
	}
	return false
}

// libCall: a call of a library function or method with one of the given names.
func libCall(e *Event, names ...string) bool {
	if !isLib(e) {
		return false
	}
	for _, n := range names {
		if e.Obj.Name() == n {
			return true
		}
	}
	return false
}

// brokerInterp interprets adapters: the runtime's subscription is opaque, the
// broker library unknown, and the functions given to either are called once.
func (r *Report) brokerInterp(invoke int) *Interp {
	in := r.Interp()
	for _, n := range []string{"TransmitReceivedMessage", "Cancel", "MessagesChannel", "WaitForCancellationAsync"} {
		in.Opaque["("+extPath+".BrokerChannelSubscription)."+n] = true
	}
	in.Invoke = func(ev *Event, fns []*Term) []int { return []int{invoke} }
	// publishing changes neither the message nor the settings of the writer
	in.NoHavoc = func(ev *Event) bool { return publishCall(ev) || libCall(ev, "CommitMessages") }
	// a message being published shows its content at that time
	in.OnCall = func(c *Config, ev *Event) {
		if !isLib(ev) || len(ev.Args) == 0 {
			return
		}
		if libCall(ev, "WriteMessages", "PublishMsg", "PublishMsgAsync", "RequestMsg", "CommitMessages") {
			for _, a := range ev.Args {
				if a.Typ == nil {
					continue
				}
				if p, ok := a.Typ.Underlying().(*types.Pointer); ok {
					if structOf(p.Elem()) != nil {
						ev.Addr = a
						ev.Val = in.Load(c, a, p.Elem())
					}
				}
			}
		}
	}
	return in
}

// strip removes conversions between strings and bytes, and copies.
func strip(t *Term) *Term {
	for t != nil {
		switch {
		case t.Op == "convert" && isText(t.Typ) && len(t.Args) == 1 && isText(t.Args[0].Typ):
			t = t.Args[0]
		case t.Op == "call" && t.Obj != nil && (fullName(t.Obj) == "bytes.Clone" || fullName(t.Obj) == "slices.Clone" || fullName(t.Obj) == "strings.Clone"):
			t = t.Args[len(t.Args)-1]
		case t.Op == "append" && (t.Args[0].IsNil() || t.Args[0].Op == "list" && len(t.Args[0].Args) == 0):
			t = t.Args[1]
		default:
			return t
		}
	}
	return t
}

func isText(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	return false
}

// fieldOf matches a read of the named field and gives what it is read from.
func readOf(t *Term, name string) (*Term, bool) {
	if t == nil || t.Obj == nil && t.Op != "load" {
		return nil, false
	}
	switch t.Op {
	case "field":
		if t.Obj.Name() == name {
			return t.Args[0], true
		}
	case "load":
		if a := t.Args[0]; a.Op == "fieldaddr" && a.Obj != nil && a.Obj.Name() == name {
			return a.Args[0], true
		}
	case "call":
		if t.Obj.Name() == name && len(t.Args) == 1 {
			return t.Args[0], true
		}
	}
	return nil, false
}

type pair struct{ k, v *Term }

// iterations over a collection, as known on a path.
type iteration struct {
	src      *Term
	pairs    []pair
	complete bool
}

// iterationsOf lists the ways this path went through the map or slice src.
func (t *Trace) iterationsOf(src func(*Term) bool, elem func(m *Term, i int, e *Term) (pair, bool)) []iteration {
	byRange := map[*Term]*iteration{}
	var order []*Term
	get := func(r, s *Term) *iteration {
		if byRange[r] == nil {
			byRange[r] = &iteration{src: s}
			order = append(order, r)
		}
		return byRange[r]
	}
	slices := map[*Term]map[int64]bool{}
	lenZero := map[*Term]bool{}
	for _, e := range t.Events {
		if e.Kind != EvBranch {
			continue
		}
		c, v := e.Cond, e.Taken
		for c.Op == "not" {
			c, v = c.Args[0], !v
		}
		switch {
		case c.Op == "nextok":
			rg := c.Args[0].Args[0]
			if rg.Op != "range" || !src(rg.Args[0]) {
				continue
			}
			it := get(rg, rg.Args[0])
			if !v {
				it.complete = true
				continue
			}
			tup := c.Args[0].Typ.(*types.Tuple)
			in := t.in
			it.pairs = append(it.pairs, pair{in.T.mk("nextkey", "", tup.At(1).Type(), c.Args[0]), in.T.mk("nextval", "", tup.At(2).Type(), c.Args[0])})
		case c.Op == "lt" && c.Args[1].Op == "len" && src(c.Args[1].Args[0]):
			s := c.Args[1].Args[0]
			if n, ok := c.Args[0].Int(); ok {
				if slices[s] == nil {
					slices[s] = map[int64]bool{}
				}
				slices[s][n] = v
			}
		case c.Op == "eq" && (c.Args[0].Op == "len" || c.Args[1].Op == "len"):
			l, z := c.Args[0], c.Args[1]
			if z.Op == "len" {
				l, z = z, l
			}
			if n, ok := z.Int(); ok && n == 0 && src(l.Args[0]) {
				s := l.Args[0]
				if v {
					lenZero[s] = true
				} else {
					if slices[s] == nil {
						slices[s] = map[int64]bool{}
					}
					slices[s][0] = true
				}
			}
		case c.Op == "eq" && v && (c.Args[0].IsNil() || c.Args[1].IsNil()):
			s := c.Args[0]
			if s.IsNil() {
				s = c.Args[1]
			}
			if src(s) {
				lenZero[s] = true
			}
		}
	}
	var out []iteration
	for _, r := range order {
		out = append(out, *byRange[r])
	}
	for s, ns := range slices {
		if s.Typ != nil {
			if _, isMap := s.Typ.Underlying().(*types.Map); isMap {
				if v, ok := ns[0]; ok && !v {
					lenZero[s] = true
				}
				continue
			}
		}
		it := iteration{src: s}
		for n := int64(0); ; n++ {
			v, ok := ns[n]
			if !ok {
				break
			}
			if !v {
				it.complete = true
				break
			}
			if elem != nil {
				if p, ok := elem(s, int(n), t.in.T.mk("elem", "", nil, s, t.in.T.Int(n))); ok {
					it.pairs = append(it.pairs, p)
				}
			} else {
				it.pairs = append(it.pairs, pair{t.in.T.Int(n), nil})
			}
		}
		out = append(out, it)
	}
	for s := range lenZero {
		out = append(out, iteration{src: s, complete: true})
	}
	return out
}

// emptyText: this path knows the text has no content.
func (t *Trace) knownLen(x *Term, positive bool) bool {
	for f, v := range t.Facts {
		switch {
		case f.Op == "lt" && f.Args[1].Op == "len" && f.Args[1].Args[0] == x:
			if n, ok := f.Args[0].Int(); ok && n == 0 && v == positive {
				return true
			}
		case f.Op == "eq":
			for i := 0; i < 2; i++ {
				l, z := f.Args[i], f.Args[1-i]
				if l.Op != "len" || l.Args[0] != x {
					continue
				}
				if n, ok := z.Int(); ok && n == 0 && v != positive {
					return true
				}
			}
		}
	}
	return false
}

// mapWrites lists what a path put in a map, up to the given event.
func (t *Trace) mapWrites(m *Term, upto *Event) (w []pair, deleted bool) {
	for _, e := range t.Events {
		if e == upto {
			break
		}
		switch {
		case e.Kind == EvMapUpd && e.Addr == m:
			w = append(w, pair{e.Args[0], e.Val})
		case e.Kind == EvMapDel && e.Addr == m:
			deleted = true
		case e.Kind == EvCall && e.Obj != nil && (e.Obj.Name() == "Set" || e.Obj.Name() == "Add") && len(e.Args) == 3 && e.Args[0] == m:
			w = append(w, pair{e.Args[1], e.Args[2]})
		case e.Kind == EvCall && e.Obj != nil && e.Obj.Name() == "Del" && len(e.Args) == 2 && e.Args[0] == m:
			deleted = true
		}
	}
	return
}

// single gives the only element of a list of one.
func single(t *Term) *Term {
	if t != nil && t.Op == "list" && len(t.Args) == 1 {
		return t.Args[0]
	}
	return t
}

// firstValueOf: got is the library's own read of the first value of the entry.
func firstValueOf(got, k, want *Term) bool {
	return got != nil && got.Op == "call" && got.Obj != nil && got.Obj.Name() == "Get" && len(got.Args) == 2 && got.Args[1] == k &&
		k.Op == "nextkey" && k.Args[0].Args[0].Args[0] == got.Args[0] && strings.HasPrefix(fullName(got.Obj), "(github.com/nats-io/nats.go.") &&
		want.Op == "elem"
}

// matchPairs compares written pairs with the iterations of a source.
func matchPairs(got []pair, its []iteration, val func(p pair) (want *Term, optional bool)) string {
	if len(its) == 0 {
		return "the headers of the source are not gone through"
	}
	msg := ""
	for _, it := range its {
		m := func() string {
			if !it.complete {
				return fmt.Sprintf("the headers of the source may not all be gone through (%s, %d)", it.src, len(it.pairs))
			}
			used := map[int]bool{}
			for _, p := range it.pairs {
				want, optional := val(p)
				found := false
				for i, g := range got {
					if !used[i] && strip(g.k) == strip(p.k) && want != nil && (strip(single(g.v)) == strip(want) || firstValueOf(strip(g.v), p.k, want)) {
						used[i], found = true, true
						break
					}
				}
				if !found && !optional {
					return "a header of the source is missing, or its name or value is changed"
				}
			}
			for i, g := range got {
				if !used[i] {
					return fmt.Sprintf("a header is not one of the source (%s)", g.k)
				}
			}
			return ""
		}()
		if m == "" {
			return ""
		}
		msg = m
	}
	return msg
}

// ---- C05 ------------------------------------------------------------------

func ruleAdapterContent(r *Report) {
	for _, a := range r.adapters() {
		if a.pub == nil || a.sub == nil {
			continue
		}
		r.adapterPublish(a)
		r.adapterReceive(a)
	}
	r.Floor("publications by adapters", 6)
	r.Floor("headers published", 6)
	r.Floor("messages transmitted by adapters", 12)
	r.Floor("headers received", 8)
	r.Floor("subscriptions by adapters", 6)
}

func publishCall(e *Event) bool {
	return libCall(e, "WriteMessages", "PublishMsg", "PublishMsgAsync", "Publish", "PublishAsync", "RequestMsg")
}

func (r *Report) adapterPublish(a *adapter) {
	in := r.brokerInterp(1)
	args := in.ParamTerms(a.pub)
	var ch, bm *Term
	for i, p := range a.pub.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			ch = args[i]
		} else if isExtType(p.Type(), "BrokerMessage") {
			bm = args[i]
		}
	}
	bad := func(e *Event, format string, x ...any) {
		m := fmt.Sprintf(format, x...)
		r.Fail(a.name+":publish:"+m, e.Pos(), "adapter %s, publication: %s", a.name, m)
	}
	for _, t := range in.Run(a.pub, args, nil, nil) {
		if t.Exit == "truncated" {
			continue
		}
		for _, e := range t.Events {
			if !publishCall(e) {
				continue
			}
			r.Count("publications by adapters", 1)
			for _, m := range r.outgoing(in, t, e) {
				if m.bad != "" {
					bad(e, "%s", m.bad)
					continue
				}
				if strip(m.topic) != ch {
					bad(e, "the message is not published on the requested channel (%s)", m.topic)
				}
				if p, ok := readOf(strip(m.payload), "Payload"); !ok || p != bm {
					bad(e, "the payload is not the message's (%s)", m.payload)
				}
				its := t.iterationsOf(func(s *Term) bool { x, ok := readOf(s, "Headers"); return ok && x == bm }, nil)
				if m := matchPairs(m.headers, its, func(p pair) (*Term, bool) { return p.v, false }); m != "" {
					bad(e, "%s", m)
				}
				r.Count("headers published", len(m.headers))
			}
		}
	}
}

type outMsg struct {
	topic, payload *Term
	headers        []pair
	bad            string
}

// outgoing describes the messages given to the broker library by a call.
func (r *Report) outgoing(in *Interp, t *Trace, e *Event) []outMsg {
	switch {
	case e.Obj.Name() == "WriteMessages":
		var out []outMsg
		list := e.Args[len(e.Args)-1]
		if list.Op != "list" {
			return []outMsg{{bad: fmt.Sprintf("the messages written are not known (%s)", list)}}
		}
		var wt *Term
		if e.Val != nil {
			wt = in.fieldByName(e.Val, "Topic")
		}
		for _, m := range list.Args {
			o := outMsg{topic: in.fieldByName(m, "Topic"), payload: in.fieldByName(m, "Value")}
			if s, ok := o.topic.StrVal(); ok && s == "" || o.topic.Op == "zero" {
				o.topic = wt
			} else if s, ok := wt.StrVal(); !ok && wt.Op != "zero" || ok && s != "" {
				o.bad = "both the message and the writer have a topic"
			}
			hs := in.fieldByName(m, "Headers")
			el, ok := in.elements(t, hs, e)
			if !ok {
				o.bad = fmt.Sprintf("the headers written are not known (%s)", hs)
			}
			for _, h := range el {
				o.headers = append(o.headers, pair{in.fieldByName(h, "Key"), in.fieldByName(h, "Value")})
			}
			out = append(out, o)
		}
		if len(out) != 1 {
			return []outMsg{{bad: fmt.Sprintf("%d messages are written for one", len(out))}}
		}
		return out
	case e.Val != nil && structOf(e.Val.Typ) != nil:
		o := outMsg{topic: in.fieldByName(e.Val, "Subject"), payload: in.fieldByName(e.Val, "Data")}
		h := in.fieldByName(e.Val, "Header")
		if c := e.Addr; c != nil && c.Op == "call" && c.Obj != nil && c.Obj.Name() == "NewMsg" {
			// what NewMsg set, if it was not replaced
			if b, ok := readOf(o.topic, "Subject"); ok && b == c {
				o.topic = c.Args[len(c.Args)-1]
			}
		}
		var del bool
		o.headers, del = t.mapWrites(h, e)
		if h.Op == "load" {
			// also written through the address it is read from
			for _, x := range t.Events {
				if x == e {
					break
				}
				if x.Kind == EvStore && x.Addr == h.Args[0] {
					del = true
				}
			}
		}
		if del {
			o.bad = "headers are removed from the message"
		}
		return []outMsg{o}
	}
	return []outMsg{{bad: "the message given to the library is not known"}}
}

// fieldByName reads a field of a struct value.
func (in *Interp) fieldByName(x *Term, name string) *Term {
	if x == nil {
		return in.T.Nil()
	}
	st := structOf(x.Typ)
	if st == nil {
		return in.T.Sym("no field "+name, nil)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return in.T.Field(x, x.Typ, i)
		}
	}
	return in.T.Sym("no field "+name, nil)
}

// elements lists the elements of a slice built on this path.
func (in *Interp) elements(t *Trace, s *Term, upto *Event) ([]*Term, bool) {
	switch s.Op {
	case "list":
		return s.Args, true
	case "nil", "zero":
		return nil, true
	case "makeslice":
		// filled by index
		n := 0
		got := map[int]*Term{}
		parts := map[int]map[string]*Term{}
		var et types.Type
		if sl, ok := s.Typ.Underlying().(*types.Slice); ok {
			et = sl.Elem()
		}
		for _, e := range t.Events {
			if e == upto {
				break
			}
			if e.Kind != EvStore {
				continue
			}
			ad := e.Addr
			f := ""
			if ad.Op == "fieldaddr" && ad.Obj != nil {
				f, ad = ad.Obj.Name(), ad.Args[0]
			}
			if ad.Op != "elemaddr" || ad.Args[0] != s {
				continue
			}
			i, ok := ad.Args[1].Int()
			if !ok {
				return nil, false
			}
			if int(i) >= n {
				n = int(i) + 1
			}
			if f == "" {
				got[int(i)] = e.Val
			} else {
				if parts[int(i)] == nil {
					parts[int(i)] = map[string]*Term{}
				}
				parts[int(i)][f] = e.Val
			}
		}
		var out []*Term
		for i := 0; i < n; i++ {
			if got[i] != nil {
				out = append(out, got[i])
				continue
			}
			st := structOf(et)
			if st == nil {
				return nil, false
			}
			var as []*Term
			for k := 0; k < st.NumFields(); k++ {
				v := parts[i][st.Field(k).Name()]
				if v == nil {
					v = in.T.Zero(st.Field(k).Type())
				}
				as = append(as, v)
			}
			out = append(out, in.T.mk("struct", types.TypeString(et, nil), et, as...))
		}
		return out, true
	}
	return nil, false
}

// ---- reception ------------------------------------------------------------

// isLibMsg: the type of a message of a broker library.
func isLibMsg(t types.Type) bool {
	if t == nil {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	} else if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	for _, p := range libPaths {
		if pp := n.Obj().Pkg().Path(); (pp == p || strings.HasPrefix(pp, p+"/")) && (n.Obj().Name() == "Msg" || n.Obj().Name() == "Message") {
			return true
		}
	}
	return false
}

// arrival is a message of the broker library reaching the adapter.
type arrival struct {
	e      *Event
	msg    *Term
	how    string // read, fetch, callback, queue
	failed bool
	evs    []*Event // until the next arrival, or its callback's end
	closed bool     // the next arrival or the end of the callback was reached
}

// arrivals finds the messages a path gets from the broker library.
func (in *Interp) arrivals(t *Trace) []*arrival {
	var out []*arrival
	var open []*arrival
	shut := func() {
		for _, o := range open {
			o.closed = true
		}
		open = nil
	}
	ends := map[int]*arrival{}
	for _, m := range t.handed {
		if isLibMsg(m.Typ) {
			a := &arrival{msg: m, how: "callback"}
			if len(t.Events) > 0 {
				a.e = t.Events[0]
			}
			out = append(out, a)
			open = []*arrival{a}
		}
	}
	for _, e := range t.Events {
		var a *arrival
		switch {
		case libCall(e, "ReadMessage", "FetchMessage"):
			a = &arrival{e: e, msg: in.extract(e.Res, 0), how: "read"}
			if e.Obj.Name() == "FetchMessage" {
				a.how = "fetch"
			}
			if isNil, k := t.errNil(in.extract(e.Res, 1)); k && !isNil {
				a.failed = true
			}
		case e.Kind == EvRecv && e.Val != nil && isLibMsg(e.Val.Typ):
			a = &arrival{e: e, msg: e.Val, how: "queue"}
		case e.Kind == EvEnter:
			for _, x := range e.Args {
				if x != nil && x.Op == "cbarg" && isLibMsg(x.Typ) {
					a = &arrival{e: e, msg: x, how: "callback"}
					ends[e.CallID] = a
				}
			}
		case e.Kind == EvLeave && ends[e.CallID] != nil:
			shut()
			continue
		}
		if a != nil {
			shut()
			out = append(out, a)
			open = []*arrival{a}
			continue
		}
		for _, o := range open {
			o.evs = append(o.evs, e)
		}
	}
	if t.Exit == "return" {
		shut()
	}
	return out
}

// ackParts cuts an acknowledgeable message into headers, payload and handler.
func (in *Interp) ackParts(m *Term) (headers, payload, ack *Term) {
	bm := in.fieldByName(m, "BrokerMessage")
	headers, payload = in.fieldByName(bm, "Headers"), in.fieldByName(bm, "Payload")
	st := structOf(m.Typ)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if isExtType(st.Field(i).Type(), "BrokerAcknowledgment") {
			ack = in.T.Field(m, m.Typ, i)
		}
	}
	return
}

// adapterThreads interprets an adapter's subscription, with what it starts.
func (r *Report) adapterThreads(a *adapter, in *Interp) ([]thread, []*Term) {
	args := in.ParamTerms(a.sub)
	return in.threads(a.sub, args, nil), args
}

func (r *Report) adapterReceive(a *adapter) {
	in := r.brokerInterp(1)
	bad := func(e *Event, format string, x ...any) {
		m := fmt.Sprintf(format, x...)
		r.Fail(a.name+":receive:"+m, e.Pos(), "adapter %s, reception: %s", a.name, m)
	}
	ths, args := r.adapterThreads(a, in)
	var ch *Term
	for i, p := range a.sub.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			ch = args[i]
		}
	}
	for _, th := range ths {
		for _, t := range th.traces {
			for _, e := range t.Events {
				// what the subscription is about
				var on *Term
				switch {
				case libCall(e, "NewReader") && len(e.Args) == 1:
					on = in.fieldByName(e.Args[0], "Topic")
				case libCall(e, "QueueSubscribe", "Subscribe", "ChanSubscribe", "ChanQueueSubscribe", "QueueSubscribeSync") && len(e.Args) > 1:
					on = e.Args[1]
				case (e.Kind == EvMapUpd || e.Kind == EvLookup || e.Kind == EvMapDel) && baseOfField(e.Addr) == args[0] && len(e.Args) == 1 && isText(e.Args[0].Typ) && e.Args[0].Op != "nextkey":
					on = e.Args[0]
				}
				if on != nil {
					r.Count("subscriptions by adapters", 1)
					if strip(on) != ch {
						bad(e, "the subscription is not about the requested channel (%s)", on)
					}
				}
			}
			for _, ar := range in.arrivals(t) {
				n := 0
				for _, e := range ar.evs {
					if !isTransmit(e) {
						continue
					}
					n++
					if ar.failed {
						bad(e, "something is transmitted although no message was read")
						continue
					}
					r.Count("messages transmitted by adapters", 1)
					if len(e.Args) < 2 {
						continue
					}
					hs, pl, _ := in.ackParts(e.Args[1])
					ps := strip(pl)
					src, ok := readOf(ps, "Value")
					if !ok {
						src, ok = readOf(ps, "Data")
					}
					if !ok || src != ar.msg {
						bad(e, "the payload is not the message's (%s)", pl)
					}
					isHdr := func(s *Term) bool {
						for _, n := range []string{"Headers", "Header"} {
							if x, ok := readOf(s, n); ok && x == ar.msg {
								return true
							}
						}
						return false
					}
					its := t.iterationsOf(isHdr, func(s *Term, i int, el *Term) (pair, bool) {
						return pair{nil, el}, true
					})
					// a header of a slice is a struct with a name and a value
					for i := range its {
						for j, p := range its[i].pairs {
							if p.k == nil {
								sl, _ := its[i].src.Typ.Underlying().(*types.Slice)
								if sl == nil {
									continue
								}
								el := in.T.mk("elem", "", sl.Elem(), its[i].src, in.T.Int(int64(j)))
								its[i].pairs[j] = pair{in.fieldByName(el, "Key"), in.fieldByName(el, "Value")}
							}
						}
					}
					got, del := t.mapWrites(hs, e)
					for i, g := range got {
						got[i] = pair{g.k, g.v}
					}
					if del {
						bad(e, "headers are removed from the message")
					}
					if hs.Op != "makemap" {
						bad(e, "the headers are not built for this message (%s)", hs)
					}
					m := matchPairs(got, its, func(p pair) (*Term, bool) {
						vt := p.v.Typ
						if p.v.Op == "nextval" {
							if mt, ok := p.v.Args[0].Args[0].Args[0].Typ.Underlying().(*types.Map); ok {
								vt = mt.Elem()
							}
						}
						if isText(vt) {
							return p.v, false
						}
						// several values: the first one, if any
						sl, ok := vt.Underlying().(*types.Slice)
						if !ok {
							return nil, false
						}
						first := in.T.mk("elem", "", sl.Elem(), p.v, in.T.Int(0))
						return first, t.knownLen(p.v, false)
					})
					if m != "" {
						bad(e, "%s", m)
					}
					r.Count("headers received", len(got))
				}
				switch {
				case n > 1:
					bad(ar.e, "a message is transmitted %d times", n)
				case n == 0 && ar.closed && !ar.failed && !r.elsewhere(in, t, ar) && !closedQueue(t, ar):
					bad(ar.e, "a message received is not transmitted")
				}
			}
		}
	}
}

// closedQueue: the receive found its channel closed.
func closedQueue(t *Trace, ar *arrival) bool {
	if ar.how != "queue" || ar.e.Res == nil {
		return false
	}
	ok, k := t.Fact(ar.e.Res)
	return k && !ok
}

// elsewhere: the message was put in a subscription's queue, or dropped because
// no subscription covers it (which C07 judges).
func (r *Report) elsewhere(in *Interp, t *Trace, ar *arrival) bool {
	for _, e := range ar.evs {
		if e.Kind == EvSend && e.Val == ar.msg {
			return true
		}
		if libCall(e, "Ack", "DoubleAck") && e.Args[0] == ar.msg {
			return true
		}
		// the subscription the message was for has just ended
		if e.Kind == EvRecv && e.Select > 0 {
			return true
		}
	}
	return false
}
