package main

import (
	"crypto/sha256"
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"regexp"
	"sort"
	"strings"
)

// ---- what a document says about its operations --------------------------------

// docOp is one half of an operation of a document, seen from the application.
type docOp struct {
	names  []string // acceptable names, normalised
	addr   string   // canonical address
	null   bool     // no fixed address
	params []string // normalised
	send   bool     // the application sends it
	reply  bool     // it is the reply half of an operation
	hasRep bool     // it has a reply
	dyn    bool     // the reply address is in the request
	corr   bool     // its message has a correlation identifier
	rep    *docOp   // the reply half
}

func norm(s string) string {
	var b strings.Builder
	for _, c := range strings.ToLower(s) {
		if c >= 'a' && c <= 'z' || c >= '0' && c <= '9' {
			b.WriteRune(c)
		}
	}
	return b.String()
}

var reParam = regexp.MustCompile(`\{([^}]*)\}`)

func canonAddr(a string) string {
	return reParam.ReplaceAllStringFunc(a, func(m string) string { return "{" + norm(m) + "}" })
}

type docTree map[string]any

func (d docTree) get(path ...string) any {
	var v any = map[string]any(d)
	for _, p := range path {
		m, ok := v.(map[string]any)
		if !ok {
			return nil
		}
		v = m[p]
	}
	return v
}

func asMap(v any) map[string]any { m, _ := v.(map[string]any); return m }

// follow resolves references; the names passed through are returned.
func (d docTree) follow(v any) (map[string]any, []string) {
	var names []string
	for i := 0; i < 10; i++ {
		m := asMap(v)
		ref, ok := m["$ref"].(string)
		if !ok {
			return m, names
		}
		parts := strings.Split(strings.TrimPrefix(ref, "#/"), "/")
		for i := range parts {
			parts[i] = strings.ReplaceAll(strings.ReplaceAll(parts[i], "~1", "/"), "~0", "~")
		}
		names = append(names, parts[len(parts)-1])
		v = d.get(parts...)
	}
	return nil, names
}

func shapeDoc(sh Shape) docTree {
	v, _ := parseYAML(sh.YAML)
	return docTree(asMap(v))
}

// docOps lists the operation halves of a document.
func docOps(sh Shape) []*docOp {
	d := shapeDoc(sh)
	var out []*docOp
	if sh.Major == 2 {
		chs := asMap(d.get("channels"))
		for _, path := range sortedKeys(chs) {
			ch, _ := d.follow(chs[path])
			var params []string
			for _, p := range sortedKeys(asMap(ch["parameters"])) {
				params = append(params, norm(p))
			}
			// the channel's methods share one name
			names := []string{norm(path)}
			for _, verb := range []string{"publish", "subscribe"} {
				if id, ok := asMap(ch[verb])["operationId"].(string); ok {
					names = append(names, norm(id))
				}
			}
			for _, verb := range []string{"publish", "subscribe"} {
				op := asMap(ch[verb])
				if op == nil {
					continue
				}
				o := &docOp{names: names, addr: canonAddr(path), params: params, send: verb == "subscribe"}
				o.corr = d.hasCorr(op["message"])
				out = append(out, o)
			}
		}
		return out
	}
	ops := asMap(d.get("operations"))
	for _, name := range sortedKeys(ops) {
		op, al := d.follow(ops[name])
		if op == nil {
			continue
		}
		names := []string{norm(name)}
		for _, a := range al {
			names = append(names, norm(a))
		}
		mk := func(chv any, msgs any, send bool) *docOp {
			ch, _ := d.follow(chv)
			o := &docOp{send: send}
			a, ok := ch["address"].(string)
			o.addr, o.null = canonAddr(a), !ok || a == ""
			for _, p := range sortedKeys(asMap(ch["parameters"])) {
				o.params = append(o.params, norm(p))
			}
			var msg any
			if l, ok := msgs.([]any); ok && len(l) > 0 {
				msg = l[0]
			} else {
				ms := asMap(ch["messages"])
				if ks := sortedKeys(ms); len(ks) > 0 {
					msg = ms[ks[0]]
				}
			}
			o.corr = d.hasCorr(msg)
			return o
		}
		o := mk(op["channel"], op["messages"], op["action"] == "send")
		o.names = names
		out = append(out, o)
		if rep, _ := d.follow(op["reply"]); len(rep) > 0 {
			o.hasRep = true
			p := mk(rep["channel"], rep["messages"], !o.send)
			p.reply = true
			for _, n := range names {
				p.names = append(p.names, "replyto"+n)
			}
			p.dyn = rep["address"] != nil && p.null
			o.rep = p
			out = append(out, p)
		}
	}
	return out
}

// hasCorr: the message defines a correlation identifier (itself or by a trait).
func (d docTree) hasCorr(msg any) bool {
	m, _ := d.follow(msg)
	if m == nil {
		return false
	}
	if m["correlationId"] != nil {
		return true
	}
	ts, _ := m["traits"].([]any)
	for _, t := range ts {
		if tm, _ := d.follow(t); tm["correlationId"] != nil {
			return true
		}
	}
	return false
}

// opOf finds the document's operation a method belongs to.
func opOf(ops []*docOp, o *ctrlOp) *docOp {
	name := norm(o.name)
	if o.x.Shape.Major == 3 {
		name = strings.TrimSuffix(name, "operation")
	}
	// the application sends what the user receives
	appSends := (o.kind == "send" || o.kind == "request") == (o.side == "App")
	if o.kind == "reply" {
		appSends = o.side != "App"
	}
	if o.kind == "request" && o.x.Shape.Major == 2 {
		appSends = true // named after the channel of the reply
	}
	for _, d := range ops {
		if d.send != appSends {
			continue
		}
		for _, n := range d.names {
			if n == name || o.x.Shape.Major == 3 && strings.TrimSuffix(n, "operation") == name {
				return d
			}
		}
	}
	return nil
}

// ---- addresses ------------------------------------------------------------------

// canonTerm writes a string term in the form of canonAddr: selections of
// parameters become {name}. The root the selections come from is returned.
func canonTerm(t *Term) (string, bool) {
	switch t.Op {
	case "const":
		if s, ok := t.StrVal(); ok {
			return s, true
		}
		return t.C.ExactString(), true
	case "field":
		if t.Args[0].Op == "sym" {
			return "{" + norm(t.Obj.Name()) + "}", true
		}
		return "", false
	case "load":
		if a := t.Args[0]; a.Op == "fieldaddr" && a.Args[0].Op == "sym" {
			return "{" + norm(a.Obj.Name()) + "}", true
		}
	case "convert", "iface":
		return canonTerm(t.Args[0])
	case "concat", "add":
		var out string
		for _, a := range t.Args {
			s, ok := canonTerm(a)
			if !ok {
				return "", false
			}
			out += s
		}
		return out, true
	case "call":
		if t.Aux != "fmt.Sprintf" || len(t.Args) != 2 {
			break
		}
		f, ok := t.Args[0].StrVal()
		if !ok || t.Args[1].Op != "list" {
			break
		}
		var out strings.Builder
		n := 0
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				out.WriteByte(f[i])
				continue
			}
			i++
			if i >= len(f) {
				return "", false
			}
			switch f[i] {
			case '%':
				out.WriteByte('%')
			case 's', 'v':
				if n >= len(t.Args[1].Args) {
					return "", false
				}
				s, ok := canonTerm(t.Args[1].Args[n])
				if !ok {
					return "", false
				}
				out.WriteString(s)
				n++
			default:
				return "", false
			}
		}
		return out.String(), n == len(t.Args[1].Args)
	}
	return "", false
}

// ---- operations to analyse --------------------------------------------------------

// ctrlOps calls f on every controller operation of every expansion, skipping
// controllers whose code is the same as one already given.
func (r *Report) ctrlOps(f func(cw *ctrlWorld, o *ctrlOp, d *docOp)) {
	r.ctrlSides(func(cw *ctrlWorld, side string, ops []*docOp) {
		for _, o := range cw.ops {
			if o.side == side {
				r.Count("controller operations analysed", 1)
				f(cw, o, opOf(ops, o))
			}
		}
	})
}

func (r *Report) ctrlSides(f func(cw *ctrlWorld, side string, ops []*docOp)) {
	seen := map[string]bool{}
	for _, x := range r.expansions(nil) {
		cw := r.W.controllers(x)
		ops := docOps(x.Shape)
		for _, side := range []string{"App", "User"} {
			if cw.types[side] == nil {
				continue
			}
			h := fmt.Sprint(x.Shape.Major) + side + controllerText(x, side) + docText(ops)
			h = fmt.Sprintf("%x", sha256.Sum256([]byte(h)))
			if seen[h] {
				r.Count("controllers identical to an analysed one", 1)
				continue
			}
			seen[h] = true
			r.Count("controllers analysed", 1)
			f(cw, side, ops)
		}
	}
	r.Floor("controllers analysed", 70)
}

func docText(ops []*docOp) string {
	s := ""
	for _, o := range ops {
		c := *o
		c.rep = nil
		s += fmt.Sprintf("|%+v", c)
	}
	return s
}

// controllerText is the text of a controller's code: everything but the
// messages', schemas' and the other side's.
func controllerText(x *Expansion, side string) string {
	other := "User"
	if side == "User" {
		other = "App"
	}
	tf := fsetFile(x)
	var parts []string
	for _, d := range x.File.Decls {
		switch y := d.(type) {
		case *ast.FuncDecl:
			if y.Recv != nil {
				rt := types.ExprString(y.Recv.List[0].Type)
				if rt = strings.TrimPrefix(rt, "*"); rt != side+"Controller" && rt != "controller" {
					continue
				}
			} else if o, ok := x.Info.Defs[y.Name].(*types.Func); ok {
				sig := o.Type().(*types.Signature)
				if n := y.Name.Name; strings.Contains(n, other+"Controller") || strings.Contains(n, other+"Context") {
					continue
				}
				if sig.Results().Len() > 0 {
					if n := genNamed(x.Pkg, sig.Results().At(0).Type()); n != nil && n.Obj().Name() != side+"Controller" && n.Obj().Name() != "ControllerOption" {
						continue
					}
				}
				if sig.Params().Len() == 1 && isExtType(sig.Params().At(0).Type(), "BrokerMessage") {
					continue
				}
			}
		case *ast.GenDecl:
			continue
		}
		parts = append(parts, tf(d))
	}
	sort.Strings(parts)
	return strings.Join(parts, "\n")
}

func fsetFile(x *Expansion) func(ast.Node) string {
	f := theWorld.Fset.File(x.File.Pos())
	return func(n ast.Node) string {
		a, b := f.Offset(n.Pos()), f.Offset(n.End())
		if a < 0 || b > len(x.Text) || a > b {
			return ""
		}
		return x.Text[a:b]
	}
}

// ---- observations on traces -----------------------------------------------------

func isSubCall(e *Event, m string) bool {
	return e.Kind == EvCall && e.Name() == "("+extPath+".BrokerChannelSubscription)."+m
}

func isSettle(e *Event) string {
	if e.Kind != EvCall {
		return ""
	}
	for _, m := range []string{"Ack", "Nak"} {
		if e.Name() == "(*"+extPath+".AcknowledgeableBrokerMessage)."+m || e.Name() == "("+extPath+".AcknowledgeableBrokerMessage)."+m {
			return m
		}
	}
	return ""
}

func isBroker(e *Event, m string) bool { return ifaceCall(e, "BrokerController", m) }

func (cr *ctrlRun) isDecode(e *Event) bool {
	if e.Kind == EvCall && e.Obj != nil {
		for _, f := range cr.cw.dec {
			if fnObj(f) == e.Obj {
				return true
			}
		}
	}
	return false
}

func (cr *ctrlRun) isEncode(e *Event) bool {
	if e.Kind == EvCall && e.Obj != nil {
		for _, f := range cr.cw.enc {
			if fnObj(f) == e.Obj {
				return true
			}
		}
	}
	return false
}

func isErrHandler(e *Event) bool {
	return e.Kind == EvCall && e.Callee != nil && e.Callee.Typ != nil && isExtType(e.Callee.Typ, "ErrorHandler")
}

// extract gives the i-th result of a call.
func (in *Interp) extract(r *Term, i int) *Term {
	if r.Op == "tuple" {
		return r.Args[i]
	}
	var typ types.Type
	if tp, ok := r.Typ.(*types.Tuple); ok {
		typ = tp.At(i).Type()
	}
	return in.T.mk("extract", fmt.Sprint(i), typ, r)
}

// continued counts how often a middleware called its continuation.
func continued(evs []*Event, mw *Event) (n int, first *Event) {
	for _, e := range evs {
		if e.Kind == EvEnter {
			for _, a := range e.Args {
				if a != nil && a.Op == "cbarg" && a.Args[0] == mw.Res {
					n++
					if first == nil {
						first = e
					}
					break
				}
			}
		}
	}
	return
}

// chain is what the middlewares and the final operation did on a stretch of events.
type chain struct {
	steps   []*Event // middlewares then the final operation, in order of execution
	kinds   []int    // index of the middleware; len(mws) for the final operation
	res     *Term    // result of the chain (nil term: known nil)
	free    bool     // a middleware took the outcome on itself
	bad     string
	rank    map[*Event]int
	reached bool // the final operation was reached
}

// chainOf checks the execution of the chain on events evs, whose final
// operation starts at an event satisfying final and yields finRes.
func (cr *ctrlRun) chainOf(t *Trace, evs []*Event, final func(*Event) bool, finRes func() *Term) *chain {
	ch := &chain{rank: map[*Event]int{}}
	n := len(cr.mws)
	for i, e := range evs {
		ch.rank[e] = i
		if k := cr.mw(e); k >= 0 {
			ch.steps, ch.kinds = append(ch.steps, e), append(ch.kinds, k)
		} else if final != nil && final(e) {
			ch.steps, ch.kinds = append(ch.steps, e), append(ch.kinds, n)
			ch.reached = true
		}
	}
	name := func(k int) string {
		if k == n {
			return "the final operation"
		}
		return fmt.Sprintf("middleware %d", k)
	}
	for i, k := range ch.kinds {
		if k != i {
			if i > 0 && ch.kinds[i-1] == k || i > k {
				ch.bad = name(k) + " runs more than once"
			} else {
				ch.bad = fmt.Sprintf("%s runs where %s is due", name(k), name(i))
			}
			return ch
		}
	}
	var res func(i int) *Term
	res = func(i int) *Term {
		if ch.bad != "" {
			return cr.in.T.Nil()
		}
		if i == n && final == nil {
			return cr.in.T.Nil()
		}
		if i >= len(ch.steps) {
			ch.bad = name(i) + " never runs although nothing before it failed"
			return cr.in.T.Nil()
		}
		if i == n {
			return finRes()
		}
		e := ch.steps[i]
		nc, first := continued(evs, e)
		isNil, known := t.IsNilTerm(e.Res)
		if nc > 0 && i+1 < len(ch.steps) && ch.rank[ch.steps[i+1]] < ch.rank[first] {
			ch.bad = name(i+1) + " does not run inside the continuation"
		}
		var inner *Term
		if nc > 0 {
			inner = res(i + 1)
			// the continuation reports the outcome of what it ran
			for _, l := range evs {
				if l.Kind == EvLeave && l.CallID == first.CallID && !cr.sameErr(t, l.Res, inner) && !ch.free {
					ch.bad = fmt.Sprintf("the continuation given to %s does not return the outcome of what follows", name(i))
				}
			}
		}
		switch {
		case known && !isNil:
			if nc == 0 && len(ch.steps) > i+1 {
				ch.bad = fmt.Sprintf("%s runs after %s failed without continuing", name(i+1), name(i))
			}
			return e.Res
		case nc > 0:
			if !known {
				// its result is the chain's, whatever it is
				return e.Res
			}
			ch.free = true
			return cr.in.T.Nil()
		case !known && i+1 == n && final == nil:
			return e.Res
		case !known && len(ch.steps) == i+1:
			ch.bad = fmt.Sprintf("%s does not run when %s returns nil without continuing", name(i+1), name(i))
			return e.Res
		case !known:
			ch.bad = fmt.Sprintf("%s runs whether or not %s failed", name(i+1), name(i))
			return e.Res
		}
		return res(i + 1)
	}
	ch.res = res(0)
	return ch
}

// sameErr: got is want, or wraps it; both nil counts as the same.
func (cr *ctrlRun) sameErr(t *Trace, got, want *Term) bool {
	if got == nil || want == nil {
		return false
	}
	if got == want {
		return true
	}
	gn, gk := t.IsNilTerm(got)
	wn, wk := t.IsNilTerm(want)
	if gk && wk && gn && wn {
		return true
	}
	return !(gk && gn) && wraps(got, want)
}

func wraps(got, want *Term) bool {
	if got == want {
		return true
	}
	if got.Op != "call" || got.Obj == nil {
		return false
	}
	switch fullName(got.Obj) {
	case "fmt.Errorf":
		f, ok := got.Args[0].StrVal()
		if !ok || !strings.Contains(f, "%w") || len(got.Args) < 2 {
			return false
		}
		for _, a := range got.Args[1].Args {
			if wraps(a, want) {
				return true
			}
		}
	case "errors.Join":
		for _, a := range got.Args {
			if a.Op == "list" {
				for _, b := range a.Args {
					if wraps(b, want) {
						return true
					}
				}
			}
		}
	}
	return false
}

// known: the error term is known nil (true,true), known non-nil (false,true).
func (t *Trace) errNil(x *Term) (isNil, known bool) {
	if x == nil {
		return false, false
	}
	return t.IsNilTerm(x)
}

// segments cuts a listener's trace at its receptions of messages.
type segment struct {
	recv   *Event
	evs    []*Event
	closed bool // ends with the goroutine's exit, or the next reception
	last   bool // nothing follows: the goroutine's exit, or the bound
	n      int
}

func isMsgRecv(e *Event) bool {
	return e.Kind == EvRecv && e.Val != nil && e.Val.Typ != nil && isExtType(e.Val.Typ, "AcknowledgeableBrokerMessage")
}

func segmentsOf(t *Trace) (pre []*Event, segs []*segment) {
	for _, e := range t.Events {
		if isMsgRecv(e) {
			if k := len(segs); k > 0 {
				segs[k-1].closed = true
			}
			segs = append(segs, &segment{recv: e, n: len(segs)})
			continue
		}
		if len(segs) == 0 {
			pre = append(pre, e)
		} else {
			s := segs[len(segs)-1]
			s.evs = append(s.evs, e)
		}
	}
	if k := len(segs); k > 0 {
		segs[k-1].last = true
		segs[k-1].closed = t.Exit == "return" || t.Exit == "panic"
	}
	return
}

// ended: this path knows that the stream is closed and there is no message.
func (cr *ctrlRun) ended(t *Trace, s *segment) bool {
	ok, k := t.Fact(s.recv.Res)
	return k && !ok
}

func constStr(r *Report, pkg, name string) string {
	c, ok := r.W.SSA[pkg].Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return ""
	}
	return constant.StringVal(c.Val())
}
