package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", "constant propagation of the generator over documents with a correlation identifier at every kind of location (header or payload, nested, declared or not, required or not at each level, referred, by a trait), followed by path-sensitive interpretation of the folded methods: a setter's value is at the document's location and read back by the getter, a new message has a fresh one, a response that of its request; every path of the generated sends, requests and replies sets an identifier exactly when there is none, or refuses", ruleCorr)
}

// corrCase is a document with one message that has a correlation identifier.
type corrCase struct {
	major  int
	where  string // header or payload
	levels []string
	body   string // inline, ref, absent
	via    string // message, trait, reftrait, refid
	msgref bool
	force  bool
}

func (c corrCase) String() string {
	s := fmt.Sprintf("v%d %s %s body, location [%s], defined by the %s", c.major, c.body, c.where, strings.Join(c.levels, "/"), c.via)
	if c.msgref {
		s += ", referred message"
	}
	if c.force {
		s += ", forced pointers"
	}
	return s
}

func (c corrCase) path() (out []string) {
	for i := range c.levels {
		if i == len(c.levels)-1 {
			out = append(out, "cid")
		} else {
			out = append(out, fmt.Sprintf("meta%d", i))
		}
	}
	return
}

func (c corrCase) shape(i int) Shape {
	comps := doc{"schemas": doc{}, "messages": doc{}, "messageTraits": doc{}, "correlationIds": doc{}}
	schemas := comps["schemas"].(doc)
	path := c.path()
	var build func(i int) doc
	build = func(i int) doc {
		o := doc{"type": "object", "properties": doc{"other": doc{"type": "string"}}}
		l := c.levels[i]
		if l == "undeclared" {
			return o
		}
		child := doc{"type": "string"}
		if i < len(path)-1 {
			child = build(i + 1)
		}
		if strings.HasPrefix(l, "ref") {
			schemas["sub"+path[i]] = child
			child = doc{"$ref": "#/components/schemas/sub" + path[i]}
		}
		o["properties"].(doc)[path[i]] = child
		if strings.HasSuffix(l, "req") {
			o["required"] = []any{path[i]}
		}
		return o
	}
	msg := doc{"name": "evt", "payload": doc{"type": "object", "properties": doc{"z": doc{"type": "string"}}}}
	key := map[string]string{"header": "headers", "payload": "payload"}[c.where]
	switch c.body {
	case "absent":
		delete(msg, key)
	case "ref":
		schemas["body"] = build(0)
		msg[key] = doc{"$ref": "#/components/schemas/body"}
	default:
		msg[key] = build(0)
	}
	id := doc{"location": "$message." + c.where + "#/" + strings.Join(path, "/")}
	switch c.via {
	case "message":
		msg["correlationId"] = id
	case "trait":
		msg["traits"] = []any{doc{"correlationId": id}}
	case "reftrait":
		comps["messageTraits"].(doc)["tr"] = doc{"correlationId": id}
		msg["traits"] = []any{doc{"$ref": "#/components/messageTraits/tr"}}
	case "refid":
		comps["correlationIds"].(doc)["theid"] = id
		msg["correlationId"] = doc{"$ref": "#/components/correlationIds/theid"}
	}
	if c.msgref {
		comps["messages"].(doc)["evt"] = msg
		msg = doc{"$ref": "#/components/messages/evt"}
	}
	d := doc{"info": doc{"title": "T", "version": "1.0.0"}, "components": comps}
	if c.major == 2 {
		d["asyncapi"] = "2.6.0"
		d["channels"] = doc{"evt": doc{"publish": doc{"message": msg}}}
	} else {
		d["asyncapi"] = "3.0.0"
		d["channels"] = doc{"evt": doc{"address": "evt", "messages": doc{"evt": msg}}}
		d["operations"] = doc{"onevt": doc{"action": "receive", "channel": doc{"$ref": "#/channels/evt"}}}
	}
	sh := Shape{Name: fmt.Sprintf("corr-case-%d", i), Major: c.major, Doc: d}
	if c.force {
		sh.Opts = func(o map[string]any) { o["ForcePointers"] = true }
	}
	return sh
}

func corrCases() (out []corrCase) {
	seen := map[string]bool{}
	add := func(c corrCase) {
		// version 2 of the generator reads neither traits nor references to identifiers
		if c.major == 2 && c.via != "message" {
			return
		}
		if k := c.String(); !seen[k] {
			seen[k] = true
			out = append(out, c)
		}
	}
	leafs := []string{"undeclared", "opt", "req"}
	var paths [][]string
	for _, l := range leafs {
		paths = append(paths, []string{l})
		for _, m := range []string{"opt", "req", "refopt", "refreq"} {
			paths = append(paths, []string{m, l})
		}
	}
	paths = append(paths, []string{"undeclared", "undeclared"}, []string{"req", "opt", "req"}, []string{"req", "req", "req"}, []string{"undeclared", "undeclared", "undeclared"}, []string{"refreq", "refreq", "opt"})
	for _, major := range []int{2, 3} {
		for _, where := range []string{"header", "payload"} {
			for _, p := range paths {
				for _, body := range []string{"inline", "ref"} {
					for _, force := range []bool{false, true} {
						add(corrCase{major, where, p, body, "message", false, force})
					}
					add(corrCase{major, where, p, body, "message", true, false})
					if len(p) == 1 {
						for _, via := range []string{"trait", "reftrait", "refid"} {
							for _, ref := range []bool{false, true} {
								add(corrCase{major, where, p, body, via, ref, false})
							}
						}
					}
				}
			}
			if where == "header" {
				for _, via := range []string{"message", "trait", "reftrait", "refid"} {
					for _, ref := range []bool{false, true} {
						add(corrCase{major, where, []string{"undeclared"}, "absent", via, ref, false})
						add(corrCase{major, where, []string{"undeclared"}, "absent", via, ref, true})
					}
				}
			}
		}
	}
	return
}

func ruleCorr(r *Report) {
	cases := corrCases()
	exps := make([]*Expansion, len(cases))
	parallel(len(cases), func(i int) { exps[i] = r.W.foldShape(cases[i].shape(i)) })
	for i, c := range cases {
		x := exps[i]
		r.Count("documents with a correlation identifier", 1)
		if x.Err != nil || x.Panic != nil {
			r.FailAt("case:"+c.String(), "-", "%s: the generation fails: %v", c, x.Err)
			continue
		}
		r.W.typecheck(x, fmt.Sprintf("gen/%s.v%d", x.Shape.Name, x.Shape.Major))
		if x.Err != nil || len(x.TypeErr) > 0 {
			r.FailAt("case:"+c.String(), "-", "%s: what is generated does not compile: %v %v", c, x.Err, x.TypeErr)
			continue
		}
		ns := corrTypes(x)
		if len(ns) != 1 {
			r.FailAt("case:"+c.String(), "-", "%s: %d message types have a correlation identifier instead of one", c, len(ns))
			continue
		}
		below := ""
		for i, l := range c.levels {
			if i < len(c.levels)-1 && (!strings.HasSuffix(l, "req") || c.force) {
				below = fmt.Sprintf("v%d: a location below an optional object", c.major)
			}
		}
		r.corrMethods(x, ns[0], "case:"+c.String(), below, c.String(), append([]string{map[string]string{"header": "Headers", "payload": "Payload"}[c.where]}, c.path()...))
	}
	r.Floor("documents with a correlation identifier", 300)
	for _, x := range r.expansions(nil) {
		for _, n := range corrTypes(x) {
			r.corrMethods(x, n, x.Shape.key()+":"+n.Obj().Name(), "", x.Shape.key()+":"+n.Obj().Name(), nil)
		}
	}
	r.corrControllers()
	r.Floor("message types with a correlation identifier", 400)
	r.Floor("identifiers read back", 600)
}

// corrTypes are the message types that have a correlation identifier.
func corrTypes(x *Expansion) (out []*types.Named) {
	scope := x.Pkg.Scope()
	for _, name := range scope.Names() {
		if tn, ok := scope.Lookup(name).(*types.TypeName); ok && !tn.IsAlias() {
			if _, ok := tn.Type().Underlying().(*types.Struct); ok && corrOfType(tn.Type()) {
				out = append(out, tn.Type().(*types.Named))
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Obj().Name() < out[j].Obj().Name() })
	return
}

// corrMethods: what is set is at the location, and is what is read.
func (r *Report) corrMethods(x *Expansion, n *types.Named, key, below, what string, path []string) {
	r.Count("message types with a correlation identifier", 1)
	bad := func(format string, a ...any) {
		m := fmt.Sprintf(format, a...)
		r.FailAt(key+":"+m, x.Shape.key(), "%s: %s", what, m)
	}
	crash := func(format string, a ...any) {
		if below != "" {
			r.FailAt(below, x.Shape.key(), "%s: %s", what, fmt.Sprintf(format, a...))
			return
		}
		bad(format, a...)
	}
	pt := types.NewPointer(n)
	m := map[string]*ssa.Function{}
	for _, name := range []string{"CorrelationID", "SetCorrelationID", "SetAsResponseFrom"} {
		if m[name] = r.W.methodOf(pt, name); m[name] == nil {
			bad("has no method %s", name)
			return
		}
	}
	if f := r.W.methodOf(n, "CorrelationID"); f != nil {
		m["CorrelationID"] = f
	}
	in := r.Interp()
	in.Derefs = true
	ptr := in.T.Sym("nonnil:m", pt)
	id := in.T.Sym("id", types.Typ[types.String])
	// read gives what a message holds, after a path
	read := func(c *Config, want *Term, after string) {
		arg := ptr
		if _, isPtr := m["CorrelationID"].Signature.Recv().Type().(*types.Pointer); !isPtr {
			arg = in.Load(c, ptr, n)
		}
		for _, t := range in.Run(m["CorrelationID"], []*Term{arg}, nil, c) {
			r.Count("identifiers read back", 1)
			if w := in.wildAccess(t); w != "" {
				crash("reading the identifier after %s crashes: %s", after, w)
				return
			}
			if t.Exit != "return" || len(t.Ret) != 1 || t.Ret[0] != want {
				bad("the identifier read after %s is not the one set", after)
				return
			}
		}
	}
	at := func(c *Config, want *Term, after string) {
		if path == nil {
			return
		}
		v, err := in.tagPath(c, ptr, n, path)
		r.Count("identifiers found at their location", 1)
		if err != "" {
			bad("%s", err)
		} else if v != want {
			bad("after %s, the identifier is not at the document's location %s", after, strings.Join(path, "/"))
		}
	}
	fresh := &Config{mem: map[*Term]*Term{}, facts: map[*Term]bool{}}
	for _, t := range in.Run(m["SetCorrelationID"], []*Term{ptr, id}, nil, fresh) {
		if w := in.wildAccess(t); w != "" || t.Exit != "return" {
			crash("setting the identifier may crash: %s", w)
			break
		}
		read(t.config(), id, "SetCorrelationID")
		at(t.config(), id, "SetCorrelationID")
	}
	req := in.T.Sym("nonnil:req", m["SetAsResponseFrom"].Params[1].Type())
	for _, t := range in.Run(m["SetAsResponseFrom"], []*Term{ptr, req}, nil, &Config{mem: map[*Term]*Term{}, facts: map[*Term]bool{}}) {
		if w := in.wildAccess(t); w != "" || t.Exit != "return" {
			crash("setting the identifier of a response may crash: %s", w)
			break
		}
		var got *Term
		for _, e := range t.Events {
			if e.Kind == EvCall && e.Obj != nil && e.Obj.Name() == "CorrelationID" && len(e.Args) > 0 && e.Args[0] == req {
				got = e.Res
			}
		}
		if got == nil {
			bad("the identifier of the request is not read")
			break
		}
		read(t.config(), got, "SetAsResponseFrom")
		at(t.config(), got, "SetAsResponseFrom")
	}
	ctor := r.W.Func(x.Pkg.Path(), "New"+n.Obj().Name())
	if ctor == nil {
		bad("has no constructor")
		return
	}
	for _, t := range in.Run(ctor, nil, nil, &Config{mem: map[*Term]*Term{}, facts: map[*Term]bool{}}) {
		if w := in.wildAccess(t); w != "" || t.Exit != "return" || len(t.Ret) != 1 {
			crash("making a message crashes: %s", w)
			break
		}
		c := t.config()
		in.Store(c, ptr, t.Ret[0])
		v, err := t.Ret[0], ""
		if path != nil {
			v, err = in.tagPath(c, ptr, n, path)
		} else {
			for _, u := range in.Run(m["CorrelationID"], []*Term{t.Ret[0]}, nil, c) {
				v = u.Ret[0]
			}
		}
		r.Count("messages made", 1)
		if err != "" {
			bad("%s", err)
		} else if !isUUID(v) {
			bad("a new message has no fresh identifier")
		}
	}
}

// isUUID: a value made of a new universally unique identifier.
func isUUID(v *Term) bool {
	found := false
	v.Any(func(t *Term) bool {
		if t.Op == "call" && t.Obj != nil && t.Obj.Pkg() != nil && t.Obj.Pkg().Path() == "github.com/google/uuid" && strings.HasPrefix(t.Obj.Name(), "New") {
			found = true
		}
		return found
	})
	return found
}

// tagPath goes down a message by the JSON names of its fields.
func (in *Interp) tagPath(c *Config, ptr *Term, n types.Type, path []string) (*Term, string) {
	addr, typ := ptr, n
	for i, p := range path {
		st := structOf(typ)
		if st == nil {
			return nil, fmt.Sprintf("there is no %s", strings.Join(path[:i+1], "/"))
		}
		k := -1
		for j := 0; j < st.NumFields(); j++ {
			name, _, _ := strings.Cut(reflect.StructTag(st.Tag(j)).Get("json"), ",")
			if i == 0 && st.Field(j).Name() == p || i > 0 && name == p {
				k = j
			}
		}
		if k < 0 {
			return nil, fmt.Sprintf("there is no %s", strings.Join(path[:i+1], "/"))
		}
		addr = in.T.FieldAddr(addr, typ, k)
		typ = st.Field(k).Type()
		if pt, ok := typ.Underlying().(*types.Pointer); ok {
			addr, typ = in.Load(c, addr, typ), pt.Elem()
		}
	}
	v := in.Load(c, addr, typ)
	for v.Op == "convert" {
		v = v.Args[0]
	}
	return v, ""
}

// wildAccess: the path uses a pointer that may be nil.
func (in *Interp) wildAccess(t *Trace) string {
	for _, e := range t.Events {
		if e.Kind == EvDeref {
			if e.Taken {
				return "a nil pointer is used"
			}
			return fmt.Sprintf("%s may be nil", e.Addr)
		}
	}
	if t.Exit == "panic" {
		return "it panics"
	}
	return ""
}

// corrControllers: what is sent has an identifier.
func (r *Report) corrControllers() {
	r.ctrlOps(func(cw *ctrlWorld, o *ctrlOp, d *docOp) {
		if o.kind != "send" && o.kind != "request" && o.kind != "reply" {
			return
		}
		if o.kind == "request" && o.x.Shape.Major == 2 {
			return // the user's function publishes
		}
		cr := r.ctrl(cw, 0)
		cr.in.MaxRecv = 1
		ts, args := cr.run(o)
		bad := func(format string, a ...any) {
			m := fmt.Sprintf(format, a...)
			r.FailAt(o.id()+":"+m, o.where(r), "%s: %s", o.id(), m)
		}
		if o.msgP < 0 {
			return
		}
		orig := args[o.msgP]
		has := corrOfType(orig.Typ)
		if d != nil && o.kind != "reply" && d.corr != has {
			bad("the message has a correlation identifier: %v; in the document: %v", has, d.corr)
		}
		for _, t := range ts {
			r.Count("paths of sends", 1)
			if o.kind == "reply" {
				r.corrReply(cr, o, t, args, bad)
				continue
			}
			if !has {
				continue
			}
			var sets []*Event
			var enc *Event
			for _, e := range t.Events {
				if isMsgRecv(e) {
					break
				}
				if isSetCorr(e) {
					sets = append(sets, e)
				}
				if cr.isEncode(e) && enc == nil {
					enc = e
				}
			}
			empty, known := corrEmpty(t, orig)
			if enc == nil {
				if d != nil && d.reply && known && empty {
					r.Count("replies refused", 1)
					if isNil, k := t.errNil(t.Ret[len(t.Ret)-1]); !k || isNil {
						bad("a reply without an identifier is neither sent nor refused")
					}
				}
				continue
			}
			r.Count("messages sent", 1)
			switch {
			case !known:
				bad("a message may be sent without an identifier")
			case !empty:
				if len(sets) > 0 {
					bad("the identifier set by the caller is replaced")
				}
				if enc.Args[0] != orig {
					bad("the message sent is not the one given, although it has an identifier")
				}
			case d != nil && d.reply:
				bad("a reply without an identifier is sent")
			case len(sets) == 0 || len(sets[0].Args) < 2 || !isUUID(sets[0].Args[1]):
				bad("a message without an identifier is sent without giving it a fresh one")
			case enc.Args[0] == orig:
				bad("the message sent is not the one that got an identifier")
			}
		}
	})
	r.Floor("messages sent", 300)
	r.Floor("replies refused", 10)
	r.Floor("replies correlated", 20)
}

func isSetCorr(e *Event) bool {
	return e.Kind == EvEnter && e.SSAFn != nil && e.SSAFn.Name() == "SetCorrelationID" || e.Kind == EvCall && e.Obj != nil && e.Obj.Name() == "SetCorrelationID"
}

// corrEmpty: the path knows whether the identifier of the message is empty.
func corrEmpty(t *Trace, msg *Term) (empty, known bool) {
	for _, e := range t.Events {
		if e.Kind != EvBranch {
			continue
		}
		x, taken := e.Cond, e.Taken
		if x.Op == "not" {
			x, taken = x.Args[0], !taken
		}
		if len(x.Args) != 2 {
			continue
		}
		for i := 0; i < 2; i++ {
			id, c := x.Args[1-i], x.Args[i]
			if s, ok := c.StrVal(); ok && s == "" && x.Op == "eq" && isCorr(id, msg) {
				return taken, true
			}
			if n, ok := c.Int(); ok && n == 0 && x.Op == "eq" && id.Op == "len" && isCorr(id.Args[0], msg) {
				return taken, true
			}
		}
	}
	return false, false
}

// corrReply: the reply given to the user's function and sent has the identifier of the
// message it answers.
func (r *Report) corrReply(cr *ctrlRun, o *ctrlOp, t *Trace, args []*Term, bad func(string, ...any)) {
	var call, set *Event
	for _, e := range t.Events {
		if e.Kind == EvEnter && e.SSAFn != nil && e.SSAFn.Name() == "SetAsResponseFrom" && call == nil {
			set = e
		}
		if o.fnP >= 0 && e.Kind == EvCall && e.Callee == args[o.fnP] {
			call = e
		}
	}
	if call == nil || len(call.Args) == 0 {
		return
	}
	rep := call.Args[len(call.Args)-1]
	if !corrOfType(rep.Typ) || !corrOfType(args[o.msgP].Typ) {
		return
	}
	r.Count("replies correlated", 1)
	switch {
	case set == nil:
		bad("the reply is not given the identifier of the message it answers")
	case set.Args[0] != rep:
		bad("another message than the reply is given the identifier")
	default:
		req := unwrap(set.Args[1])
		if req != args[o.msgP] {
			if v := cr.in.Load(&Config{mem: t.Mem, facts: t.Facts}, req, args[o.msgP].Typ); v != args[o.msgP] {
				bad("the reply is given the identifier of another message than the one it answers")
			}
		}
	}
}
