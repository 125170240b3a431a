package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// C34: the two sides of a document are duals. The generator is folded over documents
// made of every kind of operation, alone, in pairs and all together; the methods of both
// controllers and both subscriber interfaces are compared with the operations of the
// document: which methods each side has, on which messages and parameters, and which
// addresses appear in them.

func init() {
	register("C34", "constant propagation of the whole generator over documents made of every kind of operation (action, parameters, reply, references, messages chosen, identifiers) alone, in pairs, all together, with null operations and channels that have none, for each choice of targets: the exported methods of both controllers and subscriber interfaces of the folded text are compared, with the messages and parameters of their signatures and the addresses in their bodies, with the halves each side must have", ruleDuals)
}

// An operation of a document: one of version 3, or a half of a channel in version 2.
type dualOp struct {
	names  []string // normalised
	send   bool     // by the application
	msg    string   // marker of its message
	rep    string   // marker of the message of its reply
	addr   string   // what its address starts with
	repA   string
	params []string
	corr   bool
}

type dualDoc struct {
	what string
	doc  doc
	ops  []*dualOp
	opts func(o map[string]any)
}

type dualKind struct {
	send, params, ref, chosen bool
	reply                     string // "", fixed, dynamic
}

func (k dualKind) String() string {
	s := map[bool]string{true: "send", false: "receive"}[k.send]
	if k.params {
		s += "+parameters"
	}
	if k.ref {
		s += "+referred"
	}
	if k.chosen {
		s += "+messages"
	}
	if k.reply != "" {
		s += "+" + k.reply + " reply"
	}
	return s
}

func dualKinds() (out []dualKind) {
	for _, send := range []bool{true, false} {
		for _, params := range []bool{false, true} {
			for _, ref := range []bool{false, true} {
				for _, chosen := range []bool{false, true} {
					for _, reply := range []string{"", "fixed", "dynamic"} {
						if chosen && (params || ref) {
							continue
						}
						out = append(out, dualKind{send, params, ref, chosen, reply})
					}
				}
			}
		}
	}
	return
}

func dualMsg(mark string, corr bool) doc {
	m := doc{"payload": doc{"type": "object", "properties": doc{mark: doc{"type": "string"}}}}
	if corr {
		m["headers"] = doc{"type": "object", "properties": doc{"corrid": doc{"type": "string"}}}
		m["correlationId"] = doc{"location": "$message.header#/corrid"}
	}
	return m
}

// dual3 is the document with operations of the given kinds; null entries and channels
// without operation are added.
func dual3(kinds []dualKind, null bool) *dualDoc {
	chs, ops, comps := doc{}, doc{}, doc{}
	d := &dualDoc{}
	var what []string
	for i, k := range kinds {
		what = append(what, k.String())
		n := string(rune('a'+i/5)) + string(rune('a'+i%5)) + "Thing"
		c := "ch" + n
		o := &dualOp{send: k.send, msg: "mark" + n, addr: "zz-addr-" + n + "-", names: []string{norm("do" + n)}}
		ch := doc{"address": o.addr, "messages": doc{"msg" + n: dualMsg(o.msg, true)}}
		if k.params {
			ch["address"] = o.addr + ".{par" + n + "}"
			ch["parameters"] = doc{"par" + n: doc{}}
			o.params = []string{norm("par" + n)}
		}
		op := doc{"action": map[bool]string{true: "send", false: "receive"}[k.send], "channel": doc{"$ref": "#/channels/" + c}}
		if k.chosen {
			ch["messages"].(doc)["amsg"+n] = dualMsg("other"+n, true)
			op["messages"] = []any{doc{"$ref": "#/channels/" + c + "/messages/msg" + n}}
		}
		if k.reply != "" {
			o.rep = "markrep" + n
			rc := doc{"address": "zz-addr-rep" + n + "-", "messages": doc{"rep" + n: dualMsg(o.rep, true)}}
			rep := doc{"channel": doc{"$ref": "#/channels/rep" + c}}
			if k.reply == "dynamic" {
				rc["address"] = nil
				rep["address"] = doc{"location": "$message.header#/replyTo"}
				ch["messages"].(doc)["msg"+n].(doc)["headers"].(doc)["properties"].(doc)["replyTo"] = doc{"type": "string"}
			} else {
				o.repA = "zz-addr-rep" + n + "-"
			}
			chs["rep"+c] = rc
			op["reply"] = rep
		}
		chs[c] = ch
		if k.ref {
			comps["comp"+n] = op
			o.names = append(o.names, norm("comp"+n))
			ops["do"+n] = doc{"$ref": "#/components/operations/comp" + n}
		} else {
			ops["do"+n] = op
		}
		d.ops = append(d.ops, o)
	}
	if null {
		ops["nothing"] = nil
		what = append(what, "null operation")
	}
	chs["unused"] = doc{"address": "unused", "messages": doc{"unused": dualMsg("unused", false)}}
	d.what = "v3 [" + strings.Join(what, ", ") + "]"
	d.doc = doc{"asyncapi": "3.0.0", "info": doc{"title": "T", "version": "1.0.0"}, "channels": chs, "operations": ops, "components": doc{"operations": comps}}
	return d
}

// A channel of version 2.
type dualChan struct {
	pub, sub, params bool
	id               string // "", publish, subscribe, both
	ref, corr        bool
}

func (k dualChan) String() string {
	s := ""
	if k.pub {
		s += "publish"
	}
	if k.sub {
		s += "subscribe"
	}
	if k.params {
		s += "+parameters"
	}
	if k.id != "" {
		s += "+identifier of " + k.id
	}
	if k.ref {
		s += "+referred message"
	}
	if k.corr {
		s += "+correlation"
	}
	return s
}

func dualChans() (out []dualChan) {
	for _, ps := range [][2]bool{{true, false}, {false, true}, {true, true}} {
		for _, params := range []bool{false, true} {
			for _, id := range []string{"", "publish", "subscribe", "both"} {
				for _, ref := range []bool{false, true} {
					for _, corr := range []bool{false, true} {
						switch {
						case (id == "both" || id == "subscribe") && !ps[1], (id == "both" || id == "publish") && !ps[0]:
							continue
						case params && (id == "both" || ref), id != "" && ref:
							continue
						}
						out = append(out, dualChan{ps[0], ps[1], params, id, ref, corr})
					}
				}
			}
		}
	}
	return
}

func dual2(kinds []dualChan, none bool) *dualDoc {
	chs, comps := doc{}, doc{}
	d := &dualDoc{}
	var what []string
	for i, k := range kinds {
		what = append(what, k.String())
		n := string(rune('a'+i/5)) + string(rune('a'+i%5)) + "Thing"
		path := "zz-addr-" + n + "-"
		var params []string
		ch := doc{}
		if k.params {
			path += "/{par" + n + "}"
			ch["parameters"] = doc{"par" + n: doc{"schema": doc{"type": "string"}}}
			params = []string{norm("par" + n)}
		}
		names := []string{norm(path), norm(strings.Split(path, "{")[0])}
		for _, verb := range []string{"publish", "subscribe"} {
			if verb == "publish" && !k.pub || verb == "subscribe" && !k.sub {
				continue
			}
			op := doc{}
			if k.id == verb || k.id == "both" {
				id := "id" + verb + n
				op["operationId"] = id
				names = append(names, norm(id))
			}
			mark := "mark" + verb + n
			m := dualMsg(mark, k.corr)
			if k.ref {
				comps["msg"+verb+n] = m
				op["message"] = doc{"$ref": "#/components/messages/msg" + verb + n}
			} else {
				m["name"] = "msg" + verb + n
				op["message"] = m
			}
			ch[verb] = op
			d.ops = append(d.ops, &dualOp{send: verb == "subscribe", msg: mark, addr: "zz-addr-" + n + "-", params: params, corr: k.corr})
		}
		for _, o := range d.ops {
			if o.names == nil {
				o.names = names
			}
		}
		chs[path] = ch
	}
	if none {
		chs["nothing"] = doc{}
		what = append(what, "channel without operation")
	}
	d.what = "v2 [" + strings.Join(what, ", ") + "]"
	d.doc = doc{"asyncapi": "2.6.0", "info": doc{"title": "T", "version": "1.0.0"}, "channels": chs, "components": doc{"messages": comps}}
	return d
}

// A method that a side must have.
type dualWant struct {
	kind   string
	prefix string
	suffix string
	op     *dualOp
	msgs   []string
	params bool
	addrs  []string
}

func (w *dualWant) fits(name string) bool {
	n := norm(name)
	for _, x := range w.op.names {
		for _, s := range []string{"", "operation"} {
			if n == norm(w.prefix)+x+s+norm(w.suffix) {
				return true
			}
		}
	}
	return false
}

func (d *dualDoc) wants(major int, side string) (methods, handlers []*dualWant, bulk bool) {
	at := map[string]string{"App": "As", "User": "To"}[side]
	for _, o := range d.ops {
		sends := o.send == (side == "App")
		pair := []string{o.msg}
		if o.rep != "" {
			pair = []string{o.msg, o.rep}
		}
		add := func(kind, prefix string, params bool, msgs, addrs []string) {
			methods = append(methods, &dualWant{kind: kind, prefix: prefix, op: o, msgs: msgs, params: params, addrs: addrs})
		}
		one, ad := []string{o.msg}, []string{o.addr}
		var repA []string
		if o.repA != "" {
			repA = []string{o.repA}
		}
		switch {
		case major == 2 && sends:
			add("publish", "Publish", true, one, ad)
		case major == 2:
			add("subscribe", "Subscribe", true, one, ad)
			add("unsubscribe", "Unsubscribe", true, nil, ad)
			if o.corr && side == "User" {
				add("wait", "WaitFor", true, one, ad)
			}
			handlers = append(handlers, &dualWant{kind: "handler", op: o, msgs: one})
			bulk = true
		case sends:
			add("send", "Send"+at, true, one, ad)
			if o.rep != "" {
				add("request", "Request"+at, true, pair, append(repA, ad...))
			}
		default:
			add("subscribe", "SubscribeTo", true, one, ad)
			add("unsubscribe", "UnsubscribeFrom", true, nil, ad)
			if o.rep != "" {
				add("reply", "ReplyTo", false, pair, repA)
				add("send reply", "Send"+at+"ReplyTo", false, []string{o.rep}, repA)
			}
			handlers = append(handlers, &dualWant{kind: "handler", suffix: "Received", op: o, msgs: one})
			bulk = true
		}
	}
	return
}

// dualText is what is read of a folded text.
type dualText struct {
	methods  map[string]map[string]*ast.FuncDecl // by receiver
	ifaces   map[string]map[string]*ast.FuncType
	messages map[string]string   // message type to marker
	params   map[string][]string // parameter type to parameters
	types    map[string]bool
}

func readDuals(text string) (*dualText, error) {
	file, err := parser.ParseFile(token.NewFileSet(), "g.go", text, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	t := &dualText{map[string]map[string]*ast.FuncDecl{}, map[string]map[string]*ast.FuncType{}, map[string]string{}, map[string][]string{}, map[string]bool{}}
	structs := map[string]*ast.StructType{}
	for _, d := range file.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil || len(d.Recv.List) != 1 {
				continue
			}
			x := d.Recv.List[0].Type
			if s, ok := x.(*ast.StarExpr); ok {
				x = s.X
			}
			id, ok := x.(*ast.Ident)
			if !ok {
				continue
			}
			if t.methods[id.Name] == nil {
				t.methods[id.Name] = map[string]*ast.FuncDecl{}
			}
			if t.methods[id.Name][d.Name.Name] != nil {
				return nil, fmt.Errorf("the method %s.%s is declared twice", id.Name, d.Name.Name)
			}
			t.methods[id.Name][d.Name.Name] = d
		case *ast.GenDecl:
			for _, s := range d.Specs {
				ts, ok := s.(*ast.TypeSpec)
				if !ok {
					continue
				}
				t.types[ts.Name.Name] = true
				switch x := ts.Type.(type) {
				case *ast.StructType:
					structs[ts.Name.Name] = x
				case *ast.InterfaceType:
					m := map[string]*ast.FuncType{}
					for _, f := range x.Methods.List {
						if ft, ok := f.Type.(*ast.FuncType); ok {
							for _, n := range f.Names {
								m[n.Name] = ft
							}
						}
					}
					t.ifaces[ts.Name.Name] = m
				}
			}
		}
	}
	first := func(s *ast.StructType) string {
		for _, f := range s.Fields.List {
			if f.Tag == nil {
				continue
			}
			raw, _ := strconv.Unquote(f.Tag.Value)
			n, _, _ := strings.Cut(reflect.StructTag(raw).Get("json"), ",")
			return n
		}
		return ""
	}
	for n, s := range structs {
		if strings.HasSuffix(n, "Parameters") {
			for _, f := range s.Fields.List {
				for _, x := range f.Names {
					t.params[n] = append(t.params[n], norm(x.Name))
				}
			}
		}
		for _, f := range s.Fields.List {
			id, _ := f.Type.(*ast.Ident)
			if len(f.Names) == 1 && f.Names[0].Name == "Payload" && id != nil && structs[id.Name] != nil {
				t.messages[n] = first(structs[id.Name])
			}
		}
	}
	return t, nil
}

// marks are the messages and parameters of a signature.
func (t *dualText) marks(f *ast.FuncType) (msgs, params []string) {
	seen := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok || seen[id.Name] {
			return true
		}
		seen[id.Name] = true
		if m, ok := t.messages[id.Name]; ok {
			msgs = append(msgs, m)
		}
		params = append(params, t.params[id.Name]...)
		return true
	})
	sort.Strings(msgs)
	sort.Strings(params)
	return
}

// addrs are the addresses that appear in a body.
func (t *dualText) addrs(f *ast.FuncDecl) (out []string) {
	seen := map[string]bool{}
	ast.Inspect(f.Body, func(n ast.Node) bool {
		if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING {
			s, _ := strconv.Unquote(l.Value)
			if i := strings.Index(s, "zz-addr-"); i >= 0 {
				s = s[i:]
				if j := strings.Index(s[len("zz-addr-"):], "-"); j >= 0 {
					s = s[:len("zz-addr-")+j+1]
				}
				if !seen[s] {
					seen[s] = true
					out = append(out, s)
				}
			}
		}
		return true
	})
	return
}

func ruleDuals(r *Report) {
	type job struct {
		d       *dualDoc
		major   int
		targets []string
	}
	var jobs []job
	all := []string{"Application", "User", "Types"}
	ks := dualKinds()
	add := func(kinds ...dualKind) *dualDoc {
		d := dual3(kinds, len(kinds) == 3)
		jobs = append(jobs, job{d, 3, all})
		return d
	}
	for i, k := range ks {
		d := add(k)
		for _, t := range [][]string{{"Application"}, {"User"}, {"Application", "User"}, {"Types"}} {
			jobs = append(jobs, job{d, 3, t})
		}
		for j := i; j < len(ks); j++ {
			add(k, ks[j])
			if ks[j] == k {
				add(k, k, k)
			}
		}
	}
	add(ks...)
	add()
	// operations that share their channel
	for _, k := range ks {
		for _, l := range ks {
			if k.ref || l.ref || k.chosen || l.chosen || k.params != l.params {
				continue
			}
			d := dual3([]dualKind{k, l}, false)
			d.what += " on one channel"
			ops := d.doc["operations"].(doc)
			var n []string
			for name := range ops {
				n = append(n, name)
			}
			sort.Strings(n)
			chs := d.doc["channels"].(doc)
			msg := chs["chabThing"].(doc)["messages"].(doc)["msgabThing"].(doc)
			hs := chs["chaaThing"].(doc)["messages"].(doc)["msgaaThing"].(doc)["headers"].(doc)["properties"].(doc)
			for h, v := range msg["headers"].(doc)["properties"].(doc) {
				hs[h] = v
			}
			delete(chs, "chabThing")
			ops[n[1]].(doc)["channel"] = doc{"$ref": "#/channels/chaaThing"}
			d.ops[1].addr, d.ops[1].msg, d.ops[1].params = d.ops[0].addr, d.ops[0].msg, d.ops[0].params
			jobs = append(jobs, job{d, 3, all})
		}
	}
	cs := dualChans()
	add2 := func(kinds ...dualChan) *dualDoc {
		d := dual2(kinds, len(kinds) == 3)
		jobs = append(jobs, job{d, 2, all})
		return d
	}
	for i, k := range cs {
		d := add2(k)
		for _, t := range [][]string{{"Application"}, {"User"}, {"Application", "User"}, {"Types"}} {
			jobs = append(jobs, job{d, 2, t})
		}
		for j := i; j < len(cs); j++ {
			add2(k, cs[j])
			if cs[j] == k {
				add2(k, k, k)
			}
		}
	}
	add2(cs...)
	add2()

	var docsOf []dualCount
	for _, j := range jobs {
		if len(j.targets) == 3 {
			docsOf = append(docsOf, dualCount{j.d, j.major})
		}
	}
	xs := make([]*Expansion, len(jobs))
	parallel(len(jobs), func(i int) {
		j := jobs[i]
		xs[i] = r.W.foldShape(Shape{Name: "duals", Major: j.major, Doc: j.d.doc, Targets: j.targets, Opts: func(o map[string]any) { o["DisableFormatting"] = true }})
	})
	for i, j := range jobs {
		who := fmt.Sprintf("%s for %s", j.d.what, strings.Join(j.targets, ", "))
		x := xs[i]
		if x.Err != nil || x.Panic != nil {
			r.FailAt("undecided:"+who, who, "the generator could not be folded over the document: %v", x.Err)
			continue
		}
		t, err := readDuals(x.Text)
		if err != nil {
			r.FailAt("text:"+who, who, "the generated text cannot be read: %v", err)
			continue
		}
		r.Count("generations", 1)
		for _, side := range []string{"App", "User"} {
			asked := isIn2(map[string]string{"App": "Application", "User": "User"}[side], j.targets)
			r.side(t, j.d, j.major, side, asked, isIn2("Types", j.targets), who)
		}
	}
	r.dualCounts(docsOf)
	r.Floor("generations", 500)
	r.Floor("methods compared", 4000)
	r.Floor("handlers compared", 900)
	r.Floor("addresses compared", 3000)
}

type dualCount struct {
	d     *dualDoc
	major int
}

// dualCounts: what the specification counts is what the document has.
func (r *Report) dualCounts(ds []dualCount) {
	bad := make([]string, len(ds))
	undecided := make([]string, len(ds))
	parallel(len(ds), func(i int) {
		d := ds[i]
		m := NewMachine(r.W)
		pkg := fmt.Sprintf("%s/pkg/asyncapi/v%d", Mod, d.major)
		name := map[int]string{2: "Specification.GetPublishSubscribeCount", 3: "Specification.GetOperationCountByAction"}[d.major]
		parse := r.W.Func(Mod+"/pkg/asyncapi/parser", "FromJSON")
		proc, count := r.W.Func(pkg, "Specification.Process"), r.W.Func(pkg, name)
		if parse == nil || proc == nil || count == nil {
			undecided[i] = name + " is not resolved"
			return
		}
		v, err, p := m.Try(func() any {
			b, _ := json.Marshal(d.d.doc)
			ps := zeroVal(parse.Signature.Params().At(0).Type()).(*VStruct)
			setField(ps, "Data", bytesVal(b))
			t := m.Call(parse, ps).(VTuple)
			if t[1] != nil {
				unsup("the document is refused: %s", m.show(t[1]))
			}
			c := t[0].(*VIface).V.(*Cell)
			if e := m.Call(proc, c); e != nil {
				unsup("processing fails: %s", m.show(e))
			}
			return m.Call(count, asReceiver(count, c))
		})
		if err != nil || p != nil {
			undecided[i] = fmt.Sprintf("the count could not be folded: %v %v", err, p)
			return
		}
		var sends, receives int
		for _, o := range d.d.ops {
			if o.send {
				sends++
			} else {
				receives++
			}
		}
		want := fmt.Sprintf("%d and %d", sends, receives)
		if d.major == 2 {
			want = fmt.Sprintf("%d and %d", receives, sends)
		}
		t := v.(VTuple)
		if got := fmt.Sprintf("%s and %s", m.show(t[0]), m.show(t[1])); got != want {
			bad[i] = fmt.Sprintf("%s gives %s instead of %s", name, got, want)
		}
	})
	for i, d := range ds {
		r.Count("counts compared", 1)
		if undecided[i] != "" {
			r.FailAt(fmt.Sprintf("undecided:counts:v%d", d.major), d.d.what, "%s", undecided[i])
		}
		if bad[i] != "" {
			r.FailAt(fmt.Sprintf("count:v%d", d.major), d.d.what, "%s", bad[i])
		}
	}
	r.Floor("counts compared", 800)
}

func isIn2(x string, l []string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func (r *Report) side(t *dualText, d *dualDoc, major int, side string, asked, typed bool, who string) {
	ctrl, sub := side+"Controller", side+"Subscriber"
	key := func(what string, o *dualOp) string {
		s := fmt.Sprintf("v%d:%s:%s", major, side, what)
		if o != nil && o.rep != "" {
			s += ":replied"
		}
		return s
	}
	if !asked {
		if t.types[ctrl] || t.types[sub] || len(t.methods[ctrl]) > 0 {
			r.FailAt(key("unasked", nil), who, "the %s side is generated although it was not asked for", side)
		}
		return
	}
	if !t.types[ctrl] {
		r.FailAt(key("controller", nil), who, "there is no %s", ctrl)
		return
	}
	methods, handlers, bulk := d.wants(major, side)
	have := map[string]bool{}
	for n := range t.methods[ctrl] {
		if ast.IsExported(n) {
			have[n] = true
		}
	}
	names := map[string]string{}
	for _, w := range methods {
		r.Count("methods compared", 1)
		var got string
		for _, n := range sortedKeys(have) {
			if w.fits(n) {
				got = n
			}
		}
		at := who + ": " + w.op.names[0]
		if got == "" {
			r.FailAt(key("missing:"+w.kind, w.op), at, "%s has no method to %s", ctrl, w.kind)
			continue
		}
		delete(have, got)
		names[w.kind+w.op.addr] = got
		fd := t.methods[ctrl][got]
		msgs, params := t.marks(fd.Type)
		if typed {
			if !sameStrings(msgs, w.msgs) {
				r.FailAt(key("message:"+w.kind, w.op), at, "%s.%s has the messages %v in its signature instead of %v", ctrl, got, msgs, w.msgs)
			}
			var want []string
			if w.params {
				want = w.op.params
			}
			if !sameStrings(params, want) {
				r.FailAt(key("parameters:"+w.kind, w.op), at, "%s.%s has the channel parameters %v instead of %v", ctrl, got, params, want)
			}
		}
		for _, a := range t.addrs(fd) {
			r.Count("addresses compared", 1)
			if !isIn2(a, w.addrs) {
				r.FailAt(key("address:"+w.kind, w.op), at, "%s.%s mentions the address %s; its operation is on %v", ctrl, got, a, w.addrs)
			}
		}
	}
	all := map[int][]string{2: {"SubscribeAll", "UnsubscribeAll"}, 3: {"SubscribeToAllChannels", "UnsubscribeFromAllChannels"}}[major]
	for _, n := range append(all, "Close") {
		if have[n] != (bulk || n == "Close") {
			r.FailAt(key("bulk:"+n, nil), who, "%s has %s: %v, though it receives messages: %v", ctrl, n, have[n], bulk)
		}
		delete(have, n)
	}
	for _, n := range sortedKeys(have) {
		r.FailAt(key("extra", nil), who, "%s has the method %s, for no operation that the document gives to this side", ctrl, n)
	}
	// handlers
	if t.types[sub] != bulk {
		r.FailAt(key("subscriber", nil), who, "%s exists: %v, though this side receives messages: %v", sub, t.types[sub], bulk)
		return
	}
	left := map[string]bool{}
	for n := range t.ifaces[sub] {
		left[n] = true
	}
	for _, w := range handlers {
		r.Count("handlers compared", 1)
		var got string
		for _, n := range sortedKeys(left) {
			if w.fits(n) {
				got = n
			}
		}
		at := who + ": " + w.op.names[0]
		if got == "" {
			r.FailAt(key("missing:handler", w.op), at, "%s has no handler for the operation", sub)
			continue
		}
		delete(left, got)
		if msgs, _ := t.marks(t.ifaces[sub][got]); typed && !sameStrings(msgs, w.msgs) {
			r.FailAt(key("message:handler", w.op), at, "%s.%s has the messages %v instead of %v", sub, got, msgs, w.msgs)
		}
	}
	for _, n := range sortedKeys(left) {
		r.FailAt(key("extra handler", nil), who, "%s has the handler %s, for no operation this side receives", sub, n)
	}
}

func sameStrings(a, b []string) bool {
	b = append([]string(nil), b...)
	sort.Strings(b)
	return strings.Join(a, "\n") == strings.Join(b, "\n")
}
