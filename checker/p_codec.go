package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// C20: what a generated message writes is what its decoder reads. Every message type has
// a function that encodes it and one that decodes it; both are interpreted along all
// their paths, and each value that travels is described by its place in the message, its
// wire key, and its encoding. The two descriptions must be the same, and those of the
// document. C21: no path of a decoder can crash, or lose an error.

func init() {
	register("C20", "constant propagation of the generator over documents with every kind of payload and header, required or not, inline and referred; then path-sensitive interpretation of the folded encoders and decoders: for the payload and each header, field, wire key, format, width and byte order of the encoder against those of the decoder, presence against requiredness, and the errors of both", ruleCodec)
	register("C21", "constant propagation of the generator over the same documents; then path-sensitive interpretation of the folded decoders and of the unmarshalling methods they lead to: every use of a pointer, index, slice, conversion of an interface, division, and fixed-size read must be shown safe by what the path knows, and every error is returned", ruleDecoders)
}

// codecHeader is a header of a generated document.
type codecHeader struct {
	name, kind    string
	required, ref bool
}

type codecMsg struct {
	payload string
	headers []codecHeader
}

type codecDoc struct {
	major                          int
	force, ignore                  bool
	payloadVia, headersVia, msgVia string
	msgs                           []*codecMsg
}

func (d codecDoc) String() string {
	s := fmt.Sprintf("v%d, payload %s, headers %s, messages %s", d.major, d.payloadVia, d.headersVia, d.msgVia)
	if d.force {
		s += ", forced pointers"
	}
	if d.ignore {
		s += ", formats ignored"
	}
	return s
}

var codecKinds = map[string]doc{
	"string": {"type": "string"}, "date": {"type": "string", "format": "date"}, "date-time": {"type": "string", "format": "date-time"},
	"uuid": {"type": "string", "format": "uuid"}, "integer": {"type": "integer"}, "int32": {"type": "integer", "format": "int32"},
	"int64": {"type": "integer", "format": "int64"}, "number": {"type": "number"}, "float": {"type": "number", "format": "float"},
	"double": {"type": "number", "format": "double"}, "boolean": {"type": "boolean"}, "array": {"type": "array", "items": doc{"type": "string"}},
	"object": {"type": "object", "properties": doc{"inner": doc{"type": "string"}}}, "enum": {"type": "string", "enum": []any{"a", "b"}},
	"dates":     {"type": "array", "items": doc{"type": "string", "format": "date-time"}},
	"open":      {"type": "object", "properties": doc{"inner": doc{"type": "integer"}}, "additionalProperties": doc{"type": "string"}},
	"objects":   {"type": "array", "items": doc{"type": "object", "properties": doc{"inner": doc{"type": "number"}}}},
	"fixed":     {"type": "string", "const": "a"},
	"bounded":   {"type": "integer", "minimum": 1, "maximum": 10},
	"shortlist": {"type": "array", "items": doc{"type": "integer"}, "maxItems": 2},
}

func codecDocs() (out []*codecDoc) {
	var hs []codecHeader
	for _, k := range []string{"string", "date", "date-time", "uuid", "integer", "int32", "number", "float", "boolean", "array", "object", "enum", "dates"} {
		for _, req := range []bool{false, true} {
			for _, ref := range []bool{false, true} {
				hs = append(hs, codecHeader{kind: k, required: req, ref: ref})
			}
		}
	}
	kinds := sortedKeys(codecKinds)
	for _, major := range []int{2, 3} {
		for _, force := range []bool{false, true} {
			for _, ignore := range []bool{false, true} {
				for _, pv := range []string{"inline", "referred"} {
					for _, hv := range []string{"inline", "referred", "trait"} {
						for _, mv := range []string{"inline", "referred"} {
							if hv == "trait" && major == 2 || ignore && force {
								continue
							}
							d := &codecDoc{major: major, force: force, ignore: ignore, payloadVia: pv, headersVia: hv, msgVia: mv}
							for i := 0; i < len(kinds) || i*4 < len(hs); i++ {
								m := &codecMsg{payload: kinds[i%len(kinds)]}
								for j := i * 4; j < i*4+4 && j < len(hs); j++ {
									h := hs[(j*5+j/4)%len(hs)]
									h.name = fmt.Sprintf("h%c%cField", 'a'+i, 'a'+j%4)
									m.headers = append(m.headers, h)
								}
								d.msgs = append(d.msgs, m)
							}
							out = append(out, d)
						}
					}
				}
			}
		}
	}
	return
}

func (d *codecDoc) shape(i int) Shape {
	schemas, messages, channels, ops := doc{}, doc{}, doc{}, doc{}
	for k, m := range d.msgs {
		name := fmt.Sprintf("msg%c", 'a'+k)
		payload := copyDoc(codecKinds[m.payload])
		if d.payloadVia == "referred" {
			schemas[name+"Payload"] = payload
			payload = doc{"$ref": "#/components/schemas/" + name + "Payload"}
		}
		msg := doc{"payload": payload}
		if len(m.headers) > 0 {
			props, req := doc{}, []any{}
			for _, h := range m.headers {
				s := copyDoc(codecKinds[h.kind])
				if h.ref {
					schemas[h.name+"Target"] = s
					s = doc{"$ref": "#/components/schemas/" + h.name + "Target"}
				}
				props[h.name] = s
				if h.required {
					req = append(req, h.name)
				}
			}
			headers := doc{"type": "object", "properties": props}
			if len(req) > 0 {
				headers["required"] = req
			}
			switch d.headersVia {
			case "referred":
				schemas[name+"Headers"] = headers
				msg["headers"] = doc{"$ref": "#/components/schemas/" + name + "Headers"}
			case "trait":
				msg["traits"] = []any{doc{"headers": headers}}
			default:
				msg["headers"] = headers
			}
		}
		if d.msgVia == "referred" {
			messages[name] = msg
			msg = doc{"$ref": "#/components/messages/" + name}
		}
		if d.major == 2 {
			channels[name] = doc{"publish": doc{"message": msg}}
		} else {
			channels[name] = doc{"address": name, "messages": doc{name: msg}}
			ops["on"+name] = doc{"action": "receive", "channel": doc{"$ref": "#/channels/" + name}}
		}
	}
	out := doc{"info": doc{"title": "T", "version": "1.0.0"}, "channels": channels, "components": doc{"schemas": schemas, "messages": messages}}
	if d.major == 2 {
		out["asyncapi"] = "2.6.0"
	} else {
		out["asyncapi"] = "3.0.0"
		out["operations"] = ops
	}
	return Shape{Name: fmt.Sprintf("codec-%d", i), Major: d.major, Doc: out, Opts: func(o map[string]any) {
		o["ForcePointers"], o["IgnoreStringFormat"] = d.force, d.ignore
	}, Targets: []string{"Types"}}
}

func copyDoc(d doc) doc {
	out := doc{}
	for k, v := range d {
		if m, ok := v.(doc); ok {
			v = copyDoc(m)
		}
		out[k] = v
	}
	return out
}

// codecExpansions folds the documents, and gives those that can be looked at.
func (r *Report) codecExpansions() (docs []*codecDoc, xs []*Expansion) {
	docs = codecDocs()
	xs = make([]*Expansion, len(docs))
	parallel(len(docs), func(i int) { xs[i] = r.W.foldShape(docs[i].shape(i)) })
	for i, d := range docs {
		x := xs[i]
		if x.Err == nil && x.Panic == nil {
			r.W.typecheck(x, fmt.Sprintf("gen/%s.v%d", x.Shape.Name, x.Shape.Major))
		}
		if x.Err != nil || x.Panic != nil || len(x.TypeErr) > 0 {
			r.FailAt("case:"+d.String(), "-", "%s: the generation fails, or what it gives does not compile: %v %v", d, x.Err, x.TypeErr)
			xs[i] = nil
			continue
		}
		r.Count("documents with every kind of payload and header", 1)
	}
	r.Floor("documents with every kind of payload and header", 60)
	return
}

// wireItem is how a value of a message travels.
type wireItem struct {
	field string // place in the message
	how   string // encoding
}

// wireSide is what the encoder writes, or the decoder reads.
type wireSide struct {
	name    string
	payload map[wireItem]bool
	headers map[string]map[wireItem]bool
	always  map[string]bool // headers written on every path
	cond    map[string]bool // headers written on some
}

func ruleCodec(r *Report) {
	docs, xs := r.codecExpansions()
	for i, d := range docs {
		if xs[i] == nil {
			continue
		}
		sides := r.codecMessages(xs[i], d.String())
		for k, m := range d.msgs {
			r.Count("messages compared with their document", 1)
			var found *wireSide
			for _, s := range sides {
				if strings.HasPrefix(s.name, fmt.Sprintf("Msg%c", 'a'+k)) && !strings.HasPrefix(s.name, "MsgAs") {
					found = s
				}
				for _, h := range m.headers {
					if s.cond[h.name] {
						found = s
					}
				}
			}
			if found == nil {
				r.FailAt(fmt.Sprintf("lost:%d:%s", k, d), xs[i].Shape.key(), "%s: no message is message %d, or writes its headers", d, k)
				continue
			}
			if how := wireHows(found.payload); how != d.encoded(m.payload, true) {
				r.FailAt(fmt.Sprintf("encoding:%s:%s", m.payload, d), xs[i].Shape.key(), "%s: a payload that is a %s is written as %s instead of %s", d, m.payload, how, d.encoded(m.payload, true))
			}
			for _, h := range m.headers {
				req := map[bool]string{true: "required", false: "optional"}[h.required]
				if h.ref {
					req += " referred"
				}
				how := wireHows(found.headers[h.name])
				switch {
				case !found.cond[h.name]:
					r.FailAt(fmt.Sprintf("lost:%s %s:%s", req, h.kind, d), xs[i].Shape.key(), "%s: the %s %s header of a message is not written", d, req, h.kind)
				case h.required != found.always[h.name]:
					r.FailAt(fmt.Sprintf("presence:%s %s:%s", req, h.kind, d), xs[i].Shape.key(), "%s: the %s %s header of a message is written on every path: %v", d, req, h.kind, found.always[h.name])
				case how != d.encoded(h.kind, false):
					r.FailAt(fmt.Sprintf("encoding:%s %s:%s", req, h.kind, d), xs[i].Shape.key(), "%s: the %s %s header of a message is written as %s instead of %s", d, req, h.kind, how, d.encoded(h.kind, false))
				}
			}
		}
	}
	for _, x := range r.expansions(nil) {
		r.codecMessages(x, x.Shape.key())
	}
	r.Floor("messages compared with their document", 500)
	r.Floor("messages encoded and decoded", 800)
	r.Floor("headers mirrored", 2000)
	r.Floor("payloads mirrored", 800)
}

func (r *Report) codecMessages(x *Expansion, what string) (out []*wireSide) {
	if x.Pkg == nil {
		return
	}
	cw := r.W.controllers(x)
	var ns []*types.Named
	for n := range cw.enc {
		ns = append(ns, n)
	}
	for n := range cw.dec {
		if cw.enc[n] == nil {
			r.FailAt(what+":"+n.Obj().Name(), what, "%s: %s is decoded, but not encoded", what, n.Obj().Name())
		}
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i].Obj().Name() < ns[j].Obj().Name() })
	for _, n := range ns {
		who := what + ", message " + n.Obj().Name()
		bad := func(format string, a ...any) {
			m := fmt.Sprintf(format, a...)
			r.FailAt(who+":"+m, what, "%s: %s", who, m)
		}
		if cw.dec[n] == nil {
			bad("is encoded, but not decoded")
			continue
		}
		r.Count("messages encoded and decoded", 1)
		e := r.encoding(x, n, cw.enc[n], bad)
		d := r.decoding(x, n, cw.dec[n], bad)
		e.name = n.Obj().Name()
		out = append(out, e)
		r.mirror(e, d, n, bad)
	}
	return
}

func wireItems(m map[wireItem]bool) string {
	var l []string
	for i := range m {
		l = append(l, i.field+" as "+i.how)
	}
	sort.Strings(l)
	return strings.Join(l, " or ")
}

// encoded is how a value of that kind travels, by its type and format.
func (d *codecDoc) encoded(kind string, payload bool) string {
	k := codecKinds[kind]
	f := k["format"]
	switch k["type"] {
	case "string":
		switch {
		case f == "date" && !d.ignore:
			return "date"
		case f == "date-time" && !d.ignore:
			return "time in " + time.RFC3339
		}
		return "text"
	case "integer":
		if f == "int32" && payload {
			return "int32, bigEndian 32 bits"
		} else if payload {
			return "int64, bigEndian 64 bits"
		}
	case "number":
		if f == "float" && payload {
			return "float32, bigEndian 32 bits"
		} else if payload {
			return "float64, bigEndian 64 bits"
		}
	}
	return "JSON"
}

func wireHows(m map[wireItem]bool) string {
	var l []string
	for i := range m {
		l = append(l, i.how)
	}
	sort.Strings(l)
	return strings.Join(l, " or ")
}

func (r *Report) mirror(e, d *wireSide, n *types.Named, bad func(string, ...any)) {
	if a, b := wireItems(e.payload), wireItems(d.payload); a != b || len(e.payload) != 1 {
		bad("the payload is written %s, and read %s", a, b)
	}
	r.Count("payloads mirrored", 1)
	keys := map[string]bool{}
	for k := range e.headers {
		keys[k] = true
	}
	for k := range d.headers {
		keys[k] = true
	}
	fields := map[string]string{}
	for _, k := range sortedKeys(keys) {
		r.Count("headers mirrored", 1)
		a, b := wireItems(e.headers[k]), wireItems(d.headers[k])
		if a != b || len(e.headers[k]) != 1 {
			bad("header %q is written %s, and read %s", k, a, b)
		}
		for it := range e.headers[k] {
			if o, ok := fields[it.field]; ok {
				bad("headers %q and %q are the same field", o, k)
			}
			fields[it.field] = k
		}
	}
	// every field travels
	st := structOf(n)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() != "Headers" {
			continue
		}
		hs, ok := st.Field(i).Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for j := 0; j < hs.NumFields(); j++ {
			if reflect.StructTag(hs.Tag(j)).Get("json") == "-" {
				continue
			}
			if _, ok := fields["Headers."+hs.Field(j).Name()]; !ok {
				bad("header field %s does not travel", hs.Field(j).Name())
			}
		}
	}
}

// fieldPath names the place of a value in the message.
func msgPath(t, root *Term) (string, bool) {
	var names []string
	for t != root {
		switch t.Op {
		case "field", "fieldaddr":
			if t.Obj == nil {
				return "", false
			}
			names = append([]string{t.Obj.Name()}, names...)
			t = t.Args[0]
		case "load":
			t = t.Args[0]
		case "havoc":
			t = t.Args[0]
		default:
			return "", false
		}
	}
	return strings.Join(names, "."), true
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// scalar describes a number type.
func scalar(t types.Type) string {
	if t == nil {
		return "?"
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return "?"
	}
	switch b.Kind() {
	case types.Int32, types.Int64, types.Float32, types.Float64, types.Int, types.Int16, types.Uint32, types.Uint64:
		return b.Name()
	}
	return "?"
}

func callName(t *Term) string {
	if t.Op == "extract" {
		t = t.Args[0]
	}
	if t.Op == "call" && t.Obj != nil {
		return objName(t)
	}
	return ""
}

func callOf(t *Term) *Term {
	if t.Op == "extract" {
		return t.Args[0]
	}
	return t
}

// callArgs are the arguments of the call a value comes from.
func callArgs(tr *Trace, t *Term) []*Term {
	t = callOf(t)
	for _, e := range tr.Events {
		if e.Kind == EvCall && e.Res == t {
			return e.Args
		}
	}
	return t.Args
}

func uncast(t *Term) *Term {
	for t.Op == "convert" {
		t = t.Args[0]
	}
	return t
}

var bitsFuncs = map[string]string{"math.Float32bits": "float32", "math.Float64bits": "float64"}

// encodingOf describes the bytes v of an encoded message.
func encodingOf(tr *Trace, v, msg *Term) (it wireItem) {
	it.how = "unknown"
	set := func(src *Term, how string) {
		if p, ok := msgPath(src, msg); ok {
			it = wireItem{p, how}
		}
	}
	switch name := callName(v); {
	case name == "encoding/json.Marshal":
		set(callArgs(tr, v)[0], "JSON")
		return
	case strings.HasPrefix(name, "(encoding/binary.") && strings.Contains(name, ").AppendUint"):
		if a := callArgs(tr, v); a[1].IsNil() || a[1].Op == "list" && len(a[1].Args) == 0 {
			encodeInt(name, "AppendUint", a[2], tr, set)
		}
		return
	}
	if v.Op == "convert" && isBytes(v.Typ) {
		s := v.Args[0]
		switch name := callName(s); name {
		case "(cloud.google.com/go/civil.Date).String":
			set(callArgs(tr, s)[0], "date")
		case "(time.Time).Format":
			a := callArgs(tr, s)
			if l, ok := a[1].StrVal(); ok {
				set(a[0], "time in "+l)
			}
		default:
			set(uncast(s), "text")
		}
		return
	}
	for _, e := range tr.Events {
		if e.Kind == EvCall && e.Obj != nil && len(e.Args) == 3 && e.Args[1] == v && strings.Contains(e.Name(), ").PutUint") {
			if n := v.Len(); n >= 0 {
				encodeInt(e.Name(), "PutUint", e.Args[2], tr, func(src *Term, how string) {
					if !strings.Contains(how, fmt.Sprintf(" %d bits", n*8)) {
						how += fmt.Sprintf(" in %d bytes", n)
					}
					set(src, how)
				})
			}
		}
	}
	return
}

// Len is the length of a slice of known length, or -1.
func (t *Term) Len() int {
	if t.Op == "list" {
		return len(t.Args)
	}
	return -1
}

func encodeInt(name, fn string, v *Term, tr *Trace, set func(*Term, string)) {
	order, width, _ := strings.Cut(strings.TrimPrefix(name, "(encoding/binary."), ")."+fn)
	least := 64
	// down to the field, and how many bits are left on the way
	down := func() {
		for v.Op == "convert" {
			least = min(least, bitsOf(v.Typ))
			v = v.Args[0]
		}
	}
	down()
	if _, ok := bitsFuncs[callName(v)]; ok {
		if strings.HasSuffix(callName(v), "32bits") {
			least = min(least, 32)
		}
		v = callArgs(tr, v)[0]
		down()
	}
	how := fmt.Sprintf("%s, %s %s bits", scalar(v.Typ), order, width)
	if n := bitsOf(v.Typ); least < n || fmt.Sprint(n) != width {
		how += ", cut"
	}
	set(v, how)
}

func bitsOf(t types.Type) int {
	switch s := scalar(t); {
	case strings.HasSuffix(s, "32"):
		return 32
	case strings.HasSuffix(s, "16"):
		return 16
	}
	return 64
}

// decodingOf describes how a value was made from the bytes of a message.
func (in *Interp) decodingOf(tr *Trace, v *Term, bytes func(*Term) (string, bool)) (key, how string) {
	c := &Config{mem: tr.Mem, facts: tr.Facts}
	for i := 0; i < 4 && v.Op == "alloc"; i++ {
		v = in.Load(c, v, elemType(v.Typ))
	}
	if v.Op == "havoc" && len(v.Args) > 1 && callName(v.Args[1]) == "encoding/json.Unmarshal" {
		if k, ok := bytes(callArgs(tr, v.Args[1])[0]); ok {
			return k, "JSON"
		}
		return "", "unknown"
	}
	typ := v.Typ
	v = uncast(v)
	if k, ok := bytes(v); ok {
		if typ != nil {
			if b, isB := typ.Underlying().(*types.Basic); isB && b.Info()&types.IsString != 0 {
				return k, "text"
			}
		}
		return k, "unknown"
	}
	a := callArgs(tr, v)
	name := callName(v)
	switch name {
	case "cloud.google.com/go/civil.ParseDate":
		if k, ok := bytes(uncast(a[0])); ok {
			return k, "date"
		}
	case "time.Parse":
		if l, ok := a[0].StrVal(); ok {
			if k, ok := bytes(uncast(a[1])); ok {
				return k, "time in " + layout(l)
			}
		}
	case "math.Float32frombits", "math.Float64frombits":
		b := a[0]
		if k, how := decodeInt(tr, b, bytes); k != "" {
			return k, strings.ToLower(name[len("math."):len("math.Float32")]) + ", " + how
		}
	default:
		if k, how := decodeInt(tr, v, bytes); k != "" {
			return k, scalar(typ) + ", " + how
		}
	}
	return "", "unknown"
}

func decodeInt(tr *Trace, b *Term, bytes func(*Term) (string, bool)) (key, how string) {
	b = uncast(b)
	name := callName(b)
	order, width, ok := strings.Cut(strings.TrimPrefix(name, "(encoding/binary."), ").Uint")
	if a := callArgs(tr, b); ok && len(a) == 2 {
		if k, ok := bytes(a[1]); ok {
			return k, fmt.Sprintf("%s %s bits", order, width)
		}
	}
	return "", ""
}

func (r *Report) codecInterp() *Interp {
	in := r.Interp()
	in.Derefs = true
	return in
}

// errorsKept: on the path, every error is nil or returned.
func errorsKept(t *Trace) (lost string, failed bool) {
	if len(t.Ret) == 0 {
		return "", false
	}
	ret := t.Ret[len(t.Ret)-1]
	isNil, known := t.errNil(ret)
	if ret.IsNil() {
		isNil, known = true, true
	}
	failed = !(known && isNil)
	for _, e := range t.Events {
		if e.Kind != EvCall || e.Obj == nil {
			continue
		}
		sig, ok := e.Obj.Type().(*types.Signature)
		if !ok || sig.Results().Len() == 0 || !isErrType(sig.Results().At(sig.Results().Len()-1).Type()) || e.Name() == "fmt.Errorf" || strings.HasPrefix(e.Name(), "errors.") {
			continue
		}
		err := e.Res
		if n := sig.Results().Len(); n > 1 {
			err = t.in.T.mk("extract", fmt.Sprint(n-1), sig.Results().At(n-1).Type(), e.Res)
		}
		if failed {
			continue
		}
		if n, k := t.errNil(err); !k || !n {
			return fmt.Sprintf("the error of %s is not returned", e.Name()), failed
		}
	}
	return "", failed
}

func (r *Report) encoding(x *Expansion, n *types.Named, f *ssa.Function, bad func(string, ...any)) *wireSide {
	s := &wireSide{payload: map[wireItem]bool{}, headers: map[string]map[wireItem]bool{}, always: map[string]bool{}, cond: map[string]bool{}}
	in := r.codecInterp()
	msg := in.T.Sym("nonnil:msg:"+x.Pkg.Path()+"."+n.Obj().Name(), f.Params[0].Type())
	c := &Config{mem: map[*Term]*Term{}, facts: map[*Term]bool{}}
	ok := 0
	missed := map[string]bool{}
	type run struct{ has map[string]bool }
	var runs []run
	var traces []*Trace
	for _, t := range in.Run(f, []*Term{msg}, nil, c) {
		if t.Exit != "return" || len(t.Ret) != 2 {
			bad("encoding it does not end normally")
			continue
		}
		if w := in.wildAccess(t); w != "" {
			bad("encoding it crashes: %s", w)
			continue
		}
		lost, failed := errorsKept(t)
		if lost != "" {
			bad("encoding it, %s", lost)
		}
		if failed {
			continue
		}
		ok++
		r.Count("paths of encoders", 1)
		res := t.Ret[0]
		var payload, headers *Term
		if st := structOf(f.Signature.Results().At(0).Type()); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				v := in.T.Field(res, f.Signature.Results().At(0).Type(), i)
				switch st.Field(i).Name() {
				case "Payload":
					payload = v
				case "Headers":
					headers = v
				}
			}
		}
		if payload == nil || headers == nil {
			bad("what is encoded has no payload or headers")
			continue
		}
		s.payload[encodingOf(t, payload, msg)] = true
		has := map[string]bool{}
		for k, v := range t.Mem {
			if k.Op != "mapcell" || k.Args[0] != headers || v.Op == "absent" {
				continue
			}
			key, isC := k.Args[1].StrVal()
			if !isC {
				bad("a header is written under a key that is not known")
				continue
			}
			has[key] = true
			if s.headers[key] == nil {
				s.headers[key] = map[wireItem]bool{}
			}
			s.headers[key][encodingOf(t, v, msg)] = true
			s.cond[key] = true
		}
		runs = append(runs, run{has})
		traces = append(traces, t)
	}
	if ok == 0 {
		bad("encoding it never succeeds")
	}
	// a header is left out exactly when it is absent
	for k := range s.cond {
		s.always[k] = true
		for i, u := range runs {
			var field *Term
			for it := range s.headers[k] {
				field = in.messageField(msg, f.Params[0].Type(), it.field)
			}
			if !u.has[k] {
				s.always[k] = false
				missed[k] = true
				if field == nil {
					continue
				}
				if isNil, known := traces[i].IsNilTerm(field); !known || !isNil {
					bad("header %q may be left out although it is present", k)
				}
			}
		}
	}
	return s
}

// messageField is the value of a field of a message.
func (in *Interp) messageField(msg *Term, typ types.Type, path string) *Term {
	v := msg
	for _, p := range strings.Split(path, ".") {
		if pt, ok := typ.Underlying().(*types.Pointer); ok {
			typ = pt.Elem()
			v = in.T.mkLoad(v, typ)
		}
		st := structOf(typ)
		if st == nil {
			return nil
		}
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == p {
				v = in.T.Field(v, typ, i)
				typ = st.Field(i).Type()
				found = true
				break
			}
		}
		if !found {
			return nil
		}
	}
	return v
}

func (r *Report) decoding(x *Expansion, n *types.Named, f *ssa.Function, bad func(string, ...any)) *wireSide {
	s := &wireSide{payload: map[wireItem]bool{}, headers: map[string]map[wireItem]bool{}}
	in := r.codecInterp()
	typ := f.Params[0].Type()
	b := in.T.Sym("bMsg", typ)
	var bPayload, bHeaders *Term
	st := structOf(typ)
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "Payload":
			bPayload = in.T.Field(b, typ, i)
		case "Headers":
			bHeaders = in.T.Field(b, typ, i)
		}
	}
	ok := 0
	for _, t := range in.Run(f, []*Term{b}, nil, &Config{mem: map[*Term]*Term{}, facts: map[*Term]bool{}}) {
		if t.Exit == "truncated" {
			continue // more rounds than followed
		}
		if t.Exit != "return" || len(t.Ret) != 2 {
			bad("decoding it does not end normally")
			continue
		}
		lost, failed := errorsKept(t)
		if lost != "" {
			bad("decoding it, %s", lost)
		}
		if failed {
			continue
		}
		ok++
		r.Count("paths of decoders", 1)
		// the keys met on the path, by the value they came with
		key := map[*Term]string{}
		var order []*Term
		for _, e := range t.Events {
			switch {
			case e.Kind == EvBranch:
				x, taken := e.Cond, e.Taken
				if x.Op == "not" {
					x, taken = x.Args[0], !taken
				}
				if x.Op != "eq" || !taken {
					continue
				}
				for i := 0; i < 2; i++ {
					k, isC := x.Args[1-i].StrVal()
					if nk := x.Args[i]; isC && nk.Op == "nextkey" && rangeOver(nk) == bHeaders {
						key[nk.Args[0]] = k
						order = append(order, nk.Args[0])
					}
				}
			}
		}
		bytes := func(v *Term) (string, bool) {
			switch {
			case v == bPayload:
				return "the payload", true
			case v.Op == "nextval" && rangeOver(v) == bHeaders:
				if k, ok := key[v.Args[0]]; ok {
					return "header " + k, true
				}
			case v.Op == "lookup" && v.Args[0] == bHeaders:
				if k, ok := v.Args[1].StrVal(); ok {
					return "header " + k, true
				}
			}
			return "", false
		}
		got := map[string]bool{}
		in.leaves(t, t.Ret[0], n, "", func(path string, v *Term) {
			if v.Op == "zero" || v.IsNil() || v.IsConst() && v.C.Kind() != constant.Unknown {
				return
			}
			k, how := in.decodingOf(t, v, bytes)
			got[k] = true
			if k == "the payload" {
				s.payload[wireItem{path, how}] = true
			} else if h, ok := strings.CutPrefix(k, "header "); ok {
				if s.headers[h] == nil {
					s.headers[h] = map[wireItem]bool{}
				}
				s.headers[h][wireItem{path, how}] = true
			} else {
				bad("%s is decoded from something that is not the payload nor a header", path)
			}
		})
		if !got["the payload"] {
			bad("the payload may not be decoded although there is no error")
		}
		for _, nx := range order {
			if !got["header "+key[nx]] {
				bad("header %q may not be decoded although there is no error", key[nx])
			}
		}
		for _, e := range t.Events {
			if e.Kind == EvLookup && e.Addr == bHeaders && e.Res != nil {
				if k, ok := e.Args[0].StrVal(); ok {
					if has, known := t.Fact(e.Res); known && has && !got["header "+k] {
						bad("header %q may not be decoded although there is no error", k)
					}
				}
			}
		}
	}
	if ok == 0 {
		bad("decoding it never succeeds")
	}
	return s
}

func rangeOver(t *Term) *Term {
	if len(t.Args) > 0 && t.Args[0].Op == "next" && t.Args[0].Args[0].Op == "range" {
		return t.Args[0].Args[0].Args[0]
	}
	return nil
}

// leaves goes through what a decoded message holds: the payload and each header.
func (in *Interp) leaves(t *Trace, v *Term, typ types.Type, path string, f func(string, *Term)) {
	st := structOf(typ)
	if st == nil || v.Op == "zero" || v.Op == "havoc" {
		f(path, v)
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		x := in.T.Field(v, typ, i)
		p := st.Field(i).Name()
		if path != "" {
			p = path + "." + p
		}
		if path == "" && st.Field(i).Name() == "Headers" {
			in.leaves(t, x, st.Field(i).Type(), p, f)
			continue
		}
		f(p, x)
	}
}

// ---- C21 --------------------------------------------------------------------

func ruleDecoders(r *Report) {
	docs, xs := r.codecExpansions()
	for i, d := range docs {
		if xs[i] != nil {
			r.decoders(xs[i], d.String())
		}
	}
	for _, x := range r.expansions(nil) {
		r.decoders(x, x.Shape.key())
	}
	r.Floor("decoders", 800)
	r.Floor("unmarshalling methods", 200)
	r.Floor("paths of decoders", 5000)
}

func (r *Report) decoders(x *Expansion, what string) {
	if x.Pkg == nil {
		return
	}
	cw := r.W.controllers(x)
	var fs []*ssa.Function
	for _, f := range cw.dec {
		fs = append(fs, f)
		r.Count("decoders", 1)
	}
	for _, name := range x.Pkg.Scope().Names() {
		tn, ok := x.Pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		if _, isI := tn.Type().Underlying().(*types.Interface); isI {
			continue
		}
		for _, m := range []string{"UnmarshalJSON", "UnmarshalText"} {
			if f := r.W.methodOf(types.NewPointer(tn.Type()), m); f != nil && f.Pkg != nil && f.Pkg.Pkg == x.Pkg && f.Synthetic == "" {
				fs = append(fs, f)
				r.Count("unmarshalling methods", 1)
			}
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		in := r.codecInterp()
		in.Traps = true
		var args []*Term
		for i, p := range f.Params {
			n := p.Name()
			if i == 0 && f.Signature.Recv() != nil {
				n = "nonnil:" + n
			}
			args = append(args, in.T.Sym(n+"@"+x.Pkg.Path()+"."+f.String(), p.Type()))
		}
		bad := func(format string, a ...any) {
			m := fmt.Sprintf(format, a...)
			r.FailAt(what+":"+f.Name()+":"+m, what, "%s: %s: %s", what, f.Name(), m)
		}
		seen := map[string]bool{}
		ok := 0
		for _, t := range in.Run(f, args, nil, &Config{mem: map[*Term]*Term{}, facts: map[*Term]bool{}}) {
			r.Count("paths of decoders", 1)
			for _, e := range t.Events {
				if e.Kind == EvTrap && !seen[e.Val.String()] {
					seen[e.Val.String()] = true
					s, _ := e.Val.StrVal()
					bad("may crash: %s", s)
				}
			}
			if w := in.wildAccess(t); w != "" && !seen[w] {
				seen[w] = true
				bad("may crash: %s", w)
			}
			if t.Exit == "truncated" {
				continue // more rounds than followed
			}
			lost, failed := errorsKept(t)
			if lost != "" && !seen[lost] {
				seen[lost] = true
				bad("%s", lost)
			}
			if !failed {
				ok++
			}
		}
		if ok == 0 {
			bad("never succeeds")
		}
	}
}

func objName(t *Term) string {
	if f, ok := t.Obj.(*types.Func); ok {
		return f.FullName()
	}
	return ""
}

// layout gives one name to the layouts that read the same times.
func layout(l string) string {
	if l == time.RFC3339Nano {
		return time.RFC3339
	}
	return l
}
