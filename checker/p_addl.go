package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C22: additional properties go through JSON in both directions. The methods generated
// for objects that allow them are interpreted along all their paths: the text made by
// MarshalJSON is put together from its pieces and must be the declared object with one
// member for each additional property; what UnmarshalJSON leaves must hold the declared
// properties, and exactly the others in the additional ones.

func init() {
	register("C22", "constant propagation of the generator over documents with additional properties of every kind, beside no, one or several declared properties, in every place where objects are generated, with every key conversion; then path-sensitive interpretation of the folded MarshalJSON and UnmarshalJSON: the text is decomposed into pieces whose grammar is checked (also when nothing is declared or set), and each undeclared key must be kept with its value, each declared one left to its field", ruleAddl)
}

type addlCase struct {
	declared int // how many properties are declared
	kind     string
	ref      bool
	place    string
	keys     []string
}

type addlDoc struct {
	major int
	conv  string
	force bool
	cases []*addlCase
}

func (d *addlDoc) String() string {
	s := fmt.Sprintf("v%d, keys %s", d.major, d.conv)
	if d.force {
		s += ", forced pointers"
	}
	return s
}

func (c *addlCase) String() string {
	s := fmt.Sprintf("%d declared properties and additional %s", c.declared, c.kind)
	if c.ref {
		s += " by reference"
	}
	return s + " in " + c.place
}

func addlDocs() (out []*addlDoc) {
	for _, major := range []int{2, 3} {
		for _, conv := range []string{"none", "snake", "kebab", "camel"} {
			for _, force := range []bool{false, true} {
				if force && conv != "none" {
					continue
				}
				d := &addlDoc{major: major, conv: conv, force: force}
				n := 0
				for _, place := range []string{"payload", "component", "property", "items", "additional", "allOf", "referenced allOf"} {
					for _, declared := range []int{0, 1, 3} {
						for _, kind := range []string{"string", "integer", "number", "boolean", "object", "array", "date-time", "objects", "enum", "int32"} {
							for _, ref := range []bool{false, true} {
								if place != "payload" && !strings.HasSuffix(place, "allOf") && (n+declared)%2 == 0 && kind != "string" && kind != "object" {
									n++
									continue
								}
								c := &addlCase{declared: declared, kind: kind, ref: ref, place: place}
								for i := 0; i < declared; i++ {
									c.keys = append(c.keys, fmt.Sprintf("q%c%c%cField", 'a'+n/26, 'a'+n%26, 'a'+i))
								}
								n++
								d.cases = append(d.cases, c)
							}
						}
					}
				}
				out = append(out, d)
			}
		}
	}
	return
}

func (d *addlDoc) shape(i int) Shape {
	schemas, channels, ops := doc{}, doc{}, doc{}
	for k, c := range d.cases {
		name := fmt.Sprintf("msg%c%c", 'a'+k/26, 'a'+k%26)
		add := copyDoc(codecKinds[c.kind])
		if c.ref {
			schemas[name+"Value"] = add
			add = doc{"$ref": "#/components/schemas/" + name + "Value"}
		}
		props, req := doc{}, []any{}
		for j, key := range c.keys {
			p := []doc{{"type": "string"}, {"type": "integer"}, {"type": "array", "items": doc{"type": "string"}}}[j%3]
			if j == 0 && c.ref {
				req = append(req, key)
			}
			props[key] = p
		}
		s := doc{"type": "object", "properties": props, "additionalProperties": add}
		if len(req) > 0 {
			s["required"] = req
		}
		payload := s
		switch c.place {
		case "component":
			schemas[name+"Object"] = s
			payload = doc{"$ref": "#/components/schemas/" + name + "Object"}
		case "property":
			payload = doc{"type": "object", "properties": doc{"nested": s}}
		case "items":
			payload = doc{"type": "object", "properties": doc{"list": doc{"type": "array", "items": s}}}
		case "additional":
			payload = doc{"type": "object", "properties": doc{"own": doc{"type": "string"}}, "additionalProperties": s}
		case "allOf", "referenced allOf":
			parts := doc{"type": "object", "properties": props}
			if len(req) > 0 {
				parts["required"] = req
			}
			rest := doc{"type": "object", "additionalProperties": add}
			if c.place == "referenced allOf" {
				schemas[name+"Rest"] = rest
				rest = doc{"$ref": "#/components/schemas/" + name + "Rest"}
			}
			payload = doc{"type": "object", "allOf": []any{parts, rest}}
		}
		msg := doc{"payload": payload}
		if d.major == 2 {
			channels[name] = doc{"publish": doc{"message": msg}}
		} else {
			channels[name] = doc{"address": name, "messages": doc{name: msg}}
			ops["on"+name] = doc{"action": "receive", "channel": doc{"$ref": "#/channels/" + name}}
		}
	}
	out := doc{"info": doc{"title": "T", "version": "1.0.0"}, "channels": channels, "components": doc{"schemas": schemas}}
	if d.major == 2 {
		out["asyncapi"] = "2.6.0"
	} else {
		out["asyncapi"] = "3.0.0"
		out["operations"] = ops
	}
	return Shape{Name: fmt.Sprintf("additional-%d", i), Major: d.major, Doc: out, Opts: func(o map[string]any) {
		o["ForcePointers"], o["ConvertKeys"] = d.force, d.conv
	}, Targets: []string{"Types"}}
}

func (d *addlDoc) key(s string) string {
	switch d.conv {
	case "snake":
		return strings.Replace(s, "Field", "_field", 1)
	case "kebab":
		return strings.Replace(s, "Field", "-field", 1)
	case "camel":
		return strings.ToUpper(s[:1]) + s[1:]
	}
	return s
}

func ruleAddl(r *Report) {
	docs := addlDocs()
	xs := make([]*Expansion, len(docs))
	parallel(len(docs), func(i int) { xs[i] = r.W.foldShape(docs[i].shape(i)) })
	for i, d := range docs {
		x := xs[i]
		if x.Err == nil && x.Panic == nil {
			r.W.typecheck(x, fmt.Sprintf("gen/%s.v%d", x.Shape.Name, x.Shape.Major))
		}
		if x.Err != nil || x.Panic != nil || len(x.TypeErr) > 0 {
			r.FailAt("case:"+d.String(), "-", "%s: the generation fails, or what it gives does not compile: %v %v", d, x.Err, x.TypeErr)
			continue
		}
		objs := r.additional(x, d.String())
		for _, c := range d.cases {
			r.Count("objects compared with their document", 1)
			var found *addlObject
			var want []string
			for _, k := range c.keys {
				want = append(want, d.key(k))
			}
			sort.Strings(want)
			for _, o := range objs {
				if strings.Join(o.keys, " ") == strings.Join(want, " ") && (len(want) > 0 || o.elem == addlGoType(c.kind)) {
					found = o
				}
			}
			if found == nil {
				r.FailAt("lost:"+d.String()+":"+c.String(), x.Shape.key(), "%s: no generated type has additional properties for an object with %s", d, c)
				continue
			}
			if w := addlGoType(c.kind); found.elem != w {
				r.FailAt("type:"+d.String()+":"+c.String(), x.Shape.key(), "%s: the additional properties of an object with %s are %s", d, c, found.elem)
			}
		}
	}
	for _, x := range r.expansions(nil) {
		r.additional(x, x.Shape.key())
	}
	r.Floor("objects compared with their document", 1000)
	r.Floor("objects with additional properties", 1500)
	r.Floor("paths of MarshalJSON", 5000)
	r.Floor("paths of UnmarshalJSON", 5000)
}

// addlGoType is how the kind shows, in short.
func addlGoType(kind string) string {
	switch kind {
	case "string", "enum":
		return "string"
	case "integer":
		return "int64"
	case "int32":
		return "int32"
	case "number":
		return "float64"
	case "boolean":
		return "bool"
	case "object":
		return "struct{inner}"
	case "array":
		return "[]string"
	case "objects":
		return "[]struct{inner}"
	case "date-time":
		return "time.Time"
	}
	return kind
}

func goTypeShort(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" {
		return "time.Time"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Name()
	case *types.Slice:
		return "[]" + goTypeShort(u.Elem())
	case *types.Pointer:
		return "*" + goTypeShort(u.Elem())
	case *types.Struct:
		// a type made of a time has its own methods
		if u.NumFields() > 0 && u.Field(0).Pkg() != nil && u.Field(0).Pkg().Path() == "time" {
			return "time.Time"
		}
		var l []string
		for i := 0; i < u.NumFields(); i++ {
			n, _, _ := strings.Cut(reflect.StructTag(u.Tag(i)).Get("json"), ",")
			l = append(l, strings.ToLower(n))
		}
		return "struct{" + strings.Join(l, " ") + "}"
	}
	return t.String()
}

// addlObject is a generated object that has additional properties.
type addlObject struct {
	named *types.Named
	keys  []string // of the declared properties
	elem  string
	field int
	names map[string]int // declared key -> field
}

// additional checks the objects of an expansion that have additional properties.
func (r *Report) additional(x *Expansion, what string) (out []*addlObject) {
	if x.Pkg == nil {
		return
	}
	for _, name := range x.Pkg.Scope().Names() {
		tn, ok := x.Pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		n, _ := tn.Type().(*types.Named)
		st, isS := tn.Type().Underlying().(*types.Struct)
		if n == nil || !isS {
			continue
		}
		o := &addlObject{named: n, field: -1, names: map[string]int{}}
		for i := 0; i < st.NumFields(); i++ {
			key, _, _ := strings.Cut(reflect.StructTag(st.Tag(i)).Get("json"), ",")
			if m, ok := st.Field(i).Type().Underlying().(*types.Map); ok && st.Field(i).Name() == "AdditionalProperties" {
				if key != "-" {
					r.FailAt(what+":"+name+":tag", what, "%s: the additional properties of %s are encoded as a property", what, name)
				}
				o.field = i
				o.elem = goTypeShort(m.Elem())
				continue
			}
			if key != "" && key != "-" {
				o.keys = append(o.keys, key)
				o.names[key] = i
			}
		}
		if o.field < 0 {
			continue
		}
		sort.Strings(o.keys)
		r.Count("objects with additional properties", 1)
		out = append(out, o)
		seen := map[string]bool{}
		bad := func(format string, a ...any) {
			m := fmt.Sprintf(format, a...)
			if !seen[m] {
				seen[m] = true
				r.FailAt(what+":"+name+":"+m, what, "%s: %s: %s", what, name, m)
			}
		}
		m := r.W.methodOf(n, "MarshalJSON")
		u := r.W.methodOf(types.NewPointer(n), "UnmarshalJSON")
		if m == nil || u == nil {
			bad("has no MarshalJSON on its values, or no UnmarshalJSON")
			continue
		}
		r.marshalling(x, o, m, bad)
		r.unmarshalling(x, o, u, bad)
	}
	return
}

// plainJSON: the value given to encoding/json has no such method of its own, whatever its
// underlying type.
func plainJSON(e *Event, arg int, method string) bool {
	c, ok := e.Instr.(ssa.CallInstruction)
	if !ok || arg >= len(c.Common().Args) {
		return false
	}
	mi, ok := c.Common().Args[arg].(*ssa.MakeInterface)
	if !ok {
		return false
	}
	t := mi.X.Type()
	return types.NewMethodSet(t).Lookup(nil, method) == nil
}

// piece of a text.
type piece struct {
	lit  string
	json *Term // the JSON of a value
	trim *Term // the JSON of a value, without its last byte
	any  string
}

func (p piece) String() string {
	switch {
	case p.json != nil:
		return "json(" + p.json.String() + ")"
	case p.trim != nil:
		return "open(" + p.trim.String() + ")"
	case p.any != "":
		return "?" + p.any
	}
	return fmt.Sprintf("%q", p.lit)
}

// pieces decomposes a text.
func pieces(in *Interp, tr *Trace, t *Term) (out []piece) {
	add := func(ps ...piece) {
		for _, p := range ps {
			if p.lit == "" && p.json == nil && p.trim == nil && p.any == "" {
				continue
			}
			if n := len(out); n > 0 && p.json == nil && p.trim == nil && p.any == "" && out[n-1].json == nil && out[n-1].trim == nil && out[n-1].any == "" {
				out[n-1].lit += p.lit
				continue
			}
			out = append(out, p)
		}
	}
	if s, ok := t.StrVal(); ok {
		return []piece{{lit: s}}
	}
	switch t.Op {
	case "nil":
		return
	case "append":
		add(pieces(in, tr, t.Args[0])...)
		add(pieces(in, tr, t.Args[1])...)
		return
	case "binop":
		if t.Aux == "+" {
			add(pieces(in, tr, t.Args[0])...)
			add(pieces(in, tr, t.Args[1])...)
			return
		}
	case "convert":
		return pieces(in, tr, t.Args[0])
	case "text":
		return pieces(in, tr, t.Args[0])
	case "list":
		for _, a := range t.Args {
			k, ok := a.Int()
			if !ok {
				add(piece{any: a.String()})
				continue
			}
			add(piece{lit: string(rune(k))})
		}
		return
	case "slice":
		if ps := pieces(in, tr, t.Args[0]); len(ps) == 1 && ps[0].json != nil && (t.Args[1] == nil || isZero(t.Args[1])) && t.Args[2] != nil {
			if end, d, ok := in.bound(t.Args[2], t.Args[0]); ok && end && d == 1 {
				return []piece{{trim: ps[0].json}}
			}
		}
	case "extract", "call":
		switch name := callName(t); name {
		case "encoding/json.Marshal":
			return []piece{{json: callArgs(tr, t)[0]}}
		case "bytes.TrimSuffix", "strings.TrimSuffix":
			a := callArgs(tr, t)
			ps, cut := pieces(in, tr, a[0]), pieces(in, tr, a[1])
			if len(ps) == 1 && ps[0].json != nil && len(cut) == 1 && cut[0].lit == "}" {
				return []piece{{trim: ps[0].json}}
			}
		case "fmt.Sprintf", "fmt.Appendf":
			a := callArgs(tr, t)
			if name == "fmt.Appendf" {
				add(pieces(in, tr, a[0])...)
				a = a[1:]
			}
			f, ok := a[0].StrVal()
			if !ok || len(a) < 2 || a[1].Op != "list" {
				break
			}
			k := 0
			for f != "" {
				i := strings.IndexByte(f, '%')
				if i < 0 || i+1 >= len(f) {
					add(piece{lit: f})
					break
				}
				add(piece{lit: f[:i]})
				switch verb := f[i+1]; {
				case verb == '%':
					add(piece{lit: "%"})
				case verb == 's' && k < len(a[1].Args):
					add(pieces(in, tr, a[1].Args[k])...)
					k++
				default:
					add(piece{any: f[i : i+2]})
					k++
				}
				f = f[i+2:]
			}
			return
		}
	}
	return []piece{{any: t.String()}}
}

func isZero(t *Term) bool {
	k, ok := t.Int()
	return ok && k == 0
}

// feasible: the path may be the one of a text of n bytes.
func (in *Interp) feasible(tr *Trace, whole *Term, n int64) bool {
	var num func(t *Term) (int64, bool)
	num = func(t *Term) (int64, bool) {
		if k, ok := t.Int(); ok {
			return k, true
		}
		switch t.Op {
		case "len":
			x := t.Args[0]
			if x == whole {
				return n, true
			}
			if x.Op == "slice" && x.Args[0] == whole && (x.Args[1] == nil || isZero(x.Args[1])) {
				return num(x.Args[2])
			}
			if x.Op == "convert" {
				return num(in.T.Len(x.Args[0]))
			}
		case "binop":
			a, ok1 := num(t.Args[0])
			b, ok2 := num(t.Args[1])
			if ok1 && ok2 {
				switch t.Aux {
				case "+":
					return a + b, true
				case "-":
					return a - b, true
				}
			}
		case "elem":
			// the byte before the end of the trimmed object
			if i, ok := num(t.Args[1]); ok {
				x := t.Args[0]
				if x.Op == "slice" {
					x = x.Args[0]
				}
				if x == whole && i == 0 {
					return '{', true
				}
				if x == whole && n == 2 && i == 1 {
					return '}', true
				}
				if x == whole && i == n-2 {
					return 0, true // some byte of a value
				}
			}
		case "convert":
			return num(t.Args[0])
		}
		return 0, false
	}
	var truth func(t *Term) (bool, bool)
	truth = func(t *Term) (bool, bool) {
		switch t.Op {
		case "not":
			v, ok := truth(t.Args[0])
			return !v, ok
		case "eq", "lt":
			a, ok1 := num(t.Args[0])
			b, ok2 := num(t.Args[1])
			if ok1 && ok2 {
				if t.Op == "eq" {
					return a == b, true
				}
				return a < b, true
			}
			for i := 0; i < 2 && t.Op == "eq"; i++ {
				if s, ok := t.Args[i].StrVal(); ok && uncast(t.Args[1-i]) == whole {
					return s == "{}" && n == 2, true
				}
			}
		case "call":
			if callName(t) == "bytes.Equal" {
				a := callArgs(tr, t)
				for i := 0; i < 2; i++ {
					if ps := pieces(in, tr, a[i]); len(ps) == 1 && ps[0].lit == "{}" && a[1-i] == whole {
						return n == 2, true
					}
				}
			}
		}
		return false, false
	}
	for _, e := range tr.Events {
		if e.Kind == EvBranch {
			if v, ok := truth(e.Cond); ok && v != e.Taken {
				return false
			}
		}
	}
	return true
}

func (r *Report) marshalling(x *Expansion, o *addlObject, f *ssa.Function, bad func(string, ...any)) {
	in := r.codecInterp()
	in.MaxForks = 3
	t0 := in.T.Sym("nonnil:t:"+x.Pkg.Path()+"."+o.named.Obj().Name(), f.Params[0].Type())
	self := t0
	if _, isPtr := f.Params[0].Type().(*types.Pointer); isPtr {
		self = in.Load(&Config{mem: map[*Term]*Term{}, facts: map[*Term]bool{}}, t0, o.named)
	}
	extra := in.T.Field(self, o.named, o.field)
	ok := 0
	for _, t := range in.Run(f, []*Term{t0}, nil, &Config{mem: map[*Term]*Term{}, facts: map[*Term]bool{}}) {
		if t.Exit == "truncated" {
			continue
		}
		r.Count("paths of MarshalJSON", 1)
		if w := in.wildAccess(t); w != "" || len(t.Ret) != 2 {
			bad("encoding it crashes: %s", w)
			continue
		}
		lost, failed := errorsKept(t)
		if lost != "" {
			bad("encoding it, %s", lost)
		}
		if failed {
			continue
		}
		ok++
		ps := pieces(in, t, t.Ret[0])
		show := fmt.Sprint(ps)
		if len(ps) < 2 || ps[0].trim != self {
			bad("what is encoded does not start with the declared properties: %s", cut(show, 300))
			continue
		}
		var whole *Term
		for _, e := range t.Events {
			if e.Kind == EvCall && e.Name() == "encoding/json.Marshal" && e.Args[0] == self {
				whole = in.T.mk("extract", "0", nil, e.Res)
				if !plainJSON(e, 0, "MarshalJSON") {
					bad("encoding it calls itself for ever")
				}
			}
		}
		// the entries met on the path, in order
		var rounds []*Term
		for _, e := range t.Events {
			if e.Kind == EvBranch && e.Cond.Op == "nextok" && e.Taken && e.Cond.Args[0].Args[0].Op == "range" && e.Cond.Args[0].Args[0].Args[0] == extra {
				rounds = append(rounds, e.Cond.Args[0])
			}
		}
		ps = ps[1:]
		i, first := 0, true
		for ; i+3 <= len(ps) && len(rounds) > 0; i += 3 {
			// [","] json(key) ":" json(value), the separator being in the literal before
			sep := false
			if ps[i].json == nil && ps[i].lit == "," {
				sep = true
				i++
			}
			if i+2 >= len(ps) || ps[i].json == nil || ps[i+1].lit != ":" || ps[i+2].json == nil {
				bad("what is encoded is not an object: %s", cut(show, 300))
				break
			}
			k, v := ps[i].json, ps[i+2].json
			nx := rounds[0]
			rounds = rounds[1:]
			if k.Op != "nextkey" || k.Args[0] != nx || v.Op != "nextval" || v.Args[0] != nx {
				bad("an additional property is not encoded with its name and value: %s: %s", k, v)
			}
			if !first && !sep {
				bad("there is no comma between additional properties")
			}
			if first {
				if sep && in.feasible(t, whole, 2) {
					bad("the text starts with a comma when no declared property is encoded")
				}
				if !sep && in.feasible(t, whole, 11) {
					bad("there is no comma between the declared and the additional properties")
				}
			}
			first = false
		}
		if len(rounds) > 0 {
			bad("an additional property is not encoded")
		}
		if i != len(ps)-1 || ps[i].lit != "}" {
			bad("what is encoded does not end with the object: %s", cut(show, 300))
		}
	}
	if ok == 0 {
		bad("encoding it never succeeds")
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (r *Report) unmarshalling(x *Expansion, o *addlObject, f *ssa.Function, bad func(string, ...any)) {
	in := r.codecInterp()
	in.Traps = true
	id := x.Pkg.Path() + "." + o.named.Obj().Name()
	t0 := in.T.Sym("nonnil:t:"+id, f.Params[0].Type())
	data := in.T.Sym("data:"+id, f.Params[1].Type())
	ok := 0
	declared := map[string]bool{}
	for _, k := range o.keys {
		declared[k] = true
	}
	for _, t := range in.Run(f, []*Term{t0, data}, nil, &Config{mem: map[*Term]*Term{}, facts: map[*Term]bool{}}) {
		if t.Exit == "truncated" {
			continue
		}
		r.Count("paths of UnmarshalJSON", 1)
		if w := in.wildAccess(t); w != "" || len(t.Ret) != 1 {
			bad("decoding it crashes: %s", w)
			continue
		}
		for _, e := range t.Events {
			if e.Kind == EvTrap {
				bad("decoding it may crash: %s", e.Val)
			}
		}
		lost, failed := errorsKept(t)
		if lost != "" {
			bad("decoding it, %s", lost)
		}
		if failed {
			continue
		}
		ok++
		fromData := func(v *Term) *Event {
			for v.Op == "field" {
				v = v.Args[0]
			}
			if v.Op != "havoc" {
				return nil
			}
			for _, e := range t.Events {
				if e.Kind == EvCall && e.Res == v.Args[1] && e.Name() == "encoding/json.Unmarshal" {
					return e
				}
			}
			return nil
		}
		c := &Config{mem: t.Mem, facts: t.Facts}
		res := in.Load(c, t0, o.named)
		for _, k := range o.keys {
			v := in.T.Field(res, o.named, o.names[k])
			e := fromData(v)
			if e == nil || e.Args[0] != data || v.Op != "field" || v.Obj != structOf(o.named).Field(o.names[k]) && v.Obj.Name() != structOf(o.named).Field(o.names[k]).Name() {
				bad("the declared property %q is not decoded into its field", k)
			} else if !plainJSON(e, 1, "UnmarshalJSON") {
				bad("decoding it calls itself for ever")
			}
		}
		extra := in.T.Field(res, o.named, o.field)
		cells := map[*Term]*Term{}
		for k, v := range t.Mem {
			if k.Op == "mapcell" && k.Args[0] == extra && v.Op != "absent" {
				cells[k.Args[1]] = v
			}
		}
		// the properties met on the path
		for _, e := range t.Events {
			if e.Kind != EvBranch || e.Cond.Op != "nextok" || !e.Taken {
				continue
			}
			nx := e.Cond.Args[0]
			m := nx.Args[0].Args[0]
			if d := fromData(m); d == nil || d.Args[0] != data {
				bad("what is gone through is not what was received")
				continue
			}
			key := in.T.mk("nextkey", "", types.Typ[types.String], nx)
			is, not := "", map[string]bool{}
			for f, v := range t.Facts {
				if f.Op != "eq" {
					continue
				}
				for i := 0; i < 2; i++ {
					if s, isC := f.Args[1-i].StrVal(); isC && f.Args[i] == key {
						if v {
							is = s
						} else {
							not[s] = true
						}
					}
				}
			}
			v, kept := cells[key]
			switch {
			case is != "" && declared[is] && kept:
				bad("the declared property %q is also an additional one", is)
			case !kept && (is == "" || !declared[is]):
				if is == "" {
					bad("an undeclared property may be lost")
				} else {
					bad("the property %q is lost", is)
				}
			case kept && is == "":
				for k := range declared {
					if !not[k] {
						bad("the declared property %q may also be an additional one", k)
					}
				}
			}
			if kept {
				d := fromData(v)
				if d == nil || d.Args[0].Op != "nextval" || d.Args[0].Args[0] != nx {
					bad("an additional property has not the value received under its name")
				}
			}
		}
	}
	if ok == 0 {
		bad("decoding it never succeeds")
	}
}
