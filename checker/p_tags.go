package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

// C33: what a schema says about its properties shows in the tags and types of the
// generated fields. The generator is folded over documents whose properties go through
// the constraints, alone and together, required or not, with each option that shows in
// tags, in every place where properties are generated; every field of the outcome is
// compared with what the document says of its property.

func init() {
	register("C33", "constant propagation of the whole generator (parsing, processing, templates and their helpers) over documents whose properties go through every subset of the constraints of their type, required or not, with and without the omission extension, with every key conversion and with forced pointers, in every place where properties become fields; the fields of the generated text are parsed and their validation directives, bounds, JSON names, omission and pointers compared with the property", ruleTags)
}

// A property of a document and what its field must be.
type tagProp struct {
	name     string // name in the document
	schema   doc
	required bool
	omit     any    // nil or a boolean
	kind     string // string | integer | number | boolean | array | object | ref...
	feature  string // what is particular in it, for reports
	loose    bool   // only requiredness, omission and name are compared
	place    string
}

// want lists the validation directives of a property.
func (p *tagProp) want(ptr bool) (out []string) {
	s := p.schema
	if t, ok := s["x-target"].(doc); ok {
		s = t
	}
	if p.required && (ptr || p.kind == "array") {
		out = append(out, "required")
	}
	num := func(v any) string { return strconv.FormatFloat(v.(float64), 'f', -1, 64) }
	for _, d := range [][2]string{{"minLength", "min"}, {"maxLength", "max"}, {"minimum", "gte"}, {"maximum", "lte"}, {"exclusiveMinimum", "gt"}, {"exclusiveMaximum", "lt"}} {
		if v, ok := s[d[0]]; ok {
			out = append(out, d[1]+"="+num(v))
		}
	}
	if s["uniqueItems"] == true {
		out = append(out, "unique")
	}
	if l, ok := s["enum"].([]any); ok {
		var vs []string
		for _, e := range l {
			// the validator has no way to say a single quote
			if v, ok := e.(string); ok && !strings.Contains(v, "'") {
				vs = append(vs, "'"+v+"'")
			}
		}
		if len(vs) == len(l) {
			out = append(out, "oneof="+strings.Join(vs, " "))
		}
	}
	if v, ok := s["const"].(string); ok {
		out = append(out, "eq="+v)
	}
	return
}

// A field of the generated code.
type tagField struct {
	typ  string
	json []string
	val  []string
	has  bool
	raw  string
}

func subsets(keys ...string) (out [][]string) {
	for m := 0; m < 1<<len(keys); m++ {
		var s []string
		for i, k := range keys {
			if m>>i&1 == 1 {
				s = append(s, k)
			}
		}
		out = append(out, s)
	}
	return
}

type tagDoc struct {
	n     int
	props []*tagProp
}

func (d *tagDoc) add(place string, p *tagProp) *tagProp {
	n := d.n
	d.n++
	p.place = place
	p.name = fmt.Sprintf("q%c%c%cField", 'a'+n/676%26, 'a'+n/26%26, 'a'+n%26)
	d.props = append(d.props, p)
	return p
}

// object is the schema with the given properties.
func (d *tagDoc) object(place string, ps []*tagProp) doc {
	props := doc{}
	req := []any{}
	for _, p := range ps {
		d.add(place, p)
		s := doc{}
		for k, v := range p.schema {
			if k != "x-target" {
				s[k] = v
			}
		}
		if p.omit != nil {
			s["x-omitempty"] = p.omit
		}
		props[p.name] = s
		if p.required {
			req = append(req, p.name)
		}
	}
	o := doc{"type": "object", "properties": props}
	if len(req) > 0 {
		o["required"] = req
	}
	return o
}

var tagValues = map[string][]float64{
	"minLength": {3, 1, 65536, 1000000}, "maxLength": {12, 1, 70000, 10000000},
	"minimum": {2, -7, 0.25, 1000000}, "maximum": {90, -1, 0.75, 123456789},
	"exclusiveMinimum": {4, -5, 0.0001, 2000000}, "exclusiveMaximum": {80, -2, 1.5, 4000000000},
}

// fullProps goes through all subsets of the constraints of each type.
func fullProps() (out []*tagProp) {
	val := func(k string) any {
		switch k {
		case "enum":
			return []any{"red", "dark blue"}
		case "const":
			return "red"
		case "uniqueItems":
			return true
		}
		return tagValues[k][0]
	}
	for _, t := range []struct {
		kind string
		keys []string
	}{
		{"string", []string{"minLength", "maxLength", "enum", "const"}},
		{"integer", []string{"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"}},
		{"number", []string{"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"}},
		{"array", []string{"uniqueItems"}},
		{"boolean", nil},
		{"object", nil},
	} {
		for _, s := range subsets(t.keys...) {
			for _, req := range []bool{false, true} {
				for _, omit := range []any{nil, false, true} {
					if omit != nil && len(s) > 1 && len(s) < len(t.keys) {
						continue
					}
					sch := typed(t.kind)
					for _, k := range s {
						sch[k] = val(k)
					}
					out = append(out, &tagProp{schema: sch, required: req, omit: omit, kind: t.kind, feature: strings.Join(s, "+")})
				}
			}
		}
	}
	return
}

func typed(kind string) doc {
	s := doc{"type": kind}
	if kind == "array" {
		s["items"] = doc{"type": "string"}
	}
	if kind == "object" {
		s["properties"] = doc{"in": doc{"type": "string"}}
	}
	return s
}

// boundProps goes through the values of the bounds, and the values of enumerations.
func boundProps() (out []*tagProp) {
	for _, k := range sortedKeys(tagValues) {
		kinds := []string{"integer", "number"}
		if strings.HasSuffix(k, "Length") {
			kinds = []string{"string"}
		}
		for _, kind := range kinds {
			for _, v := range append([]float64{0}, tagValues[k]...) {
				if kind == "integer" && v != float64(int64(v)) {
					continue
				}
				if k == "minLength" && v == 0 {
					continue // says nothing
				}
				for _, req := range []bool{false, true} {
					s := typed(kind)
					s[k] = v
					f := k + " of " + strconv.FormatFloat(v, 'f', -1, 64)
					if v == 0 {
						f = k + " of zero"
					}
					out = append(out, &tagProp{schema: s, required: req, kind: kind, feature: f})
				}
			}
		}
	}
	for f, e := range map[string][]any{
		"enum of one value":          {"a"},
		"enum with the empty string": {"", "a"},
		"enum with a comma":          {"a,b", "c"},
		"enum with a bar":            {"a|b", "c"},
		"enum with a double quote":   {`a"b`, "c"},
		"enum with a single quote":   {"it's", "c"},
		"enum with a backquote":      {"a`b", "c"},
		"enum with a backslash":      {`a\b`, "c"},
		"enum with a letter":         {"é", "日本"},
		"enum of numbers":            {1.0, 2.0},
		"enum of several kinds":      {"a", 2.0},
		"enum with a nil":            {"a", nil},
	} {
		s := typed("string")
		s["enum"] = e
		if f == "enum of numbers" {
			s["type"] = "integer"
		}
		out = append(out, &tagProp{schema: s, kind: s["type"].(string), feature: f})
	}
	for f, c := range map[string]any{"const with a comma": "a,b", "const with a double quote": `a"b`, "const with a backquote": "a`b", "const with an equal sign": "a=b", "const with a bar": "a|b", "const that is a number": 3.0, "const with spaces": "a b"} {
		s := typed("string")
		s["const"] = c
		if _, ok := c.(float64); ok {
			s["type"] = "integer"
		}
		out = append(out, &tagProp{schema: s, kind: s["type"].(string), feature: f})
	}
	return
}

// someProps has each constraint once, required and not.
func someProps() (out []*tagProp) {
	for _, p := range fullProps() {
		if p.omit == nil && !strings.Contains(p.feature, "+") {
			out = append(out, p)
		}
	}
	return
}

// refProps are properties given by reference to the schemas of comps.
func refProps(comps doc, prefix string) (out []*tagProp) {
	for i, p := range append(someProps(), boundProps()...) {
		name := fmt.Sprintf("%s%d", prefix, i)
		target := p.schema
		comps[name] = target
		p.schema = doc{"$ref": "#/components/schemas/" + name, "x-target": target}
		p.kind, p.feature = "ref to "+p.kind, p.feature
		out = append(out, p)
	}
	return
}

// document puts properties everywhere they become fields.
func (d *tagDoc) document(major int, bounds bool, through string) doc {
	comps := doc{}
	full := d.object("payload", fullProps())
	full["additionalProperties"] = d.object("additional properties", someProps())
	if bounds {
		for k, v := range d.object("payload", boundProps())["properties"].(doc) {
			full["properties"].(doc)[k] = v
		}
		for _, p := range d.props {
			if p.required && !isIn(p.name, full["required"].([]any)) {
				if _, ok := full["properties"].(doc)[p.name]; ok {
					full["required"] = append(full["required"].([]any), p.name)
				}
			}
		}
	}
	put := func(name string, s doc) { full["properties"].(doc)[name] = s }
	put("zzNested", d.object("object in an object", someProps()))
	put("zzList", doc{"type": "array", "items": d.object("items of a list", someProps())})
	put("zzLists", doc{"type": "array", "items": doc{"type": "array", "items": d.object("items of a list of lists", someProps())}})
	put("zzRefs", d.object("references", refProps(comps, "Target")))
	comps["Shared"] = d.object("schema of the components", someProps())
	put("zzShared", doc{"$ref": "#/components/schemas/Shared"})
	// references to properties that are required where they are
	holder := &tagDoc{n: 9000}
	comps["Holder"] = holder.object("", someProps())
	var holds []*tagProp
	for _, h := range holder.props {
		for _, req := range []bool{false, true} {
			holds = append(holds, &tagProp{
				schema: doc{"$ref": "#/components/schemas/Holder/" + through + h.name, "x-target": h.schema}, required: req,
				kind: "ref to " + h.kind, feature: "reference to a property that is " + map[bool]string{true: "required", false: "optional"}[h.required] + " in its own object",
			})
		}
	}
	put("zzThrough", d.object("references to properties", holds))
	// combined
	one := d.object("allOf", someProps())
	two := d.object("allOf", someProps())
	late := d.object("required by another schema of an allOf", someProps())
	for _, p := range d.props {
		if p.place == "required by another schema of an allOf" {
			p.required = true
			late["required"] = nil
		}
	}
	var lr []any
	for k := range late["properties"].(doc) {
		lr = append(lr, k)
	}
	delete(late, "required")
	put("zzAll", doc{"type": "object", "allOf": []any{one, two, late, doc{"type": "object", "required": lr}}})
	// combined, by reference: the fields are in both structures
	comps["Part"] = d.object("reference in an allOf", someProps())
	more := d.object("allOf with a reference", someProps())
	put("zzParts", doc{"type": "object", "allOf": []any{doc{"$ref": "#/components/schemas/Part"}, more}})

	headers := d.object("headers", someProps())
	msg := doc{"payload": full, "headers": headers}
	out := doc{"info": doc{"title": "T", "version": "1.0.0"}, "components": doc{"schemas": comps}}
	if major == 2 {
		out["asyncapi"] = "2.6.0"
		out["channels"] = doc{"evt": doc{"publish": doc{"message": msg}}}
		return out
	}
	out["asyncapi"] = "3.0.0"
	out["channels"] = doc{"evt": doc{"address": "evt", "messages": doc{"evt": msg}}}
	out["operations"] = doc{"onEvt": doc{"action": "receive", "channel": doc{"$ref": "#/channels/evt"}}}
	return out
}

func isIn(x any, l []any) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func ruleTags(r *Report) {
	convert := map[string]func(string) string{
		"none":  func(s string) string { return s },
		"camel": func(s string) string { return strings.ToUpper(s[:1]) + s[1:] },
		"snake": func(s string) string { return strings.Replace(s, "Field", "_field", 1) },
		"kebab": func(s string) string { return strings.Replace(s, "Field", "-field", 1) },
	}
	type run struct {
		major int
		ck    string
		force bool
	}
	var runs []run
	for _, major := range []int{3, 2} {
		for _, ck := range sortedKeys(convert) {
			for _, force := range []bool{false, true} {
				if force && ck != "none" {
					continue
				}
				runs = append(runs, run{major, ck, force})
			}
		}
	}
	docs := make([]*tagDoc, len(runs))
	xs := make([]*Expansion, len(runs))
	parallel(len(runs), func(i int) {
		u := runs[i]
		for _, through := range []string{"properties/", ""} {
			d := &tagDoc{}
			docs[i] = d
			xs[i] = r.W.foldShape(Shape{Name: "tags", Major: u.major, Doc: d.document(u.major, u.ck == "none", through), Opts: func(o map[string]any) {
				o["ConvertKeys"], o["ForcePointers"], o["DisableFormatting"] = u.ck, u.force, true
			}, Targets: []string{"Types"}})
			if xs[i].Err == nil {
				break
			}
		}
	})
	for i, u := range runs {
		who := fmt.Sprintf("v%d keys=%s forced=%v", u.major, u.ck, u.force)
		if xs[i].Err != nil || xs[i].Panic != nil {
			r.FailAt("undecided:tags", who, "the generator could not be folded over the document: %v", xs[i].Err)
			continue
		}
		fields, err := tagFields(xs[i].Text)
		if err != nil {
			r.FailAt("undecided:tags", who, "the generated text does not parse: %v", err)
			continue
		}
		r.Count("generations", 1)
		for _, p := range docs[i].props {
			r.property(u.major, u.force, p, fields[convert[u.ck](p.name)], convert[u.ck](p.name))
		}
	}
	r.Floor("generations", 10)
	r.Floor("properties compared", 6000)
	r.Floor("directives compared", 3000)
}

// tagFields lists the generated fields by their JSON name.
func tagFields(text string) (map[string][]tagField, error) {
	file, err := parser.ParseFile(token.NewFileSet(), "g.go", text, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	out := map[string][]tagField{}
	ast.Inspect(file, func(n ast.Node) bool {
		st, ok := n.(*ast.StructType)
		if !ok {
			return true
		}
		for _, f := range st.Fields.List {
			if f.Tag == nil {
				continue
			}
			raw, err := strconv.Unquote(f.Tag.Value)
			if err != nil {
				continue
			}
			tag := reflect.StructTag(raw)
			t := tagField{typ: types.ExprString(f.Type), json: strings.Split(tag.Get("json"), ","), raw: raw}
			v, has := tag.Lookup("validate")
			t.has = has
			for _, d := range strings.FieldsFunc(v, func(c rune) bool { return c == ',' || c == '|' }) {
				if d != "" {
					t.val = append(t.val, strings.NewReplacer("0x2C", ",", "0x7C", "|").Replace(d))
				}
			}
			// a tag that cannot be read has nothing after the part that can
			if strings.Contains(raw, "validate:") && !has {
				t.val = []string{"unreadable"}
			}
			out[t.json[0]] = append(out[t.json[0]], t)
		}
		return true
	})
	return out, nil
}

func (r *Report) property(major int, force bool, p *tagProp, fs []tagField, name string) {
	at := fmt.Sprintf("v%d %s: %s %s", major, p.place, map[bool]string{true: "required", false: "optional"}[p.required], p.kind)
	if p.feature != "" {
		at += " (" + p.feature + ")"
	}
	place := p.place
	key := func(what string) string { return fmt.Sprintf("%s:%s", what, place) }
	if len(fs) == 0 {
		r.FailAt(key("name"), at, "no generated field has the JSON name %q of the property %q", name, p.name)
		return
	}
	for _, f := range fs {
		r.Count("properties compared", 1)
		ptr := strings.HasPrefix(f.typ, "*")
		list := p.kind == "array" || p.kind == "ref to array"
		if want := force || !p.required; ptr != want && !list {
			r.FailAt(key(fmt.Sprintf("pointer:%v", want)), at, "the field has the type %s (forced pointers: %v)", f.typ, force)
		} else if ptr && list && !force && p.required {
			r.FailAt(key("pointer:false"), at, "the field has the type %s", f.typ)
		}
		omit := false
		for _, o := range f.json[1:] {
			omit = omit || o == "omitempty"
			if o != "omitempty" {
				r.FailAt(key("json:option"), at, "the JSON tag has the option %q: %s", o, f.raw)
			}
		}
		wantOmit := !p.required
		if b, ok := p.omit.(bool); ok {
			wantOmit = b
		}
		if omit != wantOmit {
			r.FailAt(key(fmt.Sprintf("omit:%v:%v", wantOmit, p.omit)), at, "the property is omitted when empty: %v, expected %v (x-omitempty: %v): %s", omit, wantOmit, p.omit, f.raw)
		}
		want := p.want(ptr)
		got := f.val
		r.Count("directives compared", len(want))
		// optional: nothing is checked on an absent value
		if len(got) > 0 && got[0] == "omitempty" {
			if p.required {
				r.FailAt(key("validate:omitempty"), at, "the validation of a required property is skipped when it is empty: %s", f.raw)
			}
			got = got[1:]
		} else if len(got) > 0 && !p.required {
			r.FailAt(key("validate:mandatory"), at, "an optional property is validated when it is absent: %s", f.raw)
		}
		r.directives(major, p, at, want, got, f.raw)
	}
}

// directives compares validation directives. What differs is named after the
// constraint and what is particular in its value.
func (r *Report) directives(major int, p *tagProp, at string, want, got []string, raw string) {
	left := append([]string(nil), got...)
	take := func(d string) bool {
		for i, g := range left {
			if g == d {
				left = append(left[:i], left[i+1:]...)
				return true
			}
		}
		return false
	}
	feature := func(d string) string {
		n, _, _ := strings.Cut(d, "=")
		for _, f := range []string{"of zero", "with a comma", "with a bar", "with the empty string", "quote", "with a backslash", "with a letter", "with an equal sign"} {
			if strings.HasSuffix(p.feature, f) {
				return p.feature
			}
		}
		return n
	}
	for _, d := range want {
		if p.kind == "ref to array" && d == "required" {
			continue
		}
		if !take(d) {
			r.FailAt("directive:"+feature(d), at, "the validation %q is missing: %s", d, raw)
		}
	}
	for _, d := range left {
		if p.kind == "ref to array" && d == "required" && p.required {
			continue
		}
		n, _, _ := strings.Cut(d, "=")
		if hasDirective(want, n) {
			continue // reported as missing
		}
		r.FailAt("directive:undeclared:"+feature(d), at, "the validation %q is not declared: %s", d, raw)
	}
}

func hasDirective(ds []string, name string) bool {
	for _, d := range ds {
		if n, _, _ := strings.Cut(d, "="); n == name {
			return true
		}
	}
	return false
}
