package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"path"
	"sort"
	"strconv"
	"strings"
)

// C37: the custom types of a document (x-go-type) bring their imports. The generator is
// folded over documents that have custom types at every place where a schema can be,
// alone and all together, in several orders of the maps; each
// package that the folded text takes a type from has to be imported, once, from the path
// and under the name that the document gives.

func init() {
	register("C37", "constant propagation of the whole generator over documents with custom types at every place a schema can be (payloads, headers, properties, items, additional properties, components, traits, parameters, combinations), with and without an import name, next to null entries, alone and together: the packages that the folded text takes types from are compared with its import declarations; the same path under two names must be an error of the generation", ruleImports)
}

type customType struct{ pkg, name, path string }

// customs makes custom types, each from its own package.
type customs struct{ l []customType }

func (c *customs) schema(d doc) doc {
	i := len(c.l)
	t := customType{pkg: fmt.Sprintf("zzp%c%c", 'a'+i/26, 'a'+i%26)}
	t.path = "example.com/custom/" + t.pkg
	imp := doc{}
	if i%3 != 0 {
		t.name = t.pkg
		t.path += "x"
		imp["name"] = t.name
	}
	imp["path"] = t.path
	c.l = append(c.l, t)
	out := doc{"x-go-type": t.pkg + ".T", "x-go-type-import": imp}
	for k, v := range d {
		out[k] = v
	}
	return out
}

// A place of a document where custom types can be given: put makes the document at the
// place. base documents have nothing but the place.
type customPlace struct {
	what string
	put  func(c *customs) doc
}

// schemaPlaces are the places below a schema.
func schemaPlaces(ref string) []customPlace {
	obj := func(props doc) doc { return doc{"type": "object", "properties": props} }
	return []customPlace{
		{"itself", func(c *customs) doc { return c.schema(doc{"type": "object"}) }},
		{"itself, a string", func(c *customs) doc { return c.schema(doc{"type": "string"}) }},
		{"itself, untyped", func(c *customs) doc { return c.schema(nil) }},
		{"properties", func(c *customs) doc {
			return doc{"type": "object", "required": []any{"second"}, "properties": doc{"first": c.schema(doc{"type": "string"}), "second": c.schema(doc{"type": "object"}), "third": c.schema(nil)}}
		}},
		{"nested properties", func(c *customs) doc {
			return obj(doc{"first": obj(doc{"deep": obj(doc{"deeper": c.schema(doc{"type": "integer"}), "other": c.schema(doc{"type": "object"})})}), "second": obj(doc{"deep": c.schema(nil)})})
		}},
		{"items", func(c *customs) doc {
			return obj(doc{"first": doc{"type": "array", "items": c.schema(doc{"type": "string"})}, "second": doc{"type": "array", "items": obj(doc{"deep": c.schema(doc{"type": "object"})})}})
		}},
		{"items of items", func(c *customs) doc {
			return obj(doc{"first": doc{"type": "array", "items": doc{"type": "array", "items": c.schema(doc{"type": "number"})}}})
		}},
		{"additional properties", func(c *customs) doc {
			return doc{"type": "object", "properties": doc{"plain": doc{"type": "string"}}, "additionalProperties": c.schema(doc{"type": "string"})}
		}},
		{"below additional properties", func(c *customs) doc {
			return doc{"type": "object", "properties": doc{"plain": doc{"type": "string"}}, "additionalProperties": obj(doc{"deep": c.schema(doc{"type": "string"})})}
		}},
		{"a reference", func(c *customs) doc { return doc{"$ref": ref} }},
		{"a property that is a reference", func(c *customs) doc {
			return obj(doc{"first": doc{"$ref": ref}, "second": c.schema(doc{"type": "string"})})
		}},
		{"allOf", func(c *customs) doc {
			return obj(doc{"zero": doc{"allOf": []any{c.schema(doc{"type": "object", "properties": doc{"a": doc{"type": "string"}}}), obj(doc{"plain": doc{"type": "string"}})}}, "first": doc{"type": "object", "allOf": []any{obj(doc{"deep": c.schema(doc{"type": "string"})}), obj(doc{"other": c.schema(doc{"type": "object"})})}}})
		}},
		{"anyOf", func(c *customs) doc {
			return obj(doc{"zero": doc{"anyOf": []any{c.schema(doc{"type": "string"}), c.schema(doc{"type": "object"})}}, "first": doc{"anyOf": []any{obj(doc{"deep": c.schema(doc{"type": "string"})}), obj(doc{"other": c.schema(doc{"type": "object"})})}}})
		}},
		{"oneOf", func(c *customs) doc {
			return obj(doc{"zero": doc{"oneOf": []any{c.schema(doc{"type": "string"}), c.schema(doc{"type": "object"})}}, "first": doc{"oneOf": []any{obj(doc{"deep": c.schema(doc{"type": "string"})}), obj(doc{"other": c.schema(doc{"type": "object"})})}}})
		}},
	}
}

type customDoc struct {
	what  string
	major int
	doc   doc
	c     *customs
}

// messagePlaces are the documents with a message somewhere.
func messagePlaces(major int) (out []struct {
	what string
	put  func(msg func() doc) doc
}) {
	add := func(what string, put func(msg func() doc) doc) {
		out = append(out, struct {
			what string
			put  func(msg func() doc) doc
		}{what, put})
	}
	plain := func() doc { return doc{"payload": doc{"type": "string"}} }
	if major == 2 {
		base := func(chs, comps doc) doc {
			return doc{"asyncapi": "2.6.0", "info": doc{"title": "T", "version": "1.0.0"}, "channels": chs, "components": comps}
		}
		add("a published message", func(m func() doc) doc {
			return base(doc{"chone": doc{"publish": doc{"message": m()}}, "chtwo": doc{"publish": doc{"message": m()}}}, doc{})
		})
		add("a subscribed message", func(m func() doc) doc {
			return base(doc{"chone": doc{"subscribe": doc{"message": m()}}, "chtwo": doc{"subscribe": doc{"message": m()}}}, doc{})
		})
		add("both messages", func(m func() doc) doc {
			return base(doc{"chone": doc{"subscribe": doc{"message": m()}, "publish": doc{"message": m()}}, "other": doc{"publish": doc{"message": plain()}}}, doc{})
		})
		add("a message of the components", func(m func() doc) doc {
			return base(doc{"chone": doc{"publish": doc{"message": doc{"$ref": "#/components/messages/mone"}}}}, doc{"messages": doc{"mone": m(), "mtwo": m()}})
		})
		add("alternatives of a message", func(m func() doc) doc {
			return base(doc{"chone": doc{"publish": doc{"message": doc{"oneOf": []any{m(), m()}}}}}, doc{})
		})
		add("a message of the components that is not used", func(m func() doc) doc {
			return base(doc{"chone": doc{"publish": doc{"message": plain()}}}, doc{"messages": doc{"mone": m()}})
		})
		return out
	}
	base := func(chs, ops, comps doc) doc {
		return doc{"asyncapi": "3.0.0", "info": doc{"title": "T", "version": "1.0.0"}, "channels": chs, "operations": ops, "components": comps}
	}
	op := func(action, ch string) doc { return doc{"action": action, "channel": doc{"$ref": ch}} }
	add("messages of channels", func(m func() doc) doc {
		return base(doc{"chone": doc{"address": "one", "messages": doc{"mone": m()}}, "chtwo": doc{"address": "two", "messages": doc{"mtwo": m()}}},
			doc{"opone": op("send", "#/channels/chone"), "optwo": op("receive", "#/channels/chtwo")}, doc{})
	})
	add("several messages of a channel", func(m func() doc) doc {
		o := op("send", "#/channels/chone")
		o["messages"] = []any{doc{"$ref": "#/channels/chone/messages/mtwo"}}
		return base(doc{"chone": doc{"address": "one", "messages": doc{"mone": m(), "mtwo": m()}}}, doc{"opone": o}, doc{})
	})
	add("messages of the components", func(m func() doc) doc {
		return base(doc{"chone": doc{"address": "one", "messages": doc{"mone": doc{"$ref": "#/components/messages/mone"}}}}, doc{"opone": op("send", "#/channels/chone")},
			doc{"messages": doc{"mone": m(), "mtwo": m()}})
	})
	add("messages of channels of the components", func(m func() doc) doc {
		return base(doc{"chone": doc{"$ref": "#/components/channels/chcomp"}}, doc{"opone": op("send", "#/channels/chone")},
			doc{"channels": doc{"chcomp": doc{"address": "one", "messages": doc{"mone": m(), "mtwo": m()}}}})
	})
	add("traits of messages", func(m func() doc) doc {
		t := m()
		delete(t, "payload")
		if t["headers"] == nil {
			t["headers"] = doc{"type": "object", "properties": doc{"inherited": doc{"type": "string"}}}
		}
		return base(doc{"chone": doc{"address": "one", "messages": doc{"mone": doc{"payload": doc{"type": "string"}, "traits": []any{t}}, "mtwo": doc{"payload": doc{"type": "string"}, "traits": []any{doc{"$ref": "#/components/messageTraits/tone"}}}}}}, doc{"opone": op("send", "#/channels/chone")}, doc{"messageTraits": doc{"tone": t}})
	})
	add("messages that refer to messages of channels", func(m func() doc) doc {
		return base(doc{"chone": doc{"address": "one", "messages": doc{"mone": doc{"$ref": "#/channels/chtwo/messages/mtwo"}}}, "chtwo": doc{"address": "two", "messages": doc{"mtwo": m()}}}, doc{"opone": op("send", "#/channels/chone")}, doc{})
	})
	add("messages of replies", func(m func() doc) doc {
		o := op("receive", "#/channels/chone")
		o["reply"] = doc{"channel": doc{"$ref": "#/channels/chtwo"}}
		return base(doc{"chone": doc{"address": "one", "messages": doc{"mone": m()}}, "chtwo": doc{"address": "two", "messages": doc{"mtwo": m()}}}, doc{"opone": o}, doc{})
	})
	return out
}

func customDocs() (out []*customDoc) {
	for _, major := range []int{2, 3} {
		target := "#/components/schemas/ztarget"
		places := schemaPlaces(target)
		addRef := func(d doc, c *customs) {
			comps := d["components"].(doc)
			ss, _ := comps["schemas"].(doc)
			if ss == nil {
				ss = doc{}
				comps["schemas"] = ss
			}
			ss["ztarget"] = doc{"type": "object", "properties": doc{"plain": doc{"type": "string"}, "custom": c.schema(doc{"type": "string"})}}
			ss["zscalar"] = c.schema(doc{"type": "string"})
		}
		for _, mp := range messagePlaces(major) {
			for _, sp := range places {
				c := &customs{}
				d := mp.put(func() doc { return doc{"payload": sp.put(c)} })
				addRef(d, c)
				out = append(out, &customDoc{fmt.Sprintf("v%d %s: payload, %s", major, mp.what, sp.what), major, d, c})
				if s := sp.put(&customs{}); s["type"] == "object" && s["x-go-type"] == nil || s["$ref"] != nil {
					c = &customs{}
					d = mp.put(func() doc { return doc{"payload": doc{"type": "string"}, "headers": sp.put(c)} })
					addRef(d, c)
					out = append(out, &customDoc{fmt.Sprintf("v%d %s: headers, %s", major, mp.what, sp.what), major, d, c})
				}
			}
		}
		// schemas of the components, referred to or not
		for _, sp := range places {
			for _, used := range []bool{true, false} {
				c := &customs{}
				d := messagePlaces(major)[0].put(func() doc {
					if used {
						return doc{"payload": doc{"type": "object", "properties": doc{"one": doc{"$ref": "#/components/schemas/sone"}}}}
					}
					return doc{"payload": doc{"type": "string"}}
				})
				d["components"].(doc)["schemas"] = doc{"sone": sp.put(c), "stwo": sp.put(c)}
				addRef(d, c)
				out = append(out, &customDoc{fmt.Sprintf("v%d schemas of the components (referred to: %t): %s", major, used, sp.what), major, d, c})
			}
		}
		// parameters
		for _, sp := range places[:3] {
			c := &customs{}
			p := doc{"schema": sp.put(c)}
			d := messagePlaces(major)[0].put(func() doc { return doc{"payload": doc{"type": "string"}} })
			if major == 2 {
				d["channels"].(doc)["par/{one}/{two}"] = doc{"parameters": doc{"one": p, "two": doc{"$ref": "#/components/parameters/two"}}, "publish": doc{"message": doc{"payload": doc{"type": "string"}}}}
				d["components"].(doc)["parameters"] = doc{"two": doc{"schema": sp.put(c)}}
				addRef(d, c)
				out = append(out, &customDoc{fmt.Sprintf("v%d parameters: %s", major, sp.what), major, d, c})
			}
		}
		// all places at once
		c := &customs{}
		d := messagePlaces(major)[0].put(func() doc {
			props := doc{}
			for i, sp := range places {
				props[fmt.Sprintf("place%d", i)] = sp.put(c)
			}
			return doc{"payload": doc{"type": "object", "properties": props}}
		})
		addRef(d, c)
		out = append(out, &customDoc{fmt.Sprintf("v%d all places", major), major, d, c})
	}
	return out
}

// importsOf gives the packages that a generated file imports from the paths of the
// document, and the packages it takes types from.
func importsOf(text string) (imports map[string][]string, used map[string]bool, err error) {
	file, err := parser.ParseFile(token.NewFileSet(), "g.go", text, parser.SkipObjectResolution)
	if err != nil {
		return nil, nil, err
	}
	imports, used = map[string][]string{}, map[string]bool{}
	for _, i := range file.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		n := path.Base(p)
		if i.Name != nil {
			n = i.Name.Name
		}
		imports[n] = append(imports[n], p)
	}
	ast.Inspect(file, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok && strings.HasPrefix(id.Name, "zzp") {
				used[id.Name] = true
			}
		}
		return true
	})
	return imports, used, nil
}

func ruleImports(r *Report) {
	docs := customDocs()
	orders := mapOrders(2)
	n := len(docs)
	xs := make([]*Expansion, n*len(orders))
	parallel(len(xs), func(i int) {
		d, o := docs[i%n], orders[i/n]
		xs[i] = r.W.foldShapeWith(Shape{Name: "imports", Major: d.major, Doc: d.doc, Opts: func(o map[string]any) { o["DisableFormatting"] = true }},
			func(m *Machine) { m.Order = o; m.NoLines = true })
	})
	for i, x := range xs {
		d := docs[i%n]
		if x.Err != nil || x.Panic != nil {
			r.FailAt("undecided:"+d.what, d.what, "the generator could not be folded over the document: %v", x.Err)
			continue
		}
		imports, used, err := importsOf(x.Text)
		if err != nil {
			r.FailAt("text:"+d.what, d.what, "the generated text cannot be read: %v", err)
			continue
		}
		r.Count("generations", 1)
		var missing []string
		for _, t := range d.c.l {
			ps := imports[t.pkg]
			if len(ps) > 1 {
				r.FailAt("twice:"+d.what, d.what, "the package of a custom type is imported %d times: %s", len(ps), strings.Join(ps, ", "))
			}
			if len(ps) > 0 && ps[0] != t.path {
				r.FailAt("path:"+d.what, d.what, "the package of a custom type is imported from %s, and the document gives %s", ps[0], t.path)
			}
			if !used[t.pkg] {
				continue
			}
			r.Count("custom types used", 1)
			if len(ps) == 0 {
				if e := imports[path.Base(t.path)]; len(e) > 0 {
					missing = append(missing, fmt.Sprintf("%s is imported without the name %s", t.path, t.pkg))
				} else {
					missing = append(missing, t.path)
				}
			}
		}
		if len(missing) > 0 {
			sort.Strings(missing)
			r.FailAt("missing:"+d.what, d.what, "the generated code uses custom types whose packages are not imported: %s", strings.Join(missing, ", "))
		}
	}
	r.importsBesideNull(docs, orders)
	r.importConflicts()
	r.importsOfTemplates()
	r.Floor("imports of the generated code itself", 24)
	r.Floor("generations", 300)
	r.Floor("custom types used", 800)
	r.Floor("conflicts", 40)
	r.Floor("documents with null entries", 300)
}

// importConflicts: the same path under two names is an error of the generation.
func (r *Report) importConflicts() {
	two := func(a, b string) (doc, doc) {
		s := func(n string) doc {
			i := doc{"path": "example.com/custom/same"}
			if n != "" {
				i["name"] = n
			}
			return doc{"type": "string", "x-go-type": n + "same.T", "x-go-type-import": i}
		}
		return s(a), s(b)
	}
	type cf struct {
		what     string
		major    int
		doc      doc
		conflict bool
	}
	var l []cf
	for _, names := range [][2]string{{"zza", "zzb"}, {"zza", ""}, {"zza", "zza"}, {"", ""}} {
		for _, major := range []int{2, 3} {
			for _, place := range []string{"properties", "payload and headers", "items", "additional properties", "components", "messages of the components", "two channels"} {
				a, b := two(names[0], names[1])
				obj := func(p doc) doc { return doc{"type": "object", "properties": p} }
				n := 0
				var comps doc
				msg := func() doc {
					n++
					switch place {
					case "properties":
						return doc{"payload": obj(doc{"one": a, "two": b})}
					case "payload and headers":
						return doc{"payload": obj(doc{"one": a}), "headers": obj(doc{"two": b})}
					case "items":
						return doc{"payload": obj(doc{"one": a, "two": doc{"type": "array", "items": b}})}
					case "additional properties":
						return doc{"payload": doc{"type": "object", "properties": doc{"one": a}, "additionalProperties": b}}
					case "components":
						comps = doc{"schemas": doc{"sone": obj(doc{"one": a}), "stwo": obj(doc{"two": b})}}
					case "messages of the components":
						comps = doc{"schemas": doc{"sone": obj(doc{"one": a})}, "messages": doc{"mtwo": doc{"payload": obj(doc{"two": b})}}}
					case "two channels":
						if n == 1 {
							return doc{"payload": obj(doc{"one": a})}
						}
						return doc{"payload": obj(doc{"two": b})}
					}
					return doc{"payload": doc{"type": "string"}}
				}
				d := messagePlaces(major)[0].put(msg)
				if comps != nil {
					d["components"] = comps
				}
				l = append(l, cf{fmt.Sprintf("v%d %s, names %q and %q", major, place, names[0], names[1]), major, d, names[0] != names[1]})
			}
		}
	}
	orders := mapOrders(2)
	xs := make([]*Expansion, len(l)*len(orders))
	parallel(len(xs), func(i int) {
		c, o := l[i%len(l)], orders[i/len(l)]
		xs[i] = r.W.foldShapeWith(Shape{Name: "imports", Major: c.major, Doc: c.doc, Opts: func(o map[string]any) { o["DisableFormatting"] = true }},
			func(m *Machine) { m.Order = o; m.NoLines = true })
	})
	for i, x := range xs {
		c := l[i%len(l)]
		switch {
		case x.Panic != nil || x.Err != nil && strings.Contains(x.Err.Error(), "cannot fold"):
			r.FailAt("undecided:"+c.what, c.what, "the generator could not be folded over the document: %v", x.Err)
		case c.conflict && x.Err == nil:
			r.FailAt("conflict:"+c.what, c.what, "the same package is given two import names, and the generation succeeds")
		case !c.conflict && x.Err != nil:
			r.FailAt("refused:"+c.what, c.what, "the same import given twice is refused: %v", x.Err)
		default:
			r.Count("conflicts", 1)
			if !c.conflict {
				imports, _, err := importsOf(x.Text)
				if err != nil {
					r.FailAt("text:"+c.what, c.what, "the generated text cannot be read: %v", err)
					continue
				}
				k := 0
				for _, ps := range imports {
					for _, p := range ps {
						if p == "example.com/custom/same" {
							k++
						}
					}
				}
				if k != 1 {
					r.FailAt("twice:"+c.what, c.what, "the package of the custom types is imported %d times", k)
				}
			}
		}
	}
}

// importsOfTemplates: custom types from a package that generated code uses by itself.
func (r *Report) importsOfTemplates() {
	for _, major := range []int{2, 3} {
		fold := func(imp doc, typ string) *Expansion {
			d := messagePlaces(major)[0].put(func() doc {
				p := doc{"type": "string"}
				if imp != nil {
					p["x-go-type"], p["x-go-type-import"] = typ, imp
				}
				return doc{"payload": doc{"type": "object", "properties": doc{"one": p}}}
			})
			return r.W.foldShapeWith(Shape{Name: "imports", Major: major, Doc: d, Opts: func(o map[string]any) { o["DisableFormatting"] = true }},
				func(m *Machine) { m.NoLines = true })
		}
		what := fmt.Sprintf("v%d custom types from the packages that generated code uses", major)
		plain := fold(nil, "")
		if plain.Err != nil || plain.Panic != nil {
			r.FailAt("undecided:"+what, what, "the generator could not be folded over the document: %v", plain.Err)
			continue
		}
		own, _, err := importsOf(plain.Text)
		if err != nil {
			r.FailAt("text:"+what, what, "the generated text cannot be read: %v", err)
			continue
		}
		for _, n := range sortedKeys(own) {
			for _, name := range []string{"", n, "zzp"} {
				for _, from := range own[n] {
					q := n
					imp := doc{"path": from}
					if name != "" {
						q = name
						imp["name"] = name
					}
					x := fold(imp, q+".T")
					if x.Err != nil || x.Panic != nil {
						r.FailAt("undecided:"+what, what, "the generator could not be folded over the document: %v", x.Err)
						continue
					}
					imports, _, err := importsOf(x.Text)
					if err != nil {
						r.FailAt("text:"+what, what, "the generated text cannot be read: %v", err)
						continue
					}
					r.Count("imports of the generated code itself", 1)
					for _, k := range []string{n, q} {
						if len(imports[k]) != 1 || imports[k][0] != from {
							r.FailAt(fmt.Sprintf("own:v%d:%s:%s", major, from, name), what, "with a custom type from %s (import name %q), the generated code, which uses that package by itself, has %d imports named %s", from, name, len(imports[k]), k)
							break
						}
					}
				}
			}
		}
	}
}

// withNulls adds null entries to the maps of named elements of a document.
func withNulls(d any) any {
	switch x := d.(type) {
	case doc:
		out := doc{}
		for k, v := range x {
			v = withNulls(v)
			if m, ok := v.(doc); ok {
				switch k {
				case "channels", "messages", "schemas", "properties", "operations", "parameters":
					m["aanull"], m["mmnull"], m["zznull"] = nil, nil, nil
				}
			}
			out[k] = v
		}
		return out
	case []any:
		var out []any
		for _, v := range x {
			out = append(out, withNulls(v))
		}
		return out
	}
	return d
}

// importsBesideNull: null entries of a document change nothing in the imports that the
// other entries need.
func (r *Report) importsBesideNull(docs []*customDoc, orders []func([]*vment, int) []*vment) {
	n := len(docs)
	type res struct{ plain, null string }
	xs := make([]res, n*len(orders))
	parallel(len(xs), func(i int) {
		d, o := docs[i%n], orders[i/n]
		xs[i] = res{r.W.customImports(d.major, d.doc, o), r.W.customImports(d.major, withNulls(d.doc).(doc), o)}
	})
	for i, x := range xs {
		d := docs[i%n]
		if strings.HasPrefix(x.plain, "!") || strings.HasPrefix(x.null, "!") {
			if x.plain == x.null {
				x.null = ""
			}
			r.FailAt("undecided:null:"+d.what, d.what, "the custom imports of the document could not be folded: %s %s", x.plain, x.null)
			continue
		}
		r.Count("documents with null entries", 1)
		if x.plain != x.null {
			r.FailAt("null:"+d.what, d.what, "next to null entries, the imports of the custom types are %s instead of %s", x.null, x.plain)
		}
	}
}

// customImports folds the reading and the processing of a document, and gives the
// imports that its custom types need.
func (w *World) customImports(major int, d doc, order func([]*vment, int) []*vment) string {
	data, _ := json.Marshal(d)
	m := NewMachine(w)
	m.Order = order
	pkg := fmt.Sprintf("%s/v%d", asyncPath, major)
	parse := w.Func(Mod+"/pkg/asyncapi/parser", "FromJSON")
	process := w.Func(pkg, "Specification.Process")
	imports := w.Func(pkg, "Specification.CustomImports")
	if parse == nil || process == nil || imports == nil {
		return "! the functions that read a document and collect its imports are not resolved"
	}
	v, err, p := m.Try(func() any {
		prm := zeroVal(parse.Signature.Params().At(0).Type()).(*VStruct)
		setField(prm, "Data", bytesVal(data))
		t := m.Call(parse, prm).(VTuple)
		if t[1] != nil {
			return t[1]
		}
		spec := t[0]
		if i, ok := spec.(*VIface); ok {
			spec = i.V
		}
		if e := m.Call(process, spec); e != nil {
			return e
		}
		if _, ok := imports.Signature.Recv().Type().(*types.Pointer); !ok {
			spec = cp(m.deref(spec).V)
		}
		return m.Call(imports, spec)
	})
	if err != nil || p != nil {
		return fmt.Sprintf("! %v", err)
	}
	t, ok := v.(VTuple)
	if !ok || t[1] != nil {
		return "! " + m.show(v)
	}
	var l []string
	if s, ok := t[0].(*VSlice); ok && s != nil {
		for _, c := range s.E {
			l = append(l, m.show(c.V))
		}
	} else if s, ok := t[0].(VSlice); ok {
		for _, c := range s.E {
			l = append(l, m.show(c.V))
		}
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}
