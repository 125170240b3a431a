package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// C26: the sections of a document against the places that refer to them. The pairs
// are finite (a section per kind of element, an accessor and a type per place), so
// that every one is decided by propagating the document through the SSA of the
// parser and of the model.

func init() {
	register("C26", "constant propagation, through the parser, the reference accessors and both passes of Process, of the complete table of sections × accessors × places that can refer (local, and in files given with and without ./), of chains of references of one to three steps across files, of every malformed form of reference, and of Follow on chains of every length up to three; the sections, their types and the places are enumerated from the model's types", ruleKinds)
}

type kindTable struct {
	r     *Report
	w     *World
	m     *model
	parse *ssa.Function
	root  *types.Named
	comps []*mfield // sections of the components
	tops  []*mfield // sections of the document itself
	cf    *mfield   // the components in the document
	acc   map[string]*ssa.Function
}

func ruleKinds(r *Report) {
	w := r.W
	parse := w.Func(parserPath, "FromJSON")
	if parse == nil {
		r.FailAt("undecided:anchors", "-", "FromJSON is not resolved")
		return
	}
	for _, m := range specModels(w) {
		k := &kindTable{r: r, w: w, m: m, parse: parse, acc: map[string]*ssa.Function{}}
		if k.anchors() {
			k.table()
			k.malformed()
			k.files()
			k.chains()
			k.places()
			k.follow()
		}
	}
	r.Floor("accessors", 20)
	r.Floor("sections", 20)
	r.Floor("accessor and section pairs", 300)
	r.Floor("place and section pairs", 250)
	r.Floor("malformed references", 200)
	r.Floor("chains of references", 20)
	r.Floor("types with Follow", 9)
	r.Floor("references into one of several files", 500)
}

func (k *kindTable) anchors() bool {
	o, _ := k.w.SSA[k.m.pkg].Pkg.Scope().Lookup("Specification").(*types.TypeName)
	if o == nil {
		k.r.FailAt(fmt.Sprintf("undecided:v%d", k.m.major), "-", "the model of version %d is not resolved", k.m.major)
		return false
	}
	k.root = o.Type().(*types.Named)
	for _, f := range k.m.fields(k.root) {
		if f.fromDo && f.kind == "map" && f.elem != nil {
			k.tops = append(k.tops, f)
		}
		if f.tag == "components" {
			k.cf = f
		}
	}
	if k.cf == nil || k.cf.elem == nil {
		k.r.FailAt(fmt.Sprintf("undecided:components:v%d", k.m.major), "-", "the components of version %d are not resolved", k.m.major)
		return false
	}
	for _, f := range k.m.fields(k.cf.elem) {
		if f.fromDo && f.kind == "map" && f.elem != nil {
			k.comps = append(k.comps, f)
		}
	}
	for _, f := range k.w.Funcs(k.m.pkg) {
		recv := namedElem(f.Signature.Recv())
		if recv == nil || recv.Obj() != k.root.Obj() || !token.IsExported(f.Name()) || f.Signature.Params().Len() != 1 || !isText(f.Signature.Params().At(0).Type()) || errResultIndex(f.Signature) != 1 || f.Signature.Results().Len() != 2 {
			continue
		}
		if n := namedElem(f.Signature.Results().At(0)); n != nil && mayBeNil(f.Signature.Results().At(0).Type()) && k.m.index[n.Obj()] {
			k.acc[f.Name()] = f
		}
	}
	k.r.Count("accessors", len(k.acc))
	k.r.Count("sections", len(k.comps))
	return true
}

// elem is the text of an element of a type, distinct by its mark.
func (k *kindTable) elem(n *types.Named, ref string) map[string]any {
	out := map[string]any{}
	if ref != "" {
		out["$ref"] = ref
		return out
	}
	obj := func(d string) map[string]any {
		return map[string]any{"type": "object", "properties": map[string]any{"p": map[string]any{"type": "object", "properties": map[string]any{"q": map[string]any{"type": "string"}}}, "q": map[string]any{"type": "integer"}}, "description": d}
	}
	for _, f := range k.m.fields(n) {
		switch f.tag {
		case "payload", "headers":
			if f.elem != nil {
				out[f.tag] = obj(f.tag)
			}
		case "properties":
			if f.kind == "map" {
				for a, b := range obj("schema") {
					out[a] = b
				}
			}
		}
	}
	return out
}

// document with two elements in every section.
func (k *kindTable) document(first bool) map[string]any {
	d := map[string]any{"asyncapi": map[int]string{2: "2.6.0", 3: "3.0.0"}[k.m.major], "info": map[string]any{"title": "t", "version": "1"}}
	cs := map[string]any{}
	for _, f := range k.comps {
		cs[f.tag] = map[string]any{"a": k.elem(f.elem, ""), "b": k.elem(f.elem, ""), "dep": k.elem(f.elem, "")}
	}
	d["components"] = cs
	for _, f := range k.tops {
		l := map[string]any{"a": map[string]any{}, "b": map[string]any{}}
		for _, c := range k.comps {
			// the same elements may be given by reference
			if ref, _ := k.refable(f.elem); ref != nil && c.elem == f.elem {
				l["r"] = k.elem(f.elem, "#/components/"+c.tag+"/a")
				if first && (f.tag == "channels" || f.tag == "servers") {
					l["s"] = k.elem(f.elem, "dep.json#/"+f.tag+"/a")
				}
			}
		}
		for _, g := range k.m.fields(f.elem) {
			if g.tag != "messages" || g.kind != "map" {
				continue
			}
			two := func() map[string]any {
				return map[string]any{"a": k.elem(g.elem, ""), "payload": k.elem(g.elem, ""), "b": k.elem(g.elem, "#/components/messages/a")}
			}
			for _, x := range []string{"a", "b"} {
				l[x].(map[string]any)["messages"] = two()
			}
			for _, c := range k.comps {
				if c.elem == f.elem {
					cs[c.tag].(map[string]any)["a"].(map[string]any)["messages"] = two()
				}
			}
		}
		d[f.tag] = l
	}
	return d
}

func (k *kindTable) load(m *Machine, d map[string]any) *Cell {
	b, _ := json.Marshal(d)
	ps := zeroVal(k.parse.Signature.Params().At(0).Type()).(*VStruct)
	setField(ps, "Data", bytesVal(b))
	t := m.Call(k.parse, ps).(VTuple)
	if t[1] != nil {
		unsup("the document is refused: %s", m.show(t[1]))
	}
	return t[0].(*VIface).V.(*Cell)
}

func (k *kindTable) pair(m *Machine, root, dep map[string]any) (*Cell, *Cell) {
	a, b := k.load(m, root), k.load(m, dep)
	add := k.w.Func(k.m.pkg, "Specification.AddDependency")
	if add == nil {
		unsup("AddDependency is not resolved")
	}
	if e := m.Call(add, a, "./dep.json", &VIface{T: types.NewPointer(k.root), V: b}); e != nil {
		unsup("the dependency is refused: %s", m.show(e))
	}
	return a, b
}

// at is the element of a section.
func (k *kindTable) at(spec *Cell, in, f *mfield, name string) any {
	s := spec.V.(*VStruct)
	if in != nil {
		s = getField(s, in.name()).(*VStruct)
	}
	return entry(getField(s, f.name()), name)
}

func entry(v any, name string) any {
	mp, _ := v.(*VMap)
	if mp == nil {
		return nil
	}
	for _, e := range mp.M {
		if e.k == name {
			return e.v
		}
	}
	return nil
}

func (k *kindTable) field(c any, name string) any {
	p, _ := c.(*Cell)
	if p == nil {
		return nil
	}
	for _, f := range k.m.fieldsOf(p) {
		if f == name {
			return getField(p.V.(*VStruct), name)
		}
	}
	return nil
}

func (m *model) fieldsOf(c *Cell) (out []string) {
	s, _ := c.V.(*VStruct)
	if s == nil {
		return
	}
	st := s.T.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		out = append(out, st.Field(i).Name())
	}
	return
}

// receiver in the form the method takes it.
func asReceiver(f *ssa.Function, c *Cell) any {
	if mayBeNil(f.Signature.Recv().Type()) {
		return c
	}
	return cloneStruct(c.V)
}

func cloneStruct(v any) any {
	s := v.(*VStruct)
	out := &VStruct{T: s.T}
	for _, c := range s.F {
		if in, ok := c.V.(*VStruct); ok {
			out.F = append(out.F, &Cell{cloneStruct(in)})
		} else {
			out.F = append(out.F, &Cell{c.V})
		}
	}
	return out
}

type want struct {
	ref      string
	is       any  // what it designates, nil when nothing
	also     any  // and what this refers to
	maybe    bool // may also be refused
	what     string
	typ      *types.Named
	sections string
}

// table asks every accessor for every section.
func (k *kindTable) table() {
	v := fmt.Sprintf("v%d", k.m.major)
	m := NewMachine(k.w)
	var root, dep *Cell
	if _, err, _ := m.Try(func() any { root, dep = k.pair(m, k.document(true), k.document(false)); return nil }); err != nil {
		k.r.FailAt("undecided:table:"+v, "-", "the documents of the table could not be folded: %v", err)
		return
	}
	var ws []want
	for _, file := range []string{"", "dep.json", "./dep.json"} {
		spec := root
		if file != "" {
			spec = dep
		}
		for _, f := range k.comps {
			for _, n := range []string{"a", "b"} {
				e := k.at(spec, k.cf, f, n)
				ws = append(ws, want{ref: file + "#/components/" + f.tag + "/" + n, is: e, typ: f.elem, sections: f.tag})
				ws = append(ws, want{ref: file + "#/components/" + f.tag + "/" + n + "/nothing", typ: f.elem, sections: f.tag})
				for _, g := range k.m.fields(f.elem) {
					if (g.tag == "payload" || g.tag == "headers") && g.elem != nil {
						x := k.field(e, g.name())
						ws = append(ws, want{ref: file + "#/components/" + f.tag + "/" + n + "/" + g.tag, is: x, typ: g.elem, sections: f.tag, maybe: f.tag != "messages"})
						p := entry(k.field(x, "Properties"), "p")
						ws = append(ws, want{ref: file + "#/components/" + f.tag + "/" + n + "/" + g.tag + "/p", is: p, typ: g.elem, sections: f.tag, maybe: true})
					}
					if g.tag == "properties" && g.kind == "map" {
						p := entry(k.field(e, "Properties"), "p")
						q := entry(k.field(p, "Properties"), "q")
						for _, between := range []string{"", "properties/"} {
							ws = append(ws, want{ref: file + "#/components/" + f.tag + "/" + n + "/" + between + "p", is: p, typ: g.elem, sections: f.tag, maybe: true})
							ws = append(ws, want{ref: file + "#/components/" + f.tag + "/" + n + "/" + between + "p/" + between + "q", is: q, typ: g.elem, sections: f.tag, maybe: true})
						}
					}
				}
			}
			ws = append(ws, want{ref: file + "#/components/" + f.tag + "/absent", typ: f.elem, sections: f.tag})
		}
		for _, f := range k.tops {
			e := k.at(spec, nil, f, "a")
			ws = append(ws, want{ref: file + "#/" + f.tag + "/a", is: e, typ: f.elem, sections: "/" + f.tag, maybe: f.tag != "channels" && f.tag != "servers"})
			ws = append(ws, want{ref: file + "#/" + f.tag + "/absent", typ: f.elem, sections: "/" + f.tag})
			for _, g := range k.m.fields(f.elem) {
				if g.tag != "messages" || g.kind != "map" || !strings.HasPrefix(f.tag, "channels") {
					continue
				}
				// in a channel, given here or by reference
				in := map[string]any{"a": e, "b": k.at(spec, nil, f, "b")}
				for _, c := range k.comps {
					if c.elem == f.elem {
						in["r"] = k.at(spec, k.cf, c, "a")
						if file == "" {
							in["s"] = k.at(dep, nil, f, "a")
						}
					}
				}
				for _, n := range sortedKeys(in) {
					for _, y := range []string{"a", "b", "payload"} {
						z := entry(k.field(in[n], g.name()), y)
						at := file + "#/" + f.tag + "/" + n + "/messages/" + y
						var also any
						for _, c := range k.comps {
							if y == "b" && c.tag == "messages" {
								also = k.at(spec, k.cf, c, "a")
								if n == "s" {
									also = k.at(dep, k.cf, c, "a")
								}
							}
						}
						ws = append(ws, want{ref: at, is: z, also: also, typ: g.elem, sections: "/" + f.tag + "/messages"})
						for _, h := range k.m.fields(g.elem) {
							if (h.tag == "payload" || h.tag == "headers") && h.elem != nil && y != "b" {
								ws = append(ws, want{ref: at + "/" + h.tag, is: k.field(z, h.name()), typ: h.elem, sections: "/" + f.tag + "/messages"})
							}
						}
					}
					ws = append(ws, want{ref: file + "#/" + f.tag + "/" + n + "/messages/absent", typ: g.elem, sections: "/" + f.tag + "/messages"},
						want{ref: file + "#/" + f.tag + "/" + n + "/a", typ: g.elem, sections: "/" + f.tag + "/messages"},
						want{ref: file + "#/" + f.tag + "/" + n + "/bindings/a", typ: g.elem, sections: "/" + f.tag + "/messages"})
				}
			}
		}
	}
	for _, name := range sortedKeys(k.acc) {
		f := k.acc[name]
		kind := namedElem(f.Signature.Results().At(0))
		pairs := map[string]bool{}
		for _, x := range ws {
			pairs[x.sections] = true
			got, bad, p, err := k.ask(m, f, root, x.ref)
			key := fmt.Sprintf("%s:%s:%s", v, name, x.ref)
			fits := x.is != nil && types.Identical(x.typ, kind)
			switch {
			case p != nil:
				k.r.Fail("panic:"+key, f.Pos(), "%s(%q) panics: %v", name, x.ref, p.msg)
			case err != nil:
				k.r.Fail("undecided:"+key, f.Pos(), "%s(%q) could not be folded: %v", name, x.ref, err)
			case fits && bad && !x.maybe:
				k.r.Fail("refused:"+key, f.Pos(), "%s refuses %q, which designates a %s", name, x.ref, kind.Obj().Name())
			case fits && !bad && got != x.is && (x.also == nil || got != x.also):
				k.r.Fail("other:"+key, f.Pos(), "%s gives another element than the one %q designates", name, x.ref)
			case !fits && !bad:
				k.r.Fail("accepted:"+key, f.Pos(), "%s accepts %q, which designates no %s", name, x.ref, kind.Obj().Name())
			}
		}
		k.r.Count("accessor and section pairs", len(pairs))
		k.r.Count("references looked up", len(ws))
	}
}

// files: the file of a reference is the one that was added under that path, among
// files whose paths resemble each other, in any order of addition.
func (k *kindTable) files() {
	v := fmt.Sprintf("v%d", k.m.major)
	paths := []string{"dep.json", "./sub/dep.json", "other/dep.json", "dep.yaml", "./dep", "sub/dep.yaml", "Dep.json", "../dep.json", "/dep.json", "a-dep.json", "sub/sub/dep.json"}
	for _, rev := range []bool{false, true} {
		m := NewMachine(k.w)
		deps := map[string]*Cell{}
		var root *Cell
		add := k.w.Func(k.m.pkg, "Specification.AddDependency")
		if add == nil {
			k.r.FailAt("undecided:files:"+v, "-", "AddDependency is not resolved")
			return
		}
		_, err, _ := m.Try(func() any {
			root = k.load(m, k.document(false))
			for i := range paths {
				at := paths[i]
				if rev {
					at = paths[len(paths)-1-i]
				}
				deps[at] = k.load(m, k.document(false))
				if e := m.Call(add, root, at, &VIface{T: types.NewPointer(k.root), V: deps[at]}); e != nil {
					unsup("the dependency is refused: %s", m.show(e))
				}
			}
			return nil
		})
		if err != nil {
			k.r.FailAt("undecided:files:"+v, "-", "the documents with several dependencies could not be folded: %v", err)
			return
		}
		for _, name := range sortedKeys(k.acc) {
			f := k.acc[name]
			kind := namedElem(f.Signature.Results().At(0))
			for _, c := range k.comps {
				if !types.Identical(c.elem, kind) {
					continue
				}
				for _, at := range append([]string{""}, paths...) {
					spec := root
					if at != "" {
						spec = deps[at]
					}
					for _, said := range []string{at, "./" + strings.TrimPrefix(at, "./")} {
						if strings.HasPrefix(said, "./.") || said == ".//dep.json" || at == "" && said != "" {
							continue
						}
						k.r.Count("references into one of several files", 1)
						ref := said + "#/components/" + c.tag + "/a"
						got, bad, p, err := k.ask(m, f, root, ref)
						key := fmt.Sprintf("%s:%s:%s", v, name, ref)
						switch {
						case p != nil:
							k.r.Fail("panic:"+key, f.Pos(), "%s(%q) panics: %v", name, ref, p.msg)
						case err != nil:
							k.r.Fail("undecided:"+key, f.Pos(), "%s(%q) could not be folded: %v", name, ref, err)
						case bad:
							k.r.Fail("refused:"+key, f.Pos(), "%s refuses %q although the file was added", name, ref)
						case got != k.at(spec, k.cf, c, "a"):
							k.r.Fail("file:"+key, f.Pos(), "%s looks %q up in another file than the one that was added under this path", name, ref)
						}
					}
				}
			}
		}
	}
}

func (k *kindTable) ask(m *Machine, f *ssa.Function, root *Cell, ref string) (got any, refused bool, p *foldPanic, err error) {
	v, err, p := m.Try(func() any { return m.Call(f, asReceiver(f, root), ref) })
	if err != nil || p != nil {
		return nil, false, p, err
	}
	t := v.(VTuple)
	return t[0], t[1] != nil, nil, nil
}

// malformed references are refused by every accessor.
func (k *kindTable) malformed() {
	v := fmt.Sprintf("v%d", k.m.major)
	m := NewMachine(k.w)
	var root *Cell
	if _, err, _ := m.Try(func() any { root, _ = k.pair(m, k.document(true), k.document(false)); return nil }); err != nil {
		return
	}
	bad := []string{"", "a", "#", "#/", "##", "#/components", "#/components/", "#//", "#/unknown/a", "#/components/unknown/a", "unknown.json#/components/schemas/a", "dep.json", "dep.json#", "#/info", "#/info/title", "components/schemas/a", "#/asyncapi", "a#b#c", "#/components/schemas/a#", "#/channels", "#/channels/"}
	for _, f := range k.comps {
		bad = append(bad, "#/components/"+f.tag, "#/components/"+f.tag+"/", "#/"+f.tag+"/absent", "other.json#/components/"+f.tag+"/a", "#/components/"+strings.ToUpper(f.tag)+"/a", "#/components/"+f.name()+"_/a")
	}
	// the sections of the other formats
	for _, o := range specModels(k.w) {
		for _, t := range o.types {
			if t.Obj().Name() != k.cf.elem.Obj().Name() {
				continue
			}
			for _, f := range o.fields(t) {
				own := false
				for _, g := range k.comps {
					own = own || g.tag == f.tag
				}
				if !own && f.fromDo && f.kind == "map" {
					bad = append(bad, "#/components/"+f.tag+"/a", "dep.json#/components/"+f.tag+"/a")
				}
			}
		}
	}
	for _, name := range sortedKeys(k.acc) {
		f := k.acc[name]
		for _, ref := range bad {
			k.r.Count("malformed references", 1)
			_, refused, p, err := k.ask(m, f, root, ref)
			key := fmt.Sprintf("%s:%s:%s", v, name, ref)
			switch {
			case p != nil:
				k.r.Fail("panic:"+key, f.Pos(), "%s(%q) panics: %v", name, ref, p.msg)
			case err != nil:
				k.r.Fail("undecided:"+key, f.Pos(), "%s(%q) could not be folded: %v", name, ref, err)
			case !refused:
				k.r.Fail("accepted:"+key, f.Pos(), "%s accepts %q", name, ref)
			}
		}
	}
}

// process folds Process over the two documents.
func (k *kindTable) process(root, dep map[string]any) (m *Machine, a, b *Cell, refused any, p *foldPanic, err error) {
	m = NewMachine(k.w)
	proc := k.w.Func(k.m.pkg, "Specification.Process")
	v, err, p := m.Try(func() any {
		if proc == nil {
			unsup("Process is not resolved")
		}
		a, b = k.pair(m, root, dep)
		return m.Call(proc, a)
	})
	return m, a, b, v, p, err
}

// refable: a type with a reference and what it designates.
func (k *kindTable) refable(n *types.Named) (ref, link *mfield) {
	for _, f := range k.m.fields(n) {
		if f.tag == "$ref" {
			ref = f
		}
		if p, ok := f.v.Type().(*types.Pointer); ok && !f.fromDo && types.Identical(p.Elem(), n) {
			link = f
		}
	}
	return
}

// chains of references lead to their end, across files; those that do not end are
// refused.
func (k *kindTable) chains() {
	for _, f := range k.comps {
		ref, link := k.refable(f.elem)
		if ref == nil || link == nil {
			continue
		}
		tn := f.elem.Obj().Name()
		local := "#/components/" + f.tag + "/"
		for _, hops := range [][]string{
			{"b"}, {"b", "dep"}, {"dep"}, {"dep", "back"}, {"b", "dep", "back"}, {"b", "dep", "same"},
		} {
			root, dep := k.document(true), k.document(false)
			rs, ds := root["components"].(map[string]any)[f.tag].(map[string]any), dep["components"].(map[string]any)[f.tag].(map[string]any)
			// a -> b -> the other file's a -> its b
			want := ""
			switch strings.Join(hops, ",") {
			case "b":
				rs["a"] = k.elem(f.elem, local+"b")
				want = "rb"
			case "b,dep":
				rs["a"] = k.elem(f.elem, local+"b")
				rs["b"] = k.elem(f.elem, "dep.json"+local+"b")
				want = "db"
			case "dep":
				rs["a"] = k.elem(f.elem, "./dep.json"+local+"b")
				want = "db"
			case "dep,back":
				rs["a"] = k.elem(f.elem, "dep.json"+local+"a")
				ds["a"] = k.elem(f.elem, local+"only")
				ds["only"] = k.elem(f.elem, "")
				want = "donly"
			case "b,dep,back", "b,dep,same":
				rs["a"] = k.elem(f.elem, local+"b")
				rs["b"] = k.elem(f.elem, "dep.json"+local+"a")
				end := "only"
				if hops[2] == "same" {
					end = "dep" // the name of an element of the first file too
				}
				ds["a"] = k.elem(f.elem, local+end)
				ds[end] = k.elem(f.elem, "")
				want = "d" + end
			}
			k.r.Count("chains of references", 1)
			key := fmt.Sprintf("v%d:%s:%s", k.m.major, tn, strings.Join(hops, ","))
			m, a, b, refused, p, err := k.process(root, dep)
			switch {
			case p != nil:
				k.r.Fail("panic:"+key, f.elem.Obj().Pos(), "processing a chain of references of %s (%s) panics: %v", tn, strings.Join(hops, ","), p.msg)
				continue
			case err != nil:
				k.r.Fail("undecided:"+key, f.elem.Obj().Pos(), "processing a chain of references of %s could not be folded: %v", tn, err)
				continue
			case refused != nil:
				k.r.Fail("refused:"+key, f.elem.Obj().Pos(), "a chain of references of %s (%s) is refused: %s", tn, strings.Join(hops, ","), m.show(refused))
				continue
			}
			spec := map[byte]*Cell{'r': a, 'd': b}[want[0]]
			end := k.at(spec, k.cf, f, want[1:])
			got := any(k.at(a, k.cf, f, "a"))
			for n := 0; n < 5; n++ {
				next, _ := k.field(got, link.name()).(*Cell)
				if next == nil {
					break
				}
				got = next
			}
			if got != end {
				k.r.Fail("chain:"+key, f.elem.Obj().Pos(), "a chain of references of %s (%s) does not lead to its end", tn, strings.Join(hops, ","))
			}
		}
	}
}

// places: what refers to another section than that of its kind is refused.
func (k *kindTable) places() {
	type place struct {
		where string
		put   func(d map[string]any, ref string)
		typ   *types.Named
	}
	var ps []place
	for _, f := range k.comps {
		if ref, link := k.refable(f.elem); ref == nil || link == nil {
			continue
		}
		f := f
		ps = append(ps, place{"components." + f.tag, func(d map[string]any, ref string) {
			d["components"].(map[string]any)[f.tag].(map[string]any)["z"] = map[string]any{"$ref": ref}
		}, f.elem})
		// and what it holds
		for _, g := range k.m.fields(f.elem) {
			if g.elem == nil || !g.fromDo || g.kind == "other" {
				continue
			}
			if ref, link := k.refable(g.elem); ref == nil || link == nil {
				continue
			}
			g := g
			ps = append(ps, place{"components." + f.tag + "." + g.tag, func(d map[string]any, ref string) {
				var v any = map[string]any{"$ref": ref}
				switch g.kind {
				case "list":
					v = []any{v}
				case "map":
					v = map[string]any{"x": v}
				}
				d["components"].(map[string]any)[f.tag].(map[string]any)["z"] = map[string]any{g.tag: v}
			}, g.elem})
		}
	}
	for _, f := range k.tops {
		if ref, link := k.refable(f.elem); ref == nil || link == nil {
			continue
		}
		f := f
		ps = append(ps, place{f.tag, func(d map[string]any, ref string) {
			d[f.tag].(map[string]any)["z"] = map[string]any{"$ref": ref}
		}, f.elem})
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].where < ps[j].where })
	type job struct {
		p    place
		ref  string
		fits bool
		done func()
	}
	var jobs []*job
	for _, p := range ps {
		refs := map[string]*types.Named{"#/components/" + k.comps[0].tag + "/absent": nil, "#/nothing": nil, "nowhere.json#/components/" + k.comps[0].tag + "/a": nil}
		for _, f := range k.comps {
			refs["#/components/"+f.tag+"/a"] = f.elem
		}
		for _, ref := range sortedKeys(refs) {
			jobs = append(jobs, &job{p: p, ref: ref, fits: refs[ref] != nil && types.Identical(refs[ref], p.typ)})
		}
	}
	parallel(len(jobs), func(i int) {
		j := jobs[i]
		d := k.document(true)
		j.p.put(d, j.ref)
		p, ref := j.p, j.ref
		key := fmt.Sprintf("v%d:%s:%s", k.m.major, p.where, ref)
		m, _, _, refused, pn, err := k.process(d, k.document(false))
		j.done = func() {
			switch {
			case pn != nil:
				k.r.Fail("panic:"+key, p.typ.Obj().Pos(), "a document where %s refers to %s makes Process panic: %v", p.where, ref, pn.msg)
			case err != nil:
				k.r.Fail("undecided:"+key, p.typ.Obj().Pos(), "a document where %s refers to %s could not be folded: %v", p.where, ref, err)
			case j.fits && refused != nil:
				k.r.Fail("refused:"+key, p.typ.Obj().Pos(), "a document where %s refers to %s is refused: %s", p.where, ref, m.show(refused))
			case !j.fits && refused == nil:
				k.r.Fail("accepted:"+key, p.typ.Obj().Pos(), "a document where %s refers to %s, which is no %s, is accepted", p.where, ref, p.typ.Obj().Name())
			}
		}
		if pn == nil && err == nil && (refused == nil) == j.fits {
			j.done = nil // do not keep the document
		}
	})
	for _, j := range jobs {
		k.r.Count("place and section pairs", 1)
		if j.done != nil {
			j.done()
		}
	}
}

// parallel runs n independent jobs.
func parallel(n int, f func(int)) {
	ch := make(chan int)
	var wg sync.WaitGroup
	for k := 0; k < 7; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// follow leads to the end of every chain.
func (k *kindTable) follow() {
	for _, n := range k.m.types {
		f := k.m.method(n, "Follow")
		_, link := k.refable(n)
		if f == nil || link == nil {
			continue
		}
		k.r.Count("types with Follow", 1)
		for length := 0; length <= 7; length++ {
			m := NewMachine(k.w)
			full := length > 3 // the elements also hold something themselves
			hold := func() *VStruct {
				s := zeroVal(n).(*VStruct)
				if !full {
					return s
				}
				for _, g := range k.m.fields(n) {
					if !g.fromDo || len(g.path) != 1 {
						continue
					}
					c := s.F[g.path[0]]
					switch t := g.v.Type().Underlying().(type) {
					case *types.Pointer:
						c.V = &Cell{V: zeroVal(t.Elem())}
					case *types.Map:
						mp := &VMap{M: map[string]*vment{}}
						if b, ok := t.Key().Underlying().(*types.Basic); ok && b.Kind() == types.String {
							mp.M["k"] = &vment{"k", zeroVal(t.Elem())}
						}
						c.V = mp
					case *types.Slice:
						c.V = &VSlice{E: []*Cell{{V: zeroVal(t.Elem())}}}
					case *types.Basic:
						if t.Kind() == types.String {
							c.V = "x"
						}
					}
				}
				return s
			}
			end := &Cell{V: hold()}
			first := end
			for i := 0; i < length%4; i++ {
				s := hold()
				setField(s, link.name(), first)
				first = &Cell{V: s}
			}
			v, err, p := m.Try(func() any { return m.Call(f, first) })
			switch {
			case p != nil || err != nil:
				k.r.Fail("undecided:follow:"+n.Obj().Name(), f.Pos(), "Follow of %s could not be folded: %v %v", n.Obj().Name(), err, p)
			case v != any(end):
				k.r.Fail(fmt.Sprintf("follow:v%d:%s", k.m.major, n.Obj().Name()), f.Pos(), "Follow of %s does not lead to the end of a chain of %d references", n.Obj().Name(), length%4)
			}
		}
	}
}
