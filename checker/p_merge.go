package main

import (
	"fmt"
	"go/token"
	"go/types"

	"strings"

	"golang.org/x/tools/go/ssa"
)

// C27: merging. What traits, references and combined schemas provide only fills gaps,
// field by field. The fields are those of the model's types; whether each one is set on
// the target and on the source is enumerated, alone and among others, and every case is
// decided by constant propagation through the merging functions. What uses them is
// decided on complete documents.

func init() {
	register("C27", "constant propagation, through ApplyTrait, Validations.Merge, MergeWith and both passes of Process, of every combination of a field set or not on the target and on the source, alone, among all others set, and for every pair of fields; the fields are enumerated from the types; sources are compared before and after, and targets before and after another use of the same source", ruleMerge)
}

type merging struct {
	r *Report
	w *World
	m *model
	k *kindTable
	n int // to make values distinct
}

func ruleMerge(r *Report) {
	for _, m := range specModels(r.W) {
		k := &kindTable{r: r, w: r.W, m: m, parse: r.W.Func(parserPath, "FromJSON"), acc: map[string]*ssa.Function{}}
		g := &merging{r: r, w: r.W, m: m, k: k}
		if k.parse == nil {
			r.FailAt("undecided:anchors", "-", "FromJSON is not resolved")
			return
		}
		if !k.sections() {
			continue
		}
		for _, n := range m.types {
			if f := m.method(n, "ApplyTrait"); f != nil {
				r.Count("types with traits", 1)
				g.traits(n, f)
			}
		}
		g.validations()
		g.schemas()
		g.composed()
		g.messages()
		if m.major == 3 {
			g.usedTraits()
		}
	}
	r.Floor("types with traits", 2)
	r.Floor("fields filled by traits", 17)
	r.Floor("validation constraints", 40)
	r.Floor("fields of schemas", 60)
	r.Floor("merges folded", 3000)
	r.Floor("documents folded", 60)
}

// slot is where a field is stored.
func slot(s *VStruct, f *mfield) *Cell {
	c := &Cell{s}
	for _, i := range f.path {
		c = c.V.(*VStruct).F[i]
	}
	return c
}

func isSchemaType(n *types.Named) bool { return n != nil && n.Obj().Name() == "Schema" }

// fill makes a value of a type, recognisable by its mark.
func (g *merging) fill(t types.Type, f *mfield, mark string, neg bool) any {
	g.n++
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return true
		case u.Info()&types.IsString != 0:
			if f != nil && f.tag == "type" {
				return "object"
			}
			return fmt.Sprintf("%s.%d", mark, g.n)
		case u.Info()&types.IsUnsigned != 0:
			return uint64(1000 + g.n)
		case u.Info()&types.IsInteger != 0:
			return int64(1000 + g.n)
		case u.Info()&types.IsFloat != 0:
			if neg {
				return -float64(g.n) - 0.5
			}
			return float64(g.n) + 0.5
		}
	case *types.Interface:
		return &VIface{T: types.Typ[types.String], V: fmt.Sprintf("%s.any.%d", mark, g.n)}
	case *types.Pointer:
		return &Cell{V: g.fill(u.Elem(), nil, mark, neg)}
	case *types.Slice:
		out := &VSlice{}
		for i := 0; i < 2; i++ {
			e := g.fill(u.Elem(), nil, fmt.Sprintf("%s.%d", mark, i), neg)
			if s := g.end(e); s != nil && !isSchemaType(namedOf(s.T)) {
				// told apart by their names only, one of which may be shared
				for _, n := range []string{"Description", "Summary"} {
					if j := fieldIndex(s, n); j >= 0 && i == 0 {
						s.F[j].V = "the same"
					}
				}
				if j := fieldIndex(s, "Name"); j >= 0 && i == 1 {
					s.F[j].V = "common"
				}
			}
			out.E = append(out.E, &Cell{V: e})
		}
		return out
	case *types.Map:
		mp := &VMap{M: map[string]*vment{}}
		for _, k := range []string{mark, "common"} {
			mp.M[keyStr(k)] = &vment{k, g.fill(u.Elem(), nil, mark+"."+k, neg)}
		}
		return mp
	case *types.Struct:
		s := zeroVal(t).(*VStruct)
		n, _ := types.Unalias(t).(*types.Named)
		if n == nil {
			return s
		}
		for _, h := range g.m.fields(n) {
			if !h.fromDo || h.tag == "$ref" || len(h.path) != 1 {
				continue
			}
			b, _ := h.v.Type().Underlying().(*types.Basic)
			switch {
			case isSchemaType(n) && h.tag == "type":
				s.F[h.path[0]].V = "object"
			case isSchemaType(n) && h.tag == "properties":
				leaf := zeroVal(t).(*VStruct)
				setField(leaf, "Type", "string")
				mp := &VMap{M: map[string]*vment{}}
				for _, k := range []string{mark + ".p", "shared"} {
					l := cp(leaf).(*VStruct)
					setField(l, "Description", fmt.Sprintf("%s.%s", mark, k))
					mp.M[keyStr(k)] = &vment{k, &Cell{V: l}}
				}
				s.F[h.path[0]].V = mp
			case b != nil && b.Kind() == types.String:
				s.F[h.path[0]].V = fmt.Sprintf("%s.%s.%d", mark, h.tag, g.n)
			}
		}
		if nf := fieldIndex(s, "Name"); nf >= 0 {
			if _, ok := s.F[nf].V.(string); ok {
				s.F[nf].V = fmt.Sprintf("%s.name.%d", mark, g.n)
			}
		}
		return s
	}
	return zeroVal(t)
}

func fieldIndex(s *VStruct, name string) int {
	st := s.T.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// text renders a value. With doc, only what documents say is rendered, and
// references are followed; otherwise everything exported, sharing included.
type texter struct {
	m   *model
	doc bool
	ids map[any]int
}

func (g *merging) doc(v any) string { return (&texter{g.m, true, map[any]int{}}).text(v, 0) }
func (g *merging) all(v any) string { return (&texter{g.m, false, map[any]int{}}).text(v, 0) }

func (x *texter) text(v any, depth int) string {
	if depth > 60 {
		return "…"
	}
	switch v := v.(type) {
	case nil:
		return "nil"
	case *Cell:
		if v == nil {
			return "nil"
		}
		if x.doc {
			for i := 0; i < 20; i++ {
				s, ok := v.V.(*VStruct)
				if !ok {
					break
				}
				j := fieldIndex(s, "ReferenceTo")
				if j < 0 {
					break
				}
				next, _ := s.F[j].V.(*Cell)
				if next == nil {
					break
				}
				v = next
			}
			if x.ids[v] > 0 {
				return "^"
			}
			x.ids[v]++
			defer func() { x.ids[v]-- }()
			return x.text(v.V, depth+1)
		}
		if id, ok := x.ids[v]; ok {
			return fmt.Sprintf("#%d", id)
		}
		id := len(x.ids)
		x.ids[v] = id
		return fmt.Sprintf("%d:%s", id, x.text(v.V, depth+1))
	case *VStruct:
		var out []string
		st := v.T.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f, tag := st.Field(i), reflectTag(st.Tag(i), "json")
			if !f.Exported() || x.doc && (tag == "-" || tag == "$ref" || tag == "name") {
				continue
			}
			if s := x.text(v.F[i].V, depth+1); s != "nil" && s != `""` && s != "0" && s != "false" {
				out = append(out, f.Name()+"="+s)
			}
		}
		if out == nil {
			return "nil"
		}
		return "{" + strings.Join(out, " ") + "}"
	case *VSlice:
		if v == nil || len(v.E) == 0 {
			return "nil"
		}
		var out []string
		for _, e := range v.E {
			out = append(out, x.text(e.V, depth+1))
		}
		return "[" + strings.Join(out, ", ") + "]"
	case *VMap:
		if v == nil || len(v.M) == 0 {
			return "nil"
		}
		var out []string
		for _, k := range sortedKeys(v.M) {
			out = append(out, k+":"+x.text(v.M[k].v, depth+1))
		}
		return "map[" + strings.Join(out, ", ") + "]"
	case *VIface:
		if v == nil {
			return "nil"
		}
		return x.text(v.V, depth+1)
	case string:
		return fmt.Sprintf("%q", v)
	case int64, uint64, float64, bool:
		return fmt.Sprint(v)
	}
	return fmt.Sprintf("%T", v)
}

func unset(v any) bool {
	switch v := v.(type) {
	case nil:
		return true
	case *Cell:
		return v == nil
	case *VSlice:
		return v == nil || len(v.E) == 0
	case *VMap:
		return v == nil || len(v.M) == 0
	case *VIface:
		return v == nil
	case string:
		return v == ""
	case bool:
		return !v
	case uint64:
		return v == 0
	case int64:
		return v == 0
	case float64:
		return v == 0
	}
	return false
}

// assignments of the fields of a target (t) and of a source (s).
type assignment struct {
	t, s map[*mfield]bool
	what string
	neg  bool
}

func assignments(fs []*mfield) (out []assignment) {
	one := func(what string) assignment {
		return assignment{map[*mfield]bool{}, map[*mfield]bool{}, what, false}
	}
	out = append(out, one("nothing set"))
	for _, neg := range []bool{false, true} {
		for _, f := range fs {
			if neg && !isFloat(f.v.Type()) {
				continue
			}
			for c := 1; c < 4; c++ {
				a := one(fmt.Sprintf("%s set on %s", f.tag, [...]string{"", "the target", "the source", "both"}[c]))
				a.t[f], a.s[f], a.neg = c&1 != 0, c&2 != 0, neg
				out = append(out, a)
			}
			for c := 0; c < 4; c++ {
				// among the others
				a := one(fmt.Sprintf("%s set on %s, the others on both", f.tag, [...]string{"neither", "the target", "the source", "both"}[c]))
				for _, h := range fs {
					a.t[h], a.s[h] = true, true
				}
				a.t[f], a.s[f], a.neg = c&1 != 0, c&2 != 0, neg
				out = append(out, a)
			}
		}
	}
	for _, f := range fs {
		for _, h := range fs {
			if f != h {
				a := one(fmt.Sprintf("%s set on the target and %s on the source", f.tag, h.tag))
				a.t[f], a.s[h] = true, true
				out = append(out, a)
			}
		}
	}
	all := one("everything set on the source")
	for _, f := range fs {
		all.s[f] = true
	}
	return append(out, all)
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (g *merging) build(t types.Type, fs []*mfield, set map[*mfield]bool, mark string, neg bool) *VStruct {
	s := zeroVal(t).(*VStruct)
	for _, f := range fs {
		if set[f] {
			slot(s, f).V = g.fill(f.v.Type(), f, mark, neg)
		}
	}
	return s
}

// traits decides ApplyTrait.
func (g *merging) traits(n *types.Named, fn *ssa.Function) {
	tn := fmt.Sprintf("v%d.%s", g.m.major, n.Obj().Name())
	var trait *types.Named
	ti := -1
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if e := namedElem(fn.Signature.Params().At(i)); e != nil && strings.HasSuffix(e.Obj().Name(), "Trait") {
			trait, ti = e, i
		}
	}
	if trait == nil {
		g.r.Fail("undecided:trait:"+tn, fn.Pos(), "ApplyTrait of %s takes no trait", tn)
		return
	}
	own := map[string]*mfield{}
	for _, f := range g.m.fields(n) {
		if f.fromDo {
			own[f.tag] = f
		}
	}
	var sf, tf []*mfield
	for _, f := range g.m.fields(trait) {
		// names are given by the naming pass
		if !f.fromDo || f.tag == "$ref" || f.tag == "name" {
			continue
		}
		if own[f.tag] == nil {
			g.r.Fail("missing:"+tn+"."+f.tag, f.v.Pos(), "a trait provides %s, which %s has not", f.tag, tn)
			continue
		}
		g.r.Count("fields filled by traits", 1)
		sf, tf = append(sf, f), append(tf, own[f.tag])
	}
	back := map[*mfield]*mfield{}
	for i, f := range sf {
		back[f] = tf[i]
	}
	spec := zeroVal(g.root()).(*VStruct)
	for _, a := range assignments(sf) {
		m := NewMachine(g.w)
		src := &Cell{V: g.build(trait, sf, a.s, "s", a.neg)}
		tset := map[*mfield]bool{}
		for f := range a.t {
			tset[back[f]] = a.t[f]
		}
		g.n = 5000
		dst := &Cell{V: g.build(n, tf, tset, "t", a.neg)}
		other := &Cell{V: zeroVal(n)}
		setField(dst.V.(*VStruct), "Name", "Target")
		setField(other.V.(*VStruct), "Name", "Other")
		wasSrc, wasDst := g.all(src), g.before(dst.V.(*VStruct), tf)
		apply := func(to *Cell) any {
			var args []any
			args = append(args, to)
			for i := 0; i < fn.Signature.Params().Len(); i++ {
				if i == ti {
					args = append(args, src)
				} else {
					args = append(args, cp(spec))
				}
			}
			return m.Call(fn, args...)
		}
		var e, e2 any
		var once string
		g.r.Count("merges folded", 1)
		_, err, p := m.Try(func() any { e = apply(dst); once = g.all(dst); e2 = apply(other); return nil })
		at := fmt.Sprintf("%s with %s", tn, a.what)
		switch {
		case err != nil || p != nil:
			g.r.Fail("undecided:trait:"+tn, fn.Pos(), "applying a trait to %s could not be folded: %v %v", at, err, p)
			return
		case e != nil || e2 != nil:
			g.r.Fail("error:"+tn, fn.Pos(), "applying a trait to %s is refused: %s", at, m.show(e))
			continue
		}
		if s := g.all(src); s != wasSrc {
			g.r.Fail("source:"+tn, fn.Pos(), "applying a trait to %s modifies the trait: %s", at, firstDiff(wasSrc, s))
		}
		if s := g.all(dst); s != once {
			g.r.Fail("shared:"+tn, fn.Pos(), "applying a trait to %s modifies what it was applied to before: %s", at, firstDiff(once, s))
		}
		for i, f := range sf {
			o := tf[i]
			got := slot(dst.V.(*VStruct), o).V
			want := slot(src.V.(*VStruct), f).V
			key := "trait:" + tn + "." + f.tag
			switch {
			case isSchemaType(o.elem) && o.kind == "pointer" && a.t[f] && a.s[f]:
				g.united(key, o.v.Pos(), at+": "+f.tag, wasDst[o], want, got)
			case o.kind == "list" || isList(o.v.Type()):
				g.list(key, o.v.Pos(), at, f.tag, wasDst[o], want, got, true)
			case a.t[f]:
				if d := g.doc(got); d != wasDst[o].text {
					g.r.Fail("overrides:"+key, fn.Pos(), "applying a trait to %s changes its %s: %s instead of %s", at, f.tag, d, wasDst[o].text)
				}
			default:
				if d, e := g.doc(got), g.doc(want); d != e {
					g.r.Fail("fills:"+key, fn.Pos(), "applying a trait to %s: its %s is %s, the trait's is %s", at, f.tag, d, e)
				}
			}
		}
		// and nothing else
		for _, o := range g.m.fields(n) {
			if o.fromDo && o.tag != "name" && !inFields(tf, o) && !unset(slot(dst.V.(*VStruct), o).V) {
				g.r.Fail("invents:"+tn+"."+o.tag, fn.Pos(), "applying a trait to %s sets its %s", at, o.tag)
			}
		}
	}
}

func isList(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

func inFields(fs []*mfield, f *mfield) bool {
	for _, g := range fs {
		if g.tag == f.tag {
			return true
		}
	}
	return false
}

func (g *merging) root() types.Type { return g.k.root }

// sections resolves the types of the document.
func (k *kindTable) sections() bool {
	o, _ := k.w.SSA[k.m.pkg].Pkg.Scope().Lookup("Specification").(*types.TypeName)
	if o == nil {
		k.r.FailAt(fmt.Sprintf("undecided:v%d", k.m.major), "-", "the model of version %d is not resolved", k.m.major)
		return false
	}
	k.root = o.Type().(*types.Named)
	for _, f := range k.m.fields(k.root) {
		if f.tag == "components" {
			k.cf = f
		}
	}
	if k.cf == nil || k.cf.elem == nil {
		k.r.FailAt(fmt.Sprintf("undecided:components:v%d", k.m.major), "-", "the components of version %d are not resolved", k.m.major)
		return false
	}
	for _, f := range k.m.fields(k.cf.elem) {
		if f.fromDo && f.kind == "map" && f.elem != nil {
			k.comps = append(k.comps, f)
		}
	}
	return true
}

// state of a field before merging.
type state struct {
	text  string
	elems []any             // of a list
	props map[string]string // of a schema
	req   []string
}

func (g *merging) before(s *VStruct, fs []*mfield) map[*mfield]state {
	out := map[*mfield]state{}
	for _, f := range fs {
		out[f] = g.state(slot(s, f).V)
	}
	return out
}

func (g *merging) state(v any) state {
	st := state{text: g.doc(v)}
	if l, _ := v.(*VSlice); l != nil {
		for _, e := range l.E {
			st.elems = append(st.elems, e.V)
		}
	}
	if s := g.end(v); s != nil {
		if fieldIndex(s, "Properties") >= 0 {
			st.props = g.props(s)
			st.req = g.required(s)
		}
	}
	return st
}

// end is the structure at the end of the references.
func (g *merging) end(v any) *VStruct {
	for i := 0; i < 20; i++ {
		c, _ := v.(*Cell)
		if c == nil {
			return nil
		}
		s, _ := c.V.(*VStruct)
		if s == nil {
			return nil
		}
		j := fieldIndex(s, "ReferenceTo")
		if j < 0 || unset(s.F[j].V) {
			return s
		}
		v = s.F[j].V
	}
	return nil
}

func (g *merging) props(s *VStruct) map[string]string {
	out := map[string]string{}
	if mp, _ := getField(s, "Properties").(*VMap); mp != nil {
		for _, e := range mp.M {
			out[e.k.(string)] = g.doc(e.v)
		}
	}
	return out
}

func (g *merging) required(s *VStruct) []string {
	v := s
	for i, st := 0, s.T.Underlying().(*types.Struct); i < st.NumFields(); i++ {
		if st.Field(i).Embedded() && fieldIndex(v, "Required") < 0 {
			if in, ok := s.F[i].V.(*VStruct); ok && fieldIndex(in, "Required") >= 0 {
				v = in
			}
		}
	}
	if fieldIndex(v, "Required") < 0 {
		return nil
	}
	return strsOf(getField(v, "Required"))
}

// list: the elements of the target, then those of the source.
func (g *merging) list(key string, pos token.Pos, at, tag string, was state, src, got any, once bool) {
	l, _ := got.(*VSlice)
	var have []any
	if l != nil {
		for _, e := range l.E {
			have = append(have, e.V)
		}
	}
	same := func(a, b any) bool {
		if ca, ok := a.(*Cell); ok {
			cb, _ := b.(*Cell)
			return ca == cb || cb != nil && (g.end(ca) == g.end(cb) || g.all(ca) == g.all(cb))
		}
		return g.all(a) == g.all(b)
	}
	name := func(e any) string {
		s := g.end(e)
		if s == nil || fieldIndex(s, "Name") < 0 {
			return ""
		}
		n, _ := getField(s, "Name").(string)
		return n
	}
	named := map[string]any{}
	want := append([]any(nil), was.elems...)
	for _, e := range want {
		if n := name(e); n != "" && named[n] == nil {
			named[n] = e
		}
	}
	var may []any // elements of the source that the target also has
	if s, _ := src.(*VSlice); s != nil {
		for _, e := range s.E {
			if n := name(e.V); n != "" && named[n] != nil {
				may = append(may, e.V)
			} else {
				want = append(want, e.V)
			}
		}
	}
	for _, e := range want {
		found := false
		for _, h := range have {
			found = found || same(h, e)
		}
		if !found {
			g.r.Fail("lost:"+key, pos, "merging into %s: an element of %s is lost: %s", at, tag, g.all(e))
			return
		}
	}
	first := map[string]bool{}
	for i, h := range have {
		n, m := 0, 0
		for _, e := range append(want[:len(want):len(want)], may...) {
			if same(h, e) {
				n++
			}
		}
		for _, o := range have[i:] {
			if same(h, o) {
				m++
			}
		}
		if n == 0 || once && m > n {
			g.r.Fail("alien:"+key, pos, "merging into %s: %s has an element that neither provides: %s", at, tag, g.all(h))
			return
		}
		if nm := name(h); nm != "" && !first[nm] {
			first[nm] = true
			if e := named[nm]; e != nil && !same(h, e) {
				g.r.Fail("winner:"+key, pos, "merging into %s: the element %s of %s is the source's, not its own", at, nm, tag)
			}
		}
	}
}

// united: the properties of both schemas, the target's own winning.
func (g *merging) united(key string, pos token.Pos, at string, was state, src, got any) {
	s, e := g.end(src), g.end(got)
	if s == nil || e == nil {
		g.r.Fail("lost:"+key, pos, "merging into %s: nothing is left", at)
		return
	}
	want := g.props(s)
	for k, v := range was.props {
		want[k] = v
	}
	have := g.props(e)
	for _, k := range sortedKeys(want) {
		if have[k] != want[k] {
			g.r.Fail("property:"+key, pos, "merging into %s: the property %s is %s instead of %s", at, k, orNothing(have[k]), want[k])
			return
		}
	}
	for _, k := range sortedKeys(have) {
		if _, ok := want[k]; !ok {
			g.r.Fail("property:"+key, pos, "merging into %s: neither provides the property %s", at, k)
			return
		}
	}
	g.needs(key, pos, at, append(append([]string(nil), was.req...), g.required(s)...), g.required(e))
}

func orNothing(s string) string {
	if s == "" {
		return "absent"
	}
	return s
}

// needs: the names required are those of both.
func (g *merging) needs(key string, pos token.Pos, at string, want, have []string) {
	a, b := map[string]bool{}, map[string]bool{}
	for _, x := range want {
		a[x] = true
	}
	for _, x := range have {
		if b[x] {
			g.r.Fail("required:"+key, pos, "merging into %s: %s is required twice", at, x)
		}
		b[x] = true
	}
	if x, y := strings.Join(sortedKeys(a), ","), strings.Join(sortedKeys(b), ","); x != y {
		g.r.Fail("required:"+key, pos, "merging into %s: %q are required instead of %q", at, y, x)
	}
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 30
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 50
		if hi > len(s) {
			hi = len(s)
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("…%s… becomes …%s…", cut(a), cut(b))
}

// validations decides Merge, by which a schema takes the constraints of the one it refers to.
func (g *merging) validations() {
	schema := g.schemaType()
	if schema == nil {
		return
	}
	st := schema.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		vt, _ := types.Unalias(st.Field(i).Type()).(*types.Named)
		if !st.Field(i).Embedded() || vt == nil {
			continue
		}
		var fn *ssa.Function
		if vt.Obj().Pkg() != nil && g.m.w.SSA[vt.Obj().Pkg().Path()] != nil {
			fn = g.w.MethodOf(types.NewPointer(vt), "Merge")
		}
		if fn == nil {
			continue
		}
		g.r.Count("types of validations", 1)
		vs := vt.Underlying().(*types.Struct)
		var fs []*mfield
		for j := 0; j < vs.NumFields(); j++ {
			fs = append(fs, &mfield{v: vs.Field(j), tag: vs.Field(j).Name(), path: []int{j}})
			g.r.Count("validation constraints", 1)
		}
		tn := fmt.Sprintf("v%d.%s", g.m.major, vt.Obj().Name())
		for _, a := range assignments(fs) {
			m := NewMachine(g.w)
			g.n = 0
			src := g.build(vt, fs, a.s, "s", a.neg)
			g.n = 5000
			dst := &Cell{V: g.build(vt, fs, a.t, "t", a.neg)}
			wasSrc := g.all(src)
			want := map[*mfield]string{}
			for _, f := range fs {
				want[f] = g.all(slot(dst.V.(*VStruct), f).V)
				if a.s[f] {
					want[f] = g.all(slot(src, f).V)
				}
			}
			g.r.Count("merges folded", 1)
			_, err, p := m.Try(func() any { return m.Call(fn, dst, src) })
			if err != nil || p != nil {
				g.r.Fail("undecided:validations:"+tn, fn.Pos(), "merging validations could not be folded: %v %v", err, p)
				return
			}
			if s := g.all(src); s != wasSrc {
				g.r.Fail("source:validations:"+tn, fn.Pos(), "taking the constraints of a referenced schema modifies it: %s", firstDiff(wasSrc, s))
			}
			for _, f := range fs {
				// being required is no constraint of the schema, but of its place in
				// a parent: what fields show of it is with the rule on tags
				if b, _ := f.v.Type().(*types.Basic); b != nil && b.Kind() == types.Bool && strings.HasPrefix(vs.Tag(f.path[0]), `json:"-"`) {
					continue
				}
				if got := g.all(slot(dst.V.(*VStruct), f).V); got != want[f] {
					g.r.Fail("constraint:"+tn+"."+f.tag, fn.Pos(), "with %s: %s is %s instead of %s", a.what, f.tag, got, want[f])
				}
			}
		}
	}
	g.r.Floor("types of validations", g.m.major-1)
}

func (g *merging) schemaType() *types.Named {
	for _, n := range g.m.types {
		if isSchemaType(n) {
			return n
		}
	}
	g.r.FailAt(fmt.Sprintf("undecided:schema:v%d", g.m.major), "-", "the schemas of version %d are not resolved", g.m.major)
	return nil
}

// schemas decides MergeWith on schemas.
func (g *merging) schemas() {
	n := g.schemaType()
	if n == nil {
		return
	}
	fn := g.m.method(n, "MergeWith")
	if fn == nil {
		return // decided on documents
	}
	si := fn.Signature.Params().Len() - 1
	tn := fmt.Sprintf("v%d.%s", g.m.major, n.Obj().Name())
	var fs []*mfield
	for _, f := range g.m.fields(n) {
		if f.fromDo && f.tag != "$ref" && !strings.HasPrefix(f.tag, "x-") {
			fs = append(fs, f)
		}
	}
	g.r.Count("fields of schemas", len(fs))
	unites := map[string]bool{"properties": true, "required": true, "allOf": true, "anyOf": true, "oneOf": true}
	var as []assignment
	for _, a := range assignments(fs) {
		// pairs of fields only where one is merged
		merged := 0
		for _, s := range []map[*mfield]bool{a.t, a.s} {
			for f := range s {
				if unites[f.tag] || f.tag == "type" {
					merged++
				}
			}
		}
		if len(a.t)+len(a.s) != 2 || merged > 0 || strings.Contains(a.what, "both") {
			as = append(as, a)
		}
	}
	for _, a := range as {
		for form := 0; form < 4; form++ {
			srcByRef, dstByRef := form&1 != 0, form&2 != 0
			m := NewMachine(g.w)
			g.n = 0
			src := g.build(n, fs, a.s, "s", a.neg)
			g.n = 5000
			dst := &Cell{V: g.build(n, fs, a.t, "t", a.neg)}
			given := src
			if srcByRef {
				given = zeroVal(n).(*VStruct)
				setField(given, "Reference", "#/components/schemas/S")
				setField(given, "ReferenceTo", &Cell{V: src})
				// what is taken when the reference is resolved
				for _, f := range fs {
					if len(f.path) > 1 {
						slot(given, f).V = slot(src, f).V
					}
				}
			}
			target := dst
			if dstByRef {
				target = &Cell{V: zeroVal(n)}
				setField(target.V.(*VStruct), "Reference", "#/components/schemas/T")
				setField(target.V.(*VStruct), "ReferenceTo", dst)
				for _, f := range fs {
					if len(f.path) > 1 {
						slot(target.V.(*VStruct), f).V = slot(dst.V.(*VStruct), f).V
					}
				}
			}
			wasSrc, wasRef := g.all(src), g.all(dst)
			was := g.before(dst.V.(*VStruct), fs)
			wasAll := g.state(dst)
			args := []any{target}
			for i := 0; i < fn.Signature.Params().Len(); i++ {
				if i == si {
					args = append(args, given)
				} else {
					args = append(args, zeroVal(fn.Signature.Params().At(i).Type()))
				}
			}
			g.r.Count("merges folded", 1)
			var e any
			_, err, p := m.Try(func() any { e = m.Call(fn, args...); return nil })
			at := fmt.Sprintf("%s with %s (source %s, target %s)", tn, a.what, byRef(srcByRef), byRef(dstByRef))
			switch {
			case err != nil || p != nil:
				g.r.Fail("undecided:schema:"+tn, fn.Pos(), "merging %s could not be folded: %v %v", at, err, p)
				return
			case e != nil:
				g.r.Fail("error:"+tn, fn.Pos(), "merging %s is refused: %s", at, m.show(e))
				continue
			}
			if s := g.all(src); s != wasSrc {
				g.r.Fail("source:"+tn, fn.Pos(), "merging %s modifies the source: %s", at, firstDiff(wasSrc, s))
			}
			if s := g.all(dst); dstByRef && s != wasRef {
				g.r.Fail("target:"+tn, fn.Pos(), "merging %s modifies the schema that the target refers to: %s", at, firstDiff(wasRef, s))
			}
			end := g.end(target)
			if end == nil {
				g.r.Fail("lost:"+tn, fn.Pos(), "merging %s leaves nothing", at)
				continue
			}
			g.united("schema:"+tn, fn.Pos(), at, wasAll, &Cell{V: src}, target)
			for _, f := range fs {
				got := slot(end, f).V
				want := slot(src, f).V
				key := "schema:" + tn + "." + f.tag
				switch {
				case f.tag == "properties" || f.tag == "required":
				case f.tag == "type":
					if got != "object" {
						g.r.Fail("overrides:"+key, fn.Pos(), "merging %s: the type is %s", at, g.doc(got))
					}
				case unites[f.tag]:
					g.list(key, f.v.Pos(), at, f.tag, was[f], want, got, false)
				case a.t[f] && !dstByRef:
					if d := g.doc(got); d != was[f].text {
						g.r.Fail("overrides:"+key, fn.Pos(), "merging %s changes its %s: %s instead of %s", at, f.tag, d, was[f].text)
					}
				case !unset(got):
					if d := g.doc(got); d != g.doc(want) && d != was[f].text {
						g.r.Fail("fills:"+key, fn.Pos(), "merging %s: its %s is %s, the source's is %s", at, f.tag, d, g.doc(want))
					}
				}
			}
		}
	}
	// what is no object is not made of other schemas
	for _, t := range []string{"string", "integer", "number", "boolean", "array"} {
		for form := 0; form < 4; form++ {
			m := NewMachine(g.w)
			src := zeroVal(n).(*VStruct)
			setField(src, "Type", []string{"object", t}[form&1])
			end := zeroVal(n).(*VStruct)
			setField(end, "Type", t)
			dst := &Cell{V: end}
			if form&2 != 0 {
				to := dst
				dst = &Cell{V: zeroVal(n)}
				setField(dst.V.(*VStruct), "ReferenceTo", to)
			}
			args := []any{dst}
			for i := 0; i < fn.Signature.Params().Len(); i++ {
				if i == si {
					args = append(args, src)
				} else {
					args = append(args, zeroVal(fn.Signature.Params().At(i).Type()))
				}
			}
			g.r.Count("merges folded", 1)
			_, err, p := m.Try(func() any { return m.Call(fn, args...) })
			if err != nil || p != nil {
				g.r.Fail("undecided:schema:"+tn, fn.Pos(), "merging could not be folded: %v %v", err, p)
				continue
			}
			if s := g.end(dst); s == nil || getField(s, "Type") != t {
				g.r.Fail("overrides:schema:"+tn+".type", fn.Pos(), "merging into a schema changes its type, %s", t)
			}
		}
	}
}

func byRef(b bool) string {
	if b {
		return "given by reference"
	}
	return "given in place"
}

// --- on documents -----------------------------------------------------------

type doc = map[string]any

func (g *merging) base() doc {
	return doc{"asyncapi": map[int]string{2: "2.6.0", 3: "3.0.0"}[g.m.major], "info": doc{"title": "t", "version": "1"}, "channels": doc{}, "components": doc{}}
}

// schema with a property of its own and one that others also have.
func schemaDoc(mark string, required bool) doc {
	d := doc{"type": "object", "properties": doc{
		mark:     doc{"type": "object", "description": "of " + mark, "properties": doc{"deep": doc{"type": "object", "properties": doc{"leaf": doc{"type": "string"}}}}},
		"common": doc{"type": "string", "description": "of " + mark},
		"list":   doc{"type": "array", "items": doc{"type": "object", "additionalProperties": doc{"type": "object", "properties": doc{"in": doc{"type": "string"}}}, "properties": doc{"item": doc{"type": "array", "items": doc{"type": "object", "properties": doc{"i": doc{"type": "string"}}}}}}},
	}}
	if required {
		d["required"] = []any{mark}
	}
	return d
}

func (g *merging) fold(d doc) (*Machine, *Cell, string) {
	m := NewMachine(g.w)
	proc := g.w.Func(g.m.pkg, "Specification.Process")
	var spec *Cell
	var refused any
	g.r.Count("documents folded", 1)
	_, err, p := m.Try(func() any {
		if proc == nil {
			unsup("Process is not resolved")
		}
		spec = g.k.load(m, d)
		refused = m.Call(proc, spec)
		return nil
	})
	switch {
	case err != nil:
		return m, nil, err.Error()
	case p != nil:
		return m, nil, "panic: " + p.msg
	case refused != nil:
		return m, nil, "refused: " + m.show(refused)
	}
	return m, spec, ""
}

func (g *merging) component(spec *Cell, section, name string) *Cell {
	for _, f := range g.k.comps {
		if f.tag == section {
			c, _ := g.k.at(spec, g.k.cf, f, name).(*Cell)
			return c
		}
	}
	return nil
}

// composed: allOf, anyOf and oneOf.
func (g *merging) composed() {
	n := g.schemaType()
	if n == nil {
		return
	}
	v := fmt.Sprintf("v%d", g.m.major)
	for _, comb := range []string{"allOf", "anyOf", "oneOf"} {
		for _, form := range []string{"in place", "by reference", "by references to references", "nested", "a mix"} {
			for _, own := range []bool{true, false} {
				parts := []any{}
				cs := doc{"R": schemaDoc("r", true), "S": doc{"$ref": "#/components/schemas/R"}, "Q": doc{"$ref": "#/components/schemas/S"}, "N": doc{"type": "object", comb: []any{schemaDoc("n", true), doc{"$ref": "#/components/schemas/R"}}}}
				var marks []string
				switch form {
				case "in place":
					parts = []any{schemaDoc("a", true), schemaDoc("b", false)}
					marks = []string{"a", "b"}
				case "by reference":
					parts = []any{doc{"$ref": "#/components/schemas/R"}}
					marks = []string{"r"}
				case "by references to references":
					parts = []any{doc{"$ref": "#/components/schemas/Q"}}
					marks = []string{"r"}
				case "nested":
					parts = []any{doc{"$ref": "#/components/schemas/N"}, doc{"type": "object", comb: []any{schemaDoc("z", false)}}}
					marks = []string{"n", "r", "z"}
				default:
					parts = []any{doc{"$ref": "#/components/schemas/R"}, nil, schemaDoc("a", true), doc{"$ref": "#/components/schemas/N"}}
					marks = []string{"r", "a", "n"}
				}
				x := doc{"type": "object", comb: parts}
				first := ""
				if len(marks) > 0 {
					first = marks[0]
				}
				need := map[string]bool{"r": true, "a": true, "n": true}
				if own {
					x["properties"] = schemaDoc("x", true)["properties"]
					x["required"] = []any{"x"}
					marks = append([]string{"x"}, marks...)
					first = "x"
					need["x"] = true
				}
				d := g.base()
				d["components"] = doc{"schemas": cs}
				_, alone, why := g.fold(d)
				key := fmt.Sprintf("%s:%s:%s", v, comb, form)
				if why != "" {
					g.r.Fail("undecided:"+key, n.Obj().Pos(), "the schemas alone: %s", why)
					continue
				}
				cs["X"] = x
				_, spec, why := g.fold(d)
				if why != "" {
					g.r.Fail("undecided:"+key, n.Obj().Pos(), "a schema with %s, %s: %s", comb, form, why)
					continue
				}
				at := fmt.Sprintf("a schema of version %d with %s, %s", g.m.major, comb, form)
				got := g.end(g.component(spec, "schemas", "X"))
				if got == nil {
					g.r.Fail("lost:"+key, n.Obj().Pos(), "%s is lost", at)
					continue
				}
				if t := getField(got, "Type"); t != "object" {
					g.r.Fail("type:"+key, n.Obj().Pos(), "%s is of type %v", at, t)
				}
				have := g.props(got)
				var req []string
				for _, m := range marks {
					if need[m] {
						req = append(req, m)
					}
					if !strings.Contains(have[m], `"of `+m+`"`) || !strings.Contains(have[m], "leaf") {
						g.r.Fail("property:"+key, n.Obj().Pos(), "%s: the property %s is %s", at, m, orNothing(have[m]))
					}
				}
				if !strings.Contains(have["common"], `"of `+first+`"`) {
					g.r.Fail("winner:"+key, n.Obj().Pos(), "%s: a property that several define is %s instead of the one of %s", at, orNothing(have["common"]), first)
				}
				if len(have) != len(marks)+2 {
					g.r.Fail("property:"+key, n.Obj().Pos(), "%s has the properties %v", at, sortedKeys(have))
				}
				g.needs("composed:"+key, n.Obj().Pos(), at, req, g.required(got))
				for _, c := range []string{"R", "S", "Q", "N"} {
					a, b := g.all(g.component(alone, "schemas", c)), g.all(g.component(spec, "schemas", c))
					if a != b {
						g.r.Fail("source:"+key, n.Obj().Pos(), "%s modifies the schema %s it is made of: %s", at, c, firstDiff(a, b))
					}
				}
			}
		}
	}
	// constraints of referenced schemas
	d := g.base()
	con := doc{"type": "string", "pattern": "p", "minLength": 2, "maxLength": 9, "enum": []any{"a"}}
	d["components"] = doc{"schemas": doc{"C": con, "D": doc{"$ref": "#/components/schemas/C"}, "E": doc{"type": "object", "properties": doc{"e": doc{"$ref": "#/components/schemas/D"}}}}}
	_, spec, why := g.fold(d)
	if why != "" {
		g.r.Fail("undecided:constraints:"+v, n.Obj().Pos(), "referenced constraints: %s", why)
		return
	}
	e := entry(g.k.field(g.component(spec, "schemas", "E"), "Properties"), "e")
	for _, f := range g.m.fields(n) {
		if _, ok := con[f.tag]; !ok || len(f.path) < 2 {
			continue
		}
		c, _ := e.(*Cell)
		if c == nil {
			g.r.Fail("lost:constraints:"+v, n.Obj().Pos(), "a property given by reference is lost")
			break
		}
		a, b := g.all(slot(g.component(spec, "schemas", "C").V.(*VStruct), f).V), g.all(slot(c.V.(*VStruct), f).V)
		if a != b {
			g.r.Fail("constraint:"+v+":"+f.tag, f.v.Pos(), "a schema of version %d that refers to another has not its %s: %s instead of %s", g.m.major, f.tag, b, a)
		}
	}
}

// messages: oneOf.
func (g *merging) messages() {
	v := fmt.Sprintf("v%d", g.m.major)
	var n *types.Named
	for _, t := range g.m.types {
		if t.Obj().Name() == "Message" {
			n = t
		}
	}
	if n == nil {
		g.r.FailAt("undecided:message:"+v, "-", "the messages of version %d are not resolved", g.m.major)
		return
	}
	fields := []string{"payload", "headers"}
	for _, form := range []string{"in place", "by reference", "by reference to a reference", "both"} {
		for own := 0; own < 4; own++ {
			for prov := 0; prov < 4; prov++ {
				msg := func(mark string, bits int) doc {
					d := doc{}
					for i, f := range fields {
						if bits&(1<<i) != 0 {
							d[f] = schemaDoc(mark, true)
						}
					}
					return d
				}
				ms := doc{"P": msg("p", prov), "O": doc{"$ref": "#/components/messages/P"}}
				var of []any
				var marks []string
				switch form {
				case "in place":
					of, marks = []any{msg("a", prov), msg("b", 3)}, []string{"a", "b"}
				case "by reference":
					of, marks = []any{doc{"$ref": "#/components/messages/P"}}, []string{"p"}
				case "by reference to a reference":
					of, marks = []any{doc{"$ref": "#/components/messages/O"}}, []string{"p"}
				default:
					of, marks = []any{doc{"$ref": "#/components/messages/P"}, nil, msg("b", 3)}, []string{"p", "b"}
				}
				d := g.base()
				d["components"] = doc{"messages": ms, "schemas": doc{"Z": schemaDoc("z", false)}}
				key := fmt.Sprintf("%s:message:%s", v, form)
				_, alone, why := g.fold(d)
				if why != "" {
					g.r.Fail("undecided:"+key, n.Obj().Pos(), "the messages alone: %s", why)
					continue
				}
				x := msg("x", own)
				x["oneOf"] = of
				ms["X"] = x
				_, spec, why := g.fold(d)
				if why != "" {
					g.r.Fail("undecided:"+key, n.Obj().Pos(), "a message made of others (%s): %s", form, why)
					continue
				}
				at := fmt.Sprintf("a message of version %d made of others, %s", g.m.major, form)
				got, _ := g.k.field(g.component(spec, "messages", "X"), "Name").(string)
				_ = got
				for i, f := range fields {
					var c any
					for _, h := range g.m.fields(n) {
						if h.tag == f {
							c = slot(g.component(spec, "messages", "X").V.(*VStruct), h).V
						}
					}
					var want []string
					if own&(1<<i) != 0 {
						want = append(want, "x")
					}
					for _, m := range marks {
						if m == "b" || prov&(1<<i) != 0 {
							want = append(want, m)
						}
					}
					e := g.end(c)
					if len(want) == 0 {
						if e != nil && len(g.props(e)) > 0 {
							g.r.Fail("alien:"+key, n.Obj().Pos(), "%s: nothing provides its %s, which has %v", at, f, sortedKeys(g.props(e)))
						}
						continue
					}
					if e == nil {
						g.r.Fail("lost:"+key, n.Obj().Pos(), "%s: its %s is lost", at, f)
						continue
					}
					have := g.props(e)
					for _, m := range want {
						if !strings.Contains(have[m], `"of `+m+`"`) || !strings.Contains(have[m], "leaf") {
							g.r.Fail("property:"+key, n.Obj().Pos(), "%s: the property %s of its %s is %s", at, m, f, orNothing(have[m]))
						}
					}
					if !strings.Contains(have["common"], `"of `+want[0]+`"`) {
						g.r.Fail("winner:"+key, n.Obj().Pos(), "%s: a property of its %s that several define is %s instead of the one of %s", at, f, orNothing(have["common"]), want[0])
					}
					if len(have) != len(want)+2 {
						g.r.Fail("property:"+key, n.Obj().Pos(), "%s: its %s has the properties %v", at, f, sortedKeys(have))
					}
					g.needs(key, n.Obj().Pos(), at, want, g.required(e))
				}
				for _, c := range []string{"P", "O"} {
					a, b := g.all(g.component(alone, "messages", c)), g.all(g.component(spec, "messages", c))
					if a != b {
						g.r.Fail("source:"+key, n.Obj().Pos(), "%s modifies the message %s it is made of: %s", at, c, firstDiff(a, b))
					}
				}
			}
		}
	}
}

// usedTraits: which traits are applied, and in which order.
func (g *merging) usedTraits() {
	type place struct {
		what string
		put  func(d doc, name string, el doc)
		get  func(spec *Cell, name string) *Cell
		sec  string // section of the traits
		own  func(mark string) doc
	}
	trait := func(mark string, msg bool) doc {
		d := doc{"title": mark, "summary": mark, "description": mark, "tags": []any{doc{"name": mark, "description": "tag " + mark}}, "externalDocs": doc{"url": mark}, "bindings": doc{"amqp": doc{"bindingVersion": mark}}}
		if msg {
			d["headers"], d["payload"], d["contentType"] = schemaDoc(mark, true), schemaDoc(mark, true), mark
			d["examples"] = []any{doc{"summary": mark}}
			d["correlationID"] = doc{"description": mark, "location": "$message.header#/common"}
		} else {
			d["security"] = []any{doc{"description": "sec " + mark, "type": "plain"}}
		}
		return d
	}
	top := func(tag string) *mfield {
		for _, f := range g.m.fields(g.k.root) {
			if f.tag == tag {
				return f
			}
		}
		return nil
	}
	places := []place{
		{"a message of the components", func(d doc, name string, el doc) { sub(sub(d, "components"), "messages")[name] = el }, func(s *Cell, name string) *Cell { return g.component(s, "messages", name) }, "messageTraits", nil},
		{"a message of a channel", func(d doc, name string, el doc) {
			sub(sub(sub(d, "channels"), "c"), "messages")[name] = el
		}, func(s *Cell, name string) *Cell {
			c := g.k.at(s, nil, top("channels"), "c")
			x, _ := entry(g.k.field(c, "Messages"), name).(*Cell)
			return x
		}, "messageTraits", nil},
		{"an operation", func(d doc, name string, el doc) {
			sub(sub(sub(sub(d, "channels"), "c"), "messages"), "m")["payload"] = doc{"type": "string"}
			el["action"] = "send"
			el["channel"] = doc{"$ref": "#/channels/c"}
			sub(d, "operations")[name] = el
		}, func(s *Cell, name string) *Cell {
			x, _ := g.k.at(s, nil, top("operations"), name).(*Cell)
			return x
		}, "operationTraits", nil},
	}
	for _, p := range places {
		msg := p.sec == "messageTraits"
		for _, form := range []string{"in place", "by reference", "by references to references", "several"} {
			for _, own := range []bool{false, true} {
				d := g.base()
				ts := doc{"T": trait("t", msg), "U": doc{"$ref": "#/components/" + p.sec + "/T"}}
				sub(d, "components")[p.sec] = ts
				el := func() doc {
					x := doc{}
					if own {
						x = trait("x", msg)
					}
					switch form {
					case "in place":
						x["traits"] = []any{trait("a", msg)}
					case "by reference":
						x["traits"] = []any{doc{"$ref": "#/components/" + p.sec + "/T"}}
					case "by references to references":
						x["traits"] = []any{doc{"$ref": "#/components/" + p.sec + "/U"}}
					default:
						x["traits"] = []any{nil, doc{"$ref": "#/components/" + p.sec + "/T"}, trait("a", msg)}
					}
					return x
				}
				marks := map[string][]string{"in place": {"a"}, "by reference": {"t"}, "by references to references": {"t"}, "several": {"t", "a"}}[form]
				if own {
					marks = append([]string{"x"}, marks...)
				}
				key := fmt.Sprintf("traits:%s:%s", p.what, form)
				at := fmt.Sprintf("%s with traits given %s", p.what, form)
				_, none, why := g.fold(d)
				if why != "" {
					g.r.FailAt("undecided:"+key, "-", "traits alone: %s", why)
					continue
				}
				p.put(d, "x1", el())
				_, one, why := g.fold(d)
				if why != "" {
					g.r.FailAt("undecided:"+key, "-", "%s: %s", at, why)
					continue
				}
				got := p.get(one, "x1")
				if got == nil {
					g.r.FailAt("lost:"+key, "-", "%s is lost", at)
					continue
				}
				n := namedOf(got.V.(*VStruct).T)
				for _, f := range g.m.fields(n) {
					if _, ok := trait("t", msg)[f.tag]; !ok {
						continue
					}
					val := slot(got.V.(*VStruct), f).V
					s := g.doc(val)
					k2 := key + ":" + f.tag
					switch {
					case isSchemaType(f.elem):
						have := map[string]string{}
						if e := g.end(val); e != nil {
							have = g.props(e)
							g.needs(k2, f.v.Pos(), at, marks, g.required(e))
						}
						for _, m := range marks {
							if !strings.Contains(have[m], `"of `+m+`"`) || !strings.Contains(have[m], "leaf") {
								g.r.Fail("property:"+k2, f.v.Pos(), "%s: the property %s of its %s is %s", at, m, f.tag, orNothing(have[m]))
							}
						}
						if !strings.Contains(have["common"], `"of `+marks[0]+`"`) {
							g.r.Fail("winner:"+k2, f.v.Pos(), "%s: a property of its %s that several define is %s instead of the one of %s", at, f.tag, orNothing(have["common"]), marks[0])
						}
					case f.kind == "list":
						for _, m := range marks {
							if !strings.Contains(s, fmt.Sprintf(" %s\"", m)) && !strings.Contains(s, fmt.Sprintf("%q", m)) {
								g.r.Fail("lost:"+k2, f.v.Pos(), "%s: %s lacks the one of %s: %s", at, f.tag, m, s)
							}
						}
					default:
						if !strings.Contains(s, fmt.Sprintf("%q", marks[0])) {
							g.r.Fail("winner:"+k2, f.v.Pos(), "%s: its %s is %s instead of the one of %s", at, f.tag, s, marks[0])
						}
						for _, m := range marks[1:] {
							if strings.Contains(s, fmt.Sprintf("%q", m)) {
								g.r.Fail("winner:"+k2, f.v.Pos(), "%s: its %s is %s instead of the one of %s", at, f.tag, s, marks[0])
							}
						}
					}
				}
				// another use of the same traits
				p.put(d, "x2", el())
				_, two, why := g.fold(d)
				if why != "" {
					g.r.FailAt("undecided:"+key, "-", "%s, twice: %s", at, why)
					continue
				}
				if a, b := g.all(got), g.all(p.get(two, "x1")); a != b {
					g.r.FailAt("shared:"+key, "-", "%s is modified when the same traits are applied to another one: %s", at, firstDiff(a, b))
				}
				for _, c := range []string{"T", "U"} {
					for _, s := range []*Cell{one, two} {
						if a, b := g.all(g.component(none, p.sec, c)), g.all(g.component(s, p.sec, c)); a != b {
							g.r.FailAt("source:"+key, "-", "applying the trait %s to %s modifies it: %s", c, p.what, firstDiff(a, b))
						}
					}
				}
			}
		}
	}
}

func namedOf(t types.Type) *types.Named { n, _ := types.Unalias(t).(*types.Named); return n }

func sub(d doc, k string) doc {
	s, _ := d[k].(doc)
	if s == nil {
		s = doc{}
		d[k] = s
	}
	return s
}
