package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C24", "every type of the document model is taken with each field that holds other elements, and each pair of such fields: the paths of its naming and of its resolution are interpreted, and on every path that succeeds the elements held by the field must have been named, respectively resolved, in every round of the loop that goes over them; the element itself must have received a name and the target of its reference; merging and traits must come after resolution, and naming before resolution", ruleTraversal)
}

// A model is one generation of the document model.
type model struct {
	w     *World
	pkg   string
	major int
	types []*types.Named
	index map[*types.TypeName]bool

	follows map[*ssa.Function]bool
}

func specModels(w *World) (out []*model) {
	for _, v := range []int{2, 3} {
		m := &model{w: w, pkg: fmt.Sprintf("%s/v%d", asyncPath, v), major: v, index: map[*types.TypeName]bool{}}
		p := w.SSA[m.pkg]
		if p == nil {
			continue
		}
		o, _ := p.Pkg.Scope().Lookup("Specification").(*types.TypeName)
		if o == nil {
			continue
		}
		m.add(o.Type().(*types.Named))
		out = append(out, m)
	}
	return
}

// add collects the types of the model, following the fields read from the
// document.
func (m *model) add(n *types.Named) {
	if m.index[n.Obj()] {
		return
	}
	m.index[n.Obj()] = true
	m.types = append(m.types, n)
	for _, f := range m.fields(n) {
		if f.elem != nil {
			m.add(f.elem)
		}
	}
}

// A field of the model, with the embedded structures it is found through.
type mfield struct {
	v      *types.Var
	tag    string
	path   []int
	kind   string // value | pointer | list | map | other
	ptr    bool   // elements of lists and maps are pointers
	elem   *types.Named
	fromDo bool // read from the document
}

func (f *mfield) name() string { return f.v.Name() }

// fields of a type, embedded structures flattened, hidden ones dropped.
func (m *model) fields(n *types.Named) (out []*mfield) {
	var rec func(t types.Type, path []int)
	rec = func(t types.Type, path []int) {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			v := st.Field(i)
			p := append(append([]int(nil), path...), i)
			if v.Embedded() {
				if _, ok := v.Type().Underlying().(*types.Struct); ok {
					rec(v.Type(), p)
					continue
				}
			}
			// shadowed by a field of an outer structure
			if o, _, _ := types.LookupFieldOrMethod(n, true, m.w.SSA[m.pkg].Pkg, v.Name()); o != v {
				continue
			}
			f := &mfield{v: v, tag: reflectTag(st.Tag(i), "json"), path: p}
			f.fromDo = f.tag != "-" && (v.Exported() || f.tag != "")
			f.kind, f.ptr, f.elem = m.holds(v.Type())
			if !f.fromDo && f.kind != "map" {
				f.elem = nil
			}
			out = append(out, f)
		}
	}
	rec(n, nil)
	return
}

func reflectTag(tag, key string) string {
	for tag != "" {
		i := strings.Index(tag, ":\"")
		if i < 0 {
			return ""
		}
		k := strings.TrimSpace(tag[:i])
		rest := tag[i+2:]
		j := strings.IndexByte(rest, '"')
		if j < 0 {
			return ""
		}
		if k == key {
			return rest[:j]
		}
		tag = rest[j+1:]
	}
	return ""
}

// holds tells whether values of the type hold elements of the model.
func (m *model) holds(t types.Type) (kind string, ptr bool, elem *types.Named) {
	named := func(t types.Type) (bool, *types.Named) {
		p := false
		if pt, ok := t.(*types.Pointer); ok {
			p, t = true, pt.Elem()
		}
		n, ok := types.Unalias(t).(*types.Named)
		if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != m.pkg {
			return p, nil
		}
		if _, ok := n.Underlying().(*types.Struct); !ok {
			return p, nil
		}
		return p, n
	}
	switch u := t.(type) {
	case *types.Slice:
		ptr, elem = named(u.Elem())
		return "list", ptr, elem
	case *types.Map:
		ptr, elem = named(u.Elem())
		return "map", ptr, elem
	}
	ptr, elem = named(t)
	if elem == nil {
		return "other", false, nil
	}
	if ptr {
		return "pointer", true, elem
	}
	return "value", false, elem
}

// method of a type of the model, or nil.
func (m *model) method(n *types.Named, name string) *ssa.Function {
	return m.w.Func(m.pkg, n.Obj().Name()+"."+name)
}

// has tells whether a type holds, anywhere, elements with the method.
func (m *model) has(n *types.Named, name string, seen map[*types.Named]bool) bool {
	if m.method(n, name) != nil {
		return true
	}
	if seen[n] {
		return false
	}
	seen[n] = true
	for _, f := range m.fields(n) {
		if f.elem != nil && m.has(f.elem, name, seen) {
			return true
		}
	}
	return false
}

// addr is the address of a field of the value at base.
func (m *model) addr(in *Interp, base *Term, n *types.Named, f *mfield) *Term {
	t := types.Type(n)
	for _, i := range f.path {
		base = in.T.FieldAddr(base, types.NewPointer(t), i)
		t = t.Underlying().(*types.Struct).Field(i).Type()
	}
	return base
}

// phases are the names of the two passes of Process, in order.
func (m *model) phases(r *Report) (naming, resolving string) {
	naming, resolving = "generateMetadata", "setDependencies"
	f := m.w.Func(m.pkg, "Specification.Process")
	key := fmt.Sprintf("v%d", m.major)
	if f == nil {
		r.FailAt("undecided:process:"+key, "-", "Specification.Process is not resolved")
		return
	}
	in := r.Interp()
	in.NoHavoc = func(*Event) bool { return true }
	isPhase := func(o *types.Func) bool {
		if o == nil || o.Pkg() == nil || o.Pkg().Path() != m.pkg {
			return false
		}
		rv := o.Type().(*types.Signature).Recv()
		return rv != nil && recvNamed(o) == "Specification" && o.Name() != "Process"
	}
	in.Inline = func(g *ssa.Function) bool { return m.w.InScope(g) && (isBound(g) || !isPhase(fnObj(g))) }
	args := in.ParamTerms(f)
	good := 0
	for _, t := range in.Run(f, args, nil, &Config{mem: map[*Term]*Term{}, facts: map[*Term]bool{in.T.Eq(args[0], in.T.Nil()): false}}) {
		if t.Exit != "return" {
			r.Fail("process:"+t.Exit+":"+key, f.Pos(), "a path of Process does not return (%s)", t.Exit)
			continue
		}
		r.Count("paths of the two passes", 1)
		var seq []*Event
		for _, e := range t.Events {
			if e.Kind == EvCall && isPhase(e.Obj) && len(e.Args) > 0 && e.Args[0] == args[0] {
				seq = append(seq, e)
			}
		}
		if t.nonNilErr(t.Ret[len(t.Ret)-1]) {
			continue
		}
		if len(seq) < 2 {
			r.Fail("process:passes:"+key, f.Pos(), "Process succeeds without naming and resolving the elements of the document (%d passes)", len(seq))
			continue
		}
		if good++; good == 1 {
			naming, resolving = seq[0].Obj.Name(), seq[1].Obj.Name()
		}
		for i, e := range seq {
			want := []string{naming, resolving}
			if i < 2 && e.Obj.Name() != want[i] {
				r.Fail("process:order:"+key, e.Pos(), "the passes of Process differ from one path to another")
			}
			// the next pass only runs on what succeeded, and its failure is the result
			er := in.errorResult(e)
			if er == nil {
				continue
			}
			if i+1 < len(seq) {
				if nl, known := t.IsNilTerm(er); !known || !nl {
					r.Fail("process:ignored:"+key, e.Pos(), "Process goes on although %s may have failed", e.Obj.Name())
				}
			} else if nl, known := t.IsNilTerm(er); (!known || !nl) && t.Ret[len(t.Ret)-1] != er {
				r.Fail("process:ignored:"+key, e.Pos(), "Process succeeds although %s may have failed", e.Obj.Name())
			}
		}
	}
	if good == 0 {
		r.Fail("process:none:"+key, f.Pos(), "no path of Process succeeds")
	}
	return
}

// isBound: a method taken as a value, or reached through an interface.
func isBound(f *ssa.Function) bool {
	return strings.HasSuffix(f.Name(), "$bound") || strings.HasSuffix(f.Name(), "$thunk")
}

func recvNamed(o *types.Func) string {
	rv := o.Type().(*types.Signature).Recv()
	if rv == nil {
		return ""
	}
	t := rv.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// elements the naming pass need not enter, as the format only allows
// references there, whose targets are named where they are.
var referencesOnly = map[string]bool{
	"v3.Operation.Channel": true, "v3.Operation.Messages": true, "v3.OperationReply.Channel": true, "v3.OperationReply.Messages": true, "v3.Channel.Servers": true,
}

// reaching are the functions from which a method with the name is called, or a
// function value, without going through such methods.
func (m *model) reaching(name string) map[*ssa.Function]bool {
	fns := m.w.Funcs(asyncPath, utilsPath)
	out := map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	var work []*ssa.Function
	mark := func(f *ssa.Function) {
		if f != nil && !out[f] {
			out[f] = true
			work = append(work, f)
		}
	}
	body := func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if mc, ok := i.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					callers[g] = append(callers[g], f)
				}
				if st, ok := i.(*ssa.Store); ok && len(f.Params) > 0 {
					// sets the name or the target of its receiver
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.X == ssa.Value(f.Params[0]) && f.Signature.Recv() != nil {
						if v := structOf(fa.X.Type()).Field(fa.Field).Name(); v == "Name" || v == "ReferenceTo" {
							mark(f)
						}
					}
				}
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						callers[g] = append(callers[g], f)
						if o := g.Origin(); o != nil {
							callers[o] = append(callers[o], f)
						}
						if g.Name() == name {
							mark(f)
						}
					}
				}
				if cc.IsInvoke() {
					if cc.Method.Name() == name {
						mark(f)
					}
				} else if cc.StaticCallee() == nil {
					if _, ok := cc.Value.(*ssa.Builtin); !ok && !fromGlobal(cc.Value, 0) {
						mark(f)
					}
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	var all func(f *ssa.Function)
	all = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		body(f)
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && m.w.InScope(g) {
						all(g)
					}
				}
			}
		}
	}
	for _, f := range fns {
		all(f)
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if f.Name() == name && f.Signature.Recv() != nil {
			continue
		}
		for _, g := range callers[f] {
			mark(g)
		}
	}
	return out
}

// fromGlobal: the function value is found in a package-level variable, so none
// that was made for the element at hand.
func fromGlobal(v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Global:
		return true
	case *ssa.UnOp:
		return fromGlobal(x.X, d+1)
	case *ssa.Lookup:
		return fromGlobal(x.X, d+1)
	case *ssa.Extract:
		return fromGlobal(x.Tuple, d+1)
	case *ssa.FieldAddr:
		return fromGlobal(x.X, d+1)
	case *ssa.IndexAddr:
		return fromGlobal(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if _, ok := e.(*ssa.Function); !ok && !fromGlobal(e, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// combining are the operations that mix elements together: they have their own
// property.
var combining = map[string]bool{"MergeWith": true, "ApplyTrait": true, "Merge": true, "Follow": true}

func ruleTraversal(r *Report) {
	ms := specModels(r.W)
	if len(ms) != 2 {
		r.FailAt("undecided:models", "-", "the document models of the two generations are not resolved")
		return
	}
	for _, m := range ms {
		naming, resolving := m.phases(r)
		for _, pass := range []string{naming, resolving} {
			reach := m.reaching(pass)
			sort.Slice(m.types, func(i, j int) bool { return m.types[i].Obj().Name() < m.types[j].Obj().Name() })
			for _, n := range m.types {
				m.checkPass(r, n, pass, pass == naming, reach)
			}
		}
	}
	r.Floor("elements with a pass", 52)
	r.Floor("fields holding elements", 170)
	r.Floor("paths of the passes", 2000)
	r.Floor("targets that are followed", 8)
}

func (m *model) checkPass(r *Report, n *types.Named, pass string, naming bool, reach map[*ssa.Function]bool) {
	tn := fmt.Sprintf("v%d.%s", m.major, n.Obj().Name())
	fn := m.method(n, pass)
	var kids []*mfield
	for _, f := range m.fields(n) {
		if f.elem == nil || f.name() == "ReferenceTo" {
			continue
		}
		if m.method(f.elem, pass) == nil {
			if m.has(f.elem, pass, map[*types.Named]bool{}) {
				r.Fail("nomethod:"+pass+":"+tn+"."+f.name(), f.v.Pos(), "%s.%s holds elements, but %s has no %s to reach them", tn, f.name(), f.elem.Obj().Name(), pass)
			}
			continue
		}
		if naming && referencesOnly[tn+"."+f.name()] {
			continue
		}
		kids = append(kids, f)
	}
	if fn == nil {
		if len(kids) > 0 {
			r.Fail("nomethod:"+pass+":"+tn, n.Obj().Pos(), "%s holds elements but has no %s to reach them", tn, pass)
		}
		return
	}
	r.Count("elements with a pass", 1)
	r.Count("fields holding elements", len(kids))
	if len(kids) == 0 {
		m.runPass(r, n, fn, pass, naming, reach, nil, nil, kids)
	}
	for i, f := range kids {
		if len(kids) == 1 {
			m.runPass(r, n, fn, pass, naming, reach, f, nil, kids)
		}
		for j, g := range kids {
			if i != j {
				m.runPass(r, n, fn, pass, naming, reach, f, g, kids)
			}
		}
	}
}

// runPass interprets a pass over an element where only the fields f and g may
// hold something.
func (m *model) runPass(r *Report, n *types.Named, fn *ssa.Function, pass string, naming bool, reach map[*ssa.Function]bool, f, g *mfield, kids []*mfield) {
	tn := fmt.Sprintf("v%d.%s", m.major, n.Obj().Name())
	in := r.Interp()
	in.NoHavoc = func(*Event) bool { return true }
	in.Inline = func(x *ssa.Function) bool {
		if isBound(x) {
			return true
		}
		if x.Name() == pass || combining[x.Name()] {
			return false
		}
		o := x
		if x.Origin() != nil {
			o = x.Origin()
		}
		return m.w.InScope(x) && (reach[x] || reach[o] || x.Parent() != nil || isAccessor(x))
	}
	args := in.ParamTerms(fn)
	init := &Config{mem: map[*Term]*Term{}, facts: map[*Term]bool{}}
	recv := args[0]
	if _, ok := recv.Typ.(*types.Pointer); !ok {
		r.Fail("value:"+pass+":"+tn, fn.Pos(), "%s of %s works on a copy of the element: what it sets is lost", pass, tn)
		return
	}
	init.facts[in.T.Eq(recv, in.T.Nil())] = false
	var name, refTo, ref *mfield
	for _, k := range m.fields(n) {
		switch k.name() {
		case "Name":
			name = k
		case "ReferenceTo":
			refTo = k
		case "Reference":
			ref = k
		}
		if !k.fromDo && k.name() != "Name" && k.elem == nil {
			// not touched yet
			a := m.addr(in, recv, n, k)
			init.mem[a] = in.T.Zero(k.v.Type())
		}
	}
	for _, k := range kids {
		if k != f && k != g && k.kind != "value" {
			init.mem[m.addr(in, recv, n, k)] = in.T.Nil()
		}
	}
	ts := in.Run(fn, args, nil, init)
	for _, t := range ts {
		if t.Exit == "truncated" {
			continue // a further round of a loop
		}
		r.Count("paths of the passes", 1)
		if t.Exit != "return" {
			r.Fail("exit:"+pass+":"+tn, fn.Pos(), "%s of %s does not return (%s)", pass, tn, t.Exit)
			continue
		}
		if len(t.Ret) > 0 && t.nonNilErr(t.Ret[len(t.Ret)-1]) {
			continue
		}
		m.checkPath(r, in, t, n, fn, pass, naming, f, recv, args, name, ref, refTo)
	}
	if len(in.Undecided) > 0 {
		r.Fail("undecided:"+pass+":"+tn, fn.Pos(), "%s of %s could not be decided: %s", pass, tn, in.Undecided[0])
	}
}

// followed tells whether references of elements of the type are followed while the
// references of the document are being resolved.
func (m *model) followed(n *types.Named, pass string) bool {
	if m.follows == nil {
		m.follows = map[*ssa.Function]bool{}
		var roots []*ssa.Function
		for _, t := range m.types {
			if f := m.method(t, pass); f != nil {
				roots = append(roots, f)
			}
		}
		for f := range m.w.reachable(roots) {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if c, ok := i.(ssa.CallInstruction); ok {
						if g := c.Common().StaticCallee(); g != nil && g != f && g.Name() == "Follow" {
							m.follows[g] = true
						}
					}
				}
			}
		}
	}
	f := m.method(n, "Follow")
	return f != nil && m.follows[f]
}

func (m *model) checkPath(r *Report, in *Interp, t *Trace, n *types.Named, fn *ssa.Function, pass string, naming bool, f *mfield, recv *Term, args []*Term, name, ref, refTo *mfield) {
	tn := fmt.Sprintf("v%d.%s", m.major, n.Obj().Name())
	end := &Config{mem: t.Mem, facts: t.Facts}
	// visits of other elements, in order
	type visit struct {
		recv *Term
		pos  int
	}
	var visits []visit
	for i, e := range t.Events {
		if e.Kind == EvCall && e.Obj != nil && e.Obj.Name() == pass && len(e.Args) > 0 {
			visits = append(visits, visit{e.Args[0], i})
		}
	}
	visited := func(x *Term, before int) bool {
		for _, v := range visits {
			if before >= 0 && v.pos > before {
				continue
			}
			if v.recv == x || v.recv.Op == "elemaddr" && x.Op == "elem" && v.recv.Args[0] == x.Args[0] && v.recv.Args[1] == x.Args[1] {
				return true
			}
		}
		return false
	}
	if f != nil {
		a := m.addr(in, recv, n, f)
		l := in.T.mkLoad(a, f.v.Type())
		if why := m.covers(in, t, f, a, l, visited); why != "" {
			verb := "resolved"
			if naming {
				verb = "named"
			}
			r.Fail(pass+":"+tn+"."+f.name(), fn.Pos(), "%s of %s can succeed without the elements of %s being %s: %s", pass, tn, f.name(), verb, why)
		}
		// combined only once resolved
		if !naming {
			for i, e := range t.Events {
				if e.Kind != EvCall || e.Obj == nil || e.Obj.Name() != "MergeWith" && e.Obj.Name() != "ApplyTrait" {
					continue
				}
				r.Count("combinations on the paths", 1)
				for _, x := range e.Args[1:] {
					for _, el := range elementsOf(x, l) {
						if !visited(el, i) {
							r.Fail("early:"+tn+"."+f.name(), e.Pos(), "%s of %s combines an element of %s (%s) before its references are resolved", pass, tn, f.name(), e.Obj.Name())
						}
					}
				}
			}
		}
	}
	if naming && name != nil && len(args) > 1 {
		v := end.mem[m.addr(in, recv, n, name)]
		ok := false
		for _, p := range args[1:] {
			if v != nil && v.Mentions(p) {
				ok = true
			}
		}
		if !ok {
			r.Fail("name:"+tn, fn.Pos(), "%s of %s can succeed without giving the element a name made of those it is given", pass, tn)
		}
	}
	if !naming && ref != nil && refTo != nil {
		rl := in.T.mkLoad(m.addr(in, recv, n, ref), ref.v.Type())
		empty, known := t.Fact(in.T.Eq(rl, in.T.Str("")))
		v := in.Load(end, m.addr(in, recv, n, refTo), refTo.v.Type())
		switch {
		case known && empty:
			r.Count("paths without reference", 1)
		case v.Op == "extract" && v.Aux == "0" && v.Args[0].Op == "call" && v.Args[0].Mentions(rl):
			r.Count("paths with a reference", 1)
			if m.followed(n, pass) && m.method(n, pass) != nil {
				r.Count("targets that are followed", 1)
				if !visited(v, -1) {
					r.Fail("chain:"+tn, fn.Pos(), "%s of %s can succeed without %s of the element that its reference designates, whose own reference is followed while the document is processed", pass, tn, pass)
				}
			}
		default:
			r.Fail("target:"+tn, fn.Pos(), "%s of %s can succeed without the element that its reference designates (got %s)", pass, tn, v)
		}
	}
}

// elementsOf are the elements of the field's value l that x is made of.
func elementsOf(x, l *Term) (out []*Term) {
	x.Any(func(y *Term) bool {
		if y == l {
			out = append(out, y)
		}
		if (y.Op == "elem" || y.Op == "nextval" || y.Op == "lookup") && y.Mentions(l) {
			out = append(out, y)
			return false
		}
		return false
	})
	if len(out) > 1 {
		// the list itself is only there as part of its elements
		var only []*Term
		for _, y := range out {
			if y != l {
				only = append(only, y)
			}
		}
		out = only
	}
	return
}

// covers tells why the path leaves elements of the field aside, if it does.
func (m *model) covers(in *Interp, t *Trace, f *mfield, a, l *Term, visited func(*Term, int) bool) string {
	isNil := func(x *Term) bool { v, ok := t.IsNilTerm(x); return ok && v }
	switch f.kind {
	case "value":
		if !visited(a, -1) {
			return "it is never visited"
		}
		return ""
	case "pointer":
		if !visited(l, -1) && !isNil(l) {
			return "it is not visited although it may be there"
		}
		return ""
	}
	if isNil(l) {
		return ""
	}
	from := func(x *Term) bool { return x == l || x.Op == "call" && x.Mentions(l) }
	// iterations over maps
	type iter struct {
		entered []*Term
		ended   bool
	}
	iters := map[*Term]*iter{}
	idx := map[*Term]*struct {
		in    map[int64]bool
		ended bool
	}{}
	index := func(x *Term) *struct {
		in    map[int64]bool
		ended bool
	} {
		if idx[x] == nil {
			idx[x] = &struct {
				in    map[int64]bool
				ended bool
			}{in: map[int64]bool{}}
		}
		return idx[x]
	}
	for fact, v := range t.Facts {
		switch fact.Op {
		case "nextok":
			nx := fact.Args[0]
			rg := nx.Args[0]
			if rg.Op != "range" || !from(rg.Args[0]) {
				continue
			}
			if iters[rg] == nil {
				iters[rg] = &iter{}
			}
			if v {
				iters[rg].entered = append(iters[rg].entered, nx)
			} else {
				iters[rg].ended = true
			}
		case "lt":
			if k, ok := fact.Args[0].Int(); ok && fact.Args[1].Op == "len" && from(fact.Args[1].Args[0]) {
				if v {
					index(fact.Args[1].Args[0]).in[k] = true
				} else {
					index(fact.Args[1].Args[0]).ended = true
				}
			}
		case "eq":
			for i := range fact.Args {
				if fact.Args[i].Op == "len" && from(fact.Args[i].Args[0]) {
					if z, ok := fact.Args[1-i].Int(); ok && z == 0 {
						if v {
							return ""
						}
						index(fact.Args[i].Args[0]).in[0] = true
					}
				}
			}
		}
	}
	why := "nothing goes over it"
	for _, it := range iters {
		ok := it.ended
		if !ok {
			why = "the iteration stops before the end"
		}
		for _, nx := range it.entered {
			val := in.T.mk("nextval", "", nil, nx)
			seen := false
			for fact, v := range t.Facts {
				if v && fact.Op == "eq" && (fact.Args[0].IsNil() || fact.Args[1].IsNil()) {
					x := other(fact, in.T.Nil())
					if x.Op == "nextval" && x.Args[0] == nx {
						seen = true
					}
				}
			}
			_ = val
			if !seen && !visitedBy(t, visited, nx) {
				ok = false
				why = "a round of the iteration does not visit its element"
			}
		}
		if ok {
			return ""
		}
	}
	for x, ix := range idx {
		ok := ix.ended
		if !ok {
			why = "the loop stops before the end"
		}
		n := int64(len(ix.in))
		for k := int64(0); k < n; k++ {
			if !ix.in[k] {
				ok = false
				why = "the loop skips elements"
			}
		}
		for k := range ix.in {
			good := false
			if x == l {
				el := in.T.mk("elem", "", f.v.Type().Underlying().(*types.Slice).Elem(), x, in.T.Int(k))
				good = visited(el, -1) || isNil(el)
			} else {
				// keys gathered by a helper: the element looked up with each
				el := indexTerm(t, x, k)
				good = el != nil && visitedMentioning(t, visited, el)
			}
			if !good {
				ok = false
				why = "a round of the loop does not visit its element"
			}
		}
		if ok {
			return ""
		}
	}
	return why
}

// visitedBy: an element was visited that comes from this step of an iteration.
func visitedBy(t *Trace, visited func(*Term, int) bool, nx *Term) bool {
	return visitedMentioning(t, visited, nx)
}

func visitedMentioning(t *Trace, visited func(*Term, int) bool, x *Term) bool {
	for _, e := range t.Events {
		if e.Kind == EvCall && len(e.Args) > 0 && e.Args[0] != nil && (e.Args[0].Op == "nextval" || e.Args[0].Op == "lookup" || e.Args[0].Op == "elem") && e.Args[0].Mentions(x) && visited(e.Args[0], -1) {
			return true
		}
	}
	return false
}

// indexTerm is the k-th element of x as the path uses it.
func indexTerm(t *Trace, x *Term, k int64) *Term {
	var out *Term
	for _, e := range t.Events {
		for _, a := range append([]*Term{e.Val, e.Res}, e.Args...) {
			if a == nil {
				continue
			}
			a.Any(func(y *Term) bool {
				if y.Op == "elem" && y.Args[0] == x {
					if v, ok := y.Args[1].Int(); ok && v == k {
						out = y
						return true
					}
				}
				return false
			})
		}
	}
	return out
}

func init() {
	register("C25", "a forward dataflow analysis, over all functions of the document model together, of what is known to be present: every pointer that comes from the document, a lookup or a reference must be known not to be nil where it is used, every position must be within its list, every type known where it is assumed; every loop and every recursion must end (it goes over something finite, goes down the document, or does each element once), every failure must reach the caller, and looking up a reference gives an element or an error", ruleReferences)
}

func ruleReferences(r *Report) {
	w := r.W
	fns := w.Funcs(asyncPath+"/v2", asyncPath+"/v3", utilsPath, codegenPath)
	na := newNilAnalysis(w, fns)
	na.run()
	for _, k := range sortedKeys(na.found) {
		f := na.found[k]
		if strings.HasSuffix(w.FnPkgPath(f.fn), "/templates") {
			continue // called by the templates, the execution of which gives an error
		}
		r.Fail(f.key, f.pos, "%s", f.text)
	}
	// looking up a reference without an error gives something
	lookups := 0
	for _, f := range fns {
		recv := namedElem(f.Signature.Recv())
		if recv == nil || !isRootType(recv) || !token.IsExported(f.Name()) || errResultIndex(f.Signature) < 0 || f.Signature.Params().Len() != 1 || !isText(f.Signature.Params().At(0).Type()) {
			continue
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			t := f.Signature.Results().At(i).Type()
			if !isElementType(t) || namedElem(f.Signature.Results().At(i)) == nil || !mayBeNil(t) {
				continue
			}
			lookups++
			if !na.sum[f].result[i] {
				r.Fail("absent:"+fnName(f), f.Pos(), "%s may give nothing, and no error: its callers use what it gives", fnName(f))
			}
		}
	}
	r.Count("lookups of references", lookups)
	r.errorsReported(w.Funcs(asyncPath+"/v2", asyncPath+"/v3"))
	checkTermination(r, w.Funcs(asyncPath+"/v2", asyncPath+"/v3"))
	r.Floor("lookups of references", 15)
	r.Floor("loops", 80)
	r.Floor("fallible calls", 200)
	r.Floor("types whose references are followed", 9)
	r.Count("functions", len(fns))
	r.Count("dereferences", len(na.derefs))
	r.Floor("dereferences", 1000)
	r.Count("positions in lists", len(na.indexes))
	r.Count("type assumptions", len(na.asserts))
	r.Count("calls with requirements", len(na.calls))
}

// isAccessor: a short method that only reads and writes what it is given.
func isAccessor(f *ssa.Function) bool {
	if f.Signature.Recv() == nil || len(f.Blocks) == 0 || len(f.Blocks) > 4 {
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(ssa.CallInstruction); ok {
				return false
			}
		}
	}
	return true
}
