package main

import (
	"fmt"
	"go/types"
	"os"
	"path"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

// Folding of text/template: the template sources are parsed from the current
// tree and expanded over constant data.

type tmplSet struct {
	name  string
	trees map[string]*parse.Tree
	files map[string]string // parse name -> file name
	funcs map[string]TV
}

// TV is a typed constant in a template. cell is set when it is addressable.
type TV struct {
	v    any
	t    types.Type
	cell *Cell
}

func newTmplSet(name string) *tmplSet {
	return &tmplSet{name: name, trees: map[string]*parse.Tree{}, files: map[string]string{}, funcs: map[string]TV{}}
}

func tmplFuncs(m *Machine, _ *ssa.Function, a []any) any {
	t := m.side[m.sideOf(a[0])].(*tmplSet)
	if mp, ok := a[1].(*VMap); ok {
		for _, e := range mp.M {
			i, _ := e.v.(*VIface)
			if i == nil {
				m.gopanic("template function %v is nil", e.k)
			}
			t.funcs[str(e.k)] = TV{v: i.V, t: i.T}
		}
	}
	return a[0]
}

// tmplParseFS parses the named files of an embedded file system. The embedding
// package is the one whose code calls ParseFS.
func (m *Machine) tmplParseFS(tv, _ any, paths []string) any {
	t := m.side[m.sideOf(tv)].(*tmplSet)
	var pkgPath string
	for i := len(m.stack) - 1; i >= 0; i-- {
		if p := m.w.FnPkgPath(m.stack[i]); strings.HasPrefix(p, Mod) && len(m.w.Pkgs[p].EmbedFiles) > 0 {
			pkgPath = p
			break
		}
	}
	p := m.w.Pkgs[pkgPath]
	if p == nil {
		return VTuple{nil, m.mkErr("template: no embedded files", nil)}
	}
	dir := filepath.Dir(p.GoFiles[0])
	embedded := map[string]bool{}
	for _, f := range p.EmbedFiles {
		embedded[f] = true
	}
	for _, pt := range paths {
		var files []string
		for f := range embedded {
			rel, _ := filepath.Rel(dir, f)
			if ok, _ := path.Match(pt, filepath.ToSlash(rel)); ok {
				files = append(files, f)
			}
		}
		sort.Strings(files)
		if len(files) == 0 {
			return VTuple{nil, m.mkErr(fmt.Sprintf("template: pattern matches no files: %q", pt), nil)}
		}
		for _, f := range files {
			b, err := os.ReadFile(f)
			if err != nil {
				return VTuple{nil, m.errOf(err)}
			}
			if err := t.parse(path.Base(f), f, string(b)); err != nil {
				return VTuple{nil, m.errOf(err)}
			}
		}
	}
	return VTuple{tv, nil}
}

func (t *tmplSet) parse(name, file, src string) error {
	tr := parse.New(name)
	tr.Mode = parse.SkipFuncCheck
	set := map[string]*parse.Tree{}
	if _, err := tr.Parse(src, "", "", set); err != nil {
		return err
	}
	for n, x := range set {
		if old := t.trees[n]; old != nil && parse.IsEmptyTree(x.Root) {
			continue
		}
		t.trees[n] = x
		t.files[x.ParseName] = file
	}
	t.files[name] = file
	return nil
}

type tmplErr struct{ msg string }
type tmplBreak struct{}
type tmplContinue struct{}

type tvar struct {
	name string
	v    TV
}

type tstate struct {
	m    *Machine
	t    *tmplSet
	tree *parse.Tree
	vars []tvar
	out  *tmplOut
	node parse.Node
	deep int
}

type tmplOut struct {
	sb      strings.Builder
	atStart bool
	file    string // position the compiler would give to the next line
	line    int
	lines   bool
}

// text writes text; src is "" when the text has no template line of its own.
func (o *tmplOut) text(s, file string, line int) {
	for len(s) > 0 {
		l, rest, nl := strings.Cut(s, "\n")
		if o.atStart && o.lines && file != "" && (file != o.file || line != o.line) {
			fmt.Fprintf(&o.sb, "//line %s:%d\n", file, line)
			o.file, o.line = file, line
		}
		o.sb.WriteString(l)
		if l != "" {
			o.atStart = false
		}
		if nl {
			o.sb.WriteByte('\n')
			o.atStart = true
			o.line++
			line++
		}
		s = rest
	}
}

func (m *Machine) tmplExecute(t *tmplSet, name string, w, data any) any {
	tr := t.trees[name]
	if tr == nil || tr.Root == nil {
		return m.mkErr(fmt.Sprintf("template: %q is an incomplete or empty template", name), nil)
	}
	i, _ := w.(*VIface)
	if i == nil {
		m.gopanic("nil writer")
	}
	s := &tstate{m: m, t: t, tree: tr, out: &tmplOut{atStart: true, lines: !m.NoLines}}
	d := TV{}
	if di, ok := data.(*VIface); ok && di != nil {
		d = TV{v: di.V, t: di.T}
	}
	var err any
	func() {
		n, wh := len(m.stack), len(m.where)
		defer func() {
			if r := recover(); r != nil {
				e, ok := r.(tmplErr)
				if fp, isP := r.(*foldPanic); isP {
					// text/template turns panics of called functions into errors
					e, ok = tmplErr{s.loc() + ": error calling function: " + fp.msg}, true
				}
				if !ok {
					panic(r)
				}
				m.stack, m.where = m.stack[:n], m.where[:wh]
				err = m.mkErr(e.msg, nil)
			}
		}()
		s.vars = []tvar{{"$", d}}
		s.walk(d, tr.Root)
	}()
	m.buf(i.V).WriteString(s.out.sb.String())
	return err
}

func (s *tstate) loc() string {
	if s.node == nil {
		return s.tree.Name
	}
	l, _ := s.tree.ErrorContext(s.node)
	return l
}

func (s *tstate) errorf(f string, a ...any) {
	l, ctx := "", ""
	if s.node != nil {
		l, ctx = s.tree.ErrorContext(s.node)
	}
	panic(tmplErr{fmt.Sprintf("template: %s: executing %q at <%s>: %s", l, s.tree.Name, ctx, fmt.Sprintf(f, a...))})
}

func (s *tstate) lineOf(n parse.Node) (string, int) {
	l, _ := s.tree.ErrorContext(n)
	p := strings.Split(l, ":")
	line := 0
	if len(p) >= 2 {
		fmt.Sscan(p[1], &line)
	}
	return s.t.files[p[0]], line
}

func (s *tstate) branch(n parse.Node, taken bool) {
	f, l := s.lineOf(n)
	k := fmt.Sprintf("%s:%d:%s", strings.TrimPrefix(f, repoDir+"/"), l, n.(fmt.Stringer).String())
	if i := strings.IndexByte(k, '\n'); i > 0 {
		k = k[:i]
	}
	if len(k) > 160 {
		k = k[:160]
	}
	b := s.m.Branch[k]
	if taken {
		b[0]++
	} else {
		b[1]++
	}
	s.m.Branch[k] = b
}

func (s *tstate) walk(dot TV, n parse.Node) {
	s.m.steps++
	if s.m.steps > s.m.max {
		s.m.exhausted()
	}
	switch x := n.(type) {
	case *parse.ListNode:
		for _, c := range x.Nodes {
			s.walk(dot, c)
		}
	case *parse.TextNode:
		f, l := s.lineOf(x)
		s.out.text(string(x.Text), f, l)
	case *parse.CommentNode:
	case *parse.ActionNode:
		s.node = x
		v := s.pipe(dot, x.Pipe)
		if len(x.Pipe.Decl) == 0 {
			f, l := s.lineOf(x)
			s.out.text(s.print(x, v), f, l)
		}
	case *parse.IfNode:
		s.ifWith(dot, x, x.Pipe, x.List, x.ElseList, false)
	case *parse.WithNode:
		s.ifWith(dot, x, x.Pipe, x.List, x.ElseList, true)
	case *parse.RangeNode:
		s.rng(dot, x)
	case *parse.TemplateNode:
		s.node = x
		t := s.t.trees[x.Name]
		if t == nil {
			s.errorf("template %q not defined", x.Name)
		}
		var d TV
		if x.Pipe != nil {
			d = s.pipe(dot, x.Pipe)
		}
		if s.deep > 300 {
			s.errorf("exceeded maximum template depth: unbounded recursion")
		}
		ns := &tstate{m: s.m, t: s.t, tree: t, out: s.out, vars: []tvar{{"$", d}}, deep: s.deep + 1}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if fp, ok := r.(*foldPanic); ok {
						panic(tmplErr{ns.loc() + ": error calling function: " + fp.msg})
					}
					panic(r)
				}
			}()
			ns.walk(d, t.Root)
		}()
	case *parse.BreakNode:
		panic(tmplBreak{})
	case *parse.ContinueNode:
		panic(tmplContinue{})
	default:
		unsup("template node %T", n)
	}
}

func (s *tstate) ifWith(dot TV, n parse.Node, p *parse.PipeNode, list, els *parse.ListNode, with bool) {
	mark := len(s.vars)
	defer func() { s.vars = s.vars[:mark] }()
	s.node = n
	v := s.pipe(dot, p)
	t := s.truth(v)
	s.branch(p, t)
	if t {
		if with {
			s.walk(v, list)
		} else {
			s.walk(dot, list)
		}
	} else if els != nil {
		s.walk(dot, els)
	}
}

func (s *tstate) rng(dot TV, n *parse.RangeNode) {
	mark := len(s.vars)
	defer func() { s.vars = s.vars[:mark] }()
	s.node = n
	v := s.indirect(s.pipe(dot, n.Pipe))
	mark2 := len(s.vars)
	broke := false
	one := func(k, e TV) {
		if broke {
			return
		}
		defer func() {
			s.vars = s.vars[:mark2]
			if r := recover(); r != nil {
				switch r.(type) {
				case tmplBreak:
					broke = true
				case tmplContinue:
				default:
					panic(r)
				}
			}
		}()
		d := n.Pipe.Decl
		if len(d) > 0 {
			if n.Pipe.IsAssign {
				tgt := e
				if len(d) > 1 {
					tgt = k
				}
				s.setVar(d[0].Ident[0], tgt)
			} else {
				s.vars[len(s.vars)-len(d)].v = e
			}
		}
		if len(d) > 1 {
			if n.Pipe.IsAssign {
				s.setVar(d[1].Ident[0], e)
			} else {
				s.vars[len(s.vars)-2].v = k
				s.vars[len(s.vars)-1].v = e
			}
		}
		s.walk(e, n.List)
	}
	cnt := 0
	switch x := v.v.(type) {
	case *VMap:
		mt := v.t.Underlying().(*types.Map)
		for _, e := range x.sorted() {
			cnt++
			one(TV{v: e.k, t: mt.Key()}, TV{v: e.v, t: mt.Elem()})
		}
	case *VSlice:
		et := v.t.Underlying().(*types.Slice).Elem()
		for i, c := range x.E {
			cnt++
			one(TV{v: int64(i), t: types.Typ[types.Int]}, TV{v: c.V, t: et, cell: c})
		}
	case *VArr:
		et := v.t.Underlying().(*types.Array).Elem()
		for i, c := range x.E {
			cnt++
			one(TV{v: int64(i), t: types.Typ[types.Int]}, TV{v: c.V, t: et, cell: c})
		}
	case int64:
		for i := int64(0); i < x; i++ {
			cnt++
			one(TV{v: i, t: types.Typ[types.Int]}, TV{v: i, t: types.Typ[types.Int]})
		}
	case nil:
		switch v.t.(type) {
		case nil:
			s.errorf("range can't iterate over <nil>")
		}
	default:
		s.errorf("range can't iterate over %T", v.v)
	}
	s.branch(n.Pipe, cnt > 0)
	if cnt == 0 && n.ElseList != nil {
		s.walk(dot, n.ElseList)
	}
}

func (s *tstate) setVar(name string, v TV) {
	for i := len(s.vars) - 1; i >= 0; i-- {
		if s.vars[i].name == name {
			s.vars[i].v = v
			return
		}
	}
	s.errorf("undefined variable: %s", name)
}

func (s *tstate) truth(v TV) bool {
	v = s.iface(v)
	switch x := v.v.(type) {
	case nil:
		return false
	case bool:
		return x
	case string:
		return x != ""
	case int64:
		return x != 0
	case uint64:
		return x != 0
	case float64:
		return x != 0
	case *VSlice:
		return len(x.E) > 0
	case *VMap:
		return len(x.M) > 0
	case *VArr:
		return len(x.E) > 0
	case *Cell:
		return x != nil
	}
	return true
}

// iface unwraps interfaces.
func (s *tstate) iface(v TV) TV {
	for v.t != nil && types.IsInterface(v.t) {
		i, _ := v.v.(*VIface)
		if i == nil {
			return TV{}
		}
		if _, isErr := i.V.(*VErr); isErr {
			return TV{v: i, t: i.T}
		}
		v = TV{v: i.V, t: i.T}
	}
	return v
}

func (s *tstate) indirect(v TV) TV {
	for {
		v = s.iface(v)
		if v.t == nil {
			return v
		}
		p, ok := v.t.Underlying().(*types.Pointer)
		if !ok {
			return v
		}
		c, _ := v.v.(*Cell)
		if c == nil {
			return TV{t: v.t}
		}
		v = TV{v: c.V, t: p.Elem(), cell: c}
	}
}

func (s *tstate) print(n parse.Node, v TV) string {
	s.node = n
	v = s.iface(v)
	if v.t == nil {
		return "<no value>"
	}
	if txt, ok := s.m.strOf(v.v, v.t); ok {
		return txt
	}
	if p, ok := v.t.Underlying().(*types.Pointer); ok {
		c, _ := v.v.(*Cell)
		if c == nil {
			return "<nil>"
		}
		v = TV{v: c.V, t: p.Elem(), cell: c}
	}
	switch x := v.v.(type) {
	case string, bool, int64, uint64, float64:
		return fmt.Sprint(x)
	case nil:
		return "<nil>"
	case *VSlice:
		return fmt.Sprint(s.m.goVal(&VIface{v.t, x}))
	}
	return "<" + v.t.String() + ">"
}

func (s *tstate) pipe(dot TV, p *parse.PipeNode) TV {
	if p == nil {
		return TV{}
	}
	s.node = p
	var v TV
	has := false
	for _, c := range p.Cmds {
		v = s.cmd(dot, c, v, has)
		has = true
		if v.t != nil && types.IsInterface(v.t) && v.t.Underlying().(*types.Interface).NumMethods() == 0 {
			v = s.iface(v)
		}
	}
	for _, d := range p.Decl {
		if p.IsAssign {
			s.setVar(d.Ident[0], v)
		} else {
			s.vars = append(s.vars, tvar{d.Ident[0], v})
		}
	}
	return v
}

func (s *tstate) cmd(dot TV, c *parse.CommandNode, final TV, hasFinal bool) TV {
	first := c.Args[0]
	switch n := first.(type) {
	case *parse.FieldNode:
		s.node = n
		return s.chain(dot, dot, n, n.Ident, c.Args, final, hasFinal)
	case *parse.ChainNode:
		s.node = n
		return s.chain(dot, s.arg(dot, n.Node), n, n.Field, c.Args, final, hasFinal)
	case *parse.IdentifierNode:
		s.node = n
		return s.function(dot, n.Ident, c, c.Args, final, hasFinal)
	case *parse.PipeNode:
		return s.pipe(dot, n)
	case *parse.VariableNode:
		s.node = n
		v := s.variable(n.Ident[0])
		if len(n.Ident) == 1 {
			return v
		}
		return s.chain(dot, v, n, n.Ident[1:], c.Args, final, hasFinal)
	}
	s.node = first
	return s.arg(dot, first)
}

func (s *tstate) variable(name string) TV {
	for i := len(s.vars) - 1; i >= 0; i-- {
		if s.vars[i].name == name {
			return s.vars[i].v
		}
	}
	s.errorf("undefined variable: %s", name)
	return TV{}
}

func (s *tstate) arg(dot TV, n parse.Node) TV {
	s.node = n
	switch x := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.NilNode:
		return TV{}
	case *parse.BoolNode:
		return TV{v: x.True, t: types.Typ[types.Bool]}
	case *parse.StringNode:
		return TV{v: x.Text, t: types.Typ[types.String]}
	case *parse.NumberNode:
		if x.IsInt {
			return TV{v: x.Int64, t: types.Typ[types.Int]}
		}
		return TV{v: x.Float64, t: types.Typ[types.Float64]}
	case *parse.FieldNode:
		return s.chain(dot, dot, n, x.Ident, []parse.Node{n}, TV{}, false)
	case *parse.VariableNode:
		v := s.variable(x.Ident[0])
		if len(x.Ident) == 1 {
			return v
		}
		return s.chain(dot, v, n, x.Ident[1:], []parse.Node{n}, TV{}, false)
	case *parse.PipeNode:
		return s.pipe(dot, x)
	case *parse.IdentifierNode:
		return s.function(dot, x.Ident, x, nil, TV{}, false)
	case *parse.ChainNode:
		return s.chain(dot, s.arg(dot, x.Node), n, x.Field, []parse.Node{n}, TV{}, false)
	}
	unsup("template argument %T", n)
	return TV{}
}

func (s *tstate) chain(dot, recv TV, n parse.Node, ids []string, args []parse.Node, final TV, hasFinal bool) TV {
	for i, id := range ids {
		if i == len(ids)-1 {
			return s.field(dot, id, n, args, final, hasFinal, recv)
		}
		recv = s.field(dot, id, n, []parse.Node{n}, TV{}, false, recv)
	}
	return recv
}

func (s *tstate) field(dot TV, name string, n parse.Node, args []parse.Node, final TV, hasFinal bool, recv TV) TV {
	s.node = n
	if recv.t == nil {
		s.errorf("nil data; no entry for key %q", name)
	}
	recv = s.iface(recv)
	if recv.t == nil {
		s.errorf("nil pointer evaluating interface {}.%s", name)
	}
	// methods come first
	mt := recv.t
	mv := recv.v
	if _, ok := mt.Underlying().(*types.Pointer); !ok && recv.cell != nil {
		mt, mv = types.NewPointer(mt), recv.cell
	}
	if sel := s.m.w.Prog.MethodSets.MethodSet(mt).Lookup(nil, name); sel != nil && sel.Obj().Exported() {
		fn := s.m.w.Prog.MethodValue(sel)
		if fn == nil {
			unsup("method %s of %s", name, mt)
		}
		as := append([]parse.Node{}, args[1:]...)
		return s.invoke(dot, name, fn.Signature, func(a []any) any { return s.m.call(fn, append([]any{mv}, a...), nil) }, as, final, hasFinal)
	}
	hasArgs := len(args) > 1 || hasFinal
	v := s.indirect(recv)
	if v.v == nil {
		if _, isPtr := v.t.Underlying().(*types.Pointer); isPtr || v.t == nil {
			s.errorf("nil pointer evaluating %s.%s", recv.t, name)
		}
	}
	switch u := v.t.Underlying().(type) {
	case *types.Struct:
		r, ok := s.m.structField(v.v, v.t, name)
		if !ok {
			s.errorf("can't evaluate field %s in type %s", name, recv.t)
		}
		if hasArgs {
			s.errorf("%s has arguments but cannot be invoked as function", name)
		}
		if v.cell == nil {
			r.cell = nil
		}
		return r
	case *types.Map:
		if hasArgs {
			s.errorf("%s is not a method but has arguments", name)
		}
		if mp, ok := v.v.(*VMap); ok {
			if e := mp.M[keyStr(name)]; e != nil {
				return TV{v: e.v, t: u.Elem()}
			}
		}
		return TV{}
	}
	s.errorf("can't evaluate field %s in type %s", name, recv.t)
	return TV{}
}

// structField finds an exported field, promoted ones included.
func (m *Machine) structField(v any, t types.Type, name string) (TV, bool) {
	obj, index, _ := types.LookupFieldOrMethod(t, true, nil, name)
	f, ok := obj.(*types.Var)
	if !ok || !f.Exported() {
		return TV{}, false
	}
	cur, ct := v, t
	var cell *Cell
	for _, i := range index {
		if p, ok := ct.Underlying().(*types.Pointer); ok {
			c, _ := cur.(*Cell)
			if c == nil {
				m.gopanic("nil embedded pointer")
			}
			cur, ct = c.V, p.Elem()
		}
		st := ct.Underlying().(*types.Struct)
		cell = cur.(*VStruct).F[i]
		cur, ct = cell.V, st.Field(i).Type()
	}
	return TV{v: cur, t: ct, cell: cell}, true
}

func (s *tstate) function(dot TV, name string, n parse.Node, args []parse.Node, final TV, hasFinal bool) TV {
	var rest []parse.Node
	if len(args) > 0 {
		rest = args[1:]
	}
	if f, ok := s.t.funcs[name]; ok {
		sg, ok := f.t.Underlying().(*types.Signature)
		if !ok {
			s.errorf("%q is not a function", name)
		}
		return s.invoke(dot, name, sg, func(a []any) any { return s.m.apply(f.v, a) }, rest, final, hasFinal)
	}
	if name == "and" || name == "or" {
		var v TV
		for i, a := range rest {
			v = s.arg(dot, a)
			if s.truth(v) == (name == "or") {
				return v
			}
			_ = i
		}
		if hasFinal {
			v = final
		}
		return v
	}
	var vs []TV
	for _, a := range rest {
		vs = append(vs, s.arg(dot, a))
	}
	if hasFinal {
		vs = append(vs, final)
	}
	s.node = n
	need := func(k int) {
		if len(vs) < k {
			s.errorf("wrong number of args for %s", name)
		}
	}
	boolean := func(b bool) TV { return TV{v: b, t: types.Typ[types.Bool]} }
	switch name {
	case "not":
		need(1)
		return boolean(!s.truth(vs[0]))
	case "eq":
		need(2)
		a := s.basic(vs[0])
		for _, b := range vs[1:] {
			if s.eq(a, s.basic(b)) {
				return boolean(true)
			}
		}
		return boolean(false)
	case "ne":
		need(2)
		return boolean(!s.eq(s.basic(vs[0]), s.basic(vs[1])))
	case "lt", "le", "gt", "ge":
		need(2)
		a, b := s.basic(vs[0]).v, s.basic(vs[1]).v
		if u, ok := a.(uint64); ok {
			a = int64(u)
		}
		if u, ok := b.(uint64); ok {
			b = int64(u)
		}
		c := cmpVal(a, b)
		return boolean(name == "lt" && c < 0 || name == "le" && c <= 0 || name == "gt" && c > 0 || name == "ge" && c >= 0)
	case "len":
		need(1)
		v := s.indirect(vs[0])
		n := 0
		switch x := v.v.(type) {
		case string:
			n = len(x)
		case *VSlice:
			n = len(x.E)
		case *VMap:
			n = len(x.M)
		case nil:
			if v.t == nil {
				s.errorf("error calling len: len of nil pointer")
			}
		default:
			s.errorf("error calling len: len of type %s", v.t)
		}
		return TV{v: int64(n), t: types.Typ[types.Int]}
	case "index":
		need(1)
		v := vs[0]
		for _, i := range vs[1:] {
			v = s.indirect(v)
			i = s.iface(i)
			switch x := v.v.(type) {
			case *VMap:
				et := v.t.Underlying().(*types.Map).Elem()
				if e := x.M[keyStr(i.v)]; e != nil {
					v = TV{v: e.v, t: et}
				} else {
					v = TV{v: zeroVal(et), t: et}
				}
			case *VSlice:
				k := toInt(i.v)
				if k < 0 || k >= int64(len(x.E)) {
					s.errorf("error calling index: index out of range: %d", k)
				}
				v = TV{v: x.E[k].V, t: v.t.Underlying().(*types.Slice).Elem(), cell: x.E[k]}
			case nil:
				if mt, ok := v.t.(*types.Map); ok {
					v = TV{v: zeroVal(mt.Elem()), t: mt.Elem()}
					continue
				}
				s.errorf("error calling index: index of nil")
			default:
				s.errorf("error calling index: can't index item of type %s", v.t)
			}
		}
		return v
	case "print", "println", "printf":
		var gs []any
		for _, v := range vs {
			v = s.iface(v)
			if v.t == nil {
				gs = append(gs, nil)
				continue
			}
			gs = append(gs, s.m.goVal(&VIface{v.t, v.v}))
		}
		var r string
		switch name {
		case "print":
			r = fmt.Sprint(gs...)
		case "println":
			r = fmt.Sprintln(gs...)
		default:
			need(1)
			r = fmt.Sprintf(fmt.Sprint(gs[0]), gs[1:]...)
		}
		return TV{v: r, t: types.Typ[types.String]}
	}
	s.errorf("function %q not defined", name)
	return TV{}
}

func (s *tstate) basic(v TV) TV {
	v = s.iface(v)
	return v
}

func (s *tstate) eq(a, b TV) bool {
	ax, bx := a.v, b.v
	if u, ok := ax.(uint64); ok {
		ax = int64(u)
	}
	if u, ok := bx.(uint64); ok {
		bx = int64(u)
	}
	if ax != nil && bx != nil && reflect.TypeOf(ax) != reflect.TypeOf(bx) {
		s.errorf("error calling eq: incompatible types for comparison")
	}
	return eqVal(ax, bx)
}

func (s *tstate) invoke(dot TV, name string, sg *types.Signature, call func([]any) any, args []parse.Node, final TV, hasFinal bool) TV {
	var vs []TV
	for _, a := range args {
		vs = append(vs, s.arg(dot, a))
	}
	if hasFinal {
		vs = append(vs, final)
	}
	np := sg.Params().Len()
	if sg.Variadic() {
		if len(vs) < np-1 {
			s.errorf("wrong number of args for %s: want at least %d got %d", name, np-1, len(vs))
		}
	} else if len(vs) != np {
		s.errorf("wrong number of args for %s: want %d got %d", name, np, len(vs))
	}
	var in []any
	for i := 0; i < np; i++ {
		pt := sg.Params().At(i).Type()
		if sg.Variadic() && i == np-1 {
			et := pt.(*types.Slice).Elem()
			sl := &VSlice{E: []*Cell{}}
			for _, v := range vs[i:] {
				sl.E = append(sl.E, &Cell{s.conv(name, v, et)})
			}
			in = append(in, sl)
			break
		}
		in = append(in, s.conv(name, vs[i], pt))
	}
	r := call(in)
	switch sg.Results().Len() {
	case 1:
		return TV{v: r, t: sg.Results().At(0).Type()}
	case 2:
		t := r.(VTuple)
		if t[1] != nil {
			s.errorf("error calling %s: %s", name, s.m.show(t[1]))
		}
		return TV{v: t[0], t: sg.Results().At(0).Type()}
	}
	s.errorf("can't call method/function %q with %d results", name, sg.Results().Len())
	return TV{}
}

// conv passes a template value for a parameter, as text/template does.
func (s *tstate) conv(name string, v TV, want types.Type) any {
	if v.t == nil {
		switch want.Underlying().(type) {
		case *types.Interface, *types.Pointer, *types.Map, *types.Slice, *types.Signature:
			return nil
		}
		s.errorf("invalid value; expected %s", want)
	}
	if types.IsInterface(want) {
		if types.IsInterface(v.t) {
			return v.v
		}
		if types.AssignableTo(v.t, want) {
			return &VIface{v.t, cp(v.v)}
		}
	}
	if types.AssignableTo(v.t, want) {
		return cp(v.v)
	}
	v = s.iface(v)
	if v.t != nil {
		if types.AssignableTo(v.t, want) {
			return cp(v.v)
		}
		if p, ok := v.t.Underlying().(*types.Pointer); ok && types.AssignableTo(p.Elem(), want) {
			c, _ := v.v.(*Cell)
			if c == nil {
				s.errorf("dereference of nil pointer of type %s", want)
			}
			return cp(c.V)
		}
		if types.AssignableTo(types.NewPointer(v.t), want) && v.cell != nil {
			return v.cell
		}
		// basic values convert between named types of the same kind only when assignable
	}
	s.errorf("wrong type for value passed to %s; expected %s; got %s", name, want, v.t)
	return nil
}
