package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Termination of what walks through a document: loops are over something finite
// or refuse to come twice to the same thing; recursions go down the document, or
// do each element once.

// naturalLoops gives, for each loop, its header and its blocks.
func naturalLoops(f *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			body := out[h]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{h: true}
				out[h] = body
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if body[x] {
					continue
				}
				body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return out
}

// loopEnds tells why a loop ends: "" when nothing shows that it does.
func loopEnds(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) string {
	for b := range body {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || body[b.Succs[0]] && body[b.Succs[1]] {
			continue
		}
		switch c := iff.Cond.(type) {
		case *ssa.Extract:
			if _, ok := c.Tuple.(*ssa.Next); ok && c.Index == 0 && !body[b.Succs[1]] {
				return "an iteration over a map or text"
			}
		case *ssa.BinOp:
			if counts(c, body) && dominatesBackEdges(b, h, body) {
				return "a counter with a limit"
			}
		}
	}
	// comes only once to each thing
	for b := range body {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || body[b.Succs[0]] || !dominatesBackEdges(b, h, body) {
			continue
		}
		m, k := seenTest(iff.Cond)
		if m == nil || inLoop(m, body) {
			continue
		}
		for b2 := range body {
			for _, i := range b2.Instrs {
				if up, ok := i.(*ssa.MapUpdate); ok && up.Map == m && sameKey(up.Key, k) && dominatesBackEdges(b2, h, body) {
					return "nothing is met twice"
				}
			}
		}
	}
	return ""
}

func dominatesBackEdges(b, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	for _, p := range h.Preds {
		if body[p] && !b.Dominates(p) {
			return false
		}
	}
	return true
}

// sameKey: the same value, whatever interfaces it is put in.
func sameKey(a, b ssa.Value) bool { return plain(a) == plain(b) }

func inLoop(v ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	i, ok := v.(ssa.Instruction)
	return ok && body[i.Block()]
}

// seenTest: the condition is that a map holds a key.
func seenTest(c ssa.Value) (m, k ssa.Value) {
	if e, ok := c.(*ssa.Extract); ok && e.Index == 1 {
		c = e.Tuple
	}
	l, ok := c.(*ssa.Lookup)
	if !ok {
		return nil, nil
	}
	if _, isMap := l.X.Type().Underlying().(*types.Map); !isMap {
		return nil, nil
	}
	return l.X, l.Index
}

// counts: a counter, stepped by a constant in the loop, compared with a limit that
// is not changed in it.
func counts(c *ssa.BinOp, body map[*ssa.BasicBlock]bool) bool {
	switch c.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
	default:
		return false
	}
	step := func(v ssa.Value) bool {
		for _, x := range []ssa.Value{v, stepOf(v)} {
			p, ok := x.(*ssa.Phi)
			if !ok {
				continue
			}
			all := true
			for n, e := range p.Edges {
				if !body[p.Block().Preds[n]] {
					continue
				}
				if stepOf(e) != p {
					all = false
				}
			}
			if all {
				return true
			}
		}
		return false
	}
	limit := func(v ssa.Value) bool {
		if c, ok := v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return !inLoop(c.Call.Args[0], body) || !isPhi(c.Call.Args[0])
			}
		}
		return !inLoop(v, body)
	}
	return step(c.X) && limit(c.Y) || step(c.Y) && limit(c.X)
}

func isPhi(v ssa.Value) bool { _, ok := v.(*ssa.Phi); return ok }

// stepOf: x of x+c or x-c.
func stepOf(v ssa.Value) ssa.Value {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.ADD && b.Op != token.SUB {
		return nil
	}
	if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil && constant.Sign(c.Value) != 0 {
		return b.X
	}
	return nil
}

// walkStep describes how an argument is reached from a parameter of the function:
// the parameter, the number of steps, and whether they all go down the document.
func walkStep(v ssa.Value) (p *ssa.Parameter, steps int, down bool) {
	return walkFrom(v, map[ssa.Value]bool{})
}

func walkFrom(v ssa.Value, met map[ssa.Value]bool) (p *ssa.Parameter, steps int, down bool) {
	down = true
	for n := 0; n < 40; n++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			return x, steps, down
		case *ssa.FieldAddr:
			st := structOf(x.X.Type())
			if !readFromDocument(st, x.Field) {
				down = false
			}
			steps++
			v = x.X
		case *ssa.Field:
			st := structOf(x.X.Type())
			if !readFromDocument(st, x.Field) {
				down = false
			}
			steps++
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.IndexAddr:
			steps++
			v = x.X
		case *ssa.Index:
			steps++
			v = x.X
		case *ssa.Slice:
			// a part of a list: shorter if something is left out
			if x.Low != nil {
				if c, ok := x.Low.(*ssa.Const); ok && constant.Sign(c.Value) > 0 {
					steps++
				}
			}
			v = x.X
		case *ssa.Lookup:
			steps++
			v = x.X
		case *ssa.Extract:
			switch t := x.Tuple.(type) {
			case *ssa.Next:
				rg, ok := t.Iter.(*ssa.Range)
				if !ok {
					return nil, 0, false
				}
				steps++
				v = rg.X
			case *ssa.Lookup:
				steps++
				v = t.X
			default:
				return nil, 0, false
			}
		case *ssa.Alloc:
			q := spilled(x)
			if q == nil {
				return nil, 0, false
			}
			v = q
		case *ssa.Phi:
			// several ways: all must go down
			var rp *ssa.Parameter
			least := 1 << 20
			met[x] = true
			for _, e := range x.Edges {
				if passes(e, met) {
					continue // from the round before, with more steps
				}
				if c, ok := e.(*ssa.Const); ok && c.IsNil() {
					continue
				}
				q, s, d := walkFrom(e, met)
				if q == nil {
					return nil, 0, false
				}
				rp = q
				least = min(least, s)
				down = down && d
			}
			return rp, steps + least, down && rp != nil
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		default:
			return nil, 0, false
		}
	}
	return nil, 0, false
}

// passes: the value is reached from one of those met.
func passes(v ssa.Value, met map[ssa.Value]bool) bool {
	for n := 0; n < 20; n++ {
		if met[v] {
			return true
		}
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Lookup:
			v = x.X
		case *ssa.Extract:
			l, ok := x.Tuple.(*ssa.Lookup)
			if !ok {
				return false
			}
			v = l.X
		default:
			return false
		}
	}
	return false
}

// readFromDocument: the field is filled from the document. What the program adds
// (links to other elements) leads anywhere.
func readFromDocument(st *types.Struct, k int) bool {
	f := st.Field(k)
	if !f.Exported() {
		return false
	}
	if f.Embedded() {
		return true
	}
	tag, ok := reflect.StructTag(st.Tag(k)).Lookup("json")
	return ok && !strings.HasPrefix(tag, "-")
}

// doneOnce: the function begins by leaving if the element has been done, and notes
// that it has before it goes further.
func doneOnce(f *ssa.Function, before func(ssa.Instruction) bool) bool {
	if len(f.Params) == 0 {
		return false
	}
	isFlag := func(v ssa.Value) (int, bool) {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return 0, false
		}
		root := fa.X
		if p, _, _ := walkStep(root); p != f.Params[0] {
			return 0, false
		}
		if structOf(fa.X.Type()).Field(fa.Field).Exported() {
			return 0, false
		}
		return fa.Field, true
	}
	type test struct {
		b    *ssa.BasicBlock
		flag int
		m    ssa.Value
	}
	var tests []test
	for _, b := range f.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		// the way taken when it has been done leaves at once
		leaves := func(x *ssa.BasicBlock) bool {
			for _, i := range x.Instrs {
				switch i.(type) {
				case *ssa.Call, *ssa.MapUpdate, *ssa.Store:
					return false
				}
			}
			_, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return)
			return ok
		}
		c, yes := iff.Cond, b.Succs[0]
		if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
			c, yes = u.X, b.Succs[1]
		}
		if !leaves(yes) {
			continue
		}
		if u, ok := c.(*ssa.UnOp); ok && u.Op == token.MUL {
			if k, ok := isFlag(u.X); ok {
				tests = append(tests, test{b, k, nil})
			}
		}
		if call, ok := c.(*ssa.Call); ok {
			if k, ok := flagHelper(call, f.Params[0], false); ok {
				tests = append(tests, test{b, k, nil})
			}
		}
		if m, k := seenTest(c); m != nil && plain(k) == f.Params[0] {
			if _, isParam := m.(*ssa.Parameter); isParam {
				tests = append(tests, test{b, -1, m})
			}
		}
	}
	for _, t := range tests {
		var mark *ssa.BasicBlock
		markAt := -1
		for _, b := range f.Blocks {
			for n, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					if k, ok := isFlag(x.Addr); ok && t.m == nil && k == t.flag {
						if c, ok := x.Val.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) {
							mark, markAt = b, n
						}
					}
				case *ssa.Call:
					if k, ok := flagHelper(x, f.Params[0], true); ok && t.m == nil && k == t.flag {
						mark, markAt = b, n
					}
				case *ssa.MapUpdate:
					if t.m != nil && x.Map == t.m && plain(x.Key) == f.Params[0] {
						mark, markAt = b, n
					}
				}
			}
		}
		if mark == nil {
			continue
		}
		good := true
		for _, b := range f.Blocks {
			for n, i := range b.Instrs {
				if !before(i) {
					continue
				}
				if !t.b.Dominates(b) || !(mark == b && markAt < n || mark != b && mark.Dominates(b)) {
					good = false
				}
			}
		}
		if good {
			return true
		}
	}
	return false
}

// flagHelper: the call, on the element, of a function that tells a mark of it (or
// sets it).
func flagHelper(c *ssa.Call, elem *ssa.Parameter, sets bool) (int, bool) {
	g := staticOrigin(&c.Call)
	if g == nil || len(g.Blocks) == 0 || len(g.Params) == 0 || len(c.Call.Args) == 0 || plain(c.Call.Args[0]) != elem {
		return 0, false
	}
	flag := func(v ssa.Value) (int, bool) {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok || fa.X != g.Params[0] || structOf(fa.X.Type()).Field(fa.Field).Exported() {
			return 0, false
		}
		return fa.Field, true
	}
	var rets []*ssa.Return
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			rets = append(rets, ret)
		}
	}
	if sets {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				k, ok := flag(st.Addr)
				if !ok {
					continue
				}
				if c, ok := st.Val.(*ssa.Const); !ok || c.Value == nil || c.Value.Kind() != constant.Bool || !constant.BoolVal(c.Value) {
					return 0, false
				}
				for _, ret := range rets {
					if !b.Dominates(ret.Block()) {
						return 0, false
					}
				}
				return k, true
			}
		}
		return 0, false
	}
	if len(rets) != 1 || len(rets[0].Results) != 1 {
		return 0, false
	}
	u, ok := rets[0].Results[0].(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return 0, false
	}
	// read before it is set
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			if st, ok := i.(*ssa.Store); ok {
				if _, ok := flag(st.Addr); ok && (b != u.Block() || posIn(b, st) < posIn(b, u)) {
					return 0, false
				}
			}
		}
	}
	return flag(u.X)
}

func posIn(b *ssa.BasicBlock, i ssa.Instruction) int {
	for n, x := range b.Instrs {
		if x == i {
			return n
		}
	}
	return -1
}

// checkTermination looks at every loop and every recursion of the functions.
func checkTermination(r *Report, fns []*ssa.Function) {
	loops := 0
	for _, f := range fns {
		for h, body := range naturalLoops(f) {
			loops++
			if why := loopEnds(h, body); why == "" {
				pos := f.Pos()
				for _, i := range h.Instrs {
					if i.Pos().IsValid() {
						pos = i.Pos()
						break
					}
				}
				r.Fail(fnName(f)+":loop", pos, "nothing shows that the loop in %s ends: it is neither over a list, map or text, nor refuses what it has met already", fnName(f))
			}
		}
	}
	r.Count("loops", loops)

	// recursions
	in := map[*ssa.Function]bool{}
	for _, f := range fns {
		in[f] = true
	}
	type edge struct {
		from, to *ssa.Function
		at       ssa.Instruction
		down     bool // goes down the document
		follow   bool // by a link that the program added, on an element
	}
	var edges []edge
	next := map[*ssa.Function][]*ssa.Function{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := staticOrigin(c.Common())
				if g == nil || !in[g] {
					continue
				}
				e := edge{from: f, to: g, at: i}
				for _, a := range c.Common().Args {
					if p, steps, down := walkStep(a); p != nil && steps > 0 && (isElementType(a.Type()) || isStrings(a.Type())) {
						if down {
							e.down = true
						} else if isElementType(a.Type()) {
							e.follow = true
						}
					}
					break // of the receiver (or first parameter), so that all go down together
				}
				if len(c.Common().Args) > 1 && !e.down {
					if last := c.Common().Args[len(c.Common().Args)-1]; isStrings(last.Type()) {
						if p, steps, _ := walkStep(last); p != nil && steps > 0 {
							e.down = true
						}
					}
				}
				edges = append(edges, e)
				next[f] = append(next[f], g)
			}
		}
	}
	comp := components(fns, next)
	recursions := 0
	links := map[*types.Named]bool{}
	linkAt := map[*types.Named]ssa.Instruction{}
	// without the steps down, and without the functions that do each element once,
	// no cycle should be left
	rest := map[*ssa.Function][]*ssa.Function{}
	mixed := map[*ssa.Function][]*ssa.Function{}
	var chains, same []edge
	at := map[[2]*ssa.Function]ssa.Instruction{}
	once := map[*ssa.Function]bool{}
	for _, e := range edges {
		if comp[e.from] != comp[e.to] {
			continue
		}
		recursions++
		if _, done := once[e.from]; !done {
			cf := comp[e.from]
			once[e.from] = doneOnce(e.from, func(i ssa.Instruction) bool {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					return false
				}
				g := staticOrigin(c.Common())
				return g != nil && in[g] && comp[g] == cf
			})
		}
		if once[e.from] {
			continue
		}
		if e.down {
			mixed[e.from] = append(mixed[e.from], e.to)
			continue
		}
		if e.from.Signature.Recv() != nil && isRootType(e.from.Signature.Recv().Type()) && e.from == e.to && e.follow {
			continue // documents given beside another one have none beside them
		}
		if linked, chain := afterLink(e.from, e.at); linked {
			if chain {
				mixed[e.from] = append(mixed[e.from], e.to)
				chains = append(chains, e)
			}
			continue
		}
		if e.follow && e.from == e.to {
			// a chain of links: they have no cycle if references have none
			if n := namedElem(e.from.Signature.Recv()); n != nil {
				links[n] = true
				linkAt[n] = e.at
				continue
			}
		}
		mixed[e.from] = append(mixed[e.from], e.to)
		same = append(same, e)
		rest[e.from] = append(rest[e.from], e.to)
		at[[2]*ssa.Function{e.from, e.to}] = e.at
	}
	// going to the target of a reference leads anywhere in the document: nothing goes
	// down from there to the reference again
	mc := components(fns, mixed)
	byMixed := map[int]int{} // the steps down of each component
	for f, gs := range mixed {
		for _, g := range gs {
			if mc[f] == mc[g] {
				byMixed[mc[f]]++
			}
		}
	}
	for _, e := range append(same, chains...) {
		if mc[e.from] != mc[e.to] {
			continue
		}
		byMixed[mc[e.from]]--
	}
	for _, e := range chains {
		if mc[e.from] == mc[e.to] && byMixed[mc[e.from]] > 0 {
			r.Fail("recursion:"+fnName(e.from)+"->"+fnName(e.to), e.at.Pos(), "nothing shows that the recursion of %s through %s ends: it goes to the target of a reference, which may hold what refers to it, and does not refuse what it has done already", fnName(e.from), fnName(e.to))
		}
	}

	left := components(fns, rest)
	byComp := map[int][]*ssa.Function{}
	for _, f := range fns {
		byComp[left[f]] = append(byComp[left[f]], f)
	}
	for _, f := range fns {
		for _, g := range rest[f] {
			if left[f] == left[g] {
				r.Fail("recursion:"+fnName(f)+"->"+fnName(g), at[[2]*ssa.Function{f, g}].Pos(), "nothing shows that the recursion of %s through %s ends: it does not go down the document, and does not refuse what it has done already", fnName(f), fnName(g))
			}
		}
	}
	r.Count("recursive calls", recursions)

	// the links that are followed are those whose cycles are refused
	refused := cyclesRefused(fns)
	for n := range links {
		if !refused[n] {
			r.Fail("cycle:"+n.Obj().Pkg().Name()+"."+n.Obj().Name(), linkAt[n].Pos(), "the links of %s are followed to their end, but resolving a reference does not refuse cycles of %s", n.Obj().Name(), n.Obj().Name())
		}
	}
	r.Count("types whose references are followed", len(links))
}

// isRootType: a document as a whole, which can be processed.
func isRootType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	return types.NewMethodSet(types.NewPointer(t)).Lookup(nil, "Process") != nil
}

// afterLink: the call is made because an element refers to another one, with that
// other one, and either as often as references are chained (the reference is read
// again in the target), or once, the link being removed.
func afterLink(f *ssa.Function, at ssa.Instruction) (linked, chain bool) {
	for _, b := range f.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.NEQ && cmp.Op != token.EQL {
			continue
		}
		x := cmp.X
		if c, ok := cmp.Y.(*ssa.Const); !ok || !(c.IsNil() || c.Value != nil && c.Value.ExactString() == `""`) {
			continue
		}
		ld, ok := x.(*ssa.UnOp)
		if !ok {
			continue
		}
		fa, ok := ld.X.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		st := structOf(fa.X.Type())
		tag := reflect.StructTag(st.Tag(fa.Field)).Get("json")
		isRef := tag == "$ref"
		isLink := !readFromDocument(st, fa.Field) && st.Field(fa.Field).Exported() && isElementType(st.Field(fa.Field).Type())
		if !isRef && !isLink {
			continue
		}
		if p, _, _ := walkStep(fa.X); p == nil {
			continue
		}
		way := b.Succs[0]
		if cmp.Op == token.EQL {
			way = b.Succs[1]
		}
		if len(way.Preds) != 1 || !way.Dominates(at.Block()) {
			continue
		}
		// the link is removed before
		for _, b2 := range f.Blocks {
			for _, i := range b2.Instrs {
				if i == at {
					break
				}
				sto, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa2, ok := sto.Addr.(*ssa.FieldAddr)
				if !ok || fa2.Field != fa.Field || structOf(fa2.X.Type()) != st && !types.Identical(fa2.X.Type(), fa.X.Type()) {
					continue
				}
				if c, ok := sto.Val.(*ssa.Const); ok && (c.IsNil() || c.Value != nil && c.Value.ExactString() == `""`) && (b2 == at.Block() || b2.Dominates(at.Block())) {
					return true, false
				}
			}
		}
		// the target takes part, the references being chained without a cycle
		if isRef {
			for _, a := range at.(ssa.CallInstruction).Common().Args {
				if u, ok := a.(*ssa.UnOp); ok {
					a = u.X
				}
				if e, ok := a.(*ssa.Extract); ok {
					if c, ok := e.Tuple.(*ssa.Call); ok && refersWith(c, x) {
						return true, true
					}
				}
			}
		}
	}
	return false, false
}

// refersWith: the call looks up what the reference designates.
func refersWith(c *ssa.Call, ref ssa.Value) bool {
	for _, a := range c.Call.Args {
		if u, ok := a.(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				if reflect.StructTag(structOf(fa.X.Type()).Tag(fa.Field)).Get("json") == "$ref" {
					return true
				}
			}
		}
	}
	return false
}

func isElementType(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	_, ok = n.Underlying().(*types.Struct)
	return ok
}

func isStrings(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

func namedElem(v *types.Var) *types.Named {
	if v == nil {
		return nil
	}
	t := v.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// cyclesRefused: the types of which a loop that follows references, and refuses
// what it has met, knows how to go on.
func cyclesRefused(fns []*ssa.Function) map[*types.Named]bool {
	out := map[*types.Named]bool{}
	for _, f := range fns {
		for h, body := range naturalLoops(f) {
			if loopEnds(h, body) != "nothing is met twice" {
				continue
			}
			var visit func(g *ssa.Function, blocks map[*ssa.BasicBlock]bool, seen map[*ssa.Function]bool)
			visit = func(g *ssa.Function, blocks map[*ssa.BasicBlock]bool, seen map[*ssa.Function]bool) {
				for _, b := range g.Blocks {
					if blocks != nil && !blocks[b] {
						continue
					}
					for _, i := range b.Instrs {
						switch x := i.(type) {
						case *ssa.TypeAssert:
							if !readsReference(x) {
								continue
							}
							if p, ok := x.AssertedType.(*types.Pointer); ok {
								if n, ok := p.Elem().(*types.Named); ok {
									out[n] = true
								}
							}
						case *ssa.Call:
							if c := x.Call.StaticCallee(); c != nil && len(c.Blocks) > 0 && !seen[c] && c.Pkg == f.Pkg && c.Signature.Recv() == nil {
								seen[c] = true
								visit(c, nil, seen)
							}
						}
					}
				}
			}
			visit(f, body, map[*ssa.Function]bool{})
		}
	}
	return out
}

// readsReference: the reference of what is asserted is read (and only returned).
func readsReference(x *ssa.TypeAssert) bool {
	vals := []ssa.Value{x}
	if x.CommaOk {
		vals = nil
		for _, ref := range *x.Referrers() {
			if e, ok := ref.(*ssa.Extract); ok && e.Index == 0 {
				vals = append(vals, e)
			}
		}
	}
	for _, v := range vals {
		for _, ref := range *v.Referrers() {
			fa, ok := ref.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			st := structOf(fa.X.Type())
			if reflect.StructTag(st.Tag(fa.Field)).Get("json") == "$ref" {
				return true
			}
		}
	}
	return false
}

// components numbers the strongly connected components.
func components(fns []*ssa.Function, next map[*ssa.Function][]*ssa.Function) map[*ssa.Function]int {
	index := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	comp := map[*ssa.Function]int{}
	var stack []*ssa.Function
	n, c := 0, 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		index[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		for _, g := range next[f] {
			if index[g] == 0 {
				visit(g)
				low[f] = min(low[f], low[g])
			} else if on[g] {
				low[f] = min(low[f], index[g])
			}
		}
		if low[f] == index[f] {
			c++
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				comp[g] = c
				if g == f {
					break
				}
			}
		}
	}
	for _, f := range fns {
		if index[f] == 0 {
			visit(f)
		}
	}
	return comp
}

// plain is a value without the interfaces and conversions around it.
func plain(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return v
		}
	}
}
