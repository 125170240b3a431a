package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A forward dataflow analysis of what is known to be there: which access paths
// (p->Field, m[k], results of calls) are not nil, and how long lists are at
// least. What a function needs of its parameters, and what it guarantees of its
// results, is inferred over all functions together.

type nilState struct {
	nn   map[string]bool // not nil
	lens map[string]int  // minimum lengths
	typ  map[string]bool // "key is T" established by a type test
	dead bool
}

func newNilState() *nilState {
	return &nilState{nn: map[string]bool{}, lens: map[string]int{}, typ: map[string]bool{}}
}

func (s *nilState) clone() *nilState {
	o := newNilState()
	for k := range s.nn {
		o.nn[k] = true
	}
	for k, v := range s.lens {
		o.lens[k] = v
	}
	for k := range s.typ {
		o.typ[k] = true
	}
	o.dead = s.dead
	return o
}

func meetNil(a, b *nilState) *nilState {
	if a == nil || a.dead {
		return b.clone()
	}
	if b.dead {
		return a
	}
	o := newNilState()
	for k := range a.nn {
		if b.nn[k] {
			o.nn[k] = true
		}
	}
	for k, v := range a.lens {
		if w, ok := b.lens[k]; ok {
			o.lens[k] = min(v, w)
		}
	}
	for k := range a.typ {
		if b.typ[k] {
			o.typ[k] = true
		}
	}
	return o
}

func (a *nilState) equal(b *nilState) bool {
	if a.dead != b.dead || len(a.nn) != len(b.nn) || len(a.lens) != len(b.lens) || len(a.typ) != len(b.typ) {
		return false
	}
	for k := range a.nn {
		if !b.nn[k] {
			return false
		}
	}
	for k, v := range a.lens {
		if w, ok := b.lens[k]; !ok || v != w {
			return false
		}
	}
	for k := range a.typ {
		if !b.typ[k] {
			return false
		}
	}
	return true
}

type nilNeed struct {
	pos  token.Pos
	what string
}

type nilSummary struct {
	needs    map[string]nilNeed // parameters, and what is reached from them by fields, that must not be nil: "p0", "p1->F"
	lens     map[int]int        // minimum lengths of the results (when there is no error)
	result   map[int]bool       // results that are not nil (when there is no error), the needs being met
	ifTrue   map[string]bool    // what is not nil when the function returns true: "p0->F"
	ifFalse  map[string]bool
	returned bool
}

type nilFinding struct {
	fn   *ssa.Function
	pos  token.Pos
	key  string
	text string
}

const nilManyElements = 1 << 20 // of what is never returned

type nilAnalysis struct {
	w       *World
	in      map[*ssa.Function]bool
	fns     []*ssa.Function
	sum     map[*ssa.Function]*nilSummary
	found   map[string]nilFinding
	changed bool
	near    token.Pos
	edges   map[[2]*ssa.BasicBlock]*nilState // of the function being analysed
	demands int
	called  map[*ssa.Function]bool // by some function that is not a test
	pure    map[*ssa.Function]bool // functions that change nothing
	keys    map[ssa.Value]string
	unset   map[string]bool        // fields that are set back to nil somewhere
	taken   map[*ssa.Function]bool // functions used as values
	built   map[string]bool        // unexported fields that every value has from its construction on
	holds   map[string]bool        // unexported maps where only what is there is put
	derefs  map[ssa.Instruction]bool
	indexes map[ssa.Instruction]bool
	asserts map[ssa.Instruction]bool
	calls   map[ssa.Instruction]bool
}

func newNilAnalysis(w *World, fns []*ssa.Function) *nilAnalysis {
	na := &nilAnalysis{w: w, in: map[*ssa.Function]bool{}, fns: fns, sum: map[*ssa.Function]*nilSummary{}, keys: map[ssa.Value]string{}, unset: map[string]bool{}, taken: map[*ssa.Function]bool{}, built: map[string]bool{}, holds: map[string]bool{},
		derefs: map[ssa.Instruction]bool{}, indexes: map[ssa.Instruction]bool{}, asserts: map[ssa.Instruction]bool{}, calls: map[ssa.Instruction]bool{}}
	for _, f := range fns {
		na.in[f] = true
		na.sum[f] = &nilSummary{needs: map[string]nilNeed{}, result: map[int]bool{}, lens: map[int]int{}}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			na.sum[f].result[i] = true // until shown otherwise
			na.sum[f].lens[i] = nilManyElements
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						if c, ok := st.Val.(*ssa.Const); ok && c.IsNil() {
							na.unset[structOf(fa.X.Type()).Field(fa.Field).Name()] = true
						}
					}
				}
			}
		}
	}
	na.construction()
	na.called = map[*ssa.Function]bool{}
	for _, f := range w.Funcs(Mod) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						na.called[g] = true
						if g.Origin() != nil {
							na.called[g.Origin()] = true
						}
					}
				}
			}
		}
	}
	return na
}

// construction finds the unexported fields holding maps that all values of their
// structure are given when they are made.
func (na *nilAnalysis) construction() {
	fields := map[string]bool{}
	for _, f := range na.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if c, ok := i.(ssa.CallInstruction); !ok || c.Common().Value != *op {
							na.taken[g] = true
						}
					}
				}
				al, ok := i.(*ssa.Alloc)
				if !ok {
					continue
				}
				st := structOf(al.Type())
				if st == nil || al.Referrers() == nil {
					continue
				}
				given := map[int]bool{}
				copied := false
				for _, ref := range *al.Referrers() {
					switch x := ref.(type) {
					case *ssa.Store:
						copied = copied || x.Addr == al
					case *ssa.FieldAddr:
						for _, r2 := range *x.Referrers() {
							if sto, ok := r2.(*ssa.Store); ok && sto.Addr == x {
								if _, ok := sto.Val.(*ssa.MakeMap); ok {
									given[x.Field] = true
								}
							}
						}
					}
				}
				if copied {
					continue
				}
				for k := 0; k < st.NumFields(); k++ {
					if _, isMap := st.Field(k).Type().Underlying().(*types.Map); !isMap || st.Field(k).Exported() {
						continue
					}
					n := fieldID(al.Type(), k)
					if old, seen := fields[n]; !seen {
						fields[n] = given[k]
					} else {
						fields[n] = old && given[k]
					}
				}
			}
		}
	}
	for n, all := range fields {
		na.built[n] = all
		na.holds[n] = true // until shown otherwise
	}
}

// fieldID names a field of a structure (or of what a pointer leads to).
func fieldID(t types.Type, k int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.String() + "." + structOf(t).Field(k).Name()
}

// fieldOf is the field a value is read from.
func readField(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return fieldID(fa.X.Type(), fa.Field)
		}
	case *ssa.Field:
		return fieldID(x.X.Type(), x.Field)
	}
	return ""
}

func (na *nilAnalysis) run() {
	na.purity()
	for again := 0; again < 6; again++ {
		demands := 0
		for round := 0; round < 40; round++ {
			na.changed = false
			na.found = map[string]nilFinding{}
			for _, f := range na.fns {
				na.analyse(f)
			}
			if !na.changed {
				break
			}
		}
		for _, f := range na.fns {
			demands += len(na.sum[f].needs)
		}
		if demands == na.demands {
			return
		}
		// with what is demanded of the callers, more may be known of the results
		na.demands = demands
		for _, f := range na.fns {
			for i := range na.sum[f].result {
				na.sum[f].result[i] = true
				na.sum[f].lens[i] = nilManyElements
			}
		}
	}
}

// purity finds the functions that change nothing but their own variables.
func (na *nilAnalysis) purity() {
	na.pure = map[*ssa.Function]bool{}
	for _, f := range na.fns {
		na.pure[f] = true
	}
	for again := true; again; {
		again = false
		for _, f := range na.fns {
			if !na.pure[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					ok := true
					switch x := i.(type) {
					case *ssa.Store:
						root := x.Addr
						for {
							if fa, is := root.(*ssa.FieldAddr); is {
								root = fa.X
								continue
							}
							if ia, is := root.(*ssa.IndexAddr); is {
								root = ia.X
								continue
							}
							break
						}
						_, ok = root.(*ssa.Alloc)
					case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure:
						al, isAlloc := x.(*ssa.Alloc)
						ok = isAlloc && !al.Heap // what is new each time is not the same
					case *ssa.Call:
						g := staticOrigin(x.Common())
						ok = g != nil && na.pure[g]
						if b, isB := x.Call.Value.(*ssa.Builtin); isB {
							ok = b.Name() == "len"
						}
						if g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "strings" {
							ok = true
						}
					}
					if !ok {
						na.pure[f] = false
						again = true
					}
				}
			}
		}
	}
}

func (na *nilAnalysis) key(v ssa.Value) string {
	if k, ok := na.keys[v]; ok {
		return k
	}
	na.keys[v] = "t:" + v.Name() // cycles through phis
	k := ""
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			k = "nil"
		} else {
			k = "c:" + x.String()
		}
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				k = fmt.Sprintf("p%d", i)
			}
		}
	case *ssa.FreeVar:
		k = "fv:" + x.Name()
	case *ssa.Alloc:
		// the place of a parameter that is passed by value
		if p := spilled(x); p != nil {
			k = na.key(p)
		}
	case *ssa.Global:
		k = "g:" + x.String()
	case *ssa.FieldAddr:
		st := structOf(x.X.Type())
		b := na.key(x.X)
		if isAddr(x.X) {
			k = b + "." + st.Field(x.Field).Name()
		} else {
			k = b + "->" + st.Field(x.Field).Name()
		}
	case *ssa.Field:
		st := structOf(x.X.Type())
		b := na.key(x.X)
		if strings.HasSuffix(b, "->") {
			k = b + st.Field(x.Field).Name()
		} else {
			k = b + "." + st.Field(x.Field).Name()
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if isAddr(x.X) {
				k = na.key(x.X) // the value at the place
			} else {
				k = na.key(x.X) + "->"
			}
		}
	case *ssa.IndexAddr:
		k = na.key(x.X) + "[" + na.key(x.Index) + "]"
	case *ssa.Index:
		k = na.key(x.X) + "[" + na.key(x.Index) + "]"
	case *ssa.Lookup:
		if !x.CommaOk {
			k = na.key(x.X) + "[" + na.key(x.Index) + "]"
		}
	case *ssa.Extract:
		if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			k = na.key(l.X) + "[" + na.key(l.Index) + "]"
		}
	case *ssa.Call:
		if g := staticOrigin(x.Common()); g != nil && na.pure[g] {
			k = "call:" + g.Name() + "("
			for _, a := range x.Call.Args {
				k += na.key(a) + ","
			}
			k += ")"
		}
	case *ssa.ChangeType:
		k = na.key(x.X)
	case *ssa.ChangeInterface:
		k = na.key(x.X)
	case *ssa.MakeInterface:
		k = "i:" + na.key(x.X)
	}
	if k == "" {
		k = "t:" + v.Name()
	}
	na.keys[v] = k
	return k
}

// spilled: the parameter a variable is made for.
func spilled(al *ssa.Alloc) *ssa.Parameter {
	var p *ssa.Parameter
	for _, ref := range *al.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
			q, ok := st.Val.(*ssa.Parameter)
			if !ok || p != nil {
				return nil
			}
			p = q
		}
	}
	return p
}

// isAddr: the value is the address of a place (not a pointer that may be nil).
func isAddr(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global, *ssa.FreeVar:
		return true
	}
	return false
}

// known tells whether a value is not nil.
func (na *nilAnalysis) known(s *nilState, v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return !x.IsNil()
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global, *ssa.FreeVar, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.MakeClosure, *ssa.Function:
		return true
	case *ssa.ChangeType:
		return na.known(s, x.X)
	case *ssa.MakeInterface:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return na.known(s, x.X) // the pointer inside, in fact
		}
		return true
	case *ssa.TypeAssert:
		if na.known(s, x.X) && !x.CommaOk {
			return true
		}
	case *ssa.UnOp:
		if fv, ok := x.X.(*ssa.FreeVar); ok && x.Op == token.MUL {
			_ = fv
			return true // checked where it was captured
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL && s.typ["els "+na.key(ia.X)] {
			return true
		}
		if na.built[readField(x)] {
			return true
		}
	case *ssa.Field:
		if na.built[readField(x)] {
			return true
		}
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok && x.Index == 2 {
			if rg, ok := nx.Iter.(*ssa.Range); ok && na.holds[readField(rg.X)] {
				return true
			}
		}
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 && na.holds[readField(lk.X)] && s.typ["in "+na.key(x)] {
			return true
		}
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 && s.typ["ok "+na.key(ta.X)+" is "+ta.AssertedType.String()] {
			// what has methods is not made of absent pointers
			if it, ok := ta.X.Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
				return true
			}
		}
	case *ssa.Call:
		if na.callResult(s, x, 0) {
			return true
		}
	}
	return s.nn[na.key(v)]
}

// elements: all elements of a list are there.
func (na *nilAnalysis) elements(s *nilState, v ssa.Value) bool {
	if s.typ["els "+na.key(v)] {
		return true
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		_, needs := na.sum[x.Parent()].needs["els "+na.key(x)]
		return needs
	case *ssa.Const:
		return x.IsNil()
	case *ssa.MakeSlice:
		c, ok := x.Len.(*ssa.Const)
		return ok && constant.Sign(c.Value) == 0
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			for _, a := range x.Call.Args {
				if !na.elements(s, a) {
					return false
				}
			}
			return true
		}
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			return na.elements(s, x.X)
		}
		if n, ok := constLen(al, x); ok && n == 0 {
			return true
		}
		given := 0
		for _, ref := range *al.Referrers() {
			ia, ok := ref.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
					if !na.known(s, st.Val) {
						return false
					}
					given++
				}
			}
		}
		at := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
		return given == int(at.Len())
	}
	return false
}

// constLen is the length of a part of a new array with constant limits.
func constLen(al *ssa.Alloc, x *ssa.Slice) (int, bool) {
	if x.High == nil || x.Low != nil {
		return 0, false
	}
	c, ok := x.High.(*ssa.Const)
	if !ok {
		return 0, false
	}
	n, _ := constant.Int64Val(c.Value)
	return int(n), true
}

// callResult: the i-th result of a call is not nil (if there is no error).
func (na *nilAnalysis) callResult(s *nilState, c *ssa.Call, i int) bool {
	g := staticOrigin(c.Common())
	if g == nil || !na.in[g] {
		// library functions give what they announce
		if c.Common().IsInvoke() {
			return true
		}
		if g := c.Common().StaticCallee(); g != nil {
			if calleeName(c.Common()) == "github.com/mohae/deepcopy.Copy" {
				return len(c.Call.Args) == 1 && na.known(s, c.Call.Args[0])
			}
			return true
		}
		_, builtin := c.Call.Value.(*ssa.Builtin)
		return builtin
	}
	return na.sum[g].result[i] && errResultIndex(g.Signature) < 0
}

func staticOrigin(cc *ssa.CallCommon) *ssa.Function {
	g := cc.StaticCallee()
	if g != nil && g.Origin() != nil && len(g.Blocks) == 0 {
		return g.Origin()
	}
	return g
}

// learn refines a state with a condition being true or false.
func (na *nilAnalysis) learn(s *nilState, cond ssa.Value, val bool) {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			na.learn(s, x.X, !val)
		}
	case *ssa.BinOp:
		eq := x.Op == token.EQL && val || x.Op == token.NEQ && !val
		ne := x.Op == token.NEQ && val || x.Op == token.EQL && !val
		a, b := x.X, x.Y
		if c, ok := a.(*ssa.Const); ok && c.IsNil() {
			a, b = b, a
		}
		if c, ok := b.(*ssa.Const); ok && c.IsNil() {
			if ne {
				na.setNN(s, a)
			}
			if eq {
				na.noError(s, a)
				if na.known(s, a) && !isErrorType(a.Type()) {
					s.dead = true
				}
			}
			return
		}
		na.learnLen(s, x, val)
		// comparisons with constants of what comes from a list: nothing
		_ = ne
	case *ssa.Call:
		g := staticOrigin(x.Common())
		if g == nil || !na.in[g] {
			return
		}
		sum := na.sum[g]
		facts := sum.ifTrue
		if !val {
			facts = sum.ifFalse
		}
		for f := range facts {
			var i int
			rest := ""
			if n, _ := fmt.Sscanf(f, "p%d", &i); n != 1 || i >= len(x.Call.Args) {
				continue
			}
			rest = strings.TrimPrefix(f, fmt.Sprintf("p%d", i))
			a := x.Call.Args[i]
			if rest == "" {
				na.setNN(s, a)
			} else {
				k := na.key(a)
				if strings.HasSuffix(k, "->") { // a structure passed by value
					rest = strings.TrimPrefix(strings.TrimPrefix(rest, "->"), ".")
				}
				s.nn[k+rest] = true
			}
		}
	case *ssa.Extract:
		// the second result of a type test or of a lookup
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 && val {
			s.typ[na.key(ta.X)+" is "+ta.AssertedType.String()] = true
			s.typ["ok "+na.key(ta.X)+" is "+ta.AssertedType.String()] = true
		}
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 && val {
			s.typ["in "+na.key(lk.X)+"["+na.key(lk.Index)+"]"] = true
		}
	case *ssa.Phi:
		// && and || leave constants on the other edges
		for i, e := range x.Edges {
			_ = i
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) != val {
				continue
			}
		}
	}
}

// setNN notes that a value is there, and what follows.
func (na *nilAnalysis) setNN(s *nilState, v ssa.Value) {
	s.nn[na.key(v)] = true
}

// noError: the error v is nil, so the other results of its call are there.
func (na *nilAnalysis) noError(s *nilState, v ssa.Value) {
	if !isErrorType(v.Type()) {
		return
	}
	x, ok := v.(*ssa.Extract)
	if !ok {
		return
	}
	c, ok := x.Tuple.(*ssa.Call)
	if !ok {
		return
	}
	g := staticOrigin(c.Common())
	for _, ref := range *c.Referrers() {
		e, ok := ref.(*ssa.Extract)
		if !ok || e.Index == x.Index {
			continue
		}
		if g == nil || !na.in[g] || na.sum[g].result[e.Index] {
			s.nn[na.key(e)] = true
		}
		if g != nil && na.in[g] {
			if n := na.sum[g].lens[e.Index]; n > s.lens[na.key(e)] {
				s.lens[na.key(e)] = n
			}
		}
	}
}

func (na *nilAnalysis) lenOf(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Call)
	if !ok {
		return "", false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return "", false
	}
	return na.key(c.Call.Args[0]), true
}

func (na *nilAnalysis) learnLen(s *nilState, x *ssa.BinOp, val bool) {
	op := x.Op
	a, b := x.X, x.Y
	if _, ok := na.lenOf(a); !ok {
		if _, ok := na.lenOf(b); !ok {
			// s != "" means at least one byte
			if c, ok := b.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == "" {
				if op == token.NEQ && val || op == token.EQL && !val {
					k := na.key(a)
					s.lens[k] = max(s.lens[k], 1)
				}
			}
			return
		}
		a, b = b, a
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	if !val {
		switch op {
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		}
	}
	k, _ := na.lenOf(a)
	c, ok := b.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		if op == token.GTR { // i < len(x)
			s.typ[na.key(b)+" < len "+k] = true
		}
		return
	}
	n64, _ := constant.Int64Val(c.Value)
	n := int(n64)
	switch op {
	case token.EQL, token.GEQ:
		s.lens[k] = max(s.lens[k], n)
	case token.GTR:
		s.lens[k] = max(s.lens[k], n+1)
	case token.NEQ:
		if n == s.lens[k] {
			s.lens[k] = n + 1
		}
	}
}

// minLen of a list or text.
func (na *nilAnalysis) minLen(s *nilState, v ssa.Value) int {
	n := min(s.lens[na.key(v)], nilManyElements)
	switch x := v.(type) {
	case *ssa.Call:
		if strings.HasPrefix(calleeName(x.Common()), "strings.Split") {
			n = max(n, 1)
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(x.Call.Args) == 2 {
			n = max(n, na.minLen(s, x.Call.Args[0])+na.minLen(s, x.Call.Args[1]))
		}
		if g := staticOrigin(x.Common()); g != nil && na.in[g] && errResultIndex(g.Signature) < 0 {
			n = max(n, na.sum[g].lens[0])
		}
	case *ssa.Slice:
		lo := 0
		if x.Low != nil {
			c, ok := x.Low.(*ssa.Const)
			if !ok {
				return n
			}
			l, _ := constant.Int64Val(c.Value)
			lo = int(l)
		}
		if x.High == nil {
			n = max(n, na.minLen(s, x.X)-lo)
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			if at, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				n = max(n, int(at.Len())-lo)
			}
		}
	case *ssa.Convert:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			n = max(n, min(1, na.minLen(s, x.X)))
		}
	case *ssa.MakeSlice:
		if c, ok := x.Len.(*ssa.Const); ok {
			l, _ := constant.Int64Val(c.Value)
			n = max(n, int(l))
		}
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			n = max(n, len(constant.StringVal(x.Value)))
		}
	}
	return n
}

// forgetCalls forgets the results of calls that depend on what has changed.
func (s *nilState) forgetCalls() {
	for k := range s.nn {
		if strings.Contains(k, "call:") {
			delete(s.nn, k)
		}
	}
	for k := range s.lens {
		if strings.Contains(k, "call:") {
			delete(s.lens, k)
		}
	}
	for k := range s.typ {
		if strings.Contains(k, "call:") {
			delete(s.typ, k)
		}
	}
}

// kill forgets what is known about a place.
func (s *nilState) kill(suffix string) {
	has := func(k string) bool {
		for {
			i := strings.Index(k, suffix)
			if i < 0 {
				return false
			}
			rest := k[i+len(suffix):]
			if rest == "" || strings.ContainsAny(rest[:1], "-.[] ,)") {
				return true
			}
			k = rest
		}
	}
	for k := range s.nn {
		if has(k) {
			delete(s.nn, k)
		}
	}
	for k := range s.lens {
		if has(k) {
			delete(s.lens, k)
		}
	}
	for k := range s.typ {
		if has(k) {
			delete(s.typ, k)
		}
	}
}

func (na *nilAnalysis) report(f *ssa.Function, pos token.Pos, key, format string, a ...any) {
	if !pos.IsValid() {
		pos = f.Pos()
		if na.near.IsValid() {
			pos = na.near
		}
	}
	k := fnName(f) + ":" + key
	if _, ok := na.found[k]; !ok {
		na.found[k] = nilFinding{f, pos, k, fmt.Sprintf(format, a...)}
	}
}

// need: v is used as if it were there.
func (na *nilAnalysis) need(f *ssa.Function, s *nilState, v ssa.Value, pos token.Pos, what string) {
	if s.dead || na.known(s, v) {
		return
	}
	root := v
	for {
		if ct, ok := root.(*ssa.ChangeType); ok {
			root = ct.X
			continue
		}
		if mi, ok := root.(*ssa.MakeInterface); ok {
			root = mi.X
			continue
		}
		break
	}
	k := na.key(root)
	if u, ok := root.(*ssa.UnOp); ok && u.Op == token.MUL {
		if ia, ok := u.X.(*ssa.IndexAddr); ok && na.needElements(f, s, ia.X, pos, what) {
			s.nn[na.key(v)] = true
			return
		}
	}
	if p, ok := root.(*ssa.Phi); ok && na.phiNeed(f, p, map[*ssa.Phi]bool{}, pos, what) {
		s.nn[na.key(v)] = true
		return
	}
	_, isParam := root.(*ssa.Parameter)
	if isParam || fieldPath(k) && !f.Object().(*types.Func).Exported() && f.Parent() == nil && !na.taken[f] {
		if _, has := na.sum[f].needs[k]; !has {
			na.sum[f].needs[k] = nilNeed{pos, what}
			na.changed = true
		}
		s.nn[na.key(v)] = true
		return
	}
	na.report(f, pos, "nil:"+na.desc(root, 0), "%s %s %s, which may be absent", fnName(f), what, na.desc(root, 0))
	s.nn[na.key(v)] = true
}

// needElements: the elements of a list are used as if they were all there. If it is a
// parameter of a helper, this is what its callers must give.
func (na *nilAnalysis) needElements(f *ssa.Function, s *nilState, list ssa.Value, pos token.Pos, what string) bool {
	if na.elements(s, list) {
		return true
	}
	p, ok := list.(*ssa.Parameter)
	if !ok || !isList(p.Type()) || f.Parent() != nil || na.taken[f] || f.Object() == nil || f.Object().Exported() {
		return false
	}
	na.sum[f].needs["els "+na.key(p)] = nilNeed{pos, what}
	na.changed = true
	return true
}

// phiNeed: what is chosen is there, or a parameter, which must then be there.
func (na *nilAnalysis) phiNeed(f *ssa.Function, p *ssa.Phi, seen map[*ssa.Phi]bool, pos token.Pos, what string) bool {
	if seen[p] {
		return true
	}
	seen[p] = true
	var params []string
	for n, pr := range p.Block().Preds {
		e := na.edges[[2]*ssa.BasicBlock{pr, p.Block()}]
		if e == nil || e.dead || na.known(e, p.Edges[n]) {
			continue
		}
		switch x := p.Edges[n].(type) {
		case *ssa.Parameter:
			params = append(params, na.key(x))
		case *ssa.Phi:
			if !na.phiNeed(f, x, seen, pos, what) {
				return false
			}
		default:
			return false
		}
	}
	for _, k := range params {
		if _, has := na.sum[f].needs[k]; !has {
			na.sum[f].needs[k] = nilNeed{pos, what}
			na.changed = true
		}
	}
	return true
}

// fieldPath: a parameter, and fields from it on.
func fieldPath(k string) bool {
	if !strings.HasPrefix(k, "p") || strings.ContainsAny(k, ":[ ") {
		return false
	}
	return true
}

// desc describes a value in the words of the source.
func (na *nilAnalysis) desc(v ssa.Value, depth int) string {
	if depth > 12 {
		return "…"
	}
	d := func(x ssa.Value) string { return na.desc(x, depth+1) }
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Name()
	case *ssa.FreeVar:
		return x.Name()
	case *ssa.Const:
		return x.String()
	case *ssa.Alloc:
		if x.Comment != "" && x.Comment != "complit" && x.Comment != "varargs" {
			return x.Comment
		}
		return "a new " + types.TypeString(x.Type().(*types.Pointer).Elem(), func(*types.Package) string { return "" })
	case *ssa.Global:
		return x.Name()
	case *ssa.FieldAddr:
		return d(x.X) + "." + structOf(x.X.Type()).Field(x.Field).Name()
	case *ssa.Field:
		return d(x.X) + "." + structOf(x.X.Type()).Field(x.Field).Name()
	case *ssa.UnOp:
		return d(x.X)
	case *ssa.IndexAddr:
		if _, ok := x.Index.(*ssa.Const); ok {
			return d(x.X) + "[" + d(x.Index) + "]"
		}
		return "an element of " + d(x.X)
	case *ssa.Index:
		return "an element of " + d(x.X)
	case *ssa.Lookup:
		return "an entry of " + d(x.X)
	case *ssa.Extract:
		switch tp := x.Tuple.(type) {
		case *ssa.Lookup:
			return d(tp)
		case *ssa.Next:
			if rg, ok := tp.Iter.(*ssa.Range); ok {
				return "an entry of " + d(rg.X)
			}
		case *ssa.TypeAssert:
			return d(tp.X) + ".(" + types.TypeString(tp.AssertedType, func(*types.Package) string { return "" }) + ")"
		case *ssa.Call:
			return fmt.Sprintf("result %d of %s", x.Index, shortCall(tp))
		}
	case *ssa.Call:
		return "the result of " + shortCall(x)
	case *ssa.Phi:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.TypeAssert:
		return d(x.X)
	case *ssa.ChangeType:
		return d(x.X)
	case *ssa.MakeInterface:
		return d(x.X)
	case *ssa.Slice:
		return "a part of " + d(x.X)
	case *ssa.Convert:
		return d(x.X)
	}
	return "a value"
}

func shortCall(c *ssa.Call) string {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	if c.Call.IsInvoke() {
		return c.Call.Method.Name()
	}
	if g := c.Call.StaticCallee(); g != nil {
		return g.Name()
	}
	return "a call"
}

func (na *nilAnalysis) analyse(f *ssa.Function) {
	in := map[*ssa.BasicBlock]*nilState{f.Blocks[0]: newNilState()}
	for k := range na.sum[f].needs {
		in[f.Blocks[0]].nn[k] = true
	}
	outEdge := map[[2]*ssa.BasicBlock]*nilState{}
	na.edges = outEdge
	work := []*ssa.BasicBlock{f.Blocks[0]}
	visits := 0
	sum := na.sum[f]
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if visits++; visits > 20000 {
			na.report(f, f.Pos(), "undecided", "the analysis of %s does not end", fnName(f))
			return
		}
		s := in[b].clone()
		na.block(f, b, s, false)
		for k, to := range b.Succs {
			e := s.clone()
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b.Succs[0] != b.Succs[1] {
				na.learn(e, iff.Cond, k == 0)
				na.learnPhi(e, iff.Cond, k == 0, b, outEdge)
			}
			// phis of the successor
			type up struct {
				k   string
				nn  bool
				els bool
				len int
			}
			var ups []up
			for _, i := range to.Instrs {
				p, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				for n, pr := range to.Preds {
					if pr == b {
						ups = append(ups, up{na.key(p), na.known(e, p.Edges[n]), na.elements(e, p.Edges[n]), na.minLen(e, p.Edges[n])})
						break
					}
				}
			}
			for _, u := range ups {
				e.kill(u.k)
			}
			for _, u := range ups {
				if u.nn {
					e.nn[u.k] = true
				}
				if u.els {
					e.typ["els "+u.k] = true
				}
				if u.len > 0 {
					e.lens[u.k] = u.len
				}
			}
			outEdge[[2]*ssa.BasicBlock{b, to}] = e
			var m *nilState
			for _, pr := range to.Preds {
				if x := outEdge[[2]*ssa.BasicBlock{pr, to}]; x != nil {
					m = meetNil(m, x)
				}
			}
			if m == nil {
				m = e.clone()
			}
			if old := in[to]; old == nil || !old.equal(m) {
				in[to] = m
				work = append(work, to)
			}
		}
	}
	// findings and summary, on the final states
	var ifTrue, ifFalse map[string]bool
	for _, b := range f.Blocks {
		if in[b] == nil || in[b].dead {
			continue
		}
		s := in[b].clone()
		na.block(f, b, s, true)
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if ei := errResultIndex(f.Signature); ei < 0 || !na.isError(s, ret.Results[ei]) {
			es := s.clone()
			if ei >= 0 {
				na.noError(es, ret.Results[ei])
			}
			for i, rv := range ret.Results {
				if i == ei {
					continue
				}
				if n := na.minLen(es, rv); n < sum.lens[i] {
					if p, ok := rv.(*ssa.Phi); ok && p.Block() == b && ei >= 0 {
						n = na.phiLen(p, b, outEdge, ei, ret)
					}
					if n < sum.lens[i] {
						sum.lens[i] = n
						na.changed = true
					}
				}
				if sum.result[i] && !na.known(es, rv) && !na.phiKnown(rv, b, outEdge, ei, ret) {
					switch rv.Type().Underlying().(type) {
					case *types.Pointer, *types.Interface, *types.Map:
						sum.result[i] = false
						na.changed = true
					}
				}
			}
		}
		if len(ret.Results) == 1 && isBool(ret.Results[0].Type()) {
			add := func(s *nilState, v ssa.Value) {
				c, isC := v.(*ssa.Const)
				if !isC || constant.BoolVal(c.Value) {
					e := s.clone()
					na.learn(e, v, true)
					ifTrue = meetFacts(ifTrue, e)
				}
				if !isC || !constant.BoolVal(c.Value) {
					e := s.clone()
					na.learn(e, v, false)
					ifFalse = meetFacts(ifFalse, e)
				}
			}
			if p, ok := ret.Results[0].(*ssa.Phi); ok && p.Block() == b {
				for n, pr := range b.Preds {
					if e := outEdge[[2]*ssa.BasicBlock{pr, b}]; e != nil && !e.dead {
						add(e, p.Edges[n])
					}
				}
			} else {
				add(s, ret.Results[0])
			}
		}
	}
	if len(ifTrue) != len(sum.ifTrue) || len(ifFalse) != len(sum.ifFalse) {
		na.changed = true
	}
	sum.ifTrue, sum.ifFalse = ifTrue, ifFalse
}

// learnPhi: a condition made of && or ||.
func (na *nilAnalysis) learnPhi(e *nilState, cond ssa.Value, val bool, b *ssa.BasicBlock, out map[[2]*ssa.BasicBlock]*nilState) {
	neg := false
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, neg = u.X, !neg
	}
	if neg {
		val = !val
	}
	p, ok := cond.(*ssa.Phi)
	if !ok || p.Block() != b {
		return
	}
	var m *nilState
	for n, pr := range b.Preds {
		if c, ok := p.Edges[n].(*ssa.Const); ok && c.Value != nil && constant.BoolVal(c.Value) != val {
			continue
		}
		x := out[[2]*ssa.BasicBlock{pr, b}]
		if x == nil {
			continue
		}
		x = x.clone()
		na.learn(x, p.Edges[n], val)
		m = meetNil(m, x)
	}
	if m == nil {
		return
	}
	for k := range m.nn {
		e.nn[k] = true
	}
	for k, v := range m.lens {
		e.lens[k] = max(e.lens[k], v)
	}
	for k := range m.typ {
		e.typ[k] = true
	}
}

// phiKnown: the result is chosen among values that are there on their way.
func (na *nilAnalysis) phiKnown(v ssa.Value, b *ssa.BasicBlock, out map[[2]*ssa.BasicBlock]*nilState, ei int, ret *ssa.Return) bool {
	p, ok := v.(*ssa.Phi)
	if !ok || p.Block() != b {
		return false
	}
	var ep *ssa.Phi
	if ei >= 0 {
		ep, _ = ret.Results[ei].(*ssa.Phi)
	}
	for n, pr := range b.Preds {
		e := out[[2]*ssa.BasicBlock{pr, b}]
		if e == nil || e.dead {
			continue
		}
		if ep != nil && ep.Block() == b && na.isError(e, ep.Edges[n]) {
			continue
		}
		if !na.known(e, p.Edges[n]) {
			return false
		}
	}
	return true
}

// phiLen: the minimum length of a result chosen among several.
func (na *nilAnalysis) phiLen(p *ssa.Phi, b *ssa.BasicBlock, out map[[2]*ssa.BasicBlock]*nilState, ei int, ret *ssa.Return) int {
	ep, _ := ret.Results[ei].(*ssa.Phi)
	least := nilManyElements
	for n, pr := range b.Preds {
		e := out[[2]*ssa.BasicBlock{pr, b}]
		if e == nil || e.dead || ep != nil && ep.Block() == b && na.isError(e, ep.Edges[n]) {
			continue
		}
		least = min(least, na.minLen(e, p.Edges[n]))
	}
	return least
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func meetFacts(a map[string]bool, s *nilState) map[string]bool {
	if s.dead {
		return a
	}
	o := map[string]bool{}
	for k := range s.nn {
		if strings.HasPrefix(k, "p") && !strings.ContainsAny(k, ":[") && (a == nil || a[k]) {
			o[k] = true
		}
	}
	return o
}

// isError: the value is an error for sure.
func (na *nilAnalysis) isError(s *nilState, v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return !x.IsNil()
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		n := calleeName(x.Common())
		return n == "fmt.Errorf" || n == "errors.New"
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && g != nil {
			return true
		}
	}
	return s.nn[na.key(v)]
}

func (na *nilAnalysis) block(f *ssa.Function, b *ssa.BasicBlock, s *nilState, final bool) {
	for _, instr := range b.Instrs {
		// what is used as if it were there
		probe := s
		if !final {
			probe = s.clone()
		}
		na.check(f, probe, instr, final)
		if !final && len(probe.nn) > len(s.nn) {
			// used, so it is there from now on
			for k := range probe.nn {
				s.nn[k] = true
			}
		}
		switch x := instr.(type) {
		case *ssa.Store:
			k := na.key(x.Addr)
			if k == na.key(x.Val) {
				continue
			}
			if !isAddr(x.Addr) {
				k += "->"
			}
			nn := na.known(s, x.Val)
			ln := na.minLen(s, x.Val)
			if _, local := x.Addr.(*ssa.Alloc); !local {
				s.forgetCalls()
			}
			if i := strings.LastIndex(k, "->"); i >= 0 {
				s.kill(k[i:])
			} else {
				s.kill(k)
			}
			if nn {
				s.nn[k] = true
			}
			if ln > 0 {
				s.lens[k] = ln
			}
			// what is known of the parts of a copied structure
			if vk := na.key(x.Val); strings.HasSuffix(vk, "->") || strings.HasPrefix(vk, "p") || strings.HasPrefix(vk, "t:") {
				for q := range s.nn {
					if strings.HasPrefix(q, vk) && len(q) > len(vk) {
						rest := q[len(vk):]
						if !strings.HasSuffix(vk, "->") {
							rest = strings.TrimPrefix(rest, ".")
						}
						s.nn[k+"."+rest] = true
					}
				}
			}
		case *ssa.MapUpdate:
			k := na.key(x.Map) + "[" + na.key(x.Key) + "]"
			s.kill(na.key(x.Map) + "[")
			if id := readField(x.Map); final && na.holds[id] && !na.known(s, x.Value) {
				na.holds[id] = false
				na.changed = true
			}
			if na.known(s, x.Value) {
				s.nn[k] = true
			}
		case *ssa.Call:
			g := staticOrigin(x.Common())
			if g != nil && na.w.InScope(g) && !na.pure[g] {
				for n := range na.unset {
					s.kill("->" + n)
				}
				s.forgetCalls()
			}
			if g == nil || !na.pure[g] {
				s.kill(na.key(x))
			}
			if na.callResult(s, x, 0) {
				s.nn[na.key(x)] = true
			}
			if na.elements(s, x) {
				s.typ["els "+na.key(x)] = true
			}
		case *ssa.Alloc:
			if spilled(x) == nil {
				s.kill(na.key(x))
			}
		case ssa.Value:
			if k := na.key(x); k == "t:"+x.Name() {
				if _, ok := x.(*ssa.Phi); !ok {
					keep := na.known(s, x)
					s.kill(k)
					if keep {
						switch x.(type) {
						case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.MakeChan:
							s.nn[k] = true
						}
					}
				}
			}
		}
		if ex, ok := instr.(*ssa.Extract); ok {
			if c, ok := ex.Tuple.(*ssa.Call); ok && na.callResult(s, c, ex.Index) && errResultIndex(c.Common().Signature()) < 0 {
				s.nn[na.key(ex)] = true
			}
		}
	}
}

// check looks at what an instruction needs.
func (na *nilAnalysis) check(f *ssa.Function, s *nilState, instr ssa.Instruction, final bool) {
	if s.dead {
		return
	}
	na.near = token.NoPos
	if b := instr.Block(); b != nil {
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				na.near = i.Pos()
			}
			if i == instr {
				break
			}
		}
	}
	deref := func(addr ssa.Value) {
		if final {
			na.derefs[instr] = true
		}
		switch a := addr.(type) {
		case *ssa.FieldAddr:
			base := a.X
			for {
				if fa, ok := base.(*ssa.FieldAddr); ok {
					base = fa.X
					continue
				}
				break
			}
			if !isAddr(base) {
				na.need(f, s, base, a.Pos(), "reads or writes a field of")
			}
		case *ssa.IndexAddr:
		default:
			if !isAddr(addr) {
				na.need(f, s, addr, instr.Pos(), "dereferences")
			}
		}
	}
	switch x := instr.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			deref(x.X)
		}
	case *ssa.Store:
		deref(x.Addr)
	case *ssa.MapUpdate:
		if final {
			na.derefs[instr] = true
		}
		na.need(f, s, x.Map, x.Pos(), "adds an entry to the map")
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			na.index(f, s, instr, x.X, x.Index, final)
		} else if !isAddr(x.X) {
			na.need(f, s, x.X, x.Pos(), "indexes")
		}
	case *ssa.Lookup:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			na.index(f, s, instr, x.X, x.Index, final)
		}
	case *ssa.Slice:
		if final {
			na.indexes[instr] = true
		}
		if x.Low != nil {
			if c, ok := x.Low.(*ssa.Const); ok {
				n, _ := constant.Int64Val(c.Value)
				if int(n) > na.minLen(s, x.X) && !arrayOf(x.X, int(n)) {
					na.report(f, x.Pos(), "slice:"+na.desc(x.X, 0), "%s takes %s from position %d on, but it may be shorter", fnName(f), na.desc(x.X, 0), n)
				}
			} else if !na.position(s, x.Low, x.X) {
				na.report(f, x.Pos(), "slice:"+na.desc(x.X, 0), "%s cuts %s at a position that may be outside", fnName(f), na.desc(x.X, 0))
			}
		}
		if x.High != nil {
			if c, ok := x.High.(*ssa.Const); ok {
				n, _ := constant.Int64Val(c.Value)
				if int(n) > na.minLen(s, x.X) && !arrayOf(x.X, int(n)) {
					na.report(f, x.Pos(), "slice:"+na.desc(x.X, 0), "%s takes the first %d of %s, but it may be shorter", fnName(f), n, na.desc(x.X, 0))
				}
			} else if !na.position(s, x.High, x.X) {
				na.report(f, x.Pos(), "slice:"+na.desc(x.X, 0), "%s cuts %s at a position that may be outside", fnName(f), na.desc(x.X, 0))
			}
		}
	case *ssa.TypeAssert:
		if x.CommaOk {
			return
		}
		if final {
			na.asserts[instr] = true
		}
		if s.typ[na.key(x.X)+" is "+x.AssertedType.String()] {
			return
		}
		if mi, ok := x.X.(*ssa.MakeInterface); ok && types.Identical(mi.X.Type(), x.AssertedType) {
			return
		}
		// a copy has the type of what is copied
		if c, ok := x.X.(*ssa.Call); ok && calleeName(c.Common()) == "github.com/mohae/deepcopy.Copy" {
			if mi, ok := c.Call.Args[0].(*ssa.MakeInterface); ok && types.Identical(mi.X.Type(), x.AssertedType) {
				return
			}
		}
		na.report(f, x.Pos(), "assert:"+x.AssertedType.String(), "%s takes a value for a %s without checking it", fnName(f), x.AssertedType)
	case *ssa.Panic:
		if final && (na.called[f] || na.w.FnPkgPath(f) != utilsPath) {
			na.report(f, x.Pos(), "panic", "%s panics", fnName(f))
		}
	case *ssa.BinOp:
		if x.Op == token.QUO || x.Op == token.REM {
			if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				if c, ok := x.Y.(*ssa.Const); !ok || constant.Sign(c.Value) == 0 {
					na.report(f, x.Pos(), "division", "%s divides by what may be zero", fnName(f))
				}
			}
		}
	case ssa.CallInstruction:
		cc := x.Common()
		g := staticOrigin(cc)
		if g == nil {
			if cc.IsInvoke() {
				return
			}
			return
		}
		if !na.in[g] {
			return
		}
		if final {
			na.calls[instr] = true
		}
		for _, k := range sortedKeys(na.sum[g].needs) {
			var i int
			if n, _ := fmt.Sscanf(k, "els p%d", &i); n == 1 && i < len(cc.Args) {
				if !na.needElements(f, s, cc.Args[i], x.Pos(), "needs") {
					na.report(f, x.Pos(), "nil:elements of "+na.desc(cc.Args[i], 0), "%s gives %s, which uses its elements, %s, an element of which may be absent", fnName(f), fnName(g), na.desc(cc.Args[i], 0))
				}
				continue
			}
			if n, _ := fmt.Sscanf(k, "p%d", &i); n != 1 || i >= len(cc.Args) {
				continue
			}
			rest := strings.TrimPrefix(k, fmt.Sprintf("p%d", i))
			if rest == "" {
				na.need(f, s, cc.Args[i], x.Pos(), "gives "+fnName(g)+", which uses it,")
				continue
			}
			na.needPath(f, s, cc.Args[i], rest, x.Pos(), g)
		}
	}
}

// needPath: what is reached from a value by fields is used by the callee.
func (na *nilAnalysis) needPath(f *ssa.Function, s *nilState, v ssa.Value, rest string, pos token.Pos, g *ssa.Function) {
	if s.dead {
		return
	}
	k := na.key(v)
	if strings.HasSuffix(k, "->") || strings.HasPrefix(rest, "->") && isAddr(v) {
		rest = strings.TrimPrefix(strings.TrimPrefix(rest, "->"), ".")
		if isAddr(v) && !strings.HasSuffix(k, "->") {
			rest = "." + rest
		}
	}
	full := k + rest
	if s.nn[full] {
		return
	}
	if fieldPath(full) && !f.Object().(*types.Func).Exported() && f.Parent() == nil && !na.taken[f] {
		if _, has := na.sum[f].needs[full]; !has {
			na.sum[f].needs[full] = nilNeed{pos, "needs"}
			na.changed = true
		}
		s.nn[full] = true
		return
	}
	what := na.desc(v, 0) + strings.ReplaceAll(strings.ReplaceAll(rest, "->", "."), "..", ".")
	na.report(f, pos, "nil:"+what, "%s calls %s, which uses %s, which may be absent", fnName(f), fnName(g), what)
	s.nn[full] = true
}

func arrayOf(v ssa.Value, n int) bool {
	p, ok := v.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	a, ok := p.Elem().Underlying().(*types.Array)
	return ok && int(a.Len()) >= n
}

// position: a computed position is within the list or text.
func (na *nilAnalysis) position(s *nilState, v, list ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		if k, ok := na.lenOf(x); ok && k == na.key(list) {
			return true
		}
		if k, ok := na.lenOf(x); ok {
			_ = k
			// the length of a prefix that was tested for
			return true
		}
	case *ssa.Extract:
		// the position of an iteration over the same text
		if nx, ok := x.Tuple.(*ssa.Next); ok && x.Index == 1 {
			_ = nx
			return true
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil {
				n, _ := constant.Int64Val(c.Value)
				// Index(text, sep)+1: at most the length
				if call, ok := x.X.(*ssa.Call); ok && n == 1 {
					nm := calleeName(call.Common())
					if (strings.HasPrefix(nm, "strings.Index") || strings.HasPrefix(nm, "strings.LastIndex")) && len(call.Call.Args) > 0 && na.key(call.Call.Args[0]) == na.key(list) {
						return true
					}
				}
				if e, ok := x.X.(*ssa.Extract); ok && n == 1 {
					if _, ok := e.Tuple.(*ssa.Next); ok {
						return true
					}
				}
			}
		}
		if x.Op == token.SUB {
			if k, ok := na.lenOf(x.X); ok && k == na.key(list) {
				if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil {
					n, _ := constant.Int64Val(c.Value)
					return na.minLen(s, list) >= int(n)
				}
			}
		}
	}
	return s.typ[na.key(v)+" < len "+na.key(list)]
}

func (na *nilAnalysis) index(f *ssa.Function, s *nilState, instr ssa.Instruction, list, ix ssa.Value, final bool) {
	if final {
		na.indexes[instr] = true
	}
	ok := false
	ix = justStored(ix)
	switch x := ix.(type) {
	case *ssa.Const:
		n, _ := constant.Int64Val(x.Value)
		ok = int(n) < na.minLen(s, list)
	case *ssa.BinOp:
		if k, isLen := na.lenOf(x.X); isLen && x.Op == token.SUB && k == na.key(list) {
			if c, isC := x.Y.(*ssa.Const); isC {
				n, _ := constant.Int64Val(c.Value)
				ok = n >= 1 && na.minLen(s, list) >= int(n)
			}
		}
	}
	if !ok {
		ok = s.typ[na.key(ix)+" < len "+na.key(list)]
	}
	if !ok {
		if sl, isS := list.(*ssa.Slice); isS {
			if arrayOf(sl.X, 0) {
				if c, isC := ix.(*ssa.Const); isC {
					n, _ := constant.Int64Val(c.Value)
					ok = arrayOf(sl.X, int(n)+1)
				}
			}
		}
	}
	if p, isP := list.(*ssa.Parameter); !ok && isP {
		if c, isC := ix.(*ssa.Const); isC {
			n, _ := constant.Int64Val(c.Value)
			ok = na.givenAtLeast(f, p, int(n)+1)
		}
	}
	if !ok {
		na.report(f, instr.Pos(), "index:"+na.desc(list, 0), "%s reads %s at a position that may be outside", fnName(f), na.desc(list, 0))
	}
}

func mayBeNil(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// justStored is what a variable was given earlier in the same block, if nothing else
// may have changed it since.
func justStored(v ssa.Value) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return v
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return v
	}
	for n := posIn(u.Block(), u) - 1; n >= 0; n-- {
		switch x := u.Block().Instrs[n].(type) {
		case *ssa.Store:
			if x.Addr == al {
				return x.Val
			}
		case *ssa.Call, *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Select:
			return v
		}
	}
	return v
}

// givenAtLeast: all the calls of the function give a list of n elements or more.
func (na *nilAnalysis) givenAtLeast(f *ssa.Function, p *ssa.Parameter, n int) bool {
	k := -1
	for i, q := range f.Params {
		if q == p {
			k = i
		}
	}
	if k < 0 || na.taken[f] || f.Object() == nil || f.Object().Exported() {
		return false
	}
	calls := 0
	for _, g := range na.w.Funcs(Mod) {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok || staticOrigin(c.Common()) != f {
					continue
				}
				calls++
				sl, ok := c.Common().Args[k].(*ssa.Slice)
				if !ok || sl.Low != nil || sl.High != nil || !arrayOf(sl.X, n) {
					return false
				}
			}
		}
	}
	return calls > 0
}
