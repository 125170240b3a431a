package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"maps"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Kind string

const (
	EvCall   Kind = "call"  // call whose body is not analysed (library, interface, function value)
	EvEnter  Kind = "enter" // call inlined: entry
	EvLeave  Kind = "leave" // call inlined: exit
	EvStore  Kind = "store"
	EvLoad   Kind = "load"  // only when asked for
	EvRange  Kind = "range" // only when asked for
	EvMapUpd Kind = "mapupdate"
	EvMapDel Kind = "mapdelete"
	EvLookup Kind = "lookup"
	EvSend   Kind = "send"
	EvRecv   Kind = "recv"
	EvClose  Kind = "close"
	EvGo     Kind = "go"
	EvDefer  Kind = "defer"
	EvBranch Kind = "branch"
	EvPanic  Kind = "panic"
	EvDeref  Kind = "deref"   // of a pointer not known to be non-nil (with Derefs)
	EvTrap   Kind = "trap"    // what may crash: index, slice, assertion, division... (with Traps)
	EvDeflt  Kind = "default" // default branch of a select
)

type Event struct {
	Kind     Kind
	Obj      *types.Func   // callee if statically known (function, method or interface method)
	SSAFn    *ssa.Function // inlined function
	Callee   *Term         // function value for dynamic calls
	Invoke   bool          // dynamic dispatch on an interface
	Args     []*Term
	Res      *Term
	Addr     *Term
	Val      *Term
	Cond     *Term
	Taken    bool
	Instr    ssa.Instruction
	In       *ssa.Function
	Depth    int
	Deferred bool
	Select   int // 0: not in a select; 1: blocking select; 2: select with default
	Snap     *Config
	CallID   int // pairs enter/leave
}

func (e *Event) Name() string {
	if e.Obj != nil {
		return e.Obj.FullName()
	}
	return ""
}

func (e *Event) Pos() token.Pos {
	if e.Instr != nil {
		if p := e.Instr.Pos(); p.IsValid() {
			return p
		}
		// the nearest preceding position in the block
		if b := e.Instr.Block(); b != nil {
			var last token.Pos
			for _, i := range b.Instrs {
				if i.Pos().IsValid() {
					last = i.Pos()
				}
				if i == e.Instr {
					break
				}
			}
			if last.IsValid() {
				return last
			}
		}
	}
	if e.In != nil {
		return e.In.Pos()
	}
	return token.NoPos
}

type tnode struct {
	ev   *Event
	prev *tnode
	n    int
}

type deferred struct {
	common *ssa.CallCommon
	callee *Term
	args   []*Term
	instr  ssa.Instruction
	fn     *ssa.Function
}

type Frame struct {
	fn      *ssa.Function
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	idx     int
	env     map[ssa.Value]*Term
	free    []*Term
	defers  []deferred
	forks   map[ssa.Instruction]int
	visits  map[*ssa.BasicBlock]int
	gens    map[ssa.Instruction]int
	id      int
	callID  int
	call    ssa.Value // value in the caller's env that receives the result
	isDefer bool      // running on behalf of the frame below's deferred calls
	panicV  *Term
	recov   bool
	// synthetic frame: an unknown function which calls its closure arguments
	synth []*synthCall
	spos  int
	sres  *Term
}

type synthCall struct {
	fn   *Term
	args []*Term
}

func (f *Frame) clone() *Frame {
	g := *f
	g.env = maps.Clone(f.env)
	g.forks = maps.Clone(f.forks)
	g.visits = maps.Clone(f.visits)
	g.gens = maps.Clone(f.gens)
	g.defers = append([]deferred(nil), f.defers...)
	return &g
}

type Config struct {
	frames []*Frame
	mem    map[*Term]*Term
	facts  map[*Term]bool
	trace  *tnode
	steps  int
	recvs  int // receives so far
}

func (c *Config) clone() *Config {
	d := &Config{mem: maps.Clone(c.mem), facts: maps.Clone(c.facts), trace: c.trace, steps: c.steps, recvs: c.recvs}
	for _, f := range c.frames {
		d.frames = append(d.frames, f.clone())
	}
	return d
}
func (c *Config) top() *Frame { return c.frames[len(c.frames)-1] }

type Trace struct {
	Events []*Event
	Exit   string // return | panic | truncated
	Ret    []*Term
	Facts  map[*Term]bool
	Mem    map[*Term]*Term
	in     *Interp
	handed []*Term // what a callback explored on its own was called with
}

type Interp struct {
	W         *World
	T         *Terms
	Inline    func(*ssa.Function) bool
	Opaque    map[string]bool                    // full names of functions never inlined (pure: same args, same result)
	Invoke    func(ev *Event, fns []*Term) []int // how many times an unknown callee calls each closure argument
	OnCall    func(c *Config, ev *Event)         // sees each unknown call with the memory before it
	PanicOn   func(ev *Event) bool               // unknown calls that may also panic
	Callbacks bool                               // functions given to unknown calls are explored by threads, as code running later
	Derefs    bool                               // uses of pointers that may be nil are events
	Traps     bool                               // operations that may crash are events
	Loads     bool                               // reads of fields, and iterations, are events too
	NoHavoc   func(ev *Event) bool               // unknown calls that leave their arguments' memory as it is
	MaxForks  int
	MaxVisit  int
	MaxDepth  int
	MaxPaths  int
	MaxRec    int
	MaxRecv   int // a path ends ("bounded") after that many receives, when positive

	Paths     int
	Undecided []string
	frameIDs  map[string]int
	callSeq   int
	fnsSeen   map[*ssa.Function]bool
	callSites map[ssa.Instruction]bool
}

func NewInterp(w *World) *Interp {
	return &Interp{W: w, T: w.T, Opaque: map[string]bool{}, MaxForks: 2, MaxVisit: 6, MaxDepth: 14, MaxPaths: 60000, MaxRec: 5,
		Inline:   func(f *ssa.Function) bool { return w.InScope(f) },
		frameIDs: w.frameIDs, fnsSeen: w.fnsSeen, callSites: w.callSites}
}

func (in *Interp) fid(parent int, site ssa.Instruction, gen int, fn *ssa.Function) int {
	k := fmt.Sprintf("%d/%p/%d/%p", parent, site, gen, fn)
	id, ok := in.frameIDs[k]
	if !ok {
		id = len(in.frameIDs) + 1
		in.frameIDs[k] = id
	}
	return id
}

// Run explores every path of fn (within bounds) and returns their traces.
func (in *Interp) Run(fn *ssa.Function, args []*Term, free []*Term, init *Config) []*Trace {
	c := &Config{mem: map[*Term]*Term{}, facts: map[*Term]bool{}}
	if init != nil {
		c.mem = maps.Clone(init.mem)
		c.facts = maps.Clone(init.facts)
	}
	f := in.newFrame(fn, args, free, in.fid(0, nil, 0, fn))
	c.frames = []*Frame{f}
	return in.explore(c)
}

// ParamTerms makes symbolic arguments for fn.
func (in *Interp) ParamTerms(fn *ssa.Function) []*Term {
	var ts []*Term
	for i, p := range fn.Params {
		ts = append(ts, in.T.Sym(fmt.Sprintf("%s@%s.%d", p.Name(), fn.String(), i), p.Type()))
	}
	return ts
}

func (in *Interp) newFrame(fn *ssa.Function, args, free []*Term, id int) *Frame {
	in.fnsSeen[fn] = true
	f := &Frame{fn: fn, block: fn.Blocks[0], env: map[ssa.Value]*Term{}, free: free,
		forks: map[ssa.Instruction]int{}, visits: map[*ssa.BasicBlock]int{fn.Blocks[0]: 1}, gens: map[ssa.Instruction]int{}, id: id}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		} else {
			f.env[p] = in.T.Sym("missing:"+p.Name(), p.Type())
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(free) {
			f.env[v] = free[i]
		} else {
			f.env[v] = in.T.Sym("free:"+fn.String()+"."+v.Name(), v.Type())
		}
	}
	return f
}

func (in *Interp) explore(c0 *Config) []*Trace {
	var out []*Trace
	work := []*Config{c0}
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		if len(out) > in.MaxPaths {
			in.Undecided = append(in.Undecided, fmt.Sprintf("path limit exceeded in %s", c0.frames[0].fn))
			return out
		}
		for {
			forks, exit, ret := in.step(c)
			work = append(work, forks...)
			if exit != "" {
				if exit != "infeasible" {
					t := &Trace{Exit: exit, Ret: ret, Facts: c.facts, Mem: c.mem, in: in}
					n := 0
					if c.trace != nil {
						n = c.trace.n
					}
					t.Events = make([]*Event, n)
					for x := c.trace; x != nil; x = x.prev {
						t.Events[x.n-1] = x.ev
					}
					out = append(out, t)
					in.Paths++
				}
				break
			}
		}
	}
	return out
}

func (c *Config) emit(e *Event) {
	n := 1
	if c.trace != nil {
		n = c.trace.n + 1
	}
	if e.In == nil && len(c.frames) > 0 {
		e.In = c.top().fn
	}
	e.Depth = len(c.frames)
	if e.Kind == EvRecv {
		c.recvs++
	}
	c.trace = &tnode{ev: e, prev: c.trace, n: n}
}

func (in *Interp) get(f *Frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if v.Type() != nil {
				return in.T.Zero(v.Type())
			}
			return in.T.Nil()
		}
		return in.T.Const(v.Value, v.Type())
	case *ssa.Global:
		return in.T.mk("global", v.String(), v.Type())
	case *ssa.Function:
		t := in.T.mk("func", fmt.Sprintf("%p", v), v.Type())
		t.Fn = v
		return t
	case *ssa.Builtin:
		return in.T.mk("builtin", v.Name(), v.Type())
	}
	if t, ok := f.env[v]; ok {
		return t
	}
	return in.T.Sym(fmt.Sprintf("undef:%p:%d", v, f.id), v.Type())
}

// ---- memory ---------------------------------------------------------------

func isAncestor(anc, t *Term) bool {
	for t.Op == "fieldaddr" || t.Op == "elemaddr" {
		t = t.Args[0]
		if t == anc {
			return true
		}
	}
	return false
}

func (in *Interp) Store(c *Config, addr, val *Term) {
	for k := range c.mem {
		if isAncestor(addr, k) {
			delete(c.mem, k)
		}
	}
	c.mem[addr] = val
}

// lookupAddr returns the stored value for addr looking through ancestors, or nil.
func (in *Interp) lookupAddr(c *Config, addr *Term) *Term {
	if v, ok := c.mem[addr]; ok {
		return v
	}
	switch addr.Op {
	case "fieldaddr":
		pv := in.lookupAddr(c, addr.Args[0])
		if pv == nil {
			return nil
		}
		var i int
		fmt.Sscanf(addr.Aux, "%d:", &i)
		if st := structOf(pv.Typ); st != nil && i < st.NumFields() {
			return in.T.Field(pv, pv.Typ, i)
		}
		if v, ok := addr.Obj.(*types.Var); ok {
			t := in.T.mk("field", addr.Aux, v.Type(), pv)
			t.Obj = v
			return t
		}
	case "elemaddr":
		base := addr.Args[0]
		if base.Op == "list" {
			if i, ok := addr.Args[1].Int(); ok && int(i) < len(base.Args) && i >= 0 {
				return base.Args[i]
			}
		}
		if base.Op == "alloc" || base.Op == "fieldaddr" || base.Op == "elemaddr" {
			pv := in.lookupAddr(c, base)
			if pv != nil {
				if pv.Op == "zero" {
					if a, ok := pv.Typ.Underlying().(*types.Array); ok {
						return in.T.Zero(a.Elem())
					}
				}
				if pv.Op == "list" {
					if i, ok := addr.Args[1].Int(); ok && int(i) < len(pv.Args) && i >= 0 {
						return pv.Args[i]
					}
				}
				return in.T.mk("elem", "", elemType(addr.Typ), pv, addr.Args[1])
			}
		}
	}
	return nil
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// deref records the use of a pointer that is not known to be non-nil.
func (in *Interp) deref(c *Config, p *Term, instr ssa.Instruction) {
	if !in.Derefs {
		return
	}
	if isNil, known := in.decide(c, in.T.Eq(p, in.T.Nil())); !known || isNil {
		c.emit(&Event{Kind: EvDeref, Addr: p, Taken: known, Instr: instr})
	}
}

func (in *Interp) Load(c *Config, addr *Term, typ types.Type) *Term {
	// are there stores into parts of addr?
	hasSub := false
	for k := range c.mem {
		if isAncestor(addr, k) {
			hasSub = true
			break
		}
	}
	if hasSub {
		if st := structOf(typ); st != nil {
			if _, isPtr := typ.Underlying().(*types.Pointer); !isPtr {
				args := make([]*Term, st.NumFields())
				for i := range args {
					fa := in.T.FieldAddr(addr, typ, i)
					args[i] = in.Load(c, fa, st.Field(i).Type())
				}
				return in.T.mk("struct", types.TypeString(typ, nil), typ, args...)
			}
		}
		if at, ok := typ.Underlying().(*types.Array); ok {
			return in.arrayList(c, addr, at)
		}
	}
	if v := in.lookupAddr(c, addr); v != nil {
		return v
	}
	if addr.Op == "elemaddr" {
		return in.T.mk("elem", "", typ, addr.Args[0], addr.Args[1])
	}
	if addr.Op == "fieldaddr" && addr.Obj != nil {
		b := addr.Args[0]
		for b.Op == "fieldaddr" {
			b = b.Args[0]
		}
		if b.Op == "elemaddr" {
			pt := elemType(addr.Args[0].Typ)
			if st := structOf(pt); st != nil {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i) == addr.Obj {
						return in.T.Field(in.Load(c, addr.Args[0], pt), pt, i)
					}
				}
			}
		}
	}
	return in.T.mkLoad(addr, typ)
}

func (in *Interp) arrayList(c *Config, addr *Term, at *types.Array) *Term {
	var el []*Term
	for i := int64(0); i < at.Len() && i < 64; i++ {
		ea := in.T.mk("elemaddr", "", types.NewPointer(at.Elem()), addr, in.T.Int(i))
		el = append(el, in.Load(c, ea, at.Elem()))
	}
	return in.T.mk("list", "", types.NewSlice(at.Elem()), el...)
}

// havoc forgets what is stored under addresses reachable from t.
func (in *Interp) havoc(c *Config, t *Term, site *Term) {
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		switch x.Op {
		case "alloc", "fieldaddr", "elemaddr":
			for k, v := range c.mem {
				if k == x || isAncestor(x, k) {
					delete(c.mem, k)
					_ = v
				}
			}
			c.mem[x] = in.T.mk("havoc", "", elemType(x.Typ), x, site)
		case "closure":
			for _, a := range x.Args {
				rec(a)
			}
		case "struct", "list":
			for _, a := range x.Args {
				rec(a)
			}
		}
	}
	rec(t)
}

// ---- facts ----------------------------------------------------------------

func (in *Interp) decide(c *Config, t *Term) (bool, bool) {
	if t.Op == "const" && t.C.Kind() == constant.Bool {
		return constant.BoolVal(t.C), true
	}
	if t.Op == "not" {
		v, ok := in.decide(c, t.Args[0])
		return !v, ok
	}
	if v, ok := c.facts[t]; ok {
		return v, true
	}
	if t.Op == "eq" {
		a, b := t.Args[0], t.Args[1]
		for k, v := range c.facts {
			if !v || k.Op != "eq" {
				continue
			}
			// x == c1 holds and we ask x == c2
			var x, c1 *Term
			if k.Args[0] == a || k.Args[1] == a {
				x, c1 = a, other(k, a)
				if c1.IsConst() && b.IsConst() || c1.IsNil() && in.T.NonNil(b) || b.IsNil() && in.T.NonNil(c1) {
					return false, true
				}
			}
			if k.Args[0] == b || k.Args[1] == b {
				x, c1 = b, other(k, b)
				if c1.IsConst() && a.IsConst() || c1.IsNil() && in.T.NonNil(a) || a.IsNil() && in.T.NonNil(c1) {
					return false, true
				}
			}
			_ = x
		}
		// nil value has length 0
		if a.Op == "len" || b.Op == "len" {
			l, o := a, b
			if b.Op == "len" {
				l, o = b, a
			}
			if z, ok := o.Int(); ok && z == 0 {
				if v, ok := in.decide(c, in.T.Eq(l.Args[0], in.T.Nil())); ok && v {
					return true, true
				}
			}
		}
	}
	if t.Op == "lt" {
		if v, ok := c.facts[in.T.Lt(t.Args[1], t.Args[0])]; ok && v {
			return false, true
		}
	}
	return false, false
}

func other(k, a *Term) *Term {
	if k.Args[0] == a {
		return k.Args[1]
	}
	return k.Args[0]
}

func (in *Interp) assume(c *Config, t *Term, v bool) {
	for t.Op == "not" {
		t, v = t.Args[0], !v
	}
	if t.Op != "const" {
		c.facts[t] = v
	}
}

// ---- stepping -------------------------------------------------------------

func (in *Interp) jump(c *Config, f *Frame, to *ssa.BasicBlock) bool {
	f.prev = f.block
	f.block = to
	f.idx = 0
	f.visits[to]++
	if f.visits[to] > in.MaxVisit {
		return false
	}
	// evaluate phis simultaneously
	var vals []*Term
	var phis []*ssa.Phi
	for _, i := range to.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		for k, pr := range to.Preds {
			if pr == f.prev {
				vals = append(vals, in.get(f, p.Edges[k]))
				phis = append(phis, p)
				break
			}
		}
	}
	for k, p := range phis {
		f.env[p] = vals[k]
	}
	f.idx = len(phis)
	return true
}

func (in *Interp) siteTerm(f *Frame, op, aux string, instr ssa.Instruction, typ types.Type, args ...*Term) *Term {
	g := f.gens[instr]
	t := in.T.mk(op, fmt.Sprintf("%s@%d/%p/%d", aux, f.id, instr, g), typ, args...)
	t.Instr = instr
	return t
}

// step executes one instruction; it returns forked configurations and, if the
// path ended, how.
func (in *Interp) step(c *Config) (forks []*Config, exit string, ret []*Term) {
	c.steps++
	if c.steps > 20000 {
		in.Undecided = append(in.Undecided, "step limit")
		return nil, "truncated", nil
	}
	if in.MaxRecv > 0 && c.recvs > in.MaxRecv {
		return nil, "bounded", nil
	}
	f := c.top()

	if f.synth != nil {
		return in.stepSynth(c, f)
	}
	if f.panicV != nil {
		return in.unwind(c, f)
	}
	if f.idx >= len(f.block.Instrs) {
		return nil, "truncated", nil
	}
	instr := f.block.Instrs[f.idx]
	f.idx++

	switch i := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi: // entry block or already evaluated
	case *ssa.Alloc:
		f.gens[i]++
		t := in.siteTerm(f, "alloc", "", i, i.Type())
		f.env[i] = t
		in.Store(c, t, in.T.Zero(elemType(i.Type())))
	case *ssa.BinOp:
		if in.Traps && (i.Op == token.QUO || i.Op == token.REM) {
			if b, ok := i.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				y := in.get(f, i.Y)
				if z, known := in.decide(c, in.T.Eq(y, in.T.Int(0))); !(y.IsConst() && constant.Sign(y.C) != 0) && (!known || z) {
					in.trap(c, i, "a division by %s", y)
				}
			}
		}
		f.env[i] = in.binop(i, in.get(f, i.X), in.get(f, i.Y))
	case *ssa.UnOp:
		x := in.get(f, i.X)
		switch i.Op {
		case token.MUL:
			in.deref(c, x, i)
			f.env[i] = in.Load(c, x, i.Type())
			if in.Loads && (x.Op == "fieldaddr" || x.Op == "elemaddr") {
				c.emit(&Event{Kind: EvLoad, Addr: x, Val: f.env[i], Instr: i})
			}
		case token.NOT:
			f.env[i] = in.T.Not(x)
		case token.ARROW:
			f.gens[i]++
			et := x.Typ
			_ = et
			v := in.siteTerm(f, "recv", "", i, i.Type(), x)
			if i.CommaOk {
				ok := in.T.mk("recvok", "", types.Typ[types.Bool], v)
				val := in.T.mk("recvval", "", nil, v)
				if tup, isT := i.Type().(*types.Tuple); isT {
					val = in.T.mk("recvval", "", tup.At(0).Type(), v)
				}
				f.env[i] = in.T.mk("tuple", "", i.Type(), val, ok)
				c.emit(&Event{Kind: EvRecv, Addr: x, Val: val, Res: ok, Instr: i})
			} else {
				v = in.T.mk("recvval", "", i.Type(), v)
				f.env[i] = v
				c.emit(&Event{Kind: EvRecv, Addr: x, Val: v, Instr: i})
			}
		default:
			if i.Op == token.SUB && x.IsConst() {
				f.env[i] = in.T.Const(constant.UnaryOp(token.SUB, x.C, 0), i.Type())
			} else {
				f.env[i] = in.T.mk("unop", i.Op.String(), i.Type(), x)
			}
		}
	case *ssa.ChangeType:
		f.env[i] = in.get(f, i.X)
	case *ssa.ChangeInterface:
		f.env[i] = in.get(f, i.X)
	case *ssa.MakeInterface:
		x := in.get(f, i.X)
		f.env[i] = x
	case *ssa.Convert:
		f.env[i] = in.convert(in.get(f, i.X), i.X.Type(), i.Type())
	case *ssa.MultiConvert:
		f.env[i] = in.convert(in.get(f, i.X), i.X.Type(), i.Type())
	case *ssa.SliceToArrayPointer:
		f.env[i] = in.T.mk("convert", i.Type().String(), i.Type(), in.get(f, i.X))
	case *ssa.FieldAddr:
		in.deref(c, in.get(f, i.X), i)
		f.env[i] = in.T.FieldAddr(in.get(f, i.X), i.X.Type(), i.Field)
	case *ssa.Field:
		f.env[i] = in.T.Field(in.get(f, i.X), i.X.Type(), i.Field)
	case *ssa.IndexAddr:
		in.trapIndex(c, i, in.get(f, i.X), i.X.Type(), in.get(f, i.Index))
		f.env[i] = in.T.mk("elemaddr", "", i.Type(), in.get(f, i.X), in.get(f, i.Index))
	case *ssa.Index:
		x, ix := in.get(f, i.X), in.get(f, i.Index)
		in.trapIndex(c, i, x, i.X.Type(), ix)
		f.env[i] = in.index(x, ix, i.Type())
	case *ssa.Lookup:
		in.lookup(c, f, i)
	case *ssa.Slice:
		in.trapSlice(c, f, i)
		in.slice(c, f, i)
	case *ssa.MakeMap:
		f.gens[i]++
		t := in.siteTerm(f, "makemap", "", i, i.Type())
		f.env[i] = t
	case *ssa.MakeChan:
		f.gens[i]++
		f.env[i] = in.siteTerm(f, "makechan", "", i, i.Type(), in.get(f, i.Size))
	case *ssa.MakeSlice:
		f.gens[i]++
		l := in.get(f, i.Len)
		if n, ok := l.Int(); ok && n == 0 {
			f.env[i] = in.T.mk("list", "", i.Type())
		} else {
			f.env[i] = in.siteTerm(f, "makeslice", "", i, i.Type(), l)
		}
	case *ssa.MakeClosure:
		fn := i.Fn.(*ssa.Function)
		var b []*Term
		for _, v := range i.Bindings {
			b = append(b, in.get(f, v))
		}
		t := in.T.mk("closure", fmt.Sprintf("%p", fn), i.Type(), b...)
		t.Fn = fn
		f.env[i] = t
	case *ssa.TypeAssert:
		x := in.get(f, i.X)
		v := in.T.mk("typeassert", types.TypeString(i.AssertedType, nil), i.AssertedType, x)
		if i.CommaOk {
			ok := in.T.mk("typeok", types.TypeString(i.AssertedType, nil), types.Typ[types.Bool], x)
			if it, isI := i.AssertedType.Underlying().(*types.Interface); isI && it.NumMethods() == 0 {
				ok = in.T.Not(in.T.Eq(x, in.T.Nil())) // anything but nil
			}
			f.env[i] = in.T.mk("tuple", "", i.Type(), v, ok)
		} else {
			in.trap(c, i, "%s asserted to be a %s", x, types.TypeString(i.AssertedType, nil))
			f.env[i] = v
		}
	case *ssa.Extract:
		x := in.get(f, i.Tuple)
		if x.Op == "tuple" && i.Index < len(x.Args) {
			f.env[i] = x.Args[i.Index]
		} else {
			f.env[i] = in.T.mk("extract", fmt.Sprint(i.Index), i.Type(), x)
		}
	case *ssa.Range:
		f.gens[i]++
		f.env[i] = in.siteTerm(f, "range", "", i, i.Type(), in.get(f, i.X))
	case *ssa.Next:
		f.gens[i]++
		r := in.get(f, i.Iter)
		n := in.siteTerm(f, "next", "", i, i.Type(), r)
		tup := i.Type().(*types.Tuple)
		if in.Loads && len(r.Args) > 0 {
			c.emit(&Event{Kind: EvRange, Addr: r.Args[0], Instr: i})
		}
		okT := in.T.mk("nextok", "", types.Typ[types.Bool], n)
		if r.Op == "range" && len(r.Args) > 0 && r.Args[0].IsNil() {
			okT = in.T.Bool(false)
		}
		f.env[i] = in.T.mk("tuple", "", i.Type(),
			okT,
			in.T.mk("nextkey", "", tup.At(1).Type(), n),
			in.T.mk("nextval", "", tup.At(2).Type(), n))
	case *ssa.Store:
		a, v := in.get(f, i.Addr), in.get(f, i.Val)
		in.deref(c, a, i)
		in.Store(c, a, v)
		c.emit(&Event{Kind: EvStore, Addr: a, Val: v, Instr: i})
	case *ssa.MapUpdate:
		m, k, v := in.get(f, i.Map), in.get(f, i.Key), in.get(f, i.Value)
		if isNil, known := in.decide(c, in.T.Eq(m, in.T.Nil())); in.Traps && (!known || isNil) {
			in.trap(c, i, "a write in a map that may be nil: %s", m)
		}
		in.mapSet(c, m, k, v)
		c.emit(&Event{Kind: EvMapUpd, Addr: m, Args: []*Term{k}, Val: v, Instr: i})
	case *ssa.Send:
		c.emit(&Event{Kind: EvSend, Addr: in.get(f, i.Chan), Val: in.get(f, i.X), Instr: i})
	case *ssa.Select:
		return in.sel(c, f, i)
	case *ssa.Call:
		return in.call(c, f, i, &i.Call, i)
	case *ssa.Go:
		fn, args, obj, inv := in.callee(c, f, &i.Call)
		c.emit(&Event{Kind: EvGo, Callee: fn, Args: args, Obj: obj, Invoke: inv, Instr: i, Snap: c.clone()})
	case *ssa.Defer:
		fn, args, obj, inv := in.callee(c, f, &i.Call)
		f.defers = append(f.defers, deferred{common: &i.Call, callee: fn, args: args, instr: i, fn: f.fn})
		c.emit(&Event{Kind: EvDefer, Callee: fn, Args: args, Obj: obj, Invoke: inv, Instr: i})
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			f.idx-- // come back here
			return in.runDeferred(c, f, d)
		}
	case *ssa.If:
		cond := in.get(f, i.Cond)
		if v, ok := in.decide(c, cond); ok {
			c.emit(&Event{Kind: EvBranch, Cond: cond, Taken: v, Instr: i})
			to := f.block.Succs[1]
			if v {
				to = f.block.Succs[0]
			}
			if !in.jump(c, f, to) {
				return nil, "truncated", nil
			}
			return nil, "", nil
		}
		f.forks[i]++
		if f.forks[i] > in.MaxForks {
			return nil, "truncated", nil
		}
		d := c.clone()
		in.assume(c, cond, true)
		in.assume(d, cond, false)
		c.emit(&Event{Kind: EvBranch, Cond: cond, Taken: true, Instr: i})
		d.emit(&Event{Kind: EvBranch, Cond: cond, Taken: false, Instr: i})
		df := d.top()
		if in.jump(d, df, f.block.Succs[1]) {
			forks = append(forks, d)
		}
		if !in.jump(c, f, f.block.Succs[0]) {
			return forks, "truncated", nil
		}
		return forks, "", nil
	case *ssa.Jump:
		if !in.jump(c, f, f.block.Succs[0]) {
			return nil, "truncated", nil
		}
	case *ssa.Return:
		var rs []*Term
		for _, r := range i.Results {
			rs = append(rs, in.get(f, r))
		}
		return in.doReturn(c, f, rs)
	case *ssa.Panic:
		v := in.get(f, i.X)
		c.emit(&Event{Kind: EvPanic, Val: v, Instr: i})
		f.panicV = in.T.mk("panicval", "", nil, v)
	default:
		in.Undecided = append(in.Undecided, fmt.Sprintf("unsupported instruction %T in %s", instr, f.fn))
		return nil, "truncated", nil
	}
	return nil, "", nil
}

func (in *Interp) doReturn(c *Config, f *Frame, rs []*Term) ([]*Config, string, []*Term) {
	if len(c.frames) == 1 {
		return nil, "return", rs
	}
	var res *Term
	switch len(rs) {
	case 0:
		res = in.T.Nil()
	case 1:
		res = rs[0]
	default:
		res = in.T.mk("tuple", "", f.fn.Signature.Results(), rs...)
	}
	c.frames = c.frames[:len(c.frames)-1]
	g := c.top()
	c.emit(&Event{Kind: EvLeave, SSAFn: f.fn, Obj: fnObj(f.fn), Res: res, CallID: f.callID, In: g.fn, Deferred: f.isDefer, Args: rs})
	if f.call != nil {
		g.env[f.call] = res
	}
	return nil, "", nil
}

func fnObj(fn *ssa.Function) *types.Func {
	if o, ok := fn.Object().(*types.Func); ok {
		return o.Origin()
	}
	return nil
}

func (in *Interp) unwind(c *Config, f *Frame) ([]*Config, string, []*Term) {
	if n := len(f.defers); n > 0 {
		d := f.defers[n-1]
		f.defers = f.defers[:n-1]
		return in.runDeferred(c, f, d)
	}
	if f.recov {
		f.panicV, f.recov = nil, false
		if f.fn.Recover != nil {
			f.block, f.idx = f.fn.Recover, 0
			return nil, "", nil
		}
		var rs []*Term
		res := f.fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			rs = append(rs, in.T.Zero(res.At(i).Type()))
		}
		return in.doReturn(c, f, rs)
	}
	if len(c.frames) == 1 {
		return nil, "panic", []*Term{f.panicV}
	}
	pv := f.panicV
	c.frames = c.frames[:len(c.frames)-1]
	g := c.top()
	for g.synth != nil {
		if len(c.frames) == 1 {
			return nil, "panic", []*Term{pv}
		}
		c.frames = c.frames[:len(c.frames)-1]
		g = c.top()
	}
	g.panicV = pv
	return nil, "", nil
}

func (in *Interp) runDeferred(c *Config, f *Frame, d deferred) ([]*Config, string, []*Term) {
	return in.apply(c, f, d.instr, d.callee, d.args, d.common, nil, true)
}

// callee evaluates the called function value and its arguments (receiver first).
func (in *Interp) callee(c *Config, f *Frame, cc *ssa.CallCommon) (fn *Term, args []*Term, obj *types.Func, invoke bool) {
	if cc.IsInvoke() {
		recv := in.get(f, cc.Value)
		args = append(args, recv)
		for _, a := range cc.Args {
			args = append(args, in.get(f, a))
		}
		// devirtualise when the dynamic type is known
		if recv.Typ != nil && !types.IsInterface(recv.Typ) && recv.Op != "nil" {
			if m := in.W.Prog.LookupMethod(recv.Typ, cc.Method.Pkg(), cc.Method.Name()); m != nil {
				t := in.T.mk("func", fmt.Sprintf("%p", m), m.Type())
				t.Fn = m
				return t, args, fnObj(m), false
			}
		}
		return nil, args, cc.Method, true
	}
	fn = in.get(f, cc.Value)
	for _, a := range cc.Args {
		args = append(args, in.get(f, a))
	}
	if fn.Fn != nil {
		obj = fnObj(fn.Fn)
	}
	return fn, args, obj, false
}

func (in *Interp) call(c *Config, f *Frame, instr ssa.Instruction, cc *ssa.CallCommon, res ssa.Value) ([]*Config, string, []*Term) {
	f.gens[instr]++
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return in.builtin(c, f, instr, b, cc, res)
	}
	fn, args, _, _ := in.callee(c, f, cc)
	return in.apply(c, f, instr, fn, args, cc, res, false)
}

func (in *Interp) apply(c *Config, f *Frame, instr ssa.Instruction, fn *Term, args []*Term, cc *ssa.CallCommon, res ssa.Value, isDefer bool) ([]*Config, string, []*Term) {
	in.callSites[instr] = true
	var obj *types.Func
	invoke := false
	if fn == nil {
		obj = cc.Method
		invoke = true
	} else if fn.Op == "builtin" {
		return in.builtinTerms(c, f, instr, fn.Aux, args, res, cc, isDefer)
	} else if fn.Fn != nil {
		obj = fnObj(fn.Fn)
	}
	if fn != nil && fn.Fn != nil && in.canInline(c, fn.Fn) {
		in.callSeq++
		g := in.newFrame(fn.Fn, args, fn.Args, in.fid(f.id, instr, f.gens[instr], fn.Fn))
		g.call = res
		g.isDefer = isDefer
		g.callID = in.callSeq
		c.emit(&Event{Kind: EvEnter, SSAFn: fn.Fn, Obj: obj, Callee: fn, Args: args, Instr: instr, CallID: g.callID, Deferred: isDefer})
		c.frames = append(c.frames, g)
		return nil, "", nil
	}
	// unknown function
	if in.Traps && obj != nil {
		in.trapCall(c, instr, obj.FullName(), args)
	}
	var rt types.Type
	if sig := cc.Signature(); sig != nil {
		switch sig.Results().Len() {
		case 0:
		case 1:
			rt = sig.Results().At(0).Type()
		default:
			rt = sig.Results()
		}
	}
	var r *Term
	name := "?"
	if obj != nil {
		name = obj.FullName()
	}
	if folded := in.fold(name, rt, args); folded != nil {
		r = folded
	} else if text := in.buffer(c, name, args); text != nil {
		// text gathered in a buffer
		ev := &Event{Kind: EvCall, Obj: obj, Callee: fn, Args: args, Res: text, Instr: instr, Deferred: isDefer}
		c.emit(ev)
		if res != nil {
			if tup, ok := res.Type().(*types.Tuple); ok && tup.Len() == 2 {
				n := in.T.mk("len", "", tup.At(0).Type(), args[len(args)-1])
				f.env[res] = in.T.mk("tuple", "", tup, n, in.T.Nil())
			} else if isErrorType(res.Type()) {
				f.env[res] = in.T.Nil()
			} else {
				f.env[res] = text
			}
		}
		return nil, "", nil
	} else if in.isPure(name) {
		r = in.T.mk("call", name, rt, args...)
		r.Instr = instr
	} else {
		targs := args
		if fn != nil && fn.Op != "func" {
			targs = append([]*Term{fn}, args...)
		}
		r = in.siteTerm(f, "call", name, instr, rt, targs...)
	}
	if obj != nil && r.Op == "call" && r.Obj == nil {
		r.Obj = obj
	}
	ev := &Event{Kind: EvCall, Obj: obj, Callee: fn, Invoke: invoke, Args: args, Res: r, Instr: instr, Deferred: isDefer}
	c.emit(ev)
	if in.OnCall != nil {
		in.OnCall(c, ev)
	}
	if res != nil {
		f.env[res] = r
	}
	var forks []*Config
	if in.PanicOn != nil && in.PanicOn(ev) {
		d := c.clone()
		d.emit(&Event{Kind: EvPanic, Val: r, Instr: instr})
		d.top().panicV = in.T.mk("panicval", "", nil, r)
		forks = append(forks, d)
	}
	// closures passed to it
	var fns []*Term
	for _, a := range args {
		if a != nil && a.Fn != nil && (a.Op == "closure" || a.Op == "func") && len(a.Fn.Blocks) > 0 && in.Inline(a.Fn) {
			fns = append(fns, a)
		}
	}
	if in.Callbacks && len(fns) > 0 {
		ev.Snap = c.clone()
	}
	if !in.isPure(name) && (in.NoHavoc == nil || !in.NoHavoc(ev)) {
		for _, a := range args {
			// what a modelled callback captures is only changed by running it
			if a != nil && a.Op == "closure" && in.Invoke != nil && len(fns) > 0 && in.Inline(a.Fn) {
				continue
			}
			in.havoc(c, a, r)
		}
	}
	if len(fns) > 0 && in.Invoke != nil {
		counts := in.Invoke(ev, fns)
		for k, n := range counts {
			d := c
			if k < len(counts)-1 {
				d = c.clone()
				forks = append(forks, d)
			}
			if n == 0 {
				continue
			}
			g := &Frame{fn: f.fn, id: in.fid(f.id, instr, f.gens[instr], nil), env: map[ssa.Value]*Term{}, forks: map[ssa.Instruction]int{}, visits: map[*ssa.BasicBlock]int{}, gens: map[ssa.Instruction]int{}}
			for j := 0; j < n; j++ {
				for _, fnT := range fns {
					var as []*Term
					sig := fnT.Fn.Signature
					for p := 0; p < sig.Params().Len(); p++ {
						as = append(as, in.T.mk("cbarg", fmt.Sprintf("%d.%d", j, p), sig.Params().At(p).Type(), r))
					}
					g.synth = append(g.synth, &synthCall{fnT, as})
				}
			}
			d.frames = append(d.frames, g)
		}
	}
	return forks, "", nil
}

// buffer models text gathered in a strings.Builder or bytes.Buffer.
func (in *Interp) buffer(c *Config, name string, args []*Term) *Term {
	recv, m, ok := strings.Cut(strings.TrimPrefix(name, "("), ").")
	if strings.HasPrefix(name, "fmt.Fprint") && len(args) > 1 && args[0].Typ != nil {
		recv, m, ok = args[0].Typ.String(), name[len("fmt.F"):], true
	}
	if !ok || recv != "*strings.Builder" && recv != "*bytes.Buffer" || len(args) == 0 {
		return nil
	}
	b := args[0]
	cur := in.T.Str("")
	if v, ok := c.mem[b]; ok {
		switch v.Op {
		case "text":
			cur = v.Args[0]
		case "zero":
		default:
			return nil
		}
	} else if b.Op != "alloc" {
		return nil
	}
	add := func(x *Term) *Term {
		if s, ok := cur.StrVal(); !ok || s != "" {
			x = in.T.mk("binop", "+", types.Typ[types.String], cur, x)
		}
		c.mem[b] = in.T.mk("text", "", nil, x)
		return x
	}
	switch m {
	case "WriteString", "WriteByte", "WriteRune", "Write":
		return add(args[1])
	case "print", "println", "printf", "rint", "rintln", "rintf":
		return add(in.T.mk("call", "fmt.Sp"+strings.TrimPrefix(m, "p"), types.Typ[types.String], args[1:]...))
	case "String":
		return cur
	}
	return nil
}

// fold evaluates a few pure library calls on known values.
func (in *Interp) fold(name string, rt types.Type, args []*Term) *Term {
	switch name {
	case "(context.Context).Value":
		c, k := args[0], args[1]
		moved := false
		for c.Op == "call" && c.Aux == "context.WithValue" && len(c.Args) == 3 && k.IsConst() && c.Args[1].IsConst() {
			if c.Args[1] == k {
				return c.Args[2]
			}
			c = c.Args[0]
			moved = true
		}
		if moved && c.Op == "call" && c.Obj != nil && (c.Aux == "context.Background" || c.Aux == "context.TODO") {
			return in.T.Nil()
		}
		if moved {
			t := in.T.mk("call", name, rt, c, k)
			if t.Obj == nil {
				if m, _, _ := types.LookupFieldOrMethod(c.Typ, true, nil, "Value"); m != nil {
					t.Obj = m
				}
			}
			return t
		}
	case "strings.ReplaceAll", "strings.TrimPrefix", "strings.TrimSuffix", "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.ToLower", "strings.ToUpper", "strings.Split", "strings.Join", "strings.Title", "strings.TrimSpace":
		var ss []string
		for _, a := range args {
			if v, ok := a.StrVal(); ok {
				ss = append(ss, v)
				continue
			}
			if a.Op == "list" && name == "strings.Join" {
				var el []string
				for _, x := range a.Args {
					v, ok := x.StrVal()
					if !ok {
						return nil
					}
					el = append(el, v)
				}
				ss = append(ss, strings.Join(el, "\x00"))
				if len(el) == 0 {
					return in.T.Str("")
				}
				continue
			}
			return nil
		}
		switch name {
		case "strings.ReplaceAll":
			return in.T.Str(strings.ReplaceAll(ss[0], ss[1], ss[2]))
		case "strings.TrimPrefix":
			return in.T.Str(strings.TrimPrefix(ss[0], ss[1]))
		case "strings.TrimSuffix":
			return in.T.Str(strings.TrimSuffix(ss[0], ss[1]))
		case "strings.HasPrefix":
			return in.T.Bool(strings.HasPrefix(ss[0], ss[1]))
		case "strings.HasSuffix":
			return in.T.Bool(strings.HasSuffix(ss[0], ss[1]))
		case "strings.Contains":
			return in.T.Bool(strings.Contains(ss[0], ss[1]))
		case "strings.ToLower":
			return in.T.Str(strings.ToLower(ss[0]))
		case "strings.ToUpper":
			return in.T.Str(strings.ToUpper(ss[0]))
		case "strings.TrimSpace":
			return in.T.Str(strings.TrimSpace(ss[0]))
		case "strings.Split":
			var el []*Term
			for _, x := range strings.Split(ss[0], ss[1]) {
				el = append(el, in.T.Str(x))
			}
			return in.T.mk("list", "", rt, el...)
		case "strings.Join":
			return in.T.Str(strings.ReplaceAll(ss[0], "\x00", ss[1]))
		}
	}
	return nil
}

func (in *Interp) stepSynth(c *Config, f *Frame) ([]*Config, string, []*Term) {
	if f.spos >= len(f.synth) {
		c.frames = c.frames[:len(c.frames)-1]
		return nil, "", nil
	}
	s := f.synth[f.spos]
	f.spos++
	in.callSeq++
	g := in.newFrame(s.fn.Fn, s.args, s.fn.Args, in.fid(f.id, nil, f.spos, s.fn.Fn))
	g.callID = in.callSeq
	c.emit(&Event{Kind: EvEnter, SSAFn: s.fn.Fn, Obj: fnObj(s.fn.Fn), Callee: s.fn, Args: s.args, CallID: g.callID})
	c.frames = append(c.frames, g)
	return nil, "", nil
}

var pureNames = map[string]bool{
	"fmt.Sprintf": true, "context.WithValue": true, "errors.Is": true, "strings.Split": true, "strings.Join": true,
	"strings.ReplaceAll": true, "strings.HasPrefix": true, "strings.TrimPrefix": true, "strings.TrimSuffix": true,
	"context.Background": true, "fmt.Sprint": true, "strconv.Itoa": true, "strings.ToLower": true, "strings.Contains": true,
	"(context.Context).Value": true, "(context.Context).Done": true, "(context.Context).Err": true,
	"strings.Cut": true, "strings.Fields": true, "strings.SplitN": true, "strings.HasSuffix": true, "strings.TrimSpace": true, "strings.Trim": true, "strings.TrimLeft": true, "strings.Title": true, "strings.ToUpper": true,
}

func (in *Interp) isPure(name string) bool { return pureNames[name] || in.Opaque[name] }

func (in *Interp) canInline(c *Config, fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 || !in.Inline(fn) || len(c.frames) >= in.MaxDepth {
		return false
	}
	if o := fnObj(fn); o != nil && in.Opaque[o.FullName()] {
		return false
	}
	n := 0
	for _, f := range c.frames {
		if f.fn == fn {
			n++
		}
	}
	if n >= in.MaxRec {
		return false
	}
	return true
}

func (in *Interp) builtin(c *Config, f *Frame, instr ssa.Instruction, b *ssa.Builtin, cc *ssa.CallCommon, res ssa.Value) ([]*Config, string, []*Term) {
	var args []*Term
	for _, a := range cc.Args {
		args = append(args, in.get(f, a))
	}
	return in.builtinTerms(c, f, instr, b.Name(), args, res, cc, false)
}

func (in *Interp) builtinTerms(c *Config, f *Frame, instr ssa.Instruction, name string, args []*Term, res ssa.Value, cc *ssa.CallCommon, isDefer bool) ([]*Config, string, []*Term) {
	set := func(t *Term) {
		if res != nil {
			f.env[res] = t
		}
	}
	var typ types.Type
	if res != nil {
		typ = res.Type()
	}
	switch name {
	case "len":
		set(in.T.Len(args[0]))
		if in.Loads && args[0].Typ != nil {
			if _, ok := args[0].Typ.Underlying().(*types.Map); ok {
				c.emit(&Event{Kind: EvRange, Addr: args[0], Instr: instr})
			}
		}
	case "cap":
		set(in.T.mk("cap", "", typ, args[0]))
	case "append":
		a := args[0]
		b := in.T.Nil()
		if len(args) > 1 {
			b = args[1]
		}
		switch {
		case (a.Op == "list" || a.IsNil()) && (b.Op == "list" || b.IsNil()):
			set(in.T.mk("list", "", typ, append(append([]*Term(nil), a.Args...), b.Args...)...))
		default:
			set(in.T.mk("append", "", typ, a, b))
		}
		c.emit(&Event{Kind: EvCall, Args: args, Res: in.T.mk("append", "", typ, a, b), Instr: instr, Callee: in.T.mk("builtin", "append", nil)})
	case "delete":
		in.mapSet(c, args[0], args[1], nil)
		c.emit(&Event{Kind: EvMapDel, Addr: args[0], Args: []*Term{args[1]}, Instr: instr, Deferred: isDefer})
	case "close":
		c.emit(&Event{Kind: EvClose, Addr: args[0], Instr: instr, Deferred: isDefer})
	case "recover":
		// f is the deferred function; the frame below may be panicking
		r := in.T.Nil()
		if f.isDefer && len(c.frames) >= 2 {
			p := c.frames[len(c.frames)-2]
			if p.panicV != nil && !p.recov {
				p.recov = true
				r = p.panicV
				in.assume(c, in.T.Eq(r, in.T.Nil()), false)
			}
		}
		set(r)
		c.emit(&Event{Kind: EvCall, Callee: in.T.mk("builtin", "recover", nil), Res: r, Instr: instr})
	case "copy":
		c.emit(&Event{Kind: EvCall, Callee: in.T.mk("builtin", "copy", nil), Args: args, Instr: instr})
		in.havoc(c, args[0], in.T.mk("copied", "", nil, args[1]))
		set(in.siteTerm(f, "copyn", "", instr, typ))
	case "print", "println":
	case "min", "max":
		set(in.T.mk(name, "", typ, args...))
	default:
		set(in.siteTerm(f, "builtin:"+name, "", instr, typ, args...))
	}
	return nil, "", nil
}

// ---- values ---------------------------------------------------------------

func (in *Interp) binop(i *ssa.BinOp, x, y *Term) *Term {
	switch i.Op {
	case token.EQL:
		return in.T.Eq(x, y)
	case token.NEQ:
		return in.T.Not(in.T.Eq(x, y))
	case token.LSS:
		return in.T.Lt(x, y)
	case token.GTR:
		return in.T.Lt(y, x)
	case token.LEQ:
		return in.T.Not(in.T.Lt(y, x))
	case token.GEQ:
		return in.T.Not(in.T.Lt(x, y))
	}
	if x.IsConst() && y.IsConst() {
		switch i.Op {
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR:
			if x.C.Kind() == y.C.Kind() && (i.Op == token.ADD || x.C.Kind() != constant.String) {
				return in.T.Const(constant.BinaryOp(x.C, i.Op, y.C), i.Type())
			}
		}
	}
	if i.Op == token.ADD {
		if s, ok := x.StrVal(); ok && s == "" {
			return y
		}
		if s, ok := y.StrVal(); ok && s == "" {
			return x
		}
	}
	return in.T.mk("binop", i.Op.String(), i.Type(), x, y)
}

func (in *Interp) convert(x *Term, from, to types.Type) *Term {
	if x.IsConst() {
		switch x.C.Kind() {
		case constant.Int, constant.Float:
			if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
				return in.T.Const(x.C, to)
			}
		case constant.String:
			if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return x
			}
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	return in.T.mk("convert", types.TypeString(to.Underlying(), nil), to, x)
}

func (in *Interp) index(x, ix *Term, typ types.Type) *Term {
	if x.Op == "list" {
		if n, ok := ix.Int(); ok && n >= 0 && int(n) < len(x.Args) {
			return x.Args[n]
		}
	}
	return in.T.mk("elem", "", typ, x, ix)
}

func (in *Interp) mapSet(c *Config, m, k, v *Term) {
	cell := in.T.mk("mapcell", "", nil, m, k)
	// an update under another, possibly equal key makes older knowledge unusable
	for a := range c.mem {
		if a.Op == "mapcell" && a.Args[0] == m && a != cell {
			if !(a.Args[1].IsConst() && k.IsConst()) {
				delete(c.mem, a)
			}
		}
	}
	if v == nil {
		v = in.T.mk("absent", "", nil)
	}
	c.mem[cell] = v
}

func (in *Interp) lookup(c *Config, f *Frame, i *ssa.Lookup) {
	m, k := in.get(f, i.X), in.get(f, i.Index)
	var vt types.Type = i.Type()
	if tup, ok := vt.(*types.Tuple); ok {
		vt = tup.At(0).Type()
	}
	var v, ok *Term
	if cell, has := c.mem[in.T.mk("mapcell", "", nil, m, k)]; has {
		if cell.Op == "absent" {
			v, ok = in.T.Zero(vt), in.T.Bool(false)
		} else {
			v, ok = cell, in.T.Bool(true)
		}
	} else if k.Op == "nextkey" && k.Args[0].Op == "next" && k.Args[0].Args[0].Op == "range" && k.Args[0].Args[0].Args[0] == m {
		// the entry an iteration is at
		v, ok = in.T.mk("nextval", "", vt, k.Args[0]), in.T.Bool(true)
	} else {
		v = in.T.mk("lookup", "", vt, m, k)
		ok = in.T.mk("has", "", types.Typ[types.Bool], m, k)
	}
	c.emit(&Event{Kind: EvLookup, Addr: m, Args: []*Term{k}, Val: v, Res: ok, Instr: i})
	if i.CommaOk {
		f.env[i] = in.T.mk("tuple", "", i.Type(), v, ok)
	} else {
		f.env[i] = v
	}
}

func (in *Interp) slice(c *Config, f *Frame, i *ssa.Slice) {
	x := in.get(f, i.X)
	var lo, hi *Term
	if i.Low != nil {
		lo = in.get(f, i.Low)
	}
	if i.High != nil {
		hi = in.get(f, i.High)
	}
	if p, ok := i.X.Type().Underlying().(*types.Pointer); ok {
		if at, ok := p.Elem().Underlying().(*types.Array); ok && at.Len() <= 64 {
			x = in.arrayList(c, x, at)
		}
	}
	if x.IsNil() {
		f.env[i] = x
		return
	}
	if x.Op == "list" {
		l, h := int64(0), int64(len(x.Args))
		good := true
		if lo != nil {
			if v, ok := lo.Int(); ok {
				l = v
			} else {
				good = false
			}
		}
		if hi != nil {
			if v, ok := hi.Int(); ok {
				h = v
			} else {
				good = false
			}
		}
		if good && l >= 0 && l <= h && h <= int64(len(x.Args)) {
			f.env[i] = in.T.mk("list", "", i.Type(), x.Args[l:h]...)
			return
		}
	}
	if s, ok := x.StrVal(); ok {
		l, h := int64(0), int64(len(s))
		good := true
		if lo != nil {
			l, good = lo.Int()
		}
		if hi != nil && good {
			h, good = hi.Int()
		}
		if good && l >= 0 && l <= h && h <= int64(len(s)) {
			f.env[i] = in.T.Str(s[l:h])
			return
		}
	}
	if _, isPtr := x.Typ.Underlying().(*types.Pointer); hi == nil && i.Max == nil && !isPtr {
		if n, ok := int64(0), true; lo != nil {
			if n, ok = lo.Int(); ok && n == 0 {
				lo = nil
			}
		}
		if lo == nil {
			f.env[i] = x
			return
		}
	}
	f.env[i] = in.T.mk("slice", "", i.Type(), x, lo, hi)
}

func (in *Interp) sel(c *Config, f *Frame, i *ssa.Select) ([]*Config, string, []*Term) {
	f.gens[i]++
	f.forks[i]++
	if f.forks[i] > in.MaxForks {
		return nil, "truncated", nil
	}
	mode := 1
	if !i.Blocking {
		mode = 2
	}
	n := len(i.States)
	total := n
	if !i.Blocking {
		total++
	}
	tup := i.Type().(*types.Tuple)
	var forks []*Config
	for k := 0; k < total; k++ {
		d := c
		if k < total-1 {
			d = c.clone()
			forks = append(forks, d)
		}
		df := d.top()
		idx := k
		if k == n {
			idx = -1
		}
		// tuple: index, recvOk, recv values...
		el := make([]*Term, tup.Len())
		el[0] = in.T.Int(int64(idx))
		el[1] = in.T.Bool(false)
		for j := 2; j < len(el); j++ {
			el[j] = in.T.Zero(tup.At(j).Type())
		}
		if k < n {
			st := i.States[k]
			ch := in.get(df, st.Chan)
			if st.Dir == types.RecvOnly {
				r := in.siteTerm(df, "recv", fmt.Sprint(k), i, nil, ch)
				ok := in.T.mk("recvok", "", types.Typ[types.Bool], r)
				// position among receive states
				pos := 2
				for j := 0; j < k; j++ {
					if i.States[j].Dir == types.RecvOnly {
						pos++
					}
				}
				var vt types.Type
				if pos < tup.Len() {
					vt = tup.At(pos).Type()
				}
				v := in.T.mk("recvval", "", vt, r)
				el[1] = ok
				if pos < len(el) {
					el[pos] = v
				}
				d.emit(&Event{Kind: EvRecv, Addr: ch, Val: v, Res: ok, Instr: i, Select: mode})
			} else {
				d.emit(&Event{Kind: EvSend, Addr: ch, Val: in.get(df, st.Send), Instr: i, Select: mode})
			}
		} else {
			d.emit(&Event{Kind: EvDeflt, Instr: i, Select: mode})
		}
		df.env[i] = in.T.mk("tuple", "", i.Type(), el...)
	}
	return forks, "", nil
}

// ---- helpers over traces ---------------------------------------------------

// Fact reports what the path knows about a boolean term.
func (t *Trace) Fact(x *Term) (bool, bool) {
	c := &Config{facts: t.Facts}
	return t.in.decide(c, x)
}

func (t *Trace) IsNilTerm(x *Term) (bool, bool) {
	return t.Fact(t.in.T.Eq(x, t.in.T.Nil()))
}

func (in *Interp) Describe(t *Trace) string {
	var b strings.Builder
	for _, e := range t.Events {
		fmt.Fprintf(&b, "%s%s", strings.Repeat("  ", e.Depth-1), e.Kind)
		switch e.Kind {
		case EvCall, EvEnter, EvGo, EvDefer:
			n := e.Name()
			if n == "" && e.Callee != nil {
				n = e.Callee.String()
			}
			fmt.Fprintf(&b, " %s", n)
			for _, a := range e.Args {
				fmt.Fprintf(&b, " [%s]", a)
			}
		case EvLeave:
			fmt.Fprintf(&b, " %s -> %s", e.SSAFn, e.Res)
		case EvBranch:
			fmt.Fprintf(&b, " %s = %v", e.Cond, e.Taken)
		case EvStore, EvSend, EvRecv:
			fmt.Fprintf(&b, " %s := %s", e.Addr, e.Val)
		case EvMapUpd, EvLookup, EvMapDel:
			fmt.Fprintf(&b, " %s[%s] %s", e.Addr, e.Args[0], e.Val)
		default:
			fmt.Fprintf(&b, " %s", e.Addr)
		}
		b.WriteString("\n")
	}
	fmt.Fprintf(&b, "exit %s %v\n", t.Exit, t.Ret)
	return b.String()
}
