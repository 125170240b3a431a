package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const verPath = extPath + "/versioning"

func init() {
	register("C03", "path-sensitive lock analysis of every entry point, goroutine and clean-up callback of the version-routing package (calls into the runtime library inlined): locks balanced on every path, one global acquisition order (acyclic lock-order graph), no blocking channel operation under a lock except the broker subscription's own cancellation", ruleVersionLocks)
	register("C04", "all paths of publishing, subscribing, removing and of two successive rounds of the delivery loop are interpreted; the broker and stream operations on each path are compared with the routing contract (header tagging, lookup by version, at most one delivery, independence of rounds, registration tables)", ruleVersionRouting)
}

// rootsOf lists the functions of a package from which analysis starts:
// exported functions and methods.
func (w *World) rootsOf(pkg string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range w.Funcs(pkg) {
		if f.Parent() != nil || w.FnPkgPath(f) != pkg {
			continue
		}
		if o, ok := f.Object().(*types.Func); ok && o.Exported() {
			out = append(out, f)
		}
	}
	return out
}

// threads runs fn and, transitively, every goroutine it starts.
type thread struct {
	fn     *ssa.Function
	traces []*Trace
	spawn  string
	born   map[*Term]bool // what was there when it started
}

func (in *Interp) threads(fn *ssa.Function, args []*Term, init *Config) []thread {
	return in.threads2(fn, args, nil, init)
}

func (in *Interp) threads2(fn *ssa.Function, args, free []*Term, init *Config) []thread {
	var out []thread
	done := map[string]bool{}
	var rec func(fn *ssa.Function, args, free []*Term, init *Config, via string, depth int)
	var spawn func(e *Event, callee *Term, args []*Term, depth int)
	rec = func(fn *ssa.Function, args, free []*Term, init *Config, via string, depth int) {
		ts := in.Run(fn, args, free, init)
		for _, t := range ts {
			for _, a := range args {
				if a != nil && a.Op == "cbarg" {
					t.handed = append(t.handed, a)
				}
			}
		}
		born := map[*Term]bool{}
		if init != nil {
			for a := range init.mem {
				if o := root(a); o != nil {
					born[o] = true
				}
			}
		}
		for _, a := range append(append([]*Term{}, args...), free...) {
			born[root(a)] = true
		}
		out = append(out, thread{fn, ts, via, born})
		if depth > 4 {
			return
		}
		for _, t := range ts {
			for _, e := range t.Events {
				if e.Kind == EvGo && e.Callee != nil && e.Callee.Fn != nil && len(e.Callee.Fn.Blocks) > 0 {
					spawn(e, e.Callee, e.Args, depth)
				}
				if in.Callbacks && e.Kind == EvCall && e.Snap != nil {
					for _, a := range e.Args {
						if a == nil || a.Fn == nil || len(a.Fn.Blocks) == 0 {
							continue
						}
						var as []*Term
						for p := 0; p < a.Fn.Signature.Params().Len(); p++ {
							as = append(as, in.T.mk("cbarg", fmt.Sprintf("0.%d", p), a.Fn.Signature.Params().At(p).Type(), e.Res))
						}
						spawn(e, a, as, depth)
					}
				}
			}
		}
	}
	spawn = func(e *Event, callee *Term, args []*Term, depth int) {
		// one exploration per spawned code, arguments and known facts
		k := fmt.Sprintf("%p", callee.Fn)
		for _, a := range append(append([]*Term{}, args...), callee.Args...) {
			k += fmt.Sprintf("/%d", a.ID)
			if v, ok := e.Snap.mem[a]; ok {
				k += fmt.Sprintf("=%d", v.ID)
			}
		}
		if done[k] {
			return
		}
		done[k] = true
		// other goroutines may have changed shared tables in the meantime
		snap := e.Snap.clone()
		for a := range snap.mem {
			if a.Op == "mapcell" {
				delete(snap.mem, a)
			}
		}
		rec(callee.Fn, args, callee.Args, snap, in.W.PosStr(e.Pos()), depth+1)
	}
	rec(fn, args, free, init, "", 0)
	return out
}

func lockClass(t *Term) string {
	if (t.Op == "fieldaddr" || t.Op == "field") && t.Obj != nil {
		owner := "?"
		if b := t.Args[0]; b.Typ != nil {
			owner = strings.TrimPrefix(types.TypeString(b.Typ, func(p *types.Package) string { return p.Name() }), "*")
		}
		return owner + "." + t.Obj.Name()
	}
	if t.Op == "load" && t.Args[0].Op == "fieldaddr" {
		return lockClass(t.Args[0])
	}
	if t.Op == "alloc" && t.Typ != nil {
		return "a " + types.TypeString(t.Typ, func(p *types.Package) string { return p.Name() })
	}
	return t.String()
}

type lockReport struct {
	r     *Report
	edges map[string]map[string]string
	// allowBlocking decides whether blocking event e is acceptable under held locks
	allowBlocking func(t *Trace, i int) bool
	sites         map[ssa.Instruction]bool
}

func (lr *lockReport) check(th thread) {
	r := lr.r
	for _, t := range th.traces {
		type heldLock struct {
			t     *Term
			class string
			read  bool
			pos   string
		}
		var held []heldLock
		bad := false
		for i, e := range t.Events {
			if e.Kind == EvCall {
				if op := lockOps[e.Name()]; op == "lock" || op == "rlock" {
					lr.sites[e.Instr] = true
					c := lockClass(e.Args[0])
					for _, h := range held {
						if h.t == e.Args[0] {
							r.Fail("relock:"+c, e.Pos(), "%s is locked again while already held (locked at %s) on a path of %s: self-deadlock", c, h.pos, th.fn)
							bad = true
						}
						if lr.edges[h.class] == nil {
							lr.edges[h.class] = map[string]string{}
						}
						if h.t != e.Args[0] {
							lr.edges[h.class][c] = fmt.Sprintf("%s (held since %s) then %s at %s", h.class, h.pos, c, r.W.PosStr(e.Pos()))
						}
					}
					held = append(held, heldLock{e.Args[0], c, op == "rlock", r.W.PosStr(e.Pos())})
				} else if op == "unlock" || op == "runlock" {
					lr.sites[e.Instr] = true
					found := false
					for k := len(held) - 1; k >= 0; k-- {
						if held[k].t == e.Args[0] && held[k].read == (op == "runlock") {
							held = append(held[:k:k], held[k+1:]...)
							found = true
							break
						}
					}
					if !found && !bad {
						r.Fail("unlock:"+lockClass(e.Args[0]), e.Pos(), "%s is released although it is not held on this path of %s", lockClass(e.Args[0]), th.fn)
					}
				} else if op == "wgwait" && len(held) > 0 && !lr.allowBlocking(t, i) {
					r.Fail("block:"+held[0].class+":wait", e.Pos(), "waits on a WaitGroup while holding %s", held[0].class)
				}
				continue
			}
			if len(held) > 0 && (e.Kind == EvSend || e.Kind == EvRecv) && e.Select != 2 && !lr.allowBlocking(t, i) {
				r.Fail("block:"+held[0].class, e.Pos(), "a %s on %s can block while %s is held (locked at %s) on a path of %s", e.Kind, e.Addr, held[0].class, held[0].pos, th.fn)
			}
		}
		if (t.Exit == "return" || t.Exit == "panic") && len(held) > 0 {
			for _, h := range held {
				r.Fail("leak:"+h.class, th.fn.Pos(), "%s (locked at %s) is still held when a path of %s ends (%s)", h.class, h.pos, th.fn, t.Exit)
			}
		}
	}
}

func (lr *lockReport) order() {
	// cycle detection on lock classes
	var classes []string
	for a := range lr.edges {
		classes = append(classes, a)
	}
	sort.Strings(classes)
	for _, a := range classes {
		seen := map[string]bool{}
		var path []string
		var dfs func(x string) bool
		dfs = func(x string) bool {
			for _, y := range sortedKeys(lr.edges[x]) {
				path = append(path, lr.edges[x][y])
				if y == a {
					return true
				}
				if !seen[y] {
					seen[y] = true
					if dfs(y) {
						return true
					}
				}
				path = path[:len(path)-1]
			}
			return false
		}
		if dfs(a) {
			lr.r.FailAt("order:"+a, "-", "locks are taken in opposite orders: %s", strings.Join(path, "; "))
			return
		}
	}
}

// within reports whether event i of t happens inside an inlined call for which
// pred holds.
func within(t *Trace, i int, pred func(*Event) bool) bool {
	open := map[int]bool{}
	for k := 0; k <= i; k++ {
		e := t.Events[k]
		switch e.Kind {
		case EvEnter:
			if pred(e) {
				open[e.CallID] = true
			}
		case EvLeave:
			delete(open, e.CallID)
		}
	}
	return len(open) > 0
}

// brokerSub says whether a subscription term is the one obtained from the
// broker (rather than one created by the wrapper for a version).
func brokerSub(t *Term) bool {
	if t.Op == "extract" && len(t.Args) > 0 && t.Args[0].Op == "call" && t.Args[0].Obj != nil && t.Args[0].Obj.Name() == "Subscribe" {
		return true
	}
	f := t
	if f.Op == "load" {
		f = f.Args[0]
	}
	if (f.Op == "fieldaddr" || f.Op == "field") && f.Args[0].Typ != nil {
		n := types.TypeString(f.Args[0].Typ, func(p *types.Package) string { return p.Name() })
		return strings.HasSuffix(n, "versioning.brokerSubscription")
	}
	return false
}

func ruleVersionLocks(r *Report) {
	in := r.Interp()
	lr := &lockReport{r: r, edges: map[string]map[string]string{}, sites: map[ssa.Instruction]bool{}}
	cancel := r.fn(extPath, "BrokerChannelSubscription.Cancel")
	if cancel == nil {
		return
	}
	lr.allowBlocking = func(t *Trace, i int) bool {
		e := t.Events[i]
		// the broker's goroutine needs none of the wrapper's locks, so waiting for
		// the broker subscription's cancellation is not waiting for a lock holder
		if within(t, i, func(x *Event) bool { return x.SSAFn == cancel.F && brokerSub(x.Args[0]) }) {
			return true
		}
		// the transmission lock of the subscription itself is meant to be held by
		// a transmitter; that protocol is decided by interleaving enumeration (C10)
		return e.In != nil && r.W.FnPkgPath(e.In) == extPath && !heldOutside(t, i, extPath, r.W)
	}
	n := 0
	for _, f := range r.W.rootsOf(verPath) {
		for _, th := range in.threads(f, in.ParamTerms(f), nil) {
			n++
			lr.check(th)
		}
	}
	// the unexported functions on their own, whatever they are called with
	for _, f := range r.W.Funcs(verPath) {
		if f.Parent() == nil && f.Object() != nil && !f.Object().Exported() && len(f.Blocks) > 0 {
			for _, th := range in.threads(f, in.ParamTerms(f), nil) {
				n++
				lr.check(th)
			}
		}
	}
	lr.order()
	r.Count("threads analysed", n)
	r.Count("lock sites", len(lr.sites))
	for a, m := range lr.edges {
		for b := range m {
			r.Count("lock order edges", 1)
			r.Sample("%s before %s", a, b)
		}
	}
	r.Floor("lock sites", 6)
	r.Floor("threads analysed", 10)
	r.Floor("lock order edges", 1)
}

// heldOutside: some lock held at event i was taken by code outside pkg.
func heldOutside(t *Trace, i int, pkg string, w *World) bool {
	held := map[*Term]string{}
	for k := 0; k < i; k++ {
		e := t.Events[k]
		if e.Kind != EvCall {
			continue
		}
		switch lockOps[e.Name()] {
		case "lock", "rlock":
			held[e.Args[0]] = w.FnPkgPath(e.In)
		case "unlock", "runlock":
			delete(held, e.Args[0])
		}
	}
	for _, p := range held {
		if p != pkg {
			return true
		}
	}
	return false
}
