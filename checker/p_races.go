package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C10", "lock-set analysis over every path of every method of the runtime library, its goroutines, handlers and clean-ups: for each field (and the content of each map field) of a shared structure that is written after construction, the locks held at all its accesses must have one in common (exclusively for writes); accesses to an object before it is reachable by others are exempt; a channel that is closed is only closed and sent to under a common lock", ruleSharedState)
}

type access struct {
	v     string // variable: Type.field or Type.field[]
	write bool
	locks map[string]bool // class -> exclusive
	e     *Event
	fn    *ssa.Function
	obj   *Term
}

// ownerOf names the field an address designates, if it is a field of a
// structure of the runtime library.
func ownerOf(a *Term) (name string, base *Term, f *types.Var) {
	for a != nil && (a.Op == "fieldaddr" || a.Op == "field") {
		f, _ = a.Obj.(*types.Var)
		b := a.Args[0]
		bt := b.Typ
		if bt != nil {
			if p, ok := bt.Underlying().(*types.Pointer); ok {
				bt = p.Elem()
			}
			if n, ok := bt.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), extPath) && f != nil {
				return n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + f.Name(), b, f
			}
		}
		a = b
	}
	return "", nil, nil
}

// fieldsHolding finds the fields known to hold a map or channel made here.
func fieldsHolding(ths []thread) map[*Term]*Term {
	out := map[*Term]*Term{}
	var note func(in *Interp, addr, v *Term, depth int)
	note = func(in *Interp, addr, v *Term, depth int) {
		if v == nil || depth > 4 {
			return
		}
		switch v.Op {
		case "makemap", "makechan", "alloc":
			if v.Op == "alloc" && !isSyncObject(v.Typ) {
				return
			}
			if out[v] == nil && addr.Op == "fieldaddr" {
				out[v] = addr
			}
		case "struct":
			st := structOf(v.Typ)
			for i := 0; st != nil && i < st.NumFields(); i++ {
				note(in, in.T.FieldAddr(addr, v.Typ, i), v.Args[i], depth+1)
			}
		}
	}
	for _, th := range ths {
		for _, t := range th.traces {
			for k, v := range t.Mem {
				if k.Op == "alloc" || k.Op == "fieldaddr" {
					note(t.in, k, v, 0)
				}
			}
			// structures handed by value
			for _, e := range t.Events {
				for _, a := range append([]*Term{e.Val, e.Res}, e.Args...) {
					if a != nil && a.Op == "struct" && e.Instr != nil {
						note(t.in, t.in.T.mk("alloc", "by value", a.Typ, a), a, 0)
					}
				}
				if e.Callee != nil {
					for _, a := range e.Callee.Args {
						if a.Op == "struct" {
							note(t.in, t.in.T.mk("alloc", "by value", a.Typ, a), a, 0)
						}
					}
				}
			}
		}
	}
	return out
}

func mentions(x, y *Term) bool {
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if x == nil || seen[x] {
			return false
		}
		if x == y {
			return true
		}
		seen[x] = true
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(x)
}

// publishedAt gives the index of the first event after which others may reach
// an object made on this path.
func publishedAt(t *Trace, obj *Term) int {
	for i, e := range t.Events {
		switch e.Kind {
		case EvStore, EvMapUpd:
			r := root(e.Addr)
			if r == obj || !mentions(e.Val, obj) {
				continue
			}
			if r != nil && (r.Op == "alloc" || r.Op == "makemap") && r.Fn == nil {
				// reachable from another object of this path: from its own publication on
				if k := publishedAt2(t, r, obj, i); k < len(t.Events) {
					return k
				}
				continue
			}
			return i
		case EvSend:
			if mentions(e.Val, obj) {
				return i
			}
		case EvGo:
			if mentions(e.Callee, obj) {
				return i
			}
			for _, a := range e.Args {
				if mentions(a, obj) {
					return i
				}
			}
		case EvCall:
			if lockOps[e.Name()] != "" {
				continue
			}
			for _, a := range e.Args {
				if a != nil && (a == obj || a.Op == "closure" && mentions(a, obj)) {
					return i
				}
			}
		}
	}
	return len(t.Events)
}

func publishedAt2(t *Trace, r, not *Term, from int) int {
	if r.Op == "makemap" {
		return from
	}
	for i, e := range t.Events {
		switch e.Kind {
		case EvStore, EvMapUpd:
			if q := root(e.Addr); q != r && q != not && mentions(e.Val, r) {
				return max(i, from)
			}
		case EvGo:
			if mentions(e.Callee, r) {
				return max(i, from)
			}
			for _, a := range e.Args {
				if mentions(a, r) {
					return max(i, from)
				}
			}
		case EvCall:
			for _, a := range e.Args {
				if a != nil && lockOps[e.Name()] == "" && (a == r || a.Op == "closure" && mentions(a, r)) {
					return max(i, from)
				}
			}
		}
	}
	return len(t.Events)
}

// ownedByReceiver: structures handed over with each message, never shared.
var ownedTypes = map[string]bool{"extensions.AcknowledgeableBrokerMessage": true, "extensions.BrokerMessage": true}

func ruleSharedState(r *Report) {
	w := r.W
	var accs []access
	type chanUse struct {
		locks map[string]bool
		e     *Event
		fn    *ssa.Function
		close bool
	}
	uses := map[string][]chanUse{}
	seen := map[string]bool{}
	var pkgs []string
	for path := range w.SSA {
		if path == extPath || path == verPath || strings.HasPrefix(path, extPath+"/brokers") {
			pkgs = append(pkgs, path)
		}
	}
	sort.Strings(pkgs)
	for _, path := range pkgs {
		for _, f := range w.rootsOf(path) {
			if f.Signature.Recv() == nil {
				continue // constructors and options: nothing is shared yet
			}
			in := r.Interp()
			in.Loads, in.Callbacks = true, true
			in.Invoke = func(ev *Event, fns []*Term) []int { return []int{0} }
			in.NoHavoc = func(ev *Event) bool { return isLib(ev) }
			ths := in.threads(f, in.ParamTerms(f), nil)
			holder := fieldsHolding(ths)
			r.Count("threads analysed", len(ths))
			for _, th := range ths {
				for _, t := range th.traces {
					pub := map[*Term]int{}
					held := map[string]bool{}
					add := func(i int, e *Event, a *Term, write, content bool) {
						name, base, fv := ownerOf(a)
						if name == "" || ownedTypes[name[:strings.LastIndex(name, ".")]] {
							return
						}
						if s := fv.Type().String(); strings.HasPrefix(s, "sync.") || strings.HasPrefix(s, "*sync.") || strings.HasPrefix(s, "sync/atomic.") {
							return
						}
						if content {
							name += "[]"
						}
						// made on this path, and nobody else's yet
						if o := root(base); o != nil && o.Op == "alloc" && !th.born[o] {
							if _, ok := pub[o]; !ok {
								pub[o] = publishedAt(t, o)
							}
							if i <= pub[o] {
								return
							}
						}
						k := fmt.Sprint(name, write, held, e.Instr.Pos(), th.fn)
						if seen[k] {
							return
						}
						seen[k] = true
						ls := map[string]bool{}
						for c, x := range held {
							ls[c] = x
						}
						accs = append(accs, access{name, write, ls, e, th.fn, base})
					}
					content := func(m *Term) *Term {
						if m == nil {
							return nil
						}
						if h := holder[m]; h != nil {
							return h
						}
						if m.Op == "load" {
							return m.Args[0]
						}
						return m
					}
					for i, e := range t.Events {
						switch e.Kind {
						case EvCall:
							if lockOps[e.Name()] == "" {
								continue
							}
							l := e.Args[0]
							if h := holder[l]; h != nil {
								l = h
							}
							switch lockOps[e.Name()] {
							case "lock":
								held[lockClass(l)] = true
							case "rlock":
								held[lockClass(l)] = false
							case "unlock", "runlock":
								delete(held, lockClass(l))
							}
						case EvLoad:
							add(i, e, e.Addr, false, false)
						case EvStore:
							add(i, e, e.Addr, true, false)
						case EvLookup, EvRange:
							add(i, e, content(e.Addr), false, true)
						case EvMapUpd, EvMapDel:
							add(i, e, content(e.Addr), true, true)
						case EvSend, EvClose:
							name, _, _ := ownerOf(content(e.Addr))
							if name == "" {
								continue
							}
							k := fmt.Sprint("chan", name, e.Kind, held, e.Instr.Pos())
							if seen[k] {
								continue
							}
							seen[k] = true
							ls := map[string]bool{}
							for c, x := range held {
								ls[c] = x
							}
							uses[name] = append(uses[name], chanUse{ls, e, th.fn, e.Kind == EvClose})
						}
					}
				}
			}
		}
	}
	r.Count("accesses of shared fields", len(accs))
	byVar := map[string][]access{}
	for _, a := range accs {
		byVar[a.v] = append(byVar[a.v], a)
	}
	for v, as := range byVar {
		written := false
		for _, a := range as {
			written = written || a.write
		}
		if !written {
			continue
		}
		r.Count("fields written while shared", 1)
		count := map[string]int{}
		for _, a := range as {
			for c, excl := range a.locks {
				if excl || !a.write {
					count[c]++
				}
			}
		}
		best := ""
		for c, n := range count {
			if n > count[best] || n == count[best] && (best == "" || c < best) {
				best = c
			}
		}
		if count[best] == len(as) {
			r.Count("fields protected", 1)
			continue
		}
		for _, a := range as {
			if excl, ok := a.locks[best]; best == "" || !ok || a.write && !excl {
				what := "read"
				if a.write {
					what = "written"
				}
				if best == "" {
					r.Fail("unprotected:"+v, a.e.Pos(), "%s is %s without any lock, although goroutines share it and it changes after construction", v, what)
				} else {
					r.Fail("unprotected:"+v, a.e.Pos(), "%s is %s without %s, which protects it elsewhere", v, what, best)
				}
			}
		}
	}
	for ch, us := range uses {
		var closes, sends int
		for _, u := range us {
			if u.close {
				closes++
			} else {
				sends++
			}
		}
		if closes == 0 || sends == 0 {
			continue
		}
		r.Count("channels both closed and sent to", 1)
		for _, c := range us {
			for _, s := range us {
				if !c.close || s.close {
					continue
				}
				common := false
				for l, excl := range c.locks {
					if _, ok := s.locks[l]; ok && excl {
						common = true
					}
				}
				if !common {
					r.Fail("closed:"+ch, s.e.Pos(), "%s is sent to here, holding %s, while it may be closed by %s, holding %s", ch, lockNames(s.locks), w.PosStr(c.e.Pos()), lockNames(c.locks))
				}
			}
		}
	}
	r.Floor("threads analysed", 20)
	r.Floor("accesses of shared fields", 40)
	r.Floor("fields protected", 4)
	r.Floor("channels both closed and sent to", 1)
}

func lockNames(m map[string]bool) string {
	var out []string
	for c, x := range m {
		if x {
			out = append(out, c)
		} else {
			out = append(out, c+" (shared)")
		}
	}
	if len(out) == 0 {
		return "no lock"
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

func isSyncObject(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync"
}
