package main

import (
	"fmt"
	"sort"
	"strings"
)

// Product exploration of the synchronisation skeletons extracted from the
// source: every process is the tree of its paths (as found by the interpreter)
// reduced to channel operations, lock operations, process creation and the
// events a rule marks. All interleavings are enumerated.

type pNode struct {
	id    int
	edges []*pEdge
	end   string // "", return, panic, truncated
	tr    *Trace
}
type pEdge struct {
	key string
	ev  *Event
	to  *pNode
}

type chState struct {
	cap, n int
	closed bool
	vals   []*Term
}

type lockState struct {
	writer  int // process+1
	readers int
}

type procState struct {
	node  *pNode
	facts map[*Term]bool
	name  string
}

type pState struct {
	procs []procState
	chans map[*Term]chState
	locks map[*Term]lockState
	wgs   map[*Term]int
	marks map[string]int
	hist  *phist
}
type phist struct {
	prev *phist
	s    string
}

func (s *pState) clone() *pState {
	d := &pState{procs: append([]procState(nil), s.procs...), chans: map[*Term]chState{}, locks: map[*Term]lockState{}, wgs: map[*Term]int{}, marks: map[string]int{}, hist: s.hist}
	for k, v := range s.chans {
		d.chans[k] = v
	}
	for k, v := range s.locks {
		d.locks[k] = v
	}
	for k, v := range s.wgs {
		d.wgs[k] = v
	}
	for k, v := range s.marks {
		d.marks[k] = v
	}
	return d
}

func (s *pState) key() string {
	var b strings.Builder
	for _, p := range s.procs {
		fmt.Fprintf(&b, "%d", p.node.id)
		var fs []string
		for t, v := range p.facts {
			fs = append(fs, fmt.Sprintf("%d%v", t.ID, v))
		}
		sort.Strings(fs)
		b.WriteString(strings.Join(fs, ",") + ";")
	}
	var ps []string
	for t, c := range s.chans {
		ps = append(ps, fmt.Sprintf("c%d:%d%v", t.ID, c.n, c.closed))
	}
	for t, l := range s.locks {
		ps = append(ps, fmt.Sprintf("l%d:%d/%d", t.ID, l.writer, l.readers))
	}
	for t, n := range s.wgs {
		ps = append(ps, fmt.Sprintf("w%d:%d", t.ID, n))
	}
	for m, n := range s.marks {
		ps = append(ps, fmt.Sprintf("m%s:%d", m, n))
	}
	sort.Strings(ps)
	b.WriteString(strings.Join(ps, ";"))
	return b.String()
}

func (s *pState) history() string {
	var xs []string
	for h := s.hist; h != nil; h = h.prev {
		xs = append(xs, h.s)
	}
	for i, j := 0, len(xs)-1; i < j; i, j = i+1, j-1 {
		xs[i], xs[j] = xs[j], xs[i]
	}
	return strings.Join(xs, " ; ")
}

type Product struct {
	in       *Interp
	EnvDone  bool                             // context cancellation may happen at any time
	Mark     func(e *Event) string            // observed events
	OnMark   func(s *pState, m string) string // non-empty: violation
	OnEnd    func(s *pState, proc int, end string) string
	Final    func(s *pState) string // all processes ended
	Blocked  func(s *pState) string // deadlock; default reports it
	Caps     map[*Term]int
	Problems map[string]string // kind -> history
	States   int
	nodes    int
	tries    map[string]*pNode
}

func (in *Interp) NewProduct() *Product {
	return &Product{in: in, Caps: map[*Term]int{}, Problems: map[string]string{}, tries: map[string]*pNode{}}
}

var lockOps = map[string]string{
	"(*sync.Mutex).Lock": "lock", "(*sync.Mutex).Unlock": "unlock",
	"(*sync.RWMutex).Lock": "lock", "(*sync.RWMutex).Unlock": "unlock",
	"(*sync.RWMutex).RLock": "rlock", "(*sync.RWMutex).RUnlock": "runlock",
	"(sync.Locker).Lock": "lock", "(sync.Locker).Unlock": "unlock",
	"(*sync.WaitGroup).Add": "wgadd", "(*sync.WaitGroup).Done": "wgdone", "(*sync.WaitGroup).Wait": "wgwait",
}

func (p *Product) Trie(traces []*Trace) *pNode {
	p.nodes++
	root := &pNode{id: p.nodes}
	for _, t := range traces {
		n := root
		for _, e := range t.Events {
			keep := false
			switch e.Kind {
			case EvSend, EvRecv, EvClose, EvBranch, EvGo, EvDeflt:
				keep = true
			case EvCall:
				if lockOps[e.Name()] != "" {
					keep = true
				}
			}
			if !keep && p.Mark != nil && p.Mark(e) != "" {
				keep = true
			}
			if !keep {
				continue
			}
			if e.Kind == EvBranch && e.Cond.IsConst() {
				continue
			}
			id := func(t *Term) int {
				if t == nil {
					return 0
				}
				return t.ID
			}
			key := fmt.Sprintf("%s/%p/%d/%d/%d/%v/%d", e.Kind, e.Instr, e.Depth, id(e.Addr), id(e.Val), e.Taken, e.Select)
			var to *pNode
			for _, x := range n.edges {
				if x.key == key {
					to = x.to
				}
			}
			if to == nil {
				p.nodes++
				to = &pNode{id: p.nodes}
				n.edges = append(n.edges, &pEdge{key, e, to})
			}
			n = to
		}
		n.end = t.Exit
		n.tr = t
	}
	return root
}

func isDoneChan(t *Term) bool {
	return t.Op == "call" && t.Obj != nil && strings.HasSuffix(t.Aux, "Context).Done")
}

func (p *Product) problem(kind string, s *pState) {
	if _, ok := p.Problems[kind]; !ok {
		p.Problems[kind] = s.history()
	}
}

func (p *Product) ch(s *pState, t *Term) (chState, bool) {
	if c, ok := s.chans[t]; ok {
		return c, true
	}
	if n, ok := p.Caps[t]; ok {
		return chState{cap: n}, true
	}
	if t.Op == "makechan" {
		if n, ok := t.Args[0].Int(); ok {
			return chState{cap: int(n)}, true
		}
	}
	return chState{}, false
}

// Explore enumerates all interleavings of the given processes.
func (p *Product) Explore(names []string, roots []*pNode) {
	s0 := &pState{chans: map[*Term]chState{}, locks: map[*Term]lockState{}, wgs: map[*Term]int{}, marks: map[string]int{}}
	for i, r := range roots {
		s0.procs = append(s0.procs, procState{node: r, name: names[i]})
	}
	seen := map[string]bool{}
	work := []*pState{s0}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		k := s.key()
		if seen[k] {
			continue
		}
		seen[k] = true
		p.States++
		if len(seen) > 400000 {
			p.problem("undecided: too many interleavings", s)
			return
		}
		next, beyond := p.succ(s)
		if len(next) == 0 && !beyond {
			all := true
			var stuck []string
			for _, q := range s.procs {
				if q.node.end == "" {
					all = false
					stuck = append(stuck, q.name)
				}
			}
			if all {
				if p.Final != nil {
					if m := p.Final(s); m != "" {
						p.problem(m, s)
					}
				}
			} else if p.Blocked != nil {
				if m := p.Blocked(s); m != "" {
					p.problem(m, s)
				}
			} else {
				p.problem("deadlock: "+strings.Join(stuck, ", ")+" blocked forever", s)
			}
		}
		work = append(work, next...)
	}
}

func (p *Product) step(s *pState, pi int, e *pEdge, what string) *pState {
	d := s.clone()
	d.procs[pi].node = e.to
	d.hist = &phist{s.hist, fmt.Sprintf("%s: %s (%s)", s.procs[pi].name, what, p.in.W.PosStr(e.ev.Pos()))}
	if p.Mark != nil {
		if m := p.Mark(e.ev); m != "" {
			d.marks[m]++
			if p.OnMark != nil {
				if v := p.OnMark(d, m); v != "" {
					p.problem(v, d)
				}
			}
		}
	}
	if e.to.end != "" {
		if e.to.end == "panic" {
			p.problem("panic in "+s.procs[pi].name, d)
		}
		if p.OnEnd != nil {
			if v := p.OnEnd(d, pi, e.to.end); v != "" {
				p.problem(v, d)
			}
		}
	}
	return d
}

func setFact(d *pState, pi int, t *Term, v bool) {
	m := map[*Term]bool{}
	for k, x := range d.procs[pi].facts {
		m[k] = x
	}
	m[t] = v
	d.procs[pi].facts = m
}

func (p *Product) succ(s *pState) (out []*pState, beyond bool) {
	for pi := range s.procs {
		pr := s.procs[pi]
		if pr.node.end == "truncated" {
			beyond = true
		}
		enabled := false
		var deflt *pEdge
		for _, e := range pr.node.edges {
			if e.ev.Kind == EvDeflt {
				deflt = e
				continue
			}
			ns := p.edge(s, pi, e)
			// a rendezvous with a blocked sender also makes a receive ready
			if e.ev.Select == 2 && e.ev.Kind == EvRecv && len(ns) == 0 {
				for qi, q := range s.procs {
					for _, x := range q.node.edges {
						if qi != pi && x.ev.Kind == EvSend && x.ev.Addr == e.ev.Addr && x.ev.Select != 2 {
							enabled = true
						}
					}
				}
			}
			if len(ns) > 0 {
				enabled = true
			}
			out = append(out, ns...)
		}
		if deflt != nil && !enabled {
			out = append(out, p.edge(s, pi, deflt)...)
		}
	}
	return out, beyond
}

func (p *Product) edge(s *pState, pi int, e *pEdge) (out []*pState) {
	ev := e.ev
	switch ev.Kind {
	case EvBranch:
		c, want := ev.Cond, ev.Taken
		if c.Op == "not" {
			c, want = c.Args[0], !want
		}
		if v, ok := s.procs[pi].facts[c]; ok && v != want {
			return nil
		}
		return []*pState{p.step(s, pi, e, fmt.Sprintf("%v=%v", ev.Cond, ev.Taken))}
	case EvGo:
		d := p.step(s, pi, e, "go")
		if ev.Callee != nil && ev.Callee.Fn != nil && len(ev.Callee.Fn.Blocks) > 0 {
			d.procs = append(d.procs, procState{node: p.goRoot(ev), name: "goroutine of " + ev.In.Name()})
		}
		return []*pState{d}
	case EvClose:
		ch, ok := p.ch(s, ev.Addr)
		if !ok {
			p.problem("undecided: close of unknown channel "+ev.Addr.String(), s)
			return nil
		}
		d := p.step(s, pi, e, "close "+ev.Addr.String())
		if ch.closed {
			p.problem("close of a closed channel", d)
			return nil
		}
		// a sender already blocked on this channel would panic
		for qi, q := range s.procs {
			if qi == pi {
				continue
			}
			for _, x := range q.node.edges {
				if x.ev.Kind == EvSend && x.ev.Addr == ev.Addr && x.ev.Select != 2 {
					p.problem("send on a channel that may be closed", d)
				}
			}
		}
		ch.closed = true
		d.chans[ev.Addr] = ch
		return []*pState{d}
	case EvSend:
		ch, ok := p.ch(s, ev.Addr)
		if !ok {
			p.problem("undecided: send on unknown channel "+ev.Addr.String(), s)
			return nil
		}
		if ch.closed {
			d := p.step(s, pi, e, "send "+ev.Addr.String())
			p.problem("send on a closed channel", d)
			return nil
		}
		if ch.n < ch.cap {
			d := p.step(s, pi, e, "send "+ev.Addr.String())
			ch.n++
			d.chans[ev.Addr] = ch
			out = append(out, d)
		}
		if ch.cap == 0 {
			for qi, q := range s.procs {
				if qi == pi {
					continue
				}
				for _, x := range q.node.edges {
					if x.ev.Kind == EvRecv && x.ev.Addr == ev.Addr {
						d := p.step(s, pi, e, "send "+ev.Addr.String())
						d = p.step(d, qi, x, "receive")
						if x.ev.Res != nil {
							setFact(d, qi, x.ev.Res, true)
						}
						out = append(out, d)
					}
				}
			}
		}
		return out
	case EvRecv:
		if isDoneChan(ev.Addr) {
			if p.EnvDone {
				s = s.clone()
				s.marks["ctxdone:"+s.procs[pi].name] = 1
				d := p.step(s, pi, e, "context done")
				return []*pState{d}
			}
			return nil
		}
		ch, ok := p.ch(s, ev.Addr)
		if !ok {
			p.problem("undecided: receive from unknown channel "+ev.Addr.String(), s)
			return nil
		}
		if ch.n > 0 {
			d := p.step(s, pi, e, "receive "+ev.Addr.String())
			ch.n--
			d.chans[ev.Addr] = ch
			if ev.Res != nil {
				setFact(d, pi, ev.Res, true)
			}
			return []*pState{d}
		}
		if ch.closed {
			d := p.step(s, pi, e, "receive from closed "+ev.Addr.String())
			if ev.Res != nil {
				setFact(d, pi, ev.Res, false)
			}
			return []*pState{d}
		}
		return nil // rendezvous is done by the sender
	case EvCall:
		op := lockOps[ev.Name()]
		if op == "" {
			return []*pState{p.step(s, pi, e, ev.Name())}
		}
		a := ev.Args[0]
		l := s.locks[a]
		switch op {
		case "lock":
			if l.writer != 0 || l.readers > 0 {
				return nil
			}
			l.writer = pi + 1
		case "rlock":
			if l.writer != 0 {
				return nil
			}
			l.readers++
		case "unlock":
			if l.writer == 0 {
				p.problem("unlock of an unlocked mutex", s)
				return nil
			}
			l.writer = 0
		case "runlock":
			if l.readers == 0 {
				p.problem("unlock of an unlocked mutex", s)
				return nil
			}
			l.readers--
		case "wgadd":
			d := p.step(s, pi, e, op)
			n, _ := ev.Args[1].Int()
			d.wgs[a] += int(n)
			return []*pState{d}
		case "wgdone":
			d := p.step(s, pi, e, op)
			d.wgs[a]--
			return []*pState{d}
		case "wgwait":
			if s.wgs[a] > 0 {
				return nil
			}
			return []*pState{p.step(s, pi, e, op)}
		}
		d := p.step(s, pi, e, op)
		d.locks[a] = l
		return []*pState{d}
	}
	return []*pState{p.step(s, pi, e, string(ev.Kind))}
}

func (p *Product) goRoot(ev *Event) *pNode {
	k := fmt.Sprintf("%p", ev)
	if n, ok := p.tries[k]; ok {
		return n
	}
	n := p.Trie(p.in.Run(ev.Callee.Fn, ev.Args, ev.Callee.Args, ev.Snap))
	p.tries[k] = n
	return n
}
