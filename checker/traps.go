package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// trap records an operation that may crash on what the path knows.
func (in *Interp) trap(c *Config, instr ssa.Instruction, format string, a ...any) {
	if in.Traps {
		c.emit(&Event{Kind: EvTrap, Val: in.T.Str(fmt.Sprintf(format, a...)), Instr: instr})
	}
}

// atLeast: the path knows that x has n elements or more.
func (in *Interp) atLeast(c *Config, x *Term, n int64) bool {
	if n <= 0 {
		return true
	}
	l := in.T.Len(x)
	if k, ok := l.Int(); ok {
		return k >= n
	}
	for f, v := range c.facts {
		if len(f.Args) != 2 {
			continue
		}
		a, b := f.Args[0], f.Args[1]
		switch f.Op {
		case "eq":
			if b == l {
				a, b = b, a
			}
			if k, ok := b.Int(); ok && a == l && (v && k >= n || !v && k == 0 && n == 1) {
				return true
			}
		case "lt":
			if k, ok := b.Int(); ok && a == l && !v && k >= n {
				return true
			}
			if k, ok := a.Int(); ok && b == l && v && k >= n-1 {
				return true
			}
		}
	}
	return false
}

func (in *Interp) trapIndex(c *Config, instr ssa.Instruction, x *Term, xt types.Type, ix *Term) {
	if !in.Traps {
		return
	}
	if p, ok := xt.Underlying().(*types.Pointer); ok {
		xt = p.Elem()
	}
	k, isC := ix.Int()
	if at, ok := xt.Underlying().(*types.Array); ok {
		if isC && k >= 0 && k < at.Len() {
			return
		}
		if v, known := in.decide(c, in.T.Lt(ix, in.T.Int(at.Len()))); known && v && in.notNegative(c, ix) {
			return
		}
	} else if isC {
		if k >= 0 && in.atLeast(c, x, k+1) {
			return
		}
	} else if v, known := in.decide(c, in.T.Lt(ix, in.T.Len(x))); known && v && in.notNegative(c, ix) {
		return
	}
	in.trap(c, instr, "element %s of %s", ix, x)
}

// notNegative: the index cannot be negative, as it is a length, counts up, or was compared.
func (in *Interp) notNegative(c *Config, ix *Term) bool {
	if ix.Op == "const" {
		return constant.Sign(ix.C) >= 0
	}
	if v, known := in.decide(c, in.T.Lt(ix, in.T.Int(0))); known && !v {
		return true
	}
	return !ix.Any(func(t *Term) bool {
		return t.Op == "binop" && t.Aux != "+" || t.Op == "unop" || t.Op == "call" || t.Op == "sym"
	})
}

// bound gives a slice bound as len(x)-d or d.
func (in *Interp) bound(t, x *Term) (fromEnd bool, d int64, ok bool) {
	if k, isC := t.Int(); isC {
		return false, k, true
	}
	l := in.T.Len(x)
	if t == l {
		return true, 0, true
	}
	if t.Op == "binop" && t.Aux == "-" && t.Args[0] == l {
		if k, isC := t.Args[1].Int(); isC {
			return true, k, true
		}
	}
	return false, 0, false
}

func (in *Interp) trapSlice(c *Config, f *Frame, i *ssa.Slice) {
	if !in.Traps {
		return
	}
	x := in.get(f, i.X)
	if p, ok := i.X.Type().Underlying().(*types.Pointer); ok {
		// all of an array
		at, isArr := p.Elem().Underlying().(*types.Array)
		good := isArr
		for _, b := range []ssa.Value{i.Low, i.High, i.Max} {
			if b != nil {
				k, isC := in.get(f, b).Int()
				good = good && isC && k >= 0 && k <= at.Len()
			}
		}
		if !good {
			in.trap(c, i, "a slice of %s", x)
		}
		return
	}
	good := true
	need := int64(0)
	lo := int64(0)
	if i.Low != nil {
		end, d, ok := in.bound(in.get(f, i.Low), x)
		good = good && ok && d >= 0
		if end && i.High != nil {
			good = false
		}
		need = max(need, d)
		if !end {
			lo = d
		}
	}
	if i.High != nil {
		end, d, ok := in.bound(in.get(f, i.High), x)
		good = good && ok && d >= 0
		if end {
			need = max(need, d+lo)
		} else {
			need = max(need, d)
			good = good && lo <= d
		}
	}
	if i.Max != nil {
		good = false
	}
	if !good || !in.atLeast(c, x, need) {
		in.trap(c, i, "a slice of %s that may be shorter", x)
	}
}

func (in *Interp) trapCall(c *Config, instr ssa.Instruction, name string, args []*Term) {
	if rest, ok := strings.CutPrefix(name, "(encoding/binary."); ok {
		_, w, ok := strings.Cut(rest, ").Uint")
		if !ok {
			_, w, ok = strings.Cut(rest, ").PutUint")
		}
		if n, err := strconv.Atoi(w); ok && err == nil && len(args) > 1 && !in.atLeast(c, args[1], int64(n/8)) {
			in.trap(c, instr, "%s reads %d bytes of %s, which may have less", name, n/8, args[1])
		}
		return
	}
	short := name[strings.LastIndex(name, ".")+1:]
	if strings.HasPrefix(short, "Must") {
		in.trap(c, instr, "%s panics on what it refuses", name)
	}
}
