package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C32", "the generator is folded over every document shape with iterations over maps following opposite and shuffled orders: the generated files must be the same; every iteration over a map in the generator must have been reached with several entries, or only collect what is sorted afterwards; and no function of the generator consults time, randomness, the environment, goroutines or addresses", ruleDeterminism)
}

// orders are the ways a run may iterate over maps; the sorted one is the
// reference.
func mapOrders(n int) (out []func(ents []*vment, k int) []*vment) {
	out = append(out, func(e []*vment, _ int) []*vment {
		r := make([]*vment, len(e))
		for i := range e {
			r[len(e)-1-i] = e[i]
		}
		return r
	})
	for s := 1; s < n; s++ {
		seed := uint64(s) * 0x9e3779b97f4a7c15
		out = append(out, func(e []*vment, k int) []*vment {
			r := append([]*vment(nil), e...)
			x := seed + uint64(k)*0xbf58476d1ce4e5b9
			for i := len(r) - 1; i > 0; i-- {
				x ^= x >> 30
				x *= 0x94d049bb133111eb
				x ^= x >> 27
				j := int(x % uint64(i+1))
				r[i], r[j] = r[j], r[i]
			}
			return r
		})
	}
	return
}

func ruleDeterminism(r *Report) {
	w := r.W
	n := 2
	if os.Getenv("VERIF_TIER") == "thorough" || r.Tier == "thorough" {
		n = 8
	}
	orders := mapOrders(n)
	shapes := allShapes()
	type res struct {
		x      []*Expansion
		ranged map[ssa.Instruction]bool
	}
	out := make([]res, len(shapes))
	var wg sync.WaitGroup
	ch := make(chan int)
	// resolve what is resolved on demand before sharing the program
	w.foldShape(shapes[0])
	for k := 0; k < 6; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				ranged := map[ssa.Instruction]bool{}
				xs := []*Expansion{w.foldShapeWith(shapes[i], func(m *Machine) { m.Ranged = ranged; m.NoLines = true })}
				for _, o := range orders {
					xs = append(xs, w.foldShapeWith(shapes[i], func(m *Machine) { m.Order = o; m.NoLines = true }))
				}
				out[i] = res{xs, ranged}
			}
		}()
	}
	for i := range shapes {
		ch <- i
	}
	close(ch)
	wg.Wait()
	ranged := map[ssa.Instruction]bool{}
	for i, sh := range shapes {
		key := fmt.Sprintf("%s.v%d", sh.Name, sh.Major)
		for k := range out[i].ranged {
			ranged[k] = true
		}
		ref := out[i].x[0]
		r.Count("document shapes", 1)
		if ref.Err == nil {
			r.Count("documents generated", 1)
		}
		for _, x := range out[i].x[1:] {
			r.Count("generations compared", 1)
			switch {
			case (ref.Err == nil) != (x.Err == nil):
				r.FailAt("outcome:"+key, key, "whether the document can be generated depends on the order of iterations over maps: %v / %v", ref.Err, x.Err)
			case ref.Err == nil && ref.Text != x.Text:
				a, b := diffLine(ref.Text, x.Text)
				r.FailAt("output:"+key, key, "the generated file depends on the order of iterations over maps: %q or %q", a, b)
			}
		}
	}
	// nothing else varies
	used := usedFuncs(w.generatorFuncs())
	for _, f := range w.generatorFuncs() {
		if !used[f] {
			continue
		}
		r.Count("functions of the generator", 1)
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
						continue
					}
					r.Count("iterations over maps", 1)
					if ranged[x] {
						r.Count("iterations reached with several entries", 1)
						continue
					}
					if why := orderSensitive(f, x); why != "" {
						r.Fail("range:"+fnName(f), x.Pos(), "%s iterates over a map without an order and %s", fnName(f), why)
					}
				case *ssa.Go:
					r.Fail("go:"+fnName(f), x.Pos(), "%s starts a goroutine: the generation depends on the schedule", fnName(f))
				case *ssa.Select:
					r.Fail("select:"+fnName(f), x.Pos(), "%s chooses among channels: the generation depends on the schedule", fnName(f))
				case ssa.CallInstruction:
					name := calleeName(x.Common())
					if varying(name) {
						r.Fail("source:"+name+":"+fnName(f), x.Pos(), "%s calls %s: the generation depends on something else than its inputs", fnName(f), name)
					}
					for _, a := range x.Common().Args {
						if c, ok := a.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && strings.HasPrefix(name, "fmt.") && strings.Contains(constant.StringVal(c.Value), "%p") {
							r.Fail("address:"+fnName(f), x.Pos(), "%s prints an address", fnName(f))
						}
					}
				case *ssa.Convert:
					if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
						r.Fail("address:"+fnName(f), x.Pos(), "%s uses an address as a value", fnName(f))
					}
				}
			}
		}
	}
	r.Floor("document shapes", 230)
	r.Floor("generations compared", 460)
	r.Floor("documents generated", 200)
	r.Floor("iterations over maps", 20)
	r.Floor("functions of the generator", 250)
}

func varying(n string) bool {
	for _, p := range []string{"time.Now", "time.Since", "time.After", "time.Tick", "math/rand", "crypto/rand", "hash/maphash", "os.Getpid", "os.Getppid", "os.Hostname", "os.Getenv", "os.LookupEnv", "os.Environ", "os.ExpandEnv",
		"os.Getuid", "os.TempDir", "os.CreateTemp", "os.MkdirTemp", "os.UserHomeDir", "os.Getwd", "github.com/google/uuid.New", "runtime.Caller", "runtime.NumGoroutine", "runtime/debug.Stack", "os/user.", "net."} {
		if strings.HasPrefix(strings.TrimPrefix(n, "("), p) {
			return true
		}
	}
	return false
}

func diffLine(a, b string) (string, string) {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) {
			return x[i], ""
		}
		if x[i] != y[i] {
			return strings.TrimSpace(x[i]), strings.TrimSpace(y[i])
		}
	}
	return "", y[len(x)]
}

// orderSensitive: an iteration no shape reaches may only collect what is
// sorted afterwards, or do the same to each entry.
func orderSensitive(f *ssa.Function, rg *ssa.Range) string {
	sorted := false
	appends := false
	in := loopBlocks(rg)
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && in[b] {
				appends = true
			}
			n := calleeName(c.Common())
			if (strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort")) && !in[b] {
				sorted = true
			}
		}
	}
	if appends && !sorted {
		return "collects what it finds without sorting it"
	}
	for b := range in {
		for _, i := range b.Instrs {
			if ret, ok := i.(*ssa.Return); ok && len(ret.Results) > 0 && !isErrType(ret.Results[len(ret.Results)-1].Type()) {
				return "returns what it finds first"
			}
		}
	}
	return ""
}

// loopBlocks are the blocks from which the iteration's next step is reached
// again.
func loopBlocks(rg *ssa.Range) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{}
	for _, ref := range *rg.Referrers() {
		nx, ok := ref.(*ssa.Next)
		if !ok {
			continue
		}
		head := nx.Block()
		var body func(b *ssa.BasicBlock)
		seen := map[*ssa.BasicBlock]bool{}
		body = func(b *ssa.BasicBlock) {
			if seen[b] {
				return
			}
			seen[b] = true
			for _, p := range b.Preds {
				if head.Dominates(p) {
					in[p] = true
					if p != head {
						body(p)
					}
				}
			}
		}
		for _, p := range head.Preds {
			if head.Dominates(p) {
				in[p] = true
				body(p)
			}
		}
		in[head] = true
		// early exits belong to the body too
		for b := range in {
			if b == head {
				continue
			}
			for _, s := range b.Succs {
				if len(s.Succs) == 0 {
					in[s] = true
				}
			}
		}
	}
	return in
}

// orderShapes are documents whose elements depend on one another through
// references, so that the order in which they are processed could matter.
func orderShapes() (out []Shape) {
	for _, k := range []string{"allOf", "anyOf", "oneOf"} {
		for _, rev := range []bool{false, true} {
			a, b, c := "Alpha", "Beta", "Gamma"
			if rev {
				a, c = c, a
			}
			comps := fmt.Sprintf(`
schemas:
  %[1]s:
    %[4]s:
      - $ref: '#/components/schemas/%[2]s'
      - type: object
        required: ["one"]
        properties:
          one:
            type: string
  %[2]s:
    %[4]s:
      - $ref: '#/components/schemas/%[3]s'
      - type: object
        properties:
          two:
            $ref: '#/components/schemas/Leaf'
  %[3]s:
    type: object
    required: ["three"]
    properties:
      three:
        type: string
        minLength: 3
      four:
        type: object
        properties:
          five:
            type: integer
  Leaf:
    type: string
    maxLength: 9
`, a, b, c, k)
			out = append(out, both(fmt.Sprintf("order-%s-%v", strings.ToLower(k), rev), fmt.Sprintf(`
payload:
  $ref: '#/components/schemas/%s'
`, a), comps)...)
		}
	}
	// chains of references with constraints
	out = append(out, both("order-chain", `
payload:
  type: object
  properties:
    a:
      $ref: '#/components/schemas/A'
    m:
      $ref: '#/components/schemas/M'
    z:
      $ref: '#/components/schemas/Z'
`, `
schemas:
  A:
    $ref: '#/components/schemas/M'
  M:
    $ref: '#/components/schemas/Z'
  Z:
    type: string
    minLength: 2
    enum: ["aa", "bb"]
`)...)
	// messages made of other messages
	for _, rev := range []bool{false, true} {
		a, b := "Aaa", "Zzz"
		if rev {
			a, b = b, a
		}
		out = append(out, Shape{Name: fmt.Sprintf("order-msgoneof-%v", rev), Major: 2, YAML: fmt.Sprintf(`
asyncapi: 2.6.0
info: {"title":"t","version":"1"}
channels:
  ch:
    publish:
      message:
        $ref: '#/components/messages/%[1]s'
components:
  messages:
    %[1]s:
      oneOf:
        - $ref: '#/components/messages/%[2]s'
        - payload:
            type: object
            properties:
              own:
                type: string
    %[2]s:
      headers:
        $ref: '#/components/schemas/Hdr'
      payload:
        $ref: '#/components/schemas/Pay'
  schemas:
    Hdr:
      type: object
      required: ["h"]
      properties:
        h:
          type: string
    Pay:
      type: object
      required: ["p"]
      properties:
        p:
          type: string
`, a, b)})
	}
	// traits
	for _, rev := range []bool{false, true} {
		a, b := "Aaa", "Zzz"
		if rev {
			a, b = b, a
		}
		out = append(out, Shape{Name: fmt.Sprintf("order-traits-%v", rev), Major: 3, YAML: fmt.Sprintf(`
asyncapi: 3.0.0
info: {"title":"t","version":"1"}
channels:
  ch:
    address: ch
    messages:
      m:
        $ref: '#/components/messages/%[1]s'
  ch2:
    $ref: '#/components/channels/C%[1]s'
operations:
  op:
    action: send
    channel:
      $ref: '#/channels/ch'
    traits:
      - $ref: '#/components/operationTraits/%[1]s'
  op2:
    action: receive
    channel:
      $ref: '#/channels/ch2'
  op3:
    $ref: '#/components/operations/O%[1]s'
components:
  operations:
    O%[1]s:
      action: receive
      channel:
        $ref: '#/components/channels/C%[2]s'
      reply:
        $ref: '#/components/replies/R%[2]s'
    P%[1]s:
      action: send
      channel:
        $ref: '#/components/channels/C%[1]s'
  replies:
    R%[2]s:
      channel:
        $ref: '#/channels/ch'
      address:
        $ref: '#/components/replyAddresses/D%[1]s'
  replyAddresses:
    D%[1]s:
      location: $message.header#/replyTo
  channels:
    C%[1]s:
      $ref: '#/components/channels/C%[2]s'
    C%[2]s:
      address: c2
      messages:
        m:
          $ref: '#/components/messages/%[2]s'
  messages:
    %[1]s:
      traits:
        - $ref: '#/components/messageTraits/%[2]s'
        - $ref: '#/components/messageTraits/%[1]s'
      headers:
        $ref: '#/components/schemas/Own%[1]s'
      payload:
        type: string
    %[2]s:
      traits:
        - $ref: '#/components/messageTraits/%[1]s'
      payload:
        type: string
  messageTraits:
    %[1]s:
      correlationId:
        $ref: '#/components/correlationIds/Cid'
      headers:
        $ref: '#/components/schemas/Hdr'
    %[2]s:
      headers:
        type: object
        properties:
          extra:
            type: integer
  operationTraits:
    %[1]s:
      title: first
      tags:
        - $ref: '#/components/tags/T'
  tags:
    T:
      name: tag
  correlationIds:
    Cid:
      location: $message.header#/cid
  schemas:
    Own%[1]s:
      type: object
      properties:
        own:
          type: string
    Hdr:
      type: object
      required: ["cid"]
      properties:
        cid:
          type: string
        other:
          type: string
`, a, b)})
	}
	return
}

// usedFuncs are the functions something refers to, the methods and the
// starting points.
func usedFuncs(fns []*ssa.Function) map[*ssa.Function]bool {
	used := map[*ssa.Function]bool{}
	mark := func(g *ssa.Function) {
		for ; g != nil && !used[g]; g = g.Origin() {
			used[g] = true
		}
	}
	for _, f := range fns {
		if f.Signature.Recv() != nil || f.Name() == "main" || f.Name() == "init" || f.Parent() != nil {
			mark(f)
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && g != f {
						mark(g)
					}
				}
			}
		}
	}
	return used
}
