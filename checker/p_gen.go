package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C29", "the command's entry point is interpreted: every flag is registered with its documented name, shorthand and default on its own variable before the command line is read, the command's body passes exactly these variables through the options to the generation; the conversion to options is interpreted (copies) and folded over every combination of generation targets; Generate is interpreted to see where each option goes; and the generator is folded over a document for every combination of options and targets, each of which must show in its own aspect of the generated program and in no other", ruleFlags)
	register("C30", "every fallible call of the command, the generator, the document model and the utilities is followed through the control-flow graph of its function from the failure on: each way out must report an error, panic, or end the process with a failure; the path of a generation is interpreted: the output file is written at the option's path, once, with the formatted content, after every other fallible step succeeded, and nothing else in the generator changes files; the command exits with a failure when the generation fails", ruleFailures)
	register("C31", "the package-level variables written after initialisation by any function of the generator are computed from the SSA form (through fields, parameters and closures); each must be set again by every generation before the document is processed, from the options and constants alone, and must not be read while a document is loaded; nothing configures library-wide state", ruleIndependent)
}

const (
	cmdPath     = Mod + "/cmd/asyncapi-codegen"
	codegenPath = Mod + "/pkg/codegen"
	optionsPath = Mod + "/pkg/codegen/options"
	asyncPath   = Mod + "/pkg/asyncapi"
	parserPath  = Mod + "/pkg/asyncapi/parser"
	utilsPath   = Mod + "/pkg/utils"
	tmplPath    = Mod + "/pkg/utils/template"
)

// generatorFuncs are the functions a generation is made of.
func (w *World) generatorFuncs() (fns []*ssa.Function) {
	for _, f := range w.Funcs(cmdPath, codegenPath, asyncPath, utilsPath) {
		if strings.HasPrefix(w.FnPkgPath(f), utilsPath+"/test") {
			continue
		}
		fns = append(fns, f)
	}
	return
}

// generation interprets CodeGen.Generate: its package, the setters of the
// template packages and nothing of the specifications.
func (r *Report) generation() (*Interp, *ssa.Function, []*Term, []*Trace) {
	f := r.W.Func(codegenPath, "CodeGen.Generate")
	if f == nil {
		r.FailAt("undecided:CodeGen.Generate", "-", "the entry point CodeGen.Generate is not resolved")
		return nil, nil, nil, nil
	}
	in := r.Interp()
	in.Inline = func(g *ssa.Function) bool {
		p := r.W.FnPkgPath(g)
		if !r.W.InScope(g) {
			return false
		}
		if strings.HasPrefix(p, codegenPath+"/generators") {
			// what a generation is configured with, not what it writes
			return g.Signature.Results().Len() == 0
		}
		return p == codegenPath || strings.HasPrefix(p, utilsPath)
	}
	in.NoHavoc = func(e *Event) bool { return true }
	args := in.ParamTerms(f)
	ts := in.Run(f, args, nil, nil)
	r.Count("paths of a generation", len(ts))
	return in, f, args, ts
}

func isProcess(e *Event) bool {
	return e.Kind == EvCall && e.Obj != nil && e.Obj.Name() == "Process" && e.Obj.Pkg() != nil && strings.HasPrefix(e.Obj.Pkg().Path(), asyncPath)
}

// isContent: the call that makes the content of the file.
func isContent(e *Event) bool {
	return e.Kind == EvCall && e.Obj != nil && e.Obj.Name() == "Generate" && e.Obj.Pkg() != nil && strings.HasPrefix(e.Obj.Pkg().Path(), codegenPath+"/generators")
}

var fileMutators = map[string]int{ // index of the path, or -1
	"os.WriteFile": 0, "os.Create": 0, "os.OpenFile": 0, "os.Remove": 0, "os.RemoveAll": 0, "os.Rename": 0, "os.Truncate": 0,
	"os.Mkdir": 0, "os.MkdirAll": 0, "os.MkdirTemp": 0, "os.CreateTemp": 0, "os.Chmod": 0, "os.Link": 0, "os.Symlink": 0, "os.Chtimes": 0,
	"os.CopyFS": 0, "io/ioutil.WriteFile": 0, "io/ioutil.TempFile": 0, "io/ioutil.TempDir": 0, "syscall.Open": 0, "syscall.Unlink": 0,
	"(*os.File).Write": -1, "(*os.File).WriteString": -1, "(*os.File).WriteAt": -1, "(*os.File).Truncate": -1, "(*os.File).ReadFrom": -1,
	"(*os/exec.Cmd).Run": -1, "(*os/exec.Cmd).Start": -1, "(*os/exec.Cmd).Output": -1, "(*os/exec.Cmd).CombinedOutput": -1,
}

func optField(in *Interp, args []*Term, name string) *Term {
	for _, a := range args {
		st := structOf(a.Typ)
		if st == nil {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name && strings.HasSuffix(types.TypeString(a.Typ, nil), "options.Options") {
				return in.T.Field(a, a.Typ, i)
			}
		}
	}
	return nil
}

// ---- C30 --------------------------------------------------------------------

func ruleFailures(r *Report) {
	w := r.W
	fns := w.generatorFuncs()
	r.errorsReported(fns)
	in, gen, args, ts := r.generation()
	if gen == nil {
		return
	}
	seen := map[ssa.Instruction]bool{}
	for _, t := range ts {
		if t.Exit == "truncated" {
			r.Fail("undecided:generate", gen.Pos(), "a path of CodeGen.Generate could not be followed")
			continue
		}
		var write *Event
		var content, format, process *Event
		for _, e := range t.Events {
			if e.Kind != EvCall {
				continue
			}
			if _, mut := fileMutators[e.Name()]; mut {
				seen[e.Instr] = true
				if write != nil {
					r.Fail("write:twice", e.Pos(), "a generation changes files in several steps: a failure of %s leaves the output half written", e.Name())
				}
				write = e
				continue
			}
			if write != nil && in.errorResult(e) != nil && !harmless(e.Name()) && !makesErrors(e.Name()) {
				r.Fail("write:early:"+e.Name(), e.Pos(), "%s can fail after the output was written", e.Name())
			}
			switch {
			case isProcess(e):
				process = e
			case isContent(e):
				content = e
			case e.Name() == "golang.org/x/tools/imports.Process":
				format = e
			}
		}
		failed := len(t.Ret) == 1 && t.nonNilErr(t.Ret[0])
		if write == nil {
			if t.Exit == "return" && !failed && !(len(t.Ret) == 1 && mentionsMut(t.Ret[0])) {
				r.Fail("write:none", gen.Pos(), "a generation can succeed without writing its output")
			}
			continue
		}
		r.Count("paths that write the output", 1)
		if write.Name() != "os.WriteFile" {
			r.Fail("undecided:write", write.Pos(), "the output is written with %s, whose effect on failure is not decided", write.Name())
			continue
		}
		if want := optField(in, args, "OutputPath"); write.Args[0] != want {
			r.Fail("write:path", write.Pos(), "the output is written to %s, not to the output path of the options", write.Args[0].String())
		}
		if process == nil || content == nil {
			r.Fail("write:before", write.Pos(), "the output is written before the document is processed and the code generated")
			continue
		}
		for _, e := range []*Event{process, content, format} {
			if e == nil {
				continue
			}
			if n, k := t.IsNilTerm(in.errorResult(e)); !k || !n {
				r.Fail("write:unchecked:"+e.Name(), write.Pos(), "the output is written without knowing that %s succeeded", e.Name())
			}
		}
		dis, known := t.Fact(optField(in, args, "DisableFormatting"))
		code := in.extract(content.Res, 0)
		data := write.Args[1]
		switch {
		case known && dis:
			if format != nil || stripConv(data) != code {
				r.Fail("write:raw", write.Pos(), "with formatting disabled, what is written is %s instead of the generated code", data.String())
			}
		default:
			if format == nil || stripConv(data) != in.extract(format.Res, 0) || len(format.Args) < 2 || stripConv(format.Args[1]) != code {
				r.Fail("write:formatted", write.Pos(), "with formatting, what is written is %s instead of the formatted generated code", data.String())
			}
		}
		if t.Exit != "return" || len(t.Ret) != 1 || t.Ret[0] != in.errorResult(write) {
			if n, k := t.IsNilTerm(in.errorResult(write)); !k || n != !failed {
				r.Fail("write:status", write.Pos(), "the failure to write the output is not what the generation reports")
			}
		}
	}
	// nothing else changes files
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := calleeName(c.Common())
				if _, mut := fileMutators[n]; mut {
					r.Count("calls that change files", 1)
					if !seen[i] {
						r.Fail("write:elsewhere:"+f.String()+":"+n, i.Pos(), "%s calls %s, which changes files outside the last step of a generation", f, n)
					}
				}
			}
		}
	}
	// the command reports the failure
	if main := w.Func(cmdPath, "main"); main == nil {
		r.FailAt("undecided:main", "-", "the command's entry point is not resolved")
	} else {
		in := r.cmdInterp()
		for _, t := range in.Run(main, nil, nil, nil) {
			r.Count("paths of the command", 1)
			ran := false
			for _, e := range t.Events {
				if e.Kind == EvCall && strings.HasPrefix(e.Name(), "(*github.com/spf13/cobra.Command).Execute") {
					ran = true
				}
			}
			if !ran && t.Exit == "return" {
				r.Fail("main:run", main.Pos(), "the command can end with success without having run")
			}
		}
		body := r.commandBody()
		if body == nil {
			r.Fail("undecided:body", main.Pos(), "the body of the command, with an error result, is not found in what the command is made of")
		} else {
			r.body(body)
		}
	}
	r.Floor("fallible calls", 200)
	r.Floor("functions examined", 250)
	r.Floor("paths that write the output", 4)
	r.Floor("calls that change files", 1)
	r.Floor("paths of the command", 2)
}

// makesErrors: the error is the result, not a failure of the call.
func makesErrors(name string) bool { return name == "fmt.Errorf" || strings.HasPrefix(name, "errors.") }

func mentionsMut(x *Term) bool {
	ok := false
	walk(x, func(y *Term) {
		if y.Obj != nil {
			if _, mut := fileMutators[fullName(y.Obj)]; mut {
				ok = true
			}
		}
	})
	return ok
}

// stripConv removes conversions between strings and byte slices.
func stripConv(x *Term) *Term {
	for x != nil && (x.Op == "convert" || x.Op == "bytes" || x.Op == "string") && len(x.Args) > 0 {
		x = x.Args[0]
	}
	return x
}

func (r *Report) cmdInterp() *Interp {
	in := r.Interp()
	in.Inline = func(g *ssa.Function) bool { return r.W.FnPkgPath(g) == cmdPath }
	in.NoHavoc = func(e *Event) bool { return true }
	return in
}

// commandBody is the function the command runs: what the package stores in
// the RunE field of a command.
func (r *Report) commandBody() *ssa.Function {
	var body *ssa.Function
	for _, f := range r.W.Funcs(cmdPath) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				s := structOf(fa.X.Type())
				if s == nil || s.Field(fa.Field).Name() != "RunE" || !strings.Contains(fa.X.Type().String(), "cobra.Command") {
					continue
				}
				switch v := st.Val.(type) {
				case *ssa.Function:
					body = v
				case *ssa.MakeClosure:
					body = v.Fn.(*ssa.Function)
				}
			}
		}
	}
	// the package's own initialisation is not among the functions
	if body == nil && r.W.SSA[cmdPath] != nil {
		if f := r.W.SSA[cmdPath].Func("init"); f != nil {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if st, ok := i.(*ssa.Store); ok {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok && structOf(fa.X.Type()) != nil && structOf(fa.X.Type()).Field(fa.Field).Name() == "RunE" {
							if v, ok := st.Val.(*ssa.Function); ok {
								body = v
							}
						}
					}
				}
			}
		}
	}
	return body
}

// body checks that the command loads the documents of its flags and generates
// with the options of its flags.
func (r *Report) body(f *ssa.Function) {
	in := r.cmdInterp()
	in.Inline = func(g *ssa.Function) bool {
		return r.W.FnPkgPath(g) == cmdPath && g.Name() != "ToCodegenOptions"
	}
	full := 0
	for _, t := range in.Run(f, in.ParamTerms(f), nil, nil) {
		var load, opts, gen *Event
		for _, e := range t.Events {
			if e.Kind != EvCall {
				continue
			}
			switch e.Name() {
			case codegenPath + ".FromFile":
				load = e
			case "(" + cmdPath + ".Flags).ToCodegenOptions":
				opts = e
			case "(" + codegenPath + ".CodeGen).Generate":
				gen = e
			}
		}
		if gen == nil {
			if t.Exit == "return" && len(t.Ret) == 1 && !t.nonNilErr(t.Ret[0]) {
				r.Fail("body:nothing", f.Pos(), "the command can succeed without generating anything")
			}
			continue
		}
		full++
		if load == nil || opts == nil {
			r.Fail("body:steps", gen.Pos(), "the command generates without loading the documents or reading its flags")
			continue
		}
		flags := opts.Args[0]
		if g := root(flags); g == nil || g.Op != "global" {
			r.Fail("body:flags", opts.Pos(), "the options do not come from the flags of the command line")
		}
		if gen.Args[0] != in.extract(load.Res, 0) || gen.Args[1] != in.extract(opts.Res, 0) {
			r.Fail("body:args", gen.Pos(), "the generation is not given the loaded documents and the options of the flags")
		}
		inputs := func(x *Term) bool { return mentionsField(x, "InputPaths") && root(x) == root(flags) }
		a := load.Args
		if len(a) != 2 || a[0].Op != "elem" || !inputs(a[0]) || !isConstInt(a[0].Args[1], 0) {
			r.Fail("body:input", load.Pos(), "the document that is loaded is not the first input path")
		}
		if len(a) == 2 && (a[1].Op != "slice" || !inputs(a[1]) || !isConstInt(a[1].Args[1], 1) || a[1].Args[2] != nil && a[1].Args[2].Op != "nil" && a[1].Args[2].Op != "len") {
			r.Fail("body:dependencies", load.Pos(), "the dependencies that are loaded are not the other input paths but %s", a[1].String())
		}
	}
	if full == 0 {
		r.Fail("undecided:body:paths", f.Pos(), "no path of the command generates code")
	}
	r.Count("paths of the command that generate", full)
}

func mentionsField(x *Term, name string) bool {
	ok := false
	walk(x, func(y *Term) {
		if (y.Op == "field" || y.Op == "fieldaddr") && y.Obj != nil && y.Obj.Name() == name {
			ok = true
		}
	})
	return ok
}

func isConstInt(x *Term, n int64) bool {
	return x != nil && x.C != nil && x.C.ExactString() == fmt.Sprint(n)
}

// ---- C31 --------------------------------------------------------------------

// writeSite is a place where a package-level variable is written.
type writeSite struct {
	f *ssa.Function
	i ssa.Instruction
	g *ssa.Global
}

var libMutators = map[string]bool{
	"maps.Copy": true, "maps.DeleteFunc": true, "maps.Insert": true, "slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true,
	"slices.Reverse": true, "sort.Strings": true, "sort.Slice": true, "sort.SliceStable": true, "sort.Sort": true, "sort.Ints": true,
}

var libraryState = map[string]string{
	"github.com/iancoleman/strcase.ConfigureAcronym": "how every later name is converted",
	"os.Setenv": "the environment", "os.Unsetenv": "the environment", "os.Chdir": "the working directory", "os.Clearenv": "the environment",
	"flag.Set": "the process's flags", "encoding/json.RegisterExtension": "the codec", "math/rand.Seed": "the random source",
}

// synchronisers have methods that keep no information between generations.
var synchronisers = map[string]bool{"sync.Mutex": true, "sync.RWMutex": true, "sync.WaitGroup": true}

// mutable library objects: a method call may keep something in them.
func statefulType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	s := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	if synchronisers[s] {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic", "container/list", "container/ring", "bytes", "bufio", "text/template", "html/template", "math/rand":
		return true
	}
	return s == "strings.Builder"
}

func (r *Report) globalWriters(fns []*ssa.Function) (sites []writeSite) {
	writes := map[*ssa.Function]map[ssa.Value]bool{}
	note := func(f *ssa.Function, v ssa.Value) bool {
		if writes[f] == nil {
			writes[f] = map[ssa.Value]bool{}
		}
		if writes[f][v] {
			return false
		}
		writes[f][v] = true
		return true
	}
	have := map[writeSite]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			if f.Name() == "init" && f.Signature.Recv() == nil && f.Parent() == nil {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					var targets []ssa.Value
					switch x := i.(type) {
					case *ssa.Store:
						targets = append(targets, x.Addr)
					case *ssa.MapUpdate:
						targets = append(targets, x.Map)
					case ssa.CallInstruction:
						cc := x.Common()
						if bi, ok := cc.Value.(*ssa.Builtin); ok {
							if n := bi.Name(); n == "delete" || n == "copy" || n == "clear" {
								targets = append(targets, cc.Args[0])
							}
							break
						}
						callee := cc.StaticCallee()
						if callee == nil {
							break
						}
						name := callee.String()
						if o := callee.Origin(); o != nil {
							name = o.String()
						}
						if libMutators[name] && len(cc.Args) > 0 {
							targets = append(targets, cc.Args[0])
						}
						if callee.Signature.Recv() != nil && len(cc.Args) > 0 && statefulType(cc.Args[0].Type()) {
							targets = append(targets, cc.Args[0])
						}
						for k, p := range callee.Params {
							if writes[callee][p] && k < len(cc.Args) {
								targets = append(targets, cc.Args[k])
							}
						}
					case *ssa.MakeClosure:
						c := x.Fn.(*ssa.Function)
						for k, fv := range c.FreeVars {
							if writes[c][fv] {
								targets = append(targets, x.Bindings[k])
							}
						}
					}
					for _, t := range targets {
						for _, v := range ssaRoots(t, map[ssa.Value]bool{}) {
							switch g := v.(type) {
							case *ssa.Global:
								s := writeSite{f, i, g}
								if !have[s] {
									have[s] = true
									sites = append(sites, s)
								}
							case *ssa.Parameter, *ssa.FreeVar:
								changed = note(f, g) || changed
							}
						}
					}
				}
			}
		}
	}
	sort.SliceStable(sites, func(i, j int) bool { return sites[i].i.Pos() < sites[j].i.Pos() })
	return
}

func ruleIndependent(r *Report) {
	w := r.W
	fns := w.generatorFuncs()
	r.Count("functions of the generator", len(fns))
	sites := r.globalWriters(fns)
	mutable := map[string]*ssa.Global{}
	first := map[string]writeSite{}
	for _, s := range sites {
		n := s.g.String()
		if strings.HasPrefix(n, cmdPath) {
			continue // the command runs one generation
		}
		mutable[n] = s.g
		if _, ok := first[n]; !ok {
			first[n] = s
		}
	}
	r.Count("variables written after initialisation", len(mutable))
	_, gen, args, ts := r.generation()
	if gen == nil {
		return
	}
	_ = args
	for _, n := range sortedKeys(mutable) {
		s := first[n]
		r.Sample("%s is written by %s", n, s.f)
		reached := 0
		for _, t := range ts {
			upto := -1
			for k, e := range t.Events {
				if isProcess(e) || isContent(e) {
					upto = k
					break
				}
			}
			if upto < 0 {
				continue
			}
			reached++
			set := false
			for _, e := range t.Events[:upto] {
				if e.Kind != EvStore || e.Addr == nil || e.Addr.Op != "global" || e.Addr.Aux != s.g.String() && !strings.HasSuffix(e.Addr.Aux, s.g.String()) {
					continue
				}
				set = true
				walk(e.Val, func(y *Term) {
					if y.Op == "global" && mutable[y.Aux] != nil {
						set = false
					}
					if y.Op == "call" && y.Obj != nil && impureSource(fullName(y.Obj)) {
						set = false
					}
				})
				if !set {
					r.Fail("stale:"+n, e.Pos(), "a generation sets %s from the state left by earlier ones", n)
				}
			}
			if !set {
				r.Fail("stale:"+n, s.i.Pos(), "%s, written by %s, is not set anew by every generation before the document is processed: what an earlier generation put there stays in force", n, s.f)
			}
		}
		if reached == 0 {
			r.Fail("undecided:generate", gen.Pos(), "no path of CodeGen.Generate processes the document")
		}
	}
	// loading a document does not look at them
	var roots []*ssa.Function
	for _, f := range fns {
		p := w.FnPkgPath(f)
		if p == parserPath || strings.HasPrefix(f.Name(), "Unmarshal") && strings.HasPrefix(p, asyncPath) || p == codegenPath && f.Signature.Recv() == nil && f.Object() != nil && f.Object().Exported() {
			roots = append(roots, f)
		}
	}
	loading := w.reachable(roots)
	r.Count("functions that load documents", len(loading))
	for f := range loading {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && mutable[g.String()] != nil {
						r.Fail("early:"+f.String()+":"+g.String(), i.Pos(), "%s, which loads documents, uses %s as earlier generations left it", f, g)
					}
				}
			}
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if what, ok := libraryState[calleeName(c.Common())]; ok {
						r.Fail("library:"+f.String()+":"+calleeName(c.Common()), i.Pos(), "%s calls %s, which changes %s for every later generation", f, calleeName(c.Common()), what)
					}
				}
			}
		}
	}
	r.Floor("functions of the generator", 250)
	r.Floor("variables written after initialisation", 5)
	r.Floor("paths of a generation", 10)
	r.Floor("functions that load documents", 8)
}

func impureSource(n string) bool {
	return strings.HasPrefix(n, "os.Getenv") || strings.HasPrefix(n, "os.LookupEnv") || strings.HasPrefix(n, "time.Now") || strings.HasPrefix(n, "math/rand")
}

// reachable: the functions of the module reached through static calls and closures.
func (w *World) reachable(roots []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || !w.InScope(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
	}
	for _, f := range roots {
		visit(f)
	}
	return seen
}

// ---- C29 --------------------------------------------------------------------

type flagSpec struct {
	long, short, field string
	def                string
}

// the documented flags (README, "CLI options", and their usage strings)
var documentedFlags = []flagSpec{
	{"input", "i", "InputPaths", `list("asyncapi.yaml")`},
	{"output", "o", "OutputPath", `"asyncapi.gen.go"`},
	{"package", "p", "PackageName", `"asyncapi"`},
	{"generate", "g", "Generate", `"user,application,types"`},
	{"disable-formatting", "f", "DisableFormatting", "false"},
	{"convert-keys", "c", "ConvertKeys", `"none"`},
	{"naming-scheme", "n", "NamingScheme", `"none"`},
	{"ignore-string-format", "", "IgnoreStringFormat", "false"},
	{"force-pointers", "", "ForcePointers", "false"},
}

func ruleFlags(r *Report) {
	r.flagTable()
	if b := r.commandBody(); b == nil {
		r.FailAt("undecided:body", "-", "the body of the command is not found in what the command is made of")
	} else {
		r.body(b)
	}
	r.flagOptions()
	r.flagTargets()
	r.optionFlow()
	r.schemes()
	r.optionEffects()
	r.Floor("flags registered", len(documentedFlags))
	r.Floor("options copied", 7)
	r.Floor("target lists folded", 20)
	r.Floor("paths of a generation", 10)
	r.Floor("options followed", 5)
	r.Floor("conversions folded", 12)
	r.Floor("combinations of options folded", 60)
	r.Floor("combinations of targets folded", 14)
	r.Floor("paths of the command that generate", 1)
}

func (r *Report) flagTable() {
	main := r.W.Func(cmdPath, "main")
	if main == nil {
		r.FailAt("undecided:main", "-", "the command's entry point is not resolved")
		return
	}
	in := r.cmdInterp()
	for _, t := range in.Run(main, nil, nil, nil) {
		got := map[string]bool{}
		vars := map[*Term]string{}
		ran := false
		for _, e := range t.Events {
			if e.Kind != EvCall {
				continue
			}
			if strings.HasPrefix(e.Name(), "(*github.com/spf13/cobra.Command).Execute") {
				ran = true
				continue
			}
			if !strings.HasPrefix(e.Name(), "(*github.com/spf13/pflag.FlagSet).") || len(e.Args) < 4 {
				continue
			}
			m := e.Obj.Name()
			if !strings.Contains(m, "Var") {
				continue
			}
			if ran {
				r.Fail("flags:late", e.Pos(), "a flag is registered after the command line was read")
			}
			addr, name := e.Args[1], litStr(e.Args[2])
			k := 3
			short := ""
			if strings.HasSuffix(m, "VarP") {
				short = litStr(e.Args[3])
				k = 4
			}
			def := e.Args[k].String()
			r.Count("flags registered", 1)
			var spec *flagSpec
			for i := range documentedFlags {
				if documentedFlags[i].long == name {
					spec = &documentedFlags[i]
				}
			}
			if spec == nil {
				r.Fail("flags:unknown:"+name, e.Pos(), "the flag %q is not one of the documented ones: the rule cannot tell which option it names", name)
				continue
			}
			if got[name] {
				r.Fail("flags:twice:"+name, e.Pos(), "the flag %q is registered twice", name)
			}
			got[name] = true
			if addr.Op != "fieldaddr" || addr.Obj == nil || addr.Obj.Name() != spec.field || root(addr).Op != "global" {
				r.Fail("flags:variable:"+name, e.Pos(), "the flag %q is parsed into %s instead of the field %s", name, addr.String(), spec.field)
			}
			if other := vars[addr]; other != "" {
				r.Fail("flags:shared:"+name, e.Pos(), "the flags %q and %q share a variable", name, other)
			}
			vars[addr] = name
			if short != spec.short {
				r.Fail("flags:short:"+name, e.Pos(), "the shorthand of the flag %q is %q instead of %q", name, short, spec.short)
			}
			if def != spec.def {
				r.Fail("flags:default:"+name, e.Pos(), "the default of the flag %q is %s instead of %s", name, def, spec.def)
			}
		}
		if !ran {
			r.Fail("flags:run", main.Pos(), "the command line is not read")
		}
		for _, s := range documentedFlags {
			if !got[s.long] {
				r.Fail("flags:missing:"+s.long, main.Pos(), "the documented flag %q is not registered", s.long)
			}
		}
	}
}

func litStr(x *Term) string {
	if x != nil && x.C != nil {
		s := x.C.ExactString()
		if len(s) >= 2 && s[0] == '"' {
			return s[1 : len(s)-1]
		}
		return s
	}
	return "?"
}

// flagOptions: each option is a copy of the flag of its name, whatever the flags.
func (r *Report) flagOptions() {
	f := r.W.Func(cmdPath, "Flags.ToCodegenOptions")
	if f == nil {
		r.FailAt("undecided:ToCodegenOptions", "-", "the conversion of flags to options is not resolved")
		return
	}
	in := r.cmdInterp()
	args := in.ParamTerms(f)
	fl := args[0]
	st := structOf(fl.Typ)
	byName := map[string]int{}
	for i := 0; i < st.NumFields(); i++ {
		byName[st.Field(i).Name()] = i
	}
	n := 0
	done := map[string]bool{}
	for _, t := range in.Run(f, args, nil, nil) {
		if t.Exit != "return" || len(t.Ret) != 2 || !t.Ret[1].IsNil() {
			continue
		}
		n++
		ot := f.Signature.Results().At(0).Type()
		os := structOf(ot)
		for i := 0; i < os.NumFields(); i++ {
			name := os.Field(i).Name()
			if name == "Generate" {
				continue
			}
			k, ok := byName[name]
			if !ok {
				r.Fail("options:source:"+name, f.Pos(), "the option %s has no flag of its name", name)
				continue
			}
			got := in.T.Field(t.Ret[0], ot, i)
			want := in.T.Field(fl, fl.Typ, k)
			if got != want {
				r.Fail("options:copy:"+name, f.Pos(), "the option %s is %s instead of the flag of its name", name, got.String())
			}
			if !done[name] {
				done[name] = true
				r.Count("options copied", 1)
			}
		}
	}
	if n == 0 {
		r.Fail("undecided:options", f.Pos(), "no successful path of the conversion of flags to options could be followed")
	}
}

// flagTargets folds the conversion over the lists of generation targets.
func (r *Report) flagTargets() {
	f := r.W.Func(cmdPath, "Flags.ToCodegenOptions")
	if f == nil {
		return
	}
	words := map[string]string{"application": "Application", "user": "User", "types": "Types"}
	var lists []string
	ks := sortedKeys(words)
	for _, a := range ks {
		lists = append(lists, a)
		for _, b := range ks {
			lists = append(lists, a+","+b)
			for _, c := range ks {
				lists = append(lists, a+","+b+","+c)
			}
		}
	}
	bad := []string{"app", "Application", "USER", "type", "client", "application;user", "user,", ",types", "user,apps", "broker", "types,application,usr", "all"}
	fold := func(list string) (map[string]any, bool, bool) {
		m := NewMachine(r.W)
		v, err, _ := m.Try(func() any {
			m.init(r.W.SSA[cmdPath])
			a := zeroVal(f.Signature.Recv().Type()).(*VStruct)
			setField(a, "Generate", list)
			return m.Call(f, a)
		})
		if err != nil {
			r.Fail("undecided:targets", f.Pos(), "the targets %q could not be folded: %v", list, err)
			return nil, false, false
		}
		t := v.(VTuple)
		g := getField(t[0].(*VStruct), "Generate").(*VStruct)
		out := map[string]any{}
		st := structOf(g.T)
		for i := 0; i < st.NumFields(); i++ {
			out[st.Field(i).Name()] = g.F[i].V
		}
		r.Count("target lists folded", 1)
		return out, t[1] != nil, true
	}
	for _, l := range lists {
		got, failed, ok := fold(l)
		if !ok {
			continue
		}
		if failed {
			r.Fail("targets:refused:"+l, f.Pos(), "the generation targets %q are refused", l)
			continue
		}
		for word, field := range words {
			want := false
			for _, p := range strings.Split(l, ",") {
				want = want || p == word
			}
			if got[field] != want {
				r.Fail("targets:"+word, f.Pos(), "with the generation targets %q, the option %s is %v", l, field, got[field])
			}
		}
	}
	for _, l := range bad {
		if _, failed, ok := fold(l); ok && !failed {
			r.Fail("targets:accepted:"+l, f.Pos(), "the unknown generation targets %q are accepted", l)
		}
	}
}

// optionFlow: where the options go in a generation.
func (r *Report) optionFlow() {
	in, gen, args, ts := r.generation()
	if gen == nil {
		return
	}
	type flow struct {
		field, fn string
		negated   bool
	}
	flows := []flow{
		{"ConvertKeys", tmplPath + ".SetConvertKeyFn", false},
		{"NamingScheme", tmplPath + ".SetNamifyFn", false},
		{"IgnoreStringFormat", tmplPath + ".SetDateOrTimeGeneration", true},
		{"ForcePointers", codegenPath + "/generators/v2/templates.SetForcePointerOnFields", false},
		{"ForcePointers", codegenPath + "/generators/v3/templates.SetForcePointerOnFields", false},
	}
	for _, fl := range flows {
		want := optField(in, args, fl.field)
		if want == nil {
			r.Fail("undecided:option:"+fl.field, gen.Pos(), "the option %s is not resolved", fl.field)
			continue
		}
		r.Count("options followed", 1)
		for _, t := range ts {
			ok, processed := false, false
			for _, e := range t.Events {
				if isProcess(e) || isContent(e) {
					processed = true
					break
				}
				if (e.Kind == EvEnter || e.Kind == EvCall) && len(e.Args) == 1 && (e.Name() == fl.fn || e.SSAFn != nil && e.SSAFn.String() == fl.fn) {
					ok = t.sameBool(in, e.Args[0], want, fl.negated)
				}
			}
			if processed && !ok {
				r.Fail("flow:"+fl.field+":"+fl.fn, gen.Pos(), "a document can be processed without the option %s having been given to %s", fl.field, fl.fn)
			}
		}
	}
	// the generators get the options as they are
	for _, t := range ts {
		for _, e := range t.Events {
			if !isContent(e) {
				continue
			}
			st := structOf(e.Args[0].Typ)
			ok := false
			if st != nil {
				for i := 0; i < st.NumFields(); i++ {
					if strings.HasSuffix(types.TypeString(st.Field(i).Type(), nil), "options.Options") {
						for _, a := range args {
							ok = ok || in.T.Field(e.Args[0], e.Args[0].Typ, i) == a
						}
					}
				}
			}
			if !ok {
				r.Fail("flow:options", e.Pos(), "the generator is not given the options of the generation")
			}
		}
	}
}

// sameBool: the argument is the option (or its negation), as a value or as
// what the path knows of it.
func (t *Trace) sameBool(in *Interp, got, want *Term, negated bool) bool {
	if negated {
		if got == in.T.Not(want) {
			return true
		}
	} else if got == want {
		return true
	}
	if got.C == nil {
		return false
	}
	v, known := t.Fact(want)
	return known && got == in.T.Bool(v != negated)
}

// schemes folds the naming and key conversions over the documented names.
func (r *Report) schemes() {
	type conv struct {
		set, get string
		want     map[string][2]string // scheme: input, output
	}
	for _, c := range []conv{
		{"SetConvertKeyFn", "ConvertKey", map[string][2]string{
			// README, "JSON keys conversion"
			"none": {"This_is a-Property", "This_is a-Property"}, "camel": {"This_is a-Property", "ThisIsAProperty"},
			"kebab": {"This_is a-Property", "this-is-a-property"}, "snake": {"This_is a-Property", "this_is_a_property"}}},
		{"SetNamifyFn", "Namify", map[string][2]string{
			"none": {"foo2bar_baz qux", "Foo2barBazQux"}, "camel": {"foo2bar_baz qux", "Foo2BarBazQux"}}},
	} {
		set, get := r.W.Func(tmplPath, c.set), r.W.Func(tmplPath, c.get)
		if set == nil || get == nil {
			r.FailAt("undecided:"+c.set, "-", "%s or %s is not resolved", c.set, c.get)
			continue
		}
		names := append(sortedKeys(c.want), "", "Snake", "pascal", "camelCase", "NONE", "kebab ", "lower")
		for _, prev := range sortedKeys(c.want) {
			for _, n := range names {
				m := NewMachine(r.W)
				exp, known := c.want[n]
				v, err, _ := m.Try(func() any {
					m.init(r.W.SSA[tmplPath])
					m.Call(set, prev)
					if e := m.Call(set, n); e != nil {
						return VTuple{e, ""}
					}
					return VTuple{nil, m.Call(get, exp[0])}
				})
				if err != nil {
					r.Fail("undecided:"+c.set+":"+n, set.Pos(), "%s(%q) could not be folded: %v", c.set, n, err)
					continue
				}
				r.Count("conversions folded", 1)
				t := v.(VTuple)
				switch {
				case known && t[0] != nil:
					r.Fail("scheme:refused:"+c.set+":"+n, set.Pos(), "the documented scheme %q is refused by %s", n, c.set)
				case !known && t[0] == nil:
					r.Fail("scheme:accepted:"+c.set+":"+n, set.Pos(), "the unknown scheme %q is accepted by %s", n, c.set)
				case known && t[1] != exp[1]:
					r.Fail("scheme:"+c.set+":"+n, set.Pos(), "with the scheme %q, %s(%q) gives %q instead of %q", n, c.get, exp[0], t[1], exp[1])
				}
			}
		}
	}
}

const optionsMessage = `
name: evt
payload:
  type: object
  required: ["req"]
  properties:
    req:
      type: integer
    opt:
      type: integer
    foo2bar_baz:
      type: integer
    when:
      type: string
      format: date-time
    day:
      type: string
      format: date
`

type generated struct {
	pkg    string
	decls  map[string]bool
	fields map[string][2]string // Go name of a field of the payload: type, JSON name
}

func (r *Report) generated(sh Shape) *generated {
	x := r.W.foldShape(sh)
	if x.Err != nil {
		r.FailAt("undecided:effects:"+sh.Name, "-", "the generator could not be folded with these options: %v", x.Err)
		return nil
	}
	file, err := parser.ParseFile(token.NewFileSet(), "g.go", x.Text, parser.SkipObjectResolution)
	if err != nil {
		r.FailAt("undecided:effects:"+sh.Name, "-", "the generated file does not parse: %v", err)
		return nil
	}
	g := &generated{pkg: file.Name.Name, decls: map[string]bool{}, fields: map[string][2]string{}}
	for _, d := range file.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			n := d.Name.Name
			if d.Recv != nil {
				t := d.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				n = t.(*ast.Ident).Name + "." + n
			}
			g.decls[n] = true
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.ValueSpec:
					for _, n := range s.Names {
						g.decls[n.Name] = true
					}
				case *ast.TypeSpec:
					g.decls[s.Name.Name] = true
					st, ok := s.Type.(*ast.StructType)
					if !ok {
						continue
					}
					for _, fl := range st.Fields.List {
						if fl.Tag == nil || len(fl.Names) != 1 {
							continue
						}
						_, rest, ok := strings.Cut(fl.Tag.Value, `json:"`)
						if !ok {
							continue
						}
						name, _, _ := strings.Cut(strings.SplitN(rest, `"`, 2)[0], ",")
						g.fields[strings.ToLower(fl.Names[0].Name)] = [2]string{fl.Names[0].Name + " " + types.ExprString(fl.Type), name}
					}
				}
			}
		}
	}
	return g
}

// optionEffects folds the generator over a document for the combinations of
// options; the aspects of the outcome must follow their own option only.
func (r *Report) optionEffects() {
	bools := []bool{false, true}
	keys := map[string]string{"none": "foo2bar_baz", "camel": "Foo2BarBaz", "kebab": "foo-2-bar-baz", "snake": "foo_2_bar_baz"}
	for _, sh := range both("options", optionsMessage, "") {
		for _, ck := range sortedKeys(keys) {
			for _, ns := range []string{"none", "camel"} {
				for _, isf := range bools {
					for _, fp := range bools {
						s := sh
						s.Name = fmt.Sprintf("v%d keys=%s names=%s ignoreformat=%v pointers=%v", sh.Major, ck, ns, isf, fp)
						s.Opts = func(o map[string]any) {
							o["ConvertKeys"], o["NamingScheme"], o["IgnoreStringFormat"], o["ForcePointers"], o["PackageName"] = ck, ns, isf, fp, "pkg"+ns
						}
						g := r.generated(s)
						if g == nil {
							continue
						}
						r.Count("combinations of options folded", 1)
						if g.pkg != "pkg"+ns {
							r.FailAt("effect:package", s.Name, "the package of the generated file is %q, not the one asked for", g.pkg)
						}
						exp := map[string]string{"none": "Foo2barBaz", "camel": "Foo2BarBaz"}[ns]
						opt, req := "*", ""
						if fp {
							req = "*"
						}
						when, day := "time.Time", "civil.Date"
						if isf {
							when, day = "string", "string"
						}
						for field, want := range map[string][2]string{
							"foo2barbaz": {exp + " " + opt + "int64", keys[ck]},
							"req":        {"Req " + req + "int64", ""},
							"opt":        {"Opt " + opt + "int64", ""},
							"when":       {"When " + opt + when, ""},
							"day":        {"Day " + opt + day, ""},
						} {
							got, ok := g.fields[field]
							if !ok {
								r.FailAt("effect:missing:"+field, s.Name, "the property of the field %s does not show in the generated code", field)
								continue
							}
							if got[0] != want[0] {
								r.FailAt("effect:field:"+field+":"+diffOpt(got[0], want[0]), s.Name, "the generated field is %q instead of %q with these options", got[0], want[0])
							}
							if want[1] != "" && got[1] != want[1] {
								r.FailAt("effect:key:"+ck, s.Name, "the JSON name of the property is %q instead of %q", got[1], want[1])
							}
						}
					}
				}
			}
		}
		// the parts
		single := map[string]map[string]bool{}
		all := []string{"Application", "User", "Types"}
		for mask := 1; mask < 8; mask++ {
			var ts []string
			for k, n := range all {
				if mask>>k&1 == 1 {
					ts = append(ts, n)
				}
			}
			s := sh
			s.Name = fmt.Sprintf("v%d targets=%s", sh.Major, strings.Join(ts, ","))
			s.Targets = ts
			g := r.generated(s)
			if g == nil {
				continue
			}
			r.Count("combinations of targets folded", 1)
			if len(ts) == 1 {
				single[ts[0]] = g.decls
			}
			marks := map[string][]string{"Application": {"AppController", "AppSubscriber", "NewAppController"}, "User": {"UserController", "NewUserController"}, "Types": {"AsyncAPIVersion"}}
			for n, ms := range marks {
				want := false
				for _, t := range ts {
					want = want || t == n
				}
				for _, mk := range ms {
					if g.decls[mk] != want {
						r.FailAt(fmt.Sprintf("parts:%s:%v", n, want), s.Name, "the declaration of %s: expected %v, found %v in the parts %v", mk, want, g.decls[mk], ts)
					}
				}
			}
		}
		for i, a := range all {
			if len(single[a]) < 2 {
				r.FailAt("parts:empty:"+a, sh.Name, "the part %s alone declares nothing", a)
			}
			for _, b := range all[:i] {
				for d := range single[a] {
					if single[b][d] {
						r.FailAt("parts:both:"+a+":"+b, sh.Name, "the parts %s and %s both declare %s", a, b, d)
					}
				}
			}
		}
		for mask := 1; mask < 8; mask++ {
			var ts []string
			union := map[string]bool{}
			for k, n := range all {
				if mask>>k&1 == 1 {
					ts = append(ts, n)
					for d := range single[n] {
						union[d] = true
					}
				}
			}
			if len(ts) < 2 {
				continue
			}
			s := sh
			s.Name = fmt.Sprintf("v%d targets=%s", sh.Major, strings.Join(ts, ","))
			s.Targets = ts
			g := r.generated(s)
			if g == nil {
				continue
			}
			if strings.Join(sortedKeys(g.decls), " ") != strings.Join(sortedKeys(union), " ") {
				r.FailAt("parts:union", s.Name, "the file generated for the parts %v does not declare exactly what they declare alone", ts)
			}
		}
	}
}

func diffOpt(got, want string) string {
	switch {
	case strings.Contains(got, "*") != strings.Contains(want, "*"):
		return "pointer"
	case strings.Fields(got)[0] != strings.Fields(want)[0]:
		return "name"
	}
	return "type"
}
