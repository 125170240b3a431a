package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const Mod = "github.com/lerenn/asyncapi-codegen"

var repoDir = "/repo"

// World is the resolved program under analysis.
type World struct {
	Fset    *token.FileSet
	Pkgs    map[string]*packages.Package // every package, by path
	Repo    []*packages.Package          // repository packages, sorted
	Prog    *ssa.Program
	SSA     map[string]*ssa.Package
	T       *Terms
	endless atomic.Int32    // foldings that did not end
	Extra   map[string]bool // extra package paths in scope (template expansions)
	exp     map[string]*Expansion
	built   map[string]bool
	builtMu sync.Mutex

	frameIDs  map[string]int
	fnsSeen   map[*ssa.Function]bool
	callSites map[ssa.Instruction]bool
}

// LoadWorld type-checks the repository from source. Bodies of functions
// outside the repository are not needed and are dropped.
func LoadWorld() (*World, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Dir:  repoDir,
		Fset: fset,
		Mode: packages.LoadAllSyntax | packages.NeedModule | packages.NeedEmbedFiles,
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			f, err := parser.ParseFile(fset, filename, src, parser.ParseComments|parser.SkipObjectResolution)
			if f != nil && !strings.HasPrefix(filename, repoDir+"/") && !pureFile(filename) {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						fd.Body = nil
					}
				}
			}
			return f, err
		},
	}
	pats := []string{"./pkg/...", "./cmd/...", "github.com/google/uuid", "cloud.google.com/go/civil", "encoding/json", "time", "errors", "fmt", "context", "encoding/binary", "math", "strconv", "bytes", "sort", "sync", "strings", "encoding/base64", "reflect", "io", "slices", "maps", "regexp", "unicode", "unicode/utf8"}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	w := &World{Fset: fset, Pkgs: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{}, T: NewTerms(), Extra: map[string]bool{}, built: map[string]bool{},
		frameIDs: map[string]int{}, fnsSeen: map[*ssa.Function]bool{}, callSites: map[ssa.Instruction]bool{}}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		w.Pkgs[p.PkgPath] = p
		if strings.HasPrefix(p.PkgPath, Mod) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
			w.Repo = append(w.Repo, p)
		}
	})
	sort.Slice(w.Repo, func(i, j int) bool { return w.Repo[i].PkgPath < w.Repo[j].PkgPath })
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	if len(w.Repo) < 15 {
		return nil, fmt.Errorf("only %d repository packages found", len(w.Repo))
	}
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics)
	isRepo := map[*types.Package]bool{}
	for _, p := range w.Repo {
		isRepo[p.Types] = true
	}
	// create all packages; only repository ones get bodies
	packages.Visit(ps, nil, func(p *packages.Package) {
		if p.Types == nil {
			return
		}
		if isRepo[p.Types] || pureLib[p.PkgPath] {
			w.SSA[p.PkgPath] = prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
		} else {
			w.SSA[p.PkgPath] = prog.CreatePackage(p.Types, nil, nil, true)
		}
	})
	for _, p := range w.Repo {
		w.SSA[p.PkgPath].Build()
	}
	w.Prog = prog
	unset := w.unsetErrors()
	w.T.Unset = func(name string) bool { return unset[name] }
	return w, nil
}

// pureLib lists the standard library packages whose bodies the folding machine
// may interpret when it has no model of a function.
var pureLib = map[string]bool{"strings": true, "slices": true, "maps": true, "sort": true, "cmp": true, "iter": true, "unicode": true,
	"unicode/utf8": true, "path": true, "bytes": true, "strconv": true, "container/list": true}

func pureFile(filename string) bool {
	i := strings.LastIndex(filename, "/src/")
	return i >= 0 && !strings.Contains(filename, "@") && pureLib[filepath.Dir(filename[i+5:])]
}

func (w *World) InScope(f *ssa.Function) bool {
	p := w.FnPkgPath(f)
	return strings.HasPrefix(p, Mod) || w.Extra[p]
}

func (w *World) FnPkgPath(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil && f.Origin() != f {
		return w.FnPkgPath(f.Origin())
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if f.Signature.Recv() != nil {
		t := f.Signature.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

// Funcs returns all source functions (incl. methods and closures) of packages
// whose path has the prefix, in deterministic order.
func (w *World) Funcs(prefixes ...string) []*ssa.Function {
	all := ssautil.AllFunctions(w.Prog)
	var out []*ssa.Function
	for f := range all {
		if len(f.Blocks) == 0 || f.Synthetic != "" && f.Parent() == nil && f.Syntax() == nil {
			continue
		}
		p := w.FnPkgPath(f)
		for _, x := range prefixes {
			if p == x || strings.HasPrefix(p, x+"/") {
				out = append(out, f)
				break
			}
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Pos() != out[j].Pos() {
			return out[i].Pos() < out[j].Pos()
		}
		return out[i].String() < out[j].String()
	})
	return out
}

func (w *World) Pkg(rel string) *packages.Package { return w.Pkgs[Mod+"/"+rel] }

// Func finds a package function "rel/pkg", "Name" or method "Type.Name".
func (w *World) Func(pkgPath, name string) *ssa.Function {
	sp := w.SSA[pkgPath]
	if sp == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		o := sp.Pkg.Scope().Lookup(name[:i])
		if o == nil {
			return nil
		}
		for _, t := range []types.Type{types.NewPointer(o.Type()), o.Type()} {
			if s := w.Prog.MethodSets.MethodSet(t).Lookup(sp.Pkg, name[i+1:]); s != nil {
				f := w.Prog.MethodValue(s)
				if f != nil && f.Synthetic != "" { // pointer wrapper of a value method
					if g := w.Prog.FuncValue(s.Obj().(*types.Func)); g != nil {
						return g
					}
				}
				return f
			}
		}
		return nil
	}
	return sp.Func(name)
}

func (w *World) PosStr(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := w.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, repoDir+"/"), ps.Line)
}

// ---- reporting --------------------------------------------------------------

type Finding struct {
	Key    string `json:"key"` // rule + construct, independent of line numbers
	Where  string `json:"where"`
	Detail string `json:"detail"`
}

type Report struct {
	optMem   []map[*Term]*Term
	ID       string
	Tier     string
	W        *World
	Findings []Finding
	Counts   map[string]int
	Notes    []string
	Samples  []string
	start    time.Time
	seen     map[string]bool
	in       []*Interp
}

func (r *Report) Count(what string, n int) { r.Counts[what] += n }

func (r *Report) Note(format string, a ...any) { r.Notes = append(r.Notes, fmt.Sprintf(format, a...)) }
func (r *Report) Sample(format string, a ...any) {
	if len(r.Samples) < 40 {
		r.Samples = append(r.Samples, fmt.Sprintf(format, a...))
	}
}

func (r *Report) Fail(key string, pos token.Pos, format string, a ...any) {
	r.FailAt(key, r.W.PosStr(pos), format, a...)
}
func (r *Report) FailAt(key, where, format string, a ...any) {
	if r.seen[key] {
		return
	}
	r.seen[key] = true
	r.Findings = append(r.Findings, Finding{key, where, fmt.Sprintf(format, a...)})
}

// Floor fails when fewer instances of a rule were found than confirmed by hand.
func (r *Report) Floor(what string, min int) {
	if r.Counts[what] < min {
		r.FailAt("floor:"+what, "-", "rule instances vanished: %d %q found, at least %d confirmed on the reference tree; the rule cannot be decided", r.Counts[what], what, min)
	}
}

func (r *Report) Interp() *Interp {
	in := NewInterp(r.W)
	if r.Tier == "thorough" {
		in.MaxForks = 3
	}
	r.in = append(r.in, in)
	return in
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// known findings: lines "finding: property=<id> key=<key> :: <what fails>"
func loadKnown(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		pre := "finding: property=" + id + " key="
		if strings.HasPrefix(l, pre) {
			rest := l[len(pre):]
			k, what, _ := strings.Cut(rest, " :: ")
			m[strings.TrimSpace(k)] = what
		}
	}
	return m
}

func (r *Report) Finish() int {
	for _, in := range r.in {
		for _, u := range in.Undecided {
			r.FailAt("undecided:"+u, "-", "analysis could not decide: %s", u)
		}
	}
	known := loadKnown(r.ID)
	var viol []Finding
	knownHit := map[string]bool{}
	for _, f := range r.Findings {
		if what, ok := known[f.Key]; ok {
			knownHit[f.Key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s at %s]\n", r.ID, what, f.Key, f.Where)
			continue
		}
		viol = append(viol, f)
	}
	paths := 0
	for _, in := range r.in {
		paths += in.Paths
	}
	if paths > 0 {
		r.Counts["paths explored"] = paths
		r.Counts["functions interpreted"] = len(r.W.fnsSeen)
		r.Counts["call sites evaluated"] = len(r.W.callSites)
	}
	cov := map[string]any{
		"explanation":     propertyRule[r.ID],
		"packages_loaded": len(r.W.Repo),
	}
	for k, v := range r.Counts {
		cov[strings.ReplaceAll(k, " ", "_")] = v
	}
	if len(r.Samples) > 0 {
		cov["samples"] = r.Samples
	}
	if len(r.Notes) > 0 {
		cov["notes"] = r.Notes
	}
	if len(knownHit) > 0 {
		var ks []string
		for k := range knownHit {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		cov["known_findings"] = ks
	}
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	ev := map[string]any{
		"property": r.ID, "tier": r.Tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": time.Since(r.start).Seconds(), "violations": len(viol),
		"assumptions": assumptions,
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, r.ID+".json"), b, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	replay := filepath.Join(dir, r.ID+".report.txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\n", r.ID)
	for _, f := range viol {
		fmt.Fprintf(&sb, "\n[%s]\n  at %s\n  %s\n", f.Key, f.Where, f.Detail)
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	if len(viol) > 0 {
		for _, f := range viol {
			fmt.Printf("%s: [%s] %s\n", f.Where, f.Key, f.Detail)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, replay)
		return 1
	}
	fmt.Printf("OK property=%s", r.ID)
	var ks []string
	for k := range r.Counts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf(" %s=%d", strings.ReplaceAll(k, " ", "_"), r.Counts[k])
	}
	fmt.Println()
	return 0
}

var assumptions = []string{
	"the Go type checker and SSA builder of golang.org/x/tools represent the compiled program",
	"library functions behave as documented (summaries in the checker); reflection and unsafe code do not change the analysed state",
	"unbounded loops are explored up to the stated number of undecided iterations",
}
