package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"text/template/parse"
)

func init() {
	register("C23", "the generator's code and templates are partially evaluated over one document shape per combination of features the templates distinguish; every expansion must parse and type-check against the runtime library (its imports resolved as goimports does), also when types, application and user sides are generated into separate files; no shape may make the generator fail, panic or use an undefined template, function or field", ruleTypecheck)
}

// expansions gives the expansions that type-check; the others are C23's.
func (r *Report) expansions(pred func(Shape) bool) []*Expansion {
	var out []*Expansion
	for _, sh := range allShapes() {
		if pred != nil && !pred(sh) {
			continue
		}
		x := r.W.Expand(sh)
		if x.Err != nil || len(x.TypeErr) > 0 {
			r.Count("shapes not expanded", 1)
			// only what C23 has on record may be missing
			sub := &Report{W: r.W, ID: "C23", seen: map[string]bool{}, Counts: map[string]int{}}
			sub.failExpansion(sh.key(), x)
			known := loadKnown("C23")
			for _, f := range sub.Findings {
				if known[f.Key] == "" {
					r.FailAt("not expanded:"+f.Key, f.Where, "cannot be decided for shape %s: %s", sh.key(), f.Detail)
				}
			}
			continue
		}
		r.Count("shapes expanded", 1)
		out = append(out, x)
	}
	return out
}

func (sh Shape) key() string { return fmt.Sprintf("%s.v%d", sh.Name, sh.Major) }

func ruleTypecheck(r *Report) {
	for _, sh := range allShapes() {
		x := r.W.Expand(sh)
		r.Count("document shapes", 1)
		r.failExpansion(sh.key(), x)
		if x.Err == nil {
			r.Count("declarations type-checked", len(x.File.Decls))
		}
	}
	// the three generation targets in separate files of one package
	for _, maj := range []int{2, 3} {
		for _, n := range []string{"plain", "reqrep", "typesonly"} {
			base := shapeNamed(n, maj)
			var files []*ast.File
			ok := true
			for _, tgt := range []string{"Types", "Application", "User"} {
				sh := base
				sh.Name += "/" + tgt
				sh.Targets = []string{tgt}
				x := r.W.foldShape(sh)
				r.Count("document shapes", 1)
				if x.Err != nil {
					r.failExpansion(sh.key(), x)
					ok = false
					continue
				}
				f, err := parser.ParseFile(r.W.Fset, "/expansion/"+sh.key()+".go", x.Text, parser.SkipObjectResolution)
				if err != nil {
					r.FailAt(sh.key()+":parse", "-", "the generated file does not parse: %v", err)
					ok = false
					continue
				}
				r.W.addImports(f)
				files = append(files, f)
			}
			if !ok {
				continue
			}
			conf := types.Config{Importer: worldImporter{r.W}, Error: func(err error) {
				if te, ok := err.(types.Error); ok && !strings.Contains(te.Msg, "imported and not used") {
					r.Fail(fmt.Sprintf("%s/separate.v%d:%s", n, maj, te.Msg), te.Pos, "types, application and user sides generated separately do not form a package: %s", te.Msg)
				}
			}}
			conf.Check("gen/separate", r.W.Fset, files, nil)
		}
	}
	r.checkTemplateNames()
	cov := map[string][2]int{}
	for _, sh := range allShapes() {
		for k, b := range r.W.Expand(sh).Branch {
			c := cov[k]
			c[0] += b[0]
			c[1] += b[1]
			cov[k] = c
		}
	}
	var one []string
	for k, c := range cov {
		r.Count("template conditions", 1)
		if c[0] == 0 || c[1] == 0 {
			one = append(one, k)
		}
	}
	sort.Strings(one)
	r.Note("template conditions that no shape takes both ways: %s", strings.Join(one, ", "))
	r.Floor("document shapes", 230)
	r.Floor("template conditions", 150)
}

func (r *Report) failExpansion(key string, x *Expansion) {
	switch {
	case x.Panic != nil:
		r.Fail(key+":panic", x.Panic.pos, "shape %s: the generator panics: %s (%s)", key, x.Panic.msg, strings.Join(x.Panic.stack, " > "))
	case x.Err != nil:
		r.FailAt(key+":error", "-", "shape %s: %v", key, x.Err)
	}
	for _, e := range x.TypeErr {
		msg := regexp.MustCompile(`\s+`).ReplaceAllString(e.Msg, " ")
		r.Fail(key+":"+firstWords(msg), e.Pos, "shape %s: the generated code does not compile (in %s): %s", key, enclosing(x.File, e.Pos), msg)
	}
}

// firstWords is the kind of a type checker's message, without the names in it.
func firstWords(s string) string {
	s, _, _ = strings.Cut(s, " in call to")
	return strings.TrimSpace(regexp.MustCompile(`^[a-z ]*[a-z]\b`).FindString(s))
}

func enclosing(f *ast.File, p token.Pos) string {
	for _, d := range f.Decls {
		if d.Pos() <= p && p < d.End() {
			switch x := d.(type) {
			case *ast.FuncDecl:
				return x.Name.Name
			case *ast.GenDecl:
				for _, s := range x.Specs {
					if t, ok := s.(*ast.TypeSpec); ok && s.Pos() <= p && p < s.End() {
						return t.Name.Name
					}
				}
				return x.Tok.String()
			}
		}
	}
	return "file"
}

// checkTemplateNames checks the parts of templates no shape reaches: every
// template they name must be defined in the same set.
func (r *Report) checkTemplateNames() {
	for _, maj := range []string{"v2", "v3"} {
		dir := filepath.Join(repoDir, "pkg/codegen/generators", maj, "templates")
		defined := map[string]bool{}
		type use struct{ file, name string }
		var uses []use
		filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err != nil || !strings.HasSuffix(p, ".tmpl") {
				return nil
			}
			b, _ := os.ReadFile(p)
			t := parse.New(filepath.Base(p))
			t.Mode = parse.SkipFuncCheck
			set := map[string]*parse.Tree{}
			rel, _ := filepath.Rel(repoDir, p)
			if _, err := t.Parse(string(b), "", "", set); err != nil {
				r.FailAt("template:"+rel, rel, "the template does not parse: %v", err)
				return nil
			}
			defined[filepath.Base(p)] = true
			for n, tr := range set {
				defined[n] = true
				r.Count("templates", 1)
				var walk func(n parse.Node)
				list := func(l *parse.ListNode) {
					if l != nil {
						for _, n := range l.Nodes {
							walk(n)
						}
					}
				}
				walk = func(n parse.Node) {
					switch x := n.(type) {
					case *parse.ListNode:
						list(x)
					case *parse.TemplateNode:
						uses = append(uses, use{rel, x.Name})
						r.Count("template invocations", 1)
					case *parse.IfNode:
						list(x.List)
						list(x.ElseList)
					case *parse.RangeNode:
						list(x.List)
						list(x.ElseList)
					case *parse.WithNode:
						list(x.List)
						list(x.ElseList)
					}
				}
				if tr.Root != nil {
					walk(tr.Root)
				}
			}
			return nil
		})
		for _, u := range uses {
			if !defined[u.name] {
				r.FailAt("template-undefined:"+u.file+":"+u.name, u.file, "template %q is invoked but not defined", u.name)
			}
		}
	}
	r.Floor("templates", 20)
	r.Floor("template invocations", 30)
}
