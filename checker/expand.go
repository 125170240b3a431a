package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Expansion is the program the templates produce for one document shape.
type Expansion struct {
	Shape   Shape
	Text    string
	Err     error      // the generator reports an error
	Panic   *foldPanic // the generator panics
	TypeErr []types.Error
	Pkg     *types.Package
	Info    *types.Info
	File    *ast.File
	SSA     *ssa.Package
	Branch  map[string][2]int
}

// fold runs Generate over a shape.
func (w *World) foldShape(sh Shape) *Expansion { return w.foldShapeWith(sh, nil) }

func (w *World) foldShapeWith(sh Shape, setup func(m *Machine)) *Expansion {
	x := &Expansion{Shape: sh}
	doc := sh.Doc
	if doc == nil {
		var err error
		if doc, err = parseYAML(sh.YAML); err != nil {
			x.Err = fmt.Errorf("shape %s: %v", sh.Name, err)
			return x
		}
	}
	data, _ := json.Marshal(doc)
	m := NewMachine(w)
	if setup != nil {
		setup(m)
	}
	x.Branch = m.Branch
	parse := w.Func(Mod+"/pkg/asyncapi/parser", "FromJSON")
	newFn := w.Func(Mod+"/pkg/codegen", "New")
	gen := w.Func(Mod+"/pkg/codegen", "CodeGen.Generate")
	if parse == nil || newFn == nil || gen == nil {
		x.Err = fmt.Errorf("the generator's entry points are not resolved")
		return x
	}
	v, err, p := m.Try(func() any {
		prm := zeroVal(parse.Signature.Params().At(0).Type()).(*VStruct)
		setField(prm, "Data", bytesVal(data))
		t := m.Call(parse, prm).(VTuple)
		if t[1] != nil {
			return t[1]
		}
		t = m.Call(newFn, t[0]).(VTuple)
		if t[1] != nil {
			return t[1]
		}
		o := map[string]any{"OutputPath": "out.go", "PackageName": "gen", "ConvertKeys": "none", "NamingScheme": "none"}
		gopt := map[string]any{"Application": true, "User": true, "Types": true}
		if sh.Targets != nil {
			gopt = map[string]any{"Application": false, "User": false, "Types": false}
			for _, t := range sh.Targets {
				gopt[t] = true
			}
		}
		if sh.Opts != nil {
			sh.Opts(o)
		}
		ov := zeroVal(gen.Signature.Params().At(0).Type()).(*VStruct)
		for k, val := range o {
			setField(ov, k, val)
		}
		g := getField(ov, "Generate")
		for k, val := range gopt {
			setField(g.(*VStruct), k, val)
		}
		return m.Call(gen, t[0], ov)
	})
	x.Panic = p
	if err != nil {
		x.Err = err
		return x
	}
	if v != nil {
		x.Err = fmt.Errorf("%s", m.show(v))
		return x
	}
	x.Text = m.Written["out.go"]
	if x.Text == "" {
		x.Err = fmt.Errorf("nothing was written")
	}
	return x
}

func setField(s *VStruct, name string, v any) {
	st := s.T.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			s.F[i].V = v
			return
		}
	}
	unsup("no field %s in %s", name, s.T)
}

func getField(s *VStruct, name string) any {
	st := s.T.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return s.F[i].V
		}
	}
	unsup("no field %s in %s", name, s.T)
	return nil
}

type worldImporter struct{ w *World }

func (i worldImporter) Import(p string) (*types.Package, error) {
	if q := i.w.Pkgs[p]; q != nil && q.Types != nil {
		return q.Types, nil
	}
	return nil, fmt.Errorf("package %s is not available", p)
}

// Expand folds the generator over a shape, type-checks the outcome and builds
// its SSA form.
func (w *World) Expand(sh Shape) *Expansion {
	if w.exp == nil {
		w.exp = map[string]*Expansion{}
	}
	key := fmt.Sprintf("%s.v%d", sh.Name, sh.Major)
	if x := w.exp[key]; x != nil {
		return x
	}
	x := w.foldShape(sh)
	w.exp[key] = x
	if x.Err != nil {
		return x
	}
	w.typecheck(x, "gen/"+key)
	return x
}

func (w *World) typecheck(x *Expansion, path string) {
	f, err := parser.ParseFile(w.Fset, "/expansion/"+path+".go", x.Text, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		x.Err = fmt.Errorf("the generated file does not parse: %v", err)
		return
	}
	w.addImports(f)
	x.File = f
	x.Info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
	conf := types.Config{Importer: worldImporter{w}, Error: func(err error) {
		if te, ok := err.(types.Error); ok && !strings.Contains(te.Msg, "imported and not used") {
			x.TypeErr = append(x.TypeErr, te)
		}
	}}
	x.Pkg, _ = conf.Check(path, w.Fset, []*ast.File{f}, x.Info)
	if len(x.TypeErr) > 0 {
		return
	}
	x.SSA = w.Prog.CreatePackage(x.Pkg, []*ast.File{f}, x.Info, false)
	x.SSA.Build()
	w.Extra[path] = true
	w.SSA[path] = x.SSA
}

// addImports does what goimports does for the standard library: a qualifier
// with no import gets the standard package of that name.
func (w *World) addImports(f *ast.File) {
	have := map[string]bool{}
	// identical imports are merged by goimports
	dup := map[string]bool{}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			var keep []ast.Spec
			for _, s := range g.Specs {
				im := s.(*ast.ImportSpec)
				k := im.Path.Value
				if im.Name != nil {
					k = im.Name.Name + k
				}
				if !dup[k] {
					keep = append(keep, s)
				}
				dup[k] = true
			}
			g.Specs = keep
		}
	}
	for _, im := range f.Imports {
		p := strings.Trim(im.Path.Value, `"`)
		n := filepath.Base(p)
		if q := w.Pkgs[p]; q != nil {
			n = q.Name
		}
		if im.Name != nil {
			n = im.Name.Name
		}
		have[n] = true
	}
	decl := map[string]bool{}
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.GenDecl:
			for _, s := range x.Specs {
				switch y := s.(type) {
				case *ast.TypeSpec:
					decl[y.Name.Name] = true
				case *ast.ValueSpec:
					for _, n := range y.Names {
						decl[n.Name] = true
					}
				}
			}
		case *ast.FuncDecl:
			decl[x.Name.Name] = true
		}
	}
	std := map[string]string{}
	var paths []string
	for p := range w.Pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		if !strings.Contains(strings.SplitN(p, "/", 2)[0], ".") && !strings.Contains(p, "internal") && !strings.HasPrefix(p, "vendor") {
			if _, ok := std[w.Pkgs[p].Name]; !ok {
				std[w.Pkgs[p].Name] = p
			}
		}
	}
	need := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok && !have[id.Name] && !decl[id.Name] && std[id.Name] != "" && ast.IsExported(s.Sel.Name) {
				need[id.Name] = true
			}
		}
		return true
	})
	// only names no local object shadows; an unused import is not an error here
	var specs []ast.Spec
	for _, n := range sortedKeys(need) {
		sp := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: `"` + std[n] + `"`}}
		specs = append(specs, sp)
		f.Imports = append(f.Imports, sp)
	}
	if len(specs) > 0 {
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Specs: specs, Rparen: 1}}, f.Decls...)
	}
}
