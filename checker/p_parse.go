package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C28", "the paths of the parser are interpreted: a document is only accepted knowing its version is among the supported ones, or having none under an imposed version; and constant propagation folds the parser over a table of version strings, imposed versions, file kinds and combinations of files, and the generator over every supported version, to see which model and which generator each reaches", ruleVersions)
}

var publishedVersion = regexp.MustCompile(`^(2\.[0-6]\.0|3\.[01]\.0)$`)

// documents of a version, in JSON; the version is any JSON value, or absent.
func versionDoc(version any, declared bool, extra map[string]any) []byte {
	d := map[string]any{"info": map[string]any{"title": "t", "version": "1"}}
	if declared {
		d["asyncapi"] = version
	}
	for k, v := range extra {
		d[k] = v
	}
	b, _ := json.Marshal(d)
	return b
}

// versionText is the same document in the format of the file's name.
func versionText(name, version string, declared bool, extra map[string]any) string {
	if !strings.HasSuffix(name, ".yaml") && !strings.HasSuffix(name, ".yml") {
		return string(versionDoc(version, declared, extra))
	}
	s := "info:\n  title: t\n  version: \"1\"\n"
	if declared {
		s += "asyncapi: \"" + version + "\"\n"
	}
	for _, k := range sortedKeys(extra) {
		b, _ := json.Marshal(extra[k])
		s += k + ": " + string(b) + "\n"
	}
	return s
}

func majorOf(v any) int {
	s, ok := v.(string)
	if !ok {
		return 0
	}
	if s == "" || s[0] != '2' && s[0] != '3' {
		return 0
	}
	return int(s[0] - '0')
}

func ruleVersions(r *Report) {
	w := r.W
	parse := w.Func(parserPath, "FromJSON")
	file := w.Func(codegenPath, "FromFile")
	gen := w.Func(codegenPath, "CodeGen.Generate")
	var list *ssa.Global
	if p := w.SSA[asyncPath]; p != nil {
		list = p.Var("SupportedVersions")
	}
	if parse == nil || file == nil || gen == nil || list == nil {
		r.FailAt("undecided:anchors", "-", "FromJSON, FromFile, CodeGen.Generate or SupportedVersions is not resolved")
		return
	}
	// the list
	supported := map[string]bool{}
	m := NewMachine(w)
	if _, err, _ := m.Try(func() any {
		m.init(w.SSA[asyncPath])
		for _, s := range strsOf(m.global(list).V) {
			supported[s] = true
		}
		return nil
	}); err != nil {
		r.Fail("undecided:list", list.Pos(), "the list of supported versions could not be folded: %v", err)
		return
	}
	for _, s := range sortedKeys(supported) {
		r.Count("supported versions", 1)
		if !publishedVersion.MatchString(s) {
			r.Fail("list:unknown:"+s, list.Pos(), "%q, listed as supported, is no published version of a supported generation of AsyncAPI", s)
		}
	}
	for _, s := range []string{"2.0.0", "2.1.0", "2.2.0", "2.3.0", "2.4.0", "2.5.0", "2.6.0", "3.0.0"} {
		if !supported[s] {
			r.Fail("list:missing:"+s, list.Pos(), "the version %s is not supported any more", s)
		}
	}

	// one document
	type decl struct {
		v        any
		declared bool
	}
	var decls []decl
	for _, s := range sortedKeys(supported) {
		decls = append(decls, decl{s, true})
	}
	for _, s := range []string{"1.0.0", "1.1.0", "1.2.0", "4.0.0", "3.2.0", "2.7.0", "2.6.1", "3.0.1", "", "2", "3", "2.0", "3.0", "2.6", "v2.6.0", "2.6.0 ", " 3.0.0", "3.0.0-rc1",
		"2.6.0+x", "02.6.0", "20.0.0", "2.60.0", "30.0.0", "2.0.00", "3,0,0", "latest", "x.y.z", "0.0.0", "-3.0.0", "２.0.0"} {
		decls = append(decls, decl{s, true})
	}
	for _, v := range []any{3.0, 2.6, true, nil, []any{"3.0.0"}, map[string]any{"version": "3.0.0"}} {
		decls = append(decls, decl{v, true})
	}
	decls = append(decls, decl{nil, false})
	for _, d := range decls {
		for _, imposed := range []int{0, 2, 3, 1, 4, -2} {
			s, _ := d.v.(string)
			ok := d.declared && supported[s] && (imposed == 0 || imposed == majorOf(d.v))
			major := majorOf(d.v)
			if !d.declared && (imposed == 2 || imposed == 3) {
				ok, major = true, imposed
			}
			what := fmt.Sprintf("a document of version %#v", d.v)
			if !d.declared {
				what = "a document without version"
			}
			if imposed != 0 {
				what += fmt.Sprintf(" under the imposed major version %d", imposed)
			}
			m := NewMachine(w)
			v, err, p := m.Try(func() any {
				prm := zeroVal(parse.Signature.Params().At(0).Type()).(*VStruct)
				setField(prm, "Data", bytesVal(versionDoc(d.v, d.declared, nil)))
				setField(prm, "MajorVersion", int64(imposed))
				return m.Call(parse, prm)
			})
			r.Count("documents folded", 1)
			key := fmt.Sprintf("%v:%d", d.v, imposed)
			if !d.declared {
				key = fmt.Sprintf("none:%d", imposed)
			}
			if p != nil {
				r.Fail("parse:panic:"+key, parse.Pos(), "%s makes the parser panic: %v", what, p)
				continue
			}
			if err != nil {
				r.Fail("undecided:parse:"+key, parse.Pos(), "the parser could not be folded over %s: %v", what, err)
				continue
			}
			t := v.(VTuple)
			switch {
			case ok && t[1] != nil:
				r.Fail("parse:refused:"+key, parse.Pos(), "%s is refused: %s", what, m.show(t[1]))
			case !ok && t[1] == nil:
				r.Fail("parse:accepted:"+key, parse.Pos(), "%s is accepted", what)
			case ok:
				if got := r.specMajor(m, t[0]); got != major {
					r.Fail("parse:model:"+key, parse.Pos(), "%s is parsed with the model of version %d", what, got)
				}
			}
		}
	}

	// files and their dependencies
	read := func(what, key string, want bool, files map[string]string, paths ...string) any {
		m := NewMachine(w)
		m.Files = files
		v, err, p := m.Try(func() any { return m.Call(file, paths[0], strsVal(paths[1:])) })
		r.Count("combinations of files folded", 1)
		if p != nil {
			r.Fail("files:panic:"+key, file.Pos(), "%s makes the loading panic: %v", what, p)
			return nil
		}
		if err != nil {
			r.Fail("undecided:files:"+key, file.Pos(), "the loading of %s could not be folded: %v", what, err)
			return nil
		}
		t := v.(VTuple)
		if want && t[1] != nil {
			r.Fail("files:refused:"+key, file.Pos(), "%s is refused: %s", what, m.show(t[1]))
		} else if !want && t[1] == nil {
			r.Fail("files:accepted:"+key, file.Pos(), "%s is accepted", what)
		} else if want {
			return t[0]
		}
		return nil
	}
	type doc struct {
		v        string
		declared bool
	}
	docs := []doc{{"2.0.0", true}, {"2.6.0", true}, {"3.0.0", true}, {"1.2.0", true}, {"4.0.0", true}, {"", false}}
	for _, a := range docs {
		text := func(name string) string { return versionText(name, a.v, a.declared, nil) }
		good := a.declared && supported[a.v]
		for _, ext := range []string{".json", ".yaml", ".yml"} {
			read(fmt.Sprintf("a %s document of version %q", ext, a.v), a.v+ext, good, map[string]string{"main" + ext: text("main" + ext)}, "main"+ext)
		}
		for _, ext := range []string{".txt", "", ".yaml.bak", ".xml", "json"} {
			read(fmt.Sprintf("a file named %q", "main"+ext), "ext"+ext, false, map[string]string{"main" + ext: text("main" + ext)}, "main"+ext)
		}
		read("a missing file", "missing", false, map[string]string{}, "main.yaml")
		read("a document with a missing dependency", "missing dependency", false, map[string]string{"main.json": text("main.json")}, "main.json", "dep.json")
		for _, b := range docs {
			fits := good && (!b.declared || supported[b.v] && majorOf(a.v) == majorOf(b.v))
			for _, dep := range []string{"dep.json", "./dep.yaml"} {
				read(fmt.Sprintf("a document of version %q with a dependency of version %q", a.v, b.v), a.v+"+"+b.v, fits,
					map[string]string{"main.yaml": text("main.yaml"), dep: versionText(dep, b.v, b.declared, nil)}, "main.yaml", dep)
			}
			// the last of several dependencies
			if good {
				read(fmt.Sprintf("a document of version %q with a second dependency of version %q", a.v, b.v), a.v+"++"+b.v, fits,
					map[string]string{"main.yaml": text("main.yaml"), "one.json": text("one.json"), "two.json": versionText("two.json", b.v, b.declared, nil)}, "main.yaml", "one.json", "two.json")
			}
		}
	}

	// generation: the generator of the version, and dependencies known by their path
	names := map[int]*ssa.Function{}
	for _, n := range []int{2, 3} {
		names[n] = w.Func(fmt.Sprintf("%s/generators/v%d", codegenPath, n), "Generator.Generate")
		if names[n] == nil {
			r.FailAt("undecided:generators", "-", "the generator of version %d is not resolved", n)
			return
		}
	}
	for _, s := range sortedKeys(supported) {
		n := majorOf(s)
		for _, dep := range []string{"", "dep.json", "./dep.json", "dir/dep.yaml"} {
			refs := []string{"#/components/messages/evt"}
			files := map[string]string{}
			comp := map[string]any{"components": map[string]any{"messages": map[string]any{"evt": map[string]any{"payload": map[string]any{"type": "string"}}}}}
			if dep != "" {
				refs = []string{strings.TrimPrefix(dep, "./") + refs[0], "./" + strings.TrimPrefix(dep, "./") + refs[0]}
				files[dep] = versionText(dep, s, true, comp)
			}
			for _, ref := range refs {
				extra := map[string]any{}
				if dep == "" {
					extra["components"] = comp["components"]
				}
				if n == 2 {
					extra["channels"] = map[string]any{"ch": map[string]any{"publish": map[string]any{"message": map[string]any{"$ref": ref}}}}
				} else {
					extra["channels"] = map[string]any{"ch": map[string]any{"address": "ch", "messages": map[string]any{"evt": map[string]any{"$ref": ref}}}}
					extra["operations"] = map[string]any{"op": map[string]any{"action": "receive", "channel": map[string]any{"$ref": "#/channels/ch"},
						"messages": []any{map[string]any{"$ref": "#/channels/ch/messages/evt"}}}}
				}
				files["main.json"] = string(versionDoc(s, true, extra))
				paths := []string{"main.json"}
				if dep != "" {
					paths = append(paths, dep)
				}
				what := fmt.Sprintf("a document of version %s referring to %q", s, ref)
				key := fmt.Sprintf("%d:%s", n, ref)
				m := NewMachine(w)
				m.Files = files
				m.Seen = map[*ssa.Function]bool{}
				v, err, p := m.Try(func() any {
					t := m.Call(file, paths[0], strsVal(paths[1:])).(VTuple)
					if t[1] != nil {
						return t[1]
					}
					ov := zeroVal(gen.Signature.Params().At(0).Type()).(*VStruct)
					for k, x := range map[string]any{"OutputPath": "out.go", "PackageName": "gen", "ConvertKeys": "none", "NamingScheme": "none"} {
						setField(ov, k, x)
					}
					g := getField(ov, "Generate").(*VStruct)
					for _, k := range []string{"Application", "User", "Types"} {
						setField(g, k, true)
					}
					return m.Call(gen, t[0], ov)
				})
				r.Count("generations folded", 1)
				switch {
				case p != nil:
					r.Fail("generate:panic:"+key, gen.Pos(), "the generation of %s panics: %v", what, p)
				case err != nil:
					r.Fail("undecided:generate:"+key, gen.Pos(), "the generation of %s could not be folded: %v", what, err)
				case v != nil:
					r.Fail("generate:refused:"+key, gen.Pos(), "the generation of %s is refused: %s", what, m.show(v))
				default:
					for k, f := range names {
						if m.Seen[f] != (k == n) {
							r.Fail("generate:generator:"+key, gen.Pos(), "the code of %s: generator of version %d used: %v", what, k, m.Seen[f])
						}
					}
					if !strings.Contains(m.Written["out.go"], `"`+s+`"`) && !strings.Contains(m.Written["out.go"], "AsyncAPIVersion") {
						r.Fail("generate:output:"+key, gen.Pos(), "the generation of %s writes nothing of it", what)
					}
				}
			}
		}
	}

	// the model of another version is refused wherever a specification is taken
	for _, n := range []int{2, 3} {
		pkg := fmt.Sprintf("%s/v%d", asyncPath, n)
		own, other := w.Func(pkg, "NewSpecification"), w.Func(fmt.Sprintf("%s/v%d", asyncPath, 5-n), "NewSpecification")
		from, add := w.Func(pkg, "FromUnknownVersion"), w.Func(pkg, "Specification.AddDependency")
		if own == nil || other == nil || from == nil || add == nil {
			r.FailAt(fmt.Sprintf("undecided:model:%d", n), "-", "the constructor, conversion or AddDependency of the model of version %d is not resolved", n)
			continue
		}
		for _, o := range []*ssa.Function{own, other} {
			m := NewMachine(w)
			v, err, p := m.Try(func() any {
				s := m.Call(o)
				box := &VIface{T: o.Signature.Results().At(0).Type(), V: s}
				t := m.Call(from, box).(VTuple)
				base := m.Call(own)
				e := m.Call(add, base, "dep.yaml", box)
				return VTuple{t[1], e, t[0] == s}
			})
			r.Count("models folded", 1)
			if p != nil || err != nil {
				r.Fail(fmt.Sprintf("undecided:convert:%d", n), from.Pos(), "the conversion between models could not be folded: %v%v", err, p)
				continue
			}
			t := v.(VTuple)
			if (t[0] == nil) != (o == own) || o == own && t[2] != true {
				r.Fail(fmt.Sprintf("convert:%d", n), from.Pos(), "FromUnknownVersion of version %d accepts the other model, or refuses or replaces its own", n)
			}
			if (t[1] == nil) != (o == own) {
				r.Fail(fmt.Sprintf("dependency:%d", n), add.Pos(), "AddDependency of version %d accepts the other model, or refuses its own", n)
			}
		}
	}
	r.acceptance(parse, list)
	r.Floor("supported versions", 8)
	r.Floor("documents folded", 250)
	r.Floor("combinations of files folded", 100)
	r.Floor("generations folded", 48)
	r.Floor("paths that accept a document", 2)
}

// specMajor is the version of the model a specification value is made of; -1
// if it does not agree with what it says of itself.
func (r *Report) specMajor(m *Machine, v any) int {
	i, _ := v.(*VIface)
	if i == nil {
		return -1
	}
	n := 0
	for _, k := range []int{2, 3} {
		if strings.Contains(types.TypeString(i.T, nil), fmt.Sprintf("%s/v%d.Specification", asyncPath, k)) {
			n = k
		}
	}
	fn := r.W.MethodOf(i.T, "MajorVersion")
	if fn == nil {
		return -1
	}
	if got, err, _ := m.Try(func() any { return m.Call(fn, i.V) }); err != nil || toInt(got) != int64(n) {
		return -1
	}
	return n
}

// acceptance: whatever the version string, a document is only accepted on a
// path that asked for it among the supported versions, or found none.
func (r *Report) acceptance(parse *ssa.Function, list *ssa.Global) {
	in := r.Interp()
	in.Opaque = map[string]bool{asyncPath + ".IsVersionSupported": true}
	in.Inline = func(g *ssa.Function) bool { return r.W.FnPkgPath(g) == parserPath }
	in.NoHavoc = func(e *Event) bool { return true }
	args := in.ParamTerms(parse)
	for _, t := range in.Run(parse, args, nil, nil) {
		if t.Exit == "panic" {
			continue
		}
		if t.Exit != "return" || len(t.Ret) != 2 {
			r.Fail("undecided:acceptance", parse.Pos(), "a path of the parser could not be followed")
			continue
		}
		if t.nonNilErr(t.Ret[1]) {
			continue
		}
		r.Count("paths that accept a document", 1)
		asked, absent, imposed := false, false, false
		for f, v := range t.Facts {
			about := false
			walk(f, func(x *Term) {
				if x.C != nil && x.C.ExactString() == `"asyncapi"` {
					about = true
				}
			})
			member := false
			walk(f, func(x *Term) {
				if x.Op == "global" && x.Obj != nil && x.Obj == list.Object() || x.Obj != nil && fullName(x.Obj) == asyncPath+".IsVersionSupported" {
					member = true
				}
			})
			if v && member && about {
				asked = true
			}
			if about && !v && !member {
				absent = true
			}
			if mentionsField(f, "MajorVersion") {
				imposed = true
			}
		}
		if !asked && !(absent && imposed) {
			r.Fail("acceptance", parse.Pos(), "a document can be accepted without its version having been found among the supported ones")
		}
	}
}
