package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Models of library functions the generator calls.

type nativeFn func(m *Machine, fn *ssa.Function, a []any) any

func str(v any) string {
	s, ok := v.(string)
	if !ok {
		unsup("string expected, got %T", v)
	}
	return s
}

func (m *Machine) native(fn *ssa.Function, args []any) any {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	n := natives[name]
	if n == nil {
		if fn.Name() == "init" {
			return nil
		}
		unsup("no model of %s", name)
	}
	return n(m, fn, args)
}

func (m *Machine) modelled(fn *ssa.Function) bool {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	return natives[name] != nil
}

func s1(f func(string) string) nativeFn {
	return func(_ *Machine, _ *ssa.Function, a []any) any { return f(str(a[0])) }
}
func s2(f func(a, b string) string) nativeFn {
	return func(_ *Machine, _ *ssa.Function, a []any) any { return f(str(a[0]), str(a[1])) }
}
func b2(f func(a, b string) bool) nativeFn {
	return func(_ *Machine, _ *ssa.Function, a []any) any { return f(str(a[0]), str(a[1])) }
}
func i2(f func(a, b string) int) nativeFn {
	return func(_ *Machine, _ *ssa.Function, a []any) any { return int64(f(str(a[0]), str(a[1]))) }
}
func r1(f func(rune) bool) nativeFn {
	return func(_ *Machine, _ *ssa.Function, a []any) any { return f(rune(toInt(a[0]))) }
}
func rr(f func(rune) rune) nativeFn {
	return func(_ *Machine, _ *ssa.Function, a []any) any { return int64(f(rune(toInt(a[0])))) }
}

func (m *Machine) sideOf(v any) *Cell {
	c, ok := v.(*Cell)
	if !ok || c == nil {
		m.gopanic("nil pointer dereference")
	}
	return c
}

func (m *Machine) buf(v any) *strings.Builder {
	c := m.sideOf(v)
	b, ok := m.side[c].(*strings.Builder)
	if !ok {
		b = &strings.Builder{}
		m.side[c] = b
	}
	return b
}

func (m *Machine) re(v any) *regexp.Regexp {
	r, _ := m.side[m.sideOf(v)].(*regexp.Regexp)
	if r == nil {
		unsup("unknown regular expression")
	}
	return r
}

func (m *Machine) boxed(x any) *Cell {
	c := &Cell{V: &VStruct{}}
	m.side[c] = x
	return c
}

var natives map[string]nativeFn

func init() {
	natives = map[string]nativeFn{
		"strings.Split": func(_ *Machine, _ *ssa.Function, a []any) any { return strsVal(strings.Split(str(a[0]), str(a[1]))) },
		"strings.SplitN": func(_ *Machine, _ *ssa.Function, a []any) any {
			return strsVal(strings.SplitN(str(a[0]), str(a[1]), int(toInt(a[2]))))
		},
		"strings.Fields": func(_ *Machine, _ *ssa.Function, a []any) any { return strsVal(strings.Fields(str(a[0]))) },
		"strings.Join":   func(_ *Machine, _ *ssa.Function, a []any) any { return strings.Join(strsOf(a[0]), str(a[1])) },
		"strings.ReplaceAll": func(_ *Machine, _ *ssa.Function, a []any) any {
			return strings.ReplaceAll(str(a[0]), str(a[1]), str(a[2]))
		},
		"strings.Replace": func(_ *Machine, _ *ssa.Function, a []any) any {
			return strings.Replace(str(a[0]), str(a[1]), str(a[2]), int(toInt(a[3])))
		},
		"strings.Repeat":      func(_ *Machine, _ *ssa.Function, a []any) any { return strings.Repeat(str(a[0]), int(toInt(a[1]))) },
		"strings.ToUpper":     s1(strings.ToUpper),
		"strings.ToLower":     s1(strings.ToLower),
		"strings.Title":       s1(strings.Title),
		"strings.TrimSpace":   s1(strings.TrimSpace),
		"strings.TrimSuffix":  s2(strings.TrimSuffix),
		"strings.TrimPrefix":  s2(strings.TrimPrefix),
		"strings.Trim":        s2(strings.Trim),
		"strings.TrimLeft":    s2(strings.TrimLeft),
		"strings.TrimRight":   s2(strings.TrimRight),
		"strings.HasPrefix":   b2(strings.HasPrefix),
		"strings.HasSuffix":   b2(strings.HasSuffix),
		"strings.Contains":    b2(strings.Contains),
		"strings.ContainsAny": b2(strings.ContainsAny),
		"strings.EqualFold":   b2(strings.EqualFold),
		"strings.Index":       i2(strings.Index),
		"strings.LastIndex":   i2(strings.LastIndex),
		"strings.Count":       i2(strings.Count),
		"strings.Compare":     i2(strings.Compare),
		"strings.IndexByte": func(_ *Machine, _ *ssa.Function, a []any) any {
			return int64(strings.IndexByte(str(a[0]), byte(toInt(a[1]))))
		},
		"strings.IndexRune": func(_ *Machine, _ *ssa.Function, a []any) any {
			return int64(strings.IndexRune(str(a[0]), rune(toInt(a[1]))))
		},
		"strings.ContainsRune": func(_ *Machine, _ *ssa.Function, a []any) any {
			return strings.ContainsRune(str(a[0]), rune(toInt(a[1])))
		},
		"strings.Cut": func(_ *Machine, _ *ssa.Function, a []any) any {
			x, y, ok := strings.Cut(str(a[0]), str(a[1]))
			return VTuple{x, y, ok}
		},
		"strings.CutSuffix": func(_ *Machine, _ *ssa.Function, a []any) any {
			x, ok := strings.CutSuffix(str(a[0]), str(a[1]))
			return VTuple{x, ok}
		},
		"strings.CutPrefix": func(_ *Machine, _ *ssa.Function, a []any) any {
			x, ok := strings.CutPrefix(str(a[0]), str(a[1]))
			return VTuple{x, ok}
		},
		"strings.Map": func(m *Machine, _ *ssa.Function, a []any) any {
			return strings.Map(func(r rune) rune { return rune(toInt(m.apply(a[0], []any{int64(r)}))) }, str(a[1]))
		},
		"strings.FieldsFunc": func(m *Machine, _ *ssa.Function, a []any) any {
			return strsVal(strings.FieldsFunc(str(a[0]), func(r rune) bool { return m.apply(a[1], []any{int64(r)}).(bool) }))
		},
		"strings.TrimFunc": func(m *Machine, _ *ssa.Function, a []any) any {
			return strings.TrimFunc(str(a[0]), func(r rune) bool { return m.apply(a[1], []any{int64(r)}).(bool) })
		},
		"strings.TrimLeftFunc": func(m *Machine, _ *ssa.Function, a []any) any {
			return strings.TrimLeftFunc(str(a[0]), func(r rune) bool { return m.apply(a[1], []any{int64(r)}).(bool) })
		},
		"strings.IndexFunc": func(m *Machine, _ *ssa.Function, a []any) any {
			return int64(strings.IndexFunc(str(a[0]), func(r rune) bool { return m.apply(a[1], []any{int64(r)}).(bool) }))
		},
		"strings.NewReplacer": func(m *Machine, _ *ssa.Function, a []any) any { return m.boxed(strings.NewReplacer(strsOf(a[0])...)) },
		"(*strings.Replacer).Replace": func(m *Machine, _ *ssa.Function, a []any) any {
			return m.side[m.sideOf(a[0])].(*strings.Replacer).Replace(str(a[1]))
		},
		"path.Base":          s1(path.Base),
		"path.Ext":           s1(path.Ext),
		"path.Dir":           s1(path.Dir),
		"path.Clean":         s1(path.Clean),
		"path.Join":          func(_ *Machine, _ *ssa.Function, a []any) any { return path.Join(strsOf(a[0])...) },
		"path/filepath.Base": s1(filepath.Base),
		"path/filepath.Ext":  s1(filepath.Ext),
		"path/filepath.Join": func(_ *Machine, _ *ssa.Function, a []any) any { return filepath.Join(strsOf(a[0])...) },

		"unicode.IsLetter": r1(unicode.IsLetter),
		"unicode.IsDigit":  r1(unicode.IsDigit),
		"unicode.IsNumber": r1(unicode.IsNumber),
		"unicode.IsUpper":  r1(unicode.IsUpper),
		"unicode.IsLower":  r1(unicode.IsLower),
		"unicode.IsSpace":  r1(unicode.IsSpace),
		"unicode.IsPunct":  r1(unicode.IsPunct),
		"unicode.ToUpper":  rr(unicode.ToUpper),
		"unicode.ToLower":  rr(unicode.ToLower),
		"unicode.ToTitle":  rr(unicode.ToTitle),
		"unicode/utf8.RuneCountInString": func(_ *Machine, _ *ssa.Function, a []any) any {
			return int64(utf8.RuneCountInString(str(a[0])))
		},
		"unicode/utf8.DecodeRuneInString": func(_ *Machine, _ *ssa.Function, a []any) any {
			r, n := utf8.DecodeRuneInString(str(a[0]))
			return VTuple{int64(r), int64(n)}
		},

		"strconv.Itoa":  func(_ *Machine, _ *ssa.Function, a []any) any { return strconv.Itoa(int(toInt(a[0]))) },
		"strconv.Quote": s1(strconv.Quote),
		"strconv.Atoi": func(m *Machine, _ *ssa.Function, a []any) any {
			n, err := strconv.Atoi(str(a[0]))
			return VTuple{int64(n), m.errOf(err)}
		},
		"strconv.FormatInt": func(_ *Machine, _ *ssa.Function, a []any) any {
			return strconv.FormatInt(toInt(a[0]), int(toInt(a[1])))
		},
		"strconv.FormatBool": func(_ *Machine, _ *ssa.Function, a []any) any { return strconv.FormatBool(a[0].(bool)) },
		"strconv.FormatFloat": func(_ *Machine, _ *ssa.Function, a []any) any {
			return strconv.FormatFloat(a[0].(float64), byte(toInt(a[1])), int(toInt(a[2])), int(toInt(a[3])))
		},

		"fmt.Sprintf":  func(m *Machine, _ *ssa.Function, a []any) any { return m.sprintf(str(a[0]), a[1]) },
		"fmt.Sprint":   func(m *Machine, _ *ssa.Function, a []any) any { return fmt.Sprint(m.goVals(a[0])...) },
		"fmt.Sprintln": func(m *Machine, _ *ssa.Function, a []any) any { return fmt.Sprintln(m.goVals(a[0])...) },
		"fmt.Errorf": func(m *Machine, _ *ssa.Function, a []any) any {
			f := str(a[0])
			var wraps []any
			if s, ok := a[1].(*VSlice); ok && strings.Contains(f, "%w") {
				for _, c := range s.E {
					if i, ok := c.V.(*VIface); ok && i != nil && types.Implements(i.T, errorIface) {
						wraps = append(wraps, i)
					}
				}
			}
			return m.mkErr(m.sprintf(strings.ReplaceAll(f, "%w", "%v"), a[1]), wraps)
		},
		"fmt.Println": func(m *Machine, _ *ssa.Function, a []any) any { return VTuple{int64(0), nil} },
		"fmt.Printf":  func(m *Machine, _ *ssa.Function, a []any) any { return VTuple{int64(0), nil} },
		"fmt.Fprintf": func(m *Machine, _ *ssa.Function, a []any) any {
			if i, ok := a[0].(*VIface); ok && i != nil {
				if c, ok := i.V.(*Cell); ok {
					m.buf(c).WriteString(m.sprintf(str(a[1]), a[2]))
				}
			}
			return VTuple{int64(0), nil}
		},
		"errors.New": func(m *Machine, _ *ssa.Function, a []any) any { return m.mkErr(str(a[0]), nil) },
		"errors.Is":  func(m *Machine, _ *ssa.Function, a []any) any { return m.errIs(a[0], a[1]) },
		"errors.Join": func(m *Machine, _ *ssa.Function, a []any) any {
			var ws []any
			var ms []string
			if s, ok := a[0].(*VSlice); ok {
				for _, c := range s.E {
					if c.V != nil {
						ws = append(ws, c.V)
						ms = append(ms, m.show(c.V))
					}
				}
			}
			if len(ws) == 0 {
				return nil
			}
			return m.mkErr(strings.Join(ms, "\n"), ws)
		},

		"regexp.MustCompile": func(m *Machine, _ *ssa.Function, a []any) any {
			r, err := regexp.Compile(str(a[0]))
			if err != nil {
				m.gopanic("regexp: %v", err)
			}
			return m.boxed(r)
		},
		"regexp.Compile": func(m *Machine, _ *ssa.Function, a []any) any {
			r, err := regexp.Compile(str(a[0]))
			if err != nil {
				return VTuple{nil, m.errOf(err)}
			}
			return VTuple{m.boxed(r), nil}
		},
		"(*regexp.Regexp).ReplaceAll": func(m *Machine, _ *ssa.Function, a []any) any {
			return bytesVal(m.re(a[0]).ReplaceAll(bytesOf(a[1]), bytesOf(a[2])))
		},
		"(*regexp.Regexp).ReplaceAllString": func(m *Machine, _ *ssa.Function, a []any) any {
			return m.re(a[0]).ReplaceAllString(str(a[1]), str(a[2]))
		},
		"(*regexp.Regexp).ReplaceAllLiteralString": func(m *Machine, _ *ssa.Function, a []any) any {
			return m.re(a[0]).ReplaceAllLiteralString(str(a[1]), str(a[2]))
		},
		"(*regexp.Regexp).ReplaceAllStringFunc": func(m *Machine, _ *ssa.Function, a []any) any {
			return m.re(a[0]).ReplaceAllStringFunc(str(a[1]), func(s string) string { return str(m.apply(a[2], []any{s})) })
		},
		"(*regexp.Regexp).FindAllString": func(m *Machine, _ *ssa.Function, a []any) any {
			return strsVal(m.re(a[0]).FindAllString(str(a[1]), int(toInt(a[2]))))
		},
		"(*regexp.Regexp).FindStringSubmatch": func(m *Machine, _ *ssa.Function, a []any) any {
			return strsVal(m.re(a[0]).FindStringSubmatch(str(a[1])))
		},
		"(*regexp.Regexp).FindAllStringSubmatch": func(m *Machine, _ *ssa.Function, a []any) any {
			r := m.re(a[0]).FindAllStringSubmatch(str(a[1]), int(toInt(a[2])))
			if r == nil {
				return nil
			}
			s := &VSlice{E: []*Cell{}}
			for _, x := range r {
				s.E = append(s.E, &Cell{strsVal(x)})
			}
			return s
		},
		"(*regexp.Regexp).MatchString": func(m *Machine, _ *ssa.Function, a []any) any { return m.re(a[0]).MatchString(str(a[1])) },
		"(*regexp.Regexp).FindString":  func(m *Machine, _ *ssa.Function, a []any) any { return m.re(a[0]).FindString(str(a[1])) },

		"sort.Strings": func(m *Machine, _ *ssa.Function, a []any) any {
			if s, ok := a[0].(*VSlice); ok {
				ss := strsOf(s)
				sort.Strings(ss)
				for i := range ss {
					s.E[i].V = ss[i]
				}
			}
			return nil
		},
		"slices.Sort": func(m *Machine, _ *ssa.Function, a []any) any {
			if s, ok := a[0].(*VSlice); ok {
				vs := make([]any, len(s.E))
				for i, c := range s.E {
					vs[i] = c.V
				}
				sort.SliceStable(vs, func(i, j int) bool { return cmpVal(vs[i], vs[j]) < 0 })
				for i := range vs {
					s.E[i].V = vs[i]
				}
			}
			return nil
		},
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,
		"slices.SortFunc":  sortFunc, "slices.SortStableFunc": sortFunc,
		"slices.Contains": func(m *Machine, _ *ssa.Function, a []any) any {
			if s, ok := a[0].(*VSlice); ok {
				for _, c := range s.E {
					if eqVal(c.V, a[1]) {
						return true
					}
				}
			}
			return false
		},
		"slices.Index": func(m *Machine, _ *ssa.Function, a []any) any {
			if s, ok := a[0].(*VSlice); ok {
				for i, c := range s.E {
					if eqVal(c.V, a[1]) {
						return int64(i)
					}
				}
			}
			return int64(-1)
		},
		"slices.Clone": func(m *Machine, _ *ssa.Function, a []any) any {
			s, ok := a[0].(*VSlice)
			if !ok {
				return nil
			}
			n := &VSlice{E: []*Cell{}}
			for _, c := range s.E {
				n.E = append(n.E, &Cell{cp(c.V)})
			}
			return n
		},
		"maps.Copy": func(m *Machine, _ *ssa.Function, a []any) any {
			src, _ := a[1].(*VMap)
			if src == nil || len(src.M) == 0 {
				return nil
			}
			dst, _ := a[0].(*VMap)
			if dst == nil {
				m.gopanic("assignment to entry in nil map")
			}
			for k, e := range src.M {
				dst.M[k] = &vment{e.k, cp(e.v)}
			}
			return nil
		},
		"maps.Clone": func(m *Machine, _ *ssa.Function, a []any) any {
			src, _ := a[0].(*VMap)
			if src == nil {
				return nil
			}
			dst := &VMap{M: map[string]*vment{}}
			for k, e := range src.M {
				dst.M[k] = &vment{e.k, cp(e.v)}
			}
			return dst
		},

		"(*bytes.Buffer).String":         func(m *Machine, _ *ssa.Function, a []any) any { return m.buf(a[0]).String() },
		"(*bytes.Buffer).Bytes":          func(m *Machine, _ *ssa.Function, a []any) any { return bytesVal([]byte(m.buf(a[0]).String())) },
		"(*bytes.Buffer).WriteString":    writeString,
		"(*bytes.Buffer).Len":            func(m *Machine, _ *ssa.Function, a []any) any { return int64(m.buf(a[0]).Len()) },
		"(*strings.Builder).String":      func(m *Machine, _ *ssa.Function, a []any) any { return m.buf(a[0]).String() },
		"(*strings.Builder).WriteString": writeString,
		"(*strings.Builder).Len":         func(m *Machine, _ *ssa.Function, a []any) any { return int64(m.buf(a[0]).Len()) },
		"(*strings.Builder).Grow":        func(m *Machine, _ *ssa.Function, a []any) any { return nil },
		"(*strings.Builder).WriteByte": func(m *Machine, _ *ssa.Function, a []any) any {
			m.buf(a[0]).WriteByte(byte(toInt(a[1])))
			return nil
		},
		"(*strings.Builder).WriteRune": func(m *Machine, _ *ssa.Function, a []any) any {
			m.buf(a[0]).WriteRune(rune(toInt(a[1])))
			return VTuple{int64(1), nil}
		},

		"github.com/iancoleman/strcase.ToSnake":          s1(func(s string) string { return toDelimited(s, '_') }),
		"github.com/iancoleman/strcase.ToKebab":          s1(func(s string) string { return toDelimited(s, '-') }),
		"github.com/iancoleman/strcase.ToCamel":          s1(toCamel),
		"github.com/iancoleman/strcase.ToLowerCamel":     s1(func(s string) string { s = toCamel(s); return strings.ToLower(s[:min(1, len(s))]) + s[min(1, len(s)):] }),
		"github.com/iancoleman/strcase.ToScreamingSnake": s1(func(s string) string { return strings.ToUpper(toDelimited(s, '_')) }),

		"github.com/mohae/deepcopy.Copy": func(m *Machine, _ *ssa.Function, a []any) any {
			i, _ := a[0].(*VIface)
			if i == nil {
				return nil
			}
			return &VIface{i.T, m.deepCopy(i.V, i.T, 0)}
		},

		"text/template.New":                func(m *Machine, _ *ssa.Function, a []any) any { return m.boxed(newTmplSet(str(a[0]))) },
		"html/template.New":                func(m *Machine, _ *ssa.Function, a []any) any { return m.boxed(newTmplSet(str(a[0]))) },
		"(*text/template.Template).Funcs":  tmplFuncs,
		"(*text/template.Template).Option": func(m *Machine, _ *ssa.Function, a []any) any { return a[0] },
		"(*text/template.Template).ParseFS": func(m *Machine, _ *ssa.Function, a []any) any {
			return m.tmplParseFS(a[0], a[1], strsOf(a[2]))
		},
		"text/template.ParseFS": func(m *Machine, _ *ssa.Function, a []any) any {
			ps := strsOf(a[1])
			if len(ps) == 0 {
				return VTuple{nil, m.mkErr("template: no files", nil)}
			}
			return m.tmplParseFS(m.boxed(newTmplSet(path.Base(ps[0]))), a[0], ps)
		},
		"(*text/template.Template).Execute": func(m *Machine, _ *ssa.Function, a []any) any {
			t := m.side[m.sideOf(a[0])].(*tmplSet)
			return m.tmplExecute(t, t.name, a[1], a[2])
		},
		"(*text/template.Template).ExecuteTemplate": func(m *Machine, _ *ssa.Function, a []any) any {
			t := m.side[m.sideOf(a[0])].(*tmplSet)
			return m.tmplExecute(t, str(a[2]), a[1], a[3])
		},
		"(*text/template.Template).Lookup": func(m *Machine, _ *ssa.Function, a []any) any {
			t := m.side[m.sideOf(a[0])].(*tmplSet)
			if t.trees[str(a[1])] == nil {
				return nil
			}
			return m.boxed(&tmplSet{name: str(a[1]), trees: t.trees, files: t.files, funcs: t.funcs})
		},
		"text/template.Must": func(m *Machine, _ *ssa.Function, a []any) any {
			if a[1] != nil {
				m.gopanic("template.Must: %s", m.show(a[1]))
			}
			return a[0]
		},

		"golang.org/x/tools/imports.Process": func(m *Machine, _ *ssa.Function, a []any) any { return VTuple{a[1], nil} },
		"go/format.Source":                   func(m *Machine, _ *ssa.Function, a []any) any { return VTuple{a[0], nil} },
		"runtime/debug.ReadBuildInfo":        func(m *Machine, _ *ssa.Function, a []any) any { return VTuple{nil, false} },
		"os.WriteFile": func(m *Machine, _ *ssa.Function, a []any) any {
			m.Written[str(a[0])] = string(bytesOf(a[1]))
			return nil
		},
		"os.ReadFile": func(m *Machine, _ *ssa.Function, a []any) any {
			b, ok := m.Files[str(a[0])]
			if !ok {
				return VTuple{nil, m.mkErr("open "+str(a[0])+": no such file or directory", nil)}
			}
			return VTuple{bytesVal([]byte(b)), nil}
		},
		"path/filepath.Dir": s1(filepath.Dir),
		"github.com/ghodss/yaml.YAMLToJSON": func(m *Machine, _ *ssa.Function, a []any) any {
			if json.Valid(bytesOf(a[0])) {
				return VTuple{a[0], nil}
			}
			v, err := parseYAML(string(bytesOf(a[0])))
			if err != nil {
				return VTuple{nil, m.errOf(err)}
			}
			b, err := json.Marshal(v)
			if err != nil {
				return VTuple{nil, m.errOf(err)}
			}
			return VTuple{bytesVal(b), nil}
		},
		"encoding/json.Marshal": func(m *Machine, _ *ssa.Function, a []any) any {
			x, err := m.toJSON(a[0], types.NewInterfaceType(nil, nil), 0)
			if err != nil {
				return VTuple{nil, m.errOf(err)}
			}
			b, err := json.Marshal(x)
			if err != nil {
				return VTuple{nil, m.errOf(err)}
			}
			return VTuple{bytesVal(b), nil}
		},
		"encoding/json.Unmarshal": func(m *Machine, _ *ssa.Function, a []any) any {
			var x any
			if err := json.Unmarshal(bytesOf(a[0]), &x); err != nil {
				return m.errOf(err)
			}
			i, _ := a[1].(*VIface)
			if i == nil {
				return m.mkErr("json: Unmarshal(nil)", nil)
			}
			pt, ok := i.T.Underlying().(*types.Pointer)
			c, ok2 := i.V.(*Cell)
			if !ok || !ok2 || c == nil {
				return m.mkErr("json: Unmarshal(non-pointer)", nil)
			}
			if err := m.jsonInto(c, pt.Elem(), x); err != nil {
				return m.errOf(err)
			}
			return nil
		},

		"reflect.TypeOf": func(m *Machine, _ *ssa.Function, a []any) any {
			d := "<nil>"
			if i, ok := a[0].(*VIface); ok && i != nil {
				d = i.T.String()
			}
			return &VIface{T: types.Typ[types.String], V: d}
		},
		"reflect.ValueOf": func(m *Machine, _ *ssa.Function, a []any) any {
			i, _ := a[0].(*VIface)
			if i == nil {
				return &rval{}
			}
			return &rval{v: i.V, t: i.T, ok: true}
		},
		"(reflect.Value).Kind":    func(m *Machine, _ *ssa.Function, a []any) any { return uint64(a[0].(*rval).kind()) },
		"(reflect.Value).IsValid": func(m *Machine, _ *ssa.Function, a []any) any { return a[0].(*rval).ok },
		"(reflect.Value).IsNil":   func(m *Machine, _ *ssa.Function, a []any) any { return a[0].(*rval).v == nil },
		"(reflect.Value).Elem": func(m *Machine, _ *ssa.Function, a []any) any {
			r := a[0].(*rval)
			switch p := r.t.Underlying().(type) {
			case *types.Pointer:
				if c, ok := r.v.(*Cell); ok && c != nil {
					return &rval{v: c.V, t: p.Elem(), ok: true}
				}
			case *types.Interface:
				if i, ok := r.v.(*VIface); ok && i != nil {
					return &rval{v: i.V, t: i.T, ok: true}
				}
			}
			return &rval{}
		},
		"(reflect.Value).NumField": func(m *Machine, _ *ssa.Function, a []any) any {
			return int64(a[0].(*rval).t.Underlying().(*types.Struct).NumFields())
		},
		"(reflect.Value).Field": func(m *Machine, _ *ssa.Function, a []any) any {
			r := a[0].(*rval)
			i := int(toInt(a[1]))
			return &rval{v: r.v.(*VStruct).F[i].V, t: r.t.Underlying().(*types.Struct).Field(i).Type(), ok: true}
		},
		"(reflect.Value).FieldByName": func(m *Machine, _ *ssa.Function, a []any) any {
			r := a[0].(*rval)
			if tv, ok := m.structField(r.v, r.t, str(a[1])); ok {
				return &rval{v: tv.v, t: tv.t, ok: true}
			}
			return &rval{}
		},
		"(reflect.Value).Interface": func(m *Machine, _ *ssa.Function, a []any) any {
			r := a[0].(*rval)
			if types.IsInterface(r.t) {
				return r.v
			}
			return &VIface{T: r.t, V: r.v}
		},
	}
}

type rval struct {
	v  any
	t  types.Type
	ok bool
}

func (r *rval) kind() reflect.Kind {
	if !r.ok {
		return reflect.Invalid
	}
	switch u := r.t.Underlying().(type) {
	case *types.Pointer:
		return reflect.Pointer
	case *types.Struct:
		return reflect.Struct
	case *types.Map:
		return reflect.Map
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Basic:
		switch u.Kind() {
		case types.String:
			return reflect.String
		case types.Bool:
			return reflect.Bool
		case types.Float64:
			return reflect.Float64
		case types.Float32:
			return reflect.Float32
		case types.Int:
			return reflect.Int
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		}
	}
	return reflect.Uintptr
}

func (m *Machine) errOf(err error) any {
	if err == nil {
		return nil
	}
	return m.mkErr(err.Error(), nil)
}

func (m *Machine) errIs(e, target any) bool {
	if eqVal(e, target) {
		return true
	}
	if i, ok := e.(*VIface); ok && i != nil {
		if ve, ok := i.V.(*VErr); ok {
			for _, w := range ve.wraps {
				if m.errIs(w, target) {
					return true
				}
			}
		}
	}
	return false
}

func writeString(m *Machine, _ *ssa.Function, a []any) any {
	m.buf(a[0]).WriteString(str(a[1]))
	return VTuple{int64(len(str(a[1]))), nil}
}

func sortSlice(m *Machine, _ *ssa.Function, a []any) any {
	i, _ := a[0].(*VIface)
	if i == nil {
		return nil
	}
	s, _ := i.V.(*VSlice)
	if s == nil {
		return nil
	}
	// insertion sort on the cells, as the less function reads through indexes
	for x := 1; x < len(s.E); x++ {
		for y := x; y > 0 && m.apply(a[1], []any{int64(y), int64(y - 1)}).(bool); y-- {
			s.E[y].V, s.E[y-1].V = s.E[y-1].V, s.E[y].V
		}
	}
	return nil
}

func sortFunc(m *Machine, _ *ssa.Function, a []any) any {
	s, _ := a[0].(*VSlice)
	if s == nil {
		return nil
	}
	for x := 1; x < len(s.E); x++ {
		for y := x; y > 0 && toInt(m.apply(a[1], []any{s.E[y].V, s.E[y-1].V})) < 0; y-- {
			s.E[y].V, s.E[y-1].V = s.E[y-1].V, s.E[y].V
		}
	}
	return nil
}

// strOf gives the text of a value that implements error or fmt.Stringer.
func (m *Machine) strOf(v any, t types.Type) (string, bool) {
	if e, ok := v.(*VErr); ok {
		return e.msg, true
	}
	for _, name := range []string{"Error", "String"} {
		ms := m.w.Prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			f := ms.At(i).Obj().(*types.Func)
			sg := f.Type().(*types.Signature)
			if f.Name() != name || sg.Params().Len() != 0 || sg.Results().Len() != 1 || sg.Results().At(0).Type() != types.Typ[types.String] {
				continue
			}
			if _, isIface := t.Underlying().(*types.Interface); isIface {
				continue
			}
			if fn := m.w.Prog.MethodValue(ms.At(i)); fn != nil && m.w.InScope(fn) {
				if _, isPtr := t.Underlying().(*types.Pointer); isPtr && v == nil {
					return "<nil>", true
				}
				s, ok := m.call(fn, []any{v}, nil).(string)
				return s, ok
			}
		}
	}
	return "", false
}

func (m *Machine) goVal(v any) any {
	i, ok := v.(*VIface)
	if !ok {
		return opaqueArg{}
	}
	if i == nil {
		return nil
	}
	if s, ok := m.strOf(i.V, i.T); ok {
		return strArg(s)
	}
	switch x := i.V.(type) {
	case string, float64, bool:
		return x
	case int64:
		if b, ok := i.T.Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
			return int32(x)
		}
		return int(x)
	case uint64:
		return x
	case *VSlice:
		if sl, ok := i.T.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok {
				if b.Kind() == types.Uint8 {
					return bytesOf(x)
				}
				if b.Kind() == types.String {
					return strsOf(x)
				}
			}
		}
	case nil:
		return nil
	}
	return opaqueArg{i.T.String()}
}

type strArg string

func (s strArg) String() string { return string(s) }

// opaqueArg stands for a structure printed by fmt: one line of text.
type opaqueArg struct{ t string }

func (o opaqueArg) Format(f fmt.State, verb rune) { fmt.Fprintf(f, "<%s>", o.t) }

func (m *Machine) goVals(v any) []any {
	s, _ := v.(*VSlice)
	if s == nil {
		return nil
	}
	var out []any
	for _, c := range s.E {
		if c.V == nil {
			out = append(out, nil)
			continue
		}
		out = append(out, m.goVal(c.V))
	}
	return out
}

func (m *Machine) sprintf(f string, args any) string { return fmt.Sprintf(f, m.goVals(args)...) }

// deepCopy models github.com/mohae/deepcopy: exported fields are copied
// recursively, unexported ones are left zero.
func (m *Machine) deepCopy(v any, t types.Type, depth int) any {
	if depth > 200 {
		m.gopanic("stack overflow: deep copy of a cyclic structure")
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		c, _ := v.(*Cell)
		if own := m.w.MethodOf(t, "DeepCopy"); own != nil && m.w.InScope(own) && own.Signature.Params().Len() == 0 && own.Signature.Results().Len() == 1 {
			// the type says how it is copied
			i, _ := m.call(own, []any{v}, nil).(*VIface)
			if i == nil {
				return nil
			}
			return i.V
		}
		if c == nil {
			return nil
		}
		return &Cell{m.deepCopy(c.V, u.Elem(), depth+1)}
	case *types.Struct:
		s := v.(*VStruct)
		n := zeroVal(t).(*VStruct)
		for i := range n.F {
			if u.Field(i).Exported() {
				n.F[i].V = m.deepCopy(s.F[i].V, u.Field(i).Type(), depth+1)
			}
		}
		return n
	case *types.Slice:
		s, _ := v.(*VSlice)
		if s == nil {
			return nil
		}
		n := &VSlice{E: []*Cell{}}
		for _, c := range s.E {
			n.E = append(n.E, &Cell{m.deepCopy(c.V, u.Elem(), depth+1)})
		}
		return n
	case *types.Map:
		mp, _ := v.(*VMap)
		if mp == nil {
			return nil
		}
		n := &VMap{M: map[string]*vment{}}
		for k, e := range mp.M {
			n.M[k] = &vment{e.k, m.deepCopy(e.v, u.Elem(), depth+1)}
		}
		return n
	case *types.Interface:
		i, _ := v.(*VIface)
		if i == nil {
			return nil
		}
		return &VIface{i.T, m.deepCopy(i.V, i.T, depth+1)}
	}
	return cp(v)
}

// jsonInto stores a decoded JSON value as encoding/json does, by field tags.
func (m *Machine) jsonInto(c *Cell, t types.Type, x any) error {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if x == nil {
			c.V = nil
			return nil
		}
		d, _ := c.V.(*Cell)
		if d == nil {
			d = &Cell{zeroVal(p.Elem())}
			c.V = d
		}
		return m.jsonInto(d, p.Elem(), x)
	}
	if fn := m.w.MethodOf(types.NewPointer(t), "UnmarshalJSON"); fn != nil && m.w.InScope(fn) {
		b, _ := json.Marshal(x)
		if r := m.call(fn, []any{c, bytesVal(b)}, nil); r != nil {
			return fmt.Errorf("%s", m.show(r))
		}
		return nil
	}
	bad := func() error { return fmt.Errorf("json: cannot unmarshal %T into Go value of type %s", x, t) }
	if x == nil {
		switch t.Underlying().(type) {
		case *types.Map, *types.Slice, *types.Interface:
			c.V = nil
		}
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if u.NumMethods() > 0 {
			i, _ := c.V.(*VIface)
			if i == nil {
				return bad()
			}
			p, ok := i.T.Underlying().(*types.Pointer)
			if !ok {
				return bad()
			}
			return m.jsonInto(i.V.(*Cell), p.Elem(), x)
		}
		c.V = anyVal(x)
	case *types.Struct:
		o, ok := x.(map[string]any)
		if !ok {
			return bad()
		}
		keys := make([]string, 0, len(o))
		for k := range o {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		var first error
		for _, k := range keys {
			fc, ft := m.jsonField(c.V.(*VStruct), u, k)
			if fc == nil {
				continue
			}
			if err := m.jsonInto(fc, ft, o[k]); err != nil && first == nil {
				first = err
			}
		}
		return first
	case *types.Map:
		o, ok := x.(map[string]any)
		if !ok {
			return bad()
		}
		mp, _ := c.V.(*VMap)
		if mp == nil {
			mp = &VMap{M: map[string]*vment{}}
			c.V = mp
		}
		for k, v := range o {
			e := &Cell{zeroVal(u.Elem())}
			if err := m.jsonInto(e, u.Elem(), v); err != nil {
				return err
			}
			mp.M[keyStr(k)] = &vment{k, e.V}
		}
	case *types.Slice:
		o, ok := x.([]any)
		if !ok {
			return bad()
		}
		s := &VSlice{E: []*Cell{}}
		for _, v := range o {
			e := &Cell{zeroVal(u.Elem())}
			if err := m.jsonInto(e, u.Elem(), v); err != nil {
				return err
			}
			s.E = append(s.E, e)
		}
		c.V = s
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			s, ok := x.(string)
			if !ok {
				return bad()
			}
			c.V = s
		case u.Info()&types.IsBoolean != 0:
			b, ok := x.(bool)
			if !ok {
				return bad()
			}
			c.V = b
		case u.Info()&types.IsFloat != 0:
			f, ok := x.(float64)
			if !ok {
				return bad()
			}
			c.V = f
		case u.Info()&types.IsInteger != 0:
			f, ok := x.(float64)
			if !ok || f != float64(int64(f)) || f < 0 && u.Info()&types.IsUnsigned != 0 {
				return bad()
			}
			c.V = wrapIntTo(int64(f), u)
		}
	default:
		return bad()
	}
	return nil
}

// toJSON gives the value encoding/json encodes for v.
func (m *Machine) toJSON(v any, t types.Type, depth int) (any, error) {
	if depth > 200 {
		return nil, fmt.Errorf("json: unsupported value: encountered a cycle")
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		i, _ := v.(*VIface)
		if i == nil {
			return nil, nil
		}
		return m.toJSON(i.V, i.T, depth+1)
	case *types.Pointer:
		c, _ := v.(*Cell)
		if c == nil {
			return nil, nil
		}
		return m.toJSON(c.V, u.Elem(), depth+1)
	case *types.Struct:
		out := map[string]any{}
		s := v.(*VStruct)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			tag := reflect.StructTag(u.Tag(i)).Get("json")
			name, opts, _ := strings.Cut(tag, ",")
			if tag == "-" || !f.Exported() && !f.Embedded() {
				continue
			}
			x, err := m.toJSON(s.F[i].V, f.Type(), depth+1)
			if err != nil {
				return nil, err
			}
			if name == "" && f.Embedded() {
				if o, ok := x.(map[string]any); ok {
					for k, e := range o {
						if _, have := out[k]; !have {
							out[k] = e
						}
					}
					continue
				}
			}
			if name == "" {
				name = f.Name()
			}
			empty := x == nil || x == "" || x == false || x == 0.0
			if l, ok := x.([]any); ok {
				empty = len(l) == 0
			}
			if mp, ok := x.(map[string]any); ok {
				_, isMap := f.Type().Underlying().(*types.Map)
				empty = isMap && len(mp) == 0
			}
			if strings.Contains(opts, "omitempty") && empty {
				delete(out, name)
				continue
			}
			out[name] = x
		}
		return out, nil
	case *types.Map:
		mp, _ := v.(*VMap)
		if mp == nil {
			return nil, nil
		}
		out := map[string]any{}
		for _, e := range mp.sorted() {
			x, err := m.toJSON(e.v, u.Elem(), depth+1)
			if err != nil {
				return nil, err
			}
			out[fmt.Sprint(e.k)] = x
		}
		return out, nil
	case *types.Slice:
		sl, _ := v.(*VSlice)
		if sl == nil {
			return nil, nil
		}
		out := []any{}
		for _, e := range sl.E {
			x, err := m.toJSON(e.V, u.Elem(), depth+1)
			if err != nil {
				return nil, err
			}
			out = append(out, x)
		}
		return out, nil
	case *types.Basic:
		switch x := v.(type) {
		case int64:
			return float64(x), nil
		case uint64:
			return float64(x), nil
		}
		return v, nil
	}
	return nil, fmt.Errorf("json: unsupported type: %s", t)
}

func anyVal(x any) any {
	switch y := x.(type) {
	case nil:
		return nil
	case string:
		return &VIface{types.Typ[types.String], y}
	case bool:
		return &VIface{types.Typ[types.Bool], y}
	case float64:
		return &VIface{types.Typ[types.Float64], y}
	case []any:
		s := &VSlice{E: []*Cell{}}
		for _, v := range y {
			s.E = append(s.E, &Cell{anyVal(v)})
		}
		return &VIface{types.NewSlice(types.Universe.Lookup("any").Type()), s}
	case map[string]any:
		mp := &VMap{M: map[string]*vment{}}
		for k, v := range y {
			mp.M[keyStr(k)] = &vment{k, anyVal(v)}
		}
		return &VIface{types.NewMap(types.Typ[types.String], types.Universe.Lookup("any").Type()), mp}
	}
	return nil
}

func (m *Machine) jsonField(s *VStruct, u *types.Struct, key string) (*Cell, types.Type) {
	type cand struct {
		c     *Cell
		t     types.Type
		exact bool
	}
	level := []struct {
		s *VStruct
		u *types.Struct
	}{{s, u}}
	for len(level) > 0 {
		var found []cand
		var next []struct {
			s *VStruct
			u *types.Struct
		}
		for _, l := range level {
			for i := 0; i < l.u.NumFields(); i++ {
				f := l.u.Field(i)
				tag, has := reflect.StructTag(l.u.Tag(i)).Lookup("json")
				name, _, _ := strings.Cut(tag, ",")
				if tag == "-" {
					continue
				}
				if f.Anonymous() && (!has || name == "") {
					if st, ok := f.Type().Underlying().(*types.Struct); ok {
						if inner, ok := l.s.F[i].V.(*VStruct); ok {
							next = append(next, struct {
								s *VStruct
								u *types.Struct
							}{inner, st})
						}
					}
					continue
				}
				if !f.Exported() {
					continue
				}
				if name == "" {
					name = f.Name()
				}
				if name == key {
					found = append(found, cand{l.s.F[i], f.Type(), true})
				} else if strings.EqualFold(name, key) {
					found = append(found, cand{l.s.F[i], f.Type(), false})
				}
			}
		}
		for _, c := range found {
			if c.exact {
				return c.c, c.t
			}
		}
		if len(found) > 0 {
			return found[0].c, found[0].t
		}
		level = next
	}
	return nil, nil
}

// MethodOf finds a method of a type by name.
func (w *World) MethodOf(t types.Type, name string) *ssa.Function {
	ms := w.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return w.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// toDelimited and toCamel model github.com/iancoleman/strcase v0.3.0 with its
// default settings.
func toDelimited(s string, d uint8) string {
	s = strings.TrimSpace(s)
	n := strings.Builder{}
	for i, v := range []byte(s) {
		up, low := v >= 'A' && v <= 'Z', v >= 'a' && v <= 'z'
		if up {
			v += 'a' - 'A'
		}
		if i+1 < len(s) {
			next := s[i+1]
			num := v >= '0' && v <= '9'
			nup, nlow, nnum := next >= 'A' && next <= 'Z', next >= 'a' && next <= 'z', next >= '0' && next <= '9'
			if (up && (nlow || nnum)) || (low && (nup || nnum)) || (num && (nup || nlow)) {
				if up && nlow && i > 0 && s[i-1] >= 'A' && s[i-1] <= 'Z' {
					n.WriteByte(d)
				}
				n.WriteByte(v)
				if low || num || nnum {
					n.WriteByte(d)
				}
				continue
			}
		}
		if v == ' ' || v == '_' || v == '-' || v == '.' {
			n.WriteByte(d)
		} else {
			n.WriteByte(v)
		}
	}
	return n.String()
}

func toCamel(s string) string {
	s = strings.TrimSpace(s)
	if s == "" {
		return s
	}
	if s == "ID" {
		s = "id"
	}
	n := strings.Builder{}
	capNext, prevCap := true, false
	for i, v := range []byte(s) {
		up, low := v >= 'A' && v <= 'Z', v >= 'a' && v <= 'z'
		if capNext {
			if low {
				v += 'A'
				v -= 'a'
			}
		} else if i == 0 {
			if up {
				v += 'a'
				v -= 'A'
			}
		} else if prevCap && up {
			v += 'a'
			v -= 'A'
		}
		prevCap = up
		if up || low {
			n.WriteByte(v)
			capNext = false
		} else if num := v >= '0' && v <= '9'; num {
			n.WriteByte(v)
			capNext = true
		} else {
			capNext = v == '_' || v == ' ' || v == '-' || v == '.'
		}
	}
	return n.String()
}
