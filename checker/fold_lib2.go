package main

import (
	"bufio"
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Further models of library functions: writers and scanners of texts.

// target is the text that a writer given as an interface writes to, nil for others (a terminal).
func (m *Machine) target(v any) *strings.Builder {
	i, ok := v.(*VIface)
	if !ok || i == nil {
		return nil
	}
	c, ok := i.V.(*Cell)
	if !ok {
		return nil
	}
	switch i.T.String() {
	case "*strings.Builder", "*bytes.Buffer":
		return m.buf(c)
	}
	return nil
}

// content is what a reader given as an interface holds.
func (m *Machine) content(v any) string {
	i, ok := v.(*VIface)
	if !ok || i == nil {
		m.gopanic("nil pointer dereference")
	}
	c := m.sideOf(i.V)
	switch i.T.String() {
	case "*strings.Builder", "*bytes.Buffer":
		return m.buf(c).String()
	case "*strings.Reader":
		if s, ok := c.V.(*VStruct); ok && len(s.F) > 1 {
			if t, ok := s.F[0].V.(string); ok {
				return t[toInt(s.F[1].V):]
			}
		}
	case "*bytes.Reader":
		if s, ok := c.V.(*VStruct); ok && len(s.F) > 1 {
			return string(bytesOf(s.F[0].V))[toInt(s.F[1].V):]
		}
	}
	unsup("no model of reading a %s", i.T)
	return ""
}

func (m *Machine) scanner(v any) *bufio.Scanner {
	s, _ := m.side[m.sideOf(v)].(*bufio.Scanner)
	if s == nil {
		unsup("unknown scanner")
	}
	return s
}

func init() {
	print := func(f func(m *Machine, a []any) string) nativeFn {
		return func(m *Machine, _ *ssa.Function, a []any) any {
			s := f(m, a)
			if b := m.target(a[0]); b != nil {
				b.WriteString(s)
			}
			return VTuple{int64(len(s)), nil}
		}
	}
	write := func(f func(b *strings.Builder, v any) any) nativeFn {
		return func(m *Machine, _ *ssa.Function, a []any) any { return f(m.buf(a[0]), a[1]) }
	}
	bytesWritten := write(func(b *strings.Builder, v any) any {
		n, _ := b.Write(bytesOf(v))
		return VTuple{int64(n), nil}
	})
	byteWritten := write(func(b *strings.Builder, v any) any { b.WriteByte(byte(toInt(v))); return nil })
	runeWritten := write(func(b *strings.Builder, v any) any {
		n, _ := b.WriteRune(rune(toInt(v)))
		return VTuple{int64(n), nil}
	})
	reset := func(m *Machine, _ *ssa.Function, a []any) any { m.buf(a[0]).Reset(); return nil }
	buffer := func(m *Machine, s string) any {
		b := &strings.Builder{}
		b.WriteString(s)
		return m.boxed(b)
	}
	for name, f := range map[string]nativeFn{
		"fmt.Fprintf":    print(func(m *Machine, a []any) string { return m.sprintf(str(a[1]), a[2]) }),
		"fmt.Fprint":     print(func(m *Machine, a []any) string { return fmt.Sprint(m.goVals(a[1])...) }),
		"fmt.Fprintln":   print(func(m *Machine, a []any) string { return fmt.Sprintln(m.goVals(a[1])...) }),
		"io.WriteString": print(func(m *Machine, a []any) string { return str(a[1]) }),
		"fmt.Print":      func(m *Machine, _ *ssa.Function, a []any) any { return VTuple{int64(0), nil} },
		"fmt.Append": func(m *Machine, _ *ssa.Function, a []any) any {
			return bytesVal(append(bytesOf(a[0]), fmt.Sprint(m.goVals(a[1])...)...))
		},
		"fmt.Appendf": func(m *Machine, _ *ssa.Function, a []any) any {
			return bytesVal(append(bytesOf(a[0]), m.sprintf(str(a[1]), a[2])...))
		},

		"(*bytes.Buffer).Write":     bytesWritten,
		"(*bytes.Buffer).WriteByte": byteWritten,
		"(*bytes.Buffer).WriteRune": runeWritten,
		"(*bytes.Buffer).Reset":     reset,
		"(*bytes.Buffer).Grow":      func(*Machine, *ssa.Function, []any) any { return nil },
		"(*strings.Builder).Write":  bytesWritten,
		"(*strings.Builder).Reset":  reset,
		"bytes.NewBufferString":     func(m *Machine, _ *ssa.Function, a []any) any { return buffer(m, str(a[0])) },
		"bytes.NewBuffer":           func(m *Machine, _ *ssa.Function, a []any) any { return buffer(m, string(bytesOf(a[0]))) },
		"bufio.NewScanner": func(m *Machine, _ *ssa.Function, a []any) any {
			return m.boxed(bufio.NewScanner(strings.NewReader(m.content(a[0]))))
		},
		"(*bufio.Scanner).Scan":   func(m *Machine, _ *ssa.Function, a []any) any { return m.scanner(a[0]).Scan() },
		"(*bufio.Scanner).Text":   func(m *Machine, _ *ssa.Function, a []any) any { return m.scanner(a[0]).Text() },
		"(*bufio.Scanner).Bytes":  func(m *Machine, _ *ssa.Function, a []any) any { return bytesVal(bytes.Clone(m.scanner(a[0]).Bytes())) },
		"(*bufio.Scanner).Buffer": func(m *Machine, _ *ssa.Function, a []any) any { return nil },
		"(*bufio.Scanner).Err": func(m *Machine, _ *ssa.Function, a []any) any {
			if err := m.scanner(a[0]).Err(); err != nil {
				return m.mkErr(err.Error(), nil)
			}
			return nil
		},
		// what packages bytes and strings are made of
		"internal/bytealg.Count": func(_ *Machine, _ *ssa.Function, a []any) any {
			return int64(bytes.Count(bytesOf(a[0]), []byte{byte(toInt(a[1]))}))
		},
		"internal/bytealg.CountString": func(_ *Machine, _ *ssa.Function, a []any) any {
			return int64(strings.Count(str(a[0]), string([]byte{byte(toInt(a[1]))})))
		},
		"internal/bytealg.Equal": func(_ *Machine, _ *ssa.Function, a []any) any { return bytes.Equal(bytesOf(a[0]), bytesOf(a[1])) },
		"internal/bytealg.Compare": func(_ *Machine, _ *ssa.Function, a []any) any {
			return int64(bytes.Compare(bytesOf(a[0]), bytesOf(a[1])))
		},
		"internal/bytealg.CompareString": i2(strings.Compare),
		"internal/bytealg.IndexByte": func(_ *Machine, _ *ssa.Function, a []any) any {
			return int64(bytes.IndexByte(bytesOf(a[0]), byte(toInt(a[1]))))
		},
		"internal/bytealg.IndexByteString": func(_ *Machine, _ *ssa.Function, a []any) any {
			return int64(strings.IndexByte(str(a[0]), byte(toInt(a[1]))))
		},
		"internal/bytealg.LastIndexByte": func(_ *Machine, _ *ssa.Function, a []any) any {
			return int64(bytes.LastIndexByte(bytesOf(a[0]), byte(toInt(a[1]))))
		},
		"internal/bytealg.LastIndexByteString": func(_ *Machine, _ *ssa.Function, a []any) any {
			return int64(strings.LastIndexByte(str(a[0]), byte(toInt(a[1]))))
		},
		"internal/bytealg.Index": func(_ *Machine, _ *ssa.Function, a []any) any {
			return int64(bytes.Index(bytesOf(a[0]), bytesOf(a[1])))
		},
		"internal/bytealg.IndexString": i2(strings.Index),
		"internal/bytealg.MakeNoZero":  func(_ *Machine, _ *ssa.Function, a []any) any { return bytesVal(make([]byte, toInt(a[0]))) },
		"bytes.Index": func(_ *Machine, _ *ssa.Function, a []any) any {
			return int64(bytes.Index(bytesOf(a[0]), bytesOf(a[1])))
		},
		"bytes.ReplaceAll": func(_ *Machine, _ *ssa.Function, a []any) any {
			return bytesVal(bytes.ReplaceAll(bytesOf(a[0]), bytesOf(a[1]), bytesOf(a[2])))
		},
		"bytes.Contains":                  func(_ *Machine, _ *ssa.Function, a []any) any { return bytes.Contains(bytesOf(a[0]), bytesOf(a[1])) },
		"bytes.HasPrefix":                 func(_ *Machine, _ *ssa.Function, a []any) any { return bytes.HasPrefix(bytesOf(a[0]), bytesOf(a[1])) },
		"bytes.TrimSpace":                 func(_ *Machine, _ *ssa.Function, a []any) any { return bytesVal(bytes.TrimSpace(bytesOf(a[0]))) },
		"internal/stringslite.HasPrefix":  b2(strings.HasPrefix),
		"internal/stringslite.HasSuffix":  b2(strings.HasSuffix),
		"internal/stringslite.Index":      i2(strings.Index),
		"internal/stringslite.TrimPrefix": s2(strings.TrimPrefix),
		"internal/stringslite.TrimSuffix": s2(strings.TrimSuffix),
		"internal/stringslite.Clone":      s1(strings.Clone),
		"internal/stringslite.IndexByte": func(_ *Machine, _ *ssa.Function, a []any) any {
			return int64(strings.IndexByte(str(a[0]), byte(toInt(a[1]))))
		},
		"internal/stringslite.Cut": func(_ *Machine, _ *ssa.Function, a []any) any {
			x, y, ok := strings.Cut(str(a[0]), str(a[1]))
			return VTuple{x, y, ok}
		},
		"strconv.Unquote": func(m *Machine, _ *ssa.Function, a []any) any {
			s, err := strconv.Unquote(str(a[0]))
			if err != nil {
				return VTuple{"", m.mkErr(err.Error(), nil)}
			}
			return VTuple{s, nil}
		},
	} {
		natives[name] = f
	}
}
