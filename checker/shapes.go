package main

import (
	"encoding/json"
	"fmt"
	"strings"
)

// Document shapes. Each shape is an AsyncAPI document in a small subset of
// YAML; flow values are JSON. The shapes cover the cross product of what the
// templates branch on: see the coverage reported by C23.

type Shape struct {
	Name  string
	Major int
	YAML  string
	Opts  func(o map[string]any) // option overrides
	// Doc is the document itself, when it is not given as text
	Doc any
	// Targets are the parts generated, all of them by default
	Targets []string
}

func parseYAML(src string) (any, error) {
	type ln struct {
		ind int
		txt string
	}
	var ls []ln
	for _, l := range strings.Split(src, "\n") {
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		ls = append(ls, ln{len(l) - len(strings.TrimLeft(l, " ")), t})
	}
	var bad error
	scalar := func(s string) any {
		var v any
		if json.Unmarshal([]byte(s), &v) == nil {
			return v
		}
		if s[0] == '{' || s[0] == '[' || s[0] == '"' {
			bad = fmt.Errorf("bad flow value %s", s)
		}
		return strings.Trim(s, "'")
	}
	i := 0
	var block func(ind int) any
	block = func(ind int) any {
		if strings.HasPrefix(ls[i].txt, "- ") {
			out := []any{}
			for i < len(ls) && ls[i].ind == ind && strings.HasPrefix(ls[i].txt, "- ") {
				rest := ls[i].txt[2:]
				if strings.Contains(rest, ": ") && rest[0] != '{' && rest[0] != '"' || strings.HasSuffix(rest, ":") {
					ls[i] = ln{ind + 2, rest}
					out = append(out, block(ind+2))
					continue
				}
				out = append(out, scalar(rest))
				i++
			}
			return out
		}
		out := map[string]any{}
		for i < len(ls) && ls[i].ind == ind && !strings.HasPrefix(ls[i].txt, "- ") {
			l := ls[i].txt
			var k, v string
			if strings.HasSuffix(l, ":") {
				k = l[:len(l)-1]
			} else if j := strings.Index(l, ": "); j > 0 {
				k, v = l[:j], strings.TrimSpace(l[j+2:])
			} else {
				bad = fmt.Errorf("bad line %q", l)
				i++
				continue
			}
			k = strings.Trim(k, "'\"")
			i++
			if v != "" {
				out[k] = scalar(v)
			} else if i < len(ls) && (ls[i].ind > ind || ls[i].ind == ind && strings.HasPrefix(ls[i].txt, "- ")) {
				out[k] = block(ls[i].ind)
			} else {
				out[k] = nil
			}
		}
		if i < len(ls) && ls[i].ind > ind {
			bad = fmt.Errorf("bad indentation at %q", ls[i].txt)
			i = len(ls)
		}
		return out
	}
	v := block(ls[0].ind)
	if i < len(ls) && bad == nil {
		bad = fmt.Errorf("bad indentation at %q", ls[i].txt)
	}
	return v, bad
}
