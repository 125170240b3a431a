package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Fn wraps a resolved anchor function.
type Fn struct{ F *ssa.Function }

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// fullName: the qualified name of a function or a method.
func fullName(o types.Object) string {
	if f, ok := o.(*types.Func); ok {
		return f.FullName()
	}
	return ""
}

func fnName(f *ssa.Function) string { return strings.ReplaceAll(f.String(), Mod+"/", "") }
