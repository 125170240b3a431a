package main

import (
	"fmt"
	"os"
	"strings"
)

func init() {
	register("dbg", "debug", func(r *Report) {
		in := r.Interp()
		spec := os.Getenv("FN") // pkg:name
		p, n, _ := strings.Cut(spec, ":")
		f := r.W.Func(Mod+"/"+p, n)
		for _, th := range in.threads(f, in.ParamTerms(f), nil) {
			for _, t := range th.traces {
				fmt.Printf("--- %s %s\n%s", th.fn, th.spawn, in.Describe(t))
			}
		}
	})
}

func init() {
	register("dbggen", "debug", func(r *Report) {
		in, _, _, ts := r.generation()
		for _, t := range ts {
			fmt.Printf("---\n%s", in.Describe(t))
		}
	})
}
