package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

func init() {
	register("shape", "debug", func(r *Report) {
		for _, sh := range allShapes() {
			key := fmt.Sprintf("%s.v%d", sh.Name, sh.Major)
			if s := os.Getenv("SHAPE"); s != "" && !strings.HasPrefix(key, s) {
				continue
			}
			x := r.W.Expand(sh)
			fmt.Printf("=== %s: %d bytes, err=%v type errors=%d\n", key, len(x.Text), x.Err, len(x.TypeErr))
			if x.Panic != nil {
				fmt.Println("   panic at", r.W.PosStr(x.Panic.pos), x.Panic.stack)
			}
			for _, e := range x.TypeErr {
				fmt.Println("   ", r.W.PosStr(e.Pos), e.Msg)
			}
			if os.Getenv("TEXT") != "" {
				for _, l := range strings.Split(x.Text, "\n") {
					if !strings.HasPrefix(l, "//line") && strings.TrimSpace(l) != "" {
						fmt.Println(l)
					}
				}
			}
		}
		if os.Getenv("COV") != "" {
			cov := map[string][2]int{}
			for _, sh := range allShapes() {
				for k, b := range r.W.Expand(sh).Branch {
					c := cov[k]
					c[0] += b[0]
					c[1] += b[1]
					cov[k] = c
				}
			}
			var ks []string
			for k, c := range cov {
				if c[0] == 0 || c[1] == 0 {
					ks = append(ks, fmt.Sprint(k, c))
				}
			}
			sort.Strings(ks)
			fmt.Println(strings.Join(ks, "\n"))
		}
	})
}

func allShapes() []Shape {
	return append(append(append(append([]Shape{}, shapes3...), shapes2...), shapesMore...), orderShapes()...)
}
