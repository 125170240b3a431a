package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"time"
)

type propFn func(r *Report)

var props = map[string]propFn{}
var propertyRule = map[string]string{}

func register(id, rule string, f propFn) {
	props[id] = f
	propertyRule[id] = rule
}

func main() {
	prop := flag.String("prop", "", "property id, or all")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	flag.StringVar(&repoDir, "repo", "/repo", "repository")
	flag.Parse()
	if *tier == "" {
		*tier = "quick"
	}
	var ids []string
	if *prop == "all" {
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = []string{*prop}
	}
	code := 0
	for _, id := range ids {
		if c := runProp(id, *tier); c != 0 {
			code = 1
		}
	}
	os.Exit(code)
}

func runProp(id, tier string) (code int) {
	start := time.Now()
	f := props[id]
	if f == nil {
		fmt.Println("unknown property", id)
		return 1
	}
	w, err := world()
	r := &Report{ID: id, Tier: tier, W: w, Counts: map[string]int{}, start: start, seen: map[string]bool{}}
	if err != nil {
		r.W = &World{}
		r.FailAt("load", "-", "%v", err)
		return r.Finish()
	}
	defer func() {
		if e := recover(); e != nil {
			r.FailAt("checker-panic", "-", "the analysis failed: %v\n%s", e, debug.Stack())
			code = r.Finish()
		}
	}()
	if id[0] == 'C' {
		dog := time.AfterFunc(780*time.Second, func() {
			// a verdict in any case: what could not be analysed is not shown to hold
			late := &Report{ID: id, Tier: tier, W: w, Counts: map[string]int{}, start: start, seen: map[string]bool{}}
			late.FailAt("undecided:time", "-", "the analysis did not end in %s", time.Since(start).Round(time.Second))
			os.Exit(late.Finish())
		})
		defer dog.Stop()
	}
	f(r)
	return r.Finish()
}

var theWorld *World

func world() (*World, error) {
	if theWorld != nil {
		return theWorld, nil
	}
	w, err := LoadWorld()
	theWorld = w
	return w, err
}
