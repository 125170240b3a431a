package main

import (
	"fmt"
	"go/scanner"
	"go/token"
	"strconv"
	"strings"
)

// C39: the texts of a document stay text. The generator is folded over documents that have
// a text with special characters in one place (descriptions, addresses, names, versions); the tokens of the generated code, comments apart, have to be the same as with a plain
// text in that place, but for the literals that hold the text, whose value has to hold it
// exactly.

func init() {
	register("C39", "constant propagation through the parser, the document model, the generators and their templates over SSA, for documents with special characters (quotes, backslashes, line ends, comment marks, verbs, template actions) in each place that holds text: the token sequence of the folded code is compared with the one for a plain text, literals by value", ruleTexts)
}

// textPlace is a place of a document that holds text.
type textPlace struct {
	major int
	name  string
	kind  string // "free", "name" (also becomes an identifier) or "address"
}

// specials are put between two words.
var specials = []struct {
	what, text string
	kinds      string
}{
	{"a quote", `"`, "free name address"},
	{"a backslash", `\`, "free name address"},
	{"an escape", `\n`, "free"},
	{"an escape of a quote", `\"`, "free name address"},
	{"a backquote", "`", "free name address"},
	{"an apostrophe", "'", "free name address"},
	{"a line end", "\n", "free name address"},
	{"two line ends", "\n\n", "free name address"},
	{"a line end of another system", "\r\n", "free name address"},
	{"a carriage return", "\r", "free name address"},
	{"three lines", "\n+\n+", "free name address"},
	{"a line that looks like code", "\n}\nfunc init() { panic(0) }\n//", "free"},
	{"a line that looks like a comment", "\n// ", "free name address"},
	{"the end of a comment", "*/", "free name"},
	{"the end of a comment and code", "*/ + /*", "free name"},
	{"lines and the end of a comment", "\n*/\n", "free name"},
	{"lines, the end of a comment and code", "\n*/ + /*\n", "free"},
	{"lines and everything", "\n\"`'\\ */*\n\t// %s\r\n/* {{.}}\n\n", "free"},
	{"the start of a comment", "/*", "free name"},
	{"a percent", "%", "free name address"},
	{"a verb", "%s", "free"},
	{"an action", "{{.}}", "free"},
	{"a tabulation", "\t", "free name address"},
	{"a line separator", "\u2028", "free"},
	{"markup", "<&>", "free name address"},
	{"a concatenation", `" + "`, "free name address"},
}

// textDoc makes a document whose texts are plain, but for one.
func textDoc(major int, at func(place, kind, def string) string) doc {
	free := func(p string) string { return at(p, "free", "zz neutral") }
	name := func(p string) string { return at(p, "name", "zz neutral") }
	str := func(p string) doc { return doc{"type": "string", "description": free(p)} }
	payload := func(p string) doc {
		return doc{"type": "object", "title": free(p + " title"), "description": free(p + " description"), "required": []any{"list"}, "properties": doc{
			"plain": str(p + " property description"),
			"list":  doc{"type": "array", "description": free(p + " list description"), "items": doc{"type": "object", "description": free(p + " item description"), "properties": doc{"deep": str(p + " deep description")}}},
			"inner": doc{"type": "object", "description": free(p + " object description"), "properties": doc{"deep": str(p + " inner description")}},
			"bare":  doc{"description": free(p + " untyped description")},
			"refer": doc{"$ref": "#/components/schemas/common"},
			"some":  doc{"anyOf": []any{doc{"type": "object", "description": free(p + " alternative description"), "properties": doc{"a": doc{"type": "string"}}}, doc{"type": "object", "properties": doc{"b": doc{"type": "string"}}}}},
			"date":  doc{"type": "string", "format": "date-time", "description": free(p + " date description")},
		}, "additionalProperties": str(p + " additional description")}
	}
	headers := func(p string) doc {
		return doc{"type": "object", "description": free(p + " description"), "required": []any{"first"}, "properties": doc{
			"first":  str(p + " required description"),
			"second": doc{"type": "integer", "description": free(p + " optional description")},
			"corr":   str(p + " correlation description"),
		}}
	}
	msg := func(p string) doc {
		return doc{"name": free(p + " name"), "title": free(p + " title"), "summary": free(p + " summary"), "description": free(p + " description"), "headers": headers(p + " headers"), "payload": payload(p + " payload"),
			"correlationId": doc{"description": free(p + " correlation description"), "location": "$message.header#/corr"}}
	}
	info := doc{"title": free("info title"), "version": at("info version", "free", "zz neutral"), "description": free("info description")}
	schemas := doc{
		"common":                 doc{"type": "object", "description": free("referred schema description"), "properties": doc{"a": str("referred schema property description")}},
		"text":                   str("schema description"),
		"numbers":                doc{"type": "array", "description": free("list schema description"), "items": doc{"type": "integer", "description": free("integer item description")}},
		name("schema name"):      doc{"type": "object", "properties": doc{"a": doc{"type": "string"}}},
		name("text schema name"): doc{"type": "string"},
	}
	if major == 2 {
		par := func(p string) doc {
			return doc{"description": free(p + " description"), "schema": doc{"type": "string", "description": free(p + " schema description")}}
		}
		m := msg("message")
		delete(m, "name")
		op := func(p, msg string) doc {
			return doc{"operationId": name(p + " identifier"), "summary": free(p + " summary"), "description": free(p + " description"), "message": doc{"$ref": msg}}
		}
		return doc{"asyncapi": "2.6.0", "info": info, "channels": doc{
			"plain":                                doc{"description": free("channel description"), "publish": op("published", "#/components/messages/mone"), "subscribe": op("subscribed", "#/components/messages/mtwo")},
			"par.{one}.{two}":                      doc{"parameters": doc{"one": par("parameter"), "two": doc{"$ref": "#/components/parameters/two"}}, "publish": doc{"message": msg("inline message")}},
			at("channel", "address", "zz neutral"): doc{"publish": doc{"message": doc{"payload": doc{"type": "string"}}}},
			at("subscribed channel", "address", "zz neutral"):            doc{"subscribe": doc{"message": doc{"payload": doc{"type": "string"}}}},
			at("parameters channel", "address", "zz neutral") + ".{one}": doc{"parameters": doc{"one": doc{"schema": doc{"type": "string"}}}, "publish": doc{"message": doc{"payload": doc{"type": "string"}}}},
		}, "components": doc{"schemas": schemas, "parameters": doc{"two": par("referred parameter")}, "messages": doc{"mone": m, "mtwo": doc{"payload": doc{"type": "string"}, "description": free("plain message description")}, name("message key"): doc{"payload": doc{"type": "string"}}}}}
	}
	par := func(p string) doc {
		return doc{"description": free(p + " description"), "location": "$message.payload#/plain"}
	}
	op := func(p, action, ch string) doc {
		return doc{"action": action, "channel": doc{"$ref": ch}, "title": free(p + " title"), "summary": free(p + " summary"), "description": free(p + " description")}
	}
	reply := op("replying operation", "receive", "#/channels/asked")
	reply["reply"] = doc{"address": doc{"location": "$message.header#/first", "description": free("reply address description")}, "channel": doc{"$ref": "#/channels/answer"}}
	asked := op("asking operation", "send", "#/channels/asked")
	asked["reply"] = doc{"channel": doc{"$ref": "#/channels/fixed"}}
	return doc{"asyncapi": "3.0.0", "info": info, "channels": doc{
		"plain":                        doc{"address": at("address", "address", "zz neutral"), "title": free("channel title"), "summary": free("channel summary"), "description": free("channel description"), "messages": doc{"mone": doc{"$ref": "#/components/messages/mone"}}},
		"par":                          doc{"address": at("parameters address", "address", "zz neutral") + ".{one}.{two}", "parameters": doc{"one": par("parameter"), "two": doc{"$ref": "#/components/parameters/two"}}, "messages": doc{"inl": msg("inline message")}},
		"asked":                        doc{"address": "asked", "messages": doc{"ask": msg("asking message")}},
		"answer":                       doc{"address": nil, "messages": doc{"ans": doc{"payload": doc{"type": "string", "description": free("answer description")}}}},
		"fixed":                        doc{"address": "fixed", "messages": doc{"fix": doc{"payload": doc{"type": "string"}}}},
		name("channel key"):            doc{"address": "named", "messages": doc{name("channel message key"): doc{"payload": doc{"type": "string"}}}},
		name("parameters channel key"): doc{"address": "named.{id}", "parameters": doc{"id": doc{}}, "messages": doc{"m": doc{"payload": doc{"type": "string"}}}},
	}, "operations": doc{
		"sending":   op("sending operation", "send", "#/channels/plain"),
		"receiving": op("receiving operation", "receive", "#/channels/plain"),
		"params":    op("operation with parameters", "send", "#/channels/par"),
		"paramr":    op("receiving operation with parameters", "receive", "#/channels/par"),
		"replying":  reply, "asking": asked,
		name("operation key"):           doc{"action": "send", "channel": doc{"$ref": "#/channels/fixed"}},
		name("receiving operation key"): doc{"action": "receive", "channel": doc{"$ref": "#/channels/fixed"}},
	}, "components": doc{"schemas": schemas, "parameters": doc{"two": par("referred parameter")}, "messages": doc{"mone": msg("message"), name("message key"): doc{"payload": doc{"type": "string"}}}}}
}

type goToken struct {
	tok token.Token
	lit string
	pos int
}

// tokensOf are the tokens of a text without its comments.
func tokensOf(text string) (out []goToken, err error) {
	fs := token.NewFileSet()
	f := fs.AddFile("g.go", -1, len(text))
	var s scanner.Scanner
	s.Init(f, []byte(text), func(pos token.Position, msg string) {
		if err == nil {
			err = fmt.Errorf("line %d: %s", pos.Line, msg)
		}
	}, 0)
	for {
		p, t, l := s.Scan()
		if t == token.EOF {
			return out, err
		}
		if t == token.SEMICOLON {
			l = ""
		}
		out = append(out, goToken{t, l, f.Offset(p)})
	}
}

func ruleTexts(r *Report) {
	const plain = "zz neutral"
	// the text is put in one place, or in all those whose kind is among some
	fold := func(major int, pos, kinds, text string) *Expansion {
		d := textDoc(major, func(place, kind, def string) string {
			t := "other"
			if place == pos || pos == "" && isIn2(kind, strings.Fields(kinds)) {
				t = text
			}
			if kind != "free" {
				t = strings.ReplaceAll(place, " ", "") + " " + t
			}
			return t
		})
		return r.W.foldShapeWith(Shape{Name: "text", Major: major, Doc: d, Opts: func(o map[string]any) { o["DisableFormatting"] = true }},
			func(m *Machine) { m.NoLines = true })
	}
	// differs tells how a text changes the code
	differs := func(base []goToken, x *Expansion, text string, literals *int) string {
		toks, err := tokensOf(x.Text)
		if err != nil {
			return fmt.Sprintf("the generated code cannot be read: %v", err)
		}
		for k := range base {
			if k >= len(toks) {
				return "the generated code is cut"
			}
			if d := tokenDiffers(base, toks, k, plain, text); d != "" {
				return "the text changes the generated code: " + d
			}
			if base[k].tok == token.STRING && strings.Contains(base[k].lit, plain) {
				*literals++
			}
		}
		if len(toks) > len(base) {
			return fmt.Sprintf("the text changes the generated code: %q follows", toks[len(base)].lit)
		}
		return ""
	}
	type job struct {
		major, special int
		kinds, text    string
		x              *Expansion
	}
	var jobs []*job
	places := map[int][]textPlace{}
	have := map[string]bool{}
	bases := map[string][]goToken{}
	for _, major := range []int{2, 3} {
		seen := map[string]bool{}
		textDoc(major, func(place, kind, def string) string {
			if !seen[place] {
				seen[place] = true
				places[major] = append(places[major], textPlace{major, place, kind})
			}
			return "x " + place
		})
		r.Count("places", len(places[major]))
		for i := range specials {
			if k := specials[i].kinds; !have[fmt.Sprint(major, k)] {
				have[fmt.Sprint(major, k)] = true
				jobs = append(jobs, &job{major: major, special: -1, kinds: k, text: plain})
			}
		}
		for i, s := range specials {
			jobs = append(jobs, &job{major: major, special: i, kinds: s.kinds, text: "zz" + s.text + "neutral"})
			if strings.HasPrefix(s.text, "\n") {
				jobs = append(jobs, &job{major: major, special: i, kinds: "free", text: s.text + plain}, &job{major: major, special: i, kinds: "free", text: plain + s.text})
			}
		}
	}
	literals, narrowed := 0, map[int]int{}
	parallel(len(jobs), func(i int) { j := jobs[i]; j.x = fold(j.major, "", j.kinds, j.text) })
	for _, j := range jobs {
		what := fmt.Sprintf("v%d texts", j.major)
		if j.x.Err != nil || j.x.Panic != nil {
			r.FailAt("undecided:"+what, what, "the generator could not be folded over the document with the texts %q: %v", j.text, j.x.Err)
			continue
		}
		if j.special < 0 {
			base, err := tokensOf(j.x.Text)
			if err != nil {
				r.FailAt("undecided:"+what, what, "the generated text cannot be read: %v", err)
			}
			bases[fmt.Sprintf("%d:%s", j.major, j.kinds)] = base
			r.Count("texts in the generated code", strings.Count(j.x.Text, plain))
			continue
		}
		base := bases[fmt.Sprintf("%d:%s", j.major, j.kinds)]
		if base == nil {
			r.FailAt("undecided:"+what, what, "no plain document to compare with for %s", j.kinds)
			continue
		}
		d := differs(base, j.x, j.text, &literals)
		var at []textPlace
		if d != "" {
			narrowed[j.major]++
		}
		for _, pl := range places[j.major] {
			if isIn2(pl.kind, strings.Fields(j.kinds)) {
				r.Count("texts", 1)
				if d != "" && narrowed[j.major] <= 3 || r.Tier == "thorough" {
					at = append(at, pl)
				}
			}
		}
		// one place at a time
		found := false
		found2 := make([]string, len(at))
		parallel(len(at), func(i int) {
			a, b := fold(j.major, at[i].name, "", plain), fold(j.major, at[i].name, "", j.text)
			if a.Err != nil || b.Err != nil || a.Panic != nil || b.Panic != nil {
				found2[i] = fmt.Sprintf("the generator could not be folded: %v %v", a.Err, b.Err)
				return
			}
			ta, err := tokensOf(a.Text)
			if err != nil {
				return
			}
			var n int
			found2[i] = differs(ta, b, j.text, &n)
		})
		for i, pl := range at {
			if found2[i] != "" {
				found = true
				w := fmt.Sprintf("v%d %s", pl.major, pl.name)
				r.FailAt("code:"+w, w, "with %s (%q): %s", specials[j.special].what, j.text, found2[i])
			}
		}
		if d != "" && !found {
			r.FailAt("code:"+what, what, "with %s (%q) in all texts: %s", specials[j.special].what, j.text, d)
		}
	}
	r.Count("literals compared", literals)
	r.Floor("places", 120)
	r.Floor("texts", 2000)
	r.Floor("texts in the generated code", 300)
	r.Floor("literals compared", 100)
}

// tokenDiffers compares two tokens, literals that hold the text by value.
func tokenDiffers(base, toks []goToken, k int, plain, text string) string {
	a, b := base[k], toks[k]
	if a.tok == b.tok && a.lit == b.lit && !strings.Contains(a.lit, plain) {
		return ""
	}
	if a.tok != b.tok {
		return fmt.Sprintf("%s %q instead of %s %q", b.tok, b.lit, a.tok, a.lit)
	}
	if a.tok != token.STRING {
		return fmt.Sprintf("%q instead of %q", b.lit, a.lit)
	}
	x, err1 := strconv.Unquote(a.lit)
	y, err2 := strconv.Unquote(b.lit)
	if err1 != nil || err2 != nil {
		return fmt.Sprintf("the literal %s cannot be read", b.lit)
	}
	want := strings.ReplaceAll(x, plain, text)
	if isFormat(toks, k) {
		want = strings.ReplaceAll(x, plain, strings.ReplaceAll(text, "%", "%%"))
	}
	if y != want {
		return fmt.Sprintf("the literal %s instead of %q", b.lit, want)
	}
	return ""
}

// isFormat: the token is the first argument of a function that takes a format.
func isFormat(toks []goToken, k int) bool {
	return k >= 2 && toks[k-1].tok == token.LPAREN && (toks[k-2].lit == "Sprintf" || toks[k-2].lit == "Errorf")
}
