package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register("C35", "the document model is compared with the format: starting from the specification object, the structure that encoding/json decodes each object into is found through the field that takes its key, and every object of the format is checked: each key this tool reads is taken by exactly one field (after the rules of encoding/json for embedded structures), no field takes a key that the format does not give to the object, no field takes the key of another one, and the type of the field can hold every kind of value that the format allows there", ruleKeys)
}

// The formats: an object per line, with its keys and the kinds of their values.
// A key with a star is one that is read; a key with a plus is an addition of
// asyncapi-codegen to the format. Kinds: s string, n number, i non-negative
// integer, b boolean, a any value, @Object, [kind] list, {kind} map, k|k either.
const formatV2 = `
Specification: asyncapi*s id:s info*@Info servers:{a} defaultContentType:s channels*{@Channel} components*@Components tags:[a] externalDocs:a
Info: title*s version*s description*s termsOfService:s contact:a license:a
Channel: $ref:s description:s servers:[s] subscribe*@Operation publish*@Operation parameters*{@Parameter} bindings:a
Operation: operationId*s summary:s description:s security:[a] tags:[a] externalDocs:a bindings:a traits:[a] message*@Message
Message: $ref*s oneOf*[@Message] messageId:s headers*@Schema payload*@Schema correlationId*@CorrelationID schemaFormat:s contentType:s name:s title:s summary:s description*s tags:[a] externalDocs:a bindings:a examples:[a] traits:[a]
CorrelationID: $ref:s description*s location*s
Parameter: $ref*s description*s schema*@Schema location*s
Components: schemas*{@Schema} servers:{a} serverVariables:{a} channels:{@Channel} messages*{@Message} securitySchemes:{a} parameters*{@Parameter} correlationIds:{@CorrelationID} operationTraits:{a} messageTraits:{a} serverBindings:{a} channelBindings:{a} operationBindings:{a} messageBindings:{a}
Schema(b): $ref*s title:s type*s|[s] description*s format*s default:a examples:[a] readOnly:b writeOnly:b properties*{@Schema} patternProperties:{@Schema} additionalProperties*@Schema additionalItems:@Schema items*@Schema|[@Schema] propertyNames:@Schema contains:@Schema allOf*[@Schema] anyOf*[@Schema] oneOf*[@Schema] not:@Schema ` + formatSchema + `
GoTypeImport: name+s path+s
`

const formatSchema = `required*[s] multipleOf*n maximum*n exclusiveMaximum*n minimum*n exclusiveMinimum*n maxLength*i minLength*i pattern*s maxItems*i minItems*i uniqueItems*b maxProperties*i minProperties*i enum*[a] const*a if:@Schema then:@Schema else:@Schema dependencies:a definitions:{@Schema} $id:s $schema:s $comment:s discriminator:s externalDocs:a deprecated:b contentEncoding:s contentMediaType:s x-go-type+s x-go-type-import+@GoTypeImport x-omitempty+b`

const formatBindings = `http*a ws*a kafka*a anypointmq*a amqp*a amqp1*a mqtt*a mqtt5*a nats*a jms*a sns*a solace*a sqs*a stomp*a redis*a mercure*a ibmmq*a googlepubsub*a pulsar*a`

const formatV3 = `
Specification: asyncapi*s id*s info*@Info servers*{@Server} defaultContentType*s channels*{@Channel} operations*{@Operation} components*@Components
Info: title*s version*s description*s termsOfService*s contact*@Contact license*@License tags*[@Tag] externalDocs*@ExternalDocs
Contact: name*s url*s email*s
License: name*s url*s
Server: $ref*s host*s protocol*s protocolVersion*s pathname*s description*s title*s summary*s variables*{@ServerVariable} security*[@SecurityScheme] tags*[@Tag] externalDocs*@ExternalDocs bindings*@ServerBindings
ServerVariable: $ref*s enum*[s] default*s description*s examples*[s]
Channel: $ref*s address*s messages*{@Message} title*s summary*s description*s servers*[@Server] parameters*{@Parameter} tags*[@Tag] externalDocs*@ExternalDocs bindings*@ChannelBindings
Operation: $ref*s action*s channel*@Channel title*s summary*s description*s security*[@SecurityScheme] tags*[@Tag] externalDocs*@ExternalDocs bindings*@OperationBindings traits*[@OperationTrait] messages*[@Message] reply*@OperationReply
OperationTrait: $ref*s title*s summary*s description*s security*[@SecurityScheme] tags*[@Tag] externalDocs*@ExternalDocs bindings*@OperationBindings
OperationReply: $ref*s address*@ReplyAddress channel*@Channel messages*[@Message]
ReplyAddress: $ref*s description*s location*s
Parameter: $ref*s enum*[s] default*s description*s examples*[s] location*s
ServerBindings: $ref*s ` + formatBindings + `
ChannelBindings: $ref*s ` + formatBindings + `
OperationBindings: $ref*s ` + formatBindings + `
MessageBindings: $ref*s ` + formatBindings + `
Message: $ref*s headers*@Schema payload*@Schema correlationId*@CorrelationID contentType*s name*s title*s summary*s description*s tags*[@Tag] externalDocs*@ExternalDocs bindings*@MessageBindings examples*[@MessageExample] traits*[@MessageTrait] oneOf+[@Message]
MessageTrait: $ref*s headers*@Schema correlationId*@CorrelationID contentType*s name*s title*s summary*s description*s tags*[@Tag] externalDocs*@ExternalDocs bindings*@MessageBindings examples*[@MessageExample] payload+@Schema
MessageExample: headers*{a} payload*a name*s summary*s $ref+s
Tag: $ref*s name*s description*s externalDocs*@ExternalDocs
ExternalDocs: $ref*s description*s url*s
Components: schemas*{@Schema} servers*{@Server} channels*{@Channel} operations*{@Operation} messages*{@Message} securitySchemes*{@SecurityScheme} serverVariables*{@ServerVariable} parameters*{@Parameter} correlationIds*{@CorrelationID} replies*{@OperationReply} replyAddresses*{@ReplyAddress} externalDocs*{@ExternalDocs} tags*{@Tag} operationTraits*{@OperationTrait} messageTraits*{@MessageTrait} serverBindings*{@ServerBindings} channelBindings*{@ChannelBindings} operationBindings*{@OperationBindings} messageBindings*{@MessageBindings}
CorrelationID: $ref*s description*s location*s
SecurityScheme: $ref*s type*s description*s name*s in*s scheme*s bearerFormat*s flows*@OAuthFlows openIdConnectUrl*s scopes*[s]
OAuthFlows: implicit*@OAuthFlow password*@OAuthFlow clientCredentials*@OAuthFlow authorizationCode*@OAuthFlow
OAuthFlow: authorizationUrl*s tokenUrl*s refreshUrl*s availableScopes*{s}
Schema(b): $ref*s title*s type*s|[s] examples*[a] readOnly*b writeOnly*b properties*{@Schema} patternProperties*{@Schema} additionalProperties*@Schema additionalItems*@Schema items*@Schema|[@Schema] propertyNames*@Schema contains*@Schema allOf*[@Schema] anyOf*[@Schema] oneOf*[@Schema] not*@Schema description*s format*s default*a ` + formatSchema + `
GoTypeImport: name+s path+s
`

// A key of an object of the format.
type fkey struct {
	name string
	mark byte
	kind string
}

type fobject struct {
	name string
	alt  string // another kind of value allowed instead of the object
	keys []*fkey
	by   map[string]*fkey // by lower-case name
}

func parseFormat(text string) map[string]*fobject {
	out := map[string]*fobject{}
	for _, l := range strings.Split(text, "\n") {
		if l == "" {
			continue
		}
		i := strings.Index(l, ": ")
		o := &fobject{name: l[:i], by: map[string]*fkey{}}
		if j := strings.IndexByte(o.name, '('); j > 0 {
			o.name, o.alt = o.name[:j], strings.Trim(o.name[j:], "()")
		}
		for _, w := range strings.Fields(l[i+2:]) {
			j := strings.IndexAny(w, "*+:")
			k := &fkey{w[:j], w[j], w[j+1:]}
			o.keys = append(o.keys, k)
			o.by[strings.ToLower(k.name)] = k
		}
		out[o.name] = o
	}
	return out
}

// A field that takes a key, as encoding/json sees it.
type kfield struct {
	v      *types.Var
	key    string
	tagged bool
	depth  int
	quoted bool
}

// keyFields lists the candidates of each key of a structure.
func keyFields(t types.Type) map[string][]*kfield {
	out := map[string][]*kfield{}
	seen := map[types.Type]bool{}
	var rec func(t types.Type, depth int)
	rec = func(t types.Type, depth int) {
		st, ok := t.Underlying().(*types.Struct)
		if !ok || seen[t] {
			return
		}
		seen[t] = true
		for i := 0; i < st.NumFields(); i++ {
			v := st.Field(i)
			tag := reflectTag(st.Tag(i), "json")
			if tag == "-" {
				continue
			}
			name, opts, _ := strings.Cut(tag, ",")
			if v.Embedded() && name == "" {
				e := v.Type()
				if p, ok := e.Underlying().(*types.Pointer); ok {
					e = p.Elem()
				}
				if _, ok := e.Underlying().(*types.Struct); ok {
					rec(e, depth+1)
					continue
				}
			}
			if !v.Exported() {
				continue
			}
			f := &kfield{v: v, key: name, tagged: name != "", depth: depth}
			if name == "" {
				f.key = v.Name()
			}
			for _, o := range strings.Split(opts, ",") {
				f.quoted = f.quoted || o == "string"
			}
			k := strings.ToLower(f.key)
			out[k] = append(out[k], f)
		}
	}
	rec(t, 0)
	return out
}

// dominant is the field that is filled from the key, or why there is none.
func dominant(l []*kfield) (*kfield, string) {
	best := l[0].depth
	for _, f := range l {
		if f.depth < best {
			best = f.depth
		}
	}
	var top []*kfield
	for _, f := range l {
		if f.depth == best {
			top = append(top, f)
		}
	}
	if len(top) > 1 {
		var tagged []*kfield
		for _, f := range top {
			if f.tagged {
				tagged = append(tagged, f)
			}
		}
		if len(tagged) == 1 {
			top = tagged
		}
	}
	names := map[string]bool{}
	for _, f := range l {
		names[f.v.Name()] = true
	}
	if len(top) > 1 || len(names) > 1 {
		var ns []string
		for n := range names {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		return top[0], "is claimed by several fields (" + strings.Join(ns, ", ") + ")"
	}
	return top[0], ""
}

type keyCheck struct {
	r     *Report
	major int
	fmt   map[string]*fobject
	seen  map[string]bool
	refs  map[string]types.Type
}

func ruleKeys(r *Report) {
	models := specModels(r.W)
	if len(models) != 2 {
		r.Fail("anchor specification", token.NoPos, "the specification types of both generations of the model were not found")
		return
	}
	for _, m := range models {
		text := formatV2
		if m.major == 3 {
			text = formatV3
		}
		c := &keyCheck{r: r, major: m.major, fmt: parseFormat(text), seen: map[string]bool{}}
		o := r.W.SSA[m.pkg].Pkg.Scope().Lookup("Specification")
		c.object("Specification", o.Type(), "Specification")
		for n := range c.fmt {
			if !c.reached(n) {
				r.Fail(fmt.Sprintf("v%d object %s unreached", m.major, n), o.Pos(), "no field of the model leads to the "+n+" objects of the format")
			}
		}
	}
	r.Floor("keys", 300)
	r.Floor("objects", 35)
	r.Floor("kinds", 300)
}

func (c *keyCheck) reached(n string) bool {
	for k := range c.seen {
		if strings.HasPrefix(k, n+" ") {
			return true
		}
	}
	return false
}

func normName(s string) string {
	var b strings.Builder
	for _, x := range strings.ToLower(s) {
		if x >= 'a' && x <= 'z' || x >= '0' && x <= '9' {
			b.WriteRune(x)
		}
	}
	return b.String()
}

// object compares an object of the format with the structure that receives it.
func (c *keyCheck) object(name string, t types.Type, via string) {
	id := name + " " + types.TypeString(t, nil)
	if c.seen[id] {
		return
	}
	c.seen[id] = true
	o := c.fmt[name]
	r := c.r
	short := types.TypeString(t, func(p *types.Package) string { return "" })
	at := token.NoPos
	if n, ok := types.Unalias(t).(*types.Named); ok {
		at = n.Obj().Pos()
	}
	label := fmt.Sprintf("v%d %s", c.major, name)
	if declares(t, "UnmarshalJSON") || declares(t, "UnmarshalText") {
		r.Fail(label+" custom", at, short+" decodes itself: which keys its fields are read from is not decided")
		return
	}
	if _, ok := t.Underlying().(*types.Struct); !ok {
		r.Fail(label+" type", at, "the "+name+" objects are received by "+short+", which is not a structure")
		return
	}
	r.Count("objects", 1)
	if o.alt != "" && !holdsKind(o.alt, t, nil) {
		r.Fail(label+" alternative "+kindName(o.alt), at, fmt.Sprintf("the format allows %s where a %s is expected, but %s refuses it: documents that use it are not accepted", kindName(o.alt), name, short))
	}
	fields := keyFields(t)
	for _, k := range o.keys {
		l := fields[strings.ToLower(k.name)]
		if len(l) == 0 {
			if k.mark != ':' {
				r.Fail(label+"."+k.name+" missing", at, fmt.Sprintf("no field of %s is read from the key %q of %s objects (%s)", short, k.name, name, via))
			}
			continue
		}
		r.Count("keys", 1)
		f, why := dominant(l)
		pos := f.v.Pos()
		if why != "" {
			r.Fail(label+"."+k.name+" claimed", pos, fmt.Sprintf("the key %q of %s objects %s", k.name, name, why))
		}
		// the field named after another key
		if nf := normName(f.v.Name()); nf != normName(k.name) {
			for _, k2 := range o.keys {
				if nf == normName(k2.name) {
					r.Fail(label+"."+k.name+" swapped", pos, fmt.Sprintf("the field %s of %s is read from the key %q and not from its own, %q", f.v.Name(), short, k.name, k2.name))
				}
			}
		}
		if f.quoted {
			r.Fail(label+"."+k.name+" quoted", pos, fmt.Sprintf("the field %s of %s expects its value within a string", f.v.Name(), short))
		}
		c.kinds(label+"."+k.name, k.kind, f, short, pos, via+"."+k.name)
	}
	var extra []string
	for k := range fields {
		if o.by[k] == nil {
			extra = append(extra, k)
		}
	}
	sort.Strings(extra)
	for _, k := range extra {
		f := fields[k][0]
		if strings.HasPrefix(k, "x-") {
			continue
		}
		r.Fail(label+" extra "+f.key, f.v.Pos(), fmt.Sprintf("the field %s of %s is read from the key %q, which the format does not give to %s objects", f.v.Name(), short, f.key, name))
	}
}

func declares(t types.Type, name string) bool {
	ms := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// kinds checks that the field can hold each kind of value, and goes on with the
// objects in it.
func (c *keyCheck) kinds(label, kind string, f *kfield, short string, pos token.Pos, via string) {
	for _, k := range splitKinds(kind) {
		c.r.Count("kinds", 1)
		if !holdsKind(k, f.v.Type(), func(obj string, t types.Type) { c.object(obj, t, via) }) {
			c.r.Fail(label+" kind "+kindName(k), pos, fmt.Sprintf("the format gives the key %s %s, which the field %s %s of %s cannot hold: such a document is refused", label[strings.LastIndexByte(label, '.')+1:], kindName(k), f.v.Name(), types.TypeString(f.v.Type(), func(*types.Package) string { return "" }), short))
		}
	}
}

func splitKinds(k string) []string {
	if strings.ContainsAny(k, "[{") && !strings.Contains(k, "|") {
		return []string{k}
	}
	return strings.Split(k, "|")
}

func kindName(k string) string {
	switch {
	case k == "s":
		return "a string"
	case k == "n":
		return "a number"
	case k == "i":
		return "a non-negative integer"
	case k == "b":
		return "a boolean"
	case k == "a":
		return "any value"
	case k[0] == '@':
		return "an object (" + k[1:] + ")"
	case k[0] == '[':
		return "a list"
	}
	return "a map"
}

// holdsKind tells whether encoding/json stores the kind of value in the type.
func holdsKind(k string, t types.Type, object func(string, types.Type)) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if o := n.Obj(); o.Pkg() != nil && o.Pkg().Path() == "encoding/json" && o.Name() == "RawMessage" {
			return true
		}
		if k[0] != '@' && (declares(t, "UnmarshalJSON") || declares(t, "UnmarshalText")) {
			return false
		}
	}
	if i, ok := t.Underlying().(*types.Interface); ok && i.NumMethods() == 0 {
		// everything goes, but the elements of the model must remain elements
		return !strings.Contains(k, "@")
	}
	basic := func(info types.BasicInfo) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&info != 0
	}
	switch k[0] {
	case 's':
		return basic(types.IsString)
	case 'n':
		return basic(types.IsFloat)
	case 'i':
		b, ok := t.Underlying().(*types.Basic)
		if !ok || b.Info()&(types.IsFloat|types.IsInteger) == 0 {
			return false
		}
		switch b.Kind() {
		case types.Int8, types.Uint8, types.Int16, types.Uint16:
			return false
		}
		return true
	case 'b':
		return basic(types.IsBoolean)
	case 'a':
		return false
	case '[':
		s, ok := t.Underlying().(*types.Slice)
		return ok && holdsKind(k[1:len(k)-1], s.Elem(), object)
	case '{':
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			return false
		}
		b, ok := m.Key().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0 && holdsKind(k[1:len(k)-1], m.Elem(), object)
	case '@':
		if _, ok := t.Underlying().(*types.Struct); !ok {
			return false
		}
		if object != nil {
			object(k[1:], t)
		}
		return true
	}
	return false
}
