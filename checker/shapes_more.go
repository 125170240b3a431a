package main

import (
	"fmt"
	"strings"
)

// Further document shapes, built from fragments.

// v3Doc is a document with one received event and the given parts.
func v3Doc(message, components string) string {
	return `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
` + indent(message, 8) + `
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
` + comp(components)
}

func v2Doc(message, components string) string {
	return `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    publish:
      message:
` + indent(message, 8) + "\n" + comp(components)
}

func comp(c string) string {
	if c == "" {
		return ""
	}
	return "components:\n" + indent(c, 2)
}

func indent(s string, n int) string {
	var out []string
	for _, l := range strings.Split(strings.Trim(s, "\n"), "\n") {
		out = append(out, strings.Repeat(" ", n)+l)
	}
	return strings.Join(out, "\n")
}

// both gives the shape for the two document generations.
func both(name, message, components string) []Shape {
	return []Shape{
		{Name: name, Major: 3, YAML: v3Doc(message, components)},
		{Name: name, Major: 2, YAML: v2Doc(message, components)},
	}
}

func withOpts(name string, f func(o map[string]any), of ...Shape) []Shape {
	var out []Shape
	for _, s := range of {
		s.Name = s.Name + "+" + name
		s.Opts = f
		out = append(out, s)
	}
	return out
}

func shapeNamed(name string, major int) Shape {
	for _, s := range append(append([]Shape{}, shapes3...), shapes2...) {
		if s.Name == name && s.Major == major {
			return s
		}
	}
	panic("no shape " + name)
}

var shapesMore = buildShapes()

func buildShapes() []Shape {
	var out []Shape
	add := func(s ...Shape) { out = append(out, s...) }

	// several required headers that are neither strings nor dates
	add(both("header-req-many", `
headers:
  type: object
  required: ["one", "two", "three"]
  properties:
    one:
      type: integer
    two:
      type: boolean
    three:
      type: array
      items:
        type: string
payload:
  type: string`, "")...)

	// correlation identifiers
	add(both("corr-noheaders", `
payload:
  type: string
correlationId:
  location: $message.header#/correlationId
`, "")...)
	add(both("corr-undeclared", `
headers:
  type: object
  properties:
    other:
      type: string
payload:
  type: string
correlationId:
  location: $message.header#/correlationId
`, "")...)
	for _, req := range []string{"", "required: [\"cid\"]\n"} {
		n := "opt"
		if req != "" {
			n = "req"
		}
		add(both("corr-payload-"+n, `
payload:
  type: object
  `+strings.TrimSpace(req)+`
  properties:
    cid:
      type: string
correlationId:
  location: $message.payload#/cid
`, "")...)
		add(both("corr-headersref-"+n, `
headers:
  $ref: '#/components/schemas/Hdr'
payload:
  type: string
correlationId:
  location: $message.header#/cid
`, `
schemas:
  Hdr:
    type: object
    `+strings.TrimSpace(req)+`
    properties:
      cid:
        type: string
      other:
        type: string
`)...)
		add(both("corr-payloadref-"+n, `
payload:
  $ref: '#/components/schemas/Body'
correlationId:
  location: $message.payload#/cid
`, `
schemas:
  Body:
    type: object
    `+strings.TrimSpace(req)+`
    properties:
      cid:
        type: string
`)...)
	}
	// messages by reference, several messages
	add(both("msgref", `$ref: '#/components/messages/Evt'`, `
messages:
  Evt:
    description: an event
    headers:
      type: object
      properties:
        kind:
          type: string
          description: the kind
    payload:
      type: object
      properties:
        a:
          type: string
          description: a documented property
        b:
          $ref: '#/components/schemas/Str'
  Other:
    payload:
      type: string
schemas:
  Str:
    type: string
    description: a documented string
`)...)
	// composed schemas everywhere
	for _, of := range []string{"allOf", "anyOf", "oneOf"} {
		l := strings.ToLower(of)
		add(both("payload-"+l+"-refs", fmt.Sprintf(`
payload:
  %s:
  - $ref: '#/components/schemas/A'
  - $ref: '#/components/schemas/B'
`, of), `
schemas:
  A:
    type: object
    required: ["a"]
    properties:
      a:
        type: string
  B:
    type: object
    properties:
      b:
        type: integer
`)...)
		add(both("payload-"+l+"-nested", fmt.Sprintf(`
payload:
  %s:
  - $ref: '#/components/schemas/A'
  - type: object
    properties:
      here:
        type: array
        items:
          type: object
          properties:
            y:
              type: string
`, of), `
schemas:
  A:
    type: object
    required: ["lists"]
    properties:
      list:
        type: array
        items:
          type: object
          properties:
            x:
              type: string
      lists:
        type: array
        items:
          type: array
          items:
            type: object
            properties:
              z:
                type: integer
      deep:
        type: object
        properties:
          d:
            type: string
`)...)
		add(both("prop-"+l, fmt.Sprintf(`
payload:
  type: object
  properties:
    inline:
      %s:
      - type: object
        description: one way
        properties:
          x:
            type: string
      - $ref: '#/components/schemas/B'
    ref:
      $ref: '#/components/schemas/C'
    list:
      type: array
      items:
        $ref: '#/components/schemas/C'
`, of), fmt.Sprintf(`
schemas:
  B:
    type: object
    properties:
      b:
        type: integer
  C:
    %s:
    - $ref: '#/components/schemas/B'
    - type: object
      properties:
        c:
          type: boolean
`, of))...)
		add(both("headers-"+l, fmt.Sprintf(`
headers:
  type: object
  %s:
  - $ref: '#/components/schemas/H'
payload:
  type: string
`, of), `
schemas:
  H:
    type: object
    required: ["h"]
    properties:
      h:
        type: string
`)...)
	}
	// arrays of every item kind, nested objects, maps
	add(both("nesting", `
payload:
  type: object
  required: ["must"]
  properties:
    must:
      type: object
      properties:
        x:
          type: array
          items:
            type: array
            items:
              type: object
              properties:
                deep:
                  type: string
    dates:
      type: array
      items:
        type: string
        format: date-time
    day:
      type: array
      items:
        type: string
        format: date
    map:
      type: object
      additionalProperties:
        type: integer
    objmap:
      type: object
      additionalProperties:
        type: object
        properties:
          v:
            type: string
    refmap:
      type: object
      properties:
        known:
          type: integer
      additionalProperties:
        $ref: '#/components/schemas/S'
    arrmap:
      type: object
      additionalProperties:
        type: array
        items:
          $ref: '#/components/schemas/S'
    any: {}
`, `
schemas:
  S:
    type: object
    properties:
      s:
        type: string
`)...)
	add(both("refs-to-scalars", `
payload:
  type: object
  required: ["b"]
  properties:
    a:
      $ref: '#/components/schemas/Stamp'
    b:
      $ref: '#/components/schemas/Day'
    c:
      $ref: '#/components/schemas/Num'
    d:
      $ref: '#/components/schemas/List'
    e:
      $ref: '#/components/schemas/Again'
`, `
schemas:
  Stamp:
    type: string
    format: date-time
  Day:
    type: string
    format: date
  Num:
    type: number
    format: float
  List:
    type: array
    items:
      $ref: '#/components/schemas/Stamp'
  Again:
    type: object
    properties:
      stamp:
        $ref: '#/components/schemas/Stamp'
`)...)
	add(both("recursive", `
payload:
  $ref: '#/components/schemas/Tree'
`, `
schemas:
  Tree:
    type: object
    properties:
      value:
        type: string
      children:
        type: array
        items:
          $ref: '#/components/schemas/Tree'
      parent:
        $ref: '#/components/schemas/Tree'
`)...)
	add(both("ref-to-ref", `
payload:
  $ref: '#/components/schemas/One'
`, `
schemas:
  One:
    $ref: '#/components/schemas/Two'
  Two:
    type: object
    properties:
      x:
        type: string
`)...)
	add(both("gotype", `
headers:
  type: object
  properties:
    h:
      type: string
      x-go-type: uuid.UUID
      x-go-type-import:
        path: github.com/google/uuid
payload:
  type: object
  x-go-type: json.RawMessage
`, "")...)
	add(both("names", `
headers:
  type: object
  properties:
    some-header:
      type: string
    another_header:
      type: string
    dotted.header:
      type: string
payload:
  type: object
  properties:
    snake_case:
      type: string
    kebab-case:
      type: object
      properties:
        inner-key:
          type: string
    camelCase:
      type: array
      items:
        type: object
        properties:
          k_k:
            type: string
`, "")...)
	add(both("constraints", `
payload:
  type: object
  required: ["s"]
  properties:
    s:
      type: string
      minLength: 2
      maxLength: 5
      enum: ["aa", "bb"]
    os:
      type: string
      minLength: 0
      maxLength: 7
    i:
      type: integer
      minimum: 0
      maximum: 10
      exclusiveMinimum: 1
      exclusiveMaximum: 9
    a:
      type: array
      minItems: 1
      maxItems: 3
      uniqueItems: true
      items:
        type: integer
    c:
      type: string
      const: fixed
    o:
      type: string
      x-omitempty: true
`, "")...)
	// v2 channel parameters by reference
	add(Shape{Name: "paramref", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.{tenant}.evt.{kind}:
    parameters:
      tenant:
        $ref: '#/components/parameters/Tenant'
      kind:
        description: without schema
    publish:
      message:
        payload:
          type: string
components:
  parameters:
    Tenant:
      description: the tenant
      schema:
        type: integer
`}, Shape{Name: "paramref", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.{tenant}.evt.{kind}
    parameters:
      tenant:
        $ref: '#/components/parameters/Tenant'
      kind:
        description: the kind
    messages:
      evt:
        payload:
          type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
components:
  parameters:
    Tenant:
      description: the tenant
`})
	// v3: channels and operations in components, traits, null addresses
	add(Shape{Name: "traits", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        payload:
          type: object
          properties:
            p:
              type: string
        traits:
        - $ref: '#/components/messageTraits/Common'
        - headers:
            type: object
            properties:
              inline:
                type: string
  bare:
    address: app.bare
    messages:
      bare:
        traits:
        - $ref: '#/components/messageTraits/Common'
        - payload:
            type: object
            properties:
              q:
                type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
    traits:
    - $ref: '#/components/operationTraits/Op'
  onBare:
    action: send
    channel:
      $ref: '#/channels/bare'
components:
  messageTraits:
    Common:
      description: common
      headers:
        type: object
        required: ["cid"]
        properties:
          cid:
            type: string
          kind:
            type: string
  operationTraits:
    Op:
      description: op
`})
	add(Shape{Name: "compchannel", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    $ref: '#/components/channels/evtc'
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
    messages:
    - $ref: '#/channels/evt/messages/evt'
  emitEvt:
    action: send
    channel:
      $ref: '#/channels/evt'
components:
  channels:
    evtc:
      address: app.evt
      messages:
        evt:
          payload:
            type: string
`})
	add(Shape{Name: "compop", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        payload:
          type: string
  rep:
    address: app.rep
    messages:
      rep:
        payload:
          type: string
operations:
  onEvt:
    $ref: '#/components/operations/evtOp'
components:
  operations:
    evtOp:
      action: receive
      channel:
        $ref: '#/channels/evt'
`})
	add(Shape{Name: "compreply", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        payload:
          type: string
  rep:
    address: app.rep
    messages:
      rep:
        payload:
          type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
    reply:
      $ref: '#/components/replies/Rep'
components:
  replies:
    Rep:
      channel:
        $ref: '#/channels/rep'
`})
	add(Shape{Name: "sendreq", Major: 3, YAML: strings.Replace(shapeNamed("reqrep", 3).YAML, "action: receive", "action: send", 1)})
	add(Shape{Name: "senddyn", Major: 3, YAML: strings.Replace(shapeNamed("reqdyn", 3).YAML, "action: receive", "action: send", 1)})
	add(Shape{Name: "senddynopt", Major: 3, YAML: strings.Replace(shapeNamed("reqdynopt", 3).YAML, "action: receive", "action: send", 1)})
	add(Shape{Name: "sendpar", Major: 3, YAML: strings.Replace(shapeNamed("reqpar", 3).YAML, "action: receive", "action: send", 1)})
	add(Shape{Name: "nulladdr", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  out:
    address: null
    messages:
      out:
        payload:
          type: string
operations:
  emit:
    action: send
    channel:
      $ref: '#/channels/out'
`})
	add(Shape{Name: "twocorr", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  a:
    address: app.a
    messages:
      a:
        payload:
          type: string
        correlationId:
          location: $message.header#/correlationId
  b:
    address: app.b
    messages:
      b:
        payload:
          type: string
        correlationId:
          location: $message.header#/correlationId
operations:
  onA:
    action: receive
    channel:
      $ref: '#/channels/a'
  onB:
    action: receive
    channel:
      $ref: '#/channels/b'
`}, Shape{Name: "twocorr", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.a:
    publish:
      message:
        payload:
          type: string
        correlationId:
          location: $message.header#/correlationId
  app.b:
    subscribe:
      message:
        payload:
          type: string
        correlationId:
          location: $message.header#/correlationId
`})
	// requests and replies
	corr := "correlationId:\n  location: $message.header#/id\n"
	hdr := "headers:\n  type: object\n  required: [\"id\"]\n  properties:\n    id:\n      type: string\n"
	str := "payload:\n  type: string\n"
	add(
		reqRepShape("corr-req-only", "receive", hdr+str+corr, str, "app.rep", "channel:\n  $ref: '#/channels/rep'\n", "", ""),
		reqRepShape("corr-rep-only", "receive", str, hdr+str+corr, "app.rep", "channel:\n  $ref: '#/channels/rep'\n", "", ""),
		reqRepShape("reply-messages", "receive", hdr+str+corr, hdr+str+corr, "app.rep", "channel:\n  $ref: '#/channels/rep'\nmessages:\n- $ref: '#/channels/rep/messages/other'\n", "", ""),
		reqRepShape("op-messages", "receive", hdr+str+corr, hdr+str+corr, "app.rep", "channel:\n  $ref: '#/channels/rep'\n", "messages:\n- $ref: '#/channels/evt/messages/other'\n- $ref: '#/channels/evt/messages/evt'\n", ""),
		reqRepShape("reply-addrref", "receive", "headers:\n  type: object\n  required: [\"replyTo\"]\n  properties:\n    replyTo:\n      type: string\n"+str, str, "null", "address:\n  $ref: '#/components/replyAddresses/Addr'\nchannel:\n  $ref: '#/channels/rep'\n", "", "replyAddresses:\n  Addr:\n    location: $message.header#/replyTo\n"),
		reqRepShape("reply-compaddr", "receive", "headers:\n  type: object\n  properties:\n    replyTo:\n      type: string\n"+str, str, "null", "$ref: '#/components/replies/Rep'\n", "", "replies:\n  Rep:\n    address:\n      location: $message.header#/replyTo\n    channel:\n      $ref: '#/channels/rep'\n"),
		reqRepShape("reply-payloadaddr", "receive", "payload:\n  type: object\n  properties:\n    replyTo:\n      type: string\n", str, "null", "address:\n  location: $message.payload#/replyTo\nchannel:\n  $ref: '#/channels/rep'\n", "", ""),
		reqRepShape("reply-addrstatic", "receive", "headers:\n  type: object\n  properties:\n    replyTo:\n      type: string\n"+str, str, "app.rep", "address:\n  location: $message.header#/replyTo\nchannel:\n  $ref: '#/channels/rep'\n", "", ""),
		reqRepShape("reply-nochannel", "receive", "headers:\n  type: object\n  properties:\n    replyTo:\n      type: string\n"+str, str, "app.rep", "address:\n  location: $message.header#/replyTo\n", "", ""),
		reqRepShape("sendcorr", "send", hdr+str+corr, hdr+str+corr, "app.rep", "channel:\n  $ref: '#/channels/rep'\n", "", ""),
	)
	add(Shape{Name: "nulladdrreq", Major: 3, YAML: strings.Replace(reqRepShape("", "receive", str, str, "app.rep", "channel:\n  $ref: '#/channels/rep'\n", "", "").YAML, "address: app.evt", "address: null", 1)})
	add(Shape{Name: "chainchannel", Major: 3, YAML: strings.Replace(shapeNamed2(out, "compchannel", 3).YAML, "components:\n  channels:\n", "components:\n  channels:\n    other:\n      address: app.oth.{id}\n      parameters:\n        id:\n          description: d\n      messages:\n        oth:\n          payload:\n            type: string\n", 1)})
	for _, t := range []string{"type: string", "type: string\n    format: date-time", "type: integer", "type: object\n    properties:\n      a:\n        type: string", "type: array\n    items:\n      type: string"} {
		n := strings.NewReplacer(" ", "", "\n", "-", ":", "").Replace(strings.SplitN(t, "items", 2)[0])
		add(both("refref-"+strings.Trim(n, "-"), "headers:\n  type: object\n  properties:\n    h:\n      $ref: '#/components/schemas/One'\npayload:\n  $ref: '#/components/schemas/One'", "schemas:\n  One:\n    $ref: '#/components/schemas/Two'\n  Two:\n    "+t)...)
	}
	add(both("headers-refref", "headers:\n  $ref: '#/components/schemas/One'\n"+str, "schemas:\n  One:\n    $ref: '#/components/schemas/Two'\n  Two:\n    type: object\n    required: [\"a\"]\n    properties:\n      a:\n        type: string\n      b:\n        type: string")...)
	add(both("goimport", `
headers:
  type: object
  properties:
    a:
      type: string
payload:
  type: object
  properties:
    p:
      type: object
      x-go-type: nats.Header
      x-go-type-import:
        path: github.com/nats-io/nats.go
  additionalProperties:
    type: object
    x-go-type: mod.Header
    x-go-type-import:
      path: github.com/segmentio/kafka-go
      name: mod
`, "")...)
	// options
	fp := func(o map[string]any) { o["ForcePointers"] = true }
	isf := func(o map[string]any) { o["IgnoreStringFormat"] = true }
	camel := func(o map[string]any) { o["NamingScheme"] = "camel"; o["ConvertKeys"] = "snake" }
	for _, maj := range []int{2, 3} {
		for _, n := range []string{"reqrep", "reqopt", "typesonly", "header-req-string", "header-req-datetime", "header-req-object", "header-req-integer", "header-string", "payload-ref-datetime", "payload-date", "payload-datetime"} {
			s := shapeNamed(n, maj)
			add(withOpts("pointers", fp, s)...)
			if !strings.HasPrefix(n, "req") {
				add(withOpts("noformat", isf, s)...)
			}
		}
		for _, n := range []string{"plain", "reqrep", "typesonly", "header-ref-object", "payload-ref-oneof"} {
			add(withOpts("camel", camel, shapeNamed(n, maj))...)
		}
	}
	for _, s := range append([]Shape{}, out...) {
		if s.Name == "names" || s.Name == "nesting" {
			add(withOpts("camel", camel, s)...)
		}
	}
	return out
}

func shapeNamed2(in []Shape, name string, major int) Shape {
	for _, s := range in {
		if s.Name == name && s.Major == major {
			return s
		}
	}
	panic("no shape " + name)
}

// reqRepShape is a document with one operation and its reply.
func reqRepShape(name, action, req, rep, repAddr, reply, op, components string) Shape {
	return Shape{Name: name, Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
` + indent(req, 8) + `
      other:
` + indent(req, 8) + `
  rep:
    address: ` + repAddr + `
    messages:
      other:
` + indent(rep, 8) + `
      rep:
` + indent(rep, 8) + `
operations:
  onEvt:
    action: ` + action + `
    channel:
      $ref: '#/channels/evt'
` + indent(op, 4) + `
    reply:
` + indent(reply, 6) + "\n" + comp(components)}
}
