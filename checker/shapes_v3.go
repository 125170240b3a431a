package main

var shapes3 = []Shape{
	{Name: "plain", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 1.2.3
channels:
  evt:
    address: app.evt
    messages:
      evt:
        $ref: '#/components/messages/Evt'
  par:
    address: app.{tenant}.par.{user_id}
    parameters:
      tenant:
        description: the tenant
      user_id: {}
    messages:
      par:
        headers:
          type: object
          required: ["kind"]
          properties:
            kind:
              type: string
            note:
              type: string
        payload:
          $ref: '#/components/schemas/Obj'
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
  onPar:
    action: receive
    channel:
      $ref: '#/channels/par'
  emitEvt:
    action: send
    channel:
      $ref: '#/channels/evt'
  emitPar:
    action: send
    channel:
      $ref: '#/channels/par'
components:
  messages:
    Evt:
      description: an event
      payload:
        type: object
        required: ["a"]
        properties:
          a:
            type: string
          b:
            type: integer
            format: int32
  schemas:
    Obj:
      type: object
      properties:
        x:
          type: string
`},

	{Name: "reqrep", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  ping:
    address: app.ping
    messages:
      ping:
        $ref: '#/components/messages/Ping'
  pong:
    address: app.pong
    messages:
      pong:
        $ref: '#/components/messages/Pong'
operations:
  ping:
    action: receive
    channel:
      $ref: '#/channels/ping'
    reply:
      channel:
        $ref: '#/channels/pong'
  ask:
    action: send
    channel:
      $ref: '#/channels/ping'
    reply:
      channel:
        $ref: '#/channels/pong'
components:
  messages:
    Ping:
      headers:
        type: object
        required: ["correlationId"]
        properties:
          correlationId:
            type: string
      payload:
        type: object
        properties:
          sentAt:
            type: string
            format: date-time
      correlationId:
        $ref: '#/components/correlationIds/Corr'
    Pong:
      headers:
        type: object
        required: ["correlationId"]
        properties:
          correlationId:
            type: string
      payload:
        type: object
        properties:
          answer:
            type: string
      correlationId:
        location: $message.header#/correlationId
  correlationIds:
    Corr:
      location: $message.header#/correlationId
`},
	{Name: "reqopt", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  ping:
    address: app.ping
    messages:
      ping:
        $ref: '#/components/messages/Ping'
  pong:
    address: app.pong
    messages:
      pong:
        $ref: '#/components/messages/Pong'
operations:
  ping:
    action: receive
    channel:
      $ref: '#/channels/ping'
    reply:
      channel:
        $ref: '#/channels/pong'
components:
  messages:
    Ping:
      headers:
        type: object
        properties:
          correlationId:
            type: string
      payload:
        type: string
      correlationId:
        location: $message.header#/correlationId
    Pong:
      headers:
        type: object
        properties:
          correlationId:
            type: string
      payload:
        type: string
      correlationId:
        location: $message.header#/correlationId
`},
	{Name: "reqnocorr", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  ping:
    address: app.ping
    messages:
      ping:
        payload:
          type: string
  pong:
    address: app.pong
    messages:
      pong:
        payload:
          type: string
operations:
  ping:
    action: receive
    channel:
      $ref: '#/channels/ping'
    reply:
      channel:
        $ref: '#/channels/pong'
`},
	{Name: "reqdyn", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  ping:
    address: app.ping
    messages:
      ping:
        $ref: '#/components/messages/Ping'
  pong:
    address: null
    messages:
      pong:
        $ref: '#/components/messages/Pong'
operations:
  ping:
    action: receive
    channel:
      $ref: '#/channels/ping'
    reply:
      address:
        location: $message.header#/replyTo
      channel:
        $ref: '#/channels/pong'
components:
  messages:
    Ping:
      headers:
        type: object
        required: ["replyTo", "requestId"]
        properties:
          replyTo:
            type: string
          requestId:
            type: string
      payload:
        type: string
      correlationId:
        location: $message.header#/requestId
    Pong:
      headers:
        type: object
        required: ["requestId"]
        properties:
          requestId:
            type: string
      payload:
        type: string
      correlationId:
        location: $message.header#/requestId
`},
	{Name: "reqdynopt", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  ping:
    address: app.ping
    messages:
      ping:
        $ref: '#/components/messages/Ping'
  pong:
    address: null
    messages:
      pong:
        $ref: '#/components/messages/Pong'
operations:
  ping:
    action: receive
    channel:
      $ref: '#/channels/ping'
    reply:
      address:
        location: $message.header#/replyTo
      channel:
        $ref: '#/channels/pong'
components:
  messages:
    Ping:
      headers:
        type: object
        properties:
          replyTo:
            type: string
      payload:
        type: string
    Pong:
      payload:
        type: string
`},
	{Name: "reqpar", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  ping:
    address: app.{tenant}.ping
    parameters:
      tenant: {}
    messages:
      ping:
        payload:
          type: string
  pong:
    address: app.pong
    messages:
      pong:
        payload:
          type: string
operations:
  ping:
    action: receive
    channel:
      $ref: '#/channels/ping'
    reply:
      channel:
        $ref: '#/channels/pong'
`},
	{Name: "reqreppar", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  ping:
    address: app.ping
    messages:
      ping:
        payload:
          type: string
  pong:
    address: app.{tenant}.pong
    parameters:
      tenant: {}
    messages:
      pong:
        payload:
          type: string
operations:
  ping:
    action: receive
    channel:
      $ref: '#/channels/ping'
    reply:
      channel:
        $ref: '#/channels/pong'
`},
	{Name: "sendonly", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        payload:
          type: string
operations:
  emit:
    action: send
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "typesonly", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
components:
  schemas:
    Inner:
      type: object
      description: an inner object
      required: ["id"]
      properties:
        id:
          type: string
          minLength: 2
          maxLength: 5
        n:
          type: integer
          minimum: 1
          maximum: 9
        f:
          type: number
          exclusiveMinimum: 1.5
          exclusiveMaximum: 2.5
        color:
          type: string
          enum: ["red", "blue"]
        flag:
          type: boolean
        day:
          type: string
          format: date
        at:
          type: string
          format: date-time
        tags:
          type: array
          uniqueItems: true
          items:
            type: string
        f32:
          type: number
          format: float
        i32:
          type: integer
          format: int32
        custom:
          type: string
          x-go-type: uuid.UUID
          x-go-type-import:
            path: github.com/google/uuid
        keep:
          type: string
          x-omitempty: false
        konst:
          type: string
          const: fixed
    Str:
      type: string
    Stamp:
      type: string
      format: date-time
    Num:
      type: number
    Ints:
      type: array
      items:
        type: integer
    Objs:
      type: array
      items:
        type: object
        properties:
          k:
            type: string
    Outer:
      type: object
      required: ["inner", "list"]
      properties:
        inner:
          $ref: '#/components/schemas/Inner'
        maybe:
          $ref: '#/components/schemas/Inner'
        list:
          type: array
          items:
            $ref: '#/components/schemas/Inner'
        sub:
          type: object
          properties:
            deep:
              type: object
              properties:
                x:
                  type: string
    Extra:
      type: object
      properties:
        known:
          type: string
      additionalProperties:
        type: string
    ExtraOnly:
      type: object
      additionalProperties:
        type: object
        properties:
          v:
            type: string
    All:
      allOf:
      - $ref: '#/components/schemas/Inner'
      - type: object
        properties:
          more:
            type: string
`},
	{Name: "payload-string", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        payload:
          type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "payload-ref-string", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        payload:
          $ref: '#/components/schemas/Thing'
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
components:
  schemas:
    Thing:
      type: string
`},
	{Name: "payload-datetime", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        payload:
          type: string
          format: date-time
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "payload-ref-datetime", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        payload:
          $ref: '#/components/schemas/Thing'
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
components:
  schemas:
    Thing:
      type: string
      format: date-time
`},
	{Name: "payload-date", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        payload:
          type: string
          format: date
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "payload-ref-date", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        payload:
          $ref: '#/components/schemas/Thing'
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
components:
  schemas:
    Thing:
      type: string
      format: date
`},
	{Name: "payload-integer", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        payload:
          type: integer
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "payload-ref-integer", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        payload:
          $ref: '#/components/schemas/Thing'
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
components:
  schemas:
    Thing:
      type: integer
`},
	{Name: "payload-int32", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        payload:
          type: integer
          format: int32
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "payload-ref-int32", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        payload:
          $ref: '#/components/schemas/Thing'
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
components:
  schemas:
    Thing:
      type: integer
      format: int32
`},
	{Name: "payload-number", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        payload:
          type: number
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "payload-ref-number", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        payload:
          $ref: '#/components/schemas/Thing'
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
components:
  schemas:
    Thing:
      type: number
`},
	{Name: "payload-float", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        payload:
          type: number
          format: float
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "payload-ref-float", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        payload:
          $ref: '#/components/schemas/Thing'
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
components:
  schemas:
    Thing:
      type: number
      format: float
`},
	{Name: "payload-boolean", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        payload:
          type: boolean
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "payload-ref-boolean", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        payload:
          $ref: '#/components/schemas/Thing'
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
components:
  schemas:
    Thing:
      type: boolean
`},
	{Name: "payload-array", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        payload:
          type: array
          items:
            type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "payload-ref-array", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        payload:
          $ref: '#/components/schemas/Thing'
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
components:
  schemas:
    Thing:
      type: array
      items:
        type: string
`},
	{Name: "payload-arrayobj", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        payload:
          type: array
          items:
            type: object
            properties:
              a:
                type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "payload-ref-arrayobj", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        payload:
          $ref: '#/components/schemas/Thing'
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
components:
  schemas:
    Thing:
      type: array
      items:
        type: object
        properties:
          a:
            type: string
`},
	{Name: "payload-object", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        payload:
          type: object
          properties:
            a:
              type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "payload-ref-object", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        payload:
          $ref: '#/components/schemas/Thing'
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
components:
  schemas:
    Thing:
      type: object
      properties:
        a:
          type: string
`},
	{Name: "payload-oneof", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        payload:
          oneOf:
          - type: object
            properties:
              a:
                type: string
          - type: object
            properties:
              b:
                type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "payload-ref-oneof", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        payload:
          $ref: '#/components/schemas/Thing'
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
components:
  schemas:
    Thing:
      oneOf:
      - type: object
        properties:
          a:
            type: string
      - type: object
        properties:
          b:
            type: string
`},
	{Name: "header-string", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        headers:
          type: object
          properties:
            h:
              type: string
        payload:
          type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "header-req-string", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        headers:
          type: object
          required: ["h"]
          properties:
            h:
              type: string
        payload:
          type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "header-datetime", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        headers:
          type: object
          properties:
            h:
              type: string
              format: date-time
        payload:
          type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "header-req-datetime", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        headers:
          type: object
          required: ["h"]
          properties:
            h:
              type: string
              format: date-time
        payload:
          type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "header-date", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        headers:
          type: object
          properties:
            h:
              type: string
              format: date
        payload:
          type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "header-req-date", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        headers:
          type: object
          required: ["h"]
          properties:
            h:
              type: string
              format: date
        payload:
          type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "header-integer", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        headers:
          type: object
          properties:
            h:
              type: integer
        payload:
          type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "header-req-integer", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        headers:
          type: object
          required: ["h"]
          properties:
            h:
              type: integer
        payload:
          type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "header-int32", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        headers:
          type: object
          properties:
            h:
              type: integer
              format: int32
        payload:
          type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "header-req-int32", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        headers:
          type: object
          required: ["h"]
          properties:
            h:
              type: integer
              format: int32
        payload:
          type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "header-number", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        headers:
          type: object
          properties:
            h:
              type: number
        payload:
          type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "header-req-number", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        headers:
          type: object
          required: ["h"]
          properties:
            h:
              type: number
        payload:
          type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "header-float", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        headers:
          type: object
          properties:
            h:
              type: number
              format: float
        payload:
          type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "header-req-float", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        headers:
          type: object
          required: ["h"]
          properties:
            h:
              type: number
              format: float
        payload:
          type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "header-boolean", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        headers:
          type: object
          properties:
            h:
              type: boolean
        payload:
          type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "header-req-boolean", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        headers:
          type: object
          required: ["h"]
          properties:
            h:
              type: boolean
        payload:
          type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "header-array", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        headers:
          type: object
          properties:
            h:
              type: array
              items:
                type: string
        payload:
          type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "header-req-array", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        headers:
          type: object
          required: ["h"]
          properties:
            h:
              type: array
              items:
                type: string
        payload:
          type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "header-object", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        headers:
          type: object
          properties:
            h:
              type: object
              properties:
                a:
                  type: string
        payload:
          type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "header-req-object", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        headers:
          type: object
          required: ["h"]
          properties:
            h:
              type: object
              properties:
                a:
                  type: string
        payload:
          type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
`},
	{Name: "header-ref-string", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        headers:
          type: object
          required: ["r"]
          properties:
            h:
              $ref: '#/components/schemas/Thing'
            r:
              $ref: '#/components/schemas/Thing'
        payload:
          type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
components:
  schemas:
    Thing:
      type: string
`},
	{Name: "header-ref-datetime", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        headers:
          type: object
          required: ["r"]
          properties:
            h:
              $ref: '#/components/schemas/Thing'
            r:
              $ref: '#/components/schemas/Thing'
        payload:
          type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
components:
  schemas:
    Thing:
      type: string
      format: date-time
`},
	{Name: "header-ref-object", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        headers:
          type: object
          required: ["r"]
          properties:
            h:
              $ref: '#/components/schemas/Thing'
            r:
              $ref: '#/components/schemas/Thing'
        payload:
          type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
components:
  schemas:
    Thing:
      type: object
      properties:
        a:
          type: string
`},
	{Name: "headers-ref", Major: 3, YAML: `
asyncapi: 3.0.0
info:
  title: T
  version: 2.0.0
channels:
  evt:
    address: app.evt
    messages:
      evt:
        headers:
          $ref: '#/components/schemas/Hdr'
        payload:
          type: string
operations:
  onEvt:
    action: receive
    channel:
      $ref: '#/channels/evt'
components:
  schemas:
    Hdr:
      type: object
      required: ["r"]
      properties:
        h:
          type: string
        r:
          type: string
`},
}
