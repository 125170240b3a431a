package main

var shapes2 = []Shape{
	{Name: "plain", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 1.2.3
channels:
  app.evt:
    subscribe:
      message:
        $ref: '#/components/messages/Evt'
  app.cmd:
    publish:
      operationId: doCommand
      message:
        $ref: '#/components/messages/Evt'
  app.both:
    publish:
      operationId: doBoth
      message:
        payload:
          type: string
    subscribe:
      operationId: getBoth
      message:
        payload:
          type: string
  app.{tenant}.par.{user_id}:
    parameters:
      tenant:
        description: the tenant
        schema:
          type: string
      user_id:
        schema:
          type: string
    publish:
      message:
        headers:
          type: object
          required: ["kind"]
          properties:
            kind:
              type: string
            note:
              type: string
        payload:
          $ref: '#/components/schemas/Obj'
    subscribe:
      message:
        headers:
          type: object
          required: ["kind"]
          properties:
            kind:
              type: string
            note:
              type: string
        payload:
          $ref: '#/components/schemas/Obj'
components:
  messages:
    Evt:
      description: an event
      payload:
        type: object
        required: ["a"]
        properties:
          a:
            type: string
          b:
            type: integer
            format: int32
  schemas:
    Obj:
      type: object
      properties:
        x:
          type: string
`},
	{Name: "reqrep", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.ping:
    publish:
      message:
        $ref: '#/components/messages/Ping'
  app.pong:
    subscribe:
      message:
        $ref: '#/components/messages/Pong'
components:
  messages:
    Ping:
      headers:
        type: object
        required: ["correlationId"]
        properties:
          correlationId:
            type: string
      payload:
        type: object
        properties:
          sentAt:
            type: string
            format: date-time
      correlationId:
        location: $message.header#/correlationId
    Pong:
      headers:
        type: object
        required: ["correlationId"]
        properties:
          correlationId:
            type: string
      payload:
        type: object
        properties:
          answer:
            type: string
      correlationId:
        location: $message.header#/correlationId
`},
	{Name: "reqopt", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.{tenant}.ping:
    parameters:
      tenant:
        schema:
          type: string
    publish:
      operationId: sendPing
      message:
        headers:
          type: object
          properties:
            correlationId:
              type: string
        payload:
          type: string
        correlationId:
          location: $message.header#/correlationId
  app.{tenant}.pong:
    parameters:
      tenant:
        schema:
          type: string
    subscribe:
      operationId: getPong
      message:
        headers:
          type: object
          properties:
            correlationId:
              type: string
        payload:
          type: string
        correlationId:
          location: $message.header#/correlationId
`},
	{Name: "pubonly", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    publish:
      message:
        payload:
          type: string
`},
	{Name: "typesonly", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels: {}
components:
  schemas:
    Inner:
      type: object
      description: an inner object
      required: ["id"]
      properties:
        id:
          type: string
          minLength: 2
          maxLength: 5
        n:
          type: integer
          minimum: 1
          maximum: 9
        f:
          type: number
          exclusiveMinimum: 1.5
          exclusiveMaximum: 2.5
        color:
          type: string
          enum: ["red", "blue"]
        flag:
          type: boolean
        day:
          type: string
          format: date
        at:
          type: string
          format: date-time
        tags:
          type: array
          uniqueItems: true
          items:
            type: string
        f32:
          type: number
          format: float
        i32:
          type: integer
          format: int32
        custom:
          type: string
          x-go-type: uuid.UUID
          x-go-type-import:
            path: github.com/google/uuid
        keep:
          type: string
          x-omitempty: false
        konst:
          type: string
          const: fixed
    Str:
      type: string
    Stamp:
      type: string
      format: date-time
    Num:
      type: number
    Ints:
      type: array
      items:
        type: integer
    Objs:
      type: array
      items:
        type: object
        properties:
          k:
            type: string
    Outer:
      type: object
      required: ["inner", "list"]
      properties:
        inner:
          $ref: '#/components/schemas/Inner'
        maybe:
          $ref: '#/components/schemas/Inner'
        list:
          type: array
          items:
            $ref: '#/components/schemas/Inner'
        sub:
          type: object
          properties:
            deep:
              type: object
              properties:
                x:
                  type: string
    Extra:
      type: object
      properties:
        known:
          type: string
      additionalProperties:
        type: string
    ExtraOnly:
      type: object
      additionalProperties:
        type: object
        properties:
          v:
            type: string
    All:
      allOf:
      - $ref: '#/components/schemas/Inner'
      - type: object
        properties:
          more:
            type: string
`},
	{Name: "payload-string", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        payload:
          type: string
`},
	{Name: "payload-ref-string", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        payload:
          $ref: '#/components/schemas/Thing'
components:
  schemas:
    Thing:
      type: string
`},
	{Name: "payload-datetime", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        payload:
          type: string
          format: date-time
`},
	{Name: "payload-ref-datetime", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        payload:
          $ref: '#/components/schemas/Thing'
components:
  schemas:
    Thing:
      type: string
      format: date-time
`},
	{Name: "payload-date", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        payload:
          type: string
          format: date
`},
	{Name: "payload-ref-date", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        payload:
          $ref: '#/components/schemas/Thing'
components:
  schemas:
    Thing:
      type: string
      format: date
`},
	{Name: "payload-integer", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        payload:
          type: integer
`},
	{Name: "payload-ref-integer", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        payload:
          $ref: '#/components/schemas/Thing'
components:
  schemas:
    Thing:
      type: integer
`},
	{Name: "payload-int32", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        payload:
          type: integer
          format: int32
`},
	{Name: "payload-ref-int32", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        payload:
          $ref: '#/components/schemas/Thing'
components:
  schemas:
    Thing:
      type: integer
      format: int32
`},
	{Name: "payload-number", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        payload:
          type: number
`},
	{Name: "payload-ref-number", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        payload:
          $ref: '#/components/schemas/Thing'
components:
  schemas:
    Thing:
      type: number
`},
	{Name: "payload-float", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        payload:
          type: number
          format: float
`},
	{Name: "payload-ref-float", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        payload:
          $ref: '#/components/schemas/Thing'
components:
  schemas:
    Thing:
      type: number
      format: float
`},
	{Name: "payload-boolean", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        payload:
          type: boolean
`},
	{Name: "payload-ref-boolean", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        payload:
          $ref: '#/components/schemas/Thing'
components:
  schemas:
    Thing:
      type: boolean
`},
	{Name: "payload-array", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        payload:
          type: array
          items:
            type: string
`},
	{Name: "payload-ref-array", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        payload:
          $ref: '#/components/schemas/Thing'
components:
  schemas:
    Thing:
      type: array
      items:
        type: string
`},
	{Name: "payload-arrayobj", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        payload:
          type: array
          items:
            type: object
            properties:
              a:
                type: string
`},
	{Name: "payload-ref-arrayobj", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        payload:
          $ref: '#/components/schemas/Thing'
components:
  schemas:
    Thing:
      type: array
      items:
        type: object
        properties:
          a:
            type: string
`},
	{Name: "payload-object", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        payload:
          type: object
          properties:
            a:
              type: string
`},
	{Name: "payload-ref-object", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        payload:
          $ref: '#/components/schemas/Thing'
components:
  schemas:
    Thing:
      type: object
      properties:
        a:
          type: string
`},
	{Name: "payload-oneof", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        payload:
          oneOf:
          - type: object
            properties:
              a:
                type: string
          - type: object
            properties:
              b:
                type: string
`},
	{Name: "payload-ref-oneof", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        payload:
          $ref: '#/components/schemas/Thing'
components:
  schemas:
    Thing:
      oneOf:
      - type: object
        properties:
          a:
            type: string
      - type: object
        properties:
          b:
            type: string
`},
	{Name: "header-string", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        headers:
          type: object
          properties:
            h:
              type: string
        payload:
          type: string
`},
	{Name: "header-req-string", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        headers:
          type: object
          required: ["h"]
          properties:
            h:
              type: string
        payload:
          type: string
`},
	{Name: "header-datetime", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        headers:
          type: object
          properties:
            h:
              type: string
              format: date-time
        payload:
          type: string
`},
	{Name: "header-req-datetime", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        headers:
          type: object
          required: ["h"]
          properties:
            h:
              type: string
              format: date-time
        payload:
          type: string
`},
	{Name: "header-date", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        headers:
          type: object
          properties:
            h:
              type: string
              format: date
        payload:
          type: string
`},
	{Name: "header-req-date", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        headers:
          type: object
          required: ["h"]
          properties:
            h:
              type: string
              format: date
        payload:
          type: string
`},
	{Name: "header-integer", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        headers:
          type: object
          properties:
            h:
              type: integer
        payload:
          type: string
`},
	{Name: "header-req-integer", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        headers:
          type: object
          required: ["h"]
          properties:
            h:
              type: integer
        payload:
          type: string
`},
	{Name: "header-int32", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        headers:
          type: object
          properties:
            h:
              type: integer
              format: int32
        payload:
          type: string
`},
	{Name: "header-req-int32", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        headers:
          type: object
          required: ["h"]
          properties:
            h:
              type: integer
              format: int32
        payload:
          type: string
`},
	{Name: "header-number", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        headers:
          type: object
          properties:
            h:
              type: number
        payload:
          type: string
`},
	{Name: "header-req-number", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        headers:
          type: object
          required: ["h"]
          properties:
            h:
              type: number
        payload:
          type: string
`},
	{Name: "header-float", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        headers:
          type: object
          properties:
            h:
              type: number
              format: float
        payload:
          type: string
`},
	{Name: "header-req-float", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        headers:
          type: object
          required: ["h"]
          properties:
            h:
              type: number
              format: float
        payload:
          type: string
`},
	{Name: "header-boolean", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        headers:
          type: object
          properties:
            h:
              type: boolean
        payload:
          type: string
`},
	{Name: "header-req-boolean", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        headers:
          type: object
          required: ["h"]
          properties:
            h:
              type: boolean
        payload:
          type: string
`},
	{Name: "header-array", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        headers:
          type: object
          properties:
            h:
              type: array
              items:
                type: string
        payload:
          type: string
`},
	{Name: "header-req-array", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        headers:
          type: object
          required: ["h"]
          properties:
            h:
              type: array
              items:
                type: string
        payload:
          type: string
`},
	{Name: "header-object", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        headers:
          type: object
          properties:
            h:
              type: object
              properties:
                a:
                  type: string
        payload:
          type: string
`},
	{Name: "header-req-object", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        headers:
          type: object
          required: ["h"]
          properties:
            h:
              type: object
              properties:
                a:
                  type: string
        payload:
          type: string
`},
	{Name: "header-ref-string", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        headers:
          type: object
          required: ["r"]
          properties:
            h:
              $ref: '#/components/schemas/Thing'
            r:
              $ref: '#/components/schemas/Thing'
        payload:
          type: string
components:
  schemas:
    Thing:
      type: string
`},
	{Name: "header-ref-datetime", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        headers:
          type: object
          required: ["r"]
          properties:
            h:
              $ref: '#/components/schemas/Thing'
            r:
              $ref: '#/components/schemas/Thing'
        payload:
          type: string
components:
  schemas:
    Thing:
      type: string
      format: date-time
`},
	{Name: "header-ref-object", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        headers:
          type: object
          required: ["r"]
          properties:
            h:
              $ref: '#/components/schemas/Thing'
            r:
              $ref: '#/components/schemas/Thing'
        payload:
          type: string
components:
  schemas:
    Thing:
      type: object
      properties:
        a:
          type: string
`},
	{Name: "headers-ref", Major: 2, YAML: `
asyncapi: 2.6.0
info:
  title: T
  version: 2.0.0
channels:
  app.evt:
    subscribe:
      message:
        headers:
          $ref: '#/components/schemas/Hdr'
        payload:
          type: string
components:
  schemas:
    Hdr:
      type: object
      required: ["r"]
      properties:
        h:
          type: string
        r:
          type: string
`},
}
