#!/usr/bin/env python3
"""Single source of the property list; writes properties.jsonl (and, with the
claims table in claims.py, MANIFEST.json)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, q, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a})

T2="pkg/codegen/generators/v2/templates"; T3="pkg/codegen/generators/v3/templates"
CT=[T2+"/controller.tmpl", T3+"/controller.tmpl"]; MT=[T2+"/message.tmpl", T3+"/message.tmpl"]
EXT="pkg/extensions"; V=EXT+"/versioning"; BR=EXT+"/brokers"
BRK=[BR+"/kafka/kafka.go", BR+"/nats/nats.go", BR+"/natsjetstream/natsjetstream.go"]

prop("C01","A received message is settled with the broker at most once",
 "However often and in whatever order a received message is acknowledged or negatively acknowledged, the broker receives at most one settlement for it, and it is the first one requested: an acknowledgement is delivered as an acknowledgement and a negative acknowledgement as a negative acknowledgement.",
 ["histories","inputs"],"every sequence of acknowledge / negative-acknowledge calls made by handlers, error handlers and generated code on one message",
 "no existing test calls both operations on one message, in either order; the quantifier is over call sequences",
 [EXT+"/broker.go"],[("settled flag tested and set on every path of both operations",EXT+"/broker.go AcknowledgeableBrokerMessage.Ack/Nak")],
 ["calls on the broker's acknowledgement interface"])

prop("C02","Cancelling a subscription runs the clean-up once and then ends the stream",
 "Cancelling a subscription wakes the broker side, which runs its clean-up exactly once, then closes the message stream, then signals completion; the canceller returns only once completion was signalled or its own context ended. The cancellation request can never be consumed by the canceller itself, and every subscription handed to a user has such a cancellation listener.",
 ["schedules","histories"],"every interleaving of the canceller with the broker-side goroutine, every broker adapter and the version wrapper",
 "tests cancel once on one schedule, mostly against live brokers; a lost wake-up shows only in one interleaving",
 [EXT+"/broker.go",V+"/version_subscription.go"]+BRK,
 [("request/completion handshake over one channel",EXT+"/broker.go Cancel, WaitForCancellationAsync"),("listener started for each created subscription","each adapter's Subscribe")],
 ["the message stream closing","the broker clean-up callback"])

prop("C03","Version routing never deadlocks on its locks",
 "The version-routing layer releases every lock it takes on every path, including error paths and every iteration of its delivery loop, always takes its locks in one global order, and never waits on a channel or for a subscriber while holding a lock that the waited-for side needs.",
 ["schedules","histories"],"all interleavings of subscribing, cancelling and message arrival over any set of channels and versions",
 "the tests use one goroutine schedule and only registered versions; a leaked lock shows on the second message",
 [V+"/wrapper.go",V+"/broker_subscription.go",V+"/version_subscription.go"],
 [("channels mutex",V+"/wrapper.go"),("versions mutex",V+"/broker_subscription.go")],["later messages and later calls still complete"])

prop("C04","Messages are routed only to the version they carry",
 "Every message published through the version wrapper for a known version carries that version in the configured header whatever headers it had before, with destination and payload untouched. A received message is delivered exactly once, only to the subscription registered for its version (the default version when it carries none), a message without an eligible version is delivered to nobody and does not affect later messages, and a channel is subscribed on the broker at most once for all its versions and released when its last version leaves.",
 ["inputs","histories"],"all messages (with/without version header, known/unknown versions, nil headers), all sequences of version subscriptions on a channel",
 "tests cover two registered versions; unknown versions, absent headers and mixtures of both are not exercised",
 [V+"/wrapper.go",V+"/broker_subscription.go"],
 [("header tagging",V+"/wrapper.go Publish"),("lookup by version and transmit",V+"/broker_subscription.go launchListener"),("registration / removal",V+"/broker_subscription.go")],
 ["broker publish calls","per-version message streams"])

prop("C05","Broker adapters carry every header and the payload unchanged",
 "Each broker adapter hands the broker library, on the requested channel, the message payload and every header with its value, and hands subscribers the payload and every header of each broker message it receives (the first value of a header that has several); nothing is dropped, swapped, filtered or altered on the way, in any adapter.",
 ["inputs"],"all messages (any header set, any payload) in both directions through every adapter",
 "the adapter tests need live brokers and do not run in the stable set; they sample one message each",
 BRK,[("publish mapping","each adapter's Publish"),("receive mapping","each adapter's message handler")],
 ["broker library calls","messages transmitted to subscriptions"])

prop("C06","Broker failures are surfaced, never reported as success",
 "When the underlying broker library reports an error while an adapter connects, creates resources, publishes or subscribes, the operation returns an error (it is never swallowed and success is never reported); errors in background reception, acknowledgement and clean-up are logged. A success is reported only after the library call that does the work was made and succeeded.",
 ["fault_sequences"],"every failing library call in every adapter and in the version wrapper, in any combination",
 "no test injects a broker failure",
 BRK+[V+"/wrapper.go",V+"/broker_subscription.go"],[("error returns and logging after each library call","each adapter")],
 ["errors returned by connect/publish/subscribe","log entries"])

prop("C07","Broker-level settlement happens only through the message's acknowledgement",
 "With manual commit, a message's offset is committed only when that very message is settled by the application, and with auto-commit the adapter never commits by itself; the persistent-stream adapter acknowledges a message when it is acknowledged and negatively acknowledges it (with the configured delay) when it is negatively acknowledged, and itself acknowledges only messages that no subscription covers.",
 ["histories","configurations"],"all message histories, both commit modes, all adapters",
 "requires a live broker and redelivery to observe; the stable tests run none",
 BRK,[("commit closure per message",BR+"/kafka/kafka.go"),("ack/nak closures per message",BR+"/natsjetstream/natsjetstream.go")],
 ["commit/ack/nak calls on broker library"])

prop("C08","Connections: owned ones are released, supplied ones are never closed",
 "A connection supplied by the user is never closed by a controller; a connection the controller opened itself is closed when it is replaced, when the controller is closed, and on every failing construction path after it was opened.",
 ["fault_sequences","configurations"],"every option combination and every failing step during construction",
 "construction failures after a successful connection are not tested",
 [BR+"/natsjetstream/natsjetstream.go",BR+"/kafka/kafka.go",BR+"/nats/nats.go"],
 [("ownership flag",BR+"/natsjetstream/natsjetstream.go setNatsConnection/Close"),("test connection closed",BR+"/kafka/kafka.go NewController")],["Close calls on connections"])

prop("C09","Configuring one controller never changes another",
 "Options and constructors of broker controllers, version wrappers, middlewares and loggers only modify the instance being built: they never write to package-level variables of this or another library or to objects shared through them.",
 ["configurations","histories"],"every option, in every order, over any number of instances in one process",
 "tests build one controller per process configuration and never look at library globals",
 BRK+[V+"/wrapper.go"],[("defaults copied per instance","each NewController"),("options write only their receiver","each With* option")],["a second controller's behaviour"])

prop("C10","State shared between goroutines is accessed safely",
 "In the runtime library, mutable state reachable from several goroutines (subscription tables, consumer handles) is only read or written under the lock that protects it or before it is shared, and a message stream is never written to after it may have been closed.",
 ["schedules"],"all interleavings of subscribe, receive, cancel and close",
 "data races depend on the schedule; the adapters' tests do not run in the stable set",
 [BR+"/natsjetstream/natsjetstream.go",V+"/broker_subscription.go",V+"/wrapper.go"],
 [("mutexes",V),("channels table",BR+"/natsjetstream/natsjetstream.go")],["absence of races"])

prop("C11","Middlewares wrap each message in order, at most once, and can abort it",
 "In generated controllers, for each message every registered middleware runs at most once and in registration order, the final operation runs at most once and only after all of them were entered, whether or not and however often middlewares call their continuation. An error returned by a middleware, or by the final operation, is what the caller gets, and after a middleware returned an error without continuing nothing further runs.",
 ["inputs","configurations"],"any number of middlewares, each calling its continuation zero, one or several times and returning an error or not; v2 and v3 generators, both sides",
 "tests use one middleware chain; generated code in the tree is not regenerated by the tests, so the generator's templates are not exercised at all",
 CT,[("recursive wrapping with per-link called flag","controller templates wrapMiddlewares / executeMiddlewares")],["calls to middlewares and final operation"])

prop("C12","Every delivered message is settled according to its handling",
 "A generated subscription settles every message it takes from its stream: it is acknowledged only after decoding, all middlewares and the user's handler succeeded; on any error the error handler is told (with that error, channel and message) and the message is negatively acknowledged and never acknowledged first. The loop then goes on with the next message and stops only when the stream is closed.",
 ["inputs","fault_sequences","programs"],"every message, every failing step, every specification (v2, v3) and both sides",
 "generated code is not regenerated by tests; failing decode/middleware/handler combinations are not tested",
 CT,[("listenTo…NextMessage and Subscribe… loop","controller templates")],["ack/nak and error handler calls"])

prop("C13","What middlewares leave is what is published or handled, and only through them",
 "In generated controllers every broker publication and every user-handler invocation happens inside the middleware chain, and the message published, handed to the handler or returned as a reply is the one the middlewares received and possibly modified, sent to the channel address the operation designates.",
 ["programs","inputs"],"every generated operation of every specification (v2, v3), both sides",
 "generated code is not regenerated by tests",
 CT,[("executeMiddlewares around broker.Publish and fn","controller templates")],["broker publish calls","handler calls"])

prop("C14","Subscriptions are tracked exactly",
 "Subscribing twice to a channel address is refused without touching the broker; a successful subscription is recorded under exactly the address subscribed on the broker and a failed one is not recorded; unsubscribing cancels that subscription and forgets it, so that the address can be subscribed again; unsubscribing from an address that is not subscribed does nothing.",
 ["histories","programs"],"every sequence of subscribe/unsubscribe operations, every specification incl. parameterised channels",
 "generated code is not regenerated by tests; sequences of more than one subscription are rarely tested",
 CT,[("subscriptions table keyed by address","controller templates Subscribe…/Unsubscribe…")],["broker subscribe/cancel calls"])

prop("C15","Bulk operations and closing cover every channel",
 "Subscribing to all channels subscribes to each receivable channel without parameters with its own handler and stops at the first error, which it returns; unsubscribing from all, and closing the controller, cancels every subscription that is still active.",
 ["histories","programs"],"every set of active subscriptions at closing time, every specification",
 "generated code is not regenerated by tests; closing with parameterised subscriptions is untested",
 CT,[("UnsubscribeFromAllChannels / UnsubscribeAll / Close","controller templates")],["cancel calls"])

prop("C16","Request/reply never misses, leaks or hangs",
 "A generated request operation subscribes to the reply channel before publishing, cancels that subscription on every exit, returns only a reply carrying the request's correlation ID when one is defined, settles every reply message it consumes, and returns an error as soon as the caller's context ends or the reply stream closes.",
 ["schedules","histories","programs"],"any stream of foreign, malformed or matching replies, any cancellation point, every specification with replies (v3) or wait-for operations (v2)",
 "generated code is not regenerated by tests; timeouts, closed streams and foreign replies are not tested",
 CT,[("Request…/WaitFor… and their next-response step","controller templates")],["subscribe/publish/cancel order","returned value"])

prop("C17","Correlation IDs are present, preserved and propagated",
 "When a message type defines a correlation ID, the generated code gives each new message a fresh one, sets one before sending if the caller left it empty while never replacing a caller's value, refuses to send a reply without one, gives a reply the identifier of the message it answers, and reading it back yields exactly the value that was set.",
 ["inputs","programs"],"every message with a correlation ID (required or optional location), every specification",
 "generated code is not regenerated by tests",
 CT+MT,[("New…, SetCorrelationID, SetAsResponseFrom, CorrelationID","message templates"),("assignment before conversion","controller templates Publish…/Send…/Request…")],["published messages"])

prop("C18","Operation context identifies every message path",
 "For every message passing through a generated controller, the context given to the broker, to each middleware, to the error handler and to the user handler carries the document version, the provider side, the channel address, the direction of the operation (reception, publication or wait-for) and the message; when a correlation ID is defined and set it is there too on publication and in the user handler.",
 ["programs","inputs"],"every generated operation, both sides, v2 and v3",
 "generated code is not regenerated by tests",
 CT+[EXT+"/context.go"],[("add…ContextValues and context.WithValue","controller templates")],["context values"])

prop("C19","Controllers start in a usable state or not at all",
 "A generated controller cannot be created without a broker, and subscribing to all channels without a subscriber is refused; a controller created without options has non-nil logging, error handling and subscription storage, and each option replaces exactly the aspect it names, the last one given winning.",
 ["configurations"],"every option combination, both sides, v2 and v3",
 "generated code is not regenerated by tests; nil arguments are not tested",
 CT+[T2+"/types.tmpl",T3+"/types.tmpl",EXT+"/errorhandler.go"],[("nil checks, defaults then options","controller templates New…Controller; types templates With…")],["constructor results"])

prop("C20","Generated encoding and decoding of a message mirror each other",
 "For every message definition, the generated decoder reads payload and each header with the same wire key, format, width, byte order and type with which the generated encoder writes it, in the encoding its type and format call for (text, RFC 3339 dates and times unless formats are ignored, 32 or 64 bit big-endian numbers for numeric payloads, JSON otherwise), covers all of the same headers, skips exactly the absent optional headers, and both report conversion failures.",
 ["programs","inputs"],"every payload type/format and header type/requiredness/reference combination a document can express",
 "tests cover a handful of committed messages; scalar payloads and typed headers are not generated in any test",
 MT,[("brokerMessageTo… / toBrokerMessage","message templates")],["bytes exchanged by the two functions"])

prop("C21","Malformed messages give errors, not crashes",
 "No payload or header content received from a broker can make generated decoding panic: length- or format-sensitive reads are guarded, optional values are only dereferenced when present, and every conversion error is returned to the caller.",
 ["inputs","programs"],"every byte string as payload or header, every message definition",
 "tests decode well-formed messages only",
 MT+[T2+"/marshaling/additional_properties.tmpl",T3+"/marshaling/additional_properties.tmpl"],[("error returns","message and marshaling templates")],["returned error"])

prop("C22","Additional properties survive JSON in both directions",
 "For objects allowing additional properties, the generated JSON encoding contains the declared and all additional properties as valid JSON whatever their names and value types, and decoding puts exactly the undeclared properties, keyed by their wire names, in the additional set, keeping the declared ones in their fields.",
 ["inputs","programs"],"every declared property set, every additional key and value type",
 "tests cover one string-valued example",
 [T2+"/marshaling/additional_properties.tmpl",T3+"/marshaling/additional_properties.tmpl"],[("MarshalJSON/UnmarshalJSON","marshaling templates")],["JSON text and decoded structure"])

prop("C23","Generated code type-checks for every supported document shape",
 "For every combination of supported document features, the text the generator assembles is Go code that parses and type-checks against the runtime library, with all packages it needs imported; each template only uses data and functions that exist when it is executed.",
 ["programs","configurations"],"all feature combinations reachable by the templates' conditions (v2, v3), both sides and types",
 "tests only compile committed output of past generator versions",
 [T2,T3,"pkg/codegen/generators/v2","pkg/codegen/generators/v3"],[("templates, helper functions and template loading","pkg/codegen/generators")],["generated file"])

prop("C24","Every part of a document is processed, wherever it occurs",
 "Loading a document names and resolves every element it may contain (operations, messages, schemas, parameters, replies, traits, correlation IDs, tags, bindings…) wherever the format allows it to be nested, so that no reference is left unresolved and no reachable element unnamed; naming happens before resolution and resolution before anything depends on it.",
 ["inputs"],"every nesting of elements a v2 or v3 document may contain",
 "tests contain a few nestings; a missed child shows only with a reference at that place",
 ["pkg/asyncapi/v2","pkg/asyncapi/v3"],[("metadata and dependency traversals","each element's generateMetadata / setDependencies"),("two-phase processing","specification.go Process")],["resolved document"])

prop("C25","A bad or dangling reference is reported as an error, never a crash",
 "Whatever text a reference contains, resolving it either yields the element it designates or an error that reaches the caller; it never panics, never loops and never leaves a nil target that later processing dereferences.",
 ["inputs"],"every reference string in every position of a v2 or v3 document",
 "tests use well-formed references",
 ["pkg/asyncapi/v2/specification.go","pkg/asyncapi/v3/specification.go"],[("reference walk and typed reference accessors","specification.go reference / Reference*")],["Process error"])

prop("C26","References resolve to the kind of element expected at that place",
 "Each reference is resolved against the section of the document that its path designates, is accepted only when it designates the kind of element its location requires, is refused with an error otherwise, and is followed consistently wherever the referenced element is used.",
 ["inputs"],"every pair of reference location and target section",
 "seventeen sibling accessors, of which tests touch a few",
 ["pkg/asyncapi/v2","pkg/asyncapi/v3"],[("Reference* accessors and referenceFrom walks","pkg/asyncapi/v2, v3"),("Follow","pkg/asyncapi/v2, v3")],["resolved target"])

prop("C27","Traits and allOf only fill gaps, field by field",
 "Applying a trait to a message or operation gives it every value that the trait provides and it lacks, each from the trait's own field of that name, and unites lists, headers and payloads; combining schemas or messages unites their properties, required names and alternatives. What the target defines itself is never overridden, the type of a scalar or an array included, and neither the source nor other users of the same source are modified. A schema given by reference has every validation constraint of the one it refers to.",
 ["inputs"],"every combination of fields defined on target and source, every way of giving the source",
 "tests check a few fields",
 ["pkg/asyncapi/schema.go","pkg/asyncapi/v2","pkg/asyncapi/v3"],[("MergeWith / ApplyTrait / Validations.Merge","pkg/asyncapi")],["merged element"])

prop("C28","Accepted document versions and generators agree",
 "A document is accepted exactly when its declared version is supported, every accepted version is parsed with the model and generated with the generator of its major version, and an unsupported, missing or mixed version is an error.",
 ["inputs","configurations"],"every version string, every combination of input files",
 "tests parse a few versions",
 ["pkg/asyncapi/versions.go","pkg/asyncapi/parser/parse.go","pkg/codegen/codegen.go","pkg/asyncapi/v2/specification.go","pkg/asyncapi/v3/specification.go"],
 [("supported versions table",  "pkg/asyncapi/versions.go"),("parser and generator dispatch","parser/parse.go, codegen.go")],["parse/generate result"])

prop("C29","Every command-line flag reaches the option it names",
 "Each command-line flag is parsed into, and only into, the generation option it documents, unset flags give the documented default, every generation option has an effect on the generator, and unknown generation targets or naming schemes are refused.",
 ["configurations"],"every combination of flags",
 "tests check few flags",
 ["cmd/asyncapi-codegen","pkg/codegen/options/options.go","pkg/codegen/codegen.go"],[("flag to option mapping","cmd/asyncapi-codegen/config.go"),("option use","pkg/codegen/codegen.go")],["generated output"])

prop("C30","A failed generation reports failure and writes nothing",
 "If parsing, resolving, generating or formatting fails, the generator returns an error, the command exits with a non-zero status, and the output file is not created or modified; errors are never discarded on the way, and the output is written only after everything else succeeded.",
 ["fault_sequences","inputs"],"every failing step",
 "tests check success paths mainly",
 ["pkg/codegen","pkg/asyncapi","cmd/asyncapi-codegen"],[("error propagation","pkg/codegen/codegen.go, pkg/asyncapi, cmd")],["exit code","output file"])

prop("C31","A generation never depends on earlier generations",
 "The result of generating from a document depends only on that document and its options: no option of an earlier generation in the same process (naming scheme, key conversion, pointer or date handling) stays in force afterwards.",
 ["histories"],"every sequence of generations in one process",
 "tests use one option set per process or reset the state themselves",
 ["pkg/codegen/codegen.go","pkg/utils/template/helpers.go",T2+"/helpers.go",T3+"/helpers.go"],[("package-level settings assigned by each generation","pkg/codegen/codegen.go Generate")],["generated output"])

prop("C32","Generation is deterministic",
 "Generating twice from the same inputs gives byte-identical output: no output depends on map iteration order, time, randomness or addresses.",
 ["programs","inputs"],"every document, every run",
 "map order is random per run, and small documents in tests rarely show it",
 ["pkg/codegen","pkg/asyncapi","pkg/utils"],[("sorted or order-independent iteration","pkg/utils/map.go, generators, extensions")],["generated file"])

prop("C33","Schema constraints and requiredness appear faithfully in generated tags",
 "Each constraint of the supported set (lengths, bounds, uniqueness, string enumerations and constants) that a schema property declares is emitted as the validation documented for it with its exact bound, none is emitted that was not declared; a property is omitted when empty in JSON exactly if it is optional, unless the omission extension says otherwise; its JSON name is the document's name under the chosen convention; and it is mandatory and non-pointer (pointers not being forced) exactly when its own parent requires it.",
 ["inputs"],"every combination of constraints and requiredness, wherever properties become fields, given inline, by reference or in an allOf",
 "tests check a few combinations",
 ["pkg/codegen/generators/helpers.go","pkg/asyncapi/schema.go",T2+"/schema_definition.tmpl",T3+"/schema_definition.tmpl",T2+"/helpers.go",T3+"/helpers.go"],
 [("tag generation","pkg/codegen/generators/helpers.go"),("pointer rule","generators/v*/templates/helpers.go isFieldPointer")],["struct tags in generated types"])

prop("C34","Application and user sides are exact duals",
 "For each operation of a document exactly one side gets the sending half and the other the receiving half, replies go the opposite way, every operation appears on both sides under the same channel and message, and counts, subscriber interfaces and controllers agree on which operations a side has.",
 ["programs"],"every set of operations, both document generations",
 "tests only compile committed output",
 ["pkg/codegen/generators","pkg/asyncapi/v2/specification.go","pkg/asyncapi/v3/specification.go"],[("side/action selection","pkg/codegen/generators/v2, v3 controller.go, common.go, subscriber.go")],["generated interfaces"])

prop("C35","Document fields are read from the keys the AsyncAPI format defines",
 "Each field of the document model that the format defines is filled from exactly the key the AsyncAPI specification gives it, and no two fields of an element claim the same key; it can hold every kind of value that the format allows there.",
 ["inputs"],"every field of every element of v2 and v3 documents",
 "tests use a few fields; a misspelt key silently drops data",
 ["pkg/asyncapi/schema.go","pkg/asyncapi/v2","pkg/asyncapi/v3"],[("struct tags","pkg/asyncapi")],["parsed document"])

prop("C36","Shipped middlewares, loggers and error handlers do what they announce",
 "The recovery middleware turns a panic below it into a logged error that reaches the caller, so the message is not treated as handled, and otherwise passes the result through unchanged; the logging middleware and handler never alter or abort a message; the intercepting middleware hands over the message; each logger writes exactly one entry per call with the message, the severity asked for, every given information pair and the operation context.",
 ["inputs","fault_sequences"],"every handler outcome including panics, every information set",
 "no test exercises panics through the recovery middleware or each logger",
 [EXT+"/middlewares",EXT+"/loggers",EXT+"/errorhandlers"],[("middleware functions","pkg/extensions/middlewares"),("loggers","pkg/extensions/loggers")],["log entries","returned errors"])

prop("C37","Custom types bring the imports they need",
 "Every package from which generated code takes a custom type (the type and import extensions) is imported exactly once, from the path and under the name the document gives, wherever in the document the schema with the extension is: sections, channels, operations, messages, headers, parameters, properties, items, additional properties, alternatives, through references. Absent entries change nothing, and two names for one path are refused with an error.",
 ["inputs","programs"],"every place a schema can be in a document of either version",
 "the tests have one custom type in one place; a place that is not visited gives code that does not compile only for documents that use it",
 ["pkg/asyncapi/v2/extensions.go","pkg/asyncapi/v3/extensions.go","pkg/codegen"],[("collection of custom imports","pkg/asyncapi/v2/extensions.go, v3/extensions.go CustomImports")],["import block of the generated file"])

prop("C38","The configuration of a broker controller takes effect",
 "What the constructor and the options of a broker adapter are given (addresses, consumer group, partition, size limit, TLS, authentication, stream, consumer, redelivery delay, connection and its options, logger, commit mode, test at connection) is what the broker library is given for that concern in everything the controller does afterwards; of two options about the same concern the last one wins, an option does not disturb the others, and without option the documented default is used.",
 ["inputs","histories"],"every sequence of options and every later publication, subscription and reconnection",
 "the broker tests need live brokers, are not run here, and use one configuration",
 BRK,[("constructors and options","pkg/extensions/brokers/*/"+"*.go New…Controller, With…")],["calls to the broker libraries"])

prop("C39","The texts of a document never become code",
 "Whatever characters (quotes, backslashes, line ends, comment marks, formatting verbs, template actions) the texts of a document have (descriptions, titles, summaries, version, channel addresses, names of elements), they appear in the generated code only within comments and as literals whose value is exactly the text: the rest of the code is the same as for a plain text.",
 ["inputs"],"every text in every place of a document",
 "tests use plain one-line texts",
 ["pkg/utils/template/helpers.go",T2,T3,T2+"/helpers.go",T3+"/helpers.go"],[("comments of several lines","pkg/utils/template/helpers.go MultiLineComment, DescribeStruct"),("address literals","generators/v*/templates/helpers.go GenerateChannelAddr, GenerateChannelPath")],["generated file"])

prop("C40","Errors stay recognisable",
 "Every failure that the library, the generator and generated code report can be recognised with errors.Is: the errors that packages declare are all below ErrAsyncAPI and none is below another one, and an error that is made from another error, or where another one has just happened, keeps it in its chain (or has a declared error in it) and never holds its text only.",
 ["inputs","failures"],"every place that makes an error, on every failure path",
 "tests check a few errors by hand; failures of brokers and of encodings are not provoked",
 [EXT+"/errors.go",EXT,"pkg/asyncapi","pkg/codegen",T2,T3],[("declared errors","pkg/extensions/errors.go, versioning/wrapper.go, asyncapi/parser/parse.go, asyncapi/v*/specification.go Err…"),("errors made from others","every fmt.Errorf, errors.New and errors.Join")],["errors given by broker libraries and by encoding/json"])

# --- not claimed by this family -------------------------------------------------
prop("C90","Distinct document names give distinct, valid Go identifiers",
 "Any two distinct element names of a document are given distinct valid Go identifiers in the generated code under every naming scheme.",
 ["inputs"],"all name strings","naming functions are tested on samples",
 ["pkg/utils/template/helpers.go"],[("Namify and key conversion","pkg/utils/template/helpers.go")])
prop("C91","A round trip through generated code preserves every value",
 "Encoding any message value with generated code and decoding the result yields an equal value.",
 ["inputs","programs"],"all message values of all documents","tests sample values",
 MT,[("brokerMessageTo… / toBrokerMessage","message templates")])
prop("C92","Subject patterns match exactly the subjects the broker delivers for them",
 "The persistent-stream adapter's decision whether a subscription covers a subject agrees with the broker's wildcard semantics for all patterns and subjects.",
 ["inputs"],"all patterns and subjects","table test on samples",
 [BR+"/natsjetstream/natsjetstream.go"],[("subject matching",BR+"/natsjetstream/natsjetstream.go MatchSubjectSubscription")])
prop("C93","Messages of a channel reach the handler in broker order without loss",
 "Between subscription and cancellation every message the broker delivers on a channel reaches the handler, in the order in which the broker delivered it.",
 ["schedules","histories"],"all delivery histories","needs live brokers",
 BRK,[("queues between broker library and subscription","brokers")])

if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
