#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and the table below."""
import json, os
from props import P, ROOT

COMMON = "Decided from the source of the current tree by the analyser in /verif/checker (type-checked program, SSA, path-sensitive inlining interpreter); nothing is executed. Assumes the SSA builder is faithful, library functions behave as documented, and loops beyond the unrolling bound behave like the unrolled rounds."
EXPN = "Every controller operation of every expansion of the templates over the enumerated document shapes (the shapes reach every template branch; names and values are symbols), all paths. "
CLAIMS = {
 "C01": ("path-sensitive typestate analysis of call sequences over SSA", "All call sequences up to three, closed by an induction step on the message state. "+COMMON),
 "C02": ("interleaving enumeration of synchronisation skeletons extracted from SSA, plus must-pass analysis of creators", "All interleavings of one or two cancellers with the broker-side goroutine, for the channel capacities found at the creation sites. "+COMMON),
 "C03": ("path-sensitive lockset and lock-order analysis over SSA", "Every entry point, goroutine and clean-up of the versioning package. "+COMMON),
 "C36": ("path-sensitive dataflow and effect analysis over SSA of what the factories build", "Every path of the shipped middlewares (the continuation returning or panicking), error handlers and logger methods; the loop over the given pairs is followed for its generic round. "+COMMON),
 "C23": ("partial evaluation of the templates over enumerated document shapes, then type-checking and SSA construction of every expansion", "Every branch of every template that the analyser counts is reached by some shape; names and values inside a shape are symbols standing for the class the generator distinguishes. "+COMMON),
 "C04": ("path-sensitive dataflow/typestate analysis over SSA", "All paths of publish, subscribe, removal, and two rounds of the delivery loop. "+COMMON),
 "C05": ("path-sensitive dataflow analysis over SSA, with iteration pairing", "Every publish, subscription, handler and background path of the three adapters; two rounds of each loop; headers compared element by element between what the library gave or was given and what the subscriber or caller has. "+COMMON),
 "C06": ("path-sensitive error-flow analysis over SSA", "Every path, with every error result of the broker libraries taken both ways; options explored one by one. "+COMMON),
 "C07": ("path-sensitive typestate analysis over SSA, closed over the acknowledgement closures", "Every path of subscription and reception, then every path of the acknowledgement object built on it. "+COMMON),
 "C08": ("path-sensitive ownership analysis over SSA", "Every construction with each option alone and in pairs, every failing path, and closing the resulting controller. "+COMMON),
 "C09": ("effect analysis over SSA (write targets traced to their roots)", "Every constructor, option and middleware or logger factory, and every function of the library for package-level writes. "+COMMON),
 "C10": ("path-sensitive lock-set analysis over SSA", "Every method of the runtime library and the goroutines, handlers and clean-ups it starts. "+COMMON),
 "C11": ("path-sensitive typestate analysis, over SSA, of the code the templates generate for enumerated document shapes", EXPN+"Chains of 0 to 3 middlewares, two receptions. "+COMMON),
 "C12": ("path-sensitive typestate analysis, over SSA, of the code the templates generate for enumerated document shapes", EXPN+"Two receptions per listener, chains of 0 and 1 middlewares. "+COMMON),
 "C13": ("path-sensitive dataflow analysis, over SSA, of the code the templates generate for enumerated document shapes", EXPN+"Two receptions, chains of 0 to 2 middlewares; addresses compared with an independent reading of the document. "+COMMON),
 "C14": ("path-sensitive typestate analysis, over SSA, of the code the templates generate for enumerated document shapes", EXPN+COMMON),
 "C15": ("path-sensitive dataflow analysis, over SSA, of the code the templates generate, against an independent reading of the document", EXPN+COMMON),
 "C28": ("path-sensitive dataflow analysis of the parser over SSA, and constant propagation through parser and generator for a table of versions and files", "All paths of the parser; every supported version, thirty malformed or unsupported ones, seven kinds of non-strings, six imposed versions, and pairs and triples of files. "+COMMON),
 "C29": ("path-sensitive dataflow analysis over SSA of flags and options, and constant propagation through the generator for every combination of options", "Every flag and option; every list of up to three targets; 64 combinations of options and 14 of targets for one document per format. "+COMMON),
 "C30": ("error-flow analysis over SSA: each fallible call is followed from its failure to every way out", "Every fallible call of the command, generator, document model and utilities; all paths of a generation and of the command. "+COMMON),
 "C24": ("path-sensitive dataflow analysis over SSA of the naming and resolving passes, per type of element, per field and per pair of fields", "Every type of element of both document models (60 with passes), every field that holds elements (195); each pass is explored with every combination of field present/absent and two rounds of each iteration. "+COMMON),
 "C25": ("interprocedural dataflow analysis over SSA of what may be absent, with bounds, termination and error-flow analyses", "Every function of the document models, utilities and generators (350): 2,100 dereferences, 330 positions in lists, every type assumption, loop and recursion, every fallible call. Functions called by the templates are left out for absence: text/template turns their panics into errors. "+COMMON),
 "C26": ("constant propagation through the parser, the reference accessors and the resolving passes over SSA, for the complete table of sections × accessors × places that can refer", "All pairs of an accessor or a place with a section (2,200), local and across files; chains of up to four references across files; every malformed form. The elements themselves are symbols of their kind. "+COMMON),
 "C27": ("constant propagation through the merging functions and passes over SSA, for every combination of fields set on target and source", "Every field of traits, validations and schemas (enumerated from the types) set or not on target and source, alone, among all others, and for every pair of fields (5,500 merges); documents with every way of giving a source (450). Zero values count as absent, as in the model. "+COMMON),
 "C35": ("comparison of the type-checked document model with a table of the AsyncAPI 2.6 and 3.0 objects, through the field selection rules of encoding/json", "Every object of the format that the model reads (41 structures, 400 keys), embedded structures and case-insensitive matching included; the table of keys and kinds is hand-written from the specifications. What the model does not read of the format (bindings and traits of version 2, ...) is not in question. "+COMMON),
 "C32": ("partial evaluation of the generator over enumerated document shapes under several iteration orders of maps, plus an effect analysis over SSA (time, randomness, environment, goroutines, addresses)", "272 document shapes; the sorted order against the reversed and one shuffled order (seven in the thorough run); every iteration over a map in the generator is either reached with several entries or only collects what is then sorted. Nothing of /repo is executed: the analyser propagates constants through the SSA of the generator and its templates."),
 "C33": ("constant propagation through the parser, the document model, the templates and their helpers over SSA, for every subset of the constraints of each type; the struct tags of the folded text are compared with the document", "Every subset of the four constraints of strings, integers and numbers, uniqueness, required or not, with and without the omission extension, in eleven places where properties become fields (inline, nested, lists, references, allOf, headers, additional properties), every key conversion, forced pointers; bounds from a table of magnitudes and values with every separator of the tag syntax. "+COMMON),
 "C34": ("constant propagation through the parser, the document model, the generators and their templates over SSA, for documents made of every kind of operation; the declarations of the folded text are compared with the halves each side must have", "Every kind of operation of version 3 (action, parameters, reference, chosen messages, fixed or dynamic reply) and of channel of version 2 (publish/subscribe/both, parameters, identifiers, referred messages, correlation) alone, with every other one, three times, all together, on a shared channel, and for every choice of targets; 1,600 documents. Methods are matched by name, the messages and parameters of their signatures by the content of the types, addresses by the literals of their bodies. "+COMMON),
 "C17": ("constant propagation through the parser, the document model and the templates over SSA; then path-sensitive dataflow over the SSA of the folded message code: paths written and read are compared with the document's location", "Every place a correlation location can have (headers or payload, depth, required or optional at each step, references, inline, components) in both versions; every path of the constructor, setter, reader, response setter and of the generated sending operations. Version 2 traits and referenced identifiers are outside (the generator reads neither). "+COMMON),
 "C18": ("path-sensitive dataflow over the SSA of the code the templates generate, following every context value from WithValue to each hand-over", EXPN+"Every context handed to the broker, a middleware, an error handler or a user's handler on every path of every operation. "+COMMON),
 "C20": ("constant propagation through the parser, the document model and the templates over SSA; then path-sensitive dataflow over the SSA of the folded encoders and decoders, whose descriptions (field, wire key, format, width, byte order, presence) are compared with each other and with the document", "Twenty kinds of payload and thirteen of headers, required or not, inline and by reference, from the message or a trait, with forced pointers or ignored formats, in both versions, and every message of the other documents; every path, two rounds of the loop over headers. Equality of the values after a round trip through encoding/json and time is C91. "+COMMON),
 "C21": ("path-sensitive dataflow over the SSA of the folded decoders and unmarshalling methods: every dereference, index, slice, assertion, division, map write and fixed-size read is an obligation discharged by the facts of its path; error-flow analysis of the same paths", "The messages of C20's documents and of all other documents; every path, two rounds of each loop. Library functions are taken to return errors, not to panic, except fixed-size reads and Must... functions. "+COMMON),
 "C22": ("constant propagation of the generator over enumerated documents with additional properties; then path-sensitive interpretation of the SSA of the folded MarshalJSON and UnmarshalJSON, the text being decomposed into pieces whose grammar is checked", "Ten kinds of additional values, inline and by reference, beside none, one or three declared properties, in seven places of a document, with every key conversion; every path, two rounds of each loop. Out of scope: boolean additionalProperties (the parser refuses them) and encoding/json's case-insensitive matching of declared names. "+COMMON),
 "C19": ("path-sensitive interpretation (abstract interpretation over SSA terms) of the folded constructors, options and SubscribeToAllChannels, and of the runtime library's defaults", EXPN+"No broker with and without options; every sequence of up to three options, each with two values. Package-level errors are shown to be set once and for all by the initialisation of their package. "+COMMON),
 "C31": ("effect analysis over SSA of package-level state, with path-sensitive must-set analysis of a generation", "Every write of a package-level variable by the generator's functions, and all paths of a generation. "+COMMON),
 "C37": ("constant propagation through the parser, the document model and the generator over SSA, for documents that put a custom type in each place a schema can be (enumerated from the types of the model); the import block and the qualified names of the folded file are compared", "Every field of both models that holds schemas, alone and below properties, items, additional properties, alternatives and references; pairs of places with equal and different paths and names; absent entries. "+COMMON),
 "C38": ("path-sensitive dataflow over SSA: constructors and options are interpreted with symbolic values, then everything the controller does; arguments and receivers of the broker libraries' calls are compared with what was configured", "Every adapter; every sequence of up to two options with two values each (650 constructions), then every path of publication, subscription and the goroutines they start (205,000 comparisons). What the broker libraries do with their configuration, and broker-side settings, are outside. "+COMMON),
 "C39": ("constant propagation through the parser, the document model, the generators and their templates over SSA, for documents with special texts; differential comparison of the token sequences of the folded code, literals by value", "170 places that hold text in both versions, 23 kinds of special characters (all places together, each place alone when they differ and in the thorough tier). Out of scope: names of properties, headers and parameters with characters that JSON tags cannot have, locations of identifiers, NUL and byte order marks, letters outside ASCII in names (C90). "+COMMON),
 "C40": ("provenance analysis of error values over SSA of the library, the generator, the command and the code the templates generate: verbs of formats matched with arguments, chains of declared errors, and errors known to have happened by dominating tests", "All 16 declared errors and every call of fmt.Errorf, errors.New and errors.Join in the repository and in the expansions of the enumerated document shapes. A failure that is reported by another declared error returned as it is, or that is dropped, is not judged here (C29, C32). "+COMMON),
 "C16": ("path-sensitive typestate analysis, over SSA, of the code the templates generate for enumerated document shapes", EXPN+"Two consumed replies per request. "+COMMON),
}
NA = {
 "C90": "Injectivity and validity of string-rewriting functions over all names is a question about runtime string values that no sound static analysis in reach decides; the analysis only checks which naming function is applied where.",
 "C91": "Value equality after encoding and decoding needs the semantics of encoding/json, time formatting and reflection on runtime values; the structural half (same keys, formats, widths, order) is claimed as C20.",
 "C92": "Agreement of a hand-written wildcard matcher with the broker's matching on all pattern/subject strings is a string-semantics question outside static analysis; needs execution or a solver.",
 "C93": "Ordering and loss depend on queue occupancy, back-pressure and the broker library's scheduling at run time, which have no static bound here.",
}
DEFAULT_NA = "not yet claimed: the check is under construction"
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in P:
    i = p["id"]
    if i in CLAIMS:
        t, n = CLAIMS[i]
        man["checks"].append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
            "technique": t, "level": "other", "level_note": n, "evidence_file": f"evidence/{i}.json"})
    else:
        man["not_applicable"].append({"property": i, "reason": NA.get(i, DEFAULT_NA)})
man["notes"] = "Static analysis only: one Go program (checker/) loads, type-checks and builds SSA for /repo's current tree and decides each property; no code of /repo is executed."
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(man["checks"]), "claimed", len(man["not_applicable"]), "not")
