#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PC = "progenitor-client/src/progenitor_client.rs"
I = "progenitor-impl/src/"

def P(id, title, statement, over, qtext, why, files, mech, observe, built=True, tech="", note=""):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                files=files, mech=mech, observe=observe, built=built, tech=tech, note=note)

ENUM = "bounded exhaustive enumeration of inputs on the real code against a reference model"
SCHED = "stateless model checking: exhaustive enumeration of environment schedules and faults on the real code"
GEN = "explicit enumeration of bounded OpenAPI documents; generated code compiled and executed exhaustively against a scripted peer and a reference model"

props = [
P("C01", "A path parameter occupies exactly one URL path segment",
  "Whatever text a path parameter holds, the URL sent has the path structure of the template and the parameter's segment percent-decodes to exactly that text. No value can add or remove a path segment, start a query or a fragment, or change host, port or base path.",
  ["inputs"], "every string value (incl. separators, dots, escapes, control and non-ASCII characters, any length), every position in a path template",
  "Existing tests encode no hostile value; correctness is over all strings and their interaction with URL normalisation by the HTTP client.",
  [PC, I + "template.rs"], [("percent encoding of path text", PC + " encode_path"), ("URL assembly in generated methods", I + "template.rs compile")],
  ["URL of the built request", "request line received by a loopback server"],
  tech=ENUM, note="Every scalar value, all ASCII pairs, all strings to length 4-5 over a 21-character hostile alphabet, token sequences and lengths; real HTTP client URL handling, request line observed by a server."),
P("C02", "Query parameters carry exactly the given value",
  "A query parameter whose value is a scalar is sent as exactly one name=value pair that decodes to the same name and text; an absent or null value sends nothing; an array sends one pair per element, in order and with repetitions kept; an object sends one pair per present field under the field's own name. A value with no such spelling makes the request fail; it is never dropped, merged or altered silently, and several parameters on one request appear independently and in the order they were added.",
  ["inputs"], "every value of the serialization data model up to a depth, all scalar domains, all names, all sequences of parameters",
  "The ten tests cover a handful of shapes; nesting, option layers, enum encodings, special characters and combinations are unbounded.",
  [PC], [("query parameter serializer", PC + " QueryParam / QuerySerializer / QuerySeq")], ["query string of the built request"],
  tech=ENUM, note="All shapes of the serde data model to depth 2 (wrapper chains to 4), exhaustive small scalar domains, every parameter sequence up to 4; compared with an independent reference semantics."),
P("C03", "A typed response is the exact value of the complete body or an error",
  "Receiving a typed response yields the value denoted by all bytes of the body together with the response's status and headers, no matter how the body is cut into chunks, delayed or padded with empty chunks. If the body cannot be read to its end the result is a body error carrying the cause, and if the complete body is not a valid value the result is a payload error carrying exactly the body's bytes; a truncated body is never accepted.",
  ["inputs", "schedules", "fault_sequences"], "every body, chunking, stall pattern and failure point; every status and header list",
  "No test receives a response at all; chunk boundaries, stalls and mid-body failures are schedule- and fault-dependent.",
  [PC], [("typed response decoding", PC + " ResponseValue::from_response")], ["result of the decoding future", "loopback connections cut at each byte"],
  tech=SCHED, note="All chunkings with <=2 (thorough 4) deviations and a failure at each point; all strings to length 3-5 over a JSON alphabet for 13 types; all statuses; every truncation point of framed answers on a socket."),
P("C04", "A streamed response delivers the body's bytes unchanged and incrementally",
  "A streamed response hands over exactly the bytes of the body in order, then the transport error if one occurred, and nothing else; status and headers are those received. It reads nothing before it is polled, never waits for further data while received data is undelivered, and a cut-off body ends in an error rather than a clean end.",
  ["schedules", "fault_sequences", "inputs"], "every chunking, stall pattern, failure point and consumer pace; every truncation point on the wire",
  "No test consumes a stream; the property is about all arrival orders and failures.",
  [PC], [("byte stream response", PC + " ResponseValue::stream / ByteStream")], ["items of the stream", "bytes pulled from the transport at each poll"],
  tech=SCHED, note="All chunkings of bodies to 5-6 bytes with <=2-4 deviations; 4 access paths; laziness checked at every poll; truncation on a socket."),
P("C05", "A connection upgrade succeeds exactly on 101 and is then a faithful channel",
  "An upgrade is reported successful only for status 101 on a connection that really switched protocols, and afterwards every byte in both directions arrives unchanged and in order, including bytes the peer sent together with its 101 answer. Any other status is returned as an unexpected response with status, headers and body intact, and a 101 that cannot be upgraded is an upgrade error.",
  ["inputs", "histories"], "every status code; every history of reads and writes up to a depth",
  "No test performs an upgrade.",
  [PC], [("upgrade handling", PC + " ResponseValue::upgrade")], ["result of the upgrade", "both ends of a loopback connection"],
  tech=SCHED, note="All 900 statuses x body scripts; all transfer histories to depth 4-6 over loopback."),
P("C06", "A response value carries value, status and headers faithfully",
  "A response value exposes exactly the value, status and headers (all repeated values, in order) it was received or constructed with, through every accessor, after any mutation of the value and through any chain of mapping operations, where the mapping function runs exactly once. The content length is the header's value exactly when it is a decimal number that fits 64 bits, and absent otherwise.",
  ["inputs"], "every status, header list, header value and chain of accesses up to a bound",
  "No test inspects a response value.",
  [PC], [("response value accessors", PC + " ResponseValue")], ["public accessors"],
  tech=ENUM, note="All header lists to length 3-4, all statuses, all Content-Length values to length 4-5 over 17 bytes plus 64-bit boundaries."),
P("C07", "Errors keep their kind, status and payload",
  "The status of an error is the response's status whenever the error was produced from a response that is still attached or a transport error that names one, and absent otherwise. Converting an error to its untyped form keeps its kind, status, headers, message, cause, payload bytes and unread response, discarding only the typed body. A transport error converts to a communication error with that cause and an invalid header value to an invalid request.",
  ["inputs"], "every error kind x status x headers x cause",
  "Two tests look only at the rendering of one error.",
  [PC], [("error status and conversion", PC + " Error::status / into_untyped / From impls")], ["public API of the error"],
  tech=ENUM, note="Every kind, all statuses 100..=999 x 3 header sets, 7 origins of transport errors."),
P("C08", "Errors render completely and expose their cause chain",
  "Every error renders with a label naming its kind followed by its content: message, cause, status, headers and value, or payload. The alternate form appends each deeper cause exactly once, in order; the plain form does not; debug output equals display output; and the source of an error is its immediate transport or parse error when it has one.",
  ["inputs"], "every error kind, body type and cause chain",
  "The tests render two hand-picked errors.",
  [PC], [("error formatting", PC + " Display / Debug / source of Error, ErrorFormat")], ["formatted text", "source()"],
  tech=ENUM, note="Every kind, all statuses, chains of 0..5 causes, unit / typed / stream bodies."),
P("C09", "Form bodies encode exactly the given fields",
  "A form-encoded body decodes to exactly the fields of the value, names and texts intact and in order, absent fields omitted, under exactly one application/x-www-form-urlencoded content type, leaving the rest of the request alone. A value that is not a flat set of fields is an invalid-request error and no request results.",
  ["inputs"], "every value of the serialization data model up to a depth; all characters and lengths",
  "No test encodes a form body.",
  [PC], [("form body", PC + " RequestBuilderExt::form_urlencoded")], ["built request", "request received by a loopback server"],
  tech=ENUM, note="All serde shapes to depth 2 and pair lists; every character; every field count to 250."),
P("C10", "Operations do not interfere with each other",
  "Operations in flight at the same time, nested in one another, cancelled midway or performed in any order each produce the result they produce alone. Nothing read, sent or failed by one operation shows up in another.",
  ["schedules", "histories"], "every interleaving of the steps of 2-3 concurrent operations, every call sequence up to a depth, every cancellation point",
  "All tests are sequential and independent.",
  [PC], [("stateless client support", PC)], ["results of the operations under a controlled scheduler"],
  tech=SCHED, note="All poll interleavings of every set of 2-3 operations of 4 kinds; all call sequences to 3-4; cancellation at each poll. Preemption inside a synchronous call is not explored."),

P("G01", "A generated call sends exactly the described request",
  "Calling a generated operation sends exactly one request with the operation's method, the document's path with each path parameter in place, the given query, header and body values under their documented names and content type, and the API version header; omitted optional parameters leave no trace. A value that cannot be put in a header makes the call fail as an invalid request and nothing is sent.",
  ["programs", "inputs"], "every operation description up to a bound x every argument combination from a hostile alphabet",
  "The generator's tests compare text with golden files (and cannot be built here); they never send a request.",
  [I + "method.rs", I + "template.rs"], [("request construction", I + "method.rs method_sig_body"), ("parameter collection", I + "method.rs process_operation, get_body_param")],
  ["request received by a loopback server"], tech=GEN,
  note="8 methods x 9 body kinds, 20 parameter types x 5 placements x boundary and hostile values, 36 templates, all combinations of parameter sets with bodies and of response descriptions; the generated clients are compiled and every request is compared on the wire with an independent OpenAPI reference."),
P("G02", "The builder sends the same request as the direct call",
  "For every sequence of setter calls, the builder interface, with or without tag traits, sends the request the direct call sends for the last value set for each parameter, whatever the order. A required parameter never set, or a value whose conversion failed, makes the call fail as an invalid request naming the parameter (or the body's field), and nothing is sent. An operation is offered through one trait per distinct tag, each sending that request.",
  ["programs", "histories"], "every operation up to a bound x every sequence of setter calls up to a depth",
  "Golden-file tests do not run builders.",
  [I + "method.rs"], [("builder struct", I + "method.rs builder_struct"), ("tag traits", I + "method.rs builder_tags")],
  ["request received by a loopback server, or its absence"], tech=GEN,
  note="The documents of G01 in both builder styles: every sequence of setter calls to a depth (order, repetition, omission, failing conversion, body_map), every trait through which an operation is offered."),
P("G03", "Responses are classified as the document describes",
  "A success status the document describes (exactly, by range, or by default) yields a success value of its kind; an error status it describes yields an error response of its kind; exact codes take precedence over ranges and ranges over default; any other status yields an unexpected response with the response intact. An operation that describes no success yields the raw body of any 2xx. A failure to communicate, to read the body or to decode it is reported as that kind of error, whatever the status.",
  ["programs", "inputs", "fault_sequences"], "every set of described responses up to a bound x every status 100..=999 x body and fault alphabet",
  "No test executes a generated match on a status.",
  [I + "method.rs"], [("response classification", I + "method.rs extract_responses, method_sig_body")],
  ["result of the call against a scripted server"], tech=GEN,
  note="Hundreds of sets of described responses x every status 100..=999 x body and fault alphabet (valid, invalid, cut, dropped), in the three styles."),
P("G04", "Pagination streams yield every item of every page once, in order",
  "The stream of a paginated operation yields the items of the first page and then of each page named by the previous page's token, in order and without loss or repetition, ends after the page without a token, and ends with the error if a page fails. The first request carries the caller's parameters and no page token unless the caller of a builder supplied one; each later request carries the previous page's token, the caller's limit and the path, header and body parameters and no other query parameter; no page is requested before the preceding items are consumed.",
  ["programs", "histories", "fault_sequences"], "every server history (pages x sizes x failures) and every consumer stopping point up to a bound, both interface styles",
  "Golden-file tests never run the stream.",
  [I + "method.rs"], [("positional stream", I + "method.rs positional_method"), ("builder stream", I + "method.rs builder_struct")],
  ["items, and requests received by a scripted server"], tech=GEN,
  note="14 paginated operations in three styles x all server histories (to 3 or 4 pages, 8 endings) x every consumer stopping point; items, requests and the number of pages requested at each item are compared with a reference."),
P("G05", "Exactly the eligible operations are offered as streams",
  "An operation marked as paginated is offered as a stream exactly when it takes optional page-token (plain text) and limit query parameters, requires no query parameter, has no raw body, and has a single typed success response (described by a 2xx code or the 2XX range) consisting of just an items array and an optional next-page string; all other operations are offered only as plain calls.",
  ["programs"], "every combination of the eligibility conditions",
  "Golden files contain a few eligible operations and no near misses.",
  [I + "method.rs"], [("pagination detection", I + "method.rs dropshot_pagination_data")],
  ["methods present in the generated code"], tech=GEN,
  note="All combinations of the eligibility conditions (one operation each), three interface styles; oracle: an independent eligibility predicate on the document."),
P("G06", "Hooks run once, in order, around the request they see",
  "Configured hooks run once per request in a fixed order: synchronous before asynchronous, pre-hooks after the request is complete and before it is sent, post-hooks on the outcome before it is interpreted, each receiving the client's inner value when one is configured. Changes an asynchronous pre-hook makes to the request are what is sent, and a failing asynchronous hook aborts the call with a hook error, before sending in the case of a pre-hook.",
  ["configurations", "fault_sequences"], "every subset of hooks x inner type x interface x failing hook x transport outcome",
  "Golden files cover one hook configuration textually.",
  [I + "method.rs", I + "lib.rs"], [("hook emission", I + "method.rs method_sig_body")],
  ["order of hook calls and requests"], tech=GEN,
  note="32 hook configurations (every subset, with and without inner value, paths and closures) x 6 kinds of operation in the three styles x 8 request edits x every set of failing hooks x every answer or transport failure, streams included; events, requests seen, left and sent are compared with a reference order."),
P("G07", "Any documented name becomes usable code without changing the wire",
  "Whatever name a parameter, an operation or a tag has in the document (keywords, punctuation, leading digits, non-Latin letters, or the names the generated code itself uses internally), the generated client compiles, offers the operation, and sends that parameter under its original name. Distinct identifiers never capture each other, even when distinct parameter names make for the same identifier.",
  ["programs"], "every name from a hostile alphabet x parameter location x interface style",
  "The keyword test checks one document's text.",
  [I + "util.rs", I + "method.rs"], [("identifier sanitising", I + "util.rs sanitize"), ("unique internal names", I + "util.rs unique_ident_from")],
  ["compilation of the generated code", "request received by a loopback server"], tech=GEN,
  note="About 200 names (every keyword, every name generated code uses, punctuation, digits, other scripts) as path, query and header parameter, together, with every body kind, paginated and websocket; 600 ordered pairs of names close to each other; the names as tags and operations; compiled and observed on the wire in the three styles."),
P("G08", "Path templates are accepted, normalised and filled in faithfully",
  "A path is accepted exactly when it starts with a slash, its braces are balanced and not nested, and no parameter name contains a slash; runs of slashes are collapsed and everything else is kept literally. Parameters are the texts in braces, in order, and filling them in reproduces the literal text around them.",
  ["inputs"], "every template up to a length over the syntax alphabet",
  "The unit tests list seven templates.",
  [I + "template.rs"], [("template parser", I + "template.rs parse"), ("template rendering", I + "template.rs compile, as_wildcard")],
  ["documented path and URL format in generated code, generation errors"], tech=ENUM,
  note="Acceptance of all templates over the syntax alphabet to length 9 (thorough 11) plus hostile characters; hundreds to thousands of accepted templates compiled and filled in, observed on the wire."),
P("G09", "Documents outside the supported language are refused",
  "A document whose version is not 3.0.x, that repeats or omits an operation ID, or that uses a path reference, a cookie parameter, an unsupported parameter style, a parameter described by content, an optional path parameter, a path that does not name exactly the path parameters, a reference that does not lead to a component of the kind wanted within the document, or unsupported content (an unknown media type, several for one body, no schema, encodings of JSON or form bodies, a binary or text body that is not a plain string of that kind), or whose successes or errors are answered with several kinds of content, is refused with an error, never by a crash; a document within the supported language is accepted. Acceptance depends only on the document's meaning.",
  ["inputs"], "every combination of supported and unsupported features up to a bound",
  "The unit test checks five version strings.",
  [I + "lib.rs", I + "method.rs"], [("document validation", I + "lib.rs validate_openapi"), ("feature checks", I + "method.rs process_operation, get_body_param"), ("references", I + "util.rs item")],
  ["result of generation"], tech=ENUM,
  note="All documents over features on and off the supported language, pairwise and in every spot; oracle: an independent acceptance predicate."),
P("G10", "References and inherited parameters mean what they refer to",
  "Replacing a parameter, request body or response by a reference (or chain of references) to an equal component yields the same client. A parameter declared on the path applies to every operation of that path unless the operation declares one of that name and location, which then replaces it.",
  ["programs"], "every placement of references over small documents; every split of parameters between path and operation",
  "Golden files contain few references and overrides.",
  [I + "util.rs", I + "method.rs"], [("reference resolution", I + "util.rs item"), ("parameter merge", I + "util.rs parameter_map; method.rs process_operation")],
  ["generated code"], tech=ENUM,
  note="Every placement of reference chains over small documents, every split and override of parameters; compared with the generator's output for the inlined document."),
P("G11", "Generation is deterministic and independent of declaration order",
  "Generating twice from the same document and settings yields identical code, and so does permuting the declared parameters of an operation. Arguments come in a fixed order: path parameters in path order, then query parameters by name, then header parameters by name, then the body.",
  ["programs", "configurations"], "every permutation of parameter declarations of small operations; repeated generation",
  "Golden files fix one order per document.",
  [I + "method.rs", I + "util.rs"], [("argument order", I + "method.rs sort_params")],
  ["generated code"], tech=ENUM,
  note="All permutations of parameter sets, repeated generation (also concurrently); order of arguments against an independent rule."),
P("G12", "Schemas keep their meaning when converted",
  "The type schema handed to type generation accepts exactly the JSON values the OpenAPI schema accepts: types, formats, enumerations, bounds, lengths, patterns, required and additional properties, nullability and the one-of, any-of, all-of and not combinators are all preserved, as are references, titles, descriptions, defaults and extensions. A nullable schema without a type admits null and the types its keywords apply to.",
  ["inputs"], "every schema up to a nesting bound x every instance from a boundary alphabet",
  "Golden files contain typical schemas only.",
  [I + "to_schema.rs"], [("schema conversion", I + "to_schema.rs convert")],
  ["schemas received by type generation"], tech=ENUM,
  note="All schemas to depth 3 over a keyword alphabet x instances; two independent validators (OpenAPI, JSON Schema)."),
P("G13", "The command line issues the same call as the library",
  "Running a generated subcommand sends the request the builder sends for the same values, every parameter having an argument of its own whatever the names, required arguments being demanded unless given in a body file, invalid values refused before anything is sent, and results and errors reported through the configuration's callbacks.",
  ["programs", "inputs"], "every operation up to a bound x every combination of given, omitted and invalid arguments",
  "Golden files do not execute the command line.",
  [I + "cli.rs"], [("command line generation", I + "cli.rs")],
  ["requests received by a loopback server, exit status"], tech=GEN,
  note="Generated command lines compiled and run against a loopback server: every combination of arguments, texts, body files and answers, and every list of pages up to a bound."),
P("G14", "Mock expectations match exactly the client's own requests",
  "For each operation the generated mock, given the same parameter values, matches the request the generated client sends and no request with a different method, path value, query value, header value or body; the mocked answer is classified by the client as the document describes.",
  ["programs", "inputs"], "every operation up to a bound x every pair of argument combinations",
  "Golden files do not execute mocks.",
  [I + "httpmock.rs"], [("mock generation", I + "httpmock.rs")],
  ["matcher decisions against requests the generated client sends"], tech=GEN,
  note="Generated mocks compiled and built against a stand-in of httpmock 0.7, for every subset of parameters and every answer, and compared with requests the generated client really sent."),
P("G15", "Websocket operations perform the upgrade handshake",
  "A websocket operation sends the upgrade, connection, version 13 and fresh 16-byte key headers along with its documented parameters, yields the upgraded connection on 101 and on nothing else, returns a described error status as the described error, and any other response unread as an unexpected one.",
  ["programs", "inputs"], "every websocket operation up to a bound x every status",
  "Golden files do not execute the handshake.",
  [I + "method.rs"], [("handshake headers", I + "method.rs method_sig_body")],
  ["request received by a loopback server, result of the call"], tech=GEN,
  note="Generated clients compiled and run: every argument combination upgraded and used both ways, every status answered, keys never repeated."),
P("G16", "The macro and the library generate the same client",
  "For every combination of options, the client macro generates the code the library generates from the equivalent settings, and that code compiles wherever the macro is used. It depends on the document named, JSON or YAML. Missing, malformed or repeated options and documents that cannot be read are refused with a message.",
  ["configurations"], "every combination of macro options up to a bound",
  "Two example crates use the macro; none runs here.",
  ["progenitor-macro/src/lib.rs"], [("option translation", "progenitor-macro/src/lib.rs do_generate_api")],
  ["generated code"], tech=ENUM,
  note="The macro's own source run in-process on 65 settings of 14 options alone and in combination; 190 malformed inputs; the real macro compiled in 80 crates."),
P("G17", "The generated crate declares what its code uses and formatting keeps the code",
  "A generated stand-alone crate declares every dependency its code refers to under every combination of document features, and its source is the generated client. Spacing out items only ever inserts line breaks after closing braces.",
  ["configurations", "inputs"], "every combination of document features and command options; every text up to a length over the formatter's alphabet",
  "One golden manifest per fixed document.",
  ["cargo-progenitor/src/main.rs", I + "lib.rs"], [("manifest", "cargo-progenitor/src/main.rs dependencies"), ("formatting", I + "lib.rs space_out_items")],
  ["files written", "formatted text"], tech=ENUM,
  note="The real command, in both build flavours, with stand-ins for the crates missing here; crates for combinations of nine document features compiled apart, options to pairs (thorough: four at a time), descriptions over 18 fragments, all texts to length 7-8 for spacing."),
P("G18", "Generation settings are applied exactly as given",
  "Every setting given to the generator takes effect exactly as given and regardless of the order of the calls: derives, patches, replacements, conversions, crates, the policy for unknown crates and the map type reach type generation unaltered, and interface, tags, inner type and hooks select the code. A later call for the same thing replaces the earlier one, derives and conversions are all kept in order, and settings not given have no effect. A generator is independent of later changes to the settings it was made from.",
  ["configurations", "histories"], "every sequence of settings calls up to a bound",
  "The tests use a handful of fixed combinations and never look at what reaches type generation.",
  [I + "lib.rs"], [("settings", I + "lib.rs GenerationSettings / Generator::new")],
  ["settings received by type generation", "generated code"], tech=ENUM,
  note="Every sequence of up to 3 (thorough 4) of 32 calls; oracle: a model of what type generation is told, and the code of the calls that count in another order."),
P("G19", "Documentation is carried over and never affects the code",
  "What the document says in words appears unaltered in the generated documentation of what it describes: title, description, terms of service and version at the client; summary, description, method, path and each described argument at the operation's functions; a tag's description at its trait; and on the command line summaries, descriptions and descriptions of parameters and properties as help. Words have no other effect: whatever they are, the rest of the generated code is that of the document without them. The same goes for remarks that do not change the interface: deprecation, examples, extensions nothing is known of, contact and licence, links, servers, security, callbacks, and components nothing refers to.",
  ["inputs", "configurations"], "every text up to a bound in every place that takes words; every set of places with words",
  "Golden files hold typical prose only.",
  [I + "lib.rs", I + "method.rs", I + "cli.rs"], [("doc comments", I + "method.rs make_doc_comment"), ("help texts", I + "cli.rs cli_method / clap_arg")],
  ["documentation in the generated code"], tech=ENUM,
  note="37 texts in each of 17 places, everywhere at once and in pairs, and 2^11 (thorough 2^16) sets of described places, in the three styles and the command line; 41 kinds of remarks, each, in pairs, all and all but one."),
P("G20", "A client is what it was made from",
  "Every request of a client goes to the base URL it was made with, scheme, host, port and path stem kept, through the HTTP client it was given with all of its configuration, and states the document's version, whatever that text is. The client reports exactly the base URL, HTTP client, inner value and version it was made with. Clones, calls made now and sent later, and streams behave as those of the client they came from, in whatever order or at the same time they are used, and using them alters no client. Clients can be shared by threads, and calls, builders and streams handed from one to another. A client made without an HTTP client behaves the same.",
  ["inputs", "histories"], "every base URL, HTTP client and version of a bounded family; all histories of actions on two clients up to a depth",
  "The tests never make a client.",
  [I + "lib.rs", I + "method.rs"], [("struct Client", I + "lib.rs generate_tokens"), ("url and headers", I + "method.rs method_sig_body")],
  ["requests received by a peer", "what the client reports"], tech=GEN,
  note="Generated clients are compiled and run: 14 base URLs x 2 HTTP clients x clones x 3 operations x 3 answers x 11 versions with and without an inner value; all sequences of 5 (thorough 6) of 8 actions on two clients; two and three calls in flight, each answered, refused or given up, in every order of starts and ends. That threads can share and hand over is decided by the compiler for each kind of operation.", ),
]

with open(f"{V}/properties.jsonl", "w") as f:
    for p in props:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["title"]

m = {"version": 1, "setup_cmd": "/verif/run setup", "checks": [], "not_applicable": []}
for p in props:
    if p["built"]:
        m["checks"].append({
            "property": p["id"],
            "quick_cmd": f"/verif/run {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough /verif/run {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["tech"], "level": "model_checking", "level_note": p["note"],
        })
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "no check is registered for this property yet (in construction; see DESIGN.md)"})
m["notes"] = "No hooks: every check drives the public API of the crates in /repo or the code they generate."
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{V}/MANIFEST.json", "a").write("\n")
