#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, q, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw)))
C = "src/core/"

p("C01", "Template text is parsed without losing or inventing anything",
  "For every template text, splitting it into literal and {{expression}} segments keeps the literal text verbatim and in order (a {{ that starts no well-formed expression is literal text), and an expression's dotted parts are exactly the trimmed, dot-separated names written between the braces. A template is constant exactly when it has no expression, parsing never fails or crashes, and parsing the printed form of a parsed template gives the same template back.",
  ["inputs"], "all template strings (symbolic bytes, bounded length, including braces, dots, blanks, quotes and non-ASCII)",
  "tests sample a dozen templates; the brace/blank/dot corner cases are combinatorial",
  [C+"mustache/parse.rs", C+"mustache/model.rs"], [("nom parser", C+"mustache/parse.rs"), ("Display", C+"mustache/model.rs")])
p("C02", "Rendering a template substitutes exactly the referenced values",
  "Rendering a template against a context yields its literal texts with every expression replaced by the text of the value at its path, and by nothing when there is none or it is null; in a GraphQL operation a value is written as GraphQL writes it. In a body a text that is one expression over arguments or the parent's value becomes that very value with its type, one over a text (header, variable) what the text reads as, and any other template a text; everything else stays as written, and a select template names parts of the response only. A template without expressions does not depend on the context.",
  ["inputs"], "templates of up to three segments and nested bodies over contexts with arbitrary values at, beside and within the paths named",
  "tests render fixed templates on fixed contexts",
  [C+"mustache/eval.rs", C+"path.rs", C+"serde_value_ext.rs", C+"blueprint/dynamic_value.rs"], [("PathStringEval", C+"mustache/eval.rs"), ("PathString", C+"path.rs"), ("DynamicValue", C+"blueprint/dynamic_value.rs")])
p("C03", "A batching loader answers every caller with its own key's value",
  "However calls interleave with batch dispatch and completion, every key a caller asks a data loader for gets exactly the value the backend returned for that key, a missing key gets none, a failed batch fails every caller waiting on it, and no caller is left unanswered. No batch sent to the backend exceeds the configured maximum size except by the keys of one call, and a key waiting in one batch is not sent twice in it.",
  ["schedules", "inputs", "fault_sequences"], "all interleavings of up to a few callers, batch timer and backend completion; keys and backend outcome symbolic",
  "tests run a couple of real-time schedules",
  [C+"data_loader/data_loader.rs"], [("pending/keys bookkeeping", C+"data_loader/data_loader.rs")])
p("C04", "Identical concurrent requests run once and everybody gets the answer",
  "While a computation for a key is in flight, every further request for that key waits for that computation instead of starting its own, and each of them gets its result, whatever the order in which requesters arrive, are polled and are dropped. Once nobody is waiting, an unfinished computation is forgotten and the next request starts afresh; a finished one is reused only when results are to be persisted.",
  ["schedules", "histories"], "all interleavings of a bounded number of arrivals, polls, completions and cancellations over symbolic keys",
  "tests drive a few hand-picked orders on a real executor",
  [C+"data_loader/dedupe.rs"], [("DedupeResult", C+"data_loader/dedupe.rs")])
p("C05", "A cache returns the last unexpired value stored under that very key",
  "After any sequence of stores and lookups, a lookup returns the value most recently stored under exactly that key for as long as its time to live runs and the cache is not over capacity; it never returns another key's value, an overwritten one, or one whose time to live has run out. Beyond capacity the most recently stored entries are kept. The reported hit rate is hits over lookups, always between 0 and 1.",
  ["histories"], "all operation histories up to a bounded length with symbolic keys, values and times to live",
  "tests run one or two fixed histories",
  [C+"cache/cache.rs", C+"data_loader/cache/mod.rs"], [("InMemoryCache", C+"cache/cache.rs")])
p("C06", "Upstream requests are merged only when they really are the same",
  "Two upstream requests are treated as the same loader key exactly when their URL, their body and all values of every header named as batching-relevant agree; requests treated as equal always have equal hashes, and equality is reflexive, symmetric and transitive.",
  ["inputs"], "all pairs of requests with symbolic URL, body and header bytes",
  "a hash-based key can only be told apart from the request by inputs that collide, which samples do not hit",
  [C+"http/data_loader_request.rs"], [("PartialEq/Hash", C+"http/data_loader_request.rs")])
p("C07", "Batching several upstream requests into one loses nothing",
  "Combining requests into one keeps every one of them represented, in order: the batched body is the JSON list of the body of the base request and the non-empty bodies of the others, and the batched URL carries the parameters of the base request followed by, of each other request, the values of the batch key (all its parameters when there is no batch key). Nothing else of the base request changes: method, path, headers.",
  ["inputs"], "all small sets of requests with symbolic query values and bodies",
  "tests check two or three fixed URLs",
  [C+"http/transformations/body_batching.rs", C+"http/transformations/query_batching.rs"],
  [("BodyBatching", C+"http/transformations/body_batching.rs"), ("QueryBatching", C+"http/transformations/query_batching.rs")])
p("C08", "Grouping a batched response assigns each item to its own key",
  "Grouping a response by a key path puts every item that has a string or number under the key into the group of exactly that value, in original order, drops only items that have none, and finds keys and items through lists nested along the path. The result does not depend on which of the supported JSON representations holds the response.",
  ["inputs"], "all JSON documents of bounded depth and width with symbolic shape, keys and scalars",
  "tests sample a few documents",
  [C+"json/json_like.rs", C+"json/serde.rs", C+"json/graphql.rs", C+"json/borrow.rs"],
  [("gather_path_matches/group_by_key", C+"json/json_like.rs")])
p("C10", "All JSON representations agree on what a document contains",
  "The JSON representations used by the runtime (serde, GraphQL constant and variable values, borrowed) agree, for any document with distinct member names, on kind tests, scalar values, list and object access, path lookup and grouping. Converting between them and to serde values and back preserves the document.",
  ["inputs"], "all JSON documents of bounded size with symbolic shape and content, all short paths",
  "tests check single accessors on constants",
  [C+"json/serde.rs", C+"json/graphql.rs", C+"json/borrow.rs", C+"json/json_like.rs"],
  [("JsonLike", C+"json/json_like.rs")])
p("C11", "Custom scalars accept exactly their documented value range",
  "A value is accepted for a built-in scalar exactly when it lies in the documented range or format: integers of 8 to 32 bits as numbers in range, 64- and 128-bit ones as decimal text (optionally signed) in range, Bytes as any string, e-mail addresses, RFC 3339 dates and URLs as text their standard parsers accept, JSON and Empty as anything. Every other value is rejected and no value crashes validation; a scalar is found by exactly its own name.",
  ["inputs"], "all integers (64-bit symbolic), all short strings per scalar, every other JSON kind",
  "ranges have sharp edges and the string forms are unbounded; tests use a few constants",
  [C+"scalar.rs"], [("Scalar::validate", C+"scalar.rs")])
p("C12", "A polymorphic value is resolved to one of the possible types or rejected",
  "An object of an interface or union type gets as __typename the possible type its discriminating field names, or, for a keyed union, its inner value gets the possible type its only key names; nothing else of it changes, and an object that already carries a __typename string is left alone. Every item of a list is resolved on its own and one failing item fails the list, null stays null, and anything else is an error rather than a guess; an empty field name is refused as a discriminator.",
  ["inputs"], "all values of bounded shape with symbolic keys and type names, for symbolic type sets",
  "tests sample a few values",
  [C+"ir/discriminator.rs", C+"ir/discriminator/keyed_discriminator.rs", C+"ir/discriminator/type_field_discriminator.rs"],
  [("Discriminator", C+"ir/discriminator.rs")])
p("C13", "Configurations merge with the later one winning",
  "Merging two configurations never loses a setting only one of them has; where both set the same option the later one wins, nested settings merge field by field, lists are appended in order, sets and maps are united, and of two variables with one name or two definitions of one field of a type the later is kept. Merging with an empty configuration changes nothing.",
  ["configurations"], "all pairs of settings with symbolically present and valued options",
  "the number of present/absent combinations is exponential in the number of options",
  [C+"merge_right.rs", C+"config/directives/server.rs", C+"config/directives/upstream.rs", C+"config/key_values.rs", "tailcall-macros/src/merge_right.rs"],
  [("MergeRight", C+"merge_right.rs")])
p("C14", "Federated subgraph types combine only as far as they are compatible",
  "Federating the configurations of two subgraphs widens output types (the fields of both, the variants of both, non-null only where both are) and narrows input types and arguments (only the common ones, non-null where either is); a required argument or input field the other side lacks, two types that cannot be the same, or a type used as both input and output incompatibly is an error. Nothing is silently dropped otherwise, and the outcome of a field or argument does not depend on the others.",
  ["configurations"], "all pairs of small type, argument, field and enum definitions with symbolic wrapping and presence",
  "tests snapshot a few pairs; the combinations of wrapping, presence and use are exponential",
  [C+"config/config_module/merge.rs", C+"variance.rs"], [("Contravariant/Covariant/Invariant", C+"variance.rs"), ("merge", C+"config/config_module/merge.rs")])
p("C15", "Type wrappers round-trip and their predicates agree",
  "Converting a list/non-null wrapped type to GraphQL syntax and back gives the same type, wrapping and unwrapping are inverse, and the nullability, list and naming predicates say what the syntax says at every nesting depth.",
  ["inputs"], "all wrapper nestings up to a bounded depth with symbolic names",
  "tests check a few types",
  [C+"wrapping_type.rs"], [("Type", C+"wrapping_type.rs")])
p("C16", "Pipelines apply their steps in order and keep every error",
  "A chain of folding steps applies its steps in order: a failing step leaves the accumulated value as it was, later steps still run, and all errors are reported in order. A chain of transformers passes each result on to the next and stops at the first failing one, whose errors it reports; conditional steps run exactly when their condition holds, and a default one changes nothing.",
  ["inputs", "programs"], "all pipelines of a bounded number of steps with symbolic success and failure",
  "tests run fixed pipelines",
  [C+"try_fold.rs", C+"transform.rs"], [("TryFold", C+"try_fold.rs"), ("Transform", C+"transform.rs")])
p("C17", "Error reports show every cause and never crash",
  "The printed report of an error shows its message, its description and its place, and for a validation failure every cause with its message, its description and its trace, in order, each on lines of its own. Converting validation causes into a report loses none of them, and printing never crashes, whatever the texts contain.",
  ["inputs"], "all reports of bounded nesting with symbolic short texts, traces and line breaks",
  "tests print a few fixed reports",
  [C+"errata.rs"], [("Errata", C+"errata.rs")])
p("C18", "A REST endpoint answers exactly the requests its pattern describes",
  "A request matches a REST endpoint exactly when its method agrees, its path has the same number of non-empty segments, every literal segment is equal and every parameter segment and query parameter present reads as the type declared for its variable. The extracted variables are exactly those values under their variable's names. A request below /api is answered by the first endpoint it matches after that prefix is dropped once, with the data of its operation, anything else is not found, and configured routes stay reachable.",
  ["inputs"], "all short request paths and query strings with symbolic bytes, for symbolic patterns",
  "tests sample a handful of paths",
  [C+"rest/path.rs", C+"rest/typed_variables.rs", C+"rest/query_params.rs", C+"rest/endpoint.rs", C+"http/request_handler.rs"],
  [("Path::matches", C+"rest/path.rs")])
p("C19", "An upstream request carries exactly what its template and context say",
  "A request sent upstream has the template's method, the rendered URL with exactly the configured query parameters and their values (whatever characters they contain), the rendered headers and the client's headers that are allowed (and no others), and the rendered body in its encoding, where a value never leaves the text it is put in; likewise the operation sent to a GraphQL upstream and the message sent to a gRPC one. Requests that differ in any of these have different cache keys, those that do not the same one, and a URL that cannot be parsed is an error. Header names of a configuration are accepted exactly when they can be one.",
  ["inputs", "configurations"], "templates of every part with symbolic context values of special characters and every kind; pairs of requests that differ in up to three places",
  "tests render fixed contexts with plain values",
  [C+"http/request_template.rs", C+"http/query_encoder.rs", C+"graphql/request_template.rs", C+"grpc/request_template.rs", C+"helpers/headers.rs", C+"http/request_handler.rs"], [("to_request", C+"http/request_template.rs"), ("create_allowed_headers", C+"http/request_handler.rs"), ("to_mustache_headers", C+"helpers/headers.rs")])
p("C20", "What a GraphQL upstream resolves is served as the upstream itself would",
  "A query over fields that a GraphQL upstream resolves is answered with the data which that upstream gives for the same selection: nested objects and lists, aliases, fragments, types of an interface, renamed and added fields and several root fields. Arguments arrive with the values the client wrote or sent as variables or defaults, whatever characters they contain, and fields that other resolvers provide are not asked for but filled in beside. This holds for queries and mutations, with and without batching of requests and several resolvers of one field.",
  ["requests", "answers"], "all queries assembled from selections, fragments, arguments and variables of a small schema, against an upstream that evaluates the query it is sent",
  "tests compare the text of the sent query for a few queries and answer with fixed data",
  [C+"jit/transform/graphql.rs", C+"jit/transform/input_resolver.rs", C+"graphql/request_template.rs", C+"graphql/data_loader.rs", C+"blueprint/operators/graphql.rs", C+"ir/eval_io.rs"],
  [("compute_selection_set", C+"jit/transform/graphql.rs"), ("RequestTemplate::render_graphql_query", C+"graphql/request_template.rs"), ("GraphqlDataLoader", C+"graphql/data_loader.rs")])
p("C21", "Cache headers promise no more than any upstream answer does",
  "When cache headers are enabled, the lifetime and visibility announced for a response are the least of those of the upstream answers used for it, in whatever order they arrive: private if any is private, no-cache if any is no-cache or no-store or has a policy that cannot be parsed, and otherwise the shortest lifetime, for any size of lifetimes. Every directive of an upstream's Cache-Control counts, on one line or several and in any letter case; a response with errors announces nothing, and a batch what holds for all of its responses.",
  ["inputs", "schedules"], "all sequences of a bounded number of upstream cache policies with symbolic directives and lifetimes, and whole requests whose upstreams answer with them",
  "tests check single policies; combinations of directives and of answers are exponential",
  [C+"http/cache.rs", C+"http/request_context.rs", C+"async_graphql_hyper.rs", C+"ir/eval_http.rs", C+"jit/response.rs"], [("cache_policy", C+"http/cache.rs"), ("set_cache_control", C+"http/request_context.rs")])
p("C22", "Cross-origin headers grant exactly what is configured",
  "A response's cross-origin headers allow an origin only when the configuration lists that very origin or any (tailcall.run's own playground aside), and methods, request headers, exposed headers, credentials, private-network access, max-age and vary are those configured. A configuration that combines credentials with a wildcard of origins, methods or headers is rejected, as is a value that cannot be a header. A preflight request is answered with exactly the headers configured for it and is not executed; without configuration nothing is granted.",
  ["inputs", "configurations"], "all small configurations with symbolic texts and flags against symbolic origins",
  "tests cover a single configuration",
  [C+"blueprint/cors.rs", C+"config/cors.rs", C+"http/request_handler.rs"], [("Cors", C+"blueprint/cors.rs"), ("handle_request_with_cors", C+"http/request_handler.rs")])
p("C24", "A script sees each upstream request and decides what becomes of it",
  "With an onRequest function, its own or else the global one, every HTTP request of a field is handed to the script as it would be sent (method, URL with its query, headers and body); a request that comes back is sent instead, exactly as it was when the script has left it alone, a response that comes back is served without asking the upstream, and a redirect (301 or 302 with a location) repeats the request on the path it names. An onResponseBody function gets the body of the final response once and replaces it, and a @js function gets the value of the parent object and resolves the field with what it returns. A function that is not there, or that returns what cannot be used, is an error and sends nothing.",
  ["requests", "script results"], "all requests of four kinds with symbolic texts in query, path, header and body, and all commands of a script assembled from its choices",
  "tests run a handful of scripts that return the request or a fixed response",
  [C+"worker/worker.rs", C+"worker_hooks.rs", C+"ir/eval_http.rs", C+"ir/eval_io.rs", "src/cli/javascript/codec.rs", "src/cli/javascript/runtime.rs", C+"blueprint/operators/js.rs", C+"blueprint/operators/http.rs"],
  [("EvalHttp::execute_with_worker", C+"ir/eval_http.rs"), ("WorkerHooks", C+"worker_hooks.rs"), ("WorkerRequest::from_js", "src/cli/javascript/codec.rs"), ("call", "src/cli/javascript/runtime.rs"), ("Uri", C+"worker/worker.rs")])
p("C25", "A protected field is served only to those its providers accept",
  "Providers combine as boolean logic over their verdicts (and, or, fold): a request is let through exactly when the combination is true, and of several failures the first one of an `and` and the most telling one of an `or` (wrong over unreadable over missing) is reported. A token's issuer and audience must be among those configured, a password must be the user's own, and a missing header is reported as missing. A response contains a protected field's value exactly when the caller has all the providers the field or its type names (or all there are, when none is named), and this does not depend on what was served to others before.",
  ["inputs", "configurations", "histories"], "all provider trees of bounded depth with symbolic verdicts and credentials; symbolic issuers and audiences; sequences of requests by different users",
  "tests cover a few trees with fixed credentials",
  [C+"auth/verification.rs", C+"auth/verify.rs", C+"auth/jwt/jwt_verify.rs", C+"auth/basic.rs", C+"jit/transform/check_protected.rs", C+"blueprint/operators/protected.rs"], [("Verification", C+"auth/verification.rs"), ("update_protected", C+"blueprint/operators/protected.rs")])
p("C26", "A response contains exactly the requested fields, null only where allowed",
  "The response to a query has every selected field exactly once, under its response name and with the value its upstream gave for it, and nothing else: selections of one response name are merged, fragments count where their type condition holds, and @skip and @include of fields and fragments are honoured; lists keep length and order. A missing, null or invalid value is null where the type at that level of the list allows it and otherwise an error with its path and no data. Variables not given take their default, and a document with a fragment that spreads itself is refused.",
  ["inputs"], "all selections assembled from a bounded set of fields, aliases, fragments and conditions, against upstream answers whose values are missing, null or of another kind at any level",
  "tests use fixed queries and data; combinations of aliases, fragments, conditions and nulls are exponential",
  [C+"jit/builder.rs", C+"jit/synth/synth.rs", C+"jit/exec.rs", C+"jit/model.rs", C+"jit/exec_const.rs"], [("Builder", C+"jit/builder.rs"), ("Synth", C+"jit/synth/synth.rs")])
p("C27", "A request's answer does not depend on the requests before it",
  "For fixed upstream data, a request is answered alike by a server that has answered other requests before and by a fresh one: neither another operation of the same document, nor other variables, headers or query texts seen earlier (kept plans, constant responses, deduplicated calls) show in its answer.",
  ["histories"], "all pairs and triples of requests from a set of documents with their operation names, variables and headers",
  "tests send single requests to fresh servers; what a cache keeps shows only in sequences",
  [C+"jit/graphql_executor.rs", C+"app_context.rs", C+"async_graphql_hyper.rs"], [("JITExecutor", C+"jit/graphql_executor.rs")])
p("C28", "A configuration written down and read back means the same",
  "Every option of every directive is read, under its documented name, as it is written in SDL. A configuration with a query root printed as SDL, JSON or YAML and read back is the same configuration: types, fields, arguments, default values, descriptions (up to white space), enums, unions, interfaces, resolvers, caching, protection and all server, upstream and link settings.",
  ["inputs", "configurations"], "all configurations assembled from a bounded set of options per directive with symbolic presence, numbers, flags and texts",
  "tests snapshot a few dozen configurations; an option lost only together with, or in the absence of, another shows in none",
  [C+"document.rs", C+"config/into_document.rs", C+"config/from_document.rs", C+"directive.rs", C+"config/directives/upstream.rs", C+"config/cors.rs"],
  [("From<&Config> for ServiceDocument", C+"config/into_document.rs"), ("from_doc", C+"config/from_document.rs"), ("print", C+"document.rs"), ("DirectiveCodec", C+"directive.rs")])
p("C29", "Values and types are checked against a declared type exactly",
  "A constant value is accepted for a declared type exactly when it conforms to it: in its kind, in every item of its lists and in every member its objects declare, required ones included; every fault is reported once, at its place. A declared type is assignable to another exactly when every value of the one serves as the other: all members wanted, each assignable, optional only where that is wanted. The schema of a gRPC message has each of its fields, optional, required or repeated as declared.",
  ["inputs", "configurations"], "all pairs of schemas and of a schema and a value up to a bounded depth and width, with symbolic leaves",
  "tests check one schema of each kind against one or two values",
  [C+"json/json_schema.rs"], [("validate", C+"json/json_schema.rs"), ("is_a", C+"json/json_schema.rs")])
p("C30", "A generated configuration follows the source it is generated from",
  "A configuration generated from protocol files has one type for each message, enumeration and call that is used, named after its package and enclosing messages, each field with the type, list and requiredness it is declared with (maps as JSON, alternatives as a union), each call with its message as argument and its full method name, and every element described by its own comment and no other. Over HTTP such a call becomes a POST to the service and method with the same message, headers and settings and the protocol's own header. A configuration generated from a sample of a request and its answer makes that request again, given its values as arguments, and serves that answer.",
  ["inputs", "configurations"], "all protocol files assembled from bounded packages, messages, fields of every type and label, alternatives, services and comments; all small samples of answers and URLs; symbolic names and settings",
  "tests snapshot a dozen files and samples",
  [C+"generator/from_proto.rs", C+"generator/graphql_type.rs", C+"generator/proto/connect_rpc.rs", C+"generator/proto/comments_builder.rs", C+"generator/proto/path_builder.rs", C+"generator/json/types_generator.rs", C+"generator/json/http_directive_generator.rs", C+"helpers/gql_type.rs"],
  [("from_proto", C+"generator/from_proto.rs"), ("GraphQLType", C+"generator/graphql_type.rs"), ("ConnectRPC", C+"generator/proto/connect_rpc.rs")])
p("C31", "A configuration that cannot be served is refused, and why is named",
  "A configuration is refused exactly when something in it cannot be served: a root field that nothing resolves, an undeclared or redefined type, a template that names no value, argument or variable of its place or one that may be null or a list where that cannot be, a wrong link, batch key, step, constant, header, host, certificate or exporter. Every independent fault is reported, under its own name and no other, and links and headers at their place; causes keep their message, description and trace when they are passed on. The format of a file is that of its extension in any letter case.",
  ["configurations"], "all configurations of a small world whose templates, links, batch settings, roots and settings are assembled by choice, with one to three faults at once and symbolic texts",
  "tests snapshot one fault at a time",
  [C+"blueprint/links.rs", C+"blueprint/template_validation/mod.rs", C+"blueprint/mustache.rs", C+"blueprint/schema.rs", C+"blueprint/definitions.rs", C+"blueprint/operators/http.rs", C+"blueprint/server.rs", C+"blueprint/error.rs", C+"config/source.rs", C+"config/group_by.rs"],
  [("Links::try_from", C+"blueprint/links.rs"), ("validate_argument", C+"blueprint/template_validation/mod.rs"), ("Source::detect", C+"config/source.rs"), ("validate_query", C+"blueprint/schema.rs")])
p("C40", "Distinct identifiers are never handed out twice",
  "Every identifier a counter hands out is new, increasing by one, whatever the mix of users.",
  ["histories"], "all short histories", "tests check one short history", [C+"counter.rs"], [("Counter", C+"counter.rs")])
for x in P: print(json.dumps(x, ensure_ascii=False))
