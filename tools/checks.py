"""What each property's check runs: harness entries (harness/src), bounds, assumptions."""
CHECKS = {
    "C01": dict(
        features=["c01"],
        quick=["h_c01_ascii", "h_c01_unicode", "h_c01_two_expr", "h_c01_contains"],
        thorough=["h_c01_ascii_deep", "h_c01_two_expr_deep"],
        covers=["literal", "several expressions", "mixed"],
        bounds="every ASCII text up to 8 characters (thorough: 13), every text up to 6 ASCII characters plus one two-byte character anywhere, every text of the shape lit {{ws name.name}} lit {{name}} lit with pieces up to 2 free characters each (thorough: larger pieces)",
    ),
    "C02": dict(features=["c02"], quick=["h_c02_one", "h_c02_many", "h_c02_graphql", "h_c02_body", "h_c02_constant", "h_c02_select"],
        covers=["value", "no value", "several", "constant", "GraphQL", "body", "constant body", "selected"],
        bounds="19 paths over values, arguments, variables, headers and environment; values of every kind with texts of up to 2 special characters and nesting of 2; up to 3 segments; bodies nested up to 3"),
    "C03": dict(features=["c03"], quick=["h_c03_single", "h_c03_many", "h_c03_threads", "h_c03_cache", "h_c03_cache_extra"], thorough=["h_c03_single_deep", "h_c03_many_deep", "h_c03_threads_deep"],
        covers=["answered", "failed", "cancelled", "between", "from the cache"],
        bounds="every order of up to 3 (thorough: 4) calls for up to 3 keys, timer firings, backend answers (any subset of the keys, or a failure; any values) and one cancelled caller, for 5 (thorough: 6) events after which everything runs its course; maximum batch sizes 1 to 3; up to 2 operations of other threads at the lock and atomic operations of another; with and without a map cache",
        note="Locks and atomics of data_loader/*.rs are replaced by counterparts that mark where another thread can come in; such a thread's operation runs to its end there (no alternation at finer grain, sequentially consistent memory). Timer and spawn belong to the harness."),
    "C04": dict(features=["c04"], quick=["h_c04_order", "h_c04_keys", "h_c04_threads"], thorough=["h_c04_order_deep", "h_c04_threads_deep"], covers=["answered", "shared", "cancelled", "between"],
        bounds="every order of up to 3 (thorough: 4) callers over up to 2 keys, their polls when woken, completions with any result and one cancellation (thorough: 2), for 8 events after which everything runs its course; up to 2 (thorough: 3) operations of other threads at the lock operations of another",
        note="As for C03; tokio's broadcast channel is executed as it is."),
    "C05": dict(features=["c05"], quick=["h_c05_history", "h_c05_millis", "h_c05_long_ttl", "h_c05_capacity"], thorough=["h_c05_history_deep"], covers=["hit", "miss", "capacity"],
        bounds="every history of 5 (thorough: 7) stores and lookups over 2 keys with arbitrary values, times to live up to 255 s and clock steps; sub-second clock steps from a fixed set; capacity 2"),
    "C08": dict(features=["c08"], quick=["h_c08_flat", "h_c08_nested"], thorough=["h_c08_flat_deep", "h_c08_nested_deep"], covers=["two groups", "two items in a group"],
        bounds="lists of up to 2 items (thorough: 3), keys of every JSON kind with any 64-bit integer, string or boolean, and key paths through nested lists and objects of depth 2; all four JSON representations"),
    "C10": dict(features=["c10"], quick=["h_c10_scalar", "h_c10_int", "h_c10_tree", "h_c10_path", "h_c10_index"], thorough=["h_c10_tree_deep"], covers=["list", "object", "path found"],
        bounds="every scalar (any 64-bit integer, strings up to 3 characters, a fixed set of floats), trees of depth 2 and width 2 over them (thorough: larger), paths of up to 3 steps"),
    "C15": dict(features=["c15"], quick=["h_c15_types", "h_c15_equal", "h_c15_parse"], thorough=["h_c15_types_deep"], covers=["nested lists", "simple", "equal", "different"],
        bounds="list nesting up to 3 (thorough: 5) with every placement of non-null, symbolic names up to 3 characters"),
    "C18": dict(features=["c18"], quick=["h_c18_path", "h_c18_literal", "h_c18_typed", "h_c18_reject", "h_c18_query", "h_c18_endpoint", "h_c18_served"], thorough=["h_c18_path_deep"],
        covers=["match with variables", "literal match", "no match", "query variables", "query mismatch", "endpoint match", "served", "not found"],
        bounds="patterns of up to 3 segments of every kind and type, request paths of up to 3 segments of up to 3 symbolic characters, up to 2 query parameters; whole requests of concrete paths and queries for up to 3 endpoints"),
    "C06": dict(features=["c06"], quick=["h_c06_url_body", "h_c06_body", "h_c06_headers", "h_c06_three"], thorough=["h_c06_headers_deep"], covers=["same request", "different requests", "three equal"],
        bounds="pairs and triples of requests with a symbolic URL, symbolic bodies up to 2 bytes or none, up to 2 batching-relevant header names and up to 2 (thorough: 3) header values"),
    "C07": dict(features=["c07"], quick=["h_c07_body", "h_c07_query", "h_c07_both", "h_c07_names"], thorough=["h_c07_names_deep", "h_c07_body_deep", "h_c07_query_deep"], covers=["bodies", "keyed parameters", "all parameters"],
        bounds="batches of up to 3 requests, bodies up to 2 symbolic bytes, up to 2 parameters each with values over a small alphabet (blank, &, %, letters)"),
    "C11": dict(features=["c11"], quick=["h_c11_integers", "h_c11_kinds", "h_c11_wide", "h_c11_edges", "h_c11_email", "h_c11_date", "h_c11_url", "h_c11_names"], thorough=["h_c11_wide_deep"],
        covers=["integer accepted", "integer rejected", "wide accepted", "wide rejected", "email accepted", "email rejected", "date accepted", "date rejected", "url accepted", "url rejected"],
        bounds="every scalar; every 64-bit integer; every text up to 3 (thorough: 5) characters of digits, signs, blanks and letters; every text that differs from a limit of a wide integer in its last two digits, with an extra digit and leading zero; e-mail, date and URL texts with up to 3 symbolic characters; texts of phone numbers are not covered"),
    "C12": dict(features=["c12"], quick=["h_c12_field", "h_c12_keyed", "h_c12_other"], covers=["list resolved", "null stays", "object resolved", "rejected"],
        bounds="every subset of 3 type names, objects of up to 3 members, lists of up to 2 items nested up to 2 deep, symbolic names of one character"),
    "C13": dict(features=["c13"], quick=["h_c13_server", "h_c13_upstream", "h_c13_nested", "h_c13_vars", "h_c13_containers", "h_c13_values", "h_c13_config", "h_c13_resolvers"], thorough=["h_c13_values_deep"],
        covers=["set on both sides", "set on the left only", "same type on both sides"],
        bounds="each option of server, upstream and their nested settings present or absent on either side with symbolic values; up to 2 variables, list items, map entries, types and fields a side"),
    "C14": dict(features=["c14"], quick=["h_c14_types", "h_c14_args", "h_c14_fields", "h_c14_enums", "h_c14_modules"], thorough=["h_c14_types_deep"],
        covers=["types combine", "types conflict", "arguments combine", "arguments conflict", "subgraphs combine", "subgraphs conflict"],
        bounds="type wrappings nested up to 2 (thorough: 3) lists, symbolic names, up to 2 arguments, fields and variants a side, two subgraphs of up to 2 types"),
    "C16": dict(features=["c16"], quick=["h_c16_fold", "h_c16_iter", "h_c16_long", "h_c16_lens", "h_c16_transform"], thorough=["h_c16_fold_deep"], covers=["succeeds", "several steps fail"],
        bounds="pipelines of up to 3 (thorough: 4) nested combinators and chains of up to 8 steps with symbolic success, errors and values"),
    "C17": dict(features=["c17"], quick=["h_c17_display", "h_c17_nested", "h_c17_validation", "h_c17_other"], covers=["shown", "two causes"],
        bounds="reports nested up to 2 deep with up to 2 causes, texts up to 2 symbolic characters including line breaks, traces up to 2 segments"),
    "C19": dict(features=["c19"], quick=["h_c19_query", "h_c19_query_two", "h_c19_headers", "h_c19_names", "h_c19_name_text", "h_c19_body", "h_c19_form", "h_c19_key", "h_c19_graphql_key", "h_c19_grpc_key", "h_c19_url", "h_c19_graphql", "h_c19_grpc", "h_c19_served"],
        thorough=["h_c19_query_deep", "h_c19_key_deep", "h_c19_graphql_key_deep", "h_c19_grpc_key_deep"],
        covers=["query", "no query", "dropped", "kept", "accepted", "reported", "document", "lone", "form", "same", "different", "a URL", "not a URL", "operation", "message", "forwarded", "served"],
        bounds="texts of up to 2 (thorough: 3) special characters, lists, objects, numbers and null; up to 2 query parameters of 10 templates on 3 URLs; up to 2 headers; bodies that are an object, a list, one expression or a constant; requests differing in up to 2 (thorough: 3) of method, URL, query, header, body, forwarded headers; texts inserted in the path of a URL are inserted as they are (outside: characters special there)"),
    "C20": dict(features=["c20"], quick=["h_c20_selected", "h_c20_others", "h_c20_batched", "h_c20_unselected", "h_c20_arguments", "h_c20_variables", "h_c20_interface"], thorough=["h_c20_selected_deep", "h_c20_two", "h_c20_arguments_deep"],
        covers=["served"],
        bounds="one selection of up to 2 (thorough: 3) levels in 8 forms over 8 leaves, or two of one level (thorough), under 7 forms of root; two fields of other resolvers in 8 forms, in 3 settings of batching; texts of up to 1 (thorough: 2) of 9 awkward characters or 4 templates in 6 places; 8 uses of variables, given or not; 2 of 8 parts of an interface selection",
        note="One field of the upstream asked for with different arguments under two aliases is not covered (tailcall does not send aliases, a skipped test records it). Known: values that another resolver needs are not asked for when the client does not select them, and an optional variable that is not given is an error."),
    "C21": dict(features=["c21"], quick=["h_c21_policies", "h_c21_merged", "h_c21_lifetimes", "h_c21_written", "h_c21_served"], thorough=["h_c21_policies_deep", "h_c21_merged_deep", "h_c21_served_deep"],
        covers=["never", "lifetime", "private", "shortest", "written", "failed", "promised"],
        bounds="up to 3 answers with a Cache-Control of up to 2 (thorough: 3) directives out of 16 on one line or several; 3 policies with any 64-bit lifetimes; whole requests (also batched) with up to 2 upstream answers of up to 1 (thorough: 2) directives, one of which may fail",
        note="Whole requests run through handle_request with an HttpIO that belongs to the harness; answers taken from a cache of tailcall and the REST endpoints are not covered."),
    "C22": dict(features=["c22"], quick=["h_c22_origin", "h_c22_lists", "h_c22_private", "h_c22_values", "h_c22_served", "h_c22_unconfigured"], thorough=["h_c22_origin_deep"],
        covers=["rejected", "granted", "not granted", "lists", "list rejected", "private network", "usable value", "preflight", "request", "own origin", "foreign origin"],
        bounds="configurations of up to 2 origins, methods and headers with symbolic texts up to 3 characters or the wildcard, every flag; origins of requests with symbolic texts; whole preflight and normal requests with concrete origins"),
    "C24": dict(features=["c24"], quick=["h_c24_passed", "h_c24_changed", "h_c24_unusable", "h_c24_answered", "h_c24_redirected", "h_c24_scope", "h_c24_body", "h_c24_js"], thorough=["h_c24_passed_deep", "h_c24_passed_bytes"],
        covers=["passed", "changed", "unusable", "answered", "redirected", "scope", "body", "js"],
        bounds="five fields with a text of 1 character out of 10 awkward ones (thorough: 2, and any printable one) in the value or name of a query parameter, the path, the body or a header; 11 changes of a request, 17 unusable results, 7 statuses of a response with 5 bodies, up to 2 redirects, own and global functions with and without batching, 6 bodies and results of onResponseBody, 1 or 2 parents of a @js field",
        note="QuickJS itself is replaced by a stand-in (stubs/rquickjs) with JavaScript values and the conversions of rquickjs but without an interpreter: the functions of the script are closures of the harness, everything around them (codec, runtime, hooks, executor) is the real code. Of repeated query keys or headers a script sees the last. A script that throws in onRequest lets the request pass as it was; neither demanded nor refused."),
    "C25": dict(features=["c25"], quick=["h_c25_algebra", "h_c25_claims", "h_c25_trees", "h_c25_served"], thorough=["h_c25_trees_deep", "h_c25_served_deep"],
        covers=["and fails", "or fails", "or succeeds", "issuer", "audience", "refused", "let through", "answered", "denied"],
        bounds="every pair of verdicts; trees of providers up to depth 1 (thorough: 2) over two password files with plain-text entries, and any of 20 headers; issuers and audiences up to 2 characters; two requests one after the other (thorough: three) of any of 5 users for 1 or 2 of 9 selections of a protected schema",
        note="Signatures of tokens (ring, hand-written assembly) and hashed passwords are not executed."),
    "C26": dict(features=["c26"], quick=["h_c26_merge", "h_c26_roots", "h_c26_conditions", "h_c26_guards", "h_c26_interface", "h_c26_nulls", "h_c26_scalars", "h_c26_tops", "h_c26_cycles", "h_c26_defaults"], thorough=["h_c26_nested", "h_c26_types", "h_c26_nulls2"],
        covers=["answered", "refused", "values"],
        bounds="selections of up to 3 fields with up to 2 aliases, up to 3 levels, 2 fragments with @skip or @include by a literal or variable, 3 types of an interface; upstream values of up to 2 items with at most one place missing, null or of another kind",
        note="The document, the upstream's answer and the variables are assembled from choices of the solver; texts are concrete. tailcall drops all data when a value that must not be null is: which ancestor becomes null is not demanded."),
    "C27": dict(features=["c27"], quick=["h_c27_same", "h_c27_mixed"], thorough=["h_c27_same_deep"], covers=["compared"],
        bounds="two requests one after the other out of 9 documents with their operation names, variables and headers (thorough: three for one document); concrete texts, compared with the answer of a server that has seen no request before",
        note="The solver decides over which requests are sent; their texts are concrete, since the caches are keyed by hashes of them."),
    "C28": dict(features=["c28"], quick=["h_c28_settings", "h_c28_resolvers", "h_c28_small", "h_c28_text_schema", "h_c28_text_field", "h_c28_text_resolver", "h_c28_text_types", "h_c28_text_telemetry", "h_c28_json", "h_c28_yaml"], thorough=["h_c28_text_deep"],
        covers=["directive", "read back", "settings read back"],
        bounds="each option of each directive in turn with a symbolic value while the others are absent or fixed; schemas of up to 4 types; texts from small fixed sets with one symbolic character; descriptions without a triple quote; configurations with a query root (without query and mutation the printed text leaves out the schema block); not: @telemetry and discriminators, which are never written (known findings)"),
    "C29": dict(features=["c29"], quick=["h_c29_values", "h_c29_nested", "h_c29_assign", "h_c29_assign_objects", "h_c29_assign_nested", "h_c29_names", "h_c29_messages"], thorough=["h_c29_nested_deep", "h_c29_values_deep", "h_c29_assign_deep"],
        covers=["accepted", "rejected", "several faults", "list accepted", "object accepted", "assignable", "not assignable", "conforms to both", "scalar", "message"],
        bounds="schemas nested up to 2 lists or objects of up to 2 members; values that conform but for up to 1 (thorough: 2) arbitrary deviations, with any integer, boolean and text of one character; pairs of schemas of depth 1 (nested: chosen shapes of depth 2); messages of up to 2 fields of every kind and label; the names of an enum value are not compared by tailcall and not demanded here; a member that may be anything counts as required (a missing one is refused)"),
    "C30": dict(features=["c30"], quick=["h_c30_names", "h_c30_reserved", "h_c30_connect", "h_c30_comments", "h_c30_paths", "h_c30_fields", "h_c30_services", "h_c30_oneofs", "h_c30_docs", "h_c30_kinds", "h_c30_sample", "h_c30_url"], thorough=["h_c30_names_deep", "h_c30_services_deep"],
        covers=["named", "connect", "described", "protocol", "documented", "kinds", "sample served", "asked again"],
        bounds="names of up to 2 (thorough: 3) characters in 8 namespaces; one field of every type and label in 3 packages, also in a nested message; 2 services of up to 1 (thorough: 2) calls over 6 messages of 2 files; up to 2 groups of up to 3 alternatives; comments at 2 of 9 places in 2 files; answers of up to 3 levels with up to 2 members or items; URLs of up to 2 segments and 2 parameters",
        note="Numbers of samples are integers: a test of the repository fixes that every number becomes Int. Messages named like a scalar of tailcall, alternatives in arguments and comments of the values of an enumeration are not covered."),
    "C31": dict(features=["c31"], quick=["h_c31_links", "h_c31_source", "h_c31_path", "h_c31_query", "h_c31_several", "h_c31_graphql", "h_c31_batch", "h_c31_roots", "h_c31_schema", "h_c31_headers", "h_c31_experimental", "h_c31_server", "h_c31_faults", "h_c31_causes", "h_c31_group_by"], thorough=["h_c31_faults_deep"],
        covers=["accepted", "refused", "links", "wrong links", "too many links", "format", "no format", "header", "no header", "experimental", "not experimental", "settings", "wrong settings", "passed on", "grouped"],
        bounds="3 links of 3 kinds with symbolic identifiers; templates of up to 4 parts of 6 kinds in the path and query of a request and the headers and arguments of a GraphQL upstream, and 3 of them at once; every combination of batch settings, methods and 7 bodies; 2 root fields and 2 nested types of 8 types; up to 2 (thorough: 3) of 39 faults at once; header names and values up to 2 characters; file names of 7 stems with symbolic extensions",
        note="Messages are compared by text, their order is not. Templates in bodies, headers and settings of @http are not validated by tailcall, values of enumerations are not taken in templates of the resolved value; both are taken as given. Protocol files, certificates and the linting of files that are read are not covered."),
    "C40": dict(features=["c40"], quick=["h_c40_counter", "h_c40_atomic", "h_c40_threads"], covers=["counted", "between"], bounds="every history of up to 6 operations, any start value; up to 3 operations of other threads at the lock and atomic operations of 3 others"),
}
HOOKS = {"guard": "cfg tailcall_symex", "enable": "RUSTFLAGS --cfg tailcall_symex (set by tools/build.py)", "source_commits": ["193c998", "5bd71b3", "2f13e11", "f4866c2", "db7bfe4", "7b48779"]}
NOT_APPLICABLE = {}
