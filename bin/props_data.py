P("C01", "Merged Cache-Control is never more permissive than any subgraph's",
  "When Cache-Control values of several subgraph responses are merged, any no-store, no-cache or private among the values that were understood makes the result exactly no-store and no-cache; otherwise max-age is the smallest one stated, must-revalidate is kept when anyone stated it, and public is kept only when every counted response stated it in a header that was understood. A value that is not understood is discarded as a whole, when none is understood the header is removed, and a forced no-store (mutation or any error) replaces whatever was collected with no-store, no-cache, must-revalidate. No header is invented when no subgraph sent one.",
  ["inputs", "histories"], "any number of collected header values with any text, any number of counted responses, forced or not",
  "The tests merge a few hand-picked pairs; the rule is a fold over any number of values in any order.",
  ["executor/headers/cache_control.rs"],
  [("parse / merge_into / to_header_value / finalize", "executor/headers/cache_control.rs")],
  claim={"note": "Verus proves parse, merge_into, to_header_value and finalize, extracted from the source, against the fold specification for any number of values, and the lemma `restrictive`; std string primitives and the hash map are assumed contracts, exercised by a bounded run of the compiled code."})
P("C02", "Operation limits count the whole expanded operation",
  "With max_depth, max_aliases, max_directives or max_tokens configured, an operation document is refused, before any subgraph is called, exactly when one of its operations exceeds the limit when every fragment spread is counted as the whole fragment it names: alias and directive totals over all spreads, the deepest path (with flatten_fragments not counting fragment levels and ignore_introspection not counting __schema and __type), and the number of punctuator, name and integer tokens. The order of definitions, how often a fragment is spread and where it was first met do not change the verdict.",
  ["inputs"], "any document with acyclic fragments, any limit",
  "The rules memoise counts per fragment; whether the memo is exact depends on how fragments nest and repeat, of which tests try a few.",
  ["pipeline/validation/max_depth_rule.rs", "pipeline/validation/max_aliases_rule.rs", "pipeline/validation/max_directives_rule.rs", "pipeline/validation/shared.rs", "lib/graphql-tools/src/parser/tokenizer.rs"],
  [("count_depth / count_aliases / count_directives / enter_document", "pipeline/validation"), ("token limit", "lib/graphql-tools/src/parser/tokenizer.rs")],
  claim={"note": "Verus proves count_depth, count_aliases, count_directives, check_limit, enter_document and the AST accessors they use, extracted from the source, against the expanded count, for all acyclic documents; the hash maps are assumed contracts. Token limit and the end-to-end refusal: bounded run against the compiled router."})
P("C03", "Estimated cost is exact, and nothing over its budget is executed",
  "With demand control on, the estimated cost of an operation is the saturated sum, over the subgraph fetches of the plan that its variables reach, of the cost of each fetch: field, argument and type weights, list sizes (assumedSize, slicing arguments, sizedFields, the default of the fetch's subgraph) multiplying everything below them, @skip/@include taking effect, input objects costed value by value, mutations 10 more. A huge weight or list never wraps round to a small cost, and the same operation planned differently (progressive override) is charged by its own plan. In enforce mode an operation above operation_cost.max is refused before any subgraph is called, one at or below it is not; a required slicing argument that is not exactly one is refused; a subgraph above its budget is not called while the others are.",
  ["inputs", "histories"], "any operation, variables, weights, list sizes, limits and any sequence of earlier requests that filled the formula cache",
  "Costs are products and sums over arbitrarily nested lists and variables, cached by plan; tests check a few constants.",
  ["pipeline/demand_control/formula.rs", "pipeline/demand_control/runtime.rs", "executor/executors/map.rs", "pipeline/mod.rs", "config/demand_control.rs"],
  [("eval_cost_expr / evaluate_formula_plan / add_nonzero / mul", "pipeline/demand_control/formula.rs"), ("list_blocked_subgraphs / evaluate", "pipeline/demand_control/runtime.rs")],
  claim={"note": "Verus proves, on functions extracted from the source, that evaluating a formula gives exactly the saturated value of the expression, that building sums, products and conditions keeps the value, that a plan charges every reached fetch to the total and to its subgraph, and which subgraphs are blocked. Compiling the formula from the schema and the enforcement end to end: bounded run against the compiled router."})
P("C04", "Unauthorized fields are neither asked for nor returned",
  "With authorization directives on, a selection is authorized when the rules of its parent type, of the field itself and of its output type are all met (for a fragment: of its type condition), @authenticated needing a valid token and @requiresScopes one whole group of the token's scopes. In filter mode the response is what executing the operation on the same data gives with every unauthorized field null, null propagating from non-null fields as the specification says and an object none of whose selections is left becoming null; authorized fields are unaffected, however they share parents, aliases or fragments with rejected ones; a rejected value is never returned, even when the router fetched it as an entity key; and the errors are exactly one UNAUTHORIZED_FIELD_OR_TYPE with its affectedPath per unauthorized selection reached (a selection switched off by @skip or @include is not). A rejected field that is nobody's key is not asked of any subgraph. In reject mode any such error refuses the whole operation and no subgraph is called.",
  ["inputs"], "any schema with authorization directives, any operation, any token",
  "Which selections survive depends on the whole tree: fragments, aliases, shared parents, nullability; tests check a few shapes.",
  ["pipeline/authorization/", "executor/operation_filter.rs", "executor/projection/plan.rs"],
  [("is_rule_satisfied / is_type_authorized / is_field_authorized", "pipeline/authorization/mod.rs"), ("FilteringContext traversal", "executor/operation_filter.rs")],
  claim={"note": "Verus proves, on functions extracted from the source, that the rules are evaluated as written and that the traversal yields exactly the specified rejected paths, error paths and null propagation for every operation tree. Rebuilding the operation, planning and nulling the response: bounded run against the compiled router with a specification executor as oracle."})
P("C05", "Header rules forward exactly what they say and never a denied header",
  "A subgraph receives of the client's headers exactly what the rules of `all` followed by its own rules produce when applied top to bottom: propagate (by name, with rename and default, or by pattern minus exclude, every line of a repeated header), insert (replacing, appending for set-cookie and www-authenticate) and remove (honouring exclude). The client receives of the subgraphs' response headers what the response rules produce, several values of one header being merged by first, last or append (joined by a comma), set-cookie and www-authenticate never joined, the lines of a header repeated in one response being one value. No hop-by-hop header (connection, te, transfer-encoding, host, content-length and the rest of the list) is ever propagated, renamed to, inserted or defaulted in either direction, and no rule replaces the router's own content-type. Names compare without case.",
  ["inputs", "histories"], "any rule lists, any client and subgraph headers, any number of subgraph responses",
  "Rules compose in order over multi-valued headers of many responses; tests check one rule at a time.",
  ["executor/headers/"],
  [("request rules", "executor/headers/request.rs"), ("response rules, write, join_with_comma", "executor/headers/response.rs"), ("denied lists", "executor/headers/sanitizer.rs, config/headers.rs")],
  claim={"note": "Verus proves the request rules, propagate_header, write, join_with_comma and the named response rules, extracted from the source, against their specification for all header maps; the header map, the regex engine and the denied lists are assumed contracts. The lists, pattern rules of responses, expressions, rule order and the wire: bounded run against the compiled code."})
P("C06", "CORS headers admit exactly the origins and settings of the configuration",
  "With CORS on, a response to a request with an Origin carries the CORS headers of the first policy, in configuration order, that lists the origin exactly or has a pattern matching it (with allow_any_origin, of the global settings): that origin as Access-Control-Allow-Origin, and methods, headers, exposed headers, credentials and max-age of the policy, each falling back to the global setting only when the policy leaves it out (or gives an empty list), so credentials denied by the policy stay denied; methods and headers that nobody configured echo the request's hints. An origin no policy matches gets Access-Control-Allow-Origin null and nothing else. Vary names Origin, and the echoed request headers, once, keeping what was there. Configured preflight headers are set on OPTIONS answers only, the policy's over the global ones; OPTIONS is answered with 204 without executing anything. Without an Origin header, or with CORS off, no CORS header is added.",
  ["inputs"], "any list of policies and settings, any origin and request hints, any response",
  "Which policy and which of its settings win depends on combinations of absent, empty and given values over a list of policies; tests check a few.",
  ["pipeline/cors.rs", "config/cors.rs", "lib.rs"],
  [("from_config / try_from_config / matches_origin / find_policy_for_origin / apply_to / set_headers / append_vary", "pipeline/cors.rs")],
  claim={"note": "Verus proves, on functions extracted from the source, the compiled settings and inheritance, the choice of the policy and every header written, for all configurations, requests and responses; header map, regex engine and text primitives are assumed contracts, exercised with the preflight answer by a bounded run of the compiled router."})
P("C07", "CSRF prevention lets nothing a browser sends unasked be executed",
  "With CSRF prevention on and at least one required header configured, a request is refused with 403 and CSRF_PREVENTION_FAILED, before anything is executed, exactly when its Content-Type is missing, unreadable or begins (in any case) with text/plain, application/x-www-form-urlencoded or multipart/form-data, and none of the required headers (in any case, with any value) is present. Otherwise this check never refuses.",
  ["inputs"], "any content type, any headers, any configured list, any method",
  "Spellings of content types and header sets are unbounded; a single one that slips through is the attack.",
  ["pipeline/csrf_prevention.rs", "config/csrf.rs", "pipeline/mod.rs"],
  [("perform_csrf_prevention / request_requires_preflight / is_simple_content_type", "pipeline/csrf_prevention.rs"), ("called before the body is read", "pipeline/mod.rs")],
  claim={"note": "Verus proves the decision (perform_csrf_prevention and what it calls, with its list of simple types), extracted from the source, for all requests and configurations; header lookup and ASCII lower-casing are assumed contracts. That a refused request reaches no subgraph: bounded run of the compiled router."})
P("C08", "The response has exactly the shape the operation asks for",
  "The data returned is what the GraphQL specification's completion gives for the operation over what the subgraphs returned: exactly the response keys selected for the concrete type of each object (aliases, fragments on object, interface and union types, @skip and @include with their variables), each once, in selection order within what is merged; __typename the concrete type, escaped like any string; a missing value, or an enum value that the schema does not list, null; a null in a non-null position propagated to the nearest nullable parent, through lists, up to data itself; lists of lists completed item by item; a value that nobody selected never returned. The text is well-formed JSON whatever strings and numbers the subgraphs send, errors and extensions follow data and are left out when empty.",
  ["inputs"], "any operation, variables, schema and any data that subgraphs return",
  "The projection combines nullability, type conditions and directives over unboundedly nested data; tests check a few pairs.",
  ["executor/projection/response.rs", "executor/projection/plan.rs", "executor/response/", "executor/introspection/schema.rs"],
  [("project_by_operation / project_selection_set / project_selection_set_with_map / check", "executor/projection/response.rs"), ("plan of the projection", "executor/projection/plan.rs"), ("merging of subgraph data", "executor/response/merge.rs")],
  claim={"note": "Verus proves that projection writes exactly the text of the completed value (null propagation, type guards, conditions, enum values, __typename) for all data, plans and variables, and that merging two answers keeps every key and merges exactly what both say, on functions extracted from the source. Building the plan and fetching: bounded run of the compiled router against a specification executor; two findings are recorded."})
P("C09", "Subscription streams deliver every event whole and in order in any framing",
  "Every event that a subgraph sends over text/event-stream or multipart/mixed reaches the client as exactly one event with the same response, in the order sent, however the bytes are cut into chunks, whichever line ends, comments, heartbeats, extra headers or preamble are used, and whatever text the payload contains (the delimiter, line ends, multi-byte characters): none is lost, duplicated, merged, cut or delivered before it is complete. The end is signalled once and nothing follows it; an event that cannot be read ends the stream with an error; heartbeats carry no data. What the router writes to the client over each of the three protocols is read back as the same events.",
  ["inputs", "schedules"], "any sequence of events, any cut into chunks, any legal framing",
  "Where chunks are cut depends on the network; tests feed a few hand-cut buffers.",
  ["executor/executors/sse.rs", "executor/executors/multipart_subscribe.rs", "pipeline/sse.rs", "pipeline/multipart_subscribe.rs"],
  [("find_sse_event_boundary / parse / parse_to_stream", "executor/executors/sse.rs"), ("parse_boundary_from_header / find_next_part / parse_part / parse_to_stream", "executor/executors/multipart_subscribe.rs"), ("create_stream", "pipeline/sse.rs"), ("create_apollo_multipart_http_stream / create_incremental_delivery_stream", "pipeline/multipart_subscribe.rs")],
  claim={"note": "Verus proves the decoders of both subgraph protocols, loops included and extracted from the source, equal to the written framing semantics for every chunk sequence, and the theorem that the cut into chunks does not matter. Encoders, heartbeats and the way end to end: bounded run of the compiled code."})
P("C10", "Only valid JWTs authenticate a request, and required means refused otherwise",
  "With JWT authentication on, a request is treated as authenticated exactly when the first configured location that the request fills holds a token (with the configured prefix, for a header) that is signed by a key of the first key set having the token's kid (otherwise the first having its algorithm), with an allowed algorithm, whose exp is present and not over and whose nbf, if any, has come (60 s leeway), whose iss is a configured issuer and whose audiences, at least one, are all configured audiences, when these are configured. The claims and scopes that authorization, forwarding and expressions see are those of that very token, scopes read from the configured claim. A token already accepted may be remembered for at most five seconds and never past its exp. With require_authentication every other request is refused (401 without a token, otherwise 403, 400 for an unsupported algorithm) before any subgraph is called; without it such a request runs as anonymous.",
  ["inputs", "configurations"], "any token, header and cookie set; any JWT configuration and key sets",
  "Tests sample a few tokens; acceptance is a conjunction over keys, algorithms, claims and configuration where one missing conjunct lets an attacker in.",
  ["jwt/mod.rs", "jwt/context.rs", "jwt/errors.rs", "shared_state.rs", "pipeline/mod.rs", "executor/execution/jwt_forward.rs"],
  [("lookup / find_matching_jwks / try_decode_from_jwk / validate_headers", "jwt/mod.rs"), ("extract_scopes", "jwt/context.rs"), ("JwtClaimsExpiry", "shared_state.rs"), ("status_code", "jwt/errors.rs")],
  claim={"note": "Verus proves lookup, key-set choice, validation of a token against a key, the cache step, scopes and memory time equal to the acceptance predicate, for all headers, tokens, key sets and configurations; signature checking and claim parsing are assumed of jsonwebtoken. The compiled router is run on random tokens and configurations with real signatures."})
P("C11", "Errors of subgraphs reach the client masked as configured",
  "With error masking on, every error that a subgraph puts into an answer, and every failure of a request to it, has the configured text as its message unless masking is off for that subgraph (its own `enabled`, else that of `all`); of its extensions (code, service and affectedPath included) exactly those stay that the subgraph's own allow or deny list lets through, or the list of `all` when it has none; nothing else of the error changes. This holds for root and entity fetches, batched fetches and the events of subscriptions. Errors that are not of a subgraph are untouched, and with masking off every error is. (An error that names another service in its own extensions is taken for one of that service; a subscription that cannot be started is answered by an error of the router itself, which shows nothing of the subgraph.)",
  ["inputs", "configurations"], "any masking configuration, any errors of any subgraphs",
  "One path on which an error skips the policy leaks internals; tests sample configurations and paths.",
  ["executor/execution/error_masking.rs", "executor/execution_context.rs", "executor/response/graphql_error.rs", "executor/execution/error.rs", "executor/execution/plan.rs"],
  [("ErrorMaskingRuntime::apply / compile_from_config", "executor/execution/error_masking.rs"), ("handle_errors", "executor/execution_context.rs"), ("add_subgraph_name / normalize_entity_error", "executor/response/graphql_error.rs"), ("serialize_masked_failure", "executor/execution/plan.rs")],
  claim={"note": "Verus proves that compiling a configuration and applying it to an error is the policy read off the configuration, for all configurations and errors, and that every error recorded from an answer names a subgraph, so none escapes it; the compiled router is run end to end on random configurations and failing subgraphs, queries and subscriptions."})
P("C12", "A cached plan serves only the operations it was made for",
  "A plan taken from the cache of plans is one that was made for an operation alike in everything but its name (kind, fields, aliases, arguments down to the kind of each value and the nesting of lists, conditions, fragments, variable definitions with types and defaults) under the same decision for each override label of the supergraph; so every answer is that of its own request, whatever was asked before, and a field with an override label comes from the subgraph the labels of its own request pick.",
  ["inputs", "histories"], "any sequence of requests to one router",
  "A key that leaves one detail out shows only when two requests differ in just that detail, in the right order; tests do not pair requests.",
  ["query_planner/ast/hash.rs", "query_planner/ast/value.rs", "query_planner/graph/edge.rs", "pipeline/normalize.rs", "pipeline/query_plan.rs", "pipeline/progressive_override.rs"],
  [("operation_hash / hash_selection_set", "query_planner/ast/hash.rs"), ("Hash for Value", "query_planner/ast/value.rs"), ("calculate_cache_key", "pipeline/query_plan.rs"), ("StableOverrideContext::new", "pipeline/progressive_override.rs"), ("FieldMove::satisfies_override_rules", "query_planner/graph/edge.rs")],
  claim={"note": "Verus proves that the streams of tokens hashed into the keys determine the operation and every override decision, for all operations, labels and requests (hash collisions aside); the compiled router is run end to end on families of operations that differ in one detail."})
P("C13", "Requests share an answer only when they ask the same",
  "While requests are in flight together, one is answered with the result of another only if both are not mutations and agree in method, path, schema, operation, the variables and extensions down to the kind of each value, and every value, in order, of each header that counts by the configuration (all, none, or the listed names whatever their case); a fetch from a subgraph is shared only if method, address, body and all header values agree. Each mutation is executed once for each time it is asked.",
  ["inputs", "schedules"], "any set of requests in flight together",
  "Sharing happens only among requests that overlap in time and shows only where they differ in the one detail a key leaves out.",
  ["pipeline/mod.rs", "shared_state.rs", "executor/executors/dedupe.rs", "executor/executors/inflight.rs"],
  [("connection_fingerprint / inbound_request_fingerprint", "pipeline/mod.rs"), ("hash_graphql_value", "pipeline/mod.rs"), ("RouterRequestDedupeHeaderPolicy", "shared_state.rs"), ("Hash for SendRequestOpts", "executor/executors/dedupe.rs")],
  claim={"note": "Verus proves that the streams of tokens hashed into the keys determine all that a request (or fetch) asks, for every request and header policy (hash collisions aside); the compiled router is run end to end with batches of near copies in flight at once."})
P("C14", "A federated answer is that of one service that holds all the data",
  "For every supergraph and operation that the router plans, the response's data is what a single GraphQL service with the merged schema and the union of the subgraphs' data would answer: every field is fetched from a subgraph that owns it, under the conditions of @skip and @include of the operation, each entity fetch asks for the entities that the path reaches, with the key and @requires fields that the subgraph declares, once per different entity, and its results are put back at exactly the places they were asked for; root fields of a mutation are executed in order, each once. Nothing of one entity, list position or alias is shown at another, and every operation sent to a subgraph is valid GraphQL.",
  ["inputs", "configurations"], "any supergraph, operation, variables and data of consistent subgraphs",
  "Plans combine keys, @requires, abstract types, lists and conditions without bound; snapshot tests fix a few plans, and few of them execute one.",
  ["query_planner/", "executor/execution/plan.rs", "executor/utils/traverse.rs", "executor/projection/request.rs", "executor/response/value.rs", "executor/execution/rewrites.rs"],
  [("traverse_and_callback / traverse_and_callback_mut", "executor/utils/traverse.rs"), ("condition_node_by_variables / prepare_fetch_job / process_job_result", "executor/execution/plan.rs"), ("project_requires", "executor/projection/request.rs"), ("hash_with_requires / take_entities", "executor/response/value.rs")],
  claim={"note": "Verus proves the step from a path of the plan to the places of the data (read and put back, errors' paths included), the choice of a condition's branch and the taking of entities, on functions extracted from the source, for all data and paths. That the plan itself, the representations and the rewrites are right is decided by the bounded run only: the compiled router over generated three-subgraph worlds against one executor over all the data."})
P("C15", "Variables reach subgraphs coerced as the specification says, or nothing runs",
  "For every operation, each variable is used as input coercion of the GraphQL specification gives it: the value sent, if any, else the default, else nothing; an explicit null stays null and is refused for a non-null type, as is a missing value without a default; integers are accepted for Int within 32 bits only, for ID within 64 bits and for Float at any size, strings for String and ID, booleans, names of the enum, objects with exactly known fields, each field and list item coerced in its turn, one value where a list is wanted, anything for a custom scalar. If any value does not fit, the request is refused before anything is executed. What a subgraph is sent is that value unchanged and only variables that its operation uses.",
  ["inputs"], "any variable types and any JSON values",
  "Types nest without bound (lists, non-null, input objects) and each pair of type and kind of value has a rule of its own; tests sample a few pairs.",
  ["executor/variables/mod.rs", "pipeline/coerce_variables.rs", "executor/execution/plan.rs"],
  [("validate_runtime_value / collect_variables", "executor/variables/mod.rs"), ("coerce_request_variables", "pipeline/coerce_variables.rs")],
  claim={"note": "Verus proves validate_runtime_value, with its recursion and loops, to accept exactly what input coercion accepts, and collect_variables to pick value, default or absence, on functions extracted from the source, for all types and values. What subgraphs then receive is decided by the bounded run of the compiled router."})
P("C16", "Method and Accept decide what a request may do and how it is answered",
  "A GET never executes a mutation (405), and methods other than GET and POST execute nothing (405). The operation that is executed is the one operationName selects, and none when there is none of that name or several and no name. When the client accepts nothing the router can write, it is refused with 415 and nothing is executed; otherwise the answer is in a format that the client accepts and none the router has for it is more welcome by quality. A subscription runs only if subscriptions are enabled and a stream format is accepted, a query or mutation only if a single answer is accepted; otherwise they are refused before anything is executed. A failure is never answered like a success, except with 200 over application/json or within a stream; what is said of it is about the request and never the text of an internal error.",
  ["inputs", "configurations"], "any method, Accept header, document and operation name",
  "The decision joins method, ranges with qualities, the selected operation and configuration; tests sample a few headers.",
  ["pipeline/header.rs", "pipeline/mod.rs", "pipeline/execution_request.rs", "pipeline/error.rs", "query_planner/ast/normalization/pipeline/drop_unused_operations.rs", "lib/graphql-tools/src/parser/query/error.rs"],
  [("negotiate / ResponseMode", "pipeline/header.rs"), ("checks of graphql_request_handler", "pipeline/mod.rs"), ("decode_or_use_graphql_params", "pipeline/execution_request.rs"), ("default_status_code / graphql_error_message", "pipeline/error.rs"), ("drop_unused_operations", "query_planner/ast/normalization/pipeline/drop_unused_operations.rs"), ("ParseError", "lib/graphql-tools/src/parser/query/error.rs")],
  claim={"note": "Verus proves the negotiation, the handler's conditions on method and mode (lifted out of it), the dispatch on the method, every status and message of an error, and that parse errors own their text, for all requests; Accept matching of the library is an assumed contract. The order of checks and the choice of the operation: bounded run of the compiled router."})
