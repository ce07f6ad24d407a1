#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

# ---------------------------------------------------------------- routing
p("C01", "Every request path resolves to the one route the priority rules select",
  "For every set of registered routes and every request path, the request is handled by the route found by trying, segment by segment, a literal segment first, then a parameter with a custom verb suffix, then a plain parameter, then the wildcard, and backing up to the next alternative whenever a choice leads to no declared route. If no declared route covers the path, the NotFound handlers run and nothing else does. The result does not depend on the order in which routes were registered, nor on earlier requests.",
  ["configurations", "inputs", "histories"], "all route tables (nested or flat, any mix of literal, parameter, custom-verb and wildcard segments), all request paths, all request orders",
  "The route tests pin a few dozen fixed (table, path) pairs; the guarantee is about every table/path combination, in particular those needing backtracking through a literal prefix, which no test samples.",
  ["router.go", "router_util.go"], [("recursive tree match", "router.go route.match"), ("path cleaning", "router_util.go splitRoutePath")],
  ["HTTP status/body returned by Strip.ServeHTTP", "which action ran"])
p("C02", "Route parameters reach handlers and struct actions exactly as in the path",
  "Whenever a route matches, the route information given to handlers holds every parameter of the matched route with exactly the path text it covered (custom verb removed, the rest of the path for a wildcard), keys in path order, plus the route's declared pattern. A struct action receives the parameters positionally, converted to its argument types, and gets the zero value where a parameter is missing or cannot be converted. Parameters of routes that were tried and abandoned during matching never show up.",
  ["configurations", "inputs"], "all matching (route table, path) pairs and all supported action argument types",
  "Tests check a handful of routes with one or two string/int parameters; abandoned alternatives, unusual types and out-of-range text are never sampled.",
  ["router.go", "router_action.go", "app_util.go"], [("parameter list collection", "router.go route.match / paramList.values"), ("positional conversion", "router_action.go callStructFunc, app_util.go convertStringAsType")],
  ["RouteInfo seen by filters and actions", "arguments received by struct actions"])
p("C03", "HTTP method picks exact, then GET-for-HEAD, then All, then Any",
  "On a matched route a request runs the action registered for its method (compared case-insensitively); HEAD falls back to the GET action; then an All handler that can serve the method, then an Any handler; otherwise NotFound. For a struct controller the Go method named after the HTTP method (or chosen explicitly) is invoked with its own argument list, on a fresh copy of the registered controller value. Exactly one action runs per request.",
  ["configurations", "inputs"], "all subsets of method registrations on a route, including custom method names and re-registration, with function and struct controllers of differing action signatures",
  "Tests cover a few registrations with uniform signatures; precedence among exact/HEAD/All/Any and mixed signatures form a combinatorial space.",
  ["router.go", "router_method.go", "router_action.go"], [("method lookup", "router.go routeRoot.handle"), ("struct action dispatch", "router_action.go")],
  ["which action ran and its arguments", "response status"])
p("C04", "Invalid route tables are refused at registration, valid ones never are",
  "Registering sibling parameters or wildcards with different names, a wildcard that is not the last segment, a struct controller lacking the required action, an action name on a function, or a controller that is neither struct nor function always panics at registration time, wherever the declarations are nested and in whatever order or number of calls they are made. Any table free of these conflicts registers without panic and serves every request without a routing panic.",
  ["configurations"], "all route tables, split over any number of Routers calls and nestings",
  "Tests sample four conflicting and a few valid tables.",
  ["router.go", "router_util.go", "router_action.go", "router_method.go"], [("conflict checks", "router.go configRoutes"), ("action existence checks", "router_action.go ensureHasAction")],
  ["panic or not from Routers()", "serving afterwards"])
p("C05", "A request runs exactly the filters its route is configured with, in order",
  "For every nesting of groups, each request runs the application filters, then the filters of each enclosing group from the outside in, then the route's own and the handler's own filters, each distinct filter at most once per level of composition and in declaration order, minus the filters exempted for that group or handler. Filters declared on one route or handler never affect another, however handlers and groups are built from shared pieces. When nothing matches only the application filters and the NotFound filters run.",
  ["configurations", "histories"], "all nestings of Filter/Exempt at application, group, route and handler level, including reuse of one filter or handler value in several places",
  "Tests assert one or two compositions; sharing, aliasing and exempt scoping depend on the whole configuration.",
  ["router.go", "router_filter.go", "router_method.go", "app.go"], [("filter append/remove", "router_filter.go"), ("group inheritance", "router.go configRoutes")],
  ["sequence of filter executions per request"])
p("C06", "The filter chain runs each step once and stops once a response is written",
  "Filters run in order; one that writes a response without delegating stops the chain so that no later filter nor the action runs; one that delegates gets control back after everything after it finished, whatever was written there, and in reverse order of entry. No filter or action runs twice in a request in which every filter delegates at most once, and a step that fails to resolve its dependencies surfaces as a panic rather than being skipped.",
  ["configurations", "inputs"], "all chains of filters at application and route level, each returning, writing before/after, delegating, or failing",
  "Only short fixed chains are tested; the interplay of delegating and writing positions is exponential.",
  ["context.go", "app.go", "router.go"], [("index driven chain", "context.go run/Next")],
  ["trace of enter/leave/action events per request"])
p("C07", "The response writer sends one header, and reports exactly what was sent",
  "Whatever sequence of header, status, write and flush operations handlers perform, the client receives exactly one status line, carrying the status set before the first byte or flush (200 if none), the headers set by then, and all written bytes in order. Registered before-write hooks run exactly once, last registered first, before the header leaves, and their header changes and status changes are sent. The reported status, size and written flag agree with what the client got.",
  ["histories", "inputs"], "all interleavings of Header/WriteHeader/Write/Flush/Before operations across filters and action of a request",
  "No test examines hooks, size or flush; correctness depends on the operation sequence.",
  ["response.go", "app.go"], [("once-guarded header emission", "response.go Write/Flush"), ("final empty write", "app.go ServeHTTP")],
  ["bytes and status at the underlying connection", "Status()/Size()/Written()"])
p("C08", "A panic in a handler becomes a 500 that leaks nothing in production",
  "With the recovery filter installed, a panic of any value at any point of a request never escapes the server: an unwritten response becomes status 500, an already written one is left as sent, and following requests are unaffected. Outside development mode the body reveals nothing of the panic value or stack; in development mode the page shows them, including the place of the panic, with all markup escaped. The panic is logged once on the request's logger.",
  ["inputs", "histories", "configurations"], "all panic values (errors, runtime errors, strings with markup, nil, custom types), all positions, all run modes",
  "No test exercises recovery.",
  ["recovery.go"], [("deferred recover", "recovery.go RecoveryFilter")],
  ["client visible response", "log output", "later requests"])
p("C09", "Concurrent requests never observe each other's state",
  "Any number of requests served concurrently by one application, through any mix of filters, providers, parameter parsing, request logging, compression, response helpers and struct or function actions, each get the response they would have got alone: injected values, route parameters, controller fields, bound parameters and logger identity belong to that request. Serving is free of data races and never crashes on shared maps.",
  ["schedules", "inputs"], "all schedules of concurrent requests over one application",
  "Unit tests send one request at a time and are not run under a race detector.",
  ["app.go", "context.go", "router.go", "router_action.go", "inject/inject.go", "params/params.go", "request-logger/logger.go", "gzip/gzip.go"],
  [("per-request injector and context", "app.go ServeHTTP"), ("fresh controller copy", "router_action.go callStructFunc")],
  ["per-request tokens in responses", "Go race detector reports"])
p("C10", "Request contexts carry cancellation and typed values to every handler",
  "The context given to any filter or action reports the cancellation, deadline and values of the incoming request and of any replacement installed earlier in the chain, and the application's own context can be found from the request. A value stored in a context under a type and optional name is found exactly under that type and name, as last stored, for value and pointer forms alike; other types and names report not found and leave the destination untouched.",
  ["inputs", "histories"], "all chains of context derivations, storing and lookup by type, name and pointer level",
  "One test stores a value and reads it back; isolation between keys and propagation through the filter chain is not covered.",
  ["context.go", "app.go", "utils/context.go", "request-logger/logger.go"], [("typed key derivation", "utils/context.go"), ("context wrapping", "app.go ServeHTTP, context.go")],
  ["context methods inside handlers", "CtxFindValue results"])
# ---------------------------------------------------------------- injector
p("C11", "Injection resolves by type and name in the nearest scope that provides it",
  "A lookup by type and name yields the value of the most recent registration for that type and name in the nearest injector on the parent chain, in value or pointer form as asked, and an error leaving the destination untouched if there is none or its value cannot be assigned. Registering, overriding or caching in a child is invisible to its parent and siblings, and resolving a parent's provider from a child uses the child's overrides of its dependencies.",
  ["histories", "configurations"], "all sequences of Provide/ProvideAs/SetParent/Find over trees of injectors",
  "Tests use one or two injectors with one or two providers; shadowing and interleaving are not explored.",
  ["inject/inject.go", "inject/inject_provider.go"], [("name keyed lookup with parent fallback", "inject/inject.go get/Find"), ("assignment", "inject/inject.go assignValue")],
  ["Find/Exists results"])
p("C12", "Providers run once per injector and an invoked function runs exactly once",
  "In one injector a provider function runs at most once between registrations of its type and name, and everything that depends on it there sees that same result; a new registration is never answered with the old result. Invoking a function always calls exactly that function exactly once with resolved arguments and returns its results, whatever its result types are, and changes nothing about what is registered or cached.",
  ["histories"], "all sequences of Provide, Find, Apply and Invoke on an injector tree, with function providers of arbitrary dependency graphs",
  "Tests check one cached provider; interaction between Invoke result types and cached providers is not tested.",
  ["inject/inject.go", "inject/inject_provider.go"], [("per-injector cache", "inject/inject_provider.go invoke"), ("cache invalidation", "inject/inject.go ProvideAs/Invoke")],
  ["provider call counts", "identity of results"])
p("C13", "Missing or circular dependencies are reported as errors, never as a crash",
  "Find, Apply and Invoke return an error, and do not call the target, when any transitive dependency is missing, of an unusable type or circular, for every dependency graph over any injector tree and regardless of what was resolved earlier. They never panic, recurse without bound or return a partial result because of the dependency graph, and they succeed on every complete acyclic graph, including shared (diamond) dependencies.",
  ["configurations", "histories"], "all dependency graphs across parent/child injectors, in all resolution orders",
  "One test has a two-node cycle in a fresh injector; cycles closed through overrides after a successful resolution are not tested.",
  ["inject/inject.go", "inject/inject_provider.go"], [("in-progress tracking", "inject/inject_provider.go invoke")],
  ["returned errors", "provider call counts", "process survival"])
p("C14", "Apply fills exactly the tagged fields of a struct",
  "Applying an injector to a struct sets every settable field tagged for injection to the resolved value for its type and tag name, in value or pointer form, also in nested and embedded structs down to the documented depth, and returns an error when one cannot be resolved or assigned. Untagged, excluded and unexported fields keep their values.",
  ["inputs", "configurations"], "all struct shapes and provider sets",
  "Tests apply to three fixed structs.",
  ["inject/inject.go"], [("recursive field walk", "inject/inject.go apply")],
  ["struct contents after Apply"])
# ---------------------------------------------------------------- params
p("C15", "Binding request parameters never crashes nor exhausts resources",
  "For every set of client supplied parameter names, values and files and every bindable destination type, binding terminates without panic and without allocating more than proportionally to the size of the request. Malformed names and values leave zero values.",
  ["inputs"], "all parameter maps (hostile indexes, brackets, nesting, JSON text, empty lists) and destination types (scalars, slices, maps, structs, pointers, embedded pointers, times, files)",
  "Tests bind a few well formed values; the input space is attacker controlled.",
  ["params/binder.go", "params/params.go"], [("bracket/index parsing", "params/binder.go bindSlice"), ("field and map binding", "params/binder.go bindStruct/bindMap")],
  ["panics", "allocated bytes", "results"])
p("C16", "Bound values equal what the client sent, or zero, never something else",
  "Binding a scalar yields the exact value denoted by the parameter's first text, or the zero value if it is not representable in the destination type, never a wrapped or truncated number. Slices keep indexed elements at their index and append unindexed ones in order, maps hold exactly the given entries, structs exactly the named exported fields with everything else left zero, pointers are nil exactly when absent, and times follow the documented formats and those the application added. A binder an application registers for a type or kind is used wherever that type or kind occurs, types before kinds.",
  ["inputs"], "all values of all supported kinds and container nestings, in every textual form",
  "Existing tests check a few decimal values; range limits and containers are unsampled.",
  ["params/binder.go", "params/params.go"], [("kind and type binders", "params/binder.go")],
  ["bound Go values"])
p("C17", "The unified parameter view is exactly query plus route plus body",
  "For each request the query, route and form views hold exactly the parameters of the URL query, the matched route and the request body respectively, and the unified view holds for each name the query values, then the route values, then the body values, with nothing lost, duplicated or added. This holds for every method and content type (an urlencoded body counts on POST, PUT and PATCH, a multipart body on every method), for malformed input without failing the request, and for concurrent requests.",
  ["inputs", "schedules"], "all combinations of query, route and urlencoded/multipart body parameters; all schedules of concurrent parsing",
  "No stable test drives the parser over HTTP.",
  ["params/params.go"], [("body parsing and merge", "params/params.go ParseParams/calcValues")],
  ["Params.Query/Route/Form/Values in handlers", "race detector"])
p("C18", "Uploaded files stay readable during the request and leave nothing behind",
  "Every uploaded file, whatever its size relative to the memory limit, can be opened and read with exactly the uploaded bytes, name and field by any handler until the request ends. After the request has ended, normally or by panic, no temporary file created for it remains.",
  ["inputs", "histories"], "all multipart uploads, memory limits and request outcomes",
  "No test uploads a file.",
  ["params/params.go", "app.go"], [("multipart parse and cleanup", "params/params.go ParamsParser, app.go ServeHTTP")],
  ["bytes read by handlers", "files left in the temporary directory"])
p("C19", "Client address, host, scheme and URL are derived from the request faithfully",
  "The real IP, host, protocol, URI and URL reported for a request equal the forwarded values when the forwarding headers are present and the connection's own otherwise, with ports stripped, for host names, IPv4 and IPv6 alike. The request itself is never modified.",
  ["inputs"], "all combinations of forwarding headers, remote addresses and hosts in every address family and spelling",
  "One test samples three IPv4 cases of the logger's variant.",
  ["params/real.go", "request-logger/logger.go"], [("header precedence and port stripping", "params/real.go, request-logger/logger.go realIp")],
  ["returned strings", "REQ_BEG log line"])
# ---------------------------------------------------------------- config
p("C20", "INI text is read back faithfully and malformed text is refused",
  "For every INI text made of sections, comments, blank lines, plain and quoted keys and values, with either separator, line ending, byte order mark or missing final newline, each key reads back the value written for its last assignment in its section and nothing else exists. Lines that are not valid INI make loading fail instead of being dropped or misread; numbering of unnamed keys restarts in each section.",
  ["inputs"], "all INI texts",
  "The parser's tests need files that are missing, so nothing covers it.",
  ["config/config.go"], [("line parser", "config/config.go loadFromReader")],
  ["Find/ListSection after loading", "load errors"])
p("C21", "Configuration lookup follows environment, own file, parent, then default",
  "A lookup returns the environment override if set, otherwise the value of the most specific layer that defines it, otherwise of its parents in order, otherwise the caller's default, for every key with or without a section. Loading a directory set layers default, application, override and additional files by documented precedence, later ones winning, with mode specific files over general ones, missing files changing nothing, and the global configuration counting only where there is no file. Listing a section returns an independent copy of that layer's entries.",
  ["configurations", "histories"], "all stacks of layers, environments, run modes and file presence patterns",
  "The tests cover at most one parent and need missing files.",
  ["config/config.go", "config.go", "utils/helpers/config.go"], [("layered Find", "config/config.go Find"), ("file ordering", "utils/helpers/config.go LoadConfigFiles")],
  ["Find results", "decoded environment structs"])
p("C22", "Typed configuration gets exactly the configured values and keeps the rest",
  "Binding or decoding a configuration into typed variables and tagged structs sets each one to the exact value configured for its name (nested sections included), or the zero value where the text is not valid for the type, and leaves destinations without configured value, excluded or untagged untouched. No destination type or text makes it panic.",
  ["inputs", "configurations"], "all supported destination types, struct shapes and texts",
  "Tests bind four scalar values.",
  ["config.go", "config/config_parse.go", "app_util.go"], [("string conversion", "app_util.go convertStringAsType"), ("struct walk", "config/config_parse.go")],
  ["destination values"])
# ---------------------------------------------------------------- conversions
p("C23", "Text conversions round-trip and reject what does not fit",
  "Converting any supported value to text and back through the conversion helpers yields the same value, and parsing text into a sized type succeeds exactly when the text denotes a value of that type, otherwise reporting an error (where a helper has no error: a zero value for text that denotes none, possibly the nearest limit for numbers out of range). No input makes a conversion panic.",
  ["inputs"], "all values of all supported kinds and all texts",
  "No test covers the converters; boundary values are where they break.",
  ["app_util.go", "utils/converter.go", "utils/converter_value_to.go"], [("StrTo/ToStr/Value converters", "app_util.go, utils/converter.go, utils/converter_value_to.go")],
  ["conversion results and errors"])
p("C24", "Number codes decode back and random strings use the whole given alphabet",
  "Encoding a non-negative decimal number over an alphabet of two or more distinct bytes and decoding it returns the number, and distinct numbers get distinct codes. Random strings have exactly the requested length, use only and all of the given alphabet's bytes, and are not repeated; list flags hold exactly the comma separated, trimmed, non-empty items given, in order, and uniqueness keeps first occurrences.",
  ["inputs"], "all numbers, alphabets, lengths and list texts",
  "No stable test covers these helpers.",
  ["utils/rand.go", "utils/helpers/config.go"], [("positional encoding", "utils/rand.go"), ("list parsing", "utils/helpers/config.go SliceValue")],
  ["helper results"])
# ---------------------------------------------------------------- middleware
p("C25", "Compression is transparent: decoded responses equal uncompressed ones",
  "For every response and client, the status, headers and body after decoding by the announced content encoding are what the same request yields without the compression filter, including empty responses, errors, panics, flushes and filters in any order. Compression is announced if and only if the body is a complete compressed stream, only to clients accepting it, with no stale length, and with existing cache variation preserved. Complete bodies for accepting clients are compressed unless already encoded, partial or not allowed by the status.",
  ["inputs", "configurations", "histories"], "all Accept-Encoding values, response shapes, write patterns and positions of the filter among recovery, result rendering and logging",
  "Two tests check one compressed string; nothing covers empty, error or reordered chains.",
  ["gzip/gzip.go"], [("wrapping response writer", "gzip/gzip.go")],
  ["raw client response", "response of the same app without the filter"])
p("C26", "Static serving never exposes or redirects outside its directory",
  "Whatever the request path, prefix, options and host of the request, content served by the static filter is the exact content of a regular file inside the configured directory selected by the cleaned path below the prefix (or its index file or fallback). It never serves bytes of a file outside that directory reached through the path, and directory redirects always stay on the same host and only add the slash.",
  ["inputs", "configurations"], "all request paths (dot segments, encodings, duplicate slashes, backslashes, NULs), prefixes and options",
  "One test checks a single wrong path.",
  ["static-serve/static.go"], [("prefix stripping and http.Dir", "static-serve/static.go ServeFilter")],
  ["served bytes", "Location header"])
p("C27", "Static serving answers what is its own and delegates everything else",
  "Requests with another method (unless any method is enabled), outside the prefix at a segment boundary, or under a skipped prefix continue down the chain untouched; everything else gets the file, its directory index, the configured fallback content or a 404, supporting HEAD, ranges and conditional requests. No open file is left behind by any request.",
  ["inputs", "configurations", "histories"], "all methods, prefixes, skip lists, fallbacks and file trees, over any number of requests",
  "The only directory tests need files that are missing.",
  ["static-serve/static.go"], [("delegation rules", "static-serve/static.go ServeFilter")],
  ["response and whether later handlers ran", "open descriptors of the process"])
p("C28", "Each request has one id, shared by its log lines and its response",
  "Every request gets one request id: the client's when it is of acceptable length, otherwise a fresh one never given to another request; it appears in the response header, in the request seen by handlers and on every line logged through that request's logger. Each completed request logs exactly one begin and one end line, the latter with the status and size actually sent, under any concurrency.",
  ["schedules", "inputs"], "all request headers, handler behaviours and schedules of concurrent requests",
  "One test checks the address helper only.",
  ["request-logger/logger.go", "request-logger/reqid.go", "log.go"], [("per-request logger", "request-logger/logger.go ReqLoggerFilter"), ("id generation", "request-logger/reqid.go NewReqId")],
  ["log lines", "X-Reqid headers"])
p("C29", "Loggers emit exactly the messages their level allows, one record each",
  "A logging call is emitted exactly when its severity is within both the logger's and the global level, as one record carrying its level tag, prefix and full message; in flat mode a record is a single line. Recovering a function reports exactly its panic and logs it at the requested level with a stack showing its place and source text, and setting options never changes other loggers. The global logger logs where a context has no logger of its own and, once chosen, for an application and its handlers.",
  ["inputs", "configurations"], "all levels, option combinations, prefixes and messages",
  "No test covers the logger.",
  ["log.go"], [("level check and formatting", "log.go write/print")],
  ["records passed to the printer"])
p("C30", "What an action returns is what the client receives",
  "With result rendering enabled, an action's returned value is sent with its body and status for every documented result shape (string, bytes, reader, status code, body with status, handler, API result or error, raw body), bodies streamed completely and closers closed. API results are JSON with their status and content type, other results leave the headers alone; nil results and already written responses are left alone.",
  ["inputs", "configurations"], "all documented result shapes, statuses and body contents, in all run modes",
  "One test covers a function returning a struct result; string and reader results are never executed.",
  ["router_action_out.go", "utils/apires/res.go", "utils/apires/raw.go", "utils/apires/error.go"], [("output filter", "router_action_out.go GenericOutFilter"), ("API results", "utils/apires")],
  ["client visible response"])
p("C31", "Shared API results and errors are never changed by using them",
  "A predefined API result or error can be returned by any number of concurrent requests and specialised with messages or data any number of times: every use renders its own status, code, message and data, and the shared value renders as before. Deriving and rendering are free of data races, and equality and status queries agree with what is rendered.",
  ["schedules", "histories"], "all sequences and schedules of derivation and rendering of shared values",
  "No test covers these values.",
  ["utils/apires/error.go", "utils/apires/res.go", "utils/apires/raw.go"], [("copy on derive", "utils/apires/error.go WithData/WithMsg"), ("rendering", "utils/apires/res.go Write")],
  ["rendered responses", "race detector"])
# ---------------------------------------------------------------- sessions
p("C32", "Signed values round-trip and nothing else is ever accepted",
  "A value signed with a key and time decodes under that key to exactly that value and time. No text that was not produced by signing with that key is accepted: any alteration of value, time, signature or key, any splice of parts of issued values, is rejected. Decoding never panics.",
  ["inputs", "histories"], "all values, times and keys; all tampered, spliced and random texts",
  "A few tests tamper one character; the adversary's choices are unbounded.",
  ["sessions/utils.go"], [("keyed hash over value and time", "sessions/utils.go EncodeSecureValue/DecodeSecureValue")],
  ["decode result of genuine and forged texts"])
p("C33", "A remember-me cookie authenticates only its user, salt and lifetime",
  "A remember-me cookie is recognised and validated exactly when it was issued by this service for that user with that salt and has not expired; it yields the same user and proof it was issued with. Cookies of other users, salts, keys, of the session, expired or altered ones are refused, and destroying it removes it from the client.",
  ["inputs", "histories"], "all users, salts and histories of issuing, altering, expiring and swapping cookies",
  "The session tests need live databases and do not run.",
  ["sessions/remember.go", "sessions/utils.go"], [("double signed cookie", "sessions/remember.go")],
  ["HasRemember/ValidRemember results", "Set-Cookie headers"])
p("C34", "Session data follows the session across requests and dies with it",
  "Over every sequence of requests by any clients, a session started with a cookie sees exactly the data last saved under that session, new clients get fresh unique ids that cannot be guessed, and no client sees another's data. Regenerating moves the data to a new id and makes the old id unusable; destroying removes data and cookie; forged, altered or expired cookies start empty under a new id. Cookies carry the configured name, domain, lifetime and protection flags.",
  ["histories", "inputs"], "all histories of start, set, delete, clean, save, regenerate, destroy and expiry over multiple clients, on each storage backend",
  "The session tests need live databases and do not run.",
  ["sessions/manager.go", "sessions/provider.go", "sessions/provider_memcache.go", "sessions/provider_redis.go", "sessions/provider_mgo.go", "sessions/store_dummy.go"], [("cookie to store mapping", "sessions/manager.go"), ("store persistence", "sessions/provider.go")],
  ["session contents per request", "backend contents", "Set-Cookie headers"])
p("C35", "Backend failures surface as errors without losing or resurrecting sessions",
  "When the session backend fails at any operation, the session call reports an error and does not panic; unsaved changes stay pending so that a later save succeeds, and an id reported as replaced is never left usable without an error; a failed destroy still takes the cookie from the client. After the backend recovers, sessions hold exactly the data whose saving was acknowledged or retried.",
  ["fault_sequences", "histories"], "all positions of backend failures within all session operation sequences",
  "No test injects a backend failure.",
  ["sessions/manager.go", "sessions/provider.go"], [("error propagation", "sessions/manager.go Regenerate/Start"), ("dirty flag", "sessions/provider.go Flush")],
  ["errors returned", "data after recovery"])
# ---------------------------------------------------------------- caches
p("C36", "Every cache backend behaves as one map with expiry times",
  "On each backend, any sequence of set, get, has, touch, delete, increment, decrement, clean and garbage collection behaves like a map from prefixed key to value with expiry: values read back as written, gone at but not before their lifetime (default when none is given, never when negative), misses reported as such everywhere. Keys with other prefixes are not read or changed except by cleaning, other databases never. Every operation gives its connection back, whatever its outcome.",
  ["histories", "inputs"], "all operation sequences, values and lifetimes on memcached, redis and mongo backends",
  "The cache tests need live databases and do not run.",
  ["caches/caches.go", "caches/provider_memcache.go", "caches/provider_redis.go", "caches/provider_mgo.go"], [("timeout mapping", "caches/caches.go"), ("backend commands", "caches/provider_*.go")],
  ["results per operation against a reference model", "commands on the wire"])
p("C37", "Concurrent cache operations are atomic: no update is lost",
  "Concurrent sets, reads, deletes, increments and decrements of a key by any number of clients on one provider behave as some sequential order of them; in particular counters end at their start plus all acknowledged increments minus all acknowledged decrements. Providers may be shared between goroutines without data races.",
  ["schedules", "histories"], "all schedules of concurrent clients on shared keys",
  "No test runs concurrent clients.",
  ["caches/provider_memcache.go", "caches/provider_redis.go", "caches/provider_mgo.go"], [("server side atomic commands", "caches/provider_*.go Incr/Decr")],
  ["recorded operation histories", "final counter values"])
# ---------------------------------------------------------------- worker
p("C38", "A worker runs every accepted task once, within its limit, before Wait returns",
  "Tasks given to an open worker each run exactly once, as many at a time as its limit allows and never more, and Wait returns only after all tasks given before it have finished; the worker can be reused afterwards. This holds for tasks given by many goroutines, and by running tasks while a slot is free, without deadlock or data race.",
  ["schedules"], "all schedules of submitters, tasks and waiters, all limits",
  "Three tests run one submitter with trivial tasks.",
  ["utils/worker.go"], [("slot channel and wait group", "utils/worker.go")],
  ["task start/end events", "Wait returns"])
p("C39", "A failing task stops the worker and its error is always reported",
  "When a task returns an error, the next Wait reports the first such error, every time and under every schedule, and no task given after the error took effect or after Close runs, while tasks already accepted finish. Wait without errors reports none, and closing twice or closing while tasks run is harmless.",
  ["schedules", "fault_sequences"], "all schedules and positions of failing tasks and Close calls",
  "One test has all tasks failing and asserts any error appears.",
  ["utils/worker.go"], [("error capture and close", "utils/worker.go run/close")],
  ["errors returned by Wait", "task executions after close"])

# ---------------------------------------------------------------- resources and live connections
p("C40", "Serving leaves nothing behind",
  "After a request has ended, however (normally, by panic, unmatched, aborted, client gone, connection taken over), no goroutine, open file, connection, temporary file or memory kept for it remains, so that any number of requests, no two alike, is served in bounded resources; readers returned by actions are closed. Likewise for loaded configuration files, and for workers once Wait has returned.",
  ["histories", "inputs", "fault_sequences"], "all sequences of distinct requests through all filters, ending in every possible way",
  "No test looks at resources; a leak needs many distinct requests or a rare way to end to show.",
  ["app.go", "router_action_out.go", "static-serve/static.go", "request-logger/logger.go", "config/config.go", "inject/inject.go"],
  [("removal of temporary files", "app.go removeMultipart"), ("closed files", "static-serve/static.go, config/config.go loadFile"), ("per-request injector", "app.go ServeHTTP")],
  ["heap in use between equal loads", "open files and goroutines after a server stopped", "temporary directory", "Close calls on returned readers"])
p("C41", "Streams, uploads, departures and taken-over connections pass all filters",
  "On a live connection, behind any filters: what a handler flushes reaches the client at once, decodable; request bodies reach handlers as they arrive, and clients waiting to be told to continue are told only when the body is read; when the client leaves, and not before, every context and close notification of the request says so; and a connection taken over carries, in both directions, exactly what the handler and the client send, during and after the handler, whatever filters, results or panics follow.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of client and handler steps over HTTP/1.0, 1.1 and 2 and all orders of filters",
  "Tests use recorders and complete requests; nothing runs over a connection.",
  ["response.go", "gzip/gzip.go", "context.go", "app.go"],
  [("passing on Flush, Hijack, CloseNotify", "response.go, gzip/gzip.go"), ("context chain", "app.go ServeHTTP, context.go ReplaceContext")],
  ["bytes at the client between handler steps", "contexts and notifications around the departure", "bytes on the taken-over connection"])

p("C42", "Set-up refuses what cannot work beyond routes, and nothing that can",
  "Setting up fails at once (a panic), wherever and whenever it happens, for: filters and exemptions, of routes, applications and NotFound, that are neither functions nor providers; providers that are neither functions nor non-nil pointers, or empty; session managers without a secret key; static filters without a directory; unknown classic options; and destinations of Find, Exists, Decode, Bind and the context helpers that cannot receive a value. Filters, providers, options and destinations without such a mistake are never refused.",
  ["configurations", "inputs"], "all route declarations with and without an unusable filter, and all usable and unusable arguments of the listed set-up functions",
  "Tests trigger a few of the refusals with one wrong value each; what is wrongly accepted shows only when requests arrive.",
  ["router_filter.go", "inject/inject_provider.go", "inject/inject.go", "static-serve/static.go", "sessions/manager.go", "utils/context.go", "utils/helpers/filters.go", "config/config_parse.go", "params/params.go", "config.go"],
  [("kinds", "router_filter.go makeFilter, inject/inject_provider.go newProvider"), ("destinations", "inject/inject.go, params/params.go, config.go, config/config_parse.go, utils/context.go")],
  ["panic or return of each set-up call"])

p("C43", "Applications in one process stay separate",
  "Any number of applications may live in one process, be made of the same filter, handler, controller, provider, configuration and NotFound values, take over each other's filters and serve as handlers of each other, at the same time: each answers every request exactly as an application of the same declarations would if it were the only one, and logs only to its own logger. Filters taken over are those of that moment; what either application declares later concerns it alone.",
  ["configurations", "histories", "schedules"], "all sets of applications over shared values, all histories of declarations, replacements and requests, all schedules of requests to them",
  "Tests make one application at a time; what leaks through shared slices or package variables shows only beside another application.",
  ["app.go", "app_util.go", "router.go", "router_filter.go", "router_method.go", "recovery.go", "inject/inject.go"],
  [("filter lists", "app.go Filter, app_util.go ReplaceFilters, router_filter.go append"), ("scopes", "app.go ServeHTTP, inject/inject.go SetParent")],
  ["answers (status, headers, body), steps run and what they see, log lines of every application"])

p("C44", "Run serves at the configured address until its server ends, and says why",
  "New takes address, port, mode and path from the environment (127.0.0.1, 3000, prod and the working directory when undefined), ImportConfig overrides with what the configuration defines, and fields set afterwards win. Run listens at exactly that address, serves the application through its Server with all of the Server's settings, says in the log where and in which mode (without colors outside dev), and returns only when it can not listen or the server was closed or shut down, with the reason, which it also logs; requests on their way are completed by a shutdown.",
  ["configurations", "fault_sequences"], "all combinations of environment, configuration and fields, all ways to end, all unusable addresses",
  "Tests never start a server.",
  ["app.go", "config.go"], [("settings", "config.go newConfig, app.go ImportConfig"), ("serving", "app.go Run")],
  ["fields of Config", "answers over connections to the address and to others", "what Run returns and logs, and when"])

p("C45", "Assertions stop a test exactly when they do not hold, and point at it",
  "NoError, Nil, NotNil, True and False of Assert let a test go on when they hold, silently, and otherwise fail that test at once, with its clean-up, naming the file and line of the assertion; for all errors (also typed nil ones, which are errors) and for nil and other values of all kinds.",
  ["inputs"], "all sequences of assertions over errors, truths and values of all kinds",
  "The assertions are the tests' own tool; one that never fails hides every defect.",
  ["assert.go", "app_util.go"], [("verdicts", "assert.go"), ("position", "assert.go callerInfo")],
  ["outcome of real tests run by the testing package, how far they get, their output"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
