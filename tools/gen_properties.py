#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Keep in step with MANIFEST.json (tools/gen_manifest.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "JSON values survive serialisation and parsing unchanged",
  "Any JSON value built through the API or parsed from valid JSON text, when serialised and parsed back, is the same value: same structure, same strings byte for byte, same numbers, same booleans, nulls, array order and object members. Parsing a valid JSON text yields exactly the value that text denotes, however it is written (whitespace, escapes, number notation, member order). Editing a value (setting, replacing or deleting object members, appending array items) changes that value only.",
  ["inputs", "histories"], "every JSON value up to the nesting limit, every spelling of it, and every sequence of edits",
  "the JSON tests check about a dozen literals; escapes, number formats, big objects (hash growth), nesting and edit histories are unbounded",
  ["src/json/mcp_json.c", "src/json/mcp_json_parser.c", "src/json/mcp_json_stringifier.c", "src/common/mcp_hashtable.c"],
  [("recursive parser", "src/json/mcp_json_parser.c"), ("stringifier", "src/json/mcp_json_stringifier.c"), ("node API", "src/json/mcp_json.c")])

p("P02", "Malformed JSON text is rejected and hostile text never crashes the parser",
  "Text that is not JSON - truncated, unbalanced, missing or extra separators, unterminated strings, bad escapes, misspelt literals, broken numbers, trailing garbage - is rejected rather than read as some value. Documents nested deeper than the fixed limit of one hundred levels are rejected, documents within it are accepted. No byte string makes the parser crash, hang or read outside its input.",
  ["inputs"], "every byte string, in particular every small corruption of a valid document",
  "the tests try a handful of invalid literals; the space of malformed inputs is unbounded",
  ["src/json/mcp_json_parser.c", "src/json/mcp_json.c"],
  [("grammar checks and depth counter", "src/json/mcp_json_parser.c")])

p("P03", "JSON-RPC messages keep kind, id, method and content through encode/decode",
  "A JSON-RPC request, notification, response or error that is encoded by the library and decoded again has the same kind, id, method name, parameters, result, error code and error message, whatever characters they contain. In a batch every element is decoded as it would be alone, at its own position, and an element that is not a valid message is marked invalid without losing or altering any other element.",
  ["inputs"], "all messages (ids, method and message strings, arbitrary JSON payloads) and all batches mixing valid and invalid elements",
  "tests decode a few fixed messages and one batch shape; id range, string escaping and mixed batches are unbounded",
  ["src/json/mcp_json_message.c", "src/json/mcp_json_rpc.c", "src/json/mcp_json_parse_direct.c", "src/common/mcp_string_utils.c"],
  [("message parse and stringify", "src/json/mcp_json_message.c"), ("request/response formatting and response parsing", "src/json/mcp_json_rpc.c")])

p("P04", "Every request is answered exactly once, with its own id and outcome",
  "For every incoming message the server produces exactly one response per request in it, carrying that request's id, in request order for a batch, and none for notifications; a message made only of notifications gets no response at all. An unknown method, missing or wrong parameters, a disabled capability and unparseable text each yield the corresponding JSON-RPC error code. Arbitrary bytes never crash the server and never stop it from answering the next request.",
  ["inputs", "histories"], "all message histories: single, batch, notification, malformed and hostile messages in any order",
  "the dispatch tests are not in the stable suite and exercise single fixed requests",
  ["src/server/mcp_server_dispatch.c", "src/server/mcp_server_handlers.c", "src/server/mcp_server_response.c", "src/server/mcp_server_task.c"],
  [("message dispatch", "src/server/mcp_server_dispatch.c"), ("method handlers", "src/server/mcp_server_handlers.c"), ("response builders", "src/server/mcp_server_response.c")])

p("P05", "No operation is performed for a caller without the configured API key",
  "When an API key is configured, no listing, resource read, tool call or other operation is performed, and no data is returned, for a message that does not carry exactly that key - whatever the shape of the message, including batches and batches that start with a harmless ping. A message carrying the right key is served, and without a configured key everyone is served. An expired identity is refused.",
  ["inputs", "configurations"], "all keys (prefixes, case variants, longer and shorter strings), all message and batch shapes",
  "no test sends a keyed batch or a near-miss key",
  ["src/server/mcp_auth.c", "src/server/mcp_server_dispatch.c"],
  [("credential verification", "src/server/mcp_auth.c"), ("authentication before dispatch", "src/server/mcp_server_dispatch.c")])

p("P06", "Permission patterns bound exactly what an identity may read or call",
  "An identity may read a resource or call a tool exactly when one of its allowed patterns matches: a pattern without a trailing star matches only the identical name, a pattern ending in a star matches every name with that prefix, and a lone star matches everything. With no matching pattern, or once the identity has expired, access is denied, independently for resources and tools.",
  ["inputs", "configurations"], "all pattern lists and all resource or tool names",
  "there is no test of the permission functions",
  ["src/server/mcp_auth.c"],
  [("pattern matching and expiry", "src/server/mcp_auth.c")])

p("P07", "Clients see exactly what the server registered, with content unaltered",
  "A client connected to a server lists exactly the resources, resource templates and tools that were registered, with their names, URIs, MIME types and descriptions intact. A tool call hands the tool exactly the arguments the client sent and the client receives exactly the content and error flag the tool produced; a resource read returns exactly the text the resource produced, through the cache or not. This holds for any printable or Unicode text, including quotes, backslashes and control characters.",
  ["inputs", "histories"], "all registries, all names/descriptions/contents, all call sequences",
  "tests use fixed ASCII names and one content item",
  ["src/server/mcp_server.c", "src/server/mcp_server_handlers.c", "src/client/mcp_client_api.c", "src/json/mcp_json_rpc.c", "src/json/mcp_json_parse_direct.c"],
  [("registries", "src/server/mcp_server.c"), ("list/read/call handlers", "src/server/mcp_server_handlers.c"), ("client decoding", "src/json/mcp_json_rpc.c")])

p("P08", "The resource cache returns the latest stored, unexpired content for a key",
  "Looking up a URI in the resource cache returns exactly the content most recently stored for that URI, and nothing once that content has expired, been invalidated or never been stored; content of another URI is never returned. The number of cached entries never exceeds the configured capacity, an entry only disappears early to make room, and the entry chosen is the one that has gone longest without use. Entries stored without expiry never expire.",
  ["histories", "schedules"], "all sequences of store, lookup, invalidate, prune and clock advance, and concurrent use",
  "tests use short fixed sequences and real sleeps",
  ["src/server/mcp_cache.c", "src/common/mcp_hashtable.c"],
  [("TTL and LRU eviction", "src/server/mcp_cache.c")])

p("P09", "Per-client request rate never exceeds the configured limit",
  "Within each time window a client is allowed exactly up to the configured number of requests and refused beyond it, a new window restores the full allowance, and one client's traffic never consumes another's allowance. This holds for any number of clients, any request times and concurrent requests. A server applies the limiter and the limits it was configured with, and refuses a message over the limit without processing it.",
  ["histories", "schedules"], "all request histories over clients and clock values, and all interleavings of concurrent checks",
  "tests use two clients, one window and real sleeps",
  ["src/server/mcp_rate_limiter.c", "src/server/mcp_server_task.c"],
  [("fixed-window counters in a hash table", "src/server/mcp_rate_limiter.c")])

p("P10", "Advanced rate-limit rules admit exactly what their algorithm allows",
  "A caller is identified by an API key, user, address or custom key, considered in that order; for each the highest-priority rule whose pattern fits (exact, prefix, suffix or containment wildcards, or none) decides, the request is admitted as soon as one of them admits it, and refused otherwise. Fixed-window, sliding-window, token-bucket and leaky-bucket rules each admit, separately per caller key, exactly the requests their configured limits allow over time, also under concurrent checks. Adding or removing a rule takes effect for subsequent checks, also of callers seen before, and the reported counts equal what was admitted and refused.",
  ["histories", "schedules", "configurations"], "all rule sets, request histories and clock advances; all interleavings of concurrent checks",
  "tests use one rule at a time with a handful of requests",
  ["src/server/mcp_advanced_rate_limiter.c"],
  [("rule selection and the four algorithms", "src/server/mcp_advanced_rate_limiter.c")])

p("P11", "URI templates expand, match and extract consistently",
  "Expanding a URI template with parameter values gives the literal text with each placeholder replaced by its value (or default, or nothing when optional and absent), and fails when a required value is missing or a value violates the placeholder's declared type or pattern. A URI produced by expansion matches the template, and extraction gives back the (typed) parameter values that produced it, as long as no value contains the literal text that follows its placeholder. A URI whose literal text differs, that has text left over, that lacks a required value, or whose value violates the placeholder's declared type, range, length or pattern does not match, and matching and extraction always agree.",
  ["inputs"], "all templates in the supported syntax and all URIs, matching and near-matching",
  "tests check a few fixed templates",
  ["src/common/mcp_template.c"],
  [("expand, match, extract, validate", "src/common/mcp_template.c")])

p("P12", "The cached template matcher gives the same answers as the plain one",
  "For every template and URI, the optimised (precompiled and cached) matching and parameter extraction give the same verdict and the same parameters as the plain implementation, regardless of what was matched before, how many templates have been seen, cache evictions, or other threads using the cache.",
  ["inputs", "histories"], "all (template, URI) pairs and all histories of earlier lookups",
  "tests compare nothing across the two implementations and never overflow the cache",
  ["src/common/mcp_template_optimized.c", "src/common/mcp_template.c"],
  [("compiled template cache", "src/common/mcp_template_optimized.c")])

p("P13", "Template access lists and validators are enforced on every access",
  "A caller with a role is granted access to a template only if the template's access list, however and in however many steps it was built, names that role or \"*\" (a template with rules but no listed roles is open to every role, one without any rules to none), and access is granted and parameters are accepted only if the validator registered for that template - or the default one when it has none - accepts exactly those parameters. Rules of one template never apply to another. When a resource read is addressed through a registered template, only the latest handler of a template the URI fits runs, once, and only after that template's validator accepted the parameters in the URI; a rejected read is answered with an error and reaches no handler.",
  ["inputs", "configurations", "histories"], "all registrations of templates, access lists and validators, and all accesses",
  "the template security tests are not in the stable suite and cover one role and one validator",
  ["src/server/mcp_template_security.c", "src/server/mcp_server_template_security.c", "src/server/mcp_server_template_router.c"],
  [("access list and validator lookup", "src/server/mcp_template_security.c"), ("template routing", "src/server/mcp_server_template_router.c")])

p("P14", "Length-framed messages survive any segmentation of the byte stream",
  "Any sequence of messages written with the framing layer - singly, as scattered buffers or in batches, even when the socket accepts only part at a time - is read back as the same messages, same bytes, same order, whatever pieces the bytes arrive in. A frame announcing more than the allowed size, a stream that ends inside a frame and a closed peer are reported as errors and never yield a message. A wait for a socket ends as soon as there is something to read, the peer is gone or the stop flag is set, and otherwise after the time given, not before.",
  ["inputs", "schedules", "fault_sequences"], "all message sequences, all ways of cutting the stream and of accepting partial writes",
  "there is no framing test; transport tests use whole small messages",
  ["src/common/mcp_framing.c", "src/common/mcp_socket_utils.c"],
  [("length prefix", "src/common/mcp_framing.c"), ("exact send/receive and vectored send", "src/common/mcp_socket_utils.c")])

p("P15", "A TCP server answers every connection's messages, in order, to that connection",
  "Each message a TCP client sends reaches the message handler exactly once and unaltered, and the handler's reply is delivered to that same connection, in order, however the bytes are segmented and however many clients are connected. A client that sends an invalid frame or disconnects half-way through a message affects no other client, and its partial message is never delivered. Stopping the transport ends all its connections and returns, and the handler is not called after that.",
  ["inputs", "schedules", "histories", "fault_sequences"], "all interleavings of several clients' traffic, segmentation, disconnects and bad frames",
  "the TCP transport tests are excluded from the stable suite as flaky",
  ["src/transport/mcp_tcp_transport.c", "src/transport/mcp_tcp_client_handler.c", "src/transport/mcp_tcp_acceptor.c", "src/transport/mcp_tcp_server_utils.c"],
  [("acceptor and per-connection handler", "src/transport/mcp_tcp_client_handler.c")])

p("P16", "The stdio transport delivers each framed message once and frames each reply",
  "Every well-formed frame read from standard input is passed to the message handler once, in order and unaltered, and each reply appears on standard output as exactly one frame with the same bytes, whatever pieces the input arrives in and whichever other threads are sending. A frame of length zero, an oversized frame or end of input stops the transport without delivering a partial message or reading past it.",
  ["inputs", "schedules"], "all message sequences, all segmentations of the input, all invalid lengths and truncation points",
  "the stdio tests send a couple of whole messages",
  ["src/transport/mcp_stdio_transport.c"],
  [("frame reader thread and framed writer", "src/transport/mcp_stdio_transport.c")])

p("P17", "WebSocket messages are reassembled whole, whatever their fragmentation and size",
  "A text message sent to the WebSocket server in any number of fragments of any sizes reaches the message handler exactly once, complete and unaltered, and its reply is sent to the client that sent it. Large messages, consecutive messages and interleaved clients never mix, lose or corrupt data. The four-byte length the bundled client puts before a message is removed.",
  ["inputs", "histories"], "all messages up to megabytes, all fragmentations, all interleavings of clients",
  "no test covers the WebSocket server",
  ["src/transport/mcp_websocket_server_client.c", "src/transport/mcp_websocket_server_callback.c", "src/common/mcp_buffer_pool.c"],
  [("receive buffer growth and reassembly", "src/transport/mcp_websocket_server_client.c")])

p("P18", "The WebSocket server's client slots always match the live connections",
  "At any point in any history of connections and disconnections, the server accepts a new connection exactly while fewer than the configured maximum are live, each live client has a slot of its own, a freed slot can be used again, and the active, peak, total and rejected counts reported equal those of the history.",
  ["histories", "configurations"], "all histories of connects, disconnects and messages, all limits",
  "no test covers WebSocket slot accounting",
  ["src/transport/mcp_websocket_server_callback.c", "src/transport/mcp_websocket_server_bitmap.c", "src/transport/mcp_websocket_server_client.c"],
  [("slot bitmap and counters", "src/transport/mcp_websocket_server_bitmap.c")])

p("P19", "Each HTTP tool request becomes exactly one server message with its content",
  "Over the HTTP transport, the body of each POST to the tool endpoint, however it is split in transit and whatever came before it on the same connection, reaches the message handler exactly once and unaltered, and the client receives exactly the handler's reply, or status 202 when there is none. Every request gets one complete response. A GET to the tool endpoint becomes a tool call with exactly the URL-decoded tool name and parameters of its query string.",
  ["inputs", "histories", "schedules"], "all bodies, segmentations, query strings and sequences of requests on connections",
  "no C test starts the HTTP server; the Python test is manual",
  ["src/transport/mcp_http_server_callbacks.c", "src/transport/mcp_http_transport.c"],
  [("body accumulation and completion", "src/transport/mcp_http_server_callbacks.c"), ("query decoding", "src/transport/mcp_http_server_callbacks.c")])

p("P20", "Server-sent events reach exactly the intended clients and can be replayed",
  "An event sent by the HTTP server reaches exactly the connected clients it is meant for: those of the addressed session, or those without a session for a broadcast, and among them those whose event filter accepts it; events without a type pass every filter, and types with line breaks are refused. Each delivered event carries its own increasing id, its type and its data unaltered (line breaks normalised to LF). A client that reconnects with the last id it saw receives exactly the retained later events meant for it and accepted by its filter, in order, once each.",
  ["histories", "inputs"], "all histories of connects, disconnects, sends and reconnects with any ids, filters and sessions",
  "no test covers server-sent events",
  ["src/transport/mcp_http_server_sse.c", "src/transport/mcp_http_server_handlers.c", "src/transport/mcp_http_sse_common.c"],
  [("event ring and replay", "src/transport/mcp_http_server_handlers.c"), ("filtering", "src/transport/mcp_http_server_sse.c")])

p("P21", "Streamable HTTP replays exactly the events after the last one seen",
  "The streamable HTTP event store keeps the most recent events up to its capacity; a replay after a retained event id sends exactly the later events, oldest first, once each, with id, type and data readable back unaltered, and a replay from an unknown id sends everything retained. This holds after any number of wrap-arounds.",
  ["histories", "inputs"], "all store/replay histories, capacities, ids and payloads",
  "no test covers the event store",
  ["src/transport/mcp_sthttp_utils.c", "src/transport/mcp_sthttp_dynamic_utils.c"],
  [("event ring with id index", "src/transport/mcp_sthttp_utils.c")])

p("P22", "Cross-origin and id header checks admit only what is configured",
  "With origin checking enabled, a POST, GET or DELETE request to the streamable HTTP endpoint whose Origin is present is accepted exactly when it equals an allowed entry or starts with an allowed entry's text before its trailing star, for every configured comma-separated list with at least one entry; an Origin of 256 characters or more is refused. Preflight responses carry exactly this transport's own CORS settings. Session and last-event identifiers taken from headers are accepted only if they are within the length limit and made of permitted characters, and are then used unaltered.",
  ["inputs", "configurations"], "all origin lists and origins (near misses, case, prefixes), all header values",
  "no test covers origin or header validation",
  ["src/transport/mcp_sthttp_utils.c", "src/transport/mcp_http_session_manager.c", "src/transport/mcp_sthttp_callbacks.c", "src/transport/mcp_sthttp_threads.c", "src/transport/mcp_sthttp_dynamic_utils.c"],
  [("origin validation", "src/transport/mcp_sthttp_utils.c"), ("header extraction", "src/transport/mcp_sthttp_utils.c")])

p("P23", "HTTP sessions live exactly from creation to expiry or termination",
  "A session id handed out is unique and well formed and can be found, with its own data, until it is terminated or has not been used for longer than its timeout; using it extends its life. After termination or expiry it is never found again, and it is reported as ended exactly once. Sessions created without timeout never expire, and one session's end never affects another.",
  ["histories", "schedules"], "all histories of create, use, terminate, clean-up and clock advance",
  "no test covers the session manager",
  ["src/transport/mcp_http_session_manager.c"],
  [("session table and expiry", "src/transport/mcp_http_session_manager.c")])

p("P24", "Each client call returns the response to its own request",
  "With any number of threads sharing one client connection and responses arriving in any order, each call returns the result or error the server sent for that very request, exactly once. Responses with unknown ids, duplicates and garbage never complete, corrupt or block any call.",
  ["schedules", "inputs", "histories"], "all numbers of concurrent calls, orders of responses, error/success mixes and stray responses",
  "the asynchronous client tests use one or a few calls with fixed answers",
  ["src/client/mcp_client_core.c", "src/client/mcp_client_request.c", "src/client/mcp_client_hash_table.c"],
  [("pending request table", "src/client/mcp_client_hash_table.c"), ("response callback", "src/client/mcp_client_core.c")])

p("P25", "Client calls end by their timeout or transport failure, with the right error",
  "A call whose response does not arrive ends with a timeout error not before and not long after the configured timeout; a call that cannot be sent, or whose connection breaks, fails promptly with a transport error. A response that arrives late is discarded and later calls on the same client still work.",
  ["schedules", "fault_sequences"], "all timeouts, points of failure and arrival times around the deadline",
  "one test waits for one fixed timeout",
  ["src/client/mcp_client_request.c", "src/client/mcp_client_core.c", "src/common/mcp_sync.c"],
  [("timed wait for the response", "src/client/mcp_client_request.c"), ("timed condition wait", "src/common/mcp_sync.c")])

p("P26", "The streamable HTTP client sends and receives whole messages, however split",
  "Each message sent over the streamable HTTP client transport is posted once and unaltered to the endpoint, with the configured headers and the session id the server gave last, and the body of the response, with a length, chunked or up to the close and however split into network reads, is handed to the message callback once and unaltered; a response without a body succeeds without a message. Malformed and cut-off responses are reported as errors and hand on nothing. The events of an event stream (ids, types, multi-line data) are delivered exactly once each and in order, however the stream is split; an unfinished event is not delivered, and a stream of the wrong status or type is refused.",
  ["inputs", "histories", "schedules"], "all messages, responses and event streams and all segmentations of them, sequences and concurrent senders",
  "no test covers the HTTP client or its parsers",
  ["src/transport/mcp_sthttp_http_parser.c", "src/transport/mcp_sthttp_sse_parser.c", "src/transport/mcp_sthttp_client_sse.c", "src/transport/mcp_sthttp_client_core.c", "src/transport/mcp_sthttp_client_transport.c"],
  [("incremental HTTP parser", "src/transport/mcp_sthttp_http_parser.c"), ("incremental event parser", "src/transport/mcp_sthttp_sse_parser.c")])

p("P27", "The gateway forwards each request to the backend its routing rules select",
  "In gateway mode a resource read goes to the first configured backend one of whose prefixes or patterns matches the URI, a tool call to the first backend listing that tool, and everything else is handled locally. The caller receives the chosen backend's result, or its error, under the caller's own request id; an unreachable backend yields an error response, never a wrong or missing answer.",
  ["inputs", "configurations", "fault_sequences"], "all routing tables, requests and backend behaviours (results, errors, refusals, disconnects)",
  "no test covers the gateway",
  ["src/gateway/mcp_gateway_routing.c", "src/gateway/mcp_gateway_pool.c", "src/server/mcp_server_dispatch.c"],
  [("backend selection and forwarding", "src/gateway/mcp_gateway_routing.c"), ("backend connection pool", "src/gateway/mcp_gateway_pool.c")])

p("P28", "Gateway configuration files load exactly or are rejected",
  "A well-formed gateway configuration file loads as exactly the backends it lists, in order, with their names, addresses, timeouts and routing rules; a file that is malformed, lacks a required field, has a field of the wrong type or an invalid pattern is rejected as a whole. A failed reload leaves the configuration in force untouched, and after a successful one lookups use only the new one.",
  ["inputs", "histories", "fault_sequences"], "all configuration documents, valid and corrupted, and all reload histories",
  "no test covers gateway configuration",
  ["src/gateway/mcp_gateway_config.c", "src/gateway/mcp_gateway_config_manager.c"],
  [("config loader", "src/gateway/mcp_gateway_config.c"), ("reload", "src/gateway/mcp_gateway_config_manager.c")])

p("P29", "A connection pool lends each connection to one user and respects its limits",
  "A pooled connection is lent to at most one user at a time and is open and usable when lent: one idle beyond the idle limit or, with health checks on, one closed by its peer is closed instead of lent. The number of open connections never exceeds the configured maximum; a returned good connection is reused and a returned bad one is closed. When all are in use, a caller waits at most its timeout and no less, and gets a connection as soon as one is returned or a place becomes free; the reported counts agree with what is lent and idle, and destroying the pool closes every idle connection.",
  ["schedules", "histories", "fault_sequences"], "all histories of get, release, peer close and idle expiry, and all interleavings of users",
  "no test covers the connection pool",
  ["src/connection_pool/mcp_connection_pool.c", "src/connection_pool/mcp_connection_pool_sync.c", "src/connection_pool/mcp_connection_pool_maintenance.c"],
  [("idle list and counts under a lock", "src/connection_pool/mcp_connection_pool.c")])

p("P30", "Every task accepted by the thread pool runs exactly once",
  "Each task the pool accepts is executed exactly once, with its own argument, before a wait reports completion or a graceful shutdown returns - for any number of submitting threads, workers, queue sizes and resizes. A task that is refused never runs, and submitting after shutdown is refused.",
  ["schedules", "histories", "configurations"], "all pool sizes, queue sizes, submission patterns and interleavings",
  "the thread-pool tests are flaky and excluded from the stable suite",
  ["src/common/mcp_thread_pool.c", "src/common/mcp_thread_pool_worker.c", "src/common/mcp_thread_pool_deque.c", "src/common/mcp_thread_pool_tasks.c"],
  [("work-stealing deques", "src/common/mcp_thread_pool_deque.c"), ("worker loop and shutdown", "src/common/mcp_thread_pool_worker.c")])

p("P31", "The hash table behaves as a map under every history of operations",
  "After any sequence of put, replace, get, remove, contains, clear and iteration with any keys, the hash table holds exactly the same mapping as an ideal map: every stored key is found with its latest value, removed keys are not found, the size is right and iteration visits each entry exactly once. Values replaced or removed are released exactly once.",
  ["histories", "inputs"], "all operation histories, key sets (colliding, growing, shrinking) and initial capacities",
  "tests use a few dozen keys in fixed orders",
  ["src/common/mcp_hashtable.c"],
  [("buckets, resize and callbacks", "src/common/mcp_hashtable.c")])

p("P32", "The linked list keeps exactly the inserted items in order",
  "After any sequence of pushes at either end, insertions, removals, moves to the front, pops, searches and clears, the list contains exactly the items an ideal sequence would, in the same order in both directions, with the right size; with the thread-safe mode this also holds under concurrent use, no item being lost or returned twice.",
  ["histories", "schedules"], "all operation histories and all interleavings in thread-safe mode",
  "no test covers the list directly",
  ["src/common/mcp_list.c"],
  [("doubly linked nodes and optional mutex", "src/common/mcp_list.c")])

p("P33", "Memory handed out by the allocators is exclusive, sized and intact until freed",
  "Every block obtained from the memory pools, the per-thread memory and object caches or the arena is aligned, at least as large as requested, disjoint from every other live block, and keeps what was written to it until it is freed, reset or its allocator is destroyed. Freed memory may be reused, limits on the number of blocks are respected, reported statistics agree with what is live, and a typed object is constructed once whenever it is handed out and destroyed once when it is given back. This holds under any order of allocation and release and from any number of threads.",
  ["histories", "schedules"], "all allocation/release histories, sizes and interleavings",
  "the memory pool tests fail or are fixed small sequences",
  ["src/common/mcp_memory_pool.c", "src/common/mcp_thread_cache.c", "src/common/mcp_object_cache.c", "src/common/mcp_arena.c"],
  [("free lists and size classes", "src/common/mcp_memory_pool.c"), ("bump allocation", "src/common/mcp_arena.c"), ("per-thread caches", "src/common/mcp_thread_cache.c")])

p("P34", "Pooled objects and buffers have at most one owner at a time",
  "An object or buffer acquired from a pool is not handed to anyone else until it is released, is at least as large as the pool promises, and one released by a thread can be acquired by it again; releasing a buffer twice, or to a pool it does not belong to, is refused without corrupting the pool. Configured maximum sizes are never exceeded and the pool's reported counts agree with what is out and what is free, also with concurrent users.",
  ["histories", "schedules"], "all acquire/release histories including misuse, and all interleavings",
  "tests acquire and release a few buffers in sequence",
  ["src/common/mcp_object_pool.c", "src/common/mcp_buffer_pool.c"],
  [("free list with ownership marks", "src/common/mcp_buffer_pool.c"), ("pool with per-thread cache", "src/common/mcp_object_pool.c")])

p("P35", "Locks, waits and thread-local values keep their promises under any schedule",
  "A mutex or write lock admits one holder and a write lock excludes readers; readers may share. A timed wait returns early only when signalled and otherwise reports a timeout no sooner than asked and within reasonable time; no signal sent to a waiter is lost. Thread-local values are private to their thread.",
  ["schedules"], "all interleavings of lockers, waiters and signallers, all timeouts",
  "no test covers the synchronisation layer",
  ["src/common/mcp_sync.c", "src/common/mcp_rwlock.c", "src/common/mcp_thread_local.c"],
  [("pthread wrappers", "src/common/mcp_sync.c"), ("reader-writer lock", "src/common/mcp_rwlock.c")])

p("P36", "MQTT messages are routed, answered and queued without loss or reordering",
  "A request arriving on a client's request topic is handed to the message handler once, unaltered, and its reply is queued to that same client's response topic; responses and notifications reach the client's handler only from their own topics. The outgoing queue never holds more than its limit, a message refused because it is full is not sent, and an accepted message is sent exactly once, in order, however often the connection is lost or sending fails before. An unacknowledged message is sent again only after its retry interval, at most the configured number of times, and never after its acknowledgement.",
  ["inputs", "histories", "schedules", "fault_sequences"], "all topics, client ids, payloads, queue limits, message sequences, sender interleavings, disconnections and publish failures",
  "the MQTT tests cover configuration errors only",
  ["src/transport/mcp_mqtt_common.c"],
  [("topic matching and outgoing queue", "src/transport/mcp_mqtt_common.c")])

p("P37", "A saved MQTT session loads back as itself, and only as itself",
  "Loading a saved MQTT session returns exactly the subscriptions and unacknowledged messages that were last saved for that client id, in order, with their settings; saving, updating or deleting one client's session never changes another's, whatever the ids. Expired sessions are not loaded and are the ones removed by clean-up.",
  ["histories", "inputs", "configurations"], "all sets of client ids (near-identical, special characters), session contents, and save/load/delete/expire histories",
  "no test covers session persistence",
  ["src/transport/mqtt_session_persistence.c"],
  [("session file format and path", "src/transport/mqtt_session_persistence.c")])

p("P38", "A damaged or half-written MQTT session never loads as wrong data",
  "If the process stops at any point while a session is being saved, a later load returns either the previous or the new session in full, never a mixture. A session file that is truncated or altered is rejected or read without crashing, hanging or exhausting memory, and a rejected load leaves nothing behind.",
  ["crash_points", "fault_sequences", "inputs"], "every prefix of the save's file operations and every truncation or corruption of a stored file",
  "no test covers session persistence faults",
  ["src/transport/mqtt_session_persistence.c"],
  [("save and load with checks", "src/transport/mqtt_session_persistence.c")])

p("P39", "Shutdown refuses new requests and waits for those in progress",
  "Once a server stop has been requested every further message is refused with the shutting-down error, every message accepted before it is answered in full, and stop returns only when those are done (or the shutdown timeout passes) and promptly after. Oversized and rate-limited messages are refused without affecting this accounting.",
  ["schedules", "histories"], "all interleavings of in-flight, refused and new messages with stop",
  "no test stops a server with requests in flight",
  ["src/server/mcp_server_task.c", "src/server/mcp_server.c"],
  [("in-flight counter and shutdown wait", "src/server/mcp_server_task.c")])

p("P40", "Streamable HTTP requests and event streams are served exactly once",
  "Over the streamable HTTP transport the body of each POST to the endpoint, however it is split in transit and whatever came before it on the same connection, reaches the message handler exactly once and unaltered, and the client receives exactly the handler's reply; a message without reply is answered 202 and every other request gets a complete response of its own. Every message the server sends reaches each event stream open at that time exactly once, in order and unaltered, for as long as the stream is open; a stream that resumes with the last id it saw receives exactly the retained later events and then the new ones, without gap or repetition.",
  ["inputs", "histories", "schedules"], "all request bodies, splittings and connection histories, all histories of streams connecting, dropping and resuming while events are sent",
  "no test runs the streamable HTTP server",
  ["src/transport/mcp_sthttp_callbacks.c", "src/transport/mcp_sthttp_threads.c", "src/transport/mcp_sthttp_transport.c", "src/transport/mcp_sthttp_utils.c", "src/transport/mcp_sthttp_dynamic_utils.c"],
  [("POST handling", "src/transport/mcp_sthttp_threads.c"), ("event broadcast", "src/transport/mcp_sthttp_dynamic_utils.c")])

p("P41", "The TCP client carries whole messages both ways, across reconnections",
  "Over a TCP client transport every message accepted from any number of concurrent senders reaches the server whole, at most once and in its sender's order, and every message of the server is handed to the callback exactly once, whole and in order, however its bytes are split; only messages in flight when a connection is lost may be lost with it. With reconnection enabled the client connects again after every loss or outage, any number of times and also after being stopped and started, and then carries messages as before; without it sends fail and the loss is reported. Stopping returns promptly at any time, also while a reconnection is pending, and destroying the transport leaves nothing open.",
  ["inputs", "histories", "schedules", "fault_sequences"], "all messages, splittings, numbers of senders, and histories of losses, outages, restarts and stops",
  "no test runs a TCP client against a server that goes away",
  ["src/transport/mcp_tcp_client_transport.c", "src/transport/mcp_tcp_client_receiver.c", "src/transport/mcp_tcp_client_reconnect.c", "src/common/mcp_framing.c"],
  [("reconnect thread", "src/transport/mcp_tcp_client_reconnect.c"), ("receiver thread", "src/transport/mcp_tcp_client_receiver.c"), ("send under the send mutex", "src/transport/mcp_tcp_client_transport.c")])

p("P42", "The HTTP servers serve exactly the files below their document root",
  "With a document root configured, a GET for the URL-encoded path of a file below it returns exactly the bytes of that file, whatever its name, type and size. No request path, with dot segments, encoded or doubly encoded, with repeated slashes or over-long, returns contents of a file outside the document root. A path without a file gets an error response, and the tool endpoint keeps working.",
  ["inputs", "configurations"], "all document trees and request paths",
  "no test requests a static file",
  ["src/transport/mcp_http_server_callbacks.c", "src/transport/mcp_http_transport.c", "src/transport/mcp_sthttp_transport.c"],
  [("file mount", "src/transport/mcp_http_transport.c"), ("static file handler", "src/transport/mcp_http_server_callbacks.c")])

p("P43", "The HTTP client returns whole replies and delivers every server event once",
  "Over an HTTP client transport every call is posted exactly once with its content, length and key, and its caller gets the result or error of the reply to it, whole, whatever the reply's encoding, headers and splitting and however many callers there are; a reply that is cut short, malformed, missing or another request's fails the call. Every event of the server's event stream is handed to the callback once, whole and in order however it is split, and after a loss of the stream the client asks again, naming the last event it saw. Stopping returns promptly at any time, and destroying the transport leaves nothing open.",
  ["inputs", "histories", "schedules", "fault_sequences"], "all calls, replies with a length, in chunks or up to the close, splittings, numbers of callers, and histories of events, losses and stops",
  "no test runs the HTTP client against a server",
  ["src/transport/mcp_http_client_transport.c", "src/transport/mcp_http_client_request.c", "src/transport/mcp_http_client_sse.c", "src/transport/mcp_http_client_utils.c"],
  [("request and response", "src/transport/mcp_http_client_request.c"), ("event thread", "src/transport/mcp_http_client_sse.c"), ("send, receive and stop", "src/transport/mcp_http_client_transport.c")])

p("P44", "The pooled TCP client gives each call its own reply and drops bad connections",
  "Over a pooled TCP client transport every call of any number of concurrent callers is sent whole, exactly once, and the reply to it is handed to the callback exactly once, whole, before the call returns success, however the reply's bytes are split. A call whose reply is cut short, empty, over-long, missing or not complete within the time limit returns an error, is reported once to the error callback and hands over nothing, and its connection is never used again; a stopped transport sends nothing. At most the configured number of connections serve the calls, good ones are reused, calls work again after an outage, and destroying the transport closes them all.",
  ["inputs", "histories", "schedules", "fault_sequences"], "all requests, replies, splittings, numbers of callers and connections, and histories of failing replies, outages, stops and starts",
  "no test runs the pooled transport",
  ["src/transport/mcp_tcp_pool_transport.c", "src/transport/mcp_transport.c", "src/connection_pool/mcp_connection_pool_health.c", "src/connection_pool/mcp_connection_pool_socket.c"],
  [("request-response cycle", "src/transport/mcp_tcp_pool_transport.c"), ("check of an idle connection", "src/connection_pool/mcp_connection_pool_health.c")])

p("P45", "The log holds every message that passes the level, once, whole and in order",
  "Every message, plain or structured, at or above the set level is written exactly once to standard error and to the open log file, with its level, origin and text whole (texts over the limit are cut between characters), and is in the file when the call returns; messages below the level, or while logging is quiet, are not written. In JSON format every record is one line holding a valid JSON object with exactly the given texts, whatever characters they contain; records of concurrent writers are never mixed and each writer's stay in order. Opening a log file creates its directories and keeps what the file held; a file that cannot be opened is reported and logging goes on.",
  ["inputs", "histories", "schedules"], "all messages, names, levels and formats, and all histories of setting changes, opening and closing, with concurrent writers",
  "no test reads the log",
  ["src/common/mcp_log.c", "src/json/mcp_json_utils.c"],
  [("log record", "src/common/mcp_log.c"), ("escaping into a buffer", "src/json/mcp_json_utils.c")])

p("P46", "Plugins are loaded whole or not at all, and finalized once before they go",
  "A plugin is loaded only if its library exists, describes itself completely and its initialize function, called exactly once per load with the server's context, succeeds; a refused plugin gives no handle and leaves nothing mapped. Unloading calls the finalize function exactly once, before the library goes, returns its result and unmaps the library with its last user, also when finalize fails and whatever the log level. This holds for every order of loading and unloading, also of one library several times.",
  ["inputs", "histories"], "all kinds of malformed plugin and all histories of loads and unloads",
  "no test loads a plugin",
  ["src/server/mcp_plugin.c"],
  [("load and unload", "src/server/mcp_plugin.c")])

p("P47", "The metrics count every message once and show what is under way",
  "Every message delivered to the server, also one that does not parse or is refused for its credentials, is counted exactly once in its performance metrics: as failed if a reply to it is an error, otherwise as successful, with the bytes of message and reply. A message is among the active ones exactly while it is handled, the peak is the most that were active at once, and minimum, average and maximum latency lie in this order and within the time the calls took. A reset starts the counts anew but leaves what is under way, and all this holds for messages handled by any number of threads from the first one on.",
  ["histories", "schedules"], "all histories of messages, resets and metrics requests, from any number of threads",
  "no test compares the metrics with the messages sent",
  ["src/common/mcp_performance_metrics.c", "src/server/mcp_performance_collector.c", "src/server/mcp_performance_metrics_handlers.c", "src/server/mcp_server_dispatch.c"],
  [("counters", "src/common/mcp_performance_metrics.c"), ("message handling", "src/server/mcp_server_dispatch.c")])

p("P48", "A document's verdict under a schema does not depend on what is cached",
  "A document is accepted by a schema exactly if both are JSON and the document has every property that the schema lists as required at its top level. The verdict is the same for a schema seen for the first time, cached, evicted or evicted and seen again, whatever other schemas are in use, whatever the calling thread does with its memory in between, and from any number of threads sharing a cache. A cache never holds more schemas than its capacity.",
  ["inputs", "histories", "schedules"], "all documents and schemas, all histories of validations and interleavings of threads",
  "the tests validate two fixed documents against one schema",
  ["src/json/mcp_json_schema_cache.c", "src/json/mcp_json_schema_validate.c"],
  [("lookup and eviction", "src/json/mcp_json_schema_cache.c")])

p("P49", "Memory accounting agrees with what was recorded, and the limit holds",
  "At every point the memory account gives exactly the number and bytes of allocations recorded, released and still held, and the most ever held at once, whatever threads recorded them. The leak report lists exactly the allocations still held, each with its size and where it was made, even if the text naming the place is gone. A size is said to exceed the memory limit exactly if it and the bytes held add up to more than a limit that is set, for sizes of any magnitude.",
  ["inputs", "histories", "schedules"], "all histories of recorded allocations and releases and questions about the limit, and interleavings of threads recording them",
  "the tests record one allocation and its release",
  ["src/common/mcp_memory_tracker.c", "include/mcp_atom.h"],
  [("recording", "src/common/mcp_memory_tracker.c")])

p("P50", "A pooled connection by name goes to an address current for that name",
  "A connection made by host name and port goes only to addresses that the resolver gave for that very name and port at most five minutes before, tried in the resolver's order until one accepts; it fails only if the resolver does or none accepts. This holds whatever other names are in use, however connections overlap in time and threads, and when names change or stop resolving. Every answer of the resolver is given back once and only when no connection uses it, no socket is left behind, and a name connected to twice in a row is resolved once.",
  ["inputs", "histories", "schedules", "fault_sequences"], "all sets of names, answers, failures and changes of the resolver, and overlaps of connections",
  "the tests connect to one numeric address",
  ["src/connection_pool/mcp_connection_pool_dns_cache.c", "src/connection_pool/mcp_connection_pool_socket.c"],
  [("lookup, expiry and eviction", "src/connection_pool/mcp_connection_pool_dns_cache.c"), ("connecting", "src/connection_pool/mcp_connection_pool_socket.c")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=True) + "\n")
print(len(P), "properties")
