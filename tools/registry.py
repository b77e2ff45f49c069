"""Single source for properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""

P = []      # properties
C = {}      # checks: id -> dict(technique, level, note)
NA = {}     # not applicable: id -> reason


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [],
                     hook_needed=hook,
                     **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}))))


def check(id, technique, level, note):
    C[id] = dict(technique=technique, level=level, note=note)


# --------------------------------------------------------------------------
# Concurrency
# --------------------------------------------------------------------------
prop("T01", "Every task the thread pool accepts runs exactly once",
     "A task accepted by the thread pool runs exactly once, whatever the interleaving of submitters, workers, resizing and destruction of the pool, and it has finished when destruction of the pool returns. A submission that is reported as rejected never runs.",
     ["schedules"], "all interleavings of submitters, workers, resize and destroy within the preemption bound",
     "The thread pool test runs with whatever schedule the OS gives (it is not even among the reliable tests); a lost or doubled task needs a specific interleaving of a push with a take or a shutdown.",
     ["src/common/mcp_thread_pool.c", "src/common/mcp_thread_pool_tasks.c", "src/common/mcp_thread_pool_worker.c", "src/common/mcp_thread_pool_deque.c"],
     [("work-stealing queues with atomic indices", "mcp_thread_pool_deque.c"), ("graceful shutdown drains all queues before workers exit", "mcp_thread_pool_worker.c"), ("destroy joins the workers", "mcp_thread_pool.c")],
     ["mcp_thread_pool_add_task", "mcp_thread_pool_destroy", "mcp_thread_pool_resize"])

prop("T02", "Waiting on the thread pool returns success only when the work is done",
     "When waiting on the thread pool reports success, every task whose submission had returned before the wait started has completed, and a wait without time limit does return once no task is left. After the pool is idle its counters report exactly the submissions accepted and the tasks completed.",
     ["schedules"], "all interleavings of submitters, waiters and workers within the preemption bound",
     "Early return needs the waiter to look between a take and its accounting; tests sleep instead of steering the schedule.",
     ["src/common/mcp_thread_pool_tasks.c", "src/common/mcp_thread_pool_stats.c", "src/common/mcp_thread_pool_worker.c"],
     [("completed/submitted/active counters", "mcp_thread_pool_tasks.c:mcp_thread_pool_wait")],
     ["mcp_thread_pool_wait", "mcp_thread_pool_get_stats"])

prop("L01", "A client call returns the response to its own request",
     "Each client call obtains the result or error of the response that carries its own request identifier, or reports a timeout or transport error; it never obtains another call's response, whatever the order, delay, duplication or unknown identifiers of the responses. A response that arrives before the time limit is never lost, no call hangs or waits beyond its time limit, and no call or answer leaves anything behind.",
     ["schedules", "histories"], "all interleavings of concurrent callers with the receiving thread, for all response orders, duplicates, unknown and late responses, within the bound; and all identifiers up to the table-growth bound",
     "The client test answers one request from one thread; correlation fails only when responses overtake calls, ids collide or the pending table grows under a waiter.",
     ["src/client/mcp_client_request.c", "src/client/mcp_client_core.c", "src/client/mcp_client_hash_table.c"],
     [("pending request table keyed by id", "mcp_client_hash_table.c"), ("condition variable per pending request", "mcp_client_request.c")],
     ["mcp_client_send_request", "mcp_client_send_raw_request", "mcp_client_ping", "mcp_client_call_tool"])

prop("K01", "Concurrent cache use returns whole, current content or a miss",
     "A cache lookup that runs concurrently with stores, invalidations, expiry and eviction returns a miss or the complete content of one store under that key that had not been superseded when the lookup began; it never returns freed, partial or mixed content. The number of entries never exceeds the capacity and no operation deadlocks.",
     ["schedules"], "all interleavings of 2-3 threads of get/put/invalidate/prune on shared keys within the preemption bound",
     "The cache tests are single-threaded.",
     ["src/server/mcp_cache.c", "src/server/internal/mcp_cache_lru.h"],
     [("reader-writer lock", "mcp_cache.c")],
     ["mcp_cache_get", "mcp_cache_put", "mcp_cache_invalidate", "mcp_cache_prune_expired"])

prop("N01", "The connection pool lends each live connection to one borrower at a time",
     "A connection obtained from the connection pool is open and lent to nobody else until it is released; the pool never has more connections open than its maximum, and never returns one it has closed, timed out or found unhealthy. A borrower waiting for a connection gets one when one becomes available or when there is room to open another, and otherwise fails only after its time limit or when the pool is destroyed.",
     ["schedules", "histories", "fault_sequences"], "all interleavings of borrowers, releases and maintenance, all connect/health-check outcomes and idle times, within the bound",
     "No test uses the pool with a contended or failing backend.",
     ["src/connection_pool/mcp_connection_pool.c", "src/connection_pool/mcp_connection_pool_maintenance.c", "src/connection_pool/mcp_connection_pool_health.c"],
     [("idle list and counters under one lock, condition variable for waiters", "mcp_connection_pool.c")],
     ["mcp_connection_pool_get", "mcp_connection_pool_release", "mcp_connection_pool_get_stats"])

prop("N02", "Resolved addresses are the right ones and stay valid while in use",
     "An address list obtained from the resolver cache is that of the host and port asked for, was resolved no longer ago than the cache keeps entries, and stays valid until it is released, whatever other threads resolve, release, clear or let expire meanwhile and however full the cache is. Every list is released in the end.",
     ["schedules", "histories"], "all interleavings of threads resolving equal and different hosts, clearing and expiry within the bound, and every sequence of such steps",
     "The cache is not among the tests.",
     ["src/connection_pool/mcp_connection_pool_dns_cache.c"],
     [("entries with reference counts under a read-write lock", "mcp_connection_pool_dns_cache.c")],
     ["dns_cache_get", "dns_cache_release", "dns_cache_clear"])

prop("R03", "Concurrent requests cannot exceed a rate limit",
     "When several threads check the limit for the same client at the same time, exactly as many requests are admitted as would be if the checks ran one after another: never more than the limit, and never fewer while there is room. The reported totals equal the checks made.",
     ["schedules"], "all interleavings of 2-3 checking threads for both rate limiters and every limiting algorithm within the preemption bound",
     "The rate limiter tests are single-threaded.",
     ["src/server/mcp_rate_limiter.c", "src/server/mcp_advanced_rate_limiter.c"],
     [("lock around the table and its entries", "mcp_rate_limiter.c, mcp_advanced_rate_limiter.c")],
     ["mcp_rate_limiter_check", "mcp_advanced_rate_limiter_check", "mcp_advanced_rate_limiter_get_stats"])

prop("O01", "A pooled buffer or object has one owner at a time, under concurrency",
     "A buffer, object or memory block acquired from a pool belongs to one holder until released, for any number of threads acquiring and releasing concurrently, and its contents are not touched by the pool meanwhile. A pool with a maximum never has more outstanding than that maximum.",
     ["schedules"], "all interleavings of 2-3 threads acquiring and releasing within the preemption bound",
     "Pool tests are single-threaded.",
     ["src/common/mcp_object_pool.c", "src/common/mcp_buffer_pool.c", "src/common/mcp_memory_pool.c"],
     [("pool mutex, per-thread caches", "mcp_object_pool.c"), ("pool mutex", "mcp_buffer_pool.c, mcp_memory_pool.c")],
     ["mcp_object_pool_acquire", "mcp_object_pool_release", "mcp_buffer_pool_acquire", "mcp_buffer_pool_release", "mcp_memory_pool_alloc", "mcp_memory_pool_free"])

prop("S05", "Stopping the server waits for the requests in progress",
     "When stopping the server returns before its time limit for a graceful shutdown, no request handler is running, and none starts afterwards; a message that arrives after stopping returned fails with the error for a server that is shutting down. Every message is either refused without reaching a handler or answered, whatever the moment at which stopping begins. Stopping returns once the last request in progress ends, without sitting out its time limit (messages refused for their size or rate count as ended), and never waits longer than the limit. Callers that were being served when stopping began may return from the server even if it is destroyed right after.",
     ["schedules"], "all interleavings of message deliveries, their handlers, stop and destroy within the preemption bound",
     "Server tests never stop a server while a request is being handled.",
     ["src/server/mcp_server.c", "src/server/mcp_server_task.c"],
     [("active request counter, shutdown lock and condition", "mcp_server_task.c, mcp_server.c")],
     ["mcp_server_start", "mcp_server_stop", "mcp_server_destroy"])

prop("S06", "A server with a configured rate admits no more than that rate, and no less",
     "A server configured with a rate of r messages per second and an allowance of m admits a message exactly when the allowance, which starts at m, regains r per second up to m and loses one with each admitted message, is at least one. A message over the rate is refused without running a handler and without using up any allowance; a message within it is answered as on a server without a rate. Without a configured rate nothing is refused, a new server starts with its full allowance, and destroying a server releases everything its limiter held.",
     ["histories", "configurations"], "every sequence of messages of each kind and pauses up to the depth bound, for rates and allowances from the alphabet",
     "No test drives the server past its rate; the limiter alone is tested with fixed sequences.",
     ["src/server/mcp_server_task.c", "src/server/mcp_server.c", "src/server/mcp_advanced_rate_limiter.c"],
     [("the rate is checked before a message is processed", "mcp_server_task.c:transport_message_callback"), ("the rule is built from the configuration", "mcp_server.c:mcp_server_create")],
     ["mcp_server_create", "mcp_server_start"])

prop("Y01", "Locks exclude, shared locks share, and timed waits keep time",
     "A write holder of the reader-writer lock is alone and readers can hold it together; a try-lock succeeds exactly when the lock could be taken at once. A timed wait on a condition returns success only after a wake-up and times out only after the given time has passed, with the mutex held again in both cases.",
     ["schedules"], "all interleavings of 2-3 threads of lock, try-lock, wait, timed wait, signal within the preemption bound",
     "Nothing tests the synchronization layer under contention or checks how long a timed wait lasts.",
     ["src/common/mcp_sync.c", "src/common/mcp_rwlock.c"],
     [("thin layer over the platform primitives, deadline computation", "mcp_sync.c:mcp_cond_timedwait")],
     ["mcp_cond_timedwait", "mcp_rwlock_*", "mcp_mutex_*"])

# --------------------------------------------------------------------------
# JSON and protocol
# --------------------------------------------------------------------------
prop("J01", "JSON text is parsed to exactly the value it denotes",
     "A text within the nesting limit is accepted by the JSON parser exactly when it is well-formed JSON, and then yields exactly the value it denotes: the same structure, strings after decoding escapes, and nearest numbers. (Raw tabs and line breaks inside strings may be accepted, and an escaped NUL, which a C string cannot hold, is refused.) Rejecting a text leaks no memory, and no input makes the parser read outside it.",
     ["inputs"], "every text up to a length bound over an alphabet that spans the grammar, plus every escape and every nesting depth around the limit",
     "The JSON tests try a few dozen texts.",
     ["src/json/mcp_json_parser.c"],
     [("recursive descent parser with depth limit", "mcp_json_parser.c")],
     ["mcp_json_parse", "mcp_json_get_*"])

prop("J02", "Writing a JSON value and parsing it back gives the same value",
     "For every JSON value that can be built through the interface from finite numbers and text, writing it produces well-formed JSON, and parsing that gives an equal value. Replacing and deleting properties and appending elements behave as on a map and a sequence.",
     ["inputs", "histories"], "every value tree up to a size bound over an alphabet of scalars including every character and number-format boundary, and every sequence of building operations up to a depth",
     "Tests round-trip a handful of values.",
     ["src/json/mcp_json.c", "src/json/mcp_json_stringifier.c", "src/json/mcp_json_utils.c"],
     [("stringifier with escaping", "mcp_json_stringifier.c")],
     ["mcp_json_stringify", "mcp_json_object_set_property", "mcp_json_array_add_item"])

prop("J03", "JSON-RPC messages survive encoding and decoding",
     "A request, response or notification encoded by the library and decoded by the library has the same kind, identifier, method, parameters, result, error code and message, for every identifier up to 2^53 and every text. Encoding never fails for a valid message. A text that is not a message (no method or result, identifiers or codes that are not representable integers) is refused, and each element of a batch keeps its place.",
     ["inputs"], "every combination of kind, identifier (all digit counts and boundaries), method and payload from the alphabet",
     "Tests encode one or two messages with one-digit identifiers.",
     ["src/json/mcp_json_rpc.c", "src/json/mcp_json_message.c"],
     [("message formatters and parsers", "mcp_json_rpc.c, mcp_json_message.c")],
     ["mcp_json_format_request", "mcp_json_format_request_direct", "mcp_json_parse_message", "mcp_json_parse_response", "mcp_json_stringify_message"])

prop("J04", "A document is judged by its schema alone, whatever the schema cache holds",
     "Validating a document against a schema succeeds exactly when both are JSON and the document has every property the schema requires, whatever schemas were validated against before, evicted or cleared, whatever happens to the memory of the thread that first used the schema, and whatever other threads validate meanwhile. The cache never holds more schemas than its capacity, keeps the most recently used ones, counts every validation as a hit or a miss, and releases everything in the end.",
     ["histories", "schedules", "inputs"], "every history of validations, clearing and arena resets up to the depth bound, all pairs of schema and document, and all interleavings of two or three threads within the bound",
     "The tests validate two documents against one schema; they never reset the arena, overflow the cache with equal hashes or use two threads.",
     ["src/json/mcp_json_schema_cache.c", "src/json/mcp_json_schema_validate.c"],
     [("lookup, eviction and validation under one lock", "mcp_json_schema_cache.c:mcp_json_schema_validate")],
     ["mcp_json_schema_validate_cached", "mcp_json_schema_cache_clear", "mcp_json_schema_cache_get_stats"])

# --------------------------------------------------------------------------
# Server
# --------------------------------------------------------------------------
prop("S01", "The server answers every request once, with its identifier",
     "For every message, the server produces exactly one response for each request in it, carrying that request's identifier, in the order of the requests for a batch, and none for notifications and responses. A malformed element gets an error without affecting the others, an unknown method or bad parameters get the corresponding error code, and a valid call gets the result of its handler. However often a message is repeated, what the server holds on its behalf does not grow.",
     ["inputs", "histories"], "every single message and every batch up to a length bound over an alphabet of message shapes",
     "Handler tests send one well-formed request at a time; batches are not tested.",
     ["src/server/mcp_server_dispatch.c", "src/server/mcp_server_task.c", "src/server/mcp_server_handlers.c", "src/server/mcp_server_response.c", "src/json/mcp_json_message.c"],
     [("batch parsing and dispatch", "mcp_server_dispatch.c:handle_message")],
     ["mcp_server_process_message"])

prop("S02", "With an API key configured nothing is served without it",
     "When the server is configured with an API key, no tool or resource handler runs and no list, tool result or resource content is returned unless the message authenticates with exactly that key; a message without it gets an authentication error. Only a ping may be answered without authentication, alone or as part of a batch.",
     ["inputs", "histories"], "every message and every batch up to a length bound over requests with no key, wrong keys (prefix, extension, empty, other type) and the right key, in every position, in every sequence of messages",
     "No test sends a batch or an unauthenticated message to a server with a key.",
     ["src/server/mcp_auth.c", "src/server/mcp_server_dispatch.c"],
     [("authentication before dispatch", "mcp_server_dispatch.c"), ("constant-time comparison", "mcp_auth.c")],
     ["mcp_server_process_message"])

prop("S03", "A caller reaches only what its permissions name and before they expire",
     "An authenticated caller can read a resource or call a tool exactly when one of its permission patterns for that kind matches the name (exact text, or a prefix followed by the wildcard) and its authorization has not expired (it is good up to and including the second it expires in). Everything else is denied, including when the lists are empty.",
     ["inputs", "configurations"], "every list of patterns up to a size bound, every name up to a length bound over a small alphabet, every expiry around the current time",
     "Tests use one or two patterns.",
     ["src/server/mcp_auth.c", "src/common/mcp_string_utils.c"],
     [("permission check", "mcp_auth.c"), ("wildcard match", "mcp_string_utils.c:mcp_wildcard_match")],
     ["mcp_auth_check_resource_access", "mcp_auth_check_tool_access"])

prop("S04", "Reading a resource gives its handler's content, cached or not",
     "Reading a resource returns the content that the handler registered for a template matching the address, or else the general resource handler, produces for exactly that address; a repeated read inside the caching time (five minutes for text, an hour otherwise, without end for what was pre-warmed) returns the same content as the first while the cache has room, and after it the handler is asked again. Content of one address is never returned for another, and failures are reported as errors and never cached.",
     ["histories", "inputs"], "every sequence of reads of up to the depth bound over static, templated, failing and unknown addresses with the clock advanced across the caching time",
     "Handler tests read each resource once.",
     ["src/server/mcp_server_handlers.c", "src/server/mcp_server_template_router.c", "src/server/mcp_cache.c"],
     [("cache then template route then handler then list", "mcp_server_handlers.c")],
     ["mcp_server_process_message"])

prop("K02", "The cache keeps live entries, drops expired ones, evicts the oldest used",
     "A lookup returns exactly the content last stored under that key if that has neither been invalidated, expired by its time to live nor evicted, and otherwise misses. The cache never holds more entries than its capacity, and a store of a new key into a full cache evicts only expired or the least recently used entry.",
     ["histories"], "every sequence of put, get, invalidate, prune and clock advance up to the depth bound on three keys and capacities 1-3",
     "The cache tests run a few fixed sequences with real sleeps.",
     ["src/server/mcp_cache.c"],
     [("hash table plus recency list", "mcp_cache.c")],
     ["mcp_cache_put", "mcp_cache_get", "mcp_cache_invalidate", "mcp_cache_prune_expired"])

# --------------------------------------------------------------------------
# Rate limiting
# --------------------------------------------------------------------------
prop("R01", "The rate limiter admits the configured number per window and client",
     "The fixed-window rate limiter admits a client's request exactly when fewer than the configured number have been admitted in the client's current window, which starts with its first request and lasts the configured time. One client's requests never change the outcome for another.",
     ["histories", "configurations"], "every sequence of requests of two clients and clock advances up to the depth bound, for several limits and windows",
     "The tests run three fixed sequences with real sleeps.",
     ["src/server/mcp_rate_limiter.c"],
     [("per-client window start and count", "mcp_rate_limiter.c")],
     ["mcp_rate_limiter_check"])

prop("R02", "The advanced rate limiter enforces the rule that applies",
     "Each key of a request (API key, user, address, custom, in that order) is judged by the highest-priority rule whose key type and pattern match it, and the request is admitted exactly when that rule's algorithm (fixed window, sliding window, token bucket, leaky bucket) has room for one of its keys; a request no rule matches is refused. Adding or removing rules takes effect for later requests, and different clients never share an allowance.",
     ["histories", "configurations"], "every sequence of requests of two clients, rule changes and clock advances up to the depth bound, for each algorithm and pairs of rules of different types and priorities",
     "The tests run a fixed sequence per algorithm.",
     ["src/server/mcp_advanced_rate_limiter.c"],
     [("rule table by key type, per-client state per algorithm", "mcp_advanced_rate_limiter.c")],
     ["mcp_advanced_rate_limiter_check", "mcp_advanced_rate_limiter_add_rule", "mcp_advanced_rate_limiter_remove_rule"])

# --------------------------------------------------------------------------
# Containers and allocators
# --------------------------------------------------------------------------
prop("D01", "The hash table behaves as a map",
     "After any sequence of operations the hash table contains exactly the last value put under each key not removed since, visits each entry once when iterated, and reports their number; growing never loses, duplicates or changes an entry. Each replaced, removed or cleared value and key is released exactly once.",
     ["histories"], "every sequence of put, get, contains, remove, clear and iterate up to the depth bound over keys that collide and initial capacities that force growth",
     "The tests run fixed sequences with non-colliding keys.",
     ["src/common/mcp_hashtable.c"],
     [("chained buckets with resize", "mcp_hashtable.c")],
     ["mcp_hashtable_*"])

prop("D02", "The linked list behaves as a sequence",
     "After any sequence of operations the linked list holds the same elements in the same order as a sequence under the same operations, forwards and backwards, and reports its length; removing and popping release or return exactly the element named. A list created thread-safe gives every popped element to exactly one of the threads popping concurrently.",
     ["histories", "schedules"], "every sequence of push, pop, insert, remove, move and clear up to the depth bound, and all interleavings of concurrent pushes and pops within the preemption bound",
     "The list has no test of its own.",
     ["src/common/mcp_list.c"],
     [("doubly linked nodes, optional mutex", "mcp_list.c")],
     ["mcp_list_*"])

prop("D03", "Allocators hand out distinct, large enough, aligned memory",
     "After any sequence of allocations and releases, every block handed out by the arena, memory pool, buffer pool, object pool or per-thread cache is at least as large as asked for, suitably aligned, disjoint from every other live block, and keeps its contents until released. Limits on the number of blocks are enforced, and destroying or resetting releases everything.",
     ["histories"], "every sequence of alloc, release, reset up to the depth bound with sizes at the class boundaries",
     "The tests allocate a few fixed sizes.",
     ["src/common/mcp_arena.c", "src/common/mcp_memory_pool.c", "src/common/mcp_buffer_pool.c", "src/common/mcp_object_pool.c", "src/common/mcp_thread_cache.c"],
     [("free lists and size classes", "mcp_memory_pool.c, mcp_thread_cache.c"), ("bump allocation", "mcp_arena.c")],
     ["mcp_arena_alloc", "mcp_pool_alloc", "mcp_memory_pool_alloc", "mcp_buffer_pool_acquire", "mcp_object_pool_acquire", "mcp_thread_cache_alloc"])

# --------------------------------------------------------------------------
# Templates and routing
# --------------------------------------------------------------------------
prop("P01", "Template matching, extraction and expansion agree",
     "Expanding a template with admissible parameter values gives an address that the template matches and from which exactly those values are extracted again, and an address that cannot be obtained so does not match. A value is admissible when it has the parameter's type, is empty only for an optional parameter, is shorter than 256 bytes and does not hold the literal text that follows it. The two matchers (plain and cached) and the two extractions give the same answers, also to threads that use them at the same time.",
     ["inputs", "configurations"], "every template of up to the bound from the alphabet of placeholder kinds and literals, with every tuple of values and every address up to the length bound",
     "The tests try fixed template/address pairs.",
     ["src/common/mcp_template.c", "src/common/mcp_template_optimized.c"],
     [("placeholder parser and validator", "mcp_template.c"), ("precompiled template cache", "mcp_template_optimized.c")],
     ["mcp_template_expand", "mcp_template_matches", "mcp_template_extract_params", "mcp_template_matches_optimized", "mcp_template_extract_params_optimized"])

prop("P02", "Template access rules are enforced as configured",
     "Access to a template with a rule is granted exactly to callers whose role is on the rule's list (any role when the list is empty or holds \"*\") and with parameters that the template's validator, or else the default validator, accepts; without a rule it is granted exactly to callers without a role. Rules, validators and defaults that are added or replaced take effect with the next check, and parameters that are not accepted are never given to a resource handler.",
     ["histories", "configurations"], "every sequence of rules, validators and defaults up to the depth bound over two templates, with every role and parameter checked after each step, directly and through a server",
     "The security tests use one rule.",
     ["src/server/mcp_template_security.c", "src/server/mcp_server_template_security.c", "src/server/mcp_server_template_router.c"],
     [("access list per template", "mcp_template_security.c")],
     ["mcp_template_security_check_access", "mcp_template_security_add_acl", "mcp_template_security_set_validator", "mcp_template_security_validate_params"])

prop("G01", "The gateway routes each request to the first backend whose rules match",
     "A resource read is routed to the first configured backend one of whose prefixes or patterns matches the address, a tool call to the first backend that lists exactly that tool, and every other or malformed request to none; such a request is handled locally. A routed request reaches its backend once and unchanged, and is answered under its own identifier with the backend's result or error, or with an error when the backend cannot be reached. A malformed configuration is refused as a whole.",
     ["inputs", "configurations"], "every configuration of up to three backends over an alphabet of prefixes, patterns and tool names, with every request shape and address from the alphabet",
     "There is no routing test.",
     ["src/gateway/mcp_gateway_routing.c"],
     [("ordered scan of prefixes, regexes and tool names", "mcp_gateway_routing.c:find_backend_for_request")],
     ["find_backend_for_request"])

# --------------------------------------------------------------------------
# Transport
# --------------------------------------------------------------------------
prop("F01", "Framed messages arrive whole, in order, whatever the socket does",
     "A sequence of messages sent with length-prefix framing is received as exactly the same sequence, however the socket splits, shortens or interrupts the individual reads and writes. If the connection fails or closes part-way the sender or receiver reports an error at that message, never delivers a partial or altered message, and a message over the size limit is refused.",
     ["fault_sequences", "inputs"], "every sequence of partial, interrupted, would-block, failing and end-of-stream results of the individual socket calls for message sequences up to the bound",
     "Loopback sockets never return short writes for small messages, so the tests never reach the resumption code.",
     ["src/common/mcp_framing.c", "src/common/mcp_socket_utils.c"],
     [("exact-length receive loop and vectored send loop", "mcp_socket_utils.c"), ("length prefix", "mcp_framing.c")],
     ["mcp_framing_send_message", "mcp_framing_recv_message", "mcp_framing_send_batch", "mcp_framing_recv_batch"])

prop("H01", "HTTP sessions live exactly until they expire or are terminated",
     "A session can be looked up by its identifier from its creation until it is terminated, or stays untouched for longer than the timeout, or is cleaned up, and never after; identifiers are distinct and well-formed. The number of active sessions reported equals the sessions that can be looked up once expired ones are cleaned up, and sessions never affect one another.",
     ["histories"], "every sequence of create, look up, touch, terminate, cleanup and clock advance up to the depth bound for several timeouts",
     "There is no session manager test.",
     ["src/transport/mcp_http_session_manager.c"],
     [("session table with last access times", "mcp_http_session_manager.c")],
     ["mcp_session_manager_*", "mcp_session_*"])

prop("H02", "Server-sent events are parsed alike however the stream is cut",
     "The events the streamable HTTP client delivers from a server-sent event stream are exactly those the stream denotes, with their identifier, type and complete data, in order, and do not depend on how the bytes are divided into reads. Nothing is delivered for comments, blank keep-alives or an unfinished event.",
     ["inputs", "fault_sequences"], "every stream of up to the bound from an alphabet of field lines, and every way of dividing it into reads",
     "The stream is never tested in pieces.",
     ["src/transport/mcp_sthttp_sse_parser.c", "src/transport/mcp_sthttp_client_sse.c"],
     [("incremental line parser", "mcp_sthttp_sse_parser.c"), ("receive loop", "mcp_sthttp_client_sse.c")],
     ["sse_event_callback of the streamable HTTP client"])

prop("H03", "Reconnecting event streams get exactly the events they missed",
     "After reconnecting with the identifier of the last event seen, a client is sent exactly the stored events after that one, each once and in order; when the identifier is no longer stored it gets all that are stored. The store keeps the most recent events up to its limit, with distinct increasing identifiers, also when several threads store and replay at once.",
     ["histories", "schedules"], "every sequence of stores with and without explicit identifiers and replays after every identifier, up to wrapping the store more than once; every schedule of 2-3 threads storing and replaying within the bound",
     "There is no replay test.",
     ["src/transport/mcp_sthttp_utils.c"],
     [("ring buffer of stored events", "mcp_sthttp_utils.c")],
     ["sse_stream_context_store_event", "sse_stream_context_replay_events"])

prop("H04", "HTTP responses reach the caller whole, however they are cut",
     "For each message it sends, the streamable HTTP client hands the caller exactly the body of the server's response, once, independently of how the response's bytes are divided into reads and of how its length is indicated (length, chunks, or end of connection). A response that is malformed, cut short or missing gives an error and no message; an accepted message without a body gives neither. The session identifier of the latest response that names one is sent with every later request until the session is terminated, and each request carries exactly the message and the configured headers.",
     ["inputs", "fault_sequences", "histories"], "every response from an alphabet of status lines, headers, framings and bodies, cut at every place or pair of places, ending after every byte in three ways; sequences of responses and terminations",
     "The parser has no test, and over loopback a small response arrives in one piece.",
     ["src/transport/mcp_sthttp_http_parser.c", "src/transport/mcp_sthttp_client_core.c", "src/transport/mcp_sthttp_client_transport.c"],
     [("incremental response parser", "mcp_sthttp_http_parser.c"), ("receive loop and request", "mcp_sthttp_client_core.c")],
     ["mcp_transport_sthttp_client_create", "client.send", "client.sendv", "mcp_sthttp_client_get_session_id", "mcp_sthttp_client_terminate_session"])

prop("H06", "A streamable HTTP client may be used by several threads and ended at any moment",
     "Threads that send through one streamable HTTP client at once each get the answer to their own message, whatever happens to the session meanwhile. The client can be stopped, started again, reconnected and released at any moment of its event stream, whether the stream is idle, delivering or ended by the server: each event is delivered at most once and none after the client was stopped, a stopped client stays stopped, and no thread, socket or memory is left behind or used after its release.",
     ["schedules", "histories"], "every schedule up to the deviation bound of sending threads, the receive thread, and stop, restart, reconnect and release, with streams that stay open and streams the server ends",
     "The client has no test.",
     ["src/transport/mcp_sthttp_client_sse.c", "src/transport/mcp_sthttp_client_core.c", "src/transport/mcp_sthttp_client_transport.c"],
     [("receive thread and its end", "mcp_sthttp_client_sse.c"), ("session shared by senders", "mcp_sthttp_client_core.c")],
     ["client.start", "client.stop", "client.send", "client.destroy", "mcp_sthttp_client_reconnect_sse", "mcp_sthttp_client_terminate_session"])

prop("W01", "The TCP server answers every connection and stops when told to",
     "Every connection the TCP server has room for is served until the client ends it, the idle limit passes or the server stops: each complete message is handled once and in the order sent, its answer goes back whole on the same connection, and what a client leaves incomplete is not handled. A connection beyond the limit is closed without disturbing the others, and its place can be used again. Stopping or releasing the server ends at once, whatever its clients are doing: every accepted connection is closed exactly once, no message is handled afterwards, and no descriptor, thread or memory is left behind.",
     ["schedules", "histories"], "every schedule up to the deviation bound of the accepting thread, the handlers, the idle check, clients and stop, with clients that are silent, in the middle of a message, or ending",
     "The tests of the TCP transport are not run reliably, and none stops a server with connected clients or controls which thread runs first.",
     ["src/transport/mcp_tcp_transport.c", "src/transport/mcp_tcp_acceptor.c", "src/transport/mcp_tcp_client_handler.c", "src/transport/mcp_tcp_server_utils.c"],
     [("accepting and handing over to a handler", "mcp_tcp_acceptor.c:tcp_accept_thread_func"), ("receive, handle, answer", "mcp_tcp_client_handler.c:tcp_client_handler_thread_func"), ("order of ending the threads", "mcp_tcp_transport.c:tcp_transport_stop")],
     ["mcp_transport_tcp_create", "mcp_transport_start", "mcp_transport_stop", "mcp_transport_destroy"])

prop("H05", "Only allowed origins may use the HTTP endpoint",
     "A request with an origin is accepted exactly when the origin equals an allowed entry or begins with an entry that ends in the wildcard; the comparison covers the whole origin. The list of allowed origins is exactly the configured one.",
     ["inputs", "configurations"], "every list of up to three entries and every origin over a small alphabet up to the length bound",
     "There is no origin test.",
     ["src/transport/mcp_sthttp_utils.c"],
     [("origin validation", "mcp_sthttp_utils.c")],
     ["validate_origin", "parse_allowed_origins"])

# --------------------------------------------------------------------------
# MQTT persistence
# --------------------------------------------------------------------------
prop("M01", "A crash while saving an MQTT session leaves the old or the new session",
     "Whatever instant the process or machine stops while a session is being saved, loading it afterwards gives either the complete previously saved session or the complete new one, or no session if there was none before; it never gives a mixture or part. A save that reported success survives, and a failing write is reported as failure.",
     ["crash_points", "fault_sequences"], "every crash point between and inside the file operations of a history of saves, with every subset of unsynchronised writes lost, and a failure of each file operation",
     "No test kills the process or fails a write while saving.",
     ["src/transport/mqtt_session_persistence.c"],
     [("session file writing", "mqtt_session_persistence.c")],
     ["mqtt_session_save", "mqtt_session_load"])

prop("M02", "Saved MQTT sessions are restored as saved and never shared",
     "Loading a session gives exactly the subscriptions, in-flight messages, packet counter and times last saved for that client, for every content including empty payloads, until it expires or is deleted. Saving, deleting or expiring one client's session never changes another client's, operations of several threads on one session take effect one after the other, and a file that does not hold a whole session is never loaded as one.",
     ["histories", "inputs"], "every sequence of save, load, delete, exists, expire and cleanup up to the depth bound over clients with similar names, with every session content of the alphabet",
     "Session persistence is not among the tests.",
     ["src/transport/mqtt_session_persistence.c"],
     [("one file per client identifier", "mqtt_session_persistence.c")],
     ["mqtt_session_save", "mqtt_session_load", "mqtt_session_delete", "mqtt_session_exists", "mqtt_session_cleanup_expired"])


# --------------------------------------------------------------------------
# Checks
# --------------------------------------------------------------------------
MC = "stateless model checking of the real code: controlled scheduler, all schedules up to a deviation bound (preemptions, early timeouts, spurious wake-ups), race-guided scheduling points"
check("Y01", MC, "model_checking", "exhaustive up to 2-3 deviations (quick) per scenario with 2-4 threads")
SEQ = "explicit-state exploration of the real code: every operation sequence, input and environment answer within the stated finite alphabet and depth is executed and compared step by step with a reference model"
check("R01", SEQ, "model_checking", "all sequences of 7 steps (quick) over 2 clients, clock steps and bursts of new clients")
check("R02", SEQ, "model_checking", "all sequences over 4 algorithms, rule changes, key kinds and clock steps")
check("R03", MC, "model_checking", "exhaustive up to 4 deviations (quick) per scenario with 3 threads")
check("F01", SEQ, "model_checking", "all answers of the socket with up to 4 (send) or 3 (receive) irregular ones; every cut of the stream")
check("J01", SEQ, "model_checking", "all token sequences to length 6, all derivations to 5 values with one character off, all escapes")
check("J02", SEQ, "model_checking", "all values of up to 6 nodes, all two-character texts, every code point, every exponent, all operation sequences to length 5")
check("J03", SEQ, "model_checking", "all combinations of identifiers, methods, payloads and members through every encoder and decoder")
check("J04", SEQ, "model_checking", "all histories of 5 validations, clearings and arena changes on caches of 1-3, all pairs of 15 schemas and 15 documents, all interleavings of 2-3 threads within 2-4 deviations")
check("K01", MC, "model_checking", "exhaustive up to 2-4 deviations (quick) per scenario with 2-3 threads")
check("K02", SEQ, "model_checking", "all sequences of 5 operations on 3 keys, capacities 0-3, every mix of lifetimes; one failed allocation at every point")
check("D03", SEQ, "model_checking", "all alloc/release/reset sequences on every allocator")
check("O01", MC, "model_checking", "all interleavings of acquire/release on every pool")
check("T01", MC, "model_checking", "all interleavings of submitters, workers, resize and destroy within the deviation bound")
check("T02", MC, "model_checking", "all interleavings of waiters, submitters and workers within the deviation bound")
check("H05", SEQ, "model_checking", "all origins to length 8 against all lists; every endpoint operation with every kind of origin header")
check("H03", SEQ, "model_checking", "all sequences of 7 stores into room for 1-4 events with a replay after every identifier each time; every failing write; interleavings within 4-7 deviations of 2-3 threads storing and replaying")
check("H01", SEQ, "model_checking", "all histories of 5 steps after a creation on up to 3 sessions; every pair of threads' operations up to 2 deviations")
check("S01", SEQ, "model_checking", "all single messages from the alphabet, all batches of 4 elements of 12 kinds, all texts of 6 pieces")
check("S02", SEQ, "model_checking", "all batches of 4 elements of 15 kinds, all keys of 4 characters against all credentials of 5, all sequences of 3 messages")
check("S03", SEQ, "model_checking", "all patterns and names of 3 characters over {a,b,*}, all lists of 2 such patterns, all sequences of 3 calls by callers with different permissions")
check("S04", SEQ, "model_checking", "all histories of 5 reads, clock steps and registrations with room for 1-3 or 1000 entries; all sequences of 7 reads of 5 addresses")
check("G01", SEQ, "model_checking", "all configurations of 3 backends over an alphabet of rules against all addresses of 3 characters; all such configurations of 2 backends through a server")
check("P02", SEQ, "model_checking", "all sequences of 4 rules, validators and defaults over 2 templates with every check after each step; all sequences of 3 settings and reads through a server")
check("D01", SEQ, "model_checking", "all sequences of 5 operations on 4 colliding keys for 5 capacities, 3 load factors and 4 hash functions; batches; failed allocations; growth to 140 entries")
check("D02", SEQ, "model_checking", "all sequences of 6 operations on every element; all interleavings with at most 1-2 preemptions of all programs of 2 threads with 2 operations or 3 threads with one")
check("L01", MC, "model_checking", "all interleavings within 1-2 deviations (preemptions, spurious wake-ups, early timeouts) of 1-3 calls with every sequence of up to 2-4 acts of the peer; 48 calls in progress; all nested calls and answers in sequence; long runs of calls and answers of every kind without growth")
check("S05", MC, "model_checking", "all interleavings within 1-4 deviations of stopping and destroying a server with 1-3 messages of every kind being answered, refused or still arriving")
check("S06", SEQ, "model_checking", "12 rates and allowances x all histories of 5 messages of five kinds and pauses, against a bucket of tokens")
check("M01", SEQ, "model_checking", "all histories of 3 saves of 5 contents, deletions and renewals with the process or machine stopping at every operation and inside every write, every subset of unsynchronised changes lost; every failing operation")
check("M02", SEQ, "model_checking", "all histories of 5 operations and clock steps on 2 clients; all pairs of 30 names; all contents of the alphabet; files cut everywhere; all interleavings of 2-3 threads within 2-3 deviations")
check("N01", MC, "model_checking", "all interleavings within 1-2 deviations of 2-4 borrowers of 1-2 connections with the maintenance, every failing connection attempt and dead connection, and destruction; all sequences of 5 steps")
check("N02", MC, "model_checking", "all interleavings within 1-3 deviations of 2-3 threads resolving, clearing and expiring with the cache empty, full and in use; all sequences of 5 steps")
check("P01", SEQ, "model_checking", "all templates of 1 parameter with every address of up to 5 pieces, of 2 with every pair of 33 texts and every pair of 32 given values, every string of 6 bytes of the syntax as a template; interleavings within 3-4 deviations of 2-3 threads")
check("H04", SEQ, "model_checking", "every kind of response cut at every place, ending after every byte; all sequences of 4 responses and terminations; every allocation failing")
check("H02", SEQ, "model_checking", "all streams of 4 lines from 14 with three line ends cut at every place, of 8 lines from 5, of 8 bytes; ends after every byte; every allocation failing")
check("W01", MC, "model_checking", "accepting thread, handlers, idle check and clients against stop and release, all schedules up to 1-2 deviations (quick)")
check("H06", MC, "model_checking", "2 sending threads and the receive thread against stop, restart, reconnect, release and session termination, all schedules up to 2 deviations")
