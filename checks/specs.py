"""Which harness programs decide which property."""
SPECS = {}

SC = "interleavings are sequentially consistent: reorderings allowed by weaker memory models are not explored"
BOUND = "schedules are exhaustive up to the stated number of deviations per scenario (preemptions, early timeouts, spurious wake-ups)"
FINITE = "inputs, sequences and depths are exhaustive within the stated finite alphabets"


def mc(name, src, wrap=(), **kw):
    return dict(name=name, src=src if isinstance(src, list) else [src], flavor="mc", wrap=list(wrap), **kw)


def seq(name, src, wrap=(), flavor="asan", **kw):
    return dict(name=name, src=src if isinstance(src, list) else [src], flavor=flavor, wrap=list(wrap), **kw)


def spec(id, harness, assumptions, **kw):
    SPECS[id] = dict(harness=harness, assumptions=assumptions, **kw)


spec("Y01", [mc("y01", "y01.c")], [SC, BOUND])
spec("R01", [seq("r01", "r01.c")], [FINITE])
spec("R02", [seq("r02", "r02.c")], [FINITE, "rates are powers of two, so that the reference and the code add the same exact numbers"])
spec("R03", [mc("r03", "r03.c")], [SC, BOUND])
spec("F01", [seq("f01", "f01.c", wrap=("writev", "sendmsg", "send", "write", "recv", "read", "poll"))], [FINITE, "at most 2-3 irregular answers of the socket per history; every other call is served in full"])
spec("J01", [seq("j01", "j01.c")], [FINITE, "strings with lone surrogate escapes have no defined value; raw tab, line break, backspace and form feed inside strings may be accepted"])
spec("J02", [seq("j02", "j02.c")], [FINITE])
spec("J03", [seq("j03", "j03.c")], [FINITE, "identifiers up to 2^53: the JSON numbers of this library are doubles"])
spec("K02", [seq("k02", "k02.c")], [FINITE, "the evicted entry may be the least recently used one or one that has expired"])
spec("J04", [seq("j04", "j04.c"), mc("j04c", "j04c.c", wrap=("mcp_json_parse", "mcp_json_destroy"))], [FINITE, SC, BOUND, "of the rules of a schema only required properties are judged, as documented in the code", "reading and freeing a document are single steps in the concurrent part"])
spec("K01", [mc("k01", "k01.c", wrap=("mcp_object_pool_acquire", "mcp_object_pool_release"))], [SC, BOUND, "operations of the object pool are single steps here; their own interleavings are explored by O01"])
spec("D03", [seq("d03", "d03.c")], [FINITE, "memory that did not come from these allocators is not passed to their release functions"])
spec("O01", [mc("o01", "o01.c")], [SC, BOUND])
spec("T01", [mc("t01", "t01.c")], [SC, BOUND])
spec("T02", [mc("t02", "t02.c")], [SC, BOUND])
LWS = tuple("lws_" + x for x in ("get_context context_user hdr_total_length hdr_copy hdr_custom_length hdr_custom_copy http_get_uri_and_method add_http_header_status "
            "add_http_header_by_token add_http_header_by_name finalize_http_header write http_transaction_completed get_socket_fd callback_http_dummy").split())
spec("H05", [seq("h05", "h05.c", wrap=LWS)], [FINITE, "libwebsockets is replaced by a stand-in with its documented behaviour"])
spec("H03", [seq("h03", "h03.c", wrap=LWS), mc("h03c", "h03c.c", wrap=("lws_write", "lws_callback_on_writable"))], [FINITE, SC, BOUND, "an identifier used by several stored events may mean any of them"])
RND = ("open", "read", "close")
HC = ("mcp_socket_connect", "mcp_socket_close", "mcp_socket_send_exact", "mcp_socket_wait_readable", "recv", "mcp_thread_create", "mcp_thread_join")
spec("H02", [seq("h02", "h02.c", wrap=HC)], [FINITE, "the sockets are the harness's own, and the receive thread runs in it"])
spec("H04", [seq("h04", "h04.c", wrap=HC)], [FINITE, "the sockets are the harness's own"])
spec("H06", [mc("h06", "h06.c", wrap=[w for w in HC if "thread" not in w])], [SC, BOUND, "the sockets are the harness's own", "stop, reconnect and release are called by one thread at a time, and not from a callback"])
spec("H01", [seq("h01", "h01.c", wrap=RND, flavor="plain"), mc("h01c", "h01c.c", wrap=RND)], [FINITE, SC, BOUND, "random bytes are supplied by the harness; that they do not repeat is assumed", "session handles are not used after the session was removed"])
TP = ("mcp_thread_pool_create", "mcp_thread_pool_destroy")
spec("S01", [seq("s01", "s01.c", wrap=TP)], [FINITE, "the thread pool of the server takes no part in answering messages and is replaced by a stand-in", "the version member of a message is not part of the property"])
spec("S02", [seq("s02", "s02.c", wrap=TP)], [FINITE, "the thread pool of the server takes no part in answering messages and is replaced by a stand-in", "a batch authenticates with the key of its first element; whether later elements may authenticate themselves is left open"])
spec("S03", [seq("s03", "s03.c", wrap=TP + ("mcp_auth_verify",))], [FINITE, "callers with restricted permissions are supplied in place of mcp_auth_verify, which itself grants everything"])
spec("S04", [seq("s04", "s04.c", wrap=TP)], [FINITE, "the thread pool of the server takes no part in answering messages and is replaced by a stand-in", "which addresses a template matches is decided by P01"])
spec("G01", [seq("g01", "g01.c", wrap=TP + ("gateway_pool_get_connection", "gateway_pool_release_connection", "mcp_client_send_raw_request"))], [FINITE, "the connection to a backend is a stand-in that records what it is sent; regular expressions are those of the C library"])
spec("P02", [seq("p02", "p02.c", wrap=TP)], [FINITE, "the thread pool of the server takes no part in answering messages and is replaced by a stand-in"])
spec("D01", [seq("d01", "d01.c")], [FINITE])
spec("D02", [seq("d02", "d02.c"), mc("d02c", "d02c.c", wrap=("mcp_buffer_pool_acquire", "mcp_buffer_pool_release"))], [FINITE, SC, BOUND, "an element is not named by an operation after or while it is removed", "operations of the pool of nodes are single steps here; their own interleavings are explored by O01"])
spec("L01", [seq("l01", "l01.c", wrap=("mcp_cond_timedwait", "select", "mcp_socket_send_vectors", "mcp_framing_recv_message")), mc("l01c", "l01c.c", wrap=("mcp_json_parse_response", "mcp_json_format_request_direct"))], [FINITE, SC, BOUND])
spec("S05", [mc("s05", "s05.c", wrap=("mcp_thread_pool_create", "mcp_thread_pool_destroy", "handle_message"))], [SC, BOUND, "the thread pool of the server takes no part in answering messages and is replaced by a stand-in", "reading a request and formatting its answer are one step each; the handler between them is not"])
spec("S06", [seq("s06", "s06.c", wrap=TP)], [FINITE, "the thread pool of the server takes no part in answering messages and is replaced by a stand-in", "time passes in whole seconds; all messages come from one address, as the transports report it"])
MEMFS = ("fopen", "fdopen", "fileno", "open", "open64", "close", "write", "read", "fsync", "fdatasync", "ftruncate", "rename", "unlink", "remove", "access", "stat", "lstat", "mkdir", "opendir", "readdir", "closedir")
FS = "the file system is the harness's own: after a machine crash any subset of the unsynchronised writes of a file (one of them possibly cut) and any prefix of the unsynchronised directory changes survive"
spec("M01", [seq("m01", "m01.c", wrap=MEMFS)], [FINITE, FS])
spec("M02", [seq("m02", "m02.c", wrap=MEMFS), mc("m02c", "m02c.c", wrap=MEMFS)], [FINITE, SC, BOUND, "the file system is the harness's own"])
NET = ("socket", "connect", "select", "getsockopt", "setsockopt", "fcntl", "fcntl64", "close", "poll", "recv", "getaddrinfo", "freeaddrinfo")
spec("N01", [mc("n01", "n01.c", wrap=NET + ("dns_cache_get", "dns_cache_release", "mcp_object_pool_acquire", "mcp_object_pool_release", "mcp_cond_wait", "mcp_cond_timedwait"))], [SC, BOUND, "sockets are the harness's own; a borrower does not use the pool after destroying it"])
spec("N02", [mc("n02", "n02.c", wrap=("getaddrinfo", "freeaddrinfo"))], [SC, BOUND, "the resolver is the harness's own"])
spec("P01", [seq("p01", "p01.c"), mc("p01c", "p01c.c")], [FINITE, SC, BOUND, "templates with adjacent placeholders, and addresses that can be divided in several ways of which the first is not valid, are only required to be answered alike"])
W01 = tuple("mcp_socket_create_listener mcp_socket_accept mcp_socket_close shutdown setsockopt pipe fcntl fcntl64 read write close poll mcp_socket_wait_readable mcp_socket_recv_exact mcp_socket_send_vectors "
            "mcp_socket_send_exact mcp_thread_pool_create mcp_thread_pool_resize mcp_thread_pool_smart_adjust mcp_thread_pool_add_task mcp_thread_pool_wait mcp_thread_pool_destroy mcp_buffer_pool_create mcp_buffer_pool_destroy".split())
spec("W01", [mc("w01", "w01.c", wrap=W01)], [SC, BOUND, "the sockets are the harness's own; what they may do within a message is decided by F01", "the thread pool runs every task it accepts on a thread of its own; the pool itself is decided by T01 and T02"])
