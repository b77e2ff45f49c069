HEAD = r"""
# Deciding SupaMCP's properties by model checking

38 properties are stated in `properties.jsonl`; every one is decided by exhaustive enumeration of a
bounded space of behaviours **of the real code** (nothing is decided on a separate model, by sampling or by
a solver), so there is nothing in `not_applicable`. Every check compiles the sources of /repo's working
tree itself (`tools/build.py`, object cache keyed by a hash of sources, headers and flags under `_cache/`), links them
with the harness of the property under `checks/`, runs all scenarios on all cores and writes
`evidence/<id>.json`. This file is written by `tools/design.py` from the texts in `tools/design_text.py`,
the statements in `tools/registry.py` and the scenario tables in the harnesses, so that it cannot drift
from what is run.

## The two engines

**mcrt** (`lib/mcrt.c`) — stateless model checking of the real multi-threaded code.
Repository sources are compiled with `-fsanitize=thread`, which turns every memory access and atomic
operation into a call, but linked with mcrt instead of the sanitizer's runtime; `pthread_*`, clocks, sleeps,
`malloc`, `rand` and string functions are interposed with `-Wl,--wrap`. Exactly one thread runs at a time
and mcrt decides which. Scheduling points are all lock, condition, thread, atomic and volatile operations
and every *plain* access at a program counter at which a vector-clock happens-before detector has seen a
race (races found restart the exploration with the new points, so that unsynchronised code is interleaved at
exactly the places where it matters). All schedules with at most B deviations from run-until-blocked are
enumerated depth first (CHESS-style preemption bounding; early timeouts, spurious wake-ups and the choices
of `mc_choose` each cost one as well), every one in a forked child with a virtual clock and a heap that
detects use after free, double free, overflow of heap blocks and leaks. A deadlock, a crash, a livelock
(step limit) or a failed assertion of the harness is a violation; the schedule is written to
`evidence/replay/` and replays deterministically (`_cache/bin/<harness> --replay <file>`). A schedule that
does not replay as recorded is a hard error, never a pass.

**seqx** (`lib/seqx.c`) — exhaustive enumeration of inputs, operation sequences, fault sequences and
crash points of sequential code. A harness asks `sx_choose(n)` and is run for every combination of answers
(depth-first, work split over processes). The code is built with AddressSanitizer, the clock is
virtual, allocation can be made to fail at any point, and sockets, files and libraries are interposed. After
every operation the code is compared with a plain reference model kept in the harness.

Neither engine stops early: a run that hits its time limit reports `capped` and is not called exhaustive.
Evidence counts schedule-tree nodes / model states, scheduling points / operations executed, and executions;
since the code itself is executed, every trace is validated against the implementation by construction.

Choice of oracle: properties are judged through public or internal *interfaces* (headers), never through
names of static functions, variables or the text of the code, so that rewriting a function does not matter.
Where C details leak in (for instance which of several admissible entries is evicted) the oracle accepts
every behaviour the statement allows; these places are listed below.

## Validation of the machinery

* Every defect repaired in /repo (`fixed:` lines of `known-findings.txt`, 127 of them) was first reported by
  a check on the original tree, and reverting a repair is reported again. Where repairs overlap (the schema cache:
  868e6e2, e164d11, 90e3da6, e3b3c04) this was confirmed with mutants equal to the revert instead.
* `seeded/` holds planted bugs with demonstrations; the table at the end says what catches them.
* About 300 further mutants, written from the property texts (one or two lines each: a lock dropped or
  narrowed, a comparison off by one, a counter updated on one path only, a clean-up forgotten, a cache key cut
  short...), were run against the checks; the ones that were missed led to the strengthenings listed at the
  end. A mutant of two readers in one lock that was missed exposed an error of mcrt itself: the unlock of a
  reader was released into the same clock that later readers acquire, which ordered readers among themselves
  and hid races between them. Readers now release into a clock only writers join.

## Limits

* Interleavings are sequentially consistent; weaker memory orders are not explored.
* Bounds are bounds: B deviations per scenario, the stated depths and alphabets.
* libwebsockets, sockets, the resolver, the file system, the server's transport and thread pool are stand-ins
  of the harness where named; their own behaviour is assumed to be as documented. The thread pool is checked on
  its own (T01, T02), framing over sockets on its own (F01).
* Memory not allocated by the allocators but passed to their release functions is outside D03.
* Not claimed (known to be incomplete in the code, hence no property): the older HTTP client's event stream and
  chunked answers (`mcp_http_client_*.c`), automatic reconnection and resumption of the streamable HTTP client,
  chunked event streams, restarting a stopped TCP server, MQTT clean-up while calls are in progress, concurrent
  calls of `mcp_server_stop`, statistics of the connection pool beyond its counts.

## Safety of the runs

No check touches real files outside its scratch directory under `_cache`; file operations of the MQTT store
run on a file system in memory, sockets are never opened, and no check kills or signals foreign processes.

## Properties
"""

TEXT = {}
COST = {
    "D01": "about 11 s on 8 cores, 14,765,552 executions",
    "D02": "about 43 s on 8 cores, 890,021 executions",
    "D03": "about 47 s on 8 cores, 6,565,826 executions",
    "F01": "about 4 s on 8 cores, 8,601,033 executions",
    "G01": "about 22 s on 8 cores, 409,532 executions",
    "H01": "about 93 s on 8 cores, 3,086,215 executions",
    "H02": "about 62 s on 8 cores, 3,143,670 executions",
    "H03": "about 12 s on 8 cores, 198,888 executions",
    "H04": "about 13 s on 8 cores, 85,242 executions",
    "H05": "about 19 s on 8 cores, 2,020,190 executions",
    "H06": "about 38 s on 8 cores, 221,035 executions",
    "J01": "about 19 s on 8 cores, 10,570,120 executions",
    "J02": "about 20 s on 8 cores, 2,843,389 executions",
    "J03": "about 8 s on 8 cores, 399,283 executions",
    "J04": "about 58 s on 8 cores, 813,196 executions",
    "K01": "about 21 s on 8 cores, 110,725 executions",
    "K02": "about 16 s on 8 cores, 2,606,194 executions",
    "L01": "about 69 s on 8 cores, 1,198,014 executions",
    "M01": "about 2 s on 8 cores, 73,622 executions",
    "M02": "about 45 s on 8 cores, 2,887,996 executions",
    "N01": "about 100 s on 8 cores, 489,936 executions",
    "N02": "about 89 s on 8 cores, 331,037 executions",
    "O01": "about 34 s on 8 cores, 235,304 executions",
    "P01": "about 48 s on 8 cores, 64,147 executions",
    "P02": "about 16 s on 8 cores, 455,146 executions",
    "R01": "about 10 s on 8 cores, 4,219,119 executions",
    "R02": "about 27 s on 8 cores, 4,636,546 executions",
    "R03": "about 24 s on 8 cores, 139,024 executions",
    "S01": "about 18 s on 8 cores, 3,844,799 executions",
    "S02": "about 10 s on 8 cores, 442,788 executions",
    "S03": "about 41 s on 8 cores, 4,629,288 executions",
    "S04": "about 62 s on 8 cores, 2,499,329 executions",
    "S05": "about 15 s on 8 cores, 37,184 executions",
    "S06": "about 11 s on 8 cores, 434,175 executions",
    "T01": "about 103 s on 8 cores, 473,544 executions",
    "T02": "about 105 s on 8 cores, 702,997 executions",
    "W01": "about 63 s on 8 cores, 53,862 executions",
    "Y01": "about 20 s on 8 cores, 150,363 executions",
}

TEXT["T01"] = """Oracle: every task counts its runs; after destruction returned each accepted task must have run once and
each rejected one never, and no task may run afterwards. Submission by an outside thread that races destruction to the
point of touching the freed pool is the caller's error and not explored."""
TEXT["T02"] = """Oracle: at the moment a wait reports success every task whose submission had returned before it began has
completed; counters are compared when idle. An unlimited wait that never returns shows up as a deadlock. The statement was
corrected once: tasks submitted concurrently with the wait may or may not be waited for."""
TEXT["L01"] = """Oracle: the transport is the harness: it knows which answer was given to which identifier and when. Sequentially,
calls are nested in the send function, so that every order of sends, answers, duplicates and errors is enumerated without
threads; concurrently, callers and answering threads are interleaved. The time limit counts from the start of waiting; of two
concurrent calls with the same identifier given by the caller the second may be refused; a request that cannot be sent fails. Growth is judged against a run of the same length: after a warm-up, 44 or more further calls, answers or messages must not leave one more block than threads that only parse JSON leave (a thread's hash-table entry pool stays when it ends; that is not a call's)."""
TEXT["K01"] = """Oracle: contents carry key, version and a check pattern over several items; a lookup must give one whole version that
was current at some moment between its beginning and end (or a miss, if there was such a moment). Recency is checked by what
is evicted afterwards (`order`)."""
TEXT["N01"] = """Oracle: sockets are the harness's: open, dead, lent are tracked; a lent socket must be open, not lent, not closed
before its return, and at most the maximum may be open or opening. Waiting borrowers must be served when there is reason to.
First versions of the oracle were wrong in three ways and were corrected: idle time measured from before the release, counts
compared while maintenance works, and a borrower without patience required to succeed whenever there was room. A borrower
that calls the pool after destruction began is the caller's error; lent connections are not closed by destruction."""
TEXT["N02"] = """Oracle: the resolver is the harness's and stamps each list with host, port and time; every list is tracked until freed:
a list in use must not be freed, all must be freed in the end. Names longer than 253 bytes are not resolvable."""
TEXT["R03"] = """Oracle: admissions and totals must equal those of some order of the checks (computed by the sequential rule)."""
TEXT["O01"] = """Oracle: each holder writes its own pattern and reads it back, ownership is a table; heap errors are detected by mcrt.
An early version of `objects-statistics` required counts read concurrently to be consistent with each other; that was a false
alarm (the interface promises no snapshot) and was corrected."""
TEXT["S05"] = """Oracle: handlers note when they run; after a stop that returned in time none may run, later messages must get the
shutdown error, and each message is refused or answered. Corrected on the way: handlers may run after a stop that timed out,
and the clock of the harness may not advance while a thread is able to run."""
TEXT["J04"] = """Oracle: a document conforms when the reference reader accepts it and it has every property listed under the schema's
`required` (the part of JSON Schema the library implements; other keywords are not judged). A list of schemas in order of use predicts hits,
misses and which schemas are held. The arena the schema was parsed in is reset between steps, as the server does after every message, so
that a cached schema pointing into it is found. Schemas with equal hashes are in the alphabet; with them only verdicts, not counts, are
compared. Interleavings: two or three threads validating against the same, evicting, and clearing."""
TEXT["S06"] = """A server is created with the rate in its configuration and driven through its transport callback with the virtual
clock. Oracle: a bucket of tokens of ten lines says which message is admitted; the handler log, the answer and the error code must agree. The
histories matter: allowance used, refused, regained partly and used again is what fixed test sequences do not reach, and the wiring between
configuration, limiter and message callback is only exercised here."""
TEXT["Y01"] = """Oracle: entries and exits of critical sections are counted; return values and the virtual clock are compared. Spurious
wake-ups are included."""
TEXT["J01"] = """Oracle: `checks/refjson.h`, an independent recursive-descent reader of RFC 8259, with numbers converted by `strtod` on the
exact lexeme. Texts are placed so that any read past the end is caught; failing texts must leave no allocation."""
TEXT["J02"] = """Oracle: the written text is read by the reference reader and by the library's parser; both must give the value built.
Mutating operations are compared with a map/sequence."""
TEXT["J03"] = """Oracle: every encoder's text is read by the reference reader and by every decoder of the library."""
TEXT["S01"] = """Oracle: a reference computes, per element, the answer from the message (reference JSON reader) and the behaviour of the
registered handlers; answers are compared as JSON values. Left open: the version member; whether a malformed element is
answered under 0, null or its own identifier; memory kept in pools is not a leak. An empty batch is an error."""
TEXT["S02"] = """Oracle: handler calls are recorded and the answer searched for content. Left open: whether later elements of a batch need a
key of their own (a batch authenticates by its first element if that is a request); an empty configured key (header and code
disagree, the code refuses everything)."""
TEXT["S03"] = """Oracle: the pattern rule written anew in the harness; restricted callers are supplied by standing in for
`mcp_auth_verify`. All types of authentication are enumerated. The second of expiry is still good."""
TEXT["S04"] = """Oracle: handlers produce content naming the address and a counter; a reference cache knows what may be returned and
whether a handler must be asked. Times to live: 300 s for text, 3600 s otherwise, none for pre-warmed content."""
TEXT["K02"] = """Oracle: a reference map with times and recency; when an expired and a least recently used entry both could be evicted,
either is accepted."""
TEXT["R01"] = """Oracle: the window rule computed independently per client."""
TEXT["R02"] = """Oracle: rules, matching and the four algorithms written anew; rates are powers of two so that sums are exact."""
TEXT["D01"] = """Oracle: an array of pairs; releases of keys and values are counted. A first intermittent alarm depended on the layout of
the sanitizer's heap; it led to the repair 8402e28 and to a guard in seqx that makes such reads deterministic."""
TEXT["D02"] = """Oracle: an array, compared from both ends; concurrently, results and final order must be those of some order of the
operations. Elements are not named after or while they are removed."""
TEXT["D03"] = """Oracle: a table of live blocks: size, alignment, disjointness, fill patterns."""
TEXT["P01"] = """Oracle: an independent matcher that enumerates all ways to divide an address, and the definition of admissible values;
ambiguous addresses and adjacent placeholders are only required to be answered alike by both implementations. Left open:
patterns with several wildcards, names of 128 bytes and more, whether an empty optional number is the default, "" or absent."""
TEXT["P02"] = """Oracle: the rule of the statement. Two known findings (see `known-findings.txt`): a caller without a role passes role
lists, and the server never passes a role; they are kept in scenarios of their own, so that any other violation is reported.
The statement was corrected (no removal of rules exists)."""
TEXT["G01"] = """Oracle: the first-match rule written anew with the C library's regular expressions; the connection to a backend is a
stand-in that records what it is given and answers in six ways."""
TEXT["F01"] = """Oracle: the byte stream: what is received must be a prefix of what was sent, message by message; the socket functions are
the harness's and answer each call in every way."""
TEXT["H01"] = """Oracle: a table of sessions with times; random bytes come from the harness. Handles are not used after removal."""
TEXT["H02"] = """Oracle: an independent reader of event streams (WHATWG rules) applied to the whole stream. Left open: events without id or
type may show NULL or ""; whether an id persists to later events; chunked event streams."""
TEXT["H03"] = """Oracle: a reference store. An identifier used by several stored events may mean any of them. With several threads every event must come back once, in the order of the identifiers, and a replay must be one that some moment of the store would give."""
TEXT["H04"] = """Oracle: the body each answer denotes; requests are read by an independent HTTP reader. Left open: which error a non-2xx
answer without body gives."""
TEXT["W01"] = """Oracle: clients, sockets, the listener and the wake-up pipe belong to the harness, which knows which message was
sent on which connection; each must be handled once, in order, and its answer must arrive whole on its own connection. A socket
used or closed after it was closed, or closed while another thread waits on it, a connection the server drops without reason, and
anything left open or allocated after release are violations. Every deviation from the default schedule costs one (delay bounding),
because the service threads (accept, clean-up, monitor) sleep and wake all the time. A first oracle allowed 12 s for stopping, but
virtual time may pass at any moment while threads are ready to run, so it flagged a 30 s poll that had expired meanwhile; the limit is
now 100 s, and a stop that never ends shows up as a deadlock or as no progress (corrected). The stand-ins left `errno` as the host had
it, which made runs differ; they set it now. Restarting a stopped server is not part of the statement."""
TEXT["H06"] = """Oracle: each answer names the message it belongs to; events are numbered; sockets, threads and memory are counted at the
end. A first version counted events delivered during release as delivered after the stop (corrected). Stop, start, reconnect
and release are called by one thread at a time and not from a callback."""
TEXT["H05"] = """Oracle: the rule of the statement, on the parsed list and through the endpoint's callback with a libwebsockets stand-in.
An empty list means no restriction; over-long origins may be refused for their length alone."""
TEXT["M01"] = """Oracle: after each crash the store is loaded by the library itself and must give a complete old or new session. The file
system in memory (`checks/memfs.h`) keeps per file the unsynchronised writes and per directory the unsynchronised changes,
and every surviving subset (the last write possibly cut) resp. prefix is tried. A first oracle flagged a deleted session that
comes back after a machine crash; deletion is not part of the statement (corrected)."""
TEXT["M02"] = """Oracle: a reference store per client. Left open: the second between interval and interval + 1 s, and whether a session that
has expired but is still present `exists`."""

TAIL = r"""
## Planted bugs and what catches them

Each was planted from the text of a property; its demonstration fails with it and passes without, the existing tests pass with
it, and the check of its property reports it.

| planted bug | reported by | what it breaks |
|---|---|---|
| D01-long-keys | D01, `long` | keys are compared by their first 255 bytes only, so long keys that differ later are taken for one another when they share a bucket |
| D02-move-tail | D02, `ops` | after moving the second of two elements to the front the list still takes it for the last one |
| F01-short-write | F01, `send` | after a short write the part that was sent partially is sent again from its start, corrupting the stream |
| G01-tool-prefix | G01, `tools` | a tool call is sent to a backend that lists only a prefix of its name |
| H01-old-data | H01, `life` | a new session starts with the user data of an ended one |
| H05-origin-prefix | H05, `lists` | https://example.com.evil.org is accepted where https://example.com is allowed |
| J01-object-depth | J01, `depth` | object members no longer count as a level of nesting, so deeply nested objects are accepted and exhaust the stack |
| J02-number-digits | J02, `numbers` | numbers are written with one digit too few, so some read back as another number |
| J03-null-result | J03, `result` | a successful response with a null result is refused by the client side decoder |
| K02-sliding-expiry | K02, `ops` | every read prolongs the life of a cache entry, so a resource that is read regularly is never refreshed |
| L01-tombstone | L01, `many` | removing a request from the table cuts the chain of those that collided with it, so their responses are lost |
| P02-default-skip | P02, `history` | the default validator is not asked for templates whose access is restricted to roles |
| R01-prefix-client | R01, `sequences` | clients whose name begins with the name of a client in the same bucket share its allowance |
| R02-sliding-edge | R02, `algorithms` | the sliding window holds on to requests for one second too long |
| R03-early-unlock | R03, `basic` | simultaneous requests of one client are admitted beyond the limit |
| S02-long-key | S02, `longkeys` | only the first 32 characters of the API key are compared |
| S03-key-expiry | S03, `expiry` | contexts of API keys never expire |
| T02-early-count | T02, `wait` | a task counts as completed before it has run, so waiting for the pool ends too early |
| W01-error-drop | W01, `one` | a connection is dropped when one of its messages fails without an answer, and the messages after it are lost |

## What was strengthened because a planted bug or mutant was missed

| property | what was added |
|---|---|
| Y01 | `share`: two readers that must hold the lock together, by lock and by try-lock (a read lock taken as a write lock had passed) |
| mcrt | readers release into a clock that only writers join (races between two readers had been hidden) |
| T01, T02 | `uneven` queues; waits overtaken by later tasks (`passed`) |
| K01 | the order of lookups (`order`), D01 keys beyond 255 bytes (`long`), S02 keys beyond 64 bytes (`longkeys`) |
| S01 | every method with every kind of parameter (`methods`), memory after repeated messages (`steady`) |
| S03 | every kind of authentication (`types`), S05 the server's own limit on requests (`rate`) |
| R01, R02 | clients and rules are released with the limiter (`leak`) |
| H03 | two threads on one event store (`threads`), H04 further answers of the server (`answers`), H06 events with identifiers |
| P01, P02 | further templates (`more`); roles in every order (`roles`) |
| L01 | wake-ups (`wakes`), memory after many calls (`steady`, `receiver`), answering threads (`threads`) |
| J02 | every escape (`escapes`), F01 memory after failed receives |
| N01, N02 | several waiters (`waiters`), two connections kept at least (`min-two`), hosts that differ by port (`ports`), age of an entry (`age`) |
| M02, H01 | expiry at every age (`ages`), and just before and after it (`near`) |

Mutants that no check reports and that were judged to keep every stated property: changes of log texts and statistics, of the order of
clean-up steps nobody can observe, an empty vector entry after a short write, a stop flag that is cleared although the
socket is shut down as well, rejecting statuses other than 200 for the event stream, and checks repeated by a caller.
"""
