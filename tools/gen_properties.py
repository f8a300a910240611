#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
W = "wruster/src/"
LIB, HTTP, HDR = W+"lib.rs", W+"http/mod.rs", W+"http/headers.rs"
CANC, TMO, OBS, TLS = W+"streams/cancellable_stream.rs", W+"streams/timeout_stream.rs", W+"streams/observable.rs", W+"streams/tls/mod.rs"
SP, DP, TP = W+"thread_pool/static_pool.rs", W+"thread_pool/dynamic_pool.rs", W+"thread_pool/mod.rs"
CL, CP = W+"http/client/mod.rs", W+"http/client/connection_pool.rs"

p("C01", "Every request gets exactly one response, in order, on its own connection",
  "On a persistent connection every well-formed request the client sends is handled exactly once and answered exactly once, in the order sent, with the response its own handler call produced. This holds however the bytes of the requests are split or glued together by the network (pipelining included) and however concurrent connections interleave.",
  ["schedules", "inputs", "histories"], "all splits of the byte stream of short request sequences into segments (including several requests in one segment), all short reads, and all interleavings of two connections up to the preemption bound",
  "the tests send one request in one write on one connection; none sends a second request, splits one, or runs two connections at once",
  [LIB, HTTP, CANC], [("conversation loop: read, act, drain the body, write", LIB+" handle_conversation/handle_connection"), ("per-connection worker", TP)],
  ["bytes the client reads", "handler call log"])
p("C02", "A request body never leaks into the next request",
  "Whether a handler reads all, part or none of a request body, the next request on the connection is parsed from exactly the first byte after that body. A handler never sees bytes beyond its request's declared Content-Length.",
  ["inputs", "histories", "schedules"], "all (body length, amount consumed by the handler, consumption style) up to the bound, followed by a further request, under all segmentations",
  "the tests only use handlers that read the whole body and connections with a single request",
  [LIB, HTTP], [("ensure_read drains what the handler left", HTTP+" Body::ensure_read"), ("body limited by take(content_length)", HTTP+" Body::read_from")],
  ["handler call log", "bytes the client reads"])
p("C03", "Connections persist exactly when version and Connection header say so",
  "After answering a request the server keeps the connection open if the request was HTTP/1.1 without the `close` connection option, or HTTP/1.0 with the `keep-alive` option (option names are case-insensitive and may be one element of a comma-separated list), and closes it after the response otherwise. A connection that is kept open serves the next request normally.",
  ["inputs", "histories"], "all combinations of version, Connection header spelling and value list up to the bound, over sequences of requests",
  "no test varies the Connection header or the version or looks at what happens after the first response",
  [LIB, HTTP], [("is_connection_persistent", LIB), ("Request::is_connection_persistent", HTTP)], ["whether the client sees EOF after the response"])
p("C04", "Malformed input is contained",
  "Whatever bytes a client sends, the server never panics and never loops or hangs on it beyond the read timeout, never runs a handler for a request whose request line or header section is malformed, and answers with 400 or closes that connection. Afterwards it still serves well-formed requests on new connections.",
  ["inputs", "histories"], "all byte strings up to a small length over an adversarial alphabet, and all single- and two-site corruptions (truncate, delete, duplicate, replace, insert) of valid requests",
  "the tests try a handful of malformed headers directly against the parser; none sends garbage to a server",
  [LIB, HTTP, HDR], [("InvalidRequest becomes 400 and close", LIB+" handle_connection"), ("grammar checks", HTTP+" HttpRequestLine::read_from, "+HDR+" parse_header_line")],
  ["handler call log", "response status", "panics", "liveness of a second connection"])
p("C05", "Request parsing agrees with the HTTP/1.1 grammar",
  "A well-formed request (method SP target SP version CRLF, header fields `token: value`, empty line, body of exactly Content-Length octets) is parsed to exactly the method, target, version, header fields and body it spells. A request whose request line, header field syntax or Content-Length value is outside that grammar is rejected with an error, as is one whose body comes in a transfer coding other than identity, which the library does not decode; parsing gives the same result however the input is chunked by the reader.",
  ["inputs"], "all messages a bounded grammar generates, all of their bounded corruptions, under every short-read pattern up to the bound, against an independent reference parser",
  "a dozen hand-picked messages are parsed in one chunk each",
  [HTTP, HDR], [("Request::read_from", HTTP), ("Header::parse_header_line", HDR), ("Body::read_from", HTTP)], ["Request fields", "error kind"])
p("C06", "Header names are case-insensitive and values are exact",
  "A header received in any letter case is found under its usual name, several fields of the same name keep all values in order of arrival, and the stored value is the field content without surrounding optional white space. Framing and connection decisions (Content-Length, Transfer-Encoding, Connection, Content-Type) follow these rules in every spelling, and so do the fields a program adds to a message itself.",
  ["inputs"], "all letter-case patterns of the framing header names, all bounded combinations of repeated headers and surrounding white space",
  "the tests use two or three spellings and never check trailing white space or the effect on framing",
  [HDR, HTTP], [("normalize_header_name, Headers::add/get", HDR)], ["Headers::get", "message framing"])
p("C07", "Responses are framed so that the client always knows where they end",
  "Every response the server sends carries exactly one Content-Length, equal to the number of body bytes that follow, whichever constructor or combination of fields the handler used. If the body turns out shorter than declared or fails while being sent, the connection is closed rather than continued out of sync, and a longer source never spills beyond the declared length.",
  ["inputs", "fault_sequences"], "all combinations of response constructor, status, header presence, body length and body source behaviour (exact, short, long, failing at every byte), followed by another request",
  "the tests check three literal responses and never a body that disagrees with its length or the bytes on a live connection",
  [HTTP, LIB], [("Response::write adds Content-Length", HTTP), ("Body::write", HTTP)], ["bytes the client reads"])
p("C08", "Messages survive a write/read round trip under any short reads and writes",
  "Writing a request or response with a valid combination of fields and reading the bytes back yields the same method, target, version or status, headers and body. The bytes are identical however the destination accepts them in pieces, and a write that fails is reported as an error, never as success.",
  ["inputs", "fault_sequences"], "all messages of a bounded domain, all short-write and short-read patterns up to the bound, and an I/O error injected at every call",
  "the tests write to a Vec, which accepts everything at once and never fails",
  [HTTP, HDR], [("Request::write, Response::write, Body::write", HTTP), ("Header::write", HDR)], ["bytes written", "value returned"])
p("C09", "Status codes, methods and versions map both ways without loss",
  "Every numeric code 100 to 999 maps to a status and back to the same code on the wire, known codes carry their own reason phrase, every method and version name parses to the value that prints as the same name, and unknown or differently-cased names are rejected.",
  ["inputs"], "all three-digit codes, all methods, all versions and all strings of a bounded alphabet", "only a few codes and versions are exercised by tests",
  [W+"http/status.rs", HTTP, W+"http/version.rs"], [("StatusCode conversions", W+"http/status.rs"), ("HttpMethod::from_str/Display", HTTP), ("Version", W+"http/version.rs")], ["printed and parsed values"])
p("C10", "Routing picks the most concrete parent route registered for the method",
  "A request is served by the handler registered, for its method, under the longest route that is the request path or one of its parent directories (`/a` is a parent of `/a/b`, not of `/ab`), and gets 404 when there is none. The result does not depend on the order in which routes were added, re-adding a route for a method replaces only that handler, and a query string does not change the route chosen.",
  ["inputs", "configurations", "histories"], "all route sets up to a bound over a small path alphabet, all orders of adding them, all methods and request paths, against a naive longest-parent model",
  "three route sets with one lookup each are tested, always added in one order",
  [W+"router/mod.rs", W+"router/trie.rs", LIB], [("Router::get_prefix", W+"router/mod.rs"), ("Trie", W+"router/trie.rs")], ["which handler answers"])
p("C11", "Request paths are normalized and can never climb above the root",
  "The target a handler sees is the lexical normal form of the request path: `.`, empty and `..` segments are resolved, and no `..` segment remains. A target that is not absolute or that climbs above the root is refused with an error status and no handler runs; normalization never changes a path that is already normal.",
  ["inputs"], "all paths up to a bounded number of segments over {empty, ., .., names}, against a reference normalizer", "five literal paths are tested",
  [W+"router/mod.rs", LIB], [("Normalize for PathBuf", W+"router/mod.rs"), ("run_action", LIB)], ["request.uri in the handler", "response status"])
p("C12", "Static files are served exactly, and nothing outside the directory ever is",
  "For a request naming a regular file inside the served directory the response is 200 with that file's exact bytes and length; any other request (missing, directory, or a target that leads outside the directory by `..` or absolute segments, however spelled) yields an error status and never the content of a file outside.",
  ["inputs"], "all targets up to a bounded number of segments over {names in and out of the tree, ., .., empty, absolute}, both through a server and by calling the handler directly",
  "the handlers crate has no tests at all",
  ["wruster_handlers/src/lib.rs", "wrustatic/src/main.rs"], [("serve_static", "wruster_handlers/src/lib.rs"), ("path normalization before dispatch", LIB)], ["response status, headers and body"])
p("C13", "The worker pool runs every accepted task exactly once",
  "A task the pool accepts runs exactly once, on one of its threads; a task it refuses is handed back and never runs. This holds for every interleaving of submissions, task completion, worker start-up and idle expiry.",
  ["schedules", "histories"], "all interleavings up to the preemption bound of bounded submission sequences over small pool sizes, with idle timers firing at any point",
  "the tests run one schedule per pool shape and use sleeps to avoid races",
  [TP, SP, DP], [("rendezvous hand-off with try_send", SP+" Worker::exec, "+DP+" DynamicWorker::exec")], ["task execution log"], hook="re-export of the pool under cfg(wruster_mc)")
p("C14", "Pool capacity is honoured and always recovered",
  "At most max(min, max) tasks run at the same time, a task beyond that is refused and never queued behind another, and whenever fewer than that are unfinished and the pool is quiescent a new task is accepted. Capacity comes back after any history of completed tasks, idle expiry and refused tasks.",
  ["schedules", "histories"], "all bounded histories of submit, finish and idle-expiry over pool sizes (0..2, 0..3), all interleavings up to the bound",
  "the tests fill a pool once and never exercise expiry together with new submissions",
  [TP, SP, DP], [("free cell list", DP+" free_cells"), ("worker scan", SP+" Static::run")], ["result of run", "concurrency seen by tasks"], hook="re-export of the pool under cfg(wruster_mc)")
p("C15", "Dropping the pool waits for running tasks and always returns",
  "Dropping the pool returns only after every accepted task has finished and every worker thread has ended, and it returns in every schedule in which the tasks themselves end, including drops that race with worker start-up, hand-off and idle expiry.",
  ["schedules"], "all interleavings up to the bound of drop with starting, busy, idle and expiring workers", "tests drop pools in one schedule",
  [TP, SP, DP], [("drop sender then join", SP+" Drop, "+DP+" Drop")], ["thread count after drop", "task log"], hook="re-export of the pool under cfg(wruster_mc)")
p("C16", "A panicking handler only hurts its own connection",
  "When a handler panics, its connection is closed or answered with an error and nothing else changes: other connections keep being served, the number of requests the server can handle at once does not shrink, and shutdown still completes without error.",
  ["schedules", "histories", "fault_sequences"], "all histories of panicking and normal requests up to the bound on small pools, with a panic in any of them, all interleavings up to the bound",
  "no test has a handler that panics",
  [LIB, SP, DP], [("worker threads run the handler", SP+", "+DP)], ["responses on other connections", "shutdown result"])
p("C17", "Graceful shutdown completes the requests in progress",
  "A request that was completely received before shutdown is called and whose handler is running is still answered completely, and shutdown waits for it. Idle connections are closed, and no new request is started afterwards.",
  ["schedules"], "all interleavings up to the bound of shutdown with a connection in each phase (idle, partial request, handler running, response being written)",
  "tests call shutdown only when nothing is in progress",
  [LIB, CANC, OBS], [("drain of the tracked streams on stop", LIB+" accept_connections"), ("done flag", CANC)], ["bytes the client reads", "moment shutdown returns"])
p("C18", "Shutdown always terminates and leaves nothing behind",
  "Whatever connections are open and in whatever state, shutdown returns within the configured timeouts, after which every server thread has ended, every server socket is closed and the address can be bound again. This holds when shutdown races with connections being accepted, refused, served or closed.",
  ["schedules", "histories"], "all interleavings up to the bound of shutdown with connects, requests and closes in every phase",
  "tests shut down an idle server after a sleep",
  [LIB, OBS, CANC, TP], [("stop flag and poller notify", LIB+" shutdown"), ("tracked stream list", OBS)], ["threads, sockets and bindings left"])
p("C19", "A saturated server answers 503 and recovers",
  "When all workers are busy a new connection gets a complete 503 response and is closed, requests in progress are not disturbed, no other handler runs for it, and once a worker is free new connections are served normally again.",
  ["schedules", "histories"], "all interleavings up to the bound of a full pool with one more connection, with and without request bytes already sent, and with the worker becoming free at any point",
  "no test saturates a server",
  [LIB, TP], [("handle_busy", LIB)], ["bytes each client reads"])
p("C20", "Failures while accepting connections do not stop the server",
  "If accepting or preparing a connection fails (connection aborted, interrupted, no descriptors left, nothing to accept after all, TLS set-up failure), the server does not panic or stop: it goes on accepting and later connections are served. Connections already open are unaffected.",
  ["fault_sequences", "schedules"], "an error of each kind injected at every system call of the accept path, singly and in pairs",
  "no test injects a failure", [LIB, CANC, TLS], [("accept loop", LIB+" accept_connections"), ("stream builder", LIB+" run_tls")], ["later connections are served", "server result"])
p("C21", "A request that is not received within the read timeout ends the connection",
  "If a complete request has not arrived within the read timeout after the server starts reading it (including while idle), however its bytes trickle in, the connection is closed at that deadline and the worker is free again. A request that arrives within the timeout is never cut off, for every timeout value including below one second.",
  ["inputs", "schedules", "configurations"], "all arrival patterns of a request in up to four pieces with gaps on a grid of virtual time around the deadline, for several timeout values",
  "one test waits for one real second on an idle connection; the module's own tests are timing-dependent and are skipped",
  [TMO, CANC, LIB], [("TimeoutStream remaining time", TMO), ("poll wait with timeout", CANC)], ["virtual time at which the client sees the close"])
p("C22", "A client that does not take its response within the write timeout is dropped",
  "If a response cannot be written completely within the write timeout, however slowly the client drains it, the connection is closed at that deadline and the worker is free again. A client that drains the response within the timeout receives all of it.",
  ["inputs", "schedules", "configurations"], "all drain patterns of a response larger than the socket buffer in up to four steps with gaps on a grid of virtual time around the deadline",
  "no test has a slow reader", [TMO, CANC, LIB], [("TimeoutStream remaining time", TMO), ("write loop", CANC+" write_int")], ["virtual time at which the worker is free", "bytes the client reads"])
p("C23", "Connections leave no descriptors, threads or tracking entries behind",
  "After any history of connections that have ended, in whatever way they ended, the server holds no socket, poller or tracking entry for them, and no more threads than its pool configuration allows.",
  ["histories", "schedules", "fault_sequences"], "all histories of up to three connections over {normal, malformed, aborted at every byte, timed out, refused as busy}, descriptors and threads compared before and after",
  "no test counts resources", [OBS, CANC, LIB], [("Drop of the observed stream", OBS)], ["open descriptors and threads in the quiescent state"])
p("C24", "A TLS server behaves like the plain one",
  "Over TLS the client gets the same responses, bodies and persistence as over plain TCP for the same requests, however TLS records are split, joined or delayed and for bodies larger than one record. Deadlines, shutdown and 400 handling work the same, and a client that does not speak TLS or stops in the handshake only loses its own connection.",
  ["inputs", "schedules", "fault_sequences"], "request sequences with every cut of the TLS byte stream up to the bound, record sizes from one byte to the maximum, handshakes cut at every point",
  "one TLS test sends one small request", [TLS, CANC, LIB], [("tls::Stream over rustls", TLS), ("read/write loops", CANC)], ["responses the TLS client reads"])
p("C25", "Certificate and key loading accepts exactly the files that hold one",
  "Loading a certificate or private key returns the first one in the PEM file whatever other items precede or follow it, and returns an error, never a panic, when the file is missing, unreadable as PEM or holds none of that kind.",
  ["inputs"], "all sequences up to length three of PEM items {certificate, RSA, PKCS8, EC key, junk, truncated item}", "one good file of each kind is loaded",
  [TLS], [("Certificate::read_from, PrivateKey::read_from", TLS)], ["value or error returned"])
p("C26", "The client never mixes up responses",
  "Each client call returns the response to its own request: a connection is reused only after its previous response has been completely consumed and only if both sides keep it open, so leftover or late bytes are never taken for another response. A failed or truncated exchange is reported as an error and its connection is not reused.",
  ["schedules", "histories", "fault_sequences"], "all histories of up to three calls by one or two threads against a scripted server (complete, close, truncated, delayed, Connection: close), with responses read fully, partly or not",
  "two tests run one and two well-behaved calls", [CL, CP], [("ClientResponse::drop returns the connection to the pool", CL)], ["responses returned", "connections opened"])
p("C27", "The client's connection pool is a bounded LRU map with idle expiry",
  "The pool returns the most recently inserted resource for a key at most once, never holds more than its maximum, evicts the least recently used entry to make room for a new one and keeps the new one, and drops entries idle for longer than the timeout while keeping younger ones.",
  ["histories"], "all operation sequences up to the bound over insert, get, drain and time steps, started from empty and from nearly full pools, against a reference model in virtual time",
  "one insert/get pair is tested", [CP], [("remove_lru, expire_connections", CP)], ["values returned by get and drain"], hook="re-export of the pool under cfg(wruster_mc)")
p("C28", "The client's connection pool is safe under concurrency and stops promptly",
  "With threads inserting, taking and draining while entries expire, every resource is handed out at most once and never lost except by expiry or eviction, and dropping the pool or the client ends its background thread promptly in every schedule.",
  ["schedules"], "all interleavings up to the bound of two users and the expiry thread, and of drop with the expiry thread in every state",
  "one test drops an idle pool after a sleep", [CP, CL], [("stop flag and unpark", CP+" Drop")], ["resources handed out", "virtual time of drop"], hook="re-export of the pool under cfg(wruster_mc)")
p("C29", "I/O failures are reported as what they are",
  "Reading or writing a message reports a timeout as Timeout, a peer or local close before a message as ConnectionClosed, bad syntax as InvalidRequest and never reports a failed or truncated message as success, wherever in the message the failure strikes.",
  ["fault_sequences", "inputs"], "an error of each kind, or end of input, injected at every read and write call of every message of a bounded set", "no test injects I/O errors into the parser or writer",
  [HTTP, HDR, W+"http/errors.rs"], [("From<io::Error> for HttpError", W+"http/errors.rs")], ["error variant"])
p("C30", "The logging middleware is transparent",
  "Wrapping a handler with the logging middleware changes nothing observable: the same single call with the same request, the same response bytes, bodies still unread until the handler or server reads them.",
  ["inputs"], "all requests and responses of a bounded domain, wrapped zero, one and two times", "it has no tests",
  ["wruster_handlers/src/lib.rs"], [("log_middleware", "wruster_handlers/src/lib.rs")], ["handler call log", "response bytes"])
p("C31", "wrusdummy serves exactly what its configuration says",
  "For every valid configuration the dummy server answers each configured method and path with the configured status, content type and content, every time it is asked, and unknown ones with 404; an invalid configuration, method or content type makes it exit with a failure instead of serving.",
  ["configurations", "inputs"], "all configurations of up to two routes over small domains, and invalid variants, with every request of the domain asked twice", "it has no tests",
  ["wrusdummy/src/main.rs"], [("Routes::from_file, serve_route", "wrusdummy/src/main.rs")], ["responses", "exit status"])
p("C32", "wrustatic serves the given directory over HTTP and HTTPS",
  "Started on a directory, the static server answers GET requests for its files with their content and for anything else with an error status, over plain HTTP and, when a key and certificate are given, over TLS; bad arguments or unusable key material end it with a failure status.",
  ["configurations", "inputs"], "all bounded argument combinations and request targets", "it has no tests",
  ["wrustatic/src/main.rs"], [("main", "wrustatic/src/main.rs")], ["responses", "exit status"])
p("C33", "The server's life cycle calls behave as documented",
  "Starting fails with an error (not a panic) and changes nothing if the address cannot be used or the server is already started, waiting or shutting down a server that was not started is an error, and after a failed start or a completed shutdown the address can be used again. Waiting returns only when the server stops.",
  ["histories", "fault_sequences"], "all call sequences up to the bound over run, run_tls, shutdown, wait and new servers on the same or another address, with set-up failures injected at each system call",
  "tests only start once and shut down", [LIB], [("start/shutdown/wait", LIB)], ["results of the calls", "bound addresses"])
p("C34", "Slow or silent clients do not delay others",
  "While fewer connections are open than the server can handle at once, a connection that sends nothing, sends slowly or does not read its response never delays the responses on other connections.",
  ["schedules", "configurations"], "all mixes of up to two stalled connections (in every phase) with a normal one, all interleavings up to the bound, in virtual time",
  "no test has two connections open", [LIB, TP], [("one worker per connection", TP)], ["virtual time at which the normal client is answered"])
p("C35", "A connection lost at any point is handled as lost",
  "If the client closes or resets its connection at any point of a request or response, the server does not panic, a handler never takes a truncated body for a complete one, the worker becomes free and the server keeps serving others.",
  ["fault_sequences", "schedules"], "a close, half-close or reset of the client after every byte of a request and of the response, all interleavings up to the bound",
  "one stream-level test closes an idle connection", [LIB, CANC, HTTP], [("reads of zero bytes become errors", CANC), ("errors end the conversation", LIB)], ["handler's view of the body", "liveness of other connections"])
p("C36", "Response parsing agrees with the HTTP/1.1 grammar",
  "A well-formed response (version SP three-digit code SP reason CRLF, header fields, empty line, body of exactly Content-Length octets) is read as exactly the status, header fields and body it spells; one whose status line, header field syntax or Content-Length value is outside that grammar, whose body comes in a transfer coding other than identity, or that ends early, is an error. The result is the same however the input is chunked by the reader, and no byte beyond the body is taken for part of it.",
  ["inputs"], "all token sequences up to the bound, all one-site corruptions of base messages, every status line, every pair of bytes at every place, all chunkings of the base messages", "a handful of examples, delivered whole",
  [HTTP, HDR], [("HttpResponseLine::read_from, Response::read_from", HTTP), ("Body::read_from", HTTP)], ["status, headers and body read", "errors"])
p("C37", "A body yields exactly its content, once and in order, however it is used",
  "Whatever sequence of reads of any size, ensure_read, writes and printing is applied to the body of a message, received or built by a program, the bytes obtained are its content from the first one on, each once and in order. A received body never yields more than its Content-Length, nothing is left of it after ensure_read or after its end has been read, its early end is reported as an error and never as its regular end, and writing a body never writes more than its length.",
  ["inputs"], "all sequences of operations up to the bound on bodies of several sizes, sources (in pieces, interrupted, truncated, too long) and origins (request, response, program, inside a handler of a server)", "tests read a body once, completely",
  [HTTP], [("Body::read, Body::ensure_read, Body::write", HTTP), ("SizedReader", HTTP)], ["bytes read from the body", "results of the operations", "the next request of the connection"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
