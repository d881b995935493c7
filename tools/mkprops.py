#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as code so that wording is easy to review).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
L="wruster/src/lib.rs"; H="wruster/src/http/mod.rs"; HD="wruster/src/http/headers.rs"
CS="wruster/src/streams/cancellable_stream.rs"; TS="wruster/src/streams/timeout_stream.rs"; OB="wruster/src/streams/observable.rs"; TL="wruster/src/streams/tls/mod.rs"
SP="wruster/src/thread_pool/static_pool.rs"; DP="wruster/src/thread_pool/dynamic_pool.rs"; TP="wruster/src/thread_pool/mod.rs"
CL="wruster/src/http/client/mod.rs"; CP="wruster/src/http/client/connection_pool.rs"; R="wruster/src/router/mod.rs"; WH="wruster_handlers/src/lib.rs"

p("C01","Each request reaches its route's handler intact and exactly once",
"Every complete, well-formed request a client sends to a running server that has room for the connection is handed exactly once, and in the order sent on that connection, to the handler registered for its path and method, with the method, path, version, header values and body bytes the client sent (a path with no handler gets 404 and no handler runs). A request the client never completed is not processed as if it were complete: no handler ever reads as a full body anything but the bytes the client sent for that request. This holds however the bytes are segmented and delayed, whatever the handler does with the body, and whatever other connections do meanwhile.",
["schedules","inputs","histories","fault_sequences"],
"all client byte streams of well-formed requests, all segmentations and delays, all interleavings of connections and server threads, all client crash points",
"tests send one small request in one write on one or two connections over loopback; they never vary segmentation, thread interleaving, partial body consumption or client crashes",
[L,H,HD,R,CS,OB,SP,DP],
[("accept loop dispatches connections to pool workers",L+":accept_connections"),("conversation loop reads one request at a time",L+":handle_conversation/handle_connection"),("body limited to Content-Length and drained after the handler",H+":Body::read_from/ensure_read"),("route lookup",R+":get_prefix"),("work hand-off to pool threads",SP+", "+DP)],
observe=["arguments seen by registered handlers","bytes sent by clients"])
p("C02","Each client gets exactly its own handler's response, in order and intact",
"For every request handed to a handler, a client that keeps reading receives on the same connection exactly one response, before any response to a later request of that connection, whose status, headers and body bytes are those the handler returned, delimited by a correct Content-Length (the responses to HEAD requests, and those with status 204 or 304, end with their headers whatever body the handler gave; to HEAD the length of that body is announced). No byte of it is lost, duplicated, reordered or mixed with another response, however writes are split, buffers fill up, the client reads slowly (within the write timeout) or other connections progress.",
["schedules","inputs","histories","fault_sequences"],
"all responses built through the public constructors (no body, text, content, custom readers, small to multi-megabyte), all write splits and reader speeds, all interleavings",
"tests read one short response that fits one socket buffer; partial writes, full buffers and concurrent responses never occur in them",
[L,H,HD,CS,TS,OB,WH],
[("response serialisation",H+":Response::write, Body::write"),("write loop over a non-blocking socket",CS+":write_int"),("logging middleware must be transparent",WH+":log_middleware")],
observe=["bytes received by clients"])
p("C03","A response that cannot be completed never corrupts later exchanges",
"Whenever the server has started a response it either delivers the status line, headers and exactly the declared number of body bytes, or the connection ends right there: if the body source fails, ends early, offers more bytes than declared, or the client stops reading, the client never receives bytes of one response as part of another and never waits for body bytes on a connection that stays open.",
["inputs","fault_sequences","schedules"],
"all body readers (short, long, failing or stalling at any offset), all sizes around the buffering thresholds, all client read speeds and disconnect points",
"tests only use bodies whose reader matches the declared length and never fails",
[H,L,CS],[("body copy and length enforcement",H+":Body::write"),("connection closed after a write error",L+":handle_connection")],observe=["bytes received by clients"])
p("C04","A bad client or a panicking handler harms only its own connection",
"Whatever one client does (disconnect or reset at any point, send garbage, truncate a request, stall, stop reading) and even if a handler panics, every other current and later connection is accepted and served as usual and the server keeps its full capacity. The connection whose handler panicked is ended promptly.",
["fault_sequences","schedules","histories"],
"all disconnect/reset/garbage/stall points and handler panics, in any number and any interleaving with well-behaved connections",
"tests have well-behaved clients and handlers only; damage to shared threads or to the accept loop shows only under particular interleavings or after enough faults",
[L,SP,DP,CS,OB,HD],[("per-connection error handling",L+":handle_conversation"),("pool workers run untrusted actions",SP+", "+DP),("malformed header rejection",HD+":parse_header_line")],observe=["responses on other connections"])
p("C05","The server outlives transient operating-system failures",
"Transient failures of system calls (interrupted waits, aborted or reset connections at accept, descriptor or buffer exhaustion while accepting or setting a connection up, failure to create a thread, failing socket operations) cost at most the connection they hit. After they stop, the server accepts and serves new connections as before, and shutdown still works.",
["fault_sequences","schedules","crash_points"],
"all sequences of injected system-call errors at accept, poll, dup, register, thread creation, read and write, at every position",
"the tests never see a failing system call",
[L,CS,DP,SP],[("accept loop error handling",L+":accept_connections"),("per-connection set-up",CS+":new"),("thread creation",DP+":DynamicWorker::new")],observe=["service after faults stop","Server::shutdown result"])
p("C06","The read timeout ends requests that are too slow, and only those",
"A connection whose current request (line, headers or body) is not completely received within the configured read timeout, counted from when the server starts waiting for it, is closed by the server at about that moment, no matter how the bytes trickle in and also for timeouts that are not whole seconds. A request that arrives within the timeout is served, however late within it.",
["schedules","inputs","configurations","fault_sequences"],
"all arrival patterns (silent, one byte at a time, bursts, stalls at any offset), all timeout values, all interleavings",
"the existing timeout test uses one 3 s stall in real time (and is skipped as flaky); drip-feeding and sub-second values are not exercised",
[TS,CS,L],[("time accounting of a read operation",TS+":Operation/TimeoutStream::read"),("cancellable wait",CS+":read_int")],observe=["time the client sees the connection closed"])
p("C07","The write timeout ends responses that are too slow, and only those",
"If a client does not accept a complete response within the configured write timeout, counted from the start of the response, the server gives up and ends the connection at about that moment, even if the client keeps accepting a little now and then. A client that accepts the response within the timeout receives all of it.",
["schedules","inputs","configurations","fault_sequences"],
"all reader speeds and stall points, response sizes above and below socket buffers, all timeout values",
"no test makes a peer stop or slow down reading a response that exceeds the socket buffers",
[TS,CS,L],[("time accounting of a write operation",TS+":TimeoutStream::write"),("write loop",CS+":write_int")],observe=["time the server ends the connection","bytes received"])
p("C08","Overload is refused with 503 and never disturbs connections being served",
"At most 100 connections are served at a time: while that many are being served, a further connection is answered 503 and closed without running a handler and without disturbing the others. Fewer connections than that are never refused once the server is quiescent, and when load drops the server serves new connections again.",
["schedules","histories","configurations"],
"all numbers of concurrent connections around the limit, all arrival/finish interleavings, any number of execution units",
"no test opens more than a handful of connections",
[L,TP,DP,SP],[("pool limit",L+":accept_connections Pool::new(execunits, 100)"),("busy answer",L+":handle_busy"),("slot accounting",DP+":Dynamic::run")],observe=["responses to connections beyond the limit"])
p("C09","Shutdown lets ongoing requests finish, then nothing of the server remains",
"Shutdown returns within a bounded time (idle or half-received connections do not hold it up; ongoing requests do, until they finish). Every request that had arrived completely and whose handler was running when shutdown was called gets its complete response. After shutdown returned no handler runs, all connections are closed, and the address can be bound again.",
["schedules","histories","fault_sequences"],
"all moments of the shutdown call relative to accepting, reading, handling and writing on any number of connections",
"one test calls shutdown at one point in time of one connection",
[L,CS,OB,SP,DP],[("stop flag and poller notification",L+":shutdown"),("cancellation of tracked streams",L+":accept_connections, "+OB),("pool drop joins workers",SP+", "+DP)],observe=["Server::shutdown return","client-visible responses","handler history"])
p("C10","Connections persist or close as the HTTP version and headers say",
"After a complete response the connection stays usable for further requests exactly when the request was HTTP/1.1 without 'Connection: close' or HTTP/1.0 with 'Connection: keep-alive' (names and values compared case-insensitively); otherwise the server closes it promptly after the complete response was delivered. A kept-open connection stays usable through any number of requests and through idle periods shorter than the read timeout.",
["histories","inputs","schedules"],
"all sequences of requests with any version/Connection combination, idle gaps and handler behaviours (body read, half read or ignored)",
"tests cover single exchanges; sequences mixing body consumption, idle time and connection options are not sampled",
[L,H],[("persistence decision",L+":is_connection_persistent"),("draining unread request bodies",L+":handle_connection, "+H+":ensure_read")],observe=["connection state seen by clients"])
p("C11","Malformed or unsupported input never runs a handler nor desynchronises",
"Bytes that are not a well-formed supported request (bad request line, bad header line, invalid or duplicated Content-Length, unsupported Transfer-Encoding, truncated message) never reach a handler and end the connection, with a 400 for syntax errors in the request line or headers, and never crash or spin the server. Body bytes are never interpreted as a request, even if they look like one, whatever the letter case of the framing headers and whatever the handler read of them.",
["inputs","schedules","fault_sequences"],
"all malformed messages at all truncation points and segmentations; all bodies, including bodies that contain valid requests",
"unit tests cover a few malformed messages presented whole to the parser, not a connection ended or stalled at arbitrary bytes",
[H,HD,L],[("request line parsing",H+":HttpRequestLine::read_from"),("header parsing and name normalisation",HD),("framing",H+":Body::read_from")],observe=["handler history","bytes received by clients"])
p("C12","Ended connections give back every descriptor and thread",
"Once a connection has ended, in whatever way (normal close, reset, timeout, error, refusal, panic), everything it used is released: after all connections ended and an idle period the server holds exactly the descriptors and the threads it held before them. This holds for any number of connections over the life of the server.",
["histories","fault_sequences","schedules"],
"all ways a connection can end, all interleavings of end and set-up, with injected set-up failures",
"tests never count descriptors or threads; leaks need particular failure paths",
[L,CS,OB,DP,TL],[("tracked stream removal",OB+":Drop for ObservableStream"),("dynamic worker expiry",DP+":DynamicWorker"),("poller and stream ownership",CS)],observe=["descriptors and threads alive in the process"])
p("C13","TLS connections give the same guarantees as plain ones",
"Over TLS each request reaches its handler intact and each response reaches the client intact and in order, within the time the exchange itself takes, however TLS records are split, coalesced or delayed and however slowly the client reads. Failed, garbage, stalled or aborted handshakes end only their own connection, within the read timeout, and never block or stop the acceptance of others.",
["schedules","inputs","fault_sequences"],
"all splits of TLS records into segments, records carrying several reads' worth of data, full socket buffers while encrypting, handshake aborts at any byte",
"one TLS test does one tiny exchange with everything arriving in order and at once",
[TL,CS,L],[("TLS stream over a non-blocking socket",TL+":Stream"),("readiness wait before each read/write",CS),("per-connection TLS set-up",L+":run_tls")],observe=["TLS client's view","handler history"])
p("C14","A client call returns its own request's response, on an exclusive connection",
"When a client call succeeds, the response it returns (status, headers, complete body) is the one the server sent for that very request, whether the connection was new or reused, however many threads share the client, and whatever earlier callers did with their responses (read, half read, dropped, server closed or failed in between). Each request is sent whole and never interleaved with another on the same connection.",
["schedules","histories","fault_sequences"],
"all interleavings of threads sharing one client and of connection reuse, all orders of reading/dropping responses, all server closes and failures between uses",
"client tests run sequential calls against a well-behaved server",
[CL,CP],[("connection checked out of the pool",CL+":run"),("connection returned when the response is dropped",CL+":Drop for ClientResponse"),("pool keyed by address",CP)],observe=["responses seen by callers","requests seen by servers"])
p("C15","Client calls always return: an answer or an error in bounded time",
"Against any server behaviour (refusing, resetting, closing early, sending garbage or truncated or never-ending responses, dripping bytes, stalling, never reading) a client call, the reading of its body and the dropping of its response each end within a bounded time with a complete correct result or an error. A truncated response body is never presented as a complete one, a call or body read that was given up because its time was over reports a timeout (HttpError::Timeout, ErrorKind::TimedOut) and not another error, and no call panics.",
["fault_sequences","inputs","schedules"],
"all server misbehaviours at every byte of the exchange and all delays",
"client tests only talk to a correct server",
[CL,H,TS,HD],[("response timeouts",CL+":run, "+TS),("response parsing",H+":Response::read_from")],observe=["results and durations of Client::run, body reads, drop"])
p("C16","The client's idle connections are reused, bounded, expired and released",
"Sequential persistent requests to one address reuse one connection when each response is consumed; at most 100 idle connections are kept, the one idle longest giving way to a new one; a connection idle for more than 30 s is closed within the next expiry cycle; and a connection is never reused after the server closed its side, asked to close it, or its last response could not be read to the end. Dropping the client closes all of its idle connections promptly and leaves no thread behind.",
["histories","schedules","fault_sequences"],
"all sequences of requests, idle periods and server closes over many addresses, all interleavings with the expiry thread",
"expiry needs tens of seconds of idle time and particular interleavings; tests do not go there",
[CL,CP],[("pool insert/get/expiry",CP),("drop",CL+":Drop for Client")],observe=["connections seen by servers","threads alive"])
p("C17","Static file serving returns exactly the file, or an error, never anything else",
"A GET for a path under the served directory returns the exact contents, length and guessed type of that regular file as it was at some moment of the request, 404 if nothing is there, and never bytes of a file outside the directory, whatever the path spelling. If the file cannot be read, shrinks or grows, or an I/O error occurs, the client gets an error status or a connection that ends, never a complete-looking wrong body.",
["inputs","fault_sequences","schedules"],
"all request paths, concurrent file changes between the server's file operations, I/O errors and short reads at every operation",
"static serving has no tests at all beyond documentation examples",
[WH,H,R],[("path resolution",WH+":serve_static"),("path normalisation",R+":normalize"),("body length enforcement",H+":Body::write")],observe=["responses to clients"])
p("C18","Reading a message does not depend on how its bytes arrive, and always ends",
"Parsing a request or response from any byte source yields the same message or the same error class however the source splits its reads and however often it reports interruption, consumes the source without needing bytes past the message to finish, and yields an error or a detectably short body if the source ends or fails before the message is complete. A message whose start line or header lines break the grammar (method, version, status code, field names, control characters) is rejected with an error. It never panics, loops forever or returns a complete message from a truncated one.",
["inputs","fault_sequences"],
"all messages, all read splits, all EOF/error/Interrupted points",
"tests parse whole messages from memory; splits and failures of the source are not varied",
[H,HD],[("request and response readers",H+":Request::read_from, Response::read_from"),("header line reader",HD+":Header::read_from")],observe=["values returned by the parsers"])
p("C19","Writing a message emits every byte once, or reports an error",
"Writing a request or a response to any byte sink emits exactly the serialised message however few bytes the sink accepts per call and however often it reports interruption, and returns an error whenever the sink or the body source failed before everything was emitted. What was emitted before an error is a prefix of the message.",
["inputs","fault_sequences"],
"all messages, all short-write patterns, all failure points of sink and source, sizes around the buffering thresholds",
"tests write to an in-memory vector that accepts everything",
[H,HD],[("start line writers",H+":HttpRequestLine::write, HttpResponseLine::write"),("header writer",HD+":Header::write"),("body writer",H+":Body::write")],observe=["bytes accepted by the sink and returned result"])
p("C20","A server's life cycle is orderly: one start, clear errors, reusable address",
"Starting on a free address makes the server reachable when start returns; starting twice, on an occupied or invalid address, or stopping or waiting on a server that never started returns an error and disturbs nothing that runs. Start/stop cycles can be repeated on the same address, and waiting returns only after the server stopped.",
["histories","schedules","fault_sequences"],
"all sequences of start, stop, wait on one or more servers and addresses, under all interleavings and set-up failures",
"tests start and stop one server per test on a fresh port",
[L],[("start guards",L+":start"),("shutdown and wait",L+":shutdown, wait")],observe=["results of run/shutdown/wait","reachability"])
p("C21","Pipelined requests are all answered, in order",
"If a client sends further requests on a persistent connection without waiting for earlier responses, each request is handed to its handler once and answered in the order sent, exactly as if the client had waited, however the requests share or straddle segments and whatever the handlers read of the bodies.",
["inputs","schedules","histories"],
"all groupings of consecutive requests into segments and all handler behaviours",
"no test sends a second request before reading the first response",
[L,H],[("per-connection read buffering",L+":handle_conversation, "+H+":Request::read_from")],observe=["responses received by pipelining clients"])
p("C22","The most specific registered route wins, per method",
"Whatever routes a server was given, in whatever order, and however many connections are served at the same time: a request is attended by a handler of the longest registered route its normalised path ('.', '..', repeated and trailing slashes removed; escapes not decoded; the query taken as a part of it) starts with, namely the one registered last for that route and the request's method; if that route has no handler for the method, or no route matches, the request is answered 404 and no handler runs. The handler sees the normalised path.",
["inputs","schedules","histories"],
"all route tables (routes below, beside and sharing prefixes with each other, all methods, any order of registration, repeated registrations), all paths, all interleavings of the connections that look routes up",
"tests sample a few tables with one request at a time and mostly call the table directly; the table is shared by all connections without a lock, which no test exercises concurrently",
[R,"wruster/src/router/trie.rs",L],[("trie lookup","wruster/src/router/trie.rs:get_value_prefix"),("path normalisation",R+":normalize"),("lookup and dispatch",L+":run_action, "+R+":get_prefix")],
observe=["which registered handler sees a request","status of the responses"])
p("C23","Status codes, versions, methods, header names and MIME values map losslessly",
"Every standard status code, method, version and header survives a parse/format round trip.",
["inputs"],"all codes, methods, versions, header names","tests sample a few; but these are pure functions",
["wruster/src/http/status.rs","wruster/src/http/version.rs",HD],[("conversion tables","wruster/src/http/status.rs")])
p("C24","The wrustatic and wrusdummy programs do what they are told, or refuse to start",
"Started with valid arguments, wrustatic serves the files below the given directory to GET requests (404 for everything else), and wrusdummy answers exactly the routes of its configuration file, each with the configured status, content and media type (404 for everything else), on the given address, over TLS exactly if wrustatic was given a key and a certificate, and they go on doing so whatever clients do. Started with anything else (missing, surplus or unknown arguments; a key without a certificate or the reverse; an address that is invalid or in use; a file that is missing, unreadable or holds no certificate or no usable key; a configuration that is not valid YAML, lacks a field, or has an invalid method, status or media type) they serve nothing and exit with a failure code within bounded time.",
["inputs","configurations","fault_sequences","schedules"],
"all command lines, configuration files, file trees, read errors of the files involved, log settings, and concurrent clients, well-behaved or not",
"there are no tests of the programs at all",
["wrusdummy/src/main.rs","wrustatic/src/main.rs","wruster_handlers/src/lib.rs","wruster/src/streams/tls/mod.rs"],[("configuration loading and start","wrusdummy/src/main.rs:main, config::Routes::from_file"),("arguments, certificate and key loading","wrustatic/src/main.rs:main"),("request logging around handlers","wruster_handlers/src/lib.rs:log_middleware")],
observe=["exit code of the program","responses to clients"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
