#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for ids, titles, statements)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None,
      **({"state":[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}))))

p("C01","Every response reaches exactly the request it answers",
 "Every request accepted on a connection and answered by its handler gives the caller that issued it, and no other caller, exactly the first frame the handler produced for that request: same request id, same command, same payload bytes. Request ids handed out on one connection are never repeated; ids issued by the client are odd and ids issued by the server are even. This holds for any number of concurrent callers and connections, any mix of blocking and nonblocking requests, any order of completion, any payload size and any channel-size/batching configuration.",
 ["schedules","inputs","configurations"],"all interleavings of concurrent callers and handlers, all payloads/commands, all ReadFrameChSize/WriteFrameChSize/buffer configurations",
 "Tests send the identical payload from every caller and expect the identical answer, so a swapped, duplicated or stale response is invisible to them.",
 ["clientconn.go","serveconn.go","framereader.go","framewriter.go","stream.go"],
 [("response table keyed by request id, registered before the write","clientconn.go writeBuffers/readFrames"),("request id generators","clientconn.go/serveconn.go nextRequestID")],
 ["Connection.Request / Response.GetFrame at the caller","handler entry on the server","bytes on the wire (OverlayNetwork/ListenFunc tap)"])

p("C02","Blocking requests are handled one at a time, in order",
 "Requests sent on one connection without the nonblocking flag are handled strictly one at a time and in the order they were sent: the handler of one does not start before the handler of the previous one has returned, and their responses leave the server in that same order. A frame sent after a blocking request is not dispatched while that request's handler is still running. Different connections do not serialize each other.",
 ["schedules","inputs","configurations"],"all pipelined sequences of blocking, nonblocking and failing requests on one connection, all handler durations, all ReadFrameChSize values",
 "No test pipelines more than one blocking request at a time on a connection.",
 ["serveconn.go"],[("gate between the reader and the dispatch loop","serveconn.go readFrames/serve")],
 ["handler entry/exit events","response order on the wire"])

p("C03","A stalled nonblocking handler delays nobody else",
 "A nonblocking or streamed request is dispatched, and its response delivered, without waiting for any earlier nonblocking request on the same connection: however many earlier nonblocking handlers are stalled, later requests on that connection still complete, in whatever order their handlers finish. A handler that returns without reading the rest of a request stream does not stop later traffic on the connection. Nothing that happens on one connection (stalled handler, unread data, stopped peer) delays requests on another connection.",
 ["schedules","inputs","configurations"],"all sets of stalled handlers, all completion orders, all numbers of connections",
 "Tests only ever run handlers that answer at once, so a dispatcher that serialized them would pass.",
 ["serveconn.go","framereader.go","stream.go","clientconn.go"],[("goroutine per nonblocking request","serveconn.go serve"),("stream reader drops frames nobody will read","stream.go AddInFrame")],
 ["handler entry events","caller completion events"])

p("C04","Streams deliver every frame once, in order, then end",
 "For every streamed request and streamed response, in either direction, the receiving side observes exactly the frames the sender wrote successfully (same command, flags and payload), each once and in sending order, and sees the end of the stream only after the last of them. Frames of concurrently open streams and of ordinary requests on the same connection never leak into one another. A sender that has finished its side can still receive the rest of the other side.",
 ["schedules","inputs","histories"],"all interleavings of concurrent streams in both directions, all frame counts and sizes, all ways of ending a stream",
 "The only streaming test sends two frames on a single stream.",
 ["stream.go","framereader.go","serveconn.go","clientconn.go","framewriter.go"],[("stream table and per-stream channel","stream.go ConnStreams/AddInFrame/closePeerIfNeeded"),("stream end accounting","stream.go AddOutFrame/afterDone")],
 ["StreamWriter.EndWrite at the sender","Frame.FrameCh at the receiver"])

p("C05","Frames are written whole, well formed, exactly once",
 "Every frame whose EndWrite returned success appears on the wire exactly once, as contiguous bytes in the documented format (big-endian 4-byte length, 8-byte id, 1-byte flags, 3-byte command, payload) with exactly the id, flags, command and payload given to the writer. Frames from concurrent writers are never interleaved, lost, truncated or duplicated, even if the transport accepts the bytes in arbitrary pieces or repeatedly times out part-way. Frames written one after another by the same writer keep that order.",
 ["schedules","inputs","fault_sequences","configurations"],"all interleavings of concurrent writers, all frame sizes and flag/command values, all ways the transport can split or delay a write, all batch sizes",
 "Tests talk to qrpc's own reader over an unloaded loopback socket, so partial writes never happen and a symmetric format error is invisible.",
 ["framewriter.go","writer.go","serveconn.go","clientconn.go"],[("write lock and batching","serveconn.go writeFrameBytes/collectWriteFrames/writeBuffers"),("resume after a partial vectored write","writer.go writeBuffers"),("header encoding","framewriter.go")],
 ["net.Conn given through OverlayNetwork/ListenFunc: every byte written"])

p("C06","Decoding ignores segmentation; malformed frames close only their connection",
 "What a server or client delivers depends only on the byte sequence received, not on how it is split into reads: every well-formed frame before the first malformed one is delivered with exactly its header and payload. A frame whose declared length is below the 12-byte minimum or above the configured maximum is never delivered and its connection is closed; a frame of exactly the maximum size is delivered. No byte sequence from a peer crashes the process or disturbs any other connection.",
 ["inputs","fault_sequences","configurations"],"all byte sequences, all segmentations, all frame-size limits, connection cut at any byte",
 "Tests only ever receive frames produced by qrpc's own writer, whole, from a friendly peer.",
 ["framereader.go","reader.go","serveconn.go","clientconn.go","stream.go"],[("header/length parsing and limits","framereader.go readFrame"),("buffered full reads","reader.go ReadBytesWithMaxTimeout")],
 ["raw peer sockets","handler entry events","a control connection"])

p("C07","Writes after a stream's end are refused and send nothing",
 "Once a side has finished its half of a request or stream (final response written, end flag sent, or reset sent), every further write on it, by its handler's writer or its stream writer, is refused with an error and puts no bytes on the wire, and resetting a request that does not exist or is already over on both sides sends nothing either. A write that returned success was handed to the transport exactly once. A request the library refused (closed connection) is never seen by the peer.",
 ["histories","schedules"],"all sequences of writes, ends and resets by either side, alone or batched with other traffic",
 "No test writes past the end of a stream or looks at what reaches the wire afterwards.",
 ["stream.go","serveconn.go","clientconn.go","framewriter.go"],[("AddOutFrame state machine","stream.go"),("existence check for continuation writers","clientconn.go/serveconn.go collectWriteFrames")],
 ["return values of EndWrite/ResetFrame","tap on the wire"])

p("C08","Reset and cancellation hit exactly their target, both ways",
 "Resetting a request from the calling side cancels the context of, and ends the frame channel of, exactly that request at the serving side; no other request is affected and the handler may still answer the cancelled one. When the serving side ends a request without completing an answer (explicit reset, or its handler returned without finishing), the caller is released: a waiting response fails with the stream-closed error and an open response stream ends. A request's context is not cancelled before the request has been answered completely, unless it was reset or its connection ended.",
 ["schedules","histories"],"all choices of target among concurrent requests, all positions of the reset relative to frames of the same and other streams, both directions",
 "The only cancellation test has a single request in flight and no reset from the server.",
 ["stream.go","framereader.go","clientconn.go","serveconn.go"],[("reset handling","framereader.go ReadFrame, stream.go ResetByPeer/AddOutFrame"),("reset for unfinished handlers","serveconn.go/clientconn.go handleRequestPanic")],
 ["RequestFrame.Context / FrameCh in handlers","Response.GetFrame at callers"])

p("C09","When a connection ends, everything waiting on it is released",
 "When a connection ends for any reason (local close, peer close, reset, I/O error, malformed input, at any byte or moment), every pending response on it completes with an error or its genuine answer, every handler's context is cancelled, every open frame channel is closed, blocked writers get an error and waiting on the connection returns. Requests issued afterwards fail instead of hanging. No response is ever completed with an answer that was not received.",
 ["crash_points","fault_sequences","schedules"],"cut points at every byte offset of the exchange in either direction, every way of closing, every mix of pending operations including half-read streams",
 "No test closes a connection with work pending.",
 ["clientconn.go","serveconn.go","stream.go","framereader.go"],[("closeRWC/endLoop on the client","clientconn.go"),("closeUntracked and stream release on the server","serveconn.go"),("stream release","stream.go Release")],
 ["caller completion","handler context/FrameCh","Connection.Wait / Done","OnClose"])

p("C10","A panicking handler fails only its own request",
 "A panic in a request handler (on the server or in a client-side handler) affects only that request: its caller is released with the stream-closed error unless it was already answered, and every other request on that connection, before, during or after it, is answered correctly. The process and the connection survive any number of such panics. This holds for blocking, nonblocking and streamed requests and wherever in the handler the panic occurs (before, between or after writes).",
 ["inputs","schedules"],"all panic values and positions, all request modes, all mixes with healthy traffic",
 "No test has a handler that panics deliberately.",
 ["serveconn.go","clientconn.go"],[("recover and reset","serveconn.go/clientconn.go handleRequestPanic")],
 ["callers of healthy and panicking requests","process liveness"])

p("C11","Bytes of an unfinished or failed frame never reach another frame",
 "Payload bytes put into a frame that is then abandoned (handler returned or panicked before finishing it), refused or failed never appear in any other frame, on the same connection or another one, now or later. Payload bytes passed to a writer are copied: changing the caller's slice afterwards does not change what is sent. A received payload is never changed by later traffic, nor by what the receiver of another frame does with its own (changing it or appending to it).",
 ["histories","schedules","inputs"],"all sequences of abandoned, failed and successful frames over pooled and shared writers, all connections",
 "No test abandons a frame, and all test payloads are equal so mixing would often go unseen.",
 ["framewriter.go","serveconn.go","clientconn.go","reader.go"],[("pooled frame writers","framewriter.go fwPool/newFrameWriter/Finalize"),("writer shared by blocking requests","serveconn.go serve")],
 ["wire tap: every payload byte must belong to the frame's own writer","received payloads re-checked later"])

p("C12","Pushed frames and responses never mix",
 "A frame pushed by either side is delivered to the receiver's subscription callback exactly once, with exact id, command and payload, and in order for one writer; it is never handed to a waiting request and never dispatched to a request handler. Responses are never handed to the subscription callback, even if a push carries the same id as a pending request. Pushing needs no response: a pushed request returns no response object, and a receiver without a callback ignores it.",
 ["schedules","inputs"],"all interleavings of pushes and requests in both directions, all id collisions, all pushers",
 "The push test only checks that the call returns.",
 ["clientconn.go","serveconn.go","stream.go","framereader.go"],[("push dispatch before response lookup","clientconn.go/serveconn.go readFrames"),("separate push stream table","stream.go")],
 ["subscription callbacks","handlers","callers"])

p("C13","Server-initiated requests work like client ones",
 "A request or stream opened by the server on a connection is dispatched once to the client's handler with exact command and payload and its answer returns to exactly the server-side caller that issued it, while client-initiated requests on the same connection proceed independently in both directions. A client handler that fails to answer releases the server-side caller with an error. Closing the connection releases server-side callers too.",
 ["schedules","inputs","histories"],"all interleavings of requests in both directions over one connection, nested calls included",
 "The one test makes a single server-to-client call.",
 ["serveconn.go","clientconn.go","frame.go"],[("server-side response table","serveconn.go writeBuffers/readFrames"),("client handler dispatch","clientconn.go readFrames")],
 ["ConnectionInfo.Request / StreamRequest callers","client handler entries"])

p("C14","At most one live connection owns an id; takeover is clean",
 "After an id is bound, lookup by that id returns the connection that bound it last, until that connection closes or is taken over; a connection that lost its id is closed, its kick callback has run exactly once before that, and it is never returned by lookup or by-id walks again. The order that binding returns is at least every order returned for that id before, and greater when the id was taken over. Binding always completes, also when the binding or the previous owner's connection is closing at that moment, and a closed connection never keeps or removes an id owned by another. Ids of different bindings (listen addresses) are independent.",
 ["schedules","histories","fault_sequences"],"all interleavings of binds, takeovers, closes and lookups of the same and different ids",
 "No test binds an id.",
 ["server.go","serveconn.go"],[("id table and takeover loop","server.go bindID/untrack"),("closing of the loser","serveconn.go closeUntracked")],
 ["SetID return values","GetConnectionInfoByID/WalkConnByID","OnKickCB","peer sockets"])

p("C15","Connection registry and lifecycle callbacks match reality",
 "Walking a binding's connections visits each open connection of that binding exactly once, stops when the callback says so, and does not visit closed ones. For each accepted socket the accept callback runs once and the close callback exactly once, after all its handlers have returned; a socket rejected by the accept callback is closed and never served; every close notification registered on a connection runs exactly once, immediately if the connection is already closed. On the client the connect and disconnect callbacks alternate, one pair per established connection.",
 ["schedules","histories"],"all interleavings of accepts, closes, registrations and walks; all ways of closing",
 "No test installs a lifecycle callback or walks connections.",
 ["server.go","serveconn.go","clientconn.go"],[("activeConn registry","server.go newConn/untrack/WalkConn"),("closeNotify list","serveconn.go NotifyWhenClose/closeUntracked"),("OnConnect/OnDisconnect","clientconn.go loop")],
 ["callbacks","WalkConn results"])

p("C16","Shutdown is complete, final and idempotent",
 "After Shutdown returns, no handler of that server is running, all of its connections are closed, none of its addresses accepts connections (once a listening call still under way has returned), and every registered shutdown function has run exactly once, before the first Shutdown returns (those registered later run immediately). Serving returns the server-closed error, also when Shutdown comes before or during the start of serving, and also for servers with several bindings. Shutdown may be called repeatedly and concurrently, with any traffic in progress, and always returns once the handlers do.",
 ["schedules","histories","crash_points"],"all moments of shutdown relative to listening, accepting, dispatching and closing; repeated and concurrent calls",
 "Tests only shut down an idle server, once.",
 ["server.go","serveconn.go","ws/server/overlay.go"],[("doneChan, wait group and listener tracking","server.go Shutdown/Serve"),("per-connection drain","serveconn.go serve")],
 ["handler events vs Shutdown's return","sockets","ServeAll's return value"])

p("C17","Configured inbound limits are enforced exactly",
 "With an in-flight limit N on a binding, never more than N nonblocking requests of one connection are being handled at once, N at once are always allowed, and only the connection that exceeds N is closed; blocking requests and completed requests do not change how many are allowed. With an inbound rate limit of R per second, no more than R requests per clock second are dispatched on a connection and exceeding it closes that connection only. Without limits, no connection is closed for load.",
 ["schedules","inputs","configurations"],"all N, all mixes of blocking, panicking, streamed and nonblocking requests, all arrival patterns",
 "No test configures a limit.",
 ["serveconn.go"],[("in-flight counter","serveconn.go serve/handleRequestPanic"),("per-second counter","serveconn.go readFrames")],
 ["handler entry/exit counts per connection","socket state"])

p("C18","Throttling pauses a binding and loses nothing",
 "While throttling is on for a binding, each of its connections dispatches at most one further request and at most one further connection is taken; other bindings are unaffected. When throttling is cleared, everything paused resumes: every request sent meanwhile is answered exactly once and every waiting connection is accepted. Setting and clearing are idempotent, may come from any goroutines at any time, and never panic or leave anything paused once cleared.",
 ["schedules","histories"],"all interleavings of set, clear, traffic, accepts and shutdown",
 "No test uses throttling.",
 ["server.go","serveconn.go"],[("throttle cell per binding","server.go SetThrottle/ClearThrottle/waitThrottle")],
 ["handler entries before/after clear","accept events"])

p("C19","Reconnecting clients recover, and stop when closed",
 "A reconnecting connection re-establishes itself after any sequence of connection losses as long as one of its addresses accepts, and requests issued after that succeed; requests pending at a loss fail and never receive an answer from a later connection. Once closed it opens no further connection, every outstanding call returns, and waiting for it returns. Every connection it opens uses the same dial configuration, including TLS.",
 ["fault_sequences","schedules","configurations"],"all sequences of losses, address outages and closes at any moment, all channel sizes",
 "No test uses a reconnecting connection directly.",
 ["clientconn.go"],[("connect/loop","clientconn.go connect/loop/closeRWC"),("committed writes survive reconnect","clientconn.go writeFrameBytes")],
 ["listeners under harness control: accepts, bytes","caller completion","Wait"])

p("C20","API calls reach the right endpoint, once, and respect close",
 "A call to a named endpoint is answered by that endpoint or fails, and an unknown endpoint is refused; calling all endpoints returns exactly one result per endpoint, each from that endpoint. A call to any endpoint is answered by one of them and succeeds while a connected endpoint is alive; endpoints are chosen in proportion to their weights, those of zero weight not while the others work, and a dead endpoint is used again after it comes back. After Close every call fails, no connection is opened and all connections are closed; every call returns when its context ends.",
 ["fault_sequences","schedules","configurations"],"all endpoint outages and recoveries, all weights, all concurrent callers, close at any moment",
 "The only test has a single healthy endpoint and equal payloads.",
 ["api.go"],[("endpoint selection and fallback","api.go Call/callViaIdx/callViaActiveConns"),("close","api.go Close/reconnectIdx")],
 ["results tagged by endpoint","accept counts per endpoint"])

p("C21","Channels carry typed messages in order with a clear end",
 "Over a channel pipe, in both directions and on both sides, every message sent is received once, in order, with its exact command and value (through the message's own marshalling when it has one, else JSON), whether or not the receiver asks for the command. The receiver of a pipe with at least one message gets, while the connection lives, the stream-finished error exactly after the last message once the sender ended, either with the last message or by an explicit end; sending after End fails. Concurrent pipes over one connection do not mix, and a Receive returns when its context ends.",
 ["schedules","inputs","histories"],"all message sequences and types, both ways of ending, all interleavings of send and receive on many pipes",
 "The one channel test sends two strings over a single pipe and never uses the end flag.",
 ["channel/clienttransport.go","channel/servetransport.go","channel/encode.go"],[("Sender/Receiver over stream writers","channel/*.go")],
 ["Send/Receive calls on both sides"])

p("C22","Behaviour is the same over TCP, TLS, WebSocket and secure WebSocket",
 "The same program observes the same results over plain TCP, TLS, the WebSocket overlay and the WebSocket overlay over TLS: requests, streams, pushes, server-initiated calls, large payloads, concurrent use and connection close all behave identically. The overlay connection is a faithful byte stream: bytes arrive exactly in order regardless of message boundaries and read sizes, and a failed write is never reported as written. With TLS configured, a client never exchanges frames in clear text or with a peer that cannot complete the handshake.",
 ["configurations","inputs","schedules"],"all transports, all payload sizes and read sizes, all message segmentations",
 "Each overlay is tested with one small request.",
 ["ws/server/conn.go","ws/server/overlay.go","ws/client/conn.go","server.go","clientconn.go"],[("websocket net.Conn","ws/server/conn.go"),("TLS wrapping","clientconn.go dialTCP, server.go TLSKeepAliveListener")],
 ["the same workload and oracle on each transport","raw websocket peer"])

p("C23","Generated-service calls run the named method and return its result",
 "A service call runs exactly the method named by its namespace and method, at most once, with exactly the caller's input, and returns exactly that method's output to that caller; an unknown method, a malformed request or a failing method gives the caller an error and never a result. Concurrent calls do not mix, calls are spread over and fail over between connected addresses, and a call returns when its context ends, whereupon its method's context is cancelled. Encoding of the call envelope round-trips every namespace, method and parameter byte string and never crashes on garbage.",
 ["inputs","schedules","fault_sequences"],"all namespaces/methods/params, all concurrent callers, all address outages",
 "No test exercises the service handler or client.",
 ["codegen/client.go","codegen/service_handler.go","codegen/pb/rpc.pb.go"],[("dispatch by fully qualified method","codegen/service_handler.go"),("envelope","codegen/pb/rpc.pb.go")],
 ["codegen.Client.Request callers","method callbacks"])

p("C24","Compression is transparent and never corrupts or leaks",
 "With a codec configured on both sides, a payload written with the codec flag arrives exactly as written, whatever its size or content and whether or not encoding made it smaller; the codec is applied at most once in each direction and never to frames without the flag or without payload. On the wire a frame carries the codec flag exactly if its payload is encoded, and the encoded form is never longer than the original (the codec must leave its input intact). Without a codec, or if encoding fails, the write fails and sends nothing; if decoding fails only that connection is closed.",
 ["inputs","configurations","schedules"],"all payloads, all codecs (shrinking, growing, identity, failing), with and without the flag, concurrent use",
 "No test configures a codec.",
 ["framewriter.go","framereader.go","conf.go"],[("encode on EndWrite","framewriter.go EndWrite"),("decode on read","framereader.go readFrame")],
 ["wire tap","codec call counts","payloads at both ends"])

p("C25","Requests reach the registered handler, through its middleware",
 "A request is dispatched to the handler registered for the lower two bytes of its command, with the full command including its opaque third byte visible to handler and caller; registering a second handler for the same routed command, a nil handler or an out-of-range command panics. Middleware runs in registration order before the handler, once per request, shares the request's stash, and a middleware that aborts prevents all later ones and the handler. A request with no registered handler closes its own connection and nothing else.",
 ["inputs","configurations","histories"],"all commands and opaque bytes, all registrations, all middleware chains",
 "Tests use a handful of small command values without opaque bytes and no middleware.",
 ["server.go","middleware.go","qrpc.go","frame.go"],[("ServeMux","server.go Handle/ServeQRPC"),("middleware chain","middleware.go"),("Cmd helpers","qrpc.go")],
 ["handler/middleware entry log","connection state"])

p("C26","No data races under legal concurrent use",
 "Concurrent use of the library through its documented API (requests, streams, pushes, resets, ids, walks, throttle, reconnect, shutdown, API, channels, all transports) never performs conflicting unsynchronized memory accesses inside the library.",
 ["schedules"],"all interleavings of the public operations documented as safe for concurrent use",
 "The suite is not run with the race detector and exercises few operations concurrently.",
 ["clientconn.go","serveconn.go","server.go","stream.go","framewriter.go","api.go","channel/clienttransport.go"],[("mutexes, atomics and channels throughout","all files")],
 ["Go race detector reports"])

p("C27","Finished work leaves nothing behind",
 "On a long-lived connection, requests, streams, pushes, resets and panics that have finished leave no memory behind: usage does not grow with their number. After connections and servers are closed, no goroutine and no socket of theirs remains. Accepting and closing any number of connections leaves nothing registered, and an API or a reconnecting connection keeps nothing of connections that have ended.",
 ["histories","schedules"],"all sequences of finished operations and all ways of finishing them",
 "Tests never look at memory, goroutines or file descriptors.",
 ["stream.go","clientconn.go","serveconn.go","server.go"],[("stream removal when both sides are done","stream.go afterDone"),("response table cleanup","clientconn.go"),("registry cleanup","server.go untrack")],
 ["heap after GC, goroutine dump and /proc/self/fd at quiescent points"])

p("C28","Time limits bound I/O; without them slow peers are not dropped",
 "With a write time limit configured, a write to a peer that has stopped reading fails within bounded time and ends the connection; with a read time limit, a connection that stays silent is closed, and one that keeps sending whole frames in time is not (a frame once begun must be completed within the limit, its payload within 3 s), including after the limit is changed on the live connection. A configured dial timeout bounds connecting, TLS and WebSocket handshakes included. With no limit configured, a peer may pause for any time without being disconnected and without losing, repeating or corrupting a byte. Closing a connection releases blocked readers and writers at once.",
 ["fault_sequences","configurations","schedules"],"all pauses of reader and writer, all limits, pauses in the middle of a frame",
 "No test has a slow peer or configures a timeout.",
 ["writer.go","reader.go","serveconn.go","clientconn.go"],[("sliced write deadlines","writer.go"),("read deadlines","reader.go")],
 ["bytes received by the slow peer","completion of blocked operations"])

p("C29","Every handled request is counted once with its outcome",
 "With metrics configured, each request that reached a handler adds exactly one count and exactly one latency observation, labelled with its command and with the panic value if it panicked and the no-error value otherwise; the end of a connection's reading and each takeover add exactly one count of their own. Metrics never change what is answered.",
 ["schedules","inputs"],"all mixes of blocking, nonblocking, streamed, panicking and cancelled requests",
 "No test configures metrics.",
 ["serveconn.go","server.go"],[("instrument","serveconn.go instrument/handleRequestPanic/readFrames")],
 ["harness-side metric implementations"])

p("C30","Generated code compiles and calls through faithfully",
 "For every service accepted by the generator, the generated file (which replaces an earlier one) compiles and its client, talking to its own service mux, calls the method of that name (main service or sub service) with the given input and returns the method's output unchanged, for JSON and self-marshalling input and output types alike; errors surface through the output's error setter. Services with unsupported method signatures (other than one context.Context and one input, and one output with an error setter), and with types the generated file could not name, are rejected, and nothing is written.",
 ["programs","inputs"],"all services: number of methods, input/output kinds, sub services",
 "No test runs the generator.",
 ["codegen/generator.go","codegen/io.go"],[("templates","codegen/generator.go Generate")],
 ["go build of generated packages","end-to-end calls through them"])

p("C31","The command line tools speak the documented protocol",
 "For every in-range command, flag, request id and payload the packet tool prints exactly the documented frame encoding and rejects out-of-range values; qrpcurl sends exactly the request described by its arguments over TCP or WebSocket as a single frame (stream bits are not sent) and prints the response it received (a push has none), and rejects malformed targets without connecting.",
 ["inputs"],"all argument values",
 "The tools have no tests.",
 ["tool/packet/main.go","tool/qrpcurl/main.go"],[("argument checks and encoding","tool/*/main.go")],
 ["process output","bytes received by a harness server"])

p("C32","Connections are tuned as configured on every transport",
 "The send and receive buffer sizes configured for a server binding or a client connection are in effect on the TCP sockets underneath, for TCP, TLS, WebSocket and WebSocket over TLS alike, whichever way the connection was made (dialed, reused, reconnecting and again after each reconnect, by the API), and accepted connections have keep-alive on with the default period. The connection given to OnAccept tells the addresses of its socket, and, where it offers the tuning methods, using them takes effect and never fails or panics. Whatever the sizes, what is sent arrives.",
 ["configurations","inputs"],"all sizes, transports and ways of connecting",
 "No test configures a buffer size or looks at a socket.",
 ["server.go","clientconn.go","clientconn_reuse.go","ws/client/conn.go","ws/server/conn.go"],[("accepted connections","server.go TCPKeepAliveListener.Accept"),("dialed connections","clientconn.go dialTCP, clientconn_reuse.go, ws/client/conn.go DialConn"),("tuning of overlay connections","ws/server/conn.go")],
 ["socket options read from the kernel","addresses reported"])

p("C33","MaxCloseRate bounds closing and nothing else",
 "With MaxCloseRate set to R, the connections of that binding that end because the server closes them, their peers leave or the server shuts down are closed, with their notifications, at no more than R a second (after an initial burst of at most the limiter's slack); every one of them is closed and announced exactly once in the end, and Shutdown completes. Meanwhile the living connections of the binding, new connections and the other bindings are served as ever, and connections of other bindings are closed without waiting.",
 ["schedules","configurations","histories"],"all rates, numbers of connections and ways of ending them, at once or in turn",
 "No test sets MaxCloseRate.",
 ["serveconn.go","server.go"],[("the limiter","serveconn.go Close"),("one limiter per binding","server.go NewServer")],
 ["times of close notifications, OnClose and the ends seen by peers, against the rate"])

p("C34","Accepting survives failing accepts and hostile connections",
 "An error of a binding's listener, whether temporary or not, running out of file descriptors, and connections that are reset, silent, stop in a handshake or speak another protocol cost at most the connection concerned, on TCP, TLS and WebSocket alike: later connections, and those waiting to be accepted, are served, living connections and other bindings are not affected, a connection that cannot be served is closed rather than left hanging, and Shutdown completes with ServeAll returning ErrServerClosed.",
 ["fault_sequences","schedules"],"all sequences of accept results and of hostile connections, at any time",
 "Tests use healthy listeners and well-behaved clients.",
 ["server.go","ws/server/overlay.go"],[("accept loop","server.go Serve"),("accepting for the overlay","ws/server/overlay.go newOverlay")],
 ["service of connections during and after injected failures","end of Shutdown"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+"\n")
print(len(P))
