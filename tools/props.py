#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate it)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Every call receives exactly its own response",
 "A Call, CallContext/CallWith or CallAsync that succeeds delivers exactly the payload, and one that fails remotely delivers exactly the error text, that the peer's handler wrote for that same request, in both directions of one connection at once. This holds for any number of concurrent calls, any order of responses, and even when late, duplicate or unsolicited responses arrive: no response is ever handed to a different call. A response that no waiting call claims is reported to the session-miss callback and disturbs nothing else.",
 ["schedules","histories"],"all interleavings (deviation bound) of 2-3 concurrent calls, all response permutations/duplications/unsolicited responses of a scripted peer, both write modes, pooled and unpooled",
 "The tests issue calls one after another against a well-behaved server; they never reorder, duplicate or delay responses against a concurrently timing-out call.",
 ["client.go","handler.go","proto.go","context.go"],
 [("sequence number allocated per request and echoed by the response","client.go newRequestMessage, context.go write"),("session / async-handler tables keyed by sequence number","client.go addSession/getSession, getAndDeleteAsyncHandler; handler.go OnMessage")],
 [("sessionMap / asyncHandlerMap","calls waiting for a response","client.go Client")],
 ["return value and rsp argument of Call*, callback arguments of CallAsync, HandleSessionMiss callback"])

p("C02","Every blocking call returns, in time and promptly on connection loss",
 "Every Call and CallContext/CallWith returns exactly once: with asynchronous writing not later than its timeout or context end, whatever the peer, the send queue or other goroutines do, and with a timeout error only once that time has come, however long it is. If the connection is lost or the client is stopped while the call waits, it returns an error at once, without waiting for its timeout, on dialing and accepted clients and in both write modes. A call on a stopped client, on a reconnecting client, or with an invalid method or non-positive timeout fails immediately with the matching error and sends nothing.",
 ["schedules","fault_sequences"],"all interleavings (deviation bound) of calls with connection cut, peer close, local Stop and timer expiry placed at every point; both write modes; client side and server side",
 "The tests only use a healthy loopback server and one disconnect placed between two calls; a loss at any other point, or a full queue, is never tried.",
 ["client.go"],
 [("select over response, timer/context and close channel","client.go Call/CallContext"),("sessions closed when the connection drops, close channel closed when the client ends","client.go clearSession, closeAndClean, recvLoop")],
 [("chClose","closed once when the client has ended","client.go Client")],["return of Call*, virtual time of return"])

p("C03","CallAsync callback runs exactly once",
 "If CallAsync returns nil, its callback runs exactly once: with the response, or with a non-nil error after a timeout, a connection loss or a stop. In every other case the callback runs at most once. A timeout is never reported before the call's time has come. Callbacks of different calls are never mixed up, whatever the number of calls pending when the connection drops.",
 ["schedules","fault_sequences"],"all interleavings (deviation bound) of up to 3 pending asynchronous calls with responses, timer expiry, connection loss, reconnection and Stop; both write modes",
 "Tests await one callback on a healthy connection or one timeout; none races a response with its timer or drops a connection with several calls pending.",
 ["client.go","handler.go"],
 [("table lookup-and-delete decides who runs the callback","client.go getAndDeleteAsyncHandler"),("timer callback as a backstop","client.go CallAsync"),("flush on connection loss","client.go clearAsyncHandler, dropMessage")],
 [("asyncHandlerMap","callbacks not run yet","client.go Client")],["callback invocations"])

p("C04","Messages cross the connection whole, once, and in sending order",
 "While a connection stays up, every message accepted for sending (request, notification, response, pushed or stream message) reaches the peer's dispatcher exactly once with the same command, method, flags, sequence number and payload, and nothing else reaches it. Messages accepted from one goroutine are dispatched in that order. This holds for concurrent senders, with batching on or off, with synchronous or asynchronous writing, with any receive-buffer setting and for every way the transport splits the byte stream.",
 ["schedules","inputs","configurations"],"all interleavings (deviation bound) of 2-3 senders with ping/pong traffic; all read segmentations of a multi-frame byte stream (bounded); all combinations of batch-send, batch-recv, write mode, send-buffer and recv-buffer sizes in a small domain",
 "Tests use loopback TCP with one sender and default settings: frames practically never coalesce or split, and batch sending is off by default (buffer size 0).",
 ["client.go","handler.go","proto.go"],
 [("single writer per connection / one Write per frame or batch","client.go normalSendLoop, batchSendLoop"),("length-prefixed framing with full reads","handler.go Recv, proto.go Header.message")],
 [("send queue","messages accepted but not written","client.go chSend")],["bytes written to the connection; messages dispatched to handlers"])

p("C05","Messages encode and decode losslessly in the documented layout",
 "A message built from a command, method, payload, error/async marks and sequence number has exactly the documented header layout, and every accessor returns what was given or last set; setting one attribute never changes another. Payload values given as string, byte slice, error or pointer to these, or as any codec-encodable value, are delivered unchanged to Bind, to the caller's response argument and to stream receivers. Out-of-range flag-bit indexes are rejected without changing the message.",
 ["inputs","histories"],"every sequence (bounded length) of attribute setters with boundary values against a reference record; every command x flag x method-length x payload in boundary domains",
 "Tests set one attribute on one message; interference between attributes sharing a byte needs combinations.",
 ["proto.go","util/util.go","context.go","client.go","codec/codec.go"],
 [("fixed offsets and masks","proto.go"),("value conversion","util/util.go ValueToBytes/BytesToValue, context.go Bind, client.go parseResponse")],(),["Message accessors, Message.Buffer, Context.Bind, Call response argument"])

p("C06","Hostile or malformed input cannot crash, wedge or exhaust a process",
 "Whatever bytes a peer sends - truncated frames, wrong lengths, invalid method lengths, unknown commands, unsolicited responses or stream messages, undecodable coder payloads - the process does not crash and other connections keep being served. A frame announcing a body longer than the configured maximum is refused and its connection closed without allocating or reading the body. A malformed but well-framed message is ignored and later valid messages of the same connection are still served, except that an unknown command closes the connection.",
 ["inputs","fault_sequences"],"all sequences (length <=3) over an alphabet of ~30 valid and malformed frames incl. truncation at every byte, against a real server and a real client, followed by a liveness probe on the same and on another connection",
 "The tests only ever send well-formed frames.",
 ["handler.go","proto.go","client.go","extension/middleware/coder/appender.go","extension/middleware/coder/gzip/gzip.go"],
 [("length check before allocation","proto.go Header.message"),("method length validation and panic recovery in dispatch","handler.go OnMessage, util/util.go Recover")],(),["process survival, connection state, probe calls"])

p("C07","Middleware and handlers run in registration order, once, until aborted",
 "For each incoming request or notification the registered middleware and the method's handler run in registration order, each exactly once, whether or not they call Next themselves; after Abort no later one runs, however many are registered. An unknown method runs the not-found handler, or by default answers a request with the method-not-found error once any route exists. Answering a notification is refused, and the error a handler answered with is what later middleware observes.",
 ["programs","inputs","configurations"],"every registration program (bounded length) over Use/Handle/HandleNotFound, with every behaviour (plain, calls Next, calls Next twice, Abort before or after Next) per element, against a reference interpreter; chain lengths across 127; sync/async routes and write modes",
 "Tests register a fixed pair of handlers; ordering and abort semantics depend on the whole registration history.",
 ["handler.go","context.go"],
 [("per-route handler chain copied at registration","handler.go Use/handle"),("index cursor","context.go Next/Abort")],
 [("Context.index","position in the chain","context.go")],["order of handler invocations, response received by the caller"])

p("C08","Message coders are transparent end to end",
 "With any stack of message coders registered on both sides, encoders run in registration order before sending and decoders in reverse order after receiving, once per message, and the receiving handler or caller sees exactly the original method, payload, error mark and attached values. The gzip and value-appending coders preserve every message, including empty, incompressible and already-flagged ones, and a value that cannot be encoded is left out without damaging the message.",
 ["inputs","configurations","programs"],"all coder stacks up to depth 3 over {gzip with several thresholds, appender, tagging coder, failing appender} x payload/value domain x message kinds (call, async call, notify, response, error, stream)",
 "Tests use one trivial coder with one payload.",
 ["client.go","handler.go","context.go","extension/middleware/coder/appender.go","extension/middleware/coder/gzip/gzip.go"],
 [("encode loop on every send path, reverse decode loop on receipt","client.go send paths, handler.go OnMessage")],(),["handler-side payload and values, caller-side response, wire bytes"])

p("C09","Streams deliver in order, exactly once, then end-of-stream",
 "Non-empty messages sent on a stream are received by the peer's stream in sending order, exactly once, and after the sender closes sending the receiver sees end-of-stream exactly after the last message, with every receive variant. The two directions close independently, and streams on one connection, opened from either side, never mix. A receive or a send that waits goes on waiting, however long the other side takes, as long as the connection stays up; when the connection is lost or the client stopped, a waiting receive ends with an error at once. A stream opened by one side runs the peer's stream handler exactly once.",
 ["schedules","histories"],"all interleavings (deviation bound) and all operation sequences (bounded) of send/close/receive on 1-2 streams per direction, queue sizes 1-2, both write modes",
 "There is no stream test in the suite at all.",
 ["stream.go","client.go","handler.go"],
 [("per-stream queue filled by the reading goroutine","stream.go onMessage"),("local/remote tables keyed by id and direction bit","client.go getStreamAndPushMsg, proto.go stream bits"),("half-close counting","stream.go halfClose")],
 [("streamLocalMap/streamRemoteMap","open streams","client.go")],["Recv/RecvContext results, stream handler invocations"])

p("C10","Server connection accounting and lifecycle callbacks are exact",
 "For every accepted connection the connected and the disconnected callback run exactly once each, however the connection ends: peer close, transport error, malformed input, a handler stopping its own client, or server stop. Once it has ended it is no longer enumerated or broadcast to, the current load has been given back, its goroutines have finished and its waiting calls have returned. The number of connections served at once never exceeds MaxLoad; excess connections are closed and do not count.",
 ["schedules","fault_sequences","histories"],"all interleavings (deviation bound) of accept, disconnect cause and enumeration for 1-3 connections; MaxLoad 0..2",
 "Tests open a handful of connections sequentially and never check the client set after a racing disconnect.",
 ["server.go","client.go"],
 [("client set and load counter updated by accept loop and stop hook","server.go runLoop, addClient, deleteClient, subLoad"),("cleanup at the end of the receive loop","client.go recvLoop, closeAndClean")],
 [("clients / CurrLoad","live connections","server.go Server")],["HandleConnected/HandleDisconnected callbacks, ForEach, CurrLoad, Accepted, live goroutines"])

p("C11","Stopping a server is complete",
 "After Stop or a successful Shutdown the serve loop has ended or ends, no connection is served any more, every connection accepted before is closed without further delay, and connections racing with the stop are closed too. Shutdown returns nil only after the serve loop ended, and returns a timeout error at its context's end otherwise. Transient accept errors do not end service, a permanent one does.",
 ["schedules","fault_sequences"],"all interleavings (deviation bound) of Stop/Shutdown with accept, connect, in-flight calls and accept errors",
 "Tests stop an idle server once.",
 ["server.go"],
 [("running flag + listener close + stop channel","server.go Stop/Shutdown/runLoop"),("clearClients at loop exit","server.go")],
 [("running, chStop","serve loop state","server.go")],["return of Serve/Shutdown, connection states"])

p("C12","Clients reconnect after loss, and Stop is final",
 "A dialing client whose connection is lost dials again until it succeeds or its reconnect limit is used up, then runs the connected callback and is fully usable over the new connection; while reconnecting, new calls fail with the reconnecting error. Once Stop has been called - also during a reconnect - the client ends in the stopped state: it dials no more, leaves no connection open, runs the disconnected callback exactly once and leaves no goroutine behind. Restart after that yields a fully usable client again.",
 ["schedules","fault_sequences","histories"],"all interleavings (deviation bound) of connection loss, dial failure/success, Stop, Restart and calls; reconnect limits 0..2",
 "Tests stop and restart once with sleeps in between; the race windows are hidden (the suite runs on one CPU for that reason).",
 ["client.go"],
 [("reconnect loop in the receive goroutine","client.go recvLoop"),("running/reconnecting flags","client.go Stop, Restart, CheckState")],
 [("running, reconnecting","client state","client.go")],["dial count, open connections, CheckState, callbacks, calls"])

p("C13","Pooled messages and buffers are never freed twice or used after free",
 "With pooling enabled, or with custom allocation callbacks, every buffer obtained for a message is given back at most once and is never read, written or sent after being given back, on all call, notify, async, response, stream, broadcast, publish, overload, drop and stop paths. No payload is ever affected by the reuse of another message's buffer.",
 ["schedules","histories","fault_sequences"],"all interleavings (deviation bound) of the traffic patterns with a poisoning, ownership-tracking allocator, incl. timeouts, overload, connection loss and stop",
 "With pooling a stale buffer shows up only under specific reuse; the tests do not enable pooling on these paths.",
 ["client.go","handler.go","proto.go","context.go","stream.go","server.go","allocator.go","extension/pubsub/topic.go"],
 [("reference count and done callback per message","proto.go Retain/Release, handler.go OnMessageDone/OnContextDone")],
 [("Message.ref","outstanding owners","proto.go")],["HandleMalloc/HandleFree/HandleAppend callbacks, payloads seen by handlers"])

p("C14","Broadcast reaches each selected connection exactly once, intact",
 "Broadcast and BroadcastWithFilter deliver the notification, unaltered and exactly once, to every connection that is connected throughout, is selected by the filter and has queue space, and to no other; ForEach and ForEachWithFilter visit exactly the live, selected connections. This holds with coders and pooling in use and while connections come, go or overflow.",
 ["schedules","configurations"],"all interleavings (deviation bound) of broadcast to 2-3 connections with their send loops, disconnects and concurrent broadcasts; coders none/gzip/appender; pool on/off",
 "No test broadcasts to several clients, and none uses coders or pooling with it.",
 ["server.go","client.go"],
 [("one shared, reference-counted message","server.go Broadcast")],[("clients","live connections","server.go")],["notifications received per connection"])

p("C15","Send-queue limits: accepted means delivered, refused means not sent",
 "With asynchronous writing, sending with zero wait never blocks: when the send queue is full it returns the overstock error, runs the overstock callback exactly once for that message, and the message is never sent. Sending with a wait blocks at most that long and then returns the timeout error, and a message so refused, or refused because the client stopped, is never sent either. Messages accepted (nil) are all sent, in order per sender, as long as the connection stays up.",
 ["schedules","histories","configurations"],"all interleavings (deviation bound) and all short sequences of zero-wait, bounded and unbounded sends against a stalled and resuming connection, queue sizes 0..2",
 "Tests never fill a send queue while the connection is alive.",
 ["client.go","handler.go"],
 [("bounded channel with select","client.go pushMessage, PushMsg")],[("chSend","bounded send queue","client.go")],["return values, overstock callback, peer-side arrivals"])

p("C16","Client pool hands out a usable client whenever there is one",
 "Next returns a connected client whenever at least one pool member is connected throughout the call, also under concurrent use, and spreads consecutive picks evenly over healthy members. Get addresses members by index modulo size, creation that fails part-way leaves no connection open, and Stop stops every member.",
 ["schedules","histories","fault_sequences"],"all health patterns of pools of 1-3 clients x all interleavings (deviation bound) of 2-3 concurrent Next calls; every failing dial position",
 "Tests use an all-healthy pool from one goroutine.",
 ["client.go"],
 [("atomic round-robin cursor with health skip","client.go ClientPool.Next")],[("round","cursor","client.go ClientPool")],["returned client, open connections"])

p("C17","Published messages reach exactly the current subscribers, intact",
 "A message published to a topic, by a client or by the server, is delivered with the same topic name and payload exactly once to every client whose subscription was acknowledged before the publish began and that stays connected and subscribed, and never to a client not subscribed to that topic. PublishToOne delivers it to exactly one current subscriber if any can accept it. Publishing never alters the caller's data.",
 ["schedules","histories","inputs"],"all operation histories (bounded) of subscribe/unsubscribe/publish/publish-to-one over 2-3 clients and 2 topics, all interleavings (deviation bound) of concurrent ones, topic name and payload boundary domain",
 "The one pub/sub test has a single subscriber and a single topic.",
 ["extension/pubsub/server.go","extension/pubsub/topic.go","extension/pubsub/client.go"],
 [("per-topic client set","extension/pubsub/topic.go TopicAgent"),("topic trailer encoding","extension/pubsub/topic.go toBytes/fromBytes")],
 [("topics","topic name to subscriber set","extension/pubsub/server.go")],["topic handlers on each client"])

p("C18","Pub/sub access control and subscription state survive faults",
 "Only connections that authenticated with the server's password can subscribe, unsubscribe or publish; requests of others have no effect. A subscription ends when acknowledged unsubscribed or when its connection ends - no ended connection stays subscribed - and after a client reconnects its subscriptions are re-established. Authenticating again changes nothing, a panicking topic handler does not stop later deliveries, and malformed topic frames are rejected.",
 ["schedules","histories","fault_sequences","inputs"],"all histories (bounded) of authenticate (right/wrong), subscribe, unsubscribe, publish, disconnect, reconnect; all interleavings (deviation bound) with disconnects; malformed topic frames",
 "The test authenticates correctly once and never disconnects.",
 ["extension/pubsub/server.go","extension/pubsub/client.go","extension/pubsub/topic.go"],
 [("per-connection topic table created at authentication","extension/pubsub/server.go addClient/invalid"),("cleanup on disconnect","extension/pubsub/server.go deleteClient"),("resubscription","extension/pubsub/client.go initTopics")],
 [("clientTopics","subscriptions of one connection","extension/pubsub/server.go")],["call results, deliveries, server-side pushes"])

p("C19","Buffer allocator: right size, right content, no sharing",
 "Every buffer returned by the pool allocator has the requested length, Realloc and Append preserve the existing content and add exactly the new bytes, and no two buffers in use ever share memory, for every sequence of operations on every size, concurrently or not. In debug mode freeing a buffer that is not in use is reported.",
 ["histories","schedules","inputs"],"every operation sequence (bounded length) over Malloc/Realloc/Append/AppendString/Free with boundary sizes around the two pool classes, several pool configurations, debug on/off; interleavings of two users",
 "No allocator test exists.",
 ["allocator.go"],
 [("two size-class pools","allocator.go Malloc/Free"),("copy on class change","allocator.go Realloc/AppendString")],[("smallPool, bigPool","free buffers","allocator.go")],["returned slices"])

p("C20","Graceful middleware: drain, then reject",
 "When Shutdown of the graceful middleware returns, every request that was admitted has been processed completely, and no handler behind the middleware runs afterwards. A request that arrives after Shutdown began and is not admitted is answered with exactly the shutdown error and its handler does not run; requests before are unaffected.",
 ["schedules"],"all interleavings (deviation bound) of 2-3 requests (sync and async routes) with Shutdown",
 "No test exists; the window between checking the flag and registering is a few instructions wide.",
 ["extension/middleware/router/graceful.go","handler.go"],
 [("shutdown flag + wait group","extension/middleware/router/graceful.go")],[("shutdown","drain started","graceful.go")],["handler start/end events, responses, return of Shutdown"])

p("C21","Dispatch: synchronous handlers in order, asynchronous ones never block",
 "Messages of one connection handled by synchronous handlers are handled one at a time in arrival order; an asynchronous handler that blocks delays neither later messages nor responses on its connection, and asynchronous handlers may call back to the peer from inside. A panic in a handler, middleware or asynchronous callback neither ends the process nor the connection nor later handling. Pings are answered with pongs.",
 ["schedules","histories"],"all interleavings (deviation bound) of 2-4 messages to sync/async handlers that block, call back or panic",
 "Tests use independent quick handlers.",
 ["handler.go","client.go","util/util.go"],
 [("inline call vs AsyncExecute","handler.go OnMessage"),("recover wrappers","util/util.go Recover/Safe")],(),["handler start/end order, responses"])

p("C22","Service manager picks only live, registered nodes",
 "ClientBy returns a connected client of a node currently registered under that service whenever one is connected throughout the call, never one of a deleted node or of another service, reports not-found for services without nodes and unreachable when none is connected, and spreads picks by weight. Deleting a node stops its connection, and registering the same node again leaves no extra connection behind. A registered node that cannot be reached is tried again until it can be or is deleted.",
 ["schedules","histories","fault_sequences"],"all histories (bounded) of add/delete/lookup over 2 services x 2 addresses x weights, dial success/failure; all interleavings (deviation bound) of concurrent lookups, retry and deletion",
 "No test exists for this package without an external registry.",
 ["extension/micro/service.go"],
 [("node list with round-robin index","extension/micro/service.go next/addByAddr/delete")],[("serviceList","nodes per service","extension/micro/service.go")],["returned client, open connections"])

p("C23","Split listener hands every connection to exactly one side",
 "Every connection accepted by the splitting listener is handed to exactly one of its two sides, to the first while fewer than its limit are online there and to the second otherwise, or is closed if the listener is closed first; an offline report frees exactly one place. Transient accept errors are retried, a permanent one ends the loop, and after Close both sides report the closed error once drained.",
 ["schedules","fault_sequences","histories"],"all histories (bounded) of connect/offline/accept-error/close, limits 0..2; all interleavings (deviation bound) with two accepting sides",
 "No test exists for this package.",
 ["extension/listener/listener.go"],
 [("atomic online counter, event channels","extension/listener/listener.go Run")],[("onlineA","connections on the first side","listener.go")],["Accept results of both sides, connection states"])

p("C24","Per-object values and handler settings are isolated and consistent",
 "Concurrent Set, Get and Delete on a client behave like one atomic key-value map, and values set on a context or message are seen by that request's handlers only and never leak into another request. A cloned handler starts with the same settings, routes, middleware and coders, and later changes to either never show in the other.",
 ["schedules","histories","programs"],"all interleavings (deviation bound) of 2-3 goroutines x 2 operations with a linearizability check; all bounded histories of requests setting values with pooling on; every single mutation of clone/original over all settings",
 "Tests do sequential get/set only and compare a clone once.",
 ["client.go","context.go","proto.go","handler.go"],
 [("mutex-protected map","client.go Get/Set/Delete"),("deep copy of tables","handler.go Clone")],(),["Get results, handler behaviour"])

p("C25","HTTP bridge answers a frame with the handler's response frame",
 "With synchronous writing configured, a request frame posted to the HTTP bridge is answered with exactly the response frame that the same request would get on a connection, for synchronous routes and unknown methods; a ping frame is answered with a pong as on a connection, and notifications and other non-request frames produce an empty body. Malformed, short or empty bodies never crash the server.",
 ["inputs"],"all bodies over the frame alphabet of C06 and truncation at every byte, methods known/unknown/erroring",
 "No test exists for this package.",
 ["extension/arpchttp/handler.go","handler.go","context.go"],
 [("body wrapped as a message and dispatched on a write-only connection","extension/arpchttp/handler.go")],(),["HTTP response body"])

p("C26","WebSocket adapter preserves the byte stream",
 "Bytes written through the WebSocket connection adapter are read by the peer adapter in order, none lost, repeated or altered, for every split into writes and every sequence of read buffer sizes; when several goroutines write at once, the bytes of each write stay together. After the listener is closed Accept reports the closed error, and no connection is handed out twice.",
 ["inputs","schedules"],"all splits of a short byte string into writes x all read-size sequences (bounded); histories of accept/close",
 "The test sends one echo.",
 ["extension/protocol/websocket/websocket.go"],
 [("message buffering in Read","extension/protocol/websocket/websocket.go")],[("buffer","unread rest of a message","websocket.go")],["bytes read"])

p("C27","Registry discovery mirrors the registry",
 "A service registered through the redis or etcd register is known, with its weight, to every discovery of its namespace - started before, during or after the registration - and is not withdrawn from their service managers while its register lives and its refreshes reach the registry in time; once the register has been stopped, or has died and the entry's lifetime has run out, the service is withdrawn everywhere and does not come back by itself. This holds however replies, watch events, polls and refreshes interleave. A registry request that fails never makes a discovery withdraw registered services; NewRegister and NewDiscovery report failure rather than success without effect, a failed or finished registration does not keep others from registering, and of several etcd registrations of one key exactly one succeeds. Malformed and expired redis entries are ignored. A stopped discovery leaves its manager alone.",
 ["schedules","histories","fault_sequences"],"all interleavings of registrations, ends, crashes, polls, refreshes and watch events; all failing requests; all malformed entries",
 "No test runs any of this code: it needs a registry server.",
 ["extension/micro/etcd/discovery.go","extension/micro/etcd/register.go","extension/micro/redis/discovery.go","extension/micro/redis/register.go"],
 [("list, then watch from the listed revision","extension/micro/etcd/discovery.go"),("poll loop and cache of known paths","extension/micro/redis/discovery.go: updateServices"),("lock, check, put under a lease","extension/micro/etcd/register.go: NewRegister"),("refresh loop and Stop","extension/micro/redis/register.go")])

p("C28","QUIC adapter behaves like a stream connection",
 "Bytes written through the QUIC connection adapter are read by the peer adapter in order, unaltered and complete - everything written before Close is delivered, then end-of-file - whatever the sizes of writes and reads, the flow-control window and the number of concurrent writers. Every dialed connection that is used is accepted exactly once; peers that stay silent, never open a stream or go away early neither hold up nor fail the accepting of others, and Accept fails only once the listener is closed. Close (of either end) and loss of the connection end blocked Reads and Writes; deadlines are honoured. A Dial that fails returns an error within its timeout and leaves no connection behind.",
 ["inputs","schedules","fault_sequences"],"all splits of writes, reads and windows; all mixes of well-behaved, silent and vanishing peers; all interleavings of Close, loss, accept and blocked calls",
 "One echo test over a healthy connection.",
 ["extension/protocol/quic/quic.go"],
 [("first stream of a QUIC connection as net.Conn","extension/protocol/quic/quic.go Conn, Dial"),("accepting a connection and its stream","extension/protocol/quic/quic.go Listener")])

p("C29","Read and write timeouts end idle and stalled connections, and only those",
 "With a read timeout set, a connection is ended as soon as the next message has not been received completely within that time of starting to wait for it, and calls waiting on it return; as long as messages of any kind, pings included, arrive in time it stays up however long it lives, and without a read timeout silence never ends it. With a write timeout, a message the transport does not take within that time ends the connection; the time counts anew for each transmission, pings and pongs included, and without one a slow peer is waited for. Keep-alive pings at a shorter interval than the read timeouts of both ends keep an idle connection up. The BeforeRecv and BeforeSend hooks run before every receive and every transmission; an error from one ends the connection and nothing is sent for it.",
 ["inputs","schedules","fault_sequences","histories"],"all histories of message arrivals, partial arrivals, silences and slow handlers around the timeout, all kinds of transmission to a peer that stops reading, in both write modes and on both sides",
 "The tests set timeouts but wait for none to expire.",
 ["handler.go","client.go"],
 [("read deadline and BeforeRecv before each message","handler.go handler.Recv"),("write deadline and BeforeSend before each transmission","handler.go handler.Send, SendN"),("pings and keep-alive","client.go Client.Ping, Pong, Keepalive"),("ending the connection","client.go recvLoop, normalSendLoop, batchSendLoop")])
p("C30","Finished operations leave nothing behind",
 "However often an operation is repeated - calls, asynchronous calls, notifications, pushes, streams closed by both ends, subscriptions and publishes, connections coming and going, reconnects and restarts, service nodes added and deleted, HTTP posts - and however it ends (answer, error, timeout, cancellation, refusal by a full queue, malformed or unsolicited answer, connection loss, stop), once it has finished no goroutine and no timer of it remains, and clients, servers, handlers and managers keep no more objects than before.",
 ["inputs","schedules","histories"],"all operations, all pairs of operations and all ways they end, on dialing and accepted clients, in both write modes",
 "No test looks at what remains after an operation.",
 ["client.go","stream.go","server.go","extension/pubsub/server.go","extension/micro/service.go","extension/arpchttp/handler.go"],
 [("pending calls, callbacks and their timers","client.go sessionMap, asyncHandlerMap"),("streams","stream.go halfClose; client.go streamLocalMap, streamRemoteMap"),("connections","server.go addClient, deleteClient"),("subscriptions","extension/pubsub/server.go deleteClient"),("nodes","extension/micro/service.go")])
p("C31","Msgpack and tracing coders are transparent",
 "With the msgpack coder on both ends, alone or stacked with the others, every message arrives with exactly the original method, payload and error mark, for every body, and the values attached to it arrive with it and with no other message; values that cannot be encoded are left out without damaging the message. A span context attached with tracing.Values is exactly what the receiving handler extracts, with trace id, span id, sampling mark and baggage, and a message without one, or with something else in its place, yields the invalid-span-context error. Frames that were never encoded neither crash nor wedge the receiver.",
 ["inputs","schedules"],"all stacks of coders, all kinds of messages and directions, bodies of all size classes and contents that look encoded, all value sets, truncated and corrupted encodings",
 "No test uses these coders.",
 ["extension/middleware/coder/msgpack/msgpack.go","extension/middleware/coder/tracing/tracer.go","extension/middleware/coder/tracing/values.go","extension/middleware/coder/appender.go"],
 [("msgpack envelope of body and values","extension/middleware/coder/msgpack/msgpack.go Encode, Decode"),("span context appended to the message","extension/middleware/coder/tracing/tracer.go ValueToBytes, BytesToValue, Extract")])

p("C32","Browser client: every call settles once, every message is handled",
 "In the JavaScript browser client every call, over the WebSocket or (callHttp) over HTTP, settles exactly once: with the data or error of the response to that very call, with the timeout error once its timeout has passed, with the disconnected error when the WebSocket closes, or, over HTTP, with an error when the request fails. A call made while connecting or after shutdown settles at once with the matching error and sends nothing. Every frame sent carries exactly the given method and payload, and waiting calls have different sequence numbers. Messages that arrive together in one WebSocket message are all handled, in order: requests and notifications run the registered handler once with exactly their data, pings are answered with a pong; this holds for every sequence number, method name and payload. Responses nobody waits for, unknown methods, malformed messages, and handlers, callbacks and hooks that throw do no harm to other messages or calls, nor stop the client from reconnecting. After a close the client reconnects, unless shut down, and is usable again; with keep-alive on it pings at every interval; and finished calls leave no timers or other state behind.",
 ["inputs","histories","faults"],"all sequences of calls, responses, closes, timers and shutdowns up to a depth; all pairs and triples of messages in a batch; sequence numbers beyond each byte boundary; all methods and payloads of the listed classes; actions and exceptions inside every callback",
 "There are no tests of the JavaScript client; the promise depends on every order of responses, timeouts and closes.",
 ["extension/jsclient/arpc.js"],
 [("sessions settle once","extension/jsclient/arpc.js call, _onMessage, onclose"),("frame encoding and batched decoding","extension/jsclient/arpc.js write, _onMessage"),("reconnection and shutdown","extension/jsclient/arpc.js init, shutdown"),("HTTP calls","extension/jsclient/arpc.js callHttp, request")])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
