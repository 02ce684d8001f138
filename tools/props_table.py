SCHED = "every interleaving of callers, connection loops, timers and handlers"
prop("C01", "A response is delivered to the request it answers, intact",
 "Whatever a call returns or a call's callback receives is the payload or error that a handler of the peer produced for that very request, byte for byte; a call is never completed with the response of another request, of an earlier connection, or with data nobody sent. Otherwise the call fails with one of the library's errors or a network error.",
 ALL, "All interleavings of concurrent calls, asynchronous calls and notifies in both directions over one connection, with timeouts racing responses, reconnects, short reads, partial writes and connection loss, for all value kinds and send/receive modes.",
 "Tests make a handful of sequential calls on loopback; they never race timeouts, reconnects and id reuse, nor split reads and writes at every byte.",
 ["client.go", "handler.go", "context.go", "proto.go", "server.go"],
 [("session map keyed by sequence number", "client.go addSession/deleteSession/getSession"), ("per connection reader", "client.go recvLoop, handler.go OnMessage"), ("batching writer", "client.go batchSendLoop, handler.go Send/SendN")],
 [("sessionMap", "outstanding synchronous calls", "client.go Client"), ("asyncHandlerMap", "outstanding asynchronous calls", "client.go Client"), ("seq", "request sequence number", "client.go Client")],
 ["Client.Call*", "Client.CallAsync callback", "Context.Bind"])
prop("C02", "Call, Notify and push return within their timeout",
 "With asynchronous writing, every Call, CallContext, CallAsync, Notify, NotifyContext and PushMsg with a positive timeout or a context returns no later than that timeout, deadline or cancellation, whatever the peer or the network does, and never reports a timeout early. On a healthy connection an operation with ample time whose handler answers succeeds. An operation with an invalid timeout, method name or handler is refused at once and not sent.",
 [S, F, C, I], "All schedules, network stalls, partitions, connection losses, full queues and slow or silent handlers; timeouts from a microsecond to minutes.",
 "Tests use one timeout on a healthy loopback connection; a stalled peer, a full queue or a loss between enqueue and reply is never combined with the deadline.",
 ["client.go", "handler.go", "server.go"],
 [("timers and select over session channel, queue and stop channel", "client.go CallContext/pushMessage/waiters")], observe=["return time of the client API on the virtual clock"])
prop("C03", "An accepted asynchronous call invokes its callback exactly once",
 "When CallAsync returns nil, its handler is invoked exactly once, with the response or with an error, no later than the timeout, also when the connection is lost, the client is stopped, or the response arrives at the moment of the timeout. When CallAsync returns an error, its handler is invoked at most once.",
 [S, H, F, C], "All interleavings of response, timeout, connection loss, stop and further calls, from client to server and from server to client.",
 "The race between timer, response and connection loss has windows of a few instructions which tests do not steer.",
 ["client.go", "handler.go", "context.go"],
 [("removal from the map decides who calls the handler", "client.go deleteAsyncHandler/clearAsyncHandler"), ("timer per call", "client.go CallAsync")],
 [("asyncHandlerMap", "outstanding asynchronous calls", "client.go")], ["CallAsync callback"])
prop("C04", "A message is handled at most once, by its own method, unchanged",
 "Every request or notify is handled at most once, by the handler registered for its method on the peer it was sent to, with exactly the payload that was sent, even across reconnects and retries. On a healthy connection a message that was accepted is handled exactly once; one refused for a full queue is never handled; no handler ever sees a message nobody sent.",
 ALL, "All schedules, value kinds, sizes, codecs, coder chains, batching modes, fragmentation of the byte stream and fault sequences.",
 "Tests send few messages one after another over loopback, which rarely fragments; they never reconnect with messages queued.",
 ["client.go", "handler.go", "server.go", "proto.go"],
 [("one queue per client, drained once", "client.go sendLoop/batchSendLoop"), ("router by method", "handler.go OnMessage"), ("exact framing", "handler.go Recv, proto.go")], observe=["handler invocations"])
prop("C05", "Messages of one connection reach synchronous handlers in order, one by one",
 "Messages that one sender issued one after the other over the same connection (the second after the first returned) reach the peer's synchronous handlers in that order, and synchronous handlers of one connection never overlap. This holds in both directions and in every batching mode.",
 [S, C, F], "All schedules of concurrent senders and of the sending and receiving loops, with all queue and buffer sizes, in both directions.",
 "Order violations need a particular interleaving of queue, batch and direct write which tests do not control.",
 ["client.go", "handler.go"],
 [("single FIFO send queue per client", "client.go chSend, sendLoop, batchSendLoop"), ("one reader goroutine per connection runs synchronous handlers", "client.go recvLoop, handler.go OnMessage")], observe=["handler invocations"])
prop("C06", "The byte stream on the wire is a sequence of well-formed frames",
 "Each direction of a connection carries a concatenation of whole frames in the documented 16 byte header format, never interleaved, repeated or truncated (except at the point where the connection ends), for both library ends and for peers that implement the format themselves. The library decodes any fragmentation of such a stream and understands everything an independent implementation of the format sends; each request gets at most one response, with its own sequence number.",
 ALL, "All schedules of concurrent writers, all write and read sizes, partial writes, all message kinds including streams, pings and errors, in every combination of library and independent peers.",
 "Tests connect the library to itself, so both sides could agree on a wrong format, and loopback writes are never partial.",
 ["proto.go", "handler.go", "client.go", "stream.go", "context.go"],
 [("header layout", "proto.go"), ("write lock and close after partial write", "client.go, handler.go Send/SendN"), ("exact reads", "handler.go Recv")], observe=["bytes recorded by the simulated network, decoded by an independent decoder"])
prop("C07", "A client whose connection is lost reconnects by itself and works again",
 "A client that loses its connection dials again, pausing a second between failed attempts, until it is connected, gives up after the configured number of failed attempts, or is stopped; once the network and server are back it serves calls in both directions again within a bounded time. It has at most one open connection, calls its connected handler once per connection and its disconnected handler only (and exactly once) when it gives up, and never closes a connection that works.",
 [S, F, H, C], "All points of loss (each byte, before or during handshakes, during redial), repeated losses, failed and slow dials, partitions, server restarts, with traffic in flight.",
 "The tests' reconnect covers one server restart after a fixed sleep, with no traffic at the moment of loss.",
 ["client.go", "handler.go"],
 [("reconnect in the receive loop", "client.go recvLoop"), ("state flags", "client.go reconnecting/running"), ("attempt limit", "handler.go MaxReconnectTimes")],
 [("Conn", "the current connection", "client.go"), ("reconnecting", "operations fail fast while set", "client.go")], ["dial log", "OnConnected/OnDisconnected", "calls after recovery"])
prop("C08", "Calls in progress fail as soon as their connection is known to be lost",
 "When an end of a connection finds it lost, every synchronous call that is waiting there for a response over it, and every asynchronous call of a client that dialed it, ends immediately instead of waiting for its timeout.",
 [S, F, CP], "All interleavings of issuing calls, losing the connection at any byte, and reconnecting.",
 "Tests never cut a connection while calls wait for a response.",
 ["client.go", "handler.go"],
 [("clearing of sessions and asynchronous handlers on disconnect", "client.go clearSession/clearAsyncHandler/recvLoop")], observe=["end time of calls against the time at which the read failed"])
prop("C09", "Stop ends a client completely; Restart brings it back",
 "Stop does not block; after it a client dials no more, closes its connection, ends every operation that was waiting and every goroutine, calls its disconnected handler exactly once, and refuses further operations at once with ErrClientStopped, without sending them. A stopped client that has come to rest can be restarted with one dial and then works, reconnects and stops as before. A server-side client can be stopped in the same way.",
 [S, F, H, C], "All moments of Stop: connected, reconnecting, dialing, with queues full and calls waiting, concurrent and repeated Stop.",
 "Tests stop idle clients; leaks and calls that stay blocked only show for Stop at particular moments.",
 ["client.go"],
 [("state check in every operation", "client.go CheckState"), ("close channel", "client.go chClose, Stop"), ("disconnect cleanup", "client.go recvLoop/sendLoop")],
 [("running", "not stopped", "client.go")], ["API results, connection state, goroutine count, OnDisconnected"])
prop("C10", "The server keeps its connection limit and its books",
 "The server never serves more connections at a time than its load limit; connections beyond it are closed without being served, and places become free again. Each admitted connection gets exactly one connected and exactly one disconnected notification, temporary accept errors do not stop the server, and when all connections have ended the current load is zero.",
 [S, F, H, C], "All interleavings of connecting, disconnecting, failing and hanging connections around the limit.",
 "Tests connect fewer clients than the limit and never race accept with disconnect.",
 ["server.go", "client.go"],
 [("atomic load counter", "server.go addLoad/subLoad/Serve"), ("client set", "server.go addClient/deleteClient")],
 [("CurrLoad", "connections being served", "server.go"), ("Accepted", "connections accepted", "server.go")], ["server side events, fields CurrLoad and Accepted"])
prop("C11", "Stop and Shutdown end a server cleanly, and it can serve again",
 "After Stop or Shutdown, Serve returns, no connection is accepted any more, every connection is closed and its pending operations fail, and all goroutines of the server end. Shutdown returns nil or its context's error no later than the context's deadline. A stopped server can serve a new listener; a failing listener ends Serve with an error.",
 [S, F, H], "All moments of Stop and Shutdown relative to accepting, handling, calling, and connection loss.",
 "Tests stop a server once, at rest.",
 ["server.go"],
 [("running flag and listener close", "server.go Stop/Shutdown/runLoop"), ("closing all clients", "server.go stopClients/clearClients")], observe=["Serve's return, connection states, goroutine count"])
prop("C13", "A stream delivers what was sent, in order, then ends",
 "What is received on a stream is a prefix of what the peer sent on that stream, in order, without loss, duplication or mixing with other streams, and EOF is reported only after everything that was sent before the peer closed its sending side. On a connection that stays healthy all of it arrives, followed by EOF.",
 ALL, "All schedules of several streams in both directions over one connection, all sizes and value kinds, mixed with other traffic, closes and faults at any point.",
 "Tests exchange a few messages on one stream in lock step.",
 ["stream.go", "handler.go", "client.go"],
 [("per stream queue", "stream.go"), ("stream lookup by id and side", "client.go"), ("EOF flag in the command byte", "proto.go, stream.go")],
 [("streamLocalMap", "streams opened here", "client.go"), ("streamRemoteMap", "streams opened by the peer", "client.go")], ["Stream.Recv*, Stream.Send*, stream handler"],
 note="One known finding (items queued for a lost connection are resent on the next one as if a new stream), listed in known_findings.json. ")
prop("C14", "Stream operations end: no stream outlives its connection or its owners",
 "Recv and Send on a stream whose connection is lost or whose client is stopped fail promptly; operations with a context return by its deadline; operations on a side that was closed fail. After that nothing waits on the stream any more and its connection serves further calls and streams.",
 [S, F, H], "All interleavings of sending, receiving, closing either side, connection loss, stop and timeouts.",
 "Tests close streams in one order with everything delivered.",
 ["stream.go", "client.go", "handler.go"],
 [("close once per side and removal from the maps", "stream.go"), ("release of all streams on disconnect", "client.go")], observe=["return of stream operations, goroutine count, later calls"])
prop("C22", "A full send queue refuses without blocking and loses nothing silently",
 "A message pushed with a zero timeout never blocks: it is either accepted, or refused with ErrClientOverstock after exactly one call of the overstock handler. A push or notify that returned an error is never handled by the peer, a message is reported dropped at most once and never both reported dropped and handled, and an idle connection accepts a burst as long as its queue. What was accepted on a connection that lasts is handled.",
 [S, C, F], "All queue sizes and interleavings with a slow or stalled peer, reconnects and batching.",
 "Tests fill a queue once with a blocked connection.",
 ["client.go", "handler.go"],
 [("bounded channel with select default", "client.go pushMessage/PushMsg/Notify"), ("overstock and dropped callbacks", "handler.go")], observe=["return values, callbacks, handler invocations"])
prop("C12", "A broadcast reaches every connected client exactly once",
 "Broadcast, BroadcastWithFilter and ForEach with PushMsg of one message deliver it, unchanged and to the right method, exactly once to every client the server has and the filter admits, unless that client's queue is full (then the overstock handler is told instead) or its connection ends. They never block on a slow client, and clients excluded by the filter never get it; successive broadcasts reach the synchronous handlers of a client in order.",
 ALL, "All interleavings of broadcasts from several goroutines with connecting, disconnecting, stalled and slow clients, other traffic, every coder chain and queue size.",
 "Tests broadcast a few messages to idle clients without coders or concurrent traffic; sharing of one buffer between clients only shows under particular interleavings.",
 ["server.go", "client.go", "handler.go", "proto.go"],
 [("one message pushed to every client", "server.go Broadcast/BroadcastWithFilter/ForEach"), ("queue per client", "client.go PushMsg/chSend"), ("retain/release of the shared message", "proto.go")],
 [("clients", "set of connected clients", "server.go Server")], ["client handlers, overstock callback, return time of Broadcast"])
prop("C15", "Pooled buffers are never shared, reused too early or freed twice",
 "With a buffer pool installed (EnablePool, HandleMalloc, HandleAppend, HandleFree), every buffer is freed at most once, only after its last use by the library, and only if it came from the pool; nothing is appended or written to a freed buffer. Data handed to users by a completed call never changes afterwards. The built-in pooled allocator gives a buffer to one user at a time and keeps its contents across Append and Realloc.",
 ALL, "All interleavings of requests, responses, batching, timeouts, errors, streams, coders and connection losses with a pool that poisons freed buffers and hands them out again at once.",
 "Tests run without a poisoning pool; early reuse needs a particular interleaving of writer, reader and pool.",
 ["client.go", "handler.go", "proto.go", "context.go", "stream.go", "allocator.go"],
 [("retain/release and payback of messages", "proto.go Message"), ("batch buffer of the sending loop", "client.go batchSendLoop"), ("release after handling", "handler.go OnMessage, context.go")], observe=["calls of the allocator hooks; contents of freed buffers; payloads"])
prop("C16", "Coders and codecs are transparent",
 "With the same chain of message coders (gzip, tracing, appender, user coders) installed at both ends, every request, notify, response, error, broadcast and stream item arrives with the method, payload and attached values that were sent, whatever its size and content, and the next message is not affected. The same holds with each codec that both ends share.",
 [S, I, C, H], "All combinations and orders of the supplied coders that they allow (gzip last), all sizes around thresholds, compressible and random content, appended values present or absent, concurrent senders.",
 "Tests send single messages through one coder; state shared between concurrent or successive messages and threshold sizes are not sampled.",
 ["handler.go", "context.go", "stream.go", "extension/middleware/coder/gzip/gzip.go", "extension/middleware/coder/tracing/tracer.go", "extension/middleware/coder/tracing/values.go", "extension/middleware/coder/msgpack/msgpack.go", "extension/middleware/coder/appender.go", "codec/codec.go"],
 [("encode in order, decode in reverse order", "handler.go Encode/Send, Recv/OnMessage"), ("flag bits in the reserved byte", "extension/middleware/coder")], observe=["payloads and values seen by handlers and callers"])
prop("C19", "A client pool keeps handing out usable clients",
 "A ClientPool has exactly the requested number of clients. Next returns a usable client whenever one is usable throughout the call and, while all are usable, hands them out evenly (round robin) even to concurrent callers; Get is stable per index. Stopping the pool stops every client; a pool that cannot be made leaves no connection open.",
 [S, F, C, H], "All interleavings of concurrent Next, Get and Handler use with connection losses, failed dials, partitions and stopped members, all pool sizes.",
 "Tests call Next on a healthy pool from one goroutine.",
 ["client.go"],
 [("atomic round robin counter with state check", "client.go ClientPool.Next/Get"), ("construction and cleanup", "client.go NewClientPool/NewClientPoolFromDialers")],
 [("round", "round robin counter", "client.go ClientPool")], ["returned clients, their CheckState, connection states"])
prop("C21", "Handlers and middleware run in order and a panic is contained",
 "For every request the registered middleware and the method's handler run exactly once each, in registration order, with Next and Abort meaning what is documented, and values set on a context and the error it responded are visible to later elements of the same request only. An unknown method is answered with an error. An asynchronous handler holds up no other request. A panic in a handler, middleware, CallAsync callback, stream handler or disconnect handler neither ends the process nor the connection nor disturbs other requests. What is registered or set on one Handler has no effect on a Handler cloned from it, or that it was cloned from.",
 ALL, "All chains of middleware, routers and handlers that call Next, Abort, both, neither or panic at any point; synchronous and asynchronous handlers; both directions; concurrent requests with pooled contexts.",
 "Tests use one fixed chain with sequential requests; panics in callbacks run by timers are not tested.",
 ["handler.go", "context.go", "extension/middleware/router/recover.go", "util/util.go", "client.go"],
 [("handler chain with index", "context.go Next/Abort"), ("Use and Handle", "handler.go"), ("Safe and recover", "util/util.go")], observe=["trace of executed chain elements against an executable model; responses"])
prop("C24", "Values attached to a client behave like one atomic map",
 "Set, Get and Delete on a client, from handlers and other goroutines at once, are linearizable as operations on a map that belongs to that client alone; all handlers of a connection see the same client. Values do not leak to other connections.",
 [S, C, H], "All interleavings of concurrent Set, Get and Delete on several clients, with connections coming and going.",
 "Tests access the values from one goroutine.",
 ["client.go", "context.go"],
 [("map guarded by the client's lock", "client.go Get/Set/Delete")], [("values", "user values of the client", "client.go Client")], ["results of Get against a linearizability checker"])
prop("C17", "A publication reaches every subscriber of its topic exactly once",
 "A publication, by the server or by an authenticated client, reaches every client that is subscribed to its topic throughout, exactly once, with topic, data and timestamp intact, and no client that was not subscribed; the publisher's data is left untouched. A topic handler that panics or subscribes itself affects no other publication. Successive publications of the server on a topic reach a subscriber in order. Malformed or oversized topics are refused.",
 ALL, "All interleavings of subscribing, unsubscribing, publishing (to all, to one, locally or from clients), connecting and disconnecting on several topics, all topic names and data sizes, with connection faults.",
 "Tests publish a few messages to idle subscribers in one order.",
 ["extension/pubsub/client.go", "extension/pubsub/server.go", "extension/pubsub/topic.go", "extension/pubsub/topic.go"],
 [("topic agent: one message pushed to every subscriber", "extension/pubsub/topic.go Publish"), ("subscribe and unsubscribe requests", "extension/pubsub/server.go"), ("topic encoding", "extension/pubsub/topic.go")],
 [("topics", "subscribers per topic", "extension/pubsub/server.go Server"), ("topicHandlerMap", "handlers per topic", "extension/pubsub/client.go Client")], ["topic handlers of the clients"])
prop("C18", "Only authenticated clients take part in pub/sub; subscriptions survive",
 "A client that did not authenticate with the right password can neither subscribe nor publish nor receive. A publication to one subscriber reaches exactly one of them. A subscription lasts until it is cancelled: after a lost connection or a restarted server, once the client is connected, authenticated and subscribed again, it receives as before.",
 ALL, "All histories of authenticating, subscribing, unsubscribing, connection losses at any point, server restarts and publications, and all schedules of the clients' re-subscription with them.",
 "Tests authenticate and subscribe once on a connection that stays up.",
 ["extension/pubsub/client.go", "extension/pubsub/server.go", "extension/pubsub/topic.go"],
 [("authentication flag of a connection", "extension/pubsub/server.go onAuthenticate"), ("re-subscription on connecting", "extension/pubsub/client.go initTopics"), ("removal on disconnect", "extension/pubsub/server.go deleteClient")],
 observe=["results of Authenticate, Subscribe, Publish; topic handlers of the clients"])
prop("C20", "No bytes from a peer can take a process down or disturb other connections",
 "Whatever bytes a peer sends, the process keeps running, other connections are served as before, and no buffer is allocated for a body above the configured limit. The well-formed messages before the first invalid one are handled exactly once; a body length above the limit ends the connection with nothing after it handled, an unknown command ends it too, while a message with an invalid method length and a response nobody waits for are dropped without effect. Cut messages are never handled.",
 [S, I, C, H], "All byte streams built from valid messages of every kind, messages at and beyond each limit, unknown commands, bit flips, garbage, truncation, closes and resets, in pieces of any size, from hostile clients and hostile servers, beside honest connections.",
 "Tests send a few malformed headers; the space of byte streams and what they do to other connections is not sampled.",
 ["proto.go", "handler.go", "client.go", "server.go", "stream.go"],
 [("header and body checks", "handler.go Recv, proto.go Header.message"), ("method length checks", "handler.go OnMessage"), ("closing on error", "client.go recvLoop")],
 [("maxBodyLen", "body length limit", "handler.go handler")], ["handler invocations against an independent parser of the byte stream, connection states, allocations, calls of honest clients"])
prop("C23", "Timeouts and keepalive tell a dead connection from a quiet one",
 "With a read timeout set (or the deadline, in a BeforeRecv hook), a connection on which nothing arrives for that long is closed (and a client dials again), never earlier; with a write timeout set (or the deadline, in a BeforeSend hook), a write that cannot make progress for that long ends the connection, never earlier, and one write's timeout does not affect a later one. With keepalive shorter than the read timeouts of both ends an idle healthy connection stays open for ever; a ping is answered with a pong, and a connection whose pings cannot be sent is closed.",
 [S, C, F, H], "All combinations of timeouts and keepalive intervals at both ends, traffic and silence around multiples of them, half-open connections, stalled readers, resets.",
 "Tests use one timeout and wait for real; what happens around the boundaries or on a half-open connection is not reached.",
 ["client.go", "server.go", "handler.go"],
 [("deadline before each read", "handler.go Recv"), ("deadline before each write", "handler.go Send/SendN, client.go Ping/Pong"), ("keepalive ticker", "client.go Keepalive")], observe=["times at which connections close, pings and pongs on the wire"])
prop("C25", "A graceful shutdown drops no accepted request and takes no new one",
 "A request that was accepted before Shutdown is handled to its end and its response sent; Shutdown returns only after that, and does return once the accepted requests have ended. A request made after Shutdown was called is not handled and is answered with the shutdown error.",
 [S, C, H, I], "All interleavings of requests, their (slow, failing, panicking, asynchronous) handlers and Shutdown, from several connections.",
 "Tests shut down after one request with fixed delays.",
 ["extension/middleware/router/graceful.go"],
 [("shutdown flag and wait group", "extension/middleware/router/graceful.go Handler/Shutdown")], observe=["handlers running when Shutdown returns, results of calls"])
prop("C26", "Service discovery hands out a usable client of a current node",
 "Lookup of a service returns a usable client of one of its current nodes whenever one is reachable, in proportion to the nodes' weights (round robin), also for concurrent callers; without nodes it says not found, without a reachable one unreachable. A node that was deleted is no longer handed out, connected to or dialed; adding a node again or updating its weight opens no second connection. A node that can't be reached is dialed again about once a second until it can be or is deleted.",
 [S, F, C, H], "All histories of adding, updating and deleting nodes with weights, nodes going down and coming back, and all schedules of these with concurrent lookups.",
 "Tests add two nodes and look one up.",
 ["extension/micro/service.go"],
 [("node list per service", "extension/micro/service.go serviceNodeList"), ("weighted round robin over the clients", "extension/micro/service.go ClientBy/next")],
 [("serviceList", "nodes per service", "extension/micro/service.go serviceManager")], ["returned clients and errors, open connections and dials per node"])
prop("C27", "A split listener hands every connection to exactly one side",
 "Every accepted connection is handed to exactly one of the two listeners: the first as long as it has fewer connections than its maximum (released ones are free again), otherwise the second. Temporary accept errors lose nothing; closing ends all pending and later Accept calls, and no connection accepted after that is left open.",
 [S, C, F, H], "All maxima, arrival patterns, releases and closes from either side, temporary accept errors, slow acceptors.",
 "Tests open a few connections one after another.",
 ["extension/listener/listener.go"],
 [("online counter of the first listener", "extension/listener/listener.go"), ("hand-over channels", "extension/listener/listener.go ChanListener")], observe=["which listener accepted a connection, connection states, Accept's return"])
prop("C28", "Over websocket everything holds as over TCP",
 "The guarantees for calls, async calls, notifies, broadcasts, streams and reconnects hold unchanged over the websocket transport. A websocket connection is a faithful byte stream whatever the sizes of reads, writes and frames; each one upgraded is accepted exactly once, and after the listener is closed Accept fails and connections nobody accepted are closed.",
 ALL, "The scenarios of the other properties over a real HTTP server with websocket framing on the simulated network, plus raw byte streams with all read and write sizes and closes at any point.",
 "Tests echo one message over a websocket.",
 ["extension/protocol/websocket/websocket.go", "client.go", "handler.go"],
 [("buffering of partly read messages", "extension/protocol/websocket/websocket.go Conn.Read"), ("accept queue", "extension/protocol/websocket/websocket.go Listener")],
 [("buffer", "rest of the last message", "extension/protocol/websocket/websocket.go Conn")], ["bytes read against bytes written; the observations of the other properties"])
prop("C29", "Memory, goroutines and timers do not grow with finished work",
 "Once calls, notifies, streams, subscriptions and connections have ended, in whatever way (answered, timed out, cancelled, refused, cut by a lost connection or a stop), client and server hold nothing for them any more: no goroutine, no timer, no queue or table entry. Doing the same bounded work again and again therefore needs bounded memory.",
 ALL, "All histories of calls of every kind in both directions, streams, broadcasts, pub/sub, churning connections and resets, repeated in rounds, with timeouts from microseconds to an hour and all schedules.",
 "Tests end before a leak matters and look at no internal table.",
 ["client.go", "server.go", "handler.go", "stream.go", "extension/pubsub/server.go", "extension/pubsub/topic.go"],
 [("removal of sessions and async handlers", "client.go deleteSession, deleteAsyncHandler"), ("removal of streams when both sides are closed", "stream.go halfClose"), ("removal of clients", "server.go deleteClient"), ("timers stopped with their call", "client.go Call, CallAsync")],
 [("sessionMap, asyncHandlerMap, streamLocalMap, streamRemoteMap", "pending work of a client", "client.go Client"), ("clients", "connections of a server", "server.go Server")],
 ["objects and entries reachable from clients and servers, goroutines and pending timers after each of several equal rounds"])
prop("C30", "A message posted over HTTP gets its own response",
 "A request message posted to the HTTP bridge is handled exactly once, and the body of that very HTTP response is its response message (same sequence, method and flags, or the error; for an unknown method the method-not-found error), also with many posts at once. A notify and a handler that does not answer give an empty body; an upload that is cut is not handled, and no posted bytes and no panicking handler take the process down or disturb other posts.",
 [S, I, C, F], "All message kinds and sizes, posted with content length or chunked, on shared and separate connections at once, through all coders, among malformed, cut and hostile bodies and connection faults.",
 "No test covers the bridge.",
 ["extension/arpchttp/handler.go", "context.go", "handler.go"],
 [("one client object per HTTP request", "extension/arpchttp/handler.go Handler"), ("direct write of the response", "context.go writeDirectly")], observe=["HTTP status and body per post, handler invocations"])

prop("C31", "A connection driven by the application's own event loop is served like any other",
 "When an application reads frames itself and hands each message to the handler's OnMessage, from one goroutine or from many at once, every request is handled exactly once and answered at most once with its own response, pings are answered, unknown methods are refused with the method-not-found error and invalid messages are dropped without harm to the connection. What the handlers, notifies and pushes of all these goroutines write is a sequence of whole frames, never interleaved. A healthy connection driven this way is never closed by the library.",
 [S, I, C, F], "Dispatch in the reader, in a goroutine per message and in shared workers; all call kinds both ways, all sizes, codecs, coders and buffer pools; reads of any size; resets, cuts, partial writes and stalls.",
 "The tests use OnMessage only through the library's own receive loop.",
 ["handler.go", "client.go", "context.go"],
 [("synchronous writing under the send lock", "client.go writeDirectly / PushMsg, context.go"), ("message dispatch", "handler.go OnMessage")], observe=["calls and results, handler invocations, bytes written per connection"])

prop("C32", "The redis registry: discoveries follow what is registered",
 "While a service is registered and its keepalives reach redis, every discovery of its namespace reports it, with its weight, within a poll interval and never deletes it, whatever polls fail meanwhile; once Stop of the register has returned the service leaves redis at once and for good, after a crash when its entry expires, and every discovery deletes it. A discovery reports nothing that was not registered or had expired when it was read, takes no other service down with a malformed entry, and recovers by itself once redis is reachable again. Stop of either ends all reporting and all connections, and may be called again.",
 [S, F, C, CP], "All interleavings of registers, keepalives, stops, crashes and restarts with polls of several discoveries; connection losses, partitions, error replies, lost replies, slow and restarted redis with and without its data, slow service managers.",
 "No test covers the registry; it needs a redis server, several processes and failures at particular points.",
 ["extension/micro/redis/register.go", "extension/micro/redis/discovery.go"],
 [("keepalive of a hash field that carries its expiry", "extension/micro/redis/register.go"), ("polling and comparing with the last answer", "extension/micro/redis/discovery.go updateServices")], observe=["AddServiceNodes and DeleteServiceNodes of every discovery, contents of the redis hash"])

prop("C33", "The etcd registry: one owner per key, discoveries follow what is registered",
 "NewRegister returns a register that owns the key or an error, never neither: a key that is registered stays with its owner whoever else registers it at the same time, and a registration that failed or died never blocks others for good. A key stays registered while its owner runs and its lease is kept alive, and leaves etcd when Stop has returned or, after a crash, when its lease ends. NewDiscovery reports every service registered before it or returns an error, and every discovery then follows the registry, through disconnections too, until its Stop.",
 [S, F, C, CP], "All interleavings of concurrent registrations of the same and different keys, stops, crashes (also in the middle of a registration) and discoveries; connection losses, partitions, errors, lost replies and restarts of etcd, slow service managers.",
 "No test covers the registry; it needs an etcd server, several processes racing for a key and failures at particular points.",
 ["extension/micro/etcd/register.go", "extension/micro/etcd/discovery.go"],
 [("registration under a lock, key bound to a lease that is kept alive", "extension/micro/etcd/register.go"), ("read of all keys, then watch", "extension/micro/etcd/discovery.go")], observe=["results of NewRegister, Stop and NewDiscovery, AddServiceNodes and DeleteServiceNodes of every discovery, contents of etcd"])

prop("C34", "Over QUIC connections arrive, carry their bytes whole and end",
 "A QUIC Listener's Accept returns every connection whose stream a live peer has opened and used, whatever other peers do (handshake and stay silent, vanish in the middle, never open a stream), until the listener is closed, and then returns an error. Dial returns a usable connection or an error within its timeout, and leaves nothing behind when it fails. The bytes written on one side are read on the other in order, none lost, added or altered, up to EOF after the writer's Close; Close ends a Read that waits on the same side and, within a bounded time, the connection. arpc clients and servers on top of it answer calls as over TCP.",
 [S, F, C, I], "All interleavings of dials, accepts, reads, writes and closes; loss, duplication, reordering and delay of packets, link failures, peers that vanish or misbehave; all payload sizes and timeouts.",
 "The package's test makes one connection at a time on an idle loopback with a friendly peer.",
 ["extension/protocol/quic/quic.go"],
 [("accept loop", "extension/protocol/quic/quic.go"), ("Conn.Close and Dial", "extension/protocol/quic/quic.go")], observe=["results of Dial, Accept, Read, Write, Close and of calls; goroutines and sockets left at the end"])

prop("C35", "The JavaScript client: every call ends once, with its own answer",
 "Every call of the JavaScript client ends exactly once, through its callback if it has one and its promise otherwise: with the response to that very call (data or error) as soon as it arrives, with timeout when its timeout is over and not earlier, or with the disconnected error as soon as its connection is lost; while the client is not connected or shut down, calls and notifies are refused at once and not sent. Calls over HTTP get their own response or the failure of the request. Every message the server sends, alone or together with others in one websocket message, is processed exactly once and in order: notifies and requests reach their handler with their data, pings are answered; a handler or callback that throws disturbs no other message, call or reconnect. What the client sends is well-formed for every method, payload and number of messages. A client whose connection is lost connects again, with one connection at a time, until shutdown, which ends the connection, the pending calls and all timers.",
 [S, F, I, H], "All orders of calls, notifies, responses, pushes, timeouts, connection losses, failed connects, hooks and shutdown; all batchings of messages, methods, payloads and sequence numbers; callbacks that throw or call again.",
 "There is no test of the JavaScript client.",
 ["extension/jsclient/arpc.js"],
 [("sessions of pending calls, timers", "extension/jsclient/arpc.js:ArpcClient.call"), ("decoding of received messages", "extension/jsclient/arpc.js:ArpcClient._onMessage"), ("reconnect and failing of pending calls", "extension/jsclient/arpc.js:ArpcClient.init")], observe=["results of calls (callbacks, promises), handler invocations, bytes given to WebSocket and XMLHttpRequest, WebSockets made, timers"],
 note="C35 runs the JavaScript source as it is in Node.js on a simulated browser (WebSocket, XMLHttpRequest, timers, clock) and a model server; the scheduler picks the order of events.")
