From 33b8cfb715cfae54f2260665db44bd8e9bc582e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:03 +0000
Subject: [PATCH 01/51] fix: free the batch buffer in use, not the first one,
 when batchSendLoop ends

With EnablePool, Append may replace (and free) the buffer; the deferred
Free was evaluated early and freed the original one a second time.
---
 client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client.go b/client.go
index d44bdb1..7c709d7 100644
--- a/client.go
+++ b/client.go
@@ -932,7 +932,7 @@ func (c *Client) batchSendLoop() {
 	var coders []MessageCoder
 	var buffer = c.Handler.Malloc(2048)[0:0]
 	var sendBufferSize = c.Handler.SendBufferSize()
-	defer c.Handler.Free(buffer)
+	defer func() { c.Handler.Free(buffer) }()
 
 	for {
 		select {
-- 
2.43.0


From 32472835a732a1279ac0b86f2c958b12a8dc92c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:03 +0000
Subject: [PATCH 02/51] fix: call every pending CallAsync handler once on
 disconnect

The loop variable was captured by the closures passed to AsyncExecute.
---
 client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client.go b/client.go
index 7c709d7..fe71495 100644
--- a/client.go
+++ b/client.go
@@ -733,6 +733,7 @@ func (c *Client) clearAsyncHandler() {
 	c.asyncHandlerMap = make(map[uint64]*asyncHandler)
 	c.mux.Unlock()
 	for _, ah := range handlers {
+		ah := ah
 		if ah.timer != nil {
 			ah.timer.Stop()
 		}
-- 
2.43.0


From b2f26a091d8a61dfdca1974c8fd541a1bcec4b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:41 +0000
Subject: [PATCH 03/51] fix: always call the handler of an accepted CallAsync

A request dropped while reconnecting lost its handler silently, a timer
shorter than the setup fired before the handler was registered, and a
handler was not registered at all when the client was stopped meanwhile.
---
 client.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/client.go b/client.go
index fe71495..59bc6e7 100644
--- a/client.go
+++ b/client.go
@@ -283,6 +283,13 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 	chTimer := make(chan time.Time, 1)
 	timerC := *(*<-chan time.Time)(unsafe.Pointer(&chTimer))
 	timer := &time.Timer{C: timerC}
+	// start the timer with the lock held so that it can't fire before the handler is added.
+	c.mux.Lock()
+	if !c.running {
+		c.mux.Unlock()
+		c.Handler.OnMessageDone(c, msg)
+		return ErrClientStopped
+	}
 	timerCallback := time.AfterFunc(timeout, func() {
 		ah, ok := c.getAndDeleteAsyncHandler(seq)
 		if ok {
@@ -294,8 +301,8 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 		}
 		chTimer <- time.Now()
 	})
-	ah := getAsyncHandler(timerCallback, handler)
-	c.addAsyncHandler(seq, ah)
+	c.asyncHandlerMap[seq] = getAsyncHandler(timerCallback, handler)
+	c.mux.Unlock()
 
 	if c.Handler.AsyncWrite() {
 		err = c.pushMessage(msg, timer)
@@ -311,6 +318,7 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 			}
 			c.Handler.OnMessageDone(c, msg)
 		} else {
+			c.deleteAsyncHandler(seq)
 			c.dropMessage(msg)
 			err = ErrClientReconnecting
 		}
@@ -691,19 +699,22 @@ func (c *Client) dropMessage(msg *Message) {
 		}
 		c.Handler.OnMessageDropped(c, msg)
 	} else {
-		c.deleteAsyncHandler(msg.Seq())
+		if msg.Cmd() == CmdRequest {
+			ah, ok := c.getAndDeleteAsyncHandler(msg.Seq())
+			if ok {
+				if ah.timer != nil {
+					ah.timer.Stop()
+				}
+				c.Handler.AsyncExecute(func() {
+					ah.handler(nil, ErrClientReconnecting)
+					putAsyncHandler(ah)
+				})
+			}
+		}
 		c.Handler.OnMessageDropped(c, msg)
 	}
 }
 
-func (c *Client) addAsyncHandler(seq uint64, ah *asyncHandler) {
-	c.mux.Lock()
-	if c.running {
-		c.asyncHandlerMap[seq] = ah
-	}
-	c.mux.Unlock()
-}
-
 func (c *Client) deleteAsyncHandler(seq uint64) {
 	c.mux.Lock()
 	ah, ok := c.asyncHandlerMap[seq]
-- 
2.43.0


From d81bbd9ff80d7735329ec21db84ed36ca645675e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:01 +0000
Subject: [PATCH 04/51] fix: always clean up a stopped Client

Stop while a handler runs, before recvLoop starts or while it redials left
the connection open or skipped closeAndClean: chClose was never closed,
OnDisconnected not called and the server's client list and load not
updated. With SetAsyncWrite(false) chClose was never closed at all.
---
 client.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/client.go b/client.go
index 59bc6e7..ba5d190 100644
--- a/client.go
+++ b/client.go
@@ -517,20 +517,21 @@ func (c *Client) Restart() error {
 func (c *Client) Stop() {
 	c.mux.Lock()
 	c.running = false
+	if c.chClose != nil {
+		select {
+		case <-c.chClose:
+		default:
+			close(c.chClose)
+		}
+	}
 	c.mux.Unlock()
 
 	c.Conn.Close()
 }
 
 func (c *Client) closeAndClean() {
-	c.mux.Lock()
-	c.running = false
-	c.mux.Unlock()
+	c.Stop()
 
-	c.Conn.Close()
-	if c.chSend != nil {
-		close(c.chClose)
-	}
 	if c.onStop != nil {
 		c.onStop(c)
 	}
@@ -840,15 +841,15 @@ func (c *Client) recvLoop() {
 			msg, err = c.Handler.Recv(c)
 			if err != nil {
 				log.Error("%v\t%v\tDisconnected: %v", c.Handler.LogTag(), addr, err)
-				c.closeAndClean()
-				return
+				break
 			}
 			c.Handler.OnMessage(c, msg)
 		}
+		c.closeAndClean()
 	} else {
 		go c.Handler.OnConnected(c)
 
-		for c.running {
+		for {
 		RECV:
 			for {
 				msg, err = c.Handler.Recv(c)
@@ -874,7 +875,15 @@ func (c *Client) recvLoop() {
 				log.Info("%v\t%v\tReconnect Trying %v", c.Handler.LogTag(), addr, i)
 				conn, err := c.Dialer()
 				if err == nil {
+					c.mux.Lock()
+					if !c.running {
+						// stopped while dialing
+						c.mux.Unlock()
+						conn.Close()
+						break
+					}
 					c.Conn = conn
+					c.mux.Unlock()
 
 					c.initReader()
 
@@ -890,6 +899,7 @@ func (c *Client) recvLoop() {
 				time.Sleep(time.Second)
 			}
 			c.closeAndClean()
+			return
 		}
 	}
 }
-- 
2.43.0


From 09446506d6c22c8ac672ed5ff070f1293a5509f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:48 +0000
Subject: [PATCH 05/51] fix: Stream.RecvContext returns io.EOF on a closed
 stream

It dereferenced the nil message read from the closed channel.
---
 stream.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stream.go b/stream.go
index f1af279..e560bb4 100644
--- a/stream.go
+++ b/stream.go
@@ -83,7 +83,10 @@ func (s *Stream) Recv(v interface{}) error {
 
 func (s *Stream) RecvContext(ctx context.Context, v interface{}) error {
 	select {
-	case msg := <-s.chData:
+	case msg, ok := <-s.chData:
+		if !ok {
+			return io.EOF
+		}
 		data := msg.Data()
 		err := util.BytesToValue(s.cli.Codec, data, v)
 		s.cli.Handler.OnMessageDone(s.cli, msg)
-- 
2.43.0


From c33bc727efae74e2032f1373f70edd7b2cda3abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:48 +0000
Subject: [PATCH 06/51] fix: don't call a nil onMessageDone for a stream
 message without handler

---
 handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index 7fd41e3..8c7a10a 100644
--- a/handler.go
+++ b/handler.go
@@ -800,7 +800,7 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 					h.AsyncExecute(func() { sh.handler(stream) })
 				}
 			} else {
-				h.onMessageDone(c, msg)
+				h.OnMessageDone(c, msg)
 				log.Warn("%v OnMessage: invalid Stream with method: [%v], no handler", h.LogTag(), method)
 			}
 		} else {
-- 
2.43.0


From d220e772cb888f9d35ab58a81fd5b295f39dd890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:48 +0000
Subject: [PATCH 07/51] fix: streams of a lost connection

After a reconnect the client sent EOFs of old streams on the new
connection, where they started stream handlers, and receivers of old
streams got io.EOF as if the peer had sent everything.
---
 client.go |  6 ++----
 stream.go | 23 ++++++++++++++++++++---
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/client.go b/client.go
index ba5d190..46dbc39 100644
--- a/client.go
+++ b/client.go
@@ -796,12 +796,10 @@ func (c *Client) clearStream() {
 	c.streamRemoteMap = make(map[uint64]*Stream)
 	c.mux.Unlock()
 	for _, stream := range streamLocalMap {
-		stream.CloseSend()
-		stream.CloseRecv()
+		stream.abort()
 	}
 	for _, stream := range streamRemoteMap {
-		stream.CloseSend()
-		stream.CloseRecv()
+		stream.abort()
 	}
 }
 
diff --git a/stream.go b/stream.go
index e560bb4..65d6f42 100644
--- a/stream.go
+++ b/stream.go
@@ -17,6 +17,7 @@ type Stream struct {
 	chData        chan *Message
 	stateRecv     int32
 	stateSend     int32
+	stateLost     int32
 	stateCloseCnt int32
 }
 
@@ -63,14 +64,30 @@ func (s *Stream) CloseSendContext(ctx context.Context) {
 	}
 }
 
+// abort closes both directions of a stream whose connection is lost:
+// nothing is sent for it on a new connection and the peer's missing data is not taken for EOF.
+func (s *Stream) abort() {
+	atomic.StoreInt32(&s.stateSend, 1)
+	atomic.StoreInt32(&s.stateLost, 1)
+	s.CloseRecv()
+}
+
+// closedErr returns the error for receiving from a closed stream.
+func (s *Stream) closedErr() error {
+	if atomic.LoadInt32(&s.stateLost) == 1 {
+		return ErrClientReconnecting
+	}
+	return io.EOF
+}
+
 func (s *Stream) Recv(v interface{}) error {
 	if atomic.LoadInt32(&s.stateRecv) == 1 && len(s.chData) == 0 {
-		return io.EOF
+		return s.closedErr()
 	}
 	select {
 	case msg, ok := <-s.chData:
 		if !ok {
-			return io.EOF
+			return s.closedErr()
 		}
 		data := msg.Data()
 		err := util.BytesToValue(s.cli.Codec, data, v)
@@ -85,7 +102,7 @@ func (s *Stream) RecvContext(ctx context.Context, v interface{}) error {
 	select {
 	case msg, ok := <-s.chData:
 		if !ok {
-			return io.EOF
+			return s.closedErr()
 		}
 		data := msg.Data()
 		err := util.BytesToValue(s.cli.Codec, data, v)
-- 
2.43.0


From 66ab503d10d66a95f7411480836da0f90e55f90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:48 +0000
Subject: [PATCH 08/51] fix: a stream keeps its own copy of the method

The string pointed into the first message's buffer, which is reused when
the pool is enabled.
---
 handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index 8c7a10a..cf10395 100644
--- a/handler.go
+++ b/handler.go
@@ -789,7 +789,7 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 		if !ok {
 			sh, ok := h.streams[method]
 			if ok && !local {
-				stream = c.newStream(msg.method(), id, false)
+				stream = c.newStream(msg.Method(), id, false)
 				stream.onMessage(msg)
 				if eof {
 					stream.CloseRecv()
-- 
2.43.0


From 0ce7b8968112158ceb0553303a85ecf2f4d40aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:22 +0000
Subject: [PATCH 09/51] fix: a server-side Client must not reuse the seqs of
 the peer's previous connection

A reconnected peer may still answer calls received on its previous
connection; every server-side Client started at seq 1, so such a response
was delivered to an unrelated call.
---
 client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 46dbc39..8a8a34b 100644
--- a/client.go
+++ b/client.go
@@ -1011,7 +1011,9 @@ func newClientWithConn(conn net.Conn, codec codec.Codec, handler Handler, onStop
 	log.Info("%v\t%v\tConnected", handler.LogTag(), conn.RemoteAddr())
 
 	c := &Client{
-		seq:             1,
+		// not used by an earlier connection of the same peer, so that
+		// a late response to that connection matches no call of this one.
+		seq:             uint64(time.Now().UnixNano()),
 		Conn:            conn,
 		Codec:           codec,
 		Handler:         handler,
-- 
2.43.0


From 62e3f0ffb52e462e7195c142382983fee16c0b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:22 +0000
Subject: [PATCH 10/51] fix: close the connection when writing a ping or pong
 fails

A partly written ping made the peer misread everything after it.
---
 client.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 8a8a34b..04f635c 100644
--- a/client.go
+++ b/client.go
@@ -112,12 +112,18 @@ func (c *Client) Delete(key interface{}) {
 
 // Ping .
 func (c *Client) Ping() {
-	c.Conn.Write(PingMessage.Buffer)
+	conn := c.Conn
+	if _, err := conn.Write(PingMessage.Buffer); err != nil {
+		conn.Close()
+	}
 }
 
 // Pong .
 func (c *Client) Pong() {
-	c.Conn.Write(PongMessage.Buffer)
+	conn := c.Conn
+	if _, err := conn.Write(PongMessage.Buffer); err != nil {
+		conn.Close()
+	}
 }
 
 // Ping .
-- 
2.43.0


From eeba27f841c1b59d0fd36d8608c6e314b07e7c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:22 +0000
Subject: [PATCH 11/51] fix: a repeated response must not block the reading
 goroutine

---
 handler.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index cf10395..a184266 100644
--- a/handler.go
+++ b/handler.go
@@ -760,7 +760,12 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 			seq := msg.Seq()
 			session, ok := c.getSession(seq)
 			if ok {
-				session.done <- msg
+				select {
+				case session.done <- msg:
+				default:
+					// more than one response
+					h.OnMessageDone(c, msg)
+				}
 			} else {
 				h.OnSessionMiss(c, msg)
 				log.Warn("%v OnMessage: session not exist or expired", h.LogTag())
-- 
2.43.0


From 3dd02489249886dae08bd0cfd5936e5281ae4c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:22 +0000
Subject: [PATCH 12/51] fix: add an accepted Client to the server before its
 goroutines start

A connection lost at once was removed first and then added for good.
---
 client.go | 3 +--
 server.go | 1 +
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 04f635c..18e4330 100644
--- a/client.go
+++ b/client.go
@@ -1013,6 +1013,7 @@ func (c *Client) batchSendLoop() {
 	}
 }
 
+// newClientWithConn creates a Client for an accepted conn, the caller should call run.
 func newClientWithConn(conn net.Conn, codec codec.Codec, handler Handler, onStop func(*Client)) *Client {
 	log.Info("%v\t%v\tConnected", handler.LogTag(), conn.RemoteAddr())
 
@@ -1035,8 +1036,6 @@ func newClientWithConn(conn net.Conn, codec codec.Codec, handler Handler, onStop
 		c.chSend = make(chan *Message, handler.SendQueueSize())
 	}
 
-	c.run()
-
 	return c
 }
 
diff --git a/server.go b/server.go
index 77627e8..c16b920 100644
--- a/server.go
+++ b/server.go
@@ -196,6 +196,7 @@ func (s *Server) runLoop() error {
 					s.subLoad()
 				})
 				s.addClient(cli)
+				cli.run()
 				s.Handler.OnConnected(cli)
 			} else {
 				conn.Close()
-- 
2.43.0


From 06021187e54e7c72ce4be6b7418d17c233d3dfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:06 +0000
Subject: [PATCH 13/51] fix: write nothing on a connection after a part of a
 message

Senders that write directly (SetAsyncWrite(false), ping, pong) could write
after another sender's failed partial write and before it closed the
connection, so the peer took their bytes for the rest of that message. The
connection closed was c.Conn at that time, which could be a new one.
---
 client.go  | 76 +++++++++++++++++++++++++++---------------------------
 context.go |  5 +---
 stream.go  |  5 +---
 3 files changed, 40 insertions(+), 46 deletions(-)

diff --git a/client.go b/client.go
index 18e4330..a60020f 100644
--- a/client.go
+++ b/client.go
@@ -57,6 +57,8 @@ type Client struct {
 	running      bool
 	reconnecting bool
 
+	muxSend sync.Mutex
+
 	mux             sync.Mutex
 	sessionMap      map[uint64]*rpcSession
 	asyncHandlerMap map[uint64]*asyncHandler
@@ -112,18 +114,12 @@ func (c *Client) Delete(key interface{}) {
 
 // Ping .
 func (c *Client) Ping() {
-	conn := c.Conn
-	if _, err := conn.Write(PingMessage.Buffer); err != nil {
-		conn.Close()
-	}
+	c.write(PingMessage.Buffer)
 }
 
 // Pong .
 func (c *Client) Pong() {
-	conn := c.Conn
-	if _, err := conn.Write(PongMessage.Buffer); err != nil {
-		conn.Close()
-	}
+	c.write(PongMessage.Buffer)
 }
 
 // Ping .
@@ -139,6 +135,31 @@ func (c *Client) Keepalive(interval time.Duration) {
 	}
 }
 
+// write writes buf as a whole or closes the connection,
+// so that nothing follows a part of it.
+func (c *Client) write(buf []byte) error {
+	c.muxSend.Lock()
+	defer c.muxSend.Unlock()
+	conn := c.Conn
+	_, err := conn.Write(buf)
+	if err != nil {
+		conn.Close()
+	}
+	return err
+}
+
+// send is like write but sends buf by Handler.Send.
+func (c *Client) send(buf []byte) error {
+	c.muxSend.Lock()
+	defer c.muxSend.Unlock()
+	conn := c.Conn
+	_, err := c.Handler.Send(conn, buf)
+	if err != nil {
+		conn.Close()
+	}
+	return err
+}
+
 // NewMessage creates a Message by client's seq, handler and codec.
 func (c *Client) NewMessage(cmd byte, method string, v interface{}, args ...interface{}) *Message {
 	if len(args) == 0 {
@@ -187,10 +208,9 @@ func (c *Client) Call(method string, req interface{}, rsp interface{}, timeout t
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err := c.Handler.Send(c.Conn, msg.Buffer)
+			err := c.send(msg.Buffer)
 			c.Handler.OnMessageDone(c, msg)
 			if err != nil {
-				c.Conn.Close()
 				return err
 			}
 		} else {
@@ -249,10 +269,9 @@ func (c *Client) CallContext(ctx context.Context, method string, req interface{}
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err := c.Handler.Send(c.Conn, msg.Buffer)
+			err := c.send(msg.Buffer)
 			c.Handler.OnMessageDone(c, msg)
 			if err != nil {
-				c.Conn.Close()
 				return err
 			}
 		} else {
@@ -318,10 +337,7 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err = c.Handler.Send(c.Conn, msg.Buffer)
-			if err != nil {
-				c.Conn.Close()
-			}
+			err = c.send(msg.Buffer)
 			c.Handler.OnMessageDone(c, msg)
 		} else {
 			c.deleteAsyncHandler(seq)
@@ -363,10 +379,7 @@ func (c *Client) Notify(method string, data interface{}, timeout time.Duration,
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err = c.Handler.Send(c.Conn, msg.Buffer)
-			if err != nil {
-				c.Conn.Close()
-			}
+			err = c.send(msg.Buffer)
 			c.Handler.OnMessageDone(c, msg)
 		} else {
 			c.dropMessage(msg)
@@ -410,10 +423,7 @@ func (c *Client) NotifyContext(ctx context.Context, method string, data interfac
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err := c.Handler.Send(c.Conn, msg.Buffer)
-			if err != nil {
-				c.Conn.Close()
-			}
+			err := c.send(msg.Buffer)
 			c.Handler.OnMessageDone(c, msg)
 			return err
 		} else {
@@ -439,10 +449,7 @@ func (c *Client) PushMsg(msg *Message, timeout time.Duration) error {
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err := c.Handler.Send(c.Conn, msg.Buffer)
-			if err != nil {
-				c.Conn.Close()
-			}
+			err := c.send(msg.Buffer)
 			c.Handler.OnMessageDone(c, msg)
 			return err
 		} else {
@@ -931,9 +938,7 @@ func (c *Client) normalSendLoop() {
 				for j := 0; j < len(coders); j++ {
 					msg = coders[j].Encode(c, msg)
 				}
-				if _, err := c.Handler.Send(c.Conn, msg.Buffer); err != nil {
-					c.Conn.Close()
-				}
+				c.send(msg.Buffer)
 				c.Handler.OnMessageDone(c, msg)
 			} else {
 				c.dropMessage(msg)
@@ -996,15 +1001,10 @@ func (c *Client) batchSendLoop() {
 				for j := 0; j < len(coders); j++ {
 					msg = coders[j].Encode(c, msg)
 				}
-				_, err := c.Handler.Send(c.Conn, msg.Buffer)
-				if err != nil {
-					c.Conn.Close()
-				}
+				c.send(msg.Buffer)
 				c.Handler.OnMessageDone(c, msg)
 			} else {
-				if _, err := c.Handler.Send(c.Conn, buffer); err != nil {
-					c.Conn.Close()
-				}
+				c.send(buffer)
 				buffer = buffer[0:0]
 			}
 		} else {
diff --git a/context.go b/context.go
index 0f46bab..0ff11ed 100644
--- a/context.go
+++ b/context.go
@@ -181,10 +181,7 @@ func (ctx *Context) writeDirectly(v interface{}, isError bool) error {
 		for j := 0; j < len(coders); j++ {
 			rsp = coders[j].Encode(cli, rsp)
 		}
-		_, err := cli.Handler.Send(cli.Conn, rsp.Buffer)
-		if err != nil {
-			cli.Conn.Close()
-		}
+		err := cli.send(rsp.Buffer)
 		return err
 	}
 	cli.dropMessage(rsp)
diff --git a/stream.go b/stream.go
index 65d6f42..05bc3dd 100644
--- a/stream.go
+++ b/stream.go
@@ -191,10 +191,7 @@ func (s *Stream) send(ctx context.Context, v interface{}, eof bool, args ...inte
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err := c.Handler.Send(c.Conn, msg.Buffer)
-			if err != nil {
-				c.Conn.Close()
-			}
+			err := c.send(msg.Buffer)
 			c.Handler.OnMessageDone(c, msg)
 			return err
 		} else {
-- 
2.43.0


From 0afbe2c259ed73732a9349fe9f2974a05ff5a19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:05 +0000
Subject: [PATCH 14/51] fix: broadcast a message of its own to every client
 when there are coders

---
 server.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/server.go b/server.go
index c16b920..1cd5cc3 100644
--- a/server.go
+++ b/server.go
@@ -69,6 +69,11 @@ func (s *Server) Broadcast(method string, v interface{}, args ...interface{}) {
 	}()
 
 	for c := range s.clients {
+		if len(s.Handler.Coders()) > 0 {
+			// coders modify the message, it can't be shared
+			c.PushMsg(s.NewMessage(CmdNotify, method, v, args...), TimeZero)
+			continue
+		}
 		msg.Retain()
 		c.PushMsg(msg, TimeZero)
 	}
@@ -84,6 +89,11 @@ func (s *Server) BroadcastWithFilter(method string, v interface{}, filter func(*
 
 	for c := range s.clients {
 		if filter == nil || filter(c) {
+			if len(s.Handler.Coders()) > 0 {
+				// coders modify the message, it can't be shared
+				c.PushMsg(s.NewMessage(CmdNotify, method, v, args...), TimeZero)
+				continue
+			}
 			msg.Retain()
 			c.PushMsg(msg, TimeZero)
 		}
-- 
2.43.0


From 98f3d2dadfefc96e0533ff5ddd19f383be3c2357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:35 +0000
Subject: [PATCH 15/51] fix: ClientPool.Next tries every client

---
 client.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index a60020f..ad656ec 100644
--- a/client.go
+++ b/client.go
@@ -1099,12 +1099,14 @@ func (pool *ClientPool) Get(index int) *Client {
 
 // Next returns a Client by round robin.
 func (pool *ClientPool) Next() *Client {
-	var client = pool.clients[atomic.AddUint64(&pool.round, 1)%pool.size]
+	// the others are tried in order, independent of concurrent calls
+	var index = atomic.AddUint64(&pool.round, 1) % pool.size
+	var client = pool.clients[index]
 	if client.running && !client.reconnecting {
 		return client
 	}
 	for i := uint64(1); i < pool.size; i++ {
-		client = pool.clients[atomic.AddUint64(&pool.round, 1)%pool.size]
+		client = pool.clients[(index+i)%pool.size]
 		if client.running && !client.reconnecting {
 			return client
 		}
-- 
2.43.0


From 5fb308974ffd6a012ddf87d640f667c3bd145a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:35 +0000
Subject: [PATCH 16/51] fix: don't change serviceNodeList.index with only the
 read lock

---
 extension/micro/service.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/micro/service.go b/extension/micro/service.go
index cfd0cc8..fc1d095 100644
--- a/extension/micro/service.go
+++ b/extension/micro/service.go
@@ -86,8 +86,8 @@ func (list *serviceNodeList) delete(addr string) {
 }
 
 func (list *serviceNodeList) next() (*arpc.Client, error) {
-	list.mux.RLock()
-	defer list.mux.RUnlock()
+	list.mux.Lock()
+	defer list.mux.Unlock()
 	l := len(list.nodes)
 	if l == 0 {
 		return nil, ErrServiceNotFound
-- 
2.43.0


From 29e3595733fdb393ea29b5b7c150fd0463ea8d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:07 +0000
Subject: [PATCH 17/51] fix: stop the Client of a service node that is already
 added

---
 extension/micro/service.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/extension/micro/service.go b/extension/micro/service.go
index fc1d095..da8e22f 100644
--- a/extension/micro/service.go
+++ b/extension/micro/service.go
@@ -42,16 +42,17 @@ type serviceNodeList struct {
 	nodes []*ServiceNode
 }
 
-func (list *serviceNodeList) addByAddr(addr string, nodes []*ServiceNode) {
+func (list *serviceNodeList) addByAddr(addr string, nodes []*ServiceNode) bool {
 	list.mux.Lock()
 	defer list.mux.Unlock()
 	for _, v := range list.nodes {
 		// addr already added
 		if v.addr == addr {
-			return
+			return false
 		}
 	}
 	list.nodes = append(list.nodes, nodes...)
+	return true
 }
 
 func (list *serviceNodeList) update(node *ServiceNode) {
@@ -108,7 +109,7 @@ type serviceManager struct {
 	serviceList map[string]*serviceNodeList
 }
 
-func (s *serviceManager) setServiceNode(name string, addr string, nodes []*ServiceNode) {
+func (s *serviceManager) setServiceNode(name string, addr string, nodes []*ServiceNode) bool {
 	s.mux.Lock()
 	list, ok := s.serviceList[name]
 	if !ok {
@@ -116,7 +117,7 @@ func (s *serviceManager) setServiceNode(name string, addr string, nodes []*Servi
 		s.serviceList[name] = list
 	}
 	s.mux.Unlock()
-	list.addByAddr(addr, nodes)
+	return list.addByAddr(addr, nodes)
 }
 
 func (s *serviceManager) updateServiceNode(name string, node *ServiceNode) {
@@ -154,7 +155,13 @@ func (s *serviceManager) AddServiceNodes(path string, value string) {
 	})
 	for i := 0; i < weight; i++ {
 		nodes[i].client = client
-		s.setServiceNode(name, addr, nodes)
+	}
+	if !s.setServiceNode(name, addr, nodes) {
+		// the nodes added before stay in use
+		if err == nil {
+			client.Stop()
+		}
+		return
 	}
 	if err == nil {
 		log.Info("AddServiceNodes: [%v, %v, %v, %v]", app, name, addr, weight)
-- 
2.43.0


From 76579bed104296e9703c4c04db187e6ed03b5132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:07 +0000
Subject: [PATCH 18/51] fix: Graceful handles no new request after Shutdown and
 waits for all accepted ones

---
 extension/middleware/router/graceful.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/extension/middleware/router/graceful.go b/extension/middleware/router/graceful.go
index 4276dbd..59ab130 100644
--- a/extension/middleware/router/graceful.go
+++ b/extension/middleware/router/graceful.go
@@ -13,6 +13,7 @@ var ErrShutdown = errors.New("shutting down")
 
 // Graceful represents a graceful middleware instance.
 type Graceful struct {
+	mux        sync.Mutex
 	shutdown   bool
 	gracefulWg sync.WaitGroup
 }
@@ -20,19 +21,25 @@ type Graceful struct {
 // Handler returns the graceful middleware handler.
 func (g *Graceful) Handler() arpc.HandlerFunc {
 	return func(ctx *arpc.Context) {
+		g.mux.Lock()
 		if !g.shutdown {
 			g.gracefulWg.Add(1)
+			g.mux.Unlock()
 			defer g.gracefulWg.Done()
 			ctx.Next()
 		} else {
+			g.mux.Unlock()
 			ctx.Error(ErrShutdown)
+			ctx.Abort()
 		}
 	}
 }
 
 // Shutdown stops handling new requests and waits for all current requests to be processed.
 func (g *Graceful) Shutdown() {
+	g.mux.Lock()
 	g.shutdown = true
+	g.mux.Unlock()
 	g.gracefulWg.Wait()
 	time.Sleep(time.Second / 10)
 }
-- 
2.43.0


From 0d49026925f00a0b1c3a4777b81ca4457603ff56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:15 +0000
Subject: [PATCH 19/51] fix: Topic must not write to the publisher's slice nor
 slice out of a short message

---
 extension/pubsub/topic.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/extension/pubsub/topic.go b/extension/pubsub/topic.go
index 7050f7a..5f4417a 100644
--- a/extension/pubsub/topic.go
+++ b/extension/pubsub/topic.go
@@ -37,8 +37,8 @@ func (tp *Topic) toBytes() ([]byte, error) {
 	binary.LittleEndian.PutUint16(tail[nameLen:], nameLen)
 	binary.LittleEndian.PutUint64(tail[nameLen+2:], uint64(tp.Timestamp))
 	dataLen := len(tp.Data)
-	tp.Data = append(tp.Data, tail...)
-	tp.raw = tp.Data
+	// don't append to the user's slice
+	tp.raw = append(tp.Data[:dataLen:dataLen], tail...)
 	tp.Data = tp.raw[:dataLen]
 	return tp.raw, nil
 }
@@ -48,7 +48,7 @@ func (tp *Topic) fromBytes(data []byte) error {
 		return ErrInvalidTopicBytes
 	}
 	nameLen := int(binary.LittleEndian.Uint16(data[len(data)-10:]))
-	if nameLen == 0 || nameLen > MaxTopicNameLen {
+	if nameLen == 0 || nameLen > MaxTopicNameLen || nameLen > len(data)-10 {
 		return ErrInvalidTopicNameLength
 	}
 	tp.Timestamp = int64(binary.LittleEndian.Uint64(data[len(data)-8:]))
-- 
2.43.0


From b4260468bd2a91def57b63a453e1f5cca6466a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:23 +0000
Subject: [PATCH 20/51] fix: a published message shared by clients is retained
 for each of them

---
 extension/pubsub/topic.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/extension/pubsub/topic.go b/extension/pubsub/topic.go
index 5f4417a..d395d3d 100644
--- a/extension/pubsub/topic.go
+++ b/extension/pubsub/topic.go
@@ -91,12 +91,23 @@ func (t *TopicAgent) Delete(c *arpc.Client) {
 	t.mux.Unlock()
 }
 
+// push sends msg, which is shared with other clients, to a client.
+func (t *TopicAgent) push(s *Server, to *arpc.Client, msg *arpc.Message, topic *Topic) error {
+	if len(s.Handler.Coders()) > 0 {
+		// coders modify the message, it can't be shared
+		return to.PushMsg(s.NewMessage(arpc.CmdNotify, routePublish, topic.raw), arpc.TimeZero)
+	}
+	msg.Retain()
+	return to.PushMsg(msg, arpc.TimeZero)
+}
+
 // Publish .
 func (t *TopicAgent) Publish(s *Server, from *arpc.Client, topic *Topic) {
 	msg := s.NewMessage(arpc.CmdNotify, routePublish, topic.raw)
+	defer msg.Release()
 	t.mux.RLock()
 	for to := range t.clients {
-		err := to.PushMsg(msg, arpc.TimeZero)
+		err := t.push(s, to, msg, topic)
 		if err != nil {
 			if from != nil {
 				log.Error("[Publish] [topic: '%v'] failed %v, from\t%v\tto\t%v", topic.Name, err, from.Conn.RemoteAddr(), to.Conn.RemoteAddr())
@@ -116,9 +127,10 @@ func (t *TopicAgent) Publish(s *Server, from *arpc.Client, topic *Topic) {
 // PublishToOne .
 func (t *TopicAgent) PublishToOne(s *Server, from *arpc.Client, topic *Topic) {
 	msg := s.NewMessage(arpc.CmdNotify, routePublish, topic.raw)
+	defer msg.Release()
 	t.mux.RLock()
 	for to := range t.clients {
-		err := to.PushMsg(msg, arpc.TimeZero)
+		err := t.push(s, to, msg, topic)
 		if err != nil {
 			if from != nil {
 				log.Error("[PublishToOne] [topic: '%v'] failed %v, from\t%v\tto\t%v", topic.Name, err, from.Conn.RemoteAddr(), to.Conn.RemoteAddr())
-- 
2.43.0


From ecc847904e093be78c4470e58527cbf77c62a1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:32 +0000
Subject: [PATCH 21/51] fix: keep a client's topics and the topics' clients in
 step

---
 extension/pubsub/server.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/extension/pubsub/server.go b/extension/pubsub/server.go
index 94a2717..bfd312a 100644
--- a/extension/pubsub/server.go
+++ b/extension/pubsub/server.go
@@ -22,6 +22,7 @@ const (
 
 type clientTopics struct {
 	mux         sync.RWMutex
+	closed      bool // the client is disconnected
 	topicAgents map[string]*TopicAgent
 }
 
@@ -115,12 +116,16 @@ func (s *Server) onSubscribe(ctx *arpc.Context) {
 		}
 		cts := topics.(*clientTopics)
 		cts.mux.Lock()
+		if cts.closed {
+			cts.mux.Unlock()
+			return
+		}
 		tp, ok := cts.topicAgents[topicName]
 		if !ok {
 			tp = s.getOrMakeTopic(topicName)
 			cts.topicAgents[topicName] = tp
-			cts.mux.Unlock()
 			tp.Add(ctx.Client)
+			cts.mux.Unlock()
 			ctx.Write(nil)
 			log.Info("%v [Subscribe] [topic: '%v'] success from\t%v", s.Handler.LogTag(), topicName, ctx.Client.Conn.RemoteAddr())
 		} else {
@@ -158,8 +163,8 @@ func (s *Server) onUnsubscribe(ctx *arpc.Context) {
 		cts.mux.Lock()
 		if ta, ok := cts.topicAgents[topicName]; ok {
 			delete(cts.topicAgents, topicName)
-			cts.mux.Unlock()
 			ta.Delete(ctx.Client)
+			cts.mux.Unlock()
 			ctx.Write(nil)
 			log.Info("%v [Unsubscribe] [topic: '%v'] success from\t%v", s.Handler.LogTag(), ta.Name, ctx.Client.Conn.RemoteAddr())
 		} else {
@@ -250,9 +255,14 @@ func (s *Server) getOrMakeTopic(topic string) *TopicAgent {
 
 // addClient .
 func (s *Server) addClient(c *arpc.Client) {
-	c.Set(userTopicKey, &clientTopics{
-		topicAgents: map[string]*TopicAgent{},
-	})
+	s.psmux.Lock()
+	defer s.psmux.Unlock()
+	// authenticated again: the topics stay
+	if _, ok := c.Get(userTopicKey); !ok {
+		c.Set(userTopicKey, &clientTopics{
+			topicAgents: map[string]*TopicAgent{},
+		})
+	}
 }
 
 func (s *Server) deleteClient(c *arpc.Client) {
@@ -264,8 +274,9 @@ func (s *Server) deleteClient(c *arpc.Client) {
 	defer util.Recover()
 
 	cts := topics.(*clientTopics)
-	cts.mux.RLock()
-	defer cts.mux.RUnlock()
+	cts.mux.Lock()
+	defer cts.mux.Unlock()
+	cts.closed = true
 	for _, tp := range cts.topicAgents {
 		tp.Delete(c)
 		log.Info("%v [Disconnected Unsubscribe] [topic: '%v'] from\t%v", s.Handler.LogTag(), tp.Name, c.Conn.RemoteAddr())
-- 
2.43.0


From 9424209490dad19b606b7b807406b7794b6187c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:52 +0000
Subject: [PATCH 22/51] fix: what follows on a stream closed by its handler is
 not a new stream

---
 handler.go | 1 +
 stream.go  | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index a184266..2e021d3 100644
--- a/handler.go
+++ b/handler.go
@@ -798,6 +798,7 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 				stream.onMessage(msg)
 				if eof {
 					stream.CloseRecv()
+					c.deleteStream(id, false)
 				}
 				if !sh.async {
 					sh.handler(stream)
diff --git a/stream.go b/stream.go
index 05bc3dd..f8d4715 100644
--- a/stream.go
+++ b/stream.go
@@ -204,7 +204,9 @@ func (s *Stream) send(ctx context.Context, v interface{}, eof bool, args ...inte
 }
 
 func (s *Stream) halfClose() {
-	if atomic.AddInt32(&s.stateCloseCnt, 1) == 2 {
+	// the peer's stream is deleted when its EOF is received, until then it may send
+	// and its messages must not be taken for a new stream.
+	if atomic.AddInt32(&s.stateCloseCnt, 1) == 2 && s.local {
 		s.cli.deleteStream(s.id, s.local)
 	}
 }
-- 
2.43.0


From fbcbb65419005f7d5db89b9c1baf52d19afa8a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:19 +0000
Subject: [PATCH 23/51] fix: a message dropped because the Client stops must
 not be followed by EOF

---
 stream.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stream.go b/stream.go
index f8d4715..2fe6867 100644
--- a/stream.go
+++ b/stream.go
@@ -37,6 +37,9 @@ func (s *Stream) onMessage(msg *Message) {
 		select {
 		case s.chData <- msg:
 		case <-s.cli.chClose:
+			// this message is not received, what follows must not be taken for EOF
+			atomic.StoreInt32(&s.stateLost, 1)
+			s.cli.Handler.OnMessageDone(s.cli, msg)
 		}
 	}
 }
@@ -75,6 +78,9 @@ func (s *Stream) abort() {
 // closedErr returns the error for receiving from a closed stream.
 func (s *Stream) closedErr() error {
 	if atomic.LoadInt32(&s.stateLost) == 1 {
+		if !s.cli.running {
+			return ErrClientStopped
+		}
 		return ErrClientReconnecting
 	}
 	return io.EOF
-- 
2.43.0


From 3bce9ab64255843dfa4b6e9cb76a4890be417cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:38 +0000
Subject: [PATCH 24/51] fix: recover a panic of a CallAsync handler called for
 a timeout

---
 client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index ad656ec..912999d 100644
--- a/client.go
+++ b/client.go
@@ -321,7 +321,8 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 			if ah.timer != nil {
 				ah.timer.Stop()
 			}
-			ah.handler(nil, ErrTimeout)
+			// a panic must not end the process, as in the other places which call the handler
+			util.Safe(func() { ah.handler(nil, ErrTimeout) })
 			putAsyncHandler(ah)
 		}
 		chTimer <- time.Now()
-- 
2.43.0


From c10e388b40dbc532bb61127af5b4a72c790cec72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:51 +0000
Subject: [PATCH 25/51] fix: a ping or pong gets the write timeout of its own

---
 client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client.go b/client.go
index 912999d..179ffc1 100644
--- a/client.go
+++ b/client.go
@@ -141,6 +141,9 @@ func (c *Client) write(buf []byte) error {
 	c.muxSend.Lock()
 	defer c.muxSend.Unlock()
 	conn := c.Conn
+	if timeout := c.Handler.WriteTimeout(); timeout > 0 {
+		conn.SetWriteDeadline(time.Now().Add(timeout))
+	}
 	_, err := conn.Write(buf)
 	if err != nil {
 		conn.Close()
-- 
2.43.0


From 567962aa57aef9b50f4a88b79f13e195827774e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:26 +0000
Subject: [PATCH 26/51] fix: a closed websocket Listener closes the connections
 nobody accepted

---
 extension/protocol/websocket/websocket.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/extension/protocol/websocket/websocket.go b/extension/protocol/websocket/websocket.go
index 31a9ee4..469cfdf 100644
--- a/extension/protocol/websocket/websocket.go
+++ b/extension/protocol/websocket/websocket.go
@@ -43,15 +43,31 @@ func (ln *Listener) Handler(w http.ResponseWriter, r *http.Request) {
 	wsc := &Conn{Conn: c, chHandler: make(chan func(), 1)}
 	select {
 	case ln.chAccept <- wsc:
+		if atomic.LoadUint32(&ln.closed) == 1 {
+			ln.closeQueued()
+		}
 	case <-ln.chClose:
 		c.Close()
 	}
 }
 
+// closeQueued closes the connections that nobody is going to accept any more.
+func (ln *Listener) closeQueued() {
+	for {
+		select {
+		case c := <-ln.chAccept:
+			c.Close()
+		default:
+			return
+		}
+	}
+}
+
 // Close .
 func (ln *Listener) Close() error {
 	if atomic.CompareAndSwapUint32(&ln.closed, 0, 1) {
 		close(ln.chClose)
+		ln.closeQueued()
 	}
 	return nil
 }
-- 
2.43.0


From cb8b6718087b7c8b13152456ba772bbfddb07357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:10 +0000
Subject: [PATCH 27/51] fix: a stream message read by a stopped Client is not a
 new stream

getStreamAndPushMsg did not look at the Client's streams once it was stopped, so
a message that its reader still had was taken for the first one of a new stream
and the stream handler was called a second time, with the rest of the stream.
---
 client.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/client.go b/client.go
index 179ffc1..3e72b02 100644
--- a/client.go
+++ b/client.go
@@ -788,18 +788,17 @@ func (c *Client) deleteStream(id uint64, local bool) {
 }
 
 func (c *Client) getStreamAndPushMsg(id uint64, local, done bool) (stream *Stream, ok bool) {
+	// a stopped Client's reader may still have messages, they are no new streams
 	c.mux.Lock()
-	if c.running {
-		var streamMap map[uint64]*Stream
-		if local {
-			streamMap = c.streamLocalMap
-		} else {
-			streamMap = c.streamRemoteMap
-		}
-		stream, ok = streamMap[id]
-		if ok && done {
-			delete(streamMap, id)
-		}
+	var streamMap map[uint64]*Stream
+	if local {
+		streamMap = c.streamLocalMap
+	} else {
+		streamMap = c.streamRemoteMap
+	}
+	stream, ok = streamMap[id]
+	if ok && done {
+		delete(streamMap, id)
 	}
 	c.mux.Unlock()
 	return stream, ok
-- 
2.43.0


From 50fc3c5595b8fae8855dba075c9806a279ef6add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:09 +0000
Subject: [PATCH 28/51] fix: Appender does not flag a message to which it
 appends nothing

A value that could not be encoded (for the tracer, any SpanContext that is not a
basictracer one) left the flag set without appended data, so the peer cut the
end of the body or dropped the message.
---
 extension/middleware/coder/appender.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/extension/middleware/coder/appender.go b/extension/middleware/coder/appender.go
index 5f94bc1..cd685eb 100644
--- a/extension/middleware/coder/appender.go
+++ b/extension/middleware/coder/appender.go
@@ -23,13 +23,13 @@ func (ap *Appender) Encode(client *arpc.Client, msg *arpc.Message) *arpc.Message
 	if !ok {
 		return msg
 	}
-	if err := msg.SetFlagBit(ap.FlagBitIndex, true); err != nil {
-		return msg
-	}
 	valueData, err := ap.valueToBytes(value)
 	if err != nil {
 		return msg
 	}
+	if err := msg.SetFlagBit(ap.FlagBitIndex, true); err != nil {
+		return msg
+	}
 	msg.Buffer = append(msg.Buffer, make([]byte, len(key)+len(valueData)+2)...)
 	appendData := msg.Buffer[len(msg.Buffer)-len(key)-len(valueData)-2:]
 	copy(appendData, key)
-- 
2.43.0


From d6b180b31674c081e84df55cc37e47cd077094f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:36 +0000
Subject: [PATCH 29/51] fix: Appender leaves out values that its 16-bit length
 cannot describe

The length was truncated and written into the value, the peer then cut the
message at a random place or dropped it.
---
 extension/middleware/coder/appender.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extension/middleware/coder/appender.go b/extension/middleware/coder/appender.go
index cd685eb..5c3b341 100644
--- a/extension/middleware/coder/appender.go
+++ b/extension/middleware/coder/appender.go
@@ -1,6 +1,8 @@
 package coder
 
 import (
+	"math"
+
 	"github.com/lesismal/arpc"
 	"github.com/lesismal/arpc/util"
 )
@@ -24,7 +26,7 @@ func (ap *Appender) Encode(client *arpc.Client, msg *arpc.Message) *arpc.Message
 		return msg
 	}
 	valueData, err := ap.valueToBytes(value)
-	if err != nil {
+	if err != nil || len(key)+len(valueData)+2 > math.MaxUint16 {
 		return msg
 	}
 	if err := msg.SetFlagBit(ap.FlagBitIndex, true); err != nil {
-- 
2.43.0


From 1dfb54baa4a18da29a616f5fbf44ea9be356b59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:41 +0000
Subject: [PATCH 30/51] fix: ResponseError tells the responded error with
 synchronous writing too

---
 context.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/context.go b/context.go
index 0ff11ed..a835294 100644
--- a/context.go
+++ b/context.go
@@ -175,6 +175,9 @@ func (ctx *Context) writeDirectly(v interface{}, isError bool) error {
 	if _, ok := v.(error); ok {
 		isError = true
 	}
+	if isError {
+		ctx.responseErr = v
+	}
 	rsp := newMessage(CmdResponse, req.method(), v, isError, req.IsAsync(), req.Seq(), cli.Handler, cli.Codec, ctx.Message.values)
 	if !cli.reconnecting {
 		coders := cli.Handler.Coders()
-- 
2.43.0


From b2c39a267f1282421f7195ed4fce90d3ad379c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:15 +0000
Subject: [PATCH 31/51] fix: NewMessage sets the error and async flags it is
 given

---
 handler.go | 2 +-
 proto.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/handler.go b/handler.go
index 2e021d3..bf6a673 100644
--- a/handler.go
+++ b/handler.go
@@ -893,7 +893,7 @@ func (h *handler) Cancel() {
 }
 
 func (h *handler) NewMessage(cmd byte, method string, v interface{}, isError bool, isAsync bool, seq uint64, codec codec.Codec, values map[interface{}]interface{}) *Message {
-	return newMessage(cmd, method, v, false, false, seq, h, codec, values)
+	return newMessage(cmd, method, v, isError, isAsync, seq, h, codec, values)
 }
 
 func (h *handler) NewMessageWithBuffer(buffer []byte) *Message {
diff --git a/proto.go b/proto.go
index 2df77c3..c5ebac1 100644
--- a/proto.go
+++ b/proto.go
@@ -362,7 +362,7 @@ func (m *Message) Set(key interface{}, value interface{}) {
 
 // NewMessage creates a Message.
 func NewMessage(cmd byte, method string, v interface{}, isError bool, isAsync bool, seq uint64, h Handler, codec codec.Codec, values map[interface{}]interface{}) *Message {
-	return newMessage(cmd, method, v, false, false, seq, h, codec, values)
+	return newMessage(cmd, method, v, isError, isAsync, seq, h, codec, values)
 }
 
 // newMessage creates a Message.
-- 
2.43.0


From 7ae4a7f2d9da0f306a226ba5f78cb2744c1b8c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:38 +0000
Subject: [PATCH 32/51] fix: redis discovery keeps its services when a poll
 fails

A failed HGETALL was taken for an empty registry: every service was
deleted, and NewDiscovery never returned the error it checks for.
---
 extension/micro/redis/discovery.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extension/micro/redis/discovery.go b/extension/micro/redis/discovery.go
index 7520020..d2328e8 100644
--- a/extension/micro/redis/discovery.go
+++ b/extension/micro/redis/discovery.go
@@ -31,6 +31,7 @@ func (ds *Discovery) updateServices() error {
 	err := ret.Err()
 	if err != nil {
 		log.Error("Discovery updateServices failed: %v", err)
+		return err
 	}
 
 	cache := map[string]struct{}{}
@@ -128,6 +129,7 @@ func NewDiscovery(addr string, serviceNamespace string, interval time.Duration,
 
 	err := ds.updateServices()
 	if err != nil {
+		client.Close()
 		return nil, err
 	}
 	go util.Safe(ds.update)
-- 
2.43.0


From 680b54a18a256cb7d6c14c3da2b66661107f1111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:38 +0000
Subject: [PATCH 33/51] fix: redis discovery does not expire services while it
 adds others

AddServiceNodes dials and may take long; entries read before were then
taken for expired, and live services were deleted from the registry.
---
 extension/micro/redis/discovery.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extension/micro/redis/discovery.go b/extension/micro/redis/discovery.go
index d2328e8..9d50eb2 100644
--- a/extension/micro/redis/discovery.go
+++ b/extension/micro/redis/discovery.go
@@ -34,6 +34,8 @@ func (ds *Discovery) updateServices() error {
 		return err
 	}
 
+	// adding a service may take long, what was read does not expire meanwhile
+	now := time.Now().Unix()
 	cache := map[string]struct{}{}
 	services := ret.Val()
 	if services != nil {
@@ -52,7 +54,7 @@ func (ds *Discovery) updateServices() error {
 					if err != nil {
 						deleteService = true
 					} else {
-						if time.Now().Unix() > expire {
+						if now > expire {
 							deleteService = true
 						} else {
 							path := fmt.Sprintf("%v/%v/%v", ds.serviceNamespace, serviceName, serviceAddr)
-- 
2.43.0


From f25559201ce458093d58e068fa1a2f6b18f4c54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:38 +0000
Subject: [PATCH 34/51] fix: redis Discovery.Stop closes its client and can be
 called twice

---
 extension/micro/redis/discovery.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/extension/micro/redis/discovery.go b/extension/micro/redis/discovery.go
index 9d50eb2..bf1a98e 100644
--- a/extension/micro/redis/discovery.go
+++ b/extension/micro/redis/discovery.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/go-redis/redis/v8"
@@ -23,7 +24,8 @@ type Discovery struct {
 
 	serviceCache map[string]struct{}
 
-	done chan struct{}
+	done     chan struct{}
+	stopOnce sync.Once
 }
 
 func (ds *Discovery) updateServices() error {
@@ -110,8 +112,12 @@ func (ds *Discovery) update() {
 
 // Stop .
 func (ds *Discovery) Stop() error {
-	close(ds.done)
-	return nil
+	var err error
+	ds.stopOnce.Do(func() {
+		close(ds.done)
+		err = ds.client.Close()
+	})
+	return err
 }
 
 // NewDiscovery .
-- 
2.43.0


From f9a6af6a8bf0c293ddc60b635fd7af0fb9971dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:38 +0000
Subject: [PATCH 35/51] fix: redis Register.Stop ends its keepalive and closes
 its client

The keepalive went on after Stop and registered the service again,
for as long as the process lived.
---
 extension/micro/redis/register.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/extension/micro/redis/register.go b/extension/micro/redis/register.go
index e2d97bc..c062187 100644
--- a/extension/micro/redis/register.go
+++ b/extension/micro/redis/register.go
@@ -3,6 +3,7 @@ package redis
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	redis "github.com/go-redis/redis/v8"
@@ -18,6 +19,8 @@ type Register struct {
 	weight           int
 	field            string
 	done             chan struct{}
+	stopOnce         sync.Once
+	stopped          chan struct{}
 	interval         time.Duration
 	expire           time.Duration
 	client           *redis.Client
@@ -25,6 +28,8 @@ type Register struct {
 
 // Stop .
 func (s *Register) keepalive() {
+	defer close(s.stopped)
+
 	ticker := time.NewTicker(s.interval)
 	defer ticker.Stop()
 
@@ -40,13 +45,17 @@ func (s *Register) keepalive() {
 
 // Stop .
 func (s *Register) Stop() error {
+	// the keepalive would add the service again
+	s.stopOnce.Do(func() { close(s.done) })
+	<-s.stopped
+
 	ret := s.client.HDel(context.Background(), s.serviceNamespace, s.field)
 	err := ret.Err()
 	if err != nil {
 		log.Error("Register Stop failed: %v", err)
 		return err
 	}
-	return nil
+	return s.client.Close()
 }
 
 // NewRegister .
@@ -82,6 +91,7 @@ func NewRegister(addr, serviceNamespace, serviceName, serviceAddr string, weight
 		interval:         interval,
 		expire:           expire,
 		done:             make(chan struct{}),
+		stopped:          make(chan struct{}),
 		client:           client,
 	}
 
-- 
2.43.0


From ef1fb66f57b5a72ad169b4ab6e79e5c148d57858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:38 +0000
Subject: [PATCH 36/51] fix: redis NewRegister renews an entry that a former
 process left

With HSETNX the entry kept its old expiry until the first keepalive, so
a service that was restarted could expire while running. The client is
closed when registering fails.
---
 extension/micro/redis/register.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extension/micro/redis/register.go b/extension/micro/redis/register.go
index c062187..d899b69 100644
--- a/extension/micro/redis/register.go
+++ b/extension/micro/redis/register.go
@@ -75,10 +75,11 @@ func NewRegister(addr, serviceNamespace, serviceName, serviceAddr string, weight
 	})
 
 	field := fmt.Sprintf("%v/%v/%v", serviceName, serviceAddr, weight)
-	ret := client.HSetNX(context.Background(), serviceNamespace, field, time.Now().Add(expire).Unix())
+	ret := client.HSet(context.Background(), serviceNamespace, field, time.Now().Add(expire).Unix())
 	err := ret.Err()
 	if err != nil {
-		log.Error("NewRegister [%v, %v] client.HSetNX failed: %v", serviceNamespace, fmt.Sprintf("%v/%v", serviceName, serviceAddr), err)
+		log.Error("NewRegister [%v, %v] client.HSet failed: %v", serviceNamespace, fmt.Sprintf("%v/%v", serviceName, serviceAddr), err)
+		client.Close()
 		return nil, err
 	}
 
-- 
2.43.0


From 34382a1aa683351469cc2d66564c6f29cc05f937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:38 +0000
Subject: [PATCH 37/51] fix: etcd NewRegister returns an error when the key
 exists

It returned neither a register nor an error.
---
 extension/micro/etcd/register.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/extension/micro/etcd/register.go b/extension/micro/etcd/register.go
index 5f08d49..5d8eb6b 100644
--- a/extension/micro/etcd/register.go
+++ b/extension/micro/etcd/register.go
@@ -2,6 +2,7 @@ package etcd
 
 import (
 	"context"
+	"errors"
 	"time"
 
 	"github.com/lesismal/arpc/log"
@@ -13,6 +14,9 @@ import (
 // RegisterMutexPrefix .
 const RegisterMutexPrefix = "_arpc_micro_reg_mux_pfx"
 
+// ErrAlreadyExists is returned when the key was registered before and still is.
+var ErrAlreadyExists = errors.New("service already exists")
+
 //Register .
 type Register struct {
 	key         string
@@ -81,7 +85,7 @@ func NewRegister(endpoints []string, key string, value string, ttl int64) (*Regi
 	}
 	if len(resGet.Kvs) > 0 {
 		log.Error("NewRegister [%v, %v] failed: already exists", key, value)
-		return nil, err
+		return nil, ErrAlreadyExists
 	}
 
 	// step 3: set kv
-- 
2.43.0


From 9bb63d4f480913ec74d32f0c8de9b4027b590f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:38 +0000
Subject: [PATCH 38/51] fix: etcd NewRegister ends its session, and its client
 when it fails

The session was kept alive for as long as the process lived: when the
unlock failed, or with the client left behind by a failed registration,
the lock was never released and nobody could register any more.
---
 extension/micro/etcd/register.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/extension/micro/etcd/register.go b/extension/micro/etcd/register.go
index 5d8eb6b..c206bb3 100644
--- a/extension/micro/etcd/register.go
+++ b/extension/micro/etcd/register.go
@@ -46,7 +46,7 @@ func (s *Register) Stop() error {
 }
 
 // NewRegister .
-func NewRegister(endpoints []string, key string, value string, ttl int64) (*Register, error) {
+func NewRegister(endpoints []string, key string, value string, ttl int64) (register *Register, err error) {
 	// step 1: new client
 	client, err := clientv3.New(clientv3.Config{
 		Endpoints:   endpoints,
@@ -56,12 +56,19 @@ func NewRegister(endpoints []string, key string, value string, ttl int64) (*Regi
 		log.Error("NewRegister [%v, %v] clientv3.New failed: %v", key, value, err)
 		return nil, err
 	}
+	defer func() {
+		if register == nil {
+			client.Close()
+		}
+	}()
 
 	session, err := concurrency.NewSession(client)
 	if err != nil {
 		log.Error("NewRegister [%v, %v] concurrency.NewSession failed: %v", key, value, err)
 		return nil, err
 	}
+	// ends the session's lease, and with it the lock even if Unlock fails
+	defer session.Close()
 
 	mux := concurrency.NewMutex(session, RegisterMutexPrefix)
 	err = mux.Lock(context.TODO())
@@ -102,7 +109,7 @@ func NewRegister(endpoints []string, key string, value string, ttl int64) (*Regi
 		return nil, err
 	}
 
-	register := &Register{
+	register = &Register{
 		key:         key,
 		value:       value,
 		client:      client,
-- 
2.43.0


From 8fc834306a91ac0e6c8511e295862ae15de58f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:38 +0000
Subject: [PATCH 39/51] fix: etcd discovery reads the services and then watches
 from there

The read and the watch ran at once, so a service deleted in between was
reported deleted before it was reported added, and stayed. When the read
failed NewDiscovery succeeded and never reported what was registered.
---
 extension/micro/etcd/discovery.go | 33 ++++++++++++-------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/extension/micro/etcd/discovery.go b/extension/micro/etcd/discovery.go
index 12349d9..35e5f27 100644
--- a/extension/micro/etcd/discovery.go
+++ b/extension/micro/etcd/discovery.go
@@ -17,22 +17,11 @@ type Discovery struct {
 	serviceManager micro.ServiceManager
 }
 
-func (ds *Discovery) init(done chan struct{}) {
-	doneWatch := make(chan struct{})
-	go util.Safe(func() {
-		ds.lazyInit(done, doneWatch)
-	})
-	ds.watch(doneWatch)
-}
-
-func (ds *Discovery) lazyInit(done, doneWatch chan struct{}) {
-	defer close(done)
-
-	<-doneWatch
-	time.Sleep(time.Second / 100)
+// init reports the services that are registered and returns the revision to watch from.
+func (ds *Discovery) init() (int64, error) {
 	resp, err := ds.client.Get(context.Background(), ds.prefix, clientv3.WithPrefix())
 	if err != nil {
-		return
+		return 0, err
 	}
 
 	for _, ev := range resp.Kvs {
@@ -40,11 +29,11 @@ func (ds *Discovery) lazyInit(done, doneWatch chan struct{}) {
 			ds.serviceManager.AddServiceNodes(string(ev.Key), string(ev.Value))
 		}
 	}
+	return resp.Header.Revision + 1, nil
 }
 
-func (ds *Discovery) watch(doneWatch chan struct{}) {
-	rch := ds.client.Watch(context.Background(), ds.prefix, clientv3.WithPrefix())
-	close(doneWatch)
+func (ds *Discovery) watch(rev int64) {
+	rch := ds.client.Watch(context.Background(), ds.prefix, clientv3.WithPrefix(), clientv3.WithRev(rev))
 	log.Info("Discovery watching: %s", ds.prefix)
 	for wresp := range rch {
 		for _, ev := range wresp.Events {
@@ -84,11 +73,15 @@ func NewDiscovery(endpoints []string, prefix string, serviceManager micro.Servic
 		serviceManager: serviceManager,
 	}
 
-	done := make(chan struct{})
+	rev, err := ds.init()
+	if err != nil {
+		log.Error("NewDiscovery [%v] client.Get failed: %v", prefix, err)
+		client.Close()
+		return nil, err
+	}
 	go util.Safe(func() {
-		ds.init(done)
+		ds.watch(rev)
 	})
-	<-done
 
 	log.Info("NewDiscovery [%v] success", prefix)
 
-- 
2.43.0


From 4f4260f81efd59089ea3a6612613a58ac879384d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:31 +0000
Subject: [PATCH 40/51] fix: quic Listener: a peer that opens no stream blocked
 or ended the accept loop

---
 extension/protocol/quic/quic.go | 49 ++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/extension/protocol/quic/quic.go b/extension/protocol/quic/quic.go
index ceb19e1..aac6585 100644
--- a/extension/protocol/quic/quic.go
+++ b/extension/protocol/quic/quic.go
@@ -8,6 +8,7 @@ import (
 	"context"
 	"crypto/tls"
 	"net"
+	"sync"
 	"time"
 
 	quic "github.com/quic-go/quic-go"
@@ -16,21 +17,55 @@ import (
 // Listener wraps quick.Listener to net.Listener
 type Listener struct {
 	*quic.Listener
+
+	once     sync.Once
+	ctx      context.Context
+	cancel   func()
+	chAccept chan net.Conn
+	err      error
 }
 
 // Accept waits for and returns the next connection to the listener.
 func (ln *Listener) Accept() (net.Conn, error) {
-	conn, err := ln.Listener.Accept(context.Background())
-	if err != nil {
-		return nil, err
+	ln.once.Do(func() {
+		ln.ctx, ln.cancel = context.WithCancel(context.Background())
+		ln.chAccept = make(chan net.Conn)
+		go ln.acceptLoop()
+	})
+
+	select {
+	case conn := <-ln.chAccept:
+		return conn, nil
+	case <-ln.ctx.Done():
+		return nil, ln.err
+	}
+}
+
+func (ln *Listener) acceptLoop() {
+	for {
+		conn, err := ln.Listener.Accept(context.Background())
+		if err != nil {
+			ln.err = err
+			ln.cancel()
+			return
+		}
+		// a peer may open its stream late or never, others do not wait for it
+		go ln.acceptStream(conn)
 	}
+}
 
-	stream, err := conn.AcceptStream(context.Background())
+func (ln *Listener) acceptStream(conn quic.Connection) {
+	stream, err := conn.AcceptStream(ln.ctx)
 	if err != nil {
-		return nil, err
+		conn.CloseWithError(0, "")
+		return
 	}
 
-	return &Conn{conn, stream}, err
+	select {
+	case ln.chAccept <- &Conn{conn, stream}:
+	case <-ln.ctx.Done():
+		conn.CloseWithError(0, "")
+	}
 }
 
 // Conn wraps quick.Session to net.Conn
@@ -45,7 +80,7 @@ func Listen(addr string, config *tls.Config) (net.Listener, error) {
 	if err != nil {
 		return nil, err
 	}
-	return &Listener{ln}, err
+	return &Listener{Listener: ln}, err
 }
 
 // Dial wraps quic dial
-- 
2.43.0


From 8b8824642d8cfe5960c9373d3e6fbe0852f916c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:31 +0000
Subject: [PATCH 41/51] fix: quic Dial: a connection whose stream could not be
 opened was left open

---
 extension/protocol/quic/quic.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extension/protocol/quic/quic.go b/extension/protocol/quic/quic.go
index aac6585..f4405ca 100644
--- a/extension/protocol/quic/quic.go
+++ b/extension/protocol/quic/quic.go
@@ -101,6 +101,7 @@ func Dial(addr string, tlsConf *tls.Config, quicConf *quic.Config, timeout time.
 
 	stream, err := session.OpenStreamSync(ctx)
 	if err != nil {
+		session.CloseWithError(0, "")
 		return nil, err
 	}
 
-- 
2.43.0


From 0a1b9d00b6ababcfbfe26128f8f7f20121c966b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:57 +0000
Subject: [PATCH 42/51] fix: quic Conn: Close left a blocked Read and the
 connection behind

---
 extension/protocol/quic/quic.go | 38 +++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/extension/protocol/quic/quic.go b/extension/protocol/quic/quic.go
index f4405ca..c7048f9 100644
--- a/extension/protocol/quic/quic.go
+++ b/extension/protocol/quic/quic.go
@@ -7,13 +7,19 @@ package quic
 import (
 	"context"
 	"crypto/tls"
+	"errors"
 	"net"
+	"os"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	quic "github.com/quic-go/quic-go"
 )
 
+// closeTimeout is how long a closed Conn waits for its peer to close, too.
+const closeTimeout = time.Second * 10
+
 // Listener wraps quick.Listener to net.Listener
 type Listener struct {
 	*quic.Listener
@@ -62,7 +68,7 @@ func (ln *Listener) acceptStream(conn quic.Connection) {
 	}
 
 	select {
-	case ln.chAccept <- &Conn{conn, stream}:
+	case ln.chAccept <- &Conn{Connection: conn, Stream: stream}:
 	case <-ln.ctx.Done():
 		conn.CloseWithError(0, "")
 	}
@@ -72,6 +78,34 @@ func (ln *Listener) acceptStream(conn quic.Connection) {
 type Conn struct {
 	quic.Connection
 	quic.Stream
+
+	readEnded uint32
+	closeOnce sync.Once
+}
+
+// Read .
+func (c *Conn) Read(b []byte) (int, error) {
+	n, err := c.Stream.Read(b)
+	if err != nil && !errors.Is(err, os.ErrDeadlineExceeded) {
+		atomic.StoreUint32(&c.readEnded, 1)
+	}
+	return n, err
+}
+
+// Close ends reading and writing. The connection is closed by the side that
+// has read everything; the other side, whose peer may still have to read,
+// only waits for that.
+func (c *Conn) Close() error {
+	err := c.Stream.Close()
+	c.closeOnce.Do(func() {
+		if atomic.LoadUint32(&c.readEnded) == 1 {
+			c.Connection.CloseWithError(0, "")
+			return
+		}
+		c.Stream.CancelRead(0)
+		time.AfterFunc(closeTimeout, func() { c.Connection.CloseWithError(0, "") })
+	})
+	return err
 }
 
 // Listen wraps quic listen
@@ -105,5 +139,5 @@ func Dial(addr string, tlsConf *tls.Config, quicConf *quic.Config, timeout time.
 		return nil, err
 	}
 
-	return &Conn{session, stream}, err
+	return &Conn{Connection: session, Stream: stream}, err
 }
-- 
2.43.0


From 92388811570b28a80d3df406b3aca228dd199c55 Mon Sep 17 00:00:00 2001
From: verif <x@y>
Date: Wed, 18 Nov 2026 05:10:37 +0000
Subject: [PATCH 43/51] fix: jsclient: a call never timed out

---
 extension/jsclient/arpc.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index 46b28c0..3787ff9 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -103,7 +103,8 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
         if (typeof (cb) == 'function') {
             session.resolve = cb;
         }
-        this.sessionMap[this.seqNum] = session;
+        var seq = this.seqNum;
+        this.sessionMap[seq] = session;
 
         if (timeout > 0) {
             session.timer = setTimeout(function () {
-- 
2.43.0


From d70c0bd0eeae6740c7ab14c222cf432f4d5c9751 Mon Sep 17 00:00:00 2001
From: verif <x@y>
Date: Wed, 18 Nov 2026 05:10:37 +0000
Subject: [PATCH 44/51] fix: jsclient: a response to a sequence number above
 255 was not recognised

---
 extension/jsclient/arpc.js | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index 3787ff9..48734c0 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -176,7 +176,7 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
         for (var i = _HeaderIndexSeqBegin; i < _HeaderIndexSeqBegin + 4; i++) {
             buffer[i] = (this.seqNum >> ((i - _HeaderIndexSeqBegin) * 8)) & 0xFF;
         }
-        this.seqNum++;
+        this.seqNum = (this.seqNum + 1) >>> 0;
         var methodBuffer = new TextEncoder("utf-8").encode(method);
         for (var i = 0; i < methodBuffer.length; i++) {
             buffer[16 + i] = methodBuffer[i];
@@ -243,9 +243,10 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                     bodyArr = event.data.slice(offset + 16 + methodLen, offset + 16 + methodLen + bodyLen);
                 }
                 var seq = 0;
-                for (var i = offset + _HeaderIndexSeqBegin; i < offset + _HeaderIndexSeqBegin + 4; i++) {
-                    seq |= headArr[i] << (i - offset - _HeaderIndexSeqBegin);
+                for (var i = _HeaderIndexSeqBegin; i < _HeaderIndexSeqBegin + 4; i++) {
+                    seq |= headArr[i] << ((i - _HeaderIndexSeqBegin) * 8);
                 }
+                seq = seq >>> 0;
 
                 switch (cmd) {
                     case _CmdPing:
-- 
2.43.0


From a7e18a206c590598f1eadfeeca1be7b132ce5f67 Mon Sep 17 00:00:00 2001
From: verif <x@y>
Date: Wed, 18 Nov 2026 05:10:37 +0000
Subject: [PATCH 45/51] fix: jsclient: of several messages received at once,
 the data of one held the next, and some were lost

---
 extension/jsclient/arpc.js | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index 48734c0..c463321 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -238,10 +238,11 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                 var isAsync = headArr[_HeaderIndexFlag] & _HeaderFlagMaskAsync;
                 var methodLen = headArr[_HeaderIndexMethodLen];
                 var method = new TextDecoder("utf-8").decode(event.data.slice(offset + 16, offset + 16 + methodLen));
-                var bodyArr;
+                var bodyArr = undefined;
                 if (bodyLen > methodLen) {
-                    bodyArr = event.data.slice(offset + 16 + methodLen, offset + 16 + methodLen + bodyLen);
+                    bodyArr = event.data.slice(offset + 16 + methodLen, offset + 16 + bodyLen);
                 }
+                offset += 16 + bodyLen;
                 var seq = 0;
                 for (var i = _HeaderIndexSeqBegin; i < _HeaderIndexSeqBegin + 4; i++) {
                     seq |= headArr[i] << ((i - _HeaderIndexSeqBegin) * 8);
@@ -251,14 +252,14 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                 switch (cmd) {
                     case _CmdPing:
                         client.pong();
-                        return;
+                        continue;
                     case _CmdPong:
-                        return;
+                        continue;
                 }
 
                 if (methodLen == 0) {
                     console.log("[ArpcClient] onMessage: invalid request message with 0 method length, dropped");
-                    return
+                    continue;
                 }
 
                 switch (cmd) {
@@ -270,7 +271,6 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                             handler.h(new Context(client, headArr, bodyArr, method, data));
                         } else {
                             console.log("[ArpcClient] onMessage: invalid method: [%s], no handler", method);
-                            return
                         }
                         break;
                     case _CmdResponse:
@@ -283,18 +283,16 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                             var data = client.codec.Unmarshal(bodyArr);
                             if (isError) {
                                 session.resolve({ data: null, err: data });
-                                return;
+                            } else {
+                                session.resolve({ data: data, err: null });
                             }
-                            session.resolve({ data: data, err: null });
                         } else {
                             console.log("[ArpcClient] onMessage: session [%d] missing", seq);
-                            return;
                         }
                         break;
                     default:
                         break;
                 }
-                offset += 16 + bodyLen;
             }
         } catch (e) {
             console.log("[ArpcClient] onMessage: panic:", e);
-- 
2.43.0


From 44678218e61bac67049016f74a8baf4bfe9360b2 Mon Sep 17 00:00:00 2001
From: verif <x@y>
Date: Wed, 18 Nov 2026 05:10:37 +0000
Subject: [PATCH 46/51] fix: jsclient: a handler or callback that throws took
 others with it

---
 extension/jsclient/arpc.js | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index c463321..56a3397 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -69,6 +69,15 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
 
     this.state = _SOCK_STATE_CONNECTING;
 
+    // an exception of the application must not keep the client from going on
+    this._safe = function (f) {
+        try {
+            f();
+        } catch (e) {
+            console.log("[ArpcClient] panic:", e);
+        }
+    }
+
     this.handle = function (method, h) {
         if (this.handlers[method]) {
             throw ("handler for [${method}] exists");
@@ -268,7 +277,9 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                         var handler = client.handlers[method]
                         if (handler) {
                             var data = client.codec.Unmarshal(bodyArr);
-                            handler.h(new Context(client, headArr, bodyArr, method, data));
+                            client._safe(function () {
+                                handler.h(new Context(client, headArr, bodyArr, method, data));
+                            });
                         } else {
                             console.log("[ArpcClient] onMessage: invalid method: [%s], no handler", method);
                         }
@@ -281,11 +292,10 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                             }
                             delete (client.sessionMap[seq]);
                             var data = client.codec.Unmarshal(bodyArr);
-                            if (isError) {
-                                session.resolve({ data: null, err: data });
-                            } else {
-                                session.resolve({ data: data, err: null });
-                            }
+                            var ret = isError ? { data: null, err: data } : { data: data, err: null };
+                            client._safe(function () {
+                                session.resolve(ret);
+                            });
                         } else {
                             console.log("[ArpcClient] onMessage: session [%d] missing", seq);
                         }
@@ -323,20 +333,24 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
         };
         client.ws.onclose = function (event) {
             console.log("[ArpcClient] websocket onclose");
-            if (client.onClose) {
-                client.onClose(client);
-            }
+            client._safe(function () {
+                if (client.onClose) {
+                    client.onClose(client);
+                }
+            });
             client.ws.close();
 
-            for (var k in client.sessionMap) {
+            Object.keys(client.sessionMap).forEach(function (k) {
                 var session = client.sessionMap[k];
                 if (session) {
                     if (session.timer) {
                         clearTimeout(session.timer);
                     }
-                    session.resolve({ data: null, err: _ErrDisconnected });
+                    client._safe(function () {
+                        session.resolve({ data: null, err: _ErrDisconnected });
+                    });
                 }
-            }
+            });
             // shutdown
             if (client.state == _SOCK_STATE_CLOSED) {
                 return;
-- 
2.43.0


From e44a61ffb350db869899a64300a1faed60bfec42 Mon Sep 17 00:00:00 2001
From: verif <x@y>
Date: Wed, 18 Nov 2026 05:10:37 +0000
Subject: [PATCH 47/51] fix: jsclient: calls failed by a lost connection were
 kept and failed again, calls made in the callbacks were lost

---
 extension/jsclient/arpc.js | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index 56a3397..e3f23d7 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -333,6 +333,12 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
         };
         client.ws.onclose = function (event) {
             console.log("[ArpcClient] websocket onclose");
+            // until the next onopen there is no connection, also for what the callbacks do
+            if (client.state != _SOCK_STATE_CLOSED) {
+                client.state = _SOCK_STATE_CONNECTING;
+            }
+            var sessions = client.sessionMap;
+            client.sessionMap = {};
             client._safe(function () {
                 if (client.onClose) {
                     client.onClose(client);
@@ -340,8 +346,8 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
             });
             client.ws.close();
 
-            Object.keys(client.sessionMap).forEach(function (k) {
-                var session = client.sessionMap[k];
+            Object.keys(sessions).forEach(function (k) {
+                var session = sessions[k];
                 if (session) {
                     if (session.timer) {
                         clearTimeout(session.timer);
@@ -355,7 +361,6 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
             if (client.state == _SOCK_STATE_CLOSED) {
                 return;
             }
-            client.state = _SOCK_STATE_CONNECTING;
             client.init();
         };
         client.ws.onerror = function (event) {
-- 
2.43.0


From 2dd1cb06a68d235f8bdd4d913590b168618ef153 Mon Sep 17 00:00:00 2001
From: verif <x@y>
Date: Wed, 18 Nov 2026 05:10:37 +0000
Subject: [PATCH 48/51] fix: jsclient: methods with other than ASCII characters
 overwrote the data, 0 and false were sent as nothing

---
 extension/jsclient/arpc.js | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index e3f23d7..0bb1b7e 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -164,16 +164,17 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
 
     this.write = function (cmd, method, arg, cb, isHttp) {
         var buffer;
-        if (arg) {
+        var methodBuffer = new TextEncoder("utf-8").encode(method);
+        if (arg !== undefined && arg !== null) {
             var data = this.codec.Marshal(arg);
             if (data) {
-                buffer = new Uint8Array(16 + method.length + data.length);
+                buffer = new Uint8Array(16 + methodBuffer.length + data.length);
                 for (var i = 0; i < data.length; i++) {
-                    buffer[16 + method.length + i] = data[i];
+                    buffer[16 + methodBuffer.length + i] = data[i];
                 }
             }
         } else {
-            buffer = new Uint8Array(16 + method.length);
+            buffer = new Uint8Array(16 + methodBuffer.length);
         }
 
         var bodyLen = buffer.length - 16;
@@ -181,12 +182,11 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
             buffer[i] = (bodyLen >> ((i - _HeaderIndexBodyLenBegin) * 8)) & 0xFF;
         }
         buffer[_HeaderIndexCmd] = cmd & 0xFF;
-        buffer[_HeaderIndexMethodLen] = method.length & 0xFF;
+        buffer[_HeaderIndexMethodLen] = methodBuffer.length & 0xFF;
         for (var i = _HeaderIndexSeqBegin; i < _HeaderIndexSeqBegin + 4; i++) {
             buffer[i] = (this.seqNum >> ((i - _HeaderIndexSeqBegin) * 8)) & 0xFF;
         }
         this.seqNum = (this.seqNum + 1) >>> 0;
-        var methodBuffer = new TextEncoder("utf-8").encode(method);
         for (var i = 0; i < methodBuffer.length; i++) {
             buffer[16 + i] = methodBuffer[i];
         }
-- 
2.43.0


From fe5c469770403c0c71d0b2fba9299d678420a26a Mon Sep 17 00:00:00 2001
From: verif <x@y>
Date: Wed, 18 Nov 2026 05:10:37 +0000
Subject: [PATCH 49/51] fix: jsclient: calls over HTTP went nowhere and never
 ended

---
 extension/jsclient/arpc.js | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index 0bb1b7e..facd809 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -86,7 +86,7 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
     }
 
     this.callHttp = function (method, request, timeout, cb) {
-        this.call(method, request, timeout, cb, true);
+        return this.call(method, request, timeout, cb, true);
     }
     this.call = function (method, request, timeout, cb, isHttp) {
         if (this.state == _SOCK_STATE_CLOSED) {
@@ -121,12 +121,22 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                 session.resolve({ data: null, err: "timeout" });
             }, timeout);
         }
-        this.write(_CmdRequest, method, request, this._onMessage, isHttp);
+        this.write(_CmdRequest, method, request, function (ret) {
+            if (!ret.err) {
+                client._onMessage(ret);
+            } else if (client.sessionMap[seq] === session) {
+                delete (client.sessionMap[seq]);
+                if (session.timer) {
+                    clearTimeout(session.timer);
+                }
+                session.resolve({ data: null, err: ret.err });
+            }
+        }, isHttp);
         return p;
     }
 
     this.notifyHttp = function (method, notify) {
-        this.notify(method, notify, true);
+        return this.notify(method, notify, true);
     }
     this.notify = function (method, notify, isHttp) {
         if (this.state == _SOCK_STATE_CLOSED) {
@@ -216,13 +226,14 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                 }
             }
             let r = new XMLHttpRequest();
-            r.open(this.httpMethod, this.httpUrl, true);
+            r.open(client.httpMethod, client.httpUrl, true);
+            r.responseType = 'arraybuffer';
             r.onreadystatechange = function () {
                 if (r.readyState != 4) {
                     return;
                 }
                 if (r.status != 200) {
-                    resolve({ code: r.status, data: null, err: `request "${this.httpUrl}" failed with status code ${r.status} ` });
+                    resolve({ code: r.status, data: null, err: `request "${client.httpUrl}" failed with status code ${r.status} ` });
                     return;
                 }
                 // r.responseText
-- 
2.43.0


From 22673fefe339e7925c5c65f9b6cd01a7255cc86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:26 +0000
Subject: [PATCH 50/51] fix: pubsub: a topic handler that panics or subscribes
 no longer locks its client up

---
 extension/pubsub/client.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/extension/pubsub/client.go b/extension/pubsub/client.go
index 400d781..23c2608 100644
--- a/extension/pubsub/client.go
+++ b/extension/pubsub/client.go
@@ -24,6 +24,8 @@ type Client struct {
 
 	topicHandlerMap map[string]TopicHandler
 
+	handlermux sync.Mutex
+
 	onPublishHandler TopicHandler
 }
 
@@ -180,12 +182,15 @@ func (c *Client) onPublish(ctx *arpc.Context) {
 	}
 
 	if c.onPublishHandler == nil {
+		// topic handlers run one by one, but not with psmux held: they may
+		// subscribe and unsubscribe, and may panic.
+		c.handlermux.Lock()
+		defer c.handlermux.Unlock()
 		c.psmux.Lock()
-		if h, ok := c.topicHandlerMap[topic.Name]; ok {
+		h, ok := c.topicHandlerMap[topic.Name]
+		c.psmux.Unlock()
+		if ok {
 			h(topic)
-			c.psmux.Unlock()
-		} else {
-			c.psmux.Unlock()
 		}
 	} else {
 		c.onPublishHandler(topic)
-- 
2.43.0


From bf0409358ac058433c5fa991697c67df98c70253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:42 +0000
Subject: [PATCH 51/51] fix: a ping or pong is sent like any message, after
 BeforeSend

---
 client.go | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/client.go b/client.go
index 3e72b02..9e02cb1 100644
--- a/client.go
+++ b/client.go
@@ -114,12 +114,12 @@ func (c *Client) Delete(key interface{}) {
 
 // Ping .
 func (c *Client) Ping() {
-	c.write(PingMessage.Buffer)
+	c.send(PingMessage.Buffer)
 }
 
 // Pong .
 func (c *Client) Pong() {
-	c.write(PongMessage.Buffer)
+	c.send(PongMessage.Buffer)
 }
 
 // Ping .
@@ -135,23 +135,8 @@ func (c *Client) Keepalive(interval time.Duration) {
 	}
 }
 
-// write writes buf as a whole or closes the connection,
+// send sends buf as a whole or closes the connection,
 // so that nothing follows a part of it.
-func (c *Client) write(buf []byte) error {
-	c.muxSend.Lock()
-	defer c.muxSend.Unlock()
-	conn := c.Conn
-	if timeout := c.Handler.WriteTimeout(); timeout > 0 {
-		conn.SetWriteDeadline(time.Now().Add(timeout))
-	}
-	_, err := conn.Write(buf)
-	if err != nil {
-		conn.Close()
-	}
-	return err
-}
-
-// send is like write but sends buf by Handler.Send.
 func (c *Client) send(buf []byte) error {
 	c.muxSend.Lock()
 	defer c.muxSend.Unlock()
-- 
2.43.0

