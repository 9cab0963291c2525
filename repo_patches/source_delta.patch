From 689564353b767bddb3349d560ebbafd68e3d8607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:09 +0000
Subject: [PATCH 01/62] fix: complete a call's session at most once

A duplicate response for a call that has not returned yet was swallowed, and
further duplicates blocked the receive loop for ever on the session channel.
Take the session out of the table when its response arrives.
---
 client.go  | 7 -------
 handler.go | 4 ++--
 2 files changed, 2 insertions(+), 9 deletions(-)

diff --git a/client.go b/client.go
index d44bdb1..51048fb 100644
--- a/client.go
+++ b/client.go
@@ -667,13 +667,6 @@ func (c *Client) deleteSession(seq uint64) *rpcSession {
 	return session
 }
 
-func (c *Client) getSession(seq uint64) (*rpcSession, bool) {
-	c.mux.Lock()
-	session, ok := c.sessionMap[seq]
-	c.mux.Unlock()
-	return session, ok
-}
-
 func (c *Client) clearSession() {
 	c.mux.Lock()
 	for _, sess := range c.sessionMap {
diff --git a/handler.go b/handler.go
index 7fd41e3..5ca4828 100644
--- a/handler.go
+++ b/handler.go
@@ -758,8 +758,8 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 	case CmdResponse:
 		if !msg.IsAsync() {
 			seq := msg.Seq()
-			session, ok := c.getSession(seq)
-			if ok {
+			session := c.deleteSession(seq)
+			if session != nil {
 				session.done <- msg
 			} else {
 				h.OnSessionMiss(c, msg)
-- 
2.43.0


From 6fdedb5b10351fde971621f31d40771a22ac4ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:46 +0000
Subject: [PATCH 02/62] fix: close the close channel of synchronously writing
 clients too

Without a send queue the close channel was never closed, so calls and stream
receivers that were waiting when the client ended hung until their timeout,
or for ever.
---
 client.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/client.go b/client.go
index 51048fb..c6b8e88 100644
--- a/client.go
+++ b/client.go
@@ -520,9 +520,7 @@ func (c *Client) closeAndClean() {
 	c.mux.Unlock()
 
 	c.Conn.Close()
-	if c.chSend != nil {
-		close(c.chClose)
-	}
+	close(c.chClose)
 	if c.onStop != nil {
 		c.onStop(c)
 	}
-- 
2.43.0


From f3c7bc86ef00ab4350e09bdca68c6b428e6a68b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:02 +0000
Subject: [PATCH 03/62] fix: always clean up when a client's receive loop ends

A client that was stopped before its receive loop started, or between two
messages, left the loop without closing its close channel: waiting calls hung,
the disconnected callback never ran and the server kept it as a live
connection.
---
 client.go | 66 +++++++++++++++++++++++++++----------------------------
 1 file changed, 32 insertions(+), 34 deletions(-)

diff --git a/client.go b/client.go
index c6b8e88..e46f715 100644
--- a/client.go
+++ b/client.go
@@ -819,57 +819,55 @@ func (c *Client) recvLoop() {
 			msg, err = c.Handler.Recv(c)
 			if err != nil {
 				log.Error("%v\t%v\tDisconnected: %v", c.Handler.LogTag(), addr, err)
-				c.closeAndClean()
-				return
+				break
 			}
 			c.Handler.OnMessage(c, msg)
 		}
+		c.closeAndClean()
 	} else {
 		go c.Handler.OnConnected(c)
 
-		for c.running {
-		RECV:
-			for {
-				msg, err = c.Handler.Recv(c)
-				if err != nil {
-					log.Error("%v\t%v\tDisconnected: %v", c.Handler.LogTag(), addr, err)
-					break
-				}
-				c.Handler.OnMessage(c, msg)
+	RECV:
+		for {
+			msg, err = c.Handler.Recv(c)
+			if err != nil {
+				log.Error("%v\t%v\tDisconnected: %v", c.Handler.LogTag(), addr, err)
+				break
 			}
+			c.Handler.OnMessage(c, msg)
+		}
 
-			c.reconnecting = true
-
-			c.Conn.Close()
-			c.clearSession()
-			c.clearAsyncHandler()
-			c.clearStream()
+		c.reconnecting = true
 
-			// if c.running {
-			// 	log.Info("%v\t%v\tReconnect Start", c.Handler.LogTag(), addr)
-			// }
-			maxReconnectTimes := c.Handler.MaxReconnectTimes()
-			for i := 0; c.running && ((maxReconnectTimes <= 0) || (i < maxReconnectTimes)); i++ {
-				log.Info("%v\t%v\tReconnect Trying %v", c.Handler.LogTag(), addr, i)
-				conn, err := c.Dialer()
-				if err == nil {
-					c.Conn = conn
+		c.Conn.Close()
+		c.clearSession()
+		c.clearAsyncHandler()
+		c.clearStream()
 
-					c.initReader()
+		// if c.running {
+		// 	log.Info("%v\t%v\tReconnect Start", c.Handler.LogTag(), addr)
+		// }
+		maxReconnectTimes := c.Handler.MaxReconnectTimes()
+		for i := 0; c.running && ((maxReconnectTimes <= 0) || (i < maxReconnectTimes)); i++ {
+			log.Info("%v\t%v\tReconnect Trying %v", c.Handler.LogTag(), addr, i)
+			conn, err := c.Dialer()
+			if err == nil {
+				c.Conn = conn
 
-					c.reconnecting = false
+				c.initReader()
 
-					log.Info("%v\t%v\tReconnected", c.Handler.LogTag(), addr)
+				c.reconnecting = false
 
-					go c.Handler.OnConnected(c)
+				log.Info("%v\t%v\tReconnected", c.Handler.LogTag(), addr)
 
-					goto RECV
-				}
+				go c.Handler.OnConnected(c)
 
-				time.Sleep(time.Second)
+				goto RECV
 			}
-			c.closeAndClean()
+
+			time.Sleep(time.Second)
 		}
+		c.closeAndClean()
 	}
 }
 
-- 
2.43.0


From c3d678d732ee8ec2193269934b08de2802d231a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:19 +0000
Subject: [PATCH 04/62] fix: run the right callback for every asynchronous call
 lost with its connection

All the flush closures shared the loop variable, so some callbacks never ran
and another one's was run with a handler already put back into the pool.
---
 client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client.go b/client.go
index e46f715..d89f5af 100644
--- a/client.go
+++ b/client.go
@@ -724,6 +724,7 @@ func (c *Client) clearAsyncHandler() {
 	c.asyncHandlerMap = make(map[uint64]*asyncHandler)
 	c.mux.Unlock()
 	for _, ah := range handlers {
+		ah := ah
 		if ah.timer != nil {
 			ah.timer.Stop()
 		}
-- 
2.43.0


From d01525dc0e42243edda607ed2b79e3931aacce8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:04 +0000
Subject: [PATCH 05/62] fix: register an asynchronous call before its timer can
 fire

The timer could fire before the handler was in the table, and a client stopped
meanwhile did not register it at all: CallAsync returned nil and the callback
never ran.
---
 client.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/client.go b/client.go
index d89f5af..47352fb 100644
--- a/client.go
+++ b/client.go
@@ -283,6 +283,13 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 	chTimer := make(chan time.Time, 1)
 	timerC := *(*<-chan time.Time)(unsafe.Pointer(&chTimer))
 	timer := &time.Timer{C: timerC}
+	// the timer may only fire once the handler is in the table
+	c.mux.Lock()
+	if !c.running {
+		c.mux.Unlock()
+		c.Handler.OnMessageDone(c, msg)
+		return ErrClientStopped
+	}
 	timerCallback := time.AfterFunc(timeout, func() {
 		ah, ok := c.getAndDeleteAsyncHandler(seq)
 		if ok {
@@ -294,8 +301,8 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 		}
 		chTimer <- time.Now()
 	})
-	ah := getAsyncHandler(timerCallback, handler)
-	c.addAsyncHandler(seq, ah)
+	c.asyncHandlerMap[seq] = getAsyncHandler(timerCallback, handler)
+	c.mux.Unlock()
 
 	if c.Handler.AsyncWrite() {
 		err = c.pushMessage(msg, timer)
@@ -687,14 +694,6 @@ func (c *Client) dropMessage(msg *Message) {
 	}
 }
 
-func (c *Client) addAsyncHandler(seq uint64, ah *asyncHandler) {
-	c.mux.Lock()
-	if c.running {
-		c.asyncHandlerMap[seq] = ah
-	}
-	c.mux.Unlock()
-}
-
 func (c *Client) deleteAsyncHandler(seq uint64) {
 	c.mux.Lock()
 	ah, ok := c.asyncHandlerMap[seq]
-- 
2.43.0


From 1ae94ce2eb6b0f7227f06aa2419b2318bd736108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:15 +0000
Subject: [PATCH 06/62] fix: run the callback of an asynchronous call dropped
 while reconnecting

The send loop dropped the queued request and its handler without running the
callback, although CallAsync had returned nil.
---
 client.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 47352fb..80f74ac 100644
--- a/client.go
+++ b/client.go
@@ -318,6 +318,7 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 			}
 			c.Handler.OnMessageDone(c, msg)
 		} else {
+			c.deleteAsyncHandler(seq)
 			c.dropMessage(msg)
 			err = ErrClientReconnecting
 		}
@@ -689,7 +690,17 @@ func (c *Client) dropMessage(msg *Message) {
 		}
 		c.Handler.OnMessageDropped(c, msg)
 	} else {
-		c.deleteAsyncHandler(msg.Seq())
+		if msg.Cmd() == CmdRequest {
+			if ah, ok := c.getAndDeleteAsyncHandler(msg.Seq()); ok {
+				if ah.timer != nil {
+					ah.timer.Stop()
+				}
+				c.Handler.AsyncExecute(func() {
+					ah.handler(nil, ErrClientReconnecting)
+					putAsyncHandler(ah)
+				})
+			}
+		}
 		c.Handler.OnMessageDropped(c, msg)
 	}
 }
-- 
2.43.0


From d324ee3f5e03d9fce6dd21df6d1c80746a6b359a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:40 +0000
Subject: [PATCH 07/62] fix: honour the error and async marks given to
 NewMessage

---
 handler.go | 2 +-
 proto.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/handler.go b/handler.go
index 5ca4828..c4ba296 100644
--- a/handler.go
+++ b/handler.go
@@ -887,7 +887,7 @@ func (h *handler) Cancel() {
 }
 
 func (h *handler) NewMessage(cmd byte, method string, v interface{}, isError bool, isAsync bool, seq uint64, codec codec.Codec, values map[interface{}]interface{}) *Message {
-	return newMessage(cmd, method, v, false, false, seq, h, codec, values)
+	return newMessage(cmd, method, v, isError, isAsync, seq, h, codec, values)
 }
 
 func (h *handler) NewMessageWithBuffer(buffer []byte) *Message {
diff --git a/proto.go b/proto.go
index 2df77c3..c5ebac1 100644
--- a/proto.go
+++ b/proto.go
@@ -362,7 +362,7 @@ func (m *Message) Set(key interface{}, value interface{}) {
 
 // NewMessage creates a Message.
 func NewMessage(cmd byte, method string, v interface{}, isError bool, isAsync bool, seq uint64, h Handler, codec codec.Codec, values map[interface{}]interface{}) *Message {
-	return newMessage(cmd, method, v, false, false, seq, h, codec, values)
+	return newMessage(cmd, method, v, isError, isAsync, seq, h, codec, values)
 }
 
 // newMessage creates a Message.
-- 
2.43.0


From 0ee039f069d6336880114a9843c14b709d57efc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:29 +0000
Subject: [PATCH 08/62] fix: let middleware see the response error with
 synchronous writing too

---
 context.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/context.go b/context.go
index 0f46bab..6044d06 100644
--- a/context.go
+++ b/context.go
@@ -175,6 +175,9 @@ func (ctx *Context) writeDirectly(v interface{}, isError bool) error {
 	if _, ok := v.(error); ok {
 		isError = true
 	}
+	if isError {
+		ctx.responseErr = v
+	}
 	rsp := newMessage(CmdResponse, req.method(), v, isError, req.IsAsync(), req.Seq(), cli.Handler, cli.Codec, ctx.Message.values)
 	if !cli.reconnecting {
 		coders := cli.Handler.Coders()
-- 
2.43.0


From e1f1aa41d6f4d049cc05307a481003a416d1eb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:34 +0000
Subject: [PATCH 09/62] fix: make Abort effective for chains of more than 127
 functions

---
 context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 6044d06..cde6678 100644
--- a/context.go
+++ b/context.go
@@ -122,7 +122,7 @@ func (ctx *Context) Next() {
 
 // Abort stops the one-by-one-calling of middlewares and method/router handler.
 func (ctx *Context) Abort() {
-	ctx.index = int(math.MaxInt8)
+	ctx.index = int(math.MaxInt32)
 }
 
 // Deadline implements stdlib's Context.
-- 
2.43.0


From f86d37011291fe6d4855499b86b946d4ce4a6342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:33 +0000
Subject: [PATCH 10/62] fix: leave out a value the appender cannot encode
 without damaging the message

---
 extension/middleware/coder/appender.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/extension/middleware/coder/appender.go b/extension/middleware/coder/appender.go
index 5f94bc1..3a61a58 100644
--- a/extension/middleware/coder/appender.go
+++ b/extension/middleware/coder/appender.go
@@ -1,6 +1,8 @@
 package coder
 
 import (
+	"math"
+
 	"github.com/lesismal/arpc"
 	"github.com/lesismal/arpc/util"
 )
@@ -23,13 +25,17 @@ func (ap *Appender) Encode(client *arpc.Client, msg *arpc.Message) *arpc.Message
 	if !ok {
 		return msg
 	}
-	if err := msg.SetFlagBit(ap.FlagBitIndex, true); err != nil {
-		return msg
-	}
 	valueData, err := ap.valueToBytes(value)
 	if err != nil {
 		return msg
 	}
+	// the appended length has to fit into its 2 bytes
+	if len(key)+len(valueData)+2 > math.MaxUint16 {
+		return msg
+	}
+	if err := msg.SetFlagBit(ap.FlagBitIndex, true); err != nil {
+		return msg
+	}
 	msg.Buffer = append(msg.Buffer, make([]byte, len(key)+len(valueData)+2)...)
 	appendData := msg.Buffer[len(msg.Buffer)-len(key)-len(valueData)-2:]
 	copy(appendData, key)
-- 
2.43.0


From 7c8529c4ec8ca47cedbc831cb7de1a7764983468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:18 +0000
Subject: [PATCH 11/62] fix: leave a flagged message without an appended value
 as it is

---
 extension/middleware/coder/appender.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extension/middleware/coder/appender.go b/extension/middleware/coder/appender.go
index 3a61a58..d60df03 100644
--- a/extension/middleware/coder/appender.go
+++ b/extension/middleware/coder/appender.go
@@ -53,6 +53,10 @@ func (ap *Appender) Decode(client *arpc.Client, msg *arpc.Message) *arpc.Message
 		if bufLen > 2 && ap.bytesToValue != nil {
 			key := ap.AppenderName
 			appendLen := (int(msg.Buffer[bufLen-2]) << 8) | int(msg.Buffer[bufLen-1])
+			if appendLen < len(key)+2 || appendLen > bufLen-arpc.HeadLen {
+				// nothing was appended
+				return msg
+			}
 			if bufLen >= appendLen {
 				appenderName := util.BytesToStr(msg.Buffer[bufLen-appendLen : bufLen-appendLen+len(key)])
 				if appenderName != key {
-- 
2.43.0


From 91194d12de568d4f0fe6c942a755b4f78ea05089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:07 +0000
Subject: [PATCH 12/62] fix: report end-of-stream from RecvContext and RecvWith

---
 stream.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stream.go b/stream.go
index f1af279..e560bb4 100644
--- a/stream.go
+++ b/stream.go
@@ -83,7 +83,10 @@ func (s *Stream) Recv(v interface{}) error {
 
 func (s *Stream) RecvContext(ctx context.Context, v interface{}) error {
 	select {
-	case msg := <-s.chData:
+	case msg, ok := <-s.chData:
+		if !ok {
+			return io.EOF
+		}
 		data := msg.Data()
 		err := util.BytesToValue(s.cli.Codec, data, v)
 		s.cli.Handler.OnMessageDone(s.cli, msg)
-- 
2.43.0


From 73dd532cf72d4e83fb72ea5946aea5f9aab021d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:26 +0000
Subject: [PATCH 13/62] fix: do not wedge the connection when the stream queue
 size is 0

---
 stream.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stream.go b/stream.go
index e560bb4..0dc7b44 100644
--- a/stream.go
+++ b/stream.go
@@ -204,11 +204,16 @@ func (client *Client) newStream(method string, id uint64, local bool) *Stream {
 	if id == 0 {
 		id = atomic.AddUint64(&client.seq, 1)
 	}
+	queueSize := client.Handler.StreamQueueSize()
+	if queueSize < 1 {
+		// the first message is queued before the stream handler runs
+		queueSize = 1
+	}
 	stream := &Stream{
 		id:     id,
 		cli:    client,
 		method: method,
-		chData: make(chan *Message, client.Handler.StreamQueueSize()),
+		chData: make(chan *Message, queueSize),
 		local:  local,
 	}
 	client.mux.Lock()
-- 
2.43.0


From ef1779ee90d7602241980bfe6d0fa35532e0c5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:44 +0000
Subject: [PATCH 14/62] fix: run a stream's handler only once when it closes
 the stream early

---
 handler.go | 1 +
 stream.go  | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index c4ba296..f2dad9e 100644
--- a/handler.go
+++ b/handler.go
@@ -793,6 +793,7 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 				stream.onMessage(msg)
 				if eof {
 					stream.CloseRecv()
+					c.deleteStream(id, false)
 				}
 				if !sh.async {
 					sh.handler(stream)
diff --git a/stream.go b/stream.go
index 0dc7b44..748d5ae 100644
--- a/stream.go
+++ b/stream.go
@@ -190,7 +190,9 @@ func (s *Stream) send(ctx context.Context, v interface{}, eof bool, args ...inte
 }
 
 func (s *Stream) halfClose() {
-	if atomic.AddInt32(&s.stateCloseCnt, 1) == 2 {
+	// a remote stream stays known until the peer's end-of-stream arrives:
+	// messages still on their way must not open it again
+	if atomic.AddInt32(&s.stateCloseCnt, 1) == 2 && s.local {
 		s.cli.deleteStream(s.id, s.local)
 	}
 }
-- 
2.43.0


From 4341a4b9708ef7814c12056737b6d51944eb9603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:56 +0000
Subject: [PATCH 15/62] fix: do not send the end of a lost stream over the next
 connection

---
 client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 80f74ac..ece7d57 100644
--- a/client.go
+++ b/client.go
@@ -785,11 +785,12 @@ func (c *Client) clearStream() {
 	c.streamRemoteMap = make(map[uint64]*Stream)
 	c.mux.Unlock()
 	for _, stream := range streamLocalMap {
-		stream.CloseSend()
+		// its end-of-stream must not be sent over the next connection
+		atomic.StoreInt32(&stream.stateSend, 1)
 		stream.CloseRecv()
 	}
 	for _, stream := range streamRemoteMap {
-		stream.CloseSend()
+		atomic.StoreInt32(&stream.stateSend, 1)
 		stream.CloseRecv()
 	}
 }
-- 
2.43.0


From 76ddbcf6a1dce519b0b9bbd8f52bd2b0a4cc21ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:19 +0000
Subject: [PATCH 16/62] fix: do not keep connections that ended before they
 were added

---
 server.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 77627e8..c277bcf 100644
--- a/server.go
+++ b/server.go
@@ -153,7 +153,12 @@ func (s *Server) subLoad() int64 {
 
 func (s *Server) addClient(c *Client) {
 	s.mux.Lock()
-	s.clients[c] = util.Empty{}
+	c.mux.Lock()
+	// a client that has ended already was deleted before
+	if c.running {
+		s.clients[c] = util.Empty{}
+	}
+	c.mux.Unlock()
 	s.mux.Unlock()
 }
 
-- 
2.43.0


From 67d7182053edb55f771d9a99f1ad317e9bd870ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:57 +0000
Subject: [PATCH 17/62] fix: close the connection a send failed on, not its
 successor

---
 client.go  | 45 +++++++++++++++++++++++++++------------------
 context.go |  5 +++--
 stream.go  |  5 +++--
 3 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/client.go b/client.go
index ece7d57..8ae935d 100644
--- a/client.go
+++ b/client.go
@@ -181,10 +181,11 @@ func (c *Client) Call(method string, req interface{}, rsp interface{}, timeout t
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err := c.Handler.Send(c.Conn, msg.Buffer)
+			conn := c.Conn
+			_, err := c.Handler.Send(conn, msg.Buffer)
 			c.Handler.OnMessageDone(c, msg)
 			if err != nil {
-				c.Conn.Close()
+				conn.Close()
 				return err
 			}
 		} else {
@@ -243,10 +244,11 @@ func (c *Client) CallContext(ctx context.Context, method string, req interface{}
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err := c.Handler.Send(c.Conn, msg.Buffer)
+			conn := c.Conn
+			_, err := c.Handler.Send(conn, msg.Buffer)
 			c.Handler.OnMessageDone(c, msg)
 			if err != nil {
-				c.Conn.Close()
+				conn.Close()
 				return err
 			}
 		} else {
@@ -312,9 +314,10 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err = c.Handler.Send(c.Conn, msg.Buffer)
+			conn := c.Conn
+			_, err = c.Handler.Send(conn, msg.Buffer)
 			if err != nil {
-				c.Conn.Close()
+				conn.Close()
 			}
 			c.Handler.OnMessageDone(c, msg)
 		} else {
@@ -357,9 +360,10 @@ func (c *Client) Notify(method string, data interface{}, timeout time.Duration,
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err = c.Handler.Send(c.Conn, msg.Buffer)
+			conn := c.Conn
+			_, err = c.Handler.Send(conn, msg.Buffer)
 			if err != nil {
-				c.Conn.Close()
+				conn.Close()
 			}
 			c.Handler.OnMessageDone(c, msg)
 		} else {
@@ -404,9 +408,10 @@ func (c *Client) NotifyContext(ctx context.Context, method string, data interfac
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err := c.Handler.Send(c.Conn, msg.Buffer)
+			conn := c.Conn
+			_, err := c.Handler.Send(conn, msg.Buffer)
 			if err != nil {
-				c.Conn.Close()
+				conn.Close()
 			}
 			c.Handler.OnMessageDone(c, msg)
 			return err
@@ -433,9 +438,10 @@ func (c *Client) PushMsg(msg *Message, timeout time.Duration) error {
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err := c.Handler.Send(c.Conn, msg.Buffer)
+			conn := c.Conn
+			_, err := c.Handler.Send(conn, msg.Buffer)
 			if err != nil {
-				c.Conn.Close()
+				conn.Close()
 			}
 			c.Handler.OnMessageDone(c, msg)
 			return err
@@ -906,8 +912,9 @@ func (c *Client) normalSendLoop() {
 				for j := 0; j < len(coders); j++ {
 					msg = coders[j].Encode(c, msg)
 				}
-				if _, err := c.Handler.Send(c.Conn, msg.Buffer); err != nil {
-					c.Conn.Close()
+				conn := c.Conn
+				if _, err := c.Handler.Send(conn, msg.Buffer); err != nil {
+					conn.Close()
 				}
 				c.Handler.OnMessageDone(c, msg)
 			} else {
@@ -971,14 +978,16 @@ func (c *Client) batchSendLoop() {
 				for j := 0; j < len(coders); j++ {
 					msg = coders[j].Encode(c, msg)
 				}
-				_, err := c.Handler.Send(c.Conn, msg.Buffer)
+				conn := c.Conn
+				_, err := c.Handler.Send(conn, msg.Buffer)
 				if err != nil {
-					c.Conn.Close()
+					conn.Close()
 				}
 				c.Handler.OnMessageDone(c, msg)
 			} else {
-				if _, err := c.Handler.Send(c.Conn, buffer); err != nil {
-					c.Conn.Close()
+				conn := c.Conn
+				if _, err := c.Handler.Send(conn, buffer); err != nil {
+					conn.Close()
 				}
 				buffer = buffer[0:0]
 			}
diff --git a/context.go b/context.go
index cde6678..78f7635 100644
--- a/context.go
+++ b/context.go
@@ -184,9 +184,10 @@ func (ctx *Context) writeDirectly(v interface{}, isError bool) error {
 		for j := 0; j < len(coders); j++ {
 			rsp = coders[j].Encode(cli, rsp)
 		}
-		_, err := cli.Handler.Send(cli.Conn, rsp.Buffer)
+		conn := cli.Conn
+		_, err := cli.Handler.Send(conn, rsp.Buffer)
 		if err != nil {
-			cli.Conn.Close()
+			conn.Close()
 		}
 		return err
 	}
diff --git a/stream.go b/stream.go
index 748d5ae..82e3614 100644
--- a/stream.go
+++ b/stream.go
@@ -174,9 +174,10 @@ func (s *Stream) send(ctx context.Context, v interface{}, eof bool, args ...inte
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err := c.Handler.Send(c.Conn, msg.Buffer)
+			conn := c.Conn
+			_, err := c.Handler.Send(conn, msg.Buffer)
 			if err != nil {
-				c.Conn.Close()
+				conn.Close()
 			}
 			c.Handler.OnMessageDone(c, msg)
 			return err
-- 
2.43.0


From f55162e8542e48622b5af5ce849329925ea4f65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:13 +0000
Subject: [PATCH 18/62] fix: do not keep a connection dialed while the client
 was stopped

---
 client.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 8ae935d..67163f6 100644
--- a/client.go
+++ b/client.go
@@ -523,9 +523,10 @@ func (c *Client) Restart() error {
 func (c *Client) Stop() {
 	c.mux.Lock()
 	c.running = false
+	conn := c.Conn
 	c.mux.Unlock()
 
-	c.Conn.Close()
+	conn.Close()
 }
 
 func (c *Client) closeAndClean() {
@@ -870,11 +871,19 @@ func (c *Client) recvLoop() {
 			log.Info("%v\t%v\tReconnect Trying %v", c.Handler.LogTag(), addr, i)
 			conn, err := c.Dialer()
 			if err == nil {
+				c.mux.Lock()
+				if !c.running {
+					// stopped while dialing
+					c.mux.Unlock()
+					conn.Close()
+					break
+				}
 				c.Conn = conn
 
 				c.initReader()
 
 				c.reconnecting = false
+				c.mux.Unlock()
 
 				log.Info("%v\t%v\tReconnected", c.Handler.LogTag(), addr)
 
-- 
2.43.0


From ae9dc009ad7252e07dc4291620d4386408e67c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:35 +0000
Subject: [PATCH 19/62] fix: let the old loops end before a restarted client
 begins

---
 client.go | 77 +++++++++++++++++++++++++++++++++----------------------
 1 file changed, 47 insertions(+), 30 deletions(-)

diff --git a/client.go b/client.go
index 67163f6..57bbda5 100644
--- a/client.go
+++ b/client.go
@@ -157,7 +157,11 @@ func (c *Client) Call(method string, req interface{}, rsp interface{}, timeout t
 	msg := c.newRequestMessage(CmdRequest, method, req, false, false, args...)
 	seq := msg.Seq()
 	sess := newSession(seq)
-	c.addSession(seq, sess)
+	if !c.addSession(seq, sess) {
+		timer.Stop()
+		c.Handler.OnMessageDone(c, msg)
+		return ErrClientStopped
+	}
 	defer func() {
 		timer.Stop()
 		c.deleteSession(seq)
@@ -223,7 +227,10 @@ func (c *Client) CallContext(ctx context.Context, method string, req interface{}
 	msg := c.newRequestMessage(CmdRequest, method, req, false, false, args...)
 	seq := msg.Seq()
 	sess := newSession(seq)
-	c.addSession(seq, sess)
+	if !c.addSession(seq, sess) {
+		c.Handler.OnMessageDone(c, msg)
+		return ErrClientStopped
+	}
 	defer c.deleteSession(seq)
 
 	if c.Handler.AsyncWrite() {
@@ -480,9 +487,16 @@ func (c *Client) PushMsg(msg *Message, timeout time.Duration) error {
 	return err
 }
 
-// Restart stops and restarts a Client.
+// Restart stops and restarts a Client. It waits until the old receive loop
+// has ended, so it must not be called by a handler that runs in that loop.
 func (c *Client) Restart() error {
-	c.Stop()
+	c.mux.Lock()
+	c.running = false
+	oldConn, oldClose := c.Conn, c.chClose
+	c.mux.Unlock()
+
+	oldConn.Close()
+	<-oldClose
 
 	c.mux.Lock()
 	defer c.mux.Unlock()
@@ -503,16 +517,12 @@ func (c *Client) Restart() error {
 		c.streamRemoteMap = make(map[uint64]*Stream)
 		c.values = map[interface{}]interface{}{}
 
-		c.initReader()
-		if c.Handler.AsyncWrite() {
-			c.chSend = make(chan *Message, c.Handler.SendQueueSize())
-			go util.Safe(c.sendLoop)
-		}
-		go util.Safe(c.recvLoop)
-
 		c.running = true
 		c.reconnecting = false
 
+		c.initReader()
+		c.startLoops()
+
 		log.Info("%v\t[%v] Restarted to [%v]", c.Handler.LogTag(), preConn.RemoteAddr(), conn.RemoteAddr())
 	}
 
@@ -664,12 +674,13 @@ func (c *Client) parseResponse(msg *Message, rsp interface{}) error {
 	return nil
 }
 
-func (c *Client) addSession(seq uint64, session *rpcSession) {
+func (c *Client) addSession(seq uint64, session *rpcSession) bool {
 	c.mux.Lock()
+	defer c.mux.Unlock()
 	if c.running {
 		c.sessionMap[seq] = session
 	}
-	c.mux.Unlock()
+	return c.running
 }
 
 func (c *Client) deleteSession(seq uint64) *rpcSession {
@@ -808,13 +819,19 @@ func (c *Client) run() {
 	if !c.running {
 		c.running = true
 		c.initReader()
-		if c.Handler.AsyncWrite() {
-			go util.Safe(c.sendLoop)
-		}
-		go util.Safe(c.recvLoop)
+		c.startLoops()
 	}
 }
 
+func (c *Client) startLoops() {
+	if c.Handler.AsyncWrite() {
+		// the loop must not take over the queue of a restarted client
+		chSend, chClose := c.chSend, c.chClose
+		go util.Safe(func() { c.sendLoop(chSend, chClose) })
+	}
+	go util.Safe(c.recvLoop)
+}
+
 func (c *Client) initReader() {
 	if c.Handler.BatchRecv() {
 		c.Reader = c.Handler.WrapReader(c.Conn)
@@ -898,24 +915,24 @@ func (c *Client) recvLoop() {
 	}
 }
 
-func (c *Client) sendLoop() {
+func (c *Client) sendLoop(chSend chan *Message, chClose chan util.Empty) {
 	addr := c.Conn.RemoteAddr().String()
 	log.Debug("%v\t%v\tsendLoop start", c.Handler.LogTag(), addr)
 	defer log.Debug("%v\t%v\tsendLoop stop", c.Handler.LogTag(), addr)
 
 	if c.Handler.BatchSend() {
-		c.batchSendLoop()
+		c.batchSendLoop(chSend, chClose)
 	} else {
-		c.normalSendLoop()
+		c.normalSendLoop(chSend, chClose)
 	}
 }
 
-func (c *Client) normalSendLoop() {
+func (c *Client) normalSendLoop(chSend chan *Message, chClose chan util.Empty) {
 	var msg *Message
 	var coders []MessageCoder
 	for {
 		select {
-		case msg = <-c.chSend:
+		case msg = <-chSend:
 			if !c.reconnecting {
 				coders = c.Handler.Coders()
 				for j := 0; j < len(coders); j++ {
@@ -929,11 +946,11 @@ func (c *Client) normalSendLoop() {
 			} else {
 				c.dropMessage(msg)
 			}
-		case <-c.chClose:
+		case <-chClose:
 			// clear msg in send queue
 			for {
 				select {
-				case msg := <-c.chSend:
+				case msg := <-chSend:
 					c.Handler.OnMessageDone(c, msg)
 				default:
 					return
@@ -943,7 +960,7 @@ func (c *Client) normalSendLoop() {
 	}
 }
 
-func (c *Client) batchSendLoop() {
+func (c *Client) batchSendLoop(chSend chan *Message, chClose chan util.Empty) {
 	var msg *Message
 	var chLen int
 	var coders []MessageCoder
@@ -953,12 +970,12 @@ func (c *Client) batchSendLoop() {
 
 	for {
 		select {
-		case msg = <-c.chSend:
-		case <-c.chClose:
+		case msg = <-chSend:
+		case <-chClose:
 			// clear msg in send queue
 			for {
 				select {
-				case msg := <-c.chSend:
+				case msg := <-chSend:
 					c.Handler.OnMessageDone(c, msg)
 				default:
 					return
@@ -966,7 +983,7 @@ func (c *Client) batchSendLoop() {
 			}
 		}
 		if !c.reconnecting {
-			chLen = len(c.chSend)
+			chLen = len(chSend)
 			coders = c.Handler.Coders()
 			for i := 0; i < chLen && len(buffer) < sendBufferSize; i++ {
 				if len(buffer) == 0 {
@@ -976,7 +993,7 @@ func (c *Client) batchSendLoop() {
 					buffer = c.Handler.Append(buffer, msg.Buffer...)
 					c.Handler.OnMessageDone(c, msg)
 				}
-				msg = <-c.chSend
+				msg = <-chSend
 				for j := 0; j < len(coders); j++ {
 					msg = coders[j].Encode(c, msg)
 				}
-- 
2.43.0


From 23dc0e17adffa4c923678776aff0705c9ceec56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:52 +0000
Subject: [PATCH 20/62] fix: do not log the method of a message already
 released

---
 handler.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/handler.go b/handler.go
index f2dad9e..8c02a7a 100644
--- a/handler.go
+++ b/handler.go
@@ -743,17 +743,18 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 				})
 			}
 		} else {
-			if rh, ok = h.routes[""]; ok {
-				ctx := newContext(c, msg, rh.handlers)
-				ctx.Next()
-				h.OnContextDone(ctx)
-			}
-
+			// the method is part of the message, which may be released below
 			if cmd == CmdRequest {
 				log.Warn("%v OnMessage: invalid Call with method: [%v], no handler", h.LogTag(), method)
 			} else {
 				log.Warn("%v OnMessage: invalid Notify with method: [%v], no handler", h.LogTag(), method)
 			}
+
+			if rh, ok = h.routes[""]; ok {
+				ctx := newContext(c, msg, rh.handlers)
+				ctx.Next()
+				h.OnContextDone(ctx)
+			}
 		}
 	case CmdResponse:
 		if !msg.IsAsync() {
@@ -801,8 +802,8 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 					h.AsyncExecute(func() { sh.handler(stream) })
 				}
 			} else {
-				h.onMessageDone(c, msg)
 				log.Warn("%v OnMessage: invalid Stream with method: [%v], no handler", h.LogTag(), method)
+				h.OnMessageDone(c, msg)
 			}
 		} else {
 			stream.onMessage(msg)
-- 
2.43.0


From 12eb5beeda89a1e0d472772793db3c4f2628a06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:03 +0000
Subject: [PATCH 21/62] fix: let a stream keep its own copy of the method

---
 handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index 8c02a7a..d50ae9b 100644
--- a/handler.go
+++ b/handler.go
@@ -790,7 +790,7 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 		if !ok {
 			sh, ok := h.streams[method]
 			if ok && !local {
-				stream = c.newStream(msg.method(), id, false)
+				stream = c.newStream(msg.Method(), id, false)
 				stream.onMessage(msg)
 				if eof {
 					stream.CloseRecv()
-- 
2.43.0


From 623b129b88ee9ddb3a6ebba3508da282d0cce641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:17 +0000
Subject: [PATCH 22/62] fix: give back the batch buffer in use, not the first
 one

---
 client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 57bbda5..52c381b 100644
--- a/client.go
+++ b/client.go
@@ -966,7 +966,8 @@ func (c *Client) batchSendLoop(chSend chan *Message, chClose chan util.Empty) {
 	var coders []MessageCoder
 	var buffer = c.Handler.Malloc(2048)[0:0]
 	var sendBufferSize = c.Handler.SendBufferSize()
-	defer c.Handler.Free(buffer)
+	// appending may have moved the buffer
+	defer func() { c.Handler.Free(buffer) }()
 
 	for {
 		select {
-- 
2.43.0


From 16a239642b746ef4652c6ddf0cd780373bd2bd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:10 +0000
Subject: [PATCH 23/62] fix: keep a published message until it is sent to every
 subscriber

---
 extension/pubsub/topic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extension/pubsub/topic.go b/extension/pubsub/topic.go
index 7050f7a..db3ef5e 100644
--- a/extension/pubsub/topic.go
+++ b/extension/pubsub/topic.go
@@ -94,8 +94,10 @@ func (t *TopicAgent) Delete(c *arpc.Client) {
 // Publish .
 func (t *TopicAgent) Publish(s *Server, from *arpc.Client, topic *Topic) {
 	msg := s.NewMessage(arpc.CmdNotify, routePublish, topic.raw)
+	defer msg.Release()
 	t.mux.RLock()
 	for to := range t.clients {
+		msg.Retain()
 		err := to.PushMsg(msg, arpc.TimeZero)
 		if err != nil {
 			if from != nil {
@@ -116,8 +118,10 @@ func (t *TopicAgent) Publish(s *Server, from *arpc.Client, topic *Topic) {
 // PublishToOne .
 func (t *TopicAgent) PublishToOne(s *Server, from *arpc.Client, topic *Topic) {
 	msg := s.NewMessage(arpc.CmdNotify, routePublish, topic.raw)
+	defer msg.Release()
 	t.mux.RLock()
 	for to := range t.clients {
+		msg.Retain()
 		err := to.PushMsg(msg, arpc.TimeZero)
 		if err != nil {
 			if from != nil {
-- 
2.43.0


From 3a983fd2cbfb4833b1d08f47a5f24480f23ffbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:52 +0000
Subject: [PATCH 24/62] fix: broadcast a message of its own to every client
 when coders are in use

---
 server.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/server.go b/server.go
index c277bcf..92af32c 100644
--- a/server.go
+++ b/server.go
@@ -69,8 +69,7 @@ func (s *Server) Broadcast(method string, v interface{}, args ...interface{}) {
 	}()
 
 	for c := range s.clients {
-		msg.Retain()
-		c.PushMsg(msg, TimeZero)
+		s.pushShared(c, msg, method, v, args...)
 	}
 }
 
@@ -84,12 +83,21 @@ func (s *Server) BroadcastWithFilter(method string, v interface{}, filter func(*
 
 	for c := range s.clients {
 		if filter == nil || filter(c) {
-			msg.Retain()
-			c.PushMsg(msg, TimeZero)
+			s.pushShared(c, msg, method, v, args...)
 		}
 	}
 }
 
+// pushShared pushes msg, or a message of its own if coders may change it.
+func (s *Server) pushShared(c *Client, msg *Message, method string, v interface{}, args ...interface{}) {
+	if len(s.Handler.Coders()) > 0 {
+		msg = s.NewMessage(CmdNotify, method, v, args...)
+	} else {
+		msg.Retain()
+	}
+	c.PushMsg(msg, TimeZero)
+}
+
 func (s *Server) ForEach(h func(*Client)) {
 	s.mux.Lock()
 	defer s.mux.Unlock()
-- 
2.43.0


From f9becdabe570ed63d37e16fa46342de955ff88bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:37 +0000
Subject: [PATCH 25/62] fix: do not miss the only connected client of a pool
 under concurrent use

---
 client.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/client.go b/client.go
index 52c381b..2987960 100644
--- a/client.go
+++ b/client.go
@@ -1109,17 +1109,19 @@ func (pool *ClientPool) Get(index int) *Client {
 
 // Next returns a Client by round robin.
 func (pool *ClientPool) Next() *Client {
-	var client = pool.clients[atomic.AddUint64(&pool.round, 1)%pool.size]
-	if client.running && !client.reconnecting {
-		return client
-	}
-	for i := uint64(1); i < pool.size; i++ {
-		client = pool.clients[atomic.AddUint64(&pool.round, 1)%pool.size]
-		if client.running && !client.reconnecting {
+	for {
+		round := atomic.LoadUint64(&pool.round)
+		n := uint64(1)
+		client := pool.clients[(round+n)%pool.size]
+		for n < pool.size && (!client.running || client.reconnecting) {
+			n++
+			client = pool.clients[(round+n)%pool.size]
+		}
+		// look again if another goroutine has moved on meanwhile
+		if atomic.CompareAndSwapUint64(&pool.round, round, round+n) {
 			return client
 		}
 	}
-	return client
 }
 
 // Handler returns Handler.
-- 
2.43.0


From 7f3876d01a043abf6e8d67833e280358a2f38409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:47 +0000
Subject: [PATCH 26/62] fix: do not write into the caller's data when
 publishing

---
 extension/pubsub/topic.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extension/pubsub/topic.go b/extension/pubsub/topic.go
index db3ef5e..eaab2bc 100644
--- a/extension/pubsub/topic.go
+++ b/extension/pubsub/topic.go
@@ -37,8 +37,10 @@ func (tp *Topic) toBytes() ([]byte, error) {
 	binary.LittleEndian.PutUint16(tail[nameLen:], nameLen)
 	binary.LittleEndian.PutUint64(tail[nameLen+2:], uint64(tp.Timestamp))
 	dataLen := len(tp.Data)
-	tp.Data = append(tp.Data, tail...)
-	tp.raw = tp.Data
+	// the data belongs to the caller, do not append to it in place
+	tp.raw = make([]byte, dataLen+len(tail))
+	copy(tp.raw, tp.Data)
+	copy(tp.raw[dataLen:], tail)
 	tp.Data = tp.raw[:dataLen]
 	return tp.raw, nil
 }
-- 
2.43.0


From a1cd28e4dcbc7321569c9aa82ae22e4ecbc22a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:30 +0000
Subject: [PATCH 27/62] fix: publish a message of its own to every subscriber
 when coders are in use

---
 extension/pubsub/topic.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/extension/pubsub/topic.go b/extension/pubsub/topic.go
index eaab2bc..34c1a8b 100644
--- a/extension/pubsub/topic.go
+++ b/extension/pubsub/topic.go
@@ -93,14 +93,23 @@ func (t *TopicAgent) Delete(c *arpc.Client) {
 	t.mux.Unlock()
 }
 
+// push pushes msg, or a message of its own if coders may change it.
+func (t *TopicAgent) push(s *Server, to *arpc.Client, msg *arpc.Message, topic *Topic) error {
+	if len(s.Handler.Coders()) > 0 {
+		msg = s.NewMessage(arpc.CmdNotify, routePublish, topic.raw)
+	} else {
+		msg.Retain()
+	}
+	return to.PushMsg(msg, arpc.TimeZero)
+}
+
 // Publish .
 func (t *TopicAgent) Publish(s *Server, from *arpc.Client, topic *Topic) {
 	msg := s.NewMessage(arpc.CmdNotify, routePublish, topic.raw)
 	defer msg.Release()
 	t.mux.RLock()
 	for to := range t.clients {
-		msg.Retain()
-		err := to.PushMsg(msg, arpc.TimeZero)
+		err := t.push(s, to, msg, topic)
 		if err != nil {
 			if from != nil {
 				log.Error("[Publish] [topic: '%v'] failed %v, from\t%v\tto\t%v", topic.Name, err, from.Conn.RemoteAddr(), to.Conn.RemoteAddr())
@@ -123,8 +132,7 @@ func (t *TopicAgent) PublishToOne(s *Server, from *arpc.Client, topic *Topic) {
 	defer msg.Release()
 	t.mux.RLock()
 	for to := range t.clients {
-		msg.Retain()
-		err := to.PushMsg(msg, arpc.TimeZero)
+		err := t.push(s, to, msg, topic)
 		if err != nil {
 			if from != nil {
 				log.Error("[PublishToOne] [topic: '%v'] failed %v, from\t%v\tto\t%v", topic.Name, err, from.Conn.RemoteAddr(), to.Conn.RemoteAddr())
-- 
2.43.0


From 9bbc5a31289fc3c0357693cafa6a0daca06b2cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:31 +0000
Subject: [PATCH 28/62] fix: reject topics shorter than their name

---
 extension/pubsub/topic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extension/pubsub/topic.go b/extension/pubsub/topic.go
index 34c1a8b..cf26c79 100644
--- a/extension/pubsub/topic.go
+++ b/extension/pubsub/topic.go
@@ -53,6 +53,9 @@ func (tp *Topic) fromBytes(data []byte) error {
 	if nameLen == 0 || nameLen > MaxTopicNameLen {
 		return ErrInvalidTopicNameLength
 	}
+	if nameLen > len(data)-10 {
+		return ErrInvalidTopicBytes
+	}
 	tp.Timestamp = int64(binary.LittleEndian.Uint64(data[len(data)-8:]))
 	tp.Name = string(data[len(data)-nameLen-10 : len(data)-10])
 	tp.Data = data[:len(data)-nameLen-10]
-- 
2.43.0


From fb03cd19492f8600594552eb9319d70dedcc26d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:31 +0000
Subject: [PATCH 29/62] fix: do not hold the client's lock while a topic
 handler runs

---
 extension/pubsub/client.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/extension/pubsub/client.go b/extension/pubsub/client.go
index 400d781..b66dcdc 100644
--- a/extension/pubsub/client.go
+++ b/extension/pubsub/client.go
@@ -181,11 +181,11 @@ func (c *Client) onPublish(ctx *arpc.Context) {
 
 	if c.onPublishHandler == nil {
 		c.psmux.Lock()
-		if h, ok := c.topicHandlerMap[topic.Name]; ok {
+		h, ok := c.topicHandlerMap[topic.Name]
+		c.psmux.Unlock()
+		// without the lock: the handler may panic, block or use the client
+		if ok {
 			h(topic)
-			c.psmux.Unlock()
-		} else {
-			c.psmux.Unlock()
 		}
 	} else {
 		c.onPublishHandler(topic)
-- 
2.43.0


From 461f13156908d51798125ed68d28df18b46492e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:31 +0000
Subject: [PATCH 30/62] fix: keep a topic's handler when subscribing again
 fails

---
 extension/pubsub/client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/extension/pubsub/client.go b/extension/pubsub/client.go
index b66dcdc..c9f7787 100644
--- a/extension/pubsub/client.go
+++ b/extension/pubsub/client.go
@@ -56,6 +56,7 @@ func (c *Client) Subscribe(topicName string, h TopicHandler, timeout time.Durati
 	// if _, ok := c.topicHandlerMap[topicName]; ok {
 	// 	panic(fmt.Errorf("handler exist for topic [%v]", topicName))
 	// }
+	preHandler, subscribed := c.topicHandlerMap[topicName]
 	c.topicHandlerMap[topicName] = h
 	c.psmux.Unlock()
 
@@ -64,7 +65,11 @@ func (c *Client) Subscribe(topicName string, h TopicHandler, timeout time.Durati
 		log.Info("%v [Subscribe] [topic: '%v'] success from\t%v", c.Handler.LogTag(), topicName, c.Conn.RemoteAddr())
 	} else {
 		c.psmux.Lock()
-		delete(c.topicHandlerMap, topicName)
+		if subscribed {
+			c.topicHandlerMap[topicName] = preHandler
+		} else {
+			delete(c.topicHandlerMap, topicName)
+		}
 		c.psmux.Unlock()
 		log.Error("%v [Subscribe] [topic: '%v'] failed: %v, from\t%v", c.Handler.LogTag(), topicName, err, c.Conn.RemoteAddr())
 	}
-- 
2.43.0


From 7b5d902deba9753f75cf535438e9f96c9a1ef11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:31 +0000
Subject: [PATCH 31/62] fix: keep the subscriptions of a client that
 authenticates again

---
 extension/pubsub/server.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/extension/pubsub/server.go b/extension/pubsub/server.go
index 94a2717..edcc618 100644
--- a/extension/pubsub/server.go
+++ b/extension/pubsub/server.go
@@ -250,9 +250,22 @@ func (s *Server) getOrMakeTopic(topic string) *TopicAgent {
 
 // addClient .
 func (s *Server) addClient(c *arpc.Client) {
-	c.Set(userTopicKey, &clientTopics{
+	s.getOrMakeClientTopics(c)
+}
+
+// getOrMakeClientTopics keeps the subscriptions of a client that
+// authenticates again.
+func (s *Server) getOrMakeClientTopics(c *arpc.Client) *clientTopics {
+	s.psmux.Lock()
+	defer s.psmux.Unlock()
+	if topics, ok := c.Get(userTopicKey); ok {
+		return topics.(*clientTopics)
+	}
+	cts := &clientTopics{
 		topicAgents: map[string]*TopicAgent{},
-	})
+	}
+	c.Set(userTopicKey, cts)
+	return cts
 }
 
 func (s *Server) deleteClient(c *arpc.Client) {
-- 
2.43.0


From 6950fc4c9f10002211e06d71b4f4b0607c952385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:31 +0000
Subject: [PATCH 32/62] fix: do not subscribe a connection that has ended, nor
 acknowledge too early

---
 extension/pubsub/server.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/extension/pubsub/server.go b/extension/pubsub/server.go
index edcc618..8f29be1 100644
--- a/extension/pubsub/server.go
+++ b/extension/pubsub/server.go
@@ -23,6 +23,7 @@ const (
 type clientTopics struct {
 	mux         sync.RWMutex
 	topicAgents map[string]*TopicAgent
+	closed      bool
 }
 
 // Server .
@@ -115,12 +116,17 @@ func (s *Server) onSubscribe(ctx *arpc.Context) {
 		}
 		cts := topics.(*clientTopics)
 		cts.mux.Lock()
+		if cts.closed {
+			// disconnected meanwhile
+			cts.mux.Unlock()
+			return
+		}
 		tp, ok := cts.topicAgents[topicName]
 		if !ok {
 			tp = s.getOrMakeTopic(topicName)
 			cts.topicAgents[topicName] = tp
-			cts.mux.Unlock()
 			tp.Add(ctx.Client)
+			cts.mux.Unlock()
 			ctx.Write(nil)
 			log.Info("%v [Subscribe] [topic: '%v'] success from\t%v", s.Handler.LogTag(), topicName, ctx.Client.Conn.RemoteAddr())
 		} else {
@@ -158,8 +164,8 @@ func (s *Server) onUnsubscribe(ctx *arpc.Context) {
 		cts.mux.Lock()
 		if ta, ok := cts.topicAgents[topicName]; ok {
 			delete(cts.topicAgents, topicName)
-			cts.mux.Unlock()
 			ta.Delete(ctx.Client)
+			cts.mux.Unlock()
 			ctx.Write(nil)
 			log.Info("%v [Unsubscribe] [topic: '%v'] success from\t%v", s.Handler.LogTag(), ta.Name, ctx.Client.Conn.RemoteAddr())
 		} else {
@@ -269,16 +275,13 @@ func (s *Server) getOrMakeClientTopics(c *arpc.Client) *clientTopics {
 }
 
 func (s *Server) deleteClient(c *arpc.Client) {
-	topics, ok := c.Get(userTopicKey)
-	if !ok {
-		return
-	}
-
 	defer util.Recover()
 
-	cts := topics.(*clientTopics)
-	cts.mux.RLock()
-	defer cts.mux.RUnlock()
+	cts := s.getOrMakeClientTopics(c)
+	cts.mux.Lock()
+	defer cts.mux.Unlock()
+	// a request that is still being handled must not subscribe any more
+	cts.closed = true
 	for _, tp := range cts.topicAgents {
 		tp.Delete(c)
 		log.Info("%v [Disconnected Unsubscribe] [topic: '%v'] from\t%v", s.Handler.LogTag(), tp.Name, c.Conn.RemoteAddr())
-- 
2.43.0


From f6f62cbec4ce13411600abd6407658294119e823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:46 +0000
Subject: [PATCH 33/62] fix: do not handle requests the graceful middleware has
 rejected

---
 extension/middleware/router/graceful.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extension/middleware/router/graceful.go b/extension/middleware/router/graceful.go
index 4276dbd..2be349f 100644
--- a/extension/middleware/router/graceful.go
+++ b/extension/middleware/router/graceful.go
@@ -26,6 +26,7 @@ func (g *Graceful) Handler() arpc.HandlerFunc {
 			ctx.Next()
 		} else {
 			ctx.Error(ErrShutdown)
+			ctx.Abort()
 		}
 	}
 }
-- 
2.43.0


From 7ba6f3ca4833497e2c7fa6f1d52acfeda8505e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:08 +0000
Subject: [PATCH 34/62] fix: let the graceful middleware count a request in
 before Shutdown can miss it

---
 extension/middleware/router/graceful.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/extension/middleware/router/graceful.go b/extension/middleware/router/graceful.go
index 2be349f..9d961d7 100644
--- a/extension/middleware/router/graceful.go
+++ b/extension/middleware/router/graceful.go
@@ -13,6 +13,7 @@ var ErrShutdown = errors.New("shutting down")
 
 // Graceful represents a graceful middleware instance.
 type Graceful struct {
+	mux        sync.Mutex
 	shutdown   bool
 	gracefulWg sync.WaitGroup
 }
@@ -20,8 +21,7 @@ type Graceful struct {
 // Handler returns the graceful middleware handler.
 func (g *Graceful) Handler() arpc.HandlerFunc {
 	return func(ctx *arpc.Context) {
-		if !g.shutdown {
-			g.gracefulWg.Add(1)
+		if g.admit() {
 			defer g.gracefulWg.Done()
 			ctx.Next()
 		} else {
@@ -31,9 +31,22 @@ func (g *Graceful) Handler() arpc.HandlerFunc {
 	}
 }
 
+// admit counts a request in unless Shutdown has begun.
+func (g *Graceful) admit() bool {
+	g.mux.Lock()
+	defer g.mux.Unlock()
+	if g.shutdown {
+		return false
+	}
+	g.gracefulWg.Add(1)
+	return true
+}
+
 // Shutdown stops handling new requests and waits for all current requests to be processed.
 func (g *Graceful) Shutdown() {
+	g.mux.Lock()
 	g.shutdown = true
+	g.mux.Unlock()
 	g.gracefulWg.Wait()
 	time.Sleep(time.Second / 10)
 }
-- 
2.43.0


From 28119cbb5d05750c5bfa173c4969bfc1591f12c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:09 +0000
Subject: [PATCH 35/62] fix: survive a panic in the callback of an asynchronous
 call that timed out

---
 client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 2987960..4acd4c2 100644
--- a/client.go
+++ b/client.go
@@ -305,7 +305,7 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 			if ah.timer != nil {
 				ah.timer.Stop()
 			}
-			ah.handler(nil, ErrTimeout)
+			util.Safe(func() { ah.handler(nil, ErrTimeout) })
 			putAsyncHandler(ah)
 		}
 		chTimer <- time.Now()
-- 
2.43.0


From 7fcd75d8ef3cc74e6d00f759536c5b39be80698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:51 +0000
Subject: [PATCH 36/62] fix: do not miss the only connected node of a service
 under concurrent use

---
 extension/micro/service.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extension/micro/service.go b/extension/micro/service.go
index cfd0cc8..effdc9b 100644
--- a/extension/micro/service.go
+++ b/extension/micro/service.go
@@ -86,8 +86,9 @@ func (list *serviceNodeList) delete(addr string) {
 }
 
 func (list *serviceNodeList) next() (*arpc.Client, error) {
-	list.mux.RLock()
-	defer list.mux.RUnlock()
+	// index must not be moved by others meanwhile
+	list.mux.Lock()
+	defer list.mux.Unlock()
 	l := len(list.nodes)
 	if l == 0 {
 		return nil, ErrServiceNotFound
-- 
2.43.0


From 05eaddbe79efb227527de225e717b2268112317a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:06 +0000
Subject: [PATCH 37/62] fix: leave no extra client behind when a node is
 registered again

---
 extension/micro/service.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/extension/micro/service.go b/extension/micro/service.go
index effdc9b..9360662 100644
--- a/extension/micro/service.go
+++ b/extension/micro/service.go
@@ -42,16 +42,17 @@ type serviceNodeList struct {
 	nodes []*ServiceNode
 }
 
-func (list *serviceNodeList) addByAddr(addr string, nodes []*ServiceNode) {
+func (list *serviceNodeList) addByAddr(addr string, nodes []*ServiceNode) bool {
 	list.mux.Lock()
 	defer list.mux.Unlock()
 	for _, v := range list.nodes {
 		// addr already added
 		if v.addr == addr {
-			return
+			return false
 		}
 	}
 	list.nodes = append(list.nodes, nodes...)
+	return true
 }
 
 func (list *serviceNodeList) update(node *ServiceNode) {
@@ -109,7 +110,7 @@ type serviceManager struct {
 	serviceList map[string]*serviceNodeList
 }
 
-func (s *serviceManager) setServiceNode(name string, addr string, nodes []*ServiceNode) {
+func (s *serviceManager) setServiceNode(name string, addr string, nodes []*ServiceNode) bool {
 	s.mux.Lock()
 	list, ok := s.serviceList[name]
 	if !ok {
@@ -117,7 +118,7 @@ func (s *serviceManager) setServiceNode(name string, addr string, nodes []*Servi
 		s.serviceList[name] = list
 	}
 	s.mux.Unlock()
-	list.addByAddr(addr, nodes)
+	return list.addByAddr(addr, nodes)
 }
 
 func (s *serviceManager) updateServiceNode(name string, node *ServiceNode) {
@@ -155,7 +156,13 @@ func (s *serviceManager) AddServiceNodes(path string, value string) {
 	})
 	for i := 0; i < weight; i++ {
 		nodes[i].client = client
-		s.setServiceNode(name, addr, nodes)
+	}
+	if !s.setServiceNode(name, addr, nodes) {
+		// registered already: the client is not needed
+		if err == nil {
+			client.Stop()
+		}
+		return
 	}
 	if err == nil {
 		log.Info("AddServiceNodes: [%v, %v, %v, %v]", app, name, addr, weight)
-- 
2.43.0


From f0d4e03cc7085df8fc8904af0d3913429a3cf6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:18 +0000
Subject: [PATCH 38/62] fix: let a cloned handler's reader use the clone's own
 buffer size

---
 handler.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/handler.go b/handler.go
index d50ae9b..6dcba0a 100644
--- a/handler.go
+++ b/handler.go
@@ -285,7 +285,7 @@ type handler struct {
 	append     func([]byte, ...byte) []byte
 	free       func([]byte)
 
-	wrapReader func(conn net.Conn) io.Reader
+	wrapReader func(h *handler, conn net.Conn) io.Reader
 
 	routes  map[string]*routerHandler
 	streams map[string]*streamHandler
@@ -472,13 +472,19 @@ func (h *handler) SetAsyncResponse(async bool) {
 
 func (h *handler) WrapReader(conn net.Conn) io.Reader {
 	if h.wrapReader != nil {
-		return h.wrapReader(conn)
+		return h.wrapReader(h, conn)
 	}
 	return conn
 }
 
 func (h *handler) SetReaderWrapper(wrapper func(conn net.Conn) io.Reader) {
-	h.wrapReader = wrapper
+	if wrapper == nil {
+		h.wrapReader = nil
+		return
+	}
+	h.wrapReader = func(_ *handler, conn net.Conn) io.Reader {
+		return wrapper(conn)
+	}
 }
 
 func (h *handler) RecvBufferSize() int {
@@ -926,7 +932,7 @@ func NewHandler() Handler {
 		streamQueueSize: 4,
 		maxBodyLen:      DefaultMaxBodyLen,
 	}
-	h.wrapReader = func(conn net.Conn) io.Reader {
+	h.wrapReader = func(h *handler, conn net.Conn) io.Reader {
 		return bufio.NewReaderSize(conn, h.recvBufferSize)
 	}
 	h.HandleConnected(func(cli *Client) {
-- 
2.43.0


From 5203dc492249a19a585d339495806e366a34c917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:18 +0000
Subject: [PATCH 39/62] fix: report messages a cloned handler drops to the
 clone's own callback

---
 handler.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/handler.go b/handler.go
index 6dcba0a..2b6017f 100644
--- a/handler.go
+++ b/handler.go
@@ -370,32 +370,30 @@ func (h *handler) SetMaxReconnectTimes(n int) {
 }
 
 func (h *handler) HandleOverstock(onOverstock func(c *Client, m *Message)) {
-	h.onOverstock = func(c *Client, m *Message) {
-		if onOverstock != nil {
-			onOverstock(c, m)
-		}
-		h.OnMessageDone(c, m)
+	if onOverstock == nil {
+		onOverstock = func(*Client, *Message) {}
 	}
+	h.onOverstock = onOverstock
 }
 
 func (h *handler) OnOverstock(c *Client, m *Message) {
 	if h.onOverstock != nil {
 		h.onOverstock(c, m)
+		h.OnMessageDone(c, m)
 	}
 }
 
 func (h *handler) HandleMessageDropped(onMessageDropped func(c *Client, m *Message)) {
-	h.onMessageDropped = func(c *Client, m *Message) {
-		if onMessageDropped != nil {
-			onMessageDropped(c, m)
-		}
-		h.OnMessageDone(c, m)
+	if onMessageDropped == nil {
+		onMessageDropped = func(*Client, *Message) {}
 	}
+	h.onMessageDropped = onMessageDropped
 }
 
 func (h *handler) OnMessageDropped(c *Client, m *Message) {
 	if h.onMessageDropped != nil {
 		h.onMessageDropped(c, m)
+		h.OnMessageDone(c, m)
 	}
 }
 
-- 
2.43.0


From e7973237ff3204a9bcc73fc396f3051e7e8e1c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:17 +0000
Subject: [PATCH 40/62] fix: serialize writes of the websocket connection
 adapter

---
 extension/protocol/websocket/websocket.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extension/protocol/websocket/websocket.go b/extension/protocol/websocket/websocket.go
index 31a9ee4..d04d7f3 100644
--- a/extension/protocol/websocket/websocket.go
+++ b/extension/protocol/websocket/websocket.go
@@ -8,6 +8,7 @@ import (
 	"errors"
 	"net"
 	"net/http"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -76,6 +77,7 @@ type Conn struct {
 	*websocket.Conn
 	chHandler chan func()
 	buffer    []byte
+	writeMux  sync.Mutex
 }
 
 // HandleWebsocket .
@@ -111,7 +113,10 @@ func (c *Conn) Read(b []byte) (int, error) {
 
 // Write .
 func (c *Conn) Write(b []byte) (int, error) {
+	// unlike a net.Conn, a websocket.Conn allows one writer at a time only
+	c.writeMux.Lock()
 	err := c.WriteMessage(websocket.BinaryMessage, b)
+	c.writeMux.Unlock()
 	if err == nil {
 		return len(b), nil
 	}
-- 
2.43.0


From 94bbb492feeebfc1ccd240eae6c692d2f08bd861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:17 +0000
Subject: [PATCH 41/62] fix: never accept a websocket connection after the
 listener was closed

---
 extension/protocol/websocket/websocket.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extension/protocol/websocket/websocket.go b/extension/protocol/websocket/websocket.go
index d04d7f3..2d8f074 100644
--- a/extension/protocol/websocket/websocket.go
+++ b/extension/protocol/websocket/websocket.go
@@ -64,6 +64,12 @@ func (ln *Listener) Addr() net.Addr {
 
 // Accept .
 func (ln *Listener) Accept() (net.Conn, error) {
+	// a connection that is still queued is not handed out after Close
+	select {
+	case <-ln.chClose:
+		return nil, ErrClosed
+	default:
+	}
 	select {
 	case c := <-ln.chAccept:
 		return c, nil
-- 
2.43.0


From 7913eaf99b2dba6d539f2d4d8aca152d2fb5b159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:32 +0000
Subject: [PATCH 42/62] fix: end the refreshes of a redis registration when it
 is stopped

---
 extension/micro/redis/register.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/extension/micro/redis/register.go b/extension/micro/redis/register.go
index e2d97bc..89513d2 100644
--- a/extension/micro/redis/register.go
+++ b/extension/micro/redis/register.go
@@ -3,6 +3,7 @@ package redis
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	redis "github.com/go-redis/redis/v8"
@@ -21,6 +22,9 @@ type Register struct {
 	interval         time.Duration
 	expire           time.Duration
 	client           *redis.Client
+
+	mux     sync.Mutex
+	stopped bool
 }
 
 // Stop .
@@ -33,13 +37,29 @@ func (s *Register) keepalive() {
 		case <-s.done:
 			return
 		case <-ticker.C:
-			s.client.HSet(context.Background(), s.serviceNamespace, s.field, time.Now().Add(s.expire).Unix())
+			s.refresh()
 		}
 	}
 }
 
+func (s *Register) refresh() {
+	// must not come after Stop's delete
+	s.mux.Lock()
+	defer s.mux.Unlock()
+	if s.stopped {
+		return
+	}
+	s.client.HSet(context.Background(), s.serviceNamespace, s.field, time.Now().Add(s.expire).Unix())
+}
+
 // Stop .
 func (s *Register) Stop() error {
+	s.mux.Lock()
+	defer s.mux.Unlock()
+	if !s.stopped {
+		s.stopped = true
+		close(s.done)
+	}
 	ret := s.client.HDel(context.Background(), s.serviceNamespace, s.field)
 	err := ret.Err()
 	if err != nil {
-- 
2.43.0


From 73743742b690df001f660e2bf63c87f8c35cc18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:43 +0000
Subject: [PATCH 43/62] fix: keep the discovered services when redis cannot be
 asked

---
 extension/micro/redis/discovery.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extension/micro/redis/discovery.go b/extension/micro/redis/discovery.go
index 7520020..9d6472b 100644
--- a/extension/micro/redis/discovery.go
+++ b/extension/micro/redis/discovery.go
@@ -31,6 +31,7 @@ func (ds *Discovery) updateServices() error {
 	err := ret.Err()
 	if err != nil {
 		log.Error("Discovery updateServices failed: %v", err)
+		return err
 	}
 
 	cache := map[string]struct{}{}
-- 
2.43.0


From 573230073bd8a7f465c243c78ca0340c18d724af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:56 +0000
Subject: [PATCH 44/62] fix: renew the redis entry a dead predecessor left
 behind when registering

---
 extension/micro/redis/register.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/micro/redis/register.go b/extension/micro/redis/register.go
index 89513d2..bbdb7cf 100644
--- a/extension/micro/redis/register.go
+++ b/extension/micro/redis/register.go
@@ -86,10 +86,10 @@ func NewRegister(addr, serviceNamespace, serviceName, serviceAddr string, weight
 	})
 
 	field := fmt.Sprintf("%v/%v/%v", serviceName, serviceAddr, weight)
-	ret := client.HSetNX(context.Background(), serviceNamespace, field, time.Now().Add(expire).Unix())
+	ret := client.HSet(context.Background(), serviceNamespace, field, time.Now().Add(expire).Unix())
 	err := ret.Err()
 	if err != nil {
-		log.Error("NewRegister [%v, %v] client.HSetNX failed: %v", serviceNamespace, fmt.Sprintf("%v/%v", serviceName, serviceAddr), err)
+		log.Error("NewRegister [%v, %v] client.HSet failed: %v", serviceNamespace, fmt.Sprintf("%v/%v", serviceName, serviceAddr), err)
 		return nil, err
 	}
 
-- 
2.43.0


From 6ca8ba68fe28160e9ae1d7f2959606cfc392ee1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:29 +0000
Subject: [PATCH 45/62] fix: let the etcd discovery watch from the revision it
 listed the services at

---
 extension/micro/etcd/discovery.go | 34 +++++++++++++------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/extension/micro/etcd/discovery.go b/extension/micro/etcd/discovery.go
index 12349d9..54e71be 100644
--- a/extension/micro/etcd/discovery.go
+++ b/extension/micro/etcd/discovery.go
@@ -17,22 +17,10 @@ type Discovery struct {
 	serviceManager micro.ServiceManager
 }
 
-func (ds *Discovery) init(done chan struct{}) {
-	doneWatch := make(chan struct{})
-	go util.Safe(func() {
-		ds.lazyInit(done, doneWatch)
-	})
-	ds.watch(doneWatch)
-}
-
-func (ds *Discovery) lazyInit(done, doneWatch chan struct{}) {
-	defer close(done)
-
-	<-doneWatch
-	time.Sleep(time.Second / 100)
+func (ds *Discovery) init() (int64, error) {
 	resp, err := ds.client.Get(context.Background(), ds.prefix, clientv3.WithPrefix())
 	if err != nil {
-		return
+		return 0, err
 	}
 
 	for _, ev := range resp.Kvs {
@@ -40,11 +28,13 @@ func (ds *Discovery) lazyInit(done, doneWatch chan struct{}) {
 			ds.serviceManager.AddServiceNodes(string(ev.Key), string(ev.Value))
 		}
 	}
+
+	return resp.Header.Revision, nil
 }
 
-func (ds *Discovery) watch(doneWatch chan struct{}) {
-	rch := ds.client.Watch(context.Background(), ds.prefix, clientv3.WithPrefix())
-	close(doneWatch)
+func (ds *Discovery) watch(rev int64) {
+	// everything after the revision the services were listed at, in order
+	rch := ds.client.Watch(context.Background(), ds.prefix, clientv3.WithPrefix(), clientv3.WithRev(rev+1))
 	log.Info("Discovery watching: %s", ds.prefix)
 	for wresp := range rch {
 		for _, ev := range wresp.Events {
@@ -84,11 +74,15 @@ func NewDiscovery(endpoints []string, prefix string, serviceManager micro.Servic
 		serviceManager: serviceManager,
 	}
 
-	done := make(chan struct{})
+	rev, err := ds.init()
+	if err != nil {
+		log.Error("NewDiscovery [%v] init failed: %v", prefix, err)
+		client.Close()
+		return nil, err
+	}
 	go util.Safe(func() {
-		ds.init(done)
+		ds.watch(rev)
 	})
-	<-done
 
 	log.Info("NewDiscovery [%v] success", prefix)
 
-- 
2.43.0


From 6023ba3463492c9dc4672ecbe020474c5785d028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:29 +0000
Subject: [PATCH 46/62] fix: report an etcd key that is registered already

---
 extension/micro/etcd/register.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extension/micro/etcd/register.go b/extension/micro/etcd/register.go
index 5f08d49..59a2625 100644
--- a/extension/micro/etcd/register.go
+++ b/extension/micro/etcd/register.go
@@ -2,6 +2,7 @@ package etcd
 
 import (
 	"context"
+	"fmt"
 	"time"
 
 	"github.com/lesismal/arpc/log"
@@ -81,7 +82,7 @@ func NewRegister(endpoints []string, key string, value string, ttl int64) (*Regi
 	}
 	if len(resGet.Kvs) > 0 {
 		log.Error("NewRegister [%v, %v] failed: already exists", key, value)
-		return nil, err
+		return nil, fmt.Errorf("service %v already exists", key)
 	}
 
 	// step 3: set kv
-- 
2.43.0


From 178dbd1126a93dc2accf0513f3f94bdf7c30c76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:06 +0000
Subject: [PATCH 47/62] fix: let go of the etcd registration lock even when
 unlocking fails

---
 extension/micro/etcd/register.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/extension/micro/etcd/register.go b/extension/micro/etcd/register.go
index 59a2625..8f4099e 100644
--- a/extension/micro/etcd/register.go
+++ b/extension/micro/etcd/register.go
@@ -54,12 +54,22 @@ func NewRegister(endpoints []string, key string, value string, ttl int64) (*Regi
 		return nil, err
 	}
 
+	success := false
+	defer func() {
+		if !success {
+			client.Close()
+		}
+	}()
+
 	session, err := concurrency.NewSession(client)
 	if err != nil {
 		log.Error("NewRegister [%v, %v] concurrency.NewSession failed: %v", key, value, err)
 		return nil, err
 	}
 
+	// frees the lock even if Unlock fails
+	defer session.Close()
+
 	mux := concurrency.NewMutex(session, RegisterMutexPrefix)
 	err = mux.Lock(context.TODO())
 	if err != nil {
@@ -111,5 +121,6 @@ func NewRegister(endpoints []string, key string, value string, ttl int64) (*Regi
 
 	go util.Safe(register.listenTTL)
 
+	success = true
 	return register, nil
 }
-- 
2.43.0


From bc4d438c6f9123c005b4664c31a450db9f56246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:09 +0000
Subject: [PATCH 48/62] fix: do not let one quic peer hold up or end the
 accepting of others

---
 extension/protocol/quic/quic.go | 57 ++++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 8 deletions(-)

diff --git a/extension/protocol/quic/quic.go b/extension/protocol/quic/quic.go
index ceb19e1..9f18b9f 100644
--- a/extension/protocol/quic/quic.go
+++ b/extension/protocol/quic/quic.go
@@ -8,6 +8,7 @@ import (
 	"context"
 	"crypto/tls"
 	"net"
+	"sync"
 	"time"
 
 	quic "github.com/quic-go/quic-go"
@@ -16,21 +17,61 @@ import (
 // Listener wraps quick.Listener to net.Listener
 type Listener struct {
 	*quic.Listener
+
+	once   sync.Once
+	chConn chan net.Conn
+	chDone chan struct{}
+	err    error
 }
 
 // Accept waits for and returns the next connection to the listener.
 func (ln *Listener) Accept() (net.Conn, error) {
-	conn, err := ln.Listener.Accept(context.Background())
-	if err != nil {
-		return nil, err
+	ln.once.Do(func() {
+		ln.chConn = make(chan net.Conn)
+		ln.chDone = make(chan struct{})
+		go ln.acceptLoop()
+	})
+
+	select {
+	case <-ln.chDone:
+		return nil, ln.err
+	default:
+	}
+	select {
+	case conn := <-ln.chConn:
+		return conn, nil
+	case <-ln.chDone:
+		return nil, ln.err
+	}
+}
+
+func (ln *Listener) acceptLoop() {
+	ctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+	for {
+		conn, err := ln.Listener.Accept(context.Background())
+		if err != nil {
+			ln.err = err
+			close(ln.chDone)
+			return
+		}
+		// a peer that is slow to open its stream, or never does,
+		// must not hold up or fail the others
+		go ln.acceptStream(ctx, conn)
 	}
+}
 
-	stream, err := conn.AcceptStream(context.Background())
+func (ln *Listener) acceptStream(ctx context.Context, conn quic.Connection) {
+	stream, err := conn.AcceptStream(ctx)
 	if err != nil {
-		return nil, err
+		conn.CloseWithError(0, "")
+		return
+	}
+	select {
+	case ln.chConn <- &Conn{conn, stream}:
+	case <-ln.chDone:
+		conn.CloseWithError(0, "")
 	}
-
-	return &Conn{conn, stream}, err
 }
 
 // Conn wraps quick.Session to net.Conn
@@ -45,7 +86,7 @@ func Listen(addr string, config *tls.Config) (net.Listener, error) {
 	if err != nil {
 		return nil, err
 	}
-	return &Listener{ln}, err
+	return &Listener{Listener: ln}, err
 }
 
 // Dial wraps quic dial
-- 
2.43.0


From 5a7ab4a0519b06d3278bef97bb10923ec153d96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:34 +0000
Subject: [PATCH 49/62] fix: end blocked reads and writes when a quic
 connection is closed

---
 extension/protocol/quic/quic.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/extension/protocol/quic/quic.go b/extension/protocol/quic/quic.go
index 9f18b9f..98c81e1 100644
--- a/extension/protocol/quic/quic.go
+++ b/extension/protocol/quic/quic.go
@@ -80,6 +80,14 @@ type Conn struct {
 	quic.Stream
 }
 
+// Close closes the connection. Blocked Reads and Writes return,
+// data written before is still delivered.
+func (c *Conn) Close() error {
+	c.Stream.CancelRead(0)
+	c.Stream.SetWriteDeadline(time.Now())
+	return c.Stream.Close()
+}
+
 // Listen wraps quic listen
 func Listen(addr string, config *tls.Config) (net.Listener, error) {
 	ln, err := quic.ListenAddr(addr, config, nil)
-- 
2.43.0


From cf7d14de2dd678023ca4d2a75073c603e7ec9d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:28 +0000
Subject: [PATCH 50/62] fix: leave no quic connection behind when its stream
 cannot be opened

---
 extension/protocol/quic/quic.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extension/protocol/quic/quic.go b/extension/protocol/quic/quic.go
index 98c81e1..443898e 100644
--- a/extension/protocol/quic/quic.go
+++ b/extension/protocol/quic/quic.go
@@ -115,6 +115,7 @@ func Dial(addr string, tlsConf *tls.Config, quicConf *quic.Config, timeout time.
 
 	stream, err := session.OpenStreamSync(ctx)
 	if err != nil {
+		session.CloseWithError(0, "")
 		return nil, err
 	}
 
-- 
2.43.0


From 205d02794b70ae7d0a2cd26ba52f5d5fbaf886ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:19 +0000
Subject: [PATCH 51/62] fix: send pings and pongs with a fresh write deadline

The write deadline of an earlier message stays set on the connection. Written
past it, a ping or pong fails at once and is lost, so a connection with a write
timeout was not kept alive.
---
 client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 4acd4c2..479847f 100644
--- a/client.go
+++ b/client.go
@@ -112,12 +112,12 @@ func (c *Client) Delete(key interface{}) {
 
 // Ping .
 func (c *Client) Ping() {
-	c.Conn.Write(PingMessage.Buffer)
+	c.Handler.Send(c.Conn, PingMessage.Buffer)
 }
 
 // Pong .
 func (c *Client) Pong() {
-	c.Conn.Write(PongMessage.Buffer)
+	c.Handler.Send(c.Conn, PongMessage.Buffer)
 }
 
 // Ping .
-- 
2.43.0


From 91da0e2c8ebe37ec9ebda558c04708c7cacfb53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:06 +0000
Subject: [PATCH 52/62] fix: Stop and Restart end a receive loop that waits for
 an unread stream

---
 client.go | 19 +++++++++++++++++++
 stream.go |  1 +
 2 files changed, 20 insertions(+)

diff --git a/client.go b/client.go
index 479847f..7bed201 100644
--- a/client.go
+++ b/client.go
@@ -65,6 +65,7 @@ type Client struct {
 
 	chSend  chan *Message
 	chClose chan util.Empty
+	chStop  chan util.Empty
 
 	onStop func(*Client)
 
@@ -492,6 +493,7 @@ func (c *Client) PushMsg(msg *Message, timeout time.Duration) error {
 func (c *Client) Restart() error {
 	c.mux.Lock()
 	c.running = false
+	c.notifyStop()
 	oldConn, oldClose := c.Conn, c.chClose
 	c.mux.Unlock()
 
@@ -511,6 +513,7 @@ func (c *Client) Restart() error {
 
 		c.chSend = make(chan *Message, c.Handler.SendQueueSize())
 		c.chClose = make(chan util.Empty)
+		c.chStop = make(chan util.Empty)
 		c.sessionMap = make(map[uint64]*rpcSession)
 		c.asyncHandlerMap = make(map[uint64]*asyncHandler)
 		c.streamLocalMap = make(map[uint64]*Stream)
@@ -533,12 +536,26 @@ func (c *Client) Restart() error {
 func (c *Client) Stop() {
 	c.mux.Lock()
 	c.running = false
+	c.notifyStop()
 	conn := c.Conn
 	c.mux.Unlock()
 
 	conn.Close()
 }
 
+// notifyStop ends the waiting of the receive loop for a stream that nobody
+// reads, must be called with c.mux locked.
+func (c *Client) notifyStop() {
+	if c.chStop == nil {
+		return
+	}
+	select {
+	case <-c.chStop:
+	default:
+		close(c.chStop)
+	}
+}
+
 func (c *Client) closeAndClean() {
 	c.mux.Lock()
 	c.running = false
@@ -1034,6 +1051,7 @@ func newClientWithConn(conn net.Conn, codec codec.Codec, handler Handler, onStop
 		Handler:         handler,
 		Head:            make([]byte, 4),
 		chClose:         make(chan util.Empty),
+		chStop:          make(chan util.Empty),
 		sessionMap:      make(map[uint64]*rpcSession),
 		asyncHandlerMap: make(map[uint64]*asyncHandler),
 		streamLocalMap:  make(map[uint64]*Stream),
@@ -1074,6 +1092,7 @@ func NewClient(dialer DialerFunc, args ...interface{}) (*Client, error) {
 		Dialer:          dialer,
 		Head:            make([]byte, 4),
 		chClose:         make(chan util.Empty),
+		chStop:          make(chan util.Empty),
 		sessionMap:      make(map[uint64]*rpcSession),
 		asyncHandlerMap: make(map[uint64]*asyncHandler),
 		streamLocalMap:  make(map[uint64]*Stream),
diff --git a/stream.go b/stream.go
index 82e3614..4d5d699 100644
--- a/stream.go
+++ b/stream.go
@@ -35,6 +35,7 @@ func (s *Stream) onMessage(msg *Message) {
 	if msg != nil {
 		select {
 		case s.chData <- msg:
+		case <-s.cli.chStop:
 		case <-s.cli.chClose:
 		}
 	}
-- 
2.43.0


From c0e7a1d72957174dc88e75a68c919d0258d12a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:44 +0000
Subject: [PATCH 53/62] fix: javascript client calls end when their timeout has
 passed

---
 extension/jsclient/arpc.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index 46b28c0..3787ff9 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -103,7 +103,8 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
         if (typeof (cb) == 'function') {
             session.resolve = cb;
         }
-        this.sessionMap[this.seqNum] = session;
+        var seq = this.seqNum;
+        this.sessionMap[seq] = session;
 
         if (timeout > 0) {
             session.timer = setTimeout(function () {
-- 
2.43.0


From dfbc887ece3194194fec82f3721a524e9d60b903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:44 +0000
Subject: [PATCH 54/62] fix: javascript client decodes sequence numbers above
 255 and in batches

---
 extension/jsclient/arpc.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index 3787ff9..6a1c598 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -243,8 +243,8 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                     bodyArr = event.data.slice(offset + 16 + methodLen, offset + 16 + methodLen + bodyLen);
                 }
                 var seq = 0;
-                for (var i = offset + _HeaderIndexSeqBegin; i < offset + _HeaderIndexSeqBegin + 4; i++) {
-                    seq |= headArr[i] << (i - offset - _HeaderIndexSeqBegin);
+                for (var i = _HeaderIndexSeqBegin; i < _HeaderIndexSeqBegin + 4; i++) {
+                    seq |= headArr[i] << ((i - _HeaderIndexSeqBegin) * 8);
                 }
 
                 switch (cmd) {
-- 
2.43.0


From cbc3d794e392782385bda64d4ce9a6a494e7daf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:44 +0000
Subject: [PATCH 55/62] fix: javascript client takes exactly the data of each
 message

---
 extension/jsclient/arpc.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index 6a1c598..bcbb15e 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -238,9 +238,9 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                 var isAsync = headArr[_HeaderIndexFlag] & _HeaderFlagMaskAsync;
                 var methodLen = headArr[_HeaderIndexMethodLen];
                 var method = new TextDecoder("utf-8").decode(event.data.slice(offset + 16, offset + 16 + methodLen));
-                var bodyArr;
+                var bodyArr = undefined;
                 if (bodyLen > methodLen) {
-                    bodyArr = event.data.slice(offset + 16 + methodLen, offset + 16 + methodLen + bodyLen);
+                    bodyArr = event.data.slice(offset + 16 + methodLen, offset + 16 + bodyLen);
                 }
                 var seq = 0;
                 for (var i = _HeaderIndexSeqBegin; i < _HeaderIndexSeqBegin + 4; i++) {
-- 
2.43.0


From e4b84afd745183510050733286018dbc91557afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:32 +0000
Subject: [PATCH 56/62] fix: javascript client handles every message of a batch

---
 extension/jsclient/arpc.js | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index bcbb15e..5fe8422 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -233,6 +233,7 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                 for (var i = _HeaderIndexBodyLenBegin; i < _HeaderIndexBodyLenEnd; i++) {
                     bodyLen |= (headArr[i] << ((i - _HeaderIndexBodyLenBegin) * 8));
                 }
+                bodyLen = bodyLen >>> 0;
                 var cmd = headArr[_HeaderIndexCmd];
                 var isError = headArr[_HeaderIndexFlag] & _HeaderFlagMaskError;
                 var isAsync = headArr[_HeaderIndexFlag] & _HeaderFlagMaskAsync;
@@ -246,18 +247,19 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                 for (var i = _HeaderIndexSeqBegin; i < _HeaderIndexSeqBegin + 4; i++) {
                     seq |= headArr[i] << ((i - _HeaderIndexSeqBegin) * 8);
                 }
+                offset += 16 + bodyLen;
 
                 switch (cmd) {
                     case _CmdPing:
                         client.pong();
-                        return;
+                        continue;
                     case _CmdPong:
-                        return;
+                        continue;
                 }
 
                 if (methodLen == 0) {
                     console.log("[ArpcClient] onMessage: invalid request message with 0 method length, dropped");
-                    return
+                    continue;
                 }
 
                 switch (cmd) {
@@ -269,7 +271,6 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                             handler.h(new Context(client, headArr, bodyArr, method, data));
                         } else {
                             console.log("[ArpcClient] onMessage: invalid method: [%s], no handler", method);
-                            return
                         }
                         break;
                     case _CmdResponse:
@@ -282,18 +283,16 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                             var data = client.codec.Unmarshal(bodyArr);
                             if (isError) {
                                 session.resolve({ data: null, err: data });
-                                return;
+                                break;
                             }
                             session.resolve({ data: data, err: null });
                         } else {
                             console.log("[ArpcClient] onMessage: session [%d] missing", seq);
-                            return;
                         }
                         break;
                     default:
                         break;
                 }
-                offset += 16 + bodyLen;
             }
         } catch (e) {
             console.log("[ArpcClient] onMessage: panic:", e);
-- 
2.43.0


From 97f6694761cb8420e6a4394596c562bf10b8fc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:32 +0000
Subject: [PATCH 57/62] fix: javascript client settles a call once when the
 connection closes

---
 extension/jsclient/arpc.js | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index 5fe8422..e89546c 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -323,13 +323,18 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
         };
         client.ws.onclose = function (event) {
             console.log("[ArpcClient] websocket onclose");
+            if (client.state != _SOCK_STATE_CLOSED) {
+                client.state = _SOCK_STATE_CONNECTING;
+            }
             if (client.onClose) {
                 client.onClose(client);
             }
             client.ws.close();
 
-            for (var k in client.sessionMap) {
-                var session = client.sessionMap[k];
+            var sessions = client.sessionMap;
+            client.sessionMap = {};
+            for (var k in sessions) {
+                var session = sessions[k];
                 if (session) {
                     if (session.timer) {
                         clearTimeout(session.timer);
@@ -341,7 +346,6 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
             if (client.state == _SOCK_STATE_CLOSED) {
                 return;
             }
-            client.state = _SOCK_STATE_CONNECTING;
             client.init();
         };
         client.ws.onerror = function (event) {
-- 
2.43.0


From ef602a5d331b0cd6bd18d902e41a4bda820f5a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:32 +0000
Subject: [PATCH 58/62] fix: a callback that throws does not stop the
 javascript client

---
 extension/jsclient/arpc.js | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index e89546c..63f249b 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -69,6 +69,14 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
 
     this.state = _SOCK_STATE_CONNECTING;
 
+    this._safe = function (f) {
+        try {
+            f();
+        } catch (e) {
+            console.log("[ArpcClient] callback panic:", e);
+        }
+    }
+
     this.handle = function (method, h) {
         if (this.handlers[method]) {
             throw ("handler for [${method}] exists");
@@ -268,7 +276,7 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                         var handler = client.handlers[method]
                         if (handler) {
                             var data = client.codec.Unmarshal(bodyArr);
-                            handler.h(new Context(client, headArr, bodyArr, method, data));
+                            client._safe(function () { handler.h(new Context(client, headArr, bodyArr, method, data)); });
                         } else {
                             console.log("[ArpcClient] onMessage: invalid method: [%s], no handler", method);
                         }
@@ -282,10 +290,10 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                             delete (client.sessionMap[seq]);
                             var data = client.codec.Unmarshal(bodyArr);
                             if (isError) {
-                                session.resolve({ data: null, err: data });
+                                client._safe(function () { session.resolve({ data: null, err: data }); });
                                 break;
                             }
-                            session.resolve({ data: data, err: null });
+                            client._safe(function () { session.resolve({ data: data, err: null }); });
                         } else {
                             console.log("[ArpcClient] onMessage: session [%d] missing", seq);
                         }
@@ -327,7 +335,7 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                 client.state = _SOCK_STATE_CONNECTING;
             }
             if (client.onClose) {
-                client.onClose(client);
+                client._safe(function () { client.onClose(client); });
             }
             client.ws.close();
 
@@ -339,7 +347,7 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                     if (session.timer) {
                         clearTimeout(session.timer);
                     }
-                    session.resolve({ data: null, err: _ErrDisconnected });
+                    client._safe(function () { session.resolve({ data: null, err: _ErrDisconnected }); });
                 }
             }
             // shutdown
-- 
2.43.0


From ba186c2afac1e45d0e385608c10a682c85a305be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:32 +0000
Subject: [PATCH 59/62] fix: javascript client counts method names in bytes

---
 extension/jsclient/arpc.js | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index 63f249b..2c6cbb4 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -163,16 +163,17 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
 
     this.write = function (cmd, method, arg, cb, isHttp) {
         var buffer;
+        var methodBuffer = new TextEncoder("utf-8").encode(method);
         if (arg) {
             var data = this.codec.Marshal(arg);
             if (data) {
-                buffer = new Uint8Array(16 + method.length + data.length);
+                buffer = new Uint8Array(16 + methodBuffer.length + data.length);
                 for (var i = 0; i < data.length; i++) {
-                    buffer[16 + method.length + i] = data[i];
+                    buffer[16 + methodBuffer.length + i] = data[i];
                 }
             }
         } else {
-            buffer = new Uint8Array(16 + method.length);
+            buffer = new Uint8Array(16 + methodBuffer.length);
         }
 
         var bodyLen = buffer.length - 16;
@@ -180,12 +181,11 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
             buffer[i] = (bodyLen >> ((i - _HeaderIndexBodyLenBegin) * 8)) & 0xFF;
         }
         buffer[_HeaderIndexCmd] = cmd & 0xFF;
-        buffer[_HeaderIndexMethodLen] = method.length & 0xFF;
+        buffer[_HeaderIndexMethodLen] = methodBuffer.length & 0xFF;
         for (var i = _HeaderIndexSeqBegin; i < _HeaderIndexSeqBegin + 4; i++) {
             buffer[i] = (this.seqNum >> ((i - _HeaderIndexSeqBegin) * 8)) & 0xFF;
         }
         this.seqNum++;
-        var methodBuffer = new TextEncoder("utf-8").encode(method);
         for (var i = 0; i < methodBuffer.length; i++) {
             buffer[16 + i] = methodBuffer[i];
         }
-- 
2.43.0


From 3a82fbdc18d1979e0d164574425f30d21651a943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:32 +0000
Subject: [PATCH 60/62] fix: javascript client sends 0 and false

---
 extension/jsclient/arpc.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index 2c6cbb4..0ceec86 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -164,7 +164,7 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
     this.write = function (cmd, method, arg, cb, isHttp) {
         var buffer;
         var methodBuffer = new TextEncoder("utf-8").encode(method);
-        if (arg) {
+        if (arg !== undefined && arg !== null) {
             var data = this.codec.Marshal(arg);
             if (data) {
                 buffer = new Uint8Array(16 + methodBuffer.length + data.length);
-- 
2.43.0


From cdd232494d579c522244db225e9e6defb71d1433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:32 +0000
Subject: [PATCH 61/62] fix: javascript client calls over http

---
 extension/jsclient/arpc.js | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index 0ceec86..e68c9d4 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -85,7 +85,7 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
     }
 
     this.callHttp = function (method, request, timeout, cb) {
-        this.call(method, request, timeout, cb, true);
+        return this.call(method, request, timeout, cb, true);
     }
     this.call = function (method, request, timeout, cb, isHttp) {
         if (this.state == _SOCK_STATE_CLOSED) {
@@ -120,12 +120,20 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                 session.resolve({ data: null, err: "timeout" });
             }, timeout);
         }
-        this.write(_CmdRequest, method, request, this._onMessage, isHttp);
+        this.write(_CmdRequest, method, request, function (ret) {
+            if (!ret.err) {
+                client._onMessage(ret);
+            } else if (client.sessionMap[seq] === session) {
+                clearTimeout(session.timer);
+                delete (client.sessionMap[seq]);
+                session.resolve({ data: null, err: ret.err });
+            }
+        }, isHttp);
         return p;
     }
 
     this.notifyHttp = function (method, notify) {
-        this.notify(method, notify, true);
+        return this.notify(method, notify, true);
     }
     this.notify = function (method, notify, isHttp) {
         if (this.state == _SOCK_STATE_CLOSED) {
@@ -215,13 +223,14 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                 }
             }
             let r = new XMLHttpRequest();
-            r.open(this.httpMethod, this.httpUrl, true);
+            r.open(client.httpMethod, client.httpUrl, true);
+            r.responseType = "arraybuffer";
             r.onreadystatechange = function () {
                 if (r.readyState != 4) {
                     return;
                 }
                 if (r.status != 200) {
-                    resolve({ code: r.status, data: null, err: `request "${this.httpUrl}" failed with status code ${r.status} ` });
+                    resolve({ code: r.status, data: null, err: `request "${client.httpUrl}" failed with status code ${r.status} ` });
                     return;
                 }
                 // r.responseText
-- 
2.43.0


From 60744f8a6a92fd49f5f550c2172dcc41fc8aa202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:28 +0000
Subject: [PATCH 62/62] fix: javascript client handles methods named like
 object members

---
 extension/jsclient/arpc.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index e68c9d4..3cc3afa 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -65,7 +65,7 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
     this.seqNum = 0;
     this.sessionMap = {};
 
-    this.handlers = {};
+    this.handlers = Object.create(null);
 
     this.state = _SOCK_STATE_CONNECTING;
 
-- 
2.43.0

