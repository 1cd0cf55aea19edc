From 73dcacf26a1bb3a47a661a64e37243308976fc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:43 +0000
Subject: [PATCH 01/60] fix: complete the pending response when the first frame
 of the answer is a reset

A reset that arrived before any other frame of the answer was swallowed by the
frame reader, so GetFrame of the reset (panicked, unfinished) request blocked
until the connection ended.
---
 clientconn.go  | 4 ++++
 framereader.go | 4 ++++
 serveconn.go   | 4 ++++
 stream.go      | 5 ++++-
 4 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/clientconn.go b/clientconn.go
index 184b82d..b896598 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -511,6 +511,10 @@ func (conn *Connection) readFrames() {
 				// just ignore it
 				return
 			}
+			if frame.Flags.IsRst() {
+				// nobody is waiting for it
+				continue
+			}
 			if conn.conf.Handler != nil {
 				if !frame.FromServer() {
 					l.Error("clientconn get RequestFrame.RequestID not even")
diff --git a/framereader.go b/framereader.go
index 3240649..21490c4 100644
--- a/framereader.go
+++ b/framereader.go
@@ -55,6 +55,10 @@ start:
 		s := cs.GetStream(requestID, flags)
 		if s != nil {
 			s.ResetByPeer()
+			if s.TryBind(f) {
+				// reset before any other frame, whoever waits for the first frame should know
+				return f, nil
+			}
 		}
 
 		goto start
diff --git a/serveconn.go b/serveconn.go
index 0a7f6d5..ec553c7 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -410,6 +410,10 @@ func (sc *serveconn) readFrames() (err error) {
 				ci.Unlock()
 			}
 		}
+		if req.Flags.IsRst() {
+			// nobody is waiting for it
+			continue
+		}
 
 		if req.Flags.IsNonBlock() {
 			select {
diff --git a/stream.go b/stream.go
index 20c3e96..dac8c41 100644
--- a/stream.go
+++ b/stream.go
@@ -110,7 +110,10 @@ func (s *Stream) TryBind(firstFrame *Frame) bool {
 	}
 	s.binded = true
 
-	s.closePeerIfNeeded(firstFrame.Flags)
+	// ResetByPeer already did it for rst frame
+	if !firstFrame.Flags.IsRst() {
+		s.closePeerIfNeeded(firstFrame.Flags)
+	}
 
 	firstFrame.Stream = s
 
-- 
2.43.0


From 6b8ec7caf1d36433ce7b81166272edb0862040bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:02 +0000
Subject: [PATCH 02/60] fix: drop the payload of an unfinished or refused frame

Bytes a handler had put into a frame it never finished (it returned, panicked or
EndWrite refused it) stayed in the shared writer and were sent as a prefix of
the next frame, of another request or even another connection.
---
 framewriter.go | 10 ++++++++++
 serveconn.go   |  4 +++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/framewriter.go b/framewriter.go
index 94d7390..f651468 100644
--- a/framewriter.go
+++ b/framewriter.go
@@ -38,9 +38,16 @@ func newFrameWriter(fbw frameBytesWriter) *defaultFrameWriter {
 	fw := fwPool.Get().(*defaultFrameWriter)
 	fw.fbw = fbw
 	fw.checkExist = false
+	fw.resp = nil
+	fw.reset()
 	return fw
 }
 
+// reset throws away the payload of an unfinished frame
+func (dfw *defaultFrameWriter) reset() {
+	dfw.wbuf = dfw.wbuf[:headerSize]
+}
+
 func (dfw *defaultFrameWriter) Finalize() {
 	dfw.fbw = nil
 	dfw.resp = nil
@@ -96,6 +103,8 @@ var (
 // EndWrite finishes write frame
 func (dfw *defaultFrameWriter) EndWrite() (err error) {
 
+	defer dfw.reset()
+
 	payloadLength := len(dfw.Payload())
 	if payloadLength == 0 {
 		dfw.SetFlags(dfw.Flags().ToNonCodec())
@@ -154,6 +163,7 @@ func (dfw *defaultFrameWriter) StreamEndWrite(end bool) error {
 }
 
 func (dfw *defaultFrameWriter) ResetFrame(requestID uint64, reason Cmd) error {
+	dfw.reset()
 	dfw.StartWrite(requestID, reason, StreamRstFlag)
 	return dfw.EndWrite()
 }
diff --git a/serveconn.go b/serveconn.go
index ec553c7..196db47 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -172,7 +172,8 @@ func (sc *serveconn) serve() {
 		}
 		sc.reader = newFrameReaderWithMFS(ctx, sc.rwc, binding.DefaultReadTimeout, binding.Codec, maxFrameSize)
 	}
-	sc.writer = newFrameWriter(sc) // only used by blocking mode
+	w := newFrameWriter(sc)
+	sc.writer = w // only used by blocking mode
 
 	sc.inflight = 1
 	util.GoFunc(&sc.wg, func() {
@@ -202,6 +203,7 @@ func (sc *serveconn) serve() {
 					defer sc.handleRequestPanic(res.f, time.Now(), inflightStreamsPtr)
 					handler.ServeQRPC(sc.writer, res.f)
 				}()
+				w.reset()
 				res.readMore()
 			} else {
 				if checkInflightStreams {
-- 
2.43.0


From 719aebf2bf979207b9aceadfd57360374d31ed9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:18 +0000
Subject: [PATCH 03/60] fix: a handler that leaves its request stream unread no
 longer wedges the connection

The frame reader waited forever to hand over the next frame of a stream whose
handler had already returned, so nothing else on the connection was read. The
context of a request now ends with its handler, as documented, and frames that
come after that are dropped.
---
 clientconn.go |  2 ++
 frame.go      |  2 +-
 serveconn.go  |  2 ++
 stream.go     | 12 ++++++++----
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index b896598..099cfe0 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -559,6 +559,8 @@ func (conn *Connection) handleRequestPanic(frame *RequestFrame, begin time.Time)
 	}
 
 	s := frame.Stream
+	// the context ends with the handler, so that frames it didn't read won't block the connection
+	s.reset()
 	if !s.IsSelfClosed() {
 		// send error frame
 		w := conn.getWriter()
diff --git a/frame.go b/frame.go
index 528bc3b..681279d 100644
--- a/frame.go
+++ b/frame.go
@@ -28,7 +28,7 @@ func (r *Frame) FrameCh() <-chan *Frame {
 //
 // For incoming server requests, the context is canceled when the
 // client's connection closes, the request is canceled ,
-// or when the ServeQRPC method returns. (TODO)
+// or when the ServeQRPC method returns.
 func (r *Frame) Context() context.Context {
 	return r.Stream.ctx
 }
diff --git a/serveconn.go b/serveconn.go
index 196db47..a705f94 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -267,6 +267,8 @@ func (sc *serveconn) handleRequestPanic(frame *RequestFrame, begin time.Time, in
 	}
 
 	s := frame.Stream
+	// the context ends with the handler, so that frames it didn't read won't block the connection
+	s.reset()
 	if !s.IsSelfClosed() {
 		// send error frame
 		writer := sc.GetWriter()
diff --git a/stream.go b/stream.go
index dac8c41..6bcbcb0 100644
--- a/stream.go
+++ b/stream.go
@@ -137,12 +137,16 @@ func (s *Stream) AddInFrame(frame *Frame) bool {
 	}
 
 	select {
-	case s.frameCh <- frame:
-		s.closePeerIfNeeded(frame.Flags)
-		return true
 	case <-s.ctx.Done():
-		return false
+		// nobody wants the rest of the stream, but still need to see the end
+	default:
+		select {
+		case s.frameCh <- frame:
+		case <-s.ctx.Done():
+		}
 	}
+	s.closePeerIfNeeded(frame.Flags)
+	return true
 }
 
 func (s *Stream) closePeerIfNeeded(flags FrameFlag) {
-- 
2.43.0


From 34a53527f7751168cbfb79ca08e9812a46d9d75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:39 +0000
Subject: [PATCH 04/60] fix: reader no longer waits forever on a closed
 connection for a stream to end

A frame for a stream the peer had already ended made the reader wait for this
side to end it, even after the connection was closed, so Wait, OnClose and
Shutdown hung. Once the stream did end the frame was lost; it now starts a new
stream as intended.
---
 framereader.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/framereader.go b/framereader.go
index 21490c4..404e166 100644
--- a/framereader.go
+++ b/framereader.go
@@ -63,6 +63,7 @@ start:
 
 		goto start
 	}
+again:
 	s, loaded := cs.CreateOrGetStream(dfr.ctx, requestID, flags)
 	if !loaded {
 		l.Debug("defaultFrameReader new stream", zap.Uintptr("cs", uintptr(unsafe.Pointer(cs))), zap.Uint64("requestID", requestID), zap.Uint8("flags", uint8(flags)), zap.Uint32("cmd", uint32(f.Cmd)))
@@ -73,7 +74,13 @@ start:
 	}
 	ok := s.AddInFrame(f)
 	if !ok {
-		<-s.Done()
+		// the id is used again before the previous stream is over
+		select {
+		case <-s.Done():
+			goto again
+		case <-dfr.ctx.Done():
+			return nil, dfr.ctx.Err()
+		}
 	}
 
 	goto start
-- 
2.43.0


From 3c9c38131bd2e4be619ab4d099e006a6a0f73d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:41 +0000
Subject: [PATCH 05/60] fix: a closed reconnecting connection stops dialing

After Close it kept dialing, connecting and disconnecting in a busy loop, as the
close was only noticed after a failed dial; and its reader could use a socket
that was closed and cleared at the same time.
---
 clientconn.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index 099cfe0..048f85f 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -264,6 +264,12 @@ func (conn *Connection) connect() error {
 
 	count := 0
 	for {
+		select {
+		case <-conn.ctx.Done():
+			return conn.ctx.Err()
+		default:
+		}
+
 		addr := conn.addrs[conn.idx%len(conn.addrs)]
 		conn.idx++
 		count++
@@ -292,13 +298,10 @@ func (conn *Connection) connect() error {
 		}
 
 		if count >= len(conn.addrs) {
-			time.Sleep(reconnectIntervalAfter1stRound)
-		}
-
-		select {
-		case <-conn.ctx.Done():
-			return conn.ctx.Err()
-		default:
+			select {
+			case <-time.After(reconnectIntervalAfter1stRound):
+			case <-conn.ctx.Done():
+			}
 		}
 	}
 
@@ -478,11 +481,14 @@ func (conn *Connection) readFrames() {
 
 	defer conn.loopCancelCtx()
 
+	conn.mu.Lock()
+	rwc := conn.rwc
+	conn.mu.Unlock()
 	// in case closeRWC is already called
-	if conn.rwc == nil {
+	if rwc == nil {
 		return
 	}
-	reader := newFrameReader(*conn.loopCtx, conn.rwc, conn.conf.ReadTimeout, conn.conf.Codec)
+	reader := newFrameReader(*conn.loopCtx, rwc, conn.conf.ReadTimeout, conn.conf.Codec)
 	defer reader.Finalize()
 
 	for {
-- 
2.43.0


From f863162fb393ee9aa107da524636e424d6ab7497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:13 +0000
Subject: [PATCH 06/60] fix: writes of a reconnecting connection return when it
 is lost or closed

A write that was already queued waited for the next connection only: forever if
the connection had been closed, and, if it came from a handler, forever too, as
the next connection is not opened before the handlers of the last one returned.
---
 clientconn.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/clientconn.go b/clientconn.go
index 048f85f..a3800ab 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -30,6 +30,7 @@ type Connection struct {
 	subscriber SubFunc // there can be only one subscriber because of streamed frames
 
 	writeFrameCh chan *writeFrameRequest // it's never closed so won't panic
+	loopDone     chan struct{}           // closed when nobody will ever process writeFrameCh
 
 	idx int // modified in connect
 
@@ -190,6 +191,7 @@ func newConnection(rwc net.Conn, addr []string, conf ConnectionConfig, f SubFunc
 	c := &Connection{
 		rwc: rwc, addrs: addr, conf: conf, subscriber: f,
 		writeFrameCh: make(chan *writeFrameRequest, conf.WriteFrameChSize), respes: make(map[uint64]*response),
+		loopDone:       make(chan struct{}),
 		cachedRequests: make([]*writeFrameRequest, 0, conf.WriteFrameChSize),
 		cachedBuffs:    make(net.Buffers, 0, conf.WriteFrameChSize),
 		cs:             &ConnStreams{}, ctx: ctx, cancelCtx: cancelCtx,
@@ -211,6 +213,7 @@ func newConnection(rwc net.Conn, addr []string, conf ConnectionConfig, f SubFunc
 }
 
 func (conn *Connection) loop() {
+	defer close(conn.loopDone)
 	for {
 		if err := conn.connect(); err != nil {
 			// connx.Close() was called
@@ -237,7 +240,7 @@ func (conn *Connection) loop() {
 			conn.conf.LifecycleCallbacks.OnDisconnect(conn)
 		}
 
-		conn.loopWG.Wait()
+		conn.waitLoopWG()
 		conn.endLoop()
 
 		// close & quit if not reconnect; otherwise automatically reconnect
@@ -248,6 +251,29 @@ func (conn *Connection) loop() {
 	}
 }
 
+// waitLoopWG waits for the goroutines of current rwc
+func (conn *Connection) waitLoopWG() {
+	if !conn.reconnect {
+		conn.loopWG.Wait()
+		return
+	}
+
+	done := make(chan struct{})
+	go func() {
+		conn.loopWG.Wait()
+		close(done)
+	}()
+	for {
+		select {
+		case wfr := <-conn.writeFrameCh:
+			// may come from one of the goroutines being waited for
+			wfr.result <- ErrConnAlreadyClosed
+		case <-done:
+			return
+		}
+	}
+}
+
 func (conn *Connection) atomicLoopCtx() context.Context {
 	cp := (*context.Context)(atomic.LoadPointer((*unsafe.Pointer)(unsafe.Pointer(&conn.loopCtx))))
 	if cp == nil {
@@ -406,6 +432,8 @@ func (conn *Connection) writeFrameBytes(dfw *defaultFrameWriter) error {
 			wfr.dfw = nil
 			wfrPool.Put(wfr)
 			return err
+		case <-conn.loopDone:
+			return ErrConnAlreadyClosed
 		}
 	} else {
 		select {
-- 
2.43.0


From 1b141151b0b92eb121d9ebb207ac97bff25e52e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:21 +0000
Subject: [PATCH 07/60] fix: reconnecting connections honour TLSConf

They dialed without it, so frames went out in clear text.
---
 clientconn.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index a3800ab..5deff04 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -165,9 +165,9 @@ func NewConnectionWithReconnect(addrs []string, conf ConnectionConfig, f SubFunc
 		err error
 	)
 	if conf.OverlayNetwork != nil {
-		rwc, err = conf.OverlayNetwork(copy[len(copy)-1], DialConfig{DialTimeout: conf.DialTimeout, WBufSize: conf.WBufSize, RBufSize: conf.RBufSize})
+		rwc, err = conf.OverlayNetwork(copy[len(copy)-1], DialConfig{DialTimeout: conf.DialTimeout, WBufSize: conf.WBufSize, RBufSize: conf.RBufSize, TLSConf: conf.TLSConf})
 	} else {
-		rwc, err = dialTCP(copy[len(copy)-1], DialConfig{DialTimeout: conf.DialTimeout, WBufSize: conf.WBufSize, RBufSize: conf.RBufSize})
+		rwc, err = dialTCP(copy[len(copy)-1], DialConfig{DialTimeout: conf.DialTimeout, WBufSize: conf.WBufSize, RBufSize: conf.RBufSize, TLSConf: conf.TLSConf})
 	}
 	if err != nil {
 		l.Error("initconnect DialTimeout", zap.Error(err))
@@ -305,9 +305,9 @@ func (conn *Connection) connect() error {
 			err error
 		)
 		if conn.conf.OverlayNetwork != nil {
-			rwc, err = conn.conf.OverlayNetwork(addr, DialConfig{DialTimeout: conn.conf.DialTimeout, WBufSize: conn.conf.WBufSize, RBufSize: conn.conf.RBufSize})
+			rwc, err = conn.conf.OverlayNetwork(addr, DialConfig{DialTimeout: conn.conf.DialTimeout, WBufSize: conn.conf.WBufSize, RBufSize: conn.conf.RBufSize, TLSConf: conn.conf.TLSConf})
 		} else {
-			rwc, err = dialTCP(addr, DialConfig{DialTimeout: conn.conf.DialTimeout, WBufSize: conn.conf.WBufSize, RBufSize: conn.conf.RBufSize})
+			rwc, err = dialTCP(addr, DialConfig{DialTimeout: conn.conf.DialTimeout, WBufSize: conn.conf.WBufSize, RBufSize: conn.conf.RBufSize, TLSConf: conn.conf.TLSConf})
 		}
 
 		if err != nil {
-- 
2.43.0


From ff5216bf7a2d23f508600b96b5723a5af1a14f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:45 +0000
Subject: [PATCH 08/60] fix: NewReusedConnection honours TLSConf

It was ignored, so frames went out in clear text.
---
 clientconn_reuse.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/clientconn_reuse.go b/clientconn_reuse.go
index 557ab0d..e5484e8 100644
--- a/clientconn_reuse.go
+++ b/clientconn_reuse.go
@@ -3,6 +3,7 @@
 package qrpc
 
 import (
+	"crypto/tls"
 	"net"
 
 	reuse "github.com/zhiqiangxu/go-reuseport"
@@ -17,6 +18,16 @@ func NewReusedConnection(addr string, conf ConnectionConfig, f SubFunc) (*Connec
 		return nil, err
 	}
 
+	if conf.TLSConf != nil {
+		tlsConn := tls.Client(rwc, conf.TLSConf)
+		err = tlsConn.Handshake()
+		if err != nil {
+			rwc.Close()
+			return nil, err
+		}
+		rwc = tlsConn
+	}
+
 	return newConnection(rwc, []string{addr}, conf, f, false), nil
 }
 
-- 
2.43.0


From d1b016653ee37657eceb63e8b74634ea57af892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:47 +0000
Subject: [PATCH 09/60] fix: writing to a stream that is already over is
 refused

A second final frame of a handler, or a batched client stream frame, for a
stream both sides had ended silently created a new stream and went out on the
wire.
---
 clientconn.go | 17 ++++++++++++++---
 serveconn.go  |  4 +++-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index 5deff04..0dc0a3a 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -561,6 +561,7 @@ func (conn *Connection) readFrames() {
 				util.GoFunc(conn.loopWG, func() {
 					defer conn.handleRequestPanic((*RequestFrame)(frame), time.Now())
 					w := conn.getWriter()
+					w.checkExist = true
 					conn.conf.Handler.ServeQRPC(w, (*RequestFrame)(frame))
 					w.Finalize()
 				})
@@ -716,9 +717,19 @@ firstFrame:
 					break
 				}
 			} else if !flags.IsPush() { // skip stream logic if PushFlag set
-				s, loaded := conn.cs.CreateOrGetStream(*conn.loopCtx, requestID, flags)
-				if !loaded {
-					l.Debug("serveconn new stream", zap.Uint64("requestID", requestID), zap.Uint8("flags", uint8(flags)), zap.Uint32("cmd", uint32(dfw.Cmd())))
+				var s *Stream
+				if dfw.checkExist {
+					s = conn.cs.GetStream(requestID, flags)
+					if s == nil {
+						res.result <- ErrStreamNotExists
+						break
+					}
+				} else {
+					var loaded bool
+					s, loaded = conn.cs.CreateOrGetStream(*conn.loopCtx, requestID, flags)
+					if !loaded {
+						l.Debug("serveconn new stream", zap.Uint64("requestID", requestID), zap.Uint8("flags", uint8(flags)), zap.Uint32("cmd", uint32(dfw.Cmd())))
+					}
 				}
 				if !s.AddOutFrame(requestID, flags) {
 					res.result <- ErrWriteAfterCloseSelf
diff --git a/serveconn.go b/serveconn.go
index a705f94..0fa5b3a 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -173,7 +173,8 @@ func (sc *serveconn) serve() {
 		sc.reader = newFrameReaderWithMFS(ctx, sc.rwc, binding.DefaultReadTimeout, binding.Codec, maxFrameSize)
 	}
 	w := newFrameWriter(sc)
-	sc.writer = w // only used by blocking mode
+	w.checkExist = true // handlers only write to existing streams
+	sc.writer = w       // only used by blocking mode
 
 	sc.inflight = 1
 	util.GoFunc(&sc.wg, func() {
@@ -216,6 +217,7 @@ func (sc *serveconn) serve() {
 					defer sc.handleRequestPanic(res.f, time.Now(), inflightStreamsPtr)
 
 					w := newFrameWriter(sc)
+					w.checkExist = true
 					handler.ServeQRPC(w, res.f)
 					w.Finalize()
 				})
-- 
2.43.0


From ffa0dee358f5b58098c8b20e1cec3988e0a0c140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:01 +0000
Subject: [PATCH 10/60] fix: ToNonStream removes the stream flags

StreamFlag & StreamEndFlag is 0, so it removed nothing and Request with a stream
flag opened a stream nobody could end.
---
 qrpc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qrpc.go b/qrpc.go
index 67731bf..3d6ecfb 100644
--- a/qrpc.go
+++ b/qrpc.go
@@ -46,7 +46,7 @@ const (
 
 // ToNonStream convert flg to nonstreamed flag
 func (flg FrameFlag) ToNonStream() FrameFlag {
-	return flg & ^(StreamFlag & StreamEndFlag)
+	return flg & ^(StreamFlag | StreamEndFlag)
 }
 
 // ToStream convert flg to streamed flag
-- 
2.43.0


From bb5d4f43e8ecf40f4b83862c4d715709482a69cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:02 +0000
Subject: [PATCH 11/60] fix: a stream reset by the peer is freed

When this side had already ended, nothing removed the stream, so every such
reset leaked one for the life of the connection.
---
 stream.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stream.go b/stream.go
index 6bcbcb0..a5ee661 100644
--- a/stream.go
+++ b/stream.go
@@ -209,6 +209,10 @@ func (s *Stream) ResetByPeer() {
 	}
 
 	s.reset()
+
+	if atomic.LoadInt32(&s.closedSelf) != 0 {
+		s.afterDone()
+	}
 }
 
 func (s *Stream) afterDone() {
-- 
2.43.0


From 912769613e53c1dec0e34a91dadf0cbf3a36bdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:26 +0000
Subject: [PATCH 12/60] fix: a closed connection neither keeps nor removes an
 id

SetID on a connection that was closing left a mapping nobody removed, so the
next SetID of that id span forever; and closing a connection that had asked for
an id, but did not own it yet, removed the mapping of its owner.
---
 server.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index bf17653..45c5e93 100644
--- a/server.go
+++ b/server.go
@@ -484,10 +484,23 @@ check:
 		goto check
 	}
 
+	if sc.IsClosed() {
+		// untrack may have missed it
+		srv.unbindID(sc, id)
+	}
+
 	ko = atomic.LoadUint64(&kickOrder)
 	return
 }
 
+// unbindID unbinds the id if it's binded to sc
+func (srv *Server) unbindID(sc *serveconn, id string) {
+	v, ok := srv.id2Conn[sc.idx].Load(id)
+	if ok && v.(*serveconn) == sc {
+		srv.id2Conn[sc.idx].Delete(id)
+	}
+}
+
 func (srv *Server) untrack(sc *serveconn, kicked bool) (bool, <-chan struct{}) {
 
 	locked := atomic.CompareAndSwapUint32(&sc.untrack, 0, 1)
@@ -498,7 +511,7 @@ func (srv *Server) untrack(sc *serveconn, kicked bool) (bool, <-chan struct{}) {
 
 	id := sc.GetID()
 	if id != "" {
-		srv.id2Conn[idx].Delete(id)
+		srv.unbindID(sc, id)
 	}
 	srv.activeConn[idx].Delete(sc)
 
-- 
2.43.0


From 6d3d3436fde135c343553646f9ebf950c91e5425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:49 +0000
Subject: [PATCH 13/60] fix: a failed write no longer deadlocks the takeover of
 an id

The failed writer keeps the write lock until the context is cancelled, which only
Close does, and Close waits for OnKickCB, which waited for the write lock.
---
 serveconn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serveconn.go b/serveconn.go
index 0fa5b3a..18873dd 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -601,6 +601,8 @@ func (sc *serveconn) writeBuffers() error {
 	if err != nil {
 
 		l.Debug("serveconn.writeBuffers", zap.Uintptr("sc", uintptr(unsafe.Pointer(sc))), zap.Error(err))
+		// no more write is possible, release the other writers, maybe inside OnKickCB
+		sc.cancelCtx()
 		// don't call sc.Close while inside OnKickCB
 		if !sc.IsClosed() {
 			sc.Close()
-- 
2.43.0


From 228e3fa0de3da2065412e2543d7a3b8e016722ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:25 +0000
Subject: [PATCH 14/60] fix: Serve returns when Shutdown came first, Shutdown
 waits for the accept loop

A listener that was not tracked yet when Shutdown ran was never closed, so Serve
never returned; and a connection accepted just before could still be started
after Shutdown had returned.
---
 server.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 45c5e93..4f27f0b 100644
--- a/server.go
+++ b/server.go
@@ -283,7 +283,11 @@ func (srv *Server) Serve(ln Listener, idx int) error {
 	defer ln.Close()
 	var tempDelay time.Duration // how long to sleep on accept failure
 
-	srv.trackListener(ln, idx, true)
+	if !srv.trackListener(ln, idx, true) {
+		return ErrServerClosed
+	}
+	// Shutdown also waits for the accept loop, as it may be starting a connection
+	defer srv.wg.Done()
 	defer srv.trackListener(ln, idx, false)
 
 	acceptCheckFunc := srv.bindings[idx].LifecycleCallbacks.OnAccept
@@ -407,14 +411,20 @@ func (ln *TCPKeepAliveListener) Accept() (c net.Conn, err error) {
 	return
 }
 
-func (srv *Server) trackListener(ln net.Listener, idx int, add bool) {
+// trackListener returns false if the server is already shutdown
+func (srv *Server) trackListener(ln net.Listener, idx int, add bool) bool {
 	srv.mu.Lock()
 	defer srv.mu.Unlock()
 	if add {
+		if srv.done {
+			return false
+		}
 		srv.listeners[idx] = ln
+		srv.wg.Add(1)
 	} else {
 		srv.listeners[idx] = nil
 	}
+	return true
 }
 
 // Create new connection from rwc.
-- 
2.43.0


From 99b5e6a1ecb953f4e91b0611c54992c41a90d14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:45 +0000
Subject: [PATCH 15/60] fix: blocking requests do not raise the inflight limit

They were subtracted from the inflight count without having been added, so each
of them allowed one more inflight request than configured.
---
 serveconn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serveconn.go b/serveconn.go
index 18873dd..6e885a3 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -201,7 +201,8 @@ func (sc *serveconn) serve() {
 
 			if res.readMore != nil {
 				func() {
-					defer sc.handleRequestPanic(res.f, time.Now(), inflightStreamsPtr)
+					// blocking requests are not counted as inflight
+					defer sc.handleRequestPanic(res.f, time.Now(), nil)
 					handler.ServeQRPC(sc.writer, res.f)
 				}()
 				w.reset()
-- 
2.43.0


From 1c7611efce3e9c50b886bc185df3d3d0de25f570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:47 +0000
Subject: [PATCH 16/60] fix: registering two handlers for the same routed
 command panics

Only the full command was checked, so a handler was silently replaced by one
whose command differs in the opaque byte only.
---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 4f27f0b..ae98664 100644
--- a/server.go
+++ b/server.go
@@ -98,7 +98,7 @@ func (mux *ServeMux) Handle(cmd Cmd, handler Handler, middleware ...MiddlewareFu
 	if mux.m == nil {
 		mux.m = make(map[Cmd]Handler)
 	}
-	if _, exist := mux.m[cmd]; exist {
+	if _, exist := mux.m[cmd.Routing()]; exist {
 		panic("qrpc: multiple registrations for " + string(cmd))
 	}
 
-- 
2.43.0


From e83b614aa81ff5cbdede078820d28857eb72d074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:49 +0000
Subject: [PATCH 17/60] fix: SetThrottle and ClearThrottle may be called
 concurrently

Two concurrent SetThrottle could leave waiters on a channel nobody closes, two
concurrent ClearThrottle could close one twice and panic.
---
 server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server.go b/server.go
index ae98664..634331c 100644
--- a/server.go
+++ b/server.go
@@ -643,6 +643,9 @@ func (srv *Server) waitThrottle(idx int, doneCh <-chan struct{}) {
 
 // SetThrottle sets throttle on
 func (srv *Server) SetThrottle(idx int) {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
 	v := srv.throttle[idx].Load()
 	if v != nil {
 		// already on,do nothing
@@ -655,6 +658,9 @@ func (srv *Server) SetThrottle(idx int) {
 
 // ClearThrottle clears throttle onff
 func (srv *Server) ClearThrottle(idx int) {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
 	v := srv.throttle[idx].Load()
 	if v == nil {
 		return
-- 
2.43.0


From 521b075329a802f510608a9b66089b33f7f43a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:08 +0000
Subject: [PATCH 18/60] fix: channel Send honours end after the first message

The client side sent the end flag with the first message only, so the receiver
never saw the end of a longer stream.
---
 channel/clienttransport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channel/clienttransport.go b/channel/clienttransport.go
index dd7d0d0..60de0e9 100644
--- a/channel/clienttransport.go
+++ b/channel/clienttransport.go
@@ -88,7 +88,7 @@ func (s *clientSender) Send(ctx context.Context, cmd qrpc.Cmd, msg interface{},
 
 	s.streamWriter.StartWrite(cmd)
 	s.streamWriter.WriteBytes(bytes)
-	err = s.streamWriter.EndWrite(false)
+	err = s.streamWriter.EndWrite(end)
 
 	return
 }
-- 
2.43.0


From ef0d19acba0bb19417e4361bab09b88b2c65cd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:09 +0000
Subject: [PATCH 19/60] fix: channel Receive decodes the message when the cmd
 is not asked for

The serving side left msg untouched and returned success.
---
 channel/servetransport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channel/servetransport.go b/channel/servetransport.go
index 89e03fc..310c8b5 100644
--- a/channel/servetransport.go
+++ b/channel/servetransport.go
@@ -87,7 +87,7 @@ func (r *serveReceiver) Receive(ctx context.Context, cmd *qrpc.Cmd, msg interfac
 
 	if cmd != nil {
 		*cmd = frame.Cmd
-		err = Unmarshal(frame.Payload, msg)
 	}
+	err = Unmarshal(frame.Payload, msg)
 	return
 }
-- 
2.43.0


From ae491b370384ca8630aeeea951d4ecb8d555130b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:25 +0000
Subject: [PATCH 20/60] fix: a channel sender can be used by several goroutines

Concurrent Send only held a read lock while they filled the same stream writer,
so messages could mix, or two streams be opened for one pipe; and Receive read
the response while Send was setting it.
---
 channel/clienttransport.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/channel/clienttransport.go b/channel/clienttransport.go
index 60de0e9..2e2f733 100644
--- a/channel/clienttransport.go
+++ b/channel/clienttransport.go
@@ -14,13 +14,15 @@ type (
 	}
 
 	clientSender struct {
-		sync.RWMutex
+		sync.Mutex
 		t            *clientTransport
 		r            *clientReceiver
 		streamWriter qrpc.StreamWriter
-		resp         qrpc.Response
 		firstFrame   *qrpc.Frame
 		closed       bool
+
+		respMu sync.Mutex // Receive should not wait for Send
+		resp   qrpc.Response
 	}
 
 	clientReceiver struct {
@@ -69,8 +71,8 @@ func (s *clientSender) Send(ctx context.Context, cmd qrpc.Cmd, msg interface{},
 		return
 	}
 
-	s.RLock()
-	defer s.RUnlock()
+	s.Lock()
+	defer s.Unlock()
 
 	if s.closed {
 		err = ErrSenderClosed
@@ -82,7 +84,11 @@ func (s *clientSender) Send(ctx context.Context, cmd qrpc.Cmd, msg interface{},
 		flag |= qrpc.StreamEndFlag
 	}
 	if s.streamWriter == nil {
-		s.streamWriter, s.resp, err = s.t.c.StreamRequest(cmd, flag, bytes)
+		var resp qrpc.Response
+		s.streamWriter, resp, err = s.t.c.StreamRequest(cmd, flag, bytes)
+		s.respMu.Lock()
+		s.resp = resp
+		s.respMu.Unlock()
 		return
 	}
 
@@ -113,13 +119,16 @@ func (s *clientSender) End() (err error) {
 
 func (s *clientSender) getFrame(ctx context.Context) (frame *qrpc.Frame, err error) {
 
-	if s.resp == nil {
+	s.respMu.Lock()
+	resp := s.resp
+	s.respMu.Unlock()
+	if resp == nil {
 		err = ErrNoResp
 		return
 	}
 
 	if s.firstFrame == nil {
-		frame, err = s.resp.GetFrameWithContext(ctx)
+		frame, err = resp.GetFrameWithContext(ctx)
 		s.firstFrame = frame
 	} else {
 		select {
-- 
2.43.0


From c95e9201604ce413d686f96190019c7459831ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:55 +0000
Subject: [PATCH 21/60] fix: a failed websocket write is not reported as
 written

It returned the full length along with the error, so the frame it carried was
reported as sent.
---
 ws/server/conn.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ws/server/conn.go b/ws/server/conn.go
index 2bf4edb..d4bc556 100644
--- a/ws/server/conn.go
+++ b/ws/server/conn.go
@@ -64,7 +64,11 @@ func (c *conn) readBuffer(b []byte) (n int, err error) {
 	return
 }
 func (c *conn) Write(b []byte) (n int, err error) {
-	return len(b), c.wc.WriteMessage(websocket.BinaryMessage, b)
+	err = c.wc.WriteMessage(websocket.BinaryMessage, b)
+	if err != nil {
+		return
+	}
+	return len(b), nil
 }
 
 func (c *conn) Close() (err error) {
-- 
2.43.0


From a0a26ff861abec97ab0ae952747cd39021c6f27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:57 +0000
Subject: [PATCH 22/60] fix: closing the websocket listener closes connections
 not accepted yet

They stayed open, their peers waiting forever.
---
 ws/server/overlay.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ws/server/overlay.go b/ws/server/overlay.go
index 2f391bb..16af2fe 100644
--- a/ws/server/overlay.go
+++ b/ws/server/overlay.go
@@ -53,7 +53,13 @@ func newOverlay(l net.Listener, tlsConfig *tls.Config) (o *qrpcOverWS) {
 
 		select {
 		case o.acceptCh <- c:
+			select {
+			case <-o.ctx.Done():
+				o.closePending()
+			default:
+			}
 		case <-o.ctx.Done():
+			c.Close()
 		}
 
 	})
@@ -90,9 +96,22 @@ func (o *qrpcOverWS) Accept() (conn net.Conn, err error) {
 
 func (o *qrpcOverWS) Close() error {
 	o.cancelFunc()
+	o.closePending()
 	return o.l.Close()
 }
 
+// closePending closes the connections nobody will accept
+func (o *qrpcOverWS) closePending() {
+	for {
+		select {
+		case c := <-o.acceptCh:
+			c.Close()
+		default:
+			return
+		}
+	}
+}
+
 func (o *qrpcOverWS) Addr() (addr net.Addr) {
 	return o.l.Addr()
 }
-- 
2.43.0


From 4def3bedbe8bcbc594acda173b143b2635c92eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:57 +0000
Subject: [PATCH 23/60] fix: a slow reader is not dropped on tls and websocket
 connections

Every write got a 3s deadline to check the context, also without a configured
timeout, but unlike a tcp connection a tls or websocket connection cannot go on
after a write that timed out.
---
 writer.go | 56 ++++++++++++++++++++++++++-----------------------------
 1 file changed, 26 insertions(+), 30 deletions(-)

diff --git a/writer.go b/writer.go
index f1e9fcb..be72b0b 100644
--- a/writer.go
+++ b/writer.go
@@ -30,14 +30,29 @@ func NewWriterWithTimeout(ctx context.Context, conn net.Conn, timeout int) *Writ
 	return &Writer{ctx: ctx, conn: conn, timeout: timeout}
 }
 
+// setWriteDeadline for the next write, endTime is zero if there's no timeout
+func (w *Writer) setWriteDeadline(endTime time.Time) {
+	if _, ok := w.conn.(*net.TCPConn); !ok {
+		// a tls or overlay conn is broken once a write timed out,
+		// so don't check ctx periodically, the conn is closed when ctx is canceled anyway
+		w.conn.SetWriteDeadline(endTime)
+		return
+	}
+
+	deadline := time.Now().Add(CtxCheckMaxInterval)
+	if !endTime.IsZero() && endTime.Before(deadline) {
+		deadline = endTime
+	}
+	w.conn.SetWriteDeadline(deadline)
+}
+
 // Write writes bytes
 func (w *Writer) Write(bytes []byte) (int, error) {
 	var (
-		endTime      time.Time
-		writeTimeout time.Duration
-		offset       int
-		n            int
-		err          error
+		endTime time.Time
+		offset  int
+		n       int
+		err     error
 	)
 
 	timeout := w.timeout
@@ -47,16 +62,7 @@ func (w *Writer) Write(bytes []byte) (int, error) {
 	size := len(bytes)
 
 	for {
-		if timeout > 0 {
-			writeTimeout = endTime.Sub(time.Now())
-			if writeTimeout > CtxCheckMaxInterval {
-				writeTimeout = CtxCheckMaxInterval
-			}
-		} else {
-			writeTimeout = CtxCheckMaxInterval
-		}
-
-		w.conn.SetWriteDeadline(time.Now().Add(writeTimeout))
+		w.setWriteDeadline(endTime)
 
 		n, err = w.conn.Write(bytes[offset:])
 		offset += n
@@ -84,11 +90,10 @@ func (w *Writer) Write(bytes []byte) (int, error) {
 
 func (w *Writer) writeBuffers(buffs *net.Buffers) (int64, error) {
 	var (
-		endTime      time.Time
-		writeTimeout time.Duration
-		offset       int64
-		n            int64
-		err          error
+		endTime time.Time
+		offset  int64
+		n       int64
+		err     error
 	)
 
 	timeout := w.timeout
@@ -101,16 +106,7 @@ func (w *Writer) writeBuffers(buffs *net.Buffers) (int64, error) {
 	}
 
 	for {
-		if timeout > 0 {
-			writeTimeout = endTime.Sub(time.Now())
-			if writeTimeout > CtxCheckMaxInterval {
-				writeTimeout = CtxCheckMaxInterval
-			}
-		} else {
-			writeTimeout = CtxCheckMaxInterval
-		}
-
-		w.conn.SetWriteDeadline(time.Now().Add(writeTimeout))
+		w.setWriteDeadline(endTime)
 
 		n, err = buffs.WriteTo(w.conn)
 		offset += n
-- 
2.43.0


From 8532ee258906e2261c2d4045ad3a2e4c98a07afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:13 +0000
Subject: [PATCH 24/60] fix: closing the websocket listener closes connections
 not upgraded yet

They stayed open after Shutdown.
---
 ws/server/overlay.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ws/server/overlay.go b/ws/server/overlay.go
index 16af2fe..1ec9532 100644
--- a/ws/server/overlay.go
+++ b/ws/server/overlay.go
@@ -97,7 +97,9 @@ func (o *qrpcOverWS) Accept() (conn net.Conn, err error) {
 func (o *qrpcOverWS) Close() error {
 	o.cancelFunc()
 	o.closePending()
-	return o.l.Close()
+	err := o.l.Close()
+	o.httpServer.Close() // for connections not upgraded yet
+	return err
 }
 
 // closePending closes the connections nobody will accept
-- 
2.43.0


From f9f8467a654734c530006ab2dd75c78329716e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:32 +0000
Subject: [PATCH 25/60] fix: writes on a lost reconnecting connection fail at
 once

A write issued while it was down was queued or failed at random; queued, it waited
for the next connection however long that took.
---
 clientconn.go | 46 +++++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index 0dc0a3a..6a02776 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -214,8 +214,11 @@ func newConnection(rwc net.Conn, addr []string, conf ConnectionConfig, f SubFunc
 
 func (conn *Connection) loop() {
 	defer close(conn.loopDone)
+	stopFailWrites := func() {}
 	for {
-		if err := conn.connect(); err != nil {
+		err := conn.connect()
+		stopFailWrites()
+		if err != nil {
 			// connx.Close() was called
 			return
 		}
@@ -235,12 +238,15 @@ func (conn *Connection) loop() {
 
 		<-(*conn.loopCtx).Done()
 		conn.closeRWC()
+		if conn.reconnect {
+			stopFailWrites = conn.failWrites()
+		}
 
 		if conn.conf.LifecycleCallbacks.OnDisconnect != nil {
 			conn.conf.LifecycleCallbacks.OnDisconnect(conn)
 		}
 
-		conn.waitLoopWG()
+		conn.loopWG.Wait()
 		conn.endLoop()
 
 		// close & quit if not reconnect; otherwise automatically reconnect
@@ -251,26 +257,24 @@ func (conn *Connection) loop() {
 	}
 }
 
-// waitLoopWG waits for the goroutines of current rwc
-func (conn *Connection) waitLoopWG() {
-	if !conn.reconnect {
-		conn.loopWG.Wait()
-		return
-	}
-
-	done := make(chan struct{})
-	go func() {
-		conn.loopWG.Wait()
-		close(done)
-	}()
-	for {
-		select {
-		case wfr := <-conn.writeFrameCh:
-			// may come from one of the goroutines being waited for
-			wfr.result <- ErrConnAlreadyClosed
-		case <-done:
-			return
+// failWrites fails the queued writes until the returned func is called,
+// they may come from one of the goroutines loopWG waits for
+func (conn *Connection) failWrites() func() {
+	stopCh := make(chan struct{})
+	var wg sync.WaitGroup
+	util.GoFunc(&wg, func() {
+		for {
+			select {
+			case wfr := <-conn.writeFrameCh:
+				wfr.result <- ErrConnAlreadyClosed
+			case <-stopCh:
+				return
+			}
 		}
+	})
+	return func() {
+		close(stopCh)
+		wg.Wait()
 	}
 }
 
-- 
2.43.0


From 63d0814e5252656a0760dd286727b5cd9107a582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:00 +0000
Subject: [PATCH 26/60] fix: generated service mux encodes its output the way
 the client decodes it

It looked at the input types to find out how to encode the output, so a
self-marshalling output was sent as JSON, which the client could not decode.
---
 codegen/generator.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codegen/generator.go b/codegen/generator.go
index d761310..06ba036 100644
--- a/codegen/generator.go
+++ b/codegen/generator.go
@@ -155,6 +155,8 @@ func (g *Generator) generateImports() {
 		g.P(alias, " ", generator.GoImportPath(fqPkg))
 	}
 	g.P(")")
+	// not used if everything is Marshaler
+	g.P("var _ = ", allPkgs[jsonPkg], ".Marshal")
 
 	contextPkgAlias = allPkgs[contextPkg]
 	qrpcPkgAlias = allPkgs[qrpcPkg]
@@ -271,7 +273,7 @@ func (g *Generator) Generate() {
 	for name, method := range g.services[""] {
 		g.P("m.callback[", codegenPkgAlias, ".FQMethod(\"\",", strconv.Quote(name), ")] = func(ctx context.Context, inBytes []byte) (outBytes []byte, err error) {")
 		inTypes := util.FuncInputTypes(method)
-		outTypes := util.FuncInputTypes(method)
+		outTypes := util.FuncOutputTypes(method)
 		inTypePtrIsMarshaler := reflect.PtrTo(inTypes[1]).Implements(marshalerType)
 		outTypePtrIsMarshaler := reflect.PtrTo(outTypes[0]).Implements(marshalerType)
 		if inTypes[1].PkgPath() != "" {
@@ -313,7 +315,7 @@ func (g *Generator) Generate() {
 		for name, method := range methods {
 			g.P("	ssInterface := ss.(", g.serviceName, ns, "Client)")
 			inTypes := util.FuncInputTypes(method)
-			outTypes := util.FuncInputTypes(method)
+			outTypes := util.FuncOutputTypes(method)
 			inTypePtrIsMarshaler := reflect.PtrTo(inTypes[1]).Implements(marshalerType)
 			outTypePtrIsMarshaler := reflect.PtrTo(outTypes[0]).Implements(marshalerType)
 			g.P("	m.callback[", codegenPkgAlias, ".FQMethod(", strconv.Quote(ns), ",", strconv.Quote(name), ")] = func(ctx context.Context, inBytes []byte) (outBytes []byte, err error) {")
-- 
2.43.0


From 1cff5041cf7185231ec2a00e3954094398e728b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:00 +0000
Subject: [PATCH 27/60] fix: generated code with sub services compiles

The sub service accessor lacked its parameter list, result type and the name of
the struct it returns, and the service variable was declared once per method.
---
 codegen/generator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/codegen/generator.go b/codegen/generator.go
index 06ba036..014267f 100644
--- a/codegen/generator.go
+++ b/codegen/generator.go
@@ -214,8 +214,8 @@ func (g *Generator) Generate() {
 		if ns == "" {
 			continue
 		}
-		g.P("func (c ", unexport(g.serviceName), "Client) ", ns, "Client {")
-		g.P("	return ", unexport(g.serviceName), ns, "{c.Client}")
+		g.P("func (c ", unexport(g.serviceName), "Client) ", ns, "Client() ", g.serviceName, ns, "Client {")
+		g.P("	return ", unexport(g.serviceName), ns, "Client{c.Client}")
 		g.P("}")
 		g.P()
 	}
@@ -312,8 +312,8 @@ func (g *Generator) Generate() {
 		}
 
 		g.P("case ", strconv.Quote(ns), ":")
+		g.P("	ssInterface := ss.(", g.serviceName, ns, "Client)")
 		for name, method := range methods {
-			g.P("	ssInterface := ss.(", g.serviceName, ns, "Client)")
 			inTypes := util.FuncInputTypes(method)
 			outTypes := util.FuncOutputTypes(method)
 			inTypePtrIsMarshaler := reflect.PtrTo(inTypes[1]).Implements(marshalerType)
-- 
2.43.0


From f80d0e04504c771f4e577ba2e84b0ae4a76a0d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:00 +0000
Subject: [PATCH 28/60] fix: generated code uses the import aliases it declares

A second generator in one process, or a type from a package named like one of
the imports, got an alias the templates ignored, so the code did not compile.
---
 codegen/generator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/codegen/generator.go b/codegen/generator.go
index 014267f..44e4a17 100644
--- a/codegen/generator.go
+++ b/codegen/generator.go
@@ -271,7 +271,7 @@ func (g *Generator) Generate() {
 	g.P()
 	g.P("func (m *", unexport(g.serviceName), "ServiceMux) Register(s ", g.serviceName, "Service) {")
 	for name, method := range g.services[""] {
-		g.P("m.callback[", codegenPkgAlias, ".FQMethod(\"\",", strconv.Quote(name), ")] = func(ctx context.Context, inBytes []byte) (outBytes []byte, err error) {")
+		g.P("m.callback[", codegenPkgAlias, ".FQMethod(\"\",", strconv.Quote(name), ")] = func(ctx ", contextPkgAlias, ".Context, inBytes []byte) (outBytes []byte, err error) {")
 		inTypes := util.FuncInputTypes(method)
 		outTypes := util.FuncOutputTypes(method)
 		inTypePtrIsMarshaler := reflect.PtrTo(inTypes[1]).Implements(marshalerType)
@@ -318,7 +318,7 @@ func (g *Generator) Generate() {
 			outTypes := util.FuncOutputTypes(method)
 			inTypePtrIsMarshaler := reflect.PtrTo(inTypes[1]).Implements(marshalerType)
 			outTypePtrIsMarshaler := reflect.PtrTo(outTypes[0]).Implements(marshalerType)
-			g.P("	m.callback[", codegenPkgAlias, ".FQMethod(", strconv.Quote(ns), ",", strconv.Quote(name), ")] = func(ctx context.Context, inBytes []byte) (outBytes []byte, err error) {")
+			g.P("	m.callback[", codegenPkgAlias, ".FQMethod(", strconv.Quote(ns), ",", strconv.Quote(name), ")] = func(ctx ", contextPkgAlias, ".Context, inBytes []byte) (outBytes []byte, err error) {")
 			if inTypes[1].PkgPath() != "" {
 				alias := allPkgs[inTypes[1].PkgPath()]
 				g.P("		var input ", alias, ".", inTypes[1].Name())
@@ -350,7 +350,7 @@ func (g *Generator) Generate() {
 	g.P("	}")
 	g.P("}")
 	g.P()
-	g.P("func (m *", unexport(g.serviceName), "ServiceMux) Mux() *qrpc.ServeMux {")
+	g.P("func (m *", unexport(g.serviceName), "ServiceMux) Mux() *", qrpcPkgAlias, ".ServeMux {")
 	g.P("	if m.mux != nil {")
 	g.P("		return m.mux")
 	g.P("	}")
-- 
2.43.0


From f4e99fbddea4197f6e9dacd029a46bc74eeef431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:02 +0000
Subject: [PATCH 29/60] fix: service calls return when their context ends

They first waited for the reset to be written, also if the connection was stuck.
---
 codegen/client.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codegen/client.go b/codegen/client.go
index 3d53eeb..1543259 100644
--- a/codegen/client.go
+++ b/codegen/client.go
@@ -56,8 +56,10 @@ func (client *Client) Request(ctx context.Context, ns, name string, inBytes []by
 		}
 		frame, err = resp.GetFrameWithContext(ctx)
 		if err != nil {
-			// err is caused by ctx cancel
-			client.conns[j].ResetFrame(requestID, 0)
+			if ctx.Err() != nil {
+				// err is caused by ctx cancel, don't wait for the reset to be sent
+				go client.conns[j].ResetFrame(requestID, 0)
+			}
 			return
 		}
 		if frame.Cmd == client.errCmd {
-- 
2.43.0


From c7cf45750f22aebfdec8944ca5503c4c1c8874e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 30/60] fix: a connection is completely set up before WalkConn
 can find it

A push written before the connection was set up took the missing count of the
reader for a reader that had quit and kept the write lock, so nothing was ever
written on that connection; and ReaderConfig was nil.
---
 serveconn.go | 10 ----------
 server.go    |  8 ++++++++
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/serveconn.go b/serveconn.go
index 6e885a3..627823f 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -163,20 +163,10 @@ func (sc *serveconn) serve() {
 	}()
 
 	ctx := sc.ctx
-	{
-		var maxFrameSize int
-		if binding.MaxFrameSize > 0 {
-			maxFrameSize = binding.MaxFrameSize
-		} else {
-			maxFrameSize = DefaultMaxFrameSize
-		}
-		sc.reader = newFrameReaderWithMFS(ctx, sc.rwc, binding.DefaultReadTimeout, binding.Codec, maxFrameSize)
-	}
 	w := newFrameWriter(sc)
 	w.checkExist = true // handlers only write to existing streams
 	sc.writer = w       // only used by blocking mode
 
-	sc.inflight = 1
 	util.GoFunc(&sc.wg, func() {
 		sc.readFrames()
 	})
diff --git a/server.go b/server.go
index 634331c..acf631c 100644
--- a/server.go
+++ b/server.go
@@ -448,6 +448,14 @@ func (srv *Server) newConn(ctx context.Context, rwc net.Conn, idx int) (sc *serv
 	sc.ctx = ctx
 	sc.bytesWriter = NewWriterWithTimeout(ctx, rwc, srv.bindings[idx].DefaultWriteTimeout)
 
+	maxFrameSize := srv.bindings[idx].MaxFrameSize
+	if maxFrameSize <= 0 {
+		maxFrameSize = DefaultMaxFrameSize
+	}
+	sc.reader = newFrameReaderWithMFS(ctx, rwc, srv.bindings[idx].DefaultReadTimeout, srv.bindings[idx].Codec, maxFrameSize)
+	sc.inflight = 1 // for the reader
+
+	// sc should be ready for use now
 	srv.activeConn[idx].Store(sc, struct{}{})
 
 	return sc
-- 
2.43.0


From 7d1efe38cc8acfca4e8f79500e5a033972a303ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:27 +0000
Subject: [PATCH 31/60] fix: the read timeout of a live connection is changed
 without a data race

---
 reader.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/reader.go b/reader.go
index 0203bfa..dc7d402 100644
--- a/reader.go
+++ b/reader.go
@@ -7,14 +7,15 @@ import (
 	"io"
 	"net"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
 // Reader read data from socket
 type Reader struct {
+	timeout int64 // accessed atomically
 	conn    net.Conn
 	reader  *bufio.Reader
-	timeout int
 	ctx     context.Context
 }
 
@@ -42,7 +43,7 @@ func NewReaderWithTimeout(ctx context.Context, conn net.Conn, timeout int) *Read
 
 	bufReader := bufPool.Get().(*bufio.Reader)
 	bufReader.Reset(conn)
-	return &Reader{ctx: ctx, conn: conn, reader: bufReader, timeout: timeout}
+	return &Reader{ctx: ctx, conn: conn, reader: bufReader, timeout: int64(timeout)}
 }
 
 // Finalize is called when no longer used
@@ -54,7 +55,7 @@ func (r *Reader) Finalize() {
 
 // SetReadTimeout allows modify timeout for read
 func (r *Reader) SetReadTimeout(timeout int) {
-	r.timeout = timeout
+	atomic.StoreInt64(&r.timeout, int64(timeout))
 }
 
 // ReadUint32 read uint32 from socket
@@ -80,7 +81,7 @@ func (r *Reader) ReadBytesWithMaxTimeout(bytes []byte, maxTimeoutSecond int) (er
 		offset  int
 		n       int
 	)
-	timeout := r.timeout
+	timeout := int(atomic.LoadInt64(&r.timeout))
 	if maxTimeoutSecond > 0 && timeout > maxTimeoutSecond {
 		timeout = maxTimeoutSecond
 	}
-- 
2.43.0


From 32dd907e9c732a910b90ed4cbadfa60235f53475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:17 +0000
Subject: [PATCH 32/60] fix: Call tries every active connection, and no other
 once its context ended

It gave up after one active connection even if others were fine, and sent the
request once more, to another endpoint, when the context had already ended.
---
 api.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/api.go b/api.go
index 93fab82..5c83178 100644
--- a/api.go
+++ b/api.go
@@ -81,7 +81,7 @@ func (api *defaultAPI) Call(ctx context.Context, cmd Cmd, payload []byte) (resul
 
 	idx := api.getIdx()
 	result, err = api.callViaIdx(ctx, idx, cmd, payload)
-	if err != nil {
+	if err != nil && ctx.Err() == nil {
 		result, err = api.callViaActiveConns(ctx, cmd, payload)
 	}
 
@@ -229,7 +229,8 @@ func (api *defaultAPI) callViaActiveConns(ctx context.Context, cmd Cmd, payload
 			result, err = resp.GetFrameWithContext(ctx)
 		}
 
-		return false
+		// try the next one if failed
+		return err != nil && ctx.Err() == nil
 	})
 
 	return
-- 
2.43.0


From 523c562bd7c97c6fc5157c2e3a409831fede962d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:41 +0000
Subject: [PATCH 33/60] fix: a streamed push nobody subscribed to no longer
 wedges the connection

The reader waited forever for somebody to read its second frame.
---
 clientconn.go | 3 +++
 serveconn.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/clientconn.go b/clientconn.go
index 6a02776..ffacb12 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -533,6 +533,9 @@ func (conn *Connection) readFrames() {
 			// pushed frame
 			if conn.subscriber != nil {
 				conn.subscriber(conn, frame)
+			} else {
+				// nobody reads the rest, if streamed
+				frame.Stream.reset()
 			}
 
 			continue
diff --git a/serveconn.go b/serveconn.go
index 627823f..68d6ec4 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -383,6 +383,9 @@ func (sc *serveconn) readFrames() (err error) {
 			// pushed frame
 			if binding.SubFunc != nil {
 				binding.SubFunc(ci, req)
+			} else {
+				// nobody reads the rest, if streamed
+				req.Stream.reset()
 			}
 
 			continue
-- 
2.43.0


From 2c3adb58c8a0bbb466f0e095422b686373d3b730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:55 +0000
Subject: [PATCH 34/60] fix: client handlers reading a stream end when the
 connection is lost

---
 clientconn.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index ffacb12..9db52b5 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -224,11 +224,12 @@ func (conn *Connection) loop() {
 		}
 
 		conn.loopWG = &sync.WaitGroup{}
-		util.GoFunc(conn.loopWG, func() {
+		var ioWG sync.WaitGroup
+		util.GoFunc(&ioWG, func() {
 			conn.readFrames()
 		})
 
-		util.GoFunc(conn.loopWG, func() {
+		util.GoFunc(&ioWG, func() {
 			conn.writeFrames()
 		})
 
@@ -246,8 +247,10 @@ func (conn *Connection) loop() {
 			conn.conf.LifecycleCallbacks.OnDisconnect(conn)
 		}
 
-		conn.loopWG.Wait()
+		ioWG.Wait()
+		// before waiting for the handlers, they may be reading from the streams
 		conn.endLoop()
+		conn.loopWG.Wait()
 
 		// close & quit if not reconnect; otherwise automatically reconnect
 		if !conn.reconnect {
-- 
2.43.0


From 5172f449ac3487ec7404a6a6fd53bd3d1bc37b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:24 +0000
Subject: [PATCH 35/60] fix: answers nobody waits for no longer wedge the
 client connection

---
 clientconn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clientconn.go b/clientconn.go
index 9db52b5..ee89593 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -579,6 +579,8 @@ func (conn *Connection) readFrames() {
 			}
 
 			l.Error("dangling resp", zap.Uint64("requestID", frame.RequestID))
+			// nobody will ever finish it
+			frame.Stream.Release()
 
 			continue
 		}
-- 
2.43.0


From e7a6801093c3bd29c7736726d0d9249bfc7312aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:25 +0000
Subject: [PATCH 36/60] fix: a stream writer does not send resets after
 ResetFrame

---
 framewriter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/framewriter.go b/framewriter.go
index f651468..8221fd5 100644
--- a/framewriter.go
+++ b/framewriter.go
@@ -216,7 +216,10 @@ func (dsw *defaultStreamWriter) EndWriteCompressed() (err error) {
 
 func (dsw *defaultStreamWriter) ResetFrame(reason Cmd) (err error) {
 	dfw := (*defaultFrameWriter)(dsw)
+	flags := dfw.Flags()
 	err = dfw.ResetFrame(dfw.RequestID(), reason)
+	// the next frame is not a reset, StartWrite keeps the flags
+	dfw.SetFlags(flags)
 	return
 
 }
-- 
2.43.0


From 49c8c776f09ec4ddc568813284f0a65c52f210ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:03 +0000
Subject: [PATCH 37/60] fix: a write given up on does not share its buffer with
 later frames

---
 clientconn.go  | 13 ++++++++-----
 framewriter.go |  7 +++++++
 serveconn.go   | 15 +++++++++------
 3 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index ee89593..d1d48b8 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -416,7 +416,7 @@ func (conn *Connection) getCodec() CompressorCodec {
 func (conn *Connection) writeFrameBytes(dfw *defaultFrameWriter) error {
 
 	wfr := wfrPool.Get().(*writeFrameRequest)
-	wfr.dfw = dfw
+	wfr.dfw = *dfw
 	// just in case
 	if len(wfr.result) > 0 {
 		<-wfr.result
@@ -428,6 +428,7 @@ func (conn *Connection) writeFrameBytes(dfw *defaultFrameWriter) error {
 	}
 	select {
 	case conn.writeFrameCh <- wfr:
+		dfw.resp = nil
 	case <-loopCtx.Done():
 		return loopCtx.Err()
 	}
@@ -436,19 +437,21 @@ func (conn *Connection) writeFrameBytes(dfw *defaultFrameWriter) error {
 	if conn.reconnect {
 		select {
 		case err := <-wfr.result:
-			wfr.dfw = nil
+			wfr.dfw = defaultFrameWriter{}
 			wfrPool.Put(wfr)
 			return err
 		case <-conn.loopDone:
+			dfw.detach()
 			return ErrConnAlreadyClosed
 		}
 	} else {
 		select {
 		case err := <-wfr.result:
-			wfr.dfw = nil
+			wfr.dfw = defaultFrameWriter{}
 			wfrPool.Put(wfr)
 			return err
 		case <-loopCtx.Done():
+			dfw.detach()
 			return loopCtx.Err()
 		}
 	}
@@ -660,7 +663,7 @@ func (conn *Connection) collectWriteFrames(batch int) error {
 firstFrame:
 	select {
 	case res = <-conn.writeFrameCh:
-		dfw = res.dfw
+		dfw = &res.dfw
 		flags = dfw.Flags()
 		requestID = dfw.RequestID()
 
@@ -713,7 +716,7 @@ firstFrame:
 	for i := 0; i < batch; i++ {
 		select {
 		case res = <-conn.writeFrameCh:
-			dfw = res.dfw
+			dfw = &res.dfw
 			flags = dfw.Flags()
 			requestID = dfw.RequestID()
 
diff --git a/framewriter.go b/framewriter.go
index 8221fd5..36d6403 100644
--- a/framewriter.go
+++ b/framewriter.go
@@ -48,6 +48,13 @@ func (dfw *defaultFrameWriter) reset() {
 	dfw.wbuf = dfw.wbuf[:headerSize]
 }
 
+// detach leaves the buffer to a write request that may still be in progress
+func (dfw *defaultFrameWriter) detach() {
+	wbuf := make([]byte, headerSize, DefaultWBufSize)
+	copy(wbuf, dfw.wbuf[:headerSize])
+	dfw.wbuf = wbuf
+}
+
 func (dfw *defaultFrameWriter) Finalize() {
 	dfw.fbw = nil
 	dfw.resp = nil
diff --git a/serveconn.go b/serveconn.go
index 68d6ec4..8012b91 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -302,7 +302,7 @@ type readFrameResult struct {
 }
 
 type writeFrameRequest struct {
-	dfw    *defaultFrameWriter
+	dfw    defaultFrameWriter // a copy, the writer may be in use again if its caller gave up waiting
 	result chan error
 }
 
@@ -455,7 +455,7 @@ var wfrPool = sync.Pool{New: func() interface{} {
 
 func (sc *serveconn) writeFrameBytes(dfw *defaultFrameWriter) (err error) {
 	wfr := wfrPool.Get().(*writeFrameRequest)
-	wfr.dfw = dfw
+	wfr.dfw = *dfw
 	// just in case
 	if len(wfr.result) > 0 {
 		<-wfr.result
@@ -463,6 +463,7 @@ func (sc *serveconn) writeFrameBytes(dfw *defaultFrameWriter) (err error) {
 
 	select {
 	case sc.writeFrameCh <- wfr:
+		dfw.resp = nil
 	case <-sc.ctx.Done():
 		return sc.ctx.Err()
 	}
@@ -475,7 +476,7 @@ func (sc *serveconn) writeFrameBytes(dfw *defaultFrameWriter) (err error) {
 			// already handled, release lock
 			<-sc.wlockCh
 			err = <-wfr.result
-			wfr.dfw = nil
+			wfr.dfw = defaultFrameWriter{}
 			wfrPool.Put(wfr)
 			return
 		}
@@ -485,6 +486,7 @@ func (sc *serveconn) writeFrameBytes(dfw *defaultFrameWriter) (err error) {
 
 			select {
 			case <-sc.ctx.Done():
+				dfw.detach()
 				return sc.ctx.Err()
 			}
 		}
@@ -529,15 +531,16 @@ func (sc *serveconn) writeFrameBytes(dfw *defaultFrameWriter) (err error) {
 		}
 
 		err = <-wfr.result
-		wfr.dfw = nil
+		wfr.dfw = defaultFrameWriter{}
 		wfrPool.Put(wfr)
 		return
 
 	case err := <-wfr.result:
-		wfr.dfw = nil
+		wfr.dfw = defaultFrameWriter{}
 		wfrPool.Put(wfr)
 		return err
 	case <-sc.ctx.Done():
+		dfw.detach()
 		return sc.ctx.Err()
 	}
 
@@ -636,7 +639,7 @@ func (sc *serveconn) collectWriteFrames(batch int) error {
 	for i := 0; i < batch; i++ {
 		select {
 		case res = <-sc.writeFrameCh:
-			dfw = res.dfw
+			dfw = &res.dfw
 			flags = dfw.Flags()
 			requestID = dfw.RequestID()
 
-- 
2.43.0


From 35a1dd6072070ae5bb965cece377b9235469b6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:53 +0000
Subject: [PATCH 38/60] fix: handlers of the first client connection find its
 ClientConnectionInfo

---
 clientconn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clientconn.go b/clientconn.go
index d1d48b8..361e9ac 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -203,7 +203,7 @@ func newConnection(rwc net.Conn, addr []string, conf ConnectionConfig, f SubFunc
 
 	if rwc != nil {
 		// loopxxx should be paired with rwc
-		loopCtx, loopCancelCtx := context.WithCancel(ctx)
+		loopCtx, loopCancelCtx := context.WithCancel(c.ctx)
 		c.loopCancelCtx = loopCancelCtx
 		atomic.StorePointer((*unsafe.Pointer)((unsafe.Pointer)(&c.loopCtx)), unsafe.Pointer(&loopCtx))
 		c.loopBytesWriter = NewWriterWithTimeout(loopCtx, rwc, conf.WriteTimeout)
-- 
2.43.0


From 70c4d452592999b6074b2430a330334069b6e853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:32 +0000
Subject: [PATCH 39/60] fix: Shutdown closes listeners not served yet

---
 server.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/server.go b/server.go
index acf631c..7f4ea9c 100644
--- a/server.go
+++ b/server.go
@@ -230,6 +230,16 @@ func (srv *Server) ListenAll() (err error) {
 			}
 
 		}
+
+		// tracked from now on, as Shutdown may come before Serve
+		srv.mu.Lock()
+		if srv.done {
+			srv.mu.Unlock()
+			srv.bindings[i].ln.Close()
+			return ErrServerClosed
+		}
+		srv.listeners[i] = srv.bindings[i].ln
+		srv.mu.Unlock()
 	}
 
 	return
-- 
2.43.0


From 99eb461c0c752a4ab4b98d2eabc51a3d66fc842d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:31 +0000
Subject: [PATCH 40/60] fix: Shutdown releases blocking handlers waiting for
 the client

---
 serveconn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serveconn.go b/serveconn.go
index 8012b91..8866c3b 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -436,6 +436,8 @@ func (sc *serveconn) readFrames() (err error) {
 			select {
 			case <-gate:
 			case <-ctx.Done():
+				// serve can't close it before the handler returns, which may be waiting for a response
+				sc.Close()
 				return ctx.Err()
 			}
 		}
-- 
2.43.0


From 7ecffa158783acea4fe89e79c7ed0490ceacb4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:57 +0000
Subject: [PATCH 41/60] fix: api calls return when their context ends while
 dialing or sending

---
 api.go | 45 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/api.go b/api.go
index 5c83178..3c840dd 100644
--- a/api.go
+++ b/api.go
@@ -132,7 +132,38 @@ func (api *defaultAPI) CallOne(ctx context.Context, endpoint string, cmd Cmd, pa
 	return api.callViaIdx(ctx, idx, cmd, payload)
 }
 
-func (api *defaultAPI) callViaIdx(ctx context.Context, idx int, cmd Cmd, payload []byte) (result *Frame, err error) {
+// withContext runs f, which may block on dialing or on a peer that doesn't read, but not longer than ctx
+func (api *defaultAPI) withContext(ctx context.Context, payload []byte, f func(payload []byte) (*Frame, error)) (*Frame, error) {
+	if ctx.Done() == nil {
+		return f(payload)
+	}
+	if err := ctx.Err(); err != nil {
+		return nil, err
+	}
+
+	// f may outlive the call, but payload belongs to the caller again afterwards
+	payload = append([]byte(nil), payload...)
+	ch := make(chan *APIResult, 1)
+	util.GoFunc(&sync.WaitGroup{}, func() {
+		frame, err := f(payload)
+		ch <- &APIResult{Frame: frame, Err: err}
+	})
+
+	select {
+	case r := <-ch:
+		return r.Frame, r.Err
+	case <-ctx.Done():
+		return nil, ctx.Err()
+	}
+}
+
+func (api *defaultAPI) callViaIdx(ctx context.Context, idx int, cmd Cmd, payload []byte) (*Frame, error) {
+	return api.withContext(ctx, payload, func(payload []byte) (*Frame, error) {
+		return api.doCallViaIdx(ctx, idx, cmd, payload)
+	})
+}
+
+func (api *defaultAPI) doCallViaIdx(ctx context.Context, idx int, cmd Cmd, payload []byte) (result *Frame, err error) {
 	c, ok := api.conns.Load(idx)
 	if !ok {
 		return api.callWithoutConn(ctx, idx, cmd, payload)
@@ -160,6 +191,10 @@ func (api *defaultAPI) callWithoutConn(ctx context.Context, idx int, cmd Cmd, pa
 		}
 		api.safeStoreConnLocked(idx, conn)
 		api.mu.Unlock()
+		// may have ended while dialing
+		if err := ctx.Err(); err != nil {
+			return nil, err
+		}
 		_, resp, err := conn.Request(cmd, NBFlag, payload)
 		if err != nil {
 			api.safeCloseDeleteConn(idx, conn)
@@ -215,7 +250,13 @@ func (api *defaultAPI) reconnectIdx(idx int) (*Connection, error) {
 	return conn, nil
 }
 
-func (api *defaultAPI) callViaActiveConns(ctx context.Context, cmd Cmd, payload []byte) (result *Frame, err error) {
+func (api *defaultAPI) callViaActiveConns(ctx context.Context, cmd Cmd, payload []byte) (*Frame, error) {
+	return api.withContext(ctx, payload, func(payload []byte) (*Frame, error) {
+		return api.doCallViaActiveConns(ctx, cmd, payload)
+	})
+}
+
+func (api *defaultAPI) doCallViaActiveConns(ctx context.Context, cmd Cmd, payload []byte) (result *Frame, err error) {
 	err = ErrNotActiveConn
 	var resp Response
 	api.activeConns.Range(func(k, v interface{}) bool {
-- 
2.43.0


From 4e6d92e5333322fe45f0555719cda8838cd6e332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:33 +0000
Subject: [PATCH 42/60] fix: service calls to a server that does not read
 return when their context ends

---
 codegen/client.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/codegen/client.go b/codegen/client.go
index 1543259..d292245 100644
--- a/codegen/client.go
+++ b/codegen/client.go
@@ -50,8 +50,12 @@ func (client *Client) Request(ctx context.Context, ns, name string, inBytes []by
 	idx := atomic.AddUint32(&client.idx, 1)
 	for i := range client.conns {
 		j := (i + int(idx)) % len(client.conns)
-		requestID, resp, err = client.conns[j].Request(client.cmd, qrpc.NBFlag, bytes)
+		requestID, resp, err = client.send(ctx, client.conns[j], bytes)
 		if err != nil {
+			if ctx.Err() != nil {
+				err = ctx.Err()
+				return
+			}
 			continue
 		}
 		frame, err = resp.GetFrameWithContext(ctx)
@@ -76,3 +80,33 @@ func (client *Client) Request(ctx context.Context, ns, name string, inBytes []by
 	err = ErrServiceNA
 	return
 }
+
+// send is like conn.Request, but doesn't wait longer than ctx for a server that doesn't read
+func (client *Client) send(ctx context.Context, conn *qrpc.Connection, bytes []byte) (uint64, qrpc.Response, error) {
+	if ctx.Done() == nil {
+		return conn.Request(client.cmd, qrpc.NBFlag, bytes)
+	}
+
+	type sent struct {
+		requestID uint64
+		resp      qrpc.Response
+		err       error
+	}
+	ch := make(chan sent, 1)
+	go func() {
+		requestID, resp, err := conn.Request(client.cmd, qrpc.NBFlag, bytes)
+		ch <- sent{requestID: requestID, resp: resp, err: err}
+	}()
+
+	select {
+	case r := <-ch:
+		return r.requestID, r.resp, r.err
+	case <-ctx.Done():
+		go func() {
+			if r := <-ch; r.err == nil {
+				conn.ResetFrame(r.requestID, 0)
+			}
+		}()
+		return 0, nil, ctx.Err()
+	}
+}
-- 
2.43.0


From c913714ab2c2e12e54e001c551b07dc3ed691968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:20 +0000
Subject: [PATCH 43/60] fix: the dial timeout covers the tls and websocket
 handshakes

---
 clientconn.go       | 11 ++++++++++-
 clientconn_reuse.go |  2 +-
 ws/client/conn.go   |  2 ++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index 361e9ac..67ea444 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -138,7 +138,7 @@ func dialTCP(addr string, dialConfig DialConfig) (rwc net.Conn, err error) {
 
 	if dialConfig.TLSConf != nil {
 		tlsConn := tls.Client(rwc, dialConfig.TLSConf)
-		err = tlsConn.Handshake()
+		err = handshake(tlsConn, dialConfig.DialTimeout)
 		if err != nil {
 			rwc.Close()
 			return
@@ -150,6 +150,15 @@ func dialTCP(addr string, dialConfig DialConfig) (rwc net.Conn, err error) {
 	return
 }
 
+// handshake within timeout, if there's one
+func handshake(tlsConn *tls.Conn, timeout time.Duration) error {
+	if timeout > 0 {
+		tlsConn.SetDeadline(time.Now().Add(timeout))
+		defer tlsConn.SetDeadline(time.Time{})
+	}
+	return tlsConn.Handshake()
+}
+
 // NewConnectionWithReconnect constructs a *Connection with reconnect ability
 func NewConnectionWithReconnect(addrs []string, conf ConnectionConfig, f SubFunc) *Connection {
 	var copy []string
diff --git a/clientconn_reuse.go b/clientconn_reuse.go
index e5484e8..ed2eee3 100644
--- a/clientconn_reuse.go
+++ b/clientconn_reuse.go
@@ -20,7 +20,7 @@ func NewReusedConnection(addr string, conf ConnectionConfig, f SubFunc) (*Connec
 
 	if conf.TLSConf != nil {
 		tlsConn := tls.Client(rwc, conf.TLSConf)
-		err = tlsConn.Handshake()
+		err = handshake(tlsConn, conf.DialTimeout)
 		if err != nil {
 			rwc.Close()
 			return nil, err
diff --git a/ws/client/conn.go b/ws/client/conn.go
index ccca656..3710b2a 100644
--- a/ws/client/conn.go
+++ b/ws/client/conn.go
@@ -45,6 +45,8 @@ func DialConn(address string, dialConfig qrpc.DialConfig) (nc net.Conn, err erro
 			return
 		},
 		TLSClientConfig: dialConfig.TLSConf,
+		// otherwise a silent peer blocks the dial forever
+		HandshakeTimeout: dialConfig.DialTimeout,
 	}
 	if dialConfig.TLSConf != nil {
 		wc, resp, err = dialer.Dial("wss://"+address+"/qrpc", http.Header{})
-- 
2.43.0


From d5b6458166dc60d5fd5cada75566ba659bb1ddd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:57 +0000
Subject: [PATCH 44/60] fix: GetReusedCon does not race with the end of the
 connection

---
 clientconn_reuse.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clientconn_reuse.go b/clientconn_reuse.go
index ed2eee3..be1a4db 100644
--- a/clientconn_reuse.go
+++ b/clientconn_reuse.go
@@ -33,5 +33,7 @@ func NewReusedConnection(addr string, conf ConnectionConfig, f SubFunc) (*Connec
 
 // GetReusedCon returns the underlying reuse-able socket
 func (conn *Connection) GetReusedCon() net.Conn {
+	conn.mu.Lock()
+	defer conn.mu.Unlock()
 	return conn.rwc
 }
-- 
2.43.0


From 957a90ec9e2766b09a5edbe36413f32c2bb82364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:42 +0000
Subject: [PATCH 45/60] fix: a takeover is counted once when several
 connections take the same id

---
 server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 7f4ea9c..7c1c24b 100644
--- a/server.go
+++ b/server.go
@@ -500,7 +500,8 @@ check:
 			}
 		}
 
-		if srv.bindings[idx].CounterMetric != nil {
+		if ok && srv.bindings[idx].CounterMetric != nil {
+			// whoever untracked vsc counts
 			errStr := fmt.Sprintf("%v", err)
 			countlvs := []string{"method", "kickoff", "error", errStr}
 			srv.bindings[idx].CounterMetric.With(countlvs...).Add(1)
-- 
2.43.0


From 9225ac0aaf72f1111573304750e747d7d808980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:07 +0000
Subject: [PATCH 46/60] fix: qrpcurl does not crash after sending a pushed
 frame

---
 tool/qrpcurl/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tool/qrpcurl/main.go b/tool/qrpcurl/main.go
index a0932bc..b663f36 100644
--- a/tool/qrpcurl/main.go
+++ b/tool/qrpcurl/main.go
@@ -92,6 +92,11 @@ func main() {
 			fmt.Println(payload)
 			fmt.Println("")
 
+			if resp == nil {
+				// a pushed frame has no response
+				return
+			}
+
 			frame, err := resp.GetFrame()
 			if err != nil {
 				fmt.Println("get response fail:", err)
-- 
2.43.0


From 092c280487815927990cf9359f86dffa0fd56a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:57 +0000
Subject: [PATCH 47/60] fix: generated code compiles with types of packages
 named like its variables or predeclared identifiers

---
 codegen/generator.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/codegen/generator.go b/codegen/generator.go
index 44e4a17..95e496b 100644
--- a/codegen/generator.go
+++ b/codegen/generator.go
@@ -10,6 +10,7 @@ import (
 	"strings"
 
 	"go/format"
+	"go/types"
 	"path/filepath"
 
 	"github.com/gogo/protobuf/protoc-gen-gogo/generator"
@@ -31,6 +32,14 @@ const (
 	defaultRPCErrCmd
 )
 
+func init() {
+	// packages of inputs and outputs must not shadow what the generated code refers to
+	names := append(types.Universe.Names(), "m", "s", "ctx", "inBytes", "outBytes", "err", "ns", "ss", "ssInterface", "init")
+	for _, name := range names {
+		generator.RegisterUniquePackageName(name, nil)
+	}
+}
+
 // New creates a Generator with default cmds
 func New(serviceName string) *Generator {
 	return NewWithCmd(serviceName, defaultRPCCmd, defaultRPCErrCmd)
-- 
2.43.0


From 69ae38b83875e1f39d5b31364098478b9000d479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:57 +0000
Subject: [PATCH 48/60] fix: generated code of a service with a method named
 Client compiles

---
 codegen/generator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/codegen/generator.go b/codegen/generator.go
index 95e496b..2c34e9c 100644
--- a/codegen/generator.go
+++ b/codegen/generator.go
@@ -206,7 +206,7 @@ func (g *Generator) Generate() {
 	// struct
 	structName := unexport(g.serviceName) + "Client"
 	g.P("type ", structName, " struct {")
-	g.P("	*", codegenPkgAlias, ".Client")
+	g.P("	client *", codegenPkgAlias, ".Client")
 	g.P("}")
 	g.P()
 	g.P("func New", g.serviceName, "Client(addrs []string, conf ", qrpcPkgAlias, ".ConnectionConfig) ", g.serviceName, "Client {")
@@ -224,7 +224,7 @@ func (g *Generator) Generate() {
 			continue
 		}
 		g.P("func (c ", unexport(g.serviceName), "Client) ", ns, "Client() ", g.serviceName, ns, "Client {")
-		g.P("	return ", unexport(g.serviceName), ns, "Client{c.Client}")
+		g.P("	return ", unexport(g.serviceName), ns, "Client{c.client}")
 		g.P("}")
 		g.P()
 	}
@@ -245,7 +245,7 @@ func (g *Generator) Generate() {
 
 		// struct
 		g.P("type ", unexport(g.serviceName), ns, "Client struct {")
-		g.P("	*", codegenPkgAlias, ".Client")
+		g.P("	client *", codegenPkgAlias, ".Client")
 		g.P("}")
 		g.P()
 
@@ -410,7 +410,7 @@ func (g *Generator) generateClientMethod(ns, name string, method reflect.Value)
 	}
 
 	g.P("func (c ", unexport(g.serviceName), ns, "Client)", name, "(ctx ", contextPkgAlias, ".Context, input ", inFQType, ") (output ", outFQType, ") {")
-	g.P("	cc := c.Client")
+	g.P("	cc := c.client")
 	if inTypePtrIsMarshaler {
 		g.P("	inBytes, err := input.Marshal()")
 	} else {
-- 
2.43.0


From 67543779a25a0880017e71933b9cb7ea71ee8a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:58 +0000
Subject: [PATCH 49/60] fix: the generator refuses methods with another context
 type, which cannot satisfy the generated interface

---
 codegen/generator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codegen/generator.go b/codegen/generator.go
index 2c34e9c..fbbb676 100644
--- a/codegen/generator.go
+++ b/codegen/generator.go
@@ -90,8 +90,8 @@ func checkFuncIO(fun reflect.Value) {
 	if len(inTypes) != 2 {
 		panic(fmt.Sprintf("input count not 2:%v", fun))
 	}
-	if !inTypes[0].Implements(ctxType) {
-		panic(fmt.Sprintf("first input not impl context.Context:%v", fun))
+	if inTypes[0] != ctxType {
+		panic(fmt.Sprintf("first input not context.Context:%v", fun))
 	}
 
 	outTypes := util.FuncOutputTypes(fun)
-- 
2.43.0


From 83a0326ea55e51608bda34ec7dc5d8e33ed11573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:58 +0000
Subject: [PATCH 50/60] fix: the generator refuses input and output types
 generated code cannot refer to

---
 codegen/generator.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/codegen/generator.go b/codegen/generator.go
index fbbb676..a466f8b 100644
--- a/codegen/generator.go
+++ b/codegen/generator.go
@@ -10,6 +10,7 @@ import (
 	"strings"
 
 	"go/format"
+	"go/token"
 	"go/types"
 	"path/filepath"
 
@@ -102,6 +103,26 @@ func checkFuncIO(fun reflect.Value) {
 	if !reflect.PtrTo(outTypes[0]).Implements(outputType) {
 		panic(fmt.Sprintf("output not impl Output:%v %v", fun, outTypes[0]))
 	}
+
+	checkNamed(inTypes[1])
+	checkNamed(outTypes[0])
+}
+
+// checkNamed panics if generated code can't refer to t by its package and name
+func checkNamed(t reflect.Type) {
+	name := t.Name()
+	if name == "" {
+		panic(fmt.Sprintf("type has no name:%v", t))
+	}
+	if t.PkgPath() == "main" {
+		panic(fmt.Sprintf("type in package main:%v", t))
+	}
+	if t.PkgPath() != "" && !token.IsExported(name) {
+		panic(fmt.Sprintf("type not exported:%v", t))
+	}
+	if strings.Contains(name, ".") {
+		panic(fmt.Sprintf("type has type arguments from packages:%v", t))
+	}
 }
 
 const (
-- 
2.43.0


From 7695e3fe4367ac8fbee090b28804bbc81358e084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:58 +0000
Subject: [PATCH 51/60] fix: the generator refuses a method named like the
 accessor of a sub service

---
 codegen/generator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codegen/generator.go b/codegen/generator.go
index a466f8b..988582f 100644
--- a/codegen/generator.go
+++ b/codegen/generator.go
@@ -203,6 +203,12 @@ func (g *Generator) pkgLastName(fqPkg string) string {
 // Generate for generating code
 func (g *Generator) Generate() {
 
+	for ns := range g.services {
+		if _, ok := g.services[""][ns+"Client"]; ok && ns != "" {
+			panic(fmt.Sprintf("method %sClient conflicts with service %s", ns, ns))
+		}
+	}
+
 	g.generatePkg()
 	g.generateImports()
 
-- 
2.43.0


From 054c6d6bce15dd24a4930103f0c20482176fd5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:07 +0000
Subject: [PATCH 52/60] fix: a reused connection has the buffer sizes
 configured

---
 clientconn_reuse.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/clientconn_reuse.go b/clientconn_reuse.go
index be1a4db..2f6413f 100644
--- a/clientconn_reuse.go
+++ b/clientconn_reuse.go
@@ -18,6 +18,21 @@ func NewReusedConnection(addr string, conf ConnectionConfig, f SubFunc) (*Connec
 		return nil, err
 	}
 
+	if tc, ok := rwc.(*net.TCPConn); ok {
+		if conf.RBufSize > 0 {
+			sockOptErr := tc.SetReadBuffer(conf.RBufSize)
+			if sockOptErr != nil {
+				l.Error("SetReadBuffer", zap.Int("RBufSize", conf.RBufSize), zap.Error(sockOptErr))
+			}
+		}
+		if conf.WBufSize > 0 {
+			sockOptErr := tc.SetWriteBuffer(conf.WBufSize)
+			if sockOptErr != nil {
+				l.Error("SetWriteBuffer", zap.Int("WBufSize", conf.WBufSize), zap.Error(sockOptErr))
+			}
+		}
+	}
+
 	if conf.TLSConf != nil {
 		tlsConn := tls.Client(rwc, conf.TLSConf)
 		err = handshake(tlsConn, conf.DialTimeout)
-- 
2.43.0


From 6c3f58015c6320068876bcf77152ebef28becf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:08 +0000
Subject: [PATCH 53/60] fix: connections of the ws overlay over tls can be
 tuned

---
 ws/server/conn.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ws/server/conn.go b/ws/server/conn.go
index d4bc556..302ac0f 100644
--- a/ws/server/conn.go
+++ b/ws/server/conn.go
@@ -103,7 +103,11 @@ func (c *conn) SetWriteDeadline(t time.Time) (err error) {
 
 // getTCPConn returns the underlying tcp conn
 func (c *conn) getTCPConn() *net.TCPConn {
-	return c.wc.UnderlyingConn().(*net.TCPConn)
+	nc := c.wc.UnderlyingConn()
+	if tc, ok := nc.(interface{ NetConn() net.Conn }); ok { // over tls
+		nc = tc.NetConn()
+	}
+	return nc.(*net.TCPConn)
 }
 
 func (c *conn) SetKeepAlive(keepalive bool) (err error) {
-- 
2.43.0


From 6e22433c73ec5eb575af13099364d4c6911b1278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:58 +0000
Subject: [PATCH 54/60] fix: a failing accept does not end the service of the
 ws overlay

---
 ws/server/overlay.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/ws/server/overlay.go b/ws/server/overlay.go
index 1ec9532..8b929cd 100644
--- a/ws/server/overlay.go
+++ b/ws/server/overlay.go
@@ -5,6 +5,7 @@ import (
 	"crypto/tls"
 	"net"
 	"net/http"
+	"time"
 
 	"github.com/gorilla/websocket"
 	"github.com/zhiqiangxu/qrpc"
@@ -76,13 +77,43 @@ func newOverlay(l net.Listener, tlsConfig *tls.Config) (o *qrpcOverWS) {
 	}
 
 	go func() {
-		err := httpServer.Serve(l)
+		err := httpServer.Serve(&retryListener{Listener: l, ctx: ctx})
 		qrpc.Logger().Error("httpServer.Serve", zap.Error(err))
 	}()
 
 	return
 }
 
+// retryListener keeps trying when Accept fails, as http.Server would stop serving for good
+type retryListener struct {
+	net.Listener
+	ctx context.Context
+}
+
+func (rl *retryListener) Accept() (conn net.Conn, err error) {
+	for {
+		conn, err = rl.Listener.Accept()
+		if err == nil {
+			return
+		}
+		if ne, ok := err.(net.Error); ok && ne.Temporary() {
+			return // http.Server retries those
+		}
+
+		select {
+		case <-rl.ctx.Done():
+			return
+		default:
+		}
+		qrpc.Logger().Error("retryListener.Accept", zap.Error(err))
+		select {
+		case <-rl.ctx.Done():
+			return
+		case <-time.After(time.Second):
+		}
+	}
+}
+
 func (o *qrpcOverWS) Accept() (conn net.Conn, err error) {
 	select {
 	case c := <-o.acceptCh:
-- 
2.43.0


From 74e48d888de2303711f3052e787d7524d206b2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:59 +0000
Subject: [PATCH 55/60] fix: an accepted connection that cannot be served is
 closed

---
 server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server.go b/server.go
index 7c1c24b..a792874 100644
--- a/server.go
+++ b/server.go
@@ -397,6 +397,7 @@ func (ln *TCPKeepAliveListener) Accept() (c net.Conn, err error) {
 		ok bool
 	)
 	if tc, ok = c.(TCPConn); !ok {
+		c.Close()
 		err = ErrListenerAcceptReturnType
 		return
 	}
-- 
2.43.0


From 668d7dbab925eb6ae1f03e7016056ee98f71060d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:06 +0000
Subject: [PATCH 56/60] fix: a refused last frame does not end the stream with
 the next one

---
 framewriter.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/framewriter.go b/framewriter.go
index 36d6403..61279e6 100644
--- a/framewriter.go
+++ b/framewriter.go
@@ -163,10 +163,18 @@ func (dfw *defaultFrameWriter) Length() int {
 }
 
 func (dfw *defaultFrameWriter) StreamEndWrite(end bool) error {
-	if end {
-		dfw.SetFlags(dfw.Flags().ToEndStream())
+	if !end {
+		return dfw.EndWrite()
 	}
-	return dfw.EndWrite()
+
+	flags := dfw.Flags()
+	dfw.SetFlags(flags.ToEndStream())
+	err := dfw.EndWrite()
+	if err != nil {
+		// the stream is not ended, StartWrite keeps the flags
+		dfw.SetFlags(flags)
+	}
+	return err
 }
 
 func (dfw *defaultFrameWriter) ResetFrame(requestID uint64, reason Cmd) error {
-- 
2.43.0


From 948d4fcea4f5431a70e23d38e896d9e97b9c2701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:07 +0000
Subject: [PATCH 57/60] fix: the frame size limit may exceed 32 bits

---
 framereader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framereader.go b/framereader.go
index 404e166..ea1e25f 100644
--- a/framereader.go
+++ b/framereader.go
@@ -106,7 +106,7 @@ func (dfr *defaultFrameReader) readFrame() (*Frame, error) {
 	flags := FrameFlag(cmdAndFlags >> 24)
 	l.Debug("readFrame", zap.Uint32("size", size), zap.Uint64("requestID", requestID), zap.Uint32("cmd", uint32(cmd)), zap.Uint8("flags", uint8(flags)))
 
-	if dfr.maxFrameSize > 0 && size > uint32(dfr.maxFrameSize) {
+	if dfr.maxFrameSize > 0 && uint64(size) > uint64(dfr.maxFrameSize) {
 		l.Error("ErrFrameTooLarge", zap.Uint32("size", size), zap.Uint32("cmd", uint32(cmd)), zap.Uint64("requestID", requestID))
 		return nil, ErrFrameTooLarge
 	}
-- 
2.43.0


From 1f340ed047701299b3b1ef9185989795d7ea425c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:57 +0000
Subject: [PATCH 58/60] fix: calling an API whose endpoints all have weight
 zero does not panic

---
 api.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/api.go b/api.go
index 3c840dd..7f0203e 100644
--- a/api.go
+++ b/api.go
@@ -278,6 +278,10 @@ func (api *defaultAPI) doCallViaActiveConns(ctx context.Context, cmd Cmd, payloa
 }
 
 func (api *defaultAPI) getIdx() int {
+	if api.totalWeight <= 0 {
+		// none is preferred
+		return rand.Intn(len(api.endpoints))
+	}
 	targetWeight := rand.Intn(api.totalWeight)
 	sumWeight := 0
 	for idx, weight := range api.weights {
-- 
2.43.0


From 3a5b2a50276b8ae45fce1c74827dcd23a5ce0845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:59 +0000
Subject: [PATCH 59/60] fix: an API keeps its own copy of the weights

---
 api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api.go b/api.go
index 7f0203e..54ca8b8 100644
--- a/api.go
+++ b/api.go
@@ -45,7 +45,7 @@ func NewAPI(endpoints []string, conf ConnectionConfig, weights []int) API {
 	copy(ep, endpoints)
 
 	idxMap := make(map[string]int)
-	d := &defaultAPI{endpoints: ep, weights: weights, totalWeight: totalWeight, conf: conf}
+	d := &defaultAPI{endpoints: ep, weights: append([]int(nil), weights...), totalWeight: totalWeight, conf: conf}
 
 	for idx, endpoint := range endpoints {
 		idxMap[endpoint] = idx
-- 
2.43.0


From 68ff8d09e93b789e54e3997341be097f63613e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:11 +0000
Subject: [PATCH 60/60] fix: servers made from the same bindings do not share
 listeners

---
 server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server.go b/server.go
index a792874..3fba18c 100644
--- a/server.go
+++ b/server.go
@@ -153,6 +153,8 @@ type throttle struct {
 
 // NewServer creates a server
 func NewServer(bindings []ServerBinding) *Server {
+	// own copy, which also keeps the listeners
+	bindings = append([]ServerBinding(nil), bindings...)
 	closeRateLimiter := make([]ratelimit.Limiter, len(bindings))
 	for idx, binding := range bindings {
 		if binding.MaxCloseRate != 0 {
-- 
2.43.0

