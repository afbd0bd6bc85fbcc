From 98150192f2f0b772c2fddf82f60fe702461ac514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:47 +0000
Subject: [PATCH 01/15] fix: clear Subscription.subList when a subscription
 leaves the list

Ack, Nack and FindByIdAndRemove removed the subscription from the list but
left its back pointer set, so the next Add of an acknowledged subscription
panicked ("subscription is already in a subscription list") and took the
whole server down.
---
 server/client/subscription_list.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/client/subscription_list.go b/server/client/subscription_list.go
index 5630517..2e5942a 100644
--- a/server/client/subscription_list.go
+++ b/server/client/subscription_list.go
@@ -59,6 +59,7 @@ func (sl *SubscriptionList) FindByIdAndRemove(id string) *Subscription {
 		sub := e.Value.(*Subscription)
 		if sub.id == id {
 			sl.subs.Remove(e)
+			sub.subList = nil
 			return sub
 		}
 	}
@@ -74,6 +75,7 @@ func (sl *SubscriptionList) Ack(msgId uint64, callback func(s *Subscription)) {
 		sub := e.Value.(*Subscription)
 		if sub.IsAckedBy(msgId) {
 			sl.subs.Remove(e)
+			sub.subList = nil
 			callback(sub)
 		}
 		e = next
@@ -90,6 +92,7 @@ func (sl *SubscriptionList) Nack(msgId uint64, callback func(s *Subscription)) {
 		sub := e.Value.(*Subscription)
 		if sub.IsNackedBy(msgId) {
 			sl.subs.Remove(e)
+			sub.subList = nil
 			callback(sub)
 		}
 		e = next
-- 
2.43.0


From ab6184cbfdf39660344ecf83bb1ed4364c7d4aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:48 +0000
Subject: [PATCH 02/15] fix: record the message-id a subscription is waiting to
 have acknowledged

Subscription.msgId was never assigned, so an ACK or NACK for a
client-individual subscription never matched and any ACK released every
client mode subscription, whatever message it named.
---
 server/client/conn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index f363775..804c78c 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -419,6 +419,8 @@ func (c *Conn) allocateMessageId(f *frame.Frame, sub *Subscription) {
 			f.Header.Del(frame.Ack)
 		} else {
 			f.Header.Set(frame.Ack, messageId)
+			// remember which message the client has to acknowledge
+			sub.msgId = c.lastMsgId
 		}
 	}
 }
-- 
2.43.0


From 95553968d87f1f7ec3fcb27fcd5ae5547cf5072e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:48 +0000
Subject: [PATCH 03/15] fix: accept the STOMP 1.2 id header in ACK and NACK
 frames

STOMP 1.2 clients (including the one in this module) identify the message
with the id header. The server insisted on message-id and dropped the
connection with an ERROR frame.
---
 server/client/conn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index 804c78c..0765da8 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -664,6 +664,9 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 
 	if ack, ok := f.Header.Contains(frame.Ack); ok {
 		msgId = ack
+	} else if id, ok := f.Header.Contains(frame.Id); ok && c.version == stomp.V12 {
+		// STOMP 1.2 names the message in the id header
+		msgId = id
 	} else if msgId, ok = f.Header.Contains(frame.MessageId); !ok {
 		return missingHeader(frame.MessageId)
 	}
@@ -707,6 +710,9 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 
 	if ack, ok := f.Header.Contains(frame.Ack); ok {
 		msgId = ack
+	} else if id, ok := f.Header.Contains(frame.Id); ok && c.version == stomp.V12 {
+		// STOMP 1.2 names the message in the id header
+		msgId = id
 	} else if msgId, ok = f.Header.Contains(frame.MessageId); !ok {
 		return missingHeader(frame.MessageId)
 	}
-- 
2.43.0


From bb69874767ff9aabd09e19e34b246e2b2703e895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 04/15] fix: reject SEND frames without a destination header

The frame was passed on to the request processor, which panics when the
destination is missing: any client could take the server down.
---
 server/client/conn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index 0765da8..3545b3e 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -756,6 +756,11 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 // this method is called after a SEND message is received,
 // but also after a transaction commit.
 func (c *Conn) handleSend(f *frame.Frame) error {
+	// the upper layer relies on the destination being present
+	if _, ok := f.Header.Contains(frame.Destination); !ok {
+		return missingHeader(frame.Destination)
+	}
+
 	// Send a receipt and remove the header
 	err := c.sendReceiptImmediately(f)
 	if err != nil {
-- 
2.43.0


From e5f3e971226836618cf3d5e4f8058907cb015fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 05/15] fix: reject SUBSCRIBE frames with an unknown ack mode

The value was stored as is, and the first ACK received while a message of
such a subscription was outstanding panicked in Subscription.IsAckedBy.
---
 server/client/conn.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index 3545b3e..4f8845e 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -626,6 +626,13 @@ func (c *Conn) handleSubscribe(f *frame.Frame) error {
 		ack = frame.AckAuto
 	}
 
+	switch ack {
+	case frame.AckAuto, frame.AckClient, frame.AckClientIndividual:
+		// valid ack mode
+	default:
+		return invalidHeaderValue
+	}
+
 	sub, ok := c.subs[id]
 	if ok {
 		return subscriptionExists
-- 
2.43.0


From 2ba66692e768cfb2af771477af3d0fb6ae5a5d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 06/15] fix: send receipts for SUBSCRIBE and UNSUBSCRIBE frames

Every other client frame was answered with a RECEIPT when it asked for one,
these two were not. The client in this module waits for the receipt of its
UNSUBSCRIBE frames.
---
 server/client/conn.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/server/client/conn.go b/server/client/conn.go
index 4f8845e..6ac11a9 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -638,6 +638,12 @@ func (c *Conn) handleSubscribe(f *frame.Frame) error {
 		return subscriptionExists
 	}
 
+	// Send a receipt and remove the header
+	err := c.sendReceiptImmediately(f)
+	if err != nil {
+		return err
+	}
+
 	sub = newSubscription(c, dest, id, ack)
 	c.subs[id] = sub
 
@@ -657,6 +663,12 @@ func (c *Conn) handleUnsubscribe(f *frame.Frame) error {
 		return subscriptionNotFound
 	}
 
+	// Send a receipt and remove the header
+	err := c.sendReceiptImmediately(f)
+	if err != nil {
+		return err
+	}
+
 	// remove the subscription
 	delete(c.subs, id)
 
-- 
2.43.0


From 743cc4d653ade442511927c26c0df07b1ee0bb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 07/15] fix: do not revive a subscription that has been
 unsubscribed

An ACK or NACK received after UNSUBSCRIBE put the dead subscription back on
the queue's list. If the client then disconnected nobody removed it, and the
next message sent to the queue was lost in the closed connection. Likewise a
message in flight for an unsubscribed subscription was delivered, and the
subscription made ready again, if its id had been reused.
---
 server/client/conn.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 6ac11a9..7af0a76 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -280,7 +280,8 @@ func (c *Conn) processLoop() {
 			// there is the possibility that the subscription
 			// has been unsubscribed just prior to receiving
 			// this, so we check
-			if _, ok = c.subs[sub.id]; ok {
+			// (and possibly replaced by another one with the same id)
+			if c.subs[sub.id] == sub {
 				// allocate a message-id, note that the
 				// subscription id has already been set
 				c.allocateMessageId(sub.frame, sub)
@@ -715,8 +716,11 @@ func (c *Conn) handleAck(f *frame.Frame) error {
 			s.frame = nil
 
 			// let the upper layer know that this subscription
-			// is ready for another frame
-			c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+			// is ready for another frame, unless the client has
+			// unsubscribed in the meantime
+			if c.subs[s.id] == s {
+				c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+			}
 		})
 	}
 
@@ -764,8 +768,11 @@ func (c *Conn) handleNack(f *frame.Frame) error {
 			s.frame = nil
 
 			// let the upper layer know that this subscription
-			// is ready for another frame
-			c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+			// is ready for another frame, unless the client has
+			// unsubscribed in the meantime
+			if c.subs[s.id] == s {
+				c.requestChannel <- Request{Op: SubscribeOp, Sub: s}
+			}
 		})
 	}
 	return nil
-- 
2.43.0


From f821088ae405ee755c60ecf27871967893792e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:16 +0000
Subject: [PATCH 08/15] fix: do not lose the wakeup of a waiting Unsubscribe

closeChannel changed the state and broadcast without holding closeMutex, so
both could happen after Unsubscribe had checked the state but before it
waited: Unsubscribe then blocked until its timeout, or for ever without one.
---
 subscription.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subscription.go b/subscription.go
index 8ca54af..6e1025c 100644
--- a/subscription.go
+++ b/subscription.go
@@ -155,6 +155,10 @@ func (s *Subscription) closeChannel(msg *Message) {
 		if msg != nil {
 			s.C <- msg
 		}
+		// hold the mutex, so that the broadcast cannot be lost between
+		// Unsubscribe checking the state and waiting for the condition
+		s.closeMutex.Lock()
+		defer s.closeMutex.Unlock()
 		atomic.StoreInt32(&s.state, subStateClosed)
 		close(s.C)
 		s.closeCond.Broadcast()
-- 
2.43.0


From dda0dbf7bfada62bad8e32e9f52460c62eb2e900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:17 +0000
Subject: [PATCH 09/15] fix: use WriteBufferSize, not ReadBufferSize, for the
 write buffer

---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 94c3108..4dabb6d 100644
--- a/conn.go
+++ b/conn.go
@@ -118,7 +118,7 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 	}
 
 	if options.WriteBufferSize > 0 {
-		writer = frame.NewWriterSize(conn, options.ReadBufferSize)
+		writer = frame.NewWriterSize(conn, options.WriteBufferSize)
 	}
 
 	readChannelCapacity := 20
-- 
2.43.0


From d2dc3c16fb2d6b30a86511ee339608c5554ec737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:17 +0000
Subject: [PATCH 10/15] fix: do not expect heart-beats that have not been
 agreed on

When the server answered that it sends no heart-beats (heart-beat:0,y), or
the client had asked for none, the connection was still closed with a read
timeout as soon as the server was silent for a while.
---
 conn.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 4dabb6d..162eec0 100644
--- a/conn.go
+++ b/conn.go
@@ -209,7 +209,11 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 			}
 		}
 
-		if readTimeout < options.ReadTimeout {
+		if readTimeout == 0 || options.ReadTimeout == 0 {
+			// the server cannot send heart-beats, or we did not ask for
+			// them: there will be none
+			readTimeout = 0
+		} else if readTimeout < options.ReadTimeout {
 			readTimeout = options.ReadTimeout
 		}
 
-- 
2.43.0


From 43234644cf28d2bfb82622d8eff66bd12151ff4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:18 +0000
Subject: [PATCH 11/15] fix: a RECEIPT that arrives after its sender timed out
 must not block

The response channels were unbuffered. When Send had given up with
ErrMsgReceiptTimeout, the RECEIPT arriving later blocked processLoop on the
abandoned channel for ever, and with it every other user of the connection.
---
 conn.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/conn.go b/conn.go
index 162eec0..ba15a56 100644
--- a/conn.go
+++ b/conn.go
@@ -489,7 +489,8 @@ func (c *Conn) Disconnect() error {
 		atomic.AddInt64(&c.writesSent, 1)
 	}
 
-	ch := make(chan *frame.Frame)
+	// buffered, so that a late RECEIPT does not block the connection
+	ch := make(chan *frame.Frame, 1)
 	c.writeCh <- writeRequest{
 		Frame: frame.New(frame.DISCONNECT, frame.Receipt, allocateId()),
 		C:     ch,
@@ -555,7 +556,8 @@ func (c *Conn) Send(destination, contentType string, body []byte, opts ...func(*
 		// receipt required
 		request := writeRequest{
 			Frame: f,
-			C:     make(chan *frame.Frame),
+			// buffered, so that a late RECEIPT does not block the connection
+			C: make(chan *frame.Frame, 1),
 		}
 
 		err := sendDataToWriteChWithTimeout(c.writeCh, request, c.msgSendTimeout)
@@ -654,7 +656,8 @@ func (c *Conn) sendFrame(f *frame.Frame) error {
 		// receipt required
 		request := writeRequest{
 			Frame: f,
-			C:     make(chan *frame.Frame),
+			// buffered, so that a late RECEIPT does not block the connection
+			C: make(chan *frame.Frame, 1),
 		}
 
 		c.writeCh <- request
-- 
2.43.0


From 87d8c2f21afa52989169c3f47aa8fcf45f20c0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:38 +0000
Subject: [PATCH 12/15] fix: AddHeader of a header to itself never terminated

---
 frame/header.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frame/header.go b/frame/header.go
index 163f513..977a41a 100644
--- a/frame/header.go
+++ b/frame/header.go
@@ -75,7 +75,8 @@ func (h *Header) Add(key, value string) {
 // AddHeader adds all of the key value pairs in header to h.
 func (h *Header) AddHeader(header *Header) {
 	if header != nil {
-		for i := 0; i < header.Len(); i++ {
+		// count first: header and h may be the same
+		for i, n := 0, header.Len(); i < n; i++ {
 			key, value := header.GetAt(i)
 			h.Add(key, value)
 		}
-- 
2.43.0


From a37a8729027e2fd6464cae73d690f1e54aeb4e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:41 +0000
Subject: [PATCH 13/15] fix: give back a queue message that could not be
 written to the client

---
 server/client/conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/client/conn.go b/server/client/conn.go
index 7af0a76..d611d3c 100644
--- a/server/client/conn.go
+++ b/server/client/conn.go
@@ -292,7 +292,9 @@ func (c *Conn) processLoop() {
 					// if there is an error writing to
 					// the client, there is not much
 					// point trying to send an ERROR frame,
-					// so just exit go-routine (after cleaning up)
+					// so just exit go-routine (after cleaning up,
+					// which requeues the frame in the upper layer)
+					c.subList.Add(sub)
 					return
 				}
 
-- 
2.43.0


From 79f44be2ac804318b522ea00d41f4e3cb652c4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:07 +0000
Subject: [PATCH 14/15] fix: do not send heart-beats that have not been agreed
 on

A client that offered to send no heart-beats (heart-beat:0,y) sent them
whenever the server had asked for some. An offer of less than a millisecond
is sent to the server as 0, so it counts as no offer.
---
 conn.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index ba15a56..ff8a5ce 100644
--- a/conn.go
+++ b/conn.go
@@ -209,7 +209,7 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 			}
 		}
 
-		if readTimeout == 0 || options.ReadTimeout == 0 {
+		if readTimeout == 0 || options.ReadTimeout < time.Millisecond {
 			// the server cannot send heart-beats, or we did not ask for
 			// them: there will be none
 			readTimeout = 0
@@ -217,6 +217,11 @@ func ConnectWithContext(ctx context.Context, conn io.ReadWriteCloser, opts ...fu
 			readTimeout = options.ReadTimeout
 		}
 
+		if options.WriteTimeout < time.Millisecond {
+			// we told the server that we do not send heart-beats
+			writeTimeout = 0
+		}
+
 		c.readTimeout = readTimeout
 		c.writeTimeout = writeTimeout
 
-- 
2.43.0


From a65a71e97cca2ceaa0ef84ea6c2aef20d061faa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:17 +0000
Subject: [PATCH 15/15] fix: the receipt of a SUBSCRIBE must not end the
 subscription

A SUBSCRIBE frame with a receipt header registered the subscription's channel
for the receipt as well: the RECEIPT closed the subscription, and an ERROR
closed its channel twice.
---
 conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index ff8a5ce..399e1ae 100644
--- a/conn.go
+++ b/conn.go
@@ -417,7 +417,9 @@ func processLoop(c *Conn, writer *frame.Writer) {
 				sendError(channels, errors.New("write channel closed"))
 				return
 			}
-			if req.C != nil {
+			// the channel of a SUBSCRIBE frame is for its subscription: it does
+			// not wait for a receipt, which would end the subscription
+			if req.C != nil && req.Frame.Command != frame.SUBSCRIBE {
 				if receipt, ok := req.Frame.Header.Contains(frame.Receipt); ok {
 					// remember the channel for this receipt
 					channels[receipt] = req.C
-- 
2.43.0

