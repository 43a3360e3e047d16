From 49d4d291cf7a32d6950c45ba6da81c2581f27695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:27 +0000
Subject: [PATCH 01/40] fix: keep the worker running after a handler returned
 an error

The worker goroutine returned, so every handler error cost the node one worker
for good; once all were gone no message was handled any more.
---
 node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 634410e..64f6d65 100644
--- a/node.go
+++ b/node.go
@@ -189,7 +189,7 @@ func (n *Node) Listen() error {
 						ctx.client.reportError(err)
 						ctx.client.close()
 
-						return
+						break
 					}
 				}
 			}
-- 
2.43.0


From 7c7cf3205dae27b39394d72399cb43baeb81f1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:28 +0000
Subject: [PATCH 02/40] fix: share the response-sent flag of a request between
 handlers

HandlerContext is passed by value, so each handler had a flag of its own and a
request could be answered once per handler.
---
 client.go | 3 ++-
 msg.go    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 85f9b9c..20ff964 100644
--- a/client.go
+++ b/client.go
@@ -9,6 +9,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"go.uber.org/atomic"
 	"go.uber.org/zap"
 	"io"
 	"net"
@@ -545,7 +546,7 @@ func (c *Client) recvLoop() {
 			continue
 		}
 
-		c.node.work <- HandlerContext{client: c, msg: msg}
+		c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}
 
 		for _, protocol := range c.node.protocols {
 			if protocol.OnMessageRecv == nil {
diff --git a/msg.go b/msg.go
index 7d25d28..ca3625e 100644
--- a/msg.go
+++ b/msg.go
@@ -37,7 +37,7 @@ func unmarshalMessage(data []byte) (message, error) {
 type HandlerContext struct {
 	client *Client
 	msg    message
-	sent   atomic.Bool
+	sent   *atomic.Bool
 }
 
 // ID returns the ID of the inbound/outbound peer that sent you the data that is currently being handled.
-- 
2.43.0


From 26f45e9f9cd8459faf465af755172b878d25fc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:28 +0000
Subject: [PATCH 03/40] fix: mark the node as listening before Listen returns

The flag was set by the accept goroutine. A Close before that goroutine ran did
not close the listener and waited forever.
---
 node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index 64f6d65..ab7c1db 100644
--- a/node.go
+++ b/node.go
@@ -196,9 +196,9 @@ func (n *Node) Listen() error {
 		}()
 	}
 
-	go func() {
-		n.listening.Store(true)
+	n.listening.Store(true)
 
+	go func() {
 		defer func() {
 			n.inbound.release()
 
-- 
2.43.0


From 768f9acccb8f7c621e8b3837a25b5391aac33764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:29 +0000
Subject: [PATCH 04/40] fix: only remove a client from the pool if the entry is
 its own

A client that had been evicted removed its successor for the same address from
the pool, leaving a live connection untracked.
---
 client.go | 4 ++--
 map.go    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/client.go b/client.go
index 20ff964..3266429 100644
--- a/client.go
+++ b/client.go
@@ -211,7 +211,7 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 	c.side = clientSideInbound
 
 	defer func() {
-		c.node.outbound.remove(addr)
+		c.node.outbound.remove(addr, c)
 		close(c.clientDone)
 	}()
 
@@ -252,7 +252,7 @@ func (c *Client) inbound(conn net.Conn, addr string) {
 	c.side = clientSideOutbound
 
 	defer func() {
-		c.node.inbound.remove(addr)
+		c.node.inbound.remove(addr, c)
 		close(c.clientDone)
 	}()
 
diff --git a/map.go b/map.go
index 58c9c12..47f1a15 100644
--- a/map.go
+++ b/map.go
@@ -56,12 +56,12 @@ func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 	return entry.client, exists
 }
 
-func (c *clientMap) remove(addr string) {
+func (c *clientMap) remove(addr string, client *Client) {
 	c.Lock()
 	defer c.Unlock()
 
 	entry, exists := c.entries[addr]
-	if !exists {
+	if !exists || entry.client != client {
 		return
 	}
 
-- 
2.43.0


From d250392725b7e80b482212114eb9378c467620fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:30 +0000
Subject: [PATCH 05/40] fix: do not wait for an evicted client while holding
 the pool lock

The evicted client needs the lock to remove itself before it counts as closed,
so every eviction deadlocked the pool.
---
 map.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/map.go b/map.go
index 47f1a15..22373f8 100644
--- a/map.go
+++ b/map.go
@@ -42,7 +42,6 @@ func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 			delete(c.entries, evicted)
 
 			e.client.close()
-			e.client.waitUntilClosed()
 		}
 
 		entry.el = c.order.PushFront(addr)
-- 
2.43.0


From 52612a5d7a330ef8399d873814e6a14029bfa7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:31 +0000
Subject: [PATCH 06/40] fix: close an accepted connection that is not going to
 be used

A connection from a remote address that still has an entry in the pool was
left open without anybody serving it.
---
 node.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index ab7c1db..cccb784 100644
--- a/node.go
+++ b/node.go
@@ -226,9 +226,12 @@ func (n *Node) Listen() error {
 			addr := conn.RemoteAddr().String()
 
 			client, exists := n.inbound.get(n, addr)
-			if !exists {
-				go client.inbound(conn, addr)
+			if exists {
+				conn.Close()
+				continue
 			}
+
+			go client.inbound(conn, addr)
 		}
 	}()
 
-- 
2.43.0


From 27319ae2e0a3251ea97f603b9fb7396ce57e51f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:30 +0000
Subject: [PATCH 07/40] fix: do not serve an outbound connection whose
 handshake failed

The read and write loops were started regardless, so messages of a peer that
never proved its identity were handled, in plaintext if no session key had been
agreed on, and the disconnected hook ran without a connected one.
---
 client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client.go b/client.go
index 3266429..e9a8f43 100644
--- a/client.go
+++ b/client.go
@@ -232,6 +232,11 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 
 	c.handshake()
 
+	if c.Error() != nil {
+		c.close()
+		return
+	}
+
 	go c.writeLoop()
 	c.recvLoop()
 	c.close()
-- 
2.43.0


From e623b03942d602029fc29bc3659526062520c781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:30 +0000
Subject: [PATCH 08/40] fix: close the connection of a client that is closed
 before it has one

Close read the connection without synchronisation, and did nothing if it had yet
to be set: the connection was then established and served all the same.
---
 client.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/client.go b/client.go
index e9a8f43..1a623b5 100644
--- a/client.go
+++ b/client.go
@@ -190,14 +190,30 @@ func (c *Client) close() {
 		c.writerCond.L.Lock()
 		c.writerClosed = true
 		c.writerCond.Signal()
+		conn := c.conn
 		c.writerCond.L.Unlock()
 
-		if c.conn != nil {
-			c.conn.Close()
+		if conn != nil {
+			conn.Close()
 		}
 	})
 }
 
+// setConn has this client use conn, which is closed right away should the client already have been closed.
+func (c *Client) setConn(conn net.Conn) {
+	c.reader = bufio.NewReader(conn)
+	c.writer = bufio.NewWriter(conn)
+
+	c.writerCond.L.Lock()
+	c.conn = conn
+	closed := c.writerClosed
+	c.writerCond.L.Unlock()
+
+	if closed {
+		conn.Close()
+	}
+}
+
 func (c *Client) waitUntilReady() {
 	<-c.ready
 }
@@ -226,9 +242,7 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 		return
 	}
 
-	c.reader = bufio.NewReader(conn)
-	c.writer = bufio.NewWriter(conn)
-	c.conn = conn
+	c.setConn(conn)
 
 	c.handshake()
 
@@ -261,9 +275,7 @@ func (c *Client) inbound(conn net.Conn, addr string) {
 		close(c.clientDone)
 	}()
 
-	c.reader = bufio.NewReader(conn)
-	c.writer = bufio.NewWriter(conn)
-	c.conn = conn
+	c.setConn(conn)
 
 	c.handshake()
 
-- 
2.43.0


From 2f4e724a8d6c32ac7ce824959f4793ea4408f3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:31 +0000
Subject: [PATCH 09/40] fix: fail to send through a closed client

Sending through a client that had been closed reported success.
---
 client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 1a623b5..7860afd 100644
--- a/client.go
+++ b/client.go
@@ -357,9 +357,14 @@ func (c *Client) write(data []byte) error {
 
 func (c *Client) send(nonce uint64, data []byte) error {
 	c.writerCond.L.Lock()
+	defer c.writerCond.L.Unlock()
+
+	if c.writerClosed {
+		return io.EOF
+	}
+
 	c.writerBuf = append(c.writerBuf, message{nonce: nonce, data: data})
 	c.writerCond.Signal()
-	c.writerCond.L.Unlock()
 
 	return nil
 }
-- 
2.43.0


From 4621fa72c22cc0c21ecb7ab0e4b40f5fc2524ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:32 +0000
Subject: [PATCH 10/40] fix: fail pending requests once their connection is
 gone

Nothing ever released the callers waiting for a response: a request whose
connection dropped blocked until its context ended, if ever.
---
 client.go |  1 +
 map.go    | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 7860afd..e734bbc 100644
--- a/client.go
+++ b/client.go
@@ -539,6 +539,7 @@ func (c *Client) handshake() {
 
 func (c *Client) recvLoop() {
 	defer close(c.readerDone)
+	defer c.requests.close()
 
 	for {
 		buf, err := c.read()
diff --git a/map.go b/map.go
index 22373f8..38f21b4 100644
--- a/map.go
+++ b/map.go
@@ -3,6 +3,7 @@ package noise
 import (
 	"container/list"
 	"errors"
+	"io"
 	"math"
 	"sync"
 )
@@ -99,6 +100,7 @@ type requestMap struct {
 	sync.Mutex
 	entries map[uint64]chan message
 	nonce   uint64
+	closed  bool
 }
 
 func newRequestMap() *requestMap {
@@ -109,6 +111,10 @@ func (r *requestMap) nextNonce() (<-chan message, uint64, error) {
 	r.Lock()
 	defer r.Unlock()
 
+	if r.closed {
+		return nil, 0, io.EOF
+	}
+
 	if r.nonce == math.MaxUint64 {
 		r.nonce = 0
 	}
@@ -130,8 +136,10 @@ func (r *requestMap) markRequestFailed(nonce uint64) {
 	r.Lock()
 	defer r.Unlock()
 
-	close(r.entries[nonce])
-	delete(r.entries, nonce)
+	if ch, exists := r.entries[nonce]; exists {
+		close(ch)
+		delete(r.entries, nonce)
+	}
 }
 
 func (r *requestMap) findRequest(nonce uint64) chan<- message {
@@ -150,6 +158,8 @@ func (r *requestMap) close() {
 	r.Lock()
 	defer r.Unlock()
 
+	r.closed = true
+
 	for nonce := range r.entries {
 		close(r.entries[nonce])
 		delete(r.entries, nonce)
-- 
2.43.0


From f4306e58f666ac2764e4278e1228aa18dacf406c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:33 +0000
Subject: [PATCH 11/40] fix: close the connection when writing to it failed

The write loop ended while the client stayed in the pool: what was sent to it
queued up forever, and requests through it were never written nor failed.
---
 client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client.go b/client.go
index e734bbc..cd4417e 100644
--- a/client.go
+++ b/client.go
@@ -583,6 +583,7 @@ func (c *Client) recvLoop() {
 
 func (c *Client) writeLoop() {
 	defer close(c.writerDone)
+	defer c.close()
 
 	header := make([]byte, 4)
 	buf := make([]byte, 0, 1024)
-- 
2.43.0


From 6c6da852edcdc57b5ac785b9407abc0d8bacc27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:33 +0000
Subject: [PATCH 12/40] fix: set the write deadline once there is something to
 write

The deadline ran from the end of the previous write, so a message sent after a
pause longer than the idle timeout failed although its peer was active.
---
 client.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/client.go b/client.go
index cd4417e..9f5f1af 100644
--- a/client.go
+++ b/client.go
@@ -598,17 +598,6 @@ Write:
 		default:
 		}
 
-		if c.node.idleTimeout > 0 {
-			if err := c.conn.SetWriteDeadline(time.Now().Add(c.node.idleTimeout)); err != nil {
-				if !isEOF(err) {
-					c.Logger().Warn("Got an error setting write deadline.", zap.Error(err))
-				}
-				c.reportError(err)
-
-				break Write
-			}
-		}
-
 		c.writerCond.L.Lock()
 		for len(c.writerBuf) == 0 && !c.writerClosed {
 			c.writerCond.Wait()
@@ -621,6 +610,17 @@ Write:
 			break Write
 		}
 
+		if c.node.idleTimeout > 0 {
+			if err := c.conn.SetWriteDeadline(time.Now().Add(c.node.idleTimeout)); err != nil {
+				if !isEOF(err) {
+					c.Logger().Warn("Got an error setting write deadline.", zap.Error(err))
+				}
+				c.reportError(err)
+
+				break Write
+			}
+		}
+
 		for _, msg := range writerBuf {
 			buf = buf[:0]
 			buf = msg.marshal(buf)
-- 
2.43.0


From a4aa48e21ee972a751f8adf578f87cd4f802c68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:34 +0000
Subject: [PATCH 13/40] fix: notify protocols about responses received

Protocol.OnMessageRecv is documented to be called for messages and responses.
---
 client.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/client.go b/client.go
index 9f5f1af..73cf766 100644
--- a/client.go
+++ b/client.go
@@ -565,12 +565,10 @@ func (c *Client) recvLoop() {
 		if ch := c.requests.findRequest(msg.nonce); ch != nil {
 			ch <- msg
 			close(ch)
-
-			continue
+		} else {
+			c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}
 		}
 
-		c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}
-
 		for _, protocol := range c.node.protocols {
 			if protocol.OnMessageRecv == nil {
 				continue
-- 
2.43.0


From cf0876e6c6d3002c5463204a1f45045d1308dd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:35 +0000
Subject: [PATCH 14/40] fix: reject a reflected session handshake

A peer that sent back our own handshake messages was accepted as holding our own
identity.
---
 client.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client.go b/client.go
index 73cf766..dd0d67f 100644
--- a/client.go
+++ b/client.go
@@ -440,6 +440,13 @@ func (c *Client) handshake() {
 	var peerPublicKey PublicKey
 	copy(peerPublicKey[:], data[:SizePublicKey])
 
+	// Our own handshake sent back to us proves nothing.
+
+	if peerPublicKey == pub {
+		c.reportError(errors.New("peer reflected our session handshake"))
+		return
+	}
+
 	// Verify ownership of our peers Ed25519 public key by verifying the signature they sent.
 
 	if !peerPublicKey.Verify([]byte(".__noise_handshake"), UnmarshalSignature(data[SizePublicKey:SizePublicKey+SizeSignature])) {
-- 
2.43.0


From 7b88b6aeced00e02057bff26093ad475a2c50bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:36 +0000
Subject: [PATCH 15/40] fix: draw nonces from a cryptographic random source

math/rand is predictable, and unseeded it yields the same sequence in every
process: both ends of a session encrypted under the same key and nonce.
---
 aead.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aead.go b/aead.go
index a9699c4..45f9ac4 100644
--- a/aead.go
+++ b/aead.go
@@ -2,8 +2,8 @@ package noise
 
 import (
 	"crypto/cipher"
+	"crypto/rand"
 	"io"
-	"math/rand"
 )
 
 func extendFront(buf []byte, n int) []byte {
-- 
2.43.0


From 65f397498b50b35fa9d422ba87de2ba54e424eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:37 +0000
Subject: [PATCH 16/40] fix: make room for messages if their size is not
 limited

WithNodeMaxRecvMessageSize(0) is documented to lift the limit, but the buffer
kept the size of the header, and the first message panicked.
---
 client.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/client.go b/client.go
index dd0d67f..f1c77ad 100644
--- a/client.go
+++ b/client.go
@@ -92,7 +92,7 @@ func newClient(node *Node) *Client {
 
 		requests: newRequestMap(),
 
-		readerBuf: make([]byte, 4+node.maxRecvMessageSize),
+		readerBuf: make([]byte, 4+uint64(node.maxRecvMessageSize)),
 
 		ready:      make(chan struct{}),
 		readerDone: make(chan struct{}),
@@ -314,15 +314,21 @@ func (c *Client) read() ([]byte, error) {
 		return nil, fmt.Errorf("got %d bytes, but limit is set to %d: %w", size, c.node.maxRecvMessageSize, ErrMessageTooLarge)
 	}
 
-	if _, err := io.ReadFull(c.reader, c.readerBuf[4:size+4]); err != nil {
+	end := 4 + uint64(size)
+
+	if end > uint64(len(c.readerBuf)) { // Only if there is no limit.
+		c.readerBuf = make([]byte, end)
+	}
+
+	if _, err := io.ReadFull(c.reader, c.readerBuf[4:end]); err != nil {
 		return nil, err
 	}
 
 	if c.suite == nil {
-		return c.readerBuf[4 : size+4], nil
+		return c.readerBuf[4:end], nil
 	}
 
-	buf, err := decryptAEAD(c.suite, c.readerBuf[4:size+4])
+	buf, err := decryptAEAD(c.suite, c.readerBuf[4:end])
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From f366c8fd8d31fe8c20548cdc3ef05d26317e252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:25 +0000
Subject: [PATCH 17/40] fix: release outbound connections when a node is closed

Close only released inbound connections. A message on an outbound connection, or
on one that had been evicted from the pool, then panicked the process by being
sent to the closed work channel, and dialling from a closed node still worked.
Close on a node that is not listening waited forever.
---
 map.go  | 21 ++++++++++++++++++++-
 node.go | 16 +++++++++++++++-
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/map.go b/map.go
index 38f21b4..4c93fbb 100644
--- a/map.go
+++ b/map.go
@@ -19,6 +19,9 @@ type clientMap struct {
 	cap     uint
 	order   *list.List
 	entries map[string]clientMapEntry
+
+	closed  bool
+	clients sync.WaitGroup // all clients ever created by get that have yet to be removed
 }
 
 func newClientMap(cap uint) *clientMap {
@@ -29,10 +32,16 @@ func newClientMap(cap uint) *clientMap {
 	}
 }
 
+// get returns the client for addr, and whether it already existed. Should it not have existed, it is up to the caller
+// to run it. The client returned is nil once the map has been released.
 func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 	c.Lock()
 	defer c.Unlock()
 
+	if c.closed {
+		return nil, false
+	}
+
 	entry, exists := c.entries[addr]
 	if !exists {
 		if uint(len(c.entries)) == n.maxInboundConnections {
@@ -48,6 +57,7 @@ func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 		entry.el = c.order.PushFront(addr)
 		entry.client = newClient(n)
 
+		c.clients.Add(1)
 		c.entries[addr] = entry
 	} else {
 		c.order.MoveToFront(entry.el)
@@ -57,6 +67,8 @@ func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 }
 
 func (c *clientMap) remove(addr string, client *Client) {
+	defer c.clients.Done()
+
 	c.Lock()
 	defer c.Unlock()
 
@@ -69,9 +81,12 @@ func (c *clientMap) remove(addr string, client *Client) {
 	delete(c.entries, addr)
 }
 
+// release closes all clients, and has get not create any more of them.
 func (c *clientMap) release() {
 	c.Lock()
 
+	c.closed = true
+
 	entries := c.entries
 	c.entries = make(map[string]clientMapEntry, c.cap)
 	c.order.Init()
@@ -80,10 +95,14 @@ func (c *clientMap) release() {
 
 	for _, e := range entries {
 		e.client.close()
-		e.client.waitUntilClosed()
 	}
 }
 
+// wait waits for all clients to be done after having called release, including those that were evicted.
+func (c *clientMap) wait() {
+	c.clients.Wait()
+}
+
 func (c *clientMap) slice() []*Client {
 	c.Lock()
 	defer c.Unlock()
diff --git a/node.go b/node.go
index cccb784..9194715 100644
--- a/node.go
+++ b/node.go
@@ -200,8 +200,12 @@ func (n *Node) Listen() error {
 
 	go func() {
 		defer func() {
+			n.outbound.release()
 			n.inbound.release()
 
+			n.outbound.wait()
+			n.inbound.wait()
+
 			close(n.work)
 			n.workers.Wait()
 
@@ -226,7 +230,7 @@ func (n *Node) Listen() error {
 			addr := conn.RemoteAddr().String()
 
 			client, exists := n.inbound.get(n, addr)
-			if exists {
+			if exists || client == nil {
 				conn.Close()
 				continue
 			}
@@ -385,6 +389,11 @@ func (n *Node) Close() error {
 		}
 	}
 
+	if n.work == nil { // (*Node).Listen was never called, or it failed.
+		n.outbound.release()
+		return nil
+	}
+
 	<-n.listenerDone
 
 	return nil
@@ -395,6 +404,11 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 
 	for i := uint(0); i < n.maxDialAttempts; i++ {
 		client, exists := n.outbound.get(n, addr)
+		if client == nil {
+			err = errors.New("node is closed")
+			break
+		}
+
 		if !exists {
 			go client.outbound(ctx, addr)
 		}
-- 
2.43.0


From beee6a682514edf1ed7689fc3c61817337a6f70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:25 +0000
Subject: [PATCH 18/40] fix: do not have Close wait for the handlers that may
 be calling it

One caller of Close returned once the listener had stopped, all others only once
all workers were done, which never happened if such a call came from a handler.
---
 node.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/node.go b/node.go
index 9194715..a240d61 100644
--- a/node.go
+++ b/node.go
@@ -54,14 +54,14 @@ type Node struct {
 	workers sync.WaitGroup
 	work    chan HandlerContext
 
-	listenerDone chan error
+	listenerDone chan struct{}
 }
 
 // NewNode instantiates a new node instance, and pre-configures the node with provided options.
 // Default values for some non-specified options are instantiated as well, which may yield an error.
 func NewNode(opts ...NodeOption) (*Node, error) {
 	n := &Node{
-		listenerDone: make(chan error, 1),
+		listenerDone: make(chan struct{}),
 
 		maxDialAttempts:        3,
 		maxInboundConnections:  128,
@@ -210,7 +210,6 @@ func (n *Node) Listen() error {
 			n.workers.Wait()
 
 			n.listening.Store(false)
-			close(n.listenerDone)
 		}()
 
 		n.logger.Info("Listening for incoming peers.",
@@ -223,7 +222,7 @@ func (n *Node) Listen() error {
 		for {
 			conn, err := n.listener.Accept()
 			if err != nil {
-				n.listenerDone <- err
+				close(n.listenerDone)
 				break
 			}
 
-- 
2.43.0


From 84cee33c2d50eaf77952ad574563cac32e281320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:26 +0000
Subject: [PATCH 19/40] fix: do not let a cancelled call take down the
 connection of others

The end of the context of one call closed the connection to that address even
if it was established and in use, and failed all other calls that waited for it
to be dialled, whatever their own context.
---
 client.go | 35 +++++++++++++++++++++++++++++++++++
 node.go   | 29 +++++++++++++++++++++++++----
 2 files changed, 60 insertions(+), 4 deletions(-)

diff --git a/client.go b/client.go
index f1c77ad..af1a451 100644
--- a/client.go
+++ b/client.go
@@ -81,6 +81,7 @@ type Client struct {
 	err struct {
 		sync.Mutex
 		error
+		established bool
 	}
 
 	closeOnce sync.Once
@@ -185,6 +186,36 @@ func (c *Client) reportError(err error) {
 	}
 }
 
+// establish marks this client to have completed its handshake, unless it has failed in the meantime.
+func (c *Client) establish() bool {
+	c.err.Lock()
+	defer c.err.Unlock()
+
+	if c.err.error != nil {
+		return false
+	}
+
+	c.err.established = true
+
+	return true
+}
+
+// abandon fails this client with err, unless it has completed its handshake in the meantime.
+func (c *Client) abandon(err error) bool {
+	c.err.Lock()
+	defer c.err.Unlock()
+
+	if c.err.established {
+		return false
+	}
+
+	if c.err.error == nil {
+		c.err.error = err
+	}
+
+	return true
+}
+
 func (c *Client) close() {
 	c.closeOnce.Do(func() {
 		c.writerCond.L.Lock()
@@ -530,6 +561,10 @@ func (c *Client) handshake() {
 		return
 	}
 
+	if !c.establish() {
+		return
+	}
+
 	c.id = id
 
 	c.SetLogger(c.Logger().With(
diff --git a/node.go b/node.go
index a240d61..a187b66 100644
--- a/node.go
+++ b/node.go
@@ -401,7 +401,7 @@ func (n *Node) Close() error {
 func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error) {
 	var err error
 
-	for i := uint(0); i < n.maxDialAttempts; i++ {
+	for i := uint(0); i < n.maxDialAttempts; {
 		client, exists := n.outbound.get(n, addr)
 		if client == nil {
 			err = errors.New("node is closed")
@@ -415,6 +415,13 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 		select {
 		case <-ctx.Done():
 			err = fmt.Errorf("failed to dial peer: %w", ctx.Err())
+
+			// Only give up on the connection if it was dialed for this call, and nobody else may be using it yet.
+
+			if !exists && client.abandon(err) {
+				client.close()
+				client.waitUntilClosed()
+			}
 		case <-client.ready:
 			err = client.Error()
 		case <-client.readerDone:
@@ -427,10 +434,18 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 			return client, nil
 		}
 
-		client.close()
-		client.waitUntilClosed()
+		if ctx.Err() == nil {
+			client.close()
+
+			select {
+			case <-ctx.Done():
+			case <-client.clientDone:
+			}
+		}
+
+		if ctx.Err() != nil {
+			err = fmt.Errorf("failed to dial peer: %w", ctx.Err())
 
-		if errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded) {
 			for _, protocol := range n.protocols {
 				if protocol.OnPingFailed == nil {
 					continue
@@ -441,6 +456,12 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 
 			return nil, err
 		}
+
+		if exists && (errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded)) {
+			continue // Somebody else gave up on dialing the peer, which is not to count as an attempt of this call.
+		}
+
+		i++
 	}
 
 	err = fmt.Errorf("attempted to dial %s several times but failed: %w", addr, err)
-- 
2.43.0


From fb78183ae77f878590aa147856b62adf12695639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:27 +0000
Subject: [PATCH 20/40] fix: stop dialling once a client is closed

Closing a client, or its node, while it was dialling had no effect until the dial
had ended by itself.
---
 client.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index af1a451..005f218 100644
--- a/client.go
+++ b/client.go
@@ -71,6 +71,8 @@ type Client struct {
 	writerCond   sync.Cond
 	writerClosed bool
 
+	dialCancel context.CancelFunc
+
 	requests *requestMap
 
 	ready      chan struct{}
@@ -221,9 +223,13 @@ func (c *Client) close() {
 		c.writerCond.L.Lock()
 		c.writerClosed = true
 		c.writerCond.Signal()
-		conn := c.conn
+		conn, dialCancel := c.conn, c.dialCancel
 		c.writerCond.L.Unlock()
 
+		if dialCancel != nil {
+			dialCancel()
+		}
+
 		if conn != nil {
 			conn.Close()
 		}
@@ -262,6 +268,18 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 		close(c.clientDone)
 	}()
 
+	ctx, cancel := context.WithCancel(ctx)
+	defer cancel()
+
+	c.writerCond.L.Lock()
+	c.dialCancel = cancel
+	closed := c.writerClosed
+	c.writerCond.L.Unlock()
+
+	if closed {
+		cancel()
+	}
+
 	var dialer net.Dialer
 
 	conn, err := dialer.DialContext(ctx, "tcp", addr)
-- 
2.43.0


From 72c2562e9a47009716b60cc23d3c61f6eaa22e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:42 +0000
Subject: [PATCH 21/40] fix: marshal 4-byte IPv4 hosts as the 16 bytes they
 stand for

A net.IP of 4 bytes was copied to the front of the field, and came out as some
unrelated IPv6 address.
---
 id.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id.go b/id.go
index b3c0afa..82f36ee 100644
--- a/id.go
+++ b/id.go
@@ -53,7 +53,7 @@ func (e ID) Marshal() []byte {
 	buf := make([]byte, e.Size())
 
 	copy(buf[:len(e.ID)], e.ID[:])
-	copy(buf[len(e.ID):len(e.ID)+net.IPv6len], e.Host)
+	copy(buf[len(e.ID):len(e.ID)+net.IPv6len], e.Host.To16())
 	binary.BigEndian.PutUint16(buf[len(e.ID)+net.IPv6len:len(e.ID)+net.IPv6len+2], e.Port)
 
 	return buf
-- 
2.43.0


From fb8a374705b1ebca65278a07a2c004531b10e206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:43 +0000
Subject: [PATCH 22/40] fix: do not panic asking for the last entry of an empty
 bucket

A full bucket may have been emptied by the time it is asked for its last entry.
---
 kademlia/table.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/kademlia/table.go b/kademlia/table.go
index 1ea256f..b3d7d96 100644
--- a/kademlia/table.go
+++ b/kademlia/table.go
@@ -37,12 +37,17 @@ func (t *Table) Self() noise.ID {
 	return t.self
 }
 
-// Last returns the last id of the bucket where target resides within.
+// Last returns the last id of the bucket where target resides within, or a zero-value ID if the bucket is empty.
 func (t *Table) Last(target noise.PublicKey) noise.ID {
 	t.RLock()
 	defer t.RUnlock()
 
-	return t.entries[t.getBucketIndex(target)].Back().Value.(noise.ID)
+	e := t.entries[t.getBucketIndex(target)].Back()
+	if e == nil {
+		return noise.ID{}
+	}
+
+	return e.Value.(noise.ID)
 }
 
 // Bucket returns all entries of a bucket where target reside within.
-- 
2.43.0


From 24efb5d483a88a6d8e0bc35345be7b3c2c789f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:43 +0000
Subject: [PATCH 23/40] fix: consider all buckets in looking for the closest
 peers

The search stopped once it had k candidates, taken alternately from the buckets
to both sides, though buckets further to the one side may hold closer peers.
---
 kademlia/table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kademlia/table.go b/kademlia/table.go
index b3d7d96..b229a12 100644
--- a/kademlia/table.go
+++ b/kademlia/table.go
@@ -181,7 +181,7 @@ func (t *Table) FindClosest(target noise.PublicKey, k int) []noise.ID {
 
 	f(t.entries[idx])
 
-	for i := 1; len(closest) < k && (idx-i >= 0 || idx+i < len(t.entries)); i++ {
+	for i := 1; idx-i >= 0 || idx+i < len(t.entries); i++ {
 		if idx-i >= 0 {
 			f(t.entries[idx-i])
 		}
-- 
2.43.0


From 2fcb094abce0fa0d1ccea61a667a4e6d17c62962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:44 +0000
Subject: [PATCH 24/40] fix: do not report a peer as evicted that was never
 admitted

---
 kademlia/protocol.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/kademlia/protocol.go b/kademlia/protocol.go
index c0eb3ad..3840be3 100644
--- a/kademlia/protocol.go
+++ b/kademlia/protocol.go
@@ -144,10 +144,6 @@ func (p *Protocol) Ack(id noise.ID) {
 			zap.String("peer_addr", id.Address),
 		)
 
-		if p.events.OnPeerEvicted != nil {
-			p.events.OnPeerEvicted(id)
-		}
-
 		return
 	}
 }
-- 
2.43.0


From 53d673791bcd4b601effc1ea9112c6c3f5a435d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:45 +0000
Subject: [PATCH 25/40] fix: ask peers for the target of the lookup

Each peer was asked for the peers closest to itself.
---
 kademlia/iterator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kademlia/iterator.go b/kademlia/iterator.go
index 9b0f3ca..e64339a 100644
--- a/kademlia/iterator.go
+++ b/kademlia/iterator.go
@@ -17,6 +17,7 @@ type Iterator struct {
 	table  *Table
 	logger *zap.Logger
 
+	target  noise.PublicKey
 	visited map[noise.PublicKey]struct{}
 	results chan noise.ID
 	buckets [][]noise.ID
@@ -72,6 +73,7 @@ func (it *Iterator) Find(target noise.PublicKey) []noise.ID {
 }
 
 func (it *Iterator) init(target noise.PublicKey) {
+	it.target = target
 	it.results = make(chan noise.ID, 1)
 
 	it.visited = map[noise.PublicKey]struct{}{
@@ -162,7 +164,7 @@ func (it *Iterator) lookupRequest(id noise.ID, out chan<- []noise.ID) {
 	ctx, cancel := context.WithTimeout(context.Background(), it.lookupTimeout)
 	defer cancel()
 
-	obj, err := it.node.RequestMessage(ctx, id.Address, FindNodeRequest{Target: id.ID})
+	obj, err := it.node.RequestMessage(ctx, id.Address, FindNodeRequest{Target: it.target})
 	if err != nil {
 		out <- nil
 		return
-- 
2.43.0


From 50af11cd26cb5b5e85cd855450cdc6ee5c61142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:45 +0000
Subject: [PATCH 26/40] fix: keep track of messages of any size

The cache silently drops keys of 64KB and more, so large messages were never
recognized as seen, and circulated forever.
---
 gossip/protocol.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gossip/protocol.go b/gossip/protocol.go
index c5ae995..09bf61b 100644
--- a/gossip/protocol.go
+++ b/gossip/protocol.go
@@ -4,6 +4,7 @@ package gossip
 
 import (
 	"context"
+	"crypto/sha256"
 	"github.com/VictoriaMetrics/fastcache"
 	"github.com/perlin-network/noise"
 	"github.com/perlin-network/noise/kademlia"
@@ -125,5 +126,7 @@ func (p *Protocol) Handle(ctx noise.HandlerContext) error {
 }
 
 func (p *Protocol) hash(id noise.ID, data []byte) []byte {
-	return append(id.ID[:], data...)
+	sum := sha256.Sum256(data)
+
+	return append(id.ID[:], sum[:]...)
 }
-- 
2.43.0


From 68cf57aa41787516623d3de6185d0d6d8f17a18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:46 +0000
Subject: [PATCH 27/40] fix: check and mark messages as seen at once

Copies of a message handled concurrently were all reported and forwarded.
---
 gossip/protocol.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/gossip/protocol.go b/gossip/protocol.go
index 09bf61b..adbb5fd 100644
--- a/gossip/protocol.go
+++ b/gossip/protocol.go
@@ -18,6 +18,7 @@ type Protocol struct {
 	overlay *kademlia.Protocol
 	events  Events
 
+	mu   sync.Mutex
 	seen *fastcache.Cache
 }
 
@@ -73,15 +74,14 @@ func (p *Protocol) Push(ctx context.Context, data []byte) {
 		go func() {
 			defer wg.Done()
 
-			if p.seen.Has(key) {
+			if p.mark(key) {
 				return
 			}
 
 			if err := p.node.SendMessage(ctx, id.Address, Message(data)); err != nil {
+				p.seen.Del(key)
 				return
 			}
-
-			p.seen.Set(key, nil)
 		}()
 	}
 
@@ -108,12 +108,10 @@ func (p *Protocol) Handle(ctx noise.HandlerContext) error {
 
 	self := p.hash(p.node.ID(), msg)
 
-	if p.seen.Has(self) {
+	if p.mark(self) { // Mark that we already have this data.
 		return nil
 	}
 
-	p.seen.Set(self, nil) // Mark that we already have this data.
-
 	if p.events.OnGossipReceived != nil {
 		if err := p.events.OnGossipReceived(ctx.ID(), msg); err != nil {
 			return err
@@ -125,6 +123,20 @@ func (p *Protocol) Handle(ctx noise.HandlerContext) error {
 	return nil
 }
 
+// mark records key as seen, and returns whether it already was.
+func (p *Protocol) mark(key []byte) bool {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	if p.seen.Has(key) {
+		return true
+	}
+
+	p.seen.Set(key, nil)
+
+	return false
+}
+
 func (p *Protocol) hash(id noise.ID, data []byte) []byte {
 	sum := sha256.Sum256(data)
 
-- 
2.43.0


From ae805e45e2edb6b1e2c6ef405ebcb555468bc33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:15 +0000
Subject: [PATCH 28/40] fix: wait for the write loop before a client counts as
 closed

WaitUntilClosed is documented to wait for all goroutines of a client, yet its
write loop might still be running, and the sent hook be called, after the
disconnected hook.
---
 client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client.go b/client.go
index 005f218..6d4aa9c 100644
--- a/client.go
+++ b/client.go
@@ -303,6 +303,7 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 	go c.writeLoop()
 	c.recvLoop()
 	c.close()
+	<-c.writerDone
 
 	c.Logger().Debug("Peer connection closed.")
 
@@ -336,6 +337,7 @@ func (c *Client) inbound(conn net.Conn, addr string) {
 	go c.writeLoop()
 	c.recvLoop()
 	c.close()
+	<-c.writerDone
 
 	for _, protocol := range c.node.protocols {
 		if protocol.OnPeerDisconnected == nil {
-- 
2.43.0


From cfc26745f06023e4c9b96ee77471ca6a4df4e753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:38 +0000
Subject: [PATCH 29/40] fix: encode messages whose type was registered as a
 pointer

A type registered as RegisterMessage(&T{}, ...) was accepted but could never
be encoded, since encode only ever looked up the type pointed to. Encoding nil
panicked rather than returning an error.
---
 codec.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/codec.go b/codec.go
index 3d627f2..ab8c4ef 100644
--- a/codec.go
+++ b/codec.go
@@ -2,6 +2,7 @@ package noise
 
 import (
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"io"
 	"math"
@@ -61,11 +62,17 @@ func (c *codec) encode(msg Serializable) ([]byte, error) {
 
 	t := reflect.TypeOf(msg)
 
-	if t.Kind() == reflect.Ptr {
-		t = t.Elem()
+	if t == nil {
+		return nil, errors.New("cannot encode a nil message")
 	}
 
 	opcode, registered := c.ser[t]
+
+	if !registered && t.Kind() == reflect.Ptr {
+		t = t.Elem()
+		opcode, registered = c.ser[t]
+	}
+
 	if !registered {
 		return nil, fmt.Errorf("opcode not registered for message type %+v", t)
 	}
-- 
2.43.0


From 1967a049838768a60d03c34ee5f2753e1c5e3070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:39 +0000
Subject: [PATCH 30/40] fix: refuse to register more message types than there
 are opcodes

The opcode counter wrapped around, so that the 65537th type was given the opcode
of the first, whose messages were decoded as the wrong type from there on.
---
 codec.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codec.go b/codec.go
index ab8c4ef..bbdd3f0 100644
--- a/codec.go
+++ b/codec.go
@@ -48,6 +48,10 @@ func (c *codec) register(ser Serializable, de interface{}) uint16 {
 		panic(fmt.Errorf("provided decoder for message type %+v is %s, but expected %s", t, d, expected))
 	}
 
+	if len(c.de) > math.MaxUint16 {
+		panic(fmt.Errorf("attempted to register type %+v, but all opcodes are taken", t))
+	}
+
 	c.ser[t] = c.counter
 	c.de[c.counter] = d
 
-- 
2.43.0


From c74ad166123f2b385f29ca51619589fc192ea807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:39 +0000
Subject: [PATCH 31/40] fix: do not hold the codec's lock while running a
 type's Marshal or decoder

A Marshal or decoder that itself encodes or decodes a nested message deadlocked
with a concurrent registration waiting for the lock.
---
 codec.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/codec.go b/codec.go
index bbdd3f0..7f1f768 100644
--- a/codec.go
+++ b/codec.go
@@ -61,21 +61,20 @@ func (c *codec) register(ser Serializable, de interface{}) uint16 {
 }
 
 func (c *codec) encode(msg Serializable) ([]byte, error) {
-	c.RLock()
-	defer c.RUnlock()
-
 	t := reflect.TypeOf(msg)
 
 	if t == nil {
 		return nil, errors.New("cannot encode a nil message")
 	}
 
+	c.RLock()
 	opcode, registered := c.ser[t]
 
 	if !registered && t.Kind() == reflect.Ptr {
 		t = t.Elem()
 		opcode, registered = c.ser[t]
 	}
+	c.RUnlock()
 
 	if !registered {
 		return nil, fmt.Errorf("opcode not registered for message type %+v", t)
@@ -96,9 +95,9 @@ func (c *codec) decode(data []byte) (Serializable, error) {
 	data = data[2:]
 
 	c.RLock()
-	defer c.RUnlock()
-
 	decoder, registered := c.de[opcode]
+	c.RUnlock()
+
 	if !registered {
 		return nil, fmt.Errorf("opcode %d is not registered", opcode)
 	}
-- 
2.43.0


From 0e9865429b28ae566b423c78c8601b9ab0b79def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:22 +0000
Subject: [PATCH 32/40] fix: do not let a client's ID be read while it is being
 set

Clients that are still handshaking are listed by Inbound and Outbound, and their
ID, which may be called concurrently, raced with the handshake setting it.
---
 client.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/client.go b/client.go
index 6d4aa9c..107eddc 100644
--- a/client.go
+++ b/client.go
@@ -116,6 +116,9 @@ func newClient(node *Node) *Client {
 //
 // ID may be called concurrently.
 func (c *Client) ID() ID {
+	c.err.Lock()
+	defer c.err.Unlock()
+
 	return c.id
 }
 
@@ -188,8 +191,8 @@ func (c *Client) reportError(err error) {
 	}
 }
 
-// establish marks this client to have completed its handshake, unless it has failed in the meantime.
-func (c *Client) establish() bool {
+// establish marks this client to have completed its handshake with id, unless it has failed in the meantime.
+func (c *Client) establish(id ID) bool {
 	c.err.Lock()
 	defer c.err.Unlock()
 
@@ -198,6 +201,7 @@ func (c *Client) establish() bool {
 	}
 
 	c.err.established = true
+	c.id = id
 
 	return true
 }
@@ -581,12 +585,10 @@ func (c *Client) handshake() {
 		return
 	}
 
-	if !c.establish() {
+	if !c.establish(id) {
 		return
 	}
 
-	c.id = id
-
 	c.SetLogger(c.Logger().With(
 		zap.String("peer_id", id.ID.String()),
 		zap.String("peer_addr", id.Address),
-- 
2.43.0


From d594b6fc20d1367937b805e56032413cfed9f069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:57 +0000
Subject: [PATCH 33/40] fix: register protocols and handlers one at a time

Bind and Handle may be called concurrently, but appended to the node's slices
without any synchronisation, so that registrations were lost.
---
 node.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index a187b66..c87ec40 100644
--- a/node.go
+++ b/node.go
@@ -44,6 +44,8 @@ type Node struct {
 	listener  net.Listener
 	listening atomic.Bool
 
+	registering sync.Mutex // held while protocols/handlers are registered
+
 	outbound *clientMap
 	inbound  *clientMap
 
@@ -178,6 +180,10 @@ func (n *Node) Listen() error {
 	n.work = make(chan HandlerContext, int(n.numWorkers))
 	n.workers.Add(int(n.numWorkers))
 
+	n.registering.Lock()
+	n.listening.Store(true)
+	n.registering.Unlock()
+
 	for i := uint(0); i < n.numWorkers; i++ {
 		go func() {
 			defer n.workers.Done()
@@ -196,8 +202,6 @@ func (n *Node) Listen() error {
 		}()
 	}
 
-	n.listening.Store(true)
-
 	go func() {
 		defer func() {
 			n.outbound.release()
@@ -484,6 +488,9 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 //
 // Bind may be called concurrently.
 func (n *Node) Bind(protocols ...Protocol) {
+	n.registering.Lock()
+	defer n.registering.Unlock()
+
 	if n.listening.Load() {
 		return
 	}
@@ -498,6 +505,9 @@ func (n *Node) Bind(protocols ...Protocol) {
 //
 // Handle may be called concurrently.
 func (n *Node) Handle(handlers ...Handler) {
+	n.registering.Lock()
+	defer n.registering.Unlock()
+
 	if n.listening.Load() {
 		return
 	}
-- 
2.43.0


From 3515694b907f337378c51e7c4782dfcbda090c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:10 +0000
Subject: [PATCH 34/40] fix: lookups ask peers, not whoever is at their address

---
 kademlia/iterator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kademlia/iterator.go b/kademlia/iterator.go
index e64339a..db91836 100644
--- a/kademlia/iterator.go
+++ b/kademlia/iterator.go
@@ -164,6 +164,12 @@ func (it *Iterator) lookupRequest(id noise.ID, out chan<- []noise.ID) {
 	ctx, cancel := context.WithTimeout(context.Background(), it.lookupTimeout)
 	defer cancel()
 
+	client, err := it.node.Ping(ctx, id.Address)
+	if err != nil || client.ID().ID != id.ID { // Somebody else is at the address of the peer.
+		out <- nil
+		return
+	}
+
 	obj, err := it.node.RequestMessage(ctx, id.Address, FindNodeRequest{Target: it.target})
 	if err != nil {
 		out <- nil
-- 
2.43.0


From b093c82f7161540ff0f61c81d4763ee16efee334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:10 +0000
Subject: [PATCH 35/40] fix: an eviction ping has to be answered by the peer
 that is pinged

---
 kademlia/protocol.go | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/kademlia/protocol.go b/kademlia/protocol.go
index 3840be3..2fcbf5a 100644
--- a/kademlia/protocol.go
+++ b/kademlia/protocol.go
@@ -71,6 +71,20 @@ func (p *Protocol) Ping(ctx context.Context, addr string) error {
 	return nil
 }
 
+// ping is Ping, but also returns an error should it not be the peer id which is at the address of id.
+func (p *Protocol) ping(ctx context.Context, id noise.ID) error {
+	client, err := p.node.Ping(ctx, id.Address)
+	if err != nil {
+		return fmt.Errorf("failed to ping: %w", err)
+	}
+
+	if client.ID().ID != id.ID {
+		return errors.New("somebody else is at the address of the peer")
+	}
+
+	return p.Ping(ctx, id.Address)
+}
+
 // Table returns this Kademlia overlay's routing table from your nodes perspective.
 func (p *Protocol) Table() *Table {
 	return p.table
@@ -106,7 +120,7 @@ func (p *Protocol) Ack(id noise.ID) {
 		last := p.table.Last(id.ID)
 
 		ctx, cancel := context.WithTimeout(context.Background(), p.pingTimeout)
-		pong, err := p.node.RequestMessage(ctx, last.Address, Ping{})
+		err = p.ping(ctx, last)
 		cancel()
 
 		if err != nil {
@@ -124,21 +138,6 @@ func (p *Protocol) Ack(id noise.ID) {
 			continue
 		}
 
-		if _, ok := pong.(Pong); !ok {
-			if id, deleted := p.table.Delete(last.ID); deleted {
-				p.logger.Debug("Peer was evicted from routing table by failing to be pinged.",
-					zap.String("peer_id", id.String()),
-					zap.String("peer_addr", id.Address),
-					zap.Error(err),
-				)
-
-				if p.events.OnPeerEvicted != nil {
-					p.events.OnPeerEvicted(id)
-				}
-			}
-			continue
-		}
-
 		p.logger.Debug("Peer failed to be inserted into routing table as it's intended bucket is full.",
 			zap.String("peer_id", id.String()),
 			zap.String("peer_addr", id.Address),
-- 
2.43.0


From 2fe08f0805163ade0af105b4fa5769965ccae997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:22 +0000
Subject: [PATCH 36/40] fix: do not retain the data of a message after it was
 accepted

---
 client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 107eddc..2824e26 100644
--- a/client.go
+++ b/client.go
@@ -424,7 +424,8 @@ func (c *Client) send(nonce uint64, data []byte) error {
 		return io.EOF
 	}
 
-	c.writerBuf = append(c.writerBuf, message{nonce: nonce, data: data})
+	// The caller may reuse data once it was accepted.
+	c.writerBuf = append(c.writerBuf, message{nonce: nonce, data: append([]byte(nil), data...)})
 	c.writerCond.Signal()
 
 	return nil
-- 
2.43.0


From e5a948d296fba897b41ac1d7be9112db6c2b22f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:50 +0000
Subject: [PATCH 37/40] fix: a connection whose messages wait for a worker can
 be closed

A connection blocked handing a message to busy workers, or to a node that never listened, neither noticed
being closed nor released anything: requests pending on it and WaitUntilClosed waited for ever.
---
 client.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 2824e26..1bb1c12 100644
--- a/client.go
+++ b/client.go
@@ -80,6 +80,8 @@ type Client struct {
 	writerDone chan struct{}
 	clientDone chan struct{}
 
+	closed chan struct{} // closed by close
+
 	err struct {
 		sync.Mutex
 		error
@@ -102,6 +104,8 @@ func newClient(node *Node) *Client {
 		writerDone: make(chan struct{}),
 
 		clientDone: make(chan struct{}),
+
+		closed: make(chan struct{}),
 	}
 
 	c.writerCond.L = &sync.Mutex{}
@@ -230,6 +234,8 @@ func (c *Client) close() {
 		conn, dialCancel := c.conn, c.dialCancel
 		c.writerCond.L.Unlock()
 
+		close(c.closed)
+
 		if dialCancel != nil {
 			dialCancel()
 		}
@@ -636,8 +642,13 @@ func (c *Client) recvLoop() {
 		if ch := c.requests.findRequest(msg.nonce); ch != nil {
 			ch <- msg
 			close(ch)
-		} else {
-			c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}
+		} else if c.node.work != nil { // Nobody handles messages unless (*Node).Listen was called.
+			select {
+			case c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}:
+			case <-c.closed:
+				c.reportError(io.EOF)
+				return
+			}
 		}
 
 		for _, protocol := range c.node.protocols {
-- 
2.43.0


From 293014151c2284303696a8ab45ba9acc89f1908b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:50 +0000
Subject: [PATCH 38/40] fix: gossip that cannot be forwarded to a peer no
 longer occupies a worker

Forwarding waited, within the message handler and without a deadline, for every peer to be connected to: as many
messages as there are workers and one peer that does not answer a dial or stalls in the handshake stopped the node.
---
 gossip/protocol.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gossip/protocol.go b/gossip/protocol.go
index adbb5fd..e41fe6b 100644
--- a/gossip/protocol.go
+++ b/gossip/protocol.go
@@ -118,7 +118,9 @@ func (p *Protocol) Handle(ctx noise.HandlerContext) error {
 		}
 	}
 
-	p.Push(context.Background(), msg)
+	// Peers that are slow to connect to must not keep a worker of the node from handling other messages.
+
+	go p.Push(context.Background(), append([]byte(nil), msg...))
 
 	return nil
 }
-- 
2.43.0


From 2b2a6fe97d15e6b9dc667591bba6def13f352902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:32 +0000
Subject: [PATCH 39/40] fix: a failure to accept a connection does not stop the
 node

Accepting fails for passing reasons, such as the process having run out of file descriptors: the node stopped
listening and dropped all of its connections, and said so to nobody.
---
 node.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/node.go b/node.go
index c87ec40..7ed784e 100644
--- a/node.go
+++ b/node.go
@@ -225,6 +225,13 @@ func (n *Node) Listen() error {
 
 		for {
 			conn, err := n.listener.Accept()
+			if err != nil && n.listening.Load() { // Out of file descriptors for example, which is no reason to stop.
+				n.logger.Warn("Got an error accepting an incoming peer.", zap.Error(err))
+
+				time.Sleep(10 * time.Millisecond)
+				continue
+			}
+
 			if err != nil {
 				close(n.listenerDone)
 				break
-- 
2.43.0


From fcaec7540e6f19a9a8f8c0ef043a82e7882711f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:15 +0000
Subject: [PATCH 40/40] fix: a closed node refuses to listen

---
 map.go  | 8 ++++++++
 node.go | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/map.go b/map.go
index 4c93fbb..e7044ff 100644
--- a/map.go
+++ b/map.go
@@ -98,6 +98,14 @@ func (c *clientMap) release() {
 	}
 }
 
+// released returns whether release was called.
+func (c *clientMap) released() bool {
+	c.Lock()
+	defer c.Unlock()
+
+	return c.closed
+}
+
 // wait waits for all clients to be done after having called release, including those that were evicted.
 func (c *clientMap) wait() {
 	c.clients.Wait()
diff --git a/node.go b/node.go
index 7ed784e..de4eff1 100644
--- a/node.go
+++ b/node.go
@@ -113,6 +113,10 @@ func (n *Node) Listen() error {
 		return errors.New("node is already listening")
 	}
 
+	if n.work != nil || n.outbound.released() {
+		return errors.New("node is closed")
+	}
+
 	var err error
 
 	defer func() {
-- 
2.43.0

