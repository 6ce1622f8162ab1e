From 0fd5d15dc824b0b736d99782cf1c3f1af95052e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 01/39] fix: decode request, response and request cancel
 packets

Decode dereferenced a nil embedded packet for requests and responses, and
neither decoder knew the request cancel packet, so a cancelled call tore
down the receiving connection.
---
 packet/decode.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/packet/decode.go b/packet/decode.go
index 07cc120..d917355 100644
--- a/packet/decode.go
+++ b/packet/decode.go
@@ -116,13 +116,23 @@ func Decode(data []byte) (Packet, uint32, error) {
 		return pkt, n, err
 
 	case TypeRequestPacket:
-		pkt := &RequestPacket{}
+		pkt := &RequestPacket{
+			&MessagePacket{},
+		}
 		pkt.PacketHeader = pktHdr
 		n, err = pkt.Decode(data[14:])
 		return pkt, n, err
 
 	case TypeResponsePacket:
-		pkt := &ResponsePacket{}
+		pkt := &ResponsePacket{
+			&MessageAckPacket{},
+		}
+		pkt.PacketHeader = pktHdr
+		n, err = pkt.Decode(data[14:])
+		return pkt, n, err
+
+	case TypeRequestCancelPacket:
+		pkt := &RequestCancelPacket{}
 		pkt.PacketHeader = pktHdr
 		n, err = pkt.Decode(data[14:])
 		return pkt, n, err
@@ -250,6 +260,12 @@ func DecodeFromReader(reader io.Reader) (Packet, error) {
 		err = pkt.DecodeFromReader(reader)
 		return pkt, err
 
+	case TypeRequestCancelPacket:
+		pkt := &RequestCancelPacket{}
+		pkt.PacketHeader = pktHdr
+		err = pkt.DecodeFromReader(reader)
+		return pkt, err
+
 	default:
 		return nil, ErrUnsupportedPacket
 	}
-- 
2.43.0


From 422e194e034b3d3c2dd6825a19c133363068d6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:41 +0000
Subject: [PATCH 02/39] fix: reject packets shorter than their fixed part

A payload length below the fixed part of a packet made the decoders slice
out of range (or allocate ~4GB for a conn packet) and panic.
---
 packet/decode.go      | 26 ++++++++++++++++++++++++++
 packet/packet_data.go |  2 +-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/packet/decode.go b/packet/decode.go
index d917355..280ce1a 100644
--- a/packet/decode.go
+++ b/packet/decode.go
@@ -13,6 +13,26 @@ var (
 	ErrIllegalPacket     = errors.New("illegal packet")
 )
 
+// minPacketLen returns the length of the fixed part of a packet's payload
+func minPacketLen(typ Type) uint32 {
+	switch typ {
+	case TypeConnPacket, TypeSessionPacket, TypeRequestCancelPacket:
+		return 10
+	case TypeConnAckPacket:
+		return 9
+	case TypeDisConnAckPacket:
+		return 1
+	case TypeSessionAckPacket:
+		return 18
+	case TypeDismissPacket, TypeDismissAckPacket,
+		TypeMessagePacket, TypeMessageAckPacket, TypeStreamPacket,
+		TypeRequestPacket, TypeResponsePacket,
+		TypeRegisterPacket, TypeRegisterAckPacket:
+		return 8
+	}
+	return 0
+}
+
 func Decode(data []byte) (Packet, uint32, error) {
 	pktHdr := &PacketHeader{}
 	n, err := pktHdr.Decode(data)
@@ -23,6 +43,9 @@ func Decode(data []byte) (Packet, uint32, error) {
 	if uint32(len(data)-14) < pktHdr.PacketLen {
 		return pktHdr, 14, ErrExpectingData
 	}
+	if pktHdr.PacketLen < minPacketLen(pktHdr.Typ) {
+		return pktHdr, 14, ErrIllegalPacket
+	}
 
 	switch pktHdr.Typ {
 	case TypeConnPacket:
@@ -152,6 +175,9 @@ func DecodeFromReader(reader io.Reader) (Packet, error) {
 		return nil, err
 	}
 	//log.Tracef("DecodeFromReader | incoming underlay %s", pktHdr.Typ.String())
+	if pktHdr.PacketLen < minPacketLen(pktHdr.Typ) {
+		return nil, ErrIllegalPacket
+	}
 
 	switch pktHdr.Typ {
 	case TypeConnPacket:
diff --git a/packet/packet_data.go b/packet/packet_data.go
index c6dca77..e65f835 100644
--- a/packet/packet_data.go
+++ b/packet/packet_data.go
@@ -83,7 +83,7 @@ func (pkt *RequestCancelPacket) DecodeFromReader(reader io.Reader) error {
 	// session id
 	pkt.sessionID = binary.BigEndian.Uint64(data[:8])
 	// cancel type
-	pkt.cancelType = RequestCancelType(binary.BigEndian.Uint16(data[8:pkt.PacketLen]))
+	pkt.cancelType = RequestCancelType(binary.BigEndian.Uint16(data[8:10]))
 	return nil
 }
 
-- 
2.43.0


From a23577277c8ccea048d647a2610834c380c133a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:52 +0000
Subject: [PATCH 03/39] fix: encode a 320 second heartbeat as what it is

The 2-bit code of a 320 second heartbeat was computed as the one of 80
seconds, so the server gave up on such clients after 160 seconds.
---
 packet/packet_conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packet/packet_conn.go b/packet/packet_conn.go
index 994087e..d7b47be 100644
--- a/packet/packet_conn.go
+++ b/packet/packet_conn.go
@@ -79,7 +79,7 @@ func (connPkt *ConnPacket) Encode() ([]byte, error) {
 		pkt[0] |= 0x08
 	}
 	if connPkt.Heartbeat != Heartbeat5 {
-		pkt[0] |= byte(math.Pow(float64(connPkt.Heartbeat)/5, 0.25)) << 4
+		pkt[0] |= byte(math.Round(math.Log2(float64(connPkt.Heartbeat)/5)/2)) << 4
 	}
 	// client id
 	binary.BigEndian.PutUint64(pkt[2:10], connPkt.ClientID)
-- 
2.43.0


From 13abf44f3452e3063ba2dd04dd85d3aaed2dce24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 04/39] fix: start even and odd id counters from an even number

The random start was left odd half of the time, so even mode drew odd
identifiers and odd mode even ones.
---
 pkg/id/id.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/id/id.go b/pkg/id/id.go
index 5367ba2..26f3fdb 100644
--- a/pkg/id/id.go
+++ b/pkg/id/id.go
@@ -102,6 +102,6 @@ func randomUint32() uint32 {
 	if err != nil {
 		return 0
 	}
-	b[0] |= 0x00 // a random even number
+	b[0] &= 0xFE // a random even number
 	return (uint32(b[0]) << 0) | (uint32(b[1]) << 8) | (uint32(b[2]) << 16) | (uint32(b[3]) << 24)
 }
-- 
2.43.0


From b197c00529845b5a22ade017b7d79cb0cd9f8817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 05/39] fix: order the conn handshake against what may come
 right after

The client inserted its sync after the conn packet was on its way, losing
an early ack, and the server let the end write before the conn ack.
---
 conn/conn_client.go | 9 +++++----
 conn/conn_server.go | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index 8bd5560..156abd7 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -149,9 +149,6 @@ func newClientConn(netconn net.Conn, opts ...ClientConnOption) (*ClientConn, err
 	cc.hbTick = cc.tmr.Add(time.Duration(cc.heartbeat)*time.Second,
 		timer.WithHandler(cc.sendHeartbeat), timer.WithCyclically())
 	// start
-	go cc.readPkt()
-	go cc.writePkt()
-	go cc.handlePkt()
 	err = cc.connect()
 	if err != nil {
 		goto ERR
@@ -199,8 +196,12 @@ func (cc *ClientConn) initFSM() {
 
 func (cc *ClientConn) connect() error {
 	pkt := cc.pf.NewConnPacket(cc.clientID, true, cc.heartbeat, cc.meta)
-	cc.writeInCh <- pkt
 	sync := cc.shub.New(pkt.PacketID, synchub.WithTimeout(10*time.Second))
+	cc.writeInCh <- pkt
+	// in case of the conn ack or the end of the conn comes before the sync is inserted
+	go cc.readPkt()
+	go cc.writePkt()
+	go cc.handlePkt()
 	event := <-sync.C()
 
 	if event.Error != nil {
diff --git a/conn/conn_server.go b/conn/conn_server.go
index c1b9474..0c7d3e9 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -323,10 +323,10 @@ func (sc *ServerConn) handleInConnPacket(pkt *packet.ConnPacket) iodefine.IORet
 			return iodefine.IOSuccess
 		}
 	}
-	// the first packet received.
-	sc.shub.Ack(sc.getSyncID(), nil)
 	retPkt := sc.pf.NewConnAckPacket(pkt.PacketID, sc.clientID, nil)
 	sc.writeInCh <- retPkt
+	// the first packet received, the ack must be the first one out.
+	sc.shub.Ack(sc.getSyncID(), nil)
 
 	// set the heartbeat
 	sc.heartbeat = pkt.Heartbeat
-- 
2.43.0


From 5a22cc2a71f9520c52183e65aafece0ff0b7d332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:55 +0000
Subject: [PATCH 06/39] fix: notify a conn offline exactly when it went online

The server forgot an onlined conn which broke before its ack went out, the
client reported the offline of conns which were refused.
---
 conn/conn_client.go | 2 +-
 conn/conn_server.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index 156abd7..3037948 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -246,7 +246,7 @@ func (cc *ClientConn) handlePkt() {
 	}
 FINI:
 	cc.log.Debugf("handle pkt done, clientID: %d", cc.clientID)
-	if cc.dlgt != nil && cc.clientID != 0 {
+	if cc.dlgt != nil && cc.onlined {
 		// not that delegate is different from server's delegate
 		cc.dlgt.ConnOffline(cc)
 	}
diff --git a/conn/conn_server.go b/conn/conn_server.go
index 0c7d3e9..252bc11 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -323,6 +323,7 @@ func (sc *ServerConn) handleInConnPacket(pkt *packet.ConnPacket) iodefine.IORet
 			return iodefine.IOSuccess
 		}
 	}
+	sc.onlined = true
 	retPkt := sc.pf.NewConnAckPacket(pkt.PacketID, sc.clientID, nil)
 	sc.writeInCh <- retPkt
 	// the first packet received, the ack must be the first one out.
@@ -391,7 +392,6 @@ func (sc *ServerConn) handleOutConnAckPacket(pkt *packet.ConnAckPacket) iodefine
 	sc.writeOutCh <- pkt
 	sc.log.Debugf("send conn ack succeed, clientID: %d, packetID: %d, remote: %s, meta: %s",
 		sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta))
-	sc.onlined = true
 	return iodefine.IOSuccess
 }
 
-- 
2.43.0


From 83a871594300e9aeabe55b2d8eba29d7d81a6aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:25 +0000
Subject: [PATCH 07/39] fix: never leave anyone blocked on a finishing conn

A write error ended writePkt without ending the conn, after which handlePkt,
every writer and Close blocked for good; fini waited for writers which held
the lock, and handlePkt could wait for itself when answering a dis conn.
---
 conn/conn_base.go   | 40 ++++++++++++++++++++++++++++++++--------
 conn/conn_client.go | 20 +++++++-------------
 conn/conn_server.go |  6 +++---
 3 files changed, 42 insertions(+), 24 deletions(-)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index 8f4ff4e..2af789b 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -74,12 +74,13 @@ type baseConn struct {
 
 	connOK  bool
 	connMtx sync.RWMutex
+	// closed when the conn is finishing, releases everyone blocked on io channels
+	finiCh chan struct{}
 }
 
 func (bc *baseConn) Read() (packet.Packet, error) {
 	pkt, ok := <-bc.readOutCh
 	if !ok {
-		bc.readOutCh = nil
 		return nil, io.EOF
 	}
 	return pkt, nil
@@ -95,8 +96,17 @@ func (bc *baseConn) Write(pkt packet.Packet) error {
 	if !bc.connOK {
 		return io.EOF
 	}
-	bc.writeInCh <- pkt
-	return nil
+	return bc.writeIn(pkt)
+}
+
+// writeIn must be called with connMtx held
+func (bc *baseConn) writeIn(pkt packet.Packet) error {
+	select {
+	case bc.writeInCh <- pkt:
+		return nil
+	case <-bc.finiCh:
+		return io.EOF
+	}
 }
 
 // common read/write/handle
@@ -114,10 +124,17 @@ func (bc *baseConn) writePkt() {
 			bc.log.Tracef("conn write down, clientID: %d, packetID: %d, packetType: %s",
 				bc.clientID, pkt.ID(), pkt.Type().String())
 			record := !packet.ConnLayer(pkt)
+			if err != nil {
+				// the net Conn is broken, keep draining until the layer closed
+				if record && bc.failedCh != nil {
+					bc.failedCh <- pkt
+				}
+				continue
+			}
 			err = bc.dowritePkt(pkt, record)
 			if err != nil {
 				// write to net Conn error, we should close the layer
-				return
+				bc.netconn.Close()
 			}
 		}
 	}
@@ -152,7 +169,11 @@ func (bc *baseConn) readPkt() {
 		}
 		bc.log.Tracef("read %s , clientID: %d, packetID: %d, packetType: %s",
 			pkt.Type().String(), bc.clientID, pkt.ID(), pkt.Type().String())
-		readInCh <- pkt
+		select {
+		case readInCh <- pkt:
+		case <-bc.finiCh:
+			goto FINI
+		}
 	}
 FINI:
 	close(readInCh)
@@ -170,9 +191,12 @@ func (bc *baseConn) handleInDisConnPacket(pkt *packet.DisConnPacket) iodefine.IO
 		return iodefine.IOErr
 	}
 	retPkt := bc.pf.NewDisConnAckPacket(pkt.PacketID, nil)
-	bc.writeInCh <- retPkt
-	// send our side close while receiving close packet
-	bc.Close()
+	// handlePkt itself must not wait for writeInCh
+	go func() {
+		bc.Write(retPkt)
+		// send our side close while receiving close packet
+		bc.Close()
+	}()
 	return iodefine.IOSuccess
 }
 
diff --git a/conn/conn_client.go b/conn/conn_client.go
index 3037948..da706f6 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -130,6 +130,7 @@ func newClientConn(netconn net.Conn, opts ...ClientConnOption) (*ClientConn, err
 	cc.writeOutCh = make(chan packet.Packet, cc.writeOutSize)
 	cc.readOutCh = make(chan packet.Packet, cc.readOutSize)
 	cc.writeInCh = make(chan packet.Packet, cc.writeInSize)
+	cc.finiCh = make(chan struct{})
 	// timer
 	if !cc.tmrOutside {
 		cc.tmr = timer.NewTimer()
@@ -318,7 +319,7 @@ func (cc *ClientConn) handleInHeartbeatAckPacket(pkt *packet.HeartbeatAckPacket)
 	if !ok {
 		cc.log.Errorf("heartbeat at non-CONNED state, clientID: %d, PacketID: %d, remote: %s, meta: %s, state: %s",
 			cc.clientID, pkt.ID(), cc.netconn.RemoteAddr(), string(cc.meta), cc.fsm.State())
-		return iodefine.IOErr
+		return iodefine.IODiscard
 	}
 	return iodefine.IOSuccess
 }
@@ -365,7 +366,7 @@ func (cc *ClientConn) sendHeartbeat(event *timer.Event) {
 		return
 	}
 	pkt := cc.pf.NewHeartbeatPacket()
-	cc.writeInCh <- pkt
+	cc.writeIn(pkt)
 	cc.connMtx.RUnlock()
 }
 
@@ -376,16 +377,13 @@ func (cc *ClientConn) Close() {
 		if !cc.connOK {
 			return
 		}
-		if cc.hbTick != nil {
-			cc.hbTick.Cancel()
-			cc.hbTick = nil
-		}
+		cc.hbTick.Cancel()
 
 		cc.log.Debugf("client is closing, clientID: %d, remote: %s, meta: %s",
 			cc.clientID, cc.netconn.RemoteAddr(), string(cc.meta))
 
 		pkt := cc.pf.NewDisConnPacket()
-		cc.writeInCh <- pkt
+		cc.writeIn(pkt)
 	})
 }
 
@@ -396,15 +394,13 @@ func (cc *ClientConn) fini() {
 	}
 	cc.log.Debugf("client finishing, clientID: %d, remote: %s, meta: %s",
 		cc.clientID, remote, string(cc.meta))
-	if cc.hbTick != nil {
-		cc.hbTick.Cancel()
-		cc.hbTick = nil
-	}
+	cc.hbTick.Cancel()
 	// collect shub
 	cc.shub.Close()
 	cc.shub = nil
 	// collect net.Conn
 	cc.netconn.Close()
+	close(cc.finiCh)
 	cc.connMtx.Lock()
 	cc.connOK = false
 	close(cc.writeInCh)
@@ -432,8 +428,6 @@ func (cc *ClientConn) fini() {
 	cc.fsm.EmitEvent(ET_FINI)
 	cc.fsm.Close()
 	cc.fsm = nil
-	// collect channels
-	cc.readInCh, cc.writeInCh, cc.writeOutCh = nil, nil, nil
 
 	cc.log.Debugf("client finished, clientID: %d, remote: %s, meta: %s",
 		cc.clientID, remote, string(cc.meta))
diff --git a/conn/conn_server.go b/conn/conn_server.go
index 252bc11..a153692 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -109,6 +109,7 @@ func NewServerConn(netconn net.Conn, opts ...ServerConnOption) (*ServerConn, err
 	sc.writeOutCh = make(chan packet.Packet, sc.writeOutSize)
 	sc.readOutCh = make(chan packet.Packet, sc.readOutSize)
 	sc.writeInCh = make(chan packet.Packet, sc.writeInSize)
+	sc.finiCh = make(chan struct{})
 	// timer
 	if !sc.tmrOutside {
 		sc.tmr = timer.NewTimer()
@@ -407,7 +408,7 @@ func (sc *ServerConn) Close() {
 			sc.clientID, sc.netconn.RemoteAddr(), string(sc.meta))
 
 		pkt := sc.pf.NewDisConnPacket()
-		sc.writeInCh <- pkt
+		sc.writeIn(pkt)
 	})
 }
 
@@ -435,6 +436,7 @@ func (sc *ServerConn) fini() {
 	// collect net.Conn
 	sc.netconn.Close()
 	// lock protect conn status and input resource
+	close(sc.finiCh)
 	sc.connMtx.Lock()
 	sc.connOK = false
 	close(sc.writeInCh)
@@ -465,8 +467,6 @@ func (sc *ServerConn) fini() {
 	sc.fsm = nil
 	// collect id
 	sc.clientIDs = nil
-	// collect channels
-	sc.readInCh, sc.writeInCh, sc.writeOutCh = nil, nil, nil
 
 	sc.log.Debugf("client finished, clientID: %d, remote: %s, meta: %s",
 		sc.clientID, sc.netconn.RemoteAddr(), string(sc.meta))
-- 
2.43.0


From 8d05755627fcbe94f6c9ea50debf7a4feaa7db0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:25 +0000
Subject: [PATCH 08/39] fix: bound the wait for the peer when closing a conn

Closing, on its own or after missing heartbeats, waited forever for the ack
of a peer which is gone: the conn stayed and was never reported offline.
---
 conn/conn_base.go   | 6 ++++++
 conn/conn_client.go | 5 +++++
 conn/conn_server.go | 5 +++++
 3 files changed, 16 insertions(+)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index 2af789b..a9ac7b3 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"net"
 	"sync"
+	"time"
 
 	"github.com/jumboframes/armorigo/log"
 	"github.com/jumboframes/armorigo/synchub"
@@ -35,6 +36,9 @@ const (
 	ET_FINI      = "fini"
 )
 
+// the longest wait for the peer to take part in closing the conn
+const closeTimeout = 30 * time.Second
+
 type connOpts struct {
 	clientID uint64
 	// timer
@@ -76,6 +80,8 @@ type baseConn struct {
 	connMtx sync.RWMutex
 	// closed when the conn is finishing, releases everyone blocked on io channels
 	finiCh chan struct{}
+	// armed by Close, protected by connMtx
+	closeTimer *time.Timer
 }
 
 func (bc *baseConn) Read() (packet.Packet, error) {
diff --git a/conn/conn_client.go b/conn/conn_client.go
index da706f6..291be55 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -382,6 +382,8 @@ func (cc *ClientConn) Close() {
 		cc.log.Debugf("client is closing, clientID: %d, remote: %s, meta: %s",
 			cc.clientID, cc.netconn.RemoteAddr(), string(cc.meta))
 
+		// a peer which is gone never answers
+		cc.closeTimer = time.AfterFunc(closeTimeout, func() { cc.netconn.Close() })
 		pkt := cc.pf.NewDisConnPacket()
 		cc.writeIn(pkt)
 	})
@@ -404,6 +406,9 @@ func (cc *ClientConn) fini() {
 	cc.connMtx.Lock()
 	cc.connOK = false
 	close(cc.writeInCh)
+	if cc.closeTimer != nil {
+		cc.closeTimer.Stop()
+	}
 	cc.connMtx.Unlock()
 	for pkt := range cc.writeInCh {
 		if cc.failedCh != nil && !packet.ConnLayer(pkt) {
diff --git a/conn/conn_server.go b/conn/conn_server.go
index a153692..2cca658 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -407,6 +407,8 @@ func (sc *ServerConn) Close() {
 		sc.log.Debugf("client is closing, clientID: %d, remote: %s, meta: %s",
 			sc.clientID, sc.netconn.RemoteAddr(), string(sc.meta))
 
+		// a peer which is gone never answers
+		sc.closeTimer = time.AfterFunc(closeTimeout, func() { sc.netconn.Close() })
 		pkt := sc.pf.NewDisConnPacket()
 		sc.writeIn(pkt)
 	})
@@ -440,6 +442,9 @@ func (sc *ServerConn) fini() {
 	sc.connMtx.Lock()
 	sc.connOK = false
 	close(sc.writeInCh)
+	if sc.closeTimer != nil {
+		sc.closeTimer.Stop()
+	}
 	sc.connMtx.Unlock()
 	// writeInCh must be cared since buffer might still has data
 	for pkt := range sc.writeInCh {
-- 
2.43.0


From fd49c399bb399393dbe6d38bb4742a89a1d6a618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 09/39] fix: don't let one direction of a conn wait for the
 other

handlePkt served both directions and blocked on either neighbor, so two ends
loaded in both directions ended up waiting for each other for good.
---
 conn/conn_base.go   | 60 +++++++++++++++++++++++++++++++++++++++++++--
 conn/conn_client.go | 26 +++++++++++---------
 conn/conn_server.go | 32 ++++++++++++------------
 3 files changed, 89 insertions(+), 29 deletions(-)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index a9ac7b3..fa323db 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -72,6 +72,8 @@ type baseConn struct {
 	readInSize, writeOutSize int
 	readOutSize, writeInSize int
 	failedCh                 chan packet.Packet
+	// packets handled but not yet taken by neighbors, only handlePkt touches
+	readOutPkts, writeOutPkts []packet.Packet
 
 	// heartbeat
 	hbTick timer.Tick
@@ -185,6 +187,60 @@ FINI:
 	close(readInCh)
 }
 
+// handlePkt must never wait for one direction while the other one can go, or
+// two busy ends end up waiting for each other. So packets going out are queued
+// here, and a direction takes no more packets until its queue is flushed.
+func (bc *baseConn) pushReadOut(pkt packet.Packet) {
+	if len(bc.readOutPkts) == 0 {
+		select {
+		case bc.readOutCh <- pkt:
+			return
+		default:
+		}
+	}
+	bc.readOutPkts = append(bc.readOutPkts, pkt)
+}
+
+func (bc *baseConn) pushWriteOut(pkt packet.Packet) {
+	if len(bc.writeOutPkts) == 0 {
+		select {
+		case bc.writeOutCh <- pkt:
+			return
+		default:
+		}
+	}
+	bc.writeOutPkts = append(bc.writeOutPkts, pkt)
+}
+
+// nextIO flushes until there is a packet to handle from either direction
+func (bc *baseConn) nextIO() (pkt packet.Packet, ioType iodefine.IOType, ok bool) {
+	for {
+		readInCh, writeInCh := bc.readInCh, bc.writeInCh
+		var readOutCh, writeOutCh chan packet.Packet
+		var readOutPkt, writeOutPkt packet.Packet
+		if len(bc.readOutPkts) > 0 {
+			readInCh, readOutCh, readOutPkt = nil, bc.readOutCh, bc.readOutPkts[0]
+		}
+		if len(bc.writeOutPkts) > 0 {
+			writeInCh, writeOutCh, writeOutPkt = nil, bc.writeOutCh, bc.writeOutPkts[0]
+			if len(bc.writeOutPkts) > bc.writeOutSize {
+				// too many acks the peer doesn't take
+				readInCh = nil
+			}
+		}
+		select {
+		case readOutCh <- readOutPkt:
+			bc.readOutPkts = bc.readOutPkts[1:]
+		case writeOutCh <- writeOutPkt:
+			bc.writeOutPkts = bc.writeOutPkts[1:]
+		case pkt, ok = <-readInCh:
+			return pkt, iodefine.IN, ok
+		case pkt, ok = <-writeInCh:
+			return pkt, iodefine.OUT, ok
+		}
+	}
+}
+
 // common in packet
 func (bc *baseConn) handleInDisConnPacket(pkt *packet.DisConnPacket) iodefine.IORet {
 	bc.log.Debugf("recv dis conn succeed, clientID: %d, packetID: %d, remote: %s, meta: %s",
@@ -230,7 +286,7 @@ func (bc *baseConn) handleOutDisConnPacket(pkt *packet.DisConnPacket) iodefine.I
 			err, bc.clientID, pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta), bc.fsm.State())
 		return iodefine.IOErr
 	}
-	bc.writeOutCh <- pkt
+	bc.pushWriteOut(pkt)
 	bc.log.Debugf("send dis conn down succeed, clientID: %d, packetID: %d, remote: %s, meta: %s",
 		bc.clientID, pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta))
 	return iodefine.IOSuccess
@@ -257,7 +313,7 @@ func (bc *baseConn) handleOutDisConnAckPacket(pkt *packet.DisConnAckPacket) iode
 }
 
 func (bc *baseConn) handleOutDataPacket(pkt packet.Packet) iodefine.IORet {
-	bc.writeOutCh <- pkt
+	bc.pushWriteOut(pkt)
 	bc.log.Tracef("send data succeed, clientID: %d, packetID: %d, remote: %s, meta: %s",
 		bc.clientID, pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta))
 	return iodefine.IOSuccess
diff --git a/conn/conn_client.go b/conn/conn_client.go
index 291be55..24a2bda 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -216,14 +216,13 @@ func (cc *ClientConn) connect() error {
 }
 
 func (cc *ClientConn) handlePkt() {
-	readInCh := cc.readInCh
-	writeInCh := cc.writeInCh
 	for {
-		select {
-		case pkt, ok := <-readInCh:
-			if !ok {
-				goto FINI
-			}
+		pkt, ioType, ok := cc.nextIO()
+		if !ok {
+			goto FINI
+		}
+		switch ioType {
+		case iodefine.IN:
 			ret := cc.handleIn(pkt)
 			if ret == iodefine.IOErr {
 				cc.log.Errorf("handle in packet err, clientID: %d", cc.clientID)
@@ -233,7 +232,7 @@ func (cc *ClientConn) handlePkt() {
 				cc.log.Debugf("handle in packet done, clientID: %d", cc.clientID)
 				goto FINI
 			}
-		case pkt := <-writeInCh:
+		case iodefine.OUT:
 			ret := cc.handleOut(pkt)
 			if ret == iodefine.IOErr {
 				cc.log.Errorf("handle out packet err, clientID: %d", cc.clientID)
@@ -331,7 +330,7 @@ func (cc *ClientConn) handleInDataPacket(pkt packet.Packet) iodefine.IORet {
 			cc.clientID, pkt.ID(), cc.netconn.RemoteAddr(), string(cc.meta))
 		return iodefine.IODiscard
 	}
-	cc.readOutCh <- pkt
+	cc.pushReadOut(pkt)
 	return iodefine.IOSuccess
 }
 
@@ -346,14 +345,14 @@ func (cc *ClientConn) handleOutConnPacket(pkt *packet.ConnPacket) iodefine.IORet
 		cc.shub.Error(pkt.ID(), err)
 		return iodefine.IOErr
 	}
-	cc.writeOutCh <- pkt
+	cc.pushWriteOut(pkt)
 	cc.log.Debugf("send conn succeed, clientID: %d, PacketID: %d, packetType: %s",
 		cc.clientID, pkt.ID(), pkt.Type().String())
 	return iodefine.IOSuccess
 }
 
 func (cc *ClientConn) handleOutHeartbeatPacket(pkt *packet.HeartbeatPacket) iodefine.IORet {
-	cc.writeOutCh <- pkt
+	cc.pushWriteOut(pkt)
 	cc.log.Debugf("send heartbeat succeed, clientID: %d, PacketID: %d, packetType: %s",
 		cc.clientID, pkt.ID(), pkt.Type().String())
 	return iodefine.IOSuccess
@@ -415,6 +414,11 @@ func (cc *ClientConn) fini() {
 			cc.failedCh <- pkt
 		}
 	}
+	for _, pkt := range cc.writeOutPkts {
+		if cc.failedCh != nil && !packet.ConnLayer(pkt) {
+			cc.failedCh <- pkt
+		}
+	}
 	// the outside should care about channel status
 	close(cc.readOutCh)
 
diff --git a/conn/conn_server.go b/conn/conn_server.go
index 2cca658..08576a1 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -205,14 +205,13 @@ func (sc *ServerConn) initFSM() {
 }
 
 func (sc *ServerConn) handlePkt() {
-	readInCh := sc.readInCh
-	writeInCh := sc.writeInCh
 	for {
-		select {
-		case pkt, ok := <-readInCh:
-			if !ok {
-				goto FINI
-			}
+		pkt, ioType, ok := sc.nextIO()
+		if !ok {
+			goto FINI
+		}
+		switch ioType {
+		case iodefine.IN:
 			sc.log.Tracef("conn read in packet, clientID: %d, packetID: %d, packetType: %s",
 				sc.clientID, pkt.ID(), pkt.Type().String())
 			ret := sc.handleIn(pkt)
@@ -224,11 +223,7 @@ func (sc *ServerConn) handlePkt() {
 				sc.log.Debugf("conn handle in packet done, clientID: %d", sc.clientID)
 				goto FINI
 			}
-		case pkt, ok := <-writeInCh:
-			if !ok {
-				// BUG! should never be here.
-				goto FINI
-			}
+		case iodefine.OUT:
 			ret := sc.handleOut(pkt)
 			if ret == iodefine.IOErr {
 				sc.log.Errorf("conn handle out packet err, clientID: %d", sc.clientID)
@@ -348,7 +343,7 @@ func (sc *ServerConn) handleInHeartbeatPacket(pkt *packet.HeartbeatPacket) iodef
 	sc.hbTick = sc.tmr.Add(time.Duration(sc.heartbeat)*2*time.Second, timer.WithHandler(sc.waitHBTimeout))
 
 	retPkt := sc.pf.NewHeartbeatAckPacket(pkt.PacketID)
-	sc.writeOutCh <- retPkt
+	sc.pushWriteOut(retPkt)
 	if sc.dlgt != nil {
 		sc.dlgt.Heartbeat(sc)
 	}
@@ -367,7 +362,7 @@ func (sc *ServerConn) handleInDataPacket(pkt packet.Packet) iodefine.IORet {
 		}
 		return iodefine.IODiscard
 	}
-	sc.readOutCh <- pkt
+	sc.pushReadOut(pkt)
 	return iodefine.IOSuccess
 }
 
@@ -380,7 +375,7 @@ func (sc *ServerConn) handleOutConnAckPacket(pkt *packet.ConnAckPacket) iodefine
 				pkt.ConnData.Error, sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta))
 			return iodefine.IOErr
 		}
-		sc.writeOutCh <- pkt
+		sc.pushWriteOut(pkt)
 		// this situation shouldn't be seen as connected, so don't set onlined.
 		return iodefine.IOSuccess
 	}
@@ -390,7 +385,7 @@ func (sc *ServerConn) handleOutConnAckPacket(pkt *packet.ConnAckPacket) iodefine
 			err, sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta), sc.fsm.State())
 		return iodefine.IOErr
 	}
-	sc.writeOutCh <- pkt
+	sc.pushWriteOut(pkt)
 	sc.log.Debugf("send conn ack succeed, clientID: %d, packetID: %d, remote: %s, meta: %s",
 		sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta))
 	return iodefine.IOSuccess
@@ -452,6 +447,11 @@ func (sc *ServerConn) fini() {
 			sc.failedCh <- pkt
 		}
 	}
+	for _, pkt := range sc.writeOutPkts {
+		if sc.failedCh != nil && !packet.ConnLayer(pkt) {
+			sc.failedCh <- pkt
+		}
+	}
 	// the outside should care about channel status
 	close(sc.readOutCh)
 	// writeOutCh must be cared since writhPkt might quit first
-- 
2.43.0


From e1278fb6efd51d20a2242f8f01c44146135c9cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 10/39] fix: never leave anyone blocked on a finishing dialogue

The manager pushed into a dialogue with its lock held, which the dialogue
needs to go online or offline; writers blocked on a full channel kept fini
out; closing readInCh raced with pushing into it; CloseWait didn't wait for
a close under way; a write error left the dialogue half dead; opening while
the manager finishes panicked or leaked the dialogue.
---
 multiplexer/dialogue.go     | 111 ++++++++++++++++++------------------
 multiplexer/dialogue_hub.go |   6 +-
 multiplexer/dialogue_mgr.go |  28 ++++++---
 3 files changed, 79 insertions(+), 66 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 440ce0e..331c2de 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -72,6 +72,8 @@ type dialogue struct {
 	readInSize, writeOutSize int
 	readOutSize, writeInSize int
 	failedCh                 chan packet.Packet
+	// closed when the dialogue must finish, releases everyone blocked on io channels
+	doneCh chan struct{}
 
 	closeOnce   *gsync.Once
 	closeIOOnce *gsync.Once
@@ -161,6 +163,7 @@ func NewDialogue(cn conn.Conn, baseOpts *opts, opts ...DialogueOption) (*dialogu
 	dg.writeOutCh = make(chan packet.Packet, dg.writeOutSize)
 	dg.readOutCh = make(chan packet.Packet, dg.readOutSize)
 	dg.writeInCh = make(chan packet.Packet, dg.writeInSize)
+	dg.doneCh = make(chan struct{})
 
 	dg.shub = synchub.NewSyncHub(synchub.OptionTimer(dg.tmr))
 	// packet factory
@@ -211,6 +214,11 @@ func (dg *dialogue) Write(pkt packet.Packet) error {
 		return io.EOF
 	}
 	pkt.(packet.SessionAbove).SetSessionID(dg.dialogueID)
+	return dg.writeIn(pkt)
+}
+
+// writeIn must be called with mtx held and dialogueOK
+func (dg *dialogue) writeIn(pkt packet.Packet) error {
 	select {
 	case dg.writeInCh <- pkt:
 		/*
@@ -218,10 +226,22 @@ func (dg *dialogue) Write(pkt packet.Packet) error {
 			default:
 				return fmt.Errorf("%s, len: %d", io.ErrShortBuffer, len(dg.writeInCh))
 		*/
+	case <-dg.doneCh:
+		return io.EOF
 	}
 	return nil
 }
 
+// readIn hands a packet from the under layer to the dialogue
+func (dg *dialogue) readIn(pkt packet.Packet) {
+	select {
+	case dg.readInCh <- pkt:
+	case <-dg.doneCh:
+		dg.log.Debugf("packet to finished dialogue, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
+			dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
+	}
+}
+
 func (dg *dialogue) WriteWait(pkt packet.Packet) error {
 	dg.mtx.RLock()
 	defer dg.mtx.RUnlock()
@@ -230,8 +250,7 @@ func (dg *dialogue) WriteWait(pkt packet.Packet) error {
 		return io.EOF
 	}
 	pkt.(packet.SessionAbove).SetSessionID(dg.dialogueID)
-	dg.writeInCh <- pkt
-	return nil
+	return dg.writeIn(pkt)
 }
 
 func (dg *dialogue) Read() (packet.Packet, error) {
@@ -308,18 +327,14 @@ func (dg *dialogue) open() error {
 		dg.mtx.RUnlock()
 		return io.EOF
 	}
-	dg.writeInCh <- pkt
+	dg.writeIn(pkt)
 	dg.mtx.RUnlock()
 
 	event := <-sync.C()
 	if event.Error != nil {
 		dg.log.Debugf("dialogue open err: %s, clientID: %d, dialogueID: %d",
 			event.Error, dg.cn.ClientID(), dg.dialogueID)
-		dg.mtx.Lock()
-		if dg.dialogueOK {
-			close(dg.readInCh)
-		}
-		dg.mtx.Unlock()
+		dg.closeIO()
 	}
 	return event.Error
 }
@@ -339,11 +354,18 @@ func (dg *dialogue) writePkt() {
 			}
 			dg.log.Tracef("dialogue write down, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
+			if err != nil {
+				// the conn is gone, keep draining until the dialogue finished
+				if dg.failedCh != nil {
+					dg.failedCh <- pkt
+				}
+				continue
+			}
 			err = dg.dowritePkt(pkt, true)
 			if err != nil {
+				dg.closeIO()
 				dg.log.Errorf("dialogue write down err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 					err, dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
-				return
 			}
 		}
 	}
@@ -367,11 +389,15 @@ func (dg *dialogue) handlePkt() {
 	writeInCh := dg.writeInCh
 
 	for {
+		doneCh := dg.doneCh
+		if len(readInCh) != 0 {
+			// what has been read in goes first
+			doneCh = nil
+		}
 		select {
-		case pkt, ok := <-readInCh:
-			if !ok {
-				goto FINI
-			}
+		case <-doneCh:
+			goto FINI
+		case pkt := <-readInCh:
 			dg.log.Tracef("dialogue read in packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
 			ret := dg.handleIn(pkt)
@@ -405,6 +431,8 @@ FINI:
 	dg.log.Debugf("dialogue handle pkt done, clientID: %d, dialogueID: %d",
 		dg.cn.ClientID(), dg.dialogueID)
 
+	// nobody should wait for the dialogue any more
+	dg.closeIO()
 	// only onlined Dialogue need to be notified
 	if dg.dlgt != nil && dg.onlined {
 		dg.dlgt.DialogueOffline(dg)
@@ -504,9 +532,12 @@ func (dg *dialogue) handleInDismissPacket(pkt *packet.DismissPacket) iodefine.IO
 	}
 	retPkt := dg.pf.NewDismissAckPacket(pkt.ID(),
 		pkt.SessionID(), nil)
-	dg.writeInCh <- retPkt
-	// send out side dismiss while receiving dismiss packet
-	dg.Close()
+	// handlePkt itself must not wait for writeInCh
+	go func() {
+		dg.Write(retPkt)
+		// send out side dismiss while receiving dismiss packet
+		dg.Close()
+	}()
 	return iodefine.IOSuccess
 }
 
@@ -639,19 +670,18 @@ func (dg *dialogue) handleOutDataPacket(pkt packet.Packet) iodefine.IORet {
 
 func (dg *dialogue) Close() {
 	dg.closeOnce.Do(func() {
-		pkt := dg.pf.NewDismissPacket(dg.dialogueID)
-		// we need a tick in case of never receiving the dismiss ack packet
-		dg.closewait = dg.shub.New(pkt.PacketID, synchub.WithTimeout(30*time.Second))
-
 		dg.mtx.RLock()
 		defer dg.mtx.RUnlock()
 		if !dg.dialogueOK {
 			return
 		}
+		pkt := dg.pf.NewDismissPacket(dg.dialogueID)
+		// we need a tick in case of never receiving the dismiss ack packet
+		dg.closewait = dg.shub.New(pkt.PacketID, synchub.WithTimeout(30*time.Second))
 		dg.log.Debugf("dialogue async close, clientID: %d, dialogueID: %d",
 			dg.cn.ClientID(), dg.dialogueID)
 
-		dg.writeInCh <- pkt
+		dg.writeIn(pkt)
 
 		go func() {
 			// we don't use shub WithCallback because the force close may arrive firse
@@ -669,40 +699,16 @@ func (dg *dialogue) Close() {
 }
 
 func (dg *dialogue) CloseWait() {
-	// send close packet and wait for the end
-	dg.closeOnce.Do(func() {
-		pkt := dg.pf.NewDismissPacket(dg.dialogueID)
-		dg.mtx.RLock()
-		if !dg.dialogueOK {
-			dg.mtx.RUnlock()
-			return
-		}
-		dg.closewait = dg.shub.New(pkt.PacketID, synchub.WithTimeout(30*time.Second))
-		dg.log.Debugf("dialogue is closing, clientID: %d, dialogueID: %d",
-			dg.cn.ClientID(), dg.dialogueID)
-
-		dg.writeInCh <- pkt
-		dg.mtx.RUnlock()
-		// the sync shouldn't be locked
-		event := <-dg.closewait.C()
-		if event.Error != nil {
-			dg.log.Debugf("dialogue close wait err: %s, clientID: %d, peerDialogueID: %d, dialogueID: %d",
-				event.Error, dg.cn.ClientID(), dg.peerNegotiatingID, dg.dialogueID)
-			if event.Error == synchub.ErrSyncTimeout {
-				// timeout and exit the dialogue
-				dg.closeIO()
-			}
-			return
-		}
-		dg.log.Debugf("dialogue closed, clientID: %d, dialogueID: %d",
-			dg.cn.ClientID(), dg.dialogueID)
-		return
-	})
+	// send close packet and wait for the end, whoever started the close
+	dg.Close()
+	<-dg.doneCh
+	dg.log.Debugf("dialogue closed, clientID: %d, dialogueID: %d",
+		dg.cn.ClientID(), dg.dialogueID)
 }
 
 func (dg *dialogue) closeIO() {
 	dg.closeIOOnce.Do(func() {
-		close(dg.readInCh)
+		close(dg.doneCh)
 	})
 }
 
@@ -725,7 +731,6 @@ func (dg *dialogue) fini() {
 
 	// collect shub
 	dg.shub.Close()
-	dg.shub = nil
 
 	for pkt := range dg.writeInCh {
 		if dg.failedCh != nil && !packet.SessionLayer(pkt) {
@@ -736,8 +741,6 @@ func (dg *dialogue) fini() {
 	close(dg.readOutCh)
 	// writeOutCh must be cared since writhPkt might quit first
 	close(dg.writeOutCh)
-	// collect channels
-	dg.writeInCh, dg.writeOutCh = nil, nil
 	// TODO we left the readInCh buffer at some edge cases which may cause peer msg timeout
 
 	// collect fsm
diff --git a/multiplexer/dialogue_hub.go b/multiplexer/dialogue_hub.go
index a764f98..833a707 100644
--- a/multiplexer/dialogue_hub.go
+++ b/multiplexer/dialogue_hub.go
@@ -162,7 +162,7 @@ func (dh *dialogueHub) OpenDialogue(clientID uint64, meta []byte) (Dialogue, err
 
 	if !dh.hubOK {
 		// !hubOK only happends after dialogueMgr fini, so fini the dialogue
-		dg.fini()
+		dg.closeIO()
 		return nil, ErrOperationOnClosedMultiplexer
 	}
 
@@ -328,12 +328,12 @@ func (dh *dialogueHub) fini() {
 	// collect all dialogues
 	for id, dg := range dh.dialogues {
 		// cause the dialogue io err
-		close(dg.readInCh)
+		dg.closeIO()
 		delete(dh.dialogues, id)
 	}
 	for id, dg := range dh.negotiatingDialogues {
 		// cause the dialogue io err
-		close(dg.readInCh)
+		dg.closeIO()
 		delete(dh.dialogues, id)
 	}
 
diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index 677ae3c..05e65bd 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -51,7 +51,8 @@ type dialogueMgr struct {
 	cn conn.Conn
 
 	// close channel
-	closeCh chan struct{}
+	closeCh   chan struct{}
+	closeOnce sync.Once
 
 	// dialogues
 	dialogueIDs     id.IDFactory // set nil in client
@@ -278,6 +279,11 @@ func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error)
 		return nil, err
 	}
 	dm.mtx.Lock()
+	if !dm.mgrOK {
+		dm.mtx.Unlock()
+		dg.closeIO()
+		return nil, ErrOperationOnClosedMultiplexer
+	}
 	dm.negotiatingDialogues[negotiatingID] = dg
 	dm.mtx.Unlock()
 	// Open take times, shouldn't be locked
@@ -295,7 +301,7 @@ func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error)
 		// delete(dm.dialogues, dg.dialogueID)
 		// !mgrOK only happens after dialogueMgr fini, so fini the dialogue
 		dm.mtx.Unlock()
-		dg.fini()
+		dg.closeIO()
 		return nil, ErrOperationOnClosedMultiplexer
 	}
 	// the logic on negotiatingDialogues is tricky, be care of it.
@@ -343,6 +349,8 @@ func (dm *dialogueMgr) GetDialogue(clientID, dialogueID uint64) (Dialogue, error
 	if dm.cn.ClientID() != clientID {
 		return nil, errors.New("unfound clientID")
 	}
+	dm.mtx.RLock()
+	defer dm.mtx.RUnlock()
 	dialogue, ok := dm.dialogues[dialogueID]
 	if !ok {
 		return nil, errors.New("unfound dialgoueID")
@@ -366,6 +374,9 @@ func (dm *dialogueMgr) readPkt() {
 FINI:
 	// if the dialogue manager got an error, all dialogue must be finished in time
 	dm.fini()
+	// the conn must not wait for us in closing
+	for range dm.cn.ChannelRead() {
+	}
 }
 
 func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
@@ -387,8 +398,8 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 		}
 		dm.mtx.Lock()
 		dm.negotiatingDialogues[negotiatingID] = dg
-		dg.readInCh <- pkt
 		dm.mtx.Unlock()
+		dg.readIn(pkt)
 
 	case *packet.SessionAckPacket:
 		dm.mtx.RLock()
@@ -400,9 +411,9 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 			dm.mtx.RUnlock()
 			return
 		}
-		// TODO do we need handle the packet in time? before data or dismiss coming.
-		dg.readInCh <- pkt
 		dm.mtx.RUnlock()
+		// TODO do we need handle the packet in time? before data or dismiss coming.
+		dg.readIn(pkt)
 
 	default:
 		dgPkt, ok := pkt.(packet.SessionAbove)
@@ -426,8 +437,9 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 		}
 		dm.log.Tracef("read to dialogue, clientID: %d, dialogueID: %d, packetID: %d, packetType %s",
 			dm.cn.ClientID(), dialogueID, pkt.ID(), pkt.Type().String())
-		dg.readInCh <- pkt
 		dm.mtx.RUnlock()
+		// the dialogue may need the lock to go on, it shouldn't be held while waiting
+		dg.readIn(pkt)
 	}
 }
 
@@ -458,7 +470,7 @@ func (dm *dialogueMgr) Close() {
 	dm.mtx.RUnlock()
 
 	wg.Wait()
-	close(dm.closeCh)
+	dm.closeOnce.Do(func() { close(dm.closeCh) })
 	dm.log.Debugf("dialogue manager closed, clientID: %d", dm.cn.ClientID())
 	return
 }
@@ -485,7 +497,6 @@ func (dm *dialogueMgr) fini() {
 
 	// collect id
 	dm.dialogueIDs.Close()
-	dm.dialogueIDs = nil
 	// collect channels
 	if !dm.dialogueAcceptChOutside && dm.dialogueAcceptCh != nil {
 		close(dm.dialogueAcceptCh)
@@ -498,7 +509,6 @@ func (dm *dialogueMgr) fini() {
 	if dm.tmrOwner == dm {
 		dm.tmr.Close()
 	}
-	dm.tmr = nil
 
 	dm.log.Debugf("dialogue manager finished, clientID: %d", dm.cn.ClientID())
 }
-- 
2.43.0


From d60a69d37344d640858a14b0fca192bb50e395f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 11/39] fix: don't let one direction of a dialogue wait for the
 other

Same as for the conn below: handlePkt blocked on either neighbor, so loaded
in both directions the two ends waited for each other for good.
---
 multiplexer/dialogue.go | 96 +++++++++++++++++++++++++++++++----------
 1 file changed, 74 insertions(+), 22 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 331c2de..6df993f 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -72,6 +72,8 @@ type dialogue struct {
 	readInSize, writeOutSize int
 	readOutSize, writeInSize int
 	failedCh                 chan packet.Packet
+	// packets handled but not yet taken by neighbors, only handlePkt touches
+	readOutPkts, writeOutPkts []packet.Packet
 	// closed when the dialogue must finish, releases everyone blocked on io channels
 	doneCh chan struct{}
 
@@ -384,20 +386,71 @@ func (dg *dialogue) dowritePkt(pkt packet.Packet, record bool) error {
 	return err
 }
 
-func (dg *dialogue) handlePkt() {
-	readInCh := dg.readInCh
-	writeInCh := dg.writeInCh
+// handlePkt must never wait for one direction while the other one can go, or
+// two busy ends end up waiting for each other. So packets going out are queued
+// here, and a direction takes no more packets until its queue is flushed.
+func (dg *dialogue) pushReadOut(pkt packet.Packet) {
+	if len(dg.readOutPkts) == 0 {
+		select {
+		case dg.readOutCh <- pkt:
+			return
+		default:
+		}
+	}
+	dg.readOutPkts = append(dg.readOutPkts, pkt)
+}
 
+func (dg *dialogue) pushWriteOut(pkt packet.Packet) {
+	if len(dg.writeOutPkts) == 0 {
+		select {
+		case dg.writeOutCh <- pkt:
+			return
+		default:
+		}
+	}
+	dg.writeOutPkts = append(dg.writeOutPkts, pkt)
+}
+
+// nextIO flushes until there is a packet to handle from either direction, or
+// the dialogue must finish
+func (dg *dialogue) nextIO() (pkt packet.Packet, ioType iodefine.IOType, ok bool) {
 	for {
-		doneCh := dg.doneCh
-		if len(readInCh) != 0 {
-			// what has been read in goes first
+		readInCh, writeInCh, doneCh := dg.readInCh, dg.writeInCh, dg.doneCh
+		var readOutCh, writeOutCh chan packet.Packet
+		var readOutPkt, writeOutPkt packet.Packet
+		if len(dg.readOutPkts) > 0 {
+			readInCh, readOutCh, readOutPkt = nil, dg.readOutCh, dg.readOutPkts[0]
+		}
+		if len(dg.writeOutPkts) > 0 {
+			writeInCh, writeOutCh, writeOutPkt = nil, dg.writeOutCh, dg.writeOutPkts[0]
+		}
+		if len(readInCh) > 0 {
+			// what has been read in goes before finishing
 			doneCh = nil
 		}
 		select {
+		case readOutCh <- readOutPkt:
+			dg.readOutPkts = dg.readOutPkts[1:]
+		case writeOutCh <- writeOutPkt:
+			dg.writeOutPkts = dg.writeOutPkts[1:]
+		case pkt = <-readInCh:
+			return pkt, iodefine.IN, true
+		case pkt = <-writeInCh:
+			return pkt, iodefine.OUT, true
 		case <-doneCh:
+			return nil, iodefine.IN, false
+		}
+	}
+}
+
+func (dg *dialogue) handlePkt() {
+	for {
+		pkt, ioType, ok := dg.nextIO()
+		if !ok {
 			goto FINI
-		case pkt := <-readInCh:
+		}
+		switch ioType {
+		case iodefine.IN:
 			dg.log.Tracef("dialogue read in packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
 			ret := dg.handleIn(pkt)
@@ -409,11 +462,7 @@ func (dg *dialogue) handlePkt() {
 			case iodefine.IOErr:
 				goto FINI
 			}
-		case pkt, ok := <-writeInCh:
-			if !ok {
-				// BUG! shoud never be here.
-				goto FINI
-			}
+		case iodefine.OUT:
 			dg.log.Tracef("dialogue write in packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
 			ret := dg.handleOut(pkt)
@@ -572,7 +621,7 @@ func (dg *dialogue) handleInDataPacket(pkt packet.Packet) iodefine.IORet {
 		}
 		return iodefine.IODiscard
 	}
-	dg.readOutCh <- pkt
+	dg.pushReadOut(pkt)
 	return iodefine.IOSuccess
 }
 
@@ -584,7 +633,7 @@ func (dg *dialogue) handleOutSessionPacket(pkt *packet.SessionPacket) iodefine.I
 			err, dg.cn.ClientID(), pkt.NegotiateID(), pkt.ID())
 		return iodefine.IOErr
 	}
-	dg.writeOutCh <- pkt
+	dg.pushWriteOut(pkt)
 	dg.log.Debugf("send dialogue down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), pkt.NegotiateID(), pkt.ID())
 	return iodefine.IOSuccess
@@ -604,7 +653,7 @@ func (dg *dialogue) handleOutSessionAckPacket(pkt *packet.SessionAckPacket) iode
 					err, dg.cn.ClientID(), pkt.NegotiateID(), pkt.ID())
 				return iodefine.IOErr
 			}
-			dg.writeOutCh <- pkt
+			dg.pushWriteOut(pkt)
 			// to tell peer the dialogue handshake is error, and peer should dismiss the dialogue.
 			// this situation shouldn't be seen as connected, so don't set onlined.
 			return iodefine.IOSuccess
@@ -616,7 +665,7 @@ func (dg *dialogue) handleOutSessionAckPacket(pkt *packet.SessionAckPacket) iode
 			err, dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 		return iodefine.IOErr
 	}
-	dg.writeOutCh <- pkt
+	dg.pushWriteOut(pkt)
 	dg.log.Debugf("dialogue write session ack down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 
@@ -631,7 +680,7 @@ func (dg *dialogue) handleOutDismissPacket(pkt *packet.DismissPacket) iodefine.I
 			err, dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 		return iodefine.IOErr
 	}
-	dg.writeOutCh <- pkt
+	dg.pushWriteOut(pkt)
 	dg.log.Debugf("dialogue write dismiss down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 	return iodefine.IOSuccess
@@ -645,10 +694,10 @@ func (dg *dialogue) handleOutDismissAckPacket(pkt *packet.DismissAckPacket) iode
 		return iodefine.IOErr
 	}
 	// make sure this packet is flushed before writeOutCh closed
-	// dg.dowritePkt(pkt, false) changes to dg.writeOutCh <- pkt
+	// dg.dowritePkt(pkt, false) changes to dg.pushWriteOut(pkt)
 	// because this packet should be after all upper layer packets
-	// at last the close(dg.writeOutCh) makes sure the flush
-	dg.writeOutCh <- pkt
+	// at last fini and the close(dg.writeOutCh) make sure the flush
+	dg.pushWriteOut(pkt)
 	dg.log.Debugf("dialogue write dismiss ack down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 	if dg.fsm.State() == DISMISS_HALF {
@@ -662,7 +711,7 @@ func (dg *dialogue) handleOutDismissAckPacket(pkt *packet.DismissAckPacket) iode
 }
 
 func (dg *dialogue) handleOutDataPacket(pkt packet.Packet) iodefine.IORet {
-	dg.writeOutCh <- pkt
+	dg.pushWriteOut(pkt)
 	dg.log.Tracef("dialogue write data down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 	return iodefine.IOSuccess
@@ -739,7 +788,10 @@ func (dg *dialogue) fini() {
 	}
 	// the outside should care about channel status
 	close(dg.readOutCh)
-	// writeOutCh must be cared since writhPkt might quit first
+	// writePkt never quits before writeOutCh closed
+	for _, pkt := range dg.writeOutPkts {
+		dg.writeOutCh <- pkt
+	}
 	close(dg.writeOutCh)
 	// TODO we left the readInCh buffer at some edge cases which may cause peer msg timeout
 
-- 
2.43.0


From c50a2b9c0922d52210f5c80e115b8e6f9b798a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 12/39] fix: make an opened dialogue known before the peer's
 next packet

Data and a dismiss right behind the session ack found no dialogue on the
side which opened it, or a closed dialogue was inserted again. The opener's
meta was overwritten with nothing and the peer's refusal taken for success.
---
 multiplexer/dialogue.go     | 19 ++++++++++++++-----
 multiplexer/dialogue_hub.go |  1 +
 multiplexer/dialogue_mgr.go | 31 ++++++++++++++++++-------------
 3 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 6df993f..39e54ec 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -1,6 +1,7 @@
 package multiplexer
 
 import (
+	"errors"
 	"io"
 	"sync"
 	"time"
@@ -538,7 +539,7 @@ func (dg *dialogue) handleInSessionPacket(pkt *packet.SessionPacket) iodefine.IO
 	if pkt.SessionIDAcquire() {
 		dialogueID = dg.negotiatingID
 	}
-	dg.dialogueID = dialogueID
+	dg.setDialogueID(dialogueID)
 	dg.meta = pkt.SessionData.Meta
 
 	retPkt := dg.pf.NewSessionAckPacket(pkt.PacketID, pkt.NegotiateID(), dialogueID, nil)
@@ -556,8 +557,11 @@ func (dg *dialogue) handleInSessionAckPacket(pkt *packet.SessionAckPacket) iodef
 		dg.shub.Error(pkt.ID(), err)
 		return iodefine.IOErr
 	}
-	dg.dialogueID = pkt.SessionID()
-	dg.meta = pkt.SessionData.Meta
+	if pkt.SessionData.Error != "" {
+		// the peer refused, open is waiting for the error
+		dg.shub.Error(pkt.ID(), errors.New(pkt.SessionData.Error))
+		return iodefine.IOErr
+	}
 
 	// the packetID is assigned by SessionPacket, originally from function open,
 	// and open is waiting for the completion.
@@ -751,8 +755,13 @@ func (dg *dialogue) CloseWait() {
 	// send close packet and wait for the end, whoever started the close
 	dg.Close()
 	<-dg.doneCh
-	dg.log.Debugf("dialogue closed, clientID: %d, dialogueID: %d",
-		dg.cn.ClientID(), dg.dialogueID)
+}
+
+// setDialogueID sets the negotiated dialogueID, a close may be on its way
+func (dg *dialogue) setDialogueID(dialogueID uint64) {
+	dg.mtx.Lock()
+	dg.dialogueID = dialogueID
+	dg.mtx.Unlock()
 }
 
 func (dg *dialogue) closeIO() {
diff --git a/multiplexer/dialogue_hub.go b/multiplexer/dialogue_hub.go
index 833a707..e49ad5a 100644
--- a/multiplexer/dialogue_hub.go
+++ b/multiplexer/dialogue_hub.go
@@ -255,6 +255,7 @@ func (dh *dialogueHub) handlePkt(pkt packet.Packet) {
 				clientID, realPkt.NegotiateID())
 			return
 		}
+		dg.setDialogueID(realPkt.SessionID())
 		dg.readInCh <- pkt
 
 	default:
diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index 05e65bd..fbd1a73 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -292,21 +292,20 @@ func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error)
 		dm.log.Errorf("dialogue open err: %s, clientID: %d, negotiatingID: %d", err, dm.cn.ClientID(), dg.negotiatingID)
 		dm.mtx.Lock()
 		delete(dm.negotiatingDialogues, negotiatingID)
+		if dm.dialogues[dg.dialogueID] == dg {
+			delete(dm.dialogues, dg.dialogueID)
+		}
 		dm.mtx.Unlock()
 		return nil, err
 	}
-	dm.mtx.Lock()
-	delete(dm.negotiatingDialogues, negotiatingID)
+	// it's been moved from negotiatingDialogues to dialogues while the ack came,
+	// and might have been closed again by the peer.
+	dm.mtx.RLock()
+	defer dm.mtx.RUnlock()
 	if !dm.mgrOK {
-		// delete(dm.dialogues, dg.dialogueID)
-		// !mgrOK only happens after dialogueMgr fini, so fini the dialogue
-		dm.mtx.Unlock()
-		dg.closeIO()
+		// !mgrOK only happens after dialogueMgr fini, which closed the dialogue
 		return nil, ErrOperationOnClosedMultiplexer
 	}
-	// the logic on negotiatingDialogues is tricky, be care of it.
-	dm.dialogues[dg.dialogueID] = dg
-	dm.mtx.Unlock()
 	return dg, nil
 }
 
@@ -402,17 +401,23 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 		dg.readIn(pkt)
 
 	case *packet.SessionAckPacket:
-		dm.mtx.RLock()
+		dm.mtx.Lock()
 		dg, ok := dm.negotiatingDialogues[realPkt.NegotiateID()]
 		if !ok {
 			// TODO we must warn the dialogue initiator
 			dm.log.Errorf("clientID: %d, unable to find negotiatingID: %d",
 				dm.cn.ClientID(), realPkt.NegotiateID())
-			dm.mtx.RUnlock()
+			dm.mtx.Unlock()
 			return
 		}
-		dm.mtx.RUnlock()
-		// TODO do we need handle the packet in time? before data or dismiss coming.
+		if realPkt.SessionData.Error == "" {
+			// the peer's data or dismiss may come right behind, so the dialogue
+			// must be found by its dialogueID from now on.
+			dg.setDialogueID(realPkt.SessionID())
+			delete(dm.negotiatingDialogues, realPkt.NegotiateID())
+			dm.dialogues[realPkt.SessionID()] = dg
+		}
+		dm.mtx.Unlock()
 		dg.readIn(pkt)
 
 	default:
-- 
2.43.0


From ce118cb323c57aec5130967eb2f999c547843cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:25 +0000
Subject: [PATCH 13/39] fix: notify of dialogues without the manager's lock,
 and of all of them

Un-accepted dialogues beyond the accept buffer and callbacks coming back to
the manager stopped the whole end, dialogues ended by the end of their conn
were never reported offline, and closing the accept channel raced with it.
---
 multiplexer/dialogue_mgr.go | 68 +++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index fbd1a73..e7d8a1c 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -53,6 +53,8 @@ type dialogueMgr struct {
 	// close channel
 	closeCh   chan struct{}
 	closeOnce sync.Once
+	// closed when the manager is finished
+	finiCh chan struct{}
 
 	// dialogues
 	dialogueIDs     id.IDFactory // set nil in client
@@ -143,6 +145,7 @@ func NewDialogueMgr(cn conn.Conn, mpopts ...MultiplexerOption) (Multiplexer, err
 		dialogues:            make(map[uint64]*dialogue),
 		negotiatingDialogues: make(map[uint64]*dialogue),
 		closeCh:              make(chan struct{}),
+		finiCh:               make(chan struct{}),
 	}
 	// dialogue id counter
 	if dm.cn.Side() == geminio.RecipientSide {
@@ -194,9 +197,8 @@ ERR:
 func (dm *dialogueMgr) DialogueOnline(dg delegate.DialogueDescriber) error {
 	dm.log.Debugf("dialogue online, clientID: %d, add dialogueID: %d", dg.ClientID(), dg.DialogueID())
 	dm.mtx.Lock()
-	defer dm.mtx.Unlock()
-
 	if !dm.mgrOK {
+		dm.mtx.Unlock()
 		return ErrOperationOnClosedMultiplexer
 	}
 	// remove from the negotiating dialogues, and add to ready dialogues.
@@ -205,6 +207,10 @@ func (dm *dialogueMgr) DialogueOnline(dg delegate.DialogueDescriber) error {
 		delete(dm.negotiatingDialogues, dg.NegotiatingID())
 	}
 	dm.dialogues[dg.DialogueID()] = dg.(*dialogue)
+	dm.mtx.Unlock()
+
+	// the outside may come back to us or take its time, without the lock only
+	// this dialogue waits for it.
 	if dm.dlgt != nil {
 		dm.dlgt.DialogueOnline(dg)
 	}
@@ -213,8 +219,10 @@ func (dm *dialogueMgr) DialogueOnline(dg delegate.DialogueDescriber) error {
 		dm.dialogueAcceptFn(dg.(Dialogue))
 
 	} else if dm.dialogueAcceptCh != nil {
-		// this must not be blocked, or else the whole system will stop
-		dm.dialogueAcceptCh <- dg.(*dialogue)
+		select {
+		case dm.dialogueAcceptCh <- dg.(*dialogue):
+		case <-dg.(*dialogue).doneCh:
+		}
 	}
 	return nil
 }
@@ -225,11 +233,12 @@ func (dm *dialogueMgr) DialogueOffline(dg delegate.DialogueDescriber) error {
 
 	dm.log.Debugf("dialogue offline, clientID: %d, del dialogueID: %d", clientID, dialogueID)
 	dm.mtx.Lock()
-	defer dm.mtx.Unlock()
-
 	_, ok := dm.dialogues[dialogueID]
+	delete(dm.dialogues, dialogueID)
+	dm.mtx.Unlock()
+
+	// same as online, the lock must not be held
 	if ok {
-		delete(dm.dialogues, dialogueID)
 		if dm.dlgt != nil {
 			dm.dlgt.DialogueOffline(dg)
 		}
@@ -241,9 +250,10 @@ func (dm *dialogueMgr) DialogueOffline(dg delegate.DialogueDescriber) error {
 		dm.dialogueClosedFn(dg.(*dialogue))
 
 	} else if dm.dialogueClosedCh != nil {
-		// this must not be blocked, or else the whole system will stop
-		dm.dialogueClosedCh <- dg.(*dialogue)
-
+		select {
+		case dm.dialogueClosedCh <- dg.(*dialogue):
+		case <-dm.finiCh:
+		}
 	}
 	// unsucceed dialogue
 	return ErrDialogueNotFound
@@ -314,11 +324,7 @@ func (dm *dialogueMgr) AcceptDialogue() (Dialogue, error) {
 	if dm.dialogueAcceptCh == nil {
 		return nil, ErrAcceptChNotEnabled
 	}
-	dg, ok := <-dm.dialogueAcceptCh
-	if !ok {
-		return nil, io.EOF
-	}
-	return dg, nil
+	return dm.nextDialogue(dm.dialogueAcceptCh)
 }
 
 // ClosedDialogue blocks until success or end
@@ -326,11 +332,22 @@ func (dm *dialogueMgr) ClosedDialogue() (Dialogue, error) {
 	if dm.dialogueClosedCh == nil {
 		return nil, ErrClosedChNotEnabled
 	}
-	dg, ok := <-dm.dialogueClosedCh
-	if !ok {
+	return dm.nextDialogue(dm.dialogueClosedCh)
+}
+
+func (dm *dialogueMgr) nextDialogue(dialogueCh <-chan *dialogue) (Dialogue, error) {
+	select {
+	case dg := <-dialogueCh:
+		return dg, nil
+	case <-dm.finiCh:
+	}
+	// those notified before the end
+	select {
+	case dg := <-dialogueCh:
+		return dg, nil
+	default:
 		return nil, io.EOF
 	}
-	return dg, nil
 }
 
 func (dm *dialogueMgr) ListDialogues() []Dialogue {
@@ -489,10 +506,9 @@ func (dm *dialogueMgr) fini() {
 	// collect conn status
 	dm.mgrOK = false
 	// collect all dialogues
-	for id, dg := range dm.dialogues {
-		// cause the dialogue io err
+	for _, dg := range dm.dialogues {
+		// cause the dialogue io err, it's deleted once it's offline
 		dg.closeIO()
-		delete(dm.dialogues, id)
 	}
 	for id, dg := range dm.negotiatingDialogues {
 		// cause the dialogue io err
@@ -502,14 +518,8 @@ func (dm *dialogueMgr) fini() {
 
 	// collect id
 	dm.dialogueIDs.Close()
-	// collect channels
-	if !dm.dialogueAcceptChOutside && dm.dialogueAcceptCh != nil {
-		close(dm.dialogueAcceptCh)
-	}
-	if !dm.dialogueClosedChOutside && dm.dialogueClosedCh != nil {
-		close(dm.dialogueClosedCh)
-	}
-	// dm.dialogueAcceptCh, dm.dialogueClosedCh = nil, nil
+	// the accept and closed channels may still be written, so they're not closed
+	close(dm.finiCh)
 	// collect timer
 	if dm.tmrOwner == dm {
 		dm.tmr.Close()
-- 
2.43.0


From 55cac9b02258e6337fb4a70ef4a405103601a38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:25 +0000
Subject: [PATCH 14/39] fix: don't use a server end before it's set up, close
 the conn of a failed one

A stream opened before NewEnd returned called into a nil end and panicked,
and an end which failed to set up left its connection open.
---
 client/end.go |  2 ++
 server/end.go | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/client/end.go b/client/end.go
index ec8d17e..e1e18d8 100644
--- a/client/end.go
+++ b/client/end.go
@@ -92,6 +92,7 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 	}
 	mp, err = multiplexer.NewDialogueMgr(cn, mpOpts...)
 	if err != nil {
+		cn.Close()
 		goto ERR
 	}
 	// application
@@ -108,6 +109,7 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 	}
 	ep, err = application.NewEnd(cn, mp, epOpts...)
 	if err != nil {
+		cn.Close()
 		goto ERR
 	}
 	// client
diff --git a/server/end.go b/server/end.go
index 36e1357..56c4885 100644
--- a/server/end.go
+++ b/server/end.go
@@ -47,6 +47,8 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 		// application
 		ep     geminio.End
 		epOpts []application.EndOption
+		// closed once ep is set, dialogues may come before that
+		epReady = make(chan struct{})
 	)
 	// we share packet factory, log, timer and delegate for follow 3 layers.
 
@@ -68,12 +70,18 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 	// multiplexer and application
 	if eo.AcceptStreamFunc != nil {
 		acceptfn = func(dg multiplexer.Dialogue) {
-			ep.(*application.End).AcceptDialogue(dg)
+			<-epReady
+			if err == nil {
+				ep.(*application.End).AcceptDialogue(dg)
+			}
 		}
 	}
 	if eo.ClosedStreamFunc != nil {
 		closedfn = func(dg multiplexer.Dialogue) {
-			ep.(*application.End).ClosedDialogue(dg)
+			<-epReady
+			if err == nil {
+				ep.(*application.End).ClosedDialogue(dg)
+			}
 		}
 	}
 	// multiplexer
@@ -94,6 +102,7 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 	}
 	mp, err = multiplexer.NewDialogueMgr(cn, mpOpts...)
 	if err != nil {
+		cn.Close()
 		goto ERR
 	}
 	// application
@@ -115,7 +124,9 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 		epOpts = append(epOpts, application.OptionWithRemoteRPCCheck())
 	}
 	ep, err = application.NewEnd(cn, mp, epOpts...)
+	close(epReady)
 	if err != nil {
+		cn.Close()
 		goto ERR
 	}
 	se.End = ep
-- 
2.43.0


From ed86904fbccadef8ebbed525becda8c764640cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 15/39] fix: never leave anyone blocked on a finishing stream

Writers waited for room holding the lock the finishing needs, readers of a
full message queue never noticed the end, and a finished stream left nil
channels, hub and timer (of other streams too) behind to trip over.
---
 application/end.go      |   1 -
 application/message.go  |  57 ++++++++--------
 application/raw.go      |  10 +--
 application/rpc.go      | 111 ++++++++++++++++---------------
 application/stream.go   | 142 ++++++++++++++++++++++++++++------------
 multiplexer/dialogue.go |   5 ++
 6 files changed, 195 insertions(+), 131 deletions(-)

diff --git a/application/end.go b/application/end.go
index e33df6a..fc2e94f 100644
--- a/application/end.go
+++ b/application/end.go
@@ -247,7 +247,6 @@ func (end *End) fini() {
 	if end.tmrOwner == end {
 		end.tmr.Close()
 	}
-	end.tmr = nil
 	end.log.Debugf("end finished, clientID: %d", end.cn.ClientID())
 }
 
diff --git a/application/message.go b/application/message.go
index 51c95c5..6a82890 100644
--- a/application/message.go
+++ b/application/message.go
@@ -3,6 +3,7 @@ package application
 import (
 	"context"
 	"io"
+	"sync"
 	"time"
 
 	"github.com/jumboframes/armorigo/synchub"
@@ -35,16 +36,8 @@ func (sm *stream) NewMessage(data []byte, opts ...*options.NewMessageOptions) ge
 }
 
 func (sm *stream) ackMessage(pktID uint64, err error) error {
-	sm.mtx.RLock()
-	if !sm.streamOK {
-		sm.mtx.RUnlock()
-		return io.EOF
-	}
-
 	pkt := sm.pf.NewMessageAckPacketWithSessionID(sm.dg.DialogueID(), pktID, err)
-	sm.writeInCh <- pkt
-	sm.mtx.RUnlock()
-	return nil
+	return sm.writeIn(pkt)
 }
 
 // Publish to peer, a sync function
@@ -55,9 +48,7 @@ func (sm *stream) Publish(ctx context.Context, msg geminio.Message, opts ...*opt
 	if msg.StreamID() != sm.dg.DialogueID() {
 		return ErrMismatchStreamID
 	}
-	sm.mtx.RLock()
-	if !sm.streamOK {
-		sm.mtx.RUnlock()
+	if !sm.available() {
 		return io.EOF
 	}
 	// TODO optimize
@@ -80,9 +71,7 @@ func (sm *stream) Publish(ctx context.Context, msg geminio.Message, opts ...*opt
 
 	if msg.Cnss() == options.CnssAtMostOnce {
 		// if consistency is set to be AtMostOnce, we don't care about context or timeout
-		sm.writeInCh <- pkt
-		sm.mtx.RUnlock()
-		return nil
+		return sm.writeIn(pkt)
 	}
 	var sync synchub.Sync
 	syncOpts := []synchub.SyncOption{synchub.WithContext(ctx)}
@@ -91,10 +80,8 @@ func (sm *stream) Publish(ctx context.Context, msg geminio.Message, opts ...*opt
 		syncOpts = append(syncOpts, synchub.WithTimeout(msg.Timeout()))
 	}
 	sync = sm.shub.New(msg.ID(), syncOpts...)
-	sm.writeInCh <- pkt
-	sm.mtx.RUnlock()
 
-	event := <-sync.C()
+	event := sm.writeInWait(pkt, sync)
 	if event.Error != nil {
 		sm.log.Debugf("message return err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 			event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
@@ -114,9 +101,7 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 	if msg.StreamID() != sm.dg.DialogueID() {
 		return nil, ErrMismatchStreamID
 	}
-	sm.mtx.RLock()
-	if !sm.streamOK {
-		sm.mtx.RUnlock()
+	if !sm.available() {
 		return nil, io.EOF
 	}
 
@@ -141,9 +126,7 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 
 	if msg.Cnss() == options.CnssAtMostOnce {
 		// if consistency is set to be AtMostOnce, we don't care about context or timeout or async
-		sm.writeInCh <- pkt
-		sm.mtx.RUnlock()
-		return nil, nil
+		return nil, sm.writeIn(pkt)
 	}
 	if ch == nil {
 		// we don't want block here
@@ -153,18 +136,32 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 		Message: msg,
 		Done:    ch,
 	}
+	// closed once the publish is over
+	completed := make(chan struct{})
+	once := sync.Once{}
+	complete := func(err error) {
+		once.Do(func() {
+			publish.Error = err
+			close(completed)
+			// we're in the middle of handling packets or even finishing
+			select {
+			case ch <- publish:
+			default:
+				go func() { ch <- publish }()
+			}
+		})
+	}
 	// deadline and timeout for local
 	syncOpts := []synchub.SyncOption{synchub.WithContext(ctx), synchub.WithCallback(func(event *synchub.Event) {
 		if event.Error != nil {
 			sm.log.Debugf("message packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
-			publish.Error = event.Error
-			ch <- publish
+			complete(event.Error)
 			return
 		}
 		sm.log.Tracef("message return succeed, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 			sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
-		ch <- publish
+		complete(nil)
 		return
 	})}
 	if msg.Timeout() != 0 {
@@ -173,8 +170,10 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 	}
 	// Add a new sync for the async publish
 	sm.shub.New(pkt.ID(), syncOpts...)
-	sm.writeInCh <- pkt
-	sm.mtx.RUnlock()
+	select {
+	case sm.writeInCh <- pkt:
+	case <-completed:
+	}
 	return publish, nil
 }
 
diff --git a/application/raw.go b/application/raw.go
index 55930e9..f78bb15 100644
--- a/application/raw.go
+++ b/application/raw.go
@@ -77,10 +77,7 @@ func (sm *stream) Read(b []byte) (int, error) {
 }
 
 func (sm *stream) Write(b []byte) (int, error) {
-	sm.mtx.RLock()
-	defer sm.mtx.RUnlock()
-
-	if !sm.streamOK {
+	if !sm.available() {
 		return 0, io.EOF
 	}
 
@@ -108,6 +105,11 @@ func (sm *stream) Write(b []byte) (int, error) {
 		sm.dlWriteChList.Remove(e)
 		sm.dlMtx.Unlock()
 		return len(b), nil
+	case <-sm.doneCh:
+		sm.dlMtx.Lock()
+		sm.dlWriteChList.Remove(e)
+		sm.dlMtx.Unlock()
+		return 0, io.EOF
 	case <-dlCh:
 		return 0, os.ErrDeadlineExceeded
 	}
diff --git a/application/rpc.go b/application/rpc.go
index 6c0f25f..d043ff4 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"io"
 	"regexp"
+	"sync"
 	"time"
 
 	"github.com/jumboframes/armorigo/synchub"
@@ -41,27 +42,18 @@ func (sm *stream) delLocalRPC(method string) {
 
 // Register will overwrite the old method if exists.
 func (sm *stream) Register(ctx context.Context, method string, rpc geminio.RPC) error {
-	sm.mtx.RLock()
-	if !sm.streamOK {
-		sm.mtx.RUnlock()
+	if !sm.available() {
 		return io.EOF
 	}
 	sm.addLocalRPC(method, rpc)
 	pkt := sm.pf.NewRegisterPacketWithSessionID(sm.dg.DialogueID(), []byte(method))
-	sync := sm.shub.New(pkt.ID())
-	sm.writeInCh <- pkt
-	sm.mtx.RUnlock()
-	select {
-	case event := <-sync.C():
-		if event.Error != nil {
-			sm.log.Debugf("register err: %s, clientID: %d, dialogueID: %d, packetID: %d",
-				event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID())
-			sm.delLocalRPC(method)
-			return event.Error
-		}
-	case <-ctx.Done():
+	sync := sm.shub.New(pkt.ID(), synchub.WithContext(ctx))
+	event := sm.writeInWait(pkt, sync)
+	if event.Error != nil {
+		sm.log.Debugf("register err: %s, clientID: %d, dialogueID: %d, packetID: %d",
+			event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID())
 		sm.delLocalRPC(method)
-		return ctx.Err()
+		return event.Error
 	}
 	return nil
 }
@@ -78,9 +70,7 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 		req.SetTimeout(*opt.Timeout)
 	}
 
-	sm.mtx.RLock()
-	if !sm.streamOK {
-		sm.mtx.RUnlock()
+	if !sm.available() {
 		return nil, io.EOF
 	}
 
@@ -114,38 +104,37 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 		syncOpts = append(syncOpts, synchub.WithTimeout(req.Timeout()))
 	}
 	sync = sm.shub.New(req.ID(), syncOpts...)
-	sm.writeInCh <- pkt
-	sm.mtx.RUnlock()
+	// nil once the request is handed over
+	writeInCh := sm.writeInCh
 
 	// we don't set ctx to sync, because select perform better
-	select {
-	case <-ctx.Done():
-		sync.Cancel(false)
+	for {
+		select {
+		case writeInCh <- pkt:
+			writeInCh = nil
+
+		case <-ctx.Done():
+			sync.Cancel(false)
 
-		if ctx.Err() == context.DeadlineExceeded {
-			// we don't deliver deadline exceeded since the pkt already has it
+			if ctx.Err() == context.DeadlineExceeded || writeInCh != nil {
+				// we don't deliver deadline exceeded since the pkt already has it
+				return nil, ctx.Err()
+			}
+			// notify peer if context Canceled
+			cancelType := packet.RequestCancelTypeCanceled
+			cancelPkt := sm.pf.NewRequestCancelPacketWithIDAndSessionID(pkt.ID(), sm.dg.DialogueID(), cancelType)
+			go sm.writeIn(cancelPkt)
 			return nil, ctx.Err()
+
+		case event := <-sync.C():
+			if event.Error != nil {
+				sm.log.Debugf("request return err: %s, clientID: %d, dialogueID: %d, reqID: %d",
+					event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), req.ID())
+				return nil, event.Error
+			}
+			rsp := event.Ack.(*response)
+			return rsp, nil
 		}
-		sm.mtx.RLock()
-		if !sm.streamOK {
-			sm.mtx.RUnlock()
-			return nil, io.EOF
-		}
-		// notify peer if context Canceled
-		cancelType := packet.RequestCancelTypeCanceled
-		cancelPkt := sm.pf.NewRequestCancelPacketWithIDAndSessionID(pkt.ID(), sm.dg.DialogueID(), cancelType)
-		sm.writeInCh <- cancelPkt
-		sm.mtx.RUnlock()
-		return nil, ctx.Err()
-
-	case event := <-sync.C():
-		if event.Error != nil {
-			sm.log.Debugf("request return err: %s, clientID: %d, dialogueID: %d, reqID: %d",
-				event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), req.ID())
-			return nil, event.Error
-		}
-		rsp := event.Ack.(*response)
-		return rsp, nil
 	}
 }
 
@@ -156,9 +145,7 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 	if req.StreamID() != sm.dg.DialogueID() {
 		return nil, ErrMismatchStreamID
 	}
-	sm.mtx.RLock()
-	if !sm.streamOK {
-		sm.mtx.RUnlock()
+	if !sm.available() {
 		return nil, io.EOF
 	}
 	pkt := sm.pf.NewRequestPacketWithIDAndSessionID(req.ID(), sm.dg.DialogueID(), []byte(method), req.Data())
@@ -180,19 +167,33 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 		Request: req,
 		Done:    ch,
 	}
+	// closed once the call is over
+	completed := make(chan struct{})
+	once := sync.Once{}
+	complete := func(err error) {
+		once.Do(func() {
+			call.Error = err
+			close(completed)
+			// we're in the middle of handling packets or even finishing
+			select {
+			case ch <- call:
+			default:
+				go func() { ch <- call }()
+			}
+		})
+	}
 	// deadline and timeout for local
 	syncOpts := []synchub.SyncOption{synchub.WithContext(ctx),
 		synchub.WithCallback(func(event *synchub.Event) {
 			if event.Error != nil {
 				sm.log.Debugf("request packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 					event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
-				call.Error = event.Error
-				ch <- call
+				complete(event.Error)
 				return
 			}
 			sm.log.Tracef("response return succeed, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
-			ch <- call
+			complete(nil)
 			return
 		})}
 	if req.Timeout() != 0 {
@@ -200,8 +201,10 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 	}
 	// Add a new sync for the async call
 	sm.shub.New(pkt.ID(), syncOpts...)
-	sm.writeInCh <- pkt
-	sm.mtx.RUnlock()
+	select {
+	case sm.writeInCh <- pkt:
+	case <-completed:
+	}
 	return call, nil
 }
 
diff --git a/application/stream.go b/application/stream.go
index 9940afa..ee8314d 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -85,6 +85,11 @@ type stream struct {
 
 	// io
 	writeInCh chan packet.Packet // for multiple message types
+	// closed when the stream is being closed by us
+	closeCh chan struct{}
+	// closed when the stream must finish, releases everyone blocked on it
+	doneCh   chan struct{}
+	doneOnce *gsync.Once
 }
 
 func newStream(end *End, cn conn.Conn, dg multiplexer.Dialogue, opts *opts) *stream {
@@ -108,6 +113,9 @@ func newStream(end *End, cn conn.Conn, dg multiplexer.Dialogue, opts *opts) *str
 		dlReadChList:      list.New(),
 		dlWriteChList:     list.New(),
 		writeInCh:         make(chan packet.Packet, 32),
+		closeCh:           make(chan struct{}),
+		doneCh:            make(chan struct{}),
+		doneOnce:          new(gsync.Once),
 	}
 	go sm.handlePkt()
 	go sm.readPkt()
@@ -142,17 +150,48 @@ func (sm *stream) Side() geminio.Side {
 	return geminio.Side(sm.dg.Side())
 }
 
+// available tells whether the stream is neither closed nor finished
+func (sm *stream) available() bool {
+	sm.mtx.RLock()
+	defer sm.mtx.RUnlock()
+	return sm.streamOK
+}
+
+func (sm *stream) unavailable() {
+	sm.mtx.Lock()
+	defer sm.mtx.Unlock()
+	sm.streamOK = false
+}
+
+// writeIn hands over a packet nobody waits an answer for
+func (sm *stream) writeIn(pkt packet.Packet) error {
+	if !sm.available() {
+		return io.EOF
+	}
+	select {
+	case sm.writeInCh <- pkt:
+		return nil
+	case <-sm.doneCh:
+		return io.EOF
+	}
+}
+
+// writeInWait hands over a packet and waits for the event of its sync, which
+// comes at the latest when the stream finishes
+func (sm *stream) writeInWait(pkt packet.Packet, sync synchub.Sync) *synchub.Event {
+	select {
+	case sm.writeInCh <- pkt:
+		return <-sync.C()
+	case event := <-sync.C():
+		return event
+	}
+}
+
 // main handle logic
 func (sm *stream) handlePkt() {
-	writeInCh := sm.writeInCh
-
 	for {
 		select {
-		case pkt, ok := <-writeInCh:
-			if !ok {
-				// BUG! shoud never be here.
-				goto FINI
-			}
+		case pkt := <-sm.writeInCh:
 			sm.log.Tracef("stream write in packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 			ret := sm.handleOut(pkt)
@@ -162,12 +201,13 @@ func (sm *stream) handlePkt() {
 			case iodefine.IODiscard:
 				sm.shub.Error(pkt.ID(), io.ErrShortBuffer)
 			case iodefine.IOErr:
-				goto FINI
+				// the dialogue is gone, keep draining until the stream finished
+				sm.shub.Error(pkt.ID(), io.EOF)
 			}
+		case <-sm.doneCh:
+			return
 		}
 	}
-FINI:
-	sm.finiOnce.Do(sm.fini)
 }
 
 func (sm *stream) readPkt() {
@@ -188,11 +228,14 @@ func (sm *stream) readPkt() {
 				sm.log.Infof("stream read in packet but buffer full and discard, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 					sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 			case iodefine.IOErr:
-				goto FINI
+				// the stream ends with the dialogue, and until then someone
+				// must read it
+				continue
 			}
 		}
 	}
 FINI:
+	// only readPkt leads to this fini, and reclaims all channels and other resources
 	sm.finiOnce.Do(sm.fini)
 }
 
@@ -250,6 +293,18 @@ func (sm *stream) handleInMessagePacket(pkt *packet.MessagePacket) iodefine.IORe
 					sm.dg.WriteWait(pkt)
 					return iodefine.IODiscard
 		*/
+		return iodefine.IOSuccess
+	case <-sm.closeCh:
+		// closed by us, nobody is obliged to receive any more
+		return iodefine.IODiscard
+	case <-sm.dialogueDone():
+	}
+	// the dialogue is over, release the others since this one may wait forever
+	sm.release()
+	select {
+	case sm.messageCh <- pkt:
+	case <-sm.closeCh:
+		return iodefine.IODiscard
 	}
 	return iodefine.IOSuccess
 }
@@ -342,12 +397,7 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 	// no rpc found, return to call error, note that this error is not set to response error
 	err := fmt.Errorf("no such rpc: %s", method)
 	rspPkt := sm.pf.NewResponsePacket(pkt.ID(), []byte(method), nil, err)
-	err = sm.dg.WriteWait(rspPkt)
-	if err != nil {
-		sm.log.Debugf("write no such rpc response packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s, method: %s",
-			err, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String(), method)
-		return iodefine.IOErr
-	}
+	go sm.answer(rspPkt)
 	return iodefine.IOSuccess
 }
 
@@ -390,12 +440,7 @@ func (sm *stream) handleInRegisterPacket(pkt *packet.RegisterPacket) iodefine.IO
 		sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String(), method)
 
 	retPkt := sm.pf.NewRegisterAckPacket(pkt.ID(), nil)
-	err := sm.dg.Write(retPkt)
-	if err != nil {
-		sm.log.Debugf("write register ack packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s, method: %s",
-			err, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String(), method)
-		return iodefine.IOErr
-	}
+	go sm.answer(retPkt)
 
 	// TODO delegate for remote registration
 
@@ -501,6 +546,15 @@ func (sm *stream) handleOutStreamPacket(pkt *packet.StreamPacket) iodefine.IORet
 	return iodefine.IOSuccess
 }
 
+// answer writes a packet back to peer, reading packets shouldn't wait for it
+func (sm *stream) answer(pkt packet.Packet) {
+	err := sm.dg.WriteWait(pkt)
+	if err != nil {
+		sm.log.Debugf("write answer packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
+			err, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+	}
+}
+
 // doRPC provide generic rpc call
 func (sm *stream) doRPC(pkt *packet.RequestPacket, rpc methodRPC, method string, ctx context.Context, req *request, rsp *response, async bool) {
 	prog := func() {
@@ -534,14 +588,19 @@ func (sm *stream) doRPC(pkt *packet.RequestPacket, rpc methodRPC, method string,
 	}
 }
 
+// dialogueDone is closed when the dialogue is over, while there may be packets
+// left to read
+func (sm *stream) dialogueDone() <-chan struct{} {
+	dg, ok := sm.dg.(interface{ Done() <-chan struct{} })
+	if !ok {
+		return nil
+	}
+	return dg.Done()
+}
+
 func (sm *stream) Close() error {
 	sm.closeOnce.Do(func() {
-		sm.mtx.RLock()
-		defer sm.mtx.RUnlock()
-		if !sm.streamOK {
-			return
-		}
-
+		close(sm.closeCh)
 		sm.log.Debugf("stream async close, clientID: %d, dialogueID: %d",
 			sm.cn.ClientID(), sm.dg.DialogueID())
 		// diglogue Close will leads to fini and then close the readInCh
@@ -550,24 +609,22 @@ func (sm *stream) Close() error {
 	return nil
 }
 
+// release everyone blocked on the stream, it takes no more packets to write
+func (sm *stream) release() {
+	sm.doneOnce.Do(func() {
+		sm.unavailable()
+		close(sm.doneCh)
+		// collect shub, and all syncs will be close notified
+		sm.shub.Close()
+	})
+}
+
 // finish and reclaim resources
 func (sm *stream) fini() {
 	sm.log.Debugf("stream finishing, clientID: %d, dialogueID: %d",
 		sm.cn.ClientID(), sm.dg.DialogueID())
 
-	sm.mtx.Lock()
-	defer sm.mtx.Unlock()
-	// collect shub, and all syncs will be close notified
-
-	sm.streamOK = false
-	close(sm.writeInCh)
-
-	for pkt := range sm.writeInCh {
-		sm.shub.Error(pkt.ID(), io.ErrClosedPipe)
-	}
-	sm.writeInCh = nil
-	sm.shub.Close()
-	sm.shub = nil
+	sm.release()
 
 	// the outside should care about message and stream channel status
 	close(sm.messageCh)
@@ -577,7 +634,6 @@ func (sm *stream) fini() {
 	if sm.tmrOwner == sm {
 		sm.tmr.Close()
 	}
-	sm.tmr = nil
 
 	if sm.dg.DialogueID() == 1 {
 		// the master stream
diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 39e54ec..011d656 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -268,6 +268,11 @@ func (dg *dialogue) ReadC() <-chan packet.Packet {
 	return dg.readOutCh
 }
 
+// Done is closed when the dialogue must finish, packets may be left to read
+func (dg *dialogue) Done() <-chan struct{} {
+	return dg.doneCh
+}
+
 func (dg *dialogue) initFSM() {
 	init := dg.fsm.AddState(INIT)
 	sessionsent := dg.fsm.AddState(SESSION_SENT)
-- 
2.43.0


From aa5893220a17a45dd73f801bedc0c6ef75b81505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 16/39] fix: deliver what was written before closing a stream
 or an end

The close overtook packets still queued in the stream, and a reader lost what
had already been received once the stream finished.
---
 application/end.go    | 29 ++++++++++++++++++++++++++++
 application/raw.go    |  8 +-------
 application/stream.go | 44 +++++++++++++++++++++++++++++--------------
 3 files changed, 60 insertions(+), 21 deletions(-)

diff --git a/application/end.go b/application/end.go
index fc2e94f..3319bbb 100644
--- a/application/end.go
+++ b/application/end.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"net"
 	"sync"
+	"time"
 
 	"github.com/jumboframes/armorigo/log"
 	"github.com/jumboframes/armorigo/synchub"
@@ -18,6 +19,10 @@ import (
 	"github.com/singchia/go-timer/v2"
 )
 
+const (
+	flushTimeout = 30 * time.Second
+)
+
 type opts struct {
 	// packet factory
 	pf packet.PacketFactory
@@ -233,6 +238,7 @@ func (end *End) Addr() net.Addr {
 
 func (end *End) Close() error {
 	end.onceClose.Do(func() {
+		end.flush()
 		end.multiplexer.Close()
 		end.cn.Close()
 		if end.tmrOwner == end {
@@ -242,6 +248,29 @@ func (end *End) Close() error {
 	return nil
 }
 
+// flush closes all streams and waits for what they've been written to get down
+// to the dialogues, or closing the multiplexer overtakes them
+func (end *End) flush() {
+	streams := []*stream{}
+	end.streams.Range(func(_, value interface{}) bool {
+		sm := value.(*stream)
+		sm.Close()
+		streams = append(streams, sm)
+		return true
+	})
+	// in case of a peer never reading
+	timeout := time.NewTimer(flushTimeout)
+	defer timeout.Stop()
+	for _, sm := range streams {
+		select {
+		case <-sm.flushedCh:
+		case <-sm.doneCh:
+		case <-timeout.C:
+			return
+		}
+	}
+}
+
 func (end *End) fini() {
 	end.log.Debugf("end finishing, clientID: %d", end.cn.ClientID())
 	if end.tmrOwner == end {
diff --git a/application/raw.go b/application/raw.go
index f78bb15..85d4ae2 100644
--- a/application/raw.go
+++ b/application/raw.go
@@ -16,13 +16,7 @@ const (
 
 // geminio.Raw
 func (sm *stream) Read(b []byte) (int, error) {
-	sm.mtx.RLock()
-	if !sm.streamOK {
-		sm.mtx.RUnlock()
-		return 0, io.EOF
-	}
-	sm.mtx.RUnlock()
-
+	// what's been received can be read after the end, then streamCh tells EOF
 	sm.cacheMtx.Lock()
 	if sm.cache != nil && len(sm.cache) != 0 {
 		n := copy(b, sm.cache)
diff --git a/application/stream.go b/application/stream.go
index ee8314d..2a87375 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -87,6 +87,8 @@ type stream struct {
 	writeInCh chan packet.Packet // for multiple message types
 	// closed when the stream is being closed by us
 	closeCh chan struct{}
+	// closed when all written before the close were handed to the dialogue
+	flushedCh chan struct{}
 	// closed when the stream must finish, releases everyone blocked on it
 	doneCh   chan struct{}
 	doneOnce *gsync.Once
@@ -114,6 +116,7 @@ func newStream(end *End, cn conn.Conn, dg multiplexer.Dialogue, opts *opts) *str
 		dlWriteChList:     list.New(),
 		writeInCh:         make(chan packet.Packet, 32),
 		closeCh:           make(chan struct{}),
+		flushedCh:         make(chan struct{}),
 		doneCh:            make(chan struct{}),
 		doneOnce:          new(gsync.Once),
 	}
@@ -189,27 +192,40 @@ func (sm *stream) writeInWait(pkt packet.Packet, sync synchub.Sync) *synchub.Eve
 
 // main handle logic
 func (sm *stream) handlePkt() {
+	closeCh := sm.closeCh
+
 	for {
 		select {
 		case pkt := <-sm.writeInCh:
-			sm.log.Tracef("stream write in packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
-				sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
-			ret := sm.handleOut(pkt)
-			switch ret {
-			case iodefine.IOSuccess:
-				continue
-			case iodefine.IODiscard:
-				sm.shub.Error(pkt.ID(), io.ErrShortBuffer)
-			case iodefine.IOErr:
-				// the dialogue is gone, keep draining until the stream finished
-				sm.shub.Error(pkt.ID(), io.EOF)
+			sm.writeDown(pkt)
+		case <-closeCh:
+			closeCh = nil
+			// all written before the close go before the close
+			for len(sm.writeInCh) > 0 {
+				sm.writeDown(<-sm.writeInCh)
 			}
+			// diglogue Close will leads to fini and then close the readOutCh
+			sm.dg.Close()
+			close(sm.flushedCh)
 		case <-sm.doneCh:
 			return
 		}
 	}
 }
 
+func (sm *stream) writeDown(pkt packet.Packet) {
+	sm.log.Tracef("stream write in packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
+		sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+	ret := sm.handleOut(pkt)
+	switch ret {
+	case iodefine.IODiscard:
+		sm.shub.Error(pkt.ID(), io.ErrShortBuffer)
+	case iodefine.IOErr:
+		// the dialogue is gone, keep draining until the stream finished
+		sm.shub.Error(pkt.ID(), io.EOF)
+	}
+}
+
 func (sm *stream) readPkt() {
 	readInCh := sm.dg.ReadC()
 	for {
@@ -600,11 +616,11 @@ func (sm *stream) dialogueDone() <-chan struct{} {
 
 func (sm *stream) Close() error {
 	sm.closeOnce.Do(func() {
-		close(sm.closeCh)
 		sm.log.Debugf("stream async close, clientID: %d, dialogueID: %d",
 			sm.cn.ClientID(), sm.dg.DialogueID())
-		// diglogue Close will leads to fini and then close the readInCh
-		sm.dg.Close()
+		sm.unavailable()
+		// handlePkt closes the dialogue
+		close(sm.closeCh)
 	})
 	return nil
 }
-- 
2.43.0


From cb8c85b1036bb630149d93f4ff14eed75a994a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 17/39] fix: complete an async call with its response and its
 call options

Call.Response was never set, and the timeout option and the remote rpc check
were ignored.
---
 application/rpc.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/application/rpc.go b/application/rpc.go
index d043ff4..0bbba29 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -145,9 +145,16 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 	if req.StreamID() != sm.dg.DialogueID() {
 		return nil, ErrMismatchStreamID
 	}
+	opt := options.MergeCallOptions(opts...)
+	if opt.Timeout != nil {
+		req.SetTimeout(*opt.Timeout)
+	}
 	if !sm.available() {
 		return nil, io.EOF
 	}
+	if sm.opts.remoteMethodCheck && !sm.hasRemoteRPC(method) {
+		return nil, ErrRemoteRPCUnregistered
+	}
 	pkt := sm.pf.NewRequestPacketWithIDAndSessionID(req.ID(), sm.dg.DialogueID(), []byte(method), req.Data())
 	// deadline and timeout for peer
 	if req.Timeout() != 0 {
@@ -170,9 +177,13 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 	// closed once the call is over
 	completed := make(chan struct{})
 	once := sync.Once{}
-	complete := func(err error) {
+	complete := func(rsp *response, err error) {
 		once.Do(func() {
-			call.Error = err
+			if err != nil {
+				call.Error = err
+			} else {
+				call.Response = rsp
+			}
 			close(completed)
 			// we're in the middle of handling packets or even finishing
 			select {
@@ -188,12 +199,12 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 			if event.Error != nil {
 				sm.log.Debugf("request packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 					event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
-				complete(event.Error)
+				complete(nil, event.Error)
 				return
 			}
 			sm.log.Tracef("response return succeed, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
-			complete(nil)
+			complete(event.Ack.(*response), nil)
 			return
 		})}
 	if req.Timeout() != 0 {
-- 
2.43.0


From 25020acd1887158e8246b456078b02bd6c4d729a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 18/39] fix: deliver the method and custom data of a response

---
 application/stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/application/stream.go b/application/stream.go
index 2a87375..499b50b 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -439,7 +439,9 @@ func (sm *stream) handleInResponsePacket(pkt *packet.ResponsePacket) iodefine.IO
 	sm.log.Tracef("read response packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 		sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 	rsp := &response{
+		method:    string(pkt.Data.Key),
 		data:      pkt.Data.Value,
+		custom:    pkt.Data.Custom,
 		requestID: pkt.ID(),
 		clientID:  sm.cn.ClientID(),
 		streamID:  sm.dg.DialogueID(),
@@ -585,6 +587,7 @@ func (sm *stream) doRPC(pkt *packet.RequestPacket, rpc methodRPC, method string,
 		sm.rpcMtx.Unlock()
 
 		rspPkt := sm.pf.NewResponsePacket(pkt.ID(), []byte(req.method), rsp.data, rsp.err)
+		rspPkt.Data.Custom = rsp.custom
 		err := sm.dg.WriteWait(rspPkt)
 		if err != nil {
 			// Write error, the response cannot be delivered, so should be debuged
-- 
2.43.0


From 25e1fcd5f4fe37df5d489915814fc45823d6a1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 19/39] fix: let the cancellation of a call reach its handler

The cancel packet was dropped on its way out, handlers of calls without a
deadline had nothing to cancel, and async calls didn't tell the peer at all.
---
 application/rpc.go    | 15 +++++++++++++++
 application/stream.go | 35 +++++++++++++++++++++++------------
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/application/rpc.go b/application/rpc.go
index 0bbba29..305a1a9 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -174,6 +174,8 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 		Request: req,
 		Done:    ch,
 	}
+	// whether the request is handed over
+	queued := make(chan bool, 1)
 	// closed once the call is over
 	completed := make(chan struct{})
 	once := sync.Once{}
@@ -200,6 +202,17 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 				sm.log.Debugf("request packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 					event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 				complete(nil, event.Error)
+				if event.Error == context.Canceled {
+					// notify peer if context Canceled
+					cancelType := packet.RequestCancelTypeCanceled
+					cancelPkt := sm.pf.NewRequestCancelPacketWithIDAndSessionID(pkt.ID(), sm.dg.DialogueID(), cancelType)
+					go func() {
+						// never ahead of the request
+						if <-queued {
+							sm.writeIn(cancelPkt)
+						}
+					}()
+				}
 				return
 			}
 			sm.log.Tracef("response return succeed, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
@@ -214,7 +227,9 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 	sm.shub.New(pkt.ID(), syncOpts...)
 	select {
 	case sm.writeInCh <- pkt:
+		queued <- true
 	case <-completed:
+		queued <- false
 	}
 	return call, nil
 }
diff --git a/application/stream.go b/application/stream.go
index 499b50b..d50eeef 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -286,6 +286,8 @@ func (sm *stream) handleOut(pkt packet.Packet) iodefine.IORet {
 		return sm.handleOutMessageAckPacket(realPkt)
 	case *packet.RequestPacket:
 		return sm.handleOutRequestPacket(realPkt)
+	case *packet.RequestCancelPacket:
+		return sm.handleOutRequestCancelPacket(realPkt)
 	case *packet.StreamPacket:
 		return sm.handleOutStreamPacket(realPkt)
 	case *packet.RegisterPacket:
@@ -362,8 +364,8 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 			clientID:  sm.cn.ClientID(),
 			streamID:  sm.dg.DialogueID(),
 		}
-	// setup context
-	ctx, cancel := context.Background(), context.CancelFunc(nil)
+	// setup context, the caller may cancel it any time
+	ctx, cancel := context.WithCancel(context.Background())
 	if !pkt.Data.Deadline.IsZero() || !pkt.Data.Context.Deadline.IsZero() {
 		deadline := pkt.Data.Deadline
 		if deadline.IsZero() || (!deadline.IsZero() &&
@@ -371,11 +373,12 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 			pkt.Data.Context.Deadline.Before(deadline)) {
 			deadline = pkt.Data.Context.Deadline
 		}
-		ctx, cancel = context.WithDeadline(ctx, deadline)
-		sm.rpcMtx.Lock()
-		sm.rpcCancels[pkt.ID()] = cancel
-		sm.rpcMtx.Unlock()
+		cancel()
+		ctx, cancel = context.WithDeadline(context.Background(), deadline)
 	}
+	sm.rpcMtx.Lock()
+	sm.rpcCancels[pkt.ID()] = cancel
+	sm.rpcMtx.Unlock()
 	// hijack exist
 	if sm.hijackRPC != nil {
 		if sm.hijackRPC.pattern == nil {
@@ -403,12 +406,10 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 	}
 
 	// release the context
-	if cancel != nil {
-		sm.rpcMtx.Lock()
-		delete(sm.rpcCancels, pkt.ID())
-		cancel()
-		sm.rpcMtx.Unlock()
-	}
+	sm.rpcMtx.Lock()
+	delete(sm.rpcCancels, pkt.ID())
+	cancel()
+	sm.rpcMtx.Unlock()
 
 	// no rpc found, return to call error, note that this error is not set to response error
 	err := fmt.Errorf("no such rpc: %s", method)
@@ -536,6 +537,16 @@ func (sm *stream) handleOutRequestPacket(pkt *packet.RequestPacket) iodefine.IOR
 	return iodefine.IOSuccess
 }
 
+func (sm *stream) handleOutRequestCancelPacket(pkt *packet.RequestCancelPacket) iodefine.IORet {
+	err := sm.dg.Write(pkt)
+	if err != nil {
+		sm.log.Debugf("write request cancel packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
+			err, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+		return iodefine.IOErr
+	}
+	return iodefine.IOSuccess
+}
+
 func (sm *stream) handleOutRegisterPacket(pkt *packet.RegisterPacket) iodefine.IORet {
 	err := sm.dg.Write(pkt)
 	if err != nil {
-- 
2.43.0


From 336da759aaef42f16fe1e32f50a2f52054d82604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 20/39] fix: set and read the hijacking rpc under its lock

---
 application/rpc.go    |  2 ++
 application/stream.go | 15 +++++++++------
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/application/rpc.go b/application/rpc.go
index 305a1a9..a190d44 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -250,6 +250,8 @@ func (sm *stream) Hijack(rpc geminio.HijackRPC, opts ...*options.HijackOptions)
 		pRPC.match = *fo.Match
 	}
 	pRPC.rpc = rpc
+	sm.rpcMtx.Lock()
 	sm.hijackRPC = pRPC
+	sm.rpcMtx.Unlock()
 	return nil
 }
diff --git a/application/stream.go b/application/stream.go
index d50eeef..75a167f 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -380,15 +380,18 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 	sm.rpcCancels[pkt.ID()] = cancel
 	sm.rpcMtx.Unlock()
 	// hijack exist
-	if sm.hijackRPC != nil {
-		if sm.hijackRPC.pattern == nil {
-			sm.doRPC(pkt, methodRPC(sm.hijackRPC.rpc), method, ctx, req, rsp, true)
+	sm.rpcMtx.RLock()
+	hijackRPC := sm.hijackRPC
+	sm.rpcMtx.RUnlock()
+	if hijackRPC != nil {
+		if hijackRPC.pattern == nil {
+			sm.doRPC(pkt, methodRPC(hijackRPC.rpc), method, ctx, req, rsp, true)
 			return iodefine.IOSuccess
 		}
-		matched := sm.hijackRPC.pattern.Match([]byte(method))
-		if (sm.hijackRPC.match && matched) || (!sm.hijackRPC.match && !matched) {
+		matched := hijackRPC.pattern.Match([]byte(method))
+		if (hijackRPC.match && matched) || (!hijackRPC.match && !matched) {
 			// do RPC and cancel the context
-			sm.doRPC(pkt, methodRPC(sm.hijackRPC.rpc), method, ctx, req, rsp, true)
+			sm.doRPC(pkt, methodRPC(hijackRPC.rpc), method, ctx, req, rsp, true)
 			return iodefine.IOSuccess
 		}
 	}
-- 
2.43.0


From 26b4fb0e419cbd219328fedd9319c68cba1888fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 21/39] fix: don't pass negative timeouts to the timer

It panics on them; they're over at once.
---
 application/message.go | 8 ++++++++
 application/rpc.go     | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/application/message.go b/application/message.go
index 6a82890..8d046e3 100644
--- a/application/message.go
+++ b/application/message.go
@@ -56,6 +56,10 @@ func (sm *stream) Publish(ctx context.Context, msg geminio.Message, opts ...*opt
 	if opt.Timeout != nil {
 		msg.SetTimeout(*opt.Timeout)
 	}
+	if msg.Timeout() < 0 {
+		// timeout already, and the timer doesn't take the past
+		return synchub.ErrSyncTimeout
+	}
 
 	pkt := sm.pf.NewMessagePacketWithIDAndSessionID(msg.ID(), sm.dg.DialogueID(), nil, msg.Data())
 	if msg.Timeout() != 0 {
@@ -110,6 +114,10 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 	if opt.Timeout != nil {
 		msg.SetTimeout(*opt.Timeout)
 	}
+	if msg.Timeout() < 0 {
+		// timeout already, and the timer doesn't take the past
+		return nil, synchub.ErrSyncTimeout
+	}
 
 	now := time.Now()
 	pkt := sm.pf.NewMessagePacketWithIDAndSessionID(msg.ID(), sm.dg.DialogueID(), nil, msg.Data())
diff --git a/application/rpc.go b/application/rpc.go
index a190d44..b8fcd37 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -69,6 +69,10 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 	if opt.Timeout != nil {
 		req.SetTimeout(*opt.Timeout)
 	}
+	if req.Timeout() < 0 {
+		// timeout already, and the timer doesn't take the past
+		return nil, synchub.ErrSyncTimeout
+	}
 
 	if !sm.available() {
 		return nil, io.EOF
@@ -149,6 +153,10 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 	if opt.Timeout != nil {
 		req.SetTimeout(*opt.Timeout)
 	}
+	if req.Timeout() < 0 {
+		// timeout already, and the timer doesn't take the past
+		return nil, synchub.ErrSyncTimeout
+	}
 	if !sm.available() {
 		return nil, io.EOF
 	}
-- 
2.43.0


From d247410eb9192e4cdeea79e29df82090dbfa0af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 22/39] fix: apply read and write deadlines to pending
 operations, and only current ones

A past deadline didn't wake anyone, one set while an operation was starting
was missed by it, an expiring old one could fire for its successor (they
shared a sync id), and concurrent reads overwrote each other's rest.
---
 application/raw.go    | 170 ++++++++++++++++++------------------------
 application/stream.go |   4 +-
 2 files changed, 76 insertions(+), 98 deletions(-)

diff --git a/application/raw.go b/application/raw.go
index 85d4ae2..bcc525f 100644
--- a/application/raw.go
+++ b/application/raw.go
@@ -1,21 +1,19 @@
 package application
 
 import (
+	"container/list"
 	"io"
 	"net"
 	"os"
 	"time"
-
-	"github.com/jumboframes/armorigo/synchub"
-)
-
-const (
-	deadlineReadSyncKey  = "geminio:read_deadline"
-	deadlineWriteSyncKey = "geminio:write_deadline"
 )
 
 // geminio.Raw
 func (sm *stream) Read(b []byte) (int, error) {
+	// one at a time, or what one Read left in cache is overwritten by another
+	sm.readMtx.Lock()
+	defer sm.readMtx.Unlock()
+
 	// what's been received can be read after the end, then streamCh tells EOF
 	sm.cacheMtx.Lock()
 	if sm.cache != nil && len(sm.cache) != 0 {
@@ -26,7 +24,9 @@ func (sm *stream) Read(b []byte) (int, error) {
 	}
 	sm.cacheMtx.Unlock()
 
-	if sm.readDeadlineExceeded() {
+	dlCh, e := sm.waitDeadline(sm.dlReadChList, &sm.dlRead)
+	if e == nil {
+		// deadline exceeded
 		select {
 		case pkt, ok := <-sm.streamCh:
 			if !ok {
@@ -41,29 +41,17 @@ func (sm *stream) Read(b []byte) (int, error) {
 			return 0, os.ErrDeadlineExceeded
 		}
 	}
-
-	dlCh := make(chan struct{})
-	sm.dlMtx.Lock()
-	e := sm.dlReadChList.PushBack(dlCh)
-	sm.dlMtx.Unlock()
+	defer sm.unwaitDeadline(sm.dlReadChList, e)
 
 	select {
 	case pkt, ok := <-sm.streamCh:
 		if !ok {
-			sm.dlMtx.Lock()
-			sm.dlReadChList.Remove(e)
-			sm.dlMtx.Unlock()
 			return 0, io.EOF
 		}
 		sm.cacheMtx.Lock()
 		n := copy(b, pkt.Data)
 		sm.cache = pkt.Data[n:]
 		sm.cacheMtx.Unlock()
-
-		// if we have't used the deadline channel, then release it
-		sm.dlMtx.Lock()
-		sm.dlReadChList.Remove(e)
-		sm.dlMtx.Unlock()
 		return n, nil
 	case <-dlCh:
 		return 0, os.ErrDeadlineExceeded
@@ -79,7 +67,9 @@ func (sm *stream) Write(b []byte) (int, error) {
 	copy(newb, b)
 	pkt := sm.pf.NewStreamPacketWithSessionID(sm.dg.DialogueID(), newb)
 
-	if sm.writeDeadlineExceeded() {
+	dlCh, e := sm.waitDeadline(sm.dlWriteChList, &sm.dlWrite)
+	if e == nil {
+		// deadline exceeded
 		select {
 		case sm.writeInCh <- pkt:
 			return len(b), nil
@@ -87,22 +77,12 @@ func (sm *stream) Write(b []byte) (int, error) {
 			return 0, os.ErrDeadlineExceeded
 		}
 	}
-
-	dlCh := make(chan struct{})
-	sm.dlMtx.Lock()
-	e := sm.dlWriteChList.PushBack(dlCh)
-	sm.dlMtx.Unlock()
+	defer sm.unwaitDeadline(sm.dlWriteChList, e)
 
 	select {
 	case sm.writeInCh <- pkt:
-		sm.dlMtx.Lock()
-		sm.dlWriteChList.Remove(e)
-		sm.dlMtx.Unlock()
 		return len(b), nil
 	case <-sm.doneCh:
-		sm.dlMtx.Lock()
-		sm.dlWriteChList.Remove(e)
-		sm.dlMtx.Unlock()
 		return 0, io.EOF
 	case <-dlCh:
 		return 0, os.ErrDeadlineExceeded
@@ -162,34 +142,11 @@ func (sm *stream) SetReadDeadline(t time.Time) error {
 }
 
 func (sm *stream) setReadDeadline(t time.Time) error {
-	if sm.dlReadSync != nil {
-		sm.dlReadSync.Cancel(false)
-		sm.dlReadSync = nil
-	}
-	duration := t.Sub(time.Now())
-	if duration > 0 {
-		sm.dlReadSync = sm.shub.Add(deadlineReadSyncKey,
-			synchub.WithTimeout(duration),
-			synchub.WithCallback(func(event *synchub.Event) {
-				if event.Error != synchub.ErrSyncTimeout {
-					return
-				}
-				// deadline exceeds
-				sm.dlMtx.RLock()
-				defer sm.dlMtx.RUnlock()
-
-				e := sm.dlReadChList.Front()
-				for e != nil {
-					ch, _ := e.Value.(chan struct{})
-					// deadline exceeds and notify all waiting Read/Write
-					close(ch)
-					olde := e
-					e = e.Next()
-					sm.dlReadChList.Remove(olde)
-				}
-			}))
+	if sm.dlReadTimer != nil {
+		sm.dlReadTimer.Stop()
 	}
 	sm.dlRead = t
+	sm.dlReadTimer = sm.startDeadline(sm.dlReadChList, &sm.dlRead)
 	return nil
 }
 
@@ -205,53 +162,72 @@ func (sm *stream) SetWriteDeadline(t time.Time) error {
 }
 
 func (sm *stream) setWriteDeadline(t time.Time) error {
-	if sm.dlWriteSync != nil {
-		sm.dlWriteSync.Cancel(false)
-		sm.dlWriteSync = nil
-	}
-	duration := t.Sub(time.Now())
-	if duration > 0 {
-		sm.dlWriteSync = sm.shub.Add(deadlineWriteSyncKey,
-			synchub.WithTimeout(duration),
-			synchub.WithCallback(func(event *synchub.Event) {
-				if event.Error != synchub.ErrSyncTimeout {
-					return
-				}
-				// deadline exceeds
-				sm.dlMtx.RLock()
-				defer sm.dlMtx.RUnlock()
-
-				e := sm.dlWriteChList.Front()
-				for e != nil {
-					ch, _ := e.Value.(chan struct{})
-					// deadline exceeds and notify all waiting Read/Write
-					close(ch)
-					olde := e
-					e = e.Next()
-					sm.dlWriteChList.Remove(olde)
-				}
-			}))
+	if sm.dlWriteTimer != nil {
+		sm.dlWriteTimer.Stop()
 	}
 	sm.dlWrite = t
+	sm.dlWriteTimer = sm.startDeadline(sm.dlWriteChList, &sm.dlWrite)
 	return nil
 }
 
-func (sm *stream) readDeadlineExceeded() bool {
-	sm.dlMtx.RLock()
-	defer sm.dlMtx.RUnlock()
+// startDeadline wakes those pending on a deadline once it exceeds, which may be
+// already. It must be called with dlMtx held.
+func (sm *stream) startDeadline(pending *list.List, deadline *time.Time) *time.Timer {
+	t := *deadline
+	if t.IsZero() {
+		return nil
+	}
+	duration := time.Until(t)
+	if duration <= 0 {
+		wakePending(pending)
+		return nil
+	}
+	return time.AfterFunc(duration, func() {
+		sm.dlMtx.Lock()
+		defer sm.dlMtx.Unlock()
+		if *deadline != t {
+			// another deadline was set meanwhile
+			return
+		}
+		wakePending(pending)
+	})
+}
+
+// deadline exceeds and notify all waiting Read/Write
+func wakePending(pending *list.List) {
+	for e := pending.Front(); e != nil; e = pending.Front() {
+		ch, _ := e.Value.(chan struct{})
+		close(ch)
+		pending.Remove(e)
+	}
+}
 
-	if !sm.dlRead.IsZero() && time.Now().After(sm.dlRead) {
-		return true
+// waitDeadline returns a channel closed once the deadline exceeds, and nil if it
+// already does
+func (sm *stream) waitDeadline(pending *list.List, deadline *time.Time) (chan struct{}, *list.Element) {
+	sm.dlMtx.Lock()
+	defer sm.dlMtx.Unlock()
+	if !deadline.IsZero() && !time.Now().Before(*deadline) {
+		return nil, nil
 	}
-	return false
+	ch := make(chan struct{})
+	return ch, pending.PushBack(ch)
 }
 
-func (sm *stream) writeDeadlineExceeded() bool {
-	sm.dlMtx.RLock()
-	defer sm.dlMtx.RUnlock()
+func (sm *stream) unwaitDeadline(pending *list.List, e *list.Element) {
+	sm.dlMtx.Lock()
+	defer sm.dlMtx.Unlock()
+	// no effect if it's been woken
+	pending.Remove(e)
+}
 
-	if !sm.dlWrite.IsZero() && time.Now().After(sm.dlWrite) {
-		return true
+func (sm *stream) stopDeadlines() {
+	sm.dlMtx.Lock()
+	defer sm.dlMtx.Unlock()
+	if sm.dlReadTimer != nil {
+		sm.dlReadTimer.Stop()
+	}
+	if sm.dlWriteTimer != nil {
+		sm.dlWriteTimer.Stop()
 	}
-	return false
 }
diff --git a/application/stream.go b/application/stream.go
index 75a167f..103fd53 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -72,6 +72,7 @@ type stream struct {
 	// raw cache
 	cache    []byte
 	cacheMtx sync.Mutex
+	readMtx  sync.Mutex
 
 	messageCh chan *packet.MessagePacket
 	streamCh  chan *packet.StreamPacket
@@ -79,7 +80,7 @@ type stream struct {
 
 	// deadline mtx protects SetDeadline, SetReadDeadline, SetWriteDeadline and all Read Write
 	dlMtx                       sync.RWMutex
-	dlReadSync, dlWriteSync     synchub.Sync
+	dlReadTimer, dlWriteTimer   *time.Timer
 	dlReadChList, dlWriteChList *list.List
 	dlRead, dlWrite             time.Time
 
@@ -658,6 +659,7 @@ func (sm *stream) fini() {
 		sm.cn.ClientID(), sm.dg.DialogueID())
 
 	sm.release()
+	sm.stopDeadlines()
 
 	// the outside should care about message and stream channel status
 	close(sm.messageCh)
-- 
2.43.0


From e57a521b164992799737a311e46f409965aa5952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 23/39] fix: don't miss remote registrations while waiting for
 them

One arriving between the check and the wait was waited for forever, and the
registering side learnt of success before the method could be called.
---
 application/end.go    | 22 ++++++++++------------
 application/stream.go |  7 ++++---
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/application/end.go b/application/end.go
index 3319bbb..1d46191 100644
--- a/application/end.go
+++ b/application/end.go
@@ -162,22 +162,20 @@ func NewEnd(cn conn.Conn, multiplexer multiplexer.Multiplexer, options ...EndOpt
 	}
 	// wait for all remote RPCs registration
 	if end.opts.remoteMethods != nil && len(end.opts.remoteMethods) != 0 {
+		// start waiting before checking, or a registration in between is missed
+		ifs := strings2interfaces(end.opts.remoteMethods...)
+		syncID := fmt.Sprintf(registrationFormat, cn.ClientID(), dg.DialogueID())
+		sync := end.stream.shub.Add(syncID, synchub.WithSub(ifs...))
 		// check whether remote RPCs have been registered
-		tocheckMethods := []string{}
 		for _, method := range end.opts.remoteMethods {
-			if !end.stream.hasRemoteRPC(method) {
-				tocheckMethods = append(tocheckMethods, method)
+			if end.stream.hasRemoteRPC(method) {
+				end.stream.shub.DoneSub(syncID, method)
 			}
 		}
-		if len(tocheckMethods) != 0 {
-			ifs := strings2interfaces(tocheckMethods...)
-			syncID := fmt.Sprintf(registrationFormat, cn.ClientID(), dg.DialogueID())
-			sync := end.stream.shub.Add(syncID, synchub.WithSub(ifs...))
-			event := <-sync.C()
-			if event.Error != nil {
-				err = event.Error
-				goto ERR
-			}
+		event := <-sync.C()
+		if event.Error != nil {
+			err = event.Error
+			goto ERR
 		}
 	}
 	return end, nil
diff --git a/application/stream.go b/application/stream.go
index 103fd53..048b793 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -462,15 +462,16 @@ func (sm *stream) handleInRegisterPacket(pkt *packet.RegisterPacket) iodefine.IO
 	sm.log.Tracef("read register packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s, method: %s",
 		sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String(), method)
 
-	retPkt := sm.pf.NewRegisterAckPacket(pkt.ID(), nil)
-	go sm.answer(retPkt)
-
 	// TODO delegate for remote registration
 
 	sm.rpcMtx.Lock()
 	sm.remoteRPCs[method] = struct{}{}
 	sm.rpcMtx.Unlock()
 
+	// once the peer knows, the method can be called
+	retPkt := sm.pf.NewRegisterAckPacket(pkt.ID(), nil)
+	go sm.answer(retPkt)
+
 	// to notify the method is registing, in case of we're waiting for the method ready
 	syncID := fmt.Sprintf(registrationFormat, sm.cn.ClientID(), sm.dg.DialogueID())
 	sm.shub.DoneSub(syncID, method)
-- 
2.43.0


From 0abeeed400c172eecfb1bc6107ad8b95bbe37a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:42 +0000
Subject: [PATCH 24/39] fix: list a stream before it may finish

A stream finishing at once was left in the list forever.
---
 application/end.go    | 8 ++++----
 application/stream.go | 7 ++++++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/application/end.go b/application/end.go
index 1d46191..16a8d09 100644
--- a/application/end.go
+++ b/application/end.go
@@ -148,7 +148,7 @@ func NewEnd(cn conn.Conn, multiplexer multiplexer.Multiplexer, options ...EndOpt
 		goto ERR
 	}
 	end.stream = newStream(end, cn, dg, end.opts)
-	end.streams.Store(dg.DialogueID(), end.stream)
+	end.stream.start()
 
 	// RPCs
 	// pre register local RPCs
@@ -199,7 +199,7 @@ func (end *End) OpenStream(opts ...*options.OpenStreamOptions) (
 		return nil, err
 	}
 	sm := newStream(end, end.cn, dg, end.opts)
-	end.streams.Store(sm.StreamID(), sm)
+	sm.start()
 	return sm, nil
 }
 
@@ -213,7 +213,7 @@ func (end *End) AcceptStream() (geminio.Stream, error) {
 		return nil, err
 	}
 	sm := newStream(end, end.cn, dg, end.opts)
-	end.streams.Store(sm.StreamID(), sm)
+	sm.start()
 	return sm, nil
 }
 
@@ -281,7 +281,7 @@ func (end *End) fini() {
 // TODO optimize
 func (end *End) AcceptDialogue(dg multiplexer.Dialogue) {
 	sm := newStream(end, end.cn, dg, end.opts)
-	end.streams.Store(sm.StreamID(), sm)
+	sm.start()
 	if sm.acceptStreamFunc != nil {
 		sm.acceptStreamFunc(sm)
 	}
diff --git a/application/stream.go b/application/stream.go
index 048b793..8b3111a 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -121,9 +121,14 @@ func newStream(end *End, cn conn.Conn, dg multiplexer.Dialogue, opts *opts) *str
 		doneCh:            make(chan struct{}),
 		doneOnce:          new(gsync.Once),
 	}
+	return sm
+}
+
+// start rolls the stream, which may finish at once and so must be known before
+func (sm *stream) start() {
+	sm.end.streams.Store(sm.dg.DialogueID(), sm)
 	go sm.handlePkt()
 	go sm.readPkt()
-	return sm
 }
 
 func (sm *stream) hasRemoteRPC(method string) bool {
-- 
2.43.0


From 4541b25e6bd9d1e1b006530c8fab0b6f6fac88e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 25/39] fix: keep a retry end reconnecting and in step with
 what it reconnected

Losing the connection again while re-registering deadlocked the retry, an end
lost before it was stored was never retried, a late offline could close a
healthy successor, closing while reconnecting leaked the new connection, and
what was registered during a reconnection could be missed.
---
 client/end.go       |  2 ++
 client/end_retry.go | 55 +++++++++++++++++++++++++++++++++------------
 2 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/client/end.go b/client/end.go
index e1e18d8..37c9382 100644
--- a/client/end.go
+++ b/client/end.go
@@ -15,6 +15,7 @@ type Dialer func() (net.Conn, error)
 type clientEnd struct {
 	// we need the opts to hold resources to close
 	opts *EndOptions
+	cn   conn.Conn
 	geminio.End
 }
 
@@ -113,6 +114,7 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 		goto ERR
 	}
 	// client
+	ce.cn = cn
 	ce.End = ep
 	return ce, nil
 ERR:
diff --git a/client/end_retry.go b/client/end_retry.go
index 87364a1..2e9ec8b 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -58,11 +58,14 @@ func NewRetryEndWithDialer(dialer Dialer, opts ...*EndOptions) (geminio.End, err
 	// replace outside delegate to ours
 	re.opts.delegate = re.opts.Delegate
 	re.opts.Delegate = re
+	// the end may go offline before we have it
+	re.retry.Lock()
+	defer re.retry.Unlock()
 	end, err := re.getEnd()
 	if err != nil {
 		goto ERR
 	}
-	re.end = unsafe.Pointer(end)
+	atomic.StorePointer(&re.end, unsafe.Pointer(end))
 	return re, nil
 ERR:
 	atomic.StoreInt32(re.ok, 0)
@@ -109,12 +112,20 @@ func (re *RetryEnd) reinit(old *clientEnd) error {
 		return err
 	}
 	atomic.StorePointer(&re.end, unsafe.Pointer(new))
+	if atomic.LoadInt32(re.ok) == 0 {
+		// closed while reconnecting, Close may have seen only the old end
+		new.Close()
+		return io.EOF
+	}
 	// TODO optimize rests
 	time.Sleep(1 * time.Second)
 
 	// hijack
-	if re.hijackRPC != nil {
-		err = new.Hijack(re.hijackRPC, re.hijackRPCOpts)
+	re.rpcMtx.RLock()
+	hijackRPC, hijackRPCOpts := re.hijackRPC, re.hijackRPCOpts
+	re.rpcMtx.RUnlock()
+	if hijackRPC != nil {
+		err = new.Hijack(hijackRPC, hijackRPCOpts)
 		if err != nil {
 			return err
 		}
@@ -123,7 +134,8 @@ func (re *RetryEnd) reinit(old *clientEnd) error {
 	re.rpcMtx.RLock()
 	for method, rpc := range re.rpcs {
 		// TODO inconsistency for the context
-		err = re.register(context.TODO(), method, rpc, false)
+		// no retry in the retry, it's not reentrant
+		err = new.Register(context.TODO(), method, rpc)
 		if err != nil {
 			re.rpcMtx.RUnlock()
 			return err
@@ -158,6 +170,14 @@ func (re *RetryEnd) ConnOffline(conn delegate.ConnDescriber) error {
 		}
 	}
 	fn := func() {
+		// wait for the ongoing (re)connecting, if it's about another end then
+		// that one is up to those who created it
+		re.retry.Lock()
+		cur := (*clientEnd)(atomic.LoadPointer(&re.end))
+		re.retry.Unlock()
+		if cur == nil || interface{}(cur.cn) != interface{}(conn) {
+			return
+		}
 		for atomic.LoadInt32(re.ok) == 1 {
 			end := (*clientEnd)(atomic.LoadPointer(&re.end))
 			err := re.reinit(end)
@@ -339,11 +359,10 @@ func (re *RetryEnd) CallAsync(ctx context.Context, method string, req geminio.Re
 }
 
 func (re *RetryEnd) Register(ctx context.Context, method string, rpc geminio.RPC) error {
-	return re.register(ctx, method, rpc, true)
+	return re.register(ctx, method, rpc)
 }
 
-func (re *RetryEnd) register(ctx context.Context, method string, rpc geminio.RPC,
-	memorize bool) error {
+func (re *RetryEnd) register(ctx context.Context, method string, rpc geminio.RPC) error {
 	if atomic.LoadInt32(re.ok) != 1 {
 		// TODO optimize the error
 		return io.EOF
@@ -365,15 +384,17 @@ func (re *RetryEnd) register(ctx context.Context, method string, rpc geminio.RPC
 				return ierr
 			}
 			// retry succeed, recursive the register
-			return re.register(ctx, method, rpc, true)
+			return re.register(ctx, method, rpc)
 		}
 		return rerr
 	}
-	if memorize {
-		// memorize the rpc in case of retry
-		re.rpcMtx.Lock()
-		re.rpcs[method] = rpc
-		re.rpcMtx.Unlock()
+	// memorize the rpc in case of retry
+	re.rpcMtx.Lock()
+	re.rpcs[method] = rpc
+	re.rpcMtx.Unlock()
+	if cur != (*clientEnd)(atomic.LoadPointer(&re.end)) {
+		// the retry in between may have missed it
+		return re.register(ctx, method, rpc)
 	}
 	return nil
 }
@@ -404,8 +425,14 @@ func (re *RetryEnd) Hijack(rpc geminio.HijackRPC, opts ...*options.HijackOptions
 		return herr
 	}
 	// memorize the hijack
+	re.rpcMtx.Lock()
 	re.hijackRPC = rpc
 	re.hijackRPCOpts = options.MergeHijackOptions(opts...)
+	re.rpcMtx.Unlock()
+	if cur != (*clientEnd)(atomic.LoadPointer(&re.end)) {
+		// the retry in between may have missed it
+		return re.Hijack(rpc, opts...)
+	}
 	return nil
 }
 
@@ -561,9 +588,9 @@ func (re *RetryEnd) Write(b []byte) (int, error) {
 func (re *RetryEnd) Close() error {
 	var err error
 	re.onceClose.Do(func() {
-		cur := (*clientEnd)(atomic.LoadPointer(&re.end))
 		// set re.ok false, no more reconnect
 		atomic.StoreInt32(re.ok, 0)
+		cur := (*clientEnd)(atomic.LoadPointer(&re.end))
 		err = cur.Close()
 		if re.opts.TimerOwner == re {
 			re.opts.Timer.Close()
-- 
2.43.0


From baf31d4ca157b60d53e42064c210fc7f0063e573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:49 +0000
Subject: [PATCH 26/39] fix: keep the method registered before when registering
 it again fails

---
 application/rpc.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/application/rpc.go b/application/rpc.go
index b8fcd37..cce618e 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -28,15 +28,23 @@ func (sm *stream) NewRequest(data []byte, opts ...*options.NewRequestOptions) ge
 	return req
 }
 
-func (sm *stream) addLocalRPC(method string, rpc geminio.RPC) {
+// addLocalRPC returns the one it replaces
+func (sm *stream) addLocalRPC(method string, rpc geminio.RPC) geminio.RPC {
 	sm.rpcMtx.Lock()
 	defer sm.rpcMtx.Unlock()
+	old := sm.localRPCs[method]
 	sm.localRPCs[method] = rpc
+	return old
 }
 
-func (sm *stream) delLocalRPC(method string) {
+// delLocalRPC brings the replaced one back, if any
+func (sm *stream) delLocalRPC(method string, old geminio.RPC) {
 	sm.rpcMtx.Lock()
 	defer sm.rpcMtx.Unlock()
+	if old != nil {
+		sm.localRPCs[method] = old
+		return
+	}
 	delete(sm.localRPCs, method)
 }
 
@@ -45,14 +53,14 @@ func (sm *stream) Register(ctx context.Context, method string, rpc geminio.RPC)
 	if !sm.available() {
 		return io.EOF
 	}
-	sm.addLocalRPC(method, rpc)
+	old := sm.addLocalRPC(method, rpc)
 	pkt := sm.pf.NewRegisterPacketWithSessionID(sm.dg.DialogueID(), []byte(method))
 	sync := sm.shub.New(pkt.ID(), synchub.WithContext(ctx))
 	event := sm.writeInWait(pkt, sync)
 	if event.Error != nil {
 		sm.log.Debugf("register err: %s, clientID: %d, dialogueID: %d, packetID: %d",
 			event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID())
-		sm.delLocalRPC(method)
+		sm.delLocalRPC(method, old)
 		return event.Error
 	}
 	return nil
-- 
2.43.0


From 5c75c0f3343bc9d745cf81eda43ec259ad4c3c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 27/39] fix: close a dialogue in bounded time when the peer
 takes nothing any more

The timeout only started once the dismiss packet was queued, which waits
forever when the peer stopped reading, so End.Close never returned.
---
 multiplexer/dialogue.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 011d656..16afd48 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -739,8 +739,6 @@ func (dg *dialogue) Close() {
 		dg.log.Debugf("dialogue async close, clientID: %d, dialogueID: %d",
 			dg.cn.ClientID(), dg.dialogueID)
 
-		dg.writeIn(pkt)
-
 		go func() {
 			// we don't use shub WithCallback because the force close may arrive firse
 			event := <-dg.closewait.C()
@@ -753,6 +751,9 @@ func (dg *dialogue) Close() {
 				}
 			}
 		}()
+
+		// the peer may never take it, then the tick above comes
+		dg.writeIn(pkt)
 	})
 }
 
-- 
2.43.0


From 1c0b5bc91246518036f3dd7fcf2ac28d98b46042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 28/39] fix: notify the end of every stream which was notified
 online

The ack of a session was queued behind a dismiss when the connection was
being closed meanwhile, the stream was then online for the delegate and
never offline.
---
 multiplexer/dialogue.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 16afd48..516d4ab 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -548,8 +548,8 @@ func (dg *dialogue) handleInSessionPacket(pkt *packet.SessionPacket) iodefine.IO
 	dg.meta = pkt.SessionData.Meta
 
 	retPkt := dg.pf.NewSessionAckPacket(pkt.PacketID, pkt.NegotiateID(), dialogueID, nil)
-	dg.writeInCh <- retPkt
-	return iodefine.IOSuccess
+	// not through writeInCh, where a dismiss may already be ahead of it
+	return dg.handleOutSessionAckPacket(retPkt)
 }
 
 func (dg *dialogue) handleInSessionAckPacket(pkt *packet.SessionAckPacket) iodefine.IORet {
-- 
2.43.0


From b8a4a4534eca58458547273b28d78016621a8829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 29/39] fix: keep a dialogue whose ID the peer chose again

---
 multiplexer/dialogue_mgr.go | 13 +++++++++++++
 multiplexer/multiplexer.go  |  1 +
 2 files changed, 14 insertions(+)

diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index e7d8a1c..ae1f703 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -201,6 +201,11 @@ func (dm *dialogueMgr) DialogueOnline(dg delegate.DialogueDescriber) error {
 		dm.mtx.Unlock()
 		return ErrOperationOnClosedMultiplexer
 	}
+	if old, ok := dm.dialogues[dg.DialogueID()]; ok && old != dg {
+		// the peer chose an ID in use, the dialogue having it must not get lost
+		dm.mtx.Unlock()
+		return ErrDialogueExists
+	}
 	// remove from the negotiating dialogues, and add to ready dialogues.
 	_, ok := dm.negotiatingDialogues[dg.NegotiatingID()]
 	if ok {
@@ -427,6 +432,14 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 			dm.mtx.Unlock()
 			return
 		}
+		if old, ok := dm.dialogues[realPkt.SessionID()]; ok && old != dg && realPkt.SessionData.Error == "" {
+			// the peer chose an ID in use, the dialogue having it must not get lost
+			dm.log.Errorf("clientID: %d, negotiatingID: %d, dialogueID: %d already exists",
+				dm.cn.ClientID(), realPkt.NegotiateID(), realPkt.SessionID())
+			dm.mtx.Unlock()
+			dg.closeIO()
+			return
+		}
 		if realPkt.SessionData.Error == "" {
 			// the peer's data or dismiss may come right behind, so the dialogue
 			// must be found by its dialogueID from now on.
diff --git a/multiplexer/multiplexer.go b/multiplexer/multiplexer.go
index 4506ebe..4815129 100644
--- a/multiplexer/multiplexer.go
+++ b/multiplexer/multiplexer.go
@@ -11,6 +11,7 @@ var (
 	ErrOperationOnClosedMultiplexer = errors.New("operation on closed multiplexer")
 	ErrConnNotFound                 = errors.New("conn not found")
 	ErrDialogueNotFound             = errors.New("dialogue not found")
+	ErrDialogueExists               = errors.New("dialogue already exists")
 	ErrAcceptChNotEnabled           = errors.New("accept channel not enabled")
 	ErrClosedChNotEnabled           = errors.New("closed channel not enabled")
 )
-- 
2.43.0


From 967faa4f87d790baf138d1d42281ae07518f5b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 30/39] fix: don't panic when a request is acked by other than
 a response

---
 application/rpc.go    | 14 ++++++++++++--
 application/stream.go |  1 +
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/application/rpc.go b/application/rpc.go
index cce618e..d06e411 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -144,7 +144,11 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 					event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), req.ID())
 				return nil, event.Error
 			}
-			rsp := event.Ack.(*response)
+			rsp, ok := event.Ack.(*response)
+			if !ok {
+				// the peer acked our request with something else
+				return nil, ErrMismatchResponse
+			}
 			return rsp, nil
 		}
 	}
@@ -233,7 +237,13 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 			}
 			sm.log.Tracef("response return succeed, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
-			complete(event.Ack.(*response), nil)
+			rsp, ok := event.Ack.(*response)
+			if !ok {
+				// the peer acked our request with something else
+				complete(nil, ErrMismatchResponse)
+				return
+			}
+			complete(rsp, nil)
 			return
 		})}
 	if req.Timeout() != 0 {
diff --git a/application/stream.go b/application/stream.go
index 8b3111a..c35556c 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -23,6 +23,7 @@ import (
 var (
 	ErrMismatchStreamID      = errors.New("mismatch streamID")
 	ErrMismatchClientID      = errors.New("mismatch clientID")
+	ErrMismatchResponse      = errors.New("mismatch response")
 	ErrRemoteRPCUnregistered = errors.New("remote rpc unregistered")
 )
 
-- 
2.43.0


From 6ce474292c5a65c5015669f6d6db0d2d3a42a5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:39 +0000
Subject: [PATCH 31/39] fix: don't wait for a reader of a conn which failed its
 handshake

---
 conn/conn_client.go | 5 +++++
 conn/conn_server.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index 24a2bda..7c194b4 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -152,6 +152,11 @@ func newClientConn(netconn net.Conn, opts ...ClientConnOption) (*ClientConn, err
 	// start
 	err = cc.connect()
 	if err != nil {
+		// nobody is going to read, fini must not wait for that
+		go func() {
+			for range cc.readOutCh {
+			}
+		}()
 		goto ERR
 	}
 	return cc, nil
diff --git a/conn/conn_server.go b/conn/conn_server.go
index 08576a1..dc0ea98 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -130,6 +130,11 @@ func NewServerConn(netconn net.Conn, opts ...ServerConnOption) (*ServerConn, err
 	go sc.handlePkt()
 	err = sc.wait()
 	if err != nil {
+		// nobody is going to read, fini must not wait for that
+		go func() {
+			for range sc.readOutCh {
+			}
+		}()
 		goto ERR
 	}
 	return sc, nil
-- 
2.43.0


From 623087f12d01223da63c34a264f89237dbda9402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 32/39] fix: don't let whoever acks a message wait for the
 writes

---
 application/message.go | 12 +++++++++++-
 application/stream.go  | 20 ++++++++++++++++++++
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/application/message.go b/application/message.go
index 8d046e3..5275ff5 100644
--- a/application/message.go
+++ b/application/message.go
@@ -36,8 +36,18 @@ func (sm *stream) NewMessage(data []byte, opts ...*options.NewMessageOptions) ge
 }
 
 func (sm *stream) ackMessage(pktID uint64, err error) error {
+	if !sm.available() {
+		return io.EOF
+	}
 	pkt := sm.pf.NewMessageAckPacketWithSessionID(sm.dg.DialogueID(), pktID, err)
-	return sm.writeIn(pkt)
+	sm.ackMtx.Lock()
+	sm.acks = append(sm.acks, pkt)
+	sm.ackMtx.Unlock()
+	select {
+	case sm.ackCh <- struct{}{}:
+	default:
+	}
+	return nil
 }
 
 // Publish to peer, a sync function
diff --git a/application/stream.go b/application/stream.go
index c35556c..2ddc1ea 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -87,6 +87,11 @@ type stream struct {
 
 	// io
 	writeInCh chan packet.Packet // for multiple message types
+	// acks to write, whoever acks goes on receiving and so can't wait for the
+	// writes, which may wait for the peer's receiving
+	ackMtx sync.Mutex
+	acks   []packet.Packet
+	ackCh  chan struct{}
 	// closed when the stream is being closed by us
 	closeCh chan struct{}
 	// closed when all written before the close were handed to the dialogue
@@ -117,6 +122,7 @@ func newStream(end *End, cn conn.Conn, dg multiplexer.Dialogue, opts *opts) *str
 		dlReadChList:      list.New(),
 		dlWriteChList:     list.New(),
 		writeInCh:         make(chan packet.Packet, 32),
+		ackCh:             make(chan struct{}, 1),
 		closeCh:           make(chan struct{}),
 		flushedCh:         make(chan struct{}),
 		doneCh:            make(chan struct{}),
@@ -205,9 +211,12 @@ func (sm *stream) handlePkt() {
 		select {
 		case pkt := <-sm.writeInCh:
 			sm.writeDown(pkt)
+		case <-sm.ackCh:
+			sm.writeAcks()
 		case <-closeCh:
 			closeCh = nil
 			// all written before the close go before the close
+			sm.writeAcks()
 			for len(sm.writeInCh) > 0 {
 				sm.writeDown(<-sm.writeInCh)
 			}
@@ -233,6 +242,17 @@ func (sm *stream) writeDown(pkt packet.Packet) {
 	}
 }
 
+// writeAcks writes all acks handed over
+func (sm *stream) writeAcks() {
+	sm.ackMtx.Lock()
+	acks := sm.acks
+	sm.acks = nil
+	sm.ackMtx.Unlock()
+	for _, pkt := range acks {
+		sm.writeDown(pkt)
+	}
+}
+
 func (sm *stream) readPkt() {
 	readInCh := sm.dg.ReadC()
 	for {
-- 
2.43.0


From a7e57e01312012ddc08ec8c35a270c2f4beb60e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:38 +0000
Subject: [PATCH 33/39] fix: read and write the end of a retry end atomically
 everywhere

---
 client/end_retry.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/end_retry.go b/client/end_retry.go
index 2e9ec8b..6922fad 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -604,18 +604,18 @@ func (re *RetryEnd) Addr() net.Addr {
 }
 
 func (re *RetryEnd) LocalAddr() net.Addr {
-	if re.end == nil {
+	cur := (*clientEnd)(atomic.LoadPointer(&re.end))
+	if cur == nil {
 		return nil
 	}
-	cur := (*clientEnd)(atomic.LoadPointer(&re.end))
 	return cur.LocalAddr()
 }
 
 func (re *RetryEnd) RemoteAddr() net.Addr {
-	if re.end == nil {
+	cur := (*clientEnd)(atomic.LoadPointer(&re.end))
+	if cur == nil {
 		return nil
 	}
-	cur := (*clientEnd)(atomic.LoadPointer(&re.end))
 	return cur.RemoteAddr()
 }
 
-- 
2.43.0


From c0e5d5bf434d6ce5502a77281453576b32fd3093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:38 +0000
Subject: [PATCH 34/39] fix: don't read the client ID of a conn while the
 handshake writes it

---
 conn/conn_base.go   | 35 ++++++++++++-------------
 conn/conn_client.go | 41 +++++++++++++++---------------
 conn/conn_server.go | 62 +++++++++++++++++++++++----------------------
 3 files changed, 70 insertions(+), 68 deletions(-)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index fa323db..1575a42 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"net"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/jumboframes/armorigo/log"
@@ -40,7 +41,7 @@ const (
 const closeTimeout = 30 * time.Second
 
 type connOpts struct {
-	clientID uint64
+	clientID atomic.Uint64
 	// timer
 	tmr        timer.Timer
 	tmrOutside bool
@@ -126,11 +127,11 @@ func (bc *baseConn) writePkt() {
 		select {
 		case pkt, ok := <-writeOutCh:
 			if !ok {
-				bc.log.Debugf("conn write done, clientID: %d", bc.clientID)
+				bc.log.Debugf("conn write done, clientID: %d", bc.ClientID())
 				return
 			}
 			bc.log.Tracef("conn write down, clientID: %d, packetID: %d, packetType: %s",
-				bc.clientID, pkt.ID(), pkt.Type().String())
+				bc.ClientID(), pkt.ID(), pkt.Type().String())
 			record := !packet.ConnLayer(pkt)
 			if err != nil {
 				// the net Conn is broken, keep draining until the layer closed
@@ -152,7 +153,7 @@ func (bc *baseConn) dowritePkt(pkt packet.Packet, record bool) error {
 	err := packet.EncodeToWriter(pkt, bc.netconn)
 	if err != nil {
 		bc.log.Errorf("conn write down err: %s, clientID: %d, packetID: %d, packetType: %s",
-			err, bc.clientID, pkt.ID(), pkt.Type().String())
+			err, bc.ClientID(), pkt.ID(), pkt.Type().String())
 		if record && bc.failedCh != nil {
 			// only upper layer packet need to be notified
 			bc.failedCh <- pkt
@@ -168,15 +169,15 @@ func (bc *baseConn) readPkt() {
 		pkt, err := packet.DecodeFromReader(bc.netconn)
 		if err != nil {
 			if iodefine.ErrUseOfClosedNetwork(err) {
-				bc.log.Debugf("conn read down closed, clientID: %d", bc.clientID)
+				bc.log.Debugf("conn read down closed, clientID: %d", bc.ClientID())
 			} else {
 				bc.log.Debugf("conn read down err: %s, clientID: %d",
-					err, bc.clientID)
+					err, bc.ClientID())
 			}
 			goto FINI
 		}
 		bc.log.Tracef("read %s , clientID: %d, packetID: %d, packetType: %s",
-			pkt.Type().String(), bc.clientID, pkt.ID(), pkt.Type().String())
+			pkt.Type().String(), bc.ClientID(), pkt.ID(), pkt.Type().String())
 		select {
 		case readInCh <- pkt:
 		case <-bc.finiCh:
@@ -244,12 +245,12 @@ func (bc *baseConn) nextIO() (pkt packet.Packet, ioType iodefine.IOType, ok bool
 // common in packet
 func (bc *baseConn) handleInDisConnPacket(pkt *packet.DisConnPacket) iodefine.IORet {
 	bc.log.Debugf("recv dis conn succeed, clientID: %d, packetID: %d, remote: %s, meta: %s",
-		bc.clientID, pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta))
+		bc.ClientID(), pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta))
 
 	err := bc.fsm.EmitEvent(ET_CLOSERECV)
 	if err != nil {
 		bc.log.Errorf("emit ET_CLOSERECV err: %s, clientID: %d, packetID: %d, remote: %s, meta: %s, state: %s",
-			err, bc.clientID, pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta), bc.fsm.State())
+			err, bc.ClientID(), pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta), bc.fsm.State())
 		return iodefine.IOErr
 	}
 	retPkt := bc.pf.NewDisConnAckPacket(pkt.PacketID, nil)
@@ -264,12 +265,12 @@ func (bc *baseConn) handleInDisConnPacket(pkt *packet.DisConnPacket) iodefine.IO
 
 func (bc *baseConn) handleInDisConnAckPacket(pkt *packet.DisConnAckPacket) iodefine.IORet {
 	bc.log.Debugf("read dis conn ack packet, clientID: %d, packetID: %d, remote: %s, meta: %s",
-		bc.clientID, pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta))
+		bc.ClientID(), pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta))
 
 	err := bc.fsm.EmitEvent(ET_CLOSEACK)
 	if err != nil {
 		bc.log.Errorf("emit in ET_CLOSEACK err: %s, clientID: %d, packetID: %d, remote: %s, meta: %s, state: %s",
-			err, bc.clientID, pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta), bc.fsm.State())
+			err, bc.ClientID(), pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta), bc.fsm.State())
 		return iodefine.IOErr
 	}
 	if bc.fsm.State() == CLOSE_HALF {
@@ -283,12 +284,12 @@ func (bc *baseConn) handleOutDisConnPacket(pkt *packet.DisConnPacket) iodefine.I
 	err := bc.fsm.EmitEvent(ET_CLOSESENT)
 	if err != nil {
 		bc.log.Errorf("emit out ET_CLOSESENT err: %s, clientID: %d, packetID: %d, remote: %s, meta: %s, state: %s",
-			err, bc.clientID, pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta), bc.fsm.State())
+			err, bc.ClientID(), pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta), bc.fsm.State())
 		return iodefine.IOErr
 	}
 	bc.pushWriteOut(pkt)
 	bc.log.Debugf("send dis conn down succeed, clientID: %d, packetID: %d, remote: %s, meta: %s",
-		bc.clientID, pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta))
+		bc.ClientID(), pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta))
 	return iodefine.IOSuccess
 }
 
@@ -296,7 +297,7 @@ func (bc *baseConn) handleOutDisConnAckPacket(pkt *packet.DisConnAckPacket) iode
 	err := bc.fsm.EmitEvent(ET_CLOSEACK)
 	if err != nil {
 		bc.log.Errorf("emit out ET_CLOSEACK err: %s, clientID: %d, PacketID: %d, remote: %s, meta: %s, state: %s",
-			err, bc.clientID, pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta), bc.fsm.State())
+			err, bc.ClientID(), pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta), bc.fsm.State())
 		return iodefine.IOErr
 	}
 	// make sure this packet is flushed before writeOutCh closed
@@ -305,7 +306,7 @@ func (bc *baseConn) handleOutDisConnAckPacket(pkt *packet.DisConnAckPacket) iode
 		return iodefine.IOErr
 	}
 	bc.log.Debugf("send dis conn ack succeed, clientID: %d, PacketID: %d, packetType: %s",
-		bc.clientID, pkt.ID(), pkt.Type().String())
+		bc.ClientID(), pkt.ID(), pkt.Type().String())
 	if bc.fsm.State() == CLOSE_HALF {
 		return iodefine.IOSuccess
 	}
@@ -315,7 +316,7 @@ func (bc *baseConn) handleOutDisConnAckPacket(pkt *packet.DisConnAckPacket) iode
 func (bc *baseConn) handleOutDataPacket(pkt packet.Packet) iodefine.IORet {
 	bc.pushWriteOut(pkt)
 	bc.log.Tracef("send data succeed, clientID: %d, packetID: %d, remote: %s, meta: %s",
-		bc.clientID, pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta))
+		bc.ClientID(), pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta))
 	return iodefine.IOSuccess
 }
 
@@ -337,7 +338,7 @@ func (bc *baseConn) Meta() []byte {
 }
 
 func (bc *baseConn) ClientID() uint64 {
-	return bc.clientID
+	return bc.clientID.Load()
 }
 
 func (bc *baseConn) Close() {
diff --git a/conn/conn_client.go b/conn/conn_client.go
index 7c194b4..a625b8b 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -67,7 +67,7 @@ func OptionClientConnMeta(meta []byte) ClientConnOption {
 
 func OptionClientConnClientID(clientID uint64) ClientConnOption {
 	return func(cc *ClientConn) error {
-		cc.clientID = clientID
+		cc.clientID.Store(clientID)
 		return nil
 	}
 }
@@ -101,7 +101,6 @@ func newClientConn(netconn net.Conn, opts ...ClientConnOption) (*ClientConn, err
 	cc := &ClientConn{
 		baseConn: &baseConn{
 			connOpts: connOpts{
-				clientID:  packet.ClientIDNull,
 				heartbeat: packet.Heartbeat20,
 				meta:      []byte{},
 			},
@@ -201,7 +200,7 @@ func (cc *ClientConn) initFSM() {
 }
 
 func (cc *ClientConn) connect() error {
-	pkt := cc.pf.NewConnPacket(cc.clientID, true, cc.heartbeat, cc.meta)
+	pkt := cc.pf.NewConnPacket(cc.ClientID(), true, cc.heartbeat, cc.meta)
 	sync := cc.shub.New(pkt.PacketID, synchub.WithTimeout(10*time.Second))
 	cc.writeInCh <- pkt
 	// in case of the conn ack or the end of the conn comes before the sync is inserted
@@ -212,11 +211,11 @@ func (cc *ClientConn) connect() error {
 
 	if event.Error != nil {
 		cc.log.Errorf("connect err: %s, clientID: %d, remote: %s",
-			event.Error, cc.clientID, cc.netconn.RemoteAddr())
+			event.Error, cc.ClientID(), cc.netconn.RemoteAddr())
 		return event.Error
 	}
 	cc.log.Debugf("connect succeed, clientID: %d, remote: %s",
-		cc.clientID, cc.netconn.RemoteAddr())
+		cc.ClientID(), cc.netconn.RemoteAddr())
 	return nil
 }
 
@@ -230,27 +229,27 @@ func (cc *ClientConn) handlePkt() {
 		case iodefine.IN:
 			ret := cc.handleIn(pkt)
 			if ret == iodefine.IOErr {
-				cc.log.Errorf("handle in packet err, clientID: %d", cc.clientID)
+				cc.log.Errorf("handle in packet err, clientID: %d", cc.ClientID())
 				goto FINI
 			}
 			if ret == iodefine.IOClosed {
-				cc.log.Debugf("handle in packet done, clientID: %d", cc.clientID)
+				cc.log.Debugf("handle in packet done, clientID: %d", cc.ClientID())
 				goto FINI
 			}
 		case iodefine.OUT:
 			ret := cc.handleOut(pkt)
 			if ret == iodefine.IOErr {
-				cc.log.Errorf("handle out packet err, clientID: %d", cc.clientID)
+				cc.log.Errorf("handle out packet err, clientID: %d", cc.ClientID())
 				goto FINI
 			}
 			if ret == iodefine.IOClosed {
-				cc.log.Debugf("handle out packet done, clientID: %d", cc.clientID)
+				cc.log.Debugf("handle out packet done, clientID: %d", cc.ClientID())
 				goto FINI
 			}
 		}
 	}
 FINI:
-	cc.log.Debugf("handle pkt done, clientID: %d", cc.clientID)
+	cc.log.Debugf("handle pkt done, clientID: %d", cc.ClientID())
 	if cc.dlgt != nil && cc.onlined {
 		// not that delegate is different from server's delegate
 		cc.dlgt.ConnOffline(cc)
@@ -297,11 +296,11 @@ func (cc *ClientConn) handleInConnAckPacket(pkt *packet.ConnAckPacket) iodefine.
 	err := cc.fsm.EmitEvent(ET_CONNACK)
 	if err != nil {
 		cc.log.Errorf("emit ET_CONNACK err: %s, clientID: %d, PacketID: %d, remote: %s, meta: %s, state: %s",
-			err, cc.clientID, pkt.ID(), cc.netconn.RemoteAddr(), string(cc.meta), cc.fsm.State())
+			err, cc.ClientID(), pkt.ID(), cc.netconn.RemoteAddr(), string(cc.meta), cc.fsm.State())
 		cc.shub.Error(pkt.PacketID, err)
 		return iodefine.IOErr
 	}
-	cc.clientID = pkt.ClientID
+	cc.clientID.Store(pkt.ClientID)
 
 	if pkt.ConnData.Error != "" {
 		cc.shub.Error(pkt.PacketID, errors.New(pkt.ConnData.Error))
@@ -317,12 +316,12 @@ func (cc *ClientConn) handleInConnAckPacket(pkt *packet.ConnAckPacket) iodefine.
 
 func (cc *ClientConn) handleInHeartbeatAckPacket(pkt *packet.HeartbeatAckPacket) iodefine.IORet {
 	cc.log.Debugf("read heartbeat ack succeed, clientID: %d, PacketID: %d, remote: %s, meta: %s",
-		cc.clientID, pkt.ID(), cc.netconn.RemoteAddr(), string(cc.meta))
+		cc.ClientID(), pkt.ID(), cc.netconn.RemoteAddr(), string(cc.meta))
 
 	ok := cc.fsm.InStates(CONNED)
 	if !ok {
 		cc.log.Errorf("heartbeat at non-CONNED state, clientID: %d, PacketID: %d, remote: %s, meta: %s, state: %s",
-			cc.clientID, pkt.ID(), cc.netconn.RemoteAddr(), string(cc.meta), cc.fsm.State())
+			cc.ClientID(), pkt.ID(), cc.netconn.RemoteAddr(), string(cc.meta), cc.fsm.State())
 		return iodefine.IODiscard
 	}
 	return iodefine.IOSuccess
@@ -332,7 +331,7 @@ func (cc *ClientConn) handleInDataPacket(pkt packet.Packet) iodefine.IORet {
 	ok := cc.fsm.InStates(CONNED)
 	if !ok {
 		cc.log.Debugf("data at non CONNED, clientID: %d, packetID: %d, remote: %s, meta: %s",
-			cc.clientID, pkt.ID(), cc.netconn.RemoteAddr(), string(cc.meta))
+			cc.ClientID(), pkt.ID(), cc.netconn.RemoteAddr(), string(cc.meta))
 		return iodefine.IODiscard
 	}
 	cc.pushReadOut(pkt)
@@ -345,21 +344,21 @@ func (cc *ClientConn) handleOutConnPacket(pkt *packet.ConnPacket) iodefine.IORet
 	if err != nil {
 
 		cc.log.Errorf("emit ET_CONNSENT err: %s, clientID: %d, PacketID: %d, remote: %s, meta: %s, state: %s",
-			err, cc.clientID, pkt.ID(), cc.netconn.RemoteAddr(), string(cc.meta), cc.fsm.State())
+			err, cc.ClientID(), pkt.ID(), cc.netconn.RemoteAddr(), string(cc.meta), cc.fsm.State())
 
 		cc.shub.Error(pkt.ID(), err)
 		return iodefine.IOErr
 	}
 	cc.pushWriteOut(pkt)
 	cc.log.Debugf("send conn succeed, clientID: %d, PacketID: %d, packetType: %s",
-		cc.clientID, pkt.ID(), pkt.Type().String())
+		cc.ClientID(), pkt.ID(), pkt.Type().String())
 	return iodefine.IOSuccess
 }
 
 func (cc *ClientConn) handleOutHeartbeatPacket(pkt *packet.HeartbeatPacket) iodefine.IORet {
 	cc.pushWriteOut(pkt)
 	cc.log.Debugf("send heartbeat succeed, clientID: %d, PacketID: %d, packetType: %s",
-		cc.clientID, pkt.ID(), pkt.Type().String())
+		cc.ClientID(), pkt.ID(), pkt.Type().String())
 	return iodefine.IOSuccess
 }
 
@@ -384,7 +383,7 @@ func (cc *ClientConn) Close() {
 		cc.hbTick.Cancel()
 
 		cc.log.Debugf("client is closing, clientID: %d, remote: %s, meta: %s",
-			cc.clientID, cc.netconn.RemoteAddr(), string(cc.meta))
+			cc.ClientID(), cc.netconn.RemoteAddr(), string(cc.meta))
 
 		// a peer which is gone never answers
 		cc.closeTimer = time.AfterFunc(closeTimeout, func() { cc.netconn.Close() })
@@ -399,7 +398,7 @@ func (cc *ClientConn) fini() {
 		remote = cc.netconn.RemoteAddr().String()
 	}
 	cc.log.Debugf("client finishing, clientID: %d, remote: %s, meta: %s",
-		cc.clientID, remote, string(cc.meta))
+		cc.ClientID(), remote, string(cc.meta))
 	cc.hbTick.Cancel()
 	// collect shub
 	cc.shub.Close()
@@ -444,5 +443,5 @@ func (cc *ClientConn) fini() {
 	cc.fsm = nil
 
 	cc.log.Debugf("client finished, clientID: %d, remote: %s, meta: %s",
-		cc.clientID, remote, string(cc.meta))
+		cc.ClientID(), remote, string(cc.meta))
 }
diff --git a/conn/conn_server.go b/conn/conn_server.go
index dc0ea98..e3814c7 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -75,7 +75,7 @@ func OptionServerConnBufferSize(read, write int) ServerConnOption {
 
 func OptionServerConnClientID(clientID uint64) ServerConnOption {
 	return func(sc *ServerConn) {
-		sc.clientID = clientID
+		sc.clientID.Store(clientID)
 	}
 }
 
@@ -151,7 +151,7 @@ func (sc *ServerConn) wait() error {
 	event := <-sync.C()
 	if event.Error != nil {
 		sc.log.Infof("wait conn err: %s, clientID: %d, remote: %s, meta: %s",
-			event.Error, sc.clientID, sc.netconn.RemoteAddr(), string(sc.meta))
+			event.Error, sc.ClientID(), sc.netconn.RemoteAddr(), string(sc.meta))
 		return event.Error
 	}
 	return nil
@@ -218,30 +218,30 @@ func (sc *ServerConn) handlePkt() {
 		switch ioType {
 		case iodefine.IN:
 			sc.log.Tracef("conn read in packet, clientID: %d, packetID: %d, packetType: %s",
-				sc.clientID, pkt.ID(), pkt.Type().String())
+				sc.ClientID(), pkt.ID(), pkt.Type().String())
 			ret := sc.handleIn(pkt)
 			if ret == iodefine.IOErr {
-				sc.log.Errorf("conn handle in packet err, clientID: %d", sc.clientID)
+				sc.log.Errorf("conn handle in packet err, clientID: %d", sc.ClientID())
 				goto FINI
 			}
 			if ret == iodefine.IOClosed {
-				sc.log.Debugf("conn handle in packet done, clientID: %d", sc.clientID)
+				sc.log.Debugf("conn handle in packet done, clientID: %d", sc.ClientID())
 				goto FINI
 			}
 		case iodefine.OUT:
 			ret := sc.handleOut(pkt)
 			if ret == iodefine.IOErr {
-				sc.log.Errorf("conn handle out packet err, clientID: %d", sc.clientID)
+				sc.log.Errorf("conn handle out packet err, clientID: %d", sc.ClientID())
 				goto FINI
 			}
 			if ret == iodefine.IOClosed {
-				sc.log.Debugf("conn handle out packet done, clientID: %d", sc.clientID)
+				sc.log.Debugf("conn handle out packet done, clientID: %d", sc.ClientID())
 				goto FINI
 			}
 		}
 	}
 FINI:
-	sc.log.Debugf("handle pkt done, clientID: %d", sc.clientID)
+	sc.log.Debugf("handle pkt done, clientID: %d", sc.ClientID())
 	// only onlined Conn need to be notified
 	if sc.dlgt != nil && sc.onlined {
 		// not that delegate is different from client's delegate
@@ -282,50 +282,52 @@ func (sc *ServerConn) handleOut(pkt packet.Packet) iodefine.IORet {
 // input packet
 func (sc *ServerConn) handleInConnPacket(pkt *packet.ConnPacket) iodefine.IORet {
 	sc.log.Debugf("read conn packet succeed, clientID: %d, packetID: %d, remote: %s, meta: %s",
-		sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(pkt.ConnData.Meta))
+		sc.ClientID(), pkt.ID(), sc.netconn.RemoteAddr(), string(pkt.ConnData.Meta))
 
 	err := sc.fsm.EmitEvent(ET_CONNRECV)
 	if err != nil {
 		sc.log.Errorf("emit ET_CONNRECV err: %s, clientID: %d, packetID: %d, state: %s",
-			err, sc.clientID, pkt.ID(), sc.fsm.State())
+			err, sc.ClientID(), pkt.ID(), sc.fsm.State())
 		sc.shub.Error(sc.getSyncID(), err)
 		return iodefine.IOErr
 	}
 
 	sc.meta = pkt.ConnData.Meta
 	if pkt.ClientIDAcquire() {
+		clientID := sc.ClientID()
 		if sc.dlgt != nil {
-			sc.clientID, err = sc.dlgt.GetClientID(pkt.ClientID, sc.meta)
+			clientID, err = sc.dlgt.GetClientID(pkt.ClientID, sc.meta)
 		}
-		if sc.clientID == 0 && err == nil {
+		if clientID == 0 && err == nil {
 			// if delegate returns 0 meaning use a ID by inner
-			sc.clientID, err = sc.clientIDs.GetIDByMeta(sc.meta)
+			clientID, err = sc.clientIDs.GetIDByMeta(sc.meta)
 		}
+		sc.clientID.Store(clientID)
 		if err != nil {
 			sc.log.Warnf("get ID err: %s, clientID: %d, packetID: %d, remote: %s, meta: %s",
-				err, sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta))
-			retPkt := sc.pf.NewConnAckPacket(pkt.PacketID, sc.clientID, err)
+				err, sc.ClientID(), pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta))
+			retPkt := sc.pf.NewConnAckPacket(pkt.PacketID, sc.ClientID(), err)
 			sc.writeInCh <- retPkt
 			return iodefine.IOSuccess
 		}
 	} else {
 		// TODO server must use this clientID, we should check if the clientID legal
-		sc.clientID = pkt.ClientID
+		sc.clientID.Store(pkt.ClientID)
 	}
 
 	if sc.dlgt != nil {
 		err = sc.dlgt.ConnOnline(sc)
 		if err != nil {
 			sc.log.Errorf("online err: %s, clientID: %d, packetID: %d, remote: %s, meta: %s",
-				err, sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta))
+				err, sc.ClientID(), pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta))
 
-			retPkt := sc.pf.NewConnAckPacket(pkt.PacketID, sc.clientID, err)
+			retPkt := sc.pf.NewConnAckPacket(pkt.PacketID, sc.ClientID(), err)
 			sc.writeInCh <- retPkt
 			return iodefine.IOSuccess
 		}
 	}
 	sc.onlined = true
-	retPkt := sc.pf.NewConnAckPacket(pkt.PacketID, sc.clientID, nil)
+	retPkt := sc.pf.NewConnAckPacket(pkt.PacketID, sc.ClientID(), nil)
 	sc.writeInCh <- retPkt
 	// the first packet received, the ack must be the first one out.
 	sc.shub.Ack(sc.getSyncID(), nil)
@@ -340,7 +342,7 @@ func (sc *ServerConn) handleInHeartbeatPacket(pkt *packet.HeartbeatPacket) iodef
 	ok := sc.fsm.InStates(CONNED)
 	if !ok {
 		sc.log.Errorf("heartbeat at non-CONNED state, clientID: %d, packetID: %d, remote: %s, meta: %s, state: %s",
-			sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta), sc.fsm.State())
+			sc.ClientID(), pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta), sc.fsm.State())
 		return iodefine.IODiscard
 	}
 	// reset hearbeat
@@ -353,7 +355,7 @@ func (sc *ServerConn) handleInHeartbeatPacket(pkt *packet.HeartbeatPacket) iodef
 		sc.dlgt.Heartbeat(sc)
 	}
 	sc.log.Debugf("send heartbeat ack succeed, clientID: %d, PacketID: %d, packetType: %s",
-		sc.clientID, pkt.ID(), pkt.Type().String())
+		sc.ClientID(), pkt.ID(), pkt.Type().String())
 	return iodefine.IOSuccess
 }
 
@@ -361,7 +363,7 @@ func (sc *ServerConn) handleInDataPacket(pkt packet.Packet) iodefine.IORet {
 	ok := sc.fsm.InStates(CONNED)
 	if !ok {
 		sc.log.Debugf("data at non CONNED, clientID: %d, packetID: %d, remote: %s, meta: %s",
-			sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta))
+			sc.ClientID(), pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta))
 		if sc.failedCh != nil {
 			sc.failedCh <- pkt
 		}
@@ -377,7 +379,7 @@ func (sc *ServerConn) handleOutConnAckPacket(pkt *packet.ConnAckPacket) iodefine
 		err := sc.fsm.EmitEvent(ET_ERROR)
 		if err != nil {
 			sc.log.Errorf("emit ET_ERROR err: %s, clientID: %d, packetID: %d, remote: %s, meta: %s",
-				pkt.ConnData.Error, sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta))
+				pkt.ConnData.Error, sc.ClientID(), pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta))
 			return iodefine.IOErr
 		}
 		sc.pushWriteOut(pkt)
@@ -387,12 +389,12 @@ func (sc *ServerConn) handleOutConnAckPacket(pkt *packet.ConnAckPacket) iodefine
 	err := sc.fsm.EmitEvent(ET_CONNACK)
 	if err != nil {
 		sc.log.Errorf("emit ET_CONNACK err: %s, clientID: %d, packetID: %d, remote: %s, meta: %s, state: %s",
-			err, sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta), sc.fsm.State())
+			err, sc.ClientID(), pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta), sc.fsm.State())
 		return iodefine.IOErr
 	}
 	sc.pushWriteOut(pkt)
 	sc.log.Debugf("send conn ack succeed, clientID: %d, packetID: %d, remote: %s, meta: %s",
-		sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta))
+		sc.ClientID(), pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta))
 	return iodefine.IOSuccess
 }
 
@@ -405,7 +407,7 @@ func (sc *ServerConn) Close() {
 		}
 
 		sc.log.Debugf("client is closing, clientID: %d, remote: %s, meta: %s",
-			sc.clientID, sc.netconn.RemoteAddr(), string(sc.meta))
+			sc.ClientID(), sc.netconn.RemoteAddr(), string(sc.meta))
 
 		// a peer which is gone never answers
 		sc.closeTimer = time.AfterFunc(closeTimeout, func() { sc.netconn.Close() })
@@ -421,7 +423,7 @@ func (sc *ServerConn) closeWrapper(_ *yafsm.Event) {
 // finish and reclaim resources
 func (sc *ServerConn) fini() {
 	sc.log.Debugf("client finishing, clientID: %d, remote: %s, meta: %s",
-		sc.clientID, sc.netconn.RemoteAddr(), string(sc.meta))
+		sc.ClientID(), sc.netconn.RemoteAddr(), string(sc.meta))
 
 	// if we are in conn stage,
 	sc.shub.Error(sc.getSyncID(), errors.New("connection closed"))
@@ -479,16 +481,16 @@ func (sc *ServerConn) fini() {
 	sc.clientIDs = nil
 
 	sc.log.Debugf("client finished, clientID: %d, remote: %s, meta: %s",
-		sc.clientID, sc.netconn.RemoteAddr(), string(sc.meta))
+		sc.ClientID(), sc.netconn.RemoteAddr(), string(sc.meta))
 }
 
 func (sc *ServerConn) waitHBTimeout(event *timer.Event) {
 	if event.Error == timer.ErrTimerForceClosed {
 		sc.log.Debugf("wait HEARTBEAT err: %s, clientID: %d, remote: %s, meta: %s",
-			event.Error, sc.clientID, sc.netconn.RemoteAddr(), string(sc.meta))
+			event.Error, sc.ClientID(), sc.netconn.RemoteAddr(), string(sc.meta))
 	} else {
 		sc.log.Errorf("wait HEARTBEAT err: %s, clientID: %d, remote: %s, meta: %s",
-			event.Error, sc.clientID, sc.netconn.RemoteAddr(), string(sc.meta))
+			event.Error, sc.ClientID(), sc.netconn.RemoteAddr(), string(sc.meta))
 	}
 	// changed from sc.netconn.Close() to sc.Close()
 	sc.Close()
-- 
2.43.0


From 30e4ff8fcc8d18294b8459988d029f7a15c176b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:38 +0000
Subject: [PATCH 35/39] fix: don't let a new dialogue write the options of all
 others

---
 multiplexer/dialogue.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 516d4ab..884af24 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -141,8 +141,10 @@ func OptionDialogueBufferSize(read, write int) DialogueOption {
 }
 
 func NewDialogue(cn conn.Conn, baseOpts *opts, opts ...DialogueOption) (*dialogue, error) {
+	// the base is shared with all other dialogues, the options are ours
+	dgOpts := *baseOpts
 	dg := &dialogue{
-		opts:         baseOpts,
+		opts:         &dgOpts,
 		meta:         cn.Meta(),
 		dialogueID:   packet.SessionIDNull,
 		cn:           cn,
-- 
2.43.0


From f0f87a396208686696f0b484375c924089e3f2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:38 +0000
Subject: [PATCH 36/39] fix: don't read the ID of a dialogue while its
 negotiation writes it

---
 multiplexer/dialogue.go     | 79 +++++++++++++++++--------------------
 multiplexer/dialogue_hub.go |  4 +-
 multiplexer/dialogue_mgr.go |  8 ++--
 3 files changed, 42 insertions(+), 49 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 884af24..0ed0148 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"io"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/jumboframes/armorigo/log"
@@ -57,7 +58,7 @@ type dialogue struct {
 	negotiatingID       uint64
 	peerNegotiatingID   uint64
 	dialogueIDPeersCall bool
-	dialogueID          uint64
+	dialogueID          atomic.Uint64
 	// synchub
 	shub *synchub.SyncHub
 
@@ -146,7 +147,6 @@ func NewDialogue(cn conn.Conn, baseOpts *opts, opts ...DialogueOption) (*dialogu
 	dg := &dialogue{
 		opts:         &dgOpts,
 		meta:         cn.Meta(),
-		dialogueID:   packet.SessionIDNull,
 		cn:           cn,
 		fsm:          yafsm.NewFSM(yafsm.WithInSeq()),
 		closeOnce:    new(gsync.Once),
@@ -199,7 +199,7 @@ func (dg *dialogue) NegotiatingID() uint64 {
 }
 
 func (dg *dialogue) DialogueID() uint64 {
-	return dg.dialogueID
+	return dg.dialogueID.Load()
 }
 
 // TODO
@@ -218,7 +218,7 @@ func (dg *dialogue) Write(pkt packet.Packet) error {
 	if !dg.dialogueOK {
 		return io.EOF
 	}
-	pkt.(packet.SessionAbove).SetSessionID(dg.dialogueID)
+	pkt.(packet.SessionAbove).SetSessionID(dg.DialogueID())
 	return dg.writeIn(pkt)
 }
 
@@ -243,7 +243,7 @@ func (dg *dialogue) readIn(pkt packet.Packet) {
 	case dg.readInCh <- pkt:
 	case <-dg.doneCh:
 		dg.log.Debugf("packet to finished dialogue, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
-			dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
+			dg.cn.ClientID(), dg.DialogueID(), pkt.ID(), pkt.Type().String())
 	}
 }
 
@@ -254,7 +254,7 @@ func (dg *dialogue) WriteWait(pkt packet.Packet) error {
 	if !dg.dialogueOK {
 		return io.EOF
 	}
-	pkt.(packet.SessionAbove).SetSessionID(dg.dialogueID)
+	pkt.(packet.SessionAbove).SetSessionID(dg.DialogueID())
 	return dg.writeIn(pkt)
 }
 
@@ -325,7 +325,7 @@ func (dg *dialogue) initFSM() {
 
 func (dg *dialogue) open() error {
 	dg.log.Debugf("dialogue is opening, clientID: %d, dialogueID: %d",
-		dg.cn.ClientID(), dg.dialogueID)
+		dg.cn.ClientID(), dg.DialogueID())
 
 	var pkt *packet.SessionPacket
 	pkt = dg.pf.NewSessionPacket(dg.negotiatingID, dg.dialogueIDPeersCall, dg.meta, dg.peer)
@@ -343,7 +343,7 @@ func (dg *dialogue) open() error {
 	event := <-sync.C()
 	if event.Error != nil {
 		dg.log.Debugf("dialogue open err: %s, clientID: %d, dialogueID: %d",
-			event.Error, dg.cn.ClientID(), dg.dialogueID)
+			event.Error, dg.cn.ClientID(), dg.DialogueID())
 		dg.closeIO()
 	}
 	return event.Error
@@ -359,11 +359,11 @@ func (dg *dialogue) writePkt() {
 		case pkt, ok := <-writeOutCh:
 			if !ok {
 				dg.log.Debugf("dialogue write done, clientID: %d, dialogueID: %d",
-					dg.cn.ClientID(), dg.dialogueID)
+					dg.cn.ClientID(), dg.DialogueID())
 				return
 			}
 			dg.log.Tracef("dialogue write down, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
-				dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
+				dg.cn.ClientID(), dg.DialogueID(), pkt.ID(), pkt.Type().String())
 			if err != nil {
 				// the conn is gone, keep draining until the dialogue finished
 				if dg.failedCh != nil {
@@ -375,7 +375,7 @@ func (dg *dialogue) writePkt() {
 			if err != nil {
 				dg.closeIO()
 				dg.log.Errorf("dialogue write down err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
-					err, dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
+					err, dg.cn.ClientID(), dg.DialogueID(), pkt.ID(), pkt.Type().String())
 			}
 		}
 	}
@@ -385,7 +385,7 @@ func (dg *dialogue) dowritePkt(pkt packet.Packet, record bool) error {
 	err := dg.cn.Write(pkt)
 	if err != nil {
 		dg.log.Errorf("dialogue write down err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
-			err, dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
+			err, dg.cn.ClientID(), dg.DialogueID(), pkt.ID(), pkt.Type().String())
 		if record && dg.failedCh != nil {
 			// only upper layer packet need to be notified
 			dg.failedCh <- pkt
@@ -460,7 +460,7 @@ func (dg *dialogue) handlePkt() {
 		switch ioType {
 		case iodefine.IN:
 			dg.log.Tracef("dialogue read in packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
-				dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
+				dg.cn.ClientID(), dg.DialogueID(), pkt.ID(), pkt.Type().String())
 			ret := dg.handleIn(pkt)
 			switch ret {
 			case iodefine.IONewActive, iodefine.IOSuccess:
@@ -472,7 +472,7 @@ func (dg *dialogue) handlePkt() {
 			}
 		case iodefine.OUT:
 			dg.log.Tracef("dialogue write in packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
-				dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
+				dg.cn.ClientID(), dg.DialogueID(), pkt.ID(), pkt.Type().String())
 			ret := dg.handleOut(pkt)
 			switch ret {
 			case iodefine.IONewPassive, iodefine.IOSuccess:
@@ -486,7 +486,7 @@ func (dg *dialogue) handlePkt() {
 	}
 FINI:
 	dg.log.Debugf("dialogue handle pkt done, clientID: %d, dialogueID: %d",
-		dg.cn.ClientID(), dg.dialogueID)
+		dg.cn.ClientID(), dg.DialogueID())
 
 	// nobody should wait for the dialogue any more
 	dg.closeIO()
@@ -546,7 +546,7 @@ func (dg *dialogue) handleInSessionPacket(pkt *packet.SessionPacket) iodefine.IO
 	if pkt.SessionIDAcquire() {
 		dialogueID = dg.negotiatingID
 	}
-	dg.setDialogueID(dialogueID)
+	dg.dialogueID.Store(dialogueID)
 	dg.meta = pkt.SessionData.Meta
 
 	retPkt := dg.pf.NewSessionAckPacket(pkt.PacketID, pkt.NegotiateID(), dialogueID, nil)
@@ -560,7 +560,7 @@ func (dg *dialogue) handleInSessionAckPacket(pkt *packet.SessionAckPacket) iodef
 	err := dg.fsm.EmitEvent(ET_SESSIONACK)
 	if err != nil {
 		dg.log.Debugf("emit ET_SESSIONACK err: %s, clientID: %d, dialogueID: %d, packetID: %d",
-			err, dg.cn.ClientID(), dg.dialogueID, pkt.ID())
+			err, dg.cn.ClientID(), dg.DialogueID(), pkt.ID())
 		dg.shub.Error(pkt.ID(), err)
 		return iodefine.IOErr
 	}
@@ -575,7 +575,7 @@ func (dg *dialogue) handleInSessionAckPacket(pkt *packet.SessionAckPacket) iodef
 	ok := dg.shub.Done(pkt.ID())
 	if !ok {
 		dg.log.Infof("read dialogue ack packet and no waiting sync, clientID: %d, dialogueID: %d, packetID: %d",
-			dg.cn.ClientID(), dg.dialogueID, pkt.ID())
+			dg.cn.ClientID(), dg.DialogueID(), pkt.ID())
 	}
 	dg.onlined = true
 	return iodefine.IONewActive
@@ -583,11 +583,11 @@ func (dg *dialogue) handleInSessionAckPacket(pkt *packet.SessionAckPacket) iodef
 
 func (dg *dialogue) handleInDismissPacket(pkt *packet.DismissPacket) iodefine.IORet {
 	dg.log.Debugf("read dismiss packet, clientID: %d, dialogueID: %d, packetID: %d",
-		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
+		dg.cn.ClientID(), dg.DialogueID(), pkt.ID())
 	err := dg.fsm.EmitEvent(ET_DISMISSRECV)
 	if err != nil {
 		dg.log.Debugf("emit ET_DISMISSRECV err: %s, clientID: %d, dialogueID: %d, packetID: %d",
-			err, dg.cn.ClientID(), dg.dialogueID, pkt.ID())
+			err, dg.cn.ClientID(), dg.DialogueID(), pkt.ID())
 		return iodefine.IOErr
 	}
 	retPkt := dg.pf.NewDismissAckPacket(pkt.ID(),
@@ -603,11 +603,11 @@ func (dg *dialogue) handleInDismissPacket(pkt *packet.DismissPacket) iodefine.IO
 
 func (dg *dialogue) handleInDimssAckPacket(pkt *packet.DismissAckPacket) iodefine.IORet {
 	dg.log.Debugf("read dismiss ack packet, clientID: %d, dialogueID: %d, packetID: %d",
-		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
+		dg.cn.ClientID(), dg.DialogueID(), pkt.ID())
 	err := dg.fsm.EmitEvent(ET_DISMISSACK)
 	if err != nil {
 		dg.log.Debugf("emit ET_DISMISSACK err: %s, clientID: %d, dialogueID: %d, packetID: %d",
-			err, dg.cn.ClientID(), dg.dialogueID, pkt.ID())
+			err, dg.cn.ClientID(), dg.DialogueID(), pkt.ID())
 		return iodefine.IOErr
 	}
 	if dg.fsm.State() == DISMISS_HALF {
@@ -626,7 +626,7 @@ func (dg *dialogue) handleInDataPacket(pkt packet.Packet) iodefine.IORet {
 	ok := dg.fsm.InStates(SESSIONED, DISMISS_HALF, DISMISS_SENT, DISMISS_RECV)
 	if !ok {
 		dg.log.Debugf("data at non normal status, clientID: %d, dialogueID: %d, packetID: %d, status: %s",
-			dg.cn.ClientID(), dg.dialogueID, pkt.ID(), dg.fsm.State())
+			dg.cn.ClientID(), dg.DialogueID(), pkt.ID(), dg.fsm.State())
 		if dg.failedCh != nil {
 			dg.failedCh <- pkt
 		}
@@ -673,12 +673,12 @@ func (dg *dialogue) handleOutSessionAckPacket(pkt *packet.SessionAckPacket) iode
 	err = dg.fsm.EmitEvent(ET_SESSIONACK)
 	if err != nil {
 		dg.log.Debugf("emit ET_SESSIONACK err: %s, clientID: %d, dialogueID: %d, packetID: %d",
-			err, dg.cn.ClientID(), dg.dialogueID, pkt.ID())
+			err, dg.cn.ClientID(), dg.DialogueID(), pkt.ID())
 		return iodefine.IOErr
 	}
 	dg.pushWriteOut(pkt)
 	dg.log.Debugf("dialogue write session ack down succeed, clientID: %d, dialogueID: %d, packetID: %d",
-		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
+		dg.cn.ClientID(), dg.DialogueID(), pkt.ID())
 
 	dg.onlined = true
 	return iodefine.IONewPassive
@@ -688,12 +688,12 @@ func (dg *dialogue) handleOutDismissPacket(pkt *packet.DismissPacket) iodefine.I
 	err := dg.fsm.EmitEvent(ET_DISMISSSENT)
 	if err != nil {
 		dg.log.Errorf("emit ET_SESSIONSENT err: %s, clientID: %d, dialogueID: %d, packetID: %d",
-			err, dg.cn.ClientID(), dg.dialogueID, pkt.ID())
+			err, dg.cn.ClientID(), dg.DialogueID(), pkt.ID())
 		return iodefine.IOErr
 	}
 	dg.pushWriteOut(pkt)
 	dg.log.Debugf("dialogue write dismiss down succeed, clientID: %d, dialogueID: %d, packetID: %d",
-		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
+		dg.cn.ClientID(), dg.DialogueID(), pkt.ID())
 	return iodefine.IOSuccess
 }
 
@@ -701,7 +701,7 @@ func (dg *dialogue) handleOutDismissAckPacket(pkt *packet.DismissAckPacket) iode
 	err := dg.fsm.EmitEvent(ET_DISMISSACK)
 	if err != nil {
 		dg.log.Errorf("emit ET_DISMISSACK err: %s, clientID: %d, dialogueID: %d, packetID: %d, state: %s",
-			err, dg.cn.ClientID(), dg.dialogueID, pkt.ID(), dg.fsm.State())
+			err, dg.cn.ClientID(), dg.DialogueID(), pkt.ID(), dg.fsm.State())
 		return iodefine.IOErr
 	}
 	// make sure this packet is flushed before writeOutCh closed
@@ -710,7 +710,7 @@ func (dg *dialogue) handleOutDismissAckPacket(pkt *packet.DismissAckPacket) iode
 	// at last fini and the close(dg.writeOutCh) make sure the flush
 	dg.pushWriteOut(pkt)
 	dg.log.Debugf("dialogue write dismiss ack down succeed, clientID: %d, dialogueID: %d, packetID: %d",
-		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
+		dg.cn.ClientID(), dg.DialogueID(), pkt.ID())
 	if dg.fsm.State() == DISMISS_HALF {
 		return iodefine.IOSuccess
 	}
@@ -724,7 +724,7 @@ func (dg *dialogue) handleOutDismissAckPacket(pkt *packet.DismissAckPacket) iode
 func (dg *dialogue) handleOutDataPacket(pkt packet.Packet) iodefine.IORet {
 	dg.pushWriteOut(pkt)
 	dg.log.Tracef("dialogue write data down succeed, clientID: %d, dialogueID: %d, packetID: %d",
-		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
+		dg.cn.ClientID(), dg.DialogueID(), pkt.ID())
 	return iodefine.IOSuccess
 }
 
@@ -735,18 +735,18 @@ func (dg *dialogue) Close() {
 		if !dg.dialogueOK {
 			return
 		}
-		pkt := dg.pf.NewDismissPacket(dg.dialogueID)
+		pkt := dg.pf.NewDismissPacket(dg.DialogueID())
 		// we need a tick in case of never receiving the dismiss ack packet
 		dg.closewait = dg.shub.New(pkt.PacketID, synchub.WithTimeout(30*time.Second))
 		dg.log.Debugf("dialogue async close, clientID: %d, dialogueID: %d",
-			dg.cn.ClientID(), dg.dialogueID)
+			dg.cn.ClientID(), dg.DialogueID())
 
 		go func() {
 			// we don't use shub WithCallback because the force close may arrive firse
 			event := <-dg.closewait.C()
 			if event.Error != nil {
 				dg.log.Debugf("dialogue close wait err: %s, clientID: %d, peerDialogueID: %d, dialogueID: %d",
-					event.Error, dg.cn.ClientID(), dg.peerNegotiatingID, dg.dialogueID)
+					event.Error, dg.cn.ClientID(), dg.peerNegotiatingID, dg.DialogueID())
 				if event.Error == synchub.ErrSyncTimeout {
 					// timeout and exit the dialogue
 					dg.closeIO()
@@ -765,13 +765,6 @@ func (dg *dialogue) CloseWait() {
 	<-dg.doneCh
 }
 
-// setDialogueID sets the negotiated dialogueID, a close may be on its way
-func (dg *dialogue) setDialogueID(dialogueID uint64) {
-	dg.mtx.Lock()
-	dg.dialogueID = dialogueID
-	dg.mtx.Unlock()
-}
-
 func (dg *dialogue) closeIO() {
 	dg.closeIOOnce.Do(func() {
 		close(dg.doneCh)
@@ -780,14 +773,14 @@ func (dg *dialogue) closeIO() {
 
 func (dg *dialogue) closeWrapper(_ *yafsm.Event) {
 	dg.log.Infof("dialogue triggered close wrapper, clientID: %d, dialogueID: %d",
-		dg.cn.ClientID(), dg.dialogueID)
+		dg.cn.ClientID(), dg.DialogueID())
 	dg.Close()
 }
 
 // finish and reclaim resources
 func (dg *dialogue) fini() {
 	dg.log.Debugf("dialogue finishing, clientID: %d, dialogueID: %d",
-		dg.cn.ClientID(), dg.dialogueID)
+		dg.cn.ClientID(), dg.DialogueID())
 
 	dg.mtx.Lock()
 	// TODO should we move dialogueOK=false to Close and CloseWait?
@@ -818,6 +811,6 @@ func (dg *dialogue) fini() {
 	dg.fsm = nil
 
 	dg.log.Debugf("dialogue finished, clientID: %d, dialogueID: %d",
-		dg.cn.ClientID(), dg.dialogueID)
+		dg.cn.ClientID(), dg.DialogueID())
 
 }
diff --git a/multiplexer/dialogue_hub.go b/multiplexer/dialogue_hub.go
index e49ad5a..9c41368 100644
--- a/multiplexer/dialogue_hub.go
+++ b/multiplexer/dialogue_hub.go
@@ -166,7 +166,7 @@ func (dh *dialogueHub) OpenDialogue(clientID uint64, meta []byte) (Dialogue, err
 		return nil, ErrOperationOnClosedMultiplexer
 	}
 
-	key = dialogueKey(clientID, dg.dialogueID)
+	key = dialogueKey(clientID, dg.DialogueID())
 	dh.dialogues[key] = dg
 	return dg, nil
 }
@@ -255,7 +255,7 @@ func (dh *dialogueHub) handlePkt(pkt packet.Packet) {
 				clientID, realPkt.NegotiateID())
 			return
 		}
-		dg.setDialogueID(realPkt.SessionID())
+		dg.dialogueID.Store(realPkt.SessionID())
 		dg.readInCh <- pkt
 
 	default:
diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index ae1f703..44d5646 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -181,7 +181,7 @@ func NewDialogueMgr(cn conn.Conn, mpopts ...MultiplexerOption) (Multiplexer, err
 			err, cn.ClientID(), packet.SessionID1)
 		goto ERR
 	}
-	dg.dialogueID = packet.SessionID1
+	dg.dialogueID.Store(packet.SessionID1)
 	dm.defaultDialogue = dg
 	dm.dialogues[packet.SessionID1] = dg
 	// rolling up
@@ -307,8 +307,8 @@ func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error)
 		dm.log.Errorf("dialogue open err: %s, clientID: %d, negotiatingID: %d", err, dm.cn.ClientID(), dg.negotiatingID)
 		dm.mtx.Lock()
 		delete(dm.negotiatingDialogues, negotiatingID)
-		if dm.dialogues[dg.dialogueID] == dg {
-			delete(dm.dialogues, dg.dialogueID)
+		if dm.dialogues[dg.DialogueID()] == dg {
+			delete(dm.dialogues, dg.DialogueID())
 		}
 		dm.mtx.Unlock()
 		return nil, err
@@ -443,7 +443,7 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 		if realPkt.SessionData.Error == "" {
 			// the peer's data or dismiss may come right behind, so the dialogue
 			// must be found by its dialogueID from now on.
-			dg.setDialogueID(realPkt.SessionID())
+			dg.dialogueID.Store(realPkt.SessionID())
 			delete(dm.negotiatingDialogues, realPkt.NegotiateID())
 			dm.dialogues[realPkt.SessionID()] = dg
 		}
-- 
2.43.0


From 2137ce32effd6dcd1898446c296aa193ec60b2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:07 +0000
Subject: [PATCH 37/39] fix: keep the remote RPC check across several options

An EndOptions without the check following one with it turned the check
off again, while all other options are only overridden by ones that set
them.
---
 client/end_options.go | 4 +++-
 server/end_options.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/client/end_options.go b/client/end_options.go
index 0653972..a34b4c0 100644
--- a/client/end_options.go
+++ b/client/end_options.go
@@ -88,7 +88,9 @@ func MergeEndOptions(opts ...*EndOptions) *EndOptions {
 		if opt == nil {
 			continue
 		}
-		eo.RemoteMethodCheck = opt.RemoteMethodCheck
+		if opt.RemoteMethodCheck {
+			eo.RemoteMethodCheck = true
+		}
 		if opt.Timer != nil {
 			eo.Timer = opt.Timer
 			eo.TimerOwner = opt.TimerOwner
diff --git a/server/end_options.go b/server/end_options.go
index 6b6be1a..11fcd04 100644
--- a/server/end_options.go
+++ b/server/end_options.go
@@ -87,7 +87,9 @@ func MergeEndOptions(opts ...*EndOptions) *EndOptions {
 		if opt == nil {
 			continue
 		}
-		eo.RemoteMethodCheck = opt.RemoteMethodCheck
+		if opt.RemoteMethodCheck {
+			eo.RemoteMethodCheck = true
+		}
 		if opt.Timer != nil {
 			eo.Timer = opt.Timer
 			eo.TimerOwner = opt.TimerOwner
-- 
2.43.0


From ccd1349430b86612528f9fd8e87813c7a87c3a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:17 +0000
Subject: [PATCH 38/39] fix: keep a deadline no packet can carry from breaking
 the connection

---
 application/message.go |  4 ++--
 application/rpc.go     |  4 ++--
 application/stream.go  | 13 +++++++++++++
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/application/message.go b/application/message.go
index 5275ff5..7810196 100644
--- a/application/message.go
+++ b/application/message.go
@@ -80,7 +80,7 @@ func (sm *stream) Publish(ctx context.Context, msg geminio.Message, opts ...*opt
 
 	deadline, ok := ctx.Deadline()
 	if ok {
-		pkt.Data.Context.Deadline = deadline
+		pkt.Data.Context.Deadline = wireDeadline(deadline)
 	}
 
 	if msg.Cnss() == options.CnssAtMostOnce {
@@ -139,7 +139,7 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 
 	deadline, ok := ctx.Deadline()
 	if ok {
-		pkt.Data.Context.Deadline = deadline
+		pkt.Data.Context.Deadline = wireDeadline(deadline)
 	}
 
 	if msg.Cnss() == options.CnssAtMostOnce {
diff --git a/application/rpc.go b/application/rpc.go
index d06e411..e543239 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -107,7 +107,7 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 	deadline, ok := ctx.Deadline()
 	if ok {
 		// if deadline exists, we should deliver it
-		pkt.Data.Context.Deadline = deadline
+		pkt.Data.Context.Deadline = wireDeadline(deadline)
 	}
 	var sync synchub.Sync
 	syncOpts := []synchub.SyncOption{}
@@ -184,7 +184,7 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 
 	deadline, ok := ctx.Deadline()
 	if ok {
-		pkt.Data.Context.Deadline = deadline
+		pkt.Data.Context.Deadline = wireDeadline(deadline)
 	}
 	if ch == nil {
 		ch = make(chan *geminio.Call, 1)
diff --git a/application/stream.go b/application/stream.go
index 2ddc1ea..928cd2e 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -101,6 +101,19 @@ type stream struct {
 	doneOnce *gsync.Once
 }
 
+// wireDeadline brings a deadline into the years a packet can carry, one which
+// can't be encoded costs the whole connection
+func wireDeadline(deadline time.Time) time.Time {
+	deadline = deadline.UTC()
+	if deadline.Year() > 9999 {
+		return time.Date(9999, time.December, 31, 23, 59, 59, 0, time.UTC)
+	}
+	if deadline.Year() < 1 {
+		return time.Unix(0, 0).UTC()
+	}
+	return deadline
+}
+
 func newStream(end *End, cn conn.Conn, dg multiplexer.Dialogue, opts *opts) *stream {
 	shub := synchub.NewSyncHub(synchub.OptionTimer(opts.tmr))
 	sm := &stream{
-- 
2.43.0


From a21a8b34656fdb3e0f739ad3304a9ac8a24d9109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:17 +0000
Subject: [PATCH 39/39] fix: don't race for the closewait of a dialogue

A peer which dismisses or acks more than once brings the dialogue to its end
while Close is still setting the closewait.
---
 multiplexer/dialogue.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 0ed0148..562cb4d 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -53,6 +53,7 @@ type dialogue struct {
 
 	onlined   bool
 	closewait synchub.Sync
+	closeMtx  sync.Mutex // protects closewait
 
 	// dialogue id
 	negotiatingID       uint64
@@ -613,9 +614,9 @@ func (dg *dialogue) handleInDimssAckPacket(pkt *packet.DismissAckPacket) iodefin
 	if dg.fsm.State() == DISMISS_HALF {
 		return iodefine.IOSuccess
 	}
-	if dg.closewait != nil {
+	if closewait := dg.getClosewait(); closewait != nil {
 		// and CloseWait is waiting for the completion.
-		dg.closewait.Done()
+		closewait.Done()
 	}
 	return iodefine.IOClosed
 }
@@ -714,9 +715,9 @@ func (dg *dialogue) handleOutDismissAckPacket(pkt *packet.DismissAckPacket) iode
 	if dg.fsm.State() == DISMISS_HALF {
 		return iodefine.IOSuccess
 	}
-	if dg.closewait != nil {
+	if closewait := dg.getClosewait(); closewait != nil {
 		// and CloseWait is waiting for the completion.
-		dg.closewait.Done()
+		closewait.Done()
 	}
 	return iodefine.IOClosed
 }
@@ -737,13 +738,14 @@ func (dg *dialogue) Close() {
 		}
 		pkt := dg.pf.NewDismissPacket(dg.DialogueID())
 		// we need a tick in case of never receiving the dismiss ack packet
-		dg.closewait = dg.shub.New(pkt.PacketID, synchub.WithTimeout(30*time.Second))
+		closewait := dg.shub.New(pkt.PacketID, synchub.WithTimeout(30*time.Second))
+		dg.setClosewait(closewait)
 		dg.log.Debugf("dialogue async close, clientID: %d, dialogueID: %d",
 			dg.cn.ClientID(), dg.DialogueID())
 
 		go func() {
 			// we don't use shub WithCallback because the force close may arrive firse
-			event := <-dg.closewait.C()
+			event := <-closewait.C()
 			if event.Error != nil {
 				dg.log.Debugf("dialogue close wait err: %s, clientID: %d, peerDialogueID: %d, dialogueID: %d",
 					event.Error, dg.cn.ClientID(), dg.peerNegotiatingID, dg.DialogueID())
@@ -759,6 +761,19 @@ func (dg *dialogue) Close() {
 	})
 }
 
+// a peer may dismiss and ack as it likes, so the closewait is read while being set
+func (dg *dialogue) setClosewait(closewait synchub.Sync) {
+	dg.closeMtx.Lock()
+	defer dg.closeMtx.Unlock()
+	dg.closewait = closewait
+}
+
+func (dg *dialogue) getClosewait() synchub.Sync {
+	dg.closeMtx.Lock()
+	defer dg.closeMtx.Unlock()
+	return dg.closewait
+}
+
 func (dg *dialogue) CloseWait() {
 	// send close packet and wait for the end, whoever started the close
 	dg.Close()
-- 
2.43.0

