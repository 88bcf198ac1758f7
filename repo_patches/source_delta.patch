From 7efb195a40063a97a61ce866ef72fe07caed80a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:53 +0000
Subject: [PATCH 01/27] fix: clear the discontinuity mark of recycled jitter
 buffer packets

A packet taken from the pool kept the mark of its previous use when it was
appended, so a sample behind a gap was delivered without waiting for the
latency and the gap was not counted as loss.
---
 jitter/packet.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jitter/packet.go b/jitter/packet.go
index 31e3181..60aee32 100644
--- a/jitter/packet.go
+++ b/jitter/packet.go
@@ -38,6 +38,7 @@ func (b *Buffer) newPacket(pkt *rtp.Packet, receivedAt time.Time) *packet {
 
 	p.prev = nil
 	p.next = nil
+	p.discont = false
 	p.start = b.depacketizer.IsPartitionHead(pkt.Payload)
 	p.end = b.depacketizer.IsPartitionTail(pkt.Marker, pkt.Payload)
 	p.extPacket = ExtPacket{receivedAt, pkt}
-- 
2.43.0


From b0a339cb53e2d8357bca4001165195db3f049129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:53 +0000
Subject: [PATCH 02/27] fix: a packet put in front of the jitter buffer's head
 ends its discontinuity

The old head kept its discontinuity mark, so at the start of a stream the
packets missing between the two were neither waited for nor counted.
---
 jitter/buffer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jitter/buffer.go b/jitter/buffer.go
index ee0de74..c36eefa 100644
--- a/jitter/buffer.go
+++ b/jitter/buffer.go
@@ -232,6 +232,7 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 	case beforeHead && withinHeadRange:
 		// prepend
 		p.discont = discont && p.start
+		b.head.discont = false
 		b.head.prev = p
 		p.next = b.head
 		b.head = p
-- 
2.43.0


From e6654f94e09b216e120f6fd890b9e0169be4d6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:53 +0000
Subject: [PATCH 03/27] fix: drop duplicates of packets that are still in the
 jitter buffer

They were inserted next to the original: delivered twice, splitting samples,
counted as 65535 lost packets, or leaked from the list.
---
 jitter/buffer.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/jitter/buffer.go b/jitter/buffer.go
index c36eefa..1eee917 100644
--- a/jitter/buffer.go
+++ b/jitter/buffer.go
@@ -201,8 +201,8 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 		}
 	}
 
-	if b.initialized && before(pkt.SequenceNumber, b.prevSN) {
-		// packet expired
+	if (b.initialized && before(pkt.SequenceNumber, b.prevSN)) || b.isBuffered(pkt.SequenceNumber) {
+		// packet expired, or a duplicate of one that is still buffered
 		if !pkt.Padding {
 			b.stats.PacketsDropped++
 			if b.onPacketLoss != nil {
@@ -281,6 +281,20 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 	}
 }
 
+// isBuffered checks if a packet with this sequence number is in the buffer
+func (b *Buffer) isBuffered(sn uint16) bool {
+	if b.tail == nil || !before(sn, b.tail.extPacket.SequenceNumber) {
+		// in order
+		return false
+	}
+	for c := b.tail; c != nil; c = c.prev {
+		if c.extPacket.SequenceNumber == sn {
+			return true
+		}
+	}
+	return false
+}
+
 // popReady pushes all ready samples to the out channel
 func (b *Buffer) popReady() {
 	expiry := time.Now().Add(-b.latency)
-- 
2.43.0


From bc5f0c8a5a7c0be5108f7ad9d179d7ea61191e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 04/27] fix: mixer blocked on its output channel ends when
 stopped

---
 mixer/mixer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mixer/mixer.go b/mixer/mixer.go
index 9ed82e8..3974646 100644
--- a/mixer/mixer.go
+++ b/mixer/mixer.go
@@ -226,7 +226,10 @@ func (m *Mixer) mixOnce() {
 			m.stats.BlockedMixes.Add(1)
 			// Blocking, mimics behavior witohut channel
 			// TODO: Consider, carefully, dropping when blocked
-			m.outchan <- out
+			select {
+			case m.outchan <- out:
+			case <-m.stopped.Watch(): // The writer is gone, nobody will ever receive it
+			}
 		}
 	}
 }
-- 
2.43.0


From 1ffec6cbfda2d6d2ea2cb866028cac93e59f15e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:55 +0000
Subject: [PATCH 05/27] fix: shared RTP timestamp works across the 32-bit wrap

---
 rtp/rtp.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 9e8de21..d015ea8 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -127,8 +127,11 @@ type Event struct {
 	Marker    bool
 }
 
+// maxTSValid is set in SeqWriter.maxTS once any stream requested a timestamp.
+const maxTSValid = 1 << 32
+
 type SeqWriter struct {
-	maxTS atomic.Uint32
+	maxTS atomic.Uint64 // maxTSValid and the timestamp in the lower 32 bits
 	mu    sync.Mutex
 	w     Writer
 	h     Header
@@ -142,19 +145,22 @@ func (s *SeqWriter) String() string {
 // The function may return timestamp as-is or may adjust it to catch up with other active streams.
 func (s *SeqWriter) CurTS(ts, inc uint32) uint32 {
 	for {
-		cur := s.maxTS.Load()
-		// TODO: Handle wrap-around. Not a concern for now, because all streams start at TS=0.
-		if cur > ts+rtpStreamTSResetFrames*inc {
-			// Previous timestamp on the stream was too long ago.
-			// Force a timestamp reset to the one from a more recent stream.
-			return cur
-		}
-		if cur >= ts {
-			// Timestamp is withing allowed range.
-			return ts
+		state := s.maxTS.Load()
+		if state&maxTSValid != 0 {
+			// Timestamps wrap around, thus compare the difference instead of values.
+			cur := uint32(state)
+			if int32(cur-ts-rtpStreamTSResetFrames*inc) > 0 {
+				// Previous timestamp on the stream was too long ago.
+				// Force a timestamp reset to the one from a more recent stream.
+				return cur
+			}
+			if int32(cur-ts) >= 0 {
+				// Timestamp is withing allowed range.
+				return ts
+			}
 		}
 		// Adjust the max timestamp, make sure other stream didn't update it before us.
-		if s.maxTS.CompareAndSwap(cur, ts) {
+		if s.maxTS.CompareAndSwap(state, maxTSValid|uint64(ts)) {
 			return ts
 		}
 	}
-- 
2.43.0


From cf6d5dd3c4f418b4b2d7529e3cddff8f7a46bc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:22 +0000
Subject: [PATCH 06/27] fix: DTMF can be written in-band only

---
 dtmf/dtmf.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dtmf/dtmf.go b/dtmf/dtmf.go
index b9d0e86..2b7849e 100644
--- a/dtmf/dtmf.go
+++ b/dtmf/dtmf.go
@@ -223,7 +223,9 @@ func Write(ctx context.Context, audio media.Writer[media.PCM16Sample], events *r
 		}
 	}
 
-	events.ResetTimestamp(startTs)
+	if events != nil {
+		events.ResetTimestamp(startTs)
+	}
 
 	for {
 		select {
-- 
2.43.0


From a13e491566fba7bd6d9867d3a79c0de4d9fc8df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:27 +0000
Subject: [PATCH 07/27] fix: RTP session: header extensions of a received
 packet referred to the shared read buffer

The extension payloads of a parsed header are slices of the datagram. The
session reads the next datagram into the same buffer, so extensions of packets
that were queued or already returned to a caller changed under them.
---
 rtp/session.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rtp/session.go b/rtp/session.go
index 9cfcbee..116946c 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -112,6 +112,7 @@ func (s *session) AcceptStream() (ReadStream, uint32, error) {
 			s.bySSRC[p.SSRC] = r
 			isNew = true
 		}
+		p.Header = p.Header.Clone() // header extensions refer to s.rbuf
 		r.write(&p)
 		if isNew {
 			return r, r.ssrc, nil
-- 
2.43.0


From eebb9a1de80be44e5f09a0d9e741f12fbd86139f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:17 +0000
Subject: [PATCH 08/27] fix: RTP session: zero-copy reads raced with queued
 packets and with Close

The receive loop took the buffer a reader had registered and filled it without
holding the lock, then waited for that reader. The reader could return in the
meantime, with a queued packet or because of Close: its buffer was then written
to after the read had returned, a later read got the length of a packet that was
copied elsewhere, packets overtook queued ones, and the receive loop (and with it
every other stream and Close) was stuck until somebody read that stream again.
Copy and hand over under the lock, and deliver queued packets first.
---
 rtp/session.go | 68 +++++++++++++++++++++++++++-----------------------
 1 file changed, 37 insertions(+), 31 deletions(-)

diff --git a/rtp/session.go b/rtp/session.go
index 116946c..dea1c27 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -106,7 +106,7 @@ func (s *session) AcceptStream() (ReadStream, uint32, error) {
 			r = &readStream{
 				ssrc:   p.SSRC,
 				closed: closed,
-				copied: make(chan int),
+				copied: make(chan int, 1),
 				recv:   make(chan *rtp.Packet, 10),
 			}
 			s.bySSRC[p.SSRC] = r
@@ -160,30 +160,27 @@ func (w *writeStream) WriteRTP(h *rtp.Header, payload []byte) (int, error) {
 type readStream struct {
 	ssrc uint32
 
-	closed  <-chan struct{}
-	recv    chan *rtp.Packet
-	copied  chan int
+	closed <-chan struct{}
+	recv   chan *rtp.Packet
+	copied chan int // length of the packet copied to the registered reader
+
 	mu      sync.Mutex
-	hdr     *rtp.Header
+	direct  bool        // a reader is registered for zero copy and has not returned yet
+	hdr     *rtp.Header // destination of the next packet, nil if there is none or it is already filled
 	payload []byte
 }
 
 func (r *readStream) write(p *rtp.Packet) {
-	if enableZeroCopy {
-		r.mu.Lock()
-		h, payload := r.hdr, r.payload
+	// The lock is held while copying, so that the reader can't return in the meantime.
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	if r.hdr != nil {
+		// zero copy
+		*r.hdr = p.Header
+		n := copy(r.payload, p.Payload)
 		r.hdr, r.payload = nil, nil
-		r.mu.Unlock()
-		if h != nil {
-			// zero copy
-			*h = p.Header
-			n := copy(payload, p.Payload)
-			select {
-			case <-r.closed:
-			case r.copied <- n:
-			}
-			return
-		}
+		r.copied <- n // never blocks: there's only one direct reader at a time
+		return
 	}
 	p.Payload = slices.Clone(p.Payload)
 	select {
@@ -196,9 +193,18 @@ func (r *readStream) ReadRTP(h *rtp.Header, payload []byte) (int, error) {
 	direct := false
 	if enableZeroCopy {
 		r.mu.Lock()
-		if r.hdr == nil {
+		select {
+		case p := <-r.recv:
+			// Packets that are already queued come first.
+			r.mu.Unlock()
+			*h = p.Header
+			return copy(payload, p.Payload), nil
+		default:
+		}
+		if !r.direct {
 			r.hdr = h
 			r.payload = payload
+			r.direct = true
 			direct = true
 		}
 		r.mu.Unlock()
@@ -213,21 +219,21 @@ func (r *readStream) ReadRTP(h *rtp.Header, payload []byte) (int, error) {
 		}
 		return 0, io.EOF
 	}
-	defer func() {
-		r.mu.Lock()
-		defer r.mu.Unlock()
-		if r.hdr == h {
-			r.hdr, r.payload = nil, nil
-		}
-	}()
 	select {
 	case n := <-r.copied:
-		return n, nil
-	case p := <-r.recv:
-		*h = p.Header
-		n := copy(payload, p.Payload)
+		r.mu.Lock()
+		defer r.mu.Unlock()
+		r.direct = false
 		return n, nil
 	case <-r.closed:
 	}
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	r.direct = false
+	if r.hdr == nil {
+		// The packet was copied just before closing.
+		return <-r.copied, nil
+	}
+	r.hdr, r.payload = nil, nil
 	return 0, io.EOF
 }
-- 
2.43.0


From b4a25d0647c321c5f89270c2387a6298bc56b03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 09/27] fix: SRTP session: Close left stream readers blocked
 and could hang

Closing a pion session does not close its read streams, so ReadRTP callers were
blocked forever. It also waits for the receive loop, which may itself be waiting
for somebody to accept a new stream: without an AcceptStream caller, Close hung.
---
 srtp/srtp.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/srtp/srtp.go b/srtp/srtp.go
index 09de8e6..150c13b 100644
--- a/srtp/srtp.go
+++ b/srtp/srtp.go
@@ -18,6 +18,7 @@ import (
 	"crypto/rand"
 	"fmt"
 	"net"
+	"sync"
 
 	prtp "github.com/pion/rtp"
 	"github.com/pion/srtp/v3"
@@ -118,6 +119,10 @@ func NewSession(log logger.Logger, conn net.Conn, conf *Config) (rtp.Session, er
 type session struct {
 	log logger.Logger
 	s   *srtp.SessionSRTP
+
+	mu      sync.Mutex
+	closed  bool
+	streams []*srtp.ReadStreamSRTP // accepted streams, closed with the session
 }
 
 func (s *session) OpenWriteStream() (rtp.WriteStream, error) {
@@ -133,11 +138,36 @@ func (s *session) AcceptStream() (rtp.ReadStream, uint32, error) {
 	if err != nil {
 		return nil, 0, err
 	}
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if s.closed {
+		_ = r.Close()
+		return nil, 0, net.ErrClosed
+	}
+	s.streams = append(s.streams, r)
 	return readStream{r: r}, ssrc, nil
 }
 
 func (s *session) Close() error {
-	return s.s.Close()
+	s.mu.Lock()
+	s.closed = true
+	streams := s.streams
+	s.streams = nil
+	s.mu.Unlock()
+	// The receive loop may be waiting for somebody to accept a new stream.
+	go func() {
+		for {
+			if _, _, err := s.s.AcceptStream(); err != nil {
+				return
+			}
+		}
+	}()
+	err := s.s.Close()
+	// Closing the session does not unblock the readers of its streams.
+	for _, r := range streams {
+		_ = r.Close()
+	}
+	return err
 }
 
 type writeStream struct {
-- 
2.43.0


From 4ad42681b4ea9303ee1653179e2af84c120c7e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:23 +0000
Subject: [PATCH 10/27] fix: SRTP session: header extensions of a received
 packet were overwritten by its payload

The packet is decrypted into the caller's payload buffer, and the payload is then
moved to the front of it, over the bytes the extensions of the returned header
refer to.
---
 srtp/srtp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srtp/srtp.go b/srtp/srtp.go
index 150c13b..d491634 100644
--- a/srtp/srtp.go
+++ b/srtp/srtp.go
@@ -196,7 +196,7 @@ func (r readStream) ReadRTP(h *prtp.Header, payload []byte) (int, error) {
 	if err = p.Unmarshal(buf[:n]); err != nil {
 		return 0, err
 	}
-	*h = p.Header
+	*h = p.Header.Clone() // header extensions refer to buf
 	n = copy(payload, p.Payload)
 	return n, nil
 }
-- 
2.43.0


From 058be1b06b4e6a3203f19273b45528a53e02edad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:57 +0000
Subject: [PATCH 11/27] fix: a short crypto key in an SDP panicked the parser

---
 sdp/offer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdp/offer.go b/sdp/offer.go
index 3bb1809..47dfc5b 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -498,6 +498,9 @@ func parseSRTPProfile(val string) (*srtp.Profile, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(keys) < keyLen {
+			return nil, fmt.Errorf("crypto key is too short: %d < %d", len(keys), keyLen)
+		}
 		keys, salt = keys[:keyLen], keys[keyLen:]
 	}
 	return &srtp.Profile{
-- 
2.43.0


From 937c950301baa8334cde0a5115bbf66503505792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:57 +0000
Subject: [PATCH 12/27] fix: payload type 255 in an SDP panicked the codec
 lookup

---
 rtp/codecs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/codecs.go b/rtp/codecs.go
index 7b0db70..e0adf85 100644
--- a/rtp/codecs.go
+++ b/rtp/codecs.go
@@ -28,7 +28,7 @@ var (
 )
 
 var (
-	codecByType [0xff]media.Codec
+	codecByType [0x100]media.Codec
 )
 
 func init() {
-- 
2.43.0


From 3acef71c8d2ac5a49db09af31d74d20b3e51fe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:14 +0000
Subject: [PATCH 13/27] fix: an SDP connection line without an address panicked
 the parser

---
 sdp/helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdp/helpers.go b/sdp/helpers.go
index dc00686..e4bd566 100644
--- a/sdp/helpers.go
+++ b/sdp/helpers.go
@@ -44,7 +44,7 @@ func GetAudioDest(s *sdp.SessionDescription, audio *sdp.MediaDescription) (netip
 		ci = s.ConnectionInformation
 	}
 	var addr string
-	if ci != nil && ci.NetworkType == "IN" {
+	if ci != nil && ci.Address != nil && ci.NetworkType == "IN" {
 		addr = ci.Address.Address
 	} else if s.Origin.NetworkType == "IN" {
 		addr = s.Origin.UnicastAddress
-- 
2.43.0


From e325b077a9f1807a271fede4250bab7a571af072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:26 +0000
Subject: [PATCH 14/27] fix: printing an RTP mux raced with handler
 registration

---
 rtp/mux.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rtp/mux.go b/rtp/mux.go
index feaf724..9d24d06 100644
--- a/rtp/mux.go
+++ b/rtp/mux.go
@@ -38,22 +38,26 @@ type Mux struct {
 }
 
 func (m *Mux) String() string {
+	m.mu.RLock()
+	static, dynamic, def := m.static, maps.Clone(m.dynamic), m.def
+	m.mu.RUnlock()
+
 	var buf strings.Builder
 	buf.WriteString("Mux")
-	for t, h := range m.static {
+	for t, h := range static {
 		if h == nil {
 			continue
 		}
 		fmt.Fprintf(&buf, " (T=%d -> %s)", t, h.String())
 	}
-	dkeys := maps.Keys(m.dynamic)
+	dkeys := maps.Keys(dynamic)
 	slices.Sort(dkeys)
 	for _, t := range dkeys {
-		h := m.dynamic[t]
+		h := dynamic[t]
 		fmt.Fprintf(&buf, " (T=%d -> %s)", t, h.String())
 	}
-	if m.def != nil {
-		fmt.Fprintf(&buf, " (Def -> %s)", m.def.String())
+	if def != nil {
+		fmt.Fprintf(&buf, " (Def -> %s)", def.String())
 	}
 	return buf.String()
 }
-- 
2.43.0


From 0121c267b3332781f46b65927c32ee14e4a90a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:02 +0000
Subject: [PATCH 15/27] fix: jitter stage handed its buffered packets to the
 handler after closing it

---
 rtp/jitter.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rtp/jitter.go b/rtp/jitter.go
index a081891..ce06f14 100644
--- a/rtp/jitter.go
+++ b/rtp/jitter.go
@@ -15,6 +15,7 @@
 package rtp
 
 import (
+	"sync/atomic"
 	"time"
 
 	"github.com/pion/rtp"
@@ -42,9 +43,10 @@ func HandleJitter(h HandlerCloser, opts ...jitter.Option) HandlerCloser {
 }
 
 type jitterHandler struct {
-	h   HandlerCloser
-	buf *jitter.Buffer
-	err chan error
+	h      HandlerCloser
+	buf    *jitter.Buffer
+	err    chan error
+	closed atomic.Bool
 }
 
 func (r *jitterHandler) String() string {
@@ -52,6 +54,9 @@ func (r *jitterHandler) String() string {
 }
 
 func (r *jitterHandler) handleRTP(p *rtp.Packet) {
+	if r.closed.Load() {
+		return // timer expired while closing
+	}
 	if err := r.h.HandleRTP(&p.Header, p.Payload); err != nil {
 		select {
 		case r.err <- err:
@@ -74,6 +79,7 @@ func (r *jitterHandler) HandleRTP(h *rtp.Header, payload []byte) error {
 }
 
 func (r *jitterHandler) Close() {
+	r.closed.Store(true)
 	r.buf.Close()
 	r.h.Close()
 }
-- 
2.43.0


From 9111960f4931cb039c3f898a6db030478039bc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:28 +0000
Subject: [PATCH 16/27] fix: WebM writer: an I/O error crashed the process or
 was not reported

---
 webm/writer.go | 61 +++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 58 insertions(+), 3 deletions(-)

diff --git a/webm/writer.go b/webm/writer.go
index e07cc03..49ce859 100644
--- a/webm/writer.go
+++ b/webm/writer.go
@@ -19,6 +19,7 @@ import (
 	"io"
 	"math/rand"
 	"slices"
+	"sync"
 	"time"
 
 	"github.com/at-wat/ebml-go/webm"
@@ -31,7 +32,8 @@ func NewPCM16Writer(w io.WriteCloser, sampleRate int, channels int, sampleDur ti
 }
 
 func NewWriter[T media.Frame](w io.WriteCloser, codec string, channels, sampleRate int, sampleDur time.Duration) media.WriteCloser[T] {
-	ws, err := webm.NewSimpleBlockWriter(w, []webm.TrackEntry{
+	ew := &errWriter{w: w}
+	ws, err := webm.NewSimpleBlockWriter(ew, []webm.TrackEntry{
 		{
 			Name:            "Audio",
 			TrackNumber:     1,
@@ -48,11 +50,12 @@ func NewWriter[T media.Frame](w io.WriteCloser, codec string, channels, sampleRa
 	if err != nil {
 		panic(err)
 	}
-	return &writer[T]{codec: codec, ws: ws[0], channels: channels, sampleRate: sampleRate, dur: sampleDur}
+	return &writer[T]{codec: codec, ew: ew, ws: ws[0], channels: channels, sampleRate: sampleRate, dur: sampleDur}
 }
 
 type writer[T media.Frame] struct {
 	codec      string
+	ew         *errWriter
 	ws         webm.BlockWriteCloser
 	channels   int
 	sampleRate int
@@ -81,9 +84,61 @@ func (w *writer[T]) WriteSample(sample T) error {
 	}
 	_, err = w.ws.Write(true, w.ts, slices.Clone(w.buf[:n]))
 	w.ts += w.dur.Milliseconds()
+	if err == nil {
+		err = w.ew.Err()
+	}
 	return err
 }
 
 func (w *writer[T]) Close() error {
-	return w.ws.Close()
+	err := w.ws.Close()
+	if err == nil {
+		err = w.ew.Err()
+	}
+	return err
+}
+
+// errWriter keeps the first I/O error of the underlying writer. The muxer writes in the background:
+// it panics on a failed write and ignores the error of Close.
+type errWriter struct {
+	w   io.WriteCloser
+	mu  sync.Mutex
+	err error
+}
+
+// Err returns the first I/O error, if any.
+func (w *errWriter) Err() error {
+	w.mu.Lock()
+	defer w.mu.Unlock()
+	return w.err
+}
+
+func (w *errWriter) fail(err error) {
+	w.mu.Lock()
+	defer w.mu.Unlock()
+	if w.err == nil {
+		w.err = err
+	}
+}
+
+func (w *errWriter) Write(p []byte) (int, error) {
+	if w.Err() != nil {
+		return len(p), nil // nothing can follow the lost data
+	}
+	n, err := w.w.Write(p)
+	if err == nil && n < len(p) {
+		err = io.ErrShortWrite
+	}
+	if err != nil {
+		w.fail(err)
+	}
+	return len(p), nil
+}
+
+func (w *errWriter) Close() error {
+	err := w.w.Close()
+	if err != nil {
+		w.fail(err)
+	}
+	return err
 }
-- 
2.43.0


From dcccbfd817055461458ba8bd558c65a7de828dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:51 +0000
Subject: [PATCH 17/27] fix: WebM writer: timestamps drifted for durations that
 are not whole milliseconds

---
 webm/writer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/webm/writer.go b/webm/writer.go
index 49ce859..305535f 100644
--- a/webm/writer.go
+++ b/webm/writer.go
@@ -60,7 +60,7 @@ type writer[T media.Frame] struct {
 	channels   int
 	sampleRate int
 	dur        time.Duration
-	ts         int64
+	ts         time.Duration
 	buf        []byte
 }
 
@@ -82,8 +82,8 @@ func (w *writer[T]) WriteSample(sample T) error {
 	if err != nil {
 		return err
 	}
-	_, err = w.ws.Write(true, w.ts, slices.Clone(w.buf[:n]))
-	w.ts += w.dur.Milliseconds()
+	_, err = w.ws.Write(true, w.ts.Milliseconds(), slices.Clone(w.buf[:n]))
+	w.ts += w.dur
 	if err == nil {
 		err = w.ew.Err()
 	}
-- 
2.43.0


From 02daaa12e1a190597fd2653216b4299485fb5d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 18/27] fix: listening on an IPv6 address with a ListenConfig
 always failed

---
 rtp/listen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rtp/listen.go b/rtp/listen.go
index 3c0084a..fb617b7 100644
--- a/rtp/listen.go
+++ b/rtp/listen.go
@@ -17,10 +17,10 @@ package rtp
 import (
 	"context"
 	"errors"
-	"fmt"
 	"math/rand"
 	"net"
 	"net/netip"
+	"strconv"
 	"syscall"
 )
 
@@ -73,7 +73,7 @@ func ListenUDPPortRangeWithConfig(portMin, portMax int, ip netip.Addr, lc *net.L
 	ctx := context.Background() // ctx is only used to resolve domain names, which we don't use here.
 	ipStr := ip.String()
 	return bindRange(portMin, portMax, ip, func(port int, ip netip.Addr) (*net.UDPConn, error) {
-		conn, err := lc.ListenPacket(ctx, "udp", fmt.Sprintf("%s:%d", ipStr, port))
+		conn, err := lc.ListenPacket(ctx, "udp", net.JoinHostPort(ipStr, strconv.Itoa(port)))
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From b7eba12d7688cd09720248a070fa4cd70799b652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 19/27] fix: resampler dropped input on uneven chunks and
 truncated the tail on close

---
 resample_soxr.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/resample_soxr.go b/resample_soxr.go
index c290992..f844fc6 100644
--- a/resample_soxr.go
+++ b/resample_soxr.go
@@ -97,11 +97,17 @@ func (w *resampleWriter) SampleRate() int {
 func (w *resampleWriter) Close() error {
 	w.mu.Lock()
 	defer w.mu.Unlock()
-	// Flush soxr buffer to our buffer.
+	// Flush soxr buffer to our buffer. It may take multiple calls to get everything that soxr still holds.
 	var err error
-	w.buf, _, err = w.r.Resample(w.buf, nil)
-	if err != nil {
-		return err
+	for {
+		var n int
+		w.buf, n, err = w.r.Resample(w.buf, nil)
+		if err != nil {
+			return err
+		}
+		if n == 0 {
+			break
+		}
 	}
 	// Close soxr resampler.
 	_ = w.r.Close()
@@ -162,6 +168,8 @@ type soxrResampler struct {
 	srcRate int
 	dstRate int
 	maxIn   int
+	inN     int // total number of input samples
+	outN    int // total number of output samples
 	done    *atomic.Bool
 }
 
@@ -222,8 +230,13 @@ func (r *soxrResampler) Resample(out PCM16Sample, in PCM16Sample) (PCM16Sample,
 		return out, 0, errors.New("resampler is closed")
 	}
 	r.maxIn = max(r.maxIn, len(in))
-	dstN := (len(in) * r.dstRate) / r.srcRate
-	if dstN == 0 {
+	r.inN += len(in)
+	// Round up: with less space soxr would keep (or we would drop) a bit more on each call.
+	dstN := (len(in)*r.dstRate + r.srcRate - 1) / r.srcRate
+	if len(in) == 0 {
+		// Flush what is left of the stream. Note that soxr may round the total up.
+		dstN = max(0, r.inN*r.dstRate/r.srcRate-r.outN)
+	} else if dstN == 0 {
 		dstN = max(
 			(r.maxIn*r.dstRate)/r.srcRate,
 			cap(out)-len(out),
@@ -257,6 +270,7 @@ func (r *soxrResampler) Resample(out PCM16Sample, in PCM16Sample) (PCM16Sample,
 			break
 		}
 	}
+	r.outN += total
 	// Finally adjust the length to cover written data.
 	out = out[:len(out)+total]
 	return out, total, nil
-- 
2.43.0


From 0ca4554aacc4598b6f6e7abe2b1ab0dad53b0cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 20/27] fix: Opus packets longer than 20 ms could not be
 decoded

---
 opus/opus.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opus/opus.go b/opus/opus.go
index b0dfb0a..2b7f9a5 100644
--- a/opus/opus.go
+++ b/opus/opus.go
@@ -35,6 +35,9 @@ import (
 */
 import "C"
 
+// maxPacketFrames is the maximal duration of an Opus packet (120 ms) in frames of the default duration.
+const maxPacketFrames = 6
+
 type Sample []byte
 
 func (s Sample) Size() int {
@@ -150,7 +153,7 @@ func (d *decoder) resetForSample(in Sample) (int, error) {
 		}
 		d.dec = dec
 
-		d.buf = make([]int16, d.w.SampleRate()/rtp.DefFramesPerSec*channels)
+		d.buf = make([]int16, d.w.SampleRate()/rtp.DefFramesPerSec*maxPacketFrames*channels)
 		d.lastChannels = channels
 	}
 
-- 
2.43.0


From d7b7e781260cb0d33c7565a9c8928193f7d6e0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 21/27] fix: stereo to mono conversion overflowed on loud
 samples

---
 pcm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcm.go b/pcm.go
index 7e374ab..635862f 100644
--- a/pcm.go
+++ b/pcm.go
@@ -228,6 +228,6 @@ func StereoToMono(dst, src PCM16Sample) {
 	}
 	// average stereo samples to mono
 	for i := range n {
-		dst[i] = (src[i*2+0] + src[i*2+1]) / 2
+		dst[i] = int16((int32(src[i*2+0]) + int32(src[i*2+1])) / 2)
 	}
 }
-- 
2.43.0


From 8d9a92cd3b207eef61e5cb173a505ccd1ba8bff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 22/27] fix: jitter: a stream restarted at a lower sequence
 number was dropped as expired

---
 jitter/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jitter/buffer.go b/jitter/buffer.go
index 1eee917..4d64aaf 100644
--- a/jitter/buffer.go
+++ b/jitter/buffer.go
@@ -201,7 +201,7 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 		}
 	}
 
-	if (b.initialized && before(pkt.SequenceNumber, b.prevSN)) || b.isBuffered(pkt.SequenceNumber) {
+	if (b.initialized && before(pkt.SequenceNumber, b.prevSN) && withinRange(pkt.SequenceNumber, b.prevSN)) || b.isBuffered(pkt.SequenceNumber) {
 		// packet expired, or a duplicate of one that is still buffered
 		if !pkt.Padding {
 			b.stats.PacketsDropped++
-- 
2.43.0


From 2d4fc69c24eb6d59def681edeae2f5979eaaba7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 23/27] fix: jitter: a packet put in front of a restarted
 stream left the next one marked as a discontinuity

---
 jitter/buffer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jitter/buffer.go b/jitter/buffer.go
index 4d64aaf..a50d9d3 100644
--- a/jitter/buffer.go
+++ b/jitter/buffer.go
@@ -250,6 +250,7 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 			if !before(pkt.SequenceNumber, c.extPacket.SequenceNumber) || discont {
 				// insert after c
 				p.discont = discont && p.start
+				c.next.discont = false
 				p.prev = c
 				p.next = c.next
 				c.next.prev = p
-- 
2.43.0


From 4619419aabee3335d6355fb5eeeab8b99636f99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 24/27] fix: sdp: crypto lines with a key identifier of 8 bytes
 were rejected

---
 sdp/offer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index 47dfc5b..ecdbfc3 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -434,8 +434,7 @@ func parseMKI(s string) ([]byte, error) {
 	if length == 0 || length > 8 {
 		return nil, fmt.Errorf("supported MKI length between 1 and 8 bytes, got %d", length)
 	}
-	maxValue := uint64(1) << (length * 8)
-	if value >= maxValue {
+	if length < 8 && value >= uint64(1)<<(length*8) {
 		return nil, fmt.Errorf("value %d is too large for %d bytes", value, length)
 	}
 
-- 
2.43.0


From f86fb625c8181e77b2b33eb91ffa332e06c33851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:29 +0000
Subject: [PATCH 25/27] fix: mixer: String read the inputs without the lock

---
 mixer/mixer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mixer/mixer.go b/mixer/mixer.go
index 3974646..266eff4 100644
--- a/mixer/mixer.go
+++ b/mixer/mixer.go
@@ -346,7 +346,10 @@ func (m *Mixer) RemoveInput(inp *Input) {
 }
 
 func (m *Mixer) String() string {
-	return fmt.Sprintf("Mixer(%d) -> %s", len(m.inputs), m.out.String())
+	m.mu.Lock()
+	n := len(m.inputs)
+	m.mu.Unlock()
+	return fmt.Sprintf("Mixer(%d) -> %s", n, m.out.String())
 }
 
 func (m *Mixer) SampleRate() int {
-- 
2.43.0


From 4f9dffb0353da200d99e1ed44f02663ab916fea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:33 +0000
Subject: [PATCH 26/27] fix: media: concurrent writes to a file or dump writer
 corrupted it

---
 media.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/media.go b/media.go
index 0d9e555..36ee222 100644
--- a/media.go
+++ b/media.go
@@ -19,6 +19,7 @@ import (
 	"fmt"
 	"io"
 	"strings"
+	"sync"
 	"sync/atomic"
 	"time"
 )
@@ -219,9 +220,10 @@ func NewFileWriter[T Frame](w io.WriteCloser, sampleRate int) WriteCloser[T] {
 }
 
 type fileWriter[T Frame] struct {
+	sampleRate int
+	mu         sync.Mutex
 	w          io.WriteCloser
 	bw         *bufio.Writer
-	sampleRate int
 	buf        []byte
 }
 
@@ -234,6 +236,8 @@ func (w *fileWriter[T]) SampleRate() int {
 }
 
 func (w *fileWriter[T]) WriteSample(sample T) error {
+	w.mu.Lock()
+	defer w.mu.Unlock()
 	if sz := sample.Size(); cap(w.buf) < sz {
 		w.buf = make([]byte, sz)
 	} else {
@@ -248,6 +252,8 @@ func (w *fileWriter[T]) WriteSample(sample T) error {
 }
 
 func (w *fileWriter[T]) Close() error {
+	w.mu.Lock()
+	defer w.mu.Unlock()
 	if err := w.bw.Flush(); err != nil {
 		_ = w.w.Close()
 		return err
-- 
2.43.0


From 9cbf8e1e2c7676d946ac676f5ead9adbb7ce531c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:22 +0000
Subject: [PATCH 27/27] fix: jitter: a duplicate of a packet still buffered
 behind a restart was delivered again

The search for duplicates was skipped for every packet ahead of the newest one,
also when that one belongs to a restarted stream with lower numbers.
---
 jitter/buffer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jitter/buffer.go b/jitter/buffer.go
index a50d9d3..93a2654 100644
--- a/jitter/buffer.go
+++ b/jitter/buffer.go
@@ -284,7 +284,10 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 
 // isBuffered checks if a packet with this sequence number is in the buffer
 func (b *Buffer) isBuffered(sn uint16) bool {
-	if b.tail == nil || !before(sn, b.tail.extPacket.SequenceNumber) {
+	if b.tail == nil {
+		return false
+	}
+	if tailSN := b.tail.extPacket.SequenceNumber; !before(sn, tailSN) && withinRange(sn, tailSN) {
 		// in order
 		return false
 	}
-- 
2.43.0

