package scen

import (
	"encoding/binary"
	"errors"
	"fmt"
	"time"

	"github.com/livekit/protocol/logger"
	"github.com/pion/rtp"

	"simw/simrt"
	mrtp "simw/x/github.com/livekit/media-sdk/rtp"
)

func init() {
	register(&Scen{Name: "session", Props: []string{"C14", "C15"}, Main: sessionMain,
		Real: []string{"rtp.NewSession, its read and write streams", "github.com/pion/rtp"},
		Stub: []string{"datagram socket", "remote senders", "accept, read and write callers", "scheduler"},
		Reached: []string{"oversized", "malformed", "mtu-sized", "overrun", "extensions", "short-buffer", "two-readers", "late-reader", "many-streams",
			"C15:conn-failed", "transient-read-error", "C15:closed-while-receiving"}})
}

// nopLog is a logger that says nothing.
type nopLog struct{ logger.Logger }

func (l nopLog) Debugw(msg string, kv ...any)                       {}
func (l nopLog) Infow(msg string, kv ...any)                        {}
func (l nopLog) Warnw(msg string, err error, kv ...any)             {}
func (l nopLog) Errorw(msg string, err error, kv ...any)            {}
func (l nopLog) WithValues(kv ...any) logger.Logger                 { return l }
func (l nopLog) WithName(string) logger.Logger                      { return l }
func (l nopLog) WithComponent(string) logger.Logger                 { return l }
func (l nopLog) WithCallDepth(int) logger.Logger                    { return l }
func (l nopLog) WithItemSampler() logger.Logger                     { return l }
func (l nopLog) WithoutSampler() logger.Logger                      { return l }
func (l nopLog) WithUnlikelyValues(kv ...any) logger.UnlikelyLogger { return logger.UnlikelyLogger{} }

// hdrEq compares what a header means.
func hdrEq(a, b *rtp.Header) bool {
	if a.Version != b.Version || a.Padding != b.Padding || a.Extension != b.Extension || a.Marker != b.Marker ||
		a.PayloadType != b.PayloadType || a.SequenceNumber != b.SequenceNumber || a.Timestamp != b.Timestamp || a.SSRC != b.SSRC ||
		!eq(a.CSRC, b.CSRC) || len(a.Extensions) != len(b.Extensions) {
		return false
	}
	if a.Extension && a.ExtensionProfile != b.ExtensionProfile {
		return false
	}
	ia, ib := a.GetExtensionIDs(), b.GetExtensionIDs()
	if !eq(ia, ib) {
		return false
	}
	for _, id := range ia {
		if !eq(a.GetExtension(id), b.GetExtension(id)) {
			return false
		}
	}
	return true
}

// genHeader draws an RTP header; the timestamp identifies the packet.
func genHeader(s *simrt.Stream, ssrc, token uint32, seq uint16) rtp.Header {
	h := rtp.Header{Version: 2, PayloadType: uint8(s.Int(128)), Marker: s.Bool(1, 4), SequenceNumber: seq, Timestamp: token, SSRC: ssrc}
	if s.Bool(1, 5) {
		for k := s.Range(1, 3); k > 0; k-- {
			h.CSRC = append(h.CSRC, s.U32())
		}
	}
	if s.Bool(1, 3) {
		simrt.Probe("extensions")
		prof := pick(s, 0xBEDE, 0x1000)
		h.Extension = true
		h.ExtensionProfile = uint16(prof)
		for k := s.Range(1, 3); k > 0; k-- {
			b := make([]byte, s.Range(1, 12))
			for i := range b {
				b[i] = byte(s.Int(256))
			}
			if err := h.SetExtension(uint8(k), b); err != nil {
				panic(err)
			}
		}
	}
	return h
}

func genPayload(s *simrt.Stream, n int) []byte {
	b := make([]byte, n)
	x := s.U32()
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

type sessPkt struct {
	tok     uint32
	ssrc    uint32
	hdr     rtp.Header
	payload []byte
	raw     []byte
	bad     bool
	arrived int64
	ret     int64 // when its read returned
	inv     int64
}

func sessionMain(r *R) {
	d, w := r.D, r.W
	var seq int64
	next := func() int64 { seq++; return seq }
	c14, c15 := r.On("C14"), r.On("C15")
	conn := newDconn(r, "local")
	if r.Faults && d.Bool(1, 4) {
		conn.cerr = newErr("close failed")
	}
	sess := mrtp.NewSession(nopLog{}, conn)
	byTok := map[uint32]*sessPkt{}
	var arrived []*sessPkt
	conn.onRead = func(b []byte, tag any) {
		p := tag.(*sessPkt)
		p.arrived = next()
		arrived = append(arrived, p)
		simrt.Log("arrive %d ssrc %d len %d bad=%v", p.tok, p.ssrc, len(p.raw), p.bad)
	}
	put := func(p *sessPkt) { conn.putTag(p.raw, p) }
	transient := 0
	if r.Faults {
		transient = pick(d, 0, 0, 5, 30)
	}
	// remote senders
	nStreams, many := d.Range(1, 4), d.Bool(1, 24)
	if many {
		nStreams = d.Log(5, 100)
		simrt.Probe("many-streams")
	}
	// SSRCs that have most of their bits in common
	shift, ssrc0 := pick(d, 0, 0, 31, 24, 16, 7), uint32(100)
	if d.Bool(1, 4) {
		ssrc0 = pick(d, uint32(0), 0xFFFFFFFF, 1<<31, 0x55555555)
	}
	ssrcOf := func(i int) uint32 {
		if shift == 31 && i > 1 {
			return ssrc0 ^ uint32(i-1)
		}
		return ssrc0 ^ uint32(i)<<shift
	}
	known := map[uint32]bool{}
	for i := 0; i < nStreams; i++ {
		known[ssrcOf(i)] = true
	}
	perStream := d.Log(1, 60)
	if many {
		perStream = d.Range(1, 6)
	}
	burst := d.Range(1, 30)
	gap := pick(d, 0, time.Millisecond, 20*time.Millisecond)
	tok := uint32(0)
	var senders []*simrt.Task
	for i := 0; i < nStreams; i++ {
		name := fmt.Sprintf("remote%d", i)
		s := w.Stream(name)
		ssrc := ssrcOf(i)
		senders = append(senders, w.Spawn(name, func() {
			sn := uint16(s.Int(65536))
			if s.Bool(1, 2) {
				simrt.SleepExact(s.Dur(0, 30*time.Millisecond))
			}
			for k := 0; k < perStream; k++ {
				if k%burst == burst-1 || s.Bool(1, 8) {
					simrt.SleepExact(s.Dur(0, gap))
				}
				tok++
				sn++
				p := &sessPkt{tok: tok, ssrc: ssrc}
				p.hdr = genHeader(s, ssrc, tok, sn)
				size := s.Log(0, 400)
				hs := p.hdr.MarshalSize()
				switch s.Weighted(12, 1, 1, 2) {
				case 1:
					size = mrtp.MTUSize - hs
					simrt.Probe("mtu-sized")
				case 2:
					size = mrtp.MTUSize - hs + s.Range(1, 600)
					p.bad = true
					simrt.Probe("oversized")
				}
				p.payload = genPayload(s, size)
				raw, err := (&rtp.Packet{Header: p.hdr, Payload: p.payload}).Marshal()
				if err != nil {
					panic(err)
				}
				if !p.bad && size > 0 && size < 1200 && s.Bool(1, 8) {
					// RTP padding
					pad := s.Range(1, 20)
					raw[0] |= 0x20
					for j := 1; j < pad; j++ {
						raw = append(raw, 0)
					}
					raw = append(raw, byte(pad))
					p.hdr.Padding = true
				}
				if r.Faults && s.Bool(1, 12) {
					switch s.Int(3) {
					case 0:
						raw = raw[:s.Int(min(len(raw), 12))]
					case 1:
						raw = genPayload(s, s.Int(40))
					case 2:
						raw[0] |= 0x0f // more contributing sources than there is room for
						raw = raw[:min(len(raw), 60)]
					}
				}
				p.raw = raw
				// what it means is decided by an independent parse
				var q rtp.Packet
				if err := q.Unmarshal(clone(raw)); err != nil {
					p.bad = true
					simrt.Probe("malformed")
				} else if !p.bad {
					p.hdr, p.payload, p.tok, p.ssrc = q.Header, q.Payload, q.Timestamp, q.SSRC
				}
				if len(raw) == 0 {
					p.bad = true
				}
				if !p.bad {
					if byTok[p.tok] != nil {
						continue // garbage that happens to name another packet
					}
					byTok[p.tok] = p
				}
				put(p)
				if transient > 0 && s.Bool(1, transient) {
					simrt.Fault("read-error")
					simrt.Probe("transient-read-error")
					conn.rerr = newErr("transient")
				}
			}
		}))
	}
	// local side
	var tasks []*simrt.Task
	streams := map[uint32]mrtp.ReadStream{}
	noReader := map[uint32]bool{}
	settled, closing := false, false
	closedRet := int64(0)
	var connFailed int64
	failErr := newErr("connection failed")
	reader := func(name string, s *simrt.Stream, rs mrtp.ReadStream, ssrc uint32) func() {
		slow := pick(s, 0, 0, 3*time.Millisecond, 20*time.Millisecond)
		bsz := pick(s, 1500, 1500, 1500, 1501, 3000, 60)
		fresh := s.Bool(1, 3)
		return func() {
			h, buf := new(rtp.Header), make([]byte, bsz)
			for {
				if slow > 0 && s.Bool(1, 3) && !settled {
					simrt.SleepExact(s.Dur(0, slow))
				}
				if fresh {
					h, buf = new(rtp.Header), make([]byte, bsz)
				}
				poison := byte(s.Int(256))
				for i := range buf {
					buf[i] = poison
				}
				ph := rtp.Header{Version: 1, Timestamp: 0xdeadbeef, SSRC: 0xdeadbeef, SequenceNumber: 0xdead}
				*h = ph
				if s.Bool(1, 4) {
					simrt.SleepExact(s.Dur(0, 200*time.Microsecond))
				}
				intact := func() bool {
					for i := range buf {
						if buf[i] != poison {
							return false
						}
					}
					return hdrEq(h, &ph)
				}
				if c15 && !intact() {
					r.Fail("late-write", "%s: its buffer or header was written to after its read had returned", name)
				}
				inv := next()
				lateRead := closedRet > 0
				n, err := rs.ReadRTP(h, buf)
				ret := next()
				if err != nil {
					simrt.Log("%s read -> %v", name, err)
					if !closing && connFailed == 0 {
						r.Fail("spurious-error", "ReadRTP failed with %v although the session is open", err)
					}
					if c15 && s.Bool(1, 2) {
						// the buffers now belong to the caller again
						for i := range buf {
							buf[i] = poison
						}
						*h = ph
						simrt.SleepExact(s.Dur(0, 2*time.Millisecond))
						if !intact() {
							r.Fail("late-write", "%s: its buffer or header was written to after its read had returned %v", name, err)
						}
					}
					return
				}
				_ = lateRead
				p := byTok[h.Timestamp]
				simrt.Log("%s read -> %d ssrc %d n %d", name, h.Timestamp, h.SSRC, n)
				check := func(when string) {
					if p == nil || p.arrived == 0 || p.arrived > ret {
						r.Fail("invented", "%s: read returned header %+v which was never received", name, *h)
					}
					if p.ssrc != ssrc {
						r.Fail("wrong-stream", "%s: stream %d returned a packet of stream %d", name, ssrc, p.ssrc)
					}
					if !hdrEq(h, &p.hdr) {
						r.Fail("header", "%s: packet %d %s has header %+v, received %+v", name, p.tok, when, *h, p.hdr)
					}
					if n != min(len(buf), len(p.payload)) || !eq(buf[:max(n, 0)], p.payload[:min(n, len(p.payload))]) {
						r.Fail("payload", "%s: packet %d %s has payload %s, received %s", name, p.tok, when, hex(buf[:max(n, 0)]), hex(p.payload))
					}
				}
				check("on return")
				if n < len(p2(p)) {
					simrt.Probe("short-buffer")
				}
				if p != nil {
					if p.ret > 0 {
						r.Fail("twice", "%s: packet %d was delivered twice", name, p.tok)
					}
					p.ret, p.inv = ret, inv
				}
				if s.Bool(1, 3) {
					simrt.SleepExact(s.Dur(0, 2*time.Millisecond))
				} else {
					simrt.Yield()
				}
				check("shortly after its read")
			}
		}
	}
	announced := map[uint32]int{}
	lateAccept := false
	for i := d.Range(1, 2); i > 0; i-- {
		name := fmt.Sprintf("accept%d", i)
		s := w.Stream(name)
		tasks = append(tasks, w.Spawn(name, func() {
			for {
				rs, ssrc, err := sess.AcceptStream()
				if err != nil {
					simrt.Log("%s -> %v", name, err)
					var se *simErr
					if errors.As(err, &se) && se != failErr {
						conn.rerr = nil
						if !closing {
							continue
						}
					}
					if !closing && connFailed == 0 {
						r.Fail("accept-error", "AcceptStream failed with %v although the session is open", err)
					}
					return
				}
				simrt.Log("%s -> stream %d", name, ssrc)
				if announced[ssrc]++; announced[ssrc] > 1 && c14 {
					r.Fail("announced-twice", "stream %d was announced %d times", ssrc, announced[ssrc])
				}
				streams[ssrc] = rs
				nr := s.Weighted(1, 6, 2)
				if !known[ssrc] {
					nr = 0
				}
				if nr == 0 {
					noReader[ssrc] = true
				}
				if nr == 2 {
					simrt.Probe("two-readers")
				}
				for k := 0; k < nr; k++ {
					rn := fmt.Sprintf("reader%d.%d", ssrc, k)
					tasks = append(tasks, w.Spawn(rn, reader(rn, w.Stream(rn), rs, ssrc)))
				}
				if s.Bool(1, 4) {
					simrt.SleepExact(s.Dur(0, 5*time.Millisecond))
				}
			}
		}))
	}
	// local writers
	type sent struct {
		raw []byte
		n   int
	}
	wire := map[string]int{}
	expect := map[string]int{}
	errNum := 0
	if r.Faults {
		errNum = pick(d, 0, 0, 4)
	}
	conn.onWrite = func(b []byte) (int, error) {
		wire[string(b)]++
		if errNum > 0 && r.F.Bool(1, errNum) {
			simrt.Fault("write-error")
			return 0, newErr("send failed %d", len(wire))
		}
		return len(b), nil
	}
	var writers []*simrt.Task
	wtok := uint32(1 << 30)
	for i := d.Int(4); i > 0; i-- {
		name := fmt.Sprintf("writer%d", i)
		s := w.Stream(name)
		writers = append(writers, w.Spawn(name, func() {
			ws, err := sess.OpenWriteStream()
			if err != nil {
				if !closing {
					r.Fail("open-write", "OpenWriteStream failed with %v", err)
				}
				return
			}
			for k := d.Int(20); k > 0; k-- {
				if s.Bool(1, 4) {
					simrt.SleepExact(s.Dur(0, 3*time.Millisecond))
				}
				wtok++
				h := genHeader(s, uint32(i), wtok, uint16(k))
				p := genPayload(s, s.Log(0, 300))
				raw, err := (&rtp.Packet{Header: h, Payload: p}).Marshal()
				if err != nil {
					panic(err)
				}
				was := wire[string(raw)]
				n, err := ws.WriteRTP(&h, p)
				if err != nil {
					if errNum == 0 && !closing && c14 {
						r.Fail("write-error", "WriteRTP failed with %v", err)
					}
					var se *simErr
					if errors.As(err, &se) || conn.closes > 0 {
						expect[string(raw)] = -1
					}
					continue
				}
				if c14 {
					if wire[string(raw)] != was+1 {
						r.Fail("write", "WriteRTP of packet %d produced %d datagrams of it", wtok, wire[string(raw)]-was)
					}
					if n != len(raw) {
						r.Fail("write-count", "WriteRTP of %d bytes returned %d", len(raw), n)
					}
				}
				expect[string(raw)] = 1
			}
		}))
	}
	checkWire := func() {
		if !c14 {
			return
		}
		total := 0
		for _, raw := range simrt.SortedKeys(wire) {
			n := wire[raw]
			if expect[raw] == 0 || n != 1 {
				r.Fail("write", "the connection got a datagram %s %d times that no caller wrote (%d expected)", hex([]byte(raw)), n, expect[raw])
			}
			total += n
		}
	}

	if c15 {
		// closing at an arbitrary moment
		span := time.Duration(d.Int(60)) * time.Millisecond
		if d.Bool(1, 4) {
			at := d.Dur(0, span+time.Millisecond)
			tasks = append(tasks, w.Spawn("breaker", func() {
				simrt.SleepExact(at)
				connFailed = next()
				simrt.Fault("conn-failed")
				simrt.Probe("conn-failed")
				conn.fail(failErr)
			}))
		}
		// or just after a packet was received
		var fmu simrt.Mutex
		fcond := simrt.NewCond(&fmu)
		fired := false
		fire := func() {
			fired = true
			fcond.Broadcast()
		}
		w.After(span, fire)
		onArrival := d.Bool(1, 2)
		if onArrival {
			k, dt, read := d.Log(0, nStreams*perStream), d.Dur(0, 40*time.Microsecond), conn.onRead
			lag := d.Dur(0, 200*time.Microsecond)
			conn.onRead = func(b []byte, tag any) {
				read(b, tag)
				if k--; k == 0 {
					w.After(dt, fire)
				}
			}
			if d.Bool(2, 3) {
				conn.got = func() {
					if k == 0 {
						k = -1
						simrt.SleepExact(lag) // the receiver gets the processor late
					}
				}
			}
		}
		var closers []*simrt.Task
		for i := d.Range(1, 3); i > 0; i-- {
			name := fmt.Sprintf("closer%d", i)
			s := w.Stream(name)
			closers = append(closers, w.Spawn(name, func() {
				if onArrival && s.Bool(2, 3) {
					fmu.Lock()
					for !fired {
						fcond.Wait()
					}
					fmu.Unlock()
				} else {
					simrt.SleepExact(s.Dur(0, span))
				}
				if len(conn.q) > 0 {
					simrt.Probe("closed-while-receiving")
				}
				closing = true
				for k := s.Weighted(0, 4, 1); k > 0; k-- {
					simrt.Log("close")
					err := sess.Close()
					simrt.Log("close -> %v", err)
					closedRet = next()
				}
			}))
		}
		simrt.SleepExact(span)
		for _, t := range closers {
			r.Finish(t, time.Second, time.Second, "close-hangs")
		}
		r.Calm()
		for _, t := range append(tasks, append(writers, senders...)...) {
			lim := 2*time.Second + w.InjectedSince(w.Now())
			if !t.Join(lim) {
				r.Fail("hangs", "%s still blocked in %q %s after the session was closed", t.Name, t.Where(), lim)
			}
		}
		// late calls
		late := w.Spawn("late", func() {
			for k := 0; k < 3; k++ {
				if _, _, err := sess.AcceptStream(); err == nil {
					r.Fail("accept-after-close", "AcceptStream succeeded after Close")
				}
				for i := 0; i < nStreams; i++ {
					rs := streams[ssrcOf(i)]
					if rs == nil {
						continue
					}
					errs := 0
					for j := 0; j < 400 && errs == 0; j++ {
						h, buf := new(rtp.Header), make([]byte, 1500)
						n, err := rs.ReadRTP(h, buf)
						if err != nil {
							errs++
							continue
						}
						p := byTok[h.Timestamp]
						if p == nil || p.arrived == 0 || p.ret > 0 || p.ssrc != ssrcOf(i) || !hdrEq(h, &p.hdr) || !eq(buf[:max(n, 0)], p.payload) {
							r.Fail("invented", "a read after Close returned %d bytes and header %+v, not a packet that was received before and is still to be read", n, *h)
						}
						p.ret = next()
					}
					r.Check(errs > 0, "read-after-close", "stream reads keep succeeding after Close")
				}
				if ws, err := sess.OpenWriteStream(); err == nil {
					ws.WriteRTP(&rtp.Header{Version: 2}, []byte{1})
				}
				sess.Close()
			}
		})
		r.Join(late, 2*time.Second, "late-call-hangs")
		_ = lateAccept
		r.Check(conn.closes == 1, "conn-close-count", "the connection was closed %d times", conn.closes)
		r.NoLive(time.Second, "leak")
		return
	}

	for _, t := range append(senders, writers...) {
		r.Finish(t, time.Second, time.Hour, "stuck")
	}
	r.Calm()
	settled = true
	conn.rerr = nil
	settle := func() {
		simrt.SleepExact(100*time.Millisecond + w.InjectedSince(w.Now()))
		if !simrt.Await(30*time.Second, func() bool { return len(conn.q) == 0 && conn.reading > 0 }) {
			r.Fail("blocked", "the session stopped reading: %d datagrams are waiting, nobody is in Read", len(conn.q))
		}
		simrt.SleepExact(2 * time.Second)
	}
	settle()
	for i := 0; i < nStreams; i++ {
		ssrc := ssrcOf(i)
		if noReader[ssrc] {
			simrt.Probe("late-reader")
			rn := fmt.Sprintf("latereader%d", ssrc)
			tasks = append(tasks, w.Spawn(rn, reader(rn, w.Stream(rn), streams[ssrc], ssrc)))
		}
	}
	settle()
	closing = true
	ct := w.Spawn("closer", func() { sess.Close() })
	r.Join(ct, 10*time.Second, "close-hangs")
	for _, t := range tasks {
		r.Join(t, 10*time.Second, "hangs")
	}
	// accounting
	per := map[uint32][]*sessPkt{}
	for _, p := range arrived {
		if p.bad {
			continue
		}
		per[p.ssrc] = append(per[p.ssrc], p)
	}
	for _, ssrc := range simrt.SortedKeys(per) {
		ps := per[ssrc]
		if announced[ssrc] != 1 {
			r.Fail("not-announced", "stream %d received packets but was announced %d times", ssrc, announced[ssrc])
		}
		if !known[ssrc] {
			continue // garbage that parsed; nobody reads it
		}
		for i, p := range ps {
			if p.ret == 0 {
				waiting := 0
				for _, q := range ps[:i] {
					if q.ret > p.arrived {
						waiting++
					}
				}
				simrt.Probe("overrun")
				if waiting < 10 {
					r.Fail("lost", "packet %d of stream %d was discarded with %d packets waiting unread", p.tok, ssrc, waiting)
				}
				continue
			}
			for _, q := range ps[:i] {
				// q arrived earlier: it must not be obtained by a read that
				// began after the read of p had returned
				if q.ret > 0 && p.ret < q.inv {
					r.Fail("order", "packet %d arrived before %d but was delivered after it", q.tok, p.tok)
				}
			}
		}
	}
	checkWire()
	r.Check(conn.closes == 1, "conn-close-count", "the connection was closed %d times", conn.closes)
}

func p2(p *sessPkt) []byte {
	if p == nil {
		return nil
	}
	return p.payload
}

var _ = binary.BigEndian
