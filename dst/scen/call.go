package scen

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/netip"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/gotranspile/g722"
	"github.com/pion/interceptor"
	"github.com/pion/rtp"
	psdp "github.com/pion/sdp/v3"

	"simw/simrt"
	msdk "simw/x/github.com/livekit/media-sdk"
	"simw/x/github.com/livekit/media-sdk/dtmf"
	"simw/x/github.com/livekit/media-sdk/g711"
	"simw/x/github.com/livekit/media-sdk/mixer"
	mrtp "simw/x/github.com/livekit/media-sdk/rtp"
	msdp "simw/x/github.com/livekit/media-sdk/sdp"
	msrtp "simw/x/github.com/livekit/media-sdk/srtp"
)

func init() {
	register(&Scen{Name: "call", Props: []string{"C26"}, Main: callMain,
		Real: []string{"sdp.NewOffer/ParseOffer/Answer/ParseAnswer/Apply", "rtp.ListenUDPPortRange", "rtp.NewSession", "srtp.NewSession", "rtp.SeqWriter and streams", "g711 and g722 codecs",
			"rtp.HandleLoop", "rtp.HandleJitter", "jitter.Buffer", "rtp.Mux", "dtmf.Write", "dtmf.DecodeRTP", "media.ResampleWriter", "mixer.Mixer", "github.com/pion/srtp/v3"},
		Stub: []string{"UDP stack and network", "signalling transport", "microphones and speakers", "key and number randomness", "scheduler"},
		Reached: []string{"plain", "encrypted", "refused", "PCMU", "PCMA", "G722", "dtmf", "mixer", "resampled", "hangup-a", "hangup-b", "crash", "early-media", "lossless", "late", "waited",
			"net-drop", "net-duplicate", "net-reorder", "net-corrupt", "net-forge", "forged-stream", "gap-skipped"}})
}

// callConn makes a datagram socket talk to one peer.
type callConn struct {
	*simrt.UDPConn
	remote netip.AddrPort
}

func (c *callConn) Read(b []byte) (int, error) {
	for {
		n, from, err := c.ReadFromUDPAddrPort(b)
		if err != nil || from == c.remote {
			return n, err
		}
	}
}
func (c *callConn) Write(b []byte) (int, error) { return c.WriteToUDPAddrPort(b, c.remote) }
func (c *callConn) RemoteAddr() net.Addr        { return net.UDPAddrFromAddrPort(c.remote) }

type callPkt struct {
	h       rtp.Header
	payload []byte
	arrived []time.Duration // at the receiver's socket
	read    time.Duration   // obtained by the receiver's loop
	given   bool            // left the jitter stage
	sentOK  bool
}

type callEnd struct {
	r       *R
	name    string
	sock    *simrt.UDPConn
	cfg     *msdp.MediaConfig
	peer    *callEnd
	net     *netFaults
	sess    mrtp.Session
	started time.Duration
	ctx     context.Context
	cancel  context.CancelFunc
	hung    bool
	hungAt  time.Duration
	sender  *simrt.Task
	// sender side
	pkts []*callPkt // by sequence number
	pcm  [][]int16  // frames of G.711 audio by number
	dig  []byte     // digits whose marker was sent
	genc *g722.Encoder
	// receiver side
	reads  []*callPkt
	last   int
	gdec   *g722.Decoder
	expect [][]int16 // what the decoder must deliver for the packets given to it
	nOut   int
	out    int
	got    []byte
	ev     map[uint32]bool
	loops  int
	mx     *mixer.Mixer
	mixOut [][]int16
	rec    *pcmRec
	frames [][]int16 // everything decoded
}

func (e *callEnd) hangup(why string) {
	if e.hung {
		return
	}
	e.hung = true
	e.hungAt = e.r.W.Now()
	simrt.Log("%s hangs up: %s", e.name, why)
	if e.cancel != nil {
		e.cancel()
	}
	if e.sess != nil {
		if err := e.sess.Close(); err != nil {
			simrt.Log("%s close: %v", e.name, err)
		}
	} else {
		_ = e.sock.Close()
	}
	if e.mx != nil {
		e.mx.Stop()
	}
}

// tap records what the sequence writer sends.
type callTap struct {
	e *callEnd
	w mrtp.WriteStream
}

func (t *callTap) String() string { return "tap" }
func (t *callTap) WriteRTP(h *rtp.Header, p []byte) (int, error) {
	e := t.e
	if int(h.SequenceNumber) == len(e.pkts)-1 && !e.pkts[len(e.pkts)-1].sentOK { // a failed number is used again
		e.pkts = e.pkts[:len(e.pkts)-1]
	}
	if int(h.SequenceNumber) != len(e.pkts) {
		e.r.Fail("numbering", "%s sends sequence number %d, expected %d", e.name, h.SequenceNumber, len(e.pkts))
	}
	c := &callPkt{h: h.Clone(), payload: clone(p)}
	e.pkts = append(e.pkts, c)
	switch h.PayloadType {
	case e.cfg.Audio.Type:
	case e.cfg.Audio.DTMFType:
		if h.Marker {
			e.dig = append(e.dig, p[0])
		}
	default:
		e.r.Fail("payload-type", "%s sends payload type %d, negotiated %d and %d", e.name, h.PayloadType, e.cfg.Audio.Type, e.cfg.Audio.DTMFType)
	}
	n, err := t.w.WriteRTP(h, p)
	c.sentOK = err == nil
	if err != nil && !e.hung {
		e.r.Fail("send-error", "%s: %v", e.name, err)
	}
	return n, err
}

type callReader struct {
	e  *callEnd
	rs mrtp.ReadStream
}

func (c *callReader) ReadRTP() (*rtp.Packet, interceptor.Attributes, error) {
	p := &rtp.Packet{}
	buf := make([]byte, 1500)
	n, err := c.rs.ReadRTP(&p.Header, buf)
	if err != nil {
		if !c.e.hung {
			c.e.r.Fail("read-error", "%s: %v while the call is up", c.e.name, err)
		}
		return nil, nil, err
	}
	p.Payload = buf[:n]
	e := c.e
	k := int(p.SequenceNumber)
	if k >= len(e.peer.pkts) {
		e.r.Fail("invented", "%s received packet %d that was not sent", e.name, k)
	}
	x := e.peer.pkts[k]
	simrt.Log("%s read #%d type %d", e.name, k, p.PayloadType)
	if len(x.arrived) == 0 {
		e.r.Fail("invented", "%s received packet %d that the network did not deliver", e.name, k)
	}
	if x.read == 0 {
		x.read = e.r.W.Now()
		e.reads = append(e.reads, x)
	}
	return p, nil, nil
}

// callStage sits between the jitter stage and the mux.
type callStage struct {
	e   *callEnd
	mux *mrtp.Mux
}

func (s *callStage) String() string { return "stage" }
func (s *callStage) Close()         { s.e.loops-- }
func (s *callStage) HandleRTP(h *rtp.Header, p []byte) error {
	e, r := s.e, s.e.r
	k := int(h.SequenceNumber)
	x := e.peer.pkts[k]
	simrt.Log("%s handle #%d type %d", e.name, k, h.PayloadType)
	if k <= e.last {
		r.Fail("order", "%s: packet %d handled after %d", e.name, k, e.last)
	}
	if k > e.last+1 {
		simrt.Probe("gap-skipped")
	}
	e.last = k
	x.given = true
	if h.PayloadType != x.h.PayloadType || h.Timestamp != x.h.Timestamp || h.Marker != x.h.Marker || h.SSRC != x.h.SSRC || !eq(p, x.payload) {
		r.Fail("altered", "%s: packet %d handled as %v %s, sent as %v %s", e.name, k, *h, hex(p), x.h, hex(x.payload))
	}
	if h.PayloadType == e.cfg.Audio.Type {
		var want []int16
		switch e.codec() {
		case "PCMU":
			want = make([]int16, len(p))
			g711.DecodeULawTo(want, p)
		case "PCMA":
			want = make([]int16, len(p))
			g711.DecodeALawTo(want, p)
		case "G722":
			want = make([]int16, 2*len(p))
			want = want[:e.gdec.Decode(want, p)]
		}
		e.expect = append(e.expect, want)
	}
	return s.mux.HandleRTP(h, p)
}

func (e *callEnd) codec() string {
	n, _, _ := strings.Cut(e.cfg.Audio.Codec.Info().SDPName, "/")
	return n
}

// callLaw makes a frame of samples that survive the codec unchanged; its first
// samples hold the frame's number.
func callLaw(s *simrt.Stream, codec string, num int) []int16 {
	b := make([]byte, 160)
	for i := range b {
		b[i] = byte(num >> (i % 2 * 4) & 0xf * 7)
	}
	for i := 8; i < len(b); i++ {
		b[i] = byte(num*31 + i*7)
	}
	b[0], b[1] = byte(num%120)+1, byte(num/120)+1
	if s.Bool(1, 4) {
		for i := 2; i < len(b); i++ {
			b[i] = byte(s.Int(256))
		}
	}
	out := make([]int16, len(b))
	if codec == "PCMU" {
		g711.DecodeULawTo(out, b)
	} else {
		g711.DecodeALawTo(out, b)
	}
	return out
}

func (e *callEnd) start(mix bool, rate int, withDTMF bool, digits string) {
	r, w := e.r, e.r.W
	if e.hung {
		return
	}
	if e.sock.AddrPort() != e.cfg.Local {
		r.Fail("negotiation", "%s: local address %s, socket on %s", e.name, e.cfg.Local, e.sock.AddrPort())
	}
	conn := &callConn{e.sock, e.cfg.Remote}
	if e.cfg.Crypto != nil {
		s, err := msrtp.NewSession(nopLog{}, conn, e.cfg.Crypto)
		if err != nil {
			r.Fail("session", "%v", err)
		}
		e.sess = s
	} else {
		e.sess = mrtp.NewSession(nopLog{}, conn)
	}
	e.started = w.Now()
	e.last = -1
	e.ev = map[uint32]bool{}
	e.ctx, e.cancel = simrt.WithCancel(context.Background())
	if e.codec() == "G722" {
		e.genc = g722.NewEncoder(g722.Rate64000, 0)
		e.gdec = g722.NewDecoder(g722.Rate64000, 0)
	}
	crate := e.cfg.Audio.Codec.Info().SampleRate
	if rate == 0 {
		rate = crate
	}
	same := rate == crate
	// speaker
	if mix {
		simrt.Probe("mixer")
		mx, err := mixer.NewMixer(&mixOut26{e, rate}, 20*time.Millisecond, 1)
		if err != nil {
			r.Fail("mixer", "%v", err)
		}
		e.mx = mx
	}
	var input msdk.PCM16Writer
	if e.mx != nil {
		input = e.mx.NewInput()
	}
	e.rec = &pcmRec{r: r, name: e.name + ".speaker", rate: rate}
	e.rec.onWrite = func(i int, s msdk.PCM16Sample) error {
		e.out += len(s)
		if same {
			if i >= len(e.expect) {
				r.Fail("audio", "%s: frame %d decoded but only %d audio packets were handled", e.name, i, len(e.expect))
			}
			if !eq([]int16(s), e.expect[i]) {
				r.Fail("audio", "%s: frame %d differs from what was sent: %v, want %v", e.name, i, s[:min(8, len(s))], e.expect[i][:8])
			}
			// the mixer clips to +-0x7FFF
			e.frames = append(e.frames, clone([]int16(s)))
			for k, v := range e.frames[len(e.frames)-1] {
				e.frames[len(e.frames)-1][k] = max(v, -0x7FFF)
			}
		}
		if input != nil {
			return input.WriteSample(s)
		}
		return nil
	}
	w.Spawn(e.name+".accept", func() {
		known := false
		for {
			rs, ssrc, err := e.sess.AcceptStream()
			if err != nil {
				if !e.hung {
					r.Fail("accept-error", "%s: %v while the call is up", e.name, err)
				}
				if !known && input != nil {
					_ = input.Close()
				}
				return
			}
			if len(e.peer.pkts) == 0 || e.peer.pkts[0].h.SSRC != ssrc {
				// the SRTP library announces a stream before it has verified its first packet
				if e.peer.net.flip+e.peer.net.forge == 0 {
					r.Fail("stream", "%s: stream %d announced, the peer did not send it", e.name, ssrc)
				}
				simrt.Probe("forged-stream")
				w.Spawn(e.name+".forged", func() {
					if n, err := rs.ReadRTP(&rtp.Header{}, make([]byte, 1500)); err == nil {
						r.Fail("invented", "%s received %d bytes on stream %d that the peer did not send", e.name, n, ssrc)
					}
				})
				continue
			}
			if known {
				r.Fail("stream", "%s: stream %d was announced twice", e.name, ssrc)
			}
			known = true
			mux := mrtp.NewMux(nil)
			mux.Register(e.cfg.Audio.Type, e.cfg.Audio.Codec.DecodeRTP(e.rec, e.cfg.Audio.Type))
			if e.cfg.Audio.DTMFType != 0 {
				mux.Register(e.cfg.Audio.DTMFType, mrtp.HandlerFunc(func(h *rtp.Header, p []byte) error {
					ev, ok := dtmf.DecodeRTP(h, p)
					if !ok {
						return nil
					}
					if e.ev[h.Timestamp] {
						r.Fail("digit-twice", "%s: digit %c decoded twice for timestamp %d", e.name, ev.Digit, h.Timestamp)
					}
					e.ev[h.Timestamp] = true
					e.got = append(e.got, ev.Code)
					simrt.Log("%s digit %c", e.name, ev.Digit)
					return nil
				}))
			}
			e.loops++
			w.Spawn(e.name+".loop", func() {
				err := mrtp.HandleLoop(&callReader{e, rs}, mrtp.HandleJitter(&callStage{e, mux}))
				simrt.Log("%s loop ended: %v", e.name, err)
				if e.loops != 0 {
					r.Fail("not-closed", "%s: the handler was not closed", e.name)
				}
				if input != nil {
					_ = input.Close()
				}
			})
		}
	})
	// microphone
	ws, err := e.sess.OpenWriteStream()
	if err != nil {
		if !e.hung {
			r.Fail("open-write", "%v", err)
		}
		return
	}
	seq := mrtp.NewSeqWriter(&callTap{e, ws})
	audio := seq.NewStream(e.cfg.Audio.Type, e.cfg.Audio.Codec.Info().RTPClockRate)
	enc := e.cfg.Audio.Codec.EncodeRTP(audio)
	if enc.SampleRate() != crate {
		r.Fail("sample-rate", "the encoder takes %d, want %d", enc.SampleRate(), crate)
	}
	s := w.Stream(e.name + ".mic")
	e.sender = w.Spawn(e.name+".mic", func() {
		t := simrt.NewTicker(20 * time.Millisecond)
		defer t.Stop()
		for k := 0; !e.hung && k < 10000; k++ {
			simrt.Recv(t.C)
			if s.Bool(1, 100) { // silence suppression
				n := s.Range(1, 10)
				simrt.SleepExact(time.Duration(n) * 20 * time.Millisecond)
				audio.DelayN(n)
			}
			var frame []int16
			var want []byte
			if c := e.codec(); c == "G722" {
				frame = make([]int16, 320)
				for i := range frame {
					frame[i] = int16((k*320+i)*37%8000 - 4000 + s.Int(3))
				}
				want = make([]byte, 160)
				want = want[:e.genc.Encode(want, frame)]
			} else {
				frame = callLaw(s, c, k)
				e.pcm = append(e.pcm, frame)
			}
			err := enc.WriteSample(clone(frame))
			if err != nil {
				if !e.hung {
					r.Fail("send-error", "%s: %v", e.name, err)
				}
				return
			}
			// find the packet of this frame
			for i := len(e.pkts) - 1; i >= 0; i-- {
				p := e.pkts[i]
				if p.h.PayloadType != e.cfg.Audio.Type {
					continue
				}
				switch e.codec() {
				case "G722":
					if !eq(p.payload, want) {
						r.Fail("encoding", "%s: frame %d was encoded as %s, want %s", e.name, k, hex(p.payload), hex(want))
					}
				case "PCMU", "PCMA":
					got := make([]int16, len(p.payload))
					if e.codec() == "PCMU" {
						g711.DecodeULawTo(got, p.payload)
					} else {
						g711.DecodeALawTo(got, p.payload)
					}
					if !eq(got, frame) {
						r.Fail("encoding", "%s: frame %d was sent as a different one", e.name, k)
					}
				}
				break
			}
		}
	})
	if withDTMF && e.cfg.Audio.DTMFType != 0 {
		simrt.Probe("dtmf")
		events := seq.NewStream(e.cfg.Audio.DTMFType, dtmf.SampleRate)
		w.Spawn(e.name+".keypad", func() {
			simrt.SleepExact(s.Dur(0, 500*time.Millisecond))
			err := dtmf.Write(e.ctx, nil, events, audio.GetCurrentTimestamp(), digits)
			simrt.Log("%s keypad: %v", e.name, err)
			if err != nil && !e.hung {
				r.Fail("keypad-error", "%v", err)
			}
		})
	}
}

type mixOut26 struct {
	e    *callEnd
	rate int
}

func (m *mixOut26) String() string  { return "mix" }
func (m *mixOut26) SampleRate() int { return m.rate }
func (m *mixOut26) WriteSample(s msdk.PCM16Sample) error {
	if len(s) != m.rate/50 {
		m.e.r.Fail("mixer-size", "%s: mixed frame of %d samples", m.e.name, len(s))
	}
	m.e.mixOut = append(m.e.mixOut, clone([]int16(s)))
	return nil
}

func callMain(r *R) {
	d, w := r.D, r.W
	w.Cfg.MaxSteps = 4_000_000
	if w.Cfg.PauseMean > 0 { // the machine is slow at times, but not too slow for two calls
		w.Cfg.PauseMean = pick(r.C, 2000, 10000)
	}
	addrs := []netip.Addr{netip.MustParseAddr("10.0.0.1"), netip.MustParseAddr("192.168.7.2")}
	encs := []msdp.Encryption{msdp.EncryptionNone, msdp.EncryptionAllow, msdp.EncryptionRequire}
	a := &callEnd{r: r, name: "a"}
	b := &callEnd{r: r, name: "b"}
	a.peer, b.peer = b, a
	encA, encB := encs[d.Weighted(2, 2, 1)], encs[d.Weighted(2, 2, 1)]
	lossless := !r.Faults || d.Bool(1, 4)
	if lossless {
		simrt.Probe("lossless")
	}
	secure := encA != msdp.EncryptionNone && encB != msdp.EncryptionNone
	refuse := encA == msdp.EncryptionRequire && encB == msdp.EncryptionNone || encB == msdp.EncryptionRequire && encA == msdp.EncryptionNone
	for i, e := range []*callEnd{a, b} {
		lo := pick(d, 10000, 20000, 50000)
		sock, err := mrtp.ListenUDPPortRange(lo, lo+d.Int(20), addrs[i])
		if err != nil {
			r.Fail("listen", "%v", err)
		}
		e.sock = sock
		e.net = drawNet(r, d, lossless)
		if secure && !lossless {
			e.net.flip = pick(d, 0, 0, 10)
			e.net.truncat = pick(d, 0, 0, 10)
			e.net.forge = pick(d, 0, 0, 10)
		}
	}
	w.Net.OnSend = func(from, to netip.AddrPort, data []byte, deliver func(time.Duration, []byte)) {
		e := a
		if from == b.sock.AddrPort() {
			e = b
		} else if from != a.sock.AddrPort() {
			r.Fail("address", "a datagram comes from %s", from)
		}
		if to != e.peer.sock.AddrPort() {
			r.Fail("address", "%s sends to %s, the peer listens on %s", e.name, to, e.peer.sock.AddrPort())
		}
		if len(data) < 12 {
			r.Fail("datagram", "%s sends %s", e.name, hex(data))
		}
		seq := int(data[2])<<8 | int(data[3])
		if seq >= len(e.pkts) {
			r.Fail("datagram", "%s sends sequence number %d", e.name, seq)
		}
		p := e.pkts[seq]
		if e.cfg.Crypto != nil && (len(data) < 12+len(p.payload)+4 || len(p.payload) >= 8 && eq(data[12:12+len(p.payload)], p.payload)) {
			r.Fail("plaintext", "%s sends packet %d in the clear on an encrypted call", e.name, seq)
		}
		orig := clone(data)
		e.net.send(data, func(x []byte) {
			if eq(x, orig) && !e.peer.sock.IsClosed() {
				p.arrived = append(p.arrived, w.Now())
			}
			deliver(0, x)
		})
	}
	// negotiation
	wire := func(desc *psdp.SessionDescription) []byte {
		raw, err := desc.Marshal()
		if err != nil {
			r.Fail("marshal", "%v", err)
		}
		simrt.SleepExact(d.Dur(0, 50*time.Millisecond))
		return raw
	}
	offer, err := msdp.NewOffer(addrs[0], int(a.sock.AddrPort().Port()), encA)
	if err != nil {
		r.Fail("offer", "%v", err)
	}
	want := pick(d, "", "PCMU", "PCMA", "G722")
	noDTMF := d.Bool(1, 8)
	md := offer.SDP.MediaDescriptions[0]
	keep := map[byte]bool{}
	var formats []string
	for _, c := range offer.Codecs {
		n, _, _ := strings.Cut(c.Codec.Info().SDPName, "/")
		if n == "telephone-event" && noDTMF || n != "telephone-event" && want != "" && n != want {
			continue
		}
		keep[c.Type] = true
		formats = append(formats, strconv.Itoa(int(c.Type)))
	}
	md.MediaName.Formats = formats
	attrs := md.Attributes[:0:0]
	for _, x := range md.Attributes {
		if x.Key == "rtpmap" || x.Key == "fmtp" {
			n, _, _ := strings.Cut(x.Value, " ")
			if t, _ := strconv.Atoi(n); !keep[byte(t)] {
				continue
			}
		}
		attrs = append(attrs, x)
	}
	md.Attributes = attrs
	rawOffer := wire(&offer.SDP)
	off2, err := msdp.ParseOffer(rawOffer)
	if err != nil {
		r.Fail("parse-offer", "%v\n%s", err, rawOffer)
	}
	ans, cfgB, err := off2.Answer(addrs[1], int(b.sock.AddrPort().Port()), encB)
	var cfgA *msdp.MediaConfig
	early := d.Bool(1, 2)
	mix, rate := d.Bool(1, 3), pick(d, 0, 0, 0, 48000, 16000)
	if rate != 0 {
		simrt.Probe("resampled")
	}
	begin := func(e *callEnd) {
		digits := ""
		for k := d.Int(4); k >= 0; k-- {
			digits += pick(d, "1", "5", "#", "*", "0", "9", "w", "D")
		}
		e.start(mix, rate, d.Bool(1, 2), digits)
	}
	if err == nil {
		b.cfg = cfgB
		if early {
			simrt.Probe("early-media")
			a.cfg = &msdp.MediaConfig{} // not known yet
			begin(b)
		}
		rawAns := wire(&ans.SDP)
		var ans2 *msdp.Answer
		if ans2, err = msdp.ParseAnswer(rawAns); err != nil {
			r.Fail("parse-answer", "%v\n%s", err, rawAns)
		}
		cfgA, err = ans2.Apply(offer, encA)
	}
	if err != nil {
		if !refuse || !errors.Is(err, msdp.ErrNoCommonCrypto) {
			r.Fail("negotiation", "offer with policy %d answered with policy %d: %v", encA, encB, err)
		}
		simrt.Probe("refused")
		a.hangup("refused")
		b.hangup("refused")
		r.Calm()
		r.NoLive(2*time.Second+w.InjectedSince(w.Now()), "leak")
		return
	}
	if refuse {
		r.Fail("negotiation", "policies %d and %d agreed", encA, encB)
	}
	a.cfg = cfgA
	if (cfgA.Crypto != nil) != secure || (cfgB.Crypto != nil) != secure {
		r.Fail("negotiation", "policies %d and %d: encrypted %v and %v", encA, encB, cfgA.Crypto != nil, cfgB.Crypto != nil)
	}
	if cfgA.Audio.Codec != cfgB.Audio.Codec || cfgA.Audio.Type != cfgB.Audio.Type || cfgA.Audio.DTMFType != cfgB.Audio.DTMFType || noDTMF != (cfgA.Audio.DTMFType == 0) {
		r.Fail("negotiation", "the ends disagree: %+v and %+v", cfgA.Audio, cfgB.Audio)
	}
	if want != "" && a.codec() != want {
		r.Fail("negotiation", "%s offered, %s chosen", want, a.codec())
	}
	simrt.Probe(a.codec())
	if secure {
		simrt.Probe("encrypted")
	} else {
		simrt.Probe("plain")
	}
	if !early {
		begin(b)
	}
	begin(a)
	if d.Bool(1, 8) && w.Cfg.StallMean == 0 {
		// both ends quiet down towards the end: everything must have arrived
		defer simrt.Log("quiet end")
	}
	// the call
	dur := d.Dur(0, time.Duration(pick(d, 500, 1500, 3000))*time.Millisecond)
	simrt.SleepExact(dur)
	first, second := a, b
	if d.Bool(1, 2) {
		first, second = b, a
	}
	simrt.Probe("hangup-" + first.name)
	crash := r.Faults && d.Bool(1, 6)
	ht := w.Spawn("hangup", func() {
		if crash {
			simrt.Probe("crash")
			simrt.Fault("crash")
			first.net.drop = 1 // nothing gets out any more
			first.net.calm = false
			simrt.SleepExact(d.Dur(0, 2*time.Second))
			second.hangup("timeout")
			first.hangup("restart")
			return
		}
		first.hangup("user")
		simrt.SleepExact(d.Dur(0, 100*time.Millisecond))
		second.hangup("peer")
	})
	r.Finish(ht, 10*time.Second, 10*time.Second, "hangup-stuck")
	r.Calm()
	r.NoLive(2*time.Second+w.InjectedSince(w.Now()), "leak")
	for _, e := range []*callEnd{a, b} {
		if e.sender != nil {
			r.Join(e.sender, 2*time.Second, "sender-stuck")
		}
	}
	simrt.Await(2*time.Second, func() bool { return a.loops == 0 && b.loops == 0 })
	if n := len(w.Net.Socks); n != 0 {
		r.Fail("socket-open", "%d sockets are open after both ends hung up", n)
	}
	for _, e := range []*callEnd{a, b} {
		callJudge(r, e, same26(rate, e), mix)
	}
}

func same26(rate int, e *callEnd) bool {
	return rate == 0 || rate == e.cfg.Audio.Codec.Info().SampleRate
}

// callJudge looks at what one end received.
func callJudge(r *R, e *callEnd, same, mix bool) {
	w := r.W
	p := e.peer
	// network to reader
	var arr []*callPkt
	for _, x := range p.pkts {
		if len(x.arrived) > 0 {
			arr = append(arr, x)
		}
	}
	for k, x := range p.pkts {
		if len(x.arrived) == 0 || x.read != 0 {
			continue
		}
		t := x.arrived[0]
		if t < e.started+20*time.Millisecond || t > e.hungAt-20*time.Millisecond-w.InjectedIn(t, e.hungAt) || w.InjectedIn(t-700*time.Millisecond, t+700*time.Millisecond) > 0 {
			continue
		}
		alone := 0
		for _, y := range arr {
			for _, u := range y.arrived {
				if u > t-5*time.Millisecond && u < t+5*time.Millisecond {
					alone++
				}
			}
		}
		if alone <= 8 {
			r.Fail("lost-in-session", "%s: packet %d arrived %s before the hang-up and was never read", e.name, k, e.hungAt-t)
		}
	}
	// reader to handler
	slack := r.slack() + slackOf(len(e.reads), w)
	for i, x := range e.reads {
		if x.given {
			continue
		}
		late, waits := false, x.read
		for j, y := range e.reads {
			if y.h.SequenceNumber > x.h.SequenceNumber && j < i && (j == 0 || x.read+w.InjectedIn(y.read, w.Now())+slack >= y.read+stageLatency || before(e.reads[0], x)) {
				late = true
			}
			if y.h.SequenceNumber < x.h.SequenceNumber {
				waits = max(waits, y.read)
			}
		}
		if late {
			simrt.Probe("late")
			continue
		}
		if e.hungAt-waits > stageLatency+slack+w.InjectedIn(x.read, e.hungAt) {
			r.Fail("lost-in-buffer", "%s: packet %d was read %s before the hang-up and not delivered", e.name, x.h.SequenceNumber, e.hungAt-x.read)
		}
		simrt.Probe("waited")
	}
	// audio
	if same && len(e.rec.frames) != len(e.expect) {
		r.Fail("audio-count", "%s: %d audio packets handled, %d frames decoded", e.name, len(e.expect), len(e.rec.frames))
	}
	if !same {
		in := 0
		for _, x := range e.expect {
			in += len(x)
		}
		rat := float64(e.rec.rate) / float64(e.cfg.Audio.Codec.Info().SampleRate)
		if hi := float64(in)*rat + 2; float64(e.out) > hi || float64(e.out) < hi-float64(e.rec.rate)/8 {
			r.Fail("audio-count", "%s: %d samples decoded, %d after resampling", e.name, in, e.out)
		}
	}
	if same && mix {
		// the mixed stream is made of the decoded frames, in order
		next := 0
		for i, m := range e.mixOut {
			if zero(m) {
				continue
			}
			for next < len(e.frames) && !reflect.DeepEqual(e.frames[next], m) {
				next++
			}
			if next == len(e.frames) {
				r.Fail("mix", "%s: mixed frame %d is none of the decoded ones, or out of order", e.name, i)
			}
			next++
		}
	}
	// digits
	var want []byte
	for _, x := range p.pkts {
		if x.given && x.h.PayloadType == e.cfg.Audio.DTMFType && x.h.Marker && e.cfg.Audio.DTMFType != 0 {
			want = append(want, x.payload[0])
		}
	}
	if !eq(e.got, want) {
		r.Fail("digits", "%s: digits %v decoded, packets of %v arrived", e.name, e.got, want)
	}
	k := 0
	for _, g := range e.got {
		for k < len(p.dig) && p.dig[k] != g {
			k++
		}
		if k == len(p.dig) {
			r.Fail("digits", "%s: digits %v decoded, %v sent", e.name, e.got, p.dig)
		}
		k++
	}
}

func before(a, b *callPkt) bool { return b.h.SequenceNumber < a.h.SequenceNumber }

func zero(m []int16) bool {
	for _, v := range m {
		if v != 0 {
			return false
		}
	}
	return true
}

var _ = io.EOF
var _ = fmt.Sprint
