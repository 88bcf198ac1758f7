package scen

import (
	"bytes"
	"fmt"
	"time"

	"github.com/pion/rtp"

	"simw/simrt"
	mrtp "simw/x/github.com/livekit/media-sdk/rtp"
	msrtp "simw/x/github.com/livekit/media-sdk/srtp"
)

func init() {
	register(&Scen{Name: "srtp", Props: []string{"C16"}, Main: srtpMain,
		Real: []string{"srtp.NewSession, its read and write streams", "srtp.DefaultProfiles", "github.com/pion/srtp/v3", "github.com/pion/transport/v3/packetio"},
		Stub: []string{"datagram sockets and the network between them", "accept, read and write callers", "key randomness", "scheduler"},
		Reached: []string{"lossless", "wrap", "closed-mid-call", "close-without-accept", "mki", "rejected", "write-after-close", "extensions", "padding",
			"net-drop", "net-duplicate", "net-reorder", "net-corrupt", "net-truncate", "net-forge"}})
}

type srtpPkt struct {
	tok       uint32
	ssrc      uint32
	hdr       rtp.Header
	payload   []byte
	pad       []byte
	delivered int
	sent      bool
	failed    bool
}

type srtpEnd struct {
	name     string
	conn     *dconn
	sess     mrtp.Session
	prof     msrtp.Profile
	peer     *srtpEnd
	net      *netFaults
	pkts     map[uint32]*srtpPkt
	order    []*srtpPkt
	accepted map[uint32]int
	closed   bool
	closedBy time.Duration
	tasks    []*simrt.Task
	streams  []mrtp.ReadStream
	cur      map[string]*srtpPkt
}

func srtpMain(r *R) {
	d, w := r.D, r.W
	lossless := d.Bool(1, 3)
	a, b := &srtpEnd{name: "a"}, &srtpEnd{name: "b"}
	a.peer, b.peer = b, a
	ps := func() []msrtp.Profile {
		p, err := msrtp.DefaultProfiles()
		if err != nil || len(p) == 0 {
			r.Fail("profiles", "DefaultProfiles: %d profiles, %v", len(p), err)
		}
		return p
	}
	pa, pb := ps(), ps()
	k := d.Int(min(len(pa), len(pb)))
	a.prof, b.prof = pa[k], pb[k]
	if bytes.Equal(a.prof.Key, b.prof.Key) || bytes.Equal(a.prof.Salt, b.prof.Salt) {
		r.Fail("profiles", "two sets of default profiles share keys")
	}
	for i := range pa {
		for j := range pa[:i] {
			if bytes.Equal(pa[i].Key, pa[j].Key) {
				r.Fail("profiles", "two default profiles share a key")
			}
		}
	}
	pp, err := a.prof.Profile.Parse()
	if err != nil {
		r.Fail("profiles", "%v", err)
	}
	var mki []byte
	if d.Bool(1, 5) {
		mki = []byte{1, 2, 3, 4}
		simrt.Probe("mki")
	}
	var tok uint32
	clean := lossless
	for _, e := range []*srtpEnd{a, b} {
		e.conn = newDconn(r, e.name)
		e.net = drawNet(r, d, clean)
		if !clean && r.Faults {
			e.net.flip = pick(d, 0, 0, 10, 3)
			e.net.truncat = pick(d, 0, 0, 10)
			e.net.forge = pick(d, 0, 0, 10)
		}
		e.pkts = map[uint32]*srtpPkt{}
		e.accepted = map[uint32]int{}
		e.cur = map[string]*srtpPkt{}
	}
	noAccept := !lossless && d.Bool(1, 6)
	for _, e := range []*srtpEnd{a, b} {
		conf := &msrtp.Config{Profile: pp, Keys: msrtp.SessionKeys{
			LocalMasterKey: e.prof.Key, LocalMasterSalt: e.prof.Salt,
			RemoteMasterKey: e.peer.prof.Key, RemoteMasterSalt: e.peer.prof.Salt,
		}}
		if mki != nil {
			conf.LocalOptions = []msrtp.ContextOption{msrtp.MasterKeyIndicator(mki)}
			conf.RemoteOptions = []msrtp.ContextOption{msrtp.MasterKeyIndicator(mki)}
		}
		s, err := msrtp.NewSession(nopLog{}, e.conn, conf)
		if err != nil {
			r.Fail("new-session", "%v", err)
		}
		e.sess = s
		slow := time.Duration(0)
		if r.Faults {
			slow = pick(d, 0, 0, time.Millisecond, 20*time.Millisecond)
		}
		e.conn.onWrite = func(raw []byte) (int, error) {
			p := e.cur[simrt.CurName()]
			if p == nil {
				r.Fail("stray-datagram", "%s sent a datagram outside a write", e.name)
			}
			plain, err := p.hdr.Marshal()
			if err != nil {
				panic(err)
			}
			plain = append(append(plain, p.payload...), p.pad...)
			if bytes.Equal(plain, raw) || (len(p.payload) >= 8 && bytes.Contains(raw, p.payload)) {
				r.Fail("plaintext", "%s sent packet %d in the clear", e.name, p.tok)
			}
			p.sent = true
			if slow > 0 && r.F.Bool(1, 4) {
				simrt.Fault("slow-send")
				simrt.SleepExact(r.F.Dur(0, slow))
			}
			e.net.send(raw, e.peer.conn.put)
			return len(raw), nil
		}
	}
	// tasks
	stop := false
	reader := func(e *srtpEnd, name string, s *simrt.Stream, rs mrtp.ReadStream, ssrc uint32) func() {
		bsz := pick(s, 1500, 1500, 2000)
		return func() {
			h, buf := new(rtp.Header), make([]byte, bsz)
			for {
				if s.Bool(1, 6) && !stop {
					simrt.SleepExact(s.Dur(0, 3*time.Millisecond))
				}
				if s.Bool(1, 3) {
					h, buf = new(rtp.Header), make([]byte, bsz)
				}
				n, err := rs.ReadRTP(h, buf)
				if err != nil {
					simrt.Log("%s read -> %v", name, err)
					if !e.closed {
						r.Fail("read-error", "%s: read failed with %v although the session is open", name, err)
					}
					return
				}
				simrt.Log("%s read -> %d n %d", name, h.Timestamp, n)
				p := e.peer.pkts[h.Timestamp]
				check := func(when string) {
					if p == nil || !p.sent {
						r.Fail("not-authentic", "%s %s returned a packet %+v %s the peer never wrote", name, when, *h, hex(buf[:n]))
					}
					if p.ssrc != ssrc {
						r.Fail("wrong-stream", "%s returned a packet of stream %d", name, p.ssrc)
					}
					if !hdrEq(h, &p.hdr) {
						r.Fail("header", "%s: packet %d %s has header %+v, sent %+v", name, p.tok, when, *h, p.hdr)
					}
					if !eq(buf[:n], p.payload) {
						r.Fail("payload", "%s: packet %d %s has payload %s, sent %s", name, p.tok, when, hex(buf[:n]), hex(p.payload))
					}
				}
				check("on return")
				if p.delivered++; p.delivered > 1 {
					r.Fail("twice", "%s: packet %d was delivered twice", name, p.tok)
				}
				if s.Bool(1, 3) {
					simrt.SleepExact(s.Dur(0, time.Millisecond))
					check("shortly after its read")
				}
			}
		}
	}
	var writers []*simrt.Task
	nSSRC := d.Range(1, 3)
	per := d.Log(1, 40)
	gap := pick(d, 0, 200*time.Microsecond, 5*time.Millisecond)
	for _, e := range []*srtpEnd{a, b} {
		for i := d.Range(1, 2); i > 0 && !noAccept; i-- {
			name := fmt.Sprintf("%s.accept%d", e.name, i)
			s := w.Stream(name)
			e.tasks = append(e.tasks, w.Spawn(name, func() {
				for {
					rs, ssrc, err := e.sess.AcceptStream()
					if err != nil {
						simrt.Log("%s -> %v", name, err)
						if !e.closed {
							r.Fail("accept-error", "AcceptStream failed with %v although the session is open", err)
						}
						return
					}
					simrt.Log("%s -> %d", name, ssrc)
					if e.accepted[ssrc]++; e.accepted[ssrc] > 1 {
						r.Fail("announced-twice", "%s: stream %d was announced twice", e.name, ssrc)
					}
					e.streams = append(e.streams, rs)
					for k := s.Weighted(0, 6, 1); k > 0; k-- {
						rn := fmt.Sprintf("%s.reader%d.%d", e.name, ssrc, k)
						e.tasks = append(e.tasks, w.Spawn(rn, reader(e, rn, w.Stream(rn), rs, ssrc)))
					}
				}
			}))
		}
		for i := 0; i < nSSRC; i++ {
			if e == b && d.Bool(1, 2) {
				continue
			}
			ssrc := uint32(1000 + i)
			if e == b {
				ssrc += 100
			}
			name := fmt.Sprintf("%s.writer%d", e.name, i)
			s := w.Stream(name)
			writers = append(writers, w.Spawn(name, func() {
				me := simrt.CurName()
				ws, err := e.sess.OpenWriteStream()
				if err != nil {
					if !e.closed {
						r.Fail("open-write", "%v", err)
					}
					return
				}
				sn := uint16(s.Int(65536))
				if s.Bool(1, 2) {
					sn = uint16(65536 - s.Range(1, 20))
				}
				for k := 0; k < per; k++ {
					if s.Bool(1, 3) {
						simrt.SleepExact(s.Dur(0, gap))
					}
					tok++
					sn++
					if sn == 0 && k > 0 {
						simrt.Probe("wrap")
					}
					p := &srtpPkt{tok: tok, ssrc: ssrc, hdr: genHeader(s, ssrc, tok, sn), payload: genPayload(s, s.Log(0, 1200))}
					if p.hdr.Extension && len(p.payload) == 0 {
						p.payload = []byte{1} // pion/rtp does not parse an extension that ends the packet
					}
					if s.Bool(1, 6) {
						simrt.Probe("padding")
						p.hdr.Padding = true
						p.pad = make([]byte, s.Range(1, 40))
						p.pad[len(p.pad)-1] = byte(len(p.pad))
					}
					e.pkts[tok] = p
					e.order = append(e.order, p)
					e.cur[me] = p
					h, pl := p.hdr.Clone(), append(clone(p.payload), p.pad...)
					n, err := ws.WriteRTP(&h, pl)
					delete(e.cur, me)
					simrt.Log("%s write %d -> %d %v", name, p.tok, n, err)
					if err != nil {
						if !e.closed {
							r.Fail("write-error", "WriteRTP failed with %v although the session is open", err)
						}
						p.failed = true
						simrt.Probe("write-after-close")
						return
					}
					if !p.sent {
						r.Fail("not-sent", "WriteRTP succeeded but no datagram was sent")
					}
					if !hdrEq(&h, &p.hdr) || !eq(pl, append(clone(p.payload), p.pad...)) {
						r.Fail("arguments-changed", "WriteRTP changed its arguments")
					}
				}
			}))
		}
	}
	span := time.Duration(d.Int(100)) * time.Millisecond
	if lossless {
		simrt.Probe("lossless")
		for _, t := range writers {
			r.Finish(t, 2*time.Second, time.Hour, "stuck")
		}
		r.Calm()
		stop = true
		simrt.SleepExact(2*time.Second + w.InjectedSince(w.Now()))
		for _, e := range []*srtpEnd{a, b} {
			for _, p := range e.order {
				if p.sent && p.delivered != 1 {
					r.Fail("lost", "packet %d (ssrc %d seq %d) was delivered %d times over a network without faults", p.tok, p.ssrc, p.hdr.SequenceNumber, p.delivered)
				}
			}
		}
	} else {
		simrt.SleepExact(span)
	}
	var closers []*simrt.Task
	for _, e := range []*srtpEnd{a, b} {
		for i := d.Range(1, 2); i > 0; i-- {
			name := fmt.Sprintf("%s.closer%d", e.name, i)
			s := w.Stream(name)
			closers = append(closers, w.Spawn(name, func() {
				simrt.SleepExact(s.Dur(0, 20*time.Millisecond))
				if noAccept {
					simrt.Probe("close-without-accept")
				} else if !lossless {
					simrt.Probe("closed-mid-call")
				}
				e.closed = true
				simrt.Log("close %s", e.name)
				err := e.sess.Close()
				simrt.Log("close %s -> %v", e.name, err)
			}))
		}
	}
	for _, t := range closers {
		r.Finish(t, 2*time.Second, 2*time.Second, "close-hangs")
	}
	r.Calm()
	for _, t := range append(append(clone(a.tasks), b.tasks...), writers...) {
		lim := 2*time.Second + w.InjectedSince(w.Now())
		if !t.Join(lim) {
			r.Fail("hangs", "%s still blocked in %q %s after the session was closed", t.Name, t.Where(), lim)
		}
	}
	late := w.Spawn("late", func() {
		for _, e := range []*srtpEnd{a, b} {
			if _, _, err := e.sess.AcceptStream(); err == nil {
				r.Fail("accept-after-close", "AcceptStream succeeded after Close")
			}
			for _, rs := range e.streams {
				for n := 0; ; n++ {
					if _, err := rs.ReadRTP(new(rtp.Header), make([]byte, 1500)); err != nil {
						break
					}
					if n > 2000 {
						r.Fail("read-after-close", "reads keep succeeding after Close")
					}
				}
			}
			e.sess.Close()
		}
	})
	r.Join(late, 2*time.Second, "late-call-hangs")
	for _, e := range []*srtpEnd{a, b} {
		if e.conn.closes == 0 {
			r.Fail("conn-open", "the connection of %s was not closed", e.name)
		}
		for _, p := range e.order {
			if p.sent && p.delivered == 0 {
				simrt.Probe("rejected")
			}
		}
	}
	r.NoLive(2*time.Second, "leak")
}
