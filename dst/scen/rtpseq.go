package scen

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"time"

	"github.com/pion/rtp"

	"simw/simrt"
	mrtp "simw/x/github.com/livekit/media-sdk/rtp"
)

func init() {
	register(&Scen{Name: "rtpseq", Props: []string{"C07", "C08"}, Main: seqMain,
		Real:    []string{"rtp.SeqWriter", "rtp.Stream", "rtp.MediaStreamOut"},
		Stub:    []string{"underlying RTP writer (slow, failing)", "callers", "scheduler"},
		Reached: []string{"write-failed", "sn-wrap", "ts-wrap", "jump", "followup", "reset", "contended"}})
}

type seqCall struct {
	id      int
	st      *seqStream
	typ     byte
	marker  bool
	payload []byte
	ts      uint32 // WriteEvent only
	event   bool
	inc     bool
	seen    int
	errSeen error
	mlo     uint32
	mset    bool
	inv     int
}

type seqStream struct {
	s         *mrtp.Stream
	typ       byte
	dur       uint32
	ts        uint32
	followup  bool
	ver       int // counts changes of ts
	shared    bool
	inflight  int
	delayRef  uint32
	delaying  bool
	resetting bool
}

type seqRef struct {
	ref  uint32
	done int
}

type seqRun struct {
	r       *R
	seq     *mrtp.SeqWriter
	calls   []*seqCall
	active  map[int]*seqCall
	in      int
	sn      uint16
	ssrc    uint32
	npk     int
	errNum  int
	slow    time.Duration
	streams []*seqStream
	clock   int
	m       uint32
	mset    bool
	refs    []seqRef
	total   int
	maxErrs int
}

func (q *seqRun) tick() int { q.clock++; return q.clock }

func (q *seqRun) String() string { return "seqOut" }

// WriteRTP is the underlying writer.
func (q *seqRun) WriteRTP(h *rtp.Header, payload []byte) (int, error) {
	r := q.r
	q.in++
	if q.in > 1 && r.On("C07") {
		r.Fail("interleaved", "underlying writer called by two tasks at once with the same header")
	}
	hc, pc := *h, clone(payload)
	simrt.Log("rtp sn=%d ts=%d pt=%d m=%v %x", hc.SequenceNumber, hc.Timestamp, hc.PayloadType, hc.Marker, pc)
	if q.slow > 0 && r.F.Bool(1, 4) {
		simrt.SleepExact(r.F.Dur(0, q.slow))
	} else {
		simrt.Yield()
	}
	if len(payload) < 4 {
		r.Fail("unknown-packet", "packet with payload %x was written by nobody", payload)
	}
	id := int(binary.BigEndian.Uint32(payload))
	c := q.active[id]
	if c == nil {
		r.Fail("unknown-packet", "packet with payload %x belongs to no call in progress", payload)
	}
	var err error
	if q.errNum > 0 && r.F.Bool(1, q.errNum) {
		simrt.Fault("rtp-write-error")
		simrt.Probe("write-failed")
		err = newErr("rtp write failed for call %d", id)
		c.errSeen = err
	}
	if r.On("C07") {
		if !reflect.DeepEqual(hc, *h) || !bytes.Equal(pc, payload) {
			r.Fail("changed-in-flight", "header or payload changed during the write: %+v -> %+v", hc, *h)
		}
		if q.npk == 0 {
			q.ssrc = hc.SSRC
		}
		q.npk++
		want := rtp.Header{Version: 2, SSRC: q.ssrc, SequenceNumber: q.sn, PayloadType: c.typ, Marker: c.marker, Timestamp: hc.Timestamp}
		if c.event {
			want.Timestamp = c.ts
		}
		if !reflect.DeepEqual(hc, want) {
			r.Fail("header", "packet of call %d has header %+v, want %+v", id, hc, want)
		}
		if !bytes.Equal(pc, c.payload) {
			r.Fail("payload", "packet of call %d has payload %x, want %x", id, pc, c.payload)
		}
		if c.seen++; c.seen > 1 {
			r.Fail("twice", "call %d produced %d packets", id, c.seen)
		}
	}
	if q.sn == 65535 && err == nil {
		simrt.Probe("sn-wrap")
	}
	if err == nil {
		q.sn++
	}
	if r.On("C08") && c.st != nil {
		q.observe(c, hc.Timestamp, err)
	}
	q.in--
	if err != nil {
		return 0, err
	}
	return len(payload), nil
}

// after reports whether timestamp a is ahead of b (modulo 2^32).
func after(a, b uint32) bool { return int32(a-b) > 0 }

func (q *seqRun) raise(ts uint32) {
	if !q.mset || after(ts, q.m) {
		q.m, q.mset = ts, true
	}
}

// judge checks the timestamp that came out for reference ref.
func (q *seqRun) judge(st *seqStream, what string, ref, got uint32, mlo uint32, mset bool, inv int) {
	r := q.r
	lim := ref + 25*st.dur
	// the shared maximums that may have been seen
	if got == ref && (!mset || !after(mlo, lim)) {
		q.refs = append(q.refs, seqRef{ref, q.tick()})
		q.raise(ref)
		return
	}
	ok := false
	var cand []uint32
	if mset {
		cand = append(cand, mlo)
	}
	for _, x := range q.refs {
		if x.done >= inv {
			cand = append(cand, x.ref)
		}
	}
	for _, s := range q.streams {
		if s != st && s.inflight > 0 && !s.followup {
			cand = append(cand, s.ts)
		}
		if s != st && s.delaying {
			cand = append(cand, s.delayRef)
		}
	}
	for _, x := range cand {
		if x == got && after(x, lim) && (!mset || !after(mlo, x)) {
			ok = true
		}
	}
	if !ok {
		r.Fail("timestamp", "%s: timestamp %d, but the stream was at %d (frame %d) and the furthest stream at %d (set=%v)", what, got, ref, st.dur, mlo, mset)
	}
	simrt.Probe("jump")
	q.raise(got)
}

func (q *seqRun) observe(c *seqCall, got uint32, err error) {
	st, r := c.st, q.r
	if st.followup {
		simrt.Probe("followup")
		if got != st.ts {
			r.Fail("followup", "packet at the current time has timestamp %d, the first one had %d", got, st.ts)
		}
	} else {
		if st.shared && c.mset && q.mset {
			// the call may have waited for another one of the same stream;
			// the maximum it saw is still at least that of its start
		}
		q.judge(st, fmt.Sprintf("call %d", c.id), st.ts, got, c.mlo, c.mset, c.inv)
		st.ts = got
		st.ver++
	}
	if err != nil {
		return
	}
	st.ver++
	if c.inc {
		if st.ts+st.dur < st.ts {
			simrt.Probe("ts-wrap")
		}
		st.ts += st.dur
		st.followup = false
	} else {
		st.followup = true
	}
}

func (q *seqRun) write(st *seqStream, d *simrt.Stream) {
	id := len(q.calls) + 1
	n := d.Int(12)
	p := make([]byte, 4+n)
	binary.BigEndian.PutUint32(p, uint32(id))
	for i := 0; i < n; i++ {
		p[4+i] = byte(id + i)
	}
	c := &seqCall{id: id, st: st, payload: clone(p), inv: q.tick(), mlo: q.m, mset: q.mset}
	q.calls = append(q.calls, c)
	q.active[id] = c
	var err error
	kind := d.Weighted(6, 3, 2, 1)
	if st == nil {
		kind = 3
	}
	if st != nil && st.shared {
		kind = 0
	}
	if kind == 3 && q.r.On("C08") {
		kind = 0
	}
	if kind != 3 {
		c.typ = st.typ
		st.inflight++
		if q.in > 0 || st.inflight > 1 {
			simrt.Probe("contended")
		}
	}
	c.marker = d.Bool(1, 2)
	switch kind {
	case 0:
		c.inc = true
		err = st.s.WritePayload(p, c.marker)
	case 1:
		err = st.s.WritePayloadAtCurrent(p, c.marker)
	case 2:
		c.inc, c.marker = true, false
		err = mrtp.NewMediaStreamOut[bframe](st.s, 8000).WriteSample(bframe(p))
	case 3:
		c.typ, c.event, c.ts, c.st = byte(d.Int(128)), true, d.U32(), nil
		err = q.seq.WriteEvent(&mrtp.Event{Type: c.typ, Timestamp: c.ts, Payload: p, Marker: c.marker})
	}
	if kind != 3 {
		st.inflight--
	}
	delete(q.active, id)
	if q.r.On("C07") {
		q.r.Check(c.seen == 1, "not-written", "call %d returned %v after %d packets", id, err, c.seen)
		q.r.Check(err == c.errSeen, "error", "call %d returned %v, the underlying writer said %v", id, err, c.errSeen)
	}
	for i := range p {
		p[i] = 0xEE // the caller may reuse its buffer
	}
	if st != nil && !st.shared && q.r.On("C08") {
		if g := st.s.GetCurrentTimestamp(); g != st.ts {
			q.r.Fail("current-timestamp", "GetCurrentTimestamp is %d after call %d, want %d", g, id, st.ts)
		}
	}
}

type bframe []byte

func (b bframe) Size() int                      { return len(b) }
func (b bframe) CopyTo(dst []byte) (int, error) { return copy(dst, b), nil }

func seqMain(r *R) {
	d, w := r.D, r.W
	q := &seqRun{r: r, active: map[int]*seqCall{}}
	if r.Faults {
		q.errNum = pick(d, 0, 3, 10, 40)
		q.slow = pick(d, 0, time.Millisecond, 30*time.Millisecond)
	}
	q.seq = mrtp.NewSeqWriter(q)
	n := d.Range(1, 3)
	base := pick(d, uint32(0), 0xFFFFF000, 0x7FFFF000, 0xFFFFFFF0, 1)
	if r.On("C08") && base != 0 && d.Bool(1, 2) {
		base += uint32(d.Int(8000))
	}
	for i := 0; i < n; i++ {
		st := &seqStream{typ: byte(d.Int(128)), dur: uint32(pick(d, 160, 960, 1, 20))}
		if d.Bool(1, 3) {
			rate := pick(d, 8000, 48000, 16000, 44100, 22050, 90000)
			st.s = q.seq.NewStream(st.typ, rate)
			st.dur = uint32(rate / 50)
		} else {
			st.s = q.seq.NewStreamWithDur(st.typ, st.dur)
		}
		if base != 0 {
			st.ts = base + uint32(d.Int(3))*st.dur
			st.s.ResetTimestamp(st.ts)
		}
		q.streams = append(q.streams, st)
	}
	steps := d.Log(3, 60)
	long := r.On("C07") && d.Bool(1, 400)
	var tasks []*simrt.Task
	task := func(name string, f func(d *simrt.Stream)) {
		s := w.Stream(name)
		tasks = append(tasks, w.Spawn(name, func() { f(s) }))
	}
	if long {
		// across the wrap of the sequence number
		q.errNum, q.slow = 0, 0
		w.Cfg.MaxSteps = 10_000_000
		simrt.Atomically(func() {
			for i := 0; i < 65530; i++ {
				c := &seqCall{id: 1, typ: 1, payload: []byte{0, 0, 0, 1}, event: true}
				q.active[1] = c
				q.seq.WriteEvent(&mrtp.Event{Type: 1, Payload: c.payload})
			}
			delete(q.active, 1)
		})
		q.calls = append(q.calls, nil)
	}
	for i, st := range q.streams {
		callers := 1
		if d.Bool(1, 3) {
			callers = d.Range(2, 3)
			st.shared = true
		}
		for k := 0; k < callers; k++ {
			task(fmt.Sprintf("caller%d.%d", i, k), func(d *simrt.Stream) {
				for s := 0; s < steps; s++ {
					if d.Bool(1, 4) {
						simrt.SleepExact(d.Dur(0, 50*time.Millisecond))
					}
					if st.shared || r.On("C07") || d.Bool(5, 6) {
						q.write(st, d)
						continue
					}
					q.advance(st, d)
				}
			})
		}
	}
	if r.On("C07") && d.Bool(1, 3) {
		task("events", func(d *simrt.Stream) {
			for s := 0; s < steps; s++ {
				q.write(nil, d)
			}
		})
	}
	if !long && d.Bool(1, 3) {
		simrt.Probe("clock-task")
		task("clock", func(d *simrt.Stream) {
			for s := 0; s < steps; s++ {
				if d.Bool(1, 2) {
					simrt.SleepExact(d.Dur(0, 20*time.Millisecond))
				}
				st := pick(d, q.streams...)
				if r.On("C08") {
					ver, ts := st.ver, st.ts
					g := st.s.GetCurrentTimestamp()
					if ver == st.ver && g != ts && !st.delaying && !st.resetting {
						r.Fail("current-timestamp", "GetCurrentTimestamp is %d with no write in progress, want %d", g, ts)
					}
					continue
				}
				switch d.Weighted(3, 2, 1) {
				case 0:
					st.s.GetCurrentTimestamp()
				case 1:
					st.s.DelayN(d.Int(30))
				case 2:
					st.s.ResetTimestamp(d.U32())
				}
			}
		})
	}
	for _, t := range tasks {
		if !t.Join(time.Hour) {
			r.Fail("stuck", "%s blocked in %q", t.Name, t.Where())
		}
	}
}

// advance: an explicit delay or reset.
func (q *seqRun) advance(st *seqStream, d *simrt.Stream) {
	r := q.r
	if d.Bool(1, 6) {
		simrt.Probe("reset")
		ref := st.ts
		if q.mset {
			ref = q.m
		}
		ts := ref + uint32(d.Int(80))*st.dur - 40*st.dur
		simrt.Log("reset to %d", ts)
		st.resetting = true
		st.s.ResetTimestamp(ts)
		st.resetting = false
		st.ts, st.followup = ts, false
		st.ver++
		if g := st.s.GetCurrentTimestamp(); g != ts {
			r.Fail("reset", "timestamp %d after a reset to %d", g, ts)
		}
		return
	}
	frames := pick(d, 1, 0, 2, 24, 25, 26, 27, 60, 1, 0, 2, 70000)
	dt := uint32(frames) * st.dur
	if d.Bool(1, 4) {
		dt += uint32(d.Int(int(st.dur)))
		frames = -1
	}
	mlo, mset, inv := q.m, q.mset, q.tick()
	st.delayRef, st.delaying = st.ts+dt, true
	if frames >= 0 && d.Bool(1, 2) {
		st.s.DelayN(frames)
	} else {
		st.s.Delay(dt)
	}
	got := st.s.GetCurrentTimestamp()
	simrt.Log("delay %d -> %d", dt, got)
	q.judge(st, "delay", st.delayRef, got, mlo, mset, inv)
	st.delaying = false
	st.ts, st.followup = got, false
	st.ver++
}
