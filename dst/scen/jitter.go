package scen

import (
	"bytes"
	"fmt"
	"reflect"
	"time"

	"github.com/pion/rtp"

	"simw/simrt"
	"simw/x/github.com/livekit/media-sdk/jitter"
)

func init() {
	register(&Scen{Name: "jitter", Props: []string{"C01", "C02", "C03"}, Main: jitterMain,
		Real:    []string{"jitter.Buffer", "protocol/utils/mono", "frostbyte73/core fuse", "pion/rtp packets"},
		Stub:    []string{"network (delay, loss, duplication, reordering)", "depacketizer", "clock, timers, scheduler"},
		Reached: []string{"reordered", "lost", "duplicated", "late", "expired-sample", "flush", "wrap", "jump-back", "batch", "long-samples"}})
}

type jDepack struct{}

func (jDepack) Unmarshal(p []byte) ([]byte, error) { return p, nil }
func (jDepack) IsPartitionHead(p []byte) bool      { return len(p) == 0 || p[0]&1 != 0 }
func (jDepack) IsPartitionTail(m bool, p []byte) bool {
	return len(p) == 0 || p[0]&2 != 0
}

// jpkt is one packet the sender made.
type jpkt struct {
	idx    int // position in the stream (unwrapped sequence number)
	sample int
	first  int // index range of its sample
	last   int
	pad    bool
	sn     uint16
	data   []byte
}

// jlat is a period during which a latency was in force.
type jlat struct{ l, from, to time.Duration }

// jpush is one call of Push.
type jpush struct {
	p          *jpkt
	pkt        *rtp.Packet
	start, end time.Duration
	recv       time.Duration // when it was received
	given      bool          // the receive time was passed with it
	busy       time.Duration
	delivered  bool
	lastDel    int // last delivered index when the push started
}

type jitterRun struct {
	r        *R
	b        *jitter.Buffer
	pkts     []*jpkt
	pushes   []*jpush
	byPtr    map[*rtp.Packet]*jpush
	byIdx    map[int][]*jpush
	queue    []*rtpItem
	lat      time.Duration
	lats     []jlat
	latMin   time.Duration
	latMax   time.Duration
	lastDel  int // last delivered index, -1 before the first
	firstDel int
	newDel   int // first delivered index after the jump
	firstAt  time.Duration
	delAt    map[int]time.Duration
	inCb     int
	samples  int
	nDel     int
	flushing int
	flushed  bool
	jumps    bool
	restart  int  // index of the first packet after the jump
	overlap  bool // packets of the old stream may come after some of the new one
	multi    bool
	padding  bool
	cbLost   uint64
	cbDrop   uint64
	nCb      int
	pushing  int
	prevSt   jitter.BufferStats
}

type rtpItem struct {
	p    *jpkt
	dup  bool
	at   time.Duration
	when time.Time
}

func jitterMain(r *R) {
	d, w := r.D, r.W
	j := &jitterRun{r: r, byPtr: map[*rtp.Packet]*jpush{}, byIdx: map[int][]*jpush{}, lastDel: -1, firstDel: -1, newDel: -1, restart: 1 << 40, delAt: map[int]time.Duration{}}
	j.lat = pick(d, 20*time.Millisecond, 5*time.Millisecond, 60*time.Millisecond, 200*time.Millisecond)
	j.latMin, j.latMax = j.lat, j.lat
	j.lats = []jlat{{l: j.lat, to: 1 << 62}}
	n := d.Log(1, 150)
	maxRun := pick(d, 1, 1, 2, 4)
	if d.Bool(1, 16) { // video: many packets to a sample
		maxRun = pick(d, 12, 40, 90)
		n = d.Log(1, 12)
		simrt.Probe("long-samples")
	}
	j.multi = maxRun > 1
	padNum := pick(d, 0, 0, 1)
	j.padding = padNum > 0
	start := uint16(pick(d, 1000, 0, 65535, 65530, 32765, 40000, 65500))
	if d.Bool(1, 3) {
		start = uint16(d.Int(65536))
	}
	j.jumps = d.Bool(1, 8)
	j.overlap = j.jumps && d.Bool(1, 3)
	// the stream
	sn, idx, jumped := start, 0, 0
	for s := 0; s < n; s++ {
		k := 1
		if maxRun > 1 {
			k = d.Range(1, maxRun)
		}
		first := idx
		for i := 0; i < k; i++ {
			fl := byte(0)
			if i == 0 {
				fl |= 1
			}
			if i == k-1 {
				fl |= 2
			}
			data := []byte{fl, byte(s), byte(s >> 8), byte(idx), byte(idx >> 8)}
			j.pkts = append(j.pkts, &jpkt{idx: idx, sample: s, first: first, last: first + k - 1, sn: sn, data: data})
			if sn == 65535 {
				simrt.Probe("wrap")
			}
			sn++
			idx++
		}
		if padNum > 0 && d.Bool(1, 6) {
			j.pkts = append(j.pkts, &jpkt{idx: idx, sample: -1, first: idx, last: idx, sn: sn, pad: true})
			sn++
			idx++
		}
		if j.jumps && jumped == 0 && d.Bool(1, 25) {
			g := d.Range(3001, 62000)
			if g > 32768 {
				simrt.Probe("jump-back")
			}
			jumped += g
			sn += uint16(g)
			idx += g
			j.restart = idx
		}
	}
	opts := []jitter.Option{jitter.WithPacketLossHandler(j.onLoss)}
	j.b = jitter.NewBuffer(jDepack{}, j.lat, j.onSample, opts...)

	// the network: arrival times
	interval := d.Dur(0, 20*time.Millisecond)
	perSample := d.Bool(1, 2) // packets of a sample leave together
	jit := time.Duration(0)
	loss, dup, farNum := 0, 0, 0
	jit = d.Dur(0, 2*j.lat)
	if r.Faults {
		loss = pick(d, 0, 2, 10, 30)
		dup = pick(d, 0, 0, 5, 25)
		farNum = pick(d, 0, 0, 5)
	}
	reorderNum := pick(d, 0, 10, 40, 100)
	pauses := d.Bool(1, 3)
	t := w.Now()
	tight, jump := j.jumps && r.Faults && d.Bool(1, 2), 1<<30
	for k, p := range j.pkts {
		if p.idx >= j.restart {
			jump = k
			break
		}
	}
	for k, p := range j.pkts {
		if k > 0 && p.idx-j.pkts[k-1].idx > 1000 && !j.overlap {
			// a restarted stream does not overlap the old one, but packets of the old one may still be waiting
			t += jit + d.Dur(0, pick(d, 2*j.lat, j.lat/2))
			if farNum > 0 {
				t += 6 * j.lat
			}
		}
		if !perSample || p.idx == p.first {
			t += interval
		}
		if pauses && d.Bool(1, 20) {
			t += d.Dur(0, 400*time.Millisecond)
		}
		copies := 1
		// What was skipped is only well defined when a restart begins with a first packet.
		steady := p.idx == j.restart && r.On("C03") && !j.overlap
		if steady {
			t += 6 * 200 * time.Millisecond
		} else if loss > 0 && r.F.Bool(loss, 100) || tight && k >= jump-4 && k < jump+4 && r.F.Bool(1, 4) {
			simrt.Fault("packet-lost")
			copies = 0
		}
		if dup > 0 && r.F.Bool(dup, 100) {
			simrt.Fault("packet-duplicated")
			copies += 1 + r.F.Int(2)
		}
		for c := 0; c < copies; c++ {
			at := t
			if r.F.Bool(reorderNum, 100) && !steady {
				at += r.F.Dur(0, jit)
				if farNum > 0 && r.F.Bool(farNum, 100) {
					simrt.Fault("packet-delayed-past-latency")
					at += r.F.Dur(j.lat/2, 6*j.lat)
				}
			}
			if tight && !steady && k >= jump && k < jump+4 {
				at += r.F.Dur(0, 4*time.Millisecond)
			}
			it := &rtpItem{p: p, dup: c > 0}
			w.At(at, func() {
				it.when = simrt.TimeNow()
				it.at = simrt.MonoOf(it.when)
				j.queue = append(j.queue, it)
			})
		}
	}
	end := t + jit + pick(d, 8*j.lat, j.lat, 0)

	np := pick(d, 1, 1, 2, 3)
	if j.jumps {
		np = 1
	}
	var tasks []*simrt.Task
	batch := pick(d, 0, 0, 3, 8)
	if j.overlap {
		batch = 0 // which packets were buffered when a copy arrived must be known
	}
	for k := 0; k < np; k++ {
		tasks = append(tasks, w.Spawn(fmt.Sprintf("pusher%d", k), func() {
			for {
				if len(j.queue) == 0 {
					if w.Now() > end {
						return
					}
					simrt.SleepExact(200 * time.Microsecond)
					continue
				}
				k := 1
				if batch > 0 {
					k = min(len(j.queue), 1+d.Int(batch))
				}
				its := clone(j.queue[:k])
				j.queue = j.queue[k:]
				j.push(its...)
			}
		}))
	}
	stop := false
	if nOps := d.Int(6); nOps > 0 {
		tasks = append(tasks, w.Spawn("control", func() {
			for i := 0; i < nOps && !stop; i++ {
				simrt.SleepExact(d.Dur(0, (end-w.Now())/2+time.Millisecond))
				switch d.Weighted(3, 2, 2) {
				case 0:
					j.pollStats()
				case 1:
					simrt.Probe("flush")
					j.flush()
				case 2:
					l := pick(d, 20*time.Millisecond, 5*time.Millisecond, 60*time.Millisecond, 200*time.Millisecond)
					j.updateLatency(l)
				}
			}
		}))
	}
	for _, t := range tasks {
		r.Join(t, 10*time.Minute, "stuck")
	}
	j.quiescent()
	if d.Bool(1, 4) {
		j.flush()
		j.quiescent()
	}
	if j.b.Size() > 0 && d.Bool(1, 2) {
		j.updateLatency(pick(d, 5*time.Millisecond, 20*time.Millisecond, 60*time.Millisecond, 200*time.Millisecond))
	}
	// faults stop: the buffer drains by itself within the latency
	r.Calm()
	simrt.SleepExact(time.Duration(len(j.pushes)+1) * 500 * w.Cfg.StepCost) // processor time to hand out what is due
	simrt.SleepExact(j.lat + r.slack() + w.InjectedSince(w.Now()))
	if sz := j.b.Size(); r.On("C02") && sz != 0 {
		r.Fail("not-drained", "%d packets still buffered %s after the last push (latency %s)", sz, j.lat+r.slack(), j.lat)
	}
	j.quiescent()
	j.history()
	if d.Bool(1, 2) {
		j.flush()
		j.quiescent()
	}
	j.b.Close()
	if r.On("C02") {
		r.NoLive(time.Second, "leak-after-close")
	}
}

func (j *jitterRun) updateLatency(l time.Duration) {
	j.latMin, j.latMax = min(j.latMin, l), max(j.latMax, l)
	simrt.Log("update latency %s", l)
	j.lats[len(j.lats)-1].to = j.r.W.Now()
	j.lat = l
	j.b.UpdateLatency(l)
	j.lats = append(j.lats, jlat{l: l, from: j.r.W.Now(), to: 1 << 62})
}

// due is when something that has waited since t must be out: the first
// moment at which it has waited for the latency in force, give or take.
func (j *jitterRun) due(t time.Duration) time.Duration {
	for _, x := range j.lats {
		at := max(t+x.l, x.from)
		if x.to == 1<<62 {
			return at
		}
		if lim := at + j.r.slack() + j.r.W.Busy(); lim < x.to && j.r.W.InjectedIn(t, lim) == 0 {
			return at
		}
	}
	return t + j.latMax
}

func (j *jitterRun) header(p *jpkt) rtp.Header {
	h := rtp.Header{Version: 2, SequenceNumber: p.sn, Timestamp: uint32(p.sample) * 960, SSRC: 7, Marker: p.idx == p.last, PayloadType: 96, Padding: p.pad, CSRC: []uint32{uint32(p.idx)}}
	if p.idx%3 == 0 {
		h.Extension, h.ExtensionProfile = true, 0xBEDE
		_ = h.SetExtension(1, []byte{byte(p.idx)})
	}
	return h
}

// find returns the push of a packet that comes out. A copy is as good as the packet itself.
func (j *jitterRun) find(x *rtp.Packet) *jpush {
	if e := j.byPtr[x]; e != nil {
		return e
	}
	for k := len(j.pushes) - 1; k >= 0; k-- {
		if e := j.pushes[k]; e.p.sn == x.SequenceNumber && bytes.Equal(e.p.data, x.Payload) && !e.p.pad {
			return e
		}
	}
	return nil
}

func (j *jitterRun) push(its ...*rtpItem) {
	var es []*jpush
	var ext []jitter.ExtPacket
	how := j.r.D.Int(4)
	if len(its) > 1 {
		how = 2
		simrt.Probe("batch")
	}
	for _, it := range its {
		p := it.p
		pkt := &rtp.Packet{Header: j.header(p)}
		if p.pad {
			pkt.PaddingSize = 8
		} else {
			pkt.Payload = clone(p.data)
		}
		e := &jpush{p: p, pkt: pkt, start: j.r.W.Now(), recv: it.at, given: how != 0, busy: j.r.W.Busy(), lastDel: j.lastDel, end: -1}
		if how == 0 {
			e.recv = e.start
		}
		j.byPtr[pkt] = e
		if it.dup {
			simrt.Probe("duplicated")
		}
		if p.idx <= j.lastDel {
			simrt.Probe("late")
		}
		if len(j.pushes) > 0 && j.pushes[len(j.pushes)-1].p.idx > p.idx {
			simrt.Probe("reordered")
		}
		j.pushes = append(j.pushes, e)
		j.byIdx[p.idx] = append(j.byIdx[p.idx], e)
		simrt.Log("push #%d sn=%d sample=%d pad=%v", p.idx, p.sn, p.sample, p.pad)
		es = append(es, e)
		ext = append(ext, jitter.ExtPacket{ReceivedAt: it.when, Packet: pkt})
	}
	j.pushing++
	switch how {
	case 0:
		j.b.Push(es[0].pkt)
	case 1:
		j.b.PushExtPacket(ext[0])
	case 2:
		j.b.PushExtPacketBatch(ext)
	case 3:
		j.b.PushAt(es[0].pkt, ext[0].ReceivedAt)
	}
	j.pushing--
	for _, e := range es {
		e.end = j.r.W.Now()
	}
	if j.r.On("C02") {
		for _, e := range es {
			j.afterPush(e)
		}
	}
}

// afterPush: a complete sample that directly follows the last delivered one
// is out when the push that completed it returns.
func (j *jitterRun) afterPush(e *jpush) {
	p := e.p
	if p.pad || j.flushed || j.overlap || j.delAt[p.first] != 0 || j.lastDel != p.first-1 || j.firstDel < 0 {
		return
	}
	now := j.r.W.Now()
	for i := p.first; i <= p.last; i++ {
		es := j.byIdx[i]
		if len(es) == 0 {
			return
		}
		// the first copy must have arrived after everything before it was
		// out or be young enough not to have expired
		x := es[0]
		if x.end < 0 || now-x.recv >= j.latMin {
			return
		}
	}
	for _, x := range j.pushes {
		if x.p.idx >= p.first && now-x.recv >= j.latMin {
			return // something at or behind it had waited out the latency
		}
	}
	j.b.Size() // waits for whoever holds the buffer
	if j.delAt[p.first] != 0 || j.lastDel != p.first-1 {
		return
	}
	j.r.Fail("complete-sample-held", "sample #%d..#%d is complete and directly follows the last delivered packet #%d but was not delivered by the push that completed it", p.first, p.last, j.lastDel)
}

func (j *jitterRun) onSample(ps []jitter.ExtPacket) {
	r := j.r
	j.inCb++
	if j.inCb > 1 && r.On("C01") {
		r.Fail("concurrent-handler", "handler called while another call was in progress")
	}
	defer func() { j.inCb-- }()
	now := r.W.Now()
	j.samples++
	var txt string
	for _, x := range ps {
		if e := j.find(x.Packet); e != nil {
			txt += fmt.Sprintf(" #%d", e.p.idx)
		}
	}
	simrt.Log("sample%s", txt)
	if len(ps) == 0 {
		if r.On("C01") {
			r.Fail("empty-sample", "handler called without packets")
		}
		return
	}
	prev := j.lastDel
	var first, last *jpush
	for i, x := range ps {
		e := j.find(x.Packet)
		if e == nil {
			if r.On("C01") {
				r.Fail("unknown-packet", "handler got a packet that was never pushed")
			}
			return
		}
		if i == 0 {
			first = e
		}
		last = e
		if r.On("C01") {
			if e.p.pad {
				r.Fail("padding-delivered", "padding packet #%d delivered", e.p.idx)
			}
			if e.delivered {
				r.Fail("duplicate", "packet #%d delivered twice", e.p.idx)
			}
			// What was delivered of a stream is forgotten when another one begins,
			// but not what is still buffered.
			if t, ok := j.delAt[e.p.idx]; ok && (!j.overlap || e.end >= 0 && t > e.end) {
				r.Fail("duplicate", "sequence number %d (#%d) delivered again (first at %s)", e.p.sn, e.p.idx, t-time.Hour)
			}
			// A straggler of the other stream that is discarded, not delivered, is a change of stream as well.
			same := i > 0 || !j.multi && !j.padding && (e.p.idx < j.restart) == (prev < j.restart)
			if e.p.idx <= prev && (!j.overlap || same) {
				r.Fail("order", "packet #%d delivered after #%d", e.p.idx, prev)
			}
			if h := j.header(e.p); !reflect.DeepEqual(x.Packet.Header, h) || !bytes.Equal(x.Packet.Payload, e.p.data) {
				r.Fail("altered", "packet #%d altered: %+v %x, pushed %+v %x", e.p.idx, x.Packet.Header, x.Packet.Payload, h, e.p.data)
			}
			if t := simrt.MonoOf(x.ReceivedAt); t < e.recv || t > now || e.given && t != e.recv {
				r.Fail("receive-time", "packet #%d: receive time %s off its push", e.p.idx, t-e.recv)
			}
		}
		prev = e.p.idx
		e.delivered = true
		j.delAt[e.p.idx] = now
		j.nDel++
	}
	if r.On("C01") {
		p := first.p
		if p.idx != p.first || len(ps) != p.last-p.first+1 || last.p.idx != p.last {
			r.Fail("not-whole", "delivered%s, but the sample is #%d..#%d", txt, p.first, p.last)
		}
		for i, x := range ps {
			if e := j.find(x.Packet); e.p.idx != p.first+i {
				r.Fail("not-whole", "delivered%s, but the sample is #%d..#%d", txt, p.first, p.last)
			}
		}
	}
	if j.firstDel < 0 {
		j.firstDel = first.p.idx
		j.firstAt = now
	}
	if first.p.idx >= j.restart && j.newDel < 0 {
		j.newDel = first.p.idx
	}
	gap := first.p.idx > 0 && j.lastDel >= 0 && (first.p.idx < j.restart || j.lastDel >= j.restart) && j.lastDel != first.p.idx-1 && len(j.byIdx[first.p.idx-1]) == 0
	if gap {
		simrt.Probe("lost")
		if now-first.recv >= j.latMin {
			simrt.Probe("expired-sample")
		}
	}
	if r.On("C02") && !j.flushed && !j.overlap {
		// not early: behind a gap nothing moves before the latency has passed
		if gap && now < first.recv+j.latMin {
			r.Fail("early", "sample #%d delivered %s after its first packet although #%d is missing (latency %s)", first.p.idx, now-first.recv, first.p.idx-1, j.latMin)
		}
		// not late: everything up to here has been owed since the newest
		// arrival at or before it plus the latency
		newest, busy := time.Duration(0), time.Duration(0)
		for _, e := range j.pushes {
			if e.p.idx <= last.p.idx && e.start > newest {
				newest, busy = e.start, e.busy
			}
		}
		busy = r.W.Busy() - busy
		if due := j.due(newest) + r.slack() + busy; now > due && now > due+r.W.InjectedSince(newest) {
			r.Fail("held-too-long", "sample #%d..#%d delivered %s after the newest packet at or before it arrived, %s late (latency %s, injected delays %s)", first.p.idx, last.p.idx, now-newest, now-due, j.lat, r.W.InjectedSince(newest))
		}
	}
	j.lastDel = last.p.idx
	if r.On("C03") {
		simrt.Yield()
	}
}

func (j *jitterRun) onLoss(lost, dropped uint64) {
	simrt.Log("loss callback lost=%d dropped=%d", lost, dropped)
	j.nCb++
	if j.r.On("C03") {
		if lost < j.cbLost || dropped < j.cbDrop {
			j.r.Fail("callback-decreased", "loss callback went from (%d,%d) to (%d,%d)", j.cbLost, j.cbDrop, lost, dropped)
		}
		if lost > uint64(len(j.pkts))+1 && !j.overlap {
			j.r.Fail("lost-count", "loss callback reports %d lost packets of a stream of %d", lost, len(j.pkts))
		}
	}
	j.cbLost, j.cbDrop = lost, dropped
}

func (j *jitterRun) flush() {
	j.flushed = true
	simrt.Log("flush")
	quiet := j.pushing == 0 && len(j.pushes) > 0
	n := len(j.pushes)
	j.b.Flush()
	if quiet && j.pushing == 0 && n == len(j.pushes) && j.r.On("C02") {
		if sz := j.b.Size(); sz != 0 && n == len(j.pushes) {
			j.r.Fail("flush-incomplete", "%d packets buffered after Flush", sz)
		}
	}
	if quiet && j.pushing == 0 {
		j.quiescent()
	}
}

func (j *jitterRun) pollStats() *jitter.BufferStats {
	s := j.b.Stats()
	if j.r.On("C03") {
		p := &j.prevSt
		if s.PacketsPushed < p.PacketsPushed || s.PaddingPushed < p.PaddingPushed || s.PacketsLost < p.PacketsLost ||
			s.PacketsDropped < p.PacketsDropped || s.PacketsPopped < p.PacketsPopped || s.SamplesPopped < p.SamplesPopped {
			j.r.Fail("counter-decreased", "stats went from %+v to %+v", *p, *s)
		}
		if s.PacketsLost > uint64(len(j.pkts)) && !j.overlap {
			j.r.Fail("lost-count", "%d packets lost of a stream of %d", s.PacketsLost, len(j.pkts))
		}
	}
	j.prevSt = *s
	return s
}

// quiescent: no push is running; the books must balance.
func (j *jitterRun) quiescent() {
	if !j.r.On("C03") {
		return
	}
	r := j.r
	var s *jitter.BufferStats
	sz := 0
	for i := 0; ; i++ {
		if j.pushing > 0 {
			return
		}
		v := j.nCb + j.samples + len(j.pushes)
		a := j.pollStats()
		sz = j.b.Size()
		s = j.pollStats()
		if *a == *s && v == j.nCb+j.samples+len(j.pushes) && j.pushing == 0 {
			break
		}
		if i > 1000 {
			return
		}
		simrt.SleepExact(time.Millisecond)
	}
	simrt.Log("stats %+v size %d", *s, sz)
	pads := uint64(0)
	for _, e := range j.pushes {
		if e.p.pad {
			pads++
		}
	}
	r.Check(s.PacketsPushed == uint64(len(j.pushes)), "pushed-count", "%d packets pushed, stats say %d", len(j.pushes), s.PacketsPushed)
	r.Check(s.PaddingPushed == pads, "padding-count", "%d padding packets pushed, stats say %d", pads, s.PaddingPushed)
	acc := s.PacketsPopped + s.PacketsDropped + uint64(sz)
	r.Check(acc <= s.PacketsPushed && s.PacketsPushed-acc <= pads, "unaccounted", "pushed %d != popped %d + dropped %d + buffered %d (+ at most %d padding)", s.PacketsPushed, s.PacketsPopped, s.PacketsDropped, sz, pads)
	r.Check(s.PacketsPopped >= uint64(j.nDel) && s.PacketsPopped-uint64(j.nDel) <= pads, "popped-count", "%d packets handed out, stats say %d", j.nDel, s.PacketsPopped)
	r.Check(s.SamplesPopped >= uint64(j.samples) && s.SamplesPopped-uint64(j.samples) <= pads, "sample-count", "%d samples handed out, stats say %d", j.samples, s.SamplesPopped)
	if s.PacketsLost+s.PacketsDropped > 0 {
		r.Check(j.nCb > 0 && j.cbLost == s.PacketsLost && j.cbDrop == s.PacketsDropped, "callback-stale", "stats say lost=%d dropped=%d, last loss callback said %d/%d (%d calls)", s.PacketsLost, s.PacketsDropped, j.cbLost, j.cbDrop, j.nCb)
	} else {
		r.Check(j.cbLost == 0 && j.cbDrop == 0, "callback-phantom", "loss callback said %d/%d but stats say nothing was lost", j.cbLost, j.cbDrop)
	}
	// sequence numbers skipped over
	if !j.multi && !j.padding && !j.jumps && j.firstDel >= 0 {
		want := uint64(j.lastDel-j.firstDel+1) - uint64(j.nDel)
		r.Check(s.PacketsLost == want, "lost-count", "delivered %d of the range #%d..#%d, so %d sequence numbers were skipped; stats say %d", j.nDel, j.firstDel, j.lastDel, want, s.PacketsLost)
	}
	if j.firstDel >= 0 && sz == 0 && !j.overlap {
		lo, hi := uint64(0), uint64(0)
		top := 0
		for _, e := range j.pushes {
			top = max(top, e.p.idx)
		}
		sent := map[int]bool{}
		for _, p := range j.pkts {
			sent[p.idx] = true
		}
		for i := j.firstDel + 1; i <= top; i++ {
			if !sent[i] {
				continue // the jump
			}
			if _, ok := j.delAt[i]; ok {
				continue
			}
			if e := j.byIdx[i]; len(e) == 0 {
				hi++
				if i < j.lastDel && !j.jumps {
					lo++
				}
			} else {
				hi++
			}
		}
		r.Check(s.PacketsLost >= lo && s.PacketsLost <= hi, "lost-count", "between %d and %d sequence numbers were skipped, stats say %d", lo, hi, s.PacketsLost)
	}
	// last, as other tasks may go on meanwhile
	want := 0.0
	if s.PacketsPushed > 0 {
		want = float64(s.PacketsDropped) / float64(s.PacketsPushed)
	}
	if pl := s.PacketLoss(); !(pl > want-1e-9 && pl < want+1e-9) {
		r.Fail("loss-ratio", "loss ratio %f, but %d of %d packets were dropped", pl, s.PacketsDropped, s.PacketsPushed)
	}
}

// history: nothing that came in time is lost.
func (j *jitterRun) history() {
	r := j.r
	if !r.On("C02") || j.flushed || j.overlap || j.firstDel < 0 {
		return
	}
	seen := map[int]bool{}
	for _, p := range j.pkts {
		if p.pad || p.idx != p.first || seen[p.first] {
			continue
		}
		seen[p.first] = true
		if p.first <= j.firstDel || p.first >= j.restart && (j.newDel < 0 || p.first <= j.newDel) {
			continue
		}
		if _, ok := j.delAt[p.first]; ok {
			continue
		}
		done := time.Duration(0) // when the sample was complete
		complete := true
		for i := p.first; i <= p.last; i++ {
			es := j.byIdx[i]
			if len(es) == 0 {
				complete = false
				break
			}
			done = max(done, es[0].end)
		}
		if !complete {
			continue
		}
		excused := false
		for _, e := range j.pushes {
			if e.p.idx < p.first {
				continue
			}
			// a packet at or behind it had waited out the latency
			if e.recv <= done-j.latMin {
				excused = true
				break
			}
		}
		if !excused {
			r.Fail("lost-in-time", "sample #%d..#%d was complete within the latency but was never delivered", p.first, p.last)
		}
	}
}
