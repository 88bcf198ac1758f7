package scen

import (
	"errors"
	"fmt"
	"math"
	"slices"
	"strings"
	"time"

	"simw/simrt"
	msdk "simw/x/github.com/livekit/media-sdk"
	"simw/x/github.com/livekit/media-sdk/mixer"
)

func init() {
	register(&Scen{Name: "mixer", Props: []string{"C04", "C05", "C06"}, Main: mixerMain,
		Real:    []string{"mixer.Mixer", "mixer.Input", "ring.Buffer", "frostbyte73/core fuse"},
		Stub:    []string{"output writer (slow, stalled, failing)", "input producers", "clock, ticker, scheduler"},
		Reached: []string{"starved", "overflow", "clamped", "catch-up", "timing-reset", "blocked", "stop-while-blocked", "close-mid-run", "many-inputs", "printed", "long-watch", "long-run", "idle-inputs", "exact-books"}})
}

type mixWr struct {
	inv, ret int64
	n        int
}

// mixIn is one input of one slot (slots are told apart by their digit in the sum).
type mixIn struct {
	slot             int
	in               *mixer.Input
	made             simrt.Handover
	newInv, newRet   int64
	clInv, clRet     int64
	writes           []*mixWr
	pos              int
	closed           bool
	vals             []int16 // clamp mode: the values written
	closeCalled      int
	nilInput         bool
	writingFinished  bool
	writerTask       *simrt.Task
	droppedSomewhere bool
}

type mixFrame struct {
	obs, end int64
	at, out  time.Duration // when its write began and ended
	inj      time.Duration
	got      []int16 // as received
	ref      msdk.PCM16Sample
}

// mixAcct is what the counters have to say about the ways to reach a state.
type mixAcct struct {
	restarts, drops, samples [2]int // least and most
}

func (a mixAcct) plus(restarts, drops, samples int) mixAcct {
	for i := range 2 {
		a.restarts[i] += restarts
		a.drops[i] += drops
		a.samples[i] += samples
	}
	return a
}

func (a mixAcct) merge(b mixAcct) mixAcct {
	m := func(x, y [2]int) [2]int { return [2]int{min(x[0], y[0]), max(x[1], y[1])} }
	return mixAcct{m(a.restarts, b.restarts), m(a.drops, b.drops), m(a.samples, b.samples)}
}

func (a mixAcct) add(b mixAcct) mixAcct {
	m := func(x, y [2]int) [2]int { return [2]int{x[0] + y[0], x[1] + y[1]} }
	return mixAcct{m(a.restarts, b.restarts), m(a.drops, b.drops), m(a.samples, b.samples)}
}

type mixState struct {
	gen, iw, lo, hi int
	reg             bool
	buf             bool
}

type mixRun struct {
	r       *R
	m       *mixer.Mixer
	st      *mixer.Stats
	seq     int64
	d       time.Duration
	size    int
	depth   int
	chanSz  int // 0: direct
	slots   [][]*mixIn
	frames  []*mixFrame
	radix   int
	sign    int
	clamp   bool
	slowMax time.Duration
	errNum  int
	nErr    int
	hold    bool
	inWrite int
	created time.Duration
	opened  int
	long    bool
	acct    mixAcct
	noAcct  bool
	idle    int // inputs that contribute nothing but silence
	removed int
	nWrites int
	nSamp   int
	stopped bool
	// mixed but not yet written when Stop was called
	mixedAtStop  int
	framesAtStop int
	calm         bool
}

func (m *mixRun) next() int64 { m.seq++; return m.seq }

func (m *mixRun) String() string             { return "out" }
func (m *mixRun) SampleRate() int            { return 0 }
func (m *mixRun) val(in *mixIn, p int) int   { return 1 + p%(m.radix-1) }
func (m *mixRun) clVal(in *mixIn, p int) int { return int(in.vals[p]) }
func (m *mixRun) capacity() int              { return m.size * m.depth }
func (m *mixRun) minFill() int               { return (m.depth/2 + 1) * m.size }
func pow(b, e int) (v int) {
	v = 1
	for ; e > 0; e-- {
		v *= b
	}
	return v
}
func (m *mixRun) count() int          { return len(m.frames) }
func ms(n int) time.Duration          { return time.Duration(n) * time.Millisecond }
func frac(d, e time.Duration) float64 { return float64(d) / float64(e) }

type mixOut struct {
	m    *mixRun
	rate int
}

func (o *mixOut) String() string  { return "mixOut" }
func (o *mixOut) SampleRate() int { return o.rate }
func (o *mixOut) Close() error    { return nil }
func (o *mixOut) WriteSample(s msdk.PCM16Sample) error {
	m := o.m
	r := m.r
	m.inWrite++
	if m.inWrite > 1 && r.On("C06") {
		r.Fail("concurrent-write", "output written by two tasks at once")
	}
	f := &mixFrame{obs: m.next(), at: r.W.Now(), got: clone([]int16(s)), ref: s, end: math.MaxInt64}
	m.frames = append(m.frames, f)
	simrt.Log("frame %d %v", len(m.frames)-1, f.got[:min(len(f.got), 8)])
	if len(s) != m.size && r.On("C04") {
		r.Fail("frame-size", "frame of %d samples, want %d", len(s), m.size)
	}
	if m.slowMax > 0 && !m.calm && r.F.Bool(1, 4) {
		simrt.Fault("slow-output")
		simrt.SleepExact(r.F.Dur(0, m.slowMax))
	}
	for m.hold {
		simrt.SleepExact(time.Millisecond)
	}
	var err error
	if m.errNum > 0 && r.F.Bool(1, m.errNum) {
		simrt.Fault("output-error")
		err = errors.New("output failed")
		m.nErr++
	}
	f.end = m.next()
	f.out = r.W.Now()
	m.inWrite--
	return err
}

func mixerMain(r *R) {
	d, w := r.D, r.W
	m := &mixRun{r: r, st: &mixer.Stats{}, mixedAtStop: -1}
	m.d = pick(d, 20*time.Millisecond, 5*time.Millisecond, 10*time.Millisecond, 40*time.Millisecond)
	if d.Bool(1, 4) { // not a whole number of milliseconds
		m.d = pick(d, 2500*time.Microsecond, 7500*time.Microsecond, 21333333, 33366700)
	}
	m.size = pick(d, 4, 1, 3, 8, 20)
	if r.On("C04") && m.d >= 20*time.Millisecond && d.Bool(1, 16) {
		m.size = pick(d, 160, 100, 240)
	}
	// the frame holds the whole samples of one interval
	rate := int((time.Duration(m.size)*time.Second + m.d - 1) / m.d)
	if d.Bool(1, 4) && time.Duration(rate+1)*m.d < time.Duration(m.size+1)*time.Second {
		rate++
	}
	var opts []mixer.MixerOptions
	m.depth = mixer.DefaultInputBufferFrames
	opts = append(opts, mixer.WithStats(m.st))
	if d.Bool(1, 2) {
		m.depth = pick(d, 5, 1, 2, 3, 8)
		opts = append(opts, mixer.WithInputBufferFrames(m.depth))
	}
	switch d.Weighted(5, 2, 2) {
	case 1:
		m.chanSz = 1
		opts = append(opts, mixer.WithOutputChannel())
	case 2:
		n := pick(d, 2, 0, 5)
		m.chanSz = max(1, n)
		opts = append(opts, mixer.WithOutputChannelSize(n))
	}
	k := d.Range(1, 4)
	if d.Bool(1, 12) {
		k = pick(d, 6, 8, 14)
	}
	m.sign = pick(d, 1, -1)
	if r.On("C04") && d.Bool(1, 4) {
		m.clamp = true
		k = pick(d, 2, 3)
	} else {
		m.radix = []int{0, 32767, 181, 31, 13, 7, 5, 4, 3, 2, 2, 2, 2, 2, 2}[k]
	}
	if r.On("C05") {
		k = min(k, 2)
	}
	if k > 4 {
		simrt.Probe("many-inputs")
	}
	if r.Faults && d.Bool(1, 2) && !r.On("C05") {
		m.slowMax = pick(d, m.d/2, 2*m.d, time.Duration(m.depth+3)*m.d)
	}
	if r.Faults && d.Bool(1, 3) {
		m.errNum = pick(d, 2, 5, 20)
	}
	simrt.Log("mixer interval=%s size=%d depth=%d channel=%d slots=%d clamp=%v slow=%s", m.d, m.size, m.depth, m.chanSz, k, m.clamp, m.slowMax)
	m.created = w.Now()
	mx, err := mixer.NewMixer(&mixOut{m, rate}, m.d, 1, opts...)
	if err != nil {
		r.Fail("create", "NewMixer: %v", err)
	}
	m.m = mx
	m.slots = make([][]*mixIn, k)
	nFrames := d.Log(8, 60)
	if k <= 2 && !r.On("C05") && d.Bool(1, 30) {
		nFrames = d.Range(61, 800)
		m.long = true
		simrt.Probe("long-run")
	}
	if !r.On("C05") && m.d >= 20*time.Millisecond && m.size <= 8 && d.Bool(1, 24) {
		m.idle = d.Range(10, 40)
		simrt.Probe("idle-inputs")
		for i := 0; i < m.idle; i++ { // they only ever deliver silence
			in := m.m.NewInput()
			if in == nil {
				r.Fail("no-input", "NewInput returned nil before Stop")
			}
			m.opened++
			for n := d.Int(3); n > 0; n-- {
				m.nWrites++
				m.nSamp += m.size
				if err := in.WriteSample(make(msdk.PCM16Sample, m.size)); err != nil {
					r.Fail("input-error", "WriteSample on an input: %v", err)
				}
			}
			if d.Bool(1, 4) {
				m.removed++
				in.Close()
			}
		}
	}
	end := w.Now() + time.Duration(nFrames)*m.d
	var tasks []*simrt.Task
	for s := 0; s < k; s++ {
		tasks = append(tasks, w.Spawn(fmt.Sprintf("input%d", s), func() { m.feed(s, end) }))
	}
	if !r.On("C05") && d.Bool(1, 5) { // somebody prints the mixer now and then
		tasks = append(tasks, w.Spawn("viewer", func() {
			s := w.Stream("viewer")
			for w.Now() < end {
				simrt.SleepExact(s.Dur(0, 2*m.d))
				simrt.Probe("printed")
				if txt := mx.String(); !strings.HasSuffix(txt, "-> mixOut") {
					r.Fail("description", "the mixer describes itself as %q", txt)
				}
				if slot := m.slots[s.Int(k)]; len(slot) > 0 {
					in := slot[len(slot)-1]
					in.made.Acquire()
					if txt := in.in.String(); !strings.HasSuffix(txt, "-> mixOut") {
						r.Fail("description", "an input describes itself as %q", txt)
					}
				}
			}
		}))
	}
	stopAt := time.Duration(0)
	if r.On("C06") && d.Bool(3, 4) {
		stopAt = w.Now() + d.Dur(0, end-w.Now()+m.d)
	}
	if stopAt == 0 {
		for _, t := range tasks {
			r.Join(t, time.Hour, "stuck")
		}
		if r.On("C05") {
			m.pace()
		}
		m.finish()
		if !r.On("C05") {
			if r.On("C06") {
				r.NoLive(ms(500)+w.InjectedSince(w.Now()), "leak-after-stop")
			} else {
				simrt.Await(ms(500)+w.InjectedSince(w.Now()), func() bool { return len(w.Live()) == 0 })
			}
			m.nfa()
			m.books()
		}
		if r.On("C06") {
			m.counters()
		}
		return
	}
	// C06: stop somewhere in the middle, perhaps while the output is stalled
	simrt.SleepExact(stopAt - w.Now())
	if r.Faults && d.Bool(1, 3) {
		simrt.Fault("output-stalled")
		m.hold = true
		simrt.SleepExact(d.Dur(0, time.Duration(m.depth+m.chanSz+4)*m.d))
		if m.inWrite > 0 {
			simrt.Probe("stop-while-blocked")
		}
	}
	n := pick(d, 1, 1, 2, 3)
	var st []*simrt.Task
	for i := 0; i < n; i++ {
		st = append(st, w.Spawn(fmt.Sprintf("stop%d", i), func() {
			if i > 0 {
				simrt.SleepExact(d.Dur(0, 2*time.Millisecond))
			}
			simrt.Log("Stop")
			if of := int(m.st.OutputFrames.Load()); m.mixedAtStop < 0 {
				m.mixedAtStop = of - len(m.frames)
				m.framesAtStop = len(m.frames)
			}
			m.m.Stop()
			m.stopped = true
			if in := m.m.NewInput(); in != nil {
				r.Fail("input-after-stop", "NewInput returned an input after Stop")
			}
		}))
	}
	t0 := w.Now()
	for _, t := range st {
		if !t.Join(time.Second+2*r.slack()) && !t.Join(w.InjectedSince(t0)+ms(50)) {
			r.Fail("stop-hangs", "Stop did not return within a second: %s", t.Where())
		}
	}
	atStop := len(m.frames)
	r.Calm()
	pend := m.depth + m.chanSz + 1
	if m.hold {
		simrt.SleepExact(d.Dur(0, 3*m.d))
		m.hold = false
	}
	m.calm = true
	m.slowMax = 0
	lim := time.Duration(pend+4)*(m.d/4+ms(2)) + ms(500) + w.InjectedSince(w.Now())
	r.NoLive(lim, "leak-after-stop")
	if x := len(m.frames) - atStop; x > pend+2*m.depth {
		r.Fail("frames-after-stop", "%d frames written after Stop (depth %d, channel %d)", x, m.depth, m.chanSz)
	}
	x := len(m.frames)
	simrt.SleepExact(3 * m.d)
	r.Check(len(m.frames) == x, "frames-after-stop", "frame written by nobody")
	for _, t := range tasks {
		r.Join(t, time.Hour, "stuck")
	}
	m.counters()
	m.frames = m.frames[:m.framesAtStop] // later ones may be dropped
	m.nfa()
}

// feed runs one slot: inputs one after the other, each fed in its own rhythm.
func (m *mixRun) feed(s int, end time.Duration) {
	r, w, d := m.r, m.r.W, m.r.W.Stream(fmt.Sprintf("in%d", s))
	for w.Now() < end {
		if d.Bool(1, 3) {
			simrt.SleepExact(d.Dur(0, 4*m.d))
		}
		in := &mixIn{slot: s, newInv: m.next(), newRet: math.MaxInt64, clInv: math.MaxInt64, clRet: math.MaxInt64}
		was := m.stopped
		in.in = m.m.NewInput()
		if in.in == nil {
			if r.On("C06") && !was && !m.stopped {
				simrt.SleepExact(time.Second + w.InjectedSince(0))
				r.Check(m.stopped, "no-input", "NewInput returned nil before Stop")
			}
			return
		}
		m.opened++
		in.made.Release()
		m.slots[s] = append(m.slots[s], in)
		in.newRet = m.next()
		closeAt := end + time.Hour
		if !m.clamp && d.Bool(1, 3) {
			closeAt = w.Now() + d.Dur(0, 20*m.d)
		}
		writes := d.Log(1, 80)
		if m.long {
			writes = d.Log(60, 900)
		}
		rhythm := d.Weighted(4, 2, 2, 1)
		for i := 0; i < writes && w.Now() < min(end, closeAt); i++ {
			n := m.size
			switch rhythm {
			case 1:
				n = d.Int(2*m.size + 1)
			case 2:
				if d.Bool(1, 6) {
					n = d.Int((m.depth+2)*m.size + 1)
				}
			}
			m.write(in, n, d)
			switch {
			case rhythm == 3 && d.Bool(9, 10):
				simrt.SleepExact(d.Dur(0, m.d/2))
			case d.Bool(1, 10):
				simrt.SleepExact(d.Dur(0, time.Duration(m.depth+2)*m.d))
			default:
				simrt.SleepExact(d.Dur(m.d*3/4, m.d*5/4))
			}
		}
		if closeAt > end {
			simrt.SleepExact(max(0, end-w.Now()))
		}
		if m.clamp || d.Bool(1, 4) {
			return // left open
		}
		simrt.Probe("close-mid-run")
		in.clInv = m.next()
		m.removed++
		nc := pick(d, 1, 1, 2)
		for i := 0; i < nc; i++ {
			if d.Bool(1, 2) {
				in.in.Close()
			} else {
				m.m.RemoveInput(in.in)
			}
		}
		in.clRet = m.next()
		if d.Bool(1, 4) {
			w := &mixWr{inv: m.next(), n: m.size}
			in.writes = append(in.writes, w)
			in.in.WriteSample(make(msdk.PCM16Sample, m.size))
			w.ret = m.next()
			m.nWrites++
			m.nSamp += m.size
		}
	}
}

func (m *mixRun) write(in *mixIn, n int, d *simrt.Stream) {
	buf := make(msdk.PCM16Sample, n)
	for i := range buf {
		if m.clamp {
			v := int16(pick(d, 32767, -32768, 30000, -30000, 1, -1, 20000))
			if d.Bool(1, 4) {
				v = int16(d.Int(65536) - 32768)
			}
			buf[i] = v
			in.vals = append(in.vals, v)
		} else {
			buf[i] = int16(m.sign * m.val(in, in.pos+i) * pow(m.radix, in.slot))
		}
	}
	in.pos += n
	w := &mixWr{inv: m.next(), ret: math.MaxInt64, n: n}
	in.writes = append(in.writes, w)
	m.nWrites++
	m.nSamp += n
	err := in.in.WriteSample(buf)
	w.ret = m.next()
	if err != nil && m.r.On("C04") {
		m.r.Fail("input-error", "WriteSample on an input: %v", err)
	}
	for i := range buf {
		buf[i] = 12321 // the caller may reuse its buffer
	}
}

// pace (C05): the mixing clock.
func (m *mixRun) pace() {
	r, w := m.r, m.r.W
	r.Calm()
	m.calm = true
	simrt.SleepExact(w.InjectedSince(w.Now()))
	simrt.SleepExact(3 * m.d)
	a, n0 := w.Now(), len(m.frames)
	n := r.D.Log(4, 300)
	if r.D.Bool(1, 40) {
		n = r.D.Range(1000, 4000)
		simrt.Probe("long-watch")
	}
	simrt.SleepExact(time.Duration(n) * m.d)
	b, n1 := w.Now(), len(m.frames)
	cnt, want := n1-n0, frac(b-a, m.d)
	slack := frac(r.slack(), m.d)
	if float64(cnt) < want-1.25-slack || float64(cnt) > want+1.25+slack {
		r.Fail("pace", "%d frames in %s without disturbance (interval %s, %.2f expected)", cnt, b-a, m.d, want)
	}
	// never ahead of the clock
	first := m.created + m.d
	for i, f := range m.frames {
		if f.at < first+time.Duration(float64(m.d)*(float64(i)-0.25)) {
			r.Fail("ahead", "frame %d written %s after the first was due (interval %s)", i, f.at-first, m.d)
		}
	}
	// never more than the input depth at once
	for i := range m.frames {
		for j := i + m.depth; j < len(m.frames) && j < i+3*m.depth+2; j++ {
			g := m.frames[j].at - m.frames[i].at
			from := m.created
			if x := i - m.depth - m.chanSz - 2; x >= 0 {
				from = m.frames[x].at
			}
			lim := float64(m.depth) + frac(g+m.injected(from, m.frames[j].at), m.d) + 1.25 + slack
			if float64(j-i+1) > lim {
				r.Fail("flood", "frames %d..%d (%d) written within %s (interval %s, depth %d)", i, j, j-i+1, g, m.d, m.depth)
			}
		}
	}
	// what was missed is caught up with unless it exceeds the input depth
	lost := 0.0
	prev := m.created
	for i, f := range m.frames {
		g := f.at - prev
		if i > 0 && g > 2*m.d {
			simrt.Probe("catch-up")
		}
		from := m.created
		if i > 1 {
			from = m.frames[i-2].at
		}
		if gi := g + m.injected(from, f.at); gi > time.Duration(m.depth-1)*m.d || (m.depth <= 2 && gi > m.d*5/4) {
			lost += frac(gi, m.d) + 1
			if i > 0 {
				simrt.Probe("timing-reset")
			}
		}
		prev = f.at
	}
	total := frac(b-m.frames[0].at, m.d)
	inj0 := frac(w.InjectedSince(m.created), m.d) // delay of the first frame against its tick
	if lost == 0 {
		inj0 = 0
	}
	if float64(len(m.frames)) < total-1.25-lost-slack-inj0 {
		r.Fail("missed", "%d frames in %s (interval %s, %.2f expected, %.1f excused)", len(m.frames), b-m.frames[0].at, m.d, total, lost)
	}
	// after a disturbance the schedule is met again at once: checked by the window above
	if len(m.frames) > 0 {
		inj := w.InjectedSince(m.created)
		if m.frames[0].at > m.created+m.d+r.slack()+inj {
			r.Fail("first-late", "first frame %s after creation (interval %s, injected %s)", m.frames[0].at-m.created, m.d, inj)
		}
	}
}

// injected: delays that overlap [from, to].
func (m *mixRun) injected(from, to time.Duration) time.Duration {
	return m.r.W.InjectedIn(from, to)
}

func (m *mixRun) finish() {
	r, w := m.r, m.r.W
	r.Calm()
	m.calm = true
	m.slowMax = 0
	simrt.SleepExact(w.InjectedSince(w.Now()) + 4*m.d)
	m.m.Stop()
	m.stopped = true
	if !r.On("C05") {
		simrt.SleepExact(2*m.d + ms(10))
	}
}

// counters (C06) match what happened.
func (m *mixRun) counters() {
	r, s := m.r, m.st
	r.Check(s.Tracks.Load() == int64(m.opened-m.removed), "track-count", "%d inputs opened, %d closed, Tracks=%d", m.opened, m.removed, s.Tracks.Load())
	r.Check(s.TracksTotal.Load() == uint64(m.opened), "track-total", "%d inputs opened, TracksTotal=%d", m.opened, s.TracksTotal.Load())
	r.Check(s.WriteErrors.Load() == uint64(m.nErr), "write-errors", "%d writes failed, WriteErrors=%d", m.nErr, s.WriteErrors.Load())
	of, nf := s.OutputFrames.Load(), uint64(len(m.frames))
	r.Check(of == s.Mixes.Load(), "mix-count", "OutputFrames=%d Mixes=%d", of, s.Mixes.Load())
	// frames that were mixed but not written: at most the channel and one in hand
	r.Check(of >= nf && (m.chanSz > 0 || of == nf), "output-count", "%d frames written, OutputFrames=%d", nf, of)
	r.Check(m.mixedAtStop <= m.chanSz+2, "output-lost", "%d frames mixed but not written when Stop was called, the channel holds %d", m.mixedAtStop, m.chanSz)
	r.Check(s.OutputSamples.Load() == of*uint64(m.size), "output-samples", "OutputFrames=%d OutputSamples=%d", of, s.OutputSamples.Load())
	r.Check(s.InputFrames.Load() == uint64(m.nWrites), "input-count", "%d frames written to inputs, InputFrames=%d", m.nWrites, s.InputFrames.Load())
	r.Check(s.InputSamples.Load() == uint64(m.nSamp), "input-samples", "%d samples written to inputs, InputSamples=%d", m.nSamp, s.InputSamples.Load())
	r.Check(s.InputFramesDropped.Load() <= s.InputFrames.Load() && (s.InputFramesDropped.Load() > 0) == (s.InputSamplesDropped.Load() > 0) && s.InputFramesDropped.Load() <= s.InputSamplesDropped.Load(),
		"drop-count", "of %d frames written InputFramesDropped=%d InputSamplesDropped=%d", s.InputFrames.Load(), s.InputFramesDropped.Load(), s.InputSamplesDropped.Load())
	if a, b := s.TimedMixes.Load()+s.JumpMixes.Load(), s.Mixes.Load(); a < b || a > b && s.TimingResets.Load() == 0 {
		r.Fail("mix-count", "TimedMixes=%d JumpMixes=%d Mixes=%d TimingResets=%d", s.TimedMixes.Load(), s.JumpMixes.Load(), b, s.TimingResets.Load())
	}
	if m.chanSz == 0 && s.TimingResets.Load() == 0 && of == nf {
		// frames that are caught up with come out in one go
		tight := uint64(0)
		for i := 1; i < len(m.frames); i++ {
			if from, to := m.frames[i-1].out, m.frames[i].at; to-from <= r.slack()+m.injected(from, to) {
				tight++
			}
		}
		r.Check(s.JumpMixes.Load() <= 2*tight, "jump-count", "JumpMixes=%d, but only %d frames came out right after another", s.JumpMixes.Load(), tight)
	}
	if s.BlockedMixes.Load() > 0 {
		simrt.Probe("blocked")
		r.Check(m.chanSz > 0, "blocked-count", "BlockedMixes=%d without an output channel", s.BlockedMixes.Load())
	}
}

// books (C04): samples in = samples mixed + dropped + still buffered.
func (m *mixRun) books() {
	r, s := m.r, m.st
	in, mixed, drop := int64(s.InputSamples.Load()), int64(s.MixedSamples.Load()), int64(s.InputSamplesDropped.Load())
	if drop > 0 {
		simrt.Probe("overflow")
	}
	if s.Restarts.Load() > 0 {
		simrt.Probe("starved")
	}
	if !m.clamp && s.OutputFrames.Load() == uint64(len(m.frames)) {
		ns, nf := int64(0), uint64(0)
		for _, f := range m.frames {
			for k := range m.slots {
				any := false
				for _, v := range f.got {
					if int(v)*m.sign/pow(m.radix, k)%m.radix != 0 {
						ns++
						any = true
					}
				}
				if any {
					nf++
				}
			}
		}
		if m.idle > 0 && ns <= mixed && nf <= s.MixedFrames.Load() {
			ns, nf = mixed, s.MixedFrames.Load()
		}
		if ns != mixed || nf != s.MixedFrames.Load() {
			r.Fail("accounting", "the output holds %d samples in %d contributions, MixedSamples=%d MixedFrames=%d", ns, nf, mixed, s.MixedFrames.Load())
		}
		if s.Restarts.Load() > nf {
			r.Fail("accounting", "Restarts=%d, but the inputs contributed to %d frames", s.Restarts.Load(), nf)
		}
	}
	if !m.clamp && !m.noAcct {
		simrt.Probe("exact-books")
		for _, x := range []struct {
			name string
			got  uint64
			want [2]int
		}{{"Restarts", s.Restarts.Load(), m.acct.restarts}, {"InputFramesDropped", s.InputFramesDropped.Load(), m.acct.drops}, {"InputSamplesDropped", s.InputSamplesDropped.Load(), m.acct.samples}} {
			if x.got < uint64(x.want[0]) || x.got > uint64(x.want[1]) {
				r.Fail("accounting", "%s=%d, but the output shows %d to %d", x.name, x.got, x.want[0], x.want[1])
			}
		}
	}
	rest := in - mixed - drop
	if rest < 0 || rest > int64(m.opened*m.capacity()) {
		r.Fail("accounting", "%d samples in, %d mixed, %d dropped, so %d buffered in %d inputs of capacity %d", in, mixed, drop, rest, m.opened, m.capacity())
	}
}

// nfa checks every output frame against all linearisations of the inputs'
// writes, closes and reads.
func (m *mixRun) nfa() {
	r := m.r
	class := "wrong-mix"
	k := len(m.slots)
	for i, f := range m.frames {
		if !eq(f.got, []int16(f.ref)) {
			r.Fail("frame-reused", "frame %d changed after it was handed to the output", i)
		}
	}
	lower := func(i int) int64 {
		j := i - 1
		if m.chanSz > 0 {
			j = i - m.chanSz - 2
		}
		if j < 0 {
			return 0
		}
		return m.frames[j].end
	}
	if !m.clamp {
		for s := 0; s < k; s++ {
			cur := map[mixState]mixAcct{{buf: true}: {}}
			base := pow(m.radix, s)
			for i, f := range m.frames {
				next := map[mixState]mixAcct{}
				dig := make([]int, len(f.got))
				for x, v := range f.got {
					u := int(v) * m.sign
					if u < 0 || u >= pow(m.radix, k) {
						r.Fail(class, "frame %d sample %d is %d, no sum of the inputs", i, x, v)
					}
					dig[x] = u / base % m.radix
				}
				for st, acc := range cur {
					m.options(s, st, acc, lower(i), f.obs, func(ns mixState, acc mixAcct, gen, lo, n int) {
						if old, ok := next[ns]; ok {
							if old != acc {
								next[ns] = old.merge(acc)
							}
							return
						}
						for x, g := range dig {
							want := 0
							if x < n {
								want = m.val(nil, lo+x)
							}
							if g != want {
								return
							}
						}
						next[ns] = acc
					})
				}
				if len(next) == 0 {
					r.Fail(class, "frame %d: the contribution of input slot %d is %v; not possible from %s", i, s, dig, stText(cur))
				}
				cur = next
			}
			m.settle(s, cur)
		}
		return
	}
	type all [3]mixState
	cur := map[all]bool{{{buf: true}, {buf: true}, {buf: true}}: true}
	for i, f := range m.frames {
		next := map[all]bool{}
		type opt struct {
			st  mixState
			c   []int
			gen int
		}
		memo := [3]map[mixState][]opt{{}, {}, {}}
		zeros := make([]int, len(f.got))
		get := func(s int, st mixState) []opt {
			if s >= k {
				return []opt{{st, zeros, 0}}
			}
			if o, ok := memo[s][st]; ok {
				return o
			}
			var out []opt
			m.options(s, st, mixAcct{}, lower(i), f.obs, func(ns mixState, _ mixAcct, gen, lo, n int) {
				c := make([]int, len(f.got))
				for x := 0; x < n && x < len(c); x++ {
					c[x] = m.clVal(m.slots[s][gen], lo+x)
				}
				out = append(out, opt{ns, c, gen})
			})
			memo[s][st] = out
			return out
		}
		for p := range cur {
			for _, a := range get(0, p[0]) {
				for _, b := range get(1, p[1]) {
					for _, c := range get(2, p[2]) {
						np := all{a.st, b.st, c.st}
						if next[np] {
							continue
						}
						ok := true
						for x, g := range f.got {
							v := a.c[x] + b.c[x] + c.c[x]
							if int(g) != min(32767, max(-32767, v)) {
								ok = false
								break
							}
						}
						if ok {
							next[np] = true
						}
					}
				}
			}
		}
		if slices.ContainsFunc(f.got, func(v int16) bool { return v >= 32767 || v <= -32767 }) {
			simrt.Probe("clamped")
		}
		if len(next) == 0 {
			r.Fail(class, "frame %d %v is not the clamped sum of what the inputs can have contributed", i, f.got)
		}
		if len(next) > 4000 {
			simrt.Probe("oracle-state-cap")
			return
		}
		cur = next
	}
}

func stText(m map[mixState]mixAcct) string {
	t := ""
	n := 0
	for _, s := range simrt.SortedKeys(m) {
		if n++; n > 1 {
			return t + fmt.Sprintf(" and %d other states", len(m)-1)
		}
		t += fmt.Sprintf("{input #%d registered=%v, %d writes in, samples %d..%d buffered, buffering=%v}", s.gen, s.reg, s.iw, s.lo, s.hi, s.buf)
	}
	return t
}

// options enumerates what one slot can contribute to a frame mixed between
// lower and obs.
func (m *mixRun) options(s int, st mixState, acc mixAcct, lower, obs int64, yield func(ns mixState, acc mixAcct, gen, lo, n int)) {
	if st.gen >= len(m.slots[s]) {
		yield(st, acc, 0, 0, 0)
		return
	}
	in := m.slots[s][st.gen]
	if !st.reg {
		if in.newInv < obs {
			ns := st
			ns.reg = true
			m.options(s, ns, acc, lower, obs, yield)
		}
		if in.newRet >= lower {
			yield(st, acc, 0, 0, 0)
		}
		return
	}
	must := false
	if st.iw < len(in.writes) {
		w := in.writes[st.iw]
		if w.inv < obs && w.inv < in.clRet {
			ns, ac := m.written(st, acc, w.n)
			m.options(s, ns, ac, lower, obs, yield)
		}
		must = must || w.ret < lower && w.inv < in.clRet
	}
	if in.clInv < obs {
		ns, ac := m.gone(s, st, acc)
		m.options(s, ns, ac, lower, obs, yield)
		must = must || in.clRet < lower
	}
	if must {
		return
	}
	if st.buf && st.hi-st.lo < m.minFill() {
		yield(st, acc, st.gen, 0, 0)
		return
	}
	st.buf = false
	n := min(m.size, st.hi-st.lo)
	lo := st.lo
	st.lo += n
	if n == 0 {
		st.buf = true
		acc = acc.plus(1, 0, 0)
	}
	yield(st, acc, st.gen, lo, n)
}

// written is the state after n more samples were put into the input.
func (m *mixRun) written(st mixState, acc mixAcct, n int) (mixState, mixAcct) {
	st.iw++
	st.hi += n
	if x := st.hi - m.capacity() - st.lo; x > 0 {
		st.lo += x
		acc = acc.plus(0, 1, x)
	}
	return st, acc
}

// gone is the state after an input was removed: what is written to it from then on is never read.
func (m *mixRun) gone(s int, st mixState, acc mixAcct) (mixState, mixAcct) {
	for ws := m.slots[s][st.gen].writes; st.iw < len(ws); {
		st, acc = m.written(st, acc, ws[st.iw].n)
	}
	return mixState{gen: st.gen + 1, buf: true}, acc
}

// settle: all frames of a slot are explained; what is left are writes that nobody read.
func (m *mixRun) settle(s int, cur map[mixState]mixAcct) {
	ins := m.slots[s]
	if m.idle > 0 || m.st.OutputFrames.Load() != uint64(len(m.frames)) {
		m.noAcct = true
		return
	}
	var sum mixAcct
	first := true
	for _, st := range simrt.SortedKeys(cur) {
		acc := cur[st]
		for st.gen < len(ins) {
			st, acc = m.gone(s, st, acc)
		}
		if first {
			sum, first = acc, false
		} else {
			sum = sum.merge(acc)
		}
	}
	m.acct = m.acct.add(sum)
}
