package scen

import (
	"context"
	"math"
	"strings"
	"time"

	"github.com/pion/rtp"

	"simw/simrt"
	msdk "simw/x/github.com/livekit/media-sdk"
	"simw/x/github.com/livekit/media-sdk/dtmf"
	mrtp "simw/x/github.com/livekit/media-sdk/rtp"
	"simw/x/github.com/livekit/media-sdk/tones"
)

func init() {
	register(&Scen{Name: "playout", Props: []string{"C10"}, Main: playMain, Solo: true,
		Real:    []string{"media.PlayAudio", "tones.Play", "tones.Generate"},
		Stub:    []string{"audio writer (slow, failing)", "context, ticker, scheduler"},
		Reached: []string{"cancelled", "writer-failed", "played-all", "tone-played", "cancel-during-write", "cancel-before-start", "long-list", "long-tone"}})
	register(&Scen{Name: "dtmf", Props: []string{"C09"}, Main: dtmfMain, Solo: true,
		Real:    []string{"dtmf.Write", "dtmf.Encode", "rtp.Stream", "rtp.SeqWriter", "tones.Generate"},
		Stub:    []string{"RTP writer and audio writer (slow, failing)", "context, ticker, scheduler"},
		Reached: []string{"cancelled", "writer-failed", "complete", "no-events", "no-audio", "pause", "other-stream", "many-digits"}})
}

// wave is the reference tone generator.
func wave(n int, ts, dur time.Duration, amp int16, freq []int) []int16 {
	out := make([]int16, n)
	for i := range out {
		if len(freq) == 0 {
			continue
		}
		t := (ts + dur*time.Duration(i)/time.Duration(n)).Seconds()
		sum := 0.0
		for _, f := range freq {
			sum += math.Sin(2 * math.Pi * float64(f) * t)
		}
		out[i] = int16(float64(amp) * sum / float64(len(freq)))
	}
	return out
}

func near(a, b []int16, tol int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if d := int(a[i]) - int(b[i]); d > tol || d < -tol {
			return false
		}
	}
	return true
}

// cancelPlan draws a context for the run: cancelled at, or time.Hour*1000.
type cancelPlan struct {
	ctx      context.Context
	at       time.Duration
	deadline bool
	cancel   func()
	done     time.Duration // when cancel was complete
}

const never = 100000 * time.Hour

func drawCancel(r *R, span time.Duration) *cancelPlan {
	d, w := r.D, r.W
	c := &cancelPlan{at: never, done: never}
	switch d.Weighted(3, 3, 2, 1) {
	case 0:
		c.ctx, c.cancel = simrt.WithCancel(context.Background())
	case 1:
		c.ctx, c.cancel = simrt.WithCancel(context.Background())
		c.at = w.Now() + d.Dur(0, span)
		w.Spawn("canceller", func() {
			simrt.SleepExact(c.at - w.Now())
			c.at = w.Now()
			simrt.Log("cancel")
			c.cancel()
			c.done = w.Now()
		})
	case 2:
		dl := d.Dur(0, span)
		c.deadline = true
		c.ctx, c.cancel = simrt.WithTimeout(context.Background(), dl)
		c.at = w.Now() + dl
		c.done = c.at
	case 3:
		c.ctx, c.cancel = simrt.WithCancel(context.Background())
		c.cancel()
		c.at = w.Now()
		c.done = c.at
		simrt.Probe("cancel-before-start")
	}
	return c
}

// pacing checks the times of paced writes against a schedule that starts at
// t0 with the given interval.
type pacing struct {
	r        *R
	t0, dur  time.Duration
	at       []time.Duration // start of each write
	end      []time.Duration
	c        *cancelPlan
	ret      time.Duration
	err      error
	werr     error // error of the writer, if any
	complete bool  // everything was written
	list     bool  // a list of frames, which ends with the last of them
	busy0    time.Duration
}

func (p *pacing) check() {
	r, w := p.r, p.r.W
	busy := w.Busy() - p.busy0
	slack := r.slack() + busy
	for k, at := range p.at {
		if due := p.t0 + time.Duration(k+1)*p.dur; at < due {
			r.Fail("ahead", "write %d started %s before it was due (interval %s)", k, due-at, p.dur)
		}
		prev := p.t0
		if k > 0 {
			prev = p.end[k-1]
		}
		if at > prev+p.dur+slack && at > prev+p.dur+slack+w.InjectedIn(prev, at) {
			r.Fail("late", "write %d started %s after the previous one ended (interval %s)", k, at-prev, p.dur)
		}
		if at > p.c.done+slack && (k == 0 || at > p.end[k-1]+slack) {
			from := p.c.done
			if k > 0 {
				from = max(from, p.end[k-1])
			}
			if at > from+slack+w.InjectedIn(from, at) {
				r.Fail("after-cancel", "write %d started %s after the context was cancelled", k, at-p.c.done)
			}
		}
	}
	last := p.t0
	if n := len(p.end); n > 0 {
		last = p.end[n-1]
	}
	switch {
	case p.werr != nil:
		simrt.Probe("writer-failed")
		r.Check(p.err == p.werr, "error", "returned %v, the writer failed with %v", p.err, p.werr)
		if p.ret > last+slack && p.ret > last+slack+w.InjectedIn(last, p.ret) {
			r.Fail("late-return", "returned %s after the write failed", p.ret-last)
		}
	case p.err == nil:
		simrt.Probe("played-all")
		r.Check(p.complete, "incomplete", "returned nil after %d writes", len(p.at))
	default:
		simrt.Probe("cancelled")
		r.Check(!p.list || !p.complete, "error", "returned %v although every frame was played", p.err)
		want := context.Canceled
		if p.c.deadline {
			want = context.DeadlineExceeded
		}
		r.Check(p.err == want, "error", "returned %v, want %v", p.err, want)
		r.Check(p.c.ctx.Err() != nil, "error", "returned %v although the context is alive", p.err)
		from := max(last, p.c.done)
		if p.c.at >= last-p.dur && p.c.at <= last && len(p.at) > 0 && p.c.at >= p.at[len(p.at)-1] {
			simrt.Probe("cancel-during-write")
		}
		if p.ret > from+slack && p.ret > from+slack+w.InjectedIn(from, p.ret) {
			r.Fail("late-return", "returned %s after the cancellation", p.ret-from)
		}
	}
}

func fill[E any](p *pacing, fs []recF[E]) {
	for _, f := range fs {
		p.at = append(p.at, f.at)
		p.end = append(p.end, f.end)
		if f.err != nil {
			p.werr = f.err
		}
	}
}

func playMain(r *R) {
	d, w := r.D, r.W
	dur := 20 * time.Millisecond
	out := &pcmRec{r: r, name: "audio", rate: pick(d, 400, 800, 50, 8000)}
	if r.Faults {
		out.errNum = pick(d, 0, 0, 5, 30)
		out.slow = pick(d, 0, dur/2, 3*dur)
	}
	p := &pacing{r: r}
	if d.Bool(1, 2) {
		dur = pick(d, 20*time.Millisecond, 10*time.Millisecond, time.Millisecond*5/2, 60*time.Millisecond)
		n := d.Log(0, 60)
		if d.Bool(1, 30) {
			n = d.Range(61, 1200)
			simrt.Probe("long-list")
		}
		var frames []msdk.PCM16Sample
		for i := 0; i < n; i++ {
			f := make(msdk.PCM16Sample, d.Int(4))
			for j := range f {
				f[j] = int16(i + 1)
			}
			frames = append(frames, f)
		}
		orig := clone(frames)
		p.c = drawCancel(r, time.Duration(n+3)*dur)
		p.t0, p.dur, p.busy0 = w.Now(), dur, w.Busy()
		t := w.Spawn("player", func() {
			p.err = msdk.PlayAudio[msdk.PCM16Sample](p.c.ctx, out, dur, frames)
			p.ret = w.Now()
			simrt.Log("PlayAudio -> %v", p.err)
		})
		r.Finish(t, time.Duration(n)*dur, time.Duration(n+2)*(dur*2+out.slow)+time.Second, "stuck")
		n1 := len(out.frames)
		simrt.SleepExact(5 * dur)
		r.Check(len(out.frames) == n1, "after-return", "a frame was written after PlayAudio returned")
		for i, f := range out.frames {
			if i >= len(orig) || !eq(f.data, []int16(orig[i])) {
				r.Fail("wrong-frame", "write %d is %v", i, f.data)
			}
		}
		p.complete, p.list = len(out.frames) == n, true
		if n == 0 {
			r.Check(p.err == nil, "error", "playing nothing returned %v", p.err)
			return
		}
		fill(p, out.frames)
		p.check()
		return
	}
	// tones
	var ts []tones.Tone
	type seg struct {
		freq []int
		n    int
	}
	var segs []seg
	vol := int16(pick(d, 10000, 32767, 1))
	if d.Bool(1, 8) {
		ts = tones.ETSIDial
		segs = []seg{{[]int{425}, 1}}
	} else {
		nt := d.Range(1, 3)
		if d.Bool(1, 16) {
			nt = d.Range(4, 12)
		}
		for i := nt; i > 0; i-- {
			t := tones.Tone{Dur: d.Dur(time.Millisecond, 130*time.Millisecond)}
			if d.Bool(2, 3) {
				t.Silence = d.Dur(time.Millisecond, 130*time.Millisecond)
			}
			if d.Bool(1, 4) {
				t.Dur = t.Dur / dur * dur
				t.Silence = t.Silence / dur * dur
				t.Dur = max(t.Dur, dur)
			}
			var fr []int
			for k := d.Range(1, 2); k > 0; k-- {
				f := pick(d, 425, 350, 440, 1000)
				t.Freq = append(t.Freq, tones.Hz(f))
				fr = append(fr, f)
			}
			ts = append(ts, t)
			segs = append(segs, seg{fr, int((t.Dur + dur - 1) / dur)})
			if t.Silence > 0 {
				segs = append(segs, seg{nil, int((t.Silence + dur - 1) / dur)})
			}
		}
	}
	span := time.Duration(d.Log(1, 80)) * dur
	if d.Bool(1, 30) {
		span = time.Duration(d.Range(81, 4000)) * dur
		simrt.Probe("long-tone")
	}
	p.c = drawCancel(r, span)
	p.t0, p.dur, p.busy0 = w.Now(), dur, w.Busy()
	t := w.Spawn("player", func() {
		p.err = tones.Play(p.c.ctx, out, vol, ts)
		p.ret = w.Now()
		simrt.Log("tones.Play -> %v", p.err)
	})
	if p.c.at == never {
		t.Join(span)
		p.c.at = w.Now()
		p.c.cancel()
		p.c.done = w.Now()
	} else {
		t.Join(p.c.at - w.Now())
	}
	r.Finish(t, dur, 40*(dur+out.slow), "stuck")
	if p.err == nil {
		r.Fail("returned", "tones.Play returned nil")
	}
	k, si, left := 0, 0, segs[0].n
	for i, f := range out.frames {
		if left == 0 {
			si = (si + 1) % len(segs)
			left = segs[si].n
		}
		left--
		want := wave(out.rate/50, time.Duration(i)*dur, dur, vol, segs[si].freq)
		if !near(f.data, want, 2) {
			r.Fail("wrong-frame", "frame %d (segment %d of %d) is %v, want %v", i, si, len(segs), f.data[:min(8, len(f.data))], want[:min(8, len(want))])
		}
		k++
	}
	if k > 0 {
		simrt.Probe("tone-played")
	}
	fill(p, out.frames)
	p.check()
}

type rtpRec struct {
	r      *R
	errNum int
	slow   time.Duration
	pk     []recF[byte]
	h      []rtp.Header
	only   byte
	err    error
}

func (o *rtpRec) String() string { return "rtp" }
func (o *rtpRec) WriteRTP(h *rtp.Header, p []byte) (int, error) {
	if h.PayloadType != o.only {
		return len(p), nil
	}
	i := len(o.pk)
	o.pk = append(o.pk, recF[byte]{at: o.r.W.Now(), data: clone(p)})
	o.h = append(o.h, *h)
	simrt.Log("event ts=%d m=%v %x", h.Timestamp, h.Marker, p)
	if o.slow > 0 && o.r.F.Bool(1, 6) {
		simrt.Fault("slow-writer")
		simrt.SleepExact(o.r.F.Dur(0, o.slow))
	}
	var err error
	if o.errNum > 0 && o.r.F.Bool(1, o.errNum) {
		simrt.Fault("writer-error")
		err = newErr("rtp write %d failed", i)
		o.err = err
	}
	o.pk[i].end = o.r.W.Now()
	o.pk[i].err = err
	return len(p), err
}

var dtmfFreq = map[byte][]int{'1': {697, 1209}, '2': {697, 1336}, '3': {697, 1477}, 'a': {697, 1633},
	'4': {770, 1209}, '5': {770, 1336}, '6': {770, 1477}, 'b': {770, 1633},
	'7': {852, 1209}, '8': {852, 1336}, '9': {852, 1477}, 'c': {852, 1633},
	'*': {941, 1209}, '0': {941, 1336}, '#': {941, 1477}, 'd': {941, 1633}}

const dtmfChars = "0123456789*#abcd"

func dtmfMain(r *R) {
	d, w := r.D, r.W
	const step = 20 * time.Millisecond
	var digits []byte
	nd0 := d.Log(0, 6)
	if d.Bool(1, 40) {
		nd0 = d.Range(7, 40)
		simrt.Probe("many-digits")
	}
	for i := nd0; i > 0; i-- {
		if d.Bool(1, 4) {
			digits = append(digits, 'w')
			simrt.Probe("pause")
		} else {
			digits = append(digits, dtmfChars[d.Int(16)])
		}
	}
	out := &rtpRec{r: r, only: 101}
	audio := &pcmRec{r: r, name: "audio", rate: pick(d, 800, 400, 8000)}
	if r.Faults {
		out.errNum = pick(d, 0, 0, 10, 60)
		audio.errNum = pick(d, 0, 0, 20, 100)
		sl := pick(d, 0, step/2, 3*step)
		out.slow, audio.slow = sl, sl
	}
	seq := mrtp.NewSeqWriter(out)
	ev := seq.NewStream(101, 8000)
	useEv, useAu := true, true
	switch d.Weighted(3, 1, 1) {
	case 1:
		useEv = false
		simrt.Probe("no-events")
	case 2:
		useAu = false
		simrt.Probe("no-audio")
	}
	startTS := uint32(pick(d, 0, 160, 1<<20))
	if d.Bool(1, 8) {
		startTS = 0xFFFFFF00 - uint32(d.Int(20000))
	}
	stop := false
	other := false
	if useEv && d.Bool(1, 4) {
		// the call's audio goes through the same sequence writer
		other = true
		simrt.Probe("other-stream")
		au := seq.NewStream(0, 8000)
		au.ResetTimestamp(startTS)
		w.Spawn("voice", func() {
			for !stop {
				simrt.SleepExact(step)
				au.WritePayload([]byte{1, 2, 3}, false)
			}
		})
	}
	text := string(digits)
	span := time.Duration(0)
	for _, c := range digits {
		if c == 'w' {
			span += 500 * time.Millisecond
		} else {
			span += 520 * time.Millisecond
		}
	}
	p := &pacing{r: r, dur: step}
	p.c = drawCancel(r, span+100*time.Millisecond)
	p.t0, p.busy0 = w.Now(), w.Busy()
	var evp *mrtp.Stream
	var aup msdk.Writer[msdk.PCM16Sample]
	if useEv {
		evp = ev
	}
	if useAu {
		aup = audio
	}
	t := w.Spawn("dtmf", func() {
		p.err = dtmf.Write(p.c.ctx, aup, evp, startTS, text)
		p.ret = w.Now()
		simrt.Log("dtmf.Write(%q) -> %v", text, p.err)
	})
	r.Finish(t, span, 2*span+300*(out.slow+step), "stuck")
	stop = true
	if out.err != nil || len(audio.errs) > 0 {
		simrt.Probe("writer-failed")
	}
	werr := out.err
	if len(audio.errs) > 0 {
		werr = audio.errs[0]
		r.Check(out.err == nil && len(audio.errs) == 1, "continued-after-error", "transmission went on after a writer failed")
	}
	complete := p.err == nil
	// what the digits mean, tick by tick
	type tick struct {
		digit byte
		first bool
		idx   int // index of the digit among the digits
		k     int // position within the tone, -1 silence
	}
	var plan []tick
	nd := 0
	for _, c := range digits {
		if c == 'w' {
			for i := 0; i < 25; i++ {
				plan = append(plan, tick{k: -1})
			}
			continue
		}
		for i := 0; i < 13; i++ {
			plan = append(plan, tick{digit: c, idx: nd, k: i})
		}
		for i := 0; i < 13; i++ {
			plan = append(plan, tick{k: -1})
		}
		nd++
	}
	if useAu {
		for i, f := range audio.frames {
			if i >= len(plan) {
				r.Fail("too-much-audio", "%d audio frames, %q needs %d", len(audio.frames), text, len(plan))
			}
			want := wave(audio.rate/50, time.Duration(i)*step, step, 32767/2, dtmfFreq[plan[i].digit])
			if plan[i].k < 0 {
				want = make([]int16, audio.rate/50)
			}
			if !near(f.data, want, 2) {
				r.Fail("wrong-audio", "audio frame %d of %q is %v, want %v", i, text, f.data[:8], want[:8])
			}
		}
		if complete {
			r.Check(len(audio.frames) == len(plan), "audio-missing", "%d audio frames, %q needs %d", len(audio.frames), text, len(plan))
		}
		fill(p, audio.frames)
		p.werr = werr
		p.complete = complete
		if out.slow == 0 {
			p.check()
		}
	} else {
		p.complete = complete
		p.werr = werr
		if n := len(out.pk); n > 0 {
			// only the end of the transmission is known
			p.end = append(p.end, out.pk[n-1].end)
		}
		if p.c.done < never || werr != nil {
			q := *p
			if q.err != nil {
				q.check()
			}
		}
	}
	r.Check(p.err != nil || werr == nil, "error-lost", "dtmf.Write returned nil although a writer failed with %v", werr)
	if !useEv {
		if complete {
			simrt.Probe("complete")
		}
		return
	}
	// events
	var groups [][]int
	for i := range out.pk {
		if len(groups) > 0 && out.h[groups[len(groups)-1][0]].Timestamp == out.h[i].Timestamp && !out.h[i].Marker {
			groups[len(groups)-1] = append(groups[len(groups)-1], i)
		} else {
			groups = append(groups, []int{i})
		}
	}
	var want []byte
	var pauses []int // half seconds before each digit
	pz := 0
	for _, c := range digits {
		if c == 'w' {
			pz++
			continue
		}
		want = append(want, c)
		pauses = append(pauses, pz)
		pz = 0
	}
	r.Check(len(groups) <= len(want), "too-many-events", "%d events for %q", len(groups), text)
	if complete {
		simrt.Probe("complete")
		r.Check(len(groups) == len(want), "event-missing", "%d events for %q", len(groups), text)
	}
	ts := startTS
	for g, ix := range groups {
		ts += uint32(pauses[g]) * 4000
		h0 := out.h[ix[0]]
		r.Check(h0.Marker, "marker", "first packet of event %d (%c) has no marker", g, want[g])
		if !other {
			r.Check(h0.Timestamp == ts, "event-timestamp", "event %d (%c) of %q has timestamp %d, want %d", g, want[g], text, h0.Timestamp, ts)
		} else if after(ts, h0.Timestamp) {
			r.Fail("event-timestamp", "event %d (%c) of %q has timestamp %d, before %d", g, want[g], text, h0.Timestamp, ts)
		}
		ts = h0.Timestamp + 4000
		full := complete || g < len(groups)-1
		if full {
			r.Check(len(ix) == 15, "event-packets", "event %d (%c) has %d packets, want 15", g, want[g], len(ix))
		}
		r.Check(len(ix) <= 15, "event-packets", "event %d (%c) has %d packets, want 15", g, want[g], len(ix))
		for k, i := range ix {
			h := out.h[i]
			r.Check(h.Timestamp == h0.Timestamp && h.Marker == (k == 0), "event-header", "packet %d of event %d: %+v", k, g, h)
			b := out.pk[i].data
			e, err := dtmf.Decode(b)
			if err != nil || len(b) != 4 {
				r.Fail("event-payload", "packet %d of event %d does not decode: %x", k, g, b)
			}
			n := min(k, 12)
			wantDur := uint16(160 * (n + 1))
			if e.Code != byte(strings.IndexByte(dtmfChars, want[g])) || e.Digit != want[g] || e.Dur != wantDur || e.End != (k >= 12) {
				r.Fail("event-payload", "packet %d of event %d (%c): %+v, want duration %d end %v", k, g, want[g], e, wantDur, k >= 12)
			}
		}
		if useAu && !other {
			// matching positions
			tone := 13
			if !full {
				tone = min(13, len(ix))
			}
			off := 0
			for j := 0; j < len(plan); j++ {
				if plan[j].k == 0 && plan[j].idx == g && plan[j].digit != 0 {
					off = j
				}
			}
			for k := 0; k < tone && off+k < len(audio.frames); k++ {
				a, e := audio.frames[off+k], out.pk[ix[k]]
				if e.at < a.end {
					r.Fail("positions", "packet %d of event %d sent before its audio frame", k, g)
				}
				if off+k+1 < len(audio.frames) && e.end > audio.frames[off+k+1].at {
					r.Fail("positions", "packet %d of event %d sent after the next audio frame", k, g)
				}
			}
		}
	}
	// time between digits
	for g := 1; g < len(groups); g++ {
		gap := out.pk[groups[g][0]].at - out.pk[groups[g-1][0]].at
		wantGap := 500*time.Millisecond + time.Duration(pauses[g])*500*time.Millisecond
		jit := step + w.InjectedIn(out.pk[groups[g-1][0]].at-out.slow-step, out.pk[groups[g][0]].at)
		if out.slow == 0 && audio.slow == 0 {
			r.Check(gap >= wantGap-jit, "too-fast", "digits %d and %d are %s apart, want %s", g-1, g, gap, wantGap)
		}
	}
}
