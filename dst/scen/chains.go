package scen

import (
	"errors"
	"fmt"
	"io"
	"math"
	"strings"
	"time"

	"github.com/pion/webrtc/v4/pkg/media"

	"simw/simrt"
	msdk "simw/x/github.com/livekit/media-sdk"
)

func init() {
	register(&Scen{Name: "pcmbuf", Props: []string{"C12"}, Main: pcmbufMain, Weight: 3,
		Real:    []string{"PCM16BufferWriter", "PCM16FrameWriter", "PCM16BufferReader", "media.FromSampleWriter"},
		Stub:    []string{"writers", "scheduler"},
		Reached: []string{"write-after-close", "media-samples"}})
	register(&Scen{Name: "pipe", Props: []string{"C11"}, Main: pipeMain,
		Real:    []string{"media.Pipe"},
		Stub:    []string{"readers, writers, closers", "scheduler"},
		Reached: []string{"partial-read", "blocked-write-released", "blocked-read-released", "empty-write", "double-close", "both-closed", "large-blocks"}})
	register(&Scen{Name: "frames", Props: []string{"C12"}, Main: framesMain,
		Real:    []string{"media.FullFrames"},
		Stub:    []string{"underlying writer (slow, failing)", "callers", "scheduler"},
		Reached: []string{"writer-failed", "short-last", "backlog", "close-failed", "large-frames"}})
	register(&Scen{Name: "switch", Props: []string{"C13"}, Main: switchMain,
		Real:    []string{"media.SwitchWriter", "media.ResampleWriter (libsoxr)"},
		Stub:    []string{"attached writers (slow, failing)", "callers", "scheduler"},
		Reached: []string{"swapped-mid-write", "not-routed", "resampled", "disabled", "rate-race", "printed"}})
	register(&Scen{Name: "multi", Props: []string{"C24"}, Main: multiMain,
		Real:    []string{"media.MultiWriter", "media.NopCloser"},
		Stub:    []string{"branches (slow, failing)", "callers", "scheduler"},
		Reached: []string{"branch-failed", "close-failed", "nested", "empty"}})
}

const open64 = int64(math.MaxInt64)

// ---- pipe ----

type pipeOp struct {
	inv, ret int64
	data     []int16 // tokens (write: as given, read: as obtained)
	err      error
	blk      int
	buf      int
}

type pipeClose struct {
	inv, ret int64
	err      error
}

func pipeMain(r *R) {
	d, w := r.D, r.W
	pr, pw := msdk.Pipe[msdk.PCM16Sample, int16](8000)
	var seq int64
	next := func() int64 { seq++; return seq }
	var writes, reads []*pipeOp
	var rcl, wcl []*pipeClose
	tok := int16(0)
	nw, nr := d.Range(1, 3), d.Range(1, 3)
	per := d.Log(1, 12)
	rsz := pick(d, 8, 1, 3, 20)
	wsz, rmin := 11, 0
	if d.Bool(1, 20) { // frames of the size of real ones, and larger
		simrt.Probe("large-blocks")
		per = min(per, 3)
		wsz = pick(d, 3000, 960, 2000)
		rsz = pick(d, 4096, 960, 1000, 300)
		rmin = rsz / 3
	}
	var tasks []*simrt.Task
	stopRead := false
	for i := 0; i < nw; i++ {
		s := w.Stream(fmt.Sprintf("w%d", i))
		tasks = append(tasks, w.Spawn(fmt.Sprintf("writer%d", i), func() {
			for k := 0; k < per; k++ {
				if s.Bool(1, 3) {
					simrt.SleepExact(s.Dur(0, 3*time.Millisecond))
				}
				n := s.Int(wsz + 1)
				if n == 0 {
					simrt.Probe("empty-write")
				}
				buf := make(msdk.PCM16Sample, n)
				for j := range buf {
					tok++
					buf[j] = tok
				}
				o := &pipeOp{inv: next(), ret: open64, data: clone([]int16(buf))}
				writes = append(writes, o)
				simrt.Log("write %v", []int16(buf))
				o.err = pw.WriteSample(buf)
				o.ret = next()
				simrt.Log("write %v -> %v", o.data, o.err)
				for j := range buf {
					buf[j] = -1
				}
				if o.err != nil && s.Bool(1, 2) {
					return
				}
			}
		}))
	}
	for i := 0; i < nr; i++ {
		s := w.Stream(fmt.Sprintf("r%d", i))
		tasks = append(tasks, w.Spawn(fmt.Sprintf("reader%d", i), func() {
			bad := 0
			for !stopRead {
				if s.Bool(1, 4) {
					simrt.SleepExact(s.Dur(0, 3*time.Millisecond))
				}
				buf := make(msdk.PCM16Sample, s.Range(rmin, rsz))
				o := &pipeOp{inv: next(), ret: open64, buf: len(buf)}
				reads = append(reads, o)
				n, err := pr.ReadSample(buf)
				o.ret = next()
				o.err = err
				if n < 0 || n > len(buf) {
					r.Fail("read-count", "read into %d returned %d", len(buf), n)
				}
				o.data = clone([]int16(buf[:n]))
				simrt.Log("read(%d) -> %v %v", len(buf), o.data, err)
				if err != nil {
					r.Check(n == 0, "data-with-error", "read returned %d samples and %v", n, err)
					if bad++; bad > 2 {
						return
					}
				}
			}
		}))
	}
	// closers
	nc := d.Range(1, 3)
	span := time.Duration(d.Int(30)) * time.Millisecond
	for i := 0; i < nc; i++ {
		s := w.Stream(fmt.Sprintf("c%d", i))
		side, cust, twice := s.Bool(1, 2), s.Bool(1, 2), s.Bool(1, 4)
		tasks = append(tasks, w.Spawn(fmt.Sprintf("closer%d", i), func() {
			simrt.SleepExact(s.Dur(0, span))
			n := 1
			if twice {
				n = 2
				simrt.Probe("double-close")
			}
			for k := 0; k < n; k++ {
				var e error
				if cust {
					e = newErr("closed by %d.%d", i, k)
				}
				c := &pipeClose{inv: next(), ret: open64}
				var err error
				if side {
					c.err = e
					if e == nil {
						c.err = io.EOF
					}
					wcl = append(wcl, c)
					if e == nil && s.Bool(1, 2) {
						err = pw.Close()
					} else {
						err = pw.CloseWithError(e)
					}
				} else {
					c.err = e
					if e == nil {
						c.err = io.ErrClosedPipe
					}
					rcl = append(rcl, c)
					if e == nil && s.Bool(1, 2) {
						err = pr.Close()
					} else {
						err = pr.CloseWithError(e)
					}
				}
				c.ret = next()
				simrt.Log("close writer=%v %v -> %v", side, c.err, err)
				if err != nil {
					r.Fail("close-error", "close returned %v", err)
				}
			}
		}))
	}
	simrt.SleepExact(span)
	for _, t := range tasks[nw+nr:] {
		r.Finish(t, time.Second, time.Second, "close-hangs")
	}
	r.Calm()
	for _, t := range tasks {
		lim := 3*time.Duration(per)*5*time.Millisecond + time.Second + w.InjectedSince(w.Now())
		if !t.Join(lim) {
			r.Fail("hangs", "%s still blocked in %q %s after the pipe was closed", t.Name, t.Where(), lim)
		}
	}
	if len(rcl) > 0 && len(wcl) > 0 {
		simrt.Probe("both-closed")
	}
	// content
	owner := map[int16][2]int{}
	for b, o := range writes {
		for j, t := range o.data {
			owner[t] = [2]int{b, j}
		}
	}
	parts := map[int][]*pipeOp{}
	seen := map[int16]bool{}
	zeros := 0
	for _, o := range reads {
		if o.err == nil && len(o.data) == 0 && o.buf > 0 {
			zeros++
		}
		for j, t := range o.data {
			x, ok := owner[t]
			if !ok {
				r.Fail("invented", "read returned %v; %d was never written (or the writer's buffer was read after its write had returned)", o.data, t)
			}
			if seen[t] {
				r.Fail("twice", "sample %d was read twice", t)
			}
			seen[t] = true
			if j == 0 {
				o.blk = x[0]
				parts[x[0]] = append(parts[x[0]], o)
				if x[1] > 0 {
					simrt.Probe("partial-read")
				}
			} else if y := owner[o.data[j-1]]; y[0] != x[0] || y[1]+1 != x[1] {
				r.Fail("order", "read returned %v: not a contiguous piece of one write", o.data)
			}
		}
	}
	empties := 0
	for b, o := range writes {
		if len(o.data) == 0 {
			empties++
		}
		got := 0
		maxRet := int64(0)
		for _, t := range o.data {
			if !seen[t] {
				break
			}
			got++
		}
		for i, t := range o.data {
			if seen[t] != (i < got) {
				r.Fail("lost", "of the write %v sample %d was read but an earlier one was not", o.data, t)
			}
		}
		if o.err == nil {
			if got != len(o.data) {
				r.Fail("lost", "write %v succeeded but only %d samples were read", o.data, got)
			}
			for _, p := range parts[b] {
				if p.inv > o.ret {
					r.Fail("early-success", "write %v returned before its data was read", o.data)
				}
			}
		}
		// pieces in order
		ps := parts[b]
		for i := range ps {
			for j := range ps {
				if ps[i].data[0] < ps[j].data[0] && ps[j].ret < ps[i].inv {
					r.Fail("order", "%v was read after %v", ps[i].data, ps[j].data)
				}
			}
		}
		_ = maxRet
	}
	r.Check(zeros <= empties, "empty-read", "%d reads returned nothing, %d empty writes", zeros, empties)
	// one order of the blocks
	before := func(a, b int) bool {
		if writes[a].ret < writes[b].inv {
			return true
		}
		for _, x := range parts[a] {
			for _, y := range parts[b] {
				if x.ret < y.inv {
					return true
				}
			}
		}
		return false
	}
	n := len(writes)
	indeg := make([]int, n)
	adj := make([][]int, n)
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			if a != b && (len(parts[a]) > 0 || writes[a].ret < writes[b].inv) && before(a, b) {
				adj[a] = append(adj[a], b)
				indeg[b]++
			}
		}
	}
	left := n
	var q []int
	for i := range indeg {
		if indeg[i] == 0 {
			q = append(q, i)
		}
	}
	for len(q) > 0 {
		a := q[0]
		q = q[1:]
		left--
		for _, b := range adj[a] {
			if indeg[b]--; indeg[b] == 0 {
				q = append(q, b)
			}
		}
	}
	r.Check(left == 0, "order", "no order of the writes explains what was read")
	// errors
	firstErr := func(own, other []*pipeClose, o *pipeOp, what string, got map[error]bool) {
		if o.err == nil {
			for _, c := range append(clone(own), other...) {
				if c.ret < o.inv {
					r.Fail("after-close", "%s succeeded although the pipe had been closed before it began", what)
				}
			}
			return
		}
		ok := false
		ownBefore := false
		for _, c := range own {
			if c.inv < o.ret && o.err == io.ErrClosedPipe {
				ok = true
			}
			if c.ret < o.inv {
				ownBefore = true
			}
		}
		for _, c := range other {
			if c.inv < o.ret && o.err == c.err {
				first := true
				for _, e := range other {
					if e.ret < c.inv {
						first = false
					}
				}
				if first {
					ok = true
					if !(o.err == io.ErrClosedPipe && len(own) > 0) {
						got[o.err] = true
					}
				}
			}
		}
		if ownBefore && len(own) > 0 && o.err != io.ErrClosedPipe {
			ok = false
		}
		if !ok {
			r.Fail("close-error", "%s returned %v", what, o.err)
		}
		simrt.Probe(what)
	}
	ge := map[error]bool{}
	for _, o := range reads {
		firstErr(rcl, wcl, o, "blocked-read-released", ge)
	}
	r.Check(len(ge) <= 1, "first-error", "readers saw different close errors: %v", ge)
	ge = map[error]bool{}
	for _, o := range writes {
		firstErr(wcl, rcl, o, "blocked-write-released", ge)
	}
	r.Check(len(ge) <= 1, "first-error", "writers saw different close errors: %v", ge)
}

// ---- frame buffer ----

// blkOrder checks that a token stream is a concatenation of whole blocks in
// an order consistent with real time. Returns the blocks in that order.
func blkOrder(r *R, writes []*pipeOp, stream []int16, partial bool) {
	owner := map[int16][2]int{}
	for b, o := range writes {
		for j, t := range o.data {
			owner[t] = [2]int{b, j}
		}
	}
	var order []int
	for i := 0; i < len(stream); {
		x, ok := owner[stream[i]]
		if !ok {
			r.Fail("invented", "sample %d at position %d was never written", stream[i], i)
		}
		if x[1] != 0 {
			r.Fail("order", "sample %d at position %d is not the start of a write", stream[i], i)
		}
		blk := writes[x[0]].data
		for j, t := range blk {
			if i+j >= len(stream) {
				if partial {
					break
				}
				r.Fail("lost", "the end of write %v is missing", blk)
			}
			if stream[i+j] != t {
				r.Fail("order", "write %v is not contiguous in the output (%v follows %v)", blk, stream[i+j], stream[max(0, i+j-3):i+j])
			}
		}
		order = append(order, x[0])
		i += len(blk)
	}
	seen := map[int]bool{}
	minRet := open64
	for i := len(order) - 1; i >= 0; i-- {
		o := writes[order[i]]
		if seen[order[i]] {
			r.Fail("twice", "write %v appears twice", o.data)
		}
		seen[order[i]] = true
		if minRet < o.inv {
			r.Fail("order", "write %v was forwarded before one that had finished earlier", o.data)
		}
		minRet = min(minRet, o.ret)
	}
	if !partial {
		for i, o := range writes {
			if len(o.data) > 0 && !seen[i] {
				r.Fail("lost", "write %v was never forwarded", o.data)
			}
		}
	}
}

func framesMain(r *R) {
	d, w := r.D, r.W
	size, large := pick(d, 4, 1, 3, 7, 16), d.Bool(1, 24)
	if large {
		size = pick(d, 960, 160, 2000, 16)
	}
	out := &pcmRec{r: r, name: "out", rate: 8000}
	if r.Faults {
		out.errNum = pick(d, 0, 2, 5, 20)
		out.slow = pick(d, 0, time.Millisecond, 10*time.Millisecond)
	}
	callErr := map[string]error{}
	errNum := out.errNum
	out.errNum = 0
	out.onWrite = func(i int, s msdk.PCM16Sample) error {
		if errNum > 0 && r.F.Bool(1, errNum) {
			simrt.Fault("writer-error")
			simrt.Probe("writer-failed")
			e := newErr("write %d failed", i)
			n := simrt.CurName()
			if callErr[n] != nil {
				r.Fail("continued-after-error", "the same call wrote on after the underlying writer failed")
			}
			callErr[n] = e
			return e
		}
		return nil
	}
	if r.Faults && d.Bool(1, 3) {
		out.closing = newErr("close failed")
		simrt.Probe("close-failed")
	}
	fb := msdk.FullFrames[msdk.PCM16Sample, int16](out, size)
	r.Check(fb.SampleRate() == 8000, "sample-rate", "sample rate %d", fb.SampleRate())
	var seq int64
	next := func() int64 { seq++; return seq }
	tok := int16(0)
	var writes []*pipeOp
	var tasks []*simrt.Task
	per := d.Log(1, 20)
	big := pick(d, 5, 1, 20, 60)
	if large {
		simrt.Probe("large-frames")
		per = min(per, 3)
		big = pick(d, 3500, 960, 2000)
	}
	for i := d.Range(1, 3); i > 0; i-- {
		name := fmt.Sprintf("caller%d", i)
		s := w.Stream(name)
		tasks = append(tasks, w.Spawn(name, func() {
			name := simrt.CurName()
			for k := 0; k < per; k++ {
				if s.Bool(1, 4) {
					simrt.SleepExact(s.Dur(0, 3*time.Millisecond))
				}
				buf := make(msdk.PCM16Sample, s.Int(big+1))
				for j := range buf {
					tok++
					buf[j] = tok
				}
				o := &pipeOp{inv: next(), ret: open64, data: clone([]int16(buf))}
				writes = append(writes, o)
				delete(callErr, name)
				err := fb.WriteSample(buf)
				o.ret = next()
				if err != callErr[name] && !(callErr[name] != nil && errors.Is(err, callErr[name])) {
					r.Fail("error", "WriteSample returned %v, the underlying writer failed with %v", err, callErr[name])
				}
				for j := range buf {
					buf[j] = -1
				}
			}
		}))
	}
	early := d.Bool(1, 4)
	if early {
		simrt.Probe("closed-early")
	} else {
		for _, t := range tasks {
			r.Finish(t, time.Second, 3600*time.Second, "stuck")
		}
	}
	n := len(out.frames)
	closer := ""
	cs := w.Stream("closer")
	t := w.Spawn("closer", func() {
		closer = simrt.CurName()
		if early {
			simrt.SleepExact(cs.Dur(0, time.Duration(per)*time.Millisecond))
		} else if d.Bool(1, 2) {
			errNum = 0
		}
		err := fb.Close()
		if fe := callErr[closer]; fe != nil && !errors.Is(err, fe) {
			r.Fail("error", "Close returned %v, the underlying writer failed with %v", err, fe)
		}
		if out.closing != nil && !errors.Is(err, out.closing) {
			r.Fail("error", "Close returned %v, the underlying Close failed with %v", err, out.closing)
		}
		if err != nil && out.closing == nil && callErr[closer] == nil {
			r.Fail("error", "Close returned %v without a reason", err)
		}
	})
	r.Finish(t, time.Second, 3600*time.Second, "stuck")
	for _, t := range tasks {
		r.Finish(t, time.Second, 3600*time.Second, "stuck")
	}
	r.Check(out.closes == 1, "close-count", "underlying writer closed %d times", out.closes)
	r.Check(out.maxIn <= 1, "concurrent-write", "underlying writer called by two tasks at once")
	var stream []int16
	short := 0
	for i, f := range out.frames {
		if early {
			if len(f.data) == 0 || len(f.data) > size {
				r.Fail("frame-size", "frame %d of %d has %d samples, want %d", i, len(out.frames), len(f.data), size)
			}
			if len(f.data) < size && (i == 0 || out.frames[i-1].err == nil || len(out.frames[i-1].data) == size) {
				// only Close may cut a frame short
				if short++; short > 1 {
					r.Fail("frame-size", "%d short frames", short)
				}
			}
		} else if len(f.data) != size && (i < n || i != len(out.frames)-1 || len(f.data) == 0 || len(f.data) > size) {
			r.Fail("frame-size", "frame %d of %d has %d samples, want %d", i, len(out.frames), len(f.data), size)
		}
		if len(f.data) < size {
			simrt.Probe("short-last")
		}
		if i > 0 && out.frames[i-1].err != nil && eq(out.frames[i-1].data, f.data) {
			continue // a retry would be fine
		}
		if early && f.err != nil && len(f.data) < size && i+1 < len(out.frames) && len(out.frames[i+1].data) >= len(f.data) && eq(out.frames[i+1].data[:len(f.data)], f.data) {
			continue // kept and forwarded with what follows
		}
		stream = append(stream, f.data...)
	}
	failedAtClose := callErr[closer] != nil
	if n < len(out.frames) && len(out.frames)-n > 1 {
		simrt.Probe("backlog")
	}
	blkOrder(r, writes, stream, failedAtClose || early)
	if early && !failedAtClose {
		total := 0
		for _, o := range writes {
			total += len(o.data)
		}
		anyErr := false
		for _, f := range out.frames {
			anyErr = anyErr || f.err != nil
		}
		if !anyErr && total-len(stream) >= size {
			r.Fail("lost", "%d samples written, %d forwarded", total, len(stream))
		}
	}
	if !failedAtClose && !early {
		total := 0
		for _, o := range writes {
			total += len(o.data)
		}
		r.Check(len(stream) == total, "lost", "%d samples written, %d forwarded", total, len(stream))
	}
}

// ---- switch ----

type swAtt struct {
	w        *pcmRec
	inv, ret int64 // Swap in
	oinv     int64 // swap out
	oret     int64
	handed   int
	resample bool
	got      []*swWrite
}

type swWrite struct {
	inv, ret int64
	tok      int16
	data     msdk.PCM16Sample
	at       []*swAtt
	err      error
	werr     error
}

type swIv struct{ inv, ret int64 }

func switchMain(r *R) {
	d, w := r.D, r.W
	var seq int64
	next := func() int64 { seq++; return seq }
	const rate = 16000
	var sw *msdk.SwitchWriter
	if d.Bool(1, 3) {
		// delayed initialisation, possibly racing
		sw = msdk.NewSwitchWriter(-1)
		if p := simrt.Catch(func() { sw.SampleRate() }); p == nil {
			r.Fail("rate-unset", "SampleRate of an uninitialised switch returned")
		}
		n := d.Range(1, 3)
		okN, win := 0, 0
		var ts []*simrt.Task
		for i := 0; i < n; i++ {
			rt := rate
			if n > 1 {
				rt += i
			}
			ts = append(ts, w.Spawn(fmt.Sprintf("rate%d", i), func() {
				if p := simrt.Catch(func() { sw.SetSampleRate(rt) }); p == nil {
					okN++
					win = rt
				}
				if g := sw.SampleRate(); win != 0 && g != win {
					r.Fail("rate-changed", "sample rate is %d although %d was set", g, win)
				}
			}))
		}
		for _, t := range ts {
			r.Join(t, time.Hour, "stuck")
		}
		if n > 1 {
			simrt.Probe("rate-race")
		}
		r.Check(okN == 1, "rate-set-twice", "SetSampleRate succeeded %d times", okN)
		r.Check(sw.SampleRate() == win, "rate-changed", "sample rate is %d although %d was set", sw.SampleRate(), win)
		if p := simrt.Catch(func() { sw.SetSampleRate(8000) }); p == nil || sw.SampleRate() != win {
			r.Fail("rate-set-twice", "the sample rate was changed again")
		}
	} else {
		sw = msdk.NewSwitchWriter(rate)
	}
	own := sw.SampleRate()
	var atts []*swAtt
	byRec := map[*pcmRec]*swAtt{}
	var writes []*swWrite
	inCall := map[string]*swWrite{}
	var none, dis []*swIv // intervals in which nothing may be attached / it may be disabled
	var off []*swIv       // intervals in which it is disabled throughout
	noneNow := &swIv{0, open64}
	none = append(none, noneNow)
	slow := time.Duration(0)
	errNum := 0
	if r.Faults {
		slow = pick(d, 0, time.Millisecond, 5*time.Millisecond)
		errNum = pick(d, 0, 3, 20)
	}
	useResample := d.Bool(1, 10)
	mk := func(s *simrt.Stream) *swAtt {
		a := &swAtt{oinv: open64, oret: open64, ret: open64}
		rt := own
		if useResample && s.Bool(1, 2) {
			rt = pick(s, 8000, 48000)
			a.resample = true
			simrt.Probe("resampled")
		}
		a.w = &pcmRec{r: r, name: fmt.Sprintf("w%d", len(atts)), rate: rt, slow: slow, yield: true}
		a.w.onWrite = func(i int, smp msdk.PCM16Sample) error {
			if a.resample {
				if a.w.closes > 0 {
					r.Fail("write-after-close", "a closed writer was written to")
				}
				return nil
			}
			wr := inCall[simrt.CurName()]
			if wr == nil || !eq([]int16(smp), []int16(wr.data)) {
				r.Fail("invented", "writer got %v during no such write", smp)
			}
			wr.at = append(wr.at, a)
			if errNum > 0 && r.F.Bool(1, errNum) {
				simrt.Fault("writer-error")
				wr.werr = newErr("writer failed")
				return wr.werr
			}
			return nil
		}
		atts = append(atts, a)
		byRec[a.w] = a
		return a
	}
	nsw := d.Range(1, 2)
	var attached *swAtt // what a single swapper knows to be attached
	// expect: with one swapper, Swap and Get return what was attached last.
	expect := func(op string, got msdk.PCM16Writer) {
		switch {
		case nsw > 1:
		case attached == nil:
			if got != nil {
				r.Fail("swap-result", "%s returned %v although nothing was attached", op, got)
			}
		case attached.resample:
			if got == nil {
				r.Fail("swap-result", "%s returned nothing although %s was attached", op, attached.w.name)
			}
		case got != msdk.PCM16Writer(attached.w):
			r.Fail("swap-result", "%s returned %v although %s was attached", op, got, attached.w.name)
		}
	}
	gone := func(inv, ret int64) {
		if nsw == 1 && attached != nil {
			attached.oinv, attached.oret = inv, ret
		}
	}
	// handBack: the caller of Swap closes what it got back.
	handBack := func(old msdk.PCM16Writer, inv, ret int64, viaClose bool) {
		if old == nil {
			return
		}
		if rec, ok := old.(*pcmRec); ok {
			a := byRec[rec]
			a.handed++
			if a.handed > 1 {
				r.Fail("handed-back-twice", "%s was handed back twice", a.w.name)
			}
			a.oinv, a.oret = inv, ret
		}
		old.Close()
	}
	var tasks []*simrt.Task
	per := d.Log(2, 25)
	tok := int16(0)
	for i := d.Range(1, 3); i > 0; i-- {
		name := fmt.Sprintf("sender%d", i)
		s := w.Stream(name)
		tasks = append(tasks, w.Spawn(name, func() {
			name := simrt.CurName()
			for k := 0; k < per; k++ {
				if s.Bool(1, 3) {
					simrt.SleepExact(s.Dur(0, 3*time.Millisecond))
				}
				tok++
				buf := msdk.PCM16Sample{tok, tok + 1}
				if useResample {
					buf = make(msdk.PCM16Sample, 320)
					buf[0] = tok
				} else if s.Bool(1, 6) {
					buf = buf[:s.Int(2)]
				}
				wr := &swWrite{inv: next(), ret: open64, tok: tok, data: clone(buf)}
				writes = append(writes, wr)
				inCall[name] = wr
				wr.err = sw.WriteSample(buf)
				wr.ret = next()
				delete(inCall, name)
			}
		}))
	}
	for i := 0; i < nsw; i++ {
		name := fmt.Sprintf("swapper%d", i)
		s := w.Stream(name)
		tasks = append(tasks, w.Spawn(name, func() {
			for k := s.Int(per + 1); k > 0; k-- {
				simrt.SleepExact(s.Dur(0, 3*time.Millisecond))
				switch s.Weighted(5, 2, 1, 1) {
				case 0:
					a := mk(s)
					a.inv = next()
					old := sw.Swap(a.w)
					a.ret = next()
					simrt.Log("swap in %s", a.w.name)
					expect("Swap", old)
					gone(a.inv, a.ret)
					attached = a
					if noneNow != nil && noneNow.inv < a.inv {
						noneNow.ret = a.ret
						noneNow = nil
					}
					handBack(old, a.inv, a.ret, false)
				case 1:
					iv := &swIv{next(), open64}
					none = append(none, iv)
					old := sw.Swap(nil)
					simrt.Log("swap nil")
					expect("Swap(nil)", old)
					gone(iv.inv, next())
					attached = nil
					if nsw == 1 {
						noneNow = iv
					} else {
						noneNow = nil // with several swappers it may end any time
					}
					handBack(old, iv.inv, next(), false)
				case 2:
					iv := &swIv{next(), open64}
					none = append(none, iv)
					closed := map[*pcmRec]int{}
					for _, a := range atts {
						closed[a.w] = a.w.closes
					}
					was := attached
					sw.Close()
					simrt.Log("close")
					gone(iv.inv, next())
					if attached = nil; nsw == 1 && was != nil && was.w.closes != 1 {
						r.Fail("close-count", "%s was attached when the switch was closed, it was closed %d times", was.w.name, was.w.closes)
					}
					if nsw == 1 {
						noneNow = iv
					} else {
						noneNow = nil
					}
					ret := next()
					for _, a := range atts {
						if a.handed == 0 && a.w.closes > closed[a.w] && a.oinv == open64 {
							a.oinv, a.oret = iv.inv, ret
						}
					}
				case 3:
					g := sw.Get()
					expect("Get", g)
					if g, ok := g.(*pcmRec); ok && byRec[g] == nil {
						r.Fail("get", "Get returned a writer that was never attached")
					}
				}
			}
		}))
	}
	if d.Bool(1, 3) {
		s := w.Stream("disabler")
		tasks = append(tasks, w.Spawn("disabler", func() {
			for k := s.Int(4); k > 0; k-- {
				simrt.SleepExact(s.Dur(0, 5*time.Millisecond))
				iv := &swIv{next(), open64}
				dis = append(dis, iv)
				sw.Disable()
				simrt.Probe("disabled")
				in := &swIv{next(), open64}
				off = append(off, in)
				simrt.SleepExact(s.Dur(0, 5*time.Millisecond))
				in.ret = next()
				sw.Enable()
				iv.ret = next()
			}
		}))
	}
	if d.Bool(1, 4) { // somebody prints the switch now and then
		s := w.Stream("viewer")
		tasks = append(tasks, w.Spawn("viewer", func() {
			for k := s.Range(1, 6); k > 0; k-- {
				simrt.SleepExact(s.Dur(0, 4*time.Millisecond))
				simrt.Probe("printed")
				if txt := sw.String(); !strings.HasPrefix(txt, fmt.Sprintf("Switch(%d)", own)) {
					r.Fail("description", "the switch describes itself as %q", txt)
				}
			}
		}))
	}
	for _, t := range tasks {
		r.Finish(t, time.Second, 3600*time.Second, "stuck")
	}
	sw.Close()
	if err := sw.Close(); err != nil {
		r.Fail("close-twice", "second Close returned %v", err)
	}
	for _, a := range atts {
		if a.w.closes != 1 {
			r.Fail("close-count", "%s was attached once but closed %d times", a.w.name, a.w.closes)
		}
	}
	for _, a := range atts {
		if !a.resample || nsw > 1 {
			continue
		}
		lo, hi, got := 0, 0, 0
		for _, f := range a.w.frames {
			got += len(f.data)
		}
		for _, wr := range writes {
			if wr.ret > a.inv && wr.inv < a.oret {
				hi += 320
			}
			in := wr.inv > a.ret && wr.ret < a.oinv
			for _, iv := range dis {
				if iv.inv < wr.ret && iv.ret > wr.inv {
					in = false
				}
			}
			if in {
				lo += 320
			}
		}
		lo, hi = lo*a.w.rate/own, hi*a.w.rate/own
		if got < lo-2 || got > hi+2 {
			r.Fail("resampled-amount", "%s (%d Hz) received %d samples, between %d and %d were routed to it at %d Hz", a.w.name, a.w.rate, got, lo, hi, own)
		}
	}
	for _, wr := range writes {
		if useResample {
			continue
		}
		r.Check(wr.err == wr.werr, "error", "write returned %v, the writer said %v", wr.err, wr.werr)
		if len(wr.at) > 1 {
			r.Fail("duplicated", "sample %d reached %d writers", wr.tok, len(wr.at))
		}
		if len(wr.at) == 0 {
			simrt.Probe("not-routed")
			ok := false
			for _, iv := range append(clone(none), dis...) {
				if iv.inv < wr.ret && iv.ret > wr.inv {
					ok = true
				}
			}
			if !ok {
				r.Fail("lost", "sample %d reached no writer although one was attached and enabled throughout the call", wr.tok)
			}
			continue
		}
		a := wr.at[0]
		if a.inv > wr.ret || a.oret < wr.inv {
			r.Fail("wrong-writer", "sample %d reached %s, which was not attached during the call", wr.tok, a.w.name)
		}
		if a.oret < wr.ret {
			simrt.Probe("swapped-mid-write")
		}
		for _, iv := range off {
			if iv.inv < wr.inv && iv.ret > wr.ret {
				r.Fail("not-disabled", "sample %d reached %s although the switch was disabled throughout the call", wr.tok, a.w.name)
			}
		}
	}
}

// ---- fan-out ----

func multiMain(r *R) {
	d, w := r.D, r.W
	n := d.Int(5)
	errNum, slow := 0, time.Duration(0)
	if r.Faults {
		errNum = pick(d, 0, 2, 6)
		slow = pick(d, 0, time.Millisecond)
	}
	type call struct {
		data  []int16
		seen  []int
		last  int
		errs  []error
		total int
	}
	cur := map[string]*call{}
	var recs []*pcmRec
	var mw msdk.MultiWriter[msdk.PCM16Sample]
	nested := n > 1 && d.Bool(1, 4)
	var inner msdk.MultiWriter[msdk.PCM16Sample]
	for i := 0; i < n; i++ {
		rec := &pcmRec{r: r, name: fmt.Sprintf("branch%d", i), rate: 8000 + i, slow: slow}
		rec.onWrite = func(_ int, s msdk.PCM16Sample) error {
			c := cur[simrt.CurName()]
			if c == nil || !eq([]int16(s), c.data) {
				r.Fail("altered", "branch %d got %v", i, []int16(s))
			}
			if c.seen[i]++; c.seen[i] > 1 {
				r.Fail("twice", "branch %d got the sample %d times", i, c.seen[i])
			}
			if c.last > i {
				r.Fail("order", "branch %d got the sample after branch %d", i, c.last)
			}
			c.last = i
			if errNum > 0 && r.F.Bool(1, errNum) {
				simrt.Fault("writer-error")
				simrt.Probe("branch-failed")
				e := newErr("branch %d failed", i)
				c.errs = append(c.errs, e)
				return e
			}
			return nil
		}
		if r.Faults && d.Bool(1, 4) {
			rec.closing = newErr("close of branch %d failed", i)
		}
		recs = append(recs, rec)
		if nested && i >= n/2 {
			inner = append(inner, rec)
		} else {
			mw = append(mw, rec)
		}
	}
	if nested {
		simrt.Probe("nested")
		mw = append(mw, inner)
	}
	if n == 0 {
		simrt.Probe("empty")
	} else if mw.SampleRate() != 8000 {
		r.Fail("sample-rate", "sample rate %d", mw.SampleRate())
	}
	judge := func(what string, err error, errs []error) {
		if len(errs) == 0 {
			r.Check(err == nil, "phantom-error", "%s returned %v although no branch failed", what, err)
			return
		}
		for _, e := range errs {
			if errors.Is(err, e) {
				return
			}
		}
		r.Fail("error-lost", "%s returned %v although a branch failed with %v", what, err, errs[0])
	}
	var tasks []*simrt.Task
	per := d.Log(1, 20)
	for k := d.Range(1, 2); k > 0; k-- {
		name := fmt.Sprintf("caller%d", k)
		s := w.Stream(name)
		tasks = append(tasks, w.Spawn(name, func() {
			name := simrt.CurName()
			for j := 0; j < per; j++ {
				c := &call{seen: make([]int, n)}
				for x := s.Int(4); x >= 0; x-- {
					c.data = append(c.data, int16(s.Int(65536)))
				}
				cur[name] = c
				err := mw.WriteSample(msdk.PCM16Sample(clone(c.data)))
				for i, x := range c.seen {
					if x != 1 {
						r.Fail("missed", "branch %d was not offered the sample", i)
					}
				}
				judge("WriteSample", err, c.errs)
			}
		}))
	}
	for _, t := range tasks {
		r.Finish(t, time.Second, 3600*time.Second, "stuck")
	}
	err := mw.Close()
	var errs []error
	for i, rec := range recs {
		r.Check(rec.closes == 1, "close-count", "branch %d closed %d times", i, rec.closes)
		if rec.closing != nil {
			simrt.Probe("close-failed")
			errs = append(errs, rec.closing)
		}
	}
	judge("Close", err, errs)
}

// sampleSink keeps the media samples it is given.
type sampleSink struct {
	r      *R
	dur    time.Duration
	errNum int
	cur    map[string]*sinkCall
	got    []media.Sample
	want   [][]byte
}

type sinkCall struct {
	data []byte
	n    int
	err  error
}

func (k *sampleSink) WriteSample(s media.Sample) error {
	c := k.cur[simrt.CurName()]
	if c == nil || !eq(s.Data, c.data) {
		k.r.Fail("altered", "the media sample holds %v", s.Data)
	}
	k.r.Check(s.Duration == k.dur, "duration", "the media sample lasts %v, want %v", s.Duration, k.dur)
	c.n++
	k.got, k.want = append(k.got, s), append(k.want, clone(s.Data))
	if k.errNum > 0 && k.r.F.Bool(1, k.errNum) {
		simrt.Fault("writer-error")
		c.err = newErr("sample writer failed")
	}
	return c.err
}

// pcmbufMain: the in-memory PCM writers and the reader of what they collected.
func pcmbufMain(r *R) {
	d, w := r.D, r.W
	var flat msdk.PCM16Sample
	var frames []msdk.PCM16Sample
	bw := msdk.NewPCM16BufferWriter(&flat, 16000)
	fw := msdk.NewPCM16FrameWriter(&frames, 16000)
	r.Check(bw.SampleRate() == 16000 && fw.SampleRate() == 16000, "sample-rate", "sample rates %d and %d, want 16000", bw.SampleRate(), fw.SampleRate())
	var seq int64
	next := func() int64 { seq++; return seq }
	tok := int16(0)
	var writes, after []*pipeOp
	var all []*pipeOp
	closed, closing := int64(-1), false
	per := d.Log(1, 20)
	var tasks []*simrt.Task
	for i := d.Range(1, 3); i > 0; i-- {
		name := fmt.Sprintf("caller%d", i)
		s := w.Stream(name)
		tasks = append(tasks, w.Spawn(name, func() {
			for k := 0; k < per; k++ {
				if s.Bool(1, 4) {
					simrt.SleepExact(s.Dur(0, 3*time.Millisecond))
				}
				buf := make(msdk.PCM16Sample, s.Range(1, 12))
				for j := range buf {
					tok++
					buf[j] = tok
				}
				o := &pipeOp{inv: next(), ret: open64, data: clone([]int16(buf))}
				late := closed >= 0
				mid := closing
				all = append(all, o)
				if err := bw.WriteSample(buf); err != nil {
					r.Fail("error", "buffer writer: %v", err)
				}
				o.ret = next()
				for j := range buf {
					buf[j] = -1 // the caller may reuse its buffer
				}
				simrt.Log("%v late=%v", o.data, late)
				switch {
				case late:
					simrt.Probe("write-after-close")
					after = append(after, o)
				case mid || closing:
				default:
					writes = append(writes, o)
				}
			}
		}))
	}
	// frame writers are used by one caller
	fs := w.Stream("framer")
	var want [][]int16
	tasks = append(tasks, w.Spawn("framer", func() {
		for k := 0; k < per; k++ {
			buf := make(msdk.PCM16Sample, fs.Int(12))
			for j := range buf {
				buf[j] = int16(fs.U32())
			}
			want = append(want, clone([]int16(buf)))
			if err := fw.WriteSample(buf); err != nil {
				r.Fail("error", "frame writer: %v", err)
			}
			for j := range buf {
				buf[j] = -1
			}
		}
	}))
	// the adapter to writers of media samples
	sink := &sampleSink{r: r, dur: pick(d, 20*time.Millisecond, 10*time.Millisecond, 2500*time.Microsecond), cur: map[string]*sinkCall{}}
	if r.Faults {
		sink.errNum = pick(d, 0, 3)
	}
	sw := msdk.FromSampleWriter[simDynSample](sink, 16000, sink.dur)
	r.Check(sw.SampleRate() == 16000, "sample-rate", "sample rate %d, want 16000", sw.SampleRate())
	for i := d.Range(0, 2); i > 0; i-- {
		name := fmt.Sprintf("sampler%d", i)
		s := w.Stream(name)
		tasks = append(tasks, w.Spawn(name, func() {
			buf := make([]byte, 16) // reused
			for k := 0; k < per; k++ {
				smp := simDynSample(buf[:s.Int(17)])
				copy(smp, genPayload(s, len(smp)))
				c := &sinkCall{data: clone([]byte(smp))}
				sink.cur[simrt.CurName()] = c
				err := sw.WriteSample(smp)
				r.Check(c.n == 1, "sample-count", "one write gave %d samples", c.n)
				r.Check(err == c.err, "error", "write returned %v, the writer said %v", err, c.err)
				r.Check(eq(c.data, []byte(smp)), "changed", "the caller's sample was changed")
				if s.Bool(1, 4) {
					simrt.SleepExact(s.Dur(0, 3*time.Millisecond))
				}
			}
		}))
	}
	if d.Bool(1, 2) {
		cs := w.Stream("closer")
		tasks = append(tasks, w.Spawn("closer", func() {
			simrt.SleepExact(cs.Dur(0, time.Duration(per)*time.Millisecond))
			closing = true
			if err := bw.Close(); err != nil {
				r.Fail("error", "Close: %v", err)
			}
			closed = next()
		}))
	}
	for _, t := range tasks {
		r.Finish(t, time.Second, time.Hour, "stuck")
	}
	simrt.SyncAll()
	for i, g := range sink.got {
		r.Check(eq(g.Data, sink.want[i]), "aliased", "sample %d held %v when it was handed on and now holds %v", i, sink.want[i], g.Data)
	}
	if len(sink.got) > 0 {
		simrt.Probe("media-samples")
	}
	r.Check(sw.Close() == nil, "error", "closing the adapter failed")
	blkOrder(r, all, flat, true)
	pos := map[int16]bool{}
	for _, x := range flat {
		pos[x] = true
	}
	for _, o := range writes {
		for _, x := range o.data {
			r.Check(pos[x], "lost", "write %v made before Close is not in the buffer", o.data)
		}
	}
	for _, o := range after {
		r.Check(!pos[o.data[0]], "after-close", "write %v made after Close is in the buffer", o.data)
	}
	r.Check(len(frames) == len(want), "lost", "%d frames collected, %d written", len(frames), len(want))
	for i := range frames {
		r.Check(eq(frames[i], msdk.PCM16Sample(want[i])), "order", "frame %d is %v, want %v", i, frames[i], want[i])
	}
	// reading it back
	rd := msdk.NewPCM16BufferReader(clone(flat))
	var back []int16
	for i := 0; i < 2*len(flat)+4; i++ {
		b := make(msdk.PCM16Sample, d.Range(1, 9))
		n, err := rd.ReadSample(b)
		r.Check(n >= 0 && n <= len(b), "read", "ReadSample returned %d for %d", n, len(b))
		back = append(back, b[:n]...)
		if err != nil || n == 0 {
			break
		}
	}
	r.Check(eq(back, []int16(flat)), "read", "read back %v, want %v", back, flat)
}
