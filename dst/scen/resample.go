package scen

import (
	"errors"
	"fmt"
	"math"
	"time"

	"simw/simrt"
	msdk "simw/x/github.com/livekit/media-sdk"
)

func init() {
	register(&Scen{Name: "resample", Props: []string{"C22"}, Main: resampleMain,
		Real: []string{"media.ResampleWriter", "media.Resample", "libsoxr"}, Stub: []string{"downstream writer", "scheduler"},
		Reached: []string{"up", "down", "fractional", "tiny-chunks", "long-stream", "chain", "concurrent", "close-race", "write-after-close", "downstream-error", "close-error", "signal-checked", "one-shot", "same-rate", "double-close", "very-long-stream"}})
}

// resampleOne checks the one-shot function against the same rules.
func resampleOne(r *R, src, dst int, amp float64, freq float64) {
	d := r.D
	simrt.Probe("one-shot")
	n := d.Log(1, 12000)
	if d.Bool(1, 20) {
		n = d.Range(12000, 300000)
	}
	in := make(msdk.PCM16Sample, n)
	for i := range in {
		in[i] = int16(math.Round(amp * math.Sin(2*math.Pi*freq*float64(i)/float64(src))))
	}
	keep := clone([]int16(in))
	pre := msdk.PCM16Sample{}
	for k := d.Int(3); k > 0; k-- {
		pre = append(pre, int16(d.Int(100)))
	}
	out := msdk.Resample(clone([]int16(pre)), dst, in, src)
	if !eq([]int16(in), keep) {
		r.Fail("input-changed", "Resample changed its input")
	}
	if len(out) < len(pre) || !eq([]int16(out[:len(pre)]), []int16(pre)) {
		r.Fail("prefix", "Resample did not append to the %d samples it was given", len(pre))
	}
	out = out[len(pre):]
	want := float64(n) * float64(dst) / float64(src)
	if math.Abs(float64(len(out))-want) > 2 {
		r.Fail("duration", "Resample %d->%d of %d samples: got %d, want %.1f", src, dst, n, len(out), want)
	}
	sineCheck(r, out, src, dst, amp, freq, 3)
}

// sineCheck compares the output with the sine that was fed in, away from both ends.
func sineCheck(r *R, out []int16, src, dst int, amp, freq float64, skipMs int) {
	simrt.Probe("signal-checked")
	skip := dst*skipMs/1000 + 100*dst/min(src, dst)
	if src == dst {
		skip = 0
	}
	for i := skip; i < len(out)-skip; i++ {
		want := amp * math.Sin(2*math.Pi*freq*float64(i)/float64(dst))
		if math.Abs(float64(out[i])-want) > 8+amp*0.02 {
			r.Fail("signal", "%d->%d: sample %d of %d is %d, want %.0f", src, dst, i, len(out), out[i], want)
		}
	}
}

func resampleMain(r *R) {
	d, w := r.D, r.W
	rates := []int{8000, 16000, 48000, 24000, 32000, 44100}
	src, dst := rates[d.Int(6)], rates[d.Int(6)]
	mid := 0
	if d.Bool(1, 4) {
		mid = rates[d.Int(6)]
		if mid == src || mid == dst {
			mid = 0
		}
	}
	lowest := min(src, dst)
	if mid != 0 {
		lowest = min(lowest, mid)
	}
	amp := float64(pick(d, 8000, 1000, 20000))
	freq := float64(lowest) * float64(d.Range(1, 100)) / 1000
	if d.Bool(1, 6) {
		resampleOne(r, src, dst, amp, freq)
		return
	}
	errNum, slow := 0, time.Duration(0)
	if r.Faults {
		errNum = pick(d, 0, 2, 6, 30)
		slow = pick(d, 0, time.Millisecond)
	}
	cur := map[string]*[]error{}
	rec := &pcmRec{r: r, name: "out", rate: dst, yield: true, slow: slow}
	total := 0
	var out []int16
	closed := false
	rec.onWrite = func(i int, s msdk.PCM16Sample) error {
		if closed {
			r.Fail("write-after-close", "a frame reached the closed downstream writer")
		}
		if len(s) == 0 && (src != dst || mid != 0) {
			r.Fail("empty-frame", "an empty frame was emitted")
		}
		total += len(s)
		out = append(out, s...)
		if errNum > 0 && r.F.Bool(1, errNum) {
			simrt.Fault("writer-error")
			simrt.Probe("downstream-error")
			e := newErr("write %d failed", i)
			if c := cur[simrt.CurName()]; c != nil {
				*c = append(*c, e)
			}
			return e
		}
		return nil
	}
	closeE := error(nil)
	if r.Faults && d.Bool(1, 5) {
		closeE = newErr("close failed")
	}
	rec.onClose = func() error {
		closed = true
		simrt.Yield()
		return closeE
	}
	var rw msdk.PCM16Writer = rec
	if mid != 0 {
		simrt.Probe("chain")
		rw = msdk.ResampleWriter(rw, mid)
		if rw.SampleRate() != mid {
			r.Fail("sample-rate", "sample rate %d, want %d", rw.SampleRate(), mid)
		}
	}
	rw = msdk.ResampleWriter(rw, src)
	if rw.SampleRate() != src {
		r.Fail("sample-rate", "sample rate %d, want %d", rw.SampleRate(), src)
	}
	switch {
	case src == dst && mid == 0:
		simrt.Probe("same-rate")
	case dst%src == 0:
		simrt.Probe("up")
	case src%dst == 0:
		simrt.Probe("down")
	default:
		simrt.Probe("fractional")
	}
	writers := pick(d, 1, 1, 1, 2, 3)
	if writers > 1 {
		simrt.Probe("concurrent")
	}
	race := r.Faults && d.Bool(1, 4) && !r.Dumps && (src != dst || mid != 0)
	mode := d.Int(4) // chunk sizes: one frame, tiny, any, mixed
	frame := src / 50
	budget := pick(d, 4000, 1000, 20000)
	writes := d.Log(5, 400)
	long := d.Bool(1, 12)
	if long { // many chunks whose output is not a whole number of samples
		simrt.Probe("long-stream")
		writes, budget, mode = 3000, 120000, pick(d, 0, 1, 4)
		frame = pick(d, 40, 20, 10, 13, 37)
	}
	if !long && d.Bool(1, 60) { // half a minute and more
		simrt.Probe("very-long-stream")
		budget, mode = d.Range(20, 60)*src, 0
		writes = budget
	}
	fixed := d.Range(1, 40)
	in, maxIn := 0, 0 // samples accepted
	finished := false // Close has returned
	began := false    // Close has been called
	rat := float64(dst) / float64(src)
	slack := func() float64 {
		m := float64(maxIn) * math.Max(1, rat)
		if mid != 0 {
			m += float64(dst)/10 + float64(maxIn)*math.Max(1, float64(mid)/float64(src))*math.Max(1, float64(dst)/float64(mid))
		}
		return float64(dst)/10 + m + 40
	}
	write := func(s *simrt.Stream, me string, n int) bool {
		data := make(msdk.PCM16Sample, n)
		for i := range data {
			data[i] = int16(math.Round(amp * math.Sin(2*math.Pi*freq*float64(in+i)/float64(src))))
		}
		keep := data
		if s.Bool(1, 8) { // caller's own slice with spare capacity
			keep = append(make(msdk.PCM16Sample, 0, n+16), data...)
		}
		sum := clone([]int16(keep))
		var errs []error
		cur[me] = &errs
		after := finished
		if writers == 1 {
			in += n
			maxIn = max(maxIn, n)
		}
		err := rw.WriteSample(keep)
		cur[me] = nil
		if !eq([]int16(keep), sum) {
			r.Fail("input-changed", "the caller's samples were changed")
		}
		for i := range keep {
			keep[i] = 0x7777
		}
		if len(errs) == 0 && err != nil || after {
			if writers == 1 {
				in -= n
			}
			if n == 0 || src == dst && mid == 0 {
				return true
			}
			if err == nil {
				r.Fail("accepted-after-close", "%d samples accepted after Close", n)
			}
			if !began {
				r.Fail("rejected", "a write failed with %v although nothing failed downstream and the writer is open", err)
			}
			simrt.Probe("write-after-close")
			return false
		}
		if writers > 1 {
			in += n
			maxIn = max(maxIn, n)
		}
		if len(errs) > 0 {
			ok := false
			for _, e := range errs {
				ok = ok || errors.Is(err, e)
			}
			if !ok {
				r.Fail("error-lost", "the downstream writer failed with %v, WriteSample returned %v", errs[0], err)
			}
		}
		if writers == 1 && !began {
			if lag := float64(in)*rat - float64(total); lag > slack() {
				r.Fail("lag", "%d->%d: after %d samples in and %d out the output lags by %.0f", src, dst, in, total, lag)
			} else if lag < -2 {
				r.Fail("too-much", "%d->%d: %d samples out of %d in", src, dst, total, in)
			}
		}
		return true
	}
	var ts []*simrt.Task
	closes := 0
	closer := func() {
		began = true
		closes++
		err := rw.Close()
		finished = true
		if rec.closes == 0 {
			r.Fail("not-closed", "Close returned %v without closing the downstream writer", err)
		}
		if closes == 1 && closeE != nil {
			simrt.Probe("close-error")
			if !errors.Is(err, closeE) {
				r.Fail("close-error-lost", "Close returned %v, downstream close failed with %v", err, closeE)
			}
		} else if closes == 1 && err != nil {
			r.Fail("close-failed", "Close returned %v", err)
		}
	}
	for k := 0; k < writers; k++ {
		name := fmt.Sprintf("writer%d", k)
		s := w.Stream(name)
		ts = append(ts, w.Spawn(name, func() {
			me := simrt.CurName()
			left := budget / writers
			for j := 0; j < writes && left > 0; j++ {
				n := frame
				switch mode {
				case 1:
					simrt.Probe("tiny-chunks")
					n = fixed
				case 2:
					n = s.Log(1, 3000)
				case 3:
					n = pick(s, frame, s.Int(8), s.Log(1, 3000), 1)
				case 4:
					n = s.Range(1, 40)
				}
				n = min(n, left)
				left -= n
				if !write(s, me, n) {
					break
				}
			}
		}))
	}
	if race {
		simrt.Probe("close-race")
		s := w.Stream("closer")
		ts = append(ts, w.Spawn("closer", func() {
			simrt.SleepExact(s.Dur(0, time.Millisecond))
			closer()
		}))
	}
	for _, t := range ts {
		r.Finish(t, 10*time.Second, 3600*time.Second, "stuck")
	}
	if !race {
		closer()
	} else if d.Bool(1, 3) {
		simrt.Probe("double-close")
		before := total
		_ = rw.Close()
		if src != dst && total != before {
			r.Fail("output-after-close", "a second Close emitted %d samples", total-before)
		}
	}
	if src != dst || mid != 0 {
		write(w.Stream("late"), simrt.CurName(), d.Range(1, 400))
	}
	want := float64(in) * rat
	simrt.Log("%d->%d (%d): %d samples in, %d out, want %.1f", src, dst, mid, in, total, want)
	tol := 2.0
	if mid != 0 {
		tol += math.Ceil(float64(dst) / float64(mid))
	}
	if math.Abs(float64(total)-want) > tol {
		r.Fail("duration", "%d->%d: %d samples in, %d out after Close, want %.1f", src, dst, in, total, want)
	}
	if writers == 1 && mid == 0 {
		sineCheck(r, out, src, dst, amp, freq, 3)
	}
}
