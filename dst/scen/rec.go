package scen

import (
	"fmt"
	"time"

	"simw/simrt"
	msdk "simw/x/github.com/livekit/media-sdk"
)

type simErr struct{ s string }

func (e *simErr) Error() string { return e.s }

func newErr(format string, args ...any) error { return &simErr{fmt.Sprintf(format, args...)} }

// recW is a recording media writer with injectable slowness and errors.
type recW[T ~[]E, E comparable] struct {
	r       *R
	name    string
	rate    int
	errNum  int           // one write in errNum fails, 0 = none
	slow    time.Duration // a write may take up to this long
	yield   bool
	frames  []recF[E]
	in      int
	maxIn   int
	closes  int
	closing error
	onWrite func(i int, s T) error
	onClose func() error
	errs    []error
}

type recF[E any] struct {
	at, end time.Duration
	data    []E
	err     error
	done    bool
}

func (w *recW[T, E]) String() string  { return w.name }
func (w *recW[T, E]) SampleRate() int { return w.rate }
func (w *recW[T, E]) WriteSample(s T) error {
	w.in++
	w.maxIn = max(w.maxIn, w.in)
	i := len(w.frames)
	w.frames = append(w.frames, recF[E]{at: w.r.W.Now(), data: clone([]E(s))})
	if len(s) <= 16 {
		simrt.Log("%s write %d %v", w.name, i, []E(s))
	} else {
		h := uint32(2166136261)
		if v, ok := any(w.frames[i].data).([]int16); ok {
			for _, x := range v {
				h = (h ^ uint32(uint16(x))) * 16777619
			}
		}
		simrt.Log("%s write %d len %d sum %08x", w.name, i, len(s), h)
	}
	if w.yield {
		simrt.Yield()
	}
	if w.slow > 0 && w.r.F.Bool(1, 4) {
		simrt.Fault("slow-writer")
		simrt.SleepExact(w.r.F.Dur(0, w.slow))
	}
	var err error
	if w.onWrite != nil {
		err = w.onWrite(i, s)
	} else if w.errNum > 0 && w.r.F.Bool(1, w.errNum) {
		simrt.Fault("writer-error")
		err = newErr("%s write %d failed", w.name, i)
	}
	if err != nil {
		w.errs = append(w.errs, err)
		simrt.Log("%s write %d -> %v", w.name, i, err)
	}
	if x := clone([]E(s)); !eq(x, w.frames[i].data) {
		w.r.Fail("changed-in-flight", "frame %d changed while %s was writing it", i, w.name)
	}
	w.frames[i].end = w.r.W.Now()
	w.frames[i].err = err
	w.frames[i].done = true
	w.in--
	return err
}

func (w *recW[T, E]) Close() error {
	w.closes++
	simrt.Log("%s close", w.name)
	if w.onClose != nil {
		return w.onClose()
	}
	return w.closing
}

// ok lists the frames whose write succeeded.
func (w *recW[T, E]) ok() (out [][]E) {
	for _, f := range w.frames {
		if f.done && f.err == nil {
			out = append(out, f.data)
		}
	}
	return out
}

type pcmRec = recW[msdk.PCM16Sample, int16]
