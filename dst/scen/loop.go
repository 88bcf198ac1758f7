package scen

import (
	"io"
	"reflect"
	"time"

	"github.com/pion/interceptor"
	"github.com/pion/rtp"

	"simw/simrt"
	mrtp "simw/x/github.com/livekit/media-sdk/rtp"
)

func init() {
	register(&Scen{Name: "loop", Props: []string{"C25"}, Main: loopMain,
		Real: []string{"rtp.HandleLoop", "rtp.HandleJitter", "jitter.Buffer", "rtp.Mux (as a stage)"}, Stub: []string{"packet source", "innermost handler", "network", "scheduler"},
		Reached: []string{"plain", "jitter", "read-error", "handler-error", "handler-panic", "gap-waited", "late", "duplicated", "delivered-while-closing", "long-stream"}})
}

type loopItem struct {
	k    int // order of sending
	h    rtp.Header
	data []byte
	err  error
	read time.Duration // when the loop obtained it
	got  []time.Duration
}

type loopH struct {
	f     func(h *rtp.Header, p []byte) error
	close func()
}

func (h *loopH) String() string                           { return "loopH" }
func (h *loopH) HandleRTP(hd *rtp.Header, p []byte) error { return h.f(hd, p) }
func (h *loopH) Close()                                   { h.close() }

type loopR struct {
	f func() (*rtp.Packet, interceptor.Attributes, error)
}

func (r *loopR) ReadRTP() (*rtp.Packet, interceptor.Attributes, error) { return r.f() }

const stageLatency = 60 * time.Millisecond

func loopMain(r *R) {
	d, w := r.D, r.W
	jit := d.Bool(2, 3)
	n := d.Log(1, 80)
	if d.Bool(1, 24) {
		n = d.Range(81, 600)
		simrt.Probe("long-stream")
	}
	start := uint16(pick(d, 0, 65530, 65500, 1000, 32760))
	interval := pick(d, 20*time.Millisecond, 20*time.Millisecond, 10*time.Millisecond, time.Millisecond)
	jitter := d.Dur(0, 100*time.Millisecond)
	reord := pick(d, 0, 10, 50)
	loss, dup := 0, 0
	if r.Faults {
		loss, dup = pick(d, 0, 3, 20), pick(d, 0, 0, 10)
	}
	var items []*loopItem // everything the source hands out, in this order
	var queue []*loopItem
	t := w.Now()
	byTS := map[uint32]*loopItem{}
	copies := map[uint32]int{}
	for k := 0; k < n; k++ {
		t += interval
		if d.Bool(1, 30) {
			t += d.Dur(0, 300*time.Millisecond)
		}
		h := genHeader(d, 5, uint32(k+1), start+uint16(k))
		h.PayloadType = 8
		data := genPayload(d, d.Int(31))
		c := 1
		if loss > 0 && r.F.Bool(loss, 100) {
			simrt.Fault("packet-lost")
			c = 0
		}
		if dup > 0 && r.F.Bool(dup, 100) {
			simrt.Fault("packet-duplicated")
			simrt.Probe("duplicated")
			c++
		}
		for ; c > 0; c-- {
			it := &loopItem{k: k, h: h, data: data}
			at := t
			if r.F.Bool(reord, 100) {
				at += r.F.Dur(0, jitter)
			}
			byTS[h.Timestamp] = it
			w.At(at, func() { queue = append(queue, it) })
		}
	}
	if d.Bool(1, 3) {
		t -= d.Dur(0, t-w.Now()) // ends in the middle
	} else if d.Bool(1, 2) {
		t += 200 * time.Millisecond
	}
	srcErr := pick(d, error(io.EOF), newErr("source failed"), io.ErrClosedPipe)
	w.At(t, func() { queue = append(queue, &loopItem{err: srcErr}) })

	ended := false
	var readErr error
	var innerErrs []error
	var innerErrAt time.Duration
	closes, inH := 0, 0
	var closedAt time.Duration // when the stage's Close returned
	lateDel := 0
	lastK := -1
	nRead := 0
	pending := -1 // plain: index of the item being handled
	hs := w.Stream("handler")
	errNum := pick(d, 0, 0, 40, 10)
	slow := d.Bool(1, 4)
	panicAt := -1
	if !jit && d.Bool(1, 8) {
		panicAt = d.Int(n + 1)
	}
	total := 0
	var lastErrKnown time.Duration
	src := &loopR{f: func() (*rtp.Packet, interceptor.Attributes, error) {
		if readErr != nil || ended {
			r.Fail("read-after-end", "the source is read again after it failed")
		}
		if !jit && len(innerErrs) > 0 {
			r.Fail("error-ignored", "the handler failed but the loop goes on")
		}
		if lastErrKnown != 0 {
			r.Fail("error-ignored", "the inner handler failed at %s, a packet was handled since, but the loop goes on", lastErrKnown-time.Hour)
		}
		if pending >= 0 {
			r.Fail("skipped", "packet %d was not handled", pending)
		}
		simrt.Await(time.Hour, func() bool { return len(queue) > 0 })
		it := queue[0]
		queue = queue[1:]
		if it.err != nil {
			readErr = it.err
			simrt.Log("read -> %v", it.err)
			simrt.Probe("read-error")
			return nil, nil, it.err
		}
		it.read = w.Now()
		if innerErrAt != 0 && len(innerErrs) > 0 && it.read > innerErrAt+r.slack()+w.InjectedIn(innerErrAt, w.Now())+time.Duration(n)*50*w.Cfg.StepCost {
			lastErrKnown = innerErrAt
		}
		items = append(items, it)
		nRead++
		if !jit {
			pending = it.k
		}
		simrt.Log("read #%d", it.k)
		if it.k < lastK {
			simrt.Probe("late")
		}
		p := &rtp.Packet{Header: it.h, Payload: clone(it.data)}
		return p, interceptor.Attributes{}, nil
	}}
	inner := &loopH{
		f: func(h *rtp.Header, p []byte) error {
			total++
			inH++
			defer func() { inH-- }()
			if inH > 1 {
				r.Fail("concurrent", "the handler is called concurrently")
			}
			it := byTS[h.Timestamp]
			if it == nil {
				r.Fail("invented", "the handler received a packet that was not sent: %v", *h)
			}
			simrt.Log("handle #%d", it.k)
			if !reflect.DeepEqual(*h, it.h) || string(p) != string(it.data) {
				r.Fail("modified", "packet %d was sent as %v %s, the handler received %v %s", it.k, it.h, hex(it.data), *h, hex(p))
			}
			if jit {
				if it.k <= lastK {
					r.Fail("order", "packet %d delivered after %d", it.k, lastK)
				}
				if closedAt != 0 {
					simrt.Probe("delivered-while-closing")
					if lateDel++; lateDel > 1 {
						r.Fail("after-close", "packet %d is the second one delivered after the stage was closed", it.k)
					}
				}
			} else {
				if pending != it.k {
					r.Fail("order", "packet %d handled, expected %d", it.k, pending)
				}
				if closes > 0 {
					r.Fail("after-close", "packet %d handled after the handler was closed", it.k)
				}
				pending = -1
			}
			if it.k > lastK {
				lastK = it.k
			}
			copies[h.Timestamp]++
			if slow && hs.Bool(1, 5) {
				x := hs.Dur(0, 30*time.Millisecond)
				simrt.SleepExact(x)
			} else if hs.Bool(1, 2) {
				simrt.Yield()
			}
			if panicAt == total {
				simrt.Probe("handler-panic")
				panic(simPanic{})
			}
			if errNum > 0 && hs.Bool(1, errNum) {
				simrt.Probe("handler-error")
				e := newErr("handler failed on %d", it.k)
				innerErrs = append(innerErrs, e)
				if innerErrAt == 0 {
					innerErrAt = w.Now()
				}
				return e
			}
			return nil
		},
		close: func() {
			closes++
			simrt.Log("close")
			if closes > 1 {
				r.Fail("closed-twice", "the handler is closed a second time")
			}
		},
	}
	var top mrtp.HandlerCloser = inner
	if jit {
		simrt.Probe("jitter")
		top = mrtp.HandleJitter(inner)
	} else {
		simrt.Probe("plain")
	}
	var got error
	var panicked any
	busy0 := w.Busy()
	task := w.Spawn("loop", func() {
		panicked = simrt.Catch(func() { got = mrtp.HandleLoop(src, top) })
		ended = true
		closedAt = w.Now()
		simrt.Log("loop ended: %v %v", got, panicked)
	})
	r.Finish(task, 10*time.Minute, 10*time.Minute, "stuck")
	if _, ok := panicked.(simPanic); panicked != nil && !ok {
		r.Fail("panic", "%v", panicked)
	}
	if closes != 1 {
		r.Fail("not-closed", "the handler was closed %d times when the loop ended", closes)
	}
	end := closedAt
	if panicked == nil {
		switch {
		case got == nil:
			r.Fail("no-error", "the loop ended without an error")
		case len(innerErrs) > 0 && got == innerErrs[0]:
		case got == readErr:
			if !jit && len(innerErrs) > 0 {
				r.Fail("wrong-error", "returned %v although the handler failed before with %v", got, innerErrs[0])
			}
		default:
			r.Fail("wrong-error", "returned %v; the source failed with %v, the handler with %v", got, readErr, innerErrs)
		}
		if pending >= 0 && !jit {
			r.Fail("skipped", "packet %d was not handled", pending)
		}
	}
	if jit {
		if d.Bool(1, 3) {
			// everything is idle from here on
			r.Calm()
		}
		r.NoLive(2*time.Second+w.InjectedSince(w.Now()), "leak")
		simrt.SleepExact(time.Second)
	} else {
		r.NoLive(time.Second, "leak")
	}
	if !jit {
		return
	}
	// every packet that was not late and had its latency was delivered
	best := -1
	for _, it := range items {
		late := it.k <= best // something behind it may have been given out
		for _, x := range items {
			if x.k > it.k && x.read < it.read {
				late = true
			}
		}
		if copies[it.h.Timestamp] > 0 {
			best = max(best, it.k)
			continue
		}
		busy := w.Busy() - busy0
		if late {
			// reordered packets must survive if they came in time
			ok := true
			for _, x := range items {
				if x.k > it.k && x.read < it.read && it.read+busy+w.InjectedIn(x.read, w.Now())+slackOf(n, w) >= x.read+stageLatency {
					ok = false
				}
			}
			first := items[0].k
			if !ok || it.k < first {
				continue
			}
		}
		// it may wait for the newest arrival in front of it
		from := it.read
		for _, x := range items {
			if x.k < it.k {
				from = max(from, x.read)
			}
		}
		if end-from > stageLatency+r.slack()+busy+w.InjectedIn(it.read, end)+slackOf(n, w)+time.Duration(total)*30*time.Millisecond*b2d(slow) {
			r.Fail("lost", "packet %d was read %s before the loop ended but never delivered", it.k, end-it.read)
		}
		simrt.Probe("gap-waited")
	}
}

type simPanic struct{}

func slackOf(n int, w *simrt.World) time.Duration { return time.Duration(n) * 300 * w.Cfg.StepCost }

func b2d(b bool) time.Duration {
	if b {
		return 1
	}
	return 0
}
