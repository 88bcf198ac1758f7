package simrt

import (
	"context"
	"errors"
	"sync"
	"time"
	"unsafe"
)

const (
	hasMono      = 1 << 63
	wallToIntern = int64(1884*365+1884/4-1884/100+1884/400) * 86400
	unixToIntern = int64(1969*365+1969/4-1969/100+1969/400) * 86400
	baseUnix     = int64(1735689600) // 2025-01-01
)

type rawTime struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

func mkTime(mono, wall time.Duration) time.Time {
	ns := int64(wall + mono)
	sec := baseUnix + ns/1e9
	nsec := ns % 1e9
	if nsec < 0 {
		nsec += 1e9
		sec--
	}
	sec += unixToIntern - wallToIntern
	var t time.Time
	r := (*rawTime)(unsafe.Pointer(&t))
	r.wall = hasMono | uint64(sec)<<30 | uint64(nsec)
	r.ext = int64(mono) + 1
	r.loc = time.UTC
	return t
}

// TimeNow is time.Now: wall clock and monotonic reading of the simulation.
func TimeNow() time.Time {
	if W == nil {
		return mkTime(0, 0)
	}
	ycount++
	return mkTime(W.Now(), W.wall)
}

func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

// TimeAt is the time.Time of a simulated instant.
func TimeAt(d time.Duration) time.Time { return mkTime(d, W.wall) }

// MonoOf is the simulated instant of a time.Time made by this package.
func MonoOf(t time.Time) time.Duration { return t.Sub(mkTime(0, 0)) }

// Timer is time.Timer (Go 1.23 semantics: Stop and Reset discard a pending tick).
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	ev *timerEv
	w  *World
}

func (t *Timer) arm(d time.Duration) {
	if d < 0 {
		d = 0
	}
	w := W
	t.ev = w.at(w.Now()+d+w.late(d), func() {
		t.ev = nil
		if t.f != nil {
			w.spawn("time.AfterFunc", false, t.f)
			return
		}
		TrySend((chan<- time.Time)(t.c), mkTime(w.now, w.wall))
	})
}

func NewTimer(d time.Duration) *Timer {
	if W == nil {
		panic("simrt: timer outside a simulated world")
	}
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c, w: W}
	t.arm(d)
	S()
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f, w: W}
	t.arm(d)
	S()
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func (t *Timer) drain() bool {
	if t.c == nil {
		return false
	}
	s := stateOf(t.C)
	had := len(s.buf) > 0
	s.buf = nil
	return had
}

func (t *Timer) Stop() bool {
	if t.w == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	if W == nil || W.killing || W != t.w {
		return false
	}
	S()
	r := W.unat(t.ev)
	t.ev = nil
	return t.drain() || r
}

func (t *Timer) Reset(d time.Duration) bool {
	if t.w == nil {
		panic("time: Reset called on uninitialized Timer")
	}
	if W == nil || W.killing || W != t.w {
		return false
	}
	S()
	r := W.unat(t.ev)
	r = t.drain() || r
	t.arm(d)
	return r
}

// Ticker is time.Ticker.
type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	ev   *timerEv
	next time.Duration
	d    time.Duration
	w    *World
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	if W == nil {
		panic("simrt: ticker outside a simulated world")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, w: W, d: d, next: W.Now() + d}
	t.arm()
	S()
	return t
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

func (t *Ticker) arm() {
	w := t.w
	t.ev = w.at(t.next+w.late(t.next-w.Now()), func() {
		t.ev = nil
		if !TrySend((chan<- time.Time)(t.c), mkTime(w.now, w.wall)) {
			w.Counts["probe.tick-dropped"]++
		}
		// as the runtime: next tick on the original grid, skipping missed ones
		t.next += t.d * (1 + max(0, w.now-t.next)/t.d)
		t.arm()
	})
}

func (t *Ticker) Stop() {
	if W == nil || W.killing || W != t.w {
		return
	}
	S()
	W.unat(t.ev)
	t.ev = nil
	stateOf(t.C).buf = nil
}

func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	if W == nil || W.killing || W != t.w {
		return
	}
	S()
	W.unat(t.ev)
	stateOf(t.C).buf = nil
	t.d = d
	t.next = W.Now() + d
	t.arm()
}

// ---------------------------------------------------------------- context

type ctxKey struct{}

type simCtx struct {
	parent   context.Context
	mu       int
	done     chan struct{}
	err      error
	cause    error
	children []*simCtx
	after    []*afterReg
	deadline time.Time
	hasDL    bool
	timer    *timerEv
	vc       vclock
}

type afterReg struct {
	f       func()
	stopped bool
}

func (c *simCtx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *simCtx) Done() <-chan struct{} { return c.done }
func (c *simCtx) Err() error {
	if W != nil && cur != nil {
		S()
		if c.err != nil {
			acquire(c.vc)
		}
	}
	return c.err
}
func (c *simCtx) Value(k any) any {
	if _, ok := k.(ctxKey); ok {
		return c
	}
	return c.parent.Value(k)
}
func (c *simCtx) String() string { return "simCtx" }

func newCtx(parent context.Context) *simCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &simCtx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(ctxKey{}).(*simCtx); ok && p != nil {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
		}
	}
	return c
}

func (c *simCtx) cancel(err, cause error) {
	if c.err != nil || W == nil || W.killing {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	release(&c.vc)
	W.unat(c.timer)
	closeNoYield((chan<- struct{})(c.done))
	for _, a := range c.after {
		if !a.stopped {
			a.stopped = true
			W.spawn("context.AfterFunc", false, a.f)
		}
	}
	for _, ch := range c.children {
		ch.cancel(err, cause)
	}
	c.children = nil
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() {
		if InTask() {
			S()
		}
		c.cancel(context.Canceled, nil)
	}
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) {
		if InTask() {
			S()
		}
		c.cancel(context.Canceled, cause)
	}
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	if pd, ok := parent.Deadline(); !ok || d.Before(pd) {
		c.deadline, c.hasDL = d, true
		if c.err == nil {
			if dt := TimeUntil(d); dt <= 0 {
				c.cancel(context.DeadlineExceeded, cause)
			} else {
				c.timer = W.at(W.Now()+dt, func() {
					c.timer = nil
					c.cancel(context.DeadlineExceeded, cause)
				})
			}
		}
	}
	return c, func() {
		if InTask() {
			S()
		}
		c.cancel(context.Canceled, nil)
	}
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, TimeNow().Add(d))
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, TimeNow().Add(d), cause)
}

func Cause(c context.Context) error {
	if p, ok := c.Value(ctxKey{}).(*simCtx); ok && p != nil {
		return p.cause
	}
	return c.Err()
}

func CtxAfterFunc(ctx context.Context, f func()) (stop func() bool) {
	a := &afterReg{f: f}
	p, ok := ctx.Value(ctxKey{}).(*simCtx)
	if ok && p != nil {
		if p.err != nil {
			a.stopped = true
			Go("context.AfterFunc", f)
		} else {
			p.after = append(p.after, a)
		}
	}
	return func() bool {
		if InTask() {
			S()
		}
		was := !a.stopped
		a.stopped = true
		return was
	}
}

type withoutCancel struct{ context.Context }

func (w withoutCancel) Deadline() (time.Time, bool) { return time.Time{}, false }
func (w withoutCancel) Done() <-chan struct{}       { return nil }
func (w withoutCancel) Err() error                  { return nil }
func (w withoutCancel) Value(k any) any {
	if _, ok := k.(ctxKey); ok {
		return nil
	}
	return w.Context.Value(k)
}

func WithoutCancel(c context.Context) context.Context { return withoutCancel{c} }

var _ sync.Locker = (*Mutex)(nil)
var errClosed = errors.New("closed")
