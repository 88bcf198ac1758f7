package scen

import (
	"io"
	"net"
	"os"
	"time"

	"simw/simrt"
)

type simAddr string

func (a simAddr) Network() string { return "udp" }
func (a simAddr) String() string  { return string(a) }

// dconn is a connected datagram socket (a net.Conn) on a simulated network.
type dconn struct {
	r      *R
	name   string
	mu     simrt.Mutex
	cond   *simrt.Cond
	q      []dgm
	rdl    time.Duration
	closed bool
	rerr   error // reads fail with it once the queue is empty
	closes int
	// hooks
	onRead  func(b []byte, tag any)
	onWrite func(b []byte) (int, error)
	wrong   int // writes failed
	cerr    error
	reading int
	onClose func()
	got     func() // a successful read is about to return
}

type dgm struct {
	b   []byte
	tag any
}

func newDconn(r *R, name string) *dconn {
	c := &dconn{r: r, name: name}
	c.cond = simrt.NewCond(&c.mu)
	return c
}

// put delivers a datagram (from a timer or a task).
func (c *dconn) put(b []byte) { c.putTag(b, nil) }

func (c *dconn) putTag(b []byte, tag any) {
	if c.closed || len(c.q) > 4096 {
		return
	}
	c.q = append(c.q, dgm{clone(b), tag})
	c.cond.Broadcast()
}

func (c *dconn) fail(err error) {
	c.rerr = err
	c.cond.Broadcast()
}

func (c *dconn) Read(b []byte) (int, error) {
	n, err := c.read(b)
	if err == nil && c.got != nil {
		c.got()
	}
	return n, err
}

func (c *dconn) read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		switch {
		case c.closed:
			return 0, &net.OpError{Op: "read", Net: "udp", Err: net.ErrClosed}
		case len(c.q) > 0:
			p := c.q[0]
			c.q = c.q[1:]
			if c.onRead != nil {
				c.onRead(p.b, p.tag)
			}
			simrt.IOAcquire()
			return simrt.Copy("read from a connection", b, p.b), nil
		case c.rerr != nil:
			return 0, c.rerr
		case c.rdl > 0 && c.r.W.Now() >= c.rdl:
			return 0, &net.OpError{Op: "read", Net: "udp", Err: os.ErrDeadlineExceeded}
		}
		c.reading++
		c.cond.Wait()
		c.reading--
	}
}

func (c *dconn) Write(b []byte) (int, error) {
	d := clone(simrt.RS(b, "write to a connection"))
	simrt.Yield()
	simrt.IORelease()
	if c.closed {
		return 0, &net.OpError{Op: "write", Net: "udp", Err: net.ErrClosed}
	}
	if !eq(d, b) {
		c.r.Fail("changed-in-flight", "datagram changed while it was being sent")
	}
	if c.onWrite != nil {
		return c.onWrite(d)
	}
	return len(b), nil
}

func (c *dconn) Close() error {
	simrt.Yield()
	c.closes++
	if c.closed {
		return &net.OpError{Op: "close", Net: "udp", Err: net.ErrClosed}
	}
	c.closed = true
	if c.onClose != nil {
		c.onClose()
	}
	c.cond.Broadcast()
	simrt.Yield()
	return c.cerr
}

func (c *dconn) LocalAddr() net.Addr  { return simAddr(c.name) }
func (c *dconn) RemoteAddr() net.Addr { return simAddr("peer-of-" + c.name) }
func (c *dconn) SetDeadline(t time.Time) error {
	return c.SetReadDeadline(t)
}
func (c *dconn) SetReadDeadline(t time.Time) error {
	if t.IsZero() {
		c.rdl = 0
		return nil
	}
	c.rdl = simrt.MonoOf(t)
	c.r.W.At(c.rdl, func() { c.cond.Broadcast() })
	return nil
}
func (c *dconn) SetWriteDeadline(t time.Time) error { return nil }

var _ net.Conn = (*dconn)(nil)
var _ = io.EOF

// netFaults describes one direction of a simulated network.
type netFaults struct {
	r                                 *R
	drop, dup, reorder, flip, truncat int // one in N, 0 = never
	forge                             int
	lat, jit                          time.Duration
	cut                               [2]time.Duration // partition window
	calm                              bool
}

// drawNet draws a fault mix. With clean, only latency and jitter-free order.
func drawNet(r *R, s *simrt.Stream, clean bool) *netFaults {
	n := &netFaults{r: r, lat: pick(s, 0, time.Millisecond, 30*time.Millisecond)}
	if clean || !r.Faults {
		return n
	}
	n.drop = pick(s, 0, 0, 30, 8, 3)
	n.dup = pick(s, 0, 0, 20, 5)
	n.reorder = pick(s, 0, 0, 20, 5)
	n.jit = pick(s, 0, 0, 5*time.Millisecond, 50*time.Millisecond)
	if s.Bool(1, 4) {
		from := r.W.Now() + s.Dur(0, time.Second)
		n.cut = [2]time.Duration{from, from + s.Dur(0, time.Second)}
	}
	return n
}

// send passes one datagram through the faults.
func (n *netFaults) send(b []byte, deliver func(b []byte)) {
	w, f := n.r.W, n.r.F
	now := w.Now()
	if !n.calm {
		if n.cut[1] > 0 && now >= n.cut[0] && now < n.cut[1] {
			simrt.Fault("net-partition")
			return
		}
		if n.drop > 0 && f.Bool(1, n.drop) {
			simrt.Fault("net-drop")
			return
		}
	}
	copies := 1
	if !n.calm && n.dup > 0 && f.Bool(1, n.dup) {
		simrt.Fault("net-duplicate")
		copies += f.Range(1, 2)
	}
	for ; copies > 0; copies-- {
		x := clone(b)
		d := n.lat
		if !n.calm {
			if n.jit > 0 {
				d += f.Dur(0, n.jit)
			}
			if n.reorder > 0 && f.Bool(1, n.reorder) {
				simrt.Fault("net-reorder")
				d += f.Dur(0, 60*time.Millisecond)
			}
			if n.flip > 0 && f.Bool(1, n.flip) && len(x) > 0 {
				simrt.Fault("net-corrupt")
				for k := f.Range(1, 3); k > 0; k-- {
					x[f.Int(len(x))] ^= byte(1 << f.Int(8))
				}
			}
			if n.truncat > 0 && f.Bool(1, n.truncat) && len(x) > 0 {
				simrt.Fault("net-truncate")
				x = x[:f.Int(len(x))]
			}
			if n.forge > 0 && f.Bool(1, n.forge) {
				simrt.Fault("net-forge")
				y := clone(b)
				for k := range y {
					if k >= 12 || f.Bool(1, 12) {
						y[k] = byte(f.Int(256))
					}
				}
				deliver(y)
			}
		}
		if d <= 0 {
			deliver(x)
		} else {
			w.After(d, func() { deliver(x) })
		}
	}
}
