package simrt

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"net/netip"
	"os"
	"strconv"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- disk

// Disk is the simulated file system; nothing touches the real one.
type Disk struct {
	w     *World
	Files map[string]*Inode
	// OnOp, when set, may fail or shorten an operation: it returns how many of
	// n bytes to accept and an error.
	OnOp func(op, name string, n int) (int, error)
	Open int
}

type Inode struct {
	Name   string
	Data   []byte
	Synced int
	Opens  int
	Closes int
}

// File is os.File on the simulated disk.
type File struct {
	ino    *Inode
	d      *Disk
	pos    int
	closed bool
}

func newDisk(w *World) *Disk { return &Disk{w: w, Files: map[string]*Inode{}} }

func perr(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

func OsCreate(name string) (*File, error) {
	return OsOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}
func OsOpen(name string) (*File, error) { return OsOpenFile(name, os.O_RDONLY, 0) }

func OsOpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	if W == nil {
		return nil, perr("open", name, errors.New("no simulated world"))
	}
	S()
	d := W.Disk
	if d.OnOp != nil {
		if _, err := d.OnOp("open", name, 0); err != nil {
			return nil, perr("open", name, err)
		}
	}
	ino := d.Files[name]
	if ino == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		ino = &Inode{Name: name}
		d.Files[name] = ino
	}
	if flag&os.O_TRUNC != 0 {
		ino.Data = nil
	}
	ino.Opens++
	d.Open++
	f := &File{ino: ino, d: d}
	if flag&os.O_APPEND != 0 {
		f.pos = len(ino.Data)
	}
	return f, nil
}

func (f *File) Name() string { return f.ino.Name }

func (f *File) Write(p []byte) (int, error) {
	S()
	if f.closed {
		return 0, perr("write", f.ino.Name, os.ErrClosed)
	}
	RS(p, "write to a file")
	IORelease()
	n, err := len(p), error(nil)
	if f.d.OnOp != nil {
		n, err = f.d.OnOp("write", f.ino.Name, len(p))
	}
	if need := f.pos + n - len(f.ino.Data); need > 0 {
		f.ino.Data = append(f.ino.Data, make([]byte, need)...)
	}
	copy(f.ino.Data[f.pos:], p[:n])
	f.pos += n
	if err != nil {
		return n, perr("write", f.ino.Name, err)
	}
	if n < len(p) {
		return n, io.ErrShortWrite
	}
	return n, nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Read(p []byte) (int, error) {
	S()
	if f.closed {
		return 0, perr("read", f.ino.Name, os.ErrClosed)
	}
	if f.pos >= len(f.ino.Data) {
		return 0, io.EOF
	}
	IOAcquire()
	n := Copy("read from a file", p, f.ino.Data[f.pos:])
	f.pos += n
	return n, nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		f.pos = int(off)
	case io.SeekCurrent:
		f.pos += int(off)
	case io.SeekEnd:
		f.pos = len(f.ino.Data) + int(off)
	}
	return int64(f.pos), nil
}

func (f *File) Sync() error {
	S()
	if f.closed {
		return perr("sync", f.ino.Name, os.ErrClosed)
	}
	if f.d.OnOp != nil {
		if _, err := f.d.OnOp("sync", f.ino.Name, 0); err != nil {
			return perr("sync", f.ino.Name, err)
		}
	}
	f.ino.Synced = len(f.ino.Data)
	return nil
}

func (f *File) Close() error {
	S()
	if f.closed {
		return perr("close", f.ino.Name, os.ErrClosed)
	}
	f.closed = true
	f.ino.Closes++
	f.d.Open--
	if f.d.OnOp != nil {
		if _, err := f.d.OnOp("close", f.ino.Name, 0); err != nil {
			return perr("close", f.ino.Name, err)
		}
	}
	return nil
}

func OsRemove(name string) error {
	if W == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if W.Disk.Files[name] == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	delete(W.Disk.Files, name)
	return nil
}

// ---------------------------------------------------------------- UDP

// NetStack is the simulated host network.
type NetStack struct {
	w     *World
	Socks map[netip.AddrPort]*UDPConn
	Binds []Bind
	// OnBind may fail a bind attempt.
	OnBind func(addr netip.AddrPort) error
	// OnSend decides what happens to a datagram: it calls deliver with a delay
	// zero or more times. nil = immediate delivery.
	OnSend func(from, to netip.AddrPort, data []byte, deliver func(d time.Duration, data []byte))
	eph    uint16
	Opened int
	Closed int
}

type Bind struct {
	Asked uint16 // the port asked for
	Addr  netip.AddrPort
	Err   error
	Task  string
}

func newNetStack(w *World) *NetStack {
	return &NetStack{w: w, Socks: map[netip.AddrPort]*UDPConn{}, eph: 32768}
}

type dgram struct {
	from netip.AddrPort
	data []byte
}

// UDPConn is net.UDPConn on the simulated network.
type UDPConn struct {
	ns     *NetStack
	addr   netip.AddrPort
	q      []dgram
	rq     []*Task
	closed bool
	rdl    time.Duration
	QMax   int
}

func opErr(op string, a netip.AddrPort, err error) error {
	return &net.OpError{Op: op, Net: "udp", Addr: net.UDPAddrFromAddrPort(a), Err: err}
}

func (ns *NetStack) overlaps(a netip.AddrPort) bool {
	for b := range ns.Socks {
		if b.Port() != a.Port() {
			continue
		}
		if b.Addr() == a.Addr() || b.Addr().IsUnspecified() || a.Addr().IsUnspecified() {
			return true
		}
	}
	return false
}

// Bind opens a socket.
func (ns *NetStack) Bind(a netip.AddrPort) (*UDPConn, error) {
	S()
	if !a.Addr().IsValid() {
		a = netip.AddrPortFrom(netip.IPv6Unspecified(), a.Port())
	}
	a = netip.AddrPortFrom(a.Addr().Unmap(), a.Port())
	asked := a.Port()
	var err error
	if ns.OnBind != nil {
		err = ns.OnBind(a)
	}
	if err == nil && a.Port() == 0 {
		for i := 0; ; i++ {
			if i > 65536 {
				err = syscall.EADDRINUSE
				break
			}
			ns.eph++
			if ns.eph < 32768 {
				ns.eph = 32768
			}
			b := netip.AddrPortFrom(a.Addr(), ns.eph)
			if !ns.overlaps(b) {
				a = b
				break
			}
		}
	} else if err == nil && ns.overlaps(a) {
		err = syscall.EADDRINUSE
	}
	ns.Binds = append(ns.Binds, Bind{Asked: asked, Addr: a, Err: err, Task: CurName()})
	if err != nil {
		return nil, opErr("listen", a, os.NewSyscallError("bind", err))
	}
	c := &UDPConn{ns: ns, addr: a, QMax: 1 << 16}
	ns.Socks[a] = c
	ns.Opened++
	return c, nil
}

func NetListenUDP(network string, laddr *net.UDPAddr) (*UDPConn, error) {
	if W == nil {
		return nil, errors.New("simrt: no world")
	}
	switch network {
	case "udp", "udp4", "udp6":
	default:
		return nil, &net.OpError{Op: "listen", Net: network, Err: net.UnknownNetworkError(network)}
	}
	if laddr == nil {
		laddr = &net.UDPAddr{}
	}
	if laddr.Port < 0 || laddr.Port > 65535 {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: laddr, Err: &net.AddrError{Err: "invalid port", Addr: strconv.Itoa(laddr.Port)}}
	}
	ip, _ := netip.AddrFromSlice(laddr.IP)
	return W.Net.Bind(netip.AddrPortFrom(ip, uint16(laddr.Port)))
}

// ListenConfig is net.ListenConfig.
type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
}

func (lc *ListenConfig) ListenPacket(ctx context.Context, network, address string) (net.PacketConn, error) {
	if W == nil {
		return nil, errors.New("simrt: no world")
	}
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	p, err := strconv.Atoi(port)
	if err != nil || p < 0 || p > 65535 {
		return nil, &net.OpError{Op: "listen", Net: network, Err: &net.AddrError{Err: "invalid port", Addr: port}}
	}
	var ip netip.Addr
	if host != "" {
		ip, err = netip.ParseAddr(host)
		if err != nil {
			return nil, &net.OpError{Op: "listen", Net: network, Err: &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}}
		}
	}
	if lc.Control != nil {
		if err := lc.Control(network, address, nil); err != nil {
			return nil, &net.OpError{Op: "listen", Net: network, Err: err}
		}
	}
	c, err := W.Net.Bind(netip.AddrPortFrom(ip, uint16(p)))
	if err != nil {
		return nil, err
	}
	return c, nil
}

func NetListenPacket(network, address string) (net.PacketConn, error) {
	var lc ListenConfig
	return lc.ListenPacket(context.Background(), network, address)
}

func (c *UDPConn) AddrPort() netip.AddrPort { return c.addr }
func (c *UDPConn) LocalAddr() net.Addr      { return net.UDPAddrFromAddrPort(c.addr) }
func (c *UDPConn) RemoteAddr() net.Addr     { return nil }

func (c *UDPConn) wake() {
	for _, t := range c.rq {
		W.wakeup(t)
	}
	c.rq = nil
}

func (c *UDPConn) Close() error {
	if W == nil || W.killing {
		return nil
	}
	S()
	if c.closed {
		return opErr("close", c.addr, net.ErrClosed)
	}
	c.closed = true
	c.ns.Closed++
	delete(c.ns.Socks, c.addr)
	c.wake()
	return nil
}

func (c *UDPConn) IsClosed() bool { return c.closed }

func (c *UDPConn) ReadFromUDPAddrPort(b []byte) (int, netip.AddrPort, error) {
	S()
	for {
		if c.closed {
			return 0, netip.AddrPort{}, opErr("read", c.addr, net.ErrClosed)
		}
		if len(c.q) > 0 {
			d := c.q[0]
			c.q = c.q[1:]
			IOAcquire()
			return Copy("read from a socket", b, d.data), d.from, nil
		}
		if c.rdl > 0 && W.Now() >= c.rdl {
			return 0, netip.AddrPort{}, opErr("read", c.addr, os.ErrDeadlineExceeded)
		}
		c.rq = append(c.rq, cur)
		block("udp read")
	}
}

func (c *UDPConn) ReadFrom(b []byte) (int, net.Addr, error) {
	n, a, err := c.ReadFromUDPAddrPort(b)
	if err != nil {
		return n, nil, err
	}
	return n, net.UDPAddrFromAddrPort(a), nil
}

func (c *UDPConn) ReadFromUDP(b []byte) (int, *net.UDPAddr, error) {
	n, a, err := c.ReadFromUDPAddrPort(b)
	if err != nil {
		return n, nil, err
	}
	return n, net.UDPAddrFromAddrPort(a), nil
}

func (c *UDPConn) Read(b []byte) (int, error) {
	n, _, err := c.ReadFromUDPAddrPort(b)
	return n, err
}

func (c *UDPConn) Write(b []byte) (int, error) {
	return 0, opErr("write", c.addr, errors.New("destination address required"))
}

func (c *UDPConn) WriteToUDPAddrPort(b []byte, to netip.AddrPort) (int, error) {
	S()
	if c.closed {
		return 0, opErr("write", c.addr, net.ErrClosed)
	}
	to = netip.AddrPortFrom(to.Addr().Unmap(), to.Port())
	w := W
	RS(b, "write to a socket")
	IORelease()
	deliver := func(d time.Duration, data []byte) {
		data = append([]byte(nil), data...)
		put := func() {
			dst := c.ns.Socks[to]
			if dst == nil || dst.closed || len(dst.q) >= dst.QMax {
				w.Counts["net.undeliverable"]++
				return
			}
			dst.q = append(dst.q, dgram{c.addr, data})
			dst.wake()
		}
		if d <= 0 {
			put()
		} else {
			w.at(w.Now()+d, put)
		}
	}
	if c.ns.OnSend != nil {
		c.ns.OnSend(c.addr, to, b, deliver)
	} else {
		deliver(0, b)
	}
	return len(b), nil
}

func (c *UDPConn) WriteTo(b []byte, a net.Addr) (int, error) {
	ua, ok := a.(*net.UDPAddr)
	if !ok {
		return 0, opErr("write", c.addr, fmt.Errorf("bad address %v", a))
	}
	return c.WriteToUDPAddrPort(b, ua.AddrPort())
}

func (c *UDPConn) WriteToUDP(b []byte, a *net.UDPAddr) (int, error) {
	return c.WriteToUDPAddrPort(b, a.AddrPort())
}

func (c *UDPConn) SetDeadline(t time.Time) error      { return c.SetReadDeadline(t) }
func (c *UDPConn) SetWriteDeadline(t time.Time) error { return nil }
func (c *UDPConn) SetReadBuffer(int) error            { return nil }
func (c *UDPConn) SetWriteBuffer(int) error           { return nil }
func (c *UDPConn) SetReadDeadline(t time.Time) error {
	if t.IsZero() {
		c.rdl = 0
		return nil
	}
	c.rdl = MonoOf(t)
	W.at(c.rdl, func() { c.wake() })
	return nil
}
