package scen

import (
	"errors"
	"fmt"
	"net"
	"net/netip"
	"syscall"
	"time"

	"simw/simrt"
	mrtp "simw/x/github.com/livekit/media-sdk/rtp"
)

func init() {
	register(&Scen{Name: "listen", Props: []string{"C21"}, Main: listenMain, Solo: true,
		Real: []string{"rtp.ListenUDPPortRange", "rtp.ListenUDPPortRangeWithConfig", "rtp.bindRange"}, Stub: []string{"host UDP stack", "other processes binding ports", "scheduler"},
		Reached: []string{"success", "all-in-use", "other-error", "empty-range", "ephemeral", "single", "ipv6", "config", "control-error", "probed", "whole-range"}})
}

func listenMain(r *R) {
	d, w := r.D, r.W
	ns := w.Net
	ips := []netip.Addr{netip.MustParseAddr("10.0.0.1"), netip.MustParseAddr("127.0.0.1"), netip.MustParseAddr("0.0.0.0"),
		netip.MustParseAddr("::1"), netip.MustParseAddr("2001:db8::5"), netip.MustParseAddr("::"), netip.MustParseAddr("::ffff:10.0.0.1")}
	base := pick(d, 1, 2, 1024, 10000, 30000, 65530, 65535, 65520)
	size := pick(d, 1, 2, 3, 5, 12, 40)
	bindErrNum, ctlNum := 0, 0
	if r.Faults {
		bindErrNum = pick(d, 0, 0, 3, 15, 60)
		ctlNum = pick(d, 0, 0, 10)
	}
	inject := map[string]error{} // by task: the error injected into its last bind
	ns.OnBind = func(a netip.AddrPort) error {
		me := simrt.CurName()
		delete(inject, me)
		if r.Faults && r.F.Bool(1, 5) {
			simrt.Fault("slow-bind")
			simrt.SleepExact(r.F.Dur(0, time.Millisecond))
		}
		if bindErrNum > 0 && r.F.Bool(1, bindErrNum) {
			simrt.Fault("bind-error")
			inject[me] = pick(r.F, syscall.EACCES, syscall.ENOBUFS, syscall.EMFILE, syscall.EADDRNOTAVAIL, syscall.EINVAL)
			return inject[me]
		}
		return nil
	}
	// other processes
	owner := map[*simrt.UDPConn]string{}
	var others []*simrt.UDPConn
	squat := func(s *simrt.Stream) {
		c, err := ns.Bind(netip.AddrPortFrom(ips[s.Int(len(ips))], uint16(min(65535, base+s.Int(size)))))
		if err == nil {
			owner[c] = "squatter"
			others = append(others, c)
		}
	}
	fill := pick(d, 0, 0, 50, 90, 100)
	save := ns.OnBind
	ns.OnBind = nil
	for p := base; p < base+size && p <= 65535; p++ {
		if d.Bool(fill, 100) {
			c, err := ns.Bind(netip.AddrPortFrom(ips[pick(d, 0, 2, 3, 5, 2)], uint16(p)))
			if err == nil {
				owner[c] = "squatter"
				others = append(others, c)
			}
		}
	}
	ns.OnBind = save
	var ts []*simrt.Task
	for i := 0; i < d.Range(1, 4); i++ {
		name := fmt.Sprintf("alloc%d", i)
		s := w.Stream(name)
		ts = append(ts, w.Spawn(name, func() {
			me := simrt.CurName()
			var held []*simrt.UDPConn
			for k := s.Range(1, 12); k > 0; k-- {
				if len(held) > 0 && s.Bool(1, 3) {
					c := held[0]
					held = held[1:]
					delete(owner, c)
					if err := c.Close(); err != nil {
						r.Fail("close", "%v", err)
					}
					continue
				}
				lo, hi := base, base+size-1
				switch s.Weighted(8, 1, 1, 1, 1, 1, 1) {
				case 1:
					lo, hi = -s.Int(2), -s.Int(3)
				case 2:
					hi = lo - s.Range(1, 5)
				case 3:
					lo, hi = 65536-s.Range(0, 6), pick(s, 0, -1, 65536, 100000)
				case 4:
					lo = hi
				case 5:
					lo, hi = -s.Int(2), s.Range(1, 6)
				case 6:
					lo, hi = pick(s, 65536, 65540, 70000), pick(s, 65536, 65540, 70000, 0)
				}
				if lo == hi && lo > 65535 {
					hi = 0 // a single number that is not a port: what happens is the resolver's business
				}
				ip := ips[s.Int(len(ips))]
				from := len(ns.Binds)
				controls := 0
				var ctlErr error
				var c *simrt.UDPConn
				var err error
				conf := s.Bool(1, 2)
				if conf {
					simrt.Probe("config")
					lc := &simrt.ListenConfig{Control: func(network, address string, _ syscall.RawConn) error {
						controls++
						if ctlNum > 0 && r.F.Bool(1, ctlNum) {
							simrt.Fault("control-error")
							ctlErr = newErr("control failed")
							return ctlErr
						}
						return nil
					}}
					c, err = mrtp.ListenUDPPortRangeWithConfig(lo, hi, ip, lc)
				} else {
					c, err = mrtp.ListenUDPPortRange(lo, hi, ip)
				}
				var tries []simrt.Bind
				for _, b := range ns.Binds[from:] {
					if b.Task == me {
						tries = append(tries, b)
					}
				}
				simrt.Log("%s listen %d-%d on %s conf=%v: %d attempts, err %v", name, lo, hi, ip, conf, len(tries), err)
				want := netip.AddrPortFrom(ip.Unmap(), 0).Addr()
				if ip.Is6() && !ip.Is4In6() {
					simrt.Probe("ipv6")
				}
				eph := lo <= 0 && hi <= 0
				single := !eph && lo == hi
				a, b := lo, hi // ports to try
				if !eph && !single {
					if a <= 0 {
						a = 1
					}
					if b <= 0 || b > 65535 {
						b = 65535
					}
				}
				seen := map[int]bool{}
				for i, x := range tries {
					if x.Addr.Addr() != want {
						r.Fail("address", "%s: bound %s, want address %s", name, x.Addr, want)
					}
					p := int(x.Addr.Port())
					if eph && (x.Asked != 0) || !eph && (p < a || p > b) {
						r.Fail("port", "%s: tried port %d for the range %d-%d", name, p, lo, hi)
					}
					if seen[p] {
						r.Fail("tried-twice", "%s: tried port %d twice", name, p)
					}
					seen[p] = true
					if i < len(tries)-1 && !errors.Is(x.Err, syscall.EADDRINUSE) {
						r.Fail("went-on", "%s: went on after %v", name, x.Err)
					}
				}
				if err == nil {
					simrt.Probe("success")
					if c == nil || len(tries) == 0 || tries[len(tries)-1].Err != nil {
						r.Fail("no-socket", "%s: success without a socket", name)
					}
					if ns.Socks[c.AddrPort()] != c {
						r.Fail("closed-socket", "%s: the socket on %s is not open", name, c.AddrPort())
					}
					if o := owner[c]; o != "" {
						r.Fail("shared", "%s: the socket on %s belongs to %s", name, c.AddrPort(), o)
					}
					if u, ok := c.LocalAddr().(*net.UDPAddr); !ok || c.AddrPort().Addr() != want || u.Port == 0 || !eph && (u.Port < a || u.Port > b) {
						r.Fail("port", "%s: listening on %s for %s and %d-%d", name, c.AddrPort(), want, lo, hi)
					}
					if conf && controls != len(tries) {
						r.Fail("config", "%s: the configuration was used for %d of %d attempts", name, controls, len(tries))
					}
					owner[c] = name
					held = append(held, c)
					if eph {
						simrt.Probe("ephemeral")
					}
					if single {
						simrt.Probe("single")
					}
					if len(tries) > 1 {
						simrt.Probe("probed")
					}
				} else {
					if c != nil {
						r.Fail("socket-with-error", "%s: error %v together with a socket", name, err)
					}
					var last error
					if n := len(tries); n > 0 {
						last = tries[n-1].Err
						if last == nil {
							r.Fail("leak", "%s: a socket was opened but the call failed with %v", name, err)
						}
					}
					inUse := last != nil && errors.Is(last, syscall.EADDRINUSE)
					switch {
					case ctlErr != nil:
						simrt.Probe("control-error")
						if !errors.Is(err, ctlErr) {
							r.Fail("error", "%s: got %v, want %v", name, err, ctlErr)
						}
					case last != nil && !inUse:
						simrt.Probe("other-error")
						var e syscall.Errno
						if !errors.As(last, &e) || !errors.Is(err, e) {
							r.Fail("error", "%s: got %v, the bind failed with %v", name, err, last)
						}
					case single && lo > 65535: // not a port
					case single && inUse:
						if !errors.Is(err, syscall.EADDRINUSE) && !errors.Is(err, mrtp.ErrListenFailed) {
							r.Fail("error", "%s: got %v for a port in use", name, err)
						}
					case !errors.Is(err, mrtp.ErrListenFailed):
						r.Fail("error", "%s: got %v for %d-%d on %s after %d attempts", name, err, lo, hi, ip, len(tries))
					case !eph && a > b:
						simrt.Probe("empty-range")
					case len(tries) != b-a+1:
						r.Fail("gave-up", "%s: failed after %d of %d ports", name, len(tries), b-a+1)
					default:
						simrt.Probe("all-in-use")
					}
				}
				if len(tries) > 0 && !eph && len(tries) == b-a+1 && len(tries) > 1 {
					simrt.Probe("whole-range")
				}
				if s.Bool(1, 3) {
					simrt.SleepExact(s.Dur(0, time.Millisecond))
				}
			}
			for _, c := range held {
				delete(owner, c)
				_ = c.Close()
			}
		}))
	}
	if d.Bool(1, 2) {
		s := w.Stream("squatter")
		ts = append(ts, w.Spawn("squatter", func() {
			for k := s.Range(1, 20); k > 0; k-- {
				if len(others) > 0 && s.Bool(1, 2) {
					c := others[0]
					others = others[1:]
					delete(owner, c)
					_ = c.Close()
				} else {
					squat(s)
				}
				simrt.SleepExact(s.Dur(0, 500*time.Microsecond))
			}
		}))
	}
	for _, t := range ts {
		r.Finish(t, 10*time.Second, 10*time.Second, "stuck")
	}
	if n := len(ns.Socks); n != len(others) {
		r.Fail("leak", "%d sockets open at the end, %d expected", n, len(others))
	}
}
