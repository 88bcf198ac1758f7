package scen

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/pion/rtp"

	"simw/simrt"
	mrtp "simw/x/github.com/livekit/media-sdk/rtp"
)

func init() {
	register(&Scen{Name: "mux", Props: []string{"C18"}, Main: muxMain,
		Real: []string{"rtp.Mux"}, Stub: []string{"handlers", "traffic", "scheduler"},
		Reached: []string{"dynamic", "static", "default", "dropped", "removed", "reentered", "printed", "handler-error", "changed-during-call", "blocked-handler"}})
}

// muxReg is a write to one entry of the table.
type muxReg struct {
	call, ret int // ret 0: not returned yet
	h         *muxH
}

type muxH struct {
	name  string
	calls func(h *muxH, hd *rtp.Header, payload []byte) error
}

func (h *muxH) String() string { simrt.Yield(); return h.name }
func (h *muxH) HandleRTP(hd *rtp.Header, payload []byte) error {
	return h.calls(h, hd, payload)
}

func muxMain(r *R) {
	d, w := r.D, r.W
	seq := 0
	tick := func() int { seq++; return seq }
	const defType = -1
	table := map[int][]*muxReg{}
	// until is the last moment at which an entry may have held x.
	until := func(t int, x *muxReg) int {
		last := 1 << 40
		for _, y := range table[t] {
			if x.ret != 0 && y.call > x.ret && y.ret != 0 {
				last = min(last, y.ret)
			}
		}
		return last
	}
	// candidates lists what an entry may have held between two moments.
	candidates := func(t, from, to int) (out []*muxReg) {
		for _, x := range table[t] {
			if x.call <= to && until(t, x) >= from {
				out = append(out, x)
			}
		}
		return out
	}
	var mux *mrtp.Mux
	var hs []*muxH
	type call struct {
		typ     byte
		hd      *rtp.Header
		hcopy   rtp.Header
		payload []byte
		pcopy   []byte
		h       *muxH
		n       int
		err     error
		from    int
	}
	active := map[string]*call{} // by task
	set := func(t int, h *muxH) {
		x := &muxReg{call: tick(), h: h}
		table[t] = append(table[t], x)
		var v mrtp.Handler
		if h != nil {
			v = h
		}
		if t == defType {
			mux.SetDefault(v)
		} else {
			mux.Register(byte(t), v)
		}
		x.ret = tick()
		if h == nil {
			simrt.Probe("removed")
			simrt.Log("set %d nil", t)
		} else {
			simrt.Log("set %d %s", t, h.name)
		}
	}
	types := []int{0, 8, 9, 34, 35, 36, 95, 96, 101, 127}
	for i := len(types) - 1; i > 0; i-- {
		j := d.Int(i + 1)
		types[i], types[j] = types[j], types[i]
	}
	types = types[:d.Range(1, 4)]
	somewhere := func(s *simrt.Stream) int {
		if s.Bool(1, 5) {
			return defType
		}
		return types[s.Int(len(types))]
	}
	some := func(s *simrt.Stream) *muxH {
		if s.Bool(1, 3) {
			return nil
		}
		return hs[s.Int(len(hs))]
	}
	hstream := w.Stream("handler")
	reenter := pick(d, 0, 0, 5, 2)
	blockers, passed := 0, 0
	mayBlock := d.Bool(1, 3)
	depth := 0
	handle := func(h *muxH, hd *rtp.Header, payload []byte) error {
		c := active[simrt.CurName()]
		if c == nil {
			r.Fail("stray", "handler %s called outside of any call", h.name)
		}
		if c.n++; c.n > 1 {
			r.Fail("twice", "a packet of type %d went to %s and then to %s", c.typ, c.h.name, h.name)
		}
		c.h = h
		if hd != c.hd || !reflect.DeepEqual(*hd, c.hcopy) || string(payload) != string(c.pcopy) || (len(payload) > 0 && &payload[0] != &c.payload[0]) {
			r.Fail("modified", "handler %s received %v %s for %v %s", h.name, *hd, hex(payload), c.hcopy, hex(c.pcopy))
		}
		if reenter > 0 && depth < 3 && hstream.Bool(1, reenter) {
			simrt.Probe("reentered")
			depth++
			set(somewhere(hstream), some(hstream))
			depth--
		}
		if mayBlock && hstream.Bool(1, 4) {
			// wait until another packet went through, at most for a while
			simrt.Probe("blocked-handler")
			blockers++
			at := passed
			simrt.Await(50*time.Millisecond, func() bool { return passed > at })
			blockers--
		}
		if hstream.Bool(1, 5) {
			c.err = newErr("%s failed", h.name)
			simrt.Probe("handler-error")
			return c.err
		}
		return nil
	}
	for i := 0; i < d.Range(2, 4); i++ {
		hs = append(hs, &muxH{name: fmt.Sprintf("H%d", i), calls: handle})
	}
	first := &muxReg{call: tick()}
	if d.Bool(1, 2) {
		first.h = hs[0]
		mux = mrtp.NewMux(hs[0])
	} else {
		mux = mrtp.NewMux(nil)
	}
	first.ret = tick()
	table[defType] = []*muxReg{first}
	for _, t := range types {
		table[t] = []*muxReg{{call: 0, ret: 1}}
	}
	var ts []*simrt.Task
	for i := 0; i < d.Range(1, 3); i++ {
		s := w.Stream(fmt.Sprintf("traffic%d", i))
		ts = append(ts, w.Spawn(fmt.Sprintf("traffic%d", i), func() {
			me := simrt.CurName()
			for k := s.Range(1, 15); k > 0; k-- {
				h := genHeader(s, s.U32(), s.U32(), uint16(s.Int(65536)))
				h.PayloadType = uint8(types[s.Int(len(types))])
				payload := genPayload(s, s.Int(40))
				hc := h
				hc.CSRC = clone(h.CSRC)
				c := &call{typ: h.PayloadType, hd: &h, hcopy: hc, payload: payload, pcopy: clone(payload), from: tick()}
				active[me] = c
				err := mux.HandleRTP(&h, payload)
				to := tick()
				delete(active, me)
				passed++
				if err != c.err {
					r.Fail("error", "handler %v returned %v, the mux %v", c.h, c.err, err)
				}
				if !reflect.DeepEqual(h, c.hcopy) || string(payload) != string(c.pcopy) {
					r.Fail("modified", "the packet was modified")
				}
				ok := false
				typed := candidates(int(c.typ), c.from, to)
				names := ""
				for _, x := range typed {
					if x.h != nil {
						ok = ok || x.h == c.h
						names += " " + x.h.name
						continue
					}
					// the default counts while the type has no handler
					for _, y := range candidates(defType, max(c.from, x.call), min(to, until(int(c.typ), x))) {
						ok = ok || y.h == c.h
						if y.h != nil {
							names += " default " + y.h.name
						} else {
							names += " nobody"
						}
					}
				}
				got := "nobody"
				if c.h != nil {
					got = c.h.name
				}
				if !ok {
					r.Fail("route", "packet of type %d went to %s, not to any of [%s ]", c.typ, got, names)
				}
				if len(typed) > 1 {
					simrt.Probe("changed-during-call")
				}
				switch {
				case c.h == nil:
					simrt.Probe("dropped")
				case len(typed) == 1 && typed[0].h == nil:
					simrt.Probe("default")
				case c.typ < 35:
					simrt.Probe("static")
				default:
					simrt.Probe("dynamic")
				}
				if s.Bool(1, 4) {
					simrt.SleepExact(s.Dur(0, time.Millisecond))
				}
			}
		}))
	}
	for i := 0; i < d.Range(1, 3); i++ {
		s := w.Stream(fmt.Sprintf("reg%d", i))
		ts = append(ts, w.Spawn(fmt.Sprintf("reg%d", i), func() {
			for k := s.Range(1, 12); k > 0; k-- {
				if s.Bool(1, 4) {
					txt := mux.String()
					simrt.Probe("printed")
					if !strings.HasPrefix(txt, "Mux") {
						r.Fail("string", "%q", txt)
					}
				} else {
					set(somewhere(s), some(s))
				}
				if s.Bool(1, 4) {
					simrt.SleepExact(s.Dur(0, time.Millisecond))
				}
			}
		}))
	}
	for _, t := range ts {
		r.Finish(t, 10*time.Second, 10*time.Second, "stuck")
	}
	// at rest the mux holds what was registered last
	txt := mux.String()
	for _, t := range append([]int{defType}, types...) {
		c := candidates(t, seq, seq)
		if len(c) != 1 {
			continue
		}
		want := fmt.Sprintf("(T=%d -> ", t)
		if t == defType {
			want = "(Def -> "
		}
		if c[0].h == nil {
			if strings.Contains(txt, want) {
				r.Fail("string", "%q shows a handler for %d, none is set", txt, t)
			}
		} else if !strings.Contains(txt, want+c[0].h.name+")") {
			r.Fail("string", "%q does not show %s for %d", txt, c[0].h.name, t)
		}
	}
}
