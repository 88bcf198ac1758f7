package scen

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"net/netip"
	"slices"
	"strconv"
	"strings"
	"time"

	"github.com/pion/rtp"

	"simw/simrt"
	msdk "simw/x/github.com/livekit/media-sdk"
	"simw/x/github.com/livekit/media-sdk/dtmf"
	_ "simw/x/github.com/livekit/media-sdk/g711"
	_ "simw/x/github.com/livekit/media-sdk/g722"
	mrtp "simw/x/github.com/livekit/media-sdk/rtp"
	msdp "simw/x/github.com/livekit/media-sdk/sdp"
	msrtp "simw/x/github.com/livekit/media-sdk/srtp"
	psrtp "simw/x/github.com/pion/srtp/v3"
)

func init() {
	register(&Scen{Name: "sdp", Props: []string{"C17"}, Main: sdpMain, Solo: true,
		Real: []string{"sdp offers, answers, parsing, codec and crypto selection", "media codec registry", "srtp.DefaultProfiles", "srtp.NewSession", "github.com/pion/sdp/v3"},
		Stub: []string{"signalling transport", "foreign endpoint", "two additional dynamic codecs", "randomness", "scheduler"},
		Reached: []string{"encrypted", "plain", "refused", "corrupt-rejected", "corrupt-accepted", "retransmitted", "foreign-offer", "foreign-answer",
			"no-dtmf", "ipv6", "dynamic-codec", "mki", "malformed-key", "malformed-key-refused", "media-checked", "answer-replayed", "multi-answer", "profile-twice", "origin-address"}})
	nop := func(w msdk.PCM16Writer) msdk.WriteCloser[simDynSample] { return nil }
	enc := func(w msdk.WriteCloser[simDynSample]) msdk.PCM16Writer { return nil }
	simDyn = []msdk.Codec{
		mrtp.NewAudioCodec(msdk.CodecInfo{SDPName: "simwide/16000", SampleRate: 16000, Priority: 5, Disabled: true}, nop, enc),
		mrtp.NewAudioCodec(msdk.CodecInfo{SDPName: "SimStereo/48000/2", SampleRate: 48000, Priority: -7, Disabled: true}, nop, enc),
	}
	for _, c := range simDyn {
		msdk.RegisterCodec(c)
	}
}

type simDynSample []byte

func (s simDynSample) Size() int                      { return len(s) }
func (s simDynSample) CopyTo(dst []byte) (int, error) { return copy(dst, s), nil }

var simDyn []msdk.Codec

// sdpView is what a text means to an independent reader of it.
type sdpView struct {
	addr   netip.AddrPort
	types  []int
	names  map[int]string
	dtmf   int
	crypto []sdpKey
	proto  string
}

type sdpKey struct {
	tag  string
	prof string
	key  []byte // key and salt
	mki  []byte
}

var staticNames = map[int]string{0: "PCMU/8000", 8: "PCMA/8000", 9: "G722/8000"}

// what the names of the profiles stand for
var profileOf = map[string]psrtp.ProtectionProfile{
	"AES_CM_128_HMAC_SHA1_80": psrtp.ProtectionProfileAes128CmHmacSha1_80, "AES_CM_128_HMAC_SHA1_32": psrtp.ProtectionProfileAes128CmHmacSha1_32,
	"AES_256_CM_HMAC_SHA1_80": psrtp.ProtectionProfileAes256CmHmacSha1_80, "AES_256_CM_HMAC_SHA1_32": psrtp.ProtectionProfileAes256CmHmacSha1_32,
}

var keyLens = map[string][2]int{
	"AES_CM_128_HMAC_SHA1_80": {16, 14}, "AES_CM_128_HMAC_SHA1_32": {16, 14},
	"AES_256_CM_HMAC_SHA1_80": {32, 14}, "AES_256_CM_HMAC_SHA1_32": {32, 14},
}

func readSDP(text []byte) *sdpView {
	v := &sdpView{names: map[int]string{}}
	conn, mconn, origin := "", "", ""
	audio, seen, media := false, false, false
	port := 0
	for _, l := range strings.Split(string(text), "\n") {
		l = strings.TrimRight(l, "\r")
		if len(l) < 2 {
			continue
		}
		val := l[2:]
		switch l[:2] {
		case "m=":
			f := strings.Fields(val)
			audio, media = f[0] == "audio" && !seen, true
			if audio {
				seen = true
				port, _ = strconv.Atoi(f[1])
				v.proto = f[2]
				for _, x := range f[3:] {
					n, _ := strconv.Atoi(x)
					v.types = append(v.types, n)
				}
			}
		case "o=":
			origin = strings.Fields(val)[5]
		case "c=":
			f := strings.Fields(val)
			if audio {
				mconn = f[2]
			} else if !media && conn == "" {
				conn = f[2]
			}
		case "a=":
			if !audio {
				continue
			}
			k, x, _ := strings.Cut(val, ":")
			switch k {
			case "rtpmap":
				t, name, _ := strings.Cut(x, " ")
				n, _ := strconv.Atoi(t)
				if strings.HasPrefix(name, dtmf.SDPName) {
					v.dtmf = n
				} else {
					v.names[n] = name
				}
			case "crypto":
				f := strings.Fields(x)
				p := strings.Split(strings.TrimPrefix(f[2], "inline:"), "|")
				key, _ := base64.RawStdEncoding.DecodeString(strings.TrimRight(p[0], "="))
				c := sdpKey{tag: f[0], prof: f[1], key: key}
				if len(p) > 2 {
					a, b, _ := strings.Cut(p[2], ":")
					val, _ := strconv.ParseUint(a, 10, 64)
					n, _ := strconv.Atoi(b)
					for n--; n >= 0; n-- {
						c.mki = append(c.mki, byte(val>>(8*n)))
					}
				}
				v.crypto = append(v.crypto, c)
			}
		}
	}
	if mconn != "" {
		conn = mconn
	}
	if conn == "" {
		conn = origin
	}
	ip, _ := netip.ParseAddr(conn)
	v.addr = netip.AddrPortFrom(ip, uint16(port))
	return v
}

func (v *sdpView) codec(t int) string {
	if n := v.names[t]; n != "" {
		return n
	}
	return staticNames[t]
}

// listed: the types a text describes are those of its media line.
func (v *sdpView) listed(r *R) {
	var all []int
	for t := range v.names {
		all = append(all, t)
	}
	if v.dtmf != 0 {
		all = append(all, v.dtmf)
	}
	slices.Sort(all)
	for _, t := range all {
		if !slices.Contains(v.types, t) {
			r.Fail("not-listed", "payload type %d is described but is not on the media line %v", t, v.types)
		}
	}
}

// corrupt damages a text the way a bad middlebox might.
func corrupt(s *simrt.Stream, b []byte) []byte {
	b = clone(b)
	for k := s.Range(1, 3); k > 0 && len(b) > 4; k-- {
		lines := bytes.Split(b, []byte("\n"))
		li := s.Int(len(lines))
		switch s.Weighted(2, 2, 2, 1, 1, 5, 3, 2) {
		case 0:
			b = b[:s.Int(len(b))]
		case 1:
			for x := s.Range(1, 4); x > 0; x-- {
				b[s.Int(len(b))] ^= byte(1 << s.Int(8))
			}
		case 2:
			b = bytes.Join(append(lines[:li:li], lines[li+1:]...), []byte("\n"))
		case 3:
			lj := s.Int(len(lines))
			lines[li], lines[lj] = lines[lj], lines[li]
			b = bytes.Join(lines, []byte("\n"))
		case 4:
			b = bytes.Join(append(lines[:li+1:li+1], lines[li:]...), []byte("\n"))
		case 5:
			// replace a number
			var at [][2]int
			for i := 0; i < len(b); {
				if b[i] < '0' || b[i] > '9' {
					i++
					continue
				}
				j := i
				for j < len(b) && b[j] >= '0' && b[j] <= '9' {
					j++
				}
				at = append(at, [2]int{i, j})
				i = j
			}
			if len(at) > 0 {
				x := at[s.Int(len(at))]
				v := pick(s, "0", "-1", "1", "127", "128", "255", "256", "511", "65535", "65536", "4294967296", "18446744073709551616", "", "x", "2^63", "2^64")
				b = append(append(clone(b[:x[0]]), v...), b[x[1]:]...)
			}
		case 6:
			// cut a line short
			if n := len(lines[li]); n > 2 {
				lines[li] = append(clone(lines[li][:s.Range(2, n-1)]), '\r')
				b = bytes.Join(lines, []byte("\n"))
			}
		case 7:
			// drop or duplicate a field
			f := bytes.Split(lines[li], []byte(" "))
			x := s.Int(len(f))
			if s.Bool(1, 2) {
				f = append(f[:x:x], f[x+1:]...)
			} else {
				f = append(f[:x+1:x+1], f[x:]...)
			}
			lines[li] = bytes.Join(f, []byte(" "))
			b = bytes.Join(lines, []byte("\n"))
		}
	}
	return b
}

type sdpNode struct {
	name    string
	ip      netip.Addr
	enabled map[string]bool
	enc     msdp.Encryption
}

// as runs f as the given node, whose codec configuration is its own.
func (n *sdpNode) as(f func()) {
	simrt.Atomically(func() {
		simrt.SyncAll() // the nodes do not share the configuration
		msdk.CodecsSetEnabled(n.enabled)
		defer func() {
			for _, k := range simrt.SortedKeys(n.enabled) {
				msdk.CodecSetEnabled(k, !strings.HasPrefix(strings.ToLower(k), "sim"))
			}
		}()
		f()
	})
}

type sdpCall struct {
	id        int
	port      int // of the offerer
	aport     int
	encA      msdp.Encryption
	encB      msdp.Encryption
	offer     *msdp.Offer
	otext     []byte
	atext     []byte
	amc, bmc  *msdp.MediaConfig
	intactA   bool // the answer applied is the answer sent
	intactO   bool // the offer answered is the offer sent
	done      bool
	aerr      error
	berr      error
	refused   bool
	arrivedAt map[string]bool
}

func sdpMain(r *R) {
	d, w := r.D, r.W
	var names []string
	for _, c := range msdk.Codecs() {
		names = append(names, c.Info().SDPName)
	}
	mk := func(name string) *sdpNode {
		n := &sdpNode{name: name, enabled: map[string]bool{}}
		ips := []string{"10.0.0.1", "192.168.77.200", "203.0.113.9"}
		if d.Bool(1, 6) {
			ips = []string{"2001:db8::17", "fd00::1", "::1"}
			simrt.Probe("ipv6")
		}
		n.ip = netip.MustParseAddr(pick(d, ips...))
		for _, x := range names {
			n.enabled[x] = !d.Bool(1, 4)
		}
		n.enc = pick(d, msdp.EncryptionNone, msdp.EncryptionAllow, msdp.EncryptionRequire)
		return n
	}
	a, b := mk("a"), mk("b")
	switch d.Weighted(6, 2, 2) {
	case 1:
		foreignOffer(r, b)
		return
	case 2:
		foreignAnswer(r, a)
		return
	}
	net := drawNet(r, d, false)
	corr := 0
	if r.Faults {
		corr = pick(d, 0, 0, 4, 2)
	}
	type msg struct {
		id     int
		answer bool
		refuse bool
		text   []byte
		intact bool
	}
	var toA, toB func(m msg)
	qa, qb := make([]msg, 0), make([]msg, 0)
	var mu simrt.Mutex
	cond := simrt.NewCond(&mu)
	toA = func(m msg) { qa = append(qa, m); cond.Broadcast() }
	toB = func(m msg) { qb = append(qb, m); cond.Broadcast() }
	send := func(to *func(m msg), m msg) {
		m.intact = true
		net.send([]byte{1}, func([]byte) {
			x := m
			if corr > 0 && r.F.Bool(1, corr) && x.text != nil {
				simrt.Fault("text-corrupted")
				x.text = corrupt(r.F, x.text)
				x.intact = bytes.Equal(x.text, m.text)
			}
			(*to)(x)
		})
	}
	calls := map[int]*sdpCall{}
	nCalls := d.Range(1, 4)
	over := false
	get := func(q *[]msg) (msg, bool) {
		mu.Lock()
		defer mu.Unlock()
		for len(*q) == 0 && !over {
			cond.Wait()
		}
		if len(*q) == 0 {
			return msg{}, false
		}
		m := (*q)[0]
		*q = (*q)[1:]
		return m, true
	}
	// answering side
	type bst struct {
		reply msg
	}
	sb := w.Stream("b")
	tb := w.Spawn("b", func() {
		seen := map[int]*bst{}
		for {
			m, ok := get(&qb)
			if !ok {
				return
			}
			c := calls[m.id]
			if st := seen[m.id]; st != nil {
				simrt.Probe("answer-replayed")
				send(&toA, st.reply)
				continue
			}
			st := &bst{reply: msg{id: m.id, answer: true, refuse: true}}
			seen[m.id] = st
			c.intactO = m.intact
			b.as(func() {
				o, err := msdp.ParseOffer(m.text)
				if err != nil {
					c.berr = err
					return
				}
				ans, mc, err := o.Answer(b.ip, c.aport, c.encB)
				if err != nil {
					c.berr = err
					return
				}
				text, err := ans.SDP.Marshal()
				if err != nil {
					c.berr = err
					return
				}
				c.bmc, c.atext = mc, text
				st.reply = msg{id: m.id, answer: true, text: text}
			})
			simrt.Log("b: offer %d intact=%v -> %v", m.id, m.intact, c.berr)
			if !m.intact {
				if c.berr != nil {
					simrt.Probe("corrupt-rejected")
				} else {
					simrt.Probe("corrupt-accepted")
				}
			}
			checkPolicy(r, "answerer", c.encB, c.bmc)
			if sb.Bool(1, 4) {
				simrt.SleepExact(sb.Dur(0, 700*time.Millisecond))
			}
			send(&toA, st.reply)
		}
	})
	ta := w.Spawn("a.recv", func() {
		for {
			m, ok := get(&qa)
			if !ok {
				return
			}
			c := calls[m.id]
			if c.done {
				continue
			}
			c.done = true
			if m.refuse {
				c.refused = true
				simrt.Probe("refused")
				continue
			}
			c.intactA = m.intact
			a.as(func() {
				ans, err := msdp.ParseAnswer(m.text)
				if err != nil {
					c.aerr = err
					return
				}
				c.amc, c.aerr = ans.Apply(c.offer, c.encA)
				if c.aerr != nil {
					c.amc = nil
				}
			})
			simrt.Log("a: answer %d intact=%v -> %v", m.id, m.intact, c.aerr)
			checkPolicy(r, "offerer", c.encA, c.amc)
		}
	})
	sa := w.Stream("a")
	t := w.Spawn("a", func() {
		var subs []*simrt.Task
		for i := 0; i < nCalls; i++ {
			c := &sdpCall{id: i, port: sa.Range(1, 65535), aport: sa.Range(1, 65535), encA: a.enc, encB: b.enc}
			if sa.Bool(1, 4) {
				c.encA = pick(sa, msdp.EncryptionNone, msdp.EncryptionAllow, msdp.EncryptionRequire)
			}
			calls[i] = c
			var err error
			a.as(func() {
				c.offer, err = msdp.NewOffer(a.ip, c.port, c.encA)
				if err == nil {
					c.otext, err = c.offer.SDP.Marshal()
				}
			})
			if err != nil {
				r.Fail("offer", "NewOffer: %v", err)
			}
			simrt.Log("a: offer %d port %d enc %d", i, c.port, c.encA)
			subs = append(subs, w.Spawn(fmt.Sprintf("a.call%d", i), func() {
				wait := 500 * time.Millisecond
				for k := 0; k < 6 && !c.done; k++ {
					if k > 0 {
						simrt.Probe("retransmitted")
					}
					send(&toB, msg{id: c.id, text: c.otext})
					simrt.Await(wait, func() bool { return c.done })
					wait *= 2
				}
			}))
			if sa.Bool(1, 2) {
				simrt.SleepExact(sa.Dur(0, time.Second))
			}
		}
		for _, t := range subs {
			t.Join(time.Hour)
		}
	})
	r.Finish(t, 10*time.Second, time.Hour, "stuck")
	simrt.SleepExact(time.Second)
	over = true
	cond.Broadcast()
	r.Join(ta, time.Minute, "stuck")
	r.Join(tb, time.Minute, "stuck")
	for i := 0; i < nCalls; i++ {
		c := calls[i]
		if c.intactO && c.bmc != nil {
			agreeOffer(r, c.otext, c.atext, c.bmc, netip.AddrPortFrom(b.ip, uint16(c.aport)))
		}
		if c.amc != nil && c.intactA {
			agreeAnswer(r, c.otext, c.atext, c.amc, netip.AddrPortFrom(a.ip, uint16(c.port)))
		}
		if !c.intactO || !c.done || (!c.refused && !c.intactA) {
			continue
		}
		common := false
		for _, x := range msdk.Codecs() {
			if n := x.Info().SDPName; n != dtmf.SDPName && a.enabled[n] && b.enabled[n] {
				common = true
			}
		}
		compatible := common && !(c.encA == msdp.EncryptionRequire && c.encB == msdp.EncryptionNone) && !(c.encA == msdp.EncryptionNone && c.encB == msdp.EncryptionRequire)
		if compatible && (c.amc == nil || c.bmc == nil) {
			r.Fail("refused", "call %d failed although nothing stands in its way: %v, %v", i, c.aerr, c.berr)
		}
		if c.amc == nil || c.bmc == nil {
			continue
		}
		agree(r, c.amc, c.bmc)
		if d.Bool(1, 4) {
			mediaCheck(r, c.amc, c.bmc, nil, nil)
		}
	}
}

func checkPolicy(r *R, who string, enc msdp.Encryption, mc *msdp.MediaConfig) {
	if mc == nil {
		return
	}
	if mc.Crypto == nil && enc == msdp.EncryptionRequire {
		r.Fail("unencrypted", "%s requires encryption but accepted a call without", who)
	}
	if mc.Crypto != nil && enc == msdp.EncryptionNone {
		r.Fail("encrypted", "%s forbids encryption but uses it", who)
	}
	if mc.Audio.Codec == nil {
		r.Fail("no-codec", "%s accepted a call without a codec", who)
	}
}

// agree compares the two ends of a call.
func agree(r *R, x, y *msdp.MediaConfig) {
	if x.Local != y.Remote || x.Remote != y.Local {
		r.Fail("address", "offerer %s->%s, answerer %s->%s", x.Local, x.Remote, y.Local, y.Remote)
	}
	if x.Audio.Codec.Info().SDPName != y.Audio.Codec.Info().SDPName || x.Audio.Type != y.Audio.Type {
		r.Fail("codec", "offerer uses %s as %d, answerer %s as %d", x.Audio.Codec.Info().SDPName, x.Audio.Type, y.Audio.Codec.Info().SDPName, y.Audio.Type)
	}
	if x.Audio.DTMFType != y.Audio.DTMFType {
		r.Fail("dtmf", "offerer uses %d for DTMF, answerer %d", x.Audio.DTMFType, y.Audio.DTMFType)
	}
	if x.Audio.DTMFType == 0 {
		simrt.Probe("no-dtmf")
	} else if x.Audio.DTMFType == x.Audio.Type {
		r.Fail("dtmf", "audio and DTMF share the payload type %d", x.Audio.Type)
	}
	if (x.Crypto == nil) != (y.Crypto == nil) {
		r.Fail("one-sided", "encryption: offerer %v, answerer %v", x.Crypto != nil, y.Crypto != nil)
	}
	if x.Crypto == nil {
		simrt.Probe("plain")
		return
	}
	simrt.Probe("encrypted")
	k, l := x.Crypto.Keys, y.Crypto.Keys
	if x.Crypto.Profile != y.Crypto.Profile {
		r.Fail("profile", "offerer uses profile %v, answerer %v", x.Crypto.Profile, y.Crypto.Profile)
	}
	if !bytes.Equal(k.LocalMasterKey, l.RemoteMasterKey) || !bytes.Equal(k.LocalMasterSalt, l.RemoteMasterSalt) ||
		!bytes.Equal(k.RemoteMasterKey, l.LocalMasterKey) || !bytes.Equal(k.RemoteMasterSalt, l.LocalMasterSalt) {
		r.Fail("keys", "the sending keys of one end are not the receiving keys of the other")
	}
	if bytes.Equal(k.LocalMasterKey, k.RemoteMasterKey) {
		r.Fail("keys", "both directions use the same key")
	}
}

func hasCodec(t byte, name string, mc *msdp.MediaConfig) bool {
	if int(mc.Audio.Type) != int(t) {
		return false
	}
	n := strings.ToLower(mc.Audio.Codec.Info().SDPName)
	name = strings.ToLower(name)
	return n == name || n+"/1" == name
}

// agreeOffer checks the answerer's idea of the call against the texts.
func agreeOffer(r *R, otext, atext []byte, mc *msdp.MediaConfig, local netip.AddrPort) {
	o, a := readSDP(otext), readSDP(atext)
	if mc.Remote != o.addr {
		r.Fail("address", "the offer names %s, the answerer sends to %s", o.addr, mc.Remote)
	}
	if mc.Local != local || a.addr != local {
		r.Fail("address", "the answerer listens at %s, has %s configured and names %s in its answer", local, mc.Local, a.addr)
	}
	a.listed(r)
	if len(a.types) == 0 || !hasCodec(byte(a.types[0]), a.codec(a.types[0]), mc) {
		r.Fail("codec", "the answer names %v %v, the answerer uses %s as %d", a.types, a.names, mc.Audio.Codec.Info().SDPName, mc.Audio.Type)
	}
	ok := false
	for _, t := range o.types {
		if hasCodec(byte(t), o.codec(t), mc) {
			ok = true
		}
	}
	if !ok {
		r.Fail("codec", "the answerer uses %s as %d, which was not offered: %v %v", mc.Audio.Codec.Info().SDPName, mc.Audio.Type, o.types, o.names)
	}
	if a.dtmf != int(mc.Audio.DTMFType) || a.dtmf != o.dtmf {
		r.Fail("dtmf", "offered %d, answered %d, used %d", o.dtmf, a.dtmf, mc.Audio.DTMFType)
	}
	if (mc.Crypto != nil) != (len(a.crypto) > 0) || (mc.Crypto != nil) != (a.proto == "RTP/SAVP") {
		r.Fail("one-sided", "the answer has %d crypto lines and %s, the answerer encrypts: %v", len(a.crypto), a.proto, mc.Crypto != nil)
	}
	if mc.Crypto == nil {
		return
	}
	c := a.crypto[0]
	checkKeys(r, "answerer", c, mc.Crypto.Keys.LocalMasterKey, mc.Crypto.Keys.LocalMasterSalt, mc)
	ok = false
	for _, x := range o.crypto {
		if x.tag == c.tag && x.prof == c.prof {
			ok = true
			checkKeys(r, "answerer", x, mc.Crypto.Keys.RemoteMasterKey, mc.Crypto.Keys.RemoteMasterSalt, mc)
		}
	}
	if !ok {
		r.Fail("crypto-tag", "the answer selects crypto %s %s, which was not offered", c.tag, c.prof)
	}
}

// agreeAnswer checks the offerer's idea of the call against the texts.
func agreeAnswer(r *R, otext, atext []byte, mc *msdp.MediaConfig, local netip.AddrPort) {
	o, a := readSDP(otext), readSDP(atext)
	if mc.Remote != a.addr {
		r.Fail("address", "the answer names %s, the offerer sends to %s", a.addr, mc.Remote)
	}
	if mc.Local != local || o.addr != local {
		r.Fail("address", "the offerer listens at %s, has %s configured and names %s in its offer", local, mc.Local, o.addr)
	}
	ok := false
	for _, t := range a.types {
		if hasCodec(byte(t), a.codec(t), mc) {
			ok = true
		}
	}
	if !ok {
		r.Fail("codec", "the offerer uses %s as %d, which is not in the answer: %v %v", mc.Audio.Codec.Info().SDPName, mc.Audio.Type, a.types, a.names)
	}
	if a.dtmf != int(mc.Audio.DTMFType) {
		r.Fail("dtmf", "answered %d, used %d", a.dtmf, mc.Audio.DTMFType)
	}
	if mc.Crypto == nil {
		return
	}
	if len(a.crypto) == 0 {
		r.Fail("one-sided", "the offerer encrypts but the answer does not")
	}
	c := a.crypto[0]
	checkKeys(r, "offerer", c, mc.Crypto.Keys.RemoteMasterKey, mc.Crypto.Keys.RemoteMasterSalt, mc)
	for _, x := range o.crypto {
		if x.prof == c.prof {
			checkKeys(r, "offerer", x, mc.Crypto.Keys.LocalMasterKey, mc.Crypto.Keys.LocalMasterSalt, mc)
		}
	}
}

func checkKeys(r *R, who string, c sdpKey, key, salt []byte, mc *msdp.MediaConfig) {
	n, ok := keyLens[c.prof]
	if !ok || len(c.key) != n[0]+n[1] {
		r.Fail("crypto", "%s: profile %s with %d bytes of key", who, c.prof, len(c.key))
	}
	if !bytes.Equal(key, c.key[:n[0]]) || !bytes.Equal(salt, c.key[n[0]:]) {
		r.Fail("keys", "%s: the key of line %s %s is not the one in use", who, c.tag, c.prof)
	}
	if p, ok := profileOf[c.prof]; !ok || p != mc.Crypto.Profile {
		r.Fail("profile", "%s: line %s has profile %s, in use is %v", who, c.tag, c.prof, mc.Crypto.Profile)
	}
}

// mediaCheck sends a packet in each direction between sessions made from the
// two configurations.
func mediaCheck(r *R, x, y *msdp.MediaConfig, xmki, ymki []byte) {
	simrt.Probe("media-checked")
	cx, cy := newDconn(r, "x"), newDconn(r, "y")
	open := func(c, peer *dconn, mc *msdp.MediaConfig) mrtp.Session {
		c.onWrite = func(b []byte) (int, error) { peer.put(b); return len(b), nil }
		if mc.Crypto == nil {
			return mrtp.NewSession(nopLog{}, c)
		}
		s, err := msrtp.NewSession(nopLog{}, c, mc.Crypto)
		if err != nil {
			r.Fail("session", "the negotiated configuration does not make a session: %v", err)
		}
		return s
	}
	sx, sy := open(cx, cy, x), open(cy, cx, y)
	one := func(from, to mrtp.Session, dir string) {
		got := false
		t := r.W.Spawn("media", func() {
			rs, ssrc, err := to.AcceptStream()
			if err != nil || ssrc != 77 {
				return
			}
			h, buf := new(rtp.Header), make([]byte, 1500)
			n, err := rs.ReadRTP(h, buf)
			got = err == nil && string(buf[:n]) == "payload of the packet" && h.SequenceNumber == 5
		})
		ws, err := from.OpenWriteStream()
		if err == nil {
			_, err = ws.WriteRTP(&rtp.Header{Version: 2, SSRC: 77, SequenceNumber: 5}, []byte("payload of the packet"))
		}
		if err != nil {
			r.Fail("media", "%s: cannot send: %v", dir, err)
		}
		if !simrt.Await(time.Second+r.W.InjectedSince(r.W.Now()), func() bool { return got }) {
			r.Fail("media", "%s: a packet of one end cannot be read at the other", dir)
		}
		t.Join(time.Second)
	}
	one(sx, sy, "offerer to answerer")
	one(sy, sx, "answerer to offerer")
	sx.Close()
	sy.Close()
}

func b64(s *simrt.Stream, n int) ([]byte, string) {
	k := genPayload(s, n)
	if s.Bool(1, 2) {
		return k, base64.RawStdEncoding.EncodeToString(k)
	}
	return k, base64.StdEncoding.EncodeToString(k)
}

func cryptoLine(s *simrt.Stream, tag int, prof string) (string, []byte) {
	n := keyLens[prof]
	_, t := b64(s, n[0]+n[1])
	var mki []byte
	switch s.Weighted(4, 1, 1, 1) {
	case 1:
		t += fmt.Sprintf("|2^%d", s.Range(10, 48))
	case 2:
		t += fmt.Sprintf("|%d", s.Range(1000, 100000))
	case 3:
		l := s.Range(1, 8)
		v := int(uint64(s.U32())<<32|uint64(s.U32())) & (1<<(8*l-1) - 1)
		if l < 8 && s.Bool(1, 4) {
			v = 1<<(8*l) - 1
		}
		for i := l - 1; i >= 0; i-- {
			mki = append(mki, byte(v>>(8*i)))
		}
		t += fmt.Sprintf("|%s|%d:%d", pick(s, "2^20", "", "5000"), v, l)
		simrt.Probe("mki")
	}
	return fmt.Sprintf("a=crypto:%d %s inline:%s\r\n", tag, prof, t), mki
}

// badCryptoLine has key parameters that make no sense.
func badCryptoLine(s *simrt.Stream, tag int, prof string) string {
	simrt.Probe("malformed-key")
	n := keyLens[prof]
	_, t := b64(s, n[0]+n[1])
	switch s.Int(4) {
	case 0:
		_, t = b64(s, s.Int(n[0]))
	case 1:
		t += "|" + pick(s, "2^", "2^64", "2^99", "2^-1", "0", "-5", "x", "2^20x", "18446744073709551616")
	default:
		t += "|" + pick(s, "2^20", "") + "|" + pick(s, "1", "1:0", "0:0", "1:9", "1:128", "1:255", "1:256", "256:1", "65536:2", "4294967296:4", "72057594037927936:7", "18446744073709551616:8", "x:1", "1:x", ":", "-1:4", "1:-1", "1:4:4")
	}
	return fmt.Sprintf("a=crypto:%d %s inline:%s\r\n", tag, prof, t)
}

// mono may add the number of channels to the name of a codec with one.
func mono(s *simrt.Stream, n string) string {
	if strings.Count(n, "/") == 1 && s.Bool(1, 3) {
		return n + "/1"
	}
	return n
}

// foreignOffer: an endpoint that is not ours makes the offer.
func foreignOffer(r *R, b *sdpNode) {
	s := r.D
	simrt.Probe("foreign-offer")
	ip := pick(s, "198.51.100.4", "10.1.2.3", "2001:db8:1::5")
	fam := "IP4"
	if strings.Contains(ip, ":") {
		fam = "IP6"
	}
	port := s.Range(1, 65535)
	var t strings.Builder
	fmt.Fprintf(&t, "v=0\r\no=- %d %d IN %s %s\r\ns=-\r\n", s.U32(), s.U32(), fam, ip)
	sess := s.Bool(1, 2)
	if s.Bool(1, 5) {
		sess = true // only the origin names the address
		simrt.Probe("origin-address")
	} else if sess {
		other := ip
		if s.Bool(1, 2) {
			other = "192.0.2.1"
			sess = false
			fmt.Fprintf(&t, "c=IN IP4 %s\r\n", other)
		} else {
			fmt.Fprintf(&t, "c=IN %s %s\r\n", fam, ip)
		}
	}
	t.WriteString("t=0 0\r\n")
	if s.Bool(1, 4) {
		t.WriteString("m=video 4000 RTP/AVP 96\r\nc=IN IP4 192.0.2.77\r\na=rtpmap:96 VP8/90000\r\n")
	}
	var types []string
	var maps strings.Builder
	dyn := 96 + s.Int(20)
	used := map[int]bool{}
	any := false
	for k := s.Range(1, 5); k > 0; k-- {
		switch s.Int(4) {
		case 0: // static, perhaps without rtpmap
			pt := pick(s, 0, 8, 9)
			if used[pt] {
				continue
			}
			used[pt] = true
			types = append(types, strconv.Itoa(pt))
			if s.Bool(2, 3) {
				fmt.Fprintf(&maps, "a=rtpmap:%d %s%s\r\n", pt, staticNames[pt], pick(s, "", "/1"))
			}
			any = any || b.enabled[staticNames[pt]]
		case 1: // known codec at a dynamic type
			n := pick(s, "PCMU/8000", "PCMA/8000", "G722/8000", "simwide/16000", "SimStereo/48000/2")
			dyn++
			types = append(types, strconv.Itoa(dyn))
			n = mono(s, n)
			fmt.Fprintf(&maps, "a=rtpmap:%d %s\r\n", dyn, pick(s, n, strings.ToUpper(n), strings.ToLower(n)))
			any = any || b.enabled[strings.TrimSuffix(n, "/1")]
		default:
			dyn++
			types = append(types, strconv.Itoa(dyn))
			fmt.Fprintf(&maps, "a=rtpmap:%d %s\r\n", dyn, pick(s, "opus/48000/2", "iLBC/8000", "speex/16000"))
		}
	}
	if s.Bool(2, 3) {
		dyn++
		types = append(types, strconv.Itoa(dyn))
		fmt.Fprintf(&maps, "a=rtpmap:%d telephone-event/8000%s\r\na=fmtp:%d 0-16\r\n", dyn, pick(s, "", "/1"), dyn)
	}
	enc := s.Bool(1, 2)
	proto := "RTP/AVP"
	if enc {
		proto = "RTP/SAVP"
	}
	fmt.Fprintf(&t, "m=audio %d %s %s\r\n", port, proto, strings.Join(types, " "))
	if !sess {
		fmt.Fprintf(&t, "c=IN %s %s\r\n", fam, ip)
	}
	t.WriteString(maps.String())
	known := false
	broken := map[string]bool{}
	if enc {
		tag := s.Range(1, 9)
		for k := s.Range(1, 3); k > 0; k-- {
			p := pick(s, "AES_CM_128_HMAC_SHA1_80", "AES_CM_128_HMAC_SHA1_32", "AES_256_CM_HMAC_SHA1_80", "AES_256_CM_HMAC_SHA1_32", "F8_128_HMAC_SHA1_80")
			if strings.Contains(t.String(), p) {
				simrt.Probe("profile-twice")
			}
			if p != "F8_128_HMAC_SHA1_80" && s.Bool(1, 12) {
				t.WriteString(badCryptoLine(s, tag, p))
				broken[strconv.Itoa(tag)] = true
			} else if p == "F8_128_HMAC_SHA1_80" {
				_, x := b64(s, 30)
				fmt.Fprintf(&t, "a=crypto:%d %s inline:%s\r\n", tag, p, x)
			} else {
				l, _ := cryptoLine(s, tag, p)
				t.WriteString(l)
				known = true
			}
			tag += s.Range(1, 3)
		}
	}
	t.WriteString("a=sendrecv\r\n")
	text := []byte(t.String())
	if r.Faults && s.Bool(1, 3) {
		simrt.Fault("text-corrupted")
		bad := corrupt(r.F, text)
		b.as(func() {
			o, err := msdp.ParseOffer(bad)
			if err != nil {
				simrt.Probe("corrupt-rejected")
				return
			}
			simrt.Probe("corrupt-accepted")
			ans, mc, err := o.Answer(b.ip, 4000, b.enc)
			if err == nil {
				checkPolicy(r, "answerer", b.enc, mc)
				ans.SDP.Marshal()
			}
		})
		return
	}
	aport := s.Range(1, 65535)
	b.as(func() {
		simrt.Log("%s", strings.ReplaceAll(string(text), "\r\n", " ; "))
		o, err := msdp.ParseOffer(text)
		if err != nil && len(broken) > 0 {
			simrt.Probe("malformed-key-refused")
			return
		}
		if err != nil {
			r.Fail("refused", "a well-formed offer was not parsed: %v\n%s", err, text)
		}
		ans, mc, err := o.Answer(b.ip, aport, b.enc)
		ok := any && !(b.enc == msdp.EncryptionRequire && !known)
		if err != nil {
			simrt.Probe("refused")
			if ok {
				r.Fail("refused", "the offer was refused although nothing stands in its way: %v\n%s", err, text)
			}
			return
		}
		checkPolicy(r, "answerer", b.enc, mc)
		at, err := ans.SDP.Marshal()
		if err != nil {
			r.Fail("answer", "%v", err)
		}
		agreeOffer(r, text, at, mc, netip.AddrPortFrom(b.ip, uint16(aport)))
		if known && b.enc != msdp.EncryptionNone && mc.Crypto == nil {
			r.Fail("unencrypted", "offered and supported encryption was not used")
		}
		if mc.Crypto != nil {
			// the other end of the media, configured from the texts alone
			v, av := readSDP(text), readSDP(at)
			if broken[av.crypto[0].tag] {
				r.Fail("bad-key", "the answer takes up a crypto line that makes no sense\n%s\n%s", text, at)
			}
			for _, c := range v.crypto {
				if c.tag != av.crypto[0].tag {
					continue
				}
				n := keyLens[c.prof]
				other := *mc
				oc := msrtp.Config{Profile: profileOf[c.prof], Keys: msrtp.SessionKeys{
					LocalMasterKey: c.key[:n[0]], LocalMasterSalt: c.key[n[0]:],
					RemoteMasterKey: av.crypto[0].key[:n[0]], RemoteMasterSalt: av.crypto[0].key[n[0]:]}}
				if c.mki != nil {
					oc.LocalOptions = append(oc.LocalOptions, msrtp.MasterKeyIndicator(c.mki))
				}
				if m := av.crypto[0].mki; m != nil {
					oc.RemoteOptions = append(oc.RemoteOptions, msrtp.MasterKeyIndicator(m))
				}
				other.Crypto = &oc
				defer func(x *msdp.MediaConfig) { r.later = func() { mediaCheck(r, x, mc, nil, nil) } }(&other)
			}
		}
	})
	if r.later != nil {
		r.later()
	}
}

// foreignAnswer: an endpoint that is not ours answers our offer.
func foreignAnswer(r *R, a *sdpNode) {
	s := r.D
	simrt.Probe("foreign-answer")
	var offer *msdp.Offer
	var otext []byte
	port := s.Range(1, 65535)
	var err error
	a.as(func() {
		offer, err = msdp.NewOffer(a.ip, port, a.enc)
		if err == nil {
			otext, err = offer.SDP.Marshal()
		}
	})
	if err != nil {
		r.Fail("offer", "%v", err)
	}
	o := readSDP(otext)
	want := map[string]bool{}
	for _, c := range msdk.Codecs() {
		if n := c.Info().SDPName; a.enabled[n] {
			want[n] = true
		}
	}
	types := map[int]bool{}
	for _, t := range o.types {
		if types[t] {
			r.Fail("offer", "payload type %d is offered twice: %s", t, otext)
		}
		types[t] = true
		n := o.codec(t)
		if o.dtmf != 0 && t == o.dtmf {
			n = dtmf.SDPName
		}
		if !want[n] {
			r.Fail("offer", "codec %q is offered but not enabled", n)
		}
		delete(want, n)
	}
	if len(want) > 0 {
		r.Fail("offer", "enabled codecs are not offered: %v", want)
	}
	if (len(o.crypto) > 0) != (a.enc != msdp.EncryptionNone) {
		r.Fail("offer", "policy %d, %d crypto lines", a.enc, len(o.crypto))
	}
	var audio []int
	for _, t := range o.types {
		if o.dtmf == 0 || t != o.dtmf {
			audio = append(audio, t)
		}
	}
	if len(audio) == 0 {
		return
	}
	t := pick(s, audio...)
	if t >= 96 {
		simrt.Probe("dynamic-codec")
	}
	ip := pick(s, "198.51.100.4", "2001:db8:1::5")
	fam := "IP4"
	if strings.Contains(ip, ":") {
		fam = "IP6"
	}
	aport := s.Range(1, 65535)
	var b strings.Builder
	useD := o.dtmf != 0 && s.Bool(1, 2)
	fmts := strconv.Itoa(t)
	multi := len(audio) > 1 && s.Bool(1, 3)
	if multi { // more than one: the first is the answerer's choice
		for _, x := range audio {
			if x != t && s.Bool(1, 2) {
				fmts += " " + strconv.Itoa(x)
			}
		}
		simrt.Probe("multi-answer")
	}
	maps := ""
	for _, x := range audio {
		if x != t && strings.Contains(" "+fmts+" ", " "+strconv.Itoa(x)+" ") {
			maps += fmt.Sprintf("a=rtpmap:%d %s\r\n", x, mono(s, o.codec(x)))
		}
	}
	if t >= 96 || multi || s.Bool(1, 2) {
		maps = fmt.Sprintf("a=rtpmap:%d %s\r\n", t, mono(s, o.codec(t))) + maps
	}
	if useD {
		dm := fmt.Sprintf("a=rtpmap:%d telephone-event/8000%s\r\na=fmtp:%d 0-15\r\n", o.dtmf, pick(s, "", "/1"), o.dtmf)
		if s.Bool(1, 2) {
			fmts += " " + strconv.Itoa(o.dtmf)
			maps += dm
		} else {
			fmts = strconv.Itoa(o.dtmf) + " " + fmts
			maps = dm + maps
		}
	}
	enc := len(o.crypto) > 0 && s.Bool(3, 4)
	line := ""
	broken := false
	var c sdpKey
	if enc {
		c = o.crypto[s.Int(len(o.crypto))]
		tag, _ := strconv.Atoi(c.tag)
		if s.Bool(1, 12) {
			line, broken = badCryptoLine(s, tag, c.prof), true
		} else {
			line, _ = cryptoLine(s, tag, c.prof)
		}
	}
	proto := "RTP/AVP"
	if enc {
		proto = "RTP/SAVP"
	}
	fmt.Fprintf(&b, "v=0\r\no=x 1 1 IN IP4 192.0.2.200\r\ns=x\r\nc=IN %s %s\r\nt=0 0\r\nm=audio %d %s %s\r\n%s%sa=sendrecv\r\n", fam, ip, aport, proto, fmts, maps, line)
	text := []byte(b.String())
	bad := r.Faults && s.Bool(1, 3)
	if bad {
		simrt.Fault("text-corrupted")
		text = corrupt(r.F, text)
	}
	var mc *msdp.MediaConfig
	a.as(func() {
		simrt.Log("%s", strings.ReplaceAll(string(text), "\r\n", " ; "))
		var ans *msdp.Answer
		if ans, err = msdp.ParseAnswer(text); err == nil {
			mc, err = ans.Apply(offer, a.enc)
		}
		if err != nil {
			mc = nil
		}
	})
	checkPolicy(r, "offerer", a.enc, mc)
	if bad {
		return
	}
	if broken {
		if mc != nil && mc.Crypto != nil {
			r.Fail("bad-key", "an answer with a crypto line that makes no sense was taken up\n%s", text)
		}
		return
	}
	if err != nil {
		simrt.Probe("refused")
		if enc || a.enc != msdp.EncryptionRequire {
			r.Fail("refused", "a proper answer was refused: %v\n%s", err, text)
		}
		return
	}
	agreeAnswer(r, otext, text, mc, netip.AddrPortFrom(a.ip, uint16(port)))
	if !hasCodec(byte(t), o.codec(t), mc) {
		r.Fail("codec", "answered %d %s, the offerer uses %d %s", t, o.codec(t), mc.Audio.Type, mc.Audio.Codec.Info().SDPName)
	}
	if enc != (mc.Crypto != nil) {
		r.Fail("one-sided", "answered with encryption %v, the offerer encrypts: %v", enc, mc.Crypto != nil)
	}
	if enc {
		v := readSDP(text)
		n := keyLens[c.prof]
		other := *mc
		oc := msrtp.Config{Profile: profileOf[c.prof], Keys: msrtp.SessionKeys{
			LocalMasterKey: v.crypto[0].key[:n[0]], LocalMasterSalt: v.crypto[0].key[n[0]:],
			RemoteMasterKey: c.key[:n[0]], RemoteMasterSalt: c.key[n[0]:]}}
		if m := v.crypto[0].mki; m != nil {
			oc.LocalOptions = append(oc.LocalOptions, msrtp.MasterKeyIndicator(m))
		}
		other.Crypto = &oc
		mediaCheck(r, mc, &other, nil, nil)
	}
}
