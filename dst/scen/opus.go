package scen

import (
	"errors"
	"fmt"
	"math"
	"time"

	hopus "gopkg.in/hraban/opus.v2"

	"simw/simrt"
	msdk "simw/x/github.com/livekit/media-sdk"
	mopus "simw/x/github.com/livekit/media-sdk/opus"
)

func init() {
	register(&Scen{Name: "opus", Props: []string{"C23"}, Main: opusMain, Solo: true,
		Real: []string{"opus.Decode", "opus.Encode", "media.MonoToStereo", "media.StereoToMono", "libopus"}, Stub: []string{"network (drops, corrupts, truncates, empties, repeats packets)", "downstream writer", "scheduler"},
		Reached: []string{"good", "mono-to-stereo", "stereo-to-mono", "channel-switch", "invalid", "skipped", "budget-spent", "budget-reset", "empty", "corrupted-but-decodable", "long-packet", "short-packet", "downstream-error", "signal-checked", "real-encoder"}})
}

// opusBank holds encoded streams, made once per process.
var opusBank = map[string][][]byte{}

// opusStream encodes a steady tone; on stereo the sides differ in phase and level.
func opusStream(ch int, dur time.Duration, amp int, phase int) [][]byte {
	key := fmt.Sprint(ch, dur, amp, phase)
	if b := opusBank[key]; b != nil {
		return b
	}
	enc, err := hopus.NewEncoder(48000, ch, hopus.AppVoIP)
	if err != nil {
		panic(err)
	}
	n := int(dur * 48000 / time.Second)
	var out [][]byte
	t := 0
	for i := 0; i < 40; i++ {
		pcm := make([]int16, n*ch)
		for j := 0; j < n; j++ {
			for c := 0; c < ch; c++ {
				ph := 0.0
				if c == 1 {
					ph = float64(phase) * math.Pi / 4
				}
				pcm[j*ch+c] = int16(float64(amp) * math.Sin(2*math.Pi*440*float64(t)/48000+ph))
			}
			t++
		}
		buf := make([]byte, 4000)
		k, err := enc.Encode(pcm, buf)
		if err != nil {
			panic(err)
		}
		out = append(out, clone(buf[:k]))
	}
	opusBank[key] = out
	return out
}

// opusTOC reads the channel count and, for a plain packet, the duration from
// the first byte (RFC 6716, section 3.1).
func opusTOC(p []byte) (ch int, frame time.Duration) {
	ch = 1 + int(p[0]>>2&1)
	c := int(p[0] >> 3)
	switch {
	case c < 12:
		frame = []time.Duration{10, 20, 40, 60}[c%4] * time.Millisecond
	case c < 16:
		frame = []time.Duration{10, 20}[c%2] * time.Millisecond
	default:
		frame = []time.Duration{2500, 5000, 10000, 20000}[c%4] * time.Microsecond
	}
	return ch, frame
}

func rms(p []int16) float64 {
	s := 0.0
	for _, v := range p {
		s += float64(v) * float64(v)
	}
	return math.Sqrt(s / float64(max(1, len(p))))
}

func opusMain(r *R) {
	d := r.D
	rate := pick(d, 48000, 16000, 8000, 24000, 12000)
	target := d.Range(1, 2)
	down := 0
	if r.Faults {
		down = pick(d, 0, 0, 3, 10)
	}
	rec := &pcmRec{r: r, name: "out", rate: rate, yield: d.Bool(1, 4)}
	var downErr error
	rec.onWrite = func(i int, s msdk.PCM16Sample) error {
		downErr = nil
		if down > 0 && r.F.Bool(1, down) {
			simrt.Fault("writer-error")
			downErr = newErr("write %d failed", i)
		}
		return downErr
	}
	dec, err := mopus.Decode(rec, target, nopLog{})
	if err != nil {
		r.Fail("create", "Decode: %v", err)
	}
	if _, err := mopus.Decode(rec, pick(d, 0, 3, -1), nopLog{}); err == nil {
		r.Fail("create", "a channel count other than 1 or 2 was accepted")
	}
	if dec.SampleRate() != rate {
		r.Fail("sample-rate", "sample rate %d, want %d", dec.SampleRate(), rate)
	}

	// the sender
	type src struct {
		pkts [][]byte
		pos  int
	}
	durs := []time.Duration{20 * time.Millisecond, 10 * time.Millisecond, 40 * time.Millisecond, 60 * time.Millisecond, 5 * time.Millisecond, 2500 * time.Microsecond}
	amp := pick(d, 8000, 2000, 30000)
	var srcs []*src
	for _, ch := range []int{1, 2} {
		srcs = append(srcs, &src{pkts: opusStream(ch, durs[d.Weighted(6, 2, 1, 1, 1, 1)], amp, d.Int(3)), pos: d.Int(20)})
	}
	if d.Bool(1, 6) { // packets made by the encoder under test
		simrt.Probe("real-encoder")
		ch := d.Range(1, 2)
		p := &recW[mopus.Sample, byte]{r: r, name: "enc", rate: 48000}
		enc, err := mopus.Encode(p, ch, nopLog{})
		if err != nil {
			r.Fail("create", "Encode: %v", err)
		}
		n := d.Range(1, 12)
		encErr := 0
		if r.Faults {
			encErr = pick(d, 0, 4)
		}
		p.errNum = encErr
		for i := 0; i < n; i++ {
			pcm := make(msdk.PCM16Sample, 960*ch)
			for j := range pcm {
				pcm[j] = int16(float64(amp) * math.Sin(2*math.Pi*440*float64(i*960+j/ch)/48000))
			}
			keep := clone([]int16(pcm))
			ne := len(p.errs)
			err := enc.WriteSample(pcm)
			if len(p.frames) != i+1 {
				r.Fail("encoder", "frame %d: %d packets written", i, len(p.frames))
			}
			if failed := len(p.errs) > ne; failed != (err != nil) || failed && !errors.Is(err, p.errs[ne]) {
				r.Fail("encoder-error", "frame %d: got %v", i, err)
			}
			if !eq([]int16(pcm), keep) {
				r.Fail("input-changed", "the encoder changed its input")
			}
		}
		if err := enc.Close(); err != nil || p.closes != 1 {
			r.Fail("encoder-close", "Close: %v, downstream closed %d times", err, p.closes)
		}
		s := &src{}
		for i, f := range p.frames {
			c, fr := opusTOC(f.data)
			if len(f.data) == 0 || fr > 20*time.Millisecond || c > ch {
				r.Fail("encoder", "packet %d: %d channels, frame %v for a %d channel 20ms input", i, c, fr, ch)
			}
			s.pkts = append(s.pkts, f.data)
		}
		srcs[ch-1] = s
	}
	cur := d.Int(2)
	switchNum := pick(d, 0, 20, 5, 2)
	badNum := 0
	if r.Faults {
		badNum = pick(d, 0, 20, 4, 2, 1)
	}
	burst := 0
	bad := 0        // consecutive undecodable packets
	unsure := false // a decoder-internal failure makes the count unknown
	var ref *hopus.Decoder
	refCh, steady := 0, 0
	pcm := make([]int16, 48000/1000*120*2)
	n := d.Log(1, 80)
	for i := 0; i < n; i++ {
		if switchNum > 0 && d.Bool(1, switchNum) {
			cur = 1 - cur
		}
		s := srcs[cur]
		p := clone(s.pkts[s.pos%len(s.pkts)])
		s.pos++
		broken := false
		if burst > 0 {
			burst--
			broken = true
		} else if badNum > 0 && d.Bool(1, badNum) {
			broken = true
			if d.Bool(1, 3) {
				burst = d.Range(1, 8)
			}
		}
		if broken {
			steady = 0
			kind := r.F.Weighted(4, 3, 3, 2, 2, 1)
			if burst > 0 && r.F.Bool(3, 4) {
				kind = 0
			}
			switch kind {
			case 0: // corrupted so that it cannot be decoded
				simrt.Fault("corrupt-packet")
				p = opusInvalid(r.F, p)
			case 1:
				simrt.Fault("corrupt-packet")
				for k := r.F.Range(1, 6); k > 0; k-- {
					p[r.F.Int(len(p))] = byte(r.F.Int(256))
				}
			case 2:
				simrt.Fault("truncate-packet")
				p = p[:r.F.Range(1, len(p))]
			case 3:
				simrt.Fault("drop-packet")
				continue
			case 4:
				simrt.Fault("empty-packet")
				simrt.Probe("empty")
				p = p[:0]
			case 5: // noise
				simrt.Fault("corrupt-packet")
				p = make([]byte, r.F.Log(1, 1500))
				for k := range p {
					p[k] = byte(r.F.Int(256))
				}
			}
		}
		before := len(rec.frames)
		downErr = nil
		sum := clone(p)
		exact := make(mopus.Sample, len(p), len(p)) // no spare bytes behind the packet
		copy(exact, p)
		err := dec.WriteSample(exact)
		if !eq([]byte(exact), sum) {
			r.Fail("input-changed", "packet %d was changed", i)
		}
		for k := range exact {
			exact[k] = 0xa5
		}
		wrote := len(rec.frames) - before
		if len(p) == 0 {
			if err != nil || wrote != 0 {
				r.Fail("empty", "empty packet: error %v, %d writes", err, wrote)
			}
			continue
		}
		ch, frame := opusTOC(p)
		if ref == nil || refCh != ch {
			if refCh != 0 {
				simrt.Probe("channel-switch")
			}
			steady = 0
			if ref, _ = hopus.NewDecoder(rate, ch); ref == nil {
				panic("reference decoder")
			}
			refCh = ch
		}
		m, refErr := ref.Decode(p, pcm)
		simrt.Log("packet %d: %d bytes, %d channels, reference %d %v; got %v, %d writes", i, len(p), ch, m, refErr, err, wrote)
		if refErr != nil {
			if wrote != 0 {
				r.Fail("phantom", "packet %d cannot be decoded (%v) but %d frames were written", i, refErr, wrote)
			}
			if !errors.Is(refErr, hopus.ErrInvalidPacket) {
				simrt.Probe("internal-error")
				unsure = true
				steady = 0
				continue
			}
			simrt.Probe("invalid")
			bad++
			steady = 0
			if bad <= 5 {
				simrt.Probe("skipped")
				if err != nil && !unsure {
					r.Fail("reported-early", "undecodable packet %d in a row reported: %v", bad, err)
				}
			} else {
				simrt.Probe("budget-spent")
				if err == nil {
					r.Fail("not-reported", "undecodable packet %d in a row was not reported", bad)
				}
			}
			continue
		}
		if bad > 0 {
			simrt.Probe("budget-reset")
		}
		bad, unsure = 0, false
		simrt.Probe("good")
		if broken {
			simrt.Probe("corrupted-but-decodable")
		}
		if p[0]&3 == 0 && m != int(frame*time.Duration(rate)/time.Second) {
			simrt.Invalidate("reference decoder disagrees with the packet header")
		}
		if dur := time.Duration(m) * time.Second / time.Duration(rate); dur > 20*time.Millisecond {
			simrt.Probe("long-packet")
		} else if dur < 20*time.Millisecond {
			simrt.Probe("short-packet")
		}
		if wrote != 1 {
			r.Fail("writes", "packet %d (%d channels, %d samples) gave %d writes, error %v", i, ch, m, wrote, err)
		}
		if downErr != nil {
			simrt.Probe("downstream-error")
			if !errors.Is(err, downErr) {
				r.Fail("error-lost", "the downstream writer failed with %v, WriteSample returned %v", downErr, err)
			}
		} else if err != nil {
			r.Fail("phantom-error", "packet %d: %v", i, err)
		}
		got := rec.frames[before].data
		if len(got) != m*target {
			r.Fail("size", "packet %d: %d values for %d samples in %d channels", i, len(got), m, target)
		}
		want := clone(pcm[:m*ch])
		if ch < target {
			simrt.Probe("mono-to-stereo")
			for k := 0; k < m; k++ {
				if got[2*k] != got[2*k+1] {
					r.Fail("stereo", "packet %d: sample %d differs between the sides of a mono packet: %d %d", i, k, got[2*k], got[2*k+1])
				}
			}
			want = nil
			for _, v := range pcm[:m] {
				want = append(want, v, v)
			}
		} else if ch > target {
			simrt.Probe("stereo-to-mono")
			want = nil
			for k := 0; k < m; k++ {
				want = append(want, int16((int(pcm[2*k])+int(pcm[2*k+1]))/2))
			}
		}
		if steady++; steady > 5 { // long enough after any fault for decoder state to agree
			simrt.Probe("signal-checked")
			diff := make([]int16, len(got))
			for k := range got {
				diff[k] = int16(max(-32768, min(32767, int(got[k])-int(want[k]))))
			}
			if rms(diff) > 50+rms(want)/10 {
				r.Fail("signal", "packet %d: level %.0f, want %.0f, difference %.0f", i, rms(got), rms(want), rms(diff))
			}
		}
	}
	closeErr := error(nil)
	if r.Faults && d.Bool(1, 4) {
		closeErr = newErr("close failed")
	}
	rec.closing = closeErr
	err = dec.Close()
	if rec.closes != 1 || closeErr != nil && !errors.Is(err, closeErr) || closeErr == nil && err != nil {
		r.Fail("close", "Close: %v, downstream closed %d times", err, rec.closes)
	}
}

// opusInvalid makes a packet whose framing is malformed (RFC 6716, section 3.4).
func opusInvalid(f *simrt.Stream, p []byte) []byte {
	toc := p[0]
	switch f.Int(5) {
	case 0: // code 1 with an odd number of bytes
		p = append([]byte{toc&^3 | 1}, make([]byte, 2*f.Int(20)+1)...)
	case 1: // code 2 whose first frame is longer than the packet
		p = []byte{toc&^3 | 2, 200, 1, 2, 3}
	case 2: // code 3 without the frame count
		p = []byte{toc | 3}
	case 3: // code 3 with no frames
		p = append([]byte{toc | 3, 0}, p[1:]...)
	case 4: // code 3, more than 120 ms
		p = append([]byte{toc | 3, 63}, make([]byte, 63)...)
	}
	return p
}
