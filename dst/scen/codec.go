package scen

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/gotranspile/g722"
	"github.com/pion/rtp"
	hopus "gopkg.in/hraban/opus.v2"

	"simw/simrt"
	msdk "simw/x/github.com/livekit/media-sdk"
	"simw/x/github.com/livekit/media-sdk/g711"
	mg722 "simw/x/github.com/livekit/media-sdk/g722"
	mopus "simw/x/github.com/livekit/media-sdk/opus"
	mrtp "simw/x/github.com/livekit/media-sdk/rtp"
)

func init() {
	register(&Scen{Name: "codec", Props: []string{"C28"}, Main: codecMain,
		Real: []string{"g711, g722 and opus encoders and decoders", "rtp.CodecByPayloadType, AudioCodec.EncodeRTP/DecodeRTP, MediaStreamOut/In", "media.ResampleWriter", "libopus, libsoxr, gotranspile/g722"}, Stub: []string{"downstream writers", "RTP packet writer", "scheduler"},
		Reached: []string{"encode-ulaw", "encode-alaw", "encode-g722", "encode-opus", "decode-ulaw", "decode-alaw", "decode-g722", "decode-opus", "rtp-out", "rtp-in", "resampled", "g722-8k", "downstream-error", "close-error", "growing", "shrinking", "empty", "concurrent", "channels-converted", "rejected", "dumped", "typed"}})
}

// lawDec are the expansion tables of G.711, written down from the
// recommendation: sign, 3 bits of segment, 4 bits of step.
var lawDec [2][256]int16

// lawSorted lists the values each law can express.
var lawSorted [2][]int

func init() {
	for c := 0; c < 256; c++ {
		u := ^byte(c)
		v := (int(u&15)<<3+132)<<(u>>4&7) - 132
		if u&0x80 != 0 {
			v = -v
		}
		lawDec[0][c] = int16(v)
		a := byte(c) ^ 0x55
		seg, t := int(a>>4&7), int(a&15)<<4+8
		if seg > 0 {
			t = (t + 256) << (seg - 1)
		}
		if a&0x80 == 0 {
			t = -t
		}
		lawDec[1][c] = int16(t)
	}
	for l := range lawDec {
		for _, v := range lawDec[l] {
			lawSorted[l] = append(lawSorted[l], int(v))
		}
		sort.Ints(lawSorted[l])
	}
}

// lawBest is the distance of x from the closest value of the law.
func lawBest(l, x int) int {
	s := lawSorted[l]
	i := sort.SearchInts(s, x)
	best := math.MaxInt
	for _, k := range []int{i - 1, i} {
		if k >= 0 && k < len(s) {
			best = min(best, max(x-s[k], s[k]-x))
		}
	}
	return best
}

// codecRTP records packets.
type codecRTP struct {
	*recW[rtpBytes, byte]
	dump *codecDump
	seqs []uint16
	ts   []uint32
	pts  []byte
}

type rtpBytes []byte

func (c *codecRTP) WriteRTP(h *rtp.Header, p []byte) (int, error) {
	c.seqs, c.ts, c.pts = append(c.seqs, h.SequenceNumber), append(c.ts, h.Timestamp), append(c.pts, h.PayloadType)
	c.dump.data = append(c.dump.data, p...)
	if err := c.WriteSample(p); err != nil {
		return 0, err
	}
	return len(p), nil
}

// codecEnd is what a chain offers to its driver.
type codecEnd[I any] interface {
	WriteSample(I) error
	Close() error
}

type codecIn struct {
	h    mrtp.Handler
	pt   byte
	n    uint16
	dump *codecDump
}

func (c *codecIn) handle(p []byte) error {
	c.n++
	c.dump.data = append(c.dump.data, p...)
	return c.h.HandleRTP(&rtp.Header{Version: 2, PayloadType: c.pt, SequenceNumber: c.n, Timestamp: uint32(c.n) * 160}, p)
}

func codecMain(r *R) {
	d, w := r.D, r.W
	chains := pick(d, 1, 2, 2, 3, 4)
	if chains > 1 {
		simrt.Probe("concurrent")
	}
	var done []*simrt.Task
	for i := 0; i < chains; i++ {
		kind := d.Weighted(3, 3, 3, 2, 3, 3, 3, 2)
		s := w.Stream(fmt.Sprint("chain", i))
		name := fmt.Sprint("c", i)
		done = append(done, w.Spawn(name, func() {
			switch kind {
			case 0:
				codecEncLaw(r, s, name, 0)
			case 1:
				codecEncLaw(r, s, name, 1)
			case 2:
				codecEncG722(r, s, name)
			case 3:
				codecEncOpus(r, s, name)
			case 4:
				codecDecLaw(r, s, name, 0)
			case 5:
				codecDecLaw(r, s, name, 1)
			case 6:
				codecDecG722(r, s, name)
			case 7:
				codecDecOpus(r, s, name)
			}
		}))
	}
	for _, t := range done {
		r.Finish(t, 60*time.Second, 60*time.Second, "stuck")
	}
	codecDumps(r)
}

// codecDump is what has to be in a dump: what went through a chain.
type codecDump struct {
	pref, ext string
	data      []byte
	closed    bool
	name      string
}

type codecDumpKey struct{}

func codecDumped(r *R, d *codecDump) *codecDump {
	l, _ := r.W.Values[codecDumpKey{}].([]*codecDump)
	r.W.Values[codecDumpKey{}] = append(l, d)
	return d
}

// codecDumps matches the dumps on disk with the chains.
func codecDumps(r *R) {
	l, _ := r.W.Values[codecDumpKey{}].([]*codecDump)
	if len(l) == 0 || simrt.Env["LK_DUMP_MEDIA"] != "true" {
		return
	}
	var names []string
	for _, n := range simrt.SortedKeys(r.W.Disk.Files) {
		if strings.HasPrefix(n, "sip_rtp_") {
			names = append(names, n)
		}
	}
	simrt.Probe("dumped")
	if len(names) != len(l) {
		r.Fail("dumps", "%d chains, but these dumps: %v", len(l), names)
	}
	for _, d := range l {
		found := false
		for i, n := range names {
			got := r.W.Disk.Files[n].Data
			if strings.HasPrefix(n, d.pref) && strings.HasSuffix(n, d.ext) && bytes.HasPrefix(d.data, got) && (len(got) == len(d.data) || !d.closed && len(got) > len(d.data)-4096) {
				names = slices.Delete(names, i, i+1)
				found = true
				break
			}
		}
		if !found {
			r.Fail("dumps", "%s: no dump %s*%s on disk has the %d bytes that went through the chain", d.name, d.pref, d.ext, len(d.data))
		}
	}
}

// codecSizes draws frame sizes: steady, growing, shrinking, anything.
func codecSizes(s *simrt.Stream, frame, step int) func() int {
	mode, last := s.Int(4), frame
	return func() int {
		n := frame
		switch mode {
		case 1:
			n = s.Int(480/step+1) * step
		case 2:
			n = min(480, last+s.Int(10)*step)
		case 3:
			n = max(0, last-s.Int(10)*step)
			if n == 0 {
				n = 480
			}
		}
		switch {
		case n == 0:
			simrt.Probe("empty")
		case n > last:
			simrt.Probe("growing")
		case n < last:
			simrt.Probe("shrinking")
		}
		last = n
		return n
	}
}

func codecFaults(r *R, s *simrt.Stream) (errNum int, slow time.Duration, yield bool, closing error) {
	yield = s.Bool(2, 3)
	if r.Faults {
		errNum = pick(s, 0, 0, 3, 10, 1)
		slow = pick(s, 0, 0, time.Millisecond)
		if s.Bool(1, 4) {
			closing = newErr("close failed")
		}
	}
	return
}

// codecDrive writes the inputs one by one, reusing the caller's memory, and
// checks what each write did downstream. check is told the index of the frame
// that came out, or -1 if none was written.
func codecDrive[I ~[]E, E comparable, O ~[]P, P comparable](r *R, s *simrt.Stream, name string, write func(I) error, rec *recW[O, P],
	n int, gen func(i int) []E, poison E, check func(i int, in []E, out []P, wrote bool, err error)) {
	reuse := make([]E, 0, 6144)
	for i := 0; i < n; i++ {
		in := gen(i)
		var buf []E
		if s.Bool(1, 3) {
			buf = make([]E, len(in), len(in))
		} else {
			buf = reuse[:len(in)]
		}
		copy(buf, in)
		before, errs := len(rec.frames), len(rec.errs)
		err := write(I(buf))
		simrt.Log("%s: frame %d of %d -> %v", name, i, len(in), err)
		if !eq(buf, in) {
			r.Fail("input-changed", "%s: the caller's frame %d was changed", name, i)
		}
		for k := range buf {
			buf[k] = poison
		}
		wrote := len(rec.frames) - before
		if wrote > 1 {
			r.Fail("writes", "%s: frame %d gave %d writes", name, i, wrote)
		}
		if wrote == 1 {
			if f := rec.frames[before]; f.err != nil {
				simrt.Probe("downstream-error")
				if !errors.Is(err, rec.errs[errs]) {
					r.Fail("error-lost", "%s: frame %d: downstream failed with %v, the write returned %v", name, i, f.err, err)
				}
			} else if err != nil {
				r.Fail("phantom-error", "%s: frame %d: %v", name, i, err)
			}
			check(i, in, rec.frames[before].data, true, err)
		} else {
			check(i, in, nil, false, err)
		}
		if s.Bool(1, 6) {
			simrt.Yield()
		}
	}
}

func codecClose[T ~[]E, E comparable](r *R, name string, cl func() error, rec *recW[T, E]) {
	n := len(rec.frames)
	err := cl()
	if rec.closes != 1 {
		r.Fail("close", "%s: Close closed the downstream writer %d times", name, rec.closes)
	}
	if len(rec.frames) != n {
		r.Fail("close", "%s: Close wrote a frame", name)
	}
	if rec.closing != nil {
		simrt.Probe("close-error")
	}
	if !errors.Is(err, rec.closing) || rec.closing == nil && err != nil {
		r.Fail("close", "%s: Close returned %v, the downstream writer %v", name, err, rec.closing)
	}
}

func codecPCM(s *simrt.Stream) func(n int) []int16 {
	mode, t := s.Int(3), s.Int(1000)
	amp := float64(s.Range(100, 32767))
	f := float64(s.Range(1, 200)) / 1000
	return func(n int) []int16 {
		out := make([]int16, n)
		for i := range out {
			switch mode {
			case 0:
				out[i] = int16(s.Int(65536) - 32768)
			case 1:
				out[i] = int16(amp * math.Sin(f*float64(t)))
			default:
				out[i] = int16(pick(s, 0, 32767, -32768, 1, -1, 255, -256, 8, -4))
			}
			t++
		}
		return out
	}
}

// codecRTPEnd puts an RTP stream behind an encoder.
func codecRTPEnd(r *R, s *simrt.Stream, name string, pt byte, errNum int, slow time.Duration, yield bool) (*codecRTP, msdk.PCM16Writer) {
	simrt.Probe("rtp-out")
	out := &codecRTP{recW: &recW[rtpBytes, byte]{r: r, name: name, errNum: errNum, slow: slow, yield: yield}}
	c, ok := mrtp.CodecByPayloadType(pt).(mrtp.AudioCodec)
	if !ok {
		r.Fail("codec", "no audio codec for payload type %d", pt)
	}
	typ := byte(pick(s, int(pt), 96+s.Int(32)))
	st := mrtp.NewSeqWriter(out).NewStream(typ, c.Info().RTPClockRate)
	e := c.EncodeRTP(st)
	out.dump = codecDumped(r, &codecDump{pref: "sip_rtp_out_", ext: fmt.Sprintf("_ar%d.%s", c.Info().SampleRate, c.Info().FileExt), name: name})
	if e.SampleRate() != c.Info().SampleRate {
		r.Fail("sample-rate", "%s: RTP encoder takes %d", name, e.SampleRate())
	}
	return out, e
}

// codecTyped is the codec of a payload type by its own frame type, now and then.
func codecTyped[S mrtp.BytesFrame](r *R, s *simrt.Stream, pt byte, enc func(msdk.WriteCloser[S]) msdk.PCM16Writer, dec func(msdk.PCM16Writer) msdk.WriteCloser[S]) (func(msdk.WriteCloser[S]) msdk.PCM16Writer, func(msdk.PCM16Writer) msdk.WriteCloser[S]) {
	if s.Bool(2, 3) {
		return enc, dec
	}
	c, ok := mrtp.CodecByPayloadType(pt).(mrtp.AudioEncoder[S])
	if !ok {
		r.Fail("codec", "no audio codec for payload type %d", pt)
	}
	simrt.Probe("typed")
	return c.Encode, c.Decode
}

// rtpDone checks the headers: one packet number per accepted frame, 20 ms of
// the clock per accepted frame.
func (c *codecRTP) rtpDone(r *R, name string, w msdk.PCM16Writer) {
	k := uint16(0)
	for i := range c.seqs {
		if c.seqs[i] != c.seqs[0]+k || c.ts[i] != c.ts[0]+uint32(k)*160 || c.pts[i] != c.pts[0] {
			r.Fail("rtp-header", "%s: packet %d after %d accepted ones has number %d, time %d, type %d; the first %d, %d, %d", name, i, k, c.seqs[i], c.ts[i], c.pts[i], c.seqs[0], c.ts[0], c.pts[0])
		}
		if c.frames[i].err == nil {
			k++
		}
	}
	if err := w.Close(); err != nil {
		r.Fail("close", "%s: %v", name, err)
	}
	c.dump.closed = true
}

func codecEncLaw(r *R, s *simrt.Stream, name string, law int) {
	simrt.Probe([]string{"encode-ulaw", "encode-alaw"}[law])
	errNum, slow, yield, closing := codecFaults(r, s)
	size, pcm := codecSizes(s, 160, 1), codecPCM(s)
	gen := func(int) []int16 { return pcm(size()) }
	codes := map[int16]byte{}
	check := func(i int, in []int16, out []byte, wrote bool, err error) {
		if !wrote {
			r.Fail("writes", "%s: frame %d of %d samples was not written: %v", name, i, len(in), err)
		}
		if len(out) != len(in) {
			r.Fail("size", "%s: frame %d: %d bytes for %d samples", name, i, len(out), len(in))
		}
		for k, x := range in {
			if c, ok := codes[x]; ok && c != out[k] {
				r.Fail("encoding", "%s: frame %d: sample %d was encoded as %d before and as %d now", name, i, x, c, out[k])
			}
			codes[x] = out[k]
			v := int(lawDec[law][out[k]])
			if e, b := max(v-int(x), int(x)-v), lawBest(law, int(x)); e > b+8 {
				r.Fail("encoding", "%s: frame %d: sample %d is encoded as %d, which stands for %d; the best is %d away", name, i, x, out[k], v, b)
			}
		}
	}
	n := s.Log(1, 40)
	if s.Bool(1, 3) {
		out, e := codecRTPEnd(r, s, name, []byte{0, 8}[law], errNum, slow, yield)
		codecDrive[msdk.PCM16Sample](r, s, name, e.WriteSample, out.recW, n, gen, 0x7777, check)
		out.rtpDone(r, name, e)
		return
	}
	if law == 0 {
		enc, _ := codecTyped(r, s, 0, g711.EncodeULaw, g711.DecodeULaw)
		codecEncLawTo(r, s, name, enc, errNum, slow, yield, closing, n, gen, check)
	} else {
		enc, _ := codecTyped(r, s, 8, g711.EncodeALaw, g711.DecodeALaw)
		codecEncLawTo(r, s, name, enc, errNum, slow, yield, closing, n, gen, check)
	}
}

func codecEncLawTo[T ~[]byte](r *R, s *simrt.Stream, name string, mk func(msdk.WriteCloser[T]) msdk.PCM16Writer, errNum int, slow time.Duration, yield bool, closing error,
	n int, gen func(int) []int16, check func(int, []int16, []byte, bool, error)) {
	rec := &recW[T, byte]{r: r, name: name, rate: 8000, errNum: errNum, slow: slow, yield: yield, closing: closing}
	e := mk(rec)
	if e.SampleRate() != 8000 {
		r.Fail("sample-rate", "%s: %d", name, e.SampleRate())
	}
	codecDrive[msdk.PCM16Sample](r, s, name, e.WriteSample, rec, n, gen, 0x7777, check)
	codecClose(r, name, e.Close, rec)
}

func codecEncG722(r *R, s *simrt.Stream, name string) {
	simrt.Probe("encode-g722")
	errNum, slow, yield, closing := codecFaults(r, s)
	rate, flags, step := 16000, g722.Flags(0), 2
	overRTP := s.Bool(1, 3)
	if !overRTP && s.Bool(1, 4) {
		simrt.Probe("g722-8k")
		rate, flags, step = 8000, g722.FlagSampleRate8000, 1
	}
	size, pcm := codecSizes(s, rate/50, step), codecPCM(s)
	ref := g722.NewEncoder(g722.Rate64000, flags)
	gen := func(int) []int16 { return pcm(size()) }
	check := func(i int, in []int16, out []byte, wrote bool, err error) {
		want := make([]byte, len(in)+2)
		want = want[:ref.Encode(want, in)]
		if !wrote {
			r.Fail("writes", "%s: frame %d of %d samples was not written: %v", name, i, len(in), err)
		}
		if !eq(out, want) {
			r.Fail("encoding", "%s: frame %d of %d samples is not encoded as its stream demands: %v, want %v", name, i, len(in), out, want)
		}
	}
	n := s.Log(1, 40)
	if overRTP {
		out, e := codecRTPEnd(r, s, name, 9, errNum, slow, yield)
		codecDrive[msdk.PCM16Sample](r, s, name, e.WriteSample, out.recW, n, gen, 0x7777, check)
		out.rtpDone(r, name, e)
		return
	}
	rec := &recW[mg722.Sample, byte]{r: r, name: name, rate: rate, errNum: errNum, slow: slow, yield: yield, closing: closing}
	enc, _ := codecTyped(r, s, 9, mg722.Encode, mg722.Decode)
	e := enc(rec)
	if e.SampleRate() != rate {
		r.Fail("sample-rate", "%s: %d", name, e.SampleRate())
	}
	codecDrive[msdk.PCM16Sample](r, s, name, e.WriteSample, rec, n, gen, 0x7777, check)
	codecClose(r, name, e.Close, rec)
}

func codecEncOpus(r *R, s *simrt.Stream, name string) {
	simrt.Probe("encode-opus")
	errNum, slow, yield, closing := codecFaults(r, s)
	ch := s.Range(1, 2)
	rate := pick(s, 48000, 48000, 16000, 8000)
	amp, freq, t := float64(pick(s, 8000, 2000, 20000)), float64(pick(s, 440, 300, 1000)), 0
	n := s.Log(1, 12)
	var in [][]int16
	for i := 0; i < n; i++ {
		k := rate / 1000 * pick(s, 20, 20, 20, 10, 40, 60)
		if s.Bool(1, 12) {
			k = pick(s, 0, 1, rate/50+1)
		}
		p := make([]int16, k*ch)
		for j := range p {
			p[j] = int16(amp * math.Sin(2*math.Pi*freq*float64(t+j/ch)/float64(rate)))
		}
		t += k
		in = append(in, p)
	}
	// the same frames through an encoder nothing disturbs
	alone := &recW[mopus.Sample, byte]{r: r, name: name + "-alone", rate: rate}
	a, err := mopus.Encode(alone, ch, nopLog{})
	if err != nil {
		r.Fail("create", "%s: %v", name, err)
	}
	bad := make([]bool, n)
	for i := range in {
		bad[i] = a.WriteSample(clone(in[i])) != nil
	}
	dec, err := hopus.NewDecoder(rate, ch)
	if err != nil {
		panic(err)
	}
	rec := &recW[mopus.Sample, byte]{r: r, name: name, rate: rate, errNum: errNum, slow: slow, yield: yield, closing: closing}
	e, err := mopus.Encode(rec, ch, nopLog{})
	if err != nil {
		r.Fail("create", "%s: %v", name, err)
	}
	if e.SampleRate() != rate {
		r.Fail("sample-rate", "%s: %d", name, e.SampleRate())
	}
	k := 0
	pcm := make([]int16, 48*120*2)
	codecDrive[msdk.PCM16Sample](r, s, name, e.WriteSample, rec, n, func(i int) []int16 { return in[i] }, 0x7777,
		func(i int, in []int16, out []byte, wrote bool, err error) {
			ms := 1000 * len(in) / ch / rate
			valid := len(in) > 0 && len(in) == ms*ch*rate/1000
			if !valid {
				simrt.Probe("rejected")
				if wrote || err == nil {
					r.Fail("phantom", "%s: frame %d of %d values was taken: %v", name, i, len(in), err)
				}
				return
			}
			if !wrote {
				r.Fail("writes", "%s: frame %d of %d values was not written: %v", name, i, len(in), err)
			}
			if bad[i] || !eq(out, alone.frames[k].data) {
				r.Fail("encoding", "%s: frame %d is encoded differently next to other users of the codec", name, i)
			}
			k++
			m, err := dec.Decode(out, pcm)
			if err != nil || m != len(in)/ch {
				r.Fail("encoding", "%s: frame %d of %d samples decodes to %d: %v", name, i, len(in)/ch, m, err)
			}
		})
	codecClose(r, name, e.Close, rec)
}

// codecTarget is a decoder's target: at the decoder's own rate, one frame per
// write; behind a resampler, whatever the resampler makes of these frames.
type codecTarget struct {
	rec    *pcmRec
	native int
	expect *pcmRec // what must arrive, behind a resampler
	ref    msdk.PCM16Writer
	plan   []bool // which frames fail, behind a resampler
}

func newCodecTarget(r *R, s *simrt.Stream, name string, native int, noResample bool, closing error) *codecTarget {
	errNum, slow, yield, _ := codecFaults(r, s)
	t := &codecTarget{native: native}
	rate := native
	if !noResample && s.Bool(1, 3) {
		rate = pick(s, 48000, 24000, 44100, 32000, 11025)
		simrt.Probe("resampled")
	}
	t.rec = &pcmRec{r: r, name: name, rate: rate, errNum: errNum, slow: slow, yield: yield, closing: closing}
	if rate != native {
		// the errors of both writers are the same
		t.plan = make([]bool, 4000)
		for i := range t.plan {
			t.plan[i] = errNum > 0 && r.F.Bool(1, errNum)
		}
		t.expect = &pcmRec{r: r, name: name + "-ref", rate: rate}
		fail := func(i int, _ msdk.PCM16Sample) error {
			if i < len(t.plan) && t.plan[i] {
				simrt.Fault("writer-error")
				return newErr("%s write %d failed", name, i)
			}
			return nil
		}
		t.rec.onWrite, t.expect.onWrite = fail, fail
		t.ref = msdk.ResampleWriter(t.expect, native)
	}
	return t
}

// drive feeds a decoder.
func codecDecode[T ~[]byte](r *R, s *simrt.Stream, name string, t *codecTarget, write func(T) error, cl func() error, n int, gen func(int) []byte, ref func([]byte) []int16) {
	if t.ref == nil {
		codecDrive[T](r, s, name, write, t.rec, n, gen, 0x5a, func(i int, in []byte, out []int16, wrote bool, err error) {
			want := ref(in)
			if !wrote {
				r.Fail("writes", "%s: frame %d of %d bytes was not written: %v", name, i, len(in), err)
			}
			if !eq(out, want) {
				r.Fail("decoding", "%s: frame %d of %d bytes is not decoded as its stream demands", name, i, len(in))
			}
		})
		if cl != nil {
			codecClose(r, name, cl, t.rec)
		}
		return
	}
	same := func(what string, err, want error) {
		if (err != nil) != (want != nil) {
			r.Fail("error-lost", "%s: %s returned %v, want %v", name, what, err, want)
		}
		if len(t.rec.frames) != len(t.expect.frames) {
			r.Fail("writes", "%s: %d frames behind the resampler after %s, want %d", name, len(t.rec.frames), what, len(t.expect.frames))
		}
		for i, f := range t.rec.frames {
			if !eq(f.data, t.expect.frames[i].data) {
				r.Fail("decoding", "%s: frame %d behind the resampler is not the decoded audio", name, i)
			}
		}
	}
	reuse := make([]byte, 4096)
	for i := 0; i < n; i++ {
		in := gen(i)
		want := t.ref.WriteSample(ref(in))
		buf := reuse[:len(in)]
		copy(buf, in)
		err := write(T(buf))
		if !eq(buf, in) {
			r.Fail("input-changed", "%s: the caller's frame %d was changed", name, i)
		}
		for k := range buf {
			buf[k] = 0x5a
		}
		same(fmt.Sprint("frame ", i), err, want)
	}
	if cl != nil {
		t.expect.closing = t.rec.closing
		want := t.ref.Close()
		err := cl()
		same("Close", err, want)
		if t.rec.closes != 1 {
			r.Fail("close", "%s: Close closed the downstream writer %d times", name, t.rec.closes)
		}
		if t.rec.closing != nil {
			simrt.Probe("close-error")
			if !errors.Is(err, t.rec.closing) {
				r.Fail("close", "%s: Close returned %v, the downstream writer %v", name, err, t.rec.closing)
			}
		}
	}
}

func codecHandler(r *R, name string, pt byte, w msdk.PCM16Writer) *codecIn {
	simrt.Probe("rtp-in")
	c, ok := mrtp.CodecByPayloadType(pt).(mrtp.AudioCodec)
	if !ok {
		r.Fail("codec", "no audio codec for payload type %d", pt)
	}
	dump := codecDumped(r, &codecDump{pref: "sip_rtp_in_", ext: fmt.Sprintf(".%s", c.Info().FileExt), name: name})
	return &codecIn{h: c.DecodeRTP(w, pt), pt: pt, dump: dump}
}

func codecDecLaw(r *R, s *simrt.Stream, name string, law int) {
	simrt.Probe([]string{"decode-ulaw", "decode-alaw"}[law])
	var closing error
	if r.Faults && s.Bool(1, 4) {
		closing = newErr("close failed")
	}
	t := newCodecTarget(r, s, name, 8000, false, closing)
	size := codecSizes(s, 160, 1)
	gen := func(int) []byte { return genBytes(s, size()) }
	ref := func(in []byte) []int16 {
		out := make([]int16, len(in))
		for i, c := range in {
			out[i] = lawDec[law][c]
		}
		return out
	}
	n := s.Log(1, 40)
	if s.Bool(1, 3) {
		h := codecHandler(r, name, []byte{0, 8}[law], t.rec)
		codecDecode[[]byte](r, s, name, t, h.handle, nil, n, gen, ref)
		return
	}
	if law == 0 {
		_, dec := codecTyped(r, s, 0, g711.EncodeULaw, g711.DecodeULaw)
		dw := dec(t.rec)
		codecDecode[g711.ULawSample](r, s, name, t, dw.WriteSample, dw.Close, n, gen, ref)
	} else {
		_, dec := codecTyped(r, s, 8, g711.EncodeALaw, g711.DecodeALaw)
		dw := dec(t.rec)
		codecDecode[g711.ALawSample](r, s, name, t, dw.WriteSample, dw.Close, n, gen, ref)
	}
}

func codecDecG722(r *R, s *simrt.Stream, name string) {
	simrt.Probe("decode-g722")
	var closing error
	if r.Faults && s.Bool(1, 4) {
		closing = newErr("close failed")
	}
	rate, flags := 16000, g722.Flags(0)
	if s.Bool(1, 4) {
		simrt.Probe("g722-8k")
		rate, flags = 8000, g722.FlagSampleRate8000
	}
	t := newCodecTarget(r, s, name, rate, rate == 8000, closing)
	size := codecSizes(s, 160, 1)
	gen := func(int) []byte { return genBytes(s, size()) }
	dec := g722.NewDecoder(g722.Rate64000, flags)
	ref := func(in []byte) []int16 {
		out := make([]int16, 2*len(in)+2)
		return out[:dec.Decode(out, in)]
	}
	n := s.Log(1, 40)
	if s.Bool(1, 3) {
		h := codecHandler(r, name, 9, t.rec)
		codecDecode[[]byte](r, s, name, t, h.handle, nil, n, gen, ref)
		return
	}
	_, mk := codecTyped(r, s, 9, mg722.Encode, mg722.Decode)
	dw := mk(t.rec)
	codecDecode[mg722.Sample](r, s, name, t, dw.WriteSample, dw.Close, n, gen, ref)
}

func codecDecOpus(r *R, s *simrt.Stream, name string) {
	simrt.Probe("decode-opus")
	ch := s.Range(1, 2)
	rate := pick(s, 48000, 16000, 8000)
	var closing error
	if r.Faults && s.Bool(1, 4) {
		closing = newErr("close failed")
	}
	t := newCodecTarget(r, s, name, rate, true, closing)
	durs := []time.Duration{20 * time.Millisecond, 20 * time.Millisecond, 10 * time.Millisecond, 60 * time.Millisecond}
	amp, phase := pick(s, 8000, 2000, 30000), s.Int(3)
	var src [][][]byte
	for range 2 {
		src = append(src, opusStream(ch, durs[s.Int(4)], amp, phase))
	}
	dec, err := hopus.NewDecoder(rate, ch)
	if err != nil {
		panic(err)
	}
	pcm := make([]int16, 48*120*2)
	ref := func(in []byte) []int16 {
		m, err := dec.Decode(in, pcm)
		if err != nil {
			panic(err)
		}
		return clone(pcm[:m*ch])
	}
	target := ch
	if s.Bool(1, 3) {
		// what a decoder makes of the packets that nothing disturbs
		simrt.Probe("channels-converted")
		target = 3 - ch
		alone := &pcmRec{r: r, name: name + "-alone", rate: rate}
		a, err := mopus.Decode(alone, target, nopLog{})
		if err != nil {
			r.Fail("create", "%s: %v", name, err)
		}
		ref = func(in []byte) []int16 {
			n := len(alone.frames)
			if err := a.WriteSample(clone(in)); err != nil || len(alone.frames) != n+1 {
				r.Fail("writes", "%s: the undisturbed decoder wrote %d frames, error %v", name, len(alone.frames)-n, err)
			}
			return alone.frames[n].data
		}
	}
	k := s.Int(20)
	gen := func(i int) []byte {
		b := src[s.Int(2)]
		k++
		return b[k%len(b)]
	}
	dw, err := mopus.Decode(t.rec, target, nopLog{})
	if err != nil {
		r.Fail("create", "%s: %v", name, err)
	}
	codecDecode[mopus.Sample](r, s, name, t, dw.WriteSample, dw.Close, s.Log(1, 30), gen, ref)
}

func genBytes(s *simrt.Stream, n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(s.Int(256))
	}
	return out
}
