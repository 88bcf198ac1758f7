package scen

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"time"

	"simw/simrt"
	msdk "simw/x/github.com/livekit/media-sdk"
	"simw/x/github.com/livekit/media-sdk/opus"
	"simw/x/github.com/livekit/media-sdk/webm"
)

func init() {
	register(&Scen{Name: "webm", Props: []string{"C20"}, Main: webmMain,
		Real: []string{"webm.NewPCM16Writer", "webm.NewWriter", "opus.NewWebmWriter", "ebml-go (background writer, block sorter, marshaller)"}, Stub: []string{"underlying writer (in memory, faulty)", "EBML reader (own)", "scheduler"},
		Reached: []string{"complete", "clusters", "header-failed", "error-in-write", "error-in-close", "disk-full", "torn-write", "write-error", "close-error", "crash-prefix"}})
}

// ebmlElem reads one element: id, payload (nil for an unknown size: the
// children follow), rest.
func ebmlElem(b []byte) (id uint32, body []byte, unknown bool, rest []byte, err error) {
	if len(b) == 0 {
		return 0, nil, false, nil, io.EOF
	}
	n := 1
	for m := byte(0x80); m != 0 && b[0]&m == 0; m >>= 1 {
		n++
	}
	if n > 4 || len(b) < n {
		return 0, nil, false, nil, io.ErrUnexpectedEOF
	}
	for _, x := range b[:n] {
		id = id<<8 | uint32(x)
	}
	b = b[n:]
	if len(b) == 0 {
		return id, nil, false, nil, io.ErrUnexpectedEOF
	}
	n = 1
	m := byte(0x80)
	for ; m != 0 && b[0]&m == 0; m >>= 1 {
		n++
	}
	if n > 8 || len(b) < n {
		return id, nil, false, nil, io.ErrUnexpectedEOF
	}
	size := uint64(b[0] &^ m)
	ones := size == uint64(m-1)
	for _, x := range b[1:n] {
		size = size<<8 | uint64(x)
		ones = ones && x == 0xff
	}
	b = b[n:]
	if ones {
		return id, nil, true, b, nil
	}
	if uint64(len(b)) < size {
		return id, nil, false, nil, io.ErrUnexpectedEOF
	}
	return id, b[:size], false, b[size:], nil
}

func ebmlUint(b []byte) (v uint64) {
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return v
}

func ebmlFloat(b []byte) float64 {
	switch len(b) {
	case 4:
		return float64(math.Float32frombits(binary.BigEndian.Uint32(b)))
	case 8:
		return math.Float64frombits(binary.BigEndian.Uint64(b))
	}
	return math.NaN()
}

type webmTrack struct {
	num, typ, dur, ch uint64
	codec             string
	rate              float64
	audio             bool
}

type webmBlock struct {
	track, tc int64
	cluster   int
	data      []byte
}

type webmDoc struct {
	doctype  string
	scale    uint64
	tracks   []webmTrack
	blocks   []webmBlock
	clusters int
}

func webmParse(b []byte) (*webmDoc, error) {
	d := &webmDoc{scale: 1000000}
	var seg, tracksAt bool
	var ctc int64
	for pos := 0; len(b) > 0; pos++ {
		id, body, unknown, rest, err := ebmlElem(b)
		if err != nil {
			return d, fmt.Errorf("element %x: %v", id, err)
		}
		switch {
		case id == 0x1A45DFA3 && !seg:
			for len(body) > 0 {
				id, x, _, r, err := ebmlElem(body)
				if err != nil {
					return d, err
				}
				if id == 0x4282 {
					d.doctype = string(bytes.TrimRight(x, "\x00"))
				}
				body = r
			}
		case id == 0x18538067 && !seg:
			seg = true
			if !unknown {
				rest = append(clone(body), rest...)
			}
		case !seg:
			return d, fmt.Errorf("element %x outside of the segment", id)
		case id == 0x1549A966:
			for len(body) > 0 {
				id, x, _, r, err := ebmlElem(body)
				if err != nil {
					return d, err
				}
				if id == 0x2AD7B1 {
					d.scale = ebmlUint(x)
				}
				body = r
			}
		case id == 0x1654AE6B:
			tracksAt = true
			for len(body) > 0 {
				id, x, _, r, err := ebmlElem(body)
				if err != nil {
					return d, err
				}
				body = r
				if id != 0xAE {
					continue
				}
				var t webmTrack
				for len(x) > 0 {
					id, v, _, r, err := ebmlElem(x)
					if err != nil {
						return d, err
					}
					x = r
					switch id {
					case 0xD7:
						t.num = ebmlUint(v)
					case 0x83:
						t.typ = ebmlUint(v)
					case 0x86:
						t.codec = string(bytes.TrimRight(v, "\x00"))
					case 0x23E383:
						t.dur = ebmlUint(v)
					case 0xE1:
						t.audio = true
						for len(v) > 0 {
							id, a, _, r, err := ebmlElem(v)
							if err != nil {
								return d, err
							}
							v = r
							switch id {
							case 0xB5:
								t.rate = ebmlFloat(a)
							case 0x9F:
								t.ch = ebmlUint(a)
							}
						}
					}
				}
				d.tracks = append(d.tracks, t)
			}
		case id == 0x1F43B675:
			if !tracksAt {
				return d, fmt.Errorf("cluster in front of the tracks")
			}
			d.clusters++
			ctc = 0
			if !unknown {
				rest = append(clone(body), rest...)
			}
		case id == 0xE7:
			ctc = int64(ebmlUint(body))
		case id == 0xA3:
			if d.clusters == 0 {
				return d, fmt.Errorf("block outside of a cluster")
			}
			if len(body) < 4 || body[0]&0x80 == 0 {
				return d, fmt.Errorf("bad block header")
			}
			if body[3]&0x06 != 0 {
				return d, fmt.Errorf("laced block")
			}
			d.blocks = append(d.blocks, webmBlock{track: int64(body[0] & 0x7f), tc: ctc + int64(int16(binary.BigEndian.Uint16(body[1:]))), cluster: d.clusters, data: body[4:]})
		}
		b = rest
	}
	if !seg || !tracksAt {
		return d, fmt.Errorf("no segment or no tracks")
	}
	return d, nil
}

func webmMain(r *R) {
	d, w := r.D, r.W
	n := d.Range(1, 3)
	var ts []*simrt.Task
	for i := 0; i < n; i++ {
		s := w.Stream(fmt.Sprintf("data%d", i))
		fd := &faultyDisk{r: r, full: -1}
		if r.Faults {
			switch d.Weighted(3, 3, 3, 2, 2) {
			case 1:
				fd.full = d.Log(0, 20000)
			case 2:
				fd.errNum = pick(d, 1, 3, 10, 30)
				fd.sticky = d.Bool(1, 2)
			case 3:
				fd.tornNum = pick(d, 1, 3, 10, 30)
			case 4:
				fd.closeE = true
			}
			if d.Bool(1, 3) {
				fd.slow = 50 * time.Millisecond
			}
		}
		name := fmt.Sprintf("w%d", i)
		ts = append(ts, w.Spawn(name, func() {
			dur := pick(s, 2500*time.Microsecond, 10*time.Millisecond, 20*time.Millisecond, 60*time.Millisecond, 100*time.Millisecond, time.Second, 10*time.Second, 33*time.Second, 40*time.Minute, 11*time.Hour)
			rate := pick(s, 8000, 16000, 48000)
			ch := s.Range(1, 2)
			f := &shortFile{d: fd}
			switch s.Int(3) {
			case 0:
				webmRun(r, s, name, fd, f, "A_PCM/INT/LIT", rate, ch, dur, func() msdk.PCM16Writer { return webm.NewPCM16Writer(f, rate, ch, dur) }, pcmLE)
			case 1:
				webmRun(r, s, name, fd, f, "A_OPUS", rate, ch, dur, func() opus.Writer { return opus.NewWebmWriter(f, rate, ch, dur) },
					func(b []byte) (opus.Sample, []byte) { return opus.Sample(clone(b)), b })
			default:
				webmRun(r, s, name, fd, f, "A_TEST", rate, ch, dur, func() opus.Writer { return webm.NewWriter[opus.Sample](f, "A_TEST", ch, rate, dur) },
					func(b []byte) (opus.Sample, []byte) { return opus.Sample(clone(b)), b })
			}
		}))
	}
	for _, t := range ts {
		r.Finish(t, 10*time.Minute, time.Minute, "stuck")
	}
	r.NoLive(time.Second, "leak")
}

func webmRun[T interface {
	~[]E
	msdk.Frame
}, E byte | int16](r *R, s *simrt.Stream, name string, fd *faultyDisk, f *shortFile, codec string, rate, ch int, dur time.Duration,
	create func() msdk.WriteCloser[T], mk func([]byte) (T, []byte)) {
	out := create()
	if fd.failed > 0 {
		simrt.Probe("header-failed")
	}
	if out.SampleRate() != rate {
		r.Fail("rate", "%d for %d", out.SampleRate(), rate)
	}
	sizes := pick(s, 40, 320, 640, 3000)
	var want [][]byte
	reported := 0
	for k := s.Log(1, 150) - 1; k > 0; k-- {
		sample, b := mk(genPayload(s, s.Int(sizes)+s.Int(2)))
		want = append(want, clone(b))
		keep := clone([]E(sample))
		if s.Bool(1, 4) {
			simrt.SleepExact(s.Dur(0, 2*time.Millisecond))
		}
		err := out.WriteSample(sample)
		if !eq([]E(sample), keep) {
			r.Fail("changed", "%s: the caller's sample was changed", name)
		}
		for i := range sample {
			sample[i] = 0x55 // the caller reuses its memory
		}
		if err != nil {
			simrt.Probe("error-in-write")
			if fd.failed == 0 {
				r.Fail("spurious", "%s: write failed with %v although nothing went wrong", name, err)
			}
			reported++
		}
	}
	cerr := out.Close()
	if cerr != nil {
		simrt.Probe("error-in-close")
		if fd.failed == 0 && fd.closeF == nil {
			r.Fail("spurious", "%s: close failed with %v although nothing went wrong", name, cerr)
		}
	}
	if fd.closes != 1 {
		r.Fail("closes", "%s: the underlying writer was closed %d times", name, fd.closes)
	}
	if fd.closeF != nil && cerr == nil {
		r.Fail("unreported", "%s: the underlying close failed but Close succeeded", name)
	}
	if fd.failed > 0 && reported == 0 && cerr == nil {
		r.Fail("unreported", "%s: %d writes lost data but no write or close failed", name, fd.failed)
	}
	// What is stored must be the beginning of the same recording.
	doc, err := webmParse(f.data)
	if fd.failed == 0 && err != nil {
		r.Fail("unreadable", "%s: the stream does not parse: %v", name, err)
	}
	if fd.failed == 0 {
		simrt.Probe("complete")
		if doc.doctype != "webm" || doc.scale != 1000000 || len(doc.tracks) != 1 {
			r.Fail("header", "%s: type %q, time scale %d, %d tracks", name, doc.doctype, doc.scale, len(doc.tracks))
		}
		t := doc.tracks[0]
		if t.num != 1 || t.typ != 2 || t.codec != codec || t.dur != uint64(dur) || t.rate != float64(rate) || t.ch != uint64(ch) || !t.audio {
			r.Fail("track", "%s: wrong track %+v, want codec %s, %d Hz, %d channels, %v", name, t, codec, rate, ch, dur)
		}
		if len(doc.blocks) != len(want) {
			r.Fail("frames", "%s: %d frames stored, %d written", name, len(doc.blocks), len(want))
		}
	}
	// The same recording without faults, for comparison.
	got, clean := f.data, fd.failed == 0
	*fd = faultyDisk{r: r, full: -1}
	f.data = nil
	ref := create()
	for _, b := range want {
		sample, _ := mk(b)
		if err := ref.WriteSample(sample); err != nil {
			r.Fail("spurious", "%s: %v", name, err)
		}
	}
	if err := ref.Close(); err != nil {
		r.Fail("spurious", "%s: %v", name, err)
	}
	full := f.data
	// The track's random identifier is the only difference.
	uid := bytes.Index(full, []byte{0x73, 0xC5, 0x88})
	switch tr := bytes.Index(full, []byte{0x16, 0x54, 0xAE, 0x6B}); {
	case uid >= 0 && len(got) > uid+2 && got[uid+2] == 0x88:
		full = clone(full)
		copy(full[uid+3:uid+11], got[uid+3:min(uid+11, len(got))])
	case len(got) <= tr: // not there yet
	default: // with leading zeros it is shorter, and with it the track entry
		full = nil
	}
	if full != nil {
		simrt.Probe("crash-prefix")
		if !bytes.HasPrefix(full, got) || clean && len(got) != len(full) {
			i := 0
			for i < len(got) && i < len(full) && got[i] == full[i] {
				i++
			}
			r.Fail("content", "%s: what is stored (%d bytes) is not the beginning of the recording (%d bytes), it differs at %d", name, len(got), len(full), i)
		}
	}
	if doc.clusters > 2 {
		simrt.Probe("clusters")
	}
	if len(doc.blocks) > len(want) {
		r.Fail("frames", "%s: %d frames stored, %d written", name, len(doc.blocks), len(want))
	}
	for i, b := range doc.blocks {
		if b.track != 1 || !bytes.Equal(b.data, want[i]) {
			r.Fail("frames", "%s: frame %d of %d is not the one written (%d bytes, want %d)", name, i, len(want), len(b.data), len(want[i]))
		}
		if at := time.Duration(i) * dur; time.Duration(b.tc)*time.Millisecond > at+time.Millisecond || time.Duration(b.tc)*time.Millisecond < at-time.Millisecond {
			r.Fail("timestamp", "%s: frame %d has time %d ms, want %v", name, i, b.tc, at)
		}
	}
}
