package scen

import (
	"bytes"
	"fmt"
	"strings"
	"syscall"
	"time"

	"simw/simrt"
	msdk "simw/x/github.com/livekit/media-sdk"
	"simw/x/github.com/livekit/media-sdk/g711"
)

func init() {
	register(&Scen{Name: "file", Props: []string{"C19"}, Main: fileMain,
		Real: []string{"media.NewFileWriter", "media.DumpWriter", "media.MultiWriter", "bufio"}, Stub: []string{"disk (in memory, faulty)", "wrapped writer", "scheduler"},
		Reached: []string{"dump", "plain", "complete", "error-in-write", "error-in-close", "disk-full", "torn-write", "write-error", "close-error", "crash-prefix", "shared"}})
}

// faultyDisk decides what happens to the operations on one file.
type faultyDisk struct {
	r       *R
	full    int // bytes until the disk is full, -1 = never
	errNum  int
	tornNum int
	closeE  bool
	sticky  bool
	broken  error
	failed  int // writes that lost data
	written int
	closes  int
	closeF  error
	slow    time.Duration
	onOp    func()
}

func (d *faultyDisk) op(op string, n int) (int, error) {
	f := d.r.F
	if d.onOp != nil {
		d.onOp()
	}
	switch op {
	case "write":
		if d.slow > 0 && f.Bool(1, 4) {
			simrt.Fault("slow-disk")
			simrt.SleepExact(f.Dur(0, d.slow))
		}
		if d.broken != nil {
			d.failed++
			return 0, d.broken
		}
		if d.full >= 0 && d.written+n > d.full {
			simrt.Fault("disk-full")
			simrt.Probe("disk-full")
			n = d.full - d.written
			d.written += n
			d.failed++
			return n, syscall.ENOSPC
		}
		if d.errNum > 0 && f.Bool(1, d.errNum) {
			simrt.Fault("write-error")
			simrt.Probe("write-error")
			err := newErr("write failed")
			if d.sticky {
				d.broken = err
			}
			if f.Bool(1, 2) {
				n = 0
			} else {
				n = f.Int(n + 1)
			}
			d.written += n
			d.failed++
			return n, err
		}
		if d.tornNum > 0 && n > 0 && f.Bool(1, d.tornNum) {
			simrt.Fault("torn-write")
			simrt.Probe("torn-write")
			n = f.Int(n)
			d.failed++
			d.written += n
			return n, nil
		}
		d.written += n
	case "close":
		d.closes++
		if d.closeE {
			simrt.Fault("close-error")
			simrt.Probe("close-error")
			d.closeF = newErr("close failed")
			return 0, d.closeF
		}
	}
	return n, nil
}

// shortFile is a writer that is not an os.File: a short write comes back
// with or without an error.
type shortFile struct {
	d    *faultyDisk
	data []byte
}

func (f *shortFile) Write(p []byte) (int, error) {
	n, err := f.d.op("write", len(p))
	f.data = append(f.data, p[:n]...)
	simrt.Yield()
	return n, err
}

func (f *shortFile) Close() error {
	_, err := f.d.op("close", 0)
	return err
}

func fileMain(r *R) {
	d, w := r.D, r.W
	n := d.Range(1, 3)
	disks := map[string]*faultyDisk{}
	w.Disk.OnOp = func(op, name string, n int) (int, error) {
		for k, x := range disks {
			if strings.HasPrefix(name, k+"_") || name == k {
				return x.op(op, n)
			}
		}
		return n, nil
	}
	var ts []*simrt.Task
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("f%d", i)
		fd := &faultyDisk{r: r, full: -1}
		if r.Faults {
			switch d.Weighted(3, 3, 3, 2, 2) {
			case 1:
				fd.full = d.Log(0, 40000)
			case 2:
				fd.errNum = pick(d, 1, 3, 10)
				fd.sticky = d.Bool(1, 2)
			case 3:
				fd.tornNum = pick(d, 1, 3, 10)
			case 4:
				fd.closeE = true
			}
			if d.Bool(1, 3) {
				fd.slow = 50 * time.Millisecond
			}
		}
		disks[name] = fd
		s := w.Stream("data" + name)
		if d.Bool(1, 4) {
			fd.full, fd.errNum, fd.tornNum, fd.closeE = -1, 0, 0, false // slow at most
			ts = append(ts, w.Spawn(name, func() { fileShared(r, s, name, fd) }))
			continue
		}
		if d.Bool(1, 2) {
			ts = append(ts, w.Spawn(name, func() { fileRun(r, s, name, fd, pcmLE) }))
		} else {
			ts = append(ts, w.Spawn(name, func() {
				fileRun(r, s, name, fd, func(b []byte) (g711.ULawSample, []byte) { return g711.ULawSample(clone(b)), b })
			}))
		}
	}
	for _, t := range ts {
		r.Finish(t, 10*time.Minute, time.Minute, "stuck")
	}
}

// fileShared: several tasks write to one file.
func fileShared(r *R, s *simrt.Stream, name string, fd *faultyDisk) {
	simrt.Probe("shared")
	w := r.W
	var out msdk.WriteCloser[g711.ULawSample]
	stored := func() []byte { return w.Disk.Files[name].Data }
	switch s.Int(3) {
	case 0:
		rec := &recW[g711.ULawSample, byte]{r: r, name: name + ".wrapped", rate: 8000, yield: s.Bool(1, 2)}
		out = msdk.DumpWriter[g711.ULawSample]("raw", name, rec)
		stored = func() []byte { return w.Disk.Files[name+"_ar8000.raw"].Data }
	case 1:
		f, err := simrt.OsCreate(name)
		if err != nil {
			r.Fail("create", "%v", err)
		}
		out = msdk.NewFileWriter[g711.ULawSample](f, 8000)
	default:
		f := &shortFile{d: fd}
		out = msdk.NewFileWriter[g711.ULawSample](f, 8000)
		stored = func() []byte { return f.data }
	}
	k := s.Range(2, 4)
	most := pick(s, 10, 200, 2000, 6000)
	frames := make([][][]byte, k)
	var ts []*simrt.Task
	for i := range k {
		tn := fmt.Sprintf("%s.%d", name, i)
		ds := w.Stream(tn)
		n := s.Log(1, 60)
		ts = append(ts, w.Spawn(tn, func() {
			for j := 0; j < n; j++ {
				b := append([]byte{byte(i), byte(j)}, genPayload(ds, ds.Int(most))...)
				frames[i] = append(frames[i], clone(b))
				if err := out.WriteSample(b); err != nil {
					r.Fail("spurious", "%s: write failed with %v although nothing went wrong", name, err)
				}
				clear(b)
				if ds.Bool(1, 4) {
					simrt.Yield()
				}
			}
		}))
	}
	for _, t := range ts {
		r.Finish(t, 10*time.Minute, time.Minute, "stuck")
	}
	if err := out.Close(); err != nil {
		r.Fail("spurious", "%s: close failed with %v although nothing went wrong", name, err)
	}
	b, total := stored(), len(stored())
	next := make([]int, k)
	for len(b) > 0 {
		i := int(b[0])
		if i >= k || next[i] >= len(frames[i]) || !bytes.HasPrefix(b, frames[i][next[i]]) {
			r.Fail("content", "%s: at %d of %d bytes there is no next sample of any of the %d tasks", name, total-len(b), total, k)
		}
		b = b[len(frames[i][next[i]]):]
		next[i]++
	}
	for i := range k {
		if next[i] != len(frames[i]) {
			r.Fail("content", "%s: %d of %d samples of task %d are stored, although nothing failed", name, next[i], len(frames[i]), i)
		}
	}
}

func pcmLE(b []byte) (msdk.PCM16Sample, []byte) {
	b = b[:len(b)/2*2]
	s := make(msdk.PCM16Sample, len(b)/2)
	for i := range s {
		s[i] = int16(uint16(b[2*i]) | uint16(b[2*i+1])<<8)
	}
	return s, b
}

func fileRun[T interface {
	~[]E
	msdk.Frame
}, E byte | int16](r *R, s *simrt.Stream, name string, fd *faultyDisk, mk func([]byte) (T, []byte)) {
	w := r.W
	var out msdk.WriteCloser[T]
	var stored func() []byte
	var rec *recW[T, E]
	rate := pick(s, 8000, 16000, 48000)
	switch s.Int(3) {
	case 0:
		simrt.Probe("dump")
		rec = &recW[T, E]{r: r, name: name + ".wrapped", rate: rate}
		if r.Faults && s.Bool(1, 2) {
			rec.errNum = 6
		}
		if r.Faults && s.Bool(1, 4) {
			rec.closing = newErr("wrapped close failed")
		}
		out = msdk.DumpWriter[T]("raw", name, rec)
		stored = func() []byte {
			for _, k := range simrt.SortedKeys(w.Disk.Files) {
				if strings.HasPrefix(k, name+"_") {
					return w.Disk.Files[k].Data
				}
			}
			r.Fail("no-file", "no dump file for %s", name)
			return nil
		}
	case 1:
		simrt.Probe("plain")
		f, err := simrt.OsCreate(name)
		if err != nil {
			r.Fail("create", "%v", err)
		}
		out = msdk.NewFileWriter[T](f, rate)
		stored = func() []byte { return w.Disk.Files[name].Data }
	default:
		f := &shortFile{d: fd}
		out = msdk.NewFileWriter[T](f, rate)
		stored = func() []byte { return f.data }
	}
	var want []byte
	prefix := func() {
		if b := stored(); !bytes.HasPrefix(want, b) {
			i := 0
			for i < len(b) && i < len(want) && b[i] == want[i] {
				i++
			}
			r.Fail("content", "%s: what is stored (%d bytes) is not a prefix of what was written (%d bytes), it differs at %d", name, len(b), len(want), i)
		}
	}
	fd.onOp = func() { simrt.Probe("crash-prefix"); prefix() }
	if out.SampleRate() != rate {
		r.Fail("rate", "%d for %d", out.SampleRate(), rate)
	}
	sizes := pick(s, 40, 320, 640, 5000, 20000)
	reported := 0 // failures reported before the close
	var all [][]E
	for k := s.Log(1, 120); k > 0; k-- {
		sample, b := mk(genPayload(s, s.Int(sizes)+s.Int(2)))
		want = append(want, b...)
		all = append(all, clone([]E(sample)))
		nerr, lost := 0, fd.failed
		if rec != nil {
			nerr = len(rec.errs)
		}
		err := out.WriteSample(sample)
		if !eq([]E(sample), all[len(all)-1]) {
			r.Fail("changed", "%s: the caller's sample was changed", name)
		}
		for i := range sample {
			sample[i] = 0x55 // the caller reuses its memory
		}
		prefix()
		recFailed := rec != nil && len(rec.errs) > nerr
		if recFailed && err == nil {
			r.Fail("unreported", "%s: the wrapped writer failed but the write succeeded", name)
		}
		if err != nil {
			simrt.Probe("error-in-write")
			if fd.failed == 0 && !recFailed {
				r.Fail("spurious", "%s: write failed with %v although nothing went wrong", name, err)
			}
			if fd.failed > 0 && !recFailed || fd.failed > lost {
				reported++
			}
		}
		if rec != nil && len(rec.frames) != len(all) {
			r.Fail("not-passed-on", "%s: %d samples written, %d passed on", name, len(all), len(rec.frames))
		}
	}
	cerr := out.Close()
	prefix()
	if cerr != nil {
		simrt.Probe("error-in-close")
		if fd.failed == 0 && fd.closeF == nil && (rec == nil || rec.closing == nil) {
			r.Fail("spurious", "%s: close failed with %v although nothing went wrong", name, cerr)
		}
	}
	if fd.closes != 1 {
		r.Fail("closes", "%s: the file was closed %d times", name, fd.closes)
	}
	if rec != nil && rec.closes != 1 {
		r.Fail("closes", "%s: the wrapped writer was closed %d times", name, rec.closes)
	}
	if (fd.closeF != nil || rec != nil && rec.closing != nil) && cerr == nil {
		r.Fail("unreported", "%s: a close failed but Close succeeded", name)
	}
	b := stored()
	if !bytes.Equal(b, want) && reported == 0 && cerr == nil {
		r.Fail("unreported", "%s: %d of %d bytes are stored but no failure was reported", name, len(b), len(want))
	}
	if fd.failed == 0 && !bytes.Equal(b, want) {
		r.Fail("content", "%s: nothing failed but only %d of %d bytes are stored", name, len(b), len(want))
	}
	if bytes.Equal(b, want) {
		simrt.Probe("complete")
	}
	if rec != nil {
		for i, f := range rec.frames {
			if !eq(f.data, all[i]) {
				r.Fail("not-passed-on", "%s: sample %d was passed on changed", name, i)
			}
		}
	}
}
