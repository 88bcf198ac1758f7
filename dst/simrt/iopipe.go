package simrt

import "io"

// IOPipe is io.Pipe on simulated synchronisation.

type pipeErr struct {
	mu  Mutex
	err error
}

func (a *pipeErr) store(err error) {
	a.mu.Lock()
	defer a.mu.Unlock()
	if a.err == nil {
		a.err = err
	}
}

func (a *pipeErr) load() error {
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.err
}

type ioPipe struct {
	wrMu       Mutex
	wrCh       chan []byte
	rdCh       chan int
	once       Once
	done       chan struct{}
	rerr, werr pipeErr
}

func (p *ioPipe) isDone() bool {
	sel := NewSel()
	SelRecv(sel, p.done)
	return sel.Run(true) == 0
}

// PipeReader is io.PipeReader.
type PipeReader struct{ p ioPipe }

// PipeWriter is io.PipeWriter.
type PipeWriter struct{ r PipeReader }

func (r *PipeReader) Read(b []byte) (int, error) {
	p := &r.p
	if !p.isDone() {
		sel := NewSel()
		c := SelRecv(sel, p.wrCh)
		SelRecv(sel, p.done)
		if sel.Run(false) == 0 {
			n := copy(b, c.Get())
			Send(p.rdCh)(n)
			return n, nil
		}
	}
	rerr := p.rerr.load()
	if werr := p.werr.load(); rerr == nil && werr != nil {
		return 0, werr
	}
	return 0, io.ErrClosedPipe
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	r.p.rerr.store(err)
	r.p.once.Do(func() { Close(r.p.done) })
	return nil
}

func (w *PipeWriter) Write(b []byte) (n int, err error) {
	p := &w.r.p
	if !p.isDone() {
		p.wrMu.Lock()
		defer p.wrMu.Unlock()
		open := true
		for once := true; once || len(b) > 0; once = false {
			sel := NewSel()
			SelSend(sel, p.wrCh)(b)
			SelRecv(sel, p.done)
			if sel.Run(false) != 0 {
				open = false
				break
			}
			k := Recv(p.rdCh)
			b = b[k:]
			n += k
		}
		if open {
			return n, nil
		}
	}
	werr := p.werr.load()
	if rerr := p.rerr.load(); werr == nil && rerr != nil {
		return n, rerr
	}
	return n, io.ErrClosedPipe
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	w.r.p.werr.store(err)
	w.r.p.once.Do(func() { Close(w.r.p.done) })
	return nil
}

// IOPipe is io.Pipe.
func IOPipe() (*PipeReader, *PipeWriter) {
	w := &PipeWriter{}
	w.r.p.wrCh, w.r.p.rdCh, w.r.p.done = make(chan []byte), make(chan int), make(chan struct{})
	return &w.r, w
}
