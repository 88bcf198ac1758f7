package simrt

import (
	"reflect"
	"unsafe"
)

// The happens-before race oracle. In a run with Races set, every task carries
// a vector clock, the simulated synchronisation operations pass clocks on as
// the Go memory model says, and the instrumented accesses (R, W and friends,
// put in by the rewriter) are checked against the last accesses to the same
// memory: two accesses by different tasks, at least one of them a write, that
// no synchronisation orders are a data race, whether or not this schedule
// made its effects visible.

type vclock []uint32

var raceOn bool // W.Races of the running world

type racc struct {
	t    int32
	c    uint32
	site string
}

type shadowCell struct {
	w  racc
	r  racc
	rs []racc // more than one unordered reader
}

func (v vclock) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *vclock) set(i int, x uint32) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i] = x
}

func (v *vclock) join(o vclock) {
	if len(*v) < len(o) {
		n := make(vclock, len(o), len(o)+len(o)/4+4)
		copy(n, *v)
		*v = n
	}
	d := *v
	for i, x := range o {
		if x > d[i] {
			d[i] = x
		}
	}
}

func (t *Task) tick() { t.vc[t.id]++ }

// born gives a new task its clock.
func (w *World) born(t *Task) {
	var base vclock
	if cur != nil {
		base = cur.vc
	} else {
		base = w.evVC
	}
	t.vc = make(vclock, max(len(base), t.id+1), max(len(base), t.id+1)+8)
	copy(t.vc, base)
	t.vc[t.id] = 1
	if cur != nil {
		cur.tick()
	}
}

func acquire(v vclock) {
	if !raceOn || cur == nil {
		return
	}
	cur.vc.join(v)
}

func release(v *vclock) {
	if !raceOn {
		return
	}
	if cur == nil {
		if W.evVC != nil {
			v.join(W.evVC)
		}
		return
	}
	v.join(cur.vc)
	cur.tick()
}

// releaseTo orders what the running task did before what t does from now on.
func releaseTo(t *Task) {
	if !raceOn || t == nil {
		return
	}
	if cur == nil {
		if W.evVC != nil {
			t.vc.join(W.evVC)
		}
		return
	}
	t.vc.join(cur.vc)
	cur.tick()
}

// acquireFrom orders what t did so far before what the running task does.
func acquireFrom(t *Task) {
	if !raceOn || cur == nil || t == nil {
		return
	}
	cur.vc.join(t.vc)
	t.tick()
}

// releaseVC is a copy of the running task's clock for a later event.
func releaseVC() vclock {
	if !raceOn {
		return nil
	}
	if cur == nil {
		return W.evVC
	}
	c := append(vclock(nil), cur.vc...)
	cur.tick()
	return c
}

// SyncAll orders everything done so far before what the running task does
// next (harness use: data handed over in harness variables).
func SyncAll() {
	if !raceOn || cur == nil {
		return
	}
	for _, t := range W.tasks {
		if t != cur {
			cur.vc.join(t.vc)
			if t.state != tsDone {
				t.tick()
			}
		}
	}
}

// Handover is a synchronisation object of the harness.
type Handover struct{ vc vclock }

func (h *Handover) Release() { release(&h.vc) }
func (h *Handover) Acquire() { acquire(h.vc) }

// IORelease and IOAcquire order I/O through files and sockets, as the Go
// runtime does.
func IORelease() {
	if raceOn {
		release(&W.ioVC)
	}
}

func IOAcquire() {
	if raceOn {
		acquire(W.ioVC)
	}
}

// addrVC is the clock of an atomic variable.
func addrVC(p unsafe.Pointer) *vclock {
	v := W.addrs[p]
	if v == nil {
		v = new(vclock)
		W.addrs[p] = v
	}
	return v
}

const maxCells = 1 << 20

func (w *World) cell(p unsafe.Pointer) *shadowCell {
	c := w.shadow[p]
	if c == nil {
		if len(w.shadow) >= maxCells {
			return nil
		}
		c = &shadowCell{}
		w.shadow[p] = c
	}
	return c
}

func raceFail(what string, old racc, kind, site string) {
	o := W.tasks[old.t]
	Fail(W.Prefix+"data-race", "%s by %s#%d at %s and %s by %s#%d at %s are not ordered by any synchronisation",
		what, o.Name, o.id, old.site, kind, cur.Name, cur.id, site)
}

func raceRead(p unsafe.Pointer, site string) {
	t := cur
	W.raceN++
	c := W.cell(p)
	if c == nil {
		return
	}
	if c.w.c != 0 && int(c.w.t) != t.id && c.w.c > t.vc.get(int(c.w.t)) {
		raceFail("write", c.w, "read", site)
	}
	me := racc{int32(t.id), t.vc[t.id], site}
	if c.rs != nil {
		for i := range c.rs {
			if c.rs[i].t == me.t {
				c.rs[i] = me
				return
			}
		}
		c.rs = append(c.rs, me)
		return
	}
	if c.r.c == 0 || c.r.t == me.t || c.r.c <= t.vc.get(int(c.r.t)) {
		c.r = me
		return
	}
	c.rs = append(make([]racc, 0, 4), c.r, me)
}

func raceWrite(p unsafe.Pointer, site string) {
	t := cur
	W.raceN++
	c := W.cell(p)
	if c == nil {
		return
	}
	if c.w.c != 0 && int(c.w.t) != t.id && c.w.c > t.vc.get(int(c.w.t)) {
		raceFail("write", c.w, "write", site)
	}
	if c.rs != nil {
		for _, r := range c.rs {
			if int(r.t) != t.id && r.c > t.vc.get(int(r.t)) {
				raceFail("read", r, "write", site)
			}
		}
		c.rs = nil
	} else if c.r.c != 0 && int(c.r.t) != t.id && c.r.c > t.vc.get(int(c.r.t)) {
		raceFail("read", c.r, "write", site)
	}
	c.w = racc{int32(t.id), t.vc[t.id], site}
	c.r = racc{}
}

// leaves are the offsets of the separately accessed parts of a type.
var leafCache = map[reflect.Type][]uintptr{}

func leaves(t reflect.Type) []uintptr {
	if l, ok := leafCache[t]; ok {
		return l
	}
	var out []uintptr
	var rec func(t reflect.Type, off uintptr)
	rec = func(t reflect.Type, off uintptr) {
		if t.Size() == 0 || t.PkgPath() == simPkg {
			return
		}
		switch t.Kind() {
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				rec(t.Field(i).Type, off+t.Field(i).Offset)
			}
		case reflect.Array:
			n := t.Len()
			for i := 0; i < n; i++ {
				if n > 64 && i >= 32 && i < n-32 {
					continue
				}
				rec(t.Elem(), off+uintptr(i)*t.Elem().Size())
			}
		default:
			out = append(out, off)
		}
	}
	rec(t, 0)
	leafCache[t] = out
	return out
}

var simPkg = reflect.TypeFor[Mutex]().PkgPath()

func raceable() bool {
	return cur != nil && !W.killing
}

func rd[T any](p *T, site string) {
	if !raceable() || p == nil {
		return
	}
	for _, o := range leaves(reflect.TypeFor[T]()) {
		raceRead(unsafe.Add(unsafe.Pointer(p), o), site)
	}
}

func wr[T any](p *T, site string) {
	if !raceable() || p == nil {
		return
	}
	for _, o := range leaves(reflect.TypeFor[T]()) {
		raceWrite(unsafe.Add(unsafe.Pointer(p), o), site)
	}
}

// R marks a read of *p.
func R[T any](p *T, site string) *T {
	if raceOn {
		rd(p, site)
	}
	return p
}

// W marks a write of *p.
func Wr[T any](p *T, site string) *T {
	if raceOn {
		wr(p, site)
	}
	return p
}

func slicePart(n int, f func(i int)) {
	for i := 0; i < n; i++ {
		if n > 64 && i >= 32 && i < n-32 {
			i = n - 32
		}
		f(i)
	}
}

func rds[E any](s []E, site string) {
	if raceable() {
		slicePart(len(s), func(i int) { rd(&s[i], site) })
	}
}

func wrs[E any](s []E, site string) {
	if raceable() {
		slicePart(len(s), func(i int) { wr(&s[i], site) })
	}
}

// RS marks a read of all elements.
func RS[S ~[]E, E any](s S, site string) S {
	if raceOn {
		rds([]E(s), site)
	}
	return s
}

// WS marks a write of all elements.
func WS[S ~[]E, E any](s S, site string) S {
	if raceOn {
		wrs([]E(s), site)
	}
	return s
}

// Copy is copy.
func Copy[D ~[]E, S ~[]E, E any](site string, d D, s S) int {
	if raceOn {
		n := min(len(d), len(s))
		rds([]E(s[:n]), site)
		wrs([]E(d[:n]), site)
	}
	return copy(d, s)
}

// Ap marks what append of n elements does to s.
func Ap[S ~[]E, E any](s S, n int, site string) S {
	if raceOn && n > 0 {
		if cap(s)-len(s) >= n {
			wrs([]E(s[len(s):len(s)+n]), site)
		} else {
			rds([]E(s), site)
		}
	}
	return s
}

func raceMap(k unsafe.Pointer, write bool, site string) {
	if !raceOn || !raceable() || k == nil {
		return
	}
	if write {
		raceWrite(k, site)
	} else {
		raceRead(k, site)
	}
}

// CountRaces adds the number of judged accesses to the counts of the run.
func (w *World) CountRaces() {
	if w.raceN > 0 {
		w.Counts["race_checked_accesses"] += w.raceN
	}
}
