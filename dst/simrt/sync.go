package simrt

import (
	"sync"
	"time"
	"unsafe"
)

var _ sync.Locker = (*Mutex)(nil)

type mwait struct {
	t     *Task
	since time.Duration
	tries int
	rd    bool
	given bool
}

// Mutex is sync.Mutex: barging allowed, hand-off after starvation.
type Mutex struct {
	wid    uint64
	locked bool
	q      []*mwait
	vc     vclock
}

func (m *Mutex) sync() {
	if W != nil && m.wid != W.id {
		*m = Mutex{wid: W.id}
	}
}

func (m *Mutex) TryLock() bool {
	if W == nil {
		return true
	}
	m.sync()
	S()
	if m.locked {
		return false
	}
	m.locked = true
	acquire(m.vc)
	return true
}

func (m *Mutex) Lock() {
	if W == nil || W.killing {
		return
	}
	m.sync()
	S()
	if !m.locked {
		m.locked = true
		acquire(m.vc)
		return
	}
	W.Counts["probe.mutex-contended"]++
	mw := &mwait{t: cur, since: W.now}
	for {
		m.q = append(m.q, mw)
		block("mutex lock")
		if mw.given {
			acquire(m.vc)
			return
		}
		if !m.locked {
			m.locked = true
			acquire(m.vc)
			return
		}
		mw.tries++
	}
}

func (m *Mutex) Unlock() {
	if W == nil || W.killing {
		return
	}
	m.sync()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	release(&m.vc)
	m.locked = false
	if len(m.q) > 0 {
		mw := m.q[0]
		m.q = m.q[1:]
		if mw.tries >= 4 || W.now-mw.since > time.Millisecond {
			mw.given = true
			m.locked = true
		}
		W.wakeup(mw.t)
	}
	if cur != nil {
		S()
	}
}

// RWMutex is sync.RWMutex: a waiting writer blocks new readers.
type RWMutex struct {
	wid     uint64
	writer  bool
	readers int
	wwait   int
	q       []*mwait
	vc      vclock
	rvc     vclock
}

func (m *RWMutex) sync() {
	if W != nil && m.wid != W.id {
		*m = RWMutex{wid: W.id}
	}
}

func (m *RWMutex) TryLock() bool {
	if W == nil {
		return true
	}
	m.sync()
	S()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	acquire(m.vc)
	acquire(m.rvc)
	return true
}

func (m *RWMutex) TryRLock() bool {
	if W == nil {
		return true
	}
	m.sync()
	S()
	if m.writer || m.wwait > 0 {
		return false
	}
	m.readers++
	acquire(m.vc)
	return true
}

func (m *RWMutex) Lock() {
	if W == nil || W.killing {
		return
	}
	m.sync()
	S()
	if !m.writer && m.readers == 0 && m.wwait == 0 {
		m.writer = true
		acquire(m.vc)
		acquire(m.rvc)
		return
	}
	mw := &mwait{t: cur}
	m.wwait++
	m.q = append(m.q, mw)
	for !mw.given {
		block("rwmutex lock")
	}
	acquire(m.vc)
	acquire(m.rvc)
}

func (m *RWMutex) RLock() {
	if W == nil || W.killing {
		return
	}
	m.sync()
	S()
	if !m.writer && m.wwait == 0 {
		m.readers++
		acquire(m.vc)
		return
	}
	mw := &mwait{t: cur, rd: true}
	m.q = append(m.q, mw)
	for !mw.given {
		block("rwmutex rlock")
	}
	acquire(m.vc)
}

func (m *RWMutex) grant() {
	if m.writer {
		return
	}
	// After a writer, all waiting readers go first (as in package sync);
	// after readers, the first waiting writer.
	if m.readers == 0 {
		for i, mw := range m.q {
			if !mw.rd {
				m.q = append(m.q[:i:i], m.q[i+1:]...)
				m.wwait--
				m.writer = true
				mw.given = true
				W.wakeup(mw.t)
				return
			}
		}
	}
	m.grantReaders()
}

func (m *RWMutex) grantReaders() bool {
	any := false
	rest := m.q[:0:0]
	for _, mw := range m.q {
		if mw.rd {
			m.readers++
			mw.given = true
			any = true
			W.wakeup(mw.t)
		} else {
			rest = append(rest, mw)
		}
	}
	m.q = rest
	return any
}

func (m *RWMutex) Unlock() {
	if W == nil || W.killing {
		return
	}
	m.sync()
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	release(&m.vc)
	m.writer = false
	if !m.grantReaders() {
		m.grant()
	}
	if cur != nil {
		S()
	}
}

func (m *RWMutex) RUnlock() {
	if W == nil || W.killing {
		return
	}
	m.sync()
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	release(&m.rvc)
	m.readers--
	if m.readers == 0 && m.wwait > 0 {
		m.grant()
	}
	if cur != nil {
		S()
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	wid uint64
	n   int
	q   []*Task
	vc  vclock
}

func (g *WaitGroup) sync() {
	if W != nil && g.wid != W.id {
		*g = WaitGroup{wid: W.id}
	}
}

func (g *WaitGroup) Add(d int) {
	if W == nil || W.killing {
		return
	}
	g.sync()
	S()
	release(&g.vc)
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		for _, t := range g.q {
			W.wakeup(t)
		}
		g.q = nil
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	if W == nil || W.killing {
		return
	}
	g.sync()
	S()
	for g.n > 0 {
		g.q = append(g.q, cur)
		block("waitgroup")
	}
	acquire(g.vc)
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go("WaitGroup.Go", func() {
		defer g.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if W != nil && cur != nil {
		S()
	}
	if o.done {
		acquire(o.m.vc)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// Cond is sync.Cond.
type Cond struct {
	L  sync.Locker
	q  []*mwait
	vc vclock
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	mw := &mwait{t: cur}
	c.q = append(c.q, mw)
	c.L.Unlock()
	for !mw.given {
		block("cond wait")
	}
	acquire(c.vc)
	c.L.Lock()
}

func (c *Cond) Signal() {
	if W == nil || W.killing {
		return
	}
	S()
	release(&c.vc)
	if len(c.q) > 0 {
		mw := c.q[0]
		c.q = c.q[1:]
		mw.given = true
		W.wakeup(mw.t)
	}
}

func (c *Cond) Broadcast() {
	if W == nil || W.killing {
		return
	}
	S()
	release(&c.vc)
	for _, mw := range c.q {
		mw.given = true
		W.wakeup(mw.t)
	}
	c.q = nil
}

// Pool is sync.Pool; entries may get lost when the world says so.
type Pool struct {
	New func() any
	wid uint64
	q   []poolItem
}

type poolItem struct {
	v  any
	vc vclock
}

func (p *Pool) sync() {
	if W != nil && p.wid != W.id {
		p.wid, p.q = W.id, nil
	}
}

func (p *Pool) Get() any {
	p.sync()
	if W != nil && cur != nil {
		S()
		if len(p.q) > 0 && W.Cfg.PoolMiss && W.fault.Bool(1, 4) {
			Fault("pool-miss")
			p.q = p.q[:len(p.q)-1]
		}
	}
	if n := len(p.q); n > 0 {
		x := p.q[n-1]
		p.q = p.q[:n-1]
		acquire(x.vc)
		return x.v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	p.sync()
	if W != nil && cur != nil {
		S()
	}
	x := poolItem{v: v}
	release(&x.vc)
	p.q = append(p.q, x)
}

// Map is sync.Map with insertion-order iteration.
type Map struct {
	m    map[any]any
	keys []any
	vc   vclock
}

func (m *Map) op() {
	if W != nil && cur != nil {
		S()
	}
	acquire(m.vc)
	release(&m.vc)
	if m.m == nil {
		m.m = map[any]any{}
	}
}

func (m *Map) Load(k any) (any, bool) { m.op(); v, ok := m.m[k]; return v, ok }
func (m *Map) store(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) Store(k, v any) { m.op(); m.store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.op()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.store(k, v)
	return v, false
}
func (m *Map) del(k any) {
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			return
		}
	}
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.op()
	v, ok := m.m[k]
	if ok {
		m.del(k)
	}
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.op()
	o, ok := m.m[k]
	m.store(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.op()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.op()
	if v, ok := m.m[k]; ok && v == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Clear() { m.op(); m.m, m.keys = map[any]any{}, nil }
func (m *Map) Range(f func(k, v any) bool) {
	m.op()
	for _, k := range append([]any(nil), m.keys...) {
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
		if W != nil && cur != nil {
			S()
		}
	}
}

// ---------------------------------------------------------------- atomics

// aload0 and so on mark an atomic operation on the variable at p.
func aopL(p unsafe.Pointer) {
	if W != nil && cur != nil && !W.killing {
		S()
		if raceOn {
			acquire(*addrVC(p))
		}
	}
}

func aopS(p unsafe.Pointer) {
	if W != nil && cur != nil && !W.killing {
		S()
		if raceOn {
			release(addrVC(p))
		}
	}
}

func aopX(p unsafe.Pointer) {
	if W != nil && cur != nil && !W.killing {
		S()
		if raceOn {
			v := addrVC(p)
			acquire(*v)
			release(v)
		}
	}
}

// aopP is an atomic operation on a plain variable.
func aopP[T any](p *T, write bool) {
	if W != nil && cur != nil && !W.killing {
		S()
		if raceOn {
			v := addrVC(unsafe.Pointer(p))
			acquire(*v)
			if write {
				raceWrite(unsafe.Pointer(p), "an atomic operation")
			} else {
				raceRead(unsafe.Pointer(p), "an atomic operation")
			}
			release(v)
		}
	}
}

type Bool struct {
	_ noCopy
	v bool
}
type noCopy struct{}

func (x *Bool) Load() bool   { aopL(unsafe.Pointer(x)); return x.v }
func (x *Bool) Store(v bool) { aopS(unsafe.Pointer(x)); x.v = v }
func (x *Bool) Swap(v bool) bool {
	aopX(unsafe.Pointer(x))
	o := x.v
	x.v = v
	return o
}
func (x *Bool) CompareAndSwap(o, n bool) bool {
	aopX(unsafe.Pointer(x))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type integer interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

type anum[T integer] struct {
	_ noCopy
	v T
}

func (x *anum[T]) Load() T   { aopL(unsafe.Pointer(x)); return x.v }
func (x *anum[T]) Store(v T) { aopS(unsafe.Pointer(x)); x.v = v }
func (x *anum[T]) Add(d T) T { aopX(unsafe.Pointer(x)); x.v += d; return x.v }
func (x *anum[T]) Swap(v T) T {
	aopX(unsafe.Pointer(x))
	o := x.v
	x.v = v
	return o
}
func (x *anum[T]) CompareAndSwap(o, n T) bool {
	aopX(unsafe.Pointer(x))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
func (x *anum[T]) And(m T) T { aopX(unsafe.Pointer(x)); o := x.v; x.v &= m; return o }
func (x *anum[T]) Or(m T) T  { aopX(unsafe.Pointer(x)); o := x.v; x.v |= m; return o }

type Int32 struct{ anum[int32] }
type Int64 struct{ anum[int64] }
type Uint32 struct{ anum[uint32] }
type Uint64 struct{ anum[uint64] }
type Uintptr struct{ anum[uintptr] }

type Pointer[T any] struct {
	_ noCopy
	v *T
}

func (x *Pointer[T]) Load() *T   { aopL(unsafe.Pointer(x)); return x.v }
func (x *Pointer[T]) Store(v *T) { aopS(unsafe.Pointer(x)); x.v = v }
func (x *Pointer[T]) Swap(v *T) *T {
	aopX(unsafe.Pointer(x))
	o := x.v
	x.v = v
	return o
}
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	aopX(unsafe.Pointer(x))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Value struct{ v any }

func (x *Value) Load() any   { aopL(unsafe.Pointer(x)); return x.v }
func (x *Value) Store(v any) { aopS(unsafe.Pointer(x)); x.v = v }
func (x *Value) Swap(v any) any {
	aopX(unsafe.Pointer(x))
	o := x.v
	x.v = v
	return o
}
func (x *Value) CompareAndSwap(o, n any) bool {
	aopX(unsafe.Pointer(x))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func aload[T any](p *T) T     { aopP(p, false); return *p }
func astore[T any](p *T, v T) { aopP(p, true); *p = v }
func aadd[T integer](p *T, d T) T {
	aopP(p, true)
	*p += d
	return *p
}
func aswap[T any](p *T, v T) T {
	aopP(p, true)
	o := *p
	*p = v
	return o
}
func acas[T comparable](p *T, o, n T) bool {
	aopP(p, true)
	if *p == o {
		*p = n
		return true
	}
	return false
}

func LoadInt32(p *int32) int32                         { return aload(p) }
func LoadInt64(p *int64) int64                         { return aload(p) }
func LoadUint32(p *uint32) uint32                      { return aload(p) }
func LoadUint64(p *uint64) uint64                      { return aload(p) }
func LoadUintptr(p *uintptr) uintptr                   { return aload(p) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { return aload(p) }
func StoreInt32(p *int32, v int32)                     { astore(p, v) }
func StoreInt64(p *int64, v int64)                     { astore(p, v) }
func StoreUint32(p *uint32, v uint32)                  { astore(p, v) }
func StoreUint64(p *uint64, v uint64)                  { astore(p, v) }
func StoreUintptr(p *uintptr, v uintptr)               { astore(p, v) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { astore(p, v) }
func AddInt32(p *int32, d int32) int32                 { return aadd(p, d) }
func AddInt64(p *int64, d int64) int64                 { return aadd(p, d) }
func AddUint32(p *uint32, d uint32) uint32             { return aadd(p, d) }
func AddUint64(p *uint64, d uint64) uint64             { return aadd(p, d) }
func AddUintptr(p *uintptr, d uintptr) uintptr         { return aadd(p, d) }
func SwapInt32(p *int32, v int32) int32                { return aswap(p, v) }
func SwapInt64(p *int64, v int64) int64                { return aswap(p, v) }
func SwapUint32(p *uint32, v uint32) uint32            { return aswap(p, v) }
func SwapUint64(p *uint64, v uint64) uint64            { return aswap(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	return aswap(p, v)
}
func aand[T integer](p *T, m T) T {
	aopP(p, true)
	o := *p
	*p &= m
	return o
}
func aor[T integer](p *T, m T) T {
	aopP(p, true)
	o := *p
	*p |= m
	return o
}
func SwapUintptr(p *uintptr, v uintptr) uintptr           { return aswap(p, v) }
func AndInt32(p *int32, m int32) int32                    { return aand(p, m) }
func AndInt64(p *int64, m int64) int64                    { return aand(p, m) }
func AndUint32(p *uint32, m uint32) uint32                { return aand(p, m) }
func AndUint64(p *uint64, m uint64) uint64                { return aand(p, m) }
func AndUintptr(p *uintptr, m uintptr) uintptr            { return aand(p, m) }
func OrInt32(p *int32, m int32) int32                     { return aor(p, m) }
func OrInt64(p *int64, m int64) int64                     { return aor(p, m) }
func OrUint32(p *uint32, m uint32) uint32                 { return aor(p, m) }
func OrUint64(p *uint64, m uint64) uint64                 { return aor(p, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr             { return aor(p, m) }
func CompareAndSwapInt32(p *int32, o, n int32) bool       { return acas(p, o, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool       { return acas(p, o, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool    { return acas(p, o, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool    { return acas(p, o, n) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool { return acas(p, o, n) }
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	return acas(p, o, n)
}
