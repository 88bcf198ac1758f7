package simrt

import (
	"fmt"
	"iter"
	"maps"
	"reflect"
	"runtime/debug"
	"sort"
	"unsafe"
)

type chst[T any] struct {
	ch     any // keeps the native channel (identity) alive
	cap    int
	buf    []T
	closed bool
	recvq  []*waiter[T]
	sendq  []*waiter[T]
	vc     vclock
	rvc    vclock
}

type waiter[T any] struct {
	t    *Task
	sel  *Sel
	idx  int
	val  T
	ok   bool
	done bool
	out  func(v T, ok bool)
}

func chanKey[C any](ch C) uintptr { return *(*uintptr)(unsafe.Pointer(&ch)) }

func stateOf[T any](ch <-chan T) *chst[T] {
	if ch == nil {
		return nil
	}
	k := chanKey(ch)
	if s, ok := W.chans[k]; ok {
		if st, ok := s.(*chst[T]); ok {
			return st
		}
		panic(fmt.Sprintf("simrt: channel type confusion %T", s))
	}
	st := &chst[T]{ch: ch, cap: cap(ch)}
	W.chans[k] = st
	return st
}

// pull takes over what unrewritten code did to the native channel.
func (s *chst[T]) pull() {
	if s.closed {
		return
	}
	select {
	case v, ok := <-s.ch.(<-chan T):
		if !ok {
			s.closed = true
		} else {
			s.buf = append(s.buf, v)
		}
	default:
	}
}

func (w *waiter[T]) live() bool {
	if w.done {
		return false
	}
	if w.sel != nil && w.sel.fired >= 0 {
		return false
	}
	return true
}

func (w *waiter[T]) complete() {
	w.done = true
	if w.sel != nil {
		w.sel.fired = w.idx
	}
	W.wakeup(w.t)
}

func (s *chst[T]) popRecv() *waiter[T] {
	for len(s.recvq) > 0 {
		w := s.recvq[0]
		s.recvq = s.recvq[1:]
		if w.live() {
			return w
		}
	}
	return nil
}

func (s *chst[T]) popSend() *waiter[T] {
	for len(s.sendq) > 0 {
		w := s.sendq[0]
		s.sendq = s.sendq[1:]
		if w.live() {
			return w
		}
	}
	return nil
}

func (s *chst[T]) canRecv() bool {
	if len(s.buf) > 0 || s.closed {
		return true
	}
	for _, w := range s.sendq {
		if w.live() {
			return true
		}
	}
	s.pull()
	return len(s.buf) > 0 || s.closed
}

func (s *chst[T]) canSend() bool {
	if s.closed || len(s.buf) < s.cap {
		return true
	}
	for _, w := range s.recvq {
		if w.live() {
			return true
		}
	}
	return false
}

// tryRecv requires canRecv.
func (s *chst[T]) doRecv() (v T, ok bool) {
	acquire(s.vc)
	if len(s.buf) > 0 {
		v = s.buf[0]
		var z T
		s.buf[0] = z
		s.buf = s.buf[1:]
		if w := s.popSend(); w != nil {
			s.buf = append(s.buf, w.val)
			if raceOn {
				s.vc.join(w.t.vc)
				w.t.tick()
				releaseTo(w.t)
			}
			w.ok = true
			w.complete()
		}
		release(&s.rvc)
		return v, true
	}
	if w := s.popSend(); w != nil {
		v = w.val
		acquireFrom(w.t)
		releaseTo(w.t)
		w.ok = true
		w.complete()
		return v, true
	}
	if s.closed {
		return v, false
	}
	panic("simrt: doRecv")
}

func (s *chst[T]) doSend(v T) {
	if s.closed {
		panic("send on closed channel")
	}
	if w := s.popRecv(); w != nil {
		w.val, w.ok = v, true
		releaseTo(w.t)
		if s.cap == 0 {
			acquireFrom(w.t)
		}
		w.complete()
		return
	}
	if len(s.buf) < s.cap {
		acquire(s.rvc)
		release(&s.vc)
		s.buf = append(s.buf, v)
		return
	}
	panic("simrt: doSend")
}

func noWorldRecv[T any](ch <-chan T) (T, bool) {
	v, ok := <-ch
	return v, ok
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if W == nil {
		return noWorldRecv(ch)
	}
	S()
	s := stateOf(ch)
	if s == nil {
		block("receive from nil channel")
		panic(killSentinel{})
	}
	if s.canRecv() {
		return s.doRecv()
	}
	w := &waiter[T]{t: cur}
	s.recvq = append(s.recvq, w)
	for !w.done {
		block("chan receive")
	}
	return w.val, w.ok
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Send is ch <- v, as Send(ch)(v).
func Send[T any](ch chan<- T) func(v T) {
	return func(v T) {
		if W == nil {
			ch <- v
			return
		}
		S()
		s := stateOfSend(ch)
		if s == nil {
			block("send to nil channel")
			panic(killSentinel{})
		}
		if s.canSend() {
			s.doSend(v)
			return
		}
		w := &waiter[T]{t: cur, val: v}
		s.sendq = append(s.sendq, w)
		for !w.done {
			block("chan send")
		}
		if !w.ok {
			panic("send on closed channel")
		}
	}
}

func stateOfSend[T any](ch chan<- T) *chst[T] {
	if ch == nil {
		return nil
	}
	return stateOf(*(*<-chan T)(unsafe.Pointer(&ch)))
}

// TrySend sends without blocking, also from scheduler context.
func TrySend[T any](ch chan<- T, v T) bool {
	s := stateOfSend(ch)
	if !s.canSend() {
		return false
	}
	s.doSend(v)
	return true
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if W == nil {
		close(ch)
		return
	}
	if cur != nil {
		S()
	}
	closeNoYield(ch)
}

func closeNoYield[T any](ch chan<- T) {
	if W.killing {
		return
	}
	s := stateOfSend(ch)
	if s == nil {
		panic("close of nil channel")
	}
	if s.closed {
		panic("close of closed channel")
	}
	s.closed = true
	release(&s.vc)
	for {
		w := s.popRecv()
		if w == nil {
			break
		}
		var z T
		w.val, w.ok = z, false
		releaseTo(w.t)
		w.complete()
	}
	for {
		w := s.popSend()
		if w == nil {
			break
		}
		w.ok = false
		w.complete()
	}
}

// Len is len(ch), Cap is cap(ch).
func Len[T any](ch <-chan T) int {
	if W == nil {
		return len(ch)
	}
	if ch == nil {
		return 0
	}
	S()
	s := stateOf(ch)
	s.pull()
	return len(s.buf)
}

func LenS[T any](ch chan<- T) int {
	if W == nil || ch == nil {
		return len(ch)
	}
	S()
	return len(stateOfSend(ch).buf)
}

// RangeChan is range ch.
func RangeChan[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// BlockForever is select {}.
func BlockForever() {
	for {
		block("select {}")
	}
}

// ---------------------------------------------------------------- select

type selCase interface {
	ready() bool
	fire()
	enqueue()
}

// Sel is one execution of a select statement.
type Sel struct {
	t     *Task
	cases []selCase
	fired int
}

func NewSel() *Sel {
	if W == nil {
		panic("simrt: select outside a simulated world")
	}
	return &Sel{t: cur, fired: -1}
}

// RecvCase is a receive case.
type RecvCase[T any] struct {
	sel *Sel
	idx int
	s   *chst[T]
	w   *waiter[T]
	v   T
	ok  bool
}

func SelRecv[T any](sel *Sel, ch <-chan T) *RecvCase[T] {
	c := &RecvCase[T]{sel: sel, idx: len(sel.cases)}
	if ch != nil {
		c.s = stateOf(ch)
	}
	sel.cases = append(sel.cases, c)
	return c
}

func (c *RecvCase[T]) ready() bool { return c.s != nil && c.s.canRecv() }
func (c *RecvCase[T]) fire()       { c.v, c.ok = c.s.doRecv() }
func (c *RecvCase[T]) enqueue() {
	if c.s != nil {
		c.w = &waiter[T]{t: c.sel.t, sel: c.sel, idx: c.idx}
		c.s.recvq = append(c.s.recvq, c.w)
	}
}

// Get returns the received value.
func (c *RecvCase[T]) Get() T {
	if c.w != nil {
		return c.w.val
	}
	return c.v
}

func (c *RecvCase[T]) Get2() (T, bool) {
	if c.w != nil {
		return c.w.val, c.w.ok
	}
	return c.v, c.ok
}

type sendCase[T any] struct {
	sel *Sel
	idx int
	s   *chst[T]
	w   *waiter[T]
	v   T
}

// SelSend adds a send case, as SelSend(sel, ch)(v).
func SelSend[T any](sel *Sel, ch chan<- T) func(v T) {
	return func(v T) {
		c := &sendCase[T]{sel: sel, idx: len(sel.cases), v: v}
		if ch != nil {
			c.s = stateOfSend(ch)
		}
		sel.cases = append(sel.cases, c)
	}
}

func (c *sendCase[T]) ready() bool { return c.s != nil && c.s.canSend() }
func (c *sendCase[T]) fire()       { c.s.doSend(c.v) }
func (c *sendCase[T]) enqueue() {
	if c.s != nil {
		c.w = &waiter[T]{t: c.sel.t, sel: c.sel, idx: c.idx, val: c.v}
		c.s.sendq = append(c.s.sendq, c.w)
	}
}

// Run picks a case; -1 means default. The choice among ready cases comes from
// the schedule.
func (s *Sel) Run(hasDefault bool) int {
	if W.killing {
		panic(killSentinel{})
	}
	S()
	var rd [8]int
	ready := rd[:0]
	for i, c := range s.cases {
		if c.ready() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 {
			k = W.sched.Int(len(ready))
			if W.Cfg.Policy == PolicyFIFO && W.Cfg.SGap == 0 && W.Cfg.YGap == 0 {
				k = 0
			}
		}
		s.fired = ready[k]
		s.cases[ready[k]].fire()
		return ready[k]
	}
	if hasDefault {
		return -1
	}
	for _, c := range s.cases {
		c.enqueue()
	}
	for s.fired < 0 {
		block(fmt.Sprintf("select[%d]", len(s.cases)))
	}
	if sc, ok := s.cases[s.fired].(interface{ sentOK() bool }); ok && !sc.sentOK() {
		panic("send on closed channel")
	}
	return s.fired
}

func (c *sendCase[T]) sentOK() bool { return c.w == nil || c.w.ok }

// ---------------------------------------------------------------- maps

type mapUse struct {
	writer  *Task
	readers map[*Task]int
}

func mapKeyOf[M ~map[K]V, K comparable, V any](m M) uintptr { return *(*uintptr)(unsafe.Pointer(&m)) }

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// mapEnter models the runtime's check for concurrent map use: between enter
// and leave other tasks may run.
func mapEnter(k uintptr, write bool) (leave func()) {
	w := W
	u := w.maps[k]
	if u == nil {
		u = &mapUse{readers: map[*Task]int{}}
		if w.maps == nil {
			w.maps = map[uintptr]*mapUse{}
		}
		w.maps[k] = u
	}
	me := cur
	if u.writer != nil && u.writer != me {
		mapFatal("concurrent map access: task %s is writing the map while %s uses it", u.writer, me)
	}
	if write {
		var first *Task
		for t := range u.readers {
			if t != me && (first == nil || t.id < first.id) {
				first = t
			}
		}
		if first != nil {
			mapFatal("concurrent map access: task %s is reading the map while %s writes it", first, me)
		}
		prev := u.writer
		u.writer = me
		return func() { u.writer = prev }
	}
	u.readers[me]++
	return func() {
		if u.readers[me]--; u.readers[me] <= 0 {
			delete(u.readers, me)
		}
	}
}

func mapFatal(f string, a, b *Task) {
	msg := fmt.Sprintf(f, a.Name, b.Name)
	W.fail("concurrent-map", msg, string(debug.Stack()))
	panic(killSentinel{})
}

// MapW stands for writing to a map, MapR for reading it.
func MapW[M ~map[K]V, K comparable, V any](m M) M {
	noteKeys(m)
	if W == nil || cur == nil || W.killing || m == nil || W.live < 2 {
		return m
	}
	raceMap(mapPtr(m), true, "a map operation")
	leave := mapEnter(mapKeyOf(m), true)
	defer leave()
	Y()
	return m
}

func MapR[M ~map[K]V, K comparable, V any](m M) M {
	noteKeys(m)
	if W == nil || cur == nil || W.killing || m == nil || W.live < 2 {
		return m
	}
	raceMap(mapPtr(m), false, "a map operation")
	leave := mapEnter(mapKeyOf(m), false)
	defer leave()
	Y()
	return m
}

// RangeMap is range over a map in an order chosen by the schedule.
func RangeMap[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		if W != nil && cur != nil && m != nil && !W.killing {
			raceMap(mapPtr(m), false, "a map iteration")
			leave := mapEnter(mapKeyOf(m), false)
			defer leave()
			// the body may write to the map it ranges over
		}
		keys := SortedKeys(m)
		if W != nil && cur != nil && len(keys) > 1 {
			r := W.sched.draw(func(r *rng) uint32 { return uint32(r.next()) & 0xffff })
			if r != 0 {
				g := rng{uint64(r)}
				for i := len(keys) - 1; i > 0; i-- {
					j := int(g.next() % uint64(i+1))
					keys[i], keys[j] = keys[j], keys[i]
				}
			}
		}
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

var ptrTypes = map[reflect.Type]bool{}

// hasPtr tells whether values of a type may hold an address.
func hasPtr(t reflect.Type) bool {
	if v, ok := ptrTypes[t]; ok {
		return v
	}
	v := false
	switch t.Kind() {
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer, reflect.Interface:
		v = true
	case reflect.Array:
		v = hasPtr(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField() && !v; i++ {
			v = hasPtr(t.Field(i).Type)
		}
	}
	ptrTypes[t] = v
	return v
}

// noteKeys numbers the keys of a map that hold addresses in the order in
// which they got there: addresses differ from one execution to the next.
func noteKeys[M ~map[K]V, K comparable, V any](m M) {
	if W == nil || len(m) == 0 || !hasPtr(reflect.TypeFor[K]()) {
		return
	}
	var fresh []K
	for k := range m {
		if _, ok := W.keySeq[k]; !ok {
			fresh = append(fresh, k)
		}
	}
	if len(fresh) > 1 {
		sort.Slice(fresh, func(i, j int) bool { return fmt.Sprintf("%#v", fresh[i]) < fmt.Sprintf("%#v", fresh[j]) })
	}
	for _, k := range fresh {
		if W.keySeq == nil {
			W.keySeq = map[any]int{}
		}
		W.keySeq[k] = len(W.keySeq) + 1
	}
}

// SortedKeys returns the keys in a deterministic order.
func SortedKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	type kk struct {
		k K
		s string
	}
	if W != nil && hasPtr(reflect.TypeFor[K]()) {
		noteKeys(m)
		sort.Slice(keys, func(i, j int) bool { return W.keySeq[keys[i]] < W.keySeq[keys[j]] })
		return keys
	}
	switch reflect.TypeOf(&keys[0]).Elem().Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).Int() < reflect.ValueOf(keys[j]).Int() })
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).Uint() < reflect.ValueOf(keys[j]).Uint() })
	default:
		ks := make([]kk, len(keys))
		for i, k := range keys {
			ks[i] = kk{k, fmt.Sprintf("%#v", k)}
		}
		sort.SliceStable(ks, func(i, j int) bool { return ks[i].s < ks[j].s })
		for i := range ks {
			keys[i] = ks[i].k
		}
	}
	return keys
}

// The functions of package maps, and of golang.org/x/exp/maps.

func XMapsKeys[M ~map[K]V, K comparable, V any](m M) []K {
	out := make([]K, 0, len(m))
	for k := range RangeMap(m) {
		out = append(out, k)
		Y()
	}
	return out
}

func XMapsValues[M ~map[K]V, K comparable, V any](m M) []V {
	out := make([]V, 0, len(m))
	for _, v := range RangeMap(m) {
		out = append(out, v)
		Y()
	}
	return out
}

func MapsKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range RangeMap(m) {
			if !yield(k) {
				return
			}
		}
	}
}

func MapsValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range RangeMap(m) {
			if !yield(v) {
				return
			}
		}
	}
}

func MapsClone[M ~map[K]V, K comparable, V any](m M) M { return maps.Clone(MapR(m)) }

func MapsCopy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) {
	maps.Copy(MapW(dst), MapR(src))
}

func MapsClear[M ~map[K]V, K comparable, V any](m M) { clear(MapW(m)) }
