// Package simrt is the deterministic simulation runtime. Source rewritten by
// /verif/dst/rewrite calls it in place of goroutines, channels, sync, atomic,
// time, context, math/rand, net and os. Exactly one task runs at a time; which
// one, for how long, what the clock says and which faults hit is decided by
// named choice streams that derive from one seed and can be recorded, replayed
// and shrunk.
package simrt

import (
	"container/heap"
	"fmt"
	"iter"
	"math"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// ---------------------------------------------------------------- choices

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func hash64(s string, h uint64) uint64 {
	if h == 0 {
		h = 14695981039346656037
	}
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// Stream is one named sequence of choices. Value 0 is always the simplest one.
type Stream struct {
	name   string
	r      rng
	rec    []uint32
	replay bool
	pos    int
}

// Trace is the recorded choices of a run.
type Trace map[string][]uint32

func (s *Stream) draw(gen func(r *rng) uint32) uint32 {
	if s.replay {
		v := uint32(0)
		if s.pos < len(s.rec) {
			v = s.rec[s.pos]
		}
		s.pos++
		return v
	}
	v := gen(&s.r)
	s.rec = append(s.rec, v)
	return v
}

// Int returns a uniform choice in [0,n).
func (s *Stream) Int(n int) int {
	if n <= 1 {
		return 0
	}
	v := s.draw(func(r *rng) uint32 { return uint32(r.next() % uint64(n)) })
	return int(v % uint32(n))
}

// Bool is true with probability num/den; false is the simple choice.
func (s *Stream) Bool(num, den int) bool {
	v := s.draw(func(r *rng) uint32 {
		if int(r.next()%uint64(den)) < num {
			return 1
		}
		return 0
	})
	return v != 0
}

// Weighted picks an index according to weights.
func (s *Stream) Weighted(w ...int) int {
	v := s.draw(func(r *rng) uint32 {
		t := 0
		for _, x := range w {
			t += x
		}
		k := int(r.next() % uint64(t))
		for i, x := range w {
			if k < x {
				return uint32(i)
			}
			k -= x
		}
		return 0
	})
	return int(v) % len(w)
}

// Range is uniform in [lo,hi]; lo is the simple choice.
func (s *Stream) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + s.Int(hi-lo+1)
}

// Log picks a value in [lo,hi] with a log-uniform distribution.
func (s *Stream) Log(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	n := hi - lo + 1
	v := s.draw(func(r *rng) uint32 {
		u := float64(r.next()>>11) / (1 << 53)
		x := int(math.Exp(u*math.Log(float64(n)+1))) - 1
		if x < 0 {
			x = 0
		}
		if x >= n {
			x = n - 1
		}
		return uint32(x)
	})
	return lo + int(v%uint32(n))
}

func (s *Stream) U32() uint32 {
	return s.draw(func(r *rng) uint32 { return uint32(r.next()) })
}

// Dur is log-uniform between lo and hi with microsecond steps.
func (s *Stream) Dur(lo, hi time.Duration) time.Duration {
	return lo + time.Duration(s.Log(0, int((hi-lo)/time.Microsecond)))*time.Microsecond
}

// ---------------------------------------------------------------- tasks

type taskState uint8

const (
	tsReady taskState = iota
	tsRunning
	tsBlocked
	tsStalled
	tsDone
)

type killSentinel struct{}

// Task is one simulated goroutine.
type Task struct {
	id      int
	Name    string
	Harness bool
	state   taskState
	next    func() (struct{}, bool)
	stop    func()
	yield   func(struct{}) bool
	where   string // what it is blocked on
	prio    int64
	joiners []*Task
	sel     *Sel // waiter bookkeeping
	wake    uint64
	vc      vclock
}

func (t *Task) Done() bool     { return t.state == tsDone }
func (t *Task) Where() string  { return t.where }
func (t *Task) String() string { return fmt.Sprintf("%s#%d(%s)", t.Name, t.id, t.where) }

// ---------------------------------------------------------------- timers

type timerEv struct {
	when time.Duration
	seq  uint64
	idx  int
	f    func()
	vc   vclock
}

type timerHeap []*timerEv

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].when != h[j].when {
		return h[i].when < h[j].when
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) {
	h[i], h[j] = h[j], h[i]
	h[i].idx = i
	h[j].idx = j
}
func (h *timerHeap) Push(x any) { e := x.(*timerEv); e.idx = len(*h); *h = append(*h, e) }
func (h *timerHeap) Pop() any {
	o := *h
	e := o[len(o)-1]
	o[len(o)-1] = nil
	*h = o[:len(o)-1]
	e.idx = -1
	return e
}

// ---------------------------------------------------------------- world

// Policy is a scheduling policy.
type Policy int

const (
	PolicyFIFO Policy = iota
	PolicyUniform
	PolicyPCT
	PolicyLIFO
)

// Config of one run; scenarios set it (usually from the choice streams).
type Config struct {
	Policy    Policy
	YGap      int           // mean statements between preemptions, 0 = never
	SGap      int           // mean sync operations between preemptions, 0 = never
	StepCost  time.Duration // simulated cost of a statement
	StallMean int           // mean scheduling points between stalls, 0 = never
	StallMax  time.Duration
	PauseMean int // mean scheduling points between whole-process pauses
	PauseMax  time.Duration
	WallMean  int           // mean scheduling points between wall clock steps
	LateMax   time.Duration // timers fire late by up to this much
	PoolMiss  bool          // sync.Pool loses entries
	MaxSteps  int
	MaxTime   time.Duration
	MaxStmts  int64
	StallOnly func(t *Task) bool
}

// Violation is what a run ended with.
type Violation struct {
	Class string
	Msg   string
	Stack string
}

// World is one simulated execution.
type World struct {
	Cfg      Config
	Seed     uint64
	now      time.Duration // monotonic
	wall     time.Duration // wall clock offset
	tasks    []*Task
	live     int
	ready    []*Task
	timers   timerHeap
	tseq     uint64
	steps    int
	stmts    int64
	streams  map[string]*Stream
	replay   Trace
	Viol     *Violation
	Invalid  string
	Counts   map[string]int64
	log      []string
	logHash  uint64
	SchedH   uint64
	KeepLog  bool
	killing  bool
	chans    map[uintptr]any
	maps     map[uintptr]*mapUse
	keySeq   map[any]int // keys that hold addresses, in order of appearance
	id       uint64
	sched    *Stream
	fault    *Stream
	stallIn  int
	pauseIn  int
	wallIn   int
	Injected time.Duration // total of injected stalls, pauses and lateness
	pctLow   int64
	pctLeft  []int
	cleanups []func()
	injs     [][2]time.Duration
	rnd      rng
	rndInit  bool
	Disk     *Disk
	Net      *NetStack
	mainDone bool
	yieldOff int
	muts     int
	Values   map[any]any
	Prefix   string // of violation classes raised here
	Races    bool   // happens-before oracle on
	tired    bool
	raceN    int64
	shadow   map[unsafe.Pointer]*shadowCell
	addrs    map[unsafe.Pointer]*vclock
	evVC     vclock // clock of the timer event being run
	ioVC     vclock
}

var (
	W       *World
	cur     *Task
	ygap    int64 = math.MaxInt64
	sgap    int64 = math.MaxInt64
	ycount  int64
	worldID uint64
)

// NewWorld makes a world for a seed; with a trace it replays that trace.
var resets []func()

// OnReset registers how a package returns to the state of a fresh process.
// Packages register in the order of their initialisation.
func OnReset(f func()) { resets = append(resets, f) }

// Env is the environment of the simulated process.
var Env map[string]string

func OsGetenv(k string) string { return Env[k] }

func OsLookupEnv(k string) (string, bool) {
	v, ok := Env[k]
	return v, ok
}

// ResetPackages puts package-level state back to that of a fresh process.
func ResetPackages() {
	W = nil
	for _, f := range resets {
		f()
	}
}

func NewWorld(seed uint64, replay Trace) *World {
	worldID++
	w := &World{Seed: seed, replay: replay, streams: map[string]*Stream{}, Counts: map[string]int64{},
		chans: map[uintptr]any{}, id: worldID, Values: map[any]any{}}
	w.Cfg.StepCost = 10
	w.Cfg.MaxSteps = 3_000_000
	w.Cfg.MaxTime = time.Hour
	w.Cfg.MaxStmts = 10_000_000
	w.sched = w.Stream("sched")
	w.fault = w.Stream("fault")
	w.Disk = newDisk(w)
	w.Net = newNetStack(w)
	w.now = time.Hour
	return w
}

// Stream returns the choice stream of that name.
func (w *World) Stream(name string) *Stream {
	if s := w.streams[name]; s != nil {
		return s
	}
	s := &Stream{name: name, r: rng{hash64(name, w.Seed*0x9e3779b97f4a7c15^0xabcdef)}}
	s.r.next()
	if w.replay != nil {
		s.replay = true
		s.rec = w.replay[name]
	}
	w.streams[name] = s
	return s
}

// Recorded returns the choices made.
func (w *World) Recorded() Trace {
	t := Trace{}
	for n, s := range w.streams {
		r := s.rec
		if s.replay && s.pos < len(r) {
			r = r[:s.pos]
		}
		for len(r) > 0 && r[len(r)-1] == 0 {
			r = r[:len(r)-1]
		}
		if len(r) > 0 {
			t[n] = r
		}
	}
	return t
}

// Count adds to a named counter (faults, probes).
func (w *World) Count(name string) { w.Counts[name]++ }

// Probe records that a rare condition was reached in the running world.
func Probe(name string) {
	if W != nil {
		W.Counts["probe."+name]++
	}
}

// Fault records that a fault fired.
func Fault(name string) {
	if W != nil {
		W.Counts["fault."+name]++
	}
}

// Log adds a line to the event log (kept only when reporting, always hashed).
func (w *World) Log(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	w.logHash = hash64(s, w.logHash+1)
	if w.KeepLog && len(w.log) < 20000 {
		n := "-"
		if cur != nil {
			n = fmt.Sprintf("%s#%d", cur.Name, cur.id)
		}
		w.log = append(w.log, fmt.Sprintf("%12s %-24s %s", w.Elapsed(), n, s))
	}
}

func Log(format string, args ...any) {
	if W != nil {
		W.Log(format, args...)
	}
}

func (w *World) LogLines() []string { return w.log }
func (w *World) Hash() uint64 {
	h := w.logHash
	h = h*31 + w.SchedH
	h = h*31 + uint64(w.now)
	keys := make([]string, 0, len(w.Counts))
	for k := range w.Counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		h = hash64(k, h+1)*31 + uint64(w.Counts[k])
	}
	return h
}

// Now is the simulated monotonic time.
func (w *World) Now() time.Duration {
	if ycount != 0 && W == w {
		w.now += time.Duration(ycount) * w.Cfg.StepCost
		w.stmts += ycount
		ycount = 0
	}
	return w.now
}

func Now() time.Duration { return W.Now() }
func Steps() int         { return W.steps }

// Busy is the simulated processor time used so far.
func (w *World) Busy() time.Duration {
	w.Now()
	return time.Duration(w.stmts) * w.Cfg.StepCost
}

// Elapsed since the start of the world.
func (w *World) Elapsed() time.Duration { return w.Now() - time.Hour }

func (w *World) setGaps() {
	ygap = w.drawGap(w.Cfg.YGap, maxYGap)
	sgap = w.drawGap(w.Cfg.SGap, maxSGap)
	w.stallIn = w.drawFGap(w.Cfg.StallMean)
	w.pauseIn = w.drawFGap(w.Cfg.PauseMean)
	w.wallIn = w.drawFGap(w.Cfg.WallMean)
}

// Even without configured preemption a task is preempted now and then, so
// that a loop that never blocks cannot hold up the simulation.
const (
	maxYGap = 200_000
	maxSGap = 5_000
)

func (w *World) drawGap(mean int, most int64) int64 {
	if mean <= 0 {
		return most
	}
	v := w.sched.draw(func(r *rng) uint32 { return geo(r, mean) })
	if v == 0 {
		return most
	}
	return min(int64(v)-1, most)
}

func (w *World) drawFGap(mean int) int {
	if mean <= 0 {
		return math.MaxInt
	}
	v := w.fault.draw(func(r *rng) uint32 { return geo(r, mean) })
	if v == 0 {
		return math.MaxInt
	}
	return int(v)
}

func geo(r *rng, mean int) uint32 {
	u := (float64(r.next()>>11) + 0.5) / (1 << 53)
	x := 1 - math.Log(u)*float64(mean)
	if x > 1e9 {
		x = 1e9
	}
	return uint32(x)
}

// Calm switches all faults and preemption off: from here on the run is a
// fair first-in-first-out schedule (used to state bounded liveness).
func (w *World) Calm() {
	w.Cfg.Policy = PolicyFIFO
	w.Cfg.YGap, w.Cfg.SGap = 0, 0
	w.Cfg.StallMean, w.Cfg.PauseMean, w.Cfg.WallMean, w.Cfg.LateMax = 0, 0, 0, 0
	ygap, sgap = maxYGap, maxSGap
	w.stallIn, w.pauseIn, w.wallIn = math.MaxInt, math.MaxInt, math.MaxInt
	for _, t := range w.tasks {
		if t.state == tsStalled {
			t.state = tsReady
			w.ready = append(w.ready, t)
		}
	}
}

// at schedules f in scheduler context.
func (w *World) at(when time.Duration, f func()) *timerEv {
	w.tseq++
	e := &timerEv{when: when, seq: w.tseq, f: f}
	if raceOn && W == w {
		e.vc = releaseVC()
	}
	heap.Push(&w.timers, e)
	return e
}

func (w *World) unat(e *timerEv) bool {
	if e == nil || e.idx < 0 {
		return false
	}
	heap.Remove(&w.timers, e.idx)
	return true
}

// At runs f (which must not block) at simulated time when.
func (w *World) At(when time.Duration, f func()) { w.at(when, f) }

// After runs f (which must not block) after d.
func (w *World) After(d time.Duration, f func()) { w.at(w.Now()+d, f) }

func (w *World) spawn(name string, harness bool, f func()) *Task {
	t := &Task{id: len(w.tasks), Name: name, Harness: harness}
	w.tasks = append(w.tasks, t)
	w.live++
	if w.Cfg.Policy == PolicyPCT {
		t.prio = int64(w.sched.draw(func(r *rng) uint32 { return uint32(r.next() % 1000000) })) + 1000000
	}
	if raceOn {
		w.born(t)
	}
	t.next, t.stop = iter.Pull(func(yield func(struct{}) bool) {
		t.yield = yield
		defer func() {
			r := recover()
			if r != nil {
				if _, ok := r.(killSentinel); !ok && !w.killing {
					w.fail("panic", fmt.Sprintf("panic in %s: %v", t.Name, r), string(debug.Stack()))
				}
			}
			t.state = tsDone
			w.live--
			for _, j := range t.joiners {
				w.wakeup(j)
			}
			t.joiners = nil
		}()
		f()
	})
	t.state = tsReady
	w.ready = append(w.ready, t)
	return t
}

// Spawn starts a harness task.
func (w *World) Spawn(name string, f func()) *Task {
	return w.spawn(name, true, f)
}

// Spawn starts a harness task in the running world.
func Spawn(name string, f func()) *Task { return W.spawn(name, true, f) }

// Go is the rewritten go statement.
func Go(name string, f func()) {
	if W == nil || cur == nil {
		if W != nil && !W.killing {
			W.spawn(name, false, f)
			return
		}
		if W != nil {
			return
		}
		panic("simrt: go statement outside a simulated world: " + name)
	}
	if W.killing {
		return
	}
	W.spawn(name, false, f)
	S()
}

func (w *World) fail(class, msg, stack string) {
	if w.Viol == nil {
		w.Viol = &Violation{Class: class, Msg: msg, Stack: trimStack(stack)}
		w.Log("VIOLATION %s: %s", class, msg)
	}
}

// Fail records a violation and ends the run.
func Fail(class, format string, args ...any) {
	W.fail(class, fmt.Sprintf(format, args...), "")
	if cur != nil && !W.killing {
		panic(killSentinel{})
	}
}

// Invalidate ends the run without verdict (counted, never a violation).
func Invalidate(why string) {
	if W.Invalid == "" {
		W.Invalid = why
	}
	panic(killSentinel{})
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.Contains(l, "simw/x/") || strings.Contains(l, "simw/scen") {
			loc := strings.TrimSpace(lines[i+1])
			if k := strings.Index(loc, " +0x"); k > 0 {
				loc = loc[:k]
			}
			if k := strings.Index(l, "("); k > 0 && strings.HasSuffix(l, ")") {
				if j := strings.LastIndex(l, "("); j > 0 {
					l = l[:j]
				}
			}
			if k := strings.Index(loc, "/x/"); k >= 0 {
				loc = loc[k+3:]
			}
			out = append(out, l+" at "+loc)
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// park gives the processor back to the scheduler. The caller has set state.
func park(t *Task) {
	if W.killing {
		panic(killSentinel{})
	}
	cur = nil
	if !t.yield(struct{}{}) {
		cur = t
		panic(killSentinel{})
	}
	if W.killing {
		cur = t
		panic(killSentinel{})
	}
}

func (w *World) wakeup(t *Task) {
	if t.state == tsBlocked {
		t.state = tsReady
		t.where = ""
		w.ready = append(w.ready, t)
	}
}

// block parks the current task until wakeup.
func block(where string) {
	t := cur
	if t == nil {
		panic("simrt: blocking operation outside a task: " + where)
	}
	if W.killing {
		panic(killSentinel{})
	}
	t.state = tsBlocked
	t.where = where
	park(t)
}

// Y is inserted before every statement of the code under test.
func Y() {
	ycount++
	if ygap--; ygap < 0 {
		yslow()
	}
}

func yslow() {
	w := W
	if w == nil || w.killing {
		ygap = 1 << 20
		return
	}
	if cur == nil || w.yieldOff > 0 {
		ygap = 0
		return
	}
	w.preempt()
	ygap = w.drawGap(w.Cfg.YGap, maxYGap)
}

// S is called at every synchronisation operation.
func S() {
	ycount++
	if sgap--; sgap < 0 {
		sslow()
	}
}

func sslow() {
	w := W
	if w == nil || w.killing {
		sgap = 1 << 10
		return
	}
	if cur == nil || w.yieldOff > 0 {
		sgap = 0
		return
	}
	w.preempt()
	sgap = w.drawGap(w.Cfg.SGap, maxSGap)
}

// preempt puts the current task at the back of the ready queue.
func (w *World) preempt() {
	t := cur
	t.state = tsReady
	w.ready = append(w.ready, t)
	park(t)
}

// Yield lets other tasks run (harness use).
func Yield() {
	if cur != nil && !W.killing {
		W.preempt()
	}
}

// Atomically runs f without preemption (harness bookkeeping).
func Atomically(f func()) {
	W.yieldOff++
	defer func() { W.yieldOff-- }()
	f()
}

func Gosched() {
	if W != nil && cur != nil && !W.killing {
		W.preempt()
	}
}

// Join waits for a task at most d; false on timeout.
func (t *Task) Join(d time.Duration) bool {
	if t.state == tsDone {
		acquire(t.vc)
		return true
	}
	me := cur
	t.joiners = append(t.joiners, me)
	timedOut := false
	var e *timerEv
	if d >= 0 {
		e = W.at(W.Now()+d, func() { timedOut = true; W.wakeup(me) })
	}
	for t.state != tsDone && !timedOut {
		block("join " + t.Name)
	}
	W.unat(e)
	if t.state == tsDone {
		acquire(t.vc)
	}
	return t.state == tsDone
}

// Sleep is time.Sleep.
func Sleep(d time.Duration) {
	if W == nil || cur == nil {
		return
	}
	if d <= 0 {
		S()
		return
	}
	me := cur
	w := W
	if w.killing {
		panic(killSentinel{})
	}
	done := false
	w.at(w.Now()+d+w.late(d), func() { done = true; w.wakeup(me) })
	for !done {
		block("sleep")
	}
}

// SleepExact is Sleep without injected lateness (harness use).
func SleepExact(d time.Duration) {
	me := cur
	w := W
	done := false
	w.at(w.Now()+d, func() { done = true; w.wakeup(me) })
	for !done {
		block("sleep")
	}
}

// Await polls cond until it holds or d has passed.
func Await(d time.Duration, cond func() bool) bool {
	end := W.Now() + d
	for {
		if cond() {
			SyncAll()
			return true
		}
		if W.Now() >= end {
			return false
		}
		SleepExact(min(max((end-W.Now())/64, 50*time.Microsecond), 5*time.Millisecond))
	}
}

func (w *World) inject(from, d time.Duration) {
	w.Injected += d
	w.injs = append(w.injs, [2]time.Duration{from, from + d})
}

// InjectedSince bounds the injected delay that can have held something up
// between t and now: the total length of all stalls, pauses and late timers
// that had not ended by t.
func (w *World) InjectedSince(t time.Duration) time.Duration {
	sum := time.Duration(0)
	for _, x := range w.injs {
		if x[1] >= t {
			sum += x[1] - x[0]
		}
	}
	return sum
}

// InjectedIn is the total length of all injected delays that overlap [from, to].
func (w *World) InjectedIn(from, to time.Duration) time.Duration {
	sum := time.Duration(0)
	for _, x := range w.injs {
		if x[1] >= from && x[0] <= to {
			sum += x[1] - x[0]
		}
	}
	return sum
}

func (w *World) late(after time.Duration) time.Duration {
	if w.Cfg.LateMax <= 0 {
		return 0
	}
	k := w.fault.draw(func(r *rng) uint32 {
		if r.next()%4 != 0 {
			return 0
		}
		return uint32(r.next() % uint64(w.Cfg.LateMax/time.Microsecond+1))
	})
	d := time.Duration(k) * time.Microsecond
	if d > 0 {
		w.Counts["fault.timer-late"]++
		if d > w.Cfg.LateMax {
			d = w.Cfg.LateMax
		}
		w.inject(w.now+after, d)
	}
	return d
}

// Run executes main as the first task until it returns (or the run ends).
func (w *World) Run(main func()) {
	if W != nil {
		panic("simrt: nested world")
	}
	W = w
	ycount = 0
	raceOn = w.Races
	if raceOn {
		w.shadow = map[unsafe.Pointer]*shadowCell{}
		w.addrs = map[unsafe.Pointer]*vclock{}
	}
	mt := w.spawn("main", true, main)
	w.setGaps()
	if w.Cfg.Policy == PolicyPCT {
		n := w.sched.Int(4) + 1
		for i := 0; i < n; i++ {
			w.pctLeft = append(w.pctLeft, w.sched.Log(1, 3000))
		}
	}
	for w.Viol == nil && w.Invalid == "" && mt.state != tsDone {
		w.step()
	}
	w.mainDone = mt.state == tsDone
	w.finish()
}

func (w *World) step() {
	w.Now()
	for len(w.timers) > 0 && w.timers[0].when <= w.now {
		e := heap.Pop(&w.timers).(*timerEv)
		w.evVC = e.vc
		e.f()
		w.evVC = nil
	}
	if len(w.ready) == 0 {
		if len(w.timers) == 0 {
			w.fail("deadlock", "no task can run: "+w.taskList(), "")
			return
		}
		w.now = w.timers[0].when
		if w.now-time.Hour > w.Cfg.MaxTime {
			w.fail("livelock", fmt.Sprintf("run did not finish within %s of simulated time: %s", w.Cfg.MaxTime, w.taskList()), "")
		}
		return
	}
	w.steps++
	if w.stmts > w.Cfg.MaxStmts {
		w.fail("livelock", fmt.Sprintf("run did not finish within %d statements: %s", w.Cfg.MaxStmts, w.taskList()), "")
		return
	}
	if w.steps > w.Cfg.MaxSteps {
		if w.steps > 10*w.Cfg.MaxSteps {
			w.fail("livelock", fmt.Sprintf("run did not finish within %d scheduling steps: %s", 10*w.Cfg.MaxSteps, w.taskList()), "")
			return
		}
		w.tire()
	}
	i := w.pick()
	t := w.ready[i]
	copy(w.ready[i:], w.ready[i+1:])
	w.ready = w.ready[:len(w.ready)-1]
	if w.stallIn--; w.stallIn < 0 {
		w.stallIn = w.drawFGap(w.Cfg.StallMean)
		if w.Cfg.StallOnly == nil || w.Cfg.StallOnly(t) {
			d := w.fault.Dur(0, w.Cfg.StallMax)
			if d > 0 {
				w.Counts["fault.stall"]++
				w.inject(w.now, d)
				w.Log("stall %s for %s", t.Name, d)
				t.state = tsStalled
				w.at(w.now+d, func() {
					if t.state == tsStalled {
						t.state = tsReady
						w.ready = append(w.ready, t)
					}
				})
				return
			}
		}
	}
	if w.pauseIn--; w.pauseIn < 0 {
		w.pauseIn = w.drawFGap(w.Cfg.PauseMean)
		if d := w.fault.Dur(0, w.Cfg.PauseMax); d > 0 {
			w.Counts["fault.pause"]++
			w.inject(w.now, d)
			w.Log("process paused for %s", d)
			w.now += d
		}
	}
	if w.wallIn--; w.wallIn < 0 {
		w.wallIn = w.drawFGap(w.Cfg.WallMean)
		if k := w.fault.Int(4); k > 0 {
			w.Counts["fault.wall-clock-step"]++
			d := []time.Duration{0, -time.Hour, time.Hour, 137 * time.Millisecond}[k]
			w.wall += d
			w.Log("wall clock stepped by %s", d)
		}
	}
	t.state = tsRunning
	w.SchedH = (w.SchedH ^ uint64(t.id+1)) * 1099511628211
	cur = t
	t.next()
	cur = nil
}

// tire ends preemption and schedule faults in a run that has become long, so
// that a heavy workload ends and only a real livelock does not.
func (w *World) tire() {
	if w.tired {
		return
	}
	w.tired = true
	w.Log("long run: no more preemption or schedule faults")
	c := &w.Cfg
	c.YGap, c.SGap, c.StallMean, c.PauseMean, c.WallMean, c.Policy = 0, 0, 0, 0, 0, PolicyFIFO
	ygap, sgap = maxYGap, maxSGap
	w.stallIn, w.pauseIn, w.wallIn = math.MaxInt, math.MaxInt, math.MaxInt
	w.Counts["long_runs"]++
}

func (w *World) pick() int {
	n := len(w.ready)
	if n == 1 {
		return 0
	}
	switch w.Cfg.Policy {
	case PolicyUniform:
		return w.sched.Int(n)
	case PolicyLIFO:
		v := w.sched.draw(func(r *rng) uint32 { return uint32(n - 1) })
		return int(v) % n
	case PolicyPCT:
		v := w.sched.draw(func(r *rng) uint32 {
			best := 0
			for i, t := range w.ready {
				if t.prio > w.ready[best].prio {
					best = i
				}
			}
			for k := range w.pctLeft {
				w.pctLeft[k]--
				if w.pctLeft[k] == 0 {
					w.pctLow++
					w.ready[best].prio = -w.pctLow
				}
			}
			return uint32(best)
		})
		return int(v) % n
	}
	return 0
}

func (w *World) taskList() string {
	var out []string
	for _, t := range w.tasks {
		if t.state != tsDone {
			out = append(out, t.String())
		}
	}
	if len(out) > 12 {
		out = append(out[:12], "...")
	}
	return strings.Join(out, ", ")
}

// Live lists unfinished tasks of the code under test.
func (w *World) Live() []*Task {
	var out []*Task
	for _, t := range w.tasks {
		if t.state != tsDone && !t.Harness {
			out = append(out, t)
		}
	}
	return out
}

func (w *World) finish() {
	w.killing = true
	ygap, sgap = math.MaxInt64, math.MaxInt64
	for i := 0; i < len(w.tasks); i++ {
		t := w.tasks[i]
		if t.state != tsDone {
			cur = t
			t.stop()
			t.state = tsDone
		}
	}
	cur = nil
	raceOn = false
	w.shadow, w.addrs = nil, nil
	for _, f := range w.cleanups {
		f()
	}
	W = nil
	ycount = 0
}

// InTask reports whether a simulated task is running.
func InTask() bool { return W != nil && cur != nil && !W.killing }

// StepsTaken is the number of scheduling steps.
func (w *World) StepsTaken() int { return w.steps }

// Stmts is the number of statements and synchronisation operations run.
func (w *World) Stmts() int64 { return w.stmts }

// Tasks is the number of tasks created.
func (w *World) Tasks() int { return len(w.tasks) }

// CurName names the running task.
func CurName() string {
	if cur == nil {
		return "-"
	}
	return fmt.Sprintf("%s#%d", cur.Name, cur.id)
}

// Catch runs f and returns what it panicked with, if anything.
func Catch(f func()) (p any) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(killSentinel); ok {
				panic(x)
			}
			if W != nil && W.killing {
				panic(x)
			}
			p = x
		}
	}()
	f()
	return nil
}
