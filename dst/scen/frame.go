// Package scen holds the simulated worlds ("scenarios") that decide the
// properties: workloads, faults and oracles around the real code.
package scen

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"time"

	"simw/simrt"
)

// Scen is one kind of simulated world.
type Scen struct {
	Name   string
	Props  []string
	Weight int
	// Setup may adjust the configuration drawn for the run.
	Setup func(r *R)
	Main  func(r *R)
	// Reached lists probes that a check expects to see counted.
	Reached []string
	Real    []string
	Stub    []string
	// Solo marks worlds in which the code under test is used by one task.
	Solo bool
}

// Cross is the property that every world with more than one task decides:
// freedom from data races.
const Cross = "C27"

var All []*Scen

func register(s *Scen) {
	if s.Weight == 0 {
		s.Weight = 10
	}
	All = append(All, s)
}

// For lists the scenarios of a property.
func For(prop string) []*Scen {
	var out []*Scen
	for _, s := range All {
		if prop == Cross && !s.Solo {
			out = append(out, s)
		}
		for _, p := range s.Props {
			if p == prop {
				out = append(out, s)
			}
		}
	}
	return out
}

// R is one run.
type R struct {
	W    *simrt.World
	Prop string
	as   string // property whose workload is run
	Scen *Scen
	// C decides the configuration, D the input data and workload, F the
	// faults of the environment.
	C, D, F *simrt.Stream
	Faults  bool
	Dumps   bool // the process was started with dumps switched on
	ended   bool
	later   func()
}

// On reports whether the oracle of a property is armed in this run.
func (r *R) On(prop string) bool { return r.as == prop }

// Fail reports a violation of the property being checked.
func (r *R) Fail(class, format string, args ...any) {
	if r.Prop == Cross {
		simrt.Invalidate("behaviour judged by " + r.as)
	}
	simrt.Fail(r.Prop+"/"+class, format, args...)
}

// Check fails unless ok.
func (r *R) Check(ok bool, class, format string, args ...any) {
	if !ok {
		r.Fail(class, format, args...)
	}
}

// Calm stops faults; from then on progress is owed.
func (r *R) Calm() { r.W.Calm() }

// Join requires the task to end within d (bounded liveness).
func (r *R) Join(t *simrt.Task, d time.Duration, class string) {
	if !t.Join(d) {
		r.Fail(class, "%s still blocked in %q %s after it should have ended", t.Name, t.Where(), d)
	}
}

// Finish waits for the task; if it is still going after before, faults stop
// and it must end within after (bounded liveness).
func (r *R) Finish(t *simrt.Task, before, after time.Duration, class string) {
	if t.Join(before) {
		return
	}
	r.Calm()
	if lim := after + r.W.InjectedSince(r.W.Now()); !t.Join(lim) {
		r.Fail(class, "%s still blocked in %q %s after faults stopped", t.Name, t.Where(), lim)
	}
}

// NoLive requires all tasks of the code under test to end within d.
func (r *R) NoLive(d time.Duration, class string) {
	if !simrt.Await(d, func() bool { return len(r.W.Live()) == 0 }) {
		var l []string
		for _, t := range r.W.Live() {
			l = append(l, t.String())
		}
		r.Fail(class, "tasks left behind: %s", strings.Join(l, ", "))
	}
}

// Run executes one world.
type Result struct {
	Scen     string
	Viol     *simrt.Violation
	Invalid  string
	Trace    simrt.Trace
	Hash     uint64
	SchedH   uint64
	Counts   map[string]int64
	Elapsed  time.Duration
	Steps    int
	Stmts    int64
	Tasks    int
	Log      []string
	Faults   bool
	Injected time.Duration
}

// DumpEvery is how rare runs with dumps are.
const DumpEvery = 12

// Exec runs one seed (or replays a trace) of a property.
func Exec(prop, scen string, seed uint64, tr simrt.Trace, keepLog bool) *Result {
	// the debugging dumps can be switched on when the process starts
	simrt.Env = nil
	dumps := seed>>20%DumpEvery == 0
	if dumps {
		simrt.Env = map[string]string{}
		for i, k := range []string{"LK_DUMP_MEDIA", "LK_DUMP_RESAMPLE", "LK_DUMP_G722"} {
			if seed>>(32+i)&1 == 0 {
				simrt.Env[k] = "true"
			}
		}
	}
	simrt.ResetPackages()
	w := simrt.NewWorld(seed, tr)
	w.KeepLog = keepLog
	r := &R{W: w, Prop: prop, Dumps: dumps, C: w.Stream("cfg"), D: w.Stream("data"), F: w.Stream("env")}
	list := For(prop)
	if len(list) == 0 {
		panic("no scenario for " + prop)
	}
	var ws []int
	for _, s := range list {
		ws = append(ws, s.Weight)
	}
	k := r.C.Weighted(ws...)
	r.Scen = list[k]
	if scen != "" {
		for _, s := range list {
			if s.Name == scen {
				r.Scen = s
			}
		}
	}
	r.swarm()
	w.Races = r.C.Bool(1, 4)
	r.as = prop
	if prop == Cross {
		w.Races = true
		r.as = pick(r.C, r.Scen.Props...)
	}
	w.Prefix = prop + "/"
	if r.Scen.Setup != nil {
		r.Scen.Setup(r)
	}
	if dumps {
		w.Log("environment %v", simrt.Env)
	}
	w.Log("scenario %s faults=%v races=%v cfg=%+v", r.Scen.Name, r.Faults, w.Races, cfgText(w.Cfg))
	w.Run(func() { r.Scen.Main(r) })
	w.CountRaces()
	res := &Result{Scen: r.Scen.Name, Viol: w.Viol, Invalid: w.Invalid, Trace: w.Recorded(), Hash: w.Hash(), SchedH: w.SchedH,
		Counts: w.Counts, Elapsed: w.Elapsed(), Steps: w.StepsTaken(), Stmts: w.Stmts(), Tasks: w.Tasks(), Log: w.LogLines(), Faults: r.Faults, Injected: w.Injected}
	return res
}

func cfgText(c simrt.Config) string {
	return fmt.Sprintf("{policy %d ygap %d sgap %d step %s stall %d/%s pause %d/%s wall %d late %s poolmiss %v}",
		c.Policy, c.YGap, c.SGap, c.StepCost, c.StallMean, c.StallMax, c.PauseMean, c.PauseMax, c.WallMean, c.LateMax, c.PoolMiss)
}

func pick[T any](s *simrt.Stream, v ...T) T { return v[s.Int(len(v))] }

// swarm draws the scheduler and fault configuration of a run.
func (r *R) swarm() {
	c, w := r.C, r.W
	r.Faults = c.Bool(3, 4)
	w.Cfg.Policy = []simrt.Policy{simrt.PolicyFIFO, simrt.PolicyUniform, simrt.PolicyPCT, simrt.PolicyLIFO}[c.Weighted(2, 8, 4, 1)]
	w.Cfg.YGap = pick(c, 0, 3, 10, 30, 100, 300, 1000)
	w.Cfg.SGap = pick(c, 0, 1, 2, 5, 20, 100)
	w.Cfg.StepCost = pick(c, 10*time.Nanosecond, 100*time.Nanosecond, time.Microsecond)
	w.Cfg.MaxSteps = 400_000
	if !r.Faults {
		return
	}
	w.Cfg.StallMean = pick(c, 0, 0, 10, 50, 200, 1000)
	w.Cfg.StallMax = pick(c, time.Millisecond, 5*time.Millisecond, 30*time.Millisecond, 300*time.Millisecond)
	w.Cfg.PauseMean = pick(c, 0, 0, 0, 50, 500)
	w.Cfg.PauseMax = pick(c, 2*time.Millisecond, 50*time.Millisecond, 500*time.Millisecond)
	w.Cfg.WallMean = pick(c, 0, 0, 50, 500)
	w.Cfg.LateMax = pick(c, 0, 0, 200*time.Microsecond, 5*time.Millisecond, 40*time.Millisecond)
	w.Cfg.PoolMiss = c.Bool(1, 2)
}

// slack is what scheduling alone may delay things by, injected delays apart.
func (r *R) slack() time.Duration {
	return time.Millisecond
}

func eq[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func clone[T any](a []T) []T { return append([]T(nil), a...) }

func hex(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x..(%d)", b[:24], len(b))
	}
	return fmt.Sprintf("%x", b)
}

var _ = bytes.Equal

func sorted(m map[string]int64) []string {
	var k []string
	for n := range m {
		k = append(k, n)
	}
	sort.Strings(k)
	return k
}
