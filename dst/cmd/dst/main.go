// Command dst explores the simulated worlds of a property.
//
//	dst check  -prop C01 -tier quick -seed 1 -replays DIR -evidence FILE -known FILE
//	dst worker ...            (internal)
//	dst replay FILE
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"simw/scen"
	"simw/simrt"
)

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2:]))
	case "worker":
		worker(os.Args[2:])
	case "replay":
		os.Exit(replayCmd(os.Args[2:]))
	case "one":
		oneCmd(os.Args[2:])
	case "list":
		for _, s := range scen.All {
			fmt.Println(s.Name, s.Props)
		}
	default:
		usage()
	}
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: dst check|replay|one|list ...")
	os.Exit(2)
}

func mix(a, b uint64) uint64 {
	z := a*0x9e3779b97f4a7c15 + b + 0x632be59bd9b4e019
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func seedOf(base uint64, prop string, idx int) uint64 {
	h := base
	for _, c := range []byte(prop) {
		h = mix(h, uint64(c))
	}
	return mix(h, uint64(idx))
}

// ------------------------------------------------------------------ known findings

type finding struct {
	prop, class string
	match       *regexp.Regexp
	what        string
}

// The file has lines
//
//	finding: property=<id> class=<class> match=<regexp> :: <what fails>
//	fixed: property=<id> <commit> <what failed>
func loadKnown(path string) (out []finding) {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^finding: property=(\S+) class=(\S+) match=(.*?) :: (.*)$`)
	for _, l := range strings.Split(string(data), "\n") {
		m := re.FindStringSubmatch(strings.TrimSpace(l))
		if m == nil {
			continue
		}
		out = append(out, finding{m[1], m[2], regexp.MustCompile(m[3]), m[4]})
	}
	return out
}

func matchKnown(kn []finding, prop string, v *simrt.Violation) *finding {
	for i := range kn {
		k := &kn[i]
		if k.prop == prop && k.class == v.Class && k.match.MatchString(v.Msg+"\n"+v.Stack) {
			return k
		}
	}
	return nil
}

// ------------------------------------------------------------------ worker

type wresult struct {
	Runs, Valid, Faulted, Nontrivial int
	Invalid                          map[string]int
	Counts                           map[string]int64
	Scens                            map[string]int
	SimNS                            int64
	Steps                            int64
	MaxStmts                         int64
	Tasks                            int64
	Reruns                           int
	Known                            map[string]int
	Viol                             *simrt.Violation
	VIdx                             int
	VScen                            string
	Trace                            simrt.Trace
	Nondet                           string
	Samples                          []sample
}

type sample struct {
	Idx    int      `json:"run"`
	Seed   string   `json:"seed"`
	Scen   string   `json:"scenario"`
	SimMS  float64  `json:"simulated_ms"`
	Steps  int      `json:"scheduling_steps"`
	Tasks  int      `json:"tasks"`
	Hash   string   `json:"hash"`
	Faults []string `json:"faults,omitempty"`
	Log    []string `json:"log,omitempty"`
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("seed", 1, "")
	k := fs.Int("k", 0, "")
	of := fs.Int("of", 1, "")
	count := fs.Int("count", 1000, "")
	wall := fs.Duration("wall", time.Minute, "")
	out := fs.String("out", "", "")
	known := fs.String("known", "", "")
	only := fs.Int("only", -1, "")
	fs.Parse(args)
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	kn := loadKnown(*known)
	prog, err := os.Create(*out + ".progress")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var curIdx atomic.Int64
	var curAt atomic.Int64
	curAt.Store(time.Now().UnixNano())
	limit := 60 * time.Second
	go func() {
		for {
			time.Sleep(time.Second)
			if time.Since(time.Unix(0, curAt.Load())) > limit {
				fmt.Fprintf(os.Stderr, "watchdog: run %d hangs\n", curIdx.Load())
				buf := make([]byte, 1<<16)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
				os.Exit(7)
			}
		}
	}()
	res := &wresult{Invalid: map[string]int{}, Counts: map[string]int64{}, Scens: map[string]int{}, Known: map[string]int{}}
	seen := map[uint64]struct{}{}
	end := time.Now().Add(*wall)
	for i := *k; i < *count; i += *of {
		if *only >= 0 {
			i = *only
		}
		if time.Now().After(end) {
			break
		}
		curIdx.Store(int64(i))
		curAt.Store(time.Now().UnixNano())
		prog.WriteAt([]byte(fmt.Sprintf("%12d", i)), 0)
		seed := seedOf(*base, *prop, i)
		wantSample := (i/(*of))%4096 == 0 && len(res.Samples) < 2
		x := scen.Exec(*prop, "", seed, nil, wantSample)
		res.Runs++
		res.Scens[x.Scen]++
		res.SimNS += int64(x.Elapsed)
		res.Steps += int64(x.Steps)
		res.MaxStmts = max(res.MaxStmts, x.Stmts)
		res.Tasks += int64(x.Tasks)
		for n, c := range x.Counts {
			res.Counts[n] += c
		}
		if x.Invalid != "" {
			res.Invalid[x.Invalid]++
			continue
		}
		if x.Viol != nil {
			if f := matchKnown(kn, *prop, x.Viol); f != nil {
				res.Known[f.what]++
				continue
			}
			res.Viol, res.VIdx, res.VScen, res.Trace = x.Viol, i, x.Scen, x.Trace
			break
		}
		res.Valid++
		if x.Faults {
			res.Faulted++
		}
		faulted := false
		for n := range x.Counts {
			faulted = faulted || strings.HasPrefix(n, "fault.")
		}
		if faulted || x.Tasks > 2 && x.Steps > 5 {
			res.Nontrivial++
			seen[mix(x.SchedH, x.Hash)] = struct{}{}
		}
		if wantSample {
			s := sample{Idx: i, Seed: fmt.Sprintf("%#x", seed), Scen: x.Scen, SimMS: float64(x.Elapsed) / 1e6, Steps: x.Steps, Tasks: x.Tasks, Hash: fmt.Sprintf("%016x", x.Hash)}
			for _, n := range sortedKeys(x.Counts) {
				if strings.HasPrefix(n, "fault.") {
					s.Faults = append(s.Faults, fmt.Sprintf("%s=%d", n[6:], x.Counts[n]))
				}
			}
			s.Log = x.Log
			if len(s.Log) > 25 {
				s.Log = append(s.Log[:25:25], fmt.Sprintf("... %d more lines", len(x.Log)-25))
			}
			res.Samples = append(res.Samples, s)
		}
		if (i/(*of))%50 == 7 {
			// the same seed gives the same run; so does its recorded trace
			res.Reruns++
			y := scen.Exec(*prop, "", seed, nil, false)
			z := scen.Exec(*prop, "", seed, x.Trace, false)
			if y.Hash != x.Hash || z.Hash != x.Hash {
				res.Nondet = fmt.Sprintf("run %d (seed %#x, scenario %s): hashes %016x, rerun %016x, replay %016x", i, seed, x.Scen, x.Hash, y.Hash, z.Hash)
			}
		}
		if *only >= 0 {
			break
		}
	}
	hs := make([]byte, 0, len(seen)*8)
	for h := range seen {
		hs = binary.LittleEndian.AppendUint64(hs, h)
	}
	if err := os.WriteFile(*out+".hashes", hs, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	data, _ := json.Marshal(res)
	if err := os.WriteFile(*out, data, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for n := range m {
		k = append(k, n)
	}
	sort.Strings(k)
	return k
}

// ------------------------------------------------------------------ replay files

type replayFile struct {
	Property  string      `json:"property"`
	Scenario  string      `json:"scenario"`
	Seed      string      `json:"seed"`
	Kind      string      `json:"kind"` // trace | crash | hang
	Run       int         `json:"run"`
	BaseSeed  uint64      `json:"base_seed"`
	Class     string      `json:"class"`
	Message   string      `json:"message"`
	Stack     string      `json:"stack,omitempty"`
	Hash      string      `json:"hash,omitempty"`
	Choices   int         `json:"choices"`
	Original  int         `json:"choices_before_minimisation"`
	Faults    []string    `json:"faults,omitempty"`
	Trace     simrt.Trace `json:"trace"`
	Log       []string    `json:"log,omitempty"`
	HowReplay string      `json:"how_to_replay"`
}

func size(t simrt.Trace) int {
	n := 0
	for _, r := range t {
		for _, v := range r {
			if v != 0 {
				n++
			}
		}
	}
	return n
}

func length(t simrt.Trace) int {
	n := 0
	for _, r := range t {
		n += len(r)
	}
	return n
}

func copyTrace(t simrt.Trace) simrt.Trace {
	c := simrt.Trace{}
	for k, v := range t {
		c[k] = append([]uint32(nil), v...)
	}
	return c
}

// minimise shrinks the recorded choices while the same violation remains.
func minimise(prop, sc string, seed uint64, tr simrt.Trace, class string, budget time.Duration) (simrt.Trace, int) {
	end := time.Now().Add(budget)
	tries := 0
	best := copyTrace(tr)
	try := func(c simrt.Trace) bool {
		if time.Now().After(end) {
			return false
		}
		tries++
		x := scen.Exec(prop, sc, seed, c, false)
		if x.Viol != nil && x.Viol.Class == class {
			n := x.Trace
			if length(n) <= length(best) || size(n) < size(best) {
				best = copyTrace(n)
			} else {
				best = copyTrace(c)
			}
			return true
		}
		return false
	}
	for round := 0; round < 6 && time.Now().Before(end); round++ {
		before := [2]int{length(best), size(best)}
		names := sortedKeys(best)
		sort.SliceStable(names, func(i, j int) bool { return rank(names[i]) < rank(names[j]) })
		for _, n := range names {
			if len(best[n]) == 0 {
				continue
			}
			c := copyTrace(best)
			delete(c, n)
			if try(c) {
				continue
			}
			// truncate
			for cut := len(best[n]) / 2; cut > 0; cut /= 2 {
				for len(best[n]) > cut {
					c := copyTrace(best)
					c[n] = c[n][:len(c[n])-cut]
					if !try(c) {
						break
					}
				}
			}
			// zero or delete chunks
			for ch := max(len(best[n])/2, 1); ch > 0; ch /= 2 {
				for i := 0; i < len(best[n]) && time.Now().Before(end); i += ch {
					j := min(i+ch, len(best[n]))
					nz := false
					for _, v := range best[n][i:j] {
						if v != 0 {
							nz = true
						}
					}
					if nz {
						c := copyTrace(best)
						for x := i; x < j; x++ {
							c[n][x] = 0
						}
						if try(c) {
							continue
						}
					}
					if n != "cfg" {
						c := copyTrace(best)
						if i < len(c[n]) {
							c[n] = append(c[n][:i], c[n][min(j, len(c[n])):]...)
							if try(c) {
								i -= ch
							}
						}
					}
				}
				if ch == 1 && len(best[n]) > 400 {
					break
				}
			}
			// smaller values
			if len(best[n]) <= 200 {
				for i := 0; i < len(best[n]) && time.Now().Before(end); i++ {
					for i < len(best[n]) && best[n][i] > 1 {
						c := copyTrace(best)
						c[n][i] /= 2
						if !try(c) {
							break
						}
					}
				}
			}
		}
		if before == [2]int{length(best), size(best)} {
			break
		}
	}
	return best, tries
}

func rank(n string) int {
	switch n {
	case "fault":
		return 0
	case "env":
		return 1
	case "sched":
		return 2
	case "cfg":
		return 4
	}
	return 3
}

func replayCmd(args []string) int {
	if len(args) < 1 {
		usage()
	}
	data, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(data, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	seed, _ := strconv.ParseUint(rf.Seed, 0, 64)
	tr := rf.Trace
	if tr == nil {
		tr = simrt.Trace{}
	}
	if rf.Kind != "trace" {
		tr = nil
		go func() {
			time.Sleep(90 * time.Second)
			fmt.Println("run hangs")
			fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, args[0])
			os.Exit(1)
		}()
	}
	x := scen.Exec(rf.Property, rf.Scenario, seed, tr, true)
	for _, l := range x.Log {
		fmt.Println(l)
	}
	if x.Viol == nil {
		fmt.Println("no violation (the code under test may have changed)")
		return 0
	}
	same := ""
	if rf.Kind == "trace" {
		same = " (not the recorded execution)"
		if fmt.Sprintf("%016x", x.Hash) == rf.Hash {
			same = " (identical to the recorded execution)"
		}
	}
	fmt.Printf("%s: %s\n%s\nexecution hash %016x%s\n", x.Viol.Class, x.Viol.Msg, x.Viol.Stack, x.Hash, same)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, args[0])
	return 1
}

func oneCmd(args []string) {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("seed", 1, "")
	idx := fs.Int("idx", 0, "")
	fs.Parse(args)
	x := scen.Exec(*prop, "", seedOf(*base, *prop, *idx), nil, true)
	for _, l := range x.Log {
		fmt.Println(l)
	}
	fmt.Printf("%s viol=%+v invalid=%q steps=%d tasks=%d elapsed=%s hash=%016x\n", x.Scen, x.Viol, x.Invalid, x.Steps, x.Tasks, x.Elapsed, x.Hash)
}

// ------------------------------------------------------------------ check

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	base := fs.Uint64("seed", 1, "")
	replays := fs.String("replays", "", "")
	evidence := fs.String("evidence", "", "")
	known := fs.String("known", "", "")
	rewritten := fs.String("rewritten", "", "")
	wall := fs.Duration("wall", 0, "")
	count := fs.Int("count", 0, "")
	P := fs.Int("p", 0, "")
	fs.Parse(args)
	started := time.Now()
	if len(scen.For(*prop)) == 0 {
		fmt.Fprintf(os.Stderr, "no scenario for property %q\n", *prop)
		return 2
	}
	if *wall == 0 {
		*wall = 40 * time.Second
		if *tier == "thorough" {
			*wall = 8 * time.Minute
		}
	}
	if *count == 0 {
		*count = 1 << 30
	}
	n := *P
	if n == 0 {
		n = min(runtime.NumCPU(), 8)
	}
	tmp, err := os.MkdirTemp("", "dst")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	self, _ := os.Executable()
	kn := loadKnown(*known)
	for _, k := range kn {
		if k.prop == *prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.what)
		}
	}

	type wout struct {
		res  *wresult
		code int
		idx  int
		err  string
	}
	outs := make([]wout, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f := filepath.Join(tmp, fmt.Sprintf("w%d", i))
			outs[i].code, outs[i].err = runWorker(self, *wall+2*time.Minute, "-prop", *prop, "-seed", fmt.Sprint(*base), "-k", fmt.Sprint(i), "-of", fmt.Sprint(n), "-count", fmt.Sprint(*count), "-wall", wall.String(), "-out", f, "-known", *known)
			outs[i].idx = -1
			if b, err := os.ReadFile(f + ".progress"); err == nil {
				if v, err := strconv.Atoi(strings.TrimSpace(string(b))); err == nil {
					outs[i].idx = v
				}
			}
			if b, err := os.ReadFile(f); err == nil {
				r := new(wresult)
				if json.Unmarshal(b, r) == nil {
					outs[i].res = r
				}
			}
		}()
	}
	wg.Wait()

	tot := &wresult{Invalid: map[string]int{}, Counts: map[string]int64{}, Scens: map[string]int{}, Known: map[string]int{}}
	distinct := map[uint64]struct{}{}
	var viol *wresult
	crashIdx, crashErr := -1, ""
	for i, o := range outs {
		if o.res == nil {
			if crashIdx < 0 || (o.idx >= 0 && o.idx < crashIdx) {
				crashIdx, crashErr = o.idx, fmt.Sprintf("worker %d exit %d: %s", i, o.code, tail(o.err, 3000))
			}
			if o.idx < 0 {
				fmt.Fprintf(os.Stderr, "worker %d failed: %s\n", i, tail(o.err, 3000))
				return 2
			}
			continue
		}
		r := o.res
		tot.Runs += r.Runs
		tot.Valid += r.Valid
		tot.Faulted += r.Faulted
		tot.Nontrivial += r.Nontrivial
		tot.SimNS += r.SimNS
		tot.Steps += r.Steps
		tot.MaxStmts = max(tot.MaxStmts, r.MaxStmts)
		tot.Tasks += r.Tasks
		tot.Reruns += r.Reruns
		for k, v := range r.Invalid {
			tot.Invalid[k] += v
		}
		for k, v := range r.Counts {
			tot.Counts[k] += v
		}
		for k, v := range r.Scens {
			tot.Scens[k] += v
		}
		for k, v := range r.Known {
			tot.Known[k] += v
		}
		tot.Samples = append(tot.Samples, r.Samples...)
		if r.Nondet != "" {
			fmt.Printf("WARNING: execution is not deterministic: %s\n", r.Nondet)
			tot.Nondet = r.Nondet
		}
		if r.Viol != nil && (viol == nil || r.VIdx < viol.VIdx) {
			viol = r
		}
		b, _ := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("w%d.hashes", i)))
		for ; len(b) >= 8; b = b[8:] {
			distinct[binary.LittleEndian.Uint64(b)] = struct{}{}
		}
	}
	explore := time.Since(started)
	os.MkdirAll(*replays, 0o755)
	code := 0
	var rf *replayFile
	switch {
	case viol != nil:
		seed := seedOf(*base, *prop, viol.VIdx)
		budget := 20 * time.Second
		if *tier == "thorough" {
			budget = 60 * time.Second
		}
		// if minimisation or replay hang, the violation is reported as it is
		guard := time.AfterFunc(budget+90*time.Second, func() {
			path := filepath.Join(*replays, fmt.Sprintf("%s-%s-%d.json", *prop, *tier, viol.VIdx))
			rf := &replayFile{Property: *prop, Scenario: viol.VScen, Seed: fmt.Sprintf("%#x", seed), Kind: "trace", Run: viol.VIdx, BaseSeed: *base,
				Class: viol.Viol.Class, Message: viol.Viol.Msg, Stack: viol.Viol.Stack, Choices: length(viol.Trace), Original: length(viol.Trace), Trace: viol.Trace,
				HowReplay: "/verif/replay.sh " + path}
			data, _ := json.MarshalIndent(rf, "", " ")
			os.WriteFile(path, data, 0o644)
			fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", viol.Viol.Class, viol.Viol.Msg, *prop, path)
			if *evidence != "" {
				writeEvidence(*evidence, *prop, *tier, *base, tot, len(distinct), 1, started, explore, n, *rewritten)
			}
			os.RemoveAll(tmp)
			os.Exit(1)
		})
		defer guard.Stop()
		tr, tries := minimise(*prop, viol.VScen, seed, viol.Trace, viol.Viol.Class, budget)
		x := scen.Exec(*prop, viol.VScen, seed, tr, true)
		if x.Viol == nil || x.Viol.Class != viol.Viol.Class {
			tr = viol.Trace
			x = scen.Exec(*prop, viol.VScen, seed, tr, true)
		}
		if x.Viol == nil { // it depends on something outside of the simulation
			fmt.Printf("WARNING: the violation of run %d was not met again when the run was repeated\n", viol.VIdx)
			x.Viol = viol.Viol
		}
		rf = &replayFile{Property: *prop, Scenario: viol.VScen, Seed: fmt.Sprintf("%#x", seed), Kind: "trace", Run: viol.VIdx, BaseSeed: *base,
			Class: x.Viol.Class, Message: x.Viol.Msg, Stack: x.Viol.Stack, Hash: fmt.Sprintf("%016x", x.Hash), Choices: length(tr), Original: length(viol.Trace), Trace: tr, Log: x.Log}
		for _, k := range sortedKeys(x.Counts) {
			if strings.HasPrefix(k, "fault.") {
				rf.Faults = append(rf.Faults, fmt.Sprintf("%s=%d", k[6:], x.Counts[k]))
			}
		}
		fmt.Printf("%s\n%s\nrun %d, scenario %s, minimised from %d to %d choices in %d runs\n", x.Viol.Class+": "+x.Viol.Msg, x.Viol.Stack, viol.VIdx, viol.VScen, length(viol.Trace), length(tr), tries)
		code = 1
	case crashIdx >= 0:
		// reproduce in a fresh process
		f := filepath.Join(tmp, "again")
		c, e := runWorker(self, 3*time.Minute, "-prop", *prop, "-seed", fmt.Sprint(*base), "-only", fmt.Sprint(crashIdx), "-out", f, "-known", *known)
		if c == 0 && crashed.MatchString(crashErr) {
			// memory that an earlier run damaged, most likely
			fmt.Printf("WARNING: the crash in run %d was not met again when the run was repeated by itself\n", crashIdx)
			c, e = 1, crashErr
		}
		if c == 0 {
			fmt.Fprintf(os.Stderr, "a worker died on run %d but the run does not fail by itself: %s\n", crashIdx, crashErr)
			return 2
		}
		kind := "crash"
		if c == 7 || c == -2 {
			kind = "hang"
		}
		seed := seedOf(*base, *prop, crashIdx)
		rf = &replayFile{Property: *prop, Seed: fmt.Sprintf("%#x", seed), Kind: kind, Run: crashIdx, BaseSeed: *base, Class: "process-" + kind, Message: tail(e, 4000)}
		fmt.Printf("process %s on run %d\n%s\n", kind, crashIdx, tail(e, 2000))
		code = 1
	case tot.Valid == 0:
		fmt.Fprintf(os.Stderr, "no valid run: %v\n", tot.Invalid)
		return 2
	}
	if rf != nil {
		path := filepath.Join(*replays, fmt.Sprintf("%s-%s-%d.json", *prop, *tier, rf.Run))
		rf.HowReplay = "/verif/replay.sh " + path
		data, _ := json.MarshalIndent(rf, "", " ")
		if err := os.WriteFile(path, data, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if rf.Kind == "trace" {
			out, _ := exec.Command(self, "replay", path).CombinedOutput()
			if !strings.Contains(string(out), "identical to the recorded execution") {
				// the code under test uses something that is not simulated
				fmt.Printf("WARNING: the replay in a fresh process differs from the recorded execution:\n%s\n", tail(string(out), 2000))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
	}
	if *evidence != "" {
		writeEvidence(*evidence, *prop, *tier, *base, tot, len(distinct), code, started, explore, n, *rewritten)
	}
	fmt.Printf("%s %s: %d runs (%d valid, %d distinct), %.0f simulated seconds, %s\n", *prop, *tier, tot.Runs, tot.Valid, len(distinct), float64(tot.SimNS)/1e9, time.Since(started).Round(time.Millisecond))
	return code
}

// crashed: a process that the runtime or the C library ended, not the system.
var crashed = regexp.MustCompile(`SIG(SEGV|ABRT|BUS|ILL|FPE)|fatal error: (unexpected signal|fault|found bad pointer|checkptr)|(malloc|free|realloc)\(\): |double free|corrupted`)

func tail(s string, n int) string {
	if len(s) > n { // the beginning says what happened
		return s[:n/3] + "\n...\n" + s[len(s)-n*2/3:]
	}
	return s
}

func runWorker(self string, limit time.Duration, args ...string) (int, string) {
	cmd := exec.Command(self, append([]string{"worker"}, args...)...)
	var sb strings.Builder
	cmd.Stderr = &sb
	cmd.Stdout = &sb
	if err := cmd.Start(); err != nil {
		return -1, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err == nil {
			return 0, sb.String()
		}
		return max(cmd.ProcessState.ExitCode(), 1), sb.String()
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		return -2, sb.String()
	}
}

func writeEvidence(path, prop, tier string, base uint64, t *wresult, distinct, code int, started time.Time, explore time.Duration, n int, rewritten string) {
	faults, probes, other := map[string]int64{}, map[string]int64{}, map[string]int64{}
	for k, v := range t.Counts {
		switch {
		case strings.HasPrefix(k, "fault."):
			faults[k[6:]] = v
		case strings.HasPrefix(k, "probe."):
			probes[k[6:]] = v
		default:
			if k != "race_checked_accesses" {
				other[k] = v
			}
		}
	}
	real, stub := map[string]bool{}, map[string]bool{}
	var unreached []string
	for _, s := range scen.For(prop) {
		for _, x := range s.Real {
			real[x] = true
		}
		for _, x := range s.Stub {
			stub[x] = true
		}
		for _, x := range s.Reached {
			if prop == scen.Cross {
				break
			}
			if len(x) > 4 && x[3] == ':' {
				if x[:3] != prop {
					continue
				}
				x = x[4:]
			}
			if probes[x] == 0 && faults[x] == 0 && t.Scens[s.Name] > 0 {
				unreached = append(unreached, s.Name+":"+x)
			}
		}
	}
	var rw []string
	if b, err := os.ReadFile(rewritten); err == nil {
		rw = strings.Fields(string(b))
	}
	sort.Slice(t.Samples, func(i, j int) bool { return t.Samples[i].Idx < t.Samples[j].Idx })
	if len(t.Samples) > 3 {
		t.Samples = t.Samples[:3]
	}
	hours := explore.Hours()
	cov := map[string]any{
		"evaluations":         t.Runs,
		"distinct_nontrivial": distinct,
		"rule": "A case is one simulated run: a 64-bit seed decides configuration, workload, schedule (every preemption, select choice, map order, lock hand-over, timer) and faults. " +
			"It is non-trivial when it finished with a verdict, and either had a fault injected or ran more than two tasks with more than five scheduling decisions; distinct means a different combined hash of the sequence of scheduled tasks and of the event log.",
		"samples":                   t.Samples,
		"valid_runs":                t.Valid,
		"runs_with_faults_enabled":  t.Faulted,
		"nontrivial_runs":           t.Nontrivial,
		"discarded_runs":            t.Invalid,
		"runs_per_hour":             int64(float64(t.Runs) / hours),
		"seeds_per_hour":            int64(float64(t.Runs) / hours),
		"base_seed":                 base,
		"workers":                   n,
		"simulated_seconds":         float64(t.SimNS) / 1e9,
		"simulated_per_wall_second": float64(t.SimNS) / 1e9 / explore.Seconds(),
		"scheduling_steps":          t.Steps,
		"longest_run_statements":    t.MaxStmts,
		"simulated_tasks":           t.Tasks,
		"faults_injected":           faults,
		"conditions_reached":        probes,
		"conditions_not_reached":    unreached,
		"other_counts":              other,
		"race_checked_accesses":     t.Counts["race_checked_accesses"],
		"scenarios":                 t.Scens,
		"determinism_reruns":        t.Reruns,
		"determinism_failure":       t.Nondet,
		"known_findings_hit":        t.Known,
		"components_real":           sortedKeys(real),
		"components_stub":           sortedKeys(stub),
		"rewritten_packages":        rw,
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": base, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"Preemption points are statements of the repository's packages and synchronisation operations of rewritten dependencies; reorderings below statement level (weak memory, torn words) are not simulated, but in runs with the happens-before oracle (race_checked_accesses counts what it judged) any pair of conflicting accesses by the repository's packages that no synchronisation orders is a violation.",
			"The simulated runtime (channels, locks, timers, contexts, UDP sockets, files) behaves as the Go runtime documents.",
		},
		"wall_s":     time.Since(started).Seconds(),
		"violations": code,
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, append(data, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}
