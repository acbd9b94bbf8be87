// Command simcheck decides one property by seeded search over simulated runs.
//
//	simcheck -prop M01 -tier quick -seed 1 -dur 20s -out /verif
//	simcheck -replay FILE            (re-executes a violation, exit 1)
//	simcheck -prop M01 -one 42 -v    (one seed, with its event log)
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	logrus "github.com/sirupsen/logrus"

	"verif.local/sim/props"
	"verif.local/sim/simrt"
)

type Replay struct {
	Property  string         `json:"property"`
	Failure   *simrt.Failure `json:"failure"`
	Known     bool           `json:"known,omitempty"`
	Minimised bool           `json:"minimised"`
	Original  string         `json:"original_size"`
	Size      string         `json:"size"`
	Ops       []string       `json:"operations"`
	Trace     *simrt.Trace   `json:"trace"`
	Full      *simrt.Trace   `json:"full,omitempty"` // between worker and parent
	FullOps   []string       `json:"full_ops,omitempty"`
}

type workerOut struct {
	Runs, Nontrivial int64
	SimNs            int64
	Steps, Switches  int64
	WallS            float64
	Stats, Probes    map[string]int64
	Interleavings    []uint64
	States           []uint64
	Rechecked        int64
	Known            map[string]int64
	Broken           string
	BrokenSeed       uint64
	Violation        *Replay
	Sample           []string
	MaxSteps         int64
	Reached          []int
}

var (
	fProp    = flag.String("prop", "", "")
	fTier    = flag.String("tier", "quick", "")
	fSeed    = flag.Uint64("seed", 1, "")
	fDur     = flag.Duration("dur", 20*time.Second, "search time")
	fOut     = flag.String("out", "", "directory holding evidence/ and replays/")
	fSites   = flag.String("sites", "", "")
	fKnown   = flag.String("known", "", "known findings file")
	fWorker  = flag.Int("worker", -1, "")
	fStride  = flag.Int("stride", 1, "")
	fReplay  = flag.String("replay", "", "")
	fOne     = flag.Int64("one", -1, "")
	fV       = flag.Bool("v", false, "")
	fRuns    = flag.Int64("runs", 0, "stop after that many runs per worker")
	fList    = flag.Bool("list", false, "")
	fJobs    = flag.Int("jobs", 0, "")
	fReached = flag.String("reached", "", "file to list the reached statements in")
	fOutcome = flag.Bool("outcome", false, "with -replay: print the outcome as JSON")
	fStart   = flag.Int64("start", 0, "")
)

func main() {
	flag.Parse()
	if f := os.Getenv("SIMPROF"); f != "" && *fWorker == 0 {
		if o, err := os.Create(f); err == nil {
			_ = pprof.StartCPUProfile(o)
			defer pprof.StopCPUProfile()
		}
	}
	logrus.SetOutput(io.Discard)
	log.SetOutput(io.Discard)
	if *fList {
		fmt.Println(strings.Join(props.IDs(), " "))
		return
	}
	if *fSites != "" {
		if b, err := os.ReadFile(*fSites); err == nil {
			simrt.Sites = strings.Split(string(b), "\n")
		}
	}
	if *fReplay != "" {
		os.Exit(doReplay(*fReplay))
	}
	p := props.All[*fProp]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		os.Exit(2)
	}
	if *fOne >= 0 {
		quiet()
		setup(p)
		var lf func(string)
		if *fV {
			lf = func(s string) { fmt.Fprintln(os.Stderr, s) }
		}
		t0 := time.Now()
		res := props.Execute(p, seedOf(*fOne), nil, lf)
		fmt.Fprintf(os.Stderr, "seed %d: fail=%v broken=%q hash=%x steps=%d switches=%d sim=%.1fs wall=%v probes=%v stats=%v nontrivial=%v\n", *fOne, res.Fail, res.Broken, res.Hash, res.Steps, res.Switches,
			float64(res.SimNs)/1e9, time.Since(t0), res.Probes, res.Stats, res.Nontrivial)
		if res.Fail != nil {
			fmt.Fprintln(os.Stderr, res.Fail.Class+": "+res.Fail.Msg)
			os.Exit(1)
		}
		return
	}
	if *fWorker >= 0 {
		worker(p)
		return
	}
	os.Exit(parent(p))
}

// quiet sends what the code under test prints to /dev/null (stdout only).
var stdout = os.Stdout

func quiet() {
	if n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = n
	}
}

func setup(p *props.Prop) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	if p.Setup != nil {
		p.Setup()
	}
}

func seedOf(i int64) uint64 { return *fSeed*1_000_003 + uint64(i) }

// known findings: lines "KNOWN property=<id> class=<class> match=<regexp> what=<text>"
type known struct {
	prop, class string
	re          *regexp.Regexp
	what        string
}

func loadKnown(path, prop string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var ks []known
	re := regexp.MustCompile(`^KNOWN property=(\S+) class=(\S+) match=/(.*)/ what=(.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil && m[1] == prop {
			ks = append(ks, known{m[1], m[2], regexp.MustCompile(m[3]), m[4]})
		}
	}
	return ks
}

func matchKnown(ks []known, f *simrt.Failure) (known, bool) {
	for _, k := range ks {
		if k.class == f.Class && k.re.MatchString(f.Msg) {
			return k, true
		}
	}
	return known{}, false
}

func worker(p *props.Prop) {
	quiet()
	setup(p)
	ks := loadKnown(*fKnown, p.ID)
	o := &workerOut{Stats: map[string]int64{}, Probes: map[string]int64{}, Known: map[string]int64{}}
	inter := map[uint64]bool{}
	states := map[uint64]bool{}
	t0 := time.Now()
	defer func() {
		o.WallS = time.Since(t0).Seconds()
		for h := range inter {
			o.Interleavings = append(o.Interleavings, h)
		}
		for h := range states {
			o.States = append(o.States, h)
		}
		for i, ok := range simrt.Reached {
			if ok {
				o.Reached = append(o.Reached, i)
			}
		}
		json.NewEncoder(stdout).Encode(o)
	}()
	for i := *fStart + int64(*fWorker); ; i += int64(*fStride) {
		if time.Since(t0) > *fDur || *fRuns > 0 && o.Runs >= *fRuns {
			return
		}
		fmt.Fprintf(os.Stderr, "SEED %d\n", i)
		res := props.Execute(p, seedOf(i), nil, nil)
		o.Runs++
		o.SimNs += res.SimNs
		o.Steps += res.Steps
		o.Switches += res.Switches
		if res.Steps > o.MaxSteps {
			o.MaxSteps = res.Steps
		}
		for k, v := range res.Stats {
			o.Stats[k] += v
		}
		for k, v := range res.Probes {
			o.Probes[k] += v
		}
		if res.Nontrivial {
			o.Nontrivial++
			if len(inter) < 100_000 {
				inter[res.Hash] = true
			}
		}
		if len(states) < 200_000 {
			for s := range res.States {
				states[s] = true
			}
		}
		if o.Sample == nil && res.Nontrivial {
			o.Sample = append([]string{fmt.Sprintf("seed %d: steps=%d switches=%d sim=%.2fs faults=%s", i, res.Steps, res.Switches, float64(res.SimNs)/1e9, faults(res.Stats))}, clip(res.Desc, 14)...)
		}
		if res.Broken != "" {
			o.Broken, o.BrokenSeed = res.Broken, uint64(i)
			return
		}
		if res.Fail != nil {
			if k, ok := matchKnown(ks, res.Fail); ok {
				o.Known[k.class]++
				continue
			}
			o.Violation = minimise(p, res, ks)
			return
		}
		if o.Runs%25 == 3 {
			o.Rechecked++
			again := props.Execute(p, 0, res.Trace, nil)
			if again.Hash != res.Hash || again.Steps != res.Steps {
				// something outlived the first execution; what counts is that
				// processes that start afresh agree
				rp := &Replay{Property: p.ID, Failure: res.Fail, Trace: res.Trace}
				if a, b := fresh(rp), fresh(rp); a != nil && b != nil && *a == *b {
					o.Stats["executions_that_a_fresh_process_repeats"]++
					continue
				}
				o.Broken, o.BrokenSeed = fmt.Sprintf("simulation is not deterministic: replay of seed %d gave hash %x/%d steps, expected %x/%d", i, again.Hash, again.Steps, res.Hash, res.Steps), uint64(i)
				return
			}
		}
	}
}

func faults(st map[string]int64) string {
	var ks []string
	for k := range st {
		if strings.HasPrefix(k, "fault.") {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		out = append(out, fmt.Sprintf("%s=%d", k[6:], st[k]))
	}
	return strings.Join(out, ",")
}

func clip(s []string, n int) []string {
	if len(s) > n {
		s = s[:n]
	}
	var out []string
	for _, l := range s {
		if len(l) > 200 {
			l = l[:200]
		}
		out = append(out, l)
	}
	return out
}

func size(t *simrt.Trace) string {
	n, z := 0, 0
	for _, s := range t.Streams {
		n += len(s)
		for _, v := range s {
			if v != 0 {
				z++
			}
		}
	}
	return fmt.Sprintf("%d operations, %d choices (%d non-zero)", len(t.Blocks), n, z)
}

// minimise shrinks the failing trace while the same class of failure remains.
func minimise(p *props.Prop, res *props.Result, ks []known) *Replay {
	class := res.Fail.Class
	best := res
	deadline := time.Now().Add(45 * time.Second)
	tries := 0
	try := func(t *simrt.Trace) bool {
		if time.Now().After(deadline) {
			return false
		}
		tries++
		r := props.Execute(p, 0, t, nil)
		if r.Broken == "" && r.Fail != nil && r.Fail.Class == class {
			if _, k := matchKnown(ks, r.Fail); !k {
				best = r
				return true
			}
		}
		return false
	}
	cp := func(t *simrt.Trace) *simrt.Trace {
		n := &simrt.Trace{Seed: t.Seed, Blocks: append([]int{}, t.Blocks...), Streams: map[string][]int{}}
		for k, v := range t.Streams {
			n.Streams[k] = append([]int{}, v...)
		}
		return n
	}
	repro := try(cp(res.Trace))
	if repro {
		for round := 0; round < 3; round++ {
			before := size(best.Trace)
			// drop operations
			for chunk := (len(best.Trace.Blocks) + 1) / 2; chunk >= 1; chunk /= 2 {
				for i := 0; i < len(best.Trace.Blocks); {
					t := cp(best.Trace)
					e := i + chunk
					if e > len(t.Blocks) {
						e = len(t.Blocks)
					}
					t.Blocks = append(t.Blocks[:i], t.Blocks[e:]...)
					if !try(t) {
						i += chunk
					}
				}
			}
			// whole streams to zero, then truncate, then zero chunks
			for _, n := range best.Trace.Names() {
				t := cp(best.Trace)
				if _, ok := t.Streams[n]; !ok {
					continue
				}
				delete(t.Streams, n)
				if try(t) {
					continue
				}
				for {
					s := best.Trace.Streams[n]
					if len(s) < 2 {
						break
					}
					t := cp(best.Trace)
					t.Streams[n] = s[:len(s)/2]
					if !try(t) {
						break
					}
				}
				for chunk := len(best.Trace.Streams[n]); chunk >= 1; chunk /= 2 {
					if strings.HasPrefix(n, "op#") && chunk > 4 {
						chunk = 4
					}
					for i := 0; i < len(best.Trace.Streams[n]); i += chunk {
						s := best.Trace.Streams[n]
						any := false
						for j := i; j < i+chunk && j < len(s); j++ {
							if s[j] != 0 {
								any = true
							}
						}
						if !any {
							continue
						}
						t := cp(best.Trace)
						for j := i; j < i+chunk && j < len(s); j++ {
							t.Streams[n][j] = 0
						}
						try(t)
						if time.Now().After(deadline) {
							break
						}
					}
				}
			}
			if size(best.Trace) == before || time.Now().After(deadline) {
				break
			}
		}
	}
	return &Replay{Property: p.ID, Failure: best.Fail, Minimised: repro, Original: size(res.Trace), Size: size(best.Trace), Ops: clip(best.Desc, 400), Trace: best.Trace, Full: res.Trace, FullOps: clip(res.Desc, 400)}
}

// outcome is what a fresh process sees when it executes a trace.
type outcome struct {
	Hash   uint64
	Steps  int64
	Broken string
	Fail   bool
	F      simrt.Failure
}

// fresh executes a trace in a process of its own.
func fresh(rp *Replay) *outcome {
	f, err := os.CreateTemp("", "trace")
	if err != nil {
		return nil
	}
	defer os.Remove(f.Name())
	err = json.NewEncoder(f).Encode(rp)
	f.Close()
	if err != nil {
		return nil
	}
	self, _ := os.Executable()
	cmd := exec.Command(self, "-replay", f.Name(), "-outcome", "-sites", *fSites)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
	out, err := cmd.Output()
	if err != nil {
		return nil
	}
	o := &outcome{}
	if json.Unmarshal(out, o) != nil {
		return nil
	}
	return o
}

// same tells whether two executions are the same; the wording of a failure may
// differ (an error text can hold an address, say).
func same(a, b outcome) bool {
	a.F.Msg, b.F.Msg = "", ""
	return a == b
}

// confirm checks that fresh processes reproduce a violation exactly.  If
// something that outlived earlier executions had a part in it, what fresh
// processes agree on counts, of the minimised trace or else the original one.
func confirm(v *Replay, ks []known) *Replay {
	for _, t := range []*simrt.Trace{v.Trace, v.Full} {
		if t == nil {
			continue
		}
		c := *v
		c.Full, c.FullOps = nil, nil
		c.Trace = t
		a, b := fresh(&c), fresh(&c)
		if a == nil || b == nil || !same(*a, *b) || a.Broken != "" || !a.Fail {
			continue
		}
		if _, k := matchKnown(ks, &a.F); k {
			continue
		}
		c.Failure = &a.F
		if t == v.Full {
			c.Minimised, c.Size, c.Ops = false, v.Original, v.FullOps
		}
		return &c
	}
	return nil
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props.All[rp.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", rp.Property)
		return 2
	}
	quiet()
	setup(p)
	var lf func(string)
	if *fV {
		lf = func(s string) { fmt.Fprintln(os.Stderr, s) }
	}
	res := props.Execute(p, 0, rp.Trace, lf)
	if *fOutcome {
		o := outcome{Hash: res.Hash, Steps: res.Steps, Broken: res.Broken}
		if res.Fail != nil {
			o.Fail, o.F = true, *res.Fail
		}
		json.NewEncoder(stdout).Encode(o)
		return 0
	}
	if res.Broken != "" {
		fmt.Fprintln(os.Stderr, "error:", res.Broken)
		return 2
	}
	if res.Fail == nil {
		fmt.Fprintln(stdout, "replay: the property held")
		return 0
	}
	same := rp.Failure != nil && rp.Failure.Class == res.Fail.Class && rp.Failure.Step == res.Fail.Step
	fmt.Fprintf(stdout, "replay: %s at step %d, simulated time %.3fs (identical to the recorded failure: %v)\n%s\n", res.Fail.Class, res.Fail.Step, float64(res.Fail.Time)/1e9, same, res.Fail.Msg)
	return 1
}

func parent(p *props.Prop) int {
	t0 := time.Now()
	jobs := *fJobs
	if jobs <= 0 {
		jobs = runtime.NumCPU()
		if jobs > 8 {
			jobs = 8
		}
	}
	self, _ := os.Executable()
	outs := make([]*workerOut, jobs)
	errs := make([]string, jobs)
	var wg sync.WaitGroup
	for k := 0; k < jobs; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			args := []string{"-worker", fmt.Sprint(k), "-stride", fmt.Sprint(jobs), "-prop", p.ID, "-seed", fmt.Sprint(*fSeed), "-dur", fDur.String(), "-known", *fKnown, "-sites", *fSites, "-runs", fmt.Sprint(*fRuns), "-start", fmt.Sprint(*fStart)}
			cmd := exec.Command(self, args...)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
			var so strings.Builder
			tail := &tailWriter{}
			cmd.Stdout, cmd.Stderr = &so, tail
			if err := cmd.Start(); err != nil {
				errs[k] = err.Error()
				return
			}
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			var err error
			select {
			case err = <-done:
			case <-time.After(*fDur + 150*time.Second):
				cmd.Process.Kill()
				<-done
				err = fmt.Errorf("worker hung")
			}
			var o workerOut
			if e := json.Unmarshal([]byte(so.String()), &o); e != nil || err != nil {
				errs[k] = fmt.Sprintf("worker %d: %v %v\n%s", k, err, e, tail.String())
				return
			}
			outs[k] = &o
		}(k)
	}
	wg.Wait()
	agg := &workerOut{Stats: map[string]int64{}, Probes: map[string]int64{}, Known: map[string]int64{}}
	inter, states := map[uint64]bool{}, map[uint64]bool{}
	reached := map[int]bool{}
	var viol *Replay
	broken := ""
	samples := []interface{}{}
	var cpu float64
	for k, o := range outs {
		if o == nil {
			broken += errs[k]
			continue
		}
		cpu += o.WallS
		agg.Runs += o.Runs
		agg.Nontrivial += o.Nontrivial
		agg.SimNs += o.SimNs
		agg.Steps += o.Steps
		agg.Switches += o.Switches
		agg.Rechecked += o.Rechecked
		if o.MaxSteps > agg.MaxSteps {
			agg.MaxSteps = o.MaxSteps
		}
		for k, v := range o.Stats {
			agg.Stats[k] += v
		}
		for k, v := range o.Probes {
			agg.Probes[k] += v
		}
		for k, v := range o.Known {
			agg.Known[k] += v
		}
		for _, h := range o.Interleavings {
			inter[h] = true
		}
		for _, h := range o.States {
			states[h] = true
		}
		for _, i := range o.Reached {
			reached[i] = true
		}
		if o.Violation != nil && (viol == nil || len(o.Violation.Trace.Blocks) < len(viol.Trace.Blocks)) {
			viol = o.Violation
		}
		if o.Broken != "" {
			broken += fmt.Sprintf("worker %d seed index %d: %s\n", k, o.BrokenSeed, o.Broken)
		}
		if len(samples) < 2 && o.Sample != nil {
			samples = append(samples, strings.Join(o.Sample, " | "))
		}
	}
	wall := time.Since(t0).Seconds()
	perFile := map[string]int{}
	for i := range reached {
		if i < len(simrt.Sites) {
			perFile[strings.SplitN(simrt.Sites[i], ":", 2)[0]]++
		}
	}
	if *fReached != "" {
		var l []string
		for i := range reached {
			if i < len(simrt.Sites) {
				l = append(l, simrt.Sites[i])
			}
		}
		sort.Strings(l)
		_ = os.WriteFile(*fReached, []byte(strings.Join(l, "\n")+"\n"), 0644)
	}
	nviol := 0
	code := 0
	if viol != nil {
		nviol = 1
	}
	fk := map[string]int64{}
	other := map[string]int64{}
	for k, v := range agg.Stats {
		if strings.HasPrefix(k, "fault.") {
			fk[k[6:]] = v
		} else {
			other[k] = v
		}
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": *fTier, "seed": int64(*fSeed), "level": "exploration", "wall_s": wall, "violations": nviol,
		"assumptions": p.Assumptions,
		"coverage": map[string]interface{}{
			"evaluations": agg.Runs, "distinct_nontrivial": len(inter), "nontrivial_runs": agg.Nontrivial,
			"rule": p.Rule, "samples": samples,
			"runs_per_hour": int64(float64(agg.Runs) / wall * 3600), "seeds_per_hour": int64(float64(agg.Runs) / wall * 3600),
			"simulated_seconds": float64(agg.SimNs) / 1e9, "simulated_statements": agg.Steps, "context_switches": agg.Switches,
			"faults_injected": fk, "counters": other, "probes": agg.Probes,
			"distinct_executions": len(inter), "distinct_abstract_states": len(states),
			"distinct_measure":            "executions: hash of the event log and of every context switch (task, statement) of a non-trivial run; states: hash of the model's abstract state after an operation",
			"replays_rechecked_identical": agg.Rechecked,
			"components_real":             p.Real, "components_stub": p.Stub,
			"known_findings_seen": agg.Known,
			"statements_reached":  map[string]interface{}{"distinct": len(reached), "by_file": perFile},
		},
	}
	if len(samples) == 0 {
		ev["coverage"].(map[string]interface{})["samples"] = []interface{}{"no non-trivial run"}
	}
	if *fOut != "" {
		os.MkdirAll(filepath.Join(*fOut, "evidence"), 0755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(*fOut, "evidence", p.ID+".json"), append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	for _, k := range loadKnown(*fKnown, p.ID) {
		fmt.Printf("KNOWN-FINDING: property=%s %s (seen in %d runs)\n", p.ID, k.what, agg.Known[k.class])
	}
	fmt.Printf("%s: %d runs (%d non-trivial, %d distinct), %.0f simulated s, %d statements, faults %s, wall %.1fs\n", p.ID, agg.Runs, agg.Nontrivial, len(inter), float64(agg.SimNs)/1e9, agg.Steps, faults(agg.Stats), wall)
	if viol != nil {
		// fresh processes must reproduce it exactly
		rec := viol.Failure
		if viol = confirm(viol, loadKnown(*fKnown, p.ID)); viol == nil {
			fmt.Fprintf(os.Stderr, "the violation did not replay exactly in fresh processes\nrecorded: %+v\n", rec)
			return 2
		}
		dir := filepath.Join(*fOut, "replays")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", p.ID, viol.Trace.Seed))
		b, _ := json.MarshalIndent(viol, "", " ")
		if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n%s: %s\n", p.ID, path, viol.Failure.Class, viol.Failure.Msg)
		fmt.Printf("minimised from %s to %s; re-run: ./check.sh --replay %s\n", viol.Original, viol.Size, path)
		for _, l := range viol.Ops {
			fmt.Println("   ", l)
		}
		return 1
	}
	if broken != "" {
		fmt.Fprintln(os.Stderr, "error of the check:", broken)
		return 2
	}
	if agg.Runs == 0 {
		fmt.Fprintln(os.Stderr, "no run was made")
		return 2
	}
	return code
}

type tailWriter struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailWriter) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 12000 {
		t.b = append([]byte{}, t.b[len(t.b)-8000:]...)
	}
	return len(p), nil
}
func (t *tailWriter) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }
