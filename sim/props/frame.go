// Package props holds one simulated workload per property.
package props

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strings"

	"verif.local/sim/simrt"
)

// Prop is one property's check.
type Prop struct {
	ID    string
	Run   func(r *Run)
	Setup func() // once per process
	// Rule says how cases are made and what makes one non-trivial.
	Rule        string
	Nontrivial  []string // probes; a run is non-trivial when all were hit... any of them if AnyOf
	Real, Stub  []string
	Assumptions []string
	MaxSteps    int64
}

var All = map[string]*Prop{}

func register(p *Prop) {
	if All[p.ID] != nil {
		panic("duplicate property " + p.ID)
	}
	All[p.ID] = p
}

func IDs() []string {
	var ids []string
	for id := range All {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// Run is one simulated run of a property's workload.
type Run struct {
	W      *simrt.World
	C      *simrt.Choices
	Prop   *Prop
	Blocks []int
	States map[uint64]bool
	// Broken describes an error of the harness itself.
	Broken string
	// skipped: the run met something that another property is about.
	skipped bool
	desc    []string
}

// Result of a run.
type Result struct {
	Fail       *simrt.Failure
	Broken     string
	Trace      *simrt.Trace
	Hash       uint64
	Interleave uint64
	SimNs      int64
	Steps      int64
	Switches   int64
	Stats      map[string]int64
	Probes     map[string]int64
	States     map[uint64]bool
	Nontrivial bool
	Desc       []string
}

// Execute runs the property once.
func Execute(p *Prop, seed uint64, replay *simrt.Trace, log func(string)) *Result {
	c := simrt.NewChoices(seed, replay)
	w := simrt.NewWorld(c, simrt.Config{MaxSteps: p.MaxSteps})
	w.LogFn = log
	r := &Run{W: w, C: c, Prop: p, States: map[uint64]bool{}}
	finished := false
	w.Run(func() {
		p.Run(r)
		finished = true
	})
	w.Cleanup()
	res := &Result{Fail: w.Fail, Broken: r.Broken, Trace: c.Record(r.Blocks), Hash: w.Hash(), Interleave: w.Interleave(), SimNs: w.NowNs() - w.SimTime0,
		Steps: w.Steps(), Switches: w.Switches(), Stats: w.Stats, Probes: w.Probes, States: r.States, Desc: r.desc}
	if res.Fail == nil && res.Broken == "" {
		if t := w.MainPanic(); t != "" {
			if repoFrame(t) {
				res.Fail = &simrt.Failure{Class: "panic", Msg: firstLines(t, 6), Step: w.Steps(), Time: res.SimNs}
			} else {
				res.Broken = "harness panic: " + t
			}
		} else if w.Overrun {
			res.Fail = &simrt.Failure{Class: "no-progress", Msg: fmt.Sprintf("the run did not finish within %d simulated statements", w.Steps()), Step: w.Steps(), Time: res.SimNs}
		} else if !finished && !r.skipped {
			res.Broken = "workload ended early: deadlock=" + w.Deadlock
		}
	}
	for _, pr := range p.Nontrivial {
		if w.Probes[pr] > 0 {
			res.Nontrivial = true
		}
	}
	return res
}

// S is a named choice stream.
func (r *Run) S(name string) *simrt.Stream { return r.C.Stream(name) }

// Ops draws the number of operations and returns their block numbers.
func (r *Run) Ops(lo, hi int) []int {
	n := r.S("shape.n").Range(lo, hi)
	r.Blocks = r.C.Blocks(n)
	return r.Blocks
}

// Op is the stream of one operation's parameters.
func (r *Run) Op(i int) *simrt.Stream { return r.C.Stream(fmt.Sprintf("op#%d", i)) }

func (r *Run) Describe(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	if len(r.desc) < 400 {
		r.desc = append(r.desc, s)
	}
	r.W.Log("%s", s)
}

func (r *Run) Violate(class, format string, a ...interface{}) { r.W.Violate(class, format, a...) }
func (r *Run) Probe(k string)                                 { r.W.Probe(k) }

// State records an abstract state reached.
func (r *Run) State(parts ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	r.States[h.Sum64()] = true
}

// About reports a violation if this run checks one of the properties (a space
// separated list); otherwise it ends the run, whose model no longer holds.
func (r *Run) About(props, class, format string, a ...interface{}) {
	for _, p := range strings.Fields(props) {
		if p == r.Prop.ID {
			r.Violate(class, format, a...)
		}
	}
	r.skipped = true
	r.W.Count("skipped." + class)
	r.W.Log("SKIP (%s) "+format, append([]interface{}{props}, a...)...)
	r.W.Stop()
}

// Must fails the harness (not the property).
func (r *Run) Must(err error, what string) {
	if err != nil {
		r.Break("%s: %v", what, err)
	}
}

func (r *Run) Break(format string, a ...interface{}) {
	if r.Broken == "" {
		r.Broken = fmt.Sprintf(format, a...)
	}
	r.W.Stop()
}

// Check turns a panic or a deadlock inside the code under test into a
// violation; it reports whether the call completed (false: it was cut off by
// a crash).
func (r *Run) Check(what string, o simrt.Outcome) bool {
	if o.Panic != nil {
		if repoFrame(o.Stack) {
			r.Violate("panic", "%s panicked: %v\n%s", what, o.Panic, repoFrames(o.Stack))
		}
		r.Break("%s: harness panic %v\n%s", what, o.Panic, o.Stack)
	}
	if o.Deadlock != "" && !o.Crashed {
		r.Violate("deadlock", "%s never returns: %s", what, o.Deadlock)
	}
	return !o.Crashed
}

// Call runs fn as a task of the node and checks it.
func (r *Run) Call(n *simrt.Node, what string, fn func()) bool {
	return r.Check(what, r.W.Exec(n, what, fn))
}

// JoinAll waits for tasks and checks them; true if none was cut off.
func (r *Run) JoinAll(what string, ts ...*simrt.Task) bool {
	r.W.Join(ts...)
	ok := true
	for _, t := range ts {
		if !r.Check(what+"/"+t.Name, t.Outcome()) {
			ok = false
		}
	}
	return ok
}

func repoFrame(stack string) bool {
	// the frame that raised the panic must be below the panic() call: look at
	// the first frames that are neither runtime nor library code.
	i := strings.LastIndex(stack, "panic(")
	if i < 0 {
		i = 0
	}
	for _, l := range strings.Split(stack[i:], "\n") {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, "verif.local/sim/props") || strings.HasPrefix(l, "verif.local/sim/env") {
			return false
		}
		if strings.HasPrefix(l, "github.com/iden3/go-iden3-core/") {
			return true
		}
	}
	return false
}

func repoFrames(stack string) string {
	var out []string
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "github.com/iden3/go-iden3-core/") && len(out) < 4 {
			if j := strings.LastIndex(l, "("); j > 0 {
				l = l[:j]
			}
			out = append(out, "  "+l)
		}
	}
	return strings.Join(out, "\n")
}

func firstLines(s string, n int) string {
	ls := strings.SplitN(s, "\n", n+1)
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

// Profile draws the run's scheduler parameters.
func (r *Run) Profile() {
	s := r.S("profile")
	gaps := []int{0, 200, 60, 25, 10, 4, 1200}
	g := gaps[s.Draw(len(gaps))]
	stall := 0
	if s.Chance(1, 5) {
		stall = 20
	}
	r.W.SetConfig(func(c *simrt.Config) {
		c.Gap = g
		c.Stall = stall
		c.StallMax = int64(5e9)
	})
}

// CrashDist draws how many scheduling points pass before a crash.
func CrashDist(s *simrt.Stream) int64 {
	return int64(s.Draw(1<<uint(s.Range(3, 13)))) + 1
}
