// Package simrt is the deterministic simulator: a cooperative scheduler over
// real goroutines released one at a time, a virtual clock, per node disks and
// crash points, all driven by recorded choices.
package simrt

import (
	"container/heap"
	"crypto/rand"
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

// W is the world being simulated; there is one at a time per process.
var W *World

const epoch = int64(1588291200) * 1e9 // 2020-05-01T00:00:00Z

type stopT struct{}

type Task struct {
	Faults   int64 // faults injected into what it did
	ID       int
	Name     string
	node     *Node
	inc      int
	w        *World
	wake     chan struct{}
	site     uint32
	killed   bool
	exiting  bool
	finished bool
	blocked  bool
	sel      *selWait // the channel operation it waits in
	waitWhy  string
	crashed  bool
	panicV   interface{}
	stack    string
	joiners  []*Task
}

type timer struct {
	at   int64
	seq  int64
	fn   func()
	dead bool
	idx  int
}

type timerHeap []*timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x interface{}) { t := x.(*timer); t.idx = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() interface{} {
	o := *h
	t := o[len(o)-1]
	*h = o[:len(o)-1]
	return t
}

// Config of the scheduler for one run.
type Config struct {
	MaxSteps int64
	// Gap is the mean number of statements between preemptions while another
	// task could run (0: switch only when blocked).
	Gap int
	// Stall is the chance (per 1000 preemptions) that the preempted task is
	// not scheduled again before some simulated time passes.
	Stall    int
	StallMax int64
}

type World struct {
	C       *Choices
	cfg     Config
	now     int64
	timers  timerHeap
	tseq    int64
	cur     *Task
	main    *Task
	runq    []*Task
	tasks   []*Task
	nextID  int
	gap     int64
	steps   int64
	stopped bool // run is over: every task exits
	done    chan struct{}
	Nodes   []*Node
	sched   *Stream
	finals  []finalizer

	Fail     *Failure
	Deadlock string
	Overrun  bool
	Stats    map[string]int64
	Probes   map[string]int64
	hash     uint64
	ihash    uint64
	switches int64
	LogFn    func(string)
	// ProverFault decides whether the computation of a proof goes wrong.
	ProverFault func() bool
	chans       map[uintptr]*chanQ
	polled      int64
	entropy     *raw
	dbs         []closer
	maps        map[uintptr][]mapUse
	SimTime0    int64
	memory      map[process][]reflect.Value
	inMemory    process
	initing     bool
	initFor     *Node
}

// Reached are the statements that were executed in this process.
var Reached [1 << 13]bool

// Failure is a violation found in a run.
type Failure struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
	Step  int64  `json:"step"`
	Time  int64  `json:"sim_time_ns"`
}

func NewWorld(c *Choices, cfg Config) *World {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20_000_000
	}
	w := &World{C: c, cfg: cfg, now: epoch, done: make(chan struct{}), Stats: map[string]int64{}, Probes: map[string]int64{},
		hash: 14695981039346656037, ihash: 14695981039346656037, SimTime0: epoch}
	w.sched = c.Stream("sched")
	w.entropy = c.raw("entropy")
	return w
}

// SetConfig changes the scheduler's parameters (drawn by the workload).
func (w *World) SetConfig(f func(*Config)) { f(&w.cfg); w.newGap() }

func mix(h, v uint64) uint64 {
	h ^= v
	h *= 1099511628211
	return h
}

func hashStr(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = mix(h, uint64(s[i]))
	}
	return mix(h, 0xff)
}

// Log adds a line to the event log (hashed; printed in replay).
func (w *World) Log(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	w.hash = hashStr(w.hash, s)
	if w.LogFn != nil {
		w.LogFn(fmt.Sprintf("[%10.3fs #%d %s] %s", float64(w.now-epoch)/1e9, w.steps, w.curName(), s))
	}
}

func (w *World) curName() string {
	if w.cur == nil {
		return "-"
	}
	return w.cur.Name
}

func (w *World) Hash() uint64       { return mix(w.hash, w.ihash) }
func (w *World) Interleave() uint64 { return w.ihash }
func (w *World) Steps() int64       { return w.steps }
func (w *World) Switches() int64    { return w.switches }
func (w *World) NowNs() int64       { return w.now }
func (w *World) Count(k string)     { w.Stats[k]++ }
func (w *World) Probe(k string)     { w.Probes[k]++ }

// Violate records the violation and ends the run.
func (w *World) Violate(class, format string, a ...interface{}) {
	if w.Fail == nil {
		w.Fail = &Failure{Class: class, Msg: fmt.Sprintf(format, a...), Step: w.steps, Time: w.now - epoch}
		w.Log("VIOLATION %s: %s", class, w.Fail.Msg)
	}
	panic(stopT{})
}

// Stop ends the run without a violation.
func (w *World) Stop() { panic(stopT{}) }

// Run executes main as the root task and returns when every task is gone.
func (w *World) Run(main func()) {
	if W != nil {
		panic("simrt: nested world")
	}
	W = w
	oldRand := rand.Reader
	rand.Reader = w.entropy
	w.newGap()
	w.main = w.spawn(nil, "main", main)
	w.cur = w.main
	w.enter(w.main)
	w.runq = nil
	t := w.main
	raceOff()
	t.wake <- struct{}{}
	<-w.done
	raceOn()
	rand.Reader = oldRand
	W = nil
}

func (w *World) spawn(n *Node, name string, fn func()) *Task {
	t := &Task{ID: w.nextID, Name: name, node: n, w: w, wake: make(chan struct{}, 1)}
	if n != nil {
		t.inc = n.Inc
		t.Name = n.Name + "/" + name
	}
	w.nextID++
	w.tasks = append(w.tasks, t)
	if w.cur != nil {
		raceRelease(t)
	}
	go func() {
		raceOff()
		<-t.wake
		raceOn()
		raceAcquire(t)
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopT); ok {
					w.stopped = true
				} else {
					t.panicV = r
					t.stack = string(debug.Stack())
				}
			}
			t.finished = true
			raceRelease(t)
			w.finish(t)
		}()
		if !t.killed && !w.stopped {
			fn()
		}
	}()
	w.runq = append(w.runq, t)
	return t
}

// finish runs on the finished task's goroutine and hands control on.
func (w *World) finish(t *Task) {
	for _, j := range t.joiners {
		w.ready(j)
	}
	t.joiners = nil
	if t == w.main {
		w.stopped = true
	}
	if w.stopped {
		w.killAll()
	}
	next := w.pick(nil)
	if next == nil {
		raceOff()
		close(w.done)
		return
	}
	w.cur = next
	w.enter(next)
	raceOff()
	next.wake <- struct{}{}
}

func (w *World) killAll() {
	for _, t := range w.tasks {
		if !t.finished {
			t.killed = true
			if t.blocked {
				t.blocked = false
				w.runq = append(w.runq, t)
			}
		}
	}
	w.timers = nil
}

func (w *World) ready(t *Task) {
	if t.finished || !t.blocked {
		return
	}
	t.blocked = false
	w.runq = append(w.runq, t)
}

// pick chooses the next task to run; self (if not nil) is runnable too and is
// alternative 0.  It advances the clock when nothing can run.
func (w *World) pick(self *Task) *Task {
	for {
		if w.stopped {
			if self != nil {
				return self
			}
			if len(w.runq) == 0 {
				return nil
			}
			t := w.runq[0]
			w.runq = append(w.runq[:0], w.runq[1:]...)
			return t
		}
		cand := w.runq
		n := len(cand)
		if self != nil {
			n++
		}
		if n == 0 {
			if w.polled != w.now {
				w.polled = w.now
				if found, _ := w.foreign(); found {
					continue
				}
			}
			if w.fireNext() {
				continue
			}
			if w.awaitForeign() {
				continue
			}
			// deadlock
			if w.main == nil || w.main.finished {
				return nil
			}
			if w.Deadlock != "" {
				w.stopped = true
				w.killAll()
				continue
			}
			var b []string
			for _, t := range w.tasks {
				if !t.finished && t != w.main {
					b = append(b, fmt.Sprintf("%s waiting for %s at %s", t.Name, t.waitWhy, SiteName(t.site)))
				}
			}
			w.Deadlock = strings.Join(b, "; ")
			if w.Deadlock == "" {
				w.Deadlock = "main waits for nothing"
			}
			w.Log("DEADLOCK %s", w.Deadlock)
			if w.main.blocked {
				w.ready(w.main)
				continue
			}
			w.stopped = true
			w.killAll()
			continue
		}
		k := w.sched.Draw(n)
		if self != nil {
			if k == 0 {
				return self
			}
			k--
		}
		t := cand[k]
		for i, x := range w.runq {
			if x == t {
				w.runq = append(w.runq[:i], w.runq[i+1:]...)
				break
			}
		}
		return t
	}
}

func (w *World) fireNext() bool {
	for len(w.timers) > 0 {
		tm := heap.Pop(&w.timers).(*timer)
		if tm.dead {
			continue
		}
		if tm.at > w.now {
			w.now = tm.at
		}
		tm.fn()
		return true
	}
	return false
}

// After schedules fn (run by the scheduler, must not block) d ns from now.
func (w *World) After(d int64, fn func()) *timer {
	if d < 0 {
		d = 0
	}
	w.tseq++
	t := &timer{at: w.now + d, seq: w.tseq, fn: fn}
	heap.Push(&w.timers, t)
	return t
}

func (w *World) newGap() {
	if w.cfg.Gap <= 0 {
		w.gap = 1 << 60
		return
	}
	// a recorded 0 means "no preemption any more"
	v := w.sched.Draw(2*w.cfg.Gap + 2)
	if v == 0 {
		if w.sched.rep {
			w.gap = 1 << 60
			return
		}
		v = 2*w.cfg.Gap + 1
		w.sched.out[len(w.sched.out)-1] = v
	}
	w.gap = int64(v)
}

// switchTo parks the current task and runs next.
func (w *World) switchTo(me, next *Task) {
	if next == me {
		return
	}
	w.switches++
	w.ihash = mix(mix(w.ihash, uint64(next.ID)), uint64(me.site))
	w.cur = next
	w.enter(next)
	raceOff()
	next.wake <- struct{}{}
	<-me.wake
	raceOn()
	w.afterResume(me)
}

func (w *World) afterResume(me *Task) {
	if (me.killed || w.stopped) && !me.exiting {
		me.exiting = true
		runtime.Goexit()
	}
}

// block parks the current task until ready(t).
func (w *World) block(why string) {
	t := w.cur
	if t.exiting {
		return
	}
	t.blocked = true
	t.waitWhy = why
	next := w.pick(nil)
	if next == nil {
		// everything is finished but us: impossible unless main is done
		t.exiting = true
		runtime.Goexit()
	}
	if next == t {
		w.afterResume(t)
		return
	}
	w.switchTo(t, next)
}

// yield lets the scheduler run something else.
func (w *World) yield() {
	t := w.cur
	if t == nil || t.exiting {
		return
	}
	w.preempt(t)
}

func (w *World) preempt(t *Task) {
	w.newGap()
	if len(w.runq) == 0 {
		return
	}
	if w.cfg.Stall > 0 && t.node != nil && w.sched.Chance(w.cfg.Stall, 1000) {
		d := int64(w.sched.Draw(1000)+1) * w.cfg.StallMax / 1000
		w.Stats["fault.task_stall"]++
		w.SleepNs(d)
		return
	}
	next := w.pick(t)
	if next != t {
		w.runq = append(w.runq, t)
		w.switchTo(t, next)
	}
}

// SleepNs blocks the current task for d simulated nanoseconds.
func (w *World) SleepNs(d int64) {
	t := w.cur
	if t == nil || t.exiting {
		return
	}
	w.After(d, func() { w.ready(t) })
	w.block("sleep")
}

// Y is the scheduling and crash point in front of every statement.
func Y(site uint32) {
	w := W
	if w == nil {
		return
	}
	t := w.cur
	if t == nil || t.exiting {
		return
	}
	if t.killed || w.stopped {
		t.exiting = true
		runtime.Goexit()
	}
	w.steps++
	t.site = site
	if site < uint32(len(Reached)) {
		Reached[site] = true
	}
	if n := t.node; n != nil && n.crashIn > 0 {
		n.crashIn--
		if n.crashIn == 0 {
			n.Crash(n.crashPower)
			w.checkKilled(t)
			return
		}
	}
	if len(w.runq) > 0 {
		w.gap--
		if w.gap <= 0 {
			w.preempt(t)
		}
	}
	if w.steps > w.cfg.MaxSteps {
		w.Overrun = true
		w.stopped = true
		t.exiting = true
		runtime.Goexit()
	}
}

func (w *World) checkKilled(t *Task) {
	if (t.killed || w.stopped) && !t.exiting {
		t.exiting = true
		runtime.Goexit()
	}
}

// point is a scheduling point inside a simulated device.
func point() {
	w := W
	if w == nil || w.cur == nil || w.cur.exiting {
		return
	}
	w.checkKilled(w.cur)
	w.steps++
	if len(w.runq) > 0 {
		w.gap--
		if w.gap <= 0 {
			w.preempt(w.cur)
		}
	}
}

// Go starts a task on node n (nil: part of the harness).
func (w *World) Go(n *Node, name string, fn func()) *Task { return w.spawn(n, name, fn) }

// Join waits for the tasks; false if a deadlock was declared meanwhile.
func (w *World) Join(ts ...*Task) bool {
	me := w.cur
	for _, t := range ts {
		for !t.finished {
			if w.Deadlock != "" {
				return false
			}
			t.joiners = append(t.joiners, me)
			w.block("join " + t.Name)
		}
		raceAcquire(t)
	}
	return true
}

// Outcome of a call executed on a node.
type Outcome struct {
	Crashed  bool
	Panic    interface{}
	Stack    string
	Deadlock string
}

func (o Outcome) OK() bool { return !o.Crashed && o.Panic == nil && o.Deadlock == "" }

func (t *Task) Outcome() Outcome {
	return Outcome{Crashed: t.crashed, Panic: t.panicV, Stack: t.stack, Deadlock: t.w.Deadlock}
}

// Exec runs fn as a task of node n and waits for it.
func (w *World) Exec(n *Node, name string, fn func()) Outcome {
	t := w.spawn(n, name, fn)
	w.Join(t)
	return t.Outcome()
}

// Cur is the running task.
func (w *World) Cur() *Task    { return w.cur }
func (t *Task) Node() *Node    { return t.node }
func (w *World) InTask() bool  { return w.cur != nil }
func (t *Task) Finished() bool { return t.finished }

func curNode() *Node {
	if W == nil || W.cur == nil {
		return nil
	}
	return W.cur.node
}

// Sites of the instrumented code, for messages.
var Sites []string

func SiteName(s uint32) string {
	if int(s) < len(Sites) && s > 0 {
		return Sites[s]
	}
	return fmt.Sprintf("site%d", s)
}

type finalizer struct {
	node *Node
	inc  int
	obj  interface{}
	fn   func()
}

func sortedKeys(m map[string]int64) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// MainPanic is the panic (with stack) that ended the main task, if any.
func (w *World) MainPanic() string {
	if w.main != nil && w.main.panicV != nil {
		return fmt.Sprintf("%v\n%s", w.main.panicV, w.main.stack)
	}
	return ""
}
