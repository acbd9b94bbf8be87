package simrt

import (
	"fmt"
	"reflect"
	"runtime"
	"time"
	"unsafe"
)

// Channel operations.  The channels are real ones (len, cap and range work as
// ever, and a buffer is kept where it always is), but who waits on one, and
// which waiter or which ready case of a select goes first, is decided here.

// ChanCase is one case of a select.
type ChanCase interface {
	key() uintptr
	try() bool
	native() bool
	enqueue(*chanQ, chanWaiter)
	after()
	reflected() reflect.SelectCase
	chosen(v reflect.Value, ok bool)
}

type selWait struct {
	t     *Task
	w     *World
	cases []ChanCase
	done  bool
	which int
}

func (s *selWait) live() bool { return !s.done && s.t.blocked && !s.t.killed && !s.t.finished }

func (s *selWait) complete(i int) {
	s.done, s.which = true, i
	raceRelease(s)
	s.w.ready(s.t)
}

type chanWaiter struct {
	sel *selWait
	idx int
}

type chanQ struct{ recv, send []chanWaiter }

// pop drops the waiters at the head that wait no longer.
func pop(q *[]chanWaiter) (chanWaiter, bool) {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if x.sel.live() {
			return x, true
		}
	}
	return chanWaiter{}, false
}

func (w *World) chanq(k uintptr) *chanQ {
	if w == nil {
		return nil
	}
	return w.chans[k]
}

func waiting(k uintptr, send bool) (chanWaiter, bool) {
	q := W.chanq(k)
	if q == nil {
		return chanWaiter{}, false
	}
	if send {
		return pop(&q.send)
	}
	return pop(&q.recv)
}

// RecvCase is a receive.
type RecvCase[T any] struct {
	c  <-chan T
	V  T
	OK bool
}

func R[T any](c <-chan T) *RecvCase[T] { return &RecvCase[T]{c: c} }

func (r *RecvCase[T]) key() uintptr                   { return chanKey(r.c) }
func (r *RecvCase[T]) enqueue(q *chanQ, x chanWaiter) { q.recv = append(q.recv, x) }
func (r *RecvCase[T]) after()                         {}
func (r *RecvCase[T]) chosen(v reflect.Value, ok bool) {
	r.OK = ok
	if ok {
		reflect.ValueOf(&r.V).Elem().Set(v)
	}
}
func (r *RecvCase[T]) reflected() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.c)}
}

func (r *RecvCase[T]) native() bool {
	select {
	case r.V, r.OK = <-r.c:
		return true
	default:
		return false
	}
}

func (r *RecvCase[T]) try() bool {
	if r.c == nil {
		return false
	}
	got := r.native()
	if got && !r.OK || got && cap(r.c) == 0 {
		return true
	}
	if x, ok := waiting(r.key(), true); ok {
		s := x.sel.cases[x.idx].(*SendCase[T])
		raceAcquire(x.sel)
		if !got {
			r.V, r.OK, got = s.v, true, true
		} else if !s.native() {
			panic("simrt: a buffer with room takes no value")
		}
		x.sel.complete(x.idx)
	}
	return got
}

// SendCase is a send.
type SendCase[T any] struct {
	c      chan<- T
	v      T
	closed bool
}

func S[T any](c chan<- T) *SendCase[T] { return &SendCase[T]{c: c} }

func (s *SendCase[T]) With(v T) *SendCase[T]          { s.v = v; return s }
func (s *SendCase[T]) Send(v T)                       { s.v = v; Sel(false, s) }
func (s *SendCase[T]) key() uintptr                   { return chanKey(s.c) }
func (s *SendCase[T]) enqueue(q *chanQ, x chanWaiter) { q.send = append(q.send, x) }
func (s *SendCase[T]) chosen(reflect.Value, bool)     {}
func (s *SendCase[T]) after() {
	if s.closed {
		panic("send on closed channel")
	}
}
func (s *SendCase[T]) reflected() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(s.c), Send: reflect.ValueOf(&s.v).Elem()}
}

func (s *SendCase[T]) native() bool {
	select {
	case s.c <- s.v:
		return true
	default:
		return false
	}
}

func (s *SendCase[T]) try() bool {
	if s.c == nil {
		return false
	}
	if x, ok := waiting(s.key(), false); ok {
		r := x.sel.cases[x.idx].(*RecvCase[T])
		raceAcquire(x.sel)
		r.V, r.OK = s.v, true
		x.sel.complete(x.idx)
		return true
	}
	return s.native()
}

func chanKey[C any](c C) uintptr { return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&c))) }

// CloseChan closes a channel.
func CloseChan[T any](c chan<- T) {
	point()
	if !gone() {
		closeNow(c)
	}
}

func closeNow[T any](c chan<- T) {
	close(c)
	if W == nil {
		return
	}
	for {
		x, ok := waiting(chanKey(c), false)
		if !ok {
			break
		}
		r := x.sel.cases[x.idx].(*RecvCase[T])
		var z T
		r.V, r.OK = z, false
		x.sel.complete(x.idx)
	}
	for {
		x, ok := waiting(chanKey(c), true)
		if !ok {
			break
		}
		x.sel.cases[x.idx].(*SendCase[T]).closed = true
		x.sel.complete(x.idx)
	}
}

// offer is a non-blocking send by the simulator itself.
func offer(c chan time.Time, t time.Time) { S[time.Time](c).With(t).try() }

// Sel performs one of the cases and tells which (-1: the default).
func Sel(hasDefault bool, cases ...ChanCase) int {
	w := W
	if w == nil || w.cur == nil {
		return outside(hasDefault, cases)
	}
	point()
	t := w.cur
	start := 0
	if len(cases) > 1 {
		start = int(w.entropy.s.next() % uint64(len(cases)))
	}
	for i := range cases {
		k := (start + i) % len(cases)
		if cases[k].try() {
			return k
		}
	}
	if hasDefault {
		return -1
	}
	if t.exiting || t.killed || w.stopped {
		t.exiting = true
		runtime.Goexit()
	}
	sel := &selWait{t: t, w: w, cases: cases}
	raceRelease(sel)
	for i, c := range cases {
		k := c.key()
		if k == 0 {
			continue
		}
		q := w.chans[k]
		if q == nil {
			if w.chans == nil {
				w.chans = map[uintptr]*chanQ{}
			}
			q = &chanQ{}
			w.chans[k] = q
		}
		c.enqueue(q, chanWaiter{sel, i})
	}
	t.sel = sel
	for !sel.done {
		w.block("channel")
	}
	t.sel = nil
	raceAcquire(sel)
	for _, c := range cases {
		w.dropWaiters(c.key(), sel)
	}
	cases[sel.which].after()
	return sel.which
}

func (w *World) dropWaiters(k uintptr, sel *selWait) {
	q := w.chans[k]
	if q == nil {
		return
	}
	without := func(l []chanWaiter) []chanWaiter {
		var keep []chanWaiter
		for _, x := range l {
			if x.sel != sel {
				keep = append(keep, x)
			}
		}
		return keep
	}
	q.recv, q.send = without(q.recv), without(q.send)
	if len(q.recv) == 0 && len(q.send) == 0 {
		delete(w.chans, k)
	}
}

// foreign serves the waiters whose channels somebody outside the simulation
// (a library's own goroutine) used.
func (w *World) foreign() (found, any bool) {
	for _, t := range w.tasks {
		if t.sel == nil || !t.sel.live() {
			continue
		}
		any = true
		for i, c := range t.sel.cases {
			if c.key() != 0 && c.native() {
				t.sel.complete(i)
				found = true
				break
			}
		}
	}
	return found, any
}

// awaitForeign gives such a goroutine a little real time before a deadlock is
// called one.
func (w *World) awaitForeign() bool {
	for i := 0; i < 20; i++ {
		found, any := w.foreign()
		if found || !any {
			return found
		}
		time.Sleep(100 * time.Microsecond)
	}
	return false
}

// outside is a select of code that runs outside the simulation.
func outside(hasDefault bool, cases []ChanCase) int {
	sc := make([]reflect.SelectCase, 0, len(cases)+1)
	for _, c := range cases {
		sc = append(sc, c.reflected())
	}
	if hasDefault {
		sc = append(sc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	k, v, ok := reflect.Select(sc)
	if k == len(cases) {
		return -1
	}
	cases[k].chosen(v, ok)
	return k
}

func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

func Recv2[T any](c <-chan T) (T, bool) {
	r := R(c)
	Sel(false, r)
	return r.V, r.OK
}

type ChanIter[T any] struct {
	c <-chan T
	V T
}

func ChanRange[T any](c <-chan T) *ChanIter[T] { return &ChanIter[T]{c: c} }
func (it *ChanIter[T]) Next() bool {
	var ok bool
	it.V, ok = Recv2(it.c)
	return ok
}

// NoCase marks the place a select without default never reaches.
func NoCase() string { return fmt.Sprintf("simrt: a select of %s took no case", W.curName()) }
