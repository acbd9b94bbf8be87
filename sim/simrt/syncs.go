package simrt

import (
	"fmt"
	"reflect"
	"sort"
	"sync"
)

// Simulated locks: only the scheduler decides who gets them.

type waitq []*Task

func (q *waitq) wait(why string) {
	w := W
	*q = append(*q, w.cur)
	w.block(why)
}

func (q *waitq) wakeAll() {
	if W == nil {
		*q = nil
		return
	}
	for _, t := range *q {
		W.ready(t)
	}
	*q = nil
}

func inSim() bool { return W != nil && W.cur != nil }

type Mutex struct {
	locked bool
	q      waitq
	world  *World
}

func (m *Mutex) fresh() {
	if m.world != W {
		m.world, m.locked, m.q = W, false, nil
	}
}

func (m *Mutex) Lock() {
	if gone() {
		return
	}
	m.fresh()
	if inSim() {
		point()
	}
	for m.locked {
		if !inSim() {
			panic("simrt: lock would block outside the simulation")
		}
		m.q.wait("mutex")
		if gone() {
			return
		}
	}
	m.locked = true
	raceAcquire(m)
}

func (m *Mutex) TryLock() bool {
	if gone() {
		return true
	}
	m.fresh()
	if m.locked {
		return false
	}
	m.locked = true
	raceAcquire(m)
	return true
}

func (m *Mutex) Unlock() {
	if gone() {
		return
	}
	m.fresh()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	raceRelease(m)
	m.locked = false
	m.q.wakeAll()
}

// RWMutex follows sync.RWMutex: a waiting writer holds back new readers.
type RWMutex struct {
	writer   bool
	readers  int
	wwaiting int
	rq, wq   waitq
	world    *World
	rtok     int // readers admitted by the last Unlock
	wr       byte
	rr       byte
}

func (m *RWMutex) fresh() {
	if m.world != W {
		*m = RWMutex{world: W}
	}
}

func (m *RWMutex) RLock() {
	if gone() {
		return
	}
	m.fresh()
	if inSim() {
		point()
	}
	if m.writer || m.wwaiting > 0 {
		if !inSim() {
			panic("simrt: lock would block outside the simulation")
		}
		// admitted by the writer's Unlock, which counts us in
		m.rq.wait("rwmutex read lock")
		if gone() {
			return
		}
		raceAcquire(&m.wr)
		return
	}
	m.readers++
	raceAcquire(&m.wr)
}

func (m *RWMutex) TryRLock() bool {
	m.fresh()
	if m.writer || m.wwaiting > 0 {
		return false
	}
	m.readers++
	raceAcquire(&m.wr)
	return true
}

func (m *RWMutex) RUnlock() {
	if gone() {
		return
	}
	m.fresh()
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	raceRelease(&m.rr)
	m.readers--
	if m.readers == 0 {
		m.wq.wakeAll()
	}
}

func (m *RWMutex) Lock() {
	if gone() {
		return
	}
	m.fresh()
	if inSim() {
		point()
	}
	if m.writer || m.readers > 0 {
		if !inSim() {
			panic("simrt: lock would block outside the simulation")
		}
		m.wwaiting++
		for m.writer || m.readers > 0 {
			m.wq.wait("rwmutex write lock")
			if gone() {
				return
			}
		}
		m.wwaiting--
	}
	m.writer = true
	raceAcquire(&m.wr)
	raceAcquire(&m.rr)
}

func (m *RWMutex) TryLock() bool {
	m.fresh()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	raceAcquire(&m.wr)
	raceAcquire(&m.rr)
	return true
}

func (m *RWMutex) Unlock() {
	if gone() {
		return
	}
	m.fresh()
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	raceRelease(&m.wr)
	m.writer = false
	// every reader that was waiting goes first, as in sync.RWMutex
	for _, t := range m.rq {
		if !t.finished && !t.killed {
			m.readers++
			W.ready(t)
		}
	}
	m.rq = nil
	if m.readers == 0 {
		m.wq.wakeAll()
	}
}

func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type WaitGroup struct {
	n int
	q waitq
}

func (g *WaitGroup) Add(d int) {
	if gone() {
		return
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	raceRelease(g)
	if g.n == 0 {
		g.q.wakeAll()
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	for g.n > 0 && !gone() {
		g.q.wait("waitgroup")
	}
	raceAcquire(g)
}

type Cond struct {
	L sync.Locker
	q waitq
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	if gone() {
		return
	}
	c.L.Unlock()
	c.q.wait("cond")
	c.L.Lock()
}
func (c *Cond) Broadcast() { c.q.wakeAll() }
func (c *Cond) Signal() {
	if len(c.q) > 0 {
		t := c.q[0]
		c.q = append(waitq{}, c.q[1:]...)
		W.ready(t)
	}
}

// SyncMap is sync.Map.
type SyncMap struct{ m map[interface{}]interface{} }

func (s *SyncMap) Load(k interface{}) (interface{}, bool) {
	point()
	v, ok := s.m[k]
	raceAcquire(s)
	return v, ok
}
func (s *SyncMap) Store(k, v interface{}) {
	point()
	raceRelease(s)
	if s.m == nil {
		s.m = map[interface{}]interface{}{}
	}
	s.m[k] = v
}
func (s *SyncMap) LoadOrStore(k, v interface{}) (interface{}, bool) {
	if o, ok := s.Load(k); ok {
		return o, true
	}
	raceRelease(s)
	if s.m == nil {
		s.m = map[interface{}]interface{}{}
	}
	s.m[k] = v
	return v, false
}
func (s *SyncMap) LoadAndDelete(k interface{}) (interface{}, bool) {
	v, ok := s.Load(k)
	delete(s.m, k)
	return v, ok
}
func (s *SyncMap) Delete(k interface{}) { point(); delete(s.m, k) }
func (s *SyncMap) Range(f func(k, v interface{}) bool) {
	for it := MapRange(s.m); it.Next(); {
		if !f(it.K, it.V) {
			return
		}
	}
}

func (s *SyncMap) Swap(k, v interface{}) (interface{}, bool) {
	o, ok := s.Load(k)
	raceRelease(s)
	if s.m == nil {
		s.m = map[interface{}]interface{}{}
	}
	s.m[k] = v
	return o, ok
}
func (s *SyncMap) CompareAndSwap(k, old, v interface{}) bool {
	if o, ok := s.Load(k); !ok || o != old {
		return false
	}
	raceRelease(s)
	s.m[k] = v
	return true
}
func (s *SyncMap) CompareAndDelete(k, old interface{}) bool {
	if o, ok := s.Load(k); !ok || o != old {
		return false
	}
	delete(s.m, k)
	return true
}
func (s *SyncMap) Clear() { point(); s.m = nil }

// OnceFunc, OnceValue and OnceValues are those of sync.
func OnceFunc(f func()) func() {
	g := OnceValue(func() bool { f(); return true })
	return func() { g() }
}

func OnceValue[T any](f func() T) func() T {
	g := OnceValues(func() (T, bool) { return f(), true })
	return func() T { v, _ := g(); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var t T
	var u U
	ok := false
	var p interface{}
	return func() (T, U) {
		o.Do(func() {
			defer func() {
				if !ok && !gone() {
					p = recover()
				}
			}()
			t, u = f()
			ok = true
		})
		if !ok && p != nil {
			panic(p)
		}
		return t, u
	}
}

// SyncPool is sync.Pool.
type SyncPool struct {
	New func() interface{}
	s   []interface{}
}

func (p *SyncPool) Get() interface{} {
	point()
	if n := len(p.s); n > 0 {
		v := p.s[n-1]
		p.s = p.s[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *SyncPool) Put(v interface{}) { point(); p.s = append(p.s, v) }

// MapIter iterates over a map in an order the simulator draws.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	K    K
	V    V
}

func MapRange[M ~map[K]V, K comparable, V any](m M) *MapIter[K, V] {
	it := &MapIter[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if len(it.keys) > 1 {
		strs := make([]string, len(it.keys))
		idx := make([]int, len(it.keys))
		for i, k := range it.keys {
			strs[i] = fmt.Sprint(k)
			idx[i] = i
		}
		sort.Slice(idx, func(a, b int) bool { return strs[idx[a]] < strs[idx[b]] })
		ks := make([]K, len(idx))
		for i, j := range idx {
			ks[i] = it.keys[j]
		}
		it.keys = ks
		if W != nil {
			s := &W.entropy.s
			for i := len(ks) - 1; i > 0; i-- {
				j := int(s.next() % uint64(i+1))
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return it
}

func (it *MapIter[K, V]) Next() bool {
	if len(it.keys) > 0 {
		mapTouch(reflect.ValueOf(it.m).Pointer(), false)
	}
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		if v, ok := it.m[k]; ok {
			it.K, it.V = k, v
			return true
		}
	}
	return false
}

// MapT announces an access of a map by the statement that follows.  A map
// access takes time; Go aborts the process when a write overlaps another
// access, and so does the simulation.
func MapT(f func() interface{}, write bool) {
	w := W
	if w == nil || w.cur == nil || w.cur.exiting || len(w.runq) == 0 {
		return
	}
	p := mapPtr(f)
	if p != 0 {
		mapTouch(p, write)
	}
}

func mapPtr(f func() interface{}) (p uintptr) {
	defer func() {
		if recover() != nil {
			p = 0
		}
	}()
	v := reflect.ValueOf(f())
	if v.Kind() != reflect.Map {
		return 0
	}
	return v.Pointer()
}

type mapUse struct {
	t     *Task
	write bool
}

func mapTouch(p uintptr, write bool) {
	w := W
	if w == nil || w.cur == nil || w.cur.exiting || len(w.runq) == 0 {
		return
	}
	t := w.cur
	for _, u := range w.maps[p] {
		if u.t != t && !u.t.finished && !u.t.killed && (u.write || write) {
			if u.t.node == t.node {
				w.Violate("concurrent-map-access", "two goroutines are inside accesses of the same map at the same time (the Go runtime aborts the process): %s and %s", SiteName(u.t.site), SiteName(t.site))
			}
		}
	}
	w.gap--
	if w.gap > 0 {
		return
	}
	if w.maps == nil {
		w.maps = map[uintptr][]mapUse{}
	}
	w.maps[p] = append(w.maps[p], mapUse{t, write})
	defer func() {
		us := w.maps[p]
		for i := range us {
			if us[i].t == t {
				us = append(us[:i:i], us[i+1:]...)
				break
			}
		}
		if len(us) == 0 {
			delete(w.maps, p)
		} else {
			w.maps[p] = us
		}
	}()
	w.preempt(t)
}
