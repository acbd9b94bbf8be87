package simrt

import (
	"context"
	"math/rand"
	"time"
	"unsafe"
)

// Now is the node's wall clock.
func Now() time.Time {
	if W == nil {
		return time.Unix(0, epoch).UTC()
	}
	skew := int64(0)
	if n := curNode(); n != nil {
		skew = n.Skew
	}
	return withMono(time.Unix(0, W.now+skew).UTC(), W.now)
}

// withMono gives a time the monotonic reading that time.Now has, so that
// differences of two readings don't follow jumps of the clock.
func withMono(t time.Time, mono int64) time.Time {
	type layout struct {
		wall uint64
		ext  int64
		loc  *time.Location
	}
	const from1885 = 2682288000 // seconds from 1885 to 1970
	sec := t.Unix() + from1885
	if sec < 0 || sec >= 1<<33 {
		return t
	}
	u := t
	l := (*layout)(unsafe.Pointer(&u))
	l.wall = 1<<63 | uint64(sec)<<30 | uint64(t.Nanosecond())
	l.ext = mono - epoch + 1
	if !u.Round(0).Equal(t) || u.Unix() != t.Unix() {
		panic("simrt: the layout of time.Time is another one")
	}
	return u
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	if !inSim() {
		return
	}
	if gone() {
		W.checkKilled(W.cur)
		return
	}
	if d <= 0 {
		W.yield()
		return
	}
	W.SleepNs(int64(d))
}

type Timer struct {
	C    <-chan time.Time
	c    chan time.Time
	t    *timer
	f    func()
	node *Node
}

func (tm *Timer) arm(d time.Duration) {
	w := W
	tm.t = w.After(int64(d), func() {
		if tm.f != nil {
			w.spawn(tm.node, "afterfunc", tm.f)
			return
		}
		offer(tm.c, time.Unix(0, w.now).UTC())
	})
}

func newTimer(d time.Duration, f func()) *Timer {
	c := make(chan time.Time, 1)
	tm := &Timer{C: c, c: c, f: f, node: curNode()}
	tm.arm(d)
	return tm
}

func NewTimer(d time.Duration) *Timer            { return newTimer(d, nil) }
func AfterFunc(d time.Duration, f func()) *Timer { return newTimer(d, f) }
func After(d time.Duration) <-chan time.Time     { return newTimer(d, nil).C }
func (t *Timer) Stop() bool {
	was := !t.t.dead && t.t.at > W.now
	t.t.dead = true
	return was
}
func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.arm(d)
	return was
}

type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	t *timer
}

func (t *Ticker) arm(d time.Duration) {
	w := W
	t.t = w.After(int64(d), func() {
		offer(t.c, time.Unix(0, w.now).UTC())
		t.arm(d)
	})
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c}
	t.arm(d)
	return t
}
func (t *Ticker) Stop()                     { t.t.dead = true }
func (t *Ticker) Reset(d time.Duration)     { t.Stop(); t.arm(d) }
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// simCtx is a context that is cancelled within the simulation.
type simCtx struct {
	context.Context
	done  chan struct{}
	err   error
	cause error
	at    int64 // deadline; 0: none
	sleep *timer
	after map[*func()]bool // what runs once it is done
}

func (c *simCtx) Done() <-chan struct{} { return c.done }
func (c *simCtx) Err() error {
	if c.err != nil {
		return c.err
	}
	return c.Context.Err()
}
func (c *simCtx) Deadline() (time.Time, bool) {
	if c.at == 0 {
		return time.Time{}, false
	}
	return Now().Add(time.Duration(c.at - W.now)), true
}

// AfterFunc lets contexts of the standard library hang off this one without
// a goroutine of their own.
func (c *simCtx) AfterFunc(f func()) func() bool {
	if c.err != nil {
		f()
		return func() bool { return false }
	}
	k := &f
	c.after[k] = true
	return func() bool { was := c.after[k]; delete(c.after, k); return was }
}

func (c *simCtx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	closeNow(c.done)
	if c.sleep != nil {
		c.sleep.dead = true
	}
	fs := make([]*func(), 0, len(c.after))
	for k := range c.after {
		fs = append(fs, k)
	}
	c.after = nil
	for _, k := range fs {
		(*k)()
	}
}

// CtxDeadline is the simulated deadline of a context (0: none).
func CtxDeadline(ctx context.Context) int64 {
	if c, ok := ctx.Value(simCtxKey{}).(*simCtx); ok {
		return c.at
	}
	return 0
}

type simCtxKey struct{}

func (c *simCtx) Value(k interface{}) interface{} {
	if _, ok := k.(simCtxKey); ok {
		return c
	}
	return c.Context.Value(k)
}

func newCtx(parent context.Context, at int64) *simCtx {
	c := &simCtx{Context: parent, done: make(chan struct{}), at: at, after: map[*func()]bool{}}
	if p, ok := parent.Value(simCtxKey{}).(*simCtx); ok {
		if p.at != 0 && (c.at == 0 || p.at < c.at) {
			c.at = p.at
		}
		p.AfterFunc(func() { c.cancel(p.err, p.cause) })
	} else if err := parent.Err(); err != nil {
		c.cancel(err, nil)
	}
	return c
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	w := W
	if w == nil {
		return context.WithTimeout(parent, d)
	}
	if d <= 0 {
		d = 0
	}
	c := newCtx(parent, w.now+int64(d))
	if c.err == nil && d == 0 {
		c.cancel(context.DeadlineExceeded, nil)
	} else if c.err == nil {
		c.sleep = w.After(c.at-w.now, func() { c.cancel(context.DeadlineExceeded, nil) })
	}
	return c, func() { c.cancel(context.Canceled, nil) }
}

func WithDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	if W == nil {
		return context.WithDeadline(parent, at)
	}
	return WithTimeout(parent, Until(at))
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	if W == nil {
		return context.WithCancel(parent)
	}
	c := newCtx(parent, 0)
	return c, func() { c.cancel(context.Canceled, nil) }
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	if W == nil {
		return context.WithCancelCause(parent)
	}
	c := newCtx(parent, 0)
	return c, func(cause error) { c.cancel(context.Canceled, cause) }
}

// Cause stands for context.Cause.
func Cause(ctx context.Context) error {
	if c, ok := ctx.Value(simCtxKey{}).(*simCtx); ok && c.err != nil {
		return c.cause
	}
	return context.Cause(ctx)
}

// CtxAfterFunc stands for context.AfterFunc.
func CtxAfterFunc(ctx context.Context, f func()) func() bool {
	w := W
	c, ok := ctx.Value(simCtxKey{}).(*simCtx)
	if w == nil || !ok {
		return context.AfterFunc(ctx, f)
	}
	n := w.cur.node
	return c.AfterFunc(func() { w.Go(n, "afterfunc", f) })
}

// math/rand package level functions.

func rnd() *rand.Rand {
	if W == nil {
		return rand.New(rand.NewSource(1))
	}
	return rand.New(rsrc{&W.entropy.s})
}

type rsrc struct{ s *Stream }

func (r rsrc) Int63() int64 { return int64(r.s.next() >> 1) }
func (r rsrc) Seed(int64)   {}

func RandInt() int                        { return rnd().Int() }
func RandIntn(n int) int                  { return rnd().Intn(n) }
func RandInt63() int64                    { return rnd().Int63() }
func RandInt63n(n int64) int64            { return rnd().Int63n(n) }
func RandInt31() int32                    { return rnd().Int31() }
func RandInt31n(n int32) int32            { return rnd().Int31n(n) }
func RandUint32() uint32                  { return rnd().Uint32() }
func RandUint64() uint64                  { return rnd().Uint64() }
func RandFloat64() float64                { return rnd().Float64() }
func RandPerm(n int) []int                { return rnd().Perm(n) }
func RandShuffle(n int, f func(i, j int)) { rnd().Shuffle(n, f) }
func RandRead(b []byte) (int, error)      { return rnd().Read(b) }
func RandSeed(int64)                      {}
