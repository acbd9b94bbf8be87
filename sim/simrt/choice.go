package simrt

import (
	"hash/fnv"
	"sort"
	"strconv"
)

// Every random decision of a run is a draw from a named stream.  A stream is
// either a PRNG derived from (seed, stream name), whose draws are recorded, or
// the recorded values themselves (replay); past the end of a recording every
// draw is 0, and 0 always means "the simplest thing: no fault, no preemption,
// first alternative", so that dropping values simplifies a run.
type Choices struct {
	Seed    uint64
	replay  *Trace
	streams map[string]*Stream
}

// Trace is the complete record of a run.
type Trace struct {
	Seed    uint64           `json:"seed"`
	Blocks  []int            `json:"ops"`
	Streams map[string][]int `json:"streams"`
}

type Stream struct {
	name string
	rng  uint64
	in   []int
	rep  bool
	pos  int
	out  []int
}

func NewChoices(seed uint64, replay *Trace) *Choices {
	if replay != nil {
		seed = replay.Seed
	}
	return &Choices{Seed: seed, replay: replay, streams: map[string]*Stream{}}
}

func (c *Choices) Stream(name string) *Stream {
	s := c.streams[name]
	if s == nil {
		h := fnv.New64a()
		h.Write([]byte(strconv.FormatUint(c.Seed, 16)))
		h.Write([]byte{0})
		h.Write([]byte(name))
		s = &Stream{name: name, rng: h.Sum64()}
		if c.replay != nil {
			s.rep = true
			s.in = c.replay.Streams[name]
		}
		c.streams[name] = s
	}
	return s
}

// Blocks returns the identifiers of the workload's operation blocks: 0..n-1,
// or those a minimised replay file kept.
func (c *Choices) Blocks(n int) []int {
	if c.replay != nil {
		return c.replay.Blocks
	}
	bs := make([]int, n)
	for i := range bs {
		bs[i] = i
	}
	return bs
}

// Record returns the trace of what was drawn.
func (c *Choices) Record(blocks []int) *Trace {
	t := &Trace{Seed: c.Seed, Blocks: append([]int{}, blocks...), Streams: map[string][]int{}}
	for n, s := range c.streams {
		out := s.out
		for len(out) > 0 && out[len(out)-1] == 0 {
			out = out[:len(out)-1]
		}
		if len(out) > 0 {
			t.Streams[n] = append([]int{}, out...)
		}
	}
	return t
}

func (t *Trace) Names() []string {
	var ns []string
	for n := range t.Streams {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

func (s *Stream) next() uint64 {
	s.rng += 0x9e3779b97f4a7c15
	z := s.rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Draw returns a value in [0,n).
func (s *Stream) Draw(n int) int {
	if n <= 1 {
		return 0
	}
	var v int
	if s.rep {
		if s.pos < len(s.in) {
			v = s.in[s.pos] % n
			if v < 0 {
				v += n
			}
		}
		s.pos++
	} else {
		v = int(s.next() % uint64(n))
	}
	if len(s.out) > 5_000_000 {
		panic("simrt: runaway choice stream " + s.name)
	}
	s.out = append(s.out, v)
	return v
}

// Chance is true with probability num/den; the recorded 0 is false.
func (s *Stream) Chance(num, den int) bool {
	if num <= 0 {
		return false
	}
	v := s.Draw(den)
	return v >= 1 && v <= num || (num >= den)
}

// Range returns a value in [lo,hi].
func (s *Stream) Range(lo, hi int) int { return lo + s.Draw(hi-lo+1) }

// Weighted returns an index with the given weights.
func (s *Stream) Weighted(ws ...int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	v := s.Draw(t)
	for i, w := range ws {
		if v < w {
			return i
		}
		v -= w
	}
	return len(ws) - 1
}

// Bytes fills n bytes.
func (s *Stream) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(s.Draw(256))
	}
	return b
}

// raw is an unrecorded generator: simulated entropy (crypto/rand), whose
// values no decision of the simulator depends on.
type raw struct {
	s    Stream
	next []byte // what the next read of that length gives
}

func (c *Choices) raw(name string) *raw {
	h := fnv.New64a()
	h.Write([]byte(strconv.FormatUint(c.Seed, 16)))
	h.Write([]byte("raw"))
	h.Write([]byte(name))
	return &raw{s: Stream{rng: h.Sum64()}}
}

func (r *raw) Read(b []byte) (int, error) {
	if len(r.next) == len(b) && len(b) > 0 {
		copy(b, r.next)
		r.next = nil
		return len(b), nil
	}
	for i := 0; i < len(b); i += 8 {
		v := r.s.next()
		for j := i; j < len(b) && j < i+8; j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
	return len(b), nil
}

// NextRandom sets what the next read of len(b) bytes from crypto/rand gives,
// in any task; empty: nothing is set.
func (w *World) NextRandom(b []byte) { w.entropy.next = b }
