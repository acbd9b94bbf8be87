package props

import (
	"encoding/binary"
	"errors"
	"fmt"

	"github.com/iden3/go-iden3-core/db"

	"verif.local/sim/simrt"
)

func init() {
	register(&Prop{ID: "S03", Run: runS03,
		Rule:        "each run shares one storage (memory or LevelDB on the simulated disk, plain and prefixed handles) between 2-5 tasks that commit transactions of 1-4 keys, read single keys and list ranges, under seeded preemption at every statement; every value read must be one a register with atomic multi-key writes could return in the observed real-time order. Non-trivial: a commit overlapped another operation.",
		Nontrivial:  []string{"overlap"},
		Real:        []string{"db", "goleveldb engine"},
		Stub:        []string{"disk", "goroutine scheduler"},
		Assumptions: []string{"statements are atomic except for map accesses"},
	})
}

type s03tx struct {
	id       int
	keys     map[int]bool
	inv, res int64
	seen     int64 // some observation of it returned by then
}

type s03obs struct {
	inv, res int64
	vals     map[int]int // key -> tx id, 0: absent
	list     bool
	task     int
}

func runS03(r *Run) {
	r.Profile()
	w := r.W
	sh := r.S("shape")
	node := w.NewNode("n")
	level := sh.Chance(1, 3)
	nk := sh.Range(2, 5)
	if sh.Chance(1, 5) {
		nk = sh.Range(10, 40)
	}
	ntask := sh.Range(2, 5)
	var st [3]db.Storage
	r.Call(node, "open", func() {
		var base db.Storage
		if level {
			s, err := db.NewLevelDbStorage("/d", false)
			r.Must(err, "open")
			base = s
		} else {
			base = db.NewMemoryStorage()
		}
		st[0] = base.WithPrefix([]byte("ab"))
		st[1] = base.WithPrefix([]byte("a")).WithPrefix([]byte("b"))
		st[2] = base.WithPrefix([]byte("ab"))
		// a neighbour whose keys must not leak in
		tx, err := base.NewTx()
		r.Must(err, "tx")
		tx.Put([]byte("aa\x00"), []byte("........"))
		tx.Put([]byte("ac\x00"), []byte("........"))
		r.Must(tx.Commit(), "commit")
	})
	clock := int64(0)
	tick := func() int64 { clock++; return clock }
	txs := []*s03tx{{id: 0}}
	var obs []*s03obs
	busy := 0
	val := func(b []byte) int {
		if len(b) != 8 {
			r.Violate("value", "a read value has %d bytes", len(b))
		}
		v := int(binary.BigEndian.Uint64(b))
		if v <= 0 || v >= len(txs) {
			r.Violate("value", "a read value was never written")
		}
		return v
	}
	op := func(s *simrt.Stream, task int) {
		h := st[s.Draw(3)]
		if busy > 0 {
			r.Probe("overlap")
		}
		switch s.Weighted(5, 6, 3) {
		case 0:
			t := &s03tx{id: len(txs), keys: map[int]bool{}}
			txs = append(txs, t)
			tx, err := h.NewTx()
			r.Must(err, "newtx")
			n := s.Range(1, 4)
			all := s.Chance(1, 5)
			if all {
				n = nk
			}
			for j := 0; j < n; j++ {
				k := j
				if !all {
					k = s.Draw(nk)
				}
				t.keys[k] = true
				var b [8]byte
				binary.BigEndian.PutUint64(b[:], uint64(t.id))
				tx.Put([]byte{byte(k)}, b[:])
			}
			t.inv = tick()
			busy++
			err = tx.Commit()
			busy--
			if err != nil {
				r.Violate("commit", "commit fails: %v", err)
			}
			t.res = tick()
		case 1:
			k := s.Draw(nk)
			o := &s03obs{inv: tick(), vals: map[int]int{}, task: task}
			b, err := h.Get([]byte{byte(k)})
			if errors.Is(err, db.ErrNotFound) {
				o.vals[k] = 0
			} else if err != nil {
				r.Violate("get", "%v", err)
			} else {
				o.vals[k] = val(b)
			}
			o.res = tick()
			obs = append(obs, o)
		case 2:
			o := &s03obs{inv: tick(), vals: map[int]int{}, task: task, list: true}
			for k := 0; k < nk; k++ {
				o.vals[k] = 0
			}
			kvs, err := h.List(100)
			if err != nil {
				r.Violate("list", "%v", err)
			}
			last := -1
			for _, kv := range kvs {
				if len(kv.K) != 1 || int(kv.K[0]) >= nk || int(kv.K[0]) <= last {
					r.Violate("list", "a listing shows key %x after %x", kv.K, last)
				}
				last = int(kv.K[0])
				o.vals[last] = val(kv.V)
			}
			o.res = tick()
			obs = append(obs, o)
		}
	}
	ops := r.Ops(4, 30)
	lanes := make([][]int, ntask)
	for _, i := range ops {
		k := r.Op(i).Draw(ntask)
		lanes[k] = append(lanes[k], i)
	}
	var ts []*simrt.Task
	for k := range lanes {
		k := k
		if len(lanes[k]) > 0 {
			ts = append(ts, w.Go(node, fmt.Sprintf("t%d", k), func() {
				for _, i := range lanes[k] {
					op(r.Op(i), k)
				}
			}))
		}
	}
	r.JoinAll("concurrent", ts...)
	r.Call(node, "final", func() {
		for k := 0; k < nk; k++ {
			o := &s03obs{inv: tick(), vals: map[int]int{}}
			b, err := st[0].Get([]byte{byte(k)})
			if errors.Is(err, db.ErrNotFound) {
				o.vals[k] = 0
			} else if err != nil {
				r.Violate("get", "%v", err)
			} else {
				o.vals[k] = val(b)
			}
			o.res = tick()
			obs = append(obs, o)
			r.State(k, o.vals[k])
		}
	})
	// a transaction some read showed has happened by the time that read returned
	for _, o := range obs {
		for _, k := range sorted(o.vals) {
			v := o.vals[k]
			if v == 0 {
				continue
			}
			t := txs[v]
			if !t.keys[k] {
				r.Violate("value", "key %d shows a value written to another key", k)
			}
			if t.inv == 0 || t.inv > o.res {
				r.Violate("linearizability", "a read shows a transaction whose commit had not begun")
			}
			if t.res == 0 || o.res < t.res {
				if t.seen == 0 || o.res < t.seen {
					t.seen = o.res
				}
			}
		}
	}
	by := func(t *s03tx) int64 { // it has happened by
		if t.seen != 0 && (t.res == 0 || t.seen < t.res) {
			return t.seen
		}
		if t.res == 0 {
			return 1 << 60
		}
		return t.res
	}
	for _, o := range obs {
		for _, k := range sorted(o.vals) {
			v := o.vals[k]
			for _, t := range txs[1:] {
				if t.id == v || !t.keys[k] || by(t) >= o.inv {
					continue
				}
				if v == 0 {
					r.Violate("linearizability", "a read of key %d finds nothing although a transaction writing it had taken effect", k)
				}
				if u := txs[v]; by(u) < t.inv {
					r.Violate("linearizability", "a read of key %d shows transaction %d although the later %d had taken effect", k, v, t.id)
				}
			}
		}
		if !o.list {
			continue
		}
		for _, kv := range sorted(o.vals) {
			v := o.vals[kv]
			if v == 0 {
				continue
			}
			for _, k := range sorted(txs[v].keys) {
				x := o.vals[k]
				if x == v {
					continue
				}
				if x == 0 || by(txs[x]) < txs[v].inv {
					r.Violate("atomicity", "a listing shows one key of transaction %d but not its key %d", v, k)
				}
			}
		}
	}
}
