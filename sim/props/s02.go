package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"sort"

	"github.com/iden3/go-iden3-core/db"

	"verif.local/sim/simrt"
)

func init() {
	register(&Prop{ID: "S02", Run: runS02,
		Rule:        "each run interleaves the steps of several open transactions, direct reads, listings, iterations (stopped early, failing, or committing from the callback) and counter/list helper calls, over nested prefixes, on one backend (memory or LevelDB on the simulated disk, closed and reopened at random), against an ordered-map model. Non-trivial: two transactions were open at once and one of them committed.",
		Nontrivial:  []string{"overlapping_commit"},
		Real:        []string{"db (both backends, storage helpers)", "goleveldb engine"},
		Stub:        []string{"disk"},
		Assumptions: []string{"a transaction is used by one task; a transaction is not used after it ended"},
	})
}

func runS02(r *Run) {
	w := r.W
	node := w.NewNode("store")
	sh := r.S("shape")
	level := sh.Chance(1, 2)
	ops := r.Ops(4, 60)
	r.Call(node, "run", func() { s02body(r, node, level, ops) })
}

type s02tx struct {
	tx  db.Tx
	pre string
	kv  map[string]string
	buf [][2][]byte // caller's buffers handed to Put
}

func s02body(r *Run, node *simrt.Node, level bool, ops []int) {
	var root db.Storage
	kept := map[string]db.Storage{} // handles made once and used on
	open := func(missing bool) {
		kept = map[string]db.Storage{}
		if level {
			s, err := db.NewLevelDbStorage("/d", missing)
			r.Must(err, "open")
			root = s
		} else {
			root = db.NewMemoryStorage()
		}
	}
	open(false)
	model := map[string]string{}
	prefixes := []string{"", "p", "pp", "q", "p\xff", "\xff", "ppp", "ppq"}
	keep := r.S("handles").Chance(1, 2)
	var handle func(p string) db.Storage
	handle = func(p string) db.Storage {
		if p == "" {
			return root
		}
		if h := kept[p]; h != nil {
			return h
		}
		part := append(make([]byte, 0, 16), p[len(p)-1])
		h := handle(p[:len(p)-1]).WithPrefix(part)
		if keep {
			kept[p] = h
		}
		part[0] = '#' // the caller's own memory
		return h
	}
	keys := []string{"", "a", "b", "p", "pa", "\x00", "\xff", "\xff\xff", "aa"}
	var open_ []*s02tx
	sorted := func(p string) (ks []string) {
		for k := range model {
			if len(k) >= len(p) && k[:len(p)] == p {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		return
	}
	same := func(what string, got []byte, err error, want string, ok bool) {
		if !ok {
			if !errors.Is(err, db.ErrNotFound) {
				r.Violate("get", "%s: got %q, %v; want ErrNotFound", what, got, err)
			}
			return
		}
		if err != nil || string(got) != want {
			r.Violate("get", "%s: got %q, %v; want %q", what, got, err, want)
		}
	}
	lookup := func(t *s02tx, k string) (string, bool) {
		if v, ok := t.kv[t.pre+k]; ok {
			return v, true
		}
		v, ok := model[t.pre+k]
		return v, ok
	}
	pick := func(s *simrt.Stream) *s02tx {
		if len(open_) == 0 {
			return nil
		}
		return open_[s.Draw(len(open_))]
	}
	drop := func(t *s02tx) {
		for i, x := range open_ {
			if x == t {
				open_ = append(open_[:i:i], open_[i+1:]...)
			}
		}
	}
	commit := func(t *s02tx) {
		err := t.tx.Commit()
		if err != nil {
			r.Violate("commit", "commit failed without a fault: %v", err)
		}
		for k, v := range t.kv {
			model[k] = v
		}
		if len(open_) > 1 {
			r.Probe("overlapping_commit")
		}
		drop(t)
		// the caller may reuse its buffers now
		for _, b := range t.buf {
			for i := range b[0] {
				b[0][i] ^= 0x55
			}
			for i := range b[1] {
				b[1][i] ^= 0x55
			}
		}
	}
	lists := map[string]*db.StorageList{}
	type lst struct {
		keys []string
		vals map[string]string
	}
	_ = lists
	for _, i := range ops {
		s := r.Op(i)
		switch s.Weighted(4, 8, 6, 4, 1, 2, 3, 3, 3, 2, 3, 2) {
		case 0: // begin
			p := prefixes[s.Draw(len(prefixes))]
			tx, err := handle(p).NewTx()
			if err != nil {
				r.Violate("newtx", "NewTx: %v", err)
			}
			open_ = append(open_, &s02tx{tx: tx, pre: p, kv: map[string]string{}})
			r.Describe("begin tx under %q", p)
		case 1: // put
			if t := pick(s); t != nil {
				k := keys[s.Draw(len(keys))]
				v := fmt.Sprintf("v%d", i)
				if s.Chance(1, 6) {
					v = ""
				}
				kb, vb := []byte(k), []byte(v)
				t.tx.Put(kb, vb)
				t.kv[t.pre+k] = v
				t.buf = append(t.buf, [2][]byte{kb, vb})
				r.Describe("put %q%q=%q", t.pre, k, v)
			}
		case 2: // tx get
			if t := pick(s); t != nil {
				k := keys[s.Draw(len(keys))]
				v, ok := lookup(t, k)
				g, err := t.tx.Get([]byte(k))
				same(fmt.Sprintf("tx.Get(%q%q)", t.pre, k), g, err, v, ok)
			}
		case 3: // commit
			if t := pick(s); t != nil {
				r.Describe("commit tx under %q", t.pre)
				commit(t)
			}
		case 4: // close
			if t := pick(s); t != nil {
				r.Describe("close tx under %q", t.pre)
				t.tx.Close()
				drop(t)
			}
		case 5: // merge one transaction into another
			a, b := pick(s), pick(s)
			if a != nil && a != b {
				a.tx.Add(b.tx)
				for k, v := range b.kv {
					a.kv[k] = v
				}
				r.Describe("add tx under %q to tx under %q", b.pre, a.pre)
			}
		case 6: // get
			p, k := prefixes[s.Draw(len(prefixes))], keys[s.Draw(len(keys))]
			v, ok := model[p+k]
			g, err := handle(p).Get([]byte(k))
			same(fmt.Sprintf("Get(%q%q)", p, k), g, err, v, ok)
			if err == nil && !level && s.Chance(1, 3) {
				// what a reader does to its copy is its own business
				for j := range g {
					g[j] ^= 0x55
				}
				g2, err2 := handle(p).Get([]byte(k))
				same(fmt.Sprintf("Get(%q%q) again", p, k), g2, err2, v, ok)
			}
		case 7: // list
			p := prefixes[s.Draw(len(prefixes))]
			ks := sorted(p)
			lim := s.Draw(5)
			if s.Chance(1, 4) {
				info := handle(p).Info()
				ones := 0
				for _, v := range model {
					if len(v) > 0 && v[0] == 1 {
						ones++
					}
				}
				if want := fmt.Sprintf("{\n  \"KeyCount\": %d,\n  \"ClaimCount\": %d\n}", len(model), ones); level && info != want {
					r.Violate("info", "Info of a database with %d entries: %q", len(model), info)
				}
			}
			kvs, err := handle(p).List(lim)
			if lim > 0 && len(ks) > lim {
				ks = ks[:lim]
			}
			if err != nil || len(kvs) != len(ks) {
				r.Violate("list", "List(%d) under %q: %d entries, %v; want %d", lim, p, len(kvs), err, len(ks))
			}
			for j, kv := range kvs {
				if p+string(kv.K) != ks[j] || string(kv.V) != model[ks[j]] {
					r.Violate("list", "List(%d) under %q: entry %d is %q=%q; want %q=%q", lim, p, j, kv.K, kv.V, ks[j], model[ks[j]])
				}
			}
		case 8: // iterate
			p := prefixes[s.Draw(len(prefixes))]
			ks := sorted(p)
			mode := s.Draw(4)
			stop := s.Draw(4)
			want := len(ks)
			ferr := errors.New("stop")
			n := 0
			vals := map[string]string{}
			for _, k := range ks {
				vals[k] = model[k]
			}
			// what the callback is given is its own: it may keep it, and write on it
			scribble := s.Chance(1, 3)
			var kept [][2][]byte
			err := handle(p).Iterate(func(k, v []byte) (bool, error) {
				if n >= len(ks) || p+string(k) != ks[n] || string(v) != vals[ks[n]] {
					r.Violate("iterate", "iteration under %q: step %d gave %q=%q", p, n, k, v)
				}
				kept = append(kept, [2][]byte{k, v})
				n++
				if scribble {
					for i := range k {
						k[i] ^= 0x5a
					}
					for i := range v {
						v[i] ^= 0xa5
					}
				}
				if mode == 3 && n == 1 {
					if t := pick(s); t != nil {
						commit(t)
					}
				}
				if n > stop && mode == 1 {
					return false, nil
				}
				if n > stop && mode == 2 {
					return true, ferr
				}
				return true, nil
			})
			for j, kv := range kept {
				if !scribble && (p+string(kv[0]) != ks[j] || string(kv[1]) != vals[ks[j]]) {
					r.Violate("iterate", "iteration under %q: what step %d gave became %q=%q", p, j, kv[0], kv[1])
				}
			}
			if (mode == 1 || mode == 2) && want > stop+1 {
				want = stop + 1
			}
			if n != want {
				r.Violate("iterate", "iteration under %q mode %d visited %d entries; want %d", p, mode, n, want)
			}
			if mode == 2 && len(ks) > stop {
				if err != ferr {
					r.Violate("iterate", "the callback's error became %v", err)
				}
			} else if err != nil {
				r.Violate("iterate", "iteration failed: %v", err)
			}
		case 9: // reopen
			if level && s.Chance(1, 2) {
				r.Describe("reopen")
				root.Close()
				open_ = nil
				open(true)
			}
		case 10: // list helper: append inside a transaction
			s02list(r, s, i, handle("q"), model, "q")
		case 11: // counter helper
			h := handle("q")
			tx, err := h.NewTx()
			r.Must(err, "newtx")
			sv := db.NewStorageValue([]byte("ctr"))
			if old, ok := model["qctr"]; ok {
				g, err := sv.Get(tx)
				want := uint32(old[0]) | uint32(old[1])<<8 | uint32(old[2])<<16 | uint32(old[3])<<24
				if err != nil || g != want {
					r.Violate("counter", "counter reads %d, %v; want %d", g, err, want)
				}
			} else if _, err := sv.Get(tx); !errors.Is(err, db.ErrNotFound) {
				r.Violate("counter", "missing counter reads without ErrNotFound: %v", err)
			}
			v := uint32(s.Draw(1<<16))<<16 | uint32(s.Draw(1<<16))
			sv.Set(tx, v)
			if g, err := sv.Get(tx); err != nil || g != v {
				r.Violate("counter", "counter set to %d reads %d, %v", v, g, err)
			}
			if s.Chance(2, 3) {
				r.Must(tx.Commit(), "commit")
				model["qctr"] = string([]byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)})
			} else {
				tx.Close()
			}
		}
		var st []string
		for _, k := range sorted("") {
			st = append(st, k, model[k])
		}
		r.State(st, len(open_))
	}
	// final comparison
	kvs, err := root.List(0)
	if err != nil || len(kvs) != len(model) {
		r.Violate("list", "at the end %d entries are listed, %v; want %d", len(kvs), err, len(model))
	}
	for _, kv := range kvs {
		if model[string(kv.K)] != string(kv.V) {
			r.Violate("list", "at the end %q=%q; want %q", kv.K, kv.V, model[string(kv.K)])
		}
	}
}

// s02list drives two list helpers whose names are built from shared backing
// arrays, with several helpers alive at once.
func s02list(r *Run, s *simrt.Stream, i int, h db.Storage, model map[string]string, pre string) {
	name := make([]byte, 0, 64)
	name = append(name, []byte{'L', byte('0' + s.Draw(2))}...)
	sl := db.NewStorageList(name)
	tx, err := h.NewTx()
	r.Must(err, "newtx")
	n := string(name)
	// the model of list n lives in a side table of the run
	st := listState(r, n)
	if !st.init {
		if _, err := sl.Length(tx); !errors.Is(err, db.ErrNotFound) {
			r.Violate("list-helper", "length of a list never initialised: %v", err)
		}
		sl.Init(tx)
	}
	keys, vals := append([]string{}, st.keys...), map[string]int{}
	for k, v := range st.vals {
		vals[k] = v
	}
	for j := 0; j <= s.Draw(3); j++ {
		kb := make([]byte, 0, 16)
		kb = append(kb, fmt.Sprintf("k%d", s.Draw(4))...)
		if err := sl.Append(tx, kb, i*10+j); err != nil {
			r.Violate("list-helper", "append: %v", err)
		}
		keys = append(keys, string(kb))
		vals[string(kb)] = i*10 + j
	}
	readAll := func(t db.Tx) {
		l, err := sl.Length(t)
		if err != nil || int(l) != len(keys) {
			r.Violate("list-helper", "length %d, %v; want %d", l, err, len(keys))
		}
		for x, k := range keys {
			var v int
			g, err := sl.GetByIdx(t, uint32(x), &v)
			if err != nil || !bytes.Equal(g, []byte(k)) || v != vals[k] {
				r.Violate("list-helper", "element %d is %q=%d, %v; want %q=%d", x, g, v, err, k, vals[k])
			}
			if err := sl.Get(t, []byte(k), &v); err != nil || v != vals[k] {
				r.Violate("list-helper", "element %q is %d, %v; want %d", k, v, err, vals[k])
			}
		}
		var v int
		if _, err := sl.GetByIdx(t, l, &v); err == nil {
			r.Violate("list-helper", "an element past the end was returned")
		}
	}
	readAll(tx)
	if s.Chance(3, 4) {
		r.Must(tx.Commit(), "commit")
		st.init, st.keys, st.vals = true, keys, vals
		// mirror into the flat model
		le := func(v int) string { return string([]byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}) }
		model[pre+n+"len"] = le(len(keys))
		for x, k := range keys {
			model[pre+n+"byidx:"+le(x)] = k
			b, _ := json.Marshal(vals[k])
			model[pre+n+"list:"+k] = string(b)
		}
		r.Describe("append to list %s: %v", n, keys)
	} else {
		tx.Close()
	}
}

type listSt struct {
	init bool
	keys []string
	vals map[string]int
}

var listTab = map[*Run]map[string]*listSt{}

func listState(r *Run, n string) *listSt {
	t := listTab[r]
	if t == nil {
		listTab = map[*Run]map[string]*listSt{r: {}}
		t = listTab[r]
	}
	if t[n] == nil {
		t[n] = &listSt{vals: map[string]int{}}
	}
	return t[n]
}
