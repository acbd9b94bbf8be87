package props

import (
	"bytes"
	"errors"
	"fmt"
	"sort"

	"github.com/iden3/go-iden3-core/db"

	"verif.local/sim/simrt"
)

func init() {
	register(&Prop{ID: "S01", Run: runS01,
		Rule:        "each run drives 1-3 client tasks committing, abandoning and reading transactions over prefixed handles of one LevelDB database on a simulated disk, through 1-5 process crashes, power losses, disk faults or clean restarts; after every reopen the visible state must be a serialisation of a permitted set of transactions. Non-trivial: a crash or disk fault struck and a later reopen was checked.",
		Nontrivial:  []string{"recovered_after_crash", "recovered_after_fault"},
		Real:        []string{"db (LevelDB backend)", "goleveldb engine"},
		Stub:        []string{"disk (simulated files, torn/unsynced/short writes)", "goleveldb background compaction disabled"},
		Assumptions: []string{"the disk keeps file bytes in write order (a prefix of the unsynced tail survives power loss)", "goleveldb v1.0.1 with compaction triggers out of reach"},
	})
}

type s01tx struct {
	id       int
	inv, ret int64 // ret: 0 = not acknowledged
	failed   bool
	kv       map[string]string
	epoch    int
	must     bool
	maybe    bool
}

func runS01(r *Run) {
	w := r.W
	r.Profile()
	node := w.NewNode("store")
	sh := r.S("shape")
	faulty := sh.Chance(1, 3)
	if faulty {
		node.Faults = r.S("diskfault")
	}
	ops := r.Ops(3, 40)
	var st *db.LevelDbStorage
	open := func(missing bool) bool {
		ok := false
		r.Call(node, "open", func() {
			s, err := db.NewLevelDbStorage("/data/db", missing)
			if err != nil {
				r.Violate("open-failed", "the database cannot be opened (missing-is-error=%v): %v", missing, err)
			}
			st = s
			ok = true
		})
		return ok
	}
	if !open(false) {
		r.Break("first open crashed")
	}
	var txs []*s01tx
	var clock int64
	tick := func() int64 { clock++; return clock }
	epoch := 0
	prefixes := []string{"", "a", "ab", "b"}
	keys := []string{"", "k", "bk", "k1", "\x00", "\xff"}

	var vis map[string]string
	var check func(kind string)
	check = func(kind string) {
		// what is visible now?
		vis = map[string]string{}
		if !r.Call(node, "readback", func() {
			kvs, err := st.List(0)
			if err != nil {
				r.Violate("unreadable", "listing after reopen failed: %v", err)
			}
			for _, kv := range kvs {
				vis[string(kv.K)] = string(kv.V)
			}
			for _, k := range sorted(vis) {
				v := vis[k]
				g, err := st.Get([]byte(k))
				if err != nil || string(g) != v {
					r.Violate("get-differs", "after reopen Get(%q) = %q, %v but the listing has %q", k, g, err, v)
				}
			}
		}) {
			r.Break("readback crashed")
		}
		byID := map[string]*s01tx{}
		visible := map[*s01tx]bool{}
		for _, t := range txs {
			byID[fmt.Sprint(t.id)] = t
			if _, ok := vis[fmt.Sprintf("zz%d", t.id)]; ok {
				visible[t] = true
			}
		}
		for _, t := range txs {
			if t.must && !visible[t] {
				r.Violate("commit-lost", "transaction %d was acknowledged (or seen earlier) and is gone after %s", t.id, kind)
			}
			if !t.must && !t.maybe && visible[t] {
				r.Violate("phantom", "transaction %d was never committed but is visible after %s", t.id, kind)
			}
		}
		if kind == "power loss" {
			for _, a := range txs {
				for _, b := range txs {
					if visible[b] && !visible[a] && a.ret > 0 && !a.failed && a.ret < b.inv {
						r.Violate("order-lost", "transaction %d, acknowledged before %d began, is gone while %d survived", a.id, b.id, b.id)
					}
				}
			}
		}
		// each value was written by a visible transaction, and one serial
		// order explains every value.
		edges := map[*s01tx]map[*s01tx]bool{}
		add := func(a, b *s01tx) {
			if edges[a] == nil {
				edges[a] = map[*s01tx]bool{}
			}
			edges[a][b] = true
		}
		for _, k := range sorted(vis) {
			v := vis[k]
			var id int
			if n, _ := fmt.Sscanf(v, "t%d.", &id); n != 1 || byID[fmt.Sprint(id)] == nil {
				r.Violate("garbage", "key %q holds %q, which no transaction wrote", k, v)
			}
			t := byID[fmt.Sprint(id)]
			if !visible[t] || t.kv[k] != v {
				r.Violate("torn-transaction", "after %s key %q holds %q of transaction %d, of which other writes are missing", kind, k, v, id)
			}
			for _, o := range txs {
				if visible[o] && o != t {
					if _, ok := o.kv[k]; ok {
						add(o, t)
					}
				}
			}
		}
		for _, t := range txs {
			if !visible[t] {
				continue
			}
			for _, k := range sorted(t.kv) {
				if _, ok := vis[k]; !ok {
					r.Violate("torn-transaction", "transaction %d is visible after %s but its write to %q is missing", t.id, kind, k)
				}
			}
			for _, o := range txs {
				if visible[o] && t != o && t.ret > 0 && t.ret < o.inv {
					add(t, o)
				}
			}
		}
		color := map[*s01tx]int{}
		var dfs func(t *s01tx) bool
		dfs = func(t *s01tx) bool {
			color[t] = 1
			for _, o := range txs {
				if !edges[t][o] {
					continue
				}
				if color[o] == 1 || color[o] == 0 && dfs(o) {
					return true
				}
			}
			color[t] = 2
			return false
		}
		for _, t := range txs {
			if visible[t] && color[t] == 0 && dfs(t) {
				r.Violate("not-serialisable", "no order of the committed transactions explains the state after %s", kind)
			}
		}
		// from here on the visible set is history
		var nt []*s01tx
		for _, t := range txs {
			if visible[t] {
				t.must, t.maybe = true, false
				if t.ret == 0 {
					t.ret = tick()
				}
				nt = append(nt, t)
			}
		}
		txs = nt
		var ks []string
		for k, v := range vis {
			ks = append(ks, k+"="+v)
		}
		sort.Strings(ks)
		r.State(ks)
	}

	// flaky reads through a storage just opened, from a disk that fails at
	// times, and through a closed one: an error, or what is there.
	flaky := func(s *simrt.Stream) {
		reads := func(what string, closed bool) {
			var ks []string
			for k := range vis {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for n := s.Range(1, 12); n > 0; n-- {
				k := "never written"
				if len(ks) > 0 && s.Chance(4, 5) {
					k = ks[s.Draw(len(ks))]
				}
				v, in := vis[k]
				from, err := "", error(nil)
				var g []byte
				var l []db.KV
				before := w.Cur().Faults
				switch s.Draw(4) {
				case 0, 1:
					from = "a read"
					g, err = st.Get([]byte(k))
				case 2:
					from = "a read in a transaction"
					tx, e := st.NewTx()
					if err = e; err == nil {
						g, err = tx.Get([]byte(k))
						tx.Close()
					}
				default:
					from = "a listing"
					if l, err = st.List(0); err == nil {
						bad := len(l) != len(vis)
						for _, kv := range l {
							if x, ok := vis[string(kv.K)]; !ok || x != string(kv.V) {
								bad = true
							}
						}
						if bad || closed {
							r.Violate("read-wrong", "%s, %s: %d of %d keys, no error", from, what, len(l), len(vis))
						}
						continue
					}
					if !closed && w.Cur().Faults == before {
						r.Violate("read-wrong", "%s, %s, fails without a fault: %v", from, what, err)
					}
					continue
				}
				switch {
				case err == nil && (!in || string(g) != v || closed):
					r.Violate("read-wrong", "%s, %s: key %q (present %v) reads %.20q with no error", from, what, k, in, g)
				case errors.Is(err, db.ErrNotFound) && (in || closed):
					r.Violate("read-wrong", "%s, %s: key %q is there, but is reported as not found", from, what, k)
				case err != nil && !errors.Is(err, db.ErrNotFound) && !closed && w.Cur().Faults == before:
					r.Violate("read-wrong", "%s, %s, fails without a fault: %v", from, what, err)
				}
			}
		}
		r.Call(node, "close", func() { st.Close() })
		r.Call(node, "closed reads", func() { reads("the storage being closed", true) })
		if !open(true) {
			r.Break("reopen crashed")
		}
		node.Rates.ReadErr = 400
		r.Call(node, "flaky reads", func() { reads("the disk failing at times", false) })
		node.Rates.ReadErr = 0
		r.Call(node, "reads again", func() { reads("the disk working again", false) })
		r.Probe("flaky_reads")
	}

	client := func(c int, mine []int) {
		h := map[string]db.Storage{}
		for _, p := range prefixes {
			if p == "" {
				h[p] = st
			} else {
				h[p] = st.WithPrefix([]byte(p))
			}
		}
		h["ab"] = h["a"].WithPrefix([]byte("b"))
		for _, i := range mine {
			s := r.Op(i)
			t := &s01tx{id: i, kv: map[string]string{}, epoch: epoch}
			p := prefixes[s.Draw(len(prefixes))]
			tx, err := h[p].NewTx()
			if err != nil {
				r.Violate("newtx", "NewTx: %v", err)
			}
			n := s.Range(1, 5)
			big := s.Chance(1, 12)
			wide := s.Chance(1, 6)
			if wide {
				n = s.Range(6, []int{30, 300}[s.Draw(2)])
				big = false
				r.Probe("wide_transaction")
			}
			for j := 0; j < n; j++ {
				k := p + keys[s.Draw(len(keys))]
				if wide {
					k = fmt.Sprintf("%sw%03d", p, j)
				}
				v := fmt.Sprintf("t%d.%d", i, j)
				if big {
					v += string(bytes.Repeat([]byte{'x'}, 40000))
				}
				tx.Put([]byte(k[len(p):]), []byte(v))
				t.kv[k] = v
				if !wide && s.Chance(1, 4) {
					g, err := tx.Get([]byte(k[len(p):]))
					if err != nil || string(g) != v {
						r.Violate("own-write", "a transaction does not read its own write: %.20q, %v", g, err)
					}
				}
			}
			mk, mv := fmt.Sprintf("zz%d", i), fmt.Sprintf("t%d.m", i)
			// the marker goes through a second transaction merged into the first
			tx2, err := st.NewTx()
			if err != nil {
				r.Violate("newtx", "NewTx: %v", err)
			}
			tx2.Put([]byte(mk), []byte(mv))
			tx.Add(tx2)
			t.kv[mk] = mv
			txs = append(txs, t)
			switch s.Weighted(8, 1, 1) {
			case 1:
				tx.Close()
				r.Describe("client %d: op %d abandons %d keys under %q", c, i, n, p)
				continue
			case 2:
				r.Describe("client %d: op %d leaves %d keys uncommitted under %q", c, i, n, p)
				continue
			}
			t.inv = tick()
			t.maybe = true
			r.Describe("client %d: op %d commits %d keys under %q", c, i, n, p)
			err = tx.Commit()
			t.ret = tick()
			if err != nil {
				t.failed = true
				t.ret = 0
				r.Probe("commit_error")
			} else {
				t.must = true
				g, err := st.Get([]byte(mk))
				if err != nil || string(g) != mv {
					r.Violate("acked-unreadable", "a key of the transaction just committed reads as %q, %v", g, err)
				}
			}
		}
	}

	for len(ops) > 0 || epoch == 0 {
		epoch++
		es := r.S(fmt.Sprintf("epoch%d", epoch))
		k := es.Range(1, 15)
		if k > len(ops) {
			k = len(ops)
		}
		now := ops[:k]
		ops = ops[k:]
		nc := es.Range(1, 3)
		per := make([][]int, nc)
		for _, o := range now {
			per[o%nc] = append(per[o%nc], o)
		}
		if faulty && es.Chance(1, 2) {
			node.Rates = simrt.DiskRates{WriteErr: 60, ShortWrite: 60, SyncErr: 60}
		}
		mode := es.Weighted(3, 4, 3) // clean, process crash, power loss
		if mode > 0 {
			node.CrashAfter(CrashDist(es), mode == 2)
		}
		var ts []*simrt.Task
		for c := range per {
			c := c
			ts = append(ts, w.Go(node, fmt.Sprintf("client%d", c), func() { client(c, per[c]) }))
		}
		r.JoinAll("clients", ts...)
		node.Rates = simrt.DiskRates{}
		kind := "clean restart"
		if !node.Dead() && mode > 0 {
			node.Crash(mode == 2)
		}
		if node.Dead() {
			kind = map[bool]string{false: "process crash", true: "power loss"}[mode == 2]
			if mode == 2 {
				for _, t := range txs {
					if t.must {
						// commits are not synced one by one: power loss may take the newest ones
						t.must, t.maybe = false, true
					}
				}
			}
			node.Restart()
			r.Probe("recovered_after_crash")
		} else {
			node.CrashAfter(0, false)
			r.Call(node, "close", func() { st.Close() })
		}
		r.Describe("-- %s, reopen", kind)
		if w.Stats["fault.disk_write_error"]+w.Stats["fault.disk_full"]+w.Stats["fault.disk_sync_error"] > 0 {
			r.Probe("recovered_after_fault")
		}
		if !open(true) {
			r.Break("reopen crashed")
		}
		check(kind)
		if es.Chance(1, 3) {
			flaky(es)
		}
		if len(ops) == 0 {
			break
		}
	}
}
