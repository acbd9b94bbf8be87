package props

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/iden3/go-iden3-core/common"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"

	"verif.local/sim/env"
	"verif.local/sim/simrt"
)

func init() {
	register(&Prop{ID: "M02", Setup: mtSetup, Run: runM02,
		Rule:        "each run shares one merkle tree (memory or LevelDB on the simulated disk) between 2-5 tasks that add entries (some competing for one index), read the root, look up, prove, snapshot, walk and dump at the current root, under seeded preemption at every statement, sometimes with failing storage calls, sometimes with a process crash and reopening; the recorded history must be explained by additions that happen one at a time (every observation is a set the tree really held between its call and its return, sets grow along a chain, exactly one of competing additions wins). Non-trivial: at least one task switch happened while an addition was in progress.",
		Nontrivial:  []string{"overlap"},
		Real:        []string{"merkletree", "db", "goleveldb engine", "poseidon"},
		Stub:        []string{"disk", "goroutine scheduler"},
		Assumptions: []string{"the hash function is collision free on the inputs used", "statements are atomic except for map accesses"},
	})
}

const m02n = 5

type m02cast struct {
	e     [m02n][2]mentry
	roots map[mhash]uint32 // root -> 2 bits per index: 0 absent, 1, 2
}

var m02casts = map[int]*m02cast{}

func m02get(k int) *m02cast {
	if c := m02casts[k]; c != nil {
		return c
	}
	c := &m02cast{roots: map[mhash]uint32{}}
	var idx []int
	for i := 0; len(idx) < m02n; i++ {
		if i < 2 {
			p := mtPairs[(k*7+i*3)%len(mtPairs)]
			for _, x := range p {
				dup := false
				for _, y := range idx {
					dup = dup || x == y
				}
				if !dup {
					idx = append(idx, x)
				}
			}
		} else {
			idx = append(idx, (k*31+i*101)%200+400*0)
		}
		// distinct
		for a := 0; a < len(idx); a++ {
			for b := a + 1; b < len(idx); b++ {
				if idx[a] == idx[b] {
					idx = append(idx[:b], idx[b+1:]...)
					b--
				}
			}
		}
		if i > 50 {
			break
		}
	}
	idx = idx[:m02n]
	for i, x := range idx {
		c.e[i] = [2]mentry{mtPool[x][0], mtPool[x][1]}
	}
	n := 1
	for i := 0; i < m02n; i++ {
		n *= 3
	}
	for v := 0; v < n; v++ {
		var es []mentry
		var mask uint32
		for i, y := 0, v; i < m02n; i, y = i+1, y/3 {
			if d := y % 3; d > 0 {
				es = append(es, c.e[i][d-1])
				mask |= uint32(d) << uint(2*i)
			}
		}
		c.roots[mroot(es, 0)] = mask
	}
	m02casts[k] = c
	return c
}

type m02obs struct {
	what     string
	inv, res int64
	mask     uint32
}

type m02add struct {
	i, v      int
	inv, res  int64 // res 0: never returned
	ok, noted bool
	fault     bool
}

type m02 struct {
	r       *Run
	c       *m02cast
	clock   int64
	obs     []m02obs
	part    []m02obs // single index observations: mask = i<<2|value
	adds    []*m02add
	proofs  [][]m02obs
	mt      *merkletree.MerkleTree
	lv      int
	ctl     *env.FaultCtl
	ptrs    []*merkletree.Hash
	vals    []merkletree.Hash
	pending int
}

func (m *m02) tick() int64 { m.clock++; return m.clock }

func (m *m02) maskOf(what string, root mhash) uint32 {
	k, ok := m.c.roots[root]
	if !ok {
		m.r.Violate("root", "%s shows root %x, which no set of the added entries has", what, root[:6])
	}
	return k
}

func (m *m02) op(s *simrt.Stream, task int) {
	r := m.r
	i, v := s.Draw(m02n), s.Draw(2)
	e := m.c.e[i][v]
	f0 := m.ctl.Fired
	faulted := func() bool { return m.ctl.Fired > f0 }
	inv := m.tick()
	see := func(what string, mask uint32) {
		m.obs = append(m.obs, m02obs{what, inv, m.tick(), mask})
	}
	if m.pending > 0 {
		r.Probe("overlap")
	}
	switch s.Weighted(10, 4, 4, 6, 3, 3, 3) {
	case 0:
		a := &m02add{i: i, v: v, inv: inv}
		m.adds = append(m.adds, a)
		m.pending++
		sw := r.W.Switches()
		err := m.mt.AddEntry(&merkletree.Entry{Data: e.data})
		m.pending--
		if r.W.Switches() > sw {
			r.Probe("overlap")
		}
		a.res = m.tick()
		a.ok = err == nil
		a.fault = faulted()
		r.W.Log("add %d.%d -> %v", i, v, err)
		if err != nil && !errors.Is(err, merkletree.ErrEntryIndexAlreadyExists) && !faulted() {
			r.Violate("add", "adding an entry fails without a fault: %v", err)
		}
	case 1:
		k := m.mt.RootKey()
		m.ptrs, m.vals = append(m.ptrs, k), append(m.vals, *k)
		see("the root", m.maskOf("the root", mhash(*k)))
	case 2:
		hi := merkletree.Hash(e.hi)
		d, err := m.mt.GetDataByIndex(&hi)
		res := m.tick()
		switch {
		case err == nil:
			w := -1
			for x := range m.c.e[i] {
				if m.c.e[i][x].data == *d {
					w = x + 1
				}
			}
			if w < 0 {
				r.Violate("lookup", "a lookup returned data never added for its index")
			}
			m.part = append(m.part, m02obs{"lookup", inv, res, uint32(i<<2 | w)})
		case errors.Is(err, merkletree.ErrEntryIndexNotFound):
			m.part = append(m.part, m02obs{"lookup", inv, res, uint32(i << 2)})
		case !faulted():
			r.Violate("lookup", "a lookup fails: %v", err)
		}
	case 3:
		hi := merkletree.Hash(e.hi)
		p, err := m.mt.GenerateProof(&hi, nil)
		if err != nil {
			if !faulted() {
				r.Violate("proof", "no proof: %v", err)
			}
			return
		}
		inv2, res := inv, m.tick()
		// the proof does not name the value: try both
		var cands []m02obs
		for x := 0; x < 2; x++ {
			hv := merkletree.Hash(m.c.e[i][x].hv)
			root, err := merkletree.RootFromProof(p, &hi, &hv)
			if err != nil {
				r.Violate("proof", "a proof is not usable: %v", err)
			}
			if mask, ok := m.c.roots[mhash(*root)]; ok {
				have := mask >> uint(2*i) & 3
				if p.Existence && have != uint32(x+1) || !p.Existence && have != 0 {
					continue
				}
				cands = append(cands, m02obs{"a proof", inv2, res, mask})
				if !p.Existence {
					break
				}
			}
		}
		if len(cands) == 0 {
			r.Violate("proof", "a proof (existence=%v) generated during additions verifies against no state of the tree", p.Existence)
		}
		m.proofs = append(m.proofs, cands)
	case 4:
		root := m.mt.RootKey()
		sn, err := m.mt.Snapshot(root)
		if err != nil {
			if !faulted() {
				r.Violate("snapshot", "no snapshot of the current root: %v", err)
			}
			return
		}
		mask := m.maskOf("the root", mhash(*root))
		see("a snapshot", mask)
		hi := merkletree.Hash(e.hi)
		d, err := sn.GetDataByIndex(&hi)
		have := int(mask >> uint(2*i) & 3)
		if faulted() {
			return
		}
		if have == 0 && !errors.Is(err, merkletree.ErrEntryIndexNotFound) || have > 0 && (err != nil || *d != m.c.e[i][have-1].data) {
			r.Violate("snapshot", "a snapshot does not show what its root holds: %v", err)
		}
		if mhash(*sn.RootKey()) != mhash(*root) {
			r.Violate("snapshot", "a snapshot's root moved")
		}
	case 5:
		ls, err := m.mt.DumpClaims(nil)
		if err != nil {
			if !faulted() {
				r.Violate("dump", "dump: %v", err)
			}
			return
		}
		var mask uint32
		for _, l := range ls {
			b, err := common.HexDecode(l)
			if err != nil {
				r.Violate("dump", "dump: %v", err)
			}
			ok := false
			for x := range m.c.e {
				for y := range m.c.e[x] {
					db := m.c.e[x][y].data.Bytes()
					if bytes.Equal(db[:], b) {
						if mask>>uint(2*x)&3 != 0 {
							r.Violate("dump", "a dump holds an index twice")
						}
						mask |= uint32(y+1) << uint(2*x)
						ok = true
					}
				}
			}
			if !ok {
				r.Violate("dump", "a dump holds an entry never added")
			}
		}
		see("a claims dump", mask)
	case 6:
		var buf bytes.Buffer
		if err := m.mt.DumpTree(&buf, nil); err != nil {
			if !faulted() {
				r.Violate("dump", "tree dump: %v", err)
			}
			return
		}
		res := m.tick()
		mt2, err := merkletree.NewMerkleTree(db.NewMemoryStorage(), m.lv)
		r.Must(err, "new tree")
		if err := mt2.ImportTree(&buf); err != nil {
			r.Violate("dump", "a tree dump taken during additions cannot be imported: %v", err)
		}
		mask := m.maskOf("an imported tree dump", mhash(*mt2.RootKey()))
		m.obs = append(m.obs, m02obs{"a tree dump", inv, res, mask})
		for x := range m.c.e {
			hi := merkletree.Hash(m.c.e[x][0].hi)
			d, err := mt2.GetDataByIndex(&hi)
			have := int(mask >> uint(2*x) & 3)
			if have == 0 && !errors.Is(err, merkletree.ErrEntryIndexNotFound) || have > 0 && (err != nil || *d != m.c.e[x][have-1].data) {
				r.Violate("dump", "a tree dump taken during additions misses part of the tree its root names: %v", err)
			}
		}
	}
}

func has(mask uint32, i, v int) bool { return mask>>uint(2*i)&3 == uint32(v+1) }

// wrong tells why a set cannot have been held between the observation's call
// and its return.
func (m *m02) wrong(o m02obs) string {
	for i := 0; i < m02n; i++ {
		for v := 0; v < 2; v++ {
			started, done := false, false
			for _, a := range m.adds {
				if a.i == i && a.v == v {
					if a.inv < o.res && (a.ok || a.res == 0) {
						started = true
					}
					if a.ok && a.res != 0 && a.res < o.inv {
						done = true
					}
				}
			}
			if has(o.mask, i, v) && !started {
				return fmt.Sprintf("%s shows entry %d.%d, which was not added by then", o.what, i, v)
			}
			if done && !has(o.mask, i, v) {
				return fmt.Sprintf("%s misses entry %d.%d, whose addition had already returned", o.what, i, v)
			}
		}
	}
	return ""
}

// decide checks the history.
func (m *m02) decide() {
	r := m.r
	for n, p := range m.ptrs {
		if *p != m.vals[n] {
			r.Violate("root", "a root handed out earlier changed under its holder")
		}
	}
	// at most one winner per index
	for i := 0; i < m02n; i++ {
		n := 0
		for _, a := range m.adds {
			if a.i == i && a.ok {
				n++
			}
		}
		if n > 1 {
			r.Violate("add", "%d additions of one index were all accepted", n)
		}
	}
	// refused as duplicate only if some addition of the index took effect or could have
	for _, a := range m.adds {
		if a.ok || a.res == 0 || a.fault {
			continue
		}
		ok := false
		for _, b := range m.adds {
			if b != a && b.i == a.i && (b.ok || b.res == 0) && b.inv < a.res {
				ok = true
			}
		}
		if !ok {
			r.Violate("add", "an addition was refused as a duplicate although no other addition of its index took effect")
		}
	}
	for _, cands := range m.proofs {
		why := ""
		var keep []m02obs
		for _, o := range cands {
			if y := m.wrong(o); y == "" {
				keep = append(keep, o)
			} else {
				why = y
			}
		}
		switch len(keep) {
		case 0:
			r.Violate("linearizability", "%s", why)
		case 1:
			m.obs = append(m.obs, keep[0])
		}
	}
	for _, o := range m.obs {
		if y := m.wrong(o); y != "" {
			r.Violate("linearizability", "%s", y)
		}
	}
	for a := range m.obs {
		for b := range m.obs {
			x, y := m.obs[a], m.obs[b]
			// x sees mask bits pairwise (2 bits): subset relation
			sub := x.mask&y.mask == x.mask
			sup := x.mask&y.mask == y.mask
			if !sub && !sup {
				r.Violate("linearizability", "%s and %s show sets %x and %x: no order of additions passes through both", x.what, y.what, x.mask, y.mask)
			}
			if x.res < y.inv && !sub {
				r.Violate("linearizability", "%s shows less than %s did before it", y.what, x.what)
			}
			// an add that follows x in real time but precedes ... covered by started/done
		}
		// additions ordered in real time appear in that order
		for _, p := range m.adds {
			for _, q := range m.adds {
				if p.ok && q.ok && p.res < q.inv && has(m.obs[a].mask, q.i, q.v) && !has(m.obs[a].mask, p.i, p.v) {
					r.Violate("linearizability", "%s shows a later addition but not an earlier one", m.obs[a].what)
				}
			}
		}
	}
	for _, o := range m.part {
		i, v := int(o.mask>>2), int(o.mask&3)
		started, done := false, false
		for _, a := range m.adds {
			if a.i != i {
				continue
			}
			if a.inv < o.res && a.v == v-1 && (a.ok || a.res == 0) {
				started = true
			}
			if a.ok && a.res != 0 && a.res < o.inv {
				done = true
			}
		}
		if v > 0 && !started {
			r.Violate("linearizability", "a lookup found entry %d.%d before it was added", i, v-1)
		}
		if v == 0 && done {
			r.Violate("linearizability", "a lookup misses entry %d, whose addition had already returned", i)
		}
	}
}

func runM02(r *Run) {
	r.Profile()
	w := r.W
	sh := r.S("shape")
	node := w.NewNode("tree")
	level := sh.Chance(1, 3)
	m := &m02{r: r, c: m02get(sh.Draw(16)), lv: []int{140, 40, 240}[sh.Draw(3)]}
	m.ctl = &env.FaultCtl{W: w, S: r.S("storagefault")}
	if sh.Chance(1, 3) {
		m.ctl.Get, m.ctl.NewTx, m.ctl.Commit = 10, 30, 60
	}
	pre := sh.Draw(3)
	ntask := sh.Range(2, 5)
	crash := level && sh.Chance(1, 2)
	var base db.Storage
	var st0 []byte
	r.Call(node, "open", func() {
		if level {
			s, err := db.NewLevelDbStorage("/d", false)
			r.Must(err, "open")
			base = s
		} else {
			base = db.NewMemoryStorage()
		}
		var st db.Storage = &env.FaultStore{In: base, Ctl: m.ctl}
		if sh.Chance(1, 2) {
			st0 = []byte("t")
			st = st.WithPrefix(st0)
		}
		m.ctl.Off = true
		mt, err := merkletree.NewMerkleTree(st, m.lv)
		r.Must(err, "new tree")
		m.mt = mt
		for i := 0; i < pre; i++ {
			a := &m02add{i: i, v: 0, inv: m.tick()}
			if err := mt.AddEntry(&merkletree.Entry{Data: m.c.e[i][0].data}); err != nil {
				r.Violate("add", "add: %v", err)
			}
			a.res, a.ok = m.tick(), true
			m.adds = append(m.adds, a)
		}
		m.ctl.Off = false
	})
	ops := r.Ops(4, 26)
	tasks := make([][]int, ntask)
	for _, i := range ops {
		k := r.Op(i).Draw(ntask)
		tasks[k] = append(tasks[k], i)
	}
	if crash {
		node.CrashAfter(CrashDist(sh)*4, false)
	}
	var ts []*simrt.Task
	for k := range tasks {
		k := k
		if len(tasks[k]) == 0 {
			continue
		}
		ts = append(ts, w.Go(node, fmt.Sprintf("t%d", k), func() {
			for _, i := range tasks[k] {
				m.op(r.Op(i), k)
			}
		}))
	}
	ok := r.JoinAll("concurrent", ts...)
	node.CrashAfter(0, false)
	if !ok || node.Dead() {
		node.Restart()
		r.Probe("crash_during_concurrency")
	}
	m.ctl.Off = true
	r.Call(node, "end", func() {
		if !ok {
			s, err := db.NewLevelDbStorage("/d", true)
			if err != nil {
				r.Violate("open-failed", "the database cannot be opened after the crash: %v", err)
			}
			var st db.Storage = s
			if st0 != nil {
				st = st.WithPrefix(st0)
			}
			mt, err := merkletree.NewMerkleTree(st, m.lv)
			if err != nil {
				r.Violate("tree-open", "%v", err)
			}
			m.mt = mt
		}
		inv := m.tick()
		k := m.mt.RootKey()
		mask := m.maskOf("the final root", mhash(*k))
		m.obs = append(m.obs, m02obs{"the final root", inv, m.tick(), mask})
		r.State(mask)
		for x := range m.c.e {
			hi := merkletree.Hash(m.c.e[x][0].hi)
			d, err := m.mt.GetDataByIndex(&hi)
			have := int(mask >> uint(2*x) & 3)
			if have == 0 && !errors.Is(err, merkletree.ErrEntryIndexNotFound) || have > 0 && (err != nil || *d != m.c.e[x][have-1].data) {
				r.Violate("final", "the final tree does not hold what its root names: %v", err)
			}
		}
		m.decide()
	})
}
