package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"

	"github.com/iden3/go-iden3-core/common"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"

	"verif.local/sim/env"
	"verif.local/sim/simrt"
)

func init() {
	register(&Prop{ID: "M01", Setup: mtSetup, Run: runM01,
		Rule:        "each run grows one merkle tree (memory or LevelDB on the simulated disk, 4-140 levels, entries with index paths sharing up to ~20 bits) through additions, duplicate and invalid additions, lookups, proofs, snapshots, walks and reopenings at the current and at every earlier root, while storage reads, transaction starts and commits fail and the process crashes or loses power; the tree must agree with an independent model of the map and of its root. Non-trivial: a storage fault hit an operation, or a crash was recovered.",
		Nontrivial:  []string{"op_hit_by_fault", "recovered_after_crash"},
		Real:        []string{"merkletree", "db", "goleveldb engine", "poseidon"},
		Stub:        []string{"disk"},
		Assumptions: []string{"the hash function is collision free on the inputs used"},
	})
}

type m01 struct {
	r      *Run
	node   *simrt.Node
	level  bool
	st     db.Storage
	ctl    *env.FaultCtl
	mt     *merkletree.MerkleTree
	lv     int
	have   map[mhash]mentry
	hist   []mhash // roots in order
	states []map[mhash]mentry
	pref   []byte
}

func (m *m01) entries(st map[mhash]mentry) []mentry {
	var es []mentry
	for _, e := range st {
		es = append(es, e)
	}
	return sortEntries(es)
}

func runM01(r *Run) {
	r.Profile()
	w := r.W
	sh := r.S("shape")
	m := &m01{r: r, node: w.NewNode("tree"), have: map[mhash]mentry{}}
	m.level = sh.Chance(1, 2)
	m.lv = []int{140, 10, 24, 40, 6, 4, 240}[sh.Draw(7)]
	m.ctl = &env.FaultCtl{W: w, S: r.S("storagefault")}
	if sh.Chance(1, 2) {
		m.ctl.Get, m.ctl.NewTx, m.ctl.Commit = 15, 40, 80
		if sh.Chance(1, 3) {
			m.ctl.Get = 120
		}
	}
	if m.level && sh.Chance(1, 3) {
		m.node.Faults = r.S("diskfault")
	}
	if sh.Chance(1, 2) {
		m.pref = []byte("tree:")
	}
	ops := r.Ops(5, 60)
	cast := mtCast(sh, []int{3, 6, 12, 30}[sh.Draw(4)])
	var base db.Storage
	open := func(missing bool) {
		r.Call(m.node, "open", func() {
			if m.level {
				s, err := db.NewLevelDbStorage("/d", missing)
				if err != nil {
					r.Violate("open-failed", "the database cannot be opened: %v", err)
				}
				base = s
			} else if base == nil {
				base = db.NewMemoryStorage()
			}
			m.st = &env.FaultStore{In: base, Ctl: m.ctl}
			if m.pref != nil {
				m.st = m.st.WithPrefix(m.pref)
			}
			m.load(true)
		})
	}
	m.hist = []mhash{{}}
	m.states = []map[mhash]mentry{{}}
	open(false)
	crashed := false
	var pend *mentry
	for _, i := range ops {
		s := r.Op(i)
		if m.level && s.Chance(1, 6) {
			m.node.CrashAfter(CrashDist(s)%600+1, s.Chance(1, 2))
		}
		done := r.Call(m.node, fmt.Sprintf("op%d", i), func() { m.op(i, s, cast, &pend) })
		m.node.CrashAfter(0, false)
		if !done {
			crashed = true
			m.node.Restart()
			m.ctl.Off = true
			m.node.Rates = simrt.DiskRates{}
			base = nil
			powerPossible := pend != nil
			_ = powerPossible
			r.Call(m.node, "reopen", func() {
				s, err := db.NewLevelDbStorage("/d", true)
				if err != nil {
					r.Violate("open-failed", "the database cannot be opened after the crash: %v", err)
				}
				base = s
				m.st = &env.FaultStore{In: s, Ctl: m.ctl}
				if m.pref != nil {
					m.st = m.st.WithPrefix(m.pref)
				}
				m.recover(pend)
			})
			m.ctl.Off = false
			pend = nil
			r.Probe("recovered_after_crash")
		}
	}
	_ = crashed
	m.ctl.Off = true
	r.Call(m.node, "final", func() {
		if m.level {
			base.Close()
			s, err := db.NewLevelDbStorage("/d", true)
			if err != nil {
				r.Violate("open-failed", "reopening: %v", err)
			}
			base = s
			m.st = s
			if m.pref != nil {
				m.st = m.st.WithPrefix(m.pref)
			}
		}
		m.load(false)
		for k := range m.hist {
			m.audit(k)
		}
	})
}

// load opens the tree object over the storage; with faults it must either
// fail or come back exactly as stored.
func (m *m01) load(retry bool) {
	r := m.r
	for n := 0; ; n++ {
		f0 := m.ctl.Fired
		mt, err := merkletree.NewMerkleTree(m.st, m.lv)
		if err != nil {
			if m.ctl.Fired == f0 && m.node.Rates == (simrt.DiskRates{}) {
				r.Violate("tree-open", "opening the tree fails without a fault: %v", err)
			}
			r.Probe("op_hit_by_fault")
			if n > 20 {
				m.ctl.Off = true
			}
			continue
		}
		m.mt = mt
		break
	}
	cur := m.hist[len(m.hist)-1]
	if got := mhash(*m.mt.RootKey()); got != cur {
		r.Violate("reset", "a reopened tree has root %x; %x was reached before", got[:6], cur[:6])
	}
}

// recover checks the tree after a crash: some state it had since the last
// known-durable one (process crash: the last acknowledged, or that plus the
// addition in flight).
func (m *m01) recover(pend *mentry) {
	r := m.r
	mt, err := merkletree.NewMerkleTree(m.st, m.lv)
	if err != nil {
		r.Violate("tree-open", "opening the tree after a crash: %v", err)
	}
	root := mhash(*mt.RootKey())
	power := r.W.Stats["fault.power_loss"] > 0
	m.mt = mt
	if pend != nil {
		st := map[mhash]mentry{}
		for k, v := range m.have {
			st[k] = v
		}
		st[pend.hi] = *pend
		if nr := mroot(m.entries(st), 0); nr == root {
			m.have = st
			m.hist = append(m.hist, nr)
			m.states = append(m.states, st)
			for k := range m.hist {
				m.audit(k)
			}
			return
		}
	}
	lo := len(m.hist) - 1
	if power {
		lo = 0 // commits are not synced: power loss may take the newest ones
	}
	for k := len(m.hist) - 1; k >= lo; k-- {
		if m.hist[k] == root {
			m.hist, m.states = m.hist[:k+1], m.states[:k+1]
			m.have = map[mhash]mentry{}
			for h, e := range m.states[k] {
				m.have[h] = e
			}
			for j := range m.hist {
				m.audit(j)
			}
			return
		}
	}
	r.Violate("crash-root", "after a crash the root is %x, which is not a state the tree may recover to (last acknowledged %x)", root[:6], m.hist[len(m.hist)-1][:6])
}

// audit compares the tree at version k with the model, completely.
func (m *m01) audit(k int) {
	r := m.r
	root := merkletree.Hash(m.hist[k])
	es := m.entries(m.states[k])
	seen := map[mhash]bool{}
	err := m.mt.Walk(&root, func(n *merkletree.Node) {
		if n.Type == merkletree.NodeTypeLeaf {
			e := newEntryModel(n.Entry.Data)
			if seen[e.hi] {
				r.Violate("audit", "walk of version %d visits an entry twice", k)
			}
			seen[e.hi] = true
			if w, ok := m.states[k][e.hi]; !ok || w.data != e.data {
				r.Violate("audit", "walk of version %d finds an entry that is not in it", k)
			}
		}
	})
	if err != nil {
		r.Violate("audit", "version %d (root %x) can no longer be walked: %v", k, root[:6], err)
	}
	if len(seen) != len(es) {
		r.Violate("audit", "walk of version %d finds %d entries of %d", k, len(seen), len(es))
	}
	for _, e := range es {
		m.prove(k, e, true)
	}
}

// prove checks lookups and proofs for one index at version k.
func (m *m01) prove(k int, e mentry, quiet bool) {
	r := m.r
	root := merkletree.Hash(m.hist[k])
	hi, hv := merkletree.Hash(e.hi), merkletree.Hash(e.hv)
	in, ok := m.states[k][e.hi]
	f0 := m.ctl.Fired
	p, err := m.mt.GenerateProof(&hi, &root)
	if err != nil {
		if m.ctl.Fired > f0 {
			r.Probe("op_hit_by_fault")
			return
		}
		// a path longer than the tree allows cannot be proven
		if errors.Is(err, merkletree.ErrEntryIndexNotFound) && !ok && m.tooDeep(k, e) {
			return
		}
		r.Violate("proof", "no proof for an index at version %d: %v", k, err)
	}
	if p.Existence != ok {
		r.Violate("proof", "at version %d the proof says existence=%v for an index whose presence is %v", k, p.Existence, ok)
	}
	// transport
	p2, err := merkletree.NewProofFromBytes(p.Bytes())
	if err != nil {
		r.Violate("proof", "a serialised proof does not parse: %v", err)
	}
	js, err := json.Marshal(p)
	if err != nil {
		r.Violate("proof", "proof to JSON: %v", err)
	}
	var p3 merkletree.Proof
	if err := json.Unmarshal(js, &p3); err != nil {
		r.Violate("proof", "proof from JSON: %v", err)
	}
	for n, q := range []*merkletree.Proof{p, p2, &p3} {
		v := hv
		if ok {
			v = merkletree.Hash(in.hv)
		}
		if !merkletree.VerifyProof(&root, q, &hi, &v) {
			r.Violate("proof", "a genuine proof (form %d, existence=%v) at version %d does not verify", n, ok, k)
		}
		if ok {
			bad := v
			bad[0] ^= 1
			if merkletree.VerifyProof(&root, q, &hi, &bad) {
				r.Violate("proof", "a proof verifies for another value")
			}
		}
		for j := range m.hist {
			if j != k && m.hist[j] != m.hist[k] {
				o := merkletree.Hash(m.hist[j])
				if merkletree.VerifyProof(&o, q, &hi, &v) && q.Existence {
					r.Violate("proof", "a proof for one version verifies against another")
				}
				break
			}
		}
	}
	// all siblings, as the circuits take them
	if sib := p.AllSiblings(); len(sib) > m.lv {
		r.Violate("proof", "more siblings than levels")
	}
}

func (m *m01) tooDeep(k int, e mentry) bool {
	for _, o := range m.states[k] {
		n := 0
		for n < 256 && bit(o.hi, n) == bit(e.hi, n) {
			n++
		}
		if n >= m.lv-1 {
			return true
		}
	}
	// a path of only middle nodes
	return mdepth(append(m.entries(m.states[k]), e), e) >= m.lv
}

func (m *m01) op(i int, s *simrt.Stream, cast []int, pend **mentry) {
	r := m.r
	if m.node.Faults != nil {
		m.node.Rates = simrt.DiskRates{}
	}
	ver := len(m.hist) - 1
	if s.Chance(1, 2) {
		ver = s.Draw(len(m.hist))
	}
	ci := cast[s.Draw(len(cast))]
	e := mtPool[ci][0]
	root := merkletree.Hash(m.hist[ver])
	cur := merkletree.Hash(m.hist[len(m.hist)-1])
	f0 := m.ctl.Fired
	faulted := func() bool { return m.ctl.Fired > f0 }
	switch s.Weighted(10, 2, 1, 4, 4, 4, 2, 2, 2, 2) {
	case 0, 1: // add
		v := s.Draw(len(mtPool[ci]))
		e = mtPool[ci][v]
		old, dup := m.have[e.hi]
		st := map[mhash]mentry{}
		for k, x := range m.have {
			st[k] = x
		}
		st[e.hi] = e
		deep := false
		if !dup {
			es := m.entries(st)
			for _, x := range es {
				if mdepth(es, x) > m.lv-1 {
					deep = true
				}
			}
		}
		r.Describe("op %d: add entry %d.%d (duplicate=%v, beyond the levels=%v)", i, ci, v, dup, deep)
		if m.level && !dup && !deep {
			ee := e
			*pend = &ee
		}
		ent := &merkletree.Entry{Data: e.data}
		err := m.mt.AddEntry(ent)
		*pend = nil
		if faulted() {
			r.Probe("op_hit_by_fault")
		}
		switch {
		case err == nil && (dup || deep):
			r.Violate("add", "adding a duplicate (value equal: %v) or too deep entry was accepted", dup && old.data == e.data)
		case err == nil:
			m.have = st
			m.hist = append(m.hist, mroot(m.entries(st), 0))
			m.states = append(m.states, st)
		case faulted():
		case dup && errors.Is(err, merkletree.ErrEntryIndexAlreadyExists):
		case deep && errors.Is(err, merkletree.ErrReachedMaxLevel):
		default:
			r.Violate("add", "adding an entry (duplicate=%v, too deep=%v) failed without a fault: %v", dup, deep, err)
		}
		want := m.hist[len(m.hist)-1]
		if got := mhash(*m.mt.RootKey()); got != want {
			r.Violate("root", "after an addition that returned %v the root is %x; the entries have root %x", err, got[:6], want[:6])
		}
		r.State(want)
	case 2: // not in the field
		d := e.data
		d[s.Draw(8)] = merkletree.ElemBytes{0: 1, 31: 0xff, 30: 0xff, 29: 0xff}
		if err := m.mt.AddEntry(&merkletree.Entry{Data: d}); err == nil {
			r.Violate("add", "an entry outside the field was accepted")
		}
		if err := m.mt.EntryExists(&merkletree.Entry{Data: d}, nil); err == nil {
			r.Violate("exists", "an entry outside the field exists")
		}
		no := root
		no[s.Draw(30)] ^= 1 << uint(s.Draw(8))
		hi := merkletree.Hash(e.hi)
		if _, err := m.mt.GenerateProof(&hi, &no); err == nil && no != merkletree.HashZero {
			r.Violate("proof", "a proof for a root that the tree never had")
		}
		if err := m.mt.EntryExists(&merkletree.Entry{Data: e.data}, &no); err == nil {
			r.Violate("exists", "an entry exists under a root that the tree never had")
		}
		if _, err := m.mt.Snapshot(&no); err == nil && no != merkletree.HashZero {
			r.Violate("snapshot", "a snapshot for a root that the tree never had")
		}
		if got := mhash(*m.mt.RootKey()); got != mhash(cur) {
			r.Violate("root", "a refused addition changed the root")
		}
	case 3: // lookup
		hi := merkletree.Hash(e.hi)
		d, err := m.mt.GetDataByIndex(&hi)
		in, ok := m.have[e.hi]
		if err != nil && faulted() {
			r.Probe("op_hit_by_fault")
			if errors.Is(err, merkletree.ErrEntryIndexNotFound) {
				r.Violate("lookup", "a storage failure is reported as a missing entry")
			}
			return
		}
		if ok && (err != nil || *d != in.data) {
			r.Violate("lookup", "entry %d reads %v, %v", ci, d, err)
		}
		if !ok && !errors.Is(err, merkletree.ErrEntryIndexNotFound) {
			r.Violate("lookup", "a missing entry reads %v", err)
		}
	case 4: // exists?
		v := s.Draw(len(mtPool[ci]))
		e = mtPool[ci][v]
		rk := &root
		if ver == len(m.hist)-1 && s.Chance(1, 2) {
			rk = nil
		}
		err := m.mt.EntryExists(&merkletree.Entry{Data: e.data}, rk)
		in, ok := m.states[ver][e.hi]
		if faulted() {
			r.Probe("op_hit_by_fault")
			if err == nil && !(ok && in.data == e.data) {
				r.Violate("exists", "a storage failure makes an entry exist")
			}
			if errors.Is(err, merkletree.ErrEntryIndexNotFound) && ok {
				r.Violate("exists", "a storage failure is reported as a missing entry")
			}
			return
		}
		switch {
		case !ok && !errors.Is(err, merkletree.ErrEntryIndexNotFound):
			r.Violate("exists", "a missing entry at version %d: %v", ver, err)
		case ok && in.data == e.data && err != nil:
			r.Violate("exists", "an entry of version %d: %v", ver, err)
		case ok && in.data != e.data && !errors.Is(err, merkletree.ErrEntryDataNotMatch):
			r.Violate("exists", "version %d holds another value for the index, yet the answer is: %v", ver, err)
		}
	case 5: // proof
		m.prove(ver, e, false)
	case 6: // snapshot
		sn, err := m.mt.Snapshot(&root)
		if err != nil {
			if faulted() {
				return
			}
			r.Violate("snapshot", "no snapshot of version %d: %v", ver, err)
		}
		if mhash(*sn.RootKey()) != m.hist[ver] {
			r.Violate("snapshot", "a snapshot has another root")
		}
		if err := sn.AddEntry(&merkletree.Entry{Data: e.data}); !errors.Is(err, merkletree.ErrNotWritable) {
			r.Violate("snapshot", "writing to a snapshot: %v", err)
		}
		hi := merkletree.Hash(e.hi)
		d, err := sn.GetDataByIndex(&hi)
		in, ok := m.states[ver][e.hi]
		if err == nil && (!ok || *d != in.data) || errors.Is(err, merkletree.ErrEntryIndexNotFound) && ok {
			r.Violate("snapshot", "a snapshot of version %d reads %v, %v; presence %v", ver, d, err, ok)
		}
	case 7: // claims dump
		ls, err := m.mt.DumpClaims(&root)
		if err != nil {
			if faulted() {
				return
			}
			r.Violate("dump", "dump of version %d: %v", ver, err)
		}
		es := m.states[ver]
		if len(ls) != len(es) {
			r.Violate("dump", "dump of version %d has %d entries of %d", ver, len(ls), len(es))
		}
		for _, l := range ls {
			b, err := common.HexDecode(l)
			if err != nil {
				r.Violate("dump", "dump: %v", err)
			}
			ok := false
			for _, x := range es {
				db := x.data.Bytes()
				if bytes.Equal(db[:], b) {
					ok = true
				}
			}
			if !ok {
				r.Violate("dump", "a dumped entry is not in version %d", ver)
			}
		}
	case 8: // reopen the object
		r.Describe("op %d: reopen the tree", i)
		m.load(true)
	case 9: // unknown root
		bad := root
		bad[3] ^= 0x40
		if _, err := m.mt.Snapshot(&bad); err == nil {
			r.Violate("snapshot", "a snapshot of a root that never existed was given")
		}
	}
}
