package props

import (
	"bytes"
	"fmt"
	"math/big"
	"time"

	"github.com/ethereum/go-ethereum/core/types"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	offlocal "github.com/iden3/go-iden3-core/components/idenpuboffchain/local"
	onlocal "github.com/iden3/go-iden3-core/components/idenpubonchain/local"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"

	"verif.local/sim/env"
	"verif.local/sim/simrt"
)

// C03: the registry and the publisher within a process.

func init() {
	register(&Prop{ID: "C03", Setup: issSetup, Run: runC03, MaxSteps: 20e6,
		Rule:        "each run lets 2-4 tasks introduce and update 1-3 identities in the local registry, with valid, repeated, outdated and forged proofs, query it and ask for confirmations, while another one synchronises it block by block; the callers reuse the memory of the arguments. Accepted states must form, per identity, one chain of proven steps from its genesis state; they appear with the next synchronisation, with the block and time of the call, whole and unchanged, and stay; a valid step with nothing waiting is accepted. Meanwhile growing trees are published through the local publisher and fetched: every answer must be exactly the trees of its state, and the last one the latest. Non-trivial: two tasks overlapped.",
		Nontrivial:  []string{"overlap"},
		Real:        []string{"components/idenpubonchain/local", "components/idenpuboffchain/local", "merkletree", "Groth16 verifier"},
		Stub:        []string{"Groth16 prover (trapdoor of a toy set-up)", "clock and block number", "goroutine scheduler"},
		Assumptions: []string{"blocks advance with each synchronisation"}})
}

// c03op is a call of InitState or SetState.
type c03op struct {
	x              *cIden
	init, valid    bool
	old, new_      merkletree.Hash
	inv, res       int64 // model time; res 0: under way
	block0, block1 uint64
	ts0, ts1       int64
	ok             bool
	sync           int64 // model time when the Sync that applied it ended
	tx             *types.Transaction
}

type c03 struct {
	r     *Run
	w     *simrt.World
	reg   *onlocal.IdenPubOnChain
	pub   *offlocal.IdenPubOffChain
	ids   []*cIden
	ops   []*c03op
	clock int64
	block uint64
	ts    int64
	under int
	syncs []([2]int64) // finished ones
	cur   int64        // start of the Sync under way, 0 if none
	// the publisher
	pubs    []*c03pub
	pubUrl  string
	pubLast int
}

type c03pub struct {
	id       core.ID
	state    merkletree.Hash
	rot, ret merkletree.Hash
	cl       merkletree.Hash
	rotDump  []byte
	retDump  []byte
	inv, res int64
	ok       bool
}

func (m *c03) time() int64 {
	m.ts += 2
	if now := m.w.NowNs() / 1e9; m.ts < now {
		m.ts = now + now&1
	}
	return m.ts
}

func (m *c03) tick() int64 { m.clock++; return m.clock }

func (m *c03) enter() {
	m.under++
	if m.under > 1 {
		m.r.Probe("overlap")
	}
}

func runC03(r *Run) {
	r.Profile()
	w := r.W
	w.SetConfig(func(c *simrt.Config) { c.Stall = 0 })
	sh := r.S("shape")
	m := &c03{r: r, w: w, block: 2 * uint64(sh.Draw(150))}
	m.ts = w.NowNs() / 1e9
	m.ts += m.ts & 1
	// the blocks and seconds go on with every look at them, so that no two
	// states share one; odd ones are never told
	m.reg = onlocal.New(func() time.Time { return time.Unix(m.time(), 0) }, func() uint64 { m.block += 2; return m.block }, idStateCircuit.Vk)
	m.pubUrl = "http://localhost/idenpublicdata/"
	m.pub = offlocal.NewIdenPubOffChain(m.pubUrl)
	for i, n := 0, sh.Range(1, 3); i < n; i++ {
		x := &cIden{no: int64(i + 1)}
		copy(x.id[:], []byte(fmt.Sprintf("identity of the run no %d     ", i)))
		x.gen = *stateOf(x)
		m.ids = append(m.ids, x)
	}
	blocks := r.Ops(4, 40)
	n := sh.Range(2, 4)
	node := w.NewNode("host")
	var tasks []*simrt.Task
	for i := 0; i < n; i++ {
		i := i
		tasks = append(tasks, w.Go(node, fmt.Sprintf("task%d", i), func() {
			for _, b := range blocks {
				if b%n == i {
					m.step(r.Op(b))
				}
			}
		}))
	}
	tasks = append(tasks, w.Go(node, "sync", func() {
		s := r.S("sync")
		for k := len(blocks)/2 + 1; k > 0; k-- {
			w.SleepNs(1e9 + int64(s.Draw(4))*1e9)
			m.sync()
		}
	}))
	tasks = append(tasks, w.Go(node, "publisher", func() { m.publisher(r.S("publisher"), len(blocks)/3+1) }))
	r.JoinAll("task", tasks...)
	r.Call(node, "check", m.finish)
}

func stateOf(x *cIden) *merkletree.Hash {
	x.n++
	return merkletree.NewHashFromBigInt(new(big.Int).Mul(big.NewInt(x.no<<20+x.n), big.NewInt(1000003)))
}

func (m *c03) sync() {
	t0 := m.tick()
	m.cur = t0
	m.reg.Sync()
	t1 := m.tick()
	m.cur = 0
	m.syncs = append(m.syncs, [2]int64{t0, t1})
	for _, o := range m.ops {
		if o.ok && o.res != 0 && o.res < t0 && o.sync == 0 {
			o.sync = t1
		}
	}
	m.block += 2
	m.r.Describe("synchronised; block %d", m.block)
}

// head is the last accepted state, applied or not.
func (m *c03) head(x *cIden) (last merkletree.Hash, waiting, busy bool) {
	for _, o := range m.ops {
		if o.x != x {
			continue
		}
		if o.res == 0 {
			busy = true
		}
		if o.ok {
			last = o.new_
			if o.sync == 0 {
				waiting = true
			}
		}
	}
	return
}

func (m *c03) send(s *simrt.Stream) {
	x := m.ids[s.Draw(len(m.ids))]
	last, _, _ := m.head(x)
	o := &c03op{x: x, init: last == merkletree.HashZero, valid: true, old: last}
	if s.Chance(1, 8) {
		o.init = !o.init
	}
	if o.init {
		o.old = x.gen
	}
	if s.Chance(1, 8) { // on an older state
		var olds []merkletree.Hash
		for _, p := range m.ops {
			if p.x == x && p.ok {
				olds = append(olds, p.old)
			}
		}
		if len(olds) > 0 {
			o.old = olds[s.Draw(len(olds))]
		}
	}
	o.new_ = *stateOf(x)
	pId, pNew := x.id, o.new_
	if s.Chance(1, 8) {
		o.valid = false
		if s.Chance(1, 3) { // no change at all
			o.new_ = o.old
		}
		if s.Chance(1, 2) {
			pId[3] ^= 1
		} else {
			pNew = *stateOf(&cIden{no: 78})
		}
		m.r.Probe("bad_proof")
	}
	p, _, err := env.Prove(idStateCircuit.Pk, idStateCircuit.Witness(pId.BigInt(), o.old.BigInt(), pNew.BigInt()))
	m.r.Must(err, "prove")
	// the caller's own memory, used again afterwards
	id, nw, gen := x.id, o.new_, x.gen
	m.enter()
	last, waiting, busy := m.head(x)
	o.inv, o.block0, o.ts0 = m.tick(), m.block, m.ts
	m.ops = append(m.ops, o)
	var tx *types.Transaction
	if o.init {
		tx, err = m.reg.InitState(&id, &gen, &nw, p)
	} else {
		tx, err = m.reg.SetState(&id, &nw, p)
	}
	same := id == x.id && nw == o.new_ && gen == x.gen
	id, nw, gen = core.ID{9}, merkletree.Hash{9}, merkletree.Hash{9}
	m.under--
	o.res, o.block1, o.ts1 = m.tick(), m.block, m.time()
	o.ok, o.tx = err == nil, tx
	for _, q := range m.ops {
		if q != o && q.x == x && (q.res == 0 || q.res > o.inv) {
			busy = true
		}
	}
	if len(m.syncs) > 0 && m.syncs[len(m.syncs)-1][1] > o.inv || m.cur != 0 {
		busy = true
	}
	m.r.Describe("%s %x: %v -> %v (valid=%v): err=%v", map[bool]string{true: "init", false: "set"}[o.init], x.id[21:23], o.old, o.new_, o.valid, err)
	if !same {
		m.r.About("C03", "argument", "the arguments of a call were changed")
	}
	if err == nil && tx == nil {
		m.r.About("C03", "transaction", "a step was accepted without a transaction")
	}
	if err == nil && !o.valid {
		m.r.About("C03", "forged", "a step without a valid proof was accepted")
	}
	if err != nil && o.valid && !waiting && !busy && o.init == (last == merkletree.HashZero) && (o.init || o.old == last) {
		m.r.About("C03", "refused", "a valid step of an identity with nothing waiting was refused: %v", err)
	}
}

// dataOf checks an answer of the registry and finds the call behind it.
func (m *c03) dataOf(what string, x *cIden, d *proof.IdenStateData, res int64) *c03op {
	if d == nil || d.IdenState == nil {
		m.r.About("C03", "answer", "%s: neither an answer nor an error", what)
		return nil
	}
	for _, o := range m.ops {
		if o.x == x && o.new_ == *d.IdenState && (o.ok || o.res == 0) {
			b1, t1 := o.block1, o.ts1
			if o.res == 0 {
				b1, t1 = m.block, m.time()
			}
			if d.BlockN&1 != 0 || d.BlockTs&1 != 0 || d.BlockN < o.block0 || d.BlockN > b1 || d.BlockTs < o.ts0 || d.BlockTs > t1 {
				m.r.About("C03", "answer", "%s: the state has block %d and time %d, but was sent in blocks %d-%d at %d-%d", what, d.BlockN, d.BlockTs, o.block0, b1, o.ts0, t1)
			}
			applied := m.cur != 0
			for _, y := range m.syncs {
				applied = applied || y[1] > o.inv
			}
			if !applied {
				m.r.About("C03", "early", "%s: the state was there before it was synchronised", what)
			}
			return o
		}
	}
	m.r.About("C03", "answer", "%s answered a state (%v) that was not accepted for the identity", what, d.IdenState)
	return nil
}

func (m *c03) query(s *simrt.Stream) {
	x := m.ids[s.Draw(len(m.ids))]
	var done []*c03op
	for _, o := range m.ops {
		if o.x == x && o.ok && o.sync != 0 {
			done = append(done, o)
		}
	}
	m.enter()
	id := x.id
	inv := m.tick()
	d, err := m.reg.GetState(&id)
	m.under--
	res := m.tick()
	if err != nil {
		if len(done) > 0 {
			m.r.About("C03", "missing", "the identity has a state in the registry, but asking for it failed: %v", err)
		}
		return
	}
	o := m.dataOf("GetState", x, d, res)
	if len(done) > 0 && o != nil && o.res != 0 && o.res < done[len(done)-1].inv {
		m.r.About("C03", "outdated", "the registry answered a state older than the last one synchronised")
	}
	if o == nil || o.sync == 0 || o.sync > inv {
		return
	}
	was, wasState := *d, *d.IdenState
	m.place(x, o, d)
	if s.Chance(1, 2) {
		// the caller's own copy
		*d.IdenState = merkletree.Hash{9}
		d.BlockN, d.BlockTs = 1<<50, 1
		m.place(x, o, &proof.IdenStateData{BlockN: was.BlockN, BlockTs: was.BlockTs, IdenState: &wasState})
	}
}

// place asks for a state where it was set.
func (m *c03) place(x *cIden, o *c03op, d *proof.IdenStateData) {
	id := x.id
	for k := 0; k < 2; k++ {
		var e *proof.IdenStateData
		var err error
		what := "GetStateByBlock"
		if k == 0 {
			e, err = m.reg.GetStateByBlock(&id, d.BlockN)
		} else {
			what = "GetStateByTime"
			e, err = m.reg.GetStateByTime(&id, d.BlockTs)
		}
		if err != nil || !sameData(d, e) {
			m.r.About("C03", "place", "%s: the state %s is not found where it was set: %s, err=%v", what, sdata(d), sdata(e), err)
		}
	}
	for k, n := range []uint64{d.BlockN + 1<<40, 1<<64 - 1} {
		if e, err := m.reg.GetStateByBlock(&id, n); err == nil {
			m.r.About("C03", "place", "a state (%s) is found at a block in which none was set (%d)", sdata(e), k)
		}
	}
}

func (m *c03) confirm(s *simrt.Stream) {
	var os []*c03op
	for _, o := range m.ops {
		if o.ok && o.tx != nil {
			os = append(os, o)
		}
	}
	if len(os) == 0 {
		return
	}
	o := os[s.Draw(len(os))]
	b0 := m.block
	n, err := m.reg.TxConfirmBlocks(o.tx)
	b1 := m.block
	if err != nil || n == nil {
		m.r.About("C03", "confirmed", "asking for the confirmations of an accepted step failed: %v", err)
		return
	}
	if !n.IsInt64() || n.Int64() > int64(b1-o.block0) || n.Int64() < int64(b0)-int64(o.block1) {
		m.r.About("C03", "confirmed", "a step sent in block %d has %v confirmations in block %d", o.block0, n, b1)
	}
	m.r.Probe("confirmed")
}

func (m *c03) step(s *simrt.Stream) {
	if s.Chance(1, 3) {
		m.w.SleepNs(int64(s.Draw(4)) * 1e9)
	}
	switch s.Weighted(5, 4, 2, 4) {
	case 0:
		m.send(s)
	case 1:
		m.query(s)
	case 2:
		m.confirm(s)
	default:
		m.fetch(s)
	}
}

func (m *c03) finish() {
	m.block += 2
	m.w.SleepNs(2e9)
	m.sync()
	for _, x := range m.ids {
		// the accepted steps make one chain
		next := map[merkletree.Hash]*c03op{}
		var first *c03op
		n := 0
		for _, o := range m.ops {
			if o.x != x || !o.ok {
				continue
			}
			n++
			if o.init {
				if first != nil {
					m.r.About("C03", "forked", "an identity was introduced twice")
				}
				first = o
				continue
			}
			if next[o.old] != nil {
				m.r.About("C03", "forked", "two steps from the same state were accepted")
			}
			next[o.old] = o
		}
		id := x.id
		if n == 0 {
			if _, err := m.reg.GetState(&id); err == nil {
				m.r.About("C03", "answer", "an identity that was never introduced has a state")
			}
			continue
		}
		last := first
		for k := 0; last != nil && k < n; k++ {
			d, err := m.reg.GetStateByBlock(&id, last.block0)
			for b := last.block0 + 1; err != nil && b <= last.block1; b++ {
				d, err = m.reg.GetStateByBlock(&id, b)
			}
			if err != nil || *d.IdenState != last.new_ {
				m.r.About("C03", "lost", "an accepted state is not in the registry after the synchronisation: %s, err=%v", sdata(d), err)
				return
			}
			m.dataOf("GetStateByBlock", x, d, m.tick())
			m.place(x, last, d)
			if k == n-1 {
				break
			}
			last = next[last.new_]
		}
		if last == nil {
			m.r.About("C03", "forked", "the accepted steps are not one chain from the genesis state")
			return
		}
		d, err := m.reg.GetState(&id)
		if err != nil || *d.IdenState != last.new_ {
			m.r.About("C03", "lost", "the last accepted state is not the one the registry answers: %s, err=%v", sdata(d), err)
		}
	}
	for i := range m.pubs {
		m.fetchAt(i, false, false)
	}
	m.r.State(len(m.ops), m.block, len(m.pubs))
}

// publisher publishes growing trees.
func (m *c03) publisher(s *simrt.Stream, n int) {
	mk := func() *merkletree.MerkleTree {
		mt, err := merkletree.NewMerkleTree(db.NewMemoryStorage(), 40)
		m.r.Must(err, "tree")
		return mt
	}
	cl, rev, rot := mk(), mk(), mk()
	nonce := uint32(0)
	dump := func(mt *merkletree.MerkleTree) []byte {
		b := bytes.NewBuffer(nil)
		m.r.Must(mt.DumpTree(b, mt.RootKey()), "dump")
		return b.Bytes()
	}
	grow := func() {
		switch s.Draw(3) {
		case 0:
			nonce++
			m.r.Must(rev.AddEntry(claims.NewLeafRevocationsTree(nonce, 0xffffffff).Entry()), "revoke")
		case 1:
			nonce++
			m.r.Must(cl.AddEntry(claims.NewClaimBasic([claims.IndexSlotLen]byte{byte(nonce), byte(nonce >> 8)}, [claims.ValueSlotLen]byte{1}).Entry()), "claim")
		default:
			nonce++
			var h merkletree.Hash
			h[0], h[1] = byte(nonce), byte(nonce>>8)
			m.r.Must(rot.AddEntry(claims.NewLeafRootsTree(h).Entry()), "root")
		}
	}
	publish := func(p *c03pub, d *idenpuboffchain.PublicData) {
		id := p.id
		m.enter()
		p.inv, p.res, p.ok = m.tick(), 0, false
		m.pubs = append(m.pubs, p)
		err := m.pub.Publish(&id, d)
		id = core.ID{9}
		m.under--
		p.res, p.ok = m.tick(), err == nil
		m.r.Describe("published %v: err=%v", p.state, err)
		if err != nil {
			m.r.About("C03", "publish", "publishing failed: %v", err)
		}
	}
	first := len(m.pubs)
	for i := 0; i < n; i++ {
		if len(m.pubs) > first+1 && s.Chance(1, 4) { // an earlier state again
			o := m.pubs[first+s.Draw(len(m.pubs)-first)]
			st, a, b, c := o.state, o.cl, o.ret, o.rot
			rv, err := rev.Snapshot(&b)
			m.r.Must(err, "snapshot")
			rt, err := rot.Snapshot(&c)
			m.r.Must(err, "snapshot")
			again := *o
			publish(&again, &idenpuboffchain.PublicData{IdenState: &st, ClaimsTreeRoot: &a, RevocationsTreeRoot: &b, RevocationsTree: rv, RootsTreeRoot: &c, RootsTree: rt})
			m.r.Probe("republished")
			continue
		}
		for k := s.Draw(4); k > 0; k-- {
			grow()
		}
		p := &c03pub{id: m.ids[0].id, cl: *cl.RootKey(), rot: *rot.RootKey(), ret: *rev.RootKey(), rotDump: dump(rot), retDump: dump(rev)}
		p.state = *core.IdenState(&p.cl, &p.ret, &p.rot)
		st, a, b, c := p.state, p.cl, p.ret, p.rot
		publish(p, &idenpuboffchain.PublicData{IdenState: &st, ClaimsTreeRoot: &a, RevocationsTreeRoot: &b, RevocationsTree: rev, RootsTreeRoot: &c, RootsTree: rot})
		st, a, b, c = merkletree.Hash{9}, merkletree.Hash{9}, merkletree.Hash{9}, merkletree.Hash{9}
		m.w.SleepNs(int64(s.Draw(4)) * 1e9)
		for k := s.Draw(3); k > 0; k-- {
			grow()
		}
		m.w.SleepNs(int64(s.Draw(3)) * 1e9)
	}
}

func (m *c03) fetch(s *simrt.Stream) {
	if len(m.pubs) == 0 {
		return
	}
	i := s.Draw(len(m.pubs))
	m.fetchAt(i, s.Chance(1, 3), s.Chance(1, 2))
	if s.Chance(1, 4) {
		id, st := m.pubs[i].id, merkletree.Hash{5}
		if _, err := m.pub.GetPublicData(m.pubUrl, &id, &st); err == nil {
			m.r.About("C03", "published", "a state that was never published is found")
		}
		st = m.pubs[i].state
		if _, err := m.pub.GetPublicData(m.pubUrl+"x", &id, &st); err == nil {
			m.r.About("C03", "published", "data is found at an address that is not the publisher's")
		}
	}
}

func (m *c03) fetchAt(i int, last, write bool) {
	p := m.pubs[i]
	id, st := p.id, p.state
	at := &st
	if last {
		at = nil
	}
	must := 0 // the publication that must be there
	for k, q := range m.pubs {
		if q.ok && q.res != 0 {
			must = k + 1
		}
	}
	there := p.ok && p.res != 0
	m.enter()
	d, err := m.pub.GetPublicData(m.pubUrl, &id, at)
	m.under--
	if err != nil {
		if there && !last || must > 0 && last {
			m.r.About("C03", "published", "published data is not found: %v", err)
		}
		return
	}
	if d == nil || d.IdenState == nil || d.ClaimsTreeRoot == nil || d.RevocationsTree == nil || d.RootsTree == nil || d.RevocationsTreeRoot == nil || d.RootsTreeRoot == nil {
		m.r.About("C03", "published", "published data is incomplete")
		return
	}
	var q *c03pub
	k := 0
	for j, y := range m.pubs {
		if y.state == *d.IdenState {
			q, k = y, j+1
		}
	}
	if q == nil || !last && *d.IdenState != p.state {
		m.r.About("C03", "published", "the data found is of another state (%v) than the one asked for", d.IdenState)
		return
	}
	if last && k < must {
		m.r.About("C03", "published", "the last published data is that of publication %d, not %d", k, must)
	}
	a, b := bytes.NewBuffer(nil), bytes.NewBuffer(nil)
	e1, e2 := d.RootsTree.DumpTree(a, nil), d.RevocationsTree.DumpTree(b, nil)
	m.r.Probe("fetched")
	if *d.ClaimsTreeRoot != q.cl || *d.RevocationsTreeRoot != q.ret || *d.RootsTreeRoot != q.rot || *d.RevocationsTree.RootKey() != q.ret || *d.RootsTree.RootKey() != q.rot ||
		e1 != nil || e2 != nil || !bytes.Equal(a.Bytes(), q.rotDump) || !bytes.Equal(b.Bytes(), q.retDump) {
		m.r.About("C03", "published", "the data found for a state is not that of the state: roots %v %v %v instead of %v %v %v", d.ClaimsTreeRoot, d.RevocationsTree.RootKey(), d.RootsTree.RootKey(), &q.cl, &q.ret, &q.rot)
	}
	if write {
		// the caller's own copy
		*d.IdenState, *d.ClaimsTreeRoot, *d.RevocationsTreeRoot, *d.RootsTreeRoot = merkletree.Hash{9}, merkletree.Hash{9}, merkletree.Hash{9}, merkletree.Hash{9}
		d.RootsTree, d.RevocationsTree = d.RevocationsTree, d.RootsTree
	}
}
