package props

import (
	"errors"
	"fmt"
	"math/big"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/eth"
	"github.com/iden3/go-iden3-core/merkletree"

	"verif.local/sim/env"
	"verif.local/sim/simrt"
)

// C01, C02: the client of the contract of identity states and of the
// ethereum node.

func init() {
	real := []string{"components/idenpubonchain", "eth (client)", "eth/contracts: bindings, and the State and Verifier contracts in go-ethereum's EVM", "go-ethereum rpc, abi, keystore"}
	stub := []string{"ethereum node: JSON-RPC server, blocks, pool (model)", "network", "Groth16 prover (trapdoor of a toy set-up; the verifier contract gets its key)", "clock", "goroutine scheduler"}
	as := []string{"the node's answers may be missing, broken or up to four blocks old, but are not invented", "the contracts as compiled are right where they agree with the model"}
	register(&Prop{ID: "C01", Setup: ethSetup, Run: runC01, MaxSteps: 20e6,
		Rule:        "each run lets 1-3 clients, on one or several accounts, introduce and update 1-3 identities with valid and invalid proofs and query their states (latest, by block, by time, closest) at existing, missing, future and past places, while blocks get mined and reorganised and, in part of the runs, the node or the network fails, lags, breaks replies, hangs or is slow. Every answer must be that of the contract in some chain there was during the call (or at most four blocks behind, if the node lags); an error must have a cause. The EVM's verdicts are compared with the model's block by block. At the end, without faults, every query is answered exactly. Non-trivial: an identity with a state was queried.",
		Nontrivial:  []string{"state_read"},
		Real:        real,
		Stub:        stub,
		Assumptions: as})
	register(&Prop{ID: "C02", Setup: ethSetup, Run: runC01, MaxSteps: 20e6,
		Rule:        "the runs of C01, in which clients also ask for confirmations and receipts, wait for receipts with limits of 0-60 s, deploy contracts and ask for balances. Each call sends at most one transaction, which calls the contract with exactly the state and proof given; it is returned exactly when nothing failed; confirmations and receipts are those of some chain during the call, a failed transaction is always reported as such, no transaction that is in no block ever as confirmed; waiting ends within its limit and soon after the receipt is there, never before the limit without it. Non-trivial: a receipt was read or waited for.",
		Nontrivial:  []string{"receipt_read"},
		Real:        real,
		Stub:        stub,
		Assumptions: as})
}

func ethSetup() {
	issSetup()
	env.EthSetup(idStateCircuit.Vk)
}

type cIden struct {
	id  core.ID
	gen merkletree.Hash
	no  int64
	n   int64 // states made up for it
}

type cTx struct {
	t  *env.ChainTx
	tx *types.Transaction
}

type cClient struct {
	acc   int
	host  *simrt.Node
	ec    *eth.Client
	chain *env.EthChainer
}

type cWorld struct {
	r     *Run
	w     *simrt.World
	c     *env.Chain
	e     *env.EthNode
	ids   []*cIden
	cls   []*cClient
	txs   []*cTx
	stale bool
	busy  map[int]int // sends under way per account
	maxOp int64       // of a message without faults
	done  bool
}

func runC01(r *Run) {
	r.Profile()
	w := r.W
	w.SetConfig(func(c *simrt.Config) { c.Stall = 0 })
	sh := r.S("shape")
	c := env.NewChain(w, r.S("chain"), idStateCircuit.Vk)
	c.Latency = []int64{0, 5e6, 100e6}[sh.Draw(3)]
	m := &cWorld{r: r, w: w, c: c, busy: map[int]int{}, maxOp: 2*c.Latency + 60e6}
	e := env.NewEthNode(c, "geth")
	m.e = e
	e.OldGeth = sh.Chance(1, 4)
	e.Bad = func(f string, a ...interface{}) { r.About("C01 C02", "contract", f, a...) }
	hangs := false
	switch sh.Draw(5) {
	case 1: // the node fails
		c.CallErr, c.SendLost, c.RespLost = 40, 40, 40
	case 2: // it lags
		c.Stale = 150
	case 3: // all of it
		c.CallErr, c.SendLost, c.RespLost, c.Stale, c.TxFail = 30, 30, 30, 80, 60
		e.SlowRate, e.SlowMax = 60, 20e9
		hangs = true
	case 4: // the network
		c.TxFail = 60
		e.SlowRate, e.SlowMax = 40, 5e9
		w.Net().Rates = simrt.NetRates{Refuse: 30, ReqLost: 30, RespLost: 30, Truncate: 30, Dup: 60, Err5xx: 30}
	}
	m.stale = c.Stale > 0
	for i, n := 0, sh.Range(1, 3); i < n; i++ {
		x := &cIden{no: int64(i + 1)}
		copy(x.id[:], []byte(fmt.Sprintf("identity of the run no %d     ", i)))
		x.gen = *m.newState(x)
		m.ids = append(m.ids, x)
	}
	nCl := sh.Range(1, 3)
	shared := sh.Chance(1, 4)
	for i := 0; i < nCl; i++ {
		cl := &cClient{acc: i}
		if shared {
			cl.acc = 0
		}
		if i > 0 && sh.Chance(1, 8) {
			cl.acc = -1
		}
		cl.host = w.NewNode(fmt.Sprintf("client%d", i))
		m.cls = append(m.cls, cl)
		lim := []time.Duration{0, time.Second, 5 * time.Second, time.Minute}[sh.Draw(4)]
		r.Call(cl.host, "dial", func() {
			cl.chain = e.Chainer(cl.acc)
			cl.ec = e.Client(cl.acc)
			cl.ec.ReceiptTimeout = lim
		})
	}
	blocks := r.Ops(4, 40)
	var tasks []*simrt.Task
	for i, cl := range m.cls {
		i, cl := i, cl
		tasks = append(tasks, w.Go(cl.host, fmt.Sprintf("client%d", i), func() {
			for _, b := range blocks {
				if b%nCl != i {
					continue
				}
				m.step(cl, r.Op(b))
			}
		}))
	}
	// the chain goes on by itself
	ms := r.S("miner")
	period := []int64{1e9, 3e9, 13e9}[sh.Draw(3)]
	reorgs := sh.Chance(1, 3)
	node := w.NewNode("ethereum")
	miner := w.Go(node, "miner", func() {
		for !m.done {
			w.SleepNs(period/4 + int64(ms.Draw(4))*period/2)
			switch {
			case reorgs && ms.Chance(1, 5):
				c.Reorg(ms.Range(1, 3), ms.Draw(4))
			case hangs && ms.Chance(1, 10):
				e.Host.Hang = true
				w.Stats["fault.node_hangs"]++
				w.SleepNs(int64(ms.Range(1, 100)) * 1e9)
				e.Host.Hang = false
			default:
				c.Mine(ms.Draw(5))
			}
		}
	})
	r.JoinAll("client", tasks...)
	m.done = true
	r.JoinAll("miner", miner)
	m.finish()
}

// newState makes up a state; the same ones in every run, whose proofs then
// are known already.
func (m *cWorld) newState(x *cIden) *merkletree.Hash {
	x.n++
	return merkletree.NewHashFromBigInt(new(big.Int).Mul(big.NewInt(x.no<<20+x.n), big.NewInt(1000003)))
}

// proof of a step.
func (m *cWorld) proof(id *core.ID, old, new_ *merkletree.Hash) *zktypes.Proof {
	p, _, err := env.Prove(idStateCircuit.Pk, idStateCircuit.Witness(id.BigInt(), old.BigInt(), new_.BigInt()))
	m.r.Must(err, "prove")
	return p
}

// span is the time of a call.
type span struct {
	v0, v1 int
	t0, t1 int64
	faults int64
	fault  bool
}

func (m *cWorld) begin() *span {
	return &span{v0: len(m.c.Vers) - 1, t0: m.w.NowNs(), faults: m.w.Cur().Faults}
}

func (m *cWorld) end(s *span) {
	s.v1, s.t1 = len(m.c.Vers)-1, m.w.NowNs()
	s.fault = m.w.Cur().Faults > s.faults
}

// some reports whether any chain the node may have answered from during the
// call satisfies f.
func (m *cWorld) some(s *span, f func(bl []*env.Block) bool) bool {
	lag := 0
	if m.stale && !m.c.Off {
		lag = 4
	}
	for v := s.v1; v >= s.v0; v-- {
		for l := 0; l <= lag && l < len(m.c.Vers[v]); l++ {
			if f(m.c.Vers[v][:len(m.c.Vers[v])-l]) {
				return true
			}
		}
	}
	return false
}

// steady reports whether the chain was only ever extended during the call, so
// that what was so at an earlier query of the call was so at the later one.
func (m *cWorld) steady(s *span) bool {
	if m.stale && !m.c.Off {
		return false
	}
	for v := s.v0; v < s.v1; v++ {
		a, b := m.c.Vers[v], m.c.Vers[v+1]
		if len(a) > len(b) || len(a) > 0 && a[len(a)-1] != b[len(a)-1] {
			return false
		}
	}
	return true
}

var cSentinels = []error{idenpubonchain.ErrIdenNotOnChain, idenpubonchain.ErrIdenNotOnChainOrBlockTooNew, idenpubonchain.ErrIdenNotOnChainOrTimeTooNew, idenpubonchain.ErrIdenByBlockNotFound, idenpubonchain.ErrIdenByTimeNotFound}

// asked is what a query says.
type asked struct {
	kind int // 0 latest, 1 by block, 2 closest to block, 3 by time, 4 closest to time
	id   *core.ID
	n    uint64
	ts   int64
}

var cQueries = []string{"GetState", "GetStateByBlock", "GetStateClosestToBlock", "GetStateByTime", "GetStateClosestToTime"}

func (q asked) String() string {
	return fmt.Sprintf("%s(%x, block %d, time %d)", cQueries[q.kind], q.id[21:23], q.n, q.ts)
}

// expect is the contract's answer from a chain; any: an error of any kind.
func (q asked) expect(bl []*env.Block) (d *proof.IdenStateData, sentinel error, any bool) {
	h := env.HistOf(bl, q.id, 1<<62)
	head := bl[len(bl)-1]
	byTime := q.kind >= 3
	missing := idenpubonchain.ErrIdenNotOnChain
	switch q.kind {
	case 0:
		if len(h) == 0 {
			return nil, missing, false
		}
		return &h[len(h)-1], nil, false
	case 1, 2:
		missing = idenpubonchain.ErrIdenNotOnChainOrBlockTooNew
		if q.n >= head.N {
			return nil, nil, true
		}
	default:
		missing = idenpubonchain.ErrIdenNotOnChainOrTimeTooNew
		if q.ts >= head.Ts || q.ts < 0 {
			return nil, nil, true
		}
	}
	if len(h) == 0 {
		return nil, missing, false
	}
	for i := len(h) - 1; i >= 0; i-- {
		if !byTime && h[i].BlockN <= q.n || byTime && h[i].BlockTs <= q.ts {
			if q.kind == 1 && h[i].BlockN != q.n {
				return nil, idenpubonchain.ErrIdenByBlockNotFound, false
			}
			if q.kind == 3 && h[i].BlockTs != q.ts {
				return nil, idenpubonchain.ErrIdenByTimeNotFound, false
			}
			return &h[i], nil, false
		}
	}
	return nil, nil, true
}

func (m *cWorld) query(cl *cClient, q asked) {
	s := m.begin()
	var d *proof.IdenStateData
	var err error
	id := *q.id
	x := cl.chain.Inner
	switch q.kind {
	case 0:
		d, err = x.GetState(&id)
	case 1:
		d, err = x.GetStateByBlock(&id, q.n)
	case 2:
		d, err = x.GetStateClosestToBlock(&id, q.n)
	case 3:
		d, err = x.GetStateByTime(&id, q.ts)
	default:
		d, err = x.GetStateClosestToTime(&id, q.ts)
	}
	m.end(s)
	if id != *q.id {
		m.r.About("C01", "argument", "%v changed the identifier it was given", q)
	}
	m.r.Describe("  %v: %s, err=%v (fault=%v)", q, sdata(d), err, s.fault)
	if err == nil {
		if d == nil || d.IdenState == nil {
			m.r.About("C01", "answer", "%v: neither an answer nor an error", q)
		}
		if !m.c.Off {
			m.r.Probe("state_read")
		}
		if !m.some(s, func(bl []*env.Block) bool { w, _, _ := q.expect(bl); return w != nil && sameData(w, d) }) {
			m.r.About("C01", "answer", "%v answered %s, which the contract did not hold at any moment of the call", q, sdata(d))
		}
		return
	}
	if d != nil {
		m.r.About("C01", "answer", "%v returned both an answer and the error %v", q, err)
	}
	for _, e := range cSentinels {
		if errors.Is(err, e) {
			m.r.Probe("said_missing")
			if !m.some(s, func(bl []*env.Block) bool { _, w, any := q.expect(bl); return w == e || any }) {
				m.r.About("C01", "missing", "%v says %q, but the contract held it at every moment of the call (fault=%v)", q, err, s.fault)
			}
			return
		}
	}
	if !s.fault && !m.some(s, func(bl []*env.Block) bool { _, _, any := q.expect(bl); return any }) {
		m.r.About("C01", "refused", "%v failed without a cause: %v", q, err)
	}
}

func sdata(d *proof.IdenStateData) string {
	if d == nil {
		return "-"
	}
	return fmt.Sprintf("(block %d, time %d, %v)", d.BlockN, d.BlockTs, d.IdenState)
}

func sameData(a, b *proof.IdenStateData) bool {
	return a.BlockN == b.BlockN && a.BlockTs == b.BlockTs && *a.IdenState == *b.IdenState
}

func (m *cWorld) drawQuery(s *simrt.Stream) asked {
	q := asked{kind: s.Draw(5)}
	q.id = &m.ids[s.Draw(len(m.ids))].id
	if s.Chance(1, 10) {
		id := *q.id
		id[0] ^= 0x55
		q.id = &id
	}
	h := m.c.History(q.id)
	head := m.c.Head()
	if len(h) > 0 && s.Chance(2, 3) {
		d := h[s.Draw(len(h))]
		q.n, q.ts = d.BlockN, d.BlockTs
		if s.Chance(1, 3) {
			k := s.Draw(3) - 1
			q.n, q.ts = uint64(int64(q.n)+int64(k)), q.ts+int64(k)
		}
	} else {
		q.n = uint64(s.Draw(int(head.N) + 3))
		t0 := m.c.Blocks[0].Ts
		q.ts = t0 + int64(s.Draw(int(head.Ts-t0)+5))
		switch s.Draw(12) {
		case 1:
			q.n, q.ts = 1<<64-1, 1<<63-1
		case 2:
			q.n, q.ts = 1<<63, -1
		}
	}
	return q
}

// send introduces or updates an identity.
func (m *cWorld) send(cl *cClient, s *simrt.Stream) {
	x := m.ids[s.Draw(len(m.ids))]
	last := m.c.Last(&x.id)
	onChain := last != merkletree.HashZero
	// what the pool will make of it
	for _, t := range m.c.Pool {
		if t.Id == x.id && !t.Foreign {
			last, onChain = t.New, true
		}
	}
	initTx := !onChain
	if s.Chance(1, 10) {
		initTx = !initTx
	}
	old := last
	if initTx {
		old = x.gen
	}
	new_ := m.newState(x)
	pOld, pNew, pId := old, *new_, x.id
	if s.Chance(1, 6) {
		m.r.Probe("bad_proof")
		switch s.Draw(3) {
		case 0:
			pOld = *m.newState(&cIden{no: 77})
		case 1:
			pNew = *m.newState(&cIden{no: 78})
		default:
			pId[3] ^= 1
		}
	}
	p := m.proof(&pId, &pOld, &pNew)
	id, nw, g := x.id, *new_, x.gen
	sp := m.begin()
	sent0 := len(m.c.Sent)
	alone := m.busy[cl.acc] == 0
	m.busy[cl.acc]++
	var tx *types.Transaction
	var err error
	if initTx {
		tx, err = cl.chain.InitState(&id, &g, &nw, p)
	} else {
		tx, err = cl.chain.SetState(&id, &nw, p)
	}
	m.busy[cl.acc]--
	m.end(sp)
	var t *env.ChainTx
	n := 0
	for _, y := range m.c.Sent[sent0:] {
		if !y.Foreign && y.New == *new_ {
			t = y
			n++
		}
	}
	if cl.acc < 0 {
		if err == nil || n > 0 {
			m.r.About("C02", "send", "a client without an account sent a transaction (err=%v)", err)
		}
		return
	}
	for _, y := range m.c.Sent[sent0:] {
		if cl.acc == m.acc(y) {
			alone = alone && y == t
		}
	}
	m.r.Describe("  send init=%v id=%x new=%v: accepted=%v err=%v (fault=%v)", initTx, x.id[21:23], new_, t != nil, err, sp.fault)
	if n > 1 {
		m.r.About("C02", "send-twice", "one call sent %d transactions", n)
	}
	if id != x.id || nw != *new_ || g != x.gen {
		m.r.About("C02", "argument", "sending a state changed the arguments")
	}
	if err != nil {
		if !sp.fault && alone {
			m.r.About("C02", "send-refused", "sending a state failed without a cause: %v", err)
		}
		return
	}
	m.r.Probe("sent")
	if t == nil || tx == nil || tx.Hash() != t.Tx.Hash() {
		m.r.About("C02", "send-lost", "sending a state returned a transaction, but the node has not got it")
	}
	m.txs = append(m.txs, &cTx{t: t, tx: tx})
}

func (m *cWorld) acc(t *env.ChainTx) int {
	for i, a := range env.EthAccounts {
		if a.Address == t.From {
			return i
		}
	}
	return -2
}

// where finds the transaction in a chain.
func where(bl []*env.Block, t *env.ChainTx) *env.Block {
	for _, b := range bl {
		for _, x := range b.Txs {
			if x == t {
				return b
			}
		}
	}
	return nil
}

// failedIn tells whether it fails there: whatever the chain, the contract's
// verdict was recorded per block.
func failedIn(b *env.Block, t *env.ChainTx) bool { return !b.Good[t] }

func (m *cWorld) pickTx(s *simrt.Stream) *cTx {
	if len(m.txs) > 0 && !s.Chance(1, 12) {
		// mostly the latest ones
		n := len(m.txs)
		return m.txs[n-1-s.Draw((n+1)/2)]
	}
	return &cTx{tx: types.NewTransaction(99, common.Address{7}, big.NewInt(0), 1, big.NewInt(1), nil)}
}

// inAll reports whether every chain since a time held the transaction.
func (m *cWorld) inAll(t *env.ChainTx, v0, v1 int) bool {
	for v := v0; v <= v1; v++ {
		if where(m.c.Vers[v], t) == nil {
			return false
		}
	}
	return true
}

const cPoll = 200e6

func (m *cWorld) confirm(cl *cClient, x *cTx) {
	sp := m.begin()
	n, err := cl.chain.TxConfirmBlocks(x.tx)
	m.end(sp)
	m.r.Describe("  confirm: %v err=%v (fault=%v, %d ms)", n, err, sp.fault, (sp.t1-sp.t0)/1e6)
	if sp.t1-sp.t0 > 2e9+4*m.maxOp {
		m.r.About("C02", "slow", "asking for confirmations took %d ms", (sp.t1-sp.t0)/1e6)
	}
	if errors.Is(err, eth.ErrReceiptNotReceived) || err != nil && n == nil {
		if !sp.fault && (!errors.Is(err, eth.ErrReceiptNotReceived) || !m.some(sp, func(bl []*env.Block) bool { return where(bl, x.t) == nil })) {
			m.r.About("C02", "receipt-missing", "the transaction is in a block, but asking for its confirmations failed: %v", err)
		}
		if n != nil {
			m.r.About("C02", "confirmed", "a number of blocks (%v) was returned next to the error %v", n, err)
		}
		return
	}
	if n == nil || err != nil && !errors.Is(err, eth.ErrReceiptStatusFailed) {
		m.r.About("C02", "confirmed", "confirmations of a transaction: %v, err=%v", n, err)
		return
	}
	if !m.c.Off {
		m.r.Probe("receipt_read")
	}
	if err != nil {
		m.r.Probe("failed_read")
	}
	ok := m.some(sp, func(bl []*env.Block) bool {
		b := where(bl, x.t)
		if b == nil || failedIn(b, x.t) != (err != nil) {
			return false
		}
		is := func(b2 []*env.Block) bool {
			return n.IsInt64() && n.Int64() == int64(b2[len(b2)-1].N)-int64(b.N)
		}
		if m.steady(sp) {
			return is(bl)
		}
		return m.some(sp, is)
	})
	if !ok {
		m.r.About("C02", "confirmed", "a transaction is said to have %v confirmations (failed=%v), which was so at no moment of the call", n, err != nil)
	}
}

func (m *cWorld) receipt(cl *cClient, x *cTx, wait bool) {
	sp := m.begin()
	limit, what := int64(0), "GetReceipt"
	var rc *types.Receipt
	var err error
	if wait {
		limit, what = int64(cl.ec.ReceiptTimeout), "WaitReceipt"
		rc, err = cl.ec.WaitReceipt(x.tx)
	} else {
		rc, err = cl.ec.GetReceipt(x.tx)
	}
	m.end(sp)
	m.r.Describe("  %s (limit %d ms): %v err=%v (fault=%v, %d ms)", what, limit/1e6, rc != nil, err, sp.fault, (sp.t1-sp.t0)/1e6)
	if d := sp.t1 - sp.t0; d > limit+1e9+cPoll+4*m.maxOp {
		m.r.About("C02", "slow", "%s with a limit of %d ms took %d ms", what, limit/1e6, d/1e6)
	}
	if rc == nil {
		if !errors.Is(err, eth.ErrReceiptNotReceived) {
			m.r.About("C02", "receipt", "%s: no receipt, err=%v", what, err)
		}
		if wait && sp.t1-sp.t0 < limit {
			m.r.About("C02", "gave-up", "WaitReceipt gave up after %d ms, before its limit of %d ms", (sp.t1-sp.t0)/1e6, limit/1e6)
		}
		// there without a fault since before the last attempt
		if !sp.fault && x.t != nil {
			v := m.verAt(sp.t1 - cPoll - 2*m.maxOp)
			if v < sp.v0 {
				v = sp.v0
			}
			if m.inAll(x.t, v, sp.v1) {
				m.r.About("C02", "receipt-missing", "the transaction was in a block, but %s did not get its receipt", what)
			}
		}
		return
	}
	m.r.Probe("receipt_read")
	if err != nil && !errors.Is(err, eth.ErrReceiptStatusFailed) {
		m.r.About("C02", "receipt", "%s returned a receipt and the error %v", what, err)
	}
	ok := x.t != nil && rc.TxHash == x.tx.Hash() && m.some(sp, func(bl []*env.Block) bool {
		b := where(bl, x.t)
		return b != nil && rc.BlockNumber != nil && rc.BlockNumber.Cmp(new(big.Int).SetUint64(b.N)) == 0 && failedIn(b, x.t) == (err != nil) && (rc.Status == types.ReceiptStatusFailed) == (err != nil)
	})
	if !ok {
		m.r.About("C02", "receipt", "%s returned a receipt (block %v, status %d, err=%v) that no chain during the call had", what, rc.BlockNumber, rc.Status, err)
	}
	if wait && !sp.fault && !m.stale {
		if v := m.verAt(sp.t1 - cPoll - 2*m.maxOp); v > sp.v0 && m.inAll(x.t, v-1, sp.v1) {
			m.r.About("C02", "slow", "WaitReceipt returned long after the receipt was there")
		}
	}
}

// verAt is the chain there was at a time.
func (m *cWorld) verAt(t int64) int {
	for v := len(m.c.Vers) - 1; v > 0; v-- {
		if m.c.VerAt[v] <= t {
			return v
		}
	}
	return 0
}

func (m *cWorld) step(cl *cClient, s *simrt.Stream) {
	if s.Chance(1, 3) {
		m.w.SleepNs(int64(s.Draw(8)) * 1e9)
	}
	k := s.Weighted(6, 8, 3, 2, 2, 1, 1, 1)
	switch k {
	case 0:
		m.send(cl, s)
	case 1:
		m.query(cl, m.drawQuery(s))
	case 2:
		m.confirm(cl, m.pickTx(s))
	case 3:
		m.receipt(cl, m.pickTx(s), false)
	case 4:
		m.receipt(cl, m.pickTx(s), true)
	case 5:
		sp := m.begin()
		n, err := cl.ec.CurrentBlock()
		m.end(sp)
		if sp.t1-sp.t0 > 1e9+4*m.maxOp {
			m.r.About("C02", "slow", "asking for the current block took %d ms", (sp.t1-sp.t0)/1e6)
		}
		if err != nil {
			if !sp.fault {
				m.r.About("C02", "block-refused", "asking for the current block failed without a cause: %v", err)
			}
			return
		}
		if n == nil || !m.some(sp, func(bl []*env.Block) bool { return n.IsUint64() && n.Uint64() == bl[len(bl)-1].N }) {
			m.r.About("C02", "block", "the current block is said to be %v, which it was at no moment of the call", n)
		}
	case 6:
		a := env.EthAccounts[s.Draw(len(env.EthAccounts))].Address
		sp := m.begin()
		n, err := cl.ec.BalanceAt(a)
		m.end(sp)
		if err != nil {
			if !sp.fault {
				m.r.About("C02", "balance-refused", "asking for the balance failed without a cause: %v", err)
			}
			return
		}
		if n == nil || !m.some(sp, func(bl []*env.Block) bool { return m.e.Balance(bl[len(bl)-1], a).Cmp(n) == 0 }) {
			m.r.About("C02", "balance", "the balance of an account is said to be %v, which it was at no moment of the call", n)
		}
	default:
		m.deploy(cl, s)
	}
}

// deploy makes another contract of states.
func (m *cWorld) deploy(cl *cClient, s *simrt.Stream) {
	deps := &idenpubonchain.StateDepsAddresses{Verifier: &env.VerifierAddr}
	if s.Chance(1, 2) {
		deps = nil
	}
	sp := m.begin()
	alone := m.busy[cl.acc] == 0
	m.busy[cl.acc]++
	sent0 := len(m.c.Sent)
	res, err := idenpubonchain.DeployState(cl.ec, deps)
	m.busy[cl.acc]--
	m.end(sp)
	if cl.acc < 0 {
		if err == nil {
			m.r.About("C02", "send", "a client without an account deployed a contract")
		}
		return
	}
	for _, y := range m.c.Sent[sent0:] {
		alone = alone && (y.Foreign || m.acc(y) != cl.acc)
	}
	m.r.Describe("  deploy: err=%v (fault=%v, %d ms)", err, sp.fault, (sp.t1-sp.t0)/1e6)
	if err != nil {
		if !sp.fault && alone && !errors.Is(err, eth.ErrReceiptNotReceived) {
			m.r.About("C02", "deploy", "deploying failed without a cause: %v", err)
		}
		return
	}
	m.r.Probe("deployed")
	for _, d := range []*eth.ContractData{&res.Verifier, &res.State} {
		if d == &res.Verifier && deps != nil {
			if d.Address != env.VerifierAddr {
				m.r.About("C02", "deploy", "the given verifier contract is not the one in the result")
			}
			continue
		}
		if d.Tx == nil || d.Receipt == nil || d.Receipt.TxHash != d.Tx.Hash() || d.Receipt.Status != types.ReceiptStatusSuccessful || d.Receipt.ContractAddress != d.Address {
			m.r.About("C02", "deploy", "deploying succeeded, but its result is not that of a successful deployment to the address it names")
		}
		ok := m.some(sp, func(bl []*env.Block) bool {
			return m.e.SameCode(bl[len(bl)-1], d.Address, d == &res.State)
		})
		if !ok {
			m.r.About("C02", "deploy", "deploying succeeded, but the contract is not at the address it names")
		}
	}
}

// finish: without faults everything is answered exactly.
func (m *cWorld) finish() {
	c, w := m.c, m.w
	c.Off, m.e.Host.Hang = true, false
	w.Net().Rates = simrt.NetRates{}
	for i := 0; i < 20 && len(c.Pool) > 0 || i < 1; i++ {
		w.SleepNs(15e9)
		c.Mine(len(c.Pool))
	}
	cl := m.cls[0]
	m.r.Call(cl.host, "check", func() {
		for _, x := range m.ids {
			last := c.Last(&x.id)
			nw := m.newState(x)
			var tx *types.Transaction
			var err error
			id := x.id
			if last == merkletree.HashZero {
				tx, err = cl.chain.InitState(&id, &x.gen, nw, m.proof(&id, &x.gen, nw))
			} else {
				tx, err = cl.chain.SetState(&id, nw, m.proof(&id, &last, nw))
			}
			if err != nil {
				m.r.About("C02", "send-refused", "once the faults have stopped, a state cannot be sent: %v", err)
			}
			t := c.Sent[len(c.Sent)-1]
			if tx == nil || t.Tx.Hash() != tx.Hash() {
				m.r.About("C02", "send-lost", "the transaction returned is not the one the node got")
			}
			m.txs = append(m.txs, &cTx{t: t, tx: tx})
			w.SleepNs(15e9)
			c.Mine(len(c.Pool))
			if c.Last(&x.id) != *nw {
				m.r.About("C01 C02", "contract", "a state sent with a valid proof is not in the contract")
			}
			c.Mine(0)
			for _, q := range append([]asked{{kind: 0, id: &x.id}}, m.all(&x.id)...) {
				m.query(cl, q)
			}
		}
		for _, x := range m.txs {
			m.confirm(cl, x)
		}
	})
	m.r.State(len(c.Blocks), len(c.Sent), len(m.txs))
}

// all queries about an identity's history.
func (m *cWorld) all(id *core.ID) (qs []asked) {
	for i, d := range m.c.History(id) {
		qs = append(qs, asked{kind: 1 + i%2*2, id: id, n: d.BlockN, ts: d.BlockTs}, asked{kind: 2 + i%2*2, id: id, n: d.BlockN + 1, ts: d.BlockTs + 1})
	}
	if len(qs) > 6 {
		qs = qs[len(qs)-6:]
	}
	return
}
