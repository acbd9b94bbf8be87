package props

import (
	"errors"
	"fmt"

	"github.com/iden3/go-iden3-core/components/verifier"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/merkletree"

	"verif.local/sim/env"
	"verif.local/sim/simrt"
)

// I07: one identity used by several goroutines.

func init() {
	register(&Prop{ID: "I07", Setup: issSetup, Run: runI07, MaxSteps: 40e6,
		Rule:        "each run lets 2-4 tasks use one identity at once: issue distinct and contested claims, revoke, publish, synchronise, ask for state, credentials and ownership inputs, while blocks get mined and, in part of the runs, storage transactions fail; tasks switch at seeded statements. Every state reported must hold exactly the operations finished before plus some of those under way, never fewer than an earlier answer; of contested claims one is issued; whatever is sent has a valid proof from the state before and its public data published; afterwards the trees are those of the acknowledged operations, and the state gets on chain. Non-trivial: operations of at least two tasks overlapped.",
		Nontrivial:  []string{"overlap"},
		Real:        []string{"identity/issuer", "core/claims", "merkletree", "db", "goleveldb engine", "keystore", "idenpuboffchain/writerhttp", "Groth16 verifier"},
		Stub:        []string{"chain and contract (model)", "Groth16 prover (trapdoor of a toy set-up)", "witness calculator (Go function)", "disk", "clock", "goroutine scheduler"},
		Assumptions: []string{"each claim object is handed over by one goroutine at a time", "transactions of one account are mined in the order they were sent and are not dropped from the pool"}})
}

type i07op struct {
	kind     byte // c or r
	c        *issClaim
	inv, res int64 // res 0: under way
	ok       bool
	seen     int64 // when an answer first showed it
}

type i07 struct {
	*issEnv
	clock    int64
	ops      []*i07op
	under    int
	pubInv   []int64 // publications under way
	lastSent merkletree.Hash
	credOK   map[*issClaim]int64
	onchain  int64 // when a state on chain was first reported
	lastData *proof.IdenStateData
	lastAt   int64
	memo     map[string]mhash
}

func (m *i07) tick() int64 { m.clock++; return m.clock }

// begin and end mark an operation for the overlap measure.
func (m *i07) begin() int64 {
	m.under++
	if m.under > 1 {
		m.r.Probe("overlap")
	}
	return m.tick()
}

func (m *i07) end() int64 { m.under--; return m.tick() }

// root of the genesis steps and the operations.
func (m *i07) root(kind byte, ops []*i07op) mhash {
	key := string(kind)
	for _, o := range ops {
		key += fmt.Sprintf(",%x%x", o.c.em.hi, o.c.em.hv)
	}
	if h, ok := m.memo[key]; ok {
		return h
	}
	steps := append([]issStep{}, m.log...)
	for _, o := range ops {
		c := *o.c // its entry may change meanwhile
		steps = append(steps, issStep{kind: o.kind, c: &c})
	}
	h := rootOf(steps, kind)
	m.memo[key] = h
	return h
}

// explain checks a root seen between inv and res: the operations finished
// before inv, or seen before it, plus some of those under way until res.
func (m *i07) explain(what string, kind byte, got mhash, inv, res int64) (in []*i07op, ok bool) {
	var must, may []*i07op
	for _, o := range m.ops {
		if o.kind != kind || o.inv > res || o.res != 0 && !o.ok {
			continue
		}
		if o.res != 0 && o.res < inv || o.seen != 0 && o.seen < inv {
			must = append(must, o)
		} else {
			may = append(may, o)
		}
	}
	if len(may) > 7 {
		m.r.Probe("unchecked_window")
		return nil, false
	}
	for s := 0; s < 1<<uint(len(may)); s++ {
		ops := append([]*i07op{}, must...)
		for i, o := range may {
			if s>>uint(i)&1 == 1 {
				ops = append(ops, o)
			}
		}
		if m.root(kind, ops) == got {
			for i, o := range may {
				if s>>uint(i)&1 == 1 && (o.seen == 0 || o.seen > res) {
					o.seen = res
				}
			}
			return ops, true
		}
	}
	m.r.Violate("state", "%s: a root of the identity is not explained by the operations that had finished (%d) and those under way (%d)", what, len(must), len(may))
	return nil, false
}

// instant checks that both roots are those of one moment: with an operation,
// everything that had finished before it started is there.
func (m *i07) instant(what string, cl, rv mhash, inv, res int64) {
	a, ok1 := m.explain(what, 'c', cl, inv, res)
	b, ok2 := m.explain(what, 'r', rv, inv, res)
	if !ok1 || !ok2 {
		return
	}
	in := map[*i07op]bool{}
	revoked := map[uint32]bool{}
	for _, o := range append(append([]*i07op{}, a...), b...) {
		in[o] = true
		if o.kind == 'r' {
			revoked[o.c.nonce] = true
		}
	}
	for _, o := range append(append([]*i07op{}, a...), b...) {
		for _, x := range m.ops {
			if x.ok && x.res != 0 && x.res < o.inv && !in[x] && !(x.kind == 'r' && revoked[x.c.nonce]) {
				m.r.Violate("state", "%s: the roots are not those of one moment: an operation is there, and another one that had finished before it started is not", what)
			}
		}
	}
}

func (m *i07) addOp(kind byte, c *issClaim, inv int64) *i07op {
	o := &i07op{kind: kind, c: c, inv: inv}
	m.ops = append(m.ops, o)
	return o
}

func (m *i07) issue(s *simrt.Stream, c claims.Claimer) {
	r := m.r
	f0 := m.faultsNow()
	hi := leafEntry(c.Entry()).hi
	k := &issClaim{c: c}
	inv := m.begin()
	// the model entry is known once the nonce is; while it is under way the
	// claim is looked at with its current metadata
	o := m.addOp('c', k, inv)
	k.em = leafEntry(c.Entry())
	m.n0(o)
	err := m.is.IssueClaim(c)
	em, data, nonce := leafEntry(c.Entry()), c.Entry().Data, c.Metadata().RevNonce
	// nothing the scheduler can interrupt from here on
	res := m.end()
	k.em, k.entry, k.nonce = em, &merkletree.Entry{Data: data}, nonce
	o.res, o.ok = res, err == nil
	m.memo = map[string]mhash{}
	r.Describe("issue nonce=%d -> %v", k.nonce, err)
	clash := func(x *i07op) bool { return x != o && x.kind == 'c' && x.c.em.hi == hi }
	if err != nil {
		for _, x := range m.ops {
			if clash(x) && x.inv < res && (x.res == 0 || x.ok) {
				return
			}
		}
		for _, g := range m.claims {
			if g.em.hi == hi {
				return
			}
		}
		if m.faultsNow() == f0 {
			r.Violate("refused", "issuing a new claim failed with no fault: %v", err)
		}
		return
	}
	for _, x := range m.ops {
		if clash(x) && x.ok {
			r.Violate("contested", "two claims with one index were issued")
		}
		if x != o && x.kind == 'c' && x.ok && x.c.nonce == k.nonce {
			r.Violate("nonce", "two claims of the identity have the revocation nonce %d", k.nonce)
		}
	}
	for _, g := range m.claims {
		if g.em.hi == hi {
			r.Violate("contested", "a claim with the index of a genesis claim was issued")
		}
		if g.nonce == k.nonce {
			r.Violate("nonce", "two claims of the identity have the revocation nonce %d", k.nonce)
		}
	}
}

// n0: an operation under way changes its claim's entry; forget what was
// computed with it.
func (m *i07) n0(o *i07op) { m.memo = map[string]mhash{} }

func (m *i07) refreshUnderWay() {
	for _, o := range m.ops {
		if o.res == 0 && o.kind == 'c' {
			if e := leafEntry(o.c.c.Entry()); o.res == 0 && e != o.c.em {
				o.c.em = e
				m.memo = map[string]mhash{}
			}
		}
	}
}

func (m *i07) pickIssued(s *simrt.Stream) *issClaim {
	var l []*issClaim
	l = append(l, m.claims...)
	for _, o := range m.ops {
		if o.kind == 'c' && o.ok {
			l = append(l, o.c)
		}
	}
	return l[s.Draw(len(l))]
}

func (m *i07) op(s *simrt.Stream, shared []claims.Claimer) {
	r := m.r
	if s.Chance(1, 5) {
		r.W.SleepNs(int64(s.Draw(4)) * 1e9)
	}
	switch s.Weighted(26, 14, 12, 14, 14, 10, 4, 4) {
	case 0:
		if len(shared) > 0 && s.Chance(1, 4) {
			en := &merkletree.Entry{Data: shared[s.Draw(len(shared))].Entry().Data}
			en.Data[6][3] ^= byte(s.Draw(3))
			m.issue(s, claims.NewClaimGeneric(en))
			return
		}
		m.issue(s, m.newClaim(s, &core.ID{9, 9}))
	case 1:
		k := m.pickIssued(s)
		f0 := m.faultsNow()
		inv := m.begin()
		o := m.addOp('r', k, inv)
		err := m.is.RevokeClaim(claims.NewClaimGeneric(&merkletree.Entry{Data: k.entry.Data}))
		o.res, o.ok = m.end(), err == nil
		r.Describe("revoke nonce=%d -> %v", k.nonce, err)
		if err != nil && m.faultsNow() == f0 {
			for _, x := range m.ops {
				if x != o && x.kind == 'r' && x.c.nonce == k.nonce && (x.res == 0 || x.ok) {
					return
				}
			}
			r.Violate("refused", "revoking an issued claim failed with no fault: %v", err)
		}
	case 2:
		f0 := m.faultsNow()
		m.pubInv = append(m.pubInv, m.begin())
		i := len(m.pubInv) - 1
		err := m.is.PublishState()
		m.end()
		m.pubInv[i] = 0
		r.Describe("publish -> %v", err)
		if err != nil && !errors.Is(err, issuer.ErrIdenStatePendingNotNil) && m.faultsNow() == f0 {
			r.Violate("publish-error", "publishing failed with no fault: %v", err)
		}
	case 3:
		f0 := m.faultsNow()
		m.begin()
		err := m.is.SyncIdenStatePublic()
		m.end()
		r.Describe("sync -> %v", err)
		if err != nil && m.faultsNow() == f0 {
			r.Violate("sync-error", "synchronising failed with no fault: %v", err)
		}
	case 4:
		inv := m.begin()
		a := m.actual()
		res := m.end()
		if mstate(a.cl, a.rv, a.rt) != a.state {
			r.Violate("state", "the state reported is not that of its roots")
		}
		m.refreshUnderWay()
		m.instant("State", a.cl, a.rv, inv, res)
	case 5:
		k := m.pickIssued(s)
		f0 := m.faultsNow()
		inv := m.begin()
		cred, err := m.is.GenCredentialExistence(claims.NewClaimGeneric(&merkletree.Entry{Data: k.entry.Data}))
		res := m.end()
		r.Describe("credential nonce=%d -> %v", k.nonce, err)
		switch {
		case err == nil:
			if verr := verifier.New(m.ch).VerifyCredentialExistence(cred); verr != nil {
				r.Violate("credential", "a credential the identity made does not verify: %v", verr)
			}
			if t := m.credOK[k]; t == 0 {
				m.credOK[k] = res
			}
			m.sawData(&cred.IdenStateData, inv, res)
			r.Probe("credential")
		case m.faultsNow() != f0:
		case errors.Is(err, issuer.ErrIdenStateOnChainZero):
			if m.onchain != 0 && m.onchain < inv {
				r.Violate("credential", "a credential is refused for want of a state on chain, which was reported before")
			}
		case errors.Is(err, issuer.ErrClaimNotYetInOnChainState):
			if t := m.credOK[k]; t != 0 && t < inv {
				r.Violate("credential", "a claim that had a credential is said not to be in the state on chain")
			}
		default:
			r.Violate("credential", "no credential for an issued claim: %v", err)
		}
	case 6:
		m.begin()
		p, transacted := m.is.IdenStatePending()
		m.end()
		if transacted && *p == merkletree.HashZero {
			r.Violate("pending", "nothing is pending, but its transaction is reported as sent")
		}
		inv := m.begin()
		d := m.is.StateDataOnChain()
		m.sawData(d, inv, m.end())
	case 7:
		m.begin()
		in, err := m.is.GenIdOwnershipGenesisInputs(zkLevels)
		m.end()
		if err == nil {
			err = ownsGenesis(in.Id, in.PrivateKey, in.ClaimsTreeRoot, in.MtpSiblings)
		} else if m.ctl.Fired > 0 {
			return
		}
		if err != nil {
			r.Violate("ownership", "the ownership inputs do not prove ownership: %v", err)
		}
	}
}

// sawData: the state taken for the one on chain is one of the chain's, and
// later answers are not older.
func (m *i07) sawData(d *proof.IdenStateData, inv, res int64) {
	if *d.IdenState == merkletree.HashZero {
		if m.onchain != 0 && m.onchain < inv {
			m.r.Violate("on-chain", "the state on chain was forgotten")
		}
		return
	}
	if m.onchain == 0 {
		m.onchain = res
	}
	found := false
	for _, h := range m.ch.History(&m.id) {
		if *h.IdenState == *d.IdenState && h.BlockN == d.BlockN && h.BlockTs == d.BlockTs {
			found = true
		}
	}
	if !found {
		m.r.Violate("on-chain", "the state taken for the one on chain is not in the chain with that block")
	}
	if m.ch.Head().N < d.BlockN+m.cfg.ConfirmBlocks {
		m.r.Violate("on-chain", "a state is taken for final before the required confirmations")
	}
	if m.lastData != nil && m.lastAt < inv && d.BlockN < m.lastData.BlockN {
		m.r.Violate("on-chain", "the state on chain reported is older than one reported before")
	}
	if m.lastData == nil || d.BlockN >= m.lastData.BlockN {
		if m.lastData == nil || d.BlockN > m.lastData.BlockN {
			m.lastAt = res
		}
		x := *d
		m.lastData = &x
	}
}

func (m *i07) onSend(t *env.ChainTx) {
	r := m.r
	if t.New == m.lastSent && t.Id == m.id {
		return // sent again, as the first time failed or was not recorded
	}
	old := m.lastSent
	if t.Init {
		old = merkletree.Hash(m.genesis)
	}
	if t.Id != m.id || t.Init != (m.lastSent == merkletree.HashZero) || t.Init && t.Genesis != old {
		r.Violate("sent", "a state of another identity was sent, or introduced again, or updated before being introduced")
	}
	if !m.ch.ValidProof(t.Proof, &m.id, &old, &t.New) {
		r.Violate("sent", "the proof sent is not of the step from the state sent before")
	}
	if !t.Init {
		h := m.ch.History(&m.id)
		if len(h) == 0 || *h[len(h)-1].IdenState != old || m.ch.Head().N < h[len(h)-1].BlockN+m.cfg.ConfirmBlocks {
			r.Violate("sent", "a state was sent while the one before is not final")
		}
	}
	m.lastSent = t.New
	b, err := m.wr.GetPublicData(&t.New)
	if err != nil {
		if m.ctl.Fired > 0 {
			return
		}
		r.Violate("off-chain", "a state was sent whose public data is not published: %v", err)
	}
	if mstate(mhash(b.ClaimsTreeRoot), mhash(b.RevocationsTreeRoot), mhash(b.RootsTreeRoot)) != mhash(t.New) {
		r.Violate("off-chain", "the public data of a state sent is of another state")
	}
	if m.ctl.Fired == 0 {
		inv := m.clock
		for _, i := range m.pubInv {
			if i != 0 && i < inv {
				inv = i
			}
		}
		m.refreshUnderWay()
		m.instant("PublishState", mhash(b.ClaimsTreeRoot), mhash(b.RevocationsTreeRoot), inv, m.clock)
	}
}

func runI07(r *Run) {
	r.Profile()
	sh := r.S("shape")
	e := issWorld(r, sh, sh.Chance(1, 3))
	e.cfg.ConfirmBlocks = uint64(sh.Draw(3))
	e.ch.Latency = []int64{0, 5e6, 200e6}[sh.Draw(3)]
	e.create(e.genesisClaims(sh))
	e.load("first load")
	e.settle("first load", nil, false)
	m := &i07{issEnv: e, credOK: map[*issClaim]int64{}, memo: map[string]mhash{}}
	e.ch.OnSend = m.onSend
	var shared []claims.Claimer
	for i := sh.Draw(4); i > 0; i-- {
		shared = append(shared, claims.NewClaimGeneric(&merkletree.Entry{Data: e.newClaim(sh, nil).Entry().Data}))
	}
	ntask := sh.Range(2, 4)
	if sh.Chance(1, 4) {
		e.ctl.NewTx, e.ctl.Get, e.ctl.Commit = sh.Draw(3)*10, sh.Draw(3)*4, sh.Draw(4)*20
		e.ctl.Off = false
	}
	ops := r.Ops(4, 24)
	tasks := make([][]int, ntask)
	for _, i := range ops {
		k := r.Op(i).Draw(ntask)
		tasks[k] = append(tasks[k], i)
	}
	ms := r.S("miner")
	miner := r.W.Go(nil, "miner", func() {
		for !e.stopped {
			r.W.SleepNs(int64(ms.Range(1, 8)) * 1e9)
			e.ch.Mine(ms.Draw(3) + 1)
		}
	})
	var ts []*simrt.Task
	for k := range tasks {
		k := k
		if len(tasks[k]) == 0 {
			continue
		}
		ts = append(ts, r.W.Go(e.n, fmt.Sprintf("t%d", k), func() {
			for _, i := range tasks[k] {
				m.op(r.Op(i), shared)
			}
		}))
	}
	r.JoinAll("concurrent", ts...)
	e.stopped = true
	r.JoinAll("miner", miner)
	e.ctl.Off = true
	e.ch.Latency = 0
	check := func(what string) {
		a := e.actual()
		m.explain(what, 'c', a.cl, m.tick(), m.tick())
		m.explain(what, 'r', a.rv, m.tick(), m.tick())
	}
	r.Call(e.n, "the end", func() {
		check("the end")
		for i := 0; ; i++ {
			st, _ := e.is.State()
			if mhash(*st) == e.genesis || e.ch.Last(&e.id) == *st && *e.is.IdenStateOnChain() == *st {
				break
			}
			if i == 8 {
				r.Violate("stuck", "after %d rounds of publishing and synchronising the current state is not on chain", i)
			}
			if err := e.is.PublishState(); err != nil && !errors.Is(err, issuer.ErrIdenStatePendingNotNil) {
				r.Violate("publish-error", "publishing failed with no fault: %v", err)
			}
			for j := uint64(0); j <= e.cfg.ConfirmBlocks+1; j++ {
				r.W.SleepNs(12e9)
				e.ch.Mine(100)
			}
			if err := e.is.SyncIdenStatePublic(); err != nil {
				r.Violate("sync-error", "synchronising failed with no fault: %v", err)
			}
		}
	})
	if e.level {
		e.close()
	}
	e.load("reload")
	r.Call(e.n, "reloaded", func() { check("reload") })
	r.State(len(m.ops), ntask, len(e.ch.History(&e.id)))
}
