package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/iden3/go-iden3-core/components/idenpuboffchain/readerhttp"
	"github.com/iden3/go-iden3-core/components/verifier"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/holder"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/keystore"
	"github.com/iden3/go-iden3-core/merkletree"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"

	"verif.local/sim/env"
	"verif.local/sim/simrt"
)

// V01-V04: issuers, a holder and verifiers as one system.

func init() {
	real := []string{"components/verifier", "identity/holder", "identity/issuer", "core/proof", "core/claims", "merkletree", "db (memory)", "keystore", "idenpuboffchain/writerhttp and readerhttp", "utils/zk", "Groth16 verifier"}
	stub := []string{"chain and contract (model)", "Groth16 prover (trapdoor of a toy set-up)", "witness calculator (Go function)", "network", "clocks", "goroutine scheduler"}
	reg := func(id, rule string, prof vProfile, nontrivial []string) {
		register(&Prop{ID: id, Setup: vSetup, Run: func(r *Run) { runV(r, prof) }, Rule: rule, Nontrivial: nontrivial, Real: real, Stub: stub, MaxSteps: 40e6})
	}
	reg("V01", "each run lets 1-2 issuers issue, revoke and publish while a holder fetches validity credentials over a network and verifiers check credentials of existence and validity that arrive as JSON over a channel that flips characters, cuts, drops fields, mixes parts of different credentials and carries forgeries with self made trees; some are decoded over an earlier credential, chain calls fail or take time, and all parties run concurrently. A verdict must be the truth: accepted only if the issuer's state in that block holds the claim (and for validity a state that is the last or fresh does not revoke it and the claim has not expired), and accepted if so and nothing interfered; nothing panics. Non-trivial: a tampered credential was judged and a genuine one accepted.",
		vProfile{tamper: 55, w: [nVOps]int{10, 5, 14, 10, 12, 14, 30, 3, 0, 0}}, []string{"tampered"})
	reg("V02", "each run issues and revokes claims and lets holders keep old validity credentials, fetch new ones, and mix parts of credentials; verifiers with various freshness demands judge them while time passes. No credential of a revoked claim is accepted once the block with the revocation is older than the freshness demanded or the state presented is not the last; a holder is told that a claim is revoked once the state on chain says so, and gets an accepted credential of validity otherwise. Publisher outages, lost and changed answers and chain failures strike. Non-trivial: a credential of a revoked claim was judged.",
		vProfile{tamper: 20, w: [nVOps]int{8, 12, 16, 10, 10, 20, 30, 8, 0, 0}}, []string{"revoked_judged"})
	reg("V03", "each run gives verifiers clocks that are skewed, jump and step between two readings, and places them at and around the expirations of claims and the age limit of states, to the nanosecond; verdicts on genuine credentials must be those of the verifier's own clock: expired exactly when its clock is past the expiration, too old exactly when the state is not the last one and its block time is not after the clock minus the freshness. Non-trivial: a verdict at a boundary.",
		vProfile{tamper: 0, clock: true, w: [nVOps]int{10, 6, 14, 10, 12, 16, 36, 8, 0, 0}}, []string{"boundary"})
	reg("V04", "each run lets a holder make zero knowledge proofs of credentials and verifiers judge them for an issuer, block and freshness; proofs are sent through a channel that mixes parts of different proofs and alters them. Accepted only if the proof is of its public signals, the first is the issuer's state in that block, and that is fresh or the last; genuine ones are accepted; the holder makes proofs exactly for claims on chain that are not revoked. Non-trivial: a proof was judged.",
		vProfile{tamper: 35, zk: true, w: [nVOps]int{8, 6, 14, 10, 10, 4, 4, 8, 16, 30}}, []string{"zk_judged"})
}

const (
	vIssue = iota
	vRevoke
	vPublish
	vMine
	vCredential
	vFetch
	vVerify
	vWait
	vProve
	vVerifyZk
	nVOps
)

type vProfile struct {
	tamper    int
	clock, zk bool
	w         [nVOps]int
}

var credCircuit *env.Circuit

func vSetup() {
	issSetup()
	if credCircuit == nil {
		credCircuit = env.NewCircuit("credential", 3)
		simrt.WitnessCalc[string(credCircuit.WASM)] = credentialWitness
	}
}

const vLevels = 16

type vCred struct {
	e    *issEnv
	k    *issClaim
	cred *proof.CredentialExistence
	js   []byte
}

type vValid struct {
	c  *vCred
	v  *proof.CredentialValidity
	js []byte
}

type vZk struct {
	c  *vCred
	in vZkMsg
	js []byte
}

// vZkMsg is what a holder sends for a zero knowledge proof.
type vZkMsg struct {
	Out      zkutils.ZkProofOut
	IssuerID *core.ID
	BlockN   uint64
}

type vWorld struct {
	r      *Run
	p      vProfile
	ch     *env.Chain
	iss    []*issEnv
	hn     *simrt.Node
	hid    *core.ID
	h      *holder.Holder
	creds  []*vCred
	valids []*vValid
	zks    []*vZk
	pubs   map[string]bool // public signals of the proofs made
	zkf    *zkutils.ZkFiles
	proves int
	vers   []*vVer
	plain  *verifier.Verifier // one with the real clock, shared
}

// vClock is a verifier's clock.
type vClock struct {
	w     *vWorld
	skew  int64
	fixed bool // stands still
	at    int64
	jump  int64
	reads []time.Time
}

func (c *vClock) now() time.Time {
	var ns int64
	if c.fixed {
		ns = c.at
	} else {
		ns = c.w.r.W.NowNs() + c.skew
	}
	c.at += c.jump
	c.skew += c.jump
	t := time.Unix(0, ns)
	c.reads = append(c.reads, t)
	return t
}

// vVer is a verifier in use over a whole run.
type vVer struct {
	ck   *vClock
	v    *verifier.Verifier
	busy bool
}

// verifierFor gives a verifier that goes by the clock.
func (w *vWorld) verifierFor(s *simrt.Stream, ck *vClock) *vVer {
	i := s.Draw(3)
	for k := 0; k < len(w.vers) && k < 2; k++ {
		if x := w.vers[(i+k)%len(w.vers)]; i < 2 && !x.busy {
			x.ck, x.busy = ck, true
			return x
		}
	}
	x := &vVer{ck: ck, busy: true}
	x.v = verifier.NewWithTimeNow(w.ch, func() time.Time { return x.ck.now() })
	w.vers = append(w.vers, x)
	return x
}

func runV(r *Run, p vProfile) {
	r.Profile()
	sh := r.S("shape")
	w := &vWorld{r: r, p: p, pubs: map[string]bool{}}
	w.ch = env.NewChain(r.W, r.S("chain"), idStateCircuit.Vk)
	w.ch.Off = true
	w.ch.Latency = []int64{0, 5e6, 300e6}[sh.Draw(3)]
	n := sh.Range(1, 2)
	if p.zk {
		n = sh.Range(1, 2)
	}
	perm := sh.Draw(len(keySks))
	for i := 0; i < n; i++ {
		e := newIssEnv(r, fmt.Sprintf("issuer%d", i), (perm+i)%len(keySks), w.ch, false)
		e.cfg.ConfirmBlocks = uint64(sh.Draw(2))
		e.create(e.genesisClaims(sh))
		e.load("first load")
		w.iss = append(w.iss, e)
	}
	w.ch.OnSend = func(t *env.ChainTx) {
		for _, e := range w.iss {
			if e.id == t.Id {
				e.sending = mhash(t.New)
			}
		}
	}
	w.makeHolder(sh, (perm+2)%len(keySks))
	w.plain = verifier.New(w.ch)
	two := sh.Chance(1, 2)
	if sh.Chance(1, 3) {
		w.ch.CallErr = sh.Draw(4) * 15
		w.ch.ProveErr = sh.Draw(3) * 40
	}
	net := r.W.Net()
	if sh.Chance(1, 3) {
		w.netFaults(net, sh)
	}
	if su := r.S("setup"); !su.Chance(1, 4) {
		lat := w.ch.Latency
		w.ch.Latency = 0
		for _, e := range w.iss {
			for i := su.Range(1, 4); i > 0; i-- {
				w.issue(su, e)
			}
			w.publish(su, e, true)
		}
		for i := su.Draw(4); i > 0; i-- {
			w.credential(su)
		}
		w.ch.Latency = lat
	}
	w.ch.Off = false
	lo, hi := 10, 45
	if p.zk {
		lo, hi = 8, 30
	}
	ops := r.Ops(lo, hi)
	// one task per party; the parties' operations keep their order
	parties := map[int][]int{}
	kinds := map[int]int{}
	for _, i := range ops {
		kind := r.Op(i).Weighted(p.w[:]...)
		kinds[i] = kind
		q := 0
		switch kind {
		case vFetch, vProve:
			q = 1
		case vVerify, vVerifyZk:
			q = 2
			if two && i%2 == 1 {
				q = 3
			}
		}
		parties[q] = append(parties[q], i)
	}
	if sh.Chance(1, 2) {
		// everything in one sequence
		parties = map[int][]int{0: ops}
	}
	var ts []*simrt.Task
	for q := 0; q < 4; q++ {
		q := q
		if len(parties[q]) == 0 {
			continue
		}
		ts = append(ts, r.W.Go(nil, fmt.Sprintf("party%d", q), func() {
			for _, i := range parties[q] {
				w.op(kinds[i], r.Op(i))
			}
		}))
	}
	if len(ts) > 1 {
		stop := false
		ms := r.S("miner")
		m := r.W.Go(nil, "miner", func() {
			for !stop {
				r.W.SleepNs(int64(ms.Range(1, 20)) * 1e9)
				w.ch.Mine(ms.Draw(3) + 1)
			}
		})
		r.JoinAll("parties", ts...)
		stop = true
		r.JoinAll("miner", m)
	} else {
		r.JoinAll("parties", ts...)
	}
	w.finish()
	r.State(len(w.creds), len(w.valids), len(w.zks), len(w.ch.Blocks)/4)
}

func (w *vWorld) netFaults(net *simrt.Net, sh *simrt.Stream) {
	net.Rates.Refuse, net.Rates.RespLost = sh.Draw(3)*40, sh.Draw(3)*40
	flip := sh.Draw(4) * 60
	ns := w.r.S("tamper")
	net.Tamper = func(host, path string, status int, body []byte) (int, []byte) {
		if w.ch.Off || !ns.Chance(flip, 1000) || len(body) == 0 {
			return status, body
		}
		w.r.W.Cur().Faults++
		w.r.W.Stats["fault.net_changed_answer"]++
		b := append([]byte{}, body...)
		if ns.Chance(1, 3) {
			return status, b[:ns.Draw(len(b))]
		}
		i := ns.Draw(len(b))
		b[i] ^= 1 << uint(ns.Draw(5))
		return status, b
	}
}

func (w *vWorld) makeHolder(sh *simrt.Stream, kop int) {
	r := w.r
	w.hn = r.W.NewNode("holder")
	r.Call(w.hn, "holder", func() {
		ms := keystore.MemStorage([]byte{})
		ks, err := keystore.NewKeyStore(&ms, fastKeys)
		r.Must(err, "keystore")
		pk, err := ks.ImportKey(keySks[kop], []byte("p"))
		r.Must(err, "import")
		r.Must(ks.UnlockKey(pk, []byte("p")), "unlock")
		st := db.NewMemoryStorage()
		cfg := holder.ConfigDefault
		if w.hid, err = holder.Create(cfg, pk, nil, st, ks); err == nil {
			w.h, err = holder.Load(st, ks, w.ch, nil, nil, readerhttp.NewIdenPubOffChainHttp())
		}
		if err != nil {
			r.Violate("holder", "a holder cannot be created: %v", err)
		}
		if w.p.zk {
			c := credCircuit
			_ = simrt.MkdirAll("/holder/zk", 0700)
			w.hn.FS.Put("/holder/zk/proving_key.go.bin", c.PkGoBin)
			w.hn.FS.Put("/holder/zk/verification_key.json", c.VkJSON)
			w.hn.FS.Put("/holder/zk/circuit.wasm", c.WASM)
			w.zkf = zkutils.NewZkFiles("", "/holder/zk", zkutils.ProvingKeyFormatGoBin, c.Hashes(zkutils.ProvingKeyFormatGoBin), true)
		}
	})
}

func (w *vWorld) op(kind int, s *simrt.Stream) {
	r := w.r
	switch kind {
	case vIssue:
		w.issue(s, w.iss[s.Draw(len(w.iss))])
	case vRevoke:
		e := w.iss[s.Draw(len(w.iss))]
		k := e.claims[s.Draw(len(e.claims))]
		if len(w.valids) > 0 && s.Chance(2, 3) {
			v := w.valids[s.Draw(len(w.valids))]
			e, k = v.c.e, v.c.k
		} else if len(w.zks) > 0 && s.Chance(2, 3) {
			v := w.zks[s.Draw(len(w.zks))]
			e, k = v.c.e, v.c.k
		}
		if k.rev {
			return
		}
		var err error
		r.Call(e.n, "RevokeClaim", func() { err = e.is.RevokeClaim(k.c) })
		if err != nil {
			r.About("I01", "refused", "revoking a claim failed: %v", err)
		}
		e.keep(append(e.log, issStep{kind: 'r', c: k}))
		r.Describe("%s revokes nonce=%d", e.name, k.nonce)
	case vPublish:
		w.publish(s, w.iss[s.Draw(len(w.iss))], false)
	case vMine:
		for i := s.Draw(3); i >= 0; i-- {
			r.W.SleepNs(int64(s.Draw(15)+1) * 1e9)
			w.ch.Mine(s.Draw(3) + 1)
		}
		for _, e := range w.iss {
			w.sync(e)
		}
	case vCredential:
		w.credential(s)
	case vFetch:
		w.fetch(s)
	case vVerify:
		w.verify(s)
	case vWait:
		r.W.SleepNs(int64(s.Draw(10)) * 40e9)
	case vProve:
		w.prove(s)
	case vVerifyZk:
		w.verifyZk(s)
	}
}

// publish publishes and, usually, waits until the state is on chain.
func (w *vWorld) issue(s *simrt.Stream, e *issEnv) {
	c := e.newClaim(s, w.hid)
	for i := 0; w.p.zk && i < 4 && c.Metadata().Subject == nil; i++ {
		c = e.newClaim(s, w.hid)
	}
	var err error
	w.r.Call(e.n, "IssueClaim", func() { err = e.is.IssueClaim(c) })
	if err != nil {
		w.r.About("I01", "refused", "issuing a new claim failed: %v", err)
	}
	k := e.enter(c, false)
	w.r.Describe("%s issues nonce=%d exp=%d", e.name, k.nonce, k.exp)
}

func (w *vWorld) publish(s *simrt.Stream, e *issEnv, wait bool) {
	step := e.preparePublish()
	var err error
	w.r.Call(e.n, "PublishState", func() { err = e.is.PublishState() })
	w.r.Describe("%s publishes -> %v", e.name, err)
	e.settle("publishing", []issStep{step}, false)
	if !wait && s.Chance(1, 3) {
		return
	}
	for i := s.Draw(3) + int(e.cfg.ConfirmBlocks); i >= 0; i-- {
		w.r.W.SleepNs(int64(s.Draw(15)+1) * 1e9)
		w.ch.Mine(3)
	}
	w.sync(e)
}

func (w *vWorld) sync(e *issEnv) {
	var err error
	w.r.Call(e.n, "SyncIdenStatePublic", func() { err = e.is.SyncIdenStatePublic() })
	w.r.W.Log("%s syncs -> %v", e.name, err)
}

// snapAt is the content of an issuer's state on chain, nil if the data is not
// the chain's.
func (w *vWorld) snapAt(hist []proof.IdenStateData, id *core.ID, d *proof.IdenStateData) (*issEnv, *issSnap) {
	if id == nil || d.IdenState == nil {
		return nil, nil
	}
	for _, e := range w.iss {
		if e.id != *id {
			continue
		}
		for _, h := range hist {
			if h.BlockN == d.BlockN && h.BlockTs == d.BlockTs && *h.IdenState == *d.IdenState {
				sn := e.snaps[mhash(*d.IdenState)]
				if sn == nil {
					w.r.About("I03", "sent-unknown", "a state on chain is not one of the identity's")
				}
				return e, sn
			}
		}
	}
	return nil, nil
}

func (w *vWorld) credential(s *simrt.Stream) {
	r := w.r
	e := w.iss[s.Draw(len(w.iss))]
	var in []*issClaim
	d := e.is.StateDataOnChain()
	snap := e.snaps[mhash(*d.IdenState)]
	if snap == nil {
		return
	}
	for _, k := range e.claims {
		if snap.claims[k] {
			in = append(in, k)
		}
	}
	if len(in) == 0 {
		return
	}
	k := in[len(in)-1-s.Draw(min(len(in), 5))]
	var cred *proof.CredentialExistence
	var err error
	var js []byte
	r.Call(e.n, "GenCredentialExistence", func() {
		cred, err = e.is.GenCredentialExistence(k.c)
		if err == nil {
			js, err = json.Marshal(cred)
		}
	})
	if err != nil {
		r.About("I03 V01", "credential", "no credential for a claim of the state on chain: %v", err)
	}
	r.Describe("%s makes a credential of nonce=%d", e.name, k.nonce)
	w.creds = append(w.creds, &vCred{e: e, k: k, cred: cred, js: js})
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// fetch lets the holder get a credential of validity.
func (w *vWorld) fetch(s *simrt.Stream) {
	r := w.r
	if len(w.creds) == 0 {
		return
	}
	c := w.creds[len(w.creds)-1-s.Draw(min(len(w.creds), 6))]
	js, how := c.js, ""
	if s.Chance(w.p.tamper/2, 100) {
		var pool [][]byte
		for _, x := range w.creds {
			pool = append(pool, x.js)
		}
		js, how = w.tamper(s, js, pool)
	}
	var exist proof.CredentialExistence
	if !w.decode(w.hn, js, &exist) {
		return
	}
	before := w.ch.History(&c.e.id)
	f0 := w.faults()
	var v *proof.CredentialValidity
	var out []byte
	var err error
	nf := int64(0)
	r.Call(w.hn, "HolderGetCredentialValidity", func() {
		v, err = w.h.HolderGetCredentialValidity(&exist)
		if err == nil {
			out, err = json.Marshal(v)
			r.Must(err, "json of a credential")
		}
		nf = r.W.Cur().Faults
	})
	faulted := w.faults() != f0 || nf > 0
	after := w.ch.History(&c.e.id)
	r.Describe("holder fetches the validity of nonce=%d%s -> %v", c.k.nonce, how, err)
	if err == nil {
		if exist.Id == nil || v == nil {
			r.Violate("holder", "the holder made a credential of validity out of a credential without an issuer")
		}
		var hist []proof.IdenStateData
		hist = w.ch.History(exist.Id)
		_, snap := w.snapAt(hist, exist.Id, &v.IdenStateData)
		if snap == nil {
			r.Violate("holder", "the state of a credential of validity is not one of the chain")
		}
		nonce := claims.GetRevocationNonce(exist.Claim)
		if snap.revokesNonce(nonce) {
			r.Violate("holder", "a credential of validity was made for a claim that its state revokes")
		}
		if how == "" && len(before) > 0 && v.IdenStateData.BlockN < before[len(before)-1].BlockN {
			r.Violate("holder", "the state of a credential of validity is older than the last one when it was asked for")
		}
		if mhash(*v.ClaimsTreeRoot) != snap.cl || mhash(*v.RootsTreeRoot) != snap.rt {
			r.Violate("holder", "the roots in a credential of validity are not those of its state")
		}
		if how == "" {
			w.valids = append(w.valids, &vValid{c: c, v: v, js: out})
		}
		return
	}
	if how != "" || faulted {
		return
	}
	rev := func(h []proof.IdenStateData) bool {
		if len(h) == 0 {
			return false
		}
		_, sn := w.snapAt(h, &c.e.id, &h[len(h)-1])
		return sn != nil && sn.revokesNonce(c.k.nonce)
	}
	switch {
	case errors.Is(err, holder.ErrRevokedClaim):
		if !rev(before) && !rev(after) {
			r.Violate("holder", "a claim is said to be revoked that no state on chain revokes")
		}
		r.Probe("told_revoked")
	case !rev(before) && !rev(after):
		r.Violate("holder", "no credential of validity for a claim that is not revoked, with no fault: %v", err)
	default:
		r.Violate("holder", "the credential of validity of a revoked claim fails with another error: %v", err)
	}
}

func (s *issSnap) revokesNonce(n uint32) bool {
	for k := range s.revoked {
		if k.nonce == n {
			return true
		}
	}
	return false
}

func (w *vWorld) faults() int {
	n := w.ch.Fired
	for _, e := range w.iss {
		n += e.ctl.Fired
	}
	return n
}

// decode reads JSON as a party does.
func (w *vWorld) decode(n *simrt.Node, js []byte, into interface{}) bool {
	var err error
	w.r.Call(n, "decoding a credential", func() { err = json.Unmarshal(js, into) })
	return err == nil
}

// hasClaim decides whether the issuer's state really holds the claim.
func (w *vWorld) hasClaim(c *proof.CredentialExistence, hist []proof.IdenStateData) bool {
	_, snap := w.snapAt(hist, c.Id, &c.IdenStateData)
	if snap == nil || c.Claim == nil || c.MtpClaim == nil || c.RevocationsTreeRoot == nil || c.RootsTreeRoot == nil {
		return false
	}
	if mhash(*c.RevocationsTreeRoot) != snap.rv || mhash(*c.RootsTreeRoot) != snap.rt || !c.MtpClaim.Existence {
		return false
	}
	for k := range snap.claims {
		if bytes.Equal(dataBytes(&k.entry.Data), dataBytes(&c.Claim.Data)) {
			return true
		}
	}
	return false
}

func dataBytes(d *merkletree.Data) []byte {
	var b []byte
	for i := range d {
		b = append(b, d[i][:]...)
	}
	return b
}

// expiry of the claim in an entry, read by the documented layout.
func expiryOf(d *merkletree.Data) (int64, bool) {
	flags := d[0][claims.ClaimTypeLen]
	if flags&8 == 0 {
		return 0, false
	}
	var x uint64
	for i := 7; i >= 0; i-- {
		x = x<<8 | uint64(d[4][claims.ClaimRevNonceLen+i])
	}
	return int64(x), true
}

// after reports whether a clock is past a second.
func past(t time.Time, sec int64) bool {
	return t.Unix() > sec || t.Unix() == sec && t.Nanosecond() > 0
}

// fresh: the block is not older than the freshness.
func fresh(t time.Time, freshness time.Duration, ts int64) bool {
	lim := new(big.Int).Sub(new(big.Int).Add(new(big.Int).Mul(big.NewInt(t.Unix()), big.NewInt(1e9)), big.NewInt(int64(t.Nanosecond()))), big.NewInt(int64(freshness)))
	return lim.Cmp(new(big.Int).Mul(big.NewInt(ts), big.NewInt(1e9))) < 0
}

// verify lets a verifier judge what arrives.
func (w *vWorld) verify(s *simrt.Stream) {
	r := w.r
	validity := len(w.valids) > 0 && !s.Chance(1, 4)
	if !validity && len(w.creds) == 0 {
		return
	}
	var pool [][]byte
	var js []byte
	var c *vCred
	if validity {
		v := w.valids[len(w.valids)-1-s.Draw(min(len(w.valids), 8))]
		if w.p.tamper == 20 && s.Chance(2, 3) {
			// one of a claim that is revoked by now
			for i := len(w.valids) - 1; i >= 0; i-- {
				if w.valids[i].c.k.rev && s.Chance(2, 3) {
					v = w.valids[i]
					break
				}
			}
		}
		c, js = v.c, v.js
		for _, x := range w.valids {
			pool = append(pool, x.js)
		}
	} else {
		c = w.creds[len(w.creds)-1-s.Draw(min(len(w.creds), 6))]
		js = c.js
		for _, x := range w.creds {
			pool = append(pool, x.js)
		}
	}
	how := ""
	vn := (*simrt.Node)(nil)
	var ex proof.CredentialExistence
	var va proof.CredentialValidity
	if s.Chance(w.p.tamper, 100) {
		if s.Chance(1, 3) {
			how = w.forge(s, validity, c, &ex, &va)
		}
		if how == "" {
			js, how = w.tamper(s, js, pool)
		} else {
			js = nil
		}
		r.Probe("tampered")
	}
	if js != nil {
		if s.Chance(1, 6) && w.p.tamper > 0 {
			// into an object that holds an earlier one, already looked at
			old := pool[s.Draw(len(pool))]
			how += " reused"
			if validity {
				_ = w.decode(vn, old, &va)
				if va.CredentialExistence.Claim != nil {
					_, _, _ = va.CredentialExistence.Claim.HiHv()
				}
			} else {
				_ = w.decode(vn, old, &ex)
				if ex.Claim != nil {
					_, _, _ = ex.Claim.HiHv()
				}
			}
		}
		ok := false
		if validity {
			ok = w.decode(vn, js, &va)
		} else {
			ok = w.decode(vn, js, &ex)
		}
		if !ok {
			r.Describe("credential%s does not decode", how)
			return
		}
	}
	ce := &ex
	if validity {
		ce = &va.CredentialExistence
	}
	ck := &vClock{w: w}
	freshness := []time.Duration{0, 10 * time.Second, 30 * time.Second, 100 * time.Second, 600 * time.Second, 24 * time.Hour, 1 << 62, -5 * time.Second, 1, 20500 * time.Millisecond}[s.Weighted(3, 6, 6, 6, 4, 3, 1, 1, 1, 2)]
	edge := w.clock(s, ck, &freshness, ce, &va)
	id := core.ID{}
	if ce.Id != nil {
		id = *ce.Id
	}
	before := w.ch.History(&id)
	f0, t0 := w.faults(), r.W.NowNs()
	plain := !edge && ck.skew == 0 && ck.jump == 0 && s.Chance(1, 2)
	ver := w.plain
	if !plain {
		x := w.verifierFor(s, ck)
		defer func() { x.busy = false }()
		ver = x.v
	}
	var err error
	r.Call(vn, "verify", func() {
		if validity {
			err = ver.VerifyCredentialValidity(&va, freshness)
		} else {
			err = ver.VerifyCredentialExistence(&ex)
		}
	})
	faulted := w.faults() != f0
	after := w.ch.History(&id)
	reads := ck.reads
	if plain {
		reads = []time.Time{time.Unix(0, t0), time.Unix(0, r.W.NowNs())}
	}
	r.Describe("verify validity=%v nonce=%d%s freshness=%v -> %v", validity, c.k.nonce, how, freshness, err)
	has0, has1 := w.hasClaim(ce, before), w.hasClaim(ce, after)
	must := has0 && has1 && how == ""
	may := has1
	why := "its issuer's state in that block does not hold the claim"
	if validity {
		m0, m1, y := w.validTruth(&va, before, after, freshness, reads)
		must = must && m0
		if may && !m1 {
			may, why = false, y
		}
		if c.k.rev {
			r.Probe("revoked_judged")
		}
		if edge {
			r.Probe("boundary")
		}
	}
	if err == nil && !may {
		r.Violate("accepted", "a credential was accepted although %s%s", why, how)
	}
	if err == nil {
		r.Probe("accepted")
	}
	if err != nil && must && !faulted {
		r.Violate("rejected", "a genuine credential was rejected with no fault: %v", err)
	}
}

// validTruth decides a credential of validity: whether it must and whether it
// may be accepted, given the chain before and after the call and the times
// the verifier's clock gave.
func (w *vWorld) validTruth(v *proof.CredentialValidity, before, after []proof.IdenStateData, freshness time.Duration, reads []time.Time) (must, may bool, why string) {
	e, snap := w.snapAt(after, v.CredentialExistence.Id, &v.IdenStateData)
	if snap == nil || v.CredentialExistence.Claim == nil {
		return false, false, "the state presented is not one of the issuer on chain"
	}
	if v.MtpNotNonce == nil || v.MtpNotNonce.Existence || v.ClaimsTreeRoot == nil || v.RootsTreeRoot == nil || mhash(*v.ClaimsTreeRoot) != snap.cl || mhash(*v.RootsTreeRoot) != snap.rt {
		return false, false, "the roots presented are not those of the state"
	}
	_ = e
	d := &v.CredentialExistence.Claim.Data
	if snap.revokesNonce(nonceOf(d)) {
		return false, false, "the state presented revokes the claim"
	}
	must, may = true, false
	if exp, ok := expiryOf(d); ok {
		any := false
		for _, t := range reads {
			if past(t, exp) {
				must = false
			} else {
				any = true
			}
		}
		if !any && len(reads) > 0 {
			return false, false, "it has expired"
		}
	}
	for _, t := range reads {
		if fresh(t, freshness, v.IdenStateData.BlockTs) {
			may = true
		}
	}
	allFresh := may
	for _, t := range reads {
		if !fresh(t, freshness, v.IdenStateData.BlockTs) {
			allFresh = false
		}
	}
	last := func(h []proof.IdenStateData) bool {
		return len(h) > 0 && *h[len(h)-1].IdenState == *v.IdenStateData.IdenState
	}
	if last(before) || last(after) {
		may = true
	}
	// states that were the last one during the call
	if len(after) > len(before) {
		for i := len(before); i < len(after); i++ {
			if *after[i].IdenState == *v.IdenStateData.IdenState {
				may = true
			}
		}
	}
	if !allFresh && !(last(before) && last(after)) {
		must = false
	}
	if len(reads) == 0 {
		may = true
	}
	return must, may, "its state is neither the last one nor fresh"
}

func nonceOf(d *merkletree.Data) uint32 {
	return uint32(d[4][0]) | uint32(d[4][1])<<8 | uint32(d[4][2])<<16 | uint32(d[4][3])<<24
}

// clock places the verifier's clock; true: at a boundary.
func (w *vWorld) clock(s *simrt.Stream, ck *vClock, freshness *time.Duration, c *proof.CredentialExistence, v *proof.CredentialValidity) bool {
	if w.p.clock {
		if s.Chance(1, 4) {
			ck.skew = int64(s.Draw(41)-20) * 50e9
		}
		if s.Chance(1, 8) {
			ck.jump = int64(s.Draw(9)-4) * 100e9
		}
	}
	p := 1
	if w.p.clock {
		p = 5
	}
	if c.Claim == nil || !s.Chance(p, 10) {
		return false
	}
	off := []int64{0, -1, 1, -1e9, 1e9, -999999999, 500e6}[s.Draw(7)]
	if exp, ok := expiryOf(&c.Claim.Data); ok && exp > 0 && exp < 1e10 && s.Chance(1, 2) {
		ck.fixed, ck.at = true, exp*1e9+off
		return true
	}
	if s.Chance(1, 2) && v.IdenStateData.BlockTs > 0 && v.IdenStateData.BlockTs < 1e10 {
		if *freshness > 1<<50 {
			*freshness = time.Minute
		}
		ck.fixed, ck.at = true, v.IdenStateData.BlockTs*1e9+int64(*freshness)+off
		return true
	}
	return false
}

// forge builds a credential that looks genuine.
func (w *vWorld) forge(s *simrt.Stream, validity bool, c *vCred, ex *proof.CredentialExistence, va *proof.CredentialValidity) string {
	r := w.r
	e := c.e
	hist := w.ch.History(&e.id)
	if len(hist) == 0 {
		return ""
	}
	d := hist[len(hist)-1-s.Draw(min(len(hist), 3))]
	snap := e.snaps[mhash(*d.IdenState)]
	if snap == nil {
		return ""
	}
	how := ""
	hk := func(m mhash) *merkletree.Hash { h := merkletree.Hash(m); return &h }
	tree := func(ents ...mentry) *merkletree.MerkleTree {
		t, err := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
		r.Must(err, "tree")
		for _, m := range ents {
			en := &merkletree.Entry{Data: m.data}
			if err := t.AddEntry(en); err != nil && !errors.Is(err, merkletree.ErrEntryIndexAlreadyExists) {
				r.Must(err, "adding")
			}
		}
		return t
	}
	prf := func(t *merkletree.MerkleTree, m mentry) *merkletree.Proof {
		p, err := t.GenerateProof(hk(m.hi), nil)
		r.Must(err, "proof")
		return p
	}
	var out string
	r.Call(nil, "forging", func() {
		if !validity || s.Chance(1, 3) {
			// a claim of the forger's own tree
			fake := e.newClaim(s, w.hid).Entry()
			if s.Chance(1, 2) {
				fake = &merkletree.Entry{Data: c.k.entry.Data}
				fake.Data[4+s.Draw(4)][20] ^= 1
			}
			m := newEntryModel(fake.Data)
			t := tree(m, c.k.em)
			*ex = proof.CredentialExistence{Id: &e.id, IdenStateData: d, Claim: fake, MtpClaim: prf(t, m), IdenPubUrl: e.url,
				RevocationsTreeRoot: hk(snap.rv), RootsTreeRoot: hk(snap.rt)}
			out = " forged claim"
			switch s.Draw(4) {
			case 3:
				// a genuine path of another claim, shown as that of a claim
				// that is not there
				real := e.snapClaims(snap)
				if len(real) == 0 {
					break
				}
				rm := real[s.Draw(len(real))].em
				var all []mentry
				for _, k := range real {
					all = append(all, k.em)
				}
				gt := tree(all...)
				gp := prf(gt, rm)
				for i := 0; i < 20; i++ {
					fake = e.newClaim(s, w.hid).Entry()
					m = newEntryModel(fake.Data)
					d := 0
					for d < len(gp.AllSiblings()) && bit(m.hi, d) == bit(rm.hi, d) {
						d++
					}
					if d == len(gp.AllSiblings()) {
						break
					}
				}
				gp.Existence, gp.NodeAux = false, &merkletree.NodeAux{HIndex: hk(rm.hi), HValue: hk(rm.hv)}
				if s.Chance(1, 3) {
					gp.Existence = true
				}
				ex.Claim, ex.MtpClaim = fake, gp
				out = " forged: not there"
			case 0:
				// a state that fits the forger's tree
				st := core.IdenState(t.RootKey(), ex.RevocationsTreeRoot, ex.RootsTreeRoot)
				ex.IdenStateData.IdenState = st
			case 1:
				// a genuine path, the claim replaced
				cp := *c.cred
				*ex = cp
				ex.Claim = fake
			}
			if validity {
				*va = proof.CredentialValidity{CredentialExistence: *ex, IdenStateData: d, ClaimsTreeRoot: hk(snap.cl), RootsTreeRoot: hk(snap.rt)}
				va.MtpNotNonce = prf(w.revTree(snap, tree), revLeaf(nonceOf(&fake.Data)))
			}
			return
		}
		// a revoked claim shown as valid
		*va = proof.CredentialValidity{CredentialExistence: *c.cred, IdenStateData: d, ClaimsTreeRoot: hk(snap.cl), RootsTreeRoot: hk(snap.rt)}
		rt := w.revTree(snap, tree)
		switch s.Draw(5) {
		case 0:
			// the proof of another nonce
			va.MtpNotNonce = prf(rt, revLeaf(c.k.nonce+1+uint32(s.Draw(5))))
			out = " forged: other nonce"
		case 1:
			// the proof that it is revoked, shown as the opposite
			p := prf(rt, revLeaf(c.k.nonce))
			p.Existence = false
			m := revLeaf(c.k.nonce)
			if s.Chance(1, 2) {
				p.NodeAux = &merkletree.NodeAux{HIndex: hk(m.hi), HValue: hk(m.hv)}
			}
			va.MtpNotNonce = p
			out = " forged: turned around"
		case 2:
			// an empty tree of revocations
			va.MtpNotNonce = prf(tree(), revLeaf(c.k.nonce))
			out = " forged: empty tree"
		case 3:
			// an old state with the new block, or the new time
			o := hist[s.Draw(len(hist))]
			osn := e.snaps[mhash(*o.IdenState)]
			if osn == nil {
				return
			}
			va.ClaimsTreeRoot, va.RootsTreeRoot = hk(osn.cl), hk(osn.rt)
			va.MtpNotNonce = prf(w.revTree(osn, tree), revLeaf(c.k.nonce))
			va.IdenStateData = o
			switch s.Draw(3) {
			case 0:
				va.IdenStateData.BlockTs = r.W.NowNs() / 1e9
			case 1:
				va.IdenStateData.BlockN, va.IdenStateData.BlockTs = d.BlockN, d.BlockTs
			case 2:
				va.IdenStateData.BlockN = d.BlockN
			}
			out = " forged: old state"
		case 4:
			// another issuer's state
			o := w.iss[len(w.iss)-1-s.Draw(len(w.iss))]
			oh := w.ch.History(&o.id)
			if len(oh) == 0 {
				return
			}
			od := oh[len(oh)-1]
			osn := o.snaps[mhash(*od.IdenState)]
			if osn == nil {
				return
			}
			va.ClaimsTreeRoot, va.RootsTreeRoot = hk(osn.cl), hk(osn.rt)
			va.MtpNotNonce = prf(w.revTree(osn, tree), revLeaf(c.k.nonce))
			va.IdenStateData = od
			if s.Chance(1, 3) {
				va.CredentialExistence.Id = &o.id
			}
			out = " forged: other issuer"
		}
	})
	how = out
	// through the channel
	if how != "" {
		var js []byte
		var err error
		if validity {
			js, err = json.Marshal(va)
			r.Must(err, "json")
			*va = proof.CredentialValidity{}
			r.Must(json.Unmarshal(js, va), "json")
		} else {
			js, err = json.Marshal(ex)
			r.Must(err, "json")
			*ex = proof.CredentialExistence{}
			r.Must(json.Unmarshal(js, ex), "json")
		}
	}
	return how
}

// snapClaims lists the claims of a state.
func (e *issEnv) snapClaims(sn *issSnap) []*issClaim {
	var l []*issClaim
	for _, k := range e.claims {
		if sn.claims[k] {
			l = append(l, k)
		}
	}
	return l
}

func (w *vWorld) revTree(sn *issSnap, tree func(...mentry) *merkletree.MerkleTree) *merkletree.MerkleTree {
	var ns []int
	for k := range sn.revoked {
		ns = append(ns, int(k.nonce))
	}
	sort.Ints(ns)
	var es []mentry
	for _, n := range ns {
		es = append(es, revLeaf(uint32(n)))
	}
	return tree(es...)
}

// tamper changes a JSON text.
func (w *vWorld) tamper(s *simrt.Stream, js []byte, pool [][]byte) ([]byte, string) {
	how := ""
	for n := s.Draw(3); n >= 0; n-- {
		if s.Chance(1, 8) && len(js) > 0 {
			b := append([]byte{}, js...)
			b[s.Draw(len(b))] ^= 1 << uint(s.Draw(7))
			js, how = b, how+" flip"
			continue
		}
		out, h := mutateJSON(s, js, pool[s.Draw(len(pool))])
		if out != nil {
			js, how = out, how+" "+h
		}
	}
	if how == "" {
		how = " nothing"
	}
	return js, " tampered:" + how
}

type jpath []interface{}

func paths(v interface{}, at jpath, out *[]jpath) {
	if len(at) > 0 {
		*out = append(*out, append(jpath{}, at...))
	}
	switch x := v.(type) {
	case map[string]interface{}:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			paths(x[k], append(at, k), out)
		}
	case []interface{}:
		for i := range x {
			paths(x[i], append(at, i), out)
		}
	}
}

func getPath(v interface{}, p jpath) (interface{}, bool) {
	for _, k := range p {
		switch x := v.(type) {
		case map[string]interface{}:
			s, ok := k.(string)
			if !ok {
				return nil, false
			}
			if v, ok = x[s]; !ok {
				return nil, false
			}
		case []interface{}:
			i, ok := k.(int)
			if !ok || i >= len(x) {
				return nil, false
			}
			v = x[i]
		default:
			return nil, false
		}
	}
	return v, true
}

func setPath(v interface{}, p jpath, val interface{}, del bool) {
	up, ok := getPath(v, p[:len(p)-1])
	if !ok {
		return
	}
	switch x := up.(type) {
	case map[string]interface{}:
		if del {
			delete(x, p[len(p)-1].(string))
		} else {
			x[p[len(p)-1].(string)] = val
		}
	case []interface{}:
		x[p[len(p)-1].(int)] = val
	}
}

func parseJSON(b []byte) interface{} {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	if d.Decode(&v) != nil {
		return nil
	}
	return v
}

// mutateJSON changes one part of a JSON value, or takes it from another one.
func mutateJSON(s *simrt.Stream, js, other []byte) ([]byte, string) {
	v, o := parseJSON(js), parseJSON(other)
	if v == nil {
		return nil, ""
	}
	var ps []jpath
	paths(v, nil, &ps)
	if len(ps) == 0 {
		return nil, ""
	}
	p := ps[s.Draw(len(ps))]
	old, _ := getPath(v, p)
	name := ""
	for _, k := range p {
		name += fmt.Sprintf(".%v", k)
	}
	kind := s.Weighted(10, 3, 3, 12, 3)
	switch kind {
	case 0: // the same part of another one
		x, ok := getPath(o, p)
		if !ok {
			return nil, ""
		}
		setPath(v, p, x, false)
		name = "mix" + name
	case 1:
		setPath(v, p, nil, false)
		name = "null" + name
	case 2:
		setPath(v, p, nil, true)
		name = "drop" + name
	case 3:
		switch x := old.(type) {
		case bool:
			setPath(v, p, !x, false)
		case json.Number:
			i, err := strconv.ParseInt(string(x), 10, 64)
			if err != nil {
				bi, ok := new(big.Int).SetString(string(x), 10)
				if !ok {
					return nil, ""
				}
				bi.Add(bi, big.NewInt(int64(s.Draw(5)-2)))
				setPath(v, p, json.Number(bi.String()), false)
				break
			}
			i += []int64{1, -1, 10, -10, 100, 1000, 100000, -i, 1<<62 - i}[s.Draw(9)]
			setPath(v, p, json.Number(strconv.FormatInt(i, 10)), false)
		case string:
			if len(x) == 0 {
				return nil, ""
			}
			b := []byte(x)
			i := s.Draw(len(b))
			switch s.Draw(5) {
			case 0:
				b = b[:i]
			case 1:
				b = append(b, b[i:]...)
			default:
				alpha := "0123456789abcdef"
				if !strings.HasPrefix(x, "0x") && s.Chance(1, 2) {
					alpha = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
				}
				b[i] = alpha[s.Draw(len(alpha))]
			}
			setPath(v, p, string(b), false)
		default:
			return nil, ""
		}
		name = "change" + name
	case 4: // a value beyond the field, or nothing but ones
		x, ok := old.(string)
		if !ok || len(x) < 8 {
			return nil, ""
		}
		b := []byte(x)
		for i := len(b) - 1 - s.Draw(len(b)-3); i < len(b); i++ {
			b[i] = 'f'
		}
		setPath(v, p, string(b), false)
		name = "fill" + name
	}
	b, err := json.Marshal(v)
	if err != nil {
		return nil, ""
	}
	return b, name
}

// finish: with everything calm, the holder can renew every credential that is
// not revoked and have it accepted, whatever freshness is demanded.
func (w *vWorld) finish() {
	r := w.r
	w.ch.Off = true
	w.ch.Latency = 0
	net := r.W.Net()
	net.Rates.Refuse, net.Rates.RespLost = 0, 0
	for i := len(w.creds) - 1; i >= 0 && i >= len(w.creds)-3; i-- {
		c := w.creds[i]
		last := w.ch.History(&c.e.id)
		snap := c.e.snaps[mhash(*last[len(last)-1].IdenState)]
		if snap == nil {
			continue
		}
		var err error
		var v *proof.CredentialValidity
		r.Call(w.hn, "renew", func() { v, err = w.h.HolderGetCredentialValidity(c.cred) })
		if snap.revokesNonce(c.k.nonce) {
			if !errors.Is(err, holder.ErrRevokedClaim) {
				r.Violate("holder", "the claim is revoked on chain, but the holder is told %v", err)
			}
			continue
		}
		if err != nil {
			r.Violate("holder", "a credential that is not revoked cannot be renewed: %v", err)
		}
		var verr error
		r.Call(nil, "verify", func() { verr = verifier.New(w.ch).VerifyCredentialValidity(v, 0) })
		expired := c.k.expires && past(time.Unix(0, r.W.NowNs()), c.k.exp)
		if verr != nil && !expired {
			r.Violate("rejected", "a renewed credential was rejected: %v", verr)
		}
		if verr == nil && expired {
			r.Violate("accepted", "a credential was accepted although it has expired")
		}
	}
}

var _ = issuer.ErrIdenGenesisOnly
