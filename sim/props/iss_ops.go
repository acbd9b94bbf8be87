package props

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/iden3/go-iden3-core/components/idenpuboffchain/readerhttp"
	"github.com/iden3/go-iden3-core/components/verifier"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/merkletree"

	"verif.local/sim/env"
	"verif.local/sim/simrt"
)

// call runs an operation in the identity's process; if the process dies it is
// started again and the model settled.
func (e *issEnv) call(what string, fn func()) bool {
	if e.r.Call(e.n, what, fn) {
		return true
	}
	e.r.Probe("crash")
	return false
}

// revive starts the process again after a crash during an operation of which
// the given steps may have happened.
func (e *issEnv) revive(what string, maybe ...issStep) {
	e.load(what)
	if e.rebuildClaims != nil {
		e.rebuildClaims()
	}
	e.settle(what+", restarted", maybe, e.powered)
	e.powered = false
	e.noticeAdoption(what + ", restarted")
}

// faultsNow counts the faults that struck the identity's calls so far.
func (e *issEnv) faultsNow() int { return e.ctl.Fired + e.ch.Fired }

// watch makes the chain report what the identity sends.
func (e *issEnv) watch() {
	e.ch.OnSend = func(t *env.ChainTx) {
		if t.Id != e.id {
			e.r.About("I03", "sent", "a state of another identity was sent")
		}
		if t.Init && mhash(t.Genesis) != e.genesis {
			e.r.About("I03", "sent", "the identity is introduced with another genesis state")
		}
		if t.Init != (len(e.adopted) == 0) {
			e.r.About("I03", "sent", "introduced again, or updated before being introduced")
		}
		s := e.snaps[mhash(t.New)]
		if s == nil {
			e.r.About("I03", "sent-unknown", "a state was sent to the chain that is not one of the identity's")
		}
		if g := e.snaps[e.genesis]; s != nil && g != nil && s.cl != g.cl && !s.roots[s.cl] {
			e.r.About("I03", "sent-root", "the claims of the state sent changed, but its tree of roots lacks their root")
		}
		old := merkletree.Hash(e.genesis)
		if len(e.adopted) > 0 {
			old = *e.adopted[len(e.adopted)-1].IdenState
		}
		if !e.ch.ValidProof(t.Proof, &e.id, &old, &t.New) {
			e.r.About("I03", "sent-proof", "the proof sent is not of the change from the last state on chain to the one sent")
		}
		if e.sending != (mhash{}) && e.sending != mhash(t.New) {
			e.r.About("I03", "sent-other", "a second state was sent while the first one is pending")
		}
		if e.known != nil && !e.known.FailedOnce {
			e.r.About("I03", "sent-again", "a second transaction was sent while one that is known is pending")
		}
		e.sending = mhash(t.New)
		e.last, e.known = t, nil
	}
}

// noticeAdoption compares what the identity takes for its state on chain with
// the chain.
func (e *issEnv) noticeAdoption(what string) {
	if e.cfg.GenesisOnly {
		return
	}
	d := e.is.StateDataOnChain()
	cur := merkletree.HashZero
	if n := len(e.adopted); n > 0 {
		cur = *e.adopted[n-1].IdenState
	}
	hist := e.ch.History(&e.id)
	onchain := func(x *proof.IdenStateData) bool {
		for _, h := range hist {
			if h.BlockN == x.BlockN && h.BlockTs == x.BlockTs && *h.IdenState == *x.IdenState {
				return true
			}
		}
		return false
	}
	if *d.IdenState != cur {
		if mhash(*d.IdenState) != e.sending {
			e.r.About("I03 I05", "adopted-other", "%s: the state taken for the one on chain is not the one published", what)
		}
		if !onchain(d) {
			e.r.About("I03 I05", "adopted-data", "%s: state, block number and time taken from the chain (block %d) are not in the chain", what, d.BlockN)
		}
		if e.ch.Head().N < d.BlockN+e.cfg.ConfirmBlocks {
			e.r.About("I05", "adopted-early", "%s: a state of block %d is taken as final at block %d, with %d confirmations required", what, d.BlockN, e.ch.Head().N, e.cfg.ConfirmBlocks)
		}
		e.adopted = append(e.adopted, *d)
		e.sending, e.known = mhash{}, nil
		e.r.Probe("adopted")
	} else if n := len(e.adopted); n > 0 && *d != e.adopted[n-1] && (d.BlockN != e.adopted[n-1].BlockN || d.BlockTs != e.adopted[n-1].BlockTs) {
		e.r.About("I03 I05", "adopted-data", "%s: block number or time of the state on chain changed", what)
	}
	for i := range e.adopted {
		if !onchain(&e.adopted[i]) {
			e.r.About("I05", "adopted-early", "%s: a state taken as final (block %d) is not in the chain any more", what, e.adopted[i].BlockN)
		}
	}
	p, tr := e.is.IdenStatePending()
	if mhash(*p) == (mhash{}) && e.sending != (mhash{}) {
		e.r.About("I03 I04", "pending-forgotten", "%s: a state sent to the chain is not recorded as pending", what)
	}
	if q := e.is.IdenStateOnChain(); *q != *d.IdenState {
		e.r.About("I03", "adopted-data", "%s: two answers about the state on chain", what)
	}
	e.r.State(len(e.adopted), mhash(*p) != (mhash{}), tr, len(e.claims), len(e.ch.Pool))
}

// after checks the identity once an operation returned.
func (e *issEnv) after(what string, maybe ...issStep) {
	e.settle(what, maybe, false)
	e.noticeAdoption(what)
}

// pick draws a claim that was asked for; if one with the same index is issued,
// that one.
func (e *issEnv) pick(s *simrt.Stream) *issClaim {
	k := e.claims[s.Draw(len(e.claims))]
	for _, o := range e.claims {
		if o.in && o.em.hi == k.em.hi {
			return o
		}
	}
	return k
}

// sameMeta compares the metadata of a claim with a copy.
func sameMeta(a, b claims.Metadata) bool {
	x := a.Header() == b.Header() && a.Expiration == b.Expiration && a.Version == b.Version && a.RevNonce == b.RevNonce
	return x && (a.Subject == nil) == (b.Subject == nil) && (a.Subject == nil || *a.Subject == *b.Subject)
}

func (e *issEnv) opIssue(s *simrt.Stream, subject *core.ID) {
	r := e.r
	var c claims.Claimer
	var dup *issClaim
	if s.Chance(1, 6) {
		dup = e.pick(s)
		c = dup.c
		if s.Chance(1, 2) {
			// another claim object with the same index
			en := &merkletree.Entry{Data: dup.entry.Data}
			en.Data[5][2] ^= byte(1 + s.Draw(7))
			c = claims.NewClaimGeneric(en)
		}
		if !dup.in {
			dup = nil
		}
	} else {
		c = e.newClaim(s, subject)
		if s.Chance(1, 6) {
			g, err := claims.HexToClaimGeneric(claims.ClaimToHex(c))
			r.Must(err, "hex claim")
			if !bytes.Equal(g.Entry().Bytes(), c.Entry().Bytes()) {
				r.About("I01 I02", "hex", "a claim read from hex is not the one written")
			}
			c = &g
		}
	}
	if s.Chance(1, 3) {
		_, _, err := c.Entry().HiHv() // the caller looks at it first
		r.Must(err, "hash")
	}
	if s.Chance(1, 6) { // the nonce it has is none of the issuer's
		n := uint32(s.Draw(12))
		if s.Chance(1, 3) {
			n = ^n
		}
		if dup == nil {
			c.Metadata().RevNonce = n
			r.Probe("preset_nonce")
		}
	}
	hi := leafEntry(c.Entry()).hi
	for _, k := range e.claims {
		if k.in && k.em.hi == hi {
			dup = k
		}
	}
	before := *c.Metadata()
	f0 := e.faultsNow()
	var err error
	if !e.call("IssueClaim", func() { err = e.is.IssueClaim(c) }) {
		var maybe []issStep
		if dup == nil {
			en := &merkletree.Entry{Data: c.Entry().Data}
			k := &issClaim{c: c, entry: en, em: leafEntry(en), nonce: c.Metadata().RevNonce}
			e.claims = append(e.claims, k)
			maybe = append(maybe, issStep{kind: 'c', c: k})
		}
		e.revive("IssueClaim", maybe...)
		r.Probe("crash_issue")
		return
	}
	r.Describe("issue dup=%v nonce=%d -> %v", dup != nil, c.Metadata().RevNonce, err)
	if err != nil {
		if !sameMeta(before, *c.Metadata()) {
			r.About("I02", "metadata", "issuing a claim failed (%v) and changed its metadata: revocation nonce %d instead of %d", err, c.Metadata().RevNonce, before.RevNonce)
		}
		if dup == nil && e.faultsNow() == f0 {
			r.About("I01 I02", "refused", "issuing a new claim failed with no fault: %v", err)
		}
		if dup != nil {
			r.Probe("duplicate")
		}
		e.after("IssueClaim failed")
		return
	}
	if dup != nil {
		r.About("I01 I02", "replaced", "a claim with the index of an issued one was issued")
	}
	m := *c.Metadata()
	m.RevNonce = before.RevNonce
	if !sameMeta(before, m) {
		r.About("I02", "metadata", "issuing a claim changed more than its revocation nonce")
	}
	e.enter(c, false)
	e.after("IssueClaim")
}

func (e *issEnv) opRevoke(s *simrt.Stream) {
	r := e.r
	k := e.pick(s)
	var arg merkletree.Entrier = k.c
	never := s.Chance(1, 10)
	if never {
		arg = e.newClaim(s, nil)
	} else if s.Chance(1, 2) {
		en := &merkletree.Entry{Data: k.entry.Data}
		if s.Chance(1, 3) { // as the claim was before it got its nonce
			en.Data[4][s.Draw(3)] ^= byte(1 + s.Draw(3))
			en.Data[7][4] ^= byte(s.Draw(2))
		}
		arg = claims.NewClaimGeneric(en)
	}
	f0 := e.faultsNow()
	var err error
	step := issStep{kind: 'r', c: k}
	if !e.call("RevokeClaim", func() { err = e.is.RevokeClaim(arg) }) {
		if never || !k.in || k.rev {
			e.revive("RevokeClaim")
		} else {
			e.revive("RevokeClaim", step)
		}
		return
	}
	r.Describe("revoke nonce=%d never=%v again=%v -> %v", k.nonce, never, k.rev, err)
	switch {
	case err == nil && (never || !k.in):
		r.About("I01", "revoked-unknown", "a claim that was never issued was revoked")
	case err == nil && !k.rev:
		e.keep(append(e.log, step))
	case err != nil && !never && k.in && !k.rev && e.faultsNow() == f0:
		r.About("I01 I02", "refused", "revoking an issued claim failed with no fault: %v", err)
	}
	e.after("RevokeClaim")
}

func (e *issEnv) opPublish() error {
	r := e.r
	step := e.preparePublish()
	f0 := e.faultsNow()
	e.last = nil
	was := e.actual().state
	var err error
	if !e.call("PublishState", func() { err = e.is.PublishState() }) {
		r.Probe("crash_publish")
		e.revive("PublishState", step)
		return nil
	}
	r.Describe("publish -> %v", err)
	if err == nil && e.last != nil && e.last.Acked {
		e.known = e.last
	}
	if err == nil && e.last == nil && e.sending != (mhash{}) && e.sending != was {
		r.About("I03 I04", "not-sent", "publishing reports success for the state %x, but it sent nothing: the state %x is still pending", was[:4], e.sending[:4])
	}
	if err != nil && !errors.Is(err, issuer.ErrIdenStatePendingNotNil) && e.faultsNow() == f0 {
		r.About("I04", "publish-error", "publishing failed with no fault: %v", err)
	}
	if errors.Is(err, issuer.ErrIdenStatePendingNotNil) && e.sending == (mhash{}) {
		r.About("I04", "publish-error", "publishing is refused although nothing is pending")
	}
	e.after("PublishState", step)
	return err
}

func (e *issEnv) opSync() error {
	r := e.r
	f0 := e.faultsNow()
	var err error
	if !e.call("SyncIdenStatePublic", func() { err = e.is.SyncIdenStatePublic() }) {
		e.revive("SyncIdenStatePublic")
		return nil
	}
	r.Describe("sync -> %v", err)
	if err != nil && e.faultsNow() == f0 {
		r.About("I04", "sync-error", "synchronising failed with no fault: %v", err)
	}
	e.after("SyncIdenStatePublic")
	return err
}

// quiet runs fn with no faults injected.
func (e *issEnv) quiet(fn func()) {
	a, b, l := e.ctl.Off, e.ch.Off, e.ch.Latency
	e.ctl.Off, e.ch.Off, e.ch.Latency = true, true, 0
	fn()
	e.ctl.Off, e.ch.Off, e.ch.Latency = a, b, l
}

func (e *issEnv) opCredential(s *simrt.Stream) {
	r := e.r
	k := e.pick(s)
	var arg merkletree.Entrier = k.c
	altered := s.Chance(1, 6)
	if altered {
		en := &merkletree.Entry{Data: k.entry.Data}
		en.Data[4+s.Draw(4)][9] ^= 1
		arg = claims.NewClaimGeneric(en)
	} else if s.Chance(1, 3) || !bytes.Equal(k.c.Entry().Bytes(), k.entry.Bytes()) {
		arg = claims.NewClaimGeneric(&merkletree.Entry{Data: k.entry.Data})
	}
	d := merkletree.HashZero
	if n := len(e.adopted); n > 0 {
		d = *e.adopted[n-1].IdenState
	}
	f0 := e.faultsNow()
	var err error
	var cred *proof.CredentialExistence
	if !e.call("GenCredentialExistence", func() { cred, err = e.is.GenCredentialExistence(arg) }) {
		e.revive("GenCredentialExistence")
		return
	}
	r.Describe("credential altered=%v in=%v -> %v", altered, k.in, err)
	if err != nil && e.faultsNow() > f0 {
		return
	}
	if d == merkletree.HashZero {
		if !errors.Is(err, issuer.ErrIdenStateOnChainZero) {
			r.About("I03", "credential", "a credential with no state on chain: %v", err)
		}
		return
	}
	snap := e.snaps[mhash(d)]
	switch {
	case snap == nil:
		r.Break("no snapshot of an adopted state")
	case altered:
		if !errors.Is(err, issuer.ErrClaimNotFoundClaimsTree) {
			r.About("I03", "credential", "asking for a credential of a claim whose value was altered: %v", err)
		}
	case snap.claims[k]:
		if err != nil {
			r.About("I03", "credential", "no credential for a claim of the state on chain: %v", err)
		}
		if !bytes.Equal(cred.Claim.Bytes(), k.entry.Bytes()) || *cred.Id != e.id || cred.IdenPubUrl != e.url ||
			*cred.IdenStateData.IdenState != d || cred.IdenStateData.BlockN != e.adopted[len(e.adopted)-1].BlockN {
			r.About("I03", "credential", "the credential is not of the claim, identity and state asked for")
		}
		var verr error
		e.quiet(func() {
			r.Call(nil, "verify", func() { verr = verifier.New(e.ch).VerifyCredentialExistence(cred) })
		})
		if verr != nil {
			r.About("I03", "credential", "a credential the identity made does not verify: %v", verr)
		}
		r.Probe("credential")
	case k.in:
		if !errors.Is(err, issuer.ErrClaimNotYetInOnChainState) {
			r.About("I03", "credential", "a credential for a claim that is not in the state on chain: %v", err)
		}
		r.Probe("not_yet")
	default:
		if !errors.Is(err, issuer.ErrClaimNotFoundClaimsTree) {
			r.About("I03", "credential", "a credential for a claim that was not issued: %v", err)
		}
	}
}

// opOwnership: the inputs that prove ownership never change.
func (e *issEnv) opOwnership() {
	var in *issuer.IdOwnershipGenesisInputs
	var err error
	f0 := e.faultsNow()
	if !e.call("GenIdOwnershipGenesisInputs", func() { in, err = e.is.GenIdOwnershipGenesisInputs(zkLevels) }) {
		e.revive("GenIdOwnershipGenesisInputs")
		return
	}
	if err != nil {
		if e.faultsNow() == f0 {
			e.r.About("I01", "ownership", "no ownership inputs: %v", err)
		}
		return
	}
	if werr := ownsGenesis(in.Id, in.PrivateKey, in.ClaimsTreeRoot, in.MtpSiblings); werr != nil {
		e.r.About("I01", "ownership", "the ownership inputs do not prove ownership: %v", werr)
	}
	if e.own != nil && fmt.Sprint(*in) != fmt.Sprint(*e.own) {
		e.r.About("I01", "ownership", "the ownership inputs changed")
	}
	e.own = in
}

// offChain checks that the published data of the state on chain can be had.
func (e *issEnv) offChain(what string) {
	r := e.r
	last := e.ch.Last(&e.id)
	if last == merkletree.HashZero {
		return
	}
	snap := e.snaps[mhash(last)]
	if snap == nil {
		r.About("I03", "sent-unknown", "%s: the chain has a state that is not one of the identity's", what)
	}
	e.quiet(func() {
		r.Call(nil, "reader", func() {
			pd, err := readerhttp.NewIdenPubOffChainHttp().GetPublicData(e.url, &e.id, &last)
			if err != nil {
				r.About("I04", "off-chain", "%s: the public data of the state on chain is not available: %v", what, err)
			}
			if mhash(*pd.ClaimsTreeRoot) != snap.cl || mhash(*pd.RevocationsTree.RootKey()) != snap.rv || mhash(*pd.RootsTree.RootKey()) != snap.rt {
				r.About("I04", "off-chain", "%s: the public data is not that of the state on chain", what)
			}
		})
	})
}

// converge: with the faults gone, the current state gets on chain.
func (e *issEnv) converge() {
	r := e.r
	e.ctl.Off, e.ch.Off = true, true
	e.n.CrashAfter(0, false)
	e.stopped = true
	if e.is == nil || e.n.Dead() {
		e.load("the end")
		e.settle("the end", nil, false)
	}
	const rounds = 8
	for i := 0; ; i++ {
		st, _ := e.is.State()
		p, _ := e.is.IdenStatePending()
		if len(e.ch.Pool) == 0 && *p == merkletree.HashZero && (e.ch.Last(&e.id) == *st || len(e.adopted) == 0 && mhash(*st) == e.genesis) {
			if len(e.adopted) > 0 && *e.is.StateDataOnChain().IdenState != *st {
				r.About("I03", "adopted-other", "the state on chain is not the one reported")
			}
			break
		}
		if i == rounds {
			r.About("I04", "stuck", "after %d fault free rounds of publishing and synchronising the current state is not on chain (pending %v, on chain %v)", rounds, *p != merkletree.HashZero, e.ch.Last(&e.id) != merkletree.HashZero)
		}
		_ = e.opPublish()
		for j := uint64(0); j <= e.cfg.ConfirmBlocks+1; j++ {
			r.W.SleepNs(12e9)
			e.ch.Mine(100)
		}
		_ = e.opSync()
	}
	e.offChain("the end")
	r.Probe("converged")
}
