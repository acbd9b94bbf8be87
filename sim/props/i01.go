package props

import (
	"errors"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/merkletree"

	"verif.local/sim/env"
	"verif.local/sim/simrt"
)

func init() {
	real := []string{"identity/issuer", "core/claims", "core/genesis", "merkletree", "db", "goleveldb engine", "keystore", "idenpuboffchain/writerhttp and readerhttp", "utils/zk", "Groth16 verifier"}
	stub := []string{"chain and contract (model)", "Groth16 prover (trapdoor of a toy set-up)", "witness calculator (Go function)", "disk", "network", "clock", "goroutine scheduler"}
	assume := []string{"transactions of one account are mined in the order they were sent and are not dropped from the pool", "reorganisations are not deeper than the confirmations required"}
	reg := func(id, rule string, run func(r *Run), nontrivial []string, more ...string) {
		register(&Prop{ID: id, Setup: issSetup, Run: run, Rule: rule, Nontrivial: nontrivial, Real: real, Stub: stub, Assumptions: append(assume, more...), MaxSteps: 40e6})
	}
	reg("I01", "each run creates an identity with 0-3 further genesis claims and lets it issue new and already issued claims, revoke, publish, synchronise, reload and crash or lose power at seeded statements, over a database on disk or in memory whose transactions fail at seeded points; after every operation and restart the three roots must be those of exactly the acknowledged claims, revocations and roots (plus possibly the operation cut off; after a power loss possibly without the latest ones), the identifier, key and ownership inputs never change, and nothing is refused without a fault. Creation itself is cut off at seeded statements too. Non-trivial: a crash or a storage fault struck.",
		runI01, []string{"crash", "storage_fault"})
	reg("I02", "each run issues new, repeated and colliding claims, some with a nonce of their own, many of which fail because of storage faults or crashes, and checks that no two claims of the identity share a revocation nonce, that a failed issue leaves the claim as it was, and that a successful one changes the revocation nonce only. Non-trivial: an issue failed or was cut off.",
		runI02, []string{"duplicate", "crash_issue", "storage_fault"})
	reg("I03", "each run drives an identity through issuing, revoking, publishing and synchronising while the connection to the chain fails, loses requests and answers, answers from lagging replicas, transactions fail on chain, storage transactions fail and the process crashes; whatever is sent to the chain must be a state the identity has recorded, with a valid proof of the step from the state on chain, one at a time; the state taken for the one on chain is the chain's, with its block and time; a credential of existence is given exactly for the claims of that state and verifies. Non-trivial: a state was adopted and a fault or crash struck.",
		runI03, []string{"faulted_adoption"}, "no power loss after a publication started (storage commits are not synced)")
	reg("I04", "each run lets the same faults strike, then stops them; publishing and synchronising must bring the current state on chain within eight rounds, with the public data of the state on chain available from the publisher, and at no point may publishing or synchronising fail without a fault. Non-trivial: a fault or crash struck before.",
		runI04, []string{"crash", "chain_fault", "storage_fault"}, "no power loss after a publication started")
	reg("I05", "each run mines blocks slowly and reorganises the chain up to the required number of confirmations (0-4), while answers to sent transactions get lost, transactions fail on chain and replicas lag; a state is taken for the one on chain only once that many blocks follow its own, and what was taken stays on chain; in a quarter of the runs somebody else with the key then sets the state, which must be reported as an error and change nothing. Non-trivial: a reorganisation struck while a publication was pending.",
		runI05, []string{"reorg_pending"})
	reg("I06", "each run loads a genesis only identity and calls everything that would change it, with and without storage faults and crashes in between; every change is refused with the error for it, and roots, key, identifier and ownership inputs stay. Non-trivial: always.",
		runI06, []string{"refused"})
}

// issWorld makes chain and identity.
func issWorld(r *Run, sh *simrt.Stream, level bool) *issEnv {
	ch := env.NewChain(r.W, r.S("chain"), idStateCircuit.Vk)
	ch.Off = true
	e := newIssEnv(r, "issuer", sh.Draw(len(keySks)), ch, level)
	e.cfg.ConfirmBlocks = uint64(sh.Draw(5))
	if sh.Chance(1, 3) {
		ch.Latency = []int64{5e6, 200e6, 2e9}[sh.Draw(3)]
	}
	return e
}

func (e *issEnv) genesisClaims(sh *simrt.Stream) []claims.Claimer {
	var out []claims.Claimer
	for i := sh.Draw(4); i > 0; i-- {
		out = append(out, e.newClaim(sh, nil))
	}
	return out
}

type issRates struct {
	chain, storage, crash, power, reorg int
	w                                   []int // weights of the operations
}

const (
	wIssue = iota
	wRevoke
	wPublish
	wSync
	wMine
	wCredential
	wReload
	wOwnership
	wReorg
)

// drive runs the operations of a run.
func (e *issEnv) drive(sh *simrt.Stream, k issRates, lo, hi int) {
	r := e.r
	ch := e.ch
	if k.chain > 0 {
		ch.CallErr, ch.SendLost, ch.RespLost, ch.Stale, ch.TxFail = sh.Draw(3)*k.chain, sh.Draw(4)*k.chain, sh.Draw(6)*k.chain, sh.Draw(4)*k.chain, sh.Draw(4)*k.chain
		ch.ProveErr = sh.Draw(4) * k.chain
	}
	if k.storage > 0 && sh.Chance(2, 3) {
		e.ctl.NewTx, e.ctl.Get, e.ctl.Commit = sh.Draw(3)*k.storage/2, sh.Draw(2)*k.storage/4, sh.Draw(4)*k.storage
	}
	e.ctl.Off, ch.Off = false, false
	subject := &core.ID{9, 9}
	if ch.Latency > 0 {
		ms := r.S("miner")
		r.W.Go(nil, "miner", func() {
			for !e.stopped {
				r.W.SleepNs(int64(ms.Range(1, 30)) * 1e9)
				if !e.stopped {
					ch.Mine(ms.Draw(4) + 1)
				}
			}
		})
	}
	for _, op := range r.Ops(lo, hi) {
		s := r.Op(op)
		kind := s.Weighted(k.w...)
		if e.level && k.crash > 0 && s.Chance(k.crash, 100) {
			power := k.power > 0 && s.Chance(k.power, 100)
			e.powered = power
			e.n.CrashAfter(CrashDist(s), power)
		} else {
			e.n.CrashAfter(0, false)
		}
		r.W.SleepNs(int64(s.Draw(4)) * 1e9)
		if e.n.Dead() { // it died in between operations
			e.revive("idle")
		}
		switch kind {
		case wIssue:
			e.opIssue(s, subject)
		case wRevoke:
			e.opRevoke(s)
		case wPublish:
			_ = e.opPublish()
		case wSync:
			_ = e.opSync()
		case wMine:
			for i := s.Draw(int(e.cfg.ConfirmBlocks) + 3); i >= 0; i-- {
				r.W.SleepNs(int64(s.Draw(15)+1) * 1e9)
				ch.Mine(s.Draw(4))
			}
		case wCredential:
			e.opCredential(s)
		case wReload:
			e.n.CrashAfter(0, false)
			if e.level {
				e.close()
			}
			e.load("reloading")
			e.after("reloading")
		case wOwnership:
			e.opOwnership()
		case wReorg:
			d := s.Range(1, 4)
			if d > int(e.cfg.ConfirmBlocks) {
				d = int(e.cfg.ConfirmBlocks)
			}
			if d > 0 {
				if e.sending != (mhash{}) {
					r.Probe("reorg_pending")
				}
				ch.Reorg(d, s.Draw(5))
				e.noticeAdoption("a reorganisation")
			}
		}
		if e.ctl.Fired > 0 {
			r.Probe("storage_fault")
		}
		if ch.Fired > 0 {
			r.Probe("chain_fault")
		}
	}
	if len(e.adopted) > 0 && (e.faultsNow() > 0 || r.W.Probes["crash"] > 0) {
		r.Probe("faulted_adoption")
	}
	e.n.CrashAfter(0, false)
}

func runI01(r *Run) {
	r.Profile()
	sh := r.S("shape")
	level := sh.Chance(2, 3)
	e := issWorld(r, sh, level)
	extra := e.genesisClaims(sh)
	if level && sh.Chance(1, 3) {
		e.crashedCreate(sh, extra)
		return
	}
	if sh.Chance(1, 3) {
		e.trying = r.S("creations")
	}
	e.create(extra)
	e.watch()
	e.load("first load")
	e.after("first load")
	power := level && sh.Chance(1, 2)
	k := issRates{chain: 5, storage: 30, crash: 25, w: []int{40, 16, 10, 6, 6, 4, 6, 4}}
	if power {
		k.power = 60
		k.w[wPublish], k.w[wMine] = 0, 0
	}
	e.drive(sh, k, 4, 24)
	e.quiet(func() {
		if level {
			e.close()
		}
		e.load("the end")
		e.after("the end")
		e.opOwnership()
	})
	e.stopped = true
}

// crashedCreate cuts the creation off: what is left is no identity, or the
// whole one.
func (e *issEnv) crashedCreate(sh *simrt.Stream, extra []claims.Claimer) {
	r := e.r
	var id *core.ID
	e.r.Call(e.n, "prepare", func() { e.open(false); e.n.FS.Sync() })
	power := sh.Chance(1, 2)
	e.n.CrashAfter(CrashDist(sh), power)
	var err error
	done := r.Call(e.n, "Create", func() { id, err = issuer.Create(e.cfg, &keyPks[e.kop], extra, e.st, e.ks) })
	if done && err != nil {
		r.About("I01", "create", "an identity cannot be created: %v", err)
	}
	e.n.CrashAfter(0, false)
	if done {
		e.n.Crash(power)
	}
	r.Probe("crash")
	e.n.Restart()
	e.cfg.GenesisOnly = false
	r.Call(e.n, "load", func() {
		e.open(true)
		c := idStateCircuit
		fs := e.n.FS
		_ = simrt.MkdirAll(e.dir+"/zk", 0700)
		fs.Put(e.dir+"/zk/proving_key.go.bin", c.PkGoBin)
		fs.Put(e.dir+"/zk/verification_key.json", c.VkJSON)
		fs.Put(e.dir+"/zk/circuit.wasm", c.WASM)
		is, err := issuer.Load(e.st, e.ks, e.ch, e.zkConf(), e.wr)
		if err != nil {
			if done && !power {
				r.About("I01", "create", "an identity whose creation was acknowledged does not load: %v", err)
			}
			// What is left of it is not in the way of creating one now.
			if sh.Chance(1, 2) {
				e.kop = sh.Draw(len(keySks))
			}
			if sh.Chance(1, 3) {
				extra = extra[:sh.Draw(len(extra)+1)]
			}
			if id, err = issuer.Create(e.cfg, &keyPks[e.kop], extra, e.st, e.ks); err != nil {
				r.About("I01", "create", "after a creation was cut off, an identity cannot be created: %v", err)
			}
			e.ks = e.newKeys()
			if is, err = issuer.Load(e.st, e.ks, e.ch, e.zkConf(), e.wr); err != nil {
				r.About("I01", "create", "an identity whose creation was acknowledged does not load: %v", err)
			}
		}
		r.Probe("created")
		e.is = is
		// it is the whole identity
		pk, derr := keyPks[e.kop].Decompress()
		r.Must(derr, "key")
		kc := claims.NewClaimKeyBabyJub(pk, claims.BabyJubKeyTypeAuthorizeKSign)
		e.enter(kc, true)
		for _, c := range extra {
			e.enter(c, true)
		}
		e.log = append(e.log, issStep{kind: 'p', root: e.croot()})
		g := snapOf(e.log)
		a := e.actual()
		if a.state != g.state {
			r.About("I01", "half-created", "an identity whose creation was cut off loads with other claims than asked for")
		}
		e.id = *is.ID()
		if id != nil && e.id != *id {
			r.About("I01", "half-created", "the identity has another identifier than reported")
		}
		in, oerr := is.GenIdOwnershipGenesisInputs(zkLevels)
		if oerr != nil {
			r.About("I01", "half-created", "an identity whose creation was cut off has no ownership inputs: %v", oerr)
		}
		if werr := ownsGenesis(in.Id, in.PrivateKey, in.ClaimsTreeRoot, in.MtpSiblings); werr != nil {
			r.About("I01", "half-created", "an identity whose creation was cut off cannot prove ownership: %v", werr)
		}
		c2 := e.newClaim(sh, nil)
		if ierr := is.IssueClaim(c2); ierr != nil {
			r.About("I01", "half-created", "an identity whose creation was cut off cannot issue: %v", ierr)
		}
		e.enter(c2, false)
	})
}

func runI02(r *Run) {
	r.Profile()
	sh := r.S("shape")
	e := issWorld(r, sh, sh.Chance(1, 2))
	e.create(e.genesisClaims(sh))
	e.watch()
	e.load("first load")
	e.after("first load")
	e.drive(sh, issRates{storage: 60, crash: 25, w: []int{60, 6, 3, 2, 2, 3, 5, 0}}, 5, 30)
	e.stopped = true
}

func runI03(r *Run) {
	r.Profile()
	sh := r.S("shape")
	e := issWorld(r, sh, sh.Chance(2, 3))
	e.create(e.genesisClaims(sh))
	e.watch()
	e.load("first load")
	e.after("first load")
	e.drive(sh, issRates{chain: 40, storage: 25, crash: 12, w: []int{20, 6, 22, 22, 22, 14, 5, 1, 4}}, 8, 50)
	e.stopped = true
}

func runI04(r *Run) {
	r.Profile()
	sh := r.S("shape")
	e := issWorld(r, sh, sh.Chance(2, 3))
	e.create(e.genesisClaims(sh))
	e.watch()
	e.load("first load")
	e.after("first load")
	e.drive(sh, issRates{chain: 40, storage: 40, crash: 20, w: []int{20, 8, 26, 18, 18, 0, 4, 0, 5}}, 2, 25)
	e.offChain("after the faults")
	e.converge()
}

func runI05(r *Run) {
	r.Profile()
	sh := r.S("shape")
	e := issWorld(r, sh, sh.Chance(1, 2))
	e.create(e.genesisClaims(sh))
	e.watch()
	e.load("first load")
	e.after("first load")
	e.drive(sh, issRates{chain: 50, storage: 10, crash: 6, w: []int{14, 3, 20, 26, 24, 0, 4, 0, 16}}, 8, 50)
	e.stopped = true
	if sh.Chance(1, 4) && e.is != nil && !e.n.Dead() {
		e.usurped(sh)
	}
}

// usurped lets somebody else with the key of the identity set its state: that
// is no state the identity takes for its own, and it says so.
func (e *issEnv) usurped(sh *simrt.Stream) {
	r := e.r
	e.ctl.Off, e.ch.Off, e.ch.Latency = true, true, 0
	mine := func() {
		for j := uint64(0); j <= e.cfg.ConfirmBlocks+1; j++ {
			r.W.SleepNs(12e9)
			e.ch.Mine(100)
		}
	}
	if sh.Chance(1, 2) {
		_ = e.opPublish()
	}
	if sh.Chance(1, 2) {
		mine()
	}
	for len(e.ch.Pool) > 0 && sh.Chance(2, 3) {
		e.ch.Mine(100)
	}
	var st merkletree.Hash
	copy(st[:], r.S("usurper").Bytes(30))
	st[0] |= 1
	e.ch.Usurp(&e.id, st)
	mine()
	if e.ch.Last(&e.id) != st {
		r.Break("a transaction of the identity followed another one's state")
	}
	for i := sh.Draw(3); i >= 0; i-- {
		before := *e.is.StateDataOnChain()
		p1, sent := e.is.IdenStatePending()
		pend := *p1
		a := e.actual()
		var err error
		what := "SyncIdenStatePublic"
		pub := sh.Chance(1, 3)
		if pub {
			what = "PublishState"
		}
		if !e.call(what, func() {
			if pub {
				_ = e.is.PublishState()
			} else {
				err = e.is.SyncIdenStatePublic()
			}
		}) {
			r.Break("a crash with the faults off")
		}
		if !pub && err == nil {
			r.About("I05", "usurped", "the chain has a state that is neither the one taken as final nor the pending one, and synchronising finds nothing wrong")
		}
		now := *e.is.StateDataOnChain()
		if *now.IdenState != *before.IdenState || now.BlockN != before.BlockN || now.BlockTs != before.BlockTs {
			r.About("I05", "usurped", "after somebody else set the state on chain, %s changed the state taken as final", what)
		}
		if b := e.actual(); b.cl != a.cl || b.rv != a.rv {
			r.About("I05", "usurped", "after somebody else set the state on chain, %s changed the claims or revocations", what)
		}
		p2, s2 := e.is.IdenStatePending()
		if !pub && (*p2 != pend || s2 != sent) {
			r.About("I05", "usurped", "after somebody else set the state on chain, synchronising changed the pending state")
		}
		mine()
	}
	r.Probe("usurped")
}

func runI06(r *Run) {
	r.Profile()
	sh := r.S("shape")
	level := sh.Chance(1, 2)
	e := issWorld(r, sh, level)
	e.cfg.GenesisOnly = true
	e.equipped = sh.Chance(1, 3)
	e.create(e.genesisClaims(sh))
	e.watch()
	e.load("first load")
	e.settle("first load", nil, false)
	if sh.Chance(1, 2) {
		e.ctl.NewTx, e.ctl.Get, e.ctl.Commit = 40, 20, 80
	}
	e.ctl.Off = false
	for _, op := range r.Ops(3, 16) {
		s := r.Op(op)
		if level && s.Chance(1, 5) {
			e.n.CrashAfter(CrashDist(s), s.Chance(1, 2))
		}
		k := e.pick(s)
		var err error
		name := ""
		calls := []func(){
			func() { name = "IssueClaim"; err = e.is.IssueClaim(e.newClaim(s, nil)) },
			func() { name = "IssueClaim (known)"; err = e.is.IssueClaim(k.c) },
			func() { name = "RevokeClaim"; err = e.is.RevokeClaim(k.c) },
			func() { name = "PublishState"; err = e.is.PublishState() },
			func() { name = "SyncIdenStatePublic"; err = e.is.SyncIdenStatePublic() },
			func() { name = "GenCredentialExistence"; _, err = e.is.GenCredentialExistence(k.c) },
			func() { name = "UpdateClaim"; err = e.is.UpdateClaim(&merkleHashZero, nil) },
		}
		f := calls[s.Draw(len(calls))]
		before := *k.c.Metadata()
		if !e.call("refused call", f) {
			e.load("restarted")
			e.settle("restarted", nil, false)
			continue
		}
		e.n.CrashAfter(0, false)
		if !errors.Is(err, issuer.ErrIdenGenesisOnly) {
			r.About("I06", "not-refused", "%s on a genesis only identity: %v", name, err)
		}
		if !sameMeta(before, *k.c.Metadata()) {
			r.About("I06", "changed", "%s on a genesis only identity changed the claim's metadata", name)
		}
		r.Probe("refused")
		a := e.actual()
		if a.state != e.genesis {
			r.About("I06", "changed", "%s changed the state of a genesis only identity", name)
		}
		if s.Chance(1, 4) {
			e.opOwnershipI06()
		}
		if len(e.ch.Calls) > 0 {
			r.About("I06", "changed", "a genesis only identity sent something to the chain")
		}
	}
}

func (e *issEnv) opOwnershipI06() {
	if !e.call("ownership", func() {
		f0 := e.faultsNow()
		in, err := e.is.GenIdOwnershipGenesisInputs(zkLevels)
		if err != nil {
			if e.faultsNow() == f0 {
				e.r.About("I06", "ownership", "no ownership inputs: %v", err)
			}
			return
		}
		if werr := ownsGenesis(in.Id, in.PrivateKey, in.ClaimsTreeRoot, in.MtpSiblings); werr != nil {
			e.r.About("I06", "ownership", "the ownership inputs do not prove ownership: %v", werr)
		}
	}) {
		e.load("restarted")
	}
}
