package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"strings"
	"time"

	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/identity/holder"
	"github.com/iden3/go-iden3-core/merkletree"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"
	"github.com/iden3/go-iden3-crypto/babyjub"
	cryptoUtils "github.com/iden3/go-iden3-crypto/utils"

	"verif.local/sim/simrt"
)

// V04: zero knowledge proofs of credentials.

// rootUpLevels is the root of a leaf with the siblings of a circuit: an entry
// is at the end of the siblings that are not zero.
func rootUpKey(leaf mhash, hi mhash, sib []*big.Int) mhash {
	d := 0
	for i, s := range sib {
		if s.Sign() != 0 {
			d = i + 1
		}
	}
	k := leaf
	for i := d - 1; i >= 0; i-- {
		if bit(hi, i) {
			k = mposeidon(sib[i], h2big(k))
		} else {
			k = mposeidon(h2big(k), sib[i])
		}
	}
	return k
}

// credentialWitness is the relation of the credential circuit: the holder
// owns the identity the claim is about, the issuer's state holds the claim
// and does not revoke it.
func credentialWitness(in map[string]interface{}) ([]*big.Int, error) {
	var err error
	get := func(k string) *big.Int {
		v, ok := in[k].(*big.Int)
		if !ok || v == nil || !cryptoUtils.CheckBigIntInField(v) {
			err = fmt.Errorf("witness: bad input %s", k)
			return new(big.Int)
		}
		return v
	}
	list := func(k string, n int) []*big.Int {
		v, ok := in[k].([]*big.Int)
		if !ok || len(v) != n {
			err = fmt.Errorf("witness: bad input %s", k)
			return make([]*big.Int, 0)
		}
		for _, x := range v {
			if x == nil || !cryptoUtils.CheckBigIntInField(x) {
				err = fmt.Errorf("witness: bad input %s", k)
			}
		}
		return v
	}
	cl := list("claim", 8)
	sk, hoMtp, hoRoot := get("hoKOpSk"), list("hoClaimKOpMtp", zkLevels+1), get("hoClaimKOpClaimsTreeRoot")
	exMtp, exRoot := list("isProofExistMtp", vLevels+1), get("isProofExistClaimsTreeRoot")
	nrMtp, noAux, auxHi, auxHv := list("isProofValidNotRevMtp", vLevels+1), get("isProofValidNotRevMtpNoAux"), get("isProofValidNotRevMtpAuxHi"), get("isProofValidNotRevMtpAuxHv")
	vc, vr, vo := get("isProofValidClaimsTreeRoot"), get("isProofValidRevTreeRoot"), get("isProofValidRootsTreeRoot")
	rtMtp, state := list("isProofRootMtp", vLevels+1), get("isIdenState")
	if err != nil {
		return nil, err
	}
	for _, l := range [][]*big.Int{hoMtp, exMtp, nrMtp, rtMtp} {
		if l[len(l)-1].Sign() != 0 {
			return nil, errors.New("witness: the extra level is not empty")
		}
	}
	var data merkletree.Data
	for i := range data {
		data[i] = merkletree.ElemBytes(*merkletree.NewHashFromBigInt(cl[i]))
	}
	m := newEntryModel(data)
	// the holder
	s := babyjub.PrivKeyScalar(*sk)
	kc := claims.NewClaimKeyBabyJub(s.Public(), claims.BabyJubKeyTypeAuthorizeKSign)
	root := modelRootUp(leafEntry(kc.Entry()), hoMtp)
	if h2big(root).Cmp(hoRoot) != 0 {
		return nil, errors.New("witness: the key is not in the holder's genesis claims")
	}
	st := merkletree.Hash(mstate(root, mhash{}, mroot([]mentry{rootLeaf(root)}, 0)))
	hid := core.IdGenesisFromIdenState(&st)
	sub := -1
	if data[0][claims.ClaimTypeLen]&3 != 0 {
		sub = 1
		if data[0][claims.ClaimTypeLen]&4 != 0 {
			sub = 5
		}
	}
	if sub < 0 || string(data[sub][:31]) != string(hid[:]) {
		return nil, errors.New("witness: the claim is not about the holder")
	}
	// the claim
	if h2big(modelRootUp(m, exMtp)).Cmp(exRoot) != 0 {
		return nil, errors.New("witness: the claim is not in the tree")
	}
	rl := rootLeaf(mhash(*merkletree.NewHashFromBigInt(exRoot)))
	if h2big(modelRootUp(rl, rtMtp)).Cmp(vo) != 0 {
		return nil, errors.New("witness: the claims root is not one of the issuer's")
	}
	// not revoked
	rv := revLeaf(nonceOf(&data))
	leaf := mhash{}
	if noAux.Sign() == 0 {
		hi := mhash(*merkletree.NewHashFromBigInt(auxHi))
		if hi == rv.hi {
			return nil, errors.New("witness: the claim is revoked")
		}
		d := 0
		for i, x := range nrMtp {
			if x.Sign() != 0 {
				d = i + 1
			}
		}
		for i := 0; i < d; i++ {
			if bit(hi, i) != bit(rv.hi, i) {
				return nil, errors.New("witness: the other leaf is not on the way")
			}
		}
		leaf = mposeidon(auxHi, auxHv, big.NewInt(1))
	}
	if h2big(rootUpKey(leaf, rv.hi, nrMtp)).Cmp(vr) != 0 {
		return nil, errors.New("witness: the claim is revoked or the tree another one")
	}
	if h2big(mposeidon(vc, vr, vo)).Cmp(state) != 0 {
		return nil, errors.New("witness: the state is not that of its roots")
	}
	return credCircuit.Witness(state, h2big(m.hi), h2big(m.hv)), nil
}

func (w *vWorld) prove(s *simrt.Stream) {
	r := w.r
	if len(w.creds) == 0 {
		return
	}
	c := w.creds[len(w.creds)-1-s.Draw(min(len(w.creds), 6))]
	for i := 0; i < 4 && aboutHolder(c, w.hid) == false; i++ {
		c = w.creds[s.Draw(len(w.creds))]
	}
	about := aboutHolder(c, w.hid)
	js, how := c.js, ""
	if s.Chance(w.p.tamper/3, 100) {
		var pool [][]byte
		for _, x := range w.creds {
			pool = append(pool, x.js)
		}
		js, how = w.tamper(s, js, pool)
	}
	var exist proof.CredentialExistence
	if !w.decode(w.hn, js, &exist) {
		return
	}
	levels := vLevels
	if s.Chance(1, 12) {
		levels = s.Draw(3)
	}
	before := w.ch.History(&c.e.id)
	f0, nf := w.faults(), int64(0)
	var out *holder.ZkProofCredOut
	var err error
	var msg []byte
	r.Call(w.hn, "HolderGenZkProofCredential", func() {
		out, err = w.h.HolderGenZkProofCredential(&exist, func(in map[string]interface{}) error {
			if _, ok := in["claim"]; ok {
				r.Violate("prove", "the claim is among the inputs that the caller has to add")
			}
			var l []*big.Int
			for i := range exist.Claim.Data {
				l = append(l, exist.Claim.Data[i].BigInt())
			}
			in["claim"] = l
			return nil
		}, zkLevels, levels, w.zkf)
		if err == nil {
			m := vZkMsg{Out: out.ZkProofOut, IssuerID: out.IssuerID, BlockN: out.IdenStateBlockN}
			msg, err = json.Marshal(m)
			r.Must(err, "json of a proof")
		}
		nf = r.W.Cur().Faults
	})
	faulted := w.faults() != f0 || nf > 0
	after := w.ch.History(&c.e.id)
	r.Describe("prove nonce=%d%s levels=%d -> %v", c.k.nonce, how, levels, err)
	if err == nil {
		if levels != vLevels {
			r.Violate("prove", "a proof was made for a tree of another depth")
		}
		w.pubs[pubKey(out.ZkProofOut.PubSignals)] = true
		if !simrt.Verify(credCircuit.Vk, &out.ZkProofOut.Proof, out.ZkProofOut.PubSignals) {
			r.Violate("prove", "the proof made does not verify")
		}
		// the state must be one of the issuer's, with that block
		ok := false
		if out.IssuerID != nil && len(out.ZkProofOut.PubSignals) == 3 {
			for _, h := range w.ch.History(out.IssuerID) {
				if h.BlockN == out.IdenStateBlockN && h.IdenState.BigInt().Cmp(out.ZkProofOut.PubSignals[0]) == 0 {
					ok = true
				}
			}
		}
		if !ok {
			r.Violate("prove", "the state proved is not the issuer's in the block given")
		}
		if how == "" {
			if !about {
				r.Violate("prove", "a proof was made for a claim about someone else")
			}
			if len(before) > 0 && out.IdenStateBlockN < before[len(before)-1].BlockN {
				r.Violate("prove", "the state proved is older than the last one when it was asked for")
			}
			w.zks = append(w.zks, &vZk{c: c, js: msg})
			r.Probe("proved")
		}
		return
	}
	if how != "" || faulted || !about || levels != vLevels {
		return
	}
	rev := func(h []proof.IdenStateData) bool {
		_, sn := w.snapAt(h, &c.e.id, &h[len(h)-1])
		return sn != nil && sn.revokesNonce(c.k.nonce)
	}
	if len(before) > 0 && !rev(before) && !rev(after) {
		if strings.Contains(err.Error(), fmt.Sprintf(holder.ErrStrTooManySiblings, "ClaimTree", 18, 17)) {
			return
		}
		r.Violate("prove", "no proof for a claim about the holder that is on chain and not revoked: %v", err)
	}
	if rev(before) && rev(after) && !errors.Is(err, holder.ErrRevokedClaim) {
		r.Violate("prove", "proving a revoked claim fails with another error: %v", err)
	}
}

func aboutHolder(c *vCred, id *core.ID) bool {
	m := c.k.c.Metadata()
	return m.Subject != nil && *m.Subject == *id
}

func pubKey(p []*big.Int) string { return fmt.Sprint(p) }

func (w *vWorld) verifyZk(s *simrt.Stream) {
	r := w.r
	if len(w.zks) == 0 {
		return
	}
	z := w.zks[len(w.zks)-1-s.Draw(min(len(w.zks), 5))]
	js, how := z.js, ""
	if s.Chance(w.p.tamper, 100) {
		var pool [][]byte
		for _, x := range w.zks {
			pool = append(pool, x.js)
		}
		js, how = w.tamper(s, js, pool)
		if s.Chance(1, 4) {
			var m map[string]interface{}
			if json.Unmarshal(js, &m) == nil {
				if o := w.iss[s.Draw(len(w.iss))]; s.Chance(1, 2) {
					m["IssuerID"] = o.id.String()
				} else if h := w.ch.History(&z.c.e.id); len(h) > 0 {
					m["BlockN"] = h[s.Draw(len(h))].BlockN
				}
				if b, err := json.Marshal(m); err == nil {
					js, how = b, how+" redirected"
				}
			}
		}
		if s.Chance(1, 4) && len(w.zks) > 1 {
			// another proof for the same signals
			var m, o map[string]map[string]interface{}
			_ = json.Unmarshal(z.js, &m)
			_ = json.Unmarshal(w.zks[s.Draw(len(w.zks))].js, &o)
			if m["Out"] != nil && o["Out"] != nil {
				var v map[string]interface{}
				if json.Unmarshal(z.js, &v) == nil {
					m["Out"]["Proof"] = o["Out"]["Proof"]
					v["Out"] = m["Out"]
					if b, err := json.Marshal(v); err == nil {
						js, how = b, " other proof"
					}
				}
			}
		}
		r.Probe("tampered")
	}
	var in vZkMsg
	if !w.decode(nil, js, &in) {
		return
	}
	if how != "" && s.Chance(1, 8) {
		in.Out.PubSignals, how = append(in.Out.PubSignals, big.NewInt(1)), how+" longer"
	}
	zp := &in.Out.Proof
	if how != "" && s.Chance(1, 20) {
		zp, how = nil, how+" no proof"
	}
	ck := &vClock{w: w}
	freshness := []time.Duration{0, 10 * time.Second, 30 * time.Second, 100 * time.Second, 600 * time.Second}[s.Draw(5)]
	id := core.ID{}
	if in.IssuerID != nil {
		id = *in.IssuerID
	}
	before := w.ch.History(&id)
	if s.Chance(1, 5) {
		for _, h := range before {
			if h.BlockN == in.BlockN {
				ck.fixed, ck.at = true, h.BlockTs*1e9+int64(freshness)+int64(s.Draw(3)-1)
			}
		}
	}
	// the node holds the files of the verifier
	vn := w.hn
	x := w.verifierFor(s, ck)
	defer func() { x.busy = false }()
	f0 := w.faults()
	var err error
	r.Call(vn, "VerifyZkProofCredential", func() {
		f := zkutils.NewZkFiles("", "/holder/zk", zkutils.ProvingKeyFormatGoBin, credCircuit.Hashes(zkutils.ProvingKeyFormatGoBin), true)
		err = x.v.VerifyZkProofCredential(zp, in.Out.PubSignals, in.IssuerID, in.BlockN, f, freshness)
	})
	faulted := w.faults() != f0
	after := w.ch.History(&id)
	r.Describe("verify zk nonce=%d%s freshness=%v -> %v", z.c.k.nonce, how, freshness, err)
	r.Probe("zk_judged")
	truth := func(h []proof.IdenStateData) (on, last bool, ts int64) {
		if len(in.Out.PubSignals) == 0 || in.Out.PubSignals[0] == nil {
			return
		}
		for i := range h {
			if h[i].BlockN == in.BlockN && h[i].IdenState.BigInt().Cmp(in.Out.PubSignals[0]) == 0 {
				on, ts = true, h[i].BlockTs
			}
		}
		last = on && h[len(h)-1].IdenState.BigInt().Cmp(in.Out.PubSignals[0]) == 0
		return
	}
	on0, last0, _ := truth(before)
	on1, last1, ts := truth(after)
	may := on1 && w.pubs[pubKey(in.Out.PubSignals)] && zp != nil && validZk(zp, in.Out.PubSignals)
	anyFresh, allFresh := len(ck.reads) == 0, true
	for _, t := range ck.reads {
		if fresh(t, freshness, ts) {
			anyFresh = true
		} else {
			allFresh = false
		}
	}
	recent := last0 || last1
	for i := len(before); i < len(after); i++ {
		if after[i].BlockN == in.BlockN {
			recent = true
		}
	}
	if err == nil && !may {
		r.Violate("zk-accepted", "a zero knowledge proof was accepted that is not of the issuer's state in that block, or not valid%s", how)
	}
	if err == nil && !anyFresh && !recent {
		r.Violate("zk-accepted", "a zero knowledge proof of a state that is neither the last nor fresh was accepted")
	}
	if err == nil {
		r.Probe("accepted")
	}
	if err != nil && how == "" && !faulted && on0 && on1 && (last0 && last1 || allFresh) {
		r.Violate("zk-rejected", "a genuine zero knowledge proof was rejected with no fault: %v", err)
	}
}

func validZk(p *zktypes.Proof, pub []*big.Int) bool {
	return p.A != nil && p.B != nil && p.C != nil && len(pub) == 3 && simrt.Verify(credCircuit.Vk, p, pub)
}
