package props

import (
	"bytes"
	"crypto/ecdsa"
	"encoding/json"
	"fmt"
	"math/big"

	ethcommon "github.com/ethereum/go-ethereum/common"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"github.com/iden3/go-iden3-core/components/idensigner"
	"github.com/iden3/go-iden3-core/crypto"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/keystore"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/babyjub"
	"github.com/iden3/go-iden3-crypto/poseidon"

	"verif.local/sim/env"
	"verif.local/sim/simrt"
)

func init() {
	register(&Prop{ID: "G01", Run: runG01, Setup: ethSetup,
		Rule:        "each run lets 1-4 tasks sign and check messages at the same time through an issuer, signers and an Ethereum account, the messages being slices of one buffer they share, some next to each other, while keys get unlocked, the clock moves and signatures travel as JSON through a channel that alters some; the model computes what has to be signed from private copies. Non-trivial: two signatures were made at the same time, or an altered signature was presented.",
		Nontrivial:  []string{"together", "altered"},
		Real:        []string{"identity/issuer (signing)", "components/idensigner", "crypto", "keystore", "babyjub", "poseidon", "go-ethereum's key store and secp256k1"},
		Stub:        []string{"clock", "goroutine scheduler", "channel"},
		Assumptions: []string{"statements are atomic except for map accesses"},
	})
}

func ethHash(msg []byte) []byte {
	return ethcrypto.Keccak256([]byte(fmt.Sprintf("\x19Ethereum Signed Message:\n%d", len(msg))), msg)
}

func be8(v int64) []byte {
	b := make([]byte, 8)
	for i := range b {
		b[i] = byte(uint64(v) >> uint(56-8*i))
	}
	return b
}

func runG01(r *Run) {
	r.Profile()
	w := r.W
	sh := r.S("shape")
	n := w.NewNode("host")
	const nk = 3
	var ks *keystore.KeyStore
	var is *issuer.Issuer
	kop := sh.Draw(nk)
	var signers [nk]*idensigner.IdenSigner
	unlocked := map[int]bool{}
	trying := map[int]bool{}
	r.Call(n, "open", func() {
		ms := keystore.MemStorage([]byte{})
		var err error
		ks, err = keystore.NewKeyStore(&ms, fastKeys)
		r.Must(err, "keystore")
		for k := 0; k < nk; k++ {
			_, err := ks.ImportKey(keySks[k], []byte("p"))
			r.Must(err, "import")
			pk, err := keyPks[k].Decompress()
			r.Must(err, "key")
			signers[k] = idensigner.New(ks, *pk)
		}
		r.Must(ks.UnlockKey(&keyPks[kop], []byte("p")), "unlock")
		unlocked[kop], trying[kop] = true, true
		c := issuer.ConfigDefault
		c.GenesisOnly = true
		st := db.NewMemoryStorage()
		_, err = issuer.Create(c, &keyPks[kop], nil, st, ks)
		r.Must(err, "create")
		is, err = issuer.Load(st, ks, nil, nil, nil)
		r.Must(err, "load")
	})
	mem := make([]byte, 200) // the same in all runs, so that signing is remembered
	for i := range mem {
		mem[i] = byte(i*7 + i*i/3 + 1)
	}
	orig := append([]byte{}, mem...)
	// part draws a slice of the shared buffer and a copy of its own.
	part := func(s *simrt.Stream) ([]byte, []byte) {
		l := []int{12, 0, 1, 31, 33, 60}[s.Draw(6)]
		at := []int{0, 40, 12, 52, 100}[s.Draw(5)]
		c := append([]byte{}, orig[at:at+l]...)
		switch s.Weighted(4, 1, 1) {
		case 1:
			return mem[at : at+l : at+l], c
		case 2:
			return append([]byte{}, c...), c
		}
		return mem[at : at+l], c
	}
	intact := func(what string) {
		if !bytes.Equal(mem, orig) {
			r.Violate("input", "%s changed memory of the caller", what)
		}
	}
	signing := 0
	begin := func() {
		signing++
		if signing > 1 {
			r.Probe("together")
		}
	}
	// opened reports whether the key could sign.
	opened := func(k int, was bool, err error, what string) bool {
		signing--
		intact(what)
		if err != nil {
			if was {
				r.Violate("refused", "%s fails with an unlocked key: %v", what, err)
			}
			r.Probe("locked")
			return false
		}
		if !trying[k] {
			r.Violate("gate", "%s works with a locked key", what)
		}
		return true
	}
	checkBaby := func(s *simrt.Stream, k int, sig *babyjub.SignatureComp, e *big.Int, what string) {
		// over the wire
		txt, err := json.Marshal(sig)
		r.Must(err, "json")
		var got babyjub.SignatureComp
		if err := json.Unmarshal(txt, &got); err != nil || got != *sig {
			r.Violate("wire", "%s: the signature does not survive JSON: %v", what, err)
		}
		if ok, err := keystore.VerifySignatureElem(&keyPks[k], e, &got); err != nil || !ok {
			r.Violate("signature", "%s: the signature is not of what was passed (%v)", what, err)
		}
		if s.Chance(1, 6) {
			r.Probe("altered")
			w.Count("fault.signature_altered")
			got[s.Draw(len(got))] ^= 1 << uint(s.Draw(8))
			if got != *sig {
				if ok, err := keystore.VerifySignatureElem(&keyPks[k], e, &got); err == nil && ok {
					r.Violate("altered", "%s: an altered signature is accepted", what)
				}
			}
		}
	}
	var kept []func()
	op := func(s *simrt.Stream) {
		k := s.Draw(nk)
		switch s.Weighted(5, 3, 4, 1, 1, 3, 3, 2, 2, 4) {
		case 9:
			if len(kept) > 0 {
				f := kept[s.Draw(len(kept))]
				h := w.Go(n, "checker", func() { f(); f() })
				f()
				f()
				r.JoinAll("checker", h)
			}
		case 0: // the issuer signs bytes
			p, pc := part(s)
			m, mc := part(s)
			begin()
			sig, err := is.SignBinary(p, m)
			if !opened(kop, true, err, "SignBinary") {
				return
			}
			checkBaby(s, kop, sig, poseidon.HashBytes(append(append([]byte{}, pc...), mc...)), "SignBinary")
		case 1: // a signer signs a message
			m, mc := part(s)
			was := unlocked[k]
			begin()
			sig, err := signers[k].SignEthMsg(m)
			if !opened(k, was, err, "SignEthMsg") {
				return
			}
			checkBaby(s, k, sig, poseidon.HashBytes(mc), "SignEthMsg")
		case 2: // with its date
			m, mc := part(s)
			was := unlocked[k]
			t0 := simrt.Now().Unix()
			begin()
			sig, date, err := signers[k].SignEthMsgDate(m)
			t1 := simrt.Now().Unix()
			if !opened(k, was, err, "SignEthMsgDate") {
				return
			}
			if date < t0 || date > t1 {
				r.Violate("date", "SignEthMsgDate says %d, between %d and %d", date, t0, t1)
			}
			checkBaby(s, k, sig, poseidon.HashBytes(append(mc, be8(date)...)), "SignEthMsgDate")
		case 3, 4: // the issuer signs elements or states
			var h [2]merkletree.Hash
			for i := range h {
				h[i] = *merkletree.NewHashFromBigInt(poseidon.HashBytes([]byte{byte(s.Draw(3))}))
			}
			var pre [32]byte
			copy(pre[:], "setstate:")
			for i, j := 0, 31; i < j; i, j = i+1, j-1 {
				pre[i], pre[j] = pre[j], pre[i]
			}
			in := [poseidon.T]*big.Int{new(big.Int).SetBytes(pre[:]), h2big(mhash(h[0])), h2big(mhash(h[1])), big.NewInt(0), big.NewInt(0), big.NewInt(0)}
			want, err := poseidon.PoseidonHash(in)
			r.Must(err, "hash")
			begin()
			var sig *babyjub.SignatureComp
			if s.Chance(1, 2) {
				sig, err = is.SignState(&h[0], &h[1])
			} else {
				sig, err = is.SignElems(in)
			}
			if !opened(kop, true, err, "SignState") {
				return
			}
			checkBaby(s, kop, sig, want, "SignState")
		case 5, 6: // an Ethereum account signs, others verify
			acc := env.EthAccounts[s.Draw(len(env.EthAccounts))]
			m, mc := part(s)
			dated := s.Chance(1, 2)
			date := simrt.Now().Unix() - int64(s.Draw(3))
			signed := append([]byte{}, mc...)
			begin()
			var sig *crypto.SignatureEthMsg
			var err error
			if dated {
				signed = append(signed, be8(date)...)
				sig, err = crypto.SignEthMsg(env.EthKs, acc, append([]byte{}, signed...))
			} else {
				sig, err = crypto.SignEthMsg(env.EthKs, acc, m)
			}
			signing--
			intact("SignEthMsg")
			if err != nil {
				r.Violate("refused", "an unlocked account does not sign: %v", err)
			}
			raw := append([]byte{}, sig[:]...)
			if raw[64] != 27 && raw[64] != 28 {
				r.Violate("signature", "the recovery byte is %d", raw[64])
			}
			raw[64] -= 27
			if pk, err := ethcrypto.SigToPub(ethHash(signed), raw); err != nil || ethcrypto.PubkeyToAddress(*pk) != acc.Address {
				r.Violate("signature", "the account's signature is not of what was passed")
			}
			txt, err := json.Marshal(sig)
			r.Must(err, "json")
			var got crypto.SignatureEthMsg
			if err := json.Unmarshal(txt, &got); err != nil || got != *sig {
				r.Violate("wire", "the signature does not survive JSON: %v", err)
			}
			verify := func(a ethcommon.Address, sg *crypto.SignatureEthMsg, msg []byte, d int64) bool {
				c := *sg
				begin()
				var ok bool
				if dated {
					ok = crypto.VerifySigEthMsgDate(a, sg, msg, d)
				} else {
					ok = crypto.VerifySigEthMsg(a, sg, msg)
				}
				signing--
				intact("verifying")
				if *sg != c {
					r.Violate("input", "verifying changed the signature")
				}
				return ok
			}
			if !verify(acc.Address, &got, m, date) {
				r.Violate("verify", "a right signature is refused")
			}
			if s.Chance(1, 2) { // one that others check too
				kept = append(kept, func() {
					if !verify(acc.Address, sig, m, date) {
						r.Violate("verify", "a right signature is refused while others check it too")
					}
				})
				if len(kept) > 3 {
					kept = kept[1:]
				}
			}
			switch s.Weighted(3, 2, 2, 1, 4) {
			case 0:
			case 1: // another message
				o, oc := part(s)
				if !bytes.Equal(oc, mc) && verify(acc.Address, &got, o, date) {
					r.Violate("verify", "a signature is accepted for another message")
				}
			case 2: // another address
				var a ethcommon.Address
				copy(a[:], acc.Address[:])
				a[s.Draw(20)] ^= 1 << uint(s.Draw(8))
				if verify(a, &got, m, date) {
					r.Violate("verify", "a signature is accepted for another account")
				}
			case 3: // another date
				if dated && verify(acc.Address, &got, m, date+1) {
					r.Violate("verify", "a signature is accepted for another date")
				}
			case 4: // altered on the way
				r.Probe("altered")
				w.Count("fault.signature_altered")
				if s.Chance(1, 2) {
					got[64] = byte(s.Draw(256)) // the recovery byte
				} else {
					got[s.Draw(65)] ^= 1 << uint(s.Draw(8))
				}
				if got != *sig && verify(acc.Address, &got, m, date) {
					r.Violate("altered", "an altered signature is accepted")
				}
			}
		case 7: // a key gets unlocked
			trying[k] = true
			if err := ks.UnlockKey(&keyPks[k], []byte("p")); err != nil {
				r.Violate("refused", "a key does not unlock: %v", err)
			}
			unlocked[k] = true
		case 8: // the key of an account, as JSON
			acc := env.EthAccounts[s.Draw(len(env.EthAccounts))]
			pk, err := crypto.GetPkFromKeyStore(env.EthKs, acc.Address)
			if err != nil || ethcrypto.PubkeyToAddress(*pk) != acc.Address {
				r.Violate("key", "the key is not the account's: %v", err)
			}
			txt, err := json.Marshal(crypto.PublicKey{PublicKey: *pk})
			r.Must(err, "json")
			if s.Chance(1, 3) {
				r.Probe("altered")
				w.Count("fault.key_altered")
				txt[s.Draw(len(txt))] ^= 1 << uint(s.Draw(7))
				var got crypto.PublicKey
				if err := json.Unmarshal(txt, &got); err == nil && !got.Curve.IsOnCurve(got.X, got.Y) {
					r.Violate("key", "a damaged key that is none is accepted")
				}
				return
			}
			var got crypto.PublicKey
			if err := json.Unmarshal(txt, &got); err != nil || !sameEthPk(&got.PublicKey, pk) {
				r.Violate("wire", "the key does not survive JSON: %v", err)
			}
		}
		if s.Chance(1, 3) {
			w.SleepNs(int64(s.Draw(1500)) * 1e6)
		}
		r.State(len(unlocked), signing)
	}
	ntask := sh.Range(1, 4)
	lanes := make([][]int, ntask)
	for _, i := range r.Ops(3, 16) {
		k := r.Op(i).Draw(ntask)
		lanes[k] = append(lanes[k], i)
	}
	var ts []*simrt.Task
	for k := range lanes {
		k := k
		ts = append(ts, w.Go(n, fmt.Sprintf("t%d", k), func() {
			for _, i := range lanes[k] {
				op(r.Op(i))
			}
		}))
	}
	r.JoinAll("signer", ts...)
}

func sameEthPk(a, b *ecdsa.PublicKey) bool { return a.X.Cmp(b.X) == 0 && a.Y.Cmp(b.Y) == 0 }
