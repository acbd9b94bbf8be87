package props

import (
	"encoding/json"
	"math/big"

	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
	cryptoConstants "github.com/iden3/go-iden3-crypto/constants"
)

func init() {
	register(&Prop{ID: "M04", Setup: mtSetup, Run: runM04,
		Rule:        "each run grows a tree and sends membership proofs (binary and JSON) of several versions and indexes to a verifier over a channel that flips bits, cuts, pads, splices two proofs, rewrites header fields, delivers stale or misdirected proofs; the verifier must never crash, must accept every undamaged proof for its own statement, and must accept no statement the tree does not satisfy. Non-trivial: a damaged or misdirected proof still parsed and was put to the verifier.",
		Nontrivial:  []string{"damaged_parsed"},
		Real:        []string{"merkletree", "poseidon"},
		Stub:        []string{"the channel between prover and verifier"},
		Assumptions: []string{"the hash function is collision free on the inputs used"},
	})
}

type m04msg struct {
	ver int
	e   mentry
	b   []byte
}

func runM04(r *Run) {
	sh := r.S("shape")
	lv := []int{140, 40, 240}[sh.Draw(3)]
	cast := mtCast(sh, []int{3, 8, 20}[sh.Draw(3)])
	var mt *merkletree.MerkleTree
	var roots []mhash
	var sets []map[mhash]mentry
	r.Call(nil, "tree", func() {
		var err error
		mt, err = merkletree.NewMerkleTree(db.NewMemoryStorage(), lv)
		r.Must(err, "tree")
		roots, sets = []mhash{{}}, []map[mhash]mentry{{}}
		n := sh.Draw(len(cast) + 1)
		for _, ci := range cast[:n] {
			e := mtPool[ci][0]
			if err := mt.AddEntry(&merkletree.Entry{Data: e.data}); err != nil {
				continue
			}
			st := map[mhash]mentry{e.hi: e}
			for k, v := range sets[len(sets)-1] {
				st[k] = v
			}
			roots, sets = append(roots, mhash(*mt.RootKey())), append(sets, st)
		}
	})
	var sent []m04msg
	var reused merkletree.Proof
	// truth: does version ver satisfy the statement?
	truth := func(what string, p *merkletree.Proof, ver int, e mentry, hv mhash) (ok, present bool) {
		root, hi, v := merkletree.Hash(roots[ver]), merkletree.Hash(e.hi), merkletree.Hash(hv)
		ok = merkletree.VerifyProof(&root, p, &hi, &v)
		in, present := sets[ver][e.hi]
		truth := p.Existence && present && in.hv == hv || !p.Existence && !present
		if ok && !truth {
			r.Violate("false-accept", "%s: a proof (existence=%v) is accepted for a statement that is false at version %d (present=%v)", what, p.Existence, ver, present)
		}
		return
	}
	verify := func(what string, p *merkletree.Proof, ver int, e mentry, hv mhash, genuine bool) {
		root, hi, v := merkletree.Hash(roots[ver]), merkletree.Hash(e.hi), merkletree.Hash(hv)
		ok, present := truth(what, p, ver, e, hv)
		if !ok && genuine {
			r.Violate("false-reject", "%s: an undamaged proof (existence=%v) is refused", what, p.Existence)
		}
		r.State(ok, p.Existence, present, genuine, len(p.Siblings))
		// the forms derived from it must be safe on anything that parsed
		_ = p.AllSiblings()
		_ = p.AllSiblingsCircom(lv)
		_ = p.String()
		b := p.Bytes()
		q, err := merkletree.NewProofFromBytes(b)
		if err != nil {
			r.Violate("transport", "%s: a proof that parsed does not parse after being written again: %v", what, err)
		}
		if merkletree.VerifyProof(&root, q, &hi, &v) != ok {
			r.Violate("transport", "%s: a proof changes its verdict by being written and read", what)
		}
		if r2, err := merkletree.RootFromProof(p, &hi, &v); err == nil && (*r2 == root) != ok {
			r.Violate("transport", "%s: the root of a proof and its verdict disagree", what)
		}
	}
	for _, i := range r.Ops(3, 16) {
		s := r.Op(i)
		r.Call(nil, "op", func() {
			ver := s.Draw(len(roots))
			e := mtPool[cast[s.Draw(len(cast))]][0]
			root, hi := merkletree.Hash(roots[ver]), merkletree.Hash(e.hi)
			p, err := mt.GenerateProof(&hi, &root)
			if err != nil {
				return // beyond the levels
			}
			m := m04msg{ver, e, p.Bytes()}
			sent = append(sent, m)
			o := sent[s.Draw(len(sent))]
			b := append([]byte{}, m.b...)
			kind := s.Weighted(3, 4, 2, 2, 2, 3, 3, 2, 2)
			switch kind {
			case 0: // undamaged
			case 1:
				for k := s.Range(1, 3); k > 0; k-- {
					j := s.Draw(len(b) * 8)
					if s.Chance(1, 2) {
						j = s.Draw(32 * 8)
					}
					b[j/8] ^= 1 << uint(j%8)
				}
				r.W.Count("fault.bit_flip")
			case 2:
				b = b[:s.Draw(len(b))]
				r.W.Count("fault.truncated")
			case 3:
				b = append(b, s.Bytes(s.Range(1, 70))...)
				r.W.Count("fault.padded")
			case 4: // splice
				k := s.Draw(len(b) + 1)
				b = append([]byte{}, b[:k]...)
				if k < len(o.b) {
					b = append(b, o.b[k:]...)
				}
				r.W.Count("fault.spliced")
			case 5: // stale or misdirected
				b = append([]byte{}, o.b...)
				r.W.Count("fault.misdirected")
			case 6: // header fields
				b[0] = byte(s.Draw(256))
				if s.Chance(1, 2) {
					b[0] = m.b[0] ^ byte(1+s.Draw(3))
				}
				if s.Chance(1, 2) {
					b[1] = byte(s.Draw(256))
					if s.Chance(1, 2) {
						b[1] = m.b[1] + byte(s.Draw(3)) - 1
					}
				}
				r.W.Count("fault.header_rewritten")
			case 7: // claims absence by naming a chosen leaf beside the path
				// (which may be the entry's own leaf, its index spelled the
				// same or with the field's modulus added)
				if s.Chance(1, 3) {
					o.e = e
				}
				if n, ok := sets[ver][o.e.hi]; ok {
					b[0] |= 3
					if p.NodeAux != nil {
						b = b[:len(b)-64]
					}
					nhi, nhv := n.hi, n.hv
					if s.Chance(1, 3) {
						nhi = plusModulus(nhi)
					} else if s.Chance(1, 6) {
						nhv = plusModulus(nhv)
					}
					b = append(append(b, nhi[:]...), nhv[:]...)
				} else {
					b[0] = b[0]&^2 | 1
				}
				r.W.Count("fault.forged_absence")
			}
			js := s.Chance(1, 3)
			if kind == 8 { // forged in memory, not on the wire
				q := *p
				q.Existence = s.Chance(1, 2)
				if n, ok := sets[ver][o.e.hi]; ok && s.Chance(2, 3) {
					nhi, nhv := merkletree.Hash(n.hi), merkletree.Hash(n.hv)
					q.NodeAux = &merkletree.NodeAux{HIndex: &nhi, HValue: &nhv}
				} else if s.Chance(1, 3) {
					q.NodeAux = nil
				}
				r.W.Count("fault.forged_fields")
				r.Probe("damaged_parsed")
				for _, hv := range []mhash{e.hv, o.e.hv, mtPool[cast[0]][1].hv} {
					truth("forged", &q, ver, e, hv)
					truth("forged", &q, o.ver, e, hv)
					truth("forged", &q, ver, o.e, hv)
				}
				return
			}
			r.W.Log("proof %d for version %d kind %d json=%v %x", i, ver, kind, js, b)
			var q *merkletree.Proof
			if js {
				t, _ := json.Marshal("0x" + hexs(b))
				if s.Chance(1, 6) && len(t) > 4 {
					t[s.Draw(len(t))] ^= 1 << uint(s.Draw(7))
					kind = 99
				}
				q = &reused // the receiver decodes into one value
				if s.Chance(1, 4) {
					q = &merkletree.Proof{}
				}
				err = json.Unmarshal(t, q)
			} else {
				q, err = merkletree.NewProofFromBytes(b)
			}
			if err != nil {
				if kind == 0 {
					r.Violate("transport", "an undamaged proof does not parse: %v", err)
				}
				return
			}
			if kind == 0 {
				verify("undamaged", q, ver, e, e.hv, q.Existence && sets[ver][e.hi].hv == e.hv || !q.Existence)
				return
			}
			r.Probe("damaged_parsed")
			hvs := []mhash{e.hv, o.e.hv, mtPool[cast[0]][1].hv, plusModulus(e.hv)}
			for _, hv := range hvs {
				verify("damaged", q, ver, e, hv, false)
				verify("damaged", q, o.ver, e, hv, false)
				verify("damaged", q, len(roots)-1, o.e, hv, false)
			}
		})
	}
}

// plusModulus is another spelling of the same field element, if there is one
// in 32 bytes.
func plusModulus(h mhash) mhash {
	x := merkletree.Hash(h)
	v := new(big.Int).Add(x.BigInt(), cryptoConstants.Q)
	if v.BitLen() > 256 {
		return h
	}
	var o mhash
	for i, c := range v.Bytes() {
		o[len(v.Bytes())-1-i] = c
	}
	return o
}

func hexs(b []byte) string {
	const d = "0123456789abcdef"
	o := make([]byte, 0, 2*len(b))
	for _, c := range b {
		o = append(o, d[c>>4], d[c&15])
	}
	return string(o)
}
