package props

import (
	"math/big"
	"sort"

	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/poseidon"

	"verif.local/sim/simrt"
)

// An independent model of the sparse merkle tree: the root is a function of
// the set of entries.

type mhash = [32]byte

func h2big(h mhash) *big.Int {
	b := make([]byte, 32)
	for i := range h {
		b[31-i] = h[i]
	}
	return new(big.Int).SetBytes(b)
}

func big2h(v *big.Int) (h mhash) {
	b := v.Bytes()
	for i := range b {
		h[len(b)-1-i] = b[i]
	}
	return
}

func mposeidon(vs ...*big.Int) mhash {
	var in [poseidon.T]*big.Int
	for i := range in {
		in[i] = new(big.Int)
		if i < len(vs) {
			in[i] = vs[i]
		}
	}
	r, err := simrt.PoseidonHash(in)
	if err != nil {
		panic("model hash: " + err.Error())
	}
	return big2h(r)
}

type mentry struct {
	data   merkletree.Data
	hi, hv mhash
}

func newEntryModel(d merkletree.Data) mentry {
	var v [8]*big.Int
	for i := range v {
		v[i] = h2big(mhash(d[i]))
	}
	return mentry{d, mposeidon(v[0], v[1], v[2], v[3]), mposeidon(v[4], v[5], v[6], v[7])}
}

func (e mentry) leaf() mhash { return mposeidon(h2big(e.hi), h2big(e.hv), big.NewInt(1)) }

func bit(h mhash, n int) bool { return h[n/8]&(1<<uint(n%8)) != 0 }

// mroot is the root over the entries (all indices distinct) from level lvl.
func mroot(es []mentry, lvl int) mhash {
	switch len(es) {
	case 0:
		return mhash{}
	case 1:
		return es[0].leaf()
	}
	var l, r []mentry
	for _, e := range es {
		if bit(e.hi, lvl) {
			r = append(r, e)
		} else {
			l = append(l, e)
		}
	}
	return mposeidon(h2big(mroot(l, lvl+1)), h2big(mroot(r, lvl+1)))
}

// mdepth is the level at which e's leaf sits among es.
func mdepth(es []mentry, e mentry) int {
	d := 0
	for _, o := range es {
		if o.hi == e.hi {
			continue
		}
		k := 0
		for k < 256 && bit(o.hi, k) == bit(e.hi, k) {
			k++
		}
		if k+1 > d {
			d = k + 1
		}
	}
	return d
}

func sortEntries(es []mentry) []mentry {
	out := append([]mentry{}, es...)
	sort.Slice(out, func(i, j int) bool { return string(out[i].hi[:]) < string(out[j].hi[:]) })
	return out
}

// A pool of entries with many long common index prefixes, so that deep trees
// and level limits are reached.
var mtPool [][]mentry // variants sharing an index
var mtPairs [][2]int  // pool indices with long common paths

func mtSetup() {
	if mtPool != nil {
		return
	}
	type it struct {
		e mentry
		i int
	}
	for i := 0; i < 600; i++ {
		var d merkletree.Data
		d[0][0], d[0][1] = byte(i), byte(i>>8)
		d[1][3] = byte(i * 7)
		d[2][31] = 0x10 // a large field element
		d[3][0] = 1
		d[4][0] = 1
		a := newEntryModel(d)
		var vs []mentry
		vs = append(vs, a)
		for v := 1; v < 4; v++ {
			d2 := d
			d2[3+v][5] ^= byte(v) // value elements 4..6 only
			vs = append(vs, newEntryModel(d2))
		}
		mtPool = append(mtPool, vs)
	}
	type pr struct {
		a, b, k int
	}
	var ps []pr
	for i := range mtPool {
		for j := i + 1; j < len(mtPool); j++ {
			k := 0
			for k < 256 && bit(mtPool[i][0].hi, k) == bit(mtPool[j][0].hi, k) {
				k++
			}
			if k >= 9 {
				ps = append(ps, pr{i, j, k})
			}
		}
	}
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].k > ps[j].k })
	if len(ps) > 60 {
		ps = ps[:60]
	}
	for _, p := range ps {
		mtPairs = append(mtPairs, [2]int{p.a, p.b})
	}
}

// mtCast picks the entries a run works with.
func mtCast(s *simrt.Stream, n int) []int {
	var out []int
	seen := map[int]bool{}
	put := func(i int) {
		if !seen[i] {
			seen[i] = true
			out = append(out, i)
		}
	}
	for t := 0; len(out) < n; t++ {
		if t > 3*n {
			put(t)
			continue
		}
		if s.Chance(1, 2) && len(mtPairs) > 0 {
			p := mtPairs[s.Draw(len(mtPairs))]
			put(p[0])
			put(p[1])
		} else {
			put(s.Draw(len(mtPool)))
		}
	}
	return out
}
