package env

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"

	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/iden3/go-circom-prover-verifier/parsers"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"

	"verif.local/sim/simrt"
)

// Circuit is a small Groth16 circuit over its public signals p1..pn: it
// multiplies them up.  What the statement really says is decided by the Go
// stand-in of the witness calculator (simrt.WitnessCalc), as the circuits
// themselves are not part of the repository.
type Circuit struct {
	N                 int
	PkJSON, PkGoBin   []byte
	PkBin             []byte
	PkOfBin           *zktypes.Pk // has one power less
	VkJSON, WASM      []byte
	Vk                *zktypes.Vk
	Pk                *zktypes.Pk
	HashPkJSON, HashV string
	HashPkGoBin       string
	HashPkBin         string
	HashW             string

	alpha, beta, delta *big.Int
	icg                []*big.Int // exponents of IC times gamma
}

func init() { simrt.Prover = Prove }

var circuits = map[string]*Circuit{}

// proofs made in this process, which are a function of their witness.
var proofs = map[string]*zktypes.Proof{}

// Prove stands in for the Groth16 prover, whose cost and goroutines a
// simulated run cannot afford: it makes the same kind of proof with the
// trapdoor of the toy set-up, and the real verifier decides it.  A witness
// that does not satisfy the circuit yields a proof that does not verify, as
// with the prover itself.
func Prove(pk *zktypes.Pk, w zktypes.Witness) (*zktypes.Proof, []*big.Int, error) {
	c := circuits[string(pk.VkAlpha1.Marshal())]
	if c == nil {
		return nil, nil, fmt.Errorf("unknown proving key")
	}
	if len(w) != c.Pk.NVars {
		return nil, nil, fmt.Errorf("witness of another circuit")
	}
	pub := append([]*big.Int{}, w[1:c.N+1]...)
	h := sha256.New()
	for _, v := range w {
		h.Write([]byte(v.String() + "/"))
	}
	seed := h.Sum(pk.VkAlpha1.Marshal())
	if m := proofs[string(seed)]; m != nil {
		return &zktypes.Proof{A: new(bn256.G1).Set(m.A), B: new(bn256.G2).Set(m.B), C: new(bn256.G1).Set(m.C)}, pub, nil
	}
	rnd := func(t byte) *big.Int {
		x := sha256.Sum256(append([]byte{t}, seed...))
		v := new(big.Int).SetBytes(x[:])
		return v.Mod(v, frR)
	}
	a, b := rnd(1), rnd(2)
	x := new(big.Int).Set(c.icg[0])
	for i, p := range pub {
		x = frAdd(x, frMul(p, c.icg[i+1]))
	}
	k := frAdd(frMul(a, b), new(big.Int).Sub(frR, frAdd(frMul(c.alpha, c.beta), x)))
	k = frMul(k, frInv(c.delta))
	good := c.Witness(pub...)
	for i := range good {
		if good[i].Cmp(w[i]) != 0 {
			k = frAdd(k, big.NewInt(1))
		}
	}
	p := &zktypes.Proof{A: new(bn256.G1).ScalarBaseMult(a), B: new(bn256.G2).ScalarBaseMult(b), C: new(bn256.G1).ScalarBaseMult(k)}
	if len(proofs) > 20000 {
		proofs = map[string]*zktypes.Proof{}
	}
	proofs[string(seed)] = &zktypes.Proof{A: new(bn256.G1).Set(p.A), B: new(bn256.G2).Set(p.B), C: new(bn256.G1).Set(p.C)}
	return p, pub, nil
}

func hexHash(b []byte) string { h := sha256.Sum256(b); return hex.EncodeToString(h[:]) }

var frR = zktypes.R

func frMul(a, b *big.Int) *big.Int { return new(big.Int).Mod(new(big.Int).Mul(a, b), frR) }
func frAdd(a, b *big.Int) *big.Int { return new(big.Int).Mod(new(big.Int).Add(a, b), frR) }
func frInv(a *big.Int) *big.Int    { return new(big.Int).ModInverse(a, frR) }

// NewCircuit does the trusted setup of a circuit with n public signals.
func NewCircuit(name string, n int) *Circuit {
	tox := func(what string) *big.Int {
		h := sha256.Sum256([]byte(name + "/" + what))
		v := new(big.Int).SetBytes(h[:])
		return v.Mod(v, frR)
	}
	tau, alpha, beta, gamma, delta := tox("tau"), tox("alpha"), tox("beta"), tox("gamma"), tox("delta")
	// the verifier contract has room for 31 bytes of this coordinate
	for i := 0; new(bn256.G1).ScalarBaseMult(alpha).Marshal()[32] != 0; i++ {
		alpha = tox(fmt.Sprint("alpha", i))
	}
	// wires: 0 one, 1..n public, n+1.. products
	nCons := n - 1
	nVars := n + 1 + nCons
	rows := nCons + n + 1
	m := 4
	for m < rows {
		m *= 2
	}
	type row struct{ a, b, c int }
	var cons []row
	x := 1
	for i := 0; i < nCons; i++ {
		cons = append(cons, row{x, i + 2, n + 1 + i})
		x = n + 1 + i
	}
	polsA := make([]map[int]*big.Int, nVars)
	polsB := make([]map[int]*big.Int, nVars)
	polsC := make([]map[int]*big.Int, nVars)
	for i := range polsA {
		polsA[i], polsB[i], polsC[i] = map[int]*big.Int{}, map[int]*big.Int{}, map[int]*big.Int{}
	}
	one := big.NewInt(1)
	for j, r := range cons {
		polsA[r.a][j], polsB[r.b][j], polsC[r.c][j] = one, one, one
	}
	for i := 0; i <= n; i++ {
		polsA[i][nCons+i] = one
	}
	// Lagrange polynomials of the domain of m-th roots of unity at tau
	rem, s := new(big.Int).Sub(frR, one), 0
	for rem.Bit(0) == 0 {
		s++
		rem.Rsh(rem, 1)
	}
	w := new(big.Int).Exp(big.NewInt(5), rem, frR)
	for k := s; 1<<uint(k) != m; k-- {
		w = frMul(w, w)
	}
	z := new(big.Int).Exp(tau, big.NewInt(int64(m)), frR)
	z = frAdd(z, new(big.Int).Sub(frR, one))
	lag := make([]*big.Int, m)
	wj := big.NewInt(1)
	for j := range lag {
		den := frMul(big.NewInt(int64(m)), frAdd(tau, new(big.Int).Sub(frR, wj)))
		lag[j] = frMul(frMul(z, wj), frInv(den))
		wj = frMul(wj, w)
	}
	eval := func(p map[int]*big.Int) *big.Int {
		v := new(big.Int)
		for j, k := range p {
			v = frAdd(v, frMul(k, lag[j]))
		}
		return v
	}
	g1 := func(k *big.Int) *bn256.G1 { return new(bn256.G1).ScalarBaseMult(k) }
	g2 := func(k *big.Int) *bn256.G2 { return new(bn256.G2).ScalarBaseMult(k) }
	pk := &zktypes.Pk{NVars: nVars, NPublic: n, DomainSize: m, PolsA: polsA, PolsB: polsB,
		VkAlpha1: g1(alpha), VkBeta1: g1(beta), VkDelta1: g1(delta), VkBeta2: g2(beta), VkDelta2: g2(delta)}
	vk := &zktypes.Vk{Alpha: g1(alpha), Beta: g2(beta), Gamma: g2(gamma), Delta: g2(delta)}
	var icg []*big.Int
	for i := 0; i < nVars; i++ {
		a, b, c := eval(polsA[i]), eval(polsB[i]), eval(polsC[i])
		pk.A = append(pk.A, g1(a))
		pk.B1 = append(pk.B1, g1(b))
		pk.B2 = append(pk.B2, g2(b))
		k := frAdd(frAdd(frMul(beta, a), frMul(alpha, b)), c)
		if i <= n {
			vk.IC = append(vk.IC, g1(frMul(k, frInv(gamma))))
			icg = append(icg, k)
			pk.C = append(pk.C, g1(new(big.Int)))
		} else {
			pk.C = append(pk.C, g1(frMul(k, frInv(delta))))
		}
	}
	t := frMul(z, frInv(delta))
	for j := 0; j <= m; j++ {
		pk.HExps = append(pk.HExps, g1(t))
		t = frMul(t, tau)
	}
	c := &Circuit{N: n, WASM: []byte("\x00asm\x01\x00\x00\x00 stand-in of the circuit " + name)}
	c.PkJSON, c.VkJSON = pkJSON(pk), vkJSON(vk)
	var err error
	if c.Pk, err = parsers.ParsePk(c.PkJSON); err != nil {
		panic(err)
	}
	if c.Vk, err = parsers.ParseVk(c.VkJSON); err != nil {
		panic(err)
	}
	if c.PkGoBin, err = parsers.PkToGoBin(c.Pk); err != nil {
		panic(err)
	}
	c.PkBin = pkBin(c.Pk)
	if c.PkOfBin, err = simrt.ParseBytes(c.PkBin, parsers.ParsePkBin); err != nil {
		panic(err)
	}
	c.HashPkBin = hexHash(c.PkBin)
	c.alpha, c.beta, c.delta, c.icg = alpha, beta, delta, icg
	circuits[string(c.Pk.VkAlpha1.Marshal())] = c
	c.HashPkJSON, c.HashPkGoBin, c.HashV, c.HashW = hexHash(c.PkJSON), hexHash(c.PkGoBin), hexHash(c.VkJSON), hexHash(c.WASM)
	return c
}

// Hashes are the hashes of the files for a proving key format.
func (c *Circuit) Hashes(format zkutils.ProvingKeyFormat) zkutils.ZkFilesHashes {
	h := zkutils.ZkFilesHashes{ProvingKey: c.HashPkJSON, VerificationKey: c.HashV, WitnessCalcWASM: c.HashW}
	if format == zkutils.ProvingKeyFormatGoBin {
		h.ProvingKey = c.HashPkGoBin
	}
	if format == zkutils.ProvingKeyFormatBin {
		h.ProvingKey = c.HashPkBin
	}
	return h
}

// Witness is the witness for the public signals.
func (c *Circuit) Witness(pub ...*big.Int) []*big.Int {
	w := []*big.Int{big.NewInt(1)}
	w = append(w, pub...)
	x := pub[0]
	for i := 1; i < len(pub); i++ {
		x = frMul(x, pub[i])
		w = append(w, x)
	}
	return w
}

func dec(b []byte) string { return new(big.Int).SetBytes(b).String() }

func g1s(p *bn256.G1) []string {
	b := p.Marshal()
	return []string{dec(b[:32]), dec(b[32:64]), "1"}
}

func g2s(p *bn256.G2) [][]string {
	b := p.Marshal()
	if len(b) < 128 {
		b = make([]byte, 128)
	}
	return [][]string{{dec(b[32:64]), dec(b[:32])}, {dec(b[96:128]), dec(b[64:96])}, {"1", "0"}}
}

func mustJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func vkJSON(vk *zktypes.Vk) []byte {
	v := parsers.VkString{Alpha: g1s(vk.Alpha), Beta: g2s(vk.Beta), Gamma: g2s(vk.Gamma), Delta: g2s(vk.Delta)}
	for _, p := range vk.IC {
		v.IC = append(v.IC, g1s(p))
	}
	return mustJSON(v)
}

func pkJSON(pk *zktypes.Pk) []byte {
	p := parsers.PkString{NVars: pk.NVars, NPublic: pk.NPublic, DomainSize: pk.DomainSize, VkAlpha1: g1s(pk.VkAlpha1), VkDelta1: g1s(pk.VkDelta1), VkBeta1: g1s(pk.VkBeta1),
		VkBeta2: g2s(pk.VkBeta2), VkDelta2: g2s(pk.VkDelta2)}
	for i := range pk.A {
		p.A = append(p.A, g1s(pk.A[i]))
		p.B1 = append(p.B1, g1s(pk.B1[i]))
		p.B2 = append(p.B2, g2s(pk.B2[i]))
		p.C = append(p.C, g1s(pk.C[i]))
	}
	for _, h := range pk.HExps {
		p.HExps = append(p.HExps, g1s(h))
	}
	pol := func(in []map[int]*big.Int) (out []map[string]string) {
		for _, m := range in {
			o := map[string]string{}
			for k, v := range m {
				o[fmt.Sprint(k)] = v.String()
			}
			out = append(out, o)
		}
		return
	}
	p.PolsA, p.PolsB = pol(pk.PolsA), pol(pk.PolsB)
	return mustJSON(p)
}

// pkBin writes a proving key in the format of the JavaScript tools: offsets,
// then numbers in Montgomery form, least significant byte first.
func pkBin(pk *zktypes.Pk) []byte {
	le := func(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }
	mont := func(x, q *big.Int) []byte {
		b := make([]byte, 32)
		v := new(big.Int).Mod(new(big.Int).Lsh(x, 256), q).Bytes()
		for i := range v {
			b[i] = v[len(v)-1-i]
		}
		return b
	}
	coords := func(b []byte, order ...int) (out []byte) {
		if len(b) < 32*len(order) {
			b = make([]byte, 32*len(order))
		}
		for _, i := range order {
			out = append(out, mont(new(big.Int).SetBytes(b[32*i:32*i+32]), zktypes.Q)...)
		}
		return out
	}
	p1 := func(p *bn256.G1) []byte { return coords(p.Marshal(), 0, 1) }
	p2 := func(p *bn256.G2) []byte { return coords(p.Marshal(), 1, 0, 3, 2) }
	pols := func(l []map[int]*big.Int) (out []byte) {
		for _, m := range l {
			out = append(out, le(uint32(len(m)))...)
			for k := 0; k < pk.DomainSize; k++ {
				if v, ok := m[k]; ok {
					out = append(append(out, le(uint32(k))...), mont(v, frR)...)
				}
			}
		}
		return out
	}
	var head []byte
	for _, b := range [][]byte{p1(pk.VkAlpha1), p1(pk.VkBeta1), p1(pk.VkDelta1), p2(pk.VkBeta2), p2(pk.VkDelta2)} {
		head = append(head, b...)
	}
	parts := make([][]byte, 7)
	parts[0], parts[1] = pols(pk.PolsA), pols(pk.PolsB)
	for i := 0; i < pk.NVars; i++ {
		parts[2] = append(parts[2], p1(pk.A[i])...)
		parts[3] = append(parts[3], p1(pk.B1[i])...)
		parts[4] = append(parts[4], p2(pk.B2[i])...)
		if i > pk.NPublic {
			parts[5] = append(parts[5], p1(pk.C[i])...)
		}
	}
	for i := 0; i < pk.DomainSize; i++ {
		parts[6] = append(parts[6], p1(pk.HExps[i])...)
	}
	out := append(append(le(uint32(pk.NVars)), le(uint32(pk.NPublic))...), le(uint32(pk.DomainSize))...)
	o := 40 + len(head)
	for _, b := range parts {
		out = append(out, le(uint32(o))...)
		o += len(b)
	}
	out = append(out, head...)
	for _, b := range parts {
		out = append(out, b...)
	}
	return out
}
