package simrt

import (
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"

	"github.com/iden3/go-circom-prover-verifier/parsers"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-circom-prover-verifier/verifier"
	"github.com/iden3/go-iden3-crypto/poseidon"
)

// Pure functions of third party libraries, memoised (the same real function
// computes every value; runs repeat the same hashes very often).

var hashMemo = map[string]*big.Int{}

func PoseidonHash(in [poseidon.T]*big.Int) (*big.Int, error) {
	var key []byte
	for _, v := range in {
		if v == nil {
			return poseidon.PoseidonHash(in)
		}
		b := v.Bytes()
		if v.Sign() < 0 {
			key = append(key, 0xff)
		}
		key = append(key, byte(len(b)))
		key = append(key, b...)
	}
	k := string(key)
	if r, ok := hashMemo[k]; ok {
		return new(big.Int).Set(r), nil
	}
	r, err := poseidon.PoseidonHash(in)
	if err != nil {
		return nil, err
	}
	if len(hashMemo) > 400_000 {
		hashMemo = map[string]*big.Int{}
	}
	hashMemo[k] = new(big.Int).Set(r)
	return r, nil
}

// The parsers that take an *os.File get a real temporary file with the
// simulated file's contents.

var pkMemo = map[[32]byte]*zktypes.Pk{}

func parseFile(f *File, kind string, parse func(*os.File) (*zktypes.Pk, error)) (*zktypes.Pk, error) {
	b, err := io.ReadAll(f)
	if err != nil {
		return nil, err
	}
	key := sha256.Sum256(append([]byte(kind), b...))
	if pk, ok := pkMemo[key]; ok {
		return pk, nil
	}
	pk, err := ParseBytes(b, parse)
	if err == nil {
		pkMemo[key] = pk
	}
	return pk, err
}

// ParseBytes gives a parser of files these contents.
func ParseBytes(b []byte, parse func(*os.File) (*zktypes.Pk, error)) (*zktypes.Pk, error) {
	t, err := os.CreateTemp("", "simpk")
	if err != nil {
		return nil, err
	}
	defer os.Remove(t.Name())
	defer t.Close()
	if _, err := t.Write(b); err != nil {
		return nil, err
	}
	if _, err := t.Seek(0, 0); err != nil {
		return nil, err
	}
	return safePk(func() (*zktypes.Pk, error) { return parse(t) })
}

func safePk(f func() (*zktypes.Pk, error)) (pk *zktypes.Pk, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("proving key parser panicked: %v", r)
		}
	}()
	return f()
}

func ParsePkBin(f *File) (*zktypes.Pk, error)   { return parseFile(f, "bin", parsers.ParsePkBin) }
func ParsePkGoBin(f *File) (*zktypes.Pk, error) { return parseFile(f, "gobin", parsers.ParsePkGoBin) }
func ParsePk(b []byte) (*zktypes.Pk, error) {
	key := sha256.Sum256(append([]byte("json"), b...))
	if pk, ok := pkMemo[key]; ok {
		return pk, nil
	}
	pk, err := safePk(func() (*zktypes.Pk, error) { return parsers.ParsePk(b) })
	if err == nil {
		pkMemo[key] = pk
	}
	return pk, err
}

// WitnessCalc is the stand-in for the circuit's WASM module: the environment
// registers, per module contents, a Go function deciding the circuit's
// relation and returning the witness.
var WitnessCalc = map[string]func(inputs map[string]interface{}) ([]*big.Int, error){}

func CalculateWitnessBinWASM(wasm []byte, inputs map[string]interface{}) ([]*big.Int, error) {
	f := WitnessCalc[string(wasm)]
	if f == nil {
		return nil, errors.New("witness calculator: invalid module")
	}
	return f(inputs)
}

// Prover is the stand-in of the Groth16 prover (env.Prove).
var Prover func(pk *zktypes.Pk, w zktypes.Witness) (*zktypes.Proof, []*big.Int, error)

func GenerateProof(pk *zktypes.Pk, w zktypes.Witness) (*zktypes.Proof, []*big.Int, error) {
	ioStep()
	if gone() {
		return nil, nil, errDead
	}
	if x := W; x != nil && x.ProverFault != nil && len(w) > 0 && x.ProverFault() {
		// the computation goes wrong somewhere: a proof that proves nothing
		w = append(zktypes.Witness{}, w...)
		k := len(w) - 1
		w[k] = new(big.Int).Add(w[k], big.NewInt(1))
	}
	return Prover(pk, w)
}

var verifyMemo = map[[32]byte]bool{}

// Verify is the real Groth16 verifier, memoised.
func Verify(vk *zktypes.Vk, proof *zktypes.Proof, inputs []*big.Int) bool {
	h := sha256.New()
	put := func(b []byte) { fmt.Fprintf(h, "%d:", len(b)); h.Write(b) }
	if vk == nil || proof == nil || proof.A == nil || proof.B == nil || proof.C == nil {
		return verifier.Verify(vk, proof, inputs)
	}
	put(vk.Alpha.Marshal())
	put(vk.Beta.Marshal())
	put(vk.Gamma.Marshal())
	put(vk.Delta.Marshal())
	for _, p := range vk.IC {
		put(p.Marshal())
	}
	put([]byte("proof"))
	put(proof.A.Marshal())
	put(proof.B.Marshal())
	put(proof.C.Marshal())
	for _, v := range inputs {
		if v == nil {
			return verifier.Verify(vk, proof, inputs)
		}
		put([]byte(v.String()))
	}
	var key [32]byte
	h.Sum(key[:0])
	if ok, in := verifyMemo[key]; in {
		return ok
	}
	ok := verifier.Verify(vk, proof, inputs)
	verifyMemo[key] = ok
	return ok
}
