package env

import (
	"math/big"
	"testing"

	"github.com/iden3/go-circom-prover-verifier/verifier"
)

func TestCircuit(t *testing.T) {
	c := NewCircuit("test", 3)
	p, pub, err := Prove(c.Pk, c.Witness(big.NewInt(3), big.NewInt(5), big.NewInt(9)))
	if err != nil {
		t.Fatal(err)
	}
	if !verifier.Verify(c.Vk, p, pub) {
		t.Fatal("does not verify")
	}
	pub[1] = big.NewInt(6)
	if verifier.Verify(c.Vk, p, pub) {
		t.Fatal("verifies for other signals")
	}
}
func BenchmarkProve(b *testing.B) {
	c := NewCircuit("test", 3)
	for i := 0; i < b.N; i++ {
		Prove(c.Pk, c.Witness(big.NewInt(3), big.NewInt(5), big.NewInt(9)))
	}
}

func BenchmarkVerify(b *testing.B) {
	c := NewCircuit("test", 3)
	p, pub, _ := Prove(c.Pk, c.Witness(big.NewInt(3), big.NewInt(5), big.NewInt(9)))
	for i := 0; i < b.N; i++ {
		verifier.Verify(c.Vk, p, pub)
	}
}
