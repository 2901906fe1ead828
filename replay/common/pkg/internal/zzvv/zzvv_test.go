package zzvv

import (
	"math/big"
	"testing"

	"filippo.io/edwards25519"
)

func TestSelf(t *testing.T) {
	h := New(t)
	for i := 0; i < 5; i++ {
		k := h.RandScalar()
		p := Base(k)
		q := new(edwards25519.Point).ScalarBaseMult(Scalar(k))
		if string(q.Bytes()) != string(p.EncodeEd()) || !p.OnCurve() {
			t.Fatal("base mult")
		}
		r, ok := DecodeR(p.EncodeR())
		if !ok || !r.EqR(p) {
			t.Fatal("decode")
		}
		for _, tt := range Torsion4 {
			if !p.Add(tt).EqR(p) {
				t.Fatal("torsion")
			}
		}
		if Uniform(h.Bytes(64)).Mul(new(big.Int).Mul(L, big.NewInt(8))).X.Sign() != 0 {
			t.Fatal("uniform")
		}
	}
}
