package scalar

import (
	"math/big"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/internal/zzvv"
)

func TestVVScalar(t *testing.T) {
	h := zzvv.New(t)
	check := func(x uint32) {
		h.Case(x > 0)
		h.Sample("%d", x)
		h.Check(zzvv.Big(NewScalarUInt32(x)).Cmp(big.NewInt(int64(x))) == 0, "NewScalarUInt32(%d) = %v", x, zzvv.Big(NewScalarUInt32(x)))
		s := zzvv.Scalar(h.RandScalar())
		r := SetScalarUInt32(s, x)
		h.Check(r == s && zzvv.Big(s).Cmp(big.NewInt(int64(x))) == 0, "SetScalarUInt32(%d) = %v", x, zzvv.Big(s))
	}
	for i := uint(0); i < 32; i++ {
		for d := -2; d <= 2; d++ {
			check(uint32(1<<i + d))
		}
	}
	for i := 0; i < h.N(20000); i++ {
		check(h.R.Uint32())
	}
}
