package eddsa

import (
	"bytes"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/internal/zzvv"
)

func TestVVSignatureDecoder(t *testing.T) {
	h := zzvv.New(t)
	try := func(what string, b []byte) {
		want := len(b) == 64 && zzvv.CanonElement(b[:32]) && zzvv.CanonScalar(b[32:])
		h.Case(true)
		var s Signature
		var err error
		if !h.Catch(what+" "+zzvv.Hex(b), func() { err = s.UnmarshalBinary(b) }) {
			return
		}
		h.Check((err == nil) == want, "%s: decoding signature %x: error %v, want accepted=%v", what, b, err, want)
		if err == nil {
			out, err := s.MarshalBinary()
			h.Check(err == nil && bytes.Equal(out, b), "%s: signature %x re-encodes to %x", what, b, out)
		}
	}
	for n := 0; n < h.N(60) && !h.Failed(); n++ {
		b := zzvv.Cat(zzvv.Base(h.RandScalar()).EncodeR(), zzvv.ToLE(h.RandScalar(), 32))
		h.Sample("%x", b)
		try("valid", b)
		for _, k := range []int{0, 1, 31, 32, 33, 63} {
			try("truncated", b[:k])
		}
		for _, k := range []int{1, 32, 64} {
			try("extended", append(append([]byte{}, b...), make([]byte, k)...))
		}
		for i := 0; i < 10; i++ {
			try("bit flip", h.Flip(b))
		}
		try("scalar out of range", zzvv.Cat(b[:32], zzvv.ToLE(zzvv.L, 32)))
		try("swapped", zzvv.Cat(b[32:], b[:32]))
		try("edwards encoding", zzvv.Cat(zzvv.Base(h.RandScalar()).EncodeEd(), b[32:]))
	}
}
