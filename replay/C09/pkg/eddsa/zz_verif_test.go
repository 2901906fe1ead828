package eddsa

import (
	"bytes"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/internal/zzvv"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

func TestVVSignatureCodec(t *testing.T) {
	h := zzvv.New(t)
	for n := 0; n < h.N(100) && !h.Failed(); n++ {
		r, s := h.RandScalar(), h.RandScalar()
		var R ristretto.Element
		R.ScalarBaseMult(zzvv.Scalar(r))
		sig := &Signature{R: R, S: *zzvv.Scalar(s)}
		want := zzvv.Cat(zzvv.Base(r).EncodeR(), zzvv.ToLE(s, 32))
		h.Case(true)
		h.Sample("R=[%v]B S=%v", r, s)
		h.Catch("signature", func() {
			b, err := sig.MarshalBinary()
			h.Check(err == nil && bytes.Equal(b, want), "Signature(R=[%v]B, S=%v).MarshalBinary = %x %v, want %x", r, s, b, err, want)
			h.Check(sig.Size() == 64, "Size = %d", sig.Size())
			pre := h.Bytes(5)
			b, err = sig.BytesAppend(append(make([]byte, 0, 5+h.R.Intn(100)), pre...))
			h.Check(err == nil && bytes.Equal(b, zzvv.Cat(pre, want)), "BytesAppend = %x", b)
			var o Signature
			err = o.UnmarshalBinary(want)
			h.Check(err == nil && o.Equal(sig) && sig.Equal(&o), "Signature %x does not decode to itself: %v", want, err)
			b, _ = o.MarshalBinary()
			h.Check(bytes.Equal(b, want), "decode/encode of %x gives %x", want, b)
		})
	}
}
