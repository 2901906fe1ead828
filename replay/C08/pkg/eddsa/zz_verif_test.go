package eddsa

import (
	"bytes"
	"crypto/ed25519"
	"math/big"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/internal/zzvv"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

// vvEl gives [x]B in one of several internal representations of the same element.
func vvEl(h *zzvv.H, x *big.Int) *ristretto.Element {
	var e ristretto.Element
	e.ScalarBaseMult(zzvv.Scalar(x))
	switch h.R.Intn(3) {
	case 0:
		var d ristretto.Element
		if _, err := d.SetCanonicalBytes(e.Bytes()); err == nil {
			return &d
		}
	case 1:
		var g, d ristretto.Element
		g.ScalarBaseMult(zzvv.Scalar(zzvv.SSub(x, zzvv.I(5))))
		d.ScalarBaseMult(zzvv.Scalar(zzvv.I(5)))
		return new(ristretto.Element).Add(&g, &d)
	}
	return &e
}

func vvChal(r, a zzvv.Pt, msg []byte) *big.Int {
	return zzvv.HashScalar(r.TorsionFree().EncodeEd(), a.TorsionFree().EncodeEd(), msg)
}

func TestVVSignature(t *testing.T) {
	h := zzvv.New(t)
	lens := []int{0, 1, 31, 32, 33, 63, 64, 65, 111, 112, 127, 128, 129, 200, 1000}
	for n := 0; n < h.N(40) && !h.Failed(); n++ {
		msg := h.Bytes(lens[n%len(lens)])
		x, k := h.RandScalar(), h.RandScalar()
		A, Rp := zzvv.Base(x), zzvv.Base(k)
		pkEl := vvEl(h, x)
		pk := NewPublicKeyFromPoint(pkEl)
		R := vvEl(h, k)
		c := vvChal(Rp, A, msg)
		var got *big.Int
		msg0 := append([]byte{}, msg...)
		if !h.Catch("ComputeChallenge", func() { got = zzvv.Big(ComputeChallenge(R, pk, msg)) }) {
			return
		}
		h.Case(true)
		h.Sample("A=[%v]B R=[%v]B msg=%x c=%v", x, k, msg, c)
		h.Check(got.Cmp(c) == 0, "ComputeChallenge(R=[%v]B, A=[%v]B, msg=%x) = %v, want SHA-512(R, A, M) = %v", k, x, msg, got, c)
		h.Check(bytes.Equal(msg, msg0), "ComputeChallenge changed the message")
		edA := A.TorsionFree().EncodeEd()
		h.Check(bytes.Equal(pk.ToEd25519(), edA), "PublicKey.ToEd25519 of [%v]B = %x, want %x", x, []byte(pk.ToEd25519()), edA)
		s := zzvv.SAdd(k, zzvv.SMul(c, x))
		sig := Signature{R: *R, S: *zzvv.Scalar(s)}
		wantSig := zzvv.Cat(Rp.TorsionFree().EncodeEd(), zzvv.ToLE(s, 32))
		h.Check(bytes.Equal(sig.ToEd25519(), wantSig), "Signature.ToEd25519 = %x, want %x", sig.ToEd25519(), wantSig)
		if x.Sign() != 0 {
			h.Check(ed25519.Verify(pk.ToEd25519(), msg, sig.ToEd25519()), "ed25519.Verify refuses the signature R=[%v]B S=%v under [%v]B on %x", k, s, x, msg)
		}

		check := func(what string, a, r, s *big.Int, msg []byte) {
			ra, rr := zzvv.Base(a), zzvv.Base(r)
			want := zzvv.Base(s).EqR(rr.Add(ra.Mul(vvChal(rr, ra, msg))))
			pk := NewPublicKeyFromPoint(vvEl(h, a))
			sig := &Signature{R: *vvEl(h, r), S: *zzvv.Scalar(s)}
			var got bool
			h.Case(true)
			if !h.Catch(what, func() { got = pk.Verify(msg, sig) }) {
				return
			}
			h.Check(got == want, "%s: Verify(A=[%v]B, R=[%v]B, S=%v, msg=%x) = %v, want %v", what, a, r, s, msg, got, want)
			if std := ed25519.Verify(pk.ToEd25519(), msg, sig.ToEd25519()); std != got {
				h.Fail("%s: Verify(A=[%v]B, R=[%v]B, S=%v, msg=%x) = %v but crypto/ed25519 says %v", what, a, r, s, msg, got, std)
			}
			h.Check(bytes.Equal(sig.ToEd25519(), zzvv.Cat(rr.TorsionFree().EncodeEd(), zzvv.ToLE(s, 32))), "%s: Verify changed the signature", what)
		}
		check("honest", x, k, s, msg)
		check("other S", x, k, zzvv.SAdd(s, zzvv.I(1)), msg)
		check("negated S", x, k, zzvv.SSub(zzvv.I(0), s), msg)
		check("negated R", x, zzvv.SSub(zzvv.I(0), k), s, msg)
		check("negated key", zzvv.SSub(zzvv.I(0), x), k, s, msg)
		check("other key", zzvv.SAdd(x, zzvv.I(1)), k, s, msg)
		check("longer message", x, k, s, append(append([]byte{}, msg...), 0))
		if len(msg) > 0 {
			check("other message", x, k, s, h.Flip(msg))
			check("shorter message", x, k, s, msg[:len(msg)-1])
			e := append([]byte{}, msg...)
			e[len(e)-1] ^= 0x80
			check("last bit", x, k, s, e)
		}
		check("zero", x, zzvv.I(0), zzvv.I(0), msg)
		check("zero S", x, k, zzvv.I(0), msg)
		check("zero R", x, zzvv.I(0), s, msg)
		check("zero key", zzvv.I(0), k, s, msg)
		check("zero key, S = k", zzvv.I(0), k, k, msg)
		// S made for a challenge over something else than (R, A, M)
		for i, c2 := range []*big.Int{
			zzvv.HashScalar(Rp.EncodeR(), A.EncodeR(), msg),
			zzvv.HashScalar(edA, Rp.TorsionFree().EncodeEd(), msg),
			zzvv.HashScalar(Rp.TorsionFree().EncodeEd(), edA, zzvv.Sha512(msg)),
			zzvv.HashScalar(Rp.TorsionFree().EncodeEd(), edA),
			zzvv.HashScalar(Rp.TorsionFree().EncodeEd(), msg),
		} {
			check([]string{"ristretto challenge", "swapped challenge", "prehashed challenge", "challenge without message", "challenge without key"}[i], x, k, zzvv.SAdd(k, zzvv.SMul(c2, x)), msg)
		}
		// equality
		other := &Signature{R: *vvEl(h, k), S: *zzvv.Scalar(s)}
		h.Check(sig.Equal(other), "Signature.Equal is false on equal signatures")
		h.Check(!sig.Equal(&Signature{R: *vvEl(h, k), S: *zzvv.Scalar(zzvv.SAdd(s, zzvv.I(1)))}), "Signature.Equal ignores S")
		h.Check(!sig.Equal(&Signature{R: *vvEl(h, zzvv.SAdd(k, zzvv.I(1))), S: *zzvv.Scalar(s)}), "Signature.Equal ignores R")
		h.Check(pk.Equal(NewPublicKeyFromPoint(vvEl(h, x))), "PublicKey.Equal is false on equal keys")
		h.Check(!pk.Equal(NewPublicKeyFromPoint(vvEl(h, zzvv.SSub(zzvv.I(1), x)))) || zzvv.SMul(zzvv.I(2), x).Cmp(zzvv.I(1)) == 0, "PublicKey.Equal is true on different keys")
		// the key does not follow later changes of the element it was made from
		pkEl.Set(ristretto.NewGeneratorElement())
		h.Check(bytes.Equal(pk.ToEd25519(), edA), "PublicKey changes with the element it was made from")
	}
}
