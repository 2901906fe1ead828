package zk

import (
	"math/big"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zzvv"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

func vvEl(h *zzvv.H, x *big.Int) *ristretto.Element {
	var e ristretto.Element
	e.ScalarBaseMult(zzvv.Scalar(x))
	if h.R.Intn(2) == 0 { // a representative that went through the wire
		var d ristretto.Element
		if _, err := d.SetCanonicalBytes(e.Bytes()); err == nil {
			return &d
		}
	}
	return &e
}

// vvAccept is the verification equation computed independently.
func vvAccept(id int, ctx []byte, pub zzvv.Pt, s, r *big.Int) bool {
	m := zzvv.Base(r).Add(pub.Mul(zzvv.SSub(zzvv.I(0), s)))
	return zzvv.HashScalar(zzvv.BE16(id), ctx[:32], pub.EncodeR(), m.EncodeR()).Cmp(s) == 0
}

func TestVVSchnorr(t *testing.T) {
	h := zzvv.New(t)
	ids := []int{0, 1, 2, 255, 256, 257, 65535}
	for n := 0; n < h.N(60) && !h.Failed(); n++ {
		id := ids[h.R.Intn(len(ids))]
		if h.R.Intn(2) == 0 {
			id = h.R.Intn(65536)
		}
		ctx := h.Bytes(32 + h.R.Intn(3)*h.R.Intn(40))
		if n%5 == 0 {
			ctx = make([]byte, 32)
		}
		x := h.RandScalar()
		pub := zzvv.Base(x)
		el := vvEl(h, x)
		ctx0 := append([]byte{}, ctx...)
		tape, done := h.NewTape()
		var proof *Schnorr
		ok := h.Catch("NewSchnorrProof", func() { proof = NewSchnorrProof(party.ID(id), el, ctx, zzvv.Scalar(x)) })
		done()
		if !ok {
			return
		}
		S, R := zzvv.Big(&proof.S), zzvv.Big(&proof.R)
		h.Case(true)
		h.Sample("id=%d ctx=%x x=%v S=%v R=%v", id, ctx, x, S, R)
		// R = k + x S for a nonce k drawn from 64 fresh bytes, S = H(id, ctx, public, kB)
		k := zzvv.SSub(R, zzvv.SMul(x, S))
		found := false
		for _, c := range tape.Chunks() {
			found = found || c.Cmp(k) == 0
		}
		h.Check(found, "NewSchnorrProof(id=%d, ctx=%x, x=%v): R - x S is not a nonce drawn from 64 bytes of fresh randomness", id, ctx, x)
		want := zzvv.HashScalar(zzvv.BE16(id), ctx[:32], pub.EncodeR(), zzvv.Base(k).EncodeR())
		h.Check(S.Cmp(want) == 0, "NewSchnorrProof(id=%d, ctx=%x, x=%v): S = %v, want H(id, ctx, public, M) = %v", id, ctx, x, S, want)
		h.Check(string(ctx) == string(ctx0), "context changed from %x to %x", ctx0, ctx)

		check := func(what string, id int, ctx []byte, a *big.Int, s, r *big.Int) {
			p := Schnorr{S: *zzvv.Scalar(s), R: *zzvv.Scalar(r)}
			e := vvEl(h, a)
			var got bool
			if !h.Catch(what, func() { got = p.Verify(party.ID(id), e, ctx) }) {
				return
			}
			want := vvAccept(id, ctx, zzvv.Base(a), s, r)
			h.Case(true)
			h.Check(got == want, "%s: Verify(id=%d, public=[%v]B, ctx=%x) of S=%v R=%v = %v, want %v", what, id, a, ctx, s, r, got, want)
			h.Check(zzvv.Big(&p.S).Cmp(s) == 0 && zzvv.Big(&p.R).Cmp(r) == 0, "%s: Verify changed the proof", what)
			h.Check(string(e.Bytes()) == string(zzvv.Base(a).EncodeR()), "%s: Verify changed the public key", what)
		}
		check("honest", id, ctx, x, S, R)
		check("bytes after the 32 byte context", id, append(append([]byte{}, ctx[:32]...), h.Bytes(5)...), x, S, R)
		for _, b := range []int{0, 7, 8, 15} {
			check("other id", id^(1<<b), ctx, x, S, R)
		}
		for _, i := range []int{0, 1, 15, 16, 30, 31, h.R.Intn(32)} {
			c := append([]byte{}, ctx...)
			c[i] ^= 1 << h.R.Intn(8)
			check("other context", id, c, x, S, R)
		}
		check("other public key", id, ctx, zzvv.SAdd(x, zzvv.I(1)), S, R)
		check("negated public key", id, ctx, zzvv.SSub(zzvv.I(0), x), S, R)
		check("other R", id, ctx, x, S, zzvv.SAdd(R, zzvv.I(1)))
		check("negated R", id, ctx, x, S, zzvv.SSub(zzvv.I(0), R))
		check("other S", id, ctx, x, zzvv.SAdd(S, zzvv.I(1)), R)
		check("negated S", id, ctx, x, zzvv.SSub(zzvv.I(0), S), R)
		check("zero proof", id, ctx, x, zzvv.I(0), zzvv.I(0))
		check("zero S", id, ctx, x, zzvv.I(0), R)
		check("zero R", id, ctx, x, S, zzvv.I(0))
		check("zero public key", id, ctx, zzvv.I(0), S, R)
		// shifting public key and response together keeps the recomputed commitment
		d := h.RandScalar()
		check("shifted key and response", id, ctx, zzvv.SAdd(x, d), S, zzvv.SAdd(R, zzvv.SMul(S, d)))
		// a forgery made without the secret against a challenge that leaves out one field
		r := h.RandScalar()
		for i, s := range []*big.Int{
			zzvv.HashScalar(ctx[:32], pub.EncodeR(), zzvv.Base(r).EncodeR()),
			zzvv.HashScalar(zzvv.BE16(id), pub.EncodeR(), zzvv.Base(r).EncodeR()),
			zzvv.HashScalar(zzvv.BE16(id), ctx[:32], pub.EncodeR()),
			zzvv.HashScalar(zzvv.BE16(id), ctx[:32], zzvv.Base(r).EncodeR()),
		} {
			check([]string{"no id", "no context", "no commitment", "no key"}[i], id, ctx, x, s, zzvv.SAdd(r, zzvv.SMul(s, x)))
		}
	}
}

func TestVVSchnorrNonces(t *testing.T) {
	h := zzvv.New(t)
	tape, done := h.NewTape()
	defer done()
	x := h.RandScalar()
	pub := vvEl(h, x)
	ctx := h.Bytes(32)
	seen := map[string]bool{}
	for i := 0; i < 20; i++ {
		p := NewSchnorrProof(3, pub, ctx, zzvv.Scalar(x))
		k := zzvv.SSub(zzvv.Big(&p.R), zzvv.SMul(x, zzvv.Big(&p.S))).String()
		h.Case(true)
		h.Check(!seen[k], "proof %d reuses the nonce of an earlier one", i)
		seen[k] = true
	}
	// a source that fails must not lead to a proof with a predictable nonce
	tape.Fail = len(tape.Reads) + 1
	h.Case(true)
	var p *Schnorr
	if !zzvv.Panics(func() { p = NewSchnorrProof(3, pub, ctx, zzvv.Scalar(x)) }) && p != nil {
		h.Fail("NewSchnorrProof returned a proof although no randomness could be read")
	}
}
