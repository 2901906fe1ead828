package helpers

import (
	"bytes"
	"math/big"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zzvv"
)

// vvInterp evaluates at x the polynomial of least degree through the given points.
func vvInterp(xs []int64, ys []*big.Int, x int64) *big.Int {
	r := zzvv.I(0)
	for i := range xs {
		num, den := zzvv.I(1), zzvv.I(1)
		for j := range xs {
			if i != j {
				num = zzvv.SMul(num, zzvv.SAdd(zzvv.I(x-xs[j]), zzvv.I(0)))
				den = zzvv.SMul(den, zzvv.SAdd(zzvv.I(xs[i]-xs[j]), zzvv.I(0)))
			}
		}
		r = zzvv.SAdd(r, zzvv.SMul(ys[i], zzvv.SMul(num, zzvv.SInv(den))))
	}
	return r
}

func TestVVDeal(t *testing.T) {
	h := zzvv.New(t)
	for k := 0; k < h.N(40) && !h.Failed(); k++ {
		n := 1 + h.R.Intn(7)
		thr := h.R.Intn(n)
		ids := h.IDs(n)
		set := make([]party.ID, n)
		for i := range ids {
			set[i] = party.ID(ids[i])
		}
		slice := party.NewIDSlice(set)
		tape, done := h.NewTape()
		what := "GenerateSecrets"
		h.Case(n > 1)
		h.Sample("ids %v threshold %d", ids, thr)
		h.Catch(what, func() {
			secret, shares := GenerateSecrets(slice, party.Size(thr))
			done()
			s := zzvv.Big(secret)
			if !h.Check(len(shares) == n, "GenerateSecrets(%v, %d): %d shares", ids, thr, len(shares)) {
				return
			}
			xs, ys := []int64{}, []*big.Int{}
			for _, id := range ids {
				sh := shares[party.ID(id)]
				if !h.Check(sh != nil && int64(sh.ID) == id, "GenerateSecrets(%v, %d): share of %d is %+v", ids, thr, id, sh) {
					return
				}
				v := zzvv.Big(&sh.Secret)
				h.Check(bytes.Equal(sh.Public.Bytes(), zzvv.Base(v).EncodeR()), "GenerateSecrets(%v, %d): public share of %d does not belong to its secret", ids, thr, id)
				xs, ys = append(xs, id), append(ys, v)
			}
			// any threshold+1 shares give the secret, and all shares lie on one polynomial of that degree
			perm := h.R.Perm(n)
			px, py := []int64{}, []*big.Int{}
			for _, i := range perm[:thr+1] {
				px, py = append(px, xs[i]), append(py, ys[i])
			}
			got := vvInterp(px, py, 0)
			h.Check(got.Cmp(s) == 0, "GenerateSecrets(%v, %d): shares of %v interpolate to %v, secret is %v", ids, thr, px, got, s)
			for i := range xs {
				g := vvInterp(px, py, xs[i])
				h.Check(g.Cmp(ys[i]) == 0, "GenerateSecrets(%v, %d): share of %d is not on the polynomial of the others", ids, thr, xs[i])
			}
			// secret and coefficients come from the randomness drawn
			found := map[string]int{}
			for _, c := range tape.Chunks() {
				found[c.String()]++
			}
			h.Check(found[s.String()] > 0, "GenerateSecrets(%v, %d): the secret is not drawn from 64 bytes of randomness", ids, thr)
			if thr > 0 {
				// shares of fewer parties do not determine the secret
				if vvInterp(px[:thr], py[:thr], 0).Cmp(s) == 0 {
					h.Fail("GenerateSecrets(%v, %d): %d shares already give the secret", ids, thr, thr)
				}
			}
			pub := GeneratePublic(party.Size(thr), shares)
			h.Check(int(pub.Threshold) == thr, "GeneratePublic: threshold %d, want %d", pub.Threshold, thr)
			h.Check(bytes.Equal(pub.GroupKey.ToEd25519(), zzvv.Base(s).TorsionFree().EncodeEd()), "GeneratePublic(%v, %d): group key is not [secret]B", ids, thr)
			if h.Check(len(pub.PartyIDs) == n && len(pub.Shares) == n, "GeneratePublic: %v", pub.PartyIDs) {
				for i, id := range ids {
					h.Check(int64(pub.PartyIDs[i]) == id, "GeneratePublic: parties %v, want %v", pub.PartyIDs, ids)
					e := pub.Shares[party.ID(id)]
					h.Check(e != nil && bytes.Equal(e.Bytes(), zzvv.Base(ys[i]).EncodeR()), "GeneratePublic: public share of %d", id)
				}
			}
		})
		done()
		h.Check(zzvv.Panics(func() { GenerateSecrets(slice, party.Size(n)) }), "GenerateSecrets(%v, %d) does not refuse", ids, n)
	}
}
