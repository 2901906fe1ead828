package frost

import (
	"crypto/ed25519"
	"math/big"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/keygen"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/sign"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zzvv"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

const vvProp = "C01"

func vvIDs(a []int64) party.IDSlice {
	s := make(party.IDSlice, len(a))
	for i, x := range a {
		s[i] = party.ID(x)
	}
	return s
}

type vvKeys struct {
	ids    []int64
	th     int
	secret map[int64]*big.Int
	group  zzvv.Pt
	pub    *eddsa.Public
}

func vvElement(p zzvv.Pt) *ristretto.Element {
	e := ristretto.NewIdentityElement()
	if _, err := e.SetCanonicalBytes(p.EncodeR()); err != nil {
		panic(err)
	}
	return e
}

// vvDeal deals a sharing of a random key.
func vvDeal(h *zzvv.H, ids []int64, th int) *vvKeys {
	k := &vvKeys{ids: ids, th: th, secret: map[int64]*big.Int{}}
	var coef []*big.Int
	for i := 0; i <= th; i++ {
		coef = append(coef, zzvv.SAdd(h.RandScalar(), zzvv.I(int64(h.R.Intn(1000)))))
	}
	if coef[0].Sign() == 0 {
		coef[0] = zzvv.I(5)
	}
	k.group = zzvv.Base(coef[0])
	shares := map[party.ID]*ristretto.Element{}
	for _, id := range ids {
		k.secret[id] = zzvv.Poly(coef, zzvv.I(id))
		shares[party.ID(id)] = vvElement(zzvv.Base(k.secret[id]))
	}
	pub, err := eddsa.NewPublic(shares, party.Size(th))
	if err != nil {
		panic(err)
	}
	k.pub = pub
	return k
}

// vvPump runs the sessions over a network that delivers everything, in any order.
func vvPump(h *zzvv.H, ps []*state.State) {
	var net [][]byte
	for round := 0; round < 4; round++ {
		var out [][]byte
		for _, i := range h.R.Perm(len(ps)) {
			for _, m := range ps[i].ProcessAll() {
				b, err := m.MarshalBinary()
				if err != nil {
					panic(err)
				}
				out = append(out, b)
			}
		}
		net = append(net, out...)
		for _, p := range ps {
			for _, j := range h.R.Perm(len(out)) {
				var m messages.Message
				if err := m.UnmarshalBinary(out[j]); err != nil {
					panic(err)
				}
				_ = p.HandleMessage(&m)
			}
		}
	}
}

func vvStrict(ids []int64) bool {
	for i, x := range ids {
		if x == 0 || i > 0 && ids[i-1] >= x {
			return false
		}
	}
	return true
}

func vvHas(ids []int64, x int64) bool {
	for _, y := range ids {
		if x == y {
			return true
		}
	}
	return false
}

func vvMangle(h *zzvv.H, ids []int64) []int64 {
	ids = append([]int64{}, ids...)
	n := len(ids)
	switch h.R.Intn(7) {
	case 0:
		if n > 1 {
			i, j := h.R.Intn(n), h.R.Intn(n)
			ids[i], ids[j] = ids[j], ids[i]
		}
	case 1:
		if n > 1 {
			i := h.R.Intn(n - 1)
			ids[i] = ids[i+1]
		}
	case 2:
		if n > 0 {
			ids[0] = 0
		}
	case 3:
		if n > 0 {
			ids = ids[:n-1]
		}
	case 4:
		if n > 0 {
			ids = append(ids, ids[n-1])
		}
	}
	return ids
}

func vvStart(h *zzvv.H) {
	h.Case(true)
	var ids []int64
	if n := h.R.Intn(7); n > 0 {
		ids = vvMangle(h, h.IDs(n))
	}
	n := len(ids)
	self := int64(h.R.Intn(5))
	if n > 0 && h.R.Intn(5) > 0 {
		self = ids[h.R.Intn(n)]
	}
	t := h.R.Intn(n + 3)
	if h.R.Intn(8) == 0 {
		t = 65535 - h.R.Intn(2)
	}
	want := vvStrict(ids) && vvHas(ids, self) && t >= 1 && t <= n-1
	h.Sample("parties %v self %d threshold %d", ids, self, t)
	s, out, err := NewKeygenState(party.ID(self), vvIDs(ids), party.Size(t), 0)
	h.Check((err == nil) == want, "key generation, parties %v, self %d, threshold %d: error %v, acceptable %v", ids, self, t, err, want)
	h.Check((s != nil) == (err == nil) && (out != nil) == (err == nil), "key generation, parties %v, self %d, threshold %d: session %v, output %v, error %v", ids, self, t, s != nil, out != nil, err)

	h.Case(true)
	n = 2 + h.R.Intn(5)
	k := vvDeal(h, h.IDs(n), 1+h.R.Intn(n-1))
	set := append([]int64{}, k.ids...)
	for len(set) > k.th && h.R.Intn(2) == 0 {
		i := h.R.Intn(len(set))
		set = append(set[:i], set[i+1:]...)
	}
	if h.R.Intn(4) == 0 && len(set) > 0 {
		set[len(set)-1] = 65535 - int64(h.R.Intn(3))
	}
	set = vvMangle(h, set)
	self = k.ids[h.R.Intn(n)]
	if len(set) > 0 && h.R.Intn(4) > 0 {
		self = set[h.R.Intn(len(set))]
	}
	want = vvStrict(set) && vvHas(set, self) && len(set) > k.th
	for _, x := range set {
		want = want && vvHas(k.ids, x)
	}
	x := k.secret[self]
	if x == nil {
		x = zzvv.I(7)
	}
	s, so, err := NewSignState(vvIDs(set), eddsa.NewSecretShare(party.ID(self), zzvv.Scalar(x)), k.pub, h.Bytes(h.R.Intn(40)), 0)
	h.Check((err == nil) == want, "signing, signers %v, self %d, parties %v, threshold %d: error %v, acceptable %v", set, self, k.ids, k.th, err, want)
	h.Check((s != nil) == (err == nil) && (so != nil) == (err == nil), "signing, signers %v, self %d, parties %v, threshold %d: session %v, output %v, error %v", set, self, k.ids, k.th, s != nil, so != nil, err)
}

func vvKeygen(h *zzvv.H, n, th int) {
	h.Case(true)
	ids := h.IDs(n)
	var ps []*state.State
	var outs []*keygen.Output
	for _, id := range ids {
		s, out, err := NewKeygenState(party.ID(id), vvIDs(ids), party.Size(th), 0)
		if !h.Check(err == nil, "key generation of %d in %v with threshold %d: %v", id, ids, th, err) {
			return
		}
		ps, outs = append(ps, s), append(outs, out)
	}
	vvPump(h, ps)
	var group *zzvv.Pt
	for i, id := range ids {
		if !h.Check(ps[i].IsFinished() && ps[i].Err() == nil, "key generation of %d in %v, threshold %d, honest parties: finished %v, error %v", id, ids, th, ps[i].IsFinished(), ps[i].Err()) {
			return
		}
		o := outs[i]
		if !h.Check(o != nil && o.Public != nil && o.SecretKey != nil, "key generation of %d in %v: finished without an output", id, ids) {
			return
		}
		same := len(o.Public.PartyIDs) == n && int(o.Public.Threshold) == th && int64(o.SecretKey.ID) == id
		for j := 0; same && j < n; j++ {
			same = int64(o.Public.PartyIDs[j]) == ids[j] && o.Public.Shares[party.ID(ids[j])] != nil
		}
		if !h.Check(same, "key generation of %d in %v with threshold %d: output for parties %v, threshold %d, owner %d", id, ids, th, o.Public.PartyIDs, o.Public.Threshold, o.SecretKey.ID) {
			return
		}
		own := zzvv.Base(zzvv.Big(&o.SecretKey.Secret))
		h.Check(string(o.Public.Shares[party.ID(id)].Bytes()) == string(own.EncodeR()), "key generation of %d in %v: secret share does not match the public one", id, ids)
		// every threshold+1 consecutive shares interpolate to the group key
		for a := 0; a+th < n; a++ {
			sub := ids[a : a+th+1]
			sum := zzvv.Base(zzvv.I(0))
			for _, x := range sub {
				p, ok := zzvv.DecodeR(o.Public.Shares[party.ID(x)].Bytes())
				if !h.Check(ok, "share of %d is not an element", x) {
					return
				}
				sum = sum.Add(p.Mul(zzvv.Lagrange(x, sub)))
			}
			if group == nil {
				g := sum
				group = &g
			}
			h.Check(sum.EqR(*group) && string(o.Public.GroupKey.ToEd25519()) == string(vvEdKey(*group)), "key generation of %d in %v with threshold %d: shares of %v do not interpolate to the group key", id, ids, th, sub)
		}
	}
}

// vvEdKey: the Ed25519 encoding of an element, as the package's own element gives it.
func vvEdKey(p zzvv.Pt) []byte {
	return eddsa.NewPublicKeyFromPoint(vvElement(p)).ToEd25519()
}

func vvSign(h *zzvv.H, n, th int) {
	h.Case(true)
	k := vvDeal(h, h.IDs(n), th)
	set := append([]int64{}, k.ids...)
	for len(set) > th+1 && h.R.Intn(2) == 0 {
		i := h.R.Intn(len(set))
		set = append(set[:i], set[i+1:]...)
	}
	msg := h.Bytes(h.R.Intn(100))
	if h.R.Intn(6) == 0 {
		msg = nil
	}
	var ps []*state.State
	var outs []*sign.Output
	for _, id := range set {
		s, out, err := NewSignState(vvIDs(set), eddsa.NewSecretShare(party.ID(id), zzvv.Scalar(k.secret[id])), k.pub, msg, 0)
		if !h.Check(err == nil, "signing session of %d in %v of %v with threshold %d: %v", id, set, k.ids, th, err) {
			return
		}
		ps, outs = append(ps, s), append(outs, out)
	}
	h.Sample("signers %v of %v threshold %d message %x", set, k.ids, th, msg)
	vvPump(h, ps)
	for i, id := range set {
		if !h.Check(ps[i].IsFinished() && ps[i].Err() == nil, "signing of %d in %v of %v, threshold %d, message %x, honest signers: finished %v, error %v", id, set, k.ids, th, msg, ps[i].IsFinished(), ps[i].Err()) {
			return
		}
		if !h.Check(outs[i] != nil && outs[i].Signature != nil, "signing of %d in %v of %v, threshold %d, message %x: no signature", id, set, k.ids, th, msg) {
			return
		}
		sig := outs[i].Signature
		h.Check(ed25519.Verify(ed25519.PublicKey(vvEdKey(k.group)), msg, sig.ToEd25519()), "signing of %d in %v of %v, threshold %d: the signature is not one of message %x", id, set, k.ids, th, msg)
		h.Check(string(sig.ToEd25519()) == string(outs[0].Signature.ToEd25519()), "signers %d and %d of %v have different signatures", id, set[0], set)
	}
}

func TestVVFrost(t *testing.T) {
	h := zzvv.New(t)
	n := 40
	if vvProp == "C18" {
		n = 300
	}
	for i := 0; i < h.N(n) && !h.Failed(); i++ {
		h.Catch("sessions", func() {
			n := 2 + h.R.Intn(4)
			th := 1 + h.R.Intn(n-1)
			switch vvProp {
			case "C18":
				vvStart(h)
			case "C03":
				vvKeygen(h, n, th)
			default:
				vvSign(h, n, th)
			}
		})
	}
}
