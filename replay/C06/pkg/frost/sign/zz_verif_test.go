package sign

import (
	"bytes"
	"math/big"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zzvv"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

const vvProp = "C06"

func vvOn(ps ...string) bool {
	for _, p := range ps {
		if p == vvProp {
			return true
		}
	}
	return false
}

func vvElement(p zzvv.Pt) *ristretto.Element {
	e := ristretto.NewIdentityElement()
	if _, err := e.SetCanonicalBytes(p.EncodeR()); err != nil {
		panic(err)
	}
	return e
}

// vvKeys is a consistent sharing and a set of signers.
type vvKeys struct {
	t       int
	all     []int64
	signers []int64
	coef    []*big.Int
	msg     []byte
	pub     *eddsa.Public
	secret  map[int64]*big.Int
}

func vvNewKeys(h *zzvv.H, n, t int) *vvKeys {
	k := &vvKeys{t: t, all: h.IDs(n), secret: map[int64]*big.Int{}, msg: h.Bytes(h.R.Intn(200))}
	for i := 0; i <= t; i++ {
		k.coef = append(k.coef, h.RandScalar())
	}
	for k.coef[0].Sign() == 0 {
		k.coef[0] = h.RandScalar()
	}
	shares := map[party.ID]*ristretto.Element{}
	for _, id := range k.all {
		k.secret[id] = zzvv.Poly(k.coef, zzvv.I(id))
		shares[party.ID(id)] = vvElement(zzvv.Base(k.secret[id]))
	}
	var err error
	if k.pub, err = eddsa.NewPublic(shares, party.Size(t)); err != nil {
		panic(err)
	}
	m := t + 1 + h.R.Intn(n-t)
	for _, i := range h.R.Perm(n)[:m] {
		k.signers = append(k.signers, k.all[i])
	}
	k.signers = vvSorted(k.signers)
	return k
}

func vvSorted(a []int64) []int64 {
	b := append([]int64{}, a...)
	for i := range b {
		for j := i; j > 0 && b[j] < b[j-1]; j-- {
			b[j], b[j-1] = b[j-1], b[j]
		}
	}
	return b
}

func vvSlice(a []int64) party.IDSlice {
	s := make(party.IDSlice, len(a))
	for i, x := range a {
		s[i] = party.ID(x)
	}
	return s
}

func (k *vvKeys) share(id int64) *eddsa.SecretShare {
	return eddsa.NewSecretShare(party.ID(id), zzvv.Scalar(k.secret[id]))
}

// vvP is one signer and what is known about it.
type vvP struct {
	id     int64
	r0     *round0
	cur    state.Round
	out    *Output
	d, e   *big.Int
	D, E   zzvv.Pt
	rho, z *big.Int
	sent   []*messages.Message
	enc    [][]byte
}

func (p *vvP) hand(h *zzvv.H, ms []*messages.Message, typ messages.MessageType) *messages.Message {
	if !h.Check(len(ms) == 1, "party %d hands out %d messages, want 1", p.id, len(ms)) {
		return nil
	}
	m := ms[0]
	if vvOn("C22", "C02") {
		h.Check(int64(m.From) == p.id && m.To == 0 && m.Type == typ, "party %d hands out a message from %d to %d of type %d", p.id, m.From, m.To, m.Type)
	}
	b, err := m.MarshalBinary()
	if !h.Check(err == nil, "party %d: message does not encode: %v", p.id, err) {
		return nil
	}
	p.sent = append(p.sent, m)
	p.enc = append(p.enc, b)
	return m
}

func vvRecode(b []byte) *messages.Message {
	var m messages.Message
	if err := m.UnmarshalBinary(b); err != nil {
		panic(err)
	}
	return &m
}

// vvOpen starts all signers and runs round 0.
func (k *vvKeys) open(h *zzvv.H) []*vvP {
	var ps []*vvP
	for _, id := range k.signers {
		r, out, err := NewRound(vvSlice(k.signers), k.share(id), k.pub, k.msg)
		if !h.Check(err == nil && r != nil, "session of %d in %v (threshold %d) refused: %v", id, k.signers, k.t, err) {
			return nil
		}
		p := &vvP{id: id, r0: r.(*round0), cur: r, out: out}
		tape, restore := h.NewTape()
		ms, e := r.GenerateMessages()
		restore()
		if !h.Check(e == nil, "round 0 of %d: %v", id, e) {
			return nil
		}
		m := p.hand(h, ms, messages.MessageTypeSign1)
		if m == nil {
			return nil
		}
		ch := tape.Chunks()
		D, okD := zzvv.DecodeR(m.Sign1.Di.Bytes())
		E, okE := zzvv.DecodeR(m.Sign1.Ei.Bytes())
		if !h.Check(okD && okE, "nonce commitments of %d do not decode", id) {
			return nil
		}
		p.D, p.E = D, E
		if len(ch) == 2 && len(tape.Data) == 128 {
			p.d, p.e = ch[0], ch[1]
			if !zzvv.Base(ch[0]).EqR(D) {
				p.d, p.e = ch[1], ch[0]
			}
		}
		if vvOn("C23") {
			h.Check(len(tape.Data) == 128, "party %d drew %d bytes for two nonces, want 128", id, len(tape.Data))
			if p.d != nil {
				h.Check(zzvv.Base(p.d).EqR(D) && zzvv.Base(p.e).EqR(E), "nonce commitments of %d are not those of the two scalars drawn (%x, %x)", id, ch[0], ch[1])
			}
		}
		ps = append(ps, p)
	}
	// the model
	list := []byte{}
	for _, p := range ps {
		list = append(list, zzvv.Cat(zzvv.BE16(int(p.id)), p.D.EncodeR(), p.E.EncodeR())...)
	}
	for _, p := range ps {
		p.rho = zzvv.HashScalar([]byte("FROST-SHA512"), zzvv.BE16(int(p.id)), zzvv.Sha512(k.msg), list)
	}
	return ps
}

func (k *vvKeys) commitment(ps []*vvP) (R zzvv.Pt, c *big.Int) {
	R = zzvv.Base(zzvv.I(0))
	for _, p := range ps {
		R = R.Add(p.D.Add(p.E.Mul(p.rho)))
	}
	A := zzvv.Base(k.coef[0])
	c = zzvv.HashScalar(R.TorsionFree().EncodeEd(), A.TorsionFree().EncodeEd(), k.msg)
	return
}

func vvNext(h *zzvv.H, p *vvP) bool {
	p.cur = p.cur.NextRound()
	return h.Check(p.cur != nil, "party %d has no next round", p.id)
}

// deliver hands message i of every other party to p, in random order.
func vvDeliver(h *zzvv.H, p *vvP, ps []*vvP, i int) bool {
	for _, j := range h.R.Perm(len(ps)) {
		q := ps[j]
		if q == p {
			continue
		}
		e := p.cur.ProcessMessage(vvRecode(q.enc[i]))
		if vvOn("C02", "C06") {
			if !h.Check(e == nil, "party %d rejects the honest message %d of %d: %v", p.id, i, q.id, e) {
				return false
			}
		} else if e != nil {
			return false
		}
	}
	return true
}

func (k *vvKeys) verify(sig *eddsa.Signature) bool {
	R, ok := zzvv.DecodeR(sig.R.Bytes())
	if !ok {
		return false
	}
	A := zzvv.Base(k.coef[0])
	c := zzvv.HashScalar(R.TorsionFree().EncodeEd(), A.TorsionFree().EncodeEd(), k.msg)
	return zzvv.Base(zzvv.Big(&sig.S)).EqR(R.Add(A.Mul(c))) && k.pub.GroupKey.Verify(k.msg, sig)
}

func vvZero(s *ristretto.Scalar) bool { return zzvv.Big(s).Sign() == 0 }

// end resets the session of p as the state does at its end.
func vvEnd(h *zzvv.H, p *vvP, stage string) {
	if !vvOn("C15", "C22", "C01") {
		return
	}
	var sg []*signer
	for _, s := range p.r0.Parties {
		sg = append(sg, s)
	}
	var sig []byte
	had := p.out.Signature
	if had != nil {
		sig, _ = had.MarshalBinary()
	}
	p.r0.Reset()
	if vvOn("C15") {
		h.Check(vvZero(&p.r0.SecretKeyShare), "%s: the secret key share of %d is not wiped", stage, p.id)
		h.Check(vvZero(&p.r0.d) && vvZero(&p.r0.e), "%s: the nonces of %d are not wiped", stage, p.id)
		for _, s := range sg {
			h.Check(vvZero(&s.Zi), "%s: a signature share held by %d is not wiped", stage, p.id)
		}
	}
	if had != nil {
		b, _ := had.MarshalBinary()
		h.Check(p.out.Signature == had && bytes.Equal(b, sig), "%s: the signature handed out by %d changed from %x to %x", stage, p.id, sig, b)
	}
	if vvOn("C22") {
		for i, m := range p.sent {
			b, err := m.MarshalBinary()
			h.Check(err == nil && bytes.Equal(b, p.enc[i]), "%s: message %d of party %d changed after it was handed out: %x, was %x", stage, i, p.id, b, p.enc[i])
		}
	}
}

func vvHonest(h *zzvv.H, n, t int) {
	k := vvNewKeys(h, n, t)
	h.Case(true)
	h.Sample("signers %v of %v, threshold %d, message of %d bytes", k.signers, k.all, t, len(k.msg))
	stop := 3
	if vvOn("C15", "C22") {
		stop = h.R.Intn(4)
	}
	ps := k.open(h)
	if ps == nil || h.Failed() {
		return
	}
	if stop == 0 {
		vvEnd(h, ps[0], "after round 0")
		return
	}
	R, c := k.commitment(ps)
	lagr := func(id int64) *big.Int { return zzvv.Lagrange(id, k.signers) }
	for _, p := range ps {
		if !vvNext(h, p) || !vvDeliver(h, p, ps, 0) {
			return
		}
		if stop == 1 && p == ps[0] {
			vvEnd(h, p, "in round 1")
			return
		}
		ms, e := p.cur.GenerateMessages()
		if !h.Check(e == nil, "round 1 of %d: %v", p.id, e) {
			return
		}
		m := p.hand(h, ms, messages.MessageTypeSign2)
		if m == nil {
			return
		}
		if vvOn("C07") {
			for _, q := range ps {
				h.Check(zzvv.Big(&p.r0.Parties[party.ID(q.id)].Pi).Cmp(q.rho) == 0, "binding factor of %d as computed by %d: %x, want %x", q.id, p.id, p.r0.Parties[party.ID(q.id)].Pi.Bytes(), zzvv.ToLE(q.rho, 32))
			}
		}
		if vvOn("C02", "C23") && p.d != nil {
			z := zzvv.SAdd(p.d, zzvv.SAdd(zzvv.SMul(p.e, p.rho), zzvv.SMul(zzvv.SMul(lagr(p.id), k.secret[p.id]), c)))
			h.Check(zzvv.Big(&m.Sign2.Zi).Cmp(z) == 0, "share of %d: %x, want d + e rho + lambda s c = %x", p.id, m.Sign2.Zi.Bytes(), zzvv.ToLE(z, 32))
		}
		if vvOn("C02") {
			h.Check(bytes.Equal(p.r0.R.Bytes(), R.EncodeR()), "group commitment of %d: %x, want %x", p.id, p.r0.R.Bytes(), R.EncodeR())
		}
		if h.Failed() {
			return
		}
	}
	for _, p := range ps {
		if !vvNext(h, p) || !vvDeliver(h, p, ps, 1) {
			return
		}
		if stop == 2 {
			vvEnd(h, p, "in round 2")
			return
		}
		if vvOn("C06") {
			for _, q := range ps {
				if q != p {
					h.Check(p.r0.Parties[party.ID(q.id)].Zi.Equal(&q.sent[1].Sign2.Zi) == 1, "party %d did not keep the share of %d", p.id, q.id)
				}
			}
		}
		_, e := p.cur.GenerateMessages()
		if vvOn("C02") {
			h.Check(e == nil && p.out.Signature != nil, "party %d has no signature: %v", p.id, e)
		}
		if vvOn("C01", "C02") {
			if e != nil {
				h.Check(p.out.Signature == nil, "party %d aborts and releases a signature", p.id)
			} else if h.Check(p.out.Signature != nil, "party %d finishes without a signature", p.id) {
				h.Check(k.verify(p.out.Signature), "party %d: signature on %x does not verify", p.id, k.msg)
			}
		}
		vvEnd(h, p, "at the end")
		if h.Failed() {
			return
		}
	}
}

// vvInvalid: the aggregate cannot be valid; nothing may be released and nobody blamed.
func vvInvalid(h *zzvv.H, n, t int) {
	k := vvNewKeys(h, n, t)
	h.Case(true)
	ps := k.open(h)
	if ps == nil || h.Failed() {
		return
	}
	p := ps[h.R.Intn(len(ps))]
	kind := h.R.Intn(4)
	h.Sample("signers %v, kind %d", k.signers, kind)
	delta := h.RandScalar()
	for delta.Sign() == 0 {
		delta = h.RandScalar()
	}
	if kind == 0 { // own key material does not belong to the group key
		p.r0.SecretKeyShare.Add(&p.r0.SecretKeyShare, zzvv.Scalar(delta))
	}
	for _, q := range ps {
		if !vvNext(h, q) || !vvDeliver(h, q, ps, 0) {
			return
		}
		ms, e := q.cur.GenerateMessages()
		if e != nil {
			return
		}
		if q.hand(h, ms, messages.MessageTypeSign2) == nil {
			return
		}
	}
	if !vvNext(h, p) {
		return
	}
	for _, q := range ps {
		if q == p {
			continue
		}
		id := party.ID(q.id)
		if kind == 1 && q == ps[len(ps)-1] || kind == 1 && q == ps[0] { // a share that was not checked
			p.r0.Parties[id].Zi.Add(&q.sent[1].Sign2.Zi, zzvv.Scalar(delta))
			continue
		}
		if e := p.cur.ProcessMessage(vvRecode(q.enc[1])); e != nil {
			return
		}
	}
	switch kind {
	case 2:
		p.r0.Parties[party.ID(p.id)].Zi.Add(&p.r0.Parties[party.ID(p.id)].Zi, zzvv.Scalar(delta))
	case 3:
		p.r0.R.Add(&p.r0.R, vvElement(zzvv.Base(delta)))
	}
	_, e := p.cur.GenerateMessages()
	if e != nil {
		h.Check(p.out.Signature == nil, "kind %d: party %d aborts and releases a signature", kind, p.id)
		h.Check(e.PartyID == 0, "kind %d: party %d blames %d for an invalid aggregate", kind, p.id, e.PartyID)
		return
	}
	if h.Check(p.out.Signature != nil, "kind %d: party %d finishes without a signature", kind, p.id) {
		h.Check(k.verify(p.out.Signature), "kind %d: party %d of %v releases an invalid signature on %x", kind, p.id, k.signers, k.msg)
	}
}

// vvCheat: bad contributions of one sender.
func vvCheat(h *zzvv.H, n, t int) {
	k := vvNewKeys(h, n, t)
	if len(k.signers) < 2 {
		return
	}
	h.Case(true)
	ps := k.open(h)
	if ps == nil || h.Failed() {
		return
	}
	i := h.R.Intn(len(ps))
	j := (i + 1 + h.R.Intn(len(ps)-1)) % len(ps)
	p, q := ps[i], ps[j]
	kind := h.R.Intn(10)
	h.Sample("signers %v, %d cheats %d, kind %d", k.signers, q.id, p.id, kind)
	blame := func(e *state.Error, what string) {
		if h.Check(e != nil, "kind %d: %s of %d accepted by %d", kind, what, q.id, p.id) {
			h.Check(int64(e.PartyID) == q.id, "kind %d: %s of %d: %d is blamed", kind, what, q.id, e.PartyID)
		}
	}
	if kind < 3 {
		vvNext(h, p)
		m := vvRecode(q.enc[0])
		id := ristretto.NewIdentityElement()
		if kind != 1 {
			m.Sign1.Di.Set(id)
		}
		if kind != 0 {
			m.Sign1.Ei.Set(id)
		}
		blame(p.cur.ProcessMessage(m), "identity nonce commitment")
		return
	}
	for _, a := range ps {
		if !vvNext(h, a) || !vvDeliver(h, a, ps, 0) {
			return
		}
		ms, e := a.cur.GenerateMessages()
		if e != nil || a.hand(h, ms, messages.MessageTypeSign2) == nil {
			return
		}
	}
	if !vvNext(h, p) {
		return
	}
	m := vvRecode(q.enc[1])
	good := zzvv.Big(&m.Sign2.Zi)
	bad := good
	switch kind {
	case 3:
		bad = zzvv.SAdd(good, zzvv.I(1))
	case 4:
		bad = zzvv.I(0)
	case 5:
		bad = h.RandScalar()
	case 6:
		bad = zzvv.SSub(zzvv.I(0), good)
	case 7: // the share of someone else
		bad = zzvv.Big(&p.sent[1].Sign2.Zi)
	case 8:
		bad = zzvv.SAdd(good, zzvv.SSub(zzvv.I(0), zzvv.I(1)))
	case 9: // valid without the Lagrange coefficient only
		_, c := k.commitment(ps)
		l := zzvv.Lagrange(q.id, k.signers)
		bad = zzvv.SAdd(good, zzvv.SMul(zzvv.SMul(zzvv.SSub(zzvv.I(1), l), k.secret[q.id]), c))
	}
	if bad.Cmp(good) == 0 {
		return
	}
	m.Sign2.Zi.Set(zzvv.Scalar(bad))
	blame(p.cur.ProcessMessage(m), "wrong share")
}

// vvStart: which configurations are accepted.
func vvStart(h *zzvv.H) {
	n := 2 + h.R.Intn(5)
	t := 1 + h.R.Intn(n-1)
	k := vvNewKeys(h, n, t)
	for c := 0; c < 12; c++ {
		h.Case(true)
		var set []int64
		m := h.R.Intn(n + 2)
		for i := 0; i < m; i++ {
			switch h.R.Intn(8) {
			case 0:
				set = append(set, int64(h.R.Intn(65536)))
			default:
				set = append(set, k.all[h.R.Intn(n)])
			}
		}
		if h.R.Intn(3) > 0 {
			set = vvDedup(vvSorted(set))
		}
		if h.R.Intn(10) == 0 {
			set = append([]int64{0}, set...)
		}
		self := k.all[h.R.Intn(n)]
		if h.R.Intn(3) > 0 && len(set) > 0 {
			self = set[h.R.Intn(len(set))]
		}
		want := len(set) > t
		in := false
		for i, x := range set {
			if x == 0 || i > 0 && set[i-1] >= x || k.secret[x] == nil {
				want = false
			}
			in = in || x == self
		}
		want = want && in
		s := k.secret[self]
		if s == nil {
			s = zzvv.I(7)
		}
		h.Sample("signers %v self %d of %v threshold %d", set, self, k.all, t)
		r, out, err := NewRound(vvSlice(set), eddsa.NewSecretShare(party.ID(self), zzvv.Scalar(s)), k.pub, k.msg)
		h.Check((err == nil) == want, "signers %v, self %d, parties %v, threshold %d: error %v, acceptable %v", set, self, k.all, t, err, want)
		h.Check((r != nil) == (err == nil) && (out != nil) == (err == nil), "signers %v, self %d: session %v, output %v, error %v", set, self, r != nil, out != nil, err)
	}
}

func vvDedup(a []int64) (out []int64) {
	for i, x := range a {
		if i == 0 || a[i-1] != x {
			out = append(out, x)
		}
	}
	return
}

// vvMany: many signers, as seen by the binding factors.
func vvMany(h *zzvv.H, n int) {
	h.Case(true)
	ids := h.IDs(n)
	base := &state.BaseRound{}
	b, err := state.NewBaseRound(party.ID(ids[0]), vvSlice(ids))
	if err != nil {
		panic(err)
	}
	base = b
	r := &round1{&round0{BaseRound: base, Message: h.Bytes(40), Parties: map[party.ID]*signer{}}}
	list := []byte{}
	two := [2]*ristretto.Element{vvElement(zzvv.Base(h.RandScalar())), vvElement(zzvv.Base(h.RandScalar()))}
	for _, id := range ids {
		s := &signer{}
		x, y := h.R.Intn(2), h.R.Intn(2)
		s.Di.Set(two[x])
		s.Ei.Set(two[y])
		r.Parties[party.ID(id)] = s
		list = append(list, zzvv.Cat(zzvv.BE16(int(id)), two[x].Bytes(), two[y].Bytes())...)
	}
	r.computeRhos()
	for _, id := range ids {
		rho := zzvv.HashScalar([]byte("FROST-SHA512"), zzvv.BE16(int(id)), zzvv.Sha512(r.Message), list)
		if !h.Check(zzvv.Big(&r.Parties[party.ID(id)].Pi).Cmp(rho) == 0, "%d signers: binding factor of %d is %x, want %x", n, id, r.Parties[party.ID(id)].Pi.Bytes(), zzvv.ToLE(rho, 32)) {
			return
		}
	}
}

func TestVVSign(t *testing.T) {
	h := zzvv.New(t)
	for i := 0; i < h.N(60) && !h.Failed(); i++ {
		h.Catch("sign", func() {
			n := 2 + h.R.Intn(4)
			th := 1 + h.R.Intn(n-1)
			switch {
			case vvOn("C18"):
				for j := 0; j < 20; j++ {
					vvStart(h)
				}
			case vvOn("C06") && i%3 > 0:
				vvCheat(h, n, th)
			case vvOn("C01") && i%3 > 0:
				vvInvalid(h, n, th)
			default:
				vvHonest(h, n, th)
			}
		})
	}
	if vvOn("C07") && !h.Failed() {
		h.Catch("many signers", func() {
			for _, n := range []int{16, 255, 300, 992, 993, 1200} {
				vvMany(h, n)
			}
		})
	}
}
