package keygen

import (
	"bytes"
	"math/big"
	"reflect"
	"testing"
	"unsafe"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zk"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zzvv"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

const vvProp = "C03"

func vvOn(ps ...string) bool {
	for _, p := range ps {
		if p == vvProp {
			return true
		}
	}
	return false
}

func vvSlice(a []int64) party.IDSlice {
	s := make(party.IDSlice, len(a))
	for i, x := range a {
		s[i] = party.ID(x)
	}
	return s
}

func vvElement(p zzvv.Pt) *ristretto.Element {
	e := ristretto.NewIdentityElement()
	if _, err := e.SetCanonicalBytes(p.EncodeR()); err != nil {
		panic(err)
	}
	return e
}

// vvPoints are the committed coefficients.
func vvPoints(e *polynomial.Exponent) ([]zzvv.Pt, bool) {
	b, err := e.MarshalBinary()
	if err != nil || len(b) < 2 || (len(b)-2)%32 != 0 {
		return nil, false
	}
	var out []zzvv.Pt
	for i := 2; i < len(b); i += 32 {
		p, ok := zzvv.DecodeR(b[i : i+32])
		if !ok {
			return nil, false
		}
		out = append(out, p)
	}
	return out, true
}

func vvExponent(ps []zzvv.Pt) *polynomial.Exponent {
	b := zzvv.BE16(len(ps) - 1)
	for _, p := range ps {
		b = append(b, p.EncodeR()...)
	}
	var e polynomial.Exponent
	if err := e.UnmarshalBinary(b); err != nil {
		panic(err)
	}
	return &e
}

func vvEval(c []zzvv.Pt, x *big.Int) zzvv.Pt {
	r := zzvv.Base(zzvv.I(0))
	for i := len(c) - 1; i >= 0; i-- {
		r = r.Mul(x).Add(c[i])
	}
	return r
}

type vvP struct {
	id   int64
	r0   *round0
	cur  state.Round
	out  *Output
	ids  party.IDSlice
	com  []zzvv.Pt  // its commitments
	coef []*big.Int // their logarithms when known
	sent []*messages.Message
	enc  [][]byte
}

func vvRecode(b []byte) *messages.Message {
	var m messages.Message
	if err := m.UnmarshalBinary(b); err != nil {
		panic(err)
	}
	return &m
}

func (p *vvP) keep(h *zzvv.H, m *messages.Message) bool {
	b, err := m.MarshalBinary()
	if !h.Check(err == nil, "party %d: message does not encode: %v", p.id, err) {
		return false
	}
	p.sent = append(p.sent, m)
	p.enc = append(p.enc, b)
	return true
}

func vvOpen(h *zzvv.H, ids []int64, t int) []*vvP {
	var ps []*vvP
	for _, id := range ids {
		p := &vvP{id: id, ids: vvSlice(ids)}
		r, out, err := NewRound(party.ID(id), p.ids, party.Size(t))
		if !h.Check(err == nil && r != nil && out != nil, "session of %d in %v with threshold %d refused: %v", id, ids, t, err) {
			return nil
		}
		p.r0, p.cur, p.out = r.(*round0), r, out
		tape, restore := h.NewTape()
		ms, e := r.GenerateMessages()
		restore()
		if !h.Check(e == nil && len(ms) == 1 && ms[0].KeyGen1 != nil, "round 0 of %d: %v, %d messages", id, e, len(ms)) {
			return nil
		}
		m := ms[0]
		if vvOn("C22") {
			h.Check(int64(m.From) == id && m.To == 0 && m.Type == messages.MessageTypeKeyGen1, "party %d broadcasts a message from %d to %d of type %d", id, m.From, m.To, m.Type)
		}
		var ok bool
		p.com, ok = vvPoints(m.KeyGen1.Commitments)
		if !h.Check(ok && len(p.com) == t+1, "commitments of %d: %d of them for threshold %d", id, len(p.com), t) || !p.keep(h, m) {
			return nil
		}
		// the logarithms, among what was drawn
		ch := tape.Chunks()
		used := map[int]bool{}
		find := func(q zzvv.Pt) *big.Int {
			for i, x := range ch {
				if !used[i] && zzvv.Base(x).EqR(q) {
					used[i] = true
					return x
				}
			}
			return nil
		}
		for _, q := range p.com {
			x := find(q)
			if x == nil {
				p.coef = nil
				break
			}
			p.coef = append(p.coef, x)
		}
		if vvOn("C23") {
			h.Check(len(tape.Data) == 64*(t+2), "party %d, threshold %d: %d bytes drawn, want %d", id, t, len(tape.Data), 64*(t+2))
			if h.Check(p.coef != nil, "party %d, threshold %d: the %d commitments are not those of distinct 64 byte draws", id, t, len(p.com)) {
				k := zzvv.SSub(zzvv.Big(&m.KeyGen1.Proof.R), zzvv.SMul(p.coef[0], zzvv.Big(&m.KeyGen1.Proof.S)))
				h.Check(find(zzvv.Base(k)) != nil, "party %d, threshold %d: the proof nonce %v is not a 64 byte draw of its own", id, t, k)
			}
		}
		ps = append(ps, p)
	}
	return ps
}

func vvNext(h *zzvv.H, p *vvP) bool {
	p.cur = p.cur.NextRound()
	return h.Check(p.cur != nil, "party %d has no next round", p.id)
}

func (p *vvP) shareFor(id int64) []byte {
	for i, m := range p.sent {
		if m.Type == messages.MessageTypeKeyGen2 && int64(m.To) == id {
			return p.enc[i]
		}
	}
	return nil
}

// vvCoefs is the memory that held the coefficients of a secret polynomial.
func vvCoefs(p *polynomial.Polynomial) []ristretto.Scalar {
	if p == nil {
		return nil
	}
	f := reflect.ValueOf(p).Elem().FieldByName("coefficients")
	if !f.IsValid() || f.Type() != reflect.TypeOf([]ristretto.Scalar{}) {
		return nil
	}
	return *(*[]ristretto.Scalar)(unsafe.Pointer(f.UnsafeAddr()))
}

func vvZero(s *ristretto.Scalar) bool { return zzvv.Big(s).Sign() == 0 }

func vvOutput(out *Output) []byte {
	if out.Public == nil || out.SecretKey == nil {
		return nil
	}
	b := zzvv.Cat(out.Public.GroupKey.ToEd25519(), zzvv.BE16(int(out.Public.Threshold)))
	for _, id := range out.Public.PartyIDs {
		b = zzvv.Cat(b, zzvv.BE16(int(id)))
		if s := out.Public.Shares[id]; s != nil {
			b = zzvv.Cat(b, s.Bytes())
		}
	}
	return zzvv.Cat(b, zzvv.BE16(int(out.SecretKey.ID)), out.SecretKey.Secret.Bytes(), out.SecretKey.Public.Bytes())
}

func vvEnd(h *zzvv.H, p *vvP, stage string) {
	if !vvOn("C15", "C22") {
		return
	}
	coefs := vvCoefs(p.r0.Polynomial)
	before := vvOutput(p.out)
	p.r0.Reset()
	if vvOn("C15") {
		h.Check(vvZero(&p.r0.Secret), "%s: the secret of %d is not wiped", stage, p.id)
		for i := range coefs {
			h.Check(vvZero(&coefs[i]), "%s: coefficient %d of the secret polynomial of %d is not wiped", stage, i, p.id)
		}
	}
	h.Check(bytes.Equal(before, vvOutput(p.out)), "%s: the output handed out by %d changed from %x to %x", stage, p.id, before, vvOutput(p.out))
	if vvOn("C22") {
		for i, m := range p.sent {
			b, err := m.MarshalBinary()
			h.Check(err == nil && bytes.Equal(b, p.enc[i]), "%s: message %d of party %d changed after it was handed out: %x, was %x", stage, i, p.id, b, p.enc[i])
		}
	}
}

// vvDealer replaces the messages of p by those of the polynomial coef.
func (p *vvP) dealer(ids []int64, coef []*big.Int, proofID int64) {
	p.coef, p.com = coef, nil
	for _, c := range coef {
		p.com = append(p.com, zzvv.Base(c))
	}
	proof := zk.NewSchnorrProof(party.ID(proofID), vvElement(p.com[0]), make([]byte, 32), zzvv.Scalar(coef[0]))
	p.sent = []*messages.Message{messages.NewKeyGen1(party.ID(p.id), proof, vvExponent(p.com))}
	for _, id := range ids {
		if id != p.id {
			p.sent = append(p.sent, messages.NewKeyGen2(party.ID(p.id), party.ID(id), zzvv.Scalar(zzvv.Poly(coef, zzvv.I(id)))))
		}
	}
	p.enc = nil
	for _, m := range p.sent {
		b, err := m.MarshalBinary()
		if err != nil {
			panic(err)
		}
		p.enc = append(p.enc, b)
	}
}

func vvRun(h *zzvv.H, n, t int) {
	ids := h.IDs(n)
	h.Case(true)
	h.Sample("parties %v, threshold %d", ids, t)
	ps := vvOpen(h, ids, t)
	if ps == nil || h.Failed() {
		return
	}
	stop := 9
	if vvOn("C15", "C22") {
		stop = h.R.Intn(5)
	}
	if stop == 0 {
		vvEnd(h, ps[0], "after round 0")
		return
	}
	var odd *vvP
	if vvOn("C03", "C04") && h.R.Intn(3) == 0 { // an unusual but correct dealer
		odd = ps[h.R.Intn(n)]
		var coef []*big.Int
		for i := 0; i <= t; i++ {
			coef = append(coef, h.RandScalar())
		}
		switch h.R.Intn(4) {
		case 0:
			coef[0] = zzvv.I(0)
		case 1:
			coef[t] = zzvv.I(0)
		case 2:
			for i := range coef {
				coef[i] = zzvv.I(0)
			}
		case 3:
			for _, q := range ps {
				if q != odd && q.coef != nil {
					coef = q.coef
				}
			}
		}
		odd.dealer(ids, coef, odd.id)
	}
	for _, p := range ps {
		if p == odd {
			continue
		}
		if !vvNext(h, p) {
			return
		}
		for _, j := range h.R.Perm(n) {
			if q := ps[j]; q != p {
				e := p.cur.ProcessMessage(vvRecode(q.enc[0]))
				if e != nil {
					h.Check(!vvOn("C03", "C04"), "party %d rejects the commitments of honest dealer %d: %v", p.id, q.id, e)
					return
				}
			}
		}
		if stop == 1 {
			vvEnd(h, p, "in round 1")
			return
		}
		ms, e := p.cur.GenerateMessages()
		if !h.Check(e == nil, "round 1 of %d: %v", p.id, e) {
			return
		}
		to := map[int64]int{}
		for _, m := range ms {
			to[int64(m.To)]++
			if vvOn("C22") {
				h.Check(int64(m.From) == p.id && m.Type == messages.MessageTypeKeyGen2 && m.KeyGen2 != nil, "party %d sends a message from %d to %d of type %d", p.id, m.From, m.To, m.Type)
			}
			if vvOn("C22", "C03") && p.coef != nil && m.KeyGen2 != nil {
				want := zzvv.Poly(p.coef, zzvv.I(int64(m.To)))
				h.Check(zzvv.Big(&m.KeyGen2.Share).Cmp(want) == 0, "share of %d for %d: %x, want %x", p.id, m.To, m.KeyGen2.Share.Bytes(), zzvv.ToLE(want, 32))
			}
			if h.Failed() || !p.keep(h, m) {
				return
			}
		}
		if vvOn("C22") {
			for _, id := range ids {
				want := 1
				if id == p.id {
					want = 0
				}
				h.Check(to[id] == want, "party %d sends %d shares to %d, want %d", p.id, to[id], id, want)
			}
			h.Check(len(ms) == n-1, "party %d sends %d shares, want %d", p.id, len(ms), n-1)
		}
		if stop == 2 {
			vvEnd(h, p, "after round 1")
			return
		}
	}
	for _, p := range ps {
		if p == odd {
			continue
		}
		if !vvNext(h, p) {
			return
		}
		sum := zzvv.I(0)
		if p.coef != nil {
			sum = zzvv.Poly(p.coef, zzvv.I(p.id))
		}
		for i, j := range h.R.Perm(n) {
			q := ps[j]
			if q == p {
				continue
			}
			b := q.shareFor(p.id)
			if b == nil {
				return
			}
			m := vvRecode(b)
			sum = zzvv.SAdd(sum, zzvv.Big(&m.KeyGen2.Share))
			e := p.cur.ProcessMessage(m)
			if e != nil {
				h.Check(!vvOn("C03", "C04"), "party %d rejects the share of honest dealer %d: %v", p.id, q.id, e)
				return
			}
			if vvOn("C15") {
				h.Check(vvZero(&m.KeyGen2.Share), "the share of %d is not wiped after %d processed it", q.id, p.id)
			}
			if stop == 3 && i == n-2 {
				vvEnd(h, p, "in round 2")
				return
			}
		}
		ms, e := p.cur.GenerateMessages()
		if !h.Check(e == nil && len(ms) == 0, "round 2 of %d: %v, %d messages", p.id, e, len(ms)) {
			return
		}
		if !h.Check(p.out.Public != nil && p.out.SecretKey != nil, "party %d has no output", p.id) {
			return
		}
		if vvOn("C03") {
			vvCheckOutput(h, p, ps, ids, t, sum)
		}
		vvEnd(h, p, "at the end")
		if h.Failed() {
			return
		}
	}
}

func vvCheckOutput(h *zzvv.H, p *vvP, ps []*vvP, ids []int64, t int, sum *big.Int) {
	pub, sk := p.out.Public, p.out.SecretKey
	total := make([]zzvv.Pt, t+1)
	for i := range total {
		total[i] = zzvv.Base(zzvv.I(0))
		for _, q := range ps {
			total[i] = total[i].Add(q.com[i])
		}
	}
	h.Check(int(pub.Threshold) == t, "party %d: threshold %d, want %d", p.id, pub.Threshold, t)
	h.Check(reflect.DeepEqual([]party.ID(pub.PartyIDs), []party.ID(vvSlice(ids))), "party %d: parties %v, want %v", p.id, pub.PartyIDs, ids)
	h.Check(len(pub.Shares) == len(ids), "party %d: %d public shares, want %d", p.id, len(pub.Shares), len(ids))
	g, ok := zzvv.DecodeEd(pub.GroupKey.ToEd25519())
	h.Check(ok && g.EqR(total[0]), "party %d: group key %x is not the sum of the constant terms %x", p.id, []byte(pub.GroupKey.ToEd25519()), total[0].TorsionFree().EncodeEd())
	for _, id := range ids {
		s := pub.Shares[party.ID(id)]
		want := vvEval(total, zzvv.I(id)).EncodeR()
		if h.Check(s != nil, "party %d: no public share of %d", p.id, id) {
			h.Check(bytes.Equal(s.Bytes(), want), "party %d: public share of %d is %x, want %x", p.id, id, s.Bytes(), want)
		}
	}
	h.Check(int64(sk.ID) == p.id, "party %d: secret share of %d", p.id, sk.ID)
	if p.coef != nil {
		h.Check(zzvv.Big(&sk.Secret).Cmp(sum) == 0, "party %d: secret share %x, want the sum %x", p.id, sk.Secret.Bytes(), zzvv.ToLE(sum, 32))
	}
	own := zzvv.Base(zzvv.Big(&sk.Secret)).EncodeR()
	if s := pub.Shares[party.ID(p.id)]; s != nil {
		h.Check(bytes.Equal(s.Bytes(), own), "party %d: secret share %x does not match its public share", p.id, sk.Secret.Bytes())
	}
	h.Check(bytes.Equal(sk.Public.Bytes(), own), "party %d: secret share %x with public part %x", p.id, sk.Secret.Bytes(), sk.Public.Bytes())
}

// vvCheat: one dealer misbehaves towards p.
func vvCheat(h *zzvv.H, n, t int) {
	ids := h.IDs(n)
	h.Case(true)
	ps := vvOpen(h, ids, t)
	if ps == nil || h.Failed() {
		return
	}
	i := h.R.Intn(n)
	j := (i + 1 + h.R.Intn(n-1)) % n
	p, q := ps[i], ps[j]
	kind := h.R.Intn(14)
	h.Sample("parties %v, threshold %d, %d cheats %d, kind %d", ids, t, q.id, p.id, kind)
	coef := func(d int) (c []*big.Int) {
		for len(c) <= d {
			x := h.RandScalar()
			for x.Sign() == 0 {
				x = h.RandScalar()
			}
			c = append(c, x)
		}
		return
	}
	one := zzvv.I(1)
	switch kind {
	case 0: // proof for the receiver's identifier
		q.dealer(ids, coef(t), p.id)
	case 1: // degree too small
		q.dealer(ids, coef(t-1), q.id)
	case 2: // degree too large
		q.dealer(ids, coef(t+1), q.id)
	case 3: // degree far too large
		q.dealer(ids, coef(t+1+h.R.Intn(6)), q.id)
	case 4: // a larger degree that vanishes
		c := coef(t + 1)
		c[t+1] = zzvv.I(0)
		q.dealer(ids, c, q.id)
	default:
		q.dealer(ids, coef(t), q.id)
	}
	m := vvRecode(q.enc[0])
	switch kind {
	case 5:
		m.KeyGen1.Proof.S.Set(zzvv.Scalar(zzvv.SAdd(zzvv.Big(&m.KeyGen1.Proof.S), one)))
	case 6:
		m.KeyGen1.Proof.R.Set(zzvv.Scalar(zzvv.SAdd(zzvv.Big(&m.KeyGen1.Proof.R), one)))
	case 7: // the proof of another dealer
		m.KeyGen1.Proof = vvRecode(p.enc[0]).KeyGen1.Proof
	case 8: // a proof for another constant
		c := append([]zzvv.Pt{}, q.com...)
		c[0] = c[0].Add(zzvv.B)
		m.KeyGen1.Commitments = vvExponent(c)
	}
	vvNext(h, p)
	seq := h.R.Perm(n)
	for _, x := range seq {
		a := ps[x]
		if a == p {
			continue
		}
		if a != q {
			e := p.cur.ProcessMessage(vvRecode(a.enc[0]))
			if !h.Check(e == nil, "kind %d: party %d rejects the commitments of honest dealer %d: %v", kind, p.id, a.id, e) {
				return
			}
			continue
		}
		e := p.cur.ProcessMessage(m)
		if kind <= 8 {
			if h.Check(e != nil, "kind %d: bad commitments of %d accepted by %d (threshold %d)", kind, q.id, p.id, t) {
				h.Check(int64(e.PartyID) == q.id, "kind %d: %d is blamed for the bad commitments of %d", kind, e.PartyID, q.id)
			}
			return
		}
		if !h.Check(e == nil, "kind %d: party %d rejects the commitments of dealer %d: %v", kind, p.id, q.id, e) {
			return
		}
	}
	if _, e := p.cur.GenerateMessages(); e != nil {
		return
	}
	vvNext(h, p)
	for _, x := range h.R.Perm(n) {
		a := ps[x]
		if a == p {
			continue
		}
		if a != q {
			if a.coef == nil {
				continue
			}
			e := p.cur.ProcessMessage(messages.NewKeyGen2(party.ID(a.id), party.ID(p.id), zzvv.Scalar(zzvv.Poly(a.coef, zzvv.I(p.id)))))
			if !h.Check(e == nil, "kind %d: party %d rejects the share of honest dealer %d: %v", kind, p.id, a.id, e) {
				return
			}
			continue
		}
		good := zzvv.Poly(q.coef, zzvv.I(p.id))
		bad := good
		switch kind {
		case 9:
			bad = zzvv.SAdd(good, one)
		case 10:
			bad = zzvv.I(0)
		case 11: // the share of someone else
			bad = zzvv.Poly(q.coef, zzvv.I(q.id))
		case 12: // the constant term
			bad = q.coef[0]
		case 13:
			bad = zzvv.SSub(zzvv.I(0), good)
		}
		if bad.Cmp(good) == 0 {
			return
		}
		e := p.cur.ProcessMessage(messages.NewKeyGen2(party.ID(q.id), party.ID(p.id), zzvv.Scalar(bad)))
		if h.Check(e != nil, "kind %d: wrong share of %d accepted by %d", kind, q.id, p.id) {
			h.Check(int64(e.PartyID) == q.id, "kind %d: %d is blamed for the wrong share of %d", kind, e.PartyID, q.id)
		}
		return
	}
}

func vvStart(h *zzvv.H) {
	for c := 0; c < 30; c++ {
		h.Case(true)
		n := h.R.Intn(7)
		var ids []int64
		if n > 0 {
			ids = h.IDs(n)
		}
		switch h.R.Intn(6) {
		case 0:
			if n > 1 {
				i, j := h.R.Intn(n), h.R.Intn(n)
				ids[i], ids[j] = ids[j], ids[i]
			}
		case 1:
			if n > 1 {
				i := h.R.Intn(n - 1)
				ids[i] = ids[i+1]
			}
		case 2:
			if n > 0 {
				ids[0] = 0
			}
		}
		self := int64(h.R.Intn(5))
		if n > 0 && h.R.Intn(4) > 0 {
			self = ids[h.R.Intn(n)]
		}
		t := h.R.Intn(n + 3)
		if h.R.Intn(8) == 0 {
			t = 65535 - h.R.Intn(2)
		}
		want := t >= 1 && t <= n-1
		in := false
		for i, x := range ids {
			if x == 0 || i > 0 && ids[i-1] >= x {
				want = false
			}
			in = in || x == self
		}
		want = want && in
		h.Sample("parties %v self %d threshold %d", ids, self, t)
		r, out, err := NewRound(party.ID(self), vvSlice(ids), party.Size(t))
		h.Check((err == nil) == want, "parties %v, self %d, threshold %d: error %v, acceptable %v", ids, self, t, err, want)
		h.Check((r != nil) == (err == nil) && (out != nil) == (err == nil), "parties %v, self %d, threshold %d: session %v, output %v, error %v", ids, self, t, r != nil, out != nil, err)
	}
}

func TestVVKeygen(t *testing.T) {
	h := zzvv.New(t)
	for i := 0; i < h.N(60) && !h.Failed(); i++ {
		h.Catch("keygen", func() {
			n := 2 + h.R.Intn(4)
			th := 1 + h.R.Intn(n-1)
			switch {
			case vvOn("C18"):
				vvStart(h)
			case vvOn("C04") && i%3 > 0:
				vvCheat(h, n, th)
			default:
				vvRun(h, n, th)
			}
		})
	}
}
