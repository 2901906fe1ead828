package frost

import (
	"fmt"
	"math/big"
	"strings"
	"testing"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/keygen"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/sign"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zzvv"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

type vvNode struct {
	id  party.ID
	s   *state.State
	kg  *keygen.Output
	sg  *sign.Output
	log []string
}

func vvEnc(m *messages.Message) []byte {
	b, err := m.MarshalBinary()
	if err != nil {
		return nil
	}
	return b
}

// vvScramble makes an encoded message out of another one or out of nothing.
func vvScramble(h *zzvv.H, b []byte, ids []int64) []byte {
	id := func() []byte {
		switch h.R.Intn(5) {
		case 0:
			return zzvv.BE16(0)
		case 1:
			return zzvv.BE16(h.R.Intn(65536))
		}
		return zzvv.BE16(int(ids[h.R.Intn(len(ids))]))
	}
	c := append([]byte{}, b...)
	switch h.R.Intn(12) {
	case 0:
		return h.Bytes(h.R.Intn(200))
	case 1:
		return h.Flip(b)
	case 2:
		return c[:h.R.Intn(len(c)+1)]
	case 3:
		copy(c[1:], id())
	case 4:
		copy(c[3:], id())
	case 5, 11: // another payload
		t := byte(1 + h.R.Intn(4))
		if h.R.Intn(2) == 0 { // of the same protocol
			t = 1 + 2*((b[0]-1)/2) + byte(h.R.Intn(2))
		}
		c = append([]byte{t}, id()...)
		if t == 2 {
			c = append(c, id()...)
		} else {
			c = append(c, 0, 0)
		}
		switch t {
		case 1:
			c = append(c, zzvv.ToLE(h.RandScalar(), 32)...)
			c = append(c, zzvv.ToLE(h.RandScalar(), 32)...)
			d := h.R.Intn(5)
			c = append(c, zzvv.BE16(d)...)
			for i := 0; i <= d; i++ {
				c = append(c, vvPoint(h)...)
			}
		case 3:
			c = append(append(c, vvPoint(h)...), vvPoint(h)...)
		default:
			c = append(c, zzvv.ToLE(h.RandScalar(), 32)...)
		}
	case 6: // the payload zeroed: scalars 0, elements the identity
		for i := 5; i < len(c); i++ {
			c[i] = 0
		}
	case 7: // fewer coefficients than the session's degree, consistently encoded
		if c[0] == 1 && len(c) >= 5+64+2+64 {
			n := len(c) - 32
			d := (n-5-64-2)/32 - 1
			copy(c[69:], zzvv.BE16(d))
			return c[:n]
		}
	case 8: // more
		if c[0] == 1 && len(c) >= 5+64+2+32 {
			d := (len(c)-5-64-2)/32 - 1
			copy(c[69:], zzvv.BE16(d+1))
			return append(c, vvPoint(h)...)
		}
	case 9:
		c[0] = byte(h.R.Intn(7))
	case 10: // one zeroed or changed 32 byte part
		if len(c) >= 37 {
			k := 5 + 32*h.R.Intn((len(c)-5)/32)
			copy(c[k:k+32], make([]byte, 32))
		}
	}
	return c
}

func vvPoint(h *zzvv.H) []byte {
	if h.R.Intn(3) == 0 {
		return make([]byte, 32)
	}
	return zzvv.Base(h.RandScalar()).EncodeR()
}

// feed decodes bytes the way a caller does and hands over the message.
func (p *vvNode) feed(h *zzvv.H, b []byte) bool {
	p.log = append(p.log, fmt.Sprintf("%x", b))
	if len(p.log) > 30 {
		p.log = p.log[1:]
	}
	return h.Catch(fmt.Sprintf("party %d being fed %s", p.id, strings.Join(p.log, " ")), func() {
		var m messages.Message
		if err := m.UnmarshalBinary(b); err != nil {
			return
		}
		_ = p.s.HandleMessage(&m)
	})
}

func (p *vvNode) step(h *zzvv.H) (out [][]byte, ok bool) {
	p.log = append(p.log, "process")
	ok = h.Catch(fmt.Sprintf("party %d processing after %s", p.id, strings.Join(p.log, " ")), func() {
		for _, m := range p.s.ProcessAll() {
			if b := vvEnc(m); b != nil {
				out = append(out, b)
			}
		}
		if p.s.IsFinished() {
			_ = p.s.WaitForError()
		}
		if err := p.s.Err(); err != nil {
			_ = err.Error()
		}
	})
	return
}

// vvSession runs the parties over a network that loses order, repeats, and (with
// probability hostile/100 per message) mangles.
func vvSession(h *zzvv.H, ps []*vvNode, ids []int64, hostile int) bool {
	var net [][]byte
	for _, p := range ps {
		out, ok := p.step(h)
		if !ok {
			return false
		}
		net = append(net, out...)
	}
	for i := 0; i < 14*len(ps) && len(net) > 0; i++ {
		p := ps[h.R.Intn(len(ps))]
		if i%2 == 0 {
			for range net {
				b := net[h.R.Intn(len(net))]
				if h.R.Intn(100) < hostile {
					b = vvScramble(h, b, ids)
				}
				if !p.feed(h, b) {
					return false
				}
			}
		}
		if i >= 6*len(ps) { // let it end
			for _, b := range net {
				if !p.feed(h, b) {
					return false
				}
			}
		}
		out, ok := p.step(h)
		if !ok {
			return false
		}
		net = append(net, out...)
	}
	return true
}

func vvTimeout(h *zzvv.H) time.Duration {
	switch h.R.Intn(6) {
	case 0:
		return 1
	case 1:
		return time.Duration(h.R.Intn(4000000))
	}
	return 0
}

func vvIDs(a []int64) party.IDSlice {
	s := make(party.IDSlice, len(a))
	for i, x := range a {
		s[i] = party.ID(x)
	}
	return s
}

// vvAgain talks to sessions that may have ended.
func vvAgain(h *zzvv.H, ps []*vvNode) bool {
	for _, p := range ps {
		p.feed(h, h.Bytes(5))
		if _, ok := p.step(h); !ok {
			return false
		}
	}
	return true
}

// TestVVLargestDegree feeds a key generation the largest committed polynomials there are.
func TestVVLargestDegree(t *testing.T) {
	h := zzvv.New(t)
	for _, d := range []int{65535, 65534, 32768} {
		var ps []*vvNode
		for id := party.ID(1); id <= 2; id++ {
			s, _, err := NewKeygenState(id, party.IDSlice{1, 2}, 1, 0)
			if err != nil {
				return
			}
			ps = append(ps, &vvNode{id: id, s: s})
		}
		b := zzvv.Cat([]byte{1, 0, 2, 0, 0}, make([]byte, 64), zzvv.BE16(d), make([]byte, 32*(d+1)))
		h.Case(true)
		what := fmt.Sprintf("a commitment of party 2 with %d coefficients, all the identity, fed to party 1 of {1,2}", d+1)
		if !h.Catch(what, func() {
			_ = ps[0].s.ProcessAll()
			var m messages.Message
			if m.UnmarshalBinary(b) == nil {
				_ = ps[0].s.HandleMessage(&m)
				_ = ps[0].s.ProcessAll()
				_, _ = m.MarshalBinary()
			}
		}) {
			return
		}
	}
}

func TestVVNoCrash(t *testing.T) {
	h := zzvv.New(t)
	for n := 0; n < h.N(60) && !h.Failed(); n++ {
		size := 2 + h.R.Intn(3)
		th := 1 + h.R.Intn(size-1)
		ids := h.IDs(size)
		hostile := []int{0, 2, 6, 15, 60}[h.R.Intn(5)]
		h.Sample("parties %v threshold %d, %d%% of the messages mangled", ids, th, hostile)
		var ps []*vvNode
		if !h.Catch(fmt.Sprintf("opening key generation for %v threshold %d", ids, th), func() {
			for _, id := range ids {
				s, out, err := NewKeygenState(party.ID(id), vvIDs(ids), party.Size(th), vvTimeout(h))
				if err != nil {
					continue
				}
				ps = append(ps, &vvNode{id: party.ID(id), s: s, kg: out})
			}
		}) {
			return
		}
		h.Case(hostile > 0)
		if !vvSession(h, ps, ids, hostile) {
			return
		}
		if !vvAgain(h, ps) {
			return
		}
		// signing with dealt keys
		secret, public, ok := vvDeal(h, ids, th)
		if !ok {
			continue
		}
		signers := ids[:th+1]
		ps = nil
		if !h.Catch(fmt.Sprintf("opening signing for %v threshold %d", signers, th), func() {
			for _, id := range signers {
				s, out, err := NewSignState(vvIDs(signers), secret[id], public, h.Bytes(h.R.Intn(40)), vvTimeout(h))
				if err != nil {
					continue
				}
				ps = append(ps, &vvNode{id: party.ID(id), s: s, sg: out})
			}
		}) {
			return
		}
		h.Case(hostile > 0)
		if !vvSession(h, ps, signers, hostile) {
			return
		}
	}
}

// vvDeal deals a consistent sharing.
func vvDeal(h *zzvv.H, ids []int64, th int) (map[int64]*eddsa.SecretShare, *eddsa.Public, bool) {
	var coef []*big.Int
	for i := 0; i <= th; i++ {
		coef = append(coef, zzvv.SAdd(h.RandScalar(), zzvv.One))
	}
	shares := map[party.ID]*ristretto.Element{}
	secret := map[int64]*eddsa.SecretShare{}
	for _, id := range ids {
		x := zzvv.Poly(coef, zzvv.I(id))
		e := ristretto.NewIdentityElement()
		if _, err := e.SetCanonicalBytes(zzvv.Base(x).EncodeR()); err != nil {
			return nil, nil, false
		}
		shares[party.ID(id)] = e
		secret[id] = eddsa.NewSecretShare(party.ID(id), zzvv.Scalar(x))
	}
	pub, err := eddsa.NewPublic(shares, party.Size(th))
	return secret, pub, err == nil
}
