package messages

import (
	"encoding"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zk"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zzvv"
)

func vvDecode(h *zzvv.H, b []byte) {
	h.Case(len(b) > 0)
	for _, d := range []struct {
		n string
		m encoding.BinaryUnmarshaler
	}{{"Message", &Message{}}, {"Header", &Header{}}, {"KeyGen1", &KeyGen1{}}, {"KeyGen2", &KeyGen2{}}, {"Sign1", &Sign1{}}, {"Sign2", &Sign2{}},
		{"Exponent", &polynomial.Exponent{}}, {"Schnorr", &zk.Schnorr{}}} {
		in := append(make([]byte, 0, len(b)), b...)
		if !h.Catch("decoding "+d.n+" from "+zzvv.Hex(b), func() { _ = d.m.UnmarshalBinary(in) }) {
			return
		}
		if m, ok := d.m.(*Message); ok {
			if !h.Catch("using the Message decoded from "+zzvv.Hex(b), func() { _ = m.IsBroadcast(); _, _ = m.MarshalBinary() }) && m.Type != 0 {
				return
			}
		}
	}
}

func TestVVDecodersNoCrash(t *testing.T) {
	h := zzvv.New(t)
	pt := func() []byte { return zzvv.Base(h.RandScalar()).EncodeR() }
	sc := func() []byte { return zzvv.ToLE(h.RandScalar(), 32) }
	for i := 0; i < 140; i++ {
		vvDecode(h, h.Bytes(i))
		vvDecode(h, make([]byte, i))
	}
	for n := 0; n < h.N(40) && !h.Failed(); n++ {
		d := h.R.Intn(5)
		k1 := zzvv.Cat([]byte{1}, zzvv.BE16(1+h.R.Intn(65535)), zzvv.BE16(0), sc(), sc(), zzvv.BE16(d))
		for i := 0; i <= d; i++ {
			k1 = append(k1, pt()...)
		}
		all := [][]byte{k1,
			zzvv.Cat([]byte{2}, zzvv.BE16(1+h.R.Intn(65535)), zzvv.BE16(1+h.R.Intn(65535)), sc()),
			zzvv.Cat([]byte{3}, zzvv.BE16(1+h.R.Intn(65535)), zzvv.BE16(0), pt(), pt()),
			zzvv.Cat([]byte{4}, zzvv.BE16(1+h.R.Intn(65535)), zzvv.BE16(0), sc())}
		h.Sample("%x", all[n%4])
		for _, b := range all {
			vvDecode(h, b)
			for k := 0; k <= len(b); k += 1 + h.R.Intn(12) {
				vvDecode(h, b[:k])
				vvDecode(h, b[k:])
			}
			for k := 0; k < 6; k++ {
				vvDecode(h, h.Flip(b))
				vvDecode(h, append(append([]byte{}, b...), make([]byte, h.R.Intn(70))...))
			}
			for _, x := range []int{0, 1, 2, 255, 256, 2047, 2048, 32767, 65534, 65535} {
				c := append([]byte{}, b...)
				if len(c) > 71 {
					copy(c[69:], zzvv.BE16(x))
					vvDecode(h, c)
				}
				vvDecode(h, zzvv.Cat(zzvv.BE16(x), pt()))
				vvDecode(h, zzvv.BE16(x))
			}
		}
	}
}
