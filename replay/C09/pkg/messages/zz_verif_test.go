package messages

import (
	"bytes"
	"math/big"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zk"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zzvv"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

func vvEl(h *zzvv.H, x *big.Int) *ristretto.Element {
	var e ristretto.Element
	e.ScalarBaseMult(zzvv.Scalar(x))
	if h.R.Intn(2) == 0 {
		var d ristretto.Element
		if _, err := d.SetCanonicalBytes(e.Bytes()); err == nil {
			return &d
		}
	}
	return &e
}

func vvID(h *zzvv.H) int {
	if h.R.Intn(2) == 0 {
		return []int{1, 2, 255, 256, 257, 511, 512, 65280, 65534, 65535}[h.R.Intn(10)]
	}
	return 1 + h.R.Intn(65535)
}

// vvMessage makes a message of the given type with its independently computed encoding.
func vvMessage(h *zzvv.H, typ int) (m *Message, want []byte, desc string) {
	from, to := vvID(h), 0
	a, b := h.RandScalar(), h.RandScalar()
	switch typ {
	case 1:
		deg := []int{0, 1, 2, 3, 7}[h.R.Intn(5)]
		if h.R.Intn(12) == 0 {
			deg = []int{255, 256, 300}[h.R.Intn(3)]
		}
		poly := polynomial.NewPolynomial(party.Size(deg), zzvv.Scalar(a))
		exp := polynomial.NewPolynomialExponent(poly)
		if h.R.Intn(4) == 0 {
			exp.Reset()
		}
		enc, err := exp.MarshalBinary()
		if err != nil {
			h.Fail("Exponent.MarshalBinary: %v", err)
			return
		}
		if len(enc) != 2+32*(deg+1) || enc[0] != byte(deg>>8) || enc[1] != byte(deg) {
			h.Fail("Exponent of degree %d encodes to %x", deg, enc)
		}
		if h.R.Intn(2) == 0 && len(enc) > 34 {
			// non-secret constant term: check the first coefficient against the secret
			exp2 := polynomial.NewPolynomialExponent(poly)
			enc2, _ := exp2.MarshalBinary()
			h.Check(bytes.Equal(enc2[2:34], zzvv.Base(a).EncodeR()), "constant coefficient of the commitment to %v encodes to %x", a, enc2[2:34])
		}
		proof := &zk.Schnorr{S: *zzvv.Scalar(a), R: *zzvv.Scalar(b)}
		m = NewKeyGen1(party.ID(from), proof, exp)
		want = zzvv.Cat(zzvv.ToLE(a, 32), zzvv.ToLE(b, 32), enc)
	case 2:
		to = vvID(h)
		m = NewKeyGen2(party.ID(from), party.ID(to), zzvv.Scalar(a))
		want = zzvv.ToLE(a, 32)
	case 3:
		m = NewSign1(party.ID(from), vvEl(h, a), vvEl(h, b))
		want = zzvv.Cat(zzvv.Base(a).EncodeR(), zzvv.Base(b).EncodeR())
	case 4:
		m = NewSign2(party.ID(from), zzvv.Scalar(a))
		want = zzvv.ToLE(a, 32)
	}
	want = zzvv.Cat([]byte{byte(typ)}, zzvv.BE16(from), zzvv.BE16(to), want)
	return m, want, "message " + zzvv.Hex(want)
}

func vvEncode(h *zzvv.H, desc string, m FROSTMarshaler, want []byte) {
	h.Catch(desc, func() {
		got, err := m.MarshalBinary()
		h.Check(err == nil && bytes.Equal(got, want), "%s: MarshalBinary = %x %v, want %x", desc, got, err, want)
		h.Check(m.Size() == len(want), "%s: Size = %d, want %d", desc, m.Size(), len(want))
		for _, c := range [][2]int{{0, 0}, {3, 3}, {0, 4}, {5, 64}, {7, 1000}, {0, len(want)}, {9, 9 + len(want)}, {9, 8 + len(want)}} {
			back := h.Bytes(c[1])
			if c[1] < c[0] {
				continue
			}
			orig := append([]byte{}, back...)
			pre := back[:c[0]]
			got, err := m.BytesAppend(pre)
			h.Check(err == nil && bytes.Equal(got, zzvv.Cat(orig[:c[0]], want)), "%s: BytesAppend to %x (cap %d) = %x %v", desc, orig[:c[0]], c[1], got, err)
			h.Check(bytes.Equal(back[:c[0]], orig[:c[0]]), "%s: BytesAppend changed the existing bytes", desc)
			if n := c[0] + len(want); n < c[1] {
				h.Check(bytes.Equal(back[n:], orig[n:]), "%s: BytesAppend wrote behind its own %d bytes", desc, len(want))
			}
		}
		if got, err := m.BytesAppend(nil); err != nil || !bytes.Equal(got, want) {
			h.Fail("%s: BytesAppend(nil) = %x %v", desc, got, err)
		}
	})
}

func TestVVRoundTrip(t *testing.T) {
	h := zzvv.New(t)
	for n := 0; n < h.N(160) && !h.Failed(); n++ {
		typ := 1 + n%4
		m, want, desc := vvMessage(h, typ)
		if m == nil {
			return
		}
		h.Case(true)
		h.Sample("%s", desc)
		vvEncode(h, desc, m, want)
		vvEncode(h, desc, &m.Header, want[:5])
		var in, out, used FROSTMarshaler
		_, _, _ = in, out, used
		switch typ {
		case 1:
			in, out = m.KeyGen1, &KeyGen1{}
			vvEncode(h, desc, m.KeyGen1.Proof, want[5:69])
			vvEncode(h, desc, m.KeyGen1.Commitments, want[69:])
		case 2:
			in, out = m.KeyGen2, &KeyGen2{}
		case 3:
			in, out = m.Sign1, &Sign1{}
		case 4:
			in, out = m.Sign2, &Sign2{}
		}
		vvEncode(h, desc, in, want[5:])
		h.Catch(desc, func() {
			back := &Message{}
			if n%3 == 1 { // decoding into a used message
				o, _, _ := vvMessage(h, 1+h.R.Intn(4))
				back = o
			}
			data := append([]byte{}, want...)
			err := back.UnmarshalBinary(data)
			if !h.Check(err == nil, "%s: UnmarshalBinary: %v", desc, err) {
				return
			}
			h.Check(bytes.Equal(data, want), "%s: decoding changed the input", desc)
			for i := range data { // the decoded message does not live in the input buffer
				data[i] ^= 0xff
			}
			h.Check(int(back.Type) == typ && zzvv.LE([]byte{want[2], want[1]}).Int64() == int64(back.From) && zzvv.LE([]byte{want[4], want[3]}).Int64() == int64(back.To), "%s: decoded header %+v", desc, back.Header)
			h.Check(back.Equal(m) && m.Equal(back), "%s: decoded message is not Equal", desc)
			vvEncode(h, desc+" decoded", back, want)
			h.Check(back.IsBroadcast() == (typ != 2), "%s: IsBroadcast", desc)
			err = out.UnmarshalBinary(want[5:])
			h.Check(err == nil && out.Equal(in) && in.Equal(out), "%s: payload decodes to something else (%v)", desc, err)
			vvEncode(h, desc+" payload decoded", out, want[5:])
			if CheckFROSTMarshaler(m, &Message{}) != nil {
				h.Fail("%s: CheckFROSTMarshaler: %v", desc, CheckFROSTMarshaler(m, &Message{}))
			}
			// different messages are not Equal
			o, w2, d2 := vvMessage(h, typ)
			if o != nil && !bytes.Equal(w2, want) {
				h.Check(!o.Equal(m) && !m.Equal(o), "%s is Equal to %s", desc, d2)
			}
		})
	}
}

// headers and messages that must not be encodable
func TestVVUnencodable(t *testing.T) {
	h := zzvv.New(t)
	for typ := 0; typ < 256; typ++ {
		for _, from := range []int{0, 1, 65535} {
			for _, to := range []int{0, 1, 256} {
				valid := from != 0 && ((typ == 2 && to != 0) || ((typ == 1 || typ == 3 || typ == 4) && to == 0))
				hd := Header{Type: MessageType(typ), From: party.ID(from), To: party.ID(to)}
				h.Case(true)
				h.Catch("header", func() {
					b, err := hd.MarshalBinary()
					h.Check((err == nil) == valid, "Header%+v: MarshalBinary error %v", hd, err)
					if valid {
						want := zzvv.Cat([]byte{byte(typ)}, zzvv.BE16(from), zzvv.BE16(to))
						h.Check(bytes.Equal(b, want), "Header%+v encodes to %x", hd, b)
					}
					m := &Message{Header: hd}
					_, err = m.MarshalBinary()
					h.Check(err != nil, "message %+v without a payload was encoded", hd)
				})
			}
		}
	}
}
