package messages

import (
	"bytes"
	"math/big"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zk"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zzvv"
)

func vvExponent(b []byte) bool {
	if len(b) < 2 {
		return false
	}
	n := (int(b[0])<<8 | int(b[1])) + 1
	if len(b) != 2+32*n {
		return false
	}
	for i := 0; i < n; i++ {
		if !zzvv.CanonElement(b[2+32*i : 34+32*i]) {
			return false
		}
	}
	return true
}

func vvPayload(typ int, b []byte) bool {
	switch typ {
	case 1:
		return len(b) >= 64 && zzvv.CanonScalar(b[:32]) && zzvv.CanonScalar(b[32:64]) && vvExponent(b[64:])
	case 2, 4:
		return zzvv.CanonScalar(b)
	case 3:
		return len(b) == 64 && zzvv.CanonElement(b[:32]) && zzvv.CanonElement(b[32:])
	}
	return false
}

func vvHeader(b []byte) bool {
	if len(b) < 5 || (b[1] == 0 && b[2] == 0) {
		return false
	}
	to := b[3] != 0 || b[4] != 0
	switch b[0] {
	case 1, 3, 4:
		return !to
	case 2:
		return to
	}
	return false
}

func vvNew(typ int) FROSTMarshaler {
	switch typ {
	case 1:
		return &KeyGen1{}
	case 2:
		return &KeyGen2{}
	case 3:
		return &Sign1{}
	case 4:
		return &Sign2{}
	}
	return nil
}

func vvTry(h *zzvv.H, what string, m FROSTMarshaler, b []byte, want bool, full bool) {
	var err error
	orig := append([]byte{}, b...)
	h.Case(true)
	// the decoder sees exactly len(b) bytes
	in := append(make([]byte, 0, len(b)), b...)
	if !h.Catch(what+" "+zzvv.Hex(b), func() { err = m.UnmarshalBinary(in) }) {
		return
	}
	h.Check((err == nil) == want, "%s: decoding %x: error %v, want accepted=%v", what, b, err, want)
	h.Check(bytes.Equal(in, orig), "%s: decoding changed its input %x", what, b)
	if err == nil && full {
		h.Catch(what+" re-encoding "+zzvv.Hex(b), func() {
			out, err := m.MarshalBinary()
			h.Check(err == nil && bytes.Equal(out, b), "%s: %x is accepted but re-encodes to %x %v", what, b, out, err)
		})
	}
}

func vvAll(h *zzvv.H, what string, b []byte) {
	for typ := 0; typ < 5; typ++ {
		if len(b) > 0 && int(b[0]) == typ {
			m := &Message{}
			want := vvHeader(b) && vvPayload(typ, b[5:])
			vvTry(h, what+" as message", m, b, want, true)
			if want && !h.Failed() {
				ok := (typ == 1 && m.KeyGen1 != nil) || (typ == 2 && m.KeyGen2 != nil) || (typ == 3 && m.Sign1 != nil) || (typ == 4 && m.Sign2 != nil)
				h.Check(ok, "%s: %x decodes without a payload", what, b)
			}
			if m2 := vvNew(typ); m2 != nil && len(b) >= 5 {
				vvTry(h, what+" as payload", m2, b[5:], vvPayload(typ, b[5:]), true)
				if typ == 1 && len(b) >= 69 {
					vvTry(h, what+" as exponent", &polynomial.Exponent{}, b[69:], vvExponent(b[69:]), true)
				}
				if typ == 1 {
					p := b[5:]
					if len(p) > 64 {
						vvTry(h, what+" as proof, with what follows", &zk.Schnorr{}, p, false, true)
						p = p[:64]
					}
					vvTry(h, what+" as proof", &zk.Schnorr{}, p, len(p) == 64 && zzvv.CanonScalar(p[:32]) && zzvv.CanonScalar(p[32:]), true)
				}
			}
			vvTry(h, what+" as header", &Header{}, b, vvHeader(b), false)
			return
		}
	}
	vvTry(h, what+" as message", &Message{}, b, false, true)
	vvTry(h, what+" as header", &Header{}, b, false, false)
}

// vvValid is a valid encoding built without the code under test.
func vvValid(h *zzvv.H, typ int) []byte {
	id := func() []byte {
		for {
			b := h.Bytes(2)
			b[h.R.Intn(2)] &= byte(h.R.Intn(2) * 255)
			if b[0] != 0 || b[1] != 0 {
				return b
			}
		}
	}
	sc := func() []byte { return zzvv.ToLE(h.RandScalar(), 32) }
	el := func() []byte { return zzvv.Base(h.RandScalar()).EncodeR() }
	hd := zzvv.Cat([]byte{byte(typ)}, id(), []byte{0, 0})
	switch typ {
	case 1:
		d := h.R.Intn(3)
		b := zzvv.Cat(hd, sc(), sc(), zzvv.BE16(d))
		for i := 0; i <= d; i++ {
			b = append(b, el()...)
		}
		return b
	case 2:
		return zzvv.Cat(hd[:3], id(), sc())
	case 3:
		return zzvv.Cat(hd, el(), el())
	}
	return zzvv.Cat(hd, sc())
}

func TestVVDecoders(t *testing.T) {
	h := zzvv.New(t)
	// values that look like scalars or elements and are not canonical ones
	nonSc := [][]byte{zzvv.ToLE(zzvv.L, 32), zzvv.ToLE(new(big.Int).Add(zzvv.L, zzvv.I(1)), 32), bytes.Repeat([]byte{0xff}, 32), zzvv.ToLE(new(big.Int).Lsh(zzvv.I(1), 255), 32), zzvv.ToLE(new(big.Int).Add(zzvv.L, new(big.Int).Lsh(zzvv.I(1), 200)), 32)}
	okSc := [][]byte{zzvv.ToLE(new(big.Int).Sub(zzvv.L, zzvv.I(1)), 32), make([]byte, 32), zzvv.ToLE(new(big.Int).Lsh(zzvv.I(1), 252), 32)}
	el := zzvv.Base(zzvv.I(7))
	neg := zzvv.ToLE(new(big.Int).Sub(zzvv.P, zzvv.LE(el.EncodeR())), 32)
	big1 := zzvv.ToLE(new(big.Int).Add(zzvv.P, zzvv.I(2)), 32)
	hi := el.EncodeR()
	hi[31] |= 0x80
	nonEl := [][]byte{neg, hi, zzvv.ToLE(zzvv.P, 32), big1, bytes.Repeat([]byte{0xff}, 32), zzvv.ToLE(zzvv.I(1), 32), zzvv.B.EncodeEd(), zzvv.ToLE(new(big.Int).Sub(zzvv.P, zzvv.I(1)), 32)}
	okEl := [][]byte{make([]byte, 32), zzvv.B.EncodeR()}
	put := func(b []byte, off int, v []byte) []byte {
		c := append([]byte{}, b...)
		if off+32 <= len(c) {
			copy(c[off:], v)
		}
		return c
	}
	for n := 0; n < h.N(24) && !h.Failed(); n++ {
		typ := 1 + n%4
		b := vvValid(h, typ)
		h.Sample("%x and changes of it", b)
		vvAll(h, "valid", b)
		for _, k := range []int{0, 1, 4, 5, 6, 36, 37, 38, 68, 69, 70, 71, 72, len(b) - 33, len(b) - 32, len(b) - 2, len(b) - 1} {
			if k >= 0 && k < len(b) {
				vvAll(h, "truncated", b[:k])
			}
		}
		for _, k := range []int{1, 2, 31, 32, 33, 64} {
			vvAll(h, "extended", append(append([]byte{}, b...), make([]byte, k)...))
			vvAll(h, "extended", append(append([]byte{}, b...), h.Bytes(k)...))
		}
		vvAll(h, "repeated tail", append(append([]byte{}, b...), b[len(b)-32:]...))
		for _, k := range []int{0, 1, 2, 3, 4, 5, 6, 255} {
			c := append([]byte{}, b...)
			c[0] = byte(k)
			vvAll(h, "other type", c)
		}
		c := append([]byte{}, b...)
		c[1], c[2] = 0, 0
		vvAll(h, "no sender", c)
		c = append([]byte{}, b...)
		c[3], c[4] = 0, 0
		vvAll(h, "no destination", c)
		for _, d := range [][2]byte{{0, 1}, {1, 0}, {0xff, 0xff}} {
			c = append([]byte{}, b...)
			c[3], c[4] = d[0], d[1]
			vvAll(h, "destination", c)
		}
		for off := 5; off+32 <= len(b); off += 32 {
			for _, o := range []int{off, off + 2} {
				for _, v := range append(append([][]byte{}, nonSc...), okSc...) {
					vvAll(h, "edge scalar", put(b, o, v))
				}
				for _, v := range append(append([][]byte{}, nonEl...), okEl...) {
					vvAll(h, "edge element", put(b, o, v))
				}
			}
		}
		if typ == 1 {
			for _, d := range [][]byte{{0, 0}, {0, 1}, {0, 2}, {0, 3}, {1, 0}, {0xff, 0xff}, {0xff, 0xfe}, {8, 0}} {
				c = append([]byte{}, b...)
				copy(c[69:], d)
				vvAll(h, "other degree", c)
			}
		}
		for i := 0; i < h.N(20); i++ {
			vvAll(h, "bit flip", h.Flip(b))
		}
	}
	vvAll(h, "empty", nil)
	for n := 0; n < h.N(100); n++ {
		c := h.Bytes(h.R.Intn(140))
		if len(c) > 5 {
			c[0] = byte(h.R.Intn(6))
			c[3], c[4] = 0, 0
		}
		vvAll(h, "random", c)
	}
}

// every degree byte pair with a matching and with neighbouring lengths (no point decoding needed to refuse)
func TestVVDegrees(t *testing.T) {
	h := zzvv.New(t)
	el := zzvv.B.EncodeR()
	for _, d := range []int{0, 1, 2, 255, 256, 257, 511} {
		body := bytes.Repeat(el, d+1)
		for _, extra := range []int{-64, -32, -1, 0, 1, 32, 64} {
			b := zzvv.Cat(zzvv.BE16(d), body)
			if len(b)+extra < 0 {
				continue
			}
			switch {
			case extra < 0:
				b = b[:len(b)+extra]
			case extra > 0:
				b = append(b, make([]byte, extra)...)
			}
			vvTry(h, "exponent", &polynomial.Exponent{}, b, extra == 0, true)
		}
	}
	// the largest degree, 65535, means 65536 coefficients
	b := zzvv.Cat(zzvv.BE16(65535), bytes.Repeat(make([]byte, 32), 65535))
	vvTry(h, "exponent", &polynomial.Exponent{}, b, false, true)
	vvTry(h, "exponent", &polynomial.Exponent{}, append(b, make([]byte, 32)...), true, true)
	vvTry(h, "exponent", &polynomial.Exponent{}, zzvv.BE16(65535), false, true)
}
