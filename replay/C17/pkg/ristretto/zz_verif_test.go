package ristretto

import (
	"bytes"
	"encoding/base64"
	"math/big"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/internal/zzvv"
)

// an element together with an independently computed value
type pair struct {
	e *Element
	p zzvv.Pt
}

func vvUniform(b []byte) pair {
	e := &Element{}
	if _, err := e.SetUniformBytes(append([]byte{}, b...)); err != nil {
		panic(err)
	}
	return pair{e, zzvv.Uniform(b)}
}

func vvEdge(h *zzvv.H) []*big.Int {
	l := zzvv.L
	sub := func(k int64) *big.Int { return new(big.Int).Sub(l, zzvv.I(k)) }
	return []*big.Int{zzvv.I(0), zzvv.I(1), zzvv.I(2), zzvv.I(8), zzvv.I(255), zzvv.I(256), sub(1), sub(2), new(big.Int).Rsh(l, 1), zzvv.SInv(zzvv.I(8)), new(big.Int).Lsh(zzvv.I(1), 251), new(big.Int).Lsh(zzvv.I(1), 252), h.RandScalar(), h.RandScalar()}
}

// vvSame compares everything observable about an element with its expected value.
func vvSame(h *zzvv.H, what string, e *Element, p zzvv.Pt) bool {
	want := p.EncodeR()
	ok := h.Catch(what, func() {
		got := e.Bytes()
		h.Check(bytes.Equal(got, want), "%s: Bytes = %x, want %x", what, got, want)
		ed, wantEd := e.BytesEd25519(), p.TorsionFree().EncodeEd()
		h.Check(bytes.Equal(ed, wantEd), "%s: BytesEd25519 = %x, want %x", what, ed, wantEd)
		s := base64.StdEncoding.EncodeToString(want)
		h.Check(e.String() == s, "%s: String = %q, want %q", what, e.String(), s)
		txt, err := e.MarshalText()
		h.Check(err == nil && string(txt) == s, "%s: MarshalText = %q %v, want %q", what, txt, err, s)
		d, err := new(Element).SetCanonicalBytes(want)
		if h.Check(err == nil && d != nil, "%s: SetCanonicalBytes(%x) refused", what, want) {
			h.Check(d.Equal(e) == 1 && e.Equal(d) == 1, "%s: decoded %x is not Equal", what, want)
			h.Check(bytes.Equal(d.Bytes(), want), "%s: decode/encode of %x gives %x", what, want, d.Bytes())
			h.Check(bytes.Equal(d.BytesEd25519(), wantEd), "%s: decode/BytesEd25519 of %x gives %x", what, want, d.BytesEd25519())
		}
		var u Element
		if h.Check(u.UnmarshalText(txt) == nil, "%s: UnmarshalText(%q) refused", what, txt) {
			h.Check(bytes.Equal(u.Bytes(), want), "%s: text round trip gives %x, want %x", what, u.Bytes(), want)
		}
	})
	return ok && !h.Failed()
}

func vvPool(h *zzvv.H, n int) []pair {
	out := []pair{{NewIdentityElement(), zzvv.Id}, {NewGeneratorElement(), zzvv.B}}
	for i := 0; i < n; i++ {
		q := vvUniform(h.Bytes(64))
		out = append(out, q)
		if i%2 == 0 { // another representative of the same class
			d, err := new(Element).SetCanonicalBytes(q.p.EncodeR())
			if err == nil {
				out = append(out, pair{d, q.p})
			}
		}
	}
	return out
}

func TestVVUniform(t *testing.T) {
	h := zzvv.New(t)
	one := func(b []byte) {
		h.Case(true)
		var q pair
		if !h.Catch("SetUniformBytes", func() {
			in := append([]byte{}, b...)
			e := NewGeneratorElement()
			r, err := e.SetUniformBytes(in)
			h.Check(err == nil && r == e, "SetUniformBytes(%x): %v", b, err)
			h.Check(bytes.Equal(in, b), "SetUniformBytes(%x) changed its input", b)
			q = pair{e, zzvv.Uniform(b)}
		}) {
			return
		}
		h.Sample("SetUniformBytes(%x) = %x", b, q.p.EncodeR())
		vvSame(h, "SetUniformBytes("+zzvv.Hex(b)+")", q.e, q.p)
	}
	ff := bytes.Repeat([]byte{0xff}, 32)
	var special [][]byte
	for _, v := range []*big.Int{zzvv.I(0), zzvv.I(1), new(big.Int).Sub(zzvv.P, zzvv.I(1)), zzvv.P, new(big.Int).Add(zzvv.P, zzvv.I(1)), zzvv.SqrtM1} {
		special = append(special, zzvv.ToLE(v, 32))
		top := zzvv.ToLE(v, 32)
		top[31] |= 0x80
		special = append(special, top)
	}
	special = append(special, ff)
	for _, a := range special {
		for _, b := range special {
			one(zzvv.Cat(a, b))
		}
	}
	for i := 0; i < h.N(60); i++ {
		one(h.Bytes(64))
	}
	for n := 0; n < 130; n++ {
		if n == 64 {
			continue
		}
		h.Case(false)
		h.Catch("SetUniformBytes of a wrong length", func() {
			e := NewGeneratorElement()
			r, err := e.SetUniformBytes(make([]byte, n))
			h.Check(err != nil && r == nil, "SetUniformBytes accepts %d bytes", n)
			h.Check(bytes.Equal(e.Bytes(), zzvv.B.EncodeR()), "SetUniformBytes of %d bytes changes the receiver", n)
		})
	}
}

func TestVVDecode(t *testing.T) {
	h := zzvv.New(t)
	one := func(b []byte) {
		var want zzvv.Pt
		ok := false
		if len(b) == 32 {
			want, ok = zzvv.DecodeR(b)
		}
		h.Case(ok)
		h.Catch("SetCanonicalBytes("+zzvv.Hex(b)+")", func() {
			in := append([]byte{}, b...)
			e := NewGeneratorElement()
			r, err := e.SetCanonicalBytes(in)
			h.Check(bytes.Equal(in, b), "SetCanonicalBytes(%x) changed its input", b)
			if !h.Check((err == nil) == ok, "SetCanonicalBytes(%x): error %v, want acceptance %v", b, err, ok) {
				return
			}
			if ok {
				h.Check(r == e, "SetCanonicalBytes(%x) does not return the receiver", b)
				h.Check(bytes.Equal(e.Bytes(), b), "SetCanonicalBytes(%x) then Bytes = %x", b, e.Bytes())
				h.Check(bytes.Equal(e.BytesEd25519(), want.TorsionFree().EncodeEd()), "SetCanonicalBytes(%x): wrong point", b)
			} else {
				h.Check(r == nil, "SetCanonicalBytes(%x) returns an element and an error", b)
				h.Check(bytes.Equal(e.Bytes(), zzvv.B.EncodeR()), "SetCanonicalBytes(%x) fails and changes the receiver", b)
			}
			txt := base64.StdEncoding.EncodeToString(b)
			u := NewGeneratorElement()
			err = u.UnmarshalText([]byte(txt))
			h.Check((err == nil) == ok, "UnmarshalText(%q): error %v, want acceptance %v", txt, err, ok)
		})
	}
	// around encodings of valid elements
	for i := 0; i < h.N(40); i++ {
		enc := zzvv.Base(h.RandScalar()).EncodeR()
		if i < 20 {
			enc = zzvv.Base(zzvv.I(int64(i))).EncodeR()
		}
		one(enc)
		v := zzvv.LE(enc)
		add := func(x *big.Int) {
			if x.Sign() >= 0 && x.BitLen() <= 256 {
				one(zzvv.ToLE(x, 32))
			}
		}
		add(new(big.Int).Add(v, zzvv.P))
		add(new(big.Int).Sub(zzvv.P, v))
		add(new(big.Int).Add(v, new(big.Int).Lsh(zzvv.I(1), 255)))
		add(new(big.Int).Add(v, zzvv.I(1)))
		add(new(big.Int).Add(v, zzvv.I(2)))
		one(enc[:31])
		one(append(append([]byte{}, enc...), 0))
		bit := h.R.Intn(256)
		f := append([]byte{}, enc...)
		f[bit/8] ^= 1 << uint(bit%8)
		one(f)
	}
	for i := 0; i < h.N(400); i++ {
		b := h.Bytes(32)
		if i%2 == 0 {
			b[31] &= 0x7f
			b[0] &= 0xfe
		}
		one(b)
	}
	// small and large field elements
	for k := int64(0); k < 200; k++ {
		one(zzvv.ToLE(zzvv.I(k), 32))
		one(zzvv.ToLE(new(big.Int).Sub(zzvv.P, zzvv.I(k)), 32))
		one(zzvv.ToLE(new(big.Int).Add(zzvv.P, zzvv.I(k)), 32))
	}
	one(zzvv.ToLE(zzvv.SqrtM1, 32))
	for n := 0; n < 80; n++ {
		one(make([]byte, n))
	}
	h.Catch("UnmarshalText", func() {
		for _, s := range []string{"", "!", "AA", "AA==", "AAAA", "====", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=x"} {
			h.Case(false)
			e := NewGeneratorElement()
			h.Check(e.UnmarshalText([]byte(s)) != nil, "UnmarshalText(%q) accepted", s)
			h.Check(bytes.Equal(e.Bytes(), zzvv.B.EncodeR()), "UnmarshalText(%q) fails and changes the receiver", s)
		}
	})
}

func TestVVEqual(t *testing.T) {
	h := zzvv.New(t)
	pool := vvPool(h, 10)
	for k := int64(1); k < 4; k++ {
		e := new(Element).ScalarBaseMult(zzvv.Scalar(zzvv.I(k)))
		pool = append(pool, pair{e, zzvv.Base(zzvv.I(k))})
		pool = append(pool, pair{new(Element).Negate(e), zzvv.Base(zzvv.I(k)).Neg()})
	}
	for i, a := range pool {
		for j, b := range pool {
			h.Case(true)
			want := 0
			if a.p.EqR(b.p) {
				want = 1
			}
			h.Catch("Equal", func() {
				got := a.e.Equal(b.e)
				h.Check(got == want, "Equal(%x, %x) = %d, want %d (elements %d, %d)", a.p.EncodeR(), b.p.EncodeR(), got, want, i, j)
			})
		}
	}
	h.Sample("%d pairs of elements, several representatives per class", len(pool)*len(pool))
}

func TestVVArithmetic(t *testing.T) {
	h := zzvv.New(t)
	pool := vvPool(h, 4)
	edge := vvEdge(h)
	for _, a := range pool {
		vvSame(h, "element", a.e, a.p)
		for _, b := range pool {
			h.Case(true)
			what := "(" + zzvv.Hex(a.p.EncodeR()) + ", " + zzvv.Hex(b.p.EncodeR()) + ")"
			h.Catch("arithmetic on "+what, func() {
				vvSame(h, "Add"+what, new(Element).Add(a.e, b.e), a.p.Add(b.p))
				vvSame(h, "Subtract"+what, new(Element).Subtract(a.e, b.e), a.p.Add(b.p.Neg()))
				vvSame(h, "Negate"+what, new(Element).Negate(a.e), a.p.Neg())
				c := new(Element).Set(a.e)
				vvSame(h, "aliased Add"+what, c.Add(c, b.e), a.p.Add(b.p))
				c = new(Element).Set(b.e)
				vvSame(h, "aliased Add"+what, c.Add(a.e, c), a.p.Add(b.p))
				c = new(Element).Set(a.e)
				vvSame(h, "aliased Add"+what, c.Add(c, c), a.p.Add(a.p))
				c = new(Element).Set(a.e)
				vvSame(h, "aliased Subtract"+what, c.Subtract(c, c), zzvv.Id)
				c = new(Element).Set(a.e)
				vvSame(h, "aliased Subtract"+what, c.Subtract(c, b.e), a.p.Add(b.p.Neg()))
				c = new(Element).Set(b.e)
				vvSame(h, "aliased Subtract"+what, c.Subtract(a.e, c), a.p.Add(b.p.Neg()))
				c = new(Element).Set(b.e)
				vvSame(h, "aliased Negate"+what, c.Negate(c), b.p.Neg())
			})
		}
		if h.Failed() {
			return
		}
	}
	for _, s := range edge {
		sc := zzvv.Scalar(s)
		h.Case(true)
		h.Catch("ScalarBaseMult", func() {
			vvSame(h, "ScalarBaseMult("+s.String()+")", new(Element).ScalarBaseMult(sc), zzvv.Base(s))
			h.Check(zzvv.Big(sc).Cmp(s) == 0, "ScalarBaseMult changed the scalar")
		})
		for i, a := range pool {
			if i > 4 {
				break
			}
			h.Case(true)
			h.Catch("ScalarMult", func() {
				vvSame(h, "ScalarMult("+s.String()+", "+zzvv.Hex(a.p.EncodeR())+")", new(Element).ScalarMult(sc, a.e), a.p.Mul(s))
				c := new(Element).Set(a.e)
				vvSame(h, "aliased ScalarMult("+s.String()+", "+zzvv.Hex(a.p.EncodeR())+")", c.ScalarMult(sc, c), a.p.Mul(s))
				b := edge[h.R.Intn(len(edge))]
				w := a.p.Mul(s).Add(zzvv.Base(b))
				vvSame(h, "VarTimeDoubleScalarBaseMult("+s.String()+", "+zzvv.Hex(a.p.EncodeR())+", "+b.String()+")", new(Element).VarTimeDoubleScalarBaseMult(sc, a.e, zzvv.Scalar(b)), w)
				c = new(Element).Set(a.e)
				vvSame(h, "aliased VarTimeDoubleScalarBaseMult", c.VarTimeDoubleScalarBaseMult(sc, c, zzvv.Scalar(b)), w)
			})
		}
		if h.Failed() {
			return
		}
	}
	for i := 0; i < h.N(24); i++ {
		n := i % 7
		var ss []*Scalar
		var ps []*Element
		sum := zzvv.Id
		for k := 0; k < n; k++ {
			s, p := edge[h.R.Intn(len(edge))], pool[h.R.Intn(len(pool))]
			ss = append(ss, zzvv.Scalar(s))
			ps = append(ps, new(Element).Set(p.e))
			sum = sum.Add(p.p.Mul(s))
		}
		h.Case(n > 1)
		h.Catch("multi-scalar multiplication", func() {
			vvSame(h, "MultiScalarMult on a neutral receiver", NewIdentityElement().MultiScalarMult(ss, ps), sum)
			vvSame(h, "VarTimeMultiScalarMult on a neutral receiver", NewIdentityElement().VarTimeMultiScalarMult(ss, ps), sum)
			vvSame(h, "MultiScalarMult on a used receiver", NewGeneratorElement().MultiScalarMult(ss, ps), sum)
			vvSame(h, "VarTimeMultiScalarMult on a used receiver", NewGeneratorElement().VarTimeMultiScalarMult(ss, ps), sum)
			vvSame(h, "MultiScalarMult on a new receiver", new(Element).MultiScalarMult(ss, ps), sum)
			if n > 0 {
				a := ps[n-1]
				v := new(Element).Set(a)
				vvSame(h, "VarTimeMultiScalarMult into one of its points", a.VarTimeMultiScalarMult(ss, ps), sum)
				a.Set(v)
				vvSame(h, "MultiScalarMult into one of its points", a.MultiScalarMult(ss, ps), sum)
			}
		})
		if h.Failed() {
			return
		}
	}
	h.Check(zzvv.Panics(func() { new(Element).MultiScalarMult(make([]*Scalar, 1), nil) }), "MultiScalarMult accepts different lengths")
	h.Check(zzvv.Panics(func() { new(Element).VarTimeMultiScalarMult(make([]*Scalar, 1), nil) }), "VarTimeMultiScalarMult accepts different lengths")
	vvSame(h, "NewIdentityElement", NewIdentityElement(), zzvv.Id)
	vvSame(h, "NewGeneratorElement", NewGeneratorElement(), zzvv.B)
	h.Check(zzvv.Big(NewScalar()).Sign() == 0, "NewScalar is not zero")
}
