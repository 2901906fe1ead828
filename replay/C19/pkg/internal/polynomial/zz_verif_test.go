package polynomial

import (
	"bytes"
	"math/big"
	"testing"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zzvv"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

func vvPoly(cs []*big.Int) *Polynomial {
	p := &Polynomial{coefficients: make([]ristretto.Scalar, len(cs))}
	for i, c := range cs {
		p.coefficients[i].Set(zzvv.Scalar(c))
	}
	return p
}

func vvCoeffs(h *zzvv.H, n int) []*big.Int {
	out := make([]*big.Int, n)
	for i := range out {
		out[i] = h.RandScalar()
	}
	return out
}

func vvExp(cs []*big.Int) *Exponent { return NewPolynomialExponent(vvPoly(cs)) }

func vvSameExp(h *zzvv.H, what string, e *Exponent, cs []*big.Int) {
	if !h.Check(len(e.coefficients) == len(cs), "%s: %d coefficients, want %d", what, len(e.coefficients), len(cs)) {
		return
	}
	for i, c := range cs {
		h.Check(bytes.Equal(e.coefficients[i].Bytes(), zzvv.Base(c).EncodeR()), "%s: coefficient %d is not [%v]B", what, i, c)
	}
}

func TestVVEvaluate(t *testing.T) {
	h := zzvv.New(t)
	xs := func() *big.Int {
		switch h.R.Intn(4) {
		case 0:
			return zzvv.I(int64(1 + h.R.Intn(5)))
		case 1:
			return []*big.Int{zzvv.I(255), zzvv.I(256), zzvv.I(65535), zzvv.SSub(zzvv.I(0), zzvv.I(1)), zzvv.SSub(zzvv.I(0), zzvv.I(2))}[h.R.Intn(5)]
		case 2:
			return zzvv.I(int64(1 + h.R.Intn(65535)))
		}
		return zzvv.SAdd(zzvv.I(1), zzvv.SMul(h.RandScalar(), zzvv.I(0))).Add(zzvv.I(1), h.RandScalar())
	}
	for n := 0; n < h.N(60) && !h.Failed(); n++ {
		cs := vvCoeffs(h, 1+h.R.Intn(8))
		if n%20 == 19 {
			cs = vvCoeffs(h, []int{40, 257, 900}[h.R.Intn(3)])
		}
		for i := range cs {
			if h.R.Intn(5) == 0 {
				cs[i] = zzvv.I(0)
			}
		}
		x := zzvv.SAdd(xs(), zzvv.I(0))
		if x.Sign() == 0 {
			x = zzvv.I(1)
		}
		want := zzvv.Poly(cs, x)
		p := vvPoly(cs)
		xi := zzvv.Scalar(x)
		h.Case(true)
		h.Sample("coefficients %v at %v", cs, x)
		what := "polynomial evaluation"
		h.Catch(what, func() {
			got := zzvv.Big(p.Evaluate(xi))
			h.Check(got.Cmp(want) == 0, "Polynomial%v.Evaluate(%v) = %v, want %v", cs, x, got, want)
			h.Check(zzvv.Big(p.Evaluate(xi)).Cmp(want) == 0, "a second evaluation of %v at %v differs", cs, x)
			h.Check(zzvv.Big(xi).Cmp(x) == 0, "Evaluate changed its argument")
			for i := range cs {
				h.Check(zzvv.Big(&p.coefficients[i]).Cmp(cs[i]) == 0, "Evaluate changed coefficient %d", i)
			}
			h.Check(int(p.Degree()) == len(cs)-1 && p.Size() == len(cs), "Degree/Size = %d/%d for %d coefficients", p.Degree(), p.Size(), len(cs))
			c := p.Constant()
			h.Check(zzvv.Big(c).Cmp(cs[0]) == 0, "Constant = %v, want %v", zzvv.Big(c), cs[0])
			c.Add(c, c)
			h.Check(zzvv.Big(&p.coefficients[0]).Cmp(cs[0]) == 0, "Constant is not a copy")
		})
		h.Catch("exponent evaluation", func() {
			e := vvExp(cs)
			vvSameExp(h, "NewPolynomialExponent", e, cs)
			wantB := zzvv.Base(want).EncodeR()
			dirty := ristretto.NewGeneratorElement()
			for name, f := range map[string]func() *ristretto.Element{
				"Evaluate":        func() *ristretto.Element { return e.Evaluate(xi) },
				"evaluateClassic": func() *ristretto.Element { return e.evaluateClassic(xi, dirty) },
				"evaluateVar":     func() *ristretto.Element { return e.evaluateVar(xi, dirty) },
				"evaluateHorner":  func() *ristretto.Element { return e.evaluateHorner(xi, dirty) },
			} {
				got := f()
				h.Check(bytes.Equal(got.Bytes(), wantB), "Exponent%v.%s(%v) = %x, want %x", cs, name, x, got.Bytes(), wantB)
				h.Check(zzvv.Big(xi).Cmp(x) == 0, "%s changed its argument", name)
			}
			vvSameExp(h, "after evaluation", e, cs)
			h.Check(int(e.Degree()) == len(cs)-1, "Exponent.Degree = %d", e.Degree())
			c := e.Constant()
			h.Check(bytes.Equal(c.Bytes(), zzvv.Base(cs[0]).EncodeR()), "Exponent.Constant = %x", c.Bytes())
			c.Add(c, ristretto.NewGeneratorElement())
			vvSameExp(h, "after changing Constant's result", e, cs)
			ids := h.IDs(1 + h.R.Intn(4))
			arg := make([]party.ID, len(ids))
			for i := range ids {
				arg[i] = party.ID(ids[i])
			}
			m := e.EvaluateMulti(arg)
			h.Check(len(m) == len(ids), "EvaluateMulti(%v) has %d entries", ids, len(m))
			for _, id := range ids {
				w := zzvv.Base(zzvv.Poly(cs, zzvv.I(id))).EncodeR()
				g := m[party.ID(id)]
				h.Check(g != nil && bytes.Equal(g.Bytes(), w), "EvaluateMulti(%v)[%d] is wrong", ids, id)
			}
		})
		zero := zzvv.Scalar(zzvv.I(0))
		h.Check(zzvv.Panics(func() { p.Evaluate(zero) }), "Polynomial.Evaluate(0) hands out the secret")
		h.Check(zzvv.Panics(func() { vvExp(cs).Evaluate(zero) }), "Exponent.Evaluate(0) does not refuse")
	}
}

func TestVVCombine(t *testing.T) {
	h := zzvv.New(t)
	for n := 0; n < h.N(40) && !h.Failed(); n++ {
		k, l := 1+h.R.Intn(5), 1+h.R.Intn(5)
		var polys []*Exponent
		var cs [][]*big.Int
		sum := make([]*big.Int, l)
		for i := range sum {
			sum[i] = zzvv.I(0)
		}
		for i := 0; i < k; i++ {
			c := vvCoeffs(h, l)
			cs = append(cs, c)
			polys = append(polys, vvExp(c))
			for j := range sum {
				sum[j] = zzvv.SAdd(sum[j], c[j])
			}
		}
		h.Case(true)
		h.Catch("Sum", func() {
			s, err := Sum(polys)
			if h.Check(err == nil && s != nil, "Sum of %d polynomials of length %d: %v", k, l, err) {
				vvSameExp(h, "Sum", s, sum)
			}
			for i := range polys {
				vvSameExp(h, "operand of Sum", polys[i], cs[i])
			}
			s.Reset()
			for i := range polys {
				vvSameExp(h, "operand after the sum was reset", polys[i], cs[i])
			}
			zeros := make([]*big.Int, l)
			for i := range zeros {
				zeros[i] = zzvv.I(0)
			}
			vvSameExp(h, "Reset", s, zeros)
			// a length mismatch is an error
			longer := vvExp(vvCoeffs(h, l+1))
			_, err = Sum(append(append([]*Exponent{}, polys...), longer))
			h.Check(err != nil, "Sum accepts lengths %d and %d", l, l+1)
			h.Check(polys[0].Add(longer) != nil && longer.Add(polys[0]) != nil, "Add accepts lengths %d and %d", l, l+1)
			vvSameExp(h, "refused Add", polys[0], cs[0])
		})
		h.Catch("Copy", func() {
			c := polys[0].Copy()
			vvSameExp(h, "Copy", c, cs[0])
			h.Check(c.Equal(polys[0]) && polys[0].Equal(c), "a copy is not Equal")
			if err := c.Add(polys[k-1]); err != nil {
				h.Fail("Add: %v", err)
			}
			if k > 1 {
				vvSameExp(h, "original after its copy changed", polys[0], cs[0])
				want := make([]*big.Int, l)
				for j := range want {
					want[j] = zzvv.SAdd(cs[0][j], cs[k-1][j])
				}
				vvSameExp(h, "Add", c, want)
				vvSameExp(h, "operand of Add", polys[k-1], cs[k-1])
			}
			d := polys[0].Copy()
			polys[0].Reset()
			vvSameExp(h, "copy after the original was reset", d, cs[0])
			// doubling in place
			if err := d.Add(d); err != nil {
				h.Fail("Add to itself: %v", err)
			}
			want := make([]*big.Int, l)
			for j := range want {
				want[j] = zzvv.SAdd(cs[0][j], cs[0][j])
			}
			vvSameExp(h, "Add to itself", d, want)
		})
		p := vvPoly(cs[0])
		p.Reset()
		for i := range p.coefficients {
			h.Check(zzvv.Big(&p.coefficients[i]).Sign() == 0, "Polynomial.Reset leaves coefficient %d", i)
		}
	}
}

func TestVVNewPolynomial(t *testing.T) {
	h := zzvv.New(t)
	for n := 0; n < h.N(40) && !h.Failed(); n++ {
		deg := h.R.Intn(9)
		if n%10 == 9 {
			deg = 300
		}
		c := h.RandScalar()
		tape, done := h.NewTape()
		var p *Polynomial
		cs := zzvv.Scalar(c)
		ok := h.Catch("NewPolynomial", func() { p = NewPolynomial(party.Size(deg), cs) })
		done()
		if !ok {
			return
		}
		h.Case(deg > 0)
		h.Check(zzvv.Big(cs).Cmp(c) == 0, "NewPolynomial changed the constant")
		if !h.Check(len(p.coefficients) == deg+1, "NewPolynomial(%d): %d coefficients", deg, len(p.coefficients)) {
			return
		}
		h.Check(zzvv.Big(&p.coefficients[0]).Cmp(c) == 0, "NewPolynomial(%d, %v): constant %v", deg, c, zzvv.Big(&p.coefficients[0]))
		chunks := map[string]bool{}
		for _, k := range tape.Chunks() {
			chunks[k.String()] = true
		}
		for i := 1; i <= deg; i++ {
			v := zzvv.Big(&p.coefficients[i]).String()
			h.Check(chunks[v], "NewPolynomial(%d): coefficient %d is not drawn from 64 bytes of randomness of its own", deg, i)
			delete(chunks, v)
		}
		cs.Add(cs, cs)
		h.Check(zzvv.Big(&p.coefficients[0]).Cmp(c) == 0, "NewPolynomial keeps the caller's constant")
	}
}
