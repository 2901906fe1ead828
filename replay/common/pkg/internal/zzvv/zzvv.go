// Package zzvv is the concrete side of the checks under /verif: an independent big-integer
// implementation of the field, the group and the encodings, used as oracle by the drivers.
// It is laid over /repo with go test -overlay and never part of the repository.
package zzvv

import (
	crand "crypto/rand"
	"crypto/sha512"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	"filippo.io/edwards25519"
)

// ---------- harness ----------

type H struct {
	T       *testing.T
	R       *rand.Rand
	Evals   int
	Nontriv int
	samples int
	fails   int
	mu      sync.Mutex
}

func New(t *testing.T) *H {
	seed, _ := strconv.ParseInt(os.Getenv("VV_SEED"), 10, 64)
	h := &H{T: t, R: rand.New(rand.NewSource(seed*7919 + 17))}
	t.Cleanup(func() { fmt.Printf("\nVVCOUNT %d %d\n", h.Evals, h.Nontriv) })
	return h
}

// Thorough multiplies the number of iterations in the thorough tier.
func (h *H) N(n int) int {
	if os.Getenv("VV_TIER") == "thorough" {
		return n * 12
	}
	return n
}

func (h *H) Case(nontrivial bool) {
	h.Evals++
	if nontrivial {
		h.Nontriv++
	}
}

func (h *H) Sample(f string, a ...interface{}) {
	if h.samples < 3 {
		h.samples++
		fmt.Printf("\nVVSAMPLE %s\n", strings.ReplaceAll(fmt.Sprintf(f, a...), "\n", " "))
	}
}

func (h *H) Fail(f string, a ...interface{}) {
	h.T.Helper()
	h.mu.Lock()
	defer h.mu.Unlock()
	h.fails++
	if h.fails <= 5 {
		fmt.Printf("\nVVFAIL %s: %s\n", h.T.Name(), strings.ReplaceAll(fmt.Sprintf(f, a...), "\n", " | "))
	}
	h.T.Fail()
}

func (h *H) Failed() bool { return h.fails > 0 }

// Check reports the failing input when cond is false.
func (h *H) Check(cond bool, f string, a ...interface{}) bool {
	if !cond {
		h.Fail(f, a...)
	}
	return cond
}

// Catch runs f and reports a panic as a failure on the described input.
func (h *H) Catch(desc string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			h.Fail("panic %v on %s: %s", r, desc, firstFrames(string(debug.Stack())))
			ok = false
		}
	}()
	f()
	return true
}

// Panics tells whether f panics.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			p = true
		}
	}()
	f()
	return false
}

func firstFrames(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "frost-ed25519") && strings.HasPrefix(l, "\t") {
			out = append(out, strings.TrimSpace(l))
			if len(out) == 4 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

func Hex(b []byte) string { return hex.EncodeToString(b) }

func (h *H) Bytes(n int) []byte {
	b := make([]byte, n)
	h.R.Read(b)
	return b
}

// ---------- numbers ----------

var (
	P, _   = new(big.Int).SetString("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", 16)
	L, _   = new(big.Int).SetString("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)
	One    = big.NewInt(1)
	D      = fdiv(big.NewInt(-121665), big.NewInt(121666))
	SqrtM1 = new(big.Int).Exp(big.NewInt(2), new(big.Int).Div(new(big.Int).Sub(P, One), big.NewInt(4)), P)
)

func mod(x, m *big.Int) *big.Int  { return new(big.Int).Mod(x, m) }
func fadd(a, b *big.Int) *big.Int { return mod(new(big.Int).Add(a, b), P) }
func fsub(a, b *big.Int) *big.Int { return mod(new(big.Int).Sub(a, b), P) }
func fmul(a, b *big.Int) *big.Int { return mod(new(big.Int).Mul(a, b), P) }
func fneg(a *big.Int) *big.Int    { return mod(new(big.Int).Neg(a), P) }
func fdiv(a, b *big.Int) *big.Int { return fmul(mod(a, P), new(big.Int).ModInverse(mod(b, P), P)) }
func isneg(a *big.Int) bool       { return a.Bit(0) == 1 }
func fabs(a *big.Int) *big.Int {
	if isneg(a) {
		return fneg(a)
	}
	return new(big.Int).Set(a)
}

// SAdd etc. work modulo the group order.
func SAdd(a, b *big.Int) *big.Int { return mod(new(big.Int).Add(a, b), L) }
func SSub(a, b *big.Int) *big.Int { return mod(new(big.Int).Sub(a, b), L) }
func SMul(a, b *big.Int) *big.Int { return mod(new(big.Int).Mul(a, b), L) }
func SInv(a *big.Int) *big.Int    { return new(big.Int).ModInverse(mod(a, L), L) }
func I(x int64) *big.Int          { return big.NewInt(x) }

func LE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func ToLE(x *big.Int, n int) []byte {
	b := x.Bytes()
	out := make([]byte, n)
	for i := range b {
		out[len(b)-1-i] = b[i]
	}
	return out
}

// Scalar converts to the library's scalar type.
func Scalar(x *big.Int) *edwards25519.Scalar {
	s, err := edwards25519.NewScalar().SetCanonicalBytes(ToLE(mod(x, L), 32))
	if err != nil {
		panic(err)
	}
	return s
}

func Big(s *edwards25519.Scalar) *big.Int { return LE(s.Bytes()) }

// RandScalar is uniform most of the time, and sometimes an edge value.
func (h *H) RandScalar() *big.Int {
	switch h.R.Intn(12) {
	case 0:
		return big.NewInt(int64(h.R.Intn(3)))
	case 1:
		return new(big.Int).Sub(L, big.NewInt(int64(1+h.R.Intn(3))))
	}
	return mod(LE(h.Bytes(64)), L)
}

// Lagrange computes the coefficient of id in ids by the textbook formula.
func Lagrange(id int64, ids []int64) *big.Int {
	num, den := big.NewInt(1), big.NewInt(1)
	for _, j := range ids {
		if j == id {
			continue
		}
		num = SMul(num, big.NewInt(j))
		den = SMul(den, mod(big.NewInt(j-id), L))
	}
	return SMul(num, SInv(den))
}

// Poly evaluates sum c_i x^i.
func Poly(c []*big.Int, x *big.Int) *big.Int {
	r := big.NewInt(0)
	for i := len(c) - 1; i >= 0; i-- {
		r = SAdd(SMul(r, x), c[i])
	}
	return r
}

// ---------- the curve, affine coordinates ----------

type Pt struct{ X, Y *big.Int }

var Id = Pt{big.NewInt(0), big.NewInt(1)}

var B = func() Pt {
	y := fdiv(big.NewInt(4), big.NewInt(5))
	p, ok := DecodeEd(ToLE(y, 32))
	if !ok {
		panic("base point")
	}
	return p
}()

// Add in extended coordinates would be faster; this is the plain affine law.
func (p Pt) Add(q Pt) Pt {
	x1y2, x2y1 := fmul(p.X, q.Y), fmul(q.X, p.Y)
	y1y2, x1x2 := fmul(p.Y, q.Y), fmul(p.X, q.X)
	d := fmul(D, fmul(fmul(p.X, q.X), fmul(p.Y, q.Y)))
	return Pt{fdiv(fadd(x1y2, x2y1), fadd(One, d)), fdiv(fadd(y1y2, x1x2), fsub(One, d))}
}

func (p Pt) Neg() Pt { return Pt{fneg(p.X), new(big.Int).Set(p.Y)} }

type ext struct{ x, y, z, t *big.Int }

func (p Pt) ext() ext { return ext{p.X, p.Y, One, fmul(p.X, p.Y)} }
func (e ext) affine() Pt {
	zi := new(big.Int).ModInverse(e.z, P)
	return Pt{fmul(e.x, zi), fmul(e.y, zi)}
}
func (e ext) add(f ext) ext {
	a := fmul(e.x, f.x)
	b := fmul(e.y, f.y)
	c := fmul(fmul(e.t, D), f.t)
	d := fmul(e.z, f.z)
	E := fsub(fsub(fmul(fadd(e.x, e.y), fadd(f.x, f.y)), a), b)
	F := fsub(d, c)
	G := fadd(d, c)
	H := fadd(b, a)
	return ext{fmul(E, F), fmul(G, H), fmul(F, G), fmul(E, H)}
}

func (p Pt) Mul(k *big.Int) Pt {
	r := Id.ext()
	q := p.ext()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.add(r)
		if k.Bit(i) == 1 {
			r = r.add(q)
		}
	}
	return r.affine()
}

func Base(k *big.Int) Pt { return B.Mul(mod(k, L)) }

func (p Pt) OnCurve() bool {
	x2, y2 := fmul(p.X, p.X), fmul(p.Y, p.Y)
	return fsub(y2, x2).Cmp(fadd(One, fmul(D, fmul(x2, y2)))) == 0
}

// EncodeEd is RFC 8032 point encoding.
func (p Pt) EncodeEd() []byte {
	b := ToLE(p.Y, 32)
	if isneg(p.X) {
		b[31] |= 0x80
	}
	return b
}

func sqrt(a *big.Int) (*big.Int, bool) {
	r := new(big.Int).ModSqrt(mod(a, P), P)
	if r == nil {
		return nil, false
	}
	return r, true
}

func DecodeEd(b []byte) (Pt, bool) {
	c := append([]byte{}, b...)
	s := c[31] >> 7
	c[31] &= 0x7f
	y := LE(c)
	if y.Cmp(P) >= 0 {
		return Pt{}, false
	}
	y2 := fmul(y, y)
	x, ok := sqrt(fdiv(fsub(y2, One), fadd(fmul(D, y2), One)))
	if !ok {
		return Pt{}, false
	}
	if x.Sign() == 0 && s == 1 {
		return Pt{}, false
	}
	if isneg(x) != (s == 1) {
		x = fneg(x)
	}
	return Pt{x, y}, true
}

// ---------- ristretto255 (RFC 9496) ----------

// sqrtRatio returns (was square, r).
func sqrtRatio(u, v *big.Int) (bool, *big.Int) {
	if u.Sign() == 0 {
		return true, big.NewInt(0)
	}
	if v.Sign() == 0 {
		return false, big.NewInt(0)
	}
	q := fdiv(u, v)
	if r, ok := sqrt(q); ok {
		return true, fabs(r)
	}
	r, _ := sqrt(fmul(SqrtM1, q))
	return false, fabs(r)
}

var (
	sqrtADMinusOne = func() *big.Int {
		// sqrt(a*d - 1), the root used in the specification
		r, _ := new(big.Int).SetString("25063068953384623474111414158702152701244531502492656460079210482610430750235", 10)
		if fmul(r, r).Cmp(fsub(fneg(D), One)) != 0 {
			panic("SQRT_AD_MINUS_ONE")
		}
		return r
	}()
	invSqrtAMinusD = func() *big.Int {
		r, _ := new(big.Int).SetString("54469307008909316920995813868745141605393597292927456921205312896311721017578", 10)
		if fmul(fmul(r, r), fsub(fneg(One), D)).Cmp(One) != 0 {
			panic("INVSQRT_A_MINUS_D")
		}
		return r
	}()
	oneMinusDSQ = fsub(One, fmul(D, D))
	dMinusOneSQ = fmul(fsub(D, One), fsub(D, One))
)

// EncodeR is the ristretto255 encoding of the coset of p.
func (p Pt) EncodeR() []byte {
	x0, y0, z0, t0 := p.X, p.Y, One, fmul(p.X, p.Y)
	u1 := fmul(fadd(z0, y0), fsub(z0, y0))
	u2 := fmul(x0, y0)
	_, inv := sqrtRatio(One, fmul(u1, fmul(u2, u2)))
	den1, den2 := fmul(inv, u1), fmul(inv, u2)
	zinv := fmul(fmul(den1, den2), t0)
	x, y, den := x0, y0, den2
	if isneg(fmul(t0, zinv)) {
		x, y, den = fmul(y0, SqrtM1), fmul(x0, SqrtM1), fmul(den1, invSqrtAMinusD)
	}
	if isneg(fmul(x, zinv)) {
		y = fneg(y)
	}
	return ToLE(fabs(fmul(den, fsub(z0, y))), 32)
}

// DecodeR is ristretto255 decoding.
func DecodeR(b []byte) (Pt, bool) {
	if len(b) != 32 {
		return Pt{}, false
	}
	s := LE(b)
	if s.Cmp(P) >= 0 || isneg(s) {
		return Pt{}, false
	}
	ss := fmul(s, s)
	u1, u2 := fsub(One, ss), fadd(One, ss)
	u2s := fmul(u2, u2)
	v := fsub(fneg(fmul(D, fmul(u1, u1))), u2s)
	ok, inv := sqrtRatio(One, fmul(v, u2s))
	dx := fmul(inv, u2)
	dy := fmul(fmul(inv, dx), v)
	x := fabs(fmul(fmul(big.NewInt(2), s), dx))
	y := fmul(u1, dy)
	t := fmul(x, y)
	if !ok || isneg(t) || y.Sign() == 0 {
		return Pt{}, false
	}
	return Pt{x, y}, true
}

func mapR(t *big.Int) Pt {
	r := fmul(SqrtM1, fmul(t, t))
	u := fmul(fadd(r, One), oneMinusDSQ)
	v := fmul(fsub(fneg(One), fmul(r, D)), fadd(r, D))
	ok, s := sqrtRatio(u, v)
	c := fneg(One)
	if !ok {
		s = fneg(fabs(fmul(s, t)))
		c = r
	}
	N := fsub(fmul(fmul(c, fsub(r, One)), dMinusOneSQ), v)
	s2 := fmul(s, s)
	w0 := fmul(fadd(s, s), v)
	w1 := fmul(N, sqrtADMinusOne)
	w2 := fsub(One, s2)
	w3 := fadd(One, s2)
	return ext{fmul(w0, w3), fmul(w2, w1), fmul(w1, w3), fmul(w0, w2)}.affine()
}

// Uniform is the one-way map of ristretto255 on 64 bytes.
func Uniform(b []byte) Pt {
	h := func(c []byte) *big.Int {
		c = append([]byte{}, c...)
		c[31] &= 0x7f
		return mod(LE(c), P)
	}
	return mapR(h(b[:32])).Add(mapR(h(b[32:])))
}

// TorsionFree returns the member of p's coset with order l: [8^-1 mod l] [8] p.
func (p Pt) TorsionFree() Pt {
	return p.Mul(big.NewInt(8)).Mul(SInv(big.NewInt(8)))
}

// EqR is equality as ristretto elements.
func (p Pt) EqR(q Pt) bool {
	return string(p.EncodeR()) == string(q.EncodeR())
}

// Torsion4 are the points of order dividing 4.
var Torsion4 = []Pt{Id, {big.NewInt(0), fneg(One)}, {SqrtM1, big.NewInt(0)}, {fneg(SqrtM1), big.NewInt(0)}}

// Edwards converts to the library's point type.
func (p Pt) Edwards() *edwards25519.Point {
	q, err := new(edwards25519.Point).SetBytes(p.EncodeEd())
	if err != nil {
		panic(err)
	}
	return q
}

// ---------- hashing ----------

func Sha512(parts ...[]byte) []byte {
	h := sha512.New()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func HashScalar(parts ...[]byte) *big.Int { return mod(LE(Sha512(parts...)), L) }

func BE16(x int) []byte { return []byte{byte(x >> 8), byte(x)} }

func Cat(parts ...[]byte) []byte {
	var out []byte
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

// ---------- randomness ----------

// Tape is a deterministic source put in place of crypto/rand.Reader; everything it hands out is kept.
type Tape struct {
	mu    sync.Mutex
	r     *rand.Rand
	Data  []byte
	Reads []int
	Fail  int // fail from this read on when > 0
}

var ErrTape = errors.New("tape: no randomness")

func (t *Tape) Read(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.Reads = append(t.Reads, len(b))
	if t.Fail > 0 && len(t.Reads) >= t.Fail {
		return 0, ErrTape
	}
	t.r.Read(b)
	t.Data = append(t.Data, b...)
	return len(b), nil
}

// NewTape installs a fresh tape until the returned function is called.
func (h *H) NewTape() (*Tape, func()) {
	t := &Tape{r: rand.New(rand.NewSource(h.R.Int63()))}
	old := crand.Reader
	crand.Reader = t
	return t, func() { crand.Reader = old }
}

// Chunks are the scalars obtained from consecutive 64 byte pieces of what was drawn.
func (t *Tape) Chunks() (out []*big.Int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	for i := 0; i+64 <= len(t.Data); i += 64 {
		out = append(out, mod(LE(t.Data[i:i+64]), L))
	}
	return
}

// Flip returns b with one bit changed.
func (h *H) Flip(b []byte) []byte {
	c := append([]byte{}, b...)
	i := h.R.Intn(len(c) * 8)
	c[i/8] ^= 1 << (i % 8)
	return c
}

// IDs returns n distinct identifiers, ascending, mixing small, boundary and random values.
func (h *H) IDs(n int) []int64 {
	edge := []int64{1, 2, 3, 4, 5, 127, 128, 255, 256, 257, 511, 512, 32767, 32768, 65279, 65280, 65534, 65535}
	m := map[int64]bool{}
	mode := h.R.Intn(3)
	for len(m) < n {
		switch {
		case mode == 0:
			m[int64(len(m)+1)] = true
		case mode == 1 && h.R.Intn(2) == 0:
			m[edge[h.R.Intn(len(edge))]] = true
		default:
			m[int64(1+h.R.Intn(65535))] = true
		}
	}
	var out []int64
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// CanonScalar tells whether b is the canonical encoding of a scalar.
func CanonScalar(b []byte) bool { return len(b) == 32 && LE(b).Cmp(L) < 0 }

// CanonElement tells whether b is the canonical encoding of a group element.
func CanonElement(b []byte) bool {
	if len(b) != 32 {
		return false
	}
	_, ok := DecodeR(b)
	return ok
}
