props C19
safety C11

rec pw(x: F, n: Int): F = ite(n <= 0, 1, pw(x, n-1) * x)
# sum of c_i x^i for i < n
rec psum(c: [Int]F, n: Int, x: F): F = ite(n <= 0, 0, psum(c, n-1, x) + c[n-1] * pw(x, n-1))
# the coefficients of a commitment, as discrete logarithms
define pc(p) = lam(i, dl(p.coefficients[i].r))
define pn(p) = len(p.coefficients)
define PV(p) = p != nil && forall(i, 0, len(p.coefficients), p.coefficients[i] != nil && V(p.coefficients[i]))
define pdistinct(p) = forall(i, 0, len(p.coefficients), forall(j, 0, len(p.coefficients), i != j ==> p.coefficients[i] != p.coefficients[j]))
define pfresh(p) = (pn(p) == 0 || fresh(p.coefficients)) && forall(i, 0, len(p.coefficients), fresh(p.coefficients[i]))
lemma dotpow(a: [Int]F, b: [Int]F, n: Int, x: F) {induct n} {trigger dot(a, b, n); psum(b, n, x)} forall(i, 0, n, a[i] == pw(x, i)) ==> dot(a, b, n) == psum(b, n, x)

func polynomial.NewPolynomial(degree, constant) (p)
  requires constant != nil && degree < 65535
  maypanic !forall(k, 0, degree, rndok(old(ghost_rnd) + k))
  fresh p
  modifies ghost_rnd
  ensures ghost_rnd == old(ghost_rnd) + degree
  ensures len(p.coefficients) == degree + 1 && fresh(p.coefficients)
  ensures p.coefficients[0] == *constant
  ensures forall(k, 0, degree, p.coefficients[k+1] == uni(rnd(old(ghost_rnd) + k, 64)))
  inv len (p: polynomial.Polynomial) len(p.coefficients) == degree + 1 && fresh(p.coefficients)
  inv cnt (i: party.Size) 1 <= i && i <= degree + 1 && ghost_rnd == old(ghost_rnd) + i - 1
  inv first (p: polynomial.Polynomial) p.coefficients[0] == *constant
  inv rest (p: polynomial.Polynomial, i: party.Size) forall(k, 0, i-1, p.coefficients[k+1] == uni(rnd(old(ghost_rnd) + k, 64)))
func polynomial.Polynomial.Evaluate(p, index) (r)
  requires p != nil && index != nil && *index != 0
  fresh r
  sets *r := psum(view(p.coefficients), len(p.coefficients), *index)
  inv horner (result: edwards25519.Scalar, i: int) result * pw(*index, i+1) + psum(view(p.coefficients), i+1, *index) == psum(view(p.coefficients), len(p.coefficients), *index)
  inv range (i: int) -1 <= i && i < len(p.coefficients)
func polynomial.Polynomial.Constant(p) (r)
  requires p != nil && len(p.coefficients) > 0
  fresh r
  sets *r := p.coefficients[0]
func polynomial.Polynomial.Degree(p) (r)
  requires p != nil
  ensures 1 <= len(p.coefficients) && len(p.coefficients) <= 65536 ==> r == len(p.coefficients) - 1
func polynomial.Polynomial.Size(p) (r)
  requires p != nil
  returns r := len(p.coefficients)
func polynomial.Polynomial.Reset(p)
  requires p != nil
  modifies elems(p.coefficients)
  ensures forall(i, 0, len(p.coefficients), p.coefficients[i] == 0)
  inv z forall(i, 0, it, p.coefficients[i] == 0)

func polynomial.NewPolynomialExponent(polynomial) (p)
  requires polynomial != nil
  fresh p
  ensures pn(p) == len(polynomial.coefficients) && PV(p) && pdistinct(p) && pfresh(p)
  ensures forall(i, 0, pn(p), D(p.coefficients[i]) == polynomial.coefficients[i])
  inv val (c: []*ristretto.Element) forall(i, 0, it, c[i] != nil && V(c[i]) && D(c[i]) == polynomial.coefficients[i])
  inv mem (c: []*ristretto.Element, b: []ristretto.Element) forall(i, 0, it, c[i] == &b[i])
func polynomial.Exponent.Evaluate(p, index) (r)
  requires PV(p) && index != nil && *index != 0
  fresh r
  point r.r := psum(pc(p), pn(p), *index)
func polynomial.Exponent.evaluateClassic(p, index, result) (r)
  requires PV(p) && index != nil && result != nil && *index != 0
  requires forall(i, 0, pn(p), p.coefficients[i] != result)
  point result.r := psum(pc(p), pn(p), *index)
  returns r := result
  inv pow (x: edwards25519.Scalar, i: int) x == pw(*index, i)
  inv powp (x: *edwards25519.Scalar, i: int) *x == pw(*index, i)
  inv acc (i: int) V(result) && D(result) == psum(old(pc(p)), i, *index)
  inv range (i: int) 0 <= i && i <= pn(p)
func polynomial.Exponent.evaluateVar(p, index, result) (r)
  use dotpow
  requires PV(p) && index != nil && result != nil && *index != 0
  point result.r := psum(pc(p), pn(p), *index)
  returns r := result
  inv pows (powers: []ristretto.Scalar, i: int) forall(k, 0, i, powers[k] == pw(*index, k))
  inv ptrs (powers: []ristretto.Scalar, pp: []*ristretto.Scalar, i: int) forall(k, 0, i, pp[k] == &powers[k])
  inv range (i: int) 0 <= i && i <= pn(p)
func polynomial.Exponent.evaluateHorner(p, index, result) (r)
  requires PV(p) && index != nil && result != nil && *index != 0
  requires forall(i, 0, pn(p), p.coefficients[i] != result)
  point result.r := psum(pc(p), pn(p), *index)
  returns r := result
  inv horner (i: int) V(result) && D(result) * pw(*index, i+1) + psum(old(pc(p)), i+1, *index) == psum(old(pc(p)), pn(p), *index)
  inv range (i: int) -1 <= i && i < pn(p)
func polynomial.Exponent.EvaluateMulti(p, indices) (m)
  requires PV(p) && forall(i, 0, len(indices), indices[i] != 0)
  fresh m
  ensures forall(k, has(m, k) == isin(indices, k))
  ensures forall(i, 0, len(indices), m[indices[i]] != nil && V(m[indices[i]]) && D(m[indices[i]]) == psum(pc(p), pn(p), toF(indices[i])))
  inv dom (m: map[party.ID]*ristretto.Element) forall(k, has(m, k) == exists(i, 0, it, indices[i] == k))
  inv val (m: map[party.ID]*ristretto.Element) forall(i, 0, it, m[indices[i]] != nil && fresh(m[indices[i]]) && V(m[indices[i]]) && D(m[indices[i]]) == psum(pc(p), pn(p), toF(indices[i])))
func polynomial.Exponent.Degree(p) (r)
  requires p != nil
  ensures 1 <= pn(p) && pn(p) <= 65536 ==> r == pn(p) - 1
  ensures r == (pn(p) + 65535) % 65536
func polynomial.Exponent.Add(p, q) (err)
  requires PV(p) && PV(q) && pdistinct(p)
  requires forall(i, 0, pn(p), forall(j, 0, pn(q), i != j ==> p.coefficients[i] != q.coefficients[j]))
  case pn(p) == pn(q)
    modifies targets(p.coefficients)
    ensures err == nil
    ensures PV(p) && forall(i, 0, pn(p), D(p.coefficients[i]) == old(D(p.coefficients[i]) + D(q.coefficients[i])))
  case pn(p) != pn(q)
    returns err := errnew()
  inv done (i: int) forall(k, 0, i, V(p.coefficients[k]) && D(p.coefficients[k]) == old(D(p.coefficients[k]) + D(q.coefficients[k])))
  inv todo (i: int) forall(k, i, pn(p), p.coefficients[k].r == old(p.coefficients[k].r) && q.coefficients[k].r == old(q.coefficients[k].r))
  inv range (i: int) 0 <= i && i <= pn(p)
func polynomial.Exponent.Reset(p)
  requires PV(p)
  modifies targets(p.coefficients)
  ensures PV(p) && forall(i, 0, pn(p), D(p.coefficients[i]) == 0)
  inv done (i: int) forall(k, 0, i, V(p.coefficients[k]) && D(p.coefficients[k]) == 0)
  inv range (i: int) 0 <= i && i <= pn(p)
func polynomial.Exponent.Constant(p) (r)
  requires PV(p) && pn(p) > 0
  fresh r
  sets *r := *p.coefficients[0]
func polynomial.Exponent.Copy(p) (q)
  requires PV(p)
  fresh q
  ensures pn(q) == pn(p) && PV(q) && pdistinct(q) && pfresh(q)
  ensures forall(i, 0, pn(q), q.coefficients[i].r == p.coefficients[i].r)
  inv val (c: []*ristretto.Element, i: int) forall(k, 0, i, c[k] != nil && c[k].r == p.coefficients[k].r)
  inv mem (c: []*ristretto.Element, b: []ristretto.Element, i: int) forall(k, 0, i, c[k] == &b[k])
  inv range (i: int) 0 <= i && i <= pn(p)
rec colsum(m: [Int][Int]F, n: Int, i: Int): F = ite(n <= 0, 0, colsum(m, n-1, i) + m[n-1][i])
define cols(ps) = lam(j, lam(i, D(ps[j].coefficients[i])))
func polynomial.Sum(polynomials) (r, err)
  requires len(polynomials) > 0 && forall(j, 0, len(polynomials), PV(polynomials[j]))
  ensures (err == nil) == forall(j, 0, len(polynomials), pn(polynomials[j]) == pn(polynomials[0]))
  ensures err == nil ==> r != nil && fresh(r) && pn(r) == pn(polynomials[0]) && PV(r) && pdistinct(r) && pfresh(r)
  ensures err == nil ==> forall(i, 0, pn(r), D(r.coefficients[i]) == colsum(old(cols(polynomials)), len(polynomials), i))
  inv lens (j: int) forall(k, 0, j, pn(polynomials[k]) == pn(polynomials[0]))
  inv mem (s: *polynomial.Exponent) s != nil && fresh(s) && pn(s) == pn(polynomials[0]) && PV(s) && pdistinct(s) && pfresh(s)
  inv sum (s: *polynomial.Exponent, j: int) forall(i, 0, pn(s), D(s.coefficients[i]) == colsum(old(cols(polynomials)), j, i))
  inv keep forall(k, 0, len(polynomials), forall(i, 0, pn(polynomials[k]), D(polynomials[k].coefficients[i]) == old(D(polynomials[k].coefficients[i]))))
  inv range (j: int) 1 <= j && j <= len(polynomials)
