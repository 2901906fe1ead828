# Assumed contracts of filippo.io/edwards25519: field elements (sort K, polynomials
# modulo p = 2^255-19) and points.  A point value p has a discrete logarithm dl(p) in the
# prime-order quotient group (base: the standard generator, modulo 4-torsion), and four
# coordinates; tf(p) says that p has no torsion component.

fun kneg(K) Bool
fun kabs(K) K
fun sqrtratio(K, K) K
fun wassq(K, K) Bool
fun cX(Pt) K
fun cY(Pt) K
fun cZ(Pt) K
fun cT(Pt) K
fun tf(Pt) Bool
fun mkxyzt(K, K, K, K) Pt
fun pbytes(Pt) Bytes

extern field.Element.Zero(v) (r)
  requires v != nil
  sets *v := 0
  returns r := v
extern field.Element.One(v) (r)
  requires v != nil
  sets *v := 1
  returns r := v
extern field.Element.Set(v, a) (r)
  requires v != nil && a != nil
  sets *v := *a
  returns r := v
extern field.Element.Add(v, a, b) (r)
  requires v != nil && a != nil && b != nil
  sets *v := *a + *b
  returns r := v
extern field.Element.Subtract(v, a, b) (r)
  requires v != nil && a != nil && b != nil
  sets *v := *a - *b
  returns r := v
extern field.Element.Negate(v, a) (r)
  requires v != nil && a != nil
  sets *v := -*a
  returns r := v
extern field.Element.Multiply(v, x, y) (r)
  requires v != nil && x != nil && y != nil
  sets *v := *x * *y
  returns r := v
extern field.Element.Square(v, x) (r)
  requires v != nil && x != nil
  sets *v := *x * *x
  returns r := v
extern field.Element.Select(v, a, b, cond) (r)
  requires v != nil && a != nil && b != nil && (cond == 0 || cond == 1)
  sets *v := ite(cond == 1, *a, *b)
  returns r := v
extern field.Element.IsNegative(v) (r)
  requires v != nil
  returns r := ite(kneg(*v), 1, 0)
extern field.Element.Absolute(v, u) (r)
  requires v != nil && u != nil
  sets *v := kabs(*u)
  returns r := v
# r must not alias u or v: SqrtRatio reads them after writing r
extern field.Element.SqrtRatio(r, u, v) (rr, ws)
  requires r != nil && u != nil && v != nil && r != u && r != v
  sets *r := sqrtratio(*u, *v)
  returns rr := r
  returns ws := ite(wassq(*u, *v), 1, 0)
extern field.Element.Equal(v, u) (r)
  requires v != nil && u != nil
  returns r := ite(*v == *u, 1, 0)
extern field.Element.Bytes(v) (r)
  requires v != nil
  returns r := newbytes(febytes(*v))
extern field.Element.SetBytes(v, x) (r, err)
  requires v != nil
  case len(x) == 32
    sets *v := unfe(bytes(x))
    returns r := v
    returns err := nil
  case len(x) != 32
    returns r := nil
    returns err := errnew()

extern edwards25519.NewIdentityPoint() (r)
  fresh r
  point *r := 0
  ensures tf(*r)
extern edwards25519.NewGeneratorPoint() (r)
  fresh r
  point *r := 1
  ensures tf(*r)
extern edwards25519.Point.Set(v, u) (r)
  requires v != nil && u != nil
  sets *v := *u
  returns r := v
extern edwards25519.Point.Add(v, p, q) (r)
  requires v != nil && p != nil && q != nil && validpt(*p) && validpt(*q)
  point *v := dl(*p) + dl(*q)
  ensures old(tf(*p)) && old(tf(*q)) ==> tf(*v)
  returns r := v
extern edwards25519.Point.Subtract(v, p, q) (r)
  requires v != nil && p != nil && q != nil && validpt(*p) && validpt(*q)
  point *v := dl(*p) - dl(*q)
  ensures old(tf(*p)) && old(tf(*q)) ==> tf(*v)
  returns r := v
extern edwards25519.Point.Negate(v, p) (r)
  requires v != nil && p != nil && validpt(*p)
  point *v := -dl(*p)
  ensures old(tf(*p)) ==> tf(*v)
  returns r := v
extern edwards25519.Point.MultByCofactor(v, p) (r)
  requires v != nil && p != nil && validpt(*p)
  point *v := 8 * dl(*p)
  ensures tf(*v)
  returns r := v
extern edwards25519.Point.ScalarBaseMult(v, x) (r)
  requires v != nil && x != nil
  point *v := *x
  ensures tf(*v)
  returns r := v
extern edwards25519.Point.ScalarMult(v, x, q) (r)
  requires v != nil && x != nil && q != nil && validpt(*q)
  point *v := *x * dl(*q)
  ensures old(tf(*q)) ==> tf(*v)
  returns r := v
extern edwards25519.Point.VarTimeDoubleScalarBaseMult(v, a, A, b) (r)
  requires v != nil && a != nil && A != nil && b != nil && validpt(*A)
  point *v := *a * dl(*A) + *b
  ensures old(tf(*A)) ==> tf(*v)
  returns r := v
rec dot(a: [Int]F, b: [Int]F, n: Int): F = ite(n <= 0, 0, dot(a, b, n-1) + a[n-1] * b[n-1])
extern edwards25519.Point.VarTimeMultiScalarMult(v, scalars, points) (r)
  requires v != nil && len(scalars) == len(points)
  requires forall(i, 0, len(points), scalars[i] != nil && points[i] != nil && validpt(*points[i]))
  point *v := dot(lam(i, *scalars[i]), lam(i, dl(*points[i])), len(points))
  returns r := v
# accumulates into the receiver: 16^63 times its old value, plus the sum; the receiver must
# be the neutral element for the result to be the sum, and must not be one of the points
extern edwards25519.Point.MultiScalarMult(v, scalars, points) (r)
  requires v != nil && len(scalars) == len(points) && validpt(*v) && dl(*v) == 0
  requires forall(i, 0, len(points), scalars[i] != nil && points[i] != nil && validpt(*points[i]))
  point *v := dot(lam(i, *scalars[i]), lam(i, dl(*points[i])), len(points))
  returns r := v
extern edwards25519.Point.ExtendedCoordinates(v) (X, Y, Z, T)
  requires v != nil && validpt(*v)
  fresh X Y Z T
  sets *X := cX(*v)
  sets *Y := cY(*v)
  sets *Z := cZ(*v)
  sets *T := cT(*v)
define oncurve(X, Y, Z, T) = Y*Y - X*X == Z*Z + EDD*T*T && X*Y == T*Z
define EDD = 37095705934669439343138083508754565189542113879843219016388785533085940283555
extern edwards25519.Point.SetExtendedCoordinates(v, X, Y, Z, T) (r, err)
  requires v != nil && X != nil && Y != nil && Z != nil && T != nil
  case oncurve(*X, *Y, *Z, *T)
    sets *v := mkxyzt(*X, *Y, *Z, *T)
    returns r := v
    returns err := nil
  case !oncurve(*X, *Y, *Z, *T)
    returns r := nil
    returns err := errnew()
extern edwards25519.Point.Bytes(v) (r)
  requires v != nil && validpt(*v)
  returns r := newbytes(pbytes(*v))
# the only point of a class without torsion: its encoding depends on the class only
axiom tfbytes(p: Pt) {auto} {trigger pbytes(p)} tf(p) ==> pbytes(p) == edbytes(dl(p))
