# pkg/ristretto.  The formulas below are those of RFC 9496, section 4; that they compute
# the encoding of a class is mathematics about the curve (axioms rfc*), that the code
# computes these formulas is what is proved.
props C17
safety C11

fun elligator(K) F
define SQM1 = 19681161376707505956807079304988542015446066515923890162744021073123829784752
define SQRT_AD_MINUS_ONE = 25063068953384623474111414158702152701244531502492656460079210482610430750235
define INVSQRT_A_MINUS_D = 54469307008909316920995813868745141605393597292927456921205312896311721017578
define ONE_MINUS_D_SQ = 1159843021668779879193775521855586647937357759715417654439879720876111806838
define D_MINUS_ONE_SQ = 40440834346308536858101042469323190826248399146238708352240133220865137265952

define D(e) = dl(e.r)
define V(e) = validpt(e.r)

# 4.3.3 Equals
axiom rfcequals(p: Pt, q: Pt) {trigger cX(p); cX(q)} validpt(p) && validpt(q) ==> (cX(p)*cY(q) == cY(p)*cX(q) || cY(p)*cY(q) == cX(p)*cX(q)) == (dl(p) == dl(q))
# 4.3.2 Encode
define eu1(Y, Z) = (Z+Y)*(Z-Y)
define eisq(X, Y, Z) = sqrtratio(1, eu1(Y, Z)*X*X*Y*Y)
define eden1(X, Y, Z) = eisq(X, Y, Z)*eu1(Y, Z)
define eden2(X, Y, Z) = eisq(X, Y, Z)*X*Y
define ezinv(X, Y, Z, T) = eden1(X, Y, Z)*eden2(X, Y, Z)*T
define erot(X, Y, Z, T) = kneg(T*ezinv(X, Y, Z, T))
define ex(X, Y, Z, T) = ite(erot(X, Y, Z, T), Y*SQM1, X)
define ey0(X, Y, Z, T) = ite(erot(X, Y, Z, T), X*SQM1, Y)
define edeninv(X, Y, Z, T) = ite(erot(X, Y, Z, T), eden1(X, Y, Z)*INVSQRT_A_MINUS_D, eden2(X, Y, Z))
define ey(X, Y, Z, T) = ite(kneg(ex(X, Y, Z, T)*ezinv(X, Y, Z, T)), -ey0(X, Y, Z, T), ey0(X, Y, Z, T))
define es(X, Y, Z, T) = kabs(edeninv(X, Y, Z, T)*(Z-ey(X, Y, Z, T)))
axiom rfcencode(p: Pt) {trigger cX(p)} validpt(p) ==> febytes(es(cX(p), cY(p), cZ(p), cT(p))) == elbytes(dl(p))
# 4.3.1 Decode
define du1(s) = 1 - s*s
define du2(s) = 1 + s*s
define dv(s) = -(EDD*du1(s)*du1(s)) - du2(s)*du2(s)
define disq(s) = sqrtratio(1, dv(s)*du2(s)*du2(s))
define ddenx(s) = disq(s)*du2(s)
define ddeny(s) = disq(s)*ddenx(s)*dv(s)
define dx(s) = kabs(2*s*ddenx(s))
define dy(s) = du1(s)*ddeny(s)
define dt(s) = dx(s)*dy(s)
define dok(s) = wassq(1, dv(s)*du2(s)*du2(s)) && !kneg(dt(s)) && dy(s) != 0
axiom rfcdecode(b: Bytes) {trigger unfe(b)} canonE(b) == (canonK(b) && !kneg(unfe(b)) && dok(unfe(b)))
axiom rfcdecodept(b: Bytes) {trigger unfe(b)} canonE(b) ==> oncurve(dx(unfe(b)), dy(unfe(b)), 1, dt(unfe(b))) && validpt(mkxyzt(dx(unfe(b)), dy(unfe(b)), 1, dt(unfe(b)))) && dl(mkxyzt(dx(unfe(b)), dy(unfe(b)), 1, dt(unfe(b)))) == unel(b)
# 4.3.4 MAP
define mr(t) = SQM1*t*t
define mu(t) = (mr(t)+1)*ONE_MINUS_D_SQ
define mv(t) = (-1 - mr(t)*EDD)*(mr(t)+EDD)
define msq(t) = wassq(mu(t), mv(t))
define ms0(t) = sqrtratio(mu(t), mv(t))
define ms(t) = ite(msq(t), ms0(t), -kabs(ms0(t)*t))
define mc(t) = ite(msq(t), -1, mr(t))
define mN(t) = mc(t)*(mr(t)-1)*D_MINUS_ONE_SQ - mv(t)
define mw0(t) = 2*ms(t)*mv(t)
define mw1(t) = mN(t)*SQRT_AD_MINUS_ONE
define mw2(t) = 1 - ms(t)*ms(t)
define mw3(t) = 1 + ms(t)*ms(t)
define mpt(t) = mkxyzt(mw0(t)*mw3(t), mw2(t)*mw1(t), mw1(t)*mw3(t), mw0(t)*mw2(t))
axiom rfcmap(b: Bytes) {trigger unfe(b)} oncurve(mw0(unfe(b))*mw3(unfe(b)), mw2(unfe(b))*mw1(unfe(b)), mw1(unfe(b))*mw3(unfe(b)), mw0(unfe(b))*mw2(unfe(b))) && validpt(mpt(unfe(b))) && dl(mpt(unfe(b))) == elligator(unfe(b))

func ristretto.NewScalar() (r)
  fresh r
  sets *r := 0
func ristretto.NewIdentityElement() (e)
  fresh e
  point e.r := 0
func ristretto.NewGeneratorElement() (e)
  fresh e
  point e.r := 1
func ristretto.Element.Set(e, x) (r)
  requires e != nil && x != nil
  sets *e := *x
  returns r := e
func ristretto.Element.Equal(e, ee) (r)
  use rfcequals
  requires e != nil && ee != nil && V(e) && V(ee)
  returns r := ite(D(e) == D(ee), 1, 0)
func ristretto.Element.SetUniformBytes(e, b) (r, err)
  use rfcmap
  requires e != nil
  case len(b) == 64
    point e.r := elligator(unfe(sub(bytes(b), 0, 32))) + elligator(unfe(sub(bytes(b), 32, 32)))
    returns r := e
    returns err := nil
  case len(b) != 64
    returns r := nil
    returns err := errnew()
func ristretto.Element.Bytes(e) (b)
  use rfcencode
  requires e != nil && V(e)
  returns b := newbytes(elbytes(D(e)))
func ristretto.Element.SetCanonicalBytes(e, in) (r, err)
  use rfcdecode rfcdecodept
  requires e != nil
  case len(in) == 32 && canonE(bytes(in))
    point e.r := unel(bytes(in))
    returns r := e
    returns err := nil
  case !(len(in) == 32 && canonE(bytes(in)))
    returns r := nil
    ensures err != nil
func ristretto.Element.ScalarBaseMult(e, s) (r)
  requires e != nil && s != nil
  point e.r := *s
  returns r := e
func ristretto.Element.ScalarMult(e, s, p) (r)
  requires e != nil && s != nil && p != nil && V(p)
  point e.r := *s * D(p)
  returns r := e
func ristretto.Element.MultiScalarMult(e, s, p) (r)
  requires e != nil && len(s) == len(p)
  requires forall(i, 0, len(p), s[i] != nil && p[i] != nil && V(p[i]))
  point e.r := dot(lam(i, *s[i]), lam(i, D(p[i])), len(p))
  returns r := e
  inv pts (points: []*edwards25519.Point) forall(k, 0, it, points[k] == &p[k].r)
func ristretto.Element.VarTimeMultiScalarMult(e, s, p) (r)
  requires e != nil && len(s) == len(p)
  requires forall(i, 0, len(p), s[i] != nil && p[i] != nil && V(p[i]))
  point e.r := dot(lam(i, *s[i]), lam(i, D(p[i])), len(p))
  returns r := e
  inv pts (points: []*edwards25519.Point) forall(k, 0, it, points[k] == &p[k].r)
func ristretto.Element.VarTimeDoubleScalarBaseMult(e, a, A, b) (r)
  requires e != nil && a != nil && A != nil && b != nil && V(A)
  point e.r := *a * D(A) + *b
  returns r := e
func ristretto.Element.Add(e, p, q) (r)
  requires e != nil && p != nil && q != nil && V(p) && V(q)
  point e.r := D(p) + D(q)
  returns r := e
func ristretto.Element.Subtract(e, p, q) (r)
  requires e != nil && p != nil && q != nil && V(p) && V(q)
  point e.r := D(p) - D(q)
  returns r := e
func ristretto.Element.Negate(e, p) (r)
  requires e != nil && p != nil && V(p)
  point e.r := -D(p)
  returns r := e
func ristretto.Element.MarshalText(e) (text, err)
  use rfcencode
  requires e != nil && V(e)
  returns text := newbytes(b64(elbytes(D(e))))
  returns err := nil
func ristretto.Element.String(e) (s)
  requires e != nil && V(e)
  returns s := b64(elbytes(D(e)))
func ristretto.Element.UnmarshalText(e, text) (err)
  requires e != nil
  case b64ok(bytes(text)) && len(unb64(bytes(text))) == 32 && canonE(unb64(bytes(text)))
    point e.r := unel(unb64(bytes(text)))
    returns err := nil
  case !(b64ok(bytes(text)) && len(unb64(bytes(text))) == 32 && canonE(unb64(bytes(text))))
    ensures err != nil
func ristretto.Element.BytesEd25519(e) (b)
  requires e != nil && V(e)
  returns b := newbytes(edbytes(D(e)))
