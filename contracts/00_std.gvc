# Assumed contracts of the Go standard library and of filippo.io/edwards25519.

fun scbytes(F) Bytes
fun unsc(Bytes) F
fun canonF(Bytes) Bool
fun elbytes(F) Bytes
fun unel(Bytes) F
fun canonE(Bytes) Bool
fun edbytes(F) Bytes
fun febytes(K) Bytes
fun unfe(Bytes) K
fun canonK(Bytes) Bool
fun uni(Bytes) F
fun sha512(Bytes) Bytes
fun dl(Pt) F
fun validpt(Pt) Bool
fun rnd(Int, Int) Bytes injective
fun rndok(Int) Bool
fun prand(Int) Int

extern binary.littleEndian.PutUint16(e, b, v)
  requires len(b) >= 2
  sets bytes(b) := cat(u8(v%256), u8(v/256))
extern binary.littleEndian.PutUint32(e, b, v)
  requires len(b) >= 4
  sets bytes(b) := cat(u8(v%256), u8(v/256%256), u8(v/65536%256), u8(v/16777216))
extern binary.bigEndian.PutUint16(e, b, v)
  requires len(b) >= 2
  sets bytes(b) := be16(v)
extern binary.bigEndian.Uint16(e, b) (r)
  requires len(b) >= 2
  returns r := be16val(b)
extern binary.bigEndian.AppendUint16(e, b, v) (r)
  appends r := b, be16(v)
extern bytes.Equal(a, b) (r)
  returns r := bytes(a) == bytes(b)

extern io.Reader.Read(r, p) (n, err)
  requires r == glob("crypto/rand.Reader")
  sets ghost_rnd := ghost_rnd + 1
  case rndok(ghost_rnd)
    sets bytes(p) := rnd(ghost_rnd, len(p))
    returns err := nil
    returns n := len(p)
  case !rndok(ghost_rnd)
    modifies bytes(p)
    ensures err != nil
    ensures 0 <= n && n <= len(p)
extern crypto/rand.Read(p) (n, err)
  sets ghost_rnd := ghost_rnd + 1
  case rndok(ghost_rnd)
    sets bytes(p) := rnd(ghost_rnd, len(p))
    returns err := nil
    returns n := len(p)
  case !rndok(ghost_rnd)
    modifies bytes(p)
    ensures err != nil
    ensures 0 <= n && n <= len(p)
extern io.ReadFull(r, p) (n, err)
  requires r == glob("crypto/rand.Reader")
  sets ghost_rnd := ghost_rnd + 1
  case rndok(ghost_rnd)
    sets bytes(p) := rnd(ghost_rnd, len(p))
    returns err := nil
    returns n := len(p)
  case !rndok(ghost_rnd)
    modifies bytes(p)
    ensures err != nil
    ensures 0 <= n && n <= len(p)
extern math/rand.Int31n(n) (r)
  requires n > 0
  sets ghost_prand := ghost_prand + 1
  ensures 0 <= r && r < n

# scalars: values in the field F of order l
extern edwards25519.NewScalar() (r)
  fresh r
  sets *r := 0
extern edwards25519.Scalar.Set(s, x) (r)
  requires s != nil && x != nil
  sets *s := *x
  returns r := s
extern edwards25519.Scalar.Add(s, x, y) (r)
  requires s != nil && x != nil && y != nil
  sets *s := *x + *y
  returns r := s
extern edwards25519.Scalar.Subtract(s, x, y) (r)
  requires s != nil && x != nil && y != nil
  sets *s := *x - *y
  returns r := s
extern edwards25519.Scalar.Multiply(s, x, y) (r)
  requires s != nil && x != nil && y != nil
  sets *s := *x * *y
  returns r := s
extern edwards25519.Scalar.MultiplyAdd(s, x, y, z) (r)
  requires s != nil && x != nil && y != nil && z != nil
  sets *s := *x * *y + *z
  returns r := s
extern edwards25519.Scalar.Negate(s, x) (r)
  requires s != nil && x != nil
  sets *s := -*x
  returns r := s
extern edwards25519.Scalar.Invert(s, x) (r)
  requires s != nil && x != nil
  sets *s := inv(*x)
  returns r := s
extern edwards25519.Scalar.Equal(s, x) (r)
  requires s != nil && x != nil
  returns r := ite(*s == *x, 1, 0)
extern edwards25519.Scalar.Bytes(s) (r)
  requires s != nil
  returns r := newbytes(scbytes(*s))
extern edwards25519.Scalar.SetUniformBytes(s, x) (r, err)
  requires s != nil
  case len(x) == 64
    sets *s := uni(bytes(x))
    returns r := s
    returns err := nil
  case len(x) != 64
    returns r := nil
    returns err := errnew()
extern edwards25519.Scalar.SetCanonicalBytes(s, x) (r, err)
  requires s != nil
  case len(x) == 32 && canonF(bytes(x))
    sets *s := unsc(bytes(x))
    returns r := s
    returns err := nil
  case !(len(x) == 32 && canonF(bytes(x)))
    returns r := nil
    returns err := errnew()
assume glob("crypto/rand.Reader") != nil

fun decfmt(Int) Bytes injective
fun decval(Bytes) Int
fun isdec(Bytes) Bool
axiom decrt(n: Int) {auto} {trigger decfmt(n)} 0 <= n ==> isdec(decfmt(n)) && decval(decfmt(n)) == n
extern strconv.FormatUint(i, base) (s)
  requires base == 10
  returns s := decfmt(i)
extern strconv.ParseUint(s, base, bits) (v, err)
  requires base == 10 && (bits == 16 || bits == 32 || bits == 64)
  case isdec(s) && decval(s) < ite(bits == 16, 65536, ite(bits == 32, 4294967296, 18446744073709551616))
    returns v := decval(s)
    returns err := nil
    ensures v >= 0
  case !(isdec(s) && decval(s) < ite(bits == 16, 65536, ite(bits == 32, 4294967296, 18446744073709551616)))
    ensures err != nil
rec cnt(v: [Int]Int, n: Int, x: Int): Int = ite(n <= 0, 0, cnt(v, n-1, x) + ite(v[n-1] == x, 1, 0))

fun b64(Bytes) Bytes injective
fun unb64(Bytes) Bytes
fun b64ok(Bytes) Bool
axiom b64rt(b: Bytes) {auto} {trigger b64(b)} b64ok(b64(b)) && unb64(b64(b)) == b
extern base64.Encoding.EncodeToString(enc, src) (s)
  returns s := b64(bytes(src))
extern base64.Encoding.DecodeString(enc, s) (b, err)
  case b64ok(bytes(s))
    returns b := newbytes(unb64(bytes(s)))
    returns err := nil
  case !b64ok(bytes(s))
    ensures err != nil
