props C09 C10
safety C11

# ---- committed polynomials: 2 bytes of degree, then the coefficients ----
rec encpts(c: [Int]F, n: Int): Bytes = ite(n <= 0, zeros(0), cat(encpts(c, n-1), elbytes(c[n-1])))
lemma enclen(c: [Int]F, n: Int) {auto} {induct n} {trigger encpts(c, n)} 0 <= n ==> len(encpts(c, n)) == 32*n
define encpoly(p) = cat(be16((pn(p) + 65535) % 65536), encpts(pc(p), pn(p)))
define polyok(b) = len(b) >= 2 && len(b) == 34 + 32*be16val(b) && forall(i, 0, be16val(b) + 1, canonE(sub(bytes(b), 2 + 32*i, 32)))
# decoding finds the encoded coefficients again
lemma encsub(c: [Int]F, n: Int, i: Int) {induct n} {trigger encpts(c, n); c[i]} 0 <= i && i < n ==> sub(encpts(c, n), 32*i, 32) == elbytes(c[i])
# the encoding of decoded coefficients is what was decoded
lemma encdec(c: [Int]F, b: Bytes, o: Int, m: Int, n: Int) {induct n} {trigger encpts(c, n); sub(b, o, m)} 0 <= n && 0 <= o && o + 32*n <= len(b) && forall(i, 0, n, canonE(sub(b, o + 32*i, 32)) && c[i] == unel(sub(b, o + 32*i, 32))) ==> encpts(c, n) == sub(b, o, 32*n)
func polynomial.Exponent.Size(p) (r)
  requires p != nil
  returns r := 2 + 32*pn(p)
func polynomial.Exponent.BytesAppend(p, existing) (data, err)
  requires PV(p)
  grows data := existing, encpoly(p)
  returns err := nil
  inv acc (e: []byte, i: int) bytes(e) == cat(old(bytes(existing)), be16((pn(p) + 65535) % 65536), encpts(pc(p), i))
  inv cases (e: []byte) fresh(e) || (ref(e) == ref(existing) && off(e) == off(existing) && cap(e) == cap(existing))
  inv len (e: []byte, i: int) len(e) == len(existing) + 2 + 32*i
  inv room roomonly(existing)
  inv range (i: int) 0 <= i && i <= pn(p)
func polynomial.Exponent.MarshalBinary(p) (data, err)
  requires PV(p)
  returns data := newbytes(encpoly(p))
  returns err := nil
func polynomial.Exponent.UnmarshalBinary(p, data) (err)
  use encdec
  requires p != nil
  modifies p.coefficients
  ensures (err == nil) == polyok(data)
  ensures err == nil ==> PV(p) && pdistinct(p) && pfresh(p) && pn(p) == be16val(data) + 1
  ensures err == nil ==> forall(i, 0, pn(p), D(p.coefficients[i]) == unel(sub(bytes(data), 2+32*i, 32)))
  ensures [C10] err == nil ==> bytes(data) == encpoly(p)
  inv rem (r: []byte, i: int) ref(r) == ref(data) && off(r) == off(data) + 2 + 32*i && len(r) == len(data) - 2 - 32*i
  inv can (i: int) forall(k, 0, i, canonE(sub(bytes(data), 2 + 32*k, 32)))
  inv val (i: int) forall(k, 0, i, p.coefficients[k] != nil && V(p.coefficients[k]) && D(p.coefficients[k]) == unel(sub(bytes(data), 2+32*k, 32)))
  inv mem (b: []ristretto.Element, i: int) forall(k, 0, i, p.coefficients[k] == &b[k])
  inv range (i: int) 0 <= i && i <= pn(p)
func polynomial.Exponent.Equal(p, other) (ok)
  requires PV(p) && (typeis(other, "*polynomial.Exponent") ==> PV(unbox(other, "*polynomial.Exponent")))
  ensures ok == (typeis(other, "*polynomial.Exponent") && pn(unbox(other, "*polynomial.Exponent")) == pn(p) && forall(i, 0, pn(p), D(unbox(other, "*polynomial.Exponent").coefficients[i]) == D(p.coefficients[i])))
  inv same (o: *polynomial.Exponent, i: int) forall(k, 0, i, D(o.coefficients[k]) == D(p.coefficients[k]))
  inv range (i: int) 0 <= i && i <= pn(p)

# ---- proofs: challenge, response ----
define encschnorr(p) = cat(scbytes(p.S), scbytes(p.R))
define schnorrok(b) = len(b) == 64 && canonF(sub(b, 0, 32)) && canonF(sub(b, 32, 32))
func zk.Schnorr.Size(proof) (r)
  returns r := 64
func zk.Schnorr.BytesAppend(proof, existing) (data, err)
  requires proof != nil
  grows data := existing, encschnorr(proof)
  returns err := nil
func zk.Schnorr.MarshalBinary(proof) (data, err)
  requires proof != nil
  returns data := newbytes(encschnorr(proof))
  returns err := nil
func zk.Schnorr.UnmarshalBinary(proof, data) (err)
  requires proof != nil
  modifies proof.S, proof.R
  ensures (err == nil) == schnorrok(bytes(data))
  ensures err == nil ==> proof.S == unsc(sub(bytes(data), 0, 32)) && proof.R == unsc(sub(bytes(data), 32, 32))
  ensures [C10] err == nil ==> bytes(data) == encschnorr(proof)

# ---- signatures: R, S ----
define encsig(s) = cat(elbytes(D(&s.R)), scbytes(s.S))
define sigok(b) = len(b) == 64 && canonE(sub(b, 0, 32)) && canonF(sub(b, 32, 32))
func eddsa.Signature.Size(sig) (r)
  returns r := 64
func eddsa.Signature.BytesAppend(sig, existing) (data, err)
  requires sig != nil && validpt(sig.R.r)
  grows data := existing, encsig(sig)
  returns err := nil
func eddsa.Signature.MarshalBinary(sig) (data, err)
  requires sig != nil && validpt(sig.R.r)
  returns data := newbytes(encsig(sig))
  returns err := nil
func eddsa.Signature.UnmarshalBinary(sig, data) (err)
  requires sig != nil
  modifies sig.R, sig.S
  ensures (err == nil) == sigok(bytes(data))
  ensures err == nil ==> validpt(sig.R.r) && dl(sig.R.r) == unel(sub(bytes(data), 0, 32)) && sig.S == unsc(sub(bytes(data), 32, 32))
  ensures [C10] err == nil ==> bytes(data) == encsig(sig)

# ---- header: type, from, to ----
define hdrok(h) = ((h.Type == 1 || h.Type == 3 || h.Type == 4) && h.To == 0 || h.Type == 2 && h.To != 0) && h.From != 0
define enchdr(h) = cat(u8(h.Type), be16(h.From), be16(h.To))
define bt(b) = be16val(cat(u8(0), sub(b, 0, 1)))
define bfrom(b) = be16val(sub(b, 1, 2))
define bto(b) = be16val(sub(b, 3, 2))
define hdrbytes(b) = len(b) >= 5 && ((bt(b) == 1 || bt(b) == 3 || bt(b) == 4) && bto(b) == 0 || bt(b) == 2 && bto(b) != 0) && bfrom(b) != 0
func messages.Header.Size(h) (r)
  returns r := 5
func messages.Header.IsBroadcast(h) (r)
  requires h != nil
  returns r := h.To == 0
func messages.Header.BytesAppend(h, existing) (data, err)
  requires h != nil
  case hdrok(h)
    grows data := existing, enchdr(h)
    returns err := nil
  case !hdrok(h)
    ensures err != nil && data == nil
func messages.Header.MarshalBinary(h) (data, err)
  requires h != nil
  case hdrok(h)
    returns data := newbytes(enchdr(h))
    returns err := nil
  case !hdrok(h)
    ensures err != nil && data == nil
func messages.Header.UnmarshalBinary(h, data) (err)
  requires h != nil
  case hdrbytes(bytes(data))
    sets h.Type := bt(bytes(data))
    sets h.From := bfrom(bytes(data))
    sets h.To := bto(bytes(data))
    returns err := nil
    ensures [C10] sub(bytes(data), 0, 5) == enchdr(h)
  case !hdrbytes(bytes(data))
    ensures err != nil
func messages.Header.Equal(h, other) (ok)
  requires h != nil && (typeis(other, "*messages.Header") ==> unbox(other, "*messages.Header") != nil)
  case typeis(other, "messages.Header")
    returns ok := unbox(other, "messages.Header").Type == h.Type && unbox(other, "messages.Header").From == h.From && unbox(other, "messages.Header").To == h.To
  case typeis(other, "*messages.Header")
    returns ok := unbox(other, "*messages.Header").Type == h.Type && unbox(other, "*messages.Header").From == h.From && unbox(other, "*messages.Header").To == h.To
  case !typeis(other, "messages.Header") && !typeis(other, "*messages.Header")
    returns ok := false

# ---- payloads ----
define polybytes(b) = len(b) >= 2 && len(b) == 34 + 32*be16val(sub(b, 0, 2)) && forall(i, 0, be16val(sub(b, 0, 2)) + 1, canonE(sub(b, 2 + 32*i, 32)))
define kg1ok(m) = m != nil && m.Proof != nil && PV(m.Commitments)
define enckg1(m) = cat(encschnorr(m.Proof), encpoly(m.Commitments))
define kg1bytes(b) = len(b) >= 64 && schnorrok(sub(b, 0, 64)) && polybytes(sub(b, 64, len(b) - 64))
func messages.KeyGen1.Size(m) (r)
  requires kg1ok(m)
  returns r := 66 + 32*pn(m.Commitments)
func messages.KeyGen1.BytesAppend(m, existing) (data, err)
  requires kg1ok(m)
  grows data := existing, enckg1(m)
  returns err := nil
func messages.KeyGen1.MarshalBinary(m) (data, err)
  requires kg1ok(m)
  returns data := newbytes(enckg1(m))
  returns err := nil
func messages.KeyGen1.UnmarshalBinary(m, data) (err)
  requires m != nil
  modifies m.Proof, m.Commitments
  ensures (err == nil) == kg1bytes(bytes(data))
  ensures err == nil ==> kg1ok(m) && pdistinct(m.Commitments) && pfresh(m.Commitments) && fresh(m.Proof) && fresh(m.Commitments)
  ensures [C10] err == nil ==> bytes(data) == enckg1(m)
define eqpoly(p, q) = pn(p) == pn(q) && forall(i, 0, pn(p), D(p.coefficients[i]) == D(q.coefficients[i]))
func messages.KeyGen1.Equal(m, other) (ok)
  requires kg1ok(m) && (typeis(other, "*messages.KeyGen1") ==> kg1ok(unbox(other, "*messages.KeyGen1")))
  ensures ok == (typeis(other, "*messages.KeyGen1") && unbox(other, "*messages.KeyGen1").Proof.S == m.Proof.S && unbox(other, "*messages.KeyGen1").Proof.R == m.Proof.R && eqpoly(m.Commitments, unbox(other, "*messages.KeyGen1").Commitments))
func messages.NewKeyGen1(from, proof, commitments) (m)
  fresh m
  ensures fresh(m.KeyGen1)
  ensures m.Header.Type == 1 && m.Header.From == from && m.Header.To == 0
  ensures m.KeyGen1.Proof == proof && m.KeyGen1.Commitments == commitments

define scb(b) = len(b) == 32 && canonF(b)
func messages.KeyGen2.Size(m) (r)
  returns r := 32
func messages.KeyGen2.BytesAppend(m, existing) (data, err)
  requires m != nil
  grows data := existing, scbytes(m.Share)
  returns err := nil
func messages.KeyGen2.MarshalBinary(m) (data, err)
  requires m != nil
  returns data := newbytes(scbytes(m.Share))
  returns err := nil
func messages.KeyGen2.UnmarshalBinary(m, data) (err)
  requires m != nil
  modifies m.Share
  ensures (err == nil) == scb(bytes(data))
  ensures [C10] err == nil ==> bytes(data) == scbytes(m.Share)
func messages.KeyGen2.Equal(m, other) (ok)
  requires m != nil && (typeis(other, "*messages.KeyGen2") ==> unbox(other, "*messages.KeyGen2") != nil)
  returns ok := typeis(other, "*messages.KeyGen2") && unbox(other, "*messages.KeyGen2").Share == m.Share
func messages.NewKeyGen2(from, to, share) (m)
  requires share != nil
  fresh m
  ensures fresh(m.KeyGen2)
  ensures m.Header.Type == 2 && m.Header.From == from && m.Header.To == to
  ensures m.KeyGen2.Share == *share

define enc2(m) = cat(elbytes(D(&m.Di)), elbytes(D(&m.Ei)))
define s1ok(m) = m != nil && V(&m.Di) && V(&m.Ei)
define s1bytes(b) = len(b) == 64 && canonE(sub(b, 0, 32)) && canonE(sub(b, 32, 32))
func messages.Sign1.Size(m) (r)
  returns r := 64
func messages.Sign1.BytesAppend(m, existing) (data, err)
  requires s1ok(m)
  grows data := existing, enc2(m)
  returns err := nil
func messages.Sign1.MarshalBinary(m) (data, err)
  requires s1ok(m)
  returns data := newbytes(enc2(m))
  returns err := nil
func messages.Sign1.UnmarshalBinary(m, data) (err)
  requires m != nil
  modifies m.Di, m.Ei
  ensures (err == nil) == s1bytes(bytes(data))
  ensures err == nil ==> s1ok(m)
  ensures [C10] err == nil ==> bytes(data) == enc2(m)
func messages.Sign1.Equal(m, other) (ok)
  requires s1ok(m) && (typeis(other, "*messages.Sign1") ==> s1ok(unbox(other, "*messages.Sign1")))
  returns ok := typeis(other, "*messages.Sign1") && D(&unbox(other, "*messages.Sign1").Di) == D(&m.Di) && D(&unbox(other, "*messages.Sign1").Ei) == D(&m.Ei)
func messages.NewSign1(from, d, e) (m)
  requires d != nil && e != nil
  fresh m
  ensures fresh(m.Sign1)
  ensures m.Header.Type == 3 && m.Header.From == from && m.Header.To == 0
  ensures m.Sign1.Di.r == d.r && m.Sign1.Ei.r == e.r

func messages.Sign2.Size(m) (r)
  returns r := 32
func messages.Sign2.BytesAppend(m, existing) (data, err)
  requires m != nil
  grows data := existing, scbytes(m.Zi)
  returns err := nil
func messages.Sign2.MarshalBinary(m) (data, err)
  requires m != nil
  returns data := newbytes(scbytes(m.Zi))
  returns err := nil
func messages.Sign2.UnmarshalBinary(m, data) (err)
  requires m != nil
  modifies m.Zi
  ensures (err == nil) == scb(bytes(data))
  ensures [C10] err == nil ==> bytes(data) == scbytes(m.Zi)
func messages.Sign2.Equal(m, other) (ok)
  requires m != nil && (typeis(other, "*messages.Sign2") ==> unbox(other, "*messages.Sign2") != nil)
  returns ok := typeis(other, "*messages.Sign2") && unbox(other, "*messages.Sign2").Zi == m.Zi
func messages.NewSign2(from, z) (m)
  requires z != nil
  fresh m
  ensures fresh(m.Sign2)
  ensures m.Header.Type == 4 && m.Header.From == from && m.Header.To == 0
  ensures m.Sign2.Zi == *z

# ---- messages ----
# a payload that is present is well formed
define msgpay(m) = (m.KeyGen1 != nil ==> kg1ok(m.KeyGen1)) && (m.Sign1 != nil ==> s1ok(m.Sign1))
func messages.Message.Size(m) (r)
  requires m != nil && msgpay(m)
  case m.Header.Type == 1 && m.KeyGen1 != nil
    returns r := 71 + 32*pn(m.KeyGen1.Commitments)
  case m.Header.Type == 2 && m.KeyGen2 != nil
    returns r := 37
  case m.Header.Type == 3 && m.Sign1 != nil
    returns r := 69
  case m.Header.Type == 4 && m.Sign2 != nil
    returns r := 37
  case !(m.Header.Type == 1 && m.KeyGen1 != nil || m.Header.Type == 2 && m.KeyGen2 != nil || m.Header.Type == 3 && m.Sign1 != nil || m.Header.Type == 4 && m.Sign2 != nil)
    returns r := 5
func messages.Message.BytesAppend(m, existing) (data, err)
  requires m != nil && msgpay(m)
  case m.Header.Type == 1 && hdrok(m) && m.KeyGen1 != nil
    grows data := existing, cat(enchdr(m), enckg1(m.KeyGen1))
    returns err := nil
  case m.Header.Type == 2 && hdrok(m) && m.KeyGen2 != nil
    grows data := existing, cat(enchdr(m), scbytes(m.KeyGen2.Share))
    returns err := nil
  case m.Header.Type == 3 && hdrok(m) && m.Sign1 != nil
    grows data := existing, cat(enchdr(m), enc2(m.Sign1))
    returns err := nil
  case m.Header.Type == 4 && hdrok(m) && m.Sign2 != nil
    grows data := existing, cat(enchdr(m), scbytes(m.Sign2.Zi))
    returns err := nil
  case !hdrok(m) || m.Header.Type == 1 && m.KeyGen1 == nil || m.Header.Type == 2 && m.KeyGen2 == nil || m.Header.Type == 3 && m.Sign1 == nil || m.Header.Type == 4 && m.Sign2 == nil
    modifies bytes(existing)
    ensures err != nil && data == nil && roomonly(existing)
func messages.Message.MarshalBinary(m) (data, err)
  requires m != nil && msgpay(m)
  case m.Header.Type == 1 && hdrok(m) && m.KeyGen1 != nil
    returns data := newbytes(cat(enchdr(m), enckg1(m.KeyGen1)))
    returns err := nil
  case m.Header.Type == 2 && hdrok(m) && m.KeyGen2 != nil
    returns data := newbytes(cat(enchdr(m), scbytes(m.KeyGen2.Share)))
    returns err := nil
  case m.Header.Type == 3 && hdrok(m) && m.Sign1 != nil
    returns data := newbytes(cat(enchdr(m), enc2(m.Sign1)))
    returns err := nil
  case m.Header.Type == 4 && hdrok(m) && m.Sign2 != nil
    returns data := newbytes(cat(enchdr(m), scbytes(m.Sign2.Zi)))
    returns err := nil
  case !hdrok(m) || m.Header.Type == 1 && m.KeyGen1 == nil || m.Header.Type == 2 && m.KeyGen2 == nil || m.Header.Type == 3 && m.Sign1 == nil || m.Header.Type == 4 && m.Sign2 == nil
    ensures err != nil && data == nil
define paybytes(b) = sub(b, 5, len(b) - 5)
define msgbytes(b) = hdrbytes(b) && (bt(b) == 1 && kg1bytes(paybytes(b)) || bt(b) == 2 && scb(paybytes(b)) || bt(b) == 3 && s1bytes(paybytes(b)) || bt(b) == 4 && scb(paybytes(b)))
func messages.Message.UnmarshalBinary(m, data) (err)
  requires m != nil
  modifies m.Header, m.KeyGen1, m.KeyGen2, m.Sign1, m.Sign2
  ensures (err == nil) == msgbytes(bytes(data))
  ensures err == nil ==> hdrok(m) && (m.Header.Type == 1 ==> kg1ok(m.KeyGen1)) && (m.Header.Type == 2 ==> m.KeyGen2 != nil) && (m.Header.Type == 3 ==> s1ok(m.Sign1)) && (m.Header.Type == 4 ==> m.Sign2 != nil)
  ensures err == nil && m.Header.Type == 1 ==> bytes(data) == cat(enchdr(m), enckg1(m.KeyGen1))
  ensures err == nil && m.Header.Type == 2 ==> bytes(data) == cat(enchdr(m), scbytes(m.KeyGen2.Share))
  ensures err == nil && m.Header.Type == 3 ==> bytes(data) == cat(enchdr(m), enc2(m.Sign1))
  ensures err == nil && m.Header.Type == 4 ==> bytes(data) == cat(enchdr(m), scbytes(m.Sign2.Zi))
define oth(o) = unbox(o, "*messages.Message")
define eqhdr(a, b) = a.Header.Type == b.Header.Type && a.Header.From == b.Header.From && a.Header.To == b.Header.To
func messages.Message.Equal(m, other) (ok)
  requires m != nil && msgpay(m) && (typeis(other, "*messages.Message") ==> oth(other) != nil && msgpay(oth(other)))
  case !typeis(other, "*messages.Message")
    returns ok := false
  case typeis(other, "*messages.Message") && m.Header.Type == 1
    ensures ok == (eqhdr(m, oth(other)) && m.KeyGen1 != nil && oth(other).KeyGen1 != nil && oth(other).KeyGen1.Proof.S == m.KeyGen1.Proof.S && oth(other).KeyGen1.Proof.R == m.KeyGen1.Proof.R && eqpoly(m.KeyGen1.Commitments, oth(other).KeyGen1.Commitments))
  case typeis(other, "*messages.Message") && m.Header.Type == 2
    ensures ok == (eqhdr(m, oth(other)) && m.KeyGen2 != nil && oth(other).KeyGen2 != nil && oth(other).KeyGen2.Share == m.KeyGen2.Share)
  case typeis(other, "*messages.Message") && m.Header.Type == 3
    ensures ok == (eqhdr(m, oth(other)) && m.Sign1 != nil && oth(other).Sign1 != nil && D(&oth(other).Sign1.Di) == D(&m.Sign1.Di) && D(&oth(other).Sign1.Ei) == D(&m.Sign1.Ei))
  case typeis(other, "*messages.Message") && m.Header.Type == 4
    ensures ok == (eqhdr(m, oth(other)) && m.Sign2 != nil && oth(other).Sign2 != nil && oth(other).Sign2.Zi == m.Sign2.Zi)
  case typeis(other, "*messages.Message") && m.Header.Type != 1 && m.Header.Type != 2 && m.Header.Type != 3 && m.Header.Type != 4
    returns ok := false

# ---- decoding what was encoded gives the same values (C09) ----
lemma rt_scalars(a: F, b: F) {props C09} schnorrok(cat(scbytes(a), scbytes(b))) && unsc(sub(cat(scbytes(a), scbytes(b)), 0, 32)) == a && unsc(sub(cat(scbytes(a), scbytes(b)), 32, 32)) == b && scb(scbytes(a)) && unsc(scbytes(a)) == a
lemma rt_points(a: F, b: F) {props C09} s1bytes(cat(elbytes(a), elbytes(b))) && unel(sub(cat(elbytes(a), elbytes(b)), 0, 32)) == a && unel(sub(cat(elbytes(a), elbytes(b)), 32, 32)) == b
lemma rt_sig(a: F, b: F) {props C09} sigok(cat(elbytes(a), scbytes(b))) && unel(sub(cat(elbytes(a), scbytes(b)), 0, 32)) == a && unsc(sub(cat(elbytes(a), scbytes(b)), 32, 32)) == b
lemma encsubk(c: [Int]F, n: Int, k: Int, m: Int) {by encsub} {trigger encpts(c, n); sub(encpts(c, n), k, m)} 0 <= k && k < 32*n && k % 32 == 0 && m == 32 ==> sub(encpts(c, n), k, m) == elbytes(c[k/32])
lemma rt_coeff(c: [Int]F, n: Int, i: Int) {props C09} {by encsubk} 1 <= n && n <= 65536 && 0 <= i && i < n ==> sub(cat(be16(n-1), encpts(c, n)), 2 + 32*i, 32) == elbytes(c[i]) && canonE(elbytes(c[i])) && unel(elbytes(c[i])) == c[i]
lemma rt_poly(c: [Int]F, n: Int) {props C09} 1 <= n && n <= 65536 ==> be16val(sub(cat(be16(n-1), encpts(c, n)), 0, 2)) == n-1 && len(cat(be16(n-1), encpts(c, n))) == 34 + 32*(n-1)
lemma rt_hdr(t: Int, f: Int, o: Int, x: Bytes) {props C09} 1 <= t && t <= 4 && 0 < f && f < 65536 && 0 <= o && o < 65536 && (t == 2) == (o != 0) ==> hdrbytes(cat(u8(t), be16(f), be16(o), x)) && bt(cat(u8(t), be16(f), be16(o), x)) == t && bfrom(cat(u8(t), be16(f), be16(o), x)) == f && bto(cat(u8(t), be16(f), be16(o), x)) == o && paybytes(cat(u8(t), be16(f), be16(o), x)) == x
