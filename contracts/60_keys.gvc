props C16
safety C11
# ---- secret shares ----
func eddsa.NewSecretShare(id, secret) (r)
  requires secret != nil
  fresh r
  ensures r.ID == id && r.Secret == *secret && V(&r.Public) && D(&r.Public) == *secret
func eddsa.SecretShare.MarshalBinary(sk) (data, err)
  requires sk != nil
  returns data := newbytes(cat(be16(sk.ID), scbytes(sk.Secret)))
  returns err := nil
define skbytes(b) = len(b) == 34 && canonF(sub(b, 2, 32))
func eddsa.SecretShare.UnmarshalBinary(sk, data) (err)
  requires sk != nil
  modifies sk.ID, sk.Secret, sk.Public
  ensures (err == nil) == skbytes(bytes(data))
  ensures err == nil ==> sk.ID == be16val(sub(bytes(data), 0, 2)) && sk.Secret == unsc(sub(bytes(data), 2, 32))
  ensures err == nil ==> V(&sk.Public) && D(&sk.Public) == sk.Secret
func eddsa.SecretShare.Equal(sk, sk2) (ok)
  requires sk != nil && sk2 != nil
  returns ok := sk.ID == sk2.ID && sk.Secret == sk2.Secret
lemma rt_share(i: Int, s: F) {props C16} 0 <= i && i < 65536 ==> skbytes(cat(be16(i), scbytes(s))) && be16val(sub(cat(be16(i), scbytes(s)), 0, 2)) == i && unsc(sub(cat(be16(i), scbytes(s)), 2, 32)) == s

# ---- public data ----
define sharesok(m) = forall(k, has(m, k) ==> k != 0 && m[k] != nil)
define shv(m) = forall(k, has(m, k) ==> m[k] == nil || V(m[k]))
define shd(m) = lam(k, D(m[k]))
# interpolation at 0 over the first n of the N IDs in v of the values s
rec interp(v: [Int]Int, n: Int, N: Int, s: [Int]F): F = ite(n <= 0, 0, interp(v, n-1, N, s) + lnum(v, N, v[n-1]) * inv(lden(v, N, v[n-1])) * s[v[n-1]])
# the scalars are a field with more than 65536 elements (the group order is prime)
axiom nzd(a: F, b: F) a * b == 0 ==> a == 0 || b == 0
axiom tofinj(x: Int, y: Int) 0 <= x && x < 65536 && 0 <= y && y < 65536 && x != y ==> toF(x) - toF(y) != 0
lemma ldennz(v: [Int]Int, n: Int, id: Int) {auto} {induct n} {trigger lden(v, n, id)} {with nzd(lden(v, n-1, id), toF(v[n-1]) - toF(id)); tofinj(v[n-1], id)} 0 <= id && id < 65536 && forall(i, 0, n, 0 <= v[i] && v[i] < 65536) ==> lden(v, n, id) != 0
func eddsa.computeGroupKey(partyIDs, shares) (r)
  requires forall(i, 0, len(partyIDs), partyIDs[i] != 0 && has(shares, partyIDs[i]) && shares[partyIDs[i]] != nil && V(shares[partyIDs[i]]))
  fresh r
  ensures validpt(r.pk.r) && dl(r.pk.r) == interp(view(partyIDs), len(partyIDs), len(partyIDs), shd(shares))
  inv acc (g: *ristretto.Element) V(g) && D(g) == interp(view(partyIDs), it, len(partyIDs), shd(shares))
define listsof(ids, m) = sortedlt(ids) && forall(k, has(m, k) == isin(ids, k))
func eddsa.NewPublic(shares, threshold) (r, err)
  requires shv(shares)
  ensures err == nil ==> sharesok(shares)
  ensures err == nil ==> threshold < card(dom(shares))
  ensures sharesok(shares) && threshold < card(dom(shares)) ==> err == nil
  ensures err == nil ==> r != nil && fresh(r) && r.Threshold == threshold && r.Shares == shares && fresh(r.PartyIDs)
  ensures err == nil ==> sortedlt(r.PartyIDs)
  ensures err == nil ==> forall(k, has(shares, k) ==> isin(r.PartyIDs, k))
  ensures err == nil ==> forall(k, isin(r.PartyIDs, k) ==> has(shares, k))
  ensures err == nil ==> len(r.PartyIDs) == card(dom(shares))
  ensures err == nil ==> r.GroupKey != nil && fresh(r.GroupKey) && validpt(r.GroupKey.pk.r) && dl(r.GroupKey.pk.r) == interp(view(r.PartyIDs), len(r.PartyIDs), len(r.PartyIDs), shd(shares))
  inv own (IDs: []party.ID) fresh(IDs)
  inv count (IDs: []party.ID) len(IDs) == it
  inv visited (IDs: []party.ID) forall(i, 0, len(IDs), sel(visited, IDs[i]))
  inv visitedB (IDs: []party.ID) forall(k, sel(visited, k) ==> isin(IDs, k))
  inv distinct (IDs: []party.ID) distinct(IDs)
  inv nonzero (IDs: []party.ID) forall(i, 0, len(IDs), IDs[i] != 0)
  inv okay forall(k, sel(visited, k) ==> k != 0 && shares[k] != nil)
define pubok(s) = s != nil && sharesok(s.Shares) && forall(k, has(s.Shares, k) ==> V(s.Shares[k])) && sortedlt(s.PartyIDs) && forall(k, has(s.Shares, k) ==> isin(s.PartyIDs, k)) && forall(i, 0, len(s.PartyIDs), has(s.Shares, s.PartyIDs[i])) && len(s.PartyIDs) == card(dom(s.Shares)) && s.GroupKey != nil && validpt(s.GroupKey.pk.r)
func eddsa.Public.Equal(s, s2) (r)
  requires pubok(s) && pubok(s2)
  ensures r ==> s.Threshold == s2.Threshold && sameids(s.PartyIDs, s2.PartyIDs) && dl(s.GroupKey.pk.r) == dl(s2.GroupKey.pk.r)
  ensures r ==> forall(i, 0, len(s.PartyIDs), D(s.Shares[s.PartyIDs[i]]) == D(s2.Shares[s.PartyIDs[i]]))
  ensures s.Threshold == s2.Threshold && sameids(s.PartyIDs, s2.PartyIDs) && dl(s.GroupKey.pk.r) == dl(s2.GroupKey.pk.r) && forall(i, 0, len(s.PartyIDs), D(s.Shares[s.PartyIDs[i]]) == D(s2.Shares[s.PartyIDs[i]])) ==> r
  inv same forall(i, 0, it, D(s.Shares[s.PartyIDs[i]]) == D(s2.Shares[s.PartyIDs[i]]))

# ---- JSON: the documents of encoding/json for the two structs and for elements, abstractly ----
fun jskok(Bytes) Bool
fun jskid(Bytes) Int
fun jsksec(Bytes) Bytes
fun jpok(Bytes) Bool
fun jpt(Bytes) Int
fun jpgnil(Bytes) Bool
fun jpgk(Bytes) F
fun jphas(Bytes, Int) Bool
fun jpcard(Bytes) Int
fun jpnull(Bytes, Int) Bool
fun jpval(Bytes, Int) F
fun jelok(Bytes) Bool
fun jel(Bytes) F
extern json.Marshal(v) (b, err)
  requires typeis(v, "eddsa.jsonSecretShare") || typeis(v, "eddsa.sharesJSON") || typeis(v, "*ristretto.Element")
  fresh b
  ensures err == nil
  case typeis(v, "eddsa.jsonSecretShare")
    ensures jskok(bytes(b)) && jskid(bytes(b)) == unbox(v, "eddsa.jsonSecretShare").ID && jsksec(bytes(b)) == bytes(unbox(v, "eddsa.jsonSecretShare").SecretShare)
  case typeis(v, "*ristretto.Element")
    requires unbox(v, "*ristretto.Element") != nil && V(unbox(v, "*ristretto.Element"))
    ensures jelok(bytes(b)) && jel(bytes(b)) == D(unbox(v, "*ristretto.Element"))
  case typeis(v, "eddsa.sharesJSON")
    requires unbox(v, "eddsa.sharesJSON").GroupKey == nil || validpt(unbox(v, "eddsa.sharesJSON").GroupKey.pk.r)
    requires shv(unbox(v, "eddsa.sharesJSON").Shares)
    ensures jpok(bytes(b)) && jpt(bytes(b)) == unbox(v, "eddsa.sharesJSON").Threshold && jpgnil(bytes(b)) == (unbox(v, "eddsa.sharesJSON").GroupKey == nil)
    ensures unbox(v, "eddsa.sharesJSON").GroupKey != nil ==> jpgk(bytes(b)) == dl(unbox(v, "eddsa.sharesJSON").GroupKey.pk.r)
    ensures forall(k, jphas(bytes(b), k) == has(unbox(v, "eddsa.sharesJSON").Shares, k)) && jpcard(bytes(b)) == card(dom(unbox(v, "eddsa.sharesJSON").Shares))
    ensures forall(k, jphas(bytes(b), k) ==> jpnull(bytes(b), k) == (unbox(v, "eddsa.sharesJSON").Shares[k] == nil))
    ensures forall(k, jphas(bytes(b), k) && !jpnull(bytes(b), k) ==> jpval(bytes(b), k) == D(unbox(v, "eddsa.sharesJSON").Shares[k]))
extern json.Unmarshal(data, v) (err)
  requires typeis(v, "*eddsa.jsonSecretShare") || typeis(v, "*eddsa.sharesJSON") || typeis(v, "*ristretto.Element")
  case typeis(v, "*eddsa.jsonSecretShare")
    requires unbox(v, "*eddsa.jsonSecretShare") != nil && unbox(v, "*eddsa.jsonSecretShare").ID == 0 && len(unbox(v, "*eddsa.jsonSecretShare").SecretShare) == 0
    modifies unbox(v, "*eddsa.jsonSecretShare").ID, unbox(v, "*eddsa.jsonSecretShare").SecretShare
    ensures (err == nil) == jskok(bytes(data))
    ensures err == nil ==> unbox(v, "*eddsa.jsonSecretShare").ID == jskid(bytes(data)) && bytes(unbox(v, "*eddsa.jsonSecretShare").SecretShare) == jsksec(bytes(data))
    ensures cap(unbox(v, "*eddsa.jsonSecretShare").SecretShare) == 0 || fresh(unbox(v, "*eddsa.jsonSecretShare").SecretShare)
  case typeis(v, "*ristretto.Element")
    requires unbox(v, "*ristretto.Element") != nil
    modifies unbox(v, "*ristretto.Element").r
    ensures (err == nil) == jelok(bytes(data))
    ensures err == nil ==> V(unbox(v, "*ristretto.Element")) && D(unbox(v, "*ristretto.Element")) == jel(bytes(data))
  case typeis(v, "*eddsa.sharesJSON")
    requires unbox(v, "*eddsa.sharesJSON") != nil && unbox(v, "*eddsa.sharesJSON").Threshold == 0 && unbox(v, "*eddsa.sharesJSON").GroupKey == nil && unbox(v, "*eddsa.sharesJSON").Shares == nil
    modifies unbox(v, "*eddsa.sharesJSON").Threshold, unbox(v, "*eddsa.sharesJSON").GroupKey, unbox(v, "*eddsa.sharesJSON").Shares
    ensures (err == nil) == jpok(bytes(data))
    ensures err == nil ==> unbox(v, "*eddsa.sharesJSON").Threshold == jpt(bytes(data))
    ensures err == nil ==> (unbox(v, "*eddsa.sharesJSON").GroupKey == nil) == jpgnil(bytes(data))
    ensures err == nil && !jpgnil(bytes(data)) ==> fresh(unbox(v, "*eddsa.sharesJSON").GroupKey) && validpt(unbox(v, "*eddsa.sharesJSON").GroupKey.pk.r) && dl(unbox(v, "*eddsa.sharesJSON").GroupKey.pk.r) == jpgk(bytes(data))
    ensures err == nil ==> unbox(v, "*eddsa.sharesJSON").Shares == nil || fresh(unbox(v, "*eddsa.sharesJSON").Shares)
    ensures err == nil ==> forall(k, has(unbox(v, "*eddsa.sharesJSON").Shares, k) == jphas(bytes(data), k)) && card(dom(unbox(v, "*eddsa.sharesJSON").Shares)) == jpcard(bytes(data))
    ensures err == nil ==> forall(k, has(unbox(v, "*eddsa.sharesJSON").Shares, k) ==> (unbox(v, "*eddsa.sharesJSON").Shares[k] == nil) == jpnull(bytes(data), k))
    ensures err == nil ==> forall(k, has(unbox(v, "*eddsa.sharesJSON").Shares, k) && !jpnull(bytes(data), k) ==> fresh(unbox(v, "*eddsa.sharesJSON").Shares[k]) && V(unbox(v, "*eddsa.sharesJSON").Shares[k]) && D(unbox(v, "*eddsa.sharesJSON").Shares[k]) == jpval(bytes(data), k))
func eddsa.SecretShare.MarshalJSON(sk) (data, err)
  requires sk != nil
  ensures err == nil && jskok(bytes(data)) && jskid(bytes(data)) == sk.ID && jsksec(bytes(data)) == scbytes(sk.Secret)
func eddsa.SecretShare.UnmarshalJSON(sk, data) (err)
  requires sk != nil
  modifies sk.ID, sk.Secret, sk.Public
  ensures (err == nil) == (jskok(bytes(data)) && 0 <= jskid(bytes(data)) && jskid(bytes(data)) < 65536 && len(jsksec(bytes(data))) == 32 && canonF(jsksec(bytes(data))))
  ensures err == nil ==> sk.ID == jskid(bytes(data)) && sk.Secret == unsc(jsksec(bytes(data)))
  ensures err == nil ==> V(&sk.Public) && D(&sk.Public) == sk.Secret
func eddsa.PublicKey.MarshalJSON(pk) (data, err)
  requires validpt(pk.pk.r)
  ensures err == nil && jelok(bytes(data)) && jel(bytes(data)) == dl(pk.pk.r)
func eddsa.PublicKey.UnmarshalJSON(pk, data) (err)
  requires pk != nil
  modifies pk.pk.r
  ensures (err == nil) == jelok(bytes(data))
  ensures err == nil ==> validpt(pk.pk.r) && dl(pk.pk.r) == jel(bytes(data))
define jpub(b, s) = jpok(b) && jpt(b) == s.Threshold && !jpgnil(b) && jpgk(b) == dl(s.GroupKey.pk.r) && forall(k, jphas(b, k) == has(s.Shares, k)) && jpcard(b) == card(dom(s.Shares)) && forall(k, jphas(b, k) ==> !jpnull(b, k) && jpval(b, k) == D(s.Shares[k]))
func eddsa.Public.MarshalJSON(s) (data, err)
  requires pubok(s)
  ensures err == nil && jpub(bytes(data), s)
# strictly increasing lists with the same members are the same
define srt(v, n) = forall(i, 0, n, forall(j, 0, n, i < j ==> v[i] < v[j]))
define lmem(v, n, w, m) = forall(i, 0, n, exists(j, 0, m, v[i] == w[j]))
lemma sameprefix(v: [Int]Int, w: [Int]Int, n: Int, N: Int, M: Int) {induct n} n <= N && n <= M && srt(v, N) && srt(w, M) && lmem(v, N, w, M) && lmem(w, M, v, N) ==> forall(i, 0, n, v[i] == w[i])
lemma samelen(v: [Int]Int, w: [Int]Int, N: Int, M: Int) {with sameprefix(v, w, N, N, M); sameprefix(v, w, M, N, M); cntnn(w, M, w[N]); cntnn(v, N, v[M])} 0 <= N && 0 <= M && srt(v, N) && srt(w, M) && lmem(v, N, w, M) && lmem(w, M, v, N) ==> N == M
lemma lnumext(v: [Int]Int, w: [Int]Int, n: Int, id: Int) {induct n} forall(i, 0, n, v[i] == w[i]) ==> lnum(v, n, id) == lnum(w, n, id)
lemma ldenext(v: [Int]Int, w: [Int]Int, n: Int, id: Int) {induct n} forall(i, 0, n, v[i] == w[i]) ==> lden(v, n, id) == lden(w, n, id)
lemma interpext(v: [Int]Int, w: [Int]Int, n: Int, N: Int, s: [Int]F, t: [Int]F) {induct n} {with lnumext(v, w, N, v[n-1]); ldenext(v, w, N, v[n-1])} n <= N && forall(i, 0, N, v[i] == w[i]) && forall(i, 0, N, s[v[i]] == t[v[i]]) ==> interp(v, n, N, s) == interp(w, n, N, t)
lemma samekey(v: [Int]Int, w: [Int]Int, N: Int, M: Int, s: [Int]F, t: [Int]F) {trigger interp(v, N, N, s); interp(w, M, M, t)} {with samelen(v, w, N, M); sameprefix(v, w, N, N, N); interpext(v, w, N, N, s, t)} 0 <= N && 0 <= M && srt(v, N) && srt(w, M) && lmem(v, N, w, M) && lmem(w, M, v, N) && forall(i, 0, N, s[v[i]] == t[v[i]]) ==> interp(v, N, N, s) == interp(w, M, M, t)
define lists(v, n, b) = 0 <= n && srt(v, n) && forall(i, 0, n, jphas(b, v[i])) && forall(k, jphas(b, k) ==> exists(i, 0, n, v[i] == k))
lemma lmemj(v: [Int]Int, w: [Int]Int, N: Int, M: Int, b: Bytes) lists(v, N, b) && lists(w, M, b) ==> lmem(v, N, w, M) && lmem(w, M, v, N)
lemma samekeyj(v: [Int]Int, w: [Int]Int, N: Int, M: Int, s: [Int]F, t: [Int]F, b: Bytes) {trigger interp(v, N, N, s); interp(w, M, M, t); jpgk(b)} {with lmemj(v, w, N, M, b); samekey(v, w, N, M, s, t)} lists(v, N, b) && lists(w, M, b) && forall(i, 0, N, s[v[i]] == t[v[i]]) ==> interp(v, N, N, s) == interp(w, M, M, t)
# an arbitrary list
fun anyids() [Int]Int
fun anyn() Int
define jpwell(b) = jpok(b) && 0 <= jpt(b) && jpt(b) < 65536 && !jpgnil(b) && forall(k, jphas(b, k) ==> k != 0 && !jpnull(b, k))
func eddsa.Public.UnmarshalJSON(s, data) (err)
  use samekeyj
  requires s != nil
  modifies s.PartyIDs, s.Threshold, s.Shares, s.GroupKey
  ensures err == nil ==> jpwell(bytes(data))
  ensures err == nil ==> s.Threshold == jpt(bytes(data)) && forall(k, has(s.Shares, k) == jphas(bytes(data), k)) && forall(k, jphas(bytes(data), k) ==> D(s.Shares[k]) == jpval(bytes(data), k))
  ensures err == nil ==> pubok(s)
  ensures err == nil ==> dl(s.GroupKey.pk.r) == jpgk(bytes(data)) && dl(s.GroupKey.pk.r) == interp(view(s.PartyIDs), len(s.PartyIDs), len(s.PartyIDs), shd(s.Shares)) && s.Threshold < len(s.PartyIDs)
  ensures err != nil ==> s.Threshold == old(s.Threshold) && s.Shares == old(s.Shares) && s.GroupKey == old(s.GroupKey) && s.PartyIDs == old(s.PartyIDs)
  ensures jpwell(bytes(data)) && jpt(bytes(data)) < jpcard(bytes(data)) && lists(anyids(), anyn(), bytes(data)) && jpgk(bytes(data)) == interp(anyids(), anyn(), anyn(), lam(k, jpval(bytes(data), k))) ==> err == nil
