props C21
safety C11
func party.ID.String(id) (s)
  returns s := decfmt(id)
func party.ID.MarshalText(id) (text, err)
  ensures err == nil
  ensures bytes(text) == decfmt(id)
func party.ID.UnmarshalText(id, text) (err)
  requires id != nil
  case isdec(bytes(text)) && decval(bytes(text)) < 65536
    sets *id := decval(bytes(text))
    returns err := nil
  case !(isdec(bytes(text)) && decval(bytes(text)) < 65536)
    returns err := errnew()

props C20
define sortedle(s) = forall(i, 0, len(s), forall(j, 0, len(s), i < j ==> s[i] <= s[j]))
define sortedlt(s) = forall(i, 0, len(s), forall(j, 0, len(s), i < j ==> s[i] < s[j]))
define sameids(a, b) = len(a) == len(b) && forall(i, 0, len(a), a[i] == b[i])
# a list without repetitions, once sorted, is strictly increasing
lemma cntnn(v: [Int]Int, n: Int, x: Int) {induct n} cnt(v, n, x) >= 0
lemma cntpos(v: [Int]Int, n: Int, i: Int) {induct n} {with cntnn(v, n-1, v[i])} 0 <= i && i < n ==> cnt(v, n, v[i]) >= 1
lemma cnttwo(v: [Int]Int, n: Int, i: Int, j: Int) {induct n} {with cntpos(v, n-1, i)} 0 <= i && i < j && j < n && v[i] == v[j] ==> cnt(v, n, v[i]) >= 2
lemma cntnone(v: [Int]Int, n: Int, x: Int) {induct n} forall(i, 0, n, v[i] != x) ==> cnt(v, n, x) == 0
lemma cntone(v: [Int]Int, n: Int, x: Int) {induct n} {with cntnone(v, n-1, x)} forall(i, 0, n, forall(j, 0, n, i < j ==> v[i] != v[j])) ==> cnt(v, n, x) <= 1
lemma cntdist(v: [Int]Int, w: [Int]Int, n: Int, i: Int, j: Int) {with cnttwo(v, n, i, j); cntone(w, n, v[i])} 0 <= i && i < j && j < n && forall(x, cnt(v, n, x) == cnt(w, n, x)) && forall(a, 0, n, forall(b, 0, n, a < b ==> w[a] != w[b])) ==> v[i] != v[j]
lemma cntdistq(v: [Int]Int, w: [Int]Int, n: Int) {with forall(i, forall(j, cntdist(v, w, n, i, j)))} forall(x, cnt(v, n, x) == cnt(w, n, x)) && forall(a, 0, n, forall(b, 0, n, a < b ==> w[a] != w[b])) ==> forall(i, 0, n, forall(j, 0, n, i < j ==> v[i] != v[j]))
# at most 65535 different non-zero identifiers
lemma idsgrow(v: [Int]Int, n: Int) {induct n} n >= 1 && forall(i, 0, n, v[i] >= 1) && forall(i, 0, n, forall(j, 0, n, i < j ==> v[i] < v[j])) ==> v[n-1] >= n
lemma idsbound(v: [Int]Int, n: Int) {with idsgrow(v, n)} forall(i, 0, n, 1 <= v[i] && v[i] < 65536) && forall(i, 0, n, forall(j, 0, n, i < j ==> v[i] < v[j])) ==> n < 65536
define distinct(s) = forall(i, 0, len(s), forall(j, 0, len(s), i < j ==> s[i] != s[j]))
func party.NewIDSlice(partyIDs) (ids)
  ensures len(ids) == len(partyIDs)
  ensures cap(ids) == 0 || fresh(ids)
  ensures sortedle(ids)
  ensures forall(x, cnt(view(ids), len(ids), x) == cnt(view(partyIDs), len(partyIDs), x))
  ensures forall(i, 0, len(ids), exists(j, 0, len(ids), ids[i] == partyIDs[j]))
  ensures forall(i, 0, len(ids), exists(j, 0, len(ids), partyIDs[i] == ids[j]))
  instance cntdistq(view(ids), view(partyIDs), len(ids))
  ensures distinct(partyIDs) ==> distinct(ids)
  chain
  ensures distinct(partyIDs) ==> sortedlt(ids)
  ensures forall(i, 0, len(partyIDs), partyIDs[i] != 0) ==> forall(i, 0, len(ids), ids[i] != 0)
  chain
  instance idsbound(view(ids), len(ids))
  ensures distinct(partyIDs) && forall(i, 0, len(partyIDs), partyIDs[i] != 0) ==> len(partyIDs) < 65536
func party.IDSlice.Contains(ids, id) (r)
  ensures r ==> isin(ids, id)
  ensures sortedle(ids) ==> r == isin(ids, id)
func party.IDSlice.N(ids) (r)
  ensures r == len(ids) % 65536
func party.IDSlice.IsSubsetOf(ids, o) (r)
  ensures r ==> forall(i, 0, len(ids), isin(o, ids[i]))
  ensures sortedle(o) ==> r == forall(i, 0, len(ids), isin(o, ids[i]))
  inv sub forall(i, 0, it, isin(o, ids[i]))
func party.IDSlice.Equal(ids, o) (r)
  ensures r == sameids(ids, o)
  inv same forall(i, 0, it, o[i] == ids[i])
func party.IDSlice.Copy(ids) (r)
  ensures sameids(r, ids) && cap(r) == len(r)
  ensures cap(r) == 0 || fresh(r)
