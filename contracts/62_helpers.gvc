props C19
safety C11
# coefficients drawn at random from the g-th draw on, with constant c
rec rpoly(c: F, g: Int, n: Int, x: F): F = ite(n <= 0, 0, rpoly(c, g, n-1, x) + ite(n == 1, c, uni(rnd(g+n-2, 64))) * pw(x, n-1))
lemma rpolyeq(p: [Int]F, c: F, g: Int, n: Int, x: F) {induct n} p[0] == c && forall(k, 0, n-1, p[k+1] == uni(rnd(g+k, 64))) ==> psum(p, n, x) == rpoly(c, g, n, x)
lemma rpolyeq2(p: [Int]F, c: F, g: Int, m: Int, n: Int, x: F, y: F) {trigger psum(p, m, x); rpoly(c, g, n, y)} {with rpolyeq(p, c, g, n, x)} m == n && x == y && p[0] == c && forall(k, 0, n-1, p[k+1] == uni(rnd(g+k, 64))) ==> psum(p, m, x) == rpoly(c, g, n, y)
func helpers.GenerateSecrets(set, threshold) (secret, shares)
  use rpolyeq2
  requires forall(i, 0, len(set), set[i] != 0)
  maypanic threshold >= len(set) % 65536 || !forall(k, 0, threshold+1, rndok(old(ghost_rnd) + k))
  modifies ghost_rnd
  fresh secret
  fresh shares
  ensures *secret == uni(rnd(old(ghost_rnd), 64))
  ensures forall(k, has(shares, k) == isin(set, k))
  ensures forall(i, 0, len(set), shares[set[i]] != nil && shares[set[i]].ID == set[i] && V(&shares[set[i]].Public) && D(&shares[set[i]].Public) == shares[set[i]].Secret)
  ensures forall(i, 0, len(set), shares[set[i]].Secret == rpoly(*secret, old(ghost_rnd)+1, threshold+1, toF(set[i])))
  inv dom (m: map[party.ID]*eddsa.SecretShare) forall(k, has(m, k) == exists(i, 0, it, set[i] == k))
  inv val (m: map[party.ID]*eddsa.SecretShare, poly: *polynomial.Polynomial) forall(i, 0, it, m[set[i]] != nil && fresh(m[set[i]]) && m[set[i]].ID == set[i] && V(&m[set[i]].Public) && D(&m[set[i]].Public) == m[set[i]].Secret && m[set[i]].Secret == psum(view(poly.coefficients), len(poly.coefficients), toF(set[i])))
define secsok(m) = forall(k, has(m, k) ==> k != 0 && m[k] != nil)
func helpers.GeneratePublic(threshold, secretShares) (r)
  requires secsok(secretShares)
  maypanic threshold >= card(dom(secretShares))
  fresh r
  ensures r.Threshold == threshold && pubok(r)
  ensures forall(k, has(r.Shares, k) == has(secretShares, k))
  ensures forall(k, has(secretShares, k) ==> D(r.Shares[k]) == secretShares[k].Secret)
  ensures dl(r.GroupKey.pk.r) == interp(view(r.PartyIDs), len(r.PartyIDs), len(r.PartyIDs), shd(r.Shares))
  inv dom (m: map[party.ID]*ristretto.Element) forall(k, has(m, k) == sel(visited, k)) && card(dom(m)) == it
  inv val (m: map[party.ID]*ristretto.Element) forall(k, sel(visited, k) ==> m[k] != nil && V(m[k]) && D(m[k]) == secretShares[k].Secret && fresh(m[k]))
