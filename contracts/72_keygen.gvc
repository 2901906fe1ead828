props C18
safety C11
define okids(self, ids) = sortedlt(ids) && isin(ids, self) && forall(i, 0, len(ids), ids[i] != 0)
func state.NewBaseRound(selfID, partyIDs) (r, err)
  ensures (err == nil) == okids(selfID, partyIDs)
  ensures err == nil ==> r != nil && fresh(r) && r.selfID == selfID && r.partyIDs == partyIDs
  ensures err != nil ==> r == nil
  inv nonzero forall(i, 0, it, partyIDs[i] != 0)
  inv sorted forall(i, 0, it, forall(j, 0, it, i < j ==> partyIDs[i] < partyIDs[j]))
func state.BaseRound.SelfID(r) (id)
  returns id := r.selfID
func state.BaseRound.PartyIDs(r) (ids)
  returns ids := r.partyIDs
define kself(r) = r.BaseRound.selfID
define kids(r) = r.BaseRound.partyIDs
define kbase(r) = r != nil && r.BaseRound != nil && okids(kself(r), kids(r)) && len(kids(r)) < 65536 && 1 <= r.Threshold && r.Threshold < len(kids(r))
func keygen.NewRound(selfID, partyIDs, threshold) (r, out, err)
  model err == nil ==> rself(r) == selfID && rn(r) == len(partyIDs) && forall(i, 0, len(partyIDs), sel(rids(r), i) == partyIDs[i]) && newround(r) && failure(r) == nil && rpos(r) == 0 && rnacc(r) == 3 && sel(racc(r), 0) == 0 && sel(racc(r), 1) == 1 && sel(racc(r), 2) == 2
  instance idsbound(view(partyIDs), len(partyIDs))
  ensures (err == nil) == (okids(selfID, partyIDs) && 1 <= threshold && threshold <= len(partyIDs) - 1)
  ensures err != nil ==> r == nil && out == nil
  ensures err == nil ==> typeis(r, "*keygen.round0") && fresh(unbox(r, "*keygen.round0")) && out != nil && fresh(out) && unbox(r, "*keygen.round0").Output == out
  instance idsbound(view(partyIDs), len(partyIDs))
  ensures err == nil ==> kbase(unbox(r, "*keygen.round0")) && kself(unbox(r, "*keygen.round0")) == selfID && kids(unbox(r, "*keygen.round0")) == partyIDs && unbox(r, "*keygen.round0").Threshold == threshold
  ensures err == nil ==> unbox(r, "*keygen.round0").Commitments != nil && fresh(unbox(r, "*keygen.round0").Commitments) && forall(k, !has(unbox(r, "*keygen.round0").Commitments, k))
  ensures err == nil ==> unbox(r, "*keygen.round0").Polynomial == nil && unbox(r, "*keygen.round0").CommitmentsSum == nil && out.Public == nil && out.SecretKey == nil

props C03 C04 C22 C23
define chalz(id, A, M) = uni(sha512(cat(be16(id), zeros(32), elbytes(A), elbytes(M))))
define pol(r) = r.Polynomial.coefficients
define nc(r) = r.Threshold + 1
func keygen.round0.GenerateMessages(round) (msgs, err)
  requires kbase(round)
  maypanic !forall(k, 0, round.Threshold + 2, rndok(old(ghost_rnd) + k))
  modifies round.Secret, round.Polynomial, round.CommitmentsSum, ghost_rnd
  ensures err == nil && len(msgs) == 1 && fresh(msgs)
  ensures round.Polynomial != nil && fresh(round.Polynomial) && len(pol(round)) == nc(round) && fresh(pol(round))
  ensures pol(round)[0] == uni(rnd(old(ghost_rnd), 64)) && forall(k, 0, round.Threshold, pol(round)[k+1] == uni(rnd(old(ghost_rnd) + 1 + k, 64)))
  ensures ghost_rnd == old(ghost_rnd) + round.Threshold + 2
  ensures round.CommitmentsSum != nil && fresh(round.CommitmentsSum) && pn(round.CommitmentsSum) == nc(round) && PV(round.CommitmentsSum) && pdistinct(round.CommitmentsSum) && pfresh(round.CommitmentsSum)
  ensures forall(i, 0, nc(round), D(round.CommitmentsSum.coefficients[i]) == pol(round)[i])
  ensures round.Secret == psum(view(pol(round)), nc(round), toF(kself(round)))
  ensures msgs[0] != nil && fresh(msgs[0]) && msgs[0].Header.Type == 1 && msgs[0].Header.From == kself(round) && msgs[0].Header.To == 0 && fresh(msgs[0].KeyGen1) && fresh(msgs[0].KeyGen1.Proof) && fresh(msgs[0].KeyGen1.Commitments)
  ensures pn(msgs[0].KeyGen1.Commitments) == nc(round) && PV(msgs[0].KeyGen1.Commitments) && pfresh(msgs[0].KeyGen1.Commitments)
  ensures forall(i, 0, nc(round), D(msgs[0].KeyGen1.Commitments.coefficients[i]) == pol(round)[i])
  ensures [C22] forall(i, 0, nc(round), forall(j, 0, nc(round), msgs[0].KeyGen1.Commitments.coefficients[i] != round.CommitmentsSum.coefficients[j]))
  ensures [C05 C23] msgs[0].KeyGen1.Proof.S == chalz(kself(round), pol(round)[0], uni(rnd(old(ghost_rnd) + round.Threshold + 1, 64)))
  ensures [C05 C23] msgs[0].KeyGen1.Proof.R == uni(rnd(old(ghost_rnd) + round.Threshold + 1, 64)) + pol(round)[0] * msgs[0].KeyGen1.Proof.S
func keygen.round0.ProcessMessage(round, msg) (err)
  ensures err == nil
func keygen.round0.NextRound(round) (n)
  ensures typeis(n, "*keygen.round1") && fresh(unbox(n, "*keygen.round1")) && unbox(n, "*keygen.round1").round0 == round
func keygen.round1.NextRound(round) (n)
  ensures typeis(n, "*keygen.round2") && fresh(unbox(n, "*keygen.round2")) && unbox(n, "*keygen.round2").round1 == round
func keygen.round2.NextRound(round) (n)
  ensures n == nil
func keygen.round0.AcceptedMessageTypes(round) (ts)
  ensures len(ts) == 3 && ts[0] == 0 && ts[1] == 1 && ts[2] == 2
# sums over the members of a set, in the order of a list
rec gsum(v: [Int]Int, n: Int, s: [Int]Bool, f: [Int]F): F = ite(n <= 0, 0, gsum(v, n-1, s, f) + ite(s[v[n-1]], f[v[n-1]], 0))
lemma gsumadd(v: [Int]Int, n: Int, s: [Int]Bool, x: Int, f: [Int]F, g: [Int]F) {induct n} forall(i, 0, n, forall(j, 0, n, i < j ==> v[i] != v[j])) && !sel(s, x) && forall(k, sel(s, k) ==> f[k] == g[k]) ==> gsum(v, n, sto(s, x, true), g) == gsum(v, n, s, f) + ite(exists(i, 0, n, v[i] == x), g[x], 0)
lemma gsumin(v: [Int]Int, n: Int, s: [Int]Bool, x: Int, f: [Int]F, g: [Int]F) {with gsumadd(v, n, s, x, f, g)} forall(i, 0, n, forall(j, 0, n, i < j ==> v[i] != v[j])) && !sel(s, x) && forall(k, sel(s, k) ==> f[k] == g[k]) && exists(i, 0, n, v[i] == x) ==> gsum(v, n, sto(s, x, true), g) == gsum(v, n, s, f) + g[x]
lemma gsumnone(v: [Int]Int, n: Int, s: [Int]Bool, f: [Int]F) {induct n} forall(k, !sel(s, k)) ==> gsum(v, n, s, f) == 0
# the session during rounds 1 and 2; kown stands for the party's own committed polynomial
fun kown() [Int]F
fun anyi() Int
define isother(r, k) = isin(kids(r), k) && k != kself(r)
define apart(p, q) = forall(i, 0, pn(p), forall(j, 0, pn(q), p.coefficients[i] != q.coefficients[j]))
define ksum(r) = PV(r.CommitmentsSum) && pdistinct(r.CommitmentsSum) && pn(r.CommitmentsSum) == nc(r)
define kcomm(r) = r.Commitments != nil && forall(k, has(r.Commitments, k) ==> isother(r, k) && PV(r.Commitments[k]) && pn(r.Commitments[k]) == nc(r) && apart(r.CommitmentsSum, r.Commitments[k]))
define cc(r, i) = lam(id, D(r.Commitments[id].coefficients[i]))
define gat(r, i) = gsum(view(kids(r)), len(kids(r)), dom(r.Commitments), cc(r, i))
define koksum(r) = 0 <= anyi() && anyi() < nc(r) ==> D(r.CommitmentsSum.coefficients[anyi()]) == kown()[anyi()] + gat(r, anyi())
define kgmsg1ok(r, m) = m != nil && m.KeyGen1 != nil && m.KeyGen1.Proof != nil && PV(m.KeyGen1.Commitments) && pn(m.KeyGen1.Commitments) >= 1 && pn(m.KeyGen1.Commitments) <= 65536 && apart(r.CommitmentsSum, m.KeyGen1.Commitments)
define kproof(m) = m.KeyGen1.Proof.S == chalz(m.Header.From, D(m.KeyGen1.Commitments.coefficients[0]), m.KeyGen1.Proof.R - m.KeyGen1.Proof.S * D(m.KeyGen1.Commitments.coefficients[0]))
func keygen.round1.ProcessMessage(round, msg) (err)
  requires round != nil && kbase(round.round0) && ksum(round.round0) && kcomm(round.round0)
  requires kgmsg1ok(round.round0, msg) && isother(round.round0, msg.Header.From) && !has(round.Commitments, msg.Header.From)
  modifies targets(round.CommitmentsSum.coefficients), mapof(round.Commitments)
  ensures [C04 C05] (err == nil) == (kproof(msg) && pn(msg.KeyGen1.Commitments) == nc(round))
  ensures [C04] err != nil ==> fresh(err) && err.PartyID == msg.Header.From
  ensures [C04] err != nil ==> forall(k, has(round.Commitments, k) == old(has(round.Commitments, k)))
  ensures ksum(round.round0)
  ensures kcomm(round.round0)
  ensures err == nil ==> forall(k, has(round.Commitments, k) == (old(has(round.Commitments, k)) || k == msg.Header.From)) && round.Commitments[msg.Header.From] == msg.KeyGen1.Commitments
  ensures forall(k, old(has(round.Commitments, k)) ==> round.Commitments[k] == old(round.Commitments[k]))
  ensures [C03] err == nil ==> forall(i, 0, nc(round), D(round.CommitmentsSum.coefficients[i]) == old(D(round.CommitmentsSum.coefficients[i])) + old(D(msg.KeyGen1.Commitments.coefficients[i])))
  ensures err == nil && 0 <= anyi() && anyi() < nc(round) ==> forall(k, old(has(round.Commitments, k)) ==> sel(cc(round, anyi()), k) == old(sel(cc(round, anyi()), k)))
  chain
  instance gsumin(view(kids(round)), len(kids(round)), old(dom(round.Commitments)), msg.Header.From, old(cc(round, anyi())), cc(round, anyi()))
  ensures err == nil && 0 <= anyi() && anyi() < nc(round) ==> gat(round, anyi()) == old(gat(round, anyi())) + old(D(msg.KeyGen1.Commitments.coefficients[anyi()]))
  ensures err == nil && 0 <= anyi() && anyi() < nc(round) ==> D(round.CommitmentsSum.coefficients[anyi()]) == old(D(round.CommitmentsSum.coefficients[anyi()])) + old(D(msg.KeyGen1.Commitments.coefficients[anyi()]))
  chain
  ensures old(koksum(round.round0)) && err == nil ==> koksum(round.round0)

func keygen.round1.GenerateMessages(round) (msgs, err)
  requires round != nil && kbase(round.round0) && round.Polynomial != nil && len(pol(round)) == nc(round)
  modifies elems(round.Polynomial.coefficients)
  ensures err == nil && (len(msgs) == 0 || fresh(msgs))
  ensures len(msgs) == len(kids(round)) - 1
  ensures forall(j, 0, len(msgs), msgs[j] != nil && fresh(msgs[j]) && fresh(msgs[j].KeyGen2) && msgs[j].Header.Type == 2 && msgs[j].Header.From == kself(round))
  ensures forall(j, 0, len(msgs), isother(round, msgs[j].Header.To))
  ensures forall(i, 0, len(msgs), forall(j, 0, len(msgs), i != j ==> msgs[i].Header.To != msgs[j].Header.To))
  ensures forall(k, isother(round, k) ==> exists(j, 0, len(msgs), msgs[j].Header.To == k))
  ensures forall(j, 0, len(msgs), msgs[j].KeyGen2.Share == psum(old(view(pol(round))), nc(round), toF(msgs[j].Header.To)))
  ensures [C15] forall(i, 0, nc(round), pol(round)[i] == 0)
  inv frame pol(round) == old(pol(round)) && forall(i, 0, nc(round), pol(round)[i] == old(pol(round)[i]))
  inv shape (m: []*messages.Message) fresh(m) && forall(j, 0, len(m), m[j] != nil && fresh(m[j]) && fresh(m[j].KeyGen2) && m[j].Header.Type == 2 && m[j].Header.From == kself(round))
  inv countA (m: []*messages.Message) exists(i, 0, it, kids(round)[i] == kself(round)) ==> len(m) == it - 1
  inv countB (m: []*messages.Message) exists(i, it, len(kids(round)), kids(round)[i] == kself(round)) ==> len(m) == it
  inv to (m: []*messages.Message) forall(j, 0, len(m), m[j].Header.To != kself(round) && exists(i, 0, it, kids(round)[i] == m[j].Header.To))
  inv dist (m: []*messages.Message) forall(i, 0, len(m), forall(j, 0, len(m), i != j ==> m[i].Header.To != m[j].Header.To))
  inv all (m: []*messages.Message) forall(i, 0, it, kids(round)[i] != kself(round) ==> exists(j, 0, len(m), m[j].Header.To == kids(round)[i]))
  inv share (m: []*messages.Message) forall(j, 0, len(m), m[j].KeyGen2.Share == psum(old(view(pol(round))), nc(round), toF(m[j].Header.To)))
func keygen.round1.MessageType(round) (t)
  returns t := 1
func keygen.round2.MessageType(round) (t)
  returns t := 2

# round 2; kdone stands for the set of dealers whose shares are already added
fun kdone() [Int]Bool
define kev(r, x) = lam(id, psum(pc(r.Commitments[id]), nc(r), x))
define koksec(r, S) = r.Secret == psum(kown(), nc(r), toF(kself(r))) + gsum(view(kids(r)), len(kids(r)), S, kev(r, toF(kself(r))))
define kshok(r, m) = m.KeyGen2.Share == psum(pc(r.Commitments[m.Header.From]), nc(r), toF(kself(r)))
func keygen.round2.ProcessMessage(round, msg) (err)
  requires round != nil && round.round1 != nil && kbase(round.round0) && kcomm(round.round0)
  requires msg != nil && msg.KeyGen2 != nil && has(round.Commitments, msg.Header.From)
  modifies round.Secret, msg.KeyGen2.Share
  ensures [C04] (err == nil) == old(kshok(round.round0, msg))
  ensures [C04] err != nil ==> fresh(err) && err.PartyID == msg.Header.From && round.Secret == old(round.Secret)
  ensures [C15] err == nil ==> msg.KeyGen2.Share == 0
  ensures [C03] err == nil ==> round.Secret == old(round.Secret) + old(msg.KeyGen2.Share)
  chain
  instance gsumin(view(kids(round)), len(kids(round)), kdone(), msg.Header.From, kev(round, toF(kself(round))), kev(round, toF(kself(round))))
  ensures old(koksec(round.round0, kdone())) && err == nil && !sel(kdone(), msg.Header.From) ==> koksec(round.round0, sto(kdone(), msg.Header.From, true))
# evaluating the sum of the committed polynomials is summing their evaluations
lemma gsumlin(v: [Int]Int, n: Int, s: [Int]Bool, f: [Int]F, g: [Int]F, h: [Int]F, c: F) {induct n} forall(k, h[k] == f[k] + c * g[k]) ==> gsum(v, n, s, h) == gsum(v, n, s, f) + c * gsum(v, n, s, g)
lemma gsumcong(v: [Int]Int, n: Int, s: [Int]Bool, f: [Int]F, g: [Int]F) {induct n} forall(k, sel(s, k) ==> f[k] == g[k]) ==> gsum(v, n, s, f) == gsum(v, n, s, g)
lemma gsumzero(v: [Int]Int, n: Int, s: [Int]Bool, f: [Int]F) {induct n} forall(k, f[k] == 0) ==> gsum(v, n, s, f) == 0
lemma exchange(v: [Int]Int, n: Int, s: [Int]Bool, own: [Int]F, t: [Int]F, m: [Int][Int]F, d: Int, x: F) {induct d} {with gsumlin(v, n, s, lam(k, psum(m[k], d-1, x)), lam(k, m[k][d-1]), lam(k, psum(m[k], d, x)), pw(x, d-1)); gsumzero(v, n, s, lam(k, psum(m[k], d, x)))} forall(i, 0, d, t[i] == own[i] + gsum(v, n, s, lam(k, m[k][i]))) ==> psum(t, d, x) == psum(own, d, x) + gsum(v, n, s, lam(k, psum(m[k], d, x)))
define ctot(r, x) = psum(kown(), nc(r), x) + gsum(view(kids(r)), len(kids(r)), dom(r.Commitments), kev(r, x))
define kcoef(r) = lam(id, pc(r.Commitments[id]))
define koksumall(r) = forall(i, 0, nc(r), D(r.CommitmentsSum.coefficients[i]) == kown()[i] + gsum(view(kids(r)), len(kids(r)), dom(r.Commitments), cc(r, i)))
func keygen.round2.GenerateMessages(round) (msgs, err)
  requires round != nil && round.round1 != nil && kbase(round.round0) && kcomm(round.round0) && ksum(round.round0)
  requires round.Output != nil
  modifies round.Output.Public, round.Output.SecretKey
  ensures len(msgs) == 0 && err == nil
  ensures round.Output.Public != nil && fresh(round.Output.Public) && round.Output.SecretKey != nil && fresh(round.Output.SecretKey)
  ensures sameids(round.Output.Public.PartyIDs, kids(round)) && fresh(round.Output.Public.PartyIDs)
  ensures round.Output.Public.Threshold == round.Threshold
  ensures round.Output.Public.Shares != nil && fresh(round.Output.Public.Shares) && forall(k, has(round.Output.Public.Shares, k) == isin(kids(round), k))
  ensures forall(k, isin(kids(round), k) ==> round.Output.Public.Shares[k] != nil && fresh(round.Output.Public.Shares[k]) && V(round.Output.Public.Shares[k]) && D(round.Output.Public.Shares[k]) == psum(pc(round.CommitmentsSum), nc(round), toF(k)))
  ensures round.Output.Public.GroupKey != nil && fresh(round.Output.Public.GroupKey) && validpt(round.Output.Public.GroupKey.pk.r) && dl(round.Output.Public.GroupKey.pk.r) == D(round.CommitmentsSum.coefficients[0])
  ensures round.Output.SecretKey.ID == kself(round) && round.Output.SecretKey.Secret == round.Secret && V(&round.Output.SecretKey.Public) && D(&round.Output.SecretKey.Public) == round.Secret
  chain
  instance exchange(view(kids(round)), len(kids(round)), dom(round.Commitments), kown(), pc(round.CommitmentsSum), kcoef(round), nc(round), toF(anyi()))
  ensures koksumall(round.round0) && isin(kids(round), anyi()) ==> D(round.Output.Public.Shares[anyi()]) == ctot(round.round0, toF(anyi()))
  chain
  instance exchange(view(kids(round)), len(kids(round)), dom(round.Commitments), kown(), pc(round.CommitmentsSum), kcoef(round), nc(round), toF(kself(round)))
  ensures koksumall(round.round0) && koksec(round.round0, dom(round.Commitments)) ==> D(round.Output.Public.Shares[kself(round)]) == round.Output.SecretKey.Secret
  inv dom (m: map[party.ID]*ristretto.Element) forall(k, has(m, k) == exists(i, 0, it, kids(round)[i] == k))
  inv val (m: map[party.ID]*ristretto.Element) forall(k, has(m, k) ==> m[k] != nil && fresh(m[k]) && V(m[k]) && D(m[k]) == psum(pc(round.CommitmentsSum), nc(round), toF(k)))

props C15
define coefof(r, e) = exists(k, has(r.Commitments, k) && exists(i, 0, pn(r.Commitments[k]), r.Commitments[k].coefficients[i] == e))
define coefsum(r, e) = r.CommitmentsSum != nil && exists(i, 0, pn(r.CommitmentsSum), r.CommitmentsSum.coefficients[i] == e)
# what was handed out shares no group element with the session's commitments
define outapart(r, out) = out.Public != nil ==> forall(k, has(out.Public.Shares, k) ==> !coefof(r, out.Public.Shares[k]) && !coefsum(r, out.Public.Shares[k])) && !coefof(r, &out.Public.GroupKey.pk) && !coefsum(r, &out.Public.GroupKey.pk)
func keygen.round0.Reset(round)
  requires round != nil && round.Commitments != nil
  requires round.CommitmentsSum == nil || PV(round.CommitmentsSum)
  requires forall(k, has(round.Commitments, k) ==> PV(round.Commitments[k]))
  requires round.Output != nil ==> outapart(round, round.Output)
  modifies round.Secret, round.Output, elems(round.Polynomial.coefficients), heap("edwards25519.Point")
  ensures round.Secret == 0
  ensures old(round.Polynomial) != nil ==> forall(i, 0, len(pol(round)), pol(round)[i] == 0)
  ensures round.Output == nil
  ensures old(round.Output) != nil && old(round.Output).Public != nil ==> forall(k, has(old(round.Output).Public.Shares, k) ==> old(round.Output).Public.Shares[k].r == old(round.Output.Public.Shares[k].r))
  ensures old(round.Output) != nil && old(round.Output).Public != nil ==> old(round.Output).Public.GroupKey.pk.r == old(round.Output.Public.GroupKey.pk.r)
  inv pts forall(k, has(round.Commitments, k) ==> PV(round.Commitments[k]))
  inv out old(round.Output) != nil && old(round.Output).Public != nil ==> forall(k, has(old(round.Output).Public.Shares, k) ==> old(round.Output).Public.Shares[k].r == old(round.Output.Public.Shares[k].r))
  inv outkey old(round.Output) != nil && old(round.Output).Public != nil ==> old(round.Output).Public.GroupKey.pk.r == old(round.Output.Public.GroupKey.pk.r)
# the rounds reach the same reset through their embedded fields
define kresetok(r) = r != nil && r.Commitments != nil && (r.CommitmentsSum == nil || PV(r.CommitmentsSum)) && forall(k, has(r.Commitments, k) ==> PV(r.Commitments[k])) && (r.Output != nil ==> outapart(r, r.Output))
func keygen.round1.Reset(round)
  requires round != nil && kresetok(round.round0)
  modifies anything()
  ensures round.round0 == old(round.round0) && round.Secret == 0
  ensures old(round.Polynomial) != nil ==> forall(i, 0, old(len(pol(round))), old(pol(round))[i] == 0)
func keygen.round2.Reset(round)
  requires round != nil && round.round1 != nil && kresetok(round.round0)
  modifies anything()
  ensures round.round1 == old(round.round1) && round.round0 == old(round.round0) && round.Secret == 0
  ensures old(round.Polynomial) != nil ==> forall(i, 0, old(len(pol(round))), old(pol(round))[i] == 0)
