props C18
safety C11
define sself(r) = r.BaseRound.selfID
define sids(r) = r.BaseRound.partyIDs
define spub(s) = s != nil && s.GroupKey != nil && validpt(s.GroupKey.pk.r) && sortedlt(s.PartyIDs) && forall(i, 0, len(s.PartyIDs), has(s.Shares, s.PartyIDs[i]) && s.Shares[s.PartyIDs[i]] != nil && V(s.Shares[s.PartyIDs[i]]))
define sparties(r) = r.Parties != nil && forall(i, 0, len(sids(r)), has(r.Parties, sids(r)[i])) && forall(k, has(r.Parties, k) ==> isin(sids(r), k)) && forall(k, has(r.Parties, k) ==> r.Parties[k] != nil && ref(r.Parties[k]) != ref(r) && V(&r.Parties[k].Public)) && forall(j, forall(k, has(r.Parties, j) && has(r.Parties, k) && j != k ==> r.Parties[j] != r.Parties[k]))
define sgbase(r) = r != nil && r.BaseRound != nil && okids(sself(r), sids(r)) && len(sids(r)) < 65536 && validpt(r.GroupKey.pk.r) && sparties(r)
define lag(ids, id) = lagf(view(ids), len(ids), id)
define sr0(r) = unbox(r, "*sign.round0")
func sign.NewRound(partyIDs, secret, shares, message) (r, out, err)
  requires secret != nil && spub(shares)
  model err == nil ==> rself(r) == secret.ID && rn(r) == len(partyIDs) && forall(i, 0, len(partyIDs), sel(rids(r), i) == partyIDs[i]) && newround(r) && failure(r) == nil && rpos(r) == 0 && rnacc(r) == 3 && sel(racc(r), 0) == 0 && sel(racc(r), 1) == 3 && sel(racc(r), 2) == 4
  instance idsbound(view(partyIDs), len(partyIDs))
  ensures (err == nil) == (okids(secret.ID, partyIDs) && forall(i, 0, len(partyIDs), isin(shares.PartyIDs, partyIDs[i])) && len(partyIDs) > shares.Threshold)
  ensures err != nil ==> r == nil && out == nil
  ensures err == nil ==> typeis(r, "*sign.round0") && fresh(sr0(r)) && out != nil && fresh(out) && sr0(r).Output == out && out.Signature == nil
  ensures err == nil ==> sr0(r).BaseRound != nil && sself(sr0(r)) == secret.ID && sids(sr0(r)) == partyIDs
  ensures err == nil ==> sparties(sr0(r))
  instance idsbound(view(partyIDs), len(partyIDs))
  ensures err == nil ==> sgbase(sr0(r))
  ensures err == nil ==> sr0(r).GroupKey.pk.r == shares.GroupKey.pk.r && sr0(r).Message == message
  ensures [C02 C06] err == nil ==> forall(k, isin(partyIDs, k) ==> D(&sr0(r).Parties[k].Public) == lag(partyIDs, k) * D(shares.Shares[k]))
  ensures [C02] err == nil ==> sr0(r).SecretKeyShare == lag(partyIDs, secret.ID) * secret.Secret
  ensures [C02] err == nil && D(shares.Shares[secret.ID]) == secret.Secret ==> D(&sr0(r).Parties[secret.ID].Public) == sr0(r).SecretKeyShare
  inv nonzero forall(i, 0, it, partyIDs[i] != 0)
  inv frame (round: *sign.round0) round.Parties != nil && fresh(round.Parties) && validpt(round.GroupKey.pk.r) && round.GroupKey.pk.r == shares.GroupKey.pk.r
  inv domA (round: *sign.round0) forall(i, 0, it, has(round.Parties, partyIDs[i]))
  inv domB (round: *sign.round0) forall(k, has(round.Parties, k) ==> exists(i, 0, it, partyIDs[i] == k))
  inv mem (round: *sign.round0) forall(k, has(round.Parties, k) ==> round.Parties[k] != nil && fresh(round.Parties[k]) && ref(round.Parties[k]) != ref(round))
  inv valid (round: *sign.round0) forall(k, has(round.Parties, k) ==> V(&round.Parties[k].Public))
  inv val (round: *sign.round0) forall(k, has(round.Parties, k) ==> D(&round.Parties[k].Public) == lag(partyIDs, k) * D(shares.Shares[k]))
  inv sep (round: *sign.round0) forall(j, forall(k, has(round.Parties, j) && has(round.Parties, k) && j != k ==> round.Parties[j] != round.Parties[k]))

# round 0: the nonces
props C22 C23
define Dk(r, k) = D(&r.Parties[k].Di)
define Ek(r, k) = D(&r.Parties[k].Ei)
func sign.round0.ProcessMessage(round, msg) (err)
  ensures err == nil
func sign.round0.GenerateMessages(round) (msgs, err)
  requires sgbase(round)
  maypanic !rndok(old(ghost_rnd)) || !rndok(old(ghost_rnd) + 1)
  modifies round.d, round.e, round.Parties[sself(round)].Di, round.Parties[sself(round)].Ei, ghost_rnd
  ensures err == nil && len(msgs) == 1 && fresh(msgs)
  ensures ghost_rnd == old(ghost_rnd) + 2
  ensures (round.d == uni(rnd(old(ghost_rnd), 64)) && round.e == uni(rnd(old(ghost_rnd) + 1, 64))) || (round.e == uni(rnd(old(ghost_rnd), 64)) && round.d == uni(rnd(old(ghost_rnd) + 1, 64)))
  ensures msgs[0] != nil && fresh(msgs[0]) && msgs[0].Header.Type == 3 && msgs[0].Header.From == sself(round) && msgs[0].Header.To == 0 && fresh(msgs[0].Sign1)
  ensures V(&msgs[0].Sign1.Di) && V(&msgs[0].Sign1.Ei) && D(&msgs[0].Sign1.Di) == round.d && D(&msgs[0].Sign1.Ei) == round.e
  ensures V(&round.Parties[sself(round)].Di) && V(&round.Parties[sself(round)].Ei) && Dk(round, sself(round)) == round.d && Ek(round, sself(round)) == round.e
func sign.round0.NextRound(round) (n)
  ensures typeis(n, "*sign.round1") && fresh(unbox(n, "*sign.round1")) && unbox(n, "*sign.round1").round0 == round
func sign.round1.NextRound(round) (n)
  ensures typeis(n, "*sign.round2") && fresh(unbox(n, "*sign.round2")) && unbox(n, "*sign.round2").round1 == round
func sign.round2.NextRound(round) (n)
  ensures n == nil
func sign.round0.AcceptedMessageTypes(round) (ts)
  ensures len(ts) == 3 && ts[0] == 0 && ts[1] == 3 && ts[2] == 4

# round 1: the nonce commitments of the others
props C06
func sign.round1.ProcessMessage(round, msg) (err)
  requires round != nil && sgbase(round.round0)
  requires msg != nil && msg.Sign1 != nil && s1ok(msg.Sign1) && isin(sids(round), msg.Header.From) && msg.Header.From != sself(round)
  requires forall(k, has(round.Parties, k) ==> ref(round.Parties[k]) != ref(msg.Sign1))
  modifies round.Parties[msg.Header.From].Di, round.Parties[msg.Header.From].Ei
  ensures (err == nil) == (D(&msg.Sign1.Di) != 0 && D(&msg.Sign1.Ei) != 0)
  ensures err != nil ==> fresh(err) && err.PartyID == msg.Header.From
  ensures err != nil ==> round.Parties[msg.Header.From].Di.r == old(round.Parties[msg.Header.From].Di.r) && round.Parties[msg.Header.From].Ei.r == old(round.Parties[msg.Header.From].Ei.r)
  ensures err == nil ==> V(&round.Parties[msg.Header.From].Di) && Dk(round, msg.Header.From) == D(&msg.Sign1.Di)
  ensures err == nil ==> V(&round.Parties[msg.Header.From].Ei) && Ek(round, msg.Header.From) == D(&msg.Sign1.Ei)

# binding factors: the list of the commitments in the order of the IDs
props C07
rec bbuf(v: [Int]Int, n: Int, p: [Int]F, q: [Int]F): Bytes = ite(n <= 0, zeros(0), cat(bbuf(v, n-1, p, q), be16(v[n-1]), elbytes(p[v[n-1]]), elbytes(q[v[n-1]])))
lemma bbuflen(v: [Int]Int, n: Int, p: [Int]F, q: [Int]F) {auto} {induct n} {trigger bbuf(v, n, p, q)} 0 <= n ==> len(bbuf(v, n, p, q)) == 66 * n
define dlm(r) = lam(k, Dk(r, k))
define elm(r) = lam(k, Ek(r, k))
define blist(r) = bbuf(view(sids(r)), len(sids(r)), dlm(r), elm(r))
define rho(r, k) = uni(sha512(cat("FROST-SHA512", be16(k), sha512(bytes(r.Message)), blist(r))))
define snonces(r) = forall(k, has(r.Parties, k) ==> V(&r.Parties[k].Di) && V(&r.Parties[k].Ei))
func sign.round1.computeRhos(round)
  requires round != nil && sgbase(round.round0) && snonces(round.round0)
  modifies mapfield(round.Parties, Pi)
  ensures forall(i, 0, len(sids(round)), round.Parties[sids(round)[i]].Pi == rho(round.round0, sids(round)[i]))
  inv own (buffer: []byte) fresh(buffer)
  inv lenA (buffer: []byte) len(buffer) == 78 + 66 * it
  inv lenB (buffer: []byte) len(buffer) == 78 + 66 * len(sids(round))
  inv head (buffer: []byte) sub(bytes(buffer), 0, 12) == "FROST-SHA512"
  inv tailA (buffer: []byte) sub(bytes(buffer), 14, len(buffer) - 14) == cat(sha512(bytes(round.Message)), bbuf(view(sids(round)), it, dlm(round.round0), elm(round.round0)))
  inv tailB (buffer: []byte) sub(bytes(buffer), 14, len(buffer) - 14) == cat(sha512(bytes(round.Message)), blist(round.round0))
  inv done forall(i, 0, it, round.Parties[sids(round)[i]].Pi == rho(round.round0, sids(round)[i]))

# round 1: nonce commitments of the signers, group commitment, challenge, own share
props C02 C06 C07 C22 C23
lemma gsumvis(v: [Int]Int, n: Int, s: [Int]Bool, x: Int, f: [Int]F) {auto} {trigger gsum(v, n, sto(s, x, true), f); gsum(v, n, s, f)} {with gsumadd(v, n, s, x, f, f)} forall(i, 0, n, forall(j, 0, n, i < j ==> v[i] != v[j])) && !sel(s, x) && exists(i, 0, n, v[i] == x) ==> gsum(v, n, sto(s, x, true), f) == gsum(v, n, s, f) + f[x]
lemma gsumnoneat(v: [Int]Int, n: Int, f: [Int]F) {auto} {trigger gsum(v, n, emptyset(), f)} {with gsumnone(v, n, emptyset(), f)} gsum(v, n, emptyset(), f) == 0
define schal(R, A, m) = uni(sha512(cat(edbytes(R), edbytes(A), bytes(m))))
define rlm(r) = lam(k, D(&r.Parties[k].Di) + rho(r, k) * D(&r.Parties[k].Ei))
func sign.round1.GenerateMessages(round) (msgs, err)
  requires round != nil && sgbase(round.round0) && snonces(round.round0)
  modifies mapfield(round.Parties, Pi), mapfield(round.Parties, Ri), round.R, round.C, round.Parties[sself(round)].Zi
  ensures err == nil && len(msgs) == 1 && fresh(msgs)
  ensures forall(k, has(round.Parties, k) ==> V(&round.Parties[k].Ri) && D(&round.Parties[k].Ri) == sel(old(rlm(round.round0)), k))
  ensures V(&round.R) && D(&round.R) == gsum(view(sids(round)), len(sids(round)), dom(round.Parties), old(rlm(round.round0)))
  ensures round.C == schal(D(&round.R), dl(round.GroupKey.pk.r), round.Message)
  ensures [C02 C23] round.Parties[sself(round)].Zi == round.d + round.e * old(rho(round.round0, sself(round))) + round.SecretKeyShare * round.C
  ensures [C22] msgs[0] != nil && fresh(msgs[0]) && msgs[0].Header.Type == 4 && msgs[0].Header.From == sself(round) && msgs[0].Header.To == 0 && fresh(msgs[0].Sign2) && msgs[0].Sign2.Zi == round.Parties[sself(round)].Zi
  inv pis forall(k, has(round.Parties, k) ==> round.Parties[k].Pi == old(rho(round.round0, k)))
  inv nonces forall(k, has(round.Parties, k) ==> round.Parties[k].Di.r == old(round.Parties[k].Di.r) && round.Parties[k].Ei.r == old(round.Parties[k].Ei.r))
  inv ris forall(k, sel(visited, k) ==> V(&round.Parties[k].Ri) && D(&round.Parties[k].Ri) == sel(old(rlm(round.round0)), k))
  inv risB forall(i, 0, it, V(&round.Parties[sids(round)[i]].Ri) && D(&round.Parties[sids(round)[i]].Ri) == sel(old(rlm(round.round0)), sids(round)[i]))
  inv sum V(&round.R) && D(&round.R) == gsum(view(sids(round)), len(sids(round)), visited, old(rlm(round.round0)))
  inv sumB V(&round.R) && D(&round.R) == gsum(view(sids(round)), it, dom(round.Parties), old(rlm(round.round0)))

# round 2: the signature shares of the others, the signature
props C06
define sz(r) = lam(k, r.Parties[k].Zi)
func sign.round2.ProcessMessage(round, msg) (err)
  requires round != nil && round.round1 != nil && sgbase(round.round1.round0)
  requires msg != nil && msg.Sign2 != nil && isin(sids(round), msg.Header.From) && msg.Header.From != sself(round)
  requires V(&round.Parties[msg.Header.From].Ri)
  requires forall(k, has(round.Parties, k) ==> ref(round.Parties[k]) != ref(msg.Sign2))
  modifies round.Parties[msg.Header.From].Zi
  ensures (err == nil) == (msg.Sign2.Zi == D(&round.Parties[msg.Header.From].Ri) + round.C * D(&round.Parties[msg.Header.From].Public))
  ensures err != nil ==> fresh(err) && err.PartyID == msg.Header.From
  ensures err != nil ==> round.Parties[msg.Header.From].Zi == old(round.Parties[msg.Header.From].Zi)
  ensures err == nil ==> round.Parties[msg.Header.From].Zi == msg.Sign2.Zi
props C01 C02
func sign.round2.GenerateMessages(round) (msgs, err)
  requires round != nil && round.round1 != nil && sgbase(round.round1.round0) && V(&round.R) && round.Output != nil
  modifies round.Output.Signature
  ensures len(msgs) == 0
  ensures [C01] err != nil ==> fresh(err) && err.PartyID == 0 && round.Output.Signature == old(round.Output.Signature)
  ensures [C01] err == nil ==> round.Output.Signature != nil && fresh(round.Output.Signature) && validpt(round.Output.Signature.R.r) && dl(round.Output.Signature.R.r) == D(&round.R)
  ensures [C01] err == nil ==> round.Output.Signature.S == dl(round.Output.Signature.R.r) + schal(dl(round.Output.Signature.R.r), dl(round.GroupKey.pk.r), round.Message) * dl(round.GroupKey.pk.r)
  ensures [C02] err == nil ==> round.Output.Signature.S == gsum(view(sids(round)), len(sids(round)), dom(round.Parties), sz(round))
  ensures [C02] gsum(view(sids(round)), len(sids(round)), dom(round.Parties), sz(round)) == D(&round.R) + schal(D(&round.R), dl(round.GroupKey.pk.r), round.Message) * dl(round.GroupKey.pk.r) ==> err == nil
  inv sum (S: *ristretto.Scalar) *S == gsum(view(sids(round)), len(sids(round)), visited, sz(round))
  inv sumB (S: *ristretto.Scalar) *S == gsum(view(sids(round)), it, dom(round.Parties), sz(round))

# if every share is valid, their sum completes the group commitment to a signature
lemma sharesum(v: [Int]Int, n: Int, s: [Int]Bool, z: [Int]F, rl: [Int]F, pub: [Int]F, c: F) {props C02} {induct n} forall(k, sel(s, k) ==> z[k] == rl[k] + c * pub[k]) ==> gsum(v, n, s, z) == gsum(v, n, s, rl) + c * gsum(v, n, s, pub)

# a party's own share is valid if the commitments it sent are those of its nonces
lemma ownshare(d: F, e: F, D: F, E: F, rho: F, sk: F, pub: F, c: F) {props C02 C06} D == d && E == e && pub == sk ==> d + e * rho + sk * c == (D + rho * E) + c * pub

# the end of a session
props C15
func sign.signer.Reset(signer)
  requires signer != nil
  modifies signer.Di, signer.Ei, signer.Ri, signer.Pi, signer.Zi
  ensures signer.Pi == 0 && signer.Zi == 0
  ensures V(&signer.Di) && D(&signer.Di) == 0 && V(&signer.Ei) && D(&signer.Ei) == 0 && V(&signer.Ri) && D(&signer.Ri) == 0
func sign.round0.Reset(round)
  requires round != nil && round.Parties != nil
  requires forall(k, has(round.Parties, k) ==> round.Parties[k] != nil && ref(round.Parties[k]) != ref(round))
  requires round.Output != nil && round.Output.Signature != nil ==> forall(k, has(round.Parties, k) ==> ref(round.Parties[k]) != ref(round.Output.Signature))
  requires round.Output != nil ==> ref(round.Output.Signature) != ref(round)
  modifies round.Message, round.SecretKeyShare, round.e, round.d, round.C, round.R, round.Output, mapof(round.Parties), mapvals(round.Parties), heap("edwards25519.Point"), heap("edwards25519.Scalar")
  ensures round.SecretKeyShare == 0 && round.d == 0 && round.e == 0 && round.C == 0
  ensures len(round.Message) == 0 && round.Output == nil
  ensures forall(k, old(has(round.Parties, k)) ==> old(round.Parties)[k].Zi == 0)
  ensures forall(k, !has(round.Parties, k))
  ensures old(round.Output) != nil && old(round.Output.Signature) != nil ==> old(round.Output).Signature == old(round.Output.Signature) && old(round.Output.Signature).S == old(round.Output.Signature.S) && old(round.Output.Signature).R.r == old(round.Output.Signature.R.r)
  inv own round.SecretKeyShare == 0 && round.d == 0 && round.e == 0 && round.C == 0
  inv zeroed forall(k, sel(visited, k) ==> old(round.Parties[k]).Zi == 0)
  inv left forall(k, has(round.Parties, k) ==> old(has(round.Parties, k)) && round.Parties[k] == old(round.Parties[k]))
  inv left2 forall(k, has(round.Parties, k) ==> !sel(visited, k))
  inv left3 forall(k, old(has(round.Parties, k)) ==> sel(visited, k) || has(round.Parties, k))
  inv out old(round.Output) != nil && old(round.Output.Signature) != nil ==> old(round.Output).Signature == old(round.Output.Signature) && old(round.Output.Signature).S == old(round.Output.Signature.S) && old(round.Output.Signature).R.r == old(round.Output.Signature.R.r)
# the rounds reach the same reset through their embedded fields
define sresetok(r) = r != nil && r.Parties != nil && forall(k, has(r.Parties, k) ==> r.Parties[k] != nil && ref(r.Parties[k]) != ref(r)) && (r.Output != nil && r.Output.Signature != nil ==> forall(k, has(r.Parties, k) ==> ref(r.Parties[k]) != ref(r.Output.Signature))) && (r.Output != nil ==> ref(r.Output.Signature) != ref(r))
func sign.round1.Reset(round)
  requires round != nil && sresetok(round.round0)
  modifies anything()
  ensures round.round0 == old(round.round0) && round.SecretKeyShare == 0 && round.d == 0 && round.e == 0 && round.C == 0
  ensures forall(k, old(has(round.Parties, k)) ==> old(round.Parties)[k].Zi == 0)
func sign.round2.Reset(round)
  requires round != nil && round.round1 != nil && sresetok(round.round0)
  modifies anything()
  ensures round.round1 == old(round.round1) && round.round0 == old(round.round0) && round.SecretKeyShare == 0 && round.d == 0 && round.e == 0 && round.C == 0
  ensures forall(k, old(has(round.Parties, k)) ==> old(round.Parties)[k].Zi == 0)
