# ---- rounds: the interface contract State relies on ----
ghostfield rself Int
ghostfield rn Int
ghostfield rids [Int]Int
ghostfield racc [Int]Int
ghostfield rnacc Int
ghostfield rpos Int
ghostfield nproc Int
ghostfield procby Ref
ghostfield ngen Int
ghostfield nreset Int
ghostfield rfail Ref
ghostfield nhand Int
ghostfield gout Ref
ghostfield goff Int
ghostfield glen Int
define rself(r) = ghost("rself", r)
define rn(r) = ghost("rn", r)
define rids(r) = ghost("rids", r)
define rpos(r) = ghost("rpos", r)
define rnacc(r) = ghost("rnacc", r)
define racc(r) = ghost("racc", r)
define inr(r, id) = exists(k, 0, rn(r), sel(rids(r), k) == id)
define failure(r) = ghost("rfail", r)
define nhand(r) = ghost("nhand", r)
define newround(r) = nhand(r) == 0 && ghost("ngen", r) == 0
define wfround(r) = newround(r) && failure(r) == nil && r != nil && 1 <= rn(r) && rn(r) < 65536 && 0 <= rpos(r) && rpos(r) < rnacc(r) && rnacc(r) < 256 && inr(r, rself(r)) && forall(i, 0, rn(r), 1 <= sel(rids(r), i) && sel(rids(r), i) < 65536 && forall(j, 0, rn(r), i < j ==> sel(rids(r), i) < sel(rids(r), j))) && sel(racc(r), 0) == 0 && forall(i, 0, rnacc(r), 0 <= sel(racc(r), i) && sel(racc(r), i) < 256 && forall(j, 0, rnacc(r), i < j ==> sel(racc(r), i) < sel(racc(r), j)))
define payload(m) = (m.Type == 1 ==> m.KeyGen1 != nil) && (m.Type == 2 ==> m.KeyGen2 != nil) && (m.Type == 3 ==> m.Sign1 != nil) && (m.Type == 4 ==> m.Sign2 != nil)
extern state.Round.SelfID(r) (id)
  returns id := rself(r)
extern state.Round.PartyIDs(r) (ids)
  ensures len(ids) == rn(r) && forall(i, 0, rn(r), ids[i] == sel(rids(r), i))
extern state.Round.AcceptedMessageTypes(r) (ts)
  ensures len(ts) == rnacc(r) && forall(i, 0, rnacc(r), ts[i] == sel(racc(r), i))
extern state.Round.ProcessMessage(r, msg) (err)
  requires rpos(r) == 0 || msg != nil && payload(msg) && msg.Type == sel(racc(r), rpos(r)) && msg.From != rself(r) && inr(r, msg.From) && (msg.To == 0 || msg.To == rself(r))
  requires [C13] ghost("ngen", r) == 0
  sets ghost("nhand", r) := nhand(r) + 1
  sets ghost("nproc", msg) := ghost("nproc", msg) + 1
  sets ghost("procby", msg) := ref(r)
  modifies ghost("rfail", r)
  ensures err == nil ==> ghost("rfail", r) == old(ghost("rfail", r))
  ensures err != nil ==> fresh(err) && ghost("rfail", r) == ref(err)
extern state.Round.GenerateMessages(r) (msgs, err)
  requires [C13] ghost("ngen", r) == 0
  requires [C13] nhand(r) == rn(r) - 1
  sets ghost("ngen", r) := ghost("ngen", r) + 1
  modifies ghost("rfail", r), ghost("gout", r), ghost("goff", r), ghost("glen", r)
  ensures ghost("gout", r) == ref(msgs) && ghost("goff", r) == off(msgs) && ghost("glen", r) == len(msgs)
  ensures err == nil ==> ghost("rfail", r) == old(ghost("rfail", r))
  ensures err != nil ==> fresh(err) && ghost("rfail", r) == ref(err)
extern state.Round.NextRound(r) (n)
  requires [C13] ghost("ngen", r) == 1
  ensures n != nil ==> newround(n)
  ensures (n == nil) == (rpos(r) + 1 == rnacc(r))
  ensures n != nil ==> rself(n) == rself(r) && rn(n) == rn(r) && rids(n) == rids(r) && racc(n) == racc(r) && rnacc(n) == rnacc(r) && rpos(n) == rpos(r) + 1 && ghost("rfail", n) == nil
extern state.Round.Reset(r)
  sets ghost("nreset", r) := ghost("nreset", r) + 1

# ---- the lock of a session ----
ghostfield held Int
ghostfield locks Int
define held(s) = ghost("held", base(s)) == 1
define free(s) = ghost("held", base(s)) == 0
define locks(s) = ghost("locks", base(s))
extern sync.Mutex.Lock(m)
  requires [C25] free(m)
  sets ghost("held", base(m)) := 1
  sets ghost("locks", base(m)) := locks(m) + 1
extern sync.Mutex.Unlock(m)
  requires [C25] held(m)
  sets ghost("held", base(m)) := 0
protected state.State held C25 : acceptedTypes receivedMessages queue timer roundNumber round done err
protected state.timer held C25 : t d

props C12 C13

safety C11
func state.NewError(partyID, err) (r)
  fresh r
  ensures r.PartyID == partyID && r.RoundNumber == 0 && r.err == err
func state.State.isAcceptedType(s, msgType) (r)
  requires [C25] held(s)
  requires s != nil
  returns r := exists(k, 0, len(s.acceptedTypes), s.acceptedTypes[k] == msgType)
  inv no forall(k, 0, it, s.acceptedTypes[k] != msgType)
define inqueue(s, f, t) = exists(k, 0, len(s.queue), s.queue[k].From == f && s.queue[k].Type == t)
func state.State.alreadyReceived(s, msg) (r)
  requires [C25] held(s)
  requires s != nil && msg != nil && len(s.acceptedTypes) > 0 && forall(k, 0, len(s.queue), s.queue[k] != nil)
  returns r := ite(msg.Type == s.acceptedTypes[0], has(s.receivedMessages, msg.From), inqueue(s, msg.From, msg.Type))
  inv no forall(k, 0, it, !(s.queue[k].From == msg.From && s.queue[k].Type == msg.Type))
# ---- the timer of a session: runs says it was started and not stopped since ----
ghostfield runs Int
ghostfield tdur Int
ghostfield nstart Int
extern time.Timer.Stop(t) (r)
  requires t != nil
  sets ghost("runs", t) := 0
extern time.Timer.Reset(t, d) (r)
  requires t != nil
  sets ghost("runs", t) := 1
  sets ghost("tdur", t) := d
  sets ghost("nstart", t) := ghost("nstart", t) + 1
define tm(s) = s.timer.t
define starts(s) = ghost("nstart", tm(s))
define tok(s) = (tm(s) != nil) == (s.timer.d > 0) && (tm(s) != nil && s.done ==> ghost("runs", tm(s)) == 0) && (tm(s) != nil && !s.done ==> ghost("runs", tm(s)) == 1 && ghost("tdur", tm(s)) == s.timer.d)
func state.timer.ackMessage(t)
  requires [C25] held(t)
  requires t != nil
  case t.t == nil
  case t.t != nil
    sets [C26] ghost("runs", t.t) := 1
    sets [C26] ghost("tdur", t.t) := t.d
    sets [C26] ghost("nstart", t.t) := ghost("nstart", t.t) + 1
func state.timer.stopTimer(t)
  requires [C25] held(t)
  requires t != nil
  case t.t == nil
  case t.t != nil
    sets [C26] ghost("runs", t.t) := 0
func state.State.finish(s)
  requires [C25] held(s)
  requires s != nil && (s.done || s.round != nil && s.doneChan != nil && !closed(s.doneChan))
  case s.done
  case !s.done
    sets s.done := true
    sets chancell(s.doneChan) := true
    sets ghost("nreset", s.round) := ghost("nreset", s.round) + 1
    modifies ghost("runs", s.timer.t)
    ensures [C26] s.timer.t != nil ==> ghost("runs", s.timer.t) == 0
func state.State.reportError(s, err)
  requires [C25] held(s)
  requires s != nil && err != nil && (s.done || s.round != nil && s.doneChan != nil && !closed(s.doneChan))
  case s.done
  case !s.done
    sets s.done := true
    sets chancell(s.doneChan) := true
    sets ghost("nreset", s.round) := ghost("nreset", s.round) + 1
    modifies ghost("runs", s.timer.t)
    ensures [C26] s.timer.t != nil ==> ghost("runs", s.timer.t) == 0
    modifies s.err, err.RoundNumber
    ensures old(s.err) != nil ==> s.err == old(s.err) && err.RoundNumber == old(err.RoundNumber)
    ensures old(s.err) == nil ==> s.err == err && err.RoundNumber == s.roundNumber

# ---- the state of a session ----
define toself(r, m) = m.To == 0 || m.To == rself(r)
define wfmsg(r, m) = m != nil && payload(m) && m.From != rself(r) && inr(r, m.From) && toself(r, m)
define okreceived1(s) = s.receivedMessages != nil && forall(k, has(s.receivedMessages, k) ==> inr(s.round, k) && k != rself(s.round))
define okreceived2(s) = rpos(s.round) == 0 ==> forall(k, inr(s.round, k) && k != rself(s.round) ==> has(s.receivedMessages, k)) && forall(k, has(s.receivedMessages, k) ==> s.receivedMessages[k] == nil)
define okreceived3(s) = rpos(s.round) > 0 ==> forall(k, has(s.receivedMessages, k) ==> wfmsg(s.round, s.receivedMessages[k]) && s.receivedMessages[k].From == k && s.receivedMessages[k].Type == sel(racc(s.round), rpos(s.round)))
define oktypes(s) = len(s.acceptedTypes) == rnacc(s.round) - rpos(s.round) && forall(i, 0, len(s.acceptedTypes), s.acceptedTypes[i] == sel(racc(s.round), rpos(s.round) + i))
define later(r, t) = exists(k, rpos(r) + 1, rnacc(r), sel(racc(r), k) == t)
define okqueue1(s) = forall(i, 0, len(s.queue), wfmsg(s.round, s.queue[i]) && later(s.round, s.queue[i].Type))
define okqueue2(s) = forall(i, 0, len(s.queue), forall(j, 0, len(s.queue), i < j ==> !(s.queue[i].From == s.queue[j].From && s.queue[i].Type == s.queue[j].Type)))
define sbase(s) = s != nil && s.round != nil && s.doneChan != nil && closed(s.doneChan) == s.done && (s.done || wfround(s.round) && s.err == nil)
define sinv(s) = sbase(s) && (s.done || oktypes(s) && okreceived1(s) && okreceived2(s) && okreceived3(s) && okqueue1(s) && okqueue2(s))
define waiting(s, m) = ite(m.Type == s.acceptedTypes[0], has(s.receivedMessages, m.From), inqueue(s, m.From, m.Type))
define acctype(s, t) = exists(k, 0, len(s.acceptedTypes), s.acceptedTypes[k] == t)
define admitted(s, m) = !s.done && m.From != rself(s.round) && toself(s.round, m) && inr(s.round, m.From) && acctype(s, m.Type) && !waiting(s, m)
func state.State.wrapError(s, err, culprit) (e)
  requires [C25] held(s)
  requires s != nil && s.round != nil
  ensures e != nil
func state.State.HandleMessage(s, msg) (err)
  ensures [C25] free(s)
  requires [C25] free(s)
  sets [C25] ghost("locks", s) := locks(s) + 1
  requires sinv(s) && msg != nil && payload(msg)
  modifies s.queue, elems(s.queue), mapof(s.receivedMessages), ghost("runs", s.timer.t), ghost("tdur", s.timer.t), ghost("nstart", s.timer.t)
  requires [C26] tok(s)
  ensures [C26] tok(s)
  ensures [C26] tm(s) != nil ==> starts(s) == old(starts(s)) + ite(old(admitted(s, msg)), 1, 0)
  ensures sbase(s)
  ensures s.done || oktypes(s)
  ensures s.done || okreceived1(s)
  ensures s.done || okreceived2(s)
  ensures s.done || okreceived3(s)
  ensures s.done || okqueue1(s)
  ensures s.done || okqueue2(s)
  ensures old(admitted(s, msg)) && msg.Type == old(s.acceptedTypes[0]) ==> has(s.receivedMessages, msg.From) && s.receivedMessages[msg.From] == msg && s.queue == old(s.queue)
  ensures old(admitted(s, msg)) && msg.Type == old(s.acceptedTypes[0]) ==> forall(k, k != msg.From ==> has(s.receivedMessages, k) == old(has(s.receivedMessages, k)) && s.receivedMessages[k] == old(s.receivedMessages[k]))
  ensures old(admitted(s, msg)) && msg.Type != old(s.acceptedTypes[0]) ==> len(s.queue) == old(len(s.queue)) + 1 && forall(i, 0, old(len(s.queue)), s.queue[i] == old(s.queue[i])) && s.queue[old(len(s.queue))] == msg
  ensures !(old(admitted(s, msg)) && msg.Type == old(s.acceptedTypes[0])) ==> forall(k, has(s.receivedMessages, k) == old(has(s.receivedMessages, k)) && s.receivedMessages[k] == old(s.receivedMessages[k]))
  ensures !old(admitted(s, msg)) ==> s.queue == old(s.queue) && forall(i, 0, len(s.queue), s.queue[i] == old(s.queue[i]))
  ensures (err == nil) == (old(admitted(s, msg)) || !old(s.done) && (msg.From == rself(s.round) || !toself(s.round, msg)))
# the other participants, as a set
rec mset(v: [Int]Int, n: Int): [Int]Bool = ite(n <= 0, emptyset(), sto(mset(v, n-1), v[n-1], true))
lemma msetin(v: [Int]Int, n: Int, k: Int) {auto} {induct n} {trigger sel(mset(v, n), k)} sel(mset(v, n), k) == exists(i, 0, n, v[i] == k)
lemma cardsto(s: [Int]Bool, k: Int) card(sto(s, k, true)) == card(s) + ite(sel(s, k), 0, 1)
lemma cardrem(s: [Int]Bool, k: Int) card(sto(s, k, false)) == card(s) - ite(sel(s, k), 1, 0)
lemma cardnone(s: [Int]Bool) s == emptyset() ==> card(s) == 0
lemma msetcard(v: [Int]Int, n: Int) {induct n} {with msetin(v, n-1, v[n-1]); cardsto(mset(v, n-1), v[n-1]); cardnone(mset(v, n))} 0 <= n && forall(i, 0, n, forall(j, 0, n, i < j ==> v[i] != v[j])) ==> card(mset(v, n)) == n
define others(r) = sto(mset(rids(r), rn(r)), rself(r), false)
define complete(s) = forall(k, inr(s.round, k) && k != rself(s.round) ==> has(s.receivedMessages, k))
func state.NewBaseState(round, timeout) (s, err)
  requires wfround(round) && rpos(round) == 0
  returns err := nil
  fresh s
  ensures sbase(s) && !s.done && s.round == round && s.roundNumber == 0
  ensures oktypes(s)
  ensures okreceived1(s)
  ensures okreceived2(s)
  ensures okqueue1(s)
  ensures okqueue2(s)
  ensures len(s.queue) == 0 && complete(s)
  ensures [C25] free(s)
  ensures [C26] s.timer.d == timeout && tok(s)
  inv own (s: *state.State) fresh(s) && fresh(s.receivedMessages)
  inv dom1 (s: *state.State) forall(k, has(s.receivedMessages, k) ==> inr(round, k) && k != rself(round))
  inv nils (s: *state.State) forall(k, has(s.receivedMessages, k) ==> s.receivedMessages[k] == nil)
  inv dom2 (s: *state.State) forall(i, 0, it, sel(rids(round), i) != rself(round) ==> has(s.receivedMessages, sel(rids(round), i)))
lemma othersin(v: [Int]Int, n: Int, x: Int) {with msetcard(v, n); msetin(v, n, x); cardrem(mset(v, n), x)} 0 <= n && forall(i, 0, n, forall(j, 0, n, i < j ==> v[i] != v[j])) && exists(i, 0, n, v[i] == x) ==> card(sto(mset(v, n), x, false)) == n - 1
lemma subeq(a: [Int]Bool, b: [Int]Bool, k: Int) {trigger sel(b, k); card(a); card(b)} {with cardsto(a, k)} forall(j, sel(a, j) ==> sel(b, j)) && card(b) <= card(a) && sel(b, k) ==> sel(a, k)
lemma subeqs(a: [Int]Bool, b: [Int]Bool) {by subeq} forall(j, sel(a, j) ==> sel(b, j)) && card(b) <= card(a) ==> forall(k, sel(b, k) ==> sel(a, k))
lemma submono(a: [Int]Bool, b: [Int]Bool) forall(j, sel(a, j) ==> sel(b, j)) ==> card(a) <= card(b)
define isnext(s, t) = rpos(s.round) + 1 < rnacc(s.round) && t == sel(racc(s.round), rpos(s.round) + 1)
define full(s) = len(s.receivedMessages) == rn(s.round) - 1
define success(s) = !old(s.done) && old(full(s)) && s.err == nil
func state.State.ProcessAll(s) (r)
  requires [C25] free(s)
  sets [C25] ghost("locks", s) := locks(s) + 1
  requires sinv(s)
  modifies s.receivedMessages, mapof(s.receivedMessages), s.acceptedTypes, s.queue, elems(s.queue), s.round, s.roundNumber, s.done, s.err, chancell(s.doneChan), anyghost("nproc"), anyghost("nhand"), anyghost("procby"), anyghost("ngen"), anyghost("nreset"), anyghost("rfail"), anyghost("gout"), anyghost("goff"), anyghost("glen"), ghost("runs", s.timer.t)
  requires [C26] tok(s)
  ensures [C26] tok(s)
  inv early1 forall(k, has(s.receivedMessages, k) && s.receivedMessages[k] != nil ==> ghost("nproc", s.receivedMessages[k]) == old(ghost("nproc", s.receivedMessages[k])) + ite(sel(visited, k), 1, 0))
  inv early2 forall(k, sel(visited, k) && has(s.receivedMessages, k) && s.receivedMessages[k] != nil ==> ghost("procby", s.receivedMessages[k]) == ref(s.round))
  inv nofail failure(s.round) == nil
  inv handed nhand(s.round) == it
  inv gone forall(k, has(s.receivedMessages, k) ==> !sel(visited, k))
  inv nq (newQueue: []*messages.Message) ref(newQueue) == ref(s.queue) && off(newQueue) == off(s.queue) && len(newQueue) <= it && cap(newQueue) == cap(s.queue)
  inv tail (newQueue: []*messages.Message) forall(k, it, len(s.queue), s.queue[k] == old(s.queue[k]))
  inv from (newQueue: []*messages.Message) forall(a, 0, len(newQueue), newQueue[a].Type != s.acceptedTypes[0] && exists(i, 0, it, newQueue[a] == old(s.queue[i])))
  inv pairs (newQueue: []*messages.Message) forall(a, 0, len(newQueue), forall(b, 0, len(newQueue), a < b ==> !(newQueue[a].From == newQueue[b].From && newQueue[a].Type == newQueue[b].Type)))
  inv kept (newQueue: []*messages.Message) forall(i, 0, it, old(s.queue[i]).Type != s.acceptedTypes[0] ==> exists(a, 0, len(newQueue), newQueue[a] == old(s.queue[i])))
  inv taken (newQueue: []*messages.Message) forall(i, 0, it, old(s.queue[i]).Type == s.acceptedTypes[0] ==> has(s.receivedMessages, old(s.queue[i]).From) && s.receivedMessages[old(s.queue[i]).From] == old(s.queue[i]))
  inv only (newQueue: []*messages.Message) forall(k, has(s.receivedMessages, k) ==> exists(i, 0, it, s.receivedMessages[k] == old(s.queue[i]) && old(s.queue[i]).From == k && old(s.queue[i]).Type == s.acceptedTypes[0]))
  instance othersin(old(rids(s.round)), old(rn(s.round)), old(rself(s.round)))
  instance subeqs(old(dom(s.receivedMessages)), old(others(s.round)))
  instance submono(old(others(s.round)), old(dom(s.receivedMessages)))
  ensures !old(s.done) ==> old(full(s)) == old(complete(s))
  ensures sbase(s)
  ensures s.done || oktypes(s)
  ensures s.done || okreceived1(s)
  ensures s.done || okreceived2(s)
  ensures s.done || okreceived3(s)
  ensures s.done || okqueue1(s)
  ensures s.done || okqueue2(s)
  ensures old(s.done) ==> r == nil && s.err == old(s.err) && s.done
  ensures !old(s.done) && !old(full(s)) ==> r == nil && !s.done
  ensures old(s.done) || !old(full(s)) ==> s.round == old(s.round) && s.roundNumber == old(s.roundNumber) && s.queue == old(s.queue) && s.receivedMessages == old(s.receivedMessages) && forall(k, has(s.receivedMessages, k) == old(has(s.receivedMessages, k)) && s.receivedMessages[k] == old(s.receivedMessages[k])) && forall(i, 0, len(s.queue), s.queue[i] == old(s.queue[i]))
  ensures old(s.done) || !old(full(s)) ==> forall(k, ghost("nproc", old(s.receivedMessages[k])) == old(ghost("nproc", s.receivedMessages[k]))) && ghost("ngen", old(s.round)) == old(ghost("ngen", s.round))
  ensures !old(s.done) && s.err != nil ==> r == nil && s.done
  ensures !old(s.done) && old(full(s)) ==> ref(s.err) == failure(old(s.round))
  ensures !old(s.done) && s.err != nil ==> s.err.RoundNumber == old(s.roundNumber) && s.round == old(s.round) && ghost("nreset", s.round) == old(ghost("nreset", s.round)) + 1
  ensures [C12 C15] !old(s.done) && s.done ==> ghost("nreset", s.round) == old(ghost("nreset", s.round)) + 1
  ensures success(s) ==> ref(r) == ghost("gout", old(s.round)) && off(r) == ghost("goff", old(s.round)) && len(r) == ghost("glen", old(s.round))
  ensures [C25] free(s)
  ensures success(s) ==> forall(k, old(has(s.receivedMessages, k) && s.receivedMessages[k] != nil) ==> ghost("nproc", old(s.receivedMessages[k])) == old(ghost("nproc", s.receivedMessages[k])) + 1 && ghost("procby", old(s.receivedMessages[k])) == ref(old(s.round)))
  ensures success(s) ==> ghost("ngen", old(s.round)) == old(ghost("ngen", s.round)) + 1
  ensures success(s) ==> s.done == (rpos(old(s.round)) + 1 == rnacc(old(s.round)))
  ensures success(s) && !s.done ==> s.roundNumber == old(s.roundNumber) + 1 && rpos(s.round) == rpos(old(s.round)) + 1 && rself(s.round) == rself(old(s.round)) && rids(s.round) == rids(old(s.round)) && rn(s.round) == rn(old(s.round)) && racc(s.round) == racc(old(s.round)) && rnacc(s.round) == rnacc(old(s.round))
  ensures success(s) && !s.done ==> forall(i, 0, old(len(s.queue)), old(s.queue[i]).Type == s.acceptedTypes[0] ==> has(s.receivedMessages, old(s.queue[i]).From) && s.receivedMessages[old(s.queue[i]).From] == old(s.queue[i]))
  ensures success(s) && !s.done ==> forall(i, 0, old(len(s.queue)), old(s.queue[i]).Type != s.acceptedTypes[0] ==> exists(a, 0, len(s.queue), s.queue[a] == old(s.queue[i])))
  ensures success(s) && !s.done ==> forall(a, 0, len(s.queue), exists(i, 0, old(len(s.queue)), s.queue[a] == old(s.queue[i])))
  ensures success(s) && !s.done ==> forall(k, has(s.receivedMessages, k) ==> exists(i, 0, old(len(s.queue)), s.receivedMessages[k] == old(s.queue[i])))

define okopen(s) = s != nil && s.doneChan != nil && closed(s.doneChan) == s.done
func state.State.Done(s) (r)
  requires s != nil
  returns r := s.doneChan
func state.State.Err(s) (r)
  ensures [C25] free(s)
  requires s != nil
  requires [C25] free(s)
  sets [C25] ghost("locks", s) := locks(s) + 1
  ensures (r == nil) == (s.err == nil)
  ensures r != nil ==> typeis(r, "*state.Error") && unbox(r, "*state.Error") == s.err
func state.State.IsFinished(s) (r)
  ensures [C25] free(s)
  requires s != nil
  requires [C25] free(s)
  sets [C25] ghost("locks", s) := locks(s) + 1
  returns r := s.done
func state.State.WaitForError(s) (r)
  ensures [C25] free(s)
  requires s != nil
  requires [C25] free(s)
  sets [C25] ghost("locks", s) := locks(s) + 1
  ensures (r == nil) == (s.err == nil)
  ensures r != nil ==> typeis(r, "*state.Error") && unbox(r, "*state.Error") == s.err
func state.NewBaseState$1()
  requires sbase(s)
  requires [C25] free(s)
  sets [C25] ghost("locks", s) := locks(s) + 1
  modifies s.done, s.err, chancell(s.doneChan), anyghost("nreset"), ghost("runs", s.timer.t)
  requires [C26] tok(s)
  ensures [C26] tok(s)
  ensures [C25] free(s)
  ensures sbase(s) && s.done
  ensures old(s.done) ==> s.err == old(s.err) && ghost("nreset", s.round) == old(ghost("nreset", s.round))
  ensures !old(s.done) ==> s.err != nil && fresh(s.err) && s.err.RoundNumber == s.roundNumber
  ensures [C26] s.done && s.err == ite(old(s.done), old(s.err), s.err) && (!old(s.done) ==> s.err != nil)
  ensures [C13 C15] !old(s.done) ==> ghost("nreset", s.round) == old(ghost("nreset", s.round)) + 1
