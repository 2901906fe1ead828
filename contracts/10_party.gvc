props C21
safety C11

func scalar.SetScalarUInt32(s, x) (r)
  requires s != nil
  sets *s := toF(x)
  returns r := s
func scalar.NewScalarUInt32(x) (r)
  fresh r
  sets *r := toF(x)

func party.ID.Scalar(id) (r)
  fresh r
  sets *r := toF(id)
func party.ID.Bytes(id) (r)
  returns r := newbytes(be16(id))
func party.FromBytes(b) (id, err)
  ensures (err == nil) == (len(b) >= 2)
  ensures err == nil ==> id == be16val(b)
func party.RandID() (r)
  modifies ghost_prand
  ensures r != 0

props C23
func scalar.SetScalarRandom(s) (r)
  requires s != nil
  maypanic !rndok(old(ghost_rnd))
  sets *s := uni(rnd(ghost_rnd, 64))
  sets ghost_rnd := ghost_rnd + 1
  returns r := s
func scalar.NewScalarRandom() (r)
  maypanic !rndok(old(ghost_rnd))
  fresh r
  sets *r := uni(rnd(ghost_rnd, 64))
  sets ghost_rnd := ghost_rnd + 1

props C14
rec lnum(v: [Int]Int, n: Int, id: Int): F = ite(n <= 0, 1, ite(v[n-1] == id, lnum(v, n-1, id), lnum(v, n-1, id) * toF(v[n-1])))
rec lden(v: [Int]Int, n: Int, id: Int): F = ite(n <= 0, 1, ite(v[n-1] == id, lden(v, n-1, id), lden(v, n-1, id) * (toF(v[n-1]) - toF(id))))
rec lagf(v: [Int]Int, n: Int, id: Int): F = lnum(v, n, id) * inv(lden(v, n, id))
define isin(s, id) = exists(k, 0, len(s), s[k] == id)
func party.ID.Lagrange(id, partyIDs) (r, err)
  ensures (err == nil) == (id != 0 && isin(partyIDs, id) && lden(view(partyIDs), len(partyIDs), id) != 0)
  ensures err == nil ==> r != nil && fresh(r)
  ensures err == nil ==> *r == lagf(view(partyIDs), len(partyIDs), id)
  inv num (num: edwards25519.Scalar) num == lnum(view(partyIDs), it, id)
  inv den (denum: edwards25519.Scalar) denum == lden(view(partyIDs), it, id)
  inv found (foundSelfInIDs: bool) foundSelfInIDs == exists(k, 0, it, partyIDs[k] == id)
