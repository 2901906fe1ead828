# hash functions of the standard library: what was written is a ghost byte string
ghostfield hashin Bytes
ghostfield ishash Int
extern sha512.New() (h)
  fresh h
  ensures h != nil && ghost("ishash", h) == 1 && ghost("hashin", h) == zeros(0)
extern io.Writer.Write(w, p) (n, err)
  requires ghost("ishash", w) == 1
  sets ghost("hashin", w) := cat(ghost("hashin", w), bytes(p))
  returns n := len(p)
  returns err := nil
extern hash.Hash.Sum(h, b) (r)
  requires ghost("ishash", h) == 1
  appends r := b, sha512(ghost("hashin", h))
extern hash.Hash.Reset(h)
  requires ghost("ishash", h) == 1
  sets ghost("hashin", h) := zeros(0)
extern sha512.Sum512(data) (r)
  returns r := sha512(bytes(data))

props C05
safety C11
define chal(id, ctx, A, M) = uni(sha512(cat(be16(id), sub(bytes(ctx), 0, 32), elbytes(A), elbytes(M))))
func zk.challenge(partyID, context, public, M) (r)
  requires public != nil && M != nil && V(public) && V(M) && len(context) >= 32
  fresh r
  sets *r := chal(partyID, context, D(public), D(M))
func zk.NewSchnorrProof(partyID, public, context, private) (r)
  requires public != nil && private != nil && V(public) && len(context) >= 32
  maypanic !rndok(old(ghost_rnd))
  fresh r
  sets ghost_rnd := ghost_rnd + 1
  ensures r.S == chal(partyID, context, D(public), uni(rnd(old(ghost_rnd), 64)))
  ensures r.R == uni(rnd(old(ghost_rnd), 64)) + *private * r.S
func zk.Schnorr.Verify(proof, partyID, public, context) (ok)
  requires proof != nil && public != nil && V(public) && len(context) >= 32
  returns ok := proof.S == chal(partyID, context, D(public), proof.R - proof.S * D(public))
func zk.Schnorr.Equal(proof, other) (ok)
  requires proof != nil && (typeis(other, "*zk.Schnorr") ==> unbox(other, "*zk.Schnorr") != nil)
  returns ok := typeis(other, "*zk.Schnorr") && unbox(other, "*zk.Schnorr").S == proof.S && unbox(other, "*zk.Schnorr").R == proof.R
# a proof made for the secret of the public key verifies: the commitment is recomputed exactly
lemma zkcomplete(x: F, k: F, s: F, A: F) {props C05} A == x ==> (k + x * s) - s * A == k

props C08
safety C11
func eddsa.ComputeChallenge(R, groupKey, message) (r)
  requires R != nil && groupKey != nil && V(R) && validpt(groupKey.pk.r)
  fresh r
  sets *r := uni(sha512(cat(edbytes(D(R)), edbytes(dl(groupKey.pk.r)), bytes(message))))
func eddsa.PublicKey.Verify(pk, message, sig) (ok)
  requires pk != nil && sig != nil && validpt(pk.pk.r) && validpt(sig.R.r)
  returns ok := sig.S == dl(sig.R.r) + uni(sha512(cat(edbytes(dl(sig.R.r)), edbytes(dl(pk.pk.r)), bytes(message)))) * dl(pk.pk.r)
func eddsa.PublicKey.ToEd25519(pk) (r)
  requires pk != nil && validpt(pk.pk.r)
  returns r := newbytes(edbytes(dl(pk.pk.r)))
func eddsa.Signature.ToEd25519(sig) (r)
  requires sig != nil && validpt(sig.R.r)
  returns r := newbytes(cat(edbytes(dl(sig.R.r)), scbytes(sig.S)))
func eddsa.NewPublicKeyFromPoint(public) (r)
  requires public != nil
  fresh r
  sets r.pk.r := public.r
func eddsa.PublicKey.Equal(pk, pkOther) (ok)
  requires pk != nil && pkOther != nil && validpt(pk.pk.r) && validpt(pkOther.pk.r)
  returns ok := dl(pk.pk.r) == dl(pkOther.pk.r)
func eddsa.Signature.Equal(sig, other) (ok)
  requires sig != nil && validpt(sig.R.r)
  requires typeis(other, "*eddsa.Signature") ==> unbox(other, "*eddsa.Signature") != nil && validpt(unbox(other, "*eddsa.Signature").R.r)
  returns ok := typeis(other, "*eddsa.Signature") && dl(unbox(other, "*eddsa.Signature").R.r) == dl(sig.R.r) && unbox(other, "*eddsa.Signature").S == sig.S
