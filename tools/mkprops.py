#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json,os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

prop("C01","A signing session only ever releases a valid signature",
"Whenever a signing session produces a signature, that signature verifies for the session's message under the session's group key, with the library's own verification. If the aggregated signature would not verify, the session aborts with an error that blames no party and releases no signature.",
["inputs","histories"],"every message, group key, signer set, and every content of the messages received from other (possibly malicious) signers",
"The tests run a few honest sessions; they never show that no combination of received shares leads to an invalid signature being released.",
["pkg/frost/sign/round2.go","pkg/eddsa/public_key.go","pkg/eddsa/signature.go"],
[("final verification of the aggregate","sign.round2.GenerateMessages"),("verification equation","eddsa.PublicKey.Verify")],
observe=["sign.Output.Signature","State.WaitForError"])

prop("C02","Honest signers always obtain the signature",
"If every signer of a set of at least threshold+1 signers follows the protocol with key material from one consistent sharing, no session aborts and every session outputs a signature. Each signer computes its signature share and the group commitment exactly as FROST prescribes, z = d + e*rho + lambda*s*c and R = sum(D_j + rho_j*E_j), so that the shares add up to a signature valid under the group key.",
["inputs","configurations"],"all thresholds, all signer sets of size at least threshold+1, all messages, all nonces and secrets",
"Tests run a handful of (t, n) pairs with random values; the algebraic identity must hold for every set, coefficient and nonce.",
["pkg/frost/sign/base.go","pkg/frost/sign/round0.go","pkg/frost/sign/round1.go","pkg/frost/sign/round2.go","pkg/frost/party/id.go"],
[("share normalisation by Lagrange coefficients","sign.NewRound"),("commitment aggregation and response","sign.round1.GenerateMessages"),("share check and aggregation","sign.round2")])

prop("C03","Distributed key generation yields one consistent Shamir sharing",
"When key generation finishes without error, the party's secret share matches its own entry in the public shares, every public share is the sum of all dealers' committed polynomials evaluated at that party's ID, and the group key is the sum of the committed constant terms. The output carries exactly the party list and threshold of the session and the party's own ID, and the secret share is the sum of the party's own share and the shares received from every other dealer.",
["inputs","histories"],"all party sets, thresholds, polynomials, and all contents of the dealers' messages that pass validation, in any processing order",
"Tests check a few honest runs by interpolating at random sizes; adversarial but accepted dealer messages and all sizes are out of their reach.",
["pkg/frost/keygen/base.go","pkg/frost/keygen/round0.go","pkg/frost/keygen/round1.go","pkg/frost/keygen/round2.go","pkg/internal/polynomial/exponent.go"],
[("sum of commitments","keygen.round1.ProcessMessage"),("sum of shares","keygen.round2.ProcessMessage"),("output","keygen.round2.GenerateMessages")],
observe=["keygen.Output"])

prop("C04","A cheating dealer in key generation is detected and blamed",
"Key generation aborts, naming the dealer as culprit, if a dealer's proof of knowledge does not verify for its own ID, if its committed polynomial does not have the session's degree, or if the share it sent does not match its own commitments evaluated at the receiver's ID. A dealer whose proof, degree and share are right is never blamed.",
["inputs","fault_sequences"],"every received commitment vector, proof and share, for every sender and receiver ID",
"Tests exercise no cheating dealer at all.",
["pkg/frost/keygen/round1.go","pkg/frost/keygen/round2.go","pkg/internal/zk/schnorr.go","pkg/internal/polynomial/exponent.go"],
[("proof check","keygen.round1.ProcessMessage"),("degree check","polynomial.Exponent.Add"),("share check","keygen.round2.ProcessMessage")],
observe=["State.WaitForError"])

prop("C05","Knowledge proofs bind ID, context, key and commitment and cannot be replayed",
"A proof of knowledge is accepted exactly when its challenge equals SHA-512 of (prover ID, 32 byte context, public key, commitment) reduced modulo the group order, the commitment being recomputed from challenge, response and public key. Proofs made by the library for a matching secret always verify for the same ID, context and public key, and the one sent in key generation is made for the sender's ID and constant commitment.",
["inputs"],"all IDs, contexts, public keys, secrets and proof values",
"The tests check one honest proof; they passed even while the challenge was a constant and any proof could be forged.",
["pkg/internal/zk/schnorr.go","pkg/frost/keygen/round0.go","pkg/frost/keygen/round1.go"],
[("challenge hash","zk.challenge"),("prover","zk.NewSchnorrProof"),("verifier","zk.Schnorr.Verify")])

prop("C06","A bad signing contribution is detected and blamed, an honest one never",
"A signing session aborts naming the sender as culprit if a nonce commitment received from it is the identity, or if its signature share z fails z*B = R_i + c*lambda_i*Y_i for that signer's own nonce commitment, binding factor and public share. A share or commitment that passes these conditions is stored for that sender and never leads to blaming it.",
["inputs","fault_sequences"],"every received nonce commitment and signature share, for every sender",
"No test sends an invalid contribution; both directions quantify over all group elements and scalars.",
["pkg/frost/sign/round1.go","pkg/frost/sign/round2.go","pkg/frost/sign/base.go"],
[("identity check","sign.round1.ProcessMessage"),("share verification","sign.round2.ProcessMessage")],
observe=["State.WaitForError"])

prop("C07","Binding factors hash the exact session transcript",
"Each signer's binding factor is SHA-512 of \"FROST-SHA512\", the signer's two byte ID, SHA-512 of the message, and the list (ID, D, E) of all signers in increasing ID order, reduced modulo the group order. All signers therefore compute the same binding factors from the same commitments, whatever order the messages arrived in, and changing the message, the signer set or any commitment changes the hash input.",
["inputs","schedules"],"all messages, signer sets, commitments and message arrival orders",
"End to end tests only see that honest parties agree; a hash input that omits or reorders something still passes them.",
["pkg/frost/sign/round1.go"],
[("binding factor computation","sign.round1.computeRhos")])

prop("C08","Challenge and verification follow RFC 8032 exactly",
"The signature challenge is SHA-512(R || A || M) reduced modulo the group order, with R and A in their canonical Ed25519 encoding, and verification accepts exactly when S*B = R + c*A. The exported signature is the 64 bytes R || S and the exported key the 32 bytes A of standard Ed25519, so what the library accepts also verifies with any Ed25519 implementation.",
["inputs"],"all keys, messages and signatures",
"Tests verify a few signatures with crypto/ed25519; rejection of everything else and the exact hash input are not settled by samples.",
["pkg/eddsa/signature.go","pkg/eddsa/public_key.go","pkg/ristretto/ristretto.go"],
[("challenge","eddsa.ComputeChallenge"),("verification","eddsa.PublicKey.Verify"),("export","eddsa.Signature.ToEd25519, eddsa.PublicKey.ToEd25519, ristretto.Element.BytesEd25519")])

prop("C09","Encoding followed by decoding gives back every message",
"Every well formed protocol message, proof, committed polynomial and signature is encoded without error in its fixed layout, and decoding those bytes succeeds and yields an equal value. The reported size is the exact encoded length, and appending to an existing buffer leaves the buffer's previous content in front of the same encoding.",
["inputs"],"all field values, all polynomial degrees and all existing buffers",
"Tests round-trip one random instance per type.",
["pkg/messages/messages.go","pkg/messages/header.go","pkg/messages/keygen1.go","pkg/messages/keygen2.go","pkg/messages/sign1.go","pkg/messages/sign2.go","pkg/internal/zk/schnorr.go","pkg/internal/polynomial/exponent.go","pkg/eddsa/signature.go"],
[("encoders","BytesAppend, MarshalBinary, Size of each type"),("decoders","UnmarshalBinary of each type")])

prop("C10","Decoders accept only canonical encodings and never half a message",
"A decoder of a message, payload, proof, committed polynomial or signature that reports success has consumed all its input, and the input is exactly the encoding of the decoded value: known type, non-zero sender, recipient present exactly for point-to-point messages, canonical scalars and elements, as many coefficients as announced. After a successful decoding the payload for the message's type is present.",
["inputs"],"every byte string of every length",
"Tests decode only bytes that the library produced; malformed inputs are an infinite space.",
["pkg/messages/messages.go","pkg/messages/header.go","pkg/messages/keygen1.go","pkg/messages/keygen2.go","pkg/messages/sign1.go","pkg/messages/sign2.go","pkg/internal/zk/schnorr.go","pkg/internal/polynomial/exponent.go","pkg/eddsa/signature.go"],
[("decoders","UnmarshalBinary of each type"),("canonical scalars and elements","ristretto.Element.SetCanonicalBytes")])

prop("C11","Untrusted input can not crash a party",
"Decoding any bytes, and feeding any decoded messages in any order to a key generation or signing session (including a timeout at any moment), never panics while the system's random source works. Malformed or unexpected input is reported as an error or ignored.",
["inputs","histories","fault_sequences"],"every byte string, every sequence of decoded messages, a timeout at any point",
"Tests feed no malformed input and no timeouts before the first step; the space of inputs and histories is infinite.",
["pkg/messages/messages.go","pkg/state/state.go","pkg/frost/keygen/base.go","pkg/frost/keygen/round1.go","pkg/frost/keygen/round2.go","pkg/frost/sign/base.go","pkg/frost/sign/round1.go","pkg/frost/sign/round2.go","pkg/internal/polynomial/exponent.go"],
[("payload presence","messages.Message.UnmarshalBinary"),("message admission","state.State.HandleMessage"),("abort path","state.State.reportError, keygen.round0.Reset")])

prop("C12","Only the right messages are admitted to a session",
"A session stores a message exactly when it is not finished, the message comes from another participant, is broadcast or addressed to this party, has the type of the current or a later round, and no message of that type from that sender is waiting already; messages from itself or addressed to others are silently ignored and all others are refused with an error, without changing what was stored before. A message that arrives early is kept and used in its round.",
["inputs","histories"],"every message in every reachable session state",
"Tests deliver each expected message once and in order.",
["pkg/state/state.go"],
[("admission","state.State.HandleMessage"),("queue for later rounds","state.State.ProcessAll")],
state=[("receivedMessages","messages of the current round, by sender","state.State"),("queue","early messages of later rounds","state.State")])

prop("C13","Rounds advance only when complete and a session ends exactly once",
"A session processes a round only when it holds one message from every other participant, hands each of them to the round exactly once, and then moves exactly one round forward; a processing error ends the session at once with that error and no further messages. Once finished, by success, error or timeout, it stays finished: the first error and the outcome never change, the done channel is closed exactly once, and no output appears after an error.",
["histories","schedules"],"every sequence of message deliveries, processing calls and timeouts",
"Tests run complete honest sessions only; failures, early calls and calls after the end are not covered.",
["pkg/state/state.go"],
[("round progression","state.State.ProcessAll"),("end of the session","state.State.finish, state.State.reportError")],
state=[("done","session has ended","state.State"),("err","first error","state.State")])

prop("C14","Lagrange coefficients are exact",
"The coefficient of an ID with respect to a party list is the product over the other IDs j of j/(j-id) modulo the group order. An error is returned exactly when the ID is 0 or not in the list (or the product does not exist), never a wrong coefficient.",
["inputs"],"all IDs and all party lists of any length",
"Tests compare a few random lists with one identity.",
["pkg/frost/party/id.go"],[("Lagrange coefficient","party.ID.Lagrange")])

prop("C15","Secret session data is wiped when a session ends",
"When a session ends, by success or by abort at any point, the secret values it held are overwritten with zero: in key generation the secret, the secret polynomial and the shares already processed, in signing the nonces, the secret key share and the signature shares it stored. The output already handed to the caller is not affected.",
["histories","fault_sequences"],"every end of a session, in every round, including a timeout before the first round",
"No test looks at session memory after the end.",
["pkg/frost/keygen/base.go","pkg/frost/keygen/round1.go","pkg/frost/keygen/round2.go","pkg/frost/sign/base.go","pkg/frost/sign/party.go","pkg/internal/polynomial/polynomial.go","pkg/state/state.go"],
[("wiping","Reset of both round0 types, Polynomial.Reset, signer.Reset"),("call on every end","state.State.finish")])

prop("C16","Key material survives serialisation and invalid key material is refused",
"Secret shares and public key data round-trip through their binary and JSON forms, with the public key of a secret share always recomputed from the secret. Decoding refuses IDs and thresholds that do not fit, thresholds not below the number of shares, missing values, non-canonical scalars or elements, and group keys that do not match the shares; public data always lists exactly the IDs of its shares in increasing order, with the group key interpolated from them.",
["inputs"],"all key material and all byte strings and JSON documents",
"Tests round-trip one random instance; rejections are not tested.",
["pkg/eddsa/secret_share.go","pkg/eddsa/public.go","pkg/eddsa/public_key.go"],
[("secret share codec","eddsa.SecretShare"),("public data","eddsa.NewPublic, eddsa.Public.UnmarshalJSON"),("group key","eddsa.computeGroupKey")])

prop("C17","Group elements implement ristretto255 exactly",
"Encoding, decoding, equality and the mapping from uniform bytes follow the ristretto255 specification, decoding accepts exactly the canonical encodings and leaves the receiver unchanged on failure, and the arithmetic operations are those of the group, also when arguments alias the receiver. The Ed25519 export encodes the torsion-free representative, so equal elements export equal bytes.",
["inputs"],"all group elements, scalars and byte strings, all aliasing patterns",
"Tests use the published vectors and a few random values.",
["pkg/ristretto/ristretto.go"],
[("DECODE","ristretto.Element.SetCanonicalBytes"),("ENCODE","ristretto.Element.bytes"),("EQUALS","ristretto.Element.Equal"),("MAP","ristretto.mapToPoint"),("torsion clearing","ristretto.Element.BytesEd25519")])

prop("C18","Sessions start exactly for valid configurations",
"A key generation session is created exactly when the party list is strictly increasing without 0, contains the party itself, and 1 <= threshold <= n-1; a signing session exactly when the signer list is strictly increasing without 0, contains the owner of the secret share, is a subset of the parties of the public data, and has more than threshold members. In every other case an error and no session is returned.",
["configurations","inputs"],"all party lists, IDs and thresholds",
"Tests create a few valid sessions only.",
["pkg/frost/frost.go","pkg/frost/keygen/base.go","pkg/frost/sign/base.go","pkg/state/base_round.go","pkg/frost/party/idslice.go"],
[("validation","keygen.NewRound, sign.NewRound, state.NewBaseRound")])

prop("C19","Polynomials deal and evaluate shares exactly",
"A secret polynomial has exactly degree+1 coefficients, the given constant first and the others fresh random; its evaluation, and the evaluation of its commitment in the group by every method, is the sum of coefficient_i * x^i, refusing x = 0. Committing, copying, adding and summing committed polynomials act coefficient by coefficient (adding refuses different degrees), and the dealing helpers give each party the polynomial's value at its ID together with the matching public data.",
["inputs"],"all degrees, coefficients and evaluation points",
"Tests compare random instances of a few degrees.",
["pkg/internal/polynomial/polynomial.go","pkg/internal/polynomial/exponent.go","pkg/helpers/keys.go"],
[("evaluation","Polynomial.Evaluate, Exponent.Evaluate"),("arithmetic","Exponent.Add, Sum, Copy"),("dealing","helpers.GenerateSecrets, helpers.GeneratePublic")])

prop("C20","Party lists behave as sorted sets",
"For sorted lists, membership and subset tests are exact, equality compares element by element, copies are equal and independent, and building a list sorts exactly the given IDs without touching the input. Generated party lists are 1..n for every n.",
["inputs"],"all lists and IDs",
"Tests use a few lists.",
["pkg/frost/party/idslice.go","pkg/helpers/parties.go"],
[("membership","party.IDSlice.Contains"),("construction","party.NewIDSlice, helpers.NewPartySlice")])

prop("C21","IDs and scalars convert without loss",
"The byte form of an ID is its two byte big endian value and decoding it gives the ID back (refusing short input), the text form is the decimal number and decoding accepts only decimal numbers that fit, and conversion of an ID or 32 bit integer to a scalar preserves its value. Randomly drawn IDs are never 0.",
["inputs"],"all IDs, byte strings and texts",
"Tests sample a few IDs.",
["pkg/frost/party/id.go","pkg/internal/scalar/scalar.go"],
[("ID codec","party.ID.Bytes, party.FromBytes, MarshalText, UnmarshalText"),("scalar conversion","party.ID.Scalar, scalar.SetScalarUInt32")])

prop("C22","Messages and outputs handed out are independent of session state",
"What a session sends is determined when it is handed out: broadcast messages carry the party's own ID and commitments made from its own secrets, and each private share goes to exactly one other party, with that party's ID and the polynomial's value at it. Later steps of the session never change a message or an output it has already handed out.",
["histories","inputs"],"all sessions and all moments at which a handed out message is encoded",
"Tests encode messages immediately after they are returned, before the session continues.",
["pkg/frost/keygen/round0.go","pkg/frost/keygen/round1.go","pkg/frost/keygen/round2.go","pkg/frost/sign/round0.go","pkg/frost/sign/round1.go","pkg/frost/sign/round2.go","pkg/messages/keygen1.go"],
[("copies in messages","messages.NewKeyGen1 .. NewSign2"),("copies in outputs","keygen.round2.GenerateMessages, sign.round2.GenerateMessages")])

prop("C23","Every secret random value is freshly drawn from its own randomness",
"Each secret polynomial coefficient, proof nonce and signing nonce is obtained by reducing 64 bytes read from the system's cryptographic random source, and no two of them are computed from the same bytes. The two signing nonce commitments sent out are the two nonces times the base point, and the same nonces are used in the response.",
["inputs","histories"],"all sessions, degrees and random source outputs",
"Reuse of randomness does not make any honest run fail, so no test can see it.",
["pkg/internal/scalar/scalar.go","pkg/internal/polynomial/polynomial.go","pkg/internal/zk/schnorr.go","pkg/frost/keygen/round0.go","pkg/frost/sign/round0.go"],
[("sampling","scalar.SetScalarRandom, polynomial.NewPolynomial"),("nonces","sign.round0.GenerateMessages, zk.NewSchnorrProof")])

prop("C24","Fewer than threshold+1 colluding parties cannot sign",
"An adversary controlling at most threshold parties, in any number of concurrent sessions, cannot produce a signature on a message that no session with an honest party signed.",
["histories","fault_sequences"],"all efficient adversaries",
"A computational security claim; no finite set of runs can settle it.",
["pkg/frost/sign","pkg/frost/keygen"],[("FROST protocol","pkg/frost")])

prop("C25","A session can be used from several goroutines and its timer",
"Calls to one session from several goroutines, and the expiry of its timer, have the same effect as some sequential order of them, without data races or deadlocks.",
["schedules"],"all interleavings of goroutines using one session",
"Tests use one goroutine per session.",
["pkg/state/state.go"],[("mutex","state.State.mtx")])

prop("C26","A stalled session times out, a progressing one does not",
"A session created with a positive timeout ends with an error when for that long no message is accepted, and not earlier: its timer runs with the full timeout from creation until the session ends, every accepted message (of the current or a later round) restarts it, and nothing else does, so that refused or ignored messages cannot keep a session alive. A session without a positive timeout never times out.",
["histories","schedules"],"every sequence of accepted, refused and ignored messages, and every timeout",
"Tests use one session that gets no message at all, or no timeout.",
["pkg/state/state.go","pkg/frost/frost.go"],
[("timer","state.timer, state.newTimer"),("restart","state.State.HandleMessage, state.timer.ackMessage"),("expiry","state.NewBaseState, function given to the timer")],
state=[("timer","running timer and its timeout","state.State")])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
