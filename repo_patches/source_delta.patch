From 6e78cf9e1e81c48724b4db8e603ed4873fd1a3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 01/15] fix: zk: hash the Schnorr challenge instead of always
 using 0

hash.Hash.Sum appends to its argument, so Sum(make([]byte, 64)) returned 128
bytes, SetUniformBytes rejected them and the challenge stayed 0: the all-zero
proof was accepted for every public key.
---
 pkg/internal/zk/schnorr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/internal/zk/schnorr.go b/pkg/internal/zk/schnorr.go
index 24470d0..2ecdbff 100644
--- a/pkg/internal/zk/schnorr.go
+++ b/pkg/internal/zk/schnorr.go
@@ -83,7 +83,7 @@ func challenge(partyID party.ID, context []byte, public, M *ristretto.Element) *
 	_, _ = h.Write(public.Bytes())
 	_, _ = h.Write(M.Bytes())
 
-	buffer := make([]byte, 64)
+	buffer := make([]byte, 0, 64)
 	// SetUniformBytes only returns an error when the length is wrong so we're okay here
 	_, _ = S.SetUniformBytes(h.Sum(buffer))
 	return &S
-- 
2.43.0


From 3c67a7e7281f2d14ba6251a05607a7553b41896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 02/15] fix: messages: report payload decoding errors in
 Message.UnmarshalBinary

A message whose payload failed to decode was reported as valid, with a nil
payload that the rounds then dereferenced.
---
 pkg/messages/messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/messages/messages.go b/pkg/messages/messages.go
index d5b6967..3012b4c 100644
--- a/pkg/messages/messages.go
+++ b/pkg/messages/messages.go
@@ -119,7 +119,7 @@ func (m *Message) UnmarshalBinary(data []byte) error {
 		return errors.New("messages.UnmarshalBinary: invalid message type")
 	}
 
-	return nil
+	return err
 }
 
 func (m *Message) Equal(other interface{}) bool {
-- 
2.43.0


From 68b877d0636ac057d495d82766397cf28aa5275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 03/15] fix: polynomial: do not overflow the coefficient count
 when decoding

degree+1 wrapped to 0 for degree 65535, so a 2 byte encoding decoded to a
polynomial without coefficients and Constant() panicked.
---
 pkg/internal/polynomial/exponent.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/internal/polynomial/exponent.go b/pkg/internal/polynomial/exponent.go
index 1689224..3948640 100644
--- a/pkg/internal/polynomial/exponent.go
+++ b/pkg/internal/polynomial/exponent.go
@@ -187,14 +187,14 @@ func (p *Exponent) UnmarshalBinary(data []byte) error {
 	if err != nil {
 		return err
 	}
-	coefficientCount := degree + 1
+	coefficientCount := int(degree) + 1
 	remaining := data[party.IDByteSize:]
 
 	count := len(remaining)
 	if count%32 != 0 {
 		return errors.New("length of data is wrong")
 	}
-	if count != int(coefficientCount)*32 {
+	if count != coefficientCount*32 {
 		return errors.New("wrong number of coefficients embedded")
 	}
 
-- 
2.43.0


From 7ac7ab3c124f3837c7d666271b13b6e6570ca4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 04/15] fix: keygen: do not crash when aborting before the
 first round has run

Reset dereferenced the nil polynomials, so a timeout before the first
ProcessAll crashed the process.
---
 pkg/frost/keygen/base.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/frost/keygen/base.go b/pkg/frost/keygen/base.go
index 5564bc1..64fd1fe 100644
--- a/pkg/frost/keygen/base.go
+++ b/pkg/frost/keygen/base.go
@@ -69,8 +69,13 @@ func NewRound(selfID party.ID, partyIDs party.IDSlice, threshold party.Size) (st
 
 func (round *round0) Reset() {
 	round.Secret.Set(ristretto.NewScalar())
-	round.Polynomial.Reset()
-	round.CommitmentsSum.Reset()
+	// The protocol may abort before the first round has generated these
+	if round.Polynomial != nil {
+		round.Polynomial.Reset()
+	}
+	if round.CommitmentsSum != nil {
+		round.CommitmentsSum.Reset()
+	}
 	for _, p := range round.Commitments {
 		p.Reset()
 	}
-- 
2.43.0


From 52fc11db2a9df591dadaa265de8f954c2e8e1741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 05/15] fix: keygen: abort when a dealer commits to a
 polynomial of the wrong degree

The error from CommitmentsSum.Add was ignored, so the dealer's commitments were
left out of the group key while its share was still added to the secret.
---
 pkg/frost/keygen/round1.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/frost/keygen/round1.go b/pkg/frost/keygen/round1.go
index 512f21d..5d455df 100644
--- a/pkg/frost/keygen/round1.go
+++ b/pkg/frost/keygen/round1.go
@@ -17,10 +17,12 @@ func (round *round1) ProcessMessage(msg *messages.Message) *state.Error {
 		return state.NewError(from, errors.New("ZK Schnorr failed"))
 	}
 
-	round.Commitments[from] = msg.KeyGen1.Commitments
-
 	// Add the commitments to our own, so that we can interpolate the final polynomial
-	_ = round.CommitmentsSum.Add(msg.KeyGen1.Commitments)
+	if err := round.CommitmentsSum.Add(msg.KeyGen1.Commitments); err != nil {
+		return state.NewError(from, err)
+	}
+
+	round.Commitments[from] = msg.KeyGen1.Commitments
 	return nil
 }
 
-- 
2.43.0


From 2c14d327c494bcbd8797e39d82c8397656f6a361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 06/15] fix: keygen: do not alias the outgoing commitments with
 the running sum

The KeyGen1 message shared CommitmentsSum with the round, which adds the other
parties' commitments to it: a message encoded later carried the wrong values.
---
 pkg/frost/keygen/round0.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/frost/keygen/round0.go b/pkg/frost/keygen/round0.go
index 6dc4f13..f96aac7 100644
--- a/pkg/frost/keygen/round0.go
+++ b/pkg/frost/keygen/round0.go
@@ -35,7 +35,7 @@ func (round *round0) GenerateMessages() ([]*messages.Message, *state.Error) {
 	// Bonus, we overwrite the original secret which is no longer needed.
 	round.Secret.Set(round.Polynomial.Evaluate(round.SelfID().Scalar()))
 
-	msg := messages.NewKeyGen1(round.SelfID(), proof, round.CommitmentsSum)
+	msg := messages.NewKeyGen1(round.SelfID(), proof, round.CommitmentsSum.Copy())
 	return []*messages.Message{msg}, nil
 }
 
-- 
2.43.0


From cca22e7e36886fdddd946e65e1bf1d3adbfb06c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 07/15] fix: state: accept early messages for a later round

Once the current message of a sender was stored (and always before the first
ProcessAll) its message for the next round was refused as a duplicate instead of
being queued, so the protocol stalled whenever a party was ahead of another.
Duplicates are now recognised per sender and message type, also in the queue.
---
 pkg/state/state.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index 924fbc8..27f7f2b 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -105,16 +105,15 @@ func (s *State) HandleMessage(msg *messages.Message) error {
 		return s.wrapError(errors.New("sender is not a party"), senderID)
 	}
 
-	// Check if we have already received a message from this party.
-	// exists should never be false, but you never know
-	if _, exists := s.receivedMessages[senderID]; exists {
-		return s.wrapError(errors.New("message from this party was already received"), senderID)
-	}
-
 	if !s.isAcceptedType(msg.Type) {
 		return s.wrapError(errors.New("message type is not accepted for this type of round"), senderID)
 	}
 
+	// Check if we have already received a message of this type from this party.
+	if s.alreadyReceived(msg) {
+		return s.wrapError(errors.New("message from this party was already received"), senderID)
+	}
+
 	s.ackMessage()
 
 	if msg.Type == s.acceptedTypes[0] {
@@ -199,6 +198,21 @@ func (s *State) isAcceptedType(msgType messages.MessageType) bool {
 	return false
 }
 
+// alreadyReceived returns true if a message of the same type and from the same sender
+// is waiting to be processed, either in the current round or in the queue for a later one.
+func (s *State) alreadyReceived(msg *messages.Message) bool {
+	if msg.Type == s.acceptedTypes[0] {
+		_, exists := s.receivedMessages[msg.From]
+		return exists
+	}
+	for _, otherMsg := range s.queue {
+		if otherMsg.From == msg.From && otherMsg.Type == msg.Type {
+			return true
+		}
+	}
+	return false
+}
+
 //
 // Output
 //
-- 
2.43.0


From 9e0f0069e4afc4fcb4443a8fff9877c285e3241d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 08/15] fix: state: report round and culprit in the right order

The format arguments were swapped, so errors named the round number as the
culprit.
---
 pkg/state/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index 27f7f2b..76b10de 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -61,7 +61,7 @@ func (s *State) wrapError(err error, culprit party.ID) error {
 	if culprit == 0 {
 		return fmt.Errorf("party %d, round %d: %w", s.round.SelfID(), s.roundNumber, err)
 	}
-	return fmt.Errorf("party %d, round %d, culprit %d: %w", s.round.SelfID(), culprit, s.roundNumber, err)
+	return fmt.Errorf("party %d, round %d, culprit %d: %w", s.round.SelfID(), s.roundNumber, culprit, err)
 }
 
 // HandleMessage should be called on an unmarshalled messages.Message appropriate for the protocol execution.
-- 
2.43.0


From 09d6eeb5c0c96dea3e2743092416c204399bb3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 09/15] fix: eddsa: reject invalid public data instead of
 truncating it or crashing

Threshold+1 wrapped to 0 for 65535 and the JSON threshold was truncated to 16
bits; a missing group key, an empty share or the ID 0 crashed the decoder.
---
 pkg/eddsa/public.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/eddsa/public.go b/pkg/eddsa/public.go
index 3bebb78..f82ce51 100644
--- a/pkg/eddsa/public.go
+++ b/pkg/eddsa/public.go
@@ -3,6 +3,7 @@ package eddsa
 import (
 	"encoding/json"
 	"errors"
+	"math"
 
 	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
 	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
@@ -29,7 +30,10 @@ type Public struct {
 func NewPublic(shares map[party.ID]*ristretto.Element, threshold party.Size) (*Public, error) {
 	n := len(shares)
 	IDs := make([]party.ID, 0, n)
-	for id := range shares {
+	for id, share := range shares {
+		if id == 0 || share == nil {
+			return nil, errors.New("PublicShares: shares contain an invalid ID or an empty share")
+		}
 		IDs = append(IDs, id)
 	}
 
@@ -42,7 +46,7 @@ func NewPublic(shares map[party.ID]*ristretto.Element, threshold party.Size) (*P
 		GroupKey:  computeGroupKey(set, shares),
 	}
 
-	if s.Threshold+1 > s.PartyIDs.N() {
+	if s.Threshold >= s.PartyIDs.N() {
 		return nil, errors.New("PublicShares: Threshold should be < N - 1")
 	}
 
@@ -85,6 +89,13 @@ func (s *Public) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
+	if out.Threshold < 0 || out.Threshold > math.MaxUint16 {
+		return errors.New("PublicShares: threshold is out of range")
+	}
+	if out.GroupKey == nil {
+		return errors.New("PublicShares: missing group key")
+	}
+
 	newS, err := NewPublic(out.Shares, party.Size(out.Threshold))
 	if err != nil {
 		return err
-- 
2.43.0


From 9e8aac632afb98379a1a373a6db130c2ac5c3cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 10/15] fix: eddsa: reject secret shares with an ID that does
 not fit in 16 bits

UnmarshalJSON silently truncated it to another party's ID.
---
 pkg/eddsa/secret_share.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/eddsa/secret_share.go b/pkg/eddsa/secret_share.go
index 1f7217f..73fa54a 100644
--- a/pkg/eddsa/secret_share.go
+++ b/pkg/eddsa/secret_share.go
@@ -3,6 +3,7 @@ package eddsa
 import (
 	"encoding/json"
 	"errors"
+	"math"
 
 	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
 	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
@@ -75,6 +76,9 @@ func (sk *SecretShare) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &out); err != nil {
 		return err
 	}
+	if out.ID < 0 || out.ID > math.MaxUint16 {
+		return errors.New("SecretShare: ID is out of range")
+	}
 	sk.ID = party.ID(out.ID)
 	if _, err := sk.Secret.SetCanonicalBytes(out.SecretShare); err != nil {
 		return err
-- 
2.43.0


From 04f54cbc08e0eea5d0fe14fec281edf33a9132bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:06 +0000
Subject: [PATCH 11/15] fix: helpers: terminate NewPartySlice for the largest
 party size

The 16 bit counter wrapped around, so the loop never ended for n = 65535.
---
 pkg/helpers/parties.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/helpers/parties.go b/pkg/helpers/parties.go
index 9685737..c9e9e09 100644
--- a/pkg/helpers/parties.go
+++ b/pkg/helpers/parties.go
@@ -11,8 +11,8 @@ import (
 // NewPartySlice returns n party.ID s in the range [1, ..., n].
 func NewPartySlice(n party.Size) party.IDSlice {
 	partyIDs := make([]party.ID, 0, n)
-	for i := party.ID(1); i <= n; i++ {
-		partyIDs = append(partyIDs, i)
+	for i := 1; i <= int(n); i++ {
+		partyIDs = append(partyIDs, party.ID(i))
 	}
 	return partyIDs
 }
-- 
2.43.0


From a9da5eedda12bf243314fbbbb080c60263bd6ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 12/15] fix: state: reject party lists that are not strictly
 increasing or contain 0

With the ID 0 keygen crashed when evaluating its polynomial, and with duplicate
or unsorted IDs the rounds never completed or used wrong party sets.
---
 pkg/state/base_round.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/state/base_round.go b/pkg/state/base_round.go
index bcdd754..56e9d7f 100644
--- a/pkg/state/base_round.go
+++ b/pkg/state/base_round.go
@@ -13,6 +13,14 @@ type BaseRound struct {
 }
 
 func NewBaseRound(selfID party.ID, partyIDs party.IDSlice) (*BaseRound, error) {
+	for i, id := range partyIDs {
+		if id == 0 {
+			return nil, errors.New("PartyIDs should not contain 0")
+		}
+		if i > 0 && partyIDs[i-1] >= id {
+			return nil, errors.New("PartyIDs should be sorted and not contain duplicates")
+		}
+	}
 	if !partyIDs.Contains(selfID) {
 		return nil, errors.New("PartyIDs should contain selfID")
 	}
-- 
2.43.0


From 616d0bb0cb245b6d97ea9ee3b963535e965931c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 13/15] fix: sign: refuse to start with fewer than threshold+1
 signers

Such a session can only abort with an invalid signature after having used the
secret share.
---
 pkg/frost/sign/base.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/frost/sign/base.go b/pkg/frost/sign/base.go
index 97f6e52..1564054 100644
--- a/pkg/frost/sign/base.go
+++ b/pkg/frost/sign/base.go
@@ -51,6 +51,10 @@ func NewRound(partyIDs party.IDSlice, secret *eddsa.SecretShare, shares *eddsa.P
 		return nil, nil, errors.New("base.NewRound: not all parties of partyIDs are contained in shares")
 	}
 
+	if partyIDs.N() <= shares.Threshold {
+		return nil, nil, errors.New("base.NewRound: at least threshold+1 parties are required to sign")
+	}
+
 	baseRound, err := state.NewBaseRound(secret.ID, partyIDs)
 	if err != nil {
 		return nil, nil, fmt.Errorf("base.NewRound: %w", err)
-- 
2.43.0


From 86856b2f926d60ef988dd1f94d9874862bf86e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:20 +0000
Subject: [PATCH 14/15] fix: ristretto: MultiScalarMult must not depend on the
 receiver's old value

---
 pkg/ristretto/ristretto.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/ristretto/ristretto.go b/pkg/ristretto/ristretto.go
index b4c0aee..8a28877 100644
--- a/pkg/ristretto/ristretto.go
+++ b/pkg/ristretto/ristretto.go
@@ -373,7 +373,9 @@ func (e *Element) MultiScalarMult(s []*Scalar, p []*Element) *Element {
 	for i := range s {
 		points[i] = &p[i].r
 	}
-	e.r.MultiScalarMult(s, points)
+	// edwards25519 accumulates into its receiver without resetting it first, and
+	// e may be one of the inputs, so start from a fresh identity point.
+	e.r.Set(edwards25519.NewIdentityPoint().MultiScalarMult(s, points))
 	return e
 }
 
-- 
2.43.0


From 2e5767e376a8482bd3f48c86e009a31febb0ca3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:15 +0000
Subject: [PATCH 15/15] fix: read a session's outcome and start its timer under
 the session's lock

---
 pkg/state/state.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index 76b10de..8457bb1 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -42,6 +42,10 @@ func NewBaseState(round Round, timeout time.Duration) (*State, error) {
 		doneChan:         make(chan struct{}),
 	}
 
+	// The timer can expire at any time once it is started.
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
 	s.timer = newTimer(timeout, func() {
 		s.mtx.Lock()
 		s.reportError(NewError(0, errors.New("message timeout")))
@@ -251,6 +255,9 @@ func (s *State) Done() <-chan struct{} {
 }
 
 func (s *State) Err() error {
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
 	if s.err != nil {
 		return s.err
 	}
@@ -261,14 +268,15 @@ func (s *State) Err() error {
 // This happens either when the protocol has finished correctly,
 // or if an error has been detected.
 func (s *State) WaitForError() error {
-	if !s.done {
-		<-s.doneChan
-	}
+	<-s.doneChan
 	return s.Err()
 }
 
 // IsFinished returns true if the protocol has aborted or successfully finished.
 func (s *State) IsFinished() bool {
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
 	return s.done
 }
 
-- 
2.43.0

