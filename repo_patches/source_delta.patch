From 5cf9a7f022f1080fc2289c60906bd0c1f39c7378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:55 +0000
Subject: [PATCH 01/22] fix: keygen broadcasts a copy of its commitments

The first-round message shared the commitment polynomial with the round,
which later adds every other party's commitments to it (and resets it), so a
message that had not yet been serialised changed under its owner.
---
 pkg/frost/keygen/round0.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/frost/keygen/round0.go b/pkg/frost/keygen/round0.go
index 6dc4f13..fdc96fa 100644
--- a/pkg/frost/keygen/round0.go
+++ b/pkg/frost/keygen/round0.go
@@ -35,7 +35,8 @@ func (round *round0) GenerateMessages() ([]*messages.Message, *state.Error) {
 	// Bonus, we overwrite the original secret which is no longer needed.
 	round.Secret.Set(round.Polynomial.Evaluate(round.SelfID().Scalar()))
 
-	msg := messages.NewKeyGen1(round.SelfID(), proof, round.CommitmentsSum)
+	// The message keeps its own copy, since CommitmentsSum is modified in the next round
+	msg := messages.NewKeyGen1(round.SelfID(), proof, round.CommitmentsSum.Copy())
 	return []*messages.Message{msg}, nil
 }
 
-- 
2.43.0


From 1aaad3092d0ceb1497d0f5a0faa85ce66f76a1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 02/22] fix: report payload decoding errors in
 Message.UnmarshalBinary

A message with a valid header and a malformed payload was reported as decoded
but carried no payload, so that processing it later dereferenced nil.
---
 pkg/messages/messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/messages/messages.go b/pkg/messages/messages.go
index d5b6967..3012b4c 100644
--- a/pkg/messages/messages.go
+++ b/pkg/messages/messages.go
@@ -119,7 +119,7 @@ func (m *Message) UnmarshalBinary(data []byte) error {
 		return errors.New("messages.UnmarshalBinary: invalid message type")
 	}
 
-	return nil
+	return err
 }
 
 func (m *Message) Equal(other interface{}) bool {
-- 
2.43.0


From b0901968e89b52da59821789b29e7f196ce221fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:37 +0000
Subject: [PATCH 03/22] fix: reject commitment polynomials without coefficients

The number of coefficients was computed modulo 2^16, so that degree 65535
followed by nothing decoded to a polynomial on which Constant panics.
---
 pkg/internal/polynomial/exponent.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/internal/polynomial/exponent.go b/pkg/internal/polynomial/exponent.go
index 1689224..26a2f6f 100644
--- a/pkg/internal/polynomial/exponent.go
+++ b/pkg/internal/polynomial/exponent.go
@@ -187,14 +187,15 @@ func (p *Exponent) UnmarshalBinary(data []byte) error {
 	if err != nil {
 		return err
 	}
-	coefficientCount := degree + 1
+	// computed as an int, since degree + 1 may overflow
+	coefficientCount := int(degree) + 1
 	remaining := data[party.IDByteSize:]
 
 	count := len(remaining)
 	if count%32 != 0 {
 		return errors.New("length of data is wrong")
 	}
-	if count != int(coefficientCount)*32 {
+	if count != coefficientCount*32 {
 		return errors.New("wrong number of coefficients embedded")
 	}
 
-- 
2.43.0


From 632247171131daeccc226d8e93eebb5ebe2400bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:34 +0000
Subject: [PATCH 04/22] fix: compute the challenge of the proof of knowledge
 from the hash

---
 pkg/internal/zk/schnorr.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/internal/zk/schnorr.go b/pkg/internal/zk/schnorr.go
index 24470d0..416bdd1 100644
--- a/pkg/internal/zk/schnorr.go
+++ b/pkg/internal/zk/schnorr.go
@@ -83,9 +83,8 @@ func challenge(partyID party.ID, context []byte, public, M *ristretto.Element) *
 	_, _ = h.Write(public.Bytes())
 	_, _ = h.Write(M.Bytes())
 
-	buffer := make([]byte, 64)
 	// SetUniformBytes only returns an error when the length is wrong so we're okay here
-	_, _ = S.SetUniformBytes(h.Sum(buffer))
+	_, _ = S.SetUniformBytes(h.Sum(nil))
 	return &S
 }
 
-- 
2.43.0


From 1374da3b175bc439e51dba722e7d3d01fe1eb694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:27 +0000
Subject: [PATCH 05/22] fix: reject key generation commitments of the wrong
 degree

---
 pkg/frost/keygen/round1.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/frost/keygen/round1.go b/pkg/frost/keygen/round1.go
index 512f21d..72b1631 100644
--- a/pkg/frost/keygen/round1.go
+++ b/pkg/frost/keygen/round1.go
@@ -20,7 +20,10 @@ func (round *round1) ProcessMessage(msg *messages.Message) *state.Error {
 	round.Commitments[from] = msg.KeyGen1.Commitments
 
 	// Add the commitments to our own, so that we can interpolate the final polynomial
-	_ = round.CommitmentsSum.Add(msg.KeyGen1.Commitments)
+	// This fails when the degree of the commitments is not the threshold
+	if err := round.CommitmentsSum.Add(msg.KeyGen1.Commitments); err != nil {
+		return state.NewError(from, err)
+	}
 	return nil
 }
 
-- 
2.43.0


From 36c18b371284245187295e17384778521b9eecc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:41 +0000
Subject: [PATCH 06/22] fix: accept early messages of later rounds, and refuse
 duplicates of queued ones

---
 pkg/state/state.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index 924fbc8..8039837 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -105,16 +105,15 @@ func (s *State) HandleMessage(msg *messages.Message) error {
 		return s.wrapError(errors.New("sender is not a party"), senderID)
 	}
 
-	// Check if we have already received a message from this party.
-	// exists should never be false, but you never know
-	if _, exists := s.receivedMessages[senderID]; exists {
-		return s.wrapError(errors.New("message from this party was already received"), senderID)
-	}
-
 	if !s.isAcceptedType(msg.Type) {
 		return s.wrapError(errors.New("message type is not accepted for this type of round"), senderID)
 	}
 
+	// Check if we have already received a message from this party for the same round.
+	if s.isReceived(senderID, msg.Type) {
+		return s.wrapError(errors.New("message from this party was already received"), senderID)
+	}
+
 	s.ackMessage()
 
 	if msg.Type == s.acceptedTypes[0] {
@@ -199,6 +198,21 @@ func (s *State) isAcceptedType(msgType messages.MessageType) bool {
 	return false
 }
 
+// isReceived returns true if we already store a message of the given type from sender,
+// either for the current round or for a later one.
+func (s *State) isReceived(sender party.ID, msgType messages.MessageType) bool {
+	if msgType == s.acceptedTypes[0] {
+		_, exists := s.receivedMessages[sender]
+		return exists
+	}
+	for _, msg := range s.queue {
+		if msg.From == sender && msg.Type == msgType {
+			return true
+		}
+	}
+	return false
+}
+
 //
 // Output
 //
-- 
2.43.0


From 9fd24e68f0fa9c7d90e22eab3e32f0f33fa8fbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:05 +0000
Subject: [PATCH 07/22] fix: process a round whose messages were all received
 early

---
 pkg/state/state.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index 8039837..acc862c 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -131,19 +131,26 @@ func (s *State) HandleMessage(msg *messages.Message) error {
 // These messages are returned to the caller and should be processed.
 // If all went correctly, we take the messages for the next round out of the queue,
 // and move on to the next round.
+// If the queue already contained all messages for the next round, then it is processed as well,
+// since no further message would cause the caller to do so.
 func (s *State) ProcessAll() []*messages.Message {
 	s.mtx.Lock()
 	defer s.mtx.Unlock()
 
-	if s.done {
-		return nil
-	}
+	var newMessages []*messages.Message
 
 	// Only continue if we received messages from all
-	if len(s.receivedMessages) != int(s.round.PartyIDs().N()-1) {
+	for !s.done && len(s.receivedMessages) == int(s.round.PartyIDs().N()-1) {
+		newMessages = append(newMessages, s.processRound()...)
+	}
+	if s.err != nil {
 		return nil
 	}
+	return newMessages
+}
 
+// processRound finishes the current round, for which all messages have been received.
+func (s *State) processRound() []*messages.Message {
 	for _, msg := range s.receivedMessages {
 		if err := s.round.ProcessMessage(msg); err != nil {
 			s.reportError(err)
-- 
2.43.0


From 7529b20262d61e005e9cc94e246104c2ddf2aa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:56 +0000
Subject: [PATCH 08/22] fix: name the round and the culprit correctly in
 refusals

---
 pkg/state/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index acc862c..03a674a 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -61,7 +61,7 @@ func (s *State) wrapError(err error, culprit party.ID) error {
 	if culprit == 0 {
 		return fmt.Errorf("party %d, round %d: %w", s.round.SelfID(), s.roundNumber, err)
 	}
-	return fmt.Errorf("party %d, round %d, culprit %d: %w", s.round.SelfID(), culprit, s.roundNumber, err)
+	return fmt.Errorf("party %d, round %d, culprit %d: %w", s.round.SelfID(), s.roundNumber, culprit, err)
 }
 
 // HandleMessage should be called on an unmarshalled messages.Message appropriate for the protocol execution.
-- 
2.43.0


From 0d643a14539d955831b04219f2c6f571cd42c243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:01 +0000
Subject: [PATCH 09/22] fix: reset a key generation which has not started

---
 pkg/frost/keygen/base.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/frost/keygen/base.go b/pkg/frost/keygen/base.go
index 5564bc1..f384175 100644
--- a/pkg/frost/keygen/base.go
+++ b/pkg/frost/keygen/base.go
@@ -69,8 +69,12 @@ func NewRound(selfID party.ID, partyIDs party.IDSlice, threshold party.Size) (st
 
 func (round *round0) Reset() {
 	round.Secret.Set(ristretto.NewScalar())
-	round.Polynomial.Reset()
-	round.CommitmentsSum.Reset()
+	if round.Polynomial != nil {
+		round.Polynomial.Reset()
+	}
+	if round.CommitmentsSum != nil {
+		round.CommitmentsSum.Reset()
+	}
 	for _, p := range round.Commitments {
 		p.Reset()
 	}
-- 
2.43.0


From f4204ad191424dc8825d2e21860c4b4d7362dcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:16 +0000
Subject: [PATCH 10/22] fix: refuse key material with invalid identifiers,
 thresholds or missing values

---
 pkg/eddsa/public.go       | 25 ++++++++++++++++++++-----
 pkg/eddsa/secret_share.go |  7 +++++++
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/pkg/eddsa/public.go b/pkg/eddsa/public.go
index 3bebb78..cc42014 100644
--- a/pkg/eddsa/public.go
+++ b/pkg/eddsa/public.go
@@ -3,6 +3,7 @@ package eddsa
 import (
 	"encoding/json"
 	"errors"
+	"math"
 
 	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
 	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
@@ -28,8 +29,19 @@ type Public struct {
 // NewPublic creates a Public structure given a map of public key shares as ristretto.Element, the threshold used.
 func NewPublic(shares map[party.ID]*ristretto.Element, threshold party.Size) (*Public, error) {
 	n := len(shares)
+	// computed as an int, since threshold + 1 may overflow
+	if int(threshold)+1 > n {
+		return nil, errors.New("PublicShares: Threshold should be < N - 1")
+	}
+
 	IDs := make([]party.ID, 0, n)
-	for id := range shares {
+	for id, share := range shares {
+		if id == 0 {
+			return nil, errors.New("PublicShares: id 0 is not valid")
+		}
+		if share == nil {
+			return nil, errors.New("PublicShares: missing share")
+		}
 		IDs = append(IDs, id)
 	}
 
@@ -42,10 +54,6 @@ func NewPublic(shares map[party.ID]*ristretto.Element, threshold party.Size) (*P
 		GroupKey:  computeGroupKey(set, shares),
 	}
 
-	if s.Threshold+1 > s.PartyIDs.N() {
-		return nil, errors.New("PublicShares: Threshold should be < N - 1")
-	}
-
 	return s, nil
 }
 
@@ -85,6 +93,13 @@ func (s *Public) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
+	if out.Threshold < 0 || out.Threshold > math.MaxUint16 {
+		return errors.New("PublicShares: threshold is out of range")
+	}
+	if out.GroupKey == nil {
+		return errors.New("PublicShares: missing group key")
+	}
+
 	newS, err := NewPublic(out.Shares, party.Size(out.Threshold))
 	if err != nil {
 		return err
diff --git a/pkg/eddsa/secret_share.go b/pkg/eddsa/secret_share.go
index 1f7217f..e30be30 100644
--- a/pkg/eddsa/secret_share.go
+++ b/pkg/eddsa/secret_share.go
@@ -3,6 +3,7 @@ package eddsa
 import (
 	"encoding/json"
 	"errors"
+	"math"
 
 	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
 	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
@@ -47,6 +48,9 @@ func (sk *SecretShare) UnmarshalBinary(data []byte) error {
 	if sk.ID, err = party.FromBytes(data); err != nil {
 		return err
 	}
+	if sk.ID == 0 {
+		return errors.New("SecretShare: id 0 is not valid")
+	}
 	data = data[party.IDByteSize:]
 
 	if _, err = sk.Secret.SetCanonicalBytes(data); err != nil {
@@ -75,6 +79,9 @@ func (sk *SecretShare) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &out); err != nil {
 		return err
 	}
+	if out.ID < 1 || out.ID > math.MaxUint16 {
+		return errors.New("SecretShare: id is out of range")
+	}
 	sk.ID = party.ID(out.ID)
 	if _, err := sk.Secret.SetCanonicalBytes(out.SecretShare); err != nil {
 		return err
-- 
2.43.0


From fa54e84f16903eba343451702eed2c30e406a698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:07 +0000
Subject: [PATCH 11/22] fix: keep a copy of received commitments

---
 pkg/frost/keygen/round1.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/frost/keygen/round1.go b/pkg/frost/keygen/round1.go
index 72b1631..a380615 100644
--- a/pkg/frost/keygen/round1.go
+++ b/pkg/frost/keygen/round1.go
@@ -17,7 +17,8 @@ func (round *round1) ProcessMessage(msg *messages.Message) *state.Error {
 		return state.NewError(from, errors.New("ZK Schnorr failed"))
 	}
 
-	round.Commitments[from] = msg.KeyGen1.Commitments
+	// The message may be shared with other parties, so we keep our own copy
+	round.Commitments[from] = msg.KeyGen1.Commitments.Copy()
 
 	// Add the commitments to our own, so that we can interpolate the final polynomial
 	// This fails when the degree of the commitments is not the threshold
-- 
2.43.0


From 1357efecbe3fa8b16db3c5cb055f26229302bbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:07 +0000
Subject: [PATCH 12/22] fix: keep copies of the party list and the message to
 be signed

---
 pkg/frost/sign/base.go  | 2 +-
 pkg/state/base_round.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/frost/sign/base.go b/pkg/frost/sign/base.go
index 97f6e52..fa9a986 100644
--- a/pkg/frost/sign/base.go
+++ b/pkg/frost/sign/base.go
@@ -58,7 +58,7 @@ func NewRound(partyIDs party.IDSlice, secret *eddsa.SecretShare, shares *eddsa.P
 
 	round := &round0{
 		BaseRound: baseRound,
-		Message:   message,
+		Message:   append([]byte{}, message...),
 		Parties:   make(map[party.ID]*signer, partyIDs.N()),
 		GroupKey:  *shares.GroupKey,
 		Output:    &Output{},
diff --git a/pkg/state/base_round.go b/pkg/state/base_round.go
index bcdd754..d708420 100644
--- a/pkg/state/base_round.go
+++ b/pkg/state/base_round.go
@@ -18,7 +18,7 @@ func NewBaseRound(selfID party.ID, partyIDs party.IDSlice) (*BaseRound, error) {
 	}
 	return &BaseRound{
 		selfID:   selfID,
-		partyIDs: partyIDs,
+		partyIDs: partyIDs.Copy(),
 	}, nil
 }
 
-- 
2.43.0


From 9fdfcc40752e6d9f753509a1540cf77c36e7a7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:02 +0000
Subject: [PATCH 13/22] fix: drop unprocessed messages when the protocol ends

---
 pkg/state/state.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index 03a674a..dc65427 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -229,6 +229,9 @@ func (s *State) finish() {
 	}
 	s.done = true
 	s.round.Reset()
+	// Messages that were not processed may contain secrets
+	s.receivedMessages = nil
+	s.queue = nil
 	s.stopTimer()
 	close(s.doneChan)
 }
-- 
2.43.0


From 7aed969dbc5b4cddd3728c826357e6ceec69baed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 14/22] fix: draw all the bytes of a random scalar

---
 pkg/internal/scalar/scalar.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/internal/scalar/scalar.go b/pkg/internal/scalar/scalar.go
index 7cab383..8d6e07e 100644
--- a/pkg/internal/scalar/scalar.go
+++ b/pkg/internal/scalar/scalar.go
@@ -3,6 +3,7 @@ package scalar
 import (
 	"crypto/rand"
 	"fmt"
+	"io"
 
 	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
 )
@@ -11,7 +12,7 @@ import (
 func SetScalarRandom(s *ristretto.Scalar) *ristretto.Scalar {
 	bytes := make([]byte, 64)
 
-	_, err := rand.Reader.Read(bytes)
+	_, err := io.ReadFull(rand.Reader, bytes)
 	if err != nil {
 		panic(fmt.Errorf("edwards25519: failed to generate random Scalar: %w", err))
 	}
-- 
2.43.0


From 61299235af3d40bf52edd2e3b2c1b07718793b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 15/22] fix: generate the list of 65535 parties

---
 pkg/helpers/parties.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/helpers/parties.go b/pkg/helpers/parties.go
index 9685737..886701f 100644
--- a/pkg/helpers/parties.go
+++ b/pkg/helpers/parties.go
@@ -11,8 +11,8 @@ import (
 // NewPartySlice returns n party.ID s in the range [1, ..., n].
 func NewPartySlice(n party.Size) party.IDSlice {
 	partyIDs := make([]party.ID, 0, n)
-	for i := party.ID(1); i <= n; i++ {
-		partyIDs = append(partyIDs, i)
+	for i := party.Size(0); i < n; i++ {
+		partyIDs = append(partyIDs, i+1)
 	}
 	return partyIDs
 }
-- 
2.43.0


From cfd2d0cef0dbd54c727a5df1c5f3d8321baeaafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 16/22] fix: read the outcome of a protocol under its lock

---
 pkg/state/state.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index dc65427..c64b0cb 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -42,18 +42,21 @@ func NewBaseState(round Round, timeout time.Duration) (*State, error) {
 		doneChan:         make(chan struct{}),
 	}
 
-	s.timer = newTimer(timeout, func() {
-		s.mtx.Lock()
-		s.reportError(NewError(0, errors.New("message timeout")))
-		s.mtx.Unlock()
-	})
-
 	for _, id := range round.PartyIDs() {
 		if id != round.SelfID() {
 			s.receivedMessages[id] = nil
 		}
 	}
 
+	// The timer may fire before we return
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+	s.timer = newTimer(timeout, func() {
+		s.mtx.Lock()
+		s.reportError(NewError(0, errors.New("message timeout")))
+		s.mtx.Unlock()
+	})
+
 	return s, nil
 }
 
@@ -261,6 +264,8 @@ func (s *State) Done() <-chan struct{} {
 }
 
 func (s *State) Err() error {
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
 	if s.err != nil {
 		return s.err
 	}
@@ -271,14 +276,14 @@ func (s *State) Err() error {
 // This happens either when the protocol has finished correctly,
 // or if an error has been detected.
 func (s *State) WaitForError() error {
-	if !s.done {
-		<-s.doneChan
-	}
+	<-s.doneChan
 	return s.Err()
 }
 
 // IsFinished returns true if the protocol has aborted or successfully finished.
 func (s *State) IsFinished() bool {
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
 	return s.done
 }
 
-- 
2.43.0


From 884e2eec52169372ba6f617f459487e067268cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:19 +0000
Subject: [PATCH 17/22] fix: compute the constant-time sum of products whatever
 the receiver holds

---
 pkg/ristretto/ristretto.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/ristretto/ristretto.go b/pkg/ristretto/ristretto.go
index b4c0aee..03bd63c 100644
--- a/pkg/ristretto/ristretto.go
+++ b/pkg/ristretto/ristretto.go
@@ -373,7 +373,8 @@ func (e *Element) MultiScalarMult(s []*Scalar, p []*Element) *Element {
 	for i := range s {
 		points[i] = &p[i].r
 	}
-	e.r.MultiScalarMult(s, points)
+	// edwards25519 adds the products to the receiver, so it starts from the identity
+	e.r.Set(edwards25519.NewIdentityPoint().MultiScalarMult(s, points))
 	return e
 }
 
-- 
2.43.0


From 1597c9f6df366979645a4402c67eefc6c30458b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:19 +0000
Subject: [PATCH 18/22] fix: refuse thresholds below one in the key generation
 tool

---
 cmd/keygen/keygen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/keygen/keygen.go b/cmd/keygen/keygen.go
index 0ab011e..1361817 100644
--- a/cmd/keygen/keygen.go
+++ b/cmd/keygen/keygen.go
@@ -45,7 +45,7 @@ func main() {
 		usage()
 		return
 	}
-	if (n > maxN) || (t >= n) {
+	if (n > maxN) || (t < 1) || (t >= n) {
 		usage()
 		return
 	}
-- 
2.43.0


From 34e5696a5f7874fa8aa61e04b7fd1ce321e24d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:19 +0000
Subject: [PATCH 19/22] fix: report when the key generation output cannot be
 written

---
 cmd/keygen/keygen.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/keygen/keygen.go b/cmd/keygen/keygen.go
index 1361817..5dca432 100644
--- a/cmd/keygen/keygen.go
+++ b/cmd/keygen/keygen.go
@@ -137,7 +137,10 @@ func main() {
 
 	filename := "keygenout.json"
 
-	_ = ioutil.WriteFile(filename, jsonData, 0644)
+	if err = ioutil.WriteFile(filename, jsonData, 0644); err != nil {
+		fmt.Println(err)
+		return
+	}
 
 	fmt.Printf("Success: output written to %v\n", filename)
 }
-- 
2.43.0


From 3fc3296a58c8f4e7359ef1a8f6ed9f4c5359550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:19 +0000
Subject: [PATCH 20/22] fix: refuse incomplete or inconsistent key files in the
 signing tool

---
 cmd/signer/signer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cmd/signer/signer.go b/cmd/signer/signer.go
index 2bf688c..04bd31e 100644
--- a/cmd/signer/signer.go
+++ b/cmd/signer/signer.go
@@ -53,6 +53,11 @@ func main() {
 		return
 	}
 
+	if kgOutput.Shares == nil {
+		fmt.Printf("%v: no public shares\n", filename)
+		return
+	}
+
 	// get n and t from the keygen output
 	var n party.Size
 	var t party.Size
@@ -74,9 +79,14 @@ func main() {
 	msgsOut2 := make([][]byte, 0, n)
 
 	for _, id := range partyIDs {
+		if secretShares[id] == nil {
+			fmt.Printf("%v: no secret share of party %v\n", filename, id)
+			return
+		}
 		states[id], outputs[id], err = frost.NewSignState(partyIDs, secretShares[id], publicShares, message, 0)
 		if err != nil {
-			fmt.Println()
+			fmt.Println(err)
+			return
 		}
 	}
 
-- 
2.43.0


From a90e9e9ab4fd37d990c0bf0e35736a347e514d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:05 +0000
Subject: [PATCH 21/22] fix: refuse party lists with duplicate or zero
 identifiers, and order them

---
 pkg/state/base_round.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/state/base_round.go b/pkg/state/base_round.go
index d708420..a847910 100644
--- a/pkg/state/base_round.go
+++ b/pkg/state/base_round.go
@@ -13,12 +13,19 @@ type BaseRound struct {
 }
 
 func NewBaseRound(selfID party.ID, partyIDs party.IDSlice) (*BaseRound, error) {
-	if !partyIDs.Contains(selfID) {
+	// all parties have to use the same order
+	ids := party.NewIDSlice(partyIDs)
+	if !ids.Contains(selfID) {
 		return nil, errors.New("PartyIDs should contain selfID")
 	}
+	for i, id := range ids {
+		if id == 0 || i > 0 && id == ids[i-1] {
+			return nil, errors.New("PartyIDs should be distinct and not 0")
+		}
+	}
 	return &BaseRound{
 		selfID:   selfID,
-		partyIDs: partyIDs.Copy(),
+		partyIDs: ids,
 	}, nil
 }
 
-- 
2.43.0


From 4acf95e329f6e218edcd5cdcef5ed4286fea2ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:05 +0000
Subject: [PATCH 22/22] fix: accept signers in any order

---
 pkg/frost/sign/base.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/frost/sign/base.go b/pkg/frost/sign/base.go
index fa9a986..137fb8a 100644
--- a/pkg/frost/sign/base.go
+++ b/pkg/frost/sign/base.go
@@ -44,6 +44,7 @@ type (
 )
 
 func NewRound(partyIDs party.IDSlice, secret *eddsa.SecretShare, shares *eddsa.Public, message []byte) (state.Round, *Output, error) {
+	partyIDs = party.NewIDSlice(partyIDs)
 	if !partyIDs.Contains(secret.ID) {
 		return nil, nil, errors.New("base.NewRound: owner of SecretShare is not contained in partyIDs")
 	}
-- 
2.43.0

