From 5d950e45064e16dc3a617c9141ee0520ad362630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 01/23] fix: reject truncated or empty encoded public keys
 instead of panicking or zero-padding

---
 ecc/curve.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecc/curve.go b/ecc/curve.go
index af2ee36..db9d258 100644
--- a/ecc/curve.go
+++ b/ecc/curve.go
@@ -4,6 +4,7 @@ import (
 	"crypto/rand"
 	"errors"
 	"io"
+	"strconv"
 
 	"github.com/RadicalApp/complete"
 	"golang.org/x/crypto/curve25519"
@@ -18,6 +19,10 @@ const DjbType = 0x05
 // This is used to check the byte at the given offset in the byte array for a special
 // "type" byte that will determine the key type. Currently only DJB EC keys are supported.
 func DecodePoint(bytes []byte, offset int) (ECPublicKeyable, error) {
+	// Ensure there is a type byte and a complete key to decode.
+	if offset < 0 || len(bytes)-offset < 1+32 {
+		return nil, errors.New("Bad key length: " + strconv.Itoa(len(bytes)-offset))
+	}
 	keyType := bytes[offset] & 0xFF
 
 	switch keyType {
-- 
2.43.0


From 9b106f8a24a560acd19dc624929669169390a837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 02/23] fix: reject ill-formed CBC input and leave the caller's
 buffers untouched

---
 cipher/cbc.go    | 19 ++++++++++++++++---
 cipher/cipher.go | 11 +++++++++--
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/cipher/cbc.go b/cipher/cbc.go
index 6a6db5d..02157d2 100644
--- a/cipher/cbc.go
+++ b/cipher/cbc.go
@@ -42,10 +42,19 @@ func DecryptCbc(iv, key, ciphertext []byte) ([]byte, error) {
 		ciphertext = ciphertext[aes.BlockSize:]
 	}
 
+	if len(iv) != aes.BlockSize {
+		return nil, fmt.Errorf("iv is not of the block size: %d / %d", len(iv), aes.BlockSize)
+	}
+	if len(ciphertext) == 0 || len(ciphertext)%aes.BlockSize != 0 {
+		return nil, fmt.Errorf("ciphertext is not a multiple of the block size: %d / %d", len(ciphertext), aes.BlockSize)
+	}
+
+	// Decrypt into a new buffer, so that the caller's ciphertext stays as it was.
+	plaintext := make([]byte, len(ciphertext))
 	cbc := cipher.NewCBCDecrypter(block, iv)
-	cbc.CryptBlocks(ciphertext, ciphertext)
+	cbc.CryptBlocks(plaintext, ciphertext)
 
-	return unpad(ciphertext)
+	return unpad(plaintext)
 }
 
 /*
@@ -86,7 +95,11 @@ func EncryptCbc(iv, key, plaintext []byte) ([]byte, error) {
 func pad(ciphertext []byte, blockSize int) []byte {
 	padding := blockSize - len(ciphertext)%blockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(ciphertext, padtext...)
+
+	// Pad a copy: appending to the caller's slice could overwrite what lies behind it.
+	padded := make([]byte, 0, len(ciphertext)+padding)
+	padded = append(padded, ciphertext...)
+	return append(padded, padtext...)
 }
 
 func unpad(src []byte) ([]byte, error) {
diff --git a/cipher/cipher.go b/cipher/cipher.go
index edfb428..9c877bd 100644
--- a/cipher/cipher.go
+++ b/cipher/cipher.go
@@ -18,10 +18,17 @@ func Decrypt(iv, key, ciphertext []byte) ([]byte, error) {
 	if len(ciphertext) < aes.BlockSize {
 		return nil, errors.New("ciphertext too short")
 	}
+	if len(ciphertext)%aes.BlockSize != 0 {
+		return nil, errors.New("ciphertext is not a multiple of the block size")
+	}
+	if len(iv) != aes.BlockSize {
+		return nil, errors.New("iv is not of the block size")
+	}
+	plaintext := make([]byte, len(ciphertext))
 	cbc := cipher.NewCBCDecrypter(block, iv)
-	cbc.CryptBlocks(ciphertext, ciphertext)
+	cbc.CryptBlocks(plaintext, ciphertext)
 
-	unpaddedText, err := pkcs7Unpad(ciphertext, aes.BlockSize)
+	unpaddedText, err := pkcs7Unpad(plaintext, aes.BlockSize)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 1596cfd5ff1ab8686e19231a807c44bf9eb278da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 03/23] fix: support sessions set up without a one-time prekey
 or with the last-resort prekey

---
 serialize/proto.go | 17 +++++++++++++++--
 session/cipher.go  |  2 +-
 session/session.go |  4 ++--
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/serialize/proto.go b/serialize/proto.go
index dbfe4b8..0a56a25 100644
--- a/serialize/proto.go
+++ b/serialize/proto.go
@@ -1,6 +1,7 @@
 package serialize
 
 import (
+	"errors"
 	"fmt"
 	"strconv"
 
@@ -113,7 +114,7 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Serialize(signalMessage *protoco
 		Message:        signalMessage.Message,
 	}
 
-	if !signalMessage.PreKeyID.IsEmpty {
+	if signalMessage.PreKeyID != nil && !signalMessage.PreKeyID.IsEmpty {
 		preKeyMessage.PreKeyId = &signalMessage.PreKeyID.Value
 	}
 
@@ -129,6 +130,9 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Serialize(signalMessage *protoco
 
 // Deserialize will take in ProtoBuf bytes and return a prekey signal message structure.
 func (j *ProtoBufPreKeySignalMessageSerializer) Deserialize(serialized []byte) (*protocol.PreKeySignalMessageStructure, error) {
+	if len(serialized) == 0 {
+		return nil, errors.New("Empty prekey signal message")
+	}
 	version := highBitsToInt(serialized[0])
 	message := serialized[1:]
 	var sm PreKeySignalMessage
@@ -138,6 +142,12 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Deserialize(serialized []byte) (
 		return nil, err
 	}
 
+	// The one time prekey id is only there if a one time prekey was used.
+	preKeyID := optional.NewEmptyUint32()
+	if sm.PreKeyId != nil {
+		preKeyID = optional.NewOptionalUint32(sm.GetPreKeyId())
+	}
+
 	preKeySignalMessage := protocol.PreKeySignalMessageStructure{
 		Version:        version,
 		RegistrationID: sm.GetRegistrationId(),
@@ -145,7 +155,7 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Deserialize(serialized []byte) (
 		IdentityKey:    sm.GetIdentityKey(),
 		SignedPreKeyID: sm.GetSignedPreKeyId(),
 		Message:        sm.GetMessage(),
-		PreKeyID:       optional.NewOptionalUint32(sm.GetPreKeyId()),
+		PreKeyID:       preKeyID,
 	}
 
 	return &preKeySignalMessage, nil
@@ -178,6 +188,9 @@ func (j *ProtoBufSenderKeyDistributionMessageSerializer) Serialize(message *prot
 // Deserialize will take in ProtoBuf bytes and return a message structure, which can be
 // used to create a new SenderKey Distribution object.
 func (j *ProtoBufSenderKeyDistributionMessageSerializer) Deserialize(serialized []byte) (*protocol.SenderKeyDistributionMessageStructure, error) {
+	if len(serialized) == 0 {
+		return nil, errors.New("Empty senderkey distribution message")
+	}
 	version := uint32(highBitsToInt(serialized[0]))
 	message := serialized[1:]
 
diff --git a/session/cipher.go b/session/cipher.go
index e510317..bf6fe8c 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -177,7 +177,7 @@ func (d *Cipher) DecryptMessageReturnKey(ciphertextMessage *protocol.PreKeySigna
 	}
 	// Store the session record in our session store.
 	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
-	if !unsignedPreKeyID.IsEmpty {
+	if unsignedPreKeyID != nil && !unsignedPreKeyID.IsEmpty {
 		d.preKeyStore.RemovePreKey(unsignedPreKeyID.Value)
 	}
 	return plaintext, keys, nil
diff --git a/session/session.go b/session/session.go
index 418b8a9..8a5a94c 100644
--- a/session/session.go
+++ b/session/session.go
@@ -132,7 +132,7 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 
 	// Set our one time pre key with the one from our prekey store
 	// if the message contains a valid pre key id
-	if message.PreKeyID() != nil {
+	if message.PreKeyID() != nil && !message.PreKeyID().IsEmpty {
 		oneTimePreKey := b.preKeyStore.LoadPreKey(message.PreKeyID().Value)
 		if oneTimePreKey == nil {
 			logger.Error(nilOneTimePreKeyError)
@@ -166,7 +166,7 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 	sessionState.SetSenderBaseKey(message.BaseKey().Serialize())
 
 	// Remove the PreKey from our store and return the message prekey id if it is valid.
-	if message.PreKeyID() != nil && message.PreKeyID().Value != medium.MaxValue {
+	if message.PreKeyID() != nil && !message.PreKeyID().IsEmpty && message.PreKeyID().Value != medium.MaxValue {
 		return message.PreKeyID(), nil
 	}
 	return nil, nil
-- 
2.43.0


From 00e748b9d15047a67a11376f90af854dcf2ee82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 04/23] fix: return an error for a prekey message that names an
 unknown signed prekey

---
 session/session.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/session/session.go b/session/session.go
index 8a5a94c..fe1a81a 100644
--- a/session/session.go
+++ b/session/session.go
@@ -19,6 +19,7 @@ import (
 // Define error constants used for error messages.
 const untrustedIdentityError string = "Untrusted identity"
 const noSignedPreKeyError string = "No signed prekey!"
+const nilSignedPreKeyError string = "Prekey store returned a nil signed prekey!"
 const invalidSignatureError string = "Invalid signature on device key!"
 const nilOneTimePreKeyError string = "Prekey store returned a nil one time prekey! Was the key already processed?"
 
@@ -120,6 +121,10 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 
 	// Load our signed prekey from our signed prekey store.
 	ourSignedPreKeyRecord := b.signedPreKeyStore.LoadSignedPreKey(message.SignedPreKeyID())
+	if ourSignedPreKeyRecord == nil {
+		logger.Error(nilSignedPreKeyError)
+		return nil, errors.New(nilSignedPreKeyError)
+	}
 	ourSignedPreKey := ourSignedPreKeyRecord.KeyPair()
 
 	// Build the parameters of the session.
-- 
2.43.0


From 15f0d934a81d4fb5b060c547a1f91d2114b642a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 05/23] fix: do not open the same session twice for an altered
 version or base key encoding

---
 protocol/prekey_signal_message.go | 7 +++++++
 session/session.go                | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/protocol/prekey_signal_message.go b/protocol/prekey_signal_message.go
index 8a6160d..d6e6fa5 100644
--- a/protocol/prekey_signal_message.go
+++ b/protocol/prekey_signal_message.go
@@ -63,6 +63,13 @@ func NewPreKeySignalMessageFromStruct(structure *PreKeySignalMessageStructure,
 		return nil, err
 	}
 
+	// The highest bit of a Curve25519 key is ignored in key agreements. A base key with that
+	// bit set is another encoding of the same key and would open the same session again.
+	if preKeyWhisperMessage.baseKey.PublicKey()[31]&0x80 != 0 {
+		err := "Base key is not canonical."
+		return nil, errors.New(err)
+	}
+
 	// Generate the identity key from bytes
 	var identityKey ecc.ECPublicKeyable
 	identityKey, err = ecc.DecodePoint(structure.IdentityKey, 0)
diff --git a/session/session.go b/session/session.go
index fe1a81a..8c360a1 100644
--- a/session/session.go
+++ b/session/session.go
@@ -20,6 +20,7 @@ import (
 const untrustedIdentityError string = "Untrusted identity"
 const noSignedPreKeyError string = "No signed prekey!"
 const nilSignedPreKeyError string = "Prekey store returned a nil signed prekey!"
+const wrongVersionError string = "Wrong prekey message version!"
 const invalidSignatureError string = "Invalid signature on device key!"
 const nilOneTimePreKeyError string = "Prekey store returned a nil one time prekey! Was the key already processed?"
 
@@ -109,6 +110,12 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 	message *protocol.PreKeySignalMessage) (unsignedPreKeyID *optional.Uint32, err error) {
 
 	logger.Debug("Processing message with PreKeyID: ", message.PreKeyID())
+	// The version is not authenticated. Only the version we create sessions for can be
+	// recognized as an already processed message below.
+	if message.MessageVersion() != protocol.CurrentVersion {
+		return nil, errors.New(wrongVersionError)
+	}
+
 	// Check to see if we've already set up a session for this V3 message.
 	sessionExists := sessionRecord.HasSessionState(
 		message.MessageVersion(),
-- 
2.43.0


From c4a06db6c71a6ec39e6bda41e91400b71b1fe999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 06/23] fix: decrypt on copies of session states, and move a
 promoted state instead of duplicating it

---
 session/cipher.go             |  8 +++++---
 state/record/session.go       |  7 +++++++
 state/record/state_chain.go   |  7 +++++++
 state/record/state_session.go | 13 +++++++++++++
 4 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/session/cipher.go b/session/cipher.go
index bf6fe8c..aa1eea7 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -200,9 +200,10 @@ func (d *Cipher) DecryptWithKey(ciphertextMessage *protocol.SignalMessage, key *
 func (d *Cipher) DecryptWithRecord(sessionRecord *record.Session, ciphertext *protocol.SignalMessage) ([]byte, *message.Keys, error) {
 	logger.Debug("Decrypting ciphertext with record: ", sessionRecord)
 	previousStates := sessionRecord.PreviousSessionStates()
-	sessionState := sessionRecord.SessionState()
+	sessionState := sessionRecord.SessionState().Copy()
 
-	// Try and decrypt the message with the current session state.
+	// Try and decrypt the message with a copy of the current session state, so
+	// that a message that turns out to be invalid does not change the session.
 	plaintext, messageKeys, err := d.DecryptWithState(sessionState, ciphertext)
 
 	// If we received an error using the current session state, loop
@@ -211,13 +212,14 @@ func (d *Cipher) DecryptWithRecord(sessionRecord *record.Session, ciphertext *pr
 		logger.Warning(err)
 		for i, state := range previousStates {
 			// Try decrypting the message with previous states
+			state = state.Copy()
 			plaintext, messageKeys, err = d.DecryptWithState(state, ciphertext)
 			if err != nil {
 				continue
 			}
 
 			// If successful, remove and promote the state.
-			previousStates = append(previousStates[:i], previousStates[i+1:]...)
+			sessionRecord.RemovePreviousState(i)
 			sessionRecord.PromoteState(state)
 
 			return plaintext, messageKeys, nil
diff --git a/state/record/session.go b/state/record/session.go
index b0bd415..8033f1e 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -164,6 +164,13 @@ func (r *Session) PromoteState(promotedState *State) {
 	}
 }
 
+// RemovePreviousState removes the "previous" session state with the given index.
+func (r *Session) RemovePreviousState(index int) {
+	previousStates := make([]*State, 0, len(r.previousStates))
+	previousStates = append(previousStates, r.previousStates[:index]...)
+	r.previousStates = append(previousStates, r.previousStates[index+1:]...)
+}
+
 // Serialize will return the session as serialized bytes so it can be
 // persistently stored.
 func (r *Session) Serialize() []byte {
diff --git a/state/record/state_chain.go b/state/record/state_chain.go
index c7a3bf0..1be3f46 100644
--- a/state/record/state_chain.go
+++ b/state/record/state_chain.go
@@ -82,6 +82,13 @@ type Chain struct {
 	messageKeys          []*message.Keys
 }
 
+// Copy returns a copy of the chain that can be changed independently of this one.
+func (c *Chain) Copy() *Chain {
+	chainCopy := *c
+	chainCopy.messageKeys = append([]*message.Keys{}, c.messageKeys...)
+	return &chainCopy
+}
+
 // SenderRatchetKey returns the sender's EC keypair.
 func (c *Chain) SenderRatchetKey() *ecc.ECKeyPair {
 	return c.senderRatchetKeyPair
diff --git a/state/record/state_session.go b/state/record/state_session.go
index 0ff89a7..0d13853 100644
--- a/state/record/state_session.go
+++ b/state/record/state_session.go
@@ -134,6 +134,19 @@ type State struct {
 	sessionVersion       int
 }
 
+// Copy returns a copy of the state that can be changed independently of this one.
+func (s *State) Copy() *State {
+	stateCopy := *s
+	if s.senderChain != nil {
+		stateCopy.senderChain = s.senderChain.Copy()
+	}
+	stateCopy.receiverChains = make([]*Chain, len(s.receiverChains))
+	for i := range s.receiverChains {
+		stateCopy.receiverChains[i] = s.receiverChains[i].Copy()
+	}
+	return &stateCopy
+}
+
 // SenderBaseKey returns the sender's base key in bytes.
 func (s *State) SenderBaseKey() []byte {
 	if s.senderBaseKey == nil {
-- 
2.43.0


From 28d855e1a6188437967bc64a263a06236f5c5a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 07/23] fix: accept an opening prekey message, and save its
 identity key, only if it is authentic in its own session

---
 session/cipher.go  | 20 ++++++++++++++++++--
 session/session.go | 28 +++++++++++++++++++++-------
 2 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/session/cipher.go b/session/cipher.go
index aa1eea7..0ce5e4d 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -165,16 +165,32 @@ func (d *Cipher) DecryptMessage(ciphertextMessage *protocol.PreKeySignalMessage)
 }
 
 func (d *Cipher) DecryptMessageReturnKey(ciphertextMessage *protocol.PreKeySignalMessage) ([]byte, *message.Keys, error) {
+	if d.builder == nil {
+		return nil, nil, errors.New("No session builder to process a prekey message with")
+	}
+
 	// Load or create session record for this session.
 	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
-	unsignedPreKeyID, err := d.builder.Process(sessionRecord, ciphertextMessage)
+	unsignedPreKeyID, newSession, err := d.builder.process(sessionRecord, ciphertextMessage)
 	if err != nil {
 		return nil, nil, err
 	}
-	plaintext, keys, err := d.DecryptWithRecord(sessionRecord, ciphertextMessage.WhisperMessage())
+
+	// A message that opens a new session has to be encrypted in that very session.
+	var plaintext []byte
+	var keys *message.Keys
+	if newSession {
+		plaintext, keys, err = d.DecryptWithState(sessionRecord.SessionState(), ciphertextMessage.WhisperMessage())
+	} else {
+		plaintext, keys, err = d.DecryptWithRecord(sessionRecord, ciphertextMessage.WhisperMessage())
+	}
 	if err != nil {
 		return nil, nil, err
 	}
+
+	// Now that the message is authenticated, save the identity key to our identity store.
+	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey())
+
 	// Store the session record in our session store.
 	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
 	if unsignedPreKeyID != nil && !unsignedPreKeyID.IsEmpty {
diff --git a/session/session.go b/session/session.go
index 8c360a1..7252442 100644
--- a/session/session.go
+++ b/session/session.go
@@ -84,23 +84,37 @@ type Builder struct {
 // key signal message.
 func (b *Builder) Process(sessionRecord *record.Session, message *protocol.PreKeySignalMessage) (unsignedPreKeyID *optional.Uint32, err error) {
 
+	unsignedPreKeyID, _, err = b.process(sessionRecord, message)
+	if err != nil {
+		return nil, err
+	}
+
+	// Save the identity key to our identity store.
+	b.identityKeyStore.SaveIdentity(b.remoteAddress, message.IdentityKey())
+
+	// Return the unsignedPreKeyID
+	return unsignedPreKeyID, nil
+}
+
+// process builds a new session like Process, but does not save the identity key,
+// since the message has not been authenticated before the embedded SignalMessage
+// is decrypted. It also returns whether there was no session for the message yet.
+func (b *Builder) process(sessionRecord *record.Session, message *protocol.PreKeySignalMessage) (unsignedPreKeyID *optional.Uint32, newSession bool, err error) {
+
 	// Check to see if the keys are trusted.
 	theirIdentityKey := message.IdentityKey()
 	if !(b.identityKeyStore.IsTrustedIdentity(b.remoteAddress, theirIdentityKey)) {
-		return nil, errors.New(untrustedIdentityError)
+		return nil, false, errors.New(untrustedIdentityError)
 	}
 
 	// Use version 3 of the signal/axolotl protocol.
+	newSession = !sessionRecord.HasSessionState(message.MessageVersion(), message.BaseKey().Serialize())
 	unsignedPreKeyID, err = b.processV3(sessionRecord, message)
 	if err != nil {
-		return nil, err
+		return nil, false, err
 	}
 
-	// Save the identity key to our identity store.
-	b.identityKeyStore.SaveIdentity(b.remoteAddress, theirIdentityKey)
-
-	// Return the unsignedPreKeyID
-	return unsignedPreKeyID, nil
+	return unsignedPreKeyID, newSession, nil
 }
 
 // ProcessV3 builds a new session from a session record and pre key
-- 
2.43.0


From 754e0bf8f477f2c7965376673ec6104b0a515b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 08/23] fix: return an error when encrypting without an
 established session

---
 session/cipher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/session/cipher.go b/session/cipher.go
index 0ce5e4d..92288f9 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -65,6 +65,9 @@ type Cipher struct {
 func (d *Cipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, error) {
 	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
 	sessionState := sessionRecord.SessionState()
+	if !sessionState.HasSenderChain() {
+		return nil, errors.New("No session for: " + d.remoteAddress.String())
+	}
 	chainKey := sessionState.SenderChainKey()
 	messageKeys := chainKey.MessageKeys()
 	senderEphemeral := sessionState.SenderRatchetKey()
-- 
2.43.0


From 32c13b8272b364219b153c076dd960f1cc3d10d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 09/23] fix: enforce the identity trust decision when
 encrypting and decrypting

---
 session/cipher.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/session/cipher.go b/session/cipher.go
index 92288f9..2899506 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -68,6 +68,9 @@ func (d *Cipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, error) {
 	if !sessionState.HasSenderChain() {
 		return nil, errors.New("No session for: " + d.remoteAddress.String())
 	}
+	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, sessionState.RemoteIdentityKey()) {
+		return nil, errors.New(untrustedIdentityError)
+	}
 	chainKey := sessionState.SenderChainKey()
 	messageKeys := chainKey.MessageKeys()
 	senderEphemeral := sessionState.SenderRatchetKey()
@@ -122,9 +125,6 @@ func (d *Cipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, error) {
 	}
 
 	sessionState.SetSenderChainKey(chainKey.NextKey())
-	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, sessionState.RemoteIdentityKey()) {
-		// return err
-	}
 	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionState.RemoteIdentityKey())
 	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
 	return ciphertextMessage, nil
@@ -153,7 +153,7 @@ func (d *Cipher) DecryptAndGetKey(ciphertextMessage *protocol.SignalMessage) ([]
 	}
 
 	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey()) {
-		// return err
+		return nil, nil, errors.New(untrustedIdentityError)
 	}
 	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey())
 
@@ -191,6 +191,10 @@ func (d *Cipher) DecryptMessageReturnKey(ciphertextMessage *protocol.PreKeySigna
 		return nil, nil, err
 	}
 
+	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey()) {
+		return nil, nil, errors.New(untrustedIdentityError)
+	}
+
 	// Now that the message is authenticated, save the identity key to our identity store.
 	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey())
 
-- 
2.43.0


From 1215a5badbe3331ec0f5c468e835aef94867359d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 10/23] fix: do not let the previous counter of an unused
 sending chain underflow

---
 session/cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/cipher.go b/session/cipher.go
index 2899506..b5f6994 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -364,7 +364,7 @@ func getOrCreateChainKey(sessionState *record.State, theirEphemeral ecc.ECPublic
 	// Set our session state parameters.
 	sessionState.SetRootKey(senderChain.RootKey)
 	sessionState.AddReceiverChain(theirEphemeral, receiverChain.ChainKey)
-	previousCounter := max(sessionState.SenderChainKey().Index()-1, 0)
+	previousCounter := max(sessionState.SenderChainKey().Index(), 1) - 1
 	sessionState.SetPreviousCounter(previousCounter)
 	sessionState.SetSenderChain(ourNewEphemeral, senderChain.ChainKey)
 
-- 
2.43.0


From f25ae1258dda0907edc27a82e1fd872a4c6f21f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 11/23] fix: restore the public keys of stored prekeys and
 signed prekeys correctly

---
 state/record/prekey.go        | 5 ++++-
 state/record/signed_prekey.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/state/record/prekey.go b/state/record/prekey.go
index 18db799..d8f8aa8 100644
--- a/state/record/prekey.go
+++ b/state/record/prekey.go
@@ -34,7 +34,10 @@ func NewPreKeyFromStruct(structure *PreKeyStructure, serializer PreKeySerializer
 	}
 
 	// Generate the ECC key from bytes.
-	publicKey := ecc.NewDjbECPublicKey(bytehelper.SliceToArray(structure.PublicKey))
+	publicKey, err := ecc.DecodePoint(structure.PublicKey, 0)
+	if err != nil {
+		return nil, err
+	}
 	privateKey := ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.PrivateKey))
 	keyPair := ecc.NewECKeyPair(publicKey, privateKey)
 	preKey.keyPair = keyPair
diff --git a/state/record/signed_prekey.go b/state/record/signed_prekey.go
index 8c69dea..71a8875 100644
--- a/state/record/signed_prekey.go
+++ b/state/record/signed_prekey.go
@@ -38,7 +38,10 @@ func NewSignedPreKeyFromStruct(structure *SignedPreKeyStructure,
 	}
 
 	// Generate the ECC key from bytes.
-	publicKey := ecc.NewDjbECPublicKey(bytehelper.SliceToArray(structure.PublicKey))
+	publicKey, err := ecc.DecodePoint(structure.PublicKey, 0)
+	if err != nil {
+		return nil, err
+	}
 	privateKey := ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.PrivateKey))
 	keyPair := ecc.NewECKeyPair(publicKey, privateKey)
 	signedPreKey.keyPair = keyPair
-- 
2.43.0


From 142db6a6e14fe85c8c4eb5276ed37692c61fecfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 12/23] fix: restore stored sender keys without inventing a
 private signing key or losing the serializer

---
 groups/state/record/sender_key.go       | 1 +
 groups/state/record/state_sender_key.go | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/groups/state/record/sender_key.go b/groups/state/record/sender_key.go
index 7ba88de..3507815 100644
--- a/groups/state/record/sender_key.go
+++ b/groups/state/record/sender_key.go
@@ -45,6 +45,7 @@ func NewSenderKeyFromStruct(structure *SenderKeyStructure, serializer SenderKeyS
 	senderKey := &SenderKey{
 		senderKeyStates: senderKeyStates,
 		serializer:      serializer,
+		stateSerializer: stateSerializer,
 	}
 
 	return senderKey, nil
diff --git a/groups/state/record/state_sender_key.go b/groups/state/record/state_sender_key.go
index 46f2414..8f7d8ed 100644
--- a/groups/state/record/state_sender_key.go
+++ b/groups/state/record/state_sender_key.go
@@ -67,7 +67,10 @@ func NewSenderKeyStateFromStructure(structure *SenderKeyStateStructure,
 	if err != nil {
 		return nil, err
 	}
-	signingKeyPrivate := ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.SigningKeyPrivate))
+	var signingKeyPrivate ecc.ECPrivateKeyable
+	if len(structure.SigningKeyPrivate) == 32 {
+		signingKeyPrivate = ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.SigningKeyPrivate))
+	}
 
 	// Build our sender message keys from structure
 	senderMessageKeys := make([]*ratchet.SenderMessageKey, len(structure.Keys))
-- 
2.43.0


From 780a834b95c6dd3a3310ea84a11cf6fbe21dfce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 13/23] fix: return errors for group operations without a
 suitable sender key

---
 groups/cipher.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/groups/cipher.go b/groups/cipher.go
index dd6c507..f11118e 100644
--- a/groups/cipher.go
+++ b/groups/cipher.go
@@ -37,11 +37,19 @@ type GroupCipher struct {
 func (c *GroupCipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, error) {
 	// Load the sender key based on id from our store.
 	keyRecord := c.senderKeyStore.LoadSenderKey(c.senderKeyID)
+	if keyRecord == nil {
+		return nil, errors.New("No sender key for: " + c.senderKeyID.GroupID())
+	}
 	senderKeyState, err := keyRecord.SenderKeyState()
 	if err != nil {
 		return nil, err
 	}
 
+	// A sender key received from another member has no private key to sign with.
+	if senderKeyState.SigningKey().PrivateKey() == nil {
+		return nil, errors.New("No private signing key for: " + c.senderKeyID.GroupID())
+	}
+
 	// Get the message key from the senderkey state.
 	senderKey, err := senderKeyState.SenderChainKey().SenderMessageKey()
 	if err != nil {
@@ -73,7 +81,7 @@ func (c *GroupCipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, err
 func (c *GroupCipher) Decrypt(senderKeyMessage *protocol.SenderKeyMessage) ([]byte, error) {
 	keyRecord := c.senderKeyStore.LoadSenderKey(c.senderKeyID)
 
-	if keyRecord.IsEmpty() {
+	if keyRecord == nil || keyRecord.IsEmpty() {
 		return nil, errors.New("No sender key for: " + c.senderKeyID.GroupID())
 	}
 
-- 
2.43.0


From 5693c1d70880a28ef8bfc209f583ab3d07a87a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 14/23] fix: return errors when loading incomplete stored
 records

---
 groups/state/record/sender_key.go       |  4 ++++
 groups/state/record/state_sender_key.go |  9 +++++++++
 state/record/session.go                 |  5 +++++
 state/record/state_chain.go             |  9 +++++++++
 state/record/state_session.go           | 27 ++++++++++++++++---------
 5 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/groups/state/record/sender_key.go b/groups/state/record/sender_key.go
index 3507815..23461cc 100644
--- a/groups/state/record/sender_key.go
+++ b/groups/state/record/sender_key.go
@@ -31,6 +31,10 @@ func NewSenderKeyFromBytes(serialized []byte, serializer SenderKeySerializer,
 func NewSenderKeyFromStruct(structure *SenderKeyStructure, serializer SenderKeySerializer,
 	stateSerializer SenderKeyStateSerializer) (*SenderKey, error) {
 
+	if structure == nil {
+		return nil, errors.New("Incomplete sender key structure.")
+	}
+
 	// Build our sender key states from structure.
 	senderKeyStates := make([]*SenderKeyState, len(structure.SenderKeyStates))
 	for i := range structure.SenderKeyStates {
diff --git a/groups/state/record/state_sender_key.go b/groups/state/record/state_sender_key.go
index 8f7d8ed..f02a3a5 100644
--- a/groups/state/record/state_sender_key.go
+++ b/groups/state/record/state_sender_key.go
@@ -1,6 +1,8 @@
 package record
 
 import (
+	"errors"
+
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/groups/ratchet"
 	"github.com/prospik/libsignal-protocol-go/util/bytehelper"
@@ -62,6 +64,10 @@ func NewSenderKeyStateFromPublicKey(keyID uint32, iteration uint32, chainKey []b
 func NewSenderKeyStateFromStructure(structure *SenderKeyStateStructure,
 	serializer SenderKeyStateSerializer) (*SenderKeyState, error) {
 
+	if structure == nil || structure.SenderChainKey == nil {
+		return nil, errors.New("Incomplete sender key state structure.")
+	}
+
 	// Convert our ecc keys from bytes into object form.
 	signingKeyPublic, err := ecc.DecodePoint(structure.SigningKeyPublic, 0)
 	if err != nil {
@@ -75,6 +81,9 @@ func NewSenderKeyStateFromStructure(structure *SenderKeyStateStructure,
 	// Build our sender message keys from structure
 	senderMessageKeys := make([]*ratchet.SenderMessageKey, len(structure.Keys))
 	for i := range structure.Keys {
+		if structure.Keys[i] == nil {
+			return nil, errors.New("Incomplete sender message key structure.")
+		}
 		senderMessageKeys[i] = ratchet.NewSenderMessageKeyFromStruct(structure.Keys[i])
 	}
 
diff --git a/state/record/session.go b/state/record/session.go
index 8033f1e..21b1b98 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -2,6 +2,7 @@ package record
 
 import (
 	"bytes"
+	"errors"
 )
 
 // archivedStatesMaxLength describes how many previous session
@@ -46,6 +47,10 @@ func NewSession(serializer SessionSerializer, stateSerializer StateSerializer) *
 func NewSessionFromStructure(structure *SessionStructure, serializer SessionSerializer,
 	stateSerializer StateSerializer) (*Session, error) {
 
+	if structure == nil {
+		return nil, errors.New("Incomplete session structure.")
+	}
+
 	// Build our previous states from structure.
 	previousStates := make([]*State, len(structure.PreviousStates))
 	for i := range structure.PreviousStates {
diff --git a/state/record/state_chain.go b/state/record/state_chain.go
index 1be3f46..d18e122 100644
--- a/state/record/state_chain.go
+++ b/state/record/state_chain.go
@@ -1,6 +1,8 @@
 package record
 
 import (
+	"errors"
+
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/kdf"
 	"github.com/prospik/libsignal-protocol-go/keys/chain"
@@ -36,6 +38,10 @@ func NewChain(senderRatchetKeyPair *ecc.ECKeyPair, chainKey *chain.Key,
 // NewChainFromStructure will return a new Chain with the given
 // chain structure.
 func NewChainFromStructure(structure *ChainStructure) (*Chain, error) {
+	if structure == nil || structure.ChainKey == nil {
+		return nil, errors.New("Incomplete chain structure.")
+	}
+
 	// Alias to SliceToArray
 	getArray := bytehelper.SliceToArray
 
@@ -53,6 +59,9 @@ func NewChainFromStructure(structure *ChainStructure) (*Chain, error) {
 	// Build our message keys from the message key structures.
 	messageKeys := make([]*message.Keys, len(structure.MessageKeys))
 	for i := range structure.MessageKeys {
+		if structure.MessageKeys[i] == nil {
+			return nil, errors.New("Incomplete message keys structure.")
+		}
 		messageKeys[i] = message.NewKeysFromStruct(structure.MessageKeys[i])
 	}
 
diff --git a/state/record/state_session.go b/state/record/state_session.go
index 0d13853..efcd33e 100644
--- a/state/record/state_session.go
+++ b/state/record/state_session.go
@@ -1,6 +1,8 @@
 package record
 
 import (
+	"errors"
+
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/kdf"
 	"github.com/prospik/libsignal-protocol-go/keys/chain"
@@ -44,34 +46,41 @@ func NewState(serializer StateSerializer) *State {
 // NewStateFromStructure will return a new session state with the
 // given state structure.
 func NewStateFromStructure(structure *StateStructure, serializer StateSerializer) (*State, error) {
+	if structure == nil {
+		return nil, errors.New("Incomplete session state structure.")
+	}
+
 	// Keep a list of errors, so they can be handled once.
-	errors := errorhelper.NewMultiError()
+	multiError := errorhelper.NewMultiError()
 
 	// Convert our ecc keys from bytes into object form.
 	localIdentityPublic, err := ecc.DecodePoint(structure.LocalIdentityPublic, 0)
-	errors.Add(err)
+	multiError.Add(err)
 	remoteIdentityPublic, err := ecc.DecodePoint(structure.RemoteIdentityPublic, 0)
-	errors.Add(err)
+	multiError.Add(err)
 	senderBaseKey, err := ecc.DecodePoint(structure.SenderBaseKey, 0)
-	errors.Add(err)
+	multiError.Add(err)
 	var pendingPreKey *PendingPreKey
 	if structure.PendingPreKey != nil {
 		pendingPreKey, err = NewPendingPreKeyFromStruct(structure.PendingPreKey)
-		errors.Add(err)
+		multiError.Add(err)
 	}
 	senderChain, err := NewChainFromStructure(structure.SenderChain)
-	errors.Add(err)
+	multiError.Add(err)
+	if err == nil && senderChain.SenderRatchetKey().PrivateKey() == nil {
+		multiError.Add(errors.New("Sender chain without private key."))
+	}
 
 	// Build our receiver chains from structure.
 	receiverChains := make([]*Chain, len(structure.ReceiverChains))
 	for i := range structure.ReceiverChains {
 		receiverChains[i], err = NewChainFromStructure(structure.ReceiverChains[i])
-		errors.Add(err)
+		multiError.Add(err)
 	}
 
 	// Handle any errors. The first error will always be returned if there are multiple.
-	if errors.HasErrors() {
-		return nil, errors
+	if multiError.HasErrors() {
+		return nil, multiError
 	}
 
 	// Build our state object.
-- 
2.43.0


From aa3726d7dc7517eda0d772518a6c8f88e573fcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 15/23] fix: return errors for ill-formed provisioning
 envelopes

---
 provision/cipher.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/provision/cipher.go b/provision/cipher.go
index ce5b104..dd247b5 100644
--- a/provision/cipher.go
+++ b/provision/cipher.go
@@ -49,11 +49,17 @@ func Decrypt(privateKey string, content string) (string, error) {
 		return "", err
 	}
 
-	publicKeyable, _ := ecc.DecodePoint(envelope.PublicKey, 0)
+	publicKeyable, err := ecc.DecodePoint(envelope.PublicKey, 0)
+	if err != nil {
+		return "", err
+	}
 	masterEphemeral := publicKeyable.PublicKey()
 	message := envelope.Body
+	if len(message) < 1+16+32 {
+		return "", fmt.Errorf("ProvisioningMessage too short: %d", len(message))
+	}
 	if message[0] != 1 {
-		return "", fmt.Errorf("Bad version number on ProvisioningMessage %s", err.Error())
+		return "", fmt.Errorf("Bad version number on ProvisioningMessage %d", message[0])
 	}
 
 	iv := message[1 : 16+1]
-- 
2.43.0


From fdf84c6b7187f7b8758e53888f4c12e98e986058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 16/23] fix: give the last-resort prekey the id that is never
 consumed

---
 util/keyhelper/key.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/keyhelper/key.go b/util/keyhelper/key.go
index 93fb0f1..e7c696b 100644
--- a/util/keyhelper/key.go
+++ b/util/keyhelper/key.go
@@ -10,6 +10,7 @@ import (
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/keys/identity"
 	"github.com/prospik/libsignal-protocol-go/state/record"
+	"github.com/prospik/libsignal-protocol-go/util/medium"
 )
 
 // GenerateIdentityKeyPair generates an identity keypair used for
@@ -66,7 +67,7 @@ func GenerateLastResortKey(serializer record.PreKeySerializer) (*record.PreKey,
 	if err != nil {
 		return nil, err
 	}
-	return record.NewPreKey(0, keyPair, serializer), nil
+	return record.NewPreKey(medium.MaxValue, keyPair, serializer), nil
 }
 
 // GenerateSignedPreKey generates a signed PreKey.
-- 
2.43.0


From c8ec315115c45b1499ccd47e3e06f7d2f2c35cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 17/23] fix: do not keep another copy of a sender key chain
 that is already known

---
 groups/state/record/sender_key.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/groups/state/record/sender_key.go b/groups/state/record/sender_key.go
index 23461cc..bf16da1 100644
--- a/groups/state/record/sender_key.go
+++ b/groups/state/record/sender_key.go
@@ -109,10 +109,17 @@ func (k *SenderKey) IsEmpty() bool {
 }
 
 // AddSenderKeyState will add a new state to this senderkey record with the given
-// id, iteration, chainkey, and signature key.
+// id, iteration, chainkey, and signature key. If the record already holds a state of
+// that very sender key, that state is kept: another copy of the chain would never be
+// used or advanced, and would keep the keys of messages already processed derivable.
 func (k *SenderKey) AddSenderKeyState(id uint32, iteration uint32,
 	chainKey []byte, signatureKey ecc.ECPublicKeyable) {
 
+	if state, err := k.GetSenderKeyStateByID(id); err == nil &&
+		state.SigningKey().PublicKey().PublicKey() == signatureKey.PublicKey() {
+		return
+	}
+
 	newState := NewSenderKeyStateFromPublicKey(id, iteration, chainKey, signatureKey, k.stateSerializer)
 	k.senderKeyStates = append(k.senderKeyStates, newState)
 
-- 
2.43.0


From 76d1e76919ba43bfe5eb4b6155f104af6c1773ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 18/23] fix: do not treat a record with an established session
 as fresh

---
 state/record/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/state/record/session.go b/state/record/session.go
index 21b1b98..eacad08 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -116,7 +116,7 @@ func (r *Session) SetState(sessionState *State) {
 // IsFresh is used to determine if this is a brand new session
 // or if a session record has already existed.
 func (r *Session) IsFresh() bool {
-	return r.fresh
+	return r.fresh && !r.sessionState.HasSenderChain()
 }
 
 // SessionState returns the session state object of the current
-- 
2.43.0


From 6ad2d089f58d4b90d3410d365292e91320f919df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 19/23] fix: keep the current session when setting up a new one
 fails

---
 session/session.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/session/session.go b/session/session.go
index 7252442..d62c13a 100644
--- a/session/session.go
+++ b/session/session.go
@@ -169,17 +169,18 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 		parameters.SetOurOneTimePreKey(nil)
 	}
 
-	// If this is a fresh record, archive our current state.
-	if !sessionRecord.IsFresh() {
-		sessionRecord.ArchiveCurrentState()
-	}
-
 	///////// Initialize our session /////////
-	sessionState := sessionRecord.SessionState()
 	derivedKeys, sessionErr := ratchet.CalculateReceiverSession(parameters)
 	if sessionErr != nil {
 		return nil, sessionErr
 	}
+
+	// If this is not a fresh record, archive our current state.
+	if !sessionRecord.IsFresh() {
+		sessionRecord.ArchiveCurrentState()
+	}
+
+	sessionState := sessionRecord.SessionState()
 	sessionState.SetVersion(protocol.CurrentVersion)
 	sessionState.SetRemoteIdentityKey(parameters.TheirIdentityKey())
 	sessionState.SetLocalIdentityKey(parameters.OurIdentityKeyPair().PublicKey())
@@ -238,13 +239,7 @@ func (b *Builder) ProcessBundle(preKey *prekey.Bundle) error {
 	parameters.SetTheirRatchetKey(theirSignedPreKey)
 	parameters.SetTheirOneTimePreKey(theirOneTimePreKey)
 
-	// If this is a fresh record, archive our current state.
-	if !sessionRecord.IsFresh() {
-		sessionRecord.ArchiveCurrentState()
-	}
-
 	///////// Initialize our session /////////
-	sessionState := sessionRecord.SessionState()
 	derivedKeys, sessionErr := ratchet.CalculateSenderSession(parameters)
 	if sessionErr != nil {
 		return sessionErr
@@ -263,7 +258,14 @@ func (b *Builder) ProcessBundle(preKey *prekey.Bundle) error {
 		return chainErr
 	}
 
+	// If this is not a fresh record, archive our current state. Nothing can fail from
+	// here on, so a failure leaves the current session as it was.
+	if !sessionRecord.IsFresh() {
+		sessionRecord.ArchiveCurrentState()
+	}
+
 	// Calculate the sender session.
+	sessionState := sessionRecord.SessionState()
 	sessionState.SetVersion(protocol.CurrentVersion)
 	sessionState.SetRemoteIdentityKey(parameters.TheirIdentityKey())
 	sessionState.SetLocalIdentityKey(parameters.OurIdentityKey().PublicKey())
-- 
2.43.0


From 981c597bfcbbf66b26be3e68fe3ad03383f085b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:08 +0000
Subject: [PATCH 20/23] fix: decrypt on a copy of the session record, so that
 failures do not change a live record

---
 session/cipher.go       | 10 ++++++----
 state/record/session.go |  9 +++++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/session/cipher.go b/session/cipher.go
index b5f6994..13d40a7 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -145,8 +145,9 @@ func (d *Cipher) DecryptAndGetKey(ciphertextMessage *protocol.SignalMessage) ([]
 		return nil, nil, errors.New("No session for: " + d.remoteAddress.String())
 	}
 
-	// Load the session record from our session store and decrypt the message.
-	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
+	// Load the session record from our session store and decrypt the message. This is done
+	// with a copy, so that a store that keeps the record itself has it unchanged on failure.
+	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress).Copy()
 	plaintext, messageKeys, err := d.DecryptWithRecord(sessionRecord, ciphertextMessage)
 	if err != nil {
 		return nil, nil, err
@@ -172,8 +173,9 @@ func (d *Cipher) DecryptMessageReturnKey(ciphertextMessage *protocol.PreKeySigna
 		return nil, nil, errors.New("No session builder to process a prekey message with")
 	}
 
-	// Load or create session record for this session.
-	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
+	// Load or create session record for this session. The message may turn out to be invalid,
+	// so this works on a copy, too.
+	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress).Copy()
 	unsignedPreKeyID, newSession, err := d.builder.process(sessionRecord, ciphertextMessage)
 	if err != nil {
 		return nil, nil, err
diff --git a/state/record/session.go b/state/record/session.go
index eacad08..fa7d06e 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -107,6 +107,15 @@ type Session struct {
 	fresh          bool
 }
 
+// Copy returns a copy of the session record. Changes to the copy, or to its current
+// state, do not change the original.
+func (r *Session) Copy() *Session {
+	recordCopy := *r
+	recordCopy.sessionState = r.sessionState.Copy()
+	recordCopy.previousStates = append([]*State(nil), r.previousStates...)
+	return &recordCopy
+}
+
 // SetState sets the session record's current state to the given
 // one.
 func (r *Session) SetState(sessionState *State) {
-- 
2.43.0


From dfda871ab491cd4a3891c3e6f7d2c52a95e6a77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:47 +0000
Subject: [PATCH 21/23] fix: decrypt group messages on a copy of the sender key
 record, so that failures do not change a live record

---
 groups/cipher.go                  |  4 ++++
 groups/state/record/sender_key.go | 14 ++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/groups/cipher.go b/groups/cipher.go
index f11118e..d33d787 100644
--- a/groups/cipher.go
+++ b/groups/cipher.go
@@ -85,6 +85,10 @@ func (c *GroupCipher) Decrypt(senderKeyMessage *protocol.SenderKeyMessage) ([]by
 		return nil, errors.New("No sender key for: " + c.senderKeyID.GroupID())
 	}
 
+	// Decrypt with a copy of the record, so that a store that keeps the record itself
+	// has it unchanged on failure.
+	keyRecord = keyRecord.Copy()
+
 	// Get the senderkey state by id.
 	senderKeyState, err := keyRecord.GetSenderKeyStateByID(senderKeyMessage.KeyID())
 	if err != nil {
diff --git a/groups/state/record/sender_key.go b/groups/state/record/sender_key.go
index bf16da1..bc6a8e0 100644
--- a/groups/state/record/sender_key.go
+++ b/groups/state/record/sender_key.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 
 	"github.com/prospik/libsignal-protocol-go/ecc"
+	"github.com/prospik/libsignal-protocol-go/groups/ratchet"
 )
 
 // SenderKeySerializer is an interface for serializing and deserializing
@@ -81,6 +82,19 @@ type SenderKey struct {
 	stateSerializer SenderKeyStateSerializer
 }
 
+// Copy returns a copy of the sender key record. Changes to the states of the copy do
+// not change the original.
+func (k *SenderKey) Copy() *SenderKey {
+	recordCopy := *k
+	recordCopy.senderKeyStates = make([]*SenderKeyState, len(k.senderKeyStates))
+	for i := range k.senderKeyStates {
+		stateCopy := *k.senderKeyStates[i]
+		stateCopy.keys = append([]*ratchet.SenderMessageKey(nil), stateCopy.keys...)
+		recordCopy.senderKeyStates[i] = &stateCopy
+	}
+	return &recordCopy
+}
+
 // SenderKeyState will return the first sender key state in the record's
 // list of sender key states.
 func (k *SenderKey) SenderKeyState() (*SenderKeyState, error) {
-- 
2.43.0


From c72604cf3519109957506180b90e59d888912896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:20 +0000
Subject: [PATCH 22/23] fix: compare complete base keys to decide which side of
 a symmetric session acts as the sender

---
 ratchet/ratchet.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ratchet/ratchet.go b/ratchet/ratchet.go
index df96ca9..c087186 100644
--- a/ratchet/ratchet.go
+++ b/ratchet/ratchet.go
@@ -3,8 +3,8 @@
 package ratchet
 
 import (
+	"bytes"
 	"encoding/base64"
-	"encoding/binary"
 
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/kdf"
@@ -187,11 +187,8 @@ func CalculateSymmetricSession(parameters *SymmetricParameters) (*session.KeyPai
 }
 
 // isSender is a private method for determining if a symmetric session should
-// be calculated as the sender or receiver. It does so by converting the given
-// keys into integers and comparing the size of those integers.
+// be calculated as the sender or receiver. It does so by comparing the given
+// keys as big-endian integers.
 func isSender(ourKey, theirKey ecc.ECPublicKeyable) bool {
-	ourKeyInt := binary.BigEndian.Uint32(ourKey.Serialize())
-	theirKeyInt := binary.BigEndian.Uint32(theirKey.Serialize())
-
-	return ourKeyInt < theirKeyInt
+	return bytes.Compare(ourKey.Serialize(), theirKey.Serialize()) < 0
 }
-- 
2.43.0


From cd3e336f814ee254296d8cf36e84e635b4473982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:21 +0000
Subject: [PATCH 23/23] fix: refuse to encrypt with an initialization vector of
 the wrong size instead of panicking

---
 cipher/cbc.go    | 3 +++
 cipher/cipher.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cipher/cbc.go b/cipher/cbc.go
index 02157d2..c3223a3 100644
--- a/cipher/cbc.go
+++ b/cipher/cbc.go
@@ -83,6 +83,9 @@ func EncryptCbc(iv, key, plaintext []byte) ([]byte, error) {
 		cbc := cipher.NewCBCEncrypter(block, iv)
 		cbc.CryptBlocks(ciphertext[aes.BlockSize:], plaintext)
 	} else {
+		if len(iv) != aes.BlockSize {
+			return nil, fmt.Errorf("iv is not of the block size: %d / %d", len(iv), aes.BlockSize)
+		}
 		ciphertext = make([]byte, len(plaintext))
 
 		cbc := cipher.NewCBCEncrypter(block, iv)
diff --git a/cipher/cipher.go b/cipher/cipher.go
index 9c877bd..762fc59 100644
--- a/cipher/cipher.go
+++ b/cipher/cipher.go
@@ -43,6 +43,9 @@ func Encrypt(iv, key, plaintext []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(iv) != aes.BlockSize {
+		return nil, errors.New("iv is not of the block size")
+	}
 	paddedText, err := pkcs7Pad(plaintext, block.BlockSize())
 	if err != nil {
 		return nil, err
-- 
2.43.0

