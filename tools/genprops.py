#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays readable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=" ".join(statement.split()),
      quantifier=dict(over=over,text=" ".join(qtext.split())),
      why_tests_cant=" ".join(why.split()),
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=None)))
CI="session/cipher.go"; SE="session/session.go"; RS="state/record/session.go"; SS="state/record/state_session.go"; SC="state/record/state_chain.go"
GC="groups/cipher.go"; GB="groups/session_builder.go"; GR="groups/state/record/sender_key.go"; GS="groups/state/record/state_sender_key.go"
SM="protocol/signal_message.go"; PM="protocol/prekey_signal_message.go"; SKM="protocol/sender_key_message.go"; SKD="protocol/sender_key_distribution_message.go"
SP="serialize/proto.go"; SJ="serialize/json.go"

p("C01","Pairwise delivery under loss, delay, reordering, duplication and restarts",
 """Every message a peer encrypts in an established pairwise session decrypts at the other end to exactly the bytes that were sent, whenever it arrives for the first time, in whatever order, with any other messages lost, delayed or duplicated and with either end restarted from its stored records in between, and while both sides keep talking.
 The only exceptions are the documented retention limits: more than 5000 messages ahead on one chain, more than 2000 skipped messages kept per chain, more than 5 receiving chains, and more than 40 archived sessions.
 Each sent message carries the next counter of its sending chain and the length information of the previous chain, and a ratchet key that changes exactly when the conversation turns.""",
 ["schedules","inputs","histories","configurations","fault_sequences"],
 "all delivery schedules and loss/duplication/delay patterns of all interleaved conversations of any plaintexts, with restarts at any point, both serializers",
 "The tests exchange a handful of messages in one fixed order (one out-of-order case) with live in-memory records; they never lose, duplicate or delay across ratchet turns, never reload a record, and use short texts only.",
 [CI,SS,SC,RS,"keys/chain/key.go","keys/root/key.go","cipher/cbc.go",SM],
 [("symmetric and DH ratchet step","session/cipher.go getOrCreateChainKey/getOrCreateMessageKeys"),("skipped key storage","state/record/state_session.go SetMessageKeys/RemoveMessageKeys"),("reload of session state","state/record/state_session.go NewStateFromStructure")],
 [("receiver chains","per remote ratchet key: next chain key and skipped message keys",SC),("sender chain","own ratchet key pair and next chain key",SC)],
 ["return value of Decrypt/DecryptMessage at the receiving node","wire bytes handed to the network"])
p("C02","Pairwise at-most-once decryption",
 """A pairwise message that has been decrypted successfully once is rejected every later time it is presented to the same device, however many other messages, ratchet turns, session re-establishments, promotions of archived sessions and restarts lie in between.
 This holds equally for session-opening (prekey) messages that used a one-time prekey or whose session is still held, and for copies re-wrapped in another message kind.""",
 ["schedules","histories","fault_sequences"],
 "all replay times and all histories in between, including session renegotiation and restart",
 "The tests never deliver any message twice.",
 [CI,RS,SS,SE],
 [("message key removed on use","state/record/state_session.go RemoveMessageKeys"),("old counters rejected","session/cipher.go getOrCreateMessageKeys"),("archived states promoted, not copied","session/cipher.go DecryptWithRecord")],
 [],["result of the second and later deliveries of each wire message"])
p("C03","Pairwise authenticity: only unmodified messages of the peer are accepted",
 """A device accepts a pairwise message only if the peer it is attributed to encrypted exactly that message for this device: a message whose version, ratchet key, counters, ciphertext or MAC, or whose claimed sender identity or base key, was changed, or one that is forged, truncated, spliced from two messages, reflected to its author, re-attributed to another peer whose identity is known, or delivered to another device, is rejected with an error and never yields plaintext.
 An accepted message yields exactly the plaintext its author encrypted (the unauthenticated fields around an opening, such as the registration id, are outside this guarantee).""",
 ["inputs","schedules","histories","fault_sequences"],
 "all corruptions, splices and re-routings of all messages ever on the network, at every point of every conversation",
 "The tests deliver only unmodified messages to the right recipient.",
 [SM,PM,CI,SE,"ecc/curve.go",SP,SJ],
 [("MAC over both identities and the whole message","protocol/signal_message.go getMac/VerifyMac"),("MAC verified before decryption","session/cipher.go DecryptWithState")],
 [],["return value of every delivery of a manipulated message"])
p("C04","Rejected input leaves no trace",
 """When an incoming message - pairwise or group - is rejected, the receiving device's stored sessions, one-time prekeys, signed prekeys, pinned identities and sender keys are exactly what they were before, no new session, pin or key consumption results from it, and every genuine message that would have been accepted before is still accepted afterwards.
 The same holds when processing a bundle is refused.""",
 ["inputs","schedules","histories","fault_sequences"],
 "all rejected inputs (tampered, forged, replayed, misrouted, unparseable, too far ahead, untrusted) at every point of every history",
 "The tests only ever process acceptable input, so no rejection path is followed by a check of state or by further traffic.",
 [CI,SE,RS,SS,GC,GB],
 [("decrypt on a scratch copy, store only on success","session/cipher.go DecryptWithRecord/DecryptWithState"),("identity saved only after authentication","session/cipher.go DecryptMessageReturnKey"),("sender key stored only after success","groups/cipher.go Decrypt")],
 [],["byte image of every store before and after each rejected input","delivery of genuine messages afterwards"])
p("C05","Malformed bytes never crash the process",
 """No byte string coming from the network, from a peer that holds valid keys, or from damaged storage makes any parsing, decryption, session building or record loading call panic or hang: it returns an error or a usable object.
 Calls made in the wrong state - no session, unknown sender key, unknown prekey or signed prekey id, a receive-only sender key used for sending - return an error too.""",
 ["inputs","histories","fault_sequences"],
 "all byte strings (mutations, truncations, splices and structured garbage) fed to every parser and every record loader in every protocol state, including authenticated but ill-formed contents made by a dishonest peer",
 "The tests parse only what the library itself serialized and load nothing damaged.",
 [SP,SJ,PM,SM,SKM,SKD,"ecc/curve.go","cipher/cbc.go","util/bytehelper/byte.go",SS,SC,GR,GS,GC,GB,CI,SE,"provision/cipher.go"],
 [("length and type checks of points","ecc/curve.go DecodePoint"),("structure checks on load","state/record/*.go New...FromStructure"),("missing-record errors","groups/cipher.go, session/session.go")],
 [],["panics and watchdog around every call into the library"])
p("C06","Session establishment from every prekey configuration, in any order",
 """Processing a valid bundle - with a one-time prekey, without any, or with the last-resort prekey - gives the initiator a session all of whose messages sent before the first reply open the same session at the recipient, whichever of them arrives first and in any order, and which continues as an ordinary conversation after the first reply.
 Both sides then agree on each other's identity keys and registration ids, session-opening messages are sent exactly until the first reply is received, and when both sides initiate at once or repeatedly, every message is still delivered and the two sides converge on one session.""",
 ["schedules","inputs","histories","configurations"],
 "all prekey configurations, id values, addresses, arrival orders, repeated and simultaneous initiations, restarts in between",
 "The tests build sessions with one-time prekeys in one direction, delivered in order, only; the no-prekey and last-resort configurations and simultaneous initiation are never run.",
 [SE,CI,RS,SS,PM,"ratchet/ratchet.go","keys/prekey/bundle.go",SP,SJ,"util/keyhelper/key.go","state/record/state_pending_prekey.go"],
 [("X3DH agreement","ratchet/ratchet.go CalculateSenderSession/CalculateReceiverSession"),("recognising an already processed opening","state/record/session.go HasSessionState"),("unacknowledged prekey marker","state/record/state_session.go SetUnacknowledgedPreKeyMessage/ClearUnackPreKeyMessage")],
 [],["kind and header of each message sent","plaintext delivered","remote identity and registration id in the stored session"])
p("C07","One-time prekeys are used at most once and only by authentic openings",
 """A one-time prekey is removed from the store exactly when an authentic session-opening message that names it has been decrypted and its session stored; from then on no other opening naming it succeeds, while further messages of the same opening still do.
 Messages that are rejected, openings that name no one-time prekey, and openings that name the last-resort prekey remove nothing, and after a crash the key is missing only if the session it opened is stored.""",
 ["schedules","inputs","histories","crash_points","fault_sequences"],
 "all arrival orders of openings (including several initiators handed the same prekey), forged openings, crash points between the store operations",
 "The tests use each one-time prekey once, with an honest sender, and never look into the prekey store.",
 [SE,CI,"util/medium/medium.go","util/keyhelper/key.go"],
 [("removal after StoreSession","session/cipher.go DecryptMessageReturnKey"),("missing prekey rejected","session/session.go processV3"),("last-resort id exempted","session/session.go processV3")],
 [],["prekey store contents after every step"])
p("C08","Identity pinning and bundle signatures",
 """Once a peer's identity key has been pinned for an address, neither a bundle nor an opening message nor continued sending or receiving under another identity key is accepted for that address until the application approves the change, and no library call replaces the pin by itself; before first contact the key actually used is the one that becomes pinned, and only once the peer is authenticated or the bundle verified.
 A bundle is accepted only if its signed prekey carries a valid signature by the bundle's identity key.""",
 ["inputs","histories","schedules","fault_sequences"],
 "all bundles and openings under substituted identities or with substituted keys or signatures, before and after pinning, approval and revocation at any time",
 "The tests never use a second identity key for a name nor a bad signature.",
 [SE,CI,"state/store/identity.go","ecc/curve.go","ecc/sign_curve25519.go"],
 [("trust check","session/session.go Process/ProcessBundle, session/cipher.go Encrypt/DecryptAndGetKey"),("signature check","session/session.go ProcessBundle, ecc/sign_curve25519.go verify")],
 [],["identity store contents after every step","result of each attack"])
p("C09","Sending survives crashes without reusing message keys",
 """No two different pairwise messages handed to the network by a device are ever encrypted under the same message key (same ratchet key and counter), wherever the device crashed and restarted from its stored state in between.
 When a send call returns a message, the advance past its key is already durable; after a crash inside a send the session still works.""",
 ["crash_points","histories","schedules"],
 "a crash before or after every individual store operation of every send, in every session state, followed by restart and further sending",
 "The tests never crash, never reload, and never compare ciphertexts.",
 [CI,RS,SS],
 [("advanced chain stored before the message is returned","session/cipher.go Encrypt")],
 [],["(ratchet key, counter) of every wire message","store image at the moment a send returns"])
p("C10","Receiving survives crashes: redelivery works until the receive is durable",
 """If a device crashes anywhere while it processes an incoming message and restarts from its stored state, delivering that message again either succeeds with the right plaintext or is rejected as already processed, the latter only if the session update of the first attempt was stored.
 All other messages of the session remain deliverable afterwards, and a message reported as decrypted has its effect stored at that moment.""",
 ["crash_points","histories","schedules"],
 "a crash before or after every individual store operation of every receive (ordinary and session-opening), followed by restart, redelivery and further traffic",
 "The tests never crash or reload.",
 [CI,SE],
 [("single session commit, then prekey removal","session/cipher.go DecryptMessageReturnKey/DecryptAndGetKey")],
 [],["outcome of redelivery compared with the store log of the crashed attempt"])
p("C11","Forward secrecy of stored state",
 """Once a message has been decrypted (pairwise or group), nothing in the receiving device's stored session and sender-key records allows decrypting that message again, and once a message has been sent nothing in the sending device's session and sender-key records does.
 The private half of a one-time prekey is gone from storage once its opening message has been processed.""",
 ["histories","schedules","inputs"],
 "a seizure of the stored records at every point of every history, tried against every message processed so far",
 "The tests never examine stored state.",
 [CI,SS,SC,GC,GS,"groups/ratchet/sender_chain_key.go","keys/chain/key.go"],
 [("chain keys replaced by successors","keys/chain/key.go NextKey, groups/ratchet/sender_chain_key.go Next"),("used keys removed","state/record/state_session.go RemoveMessageKeys, groups/state/record/state_sender_key.go RemoveSenderMessageKey")],
 [],["decryption attempts with clones of seized storage; scan of the stored bytes for message keys of processed messages"])
p("C12","Post-compromise healing",
 """After an attacker copies all of one device's pairwise session records, as soon as the conversation has turned round completely again (a message from that device under a ratchet key generated after the theft, and an answer that uses it), no later message in either direction can be decrypted with the stolen records.
 Every ratchet key pair a device starts using is fresh and never used in another chain or session.""",
 ["histories","schedules"],
 "theft at every point of every history, with loss, reordering and restarts",
 "The tests never copy state nor compare ratchet keys.",
 [CI,SE,"ecc/curve.go","keys/root/key.go"],
 [("new ratchet key on every received turn","session/cipher.go getOrCreateChainKey"),("root key advanced by DH","keys/root/key.go CreateChain")],
 [],["decryption attempts of later traffic with the stolen store; ratchet keys on the wire"])
p("C13","Bounded retention with exact limits",
 """However hostile or lossy the traffic, a session record keeps at most 40 archived sessions, each session at most 5 receiving chains and each chain at most 2000 skipped message keys, and a sender-key state at most 2000 skipped keys, evicting the oldest first.
 A pairwise message more than 5000 ahead of the next expected one on its chain, or a group message more than 2000 ahead, is rejected, and everything within these limits still decrypts.""",
 ["inputs","histories","schedules"],
 "all traffic patterns that approach and cross each limit, with restarts",
 "The tests stay far below every limit.",
 [CI,SS,RS,GC,GS],
 [("maxFutureMessages, maxMessageKeys, maxReceiverChains, archivedStatesMaxLength","session/cipher.go, state/record/state_session.go, state/record/session.go, groups/cipher.go, groups/state/record/state_sender_key.go")],
 [],["sizes in the stored records after every step","accept/reject at the boundary"])
p("C14","Group delivery under loss, delay, reordering and restarts",
 """Every member that has processed a sender's distribution message decrypts every later group message of that sender, on its first arrival in any order, to exactly the bytes sent, up to 2000 messages ahead and 2000 skipped keys kept, across losses, duplicates, restarts of either side and renewed or repeated distribution messages.
 A member given the distribution message later can decrypt from that point on, and several senders and groups do not disturb each other.""",
 ["schedules","inputs","histories","configurations","fault_sequences"],
 "all delivery schedules per member, any plaintexts, any number of senders, groups, key renewals and restarts, both serializers",
 "The tests send three group messages in one order to one member with live records.",
 [GC,GB,GR,GS,"groups/ratchet/sender_chain_key.go","groups/ratchet/sender_message_key.go",SKM,SKD,SP,SJ],
 [("sender chain ratchet","groups/ratchet/sender_chain_key.go"),("skipped keys","groups/cipher.go getSenderKey"),("record round trip","groups/state/record/sender_key.go")],
 [],["return value of every group decryption","key id and iteration of each group message"])
p("C15","Group messages: at most once, and no access to earlier messages",
 """A group message decrypted once by a member is rejected every later time at that member, across any other traffic, repeated distribution messages and restarts.
 A member whose distribution message was issued after a message was sent cannot decrypt that message.""",
 ["schedules","histories","fault_sequences"],
 "all replay times and join times in all group histories",
 "The tests never deliver a group message twice nor join late.",
 [GC,GB,GR,GS],
 [("old iterations rejected, used keys removed","groups/cipher.go getSenderKey"),("distribution carries the current iteration only","groups/session_builder.go Create"),("first state of an id wins","groups/state/record/sender_key.go GetSenderKeyStateByID")],
 [],["result of repeated and early deliveries"])
p("C16","Group authenticity, also against other members",
 """A member accepts a group message as from a given sender only if that sender produced exactly that message for that group: messages changed in any way, forged by another member who knows the sender key, or moved to another sender, group or key are rejected without plaintext.
 Rejections leave the member's sender-key records unchanged.""",
 ["inputs","schedules","histories","fault_sequences"],
 "all corruptions, insider forgeries, splices and re-routings of group traffic at every point of every history",
 "The tests deliver only genuine messages.",
 [GC,SKM,"ecc/curve.go","ecc/sign_curve25519.go"],
 [("signature verified before key derivation","groups/cipher.go Decrypt"),("signature over version, id, iteration and ciphertext","protocol/sender_key_message.go NewSenderKeyMessage")],
 [],["result of every manipulated delivery","sender-key store image"])
p("C17","Group operations survive crashes",
 """Wherever a device crashes during the creation of a sender key, a group send, or a group receive and restarts from storage, no two different group messages are ever released under the same sender key and iteration, a released distribution message or group message is backed by stored state, and redelivery of a message whose receive was not stored succeeds.
 After a restart an own sender key can still be used for sending and messages signed with it verify.""",
 ["crash_points","histories","schedules"],
 "a crash before or after every store operation of every group call, followed by restart and further traffic",
 "The tests never crash or reload.",
 [GC,GB,GR,GS],
 [("advanced state stored before release","groups/cipher.go Encrypt"),("created key stored before release","groups/session_builder.go Create")],
 [],["(key id, iteration) of every group message; store image at release; redelivery outcome"])
p("C18","Stored records reproduce behaviour exactly",
 """Serializing any session, prekey, signed prekey or sender-key record reached in operation and loading it again - any number of times - yields a record that serializes to the same content and behaves identically in all later operations: same plaintexts, same wire bytes, same bundles, same signatures verified, same timestamps.
 The same holds for messages: parsing what was serialized yields the same fields and the same bytes.""",
 ["histories","inputs","configurations"],
 "all reachable record states, reloaded at any points of any history, both serializers",
 "The tests serialize one fresh session record and compare nothing afterwards.",
 [SJ,SP,RS,SS,SC,"state/record/prekey.go","state/record/signed_prekey.go","state/record/state_pending_prekey.go","state/record/state_pending_key_exchange.go",GR,GS,"keys/message/key.go","keys/chain/key.go"],
 [("structure round trips","state/record/*.go structure/New...FromStructure, groups/state/record/*.go")],
 [],["lock-step comparison of a device that reloads on every access with one that never reloads","re-serialization"])
p("C19","Independent conversations do not influence each other",
 """Operations on different sessions and groups - of one device or several - running interleaved at every store access, log call and random read give each conversation exactly the results it would have had running alone, given the same random bytes.
 No operation reads or writes another conversation's record.""",
 ["schedules","histories"],
 "all interleavings, at the granularity of store, log, serializer and entropy calls, of concurrent operations on distinct sessions and groups",
 "The tests are single-threaded with one operation at a time.",
 [CI,SE,GC,GB,"logger/logger.go","serialize/serializer.go"],
 [("no shared mutable state besides the stores","session/cipher.go, groups/cipher.go"),("addressing by full address","protocol/signal_protocol_address.go, protocol/sender_key_name.go")],
 [],["per-conversation transcript compared with the solo run; addresses of all store calls"])
p("C20","Entropy failures never weaken keys",
 """If the entropy source fails or returns data in short pieces during key generation, bundle processing, encryption or decryption, the operation either fails with an error and leaves stored state unchanged, or every key in its result is made of full-length random data from the source.
 No private key, ratchet key or sender key is ever made from missing, partial or repeated entropy.""",
 ["fault_sequences","inputs","histories"],
 "an error or short read at every individual entropy request of every operation",
 "The tests always have a working entropy source.",
 ["ecc/curve.go","util/keyhelper/key.go",CI,SE,GB],
 [("error propagation of the key generator","ecc/curve.go GenerateKeyPair")],
 [],["public keys and stored private keys compared with the bytes delivered by the entropy source"])
p("C21","Asynchronous helpers complete exactly once with the right result",
 """Each asynchronous signing, verification or key-generation request reports exactly once, to its own completion, either success with the result the synchronous call would give or a failure, whatever the interleaving with other requests; a signature that does not verify is reported as failure.""",
 ["schedules","inputs","fault_sequences"],
 "all interleavings of any number of concurrent requests with delays and entropy failures",
 "The tests start one request and wait for it with a channel.",
 ["ecc/curve.go","util/keyhelper/key.go"],
 [("goroutine per request","ecc/curve.go VerifySignatureAsync/CalculateSignatureAsync, util/keyhelper/key.go GenerateIdentityKeyPairAsync")],
 [],["completion callbacks at quiescence"])
p("C22","Conformance with the published Signal protocol",
 """Messages, bundles and distribution messages the library produces are accepted and decrypted by an independent implementation of X3DH, the Double Ratchet and Sender Keys, and conversely, in every conversation either implementation can have with the other.
 Header fields (counters, previous-chain counters, key ids, registration ids, versions) mean the same to both.""",
 ["inputs","histories","schedules","configurations"],
 "all conversations, orders, losses and prekey configurations with the reference implementation at either end",
 "The tests only talk to the library itself, so a symmetric deviation is invisible.",
 ["ratchet/ratchet.go","keys/root/key.go","keys/chain/key.go","groups/ratchet/sender_message_key.go","kdf/hkdf.go",SM,PM,SKM,SKD,SP,CI,GC],
 [("key derivation constants and layouts","keys/*, ratchet/*, kdf/*, serialize/proto.go")],
 [],["results of both implementations in mixed conversations"])
p("C23","Saved message keys decrypt their message at any later time",
 """The message keys returned when a message is decrypted decrypt that same message to the same plaintext at any later time, however far the session has moved on, after restarts and after the keys themselves were stored and reloaded, and they do so without touching the session.
 They never decrypt to the plaintext of any other message.""",
 ["histories","schedules"],
 "all later times and histories for all messages of all conversations",
 "One test does this once, immediately.",
 [CI,"keys/message/key.go","state/store/message.go"],
 [("keys returned and decryption with a key","session/cipher.go DecryptAndGetKey/DecryptMessageReturnKey/DecryptWithKey")],
 [],["DecryptWithKey results; session store image"])
p("C24","Caller-owned data is never modified and calls are repeatable",
 """No call modifies the bytes or objects its caller passes in - plaintext buffers (including spare capacity), wire buffers, message objects, bundles, keys - nor does the library keep using caller buffers after the call, and returned data is not changed by later calls.
 So a message object whose processing failed, or crashed, can be processed again with the same outcome as a freshly parsed one.""",
 ["inputs","histories","schedules"],
 "all calls with buffers that are shared, have spare capacity, or are overwritten after the call, and repeated use of the same message object",
 "The tests use every buffer once and do not look at it again.",
 ["cipher/cbc.go",CI,GC,SM,SKM,"util/bytehelper/byte.go",SP,SJ],
 [("copying before in-place decryption","session/cipher.go decrypt"),("padding","cipher/cbc.go pad")],
 [],["canaries around and copies of all passed and returned data"])
p("C25","Recovery after session loss",
 """If a device loses its session with a peer - deleted, rolled back to an older copy, or wiped with its identity intact - a new initiation from either side re-establishes communication in both directions within a bounded number of messages once the network delivers, even with old messages still in flight.
 Messages of the old session still decrypt at the side that kept it.""",
 ["histories","fault_sequences","schedules"],
 "session deletion or loss at either side at every point of every history, with old traffic still in flight",
 "The tests never delete or re-establish a session.",
 [SE,CI,RS],
 [("archiving and promotion","state/record/session.go ArchiveCurrentState/PromoteState, session/cipher.go DecryptWithRecord")],
 [],["delivery of all messages sent after re-initiation in a bounded number of rounds"])
p("C26","Provisioning envelope integrity",
 """Decrypting a provisioning envelope with the intended private key yields exactly the plaintext that was sealed, while an envelope whose version, IV, ciphertext or MAC was changed, that was truncated, or that was sealed for another recipient yields an error.
 No corruption of an envelope whatsoever yields any plaintext other than the sealed one, or a crash.""",
 ["inputs","fault_sequences"],
 "all envelopes, all corruptions on the way, all wrong recipients",
 "There is no test of provisioning at all.",
 ["provision/cipher.go","cipher/cbc.go"],
 [("MAC before decryption","provision/cipher.go Decrypt")],
 [],["result of each delivered envelope"])
p("C27","Safety numbers agree exactly when both sides see the same keys",
 """The displayed safety numbers of two parties are identical on both sides whenever each side holds the other's true fingerprint, regardless of which side displays them, and they differ when an intermediary has substituted a fingerprint; the text always consists of 60 digits determined by the first 30 bytes of both fingerprints.""",
 ["inputs","histories"],
 "all pairs of fingerprints, with and without substitution by an intermediary",
 "One test prints one display and compares one constant.",
 ["fingerprint/display.go","fingerprint/fingerprint.go","util/bytehelper/byte.go"],
 [("order-independent concatenation","fingerprint/display.go DisplayText")],
 [],["display texts on both sides"])
p("N01","Secret-dependent timing",
 """No operation on secret keys, message keys or MACs takes an amount of time, or touches memory in a pattern, that depends on the secret values in a way an attacker on the same network or host could measure.""",
 ["inputs"],
 "all secrets and all inputs",
 "Functional tests do not measure time.",
 ["ecc/edwards25519/edwards25519.go",SM,"provision/cipher.go"],
 [("constant-time comparison and field arithmetic","crypto/hmac Equal, ecc/edwards25519")],[],[])
p("N02","Signature scheme algebra",
 """For every key pair and message the signing operation produces a signature that verifies under the matching public key, and no one without the private key can produce a signature that verifies.""",
 ["inputs"],
 "all key pairs, messages and adversaries",
 "Tests sign a few fixed messages.",
 ["ecc/sign_curve25519.go","ecc/edwards25519/edwards25519.go"],
 [("XEdDSA sign/verify","ecc/sign_curve25519.go")],[],[])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        assert x["statement"].count(". ")<=2,x["id"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
