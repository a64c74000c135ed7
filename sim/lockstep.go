package sim

import (
	"bytes"
	"fmt"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

// Lock-step comparison: the same plan is executed by devices whose stores keep live objects (which
// are never serialized) and by devices whose stores keep bytes (so that every access reloads the
// record). Every event, and with it every byte on the wire and every plaintext, has to be the same.

func runLockstep(r *Run) {
	var logs [2][]string
	for i, store := range []string{"bytes", "live"} {
		p := r.P.Clone()
		p.Cfg.Store = store
		sub := &Run{P: p, Ent: r.Ent, Keep: true, tags: r.tags, Res: &Result{Seed: p.Seed, Counts: map[string]int64{}}}
		w := newWorld(sub)
		w.run()
		logs[i] = sub.Res.Log
		for k, v := range sub.Res.Counts {
			r.Count(k, v)
		}
		r.Step += sub.Step
		r.Now = max(r.Now, sub.Now)
		for _, v := range sub.Res.Violations {
			r.Step, r.Now = v.Step, v.Time
			r.Fail(v.Tag, "(%s stores) %s", store, v.Msg)
		}
		if len(r.Res.Violations) > 0 {
			for _, l := range sub.Res.Log {
				r.Event("%s", l)
			}
			return
		}
	}
	for i, l := range logs[0] {
		if i >= len(logs[1]) || l != logs[1][i] {
			other := "(nothing)"
			if i < len(logs[1]) {
				other = logs[1][i]
			}
			r.Fail("lockstep", "a device that reloads its records does something else than one that never does: %q, but live %q", l, other)
			return
		}
		r.Event("%s", l)
	}
	if len(logs[0]) != len(logs[1]) {
		r.Fail("lockstep", "a device that reloads its records stops early")
	}
	r.Count("lock-step events compared", int64(len(logs[0])))
	r.Res.Nontrivial++
}

func lockstepGen(g genF) genF {
	return func(s uint64) *Plan {
		p := g(s)
		p.Scenario = "lockstep"
		return p
	}
}

// stateRoundTrip checks single session states, with the optional parts that only an application
// sets, on a copy of a stored record.
func (w *World) stateRoundTrip(n *Node, stored []byte, seed uint64) {
	load := func() *record.Session {
		r, err := record.NewSessionFromBytes(append([]byte(nil), stored...), n.Ser.Session, n.Ser.State)
		if err != nil {
			w.R.Fail("reload", "stored session does not load: %v", err)
			return nil
		}
		return r
	}
	rec := load()
	if rec == nil {
		return
	}
	r := NewRNG(seed)
	states := append([]*record.State{rec.SessionState()}, rec.PreviousSessionStates()...)
	for i, st := range states {
		if i > 4 {
			break
		}
		raw := st.Serialize()
		again, err := record.NewStateFromBytes(append([]byte(nil), raw...), n.Ser.State)
		if err != nil {
			w.R.Fail("reload", "serialized session state does not load: %v", err)
			return
		}
		if !bytes.Equal(again.Serialize(), raw) {
			w.R.Fail("reload", "session state changes when it is serialized and loaded")
		}
		w.sameState(st, again)
		// an unacknowledged prekey message and a pending key exchange, set by the application
		pair := func() *ecc.ECKeyPair {
			k := refGen(r)
			var priv [32]byte
			copy(priv[:], k.priv)
			pub, _ := ecc.DecodePoint(k.pub, 0)
			return ecc.NewECKeyPair(pub, ecc.NewDjbECPrivateKey(priv))
		}
		if r.P(50) {
			var id *optional.Uint32
			switch r.N(4) {
			case 0:
				id = optional.NewEmptyUint32()
			case 1:
				id = optional.NewOptionalUint32(0)
			case 2:
				id = optional.NewOptionalUint32(uint32(r.U64()))
			}
			spk := uint32(r.U64())
			base := pair().PublicKey()
			again.SetUnacknowledgedPreKeyMessage(id, spk, base)
			third, err := record.NewStateFromBytes(again.Serialize(), n.Ser.State)
			if err != nil {
				w.R.Fail("reload", "session state with a pending prekey does not load: %v", err)
				return
			}
			w.sameState(again, third)
			w.R.Count("pending prekeys reloaded", 1)
		}
		if r.P(50) {
			b, q, k := pair(), pair(), pair()
			again.SetPendingKeyExchange(uint32(r.U64()), b, q, identity.NewKeyPair(identity.NewKey(k.PublicKey()), k.PrivateKey()))
			third, err := record.NewStateFromBytes(again.Serialize(), n.Ser.State)
			if err != nil {
				w.R.Fail("reload", "session state with a pending key exchange does not load: %v", err)
				return
			}
			w.sameState(again, third)
			w.R.Count("pending key exchanges reloaded", 1)
		}
	}
}

func (w *World) sameState(a, b *record.State) {
	diff := func(what string, x, y interface{}) {
		if fmt.Sprint(x) != fmt.Sprint(y) {
			w.R.Fail("reload", "%s of a session state is %v after loading, was %v", what, y, x)
		}
	}
	pub := func(k ecc.ECPublicKeyable) interface{} { return fmt.Sprintf("%x", k.Serialize()) }
	pair := func(k *ecc.ECKeyPair) interface{} {
		return fmt.Sprintf("%x %x", k.PublicKey().Serialize(), k.PrivateKey().Serialize())
	}
	if !bytes.Equal(a.Serialize(), b.Serialize()) {
		w.R.Fail("reload", "session state changes when it is serialized and loaded")
	}
	diff("version", a.Version(), b.Version())
	diff("sender base key", a.SenderBaseKey(), b.SenderBaseKey())
	diff("local identity", pub(a.LocalIdentityKey().PublicKey()), pub(b.LocalIdentityKey().PublicKey()))
	diff("remote identity", pub(a.RemoteIdentityKey().PublicKey()), pub(b.RemoteIdentityKey().PublicKey()))
	diff("previous counter", a.PreviousCounter(), b.PreviousCounter())
	diff("root key", a.RootKey().Bytes(), b.RootKey().Bytes())
	diff("registration ids", []uint32{a.LocalRegistrationID(), a.RemoteRegistrationID()}, []uint32{b.LocalRegistrationID(), b.RemoteRegistrationID()})
	diff("sender ratchet key", pair(a.SenderRatchetKeyPair()), pair(b.SenderRatchetKeyPair()))
	diff("sender chain", fmt.Sprint(a.SenderChainKey().Key(), a.SenderChainKey().Index()), fmt.Sprint(b.SenderChainKey().Key(), b.SenderChainKey().Index()))
	diff("pending prekey", a.HasUnacknowledgedPreKeyMessage(), b.HasUnacknowledgedPreKeyMessage())
	if a.HasUnacknowledgedPreKeyMessage() && b.HasUnacknowledgedPreKeyMessage() {
		x, e1 := a.UnackPreKeyMessageItems()
		y, e2 := b.UnackPreKeyMessageItems()
		diff("pending prekey error", e1, e2)
		if e1 == nil && e2 == nil {
			id := func(o *optional.Uint32) string {
				if o == nil || o.IsEmpty {
					return "none"
				}
				return fmt.Sprint(o.Value)
			}
			diff("pending prekey id", id(x.PreKeyID()), id(y.PreKeyID()))
			diff("pending signed prekey id", x.SignedPreKeyID(), y.SignedPreKeyID())
			diff("pending base key", pub(x.BaseKey()), pub(y.BaseKey()))
		}
	}
	diff("pending key exchange", a.HasPendingKeyExchange(), b.HasPendingKeyExchange())
	if a.HasPendingKeyExchange() && b.HasPendingKeyExchange() {
		diff("key exchange sequence", a.PendingKeyExchangeSequence(), b.PendingKeyExchangeSequence())
		diff("key exchange base key", pair(a.PendingKeyExchangeBaseKeyPair()), pair(b.PendingKeyExchangeBaseKeyPair()))
		diff("key exchange ratchet key", pair(a.PendingKeyExchangeRatchetKeyPair()), pair(b.PendingKeyExchangeRatchetKeyPair()))
		x, y := a.PendingKeyExchangeIdentityKeyPair(), b.PendingKeyExchangeIdentityKeyPair()
		diff("key exchange identity", fmt.Sprint(pub(x.PublicKey().PublicKey()), x.PrivateKey().Serialize()), fmt.Sprint(pub(y.PublicKey().PublicKey()), y.PrivateKey().Serialize()))
	}
}

func init() { scenarios["lockstep"] = runLockstep }

// keyRecordRoundTrip stores and loads a prekey and a signed prekey with any contents.
func (w *World) keyRecordRoundTrip(n *Node, seed uint64) {
	r := NewRNG(seed)
	k := refGen(r)
	var priv [32]byte
	copy(priv[:], k.priv)
	pub, _ := ecc.DecodePoint(k.pub, 0)
	kp := ecc.NewECKeyPair(pub, ecc.NewDjbECPrivateKey(priv))
	id := []uint32{0, 1, 7, lastResort, 1 << 31, 0xFFFFFFFF, uint32(r.U64())}[r.N(7)]
	ts := []int64{0, 1, -1, 1 << 62, -1 << 63, 1700000000, int64(r.U64())}[r.N(7)]
	var sig [64]byte
	copy(sig[:], r.Bytes(64))
	p := record.NewPreKey(id, kp, n.Ser.PreKeyRecord)
	q, err := record.NewPreKeyFromBytes(p.Serialize(), n.Ser.PreKeyRecord)
	if err != nil {
		w.R.Fail("reload", "serialized prekey does not load: %v", err)
	} else if q.ID().Value != id || q.ID().IsEmpty != p.ID().IsEmpty || !eq(q.KeyPair().PublicKey().Serialize(), k.pub) || q.KeyPair().PrivateKey().Serialize() != priv || !eq(q.Serialize(), p.Serialize()) {
		w.R.Fail("reload", "prekey %d changes when it is stored and loaded", id)
	}
	s := record.NewSignedPreKey(id, ts, kp, sig, n.Ser.SignedPreKeyRecord)
	t, err := record.NewSignedPreKeyFromBytes(s.Serialize(), n.Ser.SignedPreKeyRecord)
	if err != nil {
		w.R.Fail("reload", "serialized signed prekey does not load: %v", err)
	} else if t.ID() != id || t.Timestamp() != ts || t.Signature() != sig || !eq(t.KeyPair().PublicKey().Serialize(), k.pub) || t.KeyPair().PrivateKey().Serialize() != priv || !eq(t.Serialize(), s.Serialize()) {
		w.R.Fail("reload", "signed prekey %d (time %d) changes when it is stored and loaded", id, ts)
	} else if s.ID() != id || s.Timestamp() != ts || s.Signature() != sig || !eq(s.KeyPair().PublicKey().Serialize(), k.pub) || s.KeyPair().PrivateKey().Serialize() != priv {
		w.R.Fail("reload", "signed prekey %d (time %d) is not what it was made from", id, ts)
	}
	w.R.Count("key records reloaded", 2)
}
