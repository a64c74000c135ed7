package sim

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"reflect"

	"github.com/prospik/libsignal-protocol-go/ecc"
	gratchet "github.com/prospik/libsignal-protocol-go/groups/ratchet"
	grecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/chain"
	"github.com/prospik/libsignal-protocol-go/keys/message"
	"github.com/prospik/libsignal-protocol-go/keys/root"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/session"
	"github.com/prospik/libsignal-protocol-go/state/record"
)

// goLive makes the stores of a device keep live objects instead of bytes.
func (n *Node) goLive() {
	n.liveSess = map[string]*record.Session{}
	n.liveSK = map[string]*grecord.SenderKey{}
}

// collect gathers all byte strings reachable in a decoded record.
func collect(v reflect.Value, out *[][]byte) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			collect(v.Elem(), out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			collect(v.Field(i), out)
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			*out = append(*out, b)
			return
		}
		for i := 0; i < v.Len(); i++ {
			collect(v.Index(i), out)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			collect(v.MapIndex(k), out)
		}
	case reflect.String:
		*out = append(*out, []byte(v.String()))
	}
}

func blobsOf(x interface{}) [][]byte {
	var out [][]byte
	collect(reflect.ValueOf(x), &out)
	return out
}

func uniq32(bs [][]byte) [][]byte {
	seen := map[string]bool{}
	var out [][]byte
	for _, b := range bs {
		if len(b) == 32 && !seen[string(b)] {
			seen[string(b)] = true
			out = append(out, b)
		}
	}
	return out
}

// forward derives the cipher keys a 32-byte secret yields when it is a chain key.
func forward(b []byte, n int) [][]byte {
	var out [][]byte
	k := chain.NewKey(kdf.DeriveSecrets, b, 0)
	for i := 0; i < n; i++ {
		out = append(out, k.MessageKeys().CipherKey())
		k = k.NextKey()
	}
	return out
}

func rawContains(raw, key []byte) bool {
	if bytes.Contains(raw, key) {
		return true
	}
	e := base64.StdEncoding.EncodeToString(key[:30])
	return bytes.Contains(raw, []byte(e))
}

// opSeize: somebody takes the stored records of a device and tries everything on what it has processed.
func (w *World) opSeize(o *Op, n *Node) {
	if n.rolled {
		return
	}
	w.R.Count("fault:seizure", 1)
	w.R.Event("seize %d", n.Idx)
	img := n.image()
	// private halves of consumed one-time prekeys
	for id, pv := range n.otpkPriv {
		if _, there := n.D.PreKeys[id]; there {
			continue
		}
		for _, m := range []map[string][]byte{img.Sessions, img.Sender} {
			for k, raw := range m {
				if rawContains(raw, pv) {
					w.R.Fail("fs", "the private half of consumed prekey %d is still in record %s", id, k)
				}
			}
		}
		for _, raw := range img.PreKeys {
			if rawContains(raw, pv) {
				w.R.Fail("fs", "the private half of consumed prekey %d is still stored", id)
			}
		}
		w.R.Count("consumed prekeys looked for", 1)
	}
	// pairwise
	known := map[string]*gmsg{}
	var processed []*gmsg
	for _, m := range w.order {
		mine := m.from == n.Idx
		if (mine || m.got[n.Idx]) && m.keys != nil {
			known[string(m.keys)] = m
			processed = append(processed, m)
		}
	}
	gknown := map[string]*ggm{}
	for _, m := range w.g.order {
		if m.dist || !(m.from == n.Idx || m.got[n.Idx]) {
			continue
		}
		if k := w.g.keys[m.key]; k.imports[n.Idx] > 1 || k.owner == n.Idx && k.imports[n.Idx] > 0 {
			continue // handed an old distribution message of it again after it had given the key up
		}
		if ck := w.g.keys[m.key].cipherKey(m.iter); ck != nil {
			gknown[string(ck)] = m
		}
	}
	if len(known)+len(gknown) > 0 {
		w.R.Res.Nontrivial++
	}
	hit := func(k []byte, how string) {
		if m := known[string(k)]; m != nil {
			w.R.Fail("fs", "message #%d, processed by %s, can be decrypted with its stored records: %s", m.label, n.Key(), how)
		}
	}
	ghit := func(k []byte, how string) {
		if m := gknown[string(k)]; m != nil {
			w.R.Fail("fs", "group message #%d, processed by %s, can be decrypted with its stored records: %s", m.label, n.Key(), how)
		}
	}
	fast := 40
	for _, ak := range sortedKeys(img.Sessions) {
		raw := img.Sessions[ak]
		if len(raw) > 300000 {
			fast = 3
		}
		st, err := n.Ser.Session.Deserialize(append([]byte(nil), raw...))
		if err != nil {
			w.R.Fail("reload", "stored session does not decode: %v", err)
			return
		}
		for k, m := range known {
			if rawContains(raw, []byte(k)) {
				hit([]byte(k), fmt.Sprintf("key of #%d is in the record", m.label))
			}
		}
		bl := uniq32(blobsOf(st))
		for _, b := range bl {
			hit(b, "a stored value is its cipher key")
			if x, err := kdf.DeriveSecrets(b, nil, []byte(message.KdfSalt), message.DerivedSecretsSize); err == nil {
				hit(x[:32], "a stored value is the seed of its keys")
			}
			f := fast
			if len(bl) > 200 {
				f = 3
			}
			for _, c := range forward(b, f) {
				hit(c, "a stored value is a chain key it derives from")
			}
			w.R.Count("secrets tried", 1)
		}
		// stored root keys and private keys with the ratchet keys seen on the wire
		if st.SessionState != nil && len(bl) < 60 {
			var wires [][]byte
			sw := map[string]bool{}
			for i := len(processed) - 1; i >= 0 && len(wires) < 3; i-- {
				if r := processed[i].sig.Ratchet; !sw[string(r)] {
					sw[string(r)] = true
					wires = append(wires, r)
				}
			}
			cur := uniq32(blobsOf(&record.SessionStructure{SessionState: st.SessionState}))
			if len(cur) > 14 {
				cur = cur[:14]
			}
			for _, rt := range cur {
				for _, pv := range cur {
					if eq(rt, pv) {
						continue
					}
					for _, x := range chainsFrom(rt, pv, wires) {
						for _, c := range forward(x, 8) {
							hit(c, "its chain can be recomputed from a stored root key and private key")
						}
					}
				}
			}
		}
		// the library itself
		out := n.call(w.seedFor(o, 7), nil, nil, func() error {
			s := &Stores{n}
			for i := len(processed) - 1; i >= 0 && i >= len(processed)-12; i-- {
				m := processed[i]
				rec, err := record.NewSessionFromBytes(append([]byte(nil), raw...), n.Ser.Session, n.Ser.State)
				if err != nil {
					return err
				}
				x, err := protocol.NewSignalMessageFromBytes(m.sig.encode(w.P.Cfg.Ser), n.Ser.SignalMessage)
				if err != nil {
					return err
				}
				c := session.NewCipher(session.NewBuilder(s, s, s, s, n.Addr(), n.Ser), n.Addr())
				states := append([]*record.State{rec.SessionState()}, rec.PreviousSessionStates()...)
				for _, q := range states {
					if pt, _, err := c.DecryptWithState(q, x); err == nil && bytes.Equal(pt, m.pt) {
						w.R.Fail("fs", "message #%d, processed by %s, is decrypted again by a stored session", m.label, n.Key())
					}
				}
			}
			return nil
		})
		w.anomalies(out, "decrypting with a stored record")
	}
	for _, k := range sortedKeys(img.Sender) {
		raw := img.Sender[k]
		if len(raw) > 400000 {
			continue
		}
		st, err := n.Ser.SenderKeyRecord.Deserialize(append([]byte(nil), raw...))
		if err != nil {
			w.R.Fail("reload", "stored sender key does not decode: %v", err)
			return
		}
		for c := range gknown {
			if rawContains(raw, []byte(c)) {
				ghit([]byte(c), "its key is in the record")
			}
		}
		bl := uniq32(blobsOf(st))
		for _, b := range bl {
			ghit(b, "a stored value is its cipher key")
			if mk, err := gratchet.NewSenderMessageKey(0, b); err == nil {
				ghit(mk.CipherKey(), "a stored value is the seed of its key")
			}
			f := 40
			if len(bl) > 200 {
				f = 3
			}
			ck := gratchet.NewSenderChainKey(0, b)
			for i := 0; i < f; i++ {
				if mk, err := ck.SenderMessageKey(); err == nil {
					ghit(mk.CipherKey(), "a stored value is a chain key it derives from")
				}
				ck = ck.Next()
			}
			w.R.Count("secrets tried", 1)
		}
	}
}

// chainsFrom derives the receiving and sending chain keys of a root key and a private key with the
// given public ratchet keys.
func chainsFrom(rt, pv []byte, wires [][]byte) [][]byte {
	var out [][]byte
	var p [32]byte
	copy(p[:], pv)
	for _, wr := range wires {
		pub, err := ecc.DecodePoint(wr, 0)
		if err != nil {
			continue
		}
		pair, err := root.NewKey(kdf.DeriveSecrets, rt).CreateChain(pub, ecc.NewECKeyPair(pub, ecc.NewDjbECPrivateKey(p)))
		if err == nil {
			out = append(out, pair.ChainKey.Key())
		}
	}
	return out
}

// ---------------------------------------------------------------- theft of session records

type theft struct {
	victim int
	step   int
	recs   map[string][]byte // the clone's session records, which the thief keeps up to date
	names  []string
	roots  [][]byte
	privs  [][]byte
	chains [][]byte
	todo   []*gmsg
	seenM  int
}

func (w *World) opTheft(n *Node) {
	img := n.image()
	t := &theft{victim: n.Idx, step: w.R.Step, recs: copyMap(img.Sessions), seenM: 0}
	t.names = sortedKeys(t.recs)
	if len(t.names) == 0 {
		return
	}
	w.R.Count("fault:theft", 1)
	w.R.Event("theft %d", n.Idx)
	w.thefts = append(w.thefts, t)
	for _, k := range t.names {
		t.learn(n, t.recs[k])
	}
}

func (t *theft) learn(n *Node, raw []byte) {
	st, err := n.Ser.Session.Deserialize(append([]byte(nil), raw...))
	if err != nil {
		return
	}
	for _, s := range append(st.PreviousStates, st.SessionState) {
		if s == nil {
			continue
		}
		t.roots = addOnce(t.roots, s.RootKey)
		if s.SenderChain != nil {
			t.privs = addOnce(t.privs, s.SenderChain.SenderRatchetKeyPrivate)
			if s.SenderChain.ChainKey != nil {
				t.chains = addOnce(t.chains, s.SenderChain.ChainKey.Key)
			}
		}
		for _, c := range s.ReceiverChains {
			if c != nil && c.ChainKey != nil {
				t.chains = addOnce(t.chains, c.ChainKey.Key)
			}
			if c != nil {
				t.privs = addOnce(t.privs, c.SenderRatchetKeyPrivate)
			}
		}
	}
}

func addOnce(l [][]byte, b []byte) [][]byte {
	if len(b) != 32 {
		return l
	}
	for _, x := range l {
		if eq(x, b) {
			return l
		}
	}
	return append(l, append([]byte(nil), b...))
}

// healed tells whether a chain can no longer be known to the thief.
func (w *World) healed(t *theft, id int) bool {
	for id >= 0 {
		x := w.toks[id]
		if x.owner == t.victim && x.born > t.step {
			return true
		}
		if w.toks[w.sess[x.sess].spkTok].born > t.step {
			return true
		}
		id = x.basedOn
	}
	return false
}

// followTraffic lets every thief look at the messages on the network.
func (w *World) followTraffic(last bool) {
	for ti, t := range w.thefts {
		n := w.nodes[t.victim]
		if n.rolled {
			continue
		}
		todo := t.todo
		for ; t.seenM < len(w.order); t.seenM++ {
			m := w.order[t.seenM]
			if m.step > t.step && m.from != t.victim && m.to == t.victim {
				todo = append(todo, m)
			}
		}
		t.todo = nil
		for _, m := range todo {
			read := false
			for _, ak := range t.names {
				out := n.call(hash64("thief", w.P.Seed, ti, m.label), nil, nil, func() error {
					rec, err := record.NewSessionFromBytes(append([]byte(nil), t.recs[ak]...), n.Ser.Session, n.Ser.State)
					if err != nil {
						return err
					}
					x, err := protocol.NewSignalMessageFromBytes(m.sig.encode(w.P.Cfg.Ser), n.Ser.SignalMessage)
					if err != nil {
						return err
					}
					s := &Stores{n}
					c := session.NewCipher(session.NewBuilder(s, s, s, s, n.Addr(), n.Ser), n.Addr())
					if _, _, err = c.DecryptWithRecord(rec, x); err != nil {
						return err
					}
					t.recs[ak] = rec.Serialize()
					return nil
				})
				if w.anomalies(out, "decrypting with a stolen record") {
					return
				}
				if out.ok() {
					read = true
					t.learn(n, t.recs[ak])
					if w.healed(t, m.tok) {
						w.R.Fail("heal", "message #%d, sent after the conversation healed, is decrypted with session records stolen from %s", m.label, n.Key())
						return
					}
					w.R.Count("read by thief before healing", 1)
				}
			}
			if !read {
				t.todo = append(t.todo, m)
				if w.healed(t, m.tok) {
					w.R.Res.Nontrivial++
					w.R.Count("healed message not readable", 1)
				}
			}
		}
		if len(t.todo) > 60 {
			t.todo = t.todo[len(t.todo)-60:]
		}
	}
	if !last {
		return
	}
	// secrets of the clone against the ratchet keys of healed messages in both directions
	for _, t := range w.thefts {
		n := w.nodes[t.victim]
		if n.rolled {
			continue
		}
		done := map[int]bool{}
		cnt := 0
		var direct map[string]bool
		for _, m := range w.order {
			if m.step <= t.step || m.keys == nil || !(m.from == t.victim || m.to == t.victim) || !w.healed(t, m.tok) || done[m.tok] || m.ctr > 15 {
				continue
			}
			done[m.tok] = true
			if cnt++; cnt > 4 {
				break
			}
			if direct == nil {
				direct = map[string]bool{}
				for _, c := range t.chains {
					for _, k := range forward(c, 30) {
						direct[string(k)] = true
					}
				}
			}
			w.R.Count("healed chain attacked", 1)
			if direct[string(m.keys)] {
				w.R.Fail("heal", "the key of message #%d follows from a stolen chain key", m.label)
			}
			for i, rt := range t.roots {
				if i > 6 {
					break
				}
				for j, pv := range t.privs {
					if j > 6 {
						break
					}
					for _, x := range chainsFrom(rt, pv, [][]byte{m.sig.Ratchet}) {
						for _, k := range forward(x, 16) {
							if eq(k, m.keys) {
								w.R.Fail("heal", "the key of message #%d follows from a stolen root key and private key", m.label)
							}
						}
					}
				}
			}
		}
	}
}
