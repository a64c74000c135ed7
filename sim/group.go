package sim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/prospik/libsignal-protocol-go/cipher"
	"github.com/prospik/libsignal-protocol-go/ecc"
	gratchet "github.com/prospik/libsignal-protocol-go/groups/ratchet"
	grecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/protocol"
)

// The symbolic model of sender keys, and the execution of group operations against it.

const (
	maxGroupFuture = 2000
	maxGroupKeys   = 2000
	maxGroupStates = 2000
)

type gKey struct { // one generated sender key
	id      int
	owner   int
	grp     int
	keyID   uint32
	signing []byte
	seed    []byte // chain key at iteration 0
	cipher  [][]byte
	warps   []gWarp
	imports map[int]int // node -> how often it began to hold the key
}

func (k *gKey) held(n int) {
	if k.imports == nil {
		k.imports = map[int]int{}
	}
	k.imports[n]++
}

type gState struct {
	key     int
	keyID   uint32
	next    uint32
	skipped []uint32
	own     bool
	off     uint32 // how far it was moved forward
}

type gRec struct{ states []*gState }

func (r *gRec) clone() *gRec {
	if r == nil {
		return nil
	}
	c := &gRec{}
	for _, s := range r.states {
		x := *s
		x.skipped = append([]uint32(nil), s.skipped...)
		c.states = append(c.states, &x)
	}
	return c
}

// ggm is a genuine group message or distribution message.
type ggm struct {
	label  int
	dist   bool
	from   int
	grp    int
	key    int
	iter   uint32
	off    uint32
	pt     []byte
	wire   []byte
	skm    *wSKM
	skd    *wSKD
	got    map[int]bool
	unsure map[int]bool
	obj    map[int]interface{}
	step   int
}

type groupWorld struct {
	keys    []*gKey
	recs    []map[string]*gRec
	genuine map[string]*ggm
	msgs    map[int]*ggm
	order   []*ggm
	used    map[string]int
}

func newGroupWorld() *groupWorld {
	return &groupWorld{genuine: map[string]*ggm{}, msgs: map[int]*ggm{}, used: map[string]int{}}
}

func (g *groupWorld) rec(idx int) map[string]*gRec {
	for len(g.recs) <= idx {
		g.recs = append(g.recs, map[string]*gRec{})
	}
	return g.recs[idx]
}

func (g *groupWorld) save(idx int) map[string]*gRec {
	c := map[string]*gRec{}
	for k, r := range g.rec(idx) {
		c[k] = r.clone()
	}
	return c
}

func (g *groupWorld) restore(idx int, s map[string]*gRec) {
	g.rec(idx)
	g.recs[idx] = map[string]*gRec{}
	for k, r := range s {
		g.recs[idx][k] = r.clone()
	}
}

var groupNames = []string{"group", "group two", "group::node-a", "", "gröup|1", "group two:1"}

func groupName(i int) string {
	if i >= 0 && i < len(groupNames) {
		return groupNames[i]
	}
	return fmt.Sprintf("group-%d", i)
}

func (w *World) skName(grp int, sender *Node) *protocol.SenderKeyName {
	return protocol.NewSenderKeyName(string([]byte(groupName(grp))), sender.Addr())
}

func (w *World) execGroup(o *Op, a, b *Node) {
	switch o.Kind {
	case "gdist":
		w.opGDist(o, a)
	case "gsend":
		w.opGSend(o, a)
	case "greplay":
		if m := w.g.msgs[o.N]; m != nil {
			for i := range o.Dl {
				w.gschedule(m, o, i)
			}
		}
	case "grotate", "gdel":
		name := skKey(w.skName(o.G, b))
		if o.Kind == "grotate" {
			name = skKey(w.skName(o.G, a))
		}
		delete(a.D.Sender, name)
		if a.liveSK != nil {
			delete(a.liveSK, name)
		}
		delete(w.g.rec(a.Idx), name)
		w.R.Event("%s %d %s", o.Kind, a.Idx, name)
	case "gfill":
		w.opGFill(o, a, b)
	default:
		panic("simulator: unknown operation " + o.Kind)
	}
}

// opGFill: o.N key renewals of sender b, none of whose messages ever comes, reach a.
func (w *World) opGFill(o *Op, a, b *Node) {
	sk := w.skName(o.G, b)
	name := skKey(sk)
	r := NewRNG(hash64("gfill", w.P.Seed, o.ID))
	q := w.g.rec(a.Idx)[name].clone()
	if q == nil || len(a.D.Sender[name]) == 0 {
		return
	}
	rec, err := grecord.NewSenderKeyFromBytes(append([]byte(nil), a.D.Sender[name]...), a.Ser.SenderKeyRecord, a.Ser.SenderKeyState)
	if err != nil {
		w.R.Fail("reload", "stored sender key does not load: %v", err)
		return
	}
	for i := 0; i < o.N; i++ {
		var pub [32]byte
		copy(pub[:], r.Bytes(32))
		id, it := uint32(r.U64()), uint32(r.N(9))
		rec.AddSenderKeyState(id, it, r.Bytes(32), ecc.NewDjbECPublicKey(pub))
		q.states = append(q.states, &gState{key: -1, keyID: id, next: it})
		if len(q.states) > maxGroupStates {
			q.states = q.states[1:]
			w.R.Count("limit:sender key state evicted", 1)
		}
	}
	(&Stores{a}).StoreSenderKey(sk, rec)
	w.g.rec(a.Idx)[name] = q
	w.R.Event("gfill %d %s %d", a.Idx, name, o.N)
	w.gInspect(a, name)
}

func (w *World) gschedule(m *ggm, o *Op, i int) {
	d := o.Dl[i]
	w.at(w.R.Now+d.Delay, o.ID, i, func() { w.gArrive(m, o, i, d) })
	if d.Delay > 1000 {
		w.R.Count("fault:delay", 1)
	}
}

// ownState reads the first state of a stored sender key record.
func (w *World) ownState(n *Node, name string) *grecord.SenderKeyStateStructure {
	b := n.image().Sender[name]
	if b == nil {
		return nil
	}
	st, err := n.Ser.SenderKeyRecord.Deserialize(append([]byte(nil), b...))
	if err != nil || st == nil || len(st.SenderKeyStates) == 0 {
		w.R.Fail("reload", "stored sender key %s does not decode: %v", name, err)
		return nil
	}
	return st.SenderKeyStates[0]
}

func (w *World) gInspect(n *Node, name string) {
	b := n.image().Sender[name]
	if b == nil || len(b) > 600000 && !w.R.tags["retain"] {
		return
	}
	st, err := n.Ser.SenderKeyRecord.Deserialize(append([]byte(nil), b...))
	if err != nil {
		w.R.Fail("reload", "stored sender key %s does not decode: %v", name, err)
		return
	}
	if len(st.SenderKeyStates) > maxGroupStates {
		w.R.Fail("retain", "%d sender key states are kept", len(st.SenderKeyStates))
	}
	for _, s := range st.SenderKeyStates {
		if len(s.Keys) > maxGroupKeys {
			w.R.Fail("retain", "%d skipped group keys are kept", len(s.Keys))
		}
	}
}

func onlyKey(diffs []string, name string) string {
	for _, d := range diffs {
		if !strings.HasPrefix(d, "senderkey["+name+"]") {
			return d
		}
	}
	return ""
}

// ---------------------------------------------------------------- create and send

func (w *World) opGDist(o *Op, a *Node) {
	sk := w.skName(o.G, a)
	name := skKey(sk)
	rec := w.g.rec(a.Idx)[name]
	fresh := rec == nil || len(rec.states) == 0
	before := a.image()
	var msg *protocol.SenderKeyDistributionMessage
	out := a.call(w.seedFor(o, 0), o.Crash, o.Ent, func() error {
		var err error
		msg, err = a.groupBuilder().Create(sk)
		return err
	})
	after := a.image()
	w.R.Event("gdist %d g%d #%d: %s", a.Idx, o.G, o.ID, out)
	if w.anomalies(out, "group Create") {
		return
	}
	diffs := before.diff(after)
	stored := out.ctl.did("StoreSenderKey", name)
	if x := onlyKey(diffs, name); x != "" {
		w.R.Fail("state", "creating a sender key changed %s", x)
	}
	if !fresh && len(diffs) > 0 {
		w.R.Fail("state", "creating another distribution message changed %v", diffs)
	}
	if fresh && stored {
		s := w.ownState(a, name)
		if s == nil {
			return
		}
		k := &gKey{id: len(w.g.keys), owner: a.Idx, grp: o.G, keyID: s.KeyID, signing: append([]byte(nil), s.SigningKeyPublic...)}
		if s.SenderChainKey != nil {
			k.seed = append([]byte(nil), s.SenderChainKey.ChainKey...)
		}
		w.g.keys = append(w.g.keys, k)
		rec = &gRec{states: []*gState{{key: k.id, keyID: k.keyID, own: true}}}
		w.g.rec(a.Idx)[name] = rec
		if w.seen[string(k.signing)] || w.seen["seed"+string(k.seed)] {
			w.R.Fail("heal", "new sender key uses an old signing key or chain key")
		}
		w.noteKey(k.signing)
		w.seen["seed"+string(k.seed)] = true
		if w.P.Cfg.EntCheck {
			w.fromEntropy(k.signing, out.entLog, "signing key")
			if len(k.seed) != 32 || !bytes.Contains(out.entLog, k.seed) {
				w.R.Fail("entropy", "sender chain key is not made from the bytes the entropy source delivered")
			}
		}
	}
	if out.entBad > 0 {
		w.R.Count("fault:entropy failure", 1)
		w.R.Res.Nontrivial++
	}
	if out.crashed {
		w.R.Count("fault:crash in group create", 1)
		w.R.Res.Nontrivial++
		return
	}
	if !out.ok() {
		if len(diffs) > 0 {
			w.R.Fail("entropy", "failed group Create changed state: %v", diffs)
		}
		if out.entBad == 0 {
			w.R.Fail("gdeliver", "group Create fails: %s", out.why())
		}
		return
	}
	if fresh && !stored {
		w.R.Fail("durable", "a distribution message was returned before its sender key was stored")
		return
	}
	if msg == nil {
		w.R.Fail("gdeliver", "group Create returns neither a distribution message nor an error")
		return
	}
	st := rec.states[0]
	k := w.g.keys[st.key]
	wire := msg.Serialize()
	w.keep(fmt.Sprintf("wire form of distribution message #%d", o.ID), wire)
	wire = append([]byte(nil), wire...)
	w.R.Event("wire %s", digest(wire))
	m := &ggm{label: o.ID, dist: true, from: a.Idx, grp: o.G, key: k.id, iter: st.next, off: st.off, wire: wire, got: map[int]bool{}, unsure: map[int]bool{}, obj: map[int]interface{}{}, step: w.R.Step}
	m.skd = parseSKD(w.P.Cfg.Ser, wire)
	if m.skd == nil {
		w.R.Fail("header", "distribution message does not parse")
		return
	}
	if m.skd.Ver != 3 || m.skd.ID != st.keyID || m.skd.Iter != st.next || !eq(m.skd.Signing, k.signing) {
		w.R.Fail("header", "distribution message #%d: version %d id %d iteration %d, expected 3, %d, %d", o.ID, m.skd.Ver, m.skd.ID, m.skd.Iter, st.keyID, st.next)
	}
	if m.skd.ID == st.keyID && m.skd.Iter < st.next {
		w.R.Fail("early", "distribution message #%d, made after %d messages were sent, starts at iteration %d", o.ID, st.next, m.skd.Iter)
	}
	// backed by what is stored
	if s := w.ownState(a, name); s != nil {
		if s.KeyID != m.skd.ID || !eq(s.SigningKeyPublic, m.skd.Signing) || s.SenderChainKey == nil || s.SenderChainKey.Iteration != m.skd.Iter || !eq(s.SenderChainKey.ChainKey, m.skd.Chain) {
			w.R.Fail("durable", "distribution message #%d does not correspond to the stored sender key", o.ID)
		}
		if st.own && !eq(x25519Pub(s.SigningKeyPrivate), m.skd.Signing) {
			w.R.Fail("durable", "the stored private signing key does not belong to distribution message #%d", o.ID)
		}
	}
	// parse and serialize again
	a.call(1, nil, nil, func() error {
		x, err := protocol.NewSenderKeyDistributionMessageFromBytes(append([]byte(nil), wire...), a.Ser.SenderKeyDistributionMessage)
		if err != nil {
			w.R.Fail("reload", "distribution message #%d does not parse: %v", o.ID, err)
		} else if !eq(x.Serialize(), wire) || x.ID() != m.skd.ID || x.Iteration() != m.skd.Iter || !eq(x.ChainKey(), m.skd.Chain) || !eq(x.SignatureKey().Serialize(), m.skd.Signing) {
			w.R.Fail("reload", "distribution message #%d changes when parsed and serialized again", o.ID)
		}
		return nil
	})
	w.g.msgs[o.ID] = m
	w.g.order = append(w.g.order, m)
	for i := range o.Dl {
		w.gschedule(m, o, i)
	}
}

func (w *World) opGSend(o *Op, a *Node) {
	sk := w.skName(o.G, a)
	if o.S == "foreign" { // an attempt to send under somebody else's sender key
		sk = w.skName(o.G, w.nodes[o.B])
	}
	name := skKey(sk)
	rec := w.g.rec(a.Idx)[name]
	expect := rec != nil && len(rec.states) > 0 && rec.states[0].own
	pt := plaintext(w.P.Seed, o.ID, o.Pt)
	buf := make([]byte, len(pt)+37)
	copy(buf, pt)
	for i := len(pt); i < len(buf); i++ {
		buf[i] = 0xA5
	}
	full := append([]byte(nil), buf...)
	before := a.image()
	var msg protocol.CiphertextMessage
	out := a.call(w.seedFor(o, 0), o.Crash, o.Ent, func() error {
		var err error
		msg, err = a.groupCipher(sk).Encrypt(buf[:len(pt)])
		return err
	})
	after := a.image()
	w.R.Event("gsend %d g%d #%d len=%d: %s", a.Idx, o.G, o.ID, len(pt), out)
	if !bytes.Equal(buf, full) {
		w.R.Fail("alias", "group Encrypt changed the caller's plaintext buffer or the memory behind it")
	}
	if w.anomalies(out, "group Encrypt") {
		if expect {
			w.R.Fail("gdeliver", "group Encrypt with an own sender key panics: %v", out.panicV)
		}
		return
	}
	diffs := before.diff(after)
	if !expect {
		if out.ok() {
			w.R.Fail("nosession", "group Encrypt without an own sender key succeeded")
		}
		if len(diffs) > 0 {
			w.R.Fail("state", "refused group Encrypt changed stored state: %v", diffs)
		}
		w.R.Res.Nontrivial++
		return
	}
	if x := onlyKey(diffs, name); x != "" {
		w.R.Fail("state", "group Encrypt changed %s", x)
	}
	st := rec.states[0]
	iter := st.next
	stored := out.ctl.did("StoreSenderKey", name)
	if stored {
		st.next++
	}
	if out.crashed {
		w.R.Count("fault:crash in group send", 1)
		w.R.Res.Nontrivial++
		return
	}
	if !out.ok() {
		if out.entBad > 0 {
			if len(diffs) > 0 {
				w.R.Fail("entropy", "failed group Encrypt changed state: %v", diffs)
			}
			return
		}
		w.R.Fail("gdeliver", "group Encrypt with an own sender key fails: %s", out.why())
		return
	}
	if !stored || (w.P.Cfg.Store == "bytes" && len(diffs) == 0) {
		w.R.Fail("durable", "group Encrypt returned a message before its key was durably used up")
		return
	}
	if w.P.Cfg.Alias {
		for i := range buf {
			buf[i] = 0x5A
		}
	}
	x, ok := msg.(*protocol.SenderKeyMessage)
	if !ok || x == nil || msg.Type() != protocol.SENDERKEY_TYPE {
		w.R.Fail("header", "group Encrypt returned another kind of message")
		return
	}
	wire := x.SignedSerialize()
	w.keep(fmt.Sprintf("wire form of group message #%d", o.ID), wire)
	wire = append([]byte(nil), wire...)
	w.R.Event("wire %s", digest(wire))
	m := &ggm{label: o.ID, from: a.Idx, grp: o.G, key: st.key, iter: iter, pt: pt, wire: wire, got: map[int]bool{}, unsure: map[int]bool{}, obj: map[int]interface{}{}, step: w.R.Step}
	m.skm = parseSKM(w.P.Cfg.Ser, wire)
	if m.skm == nil {
		w.R.Fail("header", "group message does not parse")
		return
	}
	if m.skm.Ver != 3 || m.skm.ID != st.keyID || m.skm.Iter != iter || len(m.skm.Sig) != 64 {
		w.R.Fail("header", "group message #%d: version %d id %d iteration %d signature %d bytes, expected 3, %d, %d, 64", o.ID, m.skm.Ver, m.skm.ID, m.skm.Iter, len(m.skm.Sig), st.keyID, iter)
	}
	u := fmt.Sprintf("%d|%d", m.key, m.skm.Iter)
	if prev, dup := w.g.used[u]; dup && !a.rolled {
		w.R.Fail("keyreuse", "group messages #%d and #%d are encrypted under the same key (iteration %d)", prev, o.ID, m.skm.Iter)
	}
	w.g.used[u] = o.ID
	a.call(1, nil, nil, func() error {
		y, err := protocol.NewSenderKeyMessageFromBytes(append([]byte(nil), wire...), a.Ser.SenderKeyMessage)
		if err != nil {
			w.R.Fail("reload", "group message #%d does not parse: %v", o.ID, err)
			return nil
		}
		sg := y.Signature()
		if !eq(y.SignedSerialize(), wire) || y.KeyID() != m.skm.ID || y.Iteration() != m.skm.Iter || !eq(y.Ciphertext(), m.skm.CT) || !eq(sg[:], m.skm.Sig) || y.Version() != m.skm.Ver {
			w.R.Fail("reload", "group message #%d changes when parsed and serialized again", o.ID)
		}
		if !eq(y.Serialize(), x.Serialize()) {
			w.R.Fail("reload", "signed part of group message #%d changes when parsed", o.ID)
		}
		return nil
	})
	w.g.genuine[m.skm.id()] = m
	w.g.msgs[o.ID] = m
	w.g.order = append(w.g.order, m)
	w.gInspect(a, name)
	for i := range o.Dl {
		w.gschedule(m, o, i)
	}
}

// ---------------------------------------------------------------- receive

type gverdict struct {
	accept bool
	newRec *gRec
	m      *ggm
	why    string
}

func (w *World) judgeGroup(n *Node, name string, s *wSKM) *gverdict {
	v := &gverdict{}
	if s == nil {
		v.why = "unparseable"
		return v
	}
	v.m = w.g.genuine[s.id()]
	rec := w.g.rec(n.Idx)[name]
	if v.m == nil {
		v.why = "not a message the sender made"
		return v
	}
	if rec == nil || len(rec.states) == 0 {
		v.why = "no sender key"
		return v
	}
	idx := -1
	for i, st := range rec.states {
		if st.keyID == s.ID {
			idx = i
			break
		}
	}
	if idx < 0 {
		v.why = "no sender key with this id"
		return v
	}
	st := rec.states[idx]
	if st.key != v.m.key {
		v.why = "signed with another key"
		return v
	}
	q := rec.clone()
	x := q.states[idx]
	if s.Iter < x.next {
		for i, k := range x.skipped {
			if k == s.Iter {
				x.skipped = append(x.skipped[:i], x.skipped[i+1:]...)
				v.accept, v.newRec = true, q
				return v
			}
		}
		v.why = "iteration is gone"
		return v
	}
	if s.Iter-x.next > maxGroupFuture {
		v.why = "too far ahead"
		return v
	}
	for x.next < s.Iter {
		x.skipped = append(x.skipped, x.next)
		if len(x.skipped) > maxGroupKeys {
			x.skipped = x.skipped[1:]
			w.R.Count("limit:skipped group key evicted", 1)
		}
		x.next++
	}
	x.next = s.Iter + 1
	v.accept, v.newRec = true, q
	return v
}

// gManipulate is what the network, another member or an attacker does to group traffic.
func (w *World) gManipulate(m *ggm, o *Op, i int, d Dl) (wire []byte, name *protocol.SenderKeyName, touched bool) {
	ser := w.P.Cfg.Ser
	r := NewRNG(hash64("gtamper", w.P.Seed, o.ID, i, d.P))
	wire = append([]byte(nil), m.wire...)
	name = w.skName(m.grp, w.nodes[m.from])
	if d.Mode == "" || d.Mode == "again" {
		return wire, name, false
	}
	touched = true
	w.R.Count("fault:"+d.Mode, 1)
	w.R.Res.Nontrivial++
	if m.dist {
		switch d.Mode {
		case "bytes", "garbage":
			if d.Mode == "garbage" && r.P(40) {
				return wire[:r.N(min(len(wire), 3))], name, true
			}
			return mangle(r, wire), name, true
		}
		return nil, nil, true
	}
	s := *m.skm
	var other *ggm
	for t := 0; t < 8; t++ {
		x := w.g.order[r.N(len(w.g.order))]
		if !x.dist && x != m {
			other = x
			break
		}
	}
	flip := func(b []byte) []byte {
		c := append([]byte(nil), b...)
		if len(c) > 0 {
			c[r.N(len(c))] ^= 1 << uint(r.N(8))
		}
		return c
	}
	switch d.Mode {
	case "bytes":
		return mangle(r, wire), name, true
	case "garbage":
		b := r.Bytes(r.N(150))
		if r.P(25) {
			b = b[:min(len(b), r.N(3))]
		}
		return b, name, true
	case "iter":
		switch r.N(4) {
		case 0:
			s.Iter++
		case 1:
			s.Iter--
		case 2:
			s.Iter += uint32(r.N(2500))
		case 3:
			s.Iter = uint32(r.U64())
		}
	case "keyid":
		s.ID ^= 1 << uint(r.N(31))
		if other != nil && r.P(50) {
			s.ID = other.skm.ID
		}
	case "ct":
		s.CT = flip(s.CT)
	case "ctcut":
		s.CT = append([]byte{}, s.CT[:len(s.CT)-16*r.N(len(s.CT)/16+1)]...)
	case "sig":
		s.Sig = flip(s.Sig)
		if r.P(20) {
			s.Sig = make([]byte, 64)
		}
	case "ver":
		s.Ver = uint32(r.N(16))
	case "splice":
		if other == nil {
			return nil, nil, true
		}
		switch r.N(3) {
		case 0:
			s.Sig = other.skm.Sig
		case 1:
			s.CT = other.skm.CT
		case 2:
			s.CT, s.Iter = other.skm.CT, other.skm.Iter
		}
	case "unknown":
		if ser == "json" {
			return nil, nil, true
		}
		b := append([]byte{}, wire[:len(wire)-64]...)
		b = pbPutUint(b, 50, 3)
		return append(b, s.Sig...), name, true
	case "insider": // another member, who has the chain key, makes a message of its own
		k := w.g.keys[m.key]
		it := m.iter
		if r.P(60) {
			it += uint32(1 + r.N(5))
		}
		mk := k.messageKey(it)
		if mk == nil {
			return nil, nil, true
		}
		ct, err := cipher.EncryptCbc(mk.Iv(), mk.CipherKey(), []byte("forged by another member"))
		if err != nil {
			return nil, nil, true
		}
		s.CT, s.Iter = ct, it
		switch r.N(4) {
		case 0: // keeps a genuine signature
		case 1:
			s.Sig = make([]byte, 64)
		default: // signs with its own key
			var p [32]byte
			copy(p[:], r.Bytes(32))
			p[0] &= 248
			p[31] = p[31]&127 | 64
			w.R.Ent.Start(hash64("insider", w.P.Seed, o.ID, i), nil)
			sig := ecc.CalculateSignature(ecc.NewDjbECPrivateKey(p), s.signedBytes(ser))
			s.Sig = sig[:]
		}
	case "author": // the sender itself signs a message that cannot be decrypted
		k := w.g.keys[m.key]
		b := w.nodes[m.from].image().Sender[skKey(name)]
		rec, err := grecord.NewSenderKeyFromBytes(b, w.nodes[m.from].Ser.SenderKeyRecord, w.nodes[m.from].Ser.SenderKeyState)
		if err != nil {
			return nil, nil, true
		}
		st, err := rec.GetSenderKeyStateByID(s.ID)
		if err != nil || st.SigningKey().PrivateKey() == nil || !eq(st.SigningKey().PublicKey().Serialize(), k.signing) {
			return nil, nil, true
		}
		if r.P(40) {
			s.Iter += uint32(1 + r.N(6))
		}
		mk := k.messageKey(s.Iter)
		if mk == nil {
			return nil, nil, true
		}
		s.CT = badPadding(r, mk.CipherKey(), mk.Iv())
		w.R.Ent.Start(hash64("author", w.P.Seed, o.ID, i), nil)
		sig := ecc.CalculateSignature(st.SigningKey().PrivateKey(), s.signedBytes(ser))
		s.Sig = sig[:]
	case "movesender":
		c := w.node(d.To + 1 + r.N(3))
		if c == nil || c.Idx == m.from {
			return nil, nil, true
		}
		return wire, w.skName(m.grp, c), true
	case "movegroup":
		return wire, w.skName((m.grp+1+r.N(3))%len(groupNames), w.nodes[m.from]), true
	default:
		return nil, nil, true
	}
	return s.encode(ser), name, true
}

// signedBytes is what the signature covers in either format.
func (w *wSKM) signedBytes(ser string) []byte {
	if ser == "json" {
		c := *w
		c.Sig = nil
		return c.encode("json")
	}
	return w.signedPart()
}

func (w *World) gArrive(m *ggm, o *Op, i int, d Dl) {
	n := w.node(d.To)
	if n == nil {
		return
	}
	wire, sk, touched := w.gManipulate(m, o, i, d)
	if sk == nil {
		return
	}
	if m.dist {
		w.gArriveDist(m, o, i, d, n, wire, sk, touched)
		return
	}
	name := skKey(sk)
	v := w.judgeGroup(n, name, parseSKM(w.P.Cfg.Ser, wire))
	genuine := v.m == m && !touched
	seenBefore := v.m != nil && v.m.got[n.Idx]
	buf := append([]byte(nil), wire...)
	before := n.image()
	var pt []byte
	out := n.call(w.seedFor(o, 1000+i), d.Crash, d.Ent, func() error {
		var x *protocol.SenderKeyMessage
		var err error
		if y, ok := m.obj[n.Idx].(*protocol.SenderKeyMessage); ok && w.P.Cfg.Alias && !touched {
			x = y
			w.R.Count("message object reused", 1)
		} else {
			x, err = protocol.NewSenderKeyMessageFromBytes(buf, n.Ser.SenderKeyMessage)
			if err != nil {
				return err
			}
		}
		if w.P.Cfg.Alias && !touched {
			m.obj[n.Idx] = x
			w.scribble(buf, wire)
		}
		s1 := x.SignedSerialize()
		pt, err = n.groupCipher(sk).Decrypt(x)
		if !eq(s1, x.SignedSerialize()) {
			w.R.Fail("alias", "group Decrypt changed the message object")
		}
		return err
	})
	after := n.image()
	mode := d.Mode
	if mode == "" {
		mode = "genuine"
	}
	w.R.Event("grecv #%d %s at %d as %s (%s): %s, model %v %s", m.label, mode, n.Idx, name, digest(wire), out, v.accept, v.why)
	if v.accept {
		w.R.Count("model:accept", 1)
	} else {
		w.R.Count("model:reject "+v.why, 1)
	}
	if seenBefore {
		w.R.Count("fault:replay", 1)
		w.R.Res.Nontrivial++
	}
	if !bytes.Equal(buf, wire) && !w.P.Cfg.Alias {
		w.R.Fail("alias", "group Decrypt changed the caller's wire buffer")
	}
	diffs := before.diff(after)
	if w.anomalies(out, fmt.Sprintf("receiving group message #%d (%s)", m.label, mode)) {
		if v.accept && genuine {
			w.R.Fail("gdeliver", "group message #%d: receiving a genuine message panics: %v", m.label, out.panicV)
		}
		if len(diffs) > 0 {
			w.R.Fail("state", "panicking group receive changed stored state: %v", diffs)
		}
		return
	}
	stored := out.ctl.did("StoreSenderKey", name)
	if x := onlyKey(diffs, name); x != "" {
		w.R.Fail("state", "receiving group message #%d changed %s", m.label, x)
	}
	if out.crashed {
		w.R.Count("fault:crash in group receive", 1)
		w.R.Res.Nontrivial++
		if !v.accept && len(diffs) > 0 {
			w.R.Fail("state", "crashed group receive of a message to be rejected left %v", diffs)
		}
		if v.accept && stored {
			w.g.rec(n.Idx)[name] = v.newRec
			v.m.unsure[n.Idx] = true
		}
		return
	}
	if !out.ok() {
		if pt != nil {
			w.R.Fail("forge", "group message #%d (%s): rejected, but plaintext was returned", m.label, mode)
		}
		if len(diffs) > 0 {
			w.R.Fail("state", "group message #%d (%s, %s): rejected, but stored state changed: %v", m.label, mode, v.why, diffs)
		}
		if v.accept && genuine && !seenBefore && out.entBad == 0 {
			w.R.Fail("gdeliver", "group message #%d from %d (iteration %d) is rejected at %d: %s", m.label, m.from, m.iter, n.Idx, out.why())
		} else if v.accept {
			w.R.Count("model:may", 1)
		}
		return
	}
	if !v.accept {
		tag := "forge"
		switch {
		case v.m != nil && v.m.unsure[n.Idx]:
			w.halted = true
			return
		case seenBefore:
			tag = "replay"
		case v.why == "too far ahead":
			tag = "limit"
		case v.why == "iteration is gone" && !touched:
			tag = "early"
		}
		w.R.Fail(tag, "group message #%d (%s) is accepted at %d for %s although: %s", m.label, mode, n.Idx, name, v.why)
		if touched && tag != "forge" {
			w.R.Fail("forge", "group message #%d (%s) is accepted although: %s", m.label, mode, v.why)
		}
		return
	}
	if !bytes.Equal(pt, v.m.pt) {
		w.R.Fail("gplaintext", "group message #%d decrypts to %d bytes %s instead of %d bytes %s", m.label, len(pt), short(pt), len(v.m.pt), short(v.m.pt))
	}
	if !stored || (w.P.Cfg.Store == "bytes" && len(diffs) == 0) {
		w.R.Fail("durable", "group message #%d is reported as decrypted but the sender key was not stored", m.label)
	}
	w.g.rec(n.Idx)[name] = v.newRec
	v.m.got[n.Idx] = true
	delete(v.m.unsure, n.Idx)
	w.R.Count("delivered", 1)
	if w.P.Cfg.Alias && o.ID%3 == 0 {
		for k := range pt {
			pt[k] = 0xEE
		}
	} else {
		w.keep(fmt.Sprintf("plaintext of group message #%d", m.label), pt)
	}
	w.gInspect(n, name)
	if w.P.Cfg.Alias && NewRNG(uint64(o.ID)).P(50) && !touched && len(w.R.Res.Violations) == 0 {
		o2 := *o
		o2.ID = o.ID*2 + 1
		w.gArrive(m, &o2, i+500, Dl{To: d.To})
	}
}

func (w *World) gArriveDist(m *ggm, o *Op, i int, d Dl, n *Node, wire []byte, sk *protocol.SenderKeyName, touched bool) {
	name := skKey(sk)
	buf := append([]byte(nil), wire...)
	before := n.image()
	processed := false
	s := parseSKD(w.P.Cfg.Ser, wire)
	same := s != nil && s.Ver == m.skd.Ver && s.ID == m.skd.ID && s.Iter == m.skd.Iter && eq(s.Chain, m.skd.Chain) && eq(s.Signing, m.skd.Signing)
	out := n.call(w.seedFor(o, 2000+i), d.Crash, d.Ent, func() error {
		var x *protocol.SenderKeyDistributionMessage
		var err error
		if y, ok := m.obj[n.Idx].(*protocol.SenderKeyDistributionMessage); ok && w.P.Cfg.Alias && !touched {
			x = y
		} else {
			x, err = protocol.NewSenderKeyDistributionMessageFromBytes(buf, n.Ser.SenderKeyDistributionMessage)
			if err != nil {
				return err
			}
		}
		if w.P.Cfg.Alias && !touched {
			m.obj[n.Idx] = x
			w.scribble(buf, wire)
		}
		if touched && !same {
			return fmt.Errorf("simulator: distribution messages travel over authenticated sessions")
		}
		s1 := x.Serialize()
		processed = true
		n.groupBuilder().Process(sk, x)
		if !eq(s1, x.Serialize()) {
			w.R.Fail("alias", "processing changed the distribution message object")
		}
		return nil
	})
	after := n.image()
	w.R.Event("gdistrecv #%d at %d as %s: %s", m.label, n.Idx, name, out)
	if w.anomalies(out, "processing a distribution message") {
		if !touched {
			w.R.Fail("gdeliver", "processing distribution message #%d panics: %v", m.label, out.panicV)
		}
		return
	}
	diffs := before.diff(after)
	if x := onlyKey(diffs, name); x != "" {
		w.R.Fail("state", "processing distribution message #%d changed %s", m.label, x)
	}
	stored := out.ctl.did("StoreSenderKey", name)
	if out.crashed {
		w.R.Count("fault:crash in group process", 1)
	}
	if !touched && !out.crashed && !out.ok() {
		w.R.Fail("gdeliver", "distribution message #%d is refused: %s", m.label, out.why())
		return
	}
	if processed && !out.crashed && !stored {
		w.R.Fail("durable", "distribution message #%d was processed without being stored", m.label)
		return
	}
	if !stored {
		return
	}
	m.got[n.Idx] = true
	q := w.g.rec(n.Idx)[name].clone()
	if q == nil {
		q = &gRec{}
	}
	for _, x := range q.states {
		if x.keyID == m.skd.ID && x.key == m.key {
			w.gInspect(n, name) // another copy of a key that is already known
			return
		}
	}
	q.states = append(q.states, &gState{key: m.key, keyID: m.skd.ID, next: m.skd.Iter, off: m.off})
	w.g.keys[m.key].held(n.Idx)
	if len(q.states) > maxGroupStates {
		q.states = q.states[1:]
		w.R.Count("limit:sender key state evicted", 1)
	}
	w.g.rec(n.Idx)[name] = q
	w.gInspect(n, name)
}

// cipherKey is the cipher key of iteration it of a sender key.
func (k *gKey) cipherKey(it uint32) []byte {
	if len(k.cipher) == 0 && len(k.seed) != 32 {
		return nil
	}
	it, ok := k.position(it)
	if !ok {
		return nil
	}
	if uint32(len(k.cipher)) <= it {
		ck := gratchet.NewSenderChainKey(0, k.seed)
		k.cipher = nil
		for i := uint32(0); i <= it+50; i++ {
			mk, err := ck.SenderMessageKey()
			if err != nil {
				return nil
			}
			k.cipher = append(k.cipher, append([]byte(nil), mk.CipherKey()...))
			ck = ck.Next()
		}
	}
	return k.cipher[it]
}

func (g *groupWorld) resave(w *World, n *Node) {
	s := &Stores{n}
	for _, o := range w.nodes {
		for gi := range groupNames {
			sk := w.skName(gi, o)
			k := skKey(sk)
			before, ok := n.D.Sender[k]
			if !ok {
				continue
			}
			for i := 0; i < 2; i++ {
				r := s.LoadSenderKey(sk)
				if r == nil {
					return
				}
				s.StoreSenderKey(sk, r)
			}
			if !eq(before, n.D.Sender[k]) {
				w.R.Fail("reload", "sender key %s of %s changes when loaded and stored", k, n.Key())
			}
			w.senderStateRoundTrip(n, s.LoadSenderKey(sk), before, hash64("sender state", w.P.Seed, w.R.Step, k))
		}
	}
}

// senderStateRoundTrip stores and loads single states of a sender key record, with and without
// further keys.
func (w *World) senderStateRoundTrip(n *Node, rec *grecord.SenderKey, stored []byte, seed uint64) {
	var x grecord.SenderKeyStructure
	if rec == nil || json.Unmarshal(stored, &x) != nil {
		return
	}
	r := NewRNG(seed)
	same := func(what string, a, b *grecord.SenderKeyState, its []uint32) {
		ka, kb := a.SigningKey(), b.SigningKey()
		priv := func(k *ecc.ECKeyPair) string {
			if k.PrivateKey() == nil {
				return "none"
			}
			return fmt.Sprint(k.PrivateKey().Serialize())
		}
		switch {
		case !eq(a.Serialize(), b.Serialize()), a.KeyID() != b.KeyID(), a.SenderChainKey().Iteration() != b.SenderChainKey().Iteration(),
			!eq(a.SenderChainKey().Seed(), b.SenderChainKey().Seed()), !eq(ka.PublicKey().Serialize(), kb.PublicKey().Serialize()), priv(ka) != priv(kb):
			w.R.Fail("reload", "%s changes when it is serialized and loaded", what)
			return
		}
		for _, it := range its {
			if a.HasSenderMessageKey(it) != b.HasSenderMessageKey(it) {
				w.R.Fail("reload", "%s has a key for iteration %d: %v, after loading %v", what, it, a.HasSenderMessageKey(it), !a.HasSenderMessageKey(it))
			}
		}
	}
	load := func(a *grecord.SenderKeyState) *grecord.SenderKeyState {
		b, err := grecord.NewSenderKeyStateFromBytes(append([]byte(nil), a.Serialize()...), n.Ser.SenderKeyState)
		if err != nil {
			w.R.Fail("reload", "a serialized sender key state does not load: %v", err)
			return nil
		}
		return b
	}
	for i, st := range x.SenderKeyStates {
		if i > 4 || st == nil {
			break
		}
		a, err := rec.GetSenderKeyStateByID(st.KeyID)
		if err != nil {
			w.R.Fail("reload", "sender key state %d is not found in its record", st.KeyID)
			return
		}
		its := []uint32{0, 1, a.SenderChainKey().Iteration()}
		for j, k := range st.Keys {
			if j < 20 && k != nil {
				its = append(its, k.Iteration)
			}
		}
		b := load(a)
		if b == nil {
			return
		}
		same("sender key state", a, b, its)
		for j := 0; j < 3; j++ { // skipped keys of any iteration
			it := []uint32{0, 1 << 31, 0xFFFFFFFF, uint32(r.U64())}[r.N(4)]
			k, err := gratchet.NewSenderMessageKey(it, r.Bytes(32))
			if err != nil {
				w.R.Fail("reload", "message key: %v", err)
				return
			}
			b.AddSenderMessageKey(k)
			its = append(its, it)
		}
		b.SetSenderChainKey(gratchet.NewSenderChainKey(uint32(r.U64()), r.Bytes(32)))
		c := load(b)
		if c == nil {
			return
		}
		same("sender key state with added keys", b, c, its)
		for _, it := range its { // and they come out alike
			p, q := b.RemoveSenderMessageKey(it), c.RemoveSenderMessageKey(it)
			if (p == nil) != (q == nil) || p != nil && (p.Iteration() != q.Iteration() || !eq(p.CipherKey(), q.CipherKey()) || !eq(p.Iv(), q.Iv()) || !eq(p.Seed(), q.Seed())) {
				w.R.Fail("reload", "the key of iteration %d of a sender key state changes when it is stored and loaded", it)
			}
		}
		w.R.Count("sender key states reloaded", 2)
	}
}
