package sim

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/message"
	"github.com/prospik/libsignal-protocol-go/keys/session"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/ratchet"
	"github.com/prospik/libsignal-protocol-go/state/record"

	sess "github.com/prospik/libsignal-protocol-go/session"
)

// ---------------------------------------------------------------- sessions between parties that are online

// Parties exchange key exchange messages over a network that delays, loses, repeats, reflects and
// substitutes them, keep what they are waiting for in the session record (or in memory, which a
// restart clears), set up a session with ratchet.CalculateSymmetricSession and talk in it.

// collide lists pairs of base keys whose public keys begin with the same 3 or 4 bytes.
var collide = [][2]uint32{{134693, 69661}, {1080103, 738866}, {426956, 256188}, {428426, 82299}, {1101831, 672850}, {44951, 696144}, {650182, 1088695}, {649307, 1290006},
	{553613, 980334}, {777444, 1304114}, {1391400, 682945}, {1263126, 1108920}, {821368, 483663}, {62866, 375344}, {791297, 572488}, {327159, 950465}}

func collideKey(i uint32) []byte {
	b := make([]byte, 32)
	copy(b, "base key")
	binary.LittleEndian.PutUint32(b[8:], i)
	b[0] &= 248
	b[31] = b[31]&127 | 64
	return b
}

type kexMsg struct {
	n                 int // exchange
	from              int
	ident, base, ratc []byte // public
}

type kexOwn struct {
	n          int
	base, ratc *ecc.ECKeyPair
	mem        bool // only in memory
}

type symParty struct {
	i       int
	node    *Node
	ident   refKey
	pending map[int]*kexOwn // by peer
	done    map[int]map[int]*symSess
}

// symSess is what a party made of an exchange.
type symSess struct {
	root, chain []byte
	mirror      string // the exchange as seen by both: the same on both sides if the keys agree
	seen        []string
	current     bool
}

type symText struct {
	from, to, n int
	key         string // mirror of the session it is sent in
	pt, wire    []byte
	done        bool
}

type symWorld struct {
	w     *World
	r     *Run
	ps    []*symParty
	texts map[int]*symText
	agree map[string][]byte
	pairs map[int]int // which exchange uses which pair of base keys with a common beginning // by mirror
	n     int
}

func symAddr(i int) *protocol.SignalAddress {
	return protocol.NewSignalAddress(fmt.Sprintf("party%d", i), uint32(i+1))
}

func pairOf(k refKey) *ecc.ECKeyPair { return ecc.CreateKeyPair(k.priv) }

func mustPub(b []byte) ecc.ECPublicKeyable {
	p, err := ecc.DecodePoint(append([]byte{}, b...), 0)
	if err != nil {
		panic("simulator: " + err.Error())
	}
	return p
}

func refOf(k *ecc.ECKeyPair) refKey {
	p := k.PrivateKey().Serialize()
	return refKey{append([]byte{}, p[:]...), append([]byte{}, k.PublicKey().Serialize()...)}
}

// guarded runs f and turns a panic into a value.
func guarded(f func() error) (err error, pan interface{}) {
	defer func() { pan = recover() }()
	return f(), nil
}

func (x *symWorld) newKey(o *Op, side int, r *RNG) *ecc.ECKeyPair {
	pair := (o.N - 1) % len(collide)
	if o.N > 0 && x.pairs[pair] == 0 { // two exchanges with the same keys would be one session
		x.pairs[pair] = o.ID
	}
	if o.N > 0 && x.pairs[pair] == o.ID {
		x.r.Res.Nontrivial++
		x.r.Count("base keys with a common beginning", 1)
		c := collide[pair]
		return ecc.CreateKeyPair(collideKey(c[(side+o.M)%2]))
	}
	var f *EntFault
	if o.Ent != nil && side == 0 {
		f = o.Ent
	}
	for try := 0; ; try++ {
		x.r.Ent.Start(hash64("symkey", x.r.P.Seed, o.ID, side, try), f)
		var k *ecc.ECKeyPair
		err, pan := guarded(func() (err error) { k, err = ecc.GenerateKeyPair(); return })
		failed := x.r.Ent.Failed > 0
		got := x.r.Ent.Delivered()
		x.r.Ent.Start(hash64("sym", x.r.P.Seed, o.ID, side), nil)
		if pan != nil {
			x.r.Fail("symmetric", "generating a key pair: panic: %v", pan)
			return nil
		}
		if failed {
			x.r.Count("fault:entropy failure", 1)
			if err == nil {
				x.r.Fail("symmetric", "a key pair is generated although the entropy source failed")
				return nil
			}
			f = nil
			continue
		}
		if err != nil || k == nil || len(got) < 32 {
			x.r.Fail("symmetric", "no key pair: %v", err)
			return nil
		}
		return k
	}
}

func (x *symWorld) exec(o *Op) {
	r := NewRNG(hash64("symop", x.r.P.Seed, o.ID))
	switch o.Kind {
	case "kex": // both parties start an exchange with each other
		a, b := o.A%len(x.ps), o.B%len(x.ps)
		if a == b {
			return
		}
		x.n++
		for s, q := range [][2]int{{a, b}, {b, a}} {
			p := x.ps[q[0]]
			own := &kexOwn{n: x.n, base: x.newKey(o, s, r)}
			if own.base == nil {
				return
			}
			x.r.Ent.Start(hash64("symratchet", x.r.P.Seed, o.ID, s), nil)
			if o.S == "baseratchet" { // one key for both purposes
				own.ratc = own.base
			} else {
				own.ratc, _ = ecc.GenerateKeyPair()
			}
			x.park(p, q[1], own)
			m := &kexMsg{n: x.n, from: p.i, ident: p.ident.pub, base: own.base.PublicKey().Serialize(), ratc: own.ratc.PublicKey().Serialize()}
			for i := range o.Dl {
				d := o.Dl[i]
				if d.To != s {
					continue
				}
				x.w.at(x.r.Now+d.Delay, o.ID, i, func() { x.kexArrives(m, p.i, q[1], d, NewRNG(hash64("symd", x.r.P.Seed, o.ID, i))) })
			}
		}
		x.r.Event("exchange %d between %d and %d", x.n, a, b)
	case "text":
		a, b := o.A%len(x.ps), o.B%len(x.ps)
		if a != b {
			x.text(o, x.ps[a], b)
		}
	case "restart":
		p := x.ps[o.A%len(x.ps)]
		for _, k := range sortedIDs(p.pending) {
			if q := p.pending[k]; q != nil && q.mem {
				delete(p.pending, k)
			} else {
				p.pending[k] = nil // in the record
			}
		}
		p.node.restart()
		x.r.Count("fault:restart", 1)
		x.r.Res.Nontrivial++
		x.r.Event("restart %d", p.i)
	}
}

// park keeps what a party needs until the other's message arrives.
func (x *symWorld) park(p *symParty, peer int, own *kexOwn) {
	rec := (&Stores{p.node}).LoadSession(symAddr(peer))
	own.mem = true
	if !rec.IsFresh() {
		own.mem = false
		rec.SessionState().SetPendingKeyExchange(uint32(own.n), own.base, own.ratc, x.identPair(p))
		(&Stores{p.node}).StoreSession(symAddr(peer), rec)
		x.r.Count("exchanges kept in the record", 1)
	}
	p.pending[peer] = own
}

func (x *symWorld) identPair(p *symParty) *identity.KeyPair {
	k := pairOf(p.ident)
	return identity.NewKeyPair(identity.NewKey(k.PublicKey()), k.PrivateKey())
}

// unpark returns what is waiting and the identity to use with it.
func (x *symWorld) unpark(p *symParty, peer int) (*kexOwn, *identity.KeyPair) {
	own, waiting := p.pending[peer]
	if !waiting {
		return nil, nil
	}
	if own != nil && own.mem {
		return own, x.identPair(p)
	}
	rec := (&Stores{p.node}).LoadSession(symAddr(peer))
	s := rec.SessionState() // or the one that was current then
	for _, q := range rec.PreviousSessionStates() {
		if q.HasPendingKeyExchange() && (!s.HasPendingKeyExchange() || q.PendingKeyExchangeSequence() > s.PendingKeyExchangeSequence()) {
			s = q
		}
	}
	if rec.IsFresh() || !s.HasPendingKeyExchange() {
		x.r.Fail("symmetric", "the exchange party %d keeps in the record with %d is gone", p.i, peer)
		return nil, nil
	}
	kept := &kexOwn{n: int(s.PendingKeyExchangeSequence()), base: s.PendingKeyExchangeBaseKeyPair(), ratc: s.PendingKeyExchangeRatchetKeyPair()}
	id := s.PendingKeyExchangeIdentityKeyPair()
	if own != nil {
		same := func(a, b *ecc.ECKeyPair) bool {
			return a.PrivateKey().Serialize() == b.PrivateKey().Serialize() && a.PublicKey().PublicKey() == b.PublicKey().PublicKey()
		}
		if kept.n != own.n || !same(kept.base, own.base) || !same(kept.ratc, own.ratc) || !eq(id.PublicKey().Serialize(), p.ident.pub) {
			x.r.Fail("symmetric", "the exchange party %d keeps in the record with %d has changed", p.i, peer)
			return nil, nil
		}
	}
	return kept, id
}

func lessKey(a, b []byte) bool { return bytes.Compare(a, b) < 0 }

// kexArrives lets party "to" use a message as coming from "from".
func (x *symWorld) kexArrives(m *kexMsg, from, to int, d Dl, r *RNG) {
	p := x.ps[to]
	peer := from
	ident, base, ratc := m.ident, m.base, m.ratc
	if d.Mode != "" {
		x.r.Count("fault:exchange "+d.Mode, 1)
		x.r.Res.Nontrivial++
	}
	switch d.Mode {
	case "reflect": // back to its author
		p, peer = x.ps[from], to
	case "ident": // someone else's identity
		ident = refGen(r).pub
	case "base":
		base = refGen(r).pub
	case "near": // differs from the recipient's or the author's base key in one bit
		if own := p.pending[peer]; own != nil && r.P(50) {
			base = append([]byte{}, own.base.PublicKey().Serialize()...)
		} else {
			base = append([]byte{}, base...)
		}
		base[1+r.N(32)] ^= 1 << uint(r.N(7))
	case "third":
		third := x.ps[r.N(len(x.ps))]
		ident = third.ident.pub
	}
	own, id := x.unpark(p, peer)
	if own == nil {
		return
	}
	if d.Mode != "any" && d.Mode != "reflect" && own.n != m.n {
		x.r.Event("exchange %d at %d: stale", m.n, p.i)
		return
	}
	their := func() *ratchet.SymmetricParameters {
		return &ratchet.SymmetricParameters{OurBaseKey: own.base, OurRatchetKey: own.ratc, OurIdentityKeyPair: id,
			TheirBaseKey: mustPub(base), TheirRatchetKey: mustPub(ratc), TheirIdentityKey: identity.NewKey(mustPub(ident))}
	}
	calc := func() *session.KeyPair {
		var kp *session.KeyPair
		q := their()
		before := *q
		err, pan := guarded(func() (err error) { kp, err = ratchet.CalculateSymmetricSession(q); return })
		if pan != nil || err != nil || kp == nil {
			x.r.Fail("symmetric", "exchange %d at party %d (%s): no session: %v %v", m.n, p.i, d.Mode, err, pan)
			return nil
		}
		if *q != before || !eq(q.TheirBaseKey.Serialize(), base) || !eq(q.TheirIdentityKey.Serialize(), ident) {
			x.r.Fail("symmetric", "the agreement changes its parameters")
		}
		return kp
	}
	kp := calc()
	if kp == nil {
		return
	}
	root, chain := append([]byte{}, kp.RootKey.Bytes()...), append([]byte{}, kp.ChainKey.Key()...)
	if again := calc(); again == nil || !eq(again.RootKey.Bytes(), root) || !eq(again.ChainKey.Key(), chain) {
		x.r.Fail("symmetric", "the same exchange gives different keys when it is calculated again")
		return
	}
	if kp.ChainKey.Index() != 0 || len(root) != 32 || len(chain) != 32 {
		x.r.Fail("symmetric", "the chain begins at %d, the keys have %d and %d bytes", kp.ChainKey.Index(), len(root), len(chain))
	}
	// what the specification makes of these keys
	ob, oid := refOf(own.base), p.ident
	sender := lessKey(ob.pub, base)
	d1, e1 := refDH(oid, base)
	d2, e2 := refDH(ob, ident)
	d3, e3 := refDH(ob, base)
	if e1 != nil || e2 != nil || e3 != nil {
		return
	}
	if !sender {
		d1, d2 = d2, d1
	}
	wantRoot, wantChain := refX3DH(d1, d2, d3)
	if !eq(root, wantRoot) || !eq(chain, wantChain.key) {
		x.r.Fail("symmetric", "exchange %d (%s): party %d, whose base key %x is %s than %x, derives other keys than the specification", m.n, d.Mode, p.i, ob.pub, map[bool]string{true: "less", false: "not less"}[sender], base)
		return
	}
	sideA := fmt.Sprintf("%x %x", p.ident.pub, ob.pub)
	sideB := fmt.Sprintf("%x %x", ident, base)
	if sideB < sideA {
		sideA, sideB = sideB, sideA
	}
	mirror := sideA + " " + sideB
	both := append(append([]byte{}, root...), chain...)
	if sideA != sideB {
		if v, ok := x.agree[mirror]; ok {
			x.r.Count("agreements compared", 1)
			if !eq(v, both) {
				x.r.Fail("symmetric", "exchange %d (%s): the two parties derive different keys", m.n, d.Mode)
			}
		} else {
			for _, k := range sortedKeys(x.agree) {
				if eq(x.agree[k], both) {
					x.r.Fail("symmetric", "different exchanges give the same keys")
				}
			}
			x.agree[mirror] = both
		}
	}
	x.r.Event("exchange %d at %d %q sender=%v %s", m.n, p.i, d.Mode, sender, short(root))
	x.r.Count(fmt.Sprintf("verdict:%s sender=%v", d.Mode, sender), 1)
	if d.Mode != "" || own.n != m.n { // only a genuine message is accepted
		return
	}
	mirror += fmt.Sprintf(" %x %x", min(string(own.ratc.PublicKey().Serialize()), string(ratc)), max(string(own.ratc.PublicKey().Serialize()), string(ratc)))
	x.establish(p, peer, own, kp, base, ratc, ident, sender, mirror, d, r)
}

// establish does what the library leaves to the application.
func (x *symWorld) establish(p *symParty, peer int, own *kexOwn, kp *session.KeyPair, base, ratc, ident []byte, sender bool, mirror string, d Dl, r *RNG) {
	st := &Stores{p.node}
	rec := st.LoadSession(symAddr(peer))
	state := record.NewState(p.node.Ser.State)
	state.SetVersion(3)
	state.SetRemoteIdentityKey(identity.NewKey(mustPub(ident)))
	state.SetLocalIdentityKey(identity.NewKey(mustPub(p.ident.pub)))
	state.SetLocalRegistrationID(uint32(100 + p.i))
	state.SetRemoteRegistrationID(uint32(100 + peer))
	sb := own.base.PublicKey().Serialize()
	if !sender {
		sb = base
	}
	state.SetSenderBaseKey(sb)
	s := &symSess{root: append([]byte{}, kp.RootKey.Bytes()...), chain: append([]byte{}, kp.ChainKey.Key()...), mirror: mirror}
	if sender {
		x.r.Ent.Start(hash64("symsend", x.r.P.Seed, own.n, p.i), nil)
		sending, err := ecc.GenerateKeyPair()
		if err != nil {
			panic("simulator: " + err.Error())
		}
		var next *session.KeyPair
		err, pan := guarded(func() (err error) { next, err = kp.RootKey.CreateChain(mustPub(ratc), sending); return })
		if err != nil || pan != nil || next == nil {
			x.r.Fail("symmetric", "no sending chain: %v %v", err, pan)
			return
		}
		dh, _ := refDH(refOf(sending), ratc)
		wr, wc := refRootStep(s.root, dh)
		if !eq(next.RootKey.Bytes(), wr) || !eq(next.ChainKey.Key(), wc.key) {
			x.r.Fail("symmetric", "the sending chain of exchange %d differs from the specification", own.n)
			return
		}
		state.AddReceiverChain(mustPub(ratc), kp.ChainKey)
		s.seen = append(s.seen, string(ratc))
		state.SetSenderChain(sending, next.ChainKey)
		state.SetRootKey(next.RootKey)
	} else {
		state.SetSenderChain(own.ratc, kp.ChainKey)
		state.SetRootKey(kp.RootKey)
	}
	switch {
	case !rec.IsFresh():
		rec.ArchiveCurrentState()
		rec.SetState(state)
	case NewRNG(hash64("fromstate", x.r.P.Seed, own.n, p.i)).P(50):
		rec = record.NewSessionFromState(state, p.node.Ser.Session)
		if rec.IsFresh() || len(rec.PreviousSessionStates()) > 0 {
			x.r.Fail("symmetric", "a record made from a session state counts as fresh, or holds others")
		}
	default:
		rec.SetState(state)
	}
	st.StoreSession(symAddr(peer), rec)
	delete(p.pending, peer)
	if p.done[peer] == nil {
		p.done[peer] = map[int]*symSess{}
	}
	for _, o := range p.done[peer] {
		o.current = false
	}
	s.current = true
	p.done[peer][own.n] = s
	x.r.Count("sessions", 1)
}

func (x *symWorld) cipher(p *symParty, peer int) *sess.Cipher {
	s := &Stores{p.node}
	return sess.NewCipherFromSession(symAddr(peer), s, s, s, p.node.Ser.PreKeySignalMessage, p.node.Ser.SignalMessage)
}

func (x *symWorld) text(o *Op, p *symParty, peer int) {
	var s *symSess
	n := 0
	for _, k := range sortedIDs(p.done[peer]) {
		if p.done[peer][k].current {
			s, n = p.done[peer][k], k
		}
	}
	if s == nil {
		return
	}
	t := &symText{from: p.i, to: peer, n: n, key: s.mirror, pt: plaintext(x.r.P.Seed, o.ID, o.Pt)}
	x.r.Ent.Start(hash64("symtext", x.r.P.Seed, o.ID), nil)
	var cm protocol.CiphertextMessage
	err, pan := guarded(func() (err error) { cm, err = x.cipher(p, peer).Encrypt(append([]byte{}, t.pt...)); return })
	if err != nil || pan != nil || cm == nil {
		x.r.Fail("symmetric", "party %d cannot send to %d in the session of exchange %d: %v %v", p.i, peer, n, err, pan)
		return
	}
	if cm.Type() != protocol.WHISPER_TYPE {
		x.r.Fail("symmetric", "a message of a symmetric session is of type %d", cm.Type())
		return
	}
	t.wire = append([]byte{}, cm.Serialize()...)
	x.texts[o.ID] = t
	x.r.Event("text #%d %d->%d in exchange %d", o.ID, p.i, peer, n)
	for i := range o.Dl {
		d := o.Dl[i]
		x.w.at(x.r.Now+d.Delay, o.ID, i, func() { x.textArrives(o, t, d, i) })
	}
}

func (x *symWorld) textArrives(o *Op, t *symText, d Dl, i int) {
	p := x.ps[t.to]
	w := parseSig(x.r.P.Cfg.Ser, t.wire)
	if w == nil {
		x.r.Fail("symmetric", "text #%d is no well-formed message", o.ID)
		return
	}
	s := p.done[t.from][t.n]
	must := "error"
	if s != nil && s.mirror == t.key && !t.done {
		must = "text"
		known := -1
		for k, c := range s.seen {
			if c == string(w.Ratchet) {
				known = k
			}
		}
		if known >= 0 && known < len(s.seen)-maxChains {
			must = "error"
		}
		// the number of archived sessions stays far below the limit
	}
	before := p.node.D.Clone()
	x.r.Ent.Start(hash64("symopen", x.r.P.Seed, o.ID, i), nil)
	var got []byte
	var key *message.Keys
	err, pan := guarded(func() error {
		m, err := protocol.NewSignalMessageFromBytes(append([]byte{}, t.wire...), p.node.Ser.SignalMessage)
		if err != nil {
			return err
		}
		got, key, err = x.cipher(p, t.from).DecryptAndGetKey(m)
		return err
	})
	x.r.Event("text #%d arrives at %d: %v %v (%s)", o.ID, p.i, err == nil, pan, must)
	x.r.Count(fmt.Sprintf("verdict:%s/%v", must, err == nil), 1)
	switch {
	case pan != nil:
		x.r.Fail("symmetric", "text #%d at party %d: panic: %v", o.ID, p.i, pan)
	case must == "text" && err != nil:
		x.r.Fail("symmetric", "text #%d of exchange %d is not readable for party %d: %v", o.ID, t.n, p.i, err)
	case must == "error" && err == nil:
		x.r.Fail("symmetric", "text #%d of exchange %d is read by party %d, which has no session for it or read it before", o.ID, t.n, p.i)
	case err == nil && (!eq(got, t.pt) || key == nil):
		x.r.Fail("symmetric", "text #%d of exchange %d is read as something else", o.ID, t.n)
	case err != nil && !eq(before.Sessions[keyOf(symAddr(t.from))], p.node.D.Sessions[keyOf(symAddr(t.from))]):
		x.r.Fail("symmetric", "text #%d changes the session of party %d although it is refused", o.ID, p.i)
	}
	if err == nil && must == "text" {
		t.done = true
		for _, q := range p.done[t.from] {
			q.current = q == s
		}
		fresh := true
		for _, c := range s.seen {
			fresh = fresh && c != string(w.Ratchet)
		}
		if fresh {
			s.seen = append(s.seen, string(w.Ratchet))
		}
	}
}

func runSymmetric(r *Run) {
	w := newWorld(r)
	x := &symWorld{w: w, r: r, texts: map[int]*symText{}, agree: map[string][]byte{}, pairs: map[int]int{}}
	for i := 0; i < r.P.Cfg.Nodes; i++ {
		a := symAddr(i)
		n := w.addNode(a.Name(), a.DeviceID())
		k := refGen(NewRNG(hash64("symident", r.P.Seed, i)))
		n.D = newDisk()
		n.D.Ident, n.D.IdentPub, n.D.Reg = k.priv, k.pub, uint32(100+i)
		n.restart()
		x.ps = append(x.ps, &symParty{i: i, node: n, ident: k, pending: map[int]*kexOwn{}, done: map[int]map[int]*symSess{}})
	}
	for i := range r.P.Ops {
		o := &r.P.Ops[i]
		w.at(o.At, o.ID, -1, func() { x.exec(o) })
	}
	w.loop()
}

func genSymmetric(calm bool) genF {
	return func(seed uint64) *Plan {
		r := NewRNG(seed)
		p := &Plan{Scenario: "symmetric", Seed: seed, Cfg: Cfg{Nodes: r.Range(2, 3), Ser: r.Str("proto", "json"), Store: "bytes"}}
		t := int64(0)
		id := 0
		add := func(o Op) {
			id++
			o.ID, o.At = id, t
			p.Ops = append(p.Ops, o)
		}
		for i := 0; i < r.Range(4, 12); i++ {
			a := r.N(p.Cfg.Nodes)
			b := (a + 1 + r.N(p.Cfg.Nodes-1)) % p.Cfg.Nodes
			o := Op{Kind: "kex", A: a, B: b, M: r.N(2)}
			if r.P(40) {
				o.N = 1 + r.N(len(collide))
			}
			if r.P(10) {
				o.S = "baseratchet"
			}
			if o.N == 0 && r.P(10) {
				o.Ent = &EntFault{Kind: r.Str("error", "partial", "short"), Bytes: r.N(32)}
			}
			for s := 0; s < 2; s++ {
				for k := r.Pick(10, 60, 20, 10); k > 0; k-- {
					d := Dl{To: s, Delay: int64(1 + r.N(400))}
					if !calm && r.P(40) {
						d.Mode = r.Str("reflect", "ident", "base", "near", "near", "third", "any", "any")
					}
					if r.P(10) {
						d.Delay += int64(r.N(3000))
					}
					o.Dl = append(o.Dl, d)
				}
			}
			add(o)
			t += int64(r.N(500))
			if r.P(15) {
				add(Op{Kind: "restart", A: r.N(p.Cfg.Nodes)})
			}
			for k := r.N(12); k > 0; k-- {
				t += int64(r.N(120))
				f, g := a, b
				if r.P(50) {
					f, g = b, a
				}
				m := Op{Kind: "text", A: f, B: g, Pt: sizeOf(r, 4)}
				for q := r.Pick(10, 70, 20); q > 0; q-- {
					m.Dl = append(m.Dl, Dl{Delay: int64(r.Pick(70, 20, 10)*r.N(600) + 1)})
				}
				add(m)
			}
		}
		return p
	}
}

func init() {
	scenarios["symmetric"] = runSymmetric
	d := mix("C28", 4000, 40000, []string{"symmetric", "reload"}, genSymmetric(true), genSymmetric(false))
	d.real = "ratchet, keys/root, keys/chain, kdf, ecc, state/record, serialize, session.Cipher"
	d.stubs = "key exchange messages and their transport, the application that turns the agreed keys into a session state, stores, entropy"
}
