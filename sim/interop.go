package sim

import (
	"bytes"
	"fmt"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/keys/session"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/ratchet"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

// Conversations between one device that runs the library (L) and one that runs the reference
// implementation (R), over a network that loses, delays, duplicates and reorders.

type xmsg struct {
	label int
	toLib bool
	pre   bool
	wire  []byte
	pt    []byte
	got   bool
	sess  *xsess
	ratch string
	group bool
	dist  bool
	iter  uint32
	key   int
}

type xsess struct { // R's side of a session, with what L is known to hold
	s      *refSess
	chains []string // R's ratchet keys in the order in which L accepted them
}

type interop struct {
	w      *World
	l      *Node
	name   string
	dev    uint32
	ident  refKey
	reg    uint32
	spk    map[uint32]refKey
	curSPK uint32
	otpk   map[uint32]refKey
	next   uint32
	sess   []*xsess
	cur    int
	msgs   map[int]*xmsg
	// groups
	own   []*refSender // R's sender keys, the last is the present one
	lsk   map[string]*refSender
	lhas  map[int]uint32 // R's key -> iteration from which L can read
	lgen  int
	rknow map[uint32]bool
	lsent map[string]uint32 // messages L sent under each of its ratchet keys
}

func (x *interop) addr() *protocol.SignalAddress { return protocol.NewSignalAddress(x.name, x.dev) }

func newInterop(w *World, r *RNG) *interop {
	x := &interop{w: w, spk: map[uint32]refKey{}, otpk: map[uint32]refKey{}, msgs: map[int]*xmsg{}, cur: -1, lsk: map[string]*refSender{}, lhas: map[int]uint32{}, rknow: map[uint32]bool{}, lsent: map[string]uint32{}}
	x.l = w.nodes[0]
	x.name, x.dev = "reference", 3
	x.ident = refGen(r)
	x.reg = uint32(r.N(1 << 14))
	x.addSPK(r)
	return x
}

func (x *interop) addSPK(r *RNG) {
	for {
		x.curSPK = uint32(r.N(1 << uint(r.N(24))))
		if _, used := x.spk[x.curSPK]; !used {
			break
		}
	}
	x.spk[x.curSPK] = refGen(r)
}

func (x *interop) exec(o *Op) {
	w := x.w
	r := NewRNG(hash64("x", w.P.Seed, o.ID))
	w.R.Count("op:"+o.Kind, 1)
	switch o.Kind {
	case "linit":
		x.libInit(o, r)
	case "rinit":
		x.refInit(o, r)
	case "lsend":
		x.libSend(o)
	case "rsend":
		x.refSend(o, r)
	case "rspk":
		x.addSPK(r)
	case "lspk":
		w.R.Ent.Start(w.seedFor(o, 0), nil)
		x.l.addSigned(x.l.curSPK + 1)
	case "restart":
		x.l.restart()
	case "lgdist":
		x.libDist(o)
	case "lgsend":
		x.libGSend(o)
	case "lgnew":
		delete(x.l.D.Sender, skKey(x.lname()))
		x.lgen++
	case "rgdist":
		x.refDist(o, r)
	case "rgsend":
		x.refGSend(o, r)
	case "rgnew":
		x.own = nil
	case "sig":
		x.signatures(o, r)
	}
}

func (x *interop) send(m *xmsg, o *Op) {
	x.msgs[m.label] = m
	for i := range o.Dl {
		d := o.Dl[i]
		x.w.at(x.w.R.Now+d.Delay, o.ID, i, func() { x.arrive(m, o, i, d) })
		if i > 0 {
			x.w.R.Count("fault:duplicate", 1)
		}
		if d.Delay > 1000 {
			x.w.R.Count("fault:delay", 1)
		}
	}
	x.w.R.Event("wire #%d %s", m.label, digest(m.wire))
}

func (x *interop) fail(format string, a ...interface{}) { x.w.R.Fail("interop", format, a...) }

func (x *interop) libInit(o *Op, r *RNG) {
	spk := x.spk[x.curSPK]
	sig := refSign(x.ident, spk.pub, r.Bytes(64))
	var s64 [64]byte
	copy(s64[:], sig)
	var id *optional.Uint32
	var otpkPub ecc.ECPublicKeyable
	if o.S != "none" {
		n := x.next
		x.next++
		if o.S == "big" {
			n = 0xFFFFFE - n
		}
		k := refGen(r)
		x.otpk[n] = k
		id = optional.NewOptionalUint32(n)
		otpkPub, _ = ecc.DecodePoint(k.pub, 0)
	} else if r.P(50) {
		id = optional.NewEmptyUint32()
	}
	idp, err := ecc.DecodePoint(x.ident.pub, 0)
	sp, err2 := ecc.DecodePoint(spk.pub, 0)
	if err != nil || err2 != nil {
		x.fail("a key of the reference implementation does not decode")
		return
	}
	b := prekey.NewBundle(x.reg, x.dev, id, x.curSPK, otpkPub, sp, s64, identity.NewKey(idp))
	out := x.l.call(x.w.seedFor(o, 0), nil, nil, func() error { return x.l.builder(x.addr()).ProcessBundle(b) })
	x.w.R.Event("linit %s: %s", o.S, out)
	if !out.ok() {
		x.fail("a bundle made by the reference implementation is refused: %s", out.why())
	}
}

func (x *interop) refInit(o *Op, r *RNG) {
	l := x.l
	k := (&Stores{l}).LoadSignedPreKey(l.curSPK)
	if k == nil {
		return
	}
	sig := k.Signature()
	b := &refBundle{ident: l.D.IdentPub, spk: k.KeyPair().PublicKey().Serialize(), sig: sig[:], spkID: l.curSPK, reg: l.D.Reg}
	kind := o.S
	if kind == "otpk" && len(l.published) == 0 {
		x.w.R.Ent.Start(x.w.seedFor(o, 1), nil)
		l.addPreKeys(3)
	}
	switch kind {
	case "otpk", "big":
		if len(l.published) > 0 {
			b.otpkID = l.published[0]
			l.published = l.published[1:]
			b.otpk = l.pubKeys[b.otpkID].otpk.Serialize()
		}
	case "last":
		b.otpkID = lastResort
		b.otpk = l.pubKeys[lastResort].otpk.Serialize()
	}
	s, err := refInitiate(r, x.ident, x.reg, b)
	if err != nil {
		x.fail("the reference implementation refuses the library's bundle: %v", err)
		return
	}
	x.sess = append(x.sess, &xsess{s: s})
	x.cur = len(x.sess) - 1
	x.w.R.Event("rinit %s", o.S)
}

func (x *interop) libSend(o *Op) {
	pt := plaintext(x.w.P.Seed, o.ID, o.Pt)
	if x.l.D.Sessions[keyOf(x.addr())] == nil {
		return
	}
	var m protocol.CiphertextMessage
	out := x.l.call(x.w.seedFor(o, 0), nil, nil, func() error {
		var err error
		m, err = x.l.cipher(x.addr(), false).Encrypt(append([]byte{}, pt...))
		return err
	})
	if !out.ok() {
		x.fail("Encrypt fails in a conversation with the reference implementation: %s", out.why())
		return
	}
	var sig *wSig
	if t := m.Type(); t != 2 && t != 3 || protocol.WHISPER_TYPE != 2 || protocol.PREKEY_TYPE != 3 || protocol.SENDERKEY_TYPE != 4 || protocol.SENDERKEY_DISTRIBUTION_TYPE != 5 {
		x.fail("message types are numbered %d (of #%d), %d, %d, %d, %d instead of 2 to 5", t, o.ID, protocol.WHISPER_TYPE, protocol.PREKEY_TYPE, protocol.SENDERKEY_TYPE, protocol.SENDERKEY_DISTRIBUTION_TYPE)
	}
	if m.Type() == protocol.PREKEY_TYPE {
		if p := parsePre("proto", m.Serialize()); p != nil {
			sig = p.Sig
		}
	} else {
		sig = parseSig("proto", m.Serialize())
	}
	if sig == nil {
		x.fail("message #%d of the library does not parse", o.ID)
		return
	}
	if n := x.lsent[string(sig.Ratchet)]; sig.Ctr != n {
		x.fail("message #%d of the library carries counter %d, but is number %d under its ratchet key", o.ID, sig.Ctr, n)
	}
	x.lsent[string(sig.Ratchet)]++
	x.send(&xmsg{label: o.ID, pre: m.Type() == protocol.PREKEY_TYPE, wire: append([]byte{}, m.Serialize()...), pt: pt}, o)
}

func (x *interop) refSend(o *Op, r *RNG) {
	if x.cur < 0 {
		return
	}
	s := x.sess[x.cur]
	pt := plaintext(x.w.P.Seed, o.ID, o.Pt)
	w := s.s.encrypt(pt)
	m := &xmsg{label: o.ID, toLib: true, pt: pt, sess: s, ratch: string(w.Ratchet)}
	if s.s.pending {
		m.pre = true
		m.wire = s.s.open(w).encode("proto")
	} else {
		m.wire = w.encode("proto")
	}
	x.send(m, o)
}

func (x *interop) arrive(m *xmsg, o *Op, i int, d Dl) {
	w := x.w
	r := NewRNG(hash64("xa", w.P.Seed, o.ID, i))
	w.R.Res.Nontrivial++
	if m.toLib {
		x.toLib(m, o, i)
		return
	}
	var pt []byte
	var err error
	switch {
	case m.dist:
		s := parseSKD("proto", m.wire)
		if s == nil || m.wire[0] != 0x33 || len(s.Chain) != 32 || len(s.Signing) != 33 {
			x.fail("distribution message #%d does not parse", m.label)
			return
		}
		k := fmt.Sprint(m.key)
		if x.lsk[k] == nil {
			x.lsk[k] = &refSender{id: s.ID, chain: s.Chain, n: s.Iter, verify: s.Signing, skipped: map[uint32][]byte{}}
		}
		m.got = true
		w.R.Event("ref has sender key %s", k)
		return
	case m.group:
		k := x.lsk[fmt.Sprint(m.key)]
		if k == nil {
			return
		}
		s := parseSKM("proto", m.wire)
		if s == nil || m.wire[0] != 0x33 {
			x.fail("group message #%d does not parse", m.label)
			return
		}
		if !m.got && s.Iter < k.n && k.skipped[s.Iter] == nil {
			return // before the distribution message
		}
		pt, err = k.decrypt(s, m.wire)
	default:
		pt, err = x.refReceive(m, r)
	}
	w.R.Event("ref recv #%d: %v", m.label, err)
	if m.got {
		return
	}
	if err != nil {
		x.fail("message #%d of the library (opening=%v group=%v) is not readable by the reference implementation: %v", m.label, m.pre, m.group, err)
		return
	}
	m.got = true
	w.R.Count("delivered to the reference", 1)
	if !bytes.Equal(pt, m.pt) {
		x.fail("message #%d of the library decrypts to another plaintext in the reference implementation", m.label)
	}
}

func (x *interop) refReceive(m *xmsg, r *RNG) ([]byte, error) {
	raw := m.wire
	var s *wSig
	if raw[0] != 0x33 {
		return nil, fmt.Errorf("version byte %x", raw[0])
	}
	if m.pre {
		p := parsePre("proto", raw)
		if p == nil || p.Sig == nil {
			return nil, fmt.Errorf("does not parse")
		}
		if !eq(p.Ident, x.l.D.IdentPub) || p.Reg != x.l.D.Reg {
			return nil, fmt.Errorf("registration id %d or identity key of the header", p.Reg)
		}
		s, raw = p.Sig, p.Inner
		known := false
		for _, y := range x.sess {
			known = known || eq(y.s.base, p.Base)
		}
		if !known {
			spk, ok := x.spk[p.SPK]
			if !ok {
				return nil, fmt.Errorf("signed prekey id %d", p.SPK)
			}
			var ot *refKey
			if p.HasOTPK {
				k, ok := x.otpk[p.OTPK]
				if !ok {
					return nil, fmt.Errorf("one-time prekey id %d", p.OTPK)
				}
				ot = &k
			}
			n, err := refRespond(x.ident, spk, ot, p.Base, p.Ident)
			if err != nil {
				return nil, err
			}
			q, pt, err := n.decrypt(r, s, raw)
			if err != nil {
				return nil, err
			}
			if p.HasOTPK {
				delete(x.otpk, p.OTPK)
			}
			q.reg = x.reg
			x.previous(m, q, s)
			x.sess = append(x.sess, &xsess{s: q, chains: []string{string(spk.pub)}})
			x.cur = len(x.sess) - 1
			return pt, nil
		}
	} else if s = parseSig("proto", raw); s == nil {
		return nil, fmt.Errorf("does not parse")
	}
	var last error = fmt.Errorf("no session")
	order := []int{}
	if x.cur >= 0 {
		order = append(order, x.cur)
	}
	for i := len(x.sess) - 1; i >= 0; i-- {
		if i != x.cur {
			order = append(order, i)
		}
	}
	for _, i := range order {
		q, pt, err := x.sess[i].s.decrypt(r, s, raw)
		if err == nil {
			x.sess[i].s = q
			x.cur = i
			x.previous(m, q, s)
			return pt, nil
		}
		last = err
	}
	return nil, last
}

// previous checks the length of the previous chain in the header of a message of L. R sees every
// chain of L, because L starts the next one only after an answer to the one before.
func (x *interop) previous(m *xmsg, q *refSess, s *wSig) {
	var want, n uint32
	for _, c := range q.order {
		if c == string(s.Ratchet) {
			break
		}
		if n = x.lsent[c]; n == 0 {
			n = 1 // the signed prekey of the answering side is never sent under
		}
		want = n - 1
	}
	if s.Prev != want {
		x.fail("message #%d of the library announces %d as the last counter of the previous chain, which is %d", m.label, s.Prev, want)
	}
}

func (x *interop) toLib(m *xmsg, o *Op, i int) {
	w, l := x.w, x.l
	var pt []byte
	must := !m.got
	wire := append([]byte{}, m.wire...)
	out := l.call(w.seedFor(o, 1000+i), nil, nil, func() error {
		switch {
		case m.dist:
			d, err := protocol.NewSenderKeyDistributionMessageFromBytes(wire, l.Ser.SenderKeyDistributionMessage)
			if err != nil {
				return err
			}
			l.groupBuilder().Process(x.rname(), d)
			return nil
		case m.group:
			from, ok := x.lhas[m.key]
			must = must && ok && m.iter >= from
			d, err := protocol.NewSenderKeyMessageFromBytes(wire, l.Ser.SenderKeyMessage)
			if err != nil {
				return err
			}
			pt, err = l.groupCipher(x.rname()).Decrypt(d)
			return err
		}
		for k := 0; k+5 < len(m.sess.chains); k++ {
			if m.sess.chains[k] == m.ratch {
				must = false // chain evicted
			}
		}
		if m.pre {
			d, err := protocol.NewPreKeySignalMessageFromBytes(wire, l.Ser.PreKeySignalMessage, l.Ser.SignalMessage)
			if err != nil {
				return err
			}
			pt, err = l.cipher(x.addr(), false).DecryptMessage(d)
			return err
		}
		d, err := protocol.NewSignalMessageFromBytes(wire, l.Ser.SignalMessage)
		if err != nil {
			return err
		}
		pt, err = l.cipher(x.addr(), false).Decrypt(d)
		return err
	})
	w.R.Event("lib recv #%d: %s", m.label, out)
	if !out.ok() {
		if must {
			x.fail("message #%d of the reference implementation (opening=%v, group=%v, dist=%v) is rejected: %s", m.label, m.pre, m.group, m.dist, out.why())
		}
		return
	}
	if m.dist {
		if _, ok := x.lhas[m.key]; !ok {
			x.lhas[m.key] = m.iter
		}
		return
	}
	if m.got {
		return
	}
	m.got = true
	w.R.Count("delivered to the library", 1)
	if !bytes.Equal(pt, m.pt) {
		x.fail("message #%d of the reference implementation decrypts to another plaintext", m.label)
	}
	if m.sess != nil {
		for _, c := range m.sess.chains {
			if c == m.ratch {
				return
			}
		}
		m.sess.chains = append(m.sess.chains, m.ratch)
	}
}

// ---------------------------------------------------------------- groups

func (x *interop) lname() *protocol.SenderKeyName {
	return protocol.NewSenderKeyName("interop", x.l.Addr())
}
func (x *interop) rname() *protocol.SenderKeyName {
	return protocol.NewSenderKeyName("interop", x.addr())
}

func (x *interop) libDist(o *Op) {
	var m *protocol.SenderKeyDistributionMessage
	out := x.l.call(x.w.seedFor(o, 0), nil, nil, func() error {
		var err error
		m, err = x.l.groupBuilder().Create(x.lname())
		return err
	})
	if !out.ok() {
		x.fail("group Create: %s", out.why())
		return
	}
	if m.Type() != 5 {
		x.fail("a distribution message has type %d", m.Type())
	}
	x.send(&xmsg{label: o.ID, dist: true, group: true, wire: append([]byte{}, m.Serialize()...), key: x.lgen}, o)
}

func (x *interop) libGSend(o *Op) {
	if x.l.D.Sender[skKey(x.lname())] == nil {
		return
	}
	pt := plaintext(x.w.P.Seed, o.ID, o.Pt)
	var m *protocol.SenderKeyMessage
	out := x.l.call(x.w.seedFor(o, 0), nil, nil, func() error {
		c, err := x.l.groupCipher(x.lname()).Encrypt(append([]byte{}, pt...))
		if err == nil {
			m = c.(*protocol.SenderKeyMessage)
		}
		return err
	})
	if !out.ok() {
		x.fail("group Encrypt: %s", out.why())
		return
	}
	if m.Type() != 4 {
		x.fail("a group message has type %d", m.Type())
	}
	x.send(&xmsg{label: o.ID, group: true, wire: append([]byte{}, m.SignedSerialize()...), pt: pt, key: x.lgen}, o)
}

func (x *interop) refOwn(r *RNG) *refSender {
	if len(x.own) == 0 {
		x.own = append(x.own, &refSender{id: uint32(r.U64()) >> 1, chain: r.Bytes(32), signing: refGen(r)})
		x.rknow[x.own[0].id] = true
	}
	return x.own[0]
}

func (x *interop) refDist(o *Op, r *RNG) {
	s := x.refOwn(r)
	d := s.dist()
	x.send(&xmsg{label: o.ID, toLib: true, dist: true, group: true, wire: d.encode("proto"), key: int(s.id), iter: s.n}, o)
}

func (x *interop) refGSend(o *Op, r *RNG) {
	s := x.refOwn(r)
	pt := plaintext(x.w.P.Seed, o.ID, o.Pt)
	n := s.n
	m := s.encrypt(r, pt)
	x.send(&xmsg{label: o.ID, toLib: true, group: true, wire: m.encode("proto"), pt: pt, key: int(s.id), iter: n}, o)
}

// signatures crosses signatures of both implementations.
func (x *interop) signatures(o *Op, r *RNG) {
	w := x.w
	k := refGen(r)
	msg := r.Bytes(r.N(100))
	var kp [32]byte
	copy(kp[:], k.priv)
	var sig [64]byte
	pub, err := ecc.DecodePoint(k.pub, 0)
	if err != nil {
		x.fail("key does not decode: %v", err)
		return
	}
	w.R.Ent.Start(w.seedFor(o, 0), nil)
	sig = ecc.CalculateSignature(ecc.NewDjbECPrivateKey(kp), msg)
	if !refVerify(k.pub, msg, sig[:]) {
		x.fail("a signature of the library does not verify in the reference implementation")
	}
	copy(sig[:], refSign(k, msg, r.Bytes(64)))
	if !ecc.VerifySignature(pub, msg, sig) {
		x.fail("a signature of the reference implementation does not verify in the library")
	}
	sig[r.N(63)] ^= 1 << uint(r.N(8))
	if a, b := ecc.VerifySignature(pub, msg, sig), refVerify(k.pub, msg, sig[:]); a != b {
		x.fail("the implementations disagree on an altered signature: library %v", a)
	}
	w.R.Event("sig")
	x.agreement(r)
}

// agreement computes the keys of a new session from either side's parameters.
func (x *interop) agreement(r *RNG) {
	pair := func(k refKey) *ecc.ECKeyPair {
		var b [32]byte
		copy(b[:], k.priv)
		pub, err := ecc.DecodePoint(append([]byte{}, k.pub...), 0)
		if err != nil {
			x.fail("key does not decode: %v", err)
			return nil
		}
		return ecc.NewECKeyPair(pub, ecc.NewDjbECPrivateKey(b))
	}
	ia, base, ib, spk, otpk, other := refGen(r), refGen(r), refGen(r), refGen(r), refGen(r), refGen(r)
	var ks [6]*ecc.ECKeyPair
	for i, k := range []refKey{ia, base, ib, spk, otpk, other} {
		if ks[i] = pair(k); ks[i] == nil {
			return
		}
	}
	dh := func(a, b refKey) []byte { s, _ := refDH(a, b.pub); return s }
	dhs := [][]byte{dh(ia, spk), dh(base, ib), dh(base, spk)}
	var theirOne ecc.ECPublicKeyable
	var ourOne *ecc.ECKeyPair
	if r.P(60) {
		theirOne, ourOne = ks[4].PublicKey(), ks[4]
		dhs = append(dhs, dh(base, otpk))
	}
	root, ch := refX3DH(dhs...)
	idA, idB := identity.NewKeyPair(identity.NewKey(ks[0].PublicKey()), ks[0].PrivateKey()), identity.NewKeyPair(identity.NewKey(ks[2].PublicKey()), ks[2].PrivateKey())
	// the ratchet keys take no part in the agreement
	sp := ratchet.NewSenderParameters(idA, ks[1], idB.PublicKey(), ks[3].PublicKey(), ks[5].PublicKey(), theirOne)
	rp := ratchet.NewReceiverParameters(idB, ks[3], ourOne, ks[5], ks[1].PublicKey(), idA.PublicKey())
	if r.P(40) {
		sp, rp = ratchet.NewEmptySenderParameters(), ratchet.NewEmptyReceiverParameters()
		sp.SetTheirRatchetKey(ks[5].PublicKey())
		sp.SetTheirSignedPreKey(ks[3].PublicKey())
		sp.SetTheirOneTimePreKey(theirOne)
		sp.SetTheirIdentityKey(idB.PublicKey())
		sp.SetOurBaseKey(ks[1])
		sp.SetOurIdentityKey(idA)
		rp.SetTheirIdentityKey(idA.PublicKey())
		rp.SetTheirBaseKey(ks[1].PublicKey())
		rp.SetOurRatchetKey(ks[5])
		rp.SetOurOneTimePreKey(ourOne)
		rp.SetOurSignedPreKey(ks[3])
		rp.SetOurIdentityKeyPair(idB)
	}
	if k := sp.TheirRatchetKey(); k == nil || k.PublicKey() != ks[5].PublicKey().PublicKey() {
		x.fail("the sender's parameters hold another ratchet key than they were made with")
	}
	if k := rp.OurRatchetKey(); k == nil || k.PrivateKey().Serialize() != ks[5].PrivateKey().Serialize() {
		x.fail("the receiver's parameters hold another ratchet key than they were made with")
	}
	err, pan := guarded(func() error {
		a, err := ratchet.CalculateSenderSession(sp)
		if err != nil {
			return err
		}
		b, err := ratchet.CalculateReceiverSession(rp)
		if err != nil {
			return err
		}
		for i, k := range []*session.KeyPair{a, b} {
			if !eq(k.RootKey.Bytes(), root) || !eq(k.ChainKey.Key(), ch.key) || k.ChainKey.Index() != 0 {
				x.fail("the keys of a new session (side %d, one-time prekey %v) are not those of the reference implementation", i, ourOne != nil)
			}
		}
		return nil
	})
	if err != nil || pan != nil {
		x.fail("agreement on the keys of a new session fails: %v %v", err, pan)
	}
	x.w.R.Count("session key agreements compared", 1)
}

func runInterop(r *Run) {
	w := newWorld(r)
	w.setupNodes()
	x := newInterop(w, NewRNG(hash64("ref", r.P.Seed)))
	for i := range r.P.Ops {
		o := &r.P.Ops[i]
		w.at(o.At, o.ID, -1, func() { x.exec(o) })
	}
	w.loop()
}

func genInterop(group bool) genF {
	return func(seed uint64) *Plan {
		f := &prof{nodes: [2]int{1, 1}, ser: "proto"}
		b := newPB(seed, "C22", f)
		b.p.Scenario = "interop"
		r := b.r
		loss, late, dup := r.N(30), r.N(60), r.N(15)
		dl := func() []Dl {
			var out []Dl
			d := int64(5 + r.N(50))
			if r.P(late) {
				d = int64(100 + r.N(8000))
			}
			if !r.P(loss) {
				out = append(out, Dl{Delay: d})
			}
			if r.P(dup) {
				out = append(out, Dl{Delay: d + int64(r.N(2000))})
			}
			return out
		}
		op := func(k string) { b.add(Op{Kind: k, Pt: sizeOf(r, 4), Dl: dl()}) }
		// a long stretch of messages in one direction, few of which arrive
		left := 1400 // so that all skipped keys are kept
		long := func(k string) {
			n := []int{130, 140, 260, 270, 300, 520, 700}[r.N(7)] + r.N(20)
			if r.P(10) {
				n = 1030 + r.N(370)
			}
			if n > left {
				return
			}
			left -= n
			some := 1 + r.N(100)
			for j := 1; j <= n; j++ {
				o := Op{Kind: k, Pt: r.N(20)}
				if j == n || r.P(100/some) {
					o.Dl = []Dl{{Delay: int64(5 + r.N(3000))}}
				}
				b.add(o)
			}
			b.t += 100
		}
		initOp := func(k string) { b.add(Op{Kind: k, S: r.Str("otpk", "otpk", "none", "last", "big")}) }
		b.add(Op{Kind: "sig"})
		n := r.Range(25, 90)
		if group {
			op("lgdist")
			op("rgdist")
			for i := 0; i < n; i++ {
				b.t += int64(r.N(300))
				switch r.Pick(100, 100, 12, 12, 4, 4, 10, 1) {
				case 0, 1:
					k := r.Str("lgsend", "rgsend")
					for j := 1 + r.N(6); j > 0; j-- {
						op(k)
						b.t += int64(r.N(50))
					}
				case 2:
					op("lgdist")
				case 3:
					op("rgdist")
				case 4:
					b.add(Op{Kind: "lgnew"})
					op("lgdist")
				case 5:
					b.add(Op{Kind: "rgnew"})
					op("rgdist")
				case 6:
					b.add(Op{Kind: "restart"})
				case 7:
					long(r.Str("lgsend", "rgsend"))
				}
			}
			return b.p
		}
		initOp(r.Str("linit", "rinit"))
		if r.P(15) {
			initOp("linit")
			initOp("rinit")
		}
		for i := 0; i < n; i++ {
			b.t += int64(r.N(300))
			switch r.Pick(300, 16, 10, 6, 6, 2, 1) {
			case 0:
				k := r.Str("lsend", "rsend")
				for j := 1 + r.N(4); j > 0; j-- {
					op(k)
					b.t += int64(r.N(50))
				}
				if r.P(60) {
					op(map[string]string{"lsend": "rsend", "rsend": "lsend"}[k])
				}
			case 1:
				b.add(Op{Kind: "restart"})
			case 2:
				initOp(r.Str("linit", "rinit"))
			case 3:
				b.add(Op{Kind: "rspk"})
			case 4:
				b.add(Op{Kind: "lspk"})
			case 5:
				b.add(Op{Kind: "sig"})
			case 6:
				long(r.Str("lsend", "rsend"))
			}
		}
		return b.p
	}
}

func init() {
	scenarios["interop"] = runInterop
	d := mix("C22", 700, 25000, []string{"interop"}, genInterop(false), genInterop(false), genInterop(true))
	d.assume = []string{"the reference implementation (sim/ref.go) follows the published X3DH, Double Ratchet, Sender Keys and XEdDSA specifications with Signal's version 3 wire format"}
	d.stubs = "one of the two devices is the independent reference implementation; stores, network, clock, entropy and logger as in all scenarios"
}
