package sim

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/prospik/libsignal-protocol-go/keys/message"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/session"
)

// presentation is what actually reaches a device.
type presentation struct {
	wire    []byte
	prekey  bool
	to      *Node
	as      *Node // the device it is attributed to
	touched bool  // not the genuine bytes on the genuine route
	reuse   bool  // hand in the same parsed object again
}

// manipulate applies what the network or an attacker does to a message on the way.
func (w *World) manipulate(m *gmsg, o *Op, i int, d Dl) *presentation {
	ser := w.P.Cfg.Ser
	r := NewRNG(hash64("tamper", w.P.Seed, o.ID, i, d.P))
	p := &presentation{wire: append([]byte(nil), m.wire...), prekey: m.prekey, to: w.node(m.to), as: w.node(m.from)}
	if d.Mode == "" {
		return p
	}
	if d.Mode == "again" {
		p.reuse = true
		return p
	}
	p.touched = true
	w.R.Count("fault:"+d.Mode, 1)
	w.R.Res.Nontrivial++
	sig := *m.sig
	var pre wPre
	if m.pre != nil {
		pre = *m.pre
	}
	other := func() *gmsg { // another genuine message
		if len(w.order) < 2 {
			return nil
		}
		x := w.order[r.N(len(w.order))]
		if d.Q != 0 {
			if y := w.msgs[int(d.Q)]; y != nil {
				x = y
			}
		}
		if x == m {
			return nil
		}
		return x
	}
	putSig := func(s *wSig) {
		if p.prekey {
			pre.Inner = s.encode(ser)
			p.wire = pre.encode(ser)
		} else {
			p.wire = s.encode(ser)
		}
	}
	delta := func(v uint32) uint32 {
		switch r.N(7) {
		case 0:
			return v + 1
		case 1:
			return v - 1
		case 2:
			return v + 3 + uint32(r.N(50))
		case 3:
			return 0
		case 4:
			return uint32(r.U64())
		case 5:
			return 0xFFFFFFFF
		}
		return v ^ 1<<uint(r.N(32))
	}
	flip := func(b []byte) []byte {
		c := append([]byte(nil), b...)
		if len(c) > 0 {
			c[r.N(len(c))] ^= 1 << uint(r.N(8))
		}
		return c
	}
	randKey := func() []byte {
		k := r.Bytes(32)
		k[31] &= 0x7f
		return append([]byte{5}, k...)
	}
	switch d.Mode {
	case "bytes":
		p.wire = mangle(r, p.wire)
	case "ctr":
		sig.Ctr = delta(sig.Ctr)
		putSig(&sig)
	case "prev":
		sig.Prev = delta(sig.Prev)
		putSig(&sig)
	case "ct":
		sig.CT = flip(sig.CT)
		putSig(&sig)
	case "ctcut":
		sig.CT = append([]byte{}, sig.CT[:len(sig.CT)-16*r.N(len(sig.CT)/16+1)]...)
		if r.P(50) {
			sig.CT = append(sig.CT, r.Bytes(16)...)
		}
		putSig(&sig)
	case "mac":
		sig.Mac = flip(sig.Mac)
		putSig(&sig)
	case "macshort":
		if ser == "json" {
			sig.Mac = sig.Mac[:r.N(8)]
			if r.P(20) {
				sig.Mac = nil
			}
		} else {
			sig.Mac = make([]byte, 8)
		}
		putSig(&sig)
	case "ratchet":
		switch r.N(3) {
		case 0:
			sig.Ratchet = randKey()
		case 1:
			sig.Ratchet = flip(sig.Ratchet)
		case 2:
			if x := other(); x != nil {
				sig.Ratchet = x.sig.Ratchet
			} else {
				sig.Ratchet = append(append([]byte{}, sig.Ratchet...), 0)
			}
		}
		putSig(&sig)
	case "ratchettop": // another encoding of the same curve point
		sig.Ratchet = append([]byte{}, sig.Ratchet...)
		sig.Ratchet[32] ^= 0x80
		putSig(&sig)
	case "ver":
		if p.prekey && r.P(50) {
			pre.Ver = r.N(16)
			p.wire = pre.encode(ser)
		} else {
			sig.Ver = r.N(16)
			putSig(&sig)
		}
	case "splice":
		x := other()
		if x == nil {
			return nil
		}
		switch r.N(4) {
		case 0:
			sig.CT = x.sig.CT
		case 1:
			sig.Mac = x.sig.Mac
		case 2:
			sig.CT, sig.Mac = x.sig.CT, x.sig.Mac
		case 3:
			sig.Ctr, sig.Ratchet = x.sig.Ctr, x.sig.Ratchet
		}
		putSig(&sig)
	case "unknown": // unknown fields: still the same message
		if ser == "json" {
			return nil
		}
		if p.prekey {
			p.wire = pbPutBytes(p.wire, 99, r.Bytes(5))
		} else {
			p.wire = append(pbPutUint(append([]byte{}, p.wire[:len(p.wire)-8]...), 77, 5), sig.Mac...)
		}
	case "base", "basetop", "ident", "identpin", "otpk", "nootpk", "reg", "spk", "rewrap":
		if !p.prekey {
			// turn an ordinary message into an opening, with the header of an earlier one
			var x *gmsg
			for _, y := range w.order {
				if y.prekey && y.from == m.from && y.to == m.to {
					x = y
					if r.P(50) {
						break
					}
				}
			}
			if x == nil {
				return nil
			}
			pre = *x.pre
			pre.Inner = sig.encode(ser)
			p.prekey = true
			if d.Mode == "rewrap" {
				p.wire = pre.encode(ser)
				break
			}
		} else if d.Mode == "rewrap" { // the ordinary message inside an opening
			p.prekey = false
			p.wire = append([]byte(nil), pre.Inner...)
			break
		}
		switch d.Mode {
		case "base":
			pre.Base = randKey()
			if r.P(30) {
				pre.Base = flip(pre.Base)
			}
		case "basetop":
			pre.Base = append([]byte{}, pre.Base...)
			pre.Base[32] ^= 0x80
		case "identpin": // the identity the recipient trusts, for a session of another
			if pin := p.to.image().Pins[p.as.Key()]; len(pin) > 0 && !eq(pin, pre.Ident) {
				pre.Ident = append([]byte(nil), pin...)
			} else {
				pre.Ident = flip(pre.Ident)
			}
		case "ident":
			pre.Ident = flip(pre.Ident)
			if r.P(70) {
				if x := w.node(r.N(len(w.nodes))); x != nil && !eq(x.D.IdentPub, m.pre0().Ident) {
					pre.Ident = x.D.IdentPub
				}
			}
		case "otpk":
			pre.HasOTPK, pre.OTPK = true, pre.OTPK+1
			if r.P(40) {
				pre.OTPK = uint32(1 + r.N(8))
			}
		case "nootpk":
			pre.HasOTPK, pre.OTPK = false, 0
		case "reg":
			pre.Reg = delta(pre.Reg)
		case "spk":
			pre.SPK = delta(pre.SPK)
		}
		p.wire = pre.encode(ser)
	case "graft": // opening with a fresh base key around a genuine message
		q := wPre{Ver: 3, Reg: w.nodes[m.from].D.Reg, SPK: w.nodes[m.to].curSPK, Base: randKey(), Ident: w.nodes[m.from].D.IdentPub, Inner: sig.encode(ser)}
		if m.pre != nil {
			q = *m.pre
			q.Base = randKey()
		} else if r.P(60) {
			q.HasOTPK, q.OTPK = true, uint32(1+r.N(8))
		}
		if r.P(30) {
			q.Ident = w.nodes[r.N(len(w.nodes))].D.IdentPub
		}
		p.prekey = true
		p.wire = q.encode(ser)
	case "reflect":
		p.to, p.as = w.node(m.from), w.node(m.to)
	case "misroute": // delivered to another device
		p.to = w.node(d.To)
		if p.to == nil || p.to == w.node(m.to) || p.to == p.as {
			return nil
		}
	case "misattr": // attributed to another peer
		p.as = w.node(d.As)
		if p.as == nil || p.as == w.node(m.from) || p.as == p.to {
			return nil
		}
		if _, pinned := p.to.D.Pins[p.as.Key()]; !pinned && m.prekey {
			return nil // trust on first use: attribution is up to the application
		}
	case "author": // the author itself sends a message that is authentic, but cannot be decrypted
		k := m.author
		if k == nil {
			return nil
		}
		mac := func(x wSig) []byte {
			x.Mac = nil
			return refHMAC(k.mac, k.from, k.to, x.encode(ser))[:8]
		}
		if !eq(mac(sig), sig.Mac) {
			return nil
		}
		sig.CT = badPadding(r, k.cipher, k.iv)
		sig.Mac = mac(sig)
		putSig(&sig)
	case "garbage":
		p.wire = r.Bytes(r.N(120))
		if r.P(25) {
			p.wire = p.wire[:min(len(p.wire), r.N(3))]
		}
		if r.P(30) && len(p.wire) > 0 {
			p.wire[0] = 0x33
		}
	default:
		return nil
	}
	return p
}

// badPadding makes a ciphertext that no plaintext belongs to.
func badPadding(r *RNG, key, iv []byte) []byte {
	switch r.N(4) {
	case 0:
		return []byte{}
	case 1:
		return r.Bytes(1 + r.N(15))
	case 2:
		return r.Bytes(16*r.N(4) + 1 + r.N(15))
	}
	b := r.Bytes(16)
	b[15] = []byte{17, 32, 0xFF}[r.N(3)]
	return refCBCraw(key, iv, b)
}

// pre0 is the opening header a message carries, or an empty one.
func (m *gmsg) pre0() *wPre {
	if m.pre != nil {
		return m.pre
	}
	return &wPre{}
}

func (w *World) arrive(m *gmsg, o *Op, i int, d Dl) {
	p := w.manipulate(m, o, i, d)
	if p == nil || p.to == nil || p.as == nil {
		return
	}
	if m.step+1 < w.R.Step && i == 0 && !p.touched {
		for _, x := range w.order[max(0, len(w.order)-20):] {
			if x.from == m.from && x.to == m.to && x.label > m.label && len(x.got) > 0 {
				w.R.Count("fault:reordered", 1)
				break
			}
		}
	}
	w.present(m, o, i, d, p)
}

// byRecord does what DecryptAndGetKey does with the calls for applications that hold the record.
func (w *World) byRecord(n *Node, from *Node, c *session.Cipher, x *protocol.SignalMessage) ([]byte, *message.Keys, error) {
	s, a := &Stores{n}, from.Addr()
	if !s.ContainsSession(a) {
		return nil, nil, errors.New("no session")
	}
	rec := s.LoadSession(a).Copy()
	before := rec.Serialize()
	pt, keys, err := c.DecryptWithRecord(rec, x)
	if err != nil {
		if !eq(before, rec.Serialize()) {
			w.R.Fail("state", "DecryptWithRecord rejects a message and changes the record")
		}
		return pt, keys, err
	}
	if id := rec.SessionState().RemoteIdentityKey(); s.IsTrustedIdentity(a, id) {
		s.SaveIdentity(a, id)
	} else {
		return nil, nil, errors.New("untrusted identity")
	}
	s.StoreSession(a, rec)
	return pt, keys, nil
}

// byProcess is byRecord for an opening.
func (w *World) byProcess(n *Node, from *Node, c *session.Cipher, x *protocol.PreKeySignalMessage) ([]byte, *message.Keys, error) {
	s, a := &Stores{n}, from.Addr()
	rec := s.LoadSession(a).Copy()
	id, err := n.builder(a).Process(rec, x)
	if err != nil {
		return nil, nil, err
	}
	pt, keys, err := c.DecryptWithRecord(rec, x.WhisperMessage())
	if err != nil {
		return nil, nil, err
	}
	s.StoreSession(a, rec)
	if id != nil && !id.IsEmpty {
		s.RemovePreKey(id.Value)
	}
	return pt, keys, nil
}

// present hands a message to a device and compares what happens with the model.
func (w *World) present(m *gmsg, o *Op, i int, d Dl, p *presentation) {
	n, ak := p.to, p.as.Key()
	ser := w.P.Cfg.Ser
	var v *verdict
	if p.prekey {
		v = w.judgePre(n, ak, parsePre(ser, p.wire))
	} else {
		v = w.judgeSig(n, ak, parseSig(ser, p.wire))
	}
	genuine := v.m == m && !p.touched
	seenBefore := v.m != nil && v.m.got[n.Idx]
	buf := append([]byte(nil), p.wire...)
	before := n.image()
	var pt []byte
	var keys *message.Keys
	var obj interface{}
	saveKeys := w.P.Cfg.SaveKeys || o.ID%2 == 0
	out := n.call(w.seedFor(o, 1000+i), d.Crash, d.Ent, func() error {
		var err error
		objKey := fmt.Sprintf("%d", n.Idx)
		if w.P.Cfg.Alias && !p.touched && m.obj[objKey] != nil {
			obj = m.obj[objKey] // an object that was handed in before
		}
		if p.prekey {
			var x *protocol.PreKeySignalMessage
			if y, ok := obj.(*protocol.PreKeySignalMessage); ok {
				x = y
				w.R.Count("message object reused", 1)
			} else if x, err = protocol.NewPreKeySignalMessageFromBytes(buf, n.Ser.PreKeySignalMessage, n.Ser.SignalMessage); err != nil {
				return err
			}
			obj = x
			if w.P.Cfg.Alias && !p.touched {
				m.obj[objKey] = x
				w.scribble(buf, p.wire)
			}
			ser1 := x.Serialize()
			if v.accept && !p.touched && d.Crash == nil && d.Ent == nil && hash64("byprocess", w.P.Seed, o.ID, i)%9 == 0 {
				w.R.Count("openings processed with the application's record", 1)
				pt, keys, err = w.byProcess(n, p.as, n.cipher(p.as.Addr(), false), x)
			} else if saveKeys {
				pt, keys, err = n.cipher(p.as.Addr(), false).DecryptMessageReturnKey(x)
			} else {
				pt, err = n.cipher(p.as.Addr(), false).DecryptMessage(x)
			}
			if !eq(ser1, x.Serialize()) {
				w.R.Fail("alias", "decrypting changed the message object")
			}
			return err
		}
		var x *protocol.SignalMessage
		if y, ok := obj.(*protocol.SignalMessage); ok {
			x = y
			w.R.Count("message object reused", 1)
		} else if x, err = protocol.NewSignalMessageFromBytes(buf, n.Ser.SignalMessage); err != nil {
			return err
		}
		obj = x
		if w.P.Cfg.Alias && !p.touched {
			m.obj[objKey] = x
			w.scribble(buf, p.wire)
		}
		ser1 := x.Serialize()
		c := n.cipher(p.as.Addr(), o.N == 1)
		if o.N != 1 && hash64("byrecord", w.P.Seed, o.ID, i)%9 == 0 { // the application keeps the record itself
			w.R.Count("decrypted with the application's record", 1)
			pt, keys, err = w.byRecord(n, p.as, c, x)
		} else if saveKeys {
			pt, keys, err = c.DecryptAndGetKey(x)
		} else {
			pt, err = c.Decrypt(x)
		}
		if !eq(ser1, x.Serialize()) {
			w.R.Fail("alias", "decrypting changed the message object")
		}
		return err
	})
	after := n.image()
	mode := d.Mode
	if mode == "" {
		mode = "genuine"
	}
	w.R.Event("recv #%d %s at %d as %d (%s): %s, model %v %s", m.label, mode, n.Idx, p.as.Idx, digest(p.wire), out, v.accept, v.why)
	if v.accept {
		w.R.Count("model:accept", 1)
	} else {
		w.R.Count("model:reject "+v.why, 1)
	}
	if seenBefore {
		w.R.Count("fault:replay", 1)
		w.R.Res.Nontrivial++
	}
	if !bytes.Equal(buf, p.wire) && !w.P.Cfg.Alias {
		w.R.Fail("alias", "decrypting changed the caller's wire buffer")
	}
	if w.anomalies(out, fmt.Sprintf("receiving message #%d (%s)", m.label, mode)) {
		if v.accept && genuine {
			w.R.Fail("deliver", "message #%d: receiving a genuine message panics: %v", m.label, out.panicV)
		}
		if dd := before.diff(after); len(dd) > 0 {
			w.R.Fail("state", "panicking receive changed stored state: %v", dd)
		}
		return
	}
	stored := out.ctl.did("StoreSession", ak)
	diffs := before.diff(after)
	allowed := func(d string) bool {
		if strings.HasPrefix(d, "session["+ak+"]") || strings.HasPrefix(d, "pin["+ak+"]") {
			return true
		}
		return v.otpk >= 0 && d == fmt.Sprintf("prekey[%d] removed", v.otpk)
	}
	if out.crashed {
		w.R.Count("fault:crash in receive", 1)
		w.R.Res.Nontrivial++
		for _, x := range diffs {
			if !v.accept || !allowed(x) {
				w.R.Fail("state", "message #%d (%s, %s): crashed receive left %s", m.label, mode, v.why, x)
				if strings.HasPrefix(x, "prekey") {
					w.R.Fail("otpk", "message #%d (%s): crashed receive left %s", m.label, mode, x)
				}
				if strings.HasPrefix(x, "pin") {
					w.R.Fail("pin", "message #%d (%s): crashed receive left %s", m.label, mode, x)
				}
			} else if strings.HasPrefix(x, "prekey") && !stored {
				w.R.Fail("otpk", "one-time prekey %d is gone although the session it opened was not stored", v.otpk)
			}
		}
		if v.accept {
			if pin, ok := after.Pins[ak]; ok && !eq(pin, before.Pins[ak]) && !eq(pin, v.newRec.cur.peerIdent) {
				w.R.Fail("pin", "crashed receive pinned another key")
			}
			if stored {
				w.commit(n, ak, v, out)
				v.m.unsure[n.Idx] = true
			}
		}
		return
	}
	if !out.ok() {
		if pt != nil {
			w.R.Fail("forge", "message #%d (%s): rejected, but plaintext was returned", m.label, mode)
		}
		if len(diffs) > 0 {
			w.R.Fail("state", "message #%d (%s, %s): rejected, but stored state changed: %v", m.label, mode, v.why, diffs)
			for _, x := range diffs {
				if strings.HasPrefix(x, "prekey") {
					w.R.Fail("otpk", "message #%d (%s): rejected, but %s", m.label, mode, x)
				}
				if strings.HasPrefix(x, "pin") {
					w.R.Fail("pin", "message #%d (%s): rejected, but %s", m.label, mode, x)
				}
			}
			if out.entBad > 0 {
				w.R.Fail("entropy", "failed receive changed stored state: %v", diffs)
			}
		}
		if out.entBad > 0 {
			w.R.Count("fault:entropy failure", 1)
			w.R.Res.Nontrivial++
			return
		}
		if v.accept && genuine && !seenBefore {
			w.R.Fail("deliver", "message #%d from %d (chain counter %d, session %d, opening=%v) is rejected at %d: %s", m.label, m.from, m.ctr, m.sid, m.prekey, n.Idx, out.why())
			if m.prekey {
				w.R.Fail("establish", "opening message #%d is rejected: %s", m.label, out.why())
			}
		} else if v.accept {
			w.R.Count("model:may", 1)
		} else if genuine && !seenBefore && m.final {
			if m.lenient && !w.sess[m.sid].fresh {
				// While old messages still arrive, they may bring back an old session of which the
				// receiver has lost the state. The phase after it is judged without exception.
				w.R.Count("messages of a lost session sent during the recovery", 1)
				return
			}
			w.R.Fail("recover", "message #%d, sent after faults stopped, is not delivered (%s)", m.label, v.why)
		}
		return
	}
	// accepted
	if out.entBad > 0 && w.P.Cfg.EntCheck && v.accept && v.newRec.cur.sendTok == -1 && len(out.entLog) < 32 {
		w.R.Fail("entropy", "message #%d is decrypted although the entropy for the new ratchet key failed", m.label)
	}
	if !v.accept {
		if v.m != nil && v.m.unsure[n.Idx] {
			w.halted = true // allowed: the first attempt crashed before its result was reported
			return
		}
		if p.touched && w.sameByLibrary(obj, p) {
			w.halted = true // the parser under test reads the genuine message out of it
			return
		}
		w.R.Fail(rejectTag(v, p, seenBefore), "message #%d (%s, attributed to %d) is accepted at %d although: %s", m.label, mode, p.as.Idx, n.Idx, v.why)
		if seenBefore {
			w.R.Fail("replay", "message #%d is decrypted a second time (%s)", m.label, mode)
		}
		if p.touched {
			w.R.Fail("forge", "message #%d (%s) is accepted although: %s", m.label, mode, v.why)
		}
		return
	}
	if seenBefore && !n.rolled && !n.wiped && !(v.opened && v.otpk < 0) && w.sess[v.m.sid].opens[n.Idx] <= 1 {
		// cannot happen with this model; kept as a guard against a wrong model
		w.R.Fail("replay", "message #%d is decrypted a second time", v.m.label)
	}
	if !bytes.Equal(pt, v.m.pt) {
		w.R.Fail("plaintext", "message #%d decrypts to %d bytes %s instead of %d bytes %s", v.m.label, len(pt), short(pt), len(v.m.pt), short(v.m.pt))
	}
	if !stored {
		w.R.Fail("durable", "message #%d is reported as decrypted but the session was not stored", m.label)
	}
	if w.P.Cfg.Store == "bytes" && bytes.Equal(before.Sessions[ak], after.Sessions[ak]) {
		w.R.Fail("durable", "message #%d is reported as decrypted but the stored session is unchanged", m.label)
	}
	for _, x := range diffs {
		if !allowed(x) {
			tag := "state"
			if strings.HasPrefix(x, "prekey") {
				tag = "otpk"
			}
			w.R.Fail(tag, "receiving message #%d from %s changed %s", m.label, ak, x)
		}
	}
	if v.otpk >= 0 {
		if _, still := after.PreKeys[uint32(v.otpk)]; still {
			w.R.Fail("otpk", "one-time prekey %d is still stored after its opening was processed", v.otpk)
		}
		w.R.Res.Nontrivial++
	}
	if !eq(after.Pins[ak], v.newRec.cur.peerIdent) {
		w.R.Fail("pin", "after message #%d the pinned key of %s is not the authenticated one", m.label, ak)
	}
	w.commit(n, ak, v, out)
	v.m.got[n.Idx] = true
	delete(v.m.unsure, n.Idx)
	if v.m.got[n.Idx] && n.Idx == v.m.to {
		w.R.Count("delivered", 1)
		if v.m.final {
			w.noteFinal(v.m)
		}
	}
	if keys != nil {
		w.saveKeys(n, v.m, keys)
	}
	if w.P.Cfg.Alias && o.ID%3 == 0 { // the caller may do what it likes with the result
		for k := range pt {
			pt[k] = 0xEE
		}
	} else {
		w.keep(fmt.Sprintf("plaintext of message #%d", m.label), pt)
	}
	w.inspect(n, ak)
	if w.P.Cfg.Alias && NewRNG(uint64(o.ID)).P(50) && !p.touched {
		// the same object again, after success
		w.presentAgain(m, o, i, p)
	}
}

func (w *World) presentAgain(m *gmsg, o *Op, i int, p *presentation) {
	q := *p
	w.present2(m, o, i, &q)
}

// present2 hands the same object in again right after it was decrypted; it must be rejected.
func (w *World) present2(m *gmsg, o *Op, i int, p *presentation) {
	o2 := *o
	o2.ID = o.ID*2 + 1
	w.present(m, &o2, i+500, Dl{}, p)
}

func rejectTag(v *verdict, p *presentation, seen bool) string {
	switch v.why {
	case "identity not trusted":
		return "pin"
	case "one-time prekey gone":
		return "otpk"
	case "too far ahead":
		return "limit"
	}
	if seen {
		return "replay"
	}
	if p.touched {
		return "forge"
	}
	return "limit"
}

// sameByLibrary: a manipulated message our own reader cannot read, but which the library reads as a
// genuine one (same fields), is no forgery.
func (w *World) sameByLibrary(obj interface{}, p *presentation) bool {
	var s *protocol.SignalMessage
	switch x := obj.(type) {
	case *protocol.SignalMessage:
		s = x
		if parseSig(w.P.Cfg.Ser, p.wire) != nil {
			return false
		}
	case *protocol.PreKeySignalMessage:
		s = x.WhisperMessage()
		if q := parsePre(w.P.Cfg.Ser, p.wire); q != nil && q.Sig != nil {
			return false
		}
	}
	if s == nil {
		return false
	}
	st := s.Structure()
	k := wSig{st.Version, st.RatchetKey, st.Counter, st.PreviousCounter, st.CipherText, st.Mac}
	return w.genuine[k.id()] != nil
}

func (w *World) scribble(buf, orig []byte) {
	for k := range buf {
		buf[k] = 0xC3
	}
}

// commit makes the model follow an accepted (and stored) message.
func (w *World) commit(n *Node, ak string, v *verdict, out *outcome) {
	fresh := v.newRec.cur.sendTok == -1
	w.bind(n.Idx, v.newRec, v.m)
	if fresh {
		w.tokEnt[v.newRec.cur.sendTok] = out.entLog
	}
	w.recs[n.Idx][ak] = v.newRec
	if v.opened {
		w.R.Count("sessions opened", 1)
		v.g.opens[n.Idx]++
	}
}

func (w *World) saveKeys(n *Node, m *gmsg, k *message.Keys) {
	st := message.NewStructFromKeys(k)
	// stored and reloaded
	c := &message.KeysStructure{CipherKey: append([]byte(nil), st.CipherKey...), MacKey: append([]byte(nil), st.MacKey...), IV: append([]byte(nil), st.IV...), Index: st.Index}
	m.keys = append([]byte(nil), st.CipherKey...)
	m.keysObj[n.Idx] = &savedKeys{st: c, pt: m.pt}
	if st.Index != m.ctr {
		w.R.Fail("savedkey", "the keys of message #%d carry index %d instead of %d", m.label, st.Index, m.ctr)
	}
}

// opOldKey decrypts an earlier message with the keys that were returned for it.
func (w *World) opOldKey(o *Op) {
	r := NewRNG(hash64("oldkey", w.P.Seed, o.ID))
	var have []*gmsg
	for _, m := range w.order {
		if len(m.keysObj) > 0 {
			have = append(have, m)
		}
	}
	for k := 0; k < 3 && len(have) > 0; k++ {
		m := have[r.N(len(have))]
		for idx, n := range w.nodes {
			sk := m.keysObj[idx]
			if sk == nil {
				continue
			}
			other := have[r.N(len(have))]
			before := n.image()
			var pt, pt2 []byte
			out := n.call(w.seedFor(o, k), nil, nil, func() error {
				x, err := protocol.NewSignalMessageFromBytes(m.sig.encode(w.P.Cfg.Ser), n.Ser.SignalMessage)
				if err != nil {
					return err
				}
				s1 := x.Serialize()
				c := n.cipher(w.nodes[m.from].Addr(), false)
				mk := message.NewKeysFromStruct(sk.st)
				for t := 0; t < 2 && err == nil; t++ {
					pt, err = c.DecryptWithKey(x, mk)
				}
				if !eq(s1, x.Serialize()) {
					w.R.Fail("alias", "DecryptWithKey changed the message object")
				}
				if other != m && err == nil {
					y, err2 := protocol.NewSignalMessageFromBytes(other.sig.encode(w.P.Cfg.Ser), n.Ser.SignalMessage)
					if err2 == nil {
						pt2, _ = c.DecryptWithKey(y, mk)
					}
				}
				return err
			})
			w.R.Event("oldkey #%d at %d: %s", m.label, idx, out)
			w.R.Res.Nontrivial++
			w.R.Count("saved keys used", 1)
			if w.anomalies(out, "DecryptWithKey") {
				return
			}
			if !out.ok() || !bytes.Equal(pt, sk.pt) {
				w.R.Fail("savedkey", "saved keys do not decrypt message #%d any more: %s", m.label, out.why())
			}
			if other != m && len(other.pt) >= 12 && bytes.Equal(pt2, other.pt) {
				w.R.Fail("savedkey", "the keys of message #%d decrypt message #%d", m.label, other.label)
			}
			if d := before.diff(n.image()); len(d) > 0 || out.ctl.touched() {
				w.R.Fail("savedkey", "DecryptWithKey touched the stores: %v", d)
			}
		}
	}
}
