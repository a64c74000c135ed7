package sim

import (
	"bytes"
	"container/heap"
	"crypto/ecdh"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/message"
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/session"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

// ---------------------------------------------------------------- event queue

type event struct {
	at   int64
	a, b int
	f    func()
}
type evHeap []*event

func (h evHeap) Len() int { return len(h) }
func (h evHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	if h[i].a != h[j].a {
		return h[i].a < h[j].a
	}
	return h[i].b < h[j].b
}
func (h evHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *evHeap) Push(x interface{}) { *h = append(*h, x.(*event)) }
func (h *evHeap) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

type savedKeys struct {
	st *message.KeysStructure
	pt []byte
}

type keepCheck struct {
	what string
	live []byte
	copy []byte
}

// World is one simulated system.
type World struct {
	R *Run
	P *Plan
	// yield is called at every seam; the concurrent scenario parks the task there
	yield func(string)
	after func() // called after every event
	// onStore sees every store operation
	onStore func(n *Node, op, key string)

	nodes   []*Node
	q       evHeap
	recs    []map[string]*mRec // node -> address -> model record
	sess    []*gSess
	toks    []*tok
	byBase  map[string]*gSess
	genuine map[string]*gmsg
	msgs    map[int]*gmsg
	order   []*gmsg
	seen    map[string]bool
	used    map[string]int // ratchet key and counter -> label
	tokEnt  map[int][]byte
	baseEnt map[int][]byte
	snaps   map[int]*snapshot
	thefts  []*theft
	keeps   []keepCheck
	halted  bool
	sleep   bool
	entPfx  uint64

	g *groupWorld

	turns map[[2]int]int // changes of direction among the final messages delivered between two nodes
	lastF map[[2]int]int
	fresh map[[2]int]bool // pairs that have initiated anew after the faults stopped
}

// noteFinal records a delivered message of the faultless final phase.
func (w *World) noteFinal(m *gmsg) {
	k := [2]int{min(m.from, m.to), max(m.from, m.to)}
	if last, ok := w.lastF[k]; !ok || last != m.from {
		w.turns[k]++
	}
	w.lastF[k] = m.from
}

type snapshot struct {
	d    *Disk
	recs map[string]*mRec
	grp  map[string]*gRec
}

func newWorld(r *Run) *World {
	w := &World{R: r, P: r.P, yield: func(string) {}}
	w.byBase = map[string]*gSess{}
	w.genuine = map[string]*gmsg{}
	w.msgs = map[int]*gmsg{}
	w.seen = map[string]bool{}
	w.used = map[string]int{}
	w.tokEnt = map[int][]byte{}
	w.baseEnt = map[int][]byte{}
	w.snaps = map[int]*snapshot{}
	w.g = newGroupWorld()
	w.turns, w.lastF, w.fresh = map[[2]int]int{}, map[[2]int]int{}, map[[2]int]bool{}
	r.Ent.ck = func() { w.yield("entropy") }
	theLogger.hook = func() { w.yield("log") }
	return w
}

func (w *World) noteKey(b []byte) { w.seen[string(b)] = true }

func (w *World) addNode(name string, dev uint32) *Node {
	n := &Node{W: w, Idx: len(w.nodes), Name: name, Dev: dev, Ser: w.P.Cfg.serializer()}
	w.nodes = append(w.nodes, n)
	w.recs = append(w.recs, map[string]*mRec{})
	return n
}

func (w *World) setupNodes() {
	c := w.P.Cfg
	for i := 0; i < c.Nodes; i++ {
		name, dev := fmt.Sprintf("node-%c", 'a'+i), uint32(1)
		if i < len(c.Names) {
			name = c.Names[i]
		}
		if i < len(c.Devs) {
			dev = c.Devs[i]
		}
		n := w.addNode(name, dev)
		as := i
		switch c.Share {
		case 1:
			as = i &^ 1
		case 2:
			as = 0
		}
		n.setup(w.P.Seed, as)
		if c.Store == "live" {
			n.goLive()
		}
	}
}

func (w *World) at(t int64, a, b int, f func()) { heap.Push(&w.q, &event{t, a, b, f}) }

func (w *World) run() {
	w.setupNodes()
	for i := range w.P.Ops {
		o := &w.P.Ops[i]
		w.at(o.At, o.ID, -1, func() { w.exec(o) })
	}
	w.loop()
	w.finish()
}

func (w *World) loop() {
	for w.q.Len() > 0 && !w.halted {
		e := heap.Pop(&w.q).(*event)
		if e.at > w.R.Now {
			if w.sleep {
				time.Sleep(time.Duration(e.at-w.R.Now) * time.Millisecond)
			}
			w.R.Now = e.at
		}
		w.R.Step++
		e.f()
		if w.after != nil {
			w.after()
		}
		if len(w.thefts) > 0 && len(w.R.Res.Violations) == 0 {
			w.followTraffic(false)
		}
		if len(w.R.Res.Violations) > 0 {
			w.halted = true
		}
	}
}

func (w *World) finish() {
	if len(w.thefts) > 0 && len(w.R.Res.Violations) == 0 {
		w.followTraffic(true)
	}
	for _, k := range w.keeps {
		if !bytes.Equal(k.live, k.copy) {
			w.R.Fail("alias", "%s was changed by a later call", k.what)
		}
	}
}

func (w *World) keep(what string, b []byte) {
	if len(w.keeps) < 400 {
		w.keeps = append(w.keeps, keepCheck{what, b, append([]byte(nil), b...)})
	}
}

func (w *World) seedFor(o *Op, idx int) uint64 { return hash64("ent", w.P.Seed, o.ID, idx) }

// node with bounds check; minimised plans may refer to what is not there.
func (w *World) node(i int) *Node {
	if i < 0 || i >= len(w.nodes) {
		return nil
	}
	return w.nodes[i]
}

// ---------------------------------------------------------------- operations

func (w *World) exec(o *Op) {
	a, b := w.node(o.A), w.node(o.B)
	if a == nil || b == nil {
		return
	}
	w.R.Count("op:"+o.Kind, 1)
	switch o.Kind {
	case "init":
		w.opInit(o, a, b)
	case "send":
		w.opSend(o, a, b)
	case "burst", "gburst":
		w.opBurst(o, a, b)
	case "warp":
		w.opWarp(o, a, b)
	case "gwarp":
		w.opGWarp(o, a)
	case "replay":
		if m := w.msgs[o.N]; m != nil {
			for i := range o.Dl {
				w.schedule(m, o, i)
			}
		}
	case "restart":
		a.restart()
		if w.P.Cfg.Mix && w.P.Scenario == "world" && (w.P.Seed+uint64(o.ID))%3 == 0 && a.liveSess == nil && !w.planHas("theft") {
			w.convert(a)
		}
		w.R.Count("fault:restart", 1)
		w.R.Event("restart %d", a.Idx)
	case "hostile":
		w.opHostile(o, a)
	case "resave":
		w.opResave(a)
	case "rotspk":
		w.R.Ent.Start(w.seedFor(o, 0), nil)
		a.addSigned(a.curSPK + 1)
		w.R.Event("rotspk %d", a.Idx)
	case "dropspk":
		id := a.curSPK - 1
		if _, ok := a.D.Signed[id]; ok && a.curSPK > 0 {
			delete(a.D.Signed, id)
			w.R.Event("dropspk %d", a.Idx)
		}
	case "addpk":
		w.R.Ent.Start(w.seedFor(o, 0), nil)
		a.addPreKeys(1 + o.N)
	case "reusepk": // an application whose counter starts again: another one-time prekey under an id used before
		w.R.Ent.Start(w.seedFor(o, 0), nil)
		if k := a.nextOTPK - a.firstOTPK; k > 0 {
			a.reusePreKey(a.firstOTPK + uint32(o.N)%k)
			w.R.Count("fault:prekey id used again", 1)
			w.R.Event("reusepk %d", a.Idx)
		}
	case "respk": // another signed prekey under the present id
		w.R.Ent.Start(w.seedFor(o, 0), nil)
		a.addSigned(a.curSPK)
		w.R.Count("fault:signed prekey replaced", 1)
		w.R.Event("respk %d", a.Idx)
	case "approve": // the application accepts the peer's present identity key
		a.D.Pins[b.Key()] = append([]byte(nil), b.D.IdentPub...)
		w.R.Event("approve %d %d", a.Idx, b.Idx)
	case "unpin":
		delete(a.D.Pins, b.Key())
		w.R.Event("unpin %d %d", a.Idx, b.Idx)
	case "pinother":
		c := w.node(o.N)
		if c != nil {
			a.D.Pins[b.Key()] = append([]byte(nil), c.D.IdentPub...)
			w.R.Count("fault:pin substituted", 1)
			w.R.Event("pinother %d %d", a.Idx, b.Idx)
		}
	case "del":
		delete(a.D.Sessions, b.Key())
		delete(a.liveSess, b.Key())
		delete(w.recs[a.Idx], b.Key())
		a.wiped = true
		w.R.Count("fault:session lost", 1)
		w.R.Event("del %d %d", a.Idx, b.Idx)
	case "wipe":
		a.D.Sessions = map[string][]byte{}
		if a.liveSess != nil {
			clear(a.liveSess)
		}
		w.recs[a.Idx] = map[string]*mRec{}
		a.wiped = true
		a.restart()
		w.R.Count("fault:all sessions lost", 1)
		w.R.Event("wipe %d", a.Idx)
	case "snap":
		w.snaps[a.Idx] = w.snapshot(a)
	case "roll":
		if s := w.snaps[a.Idx]; s != nil {
			a.D = s.d.Clone()
			w.recs[a.Idx] = map[string]*mRec{}
			for k, r := range s.recs {
				w.recs[a.Idx][k] = r.clone()
			}
			w.g.restore(a.Idx, s.grp)
			a.rolled = true
			a.restart()
			a.republish()
			w.R.Count("fault:rollback", 1)
			w.R.Event("roll %d", a.Idx)
		}
	case "reset": // reinstalled: new identity
		a.setup(w.P.Seed^hash64("reset", o.ID), a.Idx)
		if a.liveSess != nil {
			a.goLive()
		}
		w.recs[a.Idx] = map[string]*mRec{}
		a.wiped = true
		w.R.Count("fault:device reset", 1)
		w.R.Event("reset %d", a.Idx)
	case "seize":
		w.opSeize(o, a)
	case "theft":
		w.opTheft(a)
	case "oldkey":
		w.opOldKey(o)
	case "converged":
		w.opConverged(a, b)
	default:
		w.execGroup(o, a, b)
	}
}

func pairIdx(a, b *Node) [2]int { return [2]int{min(a.Idx, b.Idx), max(a.Idx, b.Idx)} }

func (w *World) snapshot(n *Node) *snapshot {
	s := &snapshot{d: n.D.Clone(), recs: map[string]*mRec{}, grp: w.g.save(n.Idx)}
	for k, r := range w.recs[n.Idx] {
		s.recs[k] = r.clone()
	}
	return s
}

// badStart reports what must not happen to any call.
func (w *World) anomalies(o *outcome, what string) bool {
	if o.panicV != nil {
		w.R.Fail("panic", "%s: panic: %v", what, o.panicV)
		return true
	}
	return false
}

// ---------------------------------------------------------------- session initiation

func (w *World) opInit(o *Op, a, b *Node) {
	// S: kind of prekey ("otpk", "none", "last", "dup") and optionally an attack
	kind := o.S
	attack := ""
	if i := strings.IndexByte(kind, '+'); i >= 0 {
		kind, attack = kind[:i], kind[i+1:]
	}
	src := b
	if attack == "wrongid" { // somebody else's complete, valid bundle
		if src = w.node(o.N); src == nil || src == b {
			return
		}
	}
	if o.G == 1 { // judged again once this one has taken place
		w.fresh[pairIdx(a, b)] = false
	}
	spk := (&Stores{src}).LoadSignedPreKey(src.curSPK)
	if spk == nil {
		return
	}
	var otpkID *optional.Uint32
	var otpkPub ecc.ECPublicKeyable
	hasOTPK, id := false, uint32(0)
	switch kind {
	case "otpk":
		if len(src.published) > 0 {
			id, hasOTPK = src.published[0], true
			src.published = src.published[1:]
		}
	case "dup": // the server hands the same prekey out again
		id = src.firstOTPK + uint32(o.M)
		if _, hasOTPK = src.pubKeys[id]; !hasOTPK {
			id = 0
		}
	case "last":
		id, hasOTPK = lastResort, true
	}
	if hasOTPK {
		otpkID = optional.NewOptionalUint32(id)
		otpkPub = src.pubKeys[id].otpk
	} else if o.M%2 == 1 {
		otpkID = optional.NewEmptyUint32()
	}
	// the bundle as read from the device's storage
	pub, _ := ecc.DecodePoint(src.D.IdentPub, 0)
	ident := identity.NewKey(pub)
	spkPub := spk.KeyPair().PublicKey()
	if !eq(spkPub.Serialize(), src.spkPub[src.curSPK]) {
		w.R.Fail("reload", "signed prekey of %s has another public key after it was stored", src.Key())
	}
	sig := spk.Signature()
	r := NewRNG(hash64("init", w.P.Seed, o.ID))
	valid := true
	switch attack {
	case "sigflip":
		sig[r.N(64)] ^= 1 << uint(r.N(8))
		valid = false
	case "sigzero":
		sig = [64]byte{}
		valid = false
	case "sigother": // a genuine signature by the same identity, of another key
		if s := (&Stores{src}).LoadSignedPreKey(src.curSPK); s != nil && src.D.Sender != nil {
			w.R.Ent.Start(hash64("sig", w.P.Seed, o.ID), nil)
			sig = ecc.CalculateSignature((&Stores{src}).GetIdentityKeyPair().PrivateKey(), append([]byte{5}, r.Bytes(32)...))
		}
		valid = false
	case "spkswap":
		k := r.Bytes(32)
		k[31] &= 0x7f
		var kk [32]byte
		copy(kk[:], k)
		spkPub = ecc.NewDjbECPublicKey(kk)
		valid = false
	case "idswap":
		if c := w.node(o.N); c != nil && !eq(c.D.IdentPub, src.D.IdentPub) {
			p, _ := ecc.DecodePoint(c.D.IdentPub, 0)
			ident = identity.NewKey(p)
			valid = false
		}
	case "spktype": // signed, but another byte string than the key that is used
		w.R.Ent.Start(hash64("sig", w.P.Seed, o.ID), nil)
		raw := spkPub.PublicKey()
		sig = ecc.CalculateSignature((&Stores{src}).GetIdentityKeyPair().PrivateKey(), raw[:])
		valid = false
	case "nospk":
		spkPub = nil
		valid = false
	}
	if attack != "" {
		w.R.Count("fault:bundle "+attack, 1)
		w.R.Res.Nontrivial++
	}
	bk := b.Key()
	pin, pinned := a.D.Pins[bk]
	trusted := !pinned || eq(pin, ident.PublicKey().Serialize())
	if !trusted {
		valid = false
	}
	bundle := prekey.NewBundle(src.D.Reg, src.Dev, otpkID, src.curSPK, otpkPub, spkPub, sig, ident)
	before := a.image()
	out := a.call(w.seedFor(o, 0), o.Crash, o.Ent, func() error {
		return a.builder(b.Addr()).ProcessBundle(bundle)
	})
	after := a.image()
	w.R.Event("init %d->%d %s otpk=%v/%d valid=%v: %s", a.Idx, b.Idx, o.S, hasOTPK, id, valid, out)
	if out.entBad > 0 {
		w.R.Count("fault:entropy failure", 1)
		w.R.Res.Nontrivial++
	}
	if w.anomalies(out, "ProcessBundle") {
		if valid {
			w.R.Fail("establish", "ProcessBundle of a valid bundle panics: %v", out.panicV)
		}
		return
	}
	committed := out.ctl.did("StoreSession", bk)
	if w.P.Cfg.EntCheck && out.ok() && out.entBad > 0 && len(out.entLog) < 64 {
		w.R.Fail("entropy", "ProcessBundle succeeds although the entropy source failed")
	}
	switch {
	case out.crashed:
		if !valid && len(before.diff(after)) > 0 {
			w.R.Fail("state", "refused bundle changed state before the crash: %v", before.diff(after))
		}
	case out.ok() && !valid:
		tag := "sig"
		if !trusted {
			tag = "pin"
		}
		w.R.Fail(tag, "bundle accepted although it has to be refused (%s, trusted=%v)", o.S, trusted)
		return
	case !out.ok() && valid && out.entBad == 0:
		w.R.Fail("establish", "valid bundle (%s) refused: %s", o.S, out.why())
		return
	case !out.ok():
		if d := before.diff(after); len(d) > 0 {
			w.R.Fail("state", "refused bundle changed stored state: %v", d)
			if out.entBad > 0 {
				w.R.Fail("entropy", "failed ProcessBundle changed stored state: %v", d)
			}
		}
		w.R.Res.Nontrivial++
	case out.ok():
		if !committed {
			w.R.Fail("durable", "ProcessBundle succeeded without storing the session")
			return
		}
	}
	for _, d := range before.diff(after) {
		if !strings.HasPrefix(d, "session["+bk+"]") && !strings.HasPrefix(d, "pin["+bk+"]") {
			w.R.Fail("state", "ProcessBundle for %s changed %s", bk, d)
		}
	}
	if p, ok := after.Pins[bk]; ok && !bytes.Equal(p, pin) && (!valid || !eq(p, ident.PublicKey().Serialize())) {
		w.R.Fail("pin", "ProcessBundle pinned another key than the verified one")
	}
	if out.ok() && !eq(after.Pins[bk], ident.PublicKey().Serialize()) {
		w.R.Fail("pin", "identity key of a processed bundle is not pinned")
	}
	if !valid || !committed {
		return
	}
	// the model
	g := &gSess{id: len(w.sess), init: a.Idx, initIdent: a.D.IdentPub, peerIdent: src.D.IdentPub, spk: src.curSPK, spkPub: src.spkPub[src.curSPK],
		hasOTPK: hasOTPK, otpk: id, reg: a.D.Reg, peerReg: src.D.Reg, target: bk, opens: map[int]int{}}
	if hasOTPK {
		g.otpkPub = src.otpkPub[id]
	}
	w.sess = append(w.sess, g)
	if g.fresh = o.G > 0; g.fresh {
		w.fresh[pairIdx(a, b)] = true
	}
	g.spkTok = w.newTok(-1, g.id, -1)
	w.toks[g.spkTok].wire = g.spkPub
	st := w.newTok(a.Idx, g.id, g.spkTok)
	w.tokEnt[st] = out.entLog
	w.baseEnt[g.id] = out.entLog
	rec := w.recs[a.Idx][bk]
	if rec == nil {
		rec = &mRec{}
		w.recs[a.Idx][bk] = rec
	}
	rec.archive()
	rec.cur = &mSess{sid: g.id, peerIdent: g.peerIdent, peerReg: g.peerReg, recv: []*mChain{{tok: g.spkTok}}, sendTok: st, unacked: true, initiator: true}
	w.inspect(a, bk)
}

// inspect compares what the stored session says with the model, and its sizes with the limits.
func (w *World) inspect(n *Node, ak string) {
	b := n.image().Sessions[ak]
	if b == nil || len(b) > 400000 && !w.R.tags["retain"] {
		return
	}
	st, err := n.Ser.Session.Deserialize(append([]byte(nil), b...))
	if err != nil || st == nil || st.SessionState == nil {
		w.R.Fail("reload", "stored session does not decode: %v", err)
		return
	}
	if len(st.PreviousStates) > maxArchived {
		w.R.Fail("retain", "%d archived sessions are kept", len(st.PreviousStates))
	}
	states := append(st.PreviousStates, st.SessionState)
	for _, s := range states {
		if len(s.ReceiverChains) > maxChains {
			w.R.Fail("retain", "%d receiving chains are kept", len(s.ReceiverChains))
		}
		for _, c := range s.ReceiverChains {
			if len(c.MessageKeys) > maxSkipped {
				w.R.Fail("retain", "%d skipped keys are kept in one chain", len(c.MessageKeys))
			}
		}
	}
	rec := w.recs[n.Idx][ak]
	if rec == nil || rec.cur == nil {
		return
	}
	c := st.SessionState
	if !eq(c.RemoteIdentityPublic, rec.cur.peerIdent) || !eq(c.LocalIdentityPublic, n.D.IdentPub) {
		w.R.Fail("establish", "the stored session holds other identity keys than the ones it was set up with")
	}
	if c.RemoteRegistrationID != rec.cur.peerReg || c.LocalRegistrationID != n.D.Reg {
		w.R.Fail("establish", "the stored session holds registration ids %d/%d, expected %d/%d", c.LocalRegistrationID, c.RemoteRegistrationID, n.D.Reg, rec.cur.peerReg)
	}
}

// ---------------------------------------------------------------- sending

func (w *World) opSend(o *Op, a, b *Node) {
	bk := b.Key()
	rec := w.recs[a.Idx][bk]
	pt := plaintext(w.P.Seed, o.ID, o.Pt)
	// the caller's buffer has spare capacity with content that must survive
	buf := make([]byte, len(pt)+37)
	copy(buf, pt)
	for i := len(pt); i < len(buf); i++ {
		buf[i] = 0xA5
	}
	full := append([]byte(nil), buf...)
	may := false
	expect := rec != nil && rec.cur != nil
	if expect {
		if pin, ok := a.D.Pins[bk]; ok && !eq(pin, rec.cur.peerIdent) {
			expect = false
		}
	}
	before := a.image()
	var msg protocol.CiphertextMessage
	out := a.call(w.seedFor(o, 0), o.Crash, o.Ent, func() error {
		var err error
		msg, err = a.cipher(b.Addr(), o.N == 1).Encrypt(buf[:len(pt)])
		return err
	})
	after := a.image()
	w.R.Event("send %d->%d #%d len=%d: %s", a.Idx, b.Idx, o.ID, len(pt), out)
	if !bytes.Equal(buf, full) {
		w.R.Fail("alias", "Encrypt changed the caller's plaintext buffer or the memory behind it")
	}
	if w.anomalies(out, "Encrypt") {
		if expect {
			w.R.Fail("deliver", "Encrypt in an established session panics: %v", out.panicV)
		}
		return
	}
	committed := out.ctl.did("StoreSession", bk)
	if !expect && !may {
		if out.ok() {
			if rec == nil || rec.cur == nil {
				w.R.Fail("nosession", "Encrypt without a session succeeded")
			} else {
				w.R.Fail("pin", "Encrypt succeeded for an identity key that is not trusted")
			}
		}
		if d := before.diff(after); len(d) > 0 {
			w.R.Fail("state", "refused Encrypt changed stored state: %v", d)
		}
		w.R.Res.Nontrivial++
		return
	}
	for _, d := range before.diff(after) {
		if d != "session["+bk+"] changed" && !strings.HasPrefix(d, "pin["+bk+"]") {
			w.R.Fail("state", "Encrypt for %s changed %s", bk, d)
		}
	}
	if p, ok := after.Pins[bk]; ok && !eq(p, rec.cur.peerIdent) {
		w.R.Fail("pin", "Encrypt pinned another key than the session's")
	}
	s := rec.cur
	ctr := s.sendNext
	if committed {
		s.sendNext++
	}
	if out.crashed {
		w.R.Count("fault:crash in send", 1)
		w.R.Res.Nontrivial++
		if !committed && len(before.diff(after)) > 0 {
			for _, d := range before.diff(after) {
				if strings.HasPrefix(d, "session") {
					w.R.Fail("durable", "session changed without being stored: %s", d)
				}
			}
		}
		return
	}
	if !out.ok() {
		if out.entBad > 0 {
			if d := before.diff(after); len(d) > 0 {
				w.R.Fail("entropy", "failed Encrypt changed state: %v", d)
			}
			return
		}
		w.R.Fail("deliver", "Encrypt in an established session fails: %s", out.why())
		return
	}
	if msg == nil || reflect.ValueOf(msg).IsNil() {
		w.R.Fail("deliver", "Encrypt in an established session returns neither a message nor an error")
		return
	}
	if !committed {
		w.R.Fail("durable", "Encrypt returned a message before its key was durably used up")
		s.sendNext++
	}
	if w.P.Cfg.Store == "bytes" && bytes.Equal(before.Sessions[bk], after.Sessions[bk]) {
		w.R.Fail("durable", "Encrypt returned a message but the stored session is unchanged")
	}
	if w.P.Cfg.Alias { // the library must not keep using the plaintext buffer
		for i := range buf {
			buf[i] = 0x5A
		}
	}
	wire := msg.Serialize()
	w.keep(fmt.Sprintf("wire form of message #%d", o.ID), wire)
	wire = append([]byte(nil), wire...)
	w.R.Event("wire %s", digest(wire))
	m := &gmsg{label: o.ID, from: a.Idx, to: b.Idx, sid: s.sid, tok: s.sendTok, ctr: ctr, pt: pt, wire: wire, step: w.R.Step,
		got: map[int]bool{}, unsure: map[int]bool{}, keysObj: map[int]*savedKeys{}, obj: map[string]interface{}{}, final: o.S == "final" && (o.G == 0 || w.fresh[pairIdx(a, b)]), sent: w.R.Now, lenient: o.G == 2}
	m.prekey = msg.Type() == protocol.PREKEY_TYPE
	for _, d := range o.Dl {
		if d.Mode == "author" && m.author == nil {
			m.author = authorOf(a, before.Sessions[bk])
		}
	}
	w.checkWire(a, o, s, m, msg)
	w.msgs[o.ID] = m
	w.order = append(w.order, m)
	for i := range o.Dl {
		w.schedule(m, o, i)
	}
}

// authorOf reads the keys of the next message from a stored session.
func authorOf(a *Node, stored []byte) *authorKeys {
	r, err := record.NewSessionFromBytes(append([]byte(nil), stored...), a.Ser.Session, a.Ser.State)
	if err != nil || !r.SessionState().HasSenderChain() {
		return nil
	}
	k, st := r.SessionState().SenderChainKey().MessageKeys(), r.SessionState()
	return &authorKeys{k.CipherKey(), k.MacKey(), k.Iv(), st.LocalIdentityKey().Serialize(), st.RemoteIdentityKey().Serialize()}
}

func (w *World) checkWire(a *Node, o *Op, s *mSess, m *gmsg, msg protocol.CiphertextMessage) {
	ser := w.P.Cfg.Ser
	g := w.sess[s.sid]
	if m.prekey {
		m.pre = parsePre(ser, m.wire)
		if m.pre == nil || m.pre.Sig == nil {
			w.R.Fail("header", "session-opening message does not parse")
			w.halted = true
			return
		}
		m.sig = m.pre.Sig
	} else if msg.Type() == protocol.WHISPER_TYPE {
		m.sig = parseSig(ser, m.wire)
	}
	if m.sig == nil {
		w.R.Fail("header", "message does not parse")
		w.halted = true
		return
	}
	if m.prekey != s.unacked {
		w.R.Fail("establish", "message #%d: opening kind=%v, but first reply received=%v", o.ID, m.prekey, !s.unacked)
	}
	t := w.toks[s.sendTok]
	if t.wire == nil {
		if w.seen[string(m.sig.Ratchet)] {
			w.R.Fail("heal", "ratchet key %s was used before in another chain", short(m.sig.Ratchet))
		}
		t.wire = append([]byte(nil), m.sig.Ratchet...)
		w.noteKey(t.wire)
		if w.P.Cfg.EntCheck {
			w.fromEntropy(t.wire, w.tokEnt[t.id], "ratchet key")
		}
	} else if !eq(t.wire, m.sig.Ratchet) {
		if w.seen[string(m.sig.Ratchet)] {
			w.R.Fail("heal", "message #%d uses an old ratchet key", o.ID)
		}
		w.R.Fail("header", "message #%d: ratchet key changed although the conversation did not turn", o.ID)
	}
	if m.sig.Ver != 3 {
		w.R.Fail("header", "message #%d has version %d", o.ID, m.sig.Ver)
	}
	if m.sig.Ctr != m.ctr {
		w.R.Fail("header", "message #%d has counter %d, expected %d", o.ID, m.sig.Ctr, m.ctr)
	}
	if m.sig.Prev != s.prev {
		w.R.Fail("header", "message #%d has previous counter %d, expected %d", o.ID, m.sig.Prev, s.prev)
	}
	if len(m.sig.Mac) != 8 {
		w.R.Fail("header", "message #%d has a MAC of %d bytes", o.ID, len(m.sig.Mac))
	}
	k := fmt.Sprintf("%x|%d", m.sig.Ratchet, m.sig.Ctr)
	if prev, dup := w.used[k]; dup && !a.rolled {
		w.R.Fail("keyreuse", "messages #%d and #%d are encrypted under the same key (counter %d)", prev, o.ID, m.sig.Ctr)
	}
	w.used[k] = o.ID
	if m.prekey {
		p := m.pre
		if g.base == nil {
			if w.seen[string(p.Base)] {
				w.R.Fail("heal", "base key %s was used before", short(p.Base))
			}
			g.base = append([]byte(nil), p.Base...)
			w.noteKey(g.base)
			w.byBase[string(g.base)] = g
			if w.P.Cfg.EntCheck {
				w.fromEntropy(g.base, w.baseEnt[g.id], "base key")
			}
		}
		if !eq(p.Base, g.base) || !eq(p.Ident, g.initIdent) || p.Reg != g.reg || p.SPK != g.spk || p.HasOTPK != g.hasOTPK || p.OTPK != g.otpk || p.Ver != 3 {
			w.R.Fail("establish", "message #%d: wrong opening header (reg %d/%d spk %d/%d otpk %v,%d/%v,%d base %v ident %v version %d)", o.ID,
				p.Reg, g.reg, p.SPK, g.spk, p.HasOTPK, p.OTPK, g.hasOTPK, g.otpk, eq(p.Base, g.base), eq(p.Ident, g.initIdent), p.Ver)
		}
	}
	w.genuine[m.sig.id()] = m
	// what was serialized parses to the same message
	a.call(1, nil, nil, func() error {
		var again []byte
		var err error
		if m.prekey {
			var x *protocol.PreKeySignalMessage
			x, err = protocol.NewPreKeySignalMessageFromBytes(append([]byte(nil), m.wire...), a.Ser.PreKeySignalMessage, a.Ser.SignalMessage)
			if err == nil {
				again = x.Serialize()
			}
		} else {
			var x *protocol.SignalMessage
			x, err = protocol.NewSignalMessageFromBytes(append([]byte(nil), m.wire...), a.Ser.SignalMessage)
			if err == nil {
				again = x.Serialize()
				st := x.Structure()
				if st.Counter != m.sig.Ctr || st.PreviousCounter != m.sig.Prev || x.Counter() != m.sig.Ctr || !eq(x.Body(), m.sig.CT) ||
					!eq(x.SenderRatchetKey().Serialize(), m.sig.Ratchet) || x.MessageVersion() != m.sig.Ver {
					w.R.Fail("reload", "parsed message #%d has other fields than its wire form", m.label)
				}
			}
		}
		if err != nil {
			w.R.Fail("reload", "message #%d does not parse: %v", m.label, err)
		} else if !eq(again, m.wire) {
			w.R.Fail("reload", "message #%d changes when parsed and serialized again", m.label)
		}
		return nil
	})
}

func x25519Pub(priv []byte) []byte {
	k, err := ecdh.X25519().NewPrivateKey(priv)
	if err != nil {
		return nil
	}
	return append([]byte{5}, k.PublicKey().Bytes()...)
}

// fromEntropy checks that a public key was made from 32 consecutive bytes of the entropy handed out.
func (w *World) fromEntropy(pub, log []byte, what string) {
	for i := 0; i+32 <= len(log); i++ {
		if eq(x25519Pub(log[i:i+32]), pub) {
			w.R.Count("keys traced to entropy", 1)
			return
		}
	}
	w.R.Fail("entropy", "%s %s is not made from the bytes the entropy source delivered", what, short(pub))
}

// ---------------------------------------------------------------- network

func (w *World) schedule(m *gmsg, o *Op, i int) {
	d := o.Dl[i]
	w.at(w.R.Now+d.Delay, o.ID, i, func() { w.arrive(m, o, i, d) })
	if d.Delay > 1000 {
		w.R.Count("fault:delay", 1)
	}
	if i > 0 && d.Mode == "" {
		w.R.Count("fault:duplicate", 1)
	}
}

// opConverged checks that two sides that talked without faults now use one common session.
func (w *World) opConverged(a, b *Node) {
	x, y := w.recs[a.Idx][b.Key()], w.recs[b.Idx][a.Key()]
	if x == nil || y == nil || x.cur == nil || y.cur == nil || w.turns[[2]int{min(a.Idx, b.Idx), max(a.Idx, b.Idx)}] < 2 {
		return
	}
	w.R.Res.Nontrivial++
	w.R.Count("convergence checked", 1)
	if x.cur.sid != y.cur.sid || x.cur.unacked || y.cur.unacked {
		w.R.Fail("converge", "%d and %d have not converged on one session", a.Idx, b.Idx)
	}
}

func (w *World) opResave(n *Node) {
	s := &Stores{n}
	for _, o := range w.nodes {
		if _, ok := n.D.Sessions[o.Key()]; ok {
			r := s.LoadSession(o.Addr())
			before := n.D.Sessions[o.Key()]
			for i := 0; i < 2; i++ {
				s.StoreSession(o.Addr(), r)
				r = s.LoadSession(o.Addr())
			}
			if !eq(before, n.D.Sessions[o.Key()]) {
				w.R.Fail("reload", "session of %s with %s changes when loaded and stored", n.Key(), o.Key())
			}
			w.stateRoundTrip(n, before, hash64("round trip", w.P.Seed, w.R.Step, o.Idx))
		}
	}
	for _, id := range recordIDs(n.D.PreKeys) {
		if b, ok := n.D.PreKeys[id]; ok {
			p := s.LoadPreKey(id)
			if p == nil || !eq(p.Serialize(), b) || p.ID().Value != id || !eq(p.KeyPair().PublicKey().Serialize(), n.otpkPub[id]) {
				w.R.Fail("reload", "prekey %d changes when loaded and stored", id)
			}
		}
	}
	for _, id := range recordIDs(n.D.Signed) {
		if b, ok := n.D.Signed[id]; ok {
			p := s.LoadSignedPreKey(id)
			if p == nil || !eq(p.Serialize(), b) || p.ID() != id || !eq(p.KeyPair().PublicKey().Serialize(), n.spkPub[id]) {
				w.R.Fail("reload", "signed prekey %d changes when loaded and stored", id)
				continue
			}
			pub, _ := ecc.DecodePoint(n.D.IdentPub, 0)
			if !ecc.VerifySignature(pub, p.KeyPair().PublicKey().Serialize(), p.Signature()) {
				w.R.Fail("reload", "signature of signed prekey %d does not verify after loading", id)
			}
		}
	}
	w.keyRecordRoundTrip(n, hash64("key records", w.P.Seed, w.R.Step, n.Idx))
	w.g.resave(w, n)
	w.R.Count("fault:reload", 1)
}

var _ = session.NewCipher
