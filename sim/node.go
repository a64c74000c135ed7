package sim

import (
	"bytes"
	"fmt"
	"runtime"
	"sort"
	"strings"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/groups"
	grecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/logger"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/session"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
)

// ---------------------------------------------------------------- logger seam

type simLogger struct{ hook func() }

func (l *simLogger) at() {
	if l.hook != nil {
		l.hook()
	}
}
func (l *simLogger) Debug(c, m string)   { l.at() }
func (l *simLogger) Info(c, m string)    { l.at() }
func (l *simLogger) Warning(c, m string) { l.at() }
func (l *simLogger) Error(c, m string)   { l.at() }
func (l *simLogger) Configure(s string)  {}

var theLogger = &simLogger{}

func installLogger() {
	var l logger.Loggable = theLogger
	logger.Setup(&l)
}

func newSerializer(kind string) *serialize.Serializer {
	if kind == "json" {
		return serialize.NewJSONSerializer()
	}
	return serialize.NewProtoBufSerializer()
}

// serializer is what the devices of a run use.
func (c *Cfg) serializer() *serialize.Serializer {
	s := newSerializer(c.Ser)
	if c.Mix {
		other := "proto"
		if c.Ser == "proto" {
			other = "json"
		}
		storeWith(s, newSerializer(other))
	}
	return s
}

// storeWith makes s store records like o, and leaves the messages alone.
func storeWith(s, o *serialize.Serializer) {
	s.SenderKeyRecord, s.SenderKeyState = o.SenderKeyRecord, o.SenderKeyState
	s.SignedPreKeyRecord, s.PreKeyRecord = o.SignedPreKeyRecord, o.PreKeyRecord
	s.State, s.Session = o.State, o.Session
}

// convert moves all records of a device to the other format, as an application does that changes
// its storage.
func (w *World) convert(n *Node) {
	old := n.Ser
	next := *old
	to := "json"
	if n.converted != (w.P.Cfg.Ser == "proto") { // JSON now
		to = "proto"
	}
	n.converted = !n.converted
	storeWith(&next, newSerializer(to))
	disks := []*Disk{n.D}
	if s := w.snaps[n.Idx]; s != nil {
		disks = append(disks, s.d)
	}
	fail := func(what string, err error) {
		w.R.Fail("reload", "stored %s does not convert: %v", what, err)
	}
	own := func(b []byte) []byte { return append([]byte(nil), b...) }
	for _, d := range disks {
		for _, k := range sortedKeys(d.Sessions) {
			st, err := old.Session.Deserialize(own(d.Sessions[k]))
			if err == nil {
				var r *record.Session
				if r, err = record.NewSessionFromStructure(st, next.Session, next.State); err == nil {
					d.Sessions[k] = own(r.Serialize())
				}
			}
			if err != nil {
				fail("session", err)
			}
		}
		for _, k := range sortedKeys(d.Sender) {
			st, err := old.SenderKeyRecord.Deserialize(own(d.Sender[k]))
			if err == nil {
				var r *grecord.SenderKey
				if r, err = grecord.NewSenderKeyFromStruct(st, next.SenderKeyRecord, next.SenderKeyState); err == nil {
					d.Sender[k] = own(r.Serialize())
				}
			}
			if err != nil {
				fail("sender key", err)
			}
		}
		for _, k := range recordIDs(d.PreKeys) {
			st, err := old.PreKeyRecord.Deserialize(own(d.PreKeys[k]))
			if err == nil {
				var r *record.PreKey
				if r, err = record.NewPreKeyFromStruct(st, next.PreKeyRecord); err == nil {
					d.PreKeys[k] = own(r.Serialize())
				}
			}
			if err != nil {
				fail("prekey", err)
			}
		}
		for _, k := range recordIDs(d.Signed) {
			st, err := old.SignedPreKeyRecord.Deserialize(own(d.Signed[k]))
			if err == nil {
				var r *record.SignedPreKey
				if r, err = record.NewSignedPreKeyFromStruct(st, next.SignedPreKeyRecord); err == nil {
					d.Signed[k] = own(r.Serialize())
				}
			}
			if err != nil {
				fail("signed prekey", err)
			}
		}
	}
	n.Ser = &next
	w.R.Count("storage format converted", 1)
	w.R.Event("convert %d to %s", n.Idx, to)
}

func (w *World) planHas(kind string) bool {
	for i := range w.P.Ops {
		if w.P.Ops[i].Kind == kind {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- durable state

// Disk is everything that survives a crash of a device. Values are never modified in place.
type Disk struct {
	Ident    []byte // private key
	IdentPub []byte // serialized public key
	Reg      uint32
	Sessions map[string][]byte
	PreKeys  map[uint32][]byte
	Signed   map[uint32][]byte
	Pins     map[string][]byte
	Sender   map[string][]byte
}

func newDisk() *Disk {
	return &Disk{Sessions: map[string][]byte{}, PreKeys: map[uint32][]byte{}, Signed: map[uint32][]byte{},
		Pins: map[string][]byte{}, Sender: map[string][]byte{}}
}

func copyMap[K comparable](m map[K][]byte) map[K][]byte {
	c := make(map[K][]byte, len(m))
	for k, v := range m {
		c[k] = v
	}
	return c
}

func (d *Disk) Clone() *Disk {
	c := *d
	c.Sessions = copyMap(d.Sessions)
	c.PreKeys = copyMap(d.PreKeys)
	c.Signed = copyMap(d.Signed)
	c.Pins = copyMap(d.Pins)
	c.Sender = copyMap(d.Sender)
	return &c
}

// diff lists the entries in which two disks differ.
func (d *Disk) diff(o *Disk) []string {
	var out []string
	cmpS := func(kind string, a, b map[string][]byte) {
		for k, v := range a {
			if w, ok := b[k]; !ok {
				out = append(out, kind+"["+k+"] removed")
			} else if !bytes.Equal(v, w) {
				out = append(out, kind+"["+k+"] changed")
			}
		}
		for k := range b {
			if _, ok := a[k]; !ok {
				out = append(out, kind+"["+k+"] created")
			}
		}
	}
	cmpU := func(kind string, a, b map[uint32][]byte) {
		x, y := map[string][]byte{}, map[string][]byte{}
		for k, v := range a {
			x[fmt.Sprint(k)] = v
		}
		for k, v := range b {
			y[fmt.Sprint(k)] = v
		}
		cmpS(kind, x, y)
	}
	cmpS("session", d.Sessions, o.Sessions)
	cmpU("prekey", d.PreKeys, o.PreKeys)
	cmpU("signedprekey", d.Signed, o.Signed)
	cmpS("pin", d.Pins, o.Pins)
	cmpS("senderkey", d.Sender, o.Sender)
	if !bytes.Equal(d.Ident, o.Ident) || d.Reg != o.Reg {
		out = append(out, "identity changed")
	}
	sort.Strings(out)
	return out
}

// ---------------------------------------------------------------- calls, crashes

type crashSignal struct{}

type storeEvent struct {
	Op, Key string
	Done    bool
}

// callCtl belongs to one call into the library: it counts store operations and crashes the device.
type callCtl struct {
	n     int
	crash *Crash
	log   []storeEvent
}

func (c *callCtl) did(op, key string) bool {
	for _, e := range c.log {
		if e.Op == op && e.Key == key && e.Done {
			return true
		}
	}
	return false
}
func (c *callCtl) touched() bool {
	for _, e := range c.log {
		switch e.Op {
		case "StoreSession", "RemovePreKey", "StorePreKey", "SaveIdentity", "StoreSenderKey", "DeleteSession", "StoreSigned", "RemoveSigned":
			if e.Done {
				return true
			}
		}
	}
	return false
}

// Node is one device.
type Node struct {
	W    *World
	Idx  int
	Name string
	Dev  uint32
	Ser  *serialize.Serializer
	D    *Disk
	ctl  *callCtl
	// volatile state, lost in a crash
	builders map[string]*session.Builder
	ciphers  map[string]*session.Cipher
	gbuilder *groups.SessionBuilder
	gciphers map[string]*groups.GroupCipher
	liveSess map[string]*record.Session
	liveSK   map[string]*grecord.SenderKey
	livePK   map[uint32]*record.PreKey
	liveSPK  map[uint32]*record.SignedPreKey

	// bookkeeping of the simulator (not part of the device)
	otpkPub   map[uint32][]byte // true public halves
	otpkPriv  map[uint32][]byte
	spkPub    map[uint32][]byte
	curSPK    uint32
	nextOTPK  uint32
	firstOTPK uint32
	published []uint32 // one-time prekeys the server still hands out
	pubKeys   map[uint32]pubKey
	rolled    bool
	converted bool // an odd number of times
	wiped     bool
	scope     func(kind, key string) bool
}

type pubKey struct {
	otpk ecc.ECPublicKeyable
}

func addrKey(name string, dev uint32) string { return fmt.Sprintf("%q|%d", name, dev) }
func keyOf(a *protocol.SignalAddress) string { return addrKey(a.Name(), a.DeviceID()) }
func skKey(n *protocol.SenderKeyName) string {
	return fmt.Sprintf("%q|", n.GroupID()) + keyOf(n.Sender())
}

func (n *Node) Key() string { return addrKey(n.Name, n.Dev) }

// Addr makes a new address object each time: stores must not depend on object identity.
func (n *Node) Addr() *protocol.SignalAddress {
	return protocol.NewSignalAddress(string([]byte(n.Name)), n.Dev)
}

// hook runs around every store operation.
func (n *Node) hook(op, key string, effect func()) {
	w := n.W
	if w.onStore != nil {
		w.onStore(n, op, key)
	}
	w.yield("store:" + op)
	if raceBuild {
		defer raceOut()
	}
	c := n.ctl
	if c == nil {
		if effect != nil {
			effect()
		}
		return
	}
	idx := c.n
	c.n++
	if c.crash != nil && c.crash.At == idx && !c.crash.After {
		c.log = append(c.log, storeEvent{op, key, false})
		panic(crashSignal{})
	}
	if effect != nil {
		effect()
	}
	c.log = append(c.log, storeEvent{op, key, true})
	if c.crash != nil && c.crash.At == idx && c.crash.After {
		panic(crashSignal{})
	}
}

// Stores is the handle given to the library. It implements all store interfaces.
type Stores struct{ n *Node }

func (s *Stores) GetIdentityKeyPair() *identity.KeyPair {
	var kp *identity.KeyPair
	s.n.hook("GetIdentityKeyPair", "", func() {
		pub, err := ecc.DecodePoint(s.n.D.IdentPub, 0)
		if err != nil {
			panic("simulator: " + err.Error())
		}
		var priv [32]byte
		copy(priv[:], s.n.D.Ident)
		kp = identity.NewKeyPair(identity.NewKey(pub), ecc.NewDjbECPrivateKey(priv))
	})
	return kp
}
func (s *Stores) GetLocalRegistrationId() uint32 {
	s.n.hook("GetLocalRegistrationId", "", nil)
	return s.n.D.Reg
}
func (s *Stores) SaveIdentity(a *protocol.SignalAddress, k *identity.Key) {
	s.n.hook("SaveIdentity", keyOf(a), func() {
		s.n.D.Pins[keyOf(a)] = append([]byte(nil), k.PublicKey().Serialize()...)
	})
}
func (s *Stores) IsTrustedIdentity(a *protocol.SignalAddress, k *identity.Key) bool {
	ok := false
	s.n.hook("IsTrustedIdentity", keyOf(a), func() {
		pin, has := s.n.D.Pins[keyOf(a)]
		ok = !has || (k != nil && bytes.Equal(pin, k.PublicKey().Serialize()))
	})
	return ok
}

func (s *Stores) LoadPreKey(id uint32) *record.PreKey {
	var r *record.PreKey
	s.n.hook("LoadPreKey", fmt.Sprint(id), func() {
		if s.n.livePK != nil {
			r = s.n.livePK[id]
			return
		}
		b, ok := s.n.D.PreKeys[id]
		if !ok {
			return
		}
		var err error
		raceOut()
		r, err = record.NewPreKeyFromBytes(append([]byte(nil), b...), s.n.Ser.PreKeyRecord)
		if err != nil {
			s.n.W.R.Fail("reload", "stored prekey %d does not load: %v", id, err)
			r = nil
		}
	})
	return r
}
func (s *Stores) StorePreKey(id uint32, p *record.PreKey) {
	s.n.hook("StorePreKey", fmt.Sprint(id), func() { s.n.D.PreKeys[id] = p.Serialize() })
}
func (s *Stores) ContainsPreKey(id uint32) bool {
	ok := false
	s.n.hook("ContainsPreKey", fmt.Sprint(id), func() { _, ok = s.n.D.PreKeys[id] })
	return ok
}
func (s *Stores) RemovePreKey(id uint32) {
	s.n.hook("RemovePreKey", fmt.Sprint(id), func() {
		delete(s.n.D.PreKeys, id)
		if s.n.livePK != nil {
			delete(s.n.livePK, id)
		}
	})
}

func (s *Stores) LoadSignedPreKey(id uint32) *record.SignedPreKey {
	var r *record.SignedPreKey
	s.n.hook("LoadSignedPreKey", fmt.Sprint(id), func() { r = s.n.loadSigned(id) })
	return r
}
func (n *Node) loadSigned(id uint32) *record.SignedPreKey {
	if n.liveSPK != nil {
		return n.liveSPK[id]
	}
	b, ok := n.D.Signed[id]
	if !ok {
		return nil
	}
	raceOut()
	r, err := record.NewSignedPreKeyFromBytes(append([]byte(nil), b...), n.Ser.SignedPreKeyRecord)
	if err != nil {
		n.W.R.Fail("reload", "stored signed prekey %d does not load: %v", id, err)
		return nil
	}
	return r
}
func (s *Stores) LoadSignedPreKeys() []*record.SignedPreKey {
	var out []*record.SignedPreKey
	s.n.hook("LoadSignedPreKeys", "", func() {
		var ids []int
		for id := range s.n.D.Signed {
			ids = append(ids, int(id))
		}
		sort.Ints(ids)
		for _, id := range ids {
			if r := s.n.loadSigned(uint32(id)); r != nil {
				out = append(out, r)
			}
		}
	})
	return out
}
func (s *Stores) StoreSignedPreKey(id uint32, p *record.SignedPreKey) {
	s.n.hook("StoreSigned", fmt.Sprint(id), func() { s.n.D.Signed[id] = p.Serialize() })
}
func (s *Stores) ContainsSignedPreKey(id uint32) bool {
	ok := false
	s.n.hook("ContainsSigned", fmt.Sprint(id), func() { _, ok = s.n.D.Signed[id] })
	return ok
}
func (s *Stores) RemoveSignedPreKey(id uint32) {
	s.n.hook("RemoveSigned", fmt.Sprint(id), func() { delete(s.n.D.Signed, id) })
}

func (s *Stores) LoadSession(a *protocol.SignalAddress) *record.Session {
	var r *record.Session
	s.n.hook("LoadSession", keyOf(a), func() {
		n := s.n
		if n.liveSess != nil {
			if r = n.liveSess[keyOf(a)]; r == nil {
				r = record.NewSession(n.Ser.Session, n.Ser.State)
			}
			return
		}
		b, ok := n.D.Sessions[keyOf(a)]
		if !ok {
			r = record.NewSession(n.Ser.Session, n.Ser.State)
			return
		}
		var err error
		raceOut()
		r, err = record.NewSessionFromBytes(append([]byte(nil), b...), n.Ser.Session, n.Ser.State)
		if err != nil {
			n.W.R.Fail("reload", "stored session with %s does not load: %v", keyOf(a), err)
			r = record.NewSession(n.Ser.Session, n.Ser.State)
		} else if n.W.P.Cfg.Reload {
			again := r.Serialize()
			if !bytes.Equal(again, b) {
				n.W.R.Fail("reload", "session with %s changes when it is loaded and serialized again", keyOf(a))
			}
		}
	})
	return r
}
func (s *Stores) GetSubDeviceSessions(name string) []uint32 {
	var out []uint32
	s.n.hook("GetSubDeviceSessions", name, nil)
	return out
}
func (s *Stores) StoreSession(a *protocol.SignalAddress, r *record.Session) {
	s.n.hook("StoreSession", keyOf(a), func() {
		if s.n.liveSess != nil {
			s.n.liveSess[keyOf(a)] = r
			return
		}
		s.n.D.Sessions[keyOf(a)] = append([]byte(nil), r.Serialize()...)
	})
}
func (s *Stores) ContainsSession(a *protocol.SignalAddress) bool {
	ok := false
	s.n.hook("ContainsSession", keyOf(a), func() {
		if s.n.liveSess != nil {
			ok = s.n.liveSess[keyOf(a)] != nil
			return
		}
		_, ok = s.n.D.Sessions[keyOf(a)]
	})
	return ok
}
func (s *Stores) DeleteSession(a *protocol.SignalAddress) {
	s.n.hook("DeleteSession", keyOf(a), func() { delete(s.n.D.Sessions, keyOf(a)) })
}
func (s *Stores) DeleteAllSessions() {
	s.n.hook("DeleteAllSessions", "", func() { s.n.D.Sessions = map[string][]byte{} })
}

func (s *Stores) StoreSenderKey(name *protocol.SenderKeyName, r *grecord.SenderKey) {
	s.n.hook("StoreSenderKey", skKey(name), func() {
		if s.n.liveSK != nil {
			s.n.liveSK[skKey(name)] = r
			return
		}
		s.n.D.Sender[skKey(name)] = append([]byte(nil), r.Serialize()...)
	})
}
func (s *Stores) LoadSenderKey(name *protocol.SenderKeyName) *grecord.SenderKey {
	var r *grecord.SenderKey
	s.n.hook("LoadSenderKey", skKey(name), func() {
		n := s.n
		if n.liveSK != nil {
			r = n.liveSK[skKey(name)]
			return
		}
		b, ok := n.D.Sender[skKey(name)]
		if !ok {
			return
		}
		var err error
		raceOut()
		r, err = grecord.NewSenderKeyFromBytes(append([]byte(nil), b...), n.Ser.SenderKeyRecord, n.Ser.SenderKeyState)
		if err != nil {
			n.W.R.Fail("reload", "stored sender key %s does not load: %v", skKey(name), err)
			r = nil
		} else if n.W.P.Cfg.Reload {
			if again := r.Serialize(); !bytes.Equal(again, b) {
				n.W.R.Fail("reload", "sender key %s changes when it is loaded and serialized again", skKey(name))
			}
		}
	})
	return r
}

// image is the current content of all stores, whatever their kind.
func (n *Node) image() *Disk {
	d := n.D.Clone()
	for _, k := range sortedKeys(n.liveSess) {
		d.Sessions[k] = n.serialized(k, n.liveSess[k].Serialize)
	}
	for _, k := range sortedKeys(n.liveSK) {
		d.Sender[k] = n.serialized(k, n.liveSK[k].Serialize)
	}
	if n.scope != nil {
		for k := range d.Sessions {
			if !n.scope("session", k) {
				delete(d.Sessions, k)
			}
		}
		for k := range d.Pins {
			if !n.scope("pin", k) {
				delete(d.Pins, k)
			}
		}
		for k := range d.Sender {
			if !n.scope("senderkey", k) {
				delete(d.Sender, k)
			}
		}
		for k := range d.PreKeys {
			if !n.scope("prekey", fmt.Sprint(k)) {
				delete(d.PreKeys, k)
			}
		}
		for k := range d.Signed {
			if !n.scope("signedprekey", fmt.Sprint(k)) {
				delete(d.Signed, k)
			}
		}
	}
	return d
}

func recordIDs(m map[uint32][]byte) []uint32 {
	var ids []uint32
	for id := range m {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}

func (n *Node) restart() {
	n.builders = map[string]*session.Builder{}
	n.ciphers = map[string]*session.Cipher{}
	n.gciphers = map[string]*groups.GroupCipher{}
	n.gbuilder = nil
}

func (n *Node) builder(a *protocol.SignalAddress) *session.Builder {
	s := &Stores{n}
	make := func() *session.Builder {
		if (n.W.P.Seed>>8+uint64(n.Idx))%3 == 0 { // one object that is all the stores
			return session.NewBuilderFromSignal(s, a, n.Ser)
		}
		return session.NewBuilder(s, s, s, s, a, n.Ser)
	}
	if !n.W.P.Cfg.Cached {
		return make()
	}
	k := keyOf(a)
	if n.builders[k] == nil {
		n.builders[k] = make()
	}
	return n.builders[k]
}

func (n *Node) cipher(a *protocol.SignalAddress, plainOnly bool) *session.Cipher {
	s := &Stores{n}
	if !n.W.P.Cfg.Cached {
		if plainOnly {
			return session.NewCipherFromSession(a, s, s, s, n.Ser.PreKeySignalMessage, n.Ser.SignalMessage)
		}
		return session.NewCipher(n.builder(a), a)
	}
	k := keyOf(a)
	if n.ciphers[k] == nil {
		n.ciphers[k] = session.NewCipher(n.builder(a), a)
	}
	return n.ciphers[k]
}

func (n *Node) groupBuilder() *groups.SessionBuilder {
	s := &Stores{n}
	if !n.W.P.Cfg.Cached {
		return groups.NewGroupSessionBuilder(s, n.Ser)
	}
	if n.gbuilder == nil {
		n.gbuilder = groups.NewGroupSessionBuilder(s, n.Ser)
	}
	return n.gbuilder
}

func (n *Node) groupCipher(name *protocol.SenderKeyName) *groups.GroupCipher {
	s := &Stores{n}
	if !n.W.P.Cfg.Cached {
		return groups.NewGroupCipher(n.groupBuilder(), name, s)
	}
	k := skKey(name)
	if n.gciphers[k] == nil {
		n.gciphers[k] = groups.NewGroupCipher(n.groupBuilder(), name, s)
	}
	return n.gciphers[k]
}

// outcome of one call into the library.
type outcome struct {
	err     error
	crashed bool
	panicV  interface{}
	ctl     *callCtl
	entLog  []byte
	entBad  int
	entReq  int
}

func (o *outcome) ok() bool { return o.err == nil && !o.crashed && o.panicV == nil }
func (o *outcome) String() string {
	switch {
	case o.crashed:
		return "crash"
	case o.panicV != nil:
		return fmt.Sprintf("panic(%v)", o.panicV)
	case o.err != nil:
		return "error"
	}
	return "ok"
}
func (o *outcome) why() string {
	if o.panicV != nil {
		return fmt.Sprintf("panic: %v", o.panicV)
	}
	if o.err != nil {
		return o.err.Error()
	}
	return o.String()
}

// call runs one call into the library on a device, under a crash plan and an entropy stream.
func (n *Node) call(entSeed uint64, crash *Crash, ef *EntFault, f func() error) (o *outcome) {
	w := n.W
	o = &outcome{ctl: &callCtl{crash: crash}}
	prev := n.ctl
	n.ctl = o.ctl
	w.R.Ent.Start(entSeed, ef)
	defer func() {
		n.ctl = prev
		o.entLog = w.R.Ent.Delivered()
		o.entBad = w.R.Ent.Failed
		o.entReq = w.R.Ent.requests
		if r := recover(); r != nil {
			if _, isCrash := r.(crashSignal); isCrash {
				o.crashed = true
				n.restart()
				w.R.Count("fault:crash", 1)
				return
			}
			o.panicV = fmt.Sprint(r) + panicSite()
		}
	}()
	o.err = f()
	return o
}

// ---------------------------------------------------------------- device setup

// setup makes a new identity, signed prekey and one-time prekeys. Devices with the same number "as"
// belong to one user and have the same identity.
func (n *Node) setup(seed uint64, as int) {
	n.D = newDisk()
	n.restart()
	n.otpkPub = map[uint32][]byte{}
	n.otpkPriv = map[uint32][]byte{}
	n.spkPub = map[uint32][]byte{}
	n.pubKeys = map[uint32]pubKey{}
	n.published = nil
	n.nextOTPK = 1
	n.curSPK = 0
	n.W.R.Ent.Start(hash64(seed, "setup", as), nil)
	kp, err := keyhelper.GenerateIdentityKeyPair()
	if err != nil {
		panic(err)
	}
	if as != n.Idx {
		n.W.R.Ent.Start(hash64(seed, "setup", n.Idx, "own"), nil)
	}
	priv := kp.PrivateKey().Serialize()
	n.D.Ident = priv[:]
	n.D.IdentPub = kp.PublicKey().PublicKey().Serialize()
	n.D.Reg = keyhelper.GenerateRegistrationID()
	spkID := uint32(NewRNG(hash64(seed, "spkid", n.Idx)).Pick(3, 3, 1) * 7)
	if ids := n.W.P.Cfg.Ids; ids != 0 {
		r := NewRNG(hash64(ids, n.Idx))
		n.nextOTPK = []uint32{0, 1, 126, 254, 0x7FFE, 0xFFFD, 0x7FFFFE, 0xFFFFF0}[r.N(8)]
		spkID = []uint32{0, 1, 127, 254, 0x7FFF, 0xFFFE, 0xFFFFFD, 0x7FFFFFFE, 0xFFFFFF00}[r.N(9)]
		n.D.Reg = []uint32{0, 1, 127, 16380, 0xFFFF, 0x10000, 0x7FFFFFFF, 0xFFFFFFFF, n.D.Reg}[r.N(9)]
	}
	n.firstOTPK = n.nextOTPK
	n.addSigned(spkID)
	n.addPreKeys(n.W.P.Cfg.OTPKs)
	lr, err := keyhelper.GenerateLastResortKey(n.Ser.PreKeyRecord)
	if err != nil {
		panic(err)
	}
	n.storePreKey(lr)
}

func (n *Node) storePreKey(p *record.PreKey) {
	id := p.ID().Value
	n.otpkPub[id] = p.KeyPair().PublicKey().Serialize()
	pv := p.KeyPair().PrivateKey().Serialize()
	n.otpkPriv[id] = pv[:]
	n.W.noteKey(n.otpkPub[id])
	n.D.PreKeys[id] = p.Serialize()
	if n.W.P.Cfg.Store == "live" {
		if n.livePK == nil {
			n.livePK = map[uint32]*record.PreKey{}
		}
		n.livePK[id] = p
	}
	n.publish(id)
}

// publish uploads the public half, as read back from storage, to the server.
func (n *Node) publish(id uint32) {
	r := (&Stores{n}).LoadPreKey(id)
	if r == nil {
		return
	}
	if !bytes.Equal(r.KeyPair().PublicKey().Serialize(), n.otpkPub[id]) {
		n.W.R.Fail("reload", "prekey %d of %s has another public key after it was stored", id, n.Key())
	}
	n.pubKeys[id] = pubKey{otpk: r.KeyPair().PublicKey()}
	if id != 0xFFFFFF {
		n.published = append(n.published, id)
	}
}

func (n *Node) addPreKeys(count int) {
	if count <= 0 {
		return
	}
	start := int(n.nextOTPK)
	ks, err := keyhelper.GeneratePreKeys(start, start+count-1, n.Ser.PreKeyRecord)
	if err != nil {
		panic(err)
	}
	if len(ks) != count {
		n.W.R.Fail("establish", "GeneratePreKeys(%d, %d) made %d keys", start, start+count-1, len(ks))
	}
	for _, k := range ks {
		n.storePreKey(k)
	}
	n.nextOTPK += uint32(count)
}

func (n *Node) reusePreKey(id uint32) {
	ks, err := keyhelper.GeneratePreKeys(int(id), int(id), n.Ser.PreKeyRecord)
	if err != nil || len(ks) != 1 {
		panic(fmt.Sprint("GeneratePreKeys: ", err, len(ks)))
	}
	keep := n.published[:0:0]
	for _, p := range n.published {
		if p != id {
			keep = append(keep, p)
		}
	}
	n.published = keep
	n.storePreKey(ks[0])
}

func (n *Node) addSigned(id uint32) {
	kp := (&Stores{n}).GetIdentityKeyPair()
	spk, err := keyhelper.GenerateSignedPreKey(kp, id, n.Ser.SignedPreKeyRecord)
	if err != nil {
		panic(err)
	}
	n.spkPub[id] = spk.KeyPair().PublicKey().Serialize()
	n.W.noteKey(n.spkPub[id])
	n.D.Signed[id] = spk.Serialize()
	if n.W.P.Cfg.Store == "live" {
		if n.liveSPK == nil {
			n.liveSPK = map[uint32]*record.SignedPreKey{}
		}
		n.liveSPK[id] = spk
	}
	n.curSPK = id
}

// republish follows the return of an earlier state: the server hands out only
// what the device still holds.
func (n *Node) republish() {
	st := &Stores{n}
	top, have := uint32(0), false
	for id := range n.D.Signed {
		if k := st.LoadSignedPreKey(id); k != nil {
			n.spkPub[id] = k.KeyPair().PublicKey().Serialize()
		}
		if !have || id > top {
			top, have = id, true
		}
	}
	if _, ok := n.D.Signed[n.curSPK]; !ok && have {
		n.curSPK = top
	}
	keep := n.published[:0:0]
	for _, id := range n.published {
		if r := st.LoadPreKey(id); r != nil && bytes.Equal(r.KeyPair().PublicKey().Serialize(), n.otpkPub[id]) {
			keep = append(keep, id)
		}
	}
	n.published = keep
}

// serialized is the serialized form of a record held by the application.
func (n *Node) serialized(key string, f func() []byte) (b []byte) {
	defer func() {
		if p := recover(); p != nil {
			n.W.R.Fail("state", "the record held for %s is left in a state that cannot be serialized: %v", key, p)
			b = []byte("broken")
		}
	}()
	return f()
}

// panicSite is the place in the library where the panic being recovered arose.
func panicSite() string {
	var pcs [64]uintptr
	fr := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs[:])])
	for {
		f, more := fr.Next()
		if i := strings.Index(f.Function, "libsignal-protocol-go/"); i >= 0 {
			return " in " + f.Function[i+len("libsignal-protocol-go/"):]
		}
		if !more {
			return ""
		}
	}
}
