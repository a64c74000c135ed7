package sim

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/groups"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/session"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

// Concurrent conversations on shared devices under a cooperative scheduler (C19). Each conversation
// is a goroutine that performs its script; it stops at every store, log, entropy and serializer
// call. What it observes has to be what it observes when it runs alone.

// ySer stops before and after every serializer call.
type ySer[T any] struct {
	in interface {
		Serialize(*T) []byte
		Deserialize([]byte) (*T, error)
	}
	y func(string)
}

func (s *ySer[T]) Serialize(x *T) []byte {
	s.y("serialize")
	b := s.in.Serialize(x)
	s.y("serialized")
	return b
}
func (s *ySer[T]) Deserialize(b []byte) (*T, error) {
	s.y("deserialize")
	x, err := s.in.Deserialize(b)
	s.y("deserialized")
	return x, err
}

func wrapSer[T any](in interface {
	Serialize(*T) []byte
	Deserialize([]byte) (*T, error)
}, y func(string)) *ySer[T] {
	return &ySer[T]{in, y}
}

type conv struct {
	idx    int
	group  string
	nodes  []int
	ops    []*Op
	task   *coopTask
	log    []string
	msgs   map[int]*cmsg
	broken string
}

type cmsg struct {
	from int
	kind string
	wire []byte
}

type isolation struct {
	r     *Run
	w     *World
	c     *coop
	convs []*conv
	solo  int // -1: all together
}

func convGroup(i int) string {
	return []string{"group", "group", "g:1", "", "ünï"}[i%5] + strings.Repeat("x", i/5) + []string{"", "2", "", "", ""}[i%5]
}

// runWorld executes the conversations, all together or one alone, and returns their transcripts.
func (x *isolation) runWorld() {
	r := x.r
	r.Ent.Start(hash64("world", r.P.Seed), nil)
	x.w = newWorld(r)
	w := x.w
	y := func(where string) { x.c.park(where) }
	w.yield = func(string) {}
	w.setupNodes()
	for _, n := range w.nodes {
		s := n.Ser
		s.SenderKeyRecord = wrapSer(s.SenderKeyRecord, y)
		s.SenderKeyState = wrapSer(s.SenderKeyState, y)
		s.SignalMessage = wrapSer(s.SignalMessage, y)
		s.PreKeySignalMessage = wrapSer(s.PreKeySignalMessage, y)
		s.SenderKeyMessage = wrapSer(s.SenderKeyMessage, y)
		s.SenderKeyDistributionMessage = wrapSer(s.SenderKeyDistributionMessage, y)
		s.SignedPreKeyRecord = wrapSer(s.SignedPreKeyRecord, y)
		s.PreKeyRecord = wrapSer(s.PreKeyRecord, y)
		s.State = wrapSer(s.State, y)
		s.Session = wrapSer(s.Session, y)
	}
	r.Ent.ck = nil
	w.yield = y
	x.c = newCoop(r)
	x.convs = nil
	byIdx := map[int]*conv{}
	for i := range r.P.Ops {
		o := &r.P.Ops[i]
		if x.solo >= 0 && o.G != x.solo {
			continue
		}
		c := byIdx[o.G]
		if c == nil {
			c = &conv{idx: o.G, msgs: map[int]*cmsg{}}
			byIdx[o.G] = c
			x.convs = append(x.convs, c)
		}
		c.ops = append(c.ops, o)
	}
	w.onStore = func(n *Node, op, key string) {
		t := x.c.here()
		if t == nil {
			return
		}
		for _, c := range x.convs {
			if c.task == t && !c.allowed(w, n, op, key) {
				c.broken = fmt.Sprintf("%s(%s) on device %d", op, key, n.Idx)
			}
		}
	}
	x.c.install()
	defer x.c.uninstall()
	rng := NewRNG(hash64("sched", r.P.Seed))
	for _, c := range x.convs {
		c := c
		c.task = x.c.newTask(0, nil)
		c.task.prio = rng.N(1 << 20)
		x.c.begin(c.task, func() {
			go func() {
				x.c.park("start")
				for _, o := range c.ops {
					x.step(c, o)
				}
				raceOut()
				x.c.end()
			}()
		})
	}
	last := -1
	for n := 0; n < 2000000; n++ {
		p := x.c.parked()
		if len(p) == 0 {
			break
		}
		t := x.c.choose(rng, r.P.Cfg.X, r.P.Cfg.Y, p)
		if t.id != last && last >= 0 {
			r.Count("context switches", 1)
		}
		last = t.id
		x.c.release(t)
	}
	for _, c := range x.convs {
		if c.task.state != 2 {
			c.log = append(c.log, "never ends")
		}
	}
}

func (c *conv) peer(w *World, key string) bool {
	for _, o := range c.ops {
		for _, k := range []int{o.A, o.B} {
			if n := w.node(k); n != nil && n.Key() == key {
				return true
			}
		}
	}
	return false
}

// allowed tells whether a store operation belongs to the conversation.
func (c *conv) allowed(w *World, n *Node, op, key string) bool {
	switch op {
	case "GetIdentityKeyPair", "GetLocalRegistrationId", "LoadSignedPreKeys":
		return true
	case "LoadSession", "StoreSession", "ContainsSession", "DeleteSession", "SaveIdentity", "IsTrustedIdentity":
		return c.ops[0].S != "group" && c.peer(w, key) && key != n.Key()
	case "LoadSignedPreKey", "ContainsSigned":
		return c.ops[0].S != "group"
	case "LoadPreKey", "ContainsPreKey": // a corrupted message can name any id
		return c.ops[0].S != "group"
	case "RemovePreKey":
		return c.ops[0].S != "group" && key == fmt.Sprint(c.idx+1)
	case "LoadSenderKey", "StoreSenderKey":
		if c.ops[0].S != "group" {
			return false
		}
		for _, m := range w.nodes {
			if key == skKey(protocol.NewSenderKeyName(convGroup(c.idx), m.Addr())) {
				return true
			}
		}
		return false
	case "GetSubDeviceSessions":
		return true
	}
	return false
}

// image shows the records of the conversation on all devices.
func (x *isolation) image(c *conv) (d string) {
	defer func() {
		if p := recover(); p != nil {
			d = fmt.Sprintf("a stored record cannot be serialized: %v", p)
			if x.solo < 0 {
				x.r.Fail("isolation", "conversation %d: %s", c.idx, d)
			}
		}
	}()
	var out []string
	for _, n := range x.w.nodes {
		add := func(kind string, m map[string][]byte) {
			for k, v := range m {
				out = append(out, fmt.Sprintf("%d %s %s %s", n.Idx, kind, k, digest(v)))
			}
		}
		on := false
		for _, o := range c.ops {
			on = on || o.A == n.Idx || o.B == n.Idx
		}
		if !on {
			continue
		}
		keep := func(m map[string][]byte, ok func(string) bool) map[string][]byte {
			q := map[string][]byte{}
			for k, v := range m {
				if ok(k) {
					q[k] = v
				}
			}
			return q
		}
		s, sk := map[string][]byte{}, map[string][]byte{}
		if n.liveSess != nil {
			for _, k := range sortedKeys(n.liveSess) {
				if c.ops[0].S != "group" && k != n.Key() && c.peer(x.w, k) && !n.liveSess[k].IsFresh() {
					l := n.liveSess[k]
					raceOut()
					s[k] = l.Serialize()
				}
			}
			for _, k := range sortedKeys(n.liveSK) {
				if c.allowed(x.w, n, "LoadSenderKey", k) {
					l := n.liveSK[k]
					raceOut()
					sk[k] = l.Serialize()
				}
			}
		} else {
			s, sk = n.D.Sessions, n.D.Sender
		}
		if c.ops[0].S != "group" {
			peer := func(k string) bool { return k != n.Key() && c.peer(x.w, k) }
			add("session", keep(s, peer))
			add("pin", keep(n.D.Pins, peer))
			if v, ok := n.D.PreKeys[uint32(c.idx+1)]; ok {
				out = append(out, fmt.Sprintf("%d prekey %s", n.Idx, digest(v)))
			}
		} else {
			add("senderkey", keep(sk, func(k string) bool { return c.allowed(x.w, n, "LoadSenderKey", k) }))
		}
	}
	sort.Strings(out)
	return digest([]byte(strings.Join(out, "\n")))
}

func (x *isolation) step(c *conv, o *Op) {
	w := x.w
	a, b := w.node(o.A), w.node(o.B)
	if a == nil || b == nil || a == b && o.S != "group" {
		return
	}
	c.task.ent.Start(hash64("ent", x.r.P.Seed, o.ID), o.Ent)
	var outs []string
	say := func(f string, v ...interface{}) { outs = append(outs, fmt.Sprintf(f, v...)) }
	emit := func(from int, kind string, wire []byte) {
		c.msgs[o.ID] = &cmsg{from, kind, append([]byte(nil), wire...)}
		say("wire %s", digest(wire))
	}
	err := func() (err error) {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("panic: %v", p)
				say("panic %v", p)
			}
		}()
		sk := protocol.NewSenderKeyName(convGroup(c.idx), a.Addr())
		switch o.Kind {
		case "init":
			return x.init(c, o, a, b)
		case "send":
			pt := plaintext(x.r.P.Seed, o.ID, o.Pt)
			ci := a.cipher(b.Addr(), false)
			raceOut()
			m, err := ci.Encrypt(pt)
			if err != nil {
				return err
			}
			kind := "whisper"
			if m.Type() == protocol.PREKEY_TYPE {
				kind = "prekey"
			}
			emit(a.Idx, kind, m.Serialize())
		case "dist":
			gb := a.groupBuilder()
			raceOut()
			m, err := gb.Create(sk)
			if err != nil {
				return err
			}
			emit(a.Idx, "dist", m.Serialize())
		case "gsend":
			gc, pt := a.groupCipher(sk), plaintext(x.r.P.Seed, o.ID, o.Pt)
			raceOut()
			m, err := gc.Encrypt(pt)
			if err != nil {
				return err
			}
			emit(a.Idx, "group", m.(*protocol.SenderKeyMessage).SignedSerialize())
		case "recv":
			m := c.msgs[o.N]
			if m == nil {
				return nil
			}
			wire := append([]byte(nil), m.wire...)
			if o.M > 0 { // corrupted on the way
				wire[o.M%len(wire)] ^= 1 << uint(o.M%8)
			}
			from := w.node(m.from)
			sk = protocol.NewSenderKeyName(convGroup(c.idx), from.Addr())
			var ci *session.Cipher
			var gc *groups.GroupCipher
			gb := a.groupBuilder()
			if m.kind == "group" {
				gc = a.groupCipher(sk)
			} else if m.kind != "dist" {
				ci = a.cipher(from.Addr(), false)
			}
			raceOut()
			switch m.kind {
			case "prekey":
				p, err := protocol.NewPreKeySignalMessageFromBytes(wire, a.Ser.PreKeySignalMessage, a.Ser.SignalMessage)
				if err != nil {
					return err
				}
				pt, err := ci.DecryptMessage(p)
				if err != nil {
					return err
				}
				say("plaintext %s", digest(pt))
			case "whisper":
				p, err := protocol.NewSignalMessageFromBytes(wire, a.Ser.SignalMessage)
				if err != nil {
					return err
				}
				pt, err := ci.Decrypt(p)
				if err != nil {
					return err
				}
				say("plaintext %s", digest(pt))
			case "dist":
				p, err := protocol.NewSenderKeyDistributionMessageFromBytes(wire, a.Ser.SenderKeyDistributionMessage)
				if err != nil {
					return err
				}
				if a != from {
					gb.Process(sk, p)
				}
			case "group":
				p, err := protocol.NewSenderKeyMessageFromBytes(wire, a.Ser.SenderKeyMessage)
				if err != nil {
					return err
				}
				pt, err := gc.Decrypt(p)
				if err != nil {
					return err
				}
				say("plaintext %s", digest(pt))
			}
		}
		return nil
	}()
	res := "ok"
	if err != nil {
		res = "error"
	}
	if c.task.ent.Failed > 0 && x.solo < 0 {
		x.r.Count("fault:entropy failure", 1)
	}
	if x.solo < 0 {
		x.r.Count("op:"+o.Kind+"/"+res, 1)
	}
	line := fmt.Sprintf("#%d %s %d/%d: %s %s %s", o.ID, o.Kind, o.A, o.B, res, strings.Join(outs, " "), x.image(c))
	c.log = append(c.log, line)
	raceOut()
}

func (x *isolation) init(c *conv, o *Op, a, b *Node) error {
	// the bundle comes from the server, which has read it from the device earlier
	var id *optional.Uint32
	var otpk ecc.ECPublicKeyable
	var otpkPub []byte
	switch o.S {
	case "otpk":
		id, otpkPub = optional.NewOptionalUint32(uint32(c.idx+1)), b.otpkPub[uint32(c.idx+1)]
	case "last":
		id, otpkPub = optional.NewOptionalUint32(lastResort), b.otpkPub[lastResort]
	}
	if otpkPub != nil {
		otpk, _ = ecc.DecodePoint(otpkPub, 0)
	} else {
		id = nil
	}
	st, err := b.Ser.SignedPreKeyRecord.Deserialize(b.D.Signed[b.curSPK])
	if err != nil {
		return err
	}
	spk, _ := ecc.DecodePoint(b.spkPub[b.curSPK], 0)
	pub, _ := ecc.DecodePoint(b.D.IdentPub, 0)
	var sig [64]byte
	copy(sig[:], st.Signature)
	bu := a.builder(b.Addr())
	raceOut()
	return bu.ProcessBundle(prekey.NewBundle(b.D.Reg, b.Dev, id, b.curSPK, otpk, spk, sig, identity.NewKey(pub)))
}

// addresses checks what an application finds its records by: an address and a sender key
// name keep the parts they were made of, and different addresses have different texts.
func (x *isolation) addresses(rng *RNG) {
	names := []string{"", ":", "a", "a:1", "a:", "1", "b", "+15550001", "node-a", "gröup|1", "a\x00", "A", " a", strings.Repeat("n", 300), string(rng.Bytes(8))}
	devs := []uint32{0, 1, 2, 11, 127, 128, 255, 256, 257, 1 << 16, 1<<16 + 1, 1<<24 + 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, uint32(rng.U64()), uint32(rng.U64())}
	texts := map[string]string{}
	for i := 0; i < 120; i++ {
		name, dev := names[rng.N(len(names))], devs[rng.N(len(devs))]
		a := protocol.NewSignalAddress(name, dev)
		g := groupNames[rng.N(len(groupNames))]
		n := protocol.NewSenderKeyName(g, a)
		t := a.String()
		switch old, ok := texts[t]; {
		case a.Name() != name || a.DeviceID() != dev:
			x.r.Fail("isolation", "the address %q device %d has the name %q and device %d", name, dev, a.Name(), a.DeviceID())
		case n.GroupID() != g || n.Sender().Name() != name || n.Sender().DeviceID() != dev:
			x.r.Fail("isolation", "the sender key name of %q in %q names %q in %q", t, g, n.Sender().String(), n.GroupID())
		case ok && old != addrKey(name, dev):
			x.r.Fail("isolation", "the addresses %s and %s have the same text %q", old, addrKey(name, dev), t)
		case t != a.String() || t != protocol.NewSignalAddress(name, dev).String():
			x.r.Fail("isolation", "the text of the address %s changes", addrKey(name, dev))
		}
		texts[t] = addrKey(name, dev)
	}
	x.r.Count("addresses compared", 120)
}

func runIsolation(r *Run) {
	x := &isolation{r: r, solo: -1}
	x.addresses(NewRNG(hash64("addresses", r.P.Seed)))
	races := raceErrors()
	x.runWorld()
	if where := racesAfter(races); where != "" {
		r.Fail("isolation", "two conversations use the same memory without synchronisation: %s", where)
	}
	if raceBuild {
		r.Count("runs with data race detection", 1)
	}
	together := x.convs
	for _, c := range together {
		if c.broken != "" {
			r.Fail("isolation", "an operation of conversation %d touches a record of another one: %s", c.idx, c.broken)
		}
	}
	if r.Res.Counts["context switches"] > 3 {
		r.Res.Nontrivial++
	}
	for _, c := range together {
		y := &isolation{r: r, solo: c.idx}
		quiet := *r
		quiet.Res = &Result{Counts: map[string]int64{}}
		y.r = &quiet
		y.runWorld()
		s := y.convs[0]
		for i := range s.log {
			got := "(nothing)"
			if i < len(c.log) {
				got = c.log[i]
			}
			if got != s.log[i] {
				r.Fail("isolation", "conversation %d running with others: %q, running alone: %q", c.idx, got, s.log[i])
				break
			}
			r.Event("conv %d %s", c.idx, got)
		}
		r.Count("conversation steps compared", int64(len(s.log)))
	}
}

var _ = bytes.Equal

func genIsolation(groups int) genF {
	return func(seed uint64) *Plan {
		f := &prof{nodes: [2]int{2, 4}}
		b := newPB(seed, "C19", f)
		b.p.Scenario = "isolate"
		r := b.r
		c := &b.p.Cfg
		c.OTPKs = 10
		c.X = r.N(3)
		if r.P(35) {
			c.Store = "live"
		}
		n := c.Nodes
		type cv struct {
			g     int
			group bool
			a, b  int
			sent  []int
			mem   []int
		}
		var cs []*cv
		var pairs [][2]int
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				pairs = append(pairs, [2]int{i, j})
			}
		}
		k := r.Range(2, 5)
		for i := 0; i < k; i++ {
			v := &cv{g: i}
			if r.P(groups) || len(pairs) == 0 {
				v.group = true
				for m := 0; m < n; m++ {
					if m < 2 || r.P(60) {
						v.mem = append(v.mem, m)
					}
				}
			} else {
				j := r.N(len(pairs))
				v.a, v.b = pairs[j][0], pairs[j][1]
				if r.P(50) {
					v.a, v.b = v.b, v.a
				}
				pairs = append(pairs[:j:j], pairs[j+1:]...)
			}
			cs = append(cs, v)
		}
		c.Y = r.N(k)
		faults := r.P(40)
		for _, v := range cs {
			add := func(o Op) int {
				o.G = v.g
				if v.group {
					o.S = "group"
				}
				if faults && (o.Kind == "init" || o.Kind == "send" || o.Kind == "dist" || o.Kind == "recv") && r.P(8) {
					o.Ent = b.ent()
					if o.Kind == "dist" { // crypto/rand.Read ends the process on an error
						o.Ent.Kind = "short"
					}
				}
				return b.add(o).ID
			}
			recv := func(id, at int, from int) {
				if r.P(12) {
					return // lost
				}
				o := Op{Kind: "recv", A: at, B: from, N: id}
				if r.P(8) {
					o.M = 1 + r.N(400)
				}
				add(o)
			}
			if !v.group {
				add(Op{Kind: "init", A: v.a, B: v.b, S: r.Str("otpk", "none", "last")})
			}
			steps := r.Range(3, 12)
			for s := 0; s < steps; s++ {
				if v.group {
					m := v.mem[r.N(len(v.mem))]
					kind := "gsend"
					if s < len(v.mem) {
						m, kind = v.mem[s], "dist"
					} else if r.P(15) {
						kind = "dist"
					}
					id := add(Op{Kind: kind, A: m, B: m, Pt: sizeOf(r, 3)})
					for _, q := range v.mem {
						if q != m {
							recv(id, q, m)
							if r.P(10) {
								recv(id, q, m)
							}
						}
					}
					continue
				}
				from, to := v.a, v.b
				if r.P(50) && s > 1 {
					from, to = to, from
				}
				var ids []int
				for q := r.Range(1, 3); q > 0; q-- {
					ids = append(ids, add(Op{Kind: "send", A: from, B: to, Pt: sizeOf(r, 3)}))
				}
				if r.P(50) && len(ids) > 1 {
					ids[0], ids[1] = ids[1], ids[0]
				}
				for _, id := range ids {
					recv(id, to, from)
					if r.P(10) {
						recv(id, to, from)
					}
				}
				if r.P(6) {
					add(Op{Kind: "init", A: v.a, B: v.b, S: r.Str("none", "last")})
				}
			}
		}
		return b.p
	}
}

func init() {
	scenarios["isolate"] = runIsolation
	d := mix("C19", 700, 30000, []string{"isolation"}, genIsolation(30), genIsolation(80), genIsolation(0))
	d.stubs = "stores, entropy, logger and serializer wrappers (all park the goroutine until the scheduler releases it), network, prekey server"
}
