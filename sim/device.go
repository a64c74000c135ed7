package sim

import (
	"fmt"
	"time"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
)

// The keys of one installation over its life: years pass, batches of prekeys are made and used up,
// signed prekeys are rotated, everything is stored and loaded again, now and then in the other format.

type lifeKey struct {
	pub, priv []byte
	id        uint32
	time      int64
	sig       [64]byte
	by        []byte // the identity key that signed
	raw       []byte
}

type life struct {
	r      *Run
	n      *Node
	ser    string
	ident  *identity.KeyPair
	pre    []*lifeKey
	signed []*lifeKey
	seen   map[string]string
	ids    map[uint32]int
	clash  int
}

func (x *life) s() *serialize.Serializer { return newSerializer(x.ser) }

func (x *life) fail(format string, a ...interface{}) { x.r.Fail("life", format, a...) }

// fresh notes a key pair the library has made.
func (x *life) fresh(what string, k *ecc.ECKeyPair) *lifeKey {
	p := k.PrivateKey().Serialize()
	l := &lifeKey{pub: k.PublicKey().Serialize(), priv: p[:]}
	if o, ok := x.seen[string(l.priv)]; ok {
		x.fail("%s has the key pair of %s", what, o)
	}
	x.seen[string(l.priv)] = what
	if !eq(l.pub, x25519Pub(l.priv)) {
		x.fail("%s: the public key does not belong to the private one", what)
	}
	return l
}

func (x *life) call(o *Op, f func() error) *outcome {
	out := x.n.call(hash64("life", x.r.P.Seed, o.ID), nil, o.Ent, f)
	if out.panicV != nil {
		x.fail("%s: panic: %v", o.Kind, out.panicV)
	} else if !out.ok() && out.entBad == 0 {
		x.fail("%s fails although nothing went wrong: %v", o.Kind, out.err)
	}
	return out
}

func (x *life) newIdentity(o *Op) {
	x.call(o, func() error {
		k, err := keyhelper.GenerateIdentityKeyPair()
		if err != nil {
			return err
		}
		x.fresh("an identity", ecc.NewECKeyPair(k.PublicKey().PublicKey(), k.PrivateKey()))
		x.ident = k
		return nil
	})
}

func (x *life) prekeys(o *Op) {
	x.call(o, func() error {
		ks, err := keyhelper.GeneratePreKeys(o.N, o.N+o.M-1, x.s().PreKeyRecord)
		if err != nil {
			if len(ks) > 0 {
				x.fail("a part of a batch of prekeys is returned along with an error")
			}
			return err
		}
		if len(ks) != max(o.M, 0) {
			x.fail("%d prekeys from id %d were made instead of %d", len(ks), o.N, o.M)
		}
		for i, k := range ks {
			l := x.fresh(fmt.Sprint("prekey ", o.N+i), k.KeyPair())
			if l.id = uint32(o.N + i); k.ID() == nil || k.ID().IsEmpty || k.ID().Value != l.id {
				x.fail("the prekey after %d others from id %d has another id", i, o.N)
			}
			l.raw = append([]byte(nil), k.Serialize()...)
			x.pre = append(x.pre, l)
		}
		return nil
	})
}

func (x *life) lastResort(o *Op) {
	x.call(o, func() error {
		k, err := keyhelper.GenerateLastResortKey(x.s().PreKeyRecord)
		if err != nil {
			return err
		}
		l := x.fresh("a last-resort prekey", k.KeyPair())
		if l.id = lastResort; k.ID() == nil || k.ID().IsEmpty || k.ID().Value != l.id {
			x.fail("the last-resort prekey has another id than %d", l.id)
		}
		l.raw = append([]byte(nil), k.Serialize()...)
		x.pre = append(x.pre, l)
		return nil
	})
}

func (x *life) rotate(o *Op) {
	x.call(o, func() error {
		from := time.Now()
		k, err := keyhelper.GenerateSignedPreKey(x.ident, uint32(o.N), x.s().SignedPreKeyRecord)
		if err != nil {
			return err
		}
		l := x.fresh("a signed prekey", k.KeyPair())
		l.id, l.time, l.sig, l.by = k.ID(), k.Timestamp(), k.Signature(), x.ident.PublicKey().PublicKey().Serialize()
		if l.id != uint32(o.N) {
			x.fail("signed prekey %d has id %d", uint32(o.N), l.id)
		}
		if want := from.Unix(); l.time != want {
			x.fail("a signed prekey made at %v (%d) is dated %d", from.UTC(), want, l.time)
		}
		l.raw = append([]byte(nil), k.Serialize()...)
		x.signed = append(x.signed, l)
		x.verify(l)
		return nil
	})
}

func (x *life) verify(l *lifeKey) {
	if !refVerify(l.by, l.pub, l.sig[:]) {
		x.fail("the signature of signed prekey %d is none of the identity key for the encoded key", l.id)
	}
}

// draw makes ids as for many renewals of sender keys.
func (x *life) draw(o *Op) {
	x.call(o, func() error {
		for i := 0; i < o.N; i++ {
			id := keyhelper.GenerateSenderKeyID()
			if x.ids[id]++; x.ids[id] == 2 {
				x.clash++
			}
		}
		if reg := keyhelper.GenerateRegistrationID(); o.M > 0 {
			x.r.Event("registration %d", reg)
		}
		return nil
	})
	if x.clash > 2 {
		x.fail("%d of %d sender key ids from good entropy were drawn more than once", x.clash, len(x.ids))
	}
}

// reload loads all stored keys; with o.S they are converted to the other format.
func (x *life) reload(o *Op) {
	from, to := x.s(), x.s()
	if o.S == "convert" {
		x.ser = map[string]string{"proto": "json", "json": "proto"}[x.ser]
		to = x.s()
	}
	x.call(o, func() error {
		for _, l := range x.pre {
			k, err := record.NewPreKeyFromBytes(append([]byte(nil), l.raw...), from.PreKeyRecord)
			if err != nil {
				x.fail("stored prekey %d does not load: %v", l.id, err)
				continue
			}
			p := k.KeyPair().PrivateKey().Serialize()
			if k.ID().Value != l.id || k.ID().IsEmpty || !eq(k.KeyPair().PublicKey().Serialize(), l.pub) || !eq(p[:], l.priv) {
				x.fail("prekey %d was changed by storing it", l.id)
			}
			l.raw = append([]byte(nil), record.NewPreKey(k.ID().Value, k.KeyPair(), to.PreKeyRecord).Serialize()...)
		}
		for _, l := range x.signed {
			k, err := record.NewSignedPreKeyFromBytes(append([]byte(nil), l.raw...), from.SignedPreKeyRecord)
			if err != nil {
				x.fail("stored signed prekey %d does not load: %v", l.id, err)
				continue
			}
			p := k.KeyPair().PrivateKey().Serialize()
			if k.ID() != l.id || k.Timestamp() != l.time || k.Signature() != l.sig || !eq(k.KeyPair().PublicKey().Serialize(), l.pub) || !eq(p[:], l.priv) {
				x.fail("signed prekey %d of %d was changed by storing it", l.id, l.time)
			}
			x.verify(l)
			l.raw = append([]byte(nil), record.NewSignedPreKey(k.ID(), k.Timestamp(), k.KeyPair(), k.Signature(), to.SignedPreKeyRecord).Serialize()...)
		}
		return nil
	})
	x.r.Count("key records reloaded", int64(len(x.pre)+len(x.signed)))
}

func runLife(r *Run) {
	w := newWorld(r)
	x := &life{r: r, n: w.addNode("device", 1), ser: r.P.Cfg.Ser, seen: map[string]string{}, ids: map[uint32]int{}}
	for i := range r.P.Ops {
		o := &r.P.Ops[i]
		r.Step++
		r.Count("op:"+o.Kind, 1)
		if o.Kind != "newident" && x.ident == nil {
			continue
		}
		switch o.Kind {
		case "pass":
			time.Sleep(time.Duration(o.N)*time.Second + time.Duration(o.M)*time.Millisecond)
			r.Now += int64(o.N)*1000 + int64(o.M)
		case "newident":
			x.newIdentity(o)
		case "prekeys":
			x.prekeys(o)
		case "last":
			x.lastResort(o)
		case "rotate":
			x.rotate(o)
		case "draw":
			x.draw(o)
		case "reload":
			x.reload(o)
		}
		r.Event("%s: %d prekeys, %d signed, %d", o.Kind, len(x.pre), len(x.signed), time.Now().Unix())
		if o.Ent != nil {
			r.Count("fault:entropy "+o.Ent.Kind, 1)
		}
		if len(r.Res.Violations) > 0 {
			return
		}
	}
	r.Res.Nontrivial++
}

func genLife(seed uint64) *Plan {
	r := NewRNG(seed)
	p := &Plan{Scenario: "life", Seed: seed, Cfg: Cfg{Ser: r.Str("proto", "json")}}
	add := func(o Op) {
		o.ID = len(p.Ops) + 1
		if o.Kind != "draw" && o.Kind != "pass" && o.Kind != "reload" && len(p.Ops) > 0 && r.P(12) {
			o.Ent = &EntFault{At: r.N(4), Kind: r.Str("error", "partial", "short", "short"), Bytes: r.N(34)}
		}
		p.Ops = append(p.Ops, o)
	}
	total := int64(0)
	pass := func() {
		day := int64(86400)
		t := []int64{int64(r.N(5)), int64(r.N(3600)), day, day * int64(r.N(60)), day * 365 * int64(r.N(15)), day * 365 * int64(r.N(40))}[r.N(6)]
		if total += t; total > 230*365*day { // simulated time ends in 2262
			return
		}
		add(Op{Kind: "pass", N: int(t), M: r.N(1000)})
	}
	add(Op{Kind: "newident"})
	next := []int{0, 1, 1, 100, 127, 16380, lastResort - 20, 1<<16 - 5, r.N(lastResort)}[r.N(9)]
	sid := []int64{0, 1, 1, 250, 65530, lastResort - 2, 1<<31 - 2, 1<<32 - 8}[r.N(8)]
	last := false
	for i, n := 0, r.Range(10, 25); i < n && len(p.Ops) < 60; i++ {
		switch r.N(8) {
		case 0, 1:
			m := r.Range(1, 25)
			if r.P(10) {
				m = 0
			}
			if next+m > lastResort {
				m = lastResort - next
			}
			add(Op{Kind: "prekeys", N: next, M: m})
			if next += m; next >= lastResort {
				next = r.N(2) // a circular buffer
			}
		case 2, 3:
			add(Op{Kind: "rotate", N: int(sid)})
			if sid++; sid >= 1<<32 {
				sid = 0
			}
		case 4:
			add(Op{Kind: "reload", S: r.Str("", "convert")})
		case 5:
			if r.P(15) {
				add(Op{Kind: "newident"})
			} else if !last {
				add(Op{Kind: "last"})
				last = true
			}
		case 6:
			add(Op{Kind: "draw", N: r.Range(60, 250), M: r.N(2)})
		case 7:
			pass()
		}
		if r.P(50) {
			pass()
		}
	}
	add(Op{Kind: "reload", S: r.Str("", "convert")})
	return p
}

func init() {
	scenarios["life"] = runLife
	d := mix("C32", 2500, 150000, []string{"life"}, genLife)
	d.real = "util/keyhelper, keys/identity, ecc, state/record (prekey, signed prekey), serialize"
	d.stubs = "clock (simulated time, jumps of seconds to decades), key storage, entropy source"
}
