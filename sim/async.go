package sim

import (
	"bytes"
	"fmt"

	"github.com/RadicalApp/complete"
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
)

// Asynchronous requests under a cooperative scheduler (C21).

type asyncReq struct {
	o       *Op
	t       *coopTask
	key     refKey
	msg     []byte
	sig     [64]byte
	valid   bool
	success []*complete.Result
	failure []string
	then    *Op
}

// completion is an application's completion handler.
type completion struct {
	x *asyncWorld
	q *asyncReq
}

func (c *completion) OnSuccess(r *complete.Result) {
	c.x.c.park("callback")
	c.q.success = append(c.q.success, r)
	raceOut()
}
func (c *completion) OnFailure(m string) {
	c.x.c.park("callback")
	c.q.failure = append(c.q.failure, m)
	raceOut()
}

type asyncWorld struct {
	r    *Run
	c    *coop
	reqs []*asyncReq
}

func (x *asyncWorld) start(o *Op) {
	r := NewRNG(hash64("async", x.r.P.Seed, o.ID))
	q := &asyncReq{o: o, key: refGen(r), msg: r.Bytes(o.Pt)}
	q.t = x.c.newTask(hash64("ent", x.r.P.Seed, o.ID), o.Ent)
	q.t.prio = r.N(1 << 20)
	if o.N > 0 && len(x.reqs) > 0 { // the same key as another request
		q.key = x.reqs[o.N%len(x.reqs)].key
		if o.M > 0 {
			q.msg = append([]byte(nil), x.reqs[o.N%len(x.reqs)].msg...)
		}
	}
	x.reqs = append(x.reqs, q)
	var priv [32]byte
	copy(priv[:], q.key.priv)
	pub, err := ecc.DecodePoint(q.key.pub, 0)
	if err != nil {
		x.r.Fail("async", "key does not decode: %v", err)
		return
	}
	done := &completion{x, q}
	var h complete.Completionable = done
	if o.Pt%2 == 1 { // as a Go application would do it
		h = complete.NewCompletion(done.OnSuccess, done.OnFailure)
	}
	x.r.Count("op:"+o.Kind, 1)
	switch o.Kind {
	case "genkey":
		x.c.begin(q.t, func() { keyhelper.GenerateIdentityKeyPairAsync(h) })
	case "sign":
		x.c.begin(q.t, func() { ecc.CalculateSignatureAsync(ecc.NewDjbECPrivateKey(priv), q.msg, h) })
	case "verify":
		copy(q.sig[:], refSign(q.key, q.msg, r.Bytes(64)))
		switch o.S {
		case "sigflip":
			q.sig[r.N(64)] ^= 1 << uint(r.N(8))
		case "msgflip":
			if len(q.msg) > 0 {
				q.msg = append([]byte(nil), q.msg...)
				q.msg[r.N(len(q.msg))] ^= 1 << uint(r.N(8))
			}
		case "otherkey":
			pub, _ = ecc.DecodePoint(refGen(r).pub, 0)
		case "zero":
			q.sig = [64]byte{}
		case "othersig":
			copy(q.sig[:], refSign(refGen(r), q.msg, r.Bytes(64)))
		}
		if o.S != "" {
			x.r.Count("fault:signature "+o.S, 1)
		}
		q.valid = refVerify(pub.Serialize(), q.msg, q.sig[:])
		x.c.begin(q.t, func() { ecc.VerifySignatureAsync(pub, q.msg, q.sig, h) })
	}
}

// delivered lists what the entropy source handed out to any request.
func (x *asyncWorld) delivered(need int) [][]byte {
	var out [][]byte
	for _, q := range x.reqs {
		d := q.t.ent.Delivered()
		for i := 0; i+need <= len(d); i++ {
			out = append(out, d[i:i+need])
		}
	}
	return out
}

func (x *asyncWorld) judge() {
	usedKeys := map[string]int{}
	for i, q := range x.reqs {
		r := x.r
		what := fmt.Sprintf("request %d (%s %s)", i, q.o.Kind, q.o.S)
		r.Event("%s: %d successes, %d failures", what, len(q.success), len(q.failure))
		if n := len(q.success) + len(q.failure); n != 1 {
			r.Fail("async", "%s: %d completions (%d successes, %d failures)", what, n, len(q.success), len(q.failure))
			continue
		}
		failed := q.t.ent.Failed > 0
		if failed {
			r.Count("fault:entropy failure", 1)
		}
		if len(q.failure) == 1 {
			switch {
			case q.o.Kind == "verify" && q.valid:
				r.Fail("async", "%s: a valid signature is reported as failure: %s", what, q.failure[0])
			case q.o.Kind != "verify" && !failed:
				r.Fail("async", "%s: failure although nothing failed: %s", what, q.failure[0])
			}
			continue
		}
		res := q.success[0]
		if res == nil || res.Data == nil {
			r.Fail("async", "%s: success without a result", what)
			continue
		}
		switch q.o.Kind {
		case "verify":
			if v, ok := res.Data.(bool); !ok || !v || !q.valid {
				r.Fail("async", "%s: success with %v, but the signature is valid=%v", what, res.Data, q.valid)
			}
		case "sign":
			s, ok := res.Data.([64]byte)
			if !ok {
				r.Fail("async", "%s: result of type %T", what, res.Data)
				continue
			}
			if !refVerify(q.key.pub, q.msg, s[:]) {
				r.Fail("async", "%s: the signature does not verify", what)
				continue
			}
			same := failed
			d := q.t.ent.Delivered()
			if !failed {
				for k := 0; k+64 <= len(d) && !same; k++ {
					same = bytes.Equal(refSign(q.key, q.msg, d[k:k+64]), s[:])
				}
			}
			if !same {
				r.Fail("async", "%s: another signature than the synchronous call makes from the same random bytes", what)
			}
		case "genkey":
			k, ok := res.Data.(*identity.KeyPair)
			if !ok || k == nil {
				r.Fail("async", "%s: result of type %T", what, res.Data)
				continue
			}
			priv := k.PrivateKey().Serialize()
			pub := k.PublicKey().PublicKey().Serialize()
			from := false
			for _, d := range x.delivered(32) {
				c := append([]byte(nil), d...)
				c[0] &= 248
				c[31] = c[31]&127 | 64
				if bytes.Equal(c, priv[:]) {
					from = true
					break
				}
			}
			if !from || !bytes.Equal(x25519Pub(priv[:]), pub) {
				r.Fail("async", "%s: the key pair is not made from the delivered random bytes", what)
			}
			if j, dup := usedKeys[string(priv[:])]; dup {
				r.Fail("async", "requests %d and %d got the same key pair", j, i)
			}
			usedKeys[string(priv[:])] = i
		}
	}
}

func runAsync(r *Run) {
	x := &asyncWorld{r: r, c: newCoop(r)}
	races := raceErrors()
	x.c.install()
	defer x.c.uninstall()
	rng := NewRNG(hash64("sched", r.P.Seed))
	policy, stalled := r.P.Cfg.X, r.P.Cfg.Y
	for i := range r.P.Ops {
		o := &r.P.Ops[i]
		// some steps of the running requests before the next one starts
		for k := o.G; k > 0; k-- {
			p := x.c.parked()
			if len(p) == 0 {
				break
			}
			x.c.release(x.c.choose(rng, policy, stalled, p))
		}
		r.Now = max(r.Now, o.At)
		x.start(o)
	}
	for n := 0; n < 100000; n++ {
		p := x.c.parked()
		if len(p) == 0 {
			break
		}
		r.Res.Nontrivial = max(r.Res.Nontrivial, len(p)-1)
		x.c.release(x.c.choose(rng, policy, stalled, p))
	}
	x.judge()
	if where := racesAfter(races); where != "" {
		r.Fail("async", "two requests use the same memory without synchronisation: %s", where)
	}
	if raceBuild {
		r.Count("runs with data race detection", 1)
	}
}

func genAsync(seed uint64) *Plan {
	r := NewRNG(seed)
	p := &Plan{Scenario: "async", Seed: seed, Cfg: Cfg{X: r.N(3)}}
	n := r.Range(2, 14)
	p.Cfg.Y = r.N(n)
	t := int64(0)
	same := r.P(30)
	for i := 0; i < n; i++ {
		t += int64(r.N(100))
		o := Op{ID: i + 1, At: t, Kind: r.Str("genkey", "genkey", "sign", "sign", "verify", "verify"), Pt: r.N(200), G: r.Pick(3, 2, 1, 1) * r.Range(1, 3)}
		if o.Kind == "verify" && r.P(60) {
			o.S = r.Str("sigflip", "msgflip", "otherkey", "zero", "othersig")
		}
		if o.Kind != "verify" && r.P(30) {
			o.Ent = &EntFault{At: r.N(2), Kind: r.Str("error", "partial", "short"), Bytes: r.N(64)}
		}
		if same {
			o.N, o.M = r.N(8), r.N(2)
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

// ---------------------------------------------------------------- key generation under entropy faults (C20)

func runKeygen(r *Run) {
	w := newWorld(r)
	n := w.addNode("keygen", 1)
	ser := newSerializer(r.P.Cfg.Ser)
	for i := range r.P.Ops {
		o := &r.P.Ops[i]
		r.Now = max(r.Now, o.At)
		r.Step++
		var privs, pubs [][]byte
		add := func(k *ecc.ECKeyPair) {
			p := k.PrivateKey().Serialize()
			privs = append(privs, p[:])
			pubs = append(pubs, k.PublicKey().Serialize())
		}
		self := refGen(NewRNG(hash64("kgid", r.P.Seed, o.ID)))
		var sp [32]byte
		copy(sp[:], self.priv)
		selfPub, _ := ecc.DecodePoint(self.pub, 0)
		selfPair := identity.NewKeyPair(identity.NewKey(selfPub), ecc.NewDjbECPrivateKey(sp))
		var note string
		got := false
		out := n.call(hash64("kg", r.P.Seed, o.ID), nil, o.Ent, func() error {
			switch o.Kind {
			case "ident":
				k, err := keyhelper.GenerateIdentityKeyPair()
				if got = k != nil; err == nil {
					p := k.PrivateKey().Serialize()
					privs, pubs = append(privs, p[:]), append(pubs, k.PublicKey().PublicKey().Serialize())
				}
				return err
			case "prekeys":
				ks, err := keyhelper.GeneratePreKeys(o.N, o.N+o.M-1, ser.PreKeyRecord)
				if got = len(ks) > 0; err != nil {
					return err
				}
				if len(ks) != o.M {
					note = fmt.Sprintf("%d keys instead of %d", len(ks), o.M)
				}
				for j, k := range ks {
					add(k.KeyPair())
					if k.ID().Value != uint32(o.N+j) {
						note = fmt.Sprintf("key %d has id %d", j, k.ID().Value)
					}
				}
				return nil
			case "last":
				k, err := keyhelper.GenerateLastResortKey(ser.PreKeyRecord)
				if got = k != nil; err == nil {
					add(k.KeyPair())
				}
				return err
			case "signed":
				k, err := keyhelper.GenerateSignedPreKey(selfPair, uint32(o.N), ser.SignedPreKeyRecord)
				if got = k != nil; err == nil {
					add(k.KeyPair())
					s := k.Signature()
					if !refVerify(self.pub, k.KeyPair().PublicKey().Serialize(), s[:]) {
						note = "the signature of the signed prekey does not verify"
					}
					if k.ID() != uint32(o.N) {
						note = "wrong id"
					}
				}
				return err
			case "signing":
				k, err := keyhelper.GenerateSenderSigningKey()
				if got = k != nil; err == nil {
					add(k)
				}
				return err
			case "pair":
				k, err := ecc.GenerateKeyPair()
				if got = k != nil; err == nil {
					add(k)
				}
				return err
			case "senderkey":
				privs = append(privs, keyhelper.GenerateSenderKey())
			}
			return nil
		})
		r.Count("op:"+o.Kind, 1)
		r.Event("%s: %s, %d bytes delivered, %d failed requests", o.Kind, out, len(out.entLog), out.entBad)
		if o.Ent != nil {
			r.Count("fault:entropy "+o.Ent.Kind, 1)
			r.Res.Nontrivial++
		}
		if out.panicV != nil {
			r.Fail("entropy", "%s: panic: %v", o.Kind, out.panicV)
			continue
		}
		if note != "" {
			r.Fail("entropy", "%s: %s", o.Kind, note)
		}
		if !out.ok() {
			if out.entBad == 0 {
				r.Fail("entropy", "%s fails although the entropy source works: %v", o.Kind, out.err)
			}
			if got {
				r.Fail("entropy", "%s returns keys along with an error", o.Kind)
			}
			continue
		}
		used := make([]bool, len(out.entLog))
		for j, p := range privs {
			found := false
			for k := 0; k+32 <= len(out.entLog) && !found; k++ {
				c := append([]byte(nil), out.entLog[k:k+32]...)
				if o.Kind != "senderkey" {
					c[0] &= 248
					c[31] = c[31]&127 | 64
				}
				if bytes.Equal(c, p) {
					found = true
					for l := k; l < k+32; l++ {
						if used[l] {
							r.Fail("entropy", "%s: random bytes are used for two keys", o.Kind)
						}
						used[l] = true
					}
				}
			}
			if !found {
				r.Fail("entropy", "%s: key %d is not made of 32 bytes that the entropy source delivered", o.Kind, j)
			}
			r.Count("keys traced to entropy", 1)
			if j < len(pubs) && !bytes.Equal(x25519Pub(p), pubs[j]) {
				r.Fail("entropy", "%s: the public half of key %d does not belong to its private half", o.Kind, j)
			}
		}
	}
}

func genKeygen(seed uint64) *Plan {
	r := NewRNG(seed)
	p := &Plan{Scenario: "keygen", Seed: seed, Cfg: Cfg{Ser: r.Str("proto", "json")}}
	for i := 0; i < 30; i++ {
		o := Op{ID: i + 1, At: int64(i), Kind: r.Str("ident", "prekeys", "prekeys", "last", "signed", "signing", "pair", "senderkey"), N: r.N(1 << 16), M: r.Range(1, 8)}
		if r.P(80) {
			o.Ent = &EntFault{At: r.N(9), Kind: r.Str("error", "partial", "short"), Bytes: r.N(34)}
			if r.P(60) {
				o.Ent.At = r.N(2)
			}
			if o.Kind == "senderkey" { // crypto/rand.Read ends the process on an error; only short reads are possible
				o.Ent.Kind = "short"
			}
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

func init() {
	scenarios["async"] = runAsync
	scenarios["keygen"] = runKeygen
	d := mix("C21", 2000, 80000, []string{"async"}, genAsync)
	d.real = "ecc (signing, verification, key generation), util/keyhelper"
	d.stubs = "entropy source, logger and completion handlers (all park the goroutine until the scheduler releases it)"
}
