package sim

import (
	"bytes"
	"encoding/hex"
	"math/big"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
)

// ---------------------------------------------------------------- keys, agreement, signatures

// Parties generate keys (from an entropy source that may fail), publish them over a network that damages
// what it carries, agree on secrets, and sign statements that others verify.

type keyOwner struct {
	id   int
	pair *ecc.ECKeyPair
	ref  refKey
}

type statement struct {
	id   int
	by   *keyOwner
	text []byte
	sig  [64]byte
}

type keyWorld struct {
	r      *Run
	owners []*keyOwner
	said   []*statement
	privs  map[string]int
}

func (x *keyWorld) fail(f string, a ...interface{}) { x.r.Fail("curve", f, a...) }

// damagedPoint changes the public key p on its way; it returns where it starts in the result and
// whether it can still be decoded.
func damagedPoint(r *RNG, how string, p []byte) (b []byte, off int, ok bool) {
	b = append([]byte{}, p...)
	switch how {
	case "cut":
		return b[:r.N(len(b))], 0, false
	case "empty":
		return nil, 0, false
	case "type":
		b[0] ^= byte(1 + r.N(255))
		return b, 0, false
	case "offset":
		off = 1 + r.N(40)
		return append(append(r.Bytes(off), b...), r.Bytes(r.N(40))...), off, true
	case "past":
		return b, 1 + r.N(40), false
	case "before":
		return b, -1 - r.N(40), false
	case "tail":
		return append(b, r.Bytes(1+r.N(40))...), 0, true
	case "flip":
		b[1+r.N(31)] ^= 1 << uint(r.N(8))
	case "high": // the unused bit
		b[32] |= 0x80
	}
	return b, 0, true
}

func (x *keyWorld) exec(o *Op) {
	r := NewRNG(hash64("curve", x.r.P.Seed, o.ID))
	owner := func(i int) *keyOwner { return x.owners[i%len(x.owners)] }
	if o.S != "" {
		x.r.Count("fault:"+o.Kind+" "+o.S, 1)
		x.r.Res.Nontrivial++
	}
	if o.Kind != "generate" && o.Kind != "create" && len(x.owners) == 0 {
		return
	}
	x.r.Count("op:"+o.Kind, 1)
	switch o.Kind {
	case "generate", "create":
		var pair *ecc.ECKeyPair
		var seed []byte
		x.r.Ent.Start(hash64("curveent", x.r.P.Seed, o.ID), o.Ent)
		err, pan := guarded(func() (err error) {
			if o.Kind == "generate" {
				pair, err = ecc.GenerateKeyPair()
			} else {
				seed = r.Bytes(32)
				pair = ecc.CreateKeyPair(seed)
			}
			return
		})
		failed, drawn := x.r.Ent.Failed > 0, x.r.Ent.Delivered()
		x.r.Ent.Start(0, nil)
		if o.Ent != nil {
			x.r.Count("fault:entropy "+o.Ent.Kind, 1)
			x.r.Res.Nontrivial++
		}
		x.r.Event("%s #%d: %v %v", o.Kind, o.ID, err != nil, pan)
		if pan != nil {
			x.fail("%s #%d: panic: %v", o.Kind, o.ID, pan)
			return
		}
		if err != nil {
			if !failed || pair != nil {
				x.fail("generating key pair #%d: error %v, entropy failed %v, key %v", o.ID, err, failed, pair != nil)
			}
			return
		}
		if failed && o.Kind == "generate" {
			x.fail("key pair #%d is generated although the entropy source failed", o.ID)
			return
		}
		if o.Kind == "create" {
			drawn = seed
		}
		priv := pair.PrivateKey().Serialize()
		want := append([]byte{}, drawn...)
		if len(want) >= 32 {
			want = want[:32]
			want[0] &= 248
			want[31] = want[31]&127 | 64
		}
		if !eq(priv[:], want) {
			x.fail("the private key of pair #%d is not the clamped random value", o.ID)
			return
		}
		ref := refKey{append([]byte{}, priv[:]...), x25519Pub(priv[:])}
		pub := pair.PublicKey()
		arr := pub.PublicKey()
		idk := identity.NewKey(pub)
		idb := identity.NewKeyFromBytes(arr, 0)
		switch {
		case !eq(pub.Serialize(), ref.pub), !eq(arr[:], ref.pub[1:]):
			x.fail("the public key of pair #%d does not belong to its private key", o.ID)
		case idk.Fingerprint() != hex.EncodeToString(ref.pub), !eq(idk.Serialize(), ref.pub), !eq(idb.Serialize(), ref.pub):
			x.fail("the identity key made of pair #%d is another one", o.ID)
		case pub.Type() != 5 || pair.PrivateKey().Type() != 5:
			x.fail("key pair #%d has another type", o.ID)
		}
		again := ecc.CreateKeyPair(priv[:]) // as after a restart
		if p := again.PrivateKey().Serialize(); p != priv || !eq(again.PublicKey().Serialize(), ref.pub) {
			x.fail("key pair #%d rebuilt from its private key is another one", o.ID)
		}
		if q, ok := x.privs[string(priv[:])]; ok {
			x.fail("key pairs #%d and #%d are the same", q, o.ID)
		}
		x.privs[string(priv[:])] = o.ID
		x.owners = append(x.owners, &keyOwner{o.ID, pair, ref})
	case "publish":
		k := owner(o.N)
		b, off, ok := damagedPoint(r, o.S, k.ref.pub)
		in := append([]byte{}, b...)
		var p ecc.ECPublicKeyable
		err, pan := guarded(func() (err error) { p, err = ecc.DecodePoint(in, off); return })
		x.r.Event("publish #%d %s: %v %v", k.id, o.S, err != nil, pan)
		switch {
		case pan != nil:
			x.fail("decoding public key #%d (%s): panic: %v", k.id, o.S, pan)
		case ok != (err == nil):
			x.fail("decoding public key #%d (%s): error %v", k.id, o.S, err)
		case err != nil && p != nil:
			x.fail("decoding public key #%d (%s) yields a key along with an error", k.id, o.S)
		case err == nil:
			for i := range in { // the buffer is used for something else
				in[i] ^= 0x5A
			}
			if !eq(p.Serialize(), b[off:off+33]) {
				x.fail("public key #%d (%s) is decoded to another one", k.id, o.S)
			}
		}
	case "agree":
		a, b := owner(o.N), owner(o.M)
		pa, _, _ := damagedPoint(r, o.S, a.ref.pub)
		ka, err := ecc.DecodePoint(pa, 0)
		if err != nil {
			x.fail("public key #%d (%s) does not decode: %v", a.id, o.S, err)
			return
		}
		s1 := kdf.CalculateSharedSecret(ka.PublicKey(), b.pair.PrivateKey().Serialize())
		s2 := kdf.CalculateSharedSecret(b.pair.PublicKey().PublicKey(), a.pair.PrivateKey().Serialize())
		want, err := refDH(b.ref, pa)
		x.r.Event("agree #%d #%d %s: %s", a.id, b.id, o.S, digest(s1[:]))
		if err != nil {
			return
		}
		if !eq(s1[:], want) {
			x.fail("the secret of keys #%d and #%d (%s) is not the X25519 of them", a.id, b.id, o.S)
		}
		if (o.S == "" || o.S == "high") && s1 != s2 || o.S == "flip" && s1 == s2 {
			x.fail("the two sides of the agreement of keys #%d and #%d (%s) come to secrets that are equal: %v", a.id, b.id, o.S, s1 == s2)
		}
		info := r.Str("", "WhisperText", "WhisperMessageKeys", "any")
		var salt []byte
		if r.P(60) {
			salt = r.Bytes(r.N(80))
		}
		n := r.Pick(6, 2, 1, 1)
		n = []int{r.N(200), r.N(8160) + 1, 8160, 8161 + r.N(100)}[n]
		got, err := kdf.DeriveSecrets(s1[:], salt, []byte(info), n)
		switch {
		case n > 255*32 && (err == nil || len(got) > 0):
			x.fail("%d bytes are derived from a secret", n)
		case n <= 255*32 && (err != nil || !eq(got, refHKDF(s1[:], salt, info, n))):
			x.fail("deriving %d bytes from the secret of keys #%d and #%d: %v, or not HKDF-SHA-256", n, a.id, b.id, err)
		}
	case "sign":
		k := owner(o.N)
		s := &statement{id: o.ID, by: k, text: plaintext(x.r.P.Seed, o.ID, o.Pt)}
		buf, whole := roomy(r, s.text)
		before := append([]byte{}, whole...)
		x.r.Ent.Start(hash64("curveent", x.r.P.Seed, o.ID), o.Ent)
		_, pan := guarded(func() error { s.sig = ecc.CalculateSignature(k.pair.PrivateKey(), buf); return nil })
		failed, drawn := x.r.Ent.Failed > 0, x.r.Ent.Delivered()
		x.r.Ent.Start(0, nil)
		x.r.Event("sign #%d by #%d, %d bytes: %s %v", o.ID, k.id, o.Pt, digest(s.sig[:]), pan)
		if o.Ent != nil {
			x.r.Count("fault:entropy "+o.Ent.Kind, 1)
			x.r.Res.Nontrivial++
		}
		switch {
		case pan != nil:
			x.fail("signing statement #%d: panic: %v", s.id, pan)
			return
		case !eq(whole, before):
			x.fail("signing statement #%d writes to the buffer of the caller", s.id)
		case !failed && (len(drawn) != 64 || !eq(s.sig[:], refSign(k.ref, s.text, drawn))):
			// (with a failing source the signature is still bound to key and text by its hash)
			x.fail("the signature of statement #%d by key #%d is not the XEdDSA signature", s.id, k.id)
		}
		x.said = append(x.said, s)
		x.verify(s, "", r)
	case "verify":
		if len(x.said) > 0 {
			x.verify(x.said[o.M%len(x.said)], o.S, r)
		}
	}
}

func (x *keyWorld) verify(s *statement, how string, r *RNG) {
	text, sig, pub := append([]byte{}, s.text...), s.sig, append([]byte{}, s.by.ref.pub...)
	genuine := false
	switch how {
	case "":
		genuine = true
	case "sig":
		sig[r.N(64)] ^= 1 << uint(r.N(8))
	case "sigtop": // the bits next to the sign of the key
		sig[63] ^= []byte{0x80, 0x40, 0x20, 0xE0, 0x60}[r.N(5)]
	case "plusL": // the same number in another notation
		v := leInt(append(append([]byte{}, sig[32:63]...), sig[63]&0x7F))
		v.Add(v, edL)
		if v.BitLen() > 255 {
			return
		}
		top := sig[63] & 0x80
		copy(sig[32:], leBytes(v))
		sig[63] |= top
	case "negated": // -R, -s
		v := leInt(append(append([]byte{}, sig[32:63]...), sig[63]&0x7F))
		v.Sub(edL, v)
		v.Mod(v, edL)
		copy(sig[32:], leBytes(v))
		sig[31] ^= 0x80
	case "zero":
		sig = [64]byte{}
	case "random":
		copy(sig[:], r.Bytes(64))
	case "text":
		if len(text) == 0 {
			return
		}
		text[r.N(len(text))] ^= 1 << uint(r.N(8))
	case "cut":
		if len(text) == 0 {
			return
		}
		text = text[:r.N(len(text))]
	case "head": // without its beginning
		if len(text) == 0 {
			return
		}
		text = text[1+r.N(min(len(text), 3)):]
	case "front": // with something before it
		text = append(append(r.Bytes(r.N(3)), []byte{0, 5, byte(r.N(256))}[r.N(3)]), text...)
	case "swap": // the same bytes in another order
		i := 0
		if len(text) > 1 {
			i = r.N(len(text) - 1)
		}
		if len(text) < 2 || text[i] == text[i+1] {
			return
		}
		text[i], text[i+1] = text[i+1], text[i]
	case "long":
		text = append(text, r.Bytes(1+r.N(20))...)
	case "otherkey":
		pub = append([]byte{}, x.owners[r.N(len(x.owners))].ref.pub...)
		genuine = eq(pub, s.by.ref.pub)
	case "keybit":
		pub[1+r.N(31)] ^= 1 << uint(r.N(8))
	case "keyhigh": // the unused bit of the key does not count
		pub[32] |= 0x80
		genuine = true
	case "othersig":
		q := x.said[r.N(len(x.said))]
		sig = q.sig
		genuine = q.by == s.by && eq(q.text, s.text)
	case "keyplusP": // the same key in another notation, where there is one
		v := new(big.Int).Add(leInt(pub[1:]), edP)
		if v.BitLen() > 255 {
			return
		}
		copy(pub[1:], leBytes(v))
		genuine = true
	}
	p, err := ecc.DecodePoint(pub, 0)
	if err != nil {
		x.fail("public key #%d does not decode: %v", s.by.id, err)
		return
	}
	buf, whole := roomy(r, text)
	before := append([]byte{}, whole...)
	sig0 := sig
	var got, again bool
	_, pan := guarded(func() error {
		got = ecc.VerifySignature(p, buf, sig)
		again = ecc.VerifySignature(p, buf, sig)
		return nil
	})
	x.r.Event("verify #%d %s: %v %v", s.id, how, got, pan)
	x.r.Count("signatures verified", 1)
	switch {
	case pan != nil:
		x.fail("verifying statement #%d (%s): panic: %v", s.id, how, pan)
	case got != genuine:
		x.fail("the signature of statement #%d (%s) by key #%d: verified %v, genuine %v", s.id, how, s.by.id, got, genuine)
	case got != refVerify(pub, text, sig0[:]):
		x.fail("the signature of statement #%d (%s): verified %v, computed independently %v", s.id, how, got, !got)
	case got != again || sig != sig0 || !bytes.Equal(whole, before) || !eq(p.Serialize(), pub):
		x.fail("verifying statement #%d (%s) changes its inputs, or its result", s.id, how)
	}
}

func runCurve(r *Run) {
	x := &keyWorld{r: r, privs: map[string]int{}}
	w := newWorld(r)
	for i := range r.P.Ops {
		o := &r.P.Ops[i]
		w.at(o.At, o.ID, -1, func() { x.exec(o) })
	}
	w.loop()
}

func genCurve(seed uint64) *Plan {
	r := NewRNG(seed)
	p := &Plan{Scenario: "curve", Seed: seed}
	t := int64(0)
	for i := 0; i < 50; i++ {
		t += int64(r.N(300))
		o := Op{ID: i + 1, At: t, N: r.N(1000), M: r.N(1000)}
		if i < 2 {
			o.Kind = "generate"
		} else {
			o.Kind = []string{"generate", "create", "publish", "agree", "sign", "verify"}[r.Pick(6, 3, 5, 6, 8, 10)]
		}
		switch o.Kind {
		case "generate", "sign":
			if i >= 2 && r.P(20) {
				o.Ent = &EntFault{At: r.N(3), Kind: r.Str("error", "partial", "short", "short"), Bytes: r.N(65)}
			}
			o.Pt = sizeOf(r, 6)
		case "publish":
			o.S = r.Str("", "", "cut", "empty", "type", "offset", "past", "before", "tail", "flip", "high")
		case "agree":
			o.S = r.Str("", "", "", "high", "flip")
		case "verify":
			o.S = r.Str("", "sig", "sigtop", "plusL", "negated", "zero", "random", "text", "cut", "long", "head", "front", "swap", "otherkey", "keybit", "keyhigh", "othersig", "keyplusP")
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

func init() {
	scenarios["curve"] = runCurve
	d := mix("C31", 2000, 200000, []string{"curve"}, genCurve)
	d.real = "ecc, ecc/edwards25519, kdf, keys/identity"
	d.stubs = "network (damaging keys, texts and signatures), entropy source"
}
