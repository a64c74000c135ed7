package sim

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"errors"
	"math/big"
)

// An independent implementation of X3DH, the Double Ratchet, Sender Keys and XEdDSA as published by
// Signal, on top of the Go standard library only. It shares no code with the library under test.

// ---------------------------------------------------------------- primitives

func refHMAC(key []byte, parts ...[]byte) []byte {
	h := hmac.New(sha256.New, key)
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func refHKDF(ikm, salt []byte, info string, n int) []byte {
	if salt == nil {
		salt = make([]byte, 32)
	}
	prk := refHMAC(salt, ikm)
	var out, t []byte
	for i := byte(1); len(out) < n; i++ {
		t = refHMAC(prk, t, []byte(info), []byte{i})
		out = append(out, t...)
	}
	return out[:n]
}

func refCBC(key, iv, pt []byte) []byte {
	p := 16 - len(pt)%16
	b := append(append([]byte{}, pt...), bytes.Repeat([]byte{byte(p)}, p)...)
	return refCBCraw(key, iv, b)
}

// refCBCraw encrypts without adding padding; len(b) must be a multiple of 16.
func refCBCraw(key, iv, b []byte) []byte {
	c, err := aes.NewCipher(key)
	if err != nil {
		panic("simulator: " + err.Error())
	}
	out := make([]byte, len(b))
	cipher.NewCBCEncrypter(c, iv).CryptBlocks(out, b)
	return out
}

// refUnCBCraw decrypts and leaves the padding where it is; len(ct) must be a multiple of 16.
func refUnCBCraw(key, iv, ct []byte) []byte {
	c, err := aes.NewCipher(key)
	if err != nil {
		panic("simulator: " + err.Error())
	}
	out := make([]byte, len(ct))
	cipher.NewCBCDecrypter(c, iv).CryptBlocks(out, ct)
	return out
}

func refUnCBC(key, iv, ct []byte) ([]byte, error) {
	if len(ct) == 0 || len(ct)%16 != 0 {
		return nil, errors.New("length")
	}
	c, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	out := make([]byte, len(ct))
	cipher.NewCBCDecrypter(c, iv).CryptBlocks(out, ct)
	p := int(out[len(out)-1])
	if p < 1 || p > 16 {
		return nil, errors.New("padding")
	}
	for _, x := range out[len(out)-p:] {
		if int(x) != p {
			return nil, errors.New("padding")
		}
	}
	return out[:len(out)-p], nil
}

type refKey struct{ priv, pub []byte } // pub with the type byte

func refGen(r *RNG) refKey {
	p := r.Bytes(32)
	p[0] &= 248
	p[31] = p[31]&127 | 64
	return refKey{p, x25519Pub(p)}
}

func refDH(k refKey, pub []byte) ([]byte, error) {
	if len(pub) != 33 || pub[0] != 5 {
		return nil, errors.New("public key")
	}
	a, err := ecdh.X25519().NewPrivateKey(k.priv)
	if err != nil {
		return nil, err
	}
	b, err := ecdh.X25519().NewPublicKey(pub[1:])
	if err != nil {
		return nil, err
	}
	return a.ECDH(b)
}

// ---------------------------------------------------------------- XEdDSA

var (
	edP, _  = new(big.Int).SetString("57896044618658097711785492504343953926634992332820282019728792003956564819949", 10)
	edL, _  = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
	edD, _  = new(big.Int).SetString("37095705934669439343138083508754565189542113879843219016388785533085940283555", 10)
	edBx, _ = new(big.Int).SetString("15112221349535400772501151409588531511454012693041857206046113283949847762202", 10)
	edBy, _ = new(big.Int).SetString("46316835694926478169428394003475163141307993866256225615783033603165251855960", 10)
)

type edPoint struct{ x, y, z, t *big.Int }

func edMul(a, b *big.Int) *big.Int { c := new(big.Int).Mul(a, b); return c.Mod(c, edP) }
func edAdd(a, b *big.Int) *big.Int { c := new(big.Int).Add(a, b); return c.Mod(c, edP) }
func edSub(a, b *big.Int) *big.Int { c := new(big.Int).Sub(a, b); return c.Mod(c, edP) }

func (p edPoint) add(q edPoint) edPoint {
	a := edMul(edSub(p.y, p.x), edSub(q.y, q.x))
	b := edMul(edAdd(p.y, p.x), edAdd(q.y, q.x))
	c := edMul(edMul(edAdd(edD, edD), p.t), q.t)
	d := edMul(edAdd(p.z, p.z), q.z)
	e, f, g, h := edSub(b, a), edSub(d, c), edAdd(d, c), edAdd(b, a)
	return edPoint{edMul(e, f), edMul(g, h), edMul(f, g), edMul(e, h)}
}

func edBase(k *big.Int) []byte {
	r := edPoint{big.NewInt(0), big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	b := edPoint{edBx, edBy, big.NewInt(1), edMul(edBx, edBy)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.add(r)
		if k.Bit(i) == 1 {
			r = r.add(b)
		}
	}
	zi := new(big.Int).ModInverse(r.z, edP)
	x, y := edMul(r.x, zi), edMul(r.y, zi)
	out := leBytes(y)
	out[31] |= byte(x.Bit(0) << 7)
	return out
}

func leBytes(v *big.Int) []byte {
	out := make([]byte, 32)
	v.FillBytes(out)
	for i, j := 0, 31; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}
func leInt(b []byte) *big.Int {
	c := append([]byte{}, b...)
	for i, j := 0, len(c)-1; i < j; i, j = i+1, j-1 {
		c[i], c[j] = c[j], c[i]
	}
	return new(big.Int).SetBytes(c)
}

func refSign(k refKey, msg, random []byte) []byte {
	a := leInt(k.priv)
	A := edBase(a)
	h := sha512.New()
	h.Write(append([]byte{0xFE}, bytes.Repeat([]byte{0xFF}, 31)...))
	h.Write(k.priv)
	h.Write(msg)
	h.Write(random)
	r := leInt(h.Sum(nil))
	r.Mod(r, edL)
	R := edBase(r)
	h = sha512.New()
	h.Write(R)
	h.Write(A)
	h.Write(msg)
	s := leInt(h.Sum(nil))
	s.Mul(s, a)
	s.Add(s, r)
	s.Mod(s, edL)
	sig := append(R, leBytes(s)...)
	sig[63] = sig[63]&0x7F | A[31]&0x80
	return sig
}

func refVerify(pub, msg, sig []byte) bool {
	if len(pub) != 33 || len(sig) != 64 {
		return false
	}
	u := append([]byte{}, pub[1:]...)
	u[31] &= 0x7F
	x := leInt(u)
	num := edSub(x, big.NewInt(1))
	den := new(big.Int).ModInverse(edAdd(x, big.NewInt(1)), edP)
	if den == nil {
		return false
	}
	A := leBytes(edMul(num, den))
	A[31] |= sig[63] & 0x80
	s := append([]byte{}, sig...)
	s[63] &= 0x7F
	return ed25519.Verify(A, msg, s)
}

// ---------------------------------------------------------------- Double Ratchet

type refMsgKeys struct {
	cipher, mac, iv []byte
	n               uint32
}

type refChain struct {
	key     []byte
	n       uint32
	skipped map[uint32]refMsgKeys
}

func (c *refChain) step() refMsgKeys {
	seed := refHMAC(c.key, []byte{1})
	c.key = refHMAC(c.key, []byte{2})
	k := refHKDF(seed, nil, "WhisperMessageKeys", 80)
	m := refMsgKeys{k[:32], k[32:64], k[64:80], c.n}
	c.n++
	return m
}

func (c *refChain) clone() *refChain {
	d := &refChain{key: c.key, n: c.n, skipped: map[uint32]refMsgKeys{}}
	for k, v := range c.skipped {
		d.skipped[k] = v
	}
	return d
}

type refSess struct {
	base      []byte
	self      refKey // identity
	peer      []byte
	root      []byte
	ratchet   refKey
	send      *refChain
	prev      uint32
	recv      map[string]*refChain
	order     []string // receiving chains in order of appearance
	pending   bool     // no answer yet: send openings
	reg       uint32
	otpk      uint32
	hasOTPK   bool
	spk       uint32
	initiator bool
}

func (s *refSess) clone() *refSess {
	c := *s
	c.send = s.send.clone()
	c.recv = map[string]*refChain{}
	for k, v := range s.recv {
		c.recv[k] = v.clone()
	}
	c.order = append([]string{}, s.order...)
	return &c
}

func refRootStep(root, dh []byte) ([]byte, *refChain) {
	k := refHKDF(dh, root, "WhisperRatchet", 64)
	return k[:32], &refChain{key: k[32:], skipped: map[uint32]refMsgKeys{}}
}

func refX3DH(dhs ...[]byte) ([]byte, *refChain) {
	s := bytes.Repeat([]byte{0xFF}, 32)
	for _, d := range dhs {
		s = append(s, d...)
	}
	k := refHKDF(s, nil, "WhisperText", 64)
	return k[:32], &refChain{key: k[32:], skipped: map[uint32]refMsgKeys{}}
}

type refBundle struct {
	ident, spk, sig []byte
	spkID           uint32
	otpk            []byte
	otpkID          uint32
	reg             uint32
}

func refInitiate(r *RNG, self refKey, reg uint32, b *refBundle) (*refSess, error) {
	if !refVerify(b.ident, b.spk, b.sig) {
		return nil, errors.New("signature of the signed prekey")
	}
	base := refGen(r)
	s := &refSess{base: base.pub, self: self, peer: b.ident, recv: map[string]*refChain{}, pending: true, reg: reg, spk: b.spkID, initiator: true}
	d1, err := refDH(self, b.spk)
	if err != nil {
		return nil, err
	}
	d2, err := refDH(base, b.ident)
	if err != nil {
		return nil, err
	}
	d3, _ := refDH(base, b.spk)
	dhs := [][]byte{d1, d2, d3}
	if b.otpk != nil {
		d4, err := refDH(base, b.otpk)
		if err != nil {
			return nil, err
		}
		dhs = append(dhs, d4)
		s.hasOTPK, s.otpk = true, b.otpkID
	}
	root, ck := refX3DH(dhs...)
	s.recv[string(b.spk)] = ck
	s.order = []string{string(b.spk)}
	s.ratchet = refGen(r)
	dh, _ := refDH(s.ratchet, b.spk)
	s.root, s.send = refRootStep(root, dh)
	return s, nil
}

// refRespond sets up the answering side. otpk may be the zero value.
func refRespond(self refKey, spk refKey, otpk *refKey, base, peer []byte) (*refSess, error) {
	d1, err := refDH(spk, peer)
	if err != nil {
		return nil, err
	}
	d2, err := refDH(self, base)
	if err != nil {
		return nil, err
	}
	d3, _ := refDH(spk, base)
	dhs := [][]byte{d1, d2, d3}
	if otpk != nil {
		d4, _ := refDH(*otpk, base)
		dhs = append(dhs, d4)
	}
	root, ck := refX3DH(dhs...)
	return &refSess{base: append([]byte{}, base...), self: self, peer: append([]byte{}, peer...), root: root, ratchet: spk, send: ck, recv: map[string]*refChain{}}, nil
}

// encrypt returns the ordinary message.
func (s *refSess) encrypt(pt []byte) *wSig {
	k := s.send.step()
	return s.seal(k, refCBC(k.cipher, k.iv, pt))
}

func (s *refSess) seal(k refMsgKeys, ct []byte) *wSig {
	w := &wSig{Ver: 3, Ratchet: s.ratchet.pub, Ctr: k.n, Prev: s.prev, CT: ct}
	w.Mac = s.mac(k, w, s.self.pub, s.peer)
	return w
}

func (s *refSess) mac(k refMsgKeys, w *wSig, from, to []byte) []byte {
	c := *w
	c.Mac = nil
	return refHMAC(k.mac, from, to, c.encode("proto"))[:8]
}

func (s *refSess) open(w *wSig) *wPre {
	return &wPre{Ver: 3, Reg: s.reg, HasOTPK: s.hasOTPK, OTPK: s.otpk, SPK: s.spk, Base: s.base, Ident: s.self.pub, Inner: w.encode("proto"), Sig: w}
}

// decrypt works on a copy; the new state is returned on success.
func (s *refSess) decrypt(r *RNG, w *wSig, raw []byte) (*refSess, []byte, error) {
	c := s.clone()
	ch := c.recv[string(w.Ratchet)]
	if ch == nil {
		dh, err := refDH(c.ratchet, w.Ratchet)
		if err != nil {
			return nil, nil, err
		}
		c.root, ch = refRootStep(c.root, dh)
		c.recv[string(w.Ratchet)] = ch
		c.order = append(c.order, string(w.Ratchet))
		c.prev = 0
		if c.send.n > 0 {
			c.prev = c.send.n - 1
		}
		c.ratchet = refGen(r)
		dh, err = refDH(c.ratchet, w.Ratchet)
		if err != nil {
			return nil, nil, err
		}
		c.root, c.send = refRootStep(c.root, dh)
	}
	k, ok := ch.skipped[w.Ctr]
	if ok {
		delete(ch.skipped, w.Ctr)
	} else {
		if w.Ctr < ch.n {
			return nil, nil, errors.New("old counter")
		}
		if w.Ctr-ch.n > 6000 {
			return nil, nil, errors.New("too far")
		}
		for ch.n < w.Ctr {
			x := ch.step()
			ch.skipped[x.n] = x
		}
		k = ch.step()
	}
	// over the bytes as received, so that any encoding of the same fields is judged like Signal does
	if !hmac.Equal(refHMAC(k.mac, c.peer, c.self.pub, raw[:len(raw)-8])[:8], w.Mac) {
		return nil, nil, errors.New("mac")
	}
	pt, err := refUnCBC(k.cipher, k.iv, w.CT)
	if err != nil {
		return nil, nil, err
	}
	c.pending = false
	return c, pt, nil
}

// ---------------------------------------------------------------- Sender Keys

type refSender struct {
	id      uint32
	chain   []byte
	n       uint32
	signing refKey
	verify  []byte
	skipped map[uint32][]byte
}

func (s *refSender) step() []byte {
	seed := refHMAC(s.chain, []byte{1})
	s.chain = refHMAC(s.chain, []byte{2})
	s.n++
	return refHKDF(seed, nil, "WhisperGroup", 48)
}

func (s *refSender) dist() *wSKD {
	return &wSKD{Ver: 3, ID: s.id, Iter: s.n, Chain: s.chain, Signing: s.signing.pub}
}

func (s *refSender) encrypt(r *RNG, pt []byte) *wSKM {
	n := s.n
	k := s.step()
	return s.seal(r, n, refCBC(k[16:], k[:16], pt))
}

func (s *refSender) seal(r *RNG, n uint32, ct []byte) *wSKM {
	w := &wSKM{Ver: 3, ID: s.id, Iter: n, CT: ct}
	w.Sig = refSign(s.signing, w.signedPart(), r.Bytes(64))
	return w
}

func (s *refSender) decrypt(w *wSKM, raw []byte) ([]byte, error) {
	if w.ID != s.id {
		return nil, errors.New("key id")
	}
	if !refVerify(s.verify, raw[:len(raw)-64], w.Sig) {
		return nil, errors.New("signature")
	}
	k, ok := s.skipped[w.Iter]
	if ok {
		delete(s.skipped, w.Iter)
	} else {
		if w.Iter < s.n || w.Iter-s.n > 6000 {
			return nil, errors.New("iteration")
		}
		for s.n < w.Iter {
			n := s.n
			s.skipped[n] = s.step()
		}
		k = s.step()
	}
	return refUnCBC(k[16:], k[:16], w.CT)
}
