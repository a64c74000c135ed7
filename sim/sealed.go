package sim

import (
	"bytes"
	"fmt"

	"github.com/prospik/libsignal-protocol-go/cipher"
)

// ---------------------------------------------------------------- symmetric encryption helpers

// A device seals blobs with the helpers of package cipher and keeps them on a disk that tears,
// shortens, repeats, swaps and corrupts what is written, and opens what it finds there.

type sealedBlob struct {
	id      int
	kind    string // "cbc" (iv given), "auto" (iv chosen by the library), "pkcs7"
	key, iv []byte
	pt, ct  []byte // as sealed
}

type sealedWorld struct {
	w     *World
	r     *Run
	blobs map[int]*sealedBlob
	ivs   map[string]int
}

func (x *sealedWorld) key(i int) []byte {
	r := NewRNG(hash64("sealkey", x.r.P.Seed, i))
	return r.Bytes([]int{32, 32, 16, 24}[i%4])
}

func (b *sealedBlob) encrypt(iv, key, pt []byte) ([]byte, error) {
	switch b.kind {
	case "pkcs7":
		return cipher.Encrypt(iv, key, pt)
	case "auto":
		return cipher.EncryptCbc(nil, key, pt)
	}
	return cipher.EncryptCbc(iv, key, pt)
}

func (b *sealedBlob) decrypt(iv, key, ct []byte) ([]byte, error) {
	switch b.kind {
	case "pkcs7":
		return cipher.Decrypt(iv, key, ct)
	case "auto":
		return cipher.DecryptCbc(nil, key, ct)
	}
	return cipher.DecryptCbc(iv, key, ct)
}

// roomy puts b into a buffer with something behind it.
func roomy(r *RNG, b []byte) (s, whole []byte) {
	if b == nil {
		return nil, nil
	}
	whole = append(append([]byte{}, b...), r.Bytes(40)...)
	return whole[:len(b)], whole
}

func (x *sealedWorld) exec(o *Op) {
	r := NewRNG(hash64("seal", x.r.P.Seed, o.ID))
	switch o.Kind {
	case "seal":
		b := &sealedBlob{id: o.ID, kind: o.S, key: x.key(o.N), pt: plaintext(x.r.P.Seed, o.ID, o.Pt)}
		iv := r.Bytes(16)
		key := b.key
		bad := ""
		switch {
		case o.M == 1 && b.kind != "auto":
			iv, bad = r.Bytes(r.Pick(1, 1, 1)*r.N(20)+17), "iv"
		case o.M == 2:
			key, bad = r.Bytes([]int{0, 1, 15, 17, 31, 33, 64}[r.N(7)]), "key"
		case o.M == 3 && b.kind != "auto":
			iv, bad = r.Bytes(1+r.N(15)), "iv"
		}
		if bad != "" {
			x.r.Count("fault:wrong size of "+bad, 1)
			x.r.Res.Nontrivial++
		}
		p, pw := roomy(r, b.pt)
		k, kw := roomy(r, key)
		v, vw := roomy(r, iv)
		p0, k0, v0 := append([]byte{}, pw...), append([]byte{}, kw...), append([]byte{}, vw...)
		x.r.Ent.Start(hash64("sealent", x.r.P.Seed, o.ID), o.Ent)
		var ct []byte
		err, pan := guarded(func() (err error) { ct, err = b.encrypt(v, k, p); return })
		failed := x.r.Ent.Failed > 0
		drawn := x.r.Ent.Delivered()
		x.r.Ent.Start(0, nil)
		x.r.Event("seal #%d %s len %d bad %q: %v %v", o.ID, b.kind, len(b.pt), bad, err != nil, pan)
		x.r.Count(fmt.Sprintf("verdict:seal %s bad=%s error=%v", b.kind, bad, err != nil), 1)
		switch {
		case pan != nil:
			x.r.Fail("sealed", "sealing blob #%d (%s, wrong %s): panic: %v", o.ID, b.kind, bad, pan)
			return
		case !eq(pw, p0) || !eq(kw, k0) || !eq(vw, v0):
			x.r.Fail("sealed", "sealing blob #%d (%s) writes to its inputs or behind them", o.ID, b.kind)
			return
		}
		if failed {
			x.r.Count("fault:entropy failure", 1)
			x.r.Res.Nontrivial++
			if err == nil || len(ct) > 0 {
				x.r.Fail("sealed", "blob #%d is sealed although the entropy source failed", o.ID)
			}
			return
		}
		if bad != "" {
			if err == nil {
				x.r.Fail("sealed", "blob #%d (%s) is sealed with a wrong %s", o.ID, b.kind, bad)
			}
			return
		}
		if err != nil {
			if len(b.pt) == 0 && b.kind == "pkcs7" { // documented: ErrInvalidPKCS7Data
				return
			}
			x.r.Fail("sealed", "blob #%d (%s) of %d bytes is not sealed: %v", o.ID, b.kind, len(b.pt), err)
			return
		}
		b.iv = iv
		body := ct
		if b.kind == "auto" {
			if len(ct) < 32 {
				x.r.Fail("sealed", "blob #%d has %d bytes", o.ID, len(ct))
				return
			}
			b.iv, body = append([]byte{}, ct[:16]...), ct[16:]
			if !bytes.Contains(drawn, b.iv) {
				x.r.Fail("sealed", "the vector of blob #%d does not come from the entropy source", o.ID)
				return
			}
			if q, ok := x.ivs[string(b.iv)]; ok {
				x.r.Fail("sealed", "blobs #%d and #%d share their vector", q, o.ID)
				return
			}
			x.ivs[string(b.iv)] = o.ID
		}
		if !eq(body, refCBC(key, b.iv, b.pt)) {
			x.r.Fail("sealed", "blob #%d (%s, %d bytes) is not AES-CBC with PKCS#7 padding", o.ID, b.kind, len(b.pt))
			return
		}
		b.ct = append([]byte{}, ct...)
		for i := range pw { // the caller's buffers are used for something else meanwhile
			pw[i] ^= 0x5A
		}
		if !eq(ct, b.ct) {
			x.r.Fail("sealed", "blob #%d shares its memory with the plaintext", o.ID)
			return
		}
		x.blobs[o.ID] = b
	case "open":
		x.open(o, r)
	}
}

func (x *sealedWorld) open(o *Op, r *RNG) {
	ids := sortedIDs(x.blobs)
	if len(ids) == 0 {
		return
	}
	b := x.blobs[ids[o.N%len(ids)]]
	ct, iv, key := append([]byte{}, b.ct...), append([]byte{}, b.iv...), append([]byte{}, b.key...)
	kind := b
	switch o.S {
	case "flip":
		ct[r.N(len(ct))] ^= 1 << uint(r.N(8))
	case "tail": // the last blocks decide about the padding
		n := min(len(ct), 32)
		ct[len(ct)-1-r.N(n)] ^= byte(1 + r.N(255))
	case "torn": // the rest of the sectors hold something else
		k := r.N(len(ct))
		copy(ct[k:], r.Bytes(len(ct)-k))
	case "zeros":
		k := r.N(len(ct))
		copy(ct[k:], make([]byte, len(ct)-k))
	case "short":
		ct = ct[:r.N(len(ct)+1)]
	case "blocks":
		ct = ct[:16*r.N(len(ct)/16+1)]
	case "long":
		ct = append(ct, r.Bytes(1+r.N(40))...)
	case "other":
		q := x.blobs[ids[r.N(len(ids))]]
		ct = append([]byte{}, q.ct...)
	case "key":
		key = r.Bytes(len(key))
	case "keysize":
		key = r.Bytes([]int{0, 1, 15, 17, 31, 33, 64}[r.N(7)])
	case "ivsize":
		iv = r.Bytes(r.N(40))
	case "iv":
		iv[r.N(16)] ^= 1 << uint(r.N(8))
	case "empty":
		ct = [][]byte{nil, {}}[r.N(2)]
	case "crafted": // any last bytes of the padded text
		raw := r.Bytes(16 * (1 + r.N(3)))
		n := r.N(64)
		if r.P(20) {
			n = r.N(256)
		}
		for i := 1; i <= n && i <= len(raw); i++ {
			raw[len(raw)-i] = byte(n)
		}
		raw[len(raw)-1] = byte(n)
		if r.P(30) && n > 1 {
			raw[max(0, len(raw)-2-r.N(n))] ^= byte(1 + r.N(255))
		}
		ct = refCBCraw(key, iv, raw)
		if b.kind == "auto" {
			ct = append(append([]byte{}, iv...), ct...)
		}
	}
	if o.S != "" {
		x.r.Count("fault:disk "+o.S, 1)
		x.r.Res.Nontrivial++
	}
	// what an independent implementation makes of it
	body, v := ct, iv
	wellFormed := true
	if b.kind == "auto" {
		if len(ct) < 16 {
			wellFormed = false
		} else {
			v, body = ct[:16], ct[16:]
		}
	}
	if n := len(key); n != 16 && n != 24 && n != 32 {
		wellFormed = false
	}
	if len(v) != 16 || len(body) == 0 || len(body)%16 != 0 {
		wellFormed = false
	}
	var raw, want []byte
	must := "error"
	if wellFormed {
		raw = refUnCBCraw(key, v, body)
		var err error
		if want, err = refUnCBC(key, v, body); err == nil {
			must = "text"
		} else {
			p := int(raw[len(raw)-1])
			consistent := p > 0 && p <= len(raw)
			for i := 1; consistent && i <= p; i++ {
				consistent = int(raw[len(raw)-i]) == p
			}
			// Padding longer than a block, and for EncryptCbc padding that is not uniform, is let
			// through: nothing is promised about such texts but that they are a part of what was decrypted.
			if p <= len(raw) && (b.kind != "pkcs7" || consistent) {
				must = "either"
			}
		}
	}
	c, cw := roomy(r, ct)
	k, kw := roomy(r, key)
	i, iw := roomy(r, iv)
	c0, k0, i0 := append([]byte{}, cw...), append([]byte{}, kw...), append([]byte{}, iw...)
	var got []byte
	err, pan := guarded(func() (err error) { got, err = kind.decrypt(i, k, c); return })
	x.r.Event("open #%d %s %q len %d: error=%v %v %s", b.id, b.kind, o.S, len(ct), err != nil, pan, digest(got))
	x.r.Count(fmt.Sprintf("verdict:open %s %s/%v", b.kind, must, err != nil), 1)
	switch {
	case pan != nil:
		x.r.Fail("sealed", "opening blob #%d (%s, %s): panic: %v", b.id, b.kind, o.S, pan)
	case !eq(cw, c0) || !eq(kw, k0) || !eq(iw, i0):
		x.r.Fail("sealed", "opening blob #%d (%s, %s) writes to its inputs or behind them", b.id, b.kind, o.S)
	case must == "error" && err == nil:
		x.r.Fail("sealed", "opening blob #%d (%s, %s) yields %d bytes instead of an error", b.id, b.kind, o.S, len(got))
	case must == "text" && (err != nil || !eq(got, want)):
		x.r.Fail("sealed", "opening blob #%d (%s, %s): got %d bytes, expected %d: %v", b.id, b.kind, o.S, len(got), len(want), err)
	case must == "either" && err == nil && !bytes.HasPrefix(raw, got):
		x.r.Fail("sealed", "opening blob #%d (%s, %s) yields something that was not decrypted", b.id, b.kind, o.S)
	case err != nil && len(got) > 0:
		x.r.Fail("sealed", "opening blob #%d (%s, %s) yields data along with an error", b.id, b.kind, o.S)
	case o.S == "" && !eq(got, b.pt):
		x.r.Fail("sealed", "blob #%d (%s) does not come back", b.id, b.kind)
	}
	if err == nil && len(got) > 0 { // the result belongs to the caller
		for j := range got {
			got[j] ^= 0xA5
		}
		if !eq(cw, c0) {
			x.r.Fail("sealed", "the text of blob #%d shares its memory with the ciphertext", b.id)
		}
	}
}

func runSealed(r *Run) {
	w := newWorld(r)
	x := &sealedWorld{w: w, r: r, blobs: map[int]*sealedBlob{}, ivs: map[string]int{}}
	for i := range r.P.Ops {
		o := &r.P.Ops[i]
		w.at(o.At, o.ID, -1, func() { x.exec(o) })
	}
	w.loop()
}

func genSealed(seed uint64) *Plan {
	r := NewRNG(seed)
	p := &Plan{Scenario: "sealed", Seed: seed}
	t := int64(0)
	for i := 0; i < 60; i++ {
		t += int64(r.N(300))
		o := Op{ID: i + 1, At: t, N: r.N(100)}
		if i < 3 || r.P(35) {
			o.Kind, o.S, o.Pt = "seal", r.Str("cbc", "auto", "auto", "pkcs7"), sizeOf(r, 6)
			if r.P(12) {
				o.M = 1 + r.N(3)
			} else if r.P(15) {
				o.Ent = &EntFault{Kind: r.Str("error", "partial", "short", "short"), Bytes: r.N(17)}
			}
		} else {
			o.Kind = "open"
			if r.P(75) {
				o.S = r.Str("flip", "tail", "tail", "torn", "zeros", "short", "blocks", "long", "other", "key", "keysize", "ivsize", "iv", "empty", "crafted", "crafted", "crafted")
			}
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

func init() {
	scenarios["sealed"] = runSealed
	d := mix("C29", 20000, 200000, []string{"sealed"}, genSealed)
	d.real = "cipher"
	d.stubs = "disk (tearing, shortening, swapping, corrupting), entropy source"
}
