package sim

import (
	"bytes"
	"encoding/json"
	"fmt"
)

// An independent reader and writer of the wire formats, so that what counts as "the same message"
// does not depend on the parser under test.

type wSig struct {
	Ver       int
	Ratchet   []byte
	Ctr, Prev uint32
	CT, Mac   []byte
}

type wPre struct {
	Ver         int
	Reg         uint32
	HasOTPK     bool
	OTPK        uint32
	SPK         uint32
	Base, Ident []byte
	Inner       []byte
	Sig         *wSig // parsed Inner, nil if it is not a message
}

type wSKM struct {
	Ver, ID, Iter uint32
	CT, Sig       []byte
}

type wSKD struct {
	Ver, ID, Iter  uint32
	Chain, Signing []byte
}

func (w *wSig) id() string {
	return fmt.Sprintf("%d|%x|%d|%d|%x|%x", w.Ver, w.Ratchet, w.Ctr, w.Prev, w.CT, w.Mac)
}
func (w *wSKM) id() string {
	s := make([]byte, 64)
	copy(s, w.Sig)
	return fmt.Sprintf("%d|%d|%d|%x|%x", w.Ver, w.ID, w.Iter, w.CT, s)
}

// ---------------------------------------------------------------- protocol buffers

type pbField struct {
	num  int
	wt   int
	v    uint64
	b    []byte
	lens int
}

func uvarint(b []byte) (uint64, int) {
	var x uint64
	for i := 0; i < len(b) && i < 10; i++ {
		x |= uint64(b[i]&0x7f) << (7 * uint(i))
		if b[i] < 0x80 {
			return x, i + 1
		}
	}
	return 0, 0
}

func putUvarint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func pbParse(b []byte) ([]pbField, bool) {
	var out []pbField
	for len(b) > 0 {
		t, n := uvarint(b)
		if n == 0 {
			return nil, false
		}
		b = b[n:]
		f := pbField{num: int(t >> 3), wt: int(t & 7)}
		switch f.wt {
		case 0:
			v, n := uvarint(b)
			if n == 0 {
				return nil, false
			}
			f.v = v
			b = b[n:]
		case 1:
			if len(b) < 8 {
				return nil, false
			}
			b = b[8:]
		case 5:
			if len(b) < 4 {
				return nil, false
			}
			b = b[4:]
		case 2:
			l, n := uvarint(b)
			if n == 0 || l > uint64(len(b)-n) {
				return nil, false
			}
			f.b = b[n : n+int(l)]
			b = b[n+int(l):]
		default:
			return nil, false
		}
		out = append(out, f)
	}
	return out, true
}

func pbBytes(fs []pbField, num int) []byte {
	var r []byte
	for _, f := range fs {
		if f.num == num && f.wt == 2 {
			r = append([]byte{}, f.b...)
		}
	}
	return r
}
func pbUint(fs []pbField, num int) (uint32, bool) {
	var r uint32
	has := false
	for _, f := range fs {
		if f.num == num && f.wt == 0 {
			r = uint32(f.v)
			has = true
		}
	}
	return r, has
}

func pbPutBytes(out []byte, num int, b []byte) []byte {
	out = putUvarint(out, uint64(num)<<3|2)
	out = putUvarint(out, uint64(len(b)))
	return append(out, b...)
}
func pbPutUint(out []byte, num int, v uint32) []byte {
	out = putUvarint(out, uint64(num)<<3)
	return putUvarint(out, uint64(v))
}

// ---------------------------------------------------------------- messages

func parseSig(ser string, b []byte) *wSig {
	if ser == "json" {
		var j struct {
			RatchetKey               []byte
			Counter, PreviousCounter uint32
			CipherText               []byte
			Version                  int
			Mac                      []byte
		}
		if json.Unmarshal(b, &j) != nil {
			return nil
		}
		return &wSig{j.Version, j.RatchetKey, j.Counter, j.PreviousCounter, j.CipherText, j.Mac}
	}
	if len(b) < 9 {
		return nil
	}
	fs, ok := pbParse(b[1 : len(b)-8])
	if !ok {
		return nil
	}
	w := &wSig{Ver: int(b[0] >> 4), Mac: b[len(b)-8:]}
	w.Ratchet = pbBytes(fs, 1)
	w.Ctr, _ = pbUint(fs, 2)
	w.Prev, _ = pbUint(fs, 3)
	w.CT = pbBytes(fs, 4)
	return w
}

func (w *wSig) encode(ser string) []byte {
	if ser == "json" {
		b, _ := json.Marshal(struct {
			RatchetKey               []byte
			Counter, PreviousCounter uint32
			CipherText               []byte
			Version                  int
			Mac                      []byte
		}{w.Ratchet, w.Ctr, w.Prev, w.CT, w.Ver, w.Mac})
		return b
	}
	out := []byte{byte(w.Ver<<4 | 3)}
	if w.Ratchet != nil {
		out = pbPutBytes(out, 1, w.Ratchet)
	}
	out = pbPutUint(out, 2, w.Ctr)
	out = pbPutUint(out, 3, w.Prev)
	if w.CT != nil {
		out = pbPutBytes(out, 4, w.CT)
	}
	return append(out, w.Mac...)
}

type jOptional struct {
	Value   uint32
	IsEmpty bool
}
type jPre struct {
	RegistrationID uint32
	PreKeyID       *jOptional
	SignedPreKeyID uint32
	BaseKey        []byte
	IdentityKey    []byte
	Message        []byte
	Version        int
}

func parsePre(ser string, b []byte) *wPre {
	var w *wPre
	if ser == "json" {
		var j jPre
		if json.Unmarshal(b, &j) != nil {
			return nil
		}
		w = &wPre{Ver: j.Version, Reg: j.RegistrationID, SPK: j.SignedPreKeyID, Base: j.BaseKey, Ident: j.IdentityKey, Inner: j.Message}
		if j.PreKeyID != nil && !j.PreKeyID.IsEmpty {
			w.HasOTPK, w.OTPK = true, j.PreKeyID.Value
		}
	} else {
		if len(b) < 1 {
			return nil
		}
		fs, ok := pbParse(b[1:])
		if !ok {
			return nil
		}
		w = &wPre{Ver: int(b[0] >> 4)}
		w.Reg, _ = pbUint(fs, 5)
		w.OTPK, w.HasOTPK = pbUint(fs, 1)
		w.SPK, _ = pbUint(fs, 6)
		w.Base, w.Ident, w.Inner = pbBytes(fs, 2), pbBytes(fs, 3), pbBytes(fs, 4)
	}
	w.Sig = parseSig(ser, w.Inner)
	return w
}

func (w *wPre) encode(ser string) []byte {
	if ser == "json" {
		j := jPre{w.Reg, &jOptional{w.OTPK, !w.HasOTPK}, w.SPK, w.Base, w.Ident, w.Inner, w.Ver}
		b, _ := json.Marshal(j)
		return b
	}
	out := []byte{byte(w.Ver<<4 | 3)}
	if w.HasOTPK {
		out = pbPutUint(out, 1, w.OTPK)
	}
	if w.Base != nil {
		out = pbPutBytes(out, 2, w.Base)
	}
	if w.Ident != nil {
		out = pbPutBytes(out, 3, w.Ident)
	}
	if w.Inner != nil {
		out = pbPutBytes(out, 4, w.Inner)
	}
	out = pbPutUint(out, 5, w.Reg)
	return pbPutUint(out, 6, w.SPK)
}

func parseSKM(ser string, b []byte) *wSKM {
	if ser == "json" {
		var j struct {
			ID, Iteration uint32
			CipherText    []byte
			Version       uint32
			Signature     []byte
		}
		if json.Unmarshal(b, &j) != nil {
			return nil
		}
		return &wSKM{j.Version, j.ID, j.Iteration, j.CipherText, j.Signature}
	}
	if len(b) < 65 {
		return nil
	}
	fs, ok := pbParse(b[1 : len(b)-64])
	if !ok {
		return nil
	}
	w := &wSKM{Ver: uint32(b[0] >> 4), Sig: b[len(b)-64:]}
	w.ID, _ = pbUint(fs, 1)
	w.Iter, _ = pbUint(fs, 2)
	w.CT = pbBytes(fs, 3)
	return w
}

func (w *wSKM) encode(ser string) []byte {
	if ser == "json" {
		b, _ := json.Marshal(struct {
			ID, Iteration uint32
			CipherText    []byte
			Version       uint32
			Signature     []byte
		}{w.ID, w.Iter, w.CT, w.Ver, w.Sig})
		return b
	}
	return append(w.signedPart(), w.Sig...)
}

// signedPart is what a group message's signature covers (protocol buffer form).
func (w *wSKM) signedPart() []byte {
	out := []byte{byte(w.Ver<<4 | 3)}
	out = pbPutUint(out, 1, w.ID)
	out = pbPutUint(out, 2, w.Iter)
	if w.CT != nil {
		out = pbPutBytes(out, 3, w.CT)
	}
	return out
}

func parseSKD(ser string, b []byte) *wSKD {
	if ser == "json" {
		var j struct {
			ID, Iteration        uint32
			ChainKey, SigningKey []byte
			Version              uint32
		}
		if json.Unmarshal(b, &j) != nil {
			return nil
		}
		return &wSKD{j.Version, j.ID, j.Iteration, j.ChainKey, j.SigningKey}
	}
	if len(b) < 1 {
		return nil
	}
	fs, ok := pbParse(b[1:])
	if !ok {
		return nil
	}
	w := &wSKD{Ver: uint32(b[0] >> 4)}
	w.ID, _ = pbUint(fs, 1)
	w.Iter, _ = pbUint(fs, 2)
	w.Chain, w.Signing = pbBytes(fs, 3), pbBytes(fs, 4)
	return w
}

func (w *wSKD) encode(ser string) []byte {
	if ser == "json" {
		b, _ := json.Marshal(struct {
			ID, Iteration        uint32
			ChainKey, SigningKey []byte
			Version              uint32
		}{w.ID, w.Iter, w.Chain, w.Signing, w.Ver})
		return b
	}
	out := []byte{byte(w.Ver<<4 | 3)}
	out = pbPutUint(out, 1, w.ID)
	out = pbPutUint(out, 2, w.Iter)
	if w.Chain != nil {
		out = pbPutBytes(out, 3, w.Chain)
	}
	if w.Signing != nil {
		out = pbPutBytes(out, 4, w.Signing)
	}
	return out
}

// mangle applies a byte-level corruption.
func mangle(r *RNG, b []byte) []byte {
	c := append([]byte(nil), b...)
	if len(c) == 0 {
		return r.Bytes(1 + r.N(40))
	}
	switch r.N(9) {
	case 0, 1, 2:
		c[r.N(len(c))] ^= 1 << uint(r.N(8))
	case 3:
		c[r.N(len(c))] = byte(r.U64())
	case 4:
		c = c[:r.N(len(c))]
	case 5:
		c = append(c, r.Bytes(1+r.N(20))...)
	case 6:
		i := r.N(len(c))
		j := i + 1 + r.N(8)
		if j > len(c) {
			j = len(c)
		}
		c = append(c[:i], c[j:]...)
	case 7:
		i := r.N(len(c))
		c = append(c[:i], append(r.Bytes(1+r.N(8)), c[i:]...)...)
	case 8:
		i, j := r.N(len(c)), r.N(len(c))
		c[i], c[j] = c[j], c[i]
	}
	return c
}

func eq(a, b []byte) bool { return bytes.Equal(a, b) }
