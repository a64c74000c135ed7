package sim

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/prospik/libsignal-protocol-go/fingerprint"
	"github.com/prospik/libsignal-protocol-go/provision"
)

// ---------------------------------------------------------------- provisioning

// A sender (an independent implementation) seals envelopes for devices; a network that corrupts,
// truncates, splices, duplicates and misdelivers hands them to the library on the devices.

type envMsg struct {
	label int
	to    int
	pt    []byte
	pub   []byte
	body  []byte
}

type provWorld struct {
	w    *World
	r    *Run
	keys []refKey
	msgs map[int]*envMsg
}

func refEnvelope(eph refKey, to []byte, iv, pt []byte) ([]byte, error) {
	s, err := refDH(eph, to)
	if err != nil {
		return nil, err
	}
	k := refHKDF(s, nil, "Mixin Provisioning Message", 64)
	body := append([]byte{1}, iv...)
	body = append(body, refCBC(k[:32], iv, pt)...)
	return append(body, refHMAC(k[32:], body)...), nil
}

func envJSON(pub, body []byte) string {
	b, _ := json.Marshal(map[string][]byte{"public_key": pub, "body": body})
	return base64.StdEncoding.EncodeToString(b)
}

func (x *provWorld) exec(o *Op) {
	r := NewRNG(hash64("env", x.r.P.Seed, o.ID))
	switch o.Kind {
	case "seal":
		m := &envMsg{label: o.ID, to: o.A % len(x.keys), pt: plaintext(x.r.P.Seed, o.ID, o.Pt)}
		if r.P(30) {
			m.pt, _ = json.Marshal(map[string]interface{}{"identity_key_public": r.Bytes(33), "identity_key_private": r.Bytes(32),
				"user_id": fmt.Sprint(r.U64()), "provisioning_code": "123456", "profile_key": r.Bytes(32)})
		}
		eph := refGen(r)
		body, err := refEnvelope(eph, x.keys[m.to].pub, r.Bytes(16), m.pt)
		if err != nil {
			panic("simulator: " + err.Error())
		}
		m.pub, m.body = eph.pub, body
		x.msgs[o.ID] = m
		x.r.Event("seal #%d for %d len %d", o.ID, m.to, len(m.pt))
		for i := range o.Dl {
			d := o.Dl[i]
			x.w.at(x.r.Now+d.Delay, o.ID, i, func() { x.deliver(m, d, NewRNG(hash64("envd", x.r.P.Seed, o.ID, i))) })
		}
	}
}

func (x *provWorld) deliver(m *envMsg, d Dl, r *RNG) {
	if x.w.sleep {
		x.r.Step++
	}
	pub, body := append([]byte{}, m.pub...), append([]byte{}, m.body...)
	to := m.to
	must := "plaintext" // or "error", or "either": the sealed plaintext or an error
	raw, rawSet := "", false
	ctEnd := len(body) - 32
	flip := func(from, to int) { body[from+r.N(to-from)] ^= 1 << uint(r.N(8)) }
	priv := ""
	switch d.Mode {
	case "":
	case "version":
		body[0] = byte(r.N(256))
		must = "error"
		if body[0] == 1 {
			body[0] = 2
		}
	case "odd": // a faulty sender: sealed and authenticated under another version, or not whole blocks
		eph := refGen(r)
		s, err := refDH(eph, x.keys[to].pub)
		if err != nil {
			panic("simulator: " + err.Error())
		}
		k := refHKDF(s, nil, "Mixin Provisioning Message", 64)
		body = body[:ctEnd]
		copy(body[17:], refCBC(k[:32], body[1:17], m.pt))
		switch r.N(3) {
		case 0:
			body[0] = byte(2 + r.N(254))
		case 1:
			body[0] = 0
		case 2:
			body = body[:17+16*r.N((ctEnd-17)/16)]
			if r.P(70) {
				body = append(body, r.Bytes(1+r.N(15))...)
			} else {
				body = body[:17]
			}
		}
		pub, body = eph.pub, append(body, refHMAC(k[32:], body)...)
		must = "error"
	case "iv":
		flip(1, 17)
		must = "error"
	case "ct":
		flip(17, ctEnd)
		must = "error"
	case "mac":
		flip(ctEnd, len(body))
		must = "error"
	case "maczero":
		copy(body[ctEnd:], make([]byte, 32))
		must = "error"
	case "cut":
		body = body[:r.N(len(body))]
		must = "error"
	case "cutmiddle": // the MAC stays at the end
		k := 1 + r.N(ctEnd-1)
		l := min(ctEnd-k, 1+r.N(32))
		body = append(append([]byte{}, body[:k]...), body[k+l:]...)
		must = "error"
	case "block": // remove or repeat whole blocks
		n := (ctEnd - 17) / 16
		k := 17 + 16*r.N(n)
		if r.P(50) {
			body = append(append([]byte{}, body[:k]...), body[k+16:]...)
		} else {
			body = append(append([]byte{}, body[:k+16]...), body[k:]...)
		}
		must = "error"
	case "extend":
		x := r.Bytes(1 + r.N(40))
		if r.P(50) {
			body = append(body, x...)
		} else {
			body = append(append(append([]byte{}, body[:ctEnd]...), x...), body[ctEnd:]...)
		}
		must = "error"
	case "splice": // parts of two genuine envelopes
		var o *envMsg
		for _, l := range sortedIDs(x.msgs) {
			if q := x.msgs[l]; q != m && (o == nil || r.P(40)) {
				o = q
			}
		}
		if o == nil || bytes.Equal(o.body, m.body) {
			return
		}
		must = "error"
		switch r.N(4) {
		case 0:
			pub = append([]byte{}, o.pub...)
		case 1:
			copy(body[ctEnd:], o.body[len(o.body)-32:])
		case 2:
			copy(body[1:17], o.body[1:17])
		case 3:
			body = append(append(append([]byte{}, body[:17]...), o.body[17:len(o.body)-32]...), body[ctEnd:]...)
			if bytes.Equal(body, m.body) {
				must = "plaintext"
			}
		}
	case "pub":
		k := r.N(33)
		bit := uint(r.N(8))
		pub[k] ^= 1 << bit
		must = "error"
		if k == 32 && bit == 7 { // not a part of the key
			must = "either"
		}
	case "pubcut":
		pub = pub[:r.N(33)]
		must = "error"
	case "publow": // points of small order
		pub = append([]byte{5}, make([]byte, 32)...)
		pub[1] = byte(r.N(2))
		must = "error"
	case "wrong": // delivered to another device
		to = (m.to + 1 + r.N(max(1, len(x.keys)-1))) % len(x.keys)
		if to != m.to {
			must = "error"
		}
	case "privcut":
		priv = base64.StdEncoding.EncodeToString(x.keys[to].priv[:r.N(32)])
		must = "either" // the missing end may be what clamping makes of it anyway
	case "priv64":
		priv = base64.StdEncoding.EncodeToString(x.keys[to].priv)
		priv = priv[:r.N(len(priv))] + "!" + priv[r.N(len(priv)):]
		must = "error"
	case "json":
		b, _ := json.Marshal(map[string][]byte{"public_key": pub, "body": body})
		k := r.N(len(b))
		switch r.N(3) {
		case 0:
			b[k] ^= 1 << uint(r.N(8))
		case 1:
			b = b[:k]
		case 2:
			b = append(append(append([]byte{}, b[:k]...), byte(r.N(256))), b[k:]...)
		}
		raw = base64.StdEncoding.EncodeToString(b)
		must = "either"
	case "shape":
		s := r.Str(`{}`, `null`, `[]`, `""`, `{"body":null,"public_key":null}`, `{"body":5}`, `{"public_key":"BQ=="}`, `{"body":{"a":1}}`, ``, `{"body":"AQ=="}`)
		if r.P(40) {
			v, _ := json.Marshal(map[string][]byte{"public_key": pub, "body": append([]byte{1}, r.Bytes(r.N(60))...)})
			s = string(v)
		}
		raw, rawSet = base64.StdEncoding.EncodeToString([]byte(s)), true
		must = "error"
	case "base64":
		raw = envJSON(pub, body)
		k := r.N(len(raw))
		switch r.N(3) {
		case 0:
			raw = raw[:k]
		case 1:
			raw = raw[:k] + string([]byte{byte(r.N(256))}) + raw[k:]
		case 2:
			raw = raw[:k] + string([]byte{byte(r.N(256))}) + raw[k+1:]
		}
		rawSet = true
		must = "either"
	}
	if d.Mode != "" {
		x.r.Count("fault:envelope "+d.Mode, 1)
		x.r.Res.Nontrivial++
	}
	if !rawSet && raw == "" {
		raw = envJSON(pub, body)
	}
	if priv == "" {
		priv = base64.StdEncoding.EncodeToString(x.keys[to].priv)
	}
	var got string
	var err error
	var pan interface{}
	func() {
		defer func() { pan = recover() }()
		got, err = provision.Decrypt(strings.Clone(priv), strings.Clone(raw))
	}()
	res := "ok"
	if pan != nil {
		res = "panic"
	} else if err != nil {
		res = "error"
	}
	x.r.Event("deliver #%d to %d %q: %s", m.label, to, d.Mode, res)
	x.r.Count("verdict:"+must+"/"+res, 1)
	switch {
	case pan != nil:
		x.r.Fail("provision", "envelope #%d (%s) delivered to device %d: panic: %v", m.label, d.Mode, to, pan)
	case err == nil && (must == "error" || got != string(m.pt)):
		x.r.Fail("provision", "envelope #%d (%s) delivered to device %d yields %d bytes of plaintext (sealed for device %d: %d bytes, equal: %v)", m.label, d.Mode, to, len(got), m.to, len(m.pt), got == string(m.pt))
	case err != nil && must == "plaintext":
		x.r.Fail("provision", "genuine envelope #%d refused: %v", m.label, err)
	case err != nil && got != "":
		x.r.Fail("provision", "plaintext is returned along with an error")
	}
}

func sortedIDs[V any](m map[int]V) []int {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}

func runProvision(r *Run) {
	w := newWorld(r)
	x := &provWorld{w: w, r: r, msgs: map[int]*envMsg{}}
	for i := 0; i < r.P.Cfg.Nodes; i++ {
		x.keys = append(x.keys, refGen(NewRNG(hash64("prov", r.P.Seed, i))))
	}
	for i := range r.P.Ops {
		o := &r.P.Ops[i]
		w.at(o.At, o.ID, -1, func() { x.exec(o) })
	}
	w.loop()
}

var envTampers = []string{"version", "odd", "odd", "iv", "ct", "ct", "mac", "maczero", "cut", "cutmiddle", "block", "extend", "splice", "splice", "pub", "pubcut", "publow", "wrong", "wrong", "privcut",
	"priv64", "json", "shape", "base64"}

func genProvision(seed uint64) *Plan {
	r := NewRNG(seed)
	p := &Plan{Scenario: "provision", Seed: seed, Cfg: Cfg{Nodes: r.Range(1, 4)}}
	t := int64(0)
	for i := 0; i < 40; i++ {
		t += int64(r.N(500))
		o := Op{ID: i + 1, At: t, Kind: "seal", A: r.N(p.Cfg.Nodes), Pt: sizeOf(r, 10)}
		for k := 1 + r.N(5); k > 0; k-- {
			d := Dl{Delay: int64(r.N(5000))}
			if r.P(75) {
				d.Mode = envTampers[r.N(len(envTampers))]
			}
			o.Dl = append(o.Dl, d)
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

// ---------------------------------------------------------------- safety numbers

func refNumbers(fp []byte) string {
	s := ""
	for i := 0; i < 30; i += 5 {
		v := uint64(0)
		for _, c := range fp[i : i+5] {
			v = v<<8 | uint64(c)
		}
		s += fmt.Sprintf("%05d", v%100000)
	}
	return s
}

type fpParty struct {
	own  []byte
	sees map[int][]byte // what it holds as the other's fingerprint
}

func oddFingerprint(r *RNG, others [][]byte) []byte {
	n := 30
	switch r.N(4) {
	case 0:
		n = 32
	case 1:
		n = 30 + r.N(40)
	}
	b := r.Bytes(n)
	switch r.N(10) {
	case 0:
		b = bytes.Repeat([]byte{byte(r.Pick(1, 1) * 255)}, n)
	case 1: // small numbers with leading zeros
		for i := range b {
			if i%5 < 4 {
				b[i] = 0
			}
		}
	case 2: // numbers next to a multiple of the modulus
		for i := 0; i+5 <= 30; i += 5 {
			v := (r.U64()%(1<<40)/100000)*100000 + uint64(r.N(3)) - uint64(r.N(2))
			v &= 1<<40 - 1
			for k := 0; k < 5; k++ {
				b[i+k] = byte(v >> uint(8*(4-k)))
			}
		}
	case 3, 4: // close to another one
		if len(others) > 0 {
			o := others[r.N(len(others))]
			copy(b, o)
			if r.P(80) {
				k := r.N(30)
				b[k] ^= 1 << uint(r.N(8))
			}
		}
	case 5: // same chunks in another order
		if len(others) > 0 {
			o := others[r.N(len(others))]
			copy(b, o[15:30])
			copy(b[15:], o[:15])
		}
	}
	return b
}

func runFingerprint(r *Run) {
	var ps []*fpParty
	var all [][]byte
	for i := 0; i < r.P.Cfg.Nodes; i++ {
		f := oddFingerprint(NewRNG(hash64("fp", r.P.Seed, i)), all)
		all = append(all, f)
		ps = append(ps, &fpParty{own: f, sees: map[int][]byte{}})
	}
	display := func(a, b int) (string, bool) {
		other, ok := ps[a].sees[b]
		if !ok {
			return "", false
		}
		l, m := append([]byte(nil), ps[a].own...), append([]byte(nil), other...)
		d := fingerprint.NewFingerprint(fingerprint.NewDisplay(l, m)).Display()
		if !bytes.Equal(l, ps[a].own) || !bytes.Equal(m, other) {
			r.Fail("fingerprint", "a display changes the fingerprints it is given")
		}
		for i := range l { // the caller's buffers are used for something else meanwhile
			l[i] ^= 0x55
		}
		for i := range m {
			m[i] ^= 0xAA
		}
		t := d.DisplayText()
		if d.DisplayText() != t {
			r.Fail("fingerprint", "a display shows different texts")
		}
		x, y := refNumbers(ps[a].own), refNumbers(other)
		if y < x {
			x, y = y, x
		}
		if t != x+y {
			r.Fail("fingerprint", "party %d displays %q with %d, expected %q", a, t, b, x+y)
		}
		if len(t) != 60 || strings.Trim(t, "0123456789") != "" {
			r.Fail("fingerprint", "displayed text %q is not 60 digits", t)
		}
		return t, true
	}
	for i := range r.P.Ops {
		o := &r.P.Ops[i]
		if o.A >= len(ps) || o.B >= len(ps) || o.A == o.B {
			continue
		}
		r.Now = max(r.Now, o.At)
		r.Step++
		rr := NewRNG(hash64("fpo", r.P.Seed, o.ID))
		switch o.Kind {
		case "give": // A's fingerprint arrives at B, possibly substituted on the way
			f := append([]byte(nil), ps[o.A].own...)
			switch o.S {
			case "swap":
				f = oddFingerprint(rr, all)
			case "third":
				f = append([]byte(nil), ps[o.N%len(ps)].own...)
			case "mirror": // B's own
				f = append([]byte(nil), ps[o.B].own...)
			case "near":
				f[rr.N(30)] ^= 1 << uint(rr.N(8))
			case "tail": // only what is not displayed
				f = append(f[:30:30], rr.Bytes(rr.N(20))...)
			}
			if o.S != "" {
				r.Count("fault:fingerprint "+o.S, 1)
				r.Res.Nontrivial++
			}
			ps[o.B].sees[o.A] = f
			r.Event("give %d->%d %s %x", o.A, o.B, o.S, f)
		case "compare":
			x, ok1 := display(o.A, o.B)
			y, ok2 := display(o.B, o.A)
			if !ok1 || !ok2 {
				continue
			}
			a, b := refNumbers(ps[o.A].own), refNumbers(ps[o.B].own)
			sa, sb := refNumbers(ps[o.B].sees[o.A]), refNumbers(ps[o.A].sees[o.B])
			genuine := bytes.Equal(ps[o.A].own[:30], ps[o.B].sees[o.A][:30]) && bytes.Equal(ps[o.B].own[:30], ps[o.A].sees[o.B][:30])
			same := a == sa && b == sb || a == b && sa == sb
			r.Event("compare %d %d genuine=%v: %v", o.A, o.B, genuine, x == y)
			r.Count(fmt.Sprintf("verdict:genuine=%v same=%v", genuine, x == y), 1)
			if genuine && x != y {
				r.Fail("fingerprint", "parties %d and %d hold each other's fingerprints but display %q and %q", o.A, o.B, x, y)
			}
			if !same && x == y {
				r.Fail("fingerprint", "a substituted fingerprint is not noticed: parties %d and %d both display %q", o.A, o.B, x)
			}
		}
	}
}

func genFingerprint(seed uint64) *Plan {
	r := NewRNG(seed)
	p := &Plan{Scenario: "fingerprint", Seed: seed, Cfg: Cfg{Nodes: r.Range(2, 4)}}
	t := int64(0)
	id := 0
	add := func(o Op) {
		id++
		o.ID, o.At = id, t
		p.Ops = append(p.Ops, o)
		t += int64(r.N(1000))
	}
	for i := 0; i < 40; i++ {
		a := r.N(p.Cfg.Nodes)
		b := r.N(p.Cfg.Nodes)
		if a == b {
			continue
		}
		how := ""
		if r.P(50) {
			how = r.Str("swap", "third", "mirror", "near", "near", "tail")
		}
		add(Op{Kind: "give", A: a, B: b, S: how, N: r.N(4)})
		if r.P(60) {
			how = ""
			if r.P(30) {
				how = r.Str("swap", "third", "mirror", "near", "tail")
			}
			add(Op{Kind: "give", A: b, B: a, S: how, N: r.N(4)})
		}
		add(Op{Kind: "compare", A: a, B: b})
	}
	return p
}

func init() {
	scenarios["provision"] = runProvision
	scenarios["fingerprint"] = runFingerprint
	d := mix("C26", 5000, 150000, []string{"provision"}, genProvision)
	d.real = "provision, cipher, kdf, ecc"
	d.stubs = "the sealing side (independent implementation), network (corrupting, truncating, splicing, misdelivering)"
	d = mix("C27", 20000, 200000, []string{"fingerprint"}, genFingerprint)
	d.real = "fingerprint, util/bytehelper"
	d.stubs = "transport of the fingerprints, with an intermediary that substitutes them"
}
