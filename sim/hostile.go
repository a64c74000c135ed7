package sim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/prospik/libsignal-protocol-go/cipher"
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/fingerprint"
	grecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/message"
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/provision"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

// Hostile input in the middle of a simulated conversation (C05): at any point of its life a device is
// cloned, and the clone is given damaged wire bytes, damaged stored records, ill-formed contents that
// a peer with valid keys authenticated, malicious bundles, and calls in the wrong state. No call may
// panic or run forever. The original device goes on with its conversation.

type hostile struct {
	w    *World
	n    *Node // the clone
	orig *Node
	r    *RNG
	ser  *serialize.Serializer
	what string
	op   *Op
	k    int
}

func (x *hostile) try(what string, f func()) bool {
	out := x.n.call(hash64("hostile", x.w.P.Seed, x.op.ID, x.k), nil, nil, func() error { f(); return nil })
	x.k++
	if out.panicV != nil {
		x.w.R.Fail("panic", "%s, %s: panic: %v", x.what, what, out.panicV)
		return false
	}
	x.w.R.Count("hostile calls", 1)
	return true
}

var hostileKinds = []string{"wire", "wire", "fields", "record", "record", "record", "inner", "group", "bundle", "state", "primitive", "wrongparser"}

func (w *World) opHostile(o *Op, a *Node) {
	r := NewRNG(hash64("hostile op", w.P.Seed, o.ID))
	b := *a
	b.D = a.D.Clone()
	b.builders, b.ciphers, b.gciphers, b.gbuilder = nil, nil, nil, nil
	b.restart()
	b.liveSess, b.liveSK, b.livePK, b.liveSPK = nil, nil, nil, nil
	if a.liveSess != nil {
		b.D = a.image().Clone()
	}
	x := &hostile{w: w, n: &b, orig: a, r: r, ser: a.Ser, op: o, what: "(" + o.S + ")"}
	if b.scope != nil {
		b.scope = nil
	}
	w.R.Count("fault:hostile "+o.S, 1)
	switch o.S {
	case "wire":
		x.wire(false)
	case "wrongparser":
		x.wire(true)
	case "fields":
		x.fields()
	case "record":
		x.record()
	case "inner":
		x.inner()
	case "group":
		x.group()
	case "bundle":
		x.bundle()
	case "state":
		x.wrongState()
	case "primitive":
		x.primitive()
	}
	w.R.Event("hostile %s at %d: %d calls", o.S, a.Idx, x.k)
}

// peerAddr is an address the clone may or may not have a session with.
func (x *hostile) peerAddr() *protocol.SignalAddress {
	i := x.r.N(len(x.w.nodes) + 1)
	if i == len(x.w.nodes) {
		return protocol.NewSignalAddress("stranger", uint32(x.r.N(3)))
	}
	return x.w.nodes[i].Addr()
}

func (x *hostile) skName() *protocol.SenderKeyName {
	ks := sortedKeys(x.n.D.Sender)
	if len(ks) > 0 && x.r.P(80) {
		for _, g := range x.w.groupIDs() {
			for _, m := range x.w.nodes {
				nm := protocol.NewSenderKeyName(g, m.Addr())
				if skKey(nm) == ks[x.r.N(len(ks))] {
					return nm
				}
			}
		}
	}
	g := "no such group"
	if ids := x.w.groupIDs(); len(ids) > 0 {
		g = ids[x.r.N(len(ids))]
	}
	return protocol.NewSenderKeyName(g, x.peerAddr())
}

// sample is a wire message of the conversation so far, of any kind.
func (x *hostile) sample() (kind string, wire []byte) {
	type c struct {
		kind string
		b    []byte
	}
	var cs []c
	if l := len(x.w.order); l > 0 {
		m := x.w.order[l-1-min(x.r.N(l), x.r.N(l))]
		k := "whisper"
		if m.prekey {
			k = "prekey"
		}
		cs = append(cs, c{k, m.wire}, c{k, m.wire})
	}
	if k, b := x.w.g.sample(x.r); b != nil {
		cs = append(cs, c{k, b}, c{k, b})
	}
	if len(cs) == 0 || x.r.P(5) {
		return x.r.Str("whisper", "prekey", "group", "dist"), x.r.Bytes(x.r.N(120))
	}
	q := cs[x.r.N(len(cs))]
	return q.kind, append([]byte(nil), q.b...)
}

func (x *hostile) wire(wrong bool) {
	kind, b := x.sample()
	if wrong {
		kind = x.r.Str("whisper", "prekey", "group", "dist")
	}
	ser := x.ser
	if x.r.P(10) {
		ser = newSerializer(x.r.Str("proto", "json"))
	}
	isJSON := len(b) > 0 && b[0] == '{'
	for i := x.r.N(4); i > 0 || wrong && i == 0; i-- {
		if isJSON && x.r.P(60) {
			b = jsonMutate(x.r, b)
		} else if x.r.P(30) {
			b = pbMutate(x.r, b)
		} else {
			b = mangle(x.r, b)
		}
	}
	if x.r.P(3) {
		b = [][]byte{nil, {}, {0}, {3}, []byte("null"), []byte("{}"), []byte("[]"), {0x33}, make([]byte, 8), make([]byte, 64), make([]byte, 72), make([]byte, 73)}[x.r.N(12)]
	}
	x.what = fmt.Sprintf("%s message %s as a %s", short(b), x.op.S, kind)
	x.feed(ser, kind, b)
}

// feed parses the bytes and, if that works, uses the result like a receiver does.
func (x *hostile) feed(ser *serialize.Serializer, kind string, b []byte) {
	switch kind {
	case "whisper":
		x.try("parsing", func() {
			m, err := protocol.NewSignalMessageFromBytes(b, ser.SignalMessage)
			if err == nil {
				x.useWhisper(m)
			}
		})
	case "prekey":
		x.try("parsing", func() {
			m, err := protocol.NewPreKeySignalMessageFromBytes(b, ser.PreKeySignalMessage, ser.SignalMessage)
			if err == nil {
				x.usePreKey(m)
			}
		})
	case "group":
		x.try("parsing", func() {
			m, err := protocol.NewSenderKeyMessageFromBytes(b, ser.SenderKeyMessage)
			if err == nil {
				x.useGroup(m, x.skName())
			}
		})
	case "dist":
		x.try("parsing", func() {
			m, err := protocol.NewSenderKeyDistributionMessageFromBytes(b, ser.SenderKeyDistributionMessage)
			if err == nil {
				x.useDist(m, x.skName())
			}
		})
	}
}

func (x *hostile) useWhisper(m *protocol.SignalMessage) {
	x.w.R.Count("hostile messages that parse", 1)
	x.probe(m)
	x.n.cipher(x.peerAddr(), x.r.P(30)).Decrypt(m)
}

func (x *hostile) usePreKey(m *protocol.PreKeySignalMessage) {
	x.w.R.Count("hostile messages that parse", 1)
	x.probe(m)
	a := x.peerAddr()
	x.n.cipher(a, false).DecryptMessage(m)
	if x.r.P(20) {
		x.n.cipher(a, true).DecryptMessage(m)
	}
	if x.r.P(20) {
		x.n.builder(a).Process((&Stores{x.n}).LoadSession(a), m)
	}
	if m.WhisperMessage() != nil {
		x.n.cipher(a, false).Decrypt(m.WhisperMessage())
	}
}

func (x *hostile) useGroup(m *protocol.SenderKeyMessage, name *protocol.SenderKeyName) {
	x.w.R.Count("hostile messages that parse", 1)
	x.probe(m)
	x.n.groupCipher(name).Decrypt(m)
}

func (x *hostile) useDist(m *protocol.SenderKeyDistributionMessage, name *protocol.SenderKeyName) {
	x.w.R.Count("hostile messages that parse", 1)
	x.probe(m)
	x.n.groupBuilder().Process(name, m)
	x.n.groupCipher(name).Encrypt([]byte("after a hostile distribution"))
	x.n.groupBuilder().Create(name)
	if k, b := x.w.g.sample(x.r); k == "group" {
		if m, err := protocol.NewSenderKeyMessageFromBytes(append([]byte(nil), b...), x.ser.SenderKeyMessage); err == nil {
			x.n.groupCipher(name).Decrypt(m)
		}
	}
}

// probe calls everything without parameters that an object offers. It is given what a
// parser returned without an error: a caller goes on to use that, so it has to be there.
func (x *hostile) probe(obj interface{}) {
	v := reflect.ValueOf(obj)
	if v.Kind() == reflect.Ptr && v.IsNil() {
		panic(fmt.Sprintf("neither an error nor an object (%T)", obj))
	}
	probeValue(v, 3)
}

var mutators = map[string]bool{"ArchiveCurrentState": true, "ClearUnackPreKeyMessage": true, "DeleteAllSessions": true}

func probeValue(v reflect.Value, depth int) {
	if depth == 0 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return
		}
	case reflect.Slice:
		for i := 0; i < v.Len() && i < 50 && v.Type().Elem().Kind() != reflect.Uint8; i++ {
			probeValue(v.Index(i), depth)
		}
		return
	default:
		return
	}
	for v.Kind() == reflect.Interface {
		v = v.Elem()
		if v.Kind() != reflect.Ptr || v.IsNil() {
			return
		}
	}
	t := v.Type()
	if !strings.Contains(t.Elem().PkgPath(), "libsignal-protocol-go") || strings.HasSuffix(t.Elem().PkgPath(), "/serialize") {
		return
	}
	for i := 0; i < t.NumMethod(); i++ {
		if t.Method(i).Type.NumIn() != 1 || mutators[t.Method(i).Name] {
			continue
		}
		// what these return is there only if the state says so
		if st, ok := v.Interface().(*record.State); ok {
			if m := t.Method(i).Name; strings.HasPrefix(m, "PendingKeyExchange") && !st.HasPendingKeyExchange() || m == "UnackPreKeyMessageItems" && !st.HasUnacknowledgedPreKeyMessage() {
				continue
			}
		}
		for _, o := range v.Method(i).Call(nil) {
			probeValue(o, depth-1)
		}
	}
}

// ---------------------------------------------------------------- structured mutation

func weirdBytes(r *RNG, b []byte) []byte {
	switch r.N(12) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return append([]byte(nil), b[:r.N(len(b)+1)]...)
	case 3:
		return append(append([]byte(nil), b...), r.Bytes(1+r.N(40))...)
	case 4:
		return make([]byte, len(b))
	case 5:
		return r.Bytes([]int{1, 2, 8, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 80, 100, 5000}[r.N(16)])
	case 6:
		return append([]byte{5}, lowOrder[r.N(len(lowOrder))]...)
	case 7:
		return bytes.Repeat([]byte{0xFF}, len(b))
	}
	return mangle(r, b)
}

// lowOrder are u-coordinates with a small order, on the curve or its twist.
var lowOrder = func() [][]byte {
	z := make([]byte, 32)
	one := make([]byte, 32)
	one[0] = 1
	p := leBytes(edP)
	m1 := leBytes(edSub(leInt(z), leInt(one)))
	e := []byte{0xe0, 0xeb, 0x7a, 0x7c, 0x3b, 0x41, 0xb8, 0xae, 0x16, 0x56, 0xe3, 0xfa, 0xf1, 0x9f, 0xc4, 0x6a, 0xda, 0x09, 0x8d, 0xeb, 0x9c, 0x32, 0xb1, 0xfd, 0x86, 0x62, 0x05, 0x16, 0x5f, 0x49, 0xb8, 0x00}
	f := []byte{0x5f, 0x9c, 0x95, 0xbc, 0xa3, 0x50, 0x8c, 0x24, 0xb1, 0xd0, 0xb1, 0x55, 0x9c, 0x83, 0xef, 0x5b, 0x04, 0x44, 0x5c, 0xc4, 0x58, 0x1c, 0x8e, 0x86, 0xd8, 0x22, 0x4e, 0xdd, 0xd0, 0x9f, 0x11, 0x57}
	return [][]byte{z, one, p, m1, e, f, bytes.Repeat([]byte{0xFF}, 32)}
}()

func weirdUint(r *RNG, v uint64) uint64 {
	return []uint64{0, 1, v + 1, v - 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, v + 1999, v + 2000, v + 2001, v + 25000, r.U64(), v ^ 1<<uint(r.N(32))}[r.N(14)]
}

// leaves lists all settable places of a structure.
func leaves(v reflect.Value, out *[]reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		*out = append(*out, v)
		if !v.IsNil() {
			leaves(v.Elem(), out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				leaves(v.Field(i), out)
			}
		}
	case reflect.Slice:
		*out = append(*out, v)
		if v.Type().Elem().Kind() != reflect.Uint8 {
			for i := 0; i < v.Len() && i < 6; i++ {
				leaves(v.Index(i), out)
			}
		}
	default:
		*out = append(*out, v)
	}
}

func mutateStruct(r *RNG, s interface{}) string {
	v := reflect.ValueOf(s).Elem()
	var ls []reflect.Value
	leaves(v, &ls)
	if len(ls) == 0 {
		return "nothing"
	}
	f := ls[r.N(len(ls))]
	switch f.Kind() {
	case reflect.Ptr:
		if f.IsNil() {
			f.Set(reflect.New(f.Type().Elem()))
			return "pointer set"
		}
		f.Set(reflect.Zero(f.Type()))
		return "pointer cleared: " + f.Type().String()
	case reflect.Slice:
		if f.Type().Elem().Kind() == reflect.Uint8 {
			b := weirdBytes(r, f.Bytes())
			if b == nil {
				f.Set(reflect.Zero(f.Type()))
			} else {
				f.SetBytes(b)
			}
			return fmt.Sprintf("bytes of length %d", len(b))
		}
		switch r.N(6) {
		case 0:
			f.Set(reflect.Zero(f.Type()))
		case 1:
			f.Set(reflect.Append(f, reflect.Zero(f.Type().Elem())))
		case 2:
			if f.Type().Elem().Kind() == reflect.Ptr {
				f.Set(reflect.Append(f, reflect.New(f.Type().Elem().Elem())))
			}
		case 3:
			if f.Len() > 0 {
				f.Set(reflect.Append(f, f.Index(r.N(f.Len()))))
			}
		case 4:
			for i := r.N(60); i > 0 && f.Len() > 0 && f.Len() < 4000; i-- {
				f.Set(reflect.Append(f, f.Index(r.N(f.Len()))))
			}
		case 5:
			if f.Len() > 0 {
				f.Set(f.Slice(0, r.N(f.Len())))
			}
		}
		return "list " + f.Type().String()
	case reflect.Uint32, reflect.Uint64, reflect.Uint, reflect.Uint8:
		f.SetUint(weirdUint(r, f.Uint()) & (1<<uint(f.Type().Bits()) - 1))
		return "number " + fmt.Sprint(f.Uint())
	case reflect.Int, reflect.Int64, reflect.Int32:
		f.SetInt([]int64{0, 1, -1, 2, 3, 4, 1 << 31, -1 << 31, 1<<63 - 1, f.Int() + 1}[r.N(10)])
		return "number " + fmt.Sprint(f.Int())
	case reflect.Bool:
		f.SetBool(!f.Bool())
		return "flag"
	case reflect.String:
		f.SetString(string(weirdBytes(r, []byte(f.String()))))
		return "string"
	}
	return f.Kind().String()
}

// jsonMutate replaces, removes or adds a value anywhere in a JSON document.
func jsonMutate(r *RNG, b []byte) []byte {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	if d.Decode(&v) != nil {
		return mangle(r, b)
	}
	count := 0
	var walk func(v interface{}, at int) interface{}
	other := func(v interface{}) interface{} {
		switch r.N(9) {
		case 0:
			return nil
		case 1:
			return json.Number([]string{"-1", "0", "1", "4294967295", "4294967296", "1e400", "0.5", "99999999999999999999"}[r.N(8)])
		case 2:
			return ""
		case 3:
			return "AAAA"
		case 4:
			return []interface{}{}
		case 5:
			return []interface{}{nil}
		case 6:
			return map[string]interface{}{}
		case 7:
			return true
		}
		if s, ok := v.(string); ok && len(s) > 0 {
			return s[:r.N(len(s))]
		}
		return []interface{}{v, v}
	}
	walk = func(v interface{}, at int) interface{} {
		count++
		if count-1 == at {
			return other(v)
		}
		switch t := v.(type) {
		case map[string]interface{}:
			var ks []string
			for k := range t {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if count == at && r.P(25) {
					count++
					delete(t, k)
					continue
				}
				t[k] = walk(t[k], at)
			}
		case []interface{}:
			for i := range t {
				t[i] = walk(t[i], at)
			}
		}
		return v
	}
	walk(v, -1)
	at := r.N(count)
	count = 0
	v = walk(v, at)
	out, err := json.Marshal(v)
	if err != nil {
		return mangle(r, b)
	}
	return out
}

// pbMutate changes one field of a protocol buffer, keeping prefix and suffix bytes as they are.
func pbMutate(r *RNG, b []byte) []byte {
	if len(b) < 2 {
		return mangle(r, b)
	}
	for _, cut := range []int{8, 64, 0} {
		if len(b) < 1+cut {
			continue
		}
		fs, ok := pbParse(b[1 : len(b)-cut])
		if !ok || len(fs) == 0 {
			continue
		}
		i := r.N(len(fs))
		out := []byte{b[0]}
		if r.P(15) {
			out[0] = byte(r.U64())
		}
		for j, f := range fs {
			times := 1
			if j == i {
				switch r.N(5) {
				case 0:
					times = 0
				case 1:
					times = 2
				case 2:
					f.num = 1 + r.N(9)
				default:
					if f.b != nil {
						f.b = weirdBytes(r, f.b)
						if f.b == nil {
							f.b = []byte{}
						}
					} else {
						f.v = weirdUint(r, f.v)
					}
				}
			}
			for ; times > 0; times-- {
				if f.b != nil {
					out = pbPutBytes(out, f.num, f.b)
				} else {
					out = putUvarint(putUvarint(out, uint64(f.num)<<3), f.v)
				}
			}
		}
		return append(out, b[len(b)-cut:]...)
	}
	return mangle(r, b)
}

// ---------------------------------------------------------------- damaged structures and records

func (x *hostile) fields() {
	kind, b := x.sample()
	var how []string
	mut := func(s interface{}) {
		for i := 1 + x.r.N(3); i > 0; i-- {
			how = append(how, mutateStruct(x.r, s))
		}
		x.what = fmt.Sprintf("%s message with %s", kind, strings.Join(how, ", "))
	}
	switch kind {
	case "whisper":
		s, err := x.ser.SignalMessage.Deserialize(b)
		if err != nil {
			return
		}
		mut(s)
		x.try("building the message from its structure", func() {
			if m, err := protocol.NewSignalMessageFromStruct(s, x.ser.SignalMessage); err == nil {
				x.useWhisper(m)
			}
		})
	case "prekey":
		s, err := x.ser.PreKeySignalMessage.Deserialize(b)
		if err != nil {
			return
		}
		mut(s)
		x.try("building the message from its structure", func() {
			if m, err := protocol.NewPreKeySignalMessageFromStruct(s, x.ser.PreKeySignalMessage, x.ser.SignalMessage); err == nil {
				x.usePreKey(m)
			}
		})
	case "group":
		s, err := x.ser.SenderKeyMessage.Deserialize(b)
		if err != nil {
			return
		}
		mut(s)
		x.try("building the message from its structure", func() {
			if m, err := protocol.NewSenderKeyMessageFromStruct(s, x.ser.SenderKeyMessage); err == nil {
				x.useGroup(m, x.skName())
			}
		})
	case "dist":
		s, err := x.ser.SenderKeyDistributionMessage.Deserialize(b)
		if err != nil {
			return
		}
		mut(s)
		x.try("building the message from its structure", func() {
			if m, err := protocol.NewSenderKeyDistributionMessageFromStruct(s, x.ser.SenderKeyDistributionMessage); err == nil {
				x.useDist(m, x.skName())
			}
		})
	}
}

// damage changes a stored record: its text, its JSON values, or its structure.
func (x *hostile) damage(b []byte, mk func() interface{}) []byte {
	var how []string
	for i := 1 + x.r.N(2); i > 0; i-- {
		switch x.r.N(4) {
		case 0:
			b = mangle(x.r, b)
			how = append(how, "bytes")
		case 1:
			b = jsonMutate(x.r, b)
			how = append(how, "JSON value")
		default:
			s := mk()
			if json.Unmarshal(b, s) != nil {
				b = mangle(x.r, b)
				how = append(how, "bytes")
				continue
			}
			how = append(how, mutateStruct(x.r, s))
			if c, err := json.Marshal(s); err == nil {
				b = c
			}
		}
	}
	x.what += " with damaged " + strings.Join(how, ", ")
	return b
}

func (x *hostile) record() {
	r, D := x.r, x.n.D
	switch r.N(6) {
	case 0, 1:
		ks := sortedKeys(D.Sessions)
		if len(ks) == 0 {
			return
		}
		k := ks[r.N(len(ks))]
		x.what = "session record"
		D.Sessions[k] = x.damage(D.Sessions[k], func() interface{} { return &record.SessionStructure{} })
		var addr *protocol.SignalAddress
		var peer *Node
		for _, m := range x.w.nodes {
			if m.Key() == k {
				addr, peer = m.Addr(), m
			}
		}
		if addr == nil {
			return
		}
		x.try("loading", func() {
			if s, err := record.NewSessionFromBytes(append([]byte(nil), D.Sessions[k]...), x.ser.Session, x.ser.State); err == nil {
				x.w.R.Count("damaged records that load", 1)
				x.what += " (loads)"
				x.probe(s)
				s.HasSessionState(3, r.Bytes(33))
				s.HasSessionState(0, nil)
				record.NewSessionFromBytes(s.Serialize(), x.ser.Session, x.ser.State)
			}
		})
		saved := D.Sessions[k]
		again := func() { D.Sessions[k] = saved }
		x.try("decrypting with it", func() {
			for i, m := range x.w.order {
				if m.to != x.orig.Idx || m.from != peer.Idx || i < len(x.w.order)-40 {
					continue
				}
				if m.prekey {
					if p, err := protocol.NewPreKeySignalMessageFromBytes(append([]byte(nil), m.wire...), x.ser.PreKeySignalMessage, x.ser.SignalMessage); err == nil {
						x.n.cipher(addr, false).DecryptMessage(p)
					}
				} else if p, err := protocol.NewSignalMessageFromBytes(append([]byte(nil), m.wire...), x.ser.SignalMessage); err == nil {
					x.n.cipher(addr, false).Decrypt(p)
				}
			}
		})
		if r.P(70) {
			again()
		}
		x.try("encrypting with it", func() {
			if m, err := x.n.cipher(addr, false).Encrypt([]byte("x")); err == nil {
				m.Serialize()
			}
		})
		x.try("remote registration id", func() { x.n.cipher(addr, false) })
		if r.P(70) {
			again()
		}
		x.try("processing a bundle over it", func() {
			if b := x.bundleOf(peer); b != nil && x.n.builder(addr).ProcessBundle(b) == nil {
				x.n.cipher(addr, false).Encrypt([]byte("y"))
			}
		})
		if r.P(50) { // a single state
			x.what = "session state"
			s, err := x.ser.Session.Deserialize(x.orig.image().Sessions[k])
			if err == nil && s.SessionState != nil {
				st := x.damage(x.ser.State.Serialize(s.SessionState), func() interface{} { return &record.StateStructure{} })
				x.try("loading", func() {
					if s, err := record.NewStateFromBytes(st, x.ser.State); err == nil {
						x.probe(s)
						s.Copy().Serialize()
					}
				})
			}
		}
	case 2, 3:
		ks := sortedKeys(D.Sender)
		if len(ks) == 0 {
			return
		}
		k := ks[r.N(len(ks))]
		x.what = "sender key record"
		D.Sender[k] = x.damage(D.Sender[k], func() interface{} { return &grecord.SenderKeyStructure{} })
		saved := D.Sender[k]
		x.try("loading", func() {
			if s, err := grecord.NewSenderKeyFromBytes(append([]byte(nil), D.Sender[k]...), x.ser.SenderKeyRecord, x.ser.SenderKeyState); err == nil {
				x.w.R.Count("damaged records that load", 1)
				x.what += " (loads)"
				x.probe(s)
				s.GetSenderKeyStateByID(uint32(r.N(5)))
				grecord.NewSenderKeyFromBytes(s.Serialize(), x.ser.SenderKeyRecord, x.ser.SenderKeyState)
			}
		})
		for _, g := range x.w.groupIDs() {
			for _, m := range x.w.nodes {
				name := protocol.NewSenderKeyName(g, m.Addr())
				if skKey(name) != k {
					continue
				}
				x.try("decrypting with it", func() {
					for _, b := range x.w.g.wires(g, m.Idx, 20) {
						if p, err := protocol.NewSenderKeyMessageFromBytes(append([]byte(nil), b...), x.ser.SenderKeyMessage); err == nil {
							x.n.groupCipher(name).Decrypt(p)
						}
					}
				})
				D.Sender[k] = saved
				x.try("encrypting with it", func() { x.n.groupCipher(name).Encrypt([]byte("z")) })
				D.Sender[k] = saved
				x.try("creating with it", func() { x.n.groupBuilder().Create(name) })
				D.Sender[k] = saved
				x.try("processing over it", func() {
					s := refGen(r)
					d := &wSKD{Ver: 3, ID: uint32(r.N(3)), Iter: uint32(r.N(5)), Chain: r.Bytes(32), Signing: s.pub}
					if p, err := protocol.NewSenderKeyDistributionMessageFromBytes(d.encode(x.w.P.Cfg.Ser), x.ser.SenderKeyDistributionMessage); err == nil {
						x.n.groupBuilder().Process(name, p)
						x.n.groupCipher(name).Encrypt([]byte("z"))
					}
				})
			}
		}
		if r.P(50) { // a single state
			x.what = "sender key state"
			s, err := x.ser.SenderKeyRecord.Deserialize(x.orig.image().Sender[k])
			if err == nil && len(s.SenderKeyStates) > 0 {
				one := s.SenderKeyStates[r.N(len(s.SenderKeyStates))]
				st := x.damage(x.ser.SenderKeyState.Serialize(one), func() interface{} { return &grecord.SenderKeyStateStructure{} })
				x.try("loading", func() {
					if s, err := grecord.NewSenderKeyStateFromBytes(st, x.ser.SenderKeyState); err == nil {
						x.probe(s)
						s.Serialize()
					}
				})
			}
		}
	case 4:
		var ids []int
		for id := range D.PreKeys {
			ids = append(ids, int(id))
		}
		sort.Ints(ids)
		if len(ids) == 0 {
			return
		}
		id := uint32(ids[r.N(len(ids))])
		x.what = "prekey record"
		D.PreKeys[id] = x.damage(D.PreKeys[id], func() interface{} { return &record.PreKeyStructure{} })
		x.try("loading", func() {
			if s, err := record.NewPreKeyFromBytes(append([]byte(nil), D.PreKeys[id]...), x.ser.PreKeyRecord); err == nil {
				x.w.R.Count("damaged records that load", 1)
				x.probe(s)
			}
		})
		x.opening(&id, x.n.curSPK)
	case 5:
		id := x.n.curSPK
		if D.Signed[id] == nil {
			return
		}
		x.what = "signed prekey record"
		D.Signed[id] = x.damage(D.Signed[id], func() interface{} { return &record.SignedPreKeyStructure{} })
		x.try("loading", func() {
			if s, err := record.NewSignedPreKeyFromBytes(append([]byte(nil), D.Signed[id]...), x.ser.SignedPreKeyRecord); err == nil {
				x.w.R.Count("damaged records that load", 1)
				x.probe(s)
			}
		})
		x.opening(nil, id)
	}
}

// opening presents an opening made by an honest initiator that names the given prekeys.
func (x *hostile) opening(otpk *uint32, spk uint32) {
	s := x.dishonest(otpk, spk)
	if s == nil {
		return
	}
	w := s.encrypt([]byte("hello"))
	x.feed(newSerializer("proto"), "prekey", s.open(w).encode("proto"))
}

func (x *hostile) bundleOf(n *Node) *prekey.Bundle {
	spk, err := ecc.DecodePoint(n.spkPub[n.curSPK], 0)
	if err != nil {
		return nil
	}
	st := n.loadSigned(n.curSPK)
	if st == nil {
		return nil
	}
	pub, _ := ecc.DecodePoint(n.D.IdentPub, 0)
	return prekey.NewBundle(n.D.Reg, n.Dev, nil, n.curSPK, nil, spk, st.Signature(), identity.NewKey(pub))
}

// ---------------------------------------------------------------- a peer that does not follow the protocol

// dishonest opens a session with the clone the way the protocol prescribes.
func (x *hostile) dishonest(otpk *uint32, spk uint32) *refSess {
	r, n := x.r, x.n
	self := refGen(r)
	b := &refBundle{ident: n.D.IdentPub, spk: n.spkPub[spk], spkID: spk, reg: n.D.Reg}
	idpriv := refKey{n.D.Ident, n.D.IdentPub}
	b.sig = refSign(idpriv, b.spk, r.Bytes(64))
	if otpk != nil {
		b.otpkID, b.otpk = *otpk, n.otpkPub[*otpk]
	}
	s, err := refInitiate(r, self, uint32(1+r.N(16000)), b)
	if err != nil {
		return nil
	}
	return s
}

func (x *hostile) badCiphertext(k refMsgKeys) []byte {
	r := x.r
	switch r.N(8) {
	case 0:
		return []byte{}
	case 1:
		return r.Bytes(1 + r.N(15))
	case 2:
		return r.Bytes(17 + r.N(60))
	case 3:
		return r.Bytes(16 * (1 + r.N(4)))
	case 4: // padding byte too large, zero, or inconsistent
		b := r.Bytes(16 * (1 + r.N(3)))
		b[len(b)-1] = []byte{0, 17, 32, 0xFF, 16, 2}[r.N(6)]
		return refCBCraw(k.cipher, k.iv, b)
	case 5:
		return refCBCraw(k.cipher, k.iv, bytes.Repeat([]byte{16}, 16))
	case 6:
		return nil
	}
	return refCBC(k.cipher, k.iv, r.Bytes(r.N(60)))
}

func (x *hostile) inner() {
	r, n := x.r, x.n
	var otpk *uint32
	if r.P(40) {
		if len(n.published) > 0 {
			id := n.published[r.N(len(n.published))]
			if n.D.PreKeys[id] != nil {
				otpk = &id
			}
		} else {
			id := uint32(lastResort)
			otpk = &id
		}
	}
	s := x.dishonest(otpk, n.curSPK)
	if s == nil {
		return
	}
	ser := newSerializer("proto")
	addr := protocol.NewSignalAddress("mallory", 1)
	present := func(w *wSig, pre *wPre, what string) {
		x.what = "message a peer made and authenticated, " + what
		b := w.encode("proto")
		if pre != nil {
			b = pre.encode("proto")
		}
		x.try("decrypting", func() {
			if pre != nil {
				if m, err := protocol.NewPreKeySignalMessageFromBytes(b, ser.PreKeySignalMessage, ser.SignalMessage); err == nil {
					x.probe(m)
					if _, err := n.cipher(addr, false).DecryptMessage(m); err == nil {
						x.w.R.Count("dishonest messages accepted", 1)
					}
				}
			} else if m, err := protocol.NewSignalMessageFromBytes(b, ser.SignalMessage); err == nil {
				x.probe(m)
				if _, err := n.cipher(addr, false).Decrypt(m); err == nil {
					x.w.R.Count("dishonest messages accepted", 1)
				}
			}
		})
	}
	for i := 2 + r.N(6); i > 0; i-- {
		c := s.clone()
		k := c.send.step()
		var w *wSig
		what := ""
		switch r.N(7) {
		case 0, 1:
			ct := x.badCiphertext(k)
			w, what = c.seal(k, ct), fmt.Sprintf("ciphertext of %d bytes", len(ct))
		case 2: // another ratchet key, its chain derived as prescribed if possible
			w, what = &wSig{Ver: 3, Ratchet: append([]byte{5}, lowOrder[r.N(len(lowOrder))]...), Ctr: weirdCtr(r, k.n), Prev: uint32(weirdUint(r, 0)), CT: refCBC(k.cipher, k.iv, []byte("low"))}, "low-order ratchet key"
			// all-zero agreement: the chain can be derived by anyone who knows the root key
			if _, ch := refRootStep(c.root, make([]byte, 32)); ch != nil {
				k = ch.step()
				w.Ctr = 0
				w.CT = refCBC(k.cipher, k.iv, []byte("low"))
			}
			w.Mac = c.mac(k, w, c.self.pub, c.peer)
		case 3:
			for j := r.N(2100); j > 0; j-- {
				k = c.send.step()
			}
			w, what = c.seal(k, refCBC(k.cipher, k.iv, r.Bytes(r.N(40)))), "a later counter"
			if r.P(50) {
				w.Ctr = weirdCtr(r, k.n)
				w.Mac = c.mac(k, w, c.self.pub, c.peer)
			}
		case 4:
			c.prev = uint32(weirdUint(r, 0))
			w, what = c.seal(k, refCBC(k.cipher, k.iv, nil)), "odd previous counter"
		case 5:
			w, what = c.seal(k, refCBC(k.cipher, k.iv, r.Bytes(r.N(40)))), "an odd opening"
			pre := c.open(w)
			switch r.N(5) {
			case 0:
				pre.Base = append([]byte{5}, lowOrder[r.N(len(lowOrder))]...)
			case 1:
				pre.Ident = append([]byte{5}, lowOrder[r.N(len(lowOrder))]...)
			case 2:
				pre.SPK = uint32(weirdUint(r, uint64(pre.SPK)))
			case 3:
				pre.HasOTPK, pre.OTPK = true, uint32(weirdUint(r, uint64(pre.OTPK)))
			case 4:
				pre.Ver = r.N(16)
			}
			present(w, pre, what)
			continue
		default:
			w, what = c.seal(k, refCBC(k.cipher, k.iv, r.Bytes(r.N(40)))), "well-formed"
			if r.P(50) {
				s = c
			}
		}
		if r.P(70) {
			present(w, s.open(w), what)
		} else {
			present(w, nil, what)
		}
		if r.P(30) {
			x.what = "after such messages"
			x.try("encrypting", func() { n.cipher(addr, false).Encrypt([]byte("answer")) })
		}
	}
}

func weirdCtr(r *RNG, v uint32) uint32 { return uint32(weirdUint(r, uint64(v))) }

func (x *hostile) group() {
	r, n := x.r, x.n
	s := &refSender{id: uint32(weirdUint(r, 7)), chain: r.Bytes(32), n: uint32(r.N(4)), signing: refGen(r), skipped: map[uint32][]byte{}}
	name := protocol.NewSenderKeyName("hostile group", protocol.NewSignalAddress("mallory", 2))
	ser := newSerializer("proto")
	for i := 2 + r.N(6); i > 0; i-- {
		switch r.N(4) {
		case 0:
			d := s.dist()
			x.what = "distribution message"
			switch r.N(5) {
			case 0:
				d.Chain = weirdBytes(r, d.Chain)
			case 1:
				d.Iter = weirdCtr(r, d.Iter)
			case 2:
				d.Signing = weirdBytes(r, d.Signing)
			}
			x.what = fmt.Sprintf("distribution message (chain key of %d bytes, iteration %d, signing key of %d bytes)", len(d.Chain), d.Iter, len(d.Signing))
			if d.Chain == nil {
				d.Chain = []byte{}
			}
			if d.Signing == nil {
				d.Signing = []byte{}
			}
			x.try("processing", func() {
				if m, err := protocol.NewSenderKeyDistributionMessageFromBytes(d.encode("proto"), ser.SenderKeyDistributionMessage); err == nil {
					x.useDist(m, name)
				}
			})
		default:
			it := s.n
			k := s.step()
			mk := refMsgKeys{cipher: k[16:], iv: k[:16]}
			ct := x.badCiphertext(mk)
			if r.P(30) {
				it = weirdCtr(r, it)
			}
			if ct == nil {
				ct = []byte{}
			}
			w := s.seal(r, it, ct)
			if r.P(20) {
				w.Ver = uint32(r.N(16))
				w.Sig = refSign(s.signing, w.signedPart(), r.Bytes(64))
			}
			x.what = fmt.Sprintf("signed group message with a ciphertext of %d bytes, iteration %d", len(ct), it)
			x.try("decrypting", func() {
				if m, err := protocol.NewSenderKeyMessageFromBytes(w.encode("proto"), ser.SenderKeyMessage); err == nil {
					x.probe(m)
					if _, err := n.groupCipher(name).Decrypt(m); err == nil {
						x.w.R.Count("dishonest messages accepted", 1)
					}
				}
			})
		}
	}
}

func (x *hostile) bundle() {
	r, n := x.r, x.n
	id := refGen(r)
	spk := refGen(r).pub
	sign := func(m []byte) (out [64]byte) { copy(out[:], refSign(id, m, r.Bytes(64))); return }
	raw := spk[1:]
	if r.P(40) {
		raw = lowOrder[r.N(len(lowOrder))]
	}
	var k [32]byte
	copy(k[:], raw)
	point := func(b []byte) ecc.ECPublicKeyable {
		var k [32]byte
		copy(k[:], b)
		return ecc.NewDjbECPublicKey(k)
	}
	var spkP ecc.ECPublicKeyable = ecc.NewDjbECPublicKey(k)
	sig := sign(spkP.Serialize())
	idKey := identity.NewKey(point(id.pub[1:]))
	var otpk ecc.ECPublicKeyable
	var otpkID *optional.Uint32
	switch r.N(5) {
	case 0:
		otpk, otpkID = point(lowOrder[r.N(len(lowOrder))]), optional.NewOptionalUint32(uint32(r.U64()))
	case 1:
		otpk = point(r.Bytes(32)) // a key without an id
	case 2:
		otpkID = optional.NewOptionalUint32(5) // an id without a key
	case 3:
		otpk, otpkID = point(r.Bytes(32)), optional.NewEmptyUint32()
	}
	switch r.N(6) {
	case 0:
		idKey = identity.NewKey(point(lowOrder[r.N(len(lowOrder))]))
		copy(sig[:], r.Bytes(64))
	case 1:
		sig = [64]byte{}
	case 2:
		spkP = nil
	}
	addr := protocol.NewSignalAddress("mallory", uint32(r.N(2)))
	if r.P(40) {
		addr = x.peerAddr()
		delete(n.D.Pins, keyOf(addr))
	}
	x.what = "malicious bundle"
	x.try("processing", func() {
		if n.builder(addr).ProcessBundle(prekey.NewBundle(uint32(r.U64()), uint32(r.U64()), otpkID, uint32(r.U64()), otpk, spkP, sig, idKey)) == nil {
			x.w.R.Count("malicious bundles accepted", 1)
			if m, err := n.cipher(addr, false).Encrypt([]byte("hello")); err == nil {
				b := m.Serialize()
				if p, err := protocol.NewPreKeySignalMessageFromBytes(b, x.ser.PreKeySignalMessage, x.ser.SignalMessage); err == nil {
					x.probe(p)
				}
			}
		}
	})
}

// wrongState makes calls for which the device lacks a session, a key or a builder.
func (x *hostile) wrongState() {
	r, n := x.r, x.n
	x.what = "call in the wrong state"
	kind, b := x.sample()
	switch r.N(9) {
	case 0:
		n.D.Sessions = map[string][]byte{}
	case 1:
		n.D.Sender = map[string][]byte{}
	case 2:
		n.D.PreKeys = map[uint32][]byte{}
	case 3:
		n.D.Signed = map[uint32][]byte{}
	case 4:
		n.D.Sender, n.D.PreKeys = map[string][]byte{}, map[uint32][]byte{}
	}
	addr := x.peerAddr()
	x.feed(x.ser, kind, b)
	x.try("encrypting", func() { n.cipher(addr, r.P(50)).Encrypt(nil) })
	name := x.skName()
	x.try("group encrypting", func() { n.groupCipher(name).Encrypt(r.Bytes(3)) })
	x.try("group creating", func() { n.groupBuilder().Create(name) })
	x.try("group encrypting", func() { n.groupCipher(name).Encrypt(nil) })
	x.try("opening without a builder", func() {
		if m, err := protocol.NewPreKeySignalMessageFromBytes(b, x.ser.PreKeySignalMessage, x.ser.SignalMessage); err == nil {
			n.cipher(addr, true).DecryptMessage(m)
		}
	})
	x.try("decrypting with a saved key of the wrong kind", func() {
		if m, err := protocol.NewSignalMessageFromBytes(b, x.ser.SignalMessage); err == nil {
			n.cipher(addr, false).DecryptWithKey(m, message.NewKeys(weirdBytes(r, r.Bytes(32)), r.Bytes(32), weirdBytes(r, r.Bytes(16)), 3))
		}
	})
}

func (x *hostile) primitive() {
	r := x.r
	x.what = "primitive"
	for i := 3; i > 0; i-- {
		switch r.N(8) {
		case 0:
			b := weirdBytes(r, refGen(r).pub)
			off := r.N(3)
			x.try(fmt.Sprintf("DecodePoint of %d bytes at %d", len(b), off), func() {
				if p, err := ecc.DecodePoint(b, off); err == nil {
					p.Serialize()
				}
			})
		case 1:
			k := refGen(r)
			pub := k.pub
			if r.P(50) {
				pub = append([]byte{5}, lowOrder[r.N(len(lowOrder))]...)
			}
			var sig [64]byte
			copy(sig[:], weirdBytes(r, refSign(k, pub, r.Bytes(64))))
			msg := weirdBytes(r, pub)
			x.try("VerifySignature", func() {
				if p, err := ecc.DecodePoint(pub, 0); err == nil {
					ecc.VerifySignature(p, msg, sig)
				}
			})
		case 2:
			iv, key, ct := weirdBytes(r, r.Bytes(16)), weirdBytes(r, r.Bytes(32)), weirdBytes(r, r.Bytes(16*r.N(5)))
			x.try(fmt.Sprintf("DecryptCbc with iv %d, key %d, input %d", len(iv), len(key), len(ct)), func() { cipher.DecryptCbc(iv, key, ct) })
		case 3:
			iv, key, ct := r.Bytes(16), r.Bytes(32), weirdBytes(r, r.Bytes(r.N(60))) // its key and IV never come from outside
			x.try(fmt.Sprintf("EncryptCbc with iv %d, key %d, input %d", len(iv), len(key), len(ct)), func() { cipher.EncryptCbc(iv, key, ct) })
		case 4:
			p, q := weirdBytes(r, r.Bytes(40)), string(weirdBytes(r, r.Bytes(80)))
			if r.P(50) {
				q = envJSON(weirdBytes(r, refGen(r).pub), weirdBytes(r, r.Bytes(97)))
			}
			x.try("provision.Decrypt", func() { provision.Decrypt(string(p), q) })
		case 5:
			var a, b [32]byte
			copy(a[:], lowOrder[r.N(len(lowOrder))])
			copy(b[:], r.Bytes(32))
			x.try("CalculateSharedSecret", func() { kdf.CalculateSharedSecret(a, b) })
		case 6:
			m := r.Bytes(r.N(50))
			x.try("DeriveSecrets", func() { kdf.DeriveSecrets(m, nil, m, []int{0, 1, 32, 80, 8160, 8161, 9000}[r.N(7)]) })
		case 7:
			a, b := r.Bytes(30+r.N(10)), r.Bytes(30+r.N(10))
			x.try("fingerprint", func() { fingerprint.NewFingerprint(fingerprint.NewDisplay(a, b)).Display() })
		}
	}
}

// hostileGen adds hostile input to plans.
func hostileGen(g genF, percent int) genF {
	return func(seed uint64) *Plan {
		p := g(seed)
		r := NewRNG(hash64("hostile gen", seed))
		id := 0
		for _, o := range p.Ops {
			id = max(id, o.ID)
		}
		var ops []Op
		for _, o := range p.Ops {
			ops = append(ops, o)
			for r.P(percent) {
				id++
				ops = append(ops, Op{ID: id, At: o.At + int64(r.N(400)), Kind: "hostile", A: r.N(p.Cfg.Nodes), S: hostileKinds[r.N(len(hostileKinds))]})
			}
		}
		p.Ops = ops
		return p
	}
}

func (w *World) groupIDs() []string {
	var out []string
	seen := map[int]bool{}
	for _, m := range w.g.order {
		if !seen[m.grp] {
			seen[m.grp] = true
			out = append(out, groupName(m.grp))
		}
	}
	return out
}

// sample is a group or distribution message sent so far.
func (g *groupWorld) sample(r *RNG) (string, []byte) {
	if len(g.order) == 0 {
		return "", nil
	}
	m := g.order[len(g.order)-1-min(r.N(len(g.order)), r.N(len(g.order)))]
	if m.dist {
		return "dist", m.wire
	}
	return "group", m.wire
}

// wires are the last messages of a sender to a group.
func (g *groupWorld) wires(id string, from, n int) [][]byte {
	var out [][]byte
	for _, m := range g.order {
		if !m.dist && m.from == from && groupName(m.grp) == id {
			out = append(out, m.wire)
		}
	}
	if len(out) > n {
		out = out[len(out)-n:]
	}
	return out
}
