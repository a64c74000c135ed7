package sim

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"log"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	grecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/logger"
	"github.com/prospik/libsignal-protocol-go/state/record"
)

// Logging: the same plan is executed with the default logger (whose output is captured), with the
// default logger restricted to some files, and with a logger of the application. All of them have
// to behave alike, and nothing the default logger prints, nor any warning or error given to the
// application's logger, may contain a secret.

// ---------------------------------------------------------------- what is secret

type secretSet struct {
	win    map[uint64]string
	chains [][]byte // chain keys of sessions
	gchain [][]byte
	seen   map[string]bool
}

func newSecretSet() *secretSet {
	return &secretSet{win: map[uint64]string{}, seen: map[string]bool{}}
}

// telling says whether eight bytes are unlikely to occur by chance.
func telling(b []byte) bool {
	high := 0
	var set [256]bool
	distinct := 0
	for _, c := range b {
		if c >= 0x80 {
			high++
		}
		if !set[c] {
			set[c] = true
			distinct++
		}
	}
	return high >= 2 && distinct >= 6
}

func (s *secretSet) add(what string, b []byte) {
	for i := 0; i+8 <= len(b); i++ {
		if w := b[i : i+8]; telling(w) {
			k := binary.LittleEndian.Uint64(w)
			if _, ok := s.win[k]; !ok {
				s.win[k] = what
			}
		}
	}
}

// record adds what is private in a stored record.
func (s *secretSet) record(b []byte) {
	if s.seen[string(b)] {
		return
	}
	s.seen[string(b)] = true
	var v interface{}
	if json.Unmarshal(b, &v) == nil {
		s.walk("", v)
	}
}

func (s *secretSet) walk(key string, v interface{}) {
	switch x := v.(type) {
	case map[string]interface{}:
		for _, k := range sortedKeys(x) {
			s.walk(k, x[k])
		}
	case []interface{}:
		for _, e := range x {
			s.walk(key, e)
		}
	case string:
		if strings.Contains(key, "Public") || strings.Contains(key, "BaseKey") || key == "Signature" {
			return
		}
		b, err := base64.StdEncoding.DecodeString(x)
		if err != nil || len(b) < 16 {
			return
		}
		id := "c" + string(b)
		if s.seen[id] {
			return
		}
		s.seen[id] = true
		s.add(key+" of a record", b)
		if len(b) == 32 {
			switch key {
			case "Key":
				c := &refChain{key: b}
				for i := 0; i < 4; i++ {
					s.add("chain key", c.key)
					k := c.step()
					s.add("message key", k.cipher)
					s.add("MAC key", k.mac)
				}
			case "ChainKey":
				c := b
				for i := 0; i < 4; i++ {
					s.add("group chain key", c)
					seed := refHMAC(c, []byte{1})
					s.add("group message seed", seed)
					s.add("group message key", refHKDF(seed, nil, "WhisperGroup", 48))
					c = refHMAC(c, []byte{2})
				}
			}
		}
	}
}

func (s *secretSet) node(n *Node) {
	d := n.D
	if n.W.P.Cfg.Store == "live" {
		d = n.image()
	}
	s.add("identity key", d.Ident)
	for _, k := range sortedKeys(d.Sessions) {
		s.record(d.Sessions[k])
	}
	for _, k := range sortedKeys(d.Sender) {
		s.record(d.Sender[k])
	}
	for _, m := range []map[uint32][]byte{d.PreKeys, d.Signed} {
		for _, b := range m {
			s.record(b)
		}
	}
}

var (
	reHex  = regexp.MustCompile(`[0-9a-fA-F]{16,}`)
	reHexS = regexp.MustCompile(`[0-9a-fA-F]{2}(?:[ :,-][0-9a-fA-F]{2}){7,}`)
	reB64  = regexp.MustCompile(`[A-Za-z0-9+/_-]{11,}`)
	reNums = regexp.MustCompile(`(?:0x[0-9a-f]{1,2}|[0-9]{1,3})(?:[ ,]+(?:0x[0-9a-f]{1,2}|[0-9]{1,3})){7,}`)
)

// find looks for secrets in a text, as they are or in one of the usual notations.
func (s *secretSet) find(text string) string {
	hit := func(b []byte) string {
		for i := 0; i+8 <= len(b); i++ {
			if w, ok := s.win[binary.LittleEndian.Uint64(b[i:])]; ok {
				return w
			}
		}
		return ""
	}
	if h := hit([]byte(text)); h != "" {
		return h
	}
	for _, m := range reNums.FindAllString(text, -1) {
		var b []byte
		for _, f := range strings.FieldsFunc(m, func(r rune) bool { return r == ' ' || r == ',' }) {
			v, err := strconv.ParseUint(f, 0, 16)
			if err != nil || v > 255 {
				v = 0
			}
			b = append(b, byte(v))
		}
		if h := hit(b); h != "" {
			return h
		}
	}
	for _, m := range append(reHex.FindAllString(text, -1), reHexS.FindAllString(text, -1)...) {
		m = strings.NewReplacer(" ", "", ":", "", ",", "", "-", "").Replace(m)
		for o := 0; o < 2; o++ {
			q := m[o:]
			if b, err := hex.DecodeString(q[:len(q)&^1]); err == nil {
				if h := hit(b); h != "" {
					return h
				}
			}
		}
	}
	for _, m := range reB64.FindAllString(text, -1) {
		m = strings.NewReplacer("-", "+", "_", "/").Replace(m)
		for o := 0; o < 4 && o < len(m); o++ {
			q := m[o:]
			if len(q)%4 == 1 {
				q = q[:len(q)-1]
			}
			if b, err := base64.RawStdEncoding.DecodeString(q); err == nil {
				if h := hit(b); h != "" {
					return h
				}
			}
		}
	}
	if q, err := strconv.Unquote(`"` + text + `"`); err == nil && q != text { // %q
		if h := hit([]byte(q)); h != "" {
			return h
		}
	}
	return ""
}

// ---------------------------------------------------------------- capturing

// entries keeps what is written, one entry per call.
type entries struct{ all []string }

func (e *entries) Write(b []byte) (int, error) {
	e.all = append(e.all, string(b))
	return len(b), nil
}

type logLine struct{ level, caller, msg string }

type capture struct {
	lines []logLine
}

func (c *capture) Debug(l, m string)   { c.lines = append(c.lines, logLine{"DEBUG", l, m}) }
func (c *capture) Info(l, m string)    { c.lines = append(c.lines, logLine{"INFO", l, m}) }
func (c *capture) Warning(l, m string) { c.lines = append(c.lines, logLine{"WARNING", l, m}) }
func (c *capture) Error(l, m string)   { c.lines = append(c.lines, logLine{"ERROR", l, m}) }
func (c *capture) Configure(s string)  {}

var reCaller = regexp.MustCompile(`^[A-Za-z0-9_]+\.go:[0-9]+$`)

// damagedLoads reads a stored record back from a disk that damaged it.
func damagedLoads(w *World, r *RNG) {
	n := w.nodes[r.N(len(w.nodes))]
	d := n.D
	if w.P.Cfg.Store == "live" {
		d = n.image()
	}
	type item struct {
		what string
		b    []byte
		load func(b []byte) error
	}
	var all []item
	for _, k := range sortedKeys(d.Sessions) {
		all = append(all, item{"session", d.Sessions[k], func(b []byte) error {
			_, err := record.NewSessionFromBytes(b, n.Ser.Session, n.Ser.State)
			return err
		}})
	}
	for _, k := range sortedKeys(d.Sender) {
		all = append(all, item{"sender key", d.Sender[k], func(b []byte) error {
			_, err := grecord.NewSenderKeyFromBytes(b, n.Ser.SenderKeyRecord, n.Ser.SenderKeyState)
			return err
		}})
	}
	for _, k := range sortedU32(d.PreKeys) {
		all = append(all, item{"prekey", d.PreKeys[k], func(b []byte) error {
			_, err := record.NewPreKeyFromBytes(b, n.Ser.PreKeyRecord)
			return err
		}})
		break
	}
	for _, k := range sortedU32(d.Signed) {
		all = append(all, item{"signed prekey", d.Signed[k], func(b []byte) error {
			_, err := record.NewSignedPreKeyFromBytes(b, n.Ser.SignedPreKeyRecord)
			return err
		}})
	}
	if len(all) == 0 {
		return
	}
	x := all[r.N(len(all))]
	var b []byte
	switch r.N(6) {
	case 0: // torn
		b = append(b, x.b[:r.N(len(x.b)+1)]...)
	case 1: // overwritten from some place on
		k := r.N(len(x.b) + 1)
		b = append(append(b, x.b[:k]...), r.Bytes(len(x.b)-k)...)
	case 2: // another record in its place
		b = append(b, all[r.N(len(all))].b...)
	case 3, 4: // values of another kind
		b = jsonMutate(r, append(b, x.b...))
	default:
		b = mangle(r, append(b, x.b...))
	}
	out := n.call(0, nil, nil, func() error { return x.load(b) }) // panics are the matter of C05
	w.R.Count("fault:damaged "+x.what+" record", 1)
	w.R.Event("damaged %s record: %s", x.what, out)
}

func runLogs(r *Run) {
	defer func() {
		log.SetOutput(os.Stderr)
		log.SetFlags(log.LstdFlags)
		installLogger()
		r.Ent.tap = nil
	}()
	log.SetFlags(0)
	var first, wanted []string
	loud := 0
	for i, mode := range []string{"default", "restricted", "custom"} {
		p := r.P.Clone()
		sub := &Run{P: p, Ent: r.Ent, Keep: true, tags: map[string]bool{"secretlog": true}, Res: &Result{Seed: p.Seed, Counts: map[string]int64{}}}
		w := newWorld(sub)
		printed := &entries{}
		mine := &capture{}
		log.SetOutput(printed)
		logger.Logger = nil
		only := ""
		switch mode {
		case "default":
			if NewRNG(p.Seed).P(30) {
				logger.Configure("all")
			}
		case "restricted":
			only = NewRNG(p.Seed^1).Str("cipher.go", "session.go", "signal_message.go", "proto.go,json.go", "nothing", "cipher.go:2,session.go")
			logger.Configure(only)
		case "custom":
			var l logger.Loggable = mine
			logger.Setup(&l)
		}
		s := newSecretSet()
		r.Ent.tap = func(b []byte) { s.add("private random value", b) }
		for id := range p.Ops { // the plaintexts of all messages
			o := p.Ops[id]
			s.add("plaintext", plaintext(p.Seed, o.ID, o.Pt))
		}
		collect := func() {
			for _, n := range w.nodes {
				s.node(n)
			}
		}
		var lines []string
		check := func() {
			collect()
			var texts []string
			if mode == "custom" && len(printed.all) > 0 {
				sub.Fail("secretlog", "%q is printed although the application installed a logger", printed.all[0])
			}
			for _, t := range printed.all {
				texts = append(texts, t)
				f := append(strings.Fields(t), "", "", "")
				lines = append(lines, strings.Trim(f[0], "[]")+" "+f[2])
				if only != "" && !mentions(t, only) {
					sub.Fail("secretlog", "the default logger prints %q although it is restricted to %s", t, only)
				}
			}
			printed.all = nil
			for _, l := range mine.lines {
				if !reCaller.MatchString(l.caller) {
					sub.Fail("secretlog", "a message is logged as coming from %q", l.caller)
				}
				if l.level == "WARNING" || l.level == "ERROR" {
					lines = append(lines, l.level+" "+l.caller)
					texts = append(texts, l.msg)
				}
				r.Count("logged: "+l.level, 1)
			}
			mine.lines = nil
			for _, t := range texts {
				loud++
				if what := s.find(t); what != "" {
					sub.Fail("secretlog", "with the %s logger, a line of the log shows a %s: %.200q", mode, what, t)
				}
			}
			r.Count("log lines searched: "+mode, int64(len(texts)))
		}
		w.setupNodes()
		check()
		steps := 0
		w.after = func() {
			if steps++; steps%3 == 0 {
				damagedLoads(w, NewRNG(hash64("damaged", p.Seed, steps)))
			}
			check()
		}
		for k := range p.Ops {
			o := &p.Ops[k]
			w.at(o.At, o.ID, -1, func() { w.exec(o) })
		}
		w.loop()
		w.finish()
		check()
		r.Ent.tap = nil
		r.Step += sub.Step
		r.Now = max(r.Now, sub.Now)
		for k, v := range sub.Res.Counts {
			r.Count(k, v)
		}
		for _, v := range sub.Res.Violations {
			r.Step, r.Now = v.Step, v.Time
			r.Fail(v.Tag, "%s", v.Msg)
		}
		if len(r.Res.Violations) > 0 {
			for _, l := range sub.Res.Log {
				r.Event("%s", l)
			}
			return
		}
		for _, l := range wanted {
			if only != "" && !mentions(l, only) {
				continue
			}
			if len(lines) == 0 || lines[0] != l {
				r.Fail("secretlog", "the %s logger %q gets %q where the default logger prints %q", mode, only, append(lines, "nothing")[0], l)
				return
			}
			lines = lines[1:]
		}
		if i == 0 {
			wanted = lines
		} else if len(lines) > 0 {
			r.Fail("secretlog", "the %s logger %q gets %q, which the default logger does not print", mode, only, lines[0])
			return
		}
		if i == 0 {
			first = sub.Res.Log
			for _, l := range first {
				r.Event("%s", l)
			}
			continue
		}
		for k := 0; k < len(first) || k < len(sub.Res.Log); k++ {
			x, y := "(nothing)", "(nothing)"
			if k < len(first) {
				x = first[k]
			}
			if k < len(sub.Res.Log) {
				y = sub.Res.Log[k]
			}
			if x != y {
				r.Fail("secretlog", "the library behaves differently with the %s logger: %q, with the default one %q", mode, y, x)
				return
			}
		}
	}
	r.Count("runs compared across loggers", 1)
	r.Res.Nontrivial += loud
	r.Event("%d lines", loud)
}

func mentions(line, names string) bool {
	for _, n := range strings.Split(names, ",") {
		if strings.Contains(line, n) {
			return true
		}
	}
	return false
}

func logsGen(g genF) genF {
	return func(s uint64) *Plan {
		p := g(s)
		p.Scenario = "logs"
		return p
	}
}

func init() {
	scenarios["logs"] = runLogs
	forge := with(baseChat, func(p *prof) {
		p.ops, p.nodes = [2]int{20, 60}, [2]int{2, 3}
		p.tamper, p.tampers, p.replay, p.wInit = 30, sigTampers, 200, 40
		p.attack, p.attacks = 20, bundleAttacks
		p.entI, p.entR, p.crashR, p.crashS = 10, 5, 10, 10
		p.wPinother, p.wNosess, p.wReset = 10, 10, 10
	})
	d := mix("C30", 700, 9000, []string{"secretlog"},
		logsGen(pairs("C30", forge)),
		logsGen(pairs("C30", with(*forge, func(p *prof) { p.save, p.wOldkey, p.late = true, 60, 40; p.wDel, p.wWipe = 20, 5 }))),
		logsGen(grp("C30", gwith(baseGroup, func(p *gprof) {
			p.ops, p.tamper, p.tampers, p.wReplay, p.wForeign = [2]int{20, 60}, 35, groupTampers, 100, 30
			p.entC, p.crashC, p.crashR, p.wDel = 15, 15, 10, 20
		}))),
	)
	d.real = "the whole library including the default logger"
	d.stubs = "network, stores, entropy, standard log output (captured)"
}

func sortedU32(m map[uint32][]byte) []uint32 {
	var out []uint32
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}
