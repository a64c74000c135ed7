package sim

import "fmt"

// Generation of plans: everything is drawn from one seed.

type prof struct {
	nodes       [2]int
	ops         [2]int
	loss        int // percent of deliveries lost
	dup         int
	late        int // percent of deliveries that are much delayed
	part        int // percent of runs with partitions
	tamper      int // percent of messages that get an additional manipulated delivery
	tampers     []string
	replay      int // weight of late redeliveries of old messages
	crashS      int // percent of sends that crash
	crashR      int // percent of deliveries that crash (and are repeated)
	crashI      int
	entS, entR  int
	entI        int
	again       int // percent: the same object handed in again later
	wInit       int // weights of other operations per 1000 bursts
	wRestart    int
	wResave     int
	wRot        int
	wDrop       int
	wAddpk      int
	wDel        int
	wWipe       int
	wSnapRoll   int
	wApprove    int
	wUnpin      int
	wPinother   int
	wReset      int
	wSeize      int
	wTheft      int
	wOldkey     int
	wLong       int // many messages in a row on one chain
	wReuse      int // prekey ids used again for other keys
	share       int // percent of runs in which devices share identity keys
	wWarp       int // chains moved forward by very many messages
	wNosess     int // sends without a session
	attack      int // percent of initiations with an attacked bundle
	attacks     []string
	kinds       []string
	final       int // rounds of faultless ping-pong at the end
	reinit      bool
	ser         string
	store       string
	save        bool
	alias       bool
	reload      bool
	entcheck    bool
	burst       int
	big         int // percent of messages with a large plaintext
	single      bool
	cipherOnly  int
	noSimult    bool
	concentrate bool
	lonely      int
}

var bundleAttacks = []string{"sigflip", "sigzero", "sigother", "spkswap", "idswap", "spktype", "nospk", "wrongid"}

var sigTampers = []string{"bytes", "ctr", "prev", "ct", "ctcut", "mac", "macshort", "ratchet", "ratchettop", "ver", "splice", "unknown",
	"base", "basetop", "ident", "identpin", "otpk", "nootpk", "reg", "spk", "rewrap", "graft", "reflect", "misroute", "misattr", "garbage", "author", "author"}

func sizeOf(r *RNG, big int) int {
	if r.P(big) {
		if r.P(12) { // beyond 16-bit lengths
			return r.Range(65400, 140000)
		}
		return r.Range(200, 5000)
	}
	switch r.N(10) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 16 * r.Range(1, 4)
	case 3:
		return 16*r.Range(1, 4) - 1
	case 4:
		return 16*r.Range(1, 4) + 1
	}
	return r.Range(12, 80)
}

var oddNames = []string{"alice", "bob", "+49 151 123", "alice", "a:1", "a", "", "ünï-cødé", "bob::1"}

func genCfg(r *RNG, p *prof) Cfg {
	c := Cfg{Nodes: r.Range(p.nodes[0], p.nodes[1]), Ser: r.Str("proto", "proto", "json"), Store: "bytes", Cached: r.P(40), OTPKs: r.Range(2, 6)}
	if p.ser != "" {
		c.Ser = p.ser
	}
	if p.store != "" {
		c.Store = p.store
	}
	c.SaveKeys, c.Alias, c.Reload, c.EntCheck = p.save, p.alias, p.reload, p.entcheck
	if p.share > 0 && r.P(p.share) {
		c.Share = 1 + r.N(2)
	}
	c.Mix = p.ser == "" && r.P(20)
	if r.P(40) {
		used := map[string]bool{}
		for i := 0; i < c.Nodes; i++ {
			for {
				n, d := oddNames[r.N(len(oddNames))], uint32(r.Pick(3, 3, 1, 1, 1))
				if d == 4 {
					d = 0xFFFFFFFF
				}
				if !used[addrKey(n, d)] {
					used[addrKey(n, d)] = true
					c.Names = append(c.Names, n)
					c.Devs = append(c.Devs, d)
					break
				}
			}
		}
	}
	return c
}

type window struct{ from, to int64 }

// builder of plans
type pb struct {
	r     *RNG
	p     *Plan
	f     *prof
	t     int64
	id    int
	parts map[[2]int][]window
	sends []int
}

func (b *pb) add(o Op) *Op {
	b.id++
	o.ID = b.id
	o.At = b.t
	b.p.Ops = append(b.p.Ops, o)
	return &b.p.Ops[len(b.p.Ops)-1]
}

// long adds many messages in a row, only some of which arrive, with restarts, and maybe a crash, in between.
func (b *pb) long(o Op, crash int, to []int) {
	r := b.r
	for parts := 1 + r.N(3); parts > 0; parts-- {
		o.N, o.M, o.Pt, o.Dl, o.Crash = r.Range(40, 320), 0, r.N(20), nil, nil
		if r.P(crash) {
			o.M, o.Crash = r.N(o.N), b.crash(3)
		}
		for k := 1 + r.N(5); k > 0; k-- {
			q := r.N(o.N)
			if k == 1 {
				q = o.N - 1
			}
			o.Dl = append(o.Dl, Dl{Delay: int64(1 + r.N(40)), To: to[r.N(len(to))], Q: int64(q)})
		}
		b.add(o)
		b.t += int64(r.N(60))
		if r.P(40) {
			b.add(Op{Kind: "restart", A: o.A, B: o.B})
		}
	}
}

func (b *pb) crash(n int) *Crash {
	return &Crash{At: b.r.N(n), After: b.r.P(50)}
}

func (b *pb) ent() *EntFault {
	r := b.r
	f := &EntFault{At: r.N(3), Kind: r.Str("error", "partial", "short"), Bytes: r.N(33)}
	return f
}

// deliveries of one message from a to c.
func (b *pb) deliveries(a, c int, nodes int) []Dl {
	r, f := b.r, b.f
	var out []Dl
	delay := int64(5 + r.N(60))
	if r.P(f.late) {
		delay = int64(1000 + r.N(60000))
		if r.P(10) {
			delay *= 50
		}
	}
	for _, w := range b.parts[[2]int{min(a, c), max(a, c)}] {
		if b.t+delay >= w.from && b.t+delay < w.to {
			if r.P(40) {
				return nil // lost in the partition
			}
			delay = w.to - b.t + int64(r.N(50)) // held back until it heals
		}
	}
	if !r.P(f.loss) {
		d := Dl{Delay: delay}
		if r.P(f.crashR) {
			d.Crash = b.crash(11)
			out = append(out, d)
			d = Dl{Delay: delay + int64(50+r.N(3000))}
			if r.P(20) {
				d.Crash = b.crash(11)
				out = append(out, d)
				d = Dl{Delay: d.Delay + int64(50+r.N(3000))}
			}
		}
		if r.P(f.entR) {
			d.Ent = b.ent()
			out = append(out, d)
			d = Dl{Delay: d.Delay + int64(50+r.N(3000))}
		}
		out = append(out, d)
	}
	for r.P(f.dup) {
		out = append(out, Dl{Delay: delay + int64(r.N(5000))})
	}
	for n := 0; n < 3 && r.P(f.tamper); n++ {
		m := f.tampers[r.N(len(f.tampers))]
		d := Dl{Delay: max(1, delay+int64(r.N(400))-200), Mode: m, To: r.N(nodes), As: r.N(nodes), P: int64(r.N(1 << 20))}
		if r.P(40) {
			d.Delay = int64(1 + r.N(5000))
		}
		if r.P(f.crashR / 2) {
			d.Crash = b.crash(8)
		}
		out = append(out, d)
	}
	if r.P(f.again) {
		out = append(out, Dl{Delay: delay + int64(r.N(5000)), Mode: "again"})
	}
	return out
}

func (b *pb) send(a, c int) {
	r, f := b.r, b.f
	o := Op{Kind: "send", A: a, B: c, Pt: sizeOf(r, f.big), Dl: b.deliveries(a, c, b.p.Cfg.Nodes)}
	if r.P(f.crashS) {
		o.Crash = b.crash(5)
	}
	if r.P(f.entS) {
		o.Ent = b.ent()
	}
	if r.P(f.cipherOnly) {
		o.N = 1
	}
	b.add(o)
	b.sends = append(b.sends, b.id)
}

func (b *pb) init(a, c int) {
	r, f := b.r, b.f
	kinds := f.kinds
	if kinds == nil {
		kinds = []string{"otpk", "otpk", "none", "last"}
	}
	k := kinds[r.N(len(kinds))]
	if r.P(f.attack) {
		k += "+" + f.attacks[r.N(len(f.attacks))]
	}
	o := Op{Kind: "init", A: a, B: c, S: k, M: r.N(4), N: r.N(b.p.Cfg.Nodes)}
	if r.P(f.crashI) {
		o.Crash = b.crash(6)
	}
	if r.P(f.entI) {
		o.Ent = b.ent()
	}
	b.add(o)
	if o.Crash != nil || o.Ent != nil || (len(k) > 5) {
		b.t += int64(5 + r.N(100))
		b.add(Op{Kind: "init", A: a, B: c, S: "none", M: r.N(4)})
	}
}

func newPB(seed uint64, property string, f *prof) *pb {
	r := NewRNG(seed)
	b := &pb{r: r, f: f, p: &Plan{Property: property, Scenario: "world", Seed: seed}, parts: map[[2]int][]window{}}
	b.p.Cfg = genCfg(r, f)
	return b
}

func (b *pb) two() (int, int) {
	n := b.p.Cfg.Nodes
	if b.f.concentrate && b.r.P(75) {
		if b.r.P(50) {
			return 0, 1
		}
		return 1, 0
	}
	a := b.r.N(n)
	c := b.r.N(n - 1)
	if c >= a {
		c++
	}
	return a, c
}

// genPair makes a plan of pairwise conversations.
func genPair(seed uint64, property string, f *prof) *Plan {
	b := newPB(seed, property, f)
	r := b.r
	n := b.p.Cfg.Nodes
	nops := r.Range(f.ops[0], f.ops[1])
	if r.P(f.part) {
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				t := int64(0)
				for k := r.N(3); k > 0; k-- {
					t += int64(500 + r.N(20000))
					l := int64(200 + r.N(15000))
					b.parts[[2]int{i, j}] = append(b.parts[[2]int{i, j}], window{t, t + l})
					t += l
				}
			}
		}
	}
	if r.P(30) {
		b.p.Cfg.Ids = 1 + uint64(r.N(1<<30))
	}
	inited := map[[2]int]bool{}
	begin := func(a, c int) {
		b.init(a, c)
		inited[[2]int{a, c}] = true
		if !f.noSimult && r.P(20) { // both sides at once
			b.t += int64(r.N(30))
			b.init(c, a)
			inited[[2]int{c, a}] = true
		}
	}
	if f.wNosess > 0 && r.P(30) {
		a, c := b.two()
		b.send(a, c)
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if f.lonely > 0 && r.P(f.lonely) && !(i == 0 && j == 1) {
				continue
			}
			a, c := i, j
			if r.P(50) {
				a, c = c, a
			}
			begin(a, c)
			b.t += int64(r.N(20))
		}
	}
	weights := []int{1000, f.replay, f.wInit, f.wRestart, f.wResave, f.wRot, f.wDrop, f.wAddpk, f.wDel, f.wWipe, f.wSnapRoll, f.wApprove,
		f.wUnpin, f.wPinother, f.wReset, f.wSeize, f.wTheft, f.wOldkey, f.wLong, f.wWarp, f.wReuse}
	bl := f.burst
	if bl == 0 {
		bl = 4
	}
	for len(b.p.Ops) < nops {
		switch r.N(4) {
		case 0:
			b.t += int64(r.N(20))
		case 1, 2:
			b.t += int64(r.N(300))
		case 3:
			b.t += int64(r.N(3000))
		}
		a, c := b.two()
		switch r.Pick(weights...) {
		case 0:
			k := 1 + r.N(bl)
			if r.P(5) {
				k = 1 + r.N(bl*6)
			}
			for ; k > 0; k-- {
				b.send(a, c)
				b.t += int64(r.N(80))
			}
			if r.P(70) { // an answer, so that the ratchet turns
				b.t += int64(r.N(200))
				b.send(c, a)
			}
		case 1:
			if len(b.sends) > 0 {
				o := Op{Kind: "replay", A: a, B: c, N: b.sends[r.N(len(b.sends))]}
				k := 1 + r.N(3)
				for ; k > 0; k-- {
					d := Dl{Delay: int64(1 + r.N(3000))}
					if len(f.tampers) > 0 && r.P(40) {
						d.Mode, d.To, d.As, d.P = f.tampers[r.N(len(f.tampers))], r.N(n), r.N(n), int64(r.N(1<<20))
					}
					o.Dl = append(o.Dl, d)
				}
				b.add(o)
			}
		case 2:
			b.init(a, c)
			if r.P(20) {
				b.init(c, a)
			}
		case 3:
			b.add(Op{Kind: "restart", A: a, B: c})
		case 4:
			b.add(Op{Kind: "resave", A: a, B: c})
		case 5:
			b.add(Op{Kind: "rotspk", A: a, B: c})
		case 6:
			b.add(Op{Kind: "dropspk", A: a, B: c})
		case 7:
			b.add(Op{Kind: "addpk", A: a, B: c, N: r.N(3)})
		case 8:
			b.add(Op{Kind: "del", A: a, B: c})
			if r.P(70) {
				b.t += int64(r.N(500))
				if r.P(50) {
					b.init(a, c)
				} else {
					b.init(c, a)
				}
			}
		case 9:
			b.add(Op{Kind: "wipe", A: a, B: c})
		case 10:
			if r.P(50) {
				b.add(Op{Kind: "snap", A: a, B: c})
			} else {
				b.add(Op{Kind: "roll", A: a, B: c})
			}
		case 11:
			b.add(Op{Kind: "approve", A: a, B: c})
		case 12:
			b.add(Op{Kind: "unpin", A: a, B: c})
		case 13:
			b.add(Op{Kind: "pinother", A: a, B: c, N: r.N(n)})
		case 14:
			b.add(Op{Kind: "reset", A: a, B: c})
			if r.P(80) {
				b.t += int64(r.N(500))
				if r.P(40) {
					b.add(Op{Kind: "approve", A: c, B: a})
				}
				b.init(a, c)
				b.send(a, c)
				b.t += int64(r.N(500))
				if r.P(50) {
					b.add(Op{Kind: "approve", A: c, B: a})
					b.init(c, a)
					b.send(c, a)
				}
			}
		case 15:
			b.add(Op{Kind: "seize", A: a, B: c})
		case 16:
			b.add(Op{Kind: "theft", A: a, B: c})
		case 17:
			b.add(Op{Kind: "oldkey", A: a, B: c})
		case 18:
			b.long(Op{Kind: "burst", A: a, B: c}, f.crashS, []int{c})
		case 19:
			b.add(Op{Kind: "warp", A: a, B: c})
		case 20:
			if r.P(30) {
				b.add(Op{Kind: "respk", A: a, B: c})
			} else {
				b.add(Op{Kind: "reusepk", A: a, B: c, N: r.N(64)})
			}
		}
	}
	if f.final > 0 {
		b.finalPhase()
	}
	if f.wSeize > 0 {
		b.t += 5000
		for i := 0; i < n; i++ {
			b.add(Op{Kind: "seize", A: i, B: (i + 1) % n})
		}
	}
	if f.wOldkey > 0 {
		b.t += 5000
		b.add(Op{Kind: "oldkey", A: 0, B: 1})
	}
	if f.wResave > 0 {
		b.t += 100
		for i := 0; i < n; i++ {
			b.add(Op{Kind: "resave", A: i, B: (i + 1) % n})
		}
	}
	return b.p
}

// finalPhase: faults have stopped and everything still in flight has arrived; both sides talk.
func (b *pb) finalPhase() {
	r, f := b.r, b.f
	end := b.t
	for _, o := range b.p.Ops {
		for _, d := range o.Dl {
			end = max(end, o.At+d.Delay)
		}
	}
	reinit := f.reinit || f.wReset > 0
	overlap := f.reinit && f.wReset == 0 && r.P(60) // old messages are still in flight while the sides recover
	if !overlap {
		b.t = end + 1000
	} else {
		b.t += 2000
	}
	n := b.p.Cfg.Nodes
	quiet := *f
	quiet.attack, quiet.crashI, quiet.entI = 0, 0, 0
	quiet.kinds = []string{"otpk", "none", "last"}
	b.f = &quiet
	rounds := func(overlap bool) {
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				if f.lonely > 0 && !(i == 0 && j == 1) {
					continue
				}
				a, c := i, j
				if r.P(50) {
					a, c = c, a
				}
				if f.wReset+f.wPinother+f.wUnpin > 0 { // the users accept each other's present identity keys
					b.add(Op{Kind: "approve", A: a, B: c})
					b.add(Op{Kind: "approve", A: c, B: a})
				}
				fresh := 0
				if reinit {
					fresh = 1
					if overlap {
						fresh = 2
					}
					from := len(b.p.Ops)
					b.init(a, c)
					if r.P(25) {
						b.init(c, a)
					}
					for k := from; k < len(b.p.Ops); k++ {
						b.p.Ops[k].G = fresh
					}
					b.t += 20
				}
				for k := 0; k < f.final; k++ {
					for l := 1 + r.N(2); l > 0; l-- {
						o := Op{Kind: "send", A: a, B: c, Pt: sizeOf(r, 0), S: "final", G: fresh, Dl: []Dl{{Delay: 10}}}
						b.add(o)
						b.t += 20
					}
					b.t += 20
					for l := 1 + r.N(2); l > 0; l-- {
						b.add(Op{Kind: "send", A: c, B: a, Pt: sizeOf(r, 0), S: "final", G: fresh, Dl: []Dl{{Delay: 10}}})
						b.t += 20
					}
					b.t += 20
				}
				if !overlap {
					b.add(Op{Kind: "converged", A: a, B: c})
					b.t += 10
				}
			}
		}
	}
	rounds(overlap)
	if overlap { // and once more when everything has arrived
		b.t = max(b.t, end) + 1000
		rounds(false)
	}
	b.f = f
}

// ---------------------------------------------------------------- groups

type gprof struct {
	nodes                [2]int
	ops                  [2]int
	groups               int
	loss, dup, late      int
	tamper               int
	tampers              []string
	crashS, crashR       int
	crashC               int
	entC                 int
	wReplay, wDist       int
	wRotate, wDel        int
	wRestart, wResave    int
	wSnapRoll, wSeize    int
	wForeign, wLong      int
	wWarp                int
	burst, big           int
	alias, reload, entck bool
	ser, store           string
	stale                int
}

var groupTampers = []string{"bytes", "garbage", "iter", "keyid", "ct", "ctcut", "sig", "ver", "splice", "unknown", "insider", "insider", "movesender", "movegroup", "author", "author"}

func genGroup(seed uint64, property string, f *gprof) *Plan {
	pf := &prof{nodes: f.nodes, ser: f.ser, store: f.store, alias: f.alias, reload: f.reload, entcheck: f.entck}
	b := newPB(seed, property, pf)
	r := b.r
	b.p.Cfg.OTPKs = 1
	n := b.p.Cfg.Nodes
	groups := 1 + r.N(f.groups)
	nops := r.Range(f.ops[0], f.ops[1])
	dl := func(to int, dist bool) []Dl {
		var out []Dl
		delay := int64(5 + r.N(60))
		if r.P(f.late) {
			delay = int64(500 + r.N(30000))
		}
		if !r.P(f.loss) || dist && r.P(70) {
			d := Dl{Delay: delay, To: to}
			if r.P(f.crashR) {
				d.Crash = b.crash(3)
				out = append(out, d)
				d = Dl{Delay: delay + int64(50+r.N(2000)), To: to}
			}
			out = append(out, d)
		}
		for r.P(f.dup) {
			out = append(out, Dl{Delay: delay + int64(r.N(5000)), To: to})
		}
		if !dist {
			for k := 0; k < 2 && r.P(f.tamper); k++ {
				d := Dl{Delay: int64(1 + r.N(2000)), To: to, Mode: f.tampers[r.N(len(f.tampers))], P: int64(r.N(1 << 20))}
				if r.P(50) {
					d.Delay = delay
				}
				out = append(out, d)
			}
			if r.P(f.stale) {
				out = append(out, Dl{Delay: delay + int64(r.N(8000)), To: to})
			}
		} else if r.P(f.tamper / 3) {
			out = append(out, Dl{Delay: delay, To: to, Mode: r.Str("bytes", "garbage"), P: int64(r.N(1 << 20))})
		}
		return out
	}
	all := func(from int, dist bool, pct int) []Dl {
		var out []Dl
		for i := 0; i < n; i++ {
			if i == from && !r.P(5) {
				continue
			}
			if r.P(pct) {
				out = append(out, dl(i, dist)...)
			}
		}
		return out
	}
	dist := func(a, g, pct int) {
		o := Op{Kind: "gdist", A: a, B: a, G: g, Dl: all(a, true, pct)}
		if r.P(f.crashC) {
			o.Crash = b.crash(3)
		}
		if r.P(f.entC) {
			o.Ent = b.ent()
		}
		b.add(o)
		if o.Crash != nil || o.Ent != nil {
			b.t += int64(10 + r.N(200))
			b.add(Op{Kind: "gdist", A: a, B: a, G: g, Dl: all(a, true, pct)})
		}
	}
	send := func(a, g int) {
		o := Op{Kind: "gsend", A: a, B: a, G: g, Pt: sizeOf(r, f.big), Dl: all(a, false, 95)}
		if r.P(f.crashS) {
			o.Crash = b.crash(3)
		}
		b.add(o)
		b.sends = append(b.sends, b.id)
	}
	type gs struct{ a, g int }
	var senders []gs
	for g := 0; g < groups; g++ {
		for a := 0; a < n; a++ {
			if a == 0 || r.P(50) {
				senders = append(senders, gs{a, g})
				dist(a, g, 80)
				b.t += int64(r.N(100))
			}
		}
	}
	bl := f.burst
	if bl == 0 {
		bl = 4
	}
	for len(b.p.Ops) < nops {
		b.t += int64(r.N(400))
		s := senders[r.N(len(senders))]
		switch r.Pick(1000, f.wReplay, f.wDist, f.wRotate, f.wDel, f.wRestart, f.wResave, f.wSnapRoll, f.wSeize, f.wForeign, f.wLong, f.wWarp) {
		case 0:
			for k := 1 + r.N(bl); k > 0; k-- {
				send(s.a, s.g)
				b.t += int64(r.N(60))
			}
		case 1:
			if len(b.sends) > 0 {
				o := Op{Kind: "greplay", A: s.a, B: s.a, N: b.sends[r.N(len(b.sends))]}
				for k := 1 + r.N(3); k > 0; k-- {
					d := Dl{Delay: int64(1 + r.N(2000)), To: r.N(n)}
					if len(f.tampers) > 0 && r.P(40) {
						d.Mode, d.P = f.tampers[r.N(len(f.tampers))], int64(r.N(1<<20))
					}
					o.Dl = append(o.Dl, d)
				}
				b.add(o)
			}
		case 2:
			dist(s.a, s.g, 60)
		case 3:
			b.add(Op{Kind: "grotate", A: s.a, B: s.a, G: s.g})
			b.t += int64(r.N(200))
			if r.P(85) {
				dist(s.a, s.g, 85)
			}
		case 4:
			b.add(Op{Kind: "gdel", A: r.N(n), B: s.a, G: s.g})
		case 5:
			b.add(Op{Kind: "restart", A: r.N(n), B: 0})
		case 6:
			b.add(Op{Kind: "resave", A: r.N(n), B: 0})
		case 7:
			b.add(Op{Kind: r.Str("snap", "roll"), A: r.N(n), B: 0})
		case 8:
			b.add(Op{Kind: "seize", A: r.N(n), B: 0})
		case 9:
			o := Op{Kind: "gsend", A: r.N(n), B: s.a, G: s.g, Pt: 5, S: "foreign"}
			if o.A != o.B {
				b.add(o)
			}
		case 10:
			var to []int
			for i := 0; i < n; i++ {
				if i != s.a {
					to = append(to, i)
				}
			}
			b.long(Op{Kind: "gburst", A: s.a, B: s.a, G: s.g}, f.crashS, to)
		case 11:
			b.add(Op{Kind: "gwarp", A: s.a, B: s.a, G: s.g})
		}
	}
	if f.wSeize > 0 {
		b.t += 50000
		for i := 0; i < n; i++ {
			b.add(Op{Kind: "seize", A: i, B: 0})
		}
	}
	return b.p
}

var _ = fmt.Sprint
