package sim

// Workloads that approach and cross the documented limits.

// opBurst sends o.N messages and delivers those named in o.Dl (Q is the index).
func (w *World) opBurst(o *Op, a, b *Node) {
	group := o.Kind == "gburst"
	w.R.Res.Nontrivial++
	for i := 0; i < o.N && !w.halted; i++ {
		x := Op{ID: o.ID*100000 + i, At: o.At, Kind: "send", A: o.A, B: o.B, G: o.G, Pt: o.Pt}
		for _, d := range o.Dl {
			if int(d.Q) == i {
				d.Q = 0
				x.Dl = append(x.Dl, d)
			}
		}
		if o.Crash != nil && i == o.M {
			x.Crash = o.Crash
		}
		if group {
			w.opGSend(&x, a)
		} else {
			w.opSend(&x, a, b)
		}
		if len(w.R.Res.Violations) > 0 {
			return
		}
	}
}

// around draws a number at or close to a limit.
func around(r *RNG, l int) int {
	switch r.N(4) {
	case 0:
		return l
	case 1:
		return l + 1
	case 2:
		return l - 1 + r.N(3)
	}
	return max(1, l-3+r.N(7))
}

func genLimit(kind string) genF {
	return func(seed uint64) *Plan {
		f := &prof{nodes: [2]int{2, 2}}
		b := newPB(seed, "C13", f)
		r := b.r
		c := &b.p.Cfg
		c.Names, c.Devs = nil, nil
		c.OTPKs = 60
		talk := func() {
			b.add(Op{Kind: "init", A: 0, B: 1, S: r.Str("otpk", "none", "last")})
			b.t += 10
			if r.P(70) {
				b.add(Op{Kind: "send", A: 0, B: 1, Pt: 12, Dl: []Dl{{Delay: 1}}})
				b.t += 10
				b.add(Op{Kind: "send", A: 1, B: 0, Pt: 12, Dl: []Dl{{Delay: 1}}})
				b.t += 10
			}
			if r.P(25) { // the limits of a chain that is long already
				b.add(Op{Kind: "send", A: 0, B: 1, Pt: 12, Dl: []Dl{{Delay: 1}}})
				b.t += 10
				b.add(Op{Kind: "warp", A: 0, B: 1, M: 1})
				b.t += 10
			}
		}
		maybeRestart := func() {
			if r.P(30) {
				b.add(Op{Kind: "restart", A: r.N(2), B: 0})
				b.t += 5
			}
		}
		switch kind {
		case "skip": // more skipped keys than are kept, in one or two gaps
			talk()
			first := around(r, maxSkipped) + r.N(2)*r.N(300)
			o := Op{Kind: "burst", A: 0, B: 1, N: first + 1, Pt: r.N(20)}
			if r.P(40) { // two gaps
				o.Dl = append(o.Dl, Dl{Delay: 100, Q: int64(r.N(first))})
			}
			o.Dl = append(o.Dl, Dl{Delay: 200, Q: int64(first)})
			drop := max(0, first-maxSkipped)
			t := int64(1000)
			for _, q := range []int{drop, drop - 1, drop + 1, 0, first - 1, r.N(first), r.N(first), r.N(first), drop + 2, drop - 2} {
				if q >= 0 && q < first {
					o.Dl = append(o.Dl, Dl{Delay: t + int64(r.N(2000)), Q: int64(q)})
				}
			}
			b.add(o)
			b.t += 1500
			maybeRestart()
			b.t += 3000
			b.add(Op{Kind: "send", A: 1, B: 0, Pt: 12, Dl: []Dl{{Delay: 1}}})
			b.t += 10
			b.add(Op{Kind: "send", A: 0, B: 1, Pt: 12, Dl: []Dl{{Delay: 1}}})
		case "holes": // late messages arrive between the gaps, so that keys are missing among the kept ones
			talk()
			holes(r, maxSkipped, 0, func(n int, dl []Dl) {
				b.add(Op{Kind: "burst", A: 0, B: 1, N: n, Pt: r.N(20), Dl: dl})
			}, func(d int64) {
				maybeRestart()
				b.t += d
			})
			b.add(Op{Kind: "send", A: 0, B: 1, Pt: 12, Dl: []Dl{{Delay: 1}}})
		case "gap": // too far ahead
			talk()
			n := around(r, maxFuture)
			if r.P(30) {
				n = maxFuture + 1 + r.N(20)
			}
			k := 0
			if r.P(50) {
				k = 1 + r.N(5) // some at the beginning arrive
			}
			o := Op{Kind: "burst", A: 0, B: 1, N: n + k + 2, Pt: r.N(20)}
			for i := 0; i < k; i++ {
				o.Dl = append(o.Dl, Dl{Delay: int64(1 + r.N(50)), Q: int64(i)})
			}
			far := []Dl{{Delay: 100, Q: int64(k + n + 1)}, {Delay: 100, Q: int64(k + n)}}
			if r.P(50) {
				far[0], far[1] = far[1], far[0]
			}
			if r.P(50) {
				far = far[:1]
			}
			far[0].Delay = 120
			o.Dl = append(o.Dl, far...)
			o.Dl = append(o.Dl, Dl{Delay: 300, Q: int64(k + maxFuture)}, Dl{Delay: 320, Q: int64(k + n)})
			for i := 0; i < 5; i++ {
				o.Dl = append(o.Dl, Dl{Delay: int64(400 + r.N(500)), Q: int64(r.N(k + n))})
			}
			b.add(o)
		case "chains": // messages of old chains arrive late
			talk()
			turns := 4 + r.N(6)
			for i := 0; i < turns; i++ {
				for j := 0; j < 2; j++ {
					x, y := j, 1-j
					late := Op{Kind: "burst", A: x, B: y, N: 3 + r.N(4), Pt: 12}
					late.Dl = append(late.Dl, Dl{Delay: 1, Q: int64(late.N - 1)})
					for k := 0; k < late.N-1; k++ {
						late.Dl = append(late.Dl, Dl{Delay: 1 + int64(r.N(turns*60)), Q: int64(k)})
					}
					b.add(late)
					b.t += 20
					maybeRestart()
				}
			}
		case "archive": // many sessions
			n := around(r, maxArchived) + r.N(3)
			kind := r.Str("otpk", "otpk", "none", "otpk")
			end := int64(n)*40 + 1000
			for i := 0; i < n; i++ {
				b.add(Op{Kind: "init", A: 0, B: 1, S: kind, M: r.N(4)})
				b.t += 10
				o := Op{Kind: "burst", A: 0, B: 1, N: 2 + r.N(3), Pt: 12, Dl: []Dl{{Delay: 1, Q: 0}}}
				for q := 1; q < o.N; q++ {
					switch r.N(3) {
					case 0:
						o.Dl = append(o.Dl, Dl{Delay: end - b.t + int64(r.N(500)), Q: int64(q)})
					case 1:
						o.Dl = append(o.Dl, Dl{Delay: int64(r.N(600)), Q: int64(q)})
					}
				}
				b.add(o)
				b.t += 20
				if r.P(20) { // answers, some of which arrive late
					b.add(Op{Kind: "send", A: 1, B: 0, Pt: 12, Dl: []Dl{{Delay: int64(1 + r.N(2)*r.N(int(end)))}}})
				}
				if r.P(5) {
					maybeRestart()
				}
				b.t += 10
			}
		}
		return b.p
	}
}

// holes fills the kept keys almost or completely in one gap, lets some of these messages arrive, and skips
// some more. What is kept then has to be all but the oldest. All late messages belong to the first burst.
func holes(r *RNG, limit, to int, burst func(int, []Dl), pause func(int64)) {
	first := limit - 10 + r.N(11)
	used := map[int]bool{}
	dl := []Dl{{Delay: 100, To: to, Q: int64(first)}}
	late := func(t int64, q int) {
		if q >= 0 && q < first && !used[q] {
			used[q] = true
			dl = append(dl, Dl{Delay: t, To: to, Q: int64(q)})
		}
	}
	removed := 1 + r.N(8)
	near := r.P(65)
	for i := 0; i < removed; i++ {
		if near {
			late(200+int64(r.N(200)), r.N(30))
		} else {
			late(200+int64(r.N(200)), r.N(first))
		}
	}
	removed = len(dl) - 1
	more := 1 + r.N(40) // skipped by the second burst
	gone := first - removed + more - limit
	kept := []int{} // the oldest that remain after the first late messages
	for q := 0; q < first && len(kept) < 60; q++ {
		if !used[q] {
			kept = append(kept, q)
		}
	}
	for _, k := range []int{gone - 2, gone - 1, gone, gone + 1, 0, r.N(40), r.N(40)} {
		if k >= 0 && k < len(kept) {
			late(2000+int64(r.N(500)), kept[k])
		}
	}
	for i := 1; i <= removed && i <= 4; i++ {
		late(2000+int64(r.N(500)), first-i)
	}
	for i := 0; i < 4; i++ {
		late(2000+int64(r.N(500)), r.N(first))
	}
	burst(first+1, dl)
	pause(1000)
	burst(more+1, []Dl{{Delay: 50, To: to, Q: int64(more)}})
	pause(3000)
	burst(1, []Dl{{Delay: 1, To: to}})
}

func genGroupLimit(kind string) genF {
	return func(seed uint64) *Plan {
		f := &prof{nodes: [2]int{2, 3}}
		b := newPB(seed, "C13", f)
		r := b.r
		b.p.Cfg.OTPKs = 1
		start := Op{Kind: "gburst", A: 0, B: 0, N: r.N(4), Pt: 5}
		dist := Op{Kind: "gdist", A: 0, B: 0}
		if start.N > 0 {
			b.add(dist)
			b.add(start)
		}
		dist.Dl = []Dl{{Delay: 1, To: 1}}
		b.t += 10
		b.add(dist)
		b.t += 10
		if kind == "states" { // more renewals of the sender key than are kept, and late messages of the old ones
			b.p.Cfg.Store = "bytes"
			rounds := 2 + r.N(5)
			at := r.N(rounds)
			end := int64(rounds+2) * 200
			for i := 0; i <= rounds; i++ {
				o := Op{Kind: "gburst", A: 0, B: 0, N: 2 + r.N(3), Pt: r.N(20)}
				for q := 0; q < o.N; q++ {
					switch r.N(3) {
					case 0:
						o.Dl = append(o.Dl, Dl{Delay: int64(1 + r.N(300)), To: 1, Q: int64(q)})
					case 1:
						o.Dl = append(o.Dl, Dl{Delay: end - b.t + int64(r.N(200)), To: 1, Q: int64(q)})
					}
				}
				b.add(o)
				b.t += 50
				if i == at {
					b.add(Op{Kind: "gfill", A: 1, B: 0, N: maxGroupStates - 1 - r.N(rounds+2) + r.N(3)})
					b.t += 50
				}
				if i < rounds {
					b.add(Op{Kind: "grotate", A: 0, B: 0})
					b.add(dist)
					b.t += 100
				}
				if r.P(10) {
					b.add(Op{Kind: "restart", A: 1, B: 0})
				}
			}
			return b.p
		}
		if r.P(25) {
			b.add(Op{Kind: "gwarp", A: 0, B: 0, M: 1})
			b.t += 10
		}
		if kind == "holes" {
			holes(r, maxGroupKeys, 1, func(n int, dl []Dl) {
				b.add(Op{Kind: "gburst", A: 0, B: 0, N: n, Pt: r.N(20), Dl: dl})
			}, func(d int64) { b.t += d })
			return b.p
		}
		n := around(r, maxGroupFuture)
		if r.P(30) {
			n += r.N(40)
		}
		k := r.N(2) * r.N(5)
		o := Op{Kind: "gburst", A: 0, B: 0, N: k + n + 2, Pt: r.N(20)}
		add := func(t int64, q int) {
			if q >= 0 && q < o.N {
				o.Dl = append(o.Dl, Dl{Delay: t, To: 1, Q: int64(q)})
			}
		}
		for i := 0; i < k; i++ {
			add(int64(1+r.N(50)), i)
		}
		if kind == "ahead" {
			if r.P(50) {
				add(100, k+n+1)
			}
			if r.P(50) {
				add(110, k+n)
			}
			add(300, k+maxGroupFuture)
			add(320, k+maxGroupFuture+1)
		} else { // two gaps: more skipped keys than are kept
			mid := 1 + r.N(n/2)
			add(100, k+mid)
			add(200, k+n+1)
			drop := n - maxGroupKeys
			for _, q := range []int{drop, drop - 1, drop + 1, 0, 1, n} {
				if q >= 0 {
					add(300+int64(r.N(900)), k+q)
				}
			}
		}
		for i := 0; i < 6; i++ {
			add(400+int64(r.N(900)), r.N(k+n))
		}
		b.add(o)
		b.t += 700
		if r.P(40) {
			b.add(Op{Kind: "restart", A: 1, B: 0})
		}
		b.t += 1000
		b.add(Op{Kind: "gburst", A: 0, B: 0, N: 1, Pt: 12, Dl: []Dl{{Delay: 1, To: 1}}})
		return b.p
	}
}

func init() {
	mix("C13", 470, 8000, []string{"retain", "limit", "deliver", "gdeliver", "plaintext", "gplaintext"},
		genLimit("chains"), genLimit("archive"), genLimit("skip"), genLimit("holes"), genLimit("chains"), genGroupLimit("ahead"), genGroupLimit("holes"), genGroupLimit("states"), genLimit("archive"), genLimit("gap"), genGroupLimit("skip"),
		pairs("C13", with(baseChat, func(p *prof) { p.nodes, p.late, p.loss, p.wInit, p.ops = [2]int{2, 2}, 60, 20, 150, [2]int{80, 200} })),
		seldom(2, pairs("C13", with(baseChat, func(p *prof) { p.nodes, p.late, p.wWarp = [2]int{2, 2}, 40, 300 })),
			grp("C13", gwith(baseGroup, func(p *gprof) { p.wWarp, p.late, p.nodes, p.groups = 300, 40, [2]int{2, 3}, 1 }))))
}
