package sim

// What is explored for each property, and which broken expectations count for it.

type propDef struct {
	id     string
	tags   []string
	quick  int // runs
	thor   int
	gen    func(i int, seed uint64) *Plan
	stubs  string
	real   string
	assume []string
}

func with(f prof, g func(*prof)) *prof     { g(&f); return &f }
func gwith(f gprof, g func(*gprof)) *gprof { g(&f); return &f }

var baseChat = prof{nodes: [2]int{2, 4}, ops: [2]int{40, 140}, loss: 12, dup: 12, late: 15, part: 40, wInit: 12, wRestart: 60, wResave: 10,
	wRot: 8, wAddpk: 10, big: 3, burst: 4, replay: 30, cipherOnly: 10, final: 1, lonely: 50}

var baseGroup = gprof{nodes: [2]int{3, 5}, ops: [2]int{40, 120}, groups: 3, loss: 12, dup: 10, late: 15, wReplay: 40, wDist: 60, wRotate: 30, wDel: 10,
	wRestart: 60, wResave: 10, wForeign: 10, burst: 4, big: 3}

var props = map[string]*propDef{}

func def(d *propDef) { props[d.id] = d }

type genF func(seed uint64) *Plan

func pairs(id string, f *prof) genF { return func(s uint64) *Plan { return genPair(s, id, f) } }
func grp(id string, f *gprof) genF  { return func(s uint64) *Plan { return genGroup(s, id, f) } }

// seldom is g, in one of n runs one of rare under the same property instead.
func seldom(n int, g genF, rare ...genF) genF {
	return func(s uint64) *Plan {
		h := hash64("seldom", s)
		if h%uint64(n) != 0 {
			return g(s)
		}
		p := rare[h/uint64(n)%uint64(len(rare))](s)
		p.Property = g(s).Property
		return p
	}
}

func only(name string, id string) genF {
	return func(s uint64) *Plan { return &Plan{Property: id, Scenario: name, Seed: s} }
}

func mix(id string, quick, thor int, tags []string, gs ...genF) *propDef {
	d := &propDef{id: id, tags: tags, quick: quick, thor: thor, gen: func(i int, seed uint64) *Plan {
		p := gs[i%len(gs)](seed)
		if i/len(gs)%6 == 5 {
			liveStores(p)
		}
		return p
	}}
	def(d)
	return d
}

// liveStores lets the devices of a plan keep the records themselves instead of bytes, like the
// in-memory stores of the library's own tests do. Such a store does not survive a crash.
func liveStores(p *Plan) {
	if p.Scenario != "world" || p.Cfg.Reload {
		return
	}
	ops := p.Ops[:0]
	for _, o := range p.Ops {
		switch o.Kind {
		case "snap", "roll", "resave", "seize", "theft":
			continue
		}
		o.Crash = nil
		for i := range o.Dl {
			o.Dl[i].Crash = nil
		}
		ops = append(ops, o)
	}
	p.Ops, p.Cfg.Store = ops, "live"
}

func init() {
	// ---- pairwise
	mix("C01", 1500, 60000, []string{"deliver", "plaintext", "header", "converge", "recover"},
		pairs("C01", &baseChat),
		pairs("C01", with(baseChat, func(p *prof) { p.loss, p.dup, p.late = 0, 0, 80; p.nodes = [2]int{2, 2}; p.burst = 12 })),
		pairs("C01", with(baseChat, func(p *prof) { p.nodes = [2]int{2, 2}; p.ops = [2]int{150, 300}; p.loss = 30; p.late = 40 })),
		pairs("C01", with(baseChat, func(p *prof) { p.wLong, p.ops, p.nodes = 60, [2]int{20, 60}, [2]int{2, 3} })),
		pairs("C01", with(baseChat, func(p *prof) { p.wWarp, p.nodes, p.late = 250, [2]int{2, 3}, 25 })),
		seldom(8, pairs("C01", with(baseChat, func(p *prof) { p.share, p.nodes, p.wInit, p.lonely = 100, [2]int{2, 5}, 40, 20 })),
			genLimit("chains"), genLimit("archive"), genLimit("skip"), genLimit("holes"), genLimit("gap"), genLimit("archive")),
	)
	rep := with(baseChat, func(p *prof) {
		p.dup, p.replay, p.again, p.wInit, p.wRestart = 40, 500, 20, 60, 80
		p.tamper, p.tampers = 15, []string{"rewrap", "otpk", "nootpk", "ver", "base", "basetop", "unknown", "ratchettop", "reg", "spk"}
		p.crashR = 8
	})
	mix("C02", 1200, 50000, []string{"replay"},
		pairs("C02", rep),
		pairs("C02", with(*rep, func(p *prof) { p.wWarp, p.nodes = 250, [2]int{2, 3} })),
		pairs("C02", with(*rep, func(p *prof) { p.nodes = [2]int{2, 2}; p.ops = [2]int{100, 250}; p.late = 50 })),
		pairs("C02", with(*rep, func(p *prof) { p.wDel, p.wReset, p.wInit = 10, 5, 120; p.kinds = []string{"otpk"} })),
		pairs("C02", with(*rep, func(p *prof) {
			p.share, p.nodes, p.wInit, p.final, p.wReuse = 70, [2]int{2, 4}, 80, 0, 60
			p.tampers = append([]string{"misattr", "misroute", "reflect"}, p.tampers...)
		})),
	)
	forge := with(baseChat, func(p *prof) {
		p.tamper, p.tampers, p.replay, p.wInit = 55, sigTampers, 150, 30
		p.nodes = [2]int{2, 4}
	})
	mix("C03", 2000, 50000, []string{"forge", "plaintext", "panic", "pin", "otpk", "limit"},
		pairs("C03", forge),
		pairs("C03", with(*forge, func(p *prof) { p.wWarp, p.nodes = 250, [2]int{2, 3} })),
		pairs("C03", with(*forge, func(p *prof) {
			p.nodes = [2]int{3, 5}
			p.tampers = []string{"misattr", "misroute", "reflect", "splice", "graft", "ident", "base"}
		})),
		pairs("C03", with(*forge, func(p *prof) {
			p.nodes = [2]int{2, 2}
			p.tampers = []string{"bytes", "ctr", "prev", "ct", "ctcut", "mac", "macshort", "ratchet", "ver", "splice"}
		})),
		pairs("C03", with(*forge, func(p *prof) {
			p.share, p.nodes, p.lonely, p.wReuse = 100, [2]int{3, 5}, 10, 10
			p.tampers = []string{"misattr", "misroute", "reflect", "splice", "graft", "ident", "identpin", "base", "author", "basetop", "spk", "otpk"}
		})),
	)
	gforge := gwith(baseGroup, func(p *gprof) { p.tamper, p.tampers, p.wReplay = 35, groupTampers, 80 })
	mix("C04", 1800, 50000, []string{"state", "deliver", "gdeliver", "plaintext", "gplaintext"},
		pairs("C04", with(*forge, func(p *prof) {
			p.attack, p.attacks = 25, bundleAttacks
			p.replay = 300
			p.loss = 20
			p.late = 30
			p.wPinother = 6
			p.wNosess = 1
			p.entI, p.entR = 20, 5
		})),
		pairs("C04", with(*forge, func(p *prof) {
			p.tamper = 70
			p.nodes = [2]int{2, 2}
			p.attack, p.attacks = 25, bundleAttacks
			p.crashR = 6
		})),
		grp("C04", gwith(*gforge, func(p *gprof) { p.tamper = 50; p.nodes = [2]int{2, 4} })),
	)
	mix("C05", 500, 30000, []string{"panic", "nosession"},
		hostileGen(pairs("C05", with(baseChat, func(p *prof) {
			p.tamper, p.tampers, p.wInit, p.replay = 20, []string{"bytes", "bytes", "garbage", "ctcut", "macshort", "ver"}, 30, 60
			p.wDel, p.wNosess, p.ops = 8, 2, [2]int{20, 80}
		})), 60),
		hostileGen(grp("C05", gwith(baseGroup, func(p *gprof) {
			p.tamper, p.tampers, p.wRotate, p.ops, p.nodes = 15, []string{"bytes", "garbage", "ctcut", "ver"}, 40, [2]int{15, 60}, [2]int{2, 4}
			p.wForeign = 40
		})), 60),
		genProvision,
	)
	mix("C06", 4500, 60000, []string{"establish", "deliver", "plaintext", "header", "converge", "recover"},
		pairs("C06", with(baseChat, func(p *prof) { p.wInit = 250; p.ops = [2]int{30, 80}; p.wRot, p.wAddpk = 40, 40; p.late = 30 })),
		pairs("C06", with(baseChat, func(p *prof) { p.wInit = 120; p.ops = [2]int{15, 50}; p.nodes = [2]int{2, 2}; p.late = 60; p.burst = 6 })),
		pairs("C06", with(baseChat, func(p *prof) { p.kinds = []string{"none", "last"}; p.wInit = 60; p.ops = [2]int{15, 50}; p.wReset = 10 })),
		pairs("C06", with(baseChat, func(p *prof) {
			p.wReuse, p.wInit, p.wAddpk, p.wRot, p.share = 150, 250, 40, 20, 30
			p.late, p.ops, p.reinit, p.kinds = 40, [2]int{20, 70}, true, []string{"otpk", "otpk", "none", "last"}
		})),
	)
	mix("C07", 4000, 60000, []string{"otpk", "deliver", "establish", "replay"},
		pairs("C07", with(baseChat, func(p *prof) {
			p.wInit, p.ops, p.replay, p.dup, p.crashR = 250, [2]int{25, 70}, 200, 25, 15
			p.kinds = []string{"otpk", "otpk", "dup", "dup", "last", "none"}
			p.tamper, p.tampers = 25, []string{"base", "basetop", "otpk", "nootpk", "ident", "graft", "spk", "ctr", "ct", "mac", "rewrap", "misattr", "misroute", "bytes"}
			p.final = 0
		})),
		pairs("C07", with(baseChat, func(p *prof) {
			p.wInit, p.ops, p.crashR, p.nodes, p.late = 200, [2]int{15, 40}, 50, [2]int{3, 5}, 40
			p.kinds = []string{"otpk", "dup", "last"}
			p.final = 0
		})),
		pairs("C07", with(baseChat, func(p *prof) {
			p.wInit, p.wReuse, p.ops, p.crashR, p.nodes, p.late, p.replay = 200, 200, [2]int{20, 60}, 10, [2]int{2, 4}, 60, 150
			p.kinds = []string{"otpk", "otpk", "dup", "last", "none"}
			p.share, p.final = 25, 0
		})),
	)
	mix("C08", 4500, 60000, []string{"pin", "sig", "forge"},
		pairs("C08", with(baseChat, func(p *prof) {
			p.wInit, p.attack, p.attacks, p.ops = 250, 60, bundleAttacks, [2]int{25, 80}
			p.wReset, p.wApprove, p.wUnpin, p.wPinother = 40, 40, 20, 40
			p.tamper, p.tampers = 20, []string{"ident", "misattr", "graft", "base", "rewrap"}
			p.nodes, p.final = [2]int{3, 4}, 0
		})),
		pairs("C08", with(baseChat, func(p *prof) {
			p.wReset, p.wPinother, p.wApprove, p.wInit, p.ops = 60, 80, 60, 60, [2]int{40, 120}
			p.late, p.final, p.crashR = 30, 0, 10
		})),
		pairs("C08", with(baseChat, func(p *prof) { // messages of the former identity after the pin has changed
			p.wReset, p.wPinother, p.wApprove, p.wInit, p.ops = 30, 150, 60, 100, [2]int{40, 100}
			p.tamper, p.tampers, p.late, p.final, p.nodes = 40, []string{"identpin", "identpin", "ident", "rewrap"}, 30, 0, [2]int{2, 3}
		})),
	)
	mix("C09", 1500, 60000, []string{"keyreuse", "durable", "deliver", "plaintext", "header", "nosession"},
		pairs("C09", with(baseChat, func(p *prof) { p.crashS, p.wRestart, p.crashI = 35, 120, 15 })),
		pairs("C09", with(baseChat, func(p *prof) { p.crashS, p.nodes, p.ops, p.crashR, p.wInit = 50, [2]int{2, 2}, [2]int{60, 200}, 10, 40 })),
		pairs("C09", with(baseChat, func(p *prof) { p.crashS, p.wLong, p.nodes, p.ops = 50, 100, [2]int{2, 2}, [2]int{20, 60} })),
		pairs("C09", with(baseChat, func(p *prof) { p.crashS, p.wWarp, p.wRestart, p.nodes = 30, 250, 100, [2]int{2, 3} })),
	)
	mix("C10", 3000, 60000, []string{"durable", "deliver", "plaintext", "recover", "otpk"},
		pairs("C10", with(baseChat, func(p *prof) { p.crashR, p.dup, p.replay = 45, 10, 60 })),
		pairs("C10", with(baseChat, func(p *prof) { p.crashR, p.wInit, p.ops, p.nodes = 60, 150, [2]int{20, 80}, [2]int{2, 3} })),
		pairs("C10", with(baseChat, func(p *prof) { p.crashR, p.late, p.nodes, p.crashS = 50, 50, [2]int{2, 2}, 10 })),
		pairs("C10", with(baseChat, func(p *prof) { p.crashR, p.wWarp, p.nodes, p.late = 35, 250, [2]int{2, 3}, 30 })),
	)
	mix("C11", 1200, 20000, []string{"fs", "otpk"},
		pairs("C11", with(baseChat, func(p *prof) { p.wSeize, p.save, p.ops, p.loss, p.nodes = 25, true, [2]int{30, 80}, 25, [2]int{2, 3} })),
		pairs("C11", with(baseChat, func(p *prof) {
			p.wSeize, p.save, p.ops, p.loss, p.late, p.nodes, p.wInit = 15, true, [2]int{30, 80}, 5, 60, [2]int{2, 2}, 60
		})),
		grp("C11", gwith(baseGroup, func(p *gprof) { p.wSeize, p.ops, p.loss, p.late = 25, [2]int{20, 60}, 25, 40 })),
	)
	mix("C12", 800, 30000, []string{"heal"},
		pairs("C12", with(baseChat, func(p *prof) { p.wTheft, p.save, p.ops, p.nodes, p.crashR = 40, true, [2]int{40, 100}, [2]int{2, 3}, 5 })),
		pairs("C12", with(baseChat, func(p *prof) {
			p.wTheft, p.save, p.ops, p.nodes, p.late, p.wInit = 40, true, [2]int{40, 100}, [2]int{2, 2}, 50, 50
		})),
		pairs("C12", with(baseChat, func(p *prof) { p.wInit, p.wReset, p.crashR, p.crashS, p.wDel = 150, 20, 15, 15, 20 })),
	)
	// ---- groups
	mix("C14", 1300, 36000, []string{"gdeliver", "gplaintext", "header"},
		grp("C14", &baseGroup),
		grp("C14", gwith(baseGroup, func(p *gprof) { p.late, p.loss, p.burst, p.nodes, p.groups = 70, 5, 10, [2]int{2, 3}, 1 })),
		grp("C14", gwith(baseGroup, func(p *gprof) { p.wDist, p.wRotate, p.dup, p.groups = 250, 100, 30, 4 })),
		seldom(8, grp("C14", gwith(baseGroup, func(p *gprof) { p.wLong, p.ops, p.nodes, p.groups = 60, [2]int{20, 50}, [2]int{2, 3}, 2 })),
			genGroupLimit("ahead"), genGroupLimit("holes"), genGroupLimit("states"), genGroupLimit("skip")),
		grp("C14", gwith(baseGroup, func(p *gprof) { p.wWarp, p.late, p.wDist = 250, 30, 120 })),
	)
	mix("C15", 1400, 36000, []string{"replay", "early"},
		grp("C15", gwith(baseGroup, func(p *gprof) { p.dup, p.stale, p.wReplay, p.wDist = 40, 40, 500, 150; p.crashR = 8 })),
		grp("C15", gwith(baseGroup, func(p *gprof) {
			p.wReplay, p.wDel, p.wDist, p.loss = 400, 60, 250, 40
			p.tamper, p.tampers = 15, []string{"iter", "unknown", "keyid"}
		})),
		grp("C15", gwith(baseGroup, func(p *gprof) { p.dup, p.stale, p.wReplay, p.wDist, p.wWarp = 30, 30, 400, 120, 200 })),
	)
	mix("C16", 1800, 36000, []string{"forge", "gplaintext", "state", "panic", "nosession"},
		grp("C16", gforge),
		grp("C16", gwith(*gforge, func(p *gprof) { p.wWarp = 200 })),
		grp("C16", gwith(*gforge, func(p *gprof) { p.tamper = 60; p.nodes = [2]int{2, 3}; p.wRotate = 60 })),
	)
	mix("C17", 1800, 50000, []string{"keyreuse", "durable", "gdeliver", "gplaintext", "header", "state", "replay"},
		grp("C17", gwith(baseGroup, func(p *gprof) {
			p.crashS, p.crashR, p.crashC, p.wRestart, p.wRotate, p.wDist = 30, 30, 50, 100, 60, 100
		})),
		grp("C17", gwith(baseGroup, func(p *gprof) {
			p.crashS, p.crashR, p.crashC, p.nodes, p.groups, p.late = 50, 50, 50, [2]int{2, 3}, 1, 40
		})),
		grp("C17", gwith(baseGroup, func(p *gprof) {
			p.crashS, p.crashR, p.crashC, p.wLong, p.ops, p.nodes, p.groups = 50, 20, 30, 80, [2]int{20, 50}, [2]int{2, 3}, 2
		})),
		grp("C17", gwith(baseGroup, func(p *gprof) {
			p.crashS, p.crashR, p.wWarp, p.wRestart, p.wDist = 30, 30, 250, 80, 80
		})),
	)
	// ---- both
	mix("C18", 1300, 36000, []string{"reload", "lockstep", "header", "establish"},
		pairs("C18", with(baseChat, func(p *prof) { p.reload, p.wResave, p.wRestart, p.wInit, p.wRot, p.wAddpk = true, 120, 120, 40, 40, 40 })),
		grp("C18", gwith(baseGroup, func(p *gprof) { p.reload, p.wResave, p.loss, p.late = true, 120, 25, 30 })),
		lockstepGen(pairs("C18", with(baseChat, func(p *prof) { p.wInit, p.wRot, p.wAddpk, p.replay = 80, 40, 40, 100 }))),
		lockstepGen(pairs("C18", with(baseChat, func(p *prof) { p.nodes, p.late, p.wInit, p.ops = [2]int{2, 2}, 60, 60, [2]int{60, 200} }))),
		lockstepGen(grp("C18", gwith(baseGroup, func(p *gprof) { p.loss, p.late, p.wResave, p.wDel = 25, 30, 0, 0 }))),
		pairs("C18", with(baseChat, func(p *prof) { p.reload, p.wResave, p.wRestart, p.wWarp, p.late = true, 120, 120, 250, 40 })),
		grp("C18", gwith(baseGroup, func(p *gprof) { p.reload, p.wResave, p.wWarp, p.late = true, 120, 200, 30 })),
		lockstepGen(pairs("C18", with(baseChat, func(p *prof) { p.wWarp, p.late = 250, 30 }))),
		lockstepGen(grp("C18", gwith(baseGroup, func(p *gprof) { p.wWarp, p.late, p.wResave, p.wDel = 250, 30, 0, 0 }))),
	)
	mix("C20", 4000, 50000, []string{"entropy", "deliver", "gdeliver", "heal", "state"},
		pairs("C20", with(baseChat, func(p *prof) { p.entcheck, p.entR, p.entS, p.entI, p.wInit = true, 25, 20, 40, 80 })),
		genKeygen,
		grp("C20", gwith(baseGroup, func(p *gprof) { p.entck, p.entC, p.wRotate, p.ops = true, 50, 250, [2]int{20, 60} })),
	)
	mix("C23", 2500, 30000, []string{"savedkey"},
		pairs("C23", with(baseChat, func(p *prof) { p.save, p.wOldkey, p.wInit, p.late = true, 120, 40, 30 })),
	)
	mix("C24", 1800, 40000, []string{"alias", "deliver", "gdeliver", "plaintext", "gplaintext"},
		pairs("C24", with(baseChat, func(p *prof) {
			p.alias, p.again, p.crashR, p.entR, p.dup, p.wInit = true, 30, 15, 10, 20, 40
			p.wPinother = 5
			p.tamper, p.tampers = 10, sigTampers
		})),
		pairs("C24", with(baseChat, func(p *prof) {
			p.alias, p.again, p.nodes, p.late, p.big = true, 30, [2]int{2, 2}, 40, 10
			p.save = true
		})),
		grp("C24", gwith(baseGroup, func(p *gprof) { p.alias, p.crashR, p.dup = true, 20, 20 })),
	)
	mix("C25", 4500, 50000, []string{"deliver", "recover", "converge", "plaintext", "establish"},
		pairs("C25", with(baseChat, func(p *prof) {
			p.wDel, p.wWipe, p.wSnapRoll, p.reinit, p.final, p.ops = 60, 15, 40, true, 2, [2]int{20, 80}
		})),
		pairs("C25", with(baseChat, func(p *prof) {
			p.wDel, p.wSnapRoll, p.reinit, p.final, p.ops, p.nodes, p.late = 120, 80, true, 3, [2]int{15, 60}, [2]int{2, 2}, 50
		})),
	)
}
