package sim

import (
	"bufio"
	"crypto/rand"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
)

// ---------------------------------------------------------------- one run

// runPlan executes a plan and returns what happened. Everything below it is a function of the plan.
func runPlan(t *testing.T, p *Plan, keep bool) *Result {
	d := props[p.Property]
	r := &Run{P: p, Ent: &Entropy{}, Keep: keep, Res: &Result{Seed: p.Seed, Scenario: p.Scenario, Counts: map[string]int64{}}}
	if d != nil {
		r.tags = map[string]bool{"unexpected": true}
		for _, x := range d.tags {
			r.tags[x] = true
		}
	}
	real := rand.Reader
	rand.Reader = r.Ent
	r.Ent.Start(hash64("world", p.Seed), nil)
	installLogger()
	theLogger.hook = nil
	defer func() {
		rand.Reader = real
		theLogger.hook = nil
	}()
	inBubble(t, func(t *testing.T) {
		defer func() {
			if x := recover(); x != nil {
				if s, ok := x.(string); ok && strings.HasPrefix(s, "simulator:") {
					panic(x)
				}
				r.Fail("unexpected", "panic outside a guarded call: %v\n%s", x, firstLines(string(debug.Stack()), 24))
			}
		}()
		scenario(p.Scenario)(r)
	})
	r.finish()
	return r.Res
}

// inBubble runs f with simulated time. The testing package counts a reported data race as a failed
// test and ends the goroutine.
func inBubble(t *testing.T, f func(*testing.T)) {
	if !raceBuild {
		synctest.Test(t, f)
		return
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		synctest.Test(t, f)
	}()
	<-done
}

// racesAfter names the places of the first data race reported after the first n in which the library
// takes part: one of the two accesses is made by it, or by the standard library on its behalf.
func racesAfter(n int) string {
	if raceErrors() <= n {
		return ""
	}
	b, err := os.ReadFile(os.Getenv("SIM_RACELOG") + fmt.Sprintf(".%d", os.Getpid()))
	if err != nil {
		return "(no report)"
	}
	all := strings.Split(string(b), "WARNING: DATA RACE")[1:]
	for _, rep := range all[min(n, len(all)):] {
		var out []string
		lib, judged, own := "", false, false
		for _, l := range strings.Split(rep, "\n") {
			switch {
			case strings.HasPrefix(l, "Goroutine "):
				lib = "end"
			case strings.Contains(l, " by goroutine ") || strings.Contains(l, " by main goroutine"):
				out = append(out, strings.ToLower(l[:strings.Index(l, " at ")])+":")
				lib, own = "", false
			case lib != "end" && strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "   "):
				lib = strings.TrimSpace(l)
				if !own && (strings.Contains(lib, "libsignal-protocol-go/") || strings.Contains(lib, "verifsim")) {
					own = true
					judged = judged || strings.Contains(lib, "libsignal-protocol-go/")
				}
			case lib != "end" && strings.HasPrefix(l, "      "):
				if l = strings.TrimSpace(l); strings.Contains(lib, "libsignal-protocol-go/") || strings.Contains(lib, "verifsim") {
					if i := strings.LastIndex(l, " +0x"); i >= 0 {
						l = filepath.Base(l[:i])
					}
					out = append(out, lib[strings.LastIndex(lib, "/")+1:], l)
					if lib = ""; len(out) > 20 {
						lib = "end"
					}
				}
			}
		}
		if judged {
			return strings.Join(out, " ")
		}
	}
	return ""
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func scenario(name string) func(*Run) {
	switch name {
	case "world":
		return func(r *Run) {
			w := newWorld(r)
			w.sleep = true
			w.run()
		}
	}
	f := scenarios[name]
	if f == nil {
		panic("simulator: unknown scenario " + name)
	}
	return f
}

var scenarios = map[string]func(*Run){}

func planFor(prop string, seed uint64, i int) *Plan {
	d := props[prop]
	s := hash64("run", seed, prop, i)
	p := d.gen(i, s)
	p.Property = prop
	p.Seed = s
	return p
}

// ---------------------------------------------------------------- worker process

type workerCfg struct {
	Prop   string `json:"prop"`
	Seed   uint64 `json:"seed"`
	Offset int    `json:"offset"`
	Stride int    `json:"stride"`
	Runs   int    `json:"runs"`
	File   string `json:"file"`
	Out    string `json:"out"`
	Secs   int    `json:"secs"`
	Tag    string `json:"tag"`
	List   []int  `json:"list"`
}

func workerMain(t *testing.T) {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(3 << 30)
	go func() { // a run that eats memory must not take the machine with it
		for {
			time.Sleep(300 * time.Millisecond)
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 3500<<20 {
				fmt.Fprintln(os.Stderr, "memory exhausted")
				os.Exit(9)
			}
		}
	}()
	var c workerCfg
	if err := json.Unmarshal([]byte(os.Getenv("SIM_CFG")), &c); err != nil {
		t.Fatal(err)
	}
	out := bufio.NewWriter(os.Stdout)
	say := func(f string, a ...interface{}) {
		fmt.Fprintf(out, f+"\n", a...)
		out.Flush()
	}
	result := func(i int, r *Result) {
		b, _ := json.Marshal(r)
		say("R %d %s", i, b)
	}
	switch os.Getenv("SIM_MODE") {
	case "runs":
		start := time.Now()
		one := func(i int) {
			say("S %d", i)
			result(i, runPlan(t, planFor(c.Prop, c.Seed, i), false))
		}
		if c.List != nil {
			for _, i := range c.List {
				one(i)
			}
			break
		}
		for i := c.Offset; i < c.Runs; i += c.Stride {
			if c.Secs > 0 && time.Since(start) > time.Duration(c.Secs)*time.Second {
				break
			}
			one(i)
		}
	case "plan":
		p := loadPlan(c.File)
		say("S 0")
		r := runPlan(t, p, true)
		for _, l := range r.Log {
			say("L %s", strings.ReplaceAll(l, "\n", "\\n"))
		}
		result(0, r)
	case "min":
		p := loadPlan(c.File)
		m := minimise(t, p, c.Tag, time.Duration(c.Secs)*time.Second)
		b, _ := json.MarshalIndent(m, "", " ")
		if err := os.WriteFile(c.Out, b, 0644); err != nil {
			t.Fatal(err)
		}
	}
	say("E")
}

type replayFile struct {
	Plan       *Plan       `json:"plan"`
	Violations []Violation `json:"violations,omitempty"`
	Trace      []string    `json:"trace,omitempty"`
	TraceHash  string      `json:"trace_hash,omitempty"`
	Note       string      `json:"note,omitempty"`
	Operations int         `json:"operations"`
	Original   int         `json:"operations_before_minimisation"`
}

func loadPlan(file string) *Plan {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err == nil && rf.Plan != nil {
		return rf.Plan
	}
	var p Plan
	if err := json.Unmarshal(b, &p); err != nil {
		panic(err)
	}
	return &p
}

func hasTag(r *Result, tag string) bool {
	for _, v := range r.Violations {
		if v.Tag == tag {
			return true
		}
	}
	return false
}

// inChild executes a plan in a process of its own.
func inChild(p *Plan) *Result {
	res := &Result{}
	f, err := os.CreateTemp("", "verifsim.plan.")
	if err != nil {
		return res
	}
	defer os.Remove(f.Name())
	b, _ := json.Marshal(replayFile{Plan: p})
	f.Write(b)
	f.Close()
	child("plan", workerCfg{File: f.Name()}, hangAfter, func(l string) {
		if strings.HasPrefix(l, "R ") {
			var i int
			parseR(l, &i, res)
		}
	})
	return res
}

// minimise removes operations, deliveries and faults as long as the same kind of violation remains.
func minimise(t *testing.T, p *Plan, tag string, limit time.Duration) *Plan {
	start := time.Now()
	bad := func(q *Plan) bool {
		if time.Since(start) > limit {
			return false
		}
		if raceBuild { // each memory location is reported once per process
			return hasTag(inChild(q), tag)
		}
		return hasTag(runPlan(t, q, false), tag)
	}
	best := p.Clone()
	// nothing after the violation matters
	res := runPlan(t, best, false)
	for _, v := range res.Violations {
		if v.Tag == tag {
			q := best.Clone()
			q.Ops = nil
			for _, o := range best.Ops {
				if o.At <= v.Time {
					q.Ops = append(q.Ops, o)
				}
			}
			if bad(q) {
				best = q
			}
			break
		}
	}
	for n := 2; len(best.Ops) > 0 && n <= 2*len(best.Ops); {
		size := (len(best.Ops) + n - 1) / n
		shrunk := false
		for i := 0; i < len(best.Ops); i += size {
			q := best.Clone()
			q.Ops = append(append([]Op{}, best.Ops[:i]...), best.Ops[min(len(best.Ops), i+size):]...)
			if bad(q) {
				best, shrunk = q, true
				n = max(n-1, 2)
				break
			}
		}
		if !shrunk {
			if size == 1 {
				break
			}
			n = min(2*n, len(best.Ops))
			if n < 2 {
				break
			}
		}
		if time.Since(start) > limit {
			break
		}
	}
	// single faults and deliveries
	for changed := true; changed && time.Since(start) < limit; {
		changed = false
		for i := range best.Ops {
			try := func(f func(*Op)) {
				q := best.Clone()
				f(&q.Ops[i])
				if bad(q) {
					best, changed = q, true
				}
			}
			if best.Ops[i].Crash != nil {
				try(func(o *Op) { o.Crash = nil })
			}
			if best.Ops[i].Ent != nil {
				try(func(o *Op) { o.Ent = nil })
			}
			for j := 0; j < len(best.Ops[i].Dl); j++ {
				l := len(best.Ops[i].Dl)
				try(func(o *Op) { o.Dl = append(append([]Dl{}, o.Dl[:j]...), o.Dl[j+1:]...) })
				if len(best.Ops[i].Dl) < l {
					j--
					continue
				}
				if best.Ops[i].Dl[j].Crash != nil {
					try(func(o *Op) { o.Dl[j].Crash = nil })
				}
				if best.Ops[i].Dl[j].Ent != nil {
					try(func(o *Op) { o.Dl[j].Ent = nil })
				}
			}
			if best.Ops[i].Pt > 16 {
				try(func(o *Op) { o.Pt = 12 })
			}
		}
	}
	return best
}

// ---------------------------------------------------------------- parent process

type agg struct {
	mu       sync.Mutex
	runs     int
	steps    int64
	simMs    int64
	counts   map[string]int64
	traces   map[uint64]bool
	nontriv  map[uint64]bool
	scen     map[string]int64
	bad      map[int]*Result // failing runs
	traceOf  map[int]uint64
	dead     map[int]string // runs in which the process died or hung
	samples  []string
	ended    int
	slowest  time.Duration
	problems []string
}

const hangAfter = 90 * time.Second

// child runs a worker process and calls line for every line it prints.
func child(mode string, c workerCfg, quiet time.Duration, line func(string)) (why string) {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "-test.run=^TestWorker$", "-test.timeout=0")
	b, _ := json.Marshal(c)
	cmd.Env = append(os.Environ(), "SIM_MODE="+mode, "SIM_CFG="+string(b), "GOMAXPROCS=2", "GOTRACEBACK=single")
	if raceBuild {
		dir, err := os.MkdirTemp("", "verifsim.race.")
		if err != nil {
			return "start: " + err.Error()
		}
		defer os.RemoveAll(dir)
		log := filepath.Join(dir, "log")
		cmd.Env = append(cmd.Env, "SIM_RACELOG="+log, "GORACE=halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+log)
	}
	var errBuf tailBuf
	cmd.Stderr = &errBuf
	pipe, err := cmd.StdoutPipe()
	if err != nil {
		return "start: " + err.Error()
	}
	if err := cmd.Start(); err != nil {
		return "start: " + err.Error()
	}
	done := make(chan struct{})
	act := make(chan struct{}, 1)
	hung := false
	ended := false
	go func() {
		s := bufio.NewReaderSize(pipe, 1<<20)
		for {
			l, err := s.ReadString('\n')
			if l != "" {
				select {
				case act <- struct{}{}:
				default:
				}
				l = strings.TrimRight(l, "\n")
				if l == "E" {
					ended = true
				} else {
					line(l)
				}
			}
			if err != nil {
				break
			}
		}
		close(done)
	}()
	tm := time.NewTimer(quiet)
loop:
	for {
		select {
		case <-done:
			break loop
		case <-act:
			tm.Reset(quiet)
		case <-tm.C:
			hung = true
			cmd.Process.Kill()
			<-done
			break loop
		}
	}
	err = cmd.Wait()
	if hung {
		return "hang"
	}
	if !ended {
		return fmt.Sprintf("process ended: %v\n%s", err, errBuf.String())
	}
	return ""
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 4000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) > 3000 {
		return string(t.b[:3000])
	}
	return string(t.b)
}

func parentMain() int {
	fs := flag.NewFlagSet("sim", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "quick or thorough")
	seed := fs.Uint64("seed", 1, "seed")
	dir := fs.String("verif", "/verif", "output directory")
	replay := fs.String("replay", "", "replay this file")
	workers := fs.Int("workers", runtime.NumCPU(), "worker processes")
	runs := fs.Int("runs", 0, "number of runs (0: by tier)")
	secs := fs.Int("secs", 0, "time limit of the search in seconds (0: by tier)")
	first := fs.Bool("first", false, "print the first failing run only, no minimisation")
	dump := fs.Int("dump", -1, "write the plan of this run to the standard output")
	fs.Parse(os.Args[1:])
	if *dump >= 0 {
		b, _ := json.MarshalIndent(replayFile{Plan: planFor(*prop, *seed, *dump)}, "", " ")
		fmt.Println(string(b))
		return 0
	}
	if *replay != "" {
		return doReplay(*replay)
	}
	d := props[*prop]
	if d == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	start := time.Now()
	n := d.quick
	limit := 420
	if *tier == "thorough" {
		n, limit = d.thor, 1500
	}
	if *runs > 0 {
		n = *runs
	}
	if *secs > 0 {
		limit = *secs
	}
	a := &agg{counts: map[string]int64{}, traces: map[uint64]bool{}, nontriv: map[uint64]bool{}, scen: map[string]int64{}, bad: map[int]*Result{}, dead: map[int]string{}, traceOf: map[int]uint64{}}
	var wg sync.WaitGroup
	hangs := 0
	for k := 0; k < *workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for off, tries := k, 0; off < n && tries < 4; tries++ {
				cur := -1
				left := limit - int(time.Since(start).Seconds())
				if left <= 0 {
					return
				}
				why := child("runs", workerCfg{Prop: *prop, Seed: *seed, Offset: off, Stride: *workers, Runs: n, Secs: left}, hangAfter, func(l string) {
					switch {
					case strings.HasPrefix(l, "S "):
						fmt.Sscanf(l, "S %d", &cur)
					case strings.HasPrefix(l, "R "):
						a.take(l)
						cur = -1
					}
				})
				if why == "" {
					return
				}
				a.mu.Lock()
				if cur < 0 {
					a.problems = append(a.problems, why)
					a.mu.Unlock()
					return
				}
				a.dead[cur] = why
				if why == "hang" {
					hangs++
				}
				stop := len(a.dead) > 8 || hangs > 1
				a.mu.Unlock()
				if stop {
					return
				}
				off = cur + *workers
			}
		}(k)
	}
	wg.Wait()
	searchSecs := time.Since(start).Seconds()

	// a run whose process died or hung is tried again alone
	type badRun struct {
		i   int
		tag string
	}
	var bads []badRun
	confirmed := map[int]string{}
	var deadRuns []int
	for i := range a.dead {
		deadRuns = append(deadRuns, i)
	}
	sort.Ints(deadRuns)
	for n, i := range deadRuns {
		why := a.dead[i]
		if n > 0 && len(confirmed) > 0 || n > 2 {
			break
		}
		again := child("runs", workerCfg{Prop: *prop, Seed: *seed, List: []int{i}}, hangAfter, func(l string) {
			if strings.HasPrefix(l, "R ") {
				a.take(l)
			}
		})
		if again != "" {
			confirmed[i] = again
			bads = append(bads, badRun{i, "process"})
		} else {
			a.problems = append(a.problems, fmt.Sprintf("run %d: %s (not repeated when run alone)", i, firstLines(why, 3)))
		}
	}
	for i, r := range a.bad {
		bads = append(bads, badRun{i, r.Violations[0].Tag})
	}
	sort.Slice(bads, func(x, y int) bool { return bads[x].i < bads[y].i })

	// exact repeatability: some runs once more in a fresh process
	same, differ := 0, 0
	if a.runs > 0 && len(bads) == 0 {
		var list []int
		for k := 0; k < 6; k++ {
			list = append(list, int(hash64("again", *seed, k)%uint64(n)))
		}
		child("runs", workerCfg{Prop: *prop, Seed: *seed, List: list}, hangAfter, func(l string) {
			if strings.HasPrefix(l, "R ") {
				var i int
				var r Result
				parseR(l, &i, &r)
				if x, ok := a.traceOf[i]; ok {
					if x == r.Trace {
						same++
					} else {
						differ++
					}
				}
			}
		})
	}

	code := 0
	reported := map[string]bool{}
	for _, b := range bads {
		if reported[b.tag] || len(reported) >= 3 {
			continue
		}
		reported[b.tag] = true
		code = 1
		p := planFor(*prop, *seed, b.i)
		path := filepath.Join(*dir, "replays", fmt.Sprintf("%s-seed%d-run%d-%s.json", *prop, *seed, b.i, b.tag))
		os.MkdirAll(filepath.Dir(path), 0755)
		if *first {
			fmt.Printf("run %d seed %d: %v\n", b.i, p.Seed, a.bad[b.i])
			continue
		}
		report(p, b.tag, path, confirmed[b.i], a.bad[b.i])
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
	}
	wall := time.Since(start).Seconds()
	a.evidence(*prop, *tier, *seed, *dir, n, searchSecs, wall, len(bads), same, differ, d)
	fmt.Printf("%s %s: %d of %d runs, %d distinct traces, %d non-trivial, %d steps, %.1f s simulated hours %.1f, failing runs %d\n", *prop, *tier, a.runs, n,
		len(a.traces), len(a.nontriv), a.steps, wall, float64(a.simMs)/3600000, len(bads))
	for _, p := range a.problems {
		fmt.Println("note:", p)
	}
	if code == 0 && a.runs == 0 {
		fmt.Fprintln(os.Stderr, "no run completed:", a.problems)
		return 2
	}
	return code
}

func parseR(l string, i *int, r *Result) {
	l = l[2:]
	k := strings.IndexByte(l, ' ')
	fmt.Sscanf(l[:k], "%d", i)
	json.Unmarshal([]byte(l[k+1:]), r)
}

func (a *agg) take(l string) {
	var i int
	var r Result
	parseR(l, &i, &r)
	a.mu.Lock()
	defer a.mu.Unlock()
	a.runs++
	a.steps += int64(r.Steps)
	a.simMs += r.SimMs
	a.scen[r.Scenario]++
	a.traceOf[i] = r.Trace
	for k, v := range r.Counts {
		a.counts[k] += v
	}
	a.traces[r.Trace] = true
	if r.Nontrivial > 0 {
		a.nontriv[r.Trace] = true
	}
	if len(r.Violations) > 0 {
		a.bad[i] = &r
	}
}

// report writes the replay file: minimised, and confirmed in a fresh process.
func report(p *Plan, tag, path, death string, first *Result) {
	save := func(q *Plan, note string, res *Result, log []string) {
		rf := replayFile{Plan: q, Note: note, Operations: len(q.Ops), Original: len(p.Ops), Trace: log}
		if res != nil {
			rf.Violations = res.Violations
			rf.TraceHash = fmt.Sprintf("%016x", res.Trace)
		}
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(path, b, 0644)
	}
	run := func() (*Result, []string, string) {
		var log []string
		var res *Result
		why := child("plan", workerCfg{File: path}, hangAfter, func(l string) {
			if strings.HasPrefix(l, "L ") {
				log = append(log, l[2:])
			}
			if strings.HasPrefix(l, "R ") {
				var i int
				res = &Result{}
				parseR(l, &i, res)
			}
		})
		return res, log, why
	}
	if death != "" {
		save(p, "the process running this plan does not survive: "+death, nil, nil)
		fmt.Println("  process:", firstLines(death, 12))
		return
	}
	save(p, "not minimised", first, nil)
	minPath := path + ".min"
	secs, quiet := 40, hangAfter
	if raceBuild {
		secs, quiet = 120, 2*hangAfter
	}
	why := child("min", workerCfg{File: path, Out: minPath, Secs: secs, Tag: tag}, quiet, func(string) {})
	q := p
	note := ""
	if why == "" {
		q = loadPlan(minPath)
	} else {
		note = "not minimised: " + firstLines(why, 2)
	}
	os.Remove(minPath)
	save(q, note, first, nil)
	r1, log, w1 := run()
	r2, _, w2 := run()
	if w1 != "" || w2 != "" || !hasTag(r1, tag) || !hasTag(r2, tag) || r1.Trace != r2.Trace {
		// the minimised plan does not repeat; keep the full one
		save(p, "full plan; the minimised one does not repeat exactly", first, nil)
		r1, log, w1 = run()
		if w1 != "" || !hasTag(r1, tag) {
			save(p, "the run does not repeat exactly in a fresh process", first, nil)
			r1 = first
		} else {
			save(p, "full plan; the minimised one does not repeat exactly", r1, log)
		}
	} else {
		save(q, "replayed twice in fresh processes with the same trace", r1, log)
	}
	for i, v := range r1.Violations {
		if i < 3 {
			fmt.Printf("  [%s] step %d, %d ms: %s\n", v.Tag, v.Step, v.Time, v.Msg)
		}
	}
	fmt.Printf("  %d operations (of %d)\n", len(q.Ops), len(p.Ops))
}

func doReplay(file string) int {
	bad := false
	why := child("plan", workerCfg{File: file}, hangAfter, func(l string) {
		if strings.HasPrefix(l, "L ") {
			fmt.Println(l[2:])
		}
		if strings.HasPrefix(l, "R ") {
			var i int
			var r Result
			parseR(l, &i, &r)
			fmt.Printf("trace %016x, %d steps, counts %v\n", r.Trace, r.Steps, r.Counts)
			for _, v := range r.Violations {
				fmt.Printf("[%s] %s\n", v.Tag, v.Msg)
				bad = true
			}
		}
	})
	if why != "" {
		fmt.Println(why)
		bad = true
	}
	if bad {
		fmt.Printf("VIOLATION property=%s replay=%s\n", loadPlan(file).Property, file)
		return 1
	}
	fmt.Println("no violation")
	return 0
}

func (a *agg) evidence(prop, tier string, seed uint64, dir string, planned int, search, wall float64, bad, same, differ int, d *propDef) {
	faults, other, model := map[string]int64{}, map[string]int64{}, map[string]int64{}
	for k, v := range a.counts {
		switch {
		case strings.HasPrefix(k, "fault:"):
			faults[k[6:]] = v
		case strings.HasPrefix(k, "model:"):
			model[k[6:]] = v
		default:
			other[k] = v
		}
	}
	var samples []interface{}
	for k := 0; k < 2 && planned > 0; k++ {
		p := planFor(prop, seed, k)
		full := len(p.Ops)
		if len(p.Ops) > 6 {
			p.Ops = p.Ops[:6]
		}
		samples = append(samples, map[string]interface{}{"run": k, "trace_hash": fmt.Sprintf("%016x", a.traceOf[k]), "operations": full, "plan_start": p})
	}
	perHour := 0.0
	if search > 0 {
		perHour = float64(a.runs) / search * 3600
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": bad,
		"assumptions": append([]string{"Go runtime and standard library primitives (X25519, HMAC, AES, SHA-256) are correct", "the stores return an independent copy on every load, unless a run says it uses live objects"}, d.assume...),
		"coverage": map[string]interface{}{
			"evaluations":         a.runs,
			"distinct_nontrivial": len(a.nontriv),
			"rule": "one evaluation = one simulated run (schedule and faults drawn from one seed, executed against the real library and compared with the reference model at every step); " +
				"two runs are distinct when the hash over their whole event trace (every operation, its outcome, every message digest) differs; a run is non-trivial when at least one fault, manipulated or repeated input, or property-specific probe took effect in it",
			"samples":                             samples,
			"planned_runs":                        planned,
			"distinct_traces":                     len(a.traces),
			"simulated_steps":                     a.steps,
			"simulated_hours":                     float64(a.simMs) / 3600000,
			"runs_and_seeds_per_hour":             int64(perHour),
			"search_seconds":                      search,
			"faults_injected":                     faults,
			"model_verdicts":                      model,
			"events":                              other,
			"scenarios":                           a.scen,
			"repeatability_checks_same":           same,
			"repeatability_checks_different":      differ,
			"components_real":                     realOf(d),
			"components_stubbed":                  stubOf(d),
			"runs_with_violation":                 bad,
			"processes_that_died_or_hung":         len(a.dead),
			"broken_expectations_that_are_judged": d.tags,
		},
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, "evidence", prop+".json"), append(b, '\n'), 0644)
}

func realOf(d *propDef) string {
	if d.real != "" {
		return d.real
	}
	return "all packages of libsignal-protocol-go that the scenario uses, unmodified: session, groups, ratchet, keys, state/record, protocol, serialize (protocol buffers and JSON), ecc, cipher, kdf, util"
}
func stubOf(d *propDef) string {
	if d.stubs != "" {
		return d.stubs
	}
	return "stores (in-memory, byte-exact, with crash points), network, clock (virtual), crypto/rand.Reader (seeded, with faults), logger (yield point only), prekey server"
}
