// Package sim is a deterministic simulator for libsignal-protocol-go: it runs devices, their
// durable stores, the network, the entropy source and the clock inside one process, executes a
// plan (schedule + faults) derived from one seed, and compares every step with a symbolic model.
package sim

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	mrand "math/rand/v2"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
)

// ---------------------------------------------------------------- pseudo random numbers

// RNG is splitmix64; it never changes with the Go version.
type RNG struct{ s uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{seed} }

func (r *RNG) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *RNG) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *RNG) Range(a, b int) int   { return a + r.N(b-a+1) }
func (r *RNG) P(percent int) bool   { return r.N(100) < percent }
func (r *RNG) Permille(pm int) bool { return r.N(1000) < pm }
func (r *RNG) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		v := r.U64()
		for j := i; j < n && j < i+8; j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
	return b
}

// Pick chooses an index with the given weights.
func (r *RNG) Pick(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.N(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return len(w) - 1
}
func (r *RNG) Str(xs ...string) string { return xs[r.N(len(xs))] }
func (r *RNG) Fork() *RNG              { return NewRNG(r.U64()) }

func hash64(parts ...interface{}) uint64 {
	h := sha256.New()
	for _, p := range parts {
		fmt.Fprintf(h, "%v|", p)
	}
	return binary.LittleEndian.Uint64(h.Sum(nil))
}

// ---------------------------------------------------------------- entropy source

// EntFault makes one entropy request fail or come in pieces.
type EntFault struct {
	At    int    `json:"at"`    // index of the request within the operation
	Kind  string `json:"kind"`  // "error", "partial" (some bytes, then error), "short" (pieces, no error)
	Bytes int    `json:"bytes"` // bytes handed out before the fault
}

// Entropy replaces crypto/rand.Reader. Every operation gets its own stream, so that leaving an
// operation out of a plan does not change the randomness of the others.
type Entropy struct {
	mu       sync.Mutex
	seed     uint64
	src      *mrand.ChaCha8
	fault    *EntFault
	requests int
	pieces   bool // hand data out in small pieces
	Log      [][]byte
	Failed   int
	yield    func()
	ck       func() // called on each request (yield point)
	tap      func([]byte)
}

var errEntropy = fmt.Errorf("simulated entropy failure")

func (e *Entropy) Start(seed uint64, f *EntFault) {
	e.mu.Lock()
	defer e.mu.Unlock()
	var s [32]byte
	binary.LittleEndian.PutUint64(s[:], seed)
	copy(s[8:], "simulated entropy")
	e.src = mrand.NewChaCha8(s)
	e.fault = f
	e.requests = 0
	e.Log = nil
	e.Failed = 0
	e.pieces = f != nil && f.Kind == "short"
}

// fatalCaller tells whether crypto/rand.Read is on the stack: it ends the process on an error.
func fatalCaller() bool {
	return strings.Contains(string(debug.Stack()), "crypto/rand.Read(")
}

func (e *Entropy) Read(b []byte) (int, error) {
	if e.ck != nil {
		e.ck()
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if len(b) == 0 {
		return 0, nil
	}
	idx := e.requests
	e.requests++
	n := len(b)
	if f := e.fault; f != nil && f.Kind != "short" && idx == f.At && !fatalCaller() {
		k := 0
		if f.Kind == "partial" {
			k = f.Bytes
			if k >= n {
				k = n - 1
			}
		}
		e.src.Read(b[:k])
		e.Failed++
		return k, errEntropy
	}
	if e.pieces {
		k := 1 + e.fault.Bytes
		if k < n {
			n = k
		}
	}
	e.src.Read(b[:n])
	e.Log = append(e.Log, append([]byte(nil), b[:n]...))
	if e.tap != nil {
		e.tap(b[:n])
	}
	return n, nil
}

var _ io.Reader = (*Entropy)(nil)

// Delivered returns all bytes handed out since Start.
func (e *Entropy) Delivered() []byte {
	var all []byte
	for _, l := range e.Log {
		all = append(all, l...)
	}
	return all
}

// ---------------------------------------------------------------- plans

// Plan is one fully determined execution: a schedule and the faults injected into it.
type Plan struct {
	Property string `json:"property"`
	Scenario string `json:"scenario"`
	Seed     uint64 `json:"seed"`
	Cfg      Cfg    `json:"cfg"`
	Ops      []Op   `json:"ops"`
}

// Cfg configures the simulated world.
type Cfg struct {
	Nodes    int      `json:"nodes"`
	Names    []string `json:"names,omitempty"`
	Devs     []uint32 `json:"devs,omitempty"`
	Ser      string   `json:"ser"`           // "proto" or "json"
	Mix      bool     `json:"mix,omitempty"` // records are stored in the other format, and converted now and then
	Store    string   `json:"store"`         // "bytes" or "live"
	Cached   bool     `json:"cached"`
	OTPKs    int      `json:"otpks"`
	Hash     bool     `json:"hash,omitempty"`
	SaveKeys bool     `json:"savekeys,omitempty"`
	Alias    bool     `json:"alias,omitempty"` // canaries around every buffer
	Reload   bool     `json:"reload,omitempty"`
	Steal    bool     `json:"steal,omitempty"`
	EntCheck bool     `json:"entcheck,omitempty"`
	Ids      uint64   `json:"ids,omitempty"`   // not 0: unusual prekey ids and registration ids, drawn from this
	Share    int      `json:"share,omitempty"` // 1: neighbouring devices have the same identity key, 2: all have
	X        int      `json:"x,omitempty"`
	Y        int      `json:"y,omitempty"`
}

// Crash stops the device at a store operation of the current call.
type Crash struct {
	At    int  `json:"at"`
	After bool `json:"after"` // the store operation still takes effect
}

// Dl is one delivery of a message.
type Dl struct {
	Delay int64     `json:"d"`
	Mode  string    `json:"m,omitempty"` // "" genuine; otherwise a kind of manipulation
	To    int       `json:"to,omitempty"`
	As    int       `json:"as,omitempty"`
	P     int64     `json:"p,omitempty"`
	Q     int64     `json:"q,omitempty"`
	Crash *Crash    `json:"crash,omitempty"`
	Ent   *EntFault `json:"ent,omitempty"`
}

// Op is one scheduled operation.
type Op struct {
	ID    int       `json:"id"`
	At    int64     `json:"at"` // simulated milliseconds
	Kind  string    `json:"k"`
	A     int       `json:"a"`
	B     int       `json:"b"`
	G     int       `json:"g,omitempty"`
	N     int       `json:"n,omitempty"`
	M     int       `json:"mm,omitempty"`
	S     string    `json:"s,omitempty"`
	Pt    int       `json:"pt,omitempty"` // plaintext length
	Dl    []Dl      `json:"dl,omitempty"`
	Crash *Crash    `json:"crash,omitempty"`
	Ent   *EntFault `json:"ent,omitempty"`
}

func (p *Plan) Clone() *Plan {
	q := *p
	q.Ops = make([]Op, len(p.Ops))
	for i, o := range p.Ops {
		o.Dl = append([]Dl(nil), o.Dl...)
		q.Ops[i] = o
	}
	return &q
}

// ---------------------------------------------------------------- results

// Violation is a broken expectation.
type Violation struct {
	Tag  string `json:"tag"`
	Msg  string `json:"msg"`
	Step int    `json:"step"`
	Time int64  `json:"time_ms"`
}

// Result is what one simulated run produced.
type Result struct {
	Seed       uint64           `json:"seed"`
	Scenario   string           `json:"sc"`
	Violations []Violation      `json:"v,omitempty"`
	Trace      uint64           `json:"tr"`
	Steps      int              `json:"st"`
	SimMs      int64            `json:"ms"`
	Nontrivial int              `json:"nt"`
	Counts     map[string]int64 `json:"c,omitempty"`
	Log        []string         `json:"-"`
}

// Run is the context of one execution.
type Run struct {
	P      *Plan
	Ent    *Entropy
	Res    *Result
	Now    int64
	Step   int
	trace  [32]byte
	Keep   bool // keep the textual trace
	tags   map[string]bool
	MaxLog int
}

func (r *Run) Count(name string, n int64) {
	r.Res.Counts[name] += n
}

// Event adds to the trace that identifies the execution.
func (r *Run) Event(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	h := sha256.New()
	h.Write(r.trace[:])
	h.Write([]byte(s))
	copy(r.trace[:], h.Sum(nil))
	if r.Keep {
		r.Res.Log = append(r.Res.Log, fmt.Sprintf("[%8dms] %s", r.Now, s))
	}
}

func (r *Run) Fail(tag, format string, a ...interface{}) {
	if r.tags != nil && !r.tags[tag] { // belongs to another property
		r.Count("not judged here: "+tag, 1)
		if r.Keep {
			r.Res.Log = append(r.Res.Log, fmt.Sprintf("[%8dms] (not judged here: %s) %s", r.Now, tag, fmt.Sprintf(format, a...)))
		}
		return
	}
	if len(r.Res.Violations) >= 50 {
		return
	}
	msg := fmt.Sprintf(format, a...)
	r.Res.Violations = append(r.Res.Violations, Violation{tag, msg, r.Step, r.Now})
	if r.Keep {
		r.Res.Log = append(r.Res.Log, fmt.Sprintf("[%8dms] VIOLATION(%s) %s", r.Now, tag, msg))
	}
}

func (r *Run) finish() {
	r.Res.Trace = binary.LittleEndian.Uint64(r.trace[:])
	r.Res.Steps = r.Step
	r.Res.SimMs = r.Now
}

func short(b []byte) string {
	if len(b) > 6 {
		b = b[:6]
	}
	return hex.EncodeToString(b)
}

func digest(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:8])
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// plaintext makes the deterministic plaintext of a message.
func plaintext(seed uint64, id, n int) []byte {
	r := NewRNG(hash64("pt", seed, id))
	b := r.Bytes(n)
	switch r.N(8) {
	case 0:
		for i := range b {
			b[i] = 0
		}
	case 1: // looks like padding
		for i := range b {
			b[i] = byte(16)
		}
	case 2:
		for i := range b {
			b[i] = byte(n%16 + 1)
		}
	case 3:
		copy(b, fmt.Sprintf("message %d of seed %d", id, seed))
	}
	// keep messages of sufficient length distinct
	if n >= 12 {
		binary.LittleEndian.PutUint32(b[n/2:], uint32(id)+1)
	}
	return b
}
