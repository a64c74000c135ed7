package sim

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"io"
	"runtime"
	"strconv"
	"testing/synctest"
)

// Cooperative scheduling of goroutines of the code under test: each goroutine stops at every seam
// (entropy request, log call, store operation, serializer call, completion callback) and goes on
// only when the scheduler says so. Only one goroutine runs at a time.

type coopTask struct {
	id    int
	gids  [16]int64 // the goroutines that belong to it
	ngid  int
	ent   *Entropy
	where string
	ch    chan struct{}
	state int // 0 running, 1 parked, 2 ended
	prio  int
	steps int
}

type coop struct {
	r     *Run
	main  int64
	tasks []*coopTask
	cur   *coopTask
	on    bool
	other *Entropy // for the scheduler's own goroutine
}

func gid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	if len(f) < 2 {
		return -1
	}
	v, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return v
}

func newCoop(r *Run) *coop {
	return &coop{r: r, main: gid(), other: r.Ent}
}

func (c *coop) newTask(entSeed uint64, f *EntFault) *coopTask {
	t := &coopTask{id: len(c.tasks), ent: &Entropy{}, ch: make(chan struct{})}
	t.ent.Start(entSeed, f)
	c.tasks = append(c.tasks, t)
	return t
}

// here finds the task of the calling goroutine.
//
//go:norace
func (c *coop) here() *coopTask {
	if !c.on {
		return nil
	}
	g := gid()
	if g == c.main {
		return nil
	}
	for _, t := range c.tasks {
		for i := 0; i < t.ngid; i++ {
			if t.gids[i] == g {
				return t
			}
		}
	}
	// a goroutine started by the task that runs now
	if c.cur != nil {
		c.cur.gids[c.cur.ngid%len(c.cur.gids)] = g
		if c.cur.ngid < len(c.cur.gids) {
			c.cur.ngid++
		}
	}
	return c.cur
}

// park stops the calling goroutine until it is released.
//
//go:norace
func (c *coop) park(where string) {
	t := c.here()
	if t == nil {
		return
	}
	if t.state == 1 {
		// a second goroutine of one task; it goes on together with the first
		return
	}
	t.where, t.state = where, 1
	raceOff()
	<-t.ch
	raceOn()
	raceIn()
}

// Read serves the entropy request of the task that makes it.
func (c *coop) Read(b []byte) (int, error) {
	t := c.here()
	if t == nil {
		return c.other.Read(b)
	}
	c.park("entropy")
	defer raceOut()
	return t.ent.Read(b)
}

var _ io.Reader = (*coop)(nil)

// begin runs f, which starts the task's goroutine or is its beginning, until everything is parked.
//
//go:norace
func (c *coop) begin(t *coopTask, f func()) {
	c.cur = t
	raceOut()
	f()
	raceOff()
	synctest.Wait()
	raceOn()
	raceIn()
	c.cur = nil
}

// release lets a parked task run to its next seam.
//
//go:norace
func (c *coop) release(t *coopTask) {
	c.cur = t
	t.state = 0
	t.steps++
	c.r.Step++
	c.r.Event("run %d after %s", t.id, t.where)
	raceOut()
	raceOff()
	t.ch <- struct{}{}
	synctest.Wait()
	raceOn()
	raceIn()
	c.cur = nil
}

//go:norace
func (c *coop) end() { c.here().state = 2 }

//go:norace
func (c *coop) parked() []*coopTask {
	var p []*coopTask
	for _, t := range c.tasks {
		if t.state == 1 {
			p = append(p, t)
		}
	}
	return p
}

// choose picks the next task. Policies: uniform, fixed random priorities with changes, one stalled.
func (c *coop) choose(r *RNG, policy, stalled int, p []*coopTask) *coopTask {
	switch policy {
	case 1:
		best := p[0]
		for _, t := range p {
			if t.prio > best.prio {
				best = t
			}
		}
		if r.P(8) {
			best.prio = r.N(1 << 20)
		}
		return best
	case 2: // one task only runs when no other can
		q := p[:0:0]
		for _, t := range p {
			if t.id != stalled {
				q = append(q, t)
			}
		}
		if len(q) > 0 {
			return q[r.N(len(q))]
		}
	}
	return p[r.N(len(p))]
}

// install replaces the process-wide entropy source and hooks the logger.
func (c *coop) install() {
	rand.Reader = c
	theLogger.hook = func() { c.park("log") }
	c.on = true
}
func (c *coop) uninstall() {
	c.on = false
	rand.Reader = c.other
	theLogger.hook = nil
}

var _ = fmt.Sprint
