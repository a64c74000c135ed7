package sim

import (
	gratchet "github.com/prospik/libsignal-protocol-go/groups/ratchet"
	grecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/state/record"
)

// Warps make long histories cheap: both ends of a chain are moved forward as if very many messages
// had been sent and received on it, so that counters pass the widths of the integers they are kept
// in. Messages that are under way when the chain moves are then too old, and copies of the chain
// that were not moved are too far behind, exactly as the reference model says.

var warpTo = []uint32{1 << 15, 1 << 16, 1 << 17, 1 << 21, 1 << 24, 1 << 28, 1 << 31, 3 << 30, 0xF0000000, warpTop}

const warpMin = 12000

// warpTop leaves room for the rest of a run; sums of a counter and a limit exceed 32 bits from here on.
const warpTop = 1<<32 - 1200

// warpBy says how far a chain at counter next is moved.
func (w *World) warpBy(o *Op, next uint32) uint32 {
	r := NewRNG(hash64("warp", w.P.Seed, o.ID))
	if r.P(50) && next < 1<<30 { // the low bits are or become again what they were
		return []uint32{1 << 16, 1 << 16, 1 << 24, 1 << 17}[r.N(4)] - uint32(r.N(int(min(next+1, 20))))
	}
	for k := r.N(len(warpTo)); k < len(warpTo); k++ {
		if warpTo[k] == warpTop && o.M > 0 { // much is still to be sent
			continue
		}
		to := warpTo[k] - uint32(r.N(5))
		if warpTo[k] == warpTop {
			to -= uint32(r.N(700))
		}
		if to > next && to-next >= warpMin {
			return to - next
		}
	}
	return 0
}

// editSession changes the stored session record of n with address a.
func (w *World) editSession(n *Node, a string, f func(*record.SessionStructure)) {
	raw := n.image().Sessions[a]
	st, err := n.Ser.Session.Deserialize(append([]byte(nil), raw...))
	if err != nil {
		w.R.Fail("reload", "stored session does not decode: %v", err)
		return
	}
	f(st)
	b := append([]byte(nil), n.Ser.Session.Serialize(st)...)
	if n.liveSess != nil {
		r, err := record.NewSessionFromBytes(b, n.Ser.Session, n.Ser.State)
		if err != nil {
			w.R.Fail("reload", "stored session does not load: %v", err)
			return
		}
		n.liveSess[a] = r
		return
	}
	n.D.Sessions[a] = b
}

func (w *World) opWarp(o *Op, a, b *Node) {
	ra, rb := w.recs[a.Idx][b.Key()], w.recs[b.Idx][a.Key()]
	if a == b || ra == nil || ra.cur == nil || rb == nil {
		return
	}
	s := ra.cur
	var c *mChain
	for _, x := range append([]*mSess{rb.cur}, rb.prev...) {
		if x == nil || x.sid != s.sid {
			continue
		}
		for _, y := range x.recv {
			if y.tok == s.sendTok && y.off == s.sendOff {
				c = y
			}
		}
	}
	if c == nil {
		return
	}
	wire := w.toks[s.sendTok].wire
	if len(wire) == 0 {
		return
	}
	by := w.warpBy(o, max(s.sendNext, c.next))
	if by == 0 {
		return
	}
	hits := 0
	w.editSession(a, b.Key(), func(st *record.SessionStructure) {
		if x := st.SessionState; x != nil && x.SenderChain != nil && eq(x.SenderChain.SenderRatchetKeyPublic, wire) && x.SenderChain.ChainKey != nil {
			x.SenderChain.ChainKey.Index += by
			hits++
		}
	})
	w.editSession(b, a.Key(), func(st *record.SessionStructure) {
		for _, x := range append([]*record.StateStructure{st.SessionState}, st.PreviousStates...) {
			if x == nil {
				continue
			}
			for _, y := range x.ReceiverChains {
				if eq(y.SenderRatchetKeyPublic, wire) && y.ChainKey != nil {
					y.ChainKey.Index += by
					hits++
				}
			}
		}
	})
	if hits != 2 {
		w.R.Fail("durable", "a chain both ends hold is stored %d times", hits)
		return
	}
	s.sendNext, s.sendOff = s.sendNext+by, s.sendOff+by
	c.next, c.off = c.next+by, c.off+by
	w.R.Count("chains fast-forwarded", 1)
	w.R.Event("warp %d %d %d", a.Idx, b.Idx, s.sendNext)
}

func (w *World) opGWarp(o *Op, a *Node) {
	name := skKey(w.skName(o.G, a))
	rec := w.g.rec(a.Idx)[name]
	if rec == nil || len(rec.states) == 0 || !rec.states[0].own {
		return
	}
	own := rec.states[0]
	k, off := w.g.keys[own.key], own.off
	next := own.next
	for i := range w.nodes {
		if r := w.g.rec(i)[name]; r != nil {
			for _, st := range r.states {
				if st.key == k.id && st.off == own.off {
					next = max(next, st.next)
				}
			}
		}
	}
	by := w.warpBy(o, next)
	if by == 0 {
		return
	}
	for i, n := range w.nodes {
		r := w.g.rec(i)[name]
		if r == nil {
			continue
		}
		var move []int
		for j, st := range r.states {
			if st.key == k.id && st.off == off {
				st.next, st.off = st.next+by, st.off+by
				move = append(move, j)
			}
		}
		if len(move) == 0 {
			continue
		}
		raw := n.image().Sender[name]
		st, err := n.Ser.SenderKeyRecord.Deserialize(append([]byte(nil), raw...))
		if err != nil {
			w.R.Fail("reload", "stored sender key does not decode: %v", err)
			return
		}
		for _, j := range move {
			if j >= len(st.SenderKeyStates) || st.SenderKeyStates[j].KeyID != k.keyID || !eq(st.SenderKeyStates[j].SigningKeyPublic, k.signing) || st.SenderKeyStates[j].SenderChainKey == nil {
				w.R.Fail("durable", "a sender key state of %s is not stored", name)
				return
			}
			st.SenderKeyStates[j].SenderChainKey.Iteration += by
		}
		b := append([]byte(nil), n.Ser.SenderKeyRecord.Serialize(st)...)
		if n.liveSK != nil {
			x, err := grecord.NewSenderKeyFromBytes(b, n.Ser.SenderKeyRecord, n.Ser.SenderKeyState)
			if err != nil {
				w.R.Fail("reload", "stored sender key does not load: %v", err)
				return
			}
			n.liveSK[name] = x
			continue
		}
		n.D.Sender[name] = b
	}
	k.warps = append(k.warps, gWarp{own.next - by, own.next, by})
	w.R.Count("chains fast-forwarded", 1)
	w.R.Event("gwarp %d g%d %d", a.Idx, o.G, own.next)
}

// gWarp: iterations from..to-1 were jumped over.
type gWarp struct{ from, to, by uint32 }

// position is the number of steps from the first chain key to iteration it.
func (k *gKey) position(it uint32) (uint32, bool) {
	p := it
	for _, x := range k.warps {
		if it >= x.to {
			p -= x.by
		} else if it >= x.from {
			return 0, false
		}
	}
	return p, true
}

// messageKey is the message key of iteration it, nil if there is none.
func (k *gKey) messageKey(it uint32) *gratchet.SenderMessageKey {
	p, ok := k.position(it)
	if !ok {
		return nil
	}
	ck := gratchet.NewSenderChainKey(0, k.seed)
	for ck.Iteration() < p {
		ck = ck.Next()
	}
	mk, err := ck.SenderMessageKey()
	if err != nil {
		return nil
	}
	return mk
}
