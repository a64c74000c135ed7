package sim

// The symbolic reference model of pairwise sessions. It knows nothing about cryptography: a message
// is accepted exactly when an ideal Double Ratchet with the documented limits would accept it.

const (
	maxFuture   = 5000
	maxSkipped  = 2000
	maxChains   = 5
	maxArchived = 40
	lastResort  = 0xFFFFFF
)

// gSess is one session as it was initiated: the truth about who opened it with which keys.
type gSess struct {
	id        int
	init      int    // initiating node
	initIdent []byte // its identity key at that time
	peerIdent []byte // identity key in the bundle
	base      []byte // base key, known after the first message
	spk       uint32
	spkPub    []byte
	hasOTPK   bool
	otpk      uint32
	otpkPub   []byte
	reg       uint32 // initiator's registration id
	peerReg   uint32
	spkTok    int
	target    string      // address the initiator sends to
	opens     map[int]int // node -> how often it opened this session
	fresh     bool
}

// tok is one sending chain.
type tok struct {
	id      int
	owner   int // node, -1: signed prekey
	sess    int
	basedOn int // the peer's chain it answers, -1 none
	wire    []byte
	born    int // step at which it was generated
}

type mChain struct {
	tok     int
	next    uint32
	skipped []uint32
	off     uint32 // how far it was moved forward
}

type mSess struct {
	sid       int
	peerIdent []byte
	peerReg   uint32
	recv      []*mChain
	sendTok   int
	sendNext  uint32
	sendOff   uint32
	prev      uint32
	unacked   bool
	initiator bool
}

type mRec struct {
	cur  *mSess
	prev []*mSess
}

func (s *mSess) clone() *mSess {
	c := *s
	c.recv = make([]*mChain, len(s.recv))
	for i, r := range s.recv {
		x := *r
		x.skipped = append([]uint32(nil), r.skipped...)
		c.recv[i] = &x
	}
	return &c
}

func (r *mRec) clone() *mRec {
	if r == nil {
		return nil
	}
	c := &mRec{cur: r.cur}
	if r.cur != nil {
		c.cur = r.cur.clone()
	}
	for _, s := range r.prev {
		c.prev = append(c.prev, s.clone())
	}
	return c
}

func (r *mRec) archive() {
	if r.cur != nil {
		r.prev = append([]*mSess{r.cur}, r.prev...)
		if len(r.prev) > maxArchived {
			r.prev = r.prev[:maxArchived]
		}
	}
	r.cur = nil
}

func (r *mRec) has(sid int) bool {
	if r == nil {
		return false
	}
	if r.cur != nil && r.cur.sid == sid {
		return true
	}
	for _, s := range r.prev {
		if s.sid == sid {
			return true
		}
	}
	return false
}

// gmsg is a genuine pairwise message as its author made it.
type gmsg struct {
	label   int
	from    int // author node
	to      int // intended node
	sid     int
	tok     int
	ctr     uint32
	pt      []byte
	wire    []byte
	prekey  bool
	sig     *wSig
	pre     *wPre
	step    int
	got     map[int]bool // nodes that reported its plaintext
	unsure  map[int]bool // nodes whose state may or may not have consumed it
	keys    []byte       // cipher key, when a receiver reported it
	keysObj map[int]*savedKeys
	obj     map[string]interface{}
	final   bool
	lenient bool
	sent    int64
	author  *authorKeys
}

// authorKeys is what the author of a message knew when it made it.
type authorKeys struct{ cipher, mac, iv, from, to []byte }

// attempt tries to receive m in s (which is modified only on success).
func (w *World) attempt(n int, s *mSess, m *gmsg) (*mSess, bool) {
	if s == nil || m == nil || m.sid != s.sid || m.from == n {
		return nil, false
	}
	var ch *mChain
	idx := -1
	for i, c := range s.recv {
		if c.tok == m.tok {
			ch, idx = c, i
		}
	}
	if ch != nil {
		if m.ctr < ch.next {
			for i, k := range ch.skipped {
				if k == m.ctr {
					c := s.clone()
					x := c.recv[idx]
					x.skipped = append(x.skipped[:i], x.skipped[i+1:]...)
					c.unacked = false
					return c, true
				}
			}
			return nil, false
		}
		if m.ctr-ch.next > maxFuture {
			return nil, false
		}
	} else {
		if w.toks[m.tok].basedOn != s.sendTok {
			return nil, false
		}
		if m.ctr > maxFuture {
			return nil, false
		}
	}
	c := s.clone()
	if idx < 0 {
		c.recv = append(c.recv, &mChain{tok: m.tok})
		if len(c.recv) > maxChains {
			c.recv = c.recv[1:]
			w.R.Count("limit:chain evicted", 1)
		}
		idx = len(c.recv) - 1
		c.prev = 0
		if c.sendNext > 0 {
			c.prev = c.sendNext - 1
		}
		c.sendNext, c.sendOff = 0, 0
		c.sendTok = -1 // generated on commit
	}
	x := c.recv[idx]
	for x.next < m.ctr {
		x.skipped = append(x.skipped, x.next)
		if len(x.skipped) > maxSkipped {
			x.skipped = x.skipped[1:]
			w.R.Count("limit:skipped key evicted", 1)
		}
		x.next++
	}
	x.next = m.ctr + 1
	c.unacked = false
	return c, true
}

// inRecord tries the current and then the archived sessions.
func (w *World) inRecord(n int, r *mRec, m *gmsg) (*mRec, bool) {
	if r == nil || r.cur == nil || m == nil {
		return nil, false
	}
	if c, ok := w.attempt(n, r.cur, m); ok {
		q := r.clone()
		q.cur = c
		return q, true
	}
	for i, s := range r.prev {
		if c, ok := w.attempt(n, s, m); ok {
			q := r.clone()
			q.prev = append(append([]*mSess{}, q.prev[:i]...), q.prev[i+1:]...)
			q.prev = append([]*mSess{q.cur}, q.prev...)
			if len(q.prev) > maxArchived {
				q.prev = q.prev[:maxArchived]
			}
			q.cur = c
			return q, true
		}
	}
	return nil, false
}

// bind creates the sending chain a device generated while it received m.
func (w *World) bind(n int, r *mRec, m *gmsg) {
	if r.cur.sendTok == -1 {
		r.cur.sendTok = w.newTok(n, r.cur.sid, m.tok)
	}
}

func (w *World) newTok(owner, sid, basedOn int) int {
	t := &tok{id: len(w.toks), owner: owner, sess: sid, basedOn: basedOn, born: w.R.Step}
	w.toks = append(w.toks, t)
	return t.id
}

// verdict of the model for one presented message.
type verdict struct {
	accept bool
	newRec *mRec
	m      *gmsg // the genuine message inside
	opened bool  // opens a new session
	otpk   int64 // one-time prekey it consumes, -1 none
	g      *gSess
	why    string
}

func canon(b []byte) []byte {
	if len(b) > 33 {
		return b[:33]
	}
	return b
}

// judgeSig: an ordinary message presented to node n as coming from address a.
func (w *World) judgeSig(n *Node, a string, ws *wSig) *verdict {
	v := &verdict{otpk: -1}
	if ws == nil {
		v.why = "unparseable"
		return v
	}
	v.m = w.genuine[ws.id()]
	if v.m == nil {
		v.why = "not a message anybody sent"
		return v
	}
	rec := w.recs[n.Idx][a]
	if rec == nil {
		v.why = "no session"
		return v
	}
	q, ok := w.inRecord(n.Idx, rec, v.m)
	if !ok {
		v.why = "not acceptable in any held session"
		return v
	}
	return w.trusted(n, a, q, v)
}

func (w *World) trusted(n *Node, a string, q *mRec, v *verdict) *verdict {
	if pin, ok := n.D.Pins[a]; ok && !eq(pin, q.cur.peerIdent) {
		v.why = "identity not trusted"
		return v
	}
	v.accept, v.newRec = true, q
	return v
}

// judgePre: a session-opening message presented to node n as coming from address a.
func (w *World) judgePre(n *Node, a string, p *wPre) *verdict {
	v := &verdict{otpk: -1}
	if p == nil || p.Sig == nil {
		v.why = "unparseable"
		return v
	}
	v.m = w.genuine[p.Sig.id()]
	if p.Ver != 3 || len(p.Base) < 33 || len(p.Ident) < 33 {
		v.why = "bad header"
		return v
	}
	if pin, ok := n.D.Pins[a]; ok && !eq(pin, canon(p.Ident)) {
		v.why = "identity not trusted"
		return v
	}
	rec := w.recs[n.Idx][a]
	g := w.byBase[string(canon(p.Base))]
	if g != nil && rec.has(g.id) {
		q, ok := w.inRecord(n.Idx, rec, v.m)
		if !ok {
			v.why = "not acceptable in any held session"
			return v
		}
		return w.trusted(n, a, q, v)
	}
	if g == nil || v.m == nil {
		v.why = "opening nobody sent"
		return v
	}
	if _, ok := n.D.Signed[p.SPK]; !ok {
		v.why = "unknown signed prekey"
		return v
	}
	if p.HasOTPK {
		if _, ok := n.D.PreKeys[p.OTPK]; !ok {
			v.why = "one-time prekey gone"
			return v
		}
	}
	if v.m.sid != g.id || v.m.from != g.init || g.init == n.Idx || !eq(g.initIdent, canon(p.Ident)) || !eq(g.peerIdent, n.D.IdentPub) ||
		!eq(g.spkPub, n.spkPub[p.SPK]) || g.hasOTPK != p.HasOTPK || (g.hasOTPK && !eq(g.otpkPub, n.otpkPub[p.OTPK])) {
		v.why = "not authentic in its own session"
		return v
	}
	s := &mSess{sid: g.id, peerIdent: g.initIdent, peerReg: p.Reg, sendTok: g.spkTok}
	c, ok := w.attempt(n.Idx, s, v.m)
	if !ok {
		v.why = "too far ahead"
		return v
	}
	q := rec.clone()
	if q == nil {
		q = &mRec{}
	}
	q.archive()
	q.cur = c
	v.accept, v.newRec, v.opened, v.g = true, q, true, g
	if p.HasOTPK && p.OTPK != lastResort {
		v.otpk = int64(p.OTPK)
	}
	return v
}
