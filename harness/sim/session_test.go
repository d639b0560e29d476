package sim

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"net/url"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"dripverif/engine"
	simnet "dripverif/shim/net"
	"dripverif/shim/sched"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/p2p"
	"github.com/browles/drip/storage"
)

// Wire format, written down independently of the code under test.

const (
	mChoke = iota
	mUnchoke
	mInterested
	mNotInterested
	mHave
	mBitfield
	mRequest
	mPiece
	mCancel
	mKeepalive = -1
)

var kindName = map[int]string{mChoke: "CHOKE", mUnchoke: "UNCHOKE", mInterested: "INTERESTED", mNotInterested: "NOT INTERESTED", mHave: "HAVE",
	mBitfield: "BITFIELD", mRequest: "REQUEST", mPiece: "PIECE", mCancel: "CANCEL", mKeepalive: "KEEPALIVE"}

type msg struct {
	kind            int
	index, begin, n int
	data            []byte
}

func (m msg) String() string {
	switch m.kind {
	case mHave:
		return fmt.Sprintf("HAVE %d", m.index)
	case mRequest, mCancel:
		return fmt.Sprintf("%s %d %d+%d", kindName[m.kind], m.index, m.begin, m.n)
	case mPiece:
		return fmt.Sprintf("PIECE %d %d+%d", m.index, m.begin, len(m.data))
	case mBitfield:
		return fmt.Sprintf("BITFIELD %x", m.data)
	}
	if s, ok := kindName[m.kind]; ok {
		return s
	}
	return fmt.Sprintf("message type %d", m.kind)
}

func u32(xs ...int) []byte {
	var b []byte
	for _, x := range xs {
		b = binary.BigEndian.AppendUint32(b, uint32(x))
	}
	return b
}

func frame(kind int, payload ...byte) []byte {
	if kind == mKeepalive {
		return u32(0)
	}
	return append(append(u32(1+len(payload)), byte(kind)), payload...)
}

func (m msg) bytes() []byte {
	switch m.kind {
	case mHave:
		return frame(mHave, u32(m.index)...)
	case mBitfield:
		return frame(mBitfield, m.data...)
	case mRequest, mCancel:
		return frame(m.kind, u32(m.index, m.begin, m.n)...)
	case mPiece:
		return frame(mPiece, append(u32(m.index, m.begin), m.data...)...)
	}
	return frame(m.kind)
}

func parseBody(b []byte) (msg, error) {
	if len(b) == 0 {
		return msg{kind: mKeepalive}, nil
	}
	m := msg{kind: int(b[0])}
	p := b[1:]
	want := -1
	switch m.kind {
	case mChoke, mUnchoke, mInterested, mNotInterested:
		want = 0
	case mHave:
		want = 4
	case mRequest, mCancel:
		want = 12
	case mPiece:
		if len(p) < 8 {
			return m, fmt.Errorf("PIECE of %d bytes", len(p))
		}
	case mBitfield:
	default:
		return m, fmt.Errorf("unknown type %d", m.kind)
	}
	if want >= 0 && len(p) != want {
		return m, fmt.Errorf("%s with %d payload bytes", kindName[m.kind], len(p))
	}
	at := func(i int) int { return int(binary.BigEndian.Uint32(p[4*i:])) }
	switch m.kind {
	case mHave:
		m.index = at(0)
	case mRequest, mCancel:
		m.index, m.begin, m.n = at(0), at(1), at(2)
	case mPiece:
		m.index, m.begin, m.data = at(0), at(1), p[8:]
	case mBitfield:
		m.data = p
	}
	return m, nil
}

const proto = "\x13BitTorrent protocol"

func handshake(hash, id [20]byte) []byte {
	return append(append(append([]byte(proto), make([]byte, 8)...), hash[:]...), id[:]...)
}

// ---- session ----

type session struct {
	told  map[int]bool // pieces announced to anyone while the process lived
	spare map[int]bool // pieces that an earlier session had announced
	t     *engine.T
	prop  string
	w     *world
	l     *layout
	net   *simnet.Net
	trk   *strk
	id    [20]byte
	port  int
	srv   *p2p.Server
	st    *storage.Storage
	rng   *rand.Rand

	mu       sync.Mutex // never held across anything that blocks
	props    []string
	viol     []string
	conns    []*sconn
	byApp    map[*simnet.End]*sconn
	verified map[int]time.Time
	expect   map[string]string // dialled address -> announced peer id
	labels   map[string]int
	drops    []drop
	lastAct  map[int]time.Time // last sign of work on a piece
	acts     map[int][]time.Time
	suspects []suspect
	ups      []sample // bytes sent in pieces
	downs    []sample // bytes read in pieces
	anns     []announce

	trackerURL *url.URL
	crowd      bool // more peers than fit: refusals are judged elsewhere

	startErr error
	done     chan struct{} // closed when Start returned
	over     chan struct{} // closed when the case ends: actors leave
	scale    time.Duration // longest single scheduling delay
	latency  time.Duration
	quiet    bool // observations are no longer judged (shutdown)
}

// violate records a violation; it is reported if it belongs to the property
// being checked.
func (s *session) violate(props, sig, format string, args ...any) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.violateLocked(props, sig, format, args...)
}

func (s *session) violateLocked(props, sig, format string, args ...any) {
	if !strings.Contains(props, s.prop) || len(s.viol) > 0 {
		return
	}
	s.viol = []string{sig, fmt.Sprintf("at %v: ", s.sinceStart()) + fmt.Sprintf(format, args...)}
}

func (s *session) sinceStart() time.Duration { return time.Since(epoch) }

// epoch is where every synctest bubble starts.
var epoch = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)

func (s *session) label(l string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.labels[l]++
}

// check reports recorded violations; root goroutine only.
func (s *session) check() {
	s.mu.Lock()
	s.settle()
	v := s.viol
	s.mu.Unlock()
	if len(v) > 0 {
		s.t.Failf(v[0], "%s", v[1])
	}
}

type swarmConf struct {
	link  simnet.Link
	prob  int // scheduling delays
	scale time.Duration
	seed  uint64
	stale bool
}

func genConf(t *engine.T) swarmConf {
	c := swarmConf{seed: t.Choice(1 << 40)}
	c.link.Seed = c.seed
	c.link.Latency = time.Duration(Pick(t, 0, 1, 20, 200, 400)) * time.Millisecond
	c.link.Jitter = time.Duration(Pick(t, 0, 1, 100, 300)) * time.Millisecond
	c.link.Window = Pick(t, 1<<18, 1<<16, 1<<15, 5000)
	c.link.Cut = Pick(t, 0, 0, 1<<14, 1000, 17)
	c.prob = Pick(t, 0, 2, 8)
	c.scale = time.Duration(Pick(t, 1, 100, 10000)) * time.Microsecond
	t.Notef("network: latency %v jitter %v window %d reads %d; delays %d/16 up to %v", c.link.Latency, c.link.Jitter, c.link.Window, c.link.Cut, c.prob, c.scale)
	return c
}

// newSession prepares a session; to be called in the bubble.
func newSession(t *engine.T, prop string, w *world, l *layout, c swarmConf) *session {
	s := &session{t: t, prop: prop, w: w, l: l, port: 6881, byApp: map[*simnet.End]*sconn{}, verified: map[int]time.Time{},
		told: map[int]bool{}, expect: map[string]string{}, labels: map[string]int{}, lastAct: map[int]time.Time{}, acts: map[int][]time.Time{}, done: make(chan struct{}), over: make(chan struct{}), scale: c.scale, latency: c.link.Latency,
		rng: rand.New(rand.NewPCG(c.seed, 77))}
	if c.prob == 0 {
		s.scale = 0
	}
	copy(s.id[:], "-DR0001-the-client-id")
	s.net = simnet.NewNet(c.link)
	s.net.OnConn = s.onConn
	simnet.Install(s.net)
	s.trk = &strk{s: s, over: s.over, interval: 60}
	trackerNow = s.trk
	s.st = storage.New(w.target, w.work, l.info)
	mi := &metainfo.Metainfo{Announce: "http://tracker.test/announce?passkey=a%26b", Info: l.info}
	s.trackerURL, _ = url.Parse(mi.Announce)
	s.srv = p2p.New(mi, s.id, s.st, s.port)
	sched.Start(c.seed, c.prob, max(c.scale, 1))
	return s
}

func (s *session) run() {
	go func() {
		s.startErr = s.srv.Start()
		close(s.done)
	}()
}

func (s *session) started() bool { return s.net.Listening(s.port) }

func (s *session) returned() bool {
	select {
	case <-s.done:
		return true
	default:
		return false
	}
}

// until waits until f holds, looking every step, at most limit.
func (s *session) until(limit, step time.Duration, f func() bool) bool {
	end := time.Now().Add(limit)
	for !f() {
		s.check()
		if !time.Now().Before(end) {
			return false
		}
		time.Sleep(step)
	}
	return true
}

// end stops everything; to be called last in the bubble, also on failure.
func (s *session) end() {
	s.mu.Lock()
	s.quiet = true
	s.mu.Unlock()
	sched.Stop()
	select {
	case <-s.over:
	default:
		close(s.over)
	}
	go s.srv.Stop()
	for range 600 {
		if s.returned() {
			return
		}
		time.Sleep(time.Second)
	}
}

// has looks a piece up in the client's bitfield, without a lock and without
// troubling the race detector.
//
//go:norace
func (s *session) has(i int) bool {
	b := s.st.Torrent.Bitfield
	return i >= 0 && i/8 < len(b) && b[i/8]&(0x80>>(i%8)) != 0
}

func (s *session) complete() bool {
	for i := range s.l.pieces() {
		if !s.has(i) {
			return false
		}
	}
	return true
}

// notePieces stamps pieces that have become complete; mu held.
func (s *session) notePieces() {
	for i := range s.l.pieces() {
		if _, ok := s.verified[i]; !ok && s.has(i) {
			s.verified[i] = time.Now()
		}
	}
}

// preload stores some pieces before the session starts.
func preload(t *engine.T, w *world, l *layout, have []int) {
	s := storage.New(w.target, w.work, l.info)
	if err := s.Load(); err != nil {
		t.Failf("load failed", "%v", err)
	}
	for _, i := range have {
		for b := range l.blocks(i) {
			if err := s.PutBlock(i, b*block, bytes.Clone(l.block(i, b))); err != nil {
				t.Failf("good block refused", "%v", err)
			}
		}
	}
}

// ---- what the client does on one connection ----

type sentMsg struct {
	msg
	upto int64 // the client has it when it has read this many bytes
	had  bool  // a request, for a piece that was verified by then
}

type blk struct{ index, begin, n int }

type pending struct {
	blk
	cancelled bool      // or not owed from the start
	at        time.Time // when the client read it
}

type sconn struct {
	s       *session
	app     *simnet.End
	inbound bool
	opened  time.Time
	act     *link // the simulated remote end

	// written by the client
	buf        []byte
	hs         bool // its handshake is complete
	n          int
	hist       []string
	bitfield   []byte
	bitfieldAt time.Time
	haves      map[int]time.Time
	choking    bool
	interested bool
	intAt      time.Time
	out        map[blk]time.Time
	uploaded   int64
	answers    int
	lastData   map[blk]time.Time // when the client read a block
	maybe      map[int]time.Time // pieces requested that may have been answered already

	// written by the remote
	sent       []sentMsg
	seen       int // of sent, how many the client has read
	sentBytes  int64
	validHS    bool // the remote's handshake deserves admission
	hsUpto     int64
	remChoke   bool
	chokedAt   time.Time
	unchokedAt time.Time
	ever       bool // ever unchoked the client
	has        map[int]time.Time
	hasAt      time.Time // last change
	reqs       []pending
	next       map[int]bool // which of reqs may be the first that is not answered
	dup        bool         // a second connection of a connected peer
	wantedAt   time.Time    // since when it is interested
}

func (s *session) onConn(app *simnet.End, inbound bool) {
	c := &sconn{s: s, app: app, inbound: inbound, opened: time.Now(), choking: true, remChoke: true,
		next: map[int]bool{0: true}, lastData: map[blk]time.Time{}, maybe: map[int]time.Time{}, haves: map[int]time.Time{}, out: map[blk]time.Time{}, has: map[int]time.Time{}}
	s.mu.Lock()
	s.conns = append(s.conns, c)
	s.byApp[app] = c
	s.mu.Unlock()
	app.Tap = c.tap
}

func (s *session) connOf(far *simnet.End) *sconn {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.byApp[far.Other]
}

func (c *sconn) name() string {
	n := c.app.RemoteKey()
	if c.act != nil {
		n = c.act.p.name + " " + n
	}
	return n
}

// alive: neither end has given up.
func (c *sconn) alive() bool { return !c.app.Closed() && !c.app.Gone() }

// active: the client treats it as connected.
func (c *sconn) active() bool { return c.n > 0 && c.alive() }

func (c *sconn) violate(props, sig, format string, args ...any) {
	if c.s.quiet {
		return
	}
	h := c.hist
	if len(h) > 60 {
		h = h[len(h)-60:]
	}
	c.s.violateLocked(props, sig, "%s: %s [%s]", c.name(), fmt.Sprintf(format, args...), strings.Join(h, "; "))
}

// advance follows what the client has read; session mu held.
func (c *sconn) advance() {
	for c.seen < len(c.sent) {
		m := c.sent[c.seen]
		at, ok := c.app.Other.ReadBy(m.upto)
		if !ok {
			return
		}
		c.seen++
		c.hist = append(c.hist, fmt.Sprintf("(%v: %s)", at.Sub(epoch), m.msg))
		switch m.kind {
		case mChoke:
			if !c.remChoke {
				c.remChoke, c.chokedAt = true, at
			}
			for q := range c.out {
				c.s.touch(q.index, at)
			}
			clear(c.out)
		case mInterested:
			if c.wantedAt.IsZero() {
				c.wantedAt = at
			}
		case mNotInterested:
			c.wantedAt = time.Time{}
		case mUnchoke:
			c.remChoke, c.ever, c.unchokedAt = false, true, at
		case mHave:
			if _, ok := c.has[m.index]; !ok && m.index < c.s.l.pieces() {
				c.has[m.index] = at
				c.hasAt = at
			}
		case mBitfield:
			for i := range c.s.l.pieces() {
				if i/8 < len(m.data) && m.data[i/8]&(0x80>>(i%8)) != 0 {
					if _, ok := c.has[i]; !ok {
						c.has[i] = at
						c.hasAt = at
					}
				}
			}
		case mPiece:
			delete(c.out, blk{m.index, m.begin, len(m.data)})
			c.lastData[blk{m.index, m.begin, len(m.data)}] = at
			c.s.touch(m.index, at)
			c.s.downs = append(c.s.downs, sample{at, int64(len(m.data))})
		case mRequest:
			c.reqs = append(c.reqs, pending{blk{m.index, m.begin, m.n}, c.choking || !m.had, at})
			if len(c.reqs)-c.answers == hoard {
				c.violate("C26", "requests taken without end", "%d read, %d answered", len(c.reqs), c.answers)
			}
		case mCancel:
			for k := range c.reqs {
				if c.reqs[k].blk == (blk{m.index, m.begin, m.n}) {
					c.reqs[k].cancelled = true
				}
			}
		}
	}
}

func (c *sconn) tap(b []byte) {
	s := c.s
	s.mu.Lock()
	defer s.mu.Unlock()
	s.notePieces()
	c.buf = append(c.buf, b...)
	if !c.hs {
		if len(c.buf) < 68 {
			return
		}
		if want := handshake(s.l.info.SHA1, s.id); !bytes.Equal(c.buf[:20], want[:20]) || !bytes.Equal(c.buf[28:68], want[28:]) {
			c.violate("C28", "bad handshake from the client", "%q", c.buf[:68])
		}
		c.buf = c.buf[68:]
		c.hs = true
	}
	for len(c.buf) >= 4 {
		n := int(binary.BigEndian.Uint32(c.buf))
		if n > 1<<22 {
			c.violate("C13 C26 C27 C31", "client wrote garbage", "length prefix %d", n)
			return
		}
		if len(c.buf) < 4+n {
			// judge what started now although the rest is still to come
			return
		}
		m, err := parseBody(c.buf[4 : 4+n])
		if err != nil {
			c.violate("C13 C26 C27 C31", "client wrote garbage", "%v", err)
			return
		}
		c.buf = c.buf[4+n:]
		c.message(m)
		c.n++
	}
}

// message judges one message at the moment the client wrote it; mu held.
func (c *sconn) message(m msg) {
	s := c.s
	for _, o := range s.conns {
		o.advance()
	}
	now := time.Now()
	c.hist = append(c.hist, fmt.Sprintf("%v: %s", s.sinceStart(), m))
	if len(c.hist) > 120 {
		c.hist = slices.Clone(c.hist[60:])
	}
	if c.n == 0 {
		if !c.validHS {
			c.violate("C28", "messages to a peer without a valid handshake", "%s", m)
		} else if _, ok := c.app.Other.ReadBy(c.hsUpto); !ok {
			c.violate("C28", "messages before the peer's handshake was read", "%s", m)
		}
		if m.kind != mBitfield {
			c.violate("C31", "first message is not the bitfield", "%s", m)
		}
		count := 1
		for _, o := range s.conns {
			if o != c && o.active() {
				count++
				if c.act != nil && o.act != nil && o.act.id == c.act.id && o.act.p.ip == c.act.p.ip {
					c.violate("C28", "same peer admitted twice", "also connected as %s", o.name())
				}
			}
		}
		if count > 50 {
			c.violate("C28", "more than fifty peers connected", "%d", count)
		}
		s.labels["peer admitted"]++
	} else if m.kind == mBitfield {
		c.violate("C31", "bitfield after other messages", "%s", m)
	}
	np := s.l.pieces()
	switch m.kind {
	case mBitfield:
		c.bitfield, c.bitfieldAt = bytes.Clone(m.data), now
		if len(m.data) != (np+7)/8 {
			c.violate("C31", "bitfield of the wrong size", "%x for %d pieces", m.data, np)
		}
		for i := range len(m.data) * 8 {
			if m.data[i/8]&(0x80>>(i%8)) == 0 {
				continue
			}
			s.tell(i)
			if i >= np || !s.has(i) {
				c.violate("C31 C18 C34", "bitfield claims a piece that is not verified", "%x, piece %d", m.data, i)
			}
		}
	case mHave:
		if m.index < 0 || m.index >= np || !s.has(m.index) {
			c.violate("C31 C18 C34", "HAVE for a piece that is not verified", "%s", m)
		}
		s.tell(m.index)
		if _, ok := c.haves[m.index]; !ok {
			c.haves[m.index] = now
			if at, ok := s.verified[m.index]; ok && c.bitfieldAt.Before(at) && c.act != nil && c.act.p.honest() {
				// somebody who reads what is sent is not to wait for those who do not
				if late := now.Sub(at); late > 15*time.Second+c.s.slack() {
					c.violate("C31 C26 C34", "told late of a piece", "%s: %v after it was verified", m, late)
				}
			}
		}
		s.labels["HAVE sent"]++
	case mChoke:
		c.choking = true
	case mUnchoke:
		if c.choking && c.act != nil && c.act.p.honest() {
			c.waited(now)
		}
		c.choking = false
	case mInterested:
		c.interested, c.intAt = true, now
	case mNotInterested:
		c.interested, c.intAt = false, now
	case mRequest:
		c.request(m, now)
	case mCancel:
		delete(c.out, blk{m.index, m.begin, m.n})
		s.touch(m.index, now)
	case mPiece:
		c.piece(m, now)
	}
}

// tell notes that a piece was announced; mu held.
func (s *session) tell(i int) {
	if !s.w.fs.Crashed() {
		s.told[i] = true
	}
}

func (c *sconn) request(m msg, now time.Time) {
	s := c.s
	b := blk{m.index, m.begin, m.n}
	if m.index < 0 || m.index >= s.l.pieces() || m.begin%block != 0 || m.begin < 0 || m.begin >= s.l.pieceSize(m.index) || m.n != min(block, s.l.pieceSize(m.index)-m.begin) {
		c.violate("C29", "request off the grid", "%s", m)
		return
	}
	if at, ok := s.verified[m.index]; ok && now.Sub(at) > s.slack() {
		c.violate("C29 C25", "request of a piece the session has", "%s", m)
	}
	if s.spare[m.index] {
		c.violate("C34", "request of a piece that an earlier session had announced", "%s", m)
	}
	if _, ok := c.has[m.index]; !ok {
		c.violate("C29", "request of a piece the peer has not announced", "%s", m)
	}
	if !c.ever {
		c.violate("C29", "request before the peer unchoked the client", "%s", m)
	} else if c.remChoke && now.Sub(c.chokedAt) > 200*time.Millisecond+4*s.scale {
		c.violate("C29", "request while the peer chokes the client", "%s, choked %v ago", m, now.Sub(c.chokedAt))
	}
	last, seen := s.freed(m.index)
	if !c.remChoke && (!seen || now.Sub(last) > s.slack()) {
		c.rarest(m, now)
	}
	s.touch(m.index, now)
	s.labels["block requested"]++
	if c.remChoke {
		return // crossed the choke, which drops it
	}
	if at, ok := c.lastData[b]; ok && now.Sub(at) < s.slack() {
		c.maybe[m.index] = now
		return // may be answered by data that is being processed
	}
	if _, dup := c.out[b]; dup {
		c.violate("C29", "block requested twice", "%s", m)
	}
	c.out[b] = now
	if len(c.out) > 16 {
		c.violate("C29", "more than sixteen requests outstanding", "%d with %s", len(c.out), m)
	}
	for _, o := range s.conns {
		if o == c || !o.alive() || o.remChoke {
			continue
		}
		for q := range o.out {
			if q.index == m.index {
				c.violate("C29", "piece requested from two peers at once", "%s while %s owes %v", m, o.name(), q)
			}
		}
	}
}

// slack is how long the client may take to act on something.
func (s *session) slack() time.Duration { return 200*time.Millisecond + 20*s.scale }

// rarest checks the choice of a piece. What changed in the last moments is
// given the benefit of the doubt.
func (c *sconn) rarest(m msg, now time.Time) {
	s := c.s
	old := func(t time.Time) bool { return now.Sub(t) > s.slack() }
	count := func(i int) (lo, hi int) {
		for _, o := range s.conns {
			at, ok := o.has[i]
			if !ok {
				continue
			}
			if o.active() && old(at) {
				lo++
			}
			closed, isClosed := o.app.ClosedAt()
			if !isClosed || !old(closed) {
				hi++
			}
		}
		return
	}
	busy := map[int]bool{}
	for _, o := range s.conns {
		if cl, closed := o.app.ClosedAt(); o == c || closed && now.Sub(cl) > 15*time.Second {
			continue
		}
		for q := range o.out {
			busy[q.index] = true
		}
		for i, at := range o.maybe {
			if now.Sub(at) < 15*time.Second {
				busy[i] = true
			}
		}
		if !o.chokedAt.IsZero() && !old(o.chokedAt) || !o.unchokedAt.IsZero() && !old(o.unchokedAt) {
			// it may just have been given a piece without a request on the wire yet
			for i := range o.has {
				busy[i] = true
			}
		}
	}
	lo, _ := count(m.index)
	for i, at := range c.has {
		if i == m.index || busy[i] || !old(at) || s.has(i) {
			continue
		}
		if f, ok := s.freed(i); ok && !old(f) {
			continue
		}
		if _, hi := count(i); hi < lo {
			h := c.hist[max(0, len(c.hist)-20):]
			s.suspects = append(s.suspects, suspect{c, i, now, fmt.Sprintf("%s: piece %d (%d peers) chosen although piece %d is available from %d only [%s]",
				c.name(), m.index, lo, i, hi, strings.Join(h, "; "))})
		}
	}
	s.labels["choice of a piece judged"]++
}

// suspect is a choice that is wrong unless it turns out that the rarer piece
// had just been given to another peer.
type suspect struct {
	c    *sconn
	i    int
	at   time.Time
	text string
}

// settle judges choices once what surrounds them is known; mu held.
func (s *session) settle() {
	if len(s.suspects) == 0 || s.quiet {
		return
	}
	for _, o := range s.conns {
		o.advance()
	}
	var left []suspect
	for _, x := range s.suspects {
		if time.Since(x.at) <= 2*s.slack() {
			left = append(left, x)
			continue
		}
		near := func(t time.Time) bool { return t.Sub(x.at).Abs() <= s.slack() }
		excused := slices.ContainsFunc(s.acts[x.i], near)
		for _, o := range s.conns {
			cl, closed := o.app.ClosedAt()
			far, gone := o.app.Other.ClosedAt()
			if o != x.c && (near(o.chokedAt) || near(o.unchokedAt) || near(o.opened) || closed && near(cl) || gone && near(far)) {
				excused = true
			}
		}
		if !excused {
			s.violateLocked("C29", "not the rarest piece", "%v: %s", x.at.Sub(epoch), x.text)
		}
	}
	s.suspects = left
}

// freed tells when work on a piece was last seen (it may just have been given
// up or completed).
func (s *session) freed(i int) (time.Time, bool) {
	last, ok := s.lastAct[i]
	for _, o := range s.conns {
		for q := range o.out {
			if cl, closed := o.app.ClosedAt(); q.index == i && closed && cl.After(last) {
				last, ok = cl, true
			}
		}
	}
	return last, ok
}

func (s *session) touch(i int, at time.Time) {
	if at.After(s.lastAct[i]) {
		s.lastAct[i] = at
	}
	s.acts[i] = append(s.acts[i], at)
}

func (c *sconn) piece(m msg, now time.Time) {
	s := c.s
	if c.choking {
		c.violate("C27", "data sent to a choked peer", "%s", m)
	}
	if m.index >= s.l.pieces() || m.begin+len(m.data) > s.l.pieceSize(m.index) {
		c.violate("C27 C26", "data outside the torrent", "%s", m)
		return
	}
	if !s.has(m.index) {
		c.violate("C27 C26 C34", "data of a piece that is not verified", "%s", m)
	}
	if want := s.l.piece(m.index)[m.begin : m.begin+len(m.data)]; !bytes.Equal(m.data, want) {
		c.violate("C27 C26 C34", "wrong data sent", "%s: %s", m, diffBytes(m.data, want))
	}
	c.uploaded += int64(len(m.data))
	c.answers++
	s.ups = append(s.ups, sample{now, int64(len(m.data))})
	// A cancelled request may or may not have been answered, so there can be
	// several ways to read what was sent.
	b := blk{m.index, m.begin, len(m.data)}
	next := map[int]bool{}
	var skipped *pending
	for p := range c.next {
		for j := p; j < len(c.reqs); j++ {
			q := &c.reqs[j]
			if q.blk == b {
				next[j+1] = true
			}
			if !q.cancelled && s.answerable(q.blk) {
				skipped = q
				break
			}
		}
	}
	switch {
	case len(next) > 0:
		c.next = next
		s.labels["block served"]++
	case skipped != nil:
		c.violate("C27", "requests answered out of order or skipped", "%s sent, %v was next", m, skipped.blk)
	default:
		c.violate("C27", "data nobody asked for", "%s", m)
	}
}

// answerable: a request the client has to answer when it is not choking.
func (s *session) answerable(b blk) bool {
	return b.index >= 0 && b.index < s.l.pieces() && b.begin >= 0 && b.n > 0 && b.n <= block && b.begin+b.n <= s.l.pieceSize(b.index) && s.has(b.index)
}

// ---- tracker ----

type announce struct {
	at     time.Time
	method string
	url    *url.URL
	q      url.Values
	bad    error // of the query
	bad2   string
}

// strk answers every HTTP request of the client.
type strk struct {
	flooded  atomic.Bool
	s        *session // nil: no session
	over     chan struct{}
	mu       sync.Mutex
	log      []announce
	interval any // bencoded as given
	peers    func(n int) []tpeer
	compact  bool
	respond  func(n int, a announce) reply
}

// reply is what a tracker does with a request.
type reply struct {
	delay    time.Duration
	hang     bool // never answers
	err      error
	status   int
	data     []byte
	bodyErr  bool // the connection breaks within the body
	bodyHang bool // the body never ends
	flood    byte // the body goes on with this byte for ever
}

type tpeer struct {
	ip   string
	port int
	id   string
}

var trackerNow *strk

type simRT struct{}

func init() { http.DefaultTransport = simRT{} }

type body struct {
	r    *bytes.Reader
	rep  reply
	wait func(time.Duration) error
	more int
	k    *strk
}

// A client that takes that much of a reply would take anything.
const tooMuch = 24 << 20

func (b *body) Close() error { return nil }

func (b *body) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if n > 0 || err != io.EOF {
		return n, err
	}
	if b.rep.bodyErr {
		return 0, io.ErrUnexpectedEOF
	}
	if b.rep.bodyHang {
		return 0, b.wait(-1)
	}
	if b.rep.flood != 0 {
		if b.more > tooMuch {
			b.k.flooded.Store(true)
			return 0, io.ErrUnexpectedEOF
		}
		for i := range p {
			p[i] = b.rep.flood
		}
		b.more += len(p)
		return len(p), nil
	}
	return 0, io.EOF
}

func (simRT) RoundTrip(req *http.Request) (*http.Response, error) {
	k := trackerNow
	if k == nil {
		return nil, fmt.Errorf("simulated tracker: none")
	}
	if req.URL.Scheme != "http" && req.URL.Scheme != "https" || req.URL.Host == "" {
		return nil, fmt.Errorf("unsupported protocol scheme %q", req.URL.Scheme)
	}
	a := announce{at: time.Now(), method: req.Method, url: req.URL}
	a.q, a.bad = url.ParseQuery(req.URL.RawQuery)
	k.mu.Lock()
	n := len(k.log)
	k.log = append(k.log, a)
	k.mu.Unlock()
	if k.s != nil {
		k.s.announced(n, a)
	}
	wait := func(d time.Duration) error {
		var c <-chan time.Time
		if d >= 0 {
			t := time.NewTimer(d)
			defer t.Stop()
			c = t.C
		}
		select {
		case <-c:
			return nil
		case <-req.Context().Done():
			return req.Context().Err()
		case <-k.over:
			return fmt.Errorf("simulated tracker: gone")
		}
	}
	var r reply
	if k.respond != nil {
		r = k.respond(n, a)
	} else {
		var ps []tpeer
		if k.peers != nil {
			ps = k.peers(n)
		}
		r.data = trackerReply(k.interval, ps, k.compact)
	}
	if r.hang {
		return nil, wait(-1)
	}
	if err := wait(r.delay); err != nil {
		return nil, err
	}
	if r.err != nil {
		return nil, r.err
	}
	if r.status == 0 {
		r.status = 200
	}
	length := int64(len(r.data))
	if r.bodyErr || r.bodyHang || r.flood != 0 {
		length = -1
	}
	return &http.Response{Status: fmt.Sprint(r.status), StatusCode: r.status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{},
		Body: &body{bytes.NewReader(r.data), r, wait, 0, k}, ContentLength: length, Request: req}, nil
}

func bstr(s string) string { return fmt.Sprintf("%d:%s", len(s), s) }

func trackerReply(interval any, ps []tpeer, compact bool) []byte {
	var p string
	if compact {
		var b []byte
		for _, x := range ps {
			ip := parse4(x.ip)
			if ip == nil {
				continue
			}
			b = append(b, ip...)
			b = append(b, byte(x.port>>8), byte(x.port))
		}
		p = bstr(string(b))
	} else {
		for _, x := range ps {
			id := ""
			if x.id != "" {
				id = bstr("peer id") + bstr(x.id)
			}
			p += "d" + bstr("ip") + bstr(x.ip) + id + bstr("port") + fmt.Sprintf("i%de", x.port) + "e"
		}
		p = "l" + p + "e"
	}
	return []byte("d" + bstr("interval") + fmt.Sprintf("i%ve", interval) + bstr("peers") + p + "e")
}

func parse4(s string) []byte {
	var a, b, c, d int
	if n, _ := fmt.Sscanf(s, "%d.%d.%d.%d", &a, &b, &c, &d); n != 4 {
		return nil
	}
	return []byte{byte(a), byte(b), byte(c), byte(d)}
}

func (k *strk) announces() []announce {
	k.mu.Lock()
	defer k.mu.Unlock()
	return slices.Clone(k.log)
}
