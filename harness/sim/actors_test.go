package sim

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand/v2"
	"slices"
	"sync"
	"time"

	simnet "dripverif/shim/net"
)

// speer is a simulated participant.
type speer struct {
	name   string
	ip     string
	port   int
	id     [20]byte
	kind   string // "honest" or what it does wrong
	listen bool   // it is announced by the tracker and dialled, else it connects
	both   bool   // it does both
	first  int    // listen: index of the announce that lists it first
	start  time.Duration
	link   *simnet.Link
	hello  time.Duration // before its handshake

	pieces   []int
	later    []timed // pieces it gets later
	style    int     // how it announces pieces: 0 bitfield, 1 HAVEs, 2 both
	onInt    bool    // unchokes only interested clients
	unchoke  time.Duration
	chokes   []span
	answer   time.Duration
	order    int // of answers: 0 as asked, 1 last first, 2 any
	depth    int // requests it keeps outstanding
	budget   int // requests it makes in all
	odd      bool
	cancels  bool
	lockstep bool // reads on only after writing its answers
	chatty   bool // and repeats a HAVE before some of them
	slowRead time.Duration
	leave    time.Duration // after connecting, 0: stays
	abort    bool
	back     time.Duration // and returns
	alive    time.Duration // keepalive interval
	cut      int           // largest write
	seed     uint64
	conns    int
	arg      int           // of hostile kinds
	waitHS   bool          // a dialled participant that reads the handshake first
	hsPart   int           // its handshake comes in two parts, this many bytes first
	hsPause  time.Duration // between them
	steady   bool          // returns again and again
	quit     bool          // does not return any more
	samePort bool          // returns from the same port
	dialled  time.Duration // a dial takes this long
	freshID  bool          // returns under another id
	wants    bool          // tells the client that it is interested
	wavers   bool          // and at times that it is not
	away     []span        // when it refuses connections
}

type timed struct {
	at    time.Duration
	piece int
}

type span struct{ at, dur time.Duration }

func (p *speer) honest() bool { return p.kind == "honest" }

// link is one connection of a participant.
type link struct {
	s   *session
	p   *speer
	id  [20]byte
	far *simnet.End
	sc  *sconn
	rng *rand.Rand

	mu      sync.Mutex
	queue   []outMsg
	wake    chan struct{}
	gone    chan struct{}
	goneOne sync.Once
	wlock   chan struct{}

	choking bool
	told    bool // client interested
	reqs    []blk
	rwake   chan struct{}

	theirs   map[int]bool // pieces the client announced
	theirCh  bool
	mine     []blk // requested of the client
	budget   int
	got      map[int]map[int]bool // piece -> delivered corrupted?
	admitted bool
}

// source is a random source for the several goroutines of a participant.
type source struct {
	mu  sync.Mutex
	src *rand.PCG
}

func (s *source) Uint64() uint64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.src.Uint64()
}

type outMsg struct {
	m     *msg
	raw   []byte
	after func()
}

func (s *session) newLink(p *speer, far *simnet.End) *link {
	s.mu.Lock()
	n := p.conns
	p.conns++
	s.mu.Unlock()
	k := &link{s: s, p: p, id: p.id, far: far, sc: s.connOf(far), rng: rand.New(&source{src: rand.NewPCG(p.seed, uint64(n))}), wake: make(chan struct{}, 1), gone: make(chan struct{}),
		wlock: make(chan struct{}, 1), choking: true, rwake: make(chan struct{}, 1), theirs: map[int]bool{}, theirCh: true, budget: p.budget, got: map[int]map[int]bool{}}
	if p.freshID && n > 0 {
		copy(k.id[8:], fmt.Sprintf("%04d", n))
	}
	s.mu.Lock()
	k.sc.act = k
	s.mu.Unlock()
	go func() {
		select {
		case <-s.over:
			k.far.Abort()
			k.end()
		case <-k.gone:
		}
	}()
	return k
}

func (k *link) end() { k.goneOne.Do(func() { close(k.gone) }) }

func (k *link) isGone() bool {
	select {
	case <-k.gone:
		return true
	default:
		return false
	}
}

// pause sleeps unless the connection ends.
func (k *link) pause(d time.Duration) bool {
	if d <= 0 {
		return !k.isGone()
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
		return true
	case <-k.gone:
		return false
	}
}

// raw writes bytes at once, in the pieces the participant is given to.
func (k *link) raw(b []byte) error {
	k.wlock <- struct{}{}
	defer func() { <-k.wlock }()
	return k.rawLocked(b)
}

func (k *link) rawLocked(b []byte) error {
	k.s.mu.Lock()
	k.sc.sentBytes += int64(len(b))
	k.s.mu.Unlock()
	for len(b) > 0 {
		n := len(b)
		if k.p.cut > 0 {
			n = min(n, 1+k.rng.IntN(k.p.cut))
		}
		if _, err := k.far.Write(b[:n]); err != nil {
			k.end()
			return err
		}
		b = b[n:]
		if len(b) > 0 && k.p.cut > 0 && k.p.cut < 5000 && k.rng.IntN(8) == 0 {
			time.Sleep(time.Duration(k.rng.IntN(20)) * time.Millisecond)
		}
	}
	return nil
}

// write sends a message now, on the record.
func (k *link) write(m msg) error {
	k.wlock <- struct{}{}
	defer func() { <-k.wlock }()
	b := m.bytes()
	k.s.mu.Lock()
	k.sc.sent = append(k.sc.sent, sentMsg{m, k.sc.sentBytes + int64(len(b)), m.kind == mRequest && k.s.has(m.index)})
	k.s.mu.Unlock()
	return k.rawLocked(b)
}

// send queues a message for the writer.
func (k *link) send(m msg) {
	if k.p.lockstep {
		k.write(m)
		return
	}
	k.mu.Lock()
	k.queue = append(k.queue, outMsg{m: &m})
	k.mu.Unlock()
	select {
	case k.wake <- struct{}{}:
	default:
	}
}

func (k *link) writer() {
	for {
		select {
		case <-k.wake:
		case <-k.gone:
			return
		}
		for {
			k.mu.Lock()
			if len(k.queue) == 0 {
				k.mu.Unlock()
				break
			}
			o := k.queue[0]
			k.queue = k.queue[1:]
			k.mu.Unlock()
			if k.write(*o.m) != nil {
				return
			}
		}
	}
}

// hail sends the participant's handshake; valid: it deserves admission.
func (k *link) hail(b []byte, valid bool) error {
	k.s.mu.Lock()
	k.sc.validHS, k.sc.hsUpto = valid, k.sc.sentBytes+int64(len(b))
	k.s.mu.Unlock()
	if n := k.p.hsPart; n > 0 && n < len(b) {
		if err := k.raw(b[:n]); err != nil {
			return err
		}
		k.pause(k.p.hsPause)
		b = b[n:]
	}
	return k.raw(b)
}

func (k *link) goodHandshake() []byte {
	b := handshake(k.s.l.info.SHA1, k.id)
	if k.p.odd {
		for i := 20; i < 28; i++ {
			b[i] = byte(k.rng.Uint32())
		}
	}
	return b
}

// readHS reads the client's handshake.
func (k *link) readHS() error {
	b := make([]byte, 68)
	if _, err := io.ReadFull(k.far, b); err != nil {
		k.end()
		return err
	}
	return nil
}

func (k *link) read() (msg, error) {
	var h [4]byte
	if _, err := io.ReadFull(k.far, h[:]); err != nil {
		return msg{}, err
	}
	n := binary.BigEndian.Uint32(h[:])
	if n > 1<<22 {
		return msg{}, fmt.Errorf("oversized")
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(k.far, b); err != nil {
		return msg{}, err
	}
	return parseBody(b)
}

// launch starts a participant: it listens, or connects at its time.
func (s *session) launch(p *speer) {
	if p.kind == "refuse" || p.kind == "blackhole" {
		s.net.SetHost(p.ip, p.port, &simnet.Host{Refuse: p.kind == "refuse", Blackhole: p.kind == "blackhole"})
		return
	}
	run := s.honest
	if f, ok := villains[p.kind]; ok {
		run = f
	} else if !p.honest() {
		panic("no such participant: " + p.kind)
	}
	if p.listen {
		host := &simnet.Host{Link: p.link, Delay: p.dialled, Handle: func(far *simnet.End) { run(s.newLink(p, far)) }}
		s.net.SetHost(p.ip, p.port, host)
		if len(p.away) > 0 && p.away[0].at == 0 {
			s.net.SetHost(p.ip, p.port, &simnet.Host{Refuse: true, Link: p.link})
		}
		go func() {
			for _, a := range p.away {
				if !s.wait(time.Until(epoch.Add(a.at))) {
					return
				}
				s.net.SetHost(p.ip, p.port, &simnet.Host{Refuse: true, Link: p.link})
				if !s.wait(time.Until(epoch.Add(a.at + a.dur))) {
					return
				}
				s.net.SetHost(p.ip, p.port, host)
			}
		}()
		if !p.both {
			return
		}
	}
	go func() {
		if !s.wait(p.start) {
			return
		}
		conns := 0
		for n := 0; ; n++ {
			port := p.port
			if n > 0 && !p.samePort || port == 0 || p.both {
				port = 20000 + int(p.seed%30000) + n
			}
			far, err := s.net.Connect(p.ip, port%65536, s.port, p.link)
			if err == nil {
				run(s.newLink(p, far))
				conns++
			}
			d := p.back
			if err != nil {
				d = 2 * time.Second // not listening yet
			} else if conns >= 5 && !p.steady {
				return
			}
			if d == 0 || !s.wait(d) || p.quit {
				return
			}
		}
	}()
}

func (s *session) wait(d time.Duration) bool {
	if d <= 0 {
		return true
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
		return true
	case <-s.over:
		return false
	}
}

// ---- an honest participant ----

func (s *session) honest(k *link) {
	p := k.p
	if !k.pause(p.hello) {
		return
	}
	valid := true
	s.mu.Lock()
	if want, ok := s.expect[k.sc.app.RemoteKey()]; ok && !k.sc.inbound && want != string(k.id[:]) {
		valid = false
	}
	s.mu.Unlock()
	first := p.waitHS && !k.sc.inbound
	if first && k.readHS() != nil || k.hail(k.goodHandshake(), valid) != nil || !first && k.readHS() != nil {
		k.far.Close()
		k.end()
		return
	}
	go k.writer()
	go k.script()
	if !p.lockstep {
		go k.answerer()
	}
	for {
		m, err := k.read()
		if err != nil {
			break
		}
		k.handle(m)
		if p.slowRead > 0 && !k.pause(p.slowRead) {
			break
		}
	}
	k.far.Close()
	k.end()
}

// owned is what the participant has at this moment.
func (k *link) owned() map[int]bool {
	have := map[int]bool{}
	for _, i := range k.p.pieces {
		have[i] = true
	}
	for _, l := range k.p.later {
		if k.s.sinceStart() >= l.at {
			have[l.piece] = true
		}
	}
	return have
}

func (k *link) script() {
	p, s := k.p, k.s
	have := k.owned()
	np := s.l.pieces()
	bf := make([]byte, (np+7)/8)
	var rest []int
	for i := range np {
		if have[i] {
			if p.style == 0 || p.style == 2 && k.rng.IntN(2) == 0 {
				bf[i/8] |= 0x80 >> (i % 8)
			} else {
				rest = append(rest, i)
			}
		}
	}
	if p.style != 1 {
		k.send(msg{kind: mBitfield, data: bf})
	}
	k.rng.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
	for _, i := range rest {
		k.send(msg{kind: mHave, index: i})
	}
	if p.wants {
		go k.courtship()
	}
	if p.leave > 0 {
		go func() {
			if k.pause(p.leave) {
				s.label("honest peer left")
				if p.abort {
					k.far.Abort()
				} else {
					k.far.Close()
				}
				k.end()
			}
		}()
	}
	if p.alive > 0 {
		go func() {
			for k.pause(p.alive) {
				k.send(msg{kind: mKeepalive})
			}
		}()
	}
	go func() {
		later := slices.Clone(p.later)
		slices.SortFunc(later, func(a, b timed) int { return int(a.at - b.at) })
		for _, l := range later {
			if have[l.piece] {
				continue
			}
			if !k.pause(l.at - s.sinceStart()) {
				return
			}
			k.send(msg{kind: mHave, index: l.piece})
		}
	}()
	began := time.Now()
	if p.onInt {
		for {
			k.mu.Lock()
			told := k.told
			k.mu.Unlock()
			if told {
				break
			}
			if !k.pause(time.Second) {
				return
			}
		}
	}
	if !k.pause(p.unchoke) {
		return
	}
	k.setChoke(false)
	for _, c := range p.chokes {
		if !k.pause(c.at - time.Since(began)) {
			return
		}
		k.setChoke(true)
		s.label("honest peer choked the client")
		if !k.pause(c.dur) {
			return
		}
		k.setChoke(false)
	}
}

// courtship tells the client about the participant's interest.
func (k *link) courtship() {
	if k.p.seed%3 == 0 && !k.pause(time.Duration(k.p.seed%20000)*time.Millisecond) {
		return
	}
	k.send(msg{kind: mInterested})
	for n := uint64(1); k.p.wavers && n < 6; n++ {
		if !k.pause(time.Duration(k.p.seed/n%40000) * time.Millisecond) {
			return
		}
		k.send(msg{kind: mNotInterested})
		if !k.pause(time.Duration(k.p.seed/n%7000) * time.Millisecond) {
			return
		}
		k.send(msg{kind: mInterested})
	}
}

func (k *link) setChoke(c bool) {
	k.mu.Lock()
	k.choking = c
	k.reqs = nil
	k.mu.Unlock()
	if c {
		k.send(msg{kind: mChoke})
	} else {
		k.send(msg{kind: mUnchoke})
	}
}

// answerer serves the client's requests.
func (k *link) answerer() {
	for {
		select {
		case <-k.rwake:
		case <-k.gone:
			return
		}
		for {
			k.mu.Lock()
			if len(k.reqs) == 0 {
				k.mu.Unlock()
				break
			}
			i := 0
			switch k.p.order {
			case 1:
				i = len(k.reqs) - 1
			case 2:
				i = k.rng.IntN(len(k.reqs))
			}
			b := k.reqs[i]
			k.mu.Unlock()
			if !k.pause(k.p.answer) {
				return
			}
			k.mu.Lock()
			j := slices.Index(k.reqs, b)
			if j >= 0 && !k.choking {
				k.reqs = slices.Delete(k.reqs, j, j+1)
				k.mu.Unlock()
				k.send(k.s.goodPiece(b))
				continue
			}
			k.mu.Unlock()
		}
	}
}

func (s *session) goodPiece(b blk) msg {
	return msg{kind: mPiece, index: b.index, begin: b.begin, data: bytes.Clone(s.l.piece(b.index)[b.begin : b.begin+b.n])}
}

func (k *link) handle(m msg) {
	switch m.kind {
	case mInterested, mNotInterested:
		k.mu.Lock()
		k.told = m.kind == mInterested
		k.mu.Unlock()
	case mRequest:
		b := blk{m.index, m.begin, m.n}
		if b.index < 0 || b.index >= k.s.l.pieces() || b.begin < 0 || b.n < 0 || b.begin+b.n > k.s.l.pieceSize(b.index) {
			return // reported by the observer
		}
		if k.p.lockstep {
			k.mu.Lock()
			c := k.choking
			k.mu.Unlock()
			if !c && k.pause(k.p.answer) {
				if k.p.chatty && k.rng.IntN(2) == 0 {
					k.write(msg{kind: mHave, index: b.index})
				}
				k.write(k.s.goodPiece(b))
			}
			return
		}
		k.mu.Lock()
		if !k.choking {
			k.reqs = append(k.reqs, b)
		}
		k.mu.Unlock()
		select {
		case k.rwake <- struct{}{}:
		default:
		}
	case mCancel:
		k.mu.Lock()
		k.reqs = slices.DeleteFunc(k.reqs, func(b blk) bool { return b == (blk{m.index, m.begin, m.n}) })
		k.mu.Unlock()
	case mBitfield:
		for i := range k.s.l.pieces() {
			if i/8 < len(m.data) && m.data[i/8]&(0x80>>(i%8)) != 0 {
				k.theirs[i] = true
			}
		}
		k.leech()
	case mHave:
		k.theirs[m.index] = true
		k.leech()
	case mUnchoke:
		k.theirCh = false
		k.leech()
	case mChoke:
		k.theirCh = true
		k.mine = nil
	case mPiece:
		b := blk{m.index, m.begin, len(m.data)}
		if j := slices.Index(k.mine, b); j >= 0 {
			k.mine = slices.Delete(k.mine, j, j+1)
		}
		k.leech()
	}
}

// leech asks the client for data.
func (k *link) leech() {
	if k.p.depth == 0 || k.theirCh || len(k.theirs) == 0 {
		return
	}
	for len(k.mine) < k.p.depth && k.budget > 0 {
		k.budget--
		var ps []int
		for i := range k.theirs {
			ps = append(ps, i)
		}
		slices.Sort(ps)
		i := ps[k.rng.IntN(len(ps))]
		size := k.s.l.pieceSize(i)
		b := blk{i, 0, 0}
		if k.rng.IntN(4) > 0 {
			b.begin = k.rng.IntN((size+block-1)/block) * block
			b.n = min(block, size-b.begin)
		} else {
			b.begin = k.rng.IntN(size)
			b.n = 1 + k.rng.IntN(min(block, size-b.begin))
		}
		if k.s.prop == "C27" && k.rng.IntN(6) == 0 && len(k.mine) > 0 {
			b = k.mine[k.rng.IntN(len(k.mine))] // twice
		}
		k.mine = append(k.mine, b)
		k.send(msg{kind: mRequest, index: b.index, begin: b.begin, n: b.n})
		if k.p.cancels && k.rng.IntN(4) == 0 {
			c := k.mine[k.rng.IntN(len(k.mine))]
			k.mine = slices.DeleteFunc(k.mine, func(x blk) bool { return x == c })
			if k.rng.IntN(3) == 0 {
				time.Sleep(time.Duration(k.rng.IntN(2000)) * time.Millisecond)
			}
			k.send(msg{kind: mCancel, index: c.index, begin: c.begin, n: c.n})
			k.s.label("request cancelled by a peer")
		}
	}
}
