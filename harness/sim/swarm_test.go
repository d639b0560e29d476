package sim

import (
	"fmt"
	"strings"
	"time"

	"dripverif/engine"
	simnet "dripverif/shim/net"
)

func init() {
	rule := "one client session in virtual time over a simulated network, file system, tracker and clock: random torrent, random pieces already on disk, "
	assume := []string{
		"goroutines of the client switch at lock, file, channel, network and timer operations and at generated pauses; the interleaving within those bounds is whatever the scheduler does",
		"the simulated network delivers bytes in order with generated latency, windows and read sizes; the tracker is reached through net/http's default transport",
	}
	for _, p := range []*engine.Prop{
		{ID: "C25", Quick: 20000, Thorough: 400000, Run: func(t *engine.T) { swarmCase(t, "C25") },
			Rule: rule + "one to eight honest peers (announced or connecting, with random piece sets, later HAVEs, latencies, read and write sizes, choke cycles, answer delays and orders, departures and returns) of which some stay and together have every piece, or (one case in ten) two to six real sessions with each other, some unreachable from outside, stopping and returning, with connections breaking; the session must finish within a generous virtual time with exactly the torrent's files and without asking for pieces it had; non-trivial: at least two pieces were missing and a peer choked, left or announced a piece later"},
		{ID: "C26", Quick: 20000, Thorough: 400000, Run: func(t *engine.T) { swarmCase(t, "C26") },
			Rule: rule + "one or two honest peers with all pieces and one to six hostile participants of twenty kinds (garbage, bad indexes and bitfields, silence, corruption, unsolicited data, not reading, malformed and cut off messages, floods, early and late data, flapping); the session must finish with the right files, send only right data, drop the offenders and keep the honest peers; non-trivial: a hostile participant was admitted and a piece was missing"},
		{ID: "C27", Quick: 14000, Thorough: 400000, Run: func(t *engine.T) { swarmCase(t, "C27") },
			Rule: rule + "peers that request blocks (whole, partial, repeated, cancelled, invalid, while choked, many at once, reading slowly or only after writing) while the session may still be downloading; every message the client sends is checked, and in the end every request that was owed an answer has got it and the upload counter equals the bytes sent; non-trivial: at least five blocks were served"},
		{ID: "C29", Quick: 20000, Thorough: 400000, Run: func(t *engine.T) { swarmCase(t, "C29") },
			Rule: rule + "two to eight honest peers with overlapping piece sets and choke cycles, and sometimes silent or fickle ones; every request is checked against what the client had read by then; in the end interest must match; non-trivial: the choice of a piece was judged"},
		{ID: "C31", Quick: 20000, Thorough: 400000, Run: func(t *engine.T) { swarmCase(t, "C31") },
			Rule: rule + "honest peers and some that fail, leave or do not read; the first message must be the exact bitfield, every HAVE must be of a verified piece, and in the end every connected peer must know every verified piece; non-trivial: a HAVE was sent"},
	} {
		p.Assume = assume
		p.Limit = 20000
		engine.Register(p)
	}
}

type swarm struct {
	prop     string
	l        *layout
	conf     swarmConf
	have     []int
	peers    []*speer
	interval int
	compact  bool
	settled  time.Duration       // all planned events are over
	listed   func(n int) []tpeer // what the tracker says, if not all that listen
	limit    time.Duration       // to finish after that
}

func genSwarmLayout(t *engine.T) *layout {
	if t.Prob(1, 8) {
		// pieces of many blocks
		l := &layout{name: "big", pieceLen: t.Range(17, 40) * block}
		if t.Bool() {
			l.pieceLen -= t.N(block)
		}
		n := l.pieceLen + t.N(l.pieceLen)
		if t.Prob(1, 12) { // as large as those of real torrents
			l.pieceLen = t.Range(100, 280) * block
			n = l.pieceLen + t.N(2)*t.N(10*block)
		}
		l.content = engine.Fill(t.Choice(1<<30), n)
		l.build(t)
		return l
	}
	return genLayout(t, Pick(t, 200000, 60000, 400000), Pick(t, 12, 4, 30))
}

func Durations(t *engine.T, max time.Duration) time.Duration {
	switch t.Weighted(3, 3, 3) {
	case 0:
		return 0
	case 1:
		return time.Duration(t.N(int(max/time.Millisecond)/10+1)) * time.Millisecond
	}
	return time.Duration(t.N(int(max/time.Millisecond)+1)) * time.Millisecond
}

// genPeer makes an honest peer.
func (sw *swarm) genPeer(t *engine.T, n int) *speer {
	p := &speer{name: fmt.Sprintf("p%d", n), ip: fmt.Sprintf("198.51.100.%d", n+1), port: 6000 + n, kind: "honest", seed: t.Choice(1 << 40)}
	copy(p.id[:], fmt.Sprintf("-XX%04d-%012x", n, p.seed))
	p.listen = t.Bool()
	if p.listen {
		p.first = Pick(t, 0, 0, 0, 1, 2)
	} else {
		p.start = Durations(t, 30*time.Second)
	}
	p.hello = time.Duration(Pick(t, 0, 0, 0, 3000)) * time.Millisecond
	p.style = Pick(t, 0, 0, 1, 2)
	p.onInt = t.Bool()
	p.unchoke = Durations(t, 100*time.Second)
	p.order = Pick(t, 0, 0, 1, 2)
	p.answer = time.Duration(Pick(t, 0, 0, 1, 20, 100, 400)) * time.Millisecond
	if p.order != 0 {
		p.answer = min(p.answer, 100*time.Millisecond)
	}
	p.alive = time.Duration(t.Range(60, 110)) * time.Second
	p.cut = Pick(t, 0, 0, 5000, 100)
	p.odd = t.Bool()
	if p.cut == 100 { // sixteen blocks have to arrive within ten seconds
		p.answer = min(p.answer, 20*time.Millisecond)
	}
	p.lockstep = t.Prob(1, 4)
	if p.lockstep {
		p.order = 0
		p.chatty = t.Bool()
	}
	if t.Bool() {
		at := time.Duration(0)
		for range t.Range(1, 4) {
			at += Durations(t, 20*time.Second) + 1
			c := span{at, Durations(t, 60*time.Second)}
			p.chokes = append(p.chokes, c)
			at += c.dur
		}
	}
	if t.Bool() {
		p.depth = Pick(t, 1, 4, 16, 40)
		p.budget = t.Range(1, 40)
		p.cancels = t.Bool()
	}
	p.wants = t.Prob(2, 3)
	p.wavers = t.Prob(1, 4)
	return p
}

// genAway makes a peer refuse connections at times.
func (p *speer) genAway(t *engine.T, most time.Duration) {
	at := Durations(t, most)
	for range t.Range(1, 2) {
		a := span{at, Durations(t, most) + 1}
		p.away = append(p.away, a)
		at += a.dur + Durations(t, most) + 1
	}
}

// deal distributes the pieces: the first stay peers never leave and have
// everything between them.
func (sw *swarm) deal(t *engine.T, peers []*speer, stay int) {
	np := sw.l.pieces()
	density := t.Range(0, 8)
	for i := range np {
		owner := t.N(stay)
		for n, p := range peers {
			if n != owner && t.N(8) >= density {
				continue
			}
			if t.Prob(1, 8) {
				p.later = append(p.later, timed{Durations(t, 120*time.Second) + 1, i})
			} else {
				p.pieces = append(p.pieces, i)
			}
		}
	}
	for n, p := range peers {
		if n >= stay && t.Bool() {
			p.leave = 1 + Durations(t, 150*time.Second)
			p.abort = t.Bool()
			if !p.listen && t.Bool() {
				p.back = time.Duration(t.Range(5, 60)) * time.Second
			}
		}
	}
}

func (p *speer) lastEvent(interval int) time.Duration {
	d := p.start + p.hello + p.unchoke + 5*time.Second
	if p.listen {
		d += time.Duration(p.first*interval) * time.Second
	}
	for _, c := range p.chokes {
		d = max(d, p.start+p.hello+c.at+c.dur+p.unchoke)
	}
	for _, l := range p.later {
		d = max(d, l.at)
	}
	for _, a := range p.away {
		d = max(d, a.at+a.dur+time.Duration(interval)*time.Second+p.hello+p.unchoke)
	}
	return d
}

func (p *speer) String() string {
	if !p.honest() {
		return fmt.Sprintf("%s %s start %v listen %v", p.name, p.kind, p.start, p.listen)
	}
	s := fmt.Sprintf("%s has %d later %d", p.name, len(p.pieces), len(p.later))
	if p.listen {
		s += fmt.Sprintf(" announced#%d", p.first)
	} else {
		s += fmt.Sprintf(" connects@%v", p.start)
	}
	if len(p.away) > 0 {
		s += fmt.Sprintf(" away%v", p.away)
	}
	if p.unchoke > 0 {
		s += fmt.Sprintf(" unchokes+%v", p.unchoke)
	}
	if len(p.chokes) > 0 {
		s += fmt.Sprintf(" chokes%v", p.chokes)
	}
	if p.leave > 0 {
		s += fmt.Sprintf(" leaves+%v", p.leave)
	}
	if p.lockstep {
		s += " lockstep"
		if p.chatty {
			s += " repeating HAVEs"
		}
	}
	if p.depth > 0 {
		s += fmt.Sprintf(" leech%d/%d", p.depth, p.budget)
	}
	return s
}

func genSwarm(t *engine.T, prop string) *swarm {
	sw := &swarm{prop: prop, interval: t.Range(20, 120), compact: t.Bool(), limit: 900 * time.Second}
	spoiled := prop == "C31" && t.Prob(1, 12)
	if spoiled { // a steady flow of pieces, with peers falling out
		sw.l = &layout{name: "many", pieceLen: Pick(t, 512, 1000, 20000)}
		sw.l.content = engine.Fill(t.Choice(1<<30), t.Range(60, 200)*sw.l.pieceLen-t.N(500))
		sw.l.build(t)
	} else {
		sw.l = genSwarmLayout(t)
	}
	sw.conf = genConf(t)
	c := &sw.conf.link
	switch { // links fast enough for sixteen blocks in well under ten seconds
	case c.Window < 1<<16:
		c.Latency, c.Jitter = min(c.Latency, 20*time.Millisecond), min(c.Jitter, time.Millisecond)
	case c.Window < 1<<18:
		c.Latency, c.Jitter = min(c.Latency, 200*time.Millisecond), min(c.Jitter, 100*time.Millisecond)
	}
	if c.Cut < 1000 && c.Cut > 0 && len(sw.l.content) > 60000 {
		c.Cut = 1000
	}
	if c.Cut < 5000 && c.Cut > 0 && len(sw.l.content) > 1<<20 {
		c.Cut = 5000
	}
	np := sw.l.pieces()
	d := Pick(t, 0, 0, 2, 4, 7)
	if prop == "C27" {
		d = Pick(t, 2, 4, 8, 8, 6)
	} else if prop == "C34" {
		d = min(d, 2)
	}
	for i := range np {
		if t.N(8) < d {
			sw.have = append(sw.have, i)
		}
	}
	n := t.Range(1, 8)
	stay := t.Range(1, min(n, 3))
	switch prop {
	case "C26":
		n = t.Range(1, 2)
		stay = n
		sw.limit = 2400 * time.Second
	case "C29":
		n = t.Range(2, 8)
		stay = t.Range(1, n)
		sw.limit = 2400 * time.Second
	case "C34":
		n = t.Range(1, 4)
		stay = n
		sw.interval = t.Range(10, 60)
		sw.limit = 4800 * time.Second
	case "C33":
		n = t.Range(1, 3)
		stay = n
		sw.limit = 4800 * time.Second
	}
	for i := range n {
		p := sw.genPeer(t, i)
		if len(sw.l.content) > 1<<20 {
			p.cut, p.answer, p.order = max(p.cut, 5000)*min(p.cut, 1), min(p.answer, 100*time.Millisecond), 0
		}
		switch prop {
		case "C34":
			p.depth, p.steady = min(p.depth, 4), true
			p.first, p.start, p.hello = 0, min(p.start, 5*time.Second), 0
			if t.Prob(3, 4) {
				p.unchoke = min(p.unchoke, 3*time.Second)
			}
			p.back = time.Duration(t.Range(2, 20)) * time.Second
		case "C29":
			p.depth = 0 // uploads delay requests
		case "C27":
			if t.Prob(3, 4) {
				p.depth, p.budget, p.cancels = Pick(t, 1, 4, 16, 100), t.Range(1, 100), t.Bool()
				p.slowRead = time.Duration(Pick(t, 0, 0, 10, 200)) * time.Millisecond
				if t.Prob(1, 16) {
					p.depth, p.budget = 500, t.Range(300, 700)
				}
			}
		}
		sw.peers = append(sw.peers, p)
	}
	sw.deal(t, sw.peers, stay)
	kinds := []string{}
	switch prop {
	case "C26":
		kinds = hostileKinds
		if t.Prob(1, 8) { // a gang
			kinds = []string{kinds[t.N(len(kinds))]}
			if t.Bool() {
				kinds[0] = "not reading"
			}
		}
		for range t.Range(1, 6) {
			sw.addHostile(t, kinds)
		}
	case "C27":
		for range t.Range(0, 2) {
			sw.addHostile(t, []string{"bad requests", "not reading", "flood", "flapper", "doubtful", "doubtful"})
		}
		if t.Prob(1, 12) {
			sw.addHostile(t, []string{"burst"})
		}
		if t.Prob(1, 6) {
			sw.addHostile(t, []string{"hasty"})
		}
	case "C25":
		for _, p := range sw.peers {
			if p.listen && t.Prob(1, 5) {
				p.genAway(t, 100*time.Second)
			}
		}
	case "C33":
		sw.genShutout(t)
	case "C29":
		for range t.Range(0, 2) {
			sw.addHostile(t, []string{"silent seeder", "choker"})
		}
	case "C31":
		for range t.Range(0, 3) {
			sw.addHostile(t, []string{"not reading", "flapper", "cut off", "half closed", "silent", "corrupt seeder", "spoiler"})
		}
		if spoiled {
			for range t.Range(2, 6) {
				sw.addHostile(t, []string{"spoiler"})
				p := sw.peers[len(sw.peers)-1]
				p.listen, p.start, p.back = false, Durations(t, 10*time.Second), time.Second
			}
			for _, p := range sw.peers {
				p.answer = max(p.answer, 10*time.Millisecond)
			}
		}
		sw.limit = 2400 * time.Second
	}
	for _, p := range sw.peers {
		sw.settled = max(sw.settled, p.lastEvent(sw.interval))
		t.Notef("%v", p)
	}
	return sw
}

func (sw *swarm) addHostile(t *engine.T, kinds []string) {
	n := len(sw.peers)
	p := &speer{name: fmt.Sprintf("h%d", n), ip: fmt.Sprintf("203.0.113.%d", n+1), port: 7000 + n, kind: kinds[t.N(len(kinds))], seed: t.Choice(1 << 40)}
	copy(p.id[:], fmt.Sprintf("-HH%04d-%012x", n, p.seed))
	p.listen = t.Bool()
	p.start = Durations(t, 40*time.Second)
	if p.listen {
		p.start = 0
	} else if t.Prob(1, 3) {
		p.back = time.Duration(t.Range(1, 60)) * time.Second
	}
	if p.kind == "not reading" && t.Prob(3, 4) {
		l := sw.conf.link
		// handshake and bitfield fit, perhaps little more
		l.Window = Pick(t, 2000, 68+5+(sw.l.pieces()+7)/8+t.N(6))
		p.link = &l
	}
	sw.peers = append(sw.peers, p)
}

func swarmCase(t *engine.T, prop string) {
	if prop == "C25" && t.Prob(1, 10) {
		togetherCase(t)
		return
	}
	sw := genSwarm(t, prop)
	withWorld(t, func(w *world) {
		engine.Bubble(func() {
			preload(t, w, sw.l, sw.have)
			s := newSession(t, prop, w, sw.l, sw.conf)
			defer s.end()
			sw.start(s)
			sw.play(s)
		})
	})
}

// start sets up the tracker and the participants and starts the client.
func (sw *swarm) start(s *session) {
	s.trk.interval, s.trk.compact = sw.interval, sw.compact
	s.trk.peers = func(n int) (out []tpeer) {
		if sw.listed != nil {
			return sw.listed(n)
		}
		for _, p := range sw.peers {
			if p.listen && p.first <= n {
				out = append(out, tpeer{p.ip, p.port, string(p.id[:])})
			}
		}
		return
	}
	for _, i := range sw.have {
		s.verified[i] = time.Time{}
	}
	for _, p := range sw.peers {
		s.launch(p)
	}
	s.run()
}

// play runs the session to completion and judges the end.
func (sw *swarm) play(s *session) {
	t := s.t
	missing := sw.l.pieces() - len(sw.have)
	done := s.until(sw.settled+sw.limit, time.Second, func() bool {
		if s.returned() {
			if strings.Contains("C25 C26 C33", s.prop) {
				t.Failf("session ended by itself", "%v", s.startErr)
			}
			return true
		}
		return s.complete()
	})
	s.check()
	if !done && strings.Contains("C25 C26 C33", s.prop) {
		var state []string
		for i := range sw.l.pieces() {
			if !s.has(i) {
				state = append(state, fmt.Sprint(i))
			}
		}
		t.Failf("download does not finish", "pieces %s still missing at %v%s", strings.Join(state, ","), s.sinceStart(), s.histories())
	}
	t.LabelIf(done && missing > 0, "download completed")
	// let the remaining traffic settle
	time.Sleep(45 * time.Second)
	for range 100 {
		s.check()
		if s.idle() {
			break
		}
		time.Sleep(10 * time.Second)
	}
	s.check()
	if done && strings.Contains("C25 C26 C33", s.prop) {
		if d := diffTree(snapshot(s.w.target), sw.l.tree()); d != "" {
			t.Failf("wrong files after the download", "%s", d)
		}
	}
	if s.prop == "C33" { // the tracker lists everybody once more
		time.Sleep(time.Duration(sw.interval+5) * time.Second)
		s.shutout()
		s.check()
	}
	s.offences(30 * time.Second)
	s.bystanders()
	s.owed()
	s.patience()
	s.known()
	s.interest()
	s.counters()
	s.check()
	s.mu.Lock()
	defer s.mu.Unlock()
	for k, v := range s.labels {
		if v > 0 {
			t.Label(k)
		}
	}
	switch s.prop {
	case "C25":
		if missing >= 2 && (s.labels["honest peer choked the client"] > 0 || s.labels["honest peer left"] > 0 || sw.anyLater()) {
			t.NonTrivial()
		}
	case "C26":
		for _, c := range s.conns {
			if c.act != nil && !c.act.p.honest() && c.n > 0 && missing > 0 {
				t.NonTrivial()
			}
		}
	case "C27":
		if s.labels["block served"] >= 5 {
			t.NonTrivial()
		}
	case "C29":
		if s.labels["choice of a piece judged"] > 0 {
			t.NonTrivial()
		}
	case "C12":
		if s.labels["announce after transfers"] > 0 {
			t.NonTrivial()
		}
	case "C31":
		if s.labels["HAVE sent"] > 0 {
			t.NonTrivial()
		}
	}
}

// histories tells what the client last wrote to each peer.
func (s *session) histories() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var b strings.Builder
	for _, c := range s.conns {
		c.advance()
		fmt.Fprintf(&b, "\n  %s (open %v, choked by it %v, owing %d): %s", c.name(), c.alive(), c.remChoke, len(c.out), strings.Join(c.hist[max(0, len(c.hist)-10):], "; "))
	}
	return b.String()
}

func (sw *swarm) anyLater() bool {
	for _, p := range sw.peers {
		if len(p.later) > 0 {
			return true
		}
	}
	return false
}

// idle: no data is on its way.
func (s *session) idle() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.conns {
		if c.act == nil || !c.act.p.owedTo() || !c.alive() {
			continue
		}
		c.advance()
		if c.app.Unread() > 0 || c.app.Other.Unread() > 0 || c.owes() != nil || c.choking && c.n > 0 && !c.wantedAt.IsZero() {
			return false
		}
	}
	return true
}

// owes gives a request that the client has to answer; mu held.
func (c *sconn) owes() *pending {
	if c.choking {
		return nil
	}
	var owed *pending
	for p := range c.next {
		var q *pending
		for i := p; i < len(c.reqs) && q == nil; i++ {
			if !c.reqs[i].cancelled && c.s.answerable(c.reqs[i].blk) {
				q = &c.reqs[i]
			}
		}
		if q == nil {
			return nil
		}
		owed = q
	}
	return owed
}

// owed checks in the end that requests were answered and counted.
func (s *session) owed() {
	s.mu.Lock()
	defer s.mu.Unlock()
	var sum int64
	for _, c := range s.conns {
		c.advance()
		sum += c.uploaded
		if c.act == nil || !c.act.p.owedTo() || !c.alive() {
			continue
		}
		if q := c.owes(); q != nil && time.Since(q.at) > 60*time.Second {
			s.violateLocked("C27", "request never answered", "%s: %v, read %v ago", c.name(), q.blk, time.Since(q.at))
		}
	}
	if got := s.srv.Uploaded(); got != sum {
		s.violateLocked("C27 C12", "wrong upload counter", "%d, sent %d bytes", got, sum)
	}
}

// patience checks in the end that no interested peer is still waiting.
func (s *session) patience() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.conns {
		c.advance()
		if c.choking && c.alive() && c.act != nil && c.act.p.honest() {
			c.waited(time.Now())
		}
	}
}

// waited judges how long the peer has been waiting to be unchoked; mu held.
func (c *sconn) waited(now time.Time) {
	from := c.wantedAt
	if from.IsZero() || c.n == 0 {
		return
	}
	if c.bitfieldAt.After(from) {
		from = c.bitfieldAt
	}
	if d := now.Sub(from); d > 60*time.Second+c.s.slack() {
		c.violate("C26 C27", "interested peer left choked", "for %v", d)
	}
}

// known checks in the end that connected peers know every verified piece.
func (s *session) known() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.conns {
		if !c.active() || c.app.Other.Unread() > 0 || time.Since(c.bitfieldAt) < 40*time.Second {
			continue
		}
		for i := range s.l.pieces() {
			if !s.has(i) {
				continue
			}
			_, told := c.haves[i]
			if !told && (i/8 >= len(c.bitfield) || c.bitfield[i/8]&(0x80>>(i%8)) == 0) {
				s.violateLocked("C31 C34", "peer not told of a piece", "%s: piece %d", c.name(), i)
			}
		}
	}
}

// interest checks in the end that interest matches.
func (s *session) interest() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.conns {
		c.advance()
		if !c.active() || c.app.Other.Unread() > 0 || c.act == nil || !c.act.p.honest() || time.Since(c.hasAt) < 15*time.Second {
			continue
		}
		want := false
		for i := range c.has {
			want = want || !s.has(i)
		}
		if want != c.interested {
			s.violateLocked("C29 C34", "wrong interest", "%s: interested %v, want %v", c.name(), c.interested, want)
		}
	}
}

var _ = simnet.NewNet
