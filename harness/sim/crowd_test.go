package sim

import (
	"fmt"
	"time"

	"dripverif/engine"
	simnet "dripverif/shim/net"
)

func init() {
	engine.Register(&engine.Prop{ID: "C28", Quick: 14000, Thorough: 200000, Limit: 20000, Run: c28,
		Rule: "one client session in virtual time with a few or with up to ninety participants that connect or are dialled: valid ones (with slow, split or late handshakes, two connections of one peer, returns from the same or another port under the same or another id) and ones with wrong, missing, cut off, late or garbage handshakes, the client's own id, another id than announced, unreachable addresses; every message is checked against who may get it, connections that are not admitted must be closed, and after everyone but some has left, exactly the free slots must be available to new valid peers; non-trivial: a connection was refused or failed, or more than fifty participants took part",
		Assume: []string{
			"the handshake has to be complete ten seconds after the connection is made, valid peers take less than nine; thirty seconds count as prompt",
			"two peers are the same if they have the same id and the same IP address",
			"the client may take an address for the peer that last shook hands from there, for as long as that peer is connected",
		}})
}

var strangers = []string{"garbage", "silent", "no handshake", "cut off", "trickle", "half closed", "flapper", "refuse", "blackhole", "wrong id"}

type crowd struct {
	sw     *swarm
	stay   map[*speer]bool
	expect map[string]string
}

func c28(t *engine.T) {
	sw := &swarm{prop: "C28", interval: Pick(t, 1800, 600, 60), compact: false}
	sw.l = genLayout(t, 40000, 4)
	sw.conf = genConf(t)
	sw.conf.link.Window = max(sw.conf.link.Window, 1<<16)
	if t.Bool() {
		for i := range sw.l.pieces() {
			sw.have = append(sw.have, i)
		}
	}
	cr := &crowd{sw: sw, stay: map[*speer]bool{}, expect: map[string]string{}}
	n := t.Range(1, 12)
	spread := 40 * time.Second
	if t.Prob(1, 3) {
		n = t.Range(40, 90)
		spread = time.Duration(Pick(t, 40, 5, 0)) * time.Second
	}
	share := t.Range(0, 8)      // of strangers
	leavers := t.Range(0, 8)    // of the valid ones
	only := t.N(len(strangers)) // sometimes all strangers are of a kind
	same := t.Prob(1, 3)
	for len(sw.peers) < n {
		if t.N(8) < share {
			k := t.N(len(strangers))
			if same {
				k = only
			}
			cr.addStranger(t, strangers[k], spread)
			continue
		}
		p := cr.addValid(t, spread)
		cr.stay[p] = t.N(8) >= leavers
		if !cr.stay[p] {
			p.leave = 1 + Durations(t, 60*time.Second)
			p.abort = t.Bool()
			if !p.listen && t.Bool() {
				p.back = time.Duration(t.Range(6, 20)) * time.Second
				p.samePort, p.freshID = t.Bool(), t.Bool()
			}
		}
		if t.Prob(1, 5) && len(sw.peers) < n {
			// the same peer once more
			q := *p
			q.name, q.listen, q.first = fmt.Sprintf("q%d", len(sw.peers)), false, 0
			q.start = Durations(t, spread)
			if t.Bool() {
				q.start = max(0, p.start+time.Duration(t.Range(-20, 20))*time.Millisecond)
			}
			q.leave = 0
			if p.leave > 0 && t.Bool() {
				q.start = p.start + p.leave + time.Duration(t.Range(0, 4))*time.Second
			}
			q.samePort, q.freshID, q.back = false, false, 0
			if t.Bool() || !p.listen {
				q.port += 500 + t.N(100)
			}
			if t.Prob(1, 3) {
				q.back = time.Duration(t.Range(1, 20)) * time.Second
			}
			if t.Bool() {
				q.leave = 1 + Durations(t, 60*time.Second)
			}
			q.seed = t.Choice(1 << 40)
			sw.peers = append(sw.peers, &q)
		}
	}
	for i, p := range sw.peers {
		if i < 15 {
			t.Notef("%v id %q", p, p.id[:])
		}
	}
	fresh := t.Range(1, 8)
	together := t.Bool()
	withWorld(t, func(w *world) {
		engine.Bubble(func() {
			preload(t, w, sw.l, sw.have)
			s := newSession(t, "C28", w, sw.l, sw.conf)
			defer s.end()
			for a, id := range cr.expect {
				s.expect[a] = id
			}
			s.crowd = true
			cr.play(s, n, fresh, together)
		})
	})
}

func (cr *crowd) addValid(t *engine.T, spread time.Duration) *speer {
	n := len(cr.sw.peers)
	p := &speer{name: fmt.Sprintf("p%d", n), ip: fmt.Sprintf("198.51.100.%d", n+1), port: 6000 + n, kind: "honest", seed: t.Choice(1 << 40), alive: 80 * time.Second}
	copy(p.id[:], fmt.Sprintf("-XX%04d-%012x", n, p.seed))
	if n > 0 && t.Prob(1, 6) { // shares its address or its id with another one
		o := cr.sw.peers[t.N(n)]
		if t.Bool() {
			p.ip = o.ip
		} else {
			p.id = o.id
		}
	}
	p.listen = t.Bool()
	p.start = Durations(t, spread)
	if p.listen {
		p.start = 0
		p.waitHS = t.Bool()
		if t.Bool() {
			cr.expect[simnet.Key(p.ip, p.port)] = string(p.id[:])
		}
	}
	p.hello = time.Duration(Pick(t, 0, 0, 0, 4000)) * time.Millisecond
	if t.Prob(1, 4) {
		p.hsPart = t.Range(1, 67)
		p.hsPause = time.Duration(t.N(3000)) * time.Millisecond
	}
	p.cut = Pick(t, 0, 0, 20)
	p.odd = t.Bool()
	p.style = Pick(t, 0, 1)
	if t.Bool() {
		p.pieces = t.Perm(cr.sw.l.pieces())
	}
	cr.sw.peers = append(cr.sw.peers, p)
	return p
}

func (cr *crowd) addStranger(t *engine.T, kind string, spread time.Duration) {
	n := len(cr.sw.peers)
	p := &speer{name: fmt.Sprintf("h%d", n), ip: fmt.Sprintf("203.0.113.%d", n+1), port: 7000 + n, kind: kind, seed: t.Choice(1 << 40), alive: 80 * time.Second}
	copy(p.id[:], fmt.Sprintf("-HH%04d-%012x", n, p.seed))
	p.listen = t.Bool() || kind == "refuse" || kind == "blackhole" || kind == "wrong id"
	if !p.listen {
		p.start = Durations(t, spread)
		if t.Prob(1, 3) {
			p.back = time.Duration(t.Range(1, 30)) * time.Second
		}
	}
	if kind == "wrong id" {
		p.kind = "honest"
		id := p.id
		id[t.N(20)] ^= 1
		cr.expect[simnet.Key(p.ip, p.port)] = string(id[:])
	}
	cr.sw.peers = append(cr.sw.peers, p)
}

// play lets the crowd come and go, and then newcomers.
func (cr *crowd) play(s *session, n, fresh int, together bool) {
	t := s.t
	over := false
	// set before the client starts, which asks at once
	cr.sw.listed = func(int) (out []tpeer) {
		if over {
			return nil
		}
		for _, p := range cr.sw.peers {
			if p.listen {
				out = append(out, tpeer{p.ip, p.port, cr.expect[simnet.Key(p.ip, p.port)]})
			}
		}
		return
	}
	cr.sw.start(s)
	storm := 100 * time.Second
	for s.sinceStart() < storm {
		time.Sleep(10 * time.Second)
		s.lingering()
		s.check()
	}
	// all leave but those who stay
	over = true
	for _, p := range cr.sw.peers {
		p.quit = !cr.stay[p]
	}
	for n := range 60 {
		s.mu.Lock()
		busy := false
		for _, c := range s.conns {
			k := c.act
			if k == nil || cr.stay[k.p] {
				continue
			}
			busy = busy || !c.app.Closed()
			if !k.isGone() {
				k.end()
				go func() {
					if k.p.abort {
						k.far.Abort()
					} else {
						k.far.Close()
					}
				}()
			}
		}
		s.mu.Unlock()
		if !busy && n > 20 { // dials to nowhere take thirty seconds each
			break
		}
		time.Sleep(10 * time.Second)
		s.lingering()
		s.check()
	}
	s.admissions(n)
	s.bystanders()
	s.check()
	open := len(s.net.Open())
	free := 50 - open
	if free < 0 {
		t.Failf("more than fifty peers connected", "%d connections open after the crowd has left", open)
	}
	if n > 50 {
		t.Label("crowd of more than fifty")
		t.NonTrivial()
	}
	t.LabelIf(open >= 45, "nearly full")
	want := min(free, fresh)
	var news []*speer
	for i := range fresh {
		p := &speer{name: fmt.Sprintf("new%d", i), ip: fmt.Sprintf("192.0.2.%d", 10+i), port: 5000 + i, kind: "honest", seed: uint64(i), alive: 80 * time.Second}
		copy(p.id[:], fmt.Sprintf("-NN%04d-000000000000", i))
		if !together {
			p.start = time.Duration(i) * 3 * time.Second
		}
		news = append(news, p)
		s.launch(p)
	}
	time.Sleep(60 * time.Second)
	s.lingering()
	s.check()
	got := 0
	s.mu.Lock()
	for _, c := range s.conns {
		if c.act != nil && c.n > 0 && c.active() {
			for _, p := range news {
				if c.act.p == p {
					got++
				}
			}
		}
	}
	s.mu.Unlock()
	if s.returned() {
		t.Failf("session ended by itself", "%v", s.startErr)
	}
	if got != want {
		t.Failf("free slots are not available", "%d connections are open, %d new valid peers connected, %d of them were admitted", open, fresh, got)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.conns {
		if c.n == 0 {
			t.NonTrivial()
			s.labels["connection refused or failed"]++
		}
	}
	for k := range s.labels {
		t.Label(k)
	}
}

// lingering checks that connections that were not admitted are closed.
func (s *session) lingering() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.conns {
		if c.n == 0 && !c.app.Closed() && time.Since(c.opened) > 30*time.Second {
			s.violateLocked("C28", "connection kept open without being admitted", "%s, open for %v, valid handshake: %v", c.name(), time.Since(c.opened), c.validHS)
		}
	}
}

func (c *sconn) gone() (time.Time, bool) {
	a, ok1 := c.app.ClosedAt()
	f, ok2 := c.app.Other.ClosedAt()
	if !ok1 || ok2 && f.Before(a) {
		a = f
	}
	return a, ok1 || ok2
}

// admissions checks that valid peers were admitted when there was room.
func (s *session) admissions(n int) {
	if n > 45 {
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	now := time.Now()
	for _, c := range s.conns {
		if c.act == nil || !c.act.p.honest() || !c.validHS || c.n > 0 {
			continue
		}
		if c.leftEarly() {
			continue
		}
		twin := ""
		admitted := false
		for _, o := range s.conns {
			if o == c || o.act == nil || o.act.id != c.act.id || o.act.p.ip != c.act.p.ip {
				continue
			}
			end, over := o.gone()
			cend, cover := c.gone()
			if over && end.Add(5*time.Second).Before(c.opened) || cover && cend.Before(o.opened) {
				continue
			}
			twin = o.name()
			admitted = admitted || o.n > 0 || o.validHS && o.leftEarly()
		}
		switch {
		case s.heldAddress(c):
			s.labels["address of another connected peer refused"]++
		case twin != "" && admitted:
			s.labels["second connection of a peer refused"]++
		case now.Sub(c.opened) > 20*time.Second:
			s.violateLocked("C28", "valid peer not admitted", "%s, connected at %v, %s; other connection: %q", c.name(), c.opened.Sub(epoch), c.ends(), twin)
		}
	}
}

// heldAddress: an earlier second connection of a peer came from the address
// of c, and was refused because of a first one, which was still there when c
// was made.
func (s *session) heldAddress(c *sconn) bool {
	for _, o := range s.conns {
		if o.app.RemoteKey() != c.app.RemoteKey() || !o.opened.Before(c.opened) || o.act == nil || !o.validHS || o.n > 0 || o.act.id == c.act.id {
			continue
		}
		for _, f := range s.conns {
			if f.act == nil || f.n == 0 || f.act.id != o.act.id || f.act.p.ip != o.act.p.ip || f.opened.After(c.opened) {
				continue
			}
			if end, over := f.gone(); !over || !end.Add(5*time.Second).Before(c.opened) {
				return true
			}
		}
	}
	return false
}

// leftEarly: the peer went away by itself soon after it connected.
func (c *sconn) leftEarly() bool {
	f, closed := c.app.Other.ClosedAt()
	if !closed || f.Sub(c.opened) >= 20*time.Second {
		return false
	}
	a, ok := c.app.ClosedAt()
	return !ok || !a.Before(f)
}

func (c *sconn) ends() string {
	d := "open at the client"
	if a, ok := c.app.ClosedAt(); ok {
		d = fmt.Sprintf("closed by the client at %v", a.Sub(epoch))
	}
	if f, ok := c.app.Other.ClosedAt(); ok {
		d += fmt.Sprintf(", by the peer at %v", f.Sub(epoch))
	}
	return d
}
