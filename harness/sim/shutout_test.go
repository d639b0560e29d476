package sim

import (
	"fmt"
	"time"

	"dripverif/engine"
)

func init() {
	engine.Register(&engine.Prop{ID: "C33", Quick: 14000, Thorough: 300000, Limit: 20000, Run: func(t *engine.T) { swarmCase(t, "C33") },
		Rule: "one client session in virtual time with one to three honest seeders (announced or connecting, some sharing an address with a corrupt one, some leaving and waiting to be dialled again), one to four seeders that corrupt some blocks of pieces they are asked for, other troublemakers, and a tracker that lists them all again and again; who delivered a bad piece must be disconnected and its address never dialled again, honest peers are neither disconnected nor forgotten, and the download must finish with the right files; non-trivial: a bad piece was delivered over a dialled connection and the tracker listed that peer again",
		Assume: []string{
			"a dial that is under way when the bad piece is noticed is not counted (slack of one second)",
			"goroutines of the client switch at lock, file, channel, network and timer operations and at generated pauses; the interleaving within those bounds is whatever the scheduler does",
		}})
}

// genShutout adapts a swarm to C33.
func (sw *swarm) genShutout(t *engine.T) {
	sw.interval = t.Range(5, 40)
	if t.Prob(1, 4) {
		sw.compact = false
	}
	small := sw.l.info.PieceLength <= 4*block
	for _, p := range sw.peers {
		p.depth = min(p.depth, 4)
		if p.listen && small && t.Prob(1, 2) { // leaves, to be dialled again
			p.unchoke, p.chokes = min(p.unchoke, 2*time.Second), nil
			p.leave = time.Duration(t.Range(25, 70)) * time.Second // outlasts a request that nobody answers
			p.abort = t.Bool()
			if t.Prob(1, 3) {
				p.genAway(t, 60*time.Second)
			}
			for len(p.pieces) > 0 && t.Bool() {
				p.later = append(p.later, timed{Durations(t, 120*time.Second) + 1, p.pieces[0]})
				p.pieces = p.pieces[1:]
			}
		}
	}
	for n := range t.Range(1, 4) {
		sw.addHostile(t, []string{"corrupt seeder"})
		p := sw.peers[len(sw.peers)-1]
		if n == 0 || t.Prob(2, 3) {
			p.listen, p.start, p.back = true, 0, 0
			if t.Prob(1, 3) { // and connects as well
				p.both, p.start, p.unchoke = true, Durations(t, 20*time.Second), Durations(t, 80*time.Second)
				p.first = t.N(3)
			}
		}
		if !sw.compact && t.Prob(1, 4) {
			p.ip = fmt.Sprintf("2001:db8::%x", len(sw.peers))
		}
		if t.Prob(1, 4) {
			sw.peers[t.N(len(sw.peers)-1)].ip = p.ip
		}
	}
	for range t.N(3) {
		sw.addHostile(t, []string{"poisoner", "wrong blocks", "silent seeder", "choker", "spoiler", "cut off", "early data"})
	}
}

// shutout judges the dials after bad pieces.
func (s *session) shutout() {
	listed := func(ip string, port int, after time.Time) bool {
		for _, a := range s.trk.announces() {
			if a.at.After(after) && a.q.Get("event") != "stopped" {
				return true
			}
		}
		return false
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	dials := s.net.Dials()
	for _, d := range s.drops {
		at, ok := d.sc.app.Other.ReadBy(d.upto)
		if !ok || d.why != "corrupt piece" || d.sc.act == nil {
			continue
		}
		p := d.sc.act.p
		relisted := func() {
			if listed(p.ip, p.port, at.Add(2*time.Second)) {
				s.labels["corrupt peer listed again"]++
				s.t.NonTrivial()
			}
		}
		judge := func(key string) {
			for _, x := range dials {
				if x.Addr == key && x.At.After(at.Add(time.Second+s.slack())) {
					s.violateLocked("C33", "peer dialled again after a bad piece", "%s delivered a bad piece at %v and was dialled at %s at %v", d.sc.name(), at.Sub(epoch), key, x.At.Sub(epoch))
				}
			}
		}
		if !d.sc.inbound {
			relisted()
			judge(d.sc.app.RemoteKey())
		}
		// Where it was met, and refused, while it was connected already.
		began, ok := d.sc.app.Other.ReadBy(d.sc.hsUpto)
		for _, x := range s.conns {
			if x.inbound || x == d.sc || x.act == nil || x.act.p != p || x.act.id != d.sc.act.id || !x.validHS || !ok {
				continue
			}
			if met, ok := x.app.Other.ReadBy(x.hsUpto); ok && met.After(began) && met.Add(s.slack()).Before(at) {
				s.labels["corrupt peer met at a second address"]++
				relisted()
				judge(x.app.RemoteKey())
			}
		}
	}
}
