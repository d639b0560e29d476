package sim

import (
	"errors"
	"fmt"
	"math"
	"net"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"dripverif/engine"
	simnet "dripverif/shim/net"
	shimos "dripverif/shim/os"
)

func init() {
	engine.Register(&engine.Prop{ID: "C30", Quick: 30000, Thorough: 300000, Limit: 20000, Run: c30,
		Rule: "one client session in virtual time against a scripted tracker whose replies have sane or absurd intervals, peer lists (compact or not, with duplicates in other spellings, IPv6 and unusable entries) or none, delays, and among which some fail (failure reasons, errors, rubbish, silence), with honest, silent, flooding, refusing and unreachable peers, stopped once or twice at an arbitrary moment, or before the start, or one that cannot start (its port is taken or its disk fails); the tracker requests are compared with the schedule, the dials with the lists, and after the stop everything must be closed and quiet; non-trivial: at least three announces, or stopped while a dial, a handshake, an announce or a transfer was under way",
		Assume: []string{
			"an announce is given up after thirty seconds at most; when one takes long the next ones may be late or early by as much",
			"a session whose first announce fails may end with an error or go on",
			"when a tracker changes its interval, the client may keep the first or take any it has been given since",
			"no more than forty peers stay connected, so that dials need not wait long for free slots, and of longer lists at least fifty peers are taken at a time; a minute is enough for Stop, twenty more seconds for the rest, and forty for an announce",
		}})
}

type addrs30 struct {
	tp     tpeer
	usable bool
}

type script struct {
	reply
	ok       bool
	interval int64
	peers    []addrs30
	took     time.Duration
	what     string
}

type calendar struct {
	*session
	sw      *swarm
	replies []script
	absurd  bool
	stopAt  time.Duration
	again   time.Duration // second Stop, -1: none
	noStop  bool          // if Start has returned by itself, rely on that
	early   bool          // stop as soon as something is under way
	many    int           // peers listed, more than can be taken at once
	before  bool          // Stop is called before Start
}

// c30refused: a session that cannot start.
func c30refused(t *engine.T) {
	sw := &swarm{prop: "C30", l: genLayout(t, 200000, 6), conf: genConf(t)}
	taken, stop := t.Bool(), t.Bool()
	have := t.Perm(sw.l.pieces())
	have = have[:t.N(len(have)+1)]
	t.Notef("port taken %v, otherwise disk fails; then stopped %v; pieces %v", taken, stop, have)
	withWorld(t, func(w *world) {
		left := engine.Bubble(func() {
			preload(t, w, sw.l, have)
			s := newSession(t, "C30", w, sw.l, sw.conf)
			defer s.end()
			var l net.Listener
			if taken {
				l, _ = simnet.Listen("tcp", fmt.Sprintf(":%d", s.port))
			} else {
				w.fs.Inject = func(int, shimos.Op) (shimos.Fault, bool) { return shimos.Fault{Err: syscall.EIO}, true }
			}
			s.run()
			if !s.until(60*time.Second, 100*time.Millisecond, s.returned) {
				t.Failf("a session that cannot start does not say so", "60s, port taken %v", taken)
			}
			if s.startErr == nil {
				t.Failf("a session that cannot start does not say so", "Start returned nil, port taken %v", taken)
			}
			if stop {
				over := make(chan struct{})
				go func() { s.srv.Stop(); close(over) }()
				select {
				case <-over:
				case <-time.After(90 * time.Second):
					t.Failf("the session does not stop", "it could not start; 90s after the call")
				}
			}
			time.Sleep(40 * time.Second)
			if n := s.net.Listeners(); taken && n != 1 || !taken && n != 0 {
				t.Failf("the listener is left open", "%d, port taken %v", n, taken)
			}
			if st := remaining(); st != "" {
				t.Failf("activity is left behind", "40s after Start has returned an error:\n%s", st)
			}
			for _, a := range s.trk.announces() {
				if a.q.Get("event") != "stopped" {
					t.Failf("a session that could not start is announced", "%q", a.q.Get("event"))
				}
			}
			if l != nil {
				l.Close()
			}
			t.Label("could not start")
			t.NonTrivial()
		})
		if left != "" {
			t.Failf("activity is left behind", "goroutines of the client remain after Start has returned an error (%s)", left)
		}
	})
}

func c30(t *engine.T) {
	if t.Prob(1, 60) {
		c30refused(t)
		return
	}
	sw := &swarm{prop: "C30"}
	sw.l = genLayout(t, 200000, 6)
	sw.conf = genConf(t)
	cal := &calendar{sw: sw, again: -1}
	cal.absurd = t.Prob(1, 5)
	interval := int64(Pick(t, 60, 5, 30, 300, 1+t.N(300)))
	vary := t.Prob(1, 4)
	if t.Prob(1, 25) {
		cal.many = t.Range(60, 260)
		cal.absurd, vary = false, false
		interval = int64(t.Range(5, 60))
	}
	giveInterval := func() int64 {
		if cal.absurd {
			return Pick(t, 0, -1, -60, math.MinInt64, math.MaxInt64, math.MaxInt32, 1<<40, math.MaxInt64/int64(time.Second)+1)
		}
		if vary {
			return int64(t.Range(1, 300))
		}
		return interval
	}
	// participants
	var pool []addrs30
	for i := range t.N(13) {
		kind := Pick(t, "honest", "silent", "refuse", "blackhole", "flood", "not reading", "no handshake", "cut off", "nobody", "unusable")
		ip := fmt.Sprintf("203.0.113.%d", i+1)
		if t.Prob(1, 4) {
			ip = fmt.Sprintf("2001:db8::%x", i+1)
		}
		port := 7000 + i
		switch kind {
		case "unusable":
			tp := tpeer{ip, port, ""}
			switch t.N(3) {
			case 0:
				tp.ip = Pick(t, "", "nonsense", "999.1.2.3", "1.2.3", "host.invalid", "::g", "1.2.3.4:80", "\x00\xff")
			case 1:
				tp.port = Pick(t, 0, -1, 65536, 1<<40)
			case 2:
				tp.ip, tp.port = "", 0
			}
			pool = append(pool, addrs30{tp, false})
			continue
		case "nobody":
		default:
			p := sw.genPeer(t, i)
			p.ip, p.port, p.kind, p.listen = ip, port, kind, true
			p.start, p.first, p.back, p.leave = 0, 0, 0, 0
			if t.Prob(1, 4) {
				p.leave = 1 + Durations(t, 100*time.Second)
			}
			if kind == "honest" {
				p.pieces = t.Perm(sw.l.pieces())
			}
			if t.Prob(1, 6) {
				p.dialled = time.Duration(t.Range(1, 28)) * time.Second
			}
			p.hello = time.Duration(Pick(t, 0, 0, 0, 4000)) * time.Millisecond
			sw.peers = append(sw.peers, p)
		}
		id := ""
		if kind == "honest" && t.Bool() {
			id = string(sw.peers[len(sw.peers)-1].id[:])
		}
		pool = append(pool, addrs30{tpeer{ip, port, id}, true})
	}
	for range t.N(3) { // and some that connect
		p := sw.genPeer(t, 100+len(sw.peers))
		p.listen = false
		p.ip, p.port = fmt.Sprintf("198.51.100.%d", 1+len(sw.peers)), 0
		sw.peers = append(sw.peers, p)
	}
	for i := range cal.many - len(pool) {
		p := &speer{name: fmt.Sprintf("m%d", i), ip: fmt.Sprintf("192.0.2.%d", 1+i/3), port: 5000 + i, kind: "refuse"}
		if i%5 == 0 { // most are gone
			sw.peers = append(sw.peers, p)
		}
		pool = append(pool, addrs30{tpeer{p.ip, p.port, ""}, true})
	}
	// replies
	replies := t.Range(1, 12)
	if cal.many > 0 {
		replies += cal.many/50 + 1
	}
	for i := range replies {
		var r script
		k := t.Weighted(10, 2, 1, 1, 1, 1, 1, 1, 1)
		if i == 0 && cal.many > 0 {
			k = 0
		}
		r.delay = time.Duration(Pick(t, 0, 0, 0, 1, t.N(2000), t.N(20000))) * time.Millisecond
		r.interval = giveInterval()
		r.took = r.delay
		compact := t.Bool()
		switch k {
		case 0:
			r.ok, r.what = true, "ok"
			pick := make([]int, t.N(len(pool)+1))
			for j := range pick {
				pick[j] = t.N(len(pool))
			}
			if cal.many > 0 {
				pick = t.Perm(len(pool))
			}
			for _, j := range pick {
				a := pool[j]
				if compact && (parse4(a.tp.ip) == nil || !a.usable && net.ParseIP(a.tp.ip) == nil || a.tp.port != int(uint16(a.tp.port))) {
					continue
				}
				if !compact && a.usable && t.Prob(1, 4) {
					a.tp.ip = respell(a.tp.ip, t.N(3))
				}
				r.peers = append(r.peers, a)
			}
			r.data = trackerReply(r.interval, tpeers(r.peers), compact)
		case 1:
			r.ok, r.what = true, "no peers"
			r.data = fmt.Appendf(nil, "d8:intervali%dee", r.interval)
			if compact {
				r.data = fmt.Appendf(nil, "d8:intervali%de5:peers0:e", r.interval)
			}
		case 2:
			r.what, r.data = "failure reason", []byte("d14:failure reason4:nopee")
			if compact {
				r.data = fmt.Appendf(nil, "d14:failure reason4:nope8:intervali%de5:peers0:e", r.interval)
			}
		case 3:
			r.what, r.reply.err = "error", errors.New("simulated: connection refused")
		case 4:
			r.what, r.hang, r.took = "hangs", true, 30*time.Second
		case 5:
			r.what, r.data = "rubbish", []byte(Pick(t, "", "x", "<html>500</html>", "d8:interval", "le", "i60e", "d8:intervali60e5:peersl", "d8:intervali99999999999999999999e5:peers0:e", "d8:intervali60e5:peers7:1234567e"))
		case 6:
			r.what, r.data, r.bodyErr = "cut off", []byte("d8:intervali60e"), true
		case 7:
			r.what, r.data, r.bodyHang, r.took = "stalls", []byte("d8:intervali60e"), true, 30*time.Second
		case 8:
			r.what, r.data = "odd peers", []byte(Pick(t, "d8:intervali60e5:peersi5ee", "d8:intervali60e5:peersli1eee", "d8:intervali60e5:peersldeee", "d8:intervali60e5:peersd1:ai1eee", "d8:intervali60e5:peersld2:ip7:1.2.3.44:porti-1eeee", "d5:peerslee", "d8:interval2:605:peerslee"))
		}
		t.Notef("reply %d: %s, interval %d, after %v, %d peers %v", i, r.what, r.interval, r.delay, len(r.peers), tpeers(r.peers[:min(len(r.peers), 20)]))
		cal.replies = append(cal.replies, r)
	}
	cal.stopAt = time.Duration(Pick(t, t.N(1000), t.N(30000), t.N(400000))) * time.Millisecond
	if cal.many > 0 {
		cal.stopAt = time.Duration(len(cal.replies)) * time.Duration(interval+30) * time.Second
	}
	if t.Prob(1, 3) {
		cal.again = time.Duration(Pick(t, 0, t.N(3000))) * time.Millisecond
	}
	cal.early = t.Prob(1, 4) && cal.many == 0
	cal.noStop = t.Bool()
	cal.before = t.Prob(1, 10)
	for _, p := range sw.peers[:min(20, len(sw.peers))] {
		t.Notef("%v", p)
	}
	t.Notef("stop after %v (early %v), again %v", cal.stopAt, cal.early, cal.again)
	withWorld(t, func(w *world) {
		left := engine.Bubble(func() {
			preload(t, w, sw.l, nil)
			s := newSession(t, "C30", w, sw.l, sw.conf)
			cal.session = s
			defer s.end()
			s.trk.respond = func(n int, a announce) reply { return cal.at(n).reply }
			for _, p := range sw.peers {
				s.launch(p)
			}
			if cal.before {
				// of a session that was not started: that is an error at most
				t.Label("stopped before the start")
				over := make(chan struct{})
				go func() { s.srv.Stop(); close(over) }()
				select {
				case <-over:
				case <-time.After(90 * time.Second):
					t.Failf("the session does not stop", "it was not started; 90s after the call")
				}
				if n := len(s.trk.announces()); n > 0 {
					t.Failf("announced before the start", "%d requests", n)
				}
			}
			s.run()
			cal.play()
		})
		if left != "" {
			t.Failf("activity is left behind", "goroutines of the client remain after Start and Stop have returned (%s)", left)
		}
	})
}

// at gives the script of the nth reply; the last one is repeated.
func (cal *calendar) at(n int) script { return cal.replies[min(n, len(cal.replies)-1)] }

func tpeers(as []addrs30) (out []tpeer) {
	for _, a := range as {
		out = append(out, a.tp)
	}
	return
}

// respell writes an address differently.
func respell(ip string, how int) string {
	p := net.ParseIP(ip)
	if p.To4() != nil {
		if how == 0 {
			return "::ffff:" + ip
		}
		return ip
	}
	switch how {
	case 0:
		return strings.ToUpper(ip)
	case 1:
		var b []string
		for i := 0; i < 16; i += 2 {
			b = append(b, fmt.Sprintf("%02x%02x", p[i], p[i+1]))
		}
		return strings.Join(b, ":")
	}
	return ip
}

func (cal *calendar) play() {
	s, t := cal.session, cal.t
	var began time.Time
	s.until(30*time.Second, 10*time.Millisecond, func() bool {
		if as := s.trk.announces(); len(as) > 0 {
			began = as[0].at
			return true
		}
		return s.returned()
	})
	if began.IsZero() {
		t.Failf("nothing is announced", "no tracker request within 30s; Start returned: %v %v", s.returned(), s.startErr)
	}
	if !s.started() {
		t.Label("announced before listening")
	}
	busy := func() bool {
		for _, d := range s.net.Dials() {
			if time.Since(d.At) < 5*time.Second {
				return true
			}
		}
		return len(s.net.Open()) > 0
	}
	byItself := false
	s.until(cal.stopAt, 250*time.Millisecond, func() bool {
		byItself = s.returned()
		return byItself || cal.early && busy()
	})
	stopped := time.Now()
	if byItself {
		if cal.at(0).ok {
			t.Failf("session ended by itself", "Start returned: %v", s.startErr)
		}
		if s.startErr == nil {
			t.Failf("the failure of the first announce is not reported", "Start returned nil")
		}
		t.Label("ended when the first announce failed")
	}
	anns := s.trk.announces()
	under := ""
	if n := len(anns); n > 0 && anns[n-1].at.Add(cal.at(n-1).took).After(stopped) {
		under = "stopped during an announce"
	}
	for _, c := range s.net.Open() {
		if sc := cal.connOf(c.Other); sc != nil && sc.n == 0 {
			under = "stopped during a handshake"
		} else if sc != nil && len(sc.out) > 0 {
			under = "stopped during a transfer"
		}
	}
	if ds := s.net.Dials(); len(ds) > len(s.netConns()) && stopped.Sub(ds[len(ds)-1].At) < 25*time.Second {
		for _, p := range cal.sw.peers {
			if p.kind == "blackhole" {
				under = "stopped while dialling"
			}
		}
	}
	// stop
	var returned atomic.Int32
	calls := int32(0)
	stop := func() { s.srv.Stop(); returned.Add(1) }
	if !byItself || !cal.noStop {
		calls++
		go stop()
	}
	if cal.again >= 0 && calls > 0 {
		calls++
		go func() {
			time.Sleep(cal.again)
			stop()
		}()
	}
	if !s.until(90*time.Second, 100*time.Millisecond, func() bool { return s.returned() && returned.Load() == calls }) {
		t.Failf("the session does not stop", "90s after the call: Start returned %v, %d of %d Stop calls returned", s.returned(), returned.Load(), calls)
	}
	time.Sleep(20 * time.Second)
	s.check()
	if open := s.net.Open(); len(open) > 0 {
		t.Failf("a connection is left open", "%v, and %d more", open[0], len(open)-1)
	}
	if s.net.Listeners() > 0 {
		t.Failf("the listener is left open", "Start and Stop have returned")
	}
	time.Sleep(20 * time.Second) // the announce of the end may take its time
	if st := remaining(); st != "" {
		t.Failf("activity is left behind", "40s after Start and Stop have returned:\n%s", st)
	}
	if open := s.w.fs.Open(); len(open) > 0 {
		t.Failf("a file is left open", "40s after Start and Stop have returned: %d, as %v", len(open), rel(s.w, open[0]))
	}
	a1, d1, c1 := len(s.trk.announces()), len(s.net.Dials()), len(s.netConns())
	time.Sleep(400 * time.Second)
	if a2, d2, c2 := len(s.trk.announces()), len(s.net.Dials()), len(s.netConns()); a1 != a2 || d1 != d2 || c1 != c2 {
		t.Failf("activity after the stop", "announces %d -> %d, dials %d -> %d, connections %d -> %d", a1, a2, d1, d2, c1, c2)
	}
	s.check()
	cal.judgeAnnounces(stopped, byItself)
	cal.judgeDials(stopped)
	if under != "" {
		t.Label(under)
	}
	if len(s.trk.announces()) >= 4 || under != "" {
		t.NonTrivial()
	}
	close(s.over)
	time.Sleep(time.Second)
}

// remaining gives the stack of a goroutine of the client.
func remaining() string {
	b := make([]byte, 1<<20)
	b = b[:runtime.Stack(b, true)]
	for _, g := range strings.Split(string(b), "\n\n") {
		if strings.Contains(g, "browles/drip/p2p.") || strings.Contains(g, "browles/drip/storage.") {
			return g
		}
	}
	return ""
}

func (s *session) netConns() []*sconn {
	s.mu.Lock()
	defer s.mu.Unlock()
	return slices.Clone(s.conns)
}

func (cal *calendar) judgeAnnounces(stopped time.Time, byItself bool) {
	s, t := cal.session, cal.t
	anns := s.trk.announces()
	var log []string
	for i, a := range anns {
		log = append(log, fmt.Sprintf("%v %q (%s)", a.at.Sub(epoch), a.q.Get("event"), cal.at(i).what))
	}
	hist := strings.Join(log, ", ")
	began := anns[0].at
	startOK, stops, lastStop := false, 0, time.Time{}
	lo, hi := time.Duration(math.MaxInt64), time.Duration(0)
	type note struct {
		at   time.Time
		took time.Duration
		ok   bool
	}
	var last, before note
	for i, a := range anns {
		r := cal.at(i)
		ev := a.q.Get("event")
		if i == 0 && ev != "started" {
			t.Failf("the first announce is not 'started'", "%s", hist)
		}
		if i > 100 && a.at.Sub(anns[i-100].at) < time.Minute {
			t.Failf("flood of announces", "%d announces since %v", len(anns), began.Sub(epoch))
		}
		switch ev {
		case "started":
			if startOK {
				t.Failf("'started' announced again", "%s", hist)
			}
			startOK = r.ok
		case "stopped":
			stops++
			lastStop = a.at
			if a.at.Before(stopped) && !byItself {
				t.Failf("'stopped' announced before the stop", "%s", hist)
			}
			continue
		case "completed":
			continue
		case "":
			if stops > 0 && a.at.After(lastStop.Add(time.Second)) {
				t.Failf("announce after 'stopped'", "%s", hist)
			}
			if a.at.After(stopped.Add(2*time.Second)) && !byItself {
				t.Failf("announce after the stop", "stop at %v: %s", stopped.Sub(epoch), hist)
			}
		default:
			t.Failf("unknown event", "%s", hist)
		}
		// the schedule
		if i > 0 && !cal.absurd && startOK {
			gap := a.at.Sub(last.at)
			if most := hi + last.took + time.Second; gap > most {
				t.Failf("announce too late", "announce %d came %v after the last one, at most %v expected: %s", i, gap, most, hist)
			}
			if ev == "" && last.ok && before.ok {
				if least := lo - max(last.took, before.took) - time.Second; gap < least {
					t.Failf("announce too early", "announce %d came %v after the last one, at least %v expected: %s", i, gap, least, hist)
				}
			}
			if i > 1 {
				s.labels["announce on schedule"]++
			}
		}
		if r.ok && !cal.absurd {
			d := time.Duration(r.interval) * time.Second
			lo, hi = min(lo, d), max(hi, d)
		}
		before, last = last, note{a.at, r.took, r.ok}
		if i == 0 {
			before.ok = true
		}
	}
	if startOK && !cal.absurd && !byItself {
		if gap := stopped.Sub(last.at); gap > hi+last.took+time.Second {
			t.Failf("announces cease", "the last one was %v before the stop: %s", gap, hist)
		}
	}
	if stops > 1 {
		t.Failf("'stopped' announced more than once", "%s", hist)
	}
	if startOK && stops == 0 && anns[0].at.Add(cal.at(0).took).Before(stopped) {
		t.Failf("'stopped' is not announced", "%s", hist)
	}
	t.LabelIf(cal.absurd && startOK, "absurd interval")
	t.LabelIf(s.labels["announce on schedule"] > 0, "announce on schedule")
}

func (cal *calendar) judgeDials(stopped time.Time) {
	s, t := cal.session, cal.t
	dials := map[string]time.Time{} // the first one
	n := map[string]int{}
	s.mu.Lock()
	conns := slices.Clone(s.conns)
	s.mu.Unlock()
	givenAt := map[string][]time.Duration{} // replies that list it
	for i, a := range s.trk.announces() {
		r := cal.at(i)
		if !r.ok {
			key := simnet.Key("1.2.3.4", -1)
			givenAt[key] = append(givenAt[key], a.at.Sub(epoch))
		}
		for _, p := range r.peers {
			key := simnet.Key(p.tp.ip, p.tp.port)
			givenAt[key] = append(givenAt[key], a.at.Add(r.took).Sub(epoch))
		}
	}
	ours := map[string][]*sconn{} // connections by the address dialled
	for _, c := range conns {
		if !c.inbound {
			ours[c.app.RemoteKey()] = append(ours[c.app.RemoteKey()], c)
		}
	}
	byAddr := map[string][]time.Time{}
	for _, d := range s.net.Dials() {
		host, port, err := net.SplitHostPort(d.Addr)
		p, err2 := strconv.Atoi(port)
		if err != nil || err2 != nil {
			t.Failf("malformed address dialled", "%q", d.Addr)
		}
		key := simnet.Key(host, p)
		byAddr[key] = append(byAddr[key], d.At)
		if n[key]++; n[key] == 1 {
			dials[key] = d.At
		} else {
			var given []time.Duration
			for _, at := range givenAt[key] {
				if at <= d.At.Sub(epoch) {
					given = append(given, at)
				}
			}
			if n[key] > len(given) {
				t.Failf("address dialled more often than given", "%s, time %d at %v, first at %v; given at %v", d.Addr, n[key], d.At.Sub(epoch), dials[key].Sub(epoch), given)
			}
			for _, c := range ours[key] {
				if !c.opened.Before(d.At) {
					continue
				}
				if at, ok := c.app.ClosedAt(); !ok || at.After(d.At) {
					t.Failf("address dialled while connected", "%s at %v, connected since %v", d.Addr, d.At.Sub(epoch), c.opened.Sub(epoch))
				}
			}
			t.Label("dialled again")
		}
		if d.At.After(stopped.Add(2 * time.Second)) {
			t.Failf("dialled after the stop", "%s at %v, stop at %v", d.Addr, d.At.Sub(epoch), stopped.Sub(epoch))
		}
	}
	// Whoever is listed when there is neither a dial nor a connection is
	// dialled again.
	for i, a := range s.trk.announces() {
		r, ev := cal.at(i), a.q.Get("event")
		got := a.at.Add(r.took)
		if !r.ok || cal.many > 0 || ev == "stopped" || got.Add(5*time.Second).After(stopped) {
			continue
		}
	peers:
		for _, p := range r.peers {
			if !p.usable {
				continue
			}
			key := simnet.Key(p.tp.ip, p.tp.port)
			tried, again := false, false
			for _, d := range byAddr[key] {
				switch {
				case d.After(got.Add(5 * time.Second)):
				case !d.Before(got):
					again = true
				case got.Sub(d) < 45*time.Second: // may be under way
					continue peers
				default:
					tried = true
				}
			}
			for _, c := range ours[key] {
				if at, ok := c.app.ClosedAt(); !ok || at.Add(2*time.Second).After(got) {
					continue peers
				}
			}
			if !tried {
				continue
			}
			if !again {
				t.Failf("peer is not dialled again", "%s, listed by reply %d at %v, dialled at %v", key, i, got.Sub(epoch), byAddr[key])
			}
			if len(ours[key]) > 0 {
				t.Label("dialled again after a connection")
			} else {
				t.Label("dialled again after a failed dial")
			}
		}
	}
	listed := map[string]bool{}
	times := map[string]int{} // a peer was listed
	for i, a := range s.trk.announces() {
		r := cal.at(i)
		if !r.ok {
			listed[simnet.Key("1.2.3.4", -1)] = true
			continue
		}
		got := a.at.Add(r.took)
		for _, p := range r.peers {
			key := simnet.Key(p.tp.ip, p.tp.port)
			listed[key] = true
			if !p.usable {
				t.Label("unusable peer listed")
				continue
			}
			if cal.many > 0 {
				// No more than fifty at a time need be taken.
				if got.Add(5*time.Second).Before(stopped) && a.q.Get("event") != "stopped" {
					times[key]++
				}
				if _, ok := dials[key]; !ok && times[key] > cal.many/50+1 {
					t.Failf("peer is not dialled", "%s, one of %d, listed by %d replies", key, cal.many, times[key])
				} else if ok && times[key] == 2 {
					t.Label("one of many peers dialled")
				}
				continue
			}
			if at, ok := dials[key]; !ok && got.Add(5*time.Second).Before(stopped) && a.q.Get("event") != "stopped" {
				t.Failf("peer is not dialled", "%s, listed by reply %d at %v", key, i, got.Sub(epoch))
			} else if ok {
				t.Label("peer dialled")
				if strings.Contains(key, "::") {
					t.Label("IPv6 peer dialled")
				}
				if at.After(got.Add(5 * time.Second)) {
					t.Failf("peer is dialled late", "%s, listed by reply %d at %v, dialled at %v", key, i, got.Sub(epoch), at.Sub(epoch))
				}
			}
		}
	}
	for key := range dials {
		if !listed[key] {
			t.Failf("address dialled that nobody listed", "%s", key)
		}
	}
}
