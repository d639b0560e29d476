package sim

import (
	"bytes"
	"errors"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"

	"dripverif/engine"
	"dripverif/shim/sched"

	"github.com/browles/drip/api/metainfo"
	trackerapi "github.com/browles/drip/api/tracker"
	"github.com/browles/drip/p2p"
	"github.com/browles/drip/storage"
)

func init() {
	engine.Register(&engine.Prop{ID: "C12", Quick: 50000, Thorough: 1000000, Limit: 20000, Run: c12,
		Rule: "two kinds of cases. Most call the multitracker directly: random tiers of trackers with random URLs (queries, escapes, bare keys), a random torrent with random pieces and blocks on disk, a series of announces of all events, one after the other or overlapping, in virtual time, where each contacted tracker answers, answers late, refuses, fails, breaks off, hangs or sends rubbish; the order of contacts must fit some initial order under the promotion rule and every request must carry exactly the truth. The others run a whole session with peers and compare the reported counters with what went over the wire; non-trivial: a tracker other than the first succeeded after a failure, or announces overlapped, or a session announced while it had transferred something",
		Assume: []string{
			"trackers are reached through net/http's default transport, which is replaced; the URLs of one torrent are distinct and their queries do not contain the names the announce itself uses",
			"\"still missing\" may or may not count the blocks of unfinished pieces",
		}})
}

func c12(t *engine.T) {
	if t.Prob(1, 8) {
		swarmCase(t, "C12")
		return
	}
	multitracker(t)
}

var trackerQueries = []string{"", "", "", "passkey=abcdef", "k=a%26b&x=%00%ff", "bare", "a=1&a=2", "uk=caf%C3%A9&z=", "=v", "plus=a+b", "auth=1%3D2&authorization&q=%2B"}

// ---- trackers called directly ----

type tierModel struct {
	known []int // the front of the tier, in order
	rest  map[int]bool
}

type trackerWorld struct {
	t     *engine.T
	urls  []string
	plain []*url.URL
	tiers []*tierModel
	hosts map[string]int
	info  *metainfo.Info
	id    [20]byte
	port  int
	st    *storage.Storage
	least int64 // bounds of the missing bytes
	most  int64
}

var events = []string{"started", "", "completed", "stopped"}

func multitracker(t *engine.T) {
	l := genLayout(t, 200000, 12)
	tw := &trackerWorld{t: t, hosts: map[string]int{}, info: l.info, port: Pick(t, 6881, 1, 65535, t.N(65536))}
	copy(tw.id[:], t.Bytes(20))
	var list [][]string
	dead := map[string]bool{}
	mk := func() string {
		n := len(tw.urls)
		host := fmt.Sprintf("t%d.test", n)
		u := Pick(t, "http://", "https://") + host + Pick(t, "", ":6969", ":80") + Pick(t, "/announce", "/", "", "/a/b.php", "/x%20y/announce", "/a%2Fb")
		if q := trackerQueries[t.N(len(trackerQueries))]; q != "" {
			u += "?" + q
		}
		switch t.Weighted(12, 1, 1) {
		case 1:
			u = "udp://" + host + ":1337/announce"
			dead[u] = true
		case 2:
			u = Pick(t, "http://[::1", "http://a b/", ":", "%", "http://x/%zz", "announce", "")
			dead[u] = true
		}
		p, err := url.Parse(u)
		if err != nil {
			p = nil
		}
		if !dead[u] {
			tw.hosts[host] = n
		}
		tw.urls, tw.plain = append(tw.urls, u), append(tw.plain, p)
		return u
	}
	tier := func(n int) []string {
		m := &tierModel{rest: map[int]bool{}}
		var us []string
		for range n {
			k := len(tw.urls)
			u := mk()
			us = append(us, u)
			if !dead[u] {
				m.rest[k] = true
			}
		}
		tw.tiers = append(tw.tiers, m)
		return us
	}
	// Now and then gigabytes are missing, of which nothing is fetched here.
	huge := int64(0)
	if t.Prob(1, 12) {
		huge = Pick(t, int64(1)<<31, 1<<32, 1<<33, 1<<40) + int64(t.Choice(1<<33)) - int64(t.Choice(1<<31))
		t.Label("gigabytes missing")
		pl := min(huge/int64(t.Range(1, 20))+1, 1<<32)
		info := &metainfo.Info{Name: l.name, SHA1: l.info.SHA1, PieceLength: int(pl), Length: huge, Pieces: make([][20]byte, (huge+pl-1)/pl)}
		if l.files != nil {
			cut := int64(t.Choice(uint64(huge)))
			info.Length, info.Files = 0, []*metainfo.File{{Length: cut, Path: []string{"a"}}, {Length: huge - cut, Path: []string{"b"}}}
		}
		l.info, tw.info = info, info
		t.Notef("%d bytes in pieces of %d", huge, pl)
	}
	mi := &metainfo.Metainfo{Info: l.info}
	if t.Prob(3, 4) {
		for range t.Range(1, 4) {
			list = append(list, tier(t.Weighted(1, 8, 8, 8, 4, 4)))
		}
		mi.AnnounceList = list
		mi.Announce = Pick(t, "", "http://unused.test/announce") // ignored next to a list
	} else {
		mi.Announce = tier(1)[0]
		if t.Bool() {
			mi.AnnounceList = [][]string{}
		}
	}
	t.Notef("trackers %q announce %q", list, mi.Announce)
	withWorld(t, func(w *world) {
		engine.Bubble(func() {
			var have []int
			n := l.pieces()
			if huge > 0 {
				n = len(l.info.Pieces) - 1
			}
			for i := range n {
				if t.N(3) == 0 {
					have = append(have, i)
				}
			}
			if huge == 0 {
				preload(t, w, l, have)
			} else {
				dir := filepath.Join(w.work, fmt.Sprintf("%x", l.info.SHA1))
				err := os.Mkdir(dir, 0o700)
				for _, i := range have {
					name := filepath.Join(dir, fmt.Sprintf("%d.piece", i))
					err = errors.Join(err, os.WriteFile(name, nil, 0o600), os.Truncate(name, int64(l.info.PieceLength))) // sparse
				}
				if err != nil {
					t.Bugf("%v", err)
				}
			}
			tw.st = storage.New(w.target, w.work, l.info)
			if err := tw.st.Load(); err != nil {
				t.Failf("load failed", "%v", err)
			}
			k := &strk{over: make(chan struct{})}
			defer close(k.over)
			trackerNow = k
			srv := p2p.New(mi, tw.id, tw.st, tw.port)
			tw.most = int64(len(l.content))
			if huge > 0 {
				tw.most = huge - int64(len(have))*int64(l.info.PieceLength)
			} else {
				for _, i := range have {
					tw.most -= int64(l.pieceSize(i))
				}
			}
			tw.least = tw.most
			if huge == 0 && t.Prob(1, 4) {
				sched.Start(t.Choice(1<<30), Pick(t, 2, 8), time.Duration(Pick(t, 1, 100, 10000))*time.Microsecond)
				defer sched.Stop()
				tw.overlapping(srv, k)
				return
			}
			failed := false
			for range t.Range(1, 8) {
				for n := t.Weighted(4, 2, 1); n > 0 && huge == 0; n-- {
					tw.put(l)
				}
				failed = tw.announce(srv, k, failed)
			}
		})
	})
}

// put stores a random block.
func (tw *trackerWorld) put(l *layout) {
	i := tw.t.N(l.pieces())
	b := tw.t.N(l.blocks(i))
	before := tw.st.Torrent.Bitfield.Has(i)
	err := tw.st.PutBlock(i, b*block, bytes.Clone(l.block(i, b)))
	if err != nil && !errors.Is(err, storage.ErrBlockExists) {
		tw.t.Failf("good block refused", "%v", err)
	}
	if err == nil {
		tw.least -= int64(len(l.block(i, b)))
	}
	if !before && tw.st.Torrent.Bitfield.Has(i) {
		tw.most -= int64(l.pieceSize(i))
	}
}

// genReply chooses what a tracker does; ok: it counts as a success.
func genReply(t *engine.T, tag int) (r reply, ok bool, what string) {
	good := func() []byte {
		peers := "0:"
		switch t.N(4) {
		case 0:
			peers = bstr(string([]byte{10, 0, 0, byte(tag), 0x1a, 0xe1}))
		case 1:
			peers = "ld2:ip8:10.0.0.14:porti6881eee"
		case 2:
			peers = "le"
		}
		var b strings.Builder
		b.WriteString("d")
		if t.Bool() {
			b.WriteString("8:completei5e10:incompletei7e")
		}
		fmt.Fprintf(&b, "8:intervali%de", 100+tag)
		if t.Prob(3, 4) {
			b.WriteString("5:peers" + peers)
		}
		if t.Prob(1, 4) {
			b.WriteString("10:tracker id3:xyz15:warning message4:slow")
		}
		b.WriteString("e")
		return []byte(b.String())
	}
	if t.Prob(1, 120) {
		d := Pick(t, "", "d8:intervali60e5:peers", "d8:intervali60e5:peers999999999:", "d8:intervali60e5:peersl", "d8:interval", "l")
		return reply{data: []byte(d), flood: Pick(t, byte('x'), '1', 'l', 'd', 0xff, '0', ' ')}, false, "never ends its reply"
	}
	switch t.Weighted(6, 2, 2, 2, 1, 1, 2, 1, 1) {
	case 0:
		return reply{data: good()}, true, "answers"
	case 1:
		return reply{data: good(), delay: time.Duration(t.N(5000)) * time.Millisecond}, true, "answers late"
	case 2:
		s := "d14:failure reason12:unregistered" + Pick(t, "", "8:intervali60e", "8:intervali60e5:peers0:") + "e"
		return reply{data: []byte(s), delay: time.Duration(t.N(2000)) * time.Millisecond}, false, "refuses"
	case 3:
		return reply{err: errors.New("connection refused")}, false, "unreachable"
	case 4:
		return reply{hang: true}, false, "hangs"
	case 5:
		return reply{data: good()[:t.N(8)], bodyHang: true}, false, "hangs within the reply"
	case 6:
		d := []string{"", "<html>Not Found</html>", "le", "i5e", "4:spam", "d", "i60ee", "d8:interval3:abce", "d5:peersi5ee", "d5:peers5:abcdee", "\x00\x00", "d8:intervali60e5:peersl"}[t.N(12)]
		return reply{data: []byte(d), status: Pick(t, 200, 404, 502)}, false, "sends rubbish"
	case 7:
		g := good()
		return reply{data: g[:t.N(len(g))], bodyErr: true}, false, "breaks off"
	}
	g := good()
	return reply{data: g[:t.N(len(g))]}, false, "sends a part"
}

func call(srv *p2p.Server, ev string) (*trackerapi.Response, error) {
	switch ev {
	case "started":
		return srv.Tracker.Start()
	case "completed":
		return srv.Tracker.Complete()
	case "stopped":
		return srv.Tracker.Stop()
	}
	return srv.Tracker.Announce()
}

// announce performs one announce and follows it in the model.
func (tw *trackerWorld) announce(srv *p2p.Server, k *strk, failedBefore bool) bool {
	t := tw.t
	ev := events[t.N(4)]
	allFail := t.Prob(1, 5)
	type contact struct {
		tracker int
		ok      bool
		what    string
	}
	var got []contact
	base := len(k.log)
	var bad string
	k.respond = func(n int, a announce) reply {
		i, msg := tw.judge(a, ev)
		if msg != "" && bad == "" {
			bad = msg
		}
		r, ok, what := genReply(t, n)
		for allFail && ok {
			r, ok, what = genReply(t, n)
		}
		got = append(got, contact{i, ok, what})
		return r
	}
	begin := time.Now()
	res, err := call(srv, ev)
	describe := fmt.Sprintf("announce %q after %d requests contacted %v, result %v %v", ev, base, got, res, err)
	t.Notef("%s", describe)
	if bad != "" {
		t.Failf("wrong request", "%s; %s", bad, describe)
	}
	if d := time.Since(begin); d > time.Duration(len(got)+1)*5*time.Minute {
		t.Failf("announce takes too long", "%v; %s", d, describe)
	}
	if k.flooded.Load() {
		t.Failf("the reply of a tracker is read without end", "%d bytes; %s", tooMuch, describe)
	}
	if err == nil && res == nil {
		t.Failf("announce without error or reply", "%s", describe)
	}
	// follow the contacts through the tiers
	n := 0
	success := -1
	for ti, m := range tw.tiers {
		pos := 0
		for {
			left := len(m.known) - pos
			if left == 0 && len(m.rest) == 0 {
				break
			}
			if n == len(got) {
				t.Failf("tracker not tried", "tier %d, %d trackers left; %s; order known %v", ti, left+len(m.rest), describe, m.known)
			}
			c := got[n]
			n++
			if left > 0 {
				if c.tracker != m.known[pos] {
					t.Failf("trackers tried in the wrong order", "tier %d: tracker %d instead of %d; %s; known order %v", ti, c.tracker, m.known[pos], describe, m.known)
				}
			} else {
				if !m.rest[c.tracker] {
					t.Failf("trackers tried in the wrong order", "tier %d: tracker %d is not one of the rest %v; %s; known order %v", ti, c.tracker, keys(m.rest), describe, m.known)
				}
				delete(m.rest, c.tracker)
				m.known = append(m.known, c.tracker)
			}
			if c.ok {
				success = n - 1
				x := m.known[pos]
				m.known = slices.Insert(slices.Delete(slices.Clone(m.known), pos, pos+1), 0, x)
				break
			}
			pos++
		}
		if success >= 0 {
			break
		}
	}
	if n != len(got) {
		t.Failf("more trackers tried than necessary", "%d; %s", len(got)-n, describe)
	}
	switch {
	case success >= 0 && err != nil:
		t.Failf("announce fails although a tracker answered", "%s", describe)
	case success < 0 && err == nil:
		t.Failf("announce succeeds although no tracker answered", "%s", describe)
	case success >= 0 && res.Interval != 100+base+success:
		t.Failf("reply of another tracker", "%s", describe)
	}
	if success > 0 {
		t.NonTrivial()
		t.Label("success after a failure")
	}
	if success < 0 {
		t.Label("all trackers failed")
	}
	for _, c := range got {
		t.Label("tracker " + c.what)
	}
	return failedBefore || success < 0
}

func keys(m map[int]bool) (out []int) {
	for k := range m {
		out = append(out, k)
	}
	slices.Sort(out)
	return
}

// judge checks one request and tells which tracker got it.
func (tw *trackerWorld) judge(a announce, ev string) (int, string) {
	i, ok := tw.hosts[a.url.Hostname()]
	if !ok {
		return -1, fmt.Sprintf("unknown tracker %s", a.url)
	}
	u := tw.plain[i]
	if a.method != "GET" || a.url.Scheme != u.Scheme || a.url.Host != u.Host || a.url.EscapedPath() != u.EscapedPath() && !(u.Path == "" && a.url.Path == "/") {
		return i, fmt.Sprintf("%s %s does not match %s", a.method, a.url, u)
	}
	return i, checkParams(a, u, tw.info, tw.id, tw.port, &ev, tw.least, tw.most)
}

// checkParams compares an announce with the truth.
func checkParams(a announce, u *url.URL, info *metainfo.Info, id [20]byte, port int, ev *string, least, most int64) string {
	if a.bad != nil {
		return fmt.Sprintf("query %q: %v", a.url.RawQuery, a.bad)
	}
	one := func(k string) (string, string) {
		v := a.q[k]
		if len(v) != 1 {
			return "", fmt.Sprintf("%d values of %q in %q; ", len(v), k, a.url.RawQuery)
		}
		return v[0], ""
	}
	var bad string
	want := func(k, v string) {
		g, e := one(k)
		bad += e
		if e == "" && g != v {
			bad += fmt.Sprintf("%s is %q, want %q; ", k, g, v)
		}
	}
	want("info_hash", string(info.SHA1[:]))
	want("peer_id", string(id[:]))
	want("port", strconv.Itoa(port))
	if ev != nil {
		if e := a.q["event"]; *ev == "" && len(e) > 0 && !slices.Equal(e, []string{""}) || *ev != "" && !slices.Equal(e, []string{*ev}) {
			bad += fmt.Sprintf("event is %q, want %q; ", e, *ev)
		}
		want("uploaded", "0")
	}
	for _, k := range []string{"uploaded", "downloaded"} {
		g, e := one(k)
		bad += e
		if v, err := strconv.ParseInt(g, 10, 64); e == "" && (err != nil || v < 0) {
			bad += fmt.Sprintf("%s is %q; ", k, g)
		}
	}
	if g, e := one("left"); e != "" {
		bad += e
	} else if v, err := strconv.ParseInt(g, 10, 64); err != nil || v < least || v > most {
		bad += fmt.Sprintf("left is %q, want %d to %d; ", g, least, most)
	}
	orig, err := url.ParseQuery(u.RawQuery)
	if err == nil {
		for k, v := range orig {
			if !slices.Equal(a.q[k], v) {
				bad += fmt.Sprintf("parameter %q of the announce URL became %q, want %q; ", k, a.q[k], v)
			}
		}
	}
	return bad
}

// overlapping announces from several goroutines, then looks whether every
// tracker is still there.
func (tw *trackerWorld) overlapping(srv *p2p.Server, k *strk) {
	t := tw.t
	var mu sync.Mutex
	var bad string
	fails := map[int]int{}
	for i := range tw.urls {
		fails[i] = t.N(4)
	}
	delays := engine.Fill(t.Choice(1<<30), 256)
	k.respond = func(n int, a announce) reply {
		mu.Lock()
		defer mu.Unlock()
		ev := a.q.Get("event")
		i, msg := tw.judge(a, ev)
		if msg != "" && bad == "" {
			bad = msg
		}
		r := reply{delay: time.Duration(delays[n%256]) * 10 * time.Millisecond}
		if delays[(n+i+1)*7%256]%4 < byte(fails[i]) {
			r.err = errors.New("connection refused")
		}
		r.data = []byte(fmt.Sprintf("d8:intervali%dee", 100+n))
		return r
	}
	n := t.Range(2, 5)
	done := make(chan string, n)
	for range n {
		ev := events[t.N(4)]
		start := time.Duration(t.N(3000)) * time.Millisecond
		go func() {
			time.Sleep(start)
			res, err := call(srv, ev)
			switch {
			case err == nil && (res == nil || res.Interval < 100 || res.Interval >= 100+len(k.announces())):
				done <- fmt.Sprintf("announce %q returned %v", ev, res)
			default:
				done <- ""
			}
		}()
	}
	for range n {
		if s := <-done; s != "" {
			t.Failf("wrong result", "%s", s)
		}
	}
	if bad != "" {
		t.Failf("wrong request", "%s", bad)
	}
	// an announce that fails everywhere shows the order of everything
	var got []int
	k.respond = func(n int, a announce) reply {
		i, _ := tw.judge(a, "")
		got = append(got, i)
		return reply{err: errors.New("connection refused")}
	}
	if _, err := srv.Tracker.Announce(); err == nil {
		t.Failf("announce succeeds although no tracker answered", "")
	}
	p := 0
	for ti, m := range tw.tiers {
		want := keys(m.rest)
		if p+len(want) > len(got) {
			t.Failf("trackers lost", "after overlapping announces only %v are contacted", got)
		}
		g := slices.Clone(got[p : p+len(want)])
		p += len(want)
		slices.Sort(g)
		if !slices.Equal(g, want) {
			t.Failf("trackers lost", "after overlapping announces %v are contacted, tier %d should be %v", got, ti, want)
		}
		if len(want) > 1 {
			t.NonTrivial()
			t.Label("overlapping announces")
		}
	}
	if p != len(got) {
		t.Failf("trackers lost", "after overlapping announces %v are contacted", got)
	}
}

// ---- the counters of a session ----

type sample struct {
	at time.Time
	v  int64
}

// announced judges a request of the session's client; called by the transport.
func (s *session) announced(n int, a announce) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, o := range s.conns {
		o.advance()
	}
	s.notePieces()
	a.bad2 = checkParams(a, s.trackerURL, s.l.info, s.id, s.port, nil, 0, int64(len(s.l.content)))
	s.anns = append(s.anns, a)
}

// counters checks in the end what the announces reported.
func (s *session) counters() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for n, a := range s.anns {
		if a.bad2 != "" {
			s.violateLocked("C12", "wrong request", "announce %d: %s", n, a.bad2)
			return
		}
		num := func(k string) int64 { v, _ := strconv.ParseInt(a.q.Get(k), 10, 64); return v }
		lo, hi := int64(0), int64(0)
		for _, x := range s.ups {
			if x.at.Before(a.at.Add(-s.slack())) {
				lo += x.v
			}
			if x.at.Before(a.at.Add(s.slack())) {
				hi += x.v
			}
		}
		if v := num("uploaded"); v < lo || v > hi {
			s.violateLocked("C12", "wrong upload counter in an announce", "announce %d: %d, but %d to %d bytes were sent by then", n, v, lo, hi)
		}
		left := int64(len(s.l.content))
		leftHi := left
		got := int64(0)
		for i, at := range s.verified {
			if at.Before(a.at.Add(s.slack())) {
				left -= int64(s.l.pieceSize(i))
			}
			if at.Before(a.at.Add(-s.slack())) {
				leftHi -= int64(s.l.pieceSize(i))
				if !at.IsZero() {
					got += int64(s.l.pieceSize(i))
				}
			}
		}
		read := int64(0)
		for _, x := range s.downs {
			if x.at.Before(a.at.Add(s.slack())) {
				read += x.v
			}
		}
		if v := num("downloaded"); v < got || v > read {
			s.violateLocked("C12", "wrong download counter in an announce", "announce %d: %d, but pieces with %d bytes were completed and %d bytes read by then", n, v, got, read)
		}
		if v := num("left"); v < min(0, left-read) || v < left-read || v > leftHi {
			s.violateLocked("C12", "wrong number of missing bytes in an announce", "announce %d: %d, but %d to %d bytes were missing", n, v, left, leftHi)
		}
		if n > 0 && (num("uploaded") > 0 || num("downloaded") > 0) {
			s.labels["announce after transfers"]++
		}
	}
}
