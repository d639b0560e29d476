package sim

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"time"

	"dripverif/engine"
	"dripverif/ref"
	"dripverif/shim/sched"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/pex"
)

func init() {
	if realTime {
		return
	}
	engine.Register(&engine.Prop{
		ID:    "C11",
		Rule:  "announces of several peers at the same time, with generated pauses at every lock and times next to the whole minutes (when the tracker tidies up); every answer must fit some order of the overlapping announces; non-trivial: announces overlapped",
		Quick: 30000, Thorough: 400000, Run: c11conc,
		Assume: []string{"goroutines switch at lock operations; unsynchronised accesses are left to C32"},
	})
}

func c11conc(t *engine.T) {
	nt := t.Range(1, 2)
	var infos []*metainfo.Info
	for i := range nt {
		infos = append(infos, &metainfo.Info{SHA1: [20]byte{byte(i + 1)}, Name: "t", PieceLength: 1})
	}
	scale := time.Duration(1) << t.Range(8, 34)
	prob, seed := t.N(17), uint64(t.Choice(1<<30))
	type step struct {
		at time.Duration
		a  *panounce
	}
	var scripts [][]step
	addrs := t.Range(1, 5)
	for g := range t.Range(2, 6) {
		var as []step
		at := time.Duration(0)
		for n := 0; t.More(n, 8, 20); n++ {
			switch t.Weighted(3, 3, 2) {
			case 0:
				at += time.Duration(t.Choice(uint64(scale)))
			case 1: // around a whole minute
				m := (at/time.Minute + 1) * time.Minute
				if off := time.Duration(t.Choice(uint64(scale)*2)) - scale; m+off > at {
					at = m + off
				}
			case 2:
				at += time.Duration(t.N(100)) * time.Second
			}
			as = append(as, step{at, &panounce{torrent: t.N(nt), ip: fmt.Sprintf("10.0.0.%d", 1+t.N(addrs)), port: 6881 + t.N(2), id: fmt.Sprintf("-id%017d", g), event: Pick(t, "", "", "started", "stopped", "completed")}})
		}
		scripts = append(scripts, as)
		var s []string
		for _, x := range as {
			s = append(s, fmt.Sprintf("%v t%d %s %q", x.at, x.a.torrent, x.a.addr(), x.a.event))
		}
		t.Notef("goroutine %d: %s", g, strings.Join(s, ", "))
	}
	var all []*panounce
	stuck := false
	engine.Bubble(func() { // the tracker's own goroutine never ends
		h := pexHandler(infos)
		start := time.Now()
		var mu sync.Mutex
		n := time.Duration(0)
		now := func() time.Duration { // strictly ascending
			mu.Lock()
			defer mu.Unlock()
			n++
			return time.Since(start) + n
		}
		sched.Start(seed, prob, scale)
		var wg sync.WaitGroup
		for _, as := range scripts {
			for _, x := range as {
				all = append(all, x.a)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, x := range as {
					if d := x.at - time.Since(start); d > 0 {
						time.Sleep(d)
					}
					x.a.inv = now()
					rec := x.a.announce(h, infos[x.a.torrent].SHA1)
					x.a.res = now()
					x.a.read(rec)
				}
			}()
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(24 * time.Hour):
			stuck = true
		}
		sched.Stop()
	})
	if stuck {
		t.Failf("an announce is never answered", "")
	}
	if judgePex(t, all) {
		t.NonTrivial()
		t.Label("announces overlapped")
	}
}

type panounce struct {
	torrent  int
	ip       string
	port     int
	id       string
	event    string
	inv, res time.Duration
	listed   []string // addr/id
	err      string
}

func (a *panounce) addr() string { return fmt.Sprintf("%s:%d", a.ip, a.port) }

func (a *panounce) String() string {
	return fmt.Sprintf("%s %q by %s torrent %d @%v-%v lists %v %s", a.addr(), a.event, a.id, a.torrent, a.inv, a.res, a.listed, a.err)
}

func (a *panounce) announce(h http.Handler, hash [20]byte) *httptest.ResponseRecorder {
	q := url.Values{"info_hash": {string(hash[:])}, "peer_id": {a.id}, "port": {fmt.Sprint(a.port)}, "ip": {a.ip},
		"uploaded": {"0"}, "downloaded": {"0"}, "left": {"1"}, "compact": {"0"}}
	if a.event != "" {
		q.Set("event", a.event)
	}
	rec := httptest.NewRecorder()
	h.ServeHTTP(rec, &http.Request{Method: "GET", URL: &url.URL{Path: "/announce", RawQuery: q.Encode()}, RemoteAddr: "10.9.9.9:1000", Header: http.Header{}})
	return rec
}

func (a *panounce) read(rec *httptest.ResponseRecorder) {
	v, _, err := ref.Parse(rec.Body.Bytes())
	if rec.Code != 200 || err != nil || v.Get("peers") == nil {
		a.err = fmt.Sprintf("answer %d %q", rec.Code, rec.Body.String())
		return
	}
	for _, p := range v.Get("peers").L {
		ip, port, id := p.Get("ip"), p.Get("port"), p.Get("peer id")
		if ip == nil || port == nil || id == nil {
			a.err = "incomplete entry"
			break
		}
		a.listed = append(a.listed, ip.S+":"+port.I+"/"+id.S)
	}
}

// judgePex tells whether announces overlapped.
func judgePex(t *engine.T, all []*panounce) bool {
	overlap := false
	for _, x := range all {
		if x.err != "" {
			t.Failf("announce refused in parallel use", "%v", x)
		}
		seen := map[string]bool{}
		for _, e := range x.listed {
			a, id, _ := strings.Cut(e, "/")
			if seen[a] || a == x.addr() {
				t.Failf("answer lists an address twice or the asker", "%v", x)
			}
			seen[a] = true
			// some announce of it may have been the latest
			ok := false
			for _, y := range all {
				if y.torrent != x.torrent || y.addr() != a || y.id != id || y.event == "stopped" || y.inv > x.res || x.inv-y.res > time.Minute+time.Millisecond {
					continue
				}
				over := false
				for _, z := range all {
					over = over || z.torrent == x.torrent && z.addr() == a && z != y && z.inv > y.res && z.res < x.inv
				}
				ok = ok || !over
			}
			if !ok {
				t.Failf("answer lists a peer that is not there", "%v lists %s", x, e)
			}
		}
		for _, y := range all {
			if y != x && y.torrent == x.torrent && y.inv < x.res && x.inv < y.res {
				overlap = true
			}
			if y.torrent != x.torrent || y.event == "stopped" || y.addr() == x.addr() || y.res >= x.inv || seen[y.addr()] || x.res-y.inv > time.Minute-time.Millisecond {
				continue
			}
			// nothing that began before x ended may have removed it after y
			gone := false
			for _, z := range all {
				gone = gone || z.torrent == x.torrent && z.addr() == y.addr() && z.event == "stopped" && z.res > y.inv && z.inv < x.res
			}
			if !gone {
				t.Failf("answer misses a peer", "%v misses %v", x, y)
			}
		}
	}
	return overlap
}

func pexHandler(infos []*metainfo.Info) http.Handler { return pex.NewHTTP(infos) }
