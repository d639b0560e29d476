package plain

import (
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"time"

	"dripverif/engine"
	"dripverif/ref"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/pex"
)

func init() {
	engine.Register(&engine.Prop{
		ID:    "C11",
		Rule:  "random histories of announces (torrents, addresses in several spellings, ports, events, compact or not, malformed ones) and waits in virtual time against a model of the peer table; non-trivial: some response has to list a peer",
		Quick: 120000, Thorough: 1200000, Run: c11,
		Assume: []string{"a peer last heard of exactly 60 s ago may or may not be listed", "one announce at a time (the handler serialises announces per torrent)"},
	})
}

// pexAddr is one address in several spellings.
type pexAddr struct {
	ip        net.IP
	spellings []string
}

var pexAddrs = []pexAddr{
	{net.ParseIP("10.0.0.1"), []string{"10.0.0.1", "::ffff:10.0.0.1", "::ffff:a00:1", "0:0:0:0:0:FFFF:10.0.0.1"}},
	{net.ParseIP("10.0.0.2"), []string{"10.0.0.2", "::FFFF:10.0.0.2"}},
	{net.ParseIP("192.168.7.255"), []string{"192.168.7.255"}},
	{net.ParseIP("2001:db8::1"), []string{"2001:db8::1", "2001:DB8:0::1", "2001:0db8:0000:0000:0000:0000:0000:0001"}},
	{net.ParseIP("::1"), []string{"::1", "0::1"}},
	{net.ParseIP("255.255.255.255"), []string{"255.255.255.255"}},
}

type pexPeer struct {
	id, ip  string
	port    int
	at      time.Time
	stopped bool
}

func c11(t *engine.T) {
	nt := t.Range(1, 3)
	var infos []*metainfo.Info
	var hashes [][20]byte
	for i := range nt {
		h := hash20(t)
		h[0] = byte(i)
		hashes = append(hashes, h)
		infos = append(infos, &metainfo.Info{SHA1: h, Name: fmt.Sprint("t", i), PieceLength: 1})
	}
	engine.Bubble(func() {
		h := pex.NewHTTP(infos)
		model := make([]map[string]*pexPeer, nt)
		for i := range model {
			model[i] = map[string]*pexPeer{}
		}
		for n := 0; t.More(n, 14, 60); n++ {
			if t.Prob(1, 4000) {
				c11crowd(t, h, hashes, model)
				continue
			}
			if t.Prob(1, 4) {
				d := time.Duration([]int{1, 500, 15000, 29900, 30000, 45000, 59999, 60000, 60001, 61000, 120001, 200000}[t.N(12)]) * time.Millisecond
				t.Notef("wait %v", d)
				time.Sleep(d)
				continue
			}
			c11announce(t, h, hashes, model)
		}
	})
}

// c11crowd lets many peers in at once.
func c11crowd(t *engine.T, h http.Handler, hashes [][20]byte, model []map[string]*pexPeer) {
	ti, n, step := t.N(len(hashes)), t.Range(20, 300), time.Duration(t.N(3))*100*time.Millisecond
	six := t.Prob(1, 3)
	t.Label("crowd")
	t.Notef("%d peers announce t%d, %v apart", n, ti, step)
	for i := range n {
		ip := fmt.Sprintf("10.1.%d.%d", i/256, i%256)
		if six && i%3 == 0 {
			ip = fmt.Sprintf("2001:db8::%x", i)
		}
		id := fmt.Sprintf("-id%017d", 1000+i)
		q := "info_hash=" + escAll(string(hashes[ti][:])) + "&peer_id=" + id + "&port=6881&left=5"
		req := &http.Request{Method: "GET", URL: &url.URL{Path: "/announce", RawQuery: q}, RemoteAddr: net.JoinHostPort(ip, "4000"), Header: http.Header{}, Host: "tracker", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, RequestURI: "/announce?" + q}
		h.ServeHTTP(httptest.NewRecorder(), req)
		model[ti][fmt.Sprintf("%s|%d", net.ParseIP(ip), 6881)] = &pexPeer{id: id, ip: net.ParseIP(ip).String(), port: 6881, at: time.Now()}
		time.Sleep(step)
	}
}

func c11announce(t *engine.T, h http.Handler, hashes [][20]byte, model []map[string]*pexPeer) {
	ti := t.N(len(hashes))
	hash := string(hashes[ti][:])
	a := pexAddrs[t.N(len(pexAddrs))]
	port := []int{6881, 6882, 1, 65535, 80}[t.N(5)]
	id := fmt.Sprintf("-id%017d", t.N(6))
	if t.Prob(1, 8) {
		id = string(engine.Fill(t.Choice(1<<20), 20))
	}
	event := []string{"", "started", "stopped", "completed"}[t.Weighted(4, 3, 3, 1)]
	compact := []string{"0", "1", ""}[t.N(3)]
	remote := net.JoinHostPort(a.spellings[t.N(len(a.spellings))], fmt.Sprint(t.Range(1, 65535)))
	var kv [][2]string
	if t.Prob(1, 2) {
		kv = append(kv, [2]string{"ip", a.spellings[t.N(len(a.spellings))]})
		remote = fmt.Sprintf("172.16.0.%d:%d", t.Range(1, 254), t.Range(1, 65535))
	}
	ports := fmt.Sprint(port)
	bad := ""
	switch t.Weighted(30, 1, 1, 1, 2, 1, 1, 1) {
	case 1:
		bad = "unknown hash"
		b := []byte(hash)
		b[t.N(20)] ^= byte(1 + t.N(255))
		hash = string(b)
		for i := range hashes {
			if string(hashes[i][:]) == hash {
				bad, ti = "", i
			}
		}
	case 2:
		bad = "no hash"
		hash = ""
		for i := range hashes {
			if hashes[i] == [20]byte{} {
				bad, ti = "", i
				hash = string(hashes[i][:])
			}
		}
	case 3:
		bad = "hash of the wrong length"
		hash = hash[:t.Range(1, 19)]
		if t.Bool() {
			hash = string(hashes[ti][:]) + "x"
		}
	case 4:
		bad = "port"
		ports = []string{"0", "65536", "-1", "70000", "-65535", "4294967297", "99999999999999999999", "x", "", "6881x", "0x10", "1.5", "131072"}[t.N(13)]
	case 5:
		bad = "ip"
		kv = [][2]string{{"ip", []string{"x", "10.0.0", "10.0.0.256", "example.com", "10.0.0.1:80", "[::1]", "1.2.3.4.5", " 10.0.0.1", "2001:db8::1::2"}[t.N(9)]}}
	case 6:
		bad = "number"
		kv = append(kv, [2]string{Pick3(t, "uploaded", "downloaded", "left"), Pick3(t, "x", "1e3", "99999999999999999999")})
	case 7:
		bad = "peer id of the wrong length"
		id = id[:t.Range(1, 19)]
	}
	kv = append(kv, [2]string{"info_hash", hash}, [2]string{"peer_id", id}, [2]string{"port", ports})
	if event != "" {
		kv = append(kv, [2]string{"event", event})
	}
	if compact != "" {
		kv = append(kv, [2]string{"compact", compact})
	}
	if bad != "number" && t.Bool() {
		kv = append(kv, [2]string{"left", "5"}, [2]string{"uploaded", "0"})
	}
	if t.Prob(1, 4) {
		kv = append(kv, [2]string{"numwant", "50"}, [2]string{"key", "zz"})
	}
	var parts []string
	for _, i := range t.Perm(len(kv)) {
		if kv[i][1] == "" {
			continue
		}
		parts = append(parts, kv[i][0]+"="+escAll(kv[i][1]))
	}
	q := strings.Join(parts, "&")
	if bad == "" && t.Prob(1, 30) {
		bad = "query"
		q += Pick3(t, "&x=%zz", "&a=%", "&b=1;c=2")
	}
	if bad != "" {
		t.Label("refused: " + bad)
	}
	t.Notef("announce t%d %s:%s from %s id=%q event=%q compact=%q bad=%q", ti, a.ip, ports, remote, id, event, compact, bad)
	req := &http.Request{Method: "GET", URL: &url.URL{Path: "/announce", RawQuery: q}, RemoteAddr: remote, Header: http.Header{}, Host: "tracker", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, RequestURI: "/announce?" + q}
	rec := httptest.NewRecorder()
	h.ServeHTTP(rec, req)
	body := rec.Body.Bytes()
	v, n, err := ref.Parse(body)
	if err != nil || n != len(body) || v.K != ref.Dict {
		t.Failf("response is not a bencoded dictionary", "status %d body %q (%v)", rec.Code, body, err)
	}
	reason := v.Get("failure reason")
	if bad != "" {
		if reason == nil || reason.K != ref.Str || reason.S == "" {
			t.Failf("bad announce accepted", "%s: query %q answered %q", bad, q, body)
		}
		if v.Get("peers") != nil && (v.Get("peers").S != "" || len(v.Get("peers").L) > 0) {
			t.Failf("peers in a refusal", "%q", body)
		}
		return
	}
	if reason != nil || rec.Code != 200 {
		t.Failf("good announce refused", "query %q from %s answered %d %q", q, remote, rec.Code, body)
	}
	if iv := v.Get("interval"); iv == nil || iv.K != ref.Int || iv.Big().Sign() <= 0 || iv.Big().Int64() > 60 {
		t.Failf("interval", "peers that follow the interval would expire: %q", body)
	}
	now := time.Now()
	m := model[ti]
	key := fmt.Sprintf("%s|%d", a.ip, port)
	m[key] = &pexPeer{id: id, ip: a.ip.String(), port: port, at: now, stopped: event == "stopped"}
	// what has to be, and what may be, in the response
	must, may := map[string]int{}, map[string]int{}
	for k, p := range m {
		age := now.Sub(p.at)
		if k == key || p.stopped || age > time.Minute {
			continue
		}
		e := fmt.Sprintf("%q %s %d", p.id, p.ip, p.port)
		if compact == "1" {
			if net.ParseIP(p.ip).To4() == nil {
				continue
			}
			e = fmt.Sprintf("%s %d", p.ip, p.port)
		}
		may[e]++
		if age < time.Minute {
			must[e]++
		}
	}
	if len(must) > 0 {
		t.NonTrivial()
	}
	t.LabelIf(len(must) > 0, "lists a peer")
	t.LabelIf(compact == "1", "compact")
	peers := v.Get("peers")
	if peers == nil {
		t.Failf("no peers key", "%q", body)
	}
	got := map[string]int{}
	switch {
	case compact == "1":
		if peers.K != ref.Str || len(peers.S)%6 != 0 {
			t.Failf("compact peers", "%q", body)
		}
		for b := peers.S; len(b) > 0; b = b[6:] {
			got[fmt.Sprintf("%s %d", net.IPv4(b[0], b[1], b[2], b[3]), int(b[4])<<8|int(b[5]))]++
		}
	default:
		if peers.K != ref.List {
			t.Failf("dictionary peers", "%q", body)
		}
		for _, p := range peers.L {
			if p.K != ref.Dict || p.Get("ip") == nil || p.Get("port") == nil || p.Get("peer id") == nil || p.Get("ip").K != ref.Str || p.Get("peer id").K != ref.Str || p.Get("port").K != ref.Int {
				t.Failf("dictionary peers", "%q", body)
			}
			ip := net.ParseIP(p.Get("ip").S)
			if ip == nil {
				t.Failf("unusable ip in response", "%q", body)
			}
			got[fmt.Sprintf("%q %s %s", p.Get("peer id").S, ip, p.Get("port").I)]++
		}
	}
	for e, n := range must {
		if got[e] < n {
			t.Failf("live peer missing", "expected %s, got %s", e, dump(got))
		}
	}
	for e, n := range got {
		if n > may[e] {
			t.Failf("peer listed that should not be", "%s (%d times, %d allowed); allowed %s", e, n, may[e], dump(may))
		}
	}
}

func Pick3(t *engine.T, xs ...string) string { return xs[t.N(len(xs))] }

func dump(m map[string]int) string {
	var l []string
	for k, n := range m {
		l = append(l, fmt.Sprintf("%s x%d", k, n))
	}
	sort.Strings(l)
	return "[" + strings.Join(l, ", ") + "]"
}
