//go:build race && !verifsim

package sim

import (
	"bytes"
	"context"
	"encoding/hex"
	"fmt"
	"io"
	"log/slog"
	"math/rand/v2"
	"net"
	"net/http"
	"net/url"
	"reflect"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"dripverif/engine"
	"dripverif/ref"

	"github.com/browles/drip/api/metainfo"
	trackerapi "github.com/browles/drip/api/tracker"
	"github.com/browles/drip/bencode"
	"github.com/browles/drip/p2p"
	"github.com/browles/drip/storage"
)

func init() {
	engine.Register(&engine.Prop{ID: "C32", Quick: 4000, Thorough: 300000, Limit: 20000, Run: c32,
		Rule:   "truly parallel goroutines on several processors under the race detector. Four kinds of cases: a server downloads from and serves two to six scripted peers over loopback TCP (choking, announcing pieces late, lying, breaking off, cancelling) while another goroutine announces, adds peers, unchokes and reads the counters; several goroutines encode and decode values of types the process has never used; several clients announce to the tracker handler at once; several goroutines announce through tiers of good and bad trackers. No data race and no crash, and the results must be those of some order one after the other; non-trivial: a session transferred pieces in both directions or two operations of the same kind overlapped in time",
		Assume: []string{"the race detector reports races of the executions that happened; what the schedule did not bring together is not seen"},
	})
}

func c32(t *engine.T) {
	logging(t.Prob(1, 6))
	onceTransport.Do(func() { http.DefaultTransport = parRT{} })
	switch t.Weighted(4, 3, 2, 2) {
	case 0:
		parSession(t)
	case 1:
		parBencode(t)
	case 2:
		parPex(t)
	case 3:
		parTiers(t)
	}
}

// formatter renders what is logged without any lock of its own, as a handler
// that a user installs may.
type formatter struct{ on bool }

func (f formatter) Enabled(context.Context, slog.Level) bool { return f.on }
func (f formatter) WithAttrs([]slog.Attr) slog.Handler       { return f }
func (f formatter) WithGroup(string) slog.Handler            { return f }
func (f formatter) Handle(_ context.Context, r slog.Record) error {
	var b bytes.Buffer
	r.Attrs(func(a slog.Attr) bool {
		if b.Len() < 2000 {
			fmt.Fprintf(&b, "%s=%v ", a.Key, a.Value)
		}
		return true
	})
	return nil
}

func logging(on bool) { slog.SetDefault(slog.New(formatter{on})) }

// parRT carries the requests to trackers to the function of the current case.
type parRT struct{}

type trackerFunc = func(u *url.URL) (status int, data []byte, err error)

var parTracker atomic.Pointer[trackerFunc]

func setTracker(f trackerFunc) { parTracker.Store(&f) }

var onceTransport sync.Once

func (parRT) RoundTrip(req *http.Request) (*http.Response, error) {
	f := parTracker.Load()
	if f == nil {
		return nil, fmt.Errorf("no tracker")
	}
	status, data, err := (*f)(req.URL)
	if err != nil {
		return nil, err
	}
	return &http.Response{Status: fmt.Sprint(status), StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{},
		Body: io.NopCloser(bytes.NewReader(data)), ContentLength: int64(len(data)), Request: req}, nil
}

func loopAddr(rng *rand.Rand) string {
	return fmt.Sprintf("127.%d.%d.%d", rng.IntN(250)+1, rng.IntN(254), rng.IntN(250)+2)
}

// ---- sessions ----

type parPeer struct {
	n       int
	inbound bool
	ip      string
	id      [20]byte
	has     []int
	late    []int // announced one by one
	busy    int   // messages of the chatter
	lies    bool  // sends a wrong block
	breaks  int   // hangs up after that many answers
	asks    int   // requests it makes when unchoked
	chokes  bool
	split   bool // HAVE messages instead of a bitfield
	rng     *rand.Rand
	lis     net.Listener
}

type parRun struct {
	l       *layout
	port    int
	over    chan struct{}
	problem chan string
	wg      sync.WaitGroup
	served  chan struct{} // a block was received
}

func (r *parRun) fail(format string, args ...any) {
	select {
	case r.problem <- fmt.Sprintf(format, args...):
	default:
	}
}

func freePort() (int, error) {
	l, err := net.Listen("tcp", ":0")
	if err != nil {
		return 0, err
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port, nil
}

func parSession(t *engine.T) {
	withWorld(t, func(w *world) {
		l := genLayout(t, 300000, 24)
		if err := l.plain(); err != "" {
			t.Discard(err)
		}
		np := l.pieces()
		var have []int
		for i := range np {
			if np > 1 && len(have) < np-1 && t.Prob(1, 3) {
				have = append(have, i)
			}
		}
		preload(t, w, l, have)
		t.Notef("session: %d of %d pieces on disk", len(have), np)
		run := &parRun{l: l, over: make(chan struct{}), problem: make(chan string, 8), served: make(chan struct{}, 1)}
		var ps []*parPeer
		for n := range t.Range(2, 6) {
			p := &parPeer{n: n, inbound: t.Bool(), rng: rand.New(rand.NewPCG(t.Choice(1<<32), 7))}
			p.ip = loopAddr(p.rng)
			copy(p.id[:], fmt.Sprintf("-pp-%016d", n))
			for i := range np {
				switch {
				case n == 0 || t.Prob(2, 3):
					if n > 0 && t.Prob(1, 3) {
						p.late = append(p.late, i)
					} else {
						p.has = append(p.has, i)
					}
				}
			}
			p.busy = t.N(30)
			if n > 0 {
				p.lies = t.Prob(1, 8)
				p.chokes = t.Prob(1, 4)
				if t.Prob(1, 5) {
					p.breaks = 1 + t.N(20)
				}
			}
			p.split = t.Prob(1, 3)
			p.asks = t.N(20)
			t.Notef("peer %d: inbound %v, %d pieces and %d later, chatter %d, lies %v, chokes %v, breaks off after %d, asks %d", n, p.inbound, len(p.has), len(p.late), p.busy, p.lies, p.chokes, p.breaks, p.asks)
			ps = append(ps, p)
		}
		meddle := t.N(4)
		early := t.Prob(1, 4)
		compact := t.Bool()
		port, err := freePort()
		if err != nil {
			t.Discard("no port")
		}
		run.port = port
		var listed []tpeer
		for _, p := range ps {
			if p.inbound {
				continue
			}
			if p.lis, err = net.Listen("tcp4", p.ip+":0"); err != nil {
				t.Discard("no port")
			}
			defer p.lis.Close()
			listed = append(listed, tpeer{ip: p.ip, port: p.lis.Addr().(*net.TCPAddr).Port, id: string(p.id[:])})
		}
		reply := trackerReply(1800, listed, compact)
		setTracker(func(u *url.URL) (int, []byte, error) {
			time.Sleep(5 * time.Millisecond)
			return 200, reply, nil
		})
		st := storage.New(w.target, w.work, l.info)
		mi := &metainfo.Metainfo{Announce: "http://tracker.test/announce", Info: l.info}
		srv := p2p.New(mi, [20]byte([]byte("-DR0001-parallelruns")), st, port)
		started := make(chan error, 1)
		go func() { started <- srv.Start() }()
		for _, p := range ps {
			run.wg.Add(1)
			go func() {
				defer run.wg.Done()
				run.peer(p)
			}()
		}
		complete := make(chan error, 1)
		go func() { complete <- st.Torrent.Wait() }()
		meddled := make(chan struct{})
		go func() {
			defer close(meddled)
			for range 2 * meddle {
				select {
				case <-run.over:
					return
				case <-time.After(2 * time.Millisecond):
				}
				_, _, _ = srv.Downloaded(), srv.Uploaded(), st.Downloaded()
				if meddle > 1 {
					_ = srv.Announce(context.Background())
					_ = srv.UnchokePeers(context.Background())
				}
				if meddle > 2 {
					_ = srv.AddPeer(&trackerapi.Peer{IP: "127.0.0.1", Port: 1})
				}
			}
		}()
		limit := 400 * time.Millisecond
		if early {
			limit = time.Duration(1+t.N(20)) * time.Millisecond
		}
		done := false
		var stopErr error
		select {
		case err := <-complete:
			done = true
			if err != nil {
				run.fail("waiting for the torrent returned %v", err)
			}
			<-meddled
			time.Sleep(3 * time.Millisecond)
		case stopErr = <-started:
			close(run.over)
			if strings.Contains(fmt.Sprint(stopErr), "address already in use") {
				t.Discard("port taken")
			}
			t.Failf("server stopped by itself", "%v", stopErr)
		case <-time.After(limit):
		}
		for {
			// nothing to stop before the server runs
			if err := srv.Stop(); err == nil || err.Error() != "p2p: server not started" {
				break
			}
			time.Sleep(time.Millisecond)
		}
		select {
		case <-started:
		case <-time.After(20 * time.Second):
			t.Label("server did not stop within 20 s of real time")
		}
		close(run.over)
		<-meddled
		for _, p := range ps {
			if p.lis != nil {
				p.lis.Close()
			}
		}
		run.wg.Wait()
		select {
		case s := <-run.problem:
			t.Failf("parallel session went wrong", "%s", s)
		default:
		}
		got := 0
		for i := range np {
			data, err := st.GetBlock(i, 0, l.pieceSize(i))
			if err != nil {
				if done || slices.Contains(have, i) {
					t.Failf("piece cannot be read after a parallel session", "piece %d: %v", i, err)
				}
				continue
			}
			got++
			if !bytes.Equal(data, l.piece(i)) {
				t.Failf("piece has the wrong content after a parallel session", "piece %d: %s", i, diffBytes(data, l.piece(i)))
			}
		}
		if done {
			if d := diffTree(snapshot(w.target), l.tree()); d != "" {
				t.Failf("torrent downloaded in parallel differs on disk", "%s", d)
			}
		}
		// what is missing can still be stored; this also ends the goroutine that waits
		for try := 0; !done && try < 1000; try++ {
			for i := range np {
				if _, err := st.GetBlock(i, 0, 1); err == nil {
					continue
				}
				st.ResetPiece(i)
				for b := range l.blocks(i) {
					st.PutBlock(i, b*block, bytes.Clone(l.block(i, b)))
				}
			}
			select {
			case <-complete:
				if d := diffTree(snapshot(w.target), l.tree()); d != "" {
					t.Failf("torrent completed after a parallel session differs on disk", "%s", d)
				}
				done = true
				t.Label("session cut short")
			case <-time.After(time.Millisecond):
			}
		}
		up := false
		select {
		case <-run.served:
			up = true
		default:
		}
		t.LabelIf(up, "session uploaded")
		t.LabelIf(got > len(have), "session downloaded")
		if up && got > len(have) {
			t.NonTrivial()
		}
	})
}

// plain tells why a layout is not used here.
func (l *layout) plain() string {
	if l.pieces() == 0 {
		return "no pieces"
	}
	return ""
}

func (r *parRun) peer(p *parPeer) {
	for try := 0; try < 30; try++ {
		select {
		case <-r.over:
			return
		default:
		}
		if p.inbound {
			d := net.Dialer{LocalAddr: &net.TCPAddr{IP: net.ParseIP(p.ip)}, Timeout: time.Second}
			c, err := d.Dial("tcp4", fmt.Sprintf("127.0.0.1:%d", r.port))
			if err != nil {
				time.Sleep(time.Millisecond)
				continue
			}
			r.talk(p, c)
			if p.breaks == 0 {
				return
			}
		} else {
			c, err := p.lis.Accept()
			if err != nil {
				return
			}
			r.talk(p, c)
		}
	}
}

func (r *parRun) talk(p *parPeer, c net.Conn) {
	defer c.Close()
	end := make(chan struct{})
	defer close(end)
	go func() {
		select {
		case <-r.over:
			c.(*net.TCPConn).SetLinger(0)
			c.Close()
		case <-end:
		}
	}()
	send := func(m msg) error {
		_, err := c.Write(m.bytes())
		return err
	}
	if _, err := c.Write(handshake(r.l.info.SHA1, p.id)); err != nil {
		return
	}
	hs := make([]byte, 68)
	if _, err := io.ReadFull(c, hs); err != nil {
		return
	}
	bf := make([]byte, (r.l.pieces()+7)/8)
	for _, i := range p.has {
		bf[i/8] |= 0x80 >> (i % 8)
	}
	if p.split {
		for _, i := range p.has {
			send(msg{kind: mHave, index: i})
		}
	} else {
		send(msg{kind: mBitfield, data: bf})
	}
	send(msg{kind: mUnchoke})
	send(msg{kind: mInterested})
	// a second goroutine writes on the same connection, as large peers do
	chat := rand.New(rand.NewPCG(p.rng.Uint64(), 1))
	late := slices.Clone(p.late)
	var wg sync.WaitGroup
	wg.Add(1)
	defer wg.Wait()
	go func() {
		defer wg.Done()
		for n := 0; n < p.busy || len(late) > 0; n++ {
			var err error
			switch k := chat.IntN(8); {
			case len(late) > 0 && k < 5:
				err = send(msg{kind: mHave, index: late[0]})
				late = late[1:]
			case k == 5:
				err = send(msg{kind: mInterested})
			case k == 6 && p.chokes:
				if err = send(msg{kind: mChoke}); err == nil {
					time.Sleep(time.Duration(chat.IntN(500)) * time.Microsecond)
					err = send(msg{kind: mUnchoke})
				}
			case k == 7:
				err = send(msg{kind: mKeepalive})
			}
			if err != nil {
				return
			}
			time.Sleep(time.Duration(chat.IntN(300)) * time.Microsecond)
		}
	}()
	rd := make([]byte, 0, 1<<15)
	answers := 0
	for {
		var h [4]byte
		if _, err := io.ReadFull(c, h[:]); err != nil {
			return
		}
		n := int(h[0])<<24 | int(h[1])<<16 | int(h[2])<<8 | int(h[3])
		if n > 1<<20 {
			r.fail("message of %d bytes", n)
			return
		}
		rd = slices.Grow(rd[:0], n)[:n]
		if _, err := io.ReadFull(c, rd); err != nil {
			return
		}
		m, err := parseBody(rd)
		if err != nil {
			r.fail("%v", err)
			return
		}
		switch m.kind {
		case mUnchoke:
			for range p.asks {
				i := p.rng.IntN(r.l.pieces())
				if slices.Contains(p.has, i) {
					continue // the server may not have it
				}
				send(msg{kind: mCancel, index: i, n: 1})
			}
		case mBitfield, mHave:
			// ask for what the server says it has
			var is []int
			if m.kind == mHave {
				is = []int{m.index}
			} else {
				for i := range r.l.pieces() {
					if m.data[i/8]&(0x80>>(i%8)) != 0 {
						is = append(is, i)
					}
				}
			}
			if p.asks > 0 && len(is) > 0 {
				wg.Add(1)
				ask := rand.New(rand.NewPCG(p.rng.Uint64(), 2))
				go func() {
					defer wg.Done()
					// the server unchokes after it has heard from the tracker
					time.Sleep(8 * time.Millisecond)
					for range min(p.asks, 6) {
						i := is[ask.IntN(len(is))]
						begin := ask.IntN(r.l.blocks(i)) * block
						q := msg{kind: mRequest, index: i, begin: begin, n: min(block, r.l.pieceSize(i)-begin)}
						if send(q) != nil {
							return
						}
						if ask.IntN(4) == 0 {
							q.kind = mCancel
							send(q)
						}
					}
				}()
			}
		case mPiece:
			if m.index >= r.l.pieces() || m.begin+len(m.data) > r.l.pieceSize(m.index) || !bytes.Equal(m.data, r.l.piece(m.index)[m.begin:m.begin+len(m.data)]) {
				r.fail("served wrong bytes: %v", m)
				return
			}
			select {
			case r.served <- struct{}{}:
			default:
			}
		case mRequest:
			if m.index >= r.l.pieces() || m.begin+m.n > r.l.pieceSize(m.index) {
				r.fail("impossible request: %v", m)
				return
			}
			data := bytes.Clone(r.l.piece(m.index)[m.begin : m.begin+m.n])
			if p.lies && p.rng.IntN(6) == 0 {
				data[p.rng.IntN(len(data))] ^= 1
			}
			if send(msg{kind: mPiece, index: m.index, begin: m.begin, data: data}) != nil {
				return
			}
			if answers++; p.breaks > 0 && answers >= p.breaks {
				return
			}
		}
	}
}

// ---- bencode ----

// parShape is a random type with the means to make values of it and to write
// them in bencode.
type parShape struct {
	typ  reflect.Type
	make func(t *engine.T) (reflect.Value, *ref.Val)
}

func genShape(t *engine.T, depth int) parShape {
	k := t.Weighted(4, 3, 2, 2, 2)
	if depth <= 0 && k > 1 {
		k -= 2
		k %= 2
	}
	switch k {
	case 0:
		typ := Pick(t, reflect.TypeFor[int](), reflect.TypeFor[int64](), reflect.TypeFor[int16]())
		return parShape{typ, func(t *engine.T) (reflect.Value, *ref.Val) {
			n := int64(t.N(60000)) - 30000
			v := reflect.New(typ).Elem()
			v.SetInt(n)
			return v, ref.IntV(n)
		}}
	case 1:
		typ := reflect.TypeFor[string]()
		return parShape{typ, func(t *engine.T) (reflect.Value, *ref.Val) {
			s := string(t.Bytes(t.N(12)))
			return reflect.ValueOf(s), ref.StrV(s)
		}}
	case 2:
		e := genShape(t, depth-1)
		typ := reflect.SliceOf(e.typ)
		return parShape{typ, func(t *engine.T) (reflect.Value, *ref.Val) {
			v, l := reflect.MakeSlice(typ, 0, 2), []*ref.Val{}
			for range t.N(3) {
				x, y := e.make(t)
				v, l = reflect.Append(v, x), append(l, y)
			}
			return v, ref.ListV(l...)
		}}
	case 3:
		e := genShape(t, depth-1)
		return parShape{reflect.PointerTo(e.typ), func(t *engine.T) (reflect.Value, *ref.Val) {
			x, y := e.make(t)
			p := reflect.New(e.typ)
			p.Elem().Set(x)
			return p, y
		}}
	}
	return genStruct(t, depth-1)
}

// genStruct makes a struct type that is new to the process.
func genStruct(t *engine.T, depth int) parShape {
	var fs []reflect.StructField
	var es []parShape
	var names []string
	for i := range t.Range(1, 6) {
		e := genShape(t, depth)
		name := fmt.Sprintf("%s%d", t.Ident(3), i)
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: e.typ, Tag: reflect.StructTag(fmt.Sprintf("bencode:%q fresh:\"%x\"", name, t.Choice(1<<60)))})
		es, names = append(es, e), append(names, name)
	}
	typ := reflect.StructOf(fs)
	return parShape{typ, func(t *engine.T) (reflect.Value, *ref.Val) {
		v := reflect.New(typ).Elem()
		var kv []ref.KV
		for i, e := range es {
			x, y := e.make(t)
			v.Field(i).Set(x)
			kv = append(kv, ref.KV{K: names[i], V: y})
		}
		return v, ref.DictV(kv...)
	}}
}

// flat compares what matters: empty and nil slices are alike in bencode.
func flat(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return "nil"
		}
		return "&" + flat(v.Elem())
	case reflect.Slice:
		var s []string
		for i := range v.Len() {
			s = append(s, flat(v.Index(i)))
		}
		return "[" + strings.Join(s, " ") + "]"
	case reflect.Struct:
		var s []string
		for i := range v.NumField() {
			s = append(s, flat(v.Field(i)))
		}
		return "{" + strings.Join(s, " ") + "}"
	}
	return fmt.Sprintf("%q", fmt.Sprint(v.Interface()))
}

func parBencode(t *engine.T) {
	type job struct {
		shape  int
		enc    bool
		v      reflect.Value
		want   *ref.Val
		data   []byte
		got    string
		err    error
		stream bool
	}
	var shapes []parShape
	for range t.Range(1, 3) {
		shapes = append(shapes, genStruct(t, 2))
	}
	var scripts [][]*job
	for range t.Range(2, 6) {
		var js []*job
		for n := 0; t.More(n, 4, 10); n++ {
			j := &job{shape: t.N(len(shapes)), enc: t.Bool(), stream: t.Bool()}
			j.v, j.want = shapes[j.shape].make(t)
			j.data = j.want.Bytes()
			js = append(js, j)
		}
		scripts = append(scripts, js)
	}
	t.Notef("bencode: %d goroutines, %d fresh types, first %v", len(scripts), len(shapes), shapes[0].typ)
	begin := make(chan struct{})
	var wg sync.WaitGroup
	var mu sync.Mutex
	var crash string
	for _, js := range scripts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					crash = fmt.Sprint(r)
					mu.Unlock()
				}
			}()
			<-begin
			for _, j := range js {
				switch {
				case j.enc && j.stream:
					var b bytes.Buffer
					j.err = bencode.NewEncoder(&b).Encode(j.v.Interface())
					j.got = b.String()
				case j.enc:
					var b []byte
					b, j.err = bencode.Marshal(j.v.Interface())
					j.got = string(b)
				default:
					p := reflect.New(shapes[j.shape].typ)
					if j.stream {
						j.err = bencode.NewDecoder(bytes.NewReader(j.data)).Decode(p.Interface())
					} else {
						j.err = bencode.Unmarshal(j.data, p.Interface())
					}
					j.got = flat(p.Elem())
				}
			}
		}()
	}
	close(begin)
	wg.Wait()
	if crash != "" {
		t.Failf("bencode panics in parallel use", "%s", crash)
	}
	users := map[int]int{}
	for _, js := range scripts {
		seen := map[int]bool{}
		for _, j := range js {
			if !seen[j.shape] {
				seen[j.shape] = true
				users[j.shape]++
			}
			want := string(j.data)
			if !j.enc {
				want = flat(j.v)
			}
			if j.err != nil || j.got != want {
				t.Failf("bencode gives a different result in parallel use", "type %v, encoding %v: got %q, %v, want %q", shapes[j.shape].typ, j.enc, j.got, j.err, want)
			}
		}
	}
	for _, n := range users {
		if n > 1 {
			t.NonTrivial()
			t.Label("bencode in parallel")
			break
		}
	}
}

// ---- the tracker handler ----

func parPex(t *engine.T) {
	nt := t.Range(1, 2)
	var infos []*metainfo.Info
	for i := range nt {
		infos = append(infos, &metainfo.Info{SHA1: [20]byte{byte(i + 1)}, Name: "t", PieceLength: 1})
	}
	h := pexHandler(infos)
	var scripts [][]*panounce
	addrs := t.Range(1, 5)
	for g := range t.Range(2, 6) {
		var as []*panounce
		for n := 0; t.More(n, 12, 30); n++ {
			as = append(as, &panounce{torrent: t.N(nt), ip: fmt.Sprintf("10.0.0.%d", 1+t.N(addrs)), port: 6881 + t.N(2), id: fmt.Sprintf("-id%017d", g), event: Pick(t, "", "started", "stopped", "completed")})
		}
		scripts = append(scripts, as)
	}
	t.Notef("tracker handler: %d goroutines, %d torrents", len(scripts), nt)
	begin := make(chan struct{})
	var wg sync.WaitGroup
	start := time.Now()
	for _, as := range scripts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-begin
			for _, a := range as {
				a.inv = time.Since(start)
				rec := a.announce(h, infos[a.torrent].SHA1)
				a.res = time.Since(start)
				a.read(rec)
			}
		}()
	}
	close(begin)
	wg.Wait()
	if time.Since(start) > 40*time.Second {
		t.Discard("too slow to tell who has expired")
	}
	var all []*panounce
	for _, as := range scripts {
		all = append(all, as...)
	}
	if judgePex(t, all) {
		t.NonTrivial()
		t.Label("announces overlapped")
	}
}

// ---- tiers of trackers ----

func parTiers(t *engine.T) {
	withWorld(t, func(w *world) {
		l := genLayout(t, 60000, 3)
		mi := &metainfo.Metainfo{Info: l.info}
		good := map[string]bool{}
		tiers := 1 + t.N(3)
		usable := -1
		var names [][]string
		for k := range tiers {
			var tier, hosts []string
			for j := range t.Range(1, 5) {
				host := fmt.Sprintf("t%d-%d.test", k, j)
				good[host] = t.Prob(1, 3) || k == tiers-1 && j == 0
				if good[host] && usable < 0 {
					usable = k
				}
				tier, hosts = append(tier, "http://"+host+"/announce"), append(hosts, host)
			}
			mi.AnnounceList, names = append(mi.AnnounceList, tier), append(names, hosts)
		}
		t.Notef("trackers %v, those that answer %v", names, good)
		srv := p2p.New(mi, [20]byte([]byte("-DR0001-paralleltier")), storage.New(w.target, w.work, l.info), 6881)
		var mu sync.Mutex
		var contacts []string
		setTracker(func(u *url.URL) (int, []byte, error) {
			mu.Lock()
			contacts = append(contacts, u.Host)
			mu.Unlock()
			if u.Query().Get("info_hash") != string(l.info.SHA1[:]) {
				return 400, nil, fmt.Errorf("wrong hash %s", hex.EncodeToString([]byte(u.Query().Get("info_hash"))))
			}
			if !good[u.Host] {
				return 200, []byte("d14:failure reason2:noe"), nil
			}
			return 200, []byte("d8:intervali" + fmt.Sprint(1000+slices.Index(names[usable], u.Host)) + "e5:peers0:e"), nil
		})
		n := t.Range(2, 5)
		calls := t.Range(1, 5)
		begin := make(chan struct{})
		var wg sync.WaitGroup
		errs := make(chan string, 64)
		for range n {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-begin
				for k := range calls {
					call := []func() (*trackerapi.Response, error){srv.Tracker.Announce, srv.Tracker.Start, srv.Tracker.Complete, srv.Tracker.Stop}[k%4]
					res, err := call()
					if err != nil {
						errs <- err.Error()
						return
					}
					if i := res.Interval - 1000; i < 0 || i >= len(names[usable]) || !good[names[usable][i]] {
						errs <- fmt.Sprintf("answer with interval %d came from nowhere", res.Interval)
					}
				}
			}()
		}
		close(begin)
		wg.Wait()
		select {
		case e := <-errs:
			t.Failf("announcing in parallel fails", "%s", e)
		default:
		}
		contacts = nil
		if _, err := srv.Tracker.Announce(); err != nil {
			t.Failf("announcing in parallel fails", "afterwards: %v", err)
		}
		// every tracker of the tiers before it once, then a good one at once
		at := 0
		for k := range usable {
			end := min(len(contacts), at+len(names[k]))
			got, want := slices.Clone(contacts[at:end]), slices.Clone(names[k])
			sort.Strings(got)
			sort.Strings(want)
			if !slices.Equal(got, want) {
				t.Failf("tier damaged by announcing in parallel", "contacted %v", contacts)
			}
			at = end
		}
		if len(contacts) != at+1 {
			t.Failf("working tracker not preferred after announcing in parallel", "contacted %v", contacts)
		}
		t.NonTrivial()
		t.Label("announces through tiers overlapped")
	})
}
