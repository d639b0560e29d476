package sim

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/p2p"
	"github.com/browles/drip/storage"

	"dripverif/engine"
	simnet "dripverif/shim/net"
	shimos "dripverif/shim/os"
	"dripverif/shim/sched"
)

// Several sessions of the client with each other and nobody else.

// one is a client among others.
type one struct {
	n    int
	have []int
	runs []span // of its sessions, the last one without end
	wall bool   // cannot be dialled
	port int
	id   [20]byte
	w    *world

	st       *storage.Storage
	srv      *p2p.Server
	done     chan struct{}
	up, down int64 // of sessions that have ended
}

type together struct {
	t        *engine.T
	l        *layout
	net      *simnet.Net
	ones     []*one
	interval int
	compact  bool
	knows    bool // the tracker has heard of everyone before
	selves   bool // and lists the asker as well
	down     int  // announces that fail at first

	mu     sync.Mutex
	listed map[int]bool
	log    []string
	stuck  []int // sessions that did not end
	open   []*simnet.End
	breaks []glitch
	rng    *rand.Rand
}

// glitch breaks connections.
type glitch struct {
	at    time.Duration
	every bool
}

// addr is where x reaches y, and where x sees y come from.
func (x *one) addr(y *one) string { return fmt.Sprintf("10.%d.0.%d", x.n+1, y.n+1) }

func (g *together) notef(format string, args ...any) {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.log = append(g.log, fmt.Sprintf("%v: ", time.Since(epoch))+fmt.Sprintf(format, args...))
}

// respond is the tracker.
func (g *together) respond(n int, a announce) reply {
	g.mu.Lock()
	defer g.mu.Unlock()
	port, _ := strconv.Atoi(a.q.Get("port"))
	var me *one
	for _, x := range g.ones {
		if x.port == port {
			me = x
		}
	}
	if me == nil {
		return reply{status: 400}
	}
	g.log = append(g.log, fmt.Sprintf("%v: %d announces %s", time.Since(epoch), me.n, a.q.Get("event")))
	if n < g.down && a.q.Get("event") == "" {
		return reply{status: 500}
	}
	g.listed[me.n] = a.q.Get("event") != "stopped"
	var ps []tpeer
	for _, y := range g.ones {
		if g.listed[y.n] && (y != me || g.selves) {
			ps = append(ps, tpeer{me.addr(y), y.port, string(y.id[:])})
		}
	}
	g.rng.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	// Trackers do not answer all at the same moment for ever.
	return reply{data: trackerReply(g.interval, ps, g.compact), delay: time.Duration(g.rng.IntN(4)*g.rng.IntN(1000)) * time.Millisecond}
}

// relay connects the end of a dial by x to y.
func (g *together) relay(x, y *one, a *simnet.End) {
	b, err := g.net.Connect(y.addr(x), a.RemoteAddr().(*simnet.TCPAddr).Port, y.port, nil)
	if err != nil {
		a.Close()
		return
	}
	g.mu.Lock()
	g.open = append(g.open, a, b)
	g.mu.Unlock()
	pump := func(from, to *simnet.End) {
		buf := make([]byte, 1<<15)
		for {
			n, err := from.Read(buf)
			if n > 0 {
				if _, err := to.Write(buf[:n]); err != nil {
					from.Abort()
					return
				}
			}
			if err != nil {
				to.Close()
				return
			}
		}
	}
	go pump(a, b)
	pump(b, a)
}

func (g *together) start(x *one) {
	x.st = storage.New(x.w.target, x.w.work, g.l.info)
	x.srv = p2p.New(&metainfo.Metainfo{Announce: "http://tracker.test/announce", Info: g.l.info}, x.id, x.st, x.port)
	x.done = make(chan struct{})
	g.notef("%d starts", x.n)
	go func(done chan struct{}, srv *p2p.Server) {
		if err := srv.Start(); err != nil {
			g.notef("%d ends: %v", x.n, err)
		}
		close(done)
	}(x.done, x.srv)
}

func (g *together) stop(x *one) {
	g.notef("%d stops", x.n)
	go x.srv.Stop()
	select {
	case <-x.done:
	case <-time.After(10 * time.Minute):
		g.mu.Lock()
		g.stuck = append(g.stuck, x.n)
		g.mu.Unlock()
	}
	x.up += x.srv.Uploaded()
	x.down += x.srv.Downloaded()
}

// missing counts the pieces that x lacks.
func (g *together) missing(x *one) (n int) {
	bf := x.st.Torrent.Have()
	for i := range g.l.pieces() {
		if !bf.Has(i) {
			n++
		}
	}
	return n
}

func togetherCase(t *engine.T) {
	t.Label("clients among themselves")
	g := &together{t: t, listed: map[int]bool{}, interval: t.Range(20, 90), compact: t.Bool(), knows: t.Bool(), selves: t.Prob(1, 3)}
	conf := genConf(t)
	c := &conf.link
	c.Latency, c.Jitter, c.Window, c.Cut = min(c.Latency, 100*time.Millisecond), min(c.Jitter, 100*time.Millisecond), max(c.Window, 1<<15), max(c.Cut, 1000)*min(c.Cut, 1)
	if t.Prob(1, 4) {
		g.l = genSwarmLayout(t)
	} else {
		g.l = genLayout(t, Pick(t, 200000, 60000), Pick(t, 12, 4, 30))
	}
	g.rng = rand.New(rand.NewPCG(conf.seed, 5))
	g.down = Pick(t, 0, 0, 0, 3)
	n := t.Range(2, 6)
	stay := t.Range(1, n)
	density := Pick(t, 0, 0, 2, 5)
	for i := range n {
		x := &one{n: i, port: 7000 + i}
		copy(x.id[:], fmt.Sprintf("-DR%04d-%012x", i, t.Choice(1<<40)))
		x.wall = i >= stay && t.Bool()
		var at time.Duration
		if !g.knows || t.Bool() {
			at = Durations(t, 90*time.Second)
		}
		if x.wall && g.knows { // nobody is dialled before being there, or never again
			at = max(at, 5*time.Second)
		}
		if i >= stay {
			for range t.N(3) {
				d := Durations(t, 60*time.Second)
				x.runs = append(x.runs, span{at, d})
				at += d + 15*time.Second + Durations(t, 60*time.Second)
			}
		}
		x.runs = append(x.runs, span{at, 0})
		g.ones = append(g.ones, x)
	}
	for range Pick(t, 0, 0, 1, 3) {
		g.breaks = append(g.breaks, glitch{Durations(t, 200*time.Second), t.Bool()})
		t.Notef("connections break: %v", g.breaks)
	}
	for i := range g.l.pieces() {
		owner := t.N(stay)
		for j, x := range g.ones {
			if j == owner || t.N(8) < density {
				x.have = append(x.have, i)
			}
		}
	}
	for _, x := range g.ones {
		t.Notef("client %d: has %v, runs %v, behind a wall %v", x.n, x.have, x.runs, x.wall)
	}
	withWorld(t, func(w *world) {
		w.fs = &shimos.FS{}
		for _, x := range g.ones {
			name := fmt.Sprint(x.n)
			x.w = &world{base: w.base, target: filepath.Join(w.target, name), work: filepath.Join(w.work, name)}
			os.Mkdir(x.w.target, 0o700)
			os.Mkdir(x.w.work, 0o700)
			w.fs.Roots = append(w.fs.Roots, x.w.target, x.w.work)
		}
		shimos.Install(w.fs)
		engine.Bubble(func() { g.play(conf) })
	})
}

func (g *together) play(conf swarmConf) {
	t := g.t
	for _, x := range g.ones {
		preload(t, x.w, g.l, x.have)
		if g.knows && x.runs[0].at == 0 {
			g.listed[x.n] = true
		}
	}
	g.net = simnet.NewNet(conf.link)
	simnet.Install(g.net)
	over := make(chan struct{})
	trackerNow = &strk{over: over, respond: g.respond}
	for _, x := range g.ones {
		for _, y := range g.ones {
			g.net.SetHost(x.addr(y), y.port, &simnet.Host{Refuse: y.wall && x != y, Handle: func(a *simnet.End) { g.relay(x, y, a) }})
		}
	}
	sched.Start(conf.seed, conf.prob, max(conf.scale, 1))
	var wg sync.WaitGroup
	for _, x := range g.ones {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, r := range x.runs {
				time.Sleep(r.at - time.Since(epoch))
				g.start(x)
				if r.dur > 0 || r != x.runs[len(x.runs)-1] {
					for !g.net.Listening(x.port) {
						time.Sleep(time.Second)
					}
					time.Sleep(r.dur)
					g.stop(x)
				}
			}
		}()
	}
	for _, b := range g.breaks {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(b.at)
			g.mu.Lock()
			defer g.mu.Unlock()
			g.log = append(g.log, fmt.Sprintf("%v: connections break", time.Since(epoch)))
			for i := 0; i < len(g.open); i += 2 {
				if b.every || g.rng.IntN(2) == 0 {
					g.open[i].Abort()
					g.open[i+1].Abort()
				}
			}
		}()
	}
	defer func() {
		sched.Stop()
		close(over)
		for _, x := range g.ones {
			if x.srv == nil {
				continue
			}
			go x.srv.Stop()
		}
		for _, x := range g.ones {
			if x.done != nil {
				select {
				case <-x.done:
				case <-time.After(10 * time.Minute):
				}
			}
		}
	}()
	wg.Wait()
	if len(g.stuck) > 0 {
		t.Failf("session does not end when stopped", "%v\n%s", g.stuck, strings.Join(g.log, "\n"))
	}
	missing := 0
	for end := time.Now().Add(900 * time.Second); ; time.Sleep(time.Second) {
		missing = 0
		for _, x := range g.ones {
			missing += g.missing(x)
		}
		if missing == 0 || time.Now().After(end) {
			break
		}
	}
	sched.Stop()
	if missing > 0 {
		var b strings.Builder
		for _, x := range g.ones {
			fmt.Fprintf(&b, "client %d lacks %d; ", x.n, g.missing(x))
		}
		g.mu.Lock()
		defer g.mu.Unlock()
		t.Failf("clients do not complete each other's download", "%s\n%s", b.String(), strings.Join(g.log[max(0, len(g.log)-60):], "\n"))
	}
	time.Sleep(30 * time.Second)
	var up, down int64
	for _, x := range g.ones {
		if d := diffTree(snapshot(x.w.target), g.l.tree()); d != "" {
			t.Failf("wrong files after the download", "client %d: %s", x.n, d)
		}
		up += x.up + x.srv.Uploaded()
		down += x.down + x.srv.Downloaded()
	}
	if down > up {
		t.Failf("more downloaded than uploaded", "%d, %d", down, up)
	}
	if len(g.ones) > 1 && down > 0 {
		t.NonTrivial()
	}
}
