package sim

import (
	"bytes"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"dripverif/engine"
	"dripverif/shim/sched"

	"github.com/browles/drip/storage"
)

func init() {
	p := &engine.Prop{
		ID:    "C22",
		Rule:  "random torrents, two to six goroutines with random scripts of block writes (good, corrupt, duplicate), reads, resets and waits over few blocks, interleaved by generated virtual-time delays at every lock, file operation and start of an operation; per piece the history must be linearizable against the sequential model (Wing-Gong search with memoisation), waiters included; then the torrent is completed; non-trivial: two operations on the same piece overlapped and a piece was completed during the concurrent phase",
		Quick: 60000, Thorough: 2000000, Limit: 60000, Run: c22,
		Assume: []string{
			"in the simulated runs goroutines switch at lock operations, file operations, channel operations and generated pauses; unsynchronised memory accesses are left to the race detector runs",
		},
	}
	if realTime {
		p.Rule = "the same scripts on truly parallel goroutines under the race detector"
		p.Quick, p.Thorough = 12000, 300000
	}
	engine.Register(p)
}

// cop is one operation of a concurrent history.
type cop struct {
	kind     string // put, reset, get, wait
	piece    int    // -1: the torrent
	b        int
	bad      bool
	begin, n int
	data     []byte
	pause    time.Duration

	inv, resp int64
	res       string // ok, exists, checksum, incomplete, reset, other:...
}

func (o *cop) String() string {
	s := fmt.Sprintf("%s %d", o.kind, o.piece)
	switch o.kind {
	case "put":
		s = fmt.Sprintf("put %d/%d", o.piece, o.b)
		if o.bad {
			s += " corrupt"
		}
	case "get":
		s = fmt.Sprintf("get %d %d+%d", o.piece, o.begin, o.n)
	}
	if o.resp > 0 || o.inv > 0 {
		s += fmt.Sprintf(" @%d-%d: %s", o.inv, o.resp, o.res)
	}
	return s
}

func storageResult(err error) string {
	var cse *storage.ChecksumError
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, storage.ErrBlockExists):
		return "exists"
	case errors.Is(err, storage.ErrIncompletePiece):
		return "incomplete"
	case errors.As(err, &cse):
		return "checksum"
	}
	return "other: " + err.Error()
}

func c22(t *engine.T) {
	withWorld(t, func(w *world) {
		l := genLayout(t, 120000, 4)
		scripts := genScripts(t, l)
		other := genNeighbour(t, l)
		prob, scale := t.N(17), time.Duration(1)<<t.N(12)
		seed := uint64(t.Choice(1 << 30))
		var all []*cop
		run := func() { all = c22run(t, w, l, other, scripts, seed, prob, scale) }
		if realTime {
			run()
		} else if left := engine.Bubble(run); left != "" {
			t.Failf("an operation never returns", "%s", left)
		}
		byPiece := map[int][]*cop{}
		for _, o := range all {
			byPiece[o.piece] = append(byPiece[o.piece], o)
		}
		for i := range l.pieces() {
			h := byPiece[i]
			sort.Slice(h, func(a, b int) bool { return h[a].inv < h[b].inv })
			switch linearizable(h, l.blocks(i)) {
			case "no":
				var s []string
				for _, o := range h {
					s = append(s, o.String())
				}
				t.Failf("history of a piece is not linearizable", "piece %d of %d blocks: %s", i, l.blocks(i), strings.Join(s, "; "))
			case "unknown":
				t.Label("linearizability search given up")
			}
		}
		// waiting on the torrent
		for _, o := range byPiece[-1] {
			if o.res != "ok" {
				t.Failf("wait on the torrent failed", "%s", o.res)
			}
			for i := range l.pieces() {
				done := false
				for _, q := range byPiece[i] {
					if q.kind == "put" && q.res == "ok" && q.inv < o.resp {
						done = true
					}
				}
				if !done {
					t.Failf("released from the torrent before it was complete", "piece %d", i)
				}
			}
		}
	})
}

func genScripts(t *engine.T, l *layout) [][]*cop {
	n := t.Range(2, 6)
	scripts := make([][]*cop, n)
	resets := t.Bool()
	np := l.pieces()
	for g := range scripts {
		var ops []*cop
		pause := func() time.Duration {
			if t.Bool() {
				return 0
			}
			return time.Duration(1+t.N(64)) << t.N(8)
		}
		put := func(i, b int) {
			o := &cop{kind: "put", piece: i, b: b, pause: pause(), bad: resets && t.Prob(1, 12)}
			o.data = bytes.Clone(l.block(i, b))
			if o.bad {
				o.data[t.N(len(o.data))] ^= byte(1 + t.N(255))
			}
			ops = append(ops, o)
		}
		for k := 0; t.More(k, 7, 24); k++ {
			i := t.N(np)
			switch t.Weighted(6, 4, 3, 2, 1) {
			case 0:
				put(i, t.N(l.blocks(i)))
			case 1:
				for _, b := range t.Perm(l.blocks(i)) {
					put(i, b)
				}
			case 2:
				size := l.pieceSize(i)
				o := &cop{kind: "get", piece: i, begin: t.N(size), pause: pause()}
				o.n = 1 + t.N(min(block, size-o.begin))
				ops = append(ops, o)
			case 3:
				o := &cop{kind: "wait", piece: i, pause: pause()}
				if t.Prob(1, 4) {
					o.piece = -1
				}
				ops = append(ops, o)
			case 4:
				if resets {
					ops = append(ops, &cop{kind: "reset", piece: i, pause: pause()})
				}
			}
		}
		scripts[g] = ops
		if len(ops) > 0 {
			var s []string
			for _, o := range ops {
				s = append(s, o.String())
			}
			t.Notef("goroutine %d: %s", g, strings.Join(s, ", "))
		}
	}
	return scripts
}

// neighbour is another torrent that is downloaded over the same directories at
// the same time, with restarts.
type neighbour struct {
	l       *layout
	order   []int
	pauses  []time.Duration
	restart []bool
	reloads []time.Duration // once complete it is loaded again, after these pauses
	early   bool            // it is complete when the others begin
}

func genNeighbour(t *engine.T, l *layout) *neighbour {
	if !t.Prob(1, 4) {
		return nil
	}
	n := &neighbour{l: genLayout(t, 60000, 3)}
	for n.l.name == l.name {
		n.l.name = t.Ident(8)
		n.l.build(t)
	}
	t.Label("two torrents over the same directories")
	n.order = t.Perm(n.l.pieces())
	for range n.order {
		n.pauses = append(n.pauses, time.Duration(t.N(64))<<t.N(12))
		n.restart = append(n.restart, t.Prob(1, 3))
	}
	n.early = t.Bool()
	for range t.N(9) {
		n.reloads = append(n.reloads, time.Duration(1+t.N(64))<<t.N(12))
	}
	return n
}

// run downloads the other torrent, and loads it again after that; begin: the
// others may begin.
func (n *neighbour) run(w *world, note func(string, ...any), begin func()) {
	var s *storage.Storage
	var done []int
	if !n.early {
		begin()
	}
	defer begin()
	open := func() bool {
		s = storage.New(w.target, w.work, n.l.info)
		if err := s.Load(); err != nil {
			note("load of the other torrent failed: %v", err)
			return false
		}
		for _, i := range done {
			if !s.Torrent.Has(i) {
				note("the other torrent lost piece %d", i)
			}
		}
		return true
	}
	if !open() {
		return
	}
	for k, i := range n.order {
		if realTime {
			runtime.Gosched()
		} else {
			time.Sleep(n.pauses[k])
		}
		if n.restart[k] && !open() {
			return
		}
		for b := range n.l.blocks(i) {
			if err := s.PutBlock(i, b*block, bytes.Clone(n.l.block(i, b))); err != nil {
				note("block %d/%d of the other torrent refused: %v", i, b, err)
				return
			}
		}
		done = append(done, i)
		for _, i := range done {
			if data, err := s.GetBlock(i, 0, n.l.pieceSize(i)); err != nil || !bytes.Equal(data, n.l.piece(i)) {
				note("piece %d of the other torrent cannot be read: %v", i, err)
			}
		}
	}
	if err := s.Torrent.Wait(); err != nil {
		note("wait for the other torrent failed: %v", err)
	}
	begin()
	for _, d := range n.reloads {
		if realTime {
			for range d % 8 {
				runtime.Gosched()
			}
		} else {
			time.Sleep(d)
		}
		if !open() {
			return
		}
	}
}

func c22run(t *engine.T, w *world, l *layout, other *neighbour, scripts [][]*cop, seed uint64, prob int, scale time.Duration) []*cop {
	s := storage.New(w.target, w.work, l.info)
	if err := s.Load(); err != nil {
		t.Failf("load failed", "%v", err)
	}
	var mu sync.Mutex
	var clock int64
	var all []*cop
	var waits sync.WaitGroup
	var problem string
	tick := func() int64 { mu.Lock(); defer mu.Unlock(); clock++; return clock }
	note := func(format string, args ...any) {
		mu.Lock()
		defer mu.Unlock()
		if problem == "" {
			problem = fmt.Sprintf(format, args...)
		}
	}
	add := func(o *cop) *cop {
		mu.Lock()
		defer mu.Unlock()
		clock++
		o.inv = clock
		all = append(all, o)
		return o
	}
	exec := func(o *cop) {
		add(o)
		switch o.kind {
		case "put":
			err := s.PutBlock(o.piece, o.b*block, o.data)
			o.res = storageResult(err)
			var cse *storage.ChecksumError
			if errors.As(err, &cse) && cse.Index != o.piece {
				note("%v names another piece", o)
			}
		case "reset":
			if pc := s.ResetPiece(o.piece); pc == nil || pc.Index != o.piece {
				note("%v returned another piece", o)
			}
			o.res = "ok"
		case "get":
			data, err := s.GetBlock(o.piece, o.begin, o.n)
			o.res = storageResult(err)
			if err == nil && !bytes.Equal(data, l.piece(o.piece)[o.begin:o.begin+o.n]) {
				note("%v returned wrong bytes: %s", o, diffBytes(data, l.piece(o.piece)[o.begin:o.begin+o.n]))
			}
		case "wait":
			waits.Add(1)
			started := make(chan struct{})
			go func() {
				defer waits.Done()
				close(started)
				if o.piece < 0 {
					o.res = storageResult(s.Torrent.Wait())
				} else {
					o.res = storageResult(s.GetPiece(o.piece).Wait())
					if strings.HasPrefix(o.res, "other") {
						o.res = "reset"
					}
				}
				o.resp = tick()
			}()
			<-started
			return
		}
		o.resp = tick()
	}
	if !realTime {
		sched.Start(seed, prob, scale)
	}
	var wg sync.WaitGroup
	tree := l.tree()
	if other != nil {
		for k, v := range other.l.tree() {
			tree[k] = v
		}
		wg.Add(1)
		begun := make(chan struct{})
		go func() {
			defer wg.Done()
			other.run(w, note, sync.OnceFunc(func() { close(begun) }))
		}()
		<-begun
	}
	for _, ops := range scripts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, o := range ops {
				if realTime {
					for range o.pause % 8 {
						runtime.Gosched()
					}
				} else if o.pause > 0 {
					time.Sleep(o.pause)
				}
				exec(o)
			}
		}()
	}
	wg.Wait()
	sched.Stop()
	settle()
	overlap, completed := overlaps(all), false
	for i := range l.pieces() {
		completed = completed || s.Torrent.Bitfield.Has(i)
	}
	t.LabelIf(overlap, "operations on one piece overlapped")
	t.LabelIf(completed, "piece completed concurrently")
	if overlap && completed {
		t.NonTrivial()
	}
	// finish the download one by one
	for i := range l.pieces() {
		for b := range l.blocks(i) {
			exec(&cop{kind: "put", piece: i, b: b, data: l.block(i, b)})
		}
		if !s.Torrent.Bitfield.Has(i) {
			exec(&cop{kind: "reset", piece: i})
			for b := range l.blocks(i) {
				exec(&cop{kind: "put", piece: i, b: b, data: l.block(i, b)})
			}
		}
	}
	settle()
	waits.Wait()
	if problem != "" {
		t.Failf("operation returned the wrong thing", "%s", problem)
	}
	want := 0
	for i := range l.pieces() {
		want += l.pieceSize(i)
		if !s.Torrent.Bitfield.Has(i) {
			t.Failf("torrent cannot be completed", "piece %d", i)
		}
		data, err := s.GetBlock(i, 0, l.pieceSize(i))
		if err != nil || !bytes.Equal(data, l.piece(i)) {
			t.Failf("completed piece cannot be read", "piece %d: %v %s", i, err, diffBytes(data, l.piece(i)))
		}
	}
	if s.Downloaded() != int64(want) {
		t.Failf("downloaded count after concurrent use", "got %d want %d", s.Downloaded(), want)
	}
	if err := s.Torrent.Wait(); err != nil {
		t.Failf("wait on the torrent failed", "%v", err)
	}
	if d := diffTree(snapshot(w.target), tree); d != "" {
		t.Failf("torrent completed concurrently differs on disk", "%s", d)
	}
	return all
}

func settle() {
	if !realTime {
		synctest.Wait()
	}
}

func overlaps(all []*cop) bool {
	for i, a := range all {
		for _, b := range all[:i] {
			if a.piece == b.piece && a.kind != "wait" && b.kind != "wait" && a.inv < b.resp && b.inv < a.resp {
				return true
			}
		}
	}
	return false
}

// The sequential model of one piece. A wait is two steps: joining the current
// attempt, and returning its outcome.
const (
	stMissing = '.'
	stGood    = 'g'
	stBad     = 'b'
)

type pstate struct {
	blocks   string
	complete bool
	failed   bool
	epoch    int
	ends     string // outcome of finished attempts: o ok, c checksum, r reset; '?' current
}

func (p pstate) apply(o *cop) (pstate, bool) {
	switch o.kind {
	case "get":
		if p.complete {
			return p, o.res == "ok"
		}
		return p, o.res == "incomplete"
	case "reset":
		if p.complete {
			return p, true
		}
		e := []byte(p.ends)
		if e[p.epoch] == '?' {
			e[p.epoch] = 'r'
		}
		p.ends = string(e) + "?"
		p.epoch++
		p.failed = false
		p.blocks = strings.Repeat(string(stMissing), len(p.blocks))
		return p, true
	case "put":
		if p.complete || p.blocks[o.b] != stMissing {
			return p, o.res == "exists"
		}
		b := []byte(p.blocks)
		b[o.b] = stGood
		if o.bad {
			b[o.b] = stBad
		}
		p.blocks = string(b)
		if strings.IndexByte(p.blocks, stMissing) >= 0 {
			return p, o.res == "ok"
		}
		e := []byte(p.ends)
		if strings.IndexByte(p.blocks, stBad) >= 0 {
			e[p.epoch] = 'c'
			p.failed = true
			p.ends = string(e)
			return p, o.res == "checksum"
		}
		e[p.epoch] = 'o'
		p.complete = true
		p.ends = string(e)
		return p, o.res == "ok"
	}
	return p, false
}

var outcome = map[string]byte{"ok": 'o', "checksum": 'c', "reset": 'r'}

// linearizable searches an order of h that the model accepts: yes, no, unknown.
func linearizable(h []*cop, blocks int) string {
	type ev struct {
		o     *cop
		after int // index of the event that must come first, -1
		join  bool
	}
	var evs []ev
	for _, o := range h {
		if o.kind == "wait" {
			evs = append(evs, ev{o, -1, true}, ev{o, len(evs), false})
		} else {
			evs = append(evs, ev{o, -1, false})
		}
	}
	n := len(evs)
	done := make([]bool, n)
	joined := make([]int, n)
	seen := map[string]bool{}
	steps := 0
	var rec func(p pstate, left int) bool
	rec = func(p pstate, left int) bool {
		if left == 0 {
			return true
		}
		steps++
		if steps > 300000 {
			return false
		}
		var k strings.Builder
		for i := range evs {
			switch {
			case !done[i]:
				k.WriteByte('0')
			case evs[i].join:
				fmt.Fprintf(&k, "j%d", joined[i])
			default:
				k.WriteByte('1')
			}
		}
		fmt.Fprintf(&k, "|%v", p)
		if seen[k.String()] {
			return false
		}
		seen[k.String()] = true
		limit := int64(1) << 62
		for i, e := range evs {
			if !done[i] && e.o.resp < limit {
				limit = e.o.resp
			}
		}
		for i, e := range evs {
			if done[i] || e.o.inv > limit || e.after >= 0 && !done[e.after] {
				continue
			}
			q, ok := p, true
			switch {
			case e.join:
				joined[i] = p.epoch
			case e.o.kind == "wait":
				ok = p.ends[joined[e.after]] == outcome[e.o.res]
			default:
				q, ok = p.apply(e.o)
			}
			if !ok {
				continue
			}
			done[i] = true
			if rec(q, left-1) {
				return true
			}
			done[i] = false
		}
		return false
	}
	if rec(pstate{blocks: strings.Repeat(string(stMissing), blocks), ends: "?"}, n) {
		return "yes"
	}
	if steps > 300000 {
		return "unknown"
	}
	return "no"
}
