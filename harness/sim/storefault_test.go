package sim

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"dripverif/engine"
	shimos "dripverif/shim/os"

	"github.com/browles/drip/storage"
)

func init() {
	assume := []string{
		"a crash is the death of the process: what was written before stays written (no loss of the page cache)",
		"torrents are well formed and the directories hold nothing else",
	}
	engine.Register(&engine.Prop{
		ID:    "C20",
		Rule:  "random torrents and histories of writes, corruptions, resets and restarts; for each history every file-system operation in turn (a random 60 of them for longer histories) becomes a crash, writes partly done, followed by a new session that may crash as well; non-trivial: at least one crash with a completed piece on disk",
		Quick: 2500, Thorough: 60000, Limit: 60000, Run: c20, Assume: assume,
	})
	engine.Register(&engine.Prop{
		ID:    "C21",
		Rule:  "random torrents and histories as for C20; for each history every file-system operation in turn (a random 60 for longer ones) fails once with EIO, ENOSPC or EACCES, writes partly done, or a whole stretch of operations fails; then the fault goes away and the download is finished; non-trivial: some operation returned an error because of the fault",
		Quick: 2500, Thorough: 60000, Limit: 60000, Run: c21, Assume: assume,
	})
}

// step is one action of a planned history.
type step struct {
	kind string // put, reset, get, restart
	i, b int
	bad  bool
}

func (s step) String() string {
	switch s.kind {
	case "put":
		return fmt.Sprintf("put %d/%d%s", s.i, s.b, map[bool]string{true: " corrupt"}[s.bad])
	case "restart":
		return "restart"
	}
	return fmt.Sprintf("%s %d", s.kind, s.i)
}

// planHistory draws a history that usually completes the torrent.
func planHistory(t *engine.T, l *layout) []step {
	var plan []step
	for _, i := range t.Perm(l.pieces()) {
		if t.Prob(1, 10) {
			continue // never completed by the plan
		}
		if t.Prob(1, 4) { // a corrupt attempt first
			k := t.N(l.blocks(i))
			for b := range l.blocks(i) {
				plan = append(plan, step{"put", i, b, b == k})
			}
			plan = append(plan, step{"reset", i, 0, false})
		}
		for _, b := range t.Perm(l.blocks(i)) {
			plan = append(plan, step{"put", i, b, false})
		}
		switch t.Weighted(6, 1, 1, 1) {
		case 1:
			plan = append(plan, step{"get", i, 0, false})
		case 2:
			plan = append(plan, step{"restart", 0, 0, false})
		case 3:
			plan = append(plan, step{"reset", t.N(l.pieces()), 0, false})
		}
	}
	if t.Prob(1, 3) {
		plan = append(plan, step{"restart", 0, 0, false}, step{"get", t.N(l.pieces()), 0, false})
	}
	t.Notef("plan %v", plan)
	return plan
}

// remains is what an earlier session may have left behind: pieces that are
// stored, perhaps all of them, without the torrent having been assembled.
type remains map[int]string

func genRemains(t *engine.T, w *world, l *layout) remains {
	r := remains{}
	if l.pieces() < 2 || t.Prob(2, 3) {
		return r
	}
	files := pieceFiles(t, w, l)
	all := t.Prob(2, 3)
	for i, f := range files {
		if all || t.Bool() {
			r[i] = f
		}
	}
	t.Label("pieces of an earlier session")
	t.LabelIf(all, "all pieces there, not assembled")
	t.Notef("pieces there at the start: %d", len(r))
	w.newFS()
	return r
}

// lay empties the directories but for what remained.
func (r remains) lay(t *engine.T, w *world, l *layout) {
	w.wipe(t)
	for i, f := range r {
		os.MkdirAll(filepath.Join(w.work, filepath.Dir(f)), 0o700)
		if err := os.WriteFile(filepath.Join(w.work, f), l.piece(i), 0o600); err != nil {
			t.Bugf("%v", err)
		}
	}
}

func corrupt(b []byte) []byte {
	c := bytes.Clone(b)
	c[len(c)/2] ^= 0x55
	return c
}

// bits returns which pieces the session claims.
func bits(s *storage.Storage, n int) []bool {
	r := make([]bool, n)
	for i := range r {
		r[i] = s.Torrent.Bitfield.Has(i)
	}
	return r
}

// checkTarget: the final name shows either nothing or the finished torrent.
func checkTarget(t *engine.T, w *world, l *layout, when string) bool {
	got := snapshot(w.target)
	if len(got) == 0 {
		return false
	}
	if d := diffTree(got, l.tree()); d != "" {
		t.Failf("incomplete or wrong output under the final name", "%s: %s", when, d)
	}
	return true
}

// checkPieces: every stored piece matches.
func checkPieces(t *engine.T, w *world, l *layout, hash, when string) {
	for k, v := range snapshot(w.work) {
		name, ok := strings.CutPrefix(k, hash+"/")
		num, ok2 := strings.CutSuffix(name, ".piece")
		i, err := strconv.Atoi(num)
		if ok && ok2 && err == nil && i >= 0 && i < l.pieces() && v != string(l.piece(i)) {
			t.Failf("stored piece does not match", "%s: %s has %s", when, k, diffBytes([]byte(v), l.piece(i)))
		}
	}
}

// wipe empties the directories.
func (w *world) wipe(t *engine.T) {
	for _, d := range []string{w.target, w.work} {
		ents, err := os.ReadDir(d)
		if err != nil {
			t.Bugf("%v", err)
		}
		for _, e := range ents {
			os.RemoveAll(filepath.Join(d, e.Name()))
		}
	}
}

// finishDownload completes the torrent in a session that just loaded, and
// checks the result.
func finishDownload(t *engine.T, w *world, l *layout, s *storage.Storage, when string) {
	have := bits(s, l.pieces())
	for i := range l.pieces() {
		if have[i] {
			continue
		}
		s.ResetPiece(i)
		for b := range l.blocks(i) {
			if err := s.PutBlock(i, b*block, bytes.Clone(l.block(i, b))); err != nil {
				t.Failf("download cannot be finished", "%s: piece %d block %d: %v", when, i, b, err)
			}
		}
	}
	if !checkTarget(t, w, l, when+", then finished") {
		t.Failf("download cannot be finished", "%s: all pieces written but no output", when)
	}
	for i := range l.pieces() {
		data, err := s.GetBlock(i, 0, l.pieceSize(i))
		if err != nil || !bytes.Equal(data, l.piece(i)) {
			t.Failf("read after finishing", "%s: piece %d: %v %s", when, i, err, diffBytes(data, l.piece(i)))
		}
	}
}

// checkLoaded looks at a session right after a successful load.
func checkLoaded(t *engine.T, l *layout, s *storage.Storage, reported []bool, when string) {
	sum := int64(0)
	for i, have := range bits(s, l.pieces()) {
		if reported[i] && !have {
			t.Failf("completed piece lost", "%s: piece %d", when, i)
		}
		data, err := s.GetBlock(i, 0, l.pieceSize(i))
		if have {
			sum += int64(l.pieceSize(i))
			if err != nil || !bytes.Equal(data, l.piece(i)) {
				t.Failf("piece treated as complete is not", "%s: piece %d: %v %s", when, i, err, diffBytes(data, l.piece(i)))
			}
		} else if err == nil {
			t.Failf("piece readable but not advertised", "%s: piece %d", when, i)
		}
	}
	if got := s.Downloaded(); got != sum {
		t.Failf("downloaded count after reload", "%s: %d, want %d", when, got, sum)
	}
}

// runPlan runs a plan until it ends or the process crashes; it returns which
// pieces had been reported complete before that.
func runPlan(w *world, l *layout, plan []step) (reported []bool) {
	reported = make([]bool, l.pieces())
	s := storage.New(w.target, w.work, l.info)
	note := func() {
		if w.fs.Crashed() {
			return
		}
		for i, b := range bits(s, l.pieces()) {
			reported[i] = reported[i] || b
		}
	}
	s.Load()
	note()
	for _, st := range plan {
		if w.fs.Crashed() {
			return
		}
		switch st.kind {
		case "put":
			data := bytes.Clone(l.block(st.i, st.b))
			if st.bad {
				data = corrupt(data)
			}
			s.PutBlock(st.i, st.b*block, data)
		case "reset":
			s.ResetPiece(st.i)
		case "get":
			s.GetBlock(st.i, 0, l.pieceSize(st.i))
		case "restart":
			s = storage.New(w.target, w.work, l.info)
			s.Load()
		}
		note()
	}
	return
}

// points picks the operations to crash or fail at: all, or some of many.
func points(t *engine.T, n, max int) []int {
	var p []int
	if n <= max {
		for k := 1; k <= n; k++ {
			p = append(p, k)
		}
		return p
	}
	t.Label("history with a sample of its points")
	start, stepn := t.N(n), max
	for k := range stepn {
		p = append(p, 1+(start+k*n/stepn)%n)
	}
	return p
}

func c20(t *engine.T) {
	withWorld(t, func(w *world) {
		l := genLayout(t, 70000, 4)
		hash := fmt.Sprintf("%x", l.info.SHA1)
		plan := planHistory(t, l)
		left := genRemains(t, w, l)
		left.lay(t, w, l)
		runPlan(w, l, plan)
		n := w.fs.Ops()
		salt := t.N(4)
		again := t.N(40) // crash point of the second session
		for _, k := range points(t, n, 60) {
			left.lay(t, w, l)
			fs := w.newFS()
			fs.CrashAt, fs.CrashPart = k, []int{0, 128, 255, 256}[(k+salt)%4]
			reported := runPlan(w, l, plan)
			for i := range left {
				reported[i] = true // to the session before
			}
			if !fs.Crashed() {
				// map iteration or the like; not a problem, but count it
				t.Label("crash point not reached")
				continue
			}
			log := fs.Log()
			last := log[len(log)-1]
			when := fmt.Sprintf("after a crash at operation %d of %d (%s %s)", k, n, last.Kind, rel(w, last.Path))
			t.Label("crash points")
			t.Label("crash at " + last.Kind)
			checkTarget(t, w, l, when)
			checkPieces(t, w, l, hash, when)
			for _, r := range reported {
				if r {
					t.NonTrivial()
				}
			}
			// the new session may crash as well
			if again < 30 {
				fs = w.newFS()
				fs.CrashAt, fs.CrashPart = 1+again, 128
				s := storage.New(w.target, w.work, l.info)
				s.Load()
				if fs.Crashed() {
					when += fmt.Sprintf(" and one at operation %d of the next load", again+1)
					t.Label("crash during reload")
					checkTarget(t, w, l, when)
					checkPieces(t, w, l, hash, when)
				}
			}
			w.newFS()
			s := storage.New(w.target, w.work, l.info)
			if err := s.Load(); err != nil {
				t.Failf("load fails after a crash", "%s: %v", when, err)
			}
			checkLoaded(t, l, s, reported, when)
			finishDownload(t, w, l, s, when)
		}
	})
}

func rel(w *world, p string) string { return strings.ReplaceAll(p, w.base+"/", "") }

func c21(t *engine.T) {
	withWorld(t, func(w *world) {
		l := genLayout(t, 70000, 4)
		plan := planHistory(t, l)
		left := genRemains(t, w, l)
		left.lay(t, w, l)
		runPlan(w, l, plan)
		n := w.fs.Ops()
		salt := t.N(12)
		stretch := 1
		if t.Prob(1, 3) {
			stretch = 1 + t.N(12)
		}
		t.Notef("faults in stretches of %d", stretch)
		for _, k := range points(t, n, 60) {
			left.lay(t, w, l)
			fs := w.newFS()
			ft := shimos.Fault{Err: []error{syscall.EIO, syscall.ENOSPC, syscall.EACCES}[(k+salt)%3], Part: []int{0, 100, 255}[(k/3+salt)%3]}
			what := ""
			fs.Inject = func(n int, op shimos.Op) (shimos.Fault, bool) {
				if n >= k && n < k+stretch {
					if what == "" {
						what = fmt.Sprintf("%v at operation %d (%s %s)", ft.Err, n, op.Kind, rel(w, op.Path))
						t.Label("fault at " + op.Kind)
					}
					return ft, true
				}
				return shimos.Fault{}, false
			}
			t.Label("fault points")
			c21run(t, w, l, plan, left, fs, &what)
		}
	})
}

func c21run(t *engine.T, w *world, l *layout, plan []step, left remains, fs *shimos.FS, what *string) {
	hash := fmt.Sprintf("%x", l.info.SHA1)
	np := l.pieces()
	type pstate struct {
		blocks   []byte
		complete bool // reported complete
		unknown  bool // a fault interfered; a reset makes it known again
	}
	ps := make([]*pstate, np)
	fresh := func(i int) *pstate { return &pstate{blocks: make([]byte, l.blocks(i))} }
	for i := range ps {
		ps[i] = fresh(i)
		ps[i].complete = left[i] != ""
	}
	var s *storage.Storage
	wrongState := func(f string, a ...any) {
		t.Failf("state after a file-system error", "after %s: %s", *what, fmt.Sprintf(f, a...))
	}
	look := func() {
		when := "after " + *what
		checkTarget(t, w, l, when)
		checkPieces(t, w, l, hash, when)
		for i, have := range bits(s, np) {
			if ps[i].complete && !have {
				wrongState("piece %d is no longer advertised", i)
			}
			if have && !ps[i].complete {
				// only a fault can have kept us from knowing
				if !ps[i].unknown {
					wrongState("piece %d advertised too early", i)
				}
				ps[i].complete = true
			}
			if have {
				if err := onDisk(w, l, hash, i); err != "" {
					wrongState("piece %d advertised but %s", i, err)
				}
			}
		}
	}
	// What reports no error has done all it was to do.
	done := func(what string) {
		for _, have := range bits(s, np) {
			if !have {
				return
			}
		}
		if !checkTarget(t, w, l, "after "+what) {
			wrongState("%s without an error, and every piece is there, but the torrent is not assembled", what)
		}
	}
	load := func() bool {
		before := fs.Faults()
		s = storage.New(w.target, w.work, l.info)
		err := s.Load()
		faulted := fs.Faults() > before
		if err != nil {
			if !faulted {
				wrongState("load fails: %v", err)
			}
			t.NonTrivial()
			t.Label("load failed")
			checkTarget(t, w, l, "after "+*what)
			checkPieces(t, w, l, hash, "after "+*what)
			return false
		}
		for i, p := range ps {
			np := fresh(i)
			np.complete = p.complete
			if p.unknown && s.Torrent.Bitfield.Has(i) {
				np.complete = true
			}
			ps[i] = np
		}
		look()
		done("the torrent was loaded")
		return true
	}
	if !load() {
		fs.ClearFaults()
		if !load() {
			wrongState("load fails without a fault")
		}
	}
	for _, st := range plan {
		before := fs.Faults()
		p := ps[st.i]
		switch st.kind {
		case "put":
			data := bytes.Clone(l.block(st.i, st.b))
			if st.bad {
				data = corrupt(data)
			}
			piece := s.GetPiece(st.i)
			told := make(chan error, 1)
			last := p.blocks[st.b] == missing && bytes.Count(p.blocks, []byte{missing}) == 1
			waits := last && !p.complete && !p.unknown
			if waits {
				go func() { told <- piece.Wait() }()
			}
			err := s.PutBlock(st.i, st.b*block, data)
			faulted := fs.Faults() > before
			if faulted && err != nil {
				t.NonTrivial()
				t.Label("write failed")
			}
			if waits && faulted && err != nil {
				select {
				case got := <-told:
					if (got == nil) != s.Torrent.Bitfield.Has(st.i) {
						wrongState("piece %d: waiting for it gave %v, writing its last block %v, complete %v", st.i, got, err, s.Torrent.Bitfield.Has(st.i))
					}
				case <-time.After(20 * time.Second):
					wrongState("piece %d: writing its last block gave %v, but waiting for it goes on", st.i, err)
				}
			}
			dup := p.complete || p.blocks[st.b] != missing
			if p.unknown && !p.complete {
				look()
				break
			}
			if dup {
				if !errors.Is(err, storage.ErrBlockExists) {
					wrongState("duplicate block %d/%d answered %v", st.i, st.b, err)
				}
				break
			}
			p.blocks[st.b] = good
			if st.bad {
				p.blocks[st.b] = bad
			}
			full := !bytes.Contains(p.blocks, []byte{missing})
			dirty := bytes.Contains(p.blocks, []byte{bad})
			switch {
			case faulted && err != nil:
				p.unknown = true
			case faulted && full && dirty:
				wrongState("corrupt piece %d accepted", st.i)
			case full && dirty:
				var c *storage.ChecksumError
				if !errors.As(err, &c) || c.Index != st.i {
					wrongState("corrupt piece %d answered %v", st.i, err)
				}
			case err != nil:
				wrongState("block %d/%d answered %v", st.i, st.b, err)
			case full:
				p.complete = true
				done(fmt.Sprintf("block %d/%d was stored", st.i, st.b))
			}
		case "reset":
			s.ResetPiece(st.i)
			if !p.complete {
				ps[st.i] = fresh(st.i)
			}
		case "get":
			data, err := s.GetBlock(st.i, 0, l.pieceSize(st.i))
			if err == nil && !bytes.Equal(data, l.piece(st.i)) {
				wrongState("read of piece %d: %s", st.i, diffBytes(data, l.piece(st.i)))
			}
			if err == nil && !p.complete && !p.unknown {
				wrongState("read of incomplete piece %d", st.i)
			}
			if err != nil && fs.Faults() > before {
				t.NonTrivial()
				t.Label("read failed")
			}
			if err != nil && fs.Faults() == before && p.complete {
				wrongState("read of piece %d: %v", st.i, err)
			}
		case "restart":
			if !load() {
				fs.ClearFaults()
				if !load() {
					wrongState("load fails without a fault")
				}
			}
		}
		look()
	}
	// the fault is gone
	fs.ClearFaults()
	if *what == "" {
		*what = "no fault"
	}
	when := "after " + *what + " was gone"
	for i, have := range bits(s, np) {
		if have {
			if data, err := s.GetBlock(i, 0, l.pieceSize(i)); err != nil || !bytes.Equal(data, l.piece(i)) {
				t.Failf("piece cannot be read", "%s: piece %d: %v %s", when, i, err, diffBytes(data, l.piece(i)))
			}
			continue
		}
		s.ResetPiece(i)
		for b := range l.blocks(i) {
			if err := s.PutBlock(i, b*block, bytes.Clone(l.block(i, b))); err != nil {
				t.Failf("piece cannot be fetched again", "%s: piece %d block %d: %v", when, i, b, err)
			}
		}
		if !s.Torrent.Bitfield.Has(i) {
			t.Failf("piece cannot be fetched again", "%s: piece %d not complete", when, i)
		}
		if err := onDisk(w, l, hash, i); err != "" {
			t.Failf("piece cannot be fetched again", "%s: piece %d %s", when, i, err)
		}
	}
	s = storage.New(w.target, w.work, l.info)
	if err := s.Load(); err != nil {
		t.Failf("load fails although the fault is gone", "%s: %v", when, err)
	}
	all := make([]bool, np)
	for i := range all {
		all[i] = true
	}
	checkLoaded(t, l, s, all, when)
	finishDownload(t, w, l, s, when)
}

// onDisk tells what is wrong with the stored bytes of a piece.
func onDisk(w *world, l *layout, hash string, i int) string {
	if b, err := os.ReadFile(filepath.Join(w.work, hash, fmt.Sprintf("%d.piece", i))); err == nil {
		if bytes.Equal(b, l.piece(i)) {
			return ""
		}
		return "its file is wrong"
	}
	if diffTree(snapshot(w.target), l.tree()) == "" {
		return ""
	}
	return "it is nowhere on disk"
}
