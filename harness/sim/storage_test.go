package sim

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"slices"
	"strconv"
	"strings"
	"syscall"
	"testing/synctest"
	"time"

	"dripverif/engine"
	"dripverif/shim/sched"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/storage"
)

func init() {
	fixed := map[string][]engine.FixedCase{
		"C16": {{Name: "many reads", Run: manyPieces}},
		"C19": {{Name: "many pieces", Run: manyPieces}},
	}
	reg := func(id, what string, quick, thorough int) {
		engine.Register(&engine.Prop{
			ID:    id,
			Rule:  "random torrents (single and multi-file) and random histories of block writes, corruptions, duplicates, malformed requests, resets, restarts and reads on a real directory against a model, finishing with completion of the torrent; decided here: " + what + "; non-trivial: at least one piece completed during the history proper",
			Quick: quick, Thorough: thorough, Limit: 60000,
			Run:   func(t *engine.T) { storageCase(t, id) },
			Fixed: fixed[id],
			Assume: []string{
				"torrents are well formed: the piece list matches the length, file paths are distinct and no file is the parent of another",
				"the target and work directories hold nothing but what the storage put there",
				"operations are issued one at a time (C22 covers concurrency)",
			},
		})
	}
	reg("C16", "reads", 40000, 600000)
	reg("C17", "which writes and reads are accepted", 40000, 600000)
	reg("C18", "what becomes part of the torrent", 40000, 600000)
	reg("C19", "the finished torrent on disk", 40000, 600000)
	reg("C24", "the downloaded count and the bitfield", 40000, 600000)
}

const (
	missing = iota
	good
	bad
)

type pieceModel struct {
	blocks   []byte
	complete bool
}

func (p *pieceModel) full() bool { return !slices.Contains(p.blocks, missing) }
func (p *pieceModel) clean() bool {
	return !slices.Contains(p.blocks, bad)
}

type waiter struct {
	piece int // -1: the torrent
	done  bool
	err   error
	want  int    // 0 must still wait, 1 nil, 2 checksum error, 3 some error
	saw   string // what was wrong on disk at the moment of the release
}

type stor struct {
	t        *engine.T
	prop     string
	w        *world
	l        *layout
	s        *storage.Storage
	ps       []*pieceModel
	complete bool
	waiters  []*waiter
}

// fail reports under the properties the oracle belongs to; a case that met
// someone else's violation is of no more use.
func (m *stor) fail(props, sig, format string, args ...any) {
	if strings.Contains(props, m.prop) {
		m.t.Failf(sig, format, args...)
	}
	m.t.Discard("violates " + props)
}

func storageCase(t *engine.T, prop string) {
	if (prop == "C16" || prop == "C19" || prop == "C24") && t.Prob(1, 40) {
		emptyCase(t, prop)
		return
	}
	if (prop == "C16" || prop == "C17" || prop == "C24") && t.Prob(1, 100) {
		hugeCase(t, prop)
		return
	}
	withWorld(t, func(w *world) {
		l := genLayout(t, 220000, 7)
		left := engine.Bubble(func() {
			m := &stor{t: t, prop: prop, w: w, l: l}
			m.open()
			m.history()
			m.finish()
		})
		if left != "" {
			t.Failf("operation blocked for ever", "%s", left)
		}
	})
}

// open starts a session over the directories.
func (m *stor) open() {
	m.s = storage.New(m.w.target, m.w.work, m.l.info)
	old := m.ps
	m.ps = nil
	for i := range m.l.pieces() {
		p := &pieceModel{blocks: make([]byte, m.l.blocks(i))}
		if old != nil && old[i].complete {
			p.complete = true
		}
		m.ps = append(m.ps, p)
	}
	if err := m.s.Load(); err != nil {
		m.fail("C16 C18 C19 C24", "load failed", "%v", err)
	}
	m.invariants()
}

func (m *stor) history() {
	t := m.t
	for n := 0; t.More(n, 25, 120); n++ {
		i := t.N(m.l.pieces())
		switch t.Weighted(10, 6, 3, 4, 8, 3, 1, 2, 2) {
		case 0: // next missing block, good
			m.putNext(i, false)
		case 1: // all missing blocks
			for _, b := range t.Perm(m.l.blocks(i)) {
				if m.ps[i].blocks[b] == missing && !m.ps[i].complete {
					m.put(i, b, false)
				}
			}
			if m.ps[i].complete {
				t.NonTrivial()
			}
		case 2:
			m.putNext(i, true)
		case 3: // any block, duplicate or not
			m.put(i, t.N(m.l.blocks(i)), t.Prob(1, 3))
		case 4:
			m.get(i)
		case 5:
			m.reset(i)
		case 6:
			m.restart()
		case 7:
			m.malformed()
		case 8:
			m.wait(t.N(m.l.pieces()+1) - 1)
		}
		if m.complete {
			t.Label("torrent completed in the history")
		}
	}
}

func (m *stor) putNext(i int, isBad bool) {
	for b, s := range m.ps[i].blocks {
		if s == missing {
			m.put(i, b, isBad)
			return
		}
	}
	m.put(i, m.t.N(len(m.ps[i].blocks)), isBad)
}

func (m *stor) put(i, b int, isBad bool) {
	t, p := m.t, m.ps[i]
	data := bytes.Clone(m.l.block(i, b))
	if isBad {
		data[t.N(len(data))] ^= byte(1 + t.N(255))
	}
	t.Notef("put %d/%d%s", i, b, map[bool]string{true: " corrupt"}[isBad])
	err := m.s.PutBlock(i, b*block, data)
	var cse *storage.ChecksumError
	switch {
	case p.complete || p.blocks[b] != missing:
		t.Label("duplicate block")
		if !errors.Is(err, storage.ErrBlockExists) {
			m.fail("C17 C18 C22", "duplicate block not refused as such", "piece %d block %d: %v", i, b, err)
		}
	default:
		p.blocks[b] = good
		if isBad {
			p.blocks[b] = bad
		}
		switch {
		case p.full() && p.clean():
			if err != nil {
				props := "C19"
				for k, q := range m.ps {
					if k != i && !q.complete {
						props = "C17 C18"
					}
				}
				m.fail(props, "good block refused", "piece %d block %d: %v", i, b, err)
			}
			p.complete = true
			m.released(i, 1)
			t.Label("piece completed")
			m.checkComplete()
		case p.full():
			t.Label("checksum error")
			if !errors.As(err, &cse) || cse.Index != i {
				m.fail("C18", "wrong data not reported as a checksum error of the piece", "piece %d: %v", i, err)
			}
			m.released(i, 2)
		case err != nil:
			m.fail("C17 C18", "grid block refused", "piece %d block %d of %d: %v", i, b, len(p.blocks), err)
		}
	}
	m.invariants()
}

func (m *stor) checkComplete() {
	for _, p := range m.ps {
		if !p.complete {
			return
		}
	}
	m.complete = true
	m.released(-1, 1)
	if d := m.unfinished(); d != "" {
		m.fail("C19", "finished torrent differs on disk", "%s", d)
	}
}

// unfinished tells what is wrong with the directories of a finished torrent.
func (m *stor) unfinished() string {
	if d := diffTree(snapshot(m.w.target), m.l.tree()); d != "" {
		return d
	}
	for k := range snapshot(m.w.work) {
		if strings.HasPrefix(k, m.s.Torrent.WorkDir()) {
			return "partial pieces left: " + k
		}
	}
	return ""
}

func (m *stor) released(piece, want int) {
	for _, w := range m.waiters {
		if w.piece == piece && w.want == 0 {
			w.want = want
		}
	}
}

func (m *stor) reset(i int) {
	m.t.Notef("reset %d", i)
	p := m.ps[i]
	pc := m.s.ResetPiece(i)
	if pc != m.s.GetPiece(i) || pc.Index != i {
		m.fail("C18", "reset returned another piece", "%d", i)
	}
	if !p.complete {
		m.t.Label("reset")
		m.t.LabelIf(p.full(), "reset after a checksum error")
		p.blocks = make([]byte, len(p.blocks))
		m.released(i, 3)
	} else {
		m.t.Label("reset of a complete piece")
	}
	m.invariants()
}

func (m *stor) restart() {
	m.t.Notef("restart")
	m.t.Label("restart")
	m.flushWaiters()
	m.open()
}

// flushWaiters abandons the session: everyone still waiting is released by
// resets, except those waiting for the torrent, who would block for ever; they
// are only added when the case is going to complete this session.
func (m *stor) flushWaiters() {
	for i, p := range m.ps {
		if !p.complete {
			m.s.ResetPiece(i)
			m.released(i, 3)
		}
	}
	m.settle()
	m.checkWaiters()
	var rest []*waiter
	for _, w := range m.waiters {
		if w.want == 0 {
			rest = append(rest, w)
		}
	}
	if len(rest) > 0 { // torrent waiters: complete the torrent for them in place
		for i, p := range m.ps {
			if !p.complete {
				p.blocks = make([]byte, len(p.blocks))
				for b := range p.blocks {
					m.put(i, b, false)
				}
			}
		}
		m.settle()
		m.checkWaiters()
	}
	m.waiters = nil
}

func (m *stor) wait(i int) {
	w := &waiter{piece: i}
	m.t.Notef("wait for %d", i)
	if i >= 0 {
		p := m.ps[i]
		switch {
		case p.complete:
			w.want = 1
		case p.full():
			w.want = 2
		}
		pc := m.s.GetPiece(i)
		go func() { w.err = pc.Wait(); w.done = true }()
	} else {
		if m.complete {
			w.want = 1
		}
		tr := m.s.Torrent
		if m.prop == "C19" {
			// Every lock and file operation now takes a moment, in which those
			// released meanwhile look around.
			sched.Start(1, 16, 1000)
		}
		go func() {
			w.err = tr.Wait()
			if m.prop == "C19" {
				w.saw = m.unfinished()
			}
			w.done = true
		}()
	}
	m.waiters = append(m.waiters, w)
	m.settle()
	m.checkWaiters()
}

func (m *stor) checkWaiters() {
	for _, w := range m.waiters {
		props := "C18 C22"
		if w.piece < 0 {
			props = "C19 C22"
		}
		var cse *storage.ChecksumError
		switch {
		case w.want == 0 && w.done:
			m.fail(props, "released too early", "waiting for %d got %v", w.piece, w.err)
		case w.want != 0 && !w.done:
			m.fail(props, "not released", "waiting for %d", w.piece)
		case w.saw != "":
			m.fail("C19", "released before the torrent is on disk", "%s", w.saw)
		case w.want == 1 && w.err != nil:
			m.fail(props, "released with the wrong result", "waiting for %d got %v", w.piece, w.err)
		case w.want == 2 && !errors.As(w.err, &cse):
			m.fail(props, "released with the wrong result", "waiting for %d got %v instead of a checksum error", w.piece, w.err)
		case w.want == 3 && w.err == nil:
			m.fail(props, "released with the wrong result", "waiting for %d got no error from a reset", w.piece)
		}
	}
}

func (m *stor) get(i int) {
	t := m.t
	size := m.l.pieceSize(i)
	begin := t.N(size)
	if t.Bool() {
		begin = begin / block * block
	}
	n := 1 + t.N(size-begin)
	if t.Bool() {
		n = min(block, size-begin)
	}
	t.Notef("get %d %d+%d", i, begin, n)
	m.checkGet(i, begin, n)
}

func (m *stor) checkGet(i, begin, n int) {
	data, err := m.s.GetBlock(i, begin, n)
	p := m.ps[i]
	switch {
	case err == nil && !p.complete:
		m.fail("C16 C18", "read of an incomplete piece succeeded", "piece %d %d+%d", i, begin, n)
	case err == nil && !bytes.Equal(data, m.l.piece(i)[begin:begin+n]):
		m.fail("C16 C19", "read returned wrong bytes", "piece %d %d+%d: %s", i, begin, n, diffBytes(data, m.l.piece(i)[begin:begin+n]))
	case err != nil && p.complete:
		m.fail("C16 C19", "read of a complete piece failed", "piece %d %d+%d: %v", i, begin, n, err)
	}
	m.t.LabelIf(p.complete, "read of a complete piece")
	m.t.LabelIf(p.complete && m.complete, "read of a complete torrent")
}

// malformed issues a write or read that names no block.
func (m *stor) malformed() {
	t := m.t
	np := m.l.pieces()
	ints := []int{0, 1, -1, block, -block, 1 << 30, 1<<31 - 1, 1 << 31, 1<<32 - 1, -1 << 31, 1<<63 - 1, -1 << 63, block / 2, 2 * block, 1 << 40}
	index, begin, n := t.N(np), 0, block
	switch t.N(4) {
	case 0:
		index = Pick(t, np, -1, np+1, np+7, ints[t.N(len(ints))])
		begin = Pick(t, 0, block, ints[t.N(len(ints))])
	case 1:
		begin = Pick(t, ints[t.N(len(ints))], m.l.pieceSize(index), m.l.pieceSize(index)+block, (m.l.pieceSize(index)/block+1)*block, m.l.pieceSize(index)-1)
		n = Pick(t, block, 0, 1, m.l.pieceSize(index)%block)
	case 2:
		begin = t.N(m.l.blocks(index)) * block
		n = Pick(t, 0, 1, block-1, block+1, 2*block, m.l.pieceSize(index), m.l.pieceSize(index)-begin+1, m.l.pieceSize(index)%block)
	case 3:
		index, begin, n = ints[t.N(len(ints))], ints[t.N(len(ints))], Pick(t, 0, 1, block, block-1)
	}
	inPiece := index >= 0 && index < np && begin >= 0 && begin < m.l.pieceSize(index)
	if t.Bool() {
		n = max(0, min(n, 4*block))
		grid := inPiece && begin%block == 0 && n == min(block, m.l.pieceSize(index)-begin)
		if grid {
			return
		}
		t.Notef("malformed put %d %d+%d", index, begin, n)
		t.Label("malformed write")
		data := make([]byte, n)
		if inPiece {
			copy(data, m.l.piece(index)[begin:])
		}
		if err := m.s.PutBlock(index, begin, data); err == nil {
			m.fail("C17", "write outside the grid accepted", "index %d begin %d length %d", index, begin, n)
		}
		m.invariants()
		return
	}
	n = Pick(t, n, ints[t.N(len(ints))])
	if n == 0 || inPiece && n > 0 && n <= m.l.pieceSize(index)-begin {
		return
	}
	t.Notef("malformed get %d %d+%d", index, begin, n)
	t.Label("malformed read")
	if data, err := m.s.GetBlock(index, begin, n); err == nil {
		m.fail("C17 C16", "read outside the piece accepted", "index %d begin %d length %d returned %d bytes", index, begin, n, len(data))
	}
}

// settle lets everyone who was released run on.
func (m *stor) settle() {
	if m.prop == "C19" {
		time.Sleep(time.Second)
	}
	synctest.Wait()
}

// invariants hold after every operation.
func (m *stor) invariants() {
	m.settle()
	m.checkWaiters()
	want := make([]byte, (len(m.ps)+7)/8)
	sum := 0
	for i, p := range m.ps {
		if p.complete {
			want[i/8] |= 0x80 >> (i % 8)
			sum += m.l.pieceSize(i)
		}
	}
	if got := m.s.Torrent.Bitfield; !bytes.Equal(got, want) {
		m.fail("C24 C18", "bitfield", "got %x want %x", []byte(got), want)
	}
	if got := m.s.Downloaded(); got != int64(sum) {
		m.fail("C24", "downloaded count", "got %d want %d", got, sum)
	}
	if m.prop == "C18" || m.prop == "C19" {
		m.disk()
	}
}

// disk checks what is visible in the directories before completion.
func (m *stor) disk() {
	if m.complete {
		if m.prop == "C19" {
			if d := diffTree(snapshot(m.w.target), m.l.tree()); d != "" {
				m.fail("C19", "finished torrent differs on disk", "%s", d)
			}
		}
		return
	}
	for k := range snapshot(m.w.target) {
		m.fail("C18 C19", "output visible before completion", "%q", k)
	}
	prefix := m.s.Torrent.WorkDir() + "/"
	for k, v := range snapshot(m.w.work) {
		name, ok := strings.CutPrefix(k, prefix)
		if !ok || name == "" {
			continue
		}
		num, ok := strings.CutSuffix(name, ".piece")
		i, err := strconv.Atoi(num)
		if !ok || err != nil {
			continue
		}
		if i < 0 || i >= len(m.ps) || !bytes.Equal([]byte(v), m.l.piece(i)) {
			m.fail("C18", "stored piece does not match", "%s has %s", k, diffBytes([]byte(v), m.l.piece(min(max(i, 0), len(m.ps)-1))))
		}
	}
}

// finish completes the torrent, and looks at it from this and a new session.
func (m *stor) finish() {
	t := m.t
	t.Notef("finish")
	if m.prop == "C19" && !m.complete && t.Bool() {
		m.wait(-1)
	}
	for _, i := range t.Perm(m.l.pieces()) {
		p := m.ps[i]
		if p.complete {
			continue
		}
		if !p.clean() {
			m.reset(i)
		}
		for _, b := range t.Perm(len(p.blocks)) {
			if p.blocks[b] == missing {
				m.put(i, b, false)
			}
		}
		if !p.complete {
			m.t.Bugf("model: piece not complete")
		}
	}
	if !m.complete {
		m.checkComplete()
	}
	m.settle()
	m.checkWaiters()
	m.waiters = nil
	for k := 0; k < 3; k++ {
		m.get(t.N(m.l.pieces()))
	}
	if t.Bool() {
		m.malformed()
		m.reset(t.N(m.l.pieces()))
		m.put(0, 0, false)
	}
	m.open()
	m.wait(-1)
	m.wait(t.N(m.l.pieces()))
	m.waiters = nil
	for i := range m.ps {
		m.checkGet(i, 0, m.l.pieceSize(i))
	}
	for k := 0; k < 3; k++ {
		m.get(t.N(m.l.pieces()))
	}
	if d := diffTree(snapshot(m.w.target), m.l.tree()); d != "" {
		m.fail("C19", "finished torrent differs on disk", "after restart: %s", d)
	}
	_ = fmt.Sprint
}

// emptyCase is a torrent of nothing but empty files: it is complete from the
// start, and its files appear with the first session.
func emptyCase(t *engine.T, prop string) {
	withWorld(t, func(w *world) {
		l := &layout{name: genName(t), pieceLen: Pick(t, block, 1, 1000)}
		if t.Bool() {
			seen := map[string]bool{}
			for n := t.Range(1, 4); n > 0; n-- {
				var path []string
				for path = nil; path == nil || !okPath(seen, path); {
					path = nil
					for d := 0; d < 1 || d < 3 && t.Prob(1, 3); d++ {
						path = append(path, genName(t))
					}
				}
				l.files = append(l.files, lfile{path, 0, 0})
			}
		}
		l.build(t)
		t.Label("empty torrent")
		if t.Bool() {
			if err := os.MkdirAll(filepath.Join(w.work, fmt.Sprintf("%x", l.info.SHA1)), 0o700); err != nil {
				t.Bugf("%v", err)
			}
		}
		m := &stor{t: t, prop: prop, w: w, l: l}
		for session := range 2 {
			var s *storage.Storage
			var err error
			released := false
			left := engine.Bubble(func() {
				s = storage.New(w.target, w.work, l.info)
				if err = s.Load(); err != nil {
					return
				}
				err = s.Torrent.Wait()
				released = true
			})
			if left != "" || err != nil || !released {
				m.fail("C16 C19 C24", "empty torrent not completed", "session %d: load and wait gave %v %s", session, err, left)
			}
			if d := diffTree(snapshot(w.target), l.tree()); d != "" {
				m.fail("C19", "finished torrent differs on disk", "session %d: %s", session, d)
			}
			for k := range snapshot(w.work) {
				if strings.HasPrefix(k, s.Torrent.WorkDir()) {
					m.fail("C19", "partial pieces left", "session %d: %q", session, k)
				}
			}
			if n := s.Downloaded(); n != 0 || len(s.Torrent.Bitfield) != 0 || len(s.Torrent.Have()) != 0 {
				m.fail("C24", "downloaded count", "got %d, bitfield %x", n, []byte(s.Torrent.Bitfield))
			}
			for _, i := range []int{0, 1, -1} {
				if _, err := s.GetBlock(i, 0, t.N(2)); err == nil {
					m.fail("C16", "read outside the piece accepted", "piece %d of an empty torrent", i)
				}
				if err := s.PutBlock(i, 0, make([]byte, t.N(2))); err == nil {
					m.fail("C16", "block outside the torrent accepted", "piece %d of an empty torrent", i)
				}
			}
		}
		t.NonTrivial()
	})
}

// hugeCase is a torrent of gigabytes, nearly all of it holes: it lies complete
// on disk, or takes a few blocks of pieces that never become complete.
func hugeCase(t *engine.T, prop string) {
	withWorld(t, func(w *world) {
		m := &stor{t: t, prop: prop, w: w}
		t.Label("huge torrent")
		t.NonTrivial()
		info := &metainfo.Info{Name: "huge", SHA1: [20]byte{9}}
		info.PieceLength = Pick(t, 1<<28, 1<<30, 1<<24+5, 1<<31, 3<<30, 1<<32, 1<<27-block, 1<<32-block)
		total := int64(1+t.Choice(12<<30)) + Pick(t, 0, int64(1)<<31, 1<<32, 1<<33)
		if t.Bool() {
			total -= total % int64(block)
		}
		total = max(total, 1)
		np := int((total + int64(info.PieceLength) - 1) / int64(info.PieceLength))
		info.Pieces = make([][20]byte, np)
		size := func(i int) int64 {
			return min(int64(info.PieceLength), total-int64(i)*int64(info.PieceLength))
		}
		type part struct {
			path     string
			off, len int64
		}
		var parts []part
		if t.Bool() {
			off := int64(0)
			for n := 0; off < total && n < 6; n++ {
				ln := min(total-off, int64(t.Choice(uint64(Pick(t, total, 1<<31, 1<<32, 5<<30, 1000)+1))))
				if n == 5 {
					ln = total - off
				}
				name := fmt.Sprint("f", n)
				parts = append(parts, part{filepath.Join(w.target, "huge", name), off, ln})
				info.Files = append(info.Files, &metainfo.File{Length: ln, Path: []string{name}})
				off += ln
			}
			if off < total {
				t.Bugf("%d < %d", off, total)
			}
		} else {
			info.Length = total
			parts = []part{{filepath.Join(w.target, "huge"), 0, total}}
		}
		t.Notef("huge torrent: %d bytes, pieces of %d, %d files", total, info.PieceLength, len(info.Files))
		// marks are the places that are read, and filled before
		type mark struct{ off, len int64 }
		var marks []mark
		for n := t.Range(2, 8); n > 0; n-- {
			var at int64
			switch t.Weighted(2, 3, 3, 2) {
			case 0:
				at = int64(t.Choice(uint64(total)))
			case 1:
				at = Pick(t, int64(1)<<31, 1<<32, 3<<30, 1<<33, 5<<30, 1<<31+1<<32) - int64(t.N(3*block))
			case 2:
				at = parts[t.N(len(parts))].off - int64(t.N(2*block))
			case 3:
				at = total - int64(t.N(2*block))
			}
			at = min(max(at, 0), total-1)
			marks = append(marks, mark{at, min(total-at, 1+int64(t.N(2*block)))})
		}
		byteAt := func(off int64) byte {
			for _, k := range marks {
				if off >= k.off && off < k.off+k.len {
					return byte(off*2654435761>>11) | 1
				}
			}
			return 0
		}
		content := func(off, n int64) []byte {
			b := make([]byte, n)
			for i := range b {
				b[i] = byteAt(off + int64(i))
			}
			return b
		}
		if prop == "C17" {
			s := storage.New(w.target, w.work, info)
			if err := s.Load(); err != nil {
				m.fail("C17", "load failed", "%v", err)
			}
			for _, k := range marks {
				i := int(k.off / int64(info.PieceLength))
				begin := (k.off % int64(info.PieceLength)) / block * block
				n := min(block, size(i)-begin)
				if size(i) <= block {
					continue // would complete the piece
				}
				if err := s.PutBlock(i, int(begin), make([]byte, n)); err != nil && !errors.Is(err, storage.ErrBlockExists) {
					m.fail("C17", "good block refused", "%d %d+%d: %v", i, begin, n, err)
				}
				if err := s.PutBlock(i, int(begin), make([]byte, n)); !errors.Is(err, storage.ErrBlockExists) {
					m.fail("C17", "block accepted twice", "%d %d+%d: %v", i, begin, n, err)
				}
				for _, b := range []int64{begin + 1, begin - 1, begin | 1<<40, -begin - block, size(i)/block*block + block} {
					if err := s.PutBlock(i, int(b), make([]byte, n)); err == nil {
						m.fail("C17", "malformed block accepted", "%d %d+%d", i, b, n)
					}
				}
				if n == block {
					if err := s.PutBlock(i, int(begin), make([]byte, 1+t.N(block-1))); err == nil {
						m.fail("C17", "malformed block accepted", "%d %d, shorter than a block", i, begin)
					}
				}
				if _, err := s.GetBlock(i, int(begin), int(n)); err == nil {
					m.fail("C17", "read of an incomplete piece accepted", "%d %d+%d", i, begin, n)
				}
			}
			return
		}
		if info.Files != nil {
			if err := os.Mkdir(filepath.Join(w.target, "huge"), 0o700); err != nil {
				t.Bugf("%v", err)
			}
		}
		for _, p := range parts {
			f, err := os.Create(p.path)
			if err == nil {
				err = f.Truncate(p.len)
			}
			for _, k := range marks {
				from, to := max(k.off, p.off), min(k.off+k.len, p.off+p.len)
				if err == nil && from < to {
					_, err = f.WriteAt(content(from, to-from), from-p.off)
				}
			}
			if err == nil {
				err = f.Close()
			}
			if err != nil {
				t.Bugf("%v", err)
			}
		}
		s := storage.New(w.target, w.work, info)
		if err := s.Load(); err != nil {
			m.fail("C16 C24", "load failed", "%v", err)
		}
		if got := s.Downloaded(); got != total {
			m.fail("C24", "downloaded count", "got %d want %d", got, total)
		}
		for i := range np {
			if !s.Torrent.Has(i) {
				m.fail("C24 C16", "bitfield", "piece %d of a finished torrent", i)
			}
		}
		for _, k := range marks {
			i := int(k.off / int64(info.PieceLength))
			begin := k.off % int64(info.PieceLength)
			begin = max(0, begin-int64(t.N(2)*t.N(block)))
			n := 1 + int64(t.N(int(min(2*block, size(i)-begin))))
			want := content(int64(i)*int64(info.PieceLength)+begin, n)
			if got, err := s.GetBlock(i, int(begin), int(n)); err != nil || !bytes.Equal(got, want) {
				m.fail("C16", "read of a complete piece failed", "%d %d+%d: %v %s", i, begin, n, err, diffBytes(got, want))
			}
			for _, over := range []int64{1, 1 << 31, 1 << 32, 1 << 33} {
				if got, err := s.GetBlock(i, int(begin), int(size(i)-begin+over)); err == nil {
					m.fail("C16", "read outside the piece accepted", "%d %d+%d returned %d bytes", i, begin, size(i)-begin+over, len(got))
				}
				if got, err := s.GetBlock(i, int(size(i)+over-1), 1); err == nil {
					m.fail("C16", "read outside the piece accepted", "%d %d+1 returned %d bytes", i, size(i)+over-1, len(got))
				}
			}
		}
	})
}

// manyPieces takes torrents of thousands of pieces and hundreds of files
// through completion and reading, with no more open files allowed than usual.
func manyPieces(t *engine.T) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old); err != nil {
		t.Bugf("%v", err)
	}
	lim := old
	lim.Cur = 512
	if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim); err != nil {
		t.Bugf("%v", err)
	}
	defer syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)
	defer debug.SetGCPercent(debug.SetGCPercent(-1)) // files are closed, not collected
	for _, multi := range []bool{false, true} {
		withWorld(t, func(w *world) {
			l := &layout{name: "many", pieceLen: 64, content: engine.Fill(7, 64*2000+1)}
			if multi {
				for off := 0; off < len(l.content); {
					n := min(200, len(l.content)-off)
					l.files = append(l.files, lfile{[]string{fmt.Sprint("d", off%7), fmt.Sprint("f", off)}, off, n})
					off += n
				}
			}
			l.build(t)
			engine.Bubble(func() {
				for session := range 2 {
					s := storage.New(w.target, w.work, l.info)
					if err := s.Load(); err != nil {
						t.Failf("load failed", "%d pieces, session %d: %v", l.pieces(), session, err)
					}
					for i := range l.pieces() {
						if session == 0 {
							if err := s.PutBlock(i, 0, bytes.Clone(l.piece(i))); err != nil {
								t.Failf("good block refused", "piece %d of %d: %v", i, l.pieces(), err)
							}
						}
						if got, err := s.GetBlock(i, 0, l.pieceSize(i)); err != nil || !bytes.Equal(got, l.piece(i)) {
							t.Failf("read of a complete piece failed", "piece %d of %d: %v", i, l.pieces(), err)
						}
					}
					if d := diffTree(snapshot(w.target), l.tree()); d != "" {
						t.Failf("finished torrent differs on disk", "%s", d)
					}
				}
			})
		})
	}
}
