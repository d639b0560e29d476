package sim

import (
	"bytes"
	"fmt"
	"maps"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"dripverif/engine"

	"github.com/browles/drip/storage"
)

func init() {
	engine.Register(&engine.Prop{
		ID:    "C37",
		Rule:  "random torrents of which a random set of pieces was stored by an earlier session (also all of them, without the torrent having been assembled); then the work directory is disturbed: stored pieces are cut short, emptied or lengthened, replaced by directories, and foreign files and directories appear under names like those of pieces (numbers out of range, signs, leading zeros, text before or after) with bytes of pieces or others; a new session loads that, twice, and finishes the download; non-trivial: a disturbed piece or foreign file, and at least one intact piece",
		Quick: 40000, Thorough: 800000, Limit: 60000, Run: c37,
		Assume: []string{
			"the bytes of a piece whose file has the right length are not changed while no session runs",
			"what else is on disk may be removed by nobody; the download can finish unless a directory is in the place of a piece",
		},
	})
}

// pieceFiles stores each piece on its own and returns, for each, the path of
// what that left in the work directory.
func pieceFiles(t *engine.T, w *world, l *layout) []string {
	files := make([]string, l.pieces())
	for i := range files {
		w.wipe(t)
		s := storage.New(w.target, w.work, l.info)
		if err := s.Load(); err != nil {
			t.Discard("load failed: " + err.Error())
		}
		for b := range l.blocks(i) {
			if err := s.PutBlock(i, b*block, bytes.Clone(l.block(i, b))); err != nil {
				t.Discard("put failed: " + err.Error())
			}
		}
		for name, content := range snapshot(w.work) {
			if content != string(l.piece(i)) || strings.HasSuffix(name, "/") {
				continue
			}
			if files[i] != "" {
				t.Discard("piece stored twice")
			}
			files[i] = name
		}
		if files[i] == "" {
			t.Discard("no file of the piece's bytes") // a torrent of one piece is assembled at once
		}
	}
	w.wipe(t)
	return files
}

func c37(t *engine.T) {
	withWorld(t, func(w *world) {
		l := genLayout(t, 120000, 6)
		if l.pieces() == 0 {
			t.Discard("nothing to store")
		}
		files := pieceFiles(t, w, l)
		have := make([]bool, l.pieces())
		blocked := false // by a directory
		disturbed := 0
		write := func(name string, data []byte) {
			p := filepath.Join(w.work, name)
			if err := os.MkdirAll(filepath.Dir(p), 0o700); err != nil {
				t.Bugf("%v", err)
			}
			if err := os.WriteFile(p, data, 0o600); err != nil {
				t.Bugf("%v", err)
			}
		}
		all := t.Prob(1, 3)
		for i, name := range files {
			if !all && t.Prob(1, 3) {
				continue
			}
			data := l.piece(i)
			switch t.Weighted(12, 3, 1, 1, 1) {
			case 1:
				n := t.N(len(data))
				t.Notef("piece %d cut to %d of %d", i, n, len(data))
				write(name, data[:n])
				disturbed++
			case 2:
				t.Notef("piece %d emptied", i)
				write(name, nil)
				disturbed++
			case 3:
				extra := append(bytes.Clone(data), t.Bytes(100)...)
				if len(extra) == len(data) {
					extra = append(extra, 0)
				}
				t.Notef("piece %d lengthened by %d", i, len(extra)-len(data))
				write(name, extra)
				disturbed++
			case 4:
				t.Notef("piece %d a directory", i)
				if err := os.MkdirAll(filepath.Join(w.work, name), 0o700); err != nil {
					t.Bugf("%v", err)
				}
				blocked = true
				disturbed++
			default:
				t.Notef("piece %d stored", i)
				write(name, data)
				have[i] = true
			}
		}
		foreign := make(map[string]string)
		for n := 0; t.More(n, 2, 8); n++ {
			i := t.N(len(files))
			dir, base := filepath.Split(files[i])
			rest := strings.TrimPrefix(base, fmt.Sprint(i))
			num := fmt.Sprint(i)
			switch t.N(10) {
			case 0: // beyond the last piece
				num = fmt.Sprint(len(files) + Pick(t, 0, 1, 2, 7, 1000, 1<<31, 1<<32, 1<<62))
			case 1:
				num = "-" + Pick(t, "1", num)
			case 2:
				num = "+" + num
			case 3:
				num = "0" + num
			case 4:
				rest += Pick(t, "~", ".bak", "-123", " ", ".part", "0")
			case 5:
				num = Pick(t, " ", "x", ".", "_", "\n") + num
			case 6:
				num = Pick(t, "99999999999999999999", "18446744073709551616", "4294967296")
			case 7:
				rest = Pick(t, "", ".", ".pie", ".PIECE", "piece", ".torrent")
			case 8:
				num = ""
			case 9:
				num, rest = t.Ident(6), ""
			}
			name := dir + num + rest
			if slices.Contains(files, name) || name == dir {
				continue
			}
			if _, err := os.Lstat(filepath.Join(w.work, name)); err == nil {
				continue
			}
			data := Pick(t, l.piece(i), l.piece(t.N(len(files))), nil, t.Bytes(40))
			t.Notef("foreign %q of %d bytes", filepath.Base(name), len(data))
			if t.Prob(1, 6) {
				if err := os.MkdirAll(filepath.Join(w.work, name), 0o700); err != nil {
					t.Bugf("%v", err)
				}
			} else {
				write(name, data)
				foreign[name] = string(data)
			}
			disturbed++
		}
		t.LabelIf(all && !slices.Contains(have, false), "all pieces, not assembled")
		t.LabelIf(blocked, "directory in the place of a piece")
		t.LabelIf(len(foreign) > 0, "foreign files")
		if disturbed > 0 && slices.Contains(have, true) {
			t.NonTrivial()
		}
		left := engine.Bubble(func() { c37Judge(t, w, l, have, blocked) })
		if left != "" {
			t.Failf("operation blocked for ever", "%s", left)
		}
	})
}

func c37Judge(t *engine.T, w *world, l *layout, have []bool, blocked bool) {
	complete := !slices.Contains(have, false)
	before := snapshot(w.work)
	var s *storage.Storage
	for k := range 2 {
		when := []string{"first load", "second load"}[k]
		s = storage.New(w.target, w.work, l.info)
		if err := s.Load(); err != nil {
			t.Failf("load failed", "%s: %v", when, err)
		}
		got := bits(s, l.pieces())
		for i := range have {
			if got[i] && !have[i] {
				t.Failf("no whole piece, but taken for one", "%s: piece %d", when, i)
			}
		}
		checkLoaded(t, l, s, have, when)
		if checkTarget(t, w, l, when) != complete {
			t.Failf("torrent assembled or not", "%s: %v, pieces %v", when, !complete, have)
		}
		if !complete {
			if after := snapshot(w.work); !maps.Equal(before, after) {
				t.Failf("load changed the work directory", "%s: %s", when, diffTree(after, before))
			}
		}
	}
	if blocked {
		// The pieces that can be stored are.
		for i := range have {
			if have[i] {
				continue
			}
			for b := range l.blocks(i) {
				s.PutBlock(i, b*block, bytes.Clone(l.block(i, b)))
			}
		}
		checkLoaded(t, l, s, have, "with a directory in the place of a piece")
		return
	}
	finishDownload(t, w, l, s, "after the load")
	s = storage.New(w.target, w.work, l.info)
	if err := s.Load(); err != nil {
		t.Failf("load failed", "of the finished torrent: %v", err)
	}
	checkLoaded(t, l, s, slices.Repeat([]bool{true}, l.pieces()), "load of the finished torrent")
}
