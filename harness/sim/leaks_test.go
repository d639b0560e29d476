package sim

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"dripverif/engine"
	shimos "dripverif/shim/os"

	"github.com/browles/drip/storage"
)

func init() {
	engine.Register(&engine.Prop{
		ID:    "C35",
		Rule:  "random torrents and histories of writes, corruptions, resets, reads and restarts, as for C21; once without faults and then with faults (one operation or a stretch of them, at up to thirty points of the history); a crash at up to twenty points; after every call no file that the call opened may still be open, and no temporary file may be left in the work directory unless its removal failed, and after the next load without faults nothing may be left in the work directory but pieces; non-trivial: a call failed because of a fault, or the torrent was assembled",
		Quick: 2500, Thorough: 60000, Limit: 60000, Run: c35,
		Assume: []string{"a file counts as closed once Close was called, whatever it returned", "the pieces of a torrent that is in place may stay if the process died before it had removed them all", "temporary files are looked for anywhere under the work directory but for the torrent's own piece files"},
	})
}

func c35(t *engine.T) {
	withWorld(t, func(w *world) {
		l := genLayout(t, 70000, 4)
		plan := planHistory(t, l)
		for i := range plan { // more reads than elsewhere
			if plan[i].kind == "reset" && t.Bool() {
				plan[i].kind = "get"
			}
		}
		for range t.N(4) {
			plan = append(plan, step{"get", t.N(l.pieces()), 0, false})
		}
		stretch := 1
		if t.Prob(1, 3) {
			stretch = 1 + t.N(12)
		}
		salt := t.N(12)
		left := genRemains(t, w, l)
		left.lay(t, w, l)
		n := c35run(t, w, l, plan, 0, 0, shimos.Fault{})
		for _, k := range points(t, n, 30) {
			left.lay(t, w, l)
			ft := shimos.Fault{Err: []error{syscall.EIO, syscall.ENOSPC, syscall.EACCES}[(k+salt)%3], Part: []int{0, 100, 255}[(k/3+salt)%3]}
			c35run(t, w, l, plan, k, stretch, ft)
			c35next(t, w, l, fmt.Sprintf("after %v at operation %d", ft.Err, k))
		}
		for _, k := range points(t, n, 20) {
			left.lay(t, w, l)
			fs := w.newFS()
			fs.CrashAt, fs.CrashPart = k, []int{0, 128, 255, 256}[(k+salt)%4]
			runPlan(w, l, plan)
			if fs.Crashed() {
				t.Label("process died")
				t.LabelIf(len(snapshot(w.target)) > 0, "process died after the torrent was in place")
			}
			c35next(t, w, l, fmt.Sprintf("after a crash at operation %d", k))
		}
	})
}

// c35run runs the plan with the fault at operations from..from+stretch-1.
func c35run(t *engine.T, w *world, l *layout, plan []step, from, stretch int, ft shimos.Fault) int {
	fs := w.newFS()
	what := "without faults"
	removals := false
	fs.Inject = func(n int, op shimos.Op) (shimos.Fault, bool) {
		if n < from || n >= from+stretch {
			return shimos.Fault{}, false
		}
		what = fmt.Sprintf("with %v at operation %d (%s %s)", ft.Err, n, op.Kind, rel(w, op.Path))
		removals = removals || strings.HasPrefix(op.Kind, "remove")
		return ft, true
	}
	look := func(call string, err error) {
		if err != nil && fs.Faults() > 0 {
			t.NonTrivial()
			t.Label("call failed")
		}
		if open := fs.Open(); len(open) > 0 {
			t.Failf("file left open", "%s, %s (%v): %d of %v", what, call, err, len(open), rel(w, open[0]))
		}
		if removals {
			return
		}
		hash := fmt.Sprintf("%x", l.info.SHA1)
		filepath.WalkDir(w.work, func(p string, d os.DirEntry, err error) error {
			if err != nil || d.IsDir() {
				return nil
			}
			if r, _ := filepath.Rel(w.work, p); !strings.HasPrefix(r, hash+string(filepath.Separator)) {
				t.Failf("temporary file left behind", "%s, %s: %s", what, call, r)
			}
			return nil
		})
	}
	s := storage.New(w.target, w.work, l.info)
	look("Load", s.Load())
	for _, st := range plan {
		var err error
		switch st.kind {
		case "put":
			data := bytes.Clone(l.block(st.i, st.b))
			if st.bad {
				data = corrupt(data)
			}
			err = s.PutBlock(st.i, st.b*block, data)
		case "reset":
			s.ResetPiece(st.i)
		case "get":
			_, err = s.GetBlock(st.i, 0, l.pieceSize(st.i))
		case "restart":
			s = storage.New(w.target, w.work, l.info)
			err = s.Load()
		}
		look(st.String(), err)
	}
	if len(snapshot(w.target)) > 0 {
		t.NonTrivial()
		t.Label("assembled")
	}
	return fs.Ops()
}

// c35next loads the torrent again and looks for what is left of the past.
func c35next(t *engine.T, w *world, l *layout, when string) {
	w.newFS()
	s := storage.New(w.target, w.work, l.info)
	if err := s.Load(); err != nil {
		return // judged elsewhere
	}
	hash := fmt.Sprintf("%x", l.info.SHA1)
	filepath.WalkDir(w.work, func(p string, d os.DirEntry, err error) error {
		r, _ := filepath.Rel(w.work, p)
		switch {
		case err != nil || r == "." || r == "temp":
		case r != hash && !strings.HasPrefix(r, hash+string(filepath.Separator)):
			t.Failf("what was left by a session is not removed by the next", "%s: %s", when, rel(w, p))
		}
		return nil
	})
}
