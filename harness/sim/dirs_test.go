package sim

import (
	"fmt"
	"os"
	"path/filepath"

	"dripverif/engine"
	shimos "dripverif/shim/os"
	shimrand "dripverif/shim/rand"
	"dripverif/shim/sched"
)

// world is the scratch space and the installed file system of one case.
type world struct {
	base, target, work string
	fs                 *shimos.FS
}

var worldN int

// withWorld runs f on fresh directories that are removed afterwards.
func withWorld(t *engine.T, f func(w *world)) {
	worldN++
	w := &world{base: filepath.Join(os.TempDir(), fmt.Sprintf("w%d-%d", os.Getpid(), worldN))}
	w.target, w.work = filepath.Join(w.base, "target"), filepath.Join(w.base, "work")
	for _, d := range []string{w.target, w.work} {
		if err := os.MkdirAll(d, 0o700); err != nil {
			t.Bugf("%v", err)
		}
	}
	defer os.RemoveAll(w.base)
	defer shimos.Install(nil)
	defer sched.Stop()
	shimrand.Reseed(1)
	w.newFS()
	f(w)
}

func (w *world) newFS() *shimos.FS {
	w.fs = &shimos.FS{Roots: []string{w.target, w.work}}
	shimos.Install(w.fs)
	return w.fs
}
