package sim

import (
	"bytes"
	"os"
	"path/filepath"
	"strings"

	"dripverif/engine"

	"github.com/browles/drip/storage"
)

func init() {
	engine.Register(&engine.Prop{
		ID:    "C23",
		Rule:  "random torrents whose name or file paths carry hostile components (parent references, absolute paths, separators, empty, dots, NUL) or only ordinary ones, taken through load, writes, completion, reads and restart behind a file-system layer that records and refuses every path outside the two directories; non-trivial: a hostile torrent",
		Quick: 60000, Thorough: 1000000, Limit: 60000,
		Run: c23,
		Assume: []string{
			"no symbolic links inside the two directories",
			"whether a component with a separator or an empty component is refused when the whole path stays inside is left open",
		},
	})
}

var hostile = []string{"..", ".", "", "/", "../x", "../../x", "/etc/passwd", "a/../../b", "x/..", "..\x00", "\x00", "a/b", "./", "//", "../work/x", "./..", "...", "..a", "a..", "~", "../target/other", "a/../../../outside", "other", "dir"}

func c23(t *engine.T) {
	withWorld(t, func(w *world) {
		l := genLayout(t, 40000, 3)
		n := t.N(3)
		if n > 0 && (l.files == nil || t.Prob(1, 3)) {
			l.name = hostile[t.N(len(hostile))]
		}
		if l.files != nil {
			for range n {
				f := &l.files[t.N(len(l.files))]
				h := hostile[t.N(len(hostile))]
				switch t.N(5) {
				case 0:
					f.path = []string{h}
				case 1:
					f.path = append([]string{h}, f.path...)
				case 2:
					f.path[t.N(len(f.path))] = h
				case 3:
					f.path = []string{"..", Pick(t, "..", "a", l.name, "other", "dir"), Pick(t, "outside", "..", "other", "keep")}
				case 4:
					f.path = []string{Pick(t, "a", "b"), "..", Pick(t, "..", "a"), Pick(t, "x", "..", "other")}
				}
			}
			if t.Prob(1, 20) {
				l.files[t.N(len(l.files))].path = nil
			}
		}
		l.build(t)
		// what belongs to others
		keep := map[string]string{"target/other": "o", "target/dir/keep": "k", "outside": "x", "work/other": "w", "temp": "t"}
		// another torrent in progress in the same directories
		if t.Bool() {
			h := strings.Repeat(Pick(t, "0", "f", "7"), 40)
			keep["work/"+h+"/0.piece"] = "piece of another torrent"
			keep["work/temp/"+h+"-1.piece123"] = "being written"
			keep["work/temp/"+h+"456/a/b"] = "being assembled"
			t.Label("neighbour")
		}
		for k, v := range keep {
			os.MkdirAll(filepath.Dir(filepath.Join(w.base, k)), 0o700)
			if err := os.WriteFile(filepath.Join(w.base, k), []byte(v), 0o600); err != nil {
				t.Bugf("%v", err)
			}
		}
		leaves, gray, clash := classify(l)
		if clash {
			t.Discard("paths that collide with each other or with existing files")
		}
		t.Notef("leaves=%v gray=%v", leaves, gray)
		if leaves {
			t.NonTrivial()
		}
		t.LabelIf(leaves, "hostile")
		t.LabelIf(gray && !leaves, "odd but inside")
		t.LabelIf(!gray && !leaves, "ordinary")
		refused := false
		served := false
		engine.Bubble(func() {
			for session := 0; session < 2; session++ {
				s := storage.New(w.target, w.work, l.info)
				if err := s.Load(); err != nil {
					refused = true
					t.Label("refused at load")
				}
				get := func() {
					for i := range l.pieces() {
						if data, err := s.GetBlock(i, 0, l.pieceSize(i)); err == nil {
							served = true
							if !bytes.Equal(data, l.piece(i)) {
								t.Failf("served bytes that are not the torrent's", "piece %d: %s", i, diffBytes(data, l.piece(i)))
							}
						}
					}
				}
				get()
				for i := range l.pieces() {
					for b := range l.blocks(i) {
						if err := s.PutBlock(i, b*block, bytes.Clone(l.block(i, b))); err != nil && session == 0 {
							refused = true
						}
					}
				}
				get()
			}
		})
		if e := w.fs.Escapes(); len(e) > 0 {
			t.Failf("touched a path outside the directories", "%s %q", e[0].Kind, e[0].Path)
		}
		for k, v := range keep {
			if b, err := os.ReadFile(filepath.Join(w.base, k)); err != nil || string(b) != v {
				t.Failf("changed a file that belongs to others", "%s: %q %v", k, b, err)
			}
		}
		if leaves && !refused {
			t.Failf("torrent with escaping paths not refused", "name %q files %s", l.name, l.fileList())
		}
		if !leaves && !gray {
			if refused {
				t.Failf("ordinary torrent refused", "name %q files %s", l.name, l.fileList())
			}
			got := snapshot(w.target)
			for _, k := range []string{"other", "dir/", "dir/keep"} {
				delete(got, k)
			}
			if d := diffTree(got, l.tree()); d != "" {
				t.Failf("ordinary torrent not stored", "%s", d)
			}
			if !served {
				t.Failf("ordinary torrent not served", "")
			}
		}
	})
}

// classify says whether a path leads out of the torrent's own file or
// directory, whether some component is odd, and whether files collide.
func classify(l *layout) (leaves, gray, clash bool) {
	odd := func(c string) bool {
		return c == "" || c == "." || c == ".." || strings.ContainsAny(c, "/\x00")
	}
	gray = odd(l.name)
	top := filepath.Join("/t", l.name)
	if !strings.HasPrefix(top, "/t/") || l.name == "" || strings.Contains(l.name, "..") && escapesUp(l.name) {
		leaves = true
	}
	if l.name == "other" || l.name == "dir" {
		clash = true
	}
	if l.files == nil {
		return
	}
	seen := map[string]bool{}
	for _, f := range l.files {
		for _, c := range f.path {
			gray = gray || odd(c)
		}
		p := strings.Join(f.path, "/")
		if escapesUp(p) || filepath.Clean("/"+p) == "/" {
			leaves = true
			continue
		}
		cl := strings.Split(strings.TrimPrefix(filepath.Clean("/"+p), "/"), "/")
		if !okPath(seen, cl) {
			clash = true
		}
	}
	return leaves, gray, clash && !leaves
}

// escapesUp tells whether following the relative path ever ends above its
// start.
func escapesUp(p string) bool {
	return !filepath.IsLocal(strings.TrimLeft("./"+p, "/")) && filepath.Clean("./"+p) != "." && strings.HasPrefix(filepath.Clean("./"+p), "..")
}
