package sim

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"dripverif/engine"

	"github.com/browles/drip/api/metainfo"
)

const block = 1 << 14 // BEP 3 block size used by the client

// layout is a generated torrent.
type layout struct {
	name     string
	pieceLen int
	files    []lfile // nil: single file
	content  []byte
	info     *metainfo.Info
}

type lfile struct {
	path []string
	off  int
	len  int
}

func (l *layout) pieces() int { return (len(l.content) + l.pieceLen - 1) / l.pieceLen }
func (l *layout) pieceSize(i int) int {
	return min(l.pieceLen, len(l.content)-i*l.pieceLen)
}
func (l *layout) piece(i int) []byte {
	return l.content[i*l.pieceLen : i*l.pieceLen+l.pieceSize(i)]
}
func (l *layout) blocks(i int) int { return (l.pieceSize(i) + block - 1) / block }
func (l *layout) block(i, b int) []byte {
	p := l.piece(i)
	return p[b*block : min(len(p), (b+1)*block)]
}

// nameChars are the characters of ordinary names.
var nameParts = []string{"a", "b", "file", "data", ".hidden", "x.y", "..x", "x..", "...", "with space", "ümlaut", "日本", "UPPER", "semi;colon", "star*", "q?", "back\\slash", "-dash", "~", "temp", "0.piece", "new\nline", "%2e%2e", "con", "CON.txt", "a.piece", " lead", "trail ", "a:b", "tab\there", "upper", "e\u0301", "\u00e9", "latin\xe9", "A", "B"}

func genName(t *engine.T) string {
	switch t.Weighted(10, 8, 1) {
	case 0:
		return t.Ident(4)
	case 1:
		return nameParts[t.N(len(nameParts))]
	}
	// long but legal
	return strings.Repeat(t.Ident(1), t.Range(200, 255))
}

// genLayout makes a well-formed torrent with at most maxTotal bytes.
func genLayout(t *engine.T, maxTotal, maxPieces int) *layout {
	l := &layout{name: genName(t)}
	l.pieceLen = []int{block, 2 * block, 1000, block - 1, block + 1, 3 * block, 20000, block + block/2, 1, 2*block - 1, 40000, 512}[t.N(12)]
	maxTotal = min(maxTotal, l.pieceLen*maxPieces)
	total := 0
	np := t.Range(1, max(1, min(maxPieces, maxTotal/l.pieceLen)))
	switch t.Weighted(3, 4, 1) {
	case 0:
		total = np * l.pieceLen
	case 1:
		total = (np-1)*l.pieceLen + 1 + t.N(l.pieceLen)
	case 2:
		total = (np-1)*l.pieceLen + Pick(t, 1, l.pieceLen, max(1, l.pieceLen-1), min(block, l.pieceLen), min(block+1, l.pieceLen), max(1, min(block, l.pieceLen)-1))
	}
	if t.Bool() {
		// multi-file: cut the content at random places
		seen := map[string]bool{}
		off := 0
		n := 0
		for n < 12 {
			rest := total - off
			if rest == 0 && (n > 0 && !t.Prob(1, 4)) {
				break
			}
			ln := 0
			switch t.Weighted(3, 2, 2, 2, 2) {
			case 0:
				ln = t.N(rest + 1)
			case 1:
				ln = 0
			case 2:
				ln = rest
			case 3:
				ln = min(rest, t.N(40))
			case 4: // up to a piece or block boundary, or next to one
				g := Pick(t, l.pieceLen, block)
				ln = min(rest, max(0, g-off%g+t.N(3)-1))
			}
			if n == 11 {
				ln = rest
			}
			var path []string
			for {
				path = nil
				for d := 0; d < 1 || d < 3 && t.Prob(1, 3); d++ {
					path = append(path, genName(t))
				}
				if n > 3 {
					path[len(path)-1] = fmt.Sprint(n, "-", t.Ident(3))
				}
				if okPath(seen, path) {
					break
				}
			}
			l.files = append(l.files, lfile{path, off, ln})
			off += ln
			n++
		}
		if off < total {
			l.files[len(l.files)-1].len += total - off
		}
	}
	l.content = engine.Fill(t.Choice(1<<30), total)
	l.build(t)
	return l
}

func Pick[E any](t *engine.T, xs ...E) E { return xs[t.N(len(xs))] }

// okPath keeps paths distinct and no file a parent of another; names that
// differ only in a too-long directory part do not matter here.
func okPath(seen map[string]bool, path []string) bool {
	p := strings.Join(path, "/")
	if seen["f:"+p] || seen["d:"+p] {
		return false
	}
	for i := 1; i < len(path); i++ {
		if seen["f:"+strings.Join(path[:i], "/")] {
			return false
		}
	}
	for i := 1; i < len(path); i++ {
		seen["d:"+strings.Join(path[:i], "/")] = true
	}
	seen["f:"+p] = true
	return true
}

func (l *layout) build(t *engine.T) {
	info := &metainfo.Info{Name: l.name, PieceLength: l.pieceLen}
	h := sha1.Sum([]byte(fmt.Sprint(l.name, l.pieceLen, len(l.content))))
	info.SHA1 = h
	for i := range l.pieces() {
		info.Pieces = append(info.Pieces, sha1.Sum(l.piece(i)))
	}
	if l.files == nil {
		info.Length = int64(len(l.content))
	} else {
		for _, f := range l.files {
			info.Files = append(info.Files, &metainfo.File{Length: int64(f.len), Path: f.path})
		}
	}
	l.info = info
	t.Notef("torrent %q %d bytes, %d pieces of %d, files %s", short(l.name), len(l.content), l.pieces(), l.pieceLen, l.fileList())
}

func short(s string) string {
	if len(s) > 40 {
		return s[:20] + fmt.Sprintf("...(%d)", len(s))
	}
	return s
}

func (l *layout) fileList() string {
	if l.files == nil {
		return "single"
	}
	var s []string
	for _, f := range l.files {
		s = append(s, fmt.Sprintf("%s:%d", short(strings.Join(f.path, "/")), f.len))
	}
	return "[" + strings.Join(s, " ") + "]"
}

// tree is what a finished torrent looks like: path relative to the target
// directory -> content; directories end in "/".
func (l *layout) tree() map[string]string {
	m := map[string]string{}
	if l.files == nil {
		m[l.name] = string(l.content)
		return m
	}
	m[l.name+"/"] = ""
	for _, f := range l.files {
		for i := 1; i < len(f.path); i++ {
			m[l.name+"/"+strings.Join(f.path[:i], "/")+"/"] = ""
		}
		m[l.name+"/"+strings.Join(f.path, "/")] = string(l.content[f.off : f.off+f.len])
	}
	return m
}

// snapshot reads a directory tree.
func snapshot(dir string) map[string]string {
	m := map[string]string{}
	var walk func(rel string)
	walk = func(rel string) {
		ents, err := os.ReadDir(filepath.Join(dir, rel))
		if err != nil {
			return
		}
		for _, e := range ents {
			r := e.Name()
			if rel != "" {
				r = rel + "/" + r
			}
			if e.IsDir() {
				m[r+"/"] = ""
				walk(r)
			} else {
				b, err := os.ReadFile(filepath.Join(dir, r))
				if err != nil {
					panic(err)
				}
				m[r] = string(b)
			}
		}
	}
	walk("")
	return m
}

// diffTree describes the first differences of two trees.
func diffTree(got, want map[string]string) string {
	var d []string
	for k, v := range want {
		g, ok := got[k]
		switch {
		case !ok:
			d = append(d, fmt.Sprintf("%q is missing", short(k)))
		case g != v:
			d = append(d, fmt.Sprintf("%q differs (%s)", short(k), diffBytes([]byte(g), []byte(v))))
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			d = append(d, fmt.Sprintf("%q should not exist", short(k)))
		}
	}
	sort.Strings(d)
	if len(d) > 5 {
		d = append(d[:5], "...")
	}
	return strings.Join(d, ", ")
}

func diffBytes(g, w []byte) string {
	if bytes.Equal(g, w) {
		return "equal"
	}
	i := 0
	for i < len(g) && i < len(w) && g[i] == w[i] {
		i++
	}
	return fmt.Sprintf("%d bytes, want %d, first difference at %d", len(g), len(w), i)
}
