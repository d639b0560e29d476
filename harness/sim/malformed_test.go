package sim

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"time"

	"dripverif/engine"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/bencode"
	"github.com/browles/drip/storage"
)

func init() {
	engine.Register(&engine.Prop{
		ID:    "C36",
		Rule:  "random torrents of which most contradict themselves in one way: piece lengths that are not positive, pieces missing or too many, negative lengths (also ones that cancel out), sums that wrap around, files in place of one another or of a directory, pieces that no request can address; the others are consistent but odd (huge, empty, piece longer than the torrent). They are decoded from a file or built directly, and given to a storage, or to a whole session; an independent judgement in big integers says whether they must be refused or accepted; non-trivial: one that must be refused",
		Quick: 40000, Thorough: 800000, Limit: 30000, Run: c36,
		Assume: []string{"left open: torrents without any bytes whose piece length is not positive, and pieces between 2 and 4 GiB"},
	})
}

// sound judges a torrent: 1 consistent, -1 contradictory, 0 left open.
func sound(info *metainfo.Info) (int, string) {
	total := new(big.Int)
	seen := map[string]bool{}
	if len(info.Files) == 0 {
		total.SetInt64(info.Length)
		if info.Length < 0 {
			return -1, "negative length"
		}
	}
	for _, f := range info.Files {
		if f.Length < 0 {
			return -1, "negative length of a file"
		}
		total.Add(total, big.NewInt(f.Length))
		if len(f.Path) == 0 {
			return -1, "a file in the place of the torrent's directory"
		}
		if !okPath(seen, f.Path) {
			return -1, "files in one another's place"
		}
	}
	if !total.IsInt64() {
		return -1, "more than any counter holds"
	}
	if info.PieceLength <= 0 {
		if total.Sign() == 0 && len(info.Pieces) == 0 {
			return 0, "no bytes, piece length not positive"
		}
		return -1, "piece length not positive"
	}
	pl := big.NewInt(int64(info.PieceLength))
	want := new(big.Int).Div(new(big.Int).Sub(new(big.Int).Add(total, pl), big.NewInt(1)), pl)
	if want.Cmp(big.NewInt(int64(len(info.Pieces)))) != 0 {
		return -1, "wrong number of pieces"
	}
	if longest := min(int64(info.PieceLength), total.Int64()); longest > math.MaxUint32+1 {
		return -1, "pieces that cannot be requested"
	} else if longest > math.MaxInt32 {
		return 0, "gigantic pieces"
	}
	return 1, "consistent"
}

func c36(t *engine.T) {
	l := genLayout(t, 60000, 6)
	if l.files == nil && t.Prob(1, 6) {
		l.files = []lfile{{[]string{genName(t)}, 0, len(l.content)}}
		l.build(t)
	}
	info := *l.info
	info.Pieces = slices.Clone(info.Pieces)
	info.Files = nil
	for _, f := range l.info.Files {
		cpy := *f
		cpy.Path = slices.Clone(f.Path)
		info.Files = append(info.Files, &cpy)
	}
	multi := len(info.Files) > 0
	odd := Pick(t, -1, -2, math.MinInt64, -info.PieceLength, math.MinInt32, -info.PieceLength-1)
	file := func() *metainfo.File { return info.Files[t.N(len(info.Files))] }
	add := func(at int, f *metainfo.File) { info.Files = slices.Insert(info.Files, at, f) }
	fresh := func(n int64) *metainfo.File {
		return &metainfo.File{Length: n, Path: []string{fmt.Sprint("fresh", len(info.Files))}}
	}
	setTotal := func(n int64) {
		if multi {
			for _, f := range info.Files {
				f.Length = 0
			}
			a := file()
			a.Length = n
			b := file()
			cut := int64(t.Choice(uint64(n) + 1))
			a.Length -= cut
			b.Length += cut
		} else {
			info.Length = n
		}
	}
	what := Pick(t, "none", "none", "odd piece length", "odd piece length", "huge", "no bytes", "piece length", "pieces missing", "pieces too many", "no pieces", "negative length", "cancelling lengths", "wrap around", "length off", "same path", "nested path", "giant piece", "pieces of none")
	switch what {
	case "odd piece length": // longer than needed
		if len(info.Pieces) == 1 {
			info.PieceLength = Pick(t, info.PieceLength+1+t.N(1<<20), math.MaxInt32, math.MaxInt64, 1<<32, 1<<32+1, 1<<62)
		}
	case "huge":
		n := 1 + t.N(300)
		info.PieceLength = Pick(t, 1<<20, 1<<24, 1<<30, 1<<31-1, 1<<31, 1<<32, 1<<32-1) - t.N(3)
		info.Pieces = make([][20]byte, n)
		setTotal(int64(info.PieceLength)*int64(n-1) + 1 + int64(t.Choice(uint64(info.PieceLength))))
	case "no bytes":
		setTotal(0)
		info.Pieces = nil
		if t.Bool() {
			info.PieceLength = Pick(t, 0, 1, odd, 1<<40)
		}
	case "pieces of none":
		setTotal(0)
		info.Pieces = info.Pieces[:1]
	case "piece length":
		info.PieceLength = Pick(t, 0, 0, odd)
		if t.Bool() {
			info.Pieces = info.Pieces[:1]
		}
	case "pieces missing":
		info.Pieces = info.Pieces[:t.N(len(info.Pieces))]
	case "no pieces":
		info.Pieces = nil
	case "pieces too many":
		for range Pick(t, 1, 1, 2, 1+t.N(100)) {
			info.Pieces = append(info.Pieces, info.Pieces[0])
		}
	case "length off":
		d := int64(Pick(t, info.PieceLength, 2*info.PieceLength, len(l.content)*1000, 1<<40, math.MaxInt32, math.MaxInt64/2))
		if multi {
			file().Length += d
		} else {
			info.Length += d
		}
	case "negative length":
		if multi {
			file().Length = int64(odd)
		} else {
			info.Length = int64(odd)
			info.Pieces = Pick(t, info.Pieces, nil)
		}
	case "cancelling lengths":
		d := Pick(t, int64(1), 5, int64(info.PieceLength), int64(t.Choice(1<<62)))
		if multi {
			add(t.N(len(info.Files)+1), fresh(-d))
			add(t.N(len(info.Files)+1), fresh(d))
		} else {
			info.Length = -info.Length
		}
	case "wrap around":
		if multi { // the rest of 2^64, in parts
			k := t.Range(2, 5)
			at := t.N(len(info.Files) + 1)
			for i := range k {
				n := uint64(math.MaxUint64)/uint64(k) + 1
				if i == k-1 {
					n = -(n * uint64(k-1))
				}
				if int64(n) < 0 {
					n = math.MaxInt64
				}
				add(at, fresh(int64(n)))
			}
		}
	case "same path":
		if multi {
			f := fresh(Pick(t, 0, 0, int64(t.N(20))))
			f.Path = slices.Clone(file().Path)
			last := info.Files[len(info.Files)-1]
			if f.Length > last.Length {
				f.Length = 0
			}
			last.Length -= f.Length
			add(len(info.Files), f)
			if t.Bool() {
				i, j := t.N(len(info.Files)), t.N(len(info.Files))
				info.Files[i], info.Files[j] = info.Files[j], info.Files[i]
			}
		}
	case "nested path":
		if multi {
			f := fresh(0)
			g := file()
			if t.Bool() { // also the torrent's own directory
				f.Path = slices.Clone(g.Path[:t.N(len(g.Path))])
			} else {
				f.Path = append(slices.Clone(g.Path), strings.Split(Pick(t, "x", "x/y", "0"), "/")...)
			}
			add(t.N(len(info.Files)+1), f)
		}
	case "giant piece":
		n := 1 + t.N(4)
		info.PieceLength = Pick(t, 1<<32+1+t.N(3), 1<<33, 1<<40, 1<<62, math.MaxInt64)
		n = min(n, math.MaxInt64/info.PieceLength)
		info.Pieces = make([][20]byte, n)
		setTotal(int64(info.PieceLength)*int64(n-1) + 1 + int64(t.Choice(uint64(info.PieceLength))))
	}
	verdict, why := sound(&info)
	t.Notef("%s: piece length %d, %d pieces, length %d, files %s: %s", what, info.PieceLength, len(info.Pieces), info.Length, listFiles(info.Files), why)
	t.Label(why)
	t.LabelIf(verdict < 0, "must be refused")
	if verdict < 0 {
		t.NonTrivial()
	}
	in := &info
	if t.Bool() { // as a file
		data, err := bencode.Marshal(&metainfo.Metainfo{Announce: "http://tracker.test/announce", Info: in})
		if err != nil {
			t.Bugf("%v", err)
		}
		mi := &metainfo.Metainfo{}
		if err := bencode.Unmarshal(data, mi); err != nil {
			if verdict > 0 {
				t.Failf("consistent torrent refused", "%s: decoding: %v", why, err)
			}
			t.Label("refused by the decoder")
			return
		}
		in = mi.Info
		t.Label("decoded")
	}
	present := t.Prob(1, 8)
	withWorld(t, func(w *world) {
		if present { // something of that name is there
			if multi {
				os.MkdirAll(filepath.Join(w.target, in.Name), 0o700)
			} else {
				os.WriteFile(filepath.Join(w.target, in.Name), nil, 0o600)
			}
		}
		before := snapshot(w.base)
		untouched := func() {
			if d := diffTree(snapshot(w.base), before); d != "" {
				t.Failf("a refused torrent leaves traces", "%s: %s", why, d)
			}
		}
		if verdict < 0 && t.Prob(1, 6) {
			l.info = in
			conf := genConf(t)
			left := engine.Bubble(func() {
				s := newSession(t, "C30", w, l, conf)
				defer s.end()
				s.run()
				if !s.until(60*time.Second, 100*time.Millisecond, s.returned) || s.startErr == nil {
					t.Failf("contradictory torrent accepted", "%s: Start returned %v, %v", why, s.returned(), s.startErr)
				}
				time.Sleep(40 * time.Second)
				if n := s.net.Listeners(); n != 0 {
					t.Failf("the listener is left open", "%d", n)
				}
				for _, a := range s.trk.announces() {
					if a.q.Get("event") != "stopped" {
						t.Failf("a session that could not start is announced", "%q", a.q.Get("event"))
					}
				}
				if len(s.net.Dials()) > 0 {
					t.Failf("a session that could not start dials peers", "")
				}
			})
			if left != "" {
				t.Failf("activity is left behind", "goroutines of the client remain after Start has returned an error (%s)", left)
			}
			untouched()
			t.Label("session")
			return
		}
		engine.Bubble(func() {
			s := storage.New(w.target, w.work, in)
			err := s.Load()
			if verdict < 0 && err == nil {
				t.Failf("contradictory torrent accepted", "%s", why)
			}
			if verdict > 0 && err != nil {
				t.Failf("consistent torrent refused", "%s: %v", why, err)
			}
			if err != nil {
				untouched()
			}
		})
	})
}

func listFiles(files []*metainfo.File) string {
	var b strings.Builder
	for _, f := range files {
		fmt.Fprintf(&b, "%s:%d ", short(strings.Join(f.Path, "/")), f.Length)
	}
	return b.String()
}
