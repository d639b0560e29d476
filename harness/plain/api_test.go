package plain

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"net"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"dripverif/engine"
	"dripverif/ref"

	"github.com/browles/drip/api/magnet"
	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/api/tracker"
	"github.com/browles/drip/bencode"
)

func init() {
	engine.Register(&engine.Prop{
		ID:    "C06",
		Rule:  "metainfo files with random known fields and unknown keys of any shape at the top and inside info, single- and multi-file; non-trivial: unknown keys inside info, or several files",
		Quick: 300000, Thorough: 6000000, Run: c06,
	})
	engine.Register(&engine.Prop{
		ID:    "C07",
		Rule:  "random metainfo values written and read back, and pieces strings of any length; non-trivial: several files, announce tiers or pieces",
		Quick: 300000, Thorough: 6000000, Run: c07,
	})
	engine.Register(&engine.Prop{
		ID:    "C08",
		Rule:  "magnet links built from random parameter values with random escaping, order and foreign parameters; non-trivial: at least two parameters with an escaped byte",
		Quick: 600000, Thorough: 12000000, Run: c08,
	})
	engine.Register(&engine.Prop{
		ID:    "C09",
		Rule:  "random announce requests encoded, inspected as a query and decoded, and queries with damaged values; non-trivial: a hash or id byte needing escape, or a damaged value",
		Quick: 500000, Thorough: 10000000, Run: c09,
	})
	engine.Register(&engine.Prop{
		ID:    "C10",
		Rule:  "random tracker responses in both peer forms, and responses with a random or damaged peers value; non-trivial: at least one peer, or a damaged peers value",
		Quick: 500000, Thorough: 10000000, Run: c10,
	})
}

func hash20(t *engine.T) (h [20]byte) {
	switch t.N(4) {
	case 0:
		copy(h[:], engine.Fill(t.Choice(1<<32), 20))
	case 1:
		for i := range h {
			h[i] = t.Byte()
		}
	case 2:
		c := t.Byte()
		for i := range h {
			h[i] = c
		}
	case 3:
		h[t.N(20)] = t.Byte()
	}
	return
}

// unknownKeys adds entries under keys not in known.
func unknownKeys(t *engine.T, kv []ref.KV, known ...string) ([]ref.KV, int) {
	used := map[string]bool{}
	for _, k := range known {
		used[k] = true
	}
	n := 0
	for i := 0; t.More(i, 1, 5); i++ {
		k := Pick2(t, []string{"", "source", "a", "zzz", "name.utf-8", "piece", "pieces root", "file tree", "Length", "PIECES", "info ", "url-list", "nodes", "x_cross_seed", "meta version", "sha1", "announce ", "length\x00"})
		if t.Prob(1, 3) {
			k = t.String(12)
		}
		if used[k] {
			continue
		}
		used[k] = true
		n++
		kv = append(kv, ref.KV{K: k, V: genVal(t, 3)})
	}
	return kv, n
}

func smallInt(t *engine.T) int64 {
	if t.Prob(1, 4) {
		return t.Int64()
	}
	return int64(t.N(1 << 20))
}

func posInt64(t *engine.T) int64 {
	v := smallInt(t)
	if v < 0 {
		v = -(v + 1)
	}
	return v
}

func genInfo(t *engine.T, maxPieces int) (*metainfo.Info, []ref.KV) {
	in := &metainfo.Info{}
	var kv []ref.KV
	in.Name = t.String(30)
	kv = append(kv, ref.KV{K: "name", V: ref.StrV(in.Name)})
	in.PieceLength = int(posInt64(t))
	kv = append(kv, ref.KV{K: "piece length", V: ref.IntV(int64(in.PieceLength))})
	n := t.N(maxPieces + 1)
	var cat []byte
	if t.Prob(1, 2000) { // a large torrent
		k := 500 + t.N(15000)
		b := engine.Fill(t.Choice(1<<32), 20*k)
		t.Label("large info dictionary")
		for i := 0; i < k; i++ {
			in.Pieces = append(in.Pieces, [20]byte(b[20*i:]))
		}
		cat = append(cat, b...)
	}
	for i := 0; i < n; i++ {
		h := hash20(t)
		in.Pieces = append(in.Pieces, h)
		cat = append(cat, h[:]...)
	}
	kv = append(kv, ref.KV{K: "pieces", V: ref.StrV(string(cat))})
	if t.Prob(1, 4) {
		in.Private = 1
		kv = append(kv, ref.KV{K: "private", V: ref.IntV(1)})
	}
	if t.Bool() {
		in.Length = posInt64(t)
		if in.Length > 0 || t.Bool() {
			kv = append(kv, ref.KV{K: "length", V: ref.IntV(in.Length)})
		}
		if t.Prob(1, 4) {
			in.MD5Sum = t.Ident(30)
			kv = append(kv, ref.KV{K: "md5sum", V: ref.StrV(in.MD5Sum)})
		}
		return in, kv
	}
	l := ref.ListV()
	for i := 0; i == 0 || t.More(i, 3, 12); i++ {
		f := &metainfo.File{Length: posInt64(t)}
		p := ref.ListV()
		for j := 0; j == 0 || t.More(j, 1, 5); j++ {
			s := t.String(12)
			f.Path = append(f.Path, s)
			p.L = append(p.L, ref.StrV(s))
		}
		fkv := []ref.KV{{K: "length", V: ref.IntV(f.Length)}, {K: "path", V: p}}
		if t.Prob(1, 4) {
			f.MD5Sum = t.Ident(30)
			fkv = append(fkv, ref.KV{K: "md5sum", V: ref.StrV(f.MD5Sum)})
		}
		if t.Prob(1, 4) {
			fkv, _ = unknownKeys(t, fkv, "length", "path", "md5sum")
		}
		in.Files = append(in.Files, f)
		l.L = append(l.L, ref.DictV(fkv...))
	}
	kv = append(kv, ref.KV{K: "files", V: l})
	return in, kv
}

func c06(t *engine.T) {
	in, ikv := genInfo(t, 6)
	ikv, unk := unknownKeys(t, ikv, "name", "piece length", "pieces", "private", "length", "md5sum", "files")
	want := &metainfo.Metainfo{Info: in}
	kv := []ref.KV{{K: "info", V: ref.DictV(ikv...)}}
	if t.Prob(3, 4) {
		want.Announce = t.String(30)
		kv = append(kv, ref.KV{K: "announce", V: ref.StrV(want.Announce)})
	}
	if t.Bool() {
		l := ref.ListV()
		for i := 0; i == 0 || t.More(i, 2, 4); i++ {
			tier := []string{}
			tl := ref.ListV()
			for j := 0; t.More(j, 2, 4); j++ {
				s := t.String(20)
				tier = append(tier, s)
				tl.L = append(tl.L, ref.StrV(s))
			}
			want.AnnounceList = append(want.AnnounceList, tier)
			l.L = append(l.L, tl)
		}
		kv = append(kv, ref.KV{K: "announce-list", V: l})
	}
	var date int64
	hasDate := t.Bool()
	if hasDate {
		date = Pick2(t, []int64{0, 1, -1, 1717651912, 253402300799, 4294967296, -62135596800})
		if t.Bool() {
			date = int64(t.Choice(1 << 40))
		}
		kv = append(kv, ref.KV{K: "creation date", V: ref.IntV(date)})
	}
	for _, s := range []struct {
		k string
		p *string
	}{{"comment", &want.Comment}, {"created by", &want.CreatedBy}, {"encoding", &want.Encoding}} {
		if t.Prob(1, 3) {
			*s.p = t.String(20)
			kv = append(kv, ref.KV{K: s.k, V: ref.StrV(*s.p)})
		}
	}
	kv, _ = unknownKeys(t, kv, "info", "announce", "announce-list", "creation date", "comment", "created by", "encoding")
	if t.Prob(1, 6) {
		c06wrong(t, ikv, kv)
		return
	}
	raw := ref.DictV(kv...).Bytes()
	parsed, _, err := ref.Parse(raw)
	if err != nil {
		t.Bugf("generated metainfo does not parse: %v", err)
	}
	iv := parsed.Get("info")
	infoBytes := raw[iv.St:iv.En]
	t.Notef("%s", short(raw))
	if unk > 0 || len(in.Files) > 1 {
		t.NonTrivial()
	}
	t.LabelIf(unk > 0, "unknown info keys")
	t.LabelIf(len(in.Files) > 0, "multi-file")
	var got metainfo.Metainfo
	earlier := func() *metainfo.Info {
		return &metainfo.Info{SHA1: [20]byte{1, 2}, PieceLength: 77, Pieces: make(metainfo.Pieces, 2), Private: 1, Name: "earlier", Length: 100, MD5Sum: "m", Files: []*metainfo.File{{Length: 3, MD5Sum: "x", Path: []string{"a", "b"}}}}
	}
	reuse := t.Prob(1, 4)
	if reuse {
		t.Label("parsed over an earlier torrent")
		got.Info = earlier()
		if hasDate {
			got.CreationDate = &metainfo.Time{Time: time.Unix(12345, 678)}
		}
	}
	if t.Bool() {
		err = bencode.Unmarshal(append([]byte{}, raw...), &got)
	} else {
		err = bencode.NewDecoder(chunked(t, raw)).Decode(&got)
	}
	if err != nil {
		t.Failf("metainfo refused", "%s: %v", short(raw), err)
	}
	c06compare(t, raw, &got, want, hasDate, date)
	if got.Info.SHA1 != sha1.Sum(infoBytes) {
		t.Failf("wrong info hash", "info hash %x of %s, want %x", got.Info.SHA1, short(infoBytes), sha1.Sum(infoBytes))
	}
	// the info dictionary on its own
	var alone metainfo.Info
	if reuse {
		alone = *earlier()
	}
	if err := bencode.Unmarshal(infoBytes, &alone); err != nil || alone.SHA1 != sha1.Sum(infoBytes) {
		t.Failf("wrong info hash", "info dictionary alone: %x %v, want %x", alone.SHA1, err, sha1.Sum(infoBytes))
	}
}

// c06wrong gives one of the known fields a value that it cannot have.
func c06wrong(t *engine.T, ikv, kv []ref.KV) {
	type slot struct {
		path string
		v    *ref.Val
	}
	var slots []slot
	var walk func(path string, v *ref.Val, known string)
	walk = func(path string, v *ref.Val, known string) {
		slots = append(slots, slot{path, v})
		for i, e := range v.L {
			walk(fmt.Sprintf("%s[%d]", path, i), e, known)
		}
		for _, e := range v.D {
			if strings.Contains(known, ","+e.K+",") {
				walk(path+"."+e.K, e.V, known)
			}
		}
	}
	for _, e := range ikv {
		if strings.Contains(",name,piece length,pieces,private,length,md5sum,files,", ","+e.K+",") {
			walk("info."+e.K, e.V, ",length,path,md5sum,")
		}
	}
	for _, e := range kv {
		if strings.Contains(",announce,announce-list,creation date,comment,created by,encoding,info,", ","+e.K+",") {
			if slots = append(slots, slot{e.K, e.V}); e.K == "announce-list" {
				walk(e.K, e.V, "")
			}
		}
	}
	s := slots[t.N(len(slots))]
	old := s.v.K
	wrong := []*ref.Val{ref.IntV(int64(t.N(100))), ref.StrV("x" + t.Ident(5)), ref.ListV(ref.ListV(ref.IntV(1))), ref.DictV(ref.KV{K: "a", V: ref.IntV(1)})}
	i := t.N(len(wrong))
	for wrong[i].K == old {
		i = (i + 1) % len(wrong)
	}
	w := wrong[i]
	if old == ref.Int && t.Bool() {
		w = &ref.Val{K: ref.Int, I: Pick2(t, []string{"9223372036854775808", "-9223372036854775809", "99999999999999999999999"})}
	}
	if s.path == "info.pieces" && t.Bool() {
		w = ref.StrV(s.v.S + strings.Repeat("x", 1+t.N(19)))
	}
	*s.v = *w
	raw := ref.DictV(kv...).Bytes()
	t.NonTrivial()
	t.Label("value of the wrong kind")
	t.Notef("%s is %s: %s", s.path, short(s.v.Bytes()), short(raw))
	var got metainfo.Metainfo
	if err := bencode.Unmarshal(raw, &got); err == nil {
		t.Failf("wrong value accepted", "%s is %s, but no error: %s", s.path, short(s.v.Bytes()), short(raw))
	}
}

func c06compare(t *engine.T, raw []byte, got, want *metainfo.Metainfo, hasDate bool, date int64) {
	bad := func(f string, a, b any) {
		t.Failf("wrong metainfo field", "%s: field %s is %#v, want %#v", short(raw), f, a, b)
	}
	if got.Info == nil {
		bad("info", nil, "set")
	}
	gi, wi := got.Info, want.Info
	for _, c := range []struct {
		f    string
		a, b any
	}{{"announce", got.Announce, want.Announce}, {"comment", got.Comment, want.Comment}, {"created by", got.CreatedBy, want.CreatedBy},
		{"encoding", got.Encoding, want.Encoding}, {"name", gi.Name, wi.Name}, {"piece length", gi.PieceLength, wi.PieceLength},
		{"private", gi.Private, wi.Private}, {"length", gi.Length, wi.Length}, {"md5sum", gi.MD5Sum, wi.MD5Sum},
		{"number of pieces", len(gi.Pieces), len(wi.Pieces)}, {"number of files", len(gi.Files), len(wi.Files)},
		{"announce tiers", len(got.AnnounceList), len(want.AnnounceList)}, {"has date", got.CreationDate != nil, hasDate}} {
		if c.a != c.b {
			bad(c.f, c.a, c.b)
		}
	}
	for i := range wi.Pieces {
		if gi.Pieces[i] != wi.Pieces[i] {
			bad(fmt.Sprintf("piece %d", i), gi.Pieces[i], wi.Pieces[i])
		}
	}
	var sum int64
	for i, f := range wi.Files {
		g := gi.Files[i]
		if g == nil || g.Length != f.Length || g.MD5Sum != f.MD5Sum || strings.Join(g.Path, "\x00/") != strings.Join(f.Path, "\x00/") || len(g.Path) != len(f.Path) {
			bad(fmt.Sprintf("file %d", i), g, f)
		}
		sum += f.Length
	}
	if len(wi.Files) == 0 {
		sum = wi.Length
	}
	if gi.GetLength() != sum {
		bad("total length", gi.GetLength(), sum)
	}
	for i, tier := range want.AnnounceList {
		if fmt.Sprintf("%q", got.AnnounceList[i]) != fmt.Sprintf("%q", tier) {
			bad("announce-list", got.AnnounceList, want.AnnounceList)
		}
	}
	if hasDate && got.CreationDate.Unix() != date {
		bad("creation date", got.CreationDate.Unix(), date)
	}
}

func c07(t *engine.T) {
	if t.Prob(1, 6) {
		// pieces strings of any length
		b := engine.Fill(t.Choice(1<<32), t.N(130))
		raw := ref.StrV(string(b)).Bytes()
		var p metainfo.Pieces
		if t.Prob(1, 4) {
			p = make(metainfo.Pieces, 1+t.N(3), 8)
		}
		err := bencode.Unmarshal(raw, &p)
		t.Notef("pieces string of %d bytes", len(b))
		t.NonTrivial()
		if len(b)%20 != 0 {
			if err == nil {
				t.Failf("ragged pieces accepted", "a pieces string of %d bytes is accepted as %d hashes", len(b), len(p))
			}
			return
		}
		if err != nil || len(p) != len(b)/20 {
			t.Failf("pieces refused", "a pieces string of %d bytes: %d hashes, %v", len(b), len(p), err)
		}
		for i := range p {
			if !bytes.Equal(p[i][:], b[i*20:i*20+20]) {
				t.Failf("wrong piece hash", "hash %d of %d", i, len(p))
			}
		}
		return
	}
	in, _ := genInfo(t, 6)
	m := &metainfo.Metainfo{Info: in, Announce: t.String(30)}
	for i := 0; t.More(i, 1, 4); i++ {
		tier := []string{}
		for j := 0; t.More(j, 2, 4); j++ {
			tier = append(tier, t.String(20))
		}
		m.AnnounceList = append(m.AnnounceList, tier)
	}
	var date int64
	hasDate := t.Bool()
	if hasDate {
		date = int64(t.Choice(1<<35)) - 1<<33
		loc := time.UTC
		if t.Bool() {
			loc = time.FixedZone("x", t.N(20000)-10000)
		}
		m.CreationDate = &metainfo.Time{Time: time.Unix(date, int64(t.N(1000))*1e6).In(loc)}
	}
	if t.Bool() {
		m.Comment, m.CreatedBy, m.Encoding = t.String(20), t.String(20), t.String(10)
	}
	if t.Prob(1, 3) {
		in.SHA1 = hash20(t) // must not leak into the file
	}
	raw, err := bencode.Marshal(m)
	if err != nil {
		t.Failf("metainfo not written", "%v", err)
	}
	t.Notef("%s", short(raw))
	if len(in.Files) > 1 || len(m.AnnounceList) > 1 || len(in.Pieces) > 1 {
		t.NonTrivial()
	}
	v, n, perr := ref.Parse(raw)
	if perr != nil || n != len(raw) {
		t.Failf("metainfo malformed", "%s: %v", short(raw), perr)
	}
	iv := v.Get("info")
	if iv == nil {
		t.Failf("metainfo malformed", "no info in %s", short(raw))
	}
	for _, e := range iv.D {
		if !strings.Contains(",piece length,pieces,private,name,length,md5sum,files,", ","+e.K+",") {
			t.Failf("foreign key in info", "key %q in %s", e.K, short(raw))
		}
	}
	var got metainfo.Metainfo
	if err := bencode.Unmarshal(raw, &got); err != nil {
		t.Failf("own metainfo refused", "%s: %v", short(raw), err)
	}
	c06compare(t, raw, &got, m, hasDate, date)
	if got.Info.SHA1 != sha1.Sum(raw[iv.St:iv.En]) {
		t.Failf("wrong info hash", "info hash %x of %s", got.Info.SHA1, short(raw))
	}
	again, err := bencode.Marshal(&got)
	if err != nil || !bytes.Equal(again, raw) {
		// nil and empty string lists may differ in presence only when empty
		v2, _, e2 := ref.Parse(again)
		if e2 != nil || !v2.Equal(v) && len(in.Pieces) > 0 {
			t.Failf("rewritten metainfo differs", "%s then %s %v", short(raw), short(again), err)
		}
	}
}

// esc writes s escaped at random: everything that needs it and some that does not.
func esc(t *engine.T, s string) (string, bool) {
	var b strings.Builder
	escaped := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		safe := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("-_.~:/@,!", c) >= 0
		switch {
		case c == ' ' && t.Bool():
			b.WriteByte('+')
			escaped = true
		case safe && !t.Prob(1, 10):
			b.WriteByte(c)
		default:
			if t.Bool() {
				fmt.Fprintf(&b, "%%%02X", c)
			} else {
				fmt.Fprintf(&b, "%%%02x", c)
			}
			escaped = true
		}
	}
	return b.String(), escaped
}

func c08(t *engine.T) {
	want := &magnet.Magnet{}
	var parts []string
	anyEsc := false
	add := func(k, v string) {
		e, x := esc(t, v)
		anyEsc = anyEsc || x
		parts = append(parts, k+"="+e)
	}
	if t.Prob(4, 5) {
		want.ExactTopic = Pick2(t, []string{"urn:btih:c12fe1c06bba254a9dc9f519b335aa7c1367a88a", "urn:btih:YNCKHTQCWBTRNJIV4WNAE52SJUQCZO5C", "urn:sha1:x"})
		if t.Prob(1, 4) {
			want.ExactTopic = t.String(30)
		}
		add("xt", want.ExactTopic)
	}
	if t.Prob(2, 3) {
		want.Name = t.String(30)
		add("dn", want.Name)
	}
	badLen := false
	if t.Prob(1, 2) {
		if t.Prob(1, 4) {
			s := Pick2(t, []string{"abc", "1.5", "1e3", "0x10", "12abc", "9223372036854775808", "-", "--1", "1 2", "1,000", "12\x00", "1_000", "99999999999999999999", "٣", "1;2"})
			add("xl", s)
			badLen = true
		} else {
			want.Length = int(posInt64(t))
			add("xl", strings.Repeat("0", t.N(4)/2)+strconv.Itoa(want.Length))
		}
	}
	if t.Prob(1, 3) {
		want.WebSeed = t.String(30)
		add("ws", want.WebSeed)
	}
	for i := 0; t.More(i, 2, 6); i++ {
		s := t.String(30)
		want.Trackers = append(want.Trackers, s)
		add("tr", s)
	}
	for i := 0; t.More(i, 1, 5); i++ {
		s := fmt.Sprintf("%d.%d.%d.%d:%d", t.N(256), t.N(256), t.N(256), t.N(256), t.N(65536))
		if t.Prob(1, 4) {
			s = t.String(20)
		}
		want.Peers = append(want.Peers, s)
		add("x.pe", s)
	}
	for i := 0; t.More(i, 1, 3); i++ {
		add(Pick2(t, []string{"kt", "as", "xs", "mt", "XT", "tr.1", "dn.", "x.p", "so", "x"}), t.String(10))
	}
	// any order, repeated keys staying in order among themselves
	order := t.Perm(len(parts))
	byKey := map[string][]string{}
	var keys []string
	for _, i := range order {
		keys = append(keys, parts[i][:strings.IndexByte(parts[i], '=')])
	}
	for _, p := range parts {
		k := p[:strings.IndexByte(p, '=')]
		byKey[k] = append(byKey[k], p)
	}
	var q []string
	for _, k := range keys {
		q = append(q, byKey[k][0])
		byKey[k] = byKey[k][1:]
	}
	link := "magnet:?" + strings.Join(q, "&")
	t.Notef("%q", link)
	if anyEsc && len(parts) >= 2 {
		t.NonTrivial()
	}
	if t.Prob(1, 20) {
		if c := t.N(34); c < 33 {
			i := t.N(len(link) + 1)
			link = link[:i] + string(rune(c%32+127*(c/32))) + link[i:]
		} else {
			link = link[len("magnet"):]
		}
		t.Notef("damaged: %q", link)
		if got, err := magnet.ParseMagnetURL(link); err == nil {
			t.Failf("not a URL, but accepted", "%q parses as %+v", link, got)
		}
		return
	}
	got, err := magnet.ParseMagnetURL(link)
	if badLen {
		if err == nil {
			t.Failf("bad length accepted", "%q parses with length %d", link, got.Length)
		}
		return
	}
	if err != nil {
		t.Failf("magnet refused", "%q: %v", link, err)
	}
	norm := func(m *magnet.Magnet) string {
		return fmt.Sprintf("xt=%q dn=%q xl=%d tr=%q ws=%q pe=%q", m.ExactTopic, m.Name, m.Length, append([]string{}, m.Trackers...), m.WebSeed, append([]string{}, m.Peers...))
	}
	if norm(got) != norm(want) {
		t.Failf("wrong magnet", "%q parses as %s, want %s", link, norm(got), norm(want))
	}
}

// parseQuery is the harness's own application/x-www-form-urlencoded reader.
func parseQuery(q string) (map[string][]string, error) {
	m := map[string][]string{}
	if q == "" {
		return m, nil
	}
	for _, p := range strings.Split(q, "&") {
		k, v, ok := strings.Cut(p, "=")
		if !ok {
			return nil, fmt.Errorf("no = in %q", p)
		}
		ks, err := unesc(k)
		if err != nil {
			return nil, err
		}
		vs, err := unesc(v)
		if err != nil {
			return nil, err
		}
		m[ks] = append(m[ks], vs)
	}
	return m, nil
}

func unesc(s string) (string, error) {
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '+':
			b = append(b, ' ')
		case c == '%':
			if i+2 >= len(s) {
				return "", fmt.Errorf("bad escape in %q", s)
			}
			n, err := strconv.ParseUint(s[i+1:i+3], 16, 8)
			if err != nil {
				return "", err
			}
			b = append(b, byte(n))
			i += 2
		case c > 0x20 && c < 0x7f && strings.IndexByte("\"#<>[]^`{|}\\", c) < 0:
			b = append(b, c)
		default:
			return "", fmt.Errorf("byte %#x may not stand in a query: %q", c, s)
		}
	}
	return string(b), nil
}

func genRequest(t *engine.T) *tracker.Request {
	r := &tracker.Request{
		InfoHash: hash20(t), PeerID: hash20(t),
		Port: t.N(65536), Uploaded: posInt64(t), Downloaded: posInt64(t), Left: posInt64(t),
		Event: Pick2(t, []string{"", "started", "stopped", "completed"}), Compact: t.Bool(),
	}
	if t.Prob(1, 2) {
		r.IP = Pick2(t, []string{"1.2.3.4", "::1", "2001:db8::7", "255.255.255.255", "host.example", "fe80::1%eth0", "a b&c=d"})
	}
	if t.Prob(1, 8) { // what they mean is for the tracker to judge
		r.Event, r.IP = t.String(12), t.String(12)
	}
	return r
}

func c09(t *engine.T) {
	r := genRequest(t)
	q := r.Encode()
	t.Notef("%s", q)
	if strings.Contains(q, "%") {
		t.NonTrivial()
	}
	if t.Prob(2, 3) {
		m, err := parseQuery(q)
		if err != nil {
			t.Failf("not a valid query", "%q: %v", q, err)
		}
		want := map[string]string{"info_hash": string(r.InfoHash[:]), "peer_id": string(r.PeerID[:]), "port": strconv.Itoa(r.Port),
			"uploaded": strconv.FormatInt(r.Uploaded, 10), "downloaded": strconv.FormatInt(r.Downloaded, 10), "left": strconv.FormatInt(r.Left, 10), "compact": "0"}
		if r.Compact {
			want["compact"] = "1"
		}
		if r.IP != "" {
			want["ip"] = r.IP
		}
		if r.Event != "" {
			want["event"] = r.Event
		}
		for k, v := range want {
			if len(m[k]) != 1 || m[k][0] != v {
				t.Failf("wrong query parameter", "%s is %q in %q, want %q", k, m[k], q, v)
			}
		}
		for _, k := range []string{"ip", "event"} {
			if want[k] == "" && len(m[k]) > 0 && m[k][0] != "" {
				t.Failf("wrong query parameter", "%s is %q in %q, want none", k, m[k], q)
			}
		}
		for _, k := range []string{"numwant", "key", "trackerid", "no_peer_id"} {
			for _, v := range m[k] {
				if v != "" {
					t.Failf("wrong query parameter", "%s is %q in %q", k, v, q)
				}
			}
		}
		got := &tracker.Request{}
		if err := got.Decode(q); err != nil {
			t.Failf("own request refused", "%q: %v", q, err)
		}
		if *got != *r {
			t.Failf("request changed", "%q decodes to %+v, want %+v", q, got, r)
		}
		return
	}
	// odd numbers: refused, or taken as they are
	if t.Prob(1, 8) {
		k := Pick2(t, []string{"port", "uploaded", "downloaded", "left"})
		v := Pick2(t, []string{"65536", "-1", "4294967297", "-4294967296", "2147483648", "65616", "-9223372036854775808", "9223372036854775807", "007", "+5", "-0", "000"})
		odd := replaceParam(q, k, escAll(v))
		n, _ := strconv.ParseInt(v, 10, 64)
		want := *r
		switch k {
		case "port":
			want.Port = int(n)
		case "uploaded":
			want.Uploaded = n
		case "downloaded":
			want.Downloaded = n
		case "left":
			want.Left = n
		}
		t.Label("odd number")
		t.NonTrivial()
		got := &tracker.Request{}
		if err := got.Decode(odd); err == nil && *got != want {
			t.Failf("number changed", "%q decodes to %+v, want %+v or an error", odd, got, want)
		}
		return
	}
	// damage one value
	kind := t.N(4)
	var bad string
	switch kind {
	case 0, 1:
		k := Pick2(t, []string{"port", "uploaded", "downloaded", "left"})
		v := Pick2(t, []string{"abc", "1.5", "9223372036854775808", "-9223372036854775809", "0x10", "1e3", "--1", "1 2", "12a", "１", "99999999999999999999999", "NaN", "1,5", "1_000"})
		bad = replaceParam(q, k, escAll(v))
	case 2:
		k := Pick2(t, []string{"info_hash", "peer_id"})
		n := t.N(40)
		if n == 20 || n == 0 {
			n = 19
		}
		bad = replaceParam(q, k, escAll(string(engine.Fill(t.Choice(1<<32), n))))
	case 3:
		bad = q + Pick2(t, []string{"&x=%zz", "&%", "&a=b;c=d", "&x=%1", "&event=%g0"})
	}
	t.NonTrivial()
	t.Label([]string{"bad number", "bad number", "hash or id of a wrong length", "unparsable query"}[kind])
	t.Notef("damaged: %s", bad)
	got := &tracker.Request{}
	if err := got.Decode(bad); err == nil {
		t.Failf("malformed request accepted", "%q decodes to %+v", bad, got)
	}
}

func escAll(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		fmt.Fprintf(&b, "%%%02X", s[i])
	}
	return b.String()
}

func replaceParam(q, k, v string) string {
	ps := strings.Split(q, "&")
	for i, p := range ps {
		if strings.HasPrefix(p, k+"=") {
			ps[i] = k + "=" + v
		}
	}
	return strings.Join(ps, "&")
}

func genPeers(t *engine.T) []*tracker.Peer {
	var l []*tracker.Peer
	if t.Prob(1, 60) { // as many as large trackers give, and more
		n := t.Range(60, 2000)
		if t.Prob(1, 40) {
			n = t.Range(10000, 12000)
		}
		b := engine.Fill(t.Choice(1<<32), 26*n)
		for ; len(b) > 0; b = b[26:] {
			l = append(l, &tracker.Peer{ID: string(b[:20]), IP: fmt.Sprintf("%d.%d.%d.%d", b[20], b[21], b[22], b[23]), Port: int(b[24])<<8 | int(b[25])})
		}
		t.Label("long list of peers")
		return l
	}
	for i := 0; t.More(i, 4, 60); i++ {
		h := hash20(t)
		p := &tracker.Peer{ID: string(h[:]), Port: t.N(65536)}
		p.IP = fmt.Sprintf("%d.%d.%d.%d", t.N(256), t.N(256), t.N(256), t.N(256))
		l = append(l, p)
	}
	return l
}

func c10(t *engine.T) {
	res := &tracker.Response{Interval: int(smallInt(t))}
	if t.Prob(1, 4) {
		res.FailureReason = t.String(40)
	}
	if t.Prob(1, 4) {
		res.WarningReason = t.String(40)
	}
	if t.Prob(1, 4) {
		res.MinInterval, res.TrackerID, res.Complete, res.Incomplete = int(smallInt(t)), t.String(20), int(posInt64(t)), int(posInt64(t))
	}
	switch t.Weighted(4, 2, 4) {
	case 0, 1: // a well-formed response, as the tracker writes it
		compact := t.Bool()
		list := genPeers(t)
		if t.Prob(1, 3) && len(list) == 0 {
			list = []*tracker.Peer{}
		}
		res.Peers = &tracker.Peers{Compact: compact, List: list}
		odd := ""
		if len(list) > 0 && t.Prob(1, 4) {
			p := list[t.N(len(list))]
			switch t.N(3) {
			case 0:
				p.IP = Pick2(t, []string{"::1", "2001:db8::1", "", "host.example", "1.2.3", "1.2.3.4.5", "256.1.1.1", "1.2.3.4:5"})
				odd = "address"
			case 1:
				p.Port = Pick2(t, []int{-1, 65536, 70000, 1 << 20, -65535, 131072 + 80})
				odd = "port"
			case 2:
				p.IP = "::ffff:" + p.IP
			}
		}
		if t.Prob(1, 12) {
			res.Peers = nil
		}
		raw, err := bencode.Marshal(res)
		t.Notef("compact=%v odd=%q %s", compact, odd, short(raw))
		if len(list) > 0 {
			t.NonTrivial()
		}
		if res.Peers != nil && compact && odd != "" {
			t.Label("compact form must refuse")
			if err == nil {
				t.Failf("inexpressible peer encoded", "compact response with an odd %s (%+v) encodes as %s", odd, *list[0], short(raw))
			}
			return
		}
		if err != nil {
			t.Failf("response not encoded", "%+v: %v", res, err)
		}
		v, n, perr := ref.Parse(raw)
		if perr != nil || n != len(raw) {
			t.Failf("response malformed", "%s: %v", short(raw), perr)
		}
		pv := v.Get("peers")
		if res.Peers != nil {
			if pv == nil {
				t.Failf("response malformed", "no peers in %s", short(raw))
			}
			if compact {
				if pv.K != ref.Str || len(pv.S) != 6*len(list) {
					t.Failf("wrong compact form", "%s", short(raw))
				}
				for i, p := range list {
					ip := net.ParseIP(p.IP).To4()
					w := string([]byte{ip[0], ip[1], ip[2], ip[3], byte(p.Port >> 8), byte(p.Port)})
					if pv.S[i*6:i*6+6] != w {
						t.Failf("wrong compact form", "peer %d (%s %d) is %x", i, p.IP, p.Port, pv.S[i*6:i*6+6])
					}
				}
			} else if pv.K != ref.List || len(pv.L) != len(list) {
				t.Failf("wrong dictionary form", "%s", short(raw))
			}
		}
		var got tracker.Response
		if res.Peers != nil && t.Prob(1, 4) {
			got.Peers = &tracker.Peers{Compact: t.Bool(), List: []*tracker.Peer{{ID: "an earlier peer", IP: "9.9.9.9", Port: 9}}}
			t.Label("decoded over an earlier response")
		}
		if err := bencode.Unmarshal(raw, &got); err != nil {
			t.Failf("own response refused", "%s: %v", short(raw), err)
		}
		if got.FailureReason != res.FailureReason || got.Interval != res.Interval || got.WarningReason != res.WarningReason ||
			got.MinInterval != res.MinInterval || got.TrackerID != res.TrackerID || got.Complete != res.Complete || got.Incomplete != res.Incomplete {
			t.Failf("response changed", "%s decodes to %+v, want %+v", short(raw), got, res)
		}
		if (got.Peers != nil) != (res.Peers != nil) {
			t.Failf("response changed", "%s: peers %v, want %v", short(raw), got.Peers, res.Peers)
		}
		if res.Peers == nil {
			return
		}
		if len(got.Peers.List) != len(list) || got.Peers.Compact != compact {
			t.Failf("response changed", "%s: %d peers (compact %v), want %d", short(raw), len(got.Peers.List), got.Peers.Compact, len(list))
		}
		for i, p := range list {
			g := got.Peers.List[i]
			ok := g.Port == p.Port
			if compact {
				ok = ok && net.ParseIP(g.IP).Equal(net.ParseIP(p.IP))
			} else {
				ok = ok && g.IP == p.IP && g.ID == p.ID
			}
			if !ok {
				t.Failf("response changed", "peer %d is %+v, want %+v", i, *g, *p)
			}
		}
	case 2: // whatever a tracker may send
		var pv *ref.Val
		malformed := true
		good := func() *ref.Val {
			return ref.DictV(ref.KV{K: "ip", V: ref.StrV("1.2.3.4")}, ref.KV{K: "peer id", V: ref.StrV("-XX0000-000000000000")}, ref.KV{K: "port", V: ref.IntV(6881)})
		}
		kind := t.N(7)
		var want []*tracker.Peer
		switch kind {
		case 6: // good peers, with and without ids, with keys of no meaning
			malformed = false
			pv = ref.ListV()
			for i := t.N(4); i >= 0; i-- {
				p := &tracker.Peer{ID: string(engine.Fill(t.Choice(1<<32), t.N(24))), IP: Pick2(t, []string{"1.2.3.4", "::1", "host.example", "255.255.255.255"}), Port: t.N(65536)}
				kv := []ref.KV{{K: "ip", V: ref.StrV(p.IP)}, {K: "peer id", V: ref.StrV(p.ID)}, {K: "port", V: ref.IntV(int64(p.Port))}}
				if t.Prob(1, 2) {
					p.ID = ""
					kv = append(kv[:1:1], kv[2])
					t.Label("dictionary peer without an id")
				}
				kv, _ = unknownKeys(t, kv, "ip", "peer id", "port")
				for i := range kv {
					if _, ok := ref.Generic(kv[i].V); !ok { // a number beyond the signed range
						kv[i].V = ref.StrV("x")
					}
				}
				d := ref.DictV(kv...)
				pv.L = append(pv.L, d)
				want = append(want, p)
			}
		case 0:
			n := t.N(40)
			pv = ref.StrV(string(engine.Fill(t.Choice(1<<32), n)))
			malformed = n%6 != 0
		case 1:
			pv = ref.IntV(t.Int64())
		case 2:
			pv = genVal(t, 3)
			if pv.K == ref.Str && len(pv.S)%6 == 0 || pv.K == ref.List && len(pv.L) == 0 {
				malformed = false
			}
		case 3, 4: // a list with one damaged peer
			pv = ref.ListV()
			for i := t.N(3); i > 0; i-- {
				pv.L = append(pv.L, good())
			}
			d := good()
			i := t.N(3)
			if kind == 3 {
				if i == 1 {
					i = 0 // a missing peer id is a choice some trackers make
				}
				d.D = append(d.D[:i:i], d.D[i+1:]...)
			} else {
				nv := genVal(t, 2)
				for nv.K == d.D[i].V.K {
					if nv.K == ref.Str {
						nv = ref.IntV(4)
					} else {
						nv = ref.ListV(nv)
					}
				}
				d.D[i].V = nv
			}
			if t.Prob(1, 3) {
				d, _ = ref.Val2(d, unk(t))
			}
			pv.L = append(pv.L, d)
			for i := t.N(3); i > 0; i-- {
				pv.L = append(pv.L, good())
			}
		case 5: // a list with something that is no peer at all
			pv = ref.ListV(good())
			x := genVal(t, 2)
			if x.K == ref.Dict {
				x = ref.IntV(3)
			}
			pv.L = append(pv.L, x)
			if t.Bool() {
				pv.L[0], pv.L[1] = pv.L[1], pv.L[0]
			}
		}
		kv := []ref.KV{{K: "interval", V: ref.IntV(int64(t.N(1000)))}, {K: "peers", V: pv}}
		kv, _ = unknownKeys(t, kv, "interval", "peers", "failure reason", "warning reason", "min interval", "tracker id", "complete", "incomplete")
		raw := ref.DictV(kv...).Bytes()
		t.Notef("malformed=%v %s", malformed, short(raw))
		t.NonTrivial()
		t.LabelIf(malformed, "malformed peers")
		var got tracker.Response
		err := bencode.Unmarshal(raw, &got)
		if malformed && err == nil {
			t.Failf("malformed peers accepted", "%s decodes to %d peers", short(raw), len(got.Peers.List))
		}
		if !malformed && err != nil {
			t.Failf("well-formed peers refused", "%s: %v", short(raw), err)
		}
		for i, p := range want {
			if len(got.Peers.List) != len(want) {
				t.Failf("peers changed", "%s decodes to %d peers, want %d", short(raw), len(got.Peers.List), len(want))
			}
			if g := got.Peers.List[i]; *g != *p {
				t.Failf("peers changed", "peer %d of %s is %+v, want %+v", i, short(raw), *g, *p)
			}
		}
	}
}

func unk(t *engine.T) ref.KV { return ref.KV{K: "zz", V: genVal(t, 1)} }

var _ = sort.Ints
var _ = reflect.DeepEqual
