package plain

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"log/slog"

	"dripverif/engine"

	"github.com/browles/drip/api/peer"
	"github.com/browles/drip/bitfield"
)

func init() {
	engine.Register(&engine.Prop{
		ID:    "C13",
		Rule:  "random sequences of handshakes and messages written to a stream, compared with the BEP 3 layout and read back through random fragmentation, whole and truncated; non-trivial: at least two messages",
		Quick: 400000, Thorough: 8000000, Run: c13,
	})
	engine.Register(&engine.Prop{
		ID:    "C14",
		Rule:  "raw frames with random type, claimed length and payload, damaged handshakes and random bytes, read through random fragmentation with allocation measured; non-trivial: any frame with a payload or claim",
		Quick: 600000, Thorough: 12000000, Run: c14,
	})
	engine.Register(&engine.Prop{
		ID:    "C15",
		Rule:  "random sequences of add, has, items, difference over bitfields of random sizes against a set model; non-trivial: at least two members",
		Quick: 500000, Thorough: 10000000, Run: c15,
	})
}

// msg is the model of a message.
type msg struct {
	typ                  int // -1 keepalive
	index, begin, length uint32
	data                 []byte
}

func (m msg) wire() []byte {
	var body []byte
	u := binary.BigEndian.AppendUint32
	if m.typ >= 0 {
		body = append(body, byte(m.typ))
	}
	switch m.typ {
	case 4:
		body = u(body, m.index)
	case 5:
		body = append(body, m.data...)
	case 6, 8:
		body = u(u(u(body, m.index), m.begin), m.length)
	case 7:
		body = append(u(u(body, m.index), m.begin), m.data...)
	}
	return append(u(nil, uint32(len(body))), body...)
}

func (m msg) build() *peer.Message {
	switch m.typ {
	case -1:
		return peer.Keepalive()
	case 0:
		return peer.Choke()
	case 1:
		return peer.Unchoke()
	case 2:
		return peer.Interested()
	case 3:
		return peer.NotInterested()
	case 4:
		return peer.Have(int(m.index))
	case 5:
		return peer.Bitfield(bitfield.Bitfield(m.data))
	case 6:
		return peer.Request(int(m.index), int(m.begin), int(m.length))
	case 7:
		return peer.Piece(int(m.index), int(m.begin), m.data)
	default:
		return peer.Cancel(int(m.index), int(m.begin), int(m.length))
	}
}

// diff says how got differs from m, or "".
func (m msg) diff(got *peer.Message) string {
	if int(got.Type) != m.typ {
		return fmt.Sprintf("type %d, want %d", int(got.Type), m.typ)
	}
	switch m.typ {
	case 4:
		if got.Index() != int(m.index) {
			return fmt.Sprintf("index %d, want %d", got.Index(), m.index)
		}
	case 5:
		if !bytes.Equal(got.Bitfield(), m.data) {
			return fmt.Sprintf("bitfield %x, want %x", []byte(got.Bitfield()), m.data)
		}
	case 6, 8:
		if got.Index() != int(m.index) || got.Begin() != int(m.begin) || got.Length() != int(m.length) {
			return fmt.Sprintf("%d %d %d, want %d %d %d", got.Index(), got.Begin(), got.Length(), m.index, m.begin, m.length)
		}
	case 7:
		if got.Index() != int(m.index) || got.Begin() != int(m.begin) || !bytes.Equal(got.Piece(), m.data) {
			return fmt.Sprintf("%d %d and %d bytes, want %d %d and %d bytes", got.Index(), got.Begin(), len(got.Piece()), m.index, m.begin, len(m.data))
		}
	}
	return ""
}

func u32(t *engine.T) uint32 {
	if t.Bool() {
		return uint32(t.N(100))
	}
	if t.Bool() {
		return Pick2(t, []uint32{0, 1, 255, 256, 65535, 65536, 1 << 14, 1 << 17, 1<<31 - 1, 1 << 31, 1<<32 - 1})
	}
	return uint32(t.Choice(1 << 32))
}

func genMsg(t *engine.T) msg {
	m := msg{typ: t.N(10) - 1, index: u32(t), begin: u32(t), length: u32(t)}
	if m.typ == 5 || m.typ == 7 {
		n := t.N(64)
		if t.Prob(1, 10) {
			n = t.N(20000)
		} else if t.Prob(1, 60) {
			n = Pick2(t, []int{65526, 65527, 65534, 65535, 65536, 70000, 131072, 200000})
		}
		m.data = engine.Fill(t.Choice(1<<32), n)
	}
	return m
}

// slowReader may also return nothing without an error.
type slowReader struct {
	cutReader
	zero int
}

func (s *slowReader) Read(p []byte) (int, error) {
	s.zero++
	if s.zero%3 == 0 && len(p) > 0 {
		return 0, nil
	}
	return s.cutReader.Read(p)
}

func wireReader(t *engine.T, b []byte) io.Reader {
	if t.Prob(1, 5) {
		return &slowReader{cutReader: cutReader{b: b, cuts: []int{1 + t.N(9), 1 + t.N(100)}}, zero: t.N(3)}
	}
	if t.Prob(1, 3) {
		cuts := make([]int, 1+t.N(4))
		for i := range cuts {
			cuts[i] = 1 + t.N(4000)
		}
		return &cutReader{b: b, cuts: cuts}
	}
	return chunked(t, b)
}

// brokenWriter takes so many bytes and fails.
type brokenWriter struct{ room int }

func (w *brokenWriter) Write(p []byte) (int, error) {
	n := min(len(p), w.room)
	w.room -= n
	if n < len(p) {
		return n, io.ErrClosedPipe
	}
	return n, nil
}

func handshakeWire(h, id [20]byte, reserved [8]byte) []byte {
	b := append([]byte{19}, "BitTorrent protocol"...)
	b = append(b, reserved[:]...)
	b = append(b, h[:]...)
	return append(b, id[:]...)
}

func c13(t *engine.T) {
	var stream bytes.Buffer
	var want []byte
	hs := t.Bool()
	h := &peer.Handshake{InfoHash: hash20(t), PeerID: hash20(t)}
	if hs {
		if err := peer.Write(&stream, h); err != nil {
			t.Failf("handshake not written", "%v", err)
		}
		want = handshakeWire(h.InfoHash, h.PeerID, [8]byte{})
		if t.Prob(1, 6) {
			room := t.N(len(want))
			if err := peer.Write(&brokenWriter{room}, h); err == nil {
				t.Failf("failed write not reported", "handshake: the connection broke after %d bytes", room)
			}
		}
	}
	var ms []msg
	var ends []int
	if hs {
		ends = append(ends, len(want))
	}
	for i := 0; i == 0 || t.More(i, 4, 25); i++ {
		m := genMsg(t)
		ms = append(ms, m)
		if err := peer.Write(&stream, m.build()); err != nil {
			t.Failf("message not written", "type %d: %v", m.typ, err)
		}
		if t.Prob(1, 6) {
			room := t.N(len(m.wire()))
			if err := peer.Write(&brokenWriter{room}, m.build()); err == nil {
				t.Failf("failed write not reported", "%+v: the connection broke after %d bytes", m, room)
			}
		}
		want = append(want, m.wire()...)
		ends = append(ends, len(want))
		if !bytes.Equal(stream.Bytes(), want) {
			t.Failf("wrong layout", "message %+v is written as %x, want %x", m, tail(stream.Bytes(), 40), tail(want, 40))
		}
		if t.Prob(1, 4) {
			b, err := m.build().MarshalBinary()
			if err != nil || !bytes.Equal(b, m.wire()) {
				t.Failf("wrong layout", "MarshalBinary of %+v gives %x %v", m, b, err)
			}
			var g peer.Message
			if err := g.UnmarshalBinary(b); err != nil || m.diff(&g) != "" {
				t.Failf("message changed", "%+v: %s %v", m, m.diff(&g), err)
			}
		}
		if m.typ != 7 && m.typ != 5 {
			t.Notef("type %d %d %d %d", m.typ, m.index, m.begin, m.length)
		} else {
			t.Notef("type %d %d %d +%d bytes", m.typ, m.index, m.begin, len(m.data))
		}
	}
	if len(ms) >= 2 {
		t.NonTrivial()
	}
	if !bytes.Equal(stream.Bytes(), want) {
		t.Failf("wrong layout", "stream is %x, want %x", tail(stream.Bytes(), 80), tail(want, 80))
	}
	cut := len(want)
	if t.Prob(1, 2) {
		cut = t.N(len(want) + 1)
		t.Notef("truncated at %d of %d", cut, len(want))
	}
	r := wireReader(t, want[:cut])
	pos := 0
	atEnd := func() bool { return pos < len(ends) && ends[pos] <= cut }
	if hs {
		g, err := peer.ReadHandshake(r)
		if !atEnd() {
			if err == nil {
				t.Failf("truncated handshake accepted", "handshake cut at %d of 68 bytes is read as %+v", cut, g)
			}
			return
		}
		if err != nil {
			t.Failf("handshake refused", "%v", err)
		}
		if *g != *h {
			t.Failf("handshake changed", "%+v, want %+v", g, h)
		}
		pos++
	}
	var got []*peer.Message
	for _, m := range ms {
		g, err := peer.ReadMessage(r)
		if !atEnd() {
			if err == nil {
				t.Failf("truncated message accepted", "message %+v of a stream cut at %d is read as type %d", m, cut, g.Type)
			}
			return
		}
		if err != nil {
			t.Failf("message refused", "%+v: %v", m, err)
		}
		if d := m.diff(g); d != "" {
			t.Failf("message changed", "%+v is read back with %s", m, d)
		}
		got = append(got, g)
		pos++
	}
	// What was read stays what it was while more is read.
	for i, m := range ms {
		if d := m.diff(got[i]); d != "" {
			t.Failf("message changed later", "%+v was read well, and then changed: %s", m, d)
		}
	}
	if left, _ := io.ReadAll(r); len(left) > 0 {
		t.Failf("bytes left over", "%x", left)
	}
	if g, err := peer.ReadMessage(r); err == nil {
		t.Failf("message from nothing", "%+v", g)
	}
}

func tail(b []byte, n int) []byte {
	if len(b) > n {
		return b[len(b)-n:]
	}
	return b
}

type discardHandler struct{}

func (discardHandler) Enabled(context.Context, slog.Level) bool { return true }
func (discardHandler) Handle(_ context.Context, r slog.Record) error {
	r.Attrs(func(a slog.Attr) bool { a.Value.Resolve(); return true })
	return nil
}
func (d discardHandler) WithAttrs([]slog.Attr) slog.Handler { return d }
func (d discardHandler) WithGroup(string) slog.Handler      { return d }

// need is how many payload bytes the fields of a known type take.
var need = map[byte]int{4: 4, 6: 12, 8: 12, 7: 8}

func c14(t *engine.T) {
	if t.Prob(1, 4) {
		c14handshake(t)
		return
	}
	// a stream of raw frames
	var in []byte
	type frame struct {
		typ     byte
		payload []byte
		end     int
		keep    bool
	}
	var frames []frame
	for i := 0; i == 0 || t.More(i, 3, 12); i++ {
		f := frame{}
		if t.Prob(1, 8) {
			f.keep = true
			in = append(in, 0, 0, 0, 0)
		} else {
			f.typ = byte(t.N(10))
			if t.Prob(1, 3) {
				f.typ = byte(t.Choice(256))
			}
			n := t.N(20)
			if t.Prob(1, 10) {
				n = t.N(3000)
			} else if t.Prob(1, 50) {
				n = t.N(200000)
			}
			f.payload = engine.Fill(t.Choice(1<<32), n)
			in = binary.BigEndian.AppendUint32(in, uint32(1+n))
			in = append(append(in, f.typ), f.payload...)
		}
		f.end = len(in)
		frames = append(frames, f)
		t.Notef("frame type %d payload %d", f.typ, len(f.payload))
	}
	switch t.N(4) {
	case 0:
		in = in[:t.N(len(in)+1)]
		t.Notef("cut at %d", len(in))
	case 1:
		claim := Pick2(t, []uint32{1 << 20, 1 << 24, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1<<32 - 2, 50 << 20})
		if t.Bool() { // one whose low bits make sense
			claim = 1<<uint(16+t.N(16)) | uint32(t.N(20))
		}
		in = binary.BigEndian.AppendUint32(in, claim)
		in = append(in, byte(t.N(10)))
		in = append(in, t.Bytes(20)...)
		t.Notef("then a claim of %d bytes", claim)
	case 2:
		in = append(in, t.Bytes(30)...)
	}
	t.NonTrivial()
	r := wireReader(t, in)
	before := allocated()
	for _, f := range frames {
		g, err := peer.ReadMessage(r)
		if f.end > len(in) {
			if err == nil {
				t.Failf("truncated message accepted", "type %d with %d payload bytes, cut", f.typ, len(f.payload))
			}
			break
		}
		if !f.keep && len(f.payload) < need[f.typ] {
			t.Label("payload too short")
			if err == nil {
				t.Failf("short payload accepted", "type %d with %d payload bytes is read as %v", f.typ, len(f.payload), g.Type)
			}
			return
		}
		exact := f.keep || f.typ > 8 || f.typ == 5 || f.typ == 7 || len(f.payload) == need[f.typ]
		if !exact && err != nil {
			return // a payload longer than its fields may be refused
		}
		if err != nil {
			t.Failf("frame refused", "type %d with %d payload bytes: %v", f.typ, len(f.payload), err)
		}
		m := msg{typ: int(f.typ), data: f.payload}
		if f.keep {
			m.typ = -1
		}
		p := f.payload
		if n := need[f.typ]; n > 0 && !f.keep {
			m.index = binary.BigEndian.Uint32(p)
			if n > 4 {
				m.begin = binary.BigEndian.Uint32(p[4:])
			}
			if n > 8 {
				m.length = binary.BigEndian.Uint32(p[8:])
			}
			m.data = p[n:]
		}
		if d := m.diff(g); d != "" {
			t.Failf("message changed", "frame type %d payload %x is read with %s", f.typ, tail(p, 30), d)
		}
		// and can be logged
		slog.New(discardHandler{}).Debug("x", "message", g)
		_ = g.LogValue()
		if g.Type.String() == "" {
			t.Failf("message has no name", "type %d", f.typ)
		}
		if f.typ > 8 {
			t.Label("unknown type")
		}
	}
	rest := in
	if len(frames) > 0 {
		rest = in[min(len(in), frames[len(frames)-1].end):]
	}
	for i := 0; i < 3; i++ { // whatever follows gives a message, if it is one, or an error
		g, err := peer.ReadMessage(r)
		if err != nil {
			break
		}
		if len(frames) > 0 && frames[len(frames)-1].end > len(in) {
			continue // the last frame was cut, and its error left the stream anywhere
		}
		var n int
		if len(rest) >= 4 {
			n = int(binary.BigEndian.Uint32(rest))
		}
		if len(rest) < 4+n {
			t.Failf("message from too few bytes", "%x is read as %v", tail(rest, 40), g.Type)
		}
		if n == 0 && g.Type != peer.KEEPALIVE || n > 0 && int(g.Type) != int(rest[4]) {
			t.Failf("message of the wrong type", "%x is read as %v", tail(rest, 40), g.Type)
		}
		rest = rest[4+n:]
	}
	used := allocated() - before
	budget := uint64(1<<20) + 64*uint64(len(in))
	if used > budget {
		used = exactly(func() {
			r := bytes.NewReader(in)
			for range len(frames) + 3 {
				if _, err := peer.ReadMessage(r); err != nil {
					break
				}
			}
		})
	}
	if used > budget {
		t.Failf("allocates out of proportion", "%d bytes allocated for %d bytes received", used, len(in))
	}
}

func c14handshake(t *engine.T) {
	h, id := hash20(t), hash20(t)
	var res [8]byte
	if t.Bool() {
		copy(res[:], engine.Fill(t.Choice(1<<32), 8))
	}
	b := handshakeWire(h, id, res)
	valid := true
	switch t.N(5) {
	case 0:
	case 1:
		i := t.N(20)
		c := byte(t.Choice(256))
		valid = b[i] == c
		b[i] = c
	case 2:
		b = b[:t.N(68)]
		valid = false
	case 3:
		b = append(b, t.Bytes(20)...)
	case 4:
		b = t.Bytes(100)
		valid = false
	}
	t.Notef("handshake %x", b)
	t.NonTrivial()
	r := wireReader(t, b)
	g, err := peer.ReadHandshake(r)
	if !valid {
		if err == nil && !(len(b) >= 68 && string(b[:20]) == "\x13BitTorrent protocol") {
			t.Failf("bad handshake accepted", "%x", b)
		}
		return
	}
	if err != nil {
		t.Failf("handshake refused", "%x: %v", b, err)
	}
	if g.InfoHash != h || g.PeerID != id {
		t.Failf("handshake changed", "%x is read as %+v", b, g)
	}
	left, _ := io.ReadAll(r)
	if !bytes.Equal(left, b[68:]) {
		t.Failf("handshake reads too much", "left %x of %x", left, b)
	}
}

func c15(t *engine.T) {
	type bf struct {
		n   int
		b   bitfield.Bitfield
		set map[int]bool
	}
	mk := func() *bf {
		n := t.N(40)
		if t.Prob(1, 6) {
			n = t.N(3000)
		}
		return &bf{n, bitfield.New(n), map[int]bool{}}
	}
	a, b := mk(), mk()
	check := func(x *bf, what string) {
		if len(x.b) != (x.n+7)/8 {
			t.Failf("wrong size", "%s: %d pieces take %d bytes", what, x.n, len(x.b))
		}
		wantBytes := make([]byte, (x.n+7)/8)
		for i := range x.set {
			wantBytes[i/8] |= 0x80 >> (i % 8)
		}
		if !bytes.Equal(x.b, wantBytes) {
			t.Failf("wrong bytes", "%s: set %v of %d is %x, want %x", what, keys(x.set), x.n, []byte(x.b), wantBytes)
		}
		for i := -9; i < x.n+20; i++ {
			if x.b.Has(i) != x.set[i] {
				t.Failf("wrong membership", "%s: Has(%d)=%v in %v of %d", what, i, x.b.Has(i), keys(x.set), x.n)
			}
		}
		for _, i := range []int{1 << 20, -1 << 20, 1<<62 + 3, -1 << 63, 1<<63 - 1} {
			if x.b.Has(i) {
				t.Failf("wrong membership", "%s: Has(%d) in a field of %d", what, i, x.n)
			}
		}
		it := x.b.Items()
		want := keys(x.set)
		if len(it) != len(want) {
			t.Failf("wrong items", "%s: %v, want %v", what, it, want)
		}
		for i := range it {
			if it[i] != want[i] {
				t.Failf("wrong items", "%s: %v, want %v", what, it, want)
			}
		}
	}
	for i := 0; t.More(i, 10, 60); i++ {
		x := a
		if t.Bool() {
			x = b
		}
		if x.n == 0 {
			continue
		}
		k := t.N(x.n)
		x.b.Add(k)
		x.set[k] = true
		t.Notef("add %d/%d", k, x.n)
		if !x.b.Has(k) {
			t.Failf("wrong membership", "Has(%d) is false after Add in a field of %d", k, x.n)
		}
	}
	if len(a.set) >= 2 || len(b.set) >= 2 {
		t.NonTrivial()
	}
	check(a, "a")
	check(b, "b")
	d := &bf{a.n, a.b.Difference(b.b), map[int]bool{}}
	for k := range a.set {
		if !b.set[k] {
			d.set[k] = true
		}
	}
	check(d, "a minus b")
	check(a, "a after difference")
	check(b, "b after difference")
	// changing the result changes neither operand
	for i := range d.b {
		d.b[i] ^= 0xff
	}
	check(a, "a after changing the difference")
	check(b, "b after changing the difference")
	if e := a.b.Difference(a.b); len(e.Items()) != 0 || len(e) != len(a.b) {
		t.Failf("wrong items", "a minus a is %v", e.Items())
	}
}

func keys(m map[int]bool) []int {
	var l []int
	for k := range m {
		l = append(l, k)
	}
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	return l
}
