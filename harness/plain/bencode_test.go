package plain

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"runtime"
	"runtime/metrics"
	"strings"
	"testing/iotest"

	"dripverif/engine"
	"dripverif/ref"

	"github.com/browles/drip/bencode"
)

func short(b []byte) string {
	if len(b) > 300 {
		return fmt.Sprintf("%q...(%d bytes)", b[:300], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func genTyped(t *engine.T) reflect.Value {
	var ty reflect.Type
	if t.Prob(1, 4) {
		ty = catalogue[t.N(len(catalogue))]
	} else {
		ty = genType(t, 3)
	}
	v := reflect.New(ty).Elem()
	fill(t, v, 4)
	return v
}

// top gives the value as a caller would pass it.
func top(t *engine.T, v reflect.Value) any {
	if t.Bool() {
		return v.Addr().Interface()
	}
	return v.Interface()
}

func init() {
	engine.Register(&engine.Prop{
		ID:    "C01",
		Rule:  "a random Go type (structs with tags, embedding, omitempty; maps, slices, arrays, pointers, interfaces, custom marshalers) with a random value; non-trivial: encoding of at least 12 bytes containing a container",
		Quick: 500000, Thorough: 12000000,
		Run:   c01,
		Fixed: []engine.FixedCase{{Name: "structs", Run: c01structs}, {Name: "wide values", Run: c02wide}},
	})
	engine.Register(&engine.Prop{
		ID:    "C02",
		Rule:  "random typed values, string maps with arbitrary key sets, values holding an unsupported type, failing marshaler or cycle; non-trivial: a dictionary of at least two keys, or an error case",
		Quick: 500000, Thorough: 12000000,
		Run:   c02,
		Fixed: []engine.FixedCase{{Name: "wide values", Run: c02wide}},
	})
	engine.Register(&engine.Prop{
		ID:    "C03",
		Rule:  "well-formed values and mutated ones, alone or concatenated on a stream split at random points, decoded generically; non-trivial: a container, a mutation, or more than one value on the stream",
		Quick: 1000000, Thorough: 20000000,
		Run:   c03,
		Fixed: []engine.FixedCase{{Name: "nesting", Run: c03nesting}},
	})
	engine.Register(&engine.Prop{
		ID:    "C04",
		Rule:  "mutated and hostile byte strings (huge lengths, deep nesting, truncation, garbage) decoded into random destination types; allocation measured; non-trivial: input of at least 3 bytes with a container or string prefix",
		Quick: 1000000, Thorough: 20000000,
		Run:   c04,
		Fixed: []engine.FixedCase{{Name: "deep nesting", Run: c04deep}},
	})
	engine.Register(&engine.Prop{
		ID:    "C05",
		Rule:  "a random struct type, possibly holding earlier values, and a dictionary of matching, mistyped, overflowing and unknown keys, compared with a model decoder; non-trivial: at least two keys present, one of them known",
		Quick: 800000, Thorough: 15000000,
		Run:   c05,
		Fixed: []engine.FixedCase{{Name: "structs", Run: c01structs}},
	})
}

func c01(t *engine.T) {
	v := genTyped(t)
	want, ok := tree(v)
	if !ok {
		t.Discard("nil at the top")
	}
	if want.Depth() > 60 {
		t.Discard("deep")
	}
	arg := top(t, v)
	enc, err := bencode.Marshal(arg)
	t.Notef("%s %s", v.Type(), short(enc))
	if err != nil {
		t.Failf("encode error", "Marshal(%s %+v): %v", v.Type(), v.Interface(), err)
	}
	if len(enc) >= 12 && (want.K == ref.List || want.K == ref.Dict) {
		t.NonTrivial()
	}
	wb := want.Bytes()
	wv, _, _ := ref.Parse(wb)
	model := reflect.New(v.Type())
	if err := into(wv, wb, model.Elem()); err != nil {
		t.Discard("an interface holds an integer beyond the signed range")
	}
	got := reflect.New(v.Type())
	if t.Prob(1, 3) {
		dec := bencode.NewDecoder(bytes.NewReader(enc))
		err = dec.Decode(got.Interface())
	} else {
		err = bencode.Unmarshal(enc, got.Interface())
	}
	if err != nil {
		t.Failf("own encoding refused", "%s: Unmarshal(%s): %v", v.Type(), short(enc), err)
	}
	if !reflect.DeepEqual(got.Elem().Interface(), model.Elem().Interface()) {
		t.Failf("value changed", "%s: encoded as %s, decoded as %#v, want %#v", v.Type(), short(enc), got.Elem().Interface(), model.Elem().Interface())
	}
	if !isNil(v) && !lossy(v) {
		t.Label("compared directly")
		if !reflect.DeepEqual(got.Elem().Interface(), v.Interface()) {
			t.Failf("value changed", "%s: encoded as %s, decoded as %#v, was %#v", v.Type(), short(enc), got.Elem().Interface(), v.Interface())
		}
	}
	again, err := bencode.Marshal(got.Interface())
	// Same bytes, unless an omitempty container held only nil entries and is now empty.
	wantAgain := enc
	if w, ok := tree(got.Elem()); ok && lossy(v) {
		wantAgain = w.Bytes()
	}
	if err != nil || !bytes.Equal(again, wantAgain) {
		t.Failf("re-encoding differs", "%s: first %s, again %s, %v", v.Type(), short(enc), short(again), err)
	}
}

type failer struct{}

func (failer) MarshalBencoding() ([]byte, error) { return nil, errors.New("refused") }

type loop struct {
	N int   `bencode:"n"`
	P *loop `bencode:"p"`
}

func c02(t *engine.T) {
	switch t.Weighted(6, 2, 2) {
	case 0:
		v := genTyped(t)
		want, ok := tree(v)
		if !ok {
			t.Discard("nil at the top")
		}
		c02check(t, top(t, v), want)
	case 1:
		m := map[string]any{}
		for n := 0; t.More(n, 12, 60); n++ {
			k := genKey(t)
			if t.Bool() {
				k = t.String(20)
			}
			m[k] = t.N(100)
		}
		want, _ := tree(reflect.ValueOf(m))
		for i := 0; i < 3; i++ {
			c02check(t, m, want)
		}
	case 2:
		// something that cannot be encoded, buried at a random place
		var bad any
		kind := t.N(9)
		switch kind {
		case 7:
			s := selfSlice{nil, nil}
			s[1] = s
			if t.Bool() {
				s[1] = selfSlice{nil, s}
			}
			bad = s
		case 8:
			m := selfMap{"a": nil}
			m["b"] = m
			if t.Bool() {
				m["b"] = selfMap{"c": m}
			}
			bad = m
		case 0:
			bad = []any{true, 1.5, complex(1, 2), make(chan int), func() {}, map[int]int{1: 1}, struct{ B bool }{}}[t.N(7)]
		case 1:
			bad = failer{}
		case 2:
			bad = &failer{}
		case 3:
			l := &loop{N: 1}
			p := l
			for i := t.N(4); i > 0; i-- {
				p.P = &loop{N: i}
				p = p.P
			}
			p.P = l
			bad = l
		case 4:
			m := map[string]any{}
			m["m"] = m
			bad = m
		case 5:
			s := make([]any, 1)
			s[0] = s
			bad = s
		case 6:
			var x any
			x = &x
			bad = x
		}
		for i := t.N(5); i > 0; i-- {
			switch t.N(4) {
			case 0:
				bad = []any{1, bad, "x"}
			case 1:
				bad = map[string]any{"a": 1, "k": bad}
			case 2:
				bad = struct {
					A int
					X any `bencode:"x,omitempty"`
				}{1, bad}
			case 3:
				b := bad
				bad = &b
			}
		}
		t.NonTrivial()
		t.Label([]string{"unsupported", "failing marshaler", "failing marshaler", "cycle", "cycle", "cycle", "cycle", "cycle", "cycle"}[kind])
		t.Notef("value with %s", []string{"an unsupported type", "a failing marshaler", "a failing marshaler pointer", "a struct cycle", "a map cycle", "a slice cycle", "a pointer cycle", "a cycle of nothing but slices", "a cycle of nothing but maps"}[kind])
		out, err := bencode.Marshal(bad)
		if err == nil {
			t.Failf("bad value encoded", "a value containing %s encodes to %s without error", reflect.TypeOf(bad), short(out))
		}
		// the encoder is usable afterwards
		var b bytes.Buffer
		e := bencode.NewEncoder(&b)
		e.Encode(bad)
		b.Reset()
		if err := e.Encode([]any{1, "a"}); err != nil || b.String() != "li1e1:ae" {
			t.Failf("encoder unusable after an error", "after a failed Encode: %q %v", b.String(), err)
		}
	}
}

func c02check(t *engine.T, arg any, want *ref.Val) {
	enc, err := bencode.Marshal(arg)
	if err != nil {
		t.Failf("encode error", "Marshal(%T): %v", arg, err)
	}
	t.Notef("%T %s", arg, short(enc))
	if countKeys(want) >= 2 {
		t.NonTrivial()
	}
	if !bytes.Equal(enc, want.Bytes()) {
		_, n, perr := ref.Parse(enc)
		t.Failf("not canonical", "%T encodes to %s, want %s (parses: %d of %d bytes, %v)", arg, short(enc), short(want.Bytes()), n, len(enc), perr)
	}
	var b bytes.Buffer
	if err := bencode.NewEncoder(&b).Encode(arg); err != nil || !bytes.Equal(b.Bytes(), enc) {
		t.Failf("encoder differs", "Encoder gave %s %v, Marshal %s", short(b.Bytes()), err, short(enc))
	}
	// a writer that fails leaves no success
	if t.Prob(1, 3) {
		w := &failWriter{room: t.N(max(1, len(enc)))}
		if t.Prob(1, 4) {
			w.room = len(enc) - 1
		}
		room := w.room
		if err := bencode.NewEncoder(w).Encode(arg); err == nil {
			t.Failf("success although writing failed", "%T: the writer took %d of %d bytes", arg, room, len(enc))
		}
		if once := (&failWriter{room: room, once: true}); t.Bool() {
			if err := bencode.NewEncoder(once).Encode(arg); err == nil {
				t.Failf("success although writing failed", "%T: the writer failed once after %d of %d bytes", arg, room, len(enc))
			}
		}
		if !bytes.HasPrefix(enc, w.got) {
			t.Failf("encoder differs", "before the writer failed it was given %s of %s", short(w.got), short(enc))
		}
		t.Label("failing writer")
	}
}

type selfSlice []selfSlice
type selfMap map[string]selfMap

// failWriter has room for so many bytes. If it fails once only, it takes what
// comes after that.
type failWriter struct {
	room int
	got  []byte
	once bool
}

func (w *failWriter) Write(b []byte) (int, error) {
	if len(b) > w.room {
		w.got = append(w.got, b[:w.room]...)
		n := w.room
		w.room = 0
		if w.once {
			w.room = 1 << 40
		}
		return n, errors.New("no room")
	}
	w.room -= len(b)
	w.got = append(w.got, b...)
	return len(b), nil
}

// c02wide: what lies side by side does not add up, and nil is no value.
func c02wide(t *engine.T) {
	if b, err := bencode.Marshal(nil); err == nil && len(b) > 0 {
		t.Failf("bad value encoded", "nil encodes to %s", short(b))
	}
	one := 1
	const n = 5000
	var anys, nested []any
	var ptrs []*int
	var lists [][]any
	m := map[string]any{}
	mp := map[string]*int{}
	var maps []map[string]int
	var anyMaps, emptyLists []any
	var empties []map[string]int
	var structs []struct {
		A *int `bencode:"a"`
	}
	var deep any = 1
	for range 300 {
		deep = []any{deep}
	}
	for i := range n {
		empties = append(empties, map[string]int{})
		emptyLists = append(emptyLists, []any{})
		maps = append(maps, map[string]int{"a": 1})
		anyMaps = append(anyMaps, map[string]any{"a": map[string]*int{"b": &one}})
		structs = append(structs, struct {
			A *int `bencode:"a"`
		}{&one})
		anys = append(anys, 1)
		nested = append(nested, []any{1})
		ptrs = append(ptrs, &one)
		lists = append(lists, []any{&one})
		m[fmt.Sprintf("%06d", i)] = 1
		mp[fmt.Sprintf("%06d", i)] = &one
	}
	var dict strings.Builder
	for i := range n {
		fmt.Fprintf(&dict, "6:%06di1e", i)
	}
	for _, x := range []struct {
		v    any
		want string
	}{
		{anys, "l" + strings.Repeat("i1e", n) + "e"},
		{nested, "l" + strings.Repeat("li1ee", n) + "e"},
		{ptrs, "l" + strings.Repeat("i1e", n) + "e"},
		{lists, "l" + strings.Repeat("li1ee", n) + "e"},
		{m, "d" + dict.String() + "e"},
		{mp, "d" + dict.String() + "e"},
		{maps, "l" + strings.Repeat("d1:ai1ee", n) + "e"},
		{anyMaps, "l" + strings.Repeat("d1:ad1:bi1eee", n) + "e"},
		{structs, "l" + strings.Repeat("d1:ai1ee", n) + "e"},
		{empties, "l" + strings.Repeat("de", n) + "e"},
		{emptyLists, "l" + strings.Repeat("le", n) + "e"},
		{make([]struct{}, n), "l" + strings.Repeat("de", n) + "e"},
		{deep, strings.Repeat("l", 300) + "i1e" + strings.Repeat("e", 300)},
		{&struct {
			A any `bencode:"a"`
		}{&anys}, "d1:al" + strings.Repeat("i1e", n) + "ee"},
	} {
		b, err := bencode.Marshal(x.v)
		if err != nil || string(b) != x.want {
			t.Failf("wide value", "%T with %d entries: %s (%v)", x.v, n, short(b), err)
		}
	}
	// one encoder, value after value
	var out bytes.Buffer
	e := bencode.NewEncoder(&out)
	for range n {
		if err := e.Encode([]any{&one}); err != nil {
			t.Failf("encoder gives up", "%v", err)
		}
	}
	if out.String() != strings.Repeat("li1ee", n) {
		t.Failf("wide value", "%d values with one encoder: %s", n, short(out.Bytes()))
	}
}

func countKeys(v *ref.Val) int {
	n := len(v.D)
	for _, e := range v.D {
		n = max(n, countKeys(e.V))
	}
	for _, e := range v.L {
		n = max(n, countKeys(e))
	}
	return n
}

// mutate damages well-formed input in a way that matters to the grammar.
func mutate(t *engine.T, b []byte) []byte {
	b = append([]byte{}, b...)
	for n := 1 + t.N(2); n > 0; n-- {
		pos := 0
		if len(b) > 0 {
			pos = t.N(len(b))
		}
		switch t.N(12) {
		case 0:
			b = b[:pos]
		case 1:
			if len(b) > 0 {
				b = append(b[:pos:pos], b[pos+1:]...)
			}
		case 2:
			b = append(b[:pos:pos], append([]byte{t.Byte()}, b[pos:]...)...)
		case 3:
			if len(b) > 0 {
				b[pos] = t.Byte()
			}
		case 4: // an odd integer
			s := Pick2(t, []string{"i-0e", "i00e", "i01e", "i-01e", "i+1e", "ie", "i-e", "i--1e", "i1-e", "i 1e", "i1 e", "i1.0e", "i1_0e", "i0x1e",
				"i9223372036854775807e", "i9223372036854775808e", "i-9223372036854775808e", "i-9223372036854775809e", "i18446744073709551615e", "i18446744073709551616e",
				"i99999999999999999999999e", "i1", "i", "i5+e"})
			b = append(b[:pos:pos], append([]byte(s), b[pos:]...)...)
		case 5: // an odd string
			s := Pick2(t, []string{"-1:", "+1:a", "-0:", ":", "a:", "1", "01:a", "00:", "1 :a", "1_0:", "2:a", "99999999999999999999:", "0x1:a", "9223372036854775807:", "1;a", "1e0:a"})
			b = append(b[:pos:pos], append([]byte(s), b[pos:]...)...)
		case 6: // an odd dictionary
			s := Pick2(t, []string{"d1:a1:b1:a1:ce", "d1:b0:1:a0:e", "d1:ae", "di1e1:ae", "d0:0:1:a0:e", "d0:0:0:0:e", "d1:a", "de", "d2:aa0:1:b0:e", "d1:\xff0:1:a0:e", "dle0:e", "d-1:i1ee", "d1:a0:2:aa0:e", "d2:aa0:1:a0:e"})
			b = append(b[:pos:pos], append([]byte(s), b[pos:]...)...)
		case 7: // a list or an end
			s := Pick2(t, []string{"e", "l", "d", "le", "lee", "i1ee", "ll", "de", "l0:", "5:e"})
			b = append(b[:pos:pos], append([]byte(s), b[pos:]...)...)
		case 8: // swap two regions
			if len(b) > 3 {
				q := t.N(len(b))
				b[pos], b[q] = b[q], b[pos]
			}
		case 9: // repeat a region
			q := pos + t.N(8)
			if q > len(b) {
				q = len(b)
			}
			b = append(b[:q:q], b[pos:]...)
		case 10:
			b = t.Bytes(30)
		case 11: // change a digit
			for i := 0; i < len(b); i++ {
				j := (pos + i) % len(b)
				if b[j] >= '0' && b[j] <= '9' {
					b[j] = '0' + byte(t.N(10))
					break
				}
			}
		}
	}
	return b
}

// chunked splits reads of b at random points.
func chunked(t *engine.T, b []byte) io.Reader {
	switch t.N(5) {
	case 0:
		return bytes.NewReader(b)
	case 1:
		return iotest.OneByteReader(bytes.NewReader(b))
	case 2:
		return iotest.DataErrReader(bytes.NewReader(b))
	case 3:
		return bufio.NewReaderSize(iotest.HalfReader(bytes.NewReader(b)), 16)
	default:
		cuts := make([]int, 1+t.N(4))
		for i := range cuts {
			cuts[i] = 1 + t.N(7)
		}
		return &cutReader{b: b, cuts: cuts}
	}
}

type cutReader struct {
	b    []byte
	cuts []int
	i    int
}

func (c *cutReader) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	n := min(len(p), len(c.b), c.cuts[c.i%len(c.cuts)])
	c.i++
	copy(p, c.b[:n])
	c.b = c.b[n:]
	return n, nil
}

func c03(t *engine.T) {
	nvals := 1
	if t.Prob(1, 3) {
		nvals = t.Range(2, 5)
	}
	var in []byte
	mutated := false
	for i := 0; i < nvals; i++ {
		b := genVal(t, 4).Bytes()
		if t.Prob(3, 5) && (nvals == 1 || i == nvals-1) {
			b = mutate(t, b)
			mutated = true
		}
		in = append(in, b...)
	}
	if t.Prob(1, 6) {
		in = append(in, t.Bytes(5)...)
	}
	t.Notef("%s", short(in))
	if mutated || nvals > 1 || strings.ContainsAny(string(in), "ld") {
		t.NonTrivial()
	}
	t.LabelIf(mutated, "mutated")
	// through Unmarshal
	v, n, perr := ref.Parse(in)
	var got any
	err := bencode.Unmarshal(in, &got)
	c03judge(t, in, v, perr, got, err)
	if perr == nil {
		t.Label("well-formed")
	} else {
		t.Label("malformed")
	}
	c03skipped(t, in, n, perr)
	// through a decoder on a stream
	var r io.Reader = chunked(t, in)
	br := bufio.NewReaderSize(r, 16+t.N(64))
	dec := bencode.NewDecoder(br)
	rest := in
	for i := 0; i < 8; i++ {
		v, n, perr = ref.Parse(rest)
		var got any
		err := dec.Decode(&got)
		c03judge(t, rest, v, perr, got, err)
		if err != nil || perr != nil {
			return
		}
		rest = rest[n:]
		if t.Prob(1, 4) {
			// exactly the value's bytes were read: the rest is what remains in the reader
			left, _ := io.ReadAll(br)
			if !bytes.Equal(left, rest) {
				t.Failf("read past the value", "after a value of %d bytes the reader holds %s, want %s", n, short(left), short(rest))
			}
			return
		}
	}
}

// c03skipped: what is kept as it is, or passed over, is judged by the same
// grammar, but for the range of integers.
func c03skipped(t *engine.T, in []byte, n int, perr error) {
	if perr == ref.ErrUnspecified {
		return
	}
	into := []any{new(bencode.RawMessage)}
	if len(in) > 0 && in[0] == 'd' {
		into = append(into, &struct {
			X int `bencode:"no such key"`
		}{7})
	}
	if len(in) > 0 && in[0] == 'l' {
		into = append(into, new([0]string))
	}
	// whatever it is decoded into, what is malformed is an error
	if perr != nil {
		into = append(into, new(uint64), new(int64), new(uint8), new(string), new([]byte), new([]uint64), new([]string), new([2]int), new(map[string]uint64), new(map[string]string), new(map[string]bencode.RawMessage), new(struct{ A int }), new([][]uint16), new(*int32), new([]struct{ B string }))
	}
	for _, v := range into {
		err := bencode.Unmarshal(in, v)
		if perr != nil && err == nil {
			t.Failf("malformed accepted", "%s is not well-formed (%v) but decodes into a %T: %#v", short(in), perr, v, v)
		}
		if perr == nil && err != nil {
			t.Failf("well-formed refused", "%s into a %T: %v", short(in), v, err)
		}
		if raw, ok := v.(*bencode.RawMessage); ok && err == nil && !bytes.Equal(*raw, in[:n]) {
			t.Failf("wrong value", "%s as it is: %q", short(in), *raw)
		}
	}
}

func c03judge(t *engine.T, in []byte, v *ref.Val, perr error, got any, err error) {
	if perr == ref.ErrUnspecified {
		return
	}
	if perr != nil {
		if err == nil {
			t.Failf("malformed accepted", "%s is not well-formed (%v) but decodes to %#v", short(in), perr, got)
		}
		return
	}
	want, ok := ref.Generic(v)
	if !ok {
		if err == nil {
			t.Failf("integer out of range accepted", "%s decodes to %#v", short(in), got)
		}
		return
	}
	if err != nil {
		t.Failf("well-formed refused", "%s: %v", short(in), err)
	}
	if !reflect.DeepEqual(got, want) {
		t.Failf("wrong value", "%s decodes to %#v, want %#v", short(in), got, want)
	}
}

func c03nesting(t *engine.T) {
	// about ten thousand levels, and no more
	type tree struct {
		L []tree          `bencode:"l"`
		D map[string]tree `bencode:"d"`
		T *tree           `bencode:"t"`
	}
	type list []list
	type dict map[string]dict
	for _, x := range []struct {
		open, end string
		levels    int
		into      func() any
	}{
		{"l", "e", 1, func() any { return new(any) }},
		{"d1:a", "e", 1, func() any { return new(any) }},
		{"ld1:k", "ee", 2, func() any { return new(any) }},
		{"l", "e", 1, func() any { return new(bencode.RawMessage) }},
		{"d1:a", "e", 1, func() any { return new(bencode.RawMessage) }},
		{"ld1:k", "ee", 2, func() any { return new(bencode.RawMessage) }},
		{"l", "e", 1, func() any { return new([0]int) }},
		{"d1:a", "e", 1, func() any { return new(struct{ Z int }) }},
		{"l", "e", 1, func() any { return new(list) }},
		{"d1:a", "e", 1, func() any { return new(dict) }},
		{"d1:t", "e", 1, func() any { return new(tree) }},
		{"d1:ll", "ee", 2, func() any { return new(tree) }},
		{"d1:dd1:x", "ee", 2, func() any { return new(tree) }},
	} {
		for _, n := range []int{9000, 9999, 10000, 10001, 10002, 12000} {
			m := (n - 1) / x.levels
			in, n := strings.Repeat(x.open, m)+"de"+strings.Repeat(x.end, m), m*x.levels+1
			if x.open == "l" {
				in = strings.Repeat(x.open, n) + strings.Repeat(x.end, n)
			}
			err := bencode.Unmarshal([]byte(in), x.into())
			if n <= 10000 && err != nil {
				t.Failf("well-formed refused", "%d levels of %s into %T: %v", n, x.open, x.into(), err)
			}
			if n > 10000 && err == nil {
				t.Failf("nested too deep", "%d levels of %s into %T", n, x.open, x.into())
			}
		}
	}
	for _, n := range []int{1, 10, 100, 500} {
		s := strings.Repeat("l", n) + strings.Repeat("e", n)
		var got any
		if err := bencode.Unmarshal([]byte(s), &got); err != nil {
			t.Failf("nested lists refused", "%d nested lists: %v", n, err)
		}
		got = nil
		s = strings.Repeat("d1:a", n) + "i1e" + strings.Repeat("e", n)
		if err := bencode.Unmarshal([]byte(s), &got); err != nil {
			t.Failf("nested dictionaries refused", "%d nested dictionaries: %v", n, err)
		}
		got = nil
		// side by side, nesting does not add up
		s = "l" + strings.Repeat("le", 100*n) + "e"
		if err := bencode.Unmarshal([]byte(s), &got); err != nil {
			t.Failf("wide list refused", "list of %d lists: %v", 100*n, err)
		}
		for _, inner := range []string{"le", "de", "d1:alee", "ldee", "llee"} {
			s = "l" + strings.Repeat(inner, 100*n) + "e"
			var raw bencode.RawMessage
			if err := bencode.Unmarshal([]byte(s), &raw); err != nil || string(raw) != s {
				t.Failf("wide list refused", "list of %d %q: %v", 100*n, inner, err)
			}
			for _, into := range []any{&got, new([0]int), new([]any), new([]bencode.RawMessage), new([3]any)} {
				got = nil
				if err := bencode.Unmarshal([]byte(s), into); err != nil {
					t.Failf("wide list refused", "list of %d %q into a %T: %v", 100*n, inner, into, err)
				}
			}
			var b strings.Builder
			for i := range 100 * n {
				fmt.Fprintf(&b, "6:%06d%s", i, inner)
			}
			s = "d" + b.String() + "e"
			for _, into := range []any{&got, new(struct{ A int }), new(map[string]any), new(map[string]bencode.RawMessage), new(bencode.RawMessage)} {
				got = nil
				if err := bencode.Unmarshal([]byte(s), into); err != nil {
					t.Failf("wide dictionary refused", "dictionary of %d %q into a %T: %v", 100*n, inner, into, err)
				}
			}
		}
		type pair struct {
			A []int
			B map[string]struct{ C [1]int }
		}
		var pairs []pair
		s = "l" + strings.Repeat("d1:Ale1:Bd1:xd1:Cli1eeeee", 100*n) + "e"
		if err := bencode.Unmarshal([]byte(s), &pairs); err != nil || len(pairs) != 100*n {
			t.Failf("wide list refused", "list of %d structs: %v", 100*n, err)
		}
	}
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

// exactly measures what f allocates. The cheap counter above lags behind, by
// what earlier cases took from spans in use.
func exactly(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

type recList []recList
type recMap map[string]recMap
type recPtr struct {
	A *recPtr
	B []recPtr
}

// c04list: many small elements. What they take up is what so many of them
// need, give or take the usual slack of growing.
func c04list(t *engine.T) {
	elem := Pick2(t, []string{"le", "de", "0:", "i0e", "i7e", "2:ab"})
	n := 1 + int(t.Choice(30000))
	in := append([]byte{'l'}, bytes.Repeat([]byte(elem), n)...)
	cut := t.Bool()
	if !cut {
		in = append(in, 'e')
	}
	et := genType(t, 2)
	dst := reflect.New(reflect.SliceOf(et))
	t.Notef("%d times %q into []%s (cut %v)", n, elem, et, cut)
	t.NonTrivial()
	t.Label("long list")
	before := allocated()
	err := bencode.Unmarshal(in, dst.Interface())
	used := allocated() - before
	budget := uint64(1<<19) + uint64(n)*(10*uint64(et.Size())+1536)
	if used > budget {
		used = exactly(func() { bencode.Unmarshal(in, reflect.New(reflect.SliceOf(et)).Interface()) })
	}
	if used > budget {
		t.Failf("allocates out of proportion", "%d bytes allocated for a list of %d times %q into []%s", used, n, elem, et)
	}
	if cut && err == nil {
		t.Failf("truncated list accepted", "%d times %q", n, elem)
	}
}

func c04(t *engine.T) {
	if t.Prob(1, 100) {
		c04list(t)
		return
	}
	var in []byte
	switch t.Weighted(4, 2, 2, 1) {
	case 0:
		in = mutate(t, genVal(t, 4).Bytes())
	case 1: // claims a lot
		n := Pick2(t, []string{"100000000", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "1099511627776", "-1", "-9223372036854775808", "999999999", "50000000"})
		in = []byte(Pick2(t, []string{"", "l", "d1:a", "d3:keyl", "d3:why", "d", "d4:listl", "d3:raw", "ld1:x", "d4:name"}) + n + ":" + Pick2(t, []string{"", "abc", "e", "i1ee"}))
	case 2: // nesting
		in = []byte(strings.Repeat(Pick2(t, []string{"l", "d1:a", "d1:al", "d4:next", "d4:kidsl", "d0:"}), 1+t.N(3000)))
		if t.Bool() {
			in = append(in, genVal(t, 2).Bytes()...)
		}
	case 3:
		in = t.Bytes(200)
	}
	var ty reflect.Type
	switch t.Weighted(3, 2, 1) {
	case 0:
		ty = genType(t, 3)
	case 1:
		ty = catalogue[t.N(len(catalogue))]
	case 2:
		ty = []reflect.Type{anyT, reflect.TypeFor[recList](), reflect.TypeFor[recMap](), reflect.TypeFor[recPtr](), reflect.TypeFor[bencode.RawMessage](), reflect.TypeFor[[]any](), reflect.TypeFor[map[string]any](), reflect.TypeFor[any]()}[t.N(8)]
	}
	dst := reflect.New(ty)
	preset := t.Prob(1, 3)
	if preset {
		fill(t, dst.Elem(), 3)
	}
	t.Notef("%s into %s (preset %v)", short(in), ty, preset)
	if len(in) >= 3 {
		t.NonTrivial()
	}
	before := allocated()
	var err error
	if t.Bool() {
		err = bencode.Unmarshal(in, dst.Interface())
	} else {
		err = bencode.NewDecoder(chunked(t, in)).Decode(dst.Interface())
	}
	used := allocated() - before
	// proportional to the input: a generous constant per byte, and room for one element of every nested type
	budget := uint64(1<<20) + uint64(len(in))*4096
	if preset {
		budget += 4 << 20 // cannot be measured again
	} else if used > budget {
		used = exactly(func() { bencode.Unmarshal(in, reflect.New(ty).Interface()) })
	}
	if used > budget {
		t.Failf("allocates out of proportion", "%d bytes allocated for %d bytes of input %s into %s", used, len(in), short(in), ty)
	}
	t.LabelIf(err == nil, "accepted")
	t.LabelIf(err != nil, "refused")
}

func c04deep(t *engine.T) {
	// Destinations, each with input nested far deeper than any stack can take.
	const n = 4_000_000
	for _, unit := range []string{"l", "d1:a", "d0:"} {
		in := []byte(strings.Repeat(unit, n))
		for _, dst := range []any{new(any), new([]any), new(map[string]any), new(bencode.RawMessage), new(capt), new(struct {
			Z int `bencode:"z"`
		}), new(recList), new(recMap), new(recPtr), new([1]any), new([0]int), new([]bencode.RawMessage)} {
			if err := bencode.Unmarshal(in, dst); err == nil {
				t.Failf("truncated nesting accepted", "%d times %q into %T", n, unit, dst)
			}
		}
	}
}

type inner struct{ A int }

type hiddenEmb struct {
	*inner
	B string
}

type oddFields struct {
	A int
	C chan int
	E error
	F func()
	G float64
	Z string
}

type ifaceFields struct {
	A int
	U bencode.Unmarshaler
	X any
	Z string
}

type (
	ring  *ring
	ring1 struct {
		A int
		R any `bencode:"r"`
	}
)

func c05far(t *engine.T, val *ref.Val, dec func([]byte, any) error) {
	if t.Bool() { // a long way, which ends
		t.Label("destination behind many pointers")
		n := t.Range(1, 200)
		var end any
		p := any(&end)
		for i := range n {
			if i%2 == 0 {
				q := p
				p = &q
			} else {
				q := p.(*any)
				p = &q
			}
		}
		if err := dec(val.Bytes(), p); err != nil {
			t.Failf("own pointers refused", "%d pointers: %v", n, err)
		}
		if b, err := bencode.Marshal(end); err != nil || string(b) != string(val.Bytes()) {
			t.Failf("wrong value", "behind %d pointers: %s, want %s (%v)", n, short(b), short(val.Bytes()), err)
		}
		return
	}
	t.Label("destination that leads back to itself")
	raw := val.Bytes()
	var in []byte
	var dst any
	switch t.N(6) {
	case 0:
		var x any
		x = &x
		in, dst = raw, &x
	case 1:
		var x any
		x = &x
		in, dst = raw, x
	case 2:
		var x, y any
		x, y = &y, &x
		in, dst = raw, &x
	case 3:
		var r ring
		if t.Bool() {
			r = &r
		}
		in, dst = raw, &r
	case 4:
		s := &ring1{}
		s.R = &s.R
		in, dst = ref.DictV(ref.KV{K: "a", V: ref.IntV(1)}, ref.KV{K: "r", V: val}).Bytes(), s
	case 5:
		var x any
		x = &x
		in, dst = ref.ListV(val, val).Bytes(), &[]any{nil, &x}
	}
	if err := dec(in, dst); err == nil {
		t.Failf("impossible destination accepted", "%s into %T that leads back to itself", short(in), dst)
	}
}

// c05dest decodes into destinations that cannot take the value, or hold
// something already.
func c05dest(t *engine.T) {
	val := genVal(t, 3)
	if _, ok := ref.Generic(val); !ok {
		val = ref.IntV(7)
	}
	raw := val.Bytes()
	t.Notef("odd destination for %s", short(raw))
	t.NonTrivial()
	dec := func(in []byte, dst any) error {
		if t.Bool() {
			return bencode.Unmarshal(in, dst)
		}
		return bencode.NewDecoder(chunked(t, in)).Decode(dst)
	}
	switch t.N(6) {
	case 5: // destinations behind many pointers, or that lead back to themselves
		c05far(t, val, dec)
	case 0: // nothing to store in
		t.Label("destination that is no pointer")
		m, sl, a := map[string]any{"k": 1}, []any{1, 2}, any(nil)
		dst := []any{nil, 0, "s", Inner{}, (*int)(nil), (*any)(nil), (**int)(nil), m, sl, a, struct{}{}, (*Inner)(nil), (*capt)(nil), [1]int{}, 1.5, func() {}, (chan int)(nil), uint8(3)}[t.N(18)]
		if err := dec(raw, dst); err == nil {
			t.Failf("impossible destination accepted", "%s into %T", short(raw), dst)
		}
		if len(m) != 1 || m["k"] != 1 || len(sl) != 2 || sl[0] != 1 {
			t.Failf("value changed", "%v %v", m, sl)
		}
	case 1: // a type no bencode can fill
		t.Label("destination of an unsupported type")
		dst := []any{new(chan int), new(func()), new(float64), new(error), new(complex64), new(*chan int), new([]chan int), new(map[string]float32), new([1]error), new(uintptr), new(bencode.Unmarshaler), new([]bencode.Unmarshaler), new(bool), new(complex128), new(float32), new(*bool)}[t.N(16)]
		in := raw
		switch dst.(type) {
		case *[]chan int, *[1]error, *[]bencode.Unmarshaler:
			in = ref.ListV(val).Bytes()
		case *map[string]float32:
			in = ref.DictV(ref.KV{K: "k", V: val}).Bytes()
		}
		if t.Prob(1, 3) { // dictionaries have strings for keys
			k := Pick2(t, []string{"", "0", "1", "k", "true"})
			v := val
			switch t.N(3) {
			case 0:
				v = ref.IntV(3)
			case 1:
				v = ref.StrV("x")
			}
			type odd struct {
				A int                    `bencode:"a"`
				K map[int64]any          `bencode:"k"`
				L []map[*string]struct{} `bencode:"l"`
			}
			dst = []any{new(map[int]any), new(map[int]string), new(map[uint8]int), new(map[bool]int), new(map[any]any), new(map[[2]byte]string), new(map[*string]string), new(map[float64]any), new(map[struct{ A string }]string), &map[int]any{1: 1}, new(*map[int]int), new(map[error]string), new(map[Inner]any), new(map[int]capt)}[t.N(14)]
			in = ref.DictV(ref.KV{K: k, V: v}).Bytes()
			switch t.N(4) {
			case 0:
				dst = &odd{}
				in = ref.DictV(ref.KV{K: "k", V: ref.DictV(ref.KV{K: k, V: v})}).Bytes()
				if t.Bool() {
					in = ref.DictV(ref.KV{K: "l", V: ref.ListV(ref.DictV(ref.KV{K: k, V: v}))}).Bytes()
				}
			case 1:
				dst = &[]any{dst}
				in = ref.ListV(ref.DictV(ref.KV{K: k, V: v})).Bytes()
			}
			t.Label("map with other keys than strings")
		}
		if err := dec(in, dst); err == nil {
			t.Failf("impossible destination accepted", "%s into %T", short(in), dst)
		}
	case 2: // fields of unsupported types beside others
		t.Label("struct with unsupported fields")
		a, z := int(int32(t.Int64())), t.String(10)
		k := Pick2(t, []string{"", "c", "e", "f", "g"})
		kv := []ref.KV{{K: "a", V: ref.IntV(int64(a))}, {K: "z", V: ref.StrV(z)}}
		if k != "" {
			kv = append(kv, ref.KV{K: k, V: val})
		}
		var d oddFields
		err := dec(ref.DictV(kv...).Bytes(), &d)
		if k == "" && (err != nil || d.A != a || d.Z != z || d.C != nil || d.E != nil || d.F != nil || d.G != 0) {
			t.Failf("wrong fields", "A %d Z %q: %+v (%v)", a, z, d, err)
		}
		if k != "" && err == nil {
			t.Failf("impossible destination accepted", "field %s of %T took %s", k, d, short(raw))
		}
	case 3: // interfaces that hold somewhere to store
		t.Label("interfaces holding pointers")
		a, z := int(int32(t.Int64())), t.String(10)
		u, x := &capt{"old"}, &Inner{X: 5, Y: "old"}
		n := int(int16(t.Int64()))
		d := ifaceFields{U: u, X: x}
		err := dec(ref.DictV(ref.KV{K: "a", V: ref.IntV(int64(a))}, ref.KV{K: "u", V: val}, ref.KV{K: "x", V: ref.DictV(ref.KV{K: "x", V: ref.IntV(int64(n))})}, ref.KV{K: "z", V: ref.StrV(z)}).Bytes(), &d)
		if err != nil {
			t.Failf("own interfaces refused", "%v", err)
		}
		if d.A != a || d.Z != z || d.U != bencode.Unmarshaler(u) || u.Raw != string(raw) || d.X != any(x) || x.X != n || x.Y != "old" {
			t.Failf("wrong fields", "%+v: %+v %+v", d, *u, *x)
		}
	case 4: // an embedded pointer that cannot be set from outside its package
		t.Label("embedded pointer to an unexported struct")
		z := t.String(10)
		var d hiddenEmb
		err := dec(ref.DictV(ref.KV{K: "b", V: ref.StrV(z)}).Bytes(), &d)
		if err != nil || d.B != z || d.inner != nil {
			t.Failf("wrong fields", "%+v (%v)", d, err)
		}
		d = hiddenEmb{}
		if err := dec(ref.DictV(ref.KV{K: "a", V: ref.IntV(3)}, ref.KV{K: "b", V: ref.StrV(z)}).Bytes(), &d); err == nil && (d.inner == nil || d.A != 3) {
			t.Failf("value lost", "%+v", d)
		}
		d = hiddenEmb{inner: &inner{A: 1}}
		if err := dec(ref.DictV(ref.KV{K: "a", V: ref.IntV(3)}, ref.KV{K: "b", V: ref.StrV(z)}).Bytes(), &d); err != nil || d.A != 3 || d.B != z {
			t.Failf("wrong fields", "%+v %+v (%v)", d, d.inner, err)
		}
	}
}

func c05(t *engine.T) {
	if t.Prob(1, 20) {
		c05dest(t)
		return
	}
	// a struct destination
	var ty reflect.Type
	if t.Prob(1, 2) {
		ty = catalogue[t.N(len(catalogue))]
	} else {
		ty = genType(t, 2)
		for i := 0; ty.Kind() != reflect.Struct || isCustom(ty); i++ {
			if i > 6 {
				ty = catalogue[t.N(len(catalogue))]
				break
			}
			ty = genType(t, 2)
		}
	}
	fs := fieldsOf(ty)
	var kv []ref.KV
	seen := map[string]bool{}
	known, mist := 0, 0
	for _, f := range fs {
		if t.Prob(1, 4) {
			continue
		}
		ft := ty
		for _, i := range f.path {
			if ft.Kind() == reflect.Pointer {
				ft = ft.Elem()
			}
			ft = ft.Field(i).Type
		}
		var x *ref.Val
		if t.Prob(1, 15) {
			x = genVal(t, 2)
			mist++
		} else if t.Prob(1, 25) {
			x = &ref.Val{K: ref.Int, I: Pick2(t, []string{"128", "-129", "32768", "-32769", "65536", "256", "2147483648", "-2147483649", "4294967296", "9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "-1", "300", "70000", "127", "255", "-128"})}
			mist++
		} else {
			fv := reflect.New(ft).Elem()
			fill(t, fv, 3)
			var ok bool
			x, ok = tree(fv)
			if !ok {
				continue
			}
		}
		seen[f.key] = true
		known++
		kv = append(kv, ref.KV{K: f.key, V: x})
	}
	unknown := 0
	for n := 0; t.More(n, 2, 5); n++ {
		k := genKey(t)
		if seen[k] {
			continue
		}
		isField := false
		for _, f := range fs {
			isField = isField || f.key == k
		}
		if isField {
			continue
		}
		seen[k] = true
		unknown++
		x := genVal(t, 3)
		if t.Prob(1, 8) {
			x = &ref.Val{K: ref.Int, I: Pick2(t, []string{"18446744073709551615", "9223372036854775808", "123456789012345678901234567890", "-99999999999999999999"})}
		}
		kv = append(kv, ref.KV{K: k, V: x})
	}
	val := ref.DictV(kv...)
	raw := val.Bytes()
	val, _, _ = ref.Parse(raw)
	a, b := reflect.New(ty), reflect.New(ty)
	preset := t.Prob(1, 3)
	if preset {
		presetVal(t, a.Elem(), b.Elem(), 3)
	}
	t.Notef("%s into %s (preset %v)", short(raw), ty, preset)
	if known >= 1 && known+unknown >= 2 {
		t.NonTrivial()
	}
	t.LabelIf(unknown > 0, "unknown keys")
	t.LabelIf(preset, "preset destination")
	t.LabelIf(mist > 0, "mistyped")
	want := into(val, raw, b.Elem())
	buf := append([]byte{}, raw...)
	got := bencode.Unmarshal(buf, a.Interface())
	if want != nil {
		t.Label("must fail")
		if got == nil {
			t.Failf("misfit stored", "%s into %s succeeds with %#v", short(raw), ty, a.Elem().Interface())
		}
		return
	}
	if got != nil {
		t.Failf("typed decoding refused", "%s into %s: %v", short(raw), ty, got)
	}
	for i := range buf {
		buf[i] = 'X' // what was decoded does not alias the input
	}
	if !reflect.DeepEqual(a.Elem().Interface(), b.Elem().Interface()) {
		t.Failf("wrong fields", "%s into %s gives %#v, want %#v", short(raw), ty, a.Elem().Interface(), b.Elem().Interface())
	}
}

// presetVal gives both destinations the same earlier contents: scalars,
// scalar lists, maps, and structs of those.
func presetVal(t *engine.T, a, b reflect.Value, depth int) {
	if a.Type() == revT || a.Type() == rawT || a.Type() == captT {
		if a.Type() == revT {
			a.SetString("old")
			b.SetString("old")
		}
		return
	}
	switch a.Kind() {
	case reflect.String:
		a.SetString("old")
		b.SetString("old")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		a.SetInt(77)
		b.SetInt(77)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		a.SetUint(77)
		b.SetUint(77)
	case reflect.Slice, reflect.Array:
		k := a.Type().Elem().Kind()
		if a.Type().Elem().Kind() == reflect.Uint8 && a.Kind() == reflect.Slice {
			a.SetBytes([]byte("old"))
			b.SetBytes([]byte("old"))
			return
		}
		scalar := k == reflect.String || k == reflect.Int || k == reflect.Uint64 || k == reflect.Int8 || k == reflect.Interface
		if !scalar && a.Kind() == reflect.Array {
			return
		}
		n := a.Len()
		if a.Kind() == reflect.Slice {
			n = 0
			if scalar {
				n = t.N(7)
			}
			// what lies beyond the length is no part of the destination
			spare := 0
			if t.Prob(1, 2) {
				spare = t.N(4)
			}
			l := reflect.MakeSlice(a.Type(), n+spare, n+spare)
			for i := n; i < n+spare; i++ {
				presetVal(t, l.Index(i), reflect.New(a.Type().Elem()).Elem(), depth-1)
			}
			a.Set(l.Slice(0, n))
			b.Set(reflect.MakeSlice(a.Type(), n, n))
		}
		for i := 0; i < n; i++ {
			presetVal(t, a.Index(i), b.Index(i), depth-1)
		}
	case reflect.Interface:
		if t.Bool() {
			a.Set(reflect.ValueOf("old"))
			b.Set(reflect.ValueOf("old"))
		} else {
			x, y := new(string), new(string)
			*x, *y = "old", "old"
			if t.Bool() {
				a.Set(reflect.ValueOf(3))
				b.Set(reflect.ValueOf(3))
			} else {
				a.Set(reflect.ValueOf(x))
				b.Set(reflect.ValueOf(y))
			}
		}
	case reflect.Map:
		if a.Type().Elem().Kind() == reflect.Int8 || a.Type().Elem().Kind() == reflect.String {
			a.Set(reflect.MakeMap(a.Type()))
			b.Set(reflect.MakeMap(a.Type()))
			for _, k := range []string{"old", "a"} {
				x := reflect.New(a.Type().Elem()).Elem()
				presetVal(t, x, x, 0)
				kk := reflect.New(a.Type().Key()).Elem()
				kk.SetString(k)
				a.SetMapIndex(kk, x)
				b.SetMapIndex(kk, x)
			}
		}
	case reflect.Struct:
		if depth <= 0 {
			return
		}
		for i := 0; i < a.NumField(); i++ {
			if a.Field(i).CanSet() && t.Prob(2, 3) {
				presetVal(t, a.Field(i), b.Field(i), depth-1)
			}
		}
	case reflect.Pointer:
		if depth > 0 && t.Bool() {
			a.Set(reflect.New(a.Type().Elem()))
			b.Set(reflect.New(a.Type().Elem()))
			presetVal(t, a.Elem(), b.Elem(), depth-1)
		}
	}
}

var _ = math.MaxInt8

type hiddenInt int
type ShownInt int
type ruleIn struct {
	X int    `bencode:"x"`
	Y string `bencode:"y,omitempty"`
}
type ruleUnknown struct {
	A int            `bencode:"a,other"`
	B string         `bencode:"b,other,omitempty"`
	C map[string]int `bencode:"c,omitempty,other"`
	D string         `bencode:",other"`
}
type ruleHidden struct {
	hiddenInt
	A int
}
type ruleShown struct {
	ShownInt
	A int
}
type ruleTagged struct {
	ruleIn `bencode:"-"`
	Ruled  ruleIn `bencode:"in"`
}
type ruleOuter struct {
	ruleIn
	X int `bencode:"x"`
}
type ruleTag struct {
	ruleTagA
	ruleTagB
}
type ruleTagA struct{ Key int }
type ruleTagB struct {
	Other int `bencode:"key"`
}
type ruleTagR struct {
	ruleTagB
	ruleTagA
}

// c01structs: structs that cannot be made at run time.
func c01structs(t *engine.T) {
	for _, x := range []struct {
		v, fresh any
		want     string
	}{
		{&ruleUnknown{}, &ruleUnknown{}, "d1:ai0e1:d0:e"},
		{&ruleUnknown{1, "b", map[string]int{"k": 2}, "d"}, &ruleUnknown{}, "d1:ai1e1:b1:b1:cd1:ki2ee1:d1:de"},
		{&ruleHidden{A: 3}, &ruleHidden{}, "d1:ai3ee"},
		{&ruleShown{5, 3}, &ruleShown{}, "d1:ai3e8:showninti5ee"},
		{&ruleTagged{Ruled: ruleIn{X: 1}}, &ruleTagged{}, "d2:ind1:xi1eee"},
		{&ruleOuter{ruleIn{Y: "y"}, 7}, &ruleOuter{}, "d1:xi7e1:y1:ye"},
		{&ruleTag{ruleTagB: ruleTagB{4}}, &ruleTag{}, "d3:keyi4ee"},
		{&ruleTagR{ruleTagB: ruleTagB{4}}, &ruleTagR{}, "d3:keyi4ee"},
	} {
		b, err := bencode.Marshal(x.v)
		if err != nil || string(b) != x.want {
			t.Failf("wrong fields", "%+v encodes to %s (%v), want %s", x.v, short(b), err, x.want)
		}
		if err := bencode.Unmarshal(b, x.fresh); err != nil || !reflect.DeepEqual(x.fresh, x.v) {
			if m, ok := x.fresh.(*ruleUnknown); ok && err == nil && len(m.C) == 0 && m.A == 0 {
				continue
			}
			t.Failf("round trip", "%s decodes to %+v (%v), want %+v", short(b), x.fresh, err, x.v)
		}
	}
	// a key of the name of what is hidden is unknown
	var h ruleHidden
	if err := bencode.Unmarshal([]byte("d1:ai3e9:hiddeninti4ee"), &h); err != nil || h.A != 3 || h.hiddenInt != 0 {
		t.Failf("hidden field", "%+v %v", h, err)
	}
}
