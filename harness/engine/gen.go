// Package engine is a small property-testing engine. A test case is a
// sequence of bounded integer choices; everything a property does is a
// function of that sequence, so a failing case is replayed and shrunk by
// replaying and shrinking the sequence.
package engine

import (
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"strings"
)

// T is the source of choices for one case, and collects what the case did.
type T struct {
	rng    *rand.Rand // nil when replaying
	replay []uint64
	pos    int
	rec    []uint64
	limit  int
	trace  *os.File // every choice is written here as it is made

	nontrivial bool
	labels     map[string]int
	notes      []string
	notesLen   int
}

type failure struct{ sig, msg string }
type discard struct{ why string }
type harnessError struct{ msg string }

func (f failure) String() string      { return "FAIL " + f.sig + ": " + f.msg }
func (h harnessError) String() string { return "HARNESS " + h.msg }

// Failf reports that the property does not hold for this case.
func (t *T) Failf(sig, format string, args ...any) {
	panic(failure{sig, fmt.Sprintf(format, args...)})
}

// Discard drops a case outside the property's domain.
func (t *T) Discard(why string) { panic(discard{why}) }

// Bugf reports a defect of the harness itself.
func (t *T) Bugf(format string, args ...any) { panic(harnessError{fmt.Sprintf(format, args...)}) }

// NonTrivial marks the case as non-trivial by the property's rule.
func (t *T) NonTrivial() { t.nontrivial = true }

func (t *T) Label(l string) { t.labels[l]++ }
func (t *T) LabelIf(c bool, l string) {
	if c {
		t.labels[l]++
	}
}

// Notef adds to the readable description of the case.
func (t *T) Notef(format string, args ...any) {
	if t.notesLen > 6000 {
		return
	}
	s := fmt.Sprintf(format, args...)
	t.notesLen += len(s)
	t.notes = append(t.notes, s)
}

func (t *T) Describe() string { return strings.Join(t.notes, "; ") }

// Choice returns a value in [0,n). Shrinking moves it towards 0.
func (t *T) Choice(n uint64) uint64 {
	if n == 0 {
		t.Bugf("Choice(0)")
	}
	var v uint64
	if t.rng != nil {
		v = t.rng.Uint64N(n)
	} else if t.pos < len(t.replay) {
		v = t.replay[t.pos]
		if v >= n {
			v = n - 1
		}
	}
	t.pos++
	t.rec = append(t.rec, v)
	if t.trace != nil {
		fmt.Fprintf(t.trace, "%d\n", v)
	}
	if len(t.rec) > t.limit {
		panic(discard{"too many choices"})
	}
	return v
}

// u64 is a full-range choice.
func (t *T) u64() uint64 {
	hi := t.Choice(1 << 32)
	lo := t.Choice(1 << 32)
	return hi<<32 | lo
}

func (t *T) N(n int) int { return int(t.Choice(uint64(n))) }

// Range returns lo..hi inclusive.
func (t *T) Range(lo, hi int) int { return lo + t.N(hi-lo+1) }
func (t *T) Bool() bool           { return t.Choice(2) == 1 }

// Prob is true with probability num/den; false is simplest.
func (t *T) Prob(num, den int) bool { return t.N(den) >= den-num }

// More drives loops: on average avg iterations, at most max; the loop ends on 0.
func (t *T) More(count, avg, max int) bool {
	if count >= max {
		return false
	}
	return t.N(avg+1) > 0
}

func Pick[E any](t *T, xs ...E) E { return xs[t.N(len(xs))] }

// Weighted returns an index; index 0 is simplest.
func (t *T) Weighted(w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	v := t.N(sum)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

func (t *T) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + t.N(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Int64 is edge-biased over the full range.
func (t *T) Int64() int64 {
	switch t.Weighted(4, 3, 2, 2) {
	case 0:
		return int64(t.N(21)) - 10
	case 1:
		e := []int64{0, 1, -1, 9, 10, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536,
			math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, math.MaxUint32, math.MaxUint32 + 1,
			math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1}
		return e[t.N(len(e))]
	case 2:
		b := uint(t.N(64))
		return int64(t.u64() >> b)
	default:
		return int64(t.u64())
	}
}

func (t *T) Uint64() uint64 {
	switch t.Weighted(4, 3, 2, 2) {
	case 0:
		return uint64(t.N(12))
	case 1:
		e := []uint64{0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, math.MaxUint32 + 1,
			math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64, math.MaxUint64 - 1}
		return e[t.N(len(e))]
	case 2:
		b := uint(t.N(64))
		return t.u64() >> b
	default:
		return t.u64()
	}
}

// Bytes returns up to max bytes, byte by byte for short ones, filled from a
// derived PRNG when long.
func (t *T) Bytes(max int) []byte {
	if max > 40 && t.Prob(1, 6) {
		return Fill(t.Choice(1<<32), t.N(max+1))
	}
	n := t.N(min(max, 12) + 1)
	b := make([]byte, n)
	for i := range b {
		b[i] = t.Byte()
	}
	return b
}

// Byte is biased towards bytes that matter in text formats.
func (t *T) Byte() byte {
	if t.Prob(1, 3) {
		return byte(t.Choice(256))
	}
	const s = "abcxyz01259:-+eildABZ ._/%&=?#;,\x00\x7f\x80\xff\n\"'<é"
	return s[t.N(len(s))]
}

func (t *T) String(max int) string { return string(t.Bytes(max)) }

// Ident is a short lower-case word.
func (t *T) Ident(max int) string {
	n := 1 + t.N(max)
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte(t.N(26))
	}
	return string(b)
}

// Fill returns n pseudo-random bytes determined by seed.
func Fill(seed uint64, n int) []byte {
	b := make([]byte, n)
	s := seed*0x9E3779B97F4A7C15 + 0x1234567
	i := 0
	for i < n {
		s ^= s << 13
		s ^= s >> 7
		s ^= s << 17
		x := s * 0x2545F4914F6CDD1D
		for k := 0; k < 8 && i < n; k++ {
			b[i] = byte(x >> (8 * k))
			i++
		}
	}
	return b
}
