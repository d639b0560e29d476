// Package ref holds the reference models the checks compare drip against.
// Nothing here uses drip's own code.
package ref

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strconv"
)

type Kind int

const (
	Int Kind = iota
	Str
	List
	Dict
)

// Val is a bencode value.
type Val struct {
	K  Kind
	I  string // minimal decimal
	S  string
	L  []*Val
	D  []KV // as written
	St int  // offsets in the parsed input
	En int
}

type KV struct {
	K string
	V *Val
}

func IntV(i int64) *Val   { return &Val{K: Int, I: strconv.FormatInt(i, 10)} }
func UintV(i uint64) *Val { return &Val{K: Int, I: strconv.FormatUint(i, 10)} }
func StrV(s string) *Val  { return &Val{K: Str, S: s} }
func ListV(l ...*Val) *Val {
	return &Val{K: List, L: l}
}

// DictV sorts its entries.
func DictV(kv ...KV) *Val {
	sort.SliceStable(kv, func(i, j int) bool { return kv[i].K < kv[j].K })
	return &Val{K: Dict, D: kv}
}

func (v *Val) Get(k string) *Val {
	for _, e := range v.D {
		if e.K == k {
			return e.V
		}
	}
	return nil
}

func (v *Val) Big() *big.Int {
	b, ok := new(big.Int).SetString(v.I, 10)
	if !ok {
		panic("bad integer " + v.I)
	}
	return b
}

// Append writes the value as its fields stand (no sorting, no checking).
func (v *Val) Append(b []byte) []byte {
	switch v.K {
	case Int:
		b = append(b, 'i')
		b = append(b, v.I...)
		return append(b, 'e')
	case Str:
		b = strconv.AppendInt(b, int64(len(v.S)), 10)
		b = append(b, ':')
		return append(b, v.S...)
	case List:
		b = append(b, 'l')
		for _, x := range v.L {
			b = x.Append(b)
		}
		return append(b, 'e')
	default:
		b = append(b, 'd')
		for _, e := range v.D {
			b = strconv.AppendInt(b, int64(len(e.K)), 10)
			b = append(b, ':')
			b = append(b, e.K...)
			b = e.V.Append(b)
		}
		return append(b, 'e')
	}
}

func (v *Val) Bytes() []byte { return v.Append(nil) }

// Equal compares values.
func (v *Val) Equal(w *Val) bool { return bytes.Equal(v.Bytes(), w.Bytes()) }

func (v *Val) Depth() int {
	d := 0
	for _, x := range v.L {
		d = max(d, x.Depth())
	}
	for _, e := range v.D {
		d = max(d, e.V.Depth())
	}
	if v.K == List || v.K == Dict {
		d++
	}
	return d
}

// ErrUnspecified marks input whose status the format leaves open (a string
// length with leading zeros): a decoder may take it or refuse it.
var ErrUnspecified = errors.New("unspecified")

// ErrTruncated marks input that ends inside a value.
var ErrTruncated = errors.New("truncated")

// Parse reads one value from the front of b.
func Parse(b []byte) (*Val, int, error) {
	p := &parser{b: b}
	v, err := p.value()
	if err == nil && p.unspec {
		err = ErrUnspecified
	}
	return v, p.i, err
}

type parser struct {
	b      []byte
	i      int
	unspec bool
}

func (p *parser) value() (*Val, error) {
	if p.i >= len(p.b) {
		return nil, ErrTruncated
	}
	st := p.i
	switch c := p.b[p.i]; {
	case c == 'i':
		e := bytes.IndexByte(p.b[p.i:], 'e')
		if e < 0 {
			return nil, ErrTruncated
		}
		s := string(p.b[p.i+1 : p.i+e])
		if !minimalInt(s) {
			return nil, fmt.Errorf("bad integer %q", s)
		}
		p.i += e + 1
		return &Val{K: Int, I: s, St: st, En: p.i}, nil
	case c == 'l':
		p.i++
		v := &Val{K: List, St: st}
		for {
			if p.i >= len(p.b) {
				return nil, ErrTruncated
			}
			if p.b[p.i] == 'e' {
				p.i++
				v.En = p.i
				return v, nil
			}
			x, err := p.value()
			if err != nil {
				return nil, err
			}
			v.L = append(v.L, x)
		}
	case c == 'd':
		p.i++
		v := &Val{K: Dict, St: st}
		for {
			if p.i >= len(p.b) {
				return nil, ErrTruncated
			}
			if p.b[p.i] == 'e' {
				p.i++
				v.En = p.i
				return v, nil
			}
			k, err := p.str()
			if err != nil {
				return nil, err
			}
			if n := len(v.D); n > 0 && v.D[n-1].K >= k {
				return nil, fmt.Errorf("keys out of order: %q then %q", v.D[n-1].K, k)
			}
			x, err := p.value()
			if err != nil {
				return nil, err
			}
			v.D = append(v.D, KV{k, x})
		}
	case c >= '0' && c <= '9':
		s, err := p.str()
		if err != nil {
			return nil, err
		}
		return &Val{K: Str, S: s, St: st, En: p.i}, nil
	default:
		return nil, fmt.Errorf("bad prefix %q", c)
	}
}

func (p *parser) str() (string, error) {
	j := p.i
	for j < len(p.b) && p.b[j] >= '0' && p.b[j] <= '9' {
		j++
	}
	if j == len(p.b) {
		return "", ErrTruncated
	}
	if j == p.i || p.b[j] != ':' {
		return "", fmt.Errorf("bad string length")
	}
	d := string(p.b[p.i:j])
	if len(d) > 1 && d[0] == '0' {
		p.unspec = true
	}
	n, ok := new(big.Int).SetString(d, 10)
	if !ok {
		return "", fmt.Errorf("bad string length")
	}
	j++
	if n.Cmp(big.NewInt(int64(len(p.b)-j))) > 0 {
		return "", ErrTruncated
	}
	m := int(n.Int64())
	p.i = j + m
	return string(p.b[j : j+m]), nil
}

func minimalInt(s string) bool {
	if s == "0" {
		return true
	}
	if len(s) > 0 && s[0] == '-' {
		s = s[1:]
	}
	if len(s) == 0 || s[0] < '1' || s[0] > '9' {
		return false
	}
	for i := 1; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

// Generic is what decoding v into an empty interface must yield; ok is false
// when an integer does not fit an int.
func Generic(v *Val) (any, bool) {
	switch v.K {
	case Int:
		b := v.Big()
		if !b.IsInt64() {
			return nil, false
		}
		return int(b.Int64()), true
	case Str:
		return v.S, true
	case List:
		l := []any{}
		for _, x := range v.L {
			g, ok := Generic(x)
			if !ok {
				return nil, false
			}
			l = append(l, g)
		}
		return l, true
	default:
		m := map[string]any{}
		for _, e := range v.D {
			g, ok := Generic(e.V)
			if !ok {
				return nil, false
			}
			m[e.K] = g
		}
		return m, true
	}
}

// Val2 returns v with one more entry.
func Val2(v *Val, e KV) (*Val, bool) {
	if v.Get(e.K) != nil {
		return v, false
	}
	return DictV(append(append([]KV{}, v.D...), e)...), true
}
