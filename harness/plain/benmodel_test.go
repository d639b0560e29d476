package plain

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"dripverif/engine"
	"dripverif/ref"

	"github.com/browles/drip/bencode"
)

var _ = time.Second

// Custom marshalers used as leaves. Each knows its own model.

// rev is a value-receiver marshaler: the string backwards.
type rev string

func reverse(s string) string {
	b := []byte(s)
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return string(b)
}
func (r rev) MarshalBencoding() ([]byte, error) { return ref.StrV(reverse(string(r))).Bytes(), nil }
func (r *rev) UnmarshalBencoding(b []byte) error {
	v, n, err := ref.Parse(b)
	if err != nil || n != len(b) {
		return fmt.Errorf("rev: not exactly one value: %q", b)
	}
	if v.K != ref.Str {
		return errors.New("rev: not a string")
	}
	*r = rev(reverse(v.S))
	return nil
}

// capt is a pointer-receiver marshaler keeping the exact bytes.
type capt struct{ Raw string }

func (c *capt) MarshalBencoding() ([]byte, error) { return []byte(c.Raw), nil }
func (c *capt) UnmarshalBencoding(b []byte) error { c.Raw = string(b); return nil }

type namedStr string
type namedInt int16
type namedBytes []byte

var (
	revT   = reflect.TypeFor[rev]()
	captT  = reflect.TypeFor[capt]()
	rawT   = reflect.TypeFor[bencode.RawMessage]()
	anyT   = reflect.TypeFor[any]()
	bytesT = reflect.TypeFor[[]byte]()
)

func isCustom(t reflect.Type) bool { return t == revT || t == captT || t == rawT }

// tree is the model of the encoder: the value a Go value denotes. ok is false
// for values that denote nothing (nil).
func tree(v reflect.Value) (*ref.Val, bool) {
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			return nil, false
		}
		return tree(v.Elem())
	}
	switch v.Type() {
	case revT:
		return ref.StrV(reverse(v.String())), true
	case captT:
		return mustParse(v.Field(0).String()), true
	case rawT:
		if v.IsNil() {
			return nil, false
		}
		return mustParse(string(v.Bytes())), true
	}
	switch v.Kind() {
	case reflect.String:
		return ref.StrV(v.String()), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return ref.IntV(v.Int()), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return ref.UintV(v.Uint()), true
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return ref.StrV(string(v.Bytes())), true
		}
		if v.IsNil() {
			return nil, false
		}
		fallthrough
	case reflect.Array:
		out := ref.ListV()
		for i := 0; i < v.Len(); i++ {
			if x, ok := tree(v.Index(i)); ok {
				out.L = append(out.L, x)
			}
		}
		return out, true
	case reflect.Map:
		if v.IsNil() {
			return nil, false
		}
		var kv []ref.KV
		it := v.MapRange()
		for it.Next() {
			if isNil(it.Value()) {
				continue
			}
			if x, ok := tree(it.Value()); ok {
				kv = append(kv, ref.KV{K: it.Key().String(), V: x})
			}
		}
		return ref.DictV(kv...), true
	case reflect.Struct:
		var kv []ref.KV
		for _, f := range fieldsOf(v.Type()) {
			fv, ok := getField(v, f.path)
			if !ok || isNil(fv) {
				continue
			}
			if f.omit && isEmpty(fv) {
				continue
			}
			if x, ok := tree(fv); ok {
				kv = append(kv, ref.KV{K: f.key, V: x})
			}
		}
		return ref.DictV(kv...), true
	}
	panic("model: unsupported " + v.Type().String())
}

// isNil: nil, directly or behind pointers and interfaces.
func isNil(v reflect.Value) bool {
	for v.Kind() == reflect.Interface || v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return true
		}
		v = v.Elem()
	}
	return (v.Kind() == reflect.Slice || v.Kind() == reflect.Map) && v.IsNil()
}

func isEmpty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Array, reflect.Map, reflect.Slice, reflect.String:
		return v.Len() == 0
	case reflect.Interface, reflect.Pointer:
		return v.IsNil()
	case reflect.Struct:
		return false
	}
	return v.IsZero()
}

func mustParse(s string) *ref.Val {
	v, n, err := ref.Parse([]byte(s))
	if err != nil || n != len(s) {
		panic("model: raw message is not one value: " + s)
	}
	return v
}

type mfield struct {
	key  string
	path []int
	omit bool
}

// fieldsOf lists the fields of a struct type in the documented way: a tag
// names the key, otherwise the lower-cased field name; "-" and unexported
// fields are skipped; fields of untagged embedded structs count as fields of
// the outer one, shallower ones winning.
func fieldsOf(t reflect.Type) []mfield {
	byKey := map[string]mfield{}
	type lvl struct {
		t    reflect.Type
		path []int
	}
	tagged := map[string]bool{}
	visited := map[reflect.Type]bool{}
	cur := []lvl{{t, nil}}
	for len(cur) > 0 {
		var next []lvl
		for _, l := range cur {
			if visited[l.t] {
				continue // embedded more than once: the first one counts
			}
			visited[l.t] = true
			for i := 0; i < l.t.NumField(); i++ {
				sf := l.t.Field(i)
				tag := sf.Tag.Get("bencode")
				if tag == "-" {
					continue
				}
				parts := strings.Split(tag, ",")
				path := append(append([]int{}, l.path...), i)
				ft := sf.Type
				if ft.Kind() == reflect.Pointer {
					ft = ft.Elem()
				}
				if sf.Anonymous && parts[0] == "" && ft.Kind() == reflect.Struct {
					next = append(next, lvl{ft, path})
					continue
				}
				if !sf.IsExported() {
					continue
				}
				key := parts[0]
				if key == "" {
					key = strings.ToLower(sf.Name)
				}
				omit := false
				for _, o := range parts[1:] {
					omit = omit || o == "omitempty"
				}
				// Of two on the same level, a tag wins.
				if f, ok := byKey[key]; !ok || len(f.path) == len(path) && parts[0] != "" && !tagged[key] {
					byKey[key] = mfield{key, path, omit}
					tagged[key] = parts[0] != ""
				}
			}
		}
		cur = next
	}
	var out []mfield
	for _, f := range byKey {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return out
}

func getField(v reflect.Value, path []int) (reflect.Value, bool) {
	for _, i := range path {
		if v.Kind() == reflect.Pointer {
			if v.IsNil() {
				return v, false
			}
			v = v.Elem()
		}
		v = v.Field(i)
	}
	return v, true
}

var errModel = errors.New("model: does not fit")

// into is the model of the decoder: stores what val denotes in dst.
func into(val *ref.Val, raw []byte, dst reflect.Value) error {
	if dst.Kind() == reflect.Pointer {
		if dst.IsNil() {
			dst.Set(reflect.New(dst.Type().Elem()))
		}
		return into(val, raw, dst.Elem())
	}
	switch dst.Type() {
	case revT:
		if val.K != ref.Str {
			return errModel
		}
		dst.SetString(reverse(val.S))
		return nil
	case captT:
		dst.Field(0).SetString(string(raw[val.St:val.En]))
		return nil
	case rawT:
		dst.SetBytes(append([]byte{}, raw[val.St:val.En]...))
		return nil
	}
	switch dst.Kind() {
	case reflect.Interface:
		if !dst.IsNil() && dst.Elem().Kind() == reflect.Pointer && !dst.Elem().IsNil() {
			return into(val, raw, dst.Elem())
		}
		g, ok := ref.Generic(val)
		if !ok {
			return errModel
		}
		dst.Set(reflect.ValueOf(g))
		return nil
	case reflect.String:
		if val.K != ref.Str {
			return errModel
		}
		dst.SetString(val.S)
		return nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if val.K != ref.Int {
			return errModel
		}
		b := val.Big()
		if !b.IsInt64() || dst.OverflowInt(b.Int64()) {
			return errModel
		}
		dst.SetInt(b.Int64())
		return nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if val.K != ref.Int {
			return errModel
		}
		b := val.Big()
		if !b.IsUint64() || dst.OverflowUint(b.Uint64()) {
			return errModel
		}
		dst.SetUint(b.Uint64())
		return nil
	case reflect.Slice:
		if dst.Type().Elem().Kind() == reflect.Uint8 {
			if val.K != ref.Str {
				return errModel
			}
			dst.SetBytes([]byte(val.S))
			return nil
		}
		if val.K != ref.List {
			return errModel
		}
		n := reflect.MakeSlice(dst.Type(), len(val.L), len(val.L))
		reflect.Copy(n, dst)
		for i, x := range val.L {
			if err := into(x, raw, n.Index(i)); err != nil {
				return err
			}
		}
		dst.Set(n)
		return nil
	case reflect.Array:
		if val.K != ref.List {
			return errModel
		}
		for i := 0; i < dst.Len(); i++ {
			if i < len(val.L) {
				if err := into(val.L[i], raw, dst.Index(i)); err != nil {
					return err
				}
			} else {
				dst.Index(i).SetZero()
			}
		}
		return nil
	case reflect.Map:
		if val.K != ref.Dict {
			return errModel
		}
		if dst.IsNil() {
			dst.Set(reflect.MakeMap(dst.Type()))
		}
		for _, e := range val.D {
			x := reflect.New(dst.Type().Elem()).Elem()
			if err := into(e.V, raw, x); err != nil {
				return err
			}
			k := reflect.New(dst.Type().Key()).Elem()
			k.SetString(e.K)
			dst.SetMapIndex(k, x)
		}
		return nil
	case reflect.Struct:
		if val.K != ref.Dict {
			return errModel
		}
		fs := map[string]mfield{}
		for _, f := range fieldsOf(dst.Type()) {
			fs[f.key] = f
		}
		for _, e := range val.D {
			f, ok := fs[e.K]
			if !ok {
				continue
			}
			d := dst
			for _, i := range f.path {
				if d.Kind() == reflect.Pointer {
					if d.IsNil() {
						d.Set(reflect.New(d.Type().Elem()))
					}
					d = d.Elem()
				}
				d = d.Field(i)
			}
			if err := into(e.V, raw, d); err != nil {
				return err
			}
		}
		return nil
	}
	panic("model: unsupported " + dst.Type().String())
}

// ---- generators ----

type Inner struct {
	X int
	Y string `bencode:"why"`
	z int
}
type Deep struct {
	Inner
	W []byte `bencode:"w,omitempty"`
	Y int32
}
type Outer struct {
	A int `bencode:"a"`
	Deep
	B  *Inner          `bencode:"b"`
	M  map[string]int8 `bencode:"m,omitempty"`
	no int
	Ig string `bencode:"-"`
}
type PtrEmb struct {
	*Inner
	Name string             `bencode:"name"`
	L    []*Inner           `bencode:"list"`
	Raw  bencode.RawMessage `bencode:"raw"`
}
type Tagged struct {
	Inner `bencode:"inner"`
	K     uint64  `bencode:"k"`
	P     **int64 `bencode:"p"`
}
type Node struct {
	V    int    `bencode:"v"`
	Next *Node  `bencode:"next"`
	Kids []Node `bencode:"kids,omitempty"`
}
type OmitAll struct {
	A int            `bencode:"a,omitempty"`
	B string         `bencode:"b,omitempty"`
	C []string       `bencode:"c,omitempty"`
	D *string        `bencode:"d,omitempty"`
	E any            `bencode:"e,omitempty"`
	F uint16         `bencode:"f,omitempty"`
	G [0]int         `bencode:"g,omitempty"`
	H [2]int         `bencode:"h,omitempty"`
	I Inner          `bencode:"i,omitempty"`
	J map[string]any `bencode:"j,omitempty"`
	K rev            `bencode:"k,omitempty"`
}
type Custom struct {
	R  rev              `bencode:"r"`
	RP *rev             `bencode:"rp"`
	C  *capt            `bencode:"c"`
	CS []*capt          `bencode:"cs"`
	CM map[string]*capt `bencode:"cm"`
	CV map[string]rev   `bencode:"cv"`
}

// Both has keys with two claimants, of which the tagged one wins.
type Both struct {
	A int
	B string `bencode:"a"`
	C uint16 `bencode:"d"`
	D []int
	E Inner `bencode:"f,omitempty"`
	F string
}

// Diamond embeds a type twice, and others next to and below it.
type Diamond struct {
	LeftE
	RightE
	*FarE
	Own int `bencode:"own"`
}
type LeftE struct {
	Inner
	L int `bencode:"l,omitempty"`
}
type RightE struct {
	Inner
	R string
}
type FarE struct {
	FarFar
	Y bool `bencode:"-"`
}
type FarFar struct {
	Far  []string `bencode:"far"`
	Last *int64
}

// Rec embeds itself.
type Rec struct {
	V int
	*Rec
	W string `bencode:"w"`
}

var catalogue = []reflect.Type{
	reflect.TypeFor[Both](), reflect.TypeFor[Diamond](), reflect.TypeFor[Rec](),
	reflect.TypeFor[Inner](), reflect.TypeFor[Deep](), reflect.TypeFor[Outer](), reflect.TypeFor[PtrEmb](),
	reflect.TypeFor[Tagged](), reflect.TypeFor[Node](), reflect.TypeFor[OmitAll](), reflect.TypeFor[Custom](),
	twin1(), twin2(), twin3(),
}

// Types of the same name, which differ.
func twin1() reflect.Type {
	type Twin struct {
		A int
		B string `bencode:"z"`
		C []byte `bencode:",omitempty"`
	}
	return reflect.TypeFor[Twin]()
}

func twin2() reflect.Type {
	type Twin struct {
		B []string
		Z map[string]int `bencode:"a"`
	}
	return reflect.TypeFor[Twin]()
}

func twin3() reflect.Type {
	type Twin struct {
		P *int `bencode:"b,omitempty"`
		Inner
	}
	return reflect.TypeFor[Twin]()
}

var leaves = []reflect.Type{
	reflect.TypeFor[int](), reflect.TypeFor[string](), reflect.TypeFor[[]byte](), reflect.TypeFor[int64](), reflect.TypeFor[uint64](),
	reflect.TypeFor[int8](), reflect.TypeFor[int16](), reflect.TypeFor[int32](), reflect.TypeFor[uint](), reflect.TypeFor[uint8](),
	reflect.TypeFor[uint16](), reflect.TypeFor[uint32](), reflect.TypeFor[namedStr](), reflect.TypeFor[namedInt](), reflect.TypeFor[namedBytes](),
	revT, rawT, captT,
}

// genType makes a Go type the package supports.
func genType(t *engine.T, depth int) reflect.Type {
	k := 0
	if depth > 0 {
		k = t.Weighted(6, 2, 2, 1, 2, 3, 2, 4)
	}
	switch k {
	case 1:
		e := genType(t, depth-1)
		return reflect.SliceOf(e)
	case 2:
		kt := reflect.TypeFor[string]()
		if t.Prob(1, 4) {
			kt = reflect.TypeFor[namedStr]()
		}
		return reflect.MapOf(kt, genType(t, depth-1))
	case 3:
		return reflect.ArrayOf(t.N(4), genType(t, depth-1))
	case 4:
		return reflect.PointerTo(genType(t, depth-1))
	case 5:
		return anyT
	case 6:
		return catalogue[t.N(len(catalogue))]
	case 7:
		structN = 0
		return genStruct(t, depth, 0, nil)
	}
	return leaves[t.N(len(leaves))]
}

var structN int // numbers the fields of one struct and all it embeds

// genStruct makes a struct type, possibly embedding others up to five levels
// deep. Keys are distinct, except that an embedded struct may repeat a key of
// one that embeds it (which then wins).
func genStruct(t *engine.T, depth, level int, outer []string) reflect.Type {
	n := t.Range(0, 5)
	if level > 0 {
		n = t.Range(1, 3)
	}
	var fs []reflect.StructField
	used := map[string]bool{}
	var own []string
	type emb struct {
		at  int
		ptr bool
	}
	var embs []emb
	for i := 0; i < n; i++ {
		structN++
		if level < 5 && t.Prob(1, 8) || level > 0 && level < 4 && t.Prob(1, 2) {
			embs = append(embs, emb{len(fs), t.Prob(1, 4)})
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("Emb%d", structN), Anonymous: true})
			if level > 0 {
				continue
			}
		}
		name := fmt.Sprintf("F%c%d", 'A'+t.N(26), structN)
		tag := ""
		key := strings.ToLower(name)
		if t.Prob(1, 2) {
			tag = Pick2(t, []string{"a", "b", "key", "a b", "a-b", "z.z", "info", "x"})
			if level > 0 {
				tag += fmt.Sprint(structN)
				if len(outer) > 0 && t.Prob(1, 3) {
					tag = Pick2(t, outer)
				}
			}
			key = tag
		}
		if used[key] {
			continue
		}
		used[key] = true
		own = append(own, key)
		if t.Prob(1, 3) {
			tag += ",omitempty"
		}
		ft := leaves[t.N(len(leaves))]
		if level == 0 || t.Prob(1, 6) {
			saved := structN
			ft = genType(t, depth-1)
			structN = saved
		}
		f := reflect.StructField{Name: name, Type: ft}
		if tag != "" {
			f.Tag = reflect.StructTag(`bencode:"` + tag + `"`)
		}
		fs = append(fs, f)
	}
	for _, e := range embs {
		ft := genStruct(t, depth, level+1, append(outer[:len(outer):len(outer)], own...))
		if e.ptr {
			ft = reflect.PointerTo(ft)
		}
		fs[e.at].Type = ft
		t.LabelIf(level >= 3, "four levels of embedding")
	}
	return reflect.StructOf(fs)
}

func Pick2[E any](t *engine.T, xs []E) E { return xs[t.N(len(xs))] }

// genVal makes a well-formed value.
func genVal(t *engine.T, depth int) *ref.Val {
	k := t.Weighted(3, 3, 2, 3)
	if depth == 0 {
		k = t.N(2)
	}
	switch k {
	case 0:
		if t.Prob(1, 12) {
			return ref.UintV(t.Uint64())
		}
		return ref.IntV(t.Int64())
	case 1:
		return ref.StrV(t.String(60))
	case 2:
		v := ref.ListV()
		for n := 0; t.More(n, 3, 6); n++ {
			v.L = append(v.L, genVal(t, depth-1))
		}
		return v
	}
	seen := map[string]bool{}
	var kv []ref.KV
	for n := 0; t.More(n, 3, 6); n++ {
		key := genKey(t)
		if !seen[key] {
			seen[key] = true
			kv = append(kv, ref.KV{K: key, V: genVal(t, depth-1)})
		}
	}
	return ref.DictV(kv...)
}

func genKey(t *engine.T) string {
	if t.Prob(2, 3) {
		return Pick2(t, []string{"a", "b", "key", "a b", "why", "x", "info", "v", "next", "", "list", "raw", "name", "A", "aa", "\xff", "\x00"})
	}
	if t.Prob(1, 3) { // long keys that differ late
		n := Pick2(t, []int{1, 7, 8, 15, 16, 17, 31, 32, 40, 63, 64, 100, 255})
		return strings.Repeat("k", n) + t.String(2)
	}
	return t.String(6)
}

// fill gives dst (settable) a random value. nils tells whether nil may occur
// inside lists.
func fill(t *engine.T, dst reflect.Value, depth int) {
	switch dst.Type() {
	case revT:
		dst.SetString(t.String(8))
		return
	case captT:
		dst.Field(0).SetString(string(genVal(t, 2).Bytes()))
		return
	case rawT:
		dst.SetBytes(genVal(t, 2).Bytes())
		return
	}
	switch dst.Kind() {
	case reflect.String:
		dst.SetString(t.String(60))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		i := t.Int64()
		sh := 64 - dst.Type().Bits()
		dst.SetInt(i << sh >> sh)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		i := t.Uint64()
		sh := 64 - dst.Type().Bits()
		dst.SetUint(i << sh >> sh)
	case reflect.Slice:
		if t.Prob(1, 8) {
			return
		}
		if dst.Type().Elem().Kind() == reflect.Uint8 {
			dst.SetBytes(t.Bytes(60))
			return
		}
		n := 0
		if depth > 0 {
			n = t.N(5)
		}
		s := reflect.MakeSlice(dst.Type(), n, n)
		for i := 0; i < n; i++ {
			fill(t, s.Index(i), depth-1)
		}
		dst.Set(s)
	case reflect.Array:
		for i := 0; i < dst.Len(); i++ {
			fill(t, dst.Index(i), depth-1)
		}
	case reflect.Map:
		if t.Prob(1, 8) {
			return
		}
		dst.Set(reflect.MakeMap(dst.Type()))
		for n := 0; depth > 0 && t.More(n, 4, 12); n++ {
			k := reflect.New(dst.Type().Key()).Elem()
			k.SetString(genKey(t))
			e := reflect.New(dst.Type().Elem()).Elem()
			fill(t, e, depth-1)
			dst.SetMapIndex(k, e)
		}
	case reflect.Struct:
		fillStruct(t, dst, depth)
	case reflect.Pointer:
		if t.Prob(1, 6) || depth <= 0 {
			return
		}
		dst.Set(reflect.New(dst.Type().Elem()))
		fill(t, dst.Elem(), depth-1)
	case reflect.Interface:
		if t.Prob(1, 8) || depth <= 0 {
			return
		}
		e := reflect.New(genType(t, 1)).Elem()
		fill(t, e, depth-1)
		dst.Set(e)
	default:
		t.Bugf("fill %s", dst.Type())
	}
}

func fillStruct(t *engine.T, dst reflect.Value, depth int) {
	for i := 0; i < dst.NumField(); i++ {
		sf := dst.Type().Field(i)
		if !dst.Field(i).CanSet() {
			continue
		}
		if sf.Tag.Get("bencode") == "-" {
			continue
		}
		fill(t, dst.Field(i), depth-1)
	}
}

// leafFields counts the fields that have a key, hidden ones included.
func leafFields(t reflect.Type) (n int) {
	if t == reflect.TypeFor[Rec]() {
		return 3
	}
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		tag := sf.Tag.Get("bencode")
		ft := sf.Type
		if ft.Kind() == reflect.Pointer {
			ft = ft.Elem()
		}
		switch {
		case tag == "-":
		case sf.Anonymous && strings.Split(tag, ",")[0] == "" && ft.Kind() == reflect.Struct:
			n += leafFields(ft)
		case sf.IsExported():
			n++
		}
	}
	return n
}

// lossy reports whether v contains something the format cannot express, so
// that a fresh decode need not be deeply equal.
func lossy(v reflect.Value) bool {
	switch v.Type() {
	case revT, captT, rawT:
		return false
	}
	switch v.Kind() {
	case reflect.Interface:
		return true
	case reflect.Pointer:
		if v.IsNil() {
			return false
		}
		return lossy(v.Elem())
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return false
		}
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			if isNil(e) || lossy(e) {
				return true
			}
		}
	case reflect.Map:
		it := v.MapRange()
		for it.Next() {
			if isNil(it.Value()) || lossy(it.Value()) {
				return true
			}
		}
	case reflect.Struct:
		if leafFields(v.Type()) != len(fieldsOf(v.Type())) {
			return true // hidden fields
		}
		for i := 0; i < v.NumField(); i++ {
			sf := v.Type().Field(i)
			if !sf.IsExported() {
				continue
			}
			fv := v.Field(i)
			if isNil(fv) {
				// shows up again as nil, unless the pointer behind a pointer is nil
				if (fv.Kind() == reflect.Pointer || fv.Kind() == reflect.Interface) && !fv.IsNil() {
					return true
				}
				continue
			}
			if lossy(fv) {
				return true
			}
			if strings.Contains(sf.Tag.Get("bencode"), "omitempty") && isEmpty(fv) {
				return true
			}
			if sf.Anonymous && fv.Kind() == reflect.Pointer {
				return true // an embedded pointer with no encodable field comes back nil
			}
		}
	}
	return false
}
