// Package rand re-exports math/rand with a top-level source that is seeded
// per case.
package rand

import (
	std "math/rand"
	"sync"
)

var (
	mu  sync.Mutex
	src = std.New(std.NewSource(1))
)

// Reseed is called by the harness at the start of a case.
func Reseed(s int64) { mu.Lock(); src = std.New(std.NewSource(s)); mu.Unlock() }

func with[T any](f func(*std.Rand) T) T { mu.Lock(); defer mu.Unlock(); return f(src) }

func Float64() float64     { return with((*std.Rand).Float64) }
func Float32() float32     { return with((*std.Rand).Float32) }
func ExpFloat64() float64  { return with((*std.Rand).ExpFloat64) }
func NormFloat64() float64 { return with((*std.Rand).NormFloat64) }
func Int() int             { return with((*std.Rand).Int) }
func Int31() int32         { return with((*std.Rand).Int31) }
func Int63() int64         { return with((*std.Rand).Int63) }
func Uint32() uint32       { return with((*std.Rand).Uint32) }
func Uint64() uint64       { return with((*std.Rand).Uint64) }
func Intn(n int) int       { return with(func(r *std.Rand) int { return r.Intn(n) }) }
func Int31n(n int32) int32 { return with(func(r *std.Rand) int32 { return r.Int31n(n) }) }
func Int63n(n int64) int64 { return with(func(r *std.Rand) int64 { return r.Int63n(n) }) }
func Perm(n int) []int     { return with(func(r *std.Rand) []int { return r.Perm(n) }) }
func Seed(int64)           {}
func Read(p []byte) (int, error) {
	mu.Lock()
	defer mu.Unlock()
	return src.Read(p)
}
func Shuffle(n int, swap func(i, j int)) {
	mu.Lock()
	defer mu.Unlock()
	src.Shuffle(n, swap)
}
