// Package sched stretches the program at its synchronisation and I/O points by
// generated amounts of virtual time, so that the interleaving of goroutines
// in a synctest bubble is chosen by the case.
package sched

import (
	"sync"
	"time"
)

var (
	mu     sync.Mutex
	active bool
	seed   uint64
	n      uint64
	num    uint64 // a point sleeps with probability num/16
	scale  time.Duration
)

// Start makes points sleep with probability num/16 for up to scale.
func Start(s uint64, prob int, max time.Duration) {
	mu.Lock()
	defer mu.Unlock()
	active, seed, n, num, scale = prob > 0 && max > 0, s, 0, uint64(prob), max
}

func Stop() {
	mu.Lock()
	defer mu.Unlock()
	active = false
}

func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	return x ^ x>>31
}

// Point is called where the shims hand over control.
func Point() {
	mu.Lock()
	if !active {
		mu.Unlock()
		return
	}
	n++
	x := mix(seed + n*0x9E3779B97F4A7C15)
	d := time.Duration(0)
	if x%16 < num {
		// mostly short, sometimes the whole scale
		d = 1 + time.Duration(mix(x)%uint64(scale))>>(x>>8%5)
	}
	mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	}
}
