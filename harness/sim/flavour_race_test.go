//go:build race && !verifsim

package sim

// realTime: built with the race detector and without the simulation; goroutines
// run in parallel on the real file system.
const realTime = true
