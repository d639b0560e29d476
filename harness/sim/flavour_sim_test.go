//go:build !race || verifsim

package sim

const realTime = false
