package vf

import (
	"math/bits"

	"pgregory.net/rapid"
)

// rapid's integer generators favour small values strongly; these draw uniformly (and shrink towards 0 / false / the first).

var boolGen = rapid.Bool()

// Uint draws k uniform bits.
func uintBits(t *rapid.T, label string, k int) int {
	v := 0
	for i := 0; i < k; i++ {
		v <<= 1
		if boolGen.Draw(t, label) {
			v |= 1
		}
	}
	return v
}

// U draws uniformly from 0..n-1.
func U(t *rapid.T, label string, n int) int {
	if n <= 1 {
		return 0
	}
	k := bits.Len(uint(n - 1))
	if n&(n-1) == 0 {
		return uintBits(t, label, k)
	}
	return uintBits(t, label, k+3) % n
}

// Range draws uniformly from lo..hi.
func Range(t *rapid.T, label string, lo, hi int) int { return lo + U(t, label, hi-lo+1) }

// Pct is true with a probability of n percent.
func Pct(t *rapid.T, label string, n int) bool {
	if n <= 0 {
		return false
	}
	if n >= 100 {
		return true
	}
	return uintBits(t, label, 7)*100 >= (100-n)*128
}

// Pick draws one of the values, uniformly.
func Pick[T any](t *rapid.T, label string, vs ...T) T { return vs[U(t, label, len(vs))] }
