// Package rng is the one source of randomness of the simulators: every choice
// of a run is drawn from one 64-bit seed, so a seed is an exactly repeatable run.
package rng

// R is a splitmix64 generator.
type R struct{ s uint64 }

// New returns a generator for the seed.
func New(seed uint64) *R { return &R{s: seed} }

// Mix derives an independent seed from several numbers.
func Mix(xs ...uint64) uint64 {
	h := uint64(0x9E3779B97F4A7C15)
	for _, x := range xs {
		h ^= x
		h *= 0xBF58476D1CE4E5B9
		h ^= h >> 29
		h *= 0x94D049BB133111EB
		h ^= h >> 32
	}
	return h
}

// MixS derives a seed from a string.
func MixS(seed uint64, s string) uint64 {
	h := seed ^ 0xcbf29ce484222325
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return Mix(h, uint64(len(s)))
}

// U64 returns 64 random bits.
func (r *R) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N returns a number in [0,n).
func (r *R) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a number in [lo,hi].
func (r *R) Range(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P is true with probability num/den.
func (r *R) P(num, den int) bool { return r.N(den) < num }

// Pick returns an index with probability proportional to its weight.
func (r *R) Pick(w ...int) int {
	t := 0
	for _, x := range w {
		if x > 0 {
			t += x
		}
	}
	if t == 0 {
		return 0
	}
	k := r.N(t)
	for i, x := range w {
		if x <= 0 {
			continue
		}
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

// Fork returns an independent generator.
func (r *R) Fork() *R { return New(Mix(r.U64())) }

// Shuffle permutes n elements.
func (r *R) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.N(i+1))
	}
}
