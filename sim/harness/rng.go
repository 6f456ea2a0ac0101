//go:build go1.21

package main

// Rng is a splitmix64 generator: one integer decides a whole run.
type Rng struct{ s uint64 }

// NewRng derives an independent generator from a list of integers.
func NewRng(parts ...uint64) *Rng {
	r := &Rng{0x9e3779b97f4a7c15}
	for _, p := range parts {
		r.s ^= p
		r.s = r.U64() ^ (p * 0xbf58476d1ce4e5b9)
	}
	return r
}

// U64 returns the next 64 bits.
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number in [0, n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// R returns a number in [lo, hi].
func (r *Rng) R(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P is true with probability a/b.
func (r *Rng) P(a, b int) bool { return r.N(b) < a }

// Bytes returns n random bytes; now and then only zeros or small numbers.
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	if n > 0 {
		switch r.N(16) {
		case 0:
			return b
		case 1:
			for i := range b {
				b[i] = byte(r.N(4))
			}
			return b
		}
	}
	for i := range b {
		b[i] = byte(r.U64() >> 17)
	}
	return b
}

// Pick returns one element.
func Pick[T any](r *Rng, l ...T) T { return l[r.N(len(l))] }

// hash64 is FNV-1a.
func hash64(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h ^= uint64(c)
		h *= 1099511628211
	}
	return h
}
