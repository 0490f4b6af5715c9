package world

// Rng is a small deterministic generator (splitmix64): everything random in a run comes from one of these.
type Rng struct{ s uint64 }

// NewRng seeds a generator.
func NewRng(parts ...uint64) *Rng {
	r := &Rng{s: 0x1234567}
	for _, p := range parts {
		r.s ^= p + 0x9e3779b97f4a7c15 + r.s<<6 + r.s>>2
		r.U64()
	}

	return r
}

// U64 returns 64 random bits.
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb

	return z ^ (z >> 31)
}

// N returns a number below n.
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}

	return int(r.U64() % uint64(n))
}

// Rng returns a number in [a,b].
func (r *Rng) In(a, b int) int { return a + r.N(b-a+1) }

// P is true with a probability of p percent.
func (r *Rng) P(p int) bool { return r.N(100) < p }

// Of picks one.
func (r *Rng) Of(l ...string) string { return l[r.N(len(l))] }

// Perm is a random permutation.
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.N(i + 1)
		p[i] = p[j]
		p[j] = i
	}

	return p
}
