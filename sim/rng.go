package main

// Rng is a small splitmix64 generator; every random choice of the harness
// comes from one of these, seeded from the plan.
type Rng struct{ s uint64 }

func mix64(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

func hash64(vs ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, v := range vs {
		h = mix64(h ^ (v + 0x9e3779b97f4a7c15))
	}
	return h
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func NewRng(vs ...uint64) *Rng { return &Rng{hash64(vs...)} }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix64(r.s)
}

// N returns a number in [0,n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In returns a number in [a,b].
func (r *Rng) In(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability 1/n.
func (r *Rng) P(n int) bool { return r.N(n) == 0 }

// Pct is true with probability p/100.
func (r *Rng) Pct(p int) bool { return r.N(100) < p }

func (r *Rng) Pick(vs ...int) int { return vs[r.N(len(vs))] }

// Log returns a roughly log-uniform number in [a,b].
func (r *Rng) Log(a, b int) int {
	if a < 1 {
		a = 1
	}
	n := 0
	for v := a; v < b; v *= 2 {
		n++
	}
	v := a << r.N(n+1)
	if v > b {
		v = b
	}
	return r.In(v, min(b, 2*v))
}

// PickS picks one of the strings.
func (g *Rng) PickS(vs ...string) string { return vs[g.N(len(vs))] }
