package main

// rng is splitmix64, all random choices of a case come from one.
type rng struct{ s uint64 }

func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

func newRng(parts ...uint64) *rng {
	s := uint64(0x9e3779b97f4a7c15)
	for _, p := range parts {
		s = mix(s ^ mix(p+0x9e3779b97f4a7c15))
	}
	return &rng{s}
}

func (r *rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

// n returns a number in [0,n)
func (r *rng) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.u64() % uint64(n))
}

// in returns a number in [a,b]
func (r *rng) in(a, b int) int { return a + r.n(b-a+1) }

func (r *rng) p(num, den int) bool { return r.n(den) < num }

func strHash(s string) (h uint64) {
	for i := 0; i < len(s); i++ {
		h = mix(h*31 + uint64(s[i]))
	}
	return
}
