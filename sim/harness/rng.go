package main

// rng is a splitmix64 stream: every random decision of a scenario comes from
// one of these, seeded from the run's seed.
type rng struct{ s uint64 }

func newRng(parts ...uint64) *rng {
	r := &rng{0x5851f42d4c957f2d}
	for _, p := range parts {
		r.s ^= p
		r.next()
		r.s = r.s*0x2545f4914f6cdd1d + 1
	}
	return r
}

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.next() % uint64(n))
}

// in returns a value in [a, b].
func (r *rng) in(a, b int) int { return a + r.n(b-a+1) }

// p is true with probability pct/100.
func (r *rng) p(pct int) bool { return r.n(100) < pct }

func pick[T any](r *rng, xs ...T) T { return xs[r.n(len(xs))] }
