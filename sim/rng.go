package main

// Rng is the only source of randomness in the harness: splitmix64.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }

func (r *Rng) U() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

// N returns a number in [0, n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U() % uint64(n))
}

// In returns a number in [a, b].
func (r *Rng) In(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability 1/n.
func (r *Rng) P(n int) bool { return r.N(n) == 0 }

// Pct is true with probability p percent.
func (r *Rng) Pct(p int) bool { return r.N(100) < p }

func pick[T any](r *Rng, xs []T) T { return xs[r.N(len(xs))] }

// Small favours small numbers in [a, b].
func (r *Rng) Small(a, b int) int {
	n := r.N(b - a + 1)
	for i := 0; i < 2; i++ {
		if m := r.N(b - a + 1); m < n {
			n = m
		}
	}
	return a + n
}

func hash64(parts ...any) uint64 {
	h := uint64(0xcbf29ce484222325)
	add := func(b byte) { h ^= uint64(b); h *= 0x100000001b3 }
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			for i := 0; i < len(v); i++ {
				add(v[i])
			}
		case []byte:
			for _, b := range v {
				add(b)
			}
		case int:
			for i := 0; i < 8; i++ {
				add(byte(uint64(v) >> (8 * i)))
			}
		case int64:
			for i := 0; i < 8; i++ {
				add(byte(uint64(v) >> (8 * i)))
			}
		case uint64:
			for i := 0; i < 8; i++ {
				add(byte(v >> (8 * i)))
			}
		default:
			panic("hash64")
		}
		add(0xfe)
	}
	r := Rng{h}
	return r.U()
}
