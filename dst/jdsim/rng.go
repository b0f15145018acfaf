package main

// Rng is the only source of choices in a simulated run's workload.
type Rng struct{ s uint64 }

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return mix(h)
}

func NewRng(seed uint64, label string) *Rng { return &Rng{mix(seed ^ hashStr(label))} }

func (r *Rng) U64() uint64 { r.s += 0x9e3779b97f4a7c15; return mix(r.s) }
func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int((r.U64() >> 11) % uint64(n))
}

// Range returns a value in [a, b].
func (r *Rng) Range(a, b int) int                 { return a + r.Intn(b-a+1) }
func (r *Rng) P(num, den int) bool                { return r.Intn(den) < num }
func (r *Rng) Str(xs ...string) string            { return xs[r.Intn(len(xs))] }
func (r *Rng) Int(xs ...int) int                  { return xs[r.Intn(len(xs))] }
func (r *Rng) pick(xs ...interface{}) interface{} { return xs[r.Intn(len(xs))] }
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
