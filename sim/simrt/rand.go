package simrt

// Rand is splitmix64: small, fast, and identical on every Go release.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { r := &Rand{seed}; r.Uint64(); return r }

func (r *Rand) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

func (r *Rand) Bool(num, den int) bool { return r.Intn(den) < num }

func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Hash64 mixes values into a seed.
func Hash64(vs ...uint64) uint64 {
	h := uint64(0x9e3779b97f4a7c15)
	for _, v := range vs {
		h ^= v
		h *= 0xbf58476d1ce4e5b9
		h ^= h >> 31
	}
	return h
}

func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// derived gives a choice that depends only on the run's seed and on where
// the current task is, so that it survives minimisation of the schedule.
func (s *Sim) derived(tag uint64) uint64 {
	return Hash64(s.cfg.Seed, tag, uint64(s.cur.ID), uint64(s.cur.points))
}
