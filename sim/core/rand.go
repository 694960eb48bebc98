// Package core is the engine: seeded runs, worker processes, minimisation, replay files
// and evidence.
package core

// Rand is a small deterministic generator (splitmix64).
type Rand struct{ s uint64 }

// NewRand returns a generator for seed.
func NewRand(seed uint64) *Rand { return &Rand{seed} }

// Mix hashes x.
func Mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// HashString hashes s into h.
func HashString(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return Mix(h)
}

// Uint64 returns the next value.
func (r *Rand) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Intn returns a value in [0,n).
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Range returns a value in [a,b].
func (r *Rand) Range(a, b int) int { return a + r.Intn(b-a+1) }

// Chance is true in num of den cases.
func (r *Rand) Chance(num, den int) bool { return r.Intn(den) < num }

// Bool is true in half of the cases.
func (r *Rand) Bool() bool { return r.Uint64()&1 == 1 }

// Pick returns one of the strings.
func (r *Rand) Pick(l ...string) string { return l[r.Intn(len(l))] }

// PickInt returns one of the ints.
func (r *Rand) PickInt(l ...int) int { return l[r.Intn(len(l))] }

// Small returns a small number, 0 most often, at most max.
func (r *Rand) Small(max int) int {
	n := 0
	for n < max && r.Chance(1, 2) {
		n++
	}
	return n
}
