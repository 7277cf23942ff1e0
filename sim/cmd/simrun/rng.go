package main

import "sort"

// rng is splitmix64: every random choice of the simulator comes from one of these, seeded
// from VERIF_SEED, the property and the run index.
type rng struct {
	s     uint64
	focus bool // on the words of the dictionary
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func newRng(parts ...uint64) *rng {
	s := uint64(0x51ed270b)
	for _, p := range parts {
		s = mix(s ^ mix(p))
	}
	return &rng{s: s}
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func (r *rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// n returns a number in [0, k).
func (r *rng) n(k int) int {
	if k <= 1 {
		return 0
	}
	return int(r.u64() % uint64(k))
}

// in returns a number in [lo, hi].
func (r *rng) in(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + r.n(hi-lo+1)
}

// p is true in pct percent of the cases.
func (r *rng) p(pct int) bool { return r.n(100) < pct }

func (r *rng) pick(xs ...string) string { return xs[r.n(len(xs))] }

// geo returns a number >= 1 with mean about m.
func (r *rng) geo(m int) int {
	k := 1
	for k < 50*m && r.n(m) != 0 {
		k++
	}
	return k
}

// logn returns a number in [1, max], small ones as likely as large ones by magnitude.
func (r *rng) logn(max int) int {
	if max <= 1 {
		return 1
	}
	bits := 1
	for 1<<uint(bits) <= max {
		bits++
	}
	b := r.n(bits)
	v := 1<<uint(b) + r.n(1<<uint(b))
	if v > max {
		v = max
	}
	return v
}

type lesser struct {
	n    int
	less func(i, j int) bool
	swap func(i, j int)
}

func (l lesser) Len() int           { return l.n }
func (l lesser) Less(i, j int) bool { return l.less(i, j) }
func (l lesser) Swap(i, j int)      { l.swap(i, j) }

func sortBy(n int, less func(i, j int) bool, swap func(i, j int)) {
	sort.Stable(lesser{n, less, swap})
}
