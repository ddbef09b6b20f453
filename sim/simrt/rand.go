package simrt

// Rand is a splitmix64 generator. It carries no race instrumentation because the
// scheduler uses it from every task.
type Rand struct{ s uint64 }

//go:norace
func NewRand(seed uint64) *Rand { return &Rand{s: seed*0x9E3779B97F4A7C15 + 0x1234567} }

//go:norace
func (r *Rand) Uint64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Intn returns a value in [0,n).
//
//go:norace
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// P is true with probability num/den.
//
//go:norace
func (r *Rand) P(num, den int) bool { return r.Intn(den) < num }

// Fork derives an independent generator.
//
//go:norace
func (r *Rand) Fork(label uint64) *Rand { return NewRand(r.Uint64() ^ label*0xD1342543DE82EF95) }

// RandomDecider preempts after a random number of steps.
type RandomDecider struct {
	R    *Rand
	Mean int64 // mean number of steps between preemptions, 0 = never
	Shy  int   // one in so many steps that use something shared is preempted, 0 = none
}

//go:norace
func (d *RandomDecider) Hot(pc int64) bool {
	return d.Mean > 0 && d.Shy > 0 && d.R.Intn(d.Shy) == 0
}

//go:norace
func (d *RandomDecider) Gap(pc int64) int64 {
	if d.Mean <= 0 {
		return 1<<63 - 1
	}
	return 1 + int64(d.R.Uint64()%uint64(2*d.Mean))
}

//go:norace
func (d *RandomDecider) Pick(pc int64, n int, kind byte, cur int, runnable []int) int {
	return runnable[d.R.Intn(len(runnable))]
}

// ReplayDecider replays a recorded list of decisions.
type ReplayDecider struct {
	D []Decision
	i int
}

//go:norace
func (d *ReplayDecider) Hot(pc int64) bool { return false }

//go:norace
func (d *ReplayDecider) Gap(pc int64) int64 {
	for d.i < len(d.D) && d.D[d.i].PC < pc {
		d.i++
	}
	for j := d.i; j < len(d.D); j++ {
		if d.D[j].K == "p" && d.D[j].PC > pc {
			return d.D[j].PC - pc
		}
	}
	return 1<<63 - 1
}

//go:norace
func (d *ReplayDecider) Pick(pc int64, n int, kind byte, cur int, runnable []int) int {
	for j := d.i; j < len(d.D) && d.D[j].PC <= pc; j++ {
		if d.D[j].PC == pc && d.D[j].N == n && d.D[j].K[0] == kind {
			return d.D[j].To
		}
	}
	if kind == 'p' {
		return cur
	}
	return runnable[0]
}
