//go:build go1.25

package sim

// Rng is the simulator's own generator (splitmix64). Every choice the driver,
// the network and the disks make comes from one of these, seeded by the run.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) Pct(p int) bool      { return r.N(100) < p }
func (r *Rng) Permille(p int) bool { return r.N(1000) < p }
func (r *Rng) Range(a, b int) int  { return a + r.N(b-a+1) }

// Mix derives an independent seed.
func Mix(a, b uint64) uint64 {
	r := Rng{a ^ (b * 0xff51afd7ed558ccd)}
	r.U64()
	return r.U64()
}

type randReader struct{ r *Rng }

func (x *randReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(x.r.U64() >> 13)
	}
	return len(p), nil
}
