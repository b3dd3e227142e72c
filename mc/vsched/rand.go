//go:build go1.22

package verifsched

import (
	"math/rand"
)

// The functions below stand in for the package level functions of math/rand.
// In a session the answers come from the explorer.

//go:norace
func (s *session) next() uint64 {
	s.rnd += 0x9e3779b97f4a7c15
	z := s.rnd
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// draw returns a number in [0, n); choice point while the depth is not used up
//
//go:norace
func (s *session) draw(n uint64) uint64 {
	if s.cfg.RandMode == 1 && s.draws > s.cfg.RandFrom && s.randUsed < s.cfg.RandDepth && n <= 64 {
		s.randUsed++
		return uint64(s.choose('r', int(n), 0))
	}
	return s.next() % n
}

//go:norace
func randSession() *session {
	s := active
	if s == nil || s.cur == nil || s.cur.kill {
		return nil
	}
	return s
}

//go:norace
func (s *session) countDraw() {
	s.draws++
	if s.draws > s.cfg.MaxDraws {
		panic("no end in sight after so many random numbers")
	}
}

//go:norace
func drawN(n uint64) (uint64, bool) {
	s := randSession()
	if s == nil {
		return 0, false
	}
	s.countDraw()
	return s.draw(n), true
}

//go:norace
func drawFloat() (float64, bool) {
	s := randSession()
	if s == nil {
		return 0, false
	}
	s.countDraw()
	if s.cfg.RandMode == 1 && s.draws > s.cfg.RandFrom && s.randUsed < s.cfg.RandDepth && len(s.cfg.RandFloats) > 0 {
		s.randUsed++
		return s.cfg.RandFloats[s.choose('r', len(s.cfg.RandFloats), 0)], true
	}
	if n := len(s.cfg.TailFloats); n > 0 {
		return s.cfg.TailFloats[s.draws%n], true
	}
	return float64(s.next()>>11) / (1 << 53), true
}

// Intn is rand.Intn
func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	if v, ok := drawN(uint64(n)); ok {
		return int(v)
	}
	return rand.Intn(n)
}

// Int31n is rand.Int31n
func Int31n(n int32) int32 { return int32(Intn(int(n))) }

// Int63n is rand.Int63n
func Int63n(n int64) int64 { return int64(Intn(int(n))) }

// Int is rand.Int
func Int() int {
	if v, ok := drawN(1 << 62); ok {
		return int(v)
	}
	return rand.Int()
}

// Int63 is rand.Int63
func Int63() int64 { return int64(Int()) }

// Int31 is rand.Int31
func Int31() int32 {
	if v, ok := drawN(1 << 31); ok {
		return int32(v)
	}
	return rand.Int31()
}

// Uint32 is rand.Uint32
func Uint32() uint32 { return uint32(Int63() >> 31) }

// Uint64 is rand.Uint64
func Uint64() uint64 { return uint64(Int63())>>31 | uint64(Int63())<<32 }

// Float64 is rand.Float64
func Float64() float64 {
	if v, ok := drawFloat(); ok {
		return v
	}
	return rand.Float64()
}

// Float32 is rand.Float32
func Float32() float32 { return float32(Float64()) }

// NormFloat64 is rand.NormFloat64
func NormFloat64() float64 {
	if randSession() == nil {
		return rand.NormFloat64()
	}
	v := 0.0
	for i := 0; i < 12; i++ {
		v += Float64()
	}
	return v - 6
}

// ExpFloat64 is rand.ExpFloat64
func ExpFloat64() float64 {
	if randSession() == nil {
		return rand.ExpFloat64()
	}
	return Float64() * 2
}

// Perm is rand.Perm
func Perm(n int) []int {
	if randSession() == nil {
		return rand.Perm(n)
	}
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}

// Shuffle is rand.Shuffle
func Shuffle(n int, swap func(i, j int)) {
	if randSession() == nil {
		rand.Shuffle(n, swap)
		return
	}
	if n < 0 {
		panic("invalid argument to Shuffle")
	}
	for i := n - 1; i > 0; i-- {
		// pick 0 leaves the element in place
		d, _ := drawN(uint64(i + 1))
		swap(i, i-int(d))
	}
}

// Seed is rand.Seed
func Seed(seed int64) {
	if randSession() == nil {
		rand.Seed(seed)
	}
}

type fixedSource struct{ x uint64 }

func (f *fixedSource) Seed(int64) {}
func (f *fixedSource) Int63() int64 {
	f.x += 0x9e3779b97f4a7c15
	z := f.x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return int64((z ^ (z >> 31)) >> 1)
}

// NewSource is rand.NewSource; in a session the seed is not used, because it
// may come from the clock
func NewSource(seed int64) rand.Source {
	s := randSession()
	if s == nil {
		return rand.NewSource(seed)
	}
	return &fixedSource{s.next()}
}
