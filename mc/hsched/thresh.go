//go:build go1.22

package main

import (
	"fmt"
	"math"
	"sort"

	fs "github.com/davidkleiven/goselect/featselect"
	vc "github.com/davidkleiven/goselect/verifcommon"
	vs "github.com/davidkleiven/goselect/verifsched"
	"gonum.org/v1/gonum/mat"
)

func init() {
	props["T01"] = t01
}

// refCov is the covariance of the columns
func refCov(m *vc.Mat) *vc.Mat {
	r := vc.NewMat(m.C, m.C)
	mu := make([]float64, m.C)
	for j := range mu {
		mu[j] = vc.RefMean(m.Col(j))
	}
	for a := 0; a < m.C; a++ {
		for b := 0; b < m.C; b++ {
			s := 0.0
			for i := 0; i < m.R; i++ {
				s += (m.At(i, a) - mu[a]) * (m.At(i, b) - mu[b])
			}
			r.Set(a, b, s/float64(m.R))
		}
	}
	return r
}

// grid is one threshold search
type grid struct {
	x       *vc.Mat
	name    string
	samples int
	step    float64
	means   map[uint64][]float64
	seen    *vc.Ctx
	box     *vc.Box // of the matrix; nil: a new one
}

func (g *grid) String() string {
	return fmt.Sprintf("%s X=%v, %d samples, step %g", g.name, g.x, g.samples, g.step)
}

func (g *grid) size() int { return int(9 / g.step) }

func (g *grid) threshold(j int) float64 { return math.Exp(-10 + float64(j)*g.step) }

// ref computes the mean distance of each grid point for the splits that the
// random numbers of this seed give
func (g *grid) ref(seed uint64) []float64 {
	if m := g.means[seed]; m != nil {
		return m
	}
	n1 := int(float64(g.x.R) * (1 - 1/math.Log(float64(g.x.R))))
	mean := make([]float64, g.size())
	bad := ""
	e := vs.Run(vs.Config{RandSeed: seed}, nil, func() {
		for s := 0; s < g.samples; s++ {
			a, b := fs.RandomRowSplit(g.x.Dense(), n1)
			ma, mb := vc.FromDense(a), vc.FromDense(b)
			if m := partition(g.x, ma, mb, n1); m != "" {
				bad = m
				return
			}
			ca, cb := refCov(ma), refCov(mb)
			for j := range mean {
				t := g.threshold(j)
				sq := 0.0
				for i := range ca.D {
					v := ca.D[i]
					if math.Abs(v) < t {
						v = 0
					}
					sq += (v - cb.D[i]) * (v - cb.D[i])
				}
				mean[j] += math.Sqrt(sq) / float64(g.samples)
			}
		}
	})
	if m := finished(e); m != "" {
		bad = m
	}
	if bad != "" {
		panic(bad)
	}
	if g.means == nil {
		g.means = map[uint64][]float64{}
	}
	g.means[seed] = mean
	return mean
}

// partition tells if a and b are not the rows of x
func partition(x, a, b *vc.Mat, n1 int) string {
	if a.R != n1 || b.R != x.R-n1 || a.C != x.C || b.C != x.C {
		return fmt.Sprintf("%dx%d and %dx%d elements of %dx%d, %d rows", a.R, a.C, b.R, b.C, x.R, x.C, n1)
	}
	used := make([]bool, x.R)
	for _, m := range []*vc.Mat{a, b} {
		for i := 0; i < m.R; i++ {
			found := false
			for k := 0; k < x.R && !found; k++ {
				if !used[k] && vc.SameBits(m.D[i*m.C:(i+1)*m.C], x.D[k*x.C:(k+1)*x.C]) {
					used[k] = true
					found = true
				}
			}
			if !found {
				return fmt.Sprintf("row %v is none of the remaining rows of %v", m.D[i*m.C:(i+1)*m.C], x)
			}
		}
	}
	return ""
}

// chosen finds the threshold of an operator: -1 if it is none of the grid
func (g *grid) chosen(op *fs.ThresholdOperator) (int, string) {
	n := g.size()
	p := mat.NewDense(2*n, 2, nil)
	for j := 0; j < n; j++ {
		t := g.threshold(j)
		p.Set(2*j, 0, t*(1-1e-9))
		p.Set(2*j+1, 0, t*(1+1e-9))
		p.Set(2*j, 1, -t*(1-1e-9))
		p.Set(2*j+1, 1, -t*(1+1e-9))
	}
	orig := vc.FromDense(p)
	op.Apply(p)
	for k := 0; k < 2*n; k++ {
		for s := 0; s < 2; s++ {
			if v := p.At(k, s); v != 0 && v != orig.At(k, s) {
				return -1, fmt.Sprintf("%g becomes %g", orig.At(k, s), v)
			}
		}
		if (p.At(k, 0) == 0) != (p.At(k, 1) == 0) {
			return -1, fmt.Sprintf("%g becomes %g but %g becomes %g", orig.At(k, 0), p.At(k, 0), orig.At(k, 1), p.At(k, 1))
		}
		if k > 0 && p.At(k-1, 0) != 0 && p.At(k, 0) == 0 {
			return -1, fmt.Sprintf("%g is kept but the larger %g is not", orig.At(k-1, 0), orig.At(k, 0))
		}
	}
	for j := 0; j < n; j++ {
		if p.At(2*j, 0) == 0 && p.At(2*j+1, 0) != 0 {
			return j, ""
		}
	}
	return -1, "the threshold is not on the grid"
}

func (g *grid) check(seed uint64, op *fs.ThresholdOperator) string {
	if op == nil {
		return "no threshold"
	}
	j, m := g.chosen(op)
	if m != "" {
		return m
	}
	mean := g.ref(seed)
	best := 0
	for k := range mean {
		if mean[k] < mean[best] {
			best = k
		}
	}
	if mean[j] > mean[best]+1e-9*(1e-3+mean[best]) {
		return fmt.Sprintf("grid point %d with mean distance %.9g was chosen, point %d has %.9g", j, mean[j], best, mean[best])
	}
	return ""
}

func (g *grid) scenario(seed uint64, polled bool) vs.Scenario {
	return func() (func(), func(*vs.Exec) string) {
		x := g.x.Dense()
		if g.box != nil {
			x, _ = g.box.Fill(&vc.Data{X: g.x})
		}
		var op *fs.ThresholdOperator
		return func() { op = fs.L2ConsistentCovTO(x, g.samples, 1.0, g.step) }, func(e *vs.Exec) string {
			if m := finished(e); m != "" {
				return m
			}
			if m := noLeak(e); m != "" {
				return m
			}
			if !vc.SameBits(vc.FromDense(x).D, g.x.D) {
				return "the matrix was modified"
			}
			if polled {
				return g.check(seed, op)
			}
			j, _ := g.chosen(op)
			if c := g.seen; c != nil {
				c.Seen(fmt.Sprintf("%d of %d grid points", j, g.size()))
			}
			return g.check(seed, op)
		}
	}
}

// covData has covariances in the range of the grid
func covData(kind, n, p int, seed uint64) *vc.Mat {
	d := vc.Structured(kind, n, p, seed+900)
	m := d.X
	s := []float64{1, 0.4, 0.1, 0.03}[seed%4]
	if kind == vc.KindScaled {
		s *= 0.01
	}
	for i := range m.D {
		m.D[i] *= s
	}
	return m
}

func t01(c *vc.Ctx) {
	kinds := []int{vc.KindRandom, vc.KindSparse, vc.KindCorrelated, vc.KindDuplicate, vc.KindBias, vc.KindTies, vc.KindScaled, vc.KindZero}

	c.Group("schedules")
	c.Bound("all executions with at most 2 deviations (1 for 9 grid points or more, thorough: 2), the ticker may fire at any time")
	for i, t := range []struct {
		n, p, samples int
		step          float64
	}{{5, 2, 2, 3}, {6, 3, 3, 4.5}, {4, 2, 2, 9}, {8, 3, 2, 2}, {6, 2, 2, 1}, {7, 3, 2, 0.75}, {9, 2, 2, 0.6}, {5, 3, 1, 3}} {
		g := &grid{x: covData(kinds[i%3], t.n, t.p, uint64(i)), samples: t.samples, step: t.step, name: vc.KindNames[kinds[i%3]]}
		bound := 2
		if g.size() >= 9 {
			bound = c.Pick(1, 2)
		}
		pol := i % 5
		seed := uint64(i) + 7
		explore(c, fmt.Sprintf("%s-%dx%d-step%g/%s", g.name, t.n, t.p, t.step, policyNames[pol]), g.String,
			vs.Config{Policy: pol, EnvTicks: true, RandSeed: seed}, bound, float64(c.Pick(3, 40)), g.scenario(seed, true))
	}

	c.Group("splits")
	c.Bound("all outcomes of the shuffle of 2 to %d rows, every number of rows in the first part", c.Pick(6, 7))
	for n := 2; n <= c.Pick(6, 7); n++ {
		for num := 1; num < n; num++ {
			x := vc.Structured(vc.KindRandom, n, 2, uint64(n)).X
			explore(c, fmt.Sprintf("%d-%d", n, num), func() string { return fmt.Sprintf("X=%v, %d rows", x, num) },
				vs.Config{RandMode: 1, RandDepth: 40}, 0, 10, func() (func(), func(*vs.Exec) string) {
					d := x.Dense()
					var a, b *mat.Dense
					return func() { a, b = fs.RandomRowSplit(d, num) }, func(e *vs.Exec) string {
						if m := finished(e); m != "" {
							return m
						}
						if !vc.SameBits(vc.FromDense(d).D, x.D) {
							return "the matrix was modified"
						}
						return partition(x, vc.FromDense(a), vc.FromDense(b), num)
					}
				})
		}
	}

	c.Group("every split occurs")
	c.Bound("2 to 5 rows, every number of rows in the first part, the first, second and third split of %d streams of random numbers: every set of rows", streams)
	for n := 2; n <= 5; n++ {
		for num := 1; num < n; num++ {
			for call := 0; call < 3; call++ {
				c.Case(fmt.Sprintf("%d-%d-%d", n, num, call), func() {
					x := vc.NewMat(n, 1)
					for i := range x.D {
						x.D[i] = float64(i)
					}
					c.Input(func() string { return fmt.Sprintf("%d rows, %d in the first part, split number %d", n, num, call) })
					allReached(c, subsets(n, num), func() string {
						var a *mat.Dense
						for k := 0; k <= call; k++ {
							a, _ = fs.RandomRowSplit(x.Dense(), num)
						}
						rows := []int{}
						for _, v := range vc.FromDense(a).D {
							rows = append(rows, int(v))
						}
						return fmt.Sprint(vc.SortedInts(rows))
					})
				})
			}
		}
	}

	c.Group("large splits")
	c.Bound("7 to 700 rows, first parts of 1 row up to all rows but one, 3 seeds")
	for _, n := range []int{7, 20, 63, 64, 65, 66, 100, 129, 130, 257, 258, 400, 700} {
		for _, num := range []int{1, 2, n / 4, n / 2, n - n/4, n - 2, n - 1} {
			for seed := uint64(1); seed <= 3; seed++ {
				c.Case(fmt.Sprintf("%d-%d-%d", n, num, seed), func() {
					x := vc.Structured(vc.KindRandom, n, 1+int(seed), uint64(n)).X
					c.Input(func() string { return fmt.Sprintf("%d rows, %d in the first part, seed %d", n, num, seed) })
					d := x.Dense()
					var a, b *mat.Dense
					e := vs.Run(vs.Config{RandSeed: seed}, nil, func() { a, b = fs.RandomRowSplit(d, num) })
					c.Exec(1)
					c.State(1)
					c.Step(n)
					m := finished(e)
					c.Check(m == "", "%s", m)
					c.Check(vc.SameBits(vc.FromDense(d).D, x.D), "the matrix was modified")
					m = partition(x, vc.FromDense(a), vc.FromDense(b), num)
					c.Check(m == "", "%s", m)
				})
			}
		}
	}

	c.Group("numbers of rows")
	c.Bound("4 to %d rows, 90 grid points, 2 seeds: the sizes of the parts follow the formula for each number of rows", c.Pick(150, 500))
	for n := 4; n <= c.Pick(150, 500); n++ {
		for seed := uint64(1); seed <= 2; seed++ {
			c.Case(fmt.Sprintf("%d-%d", n, seed), func() {
				g := &grid{x: covData(kinds[seed-1], n, 3, seed), samples: 1, step: 0.1, name: vc.KindNames[kinds[seed-1]]}
				c.Input(func() string { return fmt.Sprintf("%d rows, dataset %s, seed %d", n, g.name, seed) })
				one(c, vs.Config{Policy: n % 5, RandSeed: seed}, g.scenario(seed, false))
			})
		}
	}

	c.Group("large searches")
	c.Bound("one execution per dataset of 130 to 600 rows and grid")
	for i, n := range []int{130, 260, 600} {
		for _, step := range []float64{1, 4.5} {
			c.Case(fmt.Sprintf("%d-step%g", n, step), func() {
				g := &grid{x: covData(vc.KindRandom, n, 2+i, uint64(n)), samples: 2, step: step, name: "random", seen: c}
				c.Input(g.String)
				one(c, vs.Config{Policy: i, RandSeed: uint64(n)}, g.scenario(uint64(n), false))
			})
		}
	}

	c.Group("searches")
	c.Bound("one execution per dataset, grid and seed")
	i := 0
	for _, kind := range kinds {
		for _, n := range []int{4, 7, 12, 20} {
			for _, p := range []int{1, 2, 5} {
				if kind == vc.KindDuplicate && p < 2 {
					continue
				}
				for _, step := range []float64{0.25, 0.5, 0.9, 1, 1.3, 3, 4.5, 9} {
					for seed := uint64(0); seed < uint64(c.Pick(4, 24)); seed++ {
						i++
						samples := []int{1, 2, 5, 9}[i%4]
						pol := i / 3 % 5
						c.Case(fmt.Sprintf("%s-%dx%d-step%g-samples%d-%d/%s", vc.KindNames[kind], n, p, step, samples, seed, policyNames[pol]), func() {
							g := &grid{x: covData(kind, n, p, seed), samples: samples, step: step, name: vc.KindNames[kind], seen: c}
							c.Input(g.String)
							one(c, vs.Config{Policy: pol, RandSeed: seed}, g.scenario(seed, false))
						})
					}
				}
			}
		}
	}

	c.Group("covariances")
	c.Bound("structured matrices")
	for _, kind := range kinds {
		for n := 1; n <= 9; n++ {
			for p := 1; p <= 5; p++ {
				if kind == vc.KindDuplicate && p < 2 {
					continue
				}
				c.Case(fmt.Sprintf("%s-%dx%d", vc.KindNames[kind], n, p), func() {
					m := covData(kind, n, p, 4)
					c.Input(func() string { return fmt.Sprintf("X=%v", m) })
					x := m.Dense()
					same := func(what string, got mat.Matrix, want func(a, b int) float64) {
						r, k := got.Dims()
						c.Check(r == p && k == p, "%s is %dx%d", what, r, k)
						for a := 0; a < p; a++ {
							for b := 0; b < p; b++ {
								c.Check(vc.Close(got.At(a, b), want(a, b), 1e-10), "%s: element %d %d is %g instead of %g", what, a, b, got.At(a, b), want(a, b))
							}
						}
						c.Step(1)
					}
					cov := refCov(m)
					same("CovarianceMatrix", fs.CovarianceMatrix(x), cov.At)
					prod := func(a, b int) float64 { return vc.Dot(m.Col(a), m.Col(b)) / float64(n) }
					same("Empirical", (&fs.Empirical{}).Get(x), prod)
					same("Identity", (&fs.Identity{}).Get(x), func(a, b int) float64 {
						if a == b {
							return 1
						}
						return 0
					})
					c.Check(vc.SameBits(vc.FromDense(x).D, m.D), "the matrix was modified")
					c.State(1)
					c.Exec(1)
				})
			}
		}
	}

	c.Group("sparse approximation")
	c.Bound("the search with 1000 samples, applied to its matrix and to another one")
	for k := 0; k < c.Pick(3, 8); k++ {
		c.Case(fmt.Sprint(k), func() {
			m := covData(kinds[k%len(kinds)], 6+k, 2+k%3, uint64(k))
			g := &grid{x: m, samples: 1000, step: 1, name: vc.KindNames[kinds[k%len(kinds)]]}
			c.Input(g.String)
			seed := uint64(k) + 40
			one(c, vs.Config{RandSeed: seed, Policy: k % 5, MaxSteps: 4000000}, func() (func(), func(*vs.Exec) string) {
				x := m.Dense()
				var sp *fs.SparseThresholded
				return func() { sp = fs.NewSparseThreshold(x) }, func(e *vs.Exec) string {
					if m := finished(e); m != "" {
						return m
					}
					if m := noLeak(e); m != "" {
						return m
					}
					// the matrix with its small elements removed, for a best grid point
					mean := g.ref(seed)
					best := 0
					for j := range mean {
						if mean[j] < mean[best] {
							best = j
						}
					}
					got := vc.FromDense(sp.Get(x))
					again := vc.FromDense(sp.Get(m.Dense()))
					ok := false
					for j := range mean {
						if mean[j] > mean[best]+1e-9*(1e-3+mean[best]) {
							continue
						}
						same := true
						for a := 0; a < m.C; a++ {
							for b := 0; b < m.C; b++ {
								v := vc.Dot(m.Col(a), m.Col(b)) / float64(m.R)
								if math.Abs(v) < g.threshold(j) {
									v = 0
								}
								same = same && vc.Close(v, got.At(a, b), 1e-10) && vc.Close(v, again.At(a, b), 1e-10)
							}
						}
						ok = ok || same
					}
					if !ok {
						return fmt.Sprintf("the sparse covariance %v is not the thresholded one (threshold %g)", got, g.threshold(best))
					}
					other := m.Dense()
					other.Set(0, 0, other.At(0, 0)+1)
					if !panics(func() { sp.Get(other) }) {
						return "no panic for another matrix"
					}
					return ""
				}
			})
		})
	}

	c.Group("apply")
	c.Bound("every 2x2 matrix out of 7 values around the threshold, the thresholds that 40 searches choose")
	c.Case("all", func() {
		// find an operator for each grid point by searching small matrices
		ops := map[int]*fs.ThresholdOperator{}
		for seed := uint64(0); seed < 40; seed++ {
			g := &grid{x: vc.Structured(vc.KindRandom, 16, 5, seed).X, samples: 5, step: 0.5}
			for i := range g.x.D {
				g.x.D[i] *= math.Exp(-float64(seed%12) / 3)
			}
			vs.Run(vs.Config{RandSeed: seed}, nil, func() {
				op := fs.L2ConsistentCovTO(g.x.Dense(), g.samples, 1, g.step)
				if j, _ := g.chosen(op); j >= 0 {
					ops[j] = op
				}
			})
		}
		c.Seen(fmt.Sprintf("%d thresholds", len(ops)))
		for j := 0; j < 18; j++ {
			op := ops[j]
			if op == nil {
				continue
			}
			t := math.Exp(-10 + 0.5*float64(j))
			vals := []float64{0, t * (1 - 1e-9), t * (1 + 1e-9), -t * (1 - 1e-9), -t * (1 + 1e-9), 5, -5}
			for k := 0; k < 7*7*7*7; k++ {
				m := vc.NewMat(2, 2)
				want := vc.NewMat(2, 2)
				x := k
				for i := range m.D {
					m.D[i] = vals[x%7]
					want.D[i] = m.D[i]
					if math.Abs(m.D[i]) < t {
						want.D[i] = 0
					}
					x /= 7
				}
				d := m.Dense()
				op.Apply(d)
				c.Input(func() string { return fmt.Sprintf("threshold %g, matrix %v", t, m) })
				got := vc.FromDense(d)
				for i := range got.D {
					c.Check(got.D[i] == want.D[i], "the matrix becomes %v", got)
				}
				c.State(1)
				c.Exec(1)
				c.Step(1)
			}
		}
	})
	histories(c, c.Pick(2, 3), 1, func(d *vc.Data, box *vc.Box, i int) vs.Scenario {
		g := &grid{x: vc.NewMat(d.X.R, d.X.C), samples: 2 + i%2, step: 0.5, name: d.Name, box: box}
		for k, v := range d.X.D {
			g.x.D[k] = v * []float64{1, 0.3, 0.1}[i%3]
		}
		return g.scenario(uint64(i), true)
	})
}

// panics tells if f panics
func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

const streams = 1500

// subsets of k out of n
func subsets(n, k int) map[string]bool {
	r := map[string]bool{}
	for m := 0; m < 1<<uint(n); m++ {
		if s := vc.SelOf(m, n); len(s) == k {
			r[fmt.Sprint(s)] = true
		}
	}
	return r
}

// allReached checks that f gives each of the results for one of the streams of
// random numbers
func allReached(c *vc.Ctx, all map[string]bool, f func() string) {
	n := len(all)
	for seed := uint64(1); seed <= streams && len(all) > 0; seed++ {
		r := ""
		e := vs.Run(vs.Config{RandSeed: seed}, nil, func() { r = f() })
		c.Exec(1)
		c.State(1)
		c.Step(1)
		if m := finished(e); m != "" {
			c.Fail("%s", m)
			return
		}
		delete(all, r)
	}
	left := []string{}
	for k := range all {
		left = append(left, k)
	}
	sort.Strings(left)
	c.Check(len(left) == 0, "%d of %d splits never occur with %d streams of random numbers: %v", len(left), n, streams, left)
}
