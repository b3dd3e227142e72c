//go:build go1.22

package main

import (
	"fmt"
	"math"
	"math/bits"

	fs "github.com/davidkleiven/goselect/featselect"
	vc "github.com/davidkleiven/goselect/verifcommon"
	"gonum.org/v1/gonum/mat"
)

func init() {
	props["F01"] = f01
	props["F02"] = f02
	props["F03"] = f03
	props["F04"] = f04
}

// smallMats calls f with every n x p matrix over the alphabet
func smallMats(alpha []float64, n, p int, f func(m *vc.Mat)) {
	sequences(len(alpha), n*p, func(s []int) {
		m := vc.NewMat(n, p)
		for i, v := range s {
			m.D[i] = alpha[v]
		}
		f(m)
	})
}

func rowsOf(m *vc.Mat) [][]float64 {
	r := make([][]float64, m.R)
	for i := range r {
		r[i] = vc.Clone(m.D[i*m.C : (i+1)*m.C])
	}
	return r
}

func colsOf(m *vc.Mat) [][]float64 {
	r := make([][]float64, m.C)
	for j := range r {
		r[j] = m.Col(j)
	}
	return r
}

func maxAbs(v []float64) float64 {
	m := 0.0
	for _, x := range v {
		m = math.Max(m, math.Abs(x))
	}
	return m
}

// checkFit tells what is wrong with a least squares fit
func checkFit(m *vc.Mat, y, b []float64, tol float64) string {
	if len(b) != m.C {
		return fmt.Sprintf("%d coefficients for %d columns", len(b), m.C)
	}
	for _, v := range b {
		if math.IsNaN(v) || math.IsInf(v, 0) {
			return fmt.Sprintf("coefficients %v", b)
		}
	}
	r := vc.Clone(y)
	for i := range r {
		for j := range b {
			r[i] -= m.At(i, j) * b[j]
		}
	}
	for j := range b {
		c := m.Col(j)
		if d := vc.Dot(c, r); math.Abs(d) > tol*vc.Norm(c)*math.Max(vc.Norm(y), 1e-300) {
			return fmt.Sprintf("the residual is not orthogonal to column %d (%g), coefficients %v", j, d, b)
		}
	}
	// smallest norm: nothing of the coefficients is orthogonal to the rows
	out := vc.RefResidual(rowsOf(m), b)
	if n := vc.Norm(out); n > tol*vc.Norm(b) {
		return fmt.Sprintf("coefficients %v have a part %v that is orthogonal to all rows", b, out)
	}
	return ""
}

func matMul(a, b *vc.Mat) *vc.Mat {
	r := vc.NewMat(a.R, b.C)
	for i := 0; i < a.R; i++ {
		for j := 0; j < b.C; j++ {
			s := 0.0
			for k := 0; k < a.C; k++ {
				s += a.At(i, k) * b.At(k, j)
			}
			r.Set(i, j, s)
		}
	}
	return r
}

func transpose(a *vc.Mat) *vc.Mat {
	r := vc.NewMat(a.C, a.R)
	for i := 0; i < a.R; i++ {
		for j := 0; j < a.C; j++ {
			r.Set(j, i, a.At(i, j))
		}
	}
	return r
}

func matClose(a, b *vc.Mat, tol float64) bool {
	if a.R != b.R || a.C != b.C {
		return false
	}
	s := math.Max(maxAbs(a.D), maxAbs(b.D))
	for i := range a.D {
		if !(math.Abs(a.D[i]-b.D[i]) <= tol*s) {
			return false
		}
	}
	return true
}

// moorePenrose tells which condition of the pseudo inverse is broken
func moorePenrose(a, p *vc.Mat, tol float64) string {
	if p.R != a.C || p.C != a.R {
		return fmt.Sprintf("the inverse of a %dx%d matrix is %dx%d", a.R, a.C, p.R, p.C)
	}
	ap, pa := matMul(a, p), matMul(p, a)
	if !matClose(matMul(ap, a), a, tol) {
		return fmt.Sprintf("A P A = %v instead of A, P=%v", matMul(ap, a), p)
	}
	if !matClose(matMul(pa, p), p, tol) {
		return fmt.Sprintf("P A P = %v instead of P=%v", matMul(pa, p), p)
	}
	// rounding errors of the products grow with the condition number
	if t := tol + 1e-14*vc.Norm(a.D)*vc.Norm(p.D); !matClose(ap, transpose(ap), t) || !matClose(pa, transpose(pa), t) {
		return fmt.Sprintf("A P=%v or P A=%v is not symmetric", ap, pa)
	}
	return ""
}

func f01(c *vc.Ctx) {
	zero := func(m *vc.Mat) bool { return maxAbs(m.D) == 0 }
	one := func(m *vc.Mat, y []float64, tol float64) {
		c.Input(func() string { return fmt.Sprintf("X=%v y=%v", m, y) })
		x := m.Dense()
		yy := vc.Clone(y)
		b := fs.Fit(x, yy)
		c.Exec(1)
		c.Step(1)
		c.Check(vc.SameBits(vc.FromDense(x).D, m.D) && vc.SameBits(yy, y), "Fit changed its arguments")
		e := checkFit(m, y, b, tol)
		c.Check(e == "", "%s", e)
		if zero(m) {
			c.Check(maxAbs(b) == 0, "coefficients %v for a matrix of zeros", b)
		}
		// predictions, for these and other coefficients
		other := vc.Clone(b)
		for j := range other {
			other[j] += float64(j%3) - 1
		}
		for k, co := range [][]float64{b, other} {
			cc := vc.Clone(co)
			pred := fs.Predict(x, cc)
			rss := fs.Rss(x, cc, yy)
			want, slack := 0.0, 0.0
			c.Check(len(pred) == m.R, "%d predictions for %d rows", len(pred), m.R)
			for i := 0; i < m.R; i++ {
				p := vc.Dot(m.D[i*m.C:(i+1)*m.C], co)
				s := 0.0
				for j := range co {
					s += math.Abs(m.At(i, j) * co[j])
				}
				c.Check(math.Abs(pred[i]-p) <= 1e-12*s, "prediction %d is %g instead of %g", i, pred[i], p)
				p1 := fs.PredictOne(rowsOf(m)[i], cc)
				c.Check(math.Abs(p1-p) <= 1e-12*s, "PredictOne of row %d is %g instead of %g", i, p1, p)
				want += (p - y[i]) * (p - y[i])
				e := 1e-14 * (s + math.Abs(y[i])) // of a residual
				slack += 2*e*math.Abs(p-y[i]) + e*e
			}
			c.Check(math.Abs(rss-want) <= 1e-12*want+slack, "Rss is %g instead of %g", rss, want)
			c.Check(vc.SameBits(cc, co) && vc.SameBits(yy, y) && vc.SameBits(vc.FromDense(x).D, m.D), "Predict or Rss changed its arguments")
			if k == 0 {
				best := vc.RefRss(colsOf(m), y)
				c.Check(math.Abs(rss-best) <= 1e-9*vc.Dot(y, y)+1e-18, "Rss of the fit is %g but %g is possible", rss, best)
			}
		}
	}
	svd := func(m *vc.Mat, tol float64) {
		c.Input(func() string { return fmt.Sprintf("X=%v", m) })
		x := m.Dense()
		var s mat.SVD
		if !s.Factorize(x, mat.SVDThin) {
			panic("no SVD")
		}
		// singular values next to the cutoff may count as zero
		values := s.Values(nil)
		near := func(cutoff float64) bool {
			for _, v := range values {
				if v > 1e-9*values[0] && v < 3*cutoff {
					c.Seen("close to the cutoff")
					return true
				}
			}
			return false
		}
		if near(1e-6) {
			return
		}
		p := vc.FromDense(fs.PseudoInverse(&s, 1e-6))
		e := moorePenrose(m, p, tol)
		c.Check(e == "", "PseudoInverse: %s", e)
		if near(1e-3) {
			return
		}
		g := matMul(transpose(m), m)
		p2 := vc.FromDense(fs.PseudoInverseXTX(&s, 1e-6))
		e = moorePenrose(g, p2, tol)
		c.Check(e == "", "PseudoInverseXTX: %s", e)
		// the matrix for the cross validation score projects onto the columns
		h := vc.FromDense(fs.DenumMatrixGcv(x))
		c.Check(h.R == m.R && h.C == m.R, "DenumMatrixGcv is %dx%d for %d rows", h.R, h.C, m.R)
		for k := 0; k < m.R; k++ {
			u := make([]float64, m.R)
			u[k] = 1
			r := vc.RefResidual(colsOf(m), u)
			for i := range u {
				c.Check(math.Abs(h.At(i, k)-(u[i]-r[i])) < 1e-6, "DenumMatrixGcv(%d,%d) is %g instead of %g", i, k, h.At(i, k), u[i]-r[i])
			}
		}
		c.Check(vc.SameBits(vc.FromDense(x).D, m.D), "argument changed")
		c.Exec(3)
		c.Step(3)
	}

	c.Group("small")
	shapes := [][2]int{{1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}, {3, 2}, {1, 4}, {4, 1}, {2, 4}, {4, 2}, {3, 3}}
	if c.Thorough() {
		shapes = append(shapes, [2]int{5, 2}, [2]int{2, 5}, [2]int{3, 4}, [2]int{4, 3})
	}
	c.Bound("every matrix over {-1,0,1} with shapes %v, 4 targets", shapes)
	for _, sh := range shapes {
		n, p := sh[0], sh[1]
		alpha := []float64{0, 1, -1}
		if n*p > 10 {
			alpha = []float64{0, 1}
		}
		targets := [][]float64{{1, 2, 3, 5, 7}, {0, 0, 1, 0, 0}, {3, -1, 2, 0, -2}, {0, 0, 0, 0, 0}}
		for first := 0; first < 3; first++ {
			for second := 0; second < 3; second++ {
				c.Case(fmt.Sprintf("%dx%d-%d%d", n, p, first, second), func() {
					smallMats(alpha, n, p, func(m *vc.Mat) {
						if m.D[0] != alpha[first%len(alpha)] || first >= len(alpha) || second >= len(alpha) ||
							n*p > 1 && m.D[1] != alpha[second] || n*p == 1 && second > 0 {
							return
						}
						c.State(1)
						for _, y := range targets {
							one(m, y[:n], 1e-9)
						}
						svd(m, 1e-9)
					})
				})
			}
		}
	}

	c.Group("structured")
	c.Bound("structured datasets, 1 to 130 rows and 1 to 12 columns, 5 scales")
	for kind := 0; kind < vc.NumKinds; kind++ {
		for n := 1; n <= 130; n++ {
			if n > 12 && n%13 > 0 && n != 32 && n != 33 && n != 64 && n != 65 && n != 100 {
				continue
			}
			for p := 1; p <= 12; p++ {
				if n > 12 && (n+p)%4 > 0 {
					continue
				}
				if kind == vc.KindBig || kind == vc.KindScaled {
					if p > n {
						continue // close to the cutoff
					}
				}
				for seed := uint64(0); seed < uint64(c.Pick(8, 48)); seed++ {
					c.Case(fmt.Sprintf("%s-%d-%d-%d", vc.KindNames[kind], n, p, seed), func() {
						d := vc.Structured(kind, n, p, seed)
						c.State(1)
						one(d.X, d.Y, 1e-7)
						svd(d.X, 1e-6)
						for _, s := range []float64{1e-2, 10, 1e3, 1e5} {
							m := vc.NewMat(n, p)
							for i := range m.D {
								m.D[i] = d.X.D[i] * s
							}
							// keep all singular values above the cutoff or at zero
							var sv mat.SVD
							sv.Factorize(m.Dense(), mat.SVDNone)
							ok := true
							for _, v := range sv.Values(nil) {
								if v > 1e-9*s && v < 1e-4 || v <= 1e-9*s && v > 1e-7 {
									ok = false
								}
							}
							if ok {
								one(m, d.Y, 1e-7)
								c.State(1)
							}
						}
					})
				}
			}
		}
	}

	c.Group("large sizes")
	c.Bound("64 to 2049 rows with 1 to 4 columns, 30 to 130 columns with 20 to 140 rows")
	for _, sh := range [][2]int{{255, 2}, {256, 3}, {257, 1}, {300, 4}, {511, 2}, {513, 3}, {1023, 1}, {1025, 2}, {2049, 3},
		{80, 33}, {40, 32}, {20, 40}, {70, 64}, {90, 65}, {30, 70}, {140, 130}, {60, 129}} {
		for _, kind := range []int{vc.KindRandom, vc.KindSparse, vc.KindCorrelated, vc.KindBias} {
			c.Case(fmt.Sprintf("%s-%d-%d", vc.KindNames[kind], sh[0], sh[1]), func() {
				d := vc.Structured(kind, sh[0], sh[1], 7)
				c.State(1)
				one(d.X, d.Y, 1e-7)
				if sh[0] <= 90 && sh[1] <= 40 {
					svd(d.X, 1e-6)
				}
			})
		}
	}

	c.Group("scales")
	c.Bound("columns of magnitude 1e-4 to 1e4 next to each other, each order")
	for n := 4; n <= 7; n++ {
		for seed := uint64(0); seed < uint64(c.Pick(16, 120)); seed++ {
			c.Case(fmt.Sprintf("%d-%d", n, seed), func() {
				permutations([]int{0, 1, 2, 3}, func(o []int) {
					h := vc.NewHash(seed*131 + uint64(n))
					m := vc.NewMat(n, 3)
					for i := 0; i < n; i++ {
						for j := 0; j < 3; j++ {
							m.Set(i, j, h.F()*[]float64{1e-3, 1, 1e3, 30}[o[j]])
						}
					}
					if m.C > n {
						return
					}
					c.State(1)
					one(m, h.Vec(n), 1e-7)
				})
			})
		}
	}

	c.Group("scales of many rows")
	c.Bound("12 to 1100 rows and 1 to 12 columns, one column or all of them scaled by a factor of 1e-6 to 1e6, singular values at least five times the cutoff")
	for _, sh := range [][2]int{{12, 10}, {25, 4}, {40, 12}, {50, 1}, {51, 3}, {64, 2}, {99, 5}, {100, 2}, {101, 8}, {130, 12}, {256, 3}, {500, 2}, {1100, 4}} {
		for _, kind := range []int{vc.KindRandom, vc.KindSparse, vc.KindBias} {
			for _, f := range []float64{1e-6, 3e-6, 1e-5, 1e-4, 1e-3, 1e3, 1e6} {
				c.Case(fmt.Sprintf("%s-%d-%d-%g", vc.KindNames[kind], sh[0], sh[1], f), func() {
					for seed := uint64(0); seed < uint64(c.Pick(1, 6)); seed++ {
						for _, which := range []int{-1, 0, sh[1] - 1} {
							d := vc.Structured(kind, sh[0], sh[1], 60+seed)
							for i := 0; i < d.X.R; i++ {
								for j := 0; j < d.X.C; j++ {
									if which < 0 || which == j {
										d.X.Set(i, j, d.X.At(i, j)*f)
									}
								}
							}
							var sv mat.SVD
							sv.Factorize(d.X.Dense(), mat.SVDNone)
							v := sv.Values(nil)
							if last := v[len(v)-1]; last < 5e-6 || last < 1e-8*v[0] {
								c.Seen("close to the cutoff")
								continue
							}
							c.State(1)
							one(d.X, d.Y, 1e-6)
						}
					}
				})
			}
		}
	}

	c.Group("orthogonal columns")
	c.Bound("4 and 8 orthogonal columns with every assignment of 4 out of 7 scales from 1e-4 to 1e7; every coefficient is the projection on its column")
	scales := []float64{1, 1e-4, 1e4, 1e7, 0.02, 50, 1e5}
	for a := range scales {
		for b := range scales {
			c.Case(fmt.Sprintf("%d-%d", a, b), func() {
				for cc := range scales {
					for dd := range scales {
						for _, n := range []int{4, 8} {
							m := vc.NewMat(n, n)
							sc := []float64{scales[a], scales[b], scales[cc], scales[dd]}
							for i := 0; i < n; i++ {
								for j := 0; j < n; j++ {
									m.Set(i, j, sc[j%4]*(1-2*float64(bits.OnesCount(uint(i&j))&1)))
								}
							}
							y := vc.NewHash(uint64(a*7 + b)).Vec(n)
							c.Input(func() string { return fmt.Sprintf("%d orthogonal columns with scales %v, y=%v", n, sc, y) })
							got := fs.Fit(m.Dense(), vc.Clone(y))
							c.Check(len(got) == n, "%d coefficients", len(got))
							for j := range got {
								s := sc[j%4]
								w := vc.Dot(m.Col(j), y) / (float64(n) * s * s)
								c.Check(math.Abs(got[j]-w) <= 1e-4*maxAbs(y)/s, "coefficient %d is %g instead of %g", j, got[j], w)
							}
							c.Exec(1)
							c.Step(1)
							c.State(1)
						}
					}
				}
			})
		}
	}

	c.Group("mismatch")
	c.Bound("1 to 4 rows against 0 to 6 targets")
	c.Case("all", func() {
		for n := 1; n <= 4; n++ {
			for p := 1; p <= 3; p++ {
				for k := 1; k <= 6; k++ {
					m := vc.Structured(vc.KindRandom, n, p, 1).X
					x := m.Dense()
					y := vc.NewHash(5).Vec(k)
					c.Input(func() string { return fmt.Sprintf("%dx%d matrix, %d targets", n, p, k) })
					c.Check(panics(func() { fs.Fit(x, y) }) == (k != n), "Fit of %d targets to %d rows: panic %v", k, n, k == n)
					c.Check(panics(func() { fs.Rss(x, make([]float64, p), y) }) == (k != n), "Rss of %d targets for %d rows: panic %v", k, n, k == n)
					c.Exec(2)
					c.Step(2)
					c.State(1)
				}
			}
		}
	})
	histories(c, histData(), histF01)
}

// checkOmp replays a pursuit and tells what is wrong with it
func checkOmp(d *vc.Data, tol float64, res *fs.OmpResult) string {
	p := d.X.C
	if len(res.Coeff) != p {
		return fmt.Sprintf("%d coefficients for %d features", len(res.Coeff), p)
	}
	seen := map[int]bool{}
	cols := colsOf(d.X)
	var sel [][]float64
	r := vc.Clone(d.Y)
	ny := vc.Norm(d.Y)
	rms := func() float64 { return vc.Norm(r) / math.Sqrt(float64(len(r))) }
	noise := func() bool { return vc.Norm(r) <= 1e-7*ny }
	for k, v := range res.Order {
		if v < 0 || v >= p || seen[v] {
			return fmt.Sprintf("order %v", res.Order)
		}
		if k > 0 && rms() < tol*(1-1e-9) && !(math.Abs(rms()-tol) <= 1e-9*ny) {
			return fmt.Sprintf("feature %d was added although the residual %g was below %g (order %v)", v, rms(), tol, res.Order)
		}
		if !noise() {
			best, corr := 0.0, 0.0
			for j := range cols {
				n := vc.Norm(cols[j])
				if n == 0 {
					continue
				}
				a := math.Abs(vc.Dot(cols[j], r)) / n
				best = math.Max(best, a)
				if j == v {
					corr = a
				}
			}
			if best > 1e-7*ny && corr < best-1e-7*ny {
				return fmt.Sprintf("step %d adds feature %d with correlation %g, another one has %g (order %v)", k, v, corr, best, res.Order)
			}
		}
		seen[v] = true
		sel = append(sel, cols[v])
		r = vc.RefResidual(sel, d.Y)
	}
	if len(res.Order) == 0 {
		return "nothing selected"
	}
	// why did it stop?
	if len(res.Order) < p && rms() > tol+1e-9*ny {
		for j := range cols {
			n := vc.Norm(cols[j])
			if !seen[j] && n > 0 && math.Abs(vc.Dot(cols[j], r))/n > 1e-7*ny {
				return fmt.Sprintf("stopped with residual %g after %v although feature %d is correlated (tolerance %g)", rms(), res.Order, j, tol)
			}
		}
	}
	for j, v := range res.Coeff {
		if !seen[j] && v != 0 {
			return fmt.Sprintf("feature %d is not selected but has coefficient %g (order %v)", j, v, res.Order)
		}
	}
	srt := vc.SortedInts(res.Order)
	m := vc.NewMat(d.X.R, len(srt))
	b := make([]float64, len(srt))
	for k, j := range srt {
		b[k] = res.Coeff[j]
		for i := 0; i < m.R; i++ {
			m.Set(i, k, d.X.At(i, j))
		}
	}
	if e := checkFit(m, d.Y, b, 1e-6); e != "" {
		return fmt.Sprintf("order %v: %s", res.Order, e)
	}
	return ""
}

func f02(c *vc.Ctx) {
	one := func(d *vc.Data, tol float64) {
		c.Input(func() string { return fmt.Sprintf("%v tol=%g", d, tol) })
		x := d.X.Dense()
		y := vc.Clone(d.Y)
		res := fs.Omp(x, y, tol)
		c.Exec(1)
		c.Step(len(res.Order))
		c.State(1)
		e := checkOmp(d, tol, res)
		c.Check(e == "", "%s", e)
		c.Check(vc.SameBits(vc.FromDense(x).D, d.X.D) && vc.SameBits(y, d.Y), "Omp changed its arguments")
		c.Seen(fmt.Sprintf("%d of %d features", len(res.Order), d.X.C))
	}
	c.Group("small")
	pmax := c.Pick(3, 4)
	c.Bound("every choice of 1 to %d out of 8 columns with 4 rows, 6 targets, 3 tolerances", pmax)
	for p := 1; p <= pmax; p++ {
		for first := 0; first < len(vc.Columns4); first++ {
			for tg := range vc.Targets4 {
				c.Case(fmt.Sprintf("%d-%d-%d", p, first, tg), func() {
					vc.SmallData(vc.Columns4, vc.Targets4[tg:tg+1], p, func(d *vc.Data) {
						for i := 0; i < 4; i++ {
							if d.X.At(i, 0) != vc.Columns4[first][i] {
								return
							}
						}
						for _, tol := range []float64{1e-8, 0.3, 1} {
							one(d, tol)
						}
					})
				})
			}
		}
	}
	c.Group("structured")
	c.Bound("structured datasets, 2 to 110 rows and 1 to 10 columns, 5 tolerances")
	for kind := 0; kind < vc.NumKinds; kind++ {
		for _, n := range []int{2, 3, 5, 8, 12, 40, 110} {
			for p := 1; p <= 10; p++ {
				for seed := uint64(0); seed < uint64(c.Pick(8, 64)); seed++ {
					c.Case(fmt.Sprintf("%s-%d-%d-%d", vc.KindNames[kind], n, p, seed), func() {
						d := vc.Structured(kind, n, p, seed)
						s := vc.Norm(d.Y) / math.Sqrt(float64(n))
						for _, t := range []float64{1e-7, 0.01, 0.2, 0.5, 2} {
							one(d, t*s)
						}
					})
				}
			}
		}
	}
	c.Group("large sizes")
	c.Bound("255 to 1100 rows with 2 to 5 columns, 33 to 130 columns with 20 to 150 rows, 4 tolerances")
	for _, sh := range [][2]int{{255, 3}, {257, 5}, {513, 4}, {1025, 2}, {1100, 3}, {80, 33}, {20, 40}, {90, 65}, {150, 70}, {40, 130}} {
		for _, kind := range []int{vc.KindRandom, vc.KindSparse, vc.KindCorrelated} {
			c.Case(fmt.Sprintf("%s-%d-%d", vc.KindNames[kind], sh[0], sh[1]), func() {
				d := vc.Structured(kind, sh[0], sh[1], 7)
				s := vc.Norm(d.Y) / math.Sqrt(float64(sh[0]))
				for _, t := range []float64{0.01, 0.2, 0.5, 2} {
					one(d, t*s)
				}
			})
		}
	}
	c.Group("tolerance at the residual")
	c.Bound("unit columns in every order of the rows used, targets whose residual is exactly the tolerance after one step, and tolerances next to it")
	for _, t := range []struct {
		y   []float64
		tol float64
	}{{[]float64{8, 2, 0, 0}, 1}, {[]float64{8, 2, 2, 2, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, 1}, {[]float64{-64, 3, 0, 0}, 1.5}, {[]float64{32, 0, -0.5, 0}, 0.25}} {
		n := len(t.y)
		for perm := 0; perm < 24; perm++ {
			c.Case(fmt.Sprintf("n%d-tol%g-%d", n, t.tol, perm), func() {
				// the perm-th order of the first four rows, as columns
				rows, rest := []int{}, []int{0, 1, 2, 3}
				for q, f := perm, 4; f > 0; f-- {
					rows = append(rows, rest[q%f])
					rest = append(rest[:q%f:q%f], rest[q%f+1:]...)
					q /= f
				}
				d := &vc.Data{Name: "units", X: vc.NewMat(n, 4), Y: t.y}
				for j, i := range rows {
					d.X.Set(i, j, 1)
				}
				// only where the fit is exact
				first := vc.NewMat(n, 1)
				first.Set(0, 0, 1)
				ref := fs.Fit(first.Dense(), vc.Clone(t.y))
				if ref[0] != t.y[0] {
					c.Seen("not exact")
					return
				}
				for _, tol := range []float64{t.tol * (1 - 1e-7), t.tol * (1 - 1e-11), t.tol, t.tol * (1 + 1e-11), t.tol * (1 + 1e-7)} {
					one(d, tol)
					k := len(fs.Omp(d.X.Dense(), vc.Clone(d.Y), tol).Order)
					if tol > t.tol {
						c.Check(k == 1, "%d features are selected although the residual %g after the first one is below the tolerance %.15g", k, t.tol, tol)
					} else {
						c.Check(k > 1, "%d features are selected although the residual %g after the first one is not below the tolerance %.15g", k, t.tol, tol)
					}
				}
			})
		}
	}
	c.Group("scales")
	c.Bound("structured datasets with one column or all columns scaled by a factor of 1e-5 to 1e4, 3 tolerances")
	for seed := uint64(0); seed < uint64(c.Pick(12, 80)); seed++ {
		for _, f := range []float64{1e-5, 1e-4, 1e-2, 100, 1e4} {
			for which := -1; which < 3; which++ {
				c.Case(fmt.Sprintf("%g-column%d-%d", f, which, seed), func() {
					for _, kind := range []int{vc.KindRandom, vc.KindSparse} {
						d := vc.Structured(kind, 8, 3, seed+40)
						for i := 0; i < d.X.R; i++ {
							for j := 0; j < 3; j++ {
								if which < 0 || which == j {
									d.X.Set(i, j, d.X.At(i, j)*f)
								}
							}
						}
						s := vc.Norm(d.Y) / math.Sqrt(8)
						for _, t := range []float64{1e-7, 0.2, 0.5} {
							one(d, t*s)
						}
					}
				})
			}
		}
	}
	histories(c, histData(), histF02)
}

// monomials lists the exponents of total degree lo to hi over p variables
func monomials(p, lo, hi int) map[string][]int {
	res := map[string][]int{}
	var rec func(e []int, left int)
	rec = func(e []int, left int) {
		if len(e) == p {
			if s := hi - left; s >= lo {
				res[fmt.Sprint(e)] = append([]int{}, e...)
			}
			return
		}
		for k := 0; k <= left; k++ {
			rec(append(append([]int{}, e...), k), left-k)
		}
	}
	rec(nil, hi)
	return res
}

func f03(c *vc.Ctx) {
	// primes: the value of a column tells its exponents
	primes := []float64{2, 3, 5, 7, 11, 13}
	c.Group("sequences")
	pm, dm := c.Pick(4, 5), c.Pick(4, 5)
	c.Bound("1 to %d columns, maximum powers 0 to %d", pm, dm)
	match := func(m *vc.Mat, cols map[string][]int, got [][]float64) string {
		used := map[string]bool{}
		for k, g := range got {
			found := false
			for name, e := range cols {
				if used[name] {
					continue
				}
				ok := true
				for i := 0; i < m.R && ok; i++ {
					v := 1.0
					for j, x := range e {
						for t := 0; t < x; t++ {
							v *= m.At(i, j)
						}
					}
					ok = vc.Close(v, g[i], 1e-12)
				}
				if ok {
					used[name] = true
					found = true
					break
				}
			}
			if !found {
				return fmt.Sprintf("column %d with values %v is none of the missing monomials", k, g)
			}
		}
		if len(used) != len(cols) {
			return fmt.Sprintf("%d of %d monomials", len(used), len(cols))
		}
		return ""
	}
	full := func(l *fs.LazyPowerMatrix, m *vc.Mat) [][]float64 {
		n := l.NumCols()
		var out [][]float64
		for j := 0; j < n; j++ {
			g := l.GetCol(j)
			c.Check(len(g) == m.R, "column %d has %d values", j, len(g))
			if j < m.C {
				c.Check(vc.SameBits(g, m.Col(j)), "column %d is not the original one", j)
				g[0] += 1 // a copy
				c.Check(vc.SameBits(l.GetCol(j), m.Col(j)), "column %d shares memory with the matrix", j)
				g[0] -= 1
			}
			out = append(out, g)
		}
		f := vc.FromDense(l.FullMatrix())
		c.Check(f.R == m.R && f.C == n, "the full matrix is %dx%d", f.R, f.C)
		for j := range out {
			c.Check(vc.SameBits(f.Col(j), out[j]), "column %d of the full matrix differs", j)
		}
		c.Step(n)
		return out
	}
	for p := 1; p <= pm; p++ {
		for maxPow := 0; maxPow <= dm; maxPow++ {
			for rows := 1; rows <= 3; rows++ {
				c.Case(fmt.Sprintf("%d-%d-%d", p, maxPow, rows), func() {
					c.Input(func() string { return fmt.Sprintf("%d columns, power %d", p, maxPow) })
					m := vc.NewMat(rows, p)
					for i := 0; i < rows; i++ {
						for j := 0; j < p; j++ {
							m.Set(i, j, []float64{1, -0.5, 3}[i]*primes[(j+i)%len(primes)])
						}
					}
					x := m.Dense()
					l := fs.NewLazyMatrix(x, maxPow)
					out := full(l, m)
					e := match(m, monomials(p, 2, maxPow), out[p:])
					c.Check(e == "", "%s", e)
					// further powers are appended in the order in which they are added
					have := l.NumCols()
					adds := [][]int{{0, 3}, {p - 1, 6}, {0, 1}, {p - 1, 0}}
					for k, a := range adds {
						l.AddPower(map[int]int{a[0]: a[1]})
						out = full(l, m)
						c.Check(len(out) == have+k+1, "%d columns after %d were added to %d", len(out), k+1, have)
						for q := 0; q <= k; q++ {
							for i := 0; i < rows; i++ {
								w := math.Pow(m.At(i, adds[q][0]), float64(adds[q][1]))
								c.Check(vc.Close(out[have+q][i], w, 1e-12), "added column %d is %v", q, out[have+q])
							}
						}
					}
					c.Check(vc.SameBits(vc.FromDense(x).D, m.D), "the matrix changed")
					c.State(1)
					c.Exec(1)
				})
			}
		}
	}
	c.Group("powers")
	c.Bound("1 or 2 columns, maximum powers 0 to %d; 1 to 3 columns with every added power up to 12; negative values, zeros and fractions", c.Pick(8, 12))
	vals := []float64{-2, 0, 3, -0.5, 1, -1, 1.5, 0.25}
	for p := 1; p <= 3; p++ {
		c.Case(fmt.Sprint(p), func() {
			m := vc.NewMat(len(vals), p)
			for i := range vals {
				for j := 0; j < p; j++ {
					m.Set(i, j, vals[(i*(j+1)+j*3)%len(vals)])
				}
			}
			x := m.Dense()
			for maxPow := 0; maxPow <= c.Pick(8, 12) && p <= 2; maxPow++ {
				c.Input(func() string { return fmt.Sprintf("%v, power %d", m, maxPow) })
				e := match(m, monomials(p, 2, maxPow), full(fs.NewLazyMatrix(x, maxPow), m)[p:])
				c.Check(e == "", "%s", e)
				c.State(1)
				c.Exec(1)
			}
			l := fs.NewLazyMatrix(x, 0)
			n := p
			sequences(13, p, func(s []int) {
				pw := map[int]int{}
				for j, e := range s {
					pw[j] = e
				}
				c.Input(func() string { return fmt.Sprintf("%v, powers %v", m, s) })
				l.AddPower(pw)
				got := l.GetCol(n)
				n++
				c.Check(l.NumCols() == n && len(got) == m.R, "%d columns with %d values", l.NumCols(), len(got))
				for i := range got {
					w := 1.0
					for j, e := range s {
						for t := 0; t < e; t++ {
							w *= m.At(i, j)
						}
					}
					c.Check(vc.Close(got[i], w, 1e-11), "powers %v of row %d give %g instead of %g", s, i, got[i], w)
				}
				c.State(1)
				c.Exec(1)
				c.Step(1)
			})
		})
	}
	c.Group("subsets")
	c.Bound("every sequence of distinct columns out of %d, maximum power 0 to 4", pm)
	for p := 1; p <= pm; p++ {
		for mask := 1; mask < 1<<p; mask++ {
			c.Case(fmt.Sprintf("%d-%d", p, mask), func() {
				permutations(vc.SelOf(mask, p), func(cols []int) {
					for maxPow := 0; maxPow <= 4; maxPow++ {
						c.Input(func() string { return fmt.Sprintf("columns %v of %d, power %d", cols, p, maxPow) })
						m := vc.NewMat(1, p)
						for j := 0; j < p; j++ {
							m.Set(0, j, primes[j])
						}
						l := fs.NewLazyMatrix(m.Dense(), 0)
						c.Check(l.NumCols() == p, "%d columns instead of %d", l.NumCols(), p)
						cc := append([]int{}, cols...)
						l.AddPowerSequence(cc, maxPow)
						c.Check(vc.EqInts(cc, cols), "argument changed")
						want := map[string][]int{}
						for _, e := range monomials(len(cols), 2, maxPow) {
							f := make([]int, p)
							for k, j := range cols {
								f[j] = e[k]
							}
							want[fmt.Sprint(f)] = f
						}
						out := full(l, m)
						e := match(m, want, out[p:])
						c.Check(e == "", "%s", e)
						c.State(1)
						c.Exec(1)
					}
				})
			})
		}
	}
	c.Group("product")
	c.Bound("every sequence of up to 4 values out of 4 (also repeated ones), 0 to 5 repetitions")
	for n := 0; n <= 4; n++ {
		c.Case(fmt.Sprint(n), func() {
			sequences(4, n, func(s []int) {
				vals := make([]int, n)
				for i, v := range s {
					vals[i] = []int{3, -1, 0, 7}[v]
				}
				top := 5
				if n == 4 {
					top = c.Pick(3, 5)
				}
				for rep := 0; rep <= top; rep++ {
					c.Input(func() string { return fmt.Sprintf("values %v repeat %d", vals, rep) })
					vv := append([]int{}, vals...)
					got := fs.IterProduct(vv, rep)
					c.Check(vc.EqInts(vv, vals), "argument changed")
					c.Check(len(got) == power(n, rep), "%d tuples", len(got))
					for k := range got {
						c.Check(len(got[k]) == rep, "tuple %d is %v", k, got[k])
						x := k
						for j := rep - 1; j >= 0; j-- {
							c.Check(got[k][j] == vals[x%n], "tuple %d is %v", k, got[k])
							x /= n
						}
					}
					// own memory, also beyond the length
					for k := range got {
						for j := range got[k] {
							got[k][j] = 1000 + k
						}
						_ = append(got[k], 99)
					}
					for k := range got {
						for j := range got[k] {
							c.Check(got[k][j] == 1000+k, "tuples share memory")
						}
					}
					c.State(1)
					c.Exec(1)
					c.Step(len(got))
				}
			})
		})
	}
	c.Group("large products")
	c.Bound("2 to 5000 values with 1 to 17 repetitions, up to 160000 tuples; 6 to 12 columns with maximum power 1 to 3; 33 to 1100 rows")
	for _, t := range [][2]int{{2, 13}, {2, 14}, {2, 17}, {3, 9}, {3, 10}, {4, 8}, {10, 4}, {16, 4}, {20, 4}, {70, 2}, {130, 2}, {300, 2}, {1000, 1}, {5000, 1}, {1, 300}} {
		c.Case(fmt.Sprintf("%d-%d", t[0], t[1]), func() {
			c.Input(func() string { return fmt.Sprintf("values 0 to %d repeat %d", t[0]-1, t[1]) })
			vals := make([]int, t[0])
			for i := range vals {
				vals[i] = i
			}
			got := fs.IterProduct(vals, t[1])
			c.Check(len(got) == power(t[0], t[1]), "%d tuples", len(got))
			for k := range got {
				c.Check(len(got[k]) == t[1], "tuple %d is %v", k, got[k])
				x := k
				for j := t[1] - 1; j >= 0; j-- {
					c.Check(got[k][j] == x%t[0], "tuple %d is %v", k, got[k])
					x /= t[0]
				}
			}
			c.State(1)
			c.Exec(1)
			c.Step(len(got))
		})
	}
	for _, t := range [][3]int{{6, 3, 2}, {7, 2, 1}, {8, 2, 3}, {9, 2, 1}, {7, 3, 1}, {12, 1, 2}, {10, 1, 2}, {2, 3, 33}, {2, 2, 65}, {3, 2, 130}, {2, 3, 300}, {2, 2, 1100}} {
		c.Case(fmt.Sprintf("matrix-%d-%d-%d", t[0], t[1], t[2]), func() {
			c.Input(func() string { return fmt.Sprintf("%d columns, power %d, %d rows", t[0], t[1], t[2]) })
			h := vc.NewHash(uint64(t[0]))
			m := vc.NewMat(t[2], t[0])
			for i := range m.D {
				m.D[i] = math.Round(h.F()*4096)/4096 + 2
			}
			e := match(m, monomials(t[0], 2, t[1]), full(fs.NewLazyMatrix(m.Dense(), t[1]), m)[t[0]:])
			c.Check(e == "", "%s", e)
			c.State(1)
			c.Exec(1)
		})
	}
	histories(c, histData(), histF03)
}

func f04(c *vc.Ctx) {
	c.Group("criteria")
	nm := c.Pick(40, 120)
	c.Bound("0 to %d and up to 70000 features, 1 to %d and up to 1000000 data points, 24 residuals", nm, nm)
	rssVals := []float64{0, 1e-300, 1e-15, 9e-13, 1e-12, 1.1e-12, 1e-9, 1e-6, 1e-3, 0.1, 0.5, 0.999, 1, 1.001, 2, 10, 1e3, 1e6, 1e12, 1e50, 1e100, 1e200, 1e300, math.MaxFloat64}
	feats, counts := []int{}, []int{}
	for k := 0; k <= nm; k++ {
		feats, counts = append(feats, k), append(counts, k)
	}
	feats = append(feats, 127, 128, 129, 255, 256, 257, 1000, 70000)
	counts = append(counts[1:], 127, 128, 129, 255, 256, 257, 999, 1000, 1024, 32768, 65536, 70000, 1000000)
	for _, n := range counts {
		c.Case(fmt.Sprint(n), func() {
			for _, k := range feats {
				prev := [3]float64{-inf, -inf, -inf}
				for _, rss := range rssVals {
					c.Input(func() string { return fmt.Sprintf("%d features, %d points, rss %g", k, n, rss) })
					l := math.Log(math.Max(rss, 1e-12))
					got := [3]float64{fs.Aic(k, n, rss), fs.Aicc(k, n, rss), fs.Bic(k, n, rss)}
					aic := 2*float64(k) + float64(n)*l
					den := 1.0
					if n-k-1 > 1 {
						den = float64(n - k - 1)
					}
					want := [3]float64{aic, aic + 2*float64(k)*float64(k+1)/den, float64(k)*math.Log(float64(n)) + float64(n)*l}
					for q, nme := range []string{"AIC", "AICc", "BIC"} {
						c.Check(vc.Close(got[q], want[q], 1e-12) || math.Abs(got[q]-want[q]) < 1e-9*(float64(n)*math.Abs(l)+1), "%s is %g instead of %g", nme, got[q], want[q])
						c.Check(!math.IsInf(got[q], 0) && !math.IsNaN(got[q]), "%s is %g", nme, got[q])
						c.Check(got[q] >= prev[q], "%s decreases to %g for residual %g", nme, got[q], rss)
					}
					prev = got
					if k > 0 && k < 1000 {
						c.Check(fs.Aic(k-1, n, rss) <= got[0], "AIC decreases with the number of features")
						c.Check(fs.Aicc(k-1, n, rss) <= got[1], "AICc decreases with the number of features")
					}
					c.State(1)
					c.Exec(3)
					c.Step(3)
				}
			}
		})
	}
	c.Group("weights")
	lm := c.Pick(4, 5)
	vals := []float64{0, 1, -3.5, 100, 1e4, -745, 0.25, 1e8}
	c.Bound("every sequence of up to %d of %d AIC values; 31 to 1025 values with each of these as first and last", lm, len(vals))
	for _, n := range []int{1, 2, 3, 4, 5, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 257, 513, 1025} {
		if n > lm && n < 31 {
			continue
		}
		for first := range vals {
			free := n - 1 // elements that take every value
			if n > lm {
				free = 1
			}
			c.Case(fmt.Sprintf("%d-%d", n, first), func() {
				sequences(len(vals), free, func(s []int) {
					a := []float64{vals[first]}
					for i := 1; i < n-free; i++ {
						a = append(a, float64(i*7%13)/4+vals[first])
					}
					for _, v := range s {
						a = append(a, vals[v])
					}
					c.Input(func() string { return fmt.Sprint(a) })
					aa := vc.Clone(a)
					w := fs.WeightsFromAIC(aa)
					c.Check(vc.SameBits(aa, a), "argument changed to %v", aa)
					c.Check(len(w) == n, "%d weights", len(w))
					mn := a[0]
					for _, v := range a {
						mn = math.Min(mn, v)
					}
					sum, ref := 0.0, 0.0
					for _, v := range a {
						ref += math.Exp(-(v - mn))
					}
					for i := range w {
						c.Check(w[i] >= 0 && math.Abs(w[i]-math.Exp(-(a[i]-mn))/ref) < 1e-12, "weights %v", w)
						sum += w[i]
					}
					c.Check(math.Abs(sum-1) < 1e-12, "the weights %v sum to %g", w, sum)
					for _, sh := range []float64{64, -1024} {
						b := vc.Clone(a)
						for i := range b {
							b[i] += sh
						}
						c.Check(vc.CloseSlices(fs.WeightsFromAIC(b), w, 1e-6), "the weights change from %v to %v when all values are shifted by %g", w, fs.WeightsFromAIC(b), sh)
					}
					c.State(1)
					c.Exec(3)
					c.Step(3)
				})
			})
		}
	}
	c.Group("average")
	c.Bound("1 to 3 models, each any subset of 3 features in any order")
	var sels [][]int
	for mask := 0; mask < 8; mask++ {
		permutations(vc.SelOf(mask, 3), func(p []int) { sels = append(sels, p) })
	}
	for n := 0; n <= 3; n++ {
		c.Case(fmt.Sprint(n), func() {
			sequences(len(sels), n, func(s []int) {
				var w []float64
				var co []fs.SparseCoeff
				want := make([]float64, 3)
				for i, v := range s {
					w = append(w, []float64{0.5, 0.3, -0.2}[i])
					sc := fs.SparseCoeff{Selection: append([]int{}, sels[v]...)}
					for k := range sels[v] {
						sc.Coeff = append(sc.Coeff, float64(1+k+10*i))
						want[sels[v][k]] += w[i] * sc.Coeff[k]
					}
					co = append(co, sc)
				}
				c.Input(func() string { return fmt.Sprintf("weights %v coefficients %v", w, co) })
				got := fs.WeightedAveragedCoeff(3, w, co)
				c.Check(vc.CloseSlices(got, want, 1e-12), "average %v instead of %v", got, want)
				c.Check(panics(func() { fs.WeightedAveragedCoeff(3, append(vc.Clone(w), 1), co) }), "no panic for a wrong number of weights")
				for i, v := range s {
					c.Check(vc.EqInts(co[i].Selection, sels[v]), "argument changed")
				}
				c.State(1)
				c.Exec(1)
				c.Step(1)
			})
		})
	}
	histories(c, histData(), histF04)
}
