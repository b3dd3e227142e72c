//go:build go1.22

package main

import (
	"container/list"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	fs "github.com/davidkleiven/goselect/featselect"
	vc "github.com/davidkleiven/goselect/verifcommon"
	"gonum.org/v1/gonum/mat"
)

func init() {
	props["G07"] = g07
	props["L07"] = l07
	props["F06"] = f06
}

// ------------------------------------------------------------ search queue

func queueOf(lower []float64) *list.List {
	q := list.New()
	for i, v := range lower {
		n := fs.NewNode(i, make([]bool, 3))
		n.Lower = v
		q.PushBack(n)
	}
	return q
}

func levels(q *list.List) []int {
	var r []int
	for e := q.Front(); e != nil; e = e.Next() {
		r = append(r, e.Value.(*fs.Node).Level)
	}
	return r
}

func g07(c *vc.Ctx) {
	clean := func(lower []float64, th float64) {
		q := queueOf(lower)
		fs.CleanQueue(q, th)
		var want []int
		for i, v := range lower {
			if v <= th {
				want = append(want, i)
			}
		}
		c.Input(func() string { return fmt.Sprintf("lower bounds %v, threshold %g", lower, th) })
		c.Check(vc.EqInts(levels(q), want) && q.Len() == len(want), "the nodes %v are left instead of %v", levels(q), want)
		c.Exec(1)
		c.Step(len(lower))
		c.State(1)
	}
	least := func(lower []float64) {
		q := queueOf(lower)
		fs.RemoveLeastPromising(q)
		c.Input(func() string { return fmt.Sprintf("lower bounds %v", lower) })
		lo, hi, sum, abs := inf, -inf, 0.0, 0.0
		for _, v := range lower {
			lo, hi, sum = math.Min(lo, v), math.Max(hi, v), sum+v
			abs = math.Max(abs, math.Abs(v))
		}
		mean := sum / float64(len(lower))
		tol := 1e-12 * abs
		left := map[int]bool{}
		last := -1
		for _, l := range levels(q) {
			c.Check(l > last, "the order of the nodes changed: %v", levels(q))
			last = l
			left[l] = true
		}
		c.Check(q.Len() == len(left), "%d nodes, but length %d", len(left), q.Len())
		for i, v := range lower {
			c.Check(left[i] || v > mean-tol && v > lo, "node %d with the bound %g was removed, the mean is %g and the smallest bound %g", i, v, mean, lo)
			c.Check(!left[i] || v < mean+tol || v == lo, "node %d with the bound %g was not removed, the mean is %g", i, v, mean)
		}
		c.Check(hi <= mean+tol || q.Len() < len(lower), "nothing was removed")
		c.Exec(1)
		c.Step(len(lower))
		c.State(1)
	}
	vals := []float64{-2.5, 0.1, 3, 17.7}
	n := c.Pick(6, 8)
	c.Group("clean")
	c.Bound("every sequence of up to %d nodes with %d bounds, every threshold at, between, below and above them", n, len(vals))
	for k := 0; k <= n; k++ {
		for first := 0; first < len(vals); first++ {
			c.Case(fmt.Sprintf("n%d-%d", k, first), func() {
				sequences(len(vals), k, func(s []int) {
					if k > 0 && s[0] != first || k == 0 && first > 0 {
						return
					}
					lower := make([]float64, k)
					for i, v := range s {
						lower[i] = vals[v]
					}
					for _, th := range []float64{-3, -2.5, 0, 0.1, 1, 3, 10, 17.7, 20, inf, -inf} {
						clean(lower, th)
					}
					if k > 0 {
						least(lower)
					}
				})
			})
		}
	}
	c.Group("close bounds")
	c.Bound("every sequence of up to %d nodes whose bounds are neighbours of 5 values, every threshold among them", c.Pick(4, 6))
	for _, v := range []float64{0, 1e-9, -3, 1234.5, 1e100} {
		near := []float64{math.Nextafter(v, -inf), v, math.Nextafter(v, inf), v + 1e-9*(1+math.Abs(v))}
		c.Case(fmt.Sprintf("%g", v), func() {
			for k := 1; k <= c.Pick(4, 6); k++ {
				sequences(len(near), k, func(s []int) {
					lower := make([]float64, k)
					for i, j := range s {
						lower[i] = near[j]
					}
					for _, th := range near {
						clean(lower, th)
					}
				})
			}
		})
	}
	c.Group("equal bounds")
	c.Bound("1 to %d nodes with the same bound, each of 40 values", c.Pick(60, 400))
	c.Case("all", func() {
		h := vc.NewHash(4)
		for i := 0; i < 40; i++ {
			v := math.Round(h.F()*2000) / 10
			for k := 1; k <= c.Pick(60, 400); k++ {
				lower := make([]float64, k)
				for j := range lower {
					lower[j] = v
				}
				least(lower)
			}
		}
	})
	c.Group("longer queues")
	c.Bound("7 to 200 and 255 to 5000 nodes with distinct or repeated bounds")
	for seed := uint64(0); seed < uint64(c.Pick(800, 12000)); seed++ {
		c.Case(fmt.Sprint(seed), func() {
			h := vc.NewHash(seed + 900)
			lower := make([]float64, 7+h.N(194))
			if l := []int{255, 256, 257, 511, 512, 513, 1023, 1025, 2049, 5000}; int(seed) < 2*len(l) {
				lower = make([]float64, l[seed/2])
			}
			for i := range lower {
				lower[i] = h.F() * 100
				if seed%2 == 0 {
					lower[i] = math.Round(lower[i])
				}
			}
			least(lower)
			clean(lower, h.F()*100)
			clean(lower, lower[h.N(len(lower))])
		})
	}
}

// --------------------------------------------- estimators and corrections

// checkCD compares both parts of an estimator with their definitions
func checkCD(c *vc.Ctx, est fs.CDParam, m *vc.Mat, active []int, y, signs []float64, tol float64) {
	xe := vc.NewMat(m.R, len(active))
	for k, j := range active {
		for i := 0; i < m.R; i++ {
			xe.Set(i, k, m.At(i, j))
		}
	}
	var f mat.SVD
	f.Factorize(xe.Dense(), mat.SVDNone)
	for _, s := range f.Values(nil) {
		if s > 1e-8 && s < 2e-3 {
			// left out or too close to the cutoff, see the nearly dependent columns
			c.Seen("near the cutoff")
			return
		}
	}
	keep := append([]int{}, active...)
	est.SetActiveSet(active)
	yv, sv := mat.NewVecDense(len(y), vc.Clone(y)), mat.NewVecDense(len(signs), vc.Clone(signs))
	cv, dv := est.C(yv), est.D(sv)
	c.Exec(2)
	c.Step(2)
	c.State(1)
	if cv.Len() != len(active) || dv.Len() != len(active) {
		c.Fail("active set %v: %d and %d elements", active, cv.Len(), dv.Len())
		return
	}
	cc, dd := make([]float64, len(active)), make([]float64, len(active))
	for k := range active {
		cc[k], dd[k] = cv.AtVec(k), dv.AtVec(k)
	}
	// C is the least squares solution of smallest norm
	msg := checkFit(xe, y, cc, tol)
	c.Check(msg == "", "active set %v: C=%v: %s", active, cc, msg)
	// D: X^T X D is the part of the signs in the row space, and D lies in it
	rows := rowsOf(xe)
	var rr [][]float64
	for _, r := range rows {
		if maxAbs(r) > 0 {
			rr = append(rr, r)
		}
	}
	part := vc.Clone(signs)
	res := vc.RefResidual(rr, signs)
	for k := range part {
		part[k] -= res[k]
	}
	xd := make([]float64, xe.R)
	for i := range xd {
		xd[i] = vc.Dot(rows[i], dd)
	}
	for k := range dd {
		v := vc.Dot(xe.Col(k), xd)
		c.Check(math.Abs(v-part[k]) <= tol*(1+maxAbs(dd)), "active set %v, signs %v: D=%v: element %d of X^T X D is %g instead of %g", active, signs, dd, k, v, part[k])
	}
	if n := maxAbs(vc.RefResidual(rr, dd)); n > tol*(1+maxAbs(dd)) {
		c.Fail("active set %v: D=%v is not in the row space", active, dd)
	}
	c.Check(vc.EqInts(active, keep) && vc.SameBits(yv.RawVector().Data, y) && vc.SameBits(sv.RawVector().Data, signs), "the arguments were modified")
}

func subsetsOf(p int, f func([]int)) {
	for mask := 1; mask < 1<<uint(p); mask++ {
		permutations(vc.SelOf(mask, p), f)
	}
}

func l07(c *vc.Ctx) {
	c.Group("estimator, small matrices")
	c.Bound("every matrix with 4 rows and 1 to 3 columns of the alphabet, all active sets in all orders with one estimator, 2 targets, all signs")
	for p := 1; p <= 3; p++ {
		vc.SmallData(vc.Columns4, vc.Targets4[:1], p, func(d *vc.Data) {
			c.Case(d.Name, func() {
				est := &fs.MorsePenroseCD{}
				x := d.X.Dense()
				est.SetX(x)
				subsetsOf(p, func(active []int) {
					for t, y := range [][]float64{{1, 2, 3, 5}, {3, -1, 2, 0}} {
						sequences(2, len(active), func(s []int) {
							signs := make([]float64, len(s))
							for i, v := range s {
								signs[i] = float64(2*v - 1)
							}
							if t == 1 && s[0] == 1 {
								return
							}
							c.Input(func() string { return fmt.Sprintf("X=%v active set %v y=%v signs %v", d.X, active, y, signs) })
							checkCD(c, est, d.X, active, y, signs, 1e-8)
						})
					}
				})
				c.Check(vc.SameBits(vc.FromDense(x).D, d.X.D), "the matrix was modified")
			})
		})
	}
	c.Group("estimator, structured matrices")
	c.Bound("structured matrices with up to 9 columns, growing and shrinking active sets, one estimator for several matrices")
	for seed := uint64(0); seed < uint64(c.Pick(12, 100)); seed++ {
		for _, k := range []int{vc.KindRandom, vc.KindSparse, vc.KindCorrelated, vc.KindTies, vc.KindBias, vc.KindDuplicate} {
			c.Case(fmt.Sprintf("%s-%d", vc.KindNames[k], seed), func() {
				est := &fs.MorsePenroseCD{}
				h := vc.NewHash(seed)
				for _, sh := range [][2]int{{12, 6}, {5, 3}, {30, 9}, {3, 5}, {8, 2}, {70, 9}, {130, 4}} {
					d := vc.Structured(k, sh[0], sh[1], seed+60)
					est.SetX(d.X.Dense())
					for n := 1; n <= 12; n++ {
						mask := 1 + h.N(1<<uint(sh[1])-1)
						active := shuffled(vc.SelOf(mask, sh[1]), uint64(n))
						signs := make([]float64, len(active))
						for i := range signs {
							signs[i] = float64(2*h.N(2) - 1)
						}
						c.Input(func() string { return fmt.Sprintf("%v active set %v signs %v", d, active, signs) })
						checkCD(c, est, d.X, active, d.Y, signs, 1e-6)
					}
				}
			})
		}
	}

	c.Group("estimator, nearly dependent columns")
	c.Bound("structured matrices with a column that is the combination of two others up to a change between 1e-12 and 1e-5: small singular values are left out")
	for seed := uint64(0); seed < uint64(c.Pick(16, 160)); seed++ {
		for _, delta := range []float64{1e-12, 1e-9, 1e-7, 1e-6, 1e-5} {
			c.Case(fmt.Sprintf("%g-%d", delta, seed), func() {
				d := vc.Structured(vc.KindRandom, 6+int(seed%3), 4, seed+170)
				h := vc.NewHash(seed + 77)
				for i := 0; i < d.X.R; i++ {
					d.X.Set(i, 3, d.X.At(i, 0)-d.X.At(i, 1)+delta*h.F())
					if seed%2 == 1 {
						d.X.Set(i, 2, d.X.At(i, 2)*3000) // the cutoff is not relative
					}
					d.Y[i] *= 100
				}
				est := &fs.MorsePenroseCD{}
				est.SetX(d.X.Dense())
				subsetsOf(4, func(active []int) {
					xe := mat.NewDense(d.X.R, len(active), nil)
					for k, j := range active {
						xe.SetCol(k, d.X.Col(j))
					}
					var sv mat.SVD
					sv.Factorize(xe, mat.SVDThin)
					var u, v mat.Dense
					sv.UTo(&u)
					sv.VTo(&v)
					signs := make([]float64, len(active))
					wc, wd := make([]float64, len(active)), make([]float64, len(active))
					for k := range signs {
						signs[k] = float64(2*h.N(2) - 1)
					}
					for k, s := range sv.Values(nil) {
						if s > 3e-4 && s < 3e-3 {
							return // too close to the cutoff
						}
						if s < 1e-3 {
							continue
						}
						uy, vs := 0.0, 0.0
						for i := 0; i < d.X.R; i++ {
							uy += u.At(i, k) * d.Y[i]
						}
						for i := range active {
							vs += v.At(i, k) * signs[i]
						}
						for i := range active {
							wc[i] += v.At(i, k) * uy / s
							wd[i] += v.At(i, k) * vs / (s * s)
						}
					}
					est.SetActiveSet(active)
					cv := est.C(mat.NewVecDense(len(d.Y), vc.Clone(d.Y)))
					dv := est.D(mat.NewVecDense(len(signs), signs))
					c.Exec(2)
					c.Step(2)
					c.State(1)
					c.Input(func() string { return fmt.Sprintf("%v active set %v signs %v", d, active, signs) })
					for i := range active {
						c.Check(math.Abs(cv.AtVec(i)-wc[i]) <= 1e-6*(1+maxAbs(wc)), "element %d of C is %.9g instead of %.9g", i, cv.AtVec(i), wc[i])
						c.Check(math.Abs(dv.AtVec(i)-wd[i]) <= 1e-6*(1+maxAbs(wd)), "element %d of D is %.9g instead of %.9g", i, dv.AtVec(i), wd[i])
					}
				})
			})
		}
	}

	c.Group("estimator, different scales")
	c.Bound("independent columns whose singular values differ by a factor of 1e3 to 1e7 and are all far above the cutoff, all active sets in all orders")
	for seed := uint64(0); seed < uint64(c.Pick(16, 160)); seed++ {
		for _, ratio := range []float64{1e3, 1e4, 1e5, 1e7} {
			c.Case(fmt.Sprintf("%g-%d", ratio, seed), func() {
				// orthogonal columns, so that the solution is exact at any scale
				n := 8
				m := vc.NewMat(n, 3)
				scale := []float64{1, 1, 1}
				scale[seed%3] = ratio
				scale[(seed+1)%3] = math.Sqrt(ratio)
				h := vc.NewHash(seed + 900)
				y := make([]float64, n)
				for i := range y {
					y[i] = 3 * h.F()
					for j := 0; j < 3; j++ {
						sg := 1.0
						if i>>uint(j)&1 == 1 {
							sg = -1
						}
						m.Set(i, j, sg*scale[j])
					}
				}
				est := &fs.MorsePenroseCD{}
				est.SetX(m.Dense())
				subsetsOf(3, func(active []int) {
					signs := make([]float64, len(active))
					for k := range signs {
						signs[k] = float64(2*h.N(2) - 1)
					}
					c.Input(func() string { return fmt.Sprintf("X=%v y=%v active set %v signs %v", m, y, active, signs) })
					est.SetActiveSet(active)
					cv := est.C(mat.NewVecDense(n, vc.Clone(y)))
					dv := est.D(mat.NewVecDense(len(signs), vc.Clone(signs)))
					c.Exec(2)
					c.Step(2)
					c.State(1)
					for k, j := range active {
						nn := float64(n) * scale[j] * scale[j]
						wc, wd := vc.Dot(m.Col(j), y)/nn, signs[k]/nn
						c.Check(math.Abs(cv.AtVec(k)-wc) <= 1e-7*math.Abs(wc)+1e-12, "element %d of C is %.9g instead of %.9g", k, cv.AtVec(k), wc)
						c.Check(math.Abs(dv.AtVec(k)-wd) <= 1e-7*math.Abs(wd)+1e-12, "element %d of D is %.9g instead of %.9g", k, dv.AtVec(k), wd)
					}
				})
			})
		}
	}

	vecs := [][]float64{{0, 0, 0}, {1, 0, 0}, {0.5, -2, 0}, {-1, 1, 3}, {1e-7, 0, 0}, {10, 20, -30}, {2e-5, -1e-4, 3e-5}}
	c.Group("corrections")
	l := c.Pick(4, 5)
	c.Bound("every sequence of up to %d updates out of %d vectors, a copy made at every position, all derivatives; pure lasso and elastic net on the same vectors", l, len(vecs))
	wantC := func(eta float64, b, beta []float64, j int) float64 {
		if vc.Dot(b, b) < 1e-10 {
			return 0
		}
		return eta * b[j] * vc.Dot(b, beta) / vc.Dot(b, b)
	}
	for first := range vecs {
		c.Case(fmt.Sprint("updates-", first), func() {
			for n := 0; n <= l; n++ {
				sequences(len(vecs), n, func(s []int) {
					if n > 0 && s[0] != first || n == 0 && first > 0 {
						return
					}
					for at := 0; at <= n; at++ {
						c.Input(func() string { return fmt.Sprintf("updates %v, copy after %d", s, at) })
						cl := fs.NewCLasso(3, 0.7)
						var cp fs.LassoCorrection
						cur := vecs[0]
						cur2 := vecs[0]
						for i := 0; i <= n; i++ {
							if i == at {
								if k, ok := any(cl).(interface{ Clone() fs.LassoCorrection }); ok {
									cp, cur2 = k.Clone(), cur
								}
							}
							if i < n {
								v := vc.Clone(vecs[s[i]])
								cl.Update(v)
								v[0], v[1] = 99, 98 // the argument still belongs to the caller
								cur = vecs[s[i]]
								if cp != nil && i%2 == 1 {
									w := vecs[(s[i]+1)%len(vecs)]
									cp.Update(w)
									cur2 = w
								}
							}
							for _, beta := range vecs {
								for j := range beta {
									keep := vc.Clone(beta)
									g := cl.Deriv(beta, j)
									c.Check(vc.Close(g, wantC(0.7, cur, beta, j), 1e-12), "the derivative for feature %d at %v after %v is %g instead of %g", j, beta, cur, g, wantC(0.7, cur, beta, j))
									if cp != nil {
										g := cp.Deriv(beta, j)
										c.Check(vc.Close(g, wantC(0.7, cur2, beta, j), 1e-12), "the copy's derivative for feature %d at %v after %v is %g instead of %g", j, beta, cur2, g, wantC(0.7, cur2, beta, j))
									}
									c.Check(vc.SameBits(keep, beta), "the coefficients were modified")
								}
							}
						}
						c.Exec(1)
						c.Step(n)
						c.State(1)
					}
				})
			}
			var pure fs.PureLasso
			for _, lamb := range []float64{0, 0.1, 2} {
				e := fs.ElasticNet{Lamb: lamb}
				for _, u := range vecs {
					e.Update(u)
					pure.Update(u)
					for _, beta := range vecs {
						for j := range beta {
							c.Check(pure.Deriv(beta, j) == 0 && e.Deriv(beta, j) == lamb*beta[j], "derivatives %g, %g", pure.Deriv(beta, j), e.Deriv(beta, j))
						}
					}
				}
			}
		})
	}
	c.Group("group lasso solutions")
	c.Bound("structured datasets with up to 8 features, 4 regularisations, 2 weights, 3 start vectors: converged coefficients solve the elastic net with the same weight")
	for seed := uint64(0); seed < uint64(c.Pick(16, 100)); seed++ {
		for k := 0; k < vc.NumKinds; k++ {
			for _, sh := range [][2]int{{8, 3}, {12, 5}, {20, 8}, {9, 1}, {30, 4}, {70, 20}} {
				d := vc.Structured(k, sh[0], sh[1], seed+310)
				ref := vc.Normalise(d.X, d.Y)
				if !ref.OK || ref.Bias && sh[1] == 1 {
					continue
				}
				c.Case(d.Name, func() {
					x, y := d.X.Dense(), vc.Clone(d.Y)
					nd := fs.NewNormalizedData(x, y)
					gram, xty := ref.Gram(), ref.Xty()
					for _, lamb := range []float64{0.01, 0.05, 0.2, 0.5} {
						for _, eta := range []float64{0.1, 0.4} {
							for _, st := range []int{0, 2, 3} {
								c.Input(func() string { return fmt.Sprintf("%v lambda %g eta %g start %d", d, lamb, eta, st) })
								beta := fs.LassoCrdDesc(nd, lamb, &fs.Empirical{}, startVector(st, sh[1]), 100000, 1e-12, fs.NewCLasso(sh[1], eta))
								c.Exec(1)
								c.Step(1)
								c.State(1)
								if vc.Dot(beta, beta) < 1e-8 {
									continue
								}
								msg := vc.KKT(gram, xty, lamb, eta, clean(beta, 1e-12), ref.Bias, kktTol)
								c.Check(msg == "", "%s", msg)
							}
						}
					}
				})
			}
		}
	}
	histories(c, histData(), histL07)
}

// -------------------------------------------------------- cross validation

func f06(c *vc.Ctx) {
	one := func(m *vc.Mat, y []float64, tol float64) {
		// leave-one-out error by brute force
		sum := 0.0
		for i := 0; i < m.R; i++ {
			a := vc.NewMat(m.C, m.C)
			b := make([]float64, m.C)
			for r := 0; r < m.R; r++ {
				if r == i {
					continue
				}
				for j := 0; j < m.C; j++ {
					b[j] += m.At(r, j) * y[r]
					for k := 0; k < m.C; k++ {
						a.D[j*m.C+k] += m.At(r, j) * m.At(r, k)
					}
				}
			}
			coeff, ok := vc.Solve(a, b)
			if !ok {
				return // the point determines a coefficient
			}
			// well away from singular
			var sv mat.SVD
			sv.Factorize(a.Compact(), mat.SVDNone)
			v := sv.Values(nil)
			if v[len(v)-1] < 1e-3*math.Max(1, v[0]) || v[0] > 1e8 {
				return
			}
			e := y[i]
			for j := range coeff {
				e -= coeff[j] * m.At(i, j)
			}
			sum += e * e
		}
		want := math.Sqrt(sum / float64(m.R))
		x, yy := m.Dense(), vc.Clone(y)
		pred := fs.Predict(x, fs.Fit(x, yy))
		keep := vc.Clone(pred)
		denum := fs.DenumMatrixGcv(x)
		dk := vc.FromDense(denum)
		got := fs.Gcv(denum, yy, pred)
		c.Input(func() string { return fmt.Sprintf("X=%v y=%v", m, y) })
		c.Check(math.Abs(got-want) <= tol*(1+want), "the score is %.9g, the leave-one-out error %.9g", got, want)
		c.Check(vc.SameBits(yy, y) && vc.SameBits(pred, keep) && vc.SameBits(vc.FromDense(denum).D, dk.D) && vc.SameBits(vc.FromDense(x).D, m.D), "the arguments were modified")
		c.Exec(1)
		c.Step(1)
		c.State(1)
	}
	shapes := [][2]int{{2, 1}, {3, 1}, {4, 1}, {3, 2}, {4, 2}, {5, 2}, {4, 3}}
	if c.Thorough() {
		shapes = append(shapes, [2]int{6, 2}, [2]int{5, 3})
	}
	c.Group("small")
	c.Bound("every matrix over {-1,0,1} ({0,1} for more than 8 elements) with shapes %v, 4 targets", shapes)
	targets := [][]float64{{1, 2, 3, 5, 7, 1}, {0, 0, 1, 0, 0, 0}, {3, -1, 2, 0, -2, 4}, {0, 0, 0, 0, 0, 0}}
	for _, sh := range shapes {
		alpha := []float64{0, 1, -1}
		if sh[0]*sh[1] > 8 {
			alpha = alpha[:2]
		}
		for first := range alpha {
			for second := range alpha {
				c.Case(fmt.Sprintf("%dx%d-%d%d", sh[0], sh[1], first, second), func() {
					smallMats(alpha, sh[0], sh[1], func(m *vc.Mat) {
						if m.D[0] != alpha[first] || m.D[1] != alpha[second] {
							return
						}
						for _, y := range targets {
							one(m, y[:sh[0]], 1e-8)
						}
					})
				})
			}
		}
	}
	c.Group("structured")
	c.Bound("structured datasets, 2 to 140 rows and 1 to 8 columns")
	for k := 0; k < vc.NumKinds; k++ {
		for n := 2; n <= 140; n++ {
			if n > 15 && (n-15)%8 > 0 && n != 64 && n != 65 && n != 100 && n != 128 {
				continue
			}
			for p := 1; p <= 8 && p < n; p++ {
				if n > 15 && (p+n)%3 != 0 {
					continue
				}
				for seed := uint64(0); seed < uint64(c.Pick(8, 40)); seed++ {
					c.Case(fmt.Sprintf("%s-%d-%d-%d", vc.KindNames[k], n, p, seed), func() {
						d := vc.Structured(k, n, p, seed+20)
						one(d.X, d.Y, 1e-6)
					})
				}
			}
		}
	}
	c.Group("large sizes")
	c.Bound("255 to 600 rows with 1 to 3 columns, 20 to 40 columns with 60 to 90 rows")
	for _, sh := range [][2]int{{255, 1}, {256, 2}, {257, 3}, {300, 2}, {511, 1}, {513, 2}, {600, 3}, {60, 20}, {90, 33}, {80, 40}} {
		for _, kind := range []int{vc.KindRandom, vc.KindSparse} {
			c.Case(fmt.Sprintf("%s-%d-%d", vc.KindNames[kind], sh[0], sh[1]), func() {
				d := vc.Structured(kind, sh[0], sh[1], 5)
				one(d.X, d.Y, 1e-6)
			})
		}
	}
	histories(c, histData(), histF06)
}

// ---------------------------------------------------------- printed ranking

// printed returns what f writes to the standard output
func printed(f func()) string {
	end := vc.Capture()
	out := ""
	func() {
		defer func() { out = end() }()
		f()
	}()
	return out
}

// ranking checks the table of the best nodes
func ranking(c *vc.Ctx, path *fs.LassoLarsPath, aicc, bic []float64, num int) {
	ka, kb := vc.Clone(aicc), vc.Clone(bic)
	out := printed(func() { fs.PrintHighscore(path, aicc, bic, num) })
	c.Exec(1)
	c.Step(len(aicc))
	c.State(1)
	c.Check(vc.SameBits(ka, aicc) && vc.SameBits(kb, bic), "the criteria were modified")
	var rows [][]float64
	for _, l := range strings.Split(out, "\n") {
		var r []float64
		for _, f := range strings.Split(strings.Trim(l, "| "), "|") {
			v, err := strconv.ParseFloat(strings.TrimSpace(f), 64)
			if err != nil {
				r = nil
				break
			}
			r = append(r, v)
		}
		if len(r) == 5 {
			rows = append(rows, r)
		}
	}
	want := min(num, len(aicc))
	c.Check(len(rows) == want, "%d of %d nodes are printed, %d were requested:\n%s", len(rows), len(aicc), num, out)
	sorted := vc.Clone(aicc)
	sort.Float64s(sorted)
	used := map[int]bool{}
	for i, r := range rows {
		c.Check(r[0] == float64(i+1), "row %d has rank %g", i+1, r[0])
		c.Check(i < len(sorted) && vc.Close(r[3], sorted[i], 1e-4), "row %d has AICc %g, the %d. smallest is %g", i+1, r[3], i+1, sorted[i])
		found := false
		for k, n := range path.LassoLarsNodes {
			if !used[k] && vc.Close(r[3], aicc[k], 1e-4) && vc.Close(r[4], bic[k], 1e-4) && math.Abs(r[1]-n.Lamb) <= 0.01*math.Abs(n.Lamb) && int(r[2]) == len(n.Selection) {
				used[k], found = true, true
				break
			}
		}
		c.Check(found, "row %d (%v) is not a node of the path", i+1, r)
	}
}

func l06Ranking(c *vc.Ctx) {
	c.Group("printed ranking")
	n := c.Pick(5, 6)
	c.Bound("up to %d nodes in every order of their AICc (ties included), 0 to 8 rows requested", n)
	for k := 0; k <= n; k++ {
		c.Case(fmt.Sprint(k), func() {
			weakOrders(k, func(o []int) {
				path := &fs.LassoLarsPath{}
				aicc, bic := make([]float64, k), make([]float64, k)
				for i, r := range o {
					aicc[i] = -3.25 + 2*float64(r)
					bic[i] = 10 - 1.5*float64((i*3)%7)
					path.LassoLarsNodes = append(path.LassoLarsNodes, fs.NewLassoLarsNode(make([]float64, i%3), math.Pow(10, -float64(i)/3), make([]int, i%3)))
				}
				for _, num := range []int{0, 1, k - 1, k, 8} {
					if num >= 0 {
						c.Input(func() string { return fmt.Sprintf("AICc %v, %d rows", aicc, num) })
						ranking(c, path, aicc, bic, num)
					}
				}
			})
		})
	}
}
