//go:build go1.22

package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	fs "github.com/davidkleiven/goselect/featselect"
	vc "github.com/davidkleiven/goselect/verifcommon"
	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/plot"
	"gonum.org/v1/plot/vg"
	"gonum.org/v1/plot/vg/draw"
	"gonum.org/v1/plot/vg/recorder"
)

func init() {
	props["L01"] = l01
	props["L03"] = l03
	props["L04"] = l04
	props["L05"] = l05
	props["L06"] = l06
}

// ------------------------------------------------------- coordinate descent

// tolerance of the optimality conditions
const kktTol = 1e-6

type cdCase struct {
	lamb, l2 float64
	ident    bool
	start    int
}

func (k cdCase) String() string {
	return fmt.Sprintf("lamb=%g l2=%g identity=%v start=%d", k.lamb, k.l2, k.ident, k.start)
}

func startVector(kind, p int) []float64 {
	v := make([]float64, p)
	switch kind {
	case 0:
		return nil
	case 2:
		for i := range v {
			v[i] = 1
		}
	case 3:
		for i := range v {
			v[i] = float64(i%3-1) * 3
		}
	case 4:
		for i := range v {
			v[i] = -0.5 * float64(i%2)
		}
	}
	return v
}

// shift is a correction with a constant derivative; it counts the iterations
type shift struct {
	g    []float64
	n    int
	last []float64
}

func (s *shift) Deriv(beta []float64, j int) float64 {
	if s.g == nil {
		return 0
	}
	return s.g[j]
}

func (s *shift) Update(beta []float64) { s.n++; s.last = vc.Clone(beta) }

// limits checks the number of iterations, the warning and corrections that do not
// vanish for coefficients that are zero
func limits(c *vc.Ctx, d *vc.Data) {
	ref := vc.Normalise(d.X, d.Y)
	if !ref.OK || ref.Bias && d.X.C == 1 {
		return
	}
	gram, xty := ref.Gram(), ref.Xty()
	nd := fs.NewNormalizedData(d.X.Dense(), vc.Clone(d.Y))
	h := vc.NewHash(uint64(d.X.C))
	// in the row space of the Gram matrix, where the objective stays bounded
	w := h.Vec(d.X.C)
	g := make([]float64, d.X.C)
	xg := vc.Clone(xty)
	for j := range xg {
		for k := range w {
			g[j] += gram.At(j, k) * (w[k] - 0.5)
		}
		if j == 0 && ref.Bias {
			g[j] = 0.7
		}
		xg[j] -= g[j]
	}
	for _, lamb := range []float64{0.05, 0.2, 0.6} {
		for _, st := range []int{0, 3} {
			for _, iters := range []int{1, 2, 3, 7, 100000} {
				for _, gg := range [][]float64{nil, g} {
					xy := xty
					if gg != nil {
						xy = xg
					}
					s := &shift{g: gg}
					c.Input(func() string {
						return fmt.Sprintf("%v regularisation %g, at most %d iterations, start vector %d, derivative of the correction %v", d, lamb, iters, st, gg)
					})
					var beta []float64
					out := printed(func() {
						beta = fs.LassoCrdDesc(nd, lamb, &fs.Empirical{}, startVector(st, d.X.C), iters, 1e-12, s)
					})
					c.Exec(1)
					c.State(1)
					c.Step(s.n)
					c.Check(s.n >= 1 && s.n <= iters, "%d iterations", s.n)
					c.Check(vc.SameBits(s.last, beta), "the last coefficients that were reported are %v, the result is %v", s.last, beta)
					msg := vc.KKT(gram, xy, lamb, 0, clean(beta, 1e-12), ref.Bias, kktTol)
					warned := strings.Contains(out, "did not converge")
					if iters == 100000 || s.n < iters {
						c.Check(msg == "", "%s", msg)
						c.Check(!warned, "a warning for a converged solution: %s", out)
					} else if msg != "" && d.X.C > 1 {
						c.Seen("not converged")
						c.Check(warned, "no warning, but %s", msg)
					}
				}
			}
		}
	}
}

func descent(c *vc.Ctx, d *vc.Data, lambs []float64, starts []int, l2s []float64, idents []bool) {
	ref := vc.Normalise(d.X, d.Y)
	if !ref.OK || ref.Bias && d.X.C == 1 {
		return
	}
	gram, xty := ref.Gram(), ref.Xty()
	top := 0.0
	for _, v := range xty {
		top = math.Max(top, math.Abs(v))
	}
	eye := vc.EyeMat(d.X.C)
	x, y := d.X.Dense(), vc.Clone(d.Y)
	nd := fs.NewNormalizedData(x, y)
	xs, ys := vc.Clone(vc.FromDense(x).D), vc.Clone(y)
	all := append(vc.Clone(lambs), top*(1+1e-6), top*0.999, top*1.5)
	for _, lamb := range all {
		for _, st := range starts {
			for _, l2 := range l2s {
				for _, id := range idents {
					k := cdCase{lamb, l2, id, st}
					c.Input(func() string { return d.String() + " " + k.String() })
					x0 := startVector(st, d.X.C)
					keep := vc.Clone(x0)
					var cov fs.CovMat = &fs.Empirical{}
					m := gram
					if id {
						cov, m = &fs.Identity{}, eye
					}
					var corr fs.LassoCorrection = &fs.PureLasso{}
					if l2 > 0 {
						corr = &fs.ElasticNet{Lamb: l2}
					}
					beta := fs.LassoCrdDesc(nd, lamb, cov, x0, 100000, 1e-12, corr)
					c.Exec(1)
					c.State(1)
					c.Step(1)
					msg := vc.KKT(m, xty, lamb, l2, clean(beta, 1e-12), ref.Bias, kktTol)
					if msg != "" {
						// changes as large as rounding errors can exceed the tolerance for ever, if the
						// coefficients are tiny; no smaller number of iterations is then better, and the
						// tolerance has to be one that can be reached
						b1 := fs.LassoCrdDesc(nd, lamb, cov, x0, 99999, 1e-12, corr)
						diff := 0.0
						for j := range b1 {
							diff = math.Max(diff, math.Abs(b1[j]-beta[j]))
						}
						if diff > 1e-12*maxAbs(beta) && diff < 1e-15 {
							c.Seen("tolerance below rounding")
							beta = fs.LassoCrdDesc(nd, lamb, cov, x0, 100000, 1e-15/maxAbs(beta), corr)
							msg = vc.KKT(m, xty, lamb, l2, clean(beta, 1e-12), ref.Bias, kktTol)
						}
					}
					c.Check(msg == "", "%s", msg)
					n := 0
					for _, b := range beta {
						if math.Abs(b) > 1e-12 {
							n++
						}
					}
					c.Seen(fmt.Sprintf("%d features selected", n))
					c.Check(lamb <= top || n == 0, "regularisation %g is larger than any correlation (%g), but %v was returned", lamb, top, beta)
					c.Check(vc.SameBits(x0, keep), "the start vector was changed from %v to %v", keep, x0)
					c.Check(vc.SameBits(vc.FromDense(x).D, xs) && vc.SameBits(y, ys), "the dataset was modified")
				}
			}
		}
	}
}

// coarse checks what a tolerance means: the last iteration changed no coefficient by
// more than tol times the largest coefficient, so no condition is off by more than
// that many times the sum of its covariances
func coarse(c *vc.Ctx, d *vc.Data, tols []float64) {
	ref := vc.Normalise(d.X, d.Y)
	if !ref.OK || ref.Bias && d.X.C == 1 {
		return
	}
	gram, xty := ref.Gram(), ref.Xty()
	nd := fs.NewNormalizedData(d.X.Dense(), vc.Clone(d.Y))
	top := 0.0
	for _, v := range xty {
		top = math.Max(top, math.Abs(v))
	}
	slack := 1e-14 * (1 + top) // rounding
	for _, lamb := range []float64{top * (1 - 1e-9), top * (1 - 1e-7), top * 0.999, top * 0.95, top * 0.7, top * 0.4, top * 0.1} {
		for _, tol := range tols {
			for _, l2 := range []float64{0, 0.2} {
				for _, st := range []int{0, 2} {
					c.Input(func() string {
						return fmt.Sprintf("%v regularisation %g penalty %g tolerance %g start vector %d", d, lamb, l2, tol, st)
					})
					var corr fs.LassoCorrection = &fs.PureLasso{}
					if l2 > 0 {
						corr = &fs.ElasticNet{Lamb: l2}
					}
					beta := fs.LassoCrdDesc(nd, lamb, &fs.Empirical{}, startVector(st, d.X.C), 100000, tol, corr)
					c.Exec(1)
					c.State(1)
					c.Step(1)
					limit := maxAbs(beta) * tol
					for j, b := range beta {
						g, s := xty[j]-l2*b, l2
						for k := range beta {
							g -= gram.At(j, k) * beta[k]
							s += math.Abs(gram.At(j, k))
						}
						if ref.Bias && j == 0 {
							continue
						}
						if math.Abs(b) < 1e-15 {
							c.Check(math.Abs(g) <= lamb+1e-10+slack, "feature %d is not selected, but has correlation %g", j, g)
							continue
						}
						c.Check(math.Abs(g-math.Copysign(lamb, b)) <= s*limit*1.001+slack, "feature %d (coefficient %g, largest %g) has correlation %.9g, off by more than the tolerance", j, b, maxAbs(beta), g)
					}
				}
			}
		}
	}
}

func l01(c *vc.Ctx) {
	c.Group("small datasets")
	c.Bound("all datasets with 4 points and 1 to 3 columns out of 7 (4 targets) that can be normalised; 7 regularisations, 2 penalties, 2 covariances, 3 start vectors")
	for p := 1; p <= 3; p++ {
		vc.SmallData(vc.Columns4[:7], vc.Targets4[:4], p, func(d *vc.Data) {
			if !vc.Normalise(d.X, d.Y).OK {
				return
			}
			c.Case(d.Name, func() {
				descent(c, d, []float64{0.02, 0.1, 0.3, 0.6}, []int{0, 2, 3}, []float64{0, 0.3}, []bool{false, true})
			})
		})
	}
	c.Group("structured datasets")
	c.Bound("structured datasets with up to 12 features; 8 regularisations, 3 penalties, 2 covariances, 5 start vectors")
	for seed := uint64(0); seed < uint64(c.Pick(12, 80)); seed++ {
		for k := 0; k < vc.NumKinds; k++ {
			for _, sh := range [][2]int{{5, 3}, {8, 4}, {12, 6}, {20, 5}, {6, 2}, {9, 1}, {30, 12}, {6, 8}, {5, 5}, {70, 24}, {130, 6}} {
				if k == vc.KindZero || sh[1] < 2 && k == vc.KindDuplicate {
					continue
				}
				d := vc.Structured(k, sh[0], sh[1], seed+10)
				lambs := []float64{0.003, 0.02, 0.1, 0.3, 0.7}
				if sh[1] >= sh[0]-1 {
					lambs = lambs[2:]
				}
				c.Case(d.Name, func() { descent(c, d, lambs, []int{0, 1, 2, 3, 4}, []float64{0, 0.1, 0.5}, []bool{false, true}) })
			}
		}
	}
	c.Group("limits")
	c.Bound("small and structured datasets with 1 to 3, 7 or unlimited iterations, corrections that do not vanish at zero: number of iterations, warning, optimality")
	for p := 1; p <= 3; p++ {
		vc.SmallData(vc.Columns4[:6], vc.Targets4[:2], p, func(d *vc.Data) {
			c.Case(d.Name, func() { limits(c, d) })
		})
	}
	for seed := uint64(0); seed < uint64(c.Pick(12, 80)); seed++ {
		for _, k := range []int{vc.KindRandom, vc.KindSparse, vc.KindBias, vc.KindScaled, vc.KindCorrelated} {
			for _, sh := range [][2]int{{8, 3}, {12, 6}, {30, 12}, {9, 2}} {
				d := vc.Structured(k, sh[0], sh[1], seed+210)
				c.Case(d.Name, func() { limits(c, d) })
			}
		}
	}
	c.Group("tolerances")
	c.Bound("small and structured datasets with tolerances 0.1 to 1e-6, 5 regularisations, 2 penalties, 2 start vectors")
	for p := 2; p <= 3; p++ {
		vc.SmallData(vc.Columns4[:7], vc.Targets4[:3], p, func(d *vc.Data) {
			c.Case(d.Name, func() { coarse(c, d, []float64{0.1, 1e-2, 1e-4}) })
		})
	}
	for seed := uint64(0); seed < uint64(c.Pick(16, 120)); seed++ {
		for _, k := range []int{vc.KindRandom, vc.KindSparse, vc.KindBias, vc.KindScaled, vc.KindCorrelated} {
			for _, sh := range [][2]int{{8, 3}, {12, 6}, {30, 12}, {9, 2}, {60, 30}} {
				d := vc.Structured(k, sh[0], sh[1], seed+310)
				c.Case(d.Name, func() { coarse(c, d, []float64{0.1, 1e-2, 1e-4, 1e-6}) })
			}
		}
	}
	c.Group("parts")
	c.Bound("soft threshold and matrix products on small grids")
	c.Case("grid", func() {
		for i := -20; i <= 20; i++ {
			for t := 0; t <= 20; t++ {
				x, th := float64(i)/4, float64(t)/4
				w := math.Copysign(math.Max(math.Abs(x)-th, 0), x)
				c.Check(fs.SoftThreshold(x, th) == w, "SoftThreshold(%g, %g) is %g", x, th, fs.SoftThreshold(x, th))
				c.Exec(1)
				c.Step(1)
				c.State(1)
			}
		}
		for p := 1; p <= 4; p++ {
			for q := 1; q <= 4; q++ {
				h := vc.NewHash(uint64(p*10 + q))
				m := &vc.Mat{R: p, C: q, D: h.Vec(p * q)}
				v := h.Vec(q)
				r := fs.MulSlice(m.Dense(), v)
				for i := range r {
					s := 0.0
					for j := range v {
						s += m.At(i, j) * v[j]
					}
					c.Check(vc.Close(r[i], s, 1e-12) && len(r) == p, "MulSlice")
				}
				c.Check(panics(func() { fs.MulSlice(m.Dense(), h.Vec(q+1)) }), "MulSlice of a vector that is too long")
				if p == q {
					for j := 0; j < p; j++ {
						w := vc.Clone(r)
						o := v[j]
						u := vc.Clone(v)
						u[j] = 1.5
						fs.UpdateCovDotBeta(m.Dense(), w, j, o, 1.5)
						c.Check(vc.CloseSlices(w, fs.MulSlice(m.Dense(), u), 1e-12), "UpdateCovDotBeta")
					}
				}
			}
		}
	})
	l01Sizes(c)
	histories(c, histData(), histL01)
}

// --------------------------------------------------------------------- LARS

func larsCheck(c *vc.Ctx, d *vc.Data, rel float64) {
	ref := vc.Normalise(d.X, d.Y)
	n := float64(d.X.R)
	gram, xty := ref.Gram(), ref.Xty()
	top, second := 0.0, 0.0
	for _, v := range xty {
		v = math.Abs(v) * n
		if v > top {
			top, second = v, top
		} else if v > second {
			second = v
		}
	}
	lambMin := rel * top
	y := vc.Clone(d.Y)
	x := d.X.Dense()
	nd := fs.NewNormalizedData(x, y)
	xs, ys := vc.Clone(vc.FromDense(x).D), vc.Clone(y)
	var est fs.MorsePenroseCD
	path := fs.LassoLars(nd, lambMin, &est)
	c.Exec(1)
	c.State(len(path))
	c.Step(len(path))
	c.Check(vc.SameBits(vc.FromDense(x).D, xs) && vc.SameBits(y, ys), "the dataset was modified")
	if top <= lambMin {
		c.Check(len(path) == 0, "%d nodes although no correlation exceeds the smallest regularisation", len(path))
		return
	}
	c.Check(len(path) > 0, "the path is empty")
	c.Check(vc.Close(path[0].Lamb, top, 1e-9), "the path starts at %.9g, the largest correlation is %.9g", path[0].Lamb, top)
	full := make([][]float64, len(path))
	tol := 1e-6 * math.Max(1, top/n)
	for i, nd := range path {
		c.Check(len(nd.Selection) == len(nd.Coeff), "node %d has %d features and %d coefficients", i, len(nd.Selection), len(nd.Coeff))
		full[i] = make([]float64, d.X.C)
		for k, j := range nd.Selection {
			c.Check(j >= 0 && j < d.X.C && (k == 0 || nd.Selection[k-1] < j), "node %d has the selection %v", i, nd.Selection)
			full[i][j] = nd.Coeff[k]
		}
		c.Check(nd.Lamb > lambMin, "node %d has regularisation %g, the requested minimum is %g", i, nd.Lamb, lambMin)
		if i > 0 {
			c.Check(nd.Lamb < path[i-1].Lamb, "regularisation %g of node %d after %g", nd.Lamb, i, path[i-1].Lamb)
			diff := 0
			a, b := map[int]bool{}, map[int]bool{}
			for _, j := range nd.Selection {
				a[j] = true
			}
			for _, j := range path[i-1].Selection {
				b[j] = true
			}
			for j := 0; j < d.X.C; j++ {
				if a[j] != b[j] {
					diff++
				}
			}
			c.Check(diff == 1, "nodes %d and %d have the selections %v and %v", i-1, i, path[i-1].Selection, nd.Selection)
		}
		// a feature has the coefficient zero where it joins
		msg := vc.KKTZero(gram, xty, nd.Lamb/n, 0, full[i], ref.Bias, tol, tol)
		c.Check(msg == "", "node %d of %d (%v): %s", i, len(path), nd.Selection, msg)
		if i > 0 {
			for _, t := range []float64{0.25, 0.5, 0.9} {
				b := make([]float64, d.X.C)
				for j := range b {
					b[j] = (1-t)*full[i-1][j] + t*full[i][j]
				}
				l := (1-t)*path[i-1].Lamb + t*nd.Lamb
				msg := vc.KKTZero(gram, xty, l/n, 0, b, ref.Bias, tol, tol)
				c.Check(msg == "", "between nodes %d and %d (regularisation %g): %s", i-1, i, l, msg)
			}
		}
	}
	// the solution of the last node continues to the minimum
	msg := continues(gram, xty, path[len(path)-1], full[len(path)-1], lambMin/n, tol, ref.Bias)
	c.Check(msg == "", "the path ends at the regularisation %g, but does not continue to %g: %s", path[len(path)-1].Lamb, lambMin, msg)
	// the features of the last node are those of the solution at the minimum
	beta, margin := vc.RefLasso(gram, xty, lambMin/n, 0, ref.Bias, nil, 200000)
	if margin > 1e-4 {
		sel := []int{}
		for j, b := range beta {
			if b != 0 {
				sel = append(sel, j)
			}
		}
		c.Check(vc.EqInts(sel, path[len(path)-1].Selection), "the path ends with %v, the solution at %g has %v", path[len(path)-1].Selection, lambMin, sel)
	}
	c.Seen(fmt.Sprintf("%d nodes", len(path)))
}

// clean treats tiny coefficients as zero
func clean(v []float64, tol float64) []float64 {
	r := vc.Clone(v)
	for i := range r {
		if math.Abs(r[i]) < tol {
			r[i] = 0
		}
	}
	return r
}

func l03(c *vc.Ctx) {
	c.Group("structured datasets")
	c.Bound("structured datasets in general position with up to 10 features, 5 smallest regularisations each")
	for seed := uint64(0); seed < uint64(c.Pick(48, 600)); seed++ {
		for _, k := range []int{vc.KindRandom, vc.KindSparse, vc.KindCorrelated, vc.KindBias, vc.KindScaled, vc.KindBig} {
			for _, sh := range [][2]int{{5, 3}, {8, 4}, {12, 6}, {20, 5}, {6, 2}, {9, 1}, {30, 10}, {15, 8}, {60, 20}, {130, 5}, {4, 3}, {6, 5}, {7, 6}} {
				d := vc.Structured(k, sh[0], sh[1], seed+30)
				ref := vc.Normalise(d.X, d.Y)
				if !ref.OK || ref.Bias && sh[1] == 1 || sh[0] == sh[1]+1 && !wellConditioned(d) {
					continue
				}
				c.Case(d.Name, func() {
					for _, rel := range []float64{1e-5, 0.05, 0.3, 0.8, 1.1} {
						c.Input(func() string { return fmt.Sprintf("%v smallest regularisation %g of the largest correlation", d, rel) })
						larsCheck(c, d, rel)
					}
				})
			}
		}
	}

	c.Group("close events")
	c.Bound("targets between two datasets, at the places where two events of the path change their order, down to a distance of 0.00003")
	for seed := uint64(0); seed < uint64(c.Pick(12, 200)); seed++ {
		for _, k := range []int{vc.KindRandom, vc.KindCorrelated, vc.KindBias} {
			for _, sh := range [][2]int{{6, 3}, {9, 5}, {14, 7}, {30, 5}} {
				d, e := vc.Structured(k, sh[0], sh[1], seed+5000), vc.Structured(k, sh[0], sh[1], seed+7000)
				if !vc.Normalise(d.X, d.Y).OK {
					continue
				}
				c.Case(d.Name, func() { nearTies(c, d, e.Y, c.Pick(6, 20)) })
			}
		}
	}
	c.Group("late events")
	c.Bound("targets that are sums of up to 6 columns, one of them with a coefficient between 0.00003 and 0.03 of the others: it may enter with the wrong sign and leave shortly before the end")
	for seed := uint64(0); seed < uint64(c.Pick(8, 120)); seed++ {
		for _, k := range []int{vc.KindRandom, vc.KindCorrelated, vc.KindBias} {
			for _, sh := range [][2]int{{6, 3}, {9, 5}, {14, 6}} {
				d := vc.Structured(k, sh[0], sh[1], seed+9000)
				c.Case(d.Name, func() { lateEvents(c, d, seed) })
			}
		}
	}
	l03Sizes(c)
	histories(c, histData(), histL03)
}

// continues extends the last piece of the path to a smaller regularisation
func continues(gram *vc.Mat, xty []float64, last *fs.LassoLarsNode, beta []float64, lamb, tol float64, bias bool) string {
	sel := last.Selection
	a, b := vc.NewMat(len(sel), len(sel)), make([]float64, len(sel))
	for i, j := range sel {
		g := xty[j]
		for k := range beta {
			g -= gram.At(j, k) * beta[k]
		}
		for q, k := range sel {
			a.Set(i, q, gram.At(j, k))
		}
		b[i] = xty[j] - math.Copysign(lamb, g)
	}
	sol, ok := vc.Solve(a, b)
	if !ok {
		return ""
	}
	end := make([]float64, len(beta))
	for i, j := range sel {
		end[j] = sol[i]
	}
	return vc.KKTZero(gram, xty, lamb, 0, end, bias, tol, 10*tol)
}

// wellConditioned tells if the columns of the normalised design are far from dependent
func wellConditioned(d *vc.Data) bool {
	x := d.X.Dense()
	nd := fs.NewNormalizedData(x, vc.Clone(d.Y))
	var s mat.SVD
	if !s.Factorize(x, mat.SVDNone) {
		return false
	}
	v := s.Values(nil)
	n := len(v)
	if nd.HasBias {
		n--
	}
	return v[n-1] > 0.3
}

// lateEvents gives one column after the other a small coefficient
func lateEvents(c *vc.Ctx, d *vc.Data, seed uint64) {
	h := vc.NewHash(seed + 77)
	b := h.Vec(d.X.C)
	for j := range b {
		b[j] += math.Copysign(0.3, b[j])
	}
	for j := range b {
		for _, s := range []float64{3e-2, 3e-3, 3e-4, 3e-5, -3e-2, -3e-3, -3e-4, -3e-5} {
			e := &vc.Data{Name: d.Name, X: d.X, Y: make([]float64, d.X.R)}
			for i := range e.Y {
				for k, v := range b {
					if k == j {
						v = s
					}
					e.Y[i] += v * d.X.At(i, k)
				}
			}
			if !vc.Normalise(e.X, e.Y).OK {
				continue
			}
			c.Input(func() string { return fmt.Sprintf("%v smallest regularisation 0.00001 of the largest correlation", e) })
			larsCheck(c, e, 1e-5)
		}
	}
}

// nearTies moves the target from one dataset to the other and looks for the places
// where the order of two events of the path changes; the events are close to each
// other in the neighbourhood
func nearTies(c *vc.Ctx, d *vc.Data, y1 []float64, intervals int) {
	mix := func(t float64) *vc.Data {
		e := &vc.Data{Name: d.Name, X: d.X, Y: make([]float64, len(d.Y))}
		for i := range e.Y {
			e.Y[i] = (1-t)*d.Y[i] + t*y1[i]
		}
		return e
	}
	// the events, and the shortest distance between two of them, or between the
	// regularisation of an event and the correlation of a feature that does not join
	look := func(t float64) (string, float64) {
		e := mix(t)
		var est fs.MorsePenroseCD
		x := e.X.Dense()
		nd := fs.NewNormalizedData(x, e.Y)
		xn, yn := vc.FromDense(x), vc.Clone(e.Y)
		top := 0.0
		for j := 0; j < d.X.C; j++ {
			top = math.Max(top, math.Abs(vc.Dot(xn.Col(j), yn)))
		}
		path := fs.LassoLars(nd, 1e-3*top, &est)
		sig, gap := "", math.Inf(1)
		in := make([]bool, d.X.C)
		for i, n := range path {
			sig += fmt.Sprint(n.Selection)
			if i > 0 {
				gap = math.Min(gap, path[i-1].Lamb-n.Lamb)
			}
			res := vc.Clone(yn)
			now := make([]bool, d.X.C)
			for k, j := range n.Selection {
				if j >= 0 && j < len(now) && k < len(n.Coeff) {
					now[j] = true
					for r := range res {
						res[r] -= n.Coeff[k] * xn.At(r, j)
					}
				}
			}
			for j := range now {
				if !now[j] && !in[j] {
					dot := 0.0
					for r := range res {
						dot += res[r] * xn.At(r, j)
					}
					gap = math.Min(gap, math.Abs(math.Abs(dot)-n.Lamb))
				} else if now[j] && in[j] {
					for k, q := range n.Selection {
						if q == j {
							gap = math.Min(gap, math.Abs(n.Coeff[k]))
						}
					}
				}
			}
			in = now
		}
		return sig, gap
	}
	check := func(t float64) {
		e := mix(t)
		c.Input(func() string { return e.String() + " smallest regularisation 0.001" })
		larsCheck(c, e, 1e-3)
	}
	for k := 0; k < intervals; k++ {
		lo, hi := float64(k)/float64(intervals), float64(k+1)/float64(intervals)
		a, g := look(lo)
		if g < 1e-4 {
			continue
		}
		check(lo)
		for step := 0; step < 16; step++ {
			m := (lo + hi) / 2
			if b, _ := look(hi); b == a {
				break
			}
			b, g := look(m)
			if g < 3e-5 {
				break // within the tolerance of the algorithm it is a tie
			}
			check(m)
			if b == a {
				lo = m
			} else {
				hi = m
			}
		}
	}
}

// ------------------------------------------------------------ normalisation

func normalisation(c *vc.Ctx, d *vc.Data) {
	var sels [][]int
	for mask := 0; mask < 1<<uint(d.X.C); mask++ {
		sels = append(sels, vc.SelOf(mask, d.X.C))
	}
	normalised(c, d, sels)
}

// normalised checks the normalisation, and the way back for the given selections
func normalised(c *vc.Ctx, d *vc.Data, sels [][]int) {
	ref := vc.Normalise(d.X, d.Y)
	x, y := d.X.Dense(), vc.Clone(d.Y)
	constant := false
	for j := 1; j < d.X.C; j++ {
		constant = constant || vc.RefStd(d.X.Col(j)) < 1e-10
	}
	c.Exec(1)
	c.State(1)
	c.Step(1)
	if constant {
		c.Check(panics(func() { fs.NewNormalizedData(x, y) }), "a constant column other than the first is accepted")
		return
	}
	if ref.SdY < 1e-9 {
		return
	}
	nd := fs.NewNormalizedData(x, y)
	c.Check(nd.HasBias == ref.Bias, "HasBias is %v", nd.HasBias)
	p := d.X.C
	check := func(v []float64, what string) {
		c.Check(math.Abs(vc.RefMean(v)) < 1e-9 && math.Abs(vc.RefStd(v)-1) < 1e-9, "%s has mean %g and standard deviation %g", what, vc.RefMean(v), vc.RefStd(v))
	}
	check(y, "the target")
	nx := vc.FromDense(nd.X)
	for j := 0; j < p; j++ {
		if j > 0 || !ref.Bias {
			check(nx.Col(j), fmt.Sprint("column ", j))
		}
		for i := 0; i < d.X.R; i++ {
			c.Check(vc.Close(nx.At(i, j), ref.X.At(i, j), 1e-9), "element %d %d is %g instead of %g", i, j, nx.At(i, j), ref.X.At(i, j))
		}
	}
	for i := range y {
		c.Check(vc.Close(y[i], ref.Y[i], 1e-9), "target %d is %g instead of %g", i, y[i], ref.Y[i])
	}
	// every selection, with arbitrary coefficients
	var path []*fs.LassoLarsNode
	var want [][]float64
	h := vc.NewHash(uint64(p))
	for num, sel := range sels {
		if ref.Bias && len(sel) > 0 && sel[0] == 0 {
			continue
		}
		coeff := h.Vec(len(sel))
		pred := make([]float64, d.X.R)
		for i := range pred {
			for k, j := range sel {
				pred[i] += coeff[k] * nx.At(i, j)
			}
			pred[i] = ref.MuY + ref.SdY*pred[i]
		}
		// the intercept is the constant of the transformed coefficients
		b := nd.LinearTransformationBias(sel, coeff)
		for i := range pred {
			v := b
			for k, j := range sel {
				v += nd.LinearNormalizationTransformation(j, coeff[k]) * d.X.At(i, j)
			}
			c.Check(vc.Close(v, pred[i], 1e-8), "selection %v: the intercept %g and the transformed coefficients give %g for point %d, the normalised data %g", sel, b, v, i, pred[i])
		}
		want = append(want, pred)
		path = append(path, fs.NewLassoLarsNode(coeff, float64(num+1), append([]int{}, sel...)))
	}
	fs.Path2Unnormalized(nd, path)
	for k, n := range path {
		c.Check(len(n.Selection) == len(n.Coeff), "node %d has %d features and %d coefficients", k, len(n.Selection), len(n.Coeff))
		sel := append([]int{}, sels[int(n.Lamb)-1]...)
		if ref.Bias {
			sel = append([]int{0}, sel...)
		}
		c.Check(vc.EqInts(n.Selection, sel), "the selection %v became %v", sel, n.Selection)
		c0 := 0.0
		for i := 0; i < d.X.R; i++ {
			v := 0.0
			for q, j := range n.Selection {
				v += n.Coeff[q] * d.X.At(i, j)
			}
			if i == 0 && !ref.Bias {
				c0 = want[k][0] - v
			}
			if ref.Bias && ref.Mu[0] == 0 {
				break // a column of zeros cannot hold the intercept
			}
			c.Check(vc.Close(v+c0, want[k][i], 1e-8), "selection %v predicts %g for point %d of the original data, the normalised path predicts %g (constant %g)", n.Selection, v, i, want[k][i], c0)
		}
		c.Step(1)
		c.State(1)
	}
	sp := fs.LassoNodesSlice2SparsCoeff(path)
	for k, n := range path {
		c.Check(vc.EqInts(sp[k].Selection, n.Selection) && vc.SameBits(sp[k].Coeff, n.Coeff), "LassoNodesSlice2SparsCoeff: node %d became %v", k, sp[k])
	}
}

// offsets checks that data far from zero are normalised; rounding allows an error of
// the size of the mean times the precision
func offsets(c *vc.Ctx, d *vc.Data) {
	x, y := d.X.Dense(), vc.Clone(d.Y)
	c.Input(d.String)
	c.Exec(1)
	c.State(1)
	c.Step(1)
	if panics(func() { _ = fs.NewNormalizedData(d.X.Dense(), vc.Clone(d.Y)) }) {
		c.Fail("data that vary are rejected")
	}
	nd := fs.NewNormalizedData(x, y)
	c.Check(!nd.HasBias, "the first column varies, but is taken for constant")
	nx := vc.FromDense(nd.X)
	check := func(v, orig []float64, what string) {
		tol := 1e-9 + 1e-14*maxAbs(orig)/vc.RefStd(orig)
		mu, sd := vc.RefMean(orig), vc.RefStd(orig)
		c.Check(math.Abs(vc.RefMean(v)) < tol && math.Abs(vc.RefStd(v)-1) < tol, "%s has mean %g and standard deviation %g", what, vc.RefMean(v), vc.RefStd(v))
		for i := range v {
			c.Check(math.Abs(v[i]-(orig[i]-mu)/sd) < 10*tol, "%s: element %d is %g instead of %g", what, i, v[i], (orig[i]-mu)/sd)
		}
	}
	for j := 0; j < d.X.C; j++ {
		check(nx.Col(j), d.X.Col(j), fmt.Sprint("column ", j))
	}
	check(y, d.Y, "the target")
}

func l04(c *vc.Ctx) {
	c.Group("small datasets")
	c.Bound("all datasets with 4 points and 1 to 3 columns out of 10, 6 targets; all selections")
	for p := 1; p <= 3; p++ {
		vc.SmallData(append([][]float64{{3, 3, 3, 3}, {-0.5, -0.5, -0.5, -0.5}}, vc.Columns4...), vc.Targets4, p, func(d *vc.Data) {
			c.Case(d.Name, func() {
				c.Input(d.String)
				normalisation(c, d)
			})
		})
	}
	c.Group("structured datasets")
	c.Bound("structured datasets with up to 8 features; all selections")
	for seed := uint64(0); seed < uint64(c.Pick(16, 120)); seed++ {
		for k := 0; k < vc.NumKinds; k++ {
			for _, sh := range [][2]int{{5, 3}, {8, 4}, {3, 6}, {12, 8}, {2, 3}, {30, 5}, {9, 1}, {70, 7}, {130, 4}} {
				if sh[1] == 1 && k == vc.KindDuplicate {
					continue
				}
				d := vc.Structured(k, sh[0], sh[1], seed+130)
				c.Case(d.Name, func() {
					c.Input(d.String)
					normalisation(c, d)
				})
			}
		}
	}
	c.Group("offsets")
	c.Bound("columns and targets whose mean is up to 1e8 times their deviation, or that are very small or large; 2 to 5 columns, every combination of 7 kinds in the first two")
	kinds := [][2]float64{{1, 0}, {1, 100}, {1, 1e6}, {1, -1e8}, {1e-5, 300}, {1e6, 1e13}, {1e-6, 0}}
	for a := range kinds {
		for b := range kinds {
			for _, sh := range [][2]int{{5, 2}, {9, 3}, {40, 5}} {
				c.Case(fmt.Sprintf("%d-%d-%dx%d", a, b, sh[0], sh[1]), func() {
					d := vc.Structured(vc.KindRandom, sh[0], sh[1], uint64(a*10+b))
					for j, k := range []int{a, b} {
						for i := 0; i < sh[0]; i++ {
							d.X.Set(i, j, d.X.At(i, j)*kinds[k][0]+kinds[k][1])
						}
					}
					for i := range d.Y {
						d.Y[i] = d.Y[i]*kinds[(a+b)%7][0] + kinds[(a+b)%7][1]
					}
					offsets(c, d)
				})
			}
		}
	}
	c.Group("utilities")
	c.Bound("mean, standard deviation and normalisation of rows and columns, 1 to 9 elements")
	for n := 1; n <= 9; n++ {
		for m := 2; m <= 6; m++ {
			c.Case(fmt.Sprintf("%dx%d", n, m), func() {
				h := vc.NewHash(uint64(n*7 + m))
				a := &vc.Mat{R: n, C: m, D: h.Vec(n * m)}
				r := a.Dense()
				fs.NormalizeRows(r)
				got := vc.FromDense(r)
				for i := 0; i < n; i++ {
					row := a.D[i*m : (i+1)*m]
					mu, sd := vc.RefMean(row), vc.RefStd(row)
					c.Check(vc.Close(fs.Mean(row), mu, 1e-12) && vc.Close(fs.Std(row), sd, 1e-12), "Mean or Std of %v", row)
					for j := range row {
						c.Check(vc.Close(got.At(i, j), (row[j]-mu)/sd, 1e-9), "NormalizeRows")
					}
				}
				t := vc.NewMat(m, n)
				for i := 0; i < n; i++ {
					for j := 0; j < m; j++ {
						t.Set(j, i, a.At(i, j))
					}
				}
				q := t.Dense()
				fs.NormalizeCols(q)
				for i := 0; i < n; i++ {
					for j := 0; j < m; j++ {
						c.Check(vc.Close(q.At(j, i), got.At(i, j), 1e-9), "NormalizeCols")
					}
				}
				c.Exec(2)
				c.Step(2)
				c.State(1)
			})
		}
	}
	l04Sizes(c)
	histories(c, histData(), histL04)
}

// ------------------------------------------------------------- nested lasso

func nested(c *vc.Ctx, d *vc.Data, target int, lambRel, keep float64) {
	ref := vc.Normalise(d.X, d.Y)
	p := d.X.C
	top := 0.0
	for _, v := range ref.Xty() {
		top = math.Max(top, math.Abs(v)*float64(d.X.R))
	}
	lambMin := lambRel * top
	names := make([]string, p+1)
	k := 0
	for i := range names {
		if i == target {
			names[i] = "target"
		} else {
			names[i] = fmt.Sprintf("feature %d", (k*37)%101)
			k++
		}
	}
	ds := &fs.Dataset{X: d.X.Dense(), Y: vc.Clone(d.Y), Names: append([]string{}, names...), TargetCol: target}
	var est fs.MorsePenroseCD
	res := fs.NestedLasso(ds, lambMin, keep, &est)
	c.Exec(1)
	c.State(len(res.Paths))
	c.Check(res.Dset == ds, "the dataset of the result is another one")
	c.Check(vc.SameBits(vc.FromDense(ds.X).D, d.X.D) && vc.SameBits(ds.Y, d.Y) && ds.TargetCol == target, "the dataset was modified")
	for i := range names {
		c.Check(ds.Names[i] == names[i], "the names were modified")
	}
	// the same, step by step
	cols := make([]int, p)
	for i := range cols {
		cols[i] = i
	}
	for step := 0; ; step++ {
		if step > 3*p+3 {
			c.Fail("%d paths", len(res.Paths))
		}
		c.Check(step < len(res.Paths), "%d paths, at least %d were expected (features %v)", len(res.Paths), step+1, cols)
		sub := vc.NewMat(d.X.R, len(cols))
		for i := 0; i < d.X.R; i++ {
			for j, v := range cols {
				sub.Set(i, j, d.X.At(i, v))
			}
		}
		x, y := sub.Dense(), vc.Clone(d.Y)
		nd := fs.NewNormalizedData(x, y)
		var est fs.MorsePenroseCD
		want := fs.LassoLars(nd, lambMin, &est)
		got := res.Paths[step]
		c.Check(len(got.Nodes) == len(want) && len(got.Aicc) == len(want) && len(got.Bic) == len(want), "path %d has %d nodes, %d AICc and %d BIC values instead of %d (features %v)", step, len(got.Nodes), len(got.Aicc), len(got.Bic), len(want), cols)
		entered := []int{}
		newNum := int(keep * float64(len(cols)))
		survivors := []int(nil)
		for i, w := range want {
			c.Step(1)
			// criteria are those of the normalised data
			r := vc.Clone(y)
			for q, j := range w.Selection {
				for t := range r {
					r[t] -= w.Coeff[q] * x.At(t, j)
				}
				known := false
				for _, e := range entered {
					known = known || e == j
				}
				if !known {
					entered = append(entered, j)
				}
			}
			if survivors == nil && len(entered) >= newNum {
				survivors = append([]int{}, entered...)
			}
			rss := vc.Dot(r, r)
			c.Check(vc.Close(got.Aicc[i], vc.RefAicc(len(w.Selection), d.X.R, rss), 1e-6), "path %d, node %d: AICc is %g instead of %g", step, i, got.Aicc[i], vc.RefAicc(len(w.Selection), d.X.R, rss))
			c.Check(vc.Close(got.Bic[i], vc.RefBic(len(w.Selection), d.X.R, rss), 1e-6), "path %d, node %d: BIC is %g instead of %g", step, i, got.Bic[i], vc.RefBic(len(w.Selection), d.X.R, rss))
			g := got.Nodes[i]
			c.Check(vc.Close(g.Lamb, w.Lamb, 1e-7), "path %d, node %d: regularisation %.9g instead of %.9g", step, i, g.Lamb, w.Lamb)
			full := make([]float64, p)
			bias := ref.MuY
			for q, j := range w.Selection {
				full[cols[j]] = w.Coeff[q] * ref.SdY / ref.Std[cols[j]]
				bias -= full[cols[j]] * ref.Mu[cols[j]]
			}
			if ref.Bias {
				bias /= ref.Mu[0]
			}
			num := len(w.Selection)
			if ref.Bias {
				full[0] = bias
				num++
			}
			c.Check(len(g.Selection) == num && len(g.Coeff) == num, "path %d, node %d: selection %v with %d coefficients instead of %d", step, i, g.Selection, len(g.Coeff), num)
			have := make([]float64, p)
			for q, j := range g.Selection {
				c.Check(j >= 0 && j < p && have[j] == 0, "path %d, node %d: selection %v", step, i, g.Selection)
				have[j] = g.Coeff[q]
			}
			for _, j := range w.Selection {
				found := false
				for _, o := range g.Selection {
					found = found || o == cols[j]
				}
				c.Check(found, "path %d, node %d: feature %d of the dataset is not in %v", step, i, cols[j], g.Selection)
			}
			c.Check(vc.CloseSlices(have, full, 1e-6), "path %d, node %d: coefficients %.8g instead of %.8g (selection %v)", step, i, have, full, g.Selection)
		}
		if survivors == nil {
			survivors = entered
		}
		if newNum <= 2 || len(survivors) == 0 || len(survivors) == len(cols) {
			c.Check(len(res.Paths) == step+1, "%d paths instead of %d", len(res.Paths), step+1)
			c.Seen(fmt.Sprintf("%d paths", step+1))
			return
		}
		next := make([]int, len(survivors))
		for i, s := range survivors {
			next[i] = cols[s]
		}
		cols = next
	}
}

func l05(c *vc.Ctx) {
	c.Group("datasets")
	c.Bound("structured datasets in general position with up to 10 features, every target column position, 6 keep fractions, 3 smallest regularisations")
	for seed := uint64(0); seed < uint64(c.Pick(12, 120)); seed++ {
		for _, k := range []int{vc.KindRandom, vc.KindSparse, vc.KindCorrelated, vc.KindBias, vc.KindScaled} {
			for _, sh := range [][2]int{{8, 4}, {12, 6}, {20, 5}, {9, 3}, {30, 10}, {6, 2}, {70, 18}} {
				d := vc.Structured(k, sh[0], sh[1], seed+30)
				if !vc.Normalise(d.X, d.Y).OK {
					continue
				}
				for i, keep := range []float64{0.8, 0.5, 0.3, 0.9, 0.99, 1} {
					for j, rel := range []float64{1e-4, 0.2, 0.6, 1.1} {
						target := (int(seed) + i + j) % (sh[1] + 1)
						if (i+j)%3 == 0 {
							target = sh[1]
						}
						c.Case(fmt.Sprintf("%s-keep%g-%g", d.Name, keep, rel), func() {
							c.Input(func() string {
								return fmt.Sprintf("%v target column %d keep %g smallest regularisation %g of the largest correlation", d, target, keep, rel)
							})
							nested(c, d, target, rel, keep)
						})
					}
				}
			}
		}
	}
	l05Sizes(c)
	histories(c, histData(), histL05)
}

// -------------------------------------------------------------- path queries

func onCanvas(p *plot.Plot) int {
	var r recorder.Canvas
	p.Draw(draw.NewCanvas(&r, 8*vg.Inch, 8*vg.Inch))
	return len(r.Actions)
}

type segment struct{ x0, y0, x1, y1 float64 }

// drawn gives the straight segments and the centres of the glyphs (circles
// and small closed shapes) on the canvas, in the coordinates of the data
func drawn(p *plot.Plot) (segs []segment, marks [][2]float64) {
	var r recorder.Canvas
	c := draw.NewCanvas(&r, 8*vg.Inch, 8*vg.Inch)
	p.Draw(c)
	dc := p.DataCanvas(c)
	tx, ty := p.Transforms(&dc)
	back := func(a *plot.Axis, t func(float64) vg.Length, v vg.Length) float64 {
		lo, hi := t(a.Min), t(a.Max)
		return a.Min + float64(v-lo)/float64(hi-lo)*(a.Max-a.Min)
	}
	data := func(q vg.Point) (float64, float64) { return back(&p.X, tx, q.X), back(&p.Y, ty, q.Y) }
	for _, a := range r.Actions {
		var path vg.Path
		switch s := a.(type) {
		case *recorder.Stroke:
			path = s.Path
		case *recorder.Fill:
			path = s.Path
		}
		var px, py float64
		lo, hi := vg.Point{X: vg.Length(inf), Y: vg.Length(inf)}, vg.Point{X: -vg.Length(inf), Y: -vg.Length(inf)}
		for _, q := range path {
			if q.Type == vg.CloseComp {
				if hi.X-lo.X < vg.Points(20) && hi.Y-lo.Y < vg.Points(20) {
					x, y := data(vg.Point{X: (lo.X + hi.X) / 2, Y: (lo.Y + hi.Y) / 2})
					marks = append(marks, [2]float64{x, y})
				}
				continue
			}
			lo.X, lo.Y = min(lo.X, q.Pos.X), min(lo.Y, q.Pos.Y)
			hi.X, hi.Y = max(hi.X, q.Pos.X), max(hi.Y, q.Pos.Y)
			x, y := data(q.Pos)
			switch q.Type {
			case vg.LineComp:
				segs = append(segs, segment{px, py, x, y})
			case vg.ArcComp:
				marks = append(marks, [2]float64{x, y})
			}
			px, py = x, y
		}
	}
	return segs, marks
}

// polyline checks that the segments between the points are drawn; those along
// the border may be clipped
func polyline(c *vc.Ctx, what string, p *plot.Plot, segs []segment, pts [][2]float64) {
	tx, ty := 1e-9*(p.X.Max-p.X.Min), 1e-9*(p.Y.Max-p.Y.Min)
	near := func(a, b, tol float64) bool { return math.Abs(a-b) <= tol }
	for i := 1; i < len(pts); i++ {
		a, b := pts[i-1], pts[i]
		if near(a[0], b[0], tx) && (near(a[0], p.X.Min, tx) || near(a[0], p.X.Max, tx)) ||
			near(a[1], b[1], ty) && (near(a[1], p.Y.Min, ty) || near(a[1], p.Y.Max, ty)) ||
			near(a[0], b[0], tx) && near(a[1], b[1], ty) {
			continue
		}
		found := false
		for _, s := range segs {
			found = found || near(s.x0, a[0], tx) && near(s.y0, a[1], ty) && near(s.x1, b[0], tx) && near(s.y1, b[1], ty) ||
				near(s.x0, b[0], tx) && near(s.y0, b[1], ty) && near(s.x1, a[0], tx) && near(s.y1, a[1], ty)
		}
		c.Check(found, "%s: no line from (%g, %g) to (%g, %g) is drawn", what, a[0], a[1], b[0], b[1])
	}
}

// entrances checks what the plot of the entrance times shows: every node a
// feature is selected in and where it is selected first
func entrances(c *vc.Ctx, p *plot.Plot, sels [][]int, logl []float64) {
	segs, marks := drawn(p)
	first := map[int]float64{}
	tx, ty := 1e-9*(p.X.Max-p.X.Min), 1e-9*(p.Y.Max-p.Y.Min)
	lo, hi := math.MaxInt32, -1
	for i, sel := range sels {
		for _, j := range sel {
			v, ok := first[j]
			if !ok || logl[i] > v {
				first[j] = logl[i]
			}
			lo, hi = min(lo, j), max(hi, j)
			found := false
			for _, m := range marks {
				found = found || math.Abs(m[0]-float64(j)) <= tx && math.Abs(m[1]-logl[i]) <= ty
			}
			c.Check(found, "feature %d is in the model at the log regularisation %g, which is not shown", j, logl[i])
		}
	}
	var pts [][2]float64
	for j := lo; j <= hi; j++ {
		if y, ok := first[j]; ok {
			pts = append(pts, [2]float64{float64(j), y})
			continue
		}
		for _, s := range segs {
			for _, q := range [][2]float64{{s.x0, s.y0}, {s.x1, s.y1}} {
				c.Check(math.Abs(q[0]-float64(j)) > tx || q[1] <= p.Y.Min+ty || q[1] >= p.Y.Max-ty, "feature %d was never selected, its entrance is shown at %g", j, q[1])
			}
		}
	}
	polyline(c, "the first entrances", p, segs, pts)
}

func rangeOf(v []float64) (float64, float64) {
	lo, hi := inf, -inf
	for _, x := range v {
		lo, hi = math.Min(lo, x), math.Max(hi, x)
	}
	return lo, hi
}

// pathQueries checks the queries on a path with the given selections; shuffle
// picks the order within each selection
func pathQueries(c *vc.Ctx, d *vc.Data, masks []int, shuffle uint64, plots bool) {
	sels := make([][]int, len(masks))
	for i, mask := range masks {
		sels[i] = vc.SelOf(mask, d.X.C)
		if shuffle > 0 {
			sels[i] = shuffled(sels[i], shuffle+uint64(i))
		}
	}
	queryPath(c, d, sels, plots)
}

func pathOrders(c *vc.Ctx, d *vc.Data, sels [][]int) {
	c.Input(func() string { return fmt.Sprintf("selections %v %v", sels, d) })
	queryPath(c, d, sels, false)
}

func queryPath(c *vc.Ctx, d *vc.Data, sels [][]int, plots bool) {
	p := d.X.C
	path := &fs.LassoLarsPath{Dset: &fs.Dataset{X: d.X.Dense(), Y: vc.Clone(d.Y), TargetCol: p, Names: make([]string, p+1)}}
	h := vc.NewHash(uint64(len(sels)*31 + len(sels[0])))
	m := len(sels)
	coeffs := make([][]float64, m)
	lambs := make([]float64, m)
	for i, sel := range sels {
		co := make([]float64, len(sel))
		coeffs[i] = make([]float64, p)
		for k := range co {
			co[k] = float64(h.N(9)-4)/2 + 0.25
			coeffs[i][sel[k]] = co[k]
		}
		lambs[i] = math.Pow(10, -float64(i)/2+0.5)
		path.LassoLarsNodes = append(path.LassoLarsNodes, fs.NewLassoLarsNode(co, lambs[i], sel))
	}
	c.Exec(1)
	c.State(1)
	c.Step(m)
	logl := make([]float64, m)
	for i := range logl {
		logl[i] = math.Log10(lambs[i])
	}
	// trajectories
	for j := 0; j <= p; j++ {
		xy := path.ExtractPath(j)
		c.Check(len(xy) == m, "the trajectory has %d points", len(xy))
		for i := range xy {
			w := 0.0
			if j < p {
				w = coeffs[i][j]
			}
			c.Check(vc.Close(xy[i].X, logl[i], 1e-12) && xy[i].Y == w, "trajectory of feature %d: point %d is (%g, %g) instead of (%g, %g)", j, i, xy[i].X, xy[i].Y, logl[i], w)
		}
	}
	// criteria
	aicc, bic, aic := path.GetCriteria(fs.Aicc), path.GetCriteria(fs.Bic), path.GetCriteria(fs.Aic)
	rmse := make([]float64, m)
	perfect := false
	c.Check(len(aicc) == m && len(bic) == m && len(aic) == m, "%d criteria for %d nodes", len(aicc), m)
	for i := range sels {
		r := vc.Clone(d.Y)
		for t := range r {
			for j := 0; j < p; j++ {
				r[t] -= coeffs[i][j] * d.X.At(t, j)
			}
		}
		k := len(path.LassoLarsNodes[i].Selection)
		rss := vc.Dot(r, r)
		perfect = perfect || rss < 1e-10
		rmse[i] = math.Log10(math.Sqrt(rss / float64(d.X.R)))
		c.Check(vc.Close(aicc[i], vc.RefAicc(k, d.X.R, rss), 1e-7) && vc.Close(bic[i], vc.RefBic(k, d.X.R, rss), 1e-7) && vc.Close(aic[i], vc.RefAic(k, d.X.R, rss), 1e-7),
			"node %d: criteria %g %g %g instead of %g %g %g", i, aic[i], aicc[i], bic[i], vc.RefAic(k, d.X.R, rss), vc.RefAicc(k, d.X.R, rss), vc.RefBic(k, d.X.R, rss))
	}
	// relevance
	var order []int
	after := make([]int, m)
	seen := map[int]bool{}
	lo, hi := math.MaxInt32, -1
	for i := range sels {
		for _, j := range path.LassoLarsNodes[i].Selection {
			if !seen[j] {
				seen[j] = true
				order = append(order, j)
			}
			lo, hi = min(lo, j), max(hi, j)
		}
		after[i] = len(order)
	}
	for k := 1; k <= p+1; k++ {
		want := len(order)
		for i := range sels {
			if after[i] >= k {
				want = after[i]
				break
			}
		}
		got := path.PickMostRelevantFeatures(k)
		c.Check(vc.EqInts(got, order[:want]), "the %d most relevant features are %v instead of %v", k, got, order[:want])
	}
	if hi < 0 {
		return
	}
	a, b := path.MaxMinFeatNo()
	c.Check(a == lo && b == hi, "the selected features range from %d to %d, MaxMinFeatNo gives %d and %d", lo, hi, a, b)
	if !plots {
		return
	}
	// plots
	axis := func(what string, a *plot.Axis, lo, hi float64) {
		c.Check(vc.Close(a.Min, lo, 1e-9) && vc.Close(a.Max, hi, 1e-9), "%s of the plot goes from %g to %g, the data from %g to %g", what, a.Min, a.Max, lo, hi)
	}
	l0, l1 := rangeOf(logl)
	plt := path.PlotPath(nil)
	axis("the horizontal axis of the coefficients", &plt.X, l0, l1)
	flat := []float64{0}
	for i := range coeffs {
		flat = append(flat, coeffs[i]...)
	}
	c0, c1 := rangeOf(flat)
	axis("the vertical axis of the coefficients", &plt.Y, c0, c1)
	segs, _ := drawn(plt)
	for j := 0; j <= hi; j++ {
		polyline(c, fmt.Sprintf("the coefficient of feature %d", j), plt, segs, points(logl, func(i int) float64 { return coeffs[i][j] }))
	}
	polyline(c, "the zero line", plt, segs, [][2]float64{{logl[0], 0}, {logl[m-1], 0}})
	plt = path.PlotPath(&fs.AxisRange{Min: -7, Max: 9.5})
	axis("the given vertical axis", &plt.Y, -7, 9.5)
	plt = path.PlotEntranceTimes()
	var ent []float64
	for i := range sels {
		if len(sels[i]) > 0 {
			ent = append(ent, logl[i])
		}
	}
	e0, e1 := rangeOf(ent)
	axis("the horizontal axis of the entrance times", &plt.X, float64(lo), float64(hi))
	axis("the vertical axis of the entrance times", &plt.Y, e0, e1)
	entrances(c, plt, sels, logl)
	plt = path.PlotQualityScores()
	axis("the horizontal axis of the scores", &plt.X, l0, l1)
	q0, q1 := rangeOf(aicc)
	axis("the vertical axis of the scores", &plt.Y, q0, q1)
	segs, _ = drawn(plt)
	polyline(c, "the scores", plt, segs, points(logl, func(i int) float64 { return aicc[i] }))
	plt = path.PlotDeviations()
	axis("the horizontal axis of the deviations", &plt.X, l0, l1)
	if !perfect {
		d0, d1 := rangeOf(rmse)
		axis("the vertical axis of the deviations", &plt.Y, d0, d1)
		segs, _ = drawn(plt)
		polyline(c, "the deviations", plt, segs, points(logl, func(i int) float64 { return rmse[i] }))
	} else {
		onCanvas(plt)
	}
	c.Check(vc.SameBits(vc.FromDense(path.Dset.X).D, d.X.D) && vc.SameBits(path.Dset.Y, d.Y), "the dataset was modified")
	for i, n := range path.LassoLarsNodes {
		c.Check(vc.EqInts(n.Selection, sels[i]) && n.Lamb == lambs[i], "node %d was modified", i)
		for k, j := range n.Selection {
			c.Check(n.Coeff[k] == coeffs[i][j], "node %d was modified", i)
		}
	}
}

func points(x []float64, y func(int) float64) [][2]float64 {
	r := make([][2]float64, len(x))
	for i := range r {
		r[i] = [2]float64{x[i], y(i)}
	}
	return r
}

func shuffled(v []int, seed uint64) []int {
	h := vc.NewHash(seed * 77)
	r := append([]int{}, v...)
	for i := len(r) - 1; i > 0; i-- {
		j := h.N(i + 1)
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func l06(c *vc.Ctx) {
	for p := 1; p <= 4; p++ {
		l := []int{0, 5, 4, 3, 2}[p]
		if c.Thorough() && p > 1 {
			l++
		}
		c.Group(fmt.Sprintf("%d features", p))
		c.Bound("all paths with up to %d nodes (any selections)", l)
		d := vc.Structured(vc.KindSparse, 7, p, 5)
		for n := 1; n <= l; n++ {
			for first := 0; first < 1<<uint(p); first++ {
				c.Case(fmt.Sprintf("n%d-%b", n, first), func() {
					i := 0
					sequences(1<<uint(p), n-1, func(s []int) {
						masks := append([]int{first}, s...)
						c.Input(func() string { return fmt.Sprintf("selections %b %v", masks, d) })
						i++
						pathQueries(c, d, masks, 0, n <= 2 || i%7 == 0)
						if n <= 3 {
							pathQueries(c, d, masks, uint64(i), i%7 == 0)
						}
					})
				})
			}
		}
	}
	c.Group("orders")
	c.Bound("all paths of one and two nodes over 4 features with every order of every selection")
	{
		d := vc.Structured(vc.KindSparse, 9, 4, 6)
		var all [][]int
		for mask := 0; mask < 16; mask++ {
			permutations(vc.SelOf(mask, 4), func(q []int) { all = append(all, q) })
		}
		for _, a := range all {
			c.Case(fmt.Sprint(a), func() {
				pathOrders(c, d, [][]int{a})
				for _, b := range all {
					pathOrders(c, d, [][]int{a, b})
				}
			})
		}
	}
	l06Ranking(c)
	c.Group("extreme coefficients")
	c.Bound("3 to 40 features, each of which has the largest and the smallest coefficient of the path, in every node")
	for _, p := range []int{3, 10, 11, 12, 40} {
		for f := 0; f < p; f++ {
			c.Case(fmt.Sprintf("%d-%d", p, f), func() {
				d := vc.Structured(vc.KindSparse, 9, p, 7)
				for at := 0; at < 3; at++ {
					path := &fs.LassoLarsPath{Dset: &fs.Dataset{X: d.X.Dense(), Y: vc.Clone(d.Y), TargetCol: p, Names: make([]string, p+1)}}
					for i := 0; i < 3; i++ {
						var sel []int
						var co []float64
						for j := 0; j < p; j += 1 + i {
							if j != f {
								sel = append(sel, j)
								co = append(co, float64(j%5)-2)
							}
						}
						if i >= at {
							sel = append(sel, f)
							co = append(co, float64(20-35*(i-at)))
						}
						path.LassoLarsNodes = append(path.LassoLarsNodes, fs.NewLassoLarsNode(co, math.Pow(10, -float64(i)), sel))
					}
					flat := []float64{0}
					for _, n := range path.LassoLarsNodes {
						flat = append(flat, n.Coeff...)
					}
					lo, hi := rangeOf(flat)
					c.Input(func() string { return fmt.Sprintf("%d features, feature %d is the largest in node %d", p, f, at) })
					plt := path.PlotPath(nil)
					c.Exec(1)
					c.State(1)
					c.Step(3)
					c.Check(vc.Close(plt.Y.Max, hi, 1e-9) && vc.Close(plt.Y.Min, lo, 1e-9), "the vertical axis of the coefficients goes from %g to %g, the data from %g to %g", plt.Y.Min, plt.Y.Max, lo, hi)
					c.Check(onCanvas(plt) > 0, "nothing was drawn")
					var wlo, whi = p, -1
					for _, n := range path.LassoLarsNodes {
						for _, j := range n.Selection {
							wlo, whi = min(wlo, j), max(whi, j)
						}
					}
					plt = path.PlotEntranceTimes()
					c.Check(vc.Close(plt.X.Min, float64(wlo), 1e-9) && vc.Close(plt.X.Max, float64(whi), 1e-9), "the entrance times are drawn from %g to %g, the features are %d to %d", plt.X.Min, plt.X.Max, wlo, whi)
				}
			})
		}
	}
	c.Group("longer paths")
	c.Bound("paths of 5 to 30 nodes that grow and shrink, up to 12 features")
	for seed := uint64(0); seed < uint64(c.Pick(160, 1600)); seed++ {
		c.Case(fmt.Sprint(seed), func() {
			h := vc.NewHash(seed)
			p := 2 + h.N(11)
			d := vc.Structured(vc.KindSparse, 4+h.N(20), p, seed)
			mask := 0
			var masks []int
			for n := 5 + h.N(26); n > 0; n-- {
				masks = append(masks, mask)
				mask ^= 1 << uint(h.N(p))
			}
			c.Input(func() string { return fmt.Sprintf("selections %b %v", masks, d) })
			pathQueries(c, d, masks, seed%2*(seed+1), true)
		})
	}
	l06Sizes(c)
	c.Group("orders of the regularisation")
	c.Bound("paths of 2 to 4 nodes over 3 features, any selections, in every order of the regularisations: the entrance times")
	for n := 2; n <= c.Pick(3, 4); n++ {
		permutations([]int{0, 1, 2, 3}[:n], func(q []int) {
			order := append([]int{}, q...)
			c.Case(fmt.Sprint(order), func() {
				sequences(8, n, func(s []int) {
					d := vc.Structured(vc.KindSparse, 6, 3, 8)
					path := &fs.LassoLarsPath{Dset: &fs.Dataset{X: d.X.Dense(), Y: vc.Clone(d.Y), TargetCol: 3, Names: []string{"a", "b", "c", "y"}}}
					var sels [][]int
					var logl []float64
					any := 0
					for i, mask := range s {
						any |= mask
						sel := vc.SelOf(mask, 3)
						sels = append(sels, sel)
						logl = append(logl, -float64(order[i]))
						path.LassoLarsNodes = append(path.LassoLarsNodes, fs.NewLassoLarsNode(make([]float64, len(sel)), math.Pow(10, -float64(order[i])), append([]int{}, sel...)))
					}
					if any == 0 {
						return
					}
					c.Input(func() string { return fmt.Sprintf("selections %v, log10 of the regularisations %v", sels, logl) })
					c.Exec(1)
					c.State(1)
					c.Step(n)
					entrances(c, path.PlotEntranceTimes(), sels, logl)
				})
			})
		})
	}
	c.Group("small deviations")
	c.Bound("paths with nodes whose coefficients are off by 0.1 to 1e-9")
	for n := 2; n <= 9; n++ {
		c.Case(fmt.Sprint(n), func() {
			x := vc.FromCols([]float64{1, 2, 3, 5}, []float64{0, 1, 0, 2})
			path := &fs.LassoLarsPath{Dset: &fs.Dataset{X: x.Dense(), Y: []float64{2, 4, 6, 10}, TargetCol: 2, Names: []string{"a", "b", "y"}}}
			pts := make([][2]float64, n)
			for i := 0; i < n; i++ {
				co := 2 - math.Pow(10, -float64(i+1))
				path.LassoLarsNodes = append(path.LassoLarsNodes, fs.NewLassoLarsNode([]float64{co}, math.Pow(10, -float64(i)), []int{0}))
				rss := 0.0
				for r, y := range path.Dset.Y {
					e := y - co*x.At(r, 0)
					rss += e * e
				}
				pts[i] = [2]float64{-float64(i), math.Log10(math.Sqrt(math.Max(rss, 1e-12) / 4))}
			}
			c.Input(func() string { return fmt.Sprintf("%d nodes", n) })
			c.Exec(1)
			c.State(1)
			c.Step(1)
			plt := path.PlotDeviations()
			segs, _ := drawn(plt)
			polyline(c, "the deviations", plt, segs, pts)
		})
	}
	c.Group("perfect fits")
	c.Bound("paths with nodes that reproduce the target exactly")
	for n := 1; n <= 4; n++ {
		c.Case(fmt.Sprint(n), func() {
			x := vc.FromCols([]float64{1, 2, 3, 5}, []float64{0, 1, 0, 2})
			path := &fs.LassoLarsPath{Dset: &fs.Dataset{X: x.Dense(), Y: []float64{2, 4, 6, 10}, TargetCol: 2, Names: []string{"a", "b", "y"}}}
			for i := 0; i < n; i++ {
				path.LassoLarsNodes = append(path.LassoLarsNodes, fs.NewLassoLarsNode([]float64{2 - 0.5*float64(n-1-i)}, math.Pow(10, -float64(i)), []int{0}))
			}
			c.Exec(1)
			c.State(1)
			c.Step(4)
			onCanvas(path.PlotDeviations())
			onCanvas(path.PlotQualityScores())
			onCanvas(path.PlotEntranceTimes())
			onCanvas(path.PlotPath(nil))
			for _, v := range path.GetCriteria(fs.Aicc) {
				c.Check(!math.IsInf(v, 0) && !math.IsNaN(v), "AICc is %g", v)
			}
		})
	}
}

var _ = sort.Ints
var _ mat.Matrix
