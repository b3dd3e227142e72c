//go:build go1.22

package main

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"

	fs "github.com/davidkleiven/goselect/featselect"
	vc "github.com/davidkleiven/goselect/verifcommon"
	vs "github.com/davidkleiven/goselect/verifsched"
	"gonum.org/v1/gonum/mat"
)

// refKappa is Cohen's kappa from its definition
func refKappa(a, b []int, tot int) float64 {
	in := func(s []int, v int) bool {
		for _, x := range s {
			if x == v {
				return true
			}
		}
		return false
	}
	var n11, n10, n01, n00 float64
	for i := 0; i < tot; i++ {
		switch x, y := in(a, i), in(b, i); {
		case x && y:
			n11++
		case x:
			n10++
		case y:
			n01++
		default:
			n00++
		}
	}
	n := float64(tot)
	po := (n11 + n00) / n
	pe := ((n11+n10)*(n11+n01) + (n01+n00)*(n10+n00)) / (n * n)
	if pe == 1 {
		return 1
	}
	return (po - pe) / (1 - pe)
}

// spy is a target that records how it is used
type spy struct {
	id, nr, nc int
	pick       func(call int, idx []int) []int
	calls      [][]int
	answers    [][]int
	busy       bool
	overlap    bool
	yield      bool
}

func (s *spy) GetX() mat.Matrix { return mat.NewDense(s.nr, s.nc, nil) }

func (s *spy) GetSelection(indices []int) []int {
	if s.busy {
		s.overlap = true
	}
	s.busy = true
	s.calls = append(s.calls, append([]int{}, indices...))
	if s.yield {
		vs.Yield()
	}
	r := s.pick(len(s.calls)-1, indices)
	s.answers = append(s.answers, r)
	s.busy = false
	return append([]int{}, r...)
}

func (s *spy) HyperParameters() map[string]float64 {
	return map[string]float64{"id": float64(s.id)}
}

func (s *spy) StringRep() string { return fmt.Sprintf("target %d (%d%% of all)", s.id, s.id) }

// check looks at the calls: pairs of disjoint halves
func (s *spy) check(samples int) string {
	if s.overlap {
		return fmt.Sprintf("target %d was used by two goroutines at once", s.id)
	}
	if len(s.calls) != 2*samples {
		return fmt.Sprintf("target %d was asked %d times for %d samples", s.id, len(s.calls), samples)
	}
	for k := 0; k < samples; k++ {
		a, b := s.calls[2*k], s.calls[2*k+1]
		if d := len(a) - len(b); d > 1 || d < -1 {
			return fmt.Sprintf("target %d: halves with %d and %d points", s.id, len(a), len(b))
		}
		u := vc.SortedInts(append(append([]int{}, a...), b...))
		for i, v := range u {
			if i != v || len(u) != s.nr {
				return fmt.Sprintf("target %d: %v and %v are not two halves of %d points", s.id, a, b, s.nr)
			}
		}
		if len(u) != s.nr {
			return fmt.Sprintf("target %d: %v and %v are not two halves of %d points", s.id, a, b, s.nr)
		}
	}
	return ""
}

func (s *spy) kappa() float64 {
	k := 0.0
	for i := 0; i+1 < len(s.answers); i += 2 {
		k += refKappa(s.answers[i], s.answers[i+1], s.nc)
	}
	return k / float64(len(s.answers)/2)
}

func k02(c *vc.Ctx) {
	// selections that depend on which points are in the half
	bySum := func(nc int) func(int, []int) []int {
		return func(call int, idx []int) []int {
			r := []int{}
			for j := 0; j < nc; j++ {
				h := 0
				for k, v := range idx {
					h = h*31 + (v+1)*(j+3)*(k+1)
				}
				if h%3 != 0 {
					r = append(r, j)
				}
			}
			return r
		}
	}
	c.Group("all shuffles")
	c.Bound("all outcomes of the random numbers for up to six data points (thorough: seven); two samples for up to four points")
	for _, t := range [][3]int{{2, 1, 3}, {3, 1, 4}, {4, 1, 3}, {5, 1, 4}, {6, 1, 3}, {2, 2, 3}, {3, 2, 4}, {4, 2, 5}, {2, 4, 2}, {3, 3, 3}, {7, 1, 4}} {
		nr, samples, nc := t[0], t[1], t[2]
		if nr == 7 && !c.Thorough() {
			continue
		}
		var s *spy
		var got float64
		distinct := map[string]bool{}
		explore(c, fmt.Sprintf("n%d-samples%d", nr, samples), func() string { return fmt.Sprint(nr, " points, ", samples, " samples, ", nc, " features") },
			vs.Config{RandMode: 1, RandDepth: 40}, 0, float64(c.Pick(10, 100)), func() (func(), func(*vs.Exec) string) {
				s = &spy{nr: nr, nc: nc, pick: bySum(nc)}
				return func() { got = fs.GetCohensKappa(samples, s) }, func(e *vs.Exec) string {
					if m := finished(e); m != "" {
						return m
					}
					if m := s.check(samples); m != "" {
						return m
					}
					distinct[fmt.Sprint(s.calls)] = true
					if w := s.kappa(); !vc.Close(got, w, 1e-12) {
						return fmt.Sprintf("kappa is %g instead of %g", got, w)
					}
					return ""
				}
			})
		c.Cur().Done["distinct sequences of halves"] += int64(len(distinct))
	}
	c.Group("larger")
	c.Bound("streams of random numbers, 2 to 31 points with 1 to 20 samples, up to 300 points with up to 400 samples")
	var sizes [][2]int
	for nr := 2; nr <= 31; nr++ {
		for _, samples := range []int{1, 2, 3, 7, 20} {
			sizes = append(sizes, [2]int{nr, samples})
		}
	}
	for _, nr := range []int{5, 12, 64, 65, 130, 300} {
		for _, samples := range []int{50, 64, 65, 100, 101, 129, 257, 400} {
			sizes = append(sizes, [2]int{nr, samples})
		}
	}
	for _, sz := range sizes {
		nr, samples := sz[0], sz[1]
		{
			c.Case(fmt.Sprintf("n%d-samples%d", nr, samples), func() {
				s := &spy{nr: nr, nc: 5, pick: bySum(5)}
				var got float64
				e := vs.Run(vs.Config{RandSeed: uint64(nr * samples)}, nil, func() { got = fs.GetCohensKappa(samples, s) })
				c.Exec(1)
				c.State(1)
				c.Step(samples)
				c.Check(finished(e) == "", "%s", finished(e))
				m := s.check(samples)
				c.Check(m == "", "%s", m)
				c.Check(vc.Close(got, s.kappa(), 1e-12), "kappa is %g instead of %g", got, s.kappa())
				// the splits are not all the same
				diff := map[string]bool{}
				for _, x := range s.calls {
					diff[fmt.Sprint(vc.SortedInts(x))] = true
				}
				c.Check(nr < 8 || samples < 3 || len(diff) > 2, "all %d samples use the same halves", samples)
			})
		}
	}
	c.Group("every split occurs")
	c.Bound("2 to 5 points, the last two of 1 to 300 samples, up to %d streams of random numbers: every pair of sets of points", streams)
	for n := 2; n <= 5; n++ {
		for _, samples := range []int{1, 2, 3, 9, 17, 33, 65, 130, 300} {
			if samples > 9 && n != 4 {
				continue
			}
			c.Case(fmt.Sprintf("n%d-samples%d", n, samples), func() {
				c.Input(func() string { return fmt.Sprintf("%d points, sample %d", n, samples) })
				want := subsets(n, n/2)
				if samples > 1 {
					pairs := map[string]bool{}
					for a := range want {
						for b := range want {
							pairs[a+b] = true
						}
					}
					want = pairs
				}
				allReached(c, want, func() string {
					s := &spy{nr: n, nc: 3, pick: func(int, []int) []int { return []int{0} }}
					fs.GetCohensKappa(samples, s)
					if len(s.calls) < 2 {
						return ""
					}
					r := ""
					for k := max(0, len(s.calls)-4); k+1 < len(s.calls); k += 2 {
						a, b := s.calls[k], s.calls[k+1]
						if len(a) > len(b) {
							a = b
						}
						r += fmt.Sprint(vc.SortedInts(a))
					}
					return r
				})
			})
		}
	}

	c.Group("lasso selections")
	c.Bound("all halves of the data points (thorough: all subsets with at least three points) for each dataset, in sequence (warm start)")
	for seed := uint64(0); seed < uint64(c.Pick(3, 12)); seed++ {
		for _, k := range []int{vc.KindRandom, vc.KindSparse, vc.KindBias, vc.KindCorrelated} {
			for _, sh := range [][2]int{{6, 3}, {8, 4}, {8, 5}} {
				d := vc.Structured(k, sh[0], sh[1], seed+20)
				for _, lamb := range []float64{0.05, 0.2, 0.5} {
					for _, corr := range []int{0, 1, 2} {
						c.Case(fmt.Sprintf("%s-l%g-c%d", d.Name, lamb, corr), func() {
							c.Input(d.String)
							lassoSelections(c, d, lamb, corr)
						})
					}
				}
			}
		}
	}
	c.Group("histories")
	c.Bound("the same target with every sequence of 3 of up to 7 datasets; selections from all points and from halves")
	for di, d := range []*vc.Data{vc.Structured(vc.KindRandom, 9, 3, 31), vc.Structured(vc.KindSparse, 12, 4, 32), vc.Structured(vc.KindSparse, 20, 2, 33)} {
		vers := vc.Versions(d)
		k := len(vers)
		for code := 0; code < k*k*k; code++ {
			for _, inPlace := range []bool{true, false} {
				c.Case(fmt.Sprintf("%d-%d-%d-%d-%v", di, code%k, code/k%k, code/k/k, inPlace), func() {
					pl := fs.NewPureLassoCohen()
					pl.Dset = &fs.NormalizedData{}
					pl.Cov, pl.MaxIter, pl.Tol, pl.Correction = &fs.Empirical{}, 100000, 1e-11, &fs.PureLasso{}
					var last []float64
					box := &vc.Box{}
					for i := 0; i < 3; i++ {
						v := vers[[]int{code % k, code / k % k, code / k / k}[i]]
						c.Input(func() string { return fmt.Sprintf("call %d with %v", i+1, v) })
						if inPlace {
							*pl.Dset = *fs.NewNormalizedData(box.Fill(v))
						} else {
							pl.Dset = fs.NewNormalizedData(v.X.Dense(), vc.Clone(v.Y))
						}
						full := vc.Normalise(v.X, v.Y)
						pl.Lamb = []float64{0.2, 0.1, 0.3}[i]
						for part := 0; part < 2; part++ {
							idx := []int{}
							for r := 0; r < v.X.R; r++ {
								if part == 0 || r%2 == i%2 {
									idx = append(idx, r)
								}
							}
							sub := vc.NewMat(len(idx), v.X.C)
							y := make([]float64, len(idx))
							for a, r := range idx {
								copy(sub.D[a*v.X.C:(a+1)*v.X.C], full.X.D[r*v.X.C:(r+1)*v.X.C])
								y[a] = full.Y[r]
							}
							sel := pl.GetSelection(idx)
							c.Exec(1)
							c.State(1)
							c.Step(1)
							nn := vc.Normalise(sub, y)
							beta, margin := vc.RefLasso(nn.Gram(), nn.Xty(), pl.Lamb, 0, nn.Bias, nil, 20000)
							if len(last) == len(beta) {
								_, m := vc.RefLasso(nn.Gram(), nn.Xty(), pl.Lamb, 0, nn.Bias, last, 20000)
								margin = math.Min(margin, m)
							}
							last = beta
							if margin < 1e-5 {
								continue
							}
							c.Seen("compared")
							want := []int{}
							for j, b := range beta {
								if b != 0 {
									want = append(want, j)
								}
							}
							c.Check(vc.EqInts(vc.SortedInts(sel), want), "points %v: features %v were selected, the lasso solution %.6g has %v", idx, sel, beta, want)
						}
					}
				})
			}
		}
	}
}

func lassoSelections(c *vc.Ctx, d *vc.Data, lamb float64, corr int) {
	full := vc.Normalise(d.X, d.Y)
	if !full.OK {
		return
	}
	var target fs.CohensKappaTarget
	pl := fs.NewPureLassoCohen()
	pl.Dset = fs.NewNormalizedData(d.X.Dense(), vc.Clone(d.Y))
	pl.Lamb = lamb
	pl.Cov = &fs.Empirical{}
	pl.MaxIter = 100000
	pl.Tol = 1e-11
	l2 := 0.0
	switch corr {
	case 0:
		pl.Correction = &fs.PureLasso{}
	case 1:
		pl.Correction = &fs.ElasticNet{Lamb: 0.3}
		l2 = 0.3
	case 2:
		pl.Correction = fs.NewCLasso(d.X.C, 0.2)
		l2 = 0.2
	}
	target = pl
	if corr == 2 {
		cl := fs.NewCLassoCohen()
		cl.PLasso = pl
		cl.Eta = 0.2
		target = cl
		h := cl.HyperParameters()
		c.Check(h["lamb"] == lamb && h["eta"] == 0.2 && len(h) == 2, "hyper parameters %v", h)
	} else {
		h := pl.HyperParameters()
		c.Check(h["lamb"] == lamb && len(h) == 1, "hyper parameters %v", h)
	}
	r, cc := target.GetX().Dims()
	c.Check(r == d.X.R && cc == d.X.C, "GetX has %dx%d elements", r, cc)
	n := d.X.R
	compared := 0
	// the solution the target starts from; nil: not known
	last := make([]float64, d.X.C)
	for mask := 1; mask < 1<<uint(n); mask++ {
		idx := vc.SelOf(mask, n)
		if len(idx) < 3 || !c.Thorough() && len(idx) != n/2 && len(idx) != n-n/2 {
			continue
		}
		// another order of the same points
		if mask%3 == 1 {
			sort.Sort(sort.Reverse(sort.IntSlice(idx)))
		}
		sub := vc.NewMat(len(idx), d.X.C)
		y := make([]float64, len(idx))
		for i, v := range idx {
			for j := 0; j < d.X.C; j++ {
				sub.Set(i, j, full.X.At(v, j))
			}
			y[i] = full.Y[v]
		}
		nn := vc.Normalise(sub, y)
		if !nn.OK {
			continue
		}
		given := append([]int{}, idx...)
		sel := target.GetSelection(given)
		c.Exec(1)
		c.State(1)
		c.Step(1)
		c.Check(vc.EqInts(given, idx), "the indices were changed from %v to %v", idx, given)
		// only where a descent converges in a fifth of the iterations the
		// target may use, from zero and from where the target starts
		beta, margin := vc.RefLasso(nn.Gram(), nn.Xty(), lamb, l2, nn.Bias, nil, 20000)
		starts, iters := [][]float64{last}, 20000
		if last == nil {
			starts, iters = nil, 2000
			for j := 0; j < 2*d.X.C; j++ {
				v := make([]float64, d.X.C)
				v[j/2] = float64(6*(j%2) - 3)
				starts = append(starts, v)
			}
		}
		last = beta
		for _, s := range starts {
			if _, m := vc.RefLasso(nn.Gram(), nn.Xty(), lamb, l2, nn.Bias, s, iters); m == 0 {
				last, margin = nil, 0
			}
		}
		if margin < 1e-5 {
			continue
		}
		compared++
		want := []int{}
		for j, b := range beta {
			if b != 0 {
				want = append(want, j)
			}
		}
		c.Check(vc.EqInts(vc.SortedInts(sel), want), "points %v: features %v were selected, the lasso solution %.6g has %v", idx, sel, beta, want)
		c.Seen(fmt.Sprintf("%d features", len(want)))
	}
	now := vc.FromDense(pl.Dset.X)
	for i := range now.D {
		c.Check(vc.Close(now.D[i], full.X.D[i], 1e-9), "the dataset was modified")
	}
	c.Sample("%d selections compared", compared)
}

// ---------------------------------------------------------------- sequence

type seqCase struct {
	kappas  []float64 // 0: level zero, 1: equal, -1: opposite, other: partial
	samples int
	// number of features; nil: 4
	features []int
}

// selections with a given agreement out of four features
func kappaPick(level float64) func(int, []int) []int {
	return func(call int, idx []int) []int {
		if call%2 == 0 {
			return []int{0, 1}
		}
		switch level {
		case 1:
			return []int{1, 0} // kappa 1
		case 0.5:
			return []int{0} // kappa 0.5
		case 0.25:
			return []int{0, 2} // grows with the number of features
		case 0:
			return []int{1, 2} // kappa 0
		}
		return []int{2, 3} // kappa -1
	}
}

var kappaLine = regexp.MustCompile(`(?m)^ *(\S.*?) +Kappa: *(-?[0-9.]+) *$`)

// summary checks the table that is printed at the end: every target once with its
// kappa, in order of kappa
func summary(out string, spies []*spy) string {
	want := map[string]int{}
	for _, s := range spies {
		want[fmt.Sprintf("%s %3.3f", s.StringRep(), s.kappa())]++
	}
	prev := math.Inf(-1)
	n := 0
	for _, m := range kappaLine.FindAllStringSubmatch(out, -1) {
		k := m[1] + " " + m[2]
		if want[k] == 0 {
			return fmt.Sprintf("the summary lists %q, which is wrong or was listed before", k)
		}
		want[k]--
		n++
		v, _ := strconv.ParseFloat(m[2], 64)
		if v < prev {
			return "the summary is not sorted"
		}
		prev = v
	}
	if n != len(spies) {
		return fmt.Sprintf("the summary lists %d of %d targets", n, len(spies))
	}
	for _, s := range spies {
		if l := fmt.Sprintf("%s kappa: %3.3f\n", s.StringRep(), s.kappa()); !strings.Contains(out, l) {
			return fmt.Sprintf("there is no line %q", l)
		}
	}
	return ""
}

func (q *seqCase) String() string {
	return fmt.Sprintf("%d targets with kappa %v, %d samples", len(q.kappas), q.kappas, q.samples)
}

func (q *seqCase) scenario(yield bool) vs.Scenario {
	return func() (func(), func(*vs.Exec) string) {
		targets := make([]fs.CohensKappaTarget, len(q.kappas))
		spies := make([]*spy, len(q.kappas))
		for i, k := range q.kappas {
			spies[i] = &spy{id: i, nr: 4 + i%3, nc: 4, pick: kappaPick(k), yield: yield}
			if q.features != nil {
				spies[i].nc = q.features[i]
			}
			targets[i] = spies[i]
		}
		var res map[string]float64
		done := false
		end := func() string { return "" }
		return func() {
				end = vc.Capture()
				res = fs.CalculateCohenSequence(q.samples, targets)
				done = true
			}, func(e *vs.Exec) string {
				out := end()
				if m := finished(e); m != "" {
					return m
				}
				if !done {
					return "the call did not return"
				}
				if m := noLeak(e); m != "" {
					return m
				}
				best := 0.0
				if m := summary(out, spies); m != "" {
					return m
				}
				for i, s := range spies {
					if m := s.check(q.samples); m != "" {
						return m
					}
					if targets[i] != fs.CohensKappaTarget(s) {
						return "the slice of targets was changed"
					}
					best = math.Max(best, s.kappa())
				}
				if best <= 0 {
					if len(res) != 0 {
						return fmt.Sprintf("no kappa is positive, but %v was returned", res)
					}
					return ""
				}
				id, ok := res["id"]
				if !ok || len(res) != 1 {
					return fmt.Sprintf("the best kappa is %g, but the result is %v", best, res)
				}
				if k := spies[int(id)].kappa(); k < best-1e-12 {
					return fmt.Sprintf("target %d with kappa %g was returned, the best kappa is %g", int(id), k, best)
				}
				return ""
			}
	}
}

func k03(c *vc.Ctx) {
	c.Group("schedules")
	c.Bound("all executions with at most 2 deviations for up to four targets, 1 for more (thorough: one more)")
	cases := []*seqCase{
		{kappas: []float64{0.5, 1, 0}, samples: 1},
		{kappas: []float64{1, 0.5}, samples: 2},
		{kappas: []float64{-1, 0, 0.5, 0.5}, samples: 1},
		{kappas: []float64{0, -1, -1}, samples: 1},
		{kappas: []float64{}, samples: 2},
		{kappas: []float64{0.5}, samples: 1},
		{kappas: manyKappas(17), samples: 1},
		{kappas: manyKappas(19), samples: 1},
	}
	for i, q := range cases {
		for p := 0; p < 5; p++ {
			if !c.Thorough() && p != i%5 && p != (i+2)%5 {
				continue
			}
			bound := c.Pick(2, 3)
			if len(q.kappas) > 4 {
				bound = c.Pick(1, 2)
			}
			explore(c, fmt.Sprintf("%d/%s", i, policyNames[p]), q.String, vs.Config{Policy: p}, bound, float64(c.Pick(3, 20)), q.scenario(true))
		}
	}
	c.Group("numbers of targets")
	c.Bound("0 to 40 targets (thorough: 70), position of the best one, scheduling policies")
	for n := 0; n <= c.Pick(40, 70); n++ {
		for p := 0; p < 5; p++ {
			for pos := 0; pos < n+1; pos++ {
				if pos > 3 && pos < n-3 && (pos+n)%5 != 0 && pos != 15 && pos != 16 && pos != 17 {
					continue
				}
				k := make([]float64, n)
				for i := range k {
					k[i] = []float64{0, 0.5, -1}[(i+pos)%3]
				}
				if pos < n {
					k[pos] = 1
				}
				q := &seqCase{kappas: k, samples: 1 + (n+pos)%2}
				c.Case(fmt.Sprintf("n%d-best%d/%s", n, pos, policyNames[p]), func() {
					c.Input(q.String)
					one(c, vs.Config{Policy: p, RandSeed: uint64(pos)}, q.scenario((n+pos)%2 == 0))
				})
			}
		}
	}
	c.Group("close kappas")
	c.Bound("2 to 20 targets whose kappas differ by 1e-6 to 1e-4, every order of three and the best one at every position")
	for _, n := range []int{2, 3, 5, 17, 20} {
		for best := 0; best < n; best++ {
			for _, nc := range []int{40, 200, 700} {
				c.Case(fmt.Sprintf("n%d-best%d-%d", n, best, nc), func() {
					q := &seqCase{kappas: make([]float64, n), samples: 1}
					q.features = make([]int, n)
					for i := range q.features {
						q.features[i] = nc + (i+n-best-1)%n
						q.kappas[i] = 0.25
					}
					c.Input(func() string { return fmt.Sprintf("%v, of %v features", q, q.features) })
					one(c, vs.Config{Policy: best % 5}, q.scenario(false))
				})
			}
		}
	}
	c.Group("lasso targets")
	c.Bound("1 to 20 pure and CLasso targets of one dataset, policies; the hyper parameters returned are those of a target with the largest kappa of its own answers")
	for seed := uint64(0); seed < uint64(c.Pick(4, 20)); seed++ {
		for _, n := range []int{1, 2, 3, 7, 20} {
			for kind, eta := range []func(int) float64{nil, func(i int) float64 { return 0.1 }, func(i int) float64 { return 0.3 / float64(i+2) }} {
				for _, up := range []bool{true, false} {
					d := vc.Structured([]int{vc.KindRandom, vc.KindSparse, vc.KindCorrelated}[int(seed)%3], 18, 6, seed+70)
					lambs := make([]float64, n)
					for i := range lambs {
						k := i
						if up {
							k = n - 1 - i
						}
						lambs[i] = 0.9 * math.Pow(0.1, (float64(k)+0.3)/float64(n)*2)
					}
					c.Case(fmt.Sprintf("%s-n%d-%d-%v", d.Name, n, kind, up), func() {
						c.Input(d.String)
						one(c, vs.Config{Policy: int(seed+uint64(n)) % 5, RandSeed: seed}, lassoSequence(d, lambs, eta, 3))
					})
				}
			}
		}
	}
}

// through passes everything on to a target of the library and records its answers
type through struct {
	*spy
	inner fs.CohensKappaTarget
}

func (t *through) GetX() mat.Matrix                    { return t.inner.GetX() }
func (t *through) HyperParameters() map[string]float64 { return t.inner.HyperParameters() }
func (t *through) StringRep() string                   { return t.inner.StringRep() }

// lassoSequence compares the sequence of lasso targets with what they answered
func lassoSequence(d *vc.Data, lambs []float64, eta func(i int) float64, samples int) vs.Scenario {
	return func() (func(), func(*vs.Exec) string) {
		ts := make([]*through, len(lambs))
		targets := make([]fs.CohensKappaTarget, len(lambs))
		norm := fs.NewNormalizedData(d.X.Dense(), vc.Clone(d.Y))
		for i, l := range lambs {
			pl := fs.NewPureLassoCohen()
			pl.Dset, pl.Lamb, pl.Cov, pl.MaxIter, pl.Tol, pl.Correction = norm, l, &fs.Empirical{}, 100000, 1e-6, &fs.PureLasso{}
			t := &through{inner: pl}
			if eta != nil {
				pl.Correction = fs.NewCLasso(d.X.C, eta(i))
				cl := fs.NewCLassoCohen()
				cl.PLasso, cl.Eta = pl, eta(i)
				t.inner = cl
			}
			in := t.inner
			t.spy = &spy{id: i, nr: d.X.R, nc: d.X.C, pick: func(_ int, idx []int) []int { return in.GetSelection(idx) }}
			ts[i], targets[i] = t, t
		}
		var res map[string]float64
		end := func() string { return "" }
		return func() {
				end = vc.Capture()
				res = fs.CalculateCohenSequence(samples, targets)
			}, func(e *vs.Exec) string {
				end()
				if m := finished(e); m != "" {
					return m
				}
				if m := noLeak(e); m != "" {
					return m
				}
				best := 0.0
				for _, t := range ts {
					if m := t.check(samples); m != "" {
						return m
					}
					best = math.Max(best, t.kappa())
				}
				if best <= 0 {
					if len(res) != 0 {
						return fmt.Sprintf("no kappa is positive, but %v was returned", res)
					}
					return ""
				}
				for i, t := range ts {
					same := res["lamb"] == lambs[i] && len(res) == 1
					if eta != nil {
						same = res["lamb"] == lambs[i] && res["eta"] == eta(i) && len(res) == 2
					}
					if same {
						if t.kappa() < best-1e-12 {
							return fmt.Sprintf("%v with kappa %g was returned, the best kappa is %g", res, t.kappa(), best)
						}
						return ""
					}
				}
				return fmt.Sprintf("the hyper parameters %v belong to no target (regularisations %v)", res, lambs)
			}
	}
}

func manyKappas(n int) []float64 {
	k := make([]float64, n)
	for i := range k {
		k[i] = []float64{0, -1, 0.5}[i%3]
	}
	k[n-1] = 1
	return k
}
