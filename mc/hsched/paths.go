//go:build go1.22

package main

import (
	"fmt"
	"math"

	fs "github.com/davidkleiven/goselect/featselect"
	vc "github.com/davidkleiven/goselect/verifcommon"
	vs "github.com/davidkleiven/goselect/verifsched"
)

func init() {
	props["L02"] = l02
	props["K02"] = k02
	props["K03"] = k03
}

// ------------------------------------------------------------ lasso paths

type pathCase struct {
	d     *vc.Data
	n     *vc.Normal
	lambs []float64
	eta   float64
	corr  int // 0 none, 1 elastic net, 2 CLasso
	ident bool
	nd    *fs.NormalizedData // to be overwritten; nil: a new one
	box   *vc.Box
}

func (p *pathCase) String() string {
	return fmt.Sprintf("%v lambs=%.6g correction=%d eta=%g identity=%v", p.d, p.lambs, p.corr, p.eta, p.ident)
}

func (p *pathCase) run() (func(), *[]*fs.LassoLarsNode, *bool) {
	res := new([]*fs.LassoLarsNode)
	done := new(bool)
	nd := fs.NewNormalizedData(p.d.X.Dense(), vc.Clone(p.d.Y))
	if p.box != nil {
		*p.nd = *fs.NewNormalizedData(p.box.Fill(p.d))
		nd = p.nd
	}
	var cov fs.CovMat = &fs.Empirical{}
	if p.ident {
		cov = &fs.Identity{}
	}
	var corr fs.LassoCorrection = &fs.PureLasso{}
	switch p.corr {
	case 1:
		corr = &fs.ElasticNet{Lamb: p.eta}
	case 2:
		corr = fs.NewCLasso(p.d.X.C, p.eta)
	}
	lambs := vc.Clone(p.lambs)
	return func() {
		*res = fs.LassoCrdDescPath(nd, cov, lambs, 100000, 1e-11, corr)
		*done = true
	}, res, done
}

func (p *pathCase) scenario(leak bool) vs.Scenario {
	return func() (func(), func(*vs.Exec) string) {
		body, res, done := p.run()
		return body, func(e *vs.Exec) string {
			if m := finished(e); m != "" {
				return m
			}
			if !*done {
				return "the call did not return"
			}
			if m := noLeak(e); m != "" && leak {
				return m
			}
			return p.check(*res)
		}
	}
}

func (p *pathCase) check(path []*fs.LassoLarsNode) string {
	m := len(p.lambs)
	if len(path) > m {
		return fmt.Sprintf("%d nodes for %d regularisations", len(path), m)
	}
	cov, xty := p.n.Gram(), p.n.Xty()
	if p.ident {
		cov = vc.EyeMat(p.d.X.C)
	}
	l2 := 0.0
	if p.corr > 0 {
		l2 = p.eta
	}
	left := m - len(path)
	anyFeat := false
	for i, n := range path {
		if n == nil {
			return fmt.Sprintf("node %d is missing", i)
		}
		want := p.lambs[m-1-left-i]
		if n.Lamb != want {
			return fmt.Sprintf("node %d of %d has regularisation %g instead of %g", i, len(path), n.Lamb, want)
		}
		if len(n.Selection) != len(n.Coeff) {
			return fmt.Sprintf("node %d has %d features and %d coefficients", i, len(n.Selection), len(n.Coeff))
		}
		beta := make([]float64, p.d.X.C)
		for k, j := range n.Selection {
			if j < 0 || j >= p.d.X.C || beta[j] != 0 || n.Coeff[k] == 0 {
				return fmt.Sprintf("node %d has the selection %v with coefficients %v", i, n.Selection, n.Coeff)
			}
			beta[j] = n.Coeff[k]
			anyFeat = true
		}
		if msg := vc.KKT(cov, xty, n.Lamb, l2, beta, p.n.Bias, 1e-6); msg != "" {
			return fmt.Sprintf("node %d (regularisation %g): %s", i, n.Lamb, msg)
		}
	}
	if left > 0 {
		if !anyFeat {
			return fmt.Sprintf("%d nodes are missing", left)
		}
		if len(path[0].Selection) == 0 {
			return fmt.Sprintf("%d nodes are missing before a node without features", left)
		}
		// the ones left out have no features
		for k := 0; k < left; k++ {
			if msg := vc.KKT(cov, xty, p.lambs[m-1-k], l2, make([]float64, p.d.X.C), p.n.Bias, 1e-6); msg != "" {
				return fmt.Sprintf("a node with features was left out at the start (regularisation %g): %s", p.lambs[m-1-k], msg)
			}
		}
	} else if anyFeat && len(path[0].Selection) == 0 {
		return "a leading node without features was not left out"
	}
	return ""
}

func pathLambs(n int, hi, lo float64) []float64 {
	l := make([]float64, n)
	for i := range l {
		f := 1.0
		if n > 1 {
			f = float64(i) / float64(n-1)
		}
		l[i] = lo * math.Pow(hi/lo, f)
	}
	return l
}

// lassoData lists datasets that can be normalised
func lassoData(seeds int, f func(d *vc.Data, n *vc.Normal)) {
	for seed := uint64(0); seed < uint64(seeds); seed++ {
		for _, sh := range [][2]int{{5, 3}, {8, 4}, {12, 6}, {6, 8}, {20, 5}, {4, 2}, {9, 1}, {30, 12}, {70, 20}} {
			for k := 0; k < vc.NumKinds; k++ {
				if k == vc.KindZero || sh[1] < 2 && k == vc.KindDuplicate {
					continue
				}
				d := vc.Structured(k, sh[0], sh[1], seed+50)
				n := vc.Normalise(d.X, d.Y)
				if !n.OK || n.Bias && sh[1] == 1 {
					continue
				}
				f(d, n)
			}
		}
	}
}

func l02(c *vc.Ctx) {
	c.Group("schedules")
	c.Bound("all executions with at most 2 deviations (3 with three regularisations or fewer, thorough)")
	i := 0
	d := vc.Structured(vc.KindBias, 6, 4, 4)
	d2 := vc.Structured(vc.KindSparse, 8, 3, 6)
	for _, dd := range []*vc.Data{d, d2} {
		n := vc.Normalise(dd.X, dd.Y)
		for _, m := range []int{2, 3, 5, 11, 13} {
			for _, corr := range []int{0, 2} {
				i++
				bound := 2
				if m > 3 {
					bound = c.Pick(1, 2)
				}
				p := &pathCase{d: dd, n: n, lambs: pathLambs(m, 1.2, 1e-3), eta: 0.3, corr: corr}
				pol := i % 5
				explore(c, fmt.Sprintf("%s-m%d-corr%d/%s", dd.Name, m, corr, policyNames[pol]), p.String, vs.Config{Policy: pol}, bound, float64(c.Pick(3, 25)), p.scenario(true))
			}
		}
	}
	c.Group("long paths")
	c.Bound("one execution per scheduling policy; 60 to 150 regularisations, features from the first, the middle or the last ones on")
	for _, sh := range [][2]int{{12, 4}, {8, 3}, {20, 5}} {
		for k := 0; k < 3; k++ {
			d := vc.Structured([]int{vc.KindRandom, vc.KindBias, vc.KindSparse}[k], sh[0], sh[1], 77)
			n := vc.Normalise(d.X, d.Y)
			if !n.OK {
				continue
			}
			for _, m := range []int{60, 100, 150} {
				for v, r := range [][2]float64{{0.5, 0.01}, {30, 0.05}, {1e4, 0.1}, {20, 2}} {
					i++
					p := &pathCase{d: d, n: n, lambs: pathLambs(m, r[0], r[1]), eta: 0.3, corr: i % 3}
					pol := i % 5
					c.Case(fmt.Sprintf("%s-m%d-v%d/%s", d.Name, m, v, policyNames[pol]), func() {
						c.Input(p.String)
						one(c, vs.Config{Policy: pol}, p.scenario(true))
					})
				}
			}
		}
	}
	c.Group("inputs")
	c.Bound("one execution per scheduling policy and dataset; 0 to 25 regularisations")
	i = 0
	lassoData(c.Pick(2, 10), func(d *vc.Data, n *vc.Normal) {
		for _, m := range []int{0, 1, 2, 3, 4, 9, 10, 11, 12, 25} {
			for v := 0; v < 3; v++ {
				i++
				p := &pathCase{d: d, n: n, eta: 0.4}
				switch v {
				case 0:
					p.lambs = pathLambs(m, 1.5, 1e-4)
					if d.X.C >= d.X.R-1 {
						// the descent converges slowly without regularisation
						p.lambs = pathLambs(m, 1.5, 1e-2)
					}
				case 1:
					p.lambs = pathLambs(m, 0.3, 0.02)
					p.corr = i % 3
				case 2:
					p.lambs = pathLambs(m, 9, 1.5)
					if i%2 == 0 {
						p.ident = true
						p.lambs = pathLambs(m, 1, 0.01)
					}
				}
				pol := i % 5
				c.Case(fmt.Sprintf("%s-m%d-v%d/%s", d.Name, m, v, policyNames[pol]), func() {
					c.Input(p.String)
					one(c, vs.Config{Policy: pol}, p.scenario(true))
				})
			}
		}
	})
	nd := &fs.NormalizedData{}
	histories(c, c.Pick(2, 3), 1, func(d *vc.Data, box *vc.Box, i int) vs.Scenario {
		p := &pathCase{d: d, n: vc.Normalise(d.X, d.Y), eta: 0.3, corr: i % 3, lambs: pathLambs(4+i%3, 1, 0.02), nd: nd, box: box}
		return p.scenario(true)
	})
}
