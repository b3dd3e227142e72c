//go:build go1.22

package main

import (
	"fmt"
	"math"

	fs "github.com/davidkleiven/goselect/featselect"
	vc "github.com/davidkleiven/goselect/verifcommon"
	vs "github.com/davidkleiven/goselect/verifsched"
)

func init() {
	props["S01"] = s01
}

// anneal is one call of SelectModelSA
type anneal struct {
	d      *vc.Data
	sweeps int
	cost   int
	rss    map[string]float64
	box    *vc.Box // of the arguments; nil: new ones
}

var costNames = []string{"AIC", "AICc", "BIC", "residual", "features"}

func (a *anneal) value(k, n int, rss float64) float64 {
	switch a.cost {
	case 0:
		return fs.Aic(k, n, rss)
	case 1:
		return fs.Aicc(k, n, rss)
	case 2:
		return fs.Bic(k, n, rss)
	case 3:
		return rss
	}
	return -float64(k)
}

func (a *anneal) String() string {
	return fmt.Sprintf("%v, %d sweeps, cost %s", a.d, a.sweeps, costNames[a.cost])
}

// ref is the cost of a selection
func (a *anneal) ref(sel []int) float64 {
	key := fmt.Sprint(sel)
	r, ok := a.rss[key]
	if !ok {
		var cols [][]float64
		for _, v := range sel {
			cols = append(cols, a.d.X.Col(v))
		}
		r = math.Max(vc.RefRss(cols, a.d.Y), 1e-12)
		if a.rss == nil {
			a.rss = map[string]float64{}
		}
		a.rss[key] = r
	}
	return a.value(len(sel), a.d.X.R, r)
}

func (a *anneal) genuine(sel []int, coeff []float64) string {
	if len(sel) == 0 {
		return "nothing is selected"
	}
	for i, v := range sel {
		if v < 0 || v >= a.d.X.C || i > 0 && sel[i-1] >= v {
			return fmt.Sprintf("selection %v", sel)
		}
	}
	if len(sel) > 1 && len(sel) >= a.d.X.R/2 {
		return fmt.Sprintf("selection %v of %d points", sel, a.d.X.R)
	}
	if len(coeff) != len(sel) {
		return fmt.Sprintf("%d coefficients for selection %v", len(coeff), sel)
	}
	return vc.CheckLeastSquares(a.d.X, sel, a.d.Y, coeff)
}

func (a *anneal) scenario() vs.Scenario {
	return func() (func(), func(*vs.Exec) string) {
		x := a.d.X.Dense()
		y := vc.Clone(a.d.Y)
		if a.box != nil {
			x, y = a.box.Fill(a.d)
		}
		best := math.Inf(1)
		calls := 0
		var res *fs.SARes
		cost := func(k, n int, rss float64) float64 {
			calls++
			if calls > 300000 {
				panic("no end in sight after 300000 evaluations")
			}
			v := a.value(k, n, rss)
			best = math.Min(best, v)
			return v
		}
		return func() { res = fs.SelectModelSA(x, y, a.sweeps, cost) }, func(e *vs.Exec) string {
			if m := finished(e); m != "" {
				return m
			}
			if res == nil || res.Scores == nil {
				return "no result"
			}
			if !vc.SameBits(vc.FromDense(x).D, a.d.X.D) || !vc.SameBits(y, a.d.Y) {
				return "the arguments were modified"
			}
			if m := a.genuine(res.Selected, res.Coeff); m != "" {
				return fmt.Sprintf("result %v, coefficients %v: %s", res.Selected, res.Coeff, m)
			}
			tol := func(v float64) float64 { return 1e-6 * (1 + math.Abs(v)) }
			seen := map[string]bool{}
			top, low := math.Inf(-1), math.Inf(1)
			final := false
			for i, it := range res.Scores.Items {
				if m := a.genuine(it.Selection, it.Coeff); m != "" {
					return fmt.Sprintf("item %d, selection %v, coefficients %v: %s", i, it.Selection, it.Coeff, m)
				}
				k := fmt.Sprint(it.Selection)
				if seen[k] {
					return fmt.Sprintf("selection %v is listed twice", it.Selection)
				}
				seen[k] = true
				if r := -a.ref(it.Selection); !(math.Abs(it.Score-r) <= tol(r)) {
					return fmt.Sprintf("item %d, selection %v, has score %.9g instead of %.9g", i, it.Selection, it.Score, r)
				}
				top, low = math.Max(top, it.Score), math.Min(low, it.Score)
				final = final || vc.EqInts(it.Selection, res.Selected)
			}
			if len(seen) == 0 {
				return "no items"
			}
			if b := res.Scores.BestItem; b == nil || b.Score != top || !seen[fmt.Sprint(b.Selection)] {
				return fmt.Sprintf("the best item is %+v, the highest score %g", b, top)
			}
			if math.Abs(top+best) > tol(best) {
				return fmt.Sprintf("the best item has score %.9g, the smallest cost is %.9g", top, best)
			}
			if r := -a.ref(res.Selected); !final && (len(seen) < res.Scores.Cap || r > low+tol(r)) {
				return fmt.Sprintf("the result %v with score %.9g is not among the %d items, the lowest of which has %.9g", res.Selected, r, len(seen), low)
			}
			return ""
		}
	}
}

// reach checks that no admissible model is out of reach
func reach(c *vc.Ctx, a *anneal) {
	c.Input(a.String)
	p, n := a.d.X.C, a.d.X.R
	found := map[int]bool{}
	cfg := vs.Config{SchedPoints: true, RandMode: 1, RandDepth: 8, RandFloats: []float64{0}}
	r := vs.Explore(vs.Options{Cfg: cfg, NShards: 1, Deadline: c.Deadline, Begin: func([]int) { c.Alive() }}, func() (func(), func(*vs.Exec) string) {
		var res *fs.SARes
		x, y := a.d.X.Dense(), vc.Clone(a.d.Y)
		return func() { res = fs.SelectModelSA(x, y, a.sweeps, a.value) }, func(e *vs.Exec) string {
			if m := finished(e); m != "" {
				return m
			}
			for _, it := range res.Scores.Items {
				m := 0
				for _, v := range it.Selection {
					m |= 1 << v
				}
				found[m] = true
			}
			return ""
		}
	})
	c.Exec(r.Executions)
	c.Step(r.Steps)
	c.State(len(r.States))
	c.Check(r.Violation == "", "%s", r.Violation)
	if r.BoundDone < 0 {
		c.Capped("not all sequences")
		return
	}
	for m := 1; m < 1<<p; m++ {
		k := len(vc.SelOf(m, p))
		if k == 1 || k < n/2 {
			c.Check(found[m], "model %v was not found by any of %d sequences of random numbers", vc.ModelOf(m, p), r.Executions)
		}
	}
}

func s01(c *vc.Ctx) {
	almost := math.Nextafter(1, 0)
	tails := map[string][]float64{"stream": nil, "zeros": {0}, "almost ones": {almost}, "mixed": {0, 0.5, almost, 0.9, 0.2}}
	tailNames := []string{"stream", "zeros", "almost ones", "mixed"}

	c.Group("all first outcomes")
	depth := c.Pick(7, 9)
	c.Bound("every outcome of the first %d random numbers (each feature; 0, 0.5 and almost 1), then four continuations", depth)
	var sets []*anneal
	for p := 1; p <= 3; p++ {
		for _, kind := range []int{vc.KindSparse, vc.KindTies, vc.KindDuplicate, vc.KindExact, vc.KindZero, vc.KindBias} {
			for _, n := range []int{2, 3, 4, 6, 8} {
				if p == 1 && kind == vc.KindDuplicate || n > 4 && p == 1 || kind > vc.KindTies && n%4 != 0 && !c.Thorough() {
					continue
				}
				sets = append(sets, &anneal{d: vc.Structured(kind, n, p, uint64(p+n)), sweeps: 1 + n%2, cost: (n + kind) % 5})
			}
		}
	}
	for i, a := range sets {
		t := tailNames[i%4]
		cfg := vs.Config{RandMode: 1, RandDepth: depth, RandFloats: []float64{0, 0.5, almost}, TailFloats: tails[t]}
		explore(c, a.d.Name+"/"+t, a.String, cfg, 0, 1.2*float64(c.Pick(1, 10)), a.scenario())
	}

	c.Group("reachable models")
	c.Bound("2 and 3 features: every admissible model is found by at least one sequence of the first 8 random numbers")
	for p := 2; p <= 3; p++ {
		for _, kind := range []int{vc.KindRandom, vc.KindSparse, vc.KindTies, vc.KindBias} {
			for _, n := range []int{6, 7, 9, 15} {
				for cost := 0; cost < 5; cost++ {
					a := &anneal{d: vc.Structured(kind, n, p, uint64(p*n)), sweeps: 1, cost: cost}
					c.Case(fmt.Sprintf("%s-%d", a.d.Name, cost), func() { reach(c, a) })
				}
			}
		}
	}

	c.Group("all outcomes later on")
	wd := c.Pick(5, 7)
	c.Bound("every outcome of %d random numbers after the first 5, 20, 60, 150 and 400", wd)
	for i, from := range []int{5, 20, 60, 150, 400} {
		for p := 2; p <= 3; p++ {
			a := &anneal{d: vc.Structured([]int{vc.KindSparse, vc.KindCorrelated}[p%2], 8, p, uint64(from)), sweeps: 2, cost: 1}
			cfg := vs.Config{RandMode: 1, RandFrom: from, RandDepth: wd, RandFloats: []float64{0, 0.5, almost}, TailFloats: tails[tailNames[i%4]], RandSeed: uint64(i)}
			explore(c, fmt.Sprintf("%s-after%d", a.d.Name, from), a.String, cfg, 0, 1.2*float64(c.Pick(1, 10)), a.scenario())
		}
	}

	c.Group("all datasets of the alphabet")
	c.Bound("1 to 3 columns with 4 rows out of the alphabet, all targets, four continuations")
	i := 0
	for p := 1; p <= 3; p++ {
		vc.SmallData(vc.Columns4, vc.Targets4, p, func(d *vc.Data) {
			i++
			if !c.Thorough() && p == 3 && i%4 != 0 {
				return
			}
			for k, t := range tailNames {
				if !c.Thorough() && k != i/4%4 {
					continue
				}
				c.Case(d.Name+"/"+t, func() {
					a := &anneal{d: d, sweeps: 1, cost: (i + k) % 5}
					c.Input(a.String)
					one(c, vs.Config{RandSeed: uint64(i), TailFloats: tails[t]}, a.scenario())
				})
			}
		})
	}

	c.Group("structured")
	c.Bound("structured datasets with 1 to 130 rows and 1 to 9 columns, all criteria, four continuations")
	for kind := 0; kind < vc.NumKinds; kind++ {
		for _, n := range []int{1, 2, 3, 4, 5, 7, 12, 20, 70, 130} {
			for _, p := range []int{1, 2, 4, 6, 9} {
				if n > 20 && p%4 != 2 {
					continue
				}
				for seed := uint64(0); seed < uint64(c.Pick(1, 10)); seed++ {
					for k, t := range tailNames {
						c.Case(fmt.Sprintf("%s-%d-%d-%d/%s", vc.KindNames[kind], n, p, seed, t), func() {
							a := &anneal{d: vc.Structured(kind, n, p, seed), sweeps: 1 + (n+k)%3, cost: (kind + k + p) % 5}
							c.Input(a.String)
							one(c, vs.Config{RandSeed: seed + 100, TailFloats: tails[t]}, a.scenario())
						})
					}
				}
			}
		}
	}
	c.Group("large sizes")
	c.Bound("structured datasets with up to 1100 rows or 70 columns, two continuations")
	for _, sh := range [][2]int{{300, 4}, {1100, 3}, {40, 33}, {20, 65}, {16, 70}, {90, 17}} {
		for k, kind := range []int{vc.KindRandom, vc.KindSparse, vc.KindCorrelated, vc.KindBias} {
			for t := 0; t < 2; t++ {
				c.Case(fmt.Sprintf("%s-%d-%d/%s", vc.KindNames[kind], sh[0], sh[1], tailNames[3*t]), func() {
					a := &anneal{d: vc.Structured(kind, sh[0], sh[1], uint64(t)), sweeps: 1, cost: (k + sh[1] + t) % 5}
					c.Input(a.String)
					one(c, vs.Config{RandSeed: uint64(200 + k), TailFloats: tails[tailNames[3*t]]}, a.scenario())
				})
			}
		}
	}
	histories(c, c.Pick(2, 3), 1, func(d *vc.Data, box *vc.Box, i int) vs.Scenario {
		a := &anneal{d: d, sweeps: 2, cost: i % 5, box: box}
		return a.scenario()
	})
}
