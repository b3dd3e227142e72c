//go:build go1.22

package main

import (
	"fmt"
	"math"

	fs "github.com/davidkleiven/goselect/featselect"
	vc "github.com/davidkleiven/goselect/verifcommon"
)

func init() {
	props["G05"] = g05
	props["G06"] = g06
	props["G08"] = g08
}

// ------------------------------------------------------------------- bounds

func checkBounds(c *vc.Ctx, d *vc.Data, starts func(mask, start int) bool) {
	p, n := d.X.C, d.X.R
	aic := make([]float64, 1<<uint(p))
	aicc := make([]float64, 1<<uint(p))
	ok := make([]bool, 1<<uint(p))
	for _, m := range vc.AllModels(d.X, d.Y) {
		aicc[m.Mask] = m.Aicc
		aic[m.Mask] = vc.RefAic(m.K, n, m.Rss)
		ok[m.Mask] = true
	}
	x, y := d.X.Dense(), vc.Clone(d.Y)
	for mask := 0; mask < 1<<uint(p); mask++ {
		model := vc.ModelOf(mask, p)
		for start := 0; start <= p; start++ {
			low := mask & (1<<uint(start) - 1)
			full := low | (1<<uint(p)-1)&^(1<<uint(start)-1)
			if full == 0 || !starts(mask, start) {
				continue
			}
			gcs, lcs := fs.Gcs(model, start), fs.Lcs(model, start)
			c.Check(len(gcs) == p && vc.MaskOf(gcs) == full, "Gcs of %v at %d is %v", model, start, gcs)
			c.Check(len(lcs) == p && vc.MaskOf(lcs) == low, "Lcs of %v at %d is %v", model, start, lcs)
			lo1, hi1 := fs.BoundsAIC(model, start, x, y)
			lo2, hi2 := fs.BoundsAICC(model, start, x, y)
			c.Exec(2)
			c.Step(4)
			c.State(1)
			c.Check(vc.MaskOf(model) == mask, "the model was modified")
			if start == p && mask != 0 && ok[mask] {
				// all features are decided
				for k, v := range []float64{lo1, hi1, lo2, hi2} {
					w := []float64{aic[mask], aic[mask], aicc[mask], aicc[mask]}[k]
					c.Check(math.Abs(v-w) <= 1e-6*(1+math.Abs(w)), "bound %.9g of the decided model %v, its criterion is %.9g", v, model, w)
				}
			}
			// every model between low and full
			free := full &^ low
			for s := free; ; s = (s - 1) & free {
				m := low | s
				if ok[m] {
					tol := 1e-7 * (1 + math.Abs(aicc[m]))
					c.Check(lo1 <= aic[m]+tol, "model %v, start %d: the lower bound %.9g exceeds the AIC %.9g of %v", model, start, lo1, aic[m], vc.ModelOf(m, p))
					c.Check(hi1 >= aic[m]-tol, "model %v, start %d: the upper bound %.9g is below the AIC %.9g of %v", model, start, hi1, aic[m], vc.ModelOf(m, p))
					c.Check(lo2 <= aicc[m]+tol, "model %v, start %d: the lower bound %.9g exceeds the AICc %.9g of %v", model, start, lo2, aicc[m], vc.ModelOf(m, p))
					c.Check(hi2 >= aicc[m]-tol, "model %v, start %d: the upper bound %.9g is below the AICc %.9g of %v", model, start, hi2, aicc[m], vc.ModelOf(m, p))
					c.Check(fs.NumFeatures(lcs) <= fs.NumFeatures(vc.ModelOf(m, p)), "NumFeatures")
				}
				if s == 0 {
					break
				}
			}
		}
	}
	c.Check(vc.SameBits(vc.FromDense(x).D, d.X.D) && vc.SameBits(y, d.Y), "the dataset was modified")
}

// wideBounds checks the bounds for many features, of which the last few are free
func wideBounds(c *vc.Ctx, d *vc.Data, start int, chosen []int) {
	p, n := d.X.C, d.X.R
	model := make([]bool, p)
	for _, j := range chosen {
		model[j] = true
	}
	for j := start; j < p; j++ {
		model[j] = (j+n)%2 == 0 // must not matter
	}
	x, y := d.X.Dense(), vc.Clone(d.Y)
	c.Input(func() string { return fmt.Sprintf("%v model %s start %d", d, boolStr(model), start) })
	keep := boolStr(model)
	gcs, lcs := fs.Gcs(model, start), fs.Lcs(model, start)
	for j := 0; j < p; j++ {
		c.Check(gcs[j] == (j >= start || model[j]) && lcs[j] == (j < start && model[j]), "Gcs is %s, Lcs is %s", boolStr(gcs), boolStr(lcs))
	}
	lo1, hi1 := fs.BoundsAIC(model, start, x, y)
	lo2, hi2 := fs.BoundsAICC(model, start, x, y)
	c.Check(boolStr(model) == keep, "the model was modified")
	c.Exec(2)
	c.Step(4)
	c.State(1)
	for s := 0; s < 1<<uint(p-start); s++ {
		var cols [][]float64
		for _, j := range chosen {
			cols = append(cols, d.X.Col(j))
		}
		for j := start; j < p; j++ {
			if s>>uint(j-start)&1 == 1 {
				cols = append(cols, d.X.Col(j))
			}
		}
		if len(cols) == 0 {
			continue
		}
		rss := vc.RefRss(cols, d.Y)
		aic, aicc := vc.RefAic(len(cols), n, rss), vc.RefAicc(len(cols), n, rss)
		tol := 1e-7 * (1 + math.Abs(aicc))
		c.Check(lo1 <= aic+tol && hi1 >= aic-tol, "the bounds %.9g and %.9g do not enclose the AIC %.9g of the choice %b of the free features", lo1, hi1, aic, s)
		c.Check(lo2 <= aicc+tol && hi2 >= aicc-tol, "the bounds %.9g and %.9g do not enclose the AICc %.9g of the choice %b of the free features", lo2, hi2, aicc, s)
	}
}

// freeBounds checks the bounds where many features are free, for some of the models below
func freeBounds(c *vc.Ctx, d *vc.Data, start int, chosen func(j int) bool) {
	p, n := d.X.C, d.X.R
	model := make([]bool, p)
	for j := range model {
		model[j] = j < start && chosen(j) || j >= start && j%2 == 0 // the latter must not matter
	}
	c.Input(func() string { return fmt.Sprintf("%s model %s start %d", d.Name, boolStr(model), start) })
	keep := boolStr(model)
	gcs, lcs := fs.Gcs(model, start), fs.Lcs(model, start)
	for j := 0; j < p; j++ {
		c.Check(gcs[j] == (j >= start || model[j]) && lcs[j] == (j < start && model[j]), "Gcs is %s, Lcs is %s", boolStr(gcs), boolStr(lcs))
	}
	c.Check(boolStr(model) == keep, "the model was modified")
	x, y := d.X.Dense(), vc.Clone(d.Y)
	lo1, hi1 := fs.BoundsAIC(model, start, x, y)
	lo2, hi2 := fs.BoundsAICC(model, start, x, y)
	c.Exec(2)
	c.Step(4)
	c.State(1)
	one := func(free func(j int) bool) {
		var cols [][]float64
		for j := 0; j < p; j++ {
			if j < start && model[j] || j >= start && free(j) {
				cols = append(cols, d.X.Col(j))
			}
		}
		if len(cols) == 0 {
			return
		}
		rss := vc.RefRss(cols, d.Y)
		aic, aicc := vc.RefAic(len(cols), n, rss), vc.RefAicc(len(cols), n, rss)
		tol := 1e-6 * (1 + math.Abs(aicc))
		c.Check(lo1 <= aic+tol && hi1 >= aic-tol, "the bounds %.9g and %.9g do not enclose the AIC %.9g of a model with %d features", lo1, hi1, aic, len(cols))
		c.Check(lo2 <= aicc+tol && hi2 >= aicc-tol, "the bounds %.9g and %.9g do not enclose the AICc %.9g of a model with %d features", lo2, hi2, aicc, len(cols))
	}
	one(func(int) bool { return false })
	one(func(int) bool { return true })
	one(func(j int) bool { return j < (start+p)/2 })
	one(func(j int) bool { return j >= (start+p)/2 })
	one(func(j int) bool { return j%2 == 0 })
	for k := start; k < p; k++ {
		if p-start > 20 && (k-start)%7 > 0 && k != p-1 {
			continue
		}
		one(func(j int) bool { return j == k })
		one(func(j int) bool { return j != k })
	}
}

func g05(c *vc.Ctx) {
	always := func(int, int) bool { return true }
	c.Group("small datasets")
	cols, targets := vc.Columns4[:6], vc.Targets4[:4]
	if c.Thorough() {
		cols, targets = vc.Columns4, vc.Targets4
	}
	c.Bound("all datasets with 4 points and 2 or 3 columns out of %d, %d targets; all models and start positions (thorough: also 4 columns out of 5)", len(cols), len(targets))
	for p := 2; p <= 3; p++ {
		vc.SmallData(cols, targets, p, func(d *vc.Data) {
			c.Case(d.Name, func() {
				c.Input(d.String)
				checkBounds(c, d, always)
			})
		})
	}
	if c.Thorough() {
		vc.SmallData(vc.Columns4[:5], vc.Targets4[:3], 4, func(d *vc.Data) {
			c.Case(d.Name, func() {
				c.Input(d.String)
				checkBounds(c, d, always)
			})
		})
	}
	c.Group("structured datasets")
	c.Bound("structured datasets with up to 8 features; all models and start positions")
	for seed := uint64(0); seed < uint64(c.Pick(4, 24)); seed++ {
		for k := 0; k < vc.NumKinds; k++ {
			for _, sh := range [][2]int{{3, 3}, {4, 6}, {5, 4}, {6, 5}, {8, 8}, {12, 4}, {20, 6}, {40, 3}, {70, 6}, {130, 4}} {
				d := vc.Structured(k, sh[0], sh[1], seed+70)
				c.Case(d.Name, func() {
					c.Input(d.String)
					checkBounds(c, d, func(mask, start int) bool {
						// models that agree before the start position give the same call
						return c.Thorough() || d.X.C < 6 || mask>>uint(start) == 0 || mask%7 == 3
					})
				})
			}
		}
	}
	c.Group("scaled targets")
	c.Bound("structured datasets with 3 to 5 features and 4 to 150 rows, targets scaled by a factor of 1e-9 to 1e9; all models and start positions")
	for k := 0; k < vc.NumKinds; k++ {
		for _, sh := range [][2]int{{4, 3}, {5, 5}, {7, 4}, {12, 3}, {30, 4}, {150, 3}} {
			for _, f := range []float64{1e-9, 1e-6, 1e-3, 1e3, 1e6, 1e9} {
				d := vc.Structured(k, sh[0], sh[1], 90)
				d.Name = fmt.Sprintf("%s-%g", d.Name, f)
				for i := range d.Y {
					d.Y[i] *= f
				}
				c.Case(d.Name, func() {
					c.Input(d.String)
					for _, m := range vc.AllModels(d.X, d.Y) {
						if yy := vc.Dot(d.Y, d.Y); m.Rss < 1e-20*yy && yy > 1e4 {
							// the criterion is that of rounding errors
							c.Seen("exact fit of large targets")
							return
						}
					}
					checkBounds(c, d, always)
				})
			}
		}
	}
	c.Group("many features")
	c.Bound("10 to 70 features, of which all but 1 to 5 are decided, 0 to 6 chosen; all choices of the free ones")
	for _, p := range []int{10, 18, 23, 33, 40, 65, 70} {
		for _, n := range []int{12, 50, 90} {
			for free := 1; free <= 5; free++ {
				for k := 0; k <= 6; k++ {
					kind := []int{vc.KindRandom, vc.KindSparse, vc.KindCorrelated}[(p+n+free+k)%3]
					d := vc.Structured(kind, n, p, uint64(free))
					c.Case(fmt.Sprintf("%s-free%d-%d", d.Name, free, k), func() {
						for v := 0; v < c.Pick(2, 8); v++ {
							h := vc.NewHash(uint64(k*100 + v))
							var chosen []int
							used := map[int]bool{}
							for len(chosen) < k && len(chosen) < p-free {
								if j := h.N(p - free); !used[j] {
									used[j] = true
									chosen = append(chosen, j)
								}
							}
							wideBounds(c, d, p-free, chosen)
						}
					})
				}
			}
		}
	}
	c.Group("many free features")
	c.Bound("9 to 300 features, 5 to 1100 rows, 14 start positions, 4 patterns of chosen features; completions with none, one, all but one or all of the free features, the first and the last half and every second one")
	for _, sh := range [][2]int{{20, 9}, {60, 17}, {20, 33}, {50, 33}, {90, 40}, {5, 64}, {40, 65}, {150, 70}, {40, 130}, {30, 300}, {130, 10}, {300, 9}, {1100, 12}} {
		n, p := sh[0], sh[1]
		for _, kind := range []int{vc.KindRandom, vc.KindSparse} {
			d := vc.Structured(kind, n, p, 3)
			for _, start := range []int{0, 1, 2, 3, 7, 8, 9, 31, 32, 33, 63, 64, 65, p / 2, p - 10, p - 2, p - 1} {
				if start < 0 || start >= p || n*p > 5000 && start > 2 && start < p/2 {
					continue
				}
				c.Case(fmt.Sprintf("%s-start%d", d.Name, start), func() {
					for pat := 0; pat < 4; pat++ {
						freeBounds(c, d, start, func(j int) bool { return pat == 1 && j%3 == 0 || pat == 2 || pat == 3 && j == start-1 })
					}
				})
			}
		}
	}
	histories(c, histData(), histG05)
}

// --------------------------------------------------------------------- tree

func g06(c *vc.Ctx) {
	maxP := c.Pick(8, 10)
	c.Group("trees")
	c.Bound("all root models with up to %d features, whole trees", maxP)
	for p := 1; p <= maxP; p++ {
		for root := 0; root < 1<<uint(p); root++ {
			if p > 7 && root%5 != 0 && !c.Thorough() {
				continue
			}
			c.Case(fmt.Sprintf("p%d-%b", p, root), func() {
				given := vc.ModelOf(root, p)
				r := fs.NewNode(0, given)
				c.Check(r.Level == 0 && vc.MaskOf(r.Model) == root && len(r.Coeff) == fs.NumFeatures(given), "NewNode gives %+v", *r)
				given[0] = !given[0]
				c.Check(vc.MaskOf(r.Model) == root, "the root shares memory with the given model")
				given[0] = !given[0]
				seen := map[int]int{root: 1}
				level := []*fs.Node{r}
				for l := 0; l < p; l++ {
					var next []*fs.Node
					for _, n := range level {
						before := vc.MaskOf(n.Model)
						for _, flip := range []bool{false, true} {
							ch := n.GetChildNode(flip)
							want := before
							if flip {
								want ^= 1 << uint(l)
							}
							c.Check(len(ch.Model) == p && vc.MaskOf(ch.Model) == want, "child (flip %v) of %v at level %d has the model %v", flip, n.Model, l, ch.Model)
							c.Check(ch.Level == l+1 && ch.WasFlipped == flip, "child (flip %v) at level %d has level %d, WasFlipped %v", flip, l, ch.Level, ch.WasFlipped)
							if ch.WasFlipped {
								seen[want]++
							}
							for i := range ch.Model {
								ch.Model[i] = !ch.Model[i]
							}
							c.Check(vc.MaskOf(n.Model) == before, "a child shares memory with its parent")
							for i := range ch.Model {
								ch.Model[i] = !ch.Model[i]
							}
							next = append(next, ch)
							c.Step(1)
						}
					}
					level = next
				}
				c.Check(len(seen) == 1<<uint(p), "%d of %d models are new nodes", len(seen), 1<<uint(p))
				for m, k := range seen {
					c.Check(k == 1, "model %v is a new node %d times", vc.ModelOf(m, p), k)
				}
				c.Exec(1)
				c.State(2<<uint(p) - 1)
			})
		}
	}
	c.Group("large sizes")
	c.Bound("nodes of trees with 31 to 1025 features: both children at every level of 5 ways down from 3 root models")
	for _, p := range largeSizes {
		for way := 0; way < 5; way++ {
			for root := 0; root < 3; root++ {
				c.Case(fmt.Sprintf("p%d-%d-%d", p, way, root), func() {
					model := make([]bool, p)
					for j := range model {
						model[j] = root == 1 || root == 2 && j%3 == 0
					}
					c.Input(func() string { return fmt.Sprintf("%d features, root %s, way %d", p, boolStr(model), way) })
					n := fs.NewNode(0, model)
					c.Check(len(n.Coeff) == fs.NumFeatures(model), "NewNode has %d coefficients", len(n.Coeff))
					for l := 0; l < p; l++ {
						before := boolStr(n.Model)
						var next *fs.Node
						for f, flip := range []bool{false, true} {
							ch := n.GetChildNode(flip)
							w := []byte(before)
							if flip {
								w[l] ^= 1
							}
							c.Check(boolStr(ch.Model) == string(w) && ch.Level == l+1 && ch.WasFlipped == flip, "child (flip %v) of %s at level %d is %s at level %d, WasFlipped %v", flip, before, l, boolStr(ch.Model), ch.Level, ch.WasFlipped)
							if f == []int{0, 1, l % 2, map[bool]int{true: 1}[l == p-1], map[bool]int{true: 1}[l%7 == 0]}[way] {
								next = ch
							}
						}
						next.Model[p-1-l] = !next.Model[p-1-l]
						c.Check(boolStr(n.Model) == before, "a child shares memory with its parent")
						next.Model[p-1-l] = !next.Model[p-1-l]
						n = next
						c.Step(1)
					}
					c.Exec(1)
					c.State(1)
				})
			}
		}
	}
	c.Group("exhaustive search")
	c.Bound("datasets with 4 points and 1 to 3 columns out of 6, 4 targets; structured ones with up to 8 features")
	check := func(d *vc.Data) {
		c.Case(d.Name, func() {
			c.Input(d.String)
			exhaustive(c, d)
		})
	}
	for p := 1; p <= 3; p++ {
		vc.SmallData(vc.Columns4[:6], vc.Targets4[:4], p, check)
	}
	for seed := uint64(0); seed < uint64(c.Pick(4, 24)); seed++ {
		for k := 0; k < vc.NumKinds; k++ {
			for _, sh := range [][2]int{{5, 1}, {4, 5}, {6, 4}, {10, 6}, {9, 8}, {25, 7}, {70, 5}, {110, 3}, {300, 4}, {1100, 2}} {
				if sh[1] > 1 || k != vc.KindDuplicate {
					check(vc.Structured(k, sh[0], sh[1], seed+90))
				}
			}
		}
	}
}

func exhaustive(c *vc.Ctx, d *vc.Data) {
	x, y := d.X.Dense(), vc.Clone(d.Y)
	h := fs.BruteForceSelect(x, y)
	p := d.X.C
	ns := nodesOf(h)
	c.Exec(1)
	c.State(1 << uint(p))
	c.Step(1 << uint(p))
	c.Check(len(ns) == 1<<uint(p)-1, "%d of %d models are listed", len(ns), 1<<uint(p)-1)
	seen := map[int]bool{}
	for i, n := range ns {
		mask := vc.MaskOf(n.Model)
		c.Check(len(n.Model) == p && mask != 0 && !seen[mask], "entry %d is %v", i, n.Model)
		seen[mask] = true
		c.Check(i == 0 || ns[i-1].Score >= n.Score, "entry %d is better than the one before", i)
		var cols [][]float64
		sel := vc.SelOf(mask, p)
		for _, j := range sel {
			cols = append(cols, d.X.Col(j))
		}
		rss := vc.RefRss(cols, d.Y)
		w := -vc.RefAicc(len(sel), d.X.R, rss)
		c.Check(vc.Close(n.Score, w, 1e-6), "model %v has the score %.9g, minus its AICc is %.9g", n.Model, n.Score, w)
		c.Check(len(n.Coeff) == len(sel), "model %v has %d coefficients", n.Model, len(n.Coeff))
		m := vc.CheckLeastSquares(d.X, sel, d.Y, n.Coeff)
		c.Check(m == "", "model %v: %s", n.Model, m)
	}
	c.Check(vc.SameBits(vc.FromDense(x).D, d.X.D) && vc.SameBits(y, d.Y), "the dataset was modified")
}

// ----------------------------------------------------------------- children

// children checks CreateChild for all nodes of the tree
func children(c *vc.Ctx, d *vc.Data, nodes func(mask, level int) bool) {
	p, n := d.X.C, d.X.R
	aicc := make([]float64, 1<<uint(p))
	ok := make([]bool, 1<<uint(p))
	for _, m := range vc.AllModels(d.X, d.Y) {
		aicc[m.Mask], ok[m.Mask] = m.Aicc, true
	}
	x, y := d.X.Dense(), vc.Clone(d.Y)
	for mask := 0; mask < 1<<uint(p); mask++ {
		for level := 0; level < p; level++ {
			if !nodes(mask, level) {
				continue
			}
			for _, flip := range []bool{false, true} {
				want := mask
				if flip {
					want ^= 1 << uint(level)
				}
				// the models below the child
				low := want & (1<<uint(level+1) - 1)
				free := (1<<uint(p) - 1) &^ (1<<uint(level+1) - 1)
				best, worst := math.Inf(1), math.Inf(-1)
				for s := free; ; s = (s - 1) & free {
					if ok[low|s] {
						best, worst = math.Min(best, aicc[low|s]), math.Max(worst, aicc[low|s])
					}
					if s == 0 {
						break
					}
				}
				tooMany := len(vc.SelOf(low, p)) >= n
				// the bound of the child
				bound := -1e100
				if !tooMany && want != 0 {
					bound, _ = fs.BoundsAICC(vc.ModelOf(want, p), level+1, x, y)
				}
				for _, cut := range []float64{0, 2, -3} {
					listed := []float64{math.NaN(), -1e6, 1e6}
					for _, v := range []float64{bound, best} {
						if math.Abs(v) < 1e50 {
							tol := 1e-6 * (1 + math.Abs(v))
							listed = append(listed, v+cut-2*tol, v+cut+2*tol, v+cut-1, v+cut+1)
						}
					}
					for _, l := range listed {
						h := fs.NewHighscore(3)
						if l == l {
							other := fs.NewNode(0, make([]bool, p))
							other.Score = -l
							h.Insert(other)
						}
						parent := fs.NewNode(level, vc.ModelOf(mask, p))
						parent.Score, parent.Lower, parent.Upper, parent.WasFlipped = 7, -2, 3, flip
						for i := range parent.Coeff {
							parent.Coeff[i] = float64(i)
						}
						keep := *parent
						child := fs.CreateChild(parent, flip, x, y, cut, h)
						c.Exec(1)
						c.Step(1)
						what := fmt.Sprintf("node %v at level %d, flip %v, cutoff %g, listed AICc %g", vc.ModelOf(mask, p), level, flip, cut, l)
						c.Check(vc.MaskOf(parent.Model) == mask && parent.Level == level && parent.Score == 7 && parent.Lower == -2 && parent.Upper == 3 && parent.WasFlipped == keep.WasFlipped, "%s: the parent became %+v", what, *parent)
						c.Check(h.Len() == map[bool]int{true: 1, false: 0}[l == l], "%s: the list was modified", what)
						if child == nil {
							c.Check(tooMany || l == l, "%s: no child although nothing is listed", what)
							tol := 1e-6 * (1 + math.Abs(best))
							c.Check(tooMany || math.IsInf(best, 1) || !(best+cut < l-tol), "%s: no child although it leads to a model with AICc %.9g", what, best)
							c.Check(want != 0 || math.Abs(l) > 1e50, "%s: no child although no feature is selected yet", what)
							continue
						}
						c.Check(!tooMany, "%s: all models below the child have at least %d features, there are %d data points", what, len(vc.SelOf(low, p)), n)
						if l == l && bound > -1e50 {
							c.Check(!(bound+cut > l+1e-6*(1+math.Abs(bound))), "%s: the lower bound %.9g excludes the child, but it is created", what, bound)
						}
						c.Check(len(child.Model) == p && vc.MaskOf(child.Model) == want && child.Level == level+1 && child.WasFlipped == flip, "%s: the child is %+v", what, *child)
						if !math.IsInf(best, 1) {
							tol := 1e-7 * (1 + math.Abs(best) + math.Abs(worst))
							c.Check(child.Lower <= best+tol && child.Upper >= worst-tol, "%s: the bounds %.9g and %.9g do not enclose %.9g and %.9g", what, child.Lower, child.Upper, best, worst)
						}
						// parent and child do not share memory
						child.Model[0] = !child.Model[0]
						c.Check(vc.MaskOf(parent.Model) == mask, "%s: the child shares its model with the parent", what)
						for i := range child.Coeff {
							child.Coeff[i] = -1
						}
						for i, v := range parent.Coeff {
							c.Check(v == float64(i), "%s: the child shares its coefficients with the parent", what)
						}
					}
				}
				c.State(1)
			}
		}
	}
	c.Check(vc.SameBits(vc.FromDense(x).D, d.X.D) && vc.SameBits(y, d.Y), "the dataset was modified")
}

func g08(c *vc.Ctx) {
	always := func(int, int) bool { return true }
	c.Group("children, small datasets")
	cols, targets := vc.Columns4[:6], vc.Targets4[:4]
	if c.Thorough() {
		cols, targets = vc.Columns4, vc.Targets4
	}
	c.Bound("all datasets with 4 points and 2 or 3 columns out of %d, %d targets; all nodes, flipped or not, 3 cutoffs, best listed scores around the bound and the best model of the subtree", len(cols), len(targets))
	k := 0
	for p := 2; p <= 3; p++ {
		vc.SmallData(cols, targets, p, func(d *vc.Data) {
			k++
			if !c.Thorough() && p == 3 && k%2 > 0 {
				return
			}
			c.Case(d.Name, func() {
				c.Input(d.String)
				children(c, d, always)
			})
		})
	}
	c.Group("children, structured datasets")
	c.Bound("structured datasets with up to 7 features, fewer rows than features included; all nodes")
	for kind := 0; kind < vc.NumKinds; kind++ {
		for _, sh := range [][2]int{{1, 2}, {2, 3}, {3, 3}, {3, 5}, {6, 4}, {9, 5}, {20, 6}, {5, 7}, {70, 4}} {
			for seed := uint64(0); seed < uint64(c.Pick(1, 6)); seed++ {
				d := vc.Structured(kind, sh[0], sh[1], seed+60)
				c.Case(d.Name, func() {
					c.Input(d.String)
					children(c, d, func(mask, level int) bool { return sh[1] < 6 || (mask+level)%5 == 0 })
				})
			}
		}
	}
}
