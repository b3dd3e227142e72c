//go:build go1.22

package main

import (
	"fmt"
	"math"
	"math/bits"

	fs "github.com/davidkleiven/goselect/featselect"
	vc "github.com/davidkleiven/goselect/verifcommon"
	vs "github.com/davidkleiven/goselect/verifsched"
)

// wide is a search with so many features that the models cannot be listed. The columns
// are orthogonal, so the residual of a model is the sum of what each missing column
// contributes; only few columns (the weak ones) leave a choice
type wide struct {
	n, p   int
	weak   map[int]float64 // weights of the weak columns
	drop   []int           // columns that are not in the root model
	cutoff float64
	size   int
	params *fs.SelectModelOptParams
}

const (
	wideStrong = 14.0
	wideNoise  = 1.0
)

func (w *wide) String() string {
	return fmt.Sprintf("%d rows, %d orthogonal columns, weak ones %v, all but %v in the root model, cutoff %g, list of %d", w.n, w.p, w.weak, w.drop, w.cutoff, w.size)
}

func (w *wide) weight(j int) float64 {
	if v, ok := w.weak[j]; ok {
		return v
	}
	return wideStrong * []float64{1, -1}[j%2]
}

// data: column j is row j+1 of a Hadamard matrix
func (w *wide) data() *vc.Data {
	x := vc.NewMat(w.n, w.p)
	y := make([]float64, w.n)
	had := func(i, j int) float64 { return []float64{1, -1}[bits.OnesCount(uint(i&(j+1)))%2] }
	for i := 0; i < w.n; i++ {
		for j := 0; j < w.p; j++ {
			x.Set(i, j, had(i, j))
			y[i] += w.weight(j) * had(i, j)
		}
		y[i] += wideNoise * had(i, w.n-2)
	}
	return &vc.Data{Name: "orthogonal", X: x, Y: y}
}

func (w *wide) aicc(model []bool) (float64, bool) {
	rss, k := wideNoise*wideNoise, 0
	for j, in := range model {
		if in {
			k++
		} else {
			rss += w.weight(j) * w.weight(j)
		}
	}
	return vc.RefAicc(k, w.n, rss*float64(w.n)), k > 0 && k < w.n
}

// choices runs f for all models that have all strong columns
func (w *wide) choices(f func(model []bool)) {
	var js []int
	for j := 0; j < w.p; j++ {
		if _, ok := w.weak[j]; ok {
			js = append(js, j)
		}
	}
	for s := 0; s < 1<<uint(len(js)); s++ {
		model := make([]bool, w.p)
		for j := range model {
			_, ok := w.weak[j]
			model[j] = !ok
		}
		for k, j := range js {
			model[j] = s>>uint(k)&1 == 1
		}
		f(model)
	}
}

func (w *wide) scenario(o func(w *wide, d *vc.Data, e *vs.Exec, f *found) string) vs.Scenario {
	d := w.data()
	return func() (func(), func(*vs.Exec) string) {
		f := &found{h: fs.NewHighscore(w.size), sp: &fs.SearchProgress{}, x: d.X.Dense(), y: vc.Clone(d.Y)}
		f.params = fs.NewSelectModelOptParams()
		f.params.Cutoff = w.cutoff
		root := make([]bool, w.p)
		for j := range root {
			root[j] = true
		}
		for _, j := range w.drop {
			root[j] = false
		}
		f.params.RootModel = root
		return func() {
				fs.SelectModel(f.x, f.y, f.h, f.sp, f.params)
				f.returned = true
			}, func(e *vs.Exec) string {
				if m := finished(e); m != "" {
					return m
				}
				if !f.returned {
					return "the search did not return"
				}
				return o(w, d, e, f)
			}
	}
}

// best is the smallest AICc. Without one of the strong columns no model can be
// better than with all of them
func (w *wide) best() float64 {
	best := math.Inf(1)
	w.choices(func(m []bool) {
		a, _ := w.aicc(m)
		best = math.Min(best, a)
	})
	return best
}

func wideOptimal(w *wide, d *vc.Data, e *vs.Exec, f *found) string {
	best := w.best()
	ns := nodes(f.h)
	if len(ns) == 0 {
		return "no model was found"
	}
	a, _ := w.aicc(ns[0].Model)
	if slack := math.Max(w.cutoff, 0); !(a <= best+slack+tolCrit*(1+math.Abs(best))) {
		return fmt.Sprintf("the best entry %v has AICc %.9g, the smallest one is %.9g (allowed difference %g)", vc.BoolStr(ns[0].Model), a, best, slack)
	}
	return ""
}

func wideComplete(w *wide, d *vc.Data, e *vs.Exec, f *found) string {
	best := w.best()
	have := map[string]bool{}
	for _, n := range nodes(f.h) {
		have[vc.BoolStr(n.Model)] = true
	}
	msg := ""
	w.choices(func(m []bool) {
		a, _ := w.aicc(m)
		if a < best-w.cutoff-tolCrit*(1+math.Abs(best)) && !have[vc.BoolStr(m)] {
			msg = fmt.Sprintf("model %v with AICc %.9g is missing, although it is less than %g above the smallest one %.9g", vc.BoolStr(m), a, -w.cutoff, best)
		}
	})
	return msg
}

func wideGenuine(w *wide, d *vc.Data, e *vs.Exec, f *found) string {
	ns := nodes(f.h)
	seen := map[string]bool{}
	for i, n := range ns {
		if len(n.Model) != w.p {
			return fmt.Sprintf("entry %d has a model of length %d", i, len(n.Model))
		}
		a, ok := w.aicc(n.Model)
		if !ok || seen[vc.BoolStr(n.Model)] {
			return fmt.Sprintf("entry %d is %v: inadmissible, or listed twice", i, vc.BoolStr(n.Model))
		}
		seen[vc.BoolStr(n.Model)] = true
		if !vc.Close(-n.Score, a, tolCrit) {
			return fmt.Sprintf("entry %d, model %v, has score %.9g, but its AICc is %.9g", i, vc.BoolStr(n.Model), n.Score, a)
		}
		if i > 0 && ns[i-1].Score < n.Score {
			return fmt.Sprintf("entry %d (score %.9g) comes before the better entry %d (score %.9g)", i-1, ns[i-1].Score, i, n.Score)
		}
		k := 0
		for j, in := range n.Model {
			if !in {
				continue
			}
			if k >= len(n.Coeff) || math.Abs(n.Coeff[k]-w.weight(j)) > 1e-7*(1+math.Abs(w.weight(j))) {
				return fmt.Sprintf("entry %d, model %v, coefficients %v: number %d should be %g", i, vc.BoolStr(n.Model), n.Coeff, k, w.weight(j))
			}
			k++
		}
		if k != len(n.Coeff) {
			return fmt.Sprintf("entry %d, model %v, has %d coefficients", i, vc.BoolStr(n.Model), len(n.Coeff))
		}
	}
	best, n, pruned := f.sp.Get()
	if n < len(ns) || len(ns) < w.size-1 && n != len(ns) {
		return fmt.Sprintf("the progress reports %d scored models, the list (of size %d) has %d", n, w.size, len(ns))
	}
	if best != f.h.BestScore() {
		return fmt.Sprintf("the progress reports the best score %.9g, the list has %.9g", best, f.h.BestScore())
	}
	if !(pruned > 0 && pruned <= math.Log2(1+math.Pow(2, float64(w.p)))+1e-9) {
		return fmt.Sprintf("the progress reports 2^%g pruned models of 2^%d", pruned, w.p)
	}
	return ""
}

func wideFinished(w *wide, d *vc.Data, e *vs.Exec, f *found) string {
	if m := noLeak(e); m != "" {
		return m
	}
	if !vc.SameBits(vc.FromDense(f.x).D, d.X.D) || !vc.SameBits(f.y, d.Y) {
		return "the data were modified"
	}
	return ""
}

// wideSets runs the searches with many features
func wideSets(c *vc.Ctx, cutoffs []float64, o func(w *wide, d *vc.Data, e *vs.Exec, f *found) string) {
	c.Group("many features")
	c.Bound("orthogonal datasets with 16 to 70 features (all models but the 8 with all strong columns are worse), 4 positions of the 3 weak columns, root models without up to 3 columns")
	i := 0
	for _, sh := range [][2]int{{32, 16}, {64, 31}, {64, 32}, {64, 33}, {64, 40}, {128, 64}, {128, 65}, {128, 70}} {
		n, p := sh[0], sh[1]
		for pos := 0; pos < 4; pos++ {
			at := [][]int{{0, 1, 2}, {p - 3, p - 2, p - 1}, {0, p / 2, p - 1}, {p / 3, p - 2, p - 1}}[pos]
			if p > 60 && pos == 0 && !c.Thorough() {
				continue
			}
			for r := 0; r < 3; r++ {
				if p > 60 && r != pos%3 && !c.Thorough() {
					continue
				}
				w := &wide{n: n, p: p, weak: map[int]float64{at[0]: 0.01, at[1]: 0.8, at[2]: 0.1}, cutoff: cutoffs[i%len(cutoffs)], size: []int{10, 3, 500}[i%3]}
				w.drop = [][]int{nil, {at[1]}, {at[0], at[1], at[2]}}[r]
				i++
				c.Case(fmt.Sprintf("%d-%d-%d", p, pos, r), func() {
					c.Input(w.String)
					one(c, vs.Config{Policy: (pos + r) % 5}, w.scenario(o))
				})
			}
		}
	}
}
