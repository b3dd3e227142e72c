//go:build go1.22

package main

import (
	"fmt"
	"gonum.org/v1/gonum/mat"
	"math"
	"sort"

	fs "github.com/davidkleiven/goselect/featselect"
	vc "github.com/davidkleiven/goselect/verifcommon"
	vs "github.com/davidkleiven/goselect/verifsched"
)

func init() {
	props["G01"] = g01
	props["G02"] = g02
	props["G03"] = g03
	props["G04"] = g04
	props["G08"] = g08
}

// search is one call of SelectModel
type search struct {
	d      *vc.Data
	root   int // mask, -1: none
	params bool
	cutoff float64
	queue  int
	size   int
	polls  int
	pause  int     // steps between polls
	box    *vc.Box // of the arguments; nil: new ones
	models []vc.ModelScore
	best   float64
}

const noQueueLimit = 1 << 40

func newSearch(d *vc.Data, root int) *search {
	s := &search{d: d, root: root, params: true, queue: noQueueLimit, size: 10, best: math.Inf(1)}
	s.models = vc.AllModels(d.X, d.Y)
	for _, m := range s.models {
		s.best = math.Min(s.best, m.Aicc)
	}
	return s
}

func (s *search) String() string {
	return fmt.Sprintf("%v root=%b cutoff=%g maxqueue=%d size=%d", s.d, s.root, s.cutoff, s.queue, s.size)
}

// found is what a search left behind
type found struct {
	h        *fs.Highscore
	sp       *fs.SearchProgress
	params   *fs.SelectModelOptParams
	x        *mat.Dense
	y        []float64
	returned bool
	polls    []poll
}

// progressLag is the number of models by which the progress may be behind the list
const progressLag = 8

type poll struct {
	best   float64
	n      int
	pruned float64
	listed int // length of the list just before
}

func (s *search) run() (func(), *found) {
	f := &found{h: fs.NewHighscore(s.size), sp: &fs.SearchProgress{}}
	x := s.d.X.Dense()
	y := vc.Clone(s.d.Y)
	if s.box != nil {
		x, y = s.box.Fill(s.d)
	}
	f.x, f.y = x, y
	if s.params {
		f.params = fs.NewSelectModelOptParams()
		f.params.Cutoff = s.cutoff
		if s.queue < noQueueLimit {
			f.params.MaxQueueSize = s.queue
		}
		if s.root >= 0 {
			f.params.RootModel = vc.ModelOf(s.root, s.d.X.C)
		}
	}
	return func() {
		if s.polls > 0 {
			vs.Go("observer", nil, func() {
				for i := 0; i < s.polls && !f.returned; i++ {
					l := f.h.Len()
					b, n, p := f.sp.Get()
					f.polls = append(f.polls, poll{b, n, p, l})
					if i%4 == 3 {
						vs.Pause(s.pause)
					} else {
						vs.Yield()
					}
				}
			})
		}
		fs.SelectModel(x, y, f.h, f.sp, f.params)
		f.returned = true
	}, f
}

func nodes(h *fs.Highscore) []*fs.Node {
	var out []*fs.Node
	for e := h.Items.Front(); e != nil; e = e.Next() {
		out = append(out, e.Value.(*fs.Node))
	}
	return out
}

// tolerance of comparisons of criteria
const tolCrit = 1e-6

func (s *search) aicc(mask int) (float64, bool) {
	for _, m := range s.models {
		if m.Mask == mask {
			return m.Aicc, true
		}
	}
	return 0, false
}

// optimal: the best entry is the best model (G01), up to slack
func (s *search) optimal(f *found, slack float64) string {
	ns := nodes(f.h)
	if len(s.models) == 0 {
		if len(ns) > 0 {
			return fmt.Sprintf("there is no admissible model, but the list has %v", ns[0].Model)
		}
		return ""
	}
	if len(ns) == 0 {
		return fmt.Sprintf("no model was found, the smallest AICc is %g", s.best)
	}
	n := ns[0]
	for _, o := range ns {
		if o.Score > n.Score {
			n = o
		}
	}
	mask := vc.MaskOf(n.Model)
	a, ok := s.aicc(mask)
	if !ok {
		return fmt.Sprintf("the best entry %v is not an admissible model", n.Model)
	}
	tol := tolCrit * (1 + math.Abs(s.best))
	if a > s.best+slack+tol {
		return fmt.Sprintf("the best entry %v has AICc %.9g, the smallest one is %.9g (allowed difference %g)", n.Model, a, s.best, slack)
	}
	if math.Abs(-n.Score-a) > tol {
		return fmt.Sprintf("the best entry %v has score %.9g, but its AICc is %.9g", n.Model, n.Score, a)
	}
	if !vc.Close(f.h.BestScore(), n.Score, 1e-12) {
		return fmt.Sprintf("BestScore is %g, the best entry has %g", f.h.BestScore(), n.Score)
	}
	return ""
}

// complete: all models that are less than c worse than the best one are listed (G04)
func (s *search) complete(f *found, c float64) string {
	have := map[int]bool{}
	for _, n := range nodes(f.h) {
		have[vc.MaskOf(n.Model)] = true
	}
	tol := tolCrit * (1 + math.Abs(s.best))
	for _, m := range s.models {
		if m.Aicc < s.best+c-tol && !have[m.Mask] {
			return fmt.Sprintf("model %v with AICc %.9g is missing, although it is less than %g above the smallest one %.9g", vc.ModelOf(m.Mask, s.d.X.C), m.Aicc, c, s.best)
		}
	}
	return ""
}

func sameInputs(s *search, f *found) string {
	if !vc.SameBits(vc.FromDense(f.x).D, s.d.X.D) {
		return "the design matrix was modified"
	}
	if !vc.SameBits(f.y, s.d.Y) {
		return "the target was modified"
	}
	if p := f.params; p != nil {
		if p.Cutoff != s.cutoff || (s.queue < noQueueLimit && p.MaxQueueSize != s.queue) {
			return "the parameters were modified"
		}
		if s.root < 0 && p.RootModel != nil {
			return fmt.Sprintf("a root model %v was written into the caller's parameters", p.RootModel)
		}
		if s.root >= 0 && (len(p.RootModel) != s.d.X.C || vc.MaskOf(p.RootModel) != s.root) {
			return fmt.Sprintf("the root model in the caller's parameters was changed to %v", p.RootModel)
		}
	}
	return ""
}

// genuine: entries are what they claim to be (G03)
func (s *search) genuine(f *found) string {
	ns := nodes(f.h)
	if len(ns) > max(s.size, 0) {
		return fmt.Sprintf("%d entries in a list of size %d", len(ns), s.size)
	}
	seen := map[int]bool{}
	for i, n := range ns {
		if len(n.Model) != s.d.X.C {
			return fmt.Sprintf("entry %d has a model of length %d", i, len(n.Model))
		}
		mask := vc.MaskOf(n.Model)
		a, ok := s.aicc(mask)
		if !ok {
			return fmt.Sprintf("entry %d is the inadmissible model %v (score %g)", i, n.Model, n.Score)
		}
		if seen[mask] {
			return fmt.Sprintf("model %v is listed twice", n.Model)
		}
		seen[mask] = true
		if !vc.Close(-n.Score, a, tolCrit) {
			return fmt.Sprintf("entry %d, model %v, has score %.9g, but its AICc is %.9g", i, n.Model, n.Score, a)
		}
		if i > 0 && ns[i-1].Score < n.Score {
			return fmt.Sprintf("entry %d (score %.9g) comes before the better entry %d (score %.9g)", i-1, ns[i-1].Score, i, n.Score)
		}
		sel := vc.SelOf(mask, s.d.X.C)
		if len(n.Coeff) != len(sel) {
			return fmt.Sprintf("entry %d, model %v, has %d coefficients", i, n.Model, len(n.Coeff))
		}
		if msg := vc.CheckLeastSquares(s.d.X, sel, s.d.Y, n.Coeff); msg != "" {
			return fmt.Sprintf("entry %d, model %v, coefficients %v: %s", i, n.Model, n.Coeff, msg)
		}
	}
	return ""
}

// truthful: the progress (G03)
func (s *search) truthful(f *found) string {
	best, n, pruned := f.sp.Get()
	ns := nodes(f.h)
	if n < len(ns) {
		return fmt.Sprintf("the progress reports %d scored models, the list has %d", n, len(ns))
	}
	if n > len(s.models) {
		return fmt.Sprintf("the progress reports %d scored models, there are %d", n, len(s.models))
	}
	if s.size > n+1 && n != len(ns) {
		return fmt.Sprintf("the progress reports %d scored models, the list (of size %d) has %d", n, s.size, len(ns))
	}
	if len(ns) > 0 && best != f.h.BestScore() {
		return fmt.Sprintf("the progress reports the best score %.9g, the list has %.9g", best, f.h.BestScore())
	}
	top := math.Log2(1+math.Pow(2, float64(s.d.X.C))) + 1e-9
	ok := func(p float64) bool { return p >= 0 && p <= top && !math.IsNaN(p) }
	if !ok(pruned) {
		return fmt.Sprintf("the progress reports 2^%g pruned models of 2^%d", pruned, s.d.X.C)
	}
	last := poll{best: math.Inf(-1)}
	for i, p := range append(f.polls, poll{best, n, pruned, len(ns)}) {
		if p.n < last.n || p.pruned < last.pruned || !ok(p.pruned) {
			return fmt.Sprintf("the progress went from %+v to %+v (reading %d)", last, p, i)
		}
		if p.n < p.listed-progressLag {
			return fmt.Sprintf("the progress reports %d scored models when the list has %d", p.n, p.listed)
		}
		if last.n > 0 && p.best < last.best {
			return fmt.Sprintf("the best score went from %.9g to %.9g (reading %d)", last.best, p.best, i)
		}
		if p.n > 0 && p.best > -s.best+tolCrit*(1+math.Abs(s.best)) {
			return fmt.Sprintf("the progress reports the score %.9g, better than the best model %.9g", p.best, -s.best)
		}
		last = p
	}
	return ""
}

func firstOf(msgs ...func() string) string {
	for _, m := range msgs {
		if s := m(); s != "" {
			return s
		}
	}
	return ""
}

type oracle func(s *search, e *vs.Exec, f *found) string

func (s *search) scenario(o oracle) vs.Scenario {
	return func() (func(), func(*vs.Exec) string) {
		body, f := s.run()
		return body, func(e *vs.Exec) string {
			if m := finished(e); m != "" {
				return m
			}
			if !f.returned {
				return "the search did not return"
			}
			return o(s, e, f)
		}
	}
}

func (s *search) one(c *vc.Ctx, name string, policy int, o oracle) {
	c.Case(fmt.Sprintf("%s/%s", name, policyNames[policy]), func() {
		c.Input(s.String)
		one(c, vs.Config{Policy: policy}, s.scenario(o))
	})
}

func (s *search) explore(c *vc.Ctx, name string, policy, bound int, seconds float64, o oracle) {
	explore(c, name+"/"+policyNames[policy], s.String, vs.Config{Policy: policy}, bound, seconds, s.scenario(o))
}

// scheduleSets are small searches whose schedules are enumerated
func scheduleSets() []*search {
	var out []*search
	add := func(d *vc.Data, root int, f func(*search)) {
		s := newSearch(d, root)
		s.size = 4
		if f != nil {
			f(s)
		}
		out = append(out, s)
	}
	// a weak first feature, so that many subtrees are pruned late
	d := vc.Structured(vc.KindSparse, 6, 3, 3)
	add(d, -1, func(s *search) { s.params = false })
	add(d, 5, nil)
	add(vc.Structured(vc.KindTies, 4, 3, 2), 0, nil)
	add(vc.Structured(vc.KindRandom, 3, 3, 5), 7, nil)
	add(vc.Structured(vc.KindExact, 5, 4, 8), 6, nil)
	add(vc.Structured(vc.KindCorrelated, 7, 4, 2), -1, nil)
	return out
}

// inputSets runs f for all searches of the catalogue
func inputSets(c *vc.Ctx, f func(name string, s *search, i int)) {
	i := 0
	c.Group("all datasets of the alphabet, all roots")
	roots := []int{-1, 0, 1, 2, 3, 4, 5, 6, 7}
	vc.SmallData(vc.Columns4, vc.Targets4, 3, func(d *vc.Data) {
		i++
		if !c.Thorough() && i%5 != 0 && i%7 != 0 {
			return
		}
		for _, r := range roots {
			name := fmt.Sprintf("%s/r%d", d.Name, r)
			if c.Replay == nil && c.TimeUp() {
				// only note that the budget is used up
				c.Case(name, func() {})
				return
			}
			if c.Mine() {
				f(name, newSearch(d, r), i)
			} else {
				c.Skip()
			}
			i++
		}
	})
	c.Group("structured datasets")
	shapes := [][2]int{{1, 3}, {2, 3}, {3, 3}, {4, 4}, {5, 4}, {6, 4}, {4, 6}, {8, 5}, {12, 6}, {3, 5}, {9, 3}, {7, 7}}
	for seed := uint64(0); seed < uint64(c.Pick(2, 12)); seed++ {
		for _, sh := range shapes {
			for k := 0; k < vc.NumKinds; k++ {
				d := vc.Structured(k, sh[0], sh[1], seed)
				full := 1<<uint(sh[1]) - 1
				for _, r := range []int{-1, 0, full, 1, 1 << uint(sh[1]-1), full &^ 1, full & 0x55, full & 0x2a} {
					i++
					name := fmt.Sprintf("%s/r%d", d.Name, r)
					if c.Mine() {
						f(name, newSearch(d, r), i)
					} else {
						c.Skip()
					}
				}
			}
		}
	}
	c.Group("larger datasets")
	for seed := uint64(0); seed < uint64(c.Pick(1, 4)); seed++ {
		for _, sh := range [][2]int{{20, 8}, {15, 9}, {30, 10}, {8, 9}, {14, 11}, {70, 6}, {130, 8}, {300, 5}, {1100, 4}} {
			for k := 0; k < vc.NumKinds; k++ {
				if sh[1] > 9 && k%3 != int(seed)%3 {
					continue
				}
				d := vc.Structured(k, sh[0], sh[1], seed+100)
				full := 1<<uint(sh[1]) - 1
				for j, r := range []int{-1, full, full & 0x155} {
					if sh[1] > 9 && j > 0 {
						continue
					}
					i++
					if c.Mine() {
						f(fmt.Sprintf("%s/r%d", d.Name, r), newSearch(d, r), i)
					} else {
						c.Skip()
					}
				}
			}
		}
	}
}

// ranked are the models in the order of their criterion
func (s *search) ranked() []vc.ModelScore {
	r := append([]vc.ModelScore{}, s.models...)
	sort.Slice(r, func(i, j int) bool { return r[i].Aicc < r[j].Aicc })
	return r
}

// nearTies: searches that start from models that are hardly worse than the best one
func nearTies(c *vc.Ctx, o oracle) {
	c.Group("almost equal models")
	c.Bound("3 to 5 features, two of them almost equal (by 1e-2 to 3e-6), the four best models as root model, one execution each")
	i := 0
	for seed := uint64(0); seed < uint64(c.Pick(6, 40)); seed++ {
		for _, sh := range [][2]int{{8, 3}, {20, 4}, {15, 5}, {60, 3}} {
			for _, eps := range []float64{1e-2, 1e-3, 1e-4, 2e-5, 3e-6} {
				d := vc.NearTie(sh[0], sh[1], eps, seed)
				for k := 0; k < 4; k++ {
					i++
					name := fmt.Sprintf("%s/r%d/%s", d.Name, k, policyNames[i%5])
					c.Case(name, func() {
						s := newSearch(d, -1)
						r := s.ranked()
						s.root = r[min(k, len(r)-1)].Mask
						c.Input(s.String)
						if len(r) > 1 {
							c.Seen(fmt.Sprintf("second best model worse by 10^%.0f", math.Round(math.Log10(r[1].Aicc-r[0].Aicc+1e-16))))
						}
						one(c, vs.Config{Policy: i % 5}, s.scenario(o))
					})
				}
			}
		}
	}
}

// exactCutoffs: cutoffs that are hardly larger or smaller than the difference between
// two models
func exactCutoffs(c *vc.Ctx, o oracle) {
	c.Group("cutoffs next to differences of models")
	c.Bound("3 to 5 features, cutoffs 0.1 %% below and (negative) above the difference of each of the best 12 models to the best one, searches that start from that model")
	i := 0
	for seed := uint64(0); seed < uint64(c.Pick(3, 20)); seed++ {
		for _, sh := range [][2]int{{8, 3}, {20, 4}, {15, 5}} {
			for _, kind := range []int{vc.KindRandom, vc.KindSparse, vc.KindCorrelated, vc.KindBias} {
				d := vc.Structured(kind, sh[0], sh[1], seed+600)
				for k := 1; k <= 12; k++ {
					for _, sg := range []float64{1, -1} {
						i++
						c.Case(fmt.Sprintf("%s/m%d/%g/%s", d.Name, k, sg, policyNames[i%5]), func() {
							s := newSearch(d, -1)
							r := s.ranked()
							if k >= len(r) || r[k].Aicc-r[0].Aicc < 0.1*(1+1e-2*math.Abs(r[0].Aicc)) {
								return
							}
							s.params, s.size = true, 5000
							s.cutoff = sg * (r[k].Aicc - r[0].Aicc) * (1 - sg*1e-3)
							if sg > 0 {
								s.root = r[k].Mask
							}
							c.Input(s.String)
							one(c, vs.Config{Policy: i % 5}, s.scenario(o))
						})
					}
				}
			}
		}
	}
}

func g01(c *vc.Ctx) {
	o := func(s *search, e *vs.Exec, f *found) string { return s.optimal(f, 0) }
	c.Group("schedules")
	c.Bound("all executions with at most 1 (thorough: 2) deviations from the default schedule")
	sets := scheduleSets()
	for i, s := range sets {
		for p := 0; p < 5; p++ {
			if p != i%5 && p != 0 && !c.Thorough() {
				continue
			}
			s.explore(c, fmt.Sprintf("s%d", i), p, c.Pick(1, 2), float64(c.Pick(3, 40)), o)
		}
	}
	sizes := []int{10, 1, 2, 3, 1000}
	inputSets(c, func(name string, s *search, i int) {
		s.size = sizes[i%len(sizes)]
		s.one(c, name, i%5, o)
	})
	wideSets(c, []float64{0}, wideOptimal)
	nearTies(c, o)
	histories(c, 3, 3, func(d *vc.Data, box *vc.Box, i int) vs.Scenario {
		s := newSearch(d, -1)
		s.box = box
		return s.scenario(o)
	})
}

func g02(c *vc.Ctx) {
	o := func(s *search, e *vs.Exec, f *found) string {
		return firstOf(func() string { return noLeak(e) }, func() string { return sameInputs(s, f) })
	}
	c.Group("schedules")
	c.Bound("all executions with at most 1 (thorough: 2) deviations from the default schedule")
	sets := scheduleSets()
	for i, s := range sets {
		for _, q := range []int{noQueueLimit, 0, 1, 2} {
			s := *s
			s.queue = q
			if q < 3 {
				s.cutoff = []float64{0, 5, -5}[q]
			}
			for p := 0; p < 5; p++ {
				if p != (i+q)%5 && !c.Thorough() {
					continue
				}
				s.explore(c, fmt.Sprintf("s%d-q%d", i, q), p, c.Pick(1, 2), float64(c.Pick(2, 12)), o)
			}
		}
	}
	cut := []float64{0, 3, -3, 1e9, -1e9, 0.5}
	queues := []int{noQueueLimit, 0, 1, 2, 3, 5, 8}
	inputSets(c, func(name string, s *search, i int) {
		s.cutoff = cut[i%len(cut)]
		s.queue = queues[(i/2)%len(queues)]
		s.size = []int{10, 1, 2, 0}[(i/3)%4]
		if s.size == 0 {
			s.size = 1
		}
		s.one(c, name, i%5, o)
	})
	wideSets(c, []float64{0, 5, -3, 1e9}, wideFinished)
}

func g03(c *vc.Ctx) {
	o := func(s *search, e *vs.Exec, f *found) string {
		return firstOf(func() string { return s.genuine(f) }, func() string { return s.truthful(f) })
	}
	c.Group("schedules")
	c.Bound("all executions with at most 1 (thorough: 2) deviations from the default schedule")
	sets := scheduleSets()
	for i, s := range sets {
		s := *s
		s.polls, s.pause = 8, 10
		s.size = []int{4, 3, 2, 100}[i%4]
		s.queue = []int{noQueueLimit, noQueueLimit, 1, 2}[i%4]
		s.cutoff = []float64{0, -3, 2}[i%3]
		for p := 0; p < 5; p++ {
			if p != i%5 && p != 4 && !c.Thorough() {
				continue
			}
			s.explore(c, fmt.Sprintf("s%d", i), p, c.Pick(1, 2), float64(c.Pick(3, 40)), o)
		}
	}
	cut := []float64{0, 3, -3, -1e9, 1e9}
	queues := []int{noQueueLimit, noQueueLimit, 1, 3, 5}
	inputSets(c, func(name string, s *search, i int) {
		s.cutoff = cut[i%len(cut)]
		s.queue = queues[(i/2)%len(queues)]
		s.size = []int{10, 1, 2, 3, 5000}[(i/3)%5]
		if i%7 < 3 {
			s.polls, s.pause = 400, 20+i%50
		}
		all := s.cutoff == -1e9 && s.queue == noQueueLimit
		s.one(c, name, i%5, func(s *search, e *vs.Exec, f *found) string {
			if m := o(s, e, f); m != "" {
				return m
			}
			if !all {
				return ""
			}
			_, n, pruned := f.sp.Get()
			if n != len(s.models) {
				return fmt.Sprintf("nothing is pruned with cutoff %g, but %d of %d models were scored", s.cutoff, n, len(s.models))
			}
			// All but the scored models and the empty one are too large. The
			// count may start from one, since it is kept as a logarithm.
			large := float64(int(1)<<uint(s.d.X.C) - 1 - len(s.models))
			if got := math.Exp2(pruned); got < large*(1-1e-9) || got > (large+1)*(1+1e-9) {
				return fmt.Sprintf("%g models have at least %d features, but the progress reports 2^%g = %g pruned models", large, s.d.X.R, pruned, got)
			}
			return ""
		})
	})
	wideSets(c, []float64{0, 3, -5}, wideGenuine)
}

func g04(c *vc.Ctx) {
	o := func(s *search, e *vs.Exec, f *found) string {
		if s.cutoff >= 0 {
			return s.optimal(f, s.cutoff)
		}
		return firstOf(func() string { return s.optimal(f, 0) }, func() string { return s.complete(f, -s.cutoff) })
	}
	c.Group("schedules")
	c.Bound("all executions with at most 1 (thorough: 2) deviations from the default schedule")
	sets := scheduleSets()
	for i, s := range sets {
		for j, cut := range []float64{-4, 2} {
			s := *s
			s.params = true
			s.size = 100
			s.cutoff = cut
			for p := 0; p < 5; p++ {
				if p != (i+j)%5 && !c.Thorough() {
					continue
				}
				s.explore(c, fmt.Sprintf("s%d-c%g", i, cut), p, c.Pick(1, 2), float64(c.Pick(3, 30)), o)
			}
		}
	}
	cut := []float64{-2, 3, -10, 0.5, -0.5, 10, -1e9, -40}
	inputSets(c, func(name string, s *search, i int) {
		s.size = 5000
		s.cutoff = cut[(i/3)%len(cut)]
		s.one(c, name, i%5, o)
	})
	nearTies(c, o)
	exactCutoffs(c, o)
	wideSets(c, []float64{-2, 3, -20, 40}, func(w *wide, d *vc.Data, e *vs.Exec, f *found) string {
		return firstOf(func() string { return wideOptimal(w, d, e, f) }, func() string {
			if w.cutoff < 0 && w.size >= 100 {
				return wideComplete(w, d, e, f)
			}
			return ""
		})
	})
}

// g08 looks at how much a search does
func g08(c *vc.Ctx) {
	kinds := []int{vc.KindRandom, vc.KindSparse, vc.KindCorrelated, vc.KindBias, vc.KindTies}
	count := func(s *search, policy int) int {
		n := -1
		one(c, vs.Config{Policy: policy}, s.scenario(func(s *search, e *vs.Exec, f *found) string {
			_, n, _ = f.sp.Get()
			return ""
		}))
		return n
	}
	c.Group("excluding cutoffs")
	c.Bound("5 kinds of data with 8 to 11 features, 5 policies, 3 root models: a cutoff that excludes everything once a model is listed")
	for _, kind := range kinds {
		for _, sh := range [][2]int{{20, 8}, {30, 10}, {14, 11}} {
			for pol := 0; pol < 5; pol++ {
				for _, root := range []int{-1, 1, 1<<uint(sh[1]) - 1} {
					d := vc.Structured(kind, sh[0], sh[1], 500)
					c.Case(fmt.Sprintf("%s/r%d/%s", d.Name, root, policyNames[pol]), func() {
						s := newSearch(d, root)
						s.params, s.cutoff, s.size = true, 1e9, 10
						c.Input(s.String)
						n := count(s, pol)
						c.Check(n <= 64, "%d of %d models were scored although the cutoff 1e9 excludes every subtree", n, len(s.models))
					})
				}
			}
		}
	}
	c.Group("short queues")
	c.Bound("5 kinds of data with 8 to 10 features, 2 seeds: the models scored under 5 policies with at most 1 and 4 waiting nodes, and without a limit; nothing is excluded by scores")
	for _, kind := range kinds {
		for _, sh := range [][2]int{{20, 8}, {30, 9}, {25, 10}} {
			for seed := uint64(0); seed < uint64(c.Pick(1, 4)); seed++ {
				d := vc.Structured(kind, sh[0], sh[1], 520+seed)
				for _, limit := range []int{1, 4} {
					c.Case(fmt.Sprintf("%s/%d", d.Name, limit), func() {
						limited, all := 0, 0
						c.Input(func() string { return fmt.Sprintf("%v, at most %d waiting nodes", d, limit) })
						for pol := 0; pol < 5; pol++ {
							s := newSearch(d, -1)
							s.params, s.cutoff, s.size = true, -1e9, 10
							all += count(s, pol)
							s.queue = limit
							limited += count(s, pol)
						}
						c.Check(2*limited < all, "%d models were scored with at most %d waiting nodes, %d without a limit", limited, limit, all)
					})
				}
			}
		}
	}
}
