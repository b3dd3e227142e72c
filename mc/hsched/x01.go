//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	fs "github.com/davidkleiven/goselect/featselect"
	vc "github.com/davidkleiven/goselect/verifcommon"
	vs "github.com/davidkleiven/goselect/verifsched"
	"gonum.org/v1/plot"
	"gonum.org/v1/plot/vg"
)

func init() {
	props["X01"] = x01
}

// cliDir is a directory with an input file
type cliDir struct {
	dir, in, out string
	text         []byte
	target       int // as given on the command line
	d            *vc.Data
}

// newCli writes the dataset with its target in a column, counted from the front
// or, if negative, from the end
func newCli(d *vc.Data, target int) *cliDir {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "cli")
	if err != nil {
		panic(err)
	}
	col := target
	if col < 0 {
		col += d.X.C + 1
	}
	l := &cliDir{dir: dir, in: filepath.Join(dir, "in.csv"), out: filepath.Join(dir, "out.json"), target: target, d: d}
	l.text = []byte(csvText(d, col))
	if err := os.WriteFile(l.in, l.text, 0644); err != nil {
		panic(err)
	}
	return l
}

func (l *cliDir) close() { os.RemoveAll(l.dir) }

// untouched: the input is as it was and there are no files but those named
func (l *cliDir) untouched(names ...string) string {
	b, err := os.ReadFile(l.in)
	if err != nil || !bytes.Equal(b, l.text) {
		return "the input file was modified"
	}
	names = append(names, "in.csv")
	es, _ := os.ReadDir(l.dir)
	for _, e := range es {
		ok := false
		for _, n := range names {
			ok = ok || e.Name() == n
		}
		if !ok {
			return "there is an unexpected file " + e.Name()
		}
	}
	return ""
}

func readJSON(fn string, v any) string {
	b, err := os.ReadFile(fn)
	if err != nil {
		return "no result: " + filepath.Base(fn) + " is missing"
	}
	if err := json.Unmarshal(b, v); err != nil {
		return fmt.Sprintf("%s is not valid: %v", filepath.Base(fn), err)
	}
	return ""
}

// ---------------------------------------------------------------------- bnb

type bnbRun struct {
	s      *search
	target int
	looks  int
	queue  int // 0: the default
}

func (b *bnbRun) String() string {
	return fmt.Sprintf("bnb --target=%d --maxqueue=%d, %v", b.target, b.queue, b.s)
}

// listOf checks a highscore file
func (b *bnbRun) listOf(fn string) (*found, string) {
	f := &found{h: fs.NewHighscore(1)}
	if m := readJSON(fn, f.h); m != "" {
		return nil, m
	}
	if m := b.s.genuine(f); m != "" {
		return nil, m
	}
	if f.h.MaxItems != 10 {
		return nil, fmt.Sprintf("a list of size %d", f.h.MaxItems)
	}
	return f, ""
}

func (b *bnbRun) verdict(fn string) string {
	f, m := b.listOf(fn)
	if m != "" {
		return m
	}
	if b.queue > 0 && b.queue < 1<<uint(b.s.d.X.C) {
		if len(nodes(f.h)) == 0 {
			return "no model"
		}
		return "" // subtrees may be removed
	}
	if m := b.s.optimal(f, math.Max(b.s.cutoff, 0)); m != "" {
		return m
	}
	if b.s.cutoff < 0 && len(nodes(f.h)) < 9 {
		return b.s.complete(f, -b.s.cutoff)
	}
	return ""
}

func (b *bnbRun) args(l *cliDir) []string {
	q := b.queue
	if q == 0 {
		q = 10000000 // flags keep their value between executions
	}
	return []string{"bnb", "--csv", l.in, "--target=" + strconv.Itoa(b.target), "--out", l.out, "--cutoff=" + strconv.FormatFloat(b.s.cutoff, 'g', -1, 64), "--maxqueue=" + strconv.Itoa(q)}
}

func (b *bnbRun) scenario(l *cliDir) vs.Scenario {
	return func() (func(), func(*vs.Exec) string) {
		os.Remove(l.out)
		seen := ""
		done := false
		saves := 0
		vs.ResetFiles()
		vs.FileFail = 0
		vs.FileHook = func(op, name string) {
			if op == "opened" {
				saves++
			}
		}
		return func() {
				if b.looks > 0 {
					vs.Go("observer", nil, func() {
						best := math.Inf(-1)
						for i := 0; i < b.looks && seen == ""; i++ {
							if _, err := os.Stat(l.out); err == nil {
								f, m := b.listOf(l.out)
								if m == "" && len(nodes(f.h)) > 0 {
									if v := f.h.BestScore(); v < best {
										m = fmt.Sprintf("the best score went from %g to %g", best, v)
									} else {
										best = v
									}
								}
								if m != "" {
									seen = "a highscore file written during the search: " + m
								}
							}
							if i%3 == 2 {
								vs.Pause(150)
							} else {
								vs.Yield()
							}
						}
					})
				}
				execute(b.args(l)...)
				done = true
			}, func(e *vs.Exec) string {
				vs.FileHook = nil
				if m := finished(e); m != "" {
					return m
				}
				if m := noLeak(e); m != "" {
					return m
				}
				if !done {
					return "the command did not return"
				}
				if saves < e.Ticks+1 {
					return fmt.Sprintf("the list was saved %d times, but %d times it was time to save it, and at the end", saves, e.Ticks)
				}
				if seen != "" {
					return seen
				}
				if m := l.untouched("out.json"); m != "" {
					return m
				}
				return b.verdict(l.out)
			}
	}
}

// ----------------------------------------------------------------- sasearch

func saList(fn string, d *vc.Data) string {
	var sc fs.SAScore
	if m := readJSON(fn, &sc); m != "" {
		return m
	}
	a := &anneal{d: d, cost: 1}
	if len(sc.Items) == 0 {
		return "no items"
	}
	seen := map[string]bool{}
	top := math.Inf(-1)
	for i, it := range sc.Items {
		if m := a.genuine(it.Selection, it.Coeff); m != "" {
			return fmt.Sprintf("item %d, selection %v, coefficients %v: %s", i, it.Selection, it.Coeff, m)
		}
		k := fmt.Sprint(it.Selection)
		if seen[k] {
			return fmt.Sprintf("selection %v is listed twice", it.Selection)
		}
		seen[k] = true
		if r := -a.ref(it.Selection); !(math.Abs(it.Score-r) <= 1e-6*(1+math.Abs(r))) {
			return fmt.Sprintf("item %d, selection %v, has score %.9g instead of %.9g", i, it.Selection, it.Score, r)
		}
		top = math.Max(top, it.Score)
	}
	if sc.BestItem == nil || sc.BestItem.Score != top {
		return fmt.Sprintf("the best item is %+v, the highest score %g", sc.BestItem, top)
	}
	return ""
}

// -------------------------------------------------------------------- lasso

type lassoRun struct {
	d        *vc.Data
	n        *vc.Normal
	target   int
	typ, cov string
	min, max float64
	num      int
}

func (r *lassoRun) String() string {
	return fmt.Sprintf("lasso --type %s --cov %s --lmin %g --lmax %g --num %d --target=%d, %v", r.typ, r.cov, r.min, r.max, r.num, r.target, r.d)
}

func (r *lassoRun) args(l *cliDir) []string {
	g := func(v float64) string { return strconv.FormatFloat(v, 'g', -1, 64) }
	return []string{"lasso", "--csv", l.in, "--target=" + strconv.Itoa(r.target), "--out", l.out, "--lmin=" + g(r.min), "--lmax=" + g(r.max),
		"--num=" + strconv.Itoa(r.num), "--type", r.typ, "--cov", r.cov, "--tol=1e-11"}
}

// betaOf turns a node in the units of the file into normalised coefficients
func betaOf(n *vc.Normal, d *vc.Data, node *fs.LassoLarsNode) ([]float64, string) {
	p := d.X.C
	beta := make([]float64, p)
	seen := make([]bool, p)
	if len(node.Selection) != len(node.Coeff) {
		return nil, fmt.Sprintf("selection %v with coefficients %v", node.Selection, node.Coeff)
	}
	mean := 0.0
	for k, j := range node.Selection {
		if j < 0 || j >= p || seen[j] {
			return nil, fmt.Sprintf("selection %v", node.Selection)
		}
		seen[j] = true
		mean += node.Coeff[k] * n.Mu[j]
		if n.Bias && j == 0 {
			continue
		}
		beta[j] = node.Coeff[k] * n.Std[j] / n.SdY
	}
	if n.Bias && n.Mu[0] != 0 && !vc.Close(mean, n.MuY, 1e-8) {
		return nil, fmt.Sprintf("the mean prediction is %.9g, the mean of the target %.9g", mean, n.MuY)
	}
	return beta, ""
}

func (r *lassoRun) verdict(fn string) string {
	var path fs.LassoLarsPath
	if m := readJSON(fn, &path); m != "" {
		return m
	}
	if path.Dset == nil || path.Dset.X == nil {
		return "no dataset"
	}
	if m := vc.FromDense(path.Dset.X); m.R != r.d.X.R || m.C != r.d.X.C || !vc.SameBits(m.D, r.d.X.D) || !vc.SameBits(path.Dset.Y, r.d.Y) {
		return fmt.Sprintf("the dataset is %v %v", m, path.Dset.Y)
	}
	for j := 0; j < r.d.X.C; j++ {
		if nm := path.Dset.GetFeatName(j); nm != fmt.Sprintf("f%d", j) {
			return fmt.Sprintf("feature %d is called %q", j, nm)
		}
	}
	cov, xty := r.n.Gram(), r.n.Xty()
	if r.cov == "identity" {
		cov = vc.EyeMat(r.d.X.C)
	}
	kkt := func(cov *vc.Mat) string {
		for i, node := range path.LassoLarsNodes {
			beta, m := betaOf(r.n, r.d, node)
			lamb := node.Lamb
			if r.typ == "lars" {
				// the regularisations of LARS are sums over the data points, and a
				// feature has the coefficient zero where it joins
				lamb /= float64(r.d.X.R)
				for j := range beta {
					if math.Abs(beta[j]) < 1e-6 {
						beta[j] = 0
					}
				}
			}
			if m == "" {
				m = vc.KKT(cov, xty, lamb, 0, beta, r.n.Bias, 1e-6)
			}
			if m != "" {
				return fmt.Sprintf("node %d (regularisation %g, selection %v, coefficients %v): %s", i, node.Lamb, node.Selection, node.Coeff, m)
			}
		}
		return ""
	}
	if r.cov == "threshold" && r.typ == "cd" {
		m := ""
		for j := 0; j < 9; j++ {
			t := vc.NewMat(cov.R, cov.C)
			for i, v := range cov.D {
				if math.Abs(v) >= math.Exp(-10+float64(j)) {
					t.D[i] = v
				}
			}
			if m = kkt(t); m == "" {
				break
			}
		}
		if m != "" {
			return "no threshold explains the path: " + m
		}
	} else if m := kkt(cov); m != "" {
		return m
	}
	// regularisations
	if len(path.LassoLarsNodes) == 0 {
		return "an empty path"
	}
	if r.typ == "cd" {
		k := len(path.LassoLarsNodes)
		if k > r.num {
			return fmt.Sprintf("%d nodes", k)
		}
		for i, node := range path.LassoLarsNodes {
			e := r.num - k + i
			want := r.min
			if r.num > 1 {
				want = r.max * math.Pow(r.min/r.max, float64(e)/float64(r.num-1))
			}
			if !vc.Close(node.Lamb, want, 1e-9) {
				return fmt.Sprintf("node %d has regularisation %g instead of %g", i, node.Lamb, want)
			}
		}
	} else {
		top := 0.0
		for j, v := range xty {
			if !(r.n.Bias && j == 0) {
				top = math.Max(top, math.Abs(v)*float64(r.d.X.R))
			}
		}
		ns := path.LassoLarsNodes
		if !vc.Close(ns[0].Lamb, top, 1e-8) {
			return fmt.Sprintf("the path starts at %g, the largest correlation is %g", ns[0].Lamb, top)
		}
		for i := 1; i < len(ns); i++ {
			if ns[i].Lamb > ns[i-1].Lamb {
				return "the regularisations do not descend"
			}
		}
		if l := ns[len(ns)-1].Lamb; l < r.min*(1-1e-9) {
			return fmt.Sprintf("the path ends at %g", l)
		}
	}
	// criteria
	if len(path.Aicc) != len(path.LassoLarsNodes) || len(path.Bic) != len(path.LassoLarsNodes) {
		return fmt.Sprintf("%d nodes, %d AICc and %d BIC values", len(path.LassoLarsNodes), len(path.Aicc), len(path.Bic))
	}
	for i, node := range path.LassoLarsNodes {
		rss := 0.0
		for t := 0; t < r.d.X.R; t++ {
			e := r.d.Y[t]
			for k, j := range node.Selection {
				e -= node.Coeff[k] * r.d.X.At(t, j)
			}
			rss += e * e
		}
		k := len(node.Selection)
		if a := vc.RefAicc(k, r.d.X.R, rss); !vc.Close(a, path.Aicc[i], 1e-6) {
			return fmt.Sprintf("node %d has AICc %.9g instead of %.9g", i, path.Aicc[i], a)
		}
		if a := vc.RefBic(k, r.d.X.R, rss); !vc.Close(a, path.Bic[i], 1e-6) {
			return fmt.Sprintf("node %d has BIC %.9g instead of %.9g", i, path.Bic[i], a)
		}
	}
	return ""
}

// run is the scenario of a command and a check of its files
func cliScenario(l *cliDir, args []string, leak bool, verdict func() string) vs.Scenario {
	return func() (func(), func(*vs.Exec) string) {
		os.Remove(l.out)
		done := false
		return func() { execute(args...); done = true }, func(e *vs.Exec) string {
			if m := finished(e); m != "" {
				return m
			}
			if !done {
				return "the command did not return"
			}
			if m := noLeak(e); m != "" && leak {
				return m
			}
			if m := l.untouched("out.json"); m != "" {
				return m
			}
			return verdict()
		}
	}
}

// tool runs one of the binaries in the directory
func (l *cliDir) tool(name string, args ...string) string {
	_, m := l.toolOut(name, args...)
	return m
}

func (l *cliDir) toolOut(name string, args ...string) (string, string) {
	c := exec.Command(filepath.Join(os.Getenv("VERIF_TOOLS"), name), args...)
	c.Dir = l.dir
	b, err := c.CombinedOutput()
	if err != nil {
		if len(b) > 600 {
			b = b[len(b)-600:]
		}
		return "", fmt.Sprintf("%s %v: %v: %s", name, args, err, b)
	}
	return string(b), ""
}

// tableOf checks the printed ranking of the nodes in a file
func tableOf(out, fn string) string {
	var path fs.LassoLarsPath
	if m := readJSON(fn, &path); m != "" {
		return m
	}
	var rows [][]float64
	for _, l := range strings.Split(out, "\n") {
		var r []float64
		for _, f := range strings.Split(strings.Trim(l, "| "), "|") {
			v, err := strconv.ParseFloat(strings.TrimSpace(f), 64)
			if err != nil {
				r = nil
				break
			}
			r = append(r, v)
		}
		if len(r) == 5 {
			rows = append(rows, r)
		}
	}
	if len(rows) == 0 {
		return "no ranking is printed"
	}
	sorted := vc.Clone(path.Aicc)
	sort.Float64s(sorted)
	for i, r := range rows {
		if i >= len(sorted) || !vc.Close(r[3], sorted[i], 1e-4) {
			return fmt.Sprintf("row %d of the printed ranking has AICc %g, the values of the path are %v", i+1, r[3], path.Aicc)
		}
		ok := false
		for k, n := range path.LassoLarsNodes {
			ok = ok || vc.Close(r[3], path.Aicc[k], 1e-4) && vc.Close(r[4], path.Bic[k], 1e-4) && math.Abs(r[1]-n.Lamb) <= 0.01*math.Abs(n.Lamb) && int(r[2]) == len(n.Selection)
		}
		if !ok {
			return fmt.Sprintf("row %d (%v) of the printed ranking is not a node of the path", i+1, r)
		}
	}
	return ""
}

func x01(c *vc.Ctx) {
	big := vs.Config{MaxSteps: 3000000, MaxDraws: 3000000}
	with := func(f func(cfg *vs.Config)) vs.Config {
		cfg := big
		f(&cfg)
		return cfg
	}
	targets := func(d *vc.Data) []int { return []int{-1, 0, d.X.C / 2, -2, -d.X.C - 1} }

	c.Group("bnb inputs")
	c.Bound("every kind of data with 3 to 5 features, targets in any column, cutoffs 0, positive and negative, limits of the queue from 2 to 10000000 (everything is found if all models fit into the queue); one execution each with two saves during the search")
	i := 0
	for kind := 0; kind < vc.NumKinds; kind++ {
		for _, sh := range [][2]int{{5, 3}, {9, 4}, {12, 5}, {3, 4}, {2, 3}, {70, 4}} {
			for seed := uint64(0); seed < uint64(c.Pick(1, 8)); seed++ {
				d := vc.Structured(kind, sh[0], sh[1], seed+900)
				for _, t := range targets(d) {
					i++
					if !c.Thorough() && i%3 != 0 {
						continue
					}
					pol := i % 5
					cut := []float64{0, 0, 0.7, -1.5, -500}[i/3%5]
					c.Case(fmt.Sprintf("%s-t%d-c%g/%s", d.Name, t, cut, policyNames[pol]), func() {
						s := newSearch(d, -1)
						s.cutoff = cut
						b := &bnbRun{s: s, target: t, looks: 24, queue: []int{0, 1 << uint(sh[1]), 100, 999999, 2}[(i+i/15)%5]}
						c.Input(b.String)
						l := newCli(d, t)
						defer l.close()
						one(c, with(func(g *vs.Config) { g.Policy = pol; g.RandSeed = seed + 1 }), b.scenario(l))
					})
				}
			}
		}
	}

	c.Group("bnb with almost equal models")
	c.Bound("3 to 5 features, two of them almost equal (by 1e-3 to 3e-6), 4 sequences of random numbers, cutoff 0")
	for seed := uint64(0); seed < uint64(c.Pick(4, 24)); seed++ {
		for _, sh := range [][2]int{{8, 3}, {20, 4}, {15, 5}} {
			for _, eps := range []float64{1e-3, 1e-4, 2e-5, 3e-6} {
				d := vc.NearTie(sh[0], sh[1], eps, seed)
				for k := uint64(0); k < 4; k++ {
					c.Case(fmt.Sprintf("%s-%d", d.Name, k), func() {
						b := &bnbRun{s: newSearch(d, -1), target: -1, queue: []int{0, 1 << 20}[k%2]}
						c.Input(b.String)
						l := newCli(d, -1)
						defer l.close()
						one(c, with(func(g *vs.Config) { g.Policy = int(k); g.RandSeed = 11*seed + k + 1 }), b.scenario(l))
					})
				}
			}
		}
	}

	c.Group("bnb schedules")
	c.Bound("all executions with one deviation, ticks of the clock included (thorough: two)")
	for k, d := range []*vc.Data{vc.Structured(vc.KindSparse, 6, 3, 3), vc.Structured(vc.KindTies, 5, 3, 2), vc.Structured(vc.KindCorrelated, 8, 4, 2)} {
		for j := 0; j < 2; j++ {
			pol := []int{2, 4, 1, 0, 3}[(2*k+j)%5]
			b := &bnbRun{s: newSearch(d, -1), target: []int{-1, 0}[j], looks: 4}
			l := newCli(d, b.target)
			explore(c, d.Name+"/"+policyNames[pol], b.String, with(func(g *vs.Config) { g.Policy = pol; g.EnvTicks = true; g.RandSeed = 3 }), c.Pick(1, 2), float64(c.Pick(3, 50)), b.scenario(l))
			l.close()
		}
	}

	c.Group("sasearch")
	c.Bound("every kind of data with 1 to 5 features, targets in any column, 1 to 4 sweeps")
	for kind := 0; kind < vc.NumKinds; kind++ {
		for _, sh := range [][2]int{{5, 3}, {9, 4}, {12, 5}, {4, 1}, {3, 4}, {70, 3}} {
			d := vc.Structured(kind, sh[0], sh[1], uint64(kind)+700)
			for _, t := range targets(d) {
				i++
				if !c.Thorough() && i%2 != 0 {
					continue
				}
				c.Case(fmt.Sprintf("%s-t%d", d.Name, t), func() {
					sweeps := 1 + i%4
					c.Input(func() string { return fmt.Sprintf("sasearch --sweeps=%d --target=%d, %v", sweeps, t, d) })
					l := newCli(d, t)
					defer l.close()
					one(c, with(func(g *vs.Config) { g.RandSeed = uint64(i) }), cliScenario(l, []string{"sasearch", "--csv", l.in, "--target=" + strconv.Itoa(t), "--out", l.out, "--sweeps=" + strconv.Itoa(sweeps)}, true,
						func() string { return saList(l.out, d) }))
				})
			}
		}
	}

	c.Group("long paths")
	c.Bound("100 to 300 regularisations, LARS and coordinate descent")
	for i, num := range []int{64, 100, 130, 257, 300} {
		for _, typ := range []string{"lars", "cd"} {
			d := vc.Structured(vc.KindSparse, 12, 4, uint64(i)+420)
			n := vc.Normalise(d.X, d.Y)
			if !n.OK {
				continue
			}
			r := &lassoRun{d: d, n: n, target: -1, typ: typ, cov: "empirical", min: 1e-3, max: 1, num: num}
			c.Case(fmt.Sprintf("%s-%d", typ, num), func() {
				c.Input(r.String)
				l := newCli(d, -1)
				defer l.close()
				one(c, with(func(g *vs.Config) {}), cliScenario(l, r.args(l), true, func() string { return r.verdict(l.out) }))
			})
		}
	}

	c.Group("lasso inputs")
	c.Bound("every kind of data that can be normalised with 2 to 6 features, targets in any column, LARS and coordinate descent with each covariance")
	larsOK := func(kind int) bool {
		return kind == vc.KindRandom || kind == vc.KindSparse || kind == vc.KindBias || kind == vc.KindScaled || kind == vc.KindBig || kind == vc.KindCorrelated
	}
	run := func(d *vc.Data, n *vc.Normal, typ, cov string, t, k int) *lassoRun {
		r := &lassoRun{d: d, n: n, target: t, typ: typ, cov: cov, min: []float64{1e-3, 1e-2, 0.1}[k%3], max: []float64{1, 0.7, 1.5}[k/2%3], num: []int{1, 2, 5, 12}[k%4]}
		return r
	}
	for kind := 0; kind < vc.NumKinds; kind++ {
		for _, sh := range [][2]int{{8, 2}, {9, 4}, {14, 6}, {70, 9}} {
			for seed := uint64(0); seed < uint64(c.Pick(1, 8)); seed++ {
				d := vc.Structured(kind, sh[0], sh[1], seed+300)
				n := vc.Normalise(d.X, d.Y)
				if !n.OK {
					continue
				}
				for _, t := range targets(d) {
					for _, tc := range [][2]string{{"lars", "empirical"}, {"cd", "empirical"}, {"cd", "identity"}, {"cd", "threshold"}} {
						if tc[0] == "lars" && !larsOK(kind) {
							continue
						}
						i++
						if !c.Thorough() && i%3 != 0 || tc[1] == "threshold" && i%4 != 0 {
							continue
						}
						k := i
						pol := i % 5
						r := run(d, n, tc[0], tc[1], t, k)
						if r.cov == "threshold" {
							// keeps the thresholded problem convex
							if kind == vc.KindCorrelated || kind == vc.KindDuplicate {
								continue
							}
						}
						c.Case(fmt.Sprintf("%s-t%d-%s-%s-%d/%s", d.Name, t, tc[0], tc[1], k%12, policyNames[pol]), func() {
							c.Input(r.String)
							l := newCli(d, t)
							defer l.close()
							one(c, with(func(g *vs.Config) { g.Policy = pol; g.RandSeed = uint64(k) }), cliScenario(l, r.args(l), r.cov != "threshold", func() string { return r.verdict(l.out) }))
						})
					}
				}
			}
		}
	}

	c.Group("lasso schedules")
	c.Bound("all executions with one deviation (thorough: two)")
	for k, d := range []*vc.Data{vc.Structured(vc.KindBias, 6, 3, 4), vc.Structured(vc.KindSparse, 8, 3, 6)} {
		n := vc.Normalise(d.X, d.Y)
		for _, num := range []int{2, 5, 11} {
			for _, cov := range []string{"empirical", "identity"} {
				r := run(d, n, "cd", cov, -1, k)
				r.num = num
				l := newCli(d, -1)
				pol := (num + k) % 5
				explore(c, fmt.Sprintf("%s-%d-%s/%s", d.Name, num, cov, policyNames[pol]), r.String, with(func(g *vs.Config) { g.Policy = pol }), c.Pick(1, 2), float64(c.Pick(2, 20)), cliScenario(l, r.args(l), true, func() string { return r.verdict(l.out) }))
				l.close()
			}
		}
	}

	c.Group("unusable options")
	c.Bound("unknown algorithms and covariances, missing tables: an earlier result stays, no other file appears")
	{
		d := vc.Structured(vc.KindBias, 9, 4, 5)
		var runs [][]string
		for _, t := range []string{"", "LARS", "Cd", "lar", "larscd", "cd "} {
			runs = append(runs, []string{"lasso", "--csv", "in.csv", "--out", "out.json", "--type=" + t})
		}
		for _, v := range []string{"", "Empirical", "id", "thresholds"} {
			runs = append(runs, []string{"lasso", "--csv", "in.csv", "--out", "out.json", "--type=cd", "--cov=" + v})
		}
		runs = append(runs, []string{"lasso", "--out", "out.json"})
		for _, t := range []string{"lasso", "bnb", "sasearch"} {
			runs = append(runs, []string{t, "--csv", "none.csv", "--out", "out.json"}, []string{t, "--unknown", "--csv", "in.csv", "--out", "out.json"})
		}
		for _, r := range runs {
			for _, earlier := range []string{"", "{\"earlier\": 1}"} {
				c.Case(fmt.Sprintf("%v-%d", r, len(earlier)), func() {
					c.Input(func() string { return fmt.Sprintf("goselect %q, earlier result %q", r, earlier) })
					l := newCli(d, -1)
					defer l.close()
					if earlier != "" {
						if err := os.WriteFile(l.out, []byte(earlier), 0644); err != nil {
							panic(err)
						}
					}
					l.tool("goselect", r...)
					c.Exec(1)
					c.State(1)
					c.Step(1)
					if earlier == "" {
						m := l.untouched()
						c.Check(m == "", "%s", m)
					} else {
						m := l.untouched("out.json")
						c.Check(m == "", "%s", m)
						b, _ := os.ReadFile(l.out)
						c.Check(string(b) == earlier, "the earlier result was replaced by %.200q", b)
					}
				})
			}
		}
	}

	c.Group("programs")
	c.Bound("the built programs with their default options, one run for each input")
	for kind := 0; kind < vc.NumKinds; kind++ {
		if !larsOK(kind) {
			continue
		}
		for _, sh := range [][2]int{{9, 4}, {14, 6}} {
			for seed := uint64(0); seed < uint64(c.Pick(1, 6)); seed++ {
				d := vc.Structured(kind, sh[0], sh[1], seed+400)
				n := vc.Normalise(d.X, d.Y)
				if !n.OK {
					continue
				}
				programs(c, d, n)
			}
		}
	}
	for seed := uint64(0); seed < uint64(c.Pick(2, 8)); seed++ {
		for _, keep := range []float64{0.7, 0.8, 0.9, 0.3, 1} {
			nested(c, vc.Structured(vc.KindRandom, 24, 10, seed+430), keep)
		}
	}
}

func programs(c *vc.Ctx, d *vc.Data, n *vc.Normal) {
	c.Case(d.Name+"/bnb", func() {
		b := &bnbRun{s: newSearch(d, -1), target: -1}
		c.Input(b.String)
		l := newCli(d, -1)
		defer l.close()
		c.Exec(1)
		m := l.tool("goselect", "bnb", "--csv", "in.csv")
		if m == "" {
			m = l.untouched("bnbSearch.json")
		}
		if m == "" {
			m = b.verdict(filepath.Join(l.dir, "bnbSearch.json"))
		}
		c.Check(m == "", "%s", m)
	})
	c.Case(d.Name+"/sasearch", func() {
		c.Input(d.String)
		l := newCli(d, -1)
		defer l.close()
		c.Exec(1)
		m := l.tool("goselect", "sasearch", "--csv", "in.csv")
		if m == "" {
			m = l.untouched("saSearch.json")
		}
		if m == "" {
			m = saList(filepath.Join(l.dir, "saSearch.json"), d)
		}
		c.Check(m == "", "%s", m)
	})
	c.Case(d.Name+"/lasso", func() {
		r := &lassoRun{d: d, n: n, target: -1, typ: "lars", cov: "empirical", min: 1e-10, max: 1, num: 50}
		c.Input(r.String)
		l := newCli(d, -1)
		defer l.close()
		c.Exec(2)
		text, m := l.toolOut("goselect", "lasso", "--csv", "in.csv")
		out := filepath.Join(l.dir, "lasso.json")
		if m == "" {
			m = l.untouched("lasso.json")
		}
		if m == "" {
			m = r.verdict(out)
		}
		if m == "" {
			m = tableOf(text, out)
		}
		c.Check(m == "", "%s", m)
		if m != "" {
			return
		}
		before, _ := os.ReadFile(out)
		m = l.tool("goselect-plotlasso", "--json", "lasso.json", "--ext", "svg")
		files := []string{"lassofig_entrance.svg", "lassofig_quality.svg", "lassofig_dev.svg", "lassofig_path.svg"}
		if m == "" {
			m = l.untouched(append(files, "lasso.json")...)
		}
		for _, f := range files {
			b, err := os.ReadFile(filepath.Join(l.dir, f))
			if m == "" && (err != nil || !bytes.Contains(b, []byte("</svg>"))) {
				m = f + " is missing or incomplete"
			}
		}
		if after, _ := os.ReadFile(out); m == "" && !bytes.Equal(before, after) {
			m = "the path was modified"
		}
		c.Check(m == "", "%s", m)
		if m == "" {
			m = plotsOf(c, l)
			c.Check(m == "", "%s", m)
		}
	})
	nested(c, d, 0.7)
	c.Case(d.Name+"/cohenlasso", func() {
		c.Input(d.String)
		l := newCli(d, -1)
		defer l.close()
		c.Exec(1)
		num := 2 + d.X.C%5
		text, m := l.toolOut("goselect-cohenlasso", "--csvfile", "in.csv", "--numSamp=2", "--numLamb="+strconv.Itoa(num), "--lambMin=0.05", "--lambMax=0.8")
		if m == "" {
			m = kappasOf(text, 0.05, 0.8, num)
		}
		if m == "" {
			b, err := os.ReadFile(l.in)
			if err != nil || !bytes.Equal(b, l.text) {
				m = "the input file was modified"
			}
		}
		c.Check(m == "", "%s", m)
	})
	for _, gb := range []int{1, 3, 16, 1000} {
		c.Case(fmt.Sprintf("%s/mem-%d", d.Name, gb), func() {
			l := newCli(d, -1)
			defer l.close()
			c.Exec(1)
			text, m := l.toolOut("goselect-mem", "--mem="+strconv.Itoa(gb), "--nfeat="+strconv.Itoa(d.X.C))
			c.Check(m == "", "%s", m)
			model := make([]bool, d.X.C)
			for j := range model {
				model[j] = true
			}
			want := gb * 1000000000 / fs.NewNode(0, model).EstimateMemory()
			c.Check(strings.Contains(text, strconv.Itoa(want)), "%q is printed instead of a length of %d", text, want)
		})
	}
}

// nested runs the program for the nested lasso
func nested(c *vc.Ctx, d *vc.Data, keep float64) {
	c.Case(fmt.Sprintf("%s/nestedlasso-%g", d.Name, keep), func() {
		c.Input(d.String)
		l := newCli(d, 0)
		defer l.close()
		c.Exec(1)
		m := l.tool("goselect-nestedlasso", "--csvfile", "in.csv", "--target=0", fmt.Sprintf("--keep=%g", keep))
		var got fs.NestedLassoLars
		if m == "" {
			m = l.untouched("nesteLasso.json")
		}
		if m == "" {
			m = readJSON(filepath.Join(l.dir, "nesteLasso.json"), &got)
		}
		c.Check(m == "", "%s", m)
		if m != "" {
			return
		}
		want := fs.NestedLasso(fs.ReadCSV(l.in, 0), 1e-10, keep, &fs.MorsePenroseCD{})
		a, _ := json.Marshal(got)
		b, _ := json.Marshal(want)
		c.Check(bytes.Equal(a, b), "the program gives %s, the library %s", a, b)
	})
}

// kappasOf checks what cohenlasso prints: each regularisation once while it runs and
// once in the summary, with the same kappa and in ascending order of it
func kappasOf(text string, min, max float64, num int) string {
	type line struct{ lamb, kappa float64 }
	var lines []line
	for _, m := range cohenLine.FindAllStringSubmatch(text, -1) {
		a, e1 := strconv.ParseFloat(m[1], 64)
		b, e2 := strconv.ParseFloat(m[2], 64)
		if e1 != nil || e2 != nil || !(b <= 1) || b < -1 {
			return fmt.Sprintf("%q is printed", m[0])
		}
		lines = append(lines, line{a, b})
	}
	if len(lines) != 2*num {
		return fmt.Sprintf("%d lines with kappas for %d regularisations: %q", len(lines), num, text)
	}
	for half := 0; half < 2; half++ {
		part := append([]line{}, lines[half*num:(half+1)*num]...)
		for i := range part {
			if half == 1 && i > 0 && part[i].kappa < part[i-1].kappa {
				return fmt.Sprintf("the summary is not in ascending order: %v", part)
			}
		}
		sort.Slice(part, func(i, j int) bool { return part[i].lamb < part[j].lamb })
		for i, l := range part {
			want := min * math.Pow(max/min, float64(i)/float64(num-1))
			if !vc.Close(l.lamb, want, 1e-3) {
				return fmt.Sprintf("the regularisations are %v, number %d should be %g", part, i, want)
			}
			found := false
			for _, o := range lines[:num] {
				found = found || o == l
			}
			if !found {
				return fmt.Sprintf("%v of the summary is not one of %v", l, lines[:num])
			}
		}
	}
	return ""
}

var cohenLine = regexp.MustCompile(`Lambda: +([-+.e0-9]+) +[kK]appa: +([-+.e0-9NaIf]+)`)

// plotsOf runs plotlasso with the options for the range of the coefficients and compares
// its figures with those of the library
func plotsOf(c *vc.Ctx, l *cliDir) string {
	path := fs.LassoLarsPathFromJSON(filepath.Join(l.dir, "lasso.json"))
	w := 4 * vg.Inch
	for _, r := range [][2]float64{{0, 0}, {-1, 2}, {0.1, 0.4}, {-0.25, 0}} {
		c.Exec(1)
		var rng *fs.AxisRange
		if r[0] != r[1] {
			rng = &fs.AxisRange{Min: r[0], Max: r[1]}
		}
		if m := l.tool("goselect-plotlasso", "--json", "lasso.json", "--ext", "svg", "--prefix=p", fmt.Sprintf("--coeffmin=%g", r[0]), fmt.Sprintf("--coeffmax=%g", r[1])); m != "" {
			return m
		}
		for name, p := range map[string]*plot.Plot{"entrance": path.PlotEntranceTimes(), "quality": path.PlotQualityScores(), "dev": path.PlotDeviations(), "path": path.PlotPath(rng)} {
			want := filepath.Join(l.dir, "want.svg")
			if err := p.Save(w, w, want); err != nil {
				return err.Error()
			}
			a, _ := os.ReadFile(want)
			b, err := os.ReadFile(filepath.Join(l.dir, "p_"+name+".svg"))
			if err != nil {
				return err.Error()
			}
			if !bytes.Equal(a, b) {
				return fmt.Sprintf("p_%s.svg is not the figure of the library for coefficients from %g to %g", name, r[0], r[1])
			}
			os.Remove(want)
			os.Remove(filepath.Join(l.dir, "p_"+name+".svg"))
		}
	}
	return l.untouched("lasso.json", "lassofig_entrance.svg", "lassofig_quality.svg", "lassofig_dev.svg", "lassofig_path.svg")
}
