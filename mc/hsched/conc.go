//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	fs "github.com/davidkleiven/goselect/featselect"
	vc "github.com/davidkleiven/goselect/verifcommon"
	vs "github.com/davidkleiven/goselect/verifsched"
)

func init() {
	props["C01"] = c01
	props["C02"] = c02
}

// racy runs bodies and leaves the judgement to the race detector
func racy(mk func() func()) vs.Scenario {
	return func() (func(), func(*vs.Exec) string) {
		return mk(), func(e *vs.Exec) string {
			if e.Outcome == "diverged" {
				return ""
			}
			return finished(e)
		}
	}
}

// readAll looks at a list and a progress a few times
func readAll(h *fs.Highscore, sp *fs.SearchProgress, times int) {
	for i := 0; i < times; i++ {
		h.Len()
		vs.Yield()
		h.BestScore()
		sp.Get()
		vs.Yield()
		h.Scores()
		if b, err := json.Marshal(h); err != nil || len(b) == 0 {
			panic(fmt.Sprint("no JSON: ", err))
		}
		vs.Pause(30)
	}
}

func c01(c *vc.Ctx) {
	if !vs.RaceMode {
		fmt.Fprintln(os.Stderr, "C01 needs the race detector")
		os.Exit(2)
	}
	sec := []float64{3, 40}[c.Pick(0, 1)]
	var later []func()
	k := 0
	both := func(name string, input func() string, bound int, mk func() func()) {
		for pol := 0; pol < 5; pol++ {
			c.Case(name+"/"+policyNames[pol]+"/once", func() {
				c.Input(input)
				raceOne(c, vs.Config{Policy: pol}, racy(mk))
			})
		}
		k++
		for i, pol := range []int{2, 4} {
			if i != k%2 && !c.Thorough() {
				continue
			}
			g, b := c.GroupName(), c.Cur().Bound
			later = append(later, func() {
				c.Group(g)
				c.Bound("%s", b)
				explore(c, name+"/"+policyNames[pol], input, vs.Config{Policy: pol, EnvTicks: true}, bound, sec, racy(mk))
			})
		}
	}

	c.Group("searches")
	c.Bound("searches with 1 or 2 readers, and two searches of the same data with the same parameters; five policies, then all executions with 1 deviation (thorough: 2)")
	for i, d := range []*vc.Data{vc.Structured(vc.KindSparse, 6, 3, 3), vc.Structured(vc.KindTies, 4, 3, 2), vc.Structured(vc.KindCorrelated, 7, 3, 2)} {
		s := newSearch(d, []int{-1, 5, -1}[i])
		s.size = 4
		for readers := 1; readers <= 2; readers++ {
			both(fmt.Sprintf("%s-%d-readers", d.Name, readers), s.String, c.Pick(1, 2), func() func() {
				run, f := s.run()
				return func() {
					for r := 0; r < readers; r++ {
						vs.Go("reader", nil, func() { readAll(f.h, f.sp, 3) })
					}
					run()
				}
			})
		}
		both(d.Name+"-twice", s.String, 1, func() func() {
			x, y := d.X.Dense(), vc.Clone(d.Y)
			p := fs.NewSelectModelOptParams()
			return func() {
				h1, h2 := fs.NewHighscore(4), fs.NewHighscore(4)
				vs.Go("other search", nil, func() { fs.SelectModel(x, y, h2, &fs.SearchProgress{}, p) })
				fs.SelectModel(x, y, h1, &fs.SearchProgress{}, p)
			}
		})
	}

	c.Group("lasso paths")
	c.Bound("2, 5 and 12 regularisations; no correction, elastic net, CLasso; empirical, identity and thresholded covariance; two paths at once")
	d := vc.Structured(vc.KindBias, 6, 4, 4)
	for _, m := range []int{2, 5, 12} {
		for corr := 0; corr < 3; corr++ {
			for _, cov := range []string{"empirical", "identity", "threshold"} {
				if m == 12 && corr > 0 && !c.Thorough() {
					continue
				}
				var sparse *fs.SparseThresholded
				p := &pathCase{d: d, n: vc.Normalise(d.X, d.Y), lambs: pathLambs(m, 1.2, 1e-2), eta: 0.3, corr: corr}
				both(fmt.Sprintf("m%d-corr%d-%s", m, corr, cov), p.String, 1, func() func() {
					nd := fs.NewNormalizedData(d.X.Dense(), vc.Clone(d.Y))
					if cov == "threshold" && sparse == nil {
						// its own schedules are explored below
						vs.Run(vs.Config{RandSeed: 1, MaxSteps: 10000000}, nil, func() { sparse = fs.NewSparseThreshold(nd.X) })
					}
					return func() {
						var cm fs.CovMat
						switch cov {
						case "empirical":
							cm = &fs.Empirical{}
						case "identity":
							cm = &fs.Identity{}
						default:
							cm = sparse
						}
						var lc fs.LassoCorrection = &fs.PureLasso{}
						switch corr {
						case 1:
							lc = &fs.ElasticNet{Lamb: 0.3}
						case 2:
							lc = fs.NewCLasso(d.X.C, 0.3)
						}
						lambs := vc.Clone(p.lambs)
						if m == 2 {
							vs.Go("other path", nil, func() { fs.LassoCrdDescPath(nd, cm, lambs, 2000, 1e-6, lc) })
						}
						fs.LassoCrdDescPath(nd, cm, lambs, 2000, 1e-6, lc)
					}
				})
			}
		}
	}

	c.Group("kappa sequences")
	c.Bound("1, 3 and 17 targets with one dataset")
	for _, m := range []int{1, 3, 17} {
		for kind := 0; kind < 3; kind++ {
			if m == 17 && kind > 0 && !c.Thorough() {
				continue
			}
			dd := vc.Structured(vc.KindSparse, 8, 3, 6)
			both(fmt.Sprintf("m%d-kind%d", m, kind), dd.String, 1, func() func() {
				return func() {
					nd := fs.NewNormalizedData(dd.X.Dense(), vc.Clone(dd.Y))
					cov := &fs.Empirical{}
					corr := &fs.PureLasso{}
					var ts []fs.CohensKappaTarget
					for i := 0; i < m; i++ {
						t := fs.NewPureLassoCohen()
						cl := fs.NewCLassoCohen()
						if kind == 1 || kind == 2 && i%2 == 0 {
							t = cl.PLasso
						}
						t.Dset, t.Lamb, t.Cov, t.MaxIter, t.Tol, t.Correction = nd, 0.1+0.05*float64(i), cov, 1000, 1e-6, corr
						if kind == 1 || kind == 2 && i%2 == 0 {
							cl.Eta = 0.2
							t.Correction = fs.NewCLasso(dd.X.C, 0.2)
							ts = append(ts, cl)
						} else {
							ts = append(ts, t)
						}
					}
					fs.CalculateCohenSequence(1, ts)
				}
			})
		}
	}

	c.Group("threshold searches")
	c.Bound("2 to 18 grid points, one or two searches at once")
	for _, step := range []float64{4.5, 3, 1, 0.5} {
		x := covData(vc.KindRandom, 6, 2, 1)
		both(fmt.Sprintf("step%g", step), x.String, 1, func() func() {
			return func() {
				m := x.Dense()
				if step == 3 {
					vs.Go("other search", nil, func() { fs.L2ConsistentCovTO(m, 2, 1, step) })
				}
				fs.L2ConsistentCovTO(m, 2, 1, step)
			}
		})
	}

	c.Group("command line")
	c.Bound("bnb with periodic saves at any time")
	both("bnb", func() string { return "bnb on a small file" }, 1, func() func() {
		return func() {
			dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "race")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			t := vc.Structured(vc.KindSparse, 6, 3, 3)
			writeTable(filepath.Join(dir, "in.csv"), t, 3)
			execute("bnb", "--csv", filepath.Join(dir, "in.csv"), "--target=-1", "--out", filepath.Join(dir, "out.json"), "--cutoff=0", "--maxqueue=10000000")
		}
	})

	// the schedules next to those of the policies
	for _, f := range later {
		f()
	}
}

// raceOne runs one execution and reports data races
func raceOne(c *vc.Ctx, cfg vs.Config, mk vs.Scenario) {
	n := vs.RaceErrors()
	one(c, cfg, func() (func(), func(*vs.Exec) string) {
		body, check := mk()
		return body, func(e *vs.Exec) string {
			if m := check(e); m != "" {
				return m
			}
			if vs.RaceErrors() > n {
				return "data race"
			}
			return ""
		}
	})
}

// ---------------------------------------------------------------- C02

// call is one operation of a history
type call struct {
	thread     int
	op         string
	arg        float64
	start, end int
	result     string
}

func (o call) String() string {
	return fmt.Sprintf("t%d %s(%g)=%s [%d,%d]", o.thread, o.op, o.arg, o.result, o.start, o.end)
}

// listState is the sequential specification of the list: the scores it holds
type listState struct {
	scores []float64
	max    int
}

// apply returns what an operation gives; inserts are done by the code itself
// on a list of its own (their meaning is H01)
func applyList(h *fs.Highscore, o call) string {
	switch o.op {
	case "insert":
		h.Insert(scored(o.arg))
		return ""
	case "len":
		return fmt.Sprint(h.Len())
	case "best":
		return fmt.Sprint(h.BestScore())
	case "scores":
		return fmt.Sprint(h.Scores())
	case "json":
		b, err := json.Marshal(h)
		if err != nil {
			return err.Error()
		}
		return string(b)
	}
	panic(o.op)
}

func scored(v float64) *fs.Node {
	n := fs.NewNode(1, []bool{true, false})
	n.Score = v
	n.Coeff = []float64{v}
	n.Lower, n.Upper = 0, 1
	return n
}

// linearizable tries all orders that respect real time
func linearizable(calls []call, fresh func() func(call) string, final string, look call) bool {
	n := len(calls)
	used := make([]bool, n)
	order := make([]int, 0, n)
	var rec func() bool
	rec = func() bool {
		if len(order) == n {
			// replay on a fresh object
			ap := fresh()
			for _, i := range order {
				if ap(calls[i]) != calls[i].result {
					return false
				}
			}
			return ap(look) == final
		}
		for i := range calls {
			if used[i] {
				continue
			}
			ok := true
			for j := range calls {
				if !used[j] && j != i && calls[j].end < calls[i].start {
					ok = false
				}
			}
			if !ok {
				continue
			}
			used[i] = true
			order = append(order, i)
			if rec() {
				return true
			}
			order = order[:len(order)-1]
			used[i] = false
		}
		return false
	}
	return rec()
}

func c02(c *vc.Ctx) {
	ops := []string{"insert", "len", "best", "scores", "json"}
	type program [][]call
	concurrent := func(prog program, do func(call) string) (func(), *[]call) {
		var hist []call
		clock := 0
		body := func() {
			done := make([]bool, len(prog))
			run := func(t int) {
				for _, o := range prog[t] {
					o.thread = t
					clock++
					o.start = clock
					o.result = do(o)
					clock++
					o.end = clock
					hist = append(hist, o)
				}
				done[t] = true
			}
			for t := 1; t < len(prog); t++ {
				vs.Go("thread", nil, func() { run(t) })
			}
			run(0)
		}
		return body, &hist
	}
	check := func(prog program, hist *[]call, final func() string, fresh func() func(call) string, look call) func(*vs.Exec) string {
		want := 0
		for _, p := range prog {
			want += len(p)
		}
		return func(e *vs.Exec) string {
			if m := finished(e); m != "" {
				return m
			}
			if len(*hist) != want {
				return fmt.Sprintf("%d of %d operations returned", len(*hist), want)
			}
			f := final()
			if !linearizable(*hist, fresh, f, look) {
				sort.Slice(*hist, func(i, j int) bool { return (*hist)[i].start < (*hist)[j].start })
				return fmt.Sprintf("no order of the operations explains what they returned: %v, finally %s", *hist, f)
			}
			return ""
		}
	}
	name := func(p program) string {
		var s []string
		for _, t := range p {
			var o []string
			for _, x := range t {
				if x.op == "insert" || x.op == "set" {
					o = append(o, fmt.Sprintf("%s%g", x.op, x.arg))
				} else {
					o = append(o, x.op)
				}
			}
			s = append(s, strings.Join(o, "+"))
		}
		return strings.Join(s, "|")
	}

	c.Group("list")
	bound := c.Pick(2, 3)
	c.Bound("two and three threads with up to two operations each out of %v, lists of size 2 to 4 that are empty or have two items; a scheduling point before every statement, at most %d deviations", ops, bound)
	var progs []program
	mk := func(o string, v float64) call { return call{op: o, arg: v} }
	for _, o := range ops {
		progs = append(progs, program{{mk("insert", 3)}, {mk(o, 5)}})
		progs = append(progs, program{{mk("insert", 3), mk("insert", 4)}, {mk(o, 2), mk(o, 6)}})
	}
	for _, o := range ops[1:] {
		for _, o2 := range ops[1:] {
			progs = append(progs, program{{mk("insert", 3)}, {mk(o, 0), mk(o2, 0)}})
			if o <= o2 {
				progs = append(progs, program{{mk("insert", 3)}, {mk("insert", 5), mk(o, 0)}, {mk(o2, 0)}})
			}
		}
	}
	for i, p := range progs {
		for k, size := range []int{2, 3, 4} {
			if !c.Thorough() && k != i%3 {
				continue
			}
			for pre := 0; pre <= 2; pre += 2 {
				scen := func() (func(), func(*vs.Exec) string) {
					make_ := func() *fs.Highscore {
						h := fs.NewHighscore(size)
						for j := 0; j < pre; j++ {
							h.Insert(scored(float64(2 + 2*j)))
						}
						return h
					}
					h := make_()
					body, hist := concurrent(p, func(o call) string { return applyList(h, o) })
					look := call{op: "json"}
					return body, check(p, hist, func() string { return applyList(h, look) }, func() func(call) string {
						f := make_()
						return func(o call) string { return applyList(f, o) }
					}, look)
				}
				b := bound
				if len(p) > 2 {
					b--
				}
				explore(c, fmt.Sprintf("%s-size%d-pre%d", name(p), size, pre), func() string { return name(p) }, vs.Config{Policy: 0}, b, float64(c.Pick(2, 12)), scen)
			}
		}
	}

	c.Group("long lists")
	c.Bound("two threads with one or two operations each on lists that hold 1 to 130 items, full or not; a scheduling point before every statement, 1 deviation (thorough: 2)")
	for _, pre := range []int{1, 7, 16, 33, 64, 65, 100, 130} {
		for i, p := range []program{{{mk("insert", 3.5)}, {mk("scores", 0)}}, {{mk("insert", 1e3)}, {mk("best", 0), mk("len", 0)}},
			{{mk("insert", 3.5)}, {mk("json", 0)}}, {{mk("insert", 3.5)}, {mk("insert", 4.5)}}} {
			size := pre + []int{0, 1, 2, 50}[(pre+i)%4]
			if size < 2 {
				size = 2
			}
			explore(c, fmt.Sprintf("%s-size%d-pre%d", name(p), size, pre), func() string { return name(p) }, vs.Config{Policy: []int{0, 3}[i%2]}, c.Pick(1, 2), float64(c.Pick(2, 12)), func() (func(), func(*vs.Exec) string) {
				make_ := func() *fs.Highscore {
					h := fs.NewHighscore(size)
					for j := 0; j < pre; j++ {
						h.Items.PushBack(scored(float64(pre - j)))
					}
					return h
				}
				h := make_()
				body, hist := concurrent(p, func(o call) string { return applyList(h, o) })
				look := call{op: "json"}
				return body, check(p, hist, func() string { return applyList(h, look) }, func() func(call) string {
					f := make_()
					return func(o call) string { return applyList(f, o) }
				}, look)
			})
		}
	}

	c.Group("progress")
	c.Bound("two and three threads with up to three operations each; a scheduling point before every statement, at most %d deviations", bound+1)
	set := func(v float64) call { return call{op: "set", arg: v} }
	get := call{op: "get"}
	for _, p := range []program{{{set(1)}, {get}}, {{set(1), set(2)}, {get, get}}, {{set(1), set(2), set(3)}, {get, get, get}},
		{{set(1)}, {set(2)}, {get, get}}, {{set(1), get}, {set(2), get}}, {{get, set(1)}, {set(2), get}, {get}}} {
		explore(c, name(p), func() string { return name(p) }, vs.Config{}, bound+1, float64(c.Pick(2, 20)), func() (func(), func(*vs.Exec) string) {
			do := func(sp *fs.SearchProgress, o call) string {
				if o.op == "set" {
					sp.Set(-o.arg, int(o.arg)*10, math.Sqrt(o.arg))
					return ""
				}
				a, b, d := sp.Get()
				return fmt.Sprint(a, b, d)
			}
			sp := &fs.SearchProgress{}
			body, hist := concurrent(p, func(o call) string { return do(sp, o) })
			return body, check(p, hist, func() string { return do(sp, get) }, func() func(call) string {
				f := &fs.SearchProgress{}
				return func(o call) string { return do(f, o) }
			}, get)
		})
	}
	c.Group("progress values")
	c.Bound("one Set and one Get in two threads for every number of models up to 300, powers of two, ten and nearby up to 2^40, rising from the number before; a scheduling point before every statement, all executions with 1 deviation")
	var nums []int
	for n := 0; n <= 300; n++ {
		nums = append(nums, n)
	}
	for k := 9; k <= 40; k++ {
		nums = append(nums, 1<<uint(k)-1, 1<<uint(k), 1<<uint(k)+1)
	}
	for n := 1000; n <= 1000000; n *= 10 {
		nums = append(nums, n-1, n, n+1)
	}
	for i, n := range nums {
		p := program{{set(float64(n))}, {get}}
		explore(c, name(p), func() string { return name(p) }, vs.Config{Policy: i % 2}, 1, float64(c.Pick(1, 4)), func() (func(), func(*vs.Exec) string) {
			make_ := func() *fs.SearchProgress {
				sp := &fs.SearchProgress{}
				sp.Set(-10, n-1, 0.5)
				return sp
			}
			do := func(sp *fs.SearchProgress, o call) string {
				if o.op == "set" {
					sp.Set(-3, n, math.Log2(float64(n)+1.5))
					return ""
				}
				a, b, d := sp.Get()
				return fmt.Sprint(a, b, d)
			}
			sp := make_()
			body, hist := concurrent(p, func(o call) string { return do(sp, o) })
			return body, check(p, hist, func() string { return do(sp, get) }, func() func(call) string {
				f := make_()
				return func(o call) string { return do(f, o) }
			}, get)
		})
	}
}
