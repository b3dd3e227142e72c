//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"

	vc "github.com/davidkleiven/goselect/verifcommon"
	vs "github.com/davidkleiven/goselect/verifsched"
)

func init() {
	props["X02"] = x02
}

// saver runs a command and looks at its output file wherever the command could be
// interrupted
type saver struct {
	l     *cliDir
	args  []string
	old   []byte                   // contents of the output file before the run, nil: none
	fail  int                      // the operation on files that fails
	check func() string            // of the final file
	value func() (float64, string) // of a file that was written: its quality; it must not get worse

	points, saves, ops int
	snaps              []map[string][]byte
	keep               bool // collect snapshots
}

// names of the files in the directory
func (s *saver) files() map[string][]byte {
	m := map[string][]byte{}
	es, _ := os.ReadDir(s.l.dir)
	for _, e := range es {
		m[e.Name()], _ = os.ReadFile(filepath.Join(s.l.dir, e.Name()))
	}
	return m
}

func (s *saver) restore(m map[string][]byte) {
	for n := range s.files() {
		if _, ok := m[n]; !ok {
			os.Remove(filepath.Join(s.l.dir, n))
		}
	}
	for n, b := range m {
		if err := os.WriteFile(filepath.Join(s.l.dir, n), b, 0644); err != nil {
			panic(err)
		}
	}
}

func (s *saver) scenario(start map[string][]byte) vs.Scenario {
	return func() (func(), func(*vs.Exec) string) {
		if start == nil {
			start = map[string][]byte{"in.csv": s.l.text}
			if s.old != nil {
				start["out.json"] = s.old
			}
		}
		s.restore(start)
		last, have := start["out.json"]
		best := math.Inf(-1)
		seen := ""
		s.points, s.saves = 0, 0
		s.snaps = nil
		look := func(op string) {
			s.points++
			b, err := os.ReadFile(s.l.out)
			switch {
			case seen != "":
			case err != nil && !have || err == nil && have && bytes.Equal(b, last):
			case err != nil:
				seen = "the results that were saved before are gone"
			default:
				v, m := s.value()
				if m == "" && v < best {
					m = fmt.Sprintf("the best score went from %g to %g", best, v)
				}
				if m != "" {
					seen = "the file is neither the previous one nor a complete one: " + m
				}
				last, have, best = b, true, v
				s.saves++
			}
			if seen != "" && op != "" {
				seen = "if the program is interrupted when it has " + op + ": " + seen
				op = ""
			}
			if s.keep && len(s.snaps) < 12 {
				f := s.files()
				if n := len(s.snaps); n == 0 || fmt.Sprint(f) != fmt.Sprint(s.snaps[n-1]) {
					s.snaps = append(s.snaps, f)
				}
			}
		}
		vs.ResetFiles()
		vs.FileFail = s.fail
		vs.FileHook = func(op, name string) {
			rel, err := filepath.Rel(s.l.dir, name)
			if err != nil {
				rel = name
			}
			if seen == "" {
				look(op + " " + rel)
			}
		}
		done := false
		return func() { execute(s.args...); done = true }, func(e *vs.Exec) string {
			s.ops = vs.FileOps()
			vs.FileHook, vs.FileFail = nil, 0
			if seen != "" {
				return seen
			}
			if m := finished(e); m != "" {
				return m
			}
			if !done {
				return "the command did not return"
			}
			look("")
			if seen != "" {
				return "at the end: " + seen
			}
			if b, err := os.ReadFile(s.l.in); err != nil || !bytes.Equal(b, s.l.text) {
				return "the input file was modified"
			}
			if s.fail == 0 || s.fail > s.ops {
				if m := s.check(); m != "" {
					return m
				}
				for n := range s.files() {
					if _, ok := start[n]; !ok && n != "out.json" {
						return "there is an unexpected file " + n
					}
				}
			}
			return ""
		}
	}
}

// all runs a command, then with each of its operations failing, and restarts it
// after each interruption
func (s *saver) all(c *vc.Ctx, cfg vs.Config) {
	s.keep = true
	one(c, cfg, s.scenario(nil))
	ops, snaps := s.ops, s.snaps
	c.Step(s.points)
	g := c.Cur()
	g.Done["points of interruption"] += int64(s.points)
	g.Done["saves"] += int64(s.saves)
	s.keep = false
	for s.fail = 1; s.fail <= ops; s.fail++ {
		one(c, cfg, s.scenario(nil))
		g.Done["failing operations"]++
	}
	s.fail = 0
	for _, m := range snaps {
		if _, ok := m["in.csv"]; !ok {
			continue
		}
		one(c, cfg, s.scenario(m))
		g.Done["restarts after an interruption"]++
		// the interrupted run may have had a larger result
		longer, stray := map[string][]byte{}, false
		for n, b := range m {
			if n != "in.csv" && n != "out.json" {
				b = append(append([]byte{}, b...), bytes.Repeat([]byte(`{"earlier":"result"}`), 2000)...)
				stray = true
			}
			longer[n] = b
		}
		if stray {
			one(c, cfg, s.scenario(longer))
			g.Done["restarts after an interruption of a larger run"]++
		}
	}
}

func x02(c *vc.Ctx) {
	big := vs.Config{MaxSteps: 3000000, MaxDraws: 3000000}
	oldOf := func(k int) []byte {
		return [][]byte{nil, []byte(`{"MaxItems":10,"Items":[],"earlier":"result"}`), {}}[k%3]
	}
	bnb := func(b *bnbRun, l *cliDir, k int) *saver {
		return &saver{l: l, args: b.args(l), old: oldOf(k), check: func() string { return b.verdict(l.out) }, value: func() (float64, string) {
			f, m := b.listOf(l.out)
			if m != "" || len(nodes(f.h)) == 0 {
				return math.Inf(-1), m
			}
			return f.h.BestScore(), ""
		}}
	}
	i := 0
	c.Group("bnb")
	c.Bound("every kind of data with 3 to 5 features, with and without an earlier file: every point of interruption, every failing file operation, a restart after every interruption")
	for kind := 0; kind < vc.NumKinds; kind++ {
		for _, sh := range [][2]int{{5, 3}, {9, 4}, {12, 5}} {
			for seed := uint64(0); seed < uint64(c.Pick(1, 6)); seed++ {
				d := vc.Structured(kind, sh[0], sh[1], seed+1900)
				i++
				k := i
				c.Case(fmt.Sprintf("%s-%d", d.Name, k%15), func() {
					s := newSearch(d, -1)
					s.cutoff = []float64{0, 0.7, -1.5}[k%3]
					b := &bnbRun{s: s, target: -1}
					c.Input(func() string { return fmt.Sprintf("%v, earlier file %q", b, oldOf(k)) })
					l := newCli(d, -1)
					defer l.close()
					cfg := big
					cfg.Policy, cfg.RandSeed = k%5, seed+1
					bnb(b, l, k).all(c, cfg)
				})
			}
		}
	}
	c.Group("bnb, saves during the search")
	c.Bound("all executions with one deviation, ticks of the clock included (thorough: two): every point of interruption; with one deviation, the first three (nine) operations on files failing")
	for k, d := range []*vc.Data{vc.Structured(vc.KindSparse, 6, 3, 13), vc.Structured(vc.KindTies, 5, 3, 12), vc.Structured(vc.KindCorrelated, 8, 4, 12)} {
		for j := 0; j < 2; j++ {
			pol := []int{2, 4, 1, 0, 3}[(2*k+j)%5]
			b := &bnbRun{s: newSearch(d, -1), target: []int{-1, 0}[j]}
			l := newCli(d, b.target)
			cfg := big
			cfg.Policy, cfg.EnvTicks, cfg.RandSeed = pol, true, 5
			s := bnb(b, l, 2*k+j)
			explore(c, d.Name+"/"+policyNames[pol], b.String, cfg, c.Pick(1, 2), float64(c.Pick(2, 50)), s.scenario(nil))
			l.close()
			for fail := 1; fail <= c.Pick(3, 9); fail++ {
				if !c.Thorough() && j+fail%2 == 1 {
					continue
				}
				l := newCli(d, b.target)
				s := bnb(b, l, 2*k+j)
				s.fail = fail
				explore(c, fmt.Sprintf("%s/%s/fail%d", d.Name, policyNames[pol], fail), b.String, cfg, 1, float64(c.Pick(1, 20)), s.scenario(nil))
				l.close()
			}
		}
	}
	c.Group("sasearch")
	c.Bound("every kind of data with 1 to 5 features: every point of interruption, every failing file operation, a restart after every interruption")
	for kind := 0; kind < vc.NumKinds; kind++ {
		for _, sh := range [][2]int{{5, 3}, {9, 4}, {4, 1}, {12, 5}} {
			i++
			k := i
			d := vc.Structured(kind, sh[0], sh[1], uint64(kind)+1700)
			c.Case(fmt.Sprintf("%s-%d", d.Name, k%3), func() {
				c.Input(func() string { return fmt.Sprintf("sasearch, %v, earlier file %q", d, oldOf(k)) })
				l := newCli(d, -1)
				defer l.close()
				cfg := big
				cfg.RandSeed = uint64(k)
				s := &saver{l: l, args: []string{"sasearch", "--csv", l.in, "--target=-1", "--out", l.out, "--sweeps=" + strconv.Itoa(1+k%3)}, old: oldOf(k)}
				s.check = func() string { return saList(l.out, d) }
				s.value = func() (float64, string) { return 0, s.check() }
				s.all(c, cfg)
			})
		}
	}
	c.Group("lasso")
	c.Bound("every kind of data that can be normalised: every point of interruption, every failing file operation, a restart after every interruption")
	for kind := 0; kind < vc.NumKinds; kind++ {
		for _, sh := range [][2]int{{8, 2}, {9, 4}, {14, 6}} {
			d := vc.Structured(kind, sh[0], sh[1], 1300)
			n := vc.Normalise(d.X, d.Y)
			if !n.OK {
				continue
			}
			i++
			k := i
			r := &lassoRun{d: d, n: n, target: -1, typ: "cd", cov: []string{"empirical", "identity"}[k%2], min: 1e-2, max: 1, num: 1 + k%6}
			c.Case(fmt.Sprintf("%s-%d", d.Name, k%30), func() {
				c.Input(func() string { return fmt.Sprintf("%v, earlier file %q", r, oldOf(k)) })
				l := newCli(d, -1)
				defer l.close()
				cfg := big
				cfg.Policy = k % 5
				s := &saver{l: l, args: r.args(l), old: oldOf(k)}
				s.check = func() string { return r.verdict(l.out) }
				s.value = func() (float64, string) { return 0, s.check() }
				s.all(c, cfg)
			})
		}
	}
}
