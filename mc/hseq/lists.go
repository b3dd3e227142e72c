//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"sort"

	fs "github.com/davidkleiven/goselect/featselect"
	vc "github.com/davidkleiven/goselect/verifcommon"
)

func init() {
	props["H01"] = h01
	props["H02"] = h02
	props["H03"] = h03
	props["K01"] = k01
	props["M01"] = m01
}

// ------------------------------------------------------------ highscore list

// checkList compares a highscore list with the nodes that were inserted
func checkList(c *vc.Ctx, h *fs.Highscore, max int, in []*fs.Node) {
	ns := nodesOf(h)
	n := len(in)
	c.Check(h.Len() == len(ns), "Len is %d, the list has %d nodes", h.Len(), len(ns))
	c.Check(h.MaxItems == max, "the capacity changed from %d to %d", max, h.MaxItems)
	c.Check(len(ns) <= max, "%d nodes in a list for at most %d", len(ns), max)
	c.Check(len(ns) >= min(n, max-1), "%d nodes after %d insertions in a list for %d", len(ns), n, max)
	if len(ns) == 0 {
		c.Check(h.BestScore() == 0, "an empty list has the best score %g", h.BestScore())
	} else {
		c.Check(h.BestScore() == ns[0].Score, "BestScore is %g, the first node has %g", h.BestScore(), ns[0].Score)
	}
	sc := h.Scores()
	c.Check(len(sc) == len(ns), "%d scores for %d nodes", len(sc), len(ns))
	used := map[*fs.Node]bool{}
	for i, v := range ns {
		c.Check(sc[i] == v.Score, "score %d is %g, the node has %g", i, sc[i], v.Score)
		c.Check(i == 0 || ns[i-1].Score >= v.Score, "the list is not sorted: %v", sc)
		c.Check(!used[v], "a node is in the list twice: %v", sc)
		used[v] = true
	}
	found := 0
	for _, v := range in {
		if used[v] {
			found++
			continue
		}
		c.Check(len(ns) > 0 || max <= 1, "nothing was kept of %d nodes", n)
		for _, k := range ns {
			c.Check(k.Score >= v.Score, "a node with score %g was dropped, one with %g was kept (%v)", v.Score, k.Score, sc)
		}
	}
	c.Check(found == len(ns), "%d of %d nodes in the list were never inserted", len(ns)-found, len(ns))
}

var scoreAlphabet = []float64{0, 1, -1, 2.5, math.MaxFloat64, -math.MaxFloat64}

func h01(c *vc.Ctx) {
	k := c.Pick(4, 5)
	n := c.Pick(7, 8)
	c.Group("all sequences of insertions")
	c.Bound("all sequences of %d insertions (checked after each) with %d different scores, capacities 1 to 7", n, k)
	for max := 1; max <= 7; max++ {
		for first := 0; first < k*k; first++ {
			c.Case(fmt.Sprintf("max%d-%d", max, first), func() {
				sequences(k, n-2, func(s []int) {
					h := fs.NewHighscore(max)
					var in []*fs.Node
					step := func(v int) {
						nd := &fs.Node{Score: scoreAlphabet[v], Level: len(in)}
						h.Insert(nd)
						in = append(in, nd)
						c.Step(1)
					}
					c.Input(func() string {
						r := []float64{}
						for _, v := range in {
							r = append(r, v.Score)
						}
						return fmt.Sprintf("capacity %d, scores %v", max, r)
					})
					checkList(c, h, max, in)
					step(first / k)
					checkList(c, h, max, in)
					step(first % k)
					checkList(c, h, max, in)
					for _, v := range s {
						step(v)
						checkList(c, h, max, in)
					}
					c.Exec(1)
					c.State(n)
					c.Seen(fmt.Sprintf("%d nodes kept", h.Len()))
				})
			})
		}
	}
	c.Group("all weak orders")
	c.Bound("insertions of up to %d nodes, every way of ordering their scores including ties, capacities 1 to 9, checked after each", c.Pick(7, 8))
	for n := 1; n <= c.Pick(7, 8); n++ {
		for max := 1; max <= 9; max++ {
			for first := 0; first < n; first++ {
				c.Case(fmt.Sprintf("n%d-max%d-%d", n, max, first), func() {
					weakOrders(n, func(p []int) {
						if p[0] != first {
							return
						}
						h := fs.NewHighscore(max)
						var in []*fs.Node
						c.Input(func() string { return fmt.Sprintf("capacity %d, scores %v", max, p) })
						for _, v := range p {
							nd := &fs.Node{Score: float64(v) - 2.5}
							h.Insert(nd)
							in = append(in, nd)
							checkList(c, h, max, in)
						}
						c.Exec(1)
						c.Step(n)
						c.State(n)
					})
				})
			}
		}
	}
	c.Group("long lists")
	c.Bound("capacities 30 to 1100, up to 2200 insertions in ascending, descending, equal, repeated, alternating and mixed order, checked every 13 insertions and around the capacity")
	for _, max := range []int{30, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 513, 1000, 1025} {
		for order := 0; order < 6; order++ {
			c.Case(fmt.Sprintf("max%d-order%d", max, order), func() {
				h := fs.NewHighscore(max)
				var in []*fs.Node
				rnd := vc.NewHash(uint64(max))
				c.Input(func() string { return fmt.Sprintf("capacity %d, order %d, %d insertions", max, order, len(in)) })
				for i := 0; i < 2*max+20 && i < 2200; i++ {
					sc := []float64{float64(i), -float64(i), 1, float64(i % 7), float64(i%2*2-1) * float64(i), float64(rnd.N(max))}[order]
					nd := &fs.Node{Score: sc, Level: i}
					h.Insert(nd)
					in = append(in, nd)
					if i%13 == 0 || i > max-4 && i < max+4 || i == 2*max+19 {
						checkList(c, h, max, in)
					}
				}
				c.Exec(1)
				c.Step(len(in))
				c.State(len(in))
			})
		}
	}
	c.Group("after reading a list")
	c.Bound("all sequences of 3 insertions, a round trip, 3 more insertions; 3 scores, capacities 1 to 6")
	for max := 1; max <= 6; max++ {
		c.Case(fmt.Sprintf("max%d", max), func() {
			sequences(3, 6, func(s []int) {
				c.Input(func() string { return fmt.Sprintf("capacity %d, scores %v, round trip after three", max, s) })
				h := fs.NewHighscore(max)
				for _, v := range s[:3] {
					h.Insert(&fs.Node{Score: float64(v), Model: []bool{true}, Coeff: []float64{1}})
				}
				b, err := json.Marshal(h)
				c.Check(err == nil, "%v", err)
				h2 := fs.NewHighscore(17)
				c.Check(json.Unmarshal(b, h2) == nil, "cannot read %s", b)
				in := nodesOf(h2)
				for _, v := range s[3:] {
					nd := &fs.Node{Score: float64(v)}
					h2.Insert(nd)
					in = append(in, nd)
				}
				checkList(c, h2, max, in)
				c.Exec(1)
				c.Step(8)
				c.State(1)
			})
		})
	}
}

// -------------------------------------------------------------- round trips

func sameNode(a, b *fs.Node) string {
	switch {
	case a == nil || b == nil:
		return "nil node"
	case len(a.Model) != len(b.Model):
		return fmt.Sprintf("model %v became %v", a.Model, b.Model)
	case fmt.Sprint(a.Model) != fmt.Sprint(b.Model):
		return fmt.Sprintf("model %v became %v", a.Model, b.Model)
	case !vc.SameBits(a.Coeff, b.Coeff):
		return fmt.Sprintf("coefficients %v became %v", a.Coeff, b.Coeff)
	case a.Level != b.Level:
		return fmt.Sprintf("level %d became %d", a.Level, b.Level)
	case !vc.SameBits([]float64{a.Lower, a.Upper, a.Score}, []float64{b.Lower, b.Upper, b.Score}):
		return fmt.Sprintf("lower, upper, score %g %g %g became %g %g %g", a.Lower, a.Upper, a.Score, b.Lower, b.Upper, b.Score)
	}
	return ""
}

var oddFloats = []float64{0, 1, -1, 0.1, -1.0 / 3, 1e100, -1e100, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1e-310, 123456789.123456789, 1e21, 9007199254740993, math.Pi}

func cloneNode(n *fs.Node) *fs.Node {
	m := *n
	m.Model = append([]bool{}, n.Model...)
	m.Coeff = vc.Clone(n.Coeff)
	return &m
}

func h02(c *vc.Ctx) {
	c.Group("nodes")
	nf := c.Pick(7, 10)
	c.Bound("all models with up to %d features, coefficients and scores from %d values", nf, len(oddFloats))
	for p := 0; p <= nf; p++ {
		for mask := 0; mask < 1<<uint(p); mask++ {
			c.Case(fmt.Sprintf("p%d-%b", p, mask), func() {
				for v := range oddFloats {
					n := fs.NewNode(v%4, vc.ModelOf(mask, p))
					c.Input(func() string { return fmt.Sprintf("%+v", *n) })
					for i := range n.Coeff {
						n.Coeff[i] = oddFloats[(v+i*2)%len(oddFloats)]
					}
					n.Score = oddFloats[v]
					n.Lower = oddFloats[(v*3+1)%len(oddFloats)]
					n.Upper = oddFloats[(v*7+2)%len(oddFloats)]
					if v == 3 {
						n.Level = p
						n.WasFlipped = true
					}
					if v == 4 {
						n.Coeff = nil // not fitted yet
					}
					if v == 5 {
						n.Coeff = append(n.Coeff, 3.5)
					}
					keep := cloneNode(n)
					b, err := json.Marshal(n)
					c.Check(err == nil, "cannot write: %v", err)
					c.Check(sameNode(keep, n) == "", "writing changed the node: %s", sameNode(keep, n))
					// into a node that had other content
					r := fs.NewNode(9, []bool{true, true, true, false, true})
					c.Check(json.Unmarshal(b, r) == nil, "cannot read %s", b)
					m := sameNode(n, r)
					c.Check(m == "", "%s", m)
					c.Check(fs.NodesEqual(n, r), "NodesEqual denies that the node is equal")
					sp := n.ToSparseCoeff()
					c.Check(vc.EqInts(sp.Selection, vc.SelOf(mask, p)) && vc.SameBits(sp.Coeff, n.Coeff), "ToSparseCoeff gives %v %v", sp.Selection, sp.Coeff)
					c.Exec(1)
					c.Step(2)
					c.State(1)
				}
			})
		}
	}
	c.Group("long nodes")
	c.Bound("11 to 300 features, every level, lists of 10 to 200 nodes")
	for _, p := range []int{11, 31, 32, 33, 63, 64, 65, 100, 128, 129, 255, 256, 257, 300} {
		c.Case(fmt.Sprint(p), func() {
			h := vc.NewHash(uint64(p))
			list := fs.NewHighscore(200)
			for level := 0; level <= p; level++ {
				m := make([]bool, p)
				for i := range m {
					m[i] = h.N(3) == 0
				}
				n := fs.NewNode(level, m)
				for i := range n.Coeff {
					n.Coeff[i] = h.F() * math.Pow(10, float64(h.N(12)-6))
				}
				n.Score, n.Lower, n.Upper = 1000*h.F(), 1000*h.F(), 1000*h.F()
				n.WasFlipped = level%2 == 1
				c.Input(func() string { return fmt.Sprintf("%+v", *n) })
				b, err := json.Marshal(n)
				c.Check(err == nil, "cannot write: %v", err)
				r := fs.NewNode(9, []bool{true, true, true, false, true})
				c.Check(json.Unmarshal(b, r) == nil, "cannot read %s", b)
				e := sameNode(n, r)
				c.Check(e == "", "%s", e)
				c.Check(fs.NodesEqual(n, r), "NodesEqual denies that the node is equal")
				sp := n.ToSparseCoeff()
				var sel []int
				for i, v := range m {
					if v {
						sel = append(sel, i)
					}
				}
				c.Check(vc.EqInts(sp.Selection, sel) && vc.SameBits(sp.Coeff, n.Coeff), "ToSparseCoeff gives %v %v", sp.Selection, sp.Coeff)
				list.Insert(n)
				c.Exec(1)
				c.Step(2)
				c.State(1)
			}
			listRoundTrip(c, list, 200)
		})
	}
	c.Group("equality")
	c.Bound("all pairs of nodes with up to 3 features, two levels, bounds, scores and coefficients; differences of 1e-12 and 1e-6")
	var all []*fs.Node
	for p := 0; p <= 3; p++ {
		for mask := 0; mask < 1<<uint(p); mask++ {
			for v := 0; v < 32; v++ {
				n := fs.NewNode(v&1, vc.ModelOf(mask, p))
				n.Lower, n.Upper, n.Score = -3+1e-6*float64(v>>1&1), 4-1e-6*float64(v>>2&1), 1+1e-6*float64(v>>3&1)
				for i := range n.Coeff {
					n.Coeff[i] = float64(i) - 0.5
				}
				if k := len(n.Coeff); v>>4 == 1 {
					if k == 0 {
						continue
					}
					n.Coeff[k-1] += 1e-6
				}
				all = append(all, n)
				if v < 2 {
					for _, coeff := range [][]float64{nil, append(vc.Clone(n.Coeff), 0.25)} {
						m := cloneNode(n)
						m.Coeff = coeff
						all = append(all, m)
					}
				}
			}
		}
	}
	c.Case("pairs", func() {
		for _, a := range all {
			for _, b := range all {
				c.Input(func() string { return fmt.Sprintf("%+v and %+v", *a, *b) })
				eq := sameNode(a, b) == ""
				c.Check(fs.NodesEqual(a, b) == eq, "NodesEqual says %v", !eq)
				c.Step(1)
				if eq {
					d := cloneNode(b)
					d.Lower, d.Upper, d.Score = d.Lower+1e-12, d.Upper-1e-12, d.Score+1e-12
					for i := range d.Coeff {
						d.Coeff[i] += 1e-12
					}
					c.Check(fs.NodesEqual(a, d) && fs.NodesEqual(d, a), "NodesEqual denies that nodes are equal that differ by 1e-12")
				}
			}
			c.Exec(1)
			c.State(1)
		}
		for _, a := range all {
			ha, hb := fs.NewHighscore(3), fs.NewHighscore(3)
			ha.Insert(all[0])
			hb.Insert(all[0])
			ha.Insert(a)
			b := cloneNode(a)
			hb.Insert(b)
			c.Input(func() string { return fmt.Sprintf("lists with %+v", *a) })
			c.Check(ha.Equal(hb) && hb.Equal(ha), "equal lists differ")
			b.Level++
			c.Check(!ha.Equal(hb) && !hb.Equal(ha), "different lists are equal")
			b.Level--
			hb.MaxItems++
			c.Check(!ha.Equal(hb) && !hb.Equal(ha), "lists with different capacities are equal")
		}
	})
	c.Group("lists")
	models := []int{1, 2, 5, 7, 0, 6}
	k := len(models)
	n := c.Pick(4, 5)
	c.Bound("all sequences of up to %d nodes out of %d, all read into empty and used lists, capacities 1 to 6 and 100", n, k)
	for l := 0; l <= n; l++ {
		for _, max := range []int{1, 2, 3, 4, 5, 6, 100} {
			for first := 0; first < min(k, power(k, l)); first++ {
				c.Case(fmt.Sprintf("len%d-max%d-%d", l, max, first), func() {
					sequences(k, l, func(s []int) {
						if l > 0 && s[0] != first {
							return
						}
						h := fs.NewHighscore(max)
						for i, v := range s {
							nd := fs.NewNode(i%4, vc.ModelOf(models[v], 3))
							nd.Score = float64((v*5)%4) - 1.5
							nd.Lower = oddFloats[(i+v)%len(oddFloats)]
							nd.Upper = -nd.Lower
							for j := range nd.Coeff {
								nd.Coeff[j] = oddFloats[(i+j+v)%len(oddFloats)]
							}
							h.Insert(nd)
						}
						c.Input(func() string { return fmt.Sprintf("capacity %d, nodes %v", max, s) })
						listRoundTrip(c, h, max)
						c.Exec(1)
						c.State(1)
						c.Step(l + 2)
					})
				})
			}
		}
	}
}

func listRoundTrip(c *vc.Ctx, h *fs.Highscore, max int) {
	orig := nodesOf(h)
	var copies []*fs.Node
	for _, o := range orig {
		copies = append(copies, cloneNode(o))
	}
	b, err := json.Marshal(h)
	c.Check(err == nil, "cannot write: %v", err)
	used := fs.NewHighscore(3)
	used.Insert(fs.NewNode(0, []bool{true}))
	used.Insert(fs.NewNode(0, []bool{false, true}))
	used.Insert(fs.NewNode(0, []bool{true, true}))
	for i, g := range []*fs.Highscore{fs.NewHighscore(2), used, new(fs.Highscore)} {
		if i == 1 {
			// the way the tests read it
			c.Check(json.NewDecoder(bytes.NewBuffer(b)).Decode(g) == nil, "cannot read %s", b)
		} else {
			c.Check(json.Unmarshal(b, g) == nil, "cannot read %s", b)
		}
		got := nodesOf(g)
		c.Check(g.MaxItems == max, "capacity %d became %d", max, g.MaxItems)
		c.Check(len(got) == len(copies), "%d nodes became %d", len(copies), len(got))
		for j := range got {
			m := sameNode(copies[j], got[j])
			c.Check(m == "", "node %d: %s", j, m)
		}
		c.Check(h.Equal(g) && g.Equal(h), "Equal denies that the lists are equal")
		if len(got) > 0 {
			keep := got[len(got)-1].Score
			got[len(got)-1].Score = keep - 1
			c.Check(!h.Equal(g), "Equal does not see that the last score differs")
			got[len(got)-1].Score = keep
			g.Items.Remove(g.Items.Back())
			c.Check(!h.Equal(g) && !g.Equal(h), "Equal does not see that a node is missing")
		}
	}
	for j, o := range nodesOf(h) {
		c.Check(sameNode(copies[j], o) == "", "writing changed node %d", j)
	}
	if len(copies) <= 2 {
		for n := 0; n < len(b); n++ {
			g := fs.NewHighscore(7)
			nd := fs.NewNode(0, []bool{true})
			g.Insert(nd)
			c.Check(json.Unmarshal(b[:n], g) != nil, "a torn list is read: %q", b[:n])
			c.Check(json.Unmarshal(b[:n], nd) != nil, "a torn node is read: %q", b[:n])
			c.Check(g.MaxItems == 7 && g.Len() == 1, "a torn list changed the one it was read into")
		}
	}
}

// ------------------------------------------------------------------ SA list

type saRef struct {
	key   int
	score float64
	coeff float64
}

func h03(c *vc.Ctx) {
	sels := [][]int{{0}, {1}, {0, 1}, {2}}
	scores := []float64{1, 2, -3}
	k := len(sels) * len(scores)
	n := c.Pick(4, 5)
	c.Group("all sequences, any scores")
	c.Bound("all sequences of %d insertions of %d selections with %d scores, capacities 1 to 4, checked after each", n, len(sels), len(scores))
	for cp := 1; cp <= 4; cp++ {
		for first := 0; first < k*k; first++ {
			c.Case(fmt.Sprintf("cap%d-%d", cp, first), func() {
				sequences(k, n-2, func(s []int) {
					ops := append([]int{first / k, first % k}, s...)
					c.Input(func() string { return fmt.Sprintf("capacity %d, (selection, score) %v", cp, ops) })
					runSA(c, cp, len(ops), func(i int) (int, float64) { return ops[i] % len(sels), scores[ops[i]/len(sels)] }, sels)
				})
			})
		}
	}
	c.Group("all sequences, one score per selection")
	m := c.Pick(5, 6)
	c.Bound("all sequences of %d insertions of 5 selections, all assignments of 3 scores, capacities 1 to 4; the best distinct ones are kept", m)
	sel5 := [][]int{{0}, {1}, {0, 1}, {2}, {0, 2}}
	for cp := 1; cp <= 4; cp++ {
		sequences(3, 5, func(assign []int) {
			if !c.Thorough() && assign[0] > assign[1] {
				return // the selections are interchangeable
			}
			as := append([]int{}, assign...)
			c.Case(fmt.Sprintf("cap%d-%v", cp, as), func() {
				sequences(5, m, func(s []int) {
					if !c.Thorough() && s[0] != 0 && s[0] != 1 {
						return
					}
					c.Input(func() string { return fmt.Sprintf("capacity %d, selections %v, scores %v", cp, s, as) })
					sc := runSA(c, cp, m, func(i int) (int, float64) { return s[i], float64(as[s[i]]) }, sel5)
					var all []float64
					seen := map[int]bool{}
					for _, v := range s {
						if !seen[v] {
							seen[v] = true
							all = append(all, float64(as[v]))
						}
					}
					sort.Sort(sort.Reverse(sort.Float64Slice(all)))
					if len(all) > cp {
						all = all[:cp]
					}
					var got []float64
					for _, it := range sc.Items {
						got = append(got, it.Score)
					}
					sort.Sort(sort.Reverse(sort.Float64Slice(got)))
					c.Check(vc.SameBits(all, got), "the list has the scores %v, the best distinct ones are %v", got, all)
				})
			})
		})
	}
	c.Group("all weak orders")
	c.Bound("insertions of up to %d different selections, every way of ordering their scores including ties, capacities 1 to %d", c.Pick(7, 8), c.Pick(6, 7))
	for cp := 1; cp <= c.Pick(6, 7); cp++ {
		for n := 1; n <= c.Pick(7, 8); n++ {
			sel := make([][]int, n)
			for i := range sel {
				sel[i] = vc.SelOf(i+1, 4)
			}
			for first := 0; first < n; first++ {
				c.Case(fmt.Sprintf("cap%d-n%d-%d", cp, n, first), func() {
					weakOrders(n, func(s []int) {
						if s[0] != first {
							return
						}
						c.Input(func() string { return fmt.Sprintf("capacity %d, scores %v", cp, s) })
						sc := runSA(c, cp, n, func(i int) (int, float64) { return i, float64(s[i] - 2) }, sel)
						all := make([]float64, n)
						for i, v := range s {
							all[i] = float64(v - 2)
						}
						sort.Sort(sort.Reverse(sort.Float64Slice(all)))
						if len(all) > cp {
							all = all[:cp]
						}
						var got []float64
						for _, it := range sc.Items {
							got = append(got, it.Score)
						}
						sort.Sort(sort.Reverse(sort.Float64Slice(got)))
						c.Check(vc.SameBits(all, got), "the list has the scores %v, the best distinct ones are %v", got, all)
					})
				})
			}
		}
	}
	c.Group("long selections")
	c.Bound("all sequences of %d insertions of 10 selections with up to 40 features that are prefixes of each other or differ in one feature, 2 scores, capacities 1 to 4", c.Pick(3, 4))
	upTo := func(n int) (r []int) {
		for i := 0; i < n; i++ {
			r = append(r, i)
		}
		return
	}
	long := [][]int{upTo(3), upTo(4), upTo(5), upTo(12), upTo(13), upTo(40), upTo(39),
		append(upTo(11), 12), append(upTo(4), 5, 6, 7, 8, 9, 10, 11, 12), append(upTo(38), 39)}
	long[7] = append([]int{1}, upTo(12)[2:]...)
	for cp := 1; cp <= 4; cp++ {
		for first := 0; first < 2*len(long); first++ {
			c.Case(fmt.Sprintf("cap%d-%d", cp, first), func() {
				sequences(2*len(long), c.Pick(3, 4)-1, func(s []int) {
					ops := append([]int{first}, s...)
					c.Input(func() string { return fmt.Sprintf("capacity %d, (selection, score) %v of %v", cp, ops, long) })
					runSA(c, cp, len(ops), func(i int) (int, float64) { return ops[i] % len(long), float64(ops[i] / len(long)) }, long)
				})
			})
		}
	}
	c.Group("long lists")
	c.Bound("capacities 30 to 257, all selections of 9 features in ascending, descending, equal, repeated and mixed order of their scores, then repeated")
	for _, cp := range []int{30, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257} {
		for order := 0; order < 5; order++ {
			c.Case(fmt.Sprintf("cap%d-order%d", cp, order), func() {
				var sel [][]int
				for m := 1; m < 512 && m < 2*cp; m++ {
					sel = append(sel, vc.SelOf(m*7%512, 9))
				}
				rnd := vc.NewHash(uint64(cp))
				sc := make([]float64, len(sel))
				for i := range sc {
					sc[i] = []float64{float64(i), -float64(i), 1, float64(i % 7), float64(rnd.N(cp))}[order]
				}
				c.Input(func() string { return fmt.Sprintf("capacity %d, order %d", cp, order) })
				runSA(c, cp, len(sel)+len(sel)/3, func(i int) (int, float64) { return i % len(sel), sc[i%len(sel)] }, sel)
			})
		}
	}
	c.Group("new items")
	c.Bound("all models with up to 8 features")
	for p := 0; p <= 8; p++ {
		c.Case(fmt.Sprintf("p%d", p), func() {
			for mask := 0; mask < 1<<uint(p); mask++ {
				it := fs.NewSAItem(vc.ModelOf(mask, p))
				c.Check(vc.EqInts(it.Selection, vc.SelOf(mask, p)) && len(it.Coeff) == len(it.Selection), "NewSAItem gives %v with %d coefficients for %b", it.Selection, len(it.Coeff), mask)
				c.Exec(1)
				c.State(1)
				c.Step(1)
			}
			c.Check(len(fs.NewSAItem(nil).Selection) == 0, "NewSAItem(nil)")
		})
	}
}

// weakOrders calls f with every sequence of n ranks in which all ranks from 0 to
// the largest occur
func weakOrders(n int, f func([]int)) {
	s := make([]int, n)
	used := make([]int, n)
	var rec func(i, max, missing int)
	rec = func(i, max, missing int) {
		if missing > n-i {
			return
		}
		if i == n {
			f(s)
			return
		}
		for v := 0; v < n; v++ {
			m, miss := max, missing
			if v > max {
				miss += v - max - 1
				m = v
			} else if used[v] == 0 {
				miss--
			}
			s[i] = v
			used[v]++
			rec(i+1, m, miss)
			used[v]--
		}
	}
	rec(0, -1, 0)
}

func runSA(c *vc.Ctx, cp, n int, op func(int) (int, float64), sels [][]int) *fs.SAScore {
	list := fs.NewSAScore(cp)
	total := 0
	for _, s := range sels {
		total = max(total, len(s))
	}
	coeffs, selections := make([]float64, 0, (n+1)*total), make([]int, 0, (n+1)*total)
	var state []saRef
	content := func() ([]saRef, string) {
		var r []saRef
		for _, it := range list.Items {
			key := -1
			for k, s := range sels {
				if vc.EqInts(s, it.Selection) {
					key = k
				}
			}
			if key < 0 || len(it.Coeff) != len(it.Selection) {
				return nil, fmt.Sprintf("item with selection %v and coefficients %v", it.Selection, it.Coeff)
			}
			for i, v := range it.Coeff {
				if v != it.Coeff[0]+float64(i) {
					return nil, fmt.Sprintf("item with selection %v and coefficients %v", it.Selection, it.Coeff)
				}
			}
			r = append(r, saRef{key, it.Score, it.Coeff[0]})
		}
		return r, ""
	}
	for i := 0; i < n; i++ {
		k, score := op(i)
		coeff := float64(1000*k + 10*i)
		// the items are windows of the same memory
		at, atSel := len(coeffs), len(selections)
		for j, v := range sels[k] {
			coeffs = append(coeffs, coeff+float64(j))
			selections = append(selections, v)
		}
		it := &fs.SAItem{Selection: selections[atSel:], Coeff: coeffs[at:], Score: score}
		listed := false
		for _, s := range state {
			listed = listed || s.key == k
		}
		c.Check(list.Exists(it) == listed, "Exists is %v for selection %v", !listed, sels[k])
		list.Insert(it)
		c.Step(1)
		got, msg := content()
		c.Check(msg == "", "%s", msg)
		neu := saRef{k, score, coeff}
		low := inf
		for _, s := range state {
			low = math.Min(low, s.score)
		}
		has := func(v []saRef, x saRef) bool {
			for _, y := range v {
				if y == x {
					return true
				}
			}
			return false
		}
		missing := []saRef{}
		for _, s := range state {
			if !has(got, s) {
				missing = append(missing, s)
			}
		}
		added := 0
		for _, g := range got {
			if !has(state, g) {
				c.Check(g == neu, "insertion of %v left %v", neu, got)
				added++
			}
		}
		what := func() string { return fmt.Sprintf("%v was inserted in %v, the list is now %v", neu, state, got) }
		switch {
		case listed:
			c.Check(len(missing) == 0 && added == 0 && len(got) == len(state), "%s", what())
		case len(state) < cp:
			c.Check(len(missing) == 0 && added == 1 && len(got) == len(state)+1, "%s", what())
		case score > low:
			c.Check(len(missing) == 1 && missing[0].score == low && added == 1 && len(got) == cp, "%s", what())
		default:
			c.Check(len(missing) == 0 && added == 0 && len(got) == len(state), "%s", what())
		}
		hi, lo := -inf, inf
		for _, g := range got {
			hi = math.Max(hi, g.score)
			lo = math.Min(lo, g.score)
		}
		for _, e := range []struct {
			it *fs.SAItem
			v  float64
			w  string
		}{{list.BestItem, hi, "best"}, {list.WorstItem, lo, "worst"}} {
			c.Check(e.it != nil && e.it.Score == e.v, "the %s item is %+v: %s", e.w, e.it, what())
			ok := false
			for _, o := range list.Items {
				ok = ok || vc.EqInts(o.Selection, e.it.Selection) && vc.SameBits(o.Coeff, e.it.Coeff) && o.Score == e.it.Score
			}
			c.Check(ok, "the %s item %+v is not in the list: %s", e.w, *e.it, what())
		}
		state = got
	}
	c.Exec(1)
	c.State(n)
	c.Seen(fmt.Sprintf("%d items", len(state)))
	return list
}

// -------------------------------------------------------------------- kappa

func k01(c *vc.Ctx) {
	tot := c.Pick(6, 8)
	c.Group("all pairs")
	c.Bound("all pairs of selections of up to %d features, in all orders for up to 4 elements, three orders for more", tot)
	for n := 1; n <= tot; n++ {
		for a := 0; a < 1<<uint(n); a++ {
			c.Case(fmt.Sprintf("tot%d-%b", n, a), func() {
				sa := vc.SelOf(a, n)
				for b := 0; b < 1<<uint(n); b++ {
					sb := vc.SelOf(b, n)
					c.Input(func() string { return fmt.Sprintf("%v %v of %d", sa, sb, n) })
					k := fs.CohenKappa(sa, sb, n)
					c.State(1)
					c.Exec(1)
					c.Step(2)
					inter, da, db := 0, 0, 0
					for i := 0; i < n; i++ {
						x, y := a>>uint(i)&1, b>>uint(i)&1
						inter += 1 - (x ^ y)
						da += x
						db += y
					}
					po := float64(inter) / float64(n)
					fn := float64(n)
					pe := float64(da)/fn*float64(db)/fn + float64(n-da)/fn*float64(n-db)/fn
					w := 1.0
					if pe < 1 {
						w = (po - pe) / (1 - pe)
					}
					c.Check(vc.Close(k, w, 1e-12), "kappa is %g instead of %g", k, w)
					c.Check(k <= 1, "kappa is %g", k)
					c.Check((k == 1) == (a == b), "kappa is %g", k)
					c.Check(fs.CohenKappa(sb, sa, n) == k, "kappa is not symmetric: %g and %g", k, fs.CohenKappa(sb, sa, n))
					if n <= 6 {
						orders := func(s []int) (r [][]int) {
							if len(s) <= 3 {
								permutations(s, func(p []int) { r = append(r, p) })
								return
							}
							rev := make([]int, len(s))
							for i, v := range s {
								rev[len(s)-1-i] = v
							}
							return [][]int{rev, append(append([]int{}, s[1:]...), s[0])}
						}
						for _, pa := range orders(sa) {
							for _, pb := range orders(sb) {
								ka := append([]int{}, pa...)
								kb := append([]int{}, pb...)
								c.Step(1)
								c.Check(fs.CohenKappa(pa, pb, n) == k, "kappa of %v and %v is %g, of %v and %v %g", pa, pb, fs.CohenKappa(pa, pb, n), sa, sb, k)
								c.Check(vc.EqInts(ka, pa) && vc.EqInts(kb, pb), "the selections were modified")
							}
						}
					}
				}
			})
		}
	}
	c.Group("repeated")
	c.Bound("all pairs of sequences of up to %d of 3 features, features may be repeated", c.Pick(3, 4))
	var seqs [][]int
	level := [][]int{{}}
	for l := 0; l <= c.Pick(3, 4); l++ {
		seqs = append(seqs, level...)
		var next [][]int
		for _, q := range level {
			for v := 0; v < 3; v++ {
				next = append(next, append(append([]int{}, q...), v))
			}
		}
		level = next
	}
	uniq := func(q []int) (r []int) {
		for v := 0; v < 3; v++ {
			for _, x := range q {
				if x == v {
					r = append(r, v)
					break
				}
			}
		}
		return
	}
	for _, a := range seqs {
		c.Case(fmt.Sprintf("rep-%v", a), func() {
			for _, b := range seqs {
				for n := 3; n <= 4; n++ {
					c.Input(func() string { return fmt.Sprintf("%v %v of %d", a, b, n) })
					ka := append([]int{}, a...)
					kb := append([]int{}, b...)
					k := fs.CohenKappa(a, b, n)
					w := fs.CohenKappa(uniq(a), uniq(b), n)
					c.State(1)
					c.Exec(1)
					c.Check(k == w, "kappa is %g, without the repetitions %g", k, w)
					c.Check(vc.EqInts(ka, a) && vc.EqInts(kb, b), "the selections were modified")
				}
			}
		})
	}
	c.Group("larger")
	c.Bound("20 to 60 features, selections of every size; 500 to 100000 features, selections of up to 281 features, also of nearly the same")
	for _, n := range []int{20, 33, 60, 500, 5000, 100000} {
		for x := 0; x <= n && x <= 300; x++ {
			if x > 60 && x%40 > 1 {
				continue
			}
			c.Case(fmt.Sprintf("tot%d-%d", n, x), func() {
				h := vc.NewHash(uint64(n*100 + x))
				for y := 0; y <= n && y <= max(60, x); y++ {
					if n > 60 && y != x && (x+y)%5 != 0 {
						continue
					}
					pick := func(m int) ([]int, map[int]bool) {
						s := map[int]bool{}
						var r []int
						for len(r) < m {
							v := h.N(n)
							if !s[v] {
								s[v] = true
								r = append(r, v)
							}
						}
						return r, s
					}
					sa, ma := pick(x)
					sb, mb := pick(y)
					if n > 60 && y > 0 && y <= x && (x+y)%2 == 0 {
						// mostly the same features
						mb = map[int]bool{}
						for k, v := range sa[:y] {
							if k == y/2 {
								v = sb[0]
							}
							if mb[v] || k < y/2 && v == sb[0] {
								v = sa[k]
							}
							sb[k] = v
							mb[v] = true
						}
						if len(mb) != y {
							continue
						}
					}
					inter := n - x - y
					for i := range ma {
						if mb[i] {
							inter += 2
						}
					}
					fn := float64(n)
					po := float64(inter) / fn
					pe := float64(x)/fn*float64(y)/fn + float64(n-x)/fn*float64(n-y)/fn
					w := 1.0
					if pe < 1 {
						w = (po - pe) / (1 - pe)
					}
					k := fs.CohenKappa(sa, sb, n)
					c.Check(math.Abs(k-w) <= 1e-12*(1+fn), "kappa of %v and %v of %d is %g instead of %g", sa, sb, n, k, w)
					c.Exec(1)
					c.State(1)
					c.Step(1)
				}
			})
		}
	}
	histories(c, histData(), histK01)
}

// -------------------------------------------------------------------- model

func m01(c *vc.Ctx) {
	c.Group("all sequences")
	n := c.Pick(4, 5)
	c.Bound("all sequences of %d set and flip operations for all sizes up to 5, and on all pairs of positions (3 operations) for sizes up to 20", n)
	run := func(size int, ops []int) {
		m := fs.NewModel(size)
		ref := make([]bool, size)
		verify := func() {
			for i := range ref {
				c.Check(m.Get(i) == ref[i], "size %d, operations %v: bit %d is %v", size, ops, i, m.Get(i))
			}
			b := m.ToBools()
			c.Check(len(b) == size, "size %d: ToBools has %d elements", size, len(b))
			for i := range ref {
				c.Check(b[i] == ref[i], "size %d, operations %v: element %d of ToBools is %v", size, ops, i, b[i])
			}
			for i := range b {
				b[i] = !b[i]
			}
		}
		verify()
		for _, o := range ops {
			i := o / 2
			if o%2 == 0 {
				m.Set(i)
				ref[i] = true
			} else {
				m.Flip(i)
				ref[i] = !ref[i]
			}
			verify()
			c.Step(1)
		}
		c.Exec(1)
		c.State(len(ops) + 1)
	}
	for size := 0; size <= 5; size++ {
		for l := 0; l <= n; l++ {
			if size == 0 && l > 0 {
				continue
			}
			c.Case(fmt.Sprintf("size%d-len%d", size, l), func() {
				sequences(max(1, 2*size), l, func(s []int) { run(size, s) })
			})
		}
	}
	for size := 6; size <= c.Pick(20, 34); size++ {
		c.Case(fmt.Sprintf("size%d", size), func() {
			for i := 0; i < size; i++ {
				for j := 0; j < size; j++ {
					sequences(2, 3, func(k []int) {
						run(size, []int{2*i + k[0], 2*j + k[1], 2*i + k[2]})
					})
				}
			}
		})
	}
	c.Group("all bit patterns")
	c.Bound("all patterns of up to %d bits, set in ascending and flipped in descending order; sizes up to 130 with all single bits", c.Pick(10, 16))
	for size := 0; size <= c.Pick(10, 16); size++ {
		c.Case(fmt.Sprintf("size%d", size), func() {
			for mask := 0; mask < 1<<uint(size); mask++ {
				m := fs.NewModel(size)
				for i := 0; i < size; i++ {
					if mask>>uint(i)&1 == 1 {
						m.Set(i)
					}
				}
				c.Check(vc.MaskOf(m.ToBools()) == mask, "size %d: %b became %v", size, mask, m.ToBools())
				for i := size - 1; i >= 0; i-- {
					m.Flip(i)
				}
				c.Check(vc.MaskOf(m.ToBools()) == (1<<uint(size)-1)&^mask, "size %d: flipping %b gives %v", size, mask, m.ToBools())
				c.Exec(1)
				c.State(1)
				c.Step(size)
			}
		})
	}
	for size := 17; size <= 130; size++ {
		c.Case(fmt.Sprintf("single%d", size), func() {
			for i := 0; i < size; i++ {
				run(size, []int{2 * i, 2*i + 1, 2*(size-1-i) + 1, 2 * i})
			}
		})
	}

	c.Group("large models")
	c.Bound("255 to 257, 511 to 513, 1023 to 1025, 4097 and 65535 to 65537 bits; every pair of positions next to powers of two, in sequences of 4 operations")
	for _, size := range []int{255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4097, 65535, 65536, 65537} {
		var pos []int
		for b := 1; b <= size; b *= 2 {
			for _, i := range []int{b - 1, b, b + 1} {
				if i < size && (len(pos) == 0 || i > pos[len(pos)-1]) {
					pos = append(pos, i)
				}
			}
		}
		if size-1 > pos[len(pos)-1] {
			pos = append(pos, size-1)
		}
		for k, i := range pos {
			c.Case(fmt.Sprintf("size%d-bit%d", size, i), func() {
				for l, j := range pos {
					if size > 5000 && (k+l)%16 > 0 && !c.Thorough() {
						continue
					}
					run(size, []int{2 * i, 2*j + 1, 2 * j, 2*i + 1})
				}
			})
		}
	}
}
