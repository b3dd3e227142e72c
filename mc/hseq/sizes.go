//go:build go1.22

package main

import (
	"fmt"

	fs "github.com/davidkleiven/goselect/featselect"
	vc "github.com/davidkleiven/goselect/verifcommon"
	"gonum.org/v1/gonum/mat"
)

// largeSizes are around the powers of two at which an implementation might change its way
var largeSizes = []int{31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 513, 1025}

// f05Sizes: matrices, views and lists that are long in one direction
func f05Sizes(c *vc.Ctx) {
	c.Group("large sizes")
	c.Bound("matrices with 31 to 1025 rows and 3 columns, or 3 rows and 31 to 1025 columns, 6 models each; views, rearranging, products; lists of as many integers")
	for _, size := range largeSizes {
		for dir := 0; dir < 2; dir++ {
			rows, p := size, 3
			if dir == 1 {
				rows, p = 3, size
			}
			for pat := 0; pat < 6; pat++ {
				c.Case(fmt.Sprintf("%dx%d-%d", rows, p, pat), func() {
					h := vc.NewHash(uint64(size))
					m := vc.NewMat(rows, p)
					for i := range m.D {
						m.D[i] = float64(i + 1)
					}
					model := make([]bool, p)
					sel := []int{}
					for j := range model {
						model[j] = []bool{true, j == 0, j == p-1, j%2 == 0, j != p/2, h.N(3) > 0 || j == 1}[pat]
						if model[j] {
							sel = append(sel, j)
						}
					}
					c.Input(func() string { return fmt.Sprintf("%d rows, model %s", rows, boolStr(model)) })
					c.Check(fs.NumFeatures(model) == len(sel), "NumFeatures %d", fs.NumFeatures(model))
					c.Check(vc.EqInts(fs.SelectedFeatures(model), sel), "SelectedFeatures %v", fs.SelectedFeatures(model))
					c.Check(boolStr(fs.Selected2Model(sel, p)) == boolStr(model), "Selected2Model %v", fs.Selected2Model(sel, p))
					co := make([]float64, len(sel))
					want := make([]float64, p)
					for i := range co {
						co[i] = float64(i) + 0.5
						want[sel[i]] = co[i]
					}
					c.Check(vc.SameBits(fs.FullCoeffVector(p, sel, co), want), "FullCoeffVector %v", fs.FullCoeffVector(p, sel, co))
					d := m.Dense()
					g := vc.FromDense(fs.GetDesignMatrix(model, d))
					view := fs.NewIndexedColView(d, sel)
					v := vc.FromDense(&view)
					c.Check(g.R == rows && g.C == len(sel) && v.R == rows && v.C == len(sel), "%dx%d and %dx%d", g.R, g.C, v.R, v.C)
					for i := 0; i < rows; i++ {
						for k, j := range sel {
							c.Check(g.At(i, k) == m.At(i, j) && v.At(i, k) == m.At(i, j), "element %d %d is %g in the design matrix, %g in the view", i, k, g.At(i, k), v.At(i, k))
						}
					}
					order := append([]int{}, sel...)
					for i := 0; i < len(order)/2; i++ {
						order[i], order[len(order)-1-i] = order[len(order)-1-i], order[i]
					}
					all := append([]int{}, order...)
					for j := range model {
						if !model[j] {
							all = append(all, j)
						}
					}
					r := vc.FromDense(fs.RearrangeDense(d, order))
					for k, j := range all {
						for i := 0; i < rows; i++ {
							c.Check(r.At(i, k) == m.At(i, j), "column %d of the rearranged matrix is not column %d", k, j)
						}
					}
					// rows of a vector
					vec := mat.NewVecDense(p, nil)
					for j := 0; j < p; j++ {
						vec.SetVec(j, float64(j)-1.5)
					}
					rv := fs.NewIndexedColVecView(vec, sel)
					c.Check(rv.Len() == len(sel), "%d rows", rv.Len())
					for k, j := range sel {
						c.Check(rv.AtVec(k) == vec.AtVec(j), "element %d of the view is %g", k, rv.AtVec(k))
					}
					prod := fs.MulSlice(d, want)
					for i := 0; i < rows; i++ {
						w := vc.Dot(m.D[i*p:(i+1)*p], want)
						c.Check(vc.Close(prod[i], w, 1e-12), "element %d of the product is %g instead of %g", i, prod[i], w)
					}
					// lists
					c.Check(fs.Sum(sel) == sumOf(sel) && fs.MaxInt(sel) == sel[len(sel)-1] && fs.MinInt(order) == sel[0], "Sum %d MaxInt %d MinInt %d", fs.Sum(sel), fs.MaxInt(sel), fs.MinInt(order))
					for j := range model {
						c.Check(fs.ExistInt(order, j) == model[j], "ExistInt(%d) is %v", j, fs.ExistInt(order, j))
					}
					ones := make([]int, p)
					for _, j := range []int{0, p / 2, p - 1} {
						c.Check(fs.All(ones, 0), "All is false")
						ones[j] = 1
						c.Check(!fs.All(ones, 0), "All is true")
						c.Check(!fs.EqualInt(ones, make([]int, p)), "EqualInt is true")
						ones[j] = 0
						c.Check(fs.EqualInt(ones, make([]int, p)), "EqualInt is false")
					}
					rest := all[len(sel):]
					u := fs.UnionInt(append([]int{}, sel...), append(append([]int{}, order...), rest...))
					c.Check(vc.EqInts(u, append(append([]int{}, sel...), rest...)), "UnionInt is %v", u)
					c.State(1)
					c.Exec(1)
					c.Step(12)
				})
			}
		}
	}
}

func sumOf(v []int) (s int) {
	for _, x := range v {
		s += x
	}
	return
}

// tall and wide are shapes beyond the sizes of the other groups; the columns of a tall
// one are independent
var tall = [][2]int{{257, 4}, {300, 33}, {600, 65}, {1100, 3}, {2100, 5}, {400, 40}}

func l01Sizes(c *vc.Ctx) {
	c.Group("large sizes")
	c.Bound("datasets with 257 to 2100 rows and up to 65 features; 5 regularisations, 2 penalties, 2 covariances, 2 start vectors")
	for seed := uint64(0); seed < uint64(c.Pick(1, 6)); seed++ {
		for _, k := range []int{vc.KindRandom, vc.KindSparse, vc.KindBias, vc.KindScaled} {
			for _, sh := range tall {
				d := vc.Structured(k, sh[0], sh[1], seed+4100)
				c.Case(d.Name, func() { descent(c, d, []float64{0.02, 0.2}, []int{0, 3}, []float64{0, 0.3}, []bool{false, true}) })
			}
		}
	}
}

func l03Sizes(c *vc.Ctx) {
	c.Group("large sizes")
	c.Bound("datasets with 257 to 2100 rows and up to 65 features, 2 smallest regularisations")
	for seed := uint64(0); seed < uint64(c.Pick(2, 12)); seed++ {
		for _, k := range []int{vc.KindRandom, vc.KindSparse, vc.KindBias, vc.KindScaled} {
			for _, sh := range tall {
				d := vc.Structured(k, sh[0], sh[1], seed+4100)
				if !vc.Normalise(d.X, d.Y).OK {
					continue
				}
				c.Case(d.Name, func() {
					for _, rel := range []float64{1e-4, 0.2} {
						c.Input(func() string {
							return fmt.Sprintf("structured dataset %s, smallest regularisation %g of the largest correlation", d.Name, rel)
						})
						larsCheck(c, d, rel)
					}
				})
			}
		}
	}
}

func l04Sizes(c *vc.Ctx) {
	c.Group("large sizes")
	c.Bound("datasets with up to 2100 rows or 1025 features; empty, full, single and periodic selections")
	for _, k := range []int{vc.KindRandom, vc.KindSparse, vc.KindBias, vc.KindScaled, vc.KindBig} {
		for _, sh := range append([][2]int{{9, 33}, {5, 65}, {12, 129}, {6, 300}, {4, 1025}}, tall...) {
			d := vc.Structured(k, sh[0], sh[1], 4200)
			p := sh[1]
			sels := [][]int{{}}
			for step := 1; step <= p; step = step*2 + 1 {
				var a, b []int
				for j := 0; j < p; j += step {
					a = append(a, j)
				}
				for j := 1; j < p; j += step {
					b = append(b, j)
				}
				sels = append(sels, a, b, []int{p - 1}, []int{p - 1 - (step-1)%p})
			}
			c.Case(d.Name, func() {
				c.Input(func() string { return "structured dataset " + d.Name })
				normalised(c, d, sels)
			})
		}
	}
}

func l05Sizes(c *vc.Ctx) {
	c.Group("large sizes")
	c.Bound("datasets with up to 1100 rows or 65 features, 3 keep fractions, 2 smallest regularisations, 3 target columns")
	for seed := uint64(0); seed < uint64(c.Pick(1, 6)); seed++ {
		for _, k := range []int{vc.KindRandom, vc.KindSparse, vc.KindBias, vc.KindScaled} {
			for _, sh := range [][2]int{{300, 33}, {600, 65}, {1100, 3}, {400, 20}} {
				d := vc.Structured(k, sh[0], sh[1], seed+4300)
				for i, keep := range []float64{0.9, 0.6, 0.35} {
					for _, rel := range []float64{1e-4, 0.1} {
						target := []int{sh[1], 0, sh[1] / 2}[i]
						c.Case(fmt.Sprintf("%s-keep%g-%g", d.Name, keep, rel), func() {
							c.Input(func() string {
								return fmt.Sprintf("structured dataset %s target column %d keep %g smallest regularisation %g of the largest correlation", d.Name, target, keep, rel)
							})
							nested(c, d, target, rel, keep)
						})
					}
				}
			}
		}
	}
}

func l06Sizes(c *vc.Ctx) {
	c.Group("large sizes")
	c.Bound("paths of 1 to 300 nodes over 33 to 300 features that grow and shrink")
	for seed := uint64(0); seed < uint64(c.Pick(24, 240)); seed++ {
		c.Case(fmt.Sprint(seed), func() {
			h := vc.NewHash(seed + 50)
			p := []int{33, 64, 65, 130, 300}[h.N(5)]
			nodes := []int{70, 130, 300, 1, 65}[seed%5]
			d := vc.Structured(vc.KindSparse, 10+int(seed%3)*45, p, seed)
			in := make([]bool, p)
			var sels [][]int
			for n := 0; n < nodes; n++ {
				for t := 0; t < 1+n%2*(1+p/nodes); t++ {
					j := h.N(p)
					in[j] = !in[j]
				}
				sel := []int{}
				for j, b := range in {
					if b {
						sel = append(sel, j)
					}
				}
				if seed%2 == 1 {
					sel = shuffled(sel, seed+uint64(n))
				}
				sels = append(sels, sel)
			}
			c.Input(func() string { return fmt.Sprintf("selections %v, structured dataset %s", sels, d.Name) })
			queryPath(c, d, sels, true)
		})
	}
}
