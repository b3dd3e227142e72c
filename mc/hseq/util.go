//go:build go1.22

package main

import (
	"fmt"
	"math"
	"sort"

	fs "github.com/davidkleiven/goselect/featselect"
	vc "github.com/davidkleiven/goselect/verifcommon"
	"gonum.org/v1/gonum/mat"
)

func init() {
	props["F05"] = f05
}

func boolStr(m []bool) string { return vc.BoolStr(m) }

func f05(c *vc.Ctx) {
	f05Views(c)
	f05Slices(c)
	f05Numbers(c)
	f05Sizes(c)
	histories(c, histData(), histF05)
}

// f05Views: design matrices, views, rearranging, conversions
func f05Views(c *vc.Ctx) {
	c.Group("design")
	pm := c.Pick(7, 10)
	c.Bound("every model of up to %d features, 1 to 3 rows, five kinds of matrix", pm)
	for p := 1; p <= pm; p++ {
		for rows := 1; rows <= 3; rows++ {
			c.Case(fmt.Sprintf("%d-%d", p, rows), func() {
				m := vc.NewMat(rows, p)
				for i := range m.D {
					m.D[i] = float64(i + 1)
				}
				for mask := 0; mask < 1<<p; mask++ {
					model := vc.ModelOf(mask, p)
					sel := vc.SelOf(mask, p)
					c.Input(func() string { return fmt.Sprintf("%d rows, model %s", rows, boolStr(model)) })
					mm := append([]bool{}, model...)
					c.Check(fs.NumFeatures(mm) == len(sel), "NumFeatures %d", fs.NumFeatures(mm))
					c.Check(vc.EqInts(fs.SelectedFeatures(mm), sel), "SelectedFeatures %v", fs.SelectedFeatures(mm))
					back := fs.Selected2Model(sel, p)
					c.Check(boolStr(back) == boolStr(model), "Selected2Model %v", back)
					rev := append([]int{}, sel...)
					sort.Sort(sort.Reverse(sort.IntSlice(rev)))
					c.Check(boolStr(fs.Selected2Model(rev, p)) == boolStr(model), "Selected2Model of %v", rev)
					co := make([]float64, len(sel))
					for i := range co {
						co[i] = float64(i) + 0.5
					}
					full := fs.FullCoeffVector(p, sel, co)
					c.Check(len(full) == p, "FullCoeffVector has %d elements", len(full))
					for j := range full {
						want := 0.0
						for i, v := range sel {
							if v == j {
								want = co[i]
							}
						}
						c.Check(full[j] == want, "FullCoeffVector %v for selection %v", full, sel)
					}
					c.Step(5)
					c.State(1)
					c.Exec(1)
					d := m.Dense()
					wide := mat.NewDense(rows+2, p+3, nil)
					for i := 0; i < rows; i++ {
						for j := 0; j < p; j++ {
							wide.Set(i+1, j+2, m.At(i, j))
						}
					}
					id := make([]int, p)
					for i := range id {
						id[i] = i
					}
					view := fs.NewIndexedColView(d, id)
					forms := []mat.Matrix{d, wide.Slice(1, rows+1, 2, p+2), transpose(m).Dense().T(), &view, fs.GetDesignMatrix(fs.Selected2Model(id, p), d)}
					if mask == 0 {
						c.Check(panics(func() { fs.GetDesignMatrix(mm, d) }), "no panic for a model without features")
						continue
					}
					for f, x := range forms {
						g := fs.GetDesignMatrix(mm, x)
						r, k := g.Dims()
						c.Check(r == rows && k == len(sel), "form %d: the design matrix is %dx%d", f, r, k)
						for i := 0; i < r; i++ {
							for j := 0; j < k; j++ {
								c.Check(g.At(i, j) == m.At(i, sel[j]), "form %d: element %d %d of the design matrix is %g", f, i, j, g.At(i, j))
							}
						}
						c.Step(1)
					}
					g := fs.GetDesignMatrix(mm, d).(mat.Mutable)
					g.Set(0, 0, -77)
					c.Check(vc.SameBits(vc.FromDense(d).D, m.D), "the design matrix shares memory with X")
					c.Check(boolStr(mm) == boolStr(model), "the model changed")
				}
			})
		}
	}

	c.Group("views")
	c.Bound("every sequence of up to 4 columns out of 4 (also repeated), every sequence of up to 4 rows out of 3")
	for n := 0; n <= 4; n++ {
		c.Case(fmt.Sprint(n), func() {
			m := vc.NewMat(3, 4)
			for i := range m.D {
				m.D[i] = float64(i*i) + 1
			}
			x := m.Dense()
			sequences(4, n, func(s []int) {
				idx := append([]int{}, s...)
				c.Input(func() string { return fmt.Sprint("columns ", idx) })
				v := fs.NewIndexedColView(x, idx)
				r, k := v.Dims()
				c.Check(r == 3 && k == n, "the view is %dx%d", r, k)
				t := v.T()
				tr, tk := t.Dims()
				c.Check(tr == n && tk == 3, "the transposed view is %dx%d", tr, tk)
				for i := 0; i < 3; i++ {
					for j := 0; j < n; j++ {
						c.Check(v.At(i, j) == m.At(i, idx[j]), "element %d %d is %g", i, j, v.At(i, j))
						c.Check(t.At(j, i) == m.At(i, idx[j]), "transposed element %d %d is %g", j, i, t.At(j, i))
					}
				}
				if n > 0 {
					// as an operand
					var prod mat.Dense
					prod.Mul(v.T(), &v)
					for a := 0; a < n; a++ {
						for b := 0; b < n; b++ {
							c.Check(vc.Close(prod.At(a, b), vc.Dot(m.Col(idx[a]), m.Col(idx[b])), 1e-12), "product of the view is wrong")
						}
					}
					vv := fs.NewIndexedColView(&v, []int{n - 1, 0})
					c.Check(vv.At(2, 0) == m.At(2, idx[n-1]) && vv.At(1, 1) == m.At(1, idx[0]), "a view of a view is wrong")
				}
				c.State(1)
				c.Exec(1)
				c.Step(2)
			})
			sequences(3, n, func(s []int) {
				idx := append([]int{}, s...)
				c.Input(func() string { return fmt.Sprint("rows ", idx) })
				for q := 0; q < 2; q++ {
					var src mat.Vector = x.ColView(2)
					if q == 1 {
						src = fs.NewSliceVec(m.Col(2))
					}
					v := fs.NewIndexedColVecView(src, idx)
					r, k := v.Dims()
					c.Check(v.Len() == n && r == n && k == 1, "length %d, dimensions %dx%d", v.Len(), r, k)
					for i := range idx {
						c.Check(v.AtVec(i) == m.At(idx[i], 2) && v.At(i, 0) == v.AtVec(i) && v.T().At(0, i) == v.AtVec(i), "element %d is %g", i, v.AtVec(i))
					}
					if n > 0 {
						c.Check(vc.Close(mat.Dot(v, v), vc.Dot(colAt(m, 2, idx), colAt(m, 2, idx)), 1e-12), "inner product is wrong")
					}
				}
				c.State(1)
				c.Exec(1)
				c.Step(2)
			})
			sv := m.Col(1)
			s := fs.NewSliceVec(sv[:min(n, 3)])
			r, k := s.Dims()
			c.Check(s.Len() == min(n, 3) && r == s.Len() && k == 1, "SliceVec length %d, dimensions %dx%d", s.Len(), r, k)
			for i := 0; i < s.Len(); i++ {
				sv[i] = -5 // no copy is made
				c.Check(s.AtVec(i) == -5 && s.At(i, 0) == -5 && s.T().At(0, i) == -5, "SliceVec element %d is %g", i, s.AtVec(i))
			}
		})
	}

	c.Group("rearrange")
	rm := c.Pick(5, 6)
	c.Bound("every sequence of distinct columns out of up to %d, filled up with -1", rm)
	for p := 1; p <= rm; p++ {
		for mask := 0; mask < 1<<p; mask++ {
			c.Case(fmt.Sprintf("%d-%d", p, mask), func() {
				permutations(vc.SelOf(mask, p), func(o []int) {
					for rows := 1; rows <= 2; rows++ {
						for pad := 0; pad <= p-len(o); pad++ {
							m := vc.NewMat(rows, p)
							for i := range m.D {
								m.D[i] = float64(i) + 1
							}
							order := append([]int{}, o...)
							for k := 0; k < pad; k++ {
								order = append(order, -1)
							}
							want := append([]int{}, o...)
							for j := 0; j < p; j++ {
								if !fs.ExistInt(o, j) {
									want = append(want, j)
								}
							}
							c.Input(func() string { return fmt.Sprintf("%d rows, %d columns, order %v", rows, p, order) })
							x := m.Dense()
							oo := append([]int{}, order...)
							g := vc.FromDense(fs.RearrangeDense(x, oo))
							c.Check(g.R == rows && g.C == p, "the result is %dx%d", g.R, g.C)
							for j, v := range want {
								c.Check(vc.SameBits(g.Col(j), m.Col(v)), "column %d is %v instead of %v", j, g.Col(j), m.Col(v))
							}
							c.Check(vc.SameBits(vc.FromDense(x).D, m.D) && vc.EqInts(oo, order), "arguments changed")
							c.State(1)
							c.Exec(1)
							c.Step(1)
						}
					}
				})
			})
		}
	}
}

func colAt(m *vc.Mat, j int, rows []int) []float64 {
	var r []float64
	for _, i := range rows {
		r = append(r, m.At(i, j))
	}
	return r
}

// f05Slices: functions of slices of integers and numbers
func f05Slices(c *vc.Ctx) {
	c.Group("integers")
	lm := c.Pick(5, 7)
	vals := []int{0, 3, -2, 7}
	c.Bound("every sequence of up to %d of the values %v", lm, vals)
	get := func(s []int) []int {
		r := make([]int, len(s))
		for i, v := range s {
			r[i] = vals[v]
		}
		return r
	}
	for n := 0; n <= lm; n++ {
		c.Case(fmt.Sprint(n), func() {
			sequences(len(vals), n, func(s []int) {
				a := get(s)
				orig := append([]int{}, a...)
				c.Input(func() string { return fmt.Sprint(orig) })
				sum := 0
				for _, v := range orig {
					sum += v
				}
				c.Check(fs.Sum(a) == sum, "Sum is %d", fs.Sum(a))
				for _, v := range append(vals, 5) {
					count := 0
					for _, x := range orig {
						if x == v {
							count++
						}
					}
					c.Check(fs.ExistInt(a, v) == (count > 0), "ExistInt(%d) is %v", v, fs.ExistInt(a, v))
					c.Check(fs.All(a, v) == (count == n), "All(%d) is %v", v, fs.All(a, v))
				}
				if n > 0 {
					srt := vc.SortedInts(orig)
					c.Check(fs.MaxInt(a) == srt[n-1], "MaxInt is %d", fs.MaxInt(a))
					c.Check(fs.MinInt(a) == srt[0], "MinInt is %d", fs.MinInt(a))
					for _, off := range []int{1 << 8, 1 << 16, 1 << 20, 1 << 30, -1 << 20} {
						far := make([]int, n)
						for i := range far {
							far[i] = a[i] + off
						}
						lo, hi := fs.MinInt(far), fs.MaxInt(far)
						c.Check(lo == srt[0]+off && hi == srt[n-1]+off, "the smallest of %v is %d, the largest %d", far, lo, hi)
					}
				}
				c.Check(vc.EqInts(a, orig), "argument changed to %v", a)
				c.State(1)
				c.Exec(1)
				c.Step(5)
			})
		})
	}
	c.Group("pairs")
	pm := c.Pick(4, 5)
	c.Bound("every pair of sequences of up to %d of the values %v", pm, vals)
	for n := 0; n <= pm; n++ {
		for k := 0; k <= pm; k++ {
			c.Case(fmt.Sprintf("%d-%d", n, k), func() {
				sequences(len(vals), n+k, func(s []int) {
					a, b := get(s[:n]), get(s[n:])
					c.Input(func() string { return fmt.Sprint(get(s[:n]), get(s[n:])) })
					eq := n == k
					for i := 0; eq && i < n; i++ {
						eq = a[i] == b[i]
					}
					c.Check(fs.EqualInt(a, b) == eq, "EqualInt is %v", fs.EqualInt(a, b))
					c.Check(vc.EqInts(a, get(s[:n])) && vc.EqInts(b, get(s[n:])), "arguments changed")
					u := fs.UnionInt(a, b)
					// the first one as it is, then the new ones of the second one
					want := get(s[:n])
					for _, v := range get(s[n:]) {
						found := false
						for _, w := range want {
							found = found || w == v
						}
						if !found {
							want = append(want, v)
						}
					}
					c.Check(vc.EqInts(u, want), "UnionInt is %v instead of %v", u, want)
					c.Check(vc.EqInts(b, get(s[n:])), "UnionInt changed its second argument")
					c.State(1)
					c.Exec(1)
					c.Step(2)
				})
			})
		}
	}
	c.Group("numbers")
	fm := c.Pick(5, 6)
	fv := []float64{0, -1.5, 2, 1e300, -1e-300}
	c.Bound("every sequence of up to %d of the values %v, and up to 40 and 63 to 2049 descending, ascending, equal and mixed values", fm, fv)
	one := func(orig []float64) {
		a := vc.Clone(orig)
		n := len(a)
		c.Input(func() string { return fmt.Sprint(orig) })
		idx := fs.Argsort(a)
		c.Check(len(idx) == n, "Argsort gives %d indices", len(idx))
		seen := make([]bool, n)
		for i, v := range idx {
			c.Check(v >= 0 && v < n && !seen[v], "Argsort is no permutation: %v", idx)
			seen[v] = true
			c.Check(i == 0 || orig[idx[i-1]] <= orig[v], "Argsort is not in order: %v", idx)
		}
		if n > 0 {
			imin, imax := fs.Argmin(a), fs.Argmax(a)
			mn := fs.MinFloat(a)
			c.Check(imin >= 0 && imin < n && imax >= 0 && imax < n, "Argmin %d Argmax %d", imin, imax)
			for _, v := range orig {
				c.Check(orig[imin] <= v, "Argmin is %d", imin)
				c.Check(orig[imax] >= v, "Argmax is %d", imax)
				c.Check(mn <= v, "MinFloat is %g", mn)
			}
			c.Check(mn == orig[imin], "MinFloat is %g", mn)
			mu, ms := 0.0, 0.0
			for _, v := range orig {
				mu += v / float64(n)
				ms = math.Max(ms, math.Abs(v))
			}
			c.Check(math.Abs(fs.Mean(a)-mu) <= 1e-12*ms, "Mean is %g instead of %g", fs.Mean(a), mu)
			if ms < 1e100 {
				c.Check(vc.Close(fs.Std(a), vc.RefStd(orig), 1e-12), "Std is %g instead of %g", fs.Std(a), vc.RefStd(orig))
			}
		}
		c.Check(vc.SameBits(a, orig), "argument changed")
		b := fs.Abs(a) // in place
		for i := range orig {
			c.Check(b[i] == math.Abs(orig[i]) && a[i] == b[i], "Abs is %v", b)
		}
		c.State(1)
		c.Exec(1)
		c.Step(6)
	}
	for n := 0; n <= fm; n++ {
		for first := range fv {
			c.Case(fmt.Sprintf("%d-%d", n, first), func() {
				if n == 0 {
					one(nil)
					return
				}
				sequences(len(fv), n-1, func(s []int) {
					a := []float64{fv[first]}
					for _, v := range s {
						a = append(a, fv[v])
					}
					one(a)
				})
			})
		}
	}
	c.Case("long", func() {
		var lens []int
		for n := 6; n <= 40; n++ {
			lens = append(lens, n)
		}
		for _, n := range append(lens, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 513, 1000, 1025, 2049) {
			h := vc.NewHash(uint64(n))
			for k := 0; k < 6; k++ {
				a := make([]float64, n)
				for i := range a {
					switch k {
					case 0:
						a[i] = float64(i)
					case 1:
						a[i] = -float64(i)
					case 2:
						a[i] = 3
					case 3:
						a[i] = float64(i % 4)
					case 4:
						a[i] = float64(h.N(n))
					default:
						a[i] = h.F()
					}
				}
				one(a)
			}
		}
	})
}

// f05Numbers: log spaced values, counters, normalisation
func f05Numbers(c *vc.Ctx) {
	c.Group("logspace")
	ends := []float64{1e-12, 1e-5, 0.5, 1, 3, 1e6}
	c.Bound("every pair of %v as ends, 0 to 60, 63 to 65, 100, 127 to 129, 256, 257 and 1025 values", ends)
	for _, a := range ends {
		for _, b := range ends {
			c.Case(fmt.Sprintf("%g-%g", a, b), func() {
				var lens []int
				for n := 0; n <= 60; n++ {
					lens = append(lens, n)
				}
				for _, n := range append(lens, 63, 64, 65, 100, 127, 128, 129, 256, 257, 1025) {
					c.Input(func() string { return fmt.Sprintf("%d values from %g to %g", n, a, b) })
					v := fs.Logspace(a, b, n)
					c.Check(len(v) == n, "%d values instead of %d", len(v), n)
					for i := range v {
						want := a
						if n > 1 {
							want = math.Exp(math.Log(a) + float64(i)/float64(n-1)*(math.Log(b)-math.Log(a)))
						}
						c.Check(math.Abs(v[i]-want) <= 1e-10*want, "value %d is %g instead of %g", i, v[i], want)
					}
					c.State(1)
					c.Exec(1)
					c.Step(1)
				}
			})
		}
	}
	c.Group("log2")
	c.Bound("0 to 80 added to 0 to 80 twice, and numbers up to 5000")
	c.Case("all", func() {
		num := func(i int) int {
			if i <= 80 {
				return i
			}
			return 80 + (i-80)*60
		}
		for i := 0; i < 160; i++ {
			for j := 0; j < 160; j++ {
				a, b := num(i), num(j)
				c.Input(func() string { return fmt.Sprintf("2^%d + 2^%d", a, b) })
				lo, hi := min(a, b), max(a, b)
				want := float64(hi) + math.Log1p(math.Exp2(float64(lo-hi)))/math.Ln2
				got := fs.NewLog2Pruned(float64(a), b)
				c.Check(math.Abs(got-want) <= 1e-12*(1+want), "%g instead of %g", got, want)
				// a sum of three in any order
				for _, k := range []int{0, 5, b, a} {
					s1 := fs.NewLog2Pruned(got, k)
					s2 := fs.NewLog2Pruned(fs.NewLog2Pruned(float64(k), a), b)
					c.Check(math.Abs(s1-s2) <= 1e-9*(1+want), "adding 2^%d: %g or %g", k, s1, s2)
				}
				c.State(1)
				c.Exec(1)
				c.Step(9)
			}
		}
	})
	c.Group("normalise")
	nm := c.Pick(3, 4)
	c.Bound("every matrix with up to %dx3 elements out of 4 values whose columns, respectively rows, are not constant", nm)
	for n := 2; n <= nm; n++ {
		for p := 1; p <= 3; p++ {
			for first := 0; first < 4; first++ {
				c.Case(fmt.Sprintf("%d-%d-%d", n, p, first), func() {
					al := []float64{0, 1, -3, 1000}
					if n*p > 9 {
						al = al[:3]
					}
					smallMats(al, n, p, func(m *vc.Mat) {
						if first >= len(al) || m.D[0] != al[first] {
							return
						}
						check := func(what string, got, orig []float64) {
							c.Input(func() string { return fmt.Sprintf("X=%v", m) })
							mu, sd := vc.RefMean(orig), vc.RefStd(orig)
							for i := range orig {
								c.Check(vc.Close(got[i], (orig[i]-mu)/sd, 1e-10), "%s: %v becomes %v", what, orig, got)
							}
						}
						constant := func(v []float64) bool { return vc.RefStd(v) == 0 }
						byCol, byRow := true, p > 1
						for _, v := range colsOf(m) {
							byCol = byCol && !constant(v)
						}
						for _, v := range rowsOf(m) {
							byRow = byRow && !constant(v)
						}
						if byCol {
							x := m.Dense()
							fs.NormalizeCols(x)
							g := vc.FromDense(x)
							for j := range colsOf(m) {
								check("column", g.Col(j), m.Col(j))
								a := m.Col(j)
								fs.NormalizeArray(a)
								check("array", a, m.Col(j))
							}
							c.Step(1)
						}
						if byRow {
							x := m.Dense()
							fs.NormalizeRows(x)
							g := vc.FromDense(x)
							for i, r := range rowsOf(m) {
								check("row", rowsOf(g)[i], r)
							}
							c.Step(1)
						}
						c.State(1)
						c.Exec(1)
					})
				})
			}
		}
	}
}
