//go:build go1.22

package main

import (
	"fmt"

	fs "github.com/davidkleiven/goselect/featselect"
	vc "github.com/davidkleiven/goselect/verifcommon"
	"gonum.org/v1/gonum/mat"
)

// histOp calls something with a dataset; reader looks at what came back
type histOp struct {
	name string
	f    func(x *mat.Dense, y []float64) (reader func() []float64)
}

// histories calls the operations in every order, with a matrix and a target that
// are the same objects all the time but have the contents of one of the versions.
// Each result has to be the one for new objects with these contents, and it must
// not change later.
func histories(c *vc.Ctx, ds []*vc.Data, mk func() []histOp) {
	c.Group("histories")
	ops := mk()
	length := 2
	for l, k := 3, 7*len(ops); l <= 5 && power(k, l) <= c.Pick(45000, 600000); l++ {
		length = l
	}
	names := make([]string, len(ops))
	for i, o := range ops {
		names[i] = o.name
	}
	c.Bound("every sequence of %d calls out of %v on the same matrix and target whose contents are one of up to 7 versions at each call", length, names)
	for di, d := range ds {
		vers := vc.Versions(d)
		type key struct{ op, v int }
		fresh := map[key][]float64{}
		want := func(op, v int) []float64 {
			r, ok := fresh[key{op, v}]
			if !ok {
				r = vc.Clone(mk()[op].f(vers[v].X.Dense(), vc.Clone(vers[v].Y))())
				fresh[key{op, v}] = r
			}
			return r
		}
		k := len(ops) * len(vers)
		for first := 0; first < k; first++ {
			c.Case(fmt.Sprintf("%d-%s-%s", di, ops[first/len(vers)].name, vers[first%len(vers)].Name), func() {
				sequences(k, length-1, func(s []int) {
					c.Input(func() string {
						t := fmt.Sprintf("%v; calls", d)
						for _, q := range append([]int{first}, s...) {
							t += fmt.Sprintf(" %s(%s)", ops[q/len(vers)].name, vers[q%len(vers)].Name)
						}
						return t
					})
					box := &vc.Box{}
					ops := mk()
					readers := make([]func() []float64, length)
					got := make([][]float64, length)
					for i := 0; i < length; i++ {
						q := first
						if i > 0 {
							q = s[i-1]
						}
						op, v := q/len(vers), vers[q%len(vers)]
						w := want(op, q%len(vers))
						x, y := box.Fill(v)
						readers[i] = ops[op].f(x, y)
						got[i] = vc.Clone(readers[i]())
						c.Check(vc.CloseSlices(got[i], w, 1e-9), "call %d gives %v; with new objects it gives %v", i+1, got[i], w)
					}
					for i := range readers {
						c.Check(vc.SameBits(readers[i](), got[i]), "the result of call %d changed from %v to %v", i+1, got[i], readers[i]())
					}
					c.Exec(length)
					c.Step(length)
					c.State(1)
				})
			})
		}
	}
}

func denseReader(m mat.Matrix) func() []float64 {
	return func() []float64 {
		r := vc.FromDense(m)
		return append([]float64{float64(r.R), float64(r.C)}, r.D...)
	}
}

func sliceReader(v []float64) func() []float64 { return func() []float64 { return v } }

func intReader(v []int) func() []float64 {
	return func() []float64 {
		r := make([]float64, len(v))
		for i := range v {
			r[i] = float64(v[i])
		}
		return r
	}
}

// modelFrom makes a model of what is in the target
func modelFrom(y []float64, p int) []bool {
	m := make([]bool, p)
	for j := range m {
		m[j] = y[j%len(y)] > 0
	}
	m[p/2] = true
	return m
}

func pathReader(path []*fs.LassoLarsNode) func() []float64 {
	return func() []float64 {
		var r []float64
		for _, n := range path {
			r = append(r, n.Lamb, float64(len(n.Selection)))
			for i, s := range n.Selection {
				r = append(r, float64(s), n.Coeff[i])
			}
		}
		return r
	}
}

func histData() []*vc.Data {
	return []*vc.Data{
		vc.Structured(vc.KindRandom, 7, 3, 31),
		vc.Structured(vc.KindSparse, 9, 4, 32),
		vc.Structured(vc.KindRandom, 40, 5, 33),
	}
}

// shared returns a function that overwrites one and the same value
func shared[T any]() func(v *T) *T {
	p := new(T)
	return func(v *T) *T {
		*p = *v
		return p
	}
}

func histF01() []histOp {
	return []histOp{
		{"Fit", func(x *mat.Dense, y []float64) func() []float64 { return sliceReader(fs.Fit(x, y)) }},
		{"Predict", func(x *mat.Dense, y []float64) func() []float64 {
			_, p := x.Dims()
			return sliceReader(fs.Predict(x, y[:p]))
		}},
		{"Rss", func(x *mat.Dense, y []float64) func() []float64 {
			_, p := x.Dims()
			return sliceReader([]float64{fs.Rss(x, y[len(y)-p:], y)})
		}},
		{"PseudoInverse", func(x *mat.Dense, y []float64) func() []float64 {
			var s mat.SVD
			s.Factorize(x, mat.SVDThin)
			return denseReader(fs.PseudoInverse(&s, 1e-6))
		}},
		{"PseudoInverseXTX", func(x *mat.Dense, y []float64) func() []float64 {
			var s mat.SVD
			s.Factorize(x, mat.SVDThin)
			return denseReader(fs.PseudoInverseXTX(&s, 1e-6))
		}},
	}
}

func histF02() []histOp {
	return []histOp{{"Omp", func(x *mat.Dense, y []float64) func() []float64 {
		r := fs.Omp(x, y, 1e-3)
		return func() []float64 { return append(intReader(r.Order)(), r.Coeff...) }
	}}, {"Omp once", func(x *mat.Dense, y []float64) func() []float64 {
		r := fs.Omp(x, y, 100)
		return func() []float64 { return append(intReader(r.Order)(), r.Coeff...) }
	}}}
}

func histF03() []histOp {
	full := func(power int) func(x *mat.Dense, y []float64) func() []float64 {
		return func(x *mat.Dense, y []float64) func() []float64 {
			return denseReader(fs.NewLazyMatrix(x, power).FullMatrix())
		}
	}
	return []histOp{{"FullMatrix 2", full(2)}, {"FullMatrix 3", full(3)}, {"GetCol", func(x *mat.Dense, y []float64) func() []float64 {
		return sliceReader(fs.NewLazyMatrix(x, 2).GetCol(4))
	}}}
}

func histF04() []histOp {
	return []histOp{{"WeightsFromAIC", func(x *mat.Dense, y []float64) func() []float64 { return sliceReader(fs.WeightsFromAIC(y)) }},
		{"WeightedAveragedCoeff", func(x *mat.Dense, y []float64) func() []float64 {
			return sliceReader(fs.WeightedAveragedCoeff(4, y[:2], []fs.SparseCoeff{
				{Selection: []int{0, 2}, Coeff: y[1:3]}, {Selection: []int{1, 2}, Coeff: y[2:4]}}))
		}}}
}

func histF05() []histOp {
	order := func(p int) []int {
		o := make([]int, p)
		for i := range o {
			o[i] = (i + 1) % p
		}
		return o
	}
	return []histOp{
		{"GetDesignMatrix", func(x *mat.Dense, y []float64) func() []float64 {
			_, p := x.Dims()
			return denseReader(fs.GetDesignMatrix(modelFrom(y, p), x))
		}},
		{"RearrangeDense", func(x *mat.Dense, y []float64) func() []float64 {
			_, p := x.Dims()
			return denseReader(fs.RearrangeDense(x, order(p)))
		}},
		{"Argsort", func(x *mat.Dense, y []float64) func() []float64 { return intReader(fs.Argsort(y)) }},
		{"MulSlice", func(x *mat.Dense, y []float64) func() []float64 {
			_, p := x.Dims()
			return sliceReader(fs.MulSlice(x, y[:p]))
		}},
		{"Selected2Model", func(x *mat.Dense, y []float64) func() []float64 {
			m := fs.Selected2Model(fs.SelectedFeatures(modelFrom(y, 3)), 3)
			return func() []float64 { return intReader(fs.SelectedFeatures(m))() }
		}},
		{"Std and mean", func(x *mat.Dense, y []float64) func() []float64 {
			return sliceReader([]float64{fs.Std(y), fs.Mean(y)})
		}},
		{"covariance", func(x *mat.Dense, y []float64) func() []float64 { return denseReader(fs.CovarianceMatrix(x)) }},
	}
}

func histF06() []histOp {
	return []histOp{{"DenumMatrixGcv", func(x *mat.Dense, y []float64) func() []float64 { return denseReader(fs.DenumMatrixGcv(x)) }},
		{"Gcv", func(x *mat.Dense, y []float64) func() []float64 {
			return sliceReader([]float64{fs.Gcv(fs.DenumMatrixGcv(x), y, fs.Predict(x, fs.Fit(x, y)))})
		}}}
}

func histG05() []histOp {
	pair := func(a, b float64) func() []float64 { return sliceReader([]float64{a, b}) }
	return []histOp{
		{"BoundsAIC", func(x *mat.Dense, y []float64) func() []float64 {
			_, p := x.Dims()
			return pair(fs.BoundsAIC(modelFrom(y, p), 1, x, y))
		}},
		{"BoundsAICC", func(x *mat.Dense, y []float64) func() []float64 {
			_, p := x.Dims()
			return pair(fs.BoundsAICC(modelFrom(y, p), 1, x, y))
		}},
		{"BoundsAICC from 0", func(x *mat.Dense, y []float64) func() []float64 {
			_, p := x.Dims()
			return pair(fs.BoundsAICC(modelFrom(y, p), 0, x, y))
		}},
		{"Gcs and Lcs", func(x *mat.Dense, y []float64) func() []float64 {
			m := modelFrom(y, 5)
			g, l := fs.Gcs(m, 2), fs.Lcs(m, 2)
			return func() []float64 {
				return append(intReader(fs.SelectedFeatures(g))(), append([]float64{-1}, intReader(fs.SelectedFeatures(l))()...)...)
			}
		}},
	}
}

func histL01() []histOp {
	sh := shared[fs.NormalizedData]()
	emp, id := &fs.Empirical{}, &fs.Identity{}
	pure, elastic := &fs.PureLasso{}, &fs.ElasticNet{Lamb: 0.1}
	run := func(lamb float64, cov fs.CovMat, corr fs.LassoCorrection) func(x *mat.Dense, y []float64) func() []float64 {
		return func(x *mat.Dense, y []float64) func() []float64 {
			nd := sh(fs.NewNormalizedData(x, y))
			_, p := x.Dims()
			return sliceReader(fs.LassoCrdDesc(nd, lamb, cov, make([]float64, p), 10000, 1e-10, corr))
		}
	}
	return []histOp{{"descent 0.1", run(0.1, emp, pure)}, {"descent 0.4", run(0.4, emp, pure)},
		{"descent identity", run(0.1, id, pure)}, {"descent elastic", run(0.1, emp, elastic)}}
}

func histL03() []histOp {
	sh := shared[fs.NormalizedData]()
	est := &fs.MorsePenroseCD{}
	run := func(lamb float64) func(x *mat.Dense, y []float64) func() []float64 {
		return func(x *mat.Dense, y []float64) func() []float64 {
			return pathReader(fs.LassoLars(sh(fs.NewNormalizedData(x, y)), lamb, est))
		}
	}
	return []histOp{{"path to 1e-3", run(1e-3)}, {"path to 0.3", run(0.3)}}
}

func histL04() []histOp {
	sh := shared[fs.NormalizedData]()
	return []histOp{{"normalise", func(x *mat.Dense, y []float64) func() []float64 {
		nd := sh(fs.NewNormalizedData(x, y))
		_, p := x.Dims()
		r := append(vc.FromDense(nd.X).D, y...)
		sel, co := []int{}, []float64{}
		for j := 0; j < p; j++ {
			sel, co = append(sel, j), append(co, float64(j+1))
			r = append(r, nd.LinearNormalizationTransformation(j, 1))
		}
		return sliceReader(append(r, nd.LinearTransformationBias(sel, co)))
	}}, {"undo", func(x *mat.Dense, y []float64) func() []float64 {
		nd := sh(fs.NewNormalizedData(x, y))
		path := []*fs.LassoLarsNode{fs.NewLassoLarsNode([]float64{1, -2}, 0.5, []int{0, 1}), fs.NewLassoLarsNode([]float64{3}, 0.25, []int{1})}
		fs.Path2Unnormalized(nd, path)
		return pathReader(path)
	}}}
}

func histL05() []histOp {
	sh := shared[fs.Dataset]()
	est := &fs.MorsePenroseCD{}
	run := func(lamb, keep float64) func(x *mat.Dense, y []float64) func() []float64 {
		return func(x *mat.Dense, y []float64) func() []float64 {
			_, p := x.Dims()
			names := make([]string, p)
			for j := range names {
				names[j] = fmt.Sprintf("f%d", j)
			}
			r := fs.NestedLasso(sh(&fs.Dataset{X: x, Y: y, Names: append(names, "target"), TargetCol: p}), lamb, keep, est)
			return func() []float64 {
				var out []float64
				for _, path := range r.Paths {
					out = append(out, pathReader(path.Nodes)()...)
				}
				return out
			}
		}
	}
	return []histOp{{"nested 0.5", run(1e-3, 0.5)}, {"nested 0.9", run(1e-3, 0.9)}}
}

func histL07() []histOp {
	est := &fs.MorsePenroseCD{}
	active := make([]int, 2)
	run := func(a, b int) func(x *mat.Dense, y []float64) func() []float64 {
		return func(x *mat.Dense, y []float64) func() []float64 {
			est.SetX(x)
			active[0], active[1] = a, b
			if a < 0 {
				_, p := x.Dims()
				active[0], active[1] = p+a, p+b
			}
			est.SetActiveSet(active)
			cc := est.C(mat.NewVecDense(len(y), vc.Clone(y)))
			dd := est.D(mat.NewVecDense(2, []float64{1, -1}))
			return func() []float64 {
				return append(append([]float64{}, cc.RawVector().Data...), dd.RawVector().Data...)
			}
		}
	}
	return []histOp{{"columns 0 and 1", run(0, 1)}, {"columns 1 and 0", run(1, 0)}, {"last columns", run(-2, -1)}}
}

func histD02() []histOp {
	sh := shared[fs.Dataset]()
	var names []string
	set := func(x *mat.Dense, y []float64) *fs.Dataset {
		_, p := x.Dims()
		if len(names) != p+1 {
			names = make([]string, p+1)
		}
		shift := 0
		if y[0] > 0 {
			shift = 1
		}
		for j := 0; j < p; j++ {
			names[j] = fmt.Sprintf("f%d", (j+shift)%p)
		}
		names[p] = "target"
		return sh(&fs.Dataset{X: x, Y: y, Names: names, TargetCol: p})
	}
	reader := func(d *fs.Dataset) func() []float64 {
		return func() []float64 {
			r := append(denseReader(d.X)(), d.Y...)
			for _, n := range d.Names {
				v := 0.0
				for _, b := range []byte(n) {
					v = v*256 + float64(b)
				}
				r = append(r, v)
			}
			return append(r, float64(d.TargetCol))
		}
	}
	return []histOp{
		{"GetSubset", func(x *mat.Dense, y []float64) func() []float64 {
			return reader(set(x, y).GetSubset([]int{0, 1}))
		}},
		{"GetSubset in another order", func(x *mat.Dense, y []float64) func() []float64 {
			return reader(set(x, y).GetSubset([]int{1, 0}))
		}},
		{"Copy", func(x *mat.Dense, y []float64) func() []float64 { return reader(set(x, y).Copy()) }},
		{"names", func(x *mat.Dense, y []float64) func() []float64 {
			d := set(x, y)
			_, p := x.Dims()
			var r []float64
			for j := 0; j < p; j++ {
				r = append(r, float64(d.FeatNoByName(fmt.Sprintf("f%d", j))), float64(d.GetFeatName(j)[1]))
			}
			return sliceReader(r)
		}},
	}
}

func histK01() []histOp {
	a, b := make([]int, 0, 16), make([]int, 0, 16)
	return []histOp{{"CohenKappa", func(x *mat.Dense, y []float64) func() []float64 {
		a, b = a[:0], b[:0]
		for i, v := range y {
			if v > 0 {
				a = append(a, i)
			}
			if x.At(i, 1) > 0 {
				b = append(b, i)
			}
		}
		u := intReader(fs.UnionInt(append([]int{}, a...), b))
		k := fs.CohenKappa(a, b, len(y)+1)
		return func() []float64 { return append(u(), k) }
	}}, {"CohenKappa of a part", func(x *mat.Dense, y []float64) func() []float64 {
		a, b = a[:0], b[:0]
		for i, v := range y {
			if v > 0.2 && i%2 == 0 {
				a = append(a, i)
			}
			if x.At(i, 0) > 0 {
				b = append(b, i)
			}
		}
		k := fs.CohenKappa(a, b, len(y)+1)
		return sliceReader([]float64{k})
	}}}
}
