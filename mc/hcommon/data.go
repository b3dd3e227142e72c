//go:build go1.22

package verifcommon

import (
	"fmt"

	"gonum.org/v1/gonum/mat"
)

// Data is a small dataset
type Data struct {
	Name string
	X    *Mat
	Y    []float64
}

func (d *Data) String() string { return fmt.Sprintf("%s X=%v y=%v", d.Name, d.X, d.Y) }

// Columns4 is the alphabet of columns with four rows
var Columns4 = [][]float64{
	{1, 1, 1, 1}, {0, 1, 2, 3}, {1, 0, 0, 1}, {0, 0, 1, 1}, {1, -1, 1, -1}, {0, 1, 0, 0}, {2, 1, 0, 0}, {0, 0, 0, 0},
}

// Targets4 is the alphabet of targets with four rows
var Targets4 = [][]float64{
	{1, 2, 3, 5}, {1, 1, 1, 1}, {0, 1, 0, 0}, {3, -1, 2, 0}, {2, 1, 1, 3}, {0, 0, 0, 0},
}

// SmallData enumerates all datasets with p columns out of the alphabet
func SmallData(cols, targets [][]float64, p int, f func(d *Data)) {
	idx := make([]int, p)
	for {
		for t, y := range targets {
			cs := make([][]float64, p)
			name := "c"
			for j, i := range idx {
				cs[j] = cols[i]
				name += fmt.Sprintf("%d.", i)
			}
			f(&Data{Name: fmt.Sprintf("%sy%d", name, t), X: FromCols(cs...), Y: Clone(y)})
		}
		j := p - 1
		for j >= 0 {
			idx[j]++
			if idx[j] < len(cols) {
				break
			}
			idx[j] = 0
			j--
		}
		if j < 0 {
			return
		}
	}
}

// Kinds of structured datasets
const (
	KindRandom     = iota // independent columns, target independent
	KindSparse            // target is a combination of few columns plus small noise
	KindExact             // target is exactly a combination of few columns
	KindCorrelated        // columns share a common part
	KindDuplicate         // two columns are equal
	KindBias              // first column is constant
	KindScaled            // columns of different magnitude
	KindTies              // binary columns and integer target
	KindZero              // one zero column
	KindBig               // large values
	NumKinds
)

// KindNames are the names of the kinds
var KindNames = []string{"random", "sparse", "exact", "correlated", "duplicate", "bias", "scaled", "ties", "zero", "big"}

// Structured makes one dataset of a kind
func Structured(kind, n, p int, seed uint64) *Data {
	h := NewHash(seed*7919 + uint64(kind)*104729 + uint64(n)*31 + uint64(p))
	x := NewMat(n, p)
	for i := range x.D {
		x.D[i] = h.F()
	}
	y := h.Vec(n)
	comb := func(noise float64) {
		for i := range y {
			y[i] *= noise
		}
		k := 1 + h.N(min(3, p))
		for t := 0; t < k; t++ {
			j := h.N(p)
			w := float64(1+h.N(4)) * []float64{1, -1}[h.N(2)]
			for i := 0; i < n; i++ {
				y[i] += w * x.At(i, j)
			}
		}
	}
	switch kind {
	case KindSparse:
		comb(0.1)
	case KindExact:
		comb(0)
	case KindCorrelated:
		c := h.Vec(n)
		for i := 0; i < n; i++ {
			for j := 0; j < p; j++ {
				x.Set(i, j, 0.3*x.At(i, j)+c[i])
			}
		}
		comb(0.3)
	case KindDuplicate:
		a := h.N(p)
		b := (a + 1 + h.N(max(1, p-1))) % p
		for i := 0; i < n; i++ {
			x.Set(i, b, x.At(i, a))
		}
		comb(0.2)
	case KindBias:
		for i := 0; i < n; i++ {
			x.Set(i, 0, 1)
		}
		comb(0.2)
		for i := range y {
			y[i] += 2
		}
	case KindScaled:
		comb(0.2)
		for j := 0; j < p; j++ {
			s := []float64{1, 30, 0.05, 200}[j%4]
			for i := 0; i < n; i++ {
				x.Set(i, j, x.At(i, j)*s)
			}
		}
	case KindTies:
		for i := range x.D {
			x.D[i] = float64(h.N(2))
		}
		for i := range y {
			y[i] = float64(h.N(3))
		}
	case KindZero:
		j := h.N(p)
		comb(0.2)
		for i := 0; i < n; i++ {
			x.Set(i, j, 0)
		}
	case KindBig:
		comb(0.2)
		for i := range x.D {
			x.D[i] *= 1000
		}
		for i := range y {
			y[i] *= 500
		}
	}
	return &Data{Name: fmt.Sprintf("%s-n%d-p%d-%d", KindNames[kind], n, p, seed), X: x, Y: y}
}

// Versions lists variations of a dataset that agree in much of what a
// careless comparison would look at
func Versions(d *Data) []*Data {
	clone := func(name string, f func(x *Mat, y []float64)) *Data {
		m := &Mat{R: d.X.R, C: d.X.C, D: Clone(d.X.D)}
		y := Clone(d.Y)
		f(m, y)
		return &Data{Name: name, X: m, Y: y}
	}
	n, p := d.X.R, d.X.C
	r := []*Data{
		clone("base", func(*Mat, []float64) {}),
		clone("one target value", func(_ *Mat, y []float64) { y[n/2] = 1.5 - y[n/2] }),
		clone("one entry", func(x *Mat, _ []float64) { x.Set(n/2, p-1, 2.25-x.At(n/2, p-1)) }),
		clone("columns swapped", func(x *Mat, _ []float64) {
			for i := 0; i < n; i++ {
				a, b := x.At(i, p-2), x.At(i, p-1)
				x.Set(i, p-2, b)
				x.Set(i, p-1, a)
			}
		}),
		clone("other sign", func(_ *Mat, y []float64) {
			for i := range y {
				y[i] = -y[i]
			}
		}),
	}
	rows := NewMat(n-1, p)
	copy(rows.D, d.X.D)
	r = append(r, &Data{Name: "one row less", X: rows, Y: Clone(d.Y[:n-1])})
	if p > 2 {
		cols := NewMat(n, p-1)
		for i := 0; i < n; i++ {
			copy(cols.D[i*(p-1):(i+1)*(p-1)], d.X.D[i*p:i*p+p-1])
		}
		r = append(r, &Data{Name: "one column less", X: cols, Y: Clone(d.Y)})
	}
	return r
}

// Box holds a matrix and a target whose contents change, the objects being the same
type Box struct {
	X      mat.Dense
	bx, by []float64
}

// Fill writes a dataset into the box
func (b *Box) Fill(d *Data) (*mat.Dense, []float64) {
	if len(b.bx) < len(d.X.D) {
		b.bx = make([]float64, 2*len(d.X.D))
		b.X = mat.Dense{}
	}
	if len(b.by) < len(d.Y) {
		b.by = make([]float64, 2*len(d.Y))
	}
	copy(b.bx, d.X.D)
	copy(b.by, d.Y)
	if r, c := b.X.Dims(); r != d.X.R || c != d.X.C {
		b.X = *mat.NewDense(d.X.R, d.X.C, b.bx[:len(d.X.D)])
	}
	return &b.X, b.by[:len(d.Y)]
}

// BoolStr writes a model as zeros and ones
func BoolStr(m []bool) string {
	b := make([]byte, len(m))
	for i, v := range m {
		b[i] = '0'
		if v {
			b[i] = '1'
		}
	}
	return string(b)
}

// NearTie has two columns that are almost equal, so that the best models have almost
// the same criterion
func NearTie(n, p int, eps float64, seed uint64) *Data {
	d := Structured(KindSparse, n, p, seed+3000)
	h := NewHash(seed*17 + uint64(n))
	a, b := int(seed)%p, (int(seed)+1+int(seed/3)%(p-1))%p
	for i := 0; i < n; i++ {
		d.X.Set(i, b, d.X.At(i, a)+eps*h.F())
		d.Y[i] = 2*d.X.At(i, a) + 0.3*h.F()
	}
	d.Name = fmt.Sprintf("neartie-n%d-p%d-%g-%d", n, p, eps, seed)
	return d
}
