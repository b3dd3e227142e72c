//go:build go1.22

package verifcommon

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"gonum.org/v1/gonum/mat"
)

// RssFloor is the smallest residual sum of squares the criteria distinguish
const RssFloor = 1e-12

// Mat is a small row-major matrix
type Mat struct {
	R, C int
	D    []float64
}

// At returns an element
func (m *Mat) At(i, j int) float64 { return m.D[i*m.C+j] }

// Set sets an element
func (m *Mat) Set(i, j int, v float64) { m.D[i*m.C+j] = v }

// NewMat returns a zero matrix
func NewMat(r, c int) *Mat { return &Mat{r, c, make([]float64, r*c)} }

// FromCols builds a matrix from columns
func FromCols(cols ...[]float64) *Mat {
	m := NewMat(len(cols[0]), len(cols))
	for j, c := range cols {
		for i, v := range c {
			m.Set(i, j, v)
		}
	}
	return m
}

// Col returns a copy of a column
func (m *Mat) Col(j int) []float64 {
	r := make([]float64, m.R)
	for i := range r {
		r[i] = m.At(i, j)
	}
	return r
}

// Dense makes a fresh gonum matrix: depending on the elements, one with its own
// memory or (every third time) a window of a larger matrix
func (m *Mat) Dense() *mat.Dense {
	h := uint64(m.R*7 + m.C)
	for _, v := range m.D {
		h = (h ^ math.Float64bits(v)) * 0x9E3779B97F4A7C15
		h ^= h >> 29
	}
	if h%3 == 0 {
		return m.View()
	}
	return m.Compact()
}

// Compact makes a gonum matrix without gaps between its rows
func (m *Mat) Compact() *mat.Dense {
	return mat.NewDense(m.R, m.C, append([]float64{}, m.D...))
}

// View makes a gonum matrix that is a window of a larger one
func (m *Mat) View() *mat.Dense {
	big := mat.NewDense(m.R+2, m.C+3, nil)
	for i := 0; i < m.R+2; i++ {
		for j := 0; j < m.C+3; j++ {
			big.Set(i, j, 977.25+float64(i*(m.C+3)+j))
		}
	}
	w := big.Slice(1, m.R+1, 2, m.C+2).(*mat.Dense)
	for i := 0; i < m.R; i++ {
		for j := 0; j < m.C; j++ {
			w.Set(i, j, m.At(i, j))
		}
	}
	return w
}

func (m *Mat) String() string {
	var sb strings.Builder
	for i := 0; i < m.R; i++ {
		if i > 0 {
			sb.WriteString("; ")
		}
		for j := 0; j < m.C; j++ {
			if j > 0 {
				sb.WriteString(" ")
			}
			fmt.Fprintf(&sb, "%v", m.At(i, j))
		}
	}
	return "[" + sb.String() + "]"
}

// FromDense copies a gonum matrix
func FromDense(x mat.Matrix) *Mat {
	r, c := x.Dims()
	m := NewMat(r, c)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			m.Set(i, j, x.At(i, j))
		}
	}
	return m
}

// Clone copies a slice
func Clone(v []float64) []float64 { return append([]float64{}, v...) }

// Dot is the inner product
func Dot(a, b []float64) float64 {
	s := 0.0
	for i := range a {
		s += a[i] * b[i]
	}
	return s
}

// Norm is the Euclidean norm
func Norm(a []float64) float64 { return math.Sqrt(Dot(a, a)) }

// RefResidual is the residual of y after projecting onto the given columns
// (modified Gram-Schmidt with reorthogonalisation; dependent columns are dropped)
func RefResidual(cols [][]float64, y []float64) []float64 {
	var q [][]float64
	for _, c := range cols {
		v := Clone(c)
		n0 := Norm(v)
		if n0 == 0 {
			continue
		}
		for pass := 0; pass < 2; pass++ {
			for _, u := range q {
				d := Dot(u, v)
				for i := range v {
					v[i] -= d * u[i]
				}
			}
		}
		n := Norm(v)
		if n < 1e-9*n0 {
			continue
		}
		for i := range v {
			v[i] /= n
		}
		q = append(q, v)
	}
	r := Clone(y)
	for pass := 0; pass < 2; pass++ {
		for _, u := range q {
			d := Dot(u, r)
			for i := range r {
				r[i] -= d * u[i]
			}
		}
	}
	return r
}

// RefRss is the smallest residual sum of squares for a set of columns
func RefRss(cols [][]float64, y []float64) float64 {
	r := RefResidual(cols, y)
	return Dot(r, r)
}

// RefAic, RefAicc and RefBic are written from the definitions in the documentation
func RefAic(k, n int, rss float64) float64 {
	return 2*float64(k) + float64(n)*math.Log(math.Max(rss, RssFloor))
}

// RefAicc is the small sample correction of RefAic
func RefAicc(k, n int, rss float64) float64 {
	d := float64(n - k - 1)
	if k >= n-1 {
		d = 1
	}
	return RefAic(k, n, rss) + float64(2*k*k+2*k)/d
}

// RefBic is the Bayesian criterion
func RefBic(k, n int, rss float64) float64 {
	return float64(k)*math.Log(float64(n)) + float64(n)*math.Log(math.Max(rss, RssFloor))
}

// ModelScore is a model with its reference score
type ModelScore struct {
	Mask int
	K    int
	Rss  float64
	Aicc float64
}

// AllModels scores every model with 1 <= k < n features
func AllModels(x *Mat, y []float64) []ModelScore {
	var out []ModelScore
	for mask := 1; mask < 1<<uint(x.C); mask++ {
		var cols [][]float64
		for j := 0; j < x.C; j++ {
			if mask>>uint(j)&1 == 1 {
				cols = append(cols, x.Col(j))
			}
		}
		if len(cols) >= x.R {
			continue
		}
		rss := RefRss(cols, y)
		out = append(out, ModelScore{mask, len(cols), rss, RefAicc(len(cols), x.R, rss)})
	}
	return out
}

// MaskOf turns a model into a bit mask
func MaskOf(model []bool) int {
	m := 0
	for i, b := range model {
		if b {
			m |= 1 << uint(i)
		}
	}
	return m
}

// ModelOf turns a bit mask into a model
func ModelOf(mask, n int) []bool {
	m := make([]bool, n)
	for i := range m {
		m[i] = mask>>uint(i)&1 == 1
	}
	return m
}

// SelOf lists the bits of a mask
func SelOf(mask, n int) []int {
	s := []int{}
	for i := 0; i < n; i++ {
		if mask>>uint(i)&1 == 1 {
			s = append(s, i)
		}
	}
	return s
}

// Close compares with a relative and absolute tolerance
func Close(a, b, tol float64) bool {
	if a == b {
		return true
	}
	if math.IsNaN(a) || math.IsNaN(b) || math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	return math.Abs(a-b) <= tol*(1+math.Max(math.Abs(a), math.Abs(b)))
}

// CloseSlices compares element by element
func CloseSlices(a, b []float64, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !Close(a[i], b[i], tol) {
			return false
		}
	}
	return true
}

// SameBits compares slices bit by bit (NaN equals NaN)
func SameBits(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) {
			return false
		}
	}
	return true
}

// Hash is a deterministic stream of numbers in [-1, 1)
type Hash struct{ x uint64 }

// NewHash returns a stream
func NewHash(seed uint64) *Hash { return &Hash{seed*0x9e3779b97f4a7c15 + 0x51ab} }

// U64 returns the next number
func (h *Hash) U64() uint64 {
	h.x += 0x9e3779b97f4a7c15
	z := h.x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// F returns a number in [-1, 1)
func (h *Hash) F() float64 { return float64(h.U64()>>11)/(1<<52) - 1 }

// N returns a number in [0, n)
func (h *Hash) N(n int) int { return int(h.U64() % uint64(n)) }

// Vec returns n numbers in [-1, 1)
func (h *Hash) Vec(n int) []float64 {
	v := make([]float64, n)
	for i := range v {
		v[i] = h.F()
	}
	return v
}

// Solve solves a small linear system with full pivoting; ok is false if it is singular
func Solve(a *Mat, b []float64) ([]float64, bool) {
	n := a.R
	m := append([]float64{}, a.D...)
	x := Clone(b)
	perm := make([]int, n)
	for i := range perm {
		perm[i] = i
	}
	for k := 0; k < n; k++ {
		pi, pj, pv := k, k, 0.0
		for i := k; i < n; i++ {
			for j := k; j < n; j++ {
				if v := math.Abs(m[i*n+j]); v > pv {
					pi, pj, pv = i, j, v
				}
			}
		}
		if pv < 1e-12 {
			return nil, false
		}
		for j := 0; j < n; j++ {
			m[k*n+j], m[pi*n+j] = m[pi*n+j], m[k*n+j]
		}
		x[k], x[pi] = x[pi], x[k]
		for i := 0; i < n; i++ {
			m[i*n+k], m[i*n+pj] = m[i*n+pj], m[i*n+k]
		}
		perm[k], perm[pj] = perm[pj], perm[k]
		for i := k + 1; i < n; i++ {
			f := m[i*n+k] / m[k*n+k]
			for j := k; j < n; j++ {
				m[i*n+j] -= f * m[k*n+j]
			}
			x[i] -= f * x[k]
		}
	}
	for i := n - 1; i >= 0; i-- {
		for j := i + 1; j < n; j++ {
			x[i] -= m[i*n+j] * x[j]
		}
		x[i] /= m[i*n+i]
	}
	out := make([]float64, n)
	for i, p := range perm {
		out[p] = x[i]
	}
	return out, true
}

// SortedInts returns a sorted copy
func SortedInts(v []int) []int {
	r := append([]int{}, v...)
	sort.Ints(r)
	return r
}

// EqInts compares slices of ints
func EqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// CheckLeastSquares tells what is wrong with the coefficients of a fit of y to
// the selected columns: the residual has to be orthogonal to the columns
func CheckLeastSquares(x *Mat, sel []int, y, coeff []float64) string {
	r := Clone(y)
	size := Norm(y)
	var cols [][]float64
	for k, j := range sel {
		c := x.Col(j)
		cols = append(cols, c)
		if math.IsNaN(coeff[k]) || math.IsInf(coeff[k], 0) {
			return fmt.Sprintf("coefficient %d is %g", k, coeff[k])
		}
		for i := range r {
			r[i] -= coeff[k] * c[i]
		}
		size += math.Abs(coeff[k]) * Norm(c)
	}
	for k, c := range cols {
		if d := math.Abs(Dot(c, r)); d > 1e-8*size*(Norm(c)+1e-9) {
			return fmt.Sprintf("the residual is not orthogonal to feature %d (inner product %g)", sel[k], d)
		}
	}
	return ""
}
