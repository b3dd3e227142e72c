//go:build go1.22

package verifcommon

import (
	"fmt"
	"math"
)

// RefMean is the mean
func RefMean(v []float64) float64 {
	s := 0.0
	for _, x := range v {
		s += x
	}
	return s / float64(len(v))
}

// RefStd is the standard deviation with n-1 in the denominator
func RefStd(v []float64) float64 {
	if len(v) < 2 {
		return 0
	}
	m, s := RefMean(v), 0.0
	for _, x := range v {
		s += (x - m) * (x - m)
	}
	return math.Sqrt(s / float64(len(v)-1))
}

// Normal is a normalised dataset
type Normal struct {
	X        *Mat
	Y        []float64
	Mu, Std  []float64
	MuY, SdY float64
	Bias     bool
	OK       bool // no constant column but the first, no constant target
}

// Normalise is the reference normalisation
func Normalise(x *Mat, y []float64) *Normal {
	n := &Normal{X: NewMat(x.R, x.C), Y: Clone(y), OK: true}
	n.MuY, n.SdY = RefMean(y), RefStd(y)
	if n.SdY < 1e-9 {
		n.OK = false
	}
	for i := range n.Y {
		n.Y[i] = (y[i] - n.MuY) / n.SdY
	}
	for j := 0; j < x.C; j++ {
		c := x.Col(j)
		m, s := RefMean(c), RefStd(c)
		n.Mu, n.Std = append(n.Mu, m), append(n.Std, s)
		if s < 1e-10 {
			if j > 0 {
				n.OK = false
				return n
			}
			n.Bias = true
			s = 1
		}
		for i := range c {
			n.X.Set(i, j, (c[i]-m)/s)
		}
	}
	return n
}

// Gram is X^T X / n
func (n *Normal) Gram() *Mat {
	p := n.X.C
	g := NewMat(p, p)
	for a := 0; a < p; a++ {
		for b := 0; b < p; b++ {
			s := 0.0
			for i := 0; i < n.X.R; i++ {
				s += n.X.At(i, a) * n.X.At(i, b)
			}
			g.Set(a, b, s/float64(n.X.R))
		}
	}
	return g
}

// Xty is X^T y / n
func (n *Normal) Xty() []float64 {
	r := make([]float64, n.X.C)
	for j := range r {
		for i := 0; i < n.X.R; i++ {
			r[j] += n.X.At(i, j) * n.Y[i]
		}
		r[j] /= float64(n.X.R)
	}
	return r
}

// EyeMat is the identity
func EyeMat(p int) *Mat {
	m := NewMat(p, p)
	for i := 0; i < p; i++ {
		m.Set(i, i, 1)
	}
	return m
}

// KKT checks the optimality conditions of the lasso with penalty lamb, L2
// penalty l2, covariance cov and correlations xty
func KKT(cov *Mat, xty []float64, lamb, l2 float64, beta []float64, skip0 bool, tol float64) string {
	return KKTZero(cov, xty, lamb, l2, beta, skip0, tol, 0)
}

// KKTZero is KKT where the sign of a coefficient of at most zero does not count
func KKTZero(cov *Mat, xty []float64, lamb, l2 float64, beta []float64, skip0 bool, tol, zero float64) string {
	p := len(xty)
	if len(beta) != p {
		return fmt.Sprintf("%d coefficients for %d features", len(beta), p)
	}
	scale := 1.0
	for _, b := range beta {
		if math.IsNaN(b) || math.IsInf(b, 0) {
			return fmt.Sprintf("coefficients %v", beta)
		}
		scale = math.Max(scale, math.Abs(b))
	}
	if skip0 && beta[0] != 0 {
		return fmt.Sprintf("the constant column has the coefficient %g", beta[0])
	}
	for j := 0; j < p; j++ {
		if skip0 && j == 0 {
			continue
		}
		g := xty[j]
		for k := 0; k < p; k++ {
			g -= cov.At(j, k) * beta[k]
		}
		g -= l2 * beta[j]
		switch {
		case beta[j] > zero:
			if math.Abs(g-lamb) > tol*scale {
				return fmt.Sprintf("feature %d (coefficient %.9g) has correlation %.9g with the residual, regularisation %.9g", j, beta[j], g, lamb)
			}
		case beta[j] < -zero:
			if math.Abs(g+lamb) > tol*scale {
				return fmt.Sprintf("feature %d (coefficient %.9g) has correlation %.9g with the residual, regularisation %.9g", j, beta[j], g, lamb)
			}
		default:
			if math.Abs(g) > lamb+tol*scale {
				return fmt.Sprintf("feature %d is not selected, but has correlation %.9g with the residual, regularisation %.9g", j, g, lamb)
			}
		}
	}
	return ""
}

// RefLasso solves the lasso problem by long coordinate descent; margin is the
// smallest distance of any feature from changing its state, zero when the
// descent from start (nil: from zero) needs more than maxIter iterations
func RefLasso(cov *Mat, xty []float64, lamb, l2 float64, skip0 bool, start []float64, maxIter int) (beta []float64, margin float64) {
	p := len(xty)
	beta = make([]float64, p)
	copy(beta, start)
	if skip0 {
		beta[0] = 0
	}
	corr := func(j int) float64 {
		g := xty[j]
		for k := 0; k < p; k++ {
			g -= cov.At(j, k) * beta[k]
		}
		return g
	}
	done := false
	for it := 0; it < maxIter && !done; it++ {
		ch := 0.0
		for j := 0; j < p; j++ {
			if skip0 && j == 0 {
				continue
			}
			d := cov.At(j, j)
			g := corr(j) + d*beta[j]
			b := 0.0
			if g > lamb {
				b = (g - lamb) / (d + l2)
			} else if g < -lamb {
				b = (g + lamb) / (d + l2)
			}
			ch = math.Max(ch, math.Abs(b-beta[j]))
			beta[j] = b
		}
		done = ch < 1e-15
	}
	if !done {
		return beta, 0
	}
	margin = math.Inf(1)
	for j := 0; j < p; j++ {
		if skip0 && j == 0 {
			continue
		}
		if beta[j] != 0 {
			margin = math.Min(margin, math.Abs(beta[j]))
		} else {
			margin = math.Min(margin, lamb-math.Abs(corr(j)))
		}
	}
	return beta, margin
}
