//go:build go1.22

// Harnesses that enumerate inputs and sequences of operations exhaustively
// and compare the code with reference models
package main

import (
	"fmt"
	"math"
	"os"

	fs "github.com/davidkleiven/goselect/featselect"
	vc "github.com/davidkleiven/goselect/verifcommon"
)

var props = map[string]func(*vc.Ctx){}

func main() {
	c := vc.NewCtx()
	f := props[c.Prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown property", c.Prop)
		os.Exit(2)
	}
	f(c)
	c.Finish()
}

// nodesOf lists the nodes of a highscore list
func nodesOf(h *fs.Highscore) []*fs.Node {
	var out []*fs.Node
	for e := h.Items.Front(); e != nil; e = e.Next() {
		out = append(out, e.Value.(*fs.Node))
	}
	return out
}

// sequences calls f with every sequence of n numbers below k
func sequences(k, n int, f func(s []int)) {
	s := make([]int, n)
	for {
		f(s)
		j := n - 1
		for j >= 0 {
			s[j]++
			if s[j] < k {
				break
			}
			s[j] = 0
			j--
		}
		if j < 0 {
			return
		}
	}
}

// permutations calls f with every order of v
func permutations(v []int, f func(p []int)) {
	var rec func(k int)
	w := append([]int{}, v...)
	rec = func(k int) {
		if k == len(w) {
			f(append([]int{}, w...))
			return
		}
		for i := k; i < len(w); i++ {
			w[k], w[i] = w[i], w[k]
			rec(k + 1)
			w[k], w[i] = w[i], w[k]
		}
	}
	rec(0)
}

// panics tells if f panics
func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

func power(b, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= b
	}
	return r
}

var inf = math.Inf(1)
