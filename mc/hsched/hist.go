//go:build go1.22

package main

import (
	"fmt"

	vc "github.com/davidkleiven/goselect/verifcommon"
	vs "github.com/davidkleiven/goselect/verifsched"
)

// histories runs scenarios one after the other, with a matrix and a target that are
// the same objects all the time but have the contents of another version at each call
func histories(c *vc.Ctx, length, minP int, mk func(d *vc.Data, box *vc.Box, i int) vs.Scenario) {
	c.Group("histories")
	c.Bound("every sequence of %d calls with the same matrix and target, whose contents are one of up to 7 versions at each call; three datasets (with at least %d features), one execution per call", length, minP)
	for di, d := range []*vc.Data{
		vc.Structured(vc.KindRandom, 7, 3, 31), vc.Structured(vc.KindSparse, 9, 4, 32), vc.Structured(vc.KindSparse, 12, 2, 33),
	} {
		var vers []*vc.Data
		for _, v := range vc.Versions(d) {
			if v.X.C >= minP {
				vers = append(vers, v)
			}
		}
		n := 1
		for i := 0; i < length; i++ {
			n *= len(vers)
		}
		for code := 0; len(vers) > 0 && code < n; code++ {
			seq := make([]int, length)
			for i, v := 0, code; i < length; i++ {
				seq[i] = v % len(vers)
				v /= len(vers)
			}
			c.Case(fmt.Sprintf("%d-%v", di, seq), func() {
				box := &vc.Box{}
				for i, v := range seq {
					c.Input(func() string {
						t := fmt.Sprintf("call %d with %v; the calls:", i+1, vers[v])
						for _, v := range seq {
							t += " (" + vers[v].Name + ")"
						}
						return t
					})
					one(c, vs.Config{Policy: (code + i) % 5, RandSeed: uint64(code + i)}, mk(vers[v], box, code+i))
				}
			})
		}
	}
}
