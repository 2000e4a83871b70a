// C25: the discrete Gaussian sampler with arbitrary centre and deviation.
package main

import (
	"fmt"
	"time"

	"github.com/sp301415/ringo-snark/math/csprng"
	"github.com/sp301415/ringo-snark/zzverif/lib"
	"github.com/sp301415/ringo-snark/zzverif/sx"
)

func main() {
	lib.Main("C25", lib.Options{QuickBudget: 150 * time.Second, Assumptions: []string{
		"the random source is replaced by a lattice of answers; distances below the stated tolerance are not seen",
		"deviations of at least one, where the sum of the Gaussian function is its integral",
	}}, func(r *lib.Run) {
		lk, tol := uint(20), 2e-3
		cs := [][2]float64{{0, 1}, {0.5, 1}, {0, 2}, {0.25, 2}, {-0.25, 2}, {0.5, 2}, {-0.5, 3}, {0.999, 3}, {-7.3, 3}, {0.3, 5}, {1.7, 5}, {7.7, 20}, {-1e6 - 0.75, 4.5}, {1e9 + 0.375, 100}, {0, 1000}, {0.5, 50000}, {-3.3, 1e6}, {0.2, 1e10}}
		if r.Thorough {
			lk, tol = 23, 8e-4
			for f := -1.; f <= 1; f += 0.125 {
				for _, sd := range []float64{1, 1.5, 2, 4.8, 12, 200} {
					cs = append(cs, [2]float64{f, sd})
				}
			}
		}
		for _, k := range cs {
			r.Case(fmt.Sprintf("distribution/%v/%v", k[0], k[1]), func(t *lib.T) {
				u := sx.NewUniform(&sx.Stream{})
				s := csprng.NewCOSACSampler()
				if u == nil || sx.Inject(s, u) < 1 {
					t.Outcome("source not replaceable")
					return
				}
				d := sx.NewCDF()
				sx.Explore(u, 1<<lk, 100, func() int64 { return s.Sample(k[0], k[1]) }, d.Add)
				sup, at, pt := d.Dist(sx.Gauss(k[0], k[1]))
				t.Check(sup < tol, "centre %v, deviation %v: the distribution function is off by %v at %v", k[0], k[1], sup, at)
				t.Check(pt < tol, "centre %v, deviation %v: some probability is off by %v", k[0], k[1], pt)
				t.Trans(d.N)
				t.Trace(d.N)
				for x := range d.C {
					t.State(k, x)
					if len(d.C) > 200000 {
						break
					}
				}
				t.Outcome("within tolerance")
				t.Sample("centre %v deviation %v: %d executions, sup distance %.2g", k[0], k[1], d.N, sup)
			})
		}
		r.Case("independent", func(t *lib.T) {
			a, b := csprng.NewCOSACSampler(), csprng.NewCOSACSampler()
			same := true
			for range 20 {
				same = same && a.Sample(0, 1e9) == b.Sample(0, 1e9)
				t.Trans(2)
			}
			t.Check(!same, "two samplers give the same samples")
			t.State("independent")
		})
	})
}
