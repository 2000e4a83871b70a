// C24: the rounded Gaussian sampler.
package main

import (
	"fmt"
	"math"
	"time"

	"github.com/sp301415/ringo-snark/math/csprng"
	"github.com/sp301415/ringo-snark/zzverif/lib"
	"github.com/sp301415/ringo-snark/zzverif/sx"
)

func sampler(t *lib.T) (*csprng.RoundedGaussianSampler, *sx.Uniform) {
	u := sx.NewUniform(&sx.Stream{})
	s := csprng.NewRoundedGaussianSampler()
	if u == nil || sx.Inject(s, u) != 1 {
		return nil, nil
	}
	return s, u
}

func main() {
	lib.Main("C24", lib.Options{QuickBudget: 150 * time.Second, Assumptions: []string{
		"the random source is replaced by a lattice of answers; distances below the stated tolerance are not seen",
	}}, func(r *lib.Run) {
		lk, tol := uint(21), 2e-4
		cs := [][2]float64{{0, 1000}, {0, 0.5}, {0.25, 1}, {-0.5, 3}, {0.49, 3.19}, {7.7, 20}, {-1e6, 4.5}, {1e9 + 0.5, 100}, {-3.3, 1e6}, {0.1, 1e12}, {0, 1e-3}, {3.25, 6.77}}
		if r.Thorough {
			lk, tol = 24, 6e-5
			for f := -0.5; f <= 0.5; f += 0.0625 {
				for _, sd := range []float64{0.8, 2, 5, 37.5, 4096} {
					cs = append(cs, [2]float64{f, sd})
				}
			}
		}
		for _, k := range cs {
			r.Case(fmt.Sprintf("distribution/%v/%v", k[0], k[1]), func(t *lib.T) {
				s, u := sampler(t)
				if s == nil {
					t.Outcome("source not replaceable")
					return
				}
				d := sx.NewCDF()
				sx.Explore(u, 1<<lk, 40, func() int64 { return s.Sample(k[0], k[1]) }, d.Add)
				sup, at, pt := d.Dist(func(x int64) float64 { return sx.Phi((float64(x) + 0.5 - k[0]) / k[1]) })
				t.Check(sup < tol, "centre %v, deviation %v: the distribution function is off by %v at %v", k[0], k[1], sup, at)
				t.Check(pt < tol, "centre %v, deviation %v: some probability is off by %v", k[0], k[1], pt)
				t.Trans(d.N)
				t.Trace(d.N)
				for x := range d.C {
					t.State(k, x)
					if len(d.C) > 200000 {
						break
					}
				}
				t.Outcome("within tolerance")
				t.Sample("centre %v deviation %v: %d executions, sup distance %.2g", k[0], k[1], d.N, sup)
			})
		}
		// the shape of both tails, relative to their mass
		r.Case("tail", func(t *lib.T) {
			s, u := sampler(t)
			if s == nil {
				t.Outcome("source not replaceable")
				return
			}
			const sd = 1 << 20
			d := sx.NewCDF()
			k := 1 << 23
			sx.Explore(u, k, 40, func() int64 { return s.Sample(0, sd) >> 12 }, d.Add)
			for _, z := range []float64{2.5, 3, 3.25, 3.5, 3.75, 4, 4.25} {
				for _, sg := range []float64{-1, 1} {
					n := 0
					for x, c := range d.C {
						if sg*(float64(x)*4096/sd) >= z {
							n += c
						}
					}
					want := sx.Phi(-z) * float64(k)
					slack := 0.05*want + 4*math.Sqrt(want)
					t.Check(math.Abs(float64(n)-want) < slack, "%v of %v outcomes beyond %v deviations, expected %.1f", n, k, sg*z, want)
					t.Outcome("tail ok")
					t.State("tail", z, sg)
				}
			}
			t.Trans(k)
			t.Trace(k)
		})
		r.Case("seeded", func(t *lib.T) {
			for _, seed := range [][]byte{nil, {0}, {1, 2, 3}, make([]byte, 100)} {
				a, b := csprng.NewRoundedGaussianSamplerWithSeed(seed), csprng.NewRoundedGaussianSamplerWithSeed(append([]byte(nil), seed...))
				for i := range 5000 {
					t.Check(a.Sample(0.5, 1e6) == b.Sample(0.5, 1e6), "the same seed gives different samples (%d)", i)
				}
				t.Trans(10000)
				t.State("seed", len(seed))
			}
			a, b := csprng.NewRoundedGaussianSampler(), csprng.NewRoundedGaussianSampler()
			same := true
			for range 20 {
				same = same && a.Sample(0, 1e9) == b.Sample(0, 1e9)
			}
			t.Check(!same, "two samplers give the same samples")
		})
		r.Case("deviation", func(t *lib.T) {
			for _, sd := range []float64{0, -1, math.Inf(-1)} {
				p, _ := lib.Try(func() { csprng.NewRoundedGaussianSampler().Sample(0, sd) })
				t.Check(p, "deviation %v is not refused", sd)
				t.State(sd)
				t.Trans(1)
			}
		})
	})
}
