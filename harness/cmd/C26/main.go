// C26: the Twin-CDT sampler inverts the distribution function of the discrete
// Gaussian with its centre.
package main

import (
	"fmt"
	"math"
	"time"

	"github.com/sp301415/ringo-snark/math/csprng"
	"github.com/sp301415/ringo-snark/zzverif/lib"
	"github.com/sp301415/ringo-snark/zzverif/sx"
)

// eps is the precision of the comparison: the code normalises by the
// continuous integral, which is off by 5e-9 at deviation one and by less than
// 1e-12 from 1.2 on.
const eps = 1e-9

type ctl struct {
	s    *csprng.TwinCDTGaussianSampler
	u    *sx.Uniform
	word uint64
}

func newCtl(sd float64) *ctl {
	c := &ctl{}
	c.u = sx.NewUniform(&sx.Stream{})
	c.s = csprng.NewTwinCDTGaussianSampler(sd)
	if c.u == nil || sx.Inject(c.s, c.u) != 1 {
		return nil
	}
	return c
}

// at samples with the random word p * 2^64.
func (c *ctl) at(p float64, f func() int64) int64 {
	var w uint64
	switch {
	case p >= 1:
		w = math.MaxUint64
	case p > 0:
		w = uint64(p * (1 << 64))
	}
	c.u.Reset()
	c.u.St.Max = 4
	c.u.St.Word = func(int) uint64 { return w }
	return f()
}

// monotone tells whether the sampler inverts its random word.
func (c *ctl) monotone() bool {
	prev := int64(math.MinInt64)
	for i := range 64 {
		x := c.at((float64(i)+0.5)/64, func() int64 { return c.s.Sample(0) })
		if x < prev {
			return false
		}
		prev = x
	}
	return prev > c.at(0.001, func() int64 { return c.s.Sample(0) })
}

func invert(t *lib.T, c *ctl, sd, center float64, grid int) {
	F := sx.Gauss(center, sd)
	lo, hi := int64(math.Floor(center-9*sd))-2, int64(math.Ceil(center+9*sd))+2
	chk := func(p float64) {
		x := c.at(p, func() int64 { return c.s.Sample(center) })
		t.Check(x >= lo && x <= hi, "deviation %v, centre %v, source %v: sample %v", sd, center, p, x)
		t.Check(F(x-1) <= p+eps && p-eps <= F(x), "deviation %v, centre %v: source %v gives %v, where the distribution function goes from %v to %v", sd, center, p, x, F(x-1), F(x))
		t.Trans(1)
		t.Trace(1)
	}
	for x := lo; x <= hi; x++ {
		if v := F(x); v > 4*eps && v < 1-4*eps {
			chk(v - 2*eps)
			chk(v + 2*eps)
			chk((v + F(x-1)) / 2)
		}
		t.State(sd, center-math.Floor(center), x-int64(math.Floor(center)))
	}
	for i := range grid {
		chk((float64(i) + 0.5) / float64(grid))
	}
	chk(0)
	chk(1)
	// a coset sample lies in the coset and has the same distribution
	for i := range 16 {
		p := (float64(i) + 0.25) / 16
		x := c.at(p, func() int64 { return c.s.Sample(-center) })
		var y float64
		c.at(p, func() int64 { y = c.s.SampleCoset(center); return 0 })
		t.Check(math.Abs(y-(center+float64(x))) < 1e-6*math.Max(1, math.Abs(center)*1e-6), "deviation %v: coset sample %v of %v, whose integer sample is %v", sd, y, center, x)
		t.Trans(2)
	}
}

func main() {
	lib.Main("C26", lib.Options{QuickBudget: 150 * time.Second, Assumptions: []string{
		"deviations of at least 1.25; probabilities compared up to 1e-9",
	}}, func(r *lib.Run) {
		mlwe := 2 * math.Sqrt2 * 6 / math.Sqrt(2*math.Pi)
		ecd := func(b float64) float64 { return 2 / (b - 1) * (b + 1) * 6 / math.Sqrt(2*math.Pi) }
		sds := []float64{mlwe, ecd(1 << 20), ecd(5), 1.25, 2.5, 30}
		div := 1024
		if r.Thorough {
			sds = append(sds, 1.3, ecd(3), 3.3, 10, 64, 100)
			div = 8192
		}
		for _, sd := range sds {
			for part := range 8 {
				r.Case(fmt.Sprintf("invert/%.4g/%d", sd, part), func(t *lib.T) {
					c := newCtl(sd)
					if c == nil {
						t.Outcome("source not replaceable")
						return
					}
					t.Check(c.s.StdDev() == sd, "StdDev() is %v, not %v", c.s.StdDev(), sd)
					if !c.monotone() {
						t.Outcome("source not inverted directly")
						return
					}
					for k := part; k < div; k += 8 {
						f := float64(k) / float64(div)
						invert(t, c, sd, f, 32)
						for _, m := range []float64{-1, 17, -1000, 1 << 30, -(1 << 40)} {
							if (k/8)%5 == 0 {
								invert(t, c, sd, f+m, 8)
							}
						}
					}
					for k := part; k < 128; k += 8 {
						for _, d := range []float64{1. / 256, math.Exp2(-20), -math.Exp2(-20), math.Exp2(-45), -math.Exp2(-45), 1. / 384} {
							f := float64(k)/128 + d
							invert(t, c, sd, f, 16)
							invert(t, c, sd, f-3, 16)
						}
					}
					for _, f := range []float64{-1e-17, 1e-17, -math.SmallestNonzeroFloat64, math.Nextafter(1, 0), math.Nextafter(-1, 0), 0.5, -0.5} {
						invert(t, c, sd, f, 64)
					}
					t.Outcome("inverted")
					t.Sample("deviation %v: centres k/%d and around every k/128", sd, div)
				})
			}
			r.Case(fmt.Sprintf("lattice/%.4g", sd), func(t *lib.T) {
				c := newCtl(sd)
				if c == nil {
					t.Outcome("source not replaceable")
					return
				}
				for _, ctr := range []float64{0, 0.3, -0.5, 5. / 128, 5.5 / 128, -7.77, 1e6 + 0.99} {
					d := sx.NewCDF()
					sx.Explore(c.u, 1<<16, 8, func() int64 { return c.s.Sample(ctr) }, d.Add)
					sup, at, pt := d.Dist(sx.Gauss(ctr, sd))
					t.Check(sup < 5e-4 && pt < 5e-4, "deviation %v centre %v: off by %v at %v, by %v in a probability", sd, ctr, sup, at, pt)
					t.Trans(d.N)
				}
				t.Outcome("within tolerance")
				t.State("lattice", sd)
			})
		}
		r.Case("copies", func(t *lib.T) {
			const n = 3000 // more than one refill of the source
			seq := func(copies bool) (a, b, c []int64) {
				lib.Reseed(t.ID, r.Seed)
				s := csprng.NewTwinCDTGaussianSampler(1 << 12)
				var s1, s2 *csprng.TwinCDTGaussianSampler
				if copies {
					s1, s2 = s.SafeCopy(), s.SafeCopy()
				}
				for i := range n {
					a = append(a, s.Sample(float64(i)/77))
					if copies {
						b = append(b, s1.Sample(float64(i)/77), s1.Sample(0.5))
						c = append(c, s2.Sample(float64(i)/77), s2.Sample(0.5))
					}
				}
				return
			}
			a0, _, _ := seq(false)
			a, b, c := seq(true)
			eq, eq2, eq3 := 0, 0, 0
			for i := range a {
				t.Check(a0[i] == a[i], "sampling from a copy changes what the original samples")
				if a[i] == b[2*i] {
					eq++
				}
				if b[2*i] == c[2*i] {
					eq2++
				}
				if a[i] == c[2*i] {
					eq3++
				}
			}
			t.Check(eq < 50 && eq2 < 50 && eq3 < 50, "copies repeat each other's samples")
			t.Trans(6 * n)
			t.State("copies")
			// a copy has the distribution of the original
			for _, sd := range []float64{1.25, mlwe, 30} {
				cp := newCtl(sd)
				if cp == nil {
					continue
				}
				cp.s = cp.s.SafeCopy()
				t.Check(cp.s.StdDev() == sd, "the copy's StdDev() is %v, not %v", cp.s.StdDev(), sd)
				if sx.Inject(cp.s, cp.u) != 1 || !cp.monotone() {
					continue
				}
				for k := range 128 {
					invert(t, cp, sd, float64(k)/128+float64(k%3)/384-2, 16)
				}
			}
		})
	})
}
