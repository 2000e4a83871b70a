// C13: norm constraints accept exactly the vectors within the bound.
package main

import (
	"fmt"
	"math/big"
	"sort"
	"time"

	bexp "github.com/sp301415/ringo-snark/buckler/zzexp"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zzverif/circ"
	"github.com/sp301415/ringo-snark/zzverif/lib"
)

func bi(x int64) *big.Int { return big.NewInt(x) }

func uniq(xs []*big.Int) []*big.Int {
	sort.Slice(xs, func(i, j int) bool { return xs[i].Cmp(xs[j]) < 0 })
	var o []*big.Int
	for i, x := range xs {
		if i == 0 || x.Cmp(xs[i-1]) != 0 {
			o = append(o, x)
		}
	}
	return o
}

// infCase decides one infinity-norm bound: all values (or the boundary values)
// inside are accepted together, each value outside is rejected alone.
func infCase[E bignum.Uint[E]](c *lib.T, n int, bound *big.Int, useBig bool, thorough bool) {
	q := circ.Order[E]()
	root := circ.NTTRoot[E](n)
	half := new(big.Int).Rsh(q, 1)
	var in, out []*big.Int
	add := func(v *big.Int) {
		if circ.Balanced(v, q).CmpAbs(bound) <= 0 {
			in = append(in, new(big.Int).Mod(v, q))
		} else {
			out = append(out, new(big.Int).Mod(v, q))
		}
	}
	if bound.Cmp(bi(80)) <= 0 {
		for v := -bound.Int64(); v <= bound.Int64(); v++ {
			add(bi(v))
		}
	} else {
		for k := 0; k < bound.BitLen(); k++ {
			for _, d := range []int64{-1, 0, 1} {
				x := new(big.Int).Add(new(big.Int).Lsh(bi(1), uint(k)), bi(d))
				if x.Cmp(bound) <= 0 {
					add(x)
					add(new(big.Int).Neg(x))
				}
			}
			x := new(big.Int).Rsh(bound, uint(k))
			add(x)
			add(new(big.Int).Neg(x))
			x = new(big.Int).Sub(bound, x)
			add(x)
		}
	}
	for _, d := range []int64{0, 1, 2, 3} {
		x := new(big.Int).Add(bound, bi(d))
		add(x)
		add(new(big.Int).Neg(x))
	}
	add(new(big.Int).Add(new(big.Int).Lsh(bound, 1), bi(1)))
	add(new(big.Int).Lsh(bound, 1))
	add(half)
	add(new(big.Int).Add(half, bi(1)))
	if thorough {
		add(new(big.Int).Neg(half))
		for k := 1; k < q.BitLen()-1; k++ {
			x := new(big.Int).Lsh(bi(1), uint(k))
			add(x)
			add(new(big.Int).Neg(x))
		}
	}
	in, out = uniq(in), uniq(out)
	nw := max(1, min((len(in)+n-1)/n, 40/max(1, bound.BitLen())))
	var cs []circ.Constraint
	for i := range nw {
		cs = append(cs, circ.Constraint{Kind: "inf", W: i, Bound: bound, Big: useBig})
	}
	sys, err := circ.Compile[E](circ.Spec{Rank: n, NW: nw, Cs: cs}, "crs")
	c.Check(err == nil, "compile: %v", err)
	for off := 0; off < len(in); off += nw * n {
		w := make([]circ.Vec, nw)
		for i := range w {
			w[i] = circ.Const(n, 0)
			for j := range w[i] {
				if k := off + i*n + j; k < len(in) {
					w[i][j] = in[k]
				}
			}
		}
		c.Check(sys.Spec.Holds(nil, w, q, root), "harness")
		v := sys.Verdict(nil, w)
		c.Check(v == "accept", "bound %v: values within it are not accepted (%s): %v", bound, v, w)
		c.Trans(2)
		c.Trace(1)
		c.State(n, bound, w)
		c.Outcome("inside/accept")
	}
	sys, err = circ.Compile[E](circ.Spec{Rank: n, NW: 1, Cs: cs[:1]}, "crs")
	c.Check(err == nil, "compile: %v", err)
	if !thorough && bound.BitLen() > 20 && len(out) > 4 {
		// nearest values on both sides and the middle of the field
		out = []*big.Int{out[0], out[len(out)/2], out[len(out)-1]}
	}
	for k, x := range out {
		if !thorough && bound.BitLen() > 5 && len(out) > 6 && k%2 == 1 && k != len(out)-1 {
			continue
		}
		w := circ.Const(n, 0)
		w[k%n] = x
		v := sys.Verdict(nil, []circ.Vec{w})
		c.Check(v != "accept", "bound %v: value %v is accepted", bound, circ.Balanced(x, q))
		c.Trans(2)
		c.Trace(1)
		c.State(n, bound, x)
		c.Outcome("outside/" + v)
	}
	c.Sample("inf bound %v: %d values accepted, %d rejected", bound, len(in), len(out))
}

// squares writes s as a sum of at most n squares.
func squares(s *big.Int, n int, q *big.Int) circ.Vec {
	w := circ.Const(n, 0)
	r := new(big.Int).Set(s)
	for i := 0; r.Sign() > 0; i++ {
		if i == n {
			return nil
		}
		t := new(big.Int).Sqrt(r)
		if i == n-4 && r.IsInt64() && r.Int64() < 1<<14 { // finish exactly with four squares
			v := r.Int64()
			for a := int64(0); a*a <= v; a++ {
				for b := int64(0); a*a+b*b <= v; b++ {
					for d := int64(0); a*a+b*b+d*d <= v; d++ {
						e := v - a*a - b*b - d*d
						f := new(big.Int).Sqrt(bi(e)).Int64()
						if f*f == e {
							w[i], w[i+1], w[i+2], w[i+3] = bi(a), bi(b), bi(d), bi(f)
							goto done
						}
					}
				}
			}
		}
		r.Sub(r, new(big.Int).Mul(t, t))
		w[i].Set(t)
	}
done:
	for i := range w {
		if i%2 == 1 {
			w[i].Neg(w[i])
		}
		w[i].Mod(w[i], q)
	}
	return w
}

func twoCase[E bignum.Uint[E]](c *lib.T, n int, bound *big.Int, useBig, all bool) {
	q := circ.Order[E]()
	root := circ.NTTRoot[E](n)
	sys, err := circ.Compile[E](circ.Spec{Rank: n, NW: 1, Cs: []circ.Constraint{{Kind: "two", W: 0, Bound: bound, Big: useBig}}}, "crs")
	c.Check(err == nil, "compile: %v", err)
	var ss []*big.Int
	if all {
		for s := int64(0); s <= bound.Int64()+3; s++ {
			ss = append(ss, bi(s))
		}
	} else {
		for _, d := range []int64{-1, 0, 1, 2} {
			ss = append(ss, new(big.Int).Add(bound, bi(d)))
		}
		for k := 1; k < bound.BitLen(); k += 7 {
			ss = append(ss, new(big.Int).Rsh(bound, uint(k)))
		}
		ss = append(ss, bi(0), bi(1), bi(2))
	}
	half := new(big.Int).Rsh(q, 1)
	for _, d := range []int64{-1, 0, 1, 2} {
		ss = append(ss, new(big.Int).Add(half, bi(d)), new(big.Int).Add(q, bi(d-2)))
	}
	ss = append(ss, new(big.Int).Lsh(bound, 1), new(big.Int).Add(new(big.Int).Lsh(bound, 1), bi(1)))
	for _, s := range ss {
		if s.Sign() < 0 {
			continue
		}
		w := squares(new(big.Int).Mod(s, q), n, q)
		if w == nil {
			c.Outcome("not a sum of few squares")
			continue
		}
		holds := sys.Spec.Holds(nil, []circ.Vec{w}, q, root)
		v := sys.Verdict(nil, []circ.Vec{w})
		c.Check(holds == (v == "accept"), "squared norm bound %v: squared norm %v gives %s", bound, new(big.Int).Mod(s, q), v)
		c.Trans(2)
		c.Trace(1)
		c.State(n, bound, s)
		c.Outcome(fmt.Sprintf("two/%v/%s", holds, v))
	}
}

func main() {
	lib.Main("C13", lib.Options{QuickBudget: 150 * time.Second, CaseTimeout: 120 * time.Second, Assumptions: []string{
		"squared norms are taken modulo the field order, as documented",
		"squared-norm bounds have at most rank binary digits (larger ones are refused by the implementation)",
	}}, func(r *lib.Run) {
		inf62 := func(n int, b *big.Int, ub bool) {
			r.Case(fmt.Sprintf("inf/F62/r%d/%v/%v", n, b, ub), func(c *lib.T) { infCase[*lib.F62](c, n, b, ub, r.Thorough) })
		}
		inf110 := func(n int, b *big.Int) {
			r.Case(fmt.Sprintf("inf/Uint110/r%d/%v", n, b), func(c *lib.T) { infCase[*bexp.Uint110](c, n, b, true, r.Thorough) })
		}
		top := int64(33)
		if r.Thorough {
			top = 80
		}
		for b := int64(0); b <= top; b++ {
			if !r.Thorough && b > 17 && b < 30 {
				continue
			}
			inf62(8, bi(b), b%2 == 0)
		}
		q := circ.Order[*lib.F62]()
		half := new(big.Int).Rsh(q, 1)
		step := 18
		if r.Thorough {
			step = 1
		}
		for k := 6; k < 61; k += step {
			for _, d := range []int64{-1, 0, 1} {
				inf62(64, new(big.Int).Add(new(big.Int).Lsh(bi(1), uint(k)), bi(d)), d != 0)
			}
		}
		for _, d := range []int64{-1, 1} {
			inf62(128, new(big.Int).Add(half, bi(d)), true)
		}
		inf62(128, new(big.Int).Set(q), true)
		q110 := circ.Order[*bexp.Uint110]()
		for _, b := range []*big.Int{bi(5), new(big.Int).Lsh(bi(1), 64), new(big.Int).Sub(new(big.Int).Lsh(bi(1), 64), bi(1)), new(big.Int).Lsh(bi(3), 70), new(big.Int).Rsh(q110, 1)} {
			inf110(128, b)
		}
		// the uint64 entry points over their whole range
		for _, b := range []*big.Int{new(big.Int).Sub(new(big.Int).Lsh(bi(1), 63), bi(1)), new(big.Int).Lsh(bi(1), 63), new(big.Int).Sub(new(big.Int).Lsh(bi(1), 64), bi(1))} {
			r.Case(fmt.Sprintf("inf/Uint110/u64/%v", b), func(c *lib.T) { infCase[*bexp.Uint110](c, 128, b, false, r.Thorough) })
			r.Case(fmt.Sprintf("two/Uint110/u64/%v", b), func(c *lib.T) { twoCase[*bexp.Uint110](c, 64, b, false, false) })
		}
		two62 := func(n int, b *big.Int, ub, all bool) {
			r.Case(fmt.Sprintf("two/F62/r%d/%v/%v", n, b, ub), func(c *lib.T) { twoCase[*lib.F62](c, n, b, ub, all) })
		}
		for b := int64(0); b <= top/3; b++ {
			two62(8, bi(b), b%2 == 1, true)
		}
		for _, b := range []int64{31, 32, 33, 255} {
			two62(8, bi(b), false, false)
		}
		for _, b := range []*big.Int{bi(1 << 20), bi(1<<20 - 1), bi(1<<40 + 12345), new(big.Int).Sub(half, bi(1)), half, new(big.Int).Add(half, bi(1)), new(big.Int).Sub(q, bi(1)), new(big.Int).Sub(q, bi(2)), q} {
			two62(64, b, true, false)
		}
		for _, k := range []int{65, 72, 90, 109} {
			if k != 72 && !r.Thorough {
				continue
			}
			for _, d := range []int64{-1, 0} {
				b := new(big.Int).Add(new(big.Int).Lsh(bi(1), uint(k)), bi(d))
				r.Case(fmt.Sprintf("two/Uint110/%v", b), func(c *lib.T) { twoCase[*bexp.Uint110](c, 128, b, true, false) })
			}
		}
		r.Case("two/Uint110/half", func(c *lib.T) {
			twoCase[*bexp.Uint110](c, 128, new(big.Int).Rsh(q110, 1), true, false)
		})
		// the bounds of several constraints do not influence each other
		r.Case("several", func(c *lib.T) {
			root := circ.NTTRoot[*lib.F62](8)
			bounds := []int64{1, 2, 5, 0, 8}
			for _, kind := range []string{"inf", "two"} {
				var cs []circ.Constraint
				for i, b := range bounds {
					cs = append(cs, circ.Constraint{Kind: kind, W: i, Bound: bi(b)})
				}
				sys, err := circ.Compile[*lib.F62](circ.Spec{Rank: 8, NW: 5, Cs: cs}, "crs")
				c.Check(err == nil, "compile: %v", err)
				for bad := -1; bad < len(bounds); bad++ {
					w := make([]circ.Vec, 5)
					for i, b := range bounds {
						v := b
						if i == bad {
							v++
						}
						if kind == "two" {
							w[i] = squares(bi(v), 8, q)
						} else {
							w[i] = circ.Const(8, v)
							if i == bad {
								w[i] = circ.Const(8, b)
								w[i][i].SetInt64(v)
							}
						}
					}
					holds := sys.Spec.Holds(nil, w, q, root)
					c.Check(holds == (bad < 0), "harness")
					v := sys.Verdict(nil, w)
					c.Check(holds == (v == "accept"), "%s bounds %v, constraint %d exceeded: %s", kind, bounds, bad, v)
					c.Trans(2)
					c.Trace(1)
					c.State(kind, bad)
				}
			}
		})
		// all bounds on one shared witness: the smallest decides
		r.Case("shared", func(c *lib.T) {
			root := circ.NTTRoot[*lib.F62](4)
			for _, bs := range [][]int64{{2, 3}, {3, 2}, {4, 2, 7}, {5, 1, 2}, {2, 2}} {
				var cs []circ.Constraint
				for _, b := range bs {
					cs = append(cs, circ.Inf(0, b))
				}
				cs = append(cs, circ.Two(0, 15))
				sys, err := circ.Compile[*lib.F62](circ.Spec{Rank: 4, NW: 1, Cs: cs}, "crs")
				c.Check(err == nil, "compile: %v", err)
				for x := int64(0); x <= 6; x++ {
					w := []circ.Vec{circ.V(x, 0, 0, 0)}
					holds := sys.Spec.Holds(nil, w, q, root)
					v := sys.Verdict(nil, w)
					c.Check(holds == (v == "accept"), "bounds %v and squared norm 15 on one witness, value %d: %s", bs, x, v)
					c.Trans(2)
					c.Trace(1)
					c.State(bs, x)
				}
			}
		})
		for a := int64(1); a <= 5; a++ {
			r.Case(fmt.Sprintf("shared-two/%d", a), func(c *lib.T) {
				root := circ.NTTRoot[*lib.F62](4)
				for b := int64(1); b <= 5; b++ {
					sys, err := circ.Compile[*lib.F62](circ.Spec{Rank: 4, NW: 1, Cs: []circ.Constraint{circ.Two(0, a), circ.Two(0, b)}}, "crs")
					c.Check(err == nil, "compile: %v", err)
					for x := min(a, b); x <= min(a, b)+1; x++ {
						w := []circ.Vec{squares(bi(x), 4, q)}
						holds := sys.Spec.Holds(nil, w, q, root)
						v := sys.Verdict(nil, w)
						c.Check(holds == (v == "accept"), "squared norms at most %d and %d on one witness, squared norm %d: %s", a, b, x, v)
						c.Trans(2)
						c.Trace(1)
						c.State(a, b, x)
					}
				}
			})
		}
		if r.Thorough {
			inf440 := func(b *big.Int) {
				r.Case(fmt.Sprintf("inf/Uint440/%v", b), func(c *lib.T) { infCase[*bexp.Uint440](c, 256, b, true, false) })
			}
			q440 := circ.Order[*bexp.Uint440]()
			inf440(new(big.Int).Lsh(bi(1), 128))
			inf440(new(big.Int).Rsh(q440, 1))
			for b := int64(20); b < 200; b++ {
				two62(8, bi(b), false, false)
			}
		}
	})
}
