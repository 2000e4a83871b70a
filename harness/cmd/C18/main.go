// C18: ring automorphisms.
package main

import (
	"fmt"
	"math"
	"math/big"
	"time"

	bexp "github.com/sp301415/ringo-snark/buckler/zzexp"
	jexp "github.com/sp301415/ringo-snark/jindo/zzexp"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/zzverif/lib"
	"github.com/sp301415/ringo-snark/zzverif/pl"
)

// sub substitutes X^idx for X modulo X^n + 1.
func sub(p pl.P, idx *big.Int, q *big.Int) pl.P {
	n := len(p)
	o := pl.Zero(n)
	m := big.NewInt(int64(2 * n))
	for i := range p {
		e := new(big.Int).Mul(idx, big.NewInt(int64(i)))
		k := int(e.Mod(e, m).Int64())
		if k < n {
			o[k].Add(o[k], p[i])
		} else {
			o[k-n].Sub(o[k-n], p[i])
		}
	}
	for i := range o {
		o[i].Mod(o[i], q)
	}
	return o
}

func run[E bignum.Uint[E]](r *lib.Run, name string, n int, exhaustive bool) {
	q := pl.Order[E]()
	base := fmt.Sprintf("%s/r%d", name, n)
	var idxs []int
	lim := 4*n + 1
	if n > 64 {
		lim = 33
	}
	for i := -lim; i <= lim; i += 2 {
		idxs = append(idxs, i)
	}
	if n > 64 {
		idxs = append(idxs, n-1, n+1, 2*n-1, 2*n+1, 4*n-1, -2*n-1, 5, 25, 125, 625)
	}
	idxs = append(idxs, 1<<62+1, -(1<<62)-1, math.MaxInt64, math.MinInt64+1)
	fam := func(t *lib.T) []pl.P {
		var a []pl.P
		if exhaustive {
			pl.All(n, pl.Alpha(q, true), func(p pl.P) { a = append(a, p) })
			return a
		}
		a = pl.Family(lib.NewRng(base, r.Seed), n, q, 6)
		if n > 32 {
			a = append(a[:4:4], a[n-2:]...)
		}
		return a
	}
	const parts = 3
	for part := range parts {
		r.Case(fmt.Sprintf("%s/map/%d", base, part), func(t *lib.T) {
			ev := bigpoly.NewCyclotomicEvaluator[E](n)
			fa := fam(t)
			for k, idx := range idxs {
				if k%parts != part {
					continue
				}
				bi := big.NewInt(int64(idx))
				for _, p := range fa {
					want := sub(p, bi, q)
					lp := pl.To[E](p, false)
					o := ev.Aut(lp, idx)
					t.Check(!o.IsNTT && pl.Eq(pl.From(o), want), "Aut(%v, %d) = %v, want %v", p, idx, pl.From(o), want)
					np := ev.NTT(lp)
					nb := pl.From(np)
					on := ev.Aut(np, idx)
					t.Check(on.IsNTT && pl.Eq(pl.From(ev.InvNTT(on)), want), "Aut of the transform of %v by %d = %v, want %v", p, idx, pl.From(ev.InvNTT(on)), want)
					t.Check(pl.Eq(pl.From(np), nb) && pl.Eq(pl.From(lp), p), "Aut changed its input")
					// destination with other contents, and in place
					d := pl.To[E](pl.Rand(lib.NewRng(base, 2), n, q), !lp.IsNTT)
					ev.AutTo(d, lp, idx)
					t.Check(!d.IsNTT && pl.Eq(pl.From(d), want), "AutTo(%v, %d) into a used destination = %v", p, idx, pl.From(d))
					ev.AutTo(d, np, idx)
					t.Check(d.IsNTT && pl.Eq(pl.From(ev.InvNTT(d)), want), "AutTo(transform of %v, %d) into a used destination", p, idx)
					ev.AutTo(lp, lp, idx)
					t.Check(pl.Eq(pl.From(lp), want), "AutTo(%v, %d) in place = %v", p, idx, pl.From(lp))
					ev.AutTo(np, np, idx)
					t.Check(pl.Eq(pl.From(ev.InvNTT(np)), want), "AutTo(transform of %v, %d) in place", p, idx)
					t.Trans(6)
					t.State(base, idx, p)
				}
			}
		})
	}
	r.Case(base+"/group", func(t *lib.T) {
		// composition, inverses, ring homomorphism
		ev := bigpoly.NewCyclotomicEvaluator[E](n)
		rng := lib.NewRng(base, 5)
		a, b := pl.To[E](pl.Rand(rng, n, q), false), pl.To[E](pl.Rand(rng, n, q), false)
		na, nb := ev.NTT(a), ev.NTT(b)
		step := 2
		if n > 32 {
			step = n/8 + 2 - (n/8)%2
		}
		for i := 1; i < 2*n; i += step {
			l := ev.Aut(ev.Mul(na, nb), i)
			x := ev.Mul(ev.Aut(na, i), ev.Aut(nb, i))
			t.Check(pl.Eq(pl.From(l), pl.From(x)), "Aut(ab, %d) != Aut(a)Aut(b)", i)
			for j := 1; j < 2*n; j += step {
				t.Check(pl.Eq(pl.From(ev.Aut(ev.Aut(a, j), i)), pl.From(ev.Aut(a, i*j))), "Aut %d after %d", i, j)
				t.Check(pl.Eq(pl.From(ev.Aut(ev.Aut(na, j), i)), pl.From(ev.Aut(na, i*j))), "Aut %d after %d of a transform", i, j)
				t.Trans(6)
			}
			t.State(base, "group", i)
		}
		t.Check(pl.Eq(pl.From(ev.Aut(a, 1)), pl.From(a)) && pl.Eq(pl.From(ev.Aut(na, 1)), pl.From(na)), "Aut by 1 is not the identity")
		for _, e := range []int{0, 2, -2, 2 * n, -2 * n, math.MinInt64} {
			p, _ := lib.Try(func() { ev.Aut(a, e) })
			t.Check(p, "Aut by %d is not refused", e)
			p, _ = lib.Try(func() { ev.Aut(na, e) })
			t.Check(p, "Aut of a transform by %d is not refused", e)
		}
	})
}

func main() {
	lib.Main("C18", lib.Options{QuickBudget: 100 * time.Second, Assumptions: []string{
		"automorphisms are linear, so basis vectors plus dense vectors decide them above the exhaustive ranks",
	}}, func(r *lib.Run) {
		run[*lib.F5](r, "F5", 1, true)
		run[*lib.F5](r, "F5", 2, true)
		run[*lib.F17](r, "F17", 1, true)
		run[*lib.F17](r, "F17", 2, true)
		run[*lib.F17](r, "F17", 4, false)
		run[*lib.F17](r, "F17", 8, false)
		run[*lib.F97](r, "F97", 16, false)
		run[*lib.F193](r, "F193", 32, false)
		run[*lib.F257](r, "F257", 64, false)
		run[*lib.F257](r, "F257", 128, false)
		run[*lib.F12289](r, "F12289", 512, false)
		run[*lib.F12289](r, "F12289", 2048, false)
		run[*bexp.Uint110](r, "Uint110", 16, false)
		run[*bexp.Uint220](r, "Uint220", 8, false)
		run[*bexp.Uint440](r, "Uint440", 8, false)
		run[*bexp.Uint880](r, "Uint880", 8, false)
		run[*jexp.Uint255](r, "Uint255", 16, false)
		if r.Thorough {
			run[*lib.F17](r, "F17x", 4, true)
			run[*bexp.Uint110](r, "Uint110", 64, false)
			run[*bexp.Uint110](r, "Uint110", 1024, false)
		}
	})
}
