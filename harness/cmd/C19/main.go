// C19: polynomial division by the vanishing polynomial, evaluation, modulus
// switching, copying and marshalling.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"time"

	bexp "github.com/sp301415/ringo-snark/buckler/zzexp"
	jexp "github.com/sp301415/ringo-snark/jindo/zzexp"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/zzverif/lib"
	"github.com/sp301415/ringo-snark/zzverif/pl"
)

func fam(base string, seed, n int, q *big.Int, exhaustive bool) []pl.P {
	if exhaustive {
		var a []pl.P
		pl.All(n, pl.Alpha(q, true), func(p pl.P) { a = append(a, p) })
		return a
	}
	if n == 0 {
		return []pl.P{{}}
	}
	a := pl.Family(lib.NewRng(base, seed), n, q, 6)
	if n > 300 { // basis elements around powers of two only
		all := a
		a = nil
		for k, p := range all {
			if k >= n-1 || k&(k-1) == 0 && k > 256 || (k+1)&k == 0 && k > 256 {
				a = append(a, p)
			}
		}
	}
	return a
}

func quorem[E bignum.Uint[E]](r *lib.Run, name string, n int, exhaustive bool) {
	q := pl.Order[E]()
	r.Case(fmt.Sprintf("quorem/%s/r%d", name, n), func(t *lib.T) {
		ev := bigpoly.NewCyclicEvaluator[E](n)
		for _, p := range fam(t.ID, r.Seed, n, q, exhaustive) {
			for N := 1; N <= n+2; N++ {
				if n > 32 && N > 4 && N < n-4 && N&(N-1) != 0 && N%13 != 0 {
					continue
				}
				if n > 1024 && N > 2 && N < n-1 && N&(N-1) != 0 && N%1021 != 0 {
					continue
				}
				lp := pl.To[E](p, false)
				quo, rem := ev.QuoRemByVanishing(lp, N)
				qq, rr := pl.From(quo), pl.From(rem)
				t.Check(pl.Eq(pl.From(lp), p), "dividing %v changed it", p)
				t.Check(!quo.IsNTT && !rem.IsNTT && len(qq) == n && len(rr) == n, "shape of the results")
				for i := N; i < n; i++ {
					t.Check(rr[i].Sign() == 0, "%v mod X^%d-1 = %v has degree >= %d", p, N, rr, N)
				}
				// p = quo*(X^N-1) + rem as polynomials, not modulo anything
				got := make([]*big.Int, n+N)
				for i := range got {
					got[i] = new(big.Int)
				}
				for i := range n {
					got[i].Add(got[i], rr[i])
					got[i].Sub(got[i], qq[i])
					got[i+N].Add(got[i+N], qq[i])
				}
				for i := range got {
					want := new(big.Int)
					if i < n {
						want = p[i]
					}
					if n > 300 {
						t.Check(new(big.Int).Mod(got[i], q).Cmp(want) == 0, "rank %d / (X^%d-1): coefficient %d of quotient times divisor plus remainder is %v, want %v", n, N, i, got[i], want)
						continue
					}
					t.Check(new(big.Int).Mod(got[i], q).Cmp(want) == 0, "%v / (X^%d-1): quotient %v, remainder %v", p, N, qq, rr)
				}
				t.Trans(1)
				t.State(name, n, N, p)
			}
		}
		ntt := ev.NewPoly(true)
		pn, _ := lib.Try(func() { ev.QuoRemByVanishing(ntt, 1) })
		t.Check(pn, "division of a transform is not refused")
		pn, _ = lib.Try(func() { ev.QuoRemByVanishing(bigpoly.NewPoly[E](2*n, false), 1) })
		t.Check(pn, "division of another rank is not refused")
	})
}

func evaluate[E bignum.Uint[E]](r *lib.Run, name string, n int, exhaustive bool) {
	q := pl.Order[E]()
	r.Case(fmt.Sprintf("evaluate/%s/r%d", name, n), func(t *lib.T) {
		xs := pl.Alpha(q, exhaustive || q.BitLen() < 9)
		if q.BitLen() > 9 {
			xs = append(xs, pl.Rand(lib.NewRng(t.ID, r.Seed), 3, q)...)
		}
		if n > 300 && len(xs) > 12 {
			xs = xs[len(xs)-12:]
		}
		for _, p := range fam(t.ID, r.Seed, n, q, exhaustive) {
			lp := pl.To[E](p, false)
			for _, x := range xs {
				xe := pl.ToVec[E](pl.P{x})[0]
				got := lp.Evaluate(xe).BigInt(new(big.Int))
				want := pl.Eval(p, x, q)
				t.Check(got.Cmp(want) == 0, "(%v)(%v) = %v, want %v", p, x, got, want)
				t.Check(xe.BigInt(new(big.Int)).Cmp(x) == 0, "evaluation changed the point")
				t.Trans(1)
			}
			t.Check(pl.Eq(pl.From(lp), p), "evaluation changed the polynomial")
			t.State(name, n, p)
			// copy, marshal, clear
			c := bigpoly.NewPoly[E](n, true)
			c.CopyFrom(lp)
			t.Check(pl.Eq(pl.From(c), p) && !c.IsNTT, "CopyFrom(%v) = %v", p, pl.From(c))
			var want []byte
			for i := range lp.Coeffs {
				want = append(want, lp.Coeffs[i].Marshal()...)
			}
			t.Check(bytes.Equal(lp.Marshal(), want), "Marshal(%v)", p)
			c.Clear()
			t.Check(pl.Eq(pl.From(c), pl.Zero(n)) && pl.Eq(pl.From(lp), p), "Clear of a copy of %v", p)
			t.Check(lp.Rank() == n, "Rank")
			t.Trans(4)
		}
	})
}

func modswitch[E bignum.Uint[E]](r *lib.Run, name string, n int, Qs []*big.Int) {
	q := pl.Order[E]()
	r.Case(fmt.Sprintf("modswitch/%s/r%d", name, n), func(t *lib.T) {
		ev := bigpoly.NewCyclotomicEvaluator[E](n)
		for _, Q := range Qs {
			var vals []*big.Int
			if Q.IsInt64() && Q.Int64() <= 2000 {
				for a := -Q.Int64(); a <= Q.Int64(); a++ {
					vals = append(vals, big.NewInt(a))
				}
			} else {
				h := new(big.Int).Rsh(Q, 1)
				for _, b := range []*big.Int{big.NewInt(0), h, Q} {
					for d := int64(-5); d <= 5; d++ {
						x := new(big.Int).Add(b, big.NewInt(d))
						vals = append(vals, x, new(big.Int).Neg(x))
					}
				}
				for _, x := range pl.Rand(lib.NewRng(t.ID, r.Seed), 40, Q) {
					vals = append(vals, x, new(big.Int).Neg(x))
				}
			}
			for len(vals)%n != 0 {
				vals = append(vals, big.NewInt(int64(len(vals))))
			}
			for i := 0; i < len(vals); i += n {
				in := vals[i : i+n]
				keep := make([]*big.Int, n)
				for k := range keep {
					keep[k] = new(big.Int).Set(in[k])
				}
				o := ev.ModSwitch(in, Q)
				t.Check(!o.IsNTT && o.Rank() == n, "shape of the result")
				for k := range in {
					t.Check(in[k].Cmp(keep[k]) == 0, "the input changed")
					// 2|o*Q - in*q| <= Q for some representative of o
					z := new(big.Int).Mul(in[k], q)
					g := o.Coeffs[k].BigInt(new(big.Int))
					d := new(big.Int).Mul(g, Q)
					d.Sub(d, z)
					m := new(big.Int).Mul(Q, q)
					d.Mod(d, m)
					if new(big.Int).Lsh(d, 1).Cmp(m) > 0 {
						d.Sub(d, m)
					}
					d.Abs(d)
					t.Check(d.Lsh(d, 1).Cmp(Q) <= 0, "ModSwitch(%v) from %v to %v = %v is not the nearest residue", in[k], Q, q, g)
					t.State(name, Q, in[k])
				}
				d := pl.To[E](pl.Rand(lib.NewRng(t.ID, 9), n, q), true)
				ev.ModSwitchTo(d, in, Q)
				t.Check(!d.IsNTT && pl.Eq(pl.From(d), pl.From(o)), "ModSwitchTo into a used destination")
				t.Trans(2)
			}
		}
		pn, _ := lib.Try(func() { ev.ModSwitch(make([]*big.Int, n+1), big.NewInt(3)) })
		t.Check(pn, "ModSwitch of another length is not refused")
	})
}

func bigs(xs ...string) []*big.Int {
	var o []*big.Int
	for _, x := range xs {
		b, ok := new(big.Int).SetString(x, 0)
		if !ok {
			panic(x)
		}
		o = append(o, b)
	}
	return o
}

func main() {
	lib.Main("C19", lib.Options{QuickBudget: 100 * time.Second}, func(r *lib.Run) {
		quorem[*lib.F5](r, "F5", 1, true)
		quorem[*lib.F5](r, "F5", 2, true)
		quorem[*lib.F17](r, "F17", 2, true)
		quorem[*lib.F17](r, "F17", 8, false)
		quorem[*lib.F97](r, "F97", 16, false)
		quorem[*lib.F193](r, "F193", 32, false)
		quorem[*lib.F257](r, "F257", 64, false)
		quorem[*lib.F257](r, "F257", 128, false)
		quorem[*lib.F12289](r, "F12289", 256, false)
		quorem[*bexp.Uint110](r, "Uint110", 16, false)
		quorem[*bexp.Uint220](r, "Uint220", 16, false)
		quorem[*bexp.Uint440](r, "Uint440", 16, false)
		quorem[*bexp.Uint880](r, "Uint880", 16, false)
		quorem[*jexp.Uint255](r, "Uint255", 16, false)
		for n := 0; n <= 3; n++ {
			evaluate[*lib.F5](r, "F5", n, n > 0)
		}
		for n := 1; n <= 33; n++ {
			evaluate[*lib.F97](r, "F97", n, false)
		}
		for _, n := range []int{7, 8, 9, 17, 64} {
			evaluate[*bexp.Uint110](r, "Uint110", n, false)
			evaluate[*bexp.Uint220](r, "Uint220", n, false)
			evaluate[*bexp.Uint440](r, "Uint440", n, false)
			evaluate[*bexp.Uint880](r, "Uint880", n, false)
			evaluate[*jexp.Uint255](r, "Uint255", n, false)
		}
		// long polynomials
		quorem[*lib.F12289](r, "F12289", 2048, false)
		for _, n := range []int{511, 1024, 2049, 4100} {
			evaluate[*lib.F97](r, "F97", n, false)
		}
		evaluate[*jexp.Uint255](r, "Uint255", 2049, false)
		var small []*big.Int
		for Q := int64(1); Q <= 40; Q++ {
			small = append(small, big.NewInt(Q))
		}
		small = append(small, bigs("97", "256", "257", "1000", "1999")...)
		big_ := bigs("12289", "0x7fffffffffffffff", "0xffffffffffffffc5", "0x10000000000000000", "0x8000000000000000000000000000000000000001", "0x123456789abcdef123456789abcdef123456789abcdef123456789abcdef123456789abcdef123456789abcdef")
		modswitch[*lib.F5](r, "F5", 1, small)
		modswitch[*lib.F17](r, "F17", 4, small)
		modswitch[*lib.F97](r, "F97", 2, append(small, big_...))
		modswitch[*lib.F12289](r, "F12289", 8, append(small, big_...))
		modswitch[*lib.F12289](r, "F12289", 2048, append(small[:9:9], big_...))
		modswitch[*bexp.Uint110](r, "Uint110", 16, append(small[:9:9], big_...))
		modswitch[*bexp.Uint220](r, "Uint220", 16, append(small[:9:9], big_...))
		modswitch[*bexp.Uint440](r, "Uint440", 16, append(small[:9:9], big_...))
		modswitch[*jexp.Uint255](r, "Uint255", 16, append(small[:9:9], big_...))
		if r.Thorough {
			quorem[*lib.F17](r, "F17x", 4, true)
			evaluate[*lib.F5](r, "F5", 5, true)
			quorem[*lib.F12289](r, "F12289", 1024, false)
			for n := 34; n <= 130; n++ {
				evaluate[*lib.F97](r, "F97", n, false)
			}
		}
	})
}
