// C17: ring arithmetic through the number theoretic transforms agrees with
// schoolbook arithmetic.
package main

import (
	"fmt"
	"math/big"
	"time"

	bexp "github.com/sp301415/ringo-snark/buckler/zzexp"
	jexp "github.com/sp301415/ringo-snark/jindo/zzexp"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/zzverif/lib"
	"github.com/sp301415/ringo-snark/zzverif/pl"
)

// eval is the common interface of the two evaluators.
type eval[E bignum.Uint[E]] interface {
	Rank() int
	NewPoly(bool) *bigpoly.Poly[E]
	Add(a, b *bigpoly.Poly[E]) *bigpoly.Poly[E]
	AddTo(o, a, b *bigpoly.Poly[E])
	Sub(a, b *bigpoly.Poly[E]) *bigpoly.Poly[E]
	SubTo(o, a, b *bigpoly.Poly[E])
	Neg(a *bigpoly.Poly[E]) *bigpoly.Poly[E]
	NegTo(o, a *bigpoly.Poly[E])
	ScalarMul(a *bigpoly.Poly[E], c E) *bigpoly.Poly[E]
	ScalarMulTo(o, a *bigpoly.Poly[E], c E)
	ScalarMulAddTo(o, a *bigpoly.Poly[E], c E)
	ScalarMulSubTo(o, a *bigpoly.Poly[E], c E)
	Mul(a, b *bigpoly.Poly[E]) *bigpoly.Poly[E]
	MulTo(o, a, b *bigpoly.Poly[E])
	MulAddTo(o, a, b *bigpoly.Poly[E])
	MulSubTo(o, a, b *bigpoly.Poly[E])
	NTT(a *bigpoly.Poly[E]) *bigpoly.Poly[E]
	NTTTo(o, a *bigpoly.Poly[E])
	InvNTT(a *bigpoly.Poly[E]) *bigpoly.Poly[E]
	InvNTTTo(o, a *bigpoly.Poly[E])
}

type transformer[E bignum.Uint[E]] interface {
	FwdNTTTo(o, v []E)
	InvNTTTo(o, v []E)
	Rank() int
}

func mk[E bignum.Uint[E]](rank, sign int) (eval[E], transformer[E]) {
	if sign > 0 {
		return bigpoly.NewCyclicEvaluator[E](rank), bigpoly.NewCyclicTransformer[E](rank)
	}
	return bigpoly.NewCyclotomicEvaluator[E](rank), bigpoly.NewCyclotomicTransformer[E](rank)
}

func run[E bignum.Uint[E]](r *lib.Run, name string, rank int, exhaustive bool, dense int) {
	q := pl.Order[E]()
	for _, sign := range []int{1, -1} {
		kind := map[int]string{1: "cyclic", -1: "cyclotomic"}[sign]
		base := fmt.Sprintf("%s/%s/r%d", name, kind, rank)
		family := func(seed int) []pl.P {
			if exhaustive {
				var a []pl.P
				pl.All(rank, pl.Alpha(q, true), func(p pl.P) { a = append(a, p) })
				return a
			}
			return pl.Family(lib.NewRng(base, seed), rank, q, dense)
		}
		r.Case(base+"/transform", func(t *lib.T) {
			ev, tr := mk[E](rank, sign)
			t.Check(ev.Rank() == rank && tr.Rank() == rank, "Rank() is %d and %d", ev.Rank(), tr.Rank())
			// evaluation points, read off the transform of X
			pts := make(pl.P, rank)
			if rank > 1 {
				pts = pl.From(ev.NTT(pl.To[E](pl.Basis(rank, 1, big.NewInt(1)), false)))
			} else {
				pts[0] = new(big.Int).Mod(big.NewInt(int64(sign)), q)
			}
			want := new(big.Int).Mod(big.NewInt(int64(sign)), q)
			seen := map[string]bool{}
			for s, x := range pts {
				t.Check(new(big.Int).Exp(x, big.NewInt(int64(rank)), q).Cmp(want) == 0, "slot %d evaluates at %v, which is not a root of X^%d%+d", s, x, rank, -sign)
				t.Check(!seen[x.String()], "two slots evaluate at %v", x)
				seen[x.String()] = true
			}
			for _, p := range family(r.Seed) {
				lp := pl.To[E](p, false)
				n := ev.NTT(lp)
				ref := make(pl.P, rank)
				for s := range ref {
					ref[s] = pl.Eval(p, pts[s], q)
				}
				t.Check(n.IsNTT, "NTT result is not marked as transformed")
				t.Check(pl.Eq(pl.From(n), ref), "NTT(%v) = %v, want %v", p, pl.From(n), ref)
				t.Check(pl.Eq(pl.From(lp), p) && !lp.IsNTT, "NTT changed its input %v", p)
				b := ev.InvNTT(n)
				t.Check(!b.IsNTT && pl.Eq(pl.From(b), p), "InvNTT(NTT(%v)) = %v", p, pl.From(b))
				// the transform of p read as a vector of values
				v := ev.InvNTT(pl.To[E](p, true))
				t.Check(pl.Eq(pl.From(ev.NTT(v)), p), "NTT(InvNTT(%v)) = %v", p, pl.From(ev.NTT(v)))
				o := pl.ToVec[E](pl.Zero(rank))
				tr.FwdNTTTo(o, pl.ToVec[E](p))
				t.Check(pl.Eq(pl.FromVec(o), ref), "transformer NTT(%v) = %v", p, pl.FromVec(o))
				tr.InvNTTTo(o, pl.ToVec[E](ref))
				t.Check(pl.Eq(pl.FromVec(o), p), "transformer InvNTT(%v) = %v", ref, pl.FromVec(o))
				t.Trans(6)
				t.State(base, "ntt", p)
			}
			t.Sample("%s rank %d over %v: evaluation points %v...", kind, rank, q, pts[0])
		})
		r.Case(base+"/ops", func(t *lib.T) {
			ev, _ := mk[E](rank, sign)
			fa := family(r.Seed)
			fb := fa
			if exhaustive && len(fa)*len(fa) > 700000 {
				fb = pl.Family(lib.NewRng(base, 7), rank, q, 3)
			}
			if !exhaustive {
				// all pairs of basis vectors decide every bilinear wiring for small ranks
				if rank > 64 {
					fb = append([]pl.P{pl.Basis(rank, 1, big.NewInt(1)), pl.Basis(rank, rank-1, big.NewInt(1))}, fa[rank:]...)
				}
			}
			scal := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(2), new(big.Int).Sub(q, big.NewInt(1))}
			acc := pl.Rand(lib.NewRng(base, 3), rank, q)
			for ia, a := range fa {
				la, na := pl.To[E](a, false), ev.NTT(pl.To[E](a, false))
				for ib, b := range fb {
					lb, nb := pl.To[E](b, false), ev.NTT(pl.To[E](b, false))
					prod := pl.Mul(a, b, q, sign)
					got := pl.From(ev.InvNTT(ev.Mul(na, nb)))
					t.Check(pl.Eq(got, prod), "%v * %v = %v, want %v", a, b, got, prod)
					t.Trans(1)
					if ib > 3 && ia > 3 && !(ia%5 == 0 && ib%7 == 0) {
						continue
					}
					o := ev.NTT(pl.To[E](acc, false))
					ev.MulAddTo(o, na, nb)
					t.Check(pl.Eq(pl.From(ev.InvNTT(o)), pl.Add(acc, prod, q)), "MulAdd(%v, %v)", a, b)
					ev.MulSubTo(o, na, nb)
					t.Check(pl.Eq(pl.From(ev.InvNTT(o)), acc), "MulSub(%v, %v)", a, b)
					t.Check(pl.Eq(pl.From(ev.Add(la, lb)), pl.Add(a, b, q)), "Add(%v, %v)", a, b)
					t.Check(pl.Eq(pl.From(ev.Sub(la, lb)), pl.Sub(a, b, q)), "Sub(%v, %v)", a, b)
					s := ev.Add(na, nb)
					t.Check(s.IsNTT && pl.Eq(pl.From(ev.InvNTT(s)), pl.Add(a, b, q)), "Add of transforms of (%v, %v)", a, b)
					s = ev.Sub(na, nb)
					t.Check(s.IsNTT && pl.Eq(pl.From(ev.InvNTT(s)), pl.Sub(a, b, q)), "Sub of transforms of (%v, %v)", a, b)
					t.Check(pl.Eq(pl.From(la), a) && pl.Eq(pl.From(lb), b), "operands changed")
					t.Trans(6)
				}
				t.Check(pl.Eq(pl.From(ev.Neg(la)), pl.Neg(a, q)), "Neg(%v)", a)
				for _, c := range scal {
					ce := pl.ToVec[E](pl.P{c})[0]
					t.Check(pl.Eq(pl.From(ev.ScalarMul(la, ce)), pl.Scale(a, c, q)), "%v * %v", c, a)
					o := pl.To[E](acc, false)
					ev.ScalarMulAddTo(o, la, ce)
					t.Check(pl.Eq(pl.From(o), pl.Add(acc, pl.Scale(a, c, q), q)), "ScalarMulAdd(%v, %v)", a, c)
					ev.ScalarMulSubTo(o, la, ce)
					t.Check(pl.Eq(pl.From(o), acc), "ScalarMulSub(%v, %v)", a, c)
					s := ev.ScalarMul(na, ce)
					t.Check(s.IsNTT && pl.Eq(pl.From(ev.InvNTT(s)), pl.Scale(a, c, q)), "%v * transform of %v", c, a)
					t.Trans(4)
				}
				t.State(base, "ops", a)
			}
		})
	}
	r.Case(fmt.Sprintf("%s/domain/r%d", name, rank), func(t *lib.T) {
		// mixing domains or ranks is refused, not computed
		for _, sign := range []int{1, -1} {
			ev, _ := mk[E](rank, sign)
			c, n, w := ev.NewPoly(false), ev.NewPoly(true), bigpoly.NewPoly[E](2*rank, false)
			t.Check(!c.IsNTT && n.IsNTT && c.Rank() == rank, "NewPoly")
			for k, f := range map[string]func(){
				"Mul of coefficients":      func() { ev.Mul(c, c) },
				"Mul of mixed domains":     func() { ev.Mul(n, c) },
				"MulAdd of coefficients":   func() { ev.MulAddTo(n, c, c) },
				"MulSub of mixed domains":  func() { ev.MulSubTo(n, n, c) },
				"Add of mixed domains":     func() { ev.Add(n, c) },
				"Sub of mixed domains":     func() { ev.Sub(c, n) },
				"NTT of a transform":       func() { ev.NTT(n) },
				"InvNTT of coefficients":   func() { ev.InvNTT(c) },
				"Add of different ranks":   func() { ev.Add(c, w) },
				"NTT of another rank":      func() { ev.NTT(w) },
				"Neg of another rank":      func() { ev.Neg(w) },
				"Evaluate of a transform":  func() { n.Evaluate(n.Coeffs[0]) },
				"ScalarMul of other ranks": func() { ev.ScalarMulTo(c, w, n.Coeffs[0]) },
			} {
				p, _ := lib.Try(f)
				t.Check(p, "%s is not refused", k)
				t.Trans(1)
				t.State(name, rank, sign, k)
			}
		}
	})
}

// large checks the transforms at sizes where the full family is out of reach:
// every evaluation point is a distinct root, the transforms are inverse to each
// other, and sampled slots hold the evaluations.
func large[E bignum.Uint[E]](r *lib.Run, name string, rank int) {
	q := pl.Order[E]()
	for _, sign := range []int{1, -1} {
		base := fmt.Sprintf("%s/large/%+d/r%d", name, sign, rank)
		r.Case(base, func(t *lib.T) {
			ev, _ := mk[E](rank, sign)
			pts := pl.From(ev.NTT(pl.To[E](pl.Basis(rank, 1, big.NewInt(1)), false)))
			seen := map[string]bool{}
			want := new(big.Int).Mod(big.NewInt(int64(sign)), q)
			for s, x := range pts {
				t.Check(new(big.Int).Exp(x, big.NewInt(int64(rank)), q).Cmp(want) == 0 && !seen[x.String()], "slot %d evaluates at %v", s, x)
				seen[x.String()] = true
			}
			rng := lib.NewRng(base, r.Seed)
			for k := range 6 {
				p := pl.Rand(rng, rank, q)
				switch k {
				case 0:
					p = pl.Basis(rank, rank-1, big.NewInt(3))
				case 1:
					p = pl.Basis(rank, rank/2, big.NewInt(1))
				case 2:
					p = pl.Basis(rank, rank/2-1, big.NewInt(1))
				}
				n := ev.NTT(pl.To[E](p, false))
				for j := range 40 {
					s := j
					if j >= 20 {
						s = int(rng.N(uint64(rank)))
					}
					if k < 3 || j < 8 || j > 30 {
						t.Check(n.Coeffs[s].BigInt(new(big.Int)).Cmp(pl.Eval(p, pts[s], q)) == 0, "slot %d is not the evaluation at %v", s, pts[s])
					}
				}
				t.Check(pl.Eq(pl.From(ev.InvNTT(n)), p), "InvNTT(NTT(p)) != p")
				t.Check(pl.Eq(pl.From(ev.NTT(ev.InvNTT(pl.To[E](p, true)))), p), "NTT(InvNTT(p)) != p")
				t.Trans(3)
				t.State(base, k)
			}
		})
	}
}

func main() {
	lib.Main("C17", lib.Options{QuickBudget: 120 * time.Second, Assumptions: []string{
		"above the exhaustive ranks, transforms and products are decided on a generating family (they are linear and bilinear by construction of the check's operands)",
	}}, func(r *lib.Run) {
		run[*lib.F5](r, "F5", 1, true, 0)
		run[*lib.F5](r, "F5", 2, true, 0)
		run[*lib.F17](r, "F17", 1, true, 0)
		run[*lib.F17](r, "F17", 2, true, 0)
		run[*lib.F17](r, "F17", 4, false, 12)
		run[*lib.F17](r, "F17", 8, false, 12)
		for _, n := range []int{1, 2, 4, 8, 16} {
			run[*lib.F97](r, "F97", n, false, 10)
		}
		for _, n := range []int{8, 16, 32} {
			run[*lib.F193](r, "F193", n, false, 6)
		}
		for _, n := range []int{4, 16, 64, 128} {
			run[*lib.F257](r, "F257", n, false, 4)
		}
		run[*lib.F12289](r, "F12289", 256, false, 3)
		for _, n := range []int{512, 1024, 2048} {
			large[*lib.F12289](r, "F12289", n)
		}
		large[*lib.F147457](r, "F147457", 4096)
		large[*lib.F147457](r, "F147457", 8192)
		large[*lib.F62](r, "F62", 16384)
		large[*jexp.Uint255](r, "Uint255", 4096)
		large[*bexp.Uint110](r, "Uint110", 8192)
		run[*lib.F60K4](r, "F60K4", 32, false, 4)
		run[*jexp.Uint255](r, "Uint255", 8, false, 4)
		run[*jexp.Uint255](r, "Uint255", 32, false, 4)
		run[*bexp.Uint110](r, "Uint110", 32, false, 4)
		run[*bexp.Uint220](r, "Uint220", 16, false, 4)
		run[*bexp.Uint440](r, "Uint440", 16, false, 4)
		run[*bexp.Uint880](r, "Uint880", 16, false, 4)
		if r.Thorough {
			run[*lib.F5](r, "F5x", 2, true, 0)
			run[*lib.F17](r, "F17x", 4, true, 0)
			run[*lib.F12289](r, "F12289", 128, false, 6)
			run[*lib.F147457](r, "F147457", 256, false, 3)
			for _, n := range []int{1, 2, 4, 64, 128, 256} {
				run[*bexp.Uint110](r, "Uint110", n, false, 4)
				run[*bexp.Uint880](r, "Uint880", n, false, 4)
			}
		}
	})
}
