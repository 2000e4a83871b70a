// C16: sum constraints hold exactly for the claimed sum.
package main

import (
	"fmt"
	"math/big"
	"time"

	bexp "github.com/sp301415/ringo-snark/buckler/zzexp"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zzverif/circ"
	"github.com/sp301415/ringo-snark/zzverif/lib"
)

func bi(x int64) *big.Int { return big.NewInt(x) }

type expr struct {
	name string
	np   int
	nw   int
	ts   []circ.Term
}

var exprs = []expr{
	{"w", 0, 1, []circ.Term{circ.Tm(1, -1, 0)}},
	{"ww", 0, 2, []circ.Term{circ.Tm(1, -1, 0, 1)}},
	{"pw-3w", 1, 1, []circ.Term{circ.Tm(1, 0, 0), circ.Tm(-3, -1, 0)}},
	{"www+5", 0, 1, []circ.Term{circ.Tm(1, -1, 0, 0, 0), circ.Tm(5, -1)}},
	{"p", 1, 0, []circ.Term{circ.Tm(1, 0)}},
	{"const", 0, 0, []circ.Term{circ.Tm(2, -1)}},
	{"pwwww", 1, 2, []circ.Term{circ.Tm(2, 0, 0, 1, 0, 1), circ.Tm(1, 0)}},
	{"empty", 0, 0, nil},
}

func field[E bignum.Uint[E]](r *lib.Run, name string, ranks []int, pats []int) {
	q := circ.Order[E]()
	for _, n := range ranks {
		root := circ.NTTRoot[E](n)
		for _, e := range exprs {
			r.Case(fmt.Sprintf("%s/r%d/%s", name, n, e.name), func(c *lib.T) {
				for _, k := range pats {
					b := circ.NewB(n, q, root)
					b.Salt = r.Seed
					for i := range e.np {
						b.Pub(b.Pat(k + i + 1))
					}
					for i := range e.nw {
						b.Wit(b.Pat(k + i))
					}
					if e.nw == 0 { // at least one witness
						b.Wit(b.Pat(k))
					}
					s := b.SumOf(b.Eval(e.ts...))
					claims := []*big.Int{}
					for _, d := range []*big.Int{bi(0), bi(1), bi(-1), bi(int64(n)), bi(int64(-n)), q, new(big.Int).Neg(q), new(big.Int).Lsh(q, 1), new(big.Int).Rsh(q, 1)} {
						claims = append(claims, new(big.Int).Add(s, d))
					}
					inv := new(big.Int).ModInverse(bi(int64(n)), q)
					mul := func(x *big.Int) *big.Int { return new(big.Int).Mod(new(big.Int).Mul(s, x), q) }
					claims = append(claims, bi(0), bi(1), mul(bi(int64(n))), mul(inv), mul(bi(-1)), mul(bi(2)))
					for _, cl := range claims {
						sp := b.Spec
						sp.Cs = []circ.Constraint{{Kind: "sum", Terms: e.ts, Sum: cl, Big: cl.Sign() < 0 || cl.BitLen() > 40}}
						sys, err := circ.Compile[E](sp, "crs")
						c.Check(err == nil, "compile: %v", err)
						holds := sp.Holds(b.P, b.W, q, root)
						v := sys.Verdict(b.P, b.W)
						c.Check(holds == (v == "accept"), "%v p=%v w=%v: the sum is %v, claimed %v: %s", sp, b.P, b.W, s, cl, v)
						c.Trans(3)
						c.Trace(1)
						c.State(sp.String(), b.P, b.W)
						c.Outcome(fmt.Sprintf("%v/%s", holds, v))
					}
				}
				c.Sample("sum of %v over %d slots", e.ts, n)
			})
		}
	}
}

// bounds: claimed sums through the uint64 and the big entry point, over the
// whole range of each, where the true sum is the claim exactly.
func entry[E bignum.Uint[E]](r *lib.Run, name string, n int) {
	q, root := circ.Order[E](), circ.NTTRoot[E](n)
	two := func(k uint, d int64) *big.Int { return new(big.Int).Add(new(big.Int).Lsh(bi(1), k), bi(d)) }
	for _, s := range []*big.Int{bi(0), two(31, 0), two(32, -1), two(32, 0), two(52, 1), two(53, 1), two(62, 0), two(63, -1), two(63, 0), two(63, 5), two(64, -1), two(64, 0), two(64, 1), two(100, 3)} {
		for _, useBig := range []bool{false, true} {
			if !s.IsUint64() && !useBig || s.Cmp(q) >= 0 {
				continue
			}
			r.Case(fmt.Sprintf("entry/%s/r%d/%v/%v", name, n, s, useBig), func(c *lib.T) {
				sys, err := circ.Compile[E](circ.Spec{Rank: n, NW: 1, Cs: []circ.Constraint{{Kind: "sum", Terms: []circ.Term{circ.Tm(1, -1, 0)}, Sum: s, Big: useBig}}}, "crs")
				c.Check(err == nil, "compile: %v", err)
				for _, d := range []*big.Int{bi(0), bi(1), bi(-1), two(63, 0), two(64, 0), new(big.Int).Neg(two(64, 0)), new(big.Int).Mul(s, bi(-2))} {
					w := circ.Const(n, 0)
					w[n-1] = new(big.Int).Mod(new(big.Int).Sub(new(big.Int).Add(s, d), bi(7)), q)
					w[0] = bi(7)
					holds := sys.Spec.Holds(nil, []circ.Vec{w}, q, root)
					v := sys.Verdict(nil, []circ.Vec{w})
					c.Check(holds == (v == "accept"), "claimed sum %v (big entry point: %v), true sum off by %v: %s", s, useBig, d, v)
					c.Trans(3)
					c.Trace(1)
					c.State(s, useBig, d)
					c.Outcome(fmt.Sprintf("%v/%s", holds, v))
				}
			})
		}
	}
}

// several claims: every combination of right and wrong sums.
func several[E bignum.Uint[E]](r *lib.Run, name string, n, m int) {
	q, root := circ.Order[E](), circ.NTTRoot[E](n)
	r.Case(fmt.Sprintf("several/%s/r%d/m%d", name, n, m), func(c *lib.T) {
		tot := 1
		for range m {
			tot *= 3
		}
		for code := range tot {
			b := circ.NewB(n, q, root)
			x := code
			var errs []int64
			for i := range m {
				w := b.Wit(b.Pat(i))
				d := int64(x%3) - 1
				x /= 3
				errs = append(errs, d)
				ts := []circ.Term{circ.Tm(int64(i+1), -1, w)}
				if i%2 == 1 {
					ts = []circ.Term{circ.Tm(1, -1, w, w)}
				}
				b.Add(circ.Constraint{Kind: "sum", Terms: ts, Sum: new(big.Int).Add(b.SumOf(b.Eval(ts...)), bi(d)), Big: true})
			}
			sys, err := circ.Compile[E](b.Spec, "crs")
			c.Check(err == nil, "compile: %v", err)
			holds := b.Spec.Holds(b.P, b.W, q, root)
			v := sys.Verdict(b.P, b.W)
			c.Check(holds == (v == "accept"), "claims off by %v: %s", errs, v)
			c.Trans(3)
			c.Trace(1)
			c.State(b.Spec.String())
			c.Outcome(fmt.Sprintf("%v/%s", holds, v))
		}
	})
}

// zeros: every pattern of zero and nonzero true sums (and claims) of several
// constraints, with every single wrong claim.
func zeros[E bignum.Uint[E]](r *lib.Run, name string, n, m int) {
	q, root := circ.Order[E](), circ.NTTRoot[E](n)
	vals := []int64{0, 6, -4}
	tot := 1
	for range m {
		tot *= len(vals)
	}
	for part := range 9 {
		r.Case(fmt.Sprintf("zeros/%s/r%d/m%d/%d", name, n, m, part), func(c *lib.T) {
			for code := part; code < tot; code += 9 {
				for bad := range m + 1 {
					b := circ.NewB(n, q, root)
					var claims []int64
					for i, x := 0, code; i < m; i++ {
						cl := vals[x%len(vals)]
						x /= len(vals)
						claims = append(claims, cl)
						v := circ.Const(n, 0)
						v[i%n].SetInt64(5)
						v[(i+1)%n].SetInt64(cl - 5)
						if i == bad {
							v[n-1].Add(v[n-1], bi(1))
						}
						for j := range v {
							v[j].Mod(v[j], q)
						}
						w := b.Wit(v)
						// through either entry point
						b.Add(circ.Constraint{Kind: "sum", Terms: []circ.Term{circ.Tm(1, -1, w)}, Sum: bi(cl), Big: cl < 0 || i%2 == 1})
					}
					sys, err := circ.Compile[E](b.Spec, "crs")
					c.Check(err == nil, "compile: %v", err)
					holds := b.Spec.Holds(b.P, b.W, q, root)
					v := sys.Verdict(b.P, b.W)
					c.Check(holds == (bad == m), "harness: %v", b.Spec)
					c.Check(holds == (v == "accept"), "claims %v, wrong one %d: %s", claims, bad, v)
					c.Trans(2)
					c.Trace(1)
					c.State(b.Spec.String(), b.W)
					c.Outcome(fmt.Sprintf("%v/%s", holds, v))
				}
			}
		})
	}
}

// many claims about one witness, one of them or two adjacent ones wrong.
func many[E bignum.Uint[E]](r *lib.Run, name string, n, m int) {
	q, root := circ.Order[E](), circ.NTTRoot[E](n)
	for part := range 4 {
		r.Case(fmt.Sprintf("many/%s/r%d/m%d/%d", name, n, m, part), func(c *lib.T) {
			k := 0
			try := func(bad map[int]int64) {
				if k++; k%4 != part {
					return
				}
				b := circ.NewB(n, q, root)
				w := b.Wit(b.Pat(1))
				for i := range m {
					ts := []circ.Term{circ.Tm(int64(i+1), -1, w)}
					if i%3 == 1 {
						ts = append(ts, circ.Tm(1, -1, w, w))
					}
					b.Add(circ.Constraint{Kind: "sum", Terms: ts, Sum: new(big.Int).Add(b.SumOf(b.Eval(ts...)), bi(bad[i])), Big: true})
				}
				sys, err := circ.Compile[E](b.Spec, "crs")
				c.Check(err == nil, "compile: %v", err)
				v := sys.Verdict(b.P, b.W)
				c.Check((len(bad) == 0) == (v == "accept"), "%d claims, off by %v: %s", m, bad, v)
				c.Trans(3)
				c.Trace(1)
				c.State(m, fmt.Sprint(bad))
				c.Outcome(v)
			}
			for range 4 {
				try(nil)
			}
			for i := range m {
				try(map[int]int64{i: 1})
				if i > 0 {
					try(map[int]int64{i - 1: 1, i: -1})
				}
			}
		})
	}
}

func main() {
	lib.Main("C16", lib.Options{QuickBudget: 140 * time.Second, CaseTimeout: 120 * time.Second, Assumptions: []string{
		"rejections are probabilistic with error below 2^-40 per proof",
	}}, func(r *lib.Run) {
		field[*lib.F62](r, "F62", []int{2, 4, 8}, []int{0, 1})
		field[*lib.F62](r, "F62", []int{64, 1024}, []int{0})
		field[*bexp.Uint110](r, "Uint110", []int{4}, []int{0})
		entry[*bexp.Uint110](r, "Uint110", 4)
		several[*lib.F62](r, "F62", 4, 2)
		several[*lib.F62](r, "F62", 4, 3)
		zeros[*lib.F62](r, "F62", 4, 2)
		zeros[*lib.F62](r, "F62", 2, 3)
		many[*lib.F62](r, "F62", 4, 9)
		many[*lib.F62](r, "F62", 4, 40)
		if r.Thorough {
			many[*lib.F62](r, "F62", 4, 150)
			field[*lib.F62](r, "F62x", []int{2, 4, 8, 16, 64, 256}, []int{0, 1, 2, 3, 5, 6, 7})
			several[*lib.F62](r, "F62", 2, 4)
			several[*lib.F62](r, "F62", 8, 5)
			field[*bexp.Uint220](r, "Uint220", []int{4}, []int{0, 1})
			field[*bexp.Uint440](r, "Uint440", []int{4}, []int{0})
		}
	})
}
