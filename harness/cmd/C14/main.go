// C14: approximate infinity-norm constraints.
package main

import (
	"fmt"
	"math/big"
	"time"

	bexp "github.com/sp301415/ringo-snark/buckler/zzexp"
	"github.com/sp301415/ringo-snark/zzverif/circ"
	"github.com/sp301415/ringo-snark/zzverif/lib"
)

type E = *lib.F62

func bi(x int64) *big.Int { return big.NewInt(x) }

// The constraint must accept every vector within the bound and reject every
// vector with an entry above twice the slacked bound (rank times the bound):
// flipping that entry's projection bit moves each of the 128 projections by
// more than the width of the accepted interval, so each fails with
// probability at least one half.
func main() {
	lib.Main("C14", lib.Options{QuickBudget: 150 * time.Second, CaseTimeout: 120 * time.Second, Assumptions: []string{
		"ranks of at least 128 times the number of binary digits of rank*bound (smaller ones are refused by the implementation)",
		"vectors between the bound and twice rank*bound may go either way, as documented (slack)",
	}}, func(r *lib.Run) {
		q := circ.Order[E]()
		half := new(big.Int).Rsh(q, 1)
		run := func(n int, bound int64, extra bool) {
			mk := func() (*circ.Sys[E], error) {
				s := circ.Spec{Rank: n, NW: 1, Cs: []circ.Constraint{circ.Approx(0, bound)}}
				if extra { // next to other constraints, and a second approximate one
					s = circ.Spec{Rank: n, NP: 1, NW: 2, Cs: []circ.Constraint{
						circ.Arith(circ.Tm(1, 0), circ.Tm(-1, -1, 0)), circ.Approx(0, bound), circ.Lin(1, 0, "id"), {Kind: "approx", W: 1, Bound: bi(bound), Big: true}, circ.Inf(1, bound*8)}}
				}
				return circ.Compile[E](s, "crs")
			}
			args := func(v circ.Vec) (p, w []circ.Vec) {
				if extra {
					return []circ.Vec{v}, []circ.Vec{v, v}
				}
				return nil, []circ.Vec{v}
			}
			base := fmt.Sprintf("r%d/b%d/x%v/", n, bound, extra)
			pats := map[string]func(i int) int64{
				"max":  func(i int) int64 { return bound },
				"min":  func(i int) int64 { return -bound },
				"alt":  func(i int) int64 { return bound - 2*bound*int64(i%2) },
				"zero": func(i int) int64 { return 0 },
				"ramp": func(i int) int64 { return int64(i)%(2*bound+1) - bound },
				"half": func(i int) int64 { return bound * int64(1-i/(n/2)) },
			}
			names := []string{"max", "min", "alt", "zero", "ramp", "half"}
			for _, nm := range names {
				r.Case(base+"inside/"+nm, func(c *lib.T) {
					sys, err := mk()
					c.Check(err == nil, "compile: %v", err)
					v := circ.Const(n, 0)
					for i := range v {
						v[i].SetInt64(pats[nm](i))
					}
					p, w := args(v)
					res := sys.Verdict(p, w)
					c.Check(res == "accept", "rank %d: a vector within the bound %d (%s) gives %s", n, bound, nm, res)
					c.Trans(2)
					c.Trace(1)
					c.State(c.ID)
					c.Outcome("inside/" + res)
				})
			}
			if extra {
				return
			}
			lim := new(big.Int).Mul(bi(2*int64(n)), bi(bound))
			vals := []*big.Int{new(big.Int).Add(lim, bi(1)), new(big.Int).Lsh(lim, 1), new(big.Int).Lsh(bi(1), 40), half, new(big.Int).Add(half, bi(1)), new(big.Int).Sub(q, new(big.Int).Add(lim, bi(1))),
				// with all other entries zero every projection that contains the entry exceeds the slack
				new(big.Int).Add(new(big.Int).Rsh(lim, 1), bi(1)), new(big.Int).Sub(q, new(big.Int).Add(new(big.Int).Rsh(lim, 1), bi(1)))}
			for k, x := range vals {
				for _, pos := range []int{0, n - 1, n / 2, 129} {
					if !r.Thorough && (k+pos)%2 == 1 && pos != n-1 {
						continue
					}
					for _, bg := range []string{"zero", "max"} {
						if bg == "max" && (k > 5 || !r.Thorough && k > 0) {
							continue
						}
						r.Case(fmt.Sprintf("%soutside/%d/%d/%s", base, k, pos, bg), func(c *lib.T) {
							sys, err := mk()
							c.Check(err == nil, "compile: %v", err)
							v := circ.Const(n, 0)
							for i := range v {
								v[i].SetInt64(pats[bg](i))
							}
							v[pos] = x
							p, w := args(v)
							res := sys.Verdict(p, w)
							c.Check(res != "accept", "rank %d bound %d: entry %v at %d is accepted", n, bound, circ.Balanced(x, q), pos)
							c.Trans(2)
							c.Trace(1)
							c.State(c.ID)
							c.Outcome("outside/" + res)
						})
					}
				}
			}
			// several large entries that cancel unless the projection treats
			// every position independently
			combos := [][]int{{0, 1}, {1, 2}, {2, 3}, {6, 7}, {7, 8}, {0, 2}, {1, 3}, {0, 4}, {0, 8}, {0, 16}, {3, 35}, {0, 64}, {5, 133}, {1, 257}, {0, n / 2}, {0, n - 1}, {n - 2, n - 1}, {n/2 - 1, n / 2}, {0, 1, 2}, {4, 5, 6}, {0, 1, 2, 3}, {0, 2, 4, 6}, {n - 3, n - 2, n - 1}}
			if r.Thorough {
				for k := 1; k < n; k <<= 1 {
					for _, s := range []int{0, 1, k, n - 1 - k} {
						combos = append(combos, []int{s % n, (s + k) % n})
					}
				}
			}
			r.Case(base+"outside/cancel", func(c *lib.T) {
				sys, err := mk()
				c.Check(err == nil, "compile: %v", err)
				for _, cb := range combos {
					v := circ.Const(n, 0)
					sum := new(big.Int)
					for i, pos := range cb[:len(cb)-1] {
						v[pos] = new(big.Int).Mul(new(big.Int).Lsh(bi(1), 40), bi(int64(i+1)*int64(1-2*(i%2))))
						sum.Add(sum, v[pos])
					}
					v[cb[len(cb)-1]] = sum.Neg(sum)
					p, w := args(v)
					res := sys.Verdict(p, w)
					c.Check(res != "accept", "rank %d bound %d: large entries of sum zero at %v are accepted", n, bound, cb)
					c.Trans(2)
					c.Trace(1)
					c.State(c.ID, cb)
					c.Outcome("cancel/" + res)
				}
			})
			// every entry beyond the slack
			r.Case(base+"outside/all", func(c *lib.T) {
				sys, err := mk()
				c.Check(err == nil, "compile: %v", err)
				for _, f := range []func(i int) *big.Int{
					func(i int) *big.Int { return vals[0] },
					func(i int) *big.Int { return new(big.Int).Mul(vals[0], bi(int64(1-2*(i%2)))) },
					func(i int) *big.Int { return new(big.Int).Mod(new(big.Int).Mul(vals[2], bi(int64(i+1))), q) },
				} {
					v := make(circ.Vec, n)
					for i := range v {
						v[i] = f(i)
					}
					p, w := args(v)
					res := sys.Verdict(p, w)
					c.Check(res != "accept", "rank %d bound %d: a vector with every entry beyond the slack is accepted", n, bound)
					c.Trans(2)
					c.Trace(1)
					c.State(c.ID, res)
					c.Outcome("outside/" + res)
				}
			})
		}
		run(2048, 1, false)
		run(2048, 7, false)
		run(4096, 100, true)
		r.Case("zero-bound", func(c *lib.T) {
			for _, n := range []int{4, 2048} {
				sys, err := circ.Compile[E](circ.Spec{Rank: n, NW: 1, Cs: []circ.Constraint{circ.Approx(0, 0)}}, "crs")
				c.Check(err == nil, "compile: %v", err)
				v := circ.Const(n, 0)
				c.Check(sys.Verdict(nil, []circ.Vec{v}) == "accept", "rank %d: zero is rejected for bound zero", n)
				v[n-1].SetInt64(1)
				c.Check(sys.Verdict(nil, []circ.Vec{v}) != "accept", "rank %d: one is accepted for bound zero", n)
				c.Trans(4)
				c.Trace(2)
				c.State("zero", n)
			}
		})
		// the uint64 entry point over its whole range
		for _, b := range []uint64{1<<63 - 1, 1 << 63, 1<<64 - 1} {
			if !r.Thorough && b != 1<<63 {
				continue
			}
			r.Case(fmt.Sprintf("u64/%v", b), func(c *lib.T) {
				n := 16384
				q := circ.Order[*bexp.Uint110]()
				bb := new(big.Int).SetUint64(b)
				sys, err := circ.Compile[*bexp.Uint110](circ.Spec{Rank: n, NW: 1, Cs: []circ.Constraint{{Kind: "approx", W: 0, Bound: bb}}}, "crs")
				c.Check(err == nil, "compile: %v", err)
				v := circ.Const(n, 0)
				for i := range v {
					v[i] = new(big.Int).Mod(new(big.Int).Mul(bb, bi(int64(1-2*(i/3%2)))), q)
				}
				res := sys.Verdict(nil, []circ.Vec{v})
				c.Check(res == "accept", "a vector within the bound %v gives %s", b, res)
				v[77] = new(big.Int).Add(new(big.Int).Mul(bb, bi(2*int64(n))), bi(1))
				res = sys.Verdict(nil, []circ.Vec{v})
				c.Check(res != "accept", "bound %v: entry %v is accepted", b, v[77])
				c.Trans(4)
				c.Trace(2)
				c.State("u64", b)
			})
		}
		if r.Thorough {
			run(2048, 2, false)
			run(2048, 15, false)
			run(4096, 1, false)
			run(4096, 1<<19, false)
			run(2048, 3, true)
			run(8192, 1000, false)
		}
	})
}
