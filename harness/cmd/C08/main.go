// C08: assignments that violate the circuit are not provable by the prover.
package main

import (
	"fmt"
	"math/big"
	"time"

	bexp "github.com/sp301415/ringo-snark/buckler/zzexp"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zzverif/circ"
	"github.com/sp301415/ringo-snark/zzverif/lib"
)

// decide compares the verdict of the system with the reference semantics.
func decide[E bignum.Uint[E]](c *lib.T, sys *circ.Sys[E], p, w []circ.Vec, q, root *big.Int, what string) {
	holds := sys.Spec.Holds(p, w, q, root)
	v := sys.Verdict(p, w)
	c.Trans(2)
	c.Trace(1)
	c.State(sys.Spec.String(), p, w)
	if holds {
		c.Outcome("satisfied")
		c.Check(v == "accept", "%s: %v is satisfied by p=%v w=%v but the verdict is %s", what, sys.Spec, p, w, v)
	} else {
		c.Outcome("violated/" + v)
		c.Check(v != "accept", "%s: %v is violated by p=%v w=%v but the proof is accepted", what, sys.Spec, p, w)
	}
}

// mutants enumerates every entry of every vector and every delta.
func mutants[E bignum.Uint[E]](c *lib.T, x circ.Inst, q, root *big.Int, deltas []*big.Int, all bool) {
	sys, err := circ.Compile[E](x.Spec, "crs")
	c.Check(err == nil, "%s: compile: %v", x.Name, err)
	k := 0
	for side, vs := range [][]circ.Vec{x.P, x.W} {
		for i := range vs {
			for j := range vs[i] {
				for d := range deltas {
					if !all && d != k%len(deltas) {
						continue
					}
					y := x.Clone()
					t := y.P
					if side == 1 {
						t = y.W
					}
					t[i][j].Mod(t[i][j].Add(t[i][j], deltas[d]), q)
					decide(c, sys, y.P, y.W, q, root, fmt.Sprintf("entry %d of vector %d/%d changed by %v", j, side, i, deltas[d]))
				}
				k++
			}
		}
	}
	c.Sample("%v", x.Spec)
}

func field[E bignum.Uint[E]](r *lib.Run, name string, ranks, pats []int, all bool) {
	q := circ.Order[E]()
	deltas := []*big.Int{big.NewInt(1), big.NewInt(-1), new(big.Int).Rsh(q, 1), big.NewInt(5)}
	for _, n := range ranks {
		root := circ.NTTRoot[E](n)
		for _, l := range circ.Letters() {
			for _, k := range pats {
				r.Case(fmt.Sprintf("%s/r%d/p%d/%s", name, n, k, l.Name), func(c *lib.T) {
					mutants[E](c, circ.Word(n, q, root, r.Seed, k, l), q, root, deltas, all)
				})
			}
		}
	}
}

func main() {
	lib.Main("C08", lib.Options{QuickBudget: 140 * time.Second, CaseTimeout: 120 * time.Second, Assumptions: []string{
		"rejections are probabilistic with error below 2^-40 per proof (62-bit and larger fields)",
	}}, func(r *lib.Run) {
		field[*lib.F62](r, "F62", []int{2, 4}, []int{0}, false)
		q := circ.Order[*lib.F62]()
		// complete enumeration of small assignments of one constraint
		vals := []int64{0, 1, -1, 2}
		small := map[string]circ.Spec{
			"eq":    {Rank: 2, NW: 2, Cs: []circ.Constraint{circ.Arith(circ.Tm(1, -1, 0), circ.Tm(-1, -1, 1))}},
			"mul":   {Rank: 2, NW: 2, Cs: []circ.Constraint{circ.Arith(circ.Tm(1, -1, 0, 1), circ.Tm(-1, -1, 0))}},
			"sum":   {Rank: 2, NW: 2, Cs: []circ.Constraint{circ.Sum(1, circ.Tm(1, -1, 0, 1), circ.Tm(1, -1, 0))}},
			"shift": {Rank: 2, NW: 2, Cs: []circ.Constraint{circ.Lin(0, 1, "shift")}},
			"pub":   {Rank: 2, NP: 1, NW: 1, Cs: []circ.Constraint{circ.Arith(circ.Tm(1, 0, 0), circ.Tm(-1, 0))}},
		}
		for _, nm := range []string{"eq", "mul", "sum", "shift", "pub"} {
			for part := range 16 {
				r.Case(fmt.Sprintf("all2/%s/%d", nm, part), func(c *lib.T) {
					s := small[nm]
					sys, err := circ.Compile[*lib.F62](s, "crs")
					c.Check(err == nil, "compile: %v", err)
					root := circ.NTTRoot[*lib.F62](2)
					for k := range 16 {
						if !r.Thorough && k%4 != part%4 {
							continue
						}
						a := circ.V(vals[part%4], vals[part/4])
						b := circ.V(vals[k%4], vals[k/4])
						for _, v := range []circ.Vec{a, b} {
							for i := range v {
								v[i].Mod(v[i], q)
							}
						}
						if s.NP == 1 {
							decide(c, sys, []circ.Vec{a}, []circ.Vec{b}, q, root, nm)
						} else {
							decide(c, sys, nil, []circ.Vec{a, b}, q, root, nm)
						}
					}
				})
			}
		}
		// violations next to other constraints: every pair of letters, one
		// mutated entry in each vector
		L := circ.Letters()
		root := circ.NTTRoot[*lib.F62](4)
		for i, a := range L {
			r.Case("pair/"+a.Name, func(c *lib.T) {
				step := 6
				if r.Thorough {
					step = 1
				}
				for j := i % step; j < len(L); j += step {
					x := circ.Word(4, q, root, r.Seed, i+j, a, L[j])
					sys, err := circ.Compile[*lib.F62](x.Spec, "crs")
					c.Check(err == nil, "%s: compile: %v", x.Name, err)
					for m := range len(x.P) + len(x.W) {
						if !r.Thorough && m > 0 && m != len(x.P)+len(x.W)-1 {
							continue
						}
						y := x.Clone()
						v := append(append([]circ.Vec{}, y.P...), y.W...)[m]
						e := v[(i+j+m)%4]
						e.Mod(e.Add(e, big.NewInt(9)), q)
						decide(c, sys, y.P, y.W, q, root, x.Name)
					}
				}
			})
		}
		// larger ranks: first, middle and last entries of every vector in turn
		for _, n := range []int{32, 256, 1024} {
			for _, l := range L {
				r.Case(fmt.Sprintf("large/r%d/%s", n, l.Name), func(c *lib.T) {
					root := circ.NTTRoot[*lib.F62](n)
					x := circ.Word(n, q, root, r.Seed, 0, l)
					sys, err := circ.Compile[*lib.F62](x.Spec, "crs")
					c.Check(err == nil, "%s: compile: %v", x.Name, err)
					for k, j := range []int{0, n/2 - 1, n / 2, n - 1} {
						y := x.Clone()
						v := append(append([]circ.Vec{}, y.P...), y.W...)
						e := v[k%len(v)][j]
						e.Mod(e.Add(e, big.NewInt(9)), q)
						decide(c, sys, y.P, y.W, q, root, fmt.Sprintf("%s: entry %d of vector %d", x.Name, j, k%len(v)))
					}
				})
			}
		}
		if r.Thorough {
			field[*lib.F62](r, "F62x", []int{2, 4, 8, 16}, []int{0, 1, 5}, true)
			field[*bexp.Uint110](r, "Uint110x", []int{4}, []int{0}, false)
		}
	})
}
