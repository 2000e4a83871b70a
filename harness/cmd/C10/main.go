// C10: a proof is bound to the public inputs it was made for.
package main

import (
	"fmt"
	"math/big"
	"time"

	bexp "github.com/sp301415/ringo-snark/buckler/zzexp"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zzverif/circ"
	"github.com/sp301415/ringo-snark/zzverif/lib"
)

// specs has circuits in which another public input is also satisfied by the
// same witness, or in which the public input is not constrained at all.
func specs(n int) []circ.Inst {
	z := func() circ.Vec { return circ.Const(n, 0) }
	o := func() circ.Vec { return circ.Const(n, 1) }
	ramp := z()
	for i := range ramp {
		ramp[i].SetInt64(int64(i) + 3)
	}
	R := func() circ.Vec { return ramp.Clone() }
	var out []circ.Inst
	if n == 4 { // many inputs, every one constrained or every one unused
		for _, m := range []int{17, 40, 130} {
			a := circ.Inst{Name: fmt.Sprintf("unused%d", m), Spec: circ.Spec{Rank: n, NP: m, NW: 1, Cs: []circ.Constraint{circ.Arith(circ.Tm(1, -1, 0))}}, W: []circ.Vec{z()}}
			b := circ.Inst{Name: fmt.Sprintf("used%d", m), Spec: circ.Spec{Rank: n, NP: m, NW: 1}, W: []circ.Vec{z()}}
			for i := range m {
				v := R()
				v[i%n].SetInt64(int64(i))
				a.P, b.P = append(a.P, v), append(b.P, v.Clone())
				b.Spec.Cs = append(b.Spec.Cs, circ.Arith(circ.Tm(1, i, 0)))
			}
			out = append(out, a, b)
		}
	}
	return append(out, []circ.Inst{
		{"unused", circ.Spec{Rank: n, NP: 2, NW: 1, Cs: []circ.Constraint{circ.Arith(circ.Tm(1, -1, 0))}}, []circ.Vec{R(), o()}, []circ.Vec{z()}},
		{"zero-coeff", circ.Spec{Rank: n, NP: 2, NW: 1, Cs: []circ.Constraint{circ.Arith(circ.Tm(1, 0, 0), circ.Tm(2, 1, 0))}}, []circ.Vec{R(), R()}, []circ.Vec{z()}},
		{"zero-sum", circ.Spec{Rank: n, NP: 2, NW: 1, Cs: []circ.Constraint{circ.Sum(0, circ.Tm(1, 0, 0), circ.Tm(2, 1, 0))}}, []circ.Vec{R(), R()}, []circ.Vec{z()}},
		{"difference", circ.Spec{Rank: n, NP: 2, NW: 2, Cs: []circ.Constraint{circ.Arith(circ.Tm(1, 0), circ.Tm(-1, 1), circ.Tm(1, -1, 0)), circ.Lin(1, 0, "id")}}, []circ.Vec{R(), R()}, []circ.Vec{z(), z()}},
		{"product", circ.Spec{Rank: n, NP: 2, NW: 2, Cs: []circ.Constraint{circ.Arith(circ.Tm(1, 0, 0), circ.Tm(-1, 1, 1)), circ.Inf(0, 4)}}, []circ.Vec{o(), o()}, []circ.Vec{o(), o()}},
		{"sum-only", circ.Spec{Rank: n, NP: 1, NW: 1, Cs: []circ.Constraint{circ.Sum(int64(n), circ.Tm(1, 0)), circ.Arith(circ.Tm(1, -1, 0))}}, []circ.Vec{o()}, []circ.Vec{z()}},
		{"two-norm", circ.Spec{Rank: n, NP: 1, NW: 1, Cs: []circ.Constraint{circ.Two(0, 3), circ.Sum(0, circ.Tm(1, 0, 0))}}, []circ.Vec{R()}, []circ.Vec{z()}},
		{"many", circ.Spec{Rank: n, NP: 5, NW: 1, Cs: []circ.Constraint{circ.Arith(circ.Tm(1, 4, 0), circ.Tm(1, 2, 0))}}, []circ.Vec{z(), o(), R(), o(), z()}, []circ.Vec{z()}},
	}...)
}

func field[E bignum.Uint[E]](r *lib.Run, name string, n int) {
	q, root := circ.Order[E](), circ.NTTRoot[E](n)
	for _, x := range specs(n) {
		r.Case(fmt.Sprintf("%s/r%d/%s", name, n, x.Name), func(c *lib.T) {
			sys, err := circ.Compile[E](x.Spec, "crs")
			c.Check(err == nil, "compile: %v", err)
			c.Check(x.Spec.Holds(x.P, x.W, q, root), "harness: not satisfied")
			pf, err := sys.Prove(x.P, x.W)
			c.Check(err == nil && sys.Verify(x.P, pf), "honest proof rejected")
			try := func(p []circ.Vec, what string) {
				diff := false
				for i := range p {
					for j := range p[i] {
						if new(big.Int).Mod(new(big.Int).Sub(p[i][j], x.P[i][j]), q).Sign() != 0 {
							diff = true
						}
					}
				}
				v := sys.Verify(p, pf)
				c.Trans(1)
				c.Trace(1)
				c.State(x.Name, what, p)
				if diff {
					c.Check(!v, "%s: proof for p=%v accepted for p=%v (%s)", x.Spec, x.P, p, what)
					c.Outcome("other/reject")
				} else {
					c.Check(v, "%s: proof for p=%v rejected for the same p (%s)", x.Spec, x.P, what)
					c.Outcome("same/accept")
				}
			}
			deltas := []*big.Int{big.NewInt(1), big.NewInt(-1), new(big.Int).Rsh(q, 1), q}
			for i := range x.P {
				for j := range x.P[i] {
					far := n > 16 && j&(j-1) != 0 && j&(j+1) != 0 && j < n-2
					if far || len(x.P) > 16 && j != i%n {
						continue
					}
					for d, dl := range deltas {
						p := x.Clone().P
						p[i][j].Add(p[i][j], dl)
						try(p, fmt.Sprintf("entry %d of input %d, change %d", j, i, d))
					}
					for j2 := range j {
						if n > 16 && j2 != j/2 && j2 != j-1 {
							continue
						}
						p := x.Clone().P
						p[i][j].Add(p[i][j], deltas[0])
						p[i][j2].Add(p[i][j2], deltas[1])
						try(p, fmt.Sprintf("entries %d, %d of input %d", j, j2, i))
					}
				}
				for i2 := range i {
					if len(x.P) > 16 && i2 != i/2 && i2 != i-1 && i2 != i-i&-i {
						continue
					}
					p := x.Clone().P
					p[i], p[i2] = p[i2], p[i]
					try(p, fmt.Sprintf("inputs %d, %d swapped", i, i2))
				}
				p := x.Clone().P
				for j := range p[i] {
					p[i][j] = x.P[i][(j+1)%n]
				}
				try(p, "rotated")
				p = x.Clone().P
				for i2 := range p {
					for j := range p[i2] {
						p[i2][j].Add(p[i2][j], deltas[0])
					}
				}
				try(p, "all shifted")
			}
			c.Sample("%v p=%v", x.Spec, x.P)
		})
	}
}

func main() {
	lib.Main("C10", lib.Options{QuickBudget: 100 * time.Second, CaseTimeout: 60 * time.Second, Assumptions: []string{
		"rejections are probabilistic with error below 2^-40 per proof",
	}}, func(r *lib.Run) {
		field[*lib.F62](r, "F62", 2)
		field[*lib.F62](r, "F62", 4)
		field[*lib.F62](r, "F62", 64)
		field[*lib.F62](r, "F62", 1024)
		field[*bexp.Uint110](r, "Uint110", 4)
		if r.Thorough {
			field[*lib.F62](r, "F62", 8)
			field[*lib.F62](r, "F62", 16)
			field[*bexp.Uint220](r, "Uint220", 4)
			field[*bexp.Uint440](r, "Uint440", 2)
		}
	})
}
