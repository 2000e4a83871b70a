// C07: completeness of the circuit proof system.
package main

import (
	"fmt"
	"math/big"
	"time"

	bexp "github.com/sp301415/ringo-snark/buckler/zzexp"
	jexp "github.com/sp301415/ringo-snark/jindo/zzexp"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zzverif/circ"
	"github.com/sp301415/ringo-snark/zzverif/lib"
)

func accept[E bignum.Uint[E]](c *lib.T, x circ.Inst, q, root *big.Int) {
	c.Check(x.Spec.Holds(x.P, x.W, q, root), "harness: instance does not satisfy %v", x.Spec)
	sys, err := circ.Compile[E](x.Spec, "crs")
	c.Check(err == nil, "%s: compile: %v", x.Name, err)
	pf, err := sys.Prove(x.P, x.W)
	c.Check(err == nil, "%s: a satisfying assignment cannot be proven: %v (%v)", x.Name, err, x.Spec)
	c.Check(sys.Verify(x.P, pf), "%s: the proof of a satisfying assignment is rejected: %v p=%v w=%v", x.Name, x.Spec, x.P, x.W)
	c.Trans(3)
	c.Trace(1)
	c.State(x.Spec.String(), x.P, x.W)
	c.Outcome("accepted")
	c.Sample("%v p=%v w=%v", x.Spec, x.P, x.W)
}

func field[E bignum.Uint[E]](r *lib.Run, name string, ranks, pats []int, pairs bool) {
	q := circ.Order[E]()
	for _, n := range ranks {
		root := circ.NTTRoot[E](n)
		L := circ.Letters()
		for _, l := range L {
			r.Case(fmt.Sprintf("%s/r%d/%s", name, n, l.Name), func(c *lib.T) {
				for _, k := range pats {
					accept[E](c, circ.Word(n, q, root, r.Seed, k, l), q, root)
				}
			})
		}
		if !pairs {
			continue
		}
		for i, a := range L {
			r.Case(fmt.Sprintf("%s/r%d/pair/%s", name, n, a.Name), func(c *lib.T) {
				for j, b := range L {
					if j >= i {
						accept[E](c, circ.Word(n, q, root, r.Seed, i+j, a, b), q, root)
					}
				}
			})
		}
	}
}

func main() {
	lib.Main("C07", lib.Options{QuickBudget: 140 * time.Second, CaseTimeout: 120 * time.Second, Assumptions: []string{
		"circuits over the constraint alphabet of harness/circ; the reference semantics is evaluated with integer arithmetic",
	}}, func(r *lib.Run) {
		field[*lib.F62](r, "F62", []int{4}, []int{0, 5}, true)
		field[*lib.F62](r, "F62", []int{2, 8, 16}, []int{0, 1}, false)
		field[*lib.F62](r, "F62", []int{32, 128, 512, 1024}, []int{0}, false)
		field[*bexp.Uint110](r, "Uint110", []int{4}, []int{0}, false)
		// many witnesses
		for _, m := range []int{1, 2} {
			r.Case(fmt.Sprintf("many/%d", m), func(c *lib.T) {
				q, root := circ.Order[*lib.F62](), circ.NTTRoot[*lib.F62](4)
				var ls []circ.Letter
				for range m {
					ls = append(ls, circ.Letters()...)
				}
				accept[*lib.F62](c, circ.Word(4, q, root, r.Seed, m, ls...), q, root)
			})
		}
		// everything at once
		r.Case("F62/all", func(c *lib.T) {
			for _, n := range []int{2, 4, 8, 32, 64} {
				accept[*lib.F62](c, circ.Word(n, circ.Order[*lib.F62](), circ.NTTRoot[*lib.F62](n), r.Seed, 0, circ.Letters()...), circ.Order[*lib.F62](), circ.NTTRoot[*lib.F62](n))
			}
		})
		r.Case("Uint255/all", func(c *lib.T) {
			accept[*jexp.Uint255](c, circ.Word(8, circ.Order[*jexp.Uint255](), circ.NTTRoot[*jexp.Uint255](8), r.Seed, 0, circ.Letters()...), circ.Order[*jexp.Uint255](), circ.NTTRoot[*jexp.Uint255](8))
		})
		r.Case("Uint440/all", func(c *lib.T) {
			accept[*bexp.Uint440](c, circ.Word(4, circ.Order[*bexp.Uint440](), circ.NTTRoot[*bexp.Uint440](4), r.Seed, 0, circ.Letters()...), circ.Order[*bexp.Uint440](), circ.NTTRoot[*bexp.Uint440](4))
		})
		if r.Thorough {
			all := []int{0, 1, 2, 3, 4, 5, 6, 7}
			field[*lib.F62](r, "F62x", []int{2, 4, 8, 32, 128, 1024}, all, false)
			field[*lib.F62](r, "F62y", []int{2, 8}, nil, true)
			field[*bexp.Uint110](r, "Uint110x", []int{2, 8, 64}, all, false)
			field[*bexp.Uint220](r, "Uint220x", []int{4}, all, false)
			field[*bexp.Uint440](r, "Uint440x", []int{4}, []int{0, 1}, false)
			field[*bexp.Uint880](r, "Uint880x", []int{4}, []int{0}, false)
			field[*jexp.Uint255](r, "Uint255x", []int{4, 16}, all, false)
			L := circ.Letters()
			q, root := circ.Order[*lib.F62](), circ.NTTRoot[*lib.F62](4)
			for i, a := range L {
				r.Case("F62/triple/"+a.Name, func(c *lib.T) {
					for j := 0; j < len(L); j += 2 {
						for k := j % 3; k < len(L); k += 3 {
							accept[*lib.F62](c, circ.Word(4, q, root, r.Seed, i+j+k, a, L[j], L[k]), q, root)
						}
					}
				})
			}
		}
	})
}
