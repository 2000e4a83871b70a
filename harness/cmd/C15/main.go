// C15: linear constraints: the built-in maps are what they claim, their
// transposes are adjoint, and constraints hold exactly for out = M in.
package main

import (
	"fmt"
	"math/big"
	"time"

	"github.com/sp301415/ringo-snark/buckler"
	bexp "github.com/sp301415/ringo-snark/buckler/zzexp"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zzverif/circ"
	"github.com/sp301415/ringo-snark/zzverif/lib"
)

func maps[E bignum.Uint[E]](r *lib.Run, name string, ranks []int, deltas []int64) {
	q := circ.Order[E]()
	for _, n := range ranks {
		root := circ.NTTRoot[E](n)
		var names []string
		names = append(names, "ntt")
		var idxs []int
		if n <= 16 {
			for i := -2*n - 1; i <= 4*n+1; i++ {
				if i&1 != 0 {
					idxs = append(idxs, i)
				}
			}
		} else {
			idxs = []int{1, 3, 5, -1, -5, n - 1, n + 1, 2*n - 1, 2*n + 1, 4*n - 3, 125, -25}
		}
		for _, i := range idxs {
			names = append(names, fmt.Sprintf("autn%d", i), fmt.Sprintf("autc%d", i))
		}
		per := 8
		for s := 0; s < len(names); s += per {
			r.Case(fmt.Sprintf("map/%s/r%d/%s", name, n, names[s]), func(c *lib.T) {
				for _, nm := range names[s:min(s+per, len(names))] {
					chk := circ.Checker[E](nm, n)
					M := make([]circ.Vec, n)
					junk := func(k int) []E {
						v := circ.Elems[E](circ.Const(n, 0))
						for i := range v {
							v[i].SetInt64(int64(i*k) - 3)
						}
						return v
					}
					basis := func(j int, x int64) []E {
						v := circ.Const(n, 0)
						v[j].Mod(big.NewInt(x), q)
						return circ.Elems[E](v)
					}
					for j := range n {
						in, out := basis(j, 1), junk(j)
						chk.TransformTo(out, in)
						M[j] = circ.Ints(out)
						want := circ.LinApply(nm, circ.Ints(basis(j, 1)), q, root)
						c.Trans(1)
						c.State(name, n, nm, j)
						for i := range n {
							c.Check(M[j][i].Cmp(new(big.Int).Mod(want[i], q)) == 0, "%s rank %d: image of basis vector %d is %v, expected %v", nm, n, j, M[j], want)
							var z E
							e := z.New()
							if i == j {
								e.SetInt64(1)
							}
							c.Check(in[i].Cmp(e) == 0, "%s rank %d modifies its input", nm, n)
						}
					}
					for i := range n {
						in, out := basis(i, 1), junk(i+5)
						chk.TransposeTo(out, in)
						c.Trans(1)
						c.Trace(1)
						t := circ.Ints(out)
						for j := range n {
							c.Check(t[j].Cmp(M[j][i]) == 0, "%s rank %d: the transpose differs from the map at (%d,%d)", nm, n, j, i)
						}
					}
					// linear combinations
					for _, d := range deltas {
						for j := range n {
							k := (j*3 + 1) % n
							in := circ.Const(n, 0)
							in[j].Add(in[j], big.NewInt(d))
							in[k].Sub(in[k], big.NewInt(2*d+1))
							for i := range in {
								in[i].Mod(in[i], q)
							}
							for _, tr := range []bool{false, true} {
								out := junk(j)
								if tr {
									chk.TransposeTo(out, circ.Elems[E](in))
								} else {
									chk.TransformTo(out, circ.Elems[E](in))
								}
								c.Trans(1)
								for i, o := range circ.Ints(out) {
									s := new(big.Int)
									for l := range n {
										m := M[l][i]
										if tr {
											m = M[i][l]
										}
										s.Add(s, new(big.Int).Mul(m, in[l]))
									}
									c.Check(o.Cmp(s.Mod(s, q)) == 0, "%s rank %d transpose=%v is not linear on %v", nm, n, tr, in)
								}
							}
						}
					}
				}
			})
		}
	}
}

func e2e[E bignum.Uint[E]](r *lib.Run, name string, n int, names []string) {
	q, root := circ.Order[E](), circ.NTTRoot[E](n)
	for _, nm := range names {
		r.Case(fmt.Sprintf("e2e/%s/r%d/%s", name, n, nm), func(c *lib.T) {
			s := circ.Spec{Rank: n, NW: 2, Cs: []circ.Constraint{circ.Lin(1, 0, nm)}}
			sys, err := circ.Compile[E](s, "crs")
			c.Check(err == nil, "compile: %v", err)
			b := circ.NewB(n, q, root)
			do := func(in, out circ.Vec, what string) {
				for i := range out {
					out[i].Mod(out[i], q)
				}
				w := []circ.Vec{in, out}
				holds := s.Holds(nil, w, q, root)
				v := sys.Verdict(nil, w)
				c.Check(holds == (v == "accept"), "%s rank %d %s: holds=%v verdict=%s in=%v out=%v", nm, n, what, holds, v, in, out)
				c.Trans(2)
				c.Trace(1)
				c.State(name, nm, in, out)
				c.Outcome(fmt.Sprintf("%v/%s", holds, v))
			}
			for j := range n {
				in := circ.Const(n, 0)
				in[j].SetInt64(3)
				do(in, circ.LinApply(nm, in, q, root), "basis")
				in = b.Pat(j)
				out := circ.LinApply(nm, in, q, root)
				out[j].Add(out[j], big.NewInt(int64(2*(j%2)-1)))
				do(in, out, "error")
				out = circ.LinApply(nm, in, q, root)
				out[j].Add(out[j], big.NewInt(1))
				out[(j+1)%n].Sub(out[(j+1)%n], big.NewInt(1))
				do(in, out, "balanced error")
			}
			in := b.Pat(0)
			out := circ.LinApply(nm, in, q, root)
			do(in, in.Clone(), "output = input")
			do(out, in, "inverse direction")
			neg := out.Clone()
			for i := range neg {
				neg[i].Neg(neg[i])
			}
			do(in, neg, "negated")
			do(in, circ.Const(n, 0), "zero output")
			do(circ.Const(n, 0), out.Clone(), "zero input")
		})
	}
}

func main() {
	lib.Main("C15", lib.Options{QuickBudget: 140 * time.Second, CaseTimeout: 120 * time.Second, Assumptions: []string{
		"a linear map is decided by a basis; linearity itself is checked on two-term combinations",
		"rejections are probabilistic with error below 2^-40 per proof",
	}}, func(r *lib.Run) {
		maps[*lib.F257](r, "F257", []int{1, 2, 4, 8, 16, 64}, []int64{1, 5})
		maps[*lib.F62](r, "F62", []int{2, 8, 16}, []int64{1, 1 << 40})
		maps[*bexp.Uint110](r, "Uint110", []int{8}, []int64{7})
		names := []string{"id", "shift", "prefix", "diag", "low", "zero", "ntt", "autn3", "autc3", "autn-1", "autc-1", "autc5", "autn7"}
		e2e[*lib.F62](r, "F62", 4, names)
		e2e[*lib.F62](r, "F62", 2, []string{"shift", "ntt", "autn3", "autc3"})
		// constraints that share witnesses and checkers in every way
		root := circ.NTTRoot[*lib.F62](4)
		q := circ.Order[*lib.F62]()
		for _, a := range []string{"id", "shift", "ntt", "low"} {
			for _, bb := range []string{"id", "shift", "autc3", "prefix"} {
				r.Case("shared/"+a+"/"+bb, func(c *lib.T) {
					x := circ.NewB(4, q, root).Pat(0)
					y := circ.LinApply(a, x, q, root)
					z := circ.LinApply(bb, y, q, root)
					for _, v := range []circ.Vec{y, z} {
						for i := range v {
							v[i].Mod(v[i], q)
						}
					}
					for k, s := range []circ.Spec{
						{Rank: 4, NW: 3, Cs: []circ.Constraint{circ.Lin(1, 0, a), circ.Lin(2, 1, bb)}},
						{Rank: 4, NW: 3, Cs: []circ.Constraint{circ.Lin(2, 1, bb), circ.Lin(1, 0, a), circ.Lin(0, 0, "id"), circ.Lin(2, 1, bb)}},
					} {
						sys, err := circ.Compile[*lib.F62](s, "crs")
						c.Check(err == nil, "compile: %v", err)
						w := []circ.Vec{x, y, z}
						c.Check(sys.Verdict(nil, w) == "accept", "%v rejected", s)
						for bad := range 3 {
							w := []circ.Vec{x.Clone(), y.Clone(), z.Clone()}
							w[bad][k+1].Add(w[bad][k+1], big.NewInt(1))
							holds := s.Holds(nil, w, q, root)
							v := sys.Verdict(nil, w)
							c.Check(holds == (v == "accept"), "%v: holds=%v verdict=%s", s, holds, v)
							c.Trans(2)
							c.Trace(1)
							c.State(s.String(), bad)
						}
					}
				})
			}
		}
		// two constraints with the same map, over every choice of witnesses
		ends := [][2]int{{0, 1}, {0, 2}, {1, 0}, {1, 2}, {2, 0}, {2, 1}, {0, 0}}
		for _, nm := range []string{"shift", "ntt", "id"} {
			for i, e := range ends {
				r.Case(fmt.Sprintf("same-map/%s/%d", nm, i), func(c *lib.T) {
					x := circ.NewB(4, q, root).Pat(0)
					img := func(v circ.Vec) circ.Vec {
						o := circ.LinApply(nm, v, q, root)
						for i := range o {
							o[i].Mod(o[i], q)
						}
						return o
					}
					y := img(x)
					pool := []circ.Vec{x, y, img(y), circ.Const(4, 0), {new(big.Int), big.NewInt(1), new(big.Int), new(big.Int)}}
					for _, f := range ends {
						s := circ.Spec{Rank: 4, NW: 3, Cs: []circ.Constraint{circ.Lin(e[0], e[1], nm), circ.Lin(f[0], f[1], nm)}}
						sys, err := circ.Compile[*lib.F62](s, "crs")
						c.Check(err == nil, "compile: %v", err)
						tried := map[string]int{}
						for code := range 125 {
							w := []circ.Vec{pool[code%5], pool[code/5%5], pool[code/25]}
							a, b := s.Cs[0].Holds(nil, w, q, root), s.Cs[1].Holds(nil, w, q, root)
							// assignments violating at most one of the two
							k := fmt.Sprint(a, b)
							if !a && !b || tried[k] >= 2 {
								continue
							}
							tried[k]++
							v := sys.Verdict(nil, w)
							c.Check((a && b) == (v == "accept"), "%v w=%v: the constraints hold: %v %v, verdict %s", s, w, a, b, v)
							c.Trans(2)
							c.Trace(1)
							c.State(s.String(), code)
							c.Outcome(k + "/" + v)
						}
					}
				})
			}
		}
		r.Case("by-value-checker", func(c *lib.T) {
			ok := func(f int64) bool {
				prv, vrf, err := buckler.Compile[*lib.F62](4, &vc{}, nil)
				c.Check(err == nil, "compile: %v", err)
				pf, err := prv.Prove(&vc{A: circ.Elems[*lib.F62](circ.V(1, 2, 3, 4)), B: circ.Elems[*lib.F62](circ.V(2, 4, 6, f))})
				return err == nil && vrf.Verify(&vc{}, pf)
			}
			c.Check(ok(8), "checker passed by value: honest proof rejected")
			c.Check(!ok(9), "checker passed by value: wrong output accepted")
		})
		r.Case("by-value-checker-with-slice", func(c *lib.T) {
			// user-defined checkers are only required to have the two methods: one
			// passed by value may hold slices, and two of them may be used at once
			for mode := range 3 {
				for f := int64(7); f <= 9; f++ {
					for g := int64(11); g <= 13; g++ {
						cir := func() *vs { return &vs{mode: mode} }
						prv, vrf, err := buckler.Compile[*lib.F62](4, cir(), nil)
						c.Check(err == nil, "compile: %v", err)
						w := cir()
						w.A = circ.Elems[*lib.F62](circ.V(1, 2, 3, 4))
						w.B = circ.Elems[*lib.F62](circ.V(2, 2, 6, f))
						w.C = circ.Elems[*lib.F62](circ.V(3, 2, 9, g))
						pf, err := prv.Prove(w)
						got := err == nil && vrf.Verify(cir(), pf)
						c.Trans(2)
						c.Trace(1)
						c.State("vs", mode, f, g)
						c.Check(got == (f == 8 && (mode == 2 || g == 12)), "mode %d outputs %d,%d: verdict %v", mode, f, g, got)
					}
				}
			}
		})
		if r.Thorough {
			maps[*lib.F257](r, "F257", []int{32, 128}, []int64{1, 100})
			maps[*lib.F12289](r, "F12289", []int{8, 16, 128, 512}, []int64{3})
			maps[*bexp.Uint440](r, "Uint440", []int{4, 32}, []int64{3})
			e2e[*lib.F62](r, "F62", 8, names)
			e2e[*lib.F62](r, "F62", 16, names)
			e2e[*bexp.Uint110](r, "Uint110", 4, names)
		}
	})
}

type scale struct{ f int64 }

func (s scale) TransformTo(vOut, v []*lib.F62) {
	var z *lib.F62
	for i := range v {
		vOut[i].Mul(v[i], z.New().SetInt64(s.f))
	}
}
func (s scale) TransposeTo(vOut, v []*lib.F62) { s.TransformTo(vOut, v) }

type vc struct{ A, B buckler.Witness[*lib.F62] }

func (c *vc) Define(ctx *buckler.Context[*lib.F62]) { ctx.AddLinearConstraint(c.B, c.A, scale{2}) }

// diag scales by a vector; it is not comparable.
type diag struct{ d []int64 }

func (s diag) TransformTo(vOut, v []*lib.F62) {
	var z *lib.F62
	for i := range v {
		vOut[i].Mul(v[i], z.New().SetInt64(s.d[i]))
	}
}
func (s diag) TransposeTo(vOut, v []*lib.F62) { s.TransformTo(vOut, v) }

type vs struct {
	A, B, C buckler.Witness[*lib.F62]
	mode    int
}

func (c *vs) Define(ctx *buckler.Context[*lib.F62]) {
	m := diag{[]int64{2, 1, 2, 2}}
	switch c.mode {
	case 0:
		ctx.AddLinearConstraint(c.B, c.A, m)
		ctx.AddLinearConstraint(c.C, c.A, diag{[]int64{3, 1, 3, 3}})
	case 1:
		ctx.AddLinearConstraint(c.C, c.A, &diag{[]int64{3, 1, 3, 3}})
		ctx.AddLinearConstraint(c.B, c.A, m)
	case 2:
		ctx.AddLinearConstraint(c.B, c.A, m)
		ctx.AddLinearConstraint(c.B, c.A, m)
	}
}
