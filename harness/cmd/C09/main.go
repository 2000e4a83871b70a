// C09: violations of several constraints never cancel.
package main

import (
	"fmt"
	"math/big"
	"time"

	bexp "github.com/sp301415/ringo-snark/buckler/zzexp"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zzverif/circ"
	"github.com/sp301415/ringo-snark/zzverif/lib"
)

// kind makes constraint i of a family; its residual is the vector res.
type kind struct {
	name string
	add  func(b *circ.B, i int, res circ.Vec)
	// costly: every constraint has its own witnesses
	costly bool
}

func vadd(b *circ.B, x, y circ.Vec) circ.Vec {
	o := make(circ.Vec, len(x))
	for i := range o {
		o[i] = new(big.Int).Add(x[i], y[i])
		o[i].Mod(o[i], b.Q)
	}
	return o
}

func linKind(names ...string) kind {
	return kind{"lin" + fmt.Sprint(names), func(b *circ.B, i int, res circ.Vec) {
		nm := names[i%len(names)]
		x := b.Wit(b.Pat(i))
		y := b.Wit(vadd(b, circ.LinApply(nm, b.W[x], b.Q, b.Root), res))
		b.Add(circ.Lin(y, x, nm))
	}, false}
}

func kinds() []kind {
	ar := kind{"arith", func(b *circ.B, i int, res circ.Vec) {
		x := b.Wit(b.Pat(i))
		y := b.Wit(vadd(b, b.W[x], res))
		b.Add(circ.Arith(circ.Tm(1, -1, y), circ.Tm(-1, -1, x)))
	}, false}
	arq := kind{"arithmul", func(b *circ.B, i int, res circ.Vec) {
		x := b.Wit(b.Pat(i))
		y := b.Wit(vadd(b, b.Eval(circ.Tm(1, -1, x, x)), res))
		b.Add(circ.Arith(circ.Tm(1, -1, y), circ.Tm(-1, -1, x, x)))
	}, false}
	sm := kind{"sum", func(b *circ.B, i int, res circ.Vec) {
		x := b.Wit(b.Pat(i))
		s := b.SumOf(b.W[x])
		b.W[x] = vadd(b, b.W[x], res)
		b.Add(circ.Constraint{Kind: "sum", Terms: []circ.Term{circ.Tm(1, -1, x)}, Sum: s, Big: true})
	}, false}
	smq := kind{"summul", func(b *circ.B, i int, res circ.Vec) {
		x := b.Wit(b.Pat(i))
		y := b.Wit(vadd(b, b.Eval(circ.Tm(1, -1, x, x)), res))
		b.Add(circ.Constraint{Kind: "sum", Terms: []circ.Term{circ.Tm(1, -1, y), circ.Tm(-1, -1, x, x)}, Sum: new(big.Int), Big: true})
	}, false}
	mix := []kind{ar, sm, linKind("id"), smq, arq}
	return []kind{ar, arq, sm, smq, linKind("id"), linKind("id", "shift"), linKind("ntt", "autc3", "prefix"),
		{"mixed", func(b *circ.B, i int, res circ.Vec) { mix[i%len(mix)].add(b, i, res) }, false}}
}

// many are families with the residual of constraint i in public input i.
func many() []kind {
	wit := func(b *circ.B) int {
		if len(b.W) == 0 {
			b.Wit(b.Pat(0))
		}
		return 0
	}
	ar := kind{"arith", func(b *circ.B, i int, res circ.Vec) {
		x := wit(b)
		p := b.Pub(vadd(b, b.W[x], res))
		b.Add(circ.Arith(circ.Tm(1, p), circ.Tm(-1, -1, x)))
	}, false}
	arq := kind{"arithmul", func(b *circ.B, i int, res circ.Vec) {
		x := wit(b)
		p := b.Pub(vadd(b, b.Eval(circ.Tm(1, -1, x, x)), res))
		b.Add(circ.Arith(circ.Tm(-1, p), circ.Tm(1, -1, x, x)))
	}, false}
	sm := kind{"sum", func(b *circ.B, i int, res circ.Vec) {
		x := wit(b)
		p := b.Pub(b.Pat(i + 1))
		s := b.SumOf(b.Eval(circ.Tm(1, p), circ.Tm(1, -1, x)))
		b.P[p] = vadd(b, b.P[p], res)
		b.Add(circ.Constraint{Kind: "sum", Terms: []circ.Term{circ.Tm(1, p), circ.Tm(1, -1, x)}, Sum: s, Big: true})
	}, false}
	mix := []kind{ar, sm, arq}
	out := []kind{ar, arq, sm, {"mixed", func(b *circ.B, i int, res circ.Vec) { mix[i%3].add(b, i, res) }, false}}
	for _, k := range kinds()[4:] {
		k.costly = true
		out = append(out, k)
	}
	return out
}

func vectors(n int, vals []int64) [][]int64 {
	out := [][]int64{{}}
	for range n {
		var nx [][]int64
		for _, v := range out {
			for _, x := range vals {
				nx = append(nx, append(append([]int64{}, v...), x))
			}
		}
		out = nx
	}
	return out
}

func run[E bignum.Uint[E]](r *lib.Run, name string, rank, n int, vals []int64, shapes []int) {
	q, root := circ.Order[E](), circ.NTTRoot[E](rank)
	for _, k := range kinds() {
		for _, sh := range shapes {
			r.Case(fmt.Sprintf("%s/r%d/%s/n%d/shape%d", name, rank, k.name, n, sh), func(c *lib.T) {
				var sys *circ.Sys[E]
				for _, rv := range vectors(n, vals) {
					b := circ.NewB(rank, q, root)
					b.Salt = r.Seed
					for i, x := range rv {
						res := circ.Const(rank, 0)
						switch sh {
						case 0: // one common slot
							res[rank-1].SetInt64(x)
						case 1: // every slot
							for j := range res {
								res[j].SetInt64(x)
							}
						case 2: // slot depends on the constraint
							res[i%rank].SetInt64(x)
						case 3: // cancels inside the constraint when summed
							res[0].SetInt64(x)
							res[1].SetInt64(-x)
						}
						k.add(b, i, res)
					}
					if sys == nil {
						var err error
						sys, err = circ.Compile[E](b.Spec, "crs")
						c.Check(err == nil, "compile: %v", err)
					}
					holds := b.Spec.Holds(b.P, b.W, q, root)
					v := sys.Verdict(b.P, b.W)
					c.Trans(2)
					c.Trace(1)
					c.State(b.Spec.String(), b.W)
					c.Check((v == "accept") == holds, "residuals %v: holds=%v verdict=%s for %v", rv, holds, v, b.Spec)
					c.Outcome(fmt.Sprintf("holds=%v/%s", holds, v))
				}
				c.Sample("%v", sys.Spec)
			})
		}
	}
}

func main() {
	lib.Main("C09", lib.Options{QuickBudget: 140 * time.Second, CaseTimeout: 120 * time.Second, Assumptions: []string{
		"rejections are probabilistic with error below 2^-40 per proof",
	}}, func(r *lib.Run) {
		run[*lib.F62](r, "F62", 4, 2, []int64{0, 1, -1, 2}, []int{0, 1, 2, 3})
		run[*lib.F62](r, "F62", 4, 3, []int64{0, 1, -1}, []int{0})
		// exactly one violated among many
		q := circ.Order[*lib.F62]()
		for _, k := range kinds() {
			r.Case("one-of/"+k.name, func(c *lib.T) {
				root := circ.NTTRoot[*lib.F62](4)
				for n := 1; n <= 6; n++ {
					for bad := range n {
						b := circ.NewB(4, q, root)
						for i := range n {
							res := circ.Const(4, 0)
							if i == bad {
								res[(n+bad)%4].SetInt64(1)
							}
							k.add(b, i, res)
						}
						sys, err := circ.Compile[*lib.F62](b.Spec, "crs")
						c.Check(err == nil, "compile: %v", err)
						v := sys.Verdict(b.P, b.W)
						c.Trans(2)
						c.Trace(1)
						c.State(b.Spec.String(), b.W)
						c.Check(v != "accept", "constraint %d of %d is violated and the proof is accepted: %v", bad, n, b.Spec)
						c.Outcome(v)
					}
				}
			})
		}
		// pairs of violations among many constraints, at every distance
		// between positions around powers of two; the residuals are in public
		// inputs (except for linear constraints), so that many are affordable
		ms := []int{20, 70}
		if r.Thorough {
			ms = []int{20, 35, 70, 140, 300}
		}
		for _, k := range many() {
			for _, m := range ms {
				if k.costly && m > ms[0] && !r.Thorough {
					continue
				}
				for part := range 2 {
					r.Case(fmt.Sprintf("many/%s/%d/%d", k.name, m, part), func(c *lib.T) {
						root := circ.NTTRoot[*lib.F62](4)
						var sys *circ.Sys[*lib.F62]
						n := 0
						try := func(bad map[int]int64) {
							if n++; n%2 != part {
								return
							}
							b := circ.NewB(4, q, root)
							for i := range m {
								res := circ.Const(4, 0)
								res[1].SetInt64(bad[i])
								k.add(b, i, res)
							}
							if sys == nil {
								var err error
								sys, err = circ.Compile[*lib.F62](b.Spec, "crs")
								c.Check(err == nil, "compile: %v", err)
							}
							v := sys.Verdict(b.P, b.W)
							c.Trans(2)
							c.Trace(1)
							c.State(k.name, m, fmt.Sprint(bad))
							c.Check((v == "accept") == (len(bad) == 0), "%d %s constraints with residuals %v: verdict %s", m, k.name, bad, v)
							c.Outcome(v)
						}
						var at []int
						for i := range m {
							if i&(i-1) == 0 || i&(i+1) == 0 || i == m-1 || i == m-2 {
								at = append(at, i)
							}
						}
						try(nil)
						try(nil)
						for x, i := range at {
							try(map[int]int64{i: 1})
							for y, j := range at[:x] {
								if r.Thorough || !k.costly || y == x-1 {
									try(map[int]int64{i: 1, j: -1})
								}
							}
						}
						if r.Thorough || !k.costly {
							for i := 1; i < m; i++ {
								try(map[int]int64{i - 1: 1, i: -1})
							}
						}
					})
				}
			}
		}
		// many linear constraints between one input and three outputs: a right
		// one and two with opposite errors
		for _, names := range [][]string{{"id"}, {"ntt"}, {"id", "shift"}, {"ntt", "autc3", "prefix"}} {
			for _, m := range ms {
				for part := range 4 {
					r.Case(fmt.Sprintf("manylin/%v/%d/%d", names, m, part), func(c *lib.T) {
						root := circ.NTTRoot[*lib.F62](4)
						n := 0
						try := func(bad map[int]int64) {
							if n++; n%4 != part {
								return
							}
							b := circ.NewB(4, q, root)
							x := b.Wit(b.Pat(1))
							out := map[string]map[int64]int{}
							for _, nm := range names {
								out[nm] = map[int64]int{}
								for _, d := range []int64{0, 1, -1} {
									res := circ.Const(4, 0)
									res[1].SetInt64(d)
									out[nm][d] = b.Wit(vadd(b, circ.LinApply(nm, b.W[x], b.Q, b.Root), res))
								}
							}
							for i := range m {
								nm := names[i%len(names)]
								b.Add(circ.Lin(out[nm][bad[i]], x, nm))
							}
							sys, err := circ.Compile[*lib.F62](b.Spec, "crs")
							c.Check(err == nil, "compile: %v", err)
							v := sys.Verdict(b.P, b.W)
							c.Trans(2)
							c.Trace(1)
							c.State(names, m, fmt.Sprint(bad))
							c.Check((v == "accept") == (len(bad) == 0), "%d linear constraints %v with residuals %v: verdict %s", m, names, bad, v)
							c.Outcome(v)
						}
						for range 4 {
							try(nil)
						}
						var at []int
						for i := range m {
							if i&(i-1) == 0 || i&(i+1) == 0 || i == m-1 {
								at = append(at, i)
							}
							if i >= len(names) {
								try(map[int]int64{i - len(names): 1, i: -1})
							}
						}
						for x, i := range at {
							try(map[int]int64{i: 1})
							for y, j := range at[:x] {
								if r.Thorough || m == ms[0] || y == x-1 {
									try(map[int]int64{i: 1, j: -1})
								}
							}
						}
					})
				}
			}
		}
		if r.Thorough {
			run[*lib.F62](r, "F62", 4, 2, []int64{0, 1, -1, 2, -2, 3, -3}, []int{0, 1, 2, 3})
			run[*lib.F62](r, "F62", 2, 3, []int64{0, 1, -1, 2}, []int{0, 2})
			run[*lib.F62](r, "F62", 4, 4, []int64{0, 1, -1}, []int{0, 3})
			run[*lib.F62](r, "F62", 4, 5, []int64{0, 1, -1}, []int{0})
			run[*bexp.Uint110](r, "Uint110", 4, 2, []int64{0, 1, -1}, []int{0})
		}
	})
}
