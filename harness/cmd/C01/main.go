// C01: completeness of the polynomial commitment scheme.
package main

import (
	"fmt"
	"math/big"
	"time"

	bexp "github.com/sp301415/ringo-snark/buckler/zzexp"
	"github.com/sp301415/ringo-snark/jindo"
	jexp "github.com/sp301415/ringo-snark/jindo/zzexp"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zzverif/jx"
	"github.com/sp301415/ringo-snark/zzverif/lib"
)

var patterns = []string{"zero", "one", "max", "alt", "ramp", "rnd", "first", "last"}

func vec[E bignum.Uint[E]](rng *lib.Rng, pat string, n int) []E {
	v := make([]E, n)
	for i := range v {
		var x E
		switch pat {
		case "zero":
			x = jx.El[E](0)
		case "one":
			x = jx.El[E](1)
		case "max":
			x = jx.El[E](-1)
		case "alt":
			x = jx.El[E](int64(1 - 2*(i%2)))
		case "ramp":
			x = jx.El[E](int64(i) + 1)
		case "first":
			x = jx.El[E](0)
			if i == 0 {
				x = jx.El[E](-1)
			}
		case "last":
			x = jx.El[E](0)
			if i == n-1 {
				x = jx.El[E](-1)
			}
		default:
			b := make([]byte, 120)
			rng.Read(b)
			x = jx.ElB[E](new(big.Int).SetBytes(b))
		}
		v[i] = x
	}
	return v
}

func field[E bignum.Uint[E]](r *lib.Run, name string, Ns, ts []int) {
	q := jx.Order[E]()
	for _, N := range Ns {
		for _, t := range ts {
			// boundary lengths depend on the layout, which NewParameters picks
			for _, li := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8} {
				id := fmt.Sprintf("%s/N%d/t%d/len%d", name, N, t, li)
				r.Case(id, func(c *lib.T) {
					params := jindo.NewParameters[E](N, t)
					c.Check(params.Rank() >= N, "rank %d < requested %d", params.Rank(), N)
					c.Check(params.Batch() == t, "batch %d", params.Batch())
					row := params.Cols() * params.Slots()
					lens := []int{0, 1, row - 1, row, row + 1, 2*row - 1, N, params.Rank() - 1, params.Rank()}
					L := min(max(lens[li], 0), params.Rank())
					prv := jindo.NewProver[E](params, []byte("crs/"+name))
					vrf := jindo.NewVerifier[E](params, []byte("crs/"+name))
					rng := lib.NewRng(id, r.Seed)
					xs := []E{jx.El[E](0), jx.El[E](1), jx.El[E](-1), jx.ElB[E](new(big.Int).SetUint64(params.Base())),
						vec[E](rng, "rnd", 1)[0]}
					for p := range patterns {
						vs := make([][]E, t)
						com := make([]*jindo.Commitment, t)
						op := make([]*jindo.Opening, t)
						for i := range t {
							n := L
							if i%2 == 1 {
								n = params.Rank() - L // batches mix short and long polynomials
							}
							vs[i] = vec[E](rng, patterns[(p+3*i)%len(patterns)], n)
							com[i], op[i] = prv.Commit(vs[i])
						}
						nx := 1
						if p%2 == 1 || r.Thorough {
							nx = len(xs)
						}
						for k := range nx {
							x := xs[(p+k)%len(xs)]
							ev, pf := prv.Evaluate(x, vs, com, op)
							c.Trans(2 + t)
							for i := range t {
								w := jx.EvalRef(vs[i], x)
								c.Check(len(ev) == t && jx.B(ev[i]).Cmp(w) == 0, "len %d pattern %s x=%v: evaluation %d is %v, expected %v", L, patterns[p], jx.B(x), i, jx.B(ev[i]), w)
							}
							c.Check(vrf.Verify(x, com, ev, pf), "len %d pattern %s x=%v: honest proof rejected (rows %d cols %d slots %d)", L, patterns[p], jx.B(x), params.Rows(), params.Cols(), params.Slots())
							c.Trace(1)
							c.State(id, p, jx.B(x))
							c.Outcome("accepted")
						}
					}
					c.Sample("q=%v rows=%d cols=%d slots=%d length=%d", q, params.Rows(), params.Cols(), params.Slots(), L)
				})
			}
		}
	}
}

// sizes: the shape of the commitment grows with rank and batch, and the norms
// of an honest response with it.
func sizes[E bignum.Uint[E]](r *lib.Run, name string, logs, ts []int) {
	for _, lg := range logs {
		for _, t := range ts {
			id := fmt.Sprintf("sizes/%s/2^%d/t%d", name, lg, t)
			r.Case(id, func(c *lib.T) {
				params := jindo.NewParameters[E](1<<lg, t)
				prv := jindo.NewProver[E](params, []byte("crs/"+name))
				vrf := jindo.NewVerifier[E](params, []byte("crs/"+name))
				rng := lib.NewRng(id, r.Seed)
				vs := make([][]E, t)
				com := make([]*jindo.Commitment, t)
				op := make([]*jindo.Opening, t)
				for i := range t {
					vs[i] = vec[E](rng, patterns[(i*5+5)%len(patterns)], params.Rank()-i%2)
					com[i], op[i] = prv.Commit(vs[i])
				}
				for _, x := range vec[E](rng, "rnd", 2) {
					ev, pf := prv.Evaluate(x, vs, com, op)
					for i := range t {
						c.Check(jx.B(ev[i]).Cmp(jx.EvalRef(vs[i], x)) == 0, "evaluation %d", i)
					}
					c.Check(vrf.Verify(x, com, ev, pf), "honest proof rejected (rank %d, rows %d cols %d slots %d, batch %d)", params.Rank(), params.Rows(), params.Cols(), params.Slots(), t)
					c.Trans(2 + t)
					c.State(id, jx.B(x))
				}
				c.Outcome("accepted")
			})
		}
	}
}

func main() {
	lib.Main("C01", lib.Options{QuickBudget: 100 * time.Second, Assumptions: []string{
		"field elements outside the repository's generated packages are supplied by the harness's own prime-field implementation of the exported element interface",
		"operating-system randomness is replaced by a deterministic stream per case",
	}}, func(r *lib.Run) {
		ts := []int{1, 2, 3}
		field[*lib.F62](r, "F62", []int{1, 33, 200, 1100}, ts)
		field[*lib.F257](r, "F257", []int{1, 500}, []int{1, 2})
		field[*lib.F12289](r, "F12289", []int{1, 700}, []int{1, 2})
		field[*lib.F147457](r, "F147457", []int{300}, []int{1, 3})
		field[*lib.F17](r, "F17", []int{130}, []int{1, 2})
		field[*lib.F60K4](r, "F60K4", []int{1, 600}, []int{1, 4})
		field[*lib.F60K2](r, "F60K2", []int{300}, []int{1})
		field[*jexp.Uint255](r, "Uint255", []int{1, 100, 500}, []int{1, 2})
		field[*bexp.Uint110](r, "Uint110", []int{200}, []int{1, 2})
		field[*bexp.Uint220](r, "Uint220", []int{100}, []int{2})
		field[*bexp.Uint440](r, "Uint440", []int{60}, []int{1, 2})
		field[*bexp.Uint880](r, "Uint880", []int{30}, []int{2})
		bs := []int{1, 2, 8}
		sizes[*lib.F62](r, "F62", []int{4, 8, 12, 14}, bs)
		sizes[*lib.F62](r, "F62", []int{4}, []int{33, 70, 140, 260})
		sizes[*lib.F257](r, "F257", []int{10, 13}, bs)
		sizes[*lib.F60K4](r, "F60K4", []int{10, 12}, bs)
		sizes[*jexp.Uint255](r, "Uint255", []int{3, 8, 11}, bs)
		sizes[*bexp.Uint110](r, "Uint110", []int{4, 11}, bs)
		sizes[*bexp.Uint220](r, "Uint220", []int{4, 11}, bs)
		sizes[*bexp.Uint440](r, "Uint440", []int{4, 11}, bs)
		sizes[*bexp.Uint880](r, "Uint880", []int{4, 8, 11}, []int{1, 2, 3, 8, 17})
		if r.Thorough {
			bs = []int{1, 2, 3, 5, 9, 16, 33}
			sizes[*lib.F62](r, "F62x", []int{0, 2, 6, 10, 13, 15, 16}, bs)
			sizes[*lib.F257](r, "F257x", []int{4, 7, 14}, bs)
			sizes[*lib.F17](r, "F17x", []int{4, 7, 12}, bs)
			sizes[*lib.F60K4](r, "F60K4x", []int{4, 7, 14}, bs)
			sizes[*jexp.Uint255](r, "Uint255x", []int{5, 9, 13}, bs)
			sizes[*bexp.Uint110](r, "Uint110x", []int{6, 9, 13}, bs)
			sizes[*bexp.Uint220](r, "Uint220x", []int{6, 9, 13}, bs)
			sizes[*bexp.Uint440](r, "Uint440x", []int{6, 9, 13, 15}, bs)
			sizes[*bexp.Uint880](r, "Uint880x", []int{6, 9, 12, 14}, bs)
			sizes[*bexp.Uint880](r, "Uint880y", []int{17}, []int{1})
			field[*lib.F62](r, "F62x", []int{2, 31, 32, 64, 65, 1000, 5000, 20000}, []int{1, 2, 5, 9})
			field[*lib.F257](r, "F257x", []int{31, 32, 33, 4000}, ts)
			field[*lib.F12289](r, "F12289x", []int{255, 256, 257, 4000}, ts)
			field[*jexp.Uint255](r, "Uint255x", []int{7, 8, 9, 3000}, ts)
			field[*bexp.Uint110](r, "Uint110x", []int{1, 1000}, []int{3})
			field[*bexp.Uint440](r, "Uint440x", []int{1, 300}, []int{3})
		}
	})
}
