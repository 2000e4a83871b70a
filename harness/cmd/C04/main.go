// C04: norm bounds of the commitment scheme against a malicious prover that
// satisfies every linear relation. Every deviation of the enumerated family is
// judged by a reference verifier over the integers.
package main

import (
	"fmt"
	"math/big"
	"time"

	"github.com/sp301415/ringo-snark/jindo"
	jexp "github.com/sp301415/ringo-snark/jindo/zzexp"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zzverif/jx"
	"github.com/sp301415/ringo-snark/zzverif/lib"
	"github.com/tuneinsight/lattigo/v6/ring"
)

func scale(bound float64, num, den int64) *big.Int {
	b, _ := big.NewFloat(bound).Int(nil)
	b.Mul(b, big.NewInt(num))
	return b.Div(b, big.NewInt(den))
}

type sys[E bignum.Uint[E]] struct {
	params jindo.Parameters
	prv    *jindo.Prover[E]
	vrf    *jindo.Verifier[E]
	ck     *jindo.CommitKey
	v      [][]E
	x      E
	com    []*jindo.Commitment
	op     []*jindo.Opening
}

func setup[E bignum.Uint[E]](N, t int) *sys[E] {
	s := &sys[E]{params: jindo.NewParameters[E](N, t)}
	crs := []byte("C04")
	s.prv = jindo.NewProver[E](s.params, crs)
	s.vrf = jindo.NewVerifier[E](s.params, crs)
	s.ck = jindo.NewCommitKey(s.params, crs)
	s.x = jx.El[E](3)
	for i := range t {
		v := make([]E, N)
		for j := range v {
			v[j] = jx.El[E](int64(j*j + i + 1))
		}
		c, o := s.prv.Commit(v)
		s.v, s.com, s.op = append(s.v, v), append(s.com, c), append(s.op, o)
	}
	return s
}

// judge sends the (possibly malicious) openings through the honest prover code
// and compares the verifier with the reference.
func (s *sys[E]) judge(c *lib.T, what string, com []*jindo.Commitment, op []*jindo.Opening) {
	ev, pf0, chal, batch, ok := jx.Leak(s.prv, s.params, s.x, s.v, com, op)
	if !ok {
		c.Outcome("skipped")
		return
	}
	pf := jx.Assemble(s.params, pf0, chal, batch, op)
	ref := jx.RefVerify(s.params, s.ck, s.x, com, ev, pf, chal, batch)
	want, sure := ref.Verdict(s.params)
	got := s.vrf.Verify(s.x, com, ev, pf)
	c.Trans(2)
	c.Trace(1)
	c.State(c.ID, what)
	if !sure {
		c.Outcome("borderline")
		return
	}
	if got {
		c.Outcome("accept")
	} else {
		c.Outcome("reject")
	}
	o, _ := new(big.Float).Sqrt(new(big.Float).SetInt(ref.OuterSq)).Float64()
	n, _ := new(big.Float).Sqrt(new(big.Float).SetInt(ref.InnerSq)).Float64()
	c.Check(got == want, "%s: verifier says %v, reference %v (outer norm %.4g of %.4g, inner norm %.4g of %.4g, consistent %v, eval %v)",
		what, got, want, o, s.params.InComDcmpTwoNm(), n, s.params.ResTwoNm(), ref.Consistent, ref.Eval)
}

func (s *sys[E]) recommit(i int, o *jindo.Opening) []*jindo.Commitment {
	com := append([]*jindo.Commitment(nil), s.com...)
	com[i] = jx.OuterCommit(s.params, s.ck, o)
	return com
}

func (s *sys[E]) reinner(o *jindo.Opening) {
	for k, cc := range jx.InnerCommit(s.params, s.ck, o) {
		o.InCommit[k] = jx.FromCoeffs(s.params.RingQOut(), cc)
	}
}

func (s *sys[E]) with(i int, o *jindo.Opening) []*jindo.Opening {
	op := append([]*jindo.Opening(nil), s.op...)
	op[i] = o
	return op
}

var ratios = [][2]int64{{1, 4}, {9, 10}, {99, 100}, {101, 100}, {3, 2}, {64, 1}}

func run[E bignum.Uint[E]](r *lib.Run, name string, N, t int) {
	// polynomial index is split over cases so that the shards share the work
	base := fmt.Sprintf("%s/N%d/t%d", name, N, t)
	r.Case(base+"/conformance", func(c *lib.T) {
		s := setup[E](N, t)
		for i := range s.op {
			// the reference commitment agrees with the implementation's
			ri, ro := s.params.RingQ(), s.params.RingQOut()
			for j, w := range jx.InnerImages(s.params, s.ck, s.op[i]) {
				c.Check(jx.HighParts(ri.Modulus(), jx.Coeffs(ro, s.op[i].InCommit[j]), w, s.params.LogInCutOff()) < 0, "inner commitment differs from the high part of In*Encode+MLWE")
			}
			for j, w := range jx.OuterImages(s.params, s.ck, s.op[i]) {
				c.Check(jx.HighParts(ro.Modulus(), jx.Coeffs(ro, s.com[i].Value[j]), w, s.params.OutCutOff()) < 0, "commitment differs from the high part of Out*InCommit")
			}
		}
		s.judge(c, "honest", s.com, s.op)
		ev, pf := s.prv.Evaluate(s.x, s.v, s.com, s.op)
		c.Check(s.vrf.Verify(s.x, s.com, ev, pf), "honest proof rejected")
	})
	kinds := []string{"encode", "mlwe", "mlweid", "incom", "com"}
	for _, kind := range kinds {
		for part := range 4 {
			r.Case(fmt.Sprintf("%s/%s/%d", base, kind, part), func(c *lib.T) {
				s := setup[E](N, t)
				rq := s.params.RingQ()
				var cnt int
				switch kind {
				case "encode":
					cnt = s.params.Rows()
				case "mlwe":
					cnt = s.params.MLWERank()
				case "mlweid":
					cnt = s.params.InMSISRank()
				case "incom":
					cnt = s.params.InCommitDecomposeLen()
				case "com":
					cnt = s.params.OutMSISRank()
				}
				idx := []int{}
				for k := range cnt {
					if k%4 == part && (r.Thorough || cnt <= 12 || k < 2 || k >= cnt-2 || k%5 == 0) {
						idx = append(idx, k)
					}
				}
				for _, k := range idx {
					i := k % t
					pos := (k * 37) % rq.N()
					for _, ra := range ratios {
						what := fmt.Sprintf("%s[%d] by %d/%d of the bound", kind, k, ra[0], ra[1])
						o := jx.CopyOpening(s.op[i])
						switch kind {
						case "encode":
							// multiples of X^slots - base decode to zero; the mask column is used unscaled
							m := scale(s.params.ResTwoNm()/float64(s.params.Base()), ra[0], ra[1])
							m = new(big.Int).Quo(m, amp(s.params, t))
							d := jx.Mono(rq, new(big.Int).Neg(new(big.Int).Mul(m, new(big.Int).SetUint64(s.params.Base()))), 0)
							rq.Add(d, jx.Mono(rq, m, s.params.Slots()%rq.N()), d)
							if s.params.Slots() == rq.N() { // X^N = -1
								d = jx.Mono(rq, new(big.Int).Neg(new(big.Int).Mul(m, new(big.Int).SetUint64(s.params.Base()+1))), 0)
							}
							rq.Add(o.Encode[s.params.Cols()][k], d, o.Encode[s.params.Cols()][k])
							s.reinner(o)
							s.judge(c, what, s.recommit(i, o), s.with(i, o))
						case "mlwe", "mlweid":
							kk := k
							if kind == "mlweid" {
								kk += s.params.MLWERank()
							}
							m := new(big.Int).Quo(scale(s.params.ResTwoNm(), ra[0], ra[1]), amp(s.params, t))
							rq.Add(o.MLWE[s.params.Cols()][kk], jx.Mono(rq, m, pos), o.MLWE[s.params.Cols()][kk])
							s.reinner(o)
							s.judge(c, what, s.recommit(i, o), s.with(i, o))
						case "incom":
							// multiples of Q/2^cut leave the inner relation almost unchanged
							Q := jx.ModRing(rq)
							step := new(big.Int).Rsh(Q, uint(s.params.LogInCutOff()))
							m := new(big.Int).Quo(scale(s.params.InComDcmpTwoNm(), ra[0], ra[1]), amp(s.params, t))
							m.Add(m, new(big.Int).Rsh(step, 1))
							m.Quo(m, step)
							dl := new(big.Int).Mul(m, Q)
							dl.Add(dl, new(big.Int).Lsh(big.NewInt(1), uint(s.params.LogInCutOff()-1)))
							dl.Rsh(dl, uint(s.params.LogInCutOff()))
							ro := s.params.RingQOut()
							ro.Add(o.InCommit[k], jx.Mono(ro, dl, pos), o.InCommit[k])
							s.judge(c, what, s.recommit(i, o), s.with(i, o))
						case "com":
							ro := s.params.RingQOut()
							m := new(big.Int).Quo(scale(s.params.InComDcmpTwoNm(), ra[0], ra[1]), amp(s.params, t))
							m.Rsh(m, uint(s.params.OutCutOff()))
							cm := jx.CopyCom(s.com[i])
							ro.Add(cm.Value[k], jx.Mono(ro, m, pos), cm.Value[k])
							com := append([]*jindo.Commitment(nil), s.com...)
							com[i] = cm
							s.judge(c, what, com, s.op)
						}
					}
				}
				c.Sample("%d polynomials, ratios %v", len(idx), ratios)
			})
		}
	}
}

// amp is the growth of a one-coefficient deviation under the batching
// challenge (about sqrt(exp/3)*bound); only used to place the enumerated deviations near the bound.
func amp(p jindo.Parameters, t int) *big.Int {
	if t == 1 {
		return big.NewInt(1)
	}
	f := float64(p.ChallengeBound()) * float64(p.Exp())
	g, _ := new(big.Float).Sqrt(big.NewFloat(f * float64(p.ChallengeBound()) / 3)).Int(nil)
	return g.Add(g, big.NewInt(1))
}

var _ ring.Poly

func main() {
	lib.Main("C04", lib.Options{QuickBudget: 100 * time.Second, Assumptions: []string{
		"deviations are single-coefficient shifts of one committed polynomial at enumerated sizes around the bound; the commitment key is re-derived through the exported constructor",
	}}, func(r *lib.Run) {
		run[*lib.F62](r, "F62", 200, 1)
		run[*lib.F62](r, "F62", 200, 2)
		run[*lib.F60K4](r, "F60K4", 300, 1)
		run[*jexp.Uint255](r, "Uint255", 40, 1)
		run[*jexp.Uint255](r, "Uint255", 40, 2)
		run[*lib.F62](r, "F62", 1<<13, 1)
		if r.Thorough {
			run[*lib.F62](r, "F62", 3000, 1)
			run[*lib.F62](r, "F62", 3000, 3)
			run[*lib.F60K2](r, "F60K2", 300, 1)
			run[*lib.F12289](r, "F12289", 300, 1)
			run[*jexp.Uint255](r, "Uint255", 2000, 3)
		}
	})
}
