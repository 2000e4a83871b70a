// C02: the polynomial commitment verifier rejects every false statement and
// every altered proof of the enumerated families.
package main

import (
	"fmt"
	"math/big"
	"time"

	bexp "github.com/sp301415/ringo-snark/buckler/zzexp"
	"github.com/sp301415/ringo-snark/jindo"
	jexp "github.com/sp301415/ringo-snark/jindo/zzexp"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zzverif/jx"
	"github.com/sp301415/ringo-snark/zzverif/lib"
	"github.com/tuneinsight/lattigo/v6/ring"
)

type sys[E bignum.Uint[E]] struct {
	params jindo.Parameters
	prv    *jindo.Prover[E]
	vrf    *jindo.Verifier[E]
	v, v2  [][]E
	x      E
	com    []*jindo.Commitment
	com2   []*jindo.Commitment
	op     []*jindo.Opening
	op2    []*jindo.Opening
	ev     []E
	pf     *jindo.Proof
}

func setup[E bignum.Uint[E]](N, t int) *sys[E] {
	s := &sys[E]{params: jindo.NewParameters[E](N, t)}
	s.prv = jindo.NewProver[E](s.params, []byte("C02"))
	s.vrf = jindo.NewVerifier[E](s.params, []byte("C02"))
	s.x = jx.El[E](5)
	for i := range t {
		v, v2 := make([]E, N), make([]E, N)
		for j := range v {
			v[j] = jx.El[E](int64(j*j + 7*i + 1))
			v2[j] = jx.El[E](int64(3*j - 11*i - 5))
		}
		c, o := s.prv.Commit(v)
		c2, o2 := s.prv.Commit(v2)
		s.v, s.com, s.op = append(s.v, v), append(s.com, c), append(s.op, o)
		s.v2, s.com2, s.op2 = append(s.v2, v2), append(s.com2, c2), append(s.op2, o2)
	}
	s.ev, s.pf = s.prv.Evaluate(s.x, s.v, s.com, s.op)
	return s
}

func (s *sys[E]) reject(c *lib.T, what string, x E, com []*jindo.Commitment, y []E, pf *jindo.Proof) {
	c.Trans(1)
	c.State(c.ID, what)
	var got bool
	if p, e := lib.Try(func() { got = s.vrf.Verify(x, com, y, pf) }); p {
		c.Failf("%s: verifier panicked: %v", what, e)
	}
	c.Check(!got, "%s: accepted", what)
	c.Outcome("rejected")
}

func run[E bignum.Uint[E]](r *lib.Run, name string, N, t int) {
	base := fmt.Sprintf("%s/N%d/t%d/", name, N, t)
	r.Case(base+"statement", func(c *lib.T) {
		s := setup[E](N, t)
		c.Check(s.vrf.Verify(s.x, s.com, s.ev, s.pf), "honest proof rejected")
		for _, d := range []int64{1, -1, 7, 1 << 40} {
			s.reject(c, fmt.Sprintf("x+%d", d), jx.El[E](0).Add(s.x, jx.El[E](d)), s.com, s.ev, s.pf)
			for i := range t {
				y := jx.Clone(s.ev)
				y[i].Add(y[i], jx.El[E](d))
				s.reject(c, fmt.Sprintf("y[%d]+%d", i, d), s.x, s.com, y, s.pf)
			}
		}
		for i := range t {
			y := jx.Clone(s.ev)
			y[i] = jx.El[E](0)
			s.reject(c, fmt.Sprintf("y[%d]=0", i), s.x, s.com, y, s.pf)
			com := append([]*jindo.Commitment(nil), s.com...)
			com[i] = s.com2[i]
			s.reject(c, fmt.Sprintf("com[%d] of another polynomial", i), s.x, com, s.ev, s.pf)
			com = append([]*jindo.Commitment(nil), s.com...)
			com[i], _ = s.prv.Commit(s.v[i])
			s.reject(c, fmt.Sprintf("com[%d] with other randomness", i), s.x, com, s.ev, s.pf)
			for j := range com[i].Value {
				for l := range com[i].Value[j].Coeffs {
					com = append([]*jindo.Commitment(nil), s.com...)
					com[i] = jx.CopyCom(s.com[i])
					bump(s.params.RingQOut(), &com[i].Value[j], l, (i+j)%s.params.RingQOut().N())
					s.reject(c, fmt.Sprintf("com[%d].Value[%d] limb %d altered", i, j, l), s.x, com, s.ev, s.pf)
				}
			}
			for j := range i {
				com := append([]*jindo.Commitment(nil), s.com...)
				com[i], com[j] = com[j], com[i]
				s.reject(c, fmt.Sprintf("com %d,%d swapped", i, j), s.x, com, s.ev, s.pf)
				y := append([]E(nil), s.ev...)
				y[i], y[j] = y[j], y[i]
				s.reject(c, fmt.Sprintf("y %d,%d swapped", i, j), s.x, s.com, y, s.pf)
				s.reject(c, fmt.Sprintf("com and y %d,%d swapped", i, j), s.x, com, y, s.pf)
			}
		}
		// lists of another length: a refusal may be a panic, never an acceptance
		for nc := range t + 3 {
			for ny := range t + 3 {
				if nc == t && ny == t {
					continue
				}
				for k := range 4 {
					com, y := append([]*jindo.Commitment(nil), s.com...), append([]E(nil), s.ev...)
					for i := t; i < nc; i++ {
						com = append(com, []*jindo.Commitment{s.com[0], s.com2[0], s.com[t-1], jx.CopyCom(s.com2[t-1])}[k])
					}
					for i := t; i < ny; i++ {
						y = append(y, []E{s.ev[0], jx.El[E](0), s.ev[t-1], jx.El[E](1)}[k])
					}
					if k < 2 {
						com, y = com[:nc], y[:ny]
					} else {
						com, y = com[len(com)-nc:], y[len(y)-ny:]
					}
					acc := false
					lib.Try(func() { acc = s.vrf.Verify(s.x, com, y, s.pf) })
					c.Check(!acc, "%d commitments and %d evaluations (of %d; kind %d): accepted", nc, ny, t, k)
					c.Trans(1)
					c.State(base, "lengths", nc, ny, k)
				}
			}
		}
		c.Check(s.vrf.Verify(s.x, s.com, s.ev, s.pf), "honest proof rejected after the lists of another length")
		// the honest prover code on inconsistent inputs
		for i := range t {
			for _, k := range []int{0, 1, N / 2, N - 1} {
				v := append([][]E(nil), s.v...)
				v[i] = jx.Clone(s.v[i])
				v[i][k].Add(v[i][k], jx.El[E](1))
				ev, pf := s.prv.Evaluate(s.x, v, s.com, s.op)
				s.reject(c, fmt.Sprintf("evaluation of another polynomial (coefficient %d of %d)", k, i), s.x, s.com, ev, pf)
			}
			v := append([][]E(nil), s.v...)
			v[i] = s.v2[i]
			op := append([]*jindo.Opening(nil), s.op...)
			op[i] = s.op2[i]
			ev, pf := s.prv.Evaluate(s.x, v, s.com, op)
			s.reject(c, fmt.Sprintf("opening %d of another commitment", i), s.x, s.com, ev, pf)
			o := jx.CopyOpening(s.op2[i])
			o.InCommit = jx.CopyPolys(s.op[i].InCommit)
			op[i] = o
			ev, pf = s.prv.Evaluate(s.x, v, s.com, op)
			s.reject(c, fmt.Sprintf("encodings %d of another polynomial under the committed inner commitments", i), s.x, s.com, ev, pf)
			o = jx.CopyOpening(s.op[i])
			o.InCommit = jx.CopyPolys(s.op2[i].InCommit)
			op[i] = o
			ev, pf = s.prv.Evaluate(s.x, s.v, s.com, op)
			s.reject(c, fmt.Sprintf("inner commitments %d of another polynomial", i), s.x, s.com, ev, pf)
		}
		vrf2 := jindo.NewVerifier[E](s.params, []byte("C02'"))
		c.Check(!vrf2.Verify(s.x, s.com, s.ev, s.pf), "accepted under another reference string")
		c.Check(s.vrf.Verify(s.x, s.com, s.ev, s.pf), "honest proof rejected after the rejected ones")
	})
	r.Case(base+"forge", func(c *lib.T) {
		s := setup[E](N, t)
		ev, pf0, chal, batch, ok := jx.Leak(s.prv, s.params, s.x, s.v, s.com, s.op)
		if !ok {
			c.Outcome("skipped")
			return
		}
		pf := jx.Assemble(s.params, pf0, chal, batch, s.op)
		c.Check(s.vrf.Verify(s.x, s.com, ev, pf), "assembled honest proof rejected: the adversary model does not match the implementation")
		c.Trace(1)
		// first message of another polynomial, responses of the committed one
		ev, pf0, chal, batch, _ = jx.Leak(s.prv, s.params, s.x, s.v2, s.com, s.op2)
		s.reject(c, "first message of another polynomial", s.x, s.com, ev, jx.Assemble(s.params, pf0, chal, batch, s.op))
		s.reject(c, "first message and responses of another polynomial", s.x, s.com, ev, jx.Assemble(s.params, pf0, chal, batch, s.op2))
		for i := range t {
			for col := range s.params.Cols() + 1 {
				// one column's encodings replaced in the first message / in the response
				o := jx.CopyOpening(s.op[i])
				o.Encode[col] = jx.CopyPolys(s.op2[i].Encode[col])
				op := append([]*jindo.Opening(nil), s.op...)
				op[i] = o
				v := append([][]E(nil), s.v...)
				if col < s.params.Cols() {
					v[i] = mix(s.params, s.v[i], s.v2[i], col)
				}
				ev, pf0, chal, batch, _ := jx.Leak(s.prv, s.params, s.x, v, s.com, op)
				s.reject(c, fmt.Sprintf("column %d of %d replaced in the first message", col, i), s.x, s.com, ev, jx.Assemble(s.params, pf0, chal, batch, s.op))
				s.reject(c, fmt.Sprintf("column %d of %d replaced everywhere", col, i), s.x, s.com, ev, jx.Assemble(s.params, pf0, chal, batch, op))
				ev, pf0, chal, batch, _ = jx.Leak(s.prv, s.params, s.x, s.v, s.com, s.op)
				s.reject(c, fmt.Sprintf("column %d of %d replaced in the response", col, i), s.x, s.com, ev, jx.Assemble(s.params, pf0, chal, batch, op))
			}
		}
	})
	r.Case(base+"mixed", func(c *lib.T) {
		// a first message that decodes to a chosen false value
		s := setup[E](N, t)
		for _, k := range []int{0, 1, s.params.Slots() - 1, N - 1} {
			o := jx.CopyOpening(s.op[0])
			col := (k / s.params.Slots()) % s.params.Cols()
			pos := k % s.params.Slots()
			one := jx.Mono(s.params.RingQ(), big.NewInt(1), pos)
			s.params.RingQ().Add(o.Encode[col][0], one, o.Encode[col][0])
			v := append([][]E(nil), s.v...)
			v[0] = jx.Clone(s.v[0])
			idx := col*s.params.Slots() + pos
			for len(v[0]) <= idx {
				v[0] = append(v[0], jx.El[E](0))
			}
			v[0][idx].Add(v[0][idx], jx.El[E](1))
			op := append([]*jindo.Opening(nil), s.op...)
			op[0] = o
			ev, pf0, chal, batch, ok := jx.Leak(s.prv, s.params, s.x, v, s.com, op)
			if !ok {
				return
			}
			s.reject(c, fmt.Sprintf("coefficient %d shifted in the first message", idx), s.x, s.com, ev, jx.Assemble(s.params, pf0, chal, batch, s.op))
			s.reject(c, fmt.Sprintf("coefficient %d shifted in first message and response", idx), s.x, s.com, ev, jx.Assemble(s.params, pf0, chal, batch, op))
		}
	})
	const parts = 12
	for part := range parts {
		r.Case(fmt.Sprintf("%sproof/%d", base, part), func(c *lib.T) {
			s := setup[E](N, t)
			_, pf2 := s.prv.Evaluate(s.x, s.v2, s.com2, s.op2)
			names, ps := jx.Polys(s.pf)
			mlwe0 := len(ps) - len(s.pf.MLWE)
			for k := range ps {
				if k%parts != part {
					continue
				}
				rg := s.params.RingQ()
				if names[k] == "InCommit" {
					rg = s.params.RingQOut()
				}
				try := func(what string, f func(p *ring.Poly, pf *jindo.Proof)) {
					pf := jx.CopyProof(s.pf)
					_, q := jx.Polys(pf)
					f(q[k], pf)
					if q[k].Equal(ps[k]) {
						return
					}
					s.reject(c, fmt.Sprintf("%s (polynomial %d): %s", names[k], k, what), s.x, s.com, s.ev, pf)
				}
				for l := range ps[k].Coeffs {
					for _, pos := range []int{k % 2, rg.N() - 1 - k%3} {
						try(fmt.Sprintf("limb %d coefficient %d", l, pos), func(p *ring.Poly, _ *jindo.Proof) { bump(rg, p, l, pos) })
					}
				}
				if names[k] == "MLWE" && k-mlwe0 >= s.params.MLWERank() {
					// these enter the approximate relation with weight one: only
					// changes of full size must be rejected
					for l := range ps[k].Coeffs {
						try(fmt.Sprintf("unreduced limb %d", l), func(p *ring.Poly, _ *jindo.Proof) { p.Coeffs[l][3] += rg.SubRings[l].Modulus })
					}
					continue
				}
				try("zeroed", func(p *ring.Poly, _ *jindo.Proof) { p.Zero() })
				try("negated", func(p *ring.Poly, _ *jindo.Proof) { rg.Neg(*p, *p) })
				try("taken from another proof", func(p *ring.Poly, _ *jindo.Proof) {
					_, o := jx.Polys(pf2)
					p.Copy(*o[k])
				})
				if names[k] != "MLWE" {
					try("small shift", func(p *ring.Poly, _ *jindo.Proof) { rg.Add(*p, jx.Mono(rg, big.NewInt(1), (k*31)%rg.N()), *p) })
				}
				if k+1 < len(ps) && names[k+1] == names[k] {
					try("swapped with the next", func(p *ring.Poly, pf *jindo.Proof) {
						_, q := jx.Polys(pf)
						*q[k], *q[k+1] = *q[k+1], *q[k]
					})
				}
				for l := range ps[k].Coeffs {
					// a different representative of the same residue
					try(fmt.Sprintf("unreduced limb %d", l), func(p *ring.Poly, _ *jindo.Proof) { p.Coeffs[l][3] += rg.SubRings[l].Modulus })
				}
			}
		})
	}
	r.Case(base+"shape", func(c *lib.T) {
		s := setup[E](N, t)
		type mut struct {
			n string
			f func(pf *jindo.Proof)
		}
		lists := func(pf *jindo.Proof) []*[]ring.Poly {
			return []*[]ring.Poly{&pf.InCommit, &pf.Partial, &pf.Encode, &pf.MLWE}
		}
		var ms []mut
		for k, n := range []string{"InCommit", "Partial", "Encode", "MLWE"} {
			ms = append(ms,
				mut{n + " empty", func(pf *jindo.Proof) { *lists(pf)[k] = nil }},
				mut{n + " short", func(pf *jindo.Proof) { l := lists(pf)[k]; *l = (*l)[:len(*l)-1] }},
				mut{n + " long", func(pf *jindo.Proof) { l := lists(pf)[k]; *l = append(*l, *(*l)[0].CopyNew()) }},
				mut{n + " long by zero", func(pf *jindo.Proof) {
					l := lists(pf)[k]
					z := *(*l)[0].CopyNew()
					z.Zero()
					*l = append(*l, z)
				}},
				mut{n + " unset polynomial", func(pf *jindo.Proof) { (*lists(pf)[k])[0] = ring.Poly{} }},
				mut{n + " missing limb", func(pf *jindo.Proof) { p := &(*lists(pf)[k])[0]; p.Coeffs = p.Coeffs[:len(p.Coeffs)-1] }},
				mut{n + " short limb", func(pf *jindo.Proof) { p := &(*lists(pf)[k])[0]; p.Coeffs[0] = p.Coeffs[0][:len(p.Coeffs[0])-1] }},
			)
		}
		ms = append(ms, mut{"PartialMask unset", func(pf *jindo.Proof) { pf.PartialMask = ring.Poly{} }})
		for _, m := range ms {
			pf := jx.CopyProof(s.pf)
			m.f(pf)
			s.reject(c, m.n, s.x, s.com, s.ev, pf)
		}
		s.reject(c, "nil proof", s.x, s.com, s.ev, nil)
		for i := range t {
			for k, f := range []func(cm *jindo.Commitment) *jindo.Commitment{
				func(cm *jindo.Commitment) *jindo.Commitment { return nil },
				func(cm *jindo.Commitment) *jindo.Commitment { return &jindo.Commitment{} },
				func(cm *jindo.Commitment) *jindo.Commitment { cm.Value = cm.Value[:len(cm.Value)-1]; return cm },
				func(cm *jindo.Commitment) *jindo.Commitment { cm.Value = append(cm.Value, cm.Value[0]); return cm },
				func(cm *jindo.Commitment) *jindo.Commitment { cm.Value[0] = ring.Poly{}; return cm },
			} {
				com := append([]*jindo.Commitment(nil), s.com...)
				com[i] = f(jx.CopyCom(com[i]))
				s.reject(c, fmt.Sprintf("malformed commitment %d kind %d", i, k), s.x, com, s.ev, s.pf)
			}
		}
		c.Check(s.vrf.Verify(s.x, s.com, s.ev, s.pf), "honest proof rejected after the malformed ones")
	})
}

// mix replaces the entries of column col.
func mix[E bignum.Uint[E]](p jindo.Parameters, v, v2 []E, col int) []E {
	o := jx.Clone(v)
	row := p.Cols() * p.Slots()
	for i := range o {
		if (i%row)/p.Slots() == col {
			o[i].Set(v2[i])
		}
	}
	return o
}

func bump(r *ring.Ring, p *ring.Poly, l, pos int) {
	q := r.SubRings[l].Modulus
	p.Coeffs[l][pos] = (p.Coeffs[l][pos] + 1) % q
}

// wide: batches of many polynomials, altered at positions around powers of two
// and in pairs that cancel in a plain sum or difference.
func wide[E bignum.Uint[E]](r *lib.Run, name string, N, t int) {
	r.Case(fmt.Sprintf("%s/N%d/t%d/wide", name, N, t), func(c *lib.T) {
		s := setup[E](N, t)
		c.Check(s.vrf.Verify(s.x, s.com, s.ev, s.pf), "honest proof rejected")
		var at []int
		for i := range t {
			if i&(i-1) == 0 || i&(i+1) == 0 || i >= t-2 {
				at = append(at, i)
			}
		}
		one := jx.El[E](1)
		for a, i := range at {
			y := jx.Clone(s.ev)
			y[i].Add(y[i], one)
			s.reject(c, fmt.Sprintf("y[%d]+1", i), s.x, s.com, y, s.pf)
			com := append([]*jindo.Commitment(nil), s.com...)
			com[i] = s.com2[i]
			s.reject(c, fmt.Sprintf("com[%d] of another polynomial", i), s.x, com, s.ev, s.pf)
			com[i] = jx.CopyCom(s.com[i])
			bump(s.params.RingQOut(), &com[i].Value[i%len(com[i].Value)], 0, i%s.params.RingQOut().N())
			s.reject(c, fmt.Sprintf("com[%d] altered", i), s.x, com, s.ev, s.pf)
			v := append([][]E(nil), s.v...)
			v[i] = jx.Clone(s.v[i])
			v[i][0].Add(v[i][0], one)
			ev, pf := s.prv.Evaluate(s.x, v, s.com, s.op)
			s.reject(c, fmt.Sprintf("evaluation of another polynomial %d", i), s.x, s.com, ev, pf)
			if a%3 == 1 {
				op := append([]*jindo.Opening(nil), s.op...)
				v[i], op[i] = s.v2[i], s.op2[i]
				ev, pf = s.prv.Evaluate(s.x, v, s.com, op)
				s.reject(c, fmt.Sprintf("opening %d of another commitment", i), s.x, s.com, ev, pf)
			}
			for _, j := range at[:a] {
				for _, d := range []int64{-1, 1} {
					y := jx.Clone(s.ev)
					y[i].Add(y[i], one)
					y[j].Add(y[j], jx.El[E](d))
					s.reject(c, fmt.Sprintf("y[%d]+1, y[%d]%+d", i, j, d), s.x, s.com, y, s.pf)
				}
				com := append([]*jindo.Commitment(nil), s.com...)
				com[i], com[j] = com[j], com[i]
				s.reject(c, fmt.Sprintf("com %d, %d swapped", i, j), s.x, com, s.ev, s.pf)
				y := jx.Clone(s.ev)
				y[i], y[j] = y[j], y[i]
				s.reject(c, fmt.Sprintf("com and y %d, %d swapped", i, j), s.x, com, y, s.pf)
				if j != at[a-1] && j != i/2 && j != 0 {
					continue
				}
				v := append([][]E(nil), s.v...)
				v[i], v[j] = jx.Clone(s.v[i]), jx.Clone(s.v[j])
				v[i][0].Add(v[i][0], one)
				v[j][0].Sub(v[j][0], one)
				ev, pf := s.prv.Evaluate(s.x, v, s.com, s.op)
				s.reject(c, fmt.Sprintf("evaluations of polynomials %d and %d shifted in opposite directions", i, j), s.x, s.com, ev, pf)
				op := append([]*jindo.Opening(nil), s.op...)
				op[i], op[j] = jx.CopyOpening(s.op[i]), jx.CopyOpening(s.op[j])
				mono := jx.Mono(s.params.RingQ(), big.NewInt(1), 0)
				s.params.RingQ().Add(op[i].Encode[0][0], mono, op[i].Encode[0][0])
				s.params.RingQ().Sub(op[j].Encode[0][0], mono, op[j].Encode[0][0])
				ev, pf = s.prv.Evaluate(s.x, v, s.com, op)
				s.reject(c, fmt.Sprintf("polynomials and encodings %d and %d shifted in opposite directions", i, j), s.x, s.com, ev, pf)
				ev, pf = s.prv.Evaluate(s.x, s.v, s.com, op)
				s.reject(c, fmt.Sprintf("encodings %d and %d shifted in opposite directions", i, j), s.x, s.com, ev, pf)
			}
		}
		c.Check(s.vrf.Verify(s.x, s.com, s.ev, s.pf), "honest proof rejected after the rejected ones")
	})
}

func main() {
	lib.Main("C02", lib.Options{QuickBudget: 100 * time.Second, Assumptions: []string{
		"soundness of the accepted relation itself rests on the MSIS assumption; the check decides rejection of the enumerated false statements and forgeries",
	}}, func(r *lib.Run) {
		run[*lib.F62](r, "F62", 200, 1)
		run[*lib.F62](r, "F62", 100, 3)
		run[*lib.F60K4](r, "F60K4", 300, 2)
		run[*jexp.Uint255](r, "Uint255", 40, 1)
		run[*jexp.Uint255](r, "Uint255", 40, 2)
		run[*bexp.Uint110](r, "Uint110", 100, 1)
		wide[*lib.F62](r, "F62", 20, 3)
		wide[*lib.F62](r, "F62", 20, 20)
		wide[*lib.F62](r, "F62", 20, 70)
		wide[*jexp.Uint255](r, "Uint255", 20, 18)
		if r.Thorough {
			wide[*lib.F62](r, "F62", 300, 5)
			wide[*lib.F62](r, "F62", 20, 260)
			run[*lib.F62](r, "F62", 4000, 1)
			run[*lib.F62](r, "F62", 4000, 4)
			run[*bexp.Uint440](r, "Uint440", 100, 2)
			run[*bexp.Uint880](r, "Uint880", 100, 1)
			run[*bexp.Uint220](r, "Uint220", 300, 2)
		}
	})
}
