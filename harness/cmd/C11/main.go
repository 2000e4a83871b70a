// C11: altered, spliced, malformed and misdirected circuit proofs are
// rejected without panicking.
package main

import (
	"fmt"
	"math/big"
	"time"

	"github.com/sp301415/ringo-snark/buckler"
	bexp "github.com/sp301415/ringo-snark/buckler/zzexp"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zzverif/circ"
	"github.com/sp301415/ringo-snark/zzverif/jx"
	"github.com/sp301415/ringo-snark/zzverif/lib"
	"github.com/tuneinsight/lattigo/v6/ring"
)

func copyProof[E bignum.Uint[E]](p *buckler.Proof[E]) *buckler.Proof[E] {
	q := *p
	q.Witness = append([]*jindo.Commitment(nil), p.Witness...)
	q.Evals = append([]E(nil), p.Evals...)
	return &q
}

func words(n int, q, root *big.Int, salt int) map[string]circ.Inst {
	m := map[string]circ.Inst{}
	for nm, ls := range map[string][]string{
		"arith": {"mul", "pub"},
		"sum":   {"summul", "sumpub"},
		"lin":   {"lin-ntt", "lin-shift"},
		"norm":  {"inf5", "two3"},
		"full":  {"deg3", "pub", "sumpub", "inf3", "lin-autn3"},
	} {
		var L []circ.Letter
		for _, l := range ls {
			L = append(L, circ.LetterByName(l))
		}
		m[nm] = circ.Word(n, q, root, salt, 0, L...)
	}
	return m
}

func altered[E bignum.Uint[E]](r *lib.Run, name string, n int) {
	q, root := circ.Order[E](), circ.NTTRoot[E](n)
	ws := words(n, q, root, r.Seed)
	for _, nm := range []string{"arith", "sum", "lin", "norm", "full"} {
		x := ws[nm]
		type env struct {
			sys      *circ.Sys[E]
			pf, pf2  *buckler.Proof[E]
			rejected func(what string, pf *buckler.Proof[E])
		}
		mk := func(c *lib.T) *env {
			e := &env{}
			var err error
			e.sys, err = circ.Compile[E](x.Spec, "crs")
			c.Check(err == nil, "compile: %v", err)
			e.pf, err = e.sys.Prove(x.P, x.W)
			c.Check(err == nil && e.sys.Verify(x.P, e.pf), "honest proof rejected")
			e.pf2, err = e.sys.Prove(x.P, x.W)
			c.Check(err == nil && e.sys.Verify(x.P, e.pf2), "honest proof rejected")
			e.rejected = func(what string, pf *buckler.Proof[E]) {
				var v bool
				if p, err := lib.Try(func() { v = e.sys.Verify(x.P, pf) }); p {
					c.Failf("%s: verifier panicked: %v", what, err)
				}
				c.Trans(1)
				c.Trace(1)
				c.State(c.ID, what)
				c.Check(!v, "%s: accepted", what)
				c.Outcome("rejected")
			}
			return e
		}
		base := fmt.Sprintf("%s/r%d/%s/", name, n, nm)
		r.Case(base+"values", func(c *lib.T) {
			e := mk(c)
			for i := range e.pf.Evals {
				for _, d := range []int64{1, -1, 1 << 30} {
					p := copyProof(e.pf)
					p.Evals[i] = jx.El[E](d)
					p.Evals[i].Add(p.Evals[i], e.pf.Evals[i])
					e.rejected(fmt.Sprintf("evaluation %d + %d", i, d), p)
				}
				p := copyProof(e.pf)
				p.Evals[i] = jx.El[E](0)
				if e.pf.Evals[i].Cmp(p.Evals[i]) != 0 {
					e.rejected(fmt.Sprintf("evaluation %d = 0", i), p)
				}
				for j := range i {
					if e.pf.Evals[i].Cmp(e.pf.Evals[j]) == 0 {
						continue
					}
					p := copyProof(e.pf)
					p.Evals[i], p.Evals[j] = p.Evals[j], p.Evals[i]
					e.rejected(fmt.Sprintf("evaluations %d, %d swapped", i, j), p)
				}
			}
			for k := range 2 {
				get := func(p *buckler.Proof[E]) *E {
					if k == 0 {
						return &p.LinCheckMaskSum
					}
					return &p.SumCheckMaskSum
				}
				used := false
				for _, t := range x.Spec.Cs {
					used = used || k == 0 && t.Kind == "lin" || k == 1 && (t.Kind == "sum" || t.Kind == "two")
				}
				if !used {
					continue
				}
				for _, d := range []int64{1, -1, 1 << 30} {
					p := copyProof(e.pf)
					v := jx.El[E](d)
					*get(p) = v.Add(v, *get(e.pf))
					e.rejected(fmt.Sprintf("mask sum %d + %d", k, d), p)
				}
				p := copyProof(e.pf)
				*get(p) = *get(e.pf2)
				e.rejected(fmt.Sprintf("mask sum %d of another proof", k), p)
			}
		})
		r.Case(base+"commitments", func(c *lib.T) {
			e := mk(c)
			R := e.sys.Prv.JindoParams.RingQOut()
			for i := range e.pf.Witness {
				p := copyProof(e.pf)
				p.Witness[i] = e.pf2.Witness[i]
				e.rejected(fmt.Sprintf("commitment %d of another proof", i), p)
				p.Evals[i] = e.pf2.Evals[i]
				e.rejected(fmt.Sprintf("commitment and evaluation %d of another proof", i), p)
				for j := range e.pf.Witness[i].Value {
					p := copyProof(e.pf)
					p.Witness[i] = jx.CopyCom(e.pf.Witness[i])
					m := jx.Mono(R, big.NewInt(1), (i+3*j)%R.N())
					R.Add(p.Witness[i].Value[j], m, p.Witness[i].Value[j])
					e.rejected(fmt.Sprintf("commitment %d component %d altered", i, j), p)
				}
				for j := range i {
					p := copyProof(e.pf)
					p.Witness[i], p.Witness[j] = p.Witness[j], p.Witness[i]
					e.rejected(fmt.Sprintf("commitments %d, %d swapped", i, j), p)
					p.Evals[i], p.Evals[j] = p.Evals[j], p.Evals[i]
					e.rejected(fmt.Sprintf("commitments and evaluations %d, %d swapped", i, j), p)
				}
				// prefixes of one proof with the rest of the other
				if i > 0 {
					p := copyProof(e.pf)
					copy(p.Witness[:i], e.pf2.Witness[:i])
					copy(p.Evals[:i], e.pf2.Evals[:i])
					e.rejected(fmt.Sprintf("first %d commitments and evaluations of another proof", i), p)
					p.EvalProof = e.pf2.EvalProof
					e.rejected(fmt.Sprintf("first %d commitments and evaluations and the opening of another proof", i), p)
				}
			}
			p := copyProof(e.pf)
			p.EvalProof = e.pf2.EvalProof
			e.rejected("opening proof of another proof", p)
			p = copyProof(e.pf)
			p.Evals = e.pf2.Evals
			e.rejected("evaluations of another proof", p)
			p.EvalProof = e.pf2.EvalProof
			e.rejected("evaluations and opening proof of another proof", p)
			c.Check(e.sys.Verify(x.P, e.pf) && e.sys.Verify(x.P, e.pf2), "honest proofs rejected after the altered ones")
		})
		r.Case(base+"opening", func(c *lib.T) {
			e := mk(c)
			nms, _ := jx.Polys(e.pf.EvalProof)
			for k := range nms {
				p := copyProof(e.pf)
				p.EvalProof = jx.CopyProof(e.pf.EvalProof)
				_, ps := jx.Polys(p.EvalProof)
				for l := range ps[k].Coeffs {
					for i := range ps[k].Coeffs[l] {
						ps[k].Coeffs[l][i] = e.sys.Prv.JindoParams.RingQ().SubRings[0].Modulus / uint64(3+i%5)
					}
				}
				e.rejected(nms[k]+" replaced", p)
			}
		})
		r.Case(base+"malformed", func(c *lib.T) {
			e := mk(c)
			e.rejected("nil proof", nil)
			e.rejected("empty proof", &buckler.Proof[E]{})
			mod := func(what string, f func(p *buckler.Proof[E])) {
				p := copyProof(e.pf)
				f(p)
				e.rejected(what, p)
			}
			var zero E
			mod("no opening", func(p *buckler.Proof[E]) { p.EvalProof = nil })
			mod("empty opening", func(p *buckler.Proof[E]) { p.EvalProof = &jindo.Proof{} })
			mod("no commitments", func(p *buckler.Proof[E]) { p.Witness = nil })
			mod("no evaluations", func(p *buckler.Proof[E]) { p.Evals = nil })
			mod("no commitments and evaluations", func(p *buckler.Proof[E]) { p.Evals, p.Witness = nil, nil })
			for i := range e.pf.Witness {
				mod("truncated commitments", func(p *buckler.Proof[E]) { p.Witness = p.Witness[:i] })
				mod("truncated evaluations", func(p *buckler.Proof[E]) { p.Evals = p.Evals[:i] })
				mod("truncated both", func(p *buckler.Proof[E]) { p.Evals, p.Witness = p.Evals[:i], p.Witness[:i] })
				mod("removed", func(p *buckler.Proof[E]) {
					p.Evals, p.Witness = append(p.Evals[:i], p.Evals[i+1:]...), append(p.Witness[:i], p.Witness[i+1:]...)
				})
				mod("duplicated", func(p *buckler.Proof[E]) {
					p.Evals, p.Witness = append(p.Evals, p.Evals[i]), append(p.Witness, p.Witness[i])
				})
				mod("nil commitment", func(p *buckler.Proof[E]) { p.Witness[i] = nil })
				mod("empty commitment", func(p *buckler.Proof[E]) { p.Witness[i] = &jindo.Commitment{} })
				mod("short commitment", func(p *buckler.Proof[E]) {
					p.Witness[i] = jx.CopyCom(p.Witness[i])
					p.Witness[i].Value = p.Witness[i].Value[1:]
				})
				mod("long commitment", func(p *buckler.Proof[E]) {
					p.Witness[i] = jx.CopyCom(p.Witness[i])
					p.Witness[i].Value = append(p.Witness[i].Value, p.Witness[i].Value[0])
				})
				mod("commitment of empty polynomials", func(p *buckler.Proof[E]) {
					p.Witness[i] = &jindo.Commitment{Value: make([]ring.Poly, len(p.Witness[i].Value))}
				})
				mod("unreduced commitment", func(p *buckler.Proof[E]) {
					p.Witness[i] = jx.CopyCom(p.Witness[i])
					p.Witness[i].Value[0].Coeffs[0][0] += e.sys.Prv.JindoParams.RingQOut().SubRings[0].Modulus
				})
				mod("nil evaluation", func(p *buckler.Proof[E]) { p.Evals[i] = zero })
			}
			mod("extra", func(p *buckler.Proof[E]) { p.Evals = append(p.Evals, jx.El[E](0)) })
			mod("extra commitment", func(p *buckler.Proof[E]) { p.Witness = append(p.Witness, p.Witness[0]) })
			for _, t := range x.Spec.Cs {
				if t.Kind == "lin" {
					mod("nil linear mask sum", func(p *buckler.Proof[E]) { p.LinCheckMaskSum = zero })
				}
				if t.Kind == "sum" || t.Kind == "two" {
					mod("nil sum mask sum", func(p *buckler.Proof[E]) { p.SumCheckMaskSum = zero })
				}
			}
			c.Check(e.sys.Verify(x.P, e.pf), "honest proof rejected after the malformed ones")
			// public inputs of the wrong shape
			for i := range x.P {
				for _, l := range []int{0, 1, n - 1, n + 1, 2 * n} {
					if l == n {
						continue
					}
					a := circ.Assign[E](x.Spec, x.P, nil)
					v := circ.Elems[E](circ.Const(l, 0))
					copy(v, a.P[i])
					a.P[i] = v
					var ok bool
					if p, err := lib.Try(func() { ok = e.sys.Vrf.Verify(a, e.pf) }); p {
						c.Failf("public input of length %d: verifier panicked: %v", l, err)
					}
					c.Check(!ok, "public input of length %d accepted", l)
				}
				a := circ.Assign[E](x.Spec, x.P, nil)
				a.P = append(a.P[:i], a.P[i+1:]...)
				c.Check(!e.sys.Vrf.Verify(a, e.pf), "missing public input accepted")
				a = circ.Assign[E](x.Spec, x.P, nil)
				a.P = append(a.P, a.P[i])
				c.Check(!e.sys.Vrf.Verify(a, e.pf), "additional public input accepted")
			}
			c.Check(!e.sys.Vrf.Verify(&other[E]{}, e.pf), "circuit of another type accepted")
			// the same public inputs, held by another type with the same fields
			tw := twin[E](*circ.Assign[E](x.Spec, x.P, nil))
			c.Check(!e.sys.Vrf.Verify(&tw, e.pf), "circuit of another type with the same fields accepted")
			c.Check(!e.sys.Vrf.Verify(&holder[E]{*circ.Assign[E](x.Spec, x.P, nil)}, e.pf), "circuit of another type holding the circuit accepted")
		})
		r.Case(base+"crs", func(c *lib.T) {
			e := mk(c)
			for _, crs := range []string{"", "crt", "crs ", "cr", "crs\x00"} {
				s2, err := circ.Compile[E](x.Spec, crs)
				c.Check(err == nil, "compile: %v", err)
				c.Check(!s2.Verify(x.P, e.pf), "accepted under the reference string %q", crs)
				c.Trans(1)
				c.State(c.ID, crs)
			}
			s2, err := circ.Compile[E](x.Spec, "crs")
			c.Check(err == nil && s2.Verify(x.P, e.pf), "rejected by a verifier compiled separately from the same circuit")
		})
	}
}

type twin[E bignum.Uint[E]] circ.Circuit[E]

func (o *twin[E]) Define(ctx *buckler.Context[E]) {}

type holder[E bignum.Uint[E]] struct{ C circ.Circuit[E] }

func (o *holder[E]) Define(ctx *buckler.Context[E]) {}

type other[E bignum.Uint[E]] struct{ A buckler.PublicWitness[E] }

func (o *other[E]) Define(ctx *buckler.Context[E]) {}

// neighbours are pairs of circuits of the same shape; the assignment satisfies
// the first one only.
func neighbours[E bignum.Uint[E]](r *lib.Run, name string) {
	q := circ.Order[E]()
	n := 4
	root := circ.NTTRoot[E](n)
	two, four := circ.Const(n, 2), circ.Const(n, 4)
	ramp := circ.V(1, 2, 3, 4)
	rot := circ.V(2, 3, 4, 1)
	pre := circ.V(1, 3, 6, 10)
	sp := func(np, nw int, c ...circ.Constraint) circ.Spec { return circ.Spec{Rank: n, NP: np, NW: nw, Cs: c} }
	type nb struct {
		a, b circ.Spec
		p, w []circ.Vec
	}
	A, T := circ.Arith, circ.Tm
	for i, x := range []nb{
		{sp(0, 2, A(T(2, -1, 0), T(-1, -1, 1))), sp(0, 2, A(T(3, -1, 0), T(-1, -1, 1))), nil, []circ.Vec{two, four}},
		{sp(0, 2, A(T(1, -1, 0, 0), T(-1, -1, 1))), sp(0, 2, A(T(1, -1, 0, 1), T(-1, -1, 1))), nil, []circ.Vec{two, four}},
		{sp(0, 2, A(T(1, -1, 0, 0), T(-1, -1, 1))), sp(0, 2, A(T(1, -1, 0, 0), T(1, -1, 1))), nil, []circ.Vec{two, four}},
		{sp(0, 2, A(T(2, -1, 0), T(-1, -1, 1))), sp(0, 2, A(T(2, -1, 1), T(-1, -1, 0))), nil, []circ.Vec{two, four}},
		{sp(1, 1, A(T(1, 0), T(-2, -1, 0))), sp(1, 1, A(T(1, 0), T(-1, -1, 0))), []circ.Vec{four}, []circ.Vec{two}},
		{sp(2, 1, A(T(1, 0), T(-2, -1, 0))), sp(2, 1, A(T(1, 1), T(-2, -1, 0))), []circ.Vec{four, two}, []circ.Vec{two}},
		{sp(0, 1, circ.Sum(8, T(1, -1, 0))), sp(0, 1, circ.Sum(9, T(1, -1, 0))), nil, []circ.Vec{two}},
		{sp(0, 1, circ.Sum(8, T(1, -1, 0))), sp(0, 1, circ.Sum(2, T(1, -1, 0))), nil, []circ.Vec{two}},
		{sp(0, 2, circ.Sum(8, T(1, -1, 0)), circ.Sum(16, T(1, -1, 1))), sp(0, 2, circ.Sum(16, T(1, -1, 0)), circ.Sum(8, T(1, -1, 1))), nil, []circ.Vec{two, four}},
		{sp(0, 2, circ.Lin(1, 0, "shift")), sp(0, 2, circ.Lin(1, 0, "id")), nil, []circ.Vec{ramp, rot}},
		{sp(0, 2, circ.Lin(1, 0, "shift")), sp(0, 2, circ.Lin(0, 1, "shift")), nil, []circ.Vec{ramp, rot}},
		{sp(0, 2, circ.Lin(1, 0, "prefix")), sp(0, 2, circ.Lin(1, 0, "ntt")), nil, []circ.Vec{ramp, pre}},
		{sp(0, 1, circ.Inf(0, 4)), sp(0, 1, circ.Inf(0, 3)), nil, []circ.Vec{four}},
		{sp(0, 1, circ.Inf(0, 5)), sp(0, 1, circ.Inf(0, 4)), nil, []circ.Vec{circ.Const(n, 5)}},
		{sp(0, 1, circ.Inf(0, 7)), sp(0, 1, circ.Inf(0, 6)), nil, []circ.Vec{circ.Const(n, 7)}},
		{sp(0, 1, circ.Two(0, 4)), sp(0, 1, circ.Two(0, 3)), nil, []circ.Vec{circ.Const(n, 1)}},
		{sp(0, 1, circ.Two(0, 15), circ.Inf(0, 1)), sp(0, 1, circ.Two(0, 3), circ.Inf(0, 1)), nil, []circ.Vec{circ.Const(n, 1)}},
		{sp(0, 1, circ.Inf(0, 3)), sp(0, 1, circ.Inf(0, 3), A(T(1, -1, 0))), nil, []circ.Vec{two}},
		{sp(0, 1, circ.Inf(0, 3)), sp(0, 1, circ.Inf(0, 3), circ.Sum(0, T(1, -1, 0))), nil, []circ.Vec{two}},
	} {
		r.Case(fmt.Sprintf("%s/neighbour/%d", name, i), func(c *lib.T) {
			c.Check(x.a.Holds(x.p, x.w, q, root) && !x.b.Holds(x.p, x.w, q, root), "harness: bad pair")
			a, err := circ.Compile[E](x.a, "crs")
			c.Check(err == nil, "compile: %v", err)
			b, err := circ.Compile[E](x.b, "crs")
			c.Check(err == nil, "compile: %v", err)
			pf, err := a.Prove(x.p, x.w)
			c.Check(err == nil && a.Verify(x.p, pf), "honest proof rejected")
			var v bool
			if p, e := lib.Try(func() { v = b.Verify(x.p, pf) }); p {
				c.Failf("verifier of %v panicked: %v", x.b, e)
			}
			c.Check(!v, "proof for %v accepted for %v", x.a, x.b)
			c.Check(b.Verdict(x.p, x.w) != "accept", "w=%v accepted for %v", x.w, x.b)
			c.Trans(3)
			c.Trace(2)
			c.State(x.a.String(), x.b.String())
			c.Outcome("neighbour/rejected")
		})
	}
}

func main() {
	lib.Main("C11", lib.Options{QuickBudget: 140 * time.Second, CaseTimeout: 120 * time.Second, Assumptions: []string{
		"rejections are probabilistic with error below 2^-40 per proof",
	}}, func(r *lib.Run) {
		altered[*lib.F62](r, "F62", 4)
		neighbours[*lib.F62](r, "F62")
		if r.Thorough {
			altered[*lib.F62](r, "F62", 2)
			altered[*lib.F62](r, "F62", 64)
			altered[*bexp.Uint110](r, "Uint110", 4)
			neighbours[*bexp.Uint110](r, "Uint110")
			neighbours[*bexp.Uint220](r, "Uint220")
		}
	})
}
