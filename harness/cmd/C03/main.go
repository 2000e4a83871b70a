// C03: every Fiat-Shamir challenge of the commitment scheme depends on every
// component of the statement and of the first message.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"time"

	bexp "github.com/sp301415/ringo-snark/buckler/zzexp"
	"github.com/sp301415/ringo-snark/jindo"
	jexp "github.com/sp301415/ringo-snark/jindo/zzexp"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zzverif/jx"
	"github.com/sp301415/ringo-snark/zzverif/lib"
	"github.com/tuneinsight/lattigo/v6/ring"
)

type tr struct{ chal, batch []ring.Poly }

func leak[E bignum.Uint[E]](prv *jindo.Prover[E], params jindo.Parameters, x E, v [][]E, com []*jindo.Commitment, op []*jindo.Opening) (tr, []E, bool) {
	ev, _, ch, ba, ok := jx.Leak(prv, params, x, v, com, op)
	return tr{ch, ba}, ev, ok
}

// flips returns, for every byte of the encoding of x, an element whose encoding
// differs from that of x in one bit of that byte (bytes for which no such
// element exists, such as padding, are left out).
func flips[E bignum.Uint[E]](x E) (at []int, out []E) {
	m := x.Marshal()
	for i := range m {
		for b := range 8 {
			f := append([]byte(nil), m...)
			f[i] ^= 1 << b
			y := x.New()
			y.Unmarshal(append([]byte(nil), f...))
			if bytes.Equal(y.Marshal(), f) && jx.B(y).Cmp(jx.Order[E]()) < 0 {
				at, out = append(at, i), append(out, y)
				break
			}
		}
	}
	return
}

func run[E bignum.Uint[E]](r *lib.Run, name string, N, t int) {
	id := fmt.Sprintf("%s/N%d/t%d", name, N, t)
	mk := func() (jindo.Parameters, *jindo.Prover[E], E, [][]E, []*jindo.Commitment, []*jindo.Opening) {
		params := jindo.NewParameters[E](N, t)
		prv := jindo.NewProver[E](params, []byte("C03"))
		var vs [][]E
		var com []*jindo.Commitment
		var op []*jindo.Opening
		for i := range t {
			v := make([]E, N)
			for j := range v {
				v[j] = jx.El[E](int64(j*j + 7*i + 1))
			}
			c, o := prv.Commit(v)
			vs, com, op = append(vs, v), append(com, c), append(op, o)
		}
		return params, prv, jx.El[E](9), vs, com, op
	}
	r.Case(id+"/binding", func(c *lib.T) {
		params, prv, x, vs, com, op := mk()
		base, ev, ok := leak(prv, params, x, vs, com, op)
		if !ok {
			c.Check(params.MLWERank()+params.InMSISRank() < params.Cols()+params.Batch(), "a batching challenge is not invertible")
			c.Outcome("skipped")
			return
		}
		c.Outcome(fmt.Sprintf("columns=%d", len(base.chal)))
		again, _, _ := leak(prv, params, x, vs, com, op)
		c.Check(jx.EqualPolys(base.chal, again.chal) && jx.EqualPolys(base.batch, again.batch), "challenges are not a function of the transcript")
		// differ checks a variant transcript; batchToo says whether the batching
		// challenges precede the change.
		differ := func(what string, n tr, batchToo bool) {
			c.Trans(1)
			c.State(id, what)
			for j := range n.chal {
				c.Check(!n.chal[j].Equal(&base.chal[j]), "%s: challenge %d of %d is unchanged", what, j, len(n.chal))
			}
			for i := range n.batch {
				if batchToo {
					c.Check(!n.batch[i].Equal(&base.batch[i]), "%s: batching challenge %d is unchanged", what, i)
				}
			}
			c.Outcome("changed")
		}
		// the point: with constant polynomials the evaluations do not move with it
		vc := make([][]E, t)
		for i := range vc {
			vc[i] = jx.Clone(vs[i])
			for j := range vc[i][1:] {
				vc[i][j+1] = jx.El[E](0)
			}
		}
		full := base
		var evc []E
		base, evc, _ = leak(prv, params, x, vc, com, op)
		point := func(what string, x E) {
			n, ev, _ := leak(prv, params, x, vc, com, op)
			for i := range ev {
				c.Check(jx.B(ev[i]).Cmp(jx.B(evc[i])) == 0, "evaluation of a constant moved with the point")
			}
			differ(what, n, true)
		}
		for _, d := range []int64{1, -1, 1 << 32} {
			point(fmt.Sprintf("point +%d", d), jx.El[E](0).Add(x, jx.El[E](d)))
		}
		at, xs := flips(x)
		c.Check(len(at) >= (jx.Order[E]().BitLen()+7)/8-1, "only %d bytes of the point's encoding carry information", len(at))
		for k := range at {
			point(fmt.Sprintf("point, byte %d", at[k]), xs[k])
		}
		base = full
		// evaluations: constants do not move any other part of the transcript
		for i := range t {
			for _, d := range []int64{1, -1, 1 << 32} {
				v := append([][]E(nil), vs...)
				v[i] = jx.Clone(vs[i])
				v[i][0].Add(v[i][0], jx.El[E](d))
				n, ev2, _ := leak(prv, params, x, v, com, op)
				c.Check(jx.B(ev2[i]).Cmp(jx.B(ev[i])) != 0, "evaluation did not change")
				differ(fmt.Sprintf("evaluation %d +%d", i, d), n, true)
			}
			at, ys := flips(ev[i])
			for k := range at {
				v := append([][]E(nil), vs...)
				v[i] = jx.Clone(vs[i])
				v[i][0].Add(v[i][0], jx.El[E](0).Sub(ys[k], ev[i]))
				n, ev2, _ := leak(prv, params, x, v, com, op)
				c.Check(jx.B(ev2[i]).Cmp(jx.B(ys[k])) == 0, "evaluation is not the intended one")
				differ(fmt.Sprintf("evaluation %d, byte %d", i, at[k]), n, true)
			}
			for j := range com[i].Value {
				for l := range com[i].Value[j].Coeffs {
					for _, pos := range []int{0, params.RingQOut().N() / 2, params.RingQOut().N() - 1} {
						cm := append([]*jindo.Commitment(nil), com...)
						cm[i] = jx.CopyCom(com[i])
						cm[i].Value[j].Coeffs[l][pos] = (cm[i].Value[j].Coeffs[l][pos] + 1) % params.RingQOut().SubRings[l].Modulus
						n, _, _ := leak(prv, params, x, vs, cm, op)
						differ(fmt.Sprintf("commitment %d polynomial %d limb %d position %d", i, j, l, pos), n, true)
					}
				}
			}
		}
		if t > 1 {
			cm := append([]*jindo.Commitment(nil), com...)
			cm[0], cm[1] = cm[1], cm[0]
			n, _, _ := leak(prv, params, x, vs, cm, op)
			differ("commitments 0,1 swapped", n, true)
			v := append([][]E(nil), vs...)
			v[0], v[1] = v[1], v[0]
			n, _, _ = leak(prv, params, x, v, com, op)
			differ("evaluations 0,1 swapped", n, true)
		}
		prv2 := jindo.NewProver[E](params, []byte("C03'"))
		n, _, _ := leak(prv2, params, x, vs, com, op)
		differ("reference string", n, true)
		// first message: a change in one column moves one Partial polynomial only
		for col := range params.Cols() + 1 {
			for _, pos := range []int{0, params.RingQ().N() - 1} {
				op2 := append([]*jindo.Opening(nil), op...)
				op2[0] = jx.CopyOpening(op[0])
				params.RingQ().Add(op2[0].Encode[col][0], jx.Mono(params.RingQ(), big.NewInt(1), pos), op2[0].Encode[col][0])
				n, _, _ := leak(prv, params, x, vs, com, op2)
				what := fmt.Sprintf("Partial[%d]", col)
				if col == params.Cols() {
					what = "PartialMask"
				}
				differ(what, n, false)
			}
		}
		// within one transcript
		all := append(append([]ring.Poly(nil), base.chal...), base.batch...)
		for i := range all {
			for j := range i {
				c.Check(!all[i].Equal(&all[j]), "challenges %d and %d of one transcript coincide", i, j)
			}
		}
	})
	r.Case(id+"/adaptive", func(c *lib.T) {
		// false evaluations chosen after the batching challenges are known
		if t < 2 {
			return
		}
		params, prv, x, vs, com, op := mk()
		vrf := jindo.NewVerifier[E](params, []byte("C03"))
		ev, pf0, chal, batch, ok := jx.Leak(prv, params, x, vs, com, op)
		if !ok {
			return
		}
		pf := jx.Assemble(params, pf0, chal, batch, op)
		c.Check(vrf.Verify(x, com, ev, pf), "assembled honest proof rejected")
		c.Trace(1)
		q := jx.Order[E]()
		d := make([]E, t)
		for i := range d {
			d[i] = jx.ElB[E](jx.Decode(params, jx.Coeffs(params.RingQ(), batch[i]), q)[0])
		}
		for i := range t {
			for j := range i {
				y := jx.Clone(ev)
				y[i].Add(y[i], d[j])
				y[j].Sub(y[j], d[i])
				c.Check(!vrf.Verify(x, com, y, pf), "evaluations %d,%d shifted along the batching challenges: accepted", i, j)
				c.Trans(1)
				c.State(id, "adaptive", i, j)
			}
		}
	})
	r.Case(id+"/range", func(c *lib.T) {
		// shape of the challenge space, over many transcripts
		params, prv, x, vs, com, op := mk()
		B := new(big.Int).SetUint64(params.ChallengeBound())
		n := 40
		vals := make([]map[string]bool, params.Exp())
		pos, neg := make([]int, params.Exp()), make([]int, params.Exp())
		mx := new(big.Int)
		for k := range vals {
			vals[k] = map[string]bool{}
		}
		cnt := 0
		all := map[string]bool{}
		// rel[i,j] collects the differences of two challenges of one transcript:
		// challenges drawn independently have as many as there are transcripts.
		rel := map[[2]int][]map[string]bool{}
		for i := range n {
			tr, _, ok := leak(prv, params, jx.El[E](0).Add(x, jx.El[E](int64(i))), vs, com, op)
			if !ok {
				c.Check(params.MLWERank()+params.InMSISRank() < params.Cols()+params.Batch(), "a batching challenge is not invertible")
				return
			}
			var cfs [][]*big.Int
			for _, p := range append(append([]ring.Poly(nil), tr.chal...), tr.batch...) {
				cnt++
				cf := jx.Coeffs(params.RingQ(), p)
				cfs = append(cfs, cf)
				for k, a := range cf {
					if k%params.Slots() != 0 {
						c.Check(a.Sign() == 0, "challenge has a coefficient at X^%d", k)
						continue
					}
					c.Check(new(big.Int).Abs(a).Cmp(B) <= 0, "challenge coefficient %v exceeds the bound %v", a, B)
					if new(big.Int).Abs(a).Cmp(mx) > 0 {
						mx.Abs(a)
					}
					j := k / params.Slots()
					vals[j][a.String()] = true
					all[a.String()] = true
					if a.Sign() > 0 {
						pos[j]++
					} else if a.Sign() < 0 {
						neg[j]++
					}
				}
			}
			for a := range cfs {
				for b := range a {
					m := rel[[2]int{a, b}]
					if m == nil {
						m = make([]map[string]bool, params.Exp()+1)
						for k := range m {
							m[k] = map[string]bool{}
						}
						rel[[2]int{a, b}] = m
					}
					whole := ""
					for k := range params.Exp() {
						d := new(big.Int).Sub(cfs[a][k*params.Slots()], cfs[b][k*params.Slots()]).String()
						m[k][d] = true
						whole += d + ","
					}
					m[params.Exp()][whole] = true
				}
			}
			c.Trans(1)
			c.State(id, i)
		}
		for ij, m := range rel {
			c.Check(len(m[params.Exp()]) > n*3/4, "challenges %d and %d differ by one of only %d polynomials in %d transcripts", ij[1], ij[0], len(m[params.Exp()]), n)
			for k := range params.Exp() {
				if B.Cmp(big.NewInt(64)) >= 0 {
					c.Check(len(m[k]) > n/3, "position %d: challenges %d and %d differ by one of only %d values in %d transcripts", k, ij[1], ij[0], len(m[k]), n)
				}
			}
		}
		if new(big.Int).Mul(B, big.NewInt(100)).Cmp(big.NewInt(int64(cnt*params.Exp()))) <= 0 {
			c.Check(big.NewInt(int64(len(all))).Cmp(new(big.Int).Lsh(B, 1)) >= 0, "challenge coefficients take only %d values (bound %v)", len(all), B)
		}
		size := new(big.Int).Add(new(big.Int).Lsh(B, 1), big.NewInt(1))
		want := cnt / 2
		if size.IsInt64() && size.Int64() < int64(cnt) {
			want = int(size.Int64()) / 2
		}
		for j := range vals {
			c.Check(len(vals[j]) >= want, "challenge position %d takes only %d values in %d challenges (bound %v)", j, len(vals[j]), cnt, B)
			if B.Cmp(big.NewInt(1)) <= 0 {
				// 2B values in (-B, B]: with B = 1 there is no negative one
				continue
			}
			lim := 1
			if B.Cmp(big.NewInt(8)) >= 0 {
				lim = cnt / 8
			}
			c.Check(pos[j] >= lim && neg[j] >= lim, "challenge position %d: %d positive and %d negative of %d", j, pos[j], neg[j], cnt)
		}
		c.Check(new(big.Int).Mul(mx, big.NewInt(4)).Cmp(new(big.Int).Mul(B, big.NewInt(3))) >= 0, "largest challenge coefficient %v of %d challenges is far below the bound %v", mx, cnt, B)
		c.Sample("exp=%d bound=%v challenges=%d largest=%v", params.Exp(), B, cnt, mx)
	})
}

// wide: large batches; every commitment and evaluation moves every challenge.
func wide[E bignum.Uint[E]](r *lib.Run, name string, N, t int) {
	for part := range 4 {
		id := fmt.Sprintf("%s/N%d/t%d/wide/%d", name, N, t, part)
		r.Case(id, func(c *lib.T) {
			params := jindo.NewParameters[E](N, t)
			prv := jindo.NewProver[E](params, []byte("C03"))
			var vs [][]E
			var com []*jindo.Commitment
			var op []*jindo.Opening
			for i := range t {
				v := make([]E, N)
				for j := range v {
					v[j] = jx.El[E](int64(j*j + 7*i + 1))
				}
				c, o := prv.Commit(v)
				vs, com, op = append(vs, v), append(com, c), append(op, o)
			}
			x := jx.El[E](9)
			base, _, ok := leak(prv, params, x, vs, com, op)
			if !ok {
				c.Check(params.MLWERank()+params.InMSISRank() < params.Cols()+params.Batch(), "a batching challenge is not invertible")
				c.Outcome("skipped")
				return
			}
			differ := func(what string, n tr) {
				c.Trans(1)
				c.State(id, what)
				for j := range n.chal {
					c.Check(!n.chal[j].Equal(&base.chal[j]), "%s: challenge %d is unchanged", what, j)
				}
				for i := range n.batch {
					c.Check(!n.batch[i].Equal(&base.batch[i]), "%s: batching challenge %d is unchanged", what, i)
				}
			}
			for i := range t {
				for j := range i {
					c.Check(!base.batch[i].Equal(&base.batch[j]), "batching challenges %d and %d coincide", i, j)
				}
				if i%4 != part {
					continue
				}
				v := append([][]E(nil), vs...)
				v[i] = jx.Clone(vs[i])
				v[i][0].Add(v[i][0], jx.El[E](1))
				n, _, _ := leak(prv, params, x, v, com, op)
				differ(fmt.Sprintf("evaluation %d +1", i), n)
				cm := append([]*jindo.Commitment(nil), com...)
				cm[i] = jx.CopyCom(com[i])
				p := &cm[i].Value[i%len(cm[i].Value)]
				p.Coeffs[0][i] = (p.Coeffs[0][i] + 1) % params.RingQOut().SubRings[0].Modulus
				n, _, _ = leak(prv, params, x, vs, cm, op)
				differ(fmt.Sprintf("commitment %d", i), n)
			}
			c.Outcome("changed")
		})
	}
}

// columns: shapes with many columns; every column's first message moves every
// challenge, and the challenges of a transcript are independent.
func columns[E bignum.Uint[E]](r *lib.Run, name string, N int) {
	for part := range 2 {
		id := fmt.Sprintf("%s/N%d/columns/%d", name, N, part)
		r.Case(id, func(c *lib.T) {
			params := jindo.NewParameters[E](N, 1)
			prv := jindo.NewProver[E](params, []byte("C03"))
			v := make([]E, N)
			for j := range v {
				v[j] = jx.El[E](int64(j*j + 1))
			}
			cm, o := prv.Commit(v)
			vs, com, op := [][]E{v}, []*jindo.Commitment{cm}, []*jindo.Opening{o}
			x := jx.El[E](9)
			base, _, ok := leak(prv, params, x, vs, com, op)
			if !ok {
				c.Check(params.MLWERank()+params.InMSISRank() < params.Cols()+params.Batch(), "a batching challenge is not invertible")
				c.Outcome("skipped")
				return
			}
			rq := params.RingQ()
			diffs := make([]map[string]bool, len(base.chal)*len(base.chal))
			cnt := 0
			add := func(n tr) {
				cnt++
				for i := range n.chal {
					for j := range i {
						m := &diffs[i*len(n.chal)+j]
						if *m == nil {
							*m = map[string]bool{}
						}
						a, b := jx.Coeffs(rq, n.chal[i]), jx.Coeffs(rq, n.chal[j])
						w := ""
						for k := 0; k < len(a); k += params.Slots() {
							w += new(big.Int).Sub(a[k], b[k]).String() + ","
						}
						(*m)[w] = true
					}
				}
			}
			add(base)
			for col := range params.Cols() + 1 {
				if col%2 != part && col != params.Cols() {
					continue
				}
				sv := o.Encode[col][0]
				o.Encode[col][0] = *sv.CopyNew()
				rq.Add(sv, jx.Mono(rq, big.NewInt(1), col), o.Encode[col][0])
				n, _, _ := leak(prv, params, x, vs, com, op)
				o.Encode[col][0] = sv
				c.Trans(1)
				c.State(id, col)
				for j := range n.chal {
					c.Check(!n.chal[j].Equal(&base.chal[j]), "Partial[%d] of %d columns: challenge %d is unchanged", col, params.Cols(), j)
				}
				add(n)
			}
			for k, m := range diffs {
				c.Check(m == nil || len(m) > cnt*3/4, "challenges %d and %d differ by one of %d polynomials in %d transcripts", k%len(base.chal), k/len(base.chal), len(m), cnt)
			}
			c.Outcome(fmt.Sprintf("columns=%d", len(base.chal)))
		})
	}
}

func main() {
	lib.Main("C03", lib.Options{QuickBudget: 90 * time.Second, Assumptions: []string{
		"the hash is treated as a function; the check decides which values it is applied to, by exhibiting a changed challenge for every changed component",
	}}, func(r *lib.Run) {
		run[*lib.F62](r, "F62", 200, 1)
		run[*lib.F62](r, "F62", 900, 2)
		run[*lib.F62](r, "F62", 100, 3)
		run[*lib.F60K4](r, "F60K4", 600, 2)
		run[*jexp.Uint255](r, "Uint255", 100, 1)
		run[*jexp.Uint255](r, "Uint255", 40, 2)
		run[*bexp.Uint110](r, "Uint110", 100, 2)
		run[*bexp.Uint440](r, "Uint440", 60, 1)
		run[*bexp.Uint880](r, "Uint880", 30, 2)
		run[*bexp.Uint220](r, "Uint220", 60, 1)
		run[*lib.F60K2](r, "F60K2", 300, 1)
		// several columns
		run[*lib.F62](r, "F62", 1100, 1)
		run[*lib.F62](r, "F62", 2100, 2)
		run[*jexp.Uint255](r, "Uint255", 600, 1)
		run[*bexp.Uint440](r, "Uint440", 1100, 1)
		run[*bexp.Uint880](r, "Uint880", 520, 1)
		run[*bexp.Uint880](r, "Uint880", 300, 2)
		// large batches
		wide[*lib.F62](r, "F62", 20, 40)
		wide[*jexp.Uint255](r, "Uint255", 20, 18)
		columns[*lib.F62](r, "F62", 1<<14)
		columns[*bexp.Uint880](r, "Uint880", 1<<13)
		if r.Thorough {
			columns[*lib.F62](r, "F62", 1<<16)
			run[*lib.F62](r, "F62", 5000, 6)
			run[*jexp.Uint255](r, "Uint255", 3000, 3)
			run[*bexp.Uint220](r, "Uint220", 1000, 4)
			run[*bexp.Uint440](r, "Uint440", 1000, 3)
		}
	})
}
