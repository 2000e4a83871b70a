// Package jx drives the Jindo polynomial commitment scheme through its
// exported interface: reference evaluation, reference decoding of openings,
// and an adversary that learns the Fiat-Shamir challenges of a transcript of
// its choice and assembles proofs from them.
package jx

import (
	"math/big"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// Order returns the field order.
func Order[E bignum.Uint[E]]() *big.Int {
	var z E
	q := z.New().SetInt64(-1).BigInt(new(big.Int))
	return q.Add(q, big.NewInt(1))
}

// EvalRef evaluates v at x with integer arithmetic (powers, not Horner).
func EvalRef[E bignum.Uint[E]](v []E, x E) *big.Int {
	q := Order[E]()
	xb := x.BigInt(new(big.Int))
	pw := big.NewInt(1)
	pw.Mod(pw, q)
	s := new(big.Int)
	for i := range v {
		s.Add(s, new(big.Int).Mul(pw, v[i].BigInt(new(big.Int))))
		pw = new(big.Int).Mod(new(big.Int).Mul(pw, xb), q)
	}
	return s.Mod(s, q)
}

// B converts to big.Int.
func B[E bignum.Uint[E]](x E) *big.Int { return x.BigInt(new(big.Int)) }

// El converts from int64.
func El[E bignum.Uint[E]](x int64) E { var z E; return z.New().SetInt64(x) }

// ElB converts from big.Int.
func ElB[E bignum.Uint[E]](x *big.Int) E { var z E; return z.New().SetBigInt(x) }

// Clone copies a vector.
func Clone[E bignum.Uint[E]](v []E) []E {
	o := make([]E, len(v))
	for i := range v {
		o[i] = v[i].New().Set(v[i])
	}
	return o
}

// ModRing returns the product of the moduli.
func ModRing(r *ring.Ring) *big.Int {
	q := big.NewInt(1)
	for _, s := range r.SubRings {
		q.Mul(q, new(big.Int).SetUint64(s.Modulus))
	}
	return q
}

// Balanced maps x to (-q/2, q/2].
func Balanced(x, q *big.Int) *big.Int {
	r := new(big.Int).Mod(x, q)
	if new(big.Int).Lsh(r, 1).Cmp(q) > 0 {
		r.Sub(r, q)
	}
	return r
}

// Coeffs returns the balanced integer coefficients of a polynomial that is in
// the NTT and Montgomery domain, by the Chinese remainder theorem.
func Coeffs(r *ring.Ring, p ring.Poly) []*big.Int {
	t := r.NewPoly()
	r.INTT(p, t)
	r.IMForm(t, t)
	q := ModRing(r)
	out := make([]*big.Int, r.N())
	gad := make([]*big.Int, len(r.SubRings))
	for l, s := range r.SubRings {
		qi := new(big.Int).SetUint64(s.Modulus)
		d := new(big.Int).Div(q, qi)
		gad[l] = new(big.Int).Mul(d, new(big.Int).ModInverse(d, qi))
	}
	for i := range out {
		a := new(big.Int)
		for l := range r.SubRings {
			a.Add(a, new(big.Int).Mul(gad[l], new(big.Int).SetUint64(t.Coeffs[l][i])))
		}
		out[i] = Balanced(a, q)
	}
	return out
}

// FromCoeffs is the inverse of Coeffs.
func FromCoeffs(r *ring.Ring, c []*big.Int) ring.Poly {
	p := r.NewPoly()
	for l, s := range r.SubRings {
		qi := new(big.Int).SetUint64(s.Modulus)
		for i := range c {
			p.Coeffs[l][i] = new(big.Int).Mod(c[i], qi).Uint64()
		}
	}
	r.MForm(p, p)
	r.NTT(p, p)
	return p
}

// Mono returns c*X^k in the NTT and Montgomery domain.
func Mono(r *ring.Ring, c *big.Int, k int) ring.Poly {
	v := make([]*big.Int, r.N())
	for i := range v {
		v[i] = new(big.Int)
	}
	v[k].Set(c)
	return FromCoeffs(r, v)
}

// Decode maps integer coefficients to the slots: slot s is
// sum_j c[j*slots+s] * base^j in the field.
func Decode(params jindo.Parameters, c []*big.Int, q *big.Int) []*big.Int {
	out := make([]*big.Int, params.Slots())
	b := new(big.Int).SetUint64(params.Base())
	for s := range out {
		a := new(big.Int)
		for j := params.Exp() - 1; j >= 0; j-- {
			a.Mul(a, b)
			a.Add(a, c[j*params.Slots()+s])
		}
		out[s] = a.Mod(a, q)
	}
	return out
}

// SqNorm sums the squares.
func SqNorm(c []*big.Int) *big.Int {
	s := new(big.Int)
	for i := range c {
		s.Add(s, new(big.Int).Mul(c[i], c[i]))
	}
	return s
}

// CopyPolys deep-copies.
func CopyPolys(p []ring.Poly) []ring.Poly {
	o := make([]ring.Poly, len(p))
	for i := range p {
		o[i] = *p[i].CopyNew()
	}
	return o
}

// CopyProof deep-copies a proof.
func CopyProof(pf *jindo.Proof) *jindo.Proof {
	return &jindo.Proof{
		InCommit: CopyPolys(pf.InCommit), Partial: CopyPolys(pf.Partial),
		PartialMask: *pf.PartialMask.CopyNew(),
		Encode:      CopyPolys(pf.Encode), MLWE: CopyPolys(pf.MLWE),
	}
}

// CopyOpening deep-copies an opening.
func CopyOpening(o *jindo.Opening) *jindo.Opening {
	n := &jindo.Opening{InCommit: CopyPolys(o.InCommit)}
	for i := range o.Encode {
		n.Encode = append(n.Encode, CopyPolys(o.Encode[i]))
	}
	for i := range o.MLWE {
		n.MLWE = append(n.MLWE, CopyPolys(o.MLWE[i]))
	}
	return n
}

// CopyCom deep-copies a commitment.
func CopyCom(c *jindo.Commitment) *jindo.Commitment {
	return &jindo.Commitment{Value: CopyPolys(c.Value)}
}

// EqualPolys compares.
func EqualPolys(a, b []ring.Poly) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].Equal(&b[i]) {
			return false
		}
	}
	return true
}

// Polys returns pointers to every polynomial of a proof with its name.
func Polys(pf *jindo.Proof) (names []string, ps []*ring.Poly) {
	add := func(n string, v []ring.Poly) {
		for i := range v {
			names = append(names, n)
			ps = append(ps, &v[i])
		}
	}
	add("InCommit", pf.InCommit)
	add("Partial", pf.Partial)
	names = append(names, "PartialMask")
	ps = append(ps, &pf.PartialMask)
	add("Encode", pf.Encode)
	add("MLWE", pf.MLWE)
	return
}

// one is the constant polynomial 1.
func one(r *ring.Ring) ring.Poly { return Mono(r, big.NewInt(1), 0) }

// Leak runs the prover on the statement (x, v, com) with openings whose
// encodings are given (they determine the first message of the proof) and
// whose remaining parts are chosen so that the response reveals the
// challenges. It returns the claimed evaluations, the proof (whose Partial and
// PartialMask belong to the transcript), and in commitment-ring form the
// column challenges chal[j] and the batching challenges batch[i] (nil for a
// batch of one).
func Leak[E bignum.Uint[E]](prv *jindo.Prover[E], params jindo.Parameters, x E, v [][]E, com []*jindo.Commitment, open []*jindo.Opening) (evals []E, pf *jindo.Proof, chal, batch []ring.Poly, ok bool) {
	r := params.RingQ()
	slots := params.MLWERank() + params.InMSISRank()
	if slots < params.Cols()+params.Batch() {
		return nil, nil, nil, nil, false
	}
	fake := make([]*jindo.Opening, len(open))
	for i := range open {
		f := jindo.NewOpening(params)
		f.InCommit = CopyPolys(open[i].InCommit)
		for j := range open[i].Encode {
			f.Encode[j] = CopyPolys(open[i].Encode[j])
		}
		if i == 0 {
			for j := range params.Cols() {
				f.MLWE[j][j] = one(r)
			}
		}
		f.MLWE[params.Cols()][params.Cols()+i] = one(r)
		fake[i] = f
	}
	evals, pf = prv.Evaluate(x, v, com, fake)
	for j := range params.Cols() {
		chal = append(chal, *pf.MLWE[j].CopyNew())
	}
	if params.Batch() > 1 {
		for i := range params.Batch() {
			batch = append(batch, *pf.MLWE[params.Cols()+i].CopyNew())
		}
		// chal[j] holds chal_j * batch_0: divide pointwise.
		for l, s := range r.SubRings {
			for k := range r.N() {
				b0 := batch[0].Coeffs[l][k]
				if b0 == 0 {
					return nil, nil, nil, nil, false
				}
				// both are in Montgomery form xR; the product form is abR
				rinv := ring.ModExp(b0, s.Modulus-2, s.Modulus)
				for j := range chal {
					// (c b R) / (b R) = c, back to Montgomery form c R
					c := mulmod(chal[j].Coeffs[l][k], rinv, s.Modulus)
					chal[j].Coeffs[l][k] = ring.MForm(c, s.Modulus, s.BRedConstant)
				}
			}
		}
	}
	return evals, pf, chal, batch, true
}

func mulmod(a, b, q uint64) uint64 {
	x := new(big.Int).SetUint64(a)
	x.Mul(x, new(big.Int).SetUint64(b))
	x.Mod(x, new(big.Int).SetUint64(q))
	return x.Uint64()
}

// ToRing re-expresses a polynomial with small coefficients in another ring.
func ToRing(from, to *ring.Ring, p ring.Poly) ring.Poly {
	return FromCoeffs(to, Coeffs(from, p))
}

// Fold returns sum_i batch_i * x_i (x_0 when batch is nil).
func Fold(r *ring.Ring, batch []ring.Poly, x []ring.Poly) ring.Poly {
	if batch == nil {
		return *x[0].CopyNew()
	}
	o := r.NewPoly()
	for i := range x {
		r.MulCoeffsMontgomeryThenAdd(x[i], batch[i], o)
	}
	return o
}

// Assemble builds the response of a proof whose transcript was fixed by Leak,
// from the openings open (which may differ from those that produced the first
// message).
func Assemble(params jindo.Parameters, first *jindo.Proof, chal, batch []ring.Poly, open []*jindo.Opening) *jindo.Proof {
	r, ro := params.RingQ(), params.RingQOut()
	var bo []ring.Poly
	for i := range batch {
		bo = append(bo, ToRing(r, ro, batch[i]))
	}
	pf := jindo.NewProof(params)
	pf.Partial = CopyPolys(first.Partial)
	pf.PartialMask = *first.PartialMask.CopyNew()
	pick := func(f func(o *jindo.Opening) ring.Poly) []ring.Poly {
		p := make([]ring.Poly, len(open))
		for i := range open {
			p[i] = f(open[i])
		}
		return p
	}
	for k := range pf.InCommit {
		pf.InCommit[k] = Fold(ro, bo, pick(func(o *jindo.Opening) ring.Poly { return o.InCommit[k] }))
	}
	for k := range pf.Encode {
		pf.Encode[k] = Fold(r, batch, pick(func(o *jindo.Opening) ring.Poly { return o.Encode[params.Cols()][k] }))
		for j := range params.Cols() {
			r.MulCoeffsMontgomeryThenAdd(chal[j], Fold(r, batch, pick(func(o *jindo.Opening) ring.Poly { return o.Encode[j][k] })), pf.Encode[k])
		}
	}
	for k := range pf.MLWE {
		pf.MLWE[k] = Fold(r, batch, pick(func(o *jindo.Opening) ring.Poly { return o.MLWE[params.Cols()][k] }))
		for j := range params.Cols() {
			r.MulCoeffsMontgomeryThenAdd(chal[j], Fold(r, batch, pick(func(o *jindo.Opening) ring.Poly { return o.MLWE[j][k] })), pf.MLWE[k])
		}
	}
	return pf
}

// round divides by 2^sh to the nearest integer.
func round(cc []*big.Int, sh uint64) []*big.Int {
	for k := range cc {
		if sh > 0 {
			cc[k].Add(cc[k], new(big.Int).Lsh(big.NewInt(1), uint(sh-1)))
		}
		cc[k].Rsh(cc[k], uint(sh))
	}
	return cc
}

// InnerImages recomputes In*Encode + MLWE from the encodings of an opening.
func InnerImages(params jindo.Parameters, ck *jindo.CommitKey, o *jindo.Opening) [][]*big.Int {
	r := params.RingQ()
	var out [][]*big.Int
	for i := range o.Encode {
		for j := range params.InMSISRank() {
			c := r.NewPoly()
			for k := range params.Rows() {
				r.MulCoeffsMontgomeryThenAdd(ck.In[j][k], o.Encode[i][k], c)
			}
			for k := range params.MLWERank() {
				r.MulCoeffsMontgomeryThenAdd(ck.MLWE[j][k], o.MLWE[i][k], c)
			}
			r.Add(c, o.MLWE[i][params.MLWERank()+j], c)
			out = append(out, Coeffs(r, c))
		}
	}
	return out
}

// InnerCommit recomputes the inner commitments of an opening, the high parts
// of the inner images.
func InnerCommit(params jindo.Parameters, ck *jindo.CommitKey, o *jindo.Opening) [][]*big.Int {
	out := InnerImages(params, ck, o)
	for i := range out {
		out[i] = round(out[i], params.LogInCutOff())
	}
	return out
}

// OuterImages recomputes Out*InCommit from the inner commitments of an opening.
func OuterImages(params jindo.Parameters, ck *jindo.CommitKey, o *jindo.Opening) [][]*big.Int {
	r := params.RingQOut()
	var out [][]*big.Int
	for i := range params.OutMSISRank() {
		c := r.NewPoly()
		for j := range o.InCommit {
			r.MulCoeffsMontgomeryThenAdd(ck.Out[i][j], o.InCommit[j], c)
		}
		out = append(out, Coeffs(r, c))
	}
	return out
}

// OuterCommit recomputes the commitment of an opening, the high parts of the
// outer images.
func OuterCommit(params jindo.Parameters, ck *jindo.CommitKey, o *jindo.Opening) *jindo.Commitment {
	com := &jindo.Commitment{}
	for _, c := range OuterImages(params, ck, o) {
		com.Value = append(com.Value, FromCoeffs(params.RingQOut(), round(c, params.OutCutOff())))
	}
	return com
}

// HighParts reports whether v, scaled up by 2^sh, is the image mod r's modulus
// up to the rounding error of half a unit. It returns the first coefficient
// where it is not, or -1.
func HighParts(q *big.Int, v, image []*big.Int, sh uint64) int {
	half := new(big.Int).Rsh(q, 1)
	for k := range v {
		d := new(big.Int).Lsh(v[k], uint(sh))
		d.Sub(d, image[k])
		d.Mod(d, q)
		if d.Cmp(half) > 0 {
			d.Sub(d, q)
		}
		d.Abs(d).Lsh(d, 1)
		if d.Cmp(new(big.Int).Lsh(big.NewInt(1), uint(sh))) > 0 {
			return k
		}
	}
	return -1
}

// RefResult is the reference verdict on a proof under given challenges.
type RefResult struct {
	OuterSq, InnerSq *big.Int // squared norms
	Consistent, Eval bool
}

// leftRight are the reference evaluation vectors.
func leftRight(params jindo.Parameters, x, q *big.Int) (left, right []*big.Int) {
	n := params.Cols() * params.Slots()
	p := big.NewInt(1)
	p.Mod(p, q)
	for range n {
		right = append(right, new(big.Int).Set(p))
		p = new(big.Int).Mod(new(big.Int).Mul(p, x), q)
	}
	skip := p
	p = new(big.Int).Mod(big.NewInt(1), q)
	for range params.Rows() - 1 {
		left = append(left, new(big.Int).Set(p))
		p = new(big.Int).Mod(new(big.Int).Mul(p, skip), q)
	}
	left = append(left, new(big.Int).Set(x))
	return
}

// encodeRef is the base-b encoding of one field element in slot 0.
func encodeRef(params jindo.Parameters, x *big.Int) ring.Poly {
	r := params.RingQ()
	v := make([]*big.Int, r.N())
	for i := range v {
		v[i] = new(big.Int)
	}
	b := new(big.Int).SetUint64(params.Base())
	t := new(big.Int).Set(x)
	for j := range params.Exp() {
		if j == params.Exp()-1 {
			v[j*params.Slots()].Set(t)
		} else {
			t.DivMod(t, b, v[j*params.Slots()])
		}
	}
	return FromCoeffs(r, v)
}

// RefVerify evaluates the verification relation on a proof under the given
// challenges with big-integer arithmetic.
func RefVerify[E bignum.Uint[E]](params jindo.Parameters, ck *jindo.CommitKey, x E, com []*jindo.Commitment, y []E, pf *jindo.Proof, chal, batch []ring.Poly) RefResult {
	r, ro := params.RingQ(), params.RingQOut()
	q := Order[E]()
	var res RefResult

	// outer relation
	var bo []ring.Poly
	for i := range batch {
		bo = append(bo, ToRing(r, ro, batch[i]))
	}
	res.OuterSq = new(big.Int)
	inInt := make([][]*big.Int, len(pf.InCommit))
	for i := range pf.InCommit {
		inInt[i] = Coeffs(ro, pf.InCommit[i])
		res.OuterSq.Add(res.OuterSq, SqNorm(inInt[i]))
	}
	cut := new(big.Int).Lsh(big.NewInt(1), uint(params.OutCutOff()))
	for i := range params.OutMSISRank() {
		vs := make([]ring.Poly, len(com))
		for k := range com {
			vs[k] = com[k].Value[i]
		}
		a := Fold(ro, bo, vs)
		ro.MulScalarBigint(a, cut, a)
		for j := range pf.InCommit {
			ro.MulCoeffsMontgomeryThenSub(ck.Out[i][j], pf.InCommit[j], a)
		}
		res.OuterSq.Add(res.OuterSq, SqNorm(Coeffs(ro, a)))
	}

	// inner relation
	res.InnerSq = new(big.Int)
	for _, p := range pf.Encode {
		res.InnerSq.Add(res.InnerSq, SqNorm(Coeffs(r, p)))
	}
	for _, p := range pf.MLWE {
		res.InnerSq.Add(res.InnerSq, SqNorm(Coeffs(r, p)))
	}
	cut = new(big.Int).Lsh(big.NewInt(1), uint(params.LogInCutOff()))
	for i := range params.InMSISRank() {
		a := r.NewPoly()
		for j := range params.Cols() + 1 {
			p := FromCoeffs(r, inInt[j*params.InMSISRank()+i])
			if j == params.Cols() {
				r.Add(p, a, a)
			} else {
				r.MulCoeffsMontgomeryThenAdd(p, chal[j], a)
			}
		}
		r.MulScalarBigint(a, cut, a)
		for j := range params.Rows() {
			r.MulCoeffsMontgomeryThenSub(ck.In[i][j], pf.Encode[j], a)
		}
		for j := range params.MLWERank() {
			r.MulCoeffsMontgomeryThenSub(ck.MLWE[i][j], pf.MLWE[j], a)
		}
		r.Sub(a, pf.MLWE[params.MLWERank()+i], a)
		res.InnerSq.Add(res.InnerSq, SqNorm(Coeffs(r, a)))
	}

	// consistency and evaluation
	left, right := leftRight(params, B(x), q)
	t := r.NewPoly()
	for i := range params.Rows() {
		r.MulCoeffsMontgomeryThenAdd(encodeRef(params, left[i]), pf.Encode[i], t)
	}
	for j := range params.Cols() {
		r.MulCoeffsMontgomeryThenSub(chal[j], pf.Partial[j], t)
	}
	r.Sub(t, pf.PartialMask, t)
	zero := r.NewPoly()
	res.Consistent = t.Equal(&zero)

	sum := new(big.Int)
	for i := range params.Cols() {
		d := Decode(params, Coeffs(r, pf.Partial[i]), q)
		for s := range d {
			sum.Add(sum, new(big.Int).Mul(right[i*params.Slots()+s], d[s]))
		}
	}
	sum.Mod(sum, q)
	want := new(big.Int)
	if batch == nil {
		want = B(y[0])
	} else {
		for i := range batch {
			d := Decode(params, Coeffs(r, batch[i]), q)
			want.Add(want, new(big.Int).Mul(d[0], B(y[i])))
		}
		want.Mod(want, q)
	}
	res.Eval = sum.Cmp(want) == 0
	return res
}

// Verdict compares the squared norms with the bounds. sure is false when a
// norm is within a relative 1e-6 of its bound.
func (r RefResult) Verdict(params jindo.Parameters) (accept, sure bool) {
	f := func(sq *big.Int, bound float64) (bool, bool) {
		x, _ := new(big.Float).Sqrt(new(big.Float).SetPrec(200).SetInt(sq)).Float64()
		return x < bound, x < bound*(1-1e-6) || x > bound*(1+1e-6)
	}
	a, sa := f(r.OuterSq, params.InComDcmpTwoNm())
	b, sb := f(r.InnerSq, params.ResTwoNm())
	accept = a && b && r.Consistent && r.Eval
	sure = sa && sb
	if !r.Consistent || !r.Eval {
		sure = true
	}
	return
}
