// Package bx is an adversarial prover for Buckler circuits. It follows the
// protocol over a desugared constraint system, and lets a strategy deviate at
// any step: in what the transcript contains, in the auxiliary witnesses, and
// in the messages of the linear and sum checks. Its honest strategy is the
// conformance check: the real verifier must accept it.
package bx

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha3"
	"fmt"
	"math/big"

	fiatshamir "github.com/consensys/gnark-crypto/fiat-shamir"
	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/zzverif/circ"
	"github.com/sp301415/ringo-snark/zzverif/jx"
)

// Con is an arithmetic or sum constraint.
type Con struct {
	Terms []Term
	Sum   *big.Int
	Tag   string // what the constraint is for, when it is an auxiliary one
}

// Term is Coef * P[Pub] * prod W[Wit].
type Term struct {
	Coef *big.Int
	Pub  int
	Wit  []int
}

// Map is a linear map M; the adversary needs M^T only.
type Map[E bignum.Uint[E]] struct {
	Chk   buckler.LinearChecker[E]
	Pairs [][2]int // out, in
	Tag   string
}

// Aux describes how the auxiliary witnesses of one norm constraint derive
// from its input.
type Aux struct {
	Kind   string // inf, two, proj
	In     int
	First  int // first auxiliary witness
	Base   []*big.Int
	PBase  int // public base and mask (two)
	Second bool
}

// Sys is a desugared circuit.
type Sys[E bignum.Uint[E]] struct {
	Spec   circ.Spec
	N      int
	NP, NW int
	Arith  []Con
	Sums   []Con
	Lins   []*Map[E]
	Auxs   []Aux
	Second []int
	proj   *projMap[E]
	emb    int // fixed embedding rank
}

// Vary replaces auxiliary constraints: f returns the constraint that takes the
// place of the one with this tag, or false to leave it out. The layout is that
// of the full system with keep, and that of the reduced one without.
func (d *Sys[E]) Vary(keep bool, f func(c Con) (Con, bool), g func(tag string) bool) {
	if keep {
		d.emb = d.embRank()
	}
	cons := func(cs []Con) (o []Con) {
		for _, c := range cs {
			if c.Tag != "" {
				var ok bool
				if c, ok = f(c); !ok {
					continue
				}
			}
			o = append(o, c)
		}
		return
	}
	d.Arith, d.Sums = cons(d.Arith), cons(d.Sums)
	var ms []*Map[E]
	for _, m := range d.Lins {
		if m.Tag == "" || g(m.Tag) {
			ms = append(ms, m)
		}
	}
	d.Lins = ms
}

// Base is the digit basis of a bound: every integer in [0, bound] is a sum of
// a subset and no subset exceeds it.
func Base(bound *big.Int) []*big.Int {
	n := bound.BitLen()
	out := make([]*big.Int, n)
	sum := new(big.Int)
	for i := range n {
		b := new(big.Int).Sub(bound, sum)
		if i < n-1 {
			b.Add(b, big.NewInt(1)).Rsh(b, 1)
		} else {
			b.SetInt64(1)
		}
		out[i] = b
		sum = new(big.Int).Add(sum, b)
	}
	return out
}

// Digits decomposes x greedily, with digits in {-1, 0, 1}; the remainder is
// what could not be represented.
func Digits(x *big.Int, base []*big.Int) (d []int64, rem *big.Int) {
	r := new(big.Int).Set(x)
	for _, b := range base {
		switch {
		case r.Cmp(b) >= 0:
			d = append(d, 1)
			r.Sub(r, b)
		case new(big.Int).Neg(r).Cmp(b) >= 0:
			d = append(d, -1)
			r.Add(r, b)
		default:
			d = append(d, 0)
		}
	}
	return d, r
}

type projMap[E bignum.Uint[E]] struct{ bits [][]bool }

func (m *projMap[E]) TransformTo(o, v []E) {
	for i := range o {
		o[i].SetUint64(0)
	}
	for i := range m.bits {
		for j := range m.bits[i] {
			if m.bits[i][j] {
				o[i].Add(o[i], v[j])
			}
		}
	}
}
func (m *projMap[E]) TransposeTo(o, v []E) {
	for i := range o {
		o[i].SetUint64(0)
	}
	for i := range m.bits {
		for j := range m.bits[i] {
			if m.bits[i][j] {
				o[j].Add(o[j], v[i])
			}
		}
	}
}

type recMap[E bignum.Uint[E]] struct{ base []E }

func (m *recMap[E]) TransformTo(o, v []E) { panic("unused") }
func (m *recMap[E]) TransposeTo(o, v []E) {
	for i := range o {
		o[i].SetUint64(0)
	}
	for i := 0; (i+1)*len(m.base) <= len(o); i++ {
		for j := range m.base {
			o[i*len(m.base)+j].Mul(m.base[j], v[i])
		}
	}
}

func bi(x int64) *big.Int { return big.NewInt(x) }

// Desugar translates a circuit into arithmetic, sum and linear constraints
// over input and auxiliary witnesses, in the order the compiler uses.
func Desugar[E bignum.Uint[E]](s circ.Spec) *Sys[E] {
	d := &Sys[E]{Spec: s, N: s.Rank, NP: s.NP, NW: s.NW}
	chk := map[string]*Map[E]{}
	con := func(ts []circ.Term) Con {
		var c Con
		for _, t := range ts {
			c.Terms = append(c.Terms, Term{bi(t.Coef), t.Pub, t.Wit})
		}
		return c
	}
	ternary := func(w int, tag string) {
		d.Arith = append(d.Arith, Con{Terms: []Term{{bi(1), -1, []int{w, w, w}}, {bi(-1), -1, []int{w}}}, Tag: tag})
	}
	inf := func(w int, b *big.Int) {
		switch {
		case b.Sign() < 0:
		case b.Sign() == 0:
			d.Arith = append(d.Arith, Con{Terms: []Term{{bi(1), -1, []int{w}}}})
		case b.Cmp(bi(1)) == 0:
			ternary(w, "")
		default:
			a := Aux{Kind: "inf", In: w, First: d.NW, Base: Base(b)}
			d.NW += len(a.Base)
			d.Auxs = append(d.Auxs, a)
			rec := Con{Tag: "recompose", Terms: []Term{{bi(1), -1, []int{w}}}}
			for i := range a.Base {
				ternary(a.First+i, fmt.Sprintf("digit%d", i))
				rec.Terms = append(rec.Terms, Term{new(big.Int).Neg(a.Base[i]), -1, []int{a.First + i}})
			}
			d.Arith = append(d.Arith, rec)
		}
	}
	for _, k := range s.Cs {
		switch k.Kind {
		case "arith":
			d.Arith = append(d.Arith, con(k.Terms))
		case "sum":
			c := con(k.Terms)
			c.Sum = k.Sum
			d.Sums = append(d.Sums, c)
		case "inf":
			inf(k.W, k.Bound)
		case "two":
			a := Aux{Kind: "two", In: k.W, First: d.NW, Base: Base(k.Bound), PBase: d.NP}
			d.NW++
			d.NP += 2
			d.Auxs = append(d.Auxs, a)
			d.Arith = append(d.Arith, Con{Terms: []Term{{bi(1), -1, []int{a.First, a.First}}, {bi(-1), a.PBase + 1, []int{a.First}}}, Tag: "digit"})
			d.Sums = append(d.Sums, Con{Sum: bi(0), Terms: []Term{{bi(1), -1, []int{k.W, k.W}}, {bi(-1), a.PBase, []int{a.First}}}, Tag: "recompose"})
		case "approx":
			if k.Bound.Sign() <= 0 {
				inf(k.W, k.Bound)
				continue
			}
			if d.proj == nil {
				d.proj = &projMap[E]{}
				chk["proj"] = &Map[E]{Chk: d.proj, Tag: "project"}
				d.Lins = append(d.Lins, chk["proj"])
			}
			a := Aux{Kind: "proj", In: k.W, First: d.NW, Base: Base(new(big.Int).Mul(k.Bound, bi(int64(s.Rank)))), Second: true}
			d.NW += 2
			d.Auxs = append(d.Auxs, a)
			chk["proj"].Pairs = append(chk["proj"].Pairs, [2]int{a.First, a.In})
			rec := &recMap[E]{}
			for _, b := range a.Base {
				rec.base = append(rec.base, jx.ElB[E](b))
			}
			d.Lins = append(d.Lins, &Map[E]{Chk: rec, Tag: "recompose", Pairs: [][2]int{{a.First, a.First + 1}}})
			ternary(a.First+1, "digit")
			d.Second = append(d.Second, a.First, a.First+1)
		case "lin":
			m, ok := chk[k.Lin]
			if !ok {
				m = &Map[E]{Chk: circ.Checker[E](k.Lin, s.Rank)}
				chk[k.Lin] = m
				d.Lins = append(d.Lins, m)
			}
			m.Pairs = append(m.Pairs, [2]int{k.Out, k.In})
		}
	}
	return d
}

// Strat is a proving strategy.
type Strat struct {
	Name string
	// Move re-binds a transcript item to another challenge; "" omits it.
	Move map[string]string
	// Absorb lets the remainders absorb the discrepancy of a false statement.
	SumRem, LinRem bool
	// Hi selects how the shifted remainder is formed when absorbing.
	Hi string
	// MaskLie declares a wrong mask sum that compensates the discrepancy when
	// the constraints are not separated from the mask.
	SumMaskLie, LinMaskLie bool
	// Tamper may change the witnesses (inputs and first-round auxiliary ones)
	// before they are committed, and the second-round ones afterwards.
	Tamper  func(w [][]*big.Int)
	Tamper2 func(w [][]*big.Int)
	// Chal derives the bytes of a challenge in another way.
	Chal func(name string, of func(string) []byte) []byte
}

var chalNames = []string{"projConst", "arithBatchConst", "linCheckBatchConst", "linCheckConst", "sumCheckBatchConst", "evalPoint"}

type bound struct {
	item, chal string
	data       []byte
}

type prover[E bignum.Uint[E]] struct {
	d     *Sys[E]
	st    Strat
	par   jindo.Parameters
	jp    *jindo.Prover[E]
	q     *big.Int
	ntt   *bigpoly.CyclicTransformer[E]
	log   []bound
	Items [][2]string // item, natural challenge
	coms  []*jindo.Commitment
	opens []*jindo.Opening
	polys [][]E
	vals  []func(x E) E // overrides of the evaluation
	ck    *jindo.CommitKey
}

func (p *prover[E]) bind(item, chal string, data []byte) {
	p.Items = append(p.Items, [2]string{item, chal})
	if to, ok := p.st.Move[item]; ok {
		chal = to
		if to == "" {
			return
		}
	}
	p.log = append(p.log, bound{item, chal, append([]byte(nil), data...)})
}

// challenge computes a challenge from everything bound so far.
func (p *prover[E]) challenge(name string) []byte {
	if p.st.Chal != nil {
		return p.st.Chal(name, p.chalBytes)
	}
	return p.chalBytes(name)
}

func (p *prover[E]) chalBytes(name string) []byte {
	o := fiatshamir.NewTranscript(sha256.New(), chalNames...)
	for _, c := range chalNames {
		for _, b := range p.log {
			if b.chal == c {
				if err := o.Bind(c, b.data); err != nil {
					panic(err)
				}
			}
		}
		r, err := o.ComputeChallenge(c)
		if err != nil {
			panic(err)
		}
		if c == name {
			return r
		}
	}
	panic("no challenge " + name)
}

func raw(c *jindo.Commitment) []byte {
	var b bytes.Buffer
	c.WriteRawTo(&b)
	return b.Bytes()
}

func (p *prover[E]) set(i int, v []E) {
	for len(p.coms) <= i {
		p.coms = append(p.coms, nil)
		p.opens = append(p.opens, nil)
		p.polys = append(p.polys, nil)
		p.vals = append(p.vals, nil)
	}
	p.polys[i] = v
	p.coms[i], p.opens[i] = p.jp.Commit(v)
}

func (p *prover[E]) encode(v []E) []E {
	o := make([]E, p.d.N)
	for i := range o {
		o[i] = v[i].New()
	}
	p.ntt.InvNTTTo(o, v)
	return o
}

func (p *prover[E]) randEncode(v []E) []E {
	var z E
	o := append(p.encode(v), z.New())
	o[p.d.N].MustSetRandom()
	o[0].Sub(o[0], o[p.d.N])
	return o
}

// polynomial arithmetic (schoolbook)

func add[E bignum.Uint[E]](a, b []E) []E {
	var z E
	o := make([]E, max(len(a), len(b)))
	for i := range o {
		o[i] = z.New()
		if i < len(a) {
			o[i].Add(o[i], a[i])
		}
		if i < len(b) {
			o[i].Add(o[i], b[i])
		}
	}
	return o
}

func scale[E bignum.Uint[E]](a []E, c E) []E {
	var z E
	o := make([]E, len(a))
	for i := range o {
		o[i] = z.New().Mul(a[i], c)
	}
	return o
}

func mul[E bignum.Uint[E]](a, b []E) []E {
	var z E
	if len(a) == 0 || len(b) == 0 {
		return nil
	}
	o := make([]E, len(a)+len(b)-1)
	for i := range o {
		o[i] = z.New()
	}
	t := z.New()
	for i := range a {
		for j := range b {
			o[i+j].Add(o[i+j], t.Mul(a[i], b[j]))
		}
	}
	return o
}

// divide by X^n - 1
func quoRem[E bignum.Uint[E]](a []E, n int) (quo, rem []E) {
	var z E
	r := jx.Clone(a)
	for len(r) < n {
		r = append(r, z.New())
	}
	quo = make([]E, max(1, len(r)-n))
	for i := range quo {
		quo[i] = z.New()
	}
	for i := len(r) - 1; i >= n; i-- {
		quo[i-n].Set(r[i])
		r[i-n].Add(r[i-n], r[i])
		r[i].SetUint64(0)
	}
	return quo, r[:n]
}

func (p *prover[E]) evalCons(cs []Con, beta E, pw, w [][]E) []E {
	var z E
	var acc []E
	for _, c := range cs {
		var e []E
		for _, t := range c.Terms {
			m := []E{jx.ElB[E](t.Coef)}
			if t.Pub >= 0 {
				m = mul(m, pw[t.Pub])
			}
			for _, k := range t.Wit {
				m = mul(m, w[k])
			}
			e = add(e, m)
		}
		acc = add(scale(acc, beta), e)
	}
	if acc == nil {
		acc = []E{z.New()}
	}
	return acc
}

// Result is a finished proof.
type Result[E bignum.Uint[E]] struct {
	Proof *buckler.Proof[E]
	Items [][2]string
	Note  string
}

// Extend computes the honest auxiliary public and first-round witnesses.
func (d *Sys[E]) Extend(p, w []circ.Vec) (pp, ww [][]*big.Int, lost bool) {
	q := circ.Order[E]()
	zero := func() []*big.Int {
		v := make([]*big.Int, d.N)
		for i := range v {
			v[i] = new(big.Int)
		}
		return v
	}
	pp, ww = make([][]*big.Int, d.NP), make([][]*big.Int, d.NW)
	for i := range pp {
		pp[i] = zero()
		if i < len(p) {
			pp[i] = p[i].Clone()
		}
	}
	for i := range ww {
		ww[i] = zero()
		if i < len(w) {
			ww[i] = w[i].Clone()
		}
	}
	for _, a := range d.Auxs {
		switch a.Kind {
		case "inf":
			for j := range d.N {
				dg, rem := Digits(circ.Balanced(ww[a.In][j], q), a.Base)
				lost = lost || rem.Sign() != 0
				for i := range dg {
					ww[a.First+i][j].SetInt64(dg[i])
				}
			}
		case "two":
			for i := range a.Base {
				pp[a.PBase][i].Set(a.Base[i])
				pp[a.PBase+1][i].SetInt64(1)
			}
			s := new(big.Int)
			for j := range d.N {
				s.Add(s, new(big.Int).Mul(ww[a.In][j], ww[a.In][j]))
			}
			dg, rem := Digits(s.Mod(s, q), a.Base)
			lost = lost || rem.Sign() != 0
			for i := range dg {
				ww[a.First][i].SetInt64(dg[i])
			}
		}
	}
	return
}

// Prove runs a strategy. vrf is only asked for its parameters.
func Prove[E bignum.Uint[E]](d *Sys[E], vrf *buckler.Verifier[E], crs string, pin, win []circ.Vec, st Strat) (*Result[E], error) {
	var z E
	n := d.N
	par := vrf.JindoParams
	p := &prover[E]{d: d, st: st, par: par, q: circ.Order[E](), jp: jindo.NewProver[E](par, []byte(crs)),
		ntt: bigpoly.NewCyclicTransformer[E](n)}
	if st.Hi == "degR" {
		p.ck = jindo.NewCommitKey(par, []byte(crs))
	}
	R := par.Rank()
	res := &Result[E]{}

	pp, ww, _ := d.Extend(pin, win)
	if st.Tamper != nil {
		st.Tamper(ww)
	}
	pw := make([][]E, d.NP)
	emb := d.embRank()
	for i := range pw {
		pw[i] = p.encode(circ.Elems[E](circ.Vec(pp[i])))
		pad := bigpoly.NewPoly[E](emb, false)
		for j := range pw[i] {
			pad.Coeffs[j].Set(pw[i][j])
		}
		p.bind(fmt.Sprintf("pw%d", i), "projConst", pad.Marshal())
	}
	second := map[int]bool{}
	for _, k := range d.Second {
		second[k] = true
	}
	w := make([][]E, d.NW)
	for i := range w {
		if second[i] {
			continue
		}
		w[i] = p.randEncode(circ.Elems[E](circ.Vec(ww[i])))
		p.set(i, w[i])
		p.bind(fmt.Sprintf("com%d", i), "projConst", raw(p.coms[i]))
	}
	if d.proj != nil {
		xof := sha3.NewSHAKE128()
		xof.Write(p.challenge("projConst"))
		d.proj.bits = make([][]bool, 128)
		for i := range d.proj.bits {
			d.proj.bits[i] = make([]bool, n)
		}
		var b [32]byte
		for j := range n {
			xof.Read(b[:])
			for i := range 128 {
				d.proj.bits[i][j] = b[i/8]>>(i%8)&1 == 0
			}
		}
		for _, a := range d.Auxs {
			if a.Kind != "proj" {
				continue
			}
			for i := range 128 {
				s := new(big.Int)
				for j := range n {
					if d.proj.bits[i][j] {
						s.Add(s, ww[a.In][j])
					}
				}
				ww[a.First][i].Mod(s, p.q)
				dg, _ := Digits(circ.Balanced(s, p.q), a.Base)
				for j := range dg {
					ww[a.First+1][i*len(dg)+j].SetInt64(dg[j])
				}
			}
		}
		if st.Tamper2 != nil {
			st.Tamper2(ww)
		}
	}
	for _, i := range d.Second {
		w[i] = p.randEncode(circ.Elems[E](circ.Vec(ww[i])))
		p.set(i, w[i])
		p.bind(fmt.Sprintf("com%d", i), "arithBatchConst", raw(p.coms[i]))
	}
	at := d.NW

	mask := func(l int) ([]E, E) { // random with known constant remainder
		m := make([]E, l)
		for i := range m {
			m[i] = z.New()
			m[i].MustSetRandom()
		}
		_, r := quoRem(m, n)
		return m, r[0]
	}
	var linMask, sumMask []E
	var linSum, sumSum E
	if len(d.Lins) > 0 {
		linMask, linSum = mask(2 * n)
		if st.LinMaskLie {
			// discrepancy of the last constraint at slot 0, weight one
			m := d.Lins[len(d.Lins)-1]
			pr := m.Pairs[len(m.Pairs)-1]
			linSum = z.New().Add(linSum, p.linGap(m, pr, ww))
		}
		p.set(at, linMask)
		p.bind("linmaskcom", "arithBatchConst", raw(p.coms[at]))
		p.bind("linmasksum", "arithBatchConst", linSum.Marshal())
		at++
	}
	if len(d.Sums) > 0 {
		l := 2*n + 1
		for _, c := range d.Sums {
			l = max(l, c.deg(n)+1)
		}
		sumMask, sumSum = mask(l)
		if st.SumMaskLie {
			sumSum = z.New().Add(sumSum, p.sumGap(d.Sums[len(d.Sums)-1], pp, ww))
		}
		p.set(at, sumMask)
		p.bind("summaskcom", "arithBatchConst", raw(p.coms[at]))
		p.bind("summasksum", "arithBatchConst", sumSum.Marshal())
		at++
	}

	if len(d.Arith) > 0 {
		e := p.evalCons(d.Arith, z.New().SetBytes(p.challenge("arithBatchConst")), pw, w)
		quo, _ := quoRem(e, n)
		p.set(at, quo)
		p.bind("arithquo", "evalPoint", raw(p.coms[at]))
		at++
	}

	rest := func(name string, e []E, expect E, absorb bool) {
		quo, rem := quoRem(e, n)
		lo := jx.Clone(rem[1:])
		c := z.New().Sub(rem[0], expect)
		s := R - (n - 1)
		hi := make([]E, R)
		for i := range hi {
			hi[i] = z.New()
		}
		var over E // coefficient of X^R in the shifted remainder
		if absorb {
			quo[0].Sub(quo[0], c)
			lo = append(lo, c)
			full := make([]E, R+1)
			for i := range full {
				full[i] = z.New()
			}
			for i := range lo {
				full[s+i].Set(lo[i])
			}
			switch st.Hi {
			case "trunc", "degR":
				for i := range hi {
					hi[i].Set(full[i])
				}
				if st.Hi == "degR" {
					over = full[R]
				}
			case "wrap":
				for i := range hi {
					hi[i].Set(full[i])
				}
				hi[0].Add(hi[0], full[R])
			case "zero":
			case "copy":
				for i := range lo {
					hi[i].Set(lo[i])
				}
			case "shift-1", "shift-2", "shift-n":
				k := map[string]int{"shift-1": 1, "shift-2": 2, "shift-n": n}[st.Hi]
				for i := range lo {
					if s-k+i >= 0 {
						hi[s-k+i].Set(lo[i])
					}
				}
			}
		} else {
			for i := range lo {
				hi[s+i].Set(lo[i])
			}
		}
		p.set(at, quo)
		p.bind(name+"quo", "evalPoint", raw(p.coms[at]))
		p.set(at+1, lo)
		p.bind(name+"lo", "evalPoint", raw(p.coms[at+1]))
		if st.Hi == "degR" && absorb {
			if !p.setDegR(at+2, hi, over) {
				res.Note = "degree Rank() cannot be committed"
			}
		} else {
			p.set(at+2, hi)
		}
		p.bind(name+"hi", "evalPoint", raw(p.coms[at+2]))
		at += 3
	}

	if len(d.Lins) > 0 {
		beta := z.New().SetBytes(p.challenge("linCheckBatchConst"))
		cc := z.New().SetBytes(p.challenge("linCheckConst"))
		vec := make([]E, n)
		for i := range vec {
			vec[i] = z.New().SetUint64(1)
			if i > 0 {
				vec[i].Mul(vec[i-1], cc)
			}
		}
		ve := p.encode(vec)
		var acc []E
		for _, m := range d.Lins {
			tr := make([]E, n)
			for i := range tr {
				tr[i] = z.New()
			}
			m.Chk.TransposeTo(tr, vec)
			te := p.encode(tr)
			for _, pr := range m.Pairs {
				t := mul(te, w[pr[1]])
				u := mul(ve, w[pr[0]])
				acc = add(scale(acc, beta), add(t, scale(u, jx.El[E](-1))))
			}
		}
		acc = add(scale(acc, beta), linMask)
		rest("lin", acc, linSum, st.LinRem)
	}
	if len(d.Sums) > 0 {
		beta := z.New().SetBytes(p.challenge("sumCheckBatchConst"))
		e := add(scale(p.evalCons(d.Sums, beta, pw, w), beta), sumMask)
		s := z.New()
		for _, c := range d.Sums {
			s.Mul(s, beta)
			s.Add(s, jx.ElB[E](c.Sum))
		}
		s.Mul(s, beta)
		s.Mul(s, z.New().Inverse(z.New().SetUint64(uint64(n))))
		s.Add(s, sumSum)
		rest("sum", e, s, st.SumRem)
	}

	x := z.New().SetBytes(p.challenge("evalPoint"))
	vs := make([][]E, len(p.polys))
	for i := range vs {
		vs[i] = p.polys[i]
		if p.vals[i] != nil {
			vs[i] = []E{p.vals[i](x)}
		}
	}
	if at != par.Batch() {
		return nil, fmt.Errorf("batch %d, parameters have %d", at, par.Batch())
	}
	evals, pf := p.jp.Evaluate(x, vs, p.coms, p.opens)
	res.Items = p.Items
	res.Proof = &buckler.Proof[E]{Witness: p.coms, LinCheckMaskSum: linSum, SumCheckMaskSum: sumSum, Evals: evals, EvalProof: pf}
	return res, nil
}

// linGap is (M in - out) at slot 0 divided by n: the discrepancy of the
// constant coefficient when only slot 0 is violated.
func (p *prover[E]) linGap(m *Map[E], pr [2]int, ww [][]*big.Int) E {
	var z E
	o := make([]E, p.d.N)
	for i := range o {
		o[i] = z.New()
	}
	m.Chk.TransformTo(o, circ.Elems[E](circ.Vec(ww[pr[1]])))
	g := z.New().Sub(o[0], jx.ElB[E](ww[pr[0]][0]))
	return g.Mul(g, z.New().Inverse(z.New().SetUint64(uint64(p.d.N))))
}

// sumGap is (true sum - claimed sum)/n.
func (p *prover[E]) sumGap(c Con, pp, ww [][]*big.Int) E {
	var z E
	s := new(big.Int)
	for i := range p.d.N {
		for _, t := range c.Terms {
			x := new(big.Int).Set(t.Coef)
			if t.Pub >= 0 {
				x.Mul(x, pp[t.Pub][i])
			}
			for _, k := range t.Wit {
				x.Mul(x, ww[k][i])
			}
			s.Add(s, x)
		}
	}
	s.Sub(s, c.Sum)
	g := jx.ElB[E](s)
	return g.Mul(g, z.New().Inverse(z.New().SetUint64(uint64(p.d.N))))
}

// deg is the degree of a constraint over randomized encodings.
func (c Con) deg(n int) int {
	m := 0
	for _, t := range c.Terms {
		g := len(t.Wit) * n
		if t.Pub >= 0 {
			g += n - 1
		}
		m = max(m, g)
	}
	return m
}

// embRank is the length public polynomials are padded to in the transcript.
func (d *Sys[E]) embRank() int {
	if d.emb > 0 {
		return d.emb
	}
	m := 0
	for _, c := range d.Arith {
		m = max(m, max(c.deg(d.N), d.N)+1)
	}
	for _, c := range d.Sums {
		m = max(m, max(c.deg(d.N), d.N)+1)
	}
	if len(d.Lins) > 0 {
		m = max(m, 2*d.N-1)
	}
	r := 1
	for r < m {
		r <<= 1
	}
	return r
}

// setDegR commits to v + over*X^Rank() by placing the coefficient in the last
// slot of the blinding row, which the scheme leaves at zero.
func (p *prover[E]) setDegR(i int, v []E, over E) bool {
	p.set(i, v)
	PatchLast(p.par, p.ck, p.coms[i], p.opens[i], over)
	q := p.q
	p.vals[i] = func(x E) E {
		xb := jx.B(x)
		s := jx.EvalRef(v, x)
		e := int64(p.par.Cols() * p.par.Slots())
		t := new(big.Int).Exp(xb, bi(e), q)
		t.Mul(t, jx.B(over))
		s.Add(s, t)
		return jx.ElB[E](s.Mod(s, q))
	}
	return p.par.Rows() == 2
}

// PatchLast adds val to the last slot of the last row of an opening and
// recomputes its commitments.
func PatchLast[E bignum.Uint[E]](par jindo.Parameters, ck *jindo.CommitKey, com *jindo.Commitment, o *jindo.Opening, val E) {
	r := par.RingQ()
	c := make([]*big.Int, r.N())
	for i := range c {
		c[i] = new(big.Int)
	}
	t := jx.B(val)
	b := new(big.Int).SetUint64(par.Base())
	for j := range par.Exp() {
		k := j*par.Slots() + par.Slots() - 1
		if j == par.Exp()-1 {
			c[k].Set(t)
		} else {
			t.DivMod(t, b, c[k])
		}
	}
	add := jx.FromCoeffs(r, c)
	row := par.Rows() - 1
	r.Add(o.Encode[par.Cols()-1][row], add, o.Encode[par.Cols()-1][row])
	ro := par.RingQOut()
	for i, cc := range jx.InnerCommit(par, ck, o) {
		o.InCommit[i] = jx.FromCoeffs(ro, cc)
	}
	com.Value = jx.OuterCommit(par, ck, o).Value
}
