// C12: assignments of any shape are either proven or refused with an error.
package main

import (
	"fmt"
	"math/big"
	"time"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zzverif/circ"
	"github.com/sp301415/ringo-snark/zzverif/lib"
)

type E = *lib.F62
type PW = buckler.PublicWitness[E]
type WT = buckler.Witness[E]

const n = 4

func vec(x ...int64) []E { return circ.Elems[E](circ.V(x...)) }
func fill(l int, x int64) []E {
	return circ.Elems[E](circ.Const(l, x))
}

// nested circuits: every way of holding witnesses. Each constrains
// public i = i * witness i for a running index.
type inner struct {
	W WT
	P PW
}
type named struct {
	note string
	X    inner
	n    int
	Y    *inner
}
type nested struct {
	A inner
	B *inner
	C [2]inner
	D []inner
	F [][]inner
	G []*inner
	H named
	I any
	J *named
	K any
	L [2][2]inner
	M [2][]inner
	N [][2]inner
	O [1][2]*inner
	Q *[2]inner
	R *[]inner
	S any
	T **inner
	U [2][1][2]inner
	emb
	EmbP *Emb
	V    vecs
	ps   []int
}

// emb is embedded and not exported, with exported fields that can be set.
type emb struct{ EA inner }
type Emb struct{ EB [2]inner }

// vecs are witnesses held directly in arrays and slices.
type vecs struct {
	W1 [2]WT
	P1 [2]PW
	W2 [1][2]WT
	P2 [1][2]PW
	W3 [][2]WT
	P3 [][2]PW
	W4 [2][]WT
	P4 [2][]PW
	W5 *WT
	P5 *PW
	W6 []*WT
	P6 []*PW
	W7 [1][1]*WT
	P7 [1][1]*PW
}

func newNested() *nested {
	return &nested{B: &inner{}, D: make([]inner, 2), F: [][]inner{{{}}, {}, {{}, {}}}, G: []*inner{{}, nil, {}},
		H: named{note: "x", Y: &inner{}}, I: &inner{}, J: &named{}, K: 7, ps: []int{1, 2},
		M: [2][]inner{{{}}, {{}, {}}}, N: make([][2]inner, 2), O: [1][2]*inner{{{}, {}}}, Q: &[2]inner{}, R: &[]inner{{}, {}}, S: &[2][1]inner{}, T: ptr(&inner{}), EmbP: &Emb{},
		V: vecs{W3: make([][2]WT, 1), P3: make([][2]PW, 1), W4: [2][]WT{make([]WT, 1), make([]WT, 1)}, P4: [2][]PW{make([]PW, 1), make([]PW, 1)},
			W5: new(WT), P5: new(PW), W6: []*WT{new(WT)}, P6: []*PW{new(PW)}, W7: [1][1]*WT{{new(WT)}}, P7: [1][1]*PW{{new(PW)}}}}
}

func ptr[T any](x T) *T { return &x }

// ref refers to a pair of a witness and a public witness.
type ref struct {
	W *WT
	P *PW
}

func (c *nested) all() []ref {
	var o []ref
	for _, x := range c.inners() {
		o = append(o, ref{&x.W, &x.P})
	}
	v := &c.V
	o = append(o, ref{&v.W1[0], &v.P1[0]}, ref{&v.W1[1], &v.P1[1]}, ref{&v.W2[0][0], &v.P2[0][0]}, ref{&v.W2[0][1], &v.P2[0][1]},
		ref{&v.W3[0][0], &v.P3[0][0]}, ref{&v.W3[0][1], &v.P3[0][1]}, ref{&v.W4[0][0], &v.P4[0][0]}, ref{&v.W4[1][0], &v.P4[1][0]},
		ref{v.W5, v.P5}, ref{v.W6[0], v.P6[0]}, ref{v.W7[0][0], v.P7[0][0]})
	return o
}

func (c *nested) inners() []*inner {
	o := []*inner{&c.A, c.B, &c.C[0], &c.C[1]}
	for i := range c.D {
		o = append(o, &c.D[i])
	}
	for i := range c.F {
		for j := range c.F[i] {
			o = append(o, &c.F[i][j])
		}
	}
	for _, g := range c.G {
		if g != nil {
			o = append(o, g)
		}
	}
	o = append(o, &c.H.X)
	if c.H.Y != nil {
		o = append(o, c.H.Y)
	}
	o = append(o, c.I.(*inner), &c.J.X)
	if c.J.Y != nil {
		o = append(o, c.J.Y)
	}
	for i := range 2 {
		for j := range 2 {
			o = append(o, &c.L[i][j], &c.N[i][j], &c.U[i][0][j])
		}
		for j := range c.M[i] {
			o = append(o, &c.M[i][j])
		}
		o = append(o, c.O[0][i], &c.Q[i], &(*c.R)[i], &c.S.(*[2][1]inner)[i][0], &c.EmbP.EB[i])
	}
	o = append(o, *c.T, &c.EA)
	return o
}

func (c *nested) Define(ctx *buckler.Context[E]) {
	var z E
	for i, x := range c.all() {
		var a buckler.ArithmeticConstraint[E]
		a.AddTerm(*x.P)
		a.AddTermWithConst(z.New().SetInt64(-int64(i+1)), nil, *x.W)
		ctx.AddArithmeticConstraint(a)
	}
}

func (c *nested) fill(witness bool) *nested {
	for i, x := range c.all() {
		*x.P = fill(n, int64((i+1)*(i+10)))
		if witness {
			*x.W = fill(n, int64(i+10))
		}
	}
	return c
}

// flat circuits
type flat struct {
	P []PW
	W []WT
}

func (c *flat) Define(ctx *buckler.Context[E]) {
	for i := range c.P {
		var a buckler.ArithmeticConstraint[E]
		a.AddTerm(c.P[i])
		a.SubTerm(nil, c.W[i])
		ctx.AddArithmeticConstraint(a)
	}
}

type ro struct {
	P PW
	w WT
}

func (c *ro) Define(ctx *buckler.Context[E]) {}

type roNested struct {
	P PW
	x []inner
}

func (c *roNested) Define(ctx *buckler.Context[E]) {}

type roPub struct {
	W WT
	x *inner
}

func (c *roPub) Define(ctx *buckler.Context[E]) {}

type byValue struct{ P PW }

func (c byValue) Define(ctx *buckler.Context[E]) {}

type otherFlat struct {
	P []PW
	W []WT
}

func (c *otherFlat) Define(ctx *buckler.Context[E]) { (*flat)(c).Define(ctx) }

func main() {
	lib.Main("C12", lib.Options{QuickBudget: 60 * time.Second, CaseTimeout: 240 * time.Second}, func(r *lib.Run) {
		r.Case("compile/refused", func(c *lib.T) {
			for i, x := range []buckler.Circuit[E]{&ro{}, &roNested{x: make([]inner, 1)}, &roPub{x: &inner{}}, byValue{}, nil} {
				var err error
				p, e := lib.Try(func() { _, _, err = buckler.Compile[E](n, x, nil) })
				c.Check(!p, "Compile panicked on circuit %d: %v", i, e)
				c.Check(err != nil, "Compile accepted circuit %d, whose witnesses cannot be set", i)
				c.Trans(1)
				c.State(i)
			}
		})
		r.Case("nested", func(c *lib.T) {
			prv, vrf, err := buckler.Compile[E](n, newNested(), []byte("c"))
			c.Check(err == nil, "Compile: %v", err)
			pf, err := prv.Prove(newNested().fill(true))
			c.Check(err == nil, "Prove: %v", err)
			c.Check(vrf.Verify(newNested().fill(false), pf), "honest proof of a nested circuit rejected")
			c.Check(vrf.Verify(newNested().fill(true), pf), "honest proof rejected when the witness is present")
			m := len(newNested().all())
			for i := range m {
				// change one nested public value: rejected
				y := newNested().fill(false)
				(*y.all()[i].P)[i%n].SetInt64(77777)
				c.Check(!vrf.Verify(y, pf), "nested public input %d changed and accepted", i)
				// the witnesses differ from each other, so that the honest proof
				// above already needed each of them at its place
				if i%7 == 0 || r.Thorough {
					y = newNested().fill(true)
					(*y.all()[i].W)[i%n].SetInt64(77777)
					q, err := prv.Prove(y)
					c.Check(err != nil || !vrf.Verify(newNested().fill(false), q), "nested witness %d changed and accepted", i)
				}
				c.Trans(3)
				c.State("n", i)
				for _, l := range []int{0, 1, n - 1, n + 1, 2 * n} {
					y = newNested().fill(true)
					*y.all()[i].W = fill(l, 1)
					refuse(c, prv, y, fmt.Sprintf("nested witness %d of length %d", i, l))
					y = newNested().fill(true)
					*y.all()[i].P = fill(l, 1)
					refuse(c, prv, y, fmt.Sprintf("nested public input %d of length %d", i, l))
					refuseV(c, vrf, y, pf, fmt.Sprintf("nested public input %d of length %d", i, l))
				}
			}
			// structure changes
			for k, f := range []func(y *nested){
				func(y *nested) { y.B = nil },
				func(y *nested) { y.D = y.D[:1] },
				func(y *nested) { y.D = nil },
				func(y *nested) { y.D = append(y.D, y.D[0]) },
				func(y *nested) { y.F = y.F[:2] },
				func(y *nested) { y.F[1] = append(y.F[1], y.A) },
				func(y *nested) { y.G = nil },
				func(y *nested) { y.G[1] = y.G[0] },
				func(y *nested) { y.H.Y = nil },
				func(y *nested) { y.I = nil },
				func(y *nested) { y.I = 3 },
				func(y *nested) { y.J = nil },
				func(y *nested) { y.J.Y = &y.A },
				func(y *nested) { y.K = &y.A },
				func(y *nested) { y.M[0] = nil },
				func(y *nested) { y.M[0], y.M[1] = y.M[1], y.M[0][:0] },
				func(y *nested) { y.N = y.N[:1] },
				func(y *nested) { y.O[0][1] = nil },
				func(y *nested) { y.Q = nil },
				func(y *nested) { y.R = nil },
				func(y *nested) { *y.R = nil },
				func(y *nested) { y.S = &[1][1]inner{{y.A}} },
				func(y *nested) { y.S = nil },
				func(y *nested) { *y.T = nil },
				func(y *nested) { y.T = nil },
				func(y *nested) { y.EmbP = nil },
				func(y *nested) { y.V.W3, y.V.P3 = nil, nil },
				func(y *nested) { y.V.P4[0] = nil },
				func(y *nested) { y.V.P5 = nil },
				func(y *nested) { y.V.P6[0] = nil },
				func(y *nested) { y.V.P7[0][0] = nil },
			} {
				y := newNested().fill(true)
				f(y)
				refuse(c, prv, y, fmt.Sprintf("structure change %d", k))
				refuseV(c, vrf, y, pf, fmt.Sprintf("structure change %d", k))
			}
			for k, f := range []func(y *nested){
				func(y *nested) { y.V.W3 = nil },
				func(y *nested) { y.V.W5 = nil },
				func(y *nested) { y.V.W6[0] = nil },
				func(y *nested) { y.V.W7[0][0] = nil },
			} {
				y := newNested().fill(true)
				f(y)
				refuse(c, prv, y, fmt.Sprintf("missing witness %d", k))
				c.Check(vrf.Verify(y, pf), "the verifier needs witness %d", k)
			}
			c.Check(vrf.Verify(newNested().fill(false), pf), "honest proof rejected afterwards")
		})
		for np := 0; np <= 2; np++ {
			for nw := 1; nw <= 3; nw++ {
				if nw < np {
					continue
				}
				r.Case(fmt.Sprintf("shape/p%d/w%d", np, nw), func(c *lib.T) {
					// all shapes of assignments: every count and every length
					mk := func() *flat { return &flat{P: make([]PW, np), W: make([]WT, nw)} }
					cc := mk()
					prv, vrf, err := buckler.Compile[E](n, &withEq{flat: *cc}, nil)
					c.Check(err == nil, "Compile: %v", err)
					good := func() *withEq {
						f := mk()
						for i := range f.P {
							f.P[i] = fill(n, int64(i+1))
						}
						for i := range f.W {
							f.W[i] = fill(n, int64(i+1))
						}
						return &withEq{flat: *f}
					}
					pf, err := prv.Prove(good())
					c.Check(err == nil && vrf.Verify(good(), pf), "honest proof rejected (%v)", err)
					for a := 0; a <= np+2; a++ {
						for b := 0; b <= nw+2; b++ {
							if a == np && b == nw {
								continue
							}
							f := &withEq{}
							for i := range a {
								f.P = append(f.P, fill(n, int64(i+1)))
							}
							for i := range b {
								f.W = append(f.W, fill(n, int64(i+1)))
							}
							refuse(c, prv, f, fmt.Sprintf("%d public, %d secret witnesses instead of %d, %d", a, b, np, nw))
							if a != np {
								refuseV(c, vrf, f, pf, fmt.Sprintf("%d public witnesses instead of %d", a, np))
							}
						}
					}
					for l := 0; l <= 2*n+1; l++ {
						if l == n {
							continue
						}
						for i := range np {
							f := good()
							f.P[i] = fill(l, 1)
							refuse(c, prv, f, fmt.Sprintf("public witness %d of length %d", i, l))
							refuseV(c, vrf, f, pf, fmt.Sprintf("public witness %d of length %d", i, l))
						}
						for i := range nw {
							f := good()
							f.W[i] = fill(l, 1)
							refuse(c, prv, f, fmt.Sprintf("witness %d of length %d", i, l))
						}
					}
					for i := range np {
						f := good()
						f.P[i] = nil
						refuse(c, prv, f, "nil public witness")
						refuseV(c, vrf, f, pf, "nil public witness")
					}
					for i := range nw {
						f := good()
						f.W[i] = nil
						refuse(c, prv, f, "nil witness")
						g := good()
						for j := range g.W {
							g.W[j] = nil
						}
						c.Check(vrf.Verify(g, pf), "the verifier needs the witness")
						g.W = nil
						c.Check(vrf.Verify(g, pf), "the verifier needs the witness")
					}
					o := otherFlat(*mk())
					for i := range o.P {
						o.P[i] = fill(n, int64(i+1))
					}
					for i := range o.W {
						o.W[i] = fill(n, int64(i+1))
					}
					var none *withEq
					refuse(c, prv, none, "nil circuit")
					if np > 0 {
						refuseV(c, vrf, none, pf, "nil circuit")
					}
					refuse(c, prv, byValue{}, "circuit that is not a pointer")
					refuseV(c, vrf, byValue{}, pf, "circuit that is not a pointer")
					refuse(c, prv, nil, "no circuit")
					refuseV(c, vrf, nil, pf, "no circuit")
					refuse(c, prv, &o, "circuit of another type with the same fields")
					refuseV(c, vrf, &o, pf, "circuit of another type with the same fields")
					c.Check(vrf.Verify(good(), pf), "honest proof rejected afterwards")
				})
			}
		}
		// values outside the canonical range are reduced by the element type
		r.Case("reduced", func(c *lib.T) {
			q := circ.Order[E]()
			s := circ.Spec{Rank: 4, NP: 1, NW: 1, Cs: []circ.Constraint{circ.Arith(circ.Tm(1, 0), circ.Tm(-1, -1, 0))}}
			sys, err := circ.Compile[E](s, "c")
			c.Check(err == nil, "%v", err)
			p := circ.V(1, 2, 3, 4)
			w := circ.V(1, 2, 3, 4)
			for i := range w {
				w[i].Add(w[i], new(big.Int).Mul(q, big.NewInt(int64(i-1))))
			}
			c.Check(sys.Verdict([]circ.Vec{p}, []circ.Vec{w}) == "accept", "congruent assignment rejected")
			c.Check(sys.Verdict([]circ.Vec{w}, []circ.Vec{p}) == "accept", "congruent assignment rejected")
			c.Trans(2)
		})
	})
}

// withEq constrains every witness, so that circuits without public inputs are
// not empty.
type withEq struct{ flat }

func (c *withEq) Define(ctx *buckler.Context[E]) {
	c.flat.Define(ctx)
	var a buckler.ArithmeticConstraint[E]
	a.AddTerm(nil, c.W[0])
	a.SubTerm(nil, c.W[0])
	ctx.AddArithmeticConstraint(a)
}

func refuse(c *lib.T, prv *buckler.Prover[E], x buckler.Circuit[E], what string) {
	var err error
	var pf *buckler.Proof[E]
	if p, e := lib.Try(func() { pf, err = prv.Prove(x) }); p {
		c.Failf("%s: the prover panicked: %v", what, e)
	}
	c.Check(err != nil && pf == nil, "%s: no error", what)
	c.Trans(1)
	c.Trace(1)
	c.State(c.ID, "prove", what)
	c.Outcome("prove/error")
}

func refuseV(c *lib.T, vrf *buckler.Verifier[E], x buckler.Circuit[E], pf *buckler.Proof[E], what string) {
	var ok bool
	if p, e := lib.Try(func() { ok = vrf.Verify(x, pf) }); p {
		c.Failf("%s: the verifier panicked: %v", what, e)
	}
	c.Check(!ok, "%s: accepted", what)
	c.Trans(1)
	c.Trace(1)
	c.State(c.ID, "verify", what)
	c.Outcome("verify/false")
}

var _ = bignum.Exp[E]
