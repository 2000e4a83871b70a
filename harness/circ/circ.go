// Package circ builds circuits for the Buckler front end from a small
// constraint alphabet, together with a reference semantics: a plain
// evaluation of every constraint over the integers modulo the field order.
package circ

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
)

// Circuit is the circuit type handed to the library.
type Circuit[E bignum.Uint[E]] struct {
	P   []buckler.PublicWitness[E]
	W   []buckler.Witness[E]
	Def func(c *Circuit[E], ctx *buckler.Context[E])
}

func (c *Circuit[E]) Define(ctx *buckler.Context[E]) { c.Def(c, ctx) }

// Vec is a vector of integers (not reduced).
type Vec []*big.Int

// V makes a vector from small integers.
func V(x ...int64) Vec {
	v := make(Vec, len(x))
	for i := range x {
		v[i] = big.NewInt(x[i])
	}
	return v
}

func (v Vec) Clone() Vec {
	o := make(Vec, len(v))
	for i := range v {
		o[i] = new(big.Int).Set(v[i])
	}
	return o
}

func (v Vec) String() string {
	s := make([]string, len(v))
	for i := range v {
		s[i] = v[i].String()
	}
	return "[" + strings.Join(s, " ") + "]"
}

// Const is a constant vector of length n.
func Const(n int, x int64) Vec {
	v := make(Vec, n)
	for i := range v {
		v[i] = big.NewInt(x)
	}
	return v
}

// Term is Coef * P[Pub] * prod W[Wit]; Pub = -1 for none.
type Term struct {
	Coef int64
	Pub  int
	Wit  []int
}

func (t Term) String() string { return fmt.Sprintf("%d*p%d*w%v", t.Coef, t.Pub, t.Wit) }

// Constraint is one letter of the alphabet.
type Constraint struct {
	Kind  string // arith, sum, inf, two, approx, lin
	Terms []Term
	Sum   *big.Int
	Bound *big.Int
	Big   bool // use the big.Int entry point
	W     int
	Out   int
	In    int
	Lin   string // linear map name
}

func (c Constraint) String() string {
	switch c.Kind {
	case "arith":
		return fmt.Sprintf("arith%v", c.Terms)
	case "sum":
		return fmt.Sprintf("sum%v=%v", c.Terms, c.Sum)
	case "inf", "two", "approx":
		return fmt.Sprintf("%s(w%d)<=%v", c.Kind, c.W, c.Bound)
	}
	return fmt.Sprintf("w%d=%s(w%d)", c.Out, c.Lin, c.In)
}

func Arith(t ...Term) Constraint { return Constraint{Kind: "arith", Terms: t} }
func Sum(s int64, t ...Term) Constraint {
	return Constraint{Kind: "sum", Sum: big.NewInt(s), Terms: t}
}
func Inf(w int, b int64) Constraint { return Constraint{Kind: "inf", W: w, Bound: big.NewInt(b)} }
func Two(w int, b int64) Constraint { return Constraint{Kind: "two", W: w, Bound: big.NewInt(b)} }
func Approx(w int, b int64) Constraint {
	return Constraint{Kind: "approx", W: w, Bound: big.NewInt(b)}
}
func Lin(out, in int, name string) Constraint {
	return Constraint{Kind: "lin", Out: out, In: in, Lin: name}
}
func Tm(coef int64, pub int, w ...int) Term { return Term{coef, pub, w} }

// Spec is a circuit: shape and constraints.
type Spec struct {
	Rank int
	NP   int
	NW   int
	Cs   []Constraint
}

func (s Spec) String() string { return fmt.Sprintf("r%d p%d w%d %v", s.Rank, s.NP, s.NW, s.Cs) }

// matChecker is a user-defined linear checker given by an integer matrix.
type matChecker[E bignum.Uint[E]] struct{ m [][]int64 }

func (c *matChecker[E]) TransformTo(vOut, v []E) { c.apply(vOut, v, false) }
func (c *matChecker[E]) TransposeTo(vOut, v []E) { c.apply(vOut, v, true) }
func (c *matChecker[E]) apply(vOut, v []E, tr bool) {
	var z E
	n := len(c.m)
	tmp := make([]E, n)
	for i := range n {
		tmp[i] = z.New()
		for j := range n {
			a := c.m[i][j]
			if tr {
				a = c.m[j][i]
			}
			if a != 0 {
				tmp[i].Add(tmp[i], z.New().Mul(z.New().SetInt64(a), v[j]))
			}
		}
	}
	for i := range n {
		vOut[i].Set(tmp[i])
	}
}

// Matrix returns the integer matrix of a custom linear map, nil for built-ins.
func Matrix(name string, n int) [][]int64 {
	m := make([][]int64, n)
	for i := range m {
		m[i] = make([]int64, n)
	}
	switch name {
	case "id":
		for i := range m {
			m[i][i] = 1
		}
	case "shift": // out_i = in_{i+1 mod n}
		for i := range m {
			m[i][(i+1)%n] = 1
		}
	case "prefix": // out_i = sum_{j<=i} in_j
		for i := range m {
			for j := 0; j <= i; j++ {
				m[i][j] = 1
			}
		}
	case "diag":
		for i := range m {
			m[i][i] = int64(i) + 2
		}
	case "low": // asymmetric rank-deficient: out_0 = in_{n-1}, rest 0
		m[0][n-1] = 3
	case "zero":
	default:
		return nil
	}
	return m
}

// Build returns the circuit with empty witnesses. Checkers are created once
// per name and shared by all constraints of the circuit.
func Build[E bignum.Uint[E]](s Spec) *Circuit[E] {
	c := &Circuit[E]{P: make([]buckler.PublicWitness[E], s.NP), W: make([]buckler.Witness[E], s.NW)}
	c.Def = func(c *Circuit[E], ctx *buckler.Context[E]) {
		var z E
		chk := map[string]buckler.LinearChecker[E]{}
		arith := func(ts []Term) buckler.ArithmeticConstraint[E] {
			var a buckler.ArithmeticConstraint[E]
			for _, t := range ts {
				var pw buckler.PublicWitness[E]
				if t.Pub >= 0 {
					pw = c.P[t.Pub]
				}
				w := make([]buckler.Witness[E], len(t.Wit))
				for i := range w {
					w[i] = c.W[t.Wit[i]]
				}
				switch t.Coef {
				case 1:
					a.AddTerm(pw, w...)
				case -1:
					a.SubTerm(pw, w...)
				default:
					a.AddTermWithConst(z.New().SetInt64(t.Coef), pw, w...)
				}
			}
			return a
		}
		for _, k := range s.Cs {
			switch k.Kind {
			case "arith":
				ctx.AddArithmeticConstraint(arith(k.Terms))
			case "sum":
				if k.Big || k.Sum.Sign() < 0 || !k.Sum.IsUint64() {
					ctx.AddSumCheckConstraintBig(arith(k.Terms), k.Sum)
				} else {
					ctx.AddSumCheckConstraint(arith(k.Terms), k.Sum.Uint64())
				}
			case "inf":
				if k.Big {
					ctx.AddInfNormConstraintBig(c.W[k.W], k.Bound)
				} else {
					ctx.AddInfNormConstraint(c.W[k.W], k.Bound.Uint64())
				}
			case "two":
				if k.Big {
					ctx.AddSqNormConstraintBig(c.W[k.W], k.Bound)
				} else {
					ctx.AddSqTwoNormConstraint(c.W[k.W], k.Bound.Uint64())
				}
			case "approx":
				if k.Big {
					ctx.AddApproxInfNormConstraintBig(c.W[k.W], k.Bound)
				} else {
					ctx.AddApproxInfNormConstraint(c.W[k.W], k.Bound.Uint64())
				}
			case "lin":
				l, ok := chk[k.Lin]
				if !ok {
					l = Checker[E](k.Lin, s.Rank)
					chk[k.Lin] = l
				}
				ctx.AddLinearConstraint(c.W[k.Out], c.W[k.In], l)
			}
		}
	}
	return c
}

// Checker returns the named linear checker.
func Checker[E bignum.Uint[E]](name string, rank int) buckler.LinearChecker[E] {
	if m := Matrix(name, rank); m != nil {
		return &matChecker[E]{m}
	}
	if name == "ntt" {
		return buckler.NewNTTChecker[E](rank)
	}
	var idx int
	if n, _ := fmt.Sscanf(name, "autn%d", &idx); n == 1 {
		return buckler.NewAutChecker(bigpoly.NewCyclotomicEvaluator[E](rank), idx, true)
	}
	if n, _ := fmt.Sscanf(name, "autc%d", &idx); n == 1 {
		return buckler.NewAutChecker(bigpoly.NewCyclotomicEvaluator[E](rank), idx, false)
	}
	panic("unknown linear map " + name)
}

// Assign fills a circuit with values.
func Assign[E bignum.Uint[E]](s Spec, p, w []Vec) *Circuit[E] {
	c := Build[E](s)
	for i := range c.P {
		c.P[i] = Elems[E](p[i])
	}
	if w != nil {
		for i := range c.W {
			c.W[i] = Elems[E](w[i])
		}
	}
	return c
}

// Elems converts integers to field elements.
func Elems[E bignum.Uint[E]](v Vec) []E {
	var z E
	o := make([]E, len(v))
	for i := range v {
		o[i] = z.New().SetBigInt(v[i])
	}
	return o
}

// Ints converts field elements to integers.
func Ints[E bignum.Uint[E]](v []E) Vec {
	o := make(Vec, len(v))
	for i := range v {
		o[i] = v[i].BigInt(new(big.Int))
	}
	return o
}

// Order returns the field order.
func Order[E bignum.Uint[E]]() *big.Int {
	var z E
	q := z.New().SetInt64(-1).BigInt(new(big.Int))
	return q.Add(q, big.NewInt(1))
}

// LinApply is the reference of the named linear map. Built-in maps are
// computed from their mathematical definition with integer arithmetic.
func LinApply(name string, in Vec, q *big.Int, root *big.Int) Vec {
	n := len(in)
	out := make(Vec, n)
	if m := Matrix(name, n); m != nil {
		for i := range out {
			out[i] = new(big.Int)
			for j := range in {
				out[i].Add(out[i], new(big.Int).Mul(big.NewInt(m[i][j]), in[j]))
			}
			out[i].Mod(out[i], q)
		}
		return out
	}
	var idx int
	switch {
	case name == "ntt":
		return EvalOddPowers(in, q, root)
	case scan(name, "autc%d", &idx):
		for i := range out {
			out[i] = new(big.Int)
		}
		for i := range in {
			j := ((i*idx)%(2*n) + 2*n) % (2 * n)
			if j < n {
				out[j].Set(in[i])
			} else {
				out[j-n].Neg(in[i])
			}
		}
		return out
	case scan(name, "autn%d", &idx):
		// slot s holds the evaluation at root^(2*brv(s)+1); the automorphism
		// X -> X^idx moves the evaluation at root^(e*idx) to the slot of root^e.
		lg := 0
		for 1<<lg < n {
			lg++
		}
		for s := range out {
			e := 2*brv(s, lg) + 1
			f := (((e*idx)%(2*n) + 2*n) % (2 * n))
			out[s] = new(big.Int).Set(in[brv((f-1)/2, lg)])
		}
		return out
	}
	panic("unknown linear map " + name)
}

func scan(s, f string, p *int) bool { n, _ := fmt.Sscanf(s, f, p); return n == 1 }

func brv(x, lg int) int {
	r := 0
	for range lg {
		r = r<<1 | x&1
		x >>= 1
	}
	return r
}

// EvalOddPowers returns in(root^(2*brv(s)+1)) for every slot s.
func EvalOddPowers(in Vec, q, root *big.Int) Vec {
	n := len(in)
	lg := 0
	for 1<<lg < n {
		lg++
	}
	out := make(Vec, n)
	for s := range out {
		x := new(big.Int).Exp(root, big.NewInt(int64(2*brv(s, lg)+1)), q)
		a := new(big.Int)
		for i := n - 1; i >= 0; i-- {
			a.Mul(a, x)
			a.Add(a, in[i])
			a.Mod(a, q)
		}
		out[s] = a
	}
	return out
}

// Holds evaluates one constraint on an assignment.
func (c Constraint) Holds(p, w []Vec, q, root *big.Int) bool {
	term := func(ts []Term, i int) *big.Int {
		s := new(big.Int)
		for _, t := range ts {
			x := big.NewInt(t.Coef)
			if t.Pub >= 0 {
				x.Mul(x, p[t.Pub][i])
			}
			for _, k := range t.Wit {
				x.Mul(x, w[k][i])
			}
			s.Add(s, x)
		}
		return s.Mod(s, q)
	}
	switch c.Kind {
	case "arith":
		n := rankOf(p, w)
		for i := range n {
			if term(c.Terms, i).Sign() != 0 {
				return false
			}
		}
		return true
	case "sum":
		s := new(big.Int)
		for i := range rankOf(p, w) {
			s.Add(s, term(c.Terms, i))
		}
		s.Sub(s, c.Sum)
		return s.Mod(s, q).Sign() == 0
	case "inf":
		for _, x := range w[c.W] {
			if new(big.Int).Abs(Balanced(x, q)).Cmp(c.Bound) > 0 {
				return false
			}
		}
		return true
	case "two":
		s := new(big.Int)
		for _, x := range w[c.W] {
			s.Add(s, new(big.Int).Mul(x, x))
		}
		return s.Mod(s, q).Cmp(c.Bound) <= 0
	case "lin":
		o := LinApply(c.Lin, w[c.In], q, root)
		for i := range o {
			if new(big.Int).Mod(new(big.Int).Sub(o[i], w[c.Out][i]), q).Sign() != 0 {
				return false
			}
		}
		return true
	}
	panic("no reference for " + c.Kind)
}

func rankOf(p, w []Vec) int {
	if len(w) > 0 {
		return len(w[0])
	}
	return len(p[0])
}

// Balanced maps x to (-q/2, q/2].
func Balanced(x, q *big.Int) *big.Int {
	r := new(big.Int).Mod(x, q)
	if new(big.Int).Lsh(r, 1).Cmp(q) > 0 {
		r.Sub(r, q)
	}
	return r
}

// Holds evaluates all constraints.
func (s Spec) Holds(p, w []Vec, q, root *big.Int) bool {
	for _, c := range s.Cs {
		if !c.Holds(p, w, q, root) {
			return false
		}
	}
	return true
}

// NTTRoot returns the root the library's negacyclic transform evaluates at in
// its slot 0, read off by transforming X.
func NTTRoot[E bignum.Uint[E]](rank int) *big.Int {
	var z E
	v := make([]E, rank)
	o := make([]E, rank)
	for i := range v {
		v[i], o[i] = z.New(), z.New()
	}
	if rank > 1 {
		v[1].SetInt64(1)
	}
	bigpoly.NewCyclotomicTransformer[E](rank).FwdNTTTo(o, v)
	return o[0].BigInt(new(big.Int))
}

// Run compiles, proves and verifies. It returns the prover's error (if any)
// and the verdict.
type Sys[E bignum.Uint[E]] struct {
	Spec Spec
	Prv  *buckler.Prover[E]
	Vrf  *buckler.Verifier[E]
}

// Compile compiles the spec.
func Compile[E bignum.Uint[E]](s Spec, crs string) (*Sys[E], error) {
	p, v, err := buckler.Compile(s.Rank, buckler.Circuit[E](Build[E](s)), []byte(crs))
	if err != nil {
		return nil, err
	}
	return &Sys[E]{s, p, v}, nil
}

// Prove proves the assignment.
func (s *Sys[E]) Prove(p, w []Vec) (*buckler.Proof[E], error) {
	return s.Prv.Prove(Assign[E](s.Spec, p, w))
}

// Verify verifies against public inputs p.
func (s *Sys[E]) Verify(p []Vec, pf *buckler.Proof[E]) bool {
	return s.Vrf.Verify(Assign[E](s.Spec, p, nil), pf)
}
