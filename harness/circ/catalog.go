package circ

import (
	"fmt"
	"hash/fnv"
	"math/big"
)

// Inst is a circuit with a satisfying assignment.
type Inst struct {
	Name string
	Spec Spec
	P, W []Vec
}

// Clone copies the assignment.
func (x Inst) Clone() Inst {
	x.P, x.W = cloneAll(x.P), cloneAll(x.W)
	return x
}

func cloneAll(v []Vec) []Vec {
	o := make([]Vec, len(v))
	for i := range v {
		o[i] = v[i].Clone()
	}
	return o
}

// B builds instances letter by letter.
type B struct {
	Inst
	N       int
	Q, Root *big.Int
	Salt    int
}

func NewB(n int, q, root *big.Int) *B {
	b := &B{N: n, Q: q, Root: root}
	b.Spec.Rank = n
	return b
}

func (b *B) Pub(v Vec) int {
	b.P = append(b.P, v)
	b.Spec.NP++
	return len(b.P) - 1
}

func (b *B) Wit(v Vec) int {
	b.W = append(b.W, v)
	b.Spec.NW++
	return len(b.W) - 1
}

func (b *B) Add(c Constraint) { b.Spec.Cs = append(b.Spec.Cs, c) }

// Patterns of vectors; k selects one.
const NPat = 8

func (b *B) Pat(k int) Vec {
	v := make(Vec, b.N)
	h := fnv.New64a()
	fmt.Fprint(h, b.Salt, k)
	s := h.Sum64()
	for i := range v {
		x := new(big.Int)
		switch k % NPat {
		case 0: // pseudo-random full size
			for range 8 {
				s = s*6364136223846793005 + 1442695040888963407
				x.Lsh(x, 60).Add(x, new(big.Int).SetUint64(s>>4))
			}
		case 1:
			x.SetInt64(int64(i) + 1)
		case 2:
			x.Sub(b.Q, big.NewInt(1))
		case 3: // zero
		case 4:
			x.SetInt64(1)
		case 5:
			if i == b.N-1 {
				x.Rsh(b.Q, 1)
			}
		case 6:
			if i == 0 {
				x.Sub(b.Q, big.NewInt(2))
			}
		case 7:
			x.SetInt64(int64(1 - 2*(i%2)))
		}
		v[i] = x.Mod(x, b.Q)
	}
	return v
}

// Small is a vector with all entries in [-m, m].
func (b *B) Small(k int, m int64) Vec {
	v := make(Vec, b.N)
	for i := range v {
		x := int64(0)
		switch k % 6 {
		case 0:
			x = (int64(i)*7+3)%(2*m+1) - m
		case 1:
			x = m
		case 2:
			x = -m
		case 3:
		case 4:
			x = m - 2*m*int64(i%2)
		case 5:
			if i == b.N-1 {
				x = m
			}
		}
		v[i] = b.mod(big.NewInt(x))
	}
	return v
}

func (b *B) mod(x *big.Int) *big.Int { return x.Mod(x, b.Q) }

// Eval evaluates the terms slot-wise.
func (b *B) Eval(ts ...Term) Vec {
	v := make(Vec, b.N)
	for i := range v {
		s := new(big.Int)
		for _, t := range ts {
			x := big.NewInt(t.Coef)
			if t.Pub >= 0 {
				x.Mul(x, b.P[t.Pub][i])
			}
			for _, k := range t.Wit {
				x.Mul(x, b.W[k][i])
			}
			s.Add(s, x)
		}
		v[i] = b.mod(s)
	}
	return v
}

// SumOf sums the entries.
func (b *B) SumOf(v Vec) *big.Int {
	s := new(big.Int)
	for i := range v {
		s.Add(s, v[i])
	}
	return b.mod(s)
}

func (b *B) sumc(s *big.Int, ts ...Term) {
	b.Add(Constraint{Kind: "sum", Terms: ts, Sum: s, Big: true})
}

// Letter adds one constraint with fresh witnesses. Letters never fail.
type Letter struct {
	Name string
	Add  func(b *B, k int)
}

// Letters is the alphabet of constraints (without the approximate norm, which
// needs large ranks).
func Letters() []Letter {
	L := []Letter{
		{"mul", func(b *B, k int) {
			x, y := b.Wit(b.Pat(k)), b.Wit(b.Pat(k+1))
			z := b.Wit(b.Eval(Tm(1, -1, x, y)))
			b.Add(Arith(Tm(1, -1, x, y), Tm(-1, -1, z)))
		}},
		{"sq", func(b *B, k int) {
			x := b.Wit(b.Pat(k))
			z := b.Wit(b.Eval(Tm(1, -1, x, x)))
			b.Add(Arith(Tm(-1, -1, z), Tm(1, -1, x, x)))
		}},
		{"pub", func(b *B, k int) {
			p, x := b.Pub(b.Pat(k+2)), b.Wit(b.Pat(k))
			z := b.Wit(b.Eval(Tm(3, p, x), Tm(-1, -1, x)))
			b.Add(Arith(Tm(3, p, x), Tm(-1, -1, x), Tm(-1, -1, z)))
		}},
		{"affine", func(b *B, k int) {
			p := b.Pub(b.Pat(k))
			z := b.Wit(b.Eval(Tm(7, -1), Tm(-2, p)))
			b.Add(Arith(Tm(7, -1), Tm(-2, p), Tm(-1, -1, z)))
		}},
		{"pubonly", func(b *B, k int) {
			p := b.Pub(b.Pat(k))
			r := b.Pub(b.Eval(Tm(-5, p)))
			b.Add(Arith(Tm(5, p), Tm(1, r)))
		}},
		{"eq", func(b *B, k int) {
			x := b.Wit(b.Pat(k))
			z := b.Wit(b.Eval(Tm(1, -1, x)))
			b.Add(Arith(Tm(1, -1, x), Tm(-1, -1, z)))
		}},
		{"deg3", func(b *B, k int) {
			x, y := b.Wit(b.Pat(k)), b.Wit(b.Pat(k+3))
			z := b.Wit(b.Eval(Tm(2, -1, x, x, y), Tm(1, -1, y)))
			b.Add(Arith(Tm(1, -1, y), Tm(2, -1, x, x, y), Tm(-1, -1, z)))
		}},
		{"deg5", func(b *B, k int) {
			p, x := b.Pub(b.Pat(k+1)), b.Wit(b.Pat(k))
			z := b.Wit(b.Eval(Tm(1, p, x, x, x, x, x)))
			b.Add(Arith(Tm(1, p, x, x, x, x, x), Tm(-1, -1, z)))
		}},
		{"sum", func(b *B, k int) {
			x := b.Wit(b.Pat(k))
			b.sumc(b.SumOf(b.W[x]), Tm(1, -1, x))
		}},
		{"sumneg", func(b *B, k int) {
			x := b.Wit(b.Pat(k))
			s := b.SumOf(b.W[x])
			b.sumc(s.Sub(s, b.Q), Tm(1, -1, x))
		}},
		{"summul", func(b *B, k int) {
			x, y := b.Wit(b.Pat(k)), b.Wit(b.Pat(k+1))
			b.sumc(b.SumOf(b.Eval(Tm(1, -1, x, y), Tm(-2, -1, x))), Tm(1, -1, x, y), Tm(-2, -1, x))
		}},
		{"sumpub", func(b *B, k int) {
			p, x := b.Pub(b.Pat(k+1)), b.Wit(b.Pat(k))
			b.sumc(b.SumOf(b.Eval(Tm(3, p, x), Tm(1, -1), Tm(1, p))), Tm(3, p, x), Tm(1, -1), Tm(1, p))
		}},
		{"sumdeg3", func(b *B, k int) {
			x := b.Wit(b.Pat(k))
			b.sumc(b.SumOf(b.Eval(Tm(1, -1, x, x, x))), Tm(1, -1, x, x, x))
		}},
		{"sumpubonly", func(b *B, k int) {
			p := b.Pub(b.Pat(k))
			b.sumc(b.SumOf(b.P[p]), Tm(1, p))
		}},
		{"sumzero", func(b *B, k int) {
			x := b.Wit(b.Pat(k))
			z := make(Vec, b.N)
			for i := range z {
				z[i] = b.mod(new(big.Int).Neg(b.W[x][b.N-1-i]))
			}
			y := b.Wit(z)
			b.Add(Sum(0, Tm(1, -1, x), Tm(1, -1, y)))
		}},
	}
	for _, bd := range []int64{0, 1, 2, 3, 4, 5, 7, 8} {
		L = append(L, Letter{fmt.Sprintf("inf%d", bd), func(b *B, k int) {
			b.Add(Inf(b.Wit(b.Small(k, bd)), bd))
		}})
	}
	for _, bd := range []int64{0, 1, 2, 3, 5} {
		L = append(L, Letter{fmt.Sprintf("two%d", bd), func(b *B, k int) {
			v := Const(b.N, 0)
			// as many unit entries as fit, or one entry of maximal size
			if k%2 == 0 {
				for i := range v {
					if int64(i) < bd {
						v[(i+k)%b.N] = b.mod(big.NewInt(int64(1 - 2*(i%2))))
					}
				}
			} else {
				m := int64(0)
				for (m+1)*(m+1) <= bd {
					m++
				}
				v[k%b.N] = b.mod(big.NewInt(-m))
			}
			digits := 0
			for x := bd; x > 0; x >>= 1 {
				digits++
			}
			if digits > b.N { // unsupported: more digits than slots
				b.Add(Two(b.Wit(Const(b.N, 0)), 3))
				return
			}
			b.Add(Two(b.Wit(v), bd))
		}})
	}
	L = append(L, Letter{"twoinf", func(b *B, k int) {
		x := b.Wit(b.Small(5, 1))
		b.Add(Two(x, 2))
		b.Add(Inf(x, 2))
		b.Add(Two(x, 1))
		b.Add(Inf(x, 3))
	}})
	for _, nm := range []string{"id", "shift", "prefix", "diag", "low", "zero", "ntt", "autn3", "autc3", "autn-1", "autc5"} {
		L = append(L, Letter{"lin-" + nm, func(b *B, k int) {
			x := b.Wit(b.Pat(k))
			y := b.Wit(LinApply(nm, b.W[x], b.Q, b.Root))
			for i := range b.W[y] {
				b.mod(b.W[y][i])
			}
			b.Add(Lin(y, x, nm))
		}})
	}
	return L
}

// LetterByName returns the letter.
func LetterByName(name string) Letter {
	for _, l := range Letters() {
		if l.Name == name {
			return l
		}
	}
	panic("no letter " + name)
}

// Word builds an instance from letters.
func Word(n int, q, root *big.Int, salt, k int, ls ...Letter) Inst {
	b := NewB(n, q, root)
	b.Salt = salt
	for i, l := range ls {
		b.Name += "+" + l.Name
		l.Add(b, k+i)
	}
	b.Name = b.Name[1:]
	return b.Inst
}

// Verdict is what the system says about an assignment: "accept", "reject" or
// "error" (the prover refuses).
func (s *Sys[E]) Verdict(p, w []Vec) string {
	pf, err := s.Prove(p, w)
	if err != nil {
		return "error"
	}
	if s.Verify(p, pf) {
		return "accept"
	}
	return "reject"
}
