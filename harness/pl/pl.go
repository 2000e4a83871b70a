// Package pl holds reference polynomial arithmetic on integers, written from
// the definitions, and enumerators of polynomials.
package pl

import (
	"math/big"

	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/zzverif/lib"
)

// Order returns the field order.
func Order[E bignum.Uint[E]]() *big.Int {
	var z E
	q := z.New().SetInt64(-1).BigInt(new(big.Int))
	return q.Add(q, big.NewInt(1))
}

// P is a reference polynomial (canonical residues).
type P []*big.Int

// Zero is the zero polynomial of length n.
func Zero(n int) P {
	p := make(P, n)
	for i := range p {
		p[i] = new(big.Int)
	}
	return p
}

// Basis is c*X^k.
func Basis(n, k int, c *big.Int) P {
	p := Zero(n)
	p[k].Set(c)
	return p
}

// Clone copies.
func (p P) Clone() P {
	o := make(P, len(p))
	for i := range p {
		o[i] = new(big.Int).Set(p[i])
	}
	return o
}

// Eq compares.
func Eq(a, b P) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

// To converts to a library polynomial.
func To[E bignum.Uint[E]](p P, ntt bool) *bigpoly.Poly[E] {
	o := bigpoly.NewPoly[E](len(p), ntt)
	for i := range p {
		o.Coeffs[i].SetBigInt(p[i])
	}
	return o
}

// From converts a library polynomial.
func From[E bignum.Uint[E]](p *bigpoly.Poly[E]) P {
	o := make(P, len(p.Coeffs))
	for i := range o {
		o[i] = p.Coeffs[i].BigInt(new(big.Int))
	}
	return o
}

// FromVec converts a vector.
func FromVec[E bignum.Uint[E]](v []E) P {
	o := make(P, len(v))
	for i := range o {
		o[i] = v[i].BigInt(new(big.Int))
	}
	return o
}

// ToVec converts to a vector.
func ToVec[E bignum.Uint[E]](p P) []E { return To[E](p, false).Coeffs }

// Map applies f pointwise.
func Map(a, b P, q *big.Int, f func(o, x, y *big.Int)) P {
	o := Zero(len(a))
	for i := range o {
		f(o[i], a[i], b[i])
		o[i].Mod(o[i], q)
	}
	return o
}

func Add(a, b P, q *big.Int) P {
	return Map(a, b, q, func(o, x, y *big.Int) { o.Add(x, y) })
}
func Sub(a, b P, q *big.Int) P {
	return Map(a, b, q, func(o, x, y *big.Int) { o.Sub(x, y) })
}
func Had(a, b P, q *big.Int) P {
	return Map(a, b, q, func(o, x, y *big.Int) { o.Mul(x, y) })
}
func Neg(a P, q *big.Int) P {
	return Map(a, a, q, func(o, x, y *big.Int) { o.Neg(x) })
}
func Scale(a P, c, q *big.Int) P {
	return Map(a, a, q, func(o, x, y *big.Int) { o.Mul(x, c) })
}

// Mul multiplies modulo X^n - sign.
func Mul(a, b P, q *big.Int, sign int) P {
	n := len(a)
	o := Zero(n)
	t := new(big.Int)
	for i := range a {
		if a[i].Sign() == 0 {
			continue
		}
		for j := range b {
			t.Mul(a[i], b[j])
			k := i + j
			if k >= n {
				k -= n
				if sign < 0 {
					t.Neg(t)
				}
			}
			o[k].Add(o[k], t)
		}
	}
	for i := range o {
		o[i].Mod(o[i], q)
	}
	return o
}

// Eval evaluates by powers.
func Eval(p P, x, q *big.Int) *big.Int {
	s, w := new(big.Int), big.NewInt(1)
	for i := range p {
		s.Add(s, new(big.Int).Mul(w, p[i]))
		w = new(big.Int).Mod(new(big.Int).Mul(w, x), q)
	}
	return s.Mod(s, q)
}

// All enumerates all polynomials of length n over the alphabet.
func All(n int, alpha []*big.Int, f func(p P)) {
	idx := make([]int, n)
	for {
		p := make(P, n)
		for i := range p {
			p[i] = new(big.Int).Set(alpha[idx[i]])
		}
		f(p)
		i := 0
		for ; i < n; i++ {
			idx[i]++
			if idx[i] < len(alpha) {
				break
			}
			idx[i] = 0
		}
		if i == n {
			return
		}
	}
}

// Alpha is the whole field (small orders only) or {0,1,2,q-1,q/2}.
func Alpha(q *big.Int, whole bool) []*big.Int {
	if whole {
		var a []*big.Int
		for i := int64(0); i < q.Int64(); i++ {
			a = append(a, big.NewInt(i))
		}
		return a
	}
	return []*big.Int{big.NewInt(0), big.NewInt(1), new(big.Int).Sub(q, big.NewInt(1)), new(big.Int).Rsh(q, 1)}
}

// Rand is a dense deterministic polynomial.
func Rand(rng *lib.Rng, n int, q *big.Int) P {
	p := make(P, n)
	b := make([]byte, (q.BitLen()+71)/8)
	for i := range p {
		rng.Read(b)
		p[i] = new(big.Int).Mod(new(big.Int).SetBytes(b), q)
	}
	return p
}

// Family is the generating family used where exhaustion is out of reach: all
// basis vectors with weights one and q-1 (both sides of every linear map), the
// constant vectors, and dense vectors.
func Family(rng *lib.Rng, n int, q *big.Int, dense int) []P {
	var out []P
	m1 := new(big.Int).Sub(q, big.NewInt(1))
	for k := range n {
		out = append(out, Basis(n, k, big.NewInt(1)))
	}
	out = append(out, Zero(n), Basis(n, n-1, m1), Basis(n, 0, m1))
	c := Zero(n)
	for i := range c {
		c[i].Set(m1)
	}
	out = append(out, c)
	for range dense {
		out = append(out, Rand(rng, n, q))
	}
	return out
}
