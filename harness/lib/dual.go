package lib

import (
	"encoding/binary"
	"math/big"
)

// Dual is a prime-field element with a derivative. Only the value is visible
// from outside the field operations (encodings, comparisons, transcripts), so
// a run computes exact derivatives of its field results along a direction of
// its random choices while every transcript stays fixed.
type Dual[M Modulus] struct{ v, d uint64 }

type D62 = Dual[M62]

// DualTape answers the MustSetRandom calls of Dual elements: value and
// derivative.
var DualTape func(p uint64) (v, d uint64)

func (z *Dual[M]) V() uint64                  { return z.v }
func (z *Dual[M]) D() uint64                  { return z.d }
func (z *Dual[M]) New() *Dual[M]              { return new(Dual[M]) }
func (z *Dual[M]) Set(x *Dual[M]) *Dual[M]    { *z = *x; return z }
func (z *Dual[M]) Slice(res []uint64)         { res[0] = z.v }
func (z *Dual[M]) Unmarshal(b []byte)         { z.SetBytes(b) }
func (z *Dual[M]) Limb() int                  { return 1 }
func (z *Dual[M]) BigInt(r *big.Int) *big.Int { return r.SetUint64(z.v) }

func (z *Dual[M]) lift(f func(x *Fp[M])) *Dual[M] {
	var x Fp[M]
	f(&x)
	z.v, z.d = x.v, 0
	return z
}

func (z *Dual[M]) SetBytes(b []byte) *Dual[M] { return z.lift(func(x *Fp[M]) { x.SetBytes(b) }) }
func (z *Dual[M]) SetInt64(v int64) *Dual[M]  { return z.lift(func(x *Fp[M]) { x.SetInt64(v) }) }
func (z *Dual[M]) SetUint64(v uint64) *Dual[M] {
	return z.lift(func(x *Fp[M]) { x.SetUint64(v) })
}
func (z *Dual[M]) SetBigInt(v *big.Int) *Dual[M] {
	return z.lift(func(x *Fp[M]) { x.SetBigInt(v) })
}

func (z *Dual[M]) MustSetRandom() *Dual[M] {
	p := modP[M]()
	v, d := DualTape(p)
	z.v, z.d = v%p, d%p
	return z
}

func (z *Dual[M]) Marshal() []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], z.v)
	return b[:]
}

func addmod(a, b, p uint64) uint64 {
	s := a + b
	if s >= p {
		s -= p
	}
	return s
}

func submod(a, b, p uint64) uint64 {
	if a >= b {
		return a - b
	}
	return a + p - b
}

func (z *Dual[M]) Add(x, y *Dual[M]) *Dual[M] {
	p := modP[M]()
	z.v, z.d = addmod(x.v, y.v, p), addmod(x.d, y.d, p)
	return z
}

func (z *Dual[M]) Sub(x, y *Dual[M]) *Dual[M] {
	p := modP[M]()
	z.v, z.d = submod(x.v, y.v, p), submod(x.d, y.d, p)
	return z
}

func (z *Dual[M]) Neg(x *Dual[M]) *Dual[M] {
	p := modP[M]()
	z.v, z.d = submod(0, x.v, p), submod(0, x.d, p)
	return z
}

func (z *Dual[M]) Mul(x, y *Dual[M]) *Dual[M] {
	p := modP[M]()
	d := uint64(0)
	if x.d|y.d != 0 {
		d = addmod(mulmod(x.v, y.d, p), mulmod(x.d, y.v, p), p)
	}
	z.v, z.d = mulmod(x.v, y.v, p), d
	return z
}

func (z *Dual[M]) Inverse(x *Dual[M]) *Dual[M] {
	p := modP[M]()
	i := powmod(x.v, p-2, p)
	z.v, z.d = i, submod(0, mulmod(x.d, mulmod(i, i, p), p), p)
	return z
}

func (z *Dual[M]) Cmp(x *Dual[M]) int {
	switch {
	case z.v < x.v:
		return -1
	case z.v > x.v:
		return 1
	}
	return 0
}

// RankMod returns the rank of a matrix over the field of p elements.
func RankMod(m [][]uint64, p uint64) int {
	r := 0
	if len(m) == 0 {
		return 0
	}
	for c := 0; c < len(m[0]) && r < len(m); c++ {
		k := r
		for k < len(m) && m[k][c] == 0 {
			k++
		}
		if k == len(m) {
			continue
		}
		m[r], m[k] = m[k], m[r]
		inv := powmod(m[r][c], p-2, p)
		for i := r + 1; i < len(m); i++ {
			f := mulmod(m[i][c], inv, p)
			if f == 0 {
				continue
			}
			for j := c; j < len(m[0]); j++ {
				m[i][j] = submod(m[i][j], mulmod(f, m[r][j], p), p)
			}
		}
		r++
	}
	return r
}
