// Package lib holds the shared parts of the bounded-exhaustive harnesses:
// small prime fields that implement the library's generic element interface,
// reference models, the enumeration driver and evidence output.
package lib

import (
	"encoding/binary"
	"math/big"
	"math/bits"
)

// Modulus selects a prime below 2^63 at compile time.
type Modulus interface{ P() uint64 }

// Moduli. 2-adicity is noted because it bounds the NTT rank that is usable.
type (
	M5      struct{} // 2^2+1
	M17     struct{} // 2^4+1
	M97     struct{} // 96+1, 2-adicity 5
	M193    struct{} // 192+1, 2-adicity 6
	M257    struct{} // 2^8+1
	M12289  struct{} // 12288+1, 2-adicity 12
	M147457 struct{} // 384^2+1, 2-adicity 14
	M30     struct{} // 160^4+1, 2-adicity 20
	M60K2   struct{} // 1073643520^2+1
	M60K4   struct{} // 32416^4+1, 2-adicity 20
	M62     struct{} // 208^8+1, 2-adicity 32
)

func (M5) P() uint64      { return 5 }
func (M17) P() uint64     { return 17 }
func (M97) P() uint64     { return 97 }
func (M193) P() uint64    { return 193 }
func (M257) P() uint64    { return 257 }
func (M12289) P() uint64  { return 12289 }
func (M147457) P() uint64 { return 147457 }
func (M30) P() uint64     { return 655360001 }
func (M60K2) P() uint64   { return 1152710408037990401 }
func (M60K4) P() uint64   { return 1104174452898267137 }
func (M62) P() uint64     { return 3503536769037500417 }

// Field elements.
type (
	F5      = Fp[M5]
	F17     = Fp[M17]
	F97     = Fp[M97]
	F193    = Fp[M193]
	F257    = Fp[M257]
	F12289  = Fp[M12289]
	F147457 = Fp[M147457]
	F30     = Fp[M30]
	F60K2   = Fp[M60K2]
	F60K4   = Fp[M60K4]
	F62     = Fp[M62]
)

// RandTape, when set, answers every MustSetRandom call (environment answer).
var RandTape func(p uint64) uint64

// Yield, when set, is called at the start of every field operation. It is the
// scheduling point of the controlled scheduler.
var Yield func()

// Fp is an element of the prime field selected by M.
type Fp[M Modulus] struct{ v uint64 }

func modP[M Modulus]() uint64 { var m M; return m.P() }

func pt() {
	if Yield != nil {
		Yield()
	}
}

// V returns the canonical representative.
func (z *Fp[M]) V() uint64 { return z.v }

func (z *Fp[M]) New() *Fp[M] { return new(Fp[M]) }

func (z *Fp[M]) Set(x *Fp[M]) *Fp[M] { pt(); z.v = x.v; return z }

func (z *Fp[M]) SetBytes(b []byte) *Fp[M] {
	p := modP[M]()
	var r uint64
	for _, c := range b {
		hi, lo := bits.Mul64(r, 256)
		lo, cy := bits.Add64(lo, uint64(c), 0)
		hi += cy
		_, r = bits.Div64(hi%p, lo, p)
	}
	z.v = r
	return z
}

func (z *Fp[M]) SetInt64(x int64) *Fp[M] {
	pt()
	p := modP[M]()
	if x >= 0 {
		z.v = uint64(x) % p
	} else {
		r := uint64(-x) % p // -MinInt64 wraps to 2^63, which is right as uint64
		if r != 0 {
			r = p - r
		}
		z.v = r
	}
	return z
}

func (z *Fp[M]) SetUint64(x uint64) *Fp[M] { pt(); z.v = x % modP[M](); return z }

func (z *Fp[M]) MustSetRandom() *Fp[M] {
	pt()
	p := modP[M]()
	if RandTape != nil {
		z.v = RandTape(p) % p
		return z
	}
	z.v = defaultRand() % p
	return z
}

func (z *Fp[M]) Slice(res []uint64) { res[0] = z.v }

func (z *Fp[M]) BigInt(res *big.Int) *big.Int { return res.SetUint64(z.v) }

func (z *Fp[M]) SetBigInt(v *big.Int) *Fp[M] {
	r := new(big.Int).Mod(v, new(big.Int).SetUint64(modP[M]()))
	z.v = r.Uint64()
	return z
}

func (z *Fp[M]) Marshal() []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], z.v)
	return b[:]
}

func (z *Fp[M]) Unmarshal(b []byte) { z.SetBytes(b) }

func (z *Fp[M]) Limb() int { return 1 }

func (z *Fp[M]) Add(x, y *Fp[M]) *Fp[M] {
	pt()
	p := modP[M]()
	s := x.v + y.v
	if s >= p {
		s -= p
	}
	z.v = s
	return z
}

func (z *Fp[M]) Sub(x, y *Fp[M]) *Fp[M] {
	pt()
	p := modP[M]()
	if x.v >= y.v {
		z.v = x.v - y.v
	} else {
		z.v = x.v + p - y.v
	}
	return z
}

func (z *Fp[M]) Neg(x *Fp[M]) *Fp[M] {
	pt()
	if x.v == 0 {
		z.v = 0
	} else {
		z.v = modP[M]() - x.v
	}
	return z
}

func (z *Fp[M]) Mul(x, y *Fp[M]) *Fp[M] {
	pt()
	z.v = mulmod(x.v, y.v, modP[M]())
	return z
}

func (z *Fp[M]) Inverse(x *Fp[M]) *Fp[M] {
	pt()
	z.v = powmod(x.v, modP[M]()-2, modP[M]())
	return z
}

func (z *Fp[M]) Cmp(x *Fp[M]) int {
	switch {
	case z.v < x.v:
		return -1
	case z.v > x.v:
		return 1
	}
	return 0
}

func mulmod(a, b, p uint64) uint64 {
	hi, lo := bits.Mul64(a, b)
	_, r := bits.Div64(hi, lo, p)
	return r
}

func powmod(a, e, p uint64) uint64 {
	r := uint64(1) % p
	for e > 0 {
		if e&1 == 1 {
			r = mulmod(r, a, p)
		}
		a = mulmod(a, a, p)
		e >>= 1
	}
	return r
}
