package main

import (
	"math/big"

	"github.com/sp301415/ringo-snark/zzverif/lib"
)

// dynP is the modulus of Dyn. A process uses one modulus at a time.
var dynP = big.NewInt(3)

// Dyn is a field element over a modulus picked at run time.
type Dyn struct{ v big.Int }

var dynRng = lib.NewRng("dyn", 1)

func (z *Dyn) red() *Dyn       { z.v.Mod(&z.v, dynP); return z }
func (z *Dyn) New() *Dyn       { return new(Dyn) }
func (z *Dyn) Set(x *Dyn) *Dyn { z.v.Set(&x.v); return z }
func (z *Dyn) SetBytes(b []byte) *Dyn {
	z.v.SetBytes(b)
	return z.red()
}
func (z *Dyn) SetInt64(x int64) *Dyn   { z.v.SetInt64(x); return z.red() }
func (z *Dyn) SetUint64(x uint64) *Dyn { z.v.SetUint64(x); return z.red() }
func (z *Dyn) MustSetRandom() *Dyn {
	b := make([]byte, (dynP.BitLen()+7)/8+16)
	dynRng.Read(b)
	return z.SetBytes(b)
}
func (z *Dyn) Slice(s []uint64) {
	w := new(big.Int).Set(&z.v)
	for i := range z.Limb() {
		s[i] = w.Uint64()
		w.Rsh(w, 64)
	}
}
func (z *Dyn) BigInt(r *big.Int) *big.Int { return r.Set(&z.v) }
func (z *Dyn) SetBigInt(v *big.Int) *Dyn  { z.v.Set(v); return z.red() }
func (z *Dyn) Marshal() []byte            { return z.v.FillBytes(make([]byte, 8*z.Limb())) }
func (z *Dyn) Unmarshal(b []byte)         { z.SetBytes(b) }
func (z *Dyn) Limb() int                  { return (dynP.BitLen() + 63) / 64 }
func (z *Dyn) Add(x, y *Dyn) *Dyn         { z.v.Add(&x.v, &y.v); return z.red() }
func (z *Dyn) Sub(x, y *Dyn) *Dyn         { z.v.Sub(&x.v, &y.v); return z.red() }
func (z *Dyn) Neg(x *Dyn) *Dyn            { z.v.Neg(&x.v); return z.red() }
func (z *Dyn) Mul(x, y *Dyn) *Dyn         { z.v.Mul(&x.v, &y.v); return z.red() }
func (z *Dyn) Inverse(x *Dyn) *Dyn {
	if x.v.Sign() == 0 {
		z.v.SetInt64(0)
		return z
	}
	z.v.ModInverse(&x.v, dynP)
	return z
}
func (z *Dyn) Cmp(x *Dyn) int { return z.v.Cmp(&x.v) }
