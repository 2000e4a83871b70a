// C21: field arithmetic of every generated field package, in the assembly and
// the portable variant, against integer arithmetic modulo the order.
package main

import (
	"fmt"
	"math/big"
	"time"

	zp110_asm "github.com/sp301415/ringo-snark/buckler/zza_zp110_asm"
	zp220_asm "github.com/sp301415/ringo-snark/buckler/zza_zp220_asm"
	zp440_asm "github.com/sp301415/ringo-snark/buckler/zza_zp440_asm"
	zp880_asm "github.com/sp301415/ringo-snark/buckler/zza_zp880_asm"
	zpbfv_asm "github.com/sp301415/ringo-snark/examples/bfv/zza_zpbfv_asm"
	zpmult_asm "github.com/sp301415/ringo-snark/examples/mult/zza_zpmult_asm"
	zpj_asm "github.com/sp301415/ringo-snark/jindo/zza_zpj_asm"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zzverif/lib"
	"github.com/sp301415/ringo-snark/zzverif/zpx"
	zp110_gen "github.com/sp301415/ringo-snark/zzverif/zza_zp110_gen"
	zp220_gen "github.com/sp301415/ringo-snark/zzverif/zza_zp220_gen"
	zp440_gen "github.com/sp301415/ringo-snark/zzverif/zza_zp440_gen"
	zp880_gen "github.com/sp301415/ringo-snark/zzverif/zza_zp880_gen"
	zpbfv_gen "github.com/sp301415/ringo-snark/zzverif/zza_zpbfv_gen"
	zpj_gen "github.com/sp301415/ringo-snark/zzverif/zza_zpj_gen"
	zpmult_gen "github.com/sp301415/ringo-snark/zzverif/zza_zpmult_gen"
)

func run[E bignum.Uint[E]](r *lib.Run, f *zpx.Field[E]) {
	level := 0
	if r.Thorough {
		level = 1
	}
	nw := func() E { var z E; return z.New() }
	// ok checks that x is canonical and represents v
	q := f.Modulus()
	rinv := f.RInv()
	ok := func(t *lib.T, x E, v *big.Int, what string, a ...any) {
		m := zpx.OfLimbs(f.Limb(x))
		t.Check(m.Cmp(q) < 0, "%s: the result is not reduced", fmt.Sprintf(what, a...))
		m.Mul(m, rinv)
		m.Mod(m, q)
		w := new(big.Int).Mod(v, q)
		if m.Cmp(w) != 0 {
			t.Failf("%s = %v, want %v", fmt.Sprintf(what, a...), m, w)
		}
	}
	r.Case(f.Name+"/modulus", func(t *lib.T) {
		t.Check(q.ProbablyPrime(64), "order is not prime")
		t.Check(q.BitLen() == f.Bits && f.Bytes == 8*f.Limbs && f.Bits <= 64*f.Limbs, "sizes: %d bits, %d bytes, %d words", q.BitLen(), f.Bytes, f.Limbs)
		q2 := f.Modulus()
		q2.SetInt64(7)
		t.Check(f.Modulus().Cmp(q) == 0, "Modulus() exposes shared state")
		ok(t, f.One(), big.NewInt(1), "One()")
		ok(t, nw(), new(big.Int), "New()")
		// jindo-friendly: q-1 is a perfect power b^k with b < 2^64, k a power of two
		b := new(big.Int).Sub(q, big.NewInt(1))
		for {
			s := new(big.Int).Sqrt(b)
			if new(big.Int).Mul(s, s).Cmp(b) != 0 {
				break
			}
			b = s
		}
		t.Check(b.IsUint64(), "order minus one is not a small base to a power of two")
		t.State(f.Name, "modulus")
		t.Trans(1)
	})
	const parts = 4
	for part := range parts {
		r.Case(fmt.Sprintf("%s/binary/%d", f.Name, part), func(t *lib.T) {
			al := f.Alphabet(level, r.Seed)
			step := 1
			lim := 260
			if r.Thorough {
				lim = 700
			}
			if len(al) > lim {
				step = len(al)/lim + 1
			}
			k := 0
			for i := range al {
				if i%parts != part {
					continue
				}
				for j := range al {
					// rows at full resolution for the first elements, thinned beyond
					if step > 1 && i > 60 && j > 60 && (i+j)%step != 0 {
						continue
					}
					k++
					x, y := al[i], al[j]
					ok(t, nw().Add(x.X, y.X), new(big.Int).Add(x.V, y.V), "%v + %v", x.V, y.V)
					ok(t, nw().Sub(x.X, y.X), new(big.Int).Sub(x.V, y.V), "%v - %v", x.V, y.V)
					ok(t, nw().Mul(x.X, y.X), new(big.Int).Mul(x.V, y.V), "%v * %v", x.V, y.V)
					c := x.X.Cmp(y.X)
					t.Check(c == x.V.Cmp(y.V), "Cmp(%v, %v) = %d", x.V, y.V, c)
					t.Check(f.Equal(x.X, y.X) == (x.V.Cmp(y.V) == 0) && (f.NotEqual(x.X, y.X) != 0) == (x.V.Cmp(y.V) != 0), "Equal(%v, %v)", x.V, y.V)
					if k%8 == 0 {
						// destinations that alias the operands
						z := nw().Set(x.X)
						ok(t, z.Add(z, y.X), new(big.Int).Add(x.V, y.V), "z=%v; z.Add(z, %v)", x.V, y.V)
						z = nw().Set(y.X)
						ok(t, z.Add(x.X, z), new(big.Int).Add(x.V, y.V), "z=%v; z.Add(%v, z)", y.V, x.V)
						z = nw().Set(x.X)
						ok(t, z.Sub(z, y.X), new(big.Int).Sub(x.V, y.V), "z=%v; z.Sub(z, %v)", x.V, y.V)
						z = nw().Set(y.X)
						ok(t, z.Sub(x.X, z), new(big.Int).Sub(x.V, y.V), "z=%v; z.Sub(%v, z)", y.V, x.V)
						z = nw().Set(x.X)
						ok(t, z.Mul(z, y.X), new(big.Int).Mul(x.V, y.V), "z=%v; z.Mul(z, %v)", x.V, y.V)
						z = nw().Set(y.X)
						ok(t, z.Mul(x.X, z), new(big.Int).Mul(x.V, y.V), "z=%v; z.Mul(%v, z)", y.V, x.V)
						a, b := nw().Set(x.X), nw().Set(y.X)
						f.Butterfly(a, b)
						ok(t, a, new(big.Int).Add(x.V, y.V), "Butterfly(%v, %v).0", x.V, y.V)
						ok(t, b, new(big.Int).Sub(x.V, y.V), "Butterfly(%v, %v).1", x.V, y.V)
						ok(t, f.Select(nw(), 0, x.X, y.X), x.V, "Select(0, %v, %v)", x.V, y.V)
						ok(t, f.Select(nw(), 1, x.X, y.X), y.V, "Select(1, %v, %v)", x.V, y.V)
						ok(t, f.Select(nw(), -1, x.X, y.X), y.V, "Select(-1, %v, %v)", x.V, y.V)
					}
				}
				ok(t, al[i].X, al[i].V, "operand %v after use", al[i].V)
				t.State(f.Name, "bin", al[i].V)
			}
			t.Trans(4 * k)
		})
	}
	r.Case(f.Name+"/unary", func(t *lib.T) {
		al := f.Alphabet(level, r.Seed)
		half := new(big.Int).ModInverse(big.NewInt(2), q)
		qh := new(big.Int).Rsh(q, 1)
		heavy := len(al)/150 + 1
		for i, x := range al {
			ok(t, nw().Neg(x.X), new(big.Int).Neg(x.V), "-%v", x.V)
			ok(t, f.Square(nw(), x.X), new(big.Int).Mul(x.V, x.V), "%v^2", x.V)
			ok(t, f.Double(nw(), x.X), new(big.Int).Lsh(x.V, 1), "2*%v", x.V)
			ok(t, nw().Set(x.X), x.V, "Set(%v)", x.V)
			h := nw().Set(x.X)
			f.Halve(h)
			ok(t, h, new(big.Int).Mul(x.V, half), "%v/2", x.V)
			for _, m := range []struct {
				k int64
				g func(E)
			}{{3, f.MulBy3}, {5, f.MulBy5}, {13, f.MulBy13}} {
				z := nw().Set(x.X)
				m.g(z)
				ok(t, z, new(big.Int).Mul(x.V, big.NewInt(m.k)), "MulBy%d(%v)", m.k, x.V)
			}
			z := nw().Set(x.X)
			ok(t, z.Neg(z), new(big.Int).Neg(x.V), "z=%v; z.Neg(z)", x.V)
			z = nw().Set(x.X)
			ok(t, f.Square(z, z), new(big.Int).Mul(x.V, x.V), "z=%v; z.Square(z)", x.V)
			z = nw().Set(x.X)
			ok(t, f.Double(z, z), new(big.Int).Lsh(x.V, 1), "z=%v; z.Double(z)", x.V)
			z = nw().Set(x.X)
			ok(t, z.Add(z, z), new(big.Int).Lsh(x.V, 1), "z=%v; z.Add(z, z)", x.V)
			z = nw().Set(x.X)
			ok(t, z.Sub(z, z), new(big.Int), "z=%v; z.Sub(z, z)", x.V)
			z = nw().Set(x.X)
			ok(t, z.Mul(z, z), new(big.Int).Mul(x.V, x.V), "z=%v; z.Mul(z, z)", x.V)
			t.Check(f.IsZero(x.X) == (x.V.Sign() == 0) && f.IsOne(x.X) == (x.V.Cmp(big.NewInt(1)) == 0), "IsZero/IsOne(%v)", x.V)
			t.Check(f.LexLargest(x.X) == (x.V.Cmp(qh) > 0), "LexicographicallyLargest(%v)", x.V)
			if i%heavy == 0 || i < 40 {
				inv := new(big.Int)
				if x.V.Sign() != 0 {
					inv.ModInverse(x.V, q)
				}
				ok(t, nw().Inverse(x.X), inv, "1/%v", x.V)
				z = nw().Set(x.X)
				ok(t, z.Inverse(z), inv, "z=%v; z.Inverse(z)", x.V)
				y := al[(i*7+3)%len(al)]
				ok(t, f.Div(nw(), y.X, x.X), new(big.Int).Mul(y.V, inv), "%v / %v", y.V, x.V)
				leg := big.Jacobi(x.V, q)
				t.Check(f.Legendre(x.X) == leg, "Legendre(%v) = %d", x.V, f.Legendre(x.X))
				if i%(3*heavy) == 0 {
					var s E
					func() {
						defer func() {
							if e := recover(); e != nil {
								t.Failf("Sqrt(%v) panicked: %v", x.V, e)
							}
						}()
						s = f.Sqrt(nw(), x.X)
					}()
					isNil := fmt.Sprintf("%p", any(s)) == "0x0" || fmt.Sprintf("%v", any(s)) == "<nil>"
					t.Check(isNil == (leg < 0), "Sqrt(%v): root exists: %v, root returned: %v", x.V, leg >= 0, !isNil)
					if !isNil {
						ok(t, f.Square(nw(), s), x.V, "Sqrt(%v)^2", x.V)
					}
				}
			}
			t.Trans(18)
			t.State(f.Name, "un", x.V)
		}
	})
	r.Case(f.Name+"/exp", func(t *lib.T) {
		al := f.Alphabet(0, r.Seed)
		es := []uint64{0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 63, 255, 256, 257, 65535, 65537, 1 << 31, 1<<32 - 1, 1 << 32, 1<<33 + 1, 1<<63 - 1, 1 << 63, ^uint64(0) - 1, ^uint64(0)}
		for i := 0; i < len(al); i += len(al)/24 + 1 {
			x := al[i]
			for _, e := range es {
				want := new(big.Int).Exp(x.V, new(big.Int).SetUint64(e), q)
				ok(t, bignum.Exp(x.X, e), want, "bignum.Exp(%v, %d)", x.V, e)
				ok(t, x.X, x.V, "base %v after bignum.Exp", x.V)
				ok(t, f.Exp(nw(), x.X, new(big.Int).SetUint64(e)), want, "Exp(%v, %d)", x.V, e)
				t.Trans(2)
				t.State(f.Name, "exp", x.V, e)
			}
			for _, e := range []*big.Int{q, new(big.Int).Sub(q, big.NewInt(1)), new(big.Int).Sub(q, big.NewInt(2)), new(big.Int).Lsh(q, 3)} {
				ok(t, f.Exp(nw(), x.X, e), new(big.Int).Exp(x.V, e, q), "Exp(%v, %v)", x.V, e)
			}
			for _, e := range []int64{-1, -2, -5} {
				if x.V.Sign() != 0 {
					w := new(big.Int).Exp(new(big.Int).ModInverse(x.V, q), big.NewInt(-e), q)
					ok(t, f.Exp(nw(), x.X, big.NewInt(e)), w, "Exp(%v, %d)", x.V, e)
				}
			}
		}
	})
	r.Case(f.Name+"/vector", func(t *lib.T) {
		al := f.Alphabet(level, r.Seed)
		at := func(i int) zpx.El[E] { return al[i%len(al)] }
		lens := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 64, 65, 100, 511, 512, 513, 600}
		for _, n := range lens {
			for off := range 6 {
				a, b := make([]E, n), make([]E, n)
				av, bv := make([]*big.Int, n), make([]*big.Int, n)
				for i := range n {
					x, y := at(i*3+off*17), at(i*5+off*29+1)
					if off == 5 { // the largest sums
						x, y = at(6), at(6)
						for k := range al {
							if al[k].V.Cmp(new(big.Int).Sub(q, big.NewInt(1))) == 0 {
								x, y = al[k], al[k]
							}
						}
					}
					a[i], b[i], av[i], bv[i] = x.X, y.X, x.V, y.V
				}
				c := at(off*31 + 2)
				all := func(what string, o []E, g func(i int) *big.Int) {
					t.Check(len(o) == n, "%s: length", what)
					for i := range o {
						ok(t, o[i], g(i), "%s of %d elements, entry %d (%v, %v)", what, n, i, av[i], bv[i])
					}
				}
				add := func(i int) *big.Int { return new(big.Int).Add(av[i], bv[i]) }
				sub := func(i int) *big.Int { return new(big.Int).Sub(av[i], bv[i]) }
				mul := func(i int) *big.Int { return new(big.Int).Mul(av[i], bv[i]) }
				all("vector sum", f.VAdd(a, b), add)
				all("vector difference", f.VSub(a, b), sub)
				all("vector product", f.VMul(a, b), mul)
				all("vector sum in place", f.VAddIn(a, b), add)
				all("vector difference in place", f.VSubIn(a, b), sub)
				all("vector product in place", f.VMulIn(a, b), mul)
				all("scaled vector", f.VScale(a, c.X), func(i int) *big.Int { return new(big.Int).Mul(av[i], c.V) })
				s, p := new(big.Int), new(big.Int)
				for i := range n {
					s.Add(s, av[i])
					p.Add(p, mul(i))
				}
				ok(t, f.VSum(a), s, "sum of %d elements", n)
				ok(t, f.VInner(a, b), p, "inner product of %d elements", n)
				if n <= 40 {
					inv := f.BatchInvert(a)
					all("batch inverse", inv, func(i int) *big.Int {
						if av[i].Sign() == 0 {
							return new(big.Int)
						}
						return new(big.Int).ModInverse(av[i], q)
					})
				}
				t.Trans(10)
				t.State(f.Name, "vec", n, off)
			}
		}
		// vectors of different lengths are refused
		small := []int{1, 2, 3, 8, 15, 16, 17, 32, 33}
		for _, n := range small {
			for _, m := range small {
				if n == m {
					continue
				}
				a, b := make([]E, n), make([]E, m)
				for i := range a {
					a[i] = at(i).X
				}
				for i := range b {
					b[i] = at(i + 3).X
				}
				for what, op := range map[string]func(){
					"sum": func() { f.VAdd(a, b) }, "difference": func() { f.VSub(a, b) },
					"product": func() { f.VMul(a, b) }, "inner product": func() { f.VInner(a, b) },
				} {
					p := func() (p any) {
						defer func() { p = recover() }()
						op()
						return nil
					}()
					t.Check(p != nil, "%s of vectors of %d and %d elements is not refused", what, n, m)
				}
				t.Trans(4)
				t.State(f.Name, "len", n, m)
			}
		}
	})
}

func main() {
	lib.Main("C21", lib.Options{QuickBudget: 200 * time.Second, Assumptions: []string{
		"elements are enumerated from a word-boundary alphabet (values and Montgomery representations), not the whole field",
		"the arm64 assembly cannot run here",
	}}, func(r *lib.Run) {
		run(r, &zp110_asm.F)
		run(r, &zp110_gen.F)
		run(r, &zp220_asm.F)
		run(r, &zp220_gen.F)
		run(r, &zp440_asm.F)
		run(r, &zp440_gen.F)
		run(r, &zp880_asm.F)
		run(r, &zp880_gen.F)
		run(r, &zpj_asm.F)
		run(r, &zpj_gen.F)
		run(r, &zpbfv_asm.F)
		run(r, &zpbfv_gen.F)
		run(r, &zpmult_asm.F)
		run(r, &zpmult_gen.F)
	})
}
