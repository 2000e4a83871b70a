// Package zpx describes a generated field package as a value, so that one
// check drives all of them.
package zpx

import (
	"io"
	"math/big"

	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zzverif/lib"
)

type Field[E bignum.Uint[E]] struct {
	Name                                               string
	Limbs, Bits, Bytes                                 int
	Modulus                                            func() *big.Int
	Raw                                                func([]uint64) E
	Limb                                               func(E) []uint64
	New                                                func(uint64) E
	One                                                func() E
	Square, Double                                     func(z, x E) E
	Halve                                              func(z E)
	Div                                                func(z, x, y E) E
	Exp                                                func(z, x E, k *big.Int) E
	Sqrt                                               func(z, x E) E
	Legendre                                           func(x E) int
	Select                                             func(z E, c int, a, b E) E
	SetZero, SetOne                                    func(z E) E
	Equal                                              func(x, y E) bool
	NotEqual                                           func(x, y E) uint64
	IsZero, IsOne, IsUint64, FitsOnOneWord, LexLargest func(x E) bool
	Uint64                                             func(x E) uint64
	BitLen                                             func(x E) int
	CanonBits                                          func(x E) []uint64
	ToBytes                                            func(x E) []byte
	SetBytesCanonical                                  func(z E, b []byte) error
	SetString                                          func(z E, s string) (E, error)
	String                                             func(x E) string
	Text                                               func(x E, b int) string
	MarshalJSON                                        func(x E) ([]byte, error)
	UnmarshalJSON                                      func(x E, b []byte) error
	SetInterface                                       func(z E, v any) (E, error)
	SetRandom                                          func(z E) (E, error)
	BEGet, LEGet                                       func(b []byte) (E, error)
	BEPut, LEPut                                       func(x E) []byte
	Butterfly                                          func(a, b E)
	MulBy3, MulBy5, MulBy13                            func(x E)
	BatchInvert                                        func(a []E) []E
	VAdd, VSub, VMul, VAddIn, VSubIn, VMulIn           func(a, b []E) []E
	VScale                                             func(a []E, c E) []E
	VSum                                               func(a []E) E
	VInner                                             func(a, b []E) E
	VMarshal                                           func(a []E) ([]byte, error)
	VUnmarshal                                         func(b []byte) ([]E, error)
	VWrite                                             func(a []E, w io.Writer) (int64, error)
	Hash                                               func(msg, dst []byte, n int) ([]E, error)
	VString                                            func(a []E) string
	VSort                                              func(a []E) []E
	VEqual                                             func(a, b []E) bool
	VRandom                                            func(n int) ([]E, error)
	VMustRandom                                        func(n int) []E
	VRead, VAsync                                      func(r io.Reader) ([]E, int64, error)
}

// El is one element of the alphabet with its reference value.
type El[E any] struct {
	X E
	V *big.Int
}

// LimbsOf splits into words.
func LimbsOf(x *big.Int, n int) []uint64 {
	o := make([]uint64, n)
	t := new(big.Int).Set(x)
	m := new(big.Int).SetUint64(^uint64(0))
	for i := range o {
		o[i] = new(big.Int).And(t, m).Uint64()
		t.Rsh(t, 64)
	}
	return o
}

// OfLimbs joins words.
func OfLimbs(l []uint64) *big.Int {
	x := new(big.Int)
	for i := len(l) - 1; i >= 0; i-- {
		x.Lsh(x, 64)
		x.Or(x, new(big.Int).SetUint64(l[i]))
	}
	return x
}

// RInv is the inverse of the Montgomery radix.
func (f *Field[E]) RInv() *big.Int {
	r := new(big.Int).Lsh(big.NewInt(1), uint(64*f.Limbs))
	return r.ModInverse(r, f.Modulus())
}

// Val is the value of an element, computed from its words (Montgomery form).
func (f *Field[E]) Val(x E) *big.Int {
	v := OfLimbs(f.Limb(x))
	v.Mul(v, f.RInv())
	return v.Mod(v, f.Modulus())
}

// Alphabet returns elements at the word boundaries of both the value and its
// Montgomery representation: every representation whose words come from
// {0, 1, 2^63, 2^64-1, q_i-1, q_i, q_i+1} with at most two of them outside
// a uniform background, the neighbourhoods of 0, q/2, q and of the powers of
// 2^32 of the values, and dense ones.
func (f *Field[E]) Alphabet(level int, seed int) []El[E] {
	q := f.Modulus()
	n := f.Limbs
	ql := LimbsOf(q, n)
	r := new(big.Int).Lsh(big.NewInt(1), uint(64*n))
	rinv := f.RInv()
	seen := map[string]bool{}
	var out []El[E]
	raw := func(m *big.Int) { // m is the representation
		if m.Sign() < 0 || m.Cmp(q) >= 0 || seen[m.String()] {
			return
		}
		seen[m.String()] = true
		v := new(big.Int).Mul(m, rinv)
		out = append(out, El[E]{f.Raw(LimbsOf(m, n)), v.Mod(v, q)})
	}
	val := func(v *big.Int) {
		v = new(big.Int).Mod(v, q)
		m := new(big.Int).Mul(v, r)
		raw(m.Mod(m, q))
	}
	near := func(c *big.Int, d int64) {
		for k := -d; k <= d; k++ {
			x := new(big.Int).Add(c, big.NewInt(k))
			val(x)
			raw(x)
		}
	}
	near(new(big.Int), 3)
	near(q, 3)
	near(new(big.Int).Rsh(q, 1), 2)
	near(r, 1)
	near(new(big.Int).Mul(r, r), 0)
	for b := 32; b < q.BitLen(); b += 32 {
		if level == 0 && b%64 != 0 && b > 64 {
			continue
		}
		near(new(big.Int).Lsh(big.NewInt(1), uint(b)), 1)
	}
	bg := []func(i int) uint64{
		func(i int) uint64 { return 0 },
		func(i int) uint64 { return ^uint64(0) },
		func(i int) uint64 { return ql[i] },
	}
	pat := func(i int) []uint64 {
		p := []uint64{0, ^uint64(0), ql[i] - 1, ql[i] + 1}
		if level > 0 {
			p = append(p, 1, 1<<63, ql[i])
		}
		return p
	}
	for _, b := range bg {
		base := make([]uint64, n)
		for i := range base {
			base[i] = b(i)
		}
		put := func(l []uint64) {
			x := OfLimbs(l)
			if x.Cmp(q) >= 0 {
				// bring the top word into range
				l[n-1] = ql[n-1] - 1
				x = OfLimbs(l)
			}
			raw(x)
		}
		put(append([]uint64(nil), base...))
		for i := range n {
			for _, a := range pat(i) {
				l := append([]uint64(nil), base...)
				l[i] = a
				put(l)
				if level == 0 && n > 4 {
					continue
				}
				for j := range i {
					for _, c := range pat(j) {
						m := append([]uint64(nil), base...)
						m[i], m[j] = a, c
						put(m)
					}
				}
			}
		}
	}
	rng := lib.NewRng(f.Name, seed)
	buf := make([]byte, 8*n+8)
	for range 12 {
		rng.Read(buf)
		val(new(big.Int).SetBytes(buf))
	}
	return out
}
