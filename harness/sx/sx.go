// Package sx replaces the random source of a sampler by answers the check
// chooses. The source is found by its type (a keystream inside a uniform
// sampler), not by a field name.
package sx

import (
	"crypto/cipher"
	"encoding/binary"
	"math"
	"reflect"
	"slices"
	"unsafe"

	"github.com/sp301415/ringo-snark/math/csprng"
)

// Stream answers keystream requests with chosen words. It overwrites, so what
// the caller passes in does not matter.
type Stream struct {
	Word func(i int) uint64 // i-th word of the current execution
	Max  int                // words beyond Max are zero (unlimited when 0)
	Pos  int                // bytes answered so far
}

func (s *Stream) XORKeyStream(dst, src []byte) {
	for len(dst) > 0 {
		off := s.Pos % 8
		if s.Max > 0 && s.Pos/8 >= s.Max && off == 0 {
			clear(dst)
			s.Pos += len(dst)
			return
		}
		w := s.Word(s.Pos / 8)
		if off == 0 && len(dst) >= 8 {
			binary.LittleEndian.PutUint64(dst, w)
			dst = dst[8:]
			s.Pos += 8
			continue
		}
		dst[0] = byte(w >> (8 * off))
		dst = dst[1:]
		s.Pos++
	}
}

var streamT = reflect.TypeOf((*cipher.Stream)(nil)).Elem()
var uniT = reflect.TypeOf(csprng.UniformSampler{})

// Uniform is a uniform sampler under the check's control.
type Uniform struct {
	S     *csprng.UniformSampler
	St    *Stream
	fresh csprng.UniformSampler
}

// Reset rewinds to a fresh sampler.
func (u *Uniform) Reset() {
	*u.S = u.fresh
	u.St.Pos = 0
}

// attach sets every keystream inside the struct at p.
func attach(v reflect.Value, st *Stream) int {
	n := 0
	switch v.Kind() {
	case reflect.Struct:
		for i := range v.NumField() {
			f := v.Field(i)
			f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			if f.Type() == streamT {
				f.Set(reflect.ValueOf(cipher.Stream(st)))
				n++
				continue
			}
			n += attach(f, st)
		}
	}
	return n
}

// NewUniform returns a controlled uniform sampler, or nil when the source
// cannot be replaced.
func NewUniform(st *Stream) *Uniform {
	s := csprng.NewUniformSampler()
	if attach(reflect.ValueOf(s).Elem(), st) != 1 {
		return nil
	}
	u := &Uniform{S: s, St: st, fresh: *s}
	// the source must really be the one that answers
	ok := false
	old := st.Word
	st.Word = func(i int) uint64 { ok = true; return 0x0123456789abcdef * uint64(i+1) }
	a := s.Sample()
	st.Word = old
	u.Reset()
	if !ok || a == 0 {
		return nil
	}
	return u
}

// Inject replaces every uniform sampler reachable from x (a pointer to a
// sampler) by u's. It reports how many it replaced.
func Inject(x any, u *Uniform) int {
	return inject(reflect.ValueOf(x).Elem(), u, 0)
}

func inject(v reflect.Value, u *Uniform, depth int) int {
	if depth > 4 || v.Kind() != reflect.Struct {
		return 0
	}
	n := 0
	for i := range v.NumField() {
		f := v.Field(i)
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		switch {
		case f.Type() == reflect.PointerTo(uniT):
			f.Set(reflect.ValueOf(u.S))
			n++
		case f.Type() == uniT:
			return -1000 // embedded by value: cannot be shared
		case f.Kind() == reflect.Pointer && !f.IsNil() && f.Type().Elem().Kind() == reflect.Struct:
			n += inject(f.Elem(), u, depth+1)
		case f.Kind() == reflect.Struct:
			n += inject(f, u, depth+1)
		}
	}
	return n
}

// Lattice answers the i-th word of execution k by k*g_i + o_i: a rank-one
// lattice that is equidistributed in every coordinate and bit range.
type Lattice struct{ K uint64 }

var gens [256]uint64
var offs [256]uint64

func init() {
	// odd multipliers from the fractional parts of square roots of primes
	p, n := 2, 0
	for n < len(gens) {
		prime := true
		for d := 2; d*d <= p; d++ {
			if p%d == 0 {
				prime = false
			}
		}
		if prime {
			f := math.Sqrt(float64(p))
			f -= math.Floor(f)
			x := uint64(f*(1<<53)) << 11
			x ^= mix(uint64(p)) >> 40
			gens[n] = x | 1
			offs[n] = mix(uint64(p) * 77)
			n++
		}
		p++
	}
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

// Mix is a fixed bijection on words.
func Mix(x uint64) uint64 { return mix(x) }

func (l *Lattice) Word(i int) uint64 {
	i %= len(gens) / 2
	// the low and the high bits come from independent coordinates
	hi := l.K*gens[2*i] + offs[2*i]
	lo := (l.K*gens[2*i+1] + offs[2*i+1]) >> 52
	return hi&^0xfff | lo
}

// Phi is the standard normal distribution function.
func Phi(x float64) float64 { return 0.5 * math.Erfc(-x/math.Sqrt2) }

// Explore runs f on k points of the lattice of random words.
func Explore(u *Uniform, k, words int, f func() int64, visit func(x int64)) {
	l := &Lattice{}
	u.St.Word, u.St.Max = l.Word, words
	for p := range k {
		l.K = uint64(p)
		u.Reset()
		visit(f())
	}
}

// CDF collects outcomes.
type CDF struct {
	C map[int64]int
	N int
}

func NewCDF() *CDF { return &CDF{C: map[int64]int{}} }

func (d *CDF) Add(x int64) { d.C[x]++; d.N++ }

// Dist returns the largest distance between the distribution function of the
// outcomes and F, and the largest distance between the probability of a
// single outcome and F's.
func (d *CDF) Dist(F func(x int64) float64) (sup float64, at int64, point float64) {
	var xs []int64
	for x := range d.C {
		xs = append(xs, x)
	}
	slices.Sort(xs)
	cum := 0
	see := func(v float64, x int64) {
		if math.Abs(v) > sup {
			sup, at = math.Abs(v), x
		}
	}
	for _, x := range xs {
		see(float64(cum)/float64(d.N)-F(x-1), x-1)
		p := float64(d.C[x])/float64(d.N) - (F(x) - F(x-1))
		point = max(point, math.Abs(p))
		cum += d.C[x]
		see(float64(cum)/float64(d.N)-F(x), x)
	}
	return
}

// Gauss returns the distribution function of the discrete Gaussian.
func Gauss(center, sigma float64) func(x int64) float64 {
	lo := int64(math.Floor(center - 14*sigma - 2))
	hi := int64(math.Ceil(center + 14*sigma + 2))
	if hi-lo > 1<<22 { // indistinguishable from the continuous one
		return func(x int64) float64 { return Phi((float64(x) + 0.5 - center) / sigma) }
	}
	cum := make([]float64, hi-lo+1)
	s := 0.0
	for x := lo; x <= hi; x++ {
		d := (float64(x) - center) / sigma
		s += math.Exp(-d * d / 2)
		cum[x-lo] = s
	}
	return func(x int64) float64 {
		switch {
		case x < lo:
			return 0
		case x > hi:
			return 1
		}
		return cum[x-lo] / s
	}
}
