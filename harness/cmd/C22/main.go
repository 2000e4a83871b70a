// C22: conversions and serialization of field elements and vectors.
package main

import (
	"bytes"
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"testing/iotest"
	"time"

	zp110_asm "github.com/sp301415/ringo-snark/buckler/zza_zp110_asm"
	zp220_asm "github.com/sp301415/ringo-snark/buckler/zza_zp220_asm"
	zp440_asm "github.com/sp301415/ringo-snark/buckler/zza_zp440_asm"
	zp880_asm "github.com/sp301415/ringo-snark/buckler/zza_zp880_asm"
	zpbfv_asm "github.com/sp301415/ringo-snark/examples/bfv/zza_zpbfv_asm"
	zpmult_asm "github.com/sp301415/ringo-snark/examples/mult/zza_zpmult_asm"
	zpj_asm "github.com/sp301415/ringo-snark/jindo/zza_zpj_asm"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zzverif/lib"
	"github.com/sp301415/ringo-snark/zzverif/zpx"
	zp110_gen "github.com/sp301415/ringo-snark/zzverif/zza_zp110_gen"
	zp220_gen "github.com/sp301415/ringo-snark/zzverif/zza_zp220_gen"
	zp440_gen "github.com/sp301415/ringo-snark/zzverif/zza_zp440_gen"
	zp880_gen "github.com/sp301415/ringo-snark/zzverif/zza_zp880_gen"
	zpbfv_gen "github.com/sp301415/ringo-snark/zzverif/zza_zpbfv_gen"
	zpj_gen "github.com/sp301415/ringo-snark/zzverif/zza_zpj_gen"
	zpmult_gen "github.com/sp301415/ringo-snark/zzverif/zza_zpmult_gen"
)

type tape struct {
	data []byte
	n    int
}

func (p *tape) Read(b []byte) (int, error) {
	for i := range b {
		if p.n < len(p.data) {
			b[i] = p.data[p.n]
		} else {
			b[i] = 0
		}
		p.n++
	}
	return len(b), nil
}

// expand is expand_message_xmd of RFC 9380 with SHA-256.
func expand(msg, dst []byte, n int) []byte {
	d := append(append([]byte(nil), dst...), byte(len(dst)))
	in := append(make([]byte, 64), msg...)
	in = append(append(in, byte(n>>8), byte(n), 0), d...)
	b0 := sha256.Sum256(in)
	var out []byte
	prev := [32]byte{}
	for i := byte(1); len(out) < n || i == 1; i++ {
		x := make([]byte, 32)
		for j := range x {
			x[j] = b0[j] ^ prev[j]
		}
		prev = sha256.Sum256(append(append(x, i), d...))
		out = append(out, prev[:]...)
	}
	return out[:n]
}

// limited is a writer that fails once left bytes are taken.
type limited struct {
	left int
	got  []byte
}

func (w *limited) Write(b []byte) (int, error) {
	if len(b) > w.left {
		return 0, io.ErrClosedPipe
	}
	w.left -= len(b)
	w.got = append(w.got, b...)
	return len(b), nil
}

func rev(b []byte) []byte {
	o := make([]byte, len(b))
	for i := range b {
		o[len(b)-1-i] = b[i]
	}
	return o
}

func run[E bignum.Uint[E]](r *lib.Run, f *zpx.Field[E]) {
	level := 0
	if r.Thorough {
		level = 1
	}
	nw := func() E { var z E; return z.New() }
	q := f.Modulus()
	rinv := f.RInv()
	ok := func(t *lib.T, x E, v *big.Int, what string, a ...any) {
		m := zpx.OfLimbs(f.Limb(x))
		t.Check(m.Cmp(q) < 0, "%s: the result is not reduced", fmt.Sprintf(what, a...))
		m.Mul(m, rinv)
		m.Mod(m, q)
		w := new(big.Int).Mod(v, q)
		if m.Cmp(w) != 0 {
			t.Failf("%s = %v, want %v", fmt.Sprintf(what, a...), m, w)
		}
	}
	fill := func(v *big.Int) []byte { return v.FillBytes(make([]byte, f.Bytes)) }
	dirty := func() E { return f.Raw(zpx.LimbsOf(new(big.Int).Sub(q, big.NewInt(1)), f.Limbs)) }

	r.Case(f.Name+"/integers", func(t *lib.T) {
		for _, v := range []int64{0, 1, -1, 2, -2, 3, -3, 255, -255, 65535, -65535, 65536, 1 << 31, -(1 << 31), 1 << 32, 1<<53 + 1, -(1<<53 + 1), math.MaxInt64 - 1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1} {
			z := dirty()
			ok(t, z.SetInt64(v), big.NewInt(v), "SetInt64(%d)", v)
			ok(t, z, big.NewInt(v), "receiver of SetInt64(%d)", v)
			x, err := f.SetInterface(dirty(), v)
			t.Check(err == nil, "SetInterface(%d): %v", v, err)
			ok(t, x, big.NewInt(v), "SetInterface(int64 %d)", v)
			x, err = f.SetString(dirty(), fmt.Sprint(v))
			t.Check(err == nil, "SetString(%d): %v", v, err)
			ok(t, x, big.NewInt(v), "SetString(%d)", v)
			t.Trans(3)
			t.State(f.Name, "i", v)
		}
		for _, v := range []uint64{0, 1, 2, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<63 + 1, math.MaxUint64 - 1, math.MaxUint64} {
			b := new(big.Int).SetUint64(v)
			ok(t, dirty().SetUint64(v), b, "SetUint64(%d)", v)
			ok(t, f.New(v), b, "NewUint(%d)", v)
			x, err := f.SetInterface(dirty(), v)
			t.Check(err == nil, "SetInterface(%d): %v", v, err)
			ok(t, x, b, "SetInterface(uint64 %d)", v)
			if b.Cmp(q) < 0 {
				t.Check(f.IsUint64(x) && f.Uint64(x) == v, "Uint64 of %d", v)
			}
			t.Trans(3)
			t.State(f.Name, "u", v)
		}
		var bs []*big.Int
		for _, c := range []*big.Int{new(big.Int), q, new(big.Int).Rsh(q, 1), new(big.Int).Lsh(q, 1), new(big.Int).Mul(q, q), new(big.Int).Lsh(big.NewInt(1), uint(64*f.Limbs)), new(big.Int).Lsh(big.NewInt(1), uint(f.Bits)), new(big.Int).Lsh(big.NewInt(1), 64), new(big.Int).Lsh(big.NewInt(1), 63), new(big.Int).Lsh(big.NewInt(1), 4096)} {
			for d := int64(-2); d <= 2; d++ {
				x := new(big.Int).Add(c, big.NewInt(d))
				bs = append(bs, x, new(big.Int).Neg(x))
			}
		}
		for _, e := range f.Alphabet(level, r.Seed) {
			bs = append(bs, e.V, new(big.Int).Sub(e.V, q), new(big.Int).Add(e.V, q))
		}
		for _, v := range bs {
			keep := new(big.Int).Set(v)
			ok(t, dirty().SetBigInt(v), v, "SetBigInt(%v)", v)
			t.Check(v.Cmp(keep) == 0, "SetBigInt changed its argument %v", keep)
			t.Trans(1)
			t.State(f.Name, "b", v)
			x, err := f.SetString(dirty(), "0x"+new(big.Int).Abs(v).Text(16))
			t.Check(err == nil, "SetString(hex of %v): %v", v, err)
			ok(t, x, new(big.Int).Abs(v), "SetString(hex of %v)", v)
			x, err = f.SetInterface(dirty(), v)
			t.Check(err == nil, "SetInterface(%v)", v)
			ok(t, x, v, "SetInterface(big %v)", v)
		}
		for _, s := range []string{"", "x", "0x", "12q", "--1", " 1"} {
			_, err := f.SetString(nw(), s)
			t.Check(err != nil, "SetString(%q) is accepted", s)
		}
		for v := -128; v < 256; v += 5 {
			for _, w := range []any{int8(v), int16(v), int16(v * 127), int32(v), int32(v << 23), int(v), int(v << 54), int64(v) << 55, uint8(v), uint16(v), uint32(v), uint(v), uint64(v), big.NewInt(int64(v)), *big.NewInt(int64(v)), fmt.Sprint(v), binary.BigEndian.AppendUint64([]byte{1, 2}, uint64(v))} {
				var want *big.Int
				switch u := w.(type) {
				case *big.Int:
					want = u
				case big.Int:
					want = &u
				case []byte:
					want = new(big.Int).SetBytes(u)
				default:
					want, _ = new(big.Int).SetString(fmt.Sprint(w), 10)
				}
				want = new(big.Int).Set(want)
				z := dirty()
				x, err := f.SetInterface(z, w)
				t.Check(err == nil, "SetInterface(%T %v): %v", w, w, err)
				ok(t, x, want, "SetInterface(%T %v)", w, w)
				ok(t, z, want, "receiver of SetInterface(%T %v)", w, w)
				t.Trans(1)
			}
		}
		for _, e := range f.Alphabet(level, r.Seed) {
			x, err := f.SetInterface(dirty(), e.X)
			t.Check(err == nil, "SetInterface(element): %v", err)
			ok(t, x, e.V, "SetInterface(element %v)", e.V)
			x, err = f.SetInterface(dirty(), reflect.ValueOf(e.X).Elem().Interface())
			t.Check(err == nil, "SetInterface(element value): %v", err)
			ok(t, x, e.V, "SetInterface(element value %v)", e.V)
			for _, form := range []string{"%d", "0x%x", "0X%X", "0b%b", "0o%o", "-%d", "+%d", "-0x%x"} {
				s := fmt.Sprintf(form, e.V)
				want, _ := new(big.Int).SetString(s, 0)
				if want == nil {
					panic(s)
				}
				x, err = f.SetString(dirty(), s)
				t.Check(err == nil, "SetString(%s): %v", s, err)
				ok(t, x, want, "SetString(%s)", s)
				for _, js := range []string{s, "\"" + s + "\""} {
					z := dirty()
					err = f.UnmarshalJSON(z, []byte(js))
					if len(js) > 3*f.Bits {
						t.Check(err != nil, "UnmarshalJSON of %d bytes is accepted", len(js))
						continue
					}
					t.Check(err == nil, "UnmarshalJSON(%s): %v", js, err)
					ok(t, z, want, "UnmarshalJSON(%s)", js)
				}
				t.Trans(3)
			}
		}
		for _, js := range []string{"", "\"\"", "null", "true", "{}", "[1]", "1.5", "\"x\"", strings.Repeat("1", 3*f.Bits+1)} {
			t.Check(f.UnmarshalJSON(nw(), []byte(js)) != nil, "UnmarshalJSON(%.20s) is accepted", js)
		}
		js := strings.Repeat("1", 3*f.Bits)
		want, _ := new(big.Int).SetString(js, 10)
		z := dirty()
		t.Check(f.UnmarshalJSON(z, []byte(js)) == nil, "UnmarshalJSON of %d digits is refused", len(js))
		ok(t, z, want, "UnmarshalJSON of %d digits", len(js))
		var null E
		_, err := f.SetInterface(nw(), null)
		t.Check(err != nil, "SetInterface(nil element) is accepted")
		_, err = f.SetInterface(nw(), (*big.Int)(nil))
		t.Check(err != nil, "SetInterface(nil integer) is accepted")
		_, err = f.SetInterface(nw(), 1.5)
		t.Check(err != nil, "SetInterface(float) is accepted")
		_, err = f.SetInterface(nw(), nil)
		t.Check(err != nil, "SetInterface(nil) is accepted")
	})
	r.Case(f.Name+"/bytes", func(t *lib.T) {
		for n := 0; n <= 3*f.Bytes+3; n++ {
			for p := range 5 {
				b := make([]byte, n)
				for i := range b {
					switch p {
					case 1:
						b[i] = 0xff
					case 2:
						b[i] = byte(i + 1)
					case 3:
						if i == 0 {
							b[i] = 0x80
						}
					case 4:
						if i == n-1 {
							b[i] = 1
						}
					}
				}
				keep := append([]byte(nil), b...)
				v := new(big.Int).SetBytes(b)
				ok(t, dirty().SetBytes(b), v, "SetBytes(%x)", b)
				t.Check(bytes.Equal(b, keep), "SetBytes changed its argument")
				z := dirty()
				z.Unmarshal(b)
				ok(t, z, v, "Unmarshal(%x)", b)
				err := f.SetBytesCanonical(nw(), b)
				t.Check((err == nil) == (n == f.Bytes && v.Cmp(q) < 0), "SetBytesCanonical(%x): %v", b, err)
				t.Trans(3)
				t.State(f.Name, "bytes", n, p)
			}
		}
		qb := q.FillBytes(make([]byte, f.Bytes))
		for d := int64(-2); d <= 2; d++ {
			v := new(big.Int).Add(new(big.Int).SetBytes(qb), big.NewInt(d))
			b := fill(v)
			err := f.SetBytesCanonical(nw(), b)
			t.Check((err == nil) == (d < 0), "SetBytesCanonical(q%+d): %v", d, err)
			_, err = f.BEGet(b)
			t.Check((err == nil) == (d < 0), "BigEndian.Element(q%+d): %v", d, err)
			_, err = f.LEGet(rev(b))
			t.Check((err == nil) == (d < 0), "LittleEndian.Element(q%+d): %v", d, err)
			ok(t, nw().SetBytes(b), v, "SetBytes(q%+d)", d)
		}
		for i := range f.Limbs {
			// one word above the order, the others below
			l := zpx.LimbsOf(q, f.Limbs)
			if l[i] != ^uint64(0) {
				l[i]++
				for j := range i {
					l[j] = 0
				}
			}
			b := fill(zpx.OfLimbs(l))
			_, err := f.BEGet(b)
			t.Check(err != nil, "BigEndian.Element of a value above the order (word %d) is accepted", i)
			_, err = f.LEGet(rev(b))
			t.Check(err != nil, "LittleEndian.Element of a value above the order (word %d) is accepted", i)
		}
	})
	r.Case(f.Name+"/roundtrip", func(t *lib.T) {
		al := f.Alphabet(level, r.Seed)
		for _, x := range al {
			b := fill(x.V)
			t.Check(bytes.Equal(x.X.Marshal(), b), "Marshal(%v) = %x", x.V, x.X.Marshal())
			t.Check(bytes.Equal(f.ToBytes(x.X), b), "Bytes(%v) = %x", x.V, f.ToBytes(x.X))
			t.Check(bytes.Equal(f.BEPut(x.X), b) && bytes.Equal(f.LEPut(x.X), rev(b)), "PutElement(%v)", x.V)
			z := dirty()
			z.Unmarshal(b)
			ok(t, z, x.V, "Unmarshal(Marshal(%v))", x.V)
			z = dirty()
			t.Check(f.SetBytesCanonical(z, b) == nil, "SetBytesCanonical(%v) refused", x.V)
			ok(t, z, x.V, "SetBytesCanonical(%v)", x.V)
			y, err := f.BEGet(b)
			t.Check(err == nil, "BigEndian.Element(%v): %v", x.V, err)
			ok(t, y, x.V, "BigEndian.Element(%v)", x.V)
			y, err = f.LEGet(rev(b))
			t.Check(err == nil, "LittleEndian.Element(%v): %v", x.V, err)
			ok(t, y, x.V, "LittleEndian.Element(%v)", x.V)
			res := new(big.Int).SetInt64(-77)
			g := x.X.BigInt(res)
			t.Check(g.Cmp(x.V) == 0 && res.Cmp(x.V) == 0, "BigInt(%v) = %v", x.V, g)
			t.Check(x.X.Limb() == f.Limbs, "Limb() = %d", x.X.Limb())
			sl := make([]uint64, f.Limbs)
			for i := range sl {
				sl[i] = 0xdeadbeef
			}
			x.X.Slice(sl)
			t.Check(zpx.OfLimbs(sl).Cmp(x.V) == 0, "Slice(%v) = %x", x.V, sl)
			t.Check(zpx.OfLimbs(f.CanonBits(x.X)).Cmp(x.V) == 0, "Bits(%v)", x.V)
			ok(t, x.X, x.V, "%v after being read", x.V)
			if x.V.IsUint64() {
				t.Check(f.IsUint64(x.X) && f.Uint64(x.X) == x.V.Uint64(), "Uint64(%v)", x.V)
			} else {
				t.Check(!f.IsUint64(x.X), "IsUint64(%v)", x.V)
			}
			for _, base := range []int{2, 3, 10, 16, 36} {
				s, good := new(big.Int).SetString(f.Text(x.X, base), base)
				t.Check(good && new(big.Int).Mod(s, q).Cmp(x.V) == 0, "Text(%v, %d) = %s", x.V, base, f.Text(x.X, base))
			}
			y, err = f.SetString(dirty(), f.String(x.X))
			t.Check(err == nil, "SetString(String(%v)): %v", x.V, err)
			ok(t, y, x.V, "SetString(String(%v))", x.V)
			js, err := f.MarshalJSON(x.X)
			t.Check(err == nil, "MarshalJSON(%v): %v", x.V, err)
			z = dirty()
			t.Check(f.UnmarshalJSON(z, js) == nil, "UnmarshalJSON(%s)", js)
			ok(t, z, x.V, "UnmarshalJSON(MarshalJSON(%v))", x.V)
			ok(t, x.X, x.V, "%v after being written", x.V)
			t.Trans(16)
			t.State(f.Name, "rt", x.V)
		}
		ok(t, f.SetZero(dirty()), new(big.Int), "SetZero")
		ok(t, f.SetOne(dirty()), big.NewInt(1), "SetOne")
	})
	r.Case(f.Name+"/vectors", func(t *lib.T) {
		al := f.Alphabet(0, r.Seed)
		for _, n := range []int{0, 1, 2, 3, 7, 8, 9, 31, 33, 100} {
			a := make([]E, n)
			v := make([]*big.Int, n)
			var want []byte
			want = binary.BigEndian.AppendUint32(want, uint32(n))
			for i := range a {
				e := al[(i*7+n)%len(al)]
				a[i], v[i] = e.X, e.V
				want = append(want, fill(e.V)...)
			}
			same := func(what string, o []E) {
				t.Check(len(o) == n, "%s: %d elements, want %d", what, len(o), n)
				for i := range o {
					ok(t, o[i], v[i], "%s element %d", what, i)
				}
			}
			b, err := f.VMarshal(a)
			t.Check(err == nil && bytes.Equal(b, want), "MarshalBinary of %d elements", n)
			var w bytes.Buffer
			k, err := f.VWrite(a, &w)
			t.Check(err == nil && bytes.Equal(w.Bytes(), want) && k == int64(len(want)), "WriteTo of %d elements", n)
			o, err := f.VUnmarshal(want)
			t.Check(err == nil, "UnmarshalBinary of %d elements: %v", n, err)
			same("UnmarshalBinary", o)
			tail := append(append([]byte(nil), want...), 1, 2, 3)
			rd := bytes.NewReader(tail)
			o, k, err = f.VRead(rd)
			t.Check(err == nil && k == int64(len(want)) && rd.Len() == 3, "ReadFrom of %d elements: %v, %d bytes", n, err, k)
			same("ReadFrom", o)
			rd = bytes.NewReader(tail)
			o, k, err = f.VAsync(rd)
			t.Check(err == nil && k == int64(len(want)) && rd.Len() == 3, "AsyncReadFrom of %d elements: %v, %d bytes", n, err, k)
			same("AsyncReadFrom", o)
			o, k, err = f.VRead(iotest.OneByteReader(bytes.NewReader(tail)))
			t.Check(err == nil && k == int64(len(want)), "ReadFrom of %d elements byte by byte: %v, %d bytes", n, err, k)
			same("ReadFrom byte by byte", o)
			o, k, err = f.VAsync(iotest.HalfReader(bytes.NewReader(tail)))
			t.Check(err == nil && k == int64(len(want)), "AsyncReadFrom of %d elements in halves: %v, %d bytes", n, err, k)
			same("AsyncReadFrom in halves", o)
			for cut := 0; cut < len(want); cut += 1 + len(want)/60 {
				lw := &limited{left: cut}
				_, err = f.VWrite(a, lw)
				t.Check(err != nil && bytes.Equal(lw.got, want[:len(lw.got)]), "WriteTo a writer failing after %d of %d bytes: %v", cut, len(want), err)
				_, _, err = f.VRead(bytes.NewReader(want[:cut]))
				t.Check(err != nil, "ReadFrom of %d of %d bytes is accepted", cut, len(want))
				t.Trans(2)
			}
			// every truncation, and every element replaced by the order
			for cut := 0; cut < len(want); cut += 1 + len(want)/60 {
				_, err = f.VUnmarshal(want[:cut])
				t.Check(err != nil, "UnmarshalBinary of %d of %d bytes is accepted", cut, len(want))
				_, _, err = f.VAsync(bytes.NewReader(want[:cut]))
				t.Check(err != nil, "AsyncReadFrom of %d of %d bytes is accepted", cut, len(want))
				t.Trans(2)
			}
			for i := range n {
				bad := append([]byte(nil), want...)
				copy(bad[4+i*f.Bytes:], fill(q))
				_, err = f.VUnmarshal(bad)
				t.Check(err != nil, "UnmarshalBinary accepts the order as element %d", i)
				_, _, err = f.VAsync(bytes.NewReader(bad))
				t.Check(err != nil, "AsyncReadFrom accepts the order as element %d", i)
				t.Trans(2)
			}
			t.State(f.Name, "vec", n)
		}
	})
	r.Case(f.Name+"/collections", func(t *lib.T) {
		al := f.Alphabet(0, r.Seed)
		for _, n := range []int{0, 1, 2, 3, 5, 17, 64} {
			for off := range 9 {
				a := make([]E, n)
				v := make([]*big.Int, n)
				str := "["
				for i := range a {
					e := al[(i*(off+3)+off*off+n)%len(al)]
					a[i], v[i] = e.X, e.V
					if i > 0 {
						str += ","
					}
					str += f.String(e.X)
				}
				t.Check(f.VString(a) == str+"]", "String of %v is %s", v, f.VString(a))
				o := f.VSort(a)
				s := append([]*big.Int(nil), v...)
				sort.Slice(s, func(i, j int) bool { return s[i].Cmp(s[j]) < 0 })
				for i := range s {
					ok(t, o[i], s[i], "sorted %v, element %d", v, i)
				}
				b := make([]E, n)
				for i := range b {
					b[i] = a[i].New().Set(a[i])
				}
				t.Check(f.VEqual(a, b), "%v is not equal to itself", v)
				for i := range b {
					b[i].Add(b[i], f.One())
					t.Check(!f.VEqual(a, b) && !f.VEqual(b, a), "%v is equal to itself plus one at %d", v, i)
					b[i].Set(a[i])
					t.Check(!f.VEqual(a, b[:i]) && !f.VEqual(b[:i], a), "%v is equal to its prefix of length %d", v, i)
				}
				t.Trans(3 + 2*n)
				t.State(f.Name, "coll", n, off)
			}
		}
	})
	r.Case(f.Name+"/hash", func(t *lib.T) {
		L := 16 + (f.Bits+7)/8
		for _, msg := range []string{"", "a", "abc", strings.Repeat("q", 64), strings.Repeat("xy", 100)} {
			for _, dst := range []string{"", "d", "QUUX-V01", strings.Repeat("z", 255), strings.Repeat("z", 256)} {
				for n := (31 + L) / L; n < 9; n++ { // the dependency's expander starts at 32 bytes
					o, err := f.Hash([]byte(msg), []byte(dst), n)
					t.Trans(1)
					t.State(f.Name, "hash", msg, dst, n)
					if len(dst) > 255 || (n*L+31)/32 > 255 {
						t.Check(err != nil, "Hash to %d elements with a domain of %d bytes is not refused", n, len(dst))
						continue
					}
					t.Check(err == nil && len(o) == n, "Hash(%q, %q, %d): %d elements, %v", msg, dst, n, len(o), err)
					u := expand([]byte(msg), []byte(dst), n*L)
					for i := range o {
						want := new(big.Int).SetBytes(u[i*L : (i+1)*L])
						ok(t, o[i], want.Mod(want, q), "Hash(%q, %q, %d) element %d", msg, dst, n, i)
					}
				}
			}
		}
	})
	r.Case(f.Name+"/random", func(t *lib.T) {
		old := rand.Reader
		defer func() { rand.Reader = old }()
		draw := func(b []byte) (E, int) {
			tp := &tape{data: b}
			rand.Reader = io.Reader(tp)
			x := dirty().MustSetRandom()
			t.Check(zpx.OfLimbs(f.Limb(x)).Cmp(q) < 0, "random element is not reduced (source bytes %x)", b)
			t.Trans(1)
			return x, tp.n
		}
		_, k := draw(nil)
		var in, out [][]byte
		bit := uint(f.Bits) % 8
		for _, e := range f.Alphabet(0, r.Seed) {
			b := rev(fill(e.V))
			in = append(in, b[:min(k, len(b))])
		}
		for d := int64(0); d < 40; d++ {
			b := rev(fill(new(big.Int).Add(q, big.NewInt(d*d))))
			out = append(out, b[:min(k, len(b))])
		}
		if bit != 0 {
			for _, b := range in[:min(len(in), 30)] { // unused bits of the source
				c := append([]byte(nil), b...)
				c[len(c)-1] |= 0xff << bit
				out = append(out, c)
			}
		}
		// a source that fails after each number of bytes must be reported
		for cut := range k {
			rand.Reader = io.LimitReader(bytes.NewReader(make([]byte, k)), int64(cut))
			_, err := f.SetRandom(dirty())
			t.Check(err != nil, "SetRandom from a source of %d of %d bytes is accepted", cut, k)
			rand.Reader = io.LimitReader(bytes.NewReader(make([]byte, 3*k)), int64(2*k+cut))
			_, err = f.VRandom(3)
			t.Check(err != nil, "random vector of 3 from a source of %d bytes is accepted", 2*k+cut)
			rand.Reader = io.LimitReader(bytes.NewReader(make([]byte, k)), int64(cut))
			p := func() (p any) {
				defer func() { p = recover() }()
				dirty().MustSetRandom()
				return nil
			}()
			t.Check(p != nil, "MustSetRandom from a source of %d of %d bytes is accepted", cut, k)
			t.Trans(3)
		}
		seen := map[string]int{}
		one := make([]E, len(in))
		for i, b := range in {
			x, n := draw(b)
			if n != k {
				t.Outcome("variable-length source")
				return
			}
			one[i] = x
			key := fmt.Sprint(f.Limb(x))
			if j, dup := seen[key]; dup {
				t.Failf("source bytes %x and %x give the same element: not uniform", in[j], b)
			}
			seen[key] = i
			t.State(f.Name, "rnd", i)
		}
		for _, n := range []int{1, 2, 3, 5, len(in)} { // a vector is n independent elements
			for off := 0; off < len(in); off += 7 {
				var b []byte
				want := map[string]int{}
				for i := range n {
					j := (off + i) % len(in)
					b = append(b, in[j]...)
					want[fmt.Sprint(f.Limb(one[j]))]++
				}
				rand.Reader = io.Reader(&tape{data: b})
				x, err := f.VRandom(n)
				t.Check(err == nil && len(x) == n, "random vector: %d elements, %v", len(x), err)
				rand.Reader = io.Reader(&tape{data: b})
				for k, v := range [][]E{x, f.VMustRandom(n)} {
					got := map[string]int{}
					for i := range v {
						got[fmt.Sprint(f.Limb(v[i]))]++
					}
					for key := range want {
						t.Check(got[key] == want[key], "random vector of %d elements (%d): %v is drawn %d times, want %d", n, k, key, got[key], want[key])
					}
				}
				t.Trans(2 * n)
				t.State(f.Name, "vrnd", n, off)
			}
		}
		for _, o := range out {
			_, n := draw(o)
			if n == k {
				continue // accepted: the unused bits were cleared
			}
			for i := 0; i < len(in); i += 1 + len(in)/20 {
				x, _ := draw(append(append([]byte(nil), o...), in[i]...))
				t.Check(f.Equal(x, one[i]), "a rejected draw %x influences the next one", o)
			}
		}
		// draws at or above the order must not be folded into the range
		for d := int64(0); d < 40; d++ {
			b := rev(fill(new(big.Int).Add(q, big.NewInt(d*d))))[:k]
			if new(big.Int).Add(q, big.NewInt(d*d)).BitLen() > f.Bits {
				continue
			}
			_, n := draw(b)
			t.Check(n > k, "a draw of q+%d is accepted", d*d)
		}
	})
}

func main() {
	lib.Main("C22", lib.Options{QuickBudget: 120 * time.Second, Assumptions: []string{
		"elements are enumerated from a word-boundary alphabet, byte strings over five patterns of every length",
	}}, func(r *lib.Run) {
		run(r, &zp110_asm.F)
		run(r, &zp110_gen.F)
		run(r, &zp220_asm.F)
		run(r, &zp220_gen.F)
		run(r, &zp440_asm.F)
		run(r, &zp440_gen.F)
		run(r, &zp880_asm.F)
		run(r, &zp880_gen.F)
		run(r, &zpj_asm.F)
		run(r, &zpj_gen.F)
		run(r, &zpbfv_asm.F)
		run(r, &zpbfv_gen.F)
		run(r, &zpmult_asm.F)
		run(r, &zpmult_gen.F)
	})
}
