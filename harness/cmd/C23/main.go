// C23: the uniform sampler.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"slices"
	"time"

	"github.com/sp301415/ringo-snark/math/csprng"
	"github.com/sp301415/ringo-snark/zzverif/lib"
	"github.com/sp301415/ringo-snark/zzverif/sx"
)

func main() {
	lib.Main("C23", lib.Options{QuickBudget: 100 * time.Second, Assumptions: []string{
		"the keystream is treated as an environment answer; AES-CTR itself is trusted",
	}}, func(r *lib.Run) {
		r.Case("seeded/determinism", func(t *lib.T) {
			var prev [][]byte
			for n := 0; n <= 70; n++ {
				for p := range 3 {
					seed := make([]byte, n)
					for i := range seed {
						seed[i] = byte(i * p)
					}
					if p == 1 && n > 0 {
						seed[n-1] = 0xff
					}
					if p == 2 && n > 0 {
						seed[0] ^= 0x80
					}
					if n == 0 && p > 0 {
						continue
					}
					a, b := csprng.NewUniformSamplerWithSeed(seed), csprng.NewUniformSamplerWithSeed(append([]byte(nil), seed...))
					x, y := make([]byte, 64), make([]byte, 64)
					k, err := a.Read(x)
					t.Check(k == 64 && err == nil, "Read returned %d, %v", k, err)
					b.Read(y)
					t.Check(bytes.Equal(x, y), "the same seed %x gives different streams", seed)
					for _, o := range prev {
						t.Check(!bytes.Equal(o, x), "two seeds give the same stream (%x)", seed)
					}
					prev = append(prev, x)
					for range 2100 {
						t.Check(a.Sample() == b.Sample(), "the same seed %x gives different samples", seed)
					}
					t.Trans(4200)
					t.State("seed", n, p)
				}
			}
			// a seed is read once, not kept
			seed := []byte{1, 2, 3}
			a, b := csprng.NewUniformSamplerWithSeed(seed), csprng.NewUniformSamplerWithSeed([]byte{1, 2, 3})
			seed[0] = 9
			t.Check(a.Sample() == b.Sample(), "changing the seed slice later changes the stream")
			c, d := csprng.NewUniformSampler(), csprng.NewUniformSampler()
			t.Check(c.Sample() != d.Sample() || c.Sample() != d.Sample(), "two unseeded samplers give the same stream")
		})
		r.Case("seeded/read", func(t *lib.T) {
			// what Read returns does not depend on what the buffer held before,
			// nor on how the stream is cut into pieces
			ref := make([]byte, 9000)
			csprng.NewUniformSamplerWithSeed([]byte("s")).Read(ref)
			for _, n := range []int{0, 1, 7, 8, 9, 64, 1000, 8191, 8192, 8193, 9000} {
				for f := range 3 {
					p := make([]byte, n)
					for i := range p {
						p[i] = byte([]int{0, 0xff, i}[f])
					}
					k, err := csprng.NewUniformSamplerWithSeed([]byte("s")).Read(p)
					t.Check(k == n && err == nil, "Read(%d bytes) returned %d, %v", n, k, err)
					t.Check(bytes.Equal(p, ref[:n]), "Read of %d bytes into a used buffer differs from the stream", n)
					s := csprng.NewUniformSamplerWithSeed([]byte("s"))
					q := make([]byte, n)
					for i := 0; i < n; {
						m := min(n-i, 1+i%97)
						s.Read(q[i : i+m])
						i += m
					}
					t.Check(bytes.Equal(q, ref[:n]), "Read of %d bytes in pieces differs from the stream", n)
					t.Trans(2)
					t.State("read", n, f)
				}
			}
			t.Check(!bytes.Equal(ref[:64], make([]byte, 64)), "the stream is zero")
		})
		ops := []string{"sample", "read16", "read24", "read8192", "read8200", "float", "sampleN"}
		depth := 4
		if r.Thorough {
			depth = 6
		}
		for first := range ops {
			r.Case("history/"+ops[first], func(t *lib.T) {
				// every history of operations: no part of the stream is used twice
				st := &sx.Stream{Word: func(i int) uint64 { return sx.Mix(uint64(i)) }}
				u := sx.NewUniform(st)
				if u == nil {
					t.Outcome("source not replaceable")
					return
				}
				where := map[uint64]int{}
				for i := range 9 * 1025 * depth {
					where[sx.Mix(uint64(i))] = i
				}
				idx := make([]int, depth)
				idx[0] = first
				for {
					u.Reset()
					used := map[int]string{}
					for k, o := range idx {
						// warm up to just before a refill on the first step
						if k == 1 {
							for range (idx[depth-1] * 171) % 1030 {
								w, ok := where[u.S.Sample()]
								t.Check(ok && used[w] == "", "sample does not come from unused stream words")
								used[w] = "warm"
							}
						}
						take := func(b []byte) {
							for i := 0; i+8 <= len(b); i += 8 {
								w, ok := where[binary.LittleEndian.Uint64(b[i:])]
								t.Check(ok, "%s at step %d of %v returned bytes that are not from the stream", ops[o], k, idx)
								t.Check(used[w] == "", "%s at step %d of %v reuses stream bytes already returned by %s", ops[o], k, idx, used[w])
								used[w] = ops[o]
							}
						}
						switch ops[o] {
						case "sample":
							var b [8]byte
							binary.LittleEndian.PutUint64(b[:], u.S.Sample())
							take(b[:])
						case "read16":
							b := bytes.Repeat([]byte{0xaa}, 16)
							u.S.Read(b)
							take(b)
						case "read24":
							b := make([]byte, 24)
							u.S.Read(b)
							take(b)
						case "read8192":
							b := make([]byte, 8192)
							u.S.Read(b)
							take(b)
						case "read8200":
							b := make([]byte, 8200)
							u.S.Read(b)
							take(b)
						case "float":
							f := u.S.SampleFloat()
							t.Check(f >= 0 && f < 1, "SampleFloat = %v", f)
						case "sampleN":
							t.Check(u.S.SampleN(10) < 10, "SampleN(10)")
						}
						t.Trans(1)
					}
					t.State("history", idx)
					t.Trace(1)
					i := 1
					for ; i < depth; i++ {
						idx[i]++
						if idx[i] < len(ops) {
							break
						}
						idx[i] = 0
					}
					if i >= depth {
						break
					}
				}
			})
		}
		var ns []uint64
		for n := uint64(1); n <= 130; n++ {
			ns = append(ns, n)
		}
		for b := 7; b < 64; b++ {
			ns = append(ns, 1<<b-1, 1<<b, 1<<b+1, 3<<(b-1)+1)
		}
		ns = append(ns, math.MaxUint64, math.MaxUint64-1, math.MaxUint64/2, math.MaxUint64/2+1, math.MaxUint64/3, math.MaxUint64/3+1, math.MaxUint64/3*2)
		const parts = 8
		for part := range parts {
			r.Case(fmt.Sprintf("range/%d", part), func(t *lib.T) {
				var script uint64
				st := &sx.Stream{Word: func(i int) uint64 {
					if i == 0 {
						return script
					}
					return sx.Mix(uint64(i))
				}}
				u := sx.NewUniform(st)
				if u == nil {
					t.Outcome("source not replaceable")
					return
				}
				for k, n := range ns {
					if k%parts == part && n > 1 {
						rangeOf(t, u, &script, n)
					}
					if n == 1 {
						u.Reset()
						t.Check(u.S.SampleN(1) == 0, "SampleN(1) is not 0")
					}
				}
			})
		}
		r.Case("float", func(t *lib.T) {
			var w uint64
			st := &sx.Stream{Max: 4, Word: func(i int) uint64 { return w }}
			u := sx.NewUniform(st)
			if u == nil {
				t.Outcome("source not replaceable")
				return
			}
			f := func(x uint64) float64 {
				w = x
				u.Reset()
				t.Trans(1)
				v := u.S.SampleFloat()
				t.Check(v >= 0 && v < 1, "SampleFloat = %v for the word %x", v, x)
				return v
			}
			// The result is a sum of one weight per bit of the word; the weights
			// are the distinct negative powers of two: exactly uniform.
			z := f(0)
			t.Check(z == 0, "SampleFloat of the zero word = %v", z)
			wt := make([]float64, 64)
			seen := map[float64]bool{}
			for b := range 64 {
				wt[b] = f(1<<b) - z
				if wt[b] != 0 {
					fr, _ := math.Frexp(wt[b])
					t.Check(fr == 0.5 && !seen[wt[b]], "bit %d of the word contributes %v", b, wt[b])
					seen[wt[b]] = true
				}
			}
			t.Check(len(seen) >= 48, "only %d bits of the word matter", len(seen))
			for k := 1; k <= len(seen); k++ {
				t.Check(seen[math.Ldexp(1, -k)], "no bit of the word contributes 2^-%d", k)
			}
			check := func(x uint64) {
				s := 0.0
				for b := range 64 {
					if x>>b&1 == 1 {
						s += wt[b]
					}
				}
				t.Check(f(x) == s, "SampleFloat of %x = %v, want %v", x, f(x), s)
				t.State("float", x)
			}
			for a := range 64 {
				for b := range 64 {
					check(1<<a | 1<<b)
					check(^(uint64(1)<<a | 1<<b))
				}
			}
			for k := range 5000 {
				check(sx.Mix(uint64(k)))
			}
		})
	})
}

// rangeOf decides whether SampleN(n) is exactly uniform. The map from the first
// word to its value (or to a rejection) is decided for the three shapes such a
// map can reasonably have: residues, masked words, and monotone maps.
func rangeOf(t *lib.T, u *sx.Uniform, word *uint64, n uint64) {
	memo := map[uint64][2]uint64{}
	// call answers the value and whether the first word alone decided it.
	call := func(w uint64) (v uint64, accepted bool) {
		if m, ok := memo[w]; ok {
			return m[0], m[1] == 1
		}
		*word = w
		u.Reset()
		v = u.S.SampleN(n)
		accepted = u.S.Sample() == sx.Mix(1)
		t.Trans(1)
		t.Check(v < n, "SampleN(%d) = %d for the source word %d", n, v, w)
		memo[w] = [2]uint64{v, 0}
		if accepted {
			memo[w] = [2]uint64{v, 1}
		}
		return
	}
	top := math.MaxUint64 - math.MaxUint64%n
	mask := uint64(math.MaxUint64) >> bits.LeadingZeros64(n-1)
	var cand []uint64
	for d := uint64(0); d < 6; d++ {
		for _, c := range []uint64{0, n, 2 * n, 3 * n, top, top - n, math.MaxUint64, 1 << 63, 1 << 32, mask, 2 * mask, 3 * mask, mask + n} {
			cand = append(cand, c+d, c-d)
		}
	}
	cand = append(cand, n/2, n-1, n/3)
	for i := range uint64(64) {
		cand = append(cand, sx.Mix(i)^n)
	}
	slices.Sort(cand)
	residue, masked, mono := true, true, true
	last, rejected := uint64(0), 0
	for _, w := range cand {
		v, ok := call(w)
		t.State("n", n, w)
		if !ok {
			rejected++
			continue
		}
		residue = residue && v == w%n
		masked = masked && v == w&mask
		mono = mono && v >= last
		last = v
	}
	pow2 := n&(n-1) == 0
	switch {
	case residue:
		// the accepted words have to be a multiple of n many: find their end
		_, ok := call(0)
		t.Check(ok, "SampleN(%d) rejects the word 0", n)
		if _, ok := call(math.MaxUint64); ok {
			t.Check(pow2, "SampleN(%d) accepts every word, but 2^64 is not a multiple of %d", n, n)
			return
		}
		lo, hi := uint64(0), uint64(math.MaxUint64)
		for hi-lo > 1 {
			m := lo + (hi-lo)/2
			if v, ok := call(m); ok {
				t.Check(v == m%n, "SampleN(%d) of %d = %d", n, m, v)
				lo = m
			} else {
				hi = m
			}
		}
		t.Check(hi%n == 0, "SampleN(%d) accepts the words below %d, which is not a multiple of %d: small values are likelier", n, hi, n)
		t.Check(hi >= math.MaxUint64/2, "SampleN(%d) accepts only the words below %d", n, hi)
		for _, w := range cand {
			_, ok := call(w)
			t.Check(ok == (w < hi), "SampleN(%d): the word %d is accepted: %v, but the words up to %d are", n, w, ok, hi)
		}
		t.Outcome("residues")
	case masked:
		for _, w := range cand {
			_, ok := call(w)
			t.Check(ok == (w&mask < n), "SampleN(%d): the word %d is accepted: %v", n, w, ok)
		}
		t.Outcome("masked words")
	case mono:
		// the words of a value form an interval, of which a few at its ends may
		// be rejected: every value must have as many accepted words
		at := func(w uint64) uint64 {
			for d := uint64(0); d < 6 && w+d >= d; d++ {
				if v, ok := call(w + d); ok {
					return v
				}
			}
			return n
		}
		// edge is the first word whose value is at least v
		edge := func(v uint64) (uint64, bool) {
			if v == 0 {
				return 0, true
			}
			lo, hi := uint64(0), uint64(math.MaxUint64)
			if at(hi) < v {
				return 0, false
			}
			for hi-lo > 1 {
				m := lo + (hi-lo)/2
				if at(m) < v {
					lo = m
				} else {
					hi = m
				}
			}
			return hi, true
		}
		first := uint64(0)
		for i, v := range []uint64{0, 1, 2, 3, n / 4, n / 3, n / 2, n/2 + 1, n / 3 * 2, n - 3, n - 2, n - 1} {
			if v >= n {
				continue
			}
			lo, ok := edge(v)
			hi, ok2 := edge(v + 1)
			t.Check(ok, "SampleN(%d) never gives %d", n, v)
			size := hi - lo // modulo 2^64, the last interval may end there
			if !ok2 {
				size = -lo
			}
			cnt := size
			seen := map[uint64]bool{}
			for d := uint64(0); d < 8; d++ {
				for _, w := range []uint64{lo + d, lo + size - 1 - d} {
					if w-lo < size && !seen[w] {
						seen[w] = true
						if _, ok := call(w); !ok {
							cnt--
							rejected++
						}
					}
				}
			}
			if i == 0 {
				first = cnt
			}
			t.Check(cnt == first, "SampleN(%d): the value %d has %d source words, the value 0 has %d", n, v, cnt, first)
		}
		t.Check(pow2 || rejected > 0, "SampleN(%d) rejects nothing", n)
		t.Outcome("monotone")
	default:
		t.Outcome("another map: only the range is decided")
	}
}
