// C05: what Commit returns: the opening holds the polynomial, is short, and
// the commitment is its image under the key.
package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"time"

	bexp "github.com/sp301415/ringo-snark/buckler/zzexp"
	"github.com/sp301415/ringo-snark/jindo"
	jexp "github.com/sp301415/ringo-snark/jindo/zzexp"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zzverif/jx"
	"github.com/sp301415/ringo-snark/zzverif/lib"
	"github.com/tuneinsight/lattigo/v6/ring"
)

func vec[E bignum.Uint[E]](rng *lib.Rng, pat, n int) []E {
	v := make([]E, n)
	for i := range v {
		switch pat {
		case 0:
			v[i] = jx.El[E](0)
		case 1:
			v[i] = jx.El[E](-1)
		case 2:
			v[i] = jx.El[E](int64(i) + 1)
		case 3:
			v[i] = jx.El[E](0)
			if i == n-1 {
				v[i] = jx.El[E](-1)
			}
		default:
			b := make([]byte, 120)
			rng.Read(b)
			v[i] = jx.ElB[E](new(big.Int).SetBytes(b))
		}
	}
	return v
}

func maxAbs(c []*big.Int) float64 {
	m := 0.0
	for i := range c {
		f, _ := new(big.Float).SetInt(c[i]).Float64()
		m = max(m, math.Abs(f))
	}
	return m
}

const tail = 12 // standard deviations

func check[E bignum.Uint[E]](t *lib.T, what string, params jindo.Parameters, ck *jindo.CommitKey, v []E, com *jindo.Commitment, o *jindo.Opening) {
	q := jx.Order[E]()
	r := params.RingQ()
	cs := params.Cols() * params.Slots()
	// shape
	ok := len(o.Encode) == params.Cols()+1 && len(o.MLWE) == params.Cols()+1 && len(o.InCommit) == params.InCommitDecomposeLen() && len(com.Value) == params.OutMSISRank()
	for i := range o.Encode {
		ok = ok && len(o.Encode[i]) == params.Rows()
	}
	for i := range o.MLWE {
		ok = ok && len(o.MLWE[i]) == params.MLWERank()+params.InMSISRank()
	}
	if !ok {
		t.Failf("%s: the opening has the wrong shape", what)
		return
	}
	// content: sum of the rows at X^(row*cs), the last row at X
	got := make([]*big.Int, params.Rank()+cs+1)
	for i := range got {
		got[i] = new(big.Int)
	}
	b := float64(params.Base())
	for c := range params.Cols() {
		for k := range params.Rows() {
			co := jx.Coeffs(r, o.Encode[c][k])
			sd := params.EcdStdDev()
			if k == 0 {
				sd = params.EcdBlindStdDev()
			}
			m := maxAbs(co)
			t.Check(m <= tail*(b+1)*sd+b, "%s: encoding %d,%d has a coefficient of %.4g, with deviation %.4g", what, c, k, m, (b+1)*sd)
			d := jx.Decode(params, co, q)
			for s := range d {
				at := k*cs + c*params.Slots() + s
				if k == params.Rows()-1 {
					at = 1 + c*params.Slots() + s
				}
				got[at].Add(got[at], d[s])
			}
		}
	}
	for i := range got {
		want := new(big.Int)
		if i < len(v) {
			want = jx.B(v[i])
		}
		t.Check(got[i].Mod(got[i], q).Cmp(want) == 0, "%s: coefficient %d of the committed polynomial is %v, not %v", what, i, got[i], want)
	}
	// masks and MLWE terms are short
	for k := range params.Rows() {
		sd := params.MaskStdDev()
		if k == 0 {
			sd = params.MaskBlindStdDev()
		}
		m := maxAbs(jx.Coeffs(r, o.Encode[params.Cols()][k]))
		t.Check(m <= tail*(b+1)*sd+b, "%s: mask %d has a coefficient of %.4g, with deviation %.4g", what, k, m, (b+1)*sd)
	}
	for c := range o.MLWE {
		sd := params.MLWEStdDev()
		if c == params.Cols() {
			sd = params.MaskMLWEStdDev()
		}
		for k := range o.MLWE[c] {
			m := maxAbs(jx.Coeffs(r, o.MLWE[c][k]))
			t.Check(m <= tail*sd+1, "%s: MLWE term %d,%d has a coefficient of %.4g, with deviation %.4g", what, c, k, m, sd)
		}
	}
	// images under the key
	ri, ro := params.RingQ(), params.RingQOut()
	for i, w := range jx.InnerImages(params, ck, o) {
		g := jx.Coeffs(ro, o.InCommit[i])
		k := jx.HighParts(ri.Modulus(), g, w, params.LogInCutOff())
		t.Check(k < 0, "%s: coefficient %d of inner commitment %d is not the high part of its image, rounded to nearest", what, k, i)
	}
	for i, w := range jx.OuterImages(params, ck, o) {
		k := jx.HighParts(ro.Modulus(), jx.Coeffs(ro, com.Value[i]), w, params.OutCutOff())
		t.Check(k < 0, "%s: coefficient %d of commitment component %d is not the high part of its image, rounded to nearest", what, k, i)
	}
	t.Trans(1)
	t.Trace(1)
	t.State(what, jx.B(ringHash(com)))
	t.Outcome("well-formed")
}

func ringHash(com *jindo.Commitment) *lib.F62 {
	var buf bytes.Buffer
	com.WriteRawTo(&buf)
	var z *lib.F62
	return z.New().SetBytes(buf.Bytes())
}

func field[E bignum.Uint[E]](r *lib.Run, name string, Ns, ts []int) {
	for _, N := range Ns {
		for _, tt := range ts {
			for pat := range 5 {
				r.Case(fmt.Sprintf("open/%s/N%d/t%d/%d", name, N, tt, pat), func(t *lib.T) {
					params := jindo.NewParameters[E](N, tt)
					crs := []byte("C05" + name)
					ck := jindo.NewCommitKey(params, crs)
					prv := jindo.NewProver[E](params, crs)
					cp := prv.SafeCopy()
					rng := lib.NewRng(t.ID, r.Seed)
					cs := params.Cols() * params.Slots()
					lens := map[int]bool{0: true, 1: true, params.Slots(): true, params.Slots() + 1: true, cs - 1: true, cs: true, cs + 1: true,
						(params.Rows() - 2) * cs: true, (params.Rows()-2)*cs + 1: true, params.Rank() - params.Slots(): true, params.Rank() - 1: true, params.Rank(): true, N: true}
					for L := range params.Rank() + 1 {
						if !lens[L] {
							continue
						}
						v := vec[E](rng, pat, L)
						keep := jx.Clone(v)
						com, o := prv.Commit(v)
						check(t, fmt.Sprintf("length %d", L), params, ck, v, com, o)
						com, o = cp.Commit(v)
						check(t, fmt.Sprintf("length %d, copied prover", L), params, ck, v, com, o)
						for i := range v {
							t.Check(v[i].Cmp(keep[i]) == 0, "length %d: Commit changed entry %d of its input", L, i)
						}
					}
					p, _ := lib.Try(func() { prv.Commit(vec[E](rng, 2, params.Rank()+1)) })
					t.Check(p, "a vector longer than the rank is committed")
				})
			}
		}
	}
}

// large: shapes with many rows and columns.
func large[E bignum.Uint[E]](r *lib.Run, name string, N int, fracs []int) {
	for _, fr := range fracs {
		r.Case(fmt.Sprintf("large/%s/N%d/%d", name, N, fr), func(t *lib.T) {
			params := jindo.NewParameters[E](N, 1)
			crs := []byte("C05" + name)
			v := vec[E](lib.NewRng(t.ID, r.Seed), 2, params.Rank()*fr/4)
			com, o := jindo.NewProver[E](params, crs).Commit(v)
			check(t, fmt.Sprintf("length %d", len(v)), params, jindo.NewCommitKey(params, crs), v, com, o)
			t.Sample("%d rows, %d columns", params.Rows(), params.Cols())
		})
	}
}

func polys(ck *jindo.CommitKey) (names []string, p []ring.Poly) {
	for n, m := range map[string][][]ring.Poly{"In": ck.In, "MLWE": ck.MLWE, "Out": ck.Out} {
		for i := range m {
			for j := range m[i] {
				names = append(names, fmt.Sprint(n, i, j))
				p = append(p, m[i][j])
			}
		}
	}
	return
}

func find(n string, names []string, p []ring.Poly) *ring.Poly {
	for i := range names {
		if names[i] == n {
			return &p[i]
		}
	}
	return nil
}

func keys[E bignum.Uint[E]](r *lib.Run, name string, N, tt int) {
	r.Case(fmt.Sprintf("key/%s/N%d/t%d", name, N, tt), func(t *lib.T) {
		params := jindo.NewParameters[E](N, tt)
		crss := [][]byte{nil, {0}, {0, 0}, {1}, {1, 0}, {0, 1}, []byte("a"), []byte("b"), []byte("ab"), bytes.Repeat([]byte{7}, 31), bytes.Repeat([]byte{7}, 32), bytes.Repeat([]byte{7}, 33), bytes.Repeat([]byte{7}, 300),
			append(bytes.Repeat([]byte{7}, 299), 8)}
		var ks []*jindo.CommitKey
		// no value of a large modulus is used twice, up to sign, within a key or
		// under two reference strings
		used := map[uint64]bool{}
		again := 0
		for _, c := range crss {
			buf := append([]byte(nil), c...)
			a := jindo.NewCommitKey(params, buf)
			for i := range buf {
				buf[i] ^= 0xff
			}
			b := jindo.NewCommitKey(params, append([]byte(nil), c...))
			na, pa := polys(a)
			nb, pb := polys(b)
			t.Check(len(na) == len(nb), "the same CRS gives keys of different shapes")
			for i := range na {
				o := find(na[i], nb, pb)
				t.Check(o != nil && o.Equal(&pa[i]), "CRS %x: key component %s is not determined by the CRS", c, na[i])
			}
			var ra, rb bytes.Buffer
			a.WriteRawTo(&ra)
			b.WriteRawTo(&rb)
			t.Check(bytes.Equal(ra.Bytes(), rb.Bytes()), "CRS %x: what the key writes depends on later changes of the caller's buffer", c)
			ks = append(ks, a)
			t.Trans(2)
			// distinct, reduced and spread components
			for i := range pa {
				for j := range i {
					t.Check(!pa[i].Equal(&pa[j]), "CRS %x: key components %s and %s are equal", c, na[i], na[j])
				}
				rg := params.RingQ()
				if na[i][0] == 'O' {
					rg = params.RingQOut()
				}
				t.Check(len(pa[i].Coeffs) == len(rg.SubRings), "key component %s has %d moduli", na[i], len(pa[i].Coeffs))
				// uniform modulo the whole product as well
				if len(rg.SubRings) > 1 {
					// as the transform of a uniform polynomial is uniform, both
					// the coefficients and the values are
					for _, raw := range []bool{false, true} {
						p := pa[i]
						if raw {
							p = rg.NewPoly()
							rg.MForm(pa[i], p)
							rg.NTT(p, p)
						}
						co := jx.Coeffs(rg, p)
						small, pos := 0, 0
						for k := range co {
							if co[k].BitLen() < rg.Modulus().BitLen()-10 {
								small++
							}
							if co[k].Sign() > 0 {
								pos++
							}
						}
						n := len(co)
						t.Check(small < n/16 && pos > n/4 && pos < 3*n/4, "key component %s is not uniform: of %d coefficients %d are small and %d in the lower half", na[i], n, small, pos)
					}
				}
				for l, s := range rg.SubRings {
					if s.Modulus > 1<<50 {
						for _, x := range pa[i].Coeffs[l] {
							if used[x] || used[s.Modulus-x] {
								again++
							}
							used[x] = true
						}
					}
					hi := 0
					seen := map[uint64]bool{}
					for _, x := range pa[i].Coeffs[l] {
						t.Check(x < s.Modulus, "key component %s holds %d, with modulus %d", na[i], x, s.Modulus)
						if x > s.Modulus/2 {
							hi++
						}
						seen[x] = true
					}
					n := len(pa[i].Coeffs[l])
					t.Check(n == rg.N() && hi > n/4 && hi < 3*n/4 && len(seen) > n*9/10, "key component %s is not uniform: %d of %d in the upper half, %d distinct", na[i], hi, n, len(seen))
				}
				t.State(t.ID, string(c), na[i])
			}
		}
		for i := range ks {
			var ri bytes.Buffer
			ks[i].WriteRawTo(&ri)
			for j := range i {
				same := 0
				for k := range ks[i].In {
					for l := range ks[i].In[k] {
						if ks[i].In[k][l].Equal(&ks[j].In[k][l]) {
							same++
						}
					}
				}
				for k := range ks[i].MLWE {
					for l := range ks[i].MLWE[k] {
						if ks[i].MLWE[k][l].Equal(&ks[j].MLWE[k][l]) {
							same++
						}
					}
				}
				for k := range ks[i].Out {
					for l := range ks[i].Out[k] {
						if ks[i].Out[k][l].Equal(&ks[j].Out[k][l]) {
							same++
						}
					}
				}
				t.Check(same == 0, "CRS %x and %x share %d key components", crss[i], crss[j], same)
				var rj bytes.Buffer
				ks[j].WriteRawTo(&rj)
				t.Check(!bytes.Equal(ri.Bytes(), rj.Bytes()), "the keys of CRS %x and %x write the same", crss[i], crss[j])
			}
		}
		t.Check(again < 20, "%d key values are used again", again)
		t.Outcome("keys distinct")
	})
}

// serial checks that what a commitment writes identifies it.
func serial(r *lib.Run) {
	r.Case("serial", func(t *lib.T) {
		type E = *lib.F62
		params := jindo.NewParameters[E](40, 1)
		prv := jindo.NewProver[E](params, []byte("serial"))
		com, _ := prv.Commit(vec[E](lib.NewRng("s", 1), 2, 40))
		raw := func(c *jindo.Commitment) string {
			var b bytes.Buffer
			c.WriteRawTo(&b)
			return b.String()
		}
		seen := map[string]string{raw(com): "original"}
		for i := range com.Value {
			for l := range com.Value[i].Coeffs {
				for k := range com.Value[i].Coeffs[l] {
					c := jx.CopyCom(com)
					c.Value[i].Coeffs[l][k] = (c.Value[i].Coeffs[l][k] + 1) % params.RingQOut().SubRings[l].Modulus
					s := raw(c)
					id := fmt.Sprintf("change %d,%d,%d", i, l, k)
					t.Check(seen[s] == "", "commitments %s and %s write the same", seen[s], id)
					seen[s] = id
					t.State(id)
					t.Trans(1)
				}
			}
		}
		t.Check(raw(jx.CopyCom(com)) == raw(com), "equal commitments write differently")
	})
}

func main() {
	lib.Main("C05", lib.Options{QuickBudget: 100 * time.Second, Assumptions: []string{
		"lengths at every boundary of slots, columns and rows; 12 standard deviations as the limit of shortness",
	}}, func(r *lib.Run) {
		field[*lib.F62](r, "F62", []int{1, 33, 1100}, []int{1, 2})
		field[*lib.F257](r, "F257", []int{1, 600}, []int{1})
		field[*lib.F12289](r, "F12289", []int{600}, []int{1})
		field[*lib.F17](r, "F17", []int{130}, []int{1})
		field[*lib.F60K4](r, "F60K4", []int{300}, []int{3})
		field[*jexp.Uint255](r, "Uint255", []int{100}, []int{1})
		field[*bexp.Uint110](r, "Uint110", []int{100}, []int{1})
		field[*bexp.Uint440](r, "Uint440", []int{40}, []int{2})
		if r.Thorough {
			field[*lib.F62](r, "F62", []int{32, 64, 500, 5000}, []int{1, 3})
			field[*lib.F60K2](r, "F60K2", []int{1, 300}, []int{1, 2})
			field[*lib.F147457](r, "F147457", []int{1, 300}, []int{1, 2})
			field[*jexp.Uint255](r, "Uint255", []int{1, 1000}, []int{1, 2})
			field[*bexp.Uint220](r, "Uint220", []int{1, 200}, []int{1, 2})
			field[*bexp.Uint880](r, "Uint880", []int{1, 60}, []int{1, 2})
		}
		keys[*lib.F62](r, "F62", 33, 1)
		keys[*lib.F62](r, "F62", 1100, 2)
		keys[*jexp.Uint255](r, "Uint255", 100, 1)
		keys[*lib.F62](r, "F62", 40, 3)
		if r.Thorough {
			keys[*jexp.Uint255](r, "Uint255", 3000, 4)
			keys[*bexp.Uint440](r, "Uint440", 40, 2)
		}
		large[*lib.F62](r, "F62", 1<<13, []int{3, 4})
		keys[*lib.F62](r, "F62", 1<<13, 1)
		serial(r)
	})
}
