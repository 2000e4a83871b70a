// C06: zero knowledge: every revealed value is blinded by randomness of its
// own.
package main

import (
	"fmt"
	"math"
	"math/big"
	"time"

	bexp "github.com/sp301415/ringo-snark/buckler/zzexp"
	"github.com/sp301415/ringo-snark/jindo"
	jexp "github.com/sp301415/ringo-snark/jindo/zzexp"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zzverif/circ"
	"github.com/sp301415/ringo-snark/zzverif/jx"
	"github.com/sp301415/ringo-snark/zzverif/lib"
)

// slots decodes an opening: [column][row][slot], masks in the last column.
func slots(params jindo.Parameters, q *big.Int, o *jindo.Opening) [][][]*big.Int {
	var out [][][]*big.Int
	for c := range o.Encode {
		var col [][]*big.Int
		for k := range o.Encode[c] {
			col = append(col, jx.Decode(params, jx.Coeffs(params.RingQ(), o.Encode[c][k]), q))
		}
		out = append(out, col)
	}
	return out
}

// draws perturbs every field draw of a commitment, one at a time. Every slot
// of the last row (but the last one) and of the masks of the rows in use must
// be blinded by a draw that blinds no other of them.
func draws[E bignum.Uint[E]](r *lib.Run, name string, N int, fracs []int) {
	for _, fr := range fracs {
		for part := range 4 {
			r.Case(fmt.Sprintf("draws/%s/N%d/len%d/%d", name, N, fr, part), func(t *lib.T) {
				params := jindo.NewParameters[E](N, 1)
				q := jx.Order[E]()
				L := params.Rank() * fr / 4
				v := make([]E, L)
				for i := range v {
					v[i] = jx.El[E](int64(i) + 5)
				}
				n := 0
				run := func(k int, add uint64) [][][]*big.Int {
					lib.Reseed("C06", 1)
					n = 0
					lib.RandTape = func(p uint64) uint64 {
						x := lib.MixWord(uint64(n)+77) % p
						if n == k {
							x = (x + add) % p
						}
						n++
						return x
					}
					prv := jindo.NewProver[E](params, []byte("C06"))
					_, o := prv.Commit(v)
					lib.RandTape = nil
					return slots(params, q, o)
				}
				base := run(-1, 0)
				total := n
				cs := params.Cols() * params.Slots()
				type slot struct{ c, k, s int }
				need := map[slot]bool{}
				for c := range params.Cols() + 1 {
					for k := range params.Rows() {
						for s := range params.Slots() {
							last := k == params.Rows()-1
							switch {
							case c == params.Cols():
								if last || k == 0 || k*cs < L {
									need[slot{c, k, s}] = true
								}
							case last && !(c == params.Cols()-1 && s == params.Slots()-1):
								need[slot{c, k, s}] = true
							}
						}
					}
				}
				have := map[slot]int{}
				for k := part; k < total; k += 4 {
					delta := []uint64{1, 2, 5, q.Uint64() - 1}[k/4%4]
					d := run(k, delta)
					var hit []slot
					for c := range d {
						for j := range d[c] {
							for s := range d[c][j] {
								df := new(big.Int).Sub(d[c][j][s], base[c][j][s])
								df.Mod(df, q)
								if df.Sign() != 0 && need[slot{c, j, s}] {
									hit = append(hit, slot{c, j, s})
									t.Check(df.Cmp(new(big.Int).SetUint64(delta)) == 0, "draw %d changed by %d: the slot %v changes by %v", k, delta, slot{c, j, s}, df)
								}
							}
						}
					}
					t.Check(len(hit) <= 1, "draw %d blinds %d slots: %v", k, len(hit), hit)
					for _, h := range hit {
						have[h]++
					}
					t.State(t.ID, k)
					t.Trans(1)
					t.Trace(1)
				}
				// the four parts together cover every slot: check the share
				// of this part against the draws it perturbed by a second
				// run that changes all other draws at once
				lib.Reseed("C06", 1)
				m := 0
				lib.RandTape = func(p uint64) uint64 {
					x := lib.MixWord(uint64(m)+77) % p
					if m%4 != part {
						x = (x + 1) % p
					}
					m++
					return x
				}
				_, o := jindo.NewProver[E](params, []byte("C06")).Commit(v)
				lib.RandTape = nil
				others := slots(params, q, o)
				for h := range need {
					moved := others[h.c][h.k][h.s].Cmp(base[h.c][h.k][h.s]) != 0
					t.Check(moved || have[h] == 1, "slot %v (column, row, slot) is not blinded by a draw of its own", h)
					t.Check(!(moved && have[h] > 0), "slot %v is blinded by several draws that also blind others", h)
				}
				t.Outcome("every slot blinded")
				t.Sample("%d draws, %d slots to blind, rows %d cols %d", total, len(need), params.Rows(), params.Cols())
			})
		}
	}
}

// noise recovers (c + fp) from a randomised encoding (X^slots - b)(c + fp).
func noise(params jindo.Parameters, co []*big.Int) []float64 {
	n, s, k := len(co), params.Slots(), params.Exp()
	b := new(big.Int).SetUint64(params.Base())
	pw := make([]*big.Int, k) // b^(k-1-i)
	pw[k-1] = big.NewInt(1)
	for i := k - 2; i >= 0; i-- {
		pw[i] = new(big.Int).Mul(pw[i+1], b)
	}
	q := new(big.Int).Exp(b, big.NewInt(int64(k)), nil)
	q.Add(q, big.NewInt(1))
	qf := new(big.Float).SetPrec(300).SetInt(q)
	out := make([]float64, n)
	for i := range out {
		a := new(big.Int)
		for j := range k {
			at, sg := i-j*s, int64(1)
			if at < 0 {
				at, sg = at+n, -1
			}
			a.Sub(a, new(big.Int).Mul(new(big.Int).Mul(pw[j], co[at]), big.NewInt(sg)))
		}
		out[i], _ = new(big.Float).Quo(new(big.Float).SetPrec(300).SetInt(a), qf).Float64()
	}
	return out
}

type series struct {
	name string
	sd   float64
	x    []float64
}

func noises[E bignum.Uint[E]](params jindo.Parameters, tag string, o *jindo.Opening, used int) (out []series) {
	r := params.RingQ()
	for c := range o.Encode {
		for k := range o.Encode[c] {
			if k >= used && k != params.Rows()-1 {
				continue
			}
			sd := params.EcdStdDev()
			switch {
			case c == params.Cols() && k == 0:
				sd = params.MaskBlindStdDev()
			case c == params.Cols():
				sd = params.MaskStdDev()
			case k == 0:
				sd = params.EcdBlindStdDev()
			}
			out = append(out, series{fmt.Sprintf("%s encoding %d,%d", tag, c, k), sd, noise(params, jx.Coeffs(r, o.Encode[c][k]))})
		}
	}
	for c := range o.MLWE {
		for k := range o.MLWE[c] {
			sd := params.MLWEStdDev()
			if c == params.Cols() {
				sd = params.MaskMLWEStdDev()
			}
			co := jx.Coeffs(r, o.MLWE[c][k])
			x := make([]float64, len(co))
			for i := range co {
				x[i], _ = new(big.Float).SetInt(co[i]).Float64()
			}
			out = append(out, series{fmt.Sprintf("%s MLWE %d,%d", tag, c, k), sd, x})
		}
	}
	return
}

// spread checks that every noise polynomial has its deviation and that no two
// are related.
func spread[E bignum.Uint[E]](r *lib.Run, name string, N, tt, coms int) {
	r.Case(fmt.Sprintf("noise/%s/N%d/t%d", name, N, tt), func(t *lib.T) {
		params := jindo.NewParameters[E](N, tt)
		prv := jindo.NewProver[E](params, []byte("C06"))
		cp := prv.SafeCopy()
		cp2 := prv.SafeCopy()
		other := jindo.NewProver[E](params, []byte("C06"))
		v := make([]E, params.Rank())
		for i := range v {
			v[i] = jx.El[E](int64(i) - 9)
		}
		var all []series
		for i, p := range []*jindo.Prover[E]{prv, prv, cp, cp2, other, cp}[:coms] {
			_, o := p.Commit(v)
			all = append(all, noises[E](params, fmt.Sprintf("commitment %d", i), o, params.Rows())...)
			t.Trans(1)
		}
		pooled := map[float64][3]float64{}
		for _, s := range all {
			n := float64(len(s.x))
			sum, sq := 0.0, 0.0
			for _, x := range s.x {
				sum += x / s.sd
				sq += x / s.sd * x / s.sd
			}
			t.Check(math.Abs(sq/n-1) < 7*math.Sqrt(2/n)+0.01, "%s has deviation %.4g, not %.4g", s.name, math.Sqrt(sq/n)*s.sd, s.sd)
			t.Check(math.Abs(sum/n) < 7/math.Sqrt(n), "%s has mean %.4g, with deviation %.4g", s.name, sum/n*s.sd, s.sd)
			a := pooled[s.sd]
			pooled[s.sd] = [3]float64{a[0] + n, a[1] + sum, a[2] + sq}
			t.State(t.ID, s.name)
		}
		for sd, a := range pooled {
			t.Check(math.Abs(a[2]/a[0]-1) < 7*math.Sqrt(2/a[0])+0.002, "noise of deviation %.6g has deviation %.6g over %v coefficients", sd, math.Sqrt(a[2]/a[0])*sd, a[0])
			t.Check(math.Abs(a[1]/a[0]) < 7/math.Sqrt(a[0]), "noise of deviation %.6g has mean %.4g", sd, a[1]/a[0]*sd)
		}
		for i := range all {
			for j := range i {
				dot := 0.0
				for k := range all[i].x {
					dot += all[i].x[k] / all[i].sd * (all[j].x[k] / all[j].sd)
				}
				n := float64(len(all[i].x))
				t.Check(math.Abs(dot/n) < 7.5/math.Sqrt(n), "%s and %s are related (%.3f)", all[i].name, all[j].name, dot/n)
			}
		}
		t.Trace(len(all))
		t.Outcome("independent noise")
	})
}

// centre checks that the noise has mean zero whatever the message: constant
// messages with one non-zero digit, or all digits at their maximum, in every
// digit position; the mean of each digit position must vanish.
func centre[E bignum.Uint[E]](r *lib.Run, name string, N int) {
	params := jindo.NewParameters[E](N, 1)
	b := new(big.Int).SetUint64(params.Base())
	k := params.Exp()
	top := new(big.Int).Sub(b, big.NewInt(1))
	msgs := []*big.Int{new(big.Int), new(big.Int)}
	names := []string{"zero", "all digits"}
	for j := range k {
		d := new(big.Int).Mul(top, new(big.Int).Exp(b, big.NewInt(int64(j)), nil))
		msgs[1].Add(msgs[1], d)
		if k <= 16 || j%5 == 0 || j == k-1 {
			msgs, names = append(msgs, d), append(names, fmt.Sprintf("digit %d", j))
		}
	}
	w := make([]float64, k) // the inverse of X^slots - b
	for j := range w {
		w[j] = math.Pow(float64(params.Base()), -float64(j+1))
	}
	for mi, m := range msgs {
		r.Case(fmt.Sprintf("centre/%s/%s", name, names[mi]), func(t *lib.T) {
			prv := jindo.NewProver[E](params, []byte("C06"))
			v := make([]E, params.Rank())
			for i := range v {
				v[i] = jx.ElB[E](m)
			}
			n := make([]float64, k)
			sum := make([]float64, k)
			f := make([]float64, params.RingQ().N())
			for n[0] < 60000 {
				_, o := prv.Commit(v)
				t.Trans(1)
				for c := range params.Cols() {
					for row := 1; row < params.Rows()-1; row++ {
						co := jx.Coeffs(params.RingQ(), o.Encode[c][row])
						for i := range co {
							f[i] = float64(co[i].Int64())
						}
						for i := range f {
							x := 0.0
							for j := range k {
								if at := i - j*params.Slots(); at >= 0 {
									x -= w[j] * f[at]
								} else {
									x += w[j] * f[at+len(f)]
								}
							}
							n[i/params.Slots()]++
							sum[i/params.Slots()] += x / params.EcdStdDev()
						}
					}
				}
			}
			for j := range k {
				t.Check(math.Abs(sum[j]) < 7*math.Sqrt(n[j]), "message %v (%s): the noise at digit %d has mean %.4f (deviation %.4g, %v samples)", m, names[mi], j, sum[j]/n[j]*params.EcdStdDev(), params.EcdStdDev(), n[j])
				t.State(t.ID, j)
			}
			t.Outcome("centred")
		})
	}
}

// zk computes the exact derivative of everything a circuit proof reveals
// along directions of the prover's random draws: its rank must be the number
// of revealed values that the verification equations leave free.
func zk(r *lib.Run, id string, rank int, mk func(q, root *big.Int) circ.Inst) {
	r.Case("zk/"+id, func(t *lib.T) {
		type E = *lib.D62
		p := lib.M62{}.P()
		q := circ.Order[E]()
		in := mk(q, circ.NTTRoot[E](rank))
		var mat [][]uint64
		want := 1
		var first []uint64
		for dir := 0; dir < want+2; dir++ {
			lib.Reseed("C06", 1)
			n := 0
			lib.DualTape = func(p uint64) (uint64, uint64) {
				n++
				return lib.MixWord(uint64(n)) % p, lib.MixWord(uint64(n)*1000003+uint64(dir)*7919+1) % p
			}
			s, err := circ.Compile[E](in.Spec, "C06")
			if err != nil {
				t.Failf("%v: %v", in.Spec, err)
				return
			}
			pf, err := s.Prv.Prove(circ.Assign[E](in.Spec, in.P, in.W))
			if err != nil {
				t.Failf("%s: %v", in.Name, err)
				return
			}
			var row, val []uint64
			for _, e := range pf.Evals {
				row, val = append(row, e.D()), append(val, e.V())
			}
			want = len(pf.Evals)
			arith := false
			for _, c := range in.Spec.Cs {
				if c.Kind != "sum" && c.Kind != "lin" {
					arith = true
				}
			}
			if arith {
				want--
			}
			for _, m := range []E{pf.LinCheckMaskSum, pf.SumCheckMaskSum} {
				if m != nil {
					// one of four polynomials is free of the equation, one is
					// a shift of another, and the mask's sum is revealed
					want--
					row, val = append(row, m.D()), append(val, m.V())
				}
			}
			if first == nil {
				first = val
				t.Check(s.Verify(in.P, pf), "%s: honest proof rejected", in.Name)
			} else {
				same := len(first) == len(val)
				for i := range val {
					same = same && first[i] == val[i]
				}
				if !same {
					t.Outcome("not reproducible")
					return
				}
			}
			mat = append(mat, row)
			t.Trans(1)
		}
		got := lib.RankMod(mat, p)
		t.Check(got >= want, "%v: %d independent random values blind what a proof reveals, where %d are needed", in.Spec, got, want)
		t.Trace(1)
		t.State(id, got, want)
		t.Outcome(fmt.Sprintf("blinded by %d", got))
		if got > want {
			t.Outcome("more than needed")
		}
	})
}

func main() {
	lib.Main("C06", lib.Options{QuickBudget: 120 * time.Second, Assumptions: []string{
		"field draws are perturbed one at a time (commitments) or differentiated exactly (circuit proofs); Gaussian noise is judged by moments and correlations of one deterministic run",
	}}, func(r *lib.Run) {
		draws[*lib.F62](r, "F62", 33, []int{0, 1, 4})
		draws[*lib.F12289](r, "F12289", 300, []int{3})
		if r.Thorough {
			draws[*lib.F62](r, "F62", 200, []int{0, 2, 3, 4})
			draws[*lib.F257](r, "F257", 600, []int{1, 4})
			draws[*lib.F60K4](r, "F60K4", 100, []int{2, 4})
		}
		spread[*lib.F62](r, "F62", 33, 1, 6)
		spread[*lib.F62](r, "F62", 300, 2, 6)
		spread[*lib.F257](r, "F257", 600, 1, 6)
		spread[*lib.F12289](r, "F12289", 300, 2, 6)
		spread[*jexp.Uint255](r, "Uint255", 60, 1, 6)
		spread[*bexp.Uint110](r, "Uint110", 100, 1, 6)
		spread[*lib.F62](r, "F62", 1<<13, 1, 1)
		if r.Thorough {
			spread[*lib.F62](r, "F62", 3000, 1, 6)
			spread[*lib.F147457](r, "F147457", 600, 1, 6)
			spread[*lib.F60K2](r, "F60K2", 600, 3, 6)
			spread[*bexp.Uint880](r, "Uint880", 40, 1, 6)
		}
		centre[*lib.F62](r, "F62", 1000)
		centre[*lib.F257](r, "F257", 2000)
		centre[*lib.F60K4](r, "F60K4", 1000)
		centre[*jexp.Uint255](r, "Uint255", 1000)
		if r.Thorough {
			centre[*lib.F12289](r, "F12289", 2000)
			centre[*lib.F60K2](r, "F60K2", 2000)
			centre[*bexp.Uint110](r, "Uint110", 1000)
			centre[*bexp.Uint440](r, "Uint440", 500)
		}
		ls := circ.Letters()
		for i, l := range ls {
			zk(r, l.Name, 4, func(q, root *big.Int) circ.Inst { return circ.Word(4, q, root, 1, i, l) })
		}
		pairs := [][]string{{"mul", "sum"}, {"inf3", "lin-shift"}, {"two3", "lin-ntt"}, {"sum", "lin-id", "mul"}, {"sumdeg3", "deg5"}, {"pubonly", "sumpub"}, {"lin-id", "lin-zero"}, {"sumzero", "sumneg", "inf0"}}
		for _, rank := range []int{2, 4, 8} {
			for _, pr := range pairs {
				zk(r, fmt.Sprintf("r%d%v", rank, pr), rank, func(q, root *big.Int) circ.Inst {
					var w []circ.Letter
					for _, n := range pr {
						w = append(w, circ.LetterByName(n))
					}
					return circ.Word(rank, q, root, 2, rank, w...)
				})
			}
		}
		if r.Thorough {
			for i, a := range ls {
				for j, b := range ls {
					zk(r, fmt.Sprintf("pair/%s/%s", a.Name, b.Name), 4, func(q, root *big.Int) circ.Inst { return circ.Word(4, q, root, i, j, a, b) })
				}
			}
		}
	})
}
