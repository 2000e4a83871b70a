// C29: the parameters NewParameters picks fit the request, are correct and
// secure by the scheme's own criteria, and it finds some whenever there are.
package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"
	"time"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/zzverif/jx"
	"github.com/sp301415/ringo-snark/zzverif/lib"
)

const (
	eta   = 6.0
	tail  = 5.0
	nMLWE = 8192
	qMax  = 240
)

type mod struct {
	b uint64
	k int
	p *big.Int
}

func (m mod) String() string { return fmt.Sprintf("%d^%d+1", m.b, m.k) }

// budget holds what the analysis of the scheme asks for with n columns.
type budget struct {
	b, k, d, l, nu, m, n, t float64
	cOne                    float64
	ecd, ecdB, msk, mskB    float64 // widths
	mlwe, mskM              float64
}

func need(f mod, N, t int, nn float64) (g budget) {
	g.b, g.k, g.t, g.n = float64(f.b), float64(f.k), float64(t), nn
	g.d = max(g.k, 256)
	g.l = g.d / g.k
	g.nu = nMLWE / g.d
	g.m = max(math.Ceil(float64(N)/(g.n*g.l)), 2)
	return g.widths()
}

func (g budget) widths() budget {
	s := (g.b + 1) / (g.b - 1) * eta
	xOne := math.Sqrt(g.k) * g.b
	g.cOne = math.Sqrt(g.k) * min(g.b, max(math.Exp2(120/g.k), 2)) / 2
	g.ecd, g.ecdB, g.msk, g.mskB = 2*s, 2*xOne*s, 2*g.cOne*s, 2*g.cOne*xOne*s
	g.mlwe, g.mskM = 2*math.Sqrt2*eta, 2*g.cOne*math.Sqrt2*eta
	return g
}

// response is the norm of an honest response, by the tail bounds.
func (g budget) response(mu float64) float64 {
	a := math.Sqrt(g.n) * g.cOne
	bt := 1.0
	if g.t > 1 {
		bt = math.Sqrt(g.t) * g.cOne
	}
	row := bt * tail * (g.b + 1) * (a*g.ecd + math.Sqrt(g.n+1)*g.msk)
	row0 := bt * tail * (g.b + 1) * (a*math.Sqrt(g.m+1)*g.ecdB + math.Sqrt((g.m+1)*g.n+1)*g.mskB)
	ml := bt * tail * (a*g.mlwe + math.Sqrt(g.n+1)*g.mskM)
	return math.Sqrt(g.d*(g.m*row*row+row0*row0) + g.d*(mu+g.nu)*ml*ml)
}

func msis(d, logQ, beta float64) float64 {
	lb := math.Log2(beta)
	return lb * lb / (4 * d * logQ * math.Log2(1.005))
}

func limbs(log float64) float64 {
	log = math.Ceil(log)
	n := math.Ceil(log / 60)
	return n * math.Ceil(log/n)
}

// feasible reports whether n columns allow parameters at all.
func (g budget) feasible() bool {
	ext, one := 1.0, 1.0
	if g.t > 1 {
		ext, one = (2*g.cOne)*(2*g.cOne), 2*g.cOne
	}
	for mu := 1.0; ; mu++ {
		res := g.response(mu)
		// ext: the norm blows up by 2cOne per extraction step
		beta := 2 * one * 2 * g.cOne * 2 * 2 * res
		if g.t > 1 {
			beta = 2 * one * ext * 2 * (2 * g.cOne) * 2 * res
		}
		lq := limbs(math.Log2(beta))
		if lq > qMax {
			return false
		}
		if msis(g.d, lq, beta) > mu {
			continue
		}
		cut := res / ((1 + math.Sqrt(g.n)*g.cOne) * math.Sqrt(mu*g.d))
		bt := 1.0
		if g.t > 1 {
			bt = math.Sqrt(g.t) * g.cOne
		}
		dc := math.Sqrt((g.n+1)*mu*g.d) * math.Exp2(lq) / (cut / bt) * bt
		lqq := limbs(math.Log2(2 * one * 2 * 2 * dc))
		return lqq <= qMax
	}
}

func near(a, b float64) bool { return math.Abs(a-b) <= 1e-9*math.Abs(b) }

func logBig(x *big.Int) float64 {
	n := x.BitLen()
	if n <= 60 {
		return math.Log2(float64(x.Int64()))
	}
	h := new(big.Int).Rsh(x, uint(n-60))
	return math.Log2(float64(h.Int64())) + float64(n-60)
}

func one(c *lib.T, f mod, N, t int) (params jindo.Parameters, ok bool) {
	what := fmt.Sprintf("N=%d batch=%d modulus %v", N, t, f)
	dynP = f.p
	bad, e := lib.Try(func() { params = jindo.NewParameters[*Dyn](N, t) })
	c.Trans(1)
	c.State(f.b, f.k, N, t)
	if bad {
		c.Check(strings.Contains(fmt.Sprint(e), "no parameters") || strings.Contains(fmt.Sprint(e), "jindo-friendly"), "%s: NewParameters panics: %v", what, e)
		l := max(float64(f.k), 256) / float64(f.k)
		for n := 1.0; n <= max(math.Ceil(float64(N)/l), 1); n *= 2 {
			c.Check(!need(f, N, t, n).feasible(), "%s: NewParameters finds nothing although %v columns would do", what, n)
		}
		c.Outcome("no parameters exist")
		return
	}
	c.Outcome("parameters")
	// the layout
	d := max(f.k, 256)
	c.Check(params.Base() == f.b && params.Exp() == f.k, "%s: base %d and exponent %d", what, params.Base(), params.Exp())
	c.Check(params.Batch() == t, "%s: Batch() = %d", what, params.Batch())
	c.Check(params.Slots() == d/f.k, "%s: %d slots", what, params.Slots())
	c.Check(params.Rank() >= N, "%s: rank %d is too small", what, params.Rank())
	c.Check(params.Rows() >= 3 && params.Cols() >= 1 && params.Rank() == (params.Rows()-1)*params.Cols()*params.Slots(),
		"%s: rank %d with %d rows (one for the blinding), %d columns and %d slots", what, params.Rank(), params.Rows(), params.Cols(), params.Slots())
	c.Check(params.Rank()-N < max(params.Cols()*params.Slots(), 2*params.Cols()*params.Slots()-N+1), "%s: rank %d wastes a row of %d", what, params.Rank(), params.Cols()*params.Slots())
	// the rings
	for _, r := range []struct {
		name string
		n    int
		mods []uint64
		q    *big.Int
	}{{"inner", params.RingQ().N(), params.RingQ().ModuliChain(), params.RingQ().Modulus()}, {"outer", params.RingQOut().N(), params.RingQOut().ModuliChain(), params.RingQOut().Modulus()}} {
		c.Check(r.n == d, "%s: %s ring degree %d, want %d", what, r.name, r.n, d)
		prod := big.NewInt(1)
		for i, m := range r.mods {
			bm := new(big.Int).SetUint64(m)
			c.Check(bm.ProbablyPrime(10) && m%uint64(2*d) == 1 && m < 1<<61, "%s: %s ring modulus %d", what, r.name, m)
			for _, o := range r.mods[:i] {
				c.Check(o != m, "%s: %s ring modulus %d repeats", what, r.name, m)
			}
			prod.Mul(prod, bm)
		}
		c.Check(prod.Cmp(r.q) == 0, "%s: %s ring modulus", what, r.name)
		c.Check(logBig(prod) <= qMax+1, "%s: %s modulus has %.1f bits, MLWE is secure up to %d", what, r.name, logBig(prod), qMax)
	}
	// widths of the Gaussians
	g := budget{b: float64(f.b), k: float64(f.k), d: float64(d), l: float64(params.Slots()), nu: nMLWE / float64(d),
		m: float64(params.Rows() - 1), n: float64(params.Cols()), t: float64(t)}.widths()
	s := math.Sqrt(2 * math.Pi)
	for _, w := range []struct {
		name      string
		got, want float64
	}{{"EcdStdDev", params.EcdStdDev(), g.ecd}, {"EcdBlindStdDev", params.EcdBlindStdDev(), g.ecdB}, {"MaskStdDev", params.MaskStdDev(), g.msk},
		{"MaskBlindStdDev", params.MaskBlindStdDev(), g.mskB}, {"MLWEStdDev", params.MLWEStdDev(), g.mlwe}, {"MaskMLWEStdDev", params.MaskMLWEStdDev(), g.mskM}} {
		c.Check(near(w.got, w.want/s), "%s: %s = %v, want %v", what, w.name, w.got, w.want/s)
	}
	c.Check(params.MLWERank()*d == nMLWE, "%s: MLWE rank %d of degree %d", what, params.MLWERank(), d)
	// challenges: enough of them, and no larger than the analysis assumes
	B := params.ChallengeBound()
	c.Check(B >= 1, "%s: challenge bound %d", what, B)
	space := float64(f.k) * math.Log2(float64(2*B))
	c.Check(space >= min(float64(f.k)*math.Log2(float64(f.b)), 120)-1 || space >= float64(f.k)*math.Floor(120/float64(f.k))-1e-9, "%s: only 2^%.1f challenges", what, space)
	c.Check(math.Sqrt(float64(f.k))*float64(B) <= g.cOne*(1+1e-12), "%s: challenges up to %d exceed the analysed norm %v", what, B, g.cOne)
	// correctness: an honest response, and the rounding of the commitments, fit
	bt := 1.0
	if t > 1 {
		bt = math.Sqrt(g.t) * g.cOne
	}
	mu, muo := float64(params.InMSISRank()), float64(params.OutMSISRank())
	honest := g.response(mu)
	c.Check(params.ResTwoNm() >= honest*(1-1e-9), "%s: the response bound %g is below the honest norm %g", what, params.ResTwoNm(), honest)
	cut := math.Exp2(float64(params.LogInCutOff())) * (1 + math.Sqrt(g.n)*g.cOne) * math.Sqrt(mu*g.d) * bt
	c.Check(honest+cut <= params.ResTwoNm()*(1+1e-9), "%s: honest response %g and rounding %g exceed the bound %g", what, honest, cut, params.ResTwoNm())
	logQ, logQO := logBig(params.RingQ().Modulus()), logBig(params.RingQOut().Modulus())
	dc := bt * math.Sqrt((g.n+1)*mu*g.d) * math.Exp2(logQ-1-float64(params.LogInCutOff()))
	cutO := math.Exp2(float64(params.OutCutOff())) * math.Sqrt(muo*g.d) * bt
	c.Check(dc+cutO <= params.InComDcmpTwoNm()*(1+1e-9), "%s: inner commitments %g and rounding %g exceed the bound %g", what, dc, cutO, params.InComDcmpTwoNm())
	c.Check(params.InCommitDecomposeLen() == (params.Cols()+1)*params.InMSISRank(), "%s: %d inner commitments", what, params.InCommitDecomposeLen())
	// the cutoffs are not wastefully small
	c.Check(4*cut >= params.ResTwoNm()-honest-1e-9*params.ResTwoNm() && 4*cutO >= params.InComDcmpTwoNm()-4*dc, "%s: cutoffs 2^%d and 2^%d", what, params.LogInCutOff(), params.OutCutOff())
	// binding: extracted solutions are hard to find at root Hermite factor 1.005
	in, out := 8*g.cOne*params.ResTwoNm(), 4*params.InComDcmpTwoNm()
	in = 4 * g.cOne * 2 * params.ResTwoNm()
	if t > 1 {
		in = 2 * (2 * g.cOne) * (4 * g.cOne * g.cOne) * (4 * g.cOne) * params.ResTwoNm()
		out *= 2 * g.cOne
	}
	for _, h := range []struct {
		name             string
		rank, logQ, beta float64
	}{{"inner", mu, logQ, in}, {"outer", muo, logQO, out}} {
		c.Check(math.Log2(h.beta) <= h.logQ+1e-9, "%s: the %s commitment's modulus 2^%.2f does not exceed the norm 2^%.2f of a break", what, h.name, h.logQ, math.Log2(h.beta))
		w := msis(g.d, h.logQ, h.beta)
		c.Check(h.rank >= w-1e-9, "%s: the %s commitment has rank %v, security takes %.3f", what, h.name, h.rank, w)
	}
	c.Check(params.CommitmentSize() > 0 && params.ProofSize() > 0 && near(params.Size(), params.CommitmentSize()+params.ProofSize()), "%s: sizes %v + %v, %v", what, params.CommitmentSize(), params.ProofSize(), params.Size())
	return params, true
}

// moduli finds primes b^k+1 with b at the sizes in logs.
func moduli(k int, logs []float64, skip uint64) (out []mod) {
	last := uint64(0)
	for _, lg := range logs {
		for b := max(uint64(math.Exp2(lg))&^1, 2, last+2); ; b += 2 {
			p := new(big.Int).Exp(new(big.Int).SetUint64(b), big.NewInt(int64(k)), nil)
			p.Add(p, big.NewInt(1))
			if r := uint64(math.Sqrt(float64(b))); r*r == b || !p.ProbablyPrime(5) {
				continue
			}
			out = append(out, mod{b, k, p})
			last = b
			break
		}
	}
	return
}

func explicit(b uint64, k int) mod {
	p := new(big.Int).Exp(new(big.Int).SetUint64(b), big.NewInt(int64(k)), nil)
	return mod{b, k, p.Add(p, big.NewInt(1))}
}

func main() {
	lib.Main("C29", lib.Options{QuickBudget: 120 * time.Second, CaseTimeout: 120 * time.Second, Assumptions: []string{
		"the widths, tail cuts, norm analysis, Hermite factor 1.005 and MLWE setting (dimension 8192, modulus up to 240 bits) are the scheme's own; the check restates and does not derive them",
		"a norm bound is compared with the analysed honest norm, which C01 compares with real proofs",
	}}, func(r *lib.Run) {
		var fs []mod
		fs = append(fs, moduli(1, []float64{2, 4, 8, 16, 24, 30, 40, 50, 58, 61}, 0)...)
		fs = append(fs, moduli(2, []float64{1, 4, 8, 14, 20, 25, 30, 31}, 0)...)
		fs = append(fs, moduli(4, []float64{1, 5, 8, 15, 20, 25}, 0)...)
		fs = append(fs, moduli(8, []float64{1, 5, 7, 12, 15, 20, 25}, 0)...)
		fs = append(fs, moduli(16, []float64{1, 5, 7.5, 12, 20, 25}, 0)...)
		fs = append(fs, moduli(32, []float64{3, 4, 8, 14, 25}, 0)...)
		fs = append(fs, moduli(64, []float64{3, 7, 13, 20}, 0)...)
		fs = append(fs, explicit(120, 128), explicit(278, 256), explicit(46, 512), explicit(824, 1024))
		var Ns []int
		top := 40
		if r.Thorough {
			top = 700
		}
		for i := 1; i <= top; i++ {
			Ns = append(Ns, i)
		}
		for lg := 6; lg <= 24; lg++ {
			if lg >= 9 && lg%3 != 0 && !r.Thorough {
				continue
			}
			Ns = append(Ns, 1<<lg-1, 1<<lg, 1<<lg+1, 3<<(lg-1))
		}
		ts := []int{1, 2, 3, 8, 100}
		if r.Thorough {
			ts = []int{1, 2, 3, 4, 5, 8, 16, 31, 100, 1000, 100000}
		}
		for _, f := range fs {
			for _, t := range ts {
				r.Case(fmt.Sprintf("%v/t%d", f, t), func(c *lib.T) {
					last := 0
					for _, N := range Ns {
						if N <= last && N <= top {
							continue
						}
						params, ok := one(c, f, N, t)
						if ok && N == 1 {
							c.Sample("%v t=%d: rank %d, rows %d, cols %d, log q %.1f and %.1f, msis ranks %d and %d", f, t, params.Rank(), params.Rows(), params.Cols(),
								logBig(params.RingQ().Modulus()), logBig(params.RingQOut().Modulus()), params.InMSISRank(), params.OutMSISRank())
						}
					}
				})
			}
		}
		// refused requests
		r.Case("refused", func(c *lib.T) {
			dynP = explicit(160, 4).p
			for _, a := range [][2]int{{0, 1}, {-1, 1}, {1, 0}, {1, -1}, {math.MinInt, 5}, {5, math.MinInt}} {
				bad, e := lib.Try(func() { jindo.NewParameters[*Dyn](a[0], a[1]) })
				c.Check(bad && strings.Contains(fmt.Sprint(e), "NewParameters"), "NewParameters(%d, %d): %v", a[0], a[1], e)
				c.Trans(1)
			}
			c.Outcome("refused")
		})
		// the scheme at every exponent
		for _, f := range fs {
			if f.k > 256 && !r.Thorough {
				continue
			}
			r.Case("scheme/"+f.String(), func(c *lib.T) {
				for _, sh := range [][2]int{{1, 1}, {100, 2}, {20, 9}} {
					params, ok := one(c, f, sh[0], sh[1])
					if !ok {
						continue
					}
					prv := jindo.NewProver[*Dyn](params, []byte("C29"))
					vrf := jindo.NewVerifier[*Dyn](params, []byte("C29"))
					var vs [][]*Dyn
					var com []*jindo.Commitment
					var op []*jindo.Opening
					for k := range sh[1] {
						v := make([]*Dyn, min(params.Rank()-k%2, 300))
						for i := range v {
							v[i] = new(Dyn).MustSetRandom()
						}
						a, o := prv.Commit(v)
						vs, com, op = append(vs, v), append(com, a), append(op, o)
					}
					x := new(Dyn).MustSetRandom()
					ev, pf := prv.Evaluate(x, vs, com, op)
					for k := range vs {
						c.Check(jx.B(ev[k]).Cmp(jx.EvalRef(vs[k], x)) == 0, "evaluation %d (%v)", k, sh)
					}
					c.Check(vrf.Verify(x, com, ev, pf), "honest proof rejected (%v)", sh)
					ev[0].Add(ev[0], new(Dyn).SetInt64(1))
					c.Check(!vrf.Verify(x, com, ev, pf), "wrong evaluation accepted (%v)", sh)
					c.Trans(2 + len(vs))
					c.Outcome("scheme works")
				}
			})
		}
	})
}
