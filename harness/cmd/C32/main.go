// C32: the example circuits accept exactly what they describe.
package main

import (
	"fmt"
	"io"
	"math/big"
	"os"
	"strings"
	"time"

	"github.com/sp301415/ringo-snark/buckler"
	bzp "github.com/sp301415/ringo-snark/examples/bfv/zp"
	mzp "github.com/sp301415/ringo-snark/examples/mult/zp"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/zzverif/circ"
	"github.com/sp301415/ringo-snark/zzverif/exbfv"
	"github.com/sp301415/ringo-snark/zzverif/exmult"
	"github.com/sp301415/ringo-snark/zzverif/lib"
)

type BE = *bzp.Uint
type ME = *mzp.Uint

func bel(x int64) BE { return new(bzp.Uint).New().SetInt64(x) }
func mel(x int64) ME { return new(mzp.Uint).New().SetInt64(x) }

// run runs an example and returns what it prints.
func run(f func()) (out string, panicked bool, val any) {
	pr, pw, err := os.Pipe()
	if err != nil {
		return "", true, err
	}
	keep := os.Stdout
	os.Stdout = pw
	done := make(chan string)
	go func() {
		b, _ := io.ReadAll(pr)
		done <- string(b)
	}()
	panicked, val = lib.Try(f)
	os.Stdout = keep
	pw.Close()
	return <-done, panicked, val
}

// verdict proves and verifies.
func verdict[E any](t *lib.T, prove func() (E, error), verify func(E) bool) bool {
	var pf E
	var err error
	ok := false
	p, e := lib.Try(func() {
		if pf, err = prove(); err == nil {
			ok = verify(pf)
		}
	})
	if p {
		t.Failf("panic: %v", e)
	}
	t.Trans(1)
	t.Trace(1)
	return ok
}

// ---- BFV ----

// ctxt is an assignment of the ciphertext circuit, in coefficients (m, e) and
// in transformed slots (the others); mn and en are the transforms of m and e
// unless changed.
type ctxt struct {
	m, e           []BE
	mn, en, s      []BE
	c0, c1         []BE
	deltaI         *big.Int
	t, bound, rank int
}

func ntt(rank int, v []BE) []BE {
	r := bigpoly.NewCyclotomicEvaluator[BE](rank)
	p := r.NewPoly(false)
	for i := range v {
		p.Coeffs[i].Set(v[i])
	}
	return r.NTT(p).Coeffs
}

func mnttOf(rank int, v []ME) []ME {
	r := bigpoly.NewCyclotomicEvaluator[ME](rank)
	p := r.NewPoly(false)
	for i := range v {
		p.Coeffs[i].Set(v[i])
	}
	return r.NTT(p).Coeffs
}

// solve sets the body so that the ciphertext equation holds.
func (c *ctxt) solve() {
	d := new(bzp.Uint).New().SetBigInt(c.deltaI)
	for i := range c.c0 {
		x, y := bel(0), bel(0)
		x.Mul(d, c.mn[i])
		x.Add(x, c.en[i])
		y.Mul(c.c1[i], c.s[i])
		x.Sub(x, y)
		c.c0[i] = x
	}
}

func newCtxt(rank, t, bound int, m, e func(i int) int64) *ctxt {
	c := &ctxt{rank: rank, t: t, bound: bound, deltaI: new(big.Int).Div(bzp.Modulus(), big.NewInt(int64(t)))}
	for i := range rank {
		c.m = append(c.m, bel(m(i)))
		c.e = append(c.e, bel(e(i)))
		c.s = append(c.s, bel(int64(i%3)-1))
		x := bel(int64(i) + 3)
		for range 5 {
			x.Mul(x, x)
		}
		c.c1 = append(c.c1, x)
		c.c0 = append(c.c0, bel(0))
	}
	c.s = ntt(rank, c.s)
	c.mn = ntt(rank, c.m)
	c.en = ntt(rank, c.e)
	c.solve()
	return c
}

// holds is the statement, by integers.
func (c *ctxt) holds() bool {
	in := func(x BE, b int) bool {
		v := circ.Ints[BE]([]BE{x})[0]
		if q := bzp.Modulus(); v.Cmp(new(big.Int).Rsh(q, 1)) > 0 {
			v.Sub(v, q)
		}
		return v.CmpAbs(big.NewInt(int64(b))) <= 0
	}
	for i := range c.m {
		if !in(c.m[i], c.t-1) || !in(c.e[i], c.bound) {
			return false
		}
	}
	mn, en := ntt(c.rank, c.m), ntt(c.rank, c.e)
	d := new(bzp.Uint).New().SetBigInt(c.deltaI)
	for i := range mn {
		if mn[i].Cmp(c.mn[i]) != 0 || en[i].Cmp(c.en[i]) != 0 {
			return false
		}
		x, y := bel(0), bel(0)
		x.Mul(d, mn[i])
		x.Add(x, en[i])
		y.Mul(c.c1[i], c.s[i])
		x.Sub(x, y)
		if x.Cmp(c.c0[i]) != 0 {
			return false
		}
	}
	return true
}

func bfv(r *lib.Run, rank, t, bound int) {
	base := fmt.Sprintf("bfv/N%d/t%d/B%d/", rank, t, bound)
	mk := func(c *ctxt) (*buckler.Prover[BE], *buckler.Verifier[BE], error) {
		return buckler.Compile(rank, &exbfv.CiphertextCircuit[BE]{
			NTTChecker: buckler.NewNTTChecker[BE](rank), Degree: rank, PlaintextModulus: uint64(t), ErrBound: uint64(bound), Delta: c.deltaI,
		}, []byte("C32"))
	}
	zero := func(int) int64 { return 0 }
	one := func(at int, x int64) func(int) int64 {
		return func(i int) int64 {
			if i == at {
				return x
			}
			return 0
		}
	}
	all := func(x int64) func(int) int64 { return func(int) int64 { return x } }
	alt := func(x int64) func(int) int64 { return func(i int) int64 { return x - 2*x*int64(i%2) } }
	type job struct {
		name string
		c    func() *ctxt
	}
	var honest, bad []job
	for _, k := range []struct {
		n    string
		m, e func(int) int64
	}{
		{"zero", zero, zero}, {"max", all(int64(t - 1)), all(int64(bound))}, {"min", all(-int64(t - 1)), all(-int64(bound))},
		{"alt", alt(int64(t - 1)), alt(-int64(bound))}, {"ramp", func(i int) int64 { return int64(i % t) }, func(i int) int64 { return int64(i%(2*bound+1) - bound) }},
	} {
		honest = append(honest, job{k.n, func() *ctxt { return newCtxt(rank, t, bound, k.m, k.e) }})
	}
	for i := range rank {
		for _, x := range []int64{int64(t - 1), -int64(t - 1)} {
			honest = append(honest, job{fmt.Sprintf("m%d=%d", i, x), func() *ctxt { return newCtxt(rank, t, bound, one(i, x), zero) }})
		}
		for _, x := range []int64{int64(bound), -int64(bound)} {
			honest = append(honest, job{fmt.Sprintf("e%d=%d", i, x), func() *ctxt { return newCtxt(rank, t, bound, zero, one(i, x)) }})
		}
		for _, x := range []int64{int64(t), -int64(t), 2*int64(t) - 1, 1 << 40} {
			bad = append(bad, job{fmt.Sprintf("m%d=%d", i, x), func() *ctxt { return newCtxt(rank, t, bound, one(i, x), zero) }})
		}
		for _, x := range []int64{int64(bound + 1), -int64(bound + 1), 2*int64(bound) + 1, -1 << 50} {
			bad = append(bad, job{fmt.Sprintf("e%d=%d", i, x), func() *ctxt { return newCtxt(rank, t, bound, zero, one(i, x)) }})
		}
		ch := func(n string, f func(c *ctxt), solve bool) {
			bad = append(bad, job{fmt.Sprintf("%s%d", n, i), func() *ctxt {
				c := newCtxt(rank, t, bound, func(i int) int64 { return int64(i % 3) }, func(i int) int64 { return int64(i%2 - 1) })
				f(c)
				if solve {
					c.solve()
				}
				return c
			}})
		}
		inc := func(v []BE, d int64) { v[i] = new(bzp.Uint).New().Add(v[i], bel(d)) }
		ch("body", func(c *ctxt) { inc(c.c0, 1) }, false)
		ch("mask", func(c *ctxt) { inc(c.c1, 1) }, false)
		ch("key", func(c *ctxt) { inc(c.s, -1) }, false)
		ch("msgNTT", func(c *ctxt) { inc(c.mn, 1) }, false)
		ch("errNTT", func(c *ctxt) { inc(c.en, 1) }, false)
		ch("msgCoeff", func(c *ctxt) { inc(c.m, 1) }, false)
		ch("errCoeff", func(c *ctxt) { inc(c.e, 1) }, false)
		// the equation holds, the transforms do not
		ch("msgNTT solved ", func(c *ctxt) { inc(c.mn, 7) }, true)
		ch("errNTT solved ", func(c *ctxt) { inc(c.en, 7) }, true)
	}
	for k, jobs := range [][]job{honest, bad} {
		const chunk = 24
		for lo := 0; lo < len(jobs); lo += chunk {
			js := jobs[lo:min(lo+chunk, len(jobs))]
			r.Case(fmt.Sprintf("%s%s/%d", base, []string{"honest", "violated"}[k], lo/chunk), func(tt *lib.T) {
				prv, vrf, err := mk(js[0].c())
				tt.Check(err == nil, "Compile: %v", err)
				for _, j := range js {
					c := j.c()
					tt.Check(c.holds() == (k == 0), "harness: %s", j.name)
					got := verdict(tt, func() (*buckler.Proof[BE], error) {
						return prv.Prove(&exbfv.CiphertextCircuit[BE]{
							CiphertextNTT: [2]buckler.PublicWitness[BE]{c.c0, c.c1}, SecretKeyNTT: c.s,
							MessageNTT: c.mn, MessageCoeffs: c.m, ErrorNTT: c.en, ErrorCoeffs: c.e})
					}, func(pf *buckler.Proof[BE]) bool {
						return vrf.Verify(&exbfv.CiphertextCircuit[BE]{CiphertextNTT: [2]buckler.PublicWitness[BE]{c.c0, c.c1}}, pf)
					})
					tt.Check(got == (k == 0), "%s: accepted is %v", j.name, got)
					tt.State(base, j.name)
				}
				tt.Outcome([]string{"accepted", "rejected"}[k])
			})
		}
	}
}

// ---- multiplication ----

type prod struct{ x, z, xn, yn, zn []ME }

func (p *prod) holds(rank int) bool {
	for _, v := range circ.Ints[ME](p.x) {
		if q := mzp.Modulus(); v.Cmp(new(big.Int).Rsh(q, 1)) > 0 {
			v.Sub(v, q)
		}
		if v.CmpAbs(big.NewInt(5)) > 0 {
			return false
		}
	}
	a, b := mnttOf(rank, p.x), mnttOf(rank, p.z)
	for i := range a {
		w := mel(0)
		w.Mul(a[i], p.yn[i])
		if a[i].Cmp(p.xn[i]) != 0 || b[i].Cmp(p.zn[i]) != 0 || w.Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

func newProd(rank int, x, y func(i int) int64) *prod {
	p := &prod{}
	var yc []ME
	for i := range rank {
		p.x = append(p.x, mel(x(i)))
		yc = append(yc, mel(y(i)))
	}
	p.xn, p.yn = mnttOf(rank, p.x), mnttOf(rank, yc)
	for i := range rank {
		p.zn = append(p.zn, mel(0))
		p.zn[i].Mul(p.xn[i], p.yn[i])
	}
	p.unNTT(rank)
	return p
}

func (p *prod) unNTT(rank int) {
	r := bigpoly.NewCyclotomicEvaluator[ME](rank)
	z := r.NewPoly(true)
	for i := range p.zn {
		z.Coeffs[i].Set(p.zn[i])
	}
	p.z = r.InvNTT(z).Coeffs
}

func mult(r *lib.Run, rank int) {
	base := fmt.Sprintf("mult/N%d/", rank)
	type job struct {
		name string
		p    func() *prod
		ok   bool
	}
	var jobs []job
	yy := func(i int) int64 { return int64(i+1) * 0x123456789abcd }
	for x := int64(-7); x <= 7; x++ {
		ok := x >= -5 && x <= 5
		jobs = append(jobs, job{fmt.Sprintf("all %d", x), func() *prod { return newProd(rank, func(int) int64 { return x }, yy) }, ok})
		for at := range rank {
			jobs = append(jobs, job{fmt.Sprintf("x%d=%d", at, x), func() *prod {
				return newProd(rank, func(i int) int64 {
					if i == at {
						return x
					}
					return int64(i % 4)
				}, yy)
			}, ok})
		}
	}
	for at := range rank {
		inc := func(n string, f func(p *prod) []ME, after func(p *prod)) {
			jobs = append(jobs, job{fmt.Sprintf("%s%d", n, at), func() *prod {
				p := newProd(rank, func(i int) int64 { return int64(i%11) - 5 }, yy)
				v := f(p)
				v[at] = new(mzp.Uint).New().Add(v[at], mel(1))
				if after != nil {
					after(p)
				}
				return p
			}, false})
		}
		inc("y", func(p *prod) []ME { return p.yn }, nil)
		inc("z", func(p *prod) []ME { return p.z }, nil)
		inc("zNTT", func(p *prod) []ME { return p.zn }, nil)
		inc("zNTT and z", func(p *prod) []ME { return p.zn }, func(p *prod) { p.unNTT(rank) })
		inc("xNTT", func(p *prod) []ME { return p.xn }, nil)
		inc("xNTT with product", func(p *prod) []ME { return p.xn }, func(p *prod) {
			for i := range p.zn {
				p.zn[i] = new(mzp.Uint).New().Mul(p.xn[i], p.yn[i])
			}
			p.unNTT(rank)
		})
		inc("zNTT with factor", func(p *prod) []ME { return p.zn }, func(p *prod) {
			for i := range p.zn {
				inv := new(mzp.Uint).New().Inverse(p.xn[i])
				p.yn[i] = new(mzp.Uint).New().Mul(p.zn[i], inv)
			}
		})
	}
	const chunk = 30
	for lo := 0; lo < len(jobs); lo += chunk {
		js := jobs[lo:min(lo+chunk, len(jobs))]
		r.Case(fmt.Sprintf("%s%d", base, lo/chunk), func(t *lib.T) {
			prv, vrf, err := buckler.Compile(rank, &exmult.MultCircuit[ME]{NTTChecker: buckler.NewNTTChecker[ME](rank)}, []byte("C32"))
			t.Check(err == nil, "Compile: %v", err)
			for _, j := range js {
				p := j.p()
				t.Check(p.holds(rank) == j.ok, "harness: %s", j.name)
				got := verdict(t, func() (*buckler.Proof[ME], error) {
					return prv.Prove(&exmult.MultCircuit[ME]{YNTT: p.yn, XCoeffs: p.x, ZCoeffs: p.z, XNTT: p.xn, ZNTT: p.zn})
				}, func(pf *buckler.Proof[ME]) bool {
					return vrf.Verify(&exmult.MultCircuit[ME]{YNTT: p.yn}, pf)
				})
				t.Check(got == j.ok, "%s: accepted is %v", j.name, got)
				t.State(base, j.name)
				t.Outcome(fmt.Sprint(got))
			}
		})
	}
}

func main() {
	lib.Main("C32", lib.Options{QuickBudget: 140 * time.Second, CaseTimeout: 200 * time.Second, Assumptions: []string{
		"rejections are probabilistic with error below 2^-40 per proof",
		"the example programs are compiled with another package clause; the circuits are used at small ranks and once at the rank of the program",
	}}, func(r *lib.Run) {
		for i, f := range []func(){exbfv.Main, exmult.Main} {
			n := []string{"bfv", "mult"}[i]
			r.Case("main/"+n, func(t *lib.T) {
				out, p, e := run(f)
				t.Check(!p, "the program panics: %v", e)
				low := strings.ToLower(out)
				t.Check(strings.Contains(low, "true") && !strings.Contains(low, "false"), "the program reports %q", out)
				t.Trans(1)
				t.Trace(1)
				t.State(n)
				t.Outcome("main")
			})
		}
		bfv(r, 8, 17, 25)
		mult(r, 8)
		if r.Thorough {
			bfv(r, 2, 2, 1)
			bfv(r, 16, 65537, 65553)
			bfv(r, 64, 257, 321)
			mult(r, 2)
			mult(r, 64)
		}
	})
}
