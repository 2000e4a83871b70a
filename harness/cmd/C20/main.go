// C20: polynomial operations are functions of the values of their arguments,
// whatever arguments share memory and whatever ran before: every sequence of
// operations over a file of registers against a model on integer vectors.
package main

import (
	"fmt"
	"math/big"
	"time"

	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/zzverif/lib"
	"github.com/sp301415/ringo-snark/zzverif/pl"
)

// ev is what both evaluators offer.
type ev[E bignum.Uint[E]] interface {
	NewPoly(bool) *bigpoly.Poly[E]
	Add(a, b *bigpoly.Poly[E]) *bigpoly.Poly[E]
	AddTo(o, a, b *bigpoly.Poly[E])
	Sub(a, b *bigpoly.Poly[E]) *bigpoly.Poly[E]
	SubTo(o, a, b *bigpoly.Poly[E])
	Neg(a *bigpoly.Poly[E]) *bigpoly.Poly[E]
	NegTo(o, a *bigpoly.Poly[E])
	ScalarMul(a *bigpoly.Poly[E], c E) *bigpoly.Poly[E]
	ScalarMulTo(o, a *bigpoly.Poly[E], c E)
	ScalarMulAddTo(o, a *bigpoly.Poly[E], c E)
	ScalarMulSubTo(o, a *bigpoly.Poly[E], c E)
	Mul(a, b *bigpoly.Poly[E]) *bigpoly.Poly[E]
	MulTo(o, a, b *bigpoly.Poly[E])
	MulAddTo(o, a, b *bigpoly.Poly[E])
	MulSubTo(o, a, b *bigpoly.Poly[E])
	NTT(a *bigpoly.Poly[E]) *bigpoly.Poly[E]
	NTTTo(o, a *bigpoly.Poly[E])
	InvNTT(a *bigpoly.Poly[E]) *bigpoly.Poly[E]
	InvNTTTo(o, a *bigpoly.Poly[E])
}

// model of a register.
type reg struct {
	p   pl.P
	ntt bool
}

func (r reg) clone() reg { return reg{r.p.Clone(), r.ntt} }

const R = 3

type world[E bignum.Uint[E]] struct {
	q     *big.Int
	n     int
	e     ev[E]
	cyc   *bigpoly.CyclicEvaluator[E]
	cmo   *bigpoly.CyclotomicEvaluator[E]
	fwd   [][]*big.Int // evaluation matrix of the transform
	inv   [][]*big.Int
	lfwd  func(pl.P) pl.P
	linv  func(pl.P) pl.P
	autIx map[int][2][]int // automorphism: [coefficient/transform] -> basis image with sign
	ops   []op[E]
}

type op[E bignum.Uint[E]] struct {
	name string
	pre  func(m *[R]reg) bool
	mod  func(m *[R]reg)
	run  func(x *[R]*bigpoly.Poly[E])
}

func (w *world[E]) fwdOf(p pl.P) pl.P {
	if w.lfwd != nil {
		return w.lfwd(p)
	}
	return w.mat(w.fwd, p)
}

func (w *world[E]) invOf(p pl.P) pl.P {
	if w.linv != nil {
		return w.linv(p)
	}
	return w.mat(w.inv, p)
}

func (w *world[E]) mat(m [][]*big.Int, p pl.P) pl.P {
	o := pl.Zero(w.n)
	for i := range o {
		for j := range p {
			o[i].Add(o[i], new(big.Int).Mul(m[i][j], p[j]))
		}
		o[i].Mod(o[i], w.q)
	}
	return o
}

// newWorld tabulates the linear maps on the basis with fresh evaluators: what
// they compute is the matter of other checks.
func newWorld[E bignum.Uint[E]](n int, cyclic bool) *world[E] {
	w := &world[E]{q: pl.Order[E](), n: n}
	mk := func() ev[E] {
		if cyclic {
			return bigpoly.NewCyclicEvaluator[E](n)
		}
		return bigpoly.NewCyclotomicEvaluator[E](n)
	}
	tab := func(f func(e ev[E], p *bigpoly.Poly[E]) *bigpoly.Poly[E], ntt bool) [][]*big.Int {
		m := make([][]*big.Int, n)
		for i := range m {
			m[i] = make([]*big.Int, n)
		}
		for j := range n {
			o := pl.From(f(mk(), pl.To[E](pl.Basis(n, j, big.NewInt(1)), ntt)))
			for i := range n {
				m[i][j] = o[i]
			}
		}
		return m
	}
	large := n >= 256 // too large to tabulate: a fresh evaluator for each application
	if large {
		w.lfwd = func(p pl.P) pl.P { return pl.From(mk().NTT(pl.To[E](p, false))) }
		w.linv = func(p pl.P) pl.P { return pl.From(mk().InvNTT(pl.To[E](p, true))) }
		tab = func(func(e ev[E], p *bigpoly.Poly[E]) *bigpoly.Poly[E], bool) [][]*big.Int { return nil }
	}
	w.fwd = tab(func(e ev[E], p *bigpoly.Poly[E]) *bigpoly.Poly[E] { return e.NTT(p) }, false)
	w.inv = tab(func(e ev[E], p *bigpoly.Poly[E]) *bigpoly.Poly[E] { return e.InvNTT(p) }, true)
	if cyclic {
		w.cyc = bigpoly.NewCyclicEvaluator[E](n)
		w.e = w.cyc
	} else {
		w.cmo = bigpoly.NewCyclotomicEvaluator[E](n)
		w.e = w.cmo
	}
	type P = *bigpoly.Poly[E]
	add := func(name string, pre func(m *[R]reg) bool, mod func(m *[R]reg), run func(x *[R]P)) {
		w.ops = append(w.ops, op[E]{name, pre, mod, run})
	}
	q := w.q
	type bin struct {
		name string
		f    func(a, b pl.P) pl.P
		to   func(o, a, b P)
		ret  func(a, b P) P
		mul  bool
	}
	bins := []bin{
		{"Add", func(a, b pl.P) pl.P { return pl.Add(a, b, q) }, w.e.AddTo, w.e.Add, false},
		{"Sub", func(a, b pl.P) pl.P { return pl.Sub(a, b, q) }, w.e.SubTo, w.e.Sub, false},
		{"Mul", func(a, b pl.P) pl.P { return pl.Had(a, b, q) }, w.e.MulTo, w.e.Mul, true},
	}
	for _, b := range bins {
		for i := range R {
			for j := range R {
				pre := func(m *[R]reg) bool { return m[i].ntt == m[j].ntt && (!b.mul || m[i].ntt) }
				for o := range R {
					add(fmt.Sprintf("r%d=%sTo(r%d,r%d)", o, b.name, i, j), pre,
						func(m *[R]reg) { m[o] = reg{b.f(m[i].p, m[j].p), m[i].ntt} },
						func(x *[R]P) { b.to(x[o], x[i], x[j]) })
				}
				add(fmt.Sprintf("r0=%s(r%d,r%d)", b.name, i, j), pre,
					func(m *[R]reg) { m[0] = reg{b.f(m[i].p, m[j].p), m[i].ntt} },
					func(x *[R]P) { x[0] = b.ret(x[i], x[j]) })
			}
		}
	}
	for i := range R {
		for j := range R {
			for o := range R {
				pre := func(m *[R]reg) bool { return m[i].ntt && m[j].ntt && m[o].ntt }
				add(fmt.Sprintf("r%d+=r%d*r%d", o, i, j), pre,
					func(m *[R]reg) { m[o] = reg{pl.Add(m[o].p, pl.Had(m[i].p, m[j].p, q), q), true} },
					func(x *[R]P) { w.e.MulAddTo(x[o], x[i], x[j]) })
				add(fmt.Sprintf("r%d-=r%d*r%d", o, i, j), pre,
					func(m *[R]reg) { m[o] = reg{pl.Sub(m[o].p, pl.Had(m[i].p, m[j].p, q), q), true} },
					func(x *[R]P) { w.e.MulSubTo(x[o], x[i], x[j]) })
			}
		}
	}
	// unary; scalars are coefficients of registers (shared memory) or -2
	sc := []struct{ r, k int }{{-1, 0}, {0, 0}, {1, n - 1}, {2, n / 2}}
	for i := range R {
		for o := range R {
			any := func(m *[R]reg) bool { return true }
			add(fmt.Sprintf("r%d=NegTo(r%d)", o, i), any,
				func(m *[R]reg) { m[o] = reg{pl.Neg(m[i].p, q), m[i].ntt} },
				func(x *[R]P) { w.e.NegTo(x[o], x[i]) })
			add(fmt.Sprintf("r%d.CopyFrom(r%d)", o, i), any,
				func(m *[R]reg) { m[o] = m[i].clone() },
				func(x *[R]P) { x[o].CopyFrom(x[i]) })
			add(fmt.Sprintf("r%d=NTTTo(r%d)", o, i), func(m *[R]reg) bool { return !m[i].ntt },
				func(m *[R]reg) { m[o] = reg{w.fwdOf(m[i].p), true} },
				func(x *[R]P) { w.e.NTTTo(x[o], x[i]) })
			add(fmt.Sprintf("r%d=InvNTTTo(r%d)", o, i), func(m *[R]reg) bool { return m[i].ntt },
				func(m *[R]reg) { m[o] = reg{w.invOf(m[i].p), false} },
				func(x *[R]P) { w.e.InvNTTTo(x[o], x[i]) })
			for _, s := range sc {
				val := func(m *[R]reg) *big.Int {
					if s.r < 0 {
						return new(big.Int).Sub(q, big.NewInt(2))
					}
					return new(big.Int).Set(m[s.r].p[s.k])
				}
				el := func(x *[R]P) E {
					if s.r < 0 {
						var z E
						return z.New().SetInt64(-2)
					}
					return x[s.r].Coeffs[s.k]
				}
				nm := fmt.Sprintf("r%d[%d]", s.r, s.k)
				same := func(m *[R]reg) bool { return m[i].ntt == m[o].ntt }
				add(fmt.Sprintf("r%d=ScalarMulTo(r%d,%s)", o, i, nm), any,
					func(m *[R]reg) { m[o] = reg{pl.Scale(m[i].p, val(m), q), m[i].ntt} },
					func(x *[R]P) { w.e.ScalarMulTo(x[o], x[i], el(x)) })
				add(fmt.Sprintf("r%d+=ScalarMul(r%d,%s)", o, i, nm), same,
					func(m *[R]reg) { m[o] = reg{pl.Add(m[o].p, pl.Scale(m[i].p, val(m), q), q), m[i].ntt} },
					func(x *[R]P) { w.e.ScalarMulAddTo(x[o], x[i], el(x)) })
				add(fmt.Sprintf("r%d-=ScalarMul(r%d,%s)", o, i, nm), same,
					func(m *[R]reg) { m[o] = reg{pl.Sub(m[o].p, pl.Scale(m[i].p, val(m), q), q), m[i].ntt} },
					func(x *[R]P) { w.e.ScalarMulSubTo(x[o], x[i], el(x)) })
			}
			if w.cmo != nil {
				for _, d := range []int{3, -1} {
					add(fmt.Sprintf("r%d=AutTo(r%d,%d)", o, i, d), any,
						func(m *[R]reg) { m[o] = reg{w.aut(m[i], d), m[i].ntt} },
						func(x *[R]P) { w.cmo.AutTo(x[o], x[i], d) })
				}
			}
		}
		add(fmt.Sprintf("r2=Neg(r%d)", i), func(m *[R]reg) bool { return true },
			func(m *[R]reg) { m[2] = reg{pl.Neg(m[i].p, q), m[i].ntt} },
			func(x *[R]P) { x[2] = w.e.Neg(x[i]) })
		add(fmt.Sprintf("r1=ScalarMul(r%d,r0[0])", i), func(m *[R]reg) bool { return true },
			func(m *[R]reg) { m[1] = reg{pl.Scale(m[i].p, m[0].p[0], q), m[i].ntt} },
			func(x *[R]P) { x[1] = w.e.ScalarMul(x[i], x[0].Coeffs[0]) })
		add(fmt.Sprintf("r1=NTT(r%d)", i), func(m *[R]reg) bool { return !m[i].ntt },
			func(m *[R]reg) { m[1] = reg{w.fwdOf(m[i].p), true} },
			func(x *[R]P) { x[1] = w.e.NTT(x[i]) })
		add(fmt.Sprintf("r1=InvNTT(r%d)", i), func(m *[R]reg) bool { return m[i].ntt },
			func(m *[R]reg) { m[1] = reg{w.invOf(m[i].p), false} },
			func(x *[R]P) { x[1] = w.e.InvNTT(x[i]) })
		add(fmt.Sprintf("r%d.Clear()", i), func(m *[R]reg) bool { return true },
			func(m *[R]reg) { m[i] = reg{pl.Zero(n), m[i].ntt} },
			func(x *[R]P) { x[i].Clear() })
		// writing one coefficient through the public field
		add(fmt.Sprintf("r%d[0]+=1", i), func(m *[R]reg) bool { return true },
			func(m *[R]reg) {
				m[i] = m[i].clone()
				m[i].p[0].Add(m[i].p[0], big.NewInt(1)).Mod(m[i].p[0], q)
			},
			func(x *[R]P) {
				var z E
				x[i].Coeffs[0].Add(x[i].Coeffs[0], z.New().SetUint64(1))
			})
		if w.cyc != nil {
			for _, N := range []int{1, n / 2, n - 1} {
				add(fmt.Sprintf("r0,r1=QuoRem(r%d,%d)", i, N), func(m *[R]reg) bool { return !m[i].ntt },
					func(m *[R]reg) {
						quo, rem := pl.Zero(n), m[i].p.Clone()
						for k := n - 1; k >= N; k-- {
							quo[k-N].Add(quo[k-N], rem[k])
							rem[k-N].Add(rem[k-N], rem[k])
							rem[k].SetInt64(0)
						}
						for k := range n {
							quo[k].Mod(quo[k], q)
							rem[k].Mod(rem[k], q)
						}
						m[0], m[1] = reg{quo, false}, reg{rem, false}
					},
					func(x *[R]P) { x[0], x[1] = w.cyc.QuoRemByVanishing(x[i], N) })
			}
		} else {
			for _, d := range []int{5} {
				add(fmt.Sprintf("r1=Aut(r%d,%d)", i, d), func(m *[R]reg) bool { return true },
					func(m *[R]reg) { m[1] = reg{w.aut(m[i], d), m[i].ntt} },
					func(x *[R]P) { x[1] = w.cmo.Aut(x[i], d) })
			}
		}
	}
	return w
}

// aut is the automorphism on coefficients; through the tables on transforms.
func (w *world[E]) aut(r reg, d int) pl.P {
	if r.ntt {
		return w.fwdOf(w.aut(reg{w.invOf(r.p), false}, d))
	}
	o := pl.Zero(w.n)
	for i := range r.p {
		j := ((i*d)%(2*w.n) + 2*w.n) % (2 * w.n)
		if j < w.n {
			o[j].Add(o[j], r.p[i])
		} else {
			o[j-w.n].Sub(o[j-w.n], r.p[i])
		}
	}
	for i := range o {
		o[i].Mod(o[i], w.q)
	}
	return o
}

// explore runs every sequence of depth operations that begins with one of the
// given first operations.
func (w *world[E]) explore(t *lib.T, depth int, first []int, init [R]reg) {
	mkRegs := func() (x [R]*bigpoly.Poly[E]) {
		for i := range x {
			x[i] = pl.To[E](init[i].p, init[i].ntt)
		}
		return
	}
	bad := 0
	var seq []int
	var rec func(m [R]reg)
	names := func() string {
		s := ""
		for _, k := range seq {
			s += w.ops[k].name + "; "
		}
		return s
	}
	rec = func(m [R]reg) {
		if len(seq) == depth || (len(seq) > 0 && bad > 20) {
			return
		}
		for k := range w.ops {
			if len(seq) == 0 {
				in := false
				for _, f := range first {
					in = in || f == k
				}
				if !in {
					continue
				}
			}
			o := &w.ops[k]
			if !o.pre(&m) {
				continue
			}
			nm := m
			o.mod(&nm)
			seq = append(seq, k)
			if len(seq) == depth {
				// run the whole sequence on the implementation
				x := mkRegs()
				for _, s := range seq {
					w.ops[s].run(&x)
				}
				for i := range x {
					if !pl.Eq(pl.From(x[i]), nm[i].p) || x[i].IsNTT != nm[i].ntt {
						bad++
						if w.n > 64 {
							got, k := pl.From(x[i]), 0
							for k < len(got)-1 && got[k].Cmp(nm[i].p[k]) == 0 {
								k++
							}
							t.Failf("rank %d: %s register %d differs, first at %d: %v (transformed %v), expected %v (%v)", w.n, names(), i, k, got[k], x[i].IsNTT, nm[i].p[k], nm[i].ntt)
							continue
						}
						t.Failf("from %v: %s register %d is %v (transformed %v), expected %v (%v)", init, names(), i, pl.From(x[i]), x[i].IsNTT, nm[i].p, nm[i].ntt)
					}
				}
				t.Trans(depth)
				t.Trace(1)
			} else {
				t.StateHash(uint64(k)*1000003 + uint64(len(seq)) + uint64(seq[0])<<40)
				rec(nm)
			}
			seq = seq[:len(seq)-1]
		}
	}
	rec(init)
	t.State(t.ID)
}

// refuse calls every operation with one operand of another length, or in the
// wrong domain: it must be refused before anything changes, and the evaluator
// must go on working.
func refuse[E bignum.Uint[E]](r *lib.Run, name string, n int) {
	type P = *bigpoly.Poly[E]
	for _, cyclic := range []bool{true, false} {
		r.Case(fmt.Sprintf("refuse/%s/r%d/cyclic=%v", name, n, cyclic), func(t *lib.T) {
			w := newWorld[E](n, cyclic)
			c := pl.To[E](pl.Basis(1, 0, big.NewInt(3)), false).Coeffs[0]
			type call struct {
				name string
				k    int // operands
				dom  []string
				f    func(x []P)
			}
			// dom: accepted domains, one letter per operand, output first
			// (c: coefficients, t: transform, .: any)
			calls := []call{
				{"AddTo", 3, []string{".cc", ".tt"}, func(x []P) { w.e.AddTo(x[0], x[1], x[2]) }},
				{"SubTo", 3, []string{".cc", ".tt"}, func(x []P) { w.e.SubTo(x[0], x[1], x[2]) }},
				{"MulTo", 3, []string{".tt"}, func(x []P) { w.e.MulTo(x[0], x[1], x[2]) }},
				{"MulAddTo", 3, []string{".tt"}, func(x []P) { w.e.MulAddTo(x[0], x[1], x[2]) }},
				{"MulSubTo", 3, []string{".tt"}, func(x []P) { w.e.MulSubTo(x[0], x[1], x[2]) }},
				{"Add", 2, []string{"cc", "tt"}, func(x []P) { w.e.Add(x[0], x[1]) }},
				{"Sub", 2, []string{"cc", "tt"}, func(x []P) { w.e.Sub(x[0], x[1]) }},
				{"Mul", 2, []string{"tt"}, func(x []P) { w.e.Mul(x[0], x[1]) }},
				{"NegTo", 2, []string{".."}, func(x []P) { w.e.NegTo(x[0], x[1]) }},
				{"Neg", 1, []string{"."}, func(x []P) { w.e.Neg(x[0]) }},
				{"ScalarMulTo", 2, []string{".."}, func(x []P) { w.e.ScalarMulTo(x[0], x[1], c) }},
				{"ScalarMulAddTo", 2, []string{".."}, func(x []P) { w.e.ScalarMulAddTo(x[0], x[1], c) }},
				{"ScalarMulSubTo", 2, []string{".."}, func(x []P) { w.e.ScalarMulSubTo(x[0], x[1], c) }},
				{"ScalarMul", 1, []string{"."}, func(x []P) { w.e.ScalarMul(x[0], c) }},
				{"NTTTo", 2, []string{".c"}, func(x []P) { w.e.NTTTo(x[0], x[1]) }},
				{"NTT", 1, []string{"c"}, func(x []P) { w.e.NTT(x[0]) }},
				{"InvNTTTo", 2, []string{".t"}, func(x []P) { w.e.InvNTTTo(x[0], x[1]) }},
				{"InvNTT", 1, []string{"t"}, func(x []P) { w.e.InvNTT(x[0]) }},
			}
			if cyclic {
				for _, N := range []int{1, n / 2, n} {
					calls = append(calls, call{fmt.Sprintf("QuoRemByVanishing(%d)", N), 1, []string{"c"}, func(x []P) { w.cyc.QuoRemByVanishing(x[0], N) }})
				}
			} else {
				for _, d := range []int{1, 3, -1} {
					calls = append(calls,
						call{fmt.Sprintf("AutTo(%d)", d), 2, []string{".."}, func(x []P) { w.cmo.AutTo(x[0], x[1], d) }},
						call{fmt.Sprintf("Aut(%d)", d), 1, []string{"."}, func(x []P) { w.cmo.Aut(x[0], d) }})
				}
				for _, d := range []int{0, 2, -2, 2 * n} {
					calls = append(calls,
						call{fmt.Sprintf("AutTo(%d)", d), 2, nil, func(x []P) { w.cmo.AutTo(x[0], x[1], d) }},
						call{fmt.Sprintf("Aut(%d)", d), 1, nil, func(x []P) { w.cmo.Aut(x[0], d) }})
				}
			}
			fits := func(dom, pat string) bool {
				for i := range pat {
					if pat[i] != '.' && pat[i] != dom[i] {
						return false
					}
				}
				return true
			}
			var doms func(k int) []string
			doms = func(k int) []string {
				if k == 0 {
					return []string{""}
				}
				var o []string
				for _, d := range doms(k - 1) {
					o = append(o, d+"c", d+"t")
				}
				return o
			}
			for _, cl := range calls {
				for _, dom := range doms(cl.k) {
					good := false
					for _, p := range cl.dom {
						good = good || fits(dom, p)
					}
					for at := -1; at < cl.k; at++ {
						for _, ln := range []int{0, 1, n / 2, n - 1, n + 1, n + 8, 2 * n} {
							if ln == n || at < 0 && ln > 0 {
								continue
							}
							x := make([]P, cl.k)
							before := make([]pl.P, cl.k)
							for i := range x {
								l := n
								if i == at {
									l = ln
								}
								p := pl.Zero(l)
								for j := range p {
									p[j].SetInt64(int64(i + j + 1))
								}
								x[i] = pl.To[E](p, dom[i] == 't')
								before[i] = pl.From(x[i])
							}
							panicked, _ := lib.Try(func() { cl.f(x) })
							want := at >= 0 || !good
							if !want {
								t.Check(!panicked, "%s refuses operands in domains %s", cl.name, dom)
							} else {
								t.Check(panicked, "%s accepts operands in domains %s with operand %d of length %d (rank %d)", cl.name, dom, at, ln, n)
								for i := range x {
									t.Check(pl.Eq(pl.From(x[i]), before[i]) && x[i].IsNTT == (dom[i] == 't'), "%s refuses operands in domains %s (operand %d of length %d), but changed operand %d", cl.name, dom, at, ln, i)
								}
							}
							t.Trans(1)
							t.State(name, n, cyclic, cl.name, dom, at, ln)
						}
					}
				}
			}
			pan, _ := lib.Try(func() { pl.To[E](pl.Zero(n), true).Evaluate(c) })
			t.Check(pan, "Evaluate accepts a transform")
			t.Outcome("refused")
			var first []int
			for k := range w.ops {
				first = append(first, k)
			}
			w.explore(t, 1, first, start(n, w.q, 5))
			w.explore(t, 1, first, start(n, w.q, 2))
		})
	}
}

func start(n int, q *big.Int, v int) (m [R]reg) {
	for i := range m {
		p := pl.Zero(n)
		for j := range p {
			p[j].SetInt64(int64((i+1)*(j+2) + j*j + 3*v))
			p[j].Mod(p[j], q)
		}
		m[i] = reg{p, (v>>i)&1 == 1}
	}
	return
}

func run[E bignum.Uint[E]](r *lib.Run, name string, n, depth, split, step int, vs []int) {
	for _, cyclic := range []bool{true, false} {
		probe := newWorld[E](n, cyclic)
		for _, v := range vs {
			for s := 0; s < len(probe.ops); s += split * step {
				r.Case(fmt.Sprintf("seq/%s/r%d/cyclic=%v/start%d/%d", name, n, cyclic, v, s), func(t *lib.T) {
					w := newWorld[E](n, cyclic)
					var first []int
					for k := s; k < min(s+split, len(w.ops)); k++ {
						first = append(first, k)
					}
					w.explore(t, depth, first, start(n, w.q, v))
					t.Outcome("agrees with the model")
					t.Sample("%d operations, depth %d", len(w.ops), depth)
				})
			}
		}
	}
}

func main() {
	lib.Main("C20", lib.Options{QuickBudget: 150 * time.Second, Assumptions: []string{
		"accumulating operations are called with operands in one domain; transforms are tabulated from fresh evaluators (their values are checked by C17 and C18)",
	}}, func(r *lib.Run) {
		run[*lib.F17](r, "F17", 4, 2, 400, 1, []int{0, 7, 2, 5})
		run[*lib.F97](r, "F97", 8, 2, 400, 1, []int{0, 7, 3})
		run[*lib.F97](r, "F97", 16, 1, 400, 1, []int{0, 7, 3})
		// every operation once on long polynomials
		run[*lib.F12289](r, "F12289", 2048, 1, 100, 1, []int{0, 7})
		refuse[*lib.F97](r, "F97", 16)
		refuse[*lib.F97](r, "F97", 8)
		refuse[*lib.F17](r, "F17", 4)
		run[*lib.F17](r, "F17", 2, 2, 400, 1, []int{0, 7})
		if !r.Thorough {
			run[*lib.F17](r, "F17deep", 4, 3, 8, 3, []int{7})
		}
		if r.Thorough {
			run[*lib.F17](r, "F17deep", 4, 3, 10, 1, []int{7, 0, 3, 5})
			run[*lib.F97](r, "F97deep", 8, 3, 4, 1, []int{7, 0})
			run[*lib.F97](r, "F97x", 16, 2, 50, 1, []int{0, 7, 3})
		}
	})
}
