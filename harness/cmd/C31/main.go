// C31: the compiled statement is what Define said when it said it. Every
// mutable thing a caller hands over is changed at every later time; every
// sequence of building constraints from copies of constraints is explored; two
// compilations of one circuit prove and verify for each other.
package main

import (
	"fmt"
	"math/big"
	"time"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/zzverif/circ"
	"github.com/sp301415/ringo-snark/zzverif/jx"
	"github.com/sp301415/ringo-snark/zzverif/lib"
)

type E = *lib.F62

type circuit = circ.Circuit[E]

type sys struct {
	prv *buckler.Prover[E]
	vrf *buckler.Verifier[E]
	tpl *circuit
}

func compile(t *lib.T, rank, np, nw int, crs []byte, def func(c *circuit, ctx *buckler.Context[E])) *sys {
	c := &circuit{P: make([]buckler.PublicWitness[E], np), W: make([]buckler.Witness[E], nw), Def: def}
	p, v, err := buckler.Compile[E](rank, c, crs)
	t.Check(err == nil, "compile: %v", err)
	return &sys{p, v, c}
}

// verdict proves and verifies an assignment.
func (s *sys) verdict(p, w []circ.Vec) bool {
	c := &circuit{}
	for _, x := range p {
		c.P = append(c.P, circ.Elems[E](x))
	}
	for _, x := range w {
		c.W = append(c.W, circ.Elems[E](x))
	}
	pf, err := s.prv.Prove(c)
	if err != nil {
		return false
	}
	return s.vrf.Verify(&circuit{P: c.P, W: make([]buckler.Witness[E], len(w))}, pf)
}

// ---- constraints built from copies

const nTerms = 6

// op codes: 0..3 add a fresh term to A or B (sign), 4 B=A, 5 A=B, 6 ctx A, 7 ctx B.
var opNames = []string{"A+=", "B+=", "B=A", "A=B", "ctx(A)", "ctx(B)"}

var coefs = []int64{1, -1, 3, -5, 1, -1}

// play runs the sequence on any representation.
func play(seq []int, add func(v, term int), cp func(dst, src int), put func(v int)) {
	n := 0
	for _, o := range seq {
		switch o {
		case 0, 1:
			add(o, n%nTerms)
			n++
		case 2:
			cp(1, 0)
		case 3:
			cp(0, 1)
		case 4, 5:
			put(o - 4)
		}
	}
}

// useful sequences: end with putting, put nothing empty, both variables matter.
func useful(seq []int) bool {
	var m [2]int
	puts, ok, adds := 0, true, 0
	play(seq, func(v, k int) { m[v]++; adds++ }, func(d, s int) {
		if m[s] == 0 {
			ok = false
		}
		m[d] = m[s]
	}, func(v int) {
		puts++
		if m[v] == 0 {
			ok = false
		}
	})
	l := seq[len(seq)-1]
	return ok && puts >= 1 && (l >= 4 || l < 2) && adds <= nTerms
}

func copies(r *lib.Run, sum bool, prefix, depth, parts int) {
	kind := map[bool]string{true: "sum", false: "arith"}[sum]
	q := circ.Order[E]()
	for part := range parts {
		r.Case(fmt.Sprintf("copies/%s/p%d/d%d/%d", kind, prefix, depth, part), func(t *lib.T) {
			// A starts with some terms: appending in place needs spare room
			seq := make([]int, prefix+depth)
			cnt := 0
			for code := 0; ; code++ {
				x := code
				for i := prefix; i < len(seq); i++ {
					seq[i] = x % 6
					x /= 6
				}
				if x > 0 {
					break
				}
				if !useful(seq) {
					continue
				}
				cnt++
				if cnt%parts != part {
					continue
				}
				if r.Out() {
					return
				}
				var name string
				for _, o := range seq {
					name += " " + opNames[o]
				}
				lib.Note(t, name)
				// model: each put constraint is the coefficient vector over the witnesses
				var mv [2][nTerms]int64
				var rows [][nTerms]int64
				play(seq, func(v, k int) { mv[v][k] += coefs[k] * int64(2-k%2) }, func(d, s int) { mv[d] = mv[s] }, func(v int) { rows = append(rows, mv[v]) })

				n := 2
				s := compile(t, n, 1, nTerms, []byte("C31"), func(c *circuit, ctx *buckler.Context[E]) {
					var cv [2]buckler.ArithmeticConstraint[E]
					play(seq, func(v, k int) {
						var pw buckler.PublicWitness[E]
						if k%2 == 0 {
							pw = c.P[0]
						}
						switch coefs[k] {
						case 1:
							cv[v].AddTerm(pw, c.W[k])
						case -1:
							cv[v].SubTerm(pw, c.W[k])
						default:
							cv[v].AddTermWithConst(jx.El[E](coefs[k]), pw, c.W[k])
						}
					}, func(d, s int) { cv[d] = cv[s] }, func(v int) {
						if sum {
							ctx.AddSumCheckConstraint(cv[v], 0)
						} else {
							ctx.AddArithmeticConstraint(cv[v])
						}
					})
				})
				holds := func(w []circ.Vec) bool {
					for _, row := range rows {
						tot := new(big.Int)
						for i := range n {
							a := new(big.Int)
							for k := range nTerms {
								a.Add(a, new(big.Int).Mul(big.NewInt(row[k]), w[k][i]))
							}
							if sum {
								tot.Add(tot, a)
							} else if a.Mod(a, q).Sign() != 0 {
								return false
							}
						}
						if sum && tot.Mod(tot, q).Sign() != 0 {
							return false
						}
					}
					return true
				}
				// assignments: a generic one in the null space of all rows, one of
				// all rows but one, for every row
				for skip := -1; skip < len(rows); skip++ {
					var m [][nTerms]int64
					for i, row := range rows {
						if i != skip {
							m = append(m, row)
						}
					}
					w := null(m, n, q)
					want := holds(w)
					t.Check(skip >= 0 || want, "harness: null space")
					got := s.verdict([]circ.Vec{circ.Const(n, 2)}, w)
					t.Check(got == want, "verdict %v, expected %v for constraints %v and witness %v", got, want, rows, w)
					t.Trans(1)
					t.Outcome(fmt.Sprintf("%s %v", kind, got))
				}
				t.State(kind, name)
			}
			t.Trace(1)
		})
	}
}

// null returns a vector per slot that every row of m annihilates, generic
// otherwise.
func null(m [][nTerms]int64, n int, q *big.Int) []circ.Vec {
	w := make([]circ.Vec, nTerms)
	for k := range w {
		w[k] = make(circ.Vec, n)
	}
	var a [][]*big.Int
	for _, row := range m {
		r := make([]*big.Int, nTerms)
		for k := range r {
			r[k] = new(big.Int).Mod(big.NewInt(row[k]), q)
		}
		a = append(a, r)
	}
	piv := map[int]int{} // column -> row
	row := 0
	for c := 0; c < nTerms && row < len(a); c++ {
		p := -1
		for i := row; i < len(a); i++ {
			if a[i][c].Sign() != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		a[row], a[p] = a[p], a[row]
		inv := new(big.Int).ModInverse(a[row][c], q)
		for k := range a[row] {
			a[row][k] = new(big.Int).Mod(new(big.Int).Mul(a[row][k], inv), q)
		}
		for i := range a {
			if i != row && a[i][c].Sign() != 0 {
				f := new(big.Int).Set(a[i][c])
				for k := range a[i] {
					a[i][k] = new(big.Int).Mod(new(big.Int).Sub(a[i][k], new(big.Int).Mul(f, a[row][k])), q)
				}
			}
		}
		piv[c] = row
		row++
	}
	for i := range n {
		for k := range nTerms {
			if _, ok := piv[k]; !ok {
				w[k][i] = big.NewInt(int64(1000*(i+1) + 37*k*k + 11))
			}
		}
		for k := range nTerms {
			if r, ok := piv[k]; ok {
				s := new(big.Int)
				for j := range nTerms {
					if _, p := piv[j]; !p {
						s.Sub(s, new(big.Int).Mul(a[r][j], w[j][i]))
					}
				}
				w[k][i] = s.Mod(s, q)
			}
		}
	}
	return w
}

// ---- things changed later

// times at which a handed-over value is changed.
var times = []string{"never", "after the call", "after another call", "at the end of Define", "after Compile", "after the first proof"}

type mutable struct {
	name string
	np   int
	nw   int
	rank int
	// def states the relation; at tells when the time for a change has come
	def func(c *circuit, ctx *buckler.Context[E], at func(time int))
	// change changes the values handed over by def
	change func()
	good   []circ.Vec
	bad    [][]circ.Vec
	p      []circ.Vec
}

func mutables(r *lib.Run) []func() *mutable {
	n := 4
	v := circ.V
	var l []func() *mutable
	extra := func(c *circuit, ctx *buckler.Context[E]) { // another, independent call
		var a buckler.ArithmeticConstraint[E]
		a.AddTerm(nil, c.W[len(c.W)-1])
		a.SubTerm(nil, c.W[len(c.W)-1])
		ctx.AddArithmeticConstraint(a)
	}
	for _, to := range []int64{0, 1, 7} {
		l = append(l, func() *mutable {
			m := &mutable{name: fmt.Sprintf("coefficient->%d", to), nw: 2, rank: n, good: []circ.Vec{v(1, 2, 3, 4), v(3, 6, 9, 12)}}
			co := jx.El[E](3)
			m.def = func(c *circuit, ctx *buckler.Context[E], at func(int)) {
				var a buckler.ArithmeticConstraint[E]
				a.AddTermWithConst(co, nil, c.W[0])
				at(1)
				a.SubTerm(nil, c.W[1])
				ctx.AddArithmeticConstraint(a)
				at(2)
				extra(c, ctx)
			}
			m.change = func() { co.SetInt64(to) }
			for _, k := range []int64{0, 1, 7} {
				m.bad = append(m.bad, []circ.Vec{v(1, 2, 3, 4), v(k, 2*k, 3*k, 4*k)})
			}
			return m
		})
		l = append(l, func() *mutable {
			m := &mutable{name: fmt.Sprintf("sum->%d", to), nw: 1, rank: n, good: []circ.Vec{v(1, 2, 3, 4)}}
			s := big.NewInt(10)
			m.def = func(c *circuit, ctx *buckler.Context[E], at func(int)) {
				var a buckler.ArithmeticConstraint[E]
				a.AddTerm(nil, c.W[0])
				ctx.AddSumCheckConstraintBig(a, s)
				at(1)
				extra(c, ctx)
				at(2)
			}
			m.change = func() { s.SetInt64(to) }
			for _, k := range []int64{0, 1, 7} {
				m.bad = append(m.bad, []circ.Vec{v(k, 0, 0, 0)})
			}
			return m
		})
	}
	for _, b := range []int64{0, 1, 5, 6} {
		for _, to := range []int64{0, 3, 20} {
			l = append(l, func() *mutable {
				m := &mutable{name: fmt.Sprintf("inf bound %d->%d", b, to), nw: 1, rank: n, good: []circ.Vec{v(b, 0, -b, -b)}}
				x := big.NewInt(b)
				m.def = func(c *circuit, ctx *buckler.Context[E], at func(int)) {
					ctx.AddInfNormConstraintBig(c.W[0], x)
					at(1)
					extra(c, ctx)
					at(2)
				}
				m.change = func() { x.SetInt64(to) }
				m.bad = [][]circ.Vec{{v(b+1, 0, 0, 0)}, {v(0, 0, 0, -b-1)}}
				return m
			})
			l = append(l, func() *mutable {
				m := &mutable{name: fmt.Sprintf("two bound %d->%d", b, to), nw: 1, rank: 8, good: []circ.Vec{v(b, 0, 0, 0, 0, 0, 0, 0)}}
				x := big.NewInt(b * b)
				m.def = func(c *circuit, ctx *buckler.Context[E], at func(int)) {
					ctx.AddSqNormConstraintBig(c.W[0], x)
					at(1)
					extra(c, ctx)
					at(2)
				}
				m.change = func() { x.SetInt64(to * to) }
				m.bad = [][]circ.Vec{{v(b, 0, 0, 1, 0, 0, 0, 0)}, {v(0, -b-1, 0, 0, 0, 0, 0, 0)}}
				return m
			})
		}
	}
	if r.Thorough {
		l = append(l, func() *mutable {
			N := 2048
			m := &mutable{name: "approx bound", nw: 1, rank: N, good: []circ.Vec{circ.Const(N, 2)}, bad: [][]circ.Vec{{circ.Const(N, 1<<40)}}}
			x := big.NewInt(2)
			m.def = func(c *circuit, ctx *buckler.Context[E], at func(int)) {
				ctx.AddApproxInfNormConstraintBig(c.W[0], x)
				at(1)
				extra(c, ctx)
				at(2)
			}
			m.change = func() { x.SetInt64(1 << 41) }
			return m
		})
	}
	l = append(l, func() *mutable {
		m := &mutable{name: "list of factors", nw: 3, rank: n, good: []circ.Vec{v(1, 2, 3, 4), v(5, 6, 7, 8), v(5, 12, 21, 32)}}
		var ws []buckler.Witness[E]
		m.def = func(c *circuit, ctx *buckler.Context[E], at func(int)) {
			ws = []buckler.Witness[E]{c.W[0], c.W[1]}
			var a buckler.ArithmeticConstraint[E]
			a.AddTerm(nil, ws...)
			at(1)
			a.SubTerm(nil, c.W[2])
			ctx.AddArithmeticConstraint(a)
			at(2)
			extra(c, ctx)
		}
		m.change = func() { ws[0], ws[1] = ws[1], ws[1] }
		m.bad = [][]circ.Vec{{v(1, 2, 3, 4), v(5, 6, 7, 8), v(25, 36, 49, 64)}, {v(1, 2, 3, 4), v(5, 6, 7, 8), v(1, 4, 9, 16)}}
		return m
	})
	l = append(l, func() *mutable {
		m := &mutable{name: "constraint", nw: 3, rank: n, good: []circ.Vec{v(1, 2, 3, 4), v(1, 2, 3, 4), v(5, 6, 7, 8)}}
		var a buckler.ArithmeticConstraint[E]
		var cc *circuit
		m.def = func(c *circuit, ctx *buckler.Context[E], at func(int)) {
			cc = c
			a.AddTerm(nil, c.W[0])
			a.SubTerm(nil, c.W[1])
			ctx.AddArithmeticConstraint(a)
			at(1)
			extra(c, ctx)
			at(2)
		}
		m.change = func() {
			var z buckler.ArithmeticConstraint[E]
			z.AddTerm(nil, cc.W[2])
			z.AddTerm(nil, cc.W[2], cc.W[2])
			a.AddTerm(nil, cc.W[2])
			a.AddTermWithConst(jx.El[E](3), nil, cc.W[2], cc.W[2])
		}
		m.bad = [][]circ.Vec{{v(0, 0, 0, 0), v(0, 0, 0, 1), v(0, 0, 0, 0)}, {v(1, 2, 3, 4), v(2, 2, 3, 4), v(0, 0, 0, 0)}}
		return m
	})
	l = append(l, func() *mutable {
		m := &mutable{name: "template", np: 1, nw: 2, rank: n, p: []circ.Vec{v(2, 3, 4, 5)}, good: []circ.Vec{v(1, 2, 3, 4), v(2, 6, 12, 20)}}
		var cc *circuit
		m.def = func(c *circuit, ctx *buckler.Context[E], at func(int)) {
			cc = c
			var a buckler.ArithmeticConstraint[E]
			a.AddTerm(c.P[0], c.W[0])
			a.SubTerm(nil, c.W[1])
			ctx.AddArithmeticConstraint(a)
			at(1)
			at(2)
		}
		m.change = func() {
			for _, x := range []E{cc.P[0][0], cc.W[0][0], cc.W[1][0]} {
				x.SetUint64(6)
			}
			cc.W[0], cc.W[1], cc.P[0] = nil, nil, nil
		}
		m.bad = [][]circ.Vec{{v(1, 2, 3, 4), v(1, 2, 3, 4)}, {v(1, 2, 3, 4), v(2, 6, 12, 21)}}
		return m
	})
	return l
}

func later(r *lib.Run) {
	for _, mk := range mutables(r) {
		r.Case("later/"+mk().name, func(t *lib.T) {
			for when, at := range times {
				m := mk()
				lib.Note(t, m.name, " changed ", at)
				s := compile(t, m.rank, m.np, m.nw, []byte("C31"), func(c *circuit, ctx *buckler.Context[E]) {
					m.def(c, ctx, func(tm int) {
						// the witnesses of the template are in use until Define ends
						if tm == when && m.name != "template" {
							m.change()
						}
					})
					if when == 3 && m.name != "template" {
						m.change()
					}
				})
				if when == 4 {
					m.change()
				}
				for round := range 2 {
					t.Check(s.verdict(m.p, m.good), "a satisfying assignment is rejected, proof %d", round)
					for i, b := range m.bad {
						t.Check(!s.verdict(m.p, b), "violating assignment %d is accepted, proof %d", i, round)
						t.Trans(1)
					}
					if when == 5 && round == 0 {
						m.change()
					} else if when != 5 {
						break
					}
				}
				t.State(m.name, at)
			}
			t.Trace(1)
			t.Outcome("change has no effect")
		})
	}
}

// ---- two compilations

func interop(r *lib.Run) {
	q, root := circ.Order[E](), circ.NTTRoot[E](8)
	ls := circ.Letters()
	var ins []circ.Inst
	for i, a := range ls {
		ins = append(ins, circ.Word(8, q, root, 1, 2, a))
		ins = append(ins, circ.Word(8, q, root, 2, 2, a, ls[(i+1)%len(ls)], ls[(i+5)%len(ls)]))
		if r.Thorough {
			for j := range ls {
				ins = append(ins, circ.Word(8, q, root, 3, 2, a, ls[j]))
			}
		}
	}
	for i, in := range ins {
		r.Case(fmt.Sprintf("interop/%d", i), func(t *lib.T) {
			crs := []byte("C31 interop")
			a, err := circ.Compile[E](in.Spec, string(crs))
			t.Check(err == nil, "compile: %v", err)
			// compiled in between: other circuits of the same type
			_, err = circ.Compile[E](ins[(i+1)%len(ins)].Spec, string(crs))
			t.Check(err == nil, "compile: %v", err)
			b, err := circ.Compile[E](in.Spec, string(crs))
			t.Check(err == nil, "compile: %v", err)
			for i := range crs {
				crs[i] ^= 1
			}
			for k, d := range [][2]*circ.Sys[E]{{a, a}, {a, b}, {b, a}, {b, b}, {a, b}} {
				pf, err := d[0].Prove(in.P, in.W)
				t.Check(err == nil, "prove: %v", err)
				t.Check(d[1].Verify(in.P, pf), "%v: the verifier of another compilation rejects (%d)", in.Spec, k)
				t.Trans(2)
			}
			t.State(in.Spec.String())
			t.Trace(1)
			t.Outcome("compilations agree")
		})
	}
	r.Case("crs/changed-later", func(t *lib.T) {
		in := ins[0]
		crs := []byte("C31 crs")
		c1, c2 := circ.Build[E](in.Spec), circ.Build[E](in.Spec)
		p1, v1, e1 := buckler.Compile[E](in.Spec.Rank, c1, crs)
		for i := range crs {
			crs[i] = 0
		}
		p2, v2, e2 := buckler.Compile[E](in.Spec.Rank, c2, []byte("C31 crs"))
		t.Check(e1 == nil && e2 == nil, "compile: %v %v", e1, e2)
		for k := range 2 {
			pf, err := []*buckler.Prover[E]{p1, p2}[k].Prove(circ.Assign[E](in.Spec, in.P, in.W))
			t.Check(err == nil, "prove: %v", err)
			t.Check(v1.Verify(circ.Assign[E](in.Spec, in.P, nil), pf) && v2.Verify(circ.Assign[E](in.Spec, in.P, nil), pf), "a CRS changed after Compile matters (%d)", k)
			t.Trans(2)
		}
		t.Outcome("compilations agree")
	})
}

func main() {
	lib.Main("C31", lib.Options{QuickBudget: 150 * time.Second, CaseTimeout: 200 * time.Second, Assumptions: []string{
		"linear maps are the caller's objects and are not changed",
	}}, func(r *lib.Run) {
		copies(r, true, 3, 4, 8)
		copies(r, false, 3, 4, 8)
		copies(r, false, 0, 4, 8)
		if r.Thorough {
			copies(r, true, 0, 5, 8)
			copies(r, false, 1, 5, 16)
			copies(r, false, 2, 5, 16)
			copies(r, false, 3, 5, 16)
		}
		later(r)
		interop(r)
	})
}
