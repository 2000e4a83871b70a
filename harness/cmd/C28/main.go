// C28: verdicts and proofs do not depend on what the same objects did before,
// and calls leave their arguments alone: every sequence of calls up to a depth
// over shared provers and verifiers.
package main

import (
	"fmt"
	"math/big"
	"time"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zzverif/circ"
	"github.com/sp301415/ringo-snark/zzverif/jx"
	"github.com/sp301415/ringo-snark/zzverif/lib"
)

type E = *lib.F62

// step is one letter: it performs a call on the shared objects and checks it.
type step struct {
	name string
	run  func(t *lib.T)
}

// sequences calls visit for every word of the given depth that starts with
// first.
func sequences(n, depth, first int, visit func(w []int)) {
	w := make([]int, depth)
	w[0] = first
	var rec func(i int)
	rec = func(i int) {
		if i == depth {
			visit(w)
			return
		}
		for k := range n {
			w[i] = k
			rec(i + 1)
		}
	}
	rec(1)
}

// keep checks that f changes none of the arguments.
func keep(t *lib.T, what string, f func(), args ...any) {
	var h []uint64
	for _, a := range args {
		h = append(h, lib.DeepHash(a))
	}
	f()
	for i, a := range args {
		t.Check(lib.DeepHash(a) == h[i], "%s changed its argument %d", what, i)
	}
}

// ---- commitment scheme

type jrec struct {
	x   E
	com []*jindo.Commitment
	ev  []E
	pf  *jindo.Proof
	h   uint64
}

type jworld struct {
	params jindo.Parameters
	prv    *jindo.Prover[E]
	cp     *jindo.Prover[E]
	vrf    *jindo.Verifier[E]
	v      [3][]E
	com    [3]*jindo.Commitment
	op     [3]*jindo.Opening
	ch     [3]uint64
	last   *jrec
	all    []*jrec

	// a caller's buffers, overwritten in place for the next call
	x  E
	ev []E
	pf jindo.Proof
}

func newJ(N, batch int) *jworld {
	w := &jworld{params: jindo.NewParameters[E](N, batch), x: jx.El[E](0), ev: make([]E, batch)}
	for i := range w.ev {
		w.ev[i] = jx.El[E](0)
	}
	w.prv = jindo.NewProver[E](w.params, []byte("C28"))
	w.cp = w.prv.SafeCopy()
	w.vrf = jindo.NewVerifier[E](w.params, []byte("C28"))
	for k, n := range []int{w.params.Rank(), 1, N/2 + 1} {
		for i := range n {
			w.v[k] = append(w.v[k], jx.El[E](int64(k*100+i*i)-3))
		}
		w.commit(k, w.prv)
	}
	return w
}

func (w *jworld) commit(k int, p *jindo.Prover[E]) {
	w.com[k], w.op[k] = p.Commit(w.v[k])
	w.ch[k] = lib.DeepHash(w.com[k]) ^ lib.DeepHash(w.op[k])
}

func (w *jworld) args(k int) (v [][]E, c []*jindo.Commitment, o []*jindo.Opening) {
	for i := range w.params.Batch() {
		j := (k + i) % 3
		v, c, o = append(v, w.v[j]), append(c, w.com[j]), append(o, w.op[j])
	}
	return
}

func (w *jworld) eval(t *lib.T, p *jindo.Prover[E], k int, x int64) {
	v, c, o := w.args(k)
	r := &jrec{x: jx.El[E](x), com: c}
	w.x.Set(r.x)
	keep(t, "Evaluate", func() { r.ev, r.pf = p.Evaluate(w.x, v, c, o) }, w.x, v, c, o)
	for i := range v {
		t.Check(jx.B(r.ev[i]).Cmp(jx.EvalRef(v[i], r.x)) == 0, "wrong evaluation")
	}
	r.h = lib.DeepHash(r.pf)
	w.last = r
	w.all = append(w.all, r)
}

func (w *jworld) verify(t *lib.T, r *jrec, want bool) {
	var got bool
	keep(t, "Verify", func() { got = w.vrf.Verify(r.x, r.com, r.ev, r.pf) }, r.x, r.com, r.ev, r.pf)
	t.Check(got == want, "verdict %v, expected %v", got, want)
	w.x.Set(r.x)
	for i := range r.ev {
		w.ev[i].Set(r.ev[i])
	}
	w.pf = *r.pf
	keep(t, "Verify", func() { got = w.vrf.Verify(w.x, r.com, w.ev, &w.pf) }, w.x, r.com, w.ev, w.pf)
	t.Check(got == want, "verdict %v on the caller's buffers, expected %v", got, want)
}

func (w *jworld) steps() []step {
	bad := func(f func(r *jrec)) func(t *lib.T) {
		return func(t *lib.T) {
			if w.last == nil {
				return
			}
			r := *w.last
			r.pf = jx.CopyProof(r.pf)
			r.ev = jx.Clone(r.ev)
			f(&r)
			w.verify(t, &r, false)
		}
	}
	return []step{
		{"eval0", func(t *lib.T) { w.eval(t, w.prv, 0, 5) }},
		{"eval1copy", func(t *lib.T) { w.eval(t, w.cp, 1, -7) }},
		{"commit1", func(t *lib.T) { keep(t, "Commit", func() { w.commit(1, w.prv) }, w.v[1]) }},
		{"commit2copy", func(t *lib.T) { keep(t, "Commit", func() { w.commit(2, w.cp) }, w.v[2]) }},
		{"overwrite", func(t *lib.T) {
			// the caller fills the same vector with other values
			for i, e := range w.v[0] {
				e.SetInt64(int64((i+2)*(len(w.all)+3)) - 7)
			}
			w.commit(0, w.prv)
		}},
		{"verify", func(t *lib.T) {
			if w.last != nil {
				w.verify(t, w.last, true)
			}
		}},
		{"badeval", bad(func(r *jrec) { r.ev[0] = jx.El[E](1).Add(r.ev[0], jx.El[E](1)) })},
		{"badpoint", bad(func(r *jrec) { r.x = jx.El[E](1).Add(r.x, jx.El[E](1)) })},
		{"badproof", bad(func(r *jrec) { r.pf.Encode[0].Coeffs[0][0] ^= 1 })},
		{"malformed", bad(func(r *jrec) { r.pf.Partial = nil })},
		{"toolong", func(t *lib.T) {
			v := append(jx.Clone(w.v[0]), jx.El[E](1))
			p, _ := lib.Try(func() { w.prv.Commit(v) })
			t.Check(p, "a vector longer than the rank is committed")
			// evaluations of lists that do not fit together
			for k := range 8 {
				vs, c, o := w.args(0)
				switch k {
				case 0:
					vs = vs[1:]
				case 1:
					c = c[1:]
				case 2:
					o = o[1:]
				case 3:
					vs = append(vs, w.v[0])
				case 4:
					c = append(c, w.com[0])
				case 5:
					o = append(o, w.op[0])
				case 6:
					vs, c, o = append(vs, w.v[0]), append(c, w.com[0]), append(o, w.op[0])
				case 7:
					vs[len(vs)-1] = v
				}
				p, _ := lib.Try(func() { w.prv.Evaluate(jx.El[E](5), vs, c, o) })
				t.Check(p, "lists of %d polynomials, %d commitments and %d openings (batch %d; %d) are evaluated", len(vs), len(c), len(o), w.params.Batch(), k)
			}
		}},
	}
}

func (w *jworld) done(t *lib.T) {
	for k := range w.com {
		t.Check(lib.DeepHash(w.com[k])^lib.DeepHash(w.op[k]) == w.ch[k], "a later call changed commitment or opening %d", k)
	}
	for _, r := range w.all {
		t.Check(lib.DeepHash(r.pf) == r.h, "a later call changed a finished proof")
		w.verify(t, r, true)
	}
}

func scheme(r *lib.Run, N, batch, depth int) {
	n := len((&jworld{}).steps())
	for first := range n {
		r.Case(fmt.Sprintf("scheme/N%d/t%d/d%d/%d", N, batch, depth, first), func(t *lib.T) {
			w := newJ(N, batch)
			sequences(n, depth, first, func(word []int) {
				w.all, w.last = nil, nil
				for _, k := range word {
					st := w.steps()
					lib.Note(t, word, st[k].name)
					st[k].run(t)
					t.Trans(1)
				}
				w.done(t)
				t.State("scheme", N, batch, fmt.Sprint(word))
				t.Trace(1)
			})
			t.Outcome("history has no effect")
		})
	}
}

// ---- circuits

type cworld struct {
	in   circ.Inst
	alt  circ.Inst // same circuit, another satisfying assignment
	sys  *circ.Sys[E]
	oth  *circ.Sys[E] // an independent compilation of another circuit of the same type
	othI circ.Inst
	last *crec
	all  []*crec
	buf  *circ.Circuit[E] // the caller's assignment, overwritten in place for every call
}

// fill overwrites the caller's assignment.
func (w *cworld) fill(p, wit []circ.Vec) *circ.Circuit[E] {
	if w.buf == nil {
		w.buf = circ.Assign[E](w.in.Spec, w.in.P, w.in.W)
	}
	for i := range p {
		for j, x := range p[i] {
			w.buf.P[i][j].SetBigInt(x)
		}
	}
	for i := range w.buf.W {
		for j := range w.buf.W[i] {
			if wit == nil {
				w.buf.W[i][j].SetUint64(77)
			} else {
				w.buf.W[i][j].SetBigInt(wit[i][j])
			}
		}
	}
	return w.buf
}

type crec struct {
	p  []circ.Vec
	pf *buckler.Proof[E]
	h  uint64
}

func (w *cworld) prove(t *lib.T, in circ.Inst, scramble bool) {
	c := w.fill(in.P, in.W)
	if scramble {
		c = circ.Assign[E](in.Spec, in.P, in.W)
	}
	var pf *buckler.Proof[E]
	var err error
	keep(t, "Prove", func() { pf, err = w.sys.Prv.Prove(c) }, c.P, c.W)
	t.Check(err == nil, "satisfying assignment refused: %v", err)
	if scramble {
		for _, v := range c.P {
			for _, e := range v {
				e.SetUint64(12345)
			}
		}
		for _, v := range c.W {
			for _, e := range v {
				e.SetUint64(54321)
			}
		}
	}
	w.last = &crec{in.P, pf, lib.DeepHash(pf)}
	w.all = append(w.all, w.last)
}

func (w *cworld) verify(t *lib.T, p []circ.Vec, pf *buckler.Proof[E], want bool) {
	c := circ.Assign[E](w.in.Spec, p, nil)
	var got bool
	keep(t, "Verify", func() { got = w.sys.Vrf.Verify(c, pf) }, c.P, c.W, pf)
	t.Check(got == want, "verdict %v, expected %v", got, want)
	c = w.fill(p, nil)
	keep(t, "Verify", func() { got = w.sys.Vrf.Verify(c, pf) }, c.P, c.W, pf)
	t.Check(got == want, "verdict %v on the caller's buffers, expected %v", got, want)
}

func (w *cworld) steps() []step {
	return []step{
		{"prove", func(t *lib.T) { w.prove(t, w.in, false) }},
		{"prove alt", func(t *lib.T) { w.prove(t, w.alt, true) }},
		{"prove false", func(t *lib.T) {
			in := w.in.Clone()
			in.W[0][0].Add(in.W[0][0], big.NewInt(1000003))
			c := circ.Assign[E](in.Spec, in.P, in.W)
			pf, err := w.sys.Prv.Prove(c)
			if err == nil {
				w.verify(t, in.P, pf, false)
			}
		}},
		{"prove shape", func(t *lib.T) {
			c := circ.Assign[E](w.in.Spec, w.in.P, w.in.W)
			c.W = c.W[:len(c.W)-1]
			_, err := w.sys.Prv.Prove(c)
			t.Check(err != nil, "an assignment with a missing witness is proven")
		}},
		{"prove short", func(t *lib.T) {
			c := circ.Assign[E](w.in.Spec, w.in.P, w.in.W)
			c.W[len(c.W)-1] = c.W[len(c.W)-1][:1]
			p, err := lib.Try(func() {
				_, e := w.sys.Prv.Prove(c)
				t.Check(e != nil, "an assignment with a short witness is proven")
			})
			t.Check(!p, "panic: %v", err)
		}},
		{"verify", func(t *lib.T) {
			if w.last != nil {
				w.verify(t, w.last.p, w.last.pf, true)
			}
		}},
		{"verify false", func(t *lib.T) {
			if w.last != nil {
				pf := *w.last.pf
				pf.Evals = jx.Clone(pf.Evals)
				pf.Evals[0].Add(pf.Evals[0], jx.El[E](1))
				w.verify(t, w.last.p, &pf, false)
			}
		}},
		{"verify other input", func(t *lib.T) {
			if w.last == nil || len(w.in.P) == 0 {
				return
			}
			p := w.in.Clone().P
			for i := range p {
				copy(p[i], w.last.p[i])
			}
			k := len(w.all) % len(p[0])
			p[0][k] = new(big.Int).Add(p[0][k], big.NewInt(int64(len(w.all))))
			w.verify(t, p, w.last.pf, false)
		}},
		{"verify malformed", func(t *lib.T) {
			if w.last != nil {
				pf := *w.last.pf
				pf.Evals = pf.Evals[:1]
				w.verify(t, w.last.p, &pf, false)
				w.verify(t, w.last.p, nil, false)
			}
		}},
		{"other circuit", func(t *lib.T) {
			t.Check(w.oth.Verdict(w.othI.P, w.othI.W) == "accept", "another circuit's honest proof is not accepted")
			if w.last != nil {
				t.Check(!w.oth.Verify(w.othI.P, w.last.pf), "another circuit's verifier accepts the proof")
			}
		}},
	}
}

func (w *cworld) done(t *lib.T) {
	for _, r := range w.all {
		t.Check(lib.DeepHash(r.pf) == r.h, "a later call changed a finished proof")
	}
	if len(w.all) > 0 {
		w.verify(t, w.all[0].p, w.all[0].pf, true)
	}
}

func words(n int, k, salt int, names ...string) circ.Inst {
	var ls []circ.Letter
	for _, nm := range names {
		ls = append(ls, circ.LetterByName(nm))
	}
	return circ.Word(n, circ.Order[E](), circ.NTTRoot[E](n), salt, k, ls...)
}

func approx(n int, v int64) circ.Inst {
	w := circ.Const(n, v)
	for i := range w {
		if i%3 == 0 {
			w[i].Neg(w[i])
		}
	}
	return circ.Inst{Name: "approx", Spec: circ.Spec{Rank: n, NP: 1, NW: 2, Cs: []circ.Constraint{
		circ.Approx(0, 2), circ.Lin(1, 0, "id"), circ.Arith(circ.Tm(1, 0), circ.Tm(-1, -1, 1))}}, P: []circ.Vec{w}, W: []circ.Vec{w, w}}
}

func circuits(r *lib.Run, name string, depth int, steps []int, mk func(salt int) circ.Inst) {
	for i, first := range steps {
		r.Case(fmt.Sprintf("circuit/%s/d%d/%d", name, depth, first), func(t *lib.T) {
			w := &cworld{in: mk(1), alt: mk(2)}
			t.Outcome(fmt.Sprintf("%d public witnesses", len(w.in.P)))
			t.Check(fmt.Sprint(w.in.Spec) == fmt.Sprint(w.alt.Spec), "harness: %v and %v", w.in.Spec, w.alt.Spec)
			t.Check(fmt.Sprint(w.in.W) != fmt.Sprint(w.alt.W), "harness: the assignments are the same")
			var err error
			w.sys, err = circ.Compile[E](w.in.Spec, "C28")
			t.Check(err == nil, "compile: %v", err)
			w.othI = words(4, 1, 3, "mul", "lin-id", "sumzero")
			w.oth, err = circ.Compile[E](w.othI.Spec, "C28")
			t.Check(err == nil, "compile: %v", err)
			sequences(len(steps), depth, i, func(word []int) {
				w.all, w.last = nil, nil
				st := w.steps()
				for _, k := range word {
					lib.Note(t, word, st[steps[k]].name)
					st[steps[k]].run(t)
					t.Trans(1)
				}
				w.done(t)
				t.State(name, fmt.Sprint(word))
				t.Trace(1)
			})
			t.Outcome("history has no effect")
		})
	}
}

var _ bignum.Uint[E] = E(nil)

func main() {
	lib.Main("C28", lib.Options{QuickBudget: 150 * time.Second, CaseTimeout: 200 * time.Second, Assumptions: []string{
		"arguments are compared by a hash of everything reachable from them",
	}}, func(r *lib.Run) {
		all := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
		some := []int{0, 1, 3, 5, 6, 9}
		d := 2
		if r.Thorough {
			d = 3
			some = all
		}
		circuits(r, "approx", d, []int{0, 1, 2, 3, 5, 7}, func(s int) circ.Inst { return approx(2048, int64(s)) })
		circuits(r, "lin+sum", 3, some, func(s int) circ.Inst { return words(4, s, 4, "lin-shift", "sumzero", "mul") })
		circuits(r, "norms", d, all, func(s int) circ.Inst { return words(4, s, 0, "inf3", "two3", "inf3", "two5", "lin-ntt") })
		circuits(r, "pub", d, all, func(s int) circ.Inst { return words(8, s, 2, "pub", "affine", "lin-autc3", "lin-id", "deg3") })
		scheme(r, 33, 1, 3)
		scheme(r, 40, 2, 2)
		if r.Thorough {
			scheme(r, 33, 1, 4)
			scheme(r, 40, 3, 3)
			circuits(r, "lin+sum", 4, []int{0, 1, 2, 5, 6}, func(s int) circ.Inst { return words(4, s, 4, "lin-shift", "sumzero", "mul") })
		}
	})
}
