// C33: no strategy of a malicious prover makes a false statement accepted.
package main

import (
	"fmt"
	"math/big"
	"slices"
	"strings"
	"time"

	bexp "github.com/sp301415/ringo-snark/buckler/zzexp"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zzverif/bx"
	"github.com/sp301415/ringo-snark/zzverif/circ"
	"github.com/sp301415/ringo-snark/zzverif/jx"
	"github.com/sp301415/ringo-snark/zzverif/lib"
)

func bi(x int64) *big.Int { return big.NewInt(x) }

// prob is a circuit with a satisfying assignment and false statements.
type prob struct {
	circ.Inst
	lies []lie
}

// lie turns the satisfying assignment into a violating one; sum and lin say
// which check has to absorb the discrepancy, and last whether it is only in
// slot 0 of the last constraint.
type lie struct {
	name     string
	sum, lin bool
	last     bool
	f        func(p, w []circ.Vec)
}

func probs(n int, q, root *big.Int) []prob {
	z := func(f func(i int) int64) circ.Vec {
		v := make(circ.Vec, n)
		for i := range v {
			v[i] = bi(f(i))
		}
		return v
	}
	ramp := z(func(i int) int64 { return int64(i) + 2 })
	sq := z(func(i int) int64 { return int64(i+2) * int64(i+2) })
	tot, tot2 := int64(0), int64(0)
	for i := range n {
		tot += int64(i + 2)
		tot2 += int64(i+2) * int64(i+2)
	}
	small := z(func(i int) int64 { return int64(i%7) - 3 })
	bump := func(side string, k, slot int, d int64) func(p, w []circ.Vec) {
		return func(p, w []circ.Vec) {
			v := w
			if side == "p" {
				v = p
			}
			v[k][slot] = new(big.Int).Mod(new(big.Int).Add(v[k][slot], bi(d)), q)
		}
	}
	all := func(k int) func(p, w []circ.Vec) {
		return func(p, w []circ.Vec) {
			for i := range w[k] {
				w[k][i] = new(big.Int).Mod(new(big.Int).Add(w[k][i], bi(int64(5*i+1))), q)
			}
		}
	}
	S := func(np, nw int, cs ...circ.Constraint) circ.Spec { return circ.Spec{Rank: n, NP: np, NW: nw, Cs: cs} }
	var o []prob
	add := func(name string, s circ.Spec, p, w []circ.Vec, l ...lie) {
		o = append(o, prob{circ.Inst{Name: name, Spec: s, P: p, W: w}, l})
	}
	add("arith", S(1, 1, circ.Arith(circ.Tm(1, -1, 0, 0), circ.Tm(-1, 0))), []circ.Vec{sq}, []circ.Vec{ramp})
	add("arith2", S(2, 2, circ.Arith(circ.Tm(1, 1, 0), circ.Tm(-1, 0, 1)), circ.Arith(circ.Tm(1, -1, 0), circ.Tm(-1, -1, 1))), []circ.Vec{ramp, ramp}, []circ.Vec{ramp, ramp})
	add("sum", S(0, 1, circ.Sum(tot, circ.Tm(1, -1, 0))), nil, []circ.Vec{ramp},
		lie{"slot0", true, false, true, bump("w", 0, 0, 7)}, lie{"last", true, false, true, bump("w", 0, n-1, -3)}, lie{"all", true, false, true, all(0)})
	add("sum-pub", S(1, 1, circ.Sum(tot2, circ.Tm(1, 0, 0)), circ.Sum(tot, circ.Tm(1, 0))), []circ.Vec{ramp}, []circ.Vec{ramp},
		lie{"first", true, false, false, bump("w", 0, 0, 9)}, lie{"both", true, false, false, bump("p", 0, n-1, 1)})
	add("sum3", S(1, 2, circ.Arith(circ.Tm(1, -1, 0), circ.Tm(-1, 0)), circ.Sum(tot2, circ.Tm(1, 0, 1)), circ.Sum(tot2, circ.Tm(1, -1, 1, 0)), circ.Sum(0, circ.Tm(1, -1, 1, 1), circ.Tm(-1, -1, 0, 1))), []circ.Vec{ramp}, []circ.Vec{ramp, ramp},
		lie{"slot0", true, false, false, bump("w", 1, 0, 5)}, lie{"last", true, false, false, bump("w", 1, n-1, 1)})
	add("lin", S(0, 2, circ.Lin(1, 0, "shift")), nil, []circ.Vec{ramp, circ.LinApply("shift", ramp, q, root)},
		lie{"slot0", false, true, true, bump("w", 1, 0, 4)}, lie{"last", false, true, false, bump("w", 1, n-1, 4)}, lie{"all", false, true, false, all(1)})
	add("lin2", S(0, 3, circ.Lin(1, 0, "ntt"), circ.Lin(2, 1, "id"), circ.Lin(1, 2, "id")), nil,
		[]circ.Vec{ramp, circ.LinApply("ntt", ramp, q, root), circ.LinApply("ntt", ramp, q, root)},
		lie{"first", false, true, false, bump("w", 0, 1, 1)}, lie{"all", false, true, false, all(2)})
	add("all", S(2, 3, circ.Arith(circ.Tm(1, -1, 0, 0), circ.Tm(-1, 0)), circ.Sum(tot, circ.Tm(1, -1, 0)), circ.Lin(1, 0, "autn3"), circ.Sum(tot2, circ.Tm(1, 1, 0)), circ.Inf(2, 5)),
		[]circ.Vec{sq, ramp}, []circ.Vec{ramp, circ.LinApply("autn3", ramp, q, root), small},
		lie{"lin", false, true, false, bump("w", 1, n-1, 1)}, lie{"lin0", false, true, true, bump("w", 1, 0, 1)}, lie{"sum", true, false, true, bump("p", 1, 0, 1)})
	return o
}

var chals = []string{"projConst", "arithBatchConst", "linCheckBatchConst", "linCheckConst", "sumCheckBatchConst", "evalPoint"}

// deadline is the first challenge that must depend on an item.
func deadline(item, natural string, d interface {
	Has() (proj, arith, lin, sum bool)
}) string {
	proj, arith, lin, _ := d.Has()
	switch {
	case item == "linmaskcom" || item == "linmasksum":
		return "linCheckBatchConst"
	case item == "summaskcom" || item == "summasksum":
		return "sumCheckBatchConst"
	case natural == "evalPoint":
		return natural
	case proj && natural == "projConst":
		return "projConst"
	case arith:
		return "arithBatchConst"
	case lin:
		return "linCheckBatchConst"
	}
	return "sumCheckBatchConst"
}

type has struct{ a, b, c, d bool }

func (h has) Has() (bool, bool, bool, bool) { return h.a, h.b, h.c, h.d }

// attack runs one strategy and reports whether the real verifier accepts.
func attack[E bignum.Uint[E]](c *lib.T, sys *circ.Sys[E], p, w []circ.Vec, st bx.Strat) (bool, string, [][2]string) {
	return attackOn(c, sys, p, w, st, nil)
}

// attackOn is attack by an adversary who believes in another desugaring.
func attackOn[E bignum.Uint[E]](c *lib.T, sys *circ.Sys[E], p, w []circ.Vec, st bx.Strat, vary func(d *bx.Sys[E])) (bool, string, [][2]string) {
	d := bx.Desugar[E](sys.Spec)
	if vary != nil {
		vary(d)
	}
	c.Trans(2)
	c.State(sys.Spec.String(), p, w, st.Name, fmt.Sprint(st.Move), st.Hi)
	var res *bx.Result[E]
	pan, e := lib.Try(func() {
		r, err := bx.Prove(d, sys.Vrf, "crs", p, w, st)
		if err != nil {
			panic(err)
		}
		res = r
	})
	if pan {
		c.Outcome("strategy not applicable")
		c.Sample("%s: %v", st.Name, e)
		return false, fmt.Sprint(e), nil
	}
	c.Trace(1)
	return sys.Verify(p, res.Proof), res.Note, res.Items
}

// honest checks the conformance of the adversary with the implementation.
func honest[E bignum.Uint[E]](c *lib.T, sys *circ.Sys[E], p, w []circ.Vec) (bool, [][2]string) {
	ok, note, items := attack(c, sys, p, w, bx.Strat{Name: "honest"})
	if ok {
		c.Outcome("model bound: honest strategy accepted")
	} else {
		c.Outcome("model not bound: honest strategy rejected")
		c.Sample("not bound: %v %s", sys.Spec, note)
	}
	return ok, items
}

func transcript[E bignum.Uint[E]](c *lib.T, x circ.Inst) {
	sys, err := circ.Compile[E](x.Spec, "crs")
	c.Check(err == nil, "compile: %v", err)
	_, items := honest(c, sys, x.P, x.W)
	d := bx.Desugar[E](x.Spec)
	h := has{len(d.Second) > 0, len(d.Arith) > 0, len(d.Lins) > 0, len(d.Sums) > 0}
	for _, it := range items {
		dl := slices.Index(chals, deadline(it[0], it[1], h))
		to := append([]string{""}, chals[dl+1:]...)
		for _, t := range to {
			ok, _, _ := attack(c, sys, x.P, x.W, bx.Strat{Name: "transcript", Move: map[string]string{it[0]: t}})
			c.Check(!ok, "%s %v: a proof whose challenge %s does not depend on %s is accepted (bound to %q instead): the prover can choose it afterwards", x.Name, x.Spec, chals[dl], it[0], t)
		}
	}
	// several at once: every run of neighbouring kinds of items
	var kinds []string
	of := map[string][]string{}
	nat := map[string]string{}
	dls := map[string]int{}
	for _, it := range items {
		k := strings.TrimRight(it[0], "0123456789") + "@" + it[1]
		if of[k] == nil {
			kinds = append(kinds, k)
			nat[k] = it[1]
			dls[k] = slices.Index(chals, deadline(it[0], it[1], h))
		}
		of[k] = append(of[k], it[0])
	}
	for i, k := range kinds {
		var run []string
		dl := len(chals)
		for j := i; j < len(kinds) && nat[kinds[j]] == nat[k]; j++ {
			run = append(run, of[kinds[j]]...)
			dl = min(dl, dls[kinds[j]])
			if len(run) == 1 || len(run) > 4 && j < len(kinds)-1 && nat[kinds[j+1]] == nat[k] && nat[k] == "evalPoint" {
				continue
			}
			for _, t := range append([]string{""}, chals[dl+1:]...) {
				m := map[string]string{}
				for _, r := range run {
					m[r] = t
				}
				ok, _, _ := attack(c, sys, x.P, x.W, bx.Strat{Name: "transcript", Move: m})
				c.Check(!ok, "%s %v: a proof whose challenge %s does not depend on %v is accepted (bound to %q instead): the prover can choose them afterwards", x.Name, x.Spec, chals[dl], run, t)
			}
		}
	}
}

// entropy tries provers that derive one challenge from fewer bytes, or from
// another challenge: if such a proof is accepted, the verifier does so too and
// its challenge has few values or is known too early.
func entropy[E bignum.Uint[E]](c *lib.T, x circ.Inst, lens ...int) {
	sys, err := circ.Compile[E](x.Spec, "crs")
	c.Check(err == nil, "compile: %v", err)
	d := bx.Desugar[E](x.Spec)
	uses := map[string]bool{"projConst": len(d.Second) > 0, "arithBatchConst": len(d.Arith) > 1, "linCheckBatchConst": len(d.Lins) > 0, "linCheckConst": len(d.Lins) > 0, "sumCheckBatchConst": len(d.Sums) > 0, "evalPoint": true}
	// bindings tells whether anything is bound to a challenge, so that it
	// differs from a mere function of the one before
	try := func(name, what string, f func(of func(string) []byte) []byte) {
		st := bx.Strat{Name: name + " " + what, Chal: func(n string, of func(string) []byte) []byte {
			if n == name {
				return f(of)
			}
			return of(n)
		}}
		ok, _, _ := attack(c, sys, x.P, x.W, st)
		c.Check(!ok, "%s %v: a proof whose challenge %s is derived from %s is accepted", x.Name, x.Spec, name, what)
	}
	for i, name := range chals {
		if !uses[name] {
			continue
		}
		for _, k := range lens {
			try(name, fmt.Sprintf("the first %d bytes", k), func(of func(string) []byte) []byte { return of(name)[:k] })
			if k > 0 {
				try(name, fmt.Sprintf("the last %d bytes", k), func(of func(string) []byte) []byte { b := of(name); return b[len(b)-k:] })
				try(name, fmt.Sprintf("the first %d bytes, reversed", k), func(of func(string) []byte) []byte {
					b := slices.Clone(of(name)[:k])
					slices.Reverse(b)
					return b
				})
				try(name, fmt.Sprintf("the first %d bytes, padded", k), func(of func(string) []byte) []byte {
					b := make([]byte, len(of(name)))
					copy(b, of(name)[:k])
					return b
				})
			}
		}
		try(name, "the constant 1", func(func(string) []byte) []byte { return []byte{1} })
		for j, other := range chals {
			if j < i && (name == "evalPoint" || name == "linCheckConst" && other == "linCheckBatchConst" || other == "projConst") ||
				j == i+1 && name == "linCheckBatchConst" {
				if other == "projConst" && len(d.Second) == 0 && name == "arithBatchConst" && len(d.Lins)+len(d.Sums) == 0 {
					// nothing happens in between
					continue
				}
				try(name, other, func(of func(string) []byte) []byte { return of(other) })
			}
		}
	}
}

func absorb[E bignum.Uint[E]](c *lib.T, x prob) {
	sys, err := circ.Compile[E](x.Spec, "crs")
	c.Check(err == nil, "compile: %v", err)
	honest(c, sys, x.P, x.W)
	q, root := circ.Order[E](), circ.NTTRoot[E](x.Spec.Rank)
	for _, l := range x.lies {
		y := x.Inst.Clone()
		l.f(y.P, y.W)
		c.Check(!y.Spec.Holds(y.P, y.W, q, root), "harness: %s/%s is not a violation", x.Name, l.name)
		try := func(st bx.Strat) {
			ok, note, _ := attack(c, sys, y.P, y.W, st)
			c.Check(!ok, "%v: the false statement p=%v w=%v is accepted with strategy %s/%s %s", y.Spec, y.P, y.W, st.Name, st.Hi, note)
		}
		try(bx.Strat{Name: "plain"})
		for _, hi := range []string{"degR", "trunc", "wrap", "zero", "copy", "shift-1", "shift-2", "shift-n"} {
			try(bx.Strat{Name: "absorb", SumRem: l.sum, LinRem: l.lin, Hi: hi})
		}
		if l.last {
			try(bx.Strat{Name: "masklie", SumMaskLie: l.sum, LinMaskLie: l.lin})
		}
	}
}

// digits lets the digit witnesses of a violated norm constraint absorb the
// excess: in every digit position, in every slot.
func digits[E bignum.Uint[E]](c *lib.T, n int, kind string, bound int64, excess int64) {
	q := circ.Order[E]()
	v := circ.Const(n, 0)
	cs := circ.Constraint{Kind: kind, W: 0, Bound: bi(bound)}
	s := circ.Spec{Rank: n, NW: 1, Cs: []circ.Constraint{cs}}
	sys, err := circ.Compile[E](s, "crs")
	c.Check(err == nil, "compile: %v", err)
	honest(c, sys, nil, []circ.Vec{v})
	d := bx.Desugar[E](s)
	if len(d.Auxs) != 1 {
		return
	}
	a := d.Auxs[0]
	type variant struct {
		name string
		keep bool
		f    func(x bx.Con) (bx.Con, bool)
	}
	keepAll := func(x bx.Con) (bx.Con, bool) { return x, true }
	vars := []variant{{"all constraints", false, keepAll}}
	for _, keep := range []bool{false, true} {
		vars = append(vars, variant{"no digit constraint", keep, func(x bx.Con) (bx.Con, bool) { return x, !strings.HasPrefix(x.Tag, "digit") }})
		vars = append(vars, variant{"no recomposition", keep, func(x bx.Con) (bx.Con, bool) { return x, x.Tag != "recompose" }})
		if kind == "inf" {
			for k := range a.Base {
				tag := fmt.Sprintf("digit%d", k)
				vars = append(vars, variant{"no " + tag, keep, func(x bx.Con) (bx.Con, bool) { return x, x.Tag != tag }})
				vars = append(vars, variant{"only " + tag, keep, func(x bx.Con) (bx.Con, bool) {
					return x, x.Tag == tag || !strings.HasPrefix(x.Tag, "digit")
				}})
			}
		} else {
			for m := -1; m <= a.PBase+1; m += a.PBase + 2 { // mask or not
				vars = append(vars, variant{"ternary digits", keep, func(x bx.Con) (bx.Con, bool) {
					if x.Tag == "digit" {
						x.Terms = []bx.Term{{Coef: bi(1), Pub: -1, Wit: []int{a.First, a.First, a.First}}, {Coef: bi(-1), Pub: m, Wit: []int{a.First}}}
					}
					return x, true
				}})
			}
		}
	}
	tryAll := func(w circ.Vec, st bx.Strat, what string) {
		for _, x := range vars {
			sx := st
			sx.Name += "/" + x.name
			ok, _, _ := attackOn(c, sys, nil, []circ.Vec{w}, sx, func(d *bx.Sys[E]) { d.Vary(x.keep, x.f, func(string) bool { return true }) })
			c.Check(!ok, "%v: %v is accepted with %s (%s)", s, w, what, x.name)
		}
	}
	if kind == "two" { // squared norms just below zero
		w := v.Clone()
		w[0] = new(big.Int).ModSqrt(new(big.Int).Sub(q, bi(1)), q)
		c.Check(!s.Holds(nil, []circ.Vec{w}, q, nil), "harness: not a violation")
		st := bx.Strat{Name: "negative digit"}
		st.Tamper = func(ww [][]*big.Int) {
			for i := range a.Base {
				ww[a.First][i].SetInt64(0)
			}
			ww[a.First][len(a.Base)-1].Sub(q, bi(1))
		}
		tryAll(w, st, "a negative digit")
	}
	for slot := range n {
		w := v.Clone()
		w[slot] = bi(bound + excess)
		if kind == "two" { // a square root of something above the bound
			w[slot] = new(big.Int).Sqrt(bi(bound))
			w[slot].Add(w[slot], bi(excess))
		}
		c.Check(!s.Holds(nil, []circ.Vec{w}, q, nil), "harness: not a violation")
		for k := range a.Base {
			for _, fill := range []int64{0, 1} {
				st := bx.Strat{Name: fmt.Sprintf("digit%d/%d/%d", slot, k, fill)}
				st.Tamper = func(ww [][]*big.Int) {
					val := new(big.Int).Set(w[slot])
					if kind == "two" {
						val.Mul(val, val)
					}
					at := func(i int) *big.Int {
						if kind == "two" {
							return ww[a.First][i]
						}
						return ww[a.First+i][slot]
					}
					for i := range a.Base {
						at(i).SetInt64(0)
						if i != k {
							at(i).SetInt64(fill)
							val.Sub(val, new(big.Int).Mul(a.Base[i], bi(fill)))
						}
					}
					inv := new(big.Int).ModInverse(a.Base[k], q)
					val.Mul(val, inv)
					at(k).Mod(val, q)
				}
				if slot > 0 {
					ok, _, _ := attack(c, sys, nil, []circ.Vec{w}, st)
					c.Check(!ok, "%v: %v is accepted with digit %d absorbing the excess", s, w, k)
					continue
				}
				tryAll(w, st, fmt.Sprintf("digit %d absorbing the excess", k))
			}
		}
		if n > 4 && slot == 1 {
			break
		}
	}
}

func approx[E bignum.Uint[E]](c *lib.T, n int, bound int64) {
	q := circ.Order[E]()
	s := circ.Spec{Rank: n, NW: 1, Cs: []circ.Constraint{circ.Approx(0, bound)}}
	sys, err := circ.Compile[E](s, "crs")
	c.Check(err == nil, "compile: %v", err)
	v := circ.Const(n, bound)
	honest(c, sys, nil, []circ.Vec{v})
	a := bx.Desugar[E](s).Auxs[0]
	w := circ.Const(n, 0)
	w[n/2] = new(big.Int).Rsh(q, 2)
	without := ""
	try := func(name string, f func(ww [][]*big.Int), lin bool) {
		for _, keep := range []bool{false, true} {
			ok, _, _ := attackOn(c, sys, nil, []circ.Vec{w}, bx.Strat{Name: name + "/" + without, Tamper2: f, LinRem: lin, Hi: "trunc"}, func(d *bx.Sys[E]) {
				if without != "" {
					d.Vary(keep, func(x bx.Con) (bx.Con, bool) { return x, x.Tag != without }, func(tag string) bool { return tag != without })
				}
			})
			c.Check(!ok, "%v: a vector with the entry q/4 is accepted with strategy %s (without %s)", s, name, without)
			if without == "" {
				break
			}
		}
	}
	try("plain", nil, false)
	try("claim-zero", func(ww [][]*big.Int) {
		for i := range ww[a.First] {
			ww[a.First][i] = new(big.Int)
			ww[a.First+1][i] = new(big.Int)
		}
	}, false)
	try("claim-zero/absorb", func(ww [][]*big.Int) {
		for i := range ww[a.First] {
			ww[a.First][i] = new(big.Int)
			ww[a.First+1][i] = new(big.Int)
		}
	}, true)
	without = "project"
	try("claim-zero", func(ww [][]*big.Int) {
		for i := range ww[a.First] {
			ww[a.First][i] = new(big.Int)
			ww[a.First+1][i] = new(big.Int)
		}
	}, false)
	without = "recompose"
	try("digits-zero", func(ww [][]*big.Int) {
		for i := range ww[a.First+1] {
			ww[a.First+1][i] = new(big.Int)
		}
	}, false)
	for k := range a.Base {
		if k == 3 {
			break
		}
		inv := new(big.Int).ModInverse(a.Base[k], q)
		for _, without = range []string{"", "digit"} {
			if k > 0 && without != "" {
				continue
			}
			try(fmt.Sprintf("digit%d", k), func(ww [][]*big.Int) {
				for i := range 128 {
					for j := range a.Base {
						ww[a.First+1][i*len(a.Base)+j] = new(big.Int)
					}
					x := new(big.Int).Mul(ww[a.First][i], inv)
					ww[a.First+1][i*len(a.Base)+k] = x.Mod(x, q)
				}
			}, false)
		}
	}
}

// degree: whatever the rows and slots of an opening hold, an accepted
// evaluation is that of a polynomial with fewer than Rank() coefficients.
func degree[E bignum.Uint[E]](c *lib.T, size int) {
	q := circ.Order[E]()
	par := jindo.NewParameters[E](size, 1)
	prv, vrf := jindo.NewProver[E](par, []byte("crs")), jindo.NewVerifier[E](par, []byte("crs"))
	ck := jindo.NewCommitKey(par, []byte("crs"))
	one := jx.El[E](1)
	com, open := prv.Commit(nil)
	bx.PatchLast(par, ck, com, open, one)
	for _, xi := range []int64{2, 3, -5} {
		x := jx.El[E](xi)
		for e := 0; e <= par.Rank()+1; e++ {
			y := new(big.Int).Exp(jx.B(x), bi(int64(e)), q)
			_, pf := prv.Evaluate(x, [][]E{{jx.ElB[E](y)}}, []*jindo.Commitment{com}, []*jindo.Opening{open})
			ok := vrf.Verify(x, []*jindo.Commitment{com}, []E{jx.ElB[E](y)}, pf)
			c.Trans(2)
			c.Trace(1)
			c.State(size, xi, e)
			if ok {
				c.Outcome("accepted")
				c.Check(e < par.Rank(), "size %d: a commitment that evaluates as X^%d is accepted although Rank() is %d", size, e, par.Rank())
			} else {
				c.Outcome("rejected")
			}
		}
	}
}

func field[E bignum.Uint[E]](r *lib.Run, name string, n int, wide bool) {
	q, root := circ.Order[E](), circ.NTTRoot[E](n)
	for _, x := range probs(n, q, root) {
		r.Case(fmt.Sprintf("transcript/%s/r%d/%s", name, n, x.Name), func(c *lib.T) { transcript[E](c, x.Inst) })
		if wide {
			r.Case(fmt.Sprintf("entropy/%s/r%d/%s", name, n, x.Name), func(c *lib.T) { entropy[E](c, x.Inst, 0, 1, 2, 3, 4, 5) })
		}
		if len(x.lies) > 0 {
			r.Case(fmt.Sprintf("absorb/%s/r%d/%s", name, n, x.Name), func(c *lib.T) { absorb[E](c, x) })
		}
	}
	for _, k := range []struct {
		kind      string
		bound, ex int64
	}{{"inf", 2, 1}, {"inf", 5, 1}, {"inf", 8, 100}, {"two", 3, 1}, {"two", 8, 5}} {
		if k.kind == "two" && new(big.Int).SetInt64(k.bound).BitLen() > n {
			continue
		}
		r.Case(fmt.Sprintf("digits/%s/r%d/%s%d", name, n, k.kind, k.bound), func(c *lib.T) { digits[E](c, n, k.kind, k.bound, k.ex) })
	}
}

func main() {
	lib.Main("C33", lib.Options{QuickBudget: 200 * time.Second, ThoroughBudget: 40 * time.Minute, CaseTimeout: 300 * time.Second, Assumptions: []string{
		"soundness errors of 2^-50 and less are ignored",
		"when the honest strategy of the adversary is rejected (the protocol was changed), its attacks may be vacuous: the outcome 'model not bound' is recorded",
	}}, func(r *lib.Run) {
		for _, s := range []int{1, 2, 8, 33} {
			r.Case(fmt.Sprintf("degree/f62/%d", s), func(c *lib.T) { degree[*lib.F62](c, s) })
		}
		field[*lib.F62](r, "f62", 4, true)
		field[*lib.F62](r, "f62", 16, false)
		r.Case("approx/f62/r2048", func(c *lib.T) { approx[*lib.F62](c, 2048, 1) })
		r.Case("transcript/f62/r2048/approx", func(c *lib.T) {
			transcript[*lib.F62](c, circ.Inst{Name: "approx", Spec: circ.Spec{Rank: 2048, NW: 1, Cs: []circ.Constraint{circ.Approx(0, 1)}}, W: []circ.Vec{circ.Const(2048, 1)}})
		})
		r.Case("entropy/f62/r2048/approx", func(c *lib.T) {
			lens := []int{0, 1, 2}
			if r.Thorough {
				lens = []int{0, 1, 2, 3, 4, 5, 6}
			}
			entropy[*lib.F62](c, circ.Inst{Name: "approx", Spec: circ.Spec{Rank: 2048, NW: 1, Cs: []circ.Constraint{circ.Approx(0, 1)}}, W: []circ.Vec{circ.Const(2048, 1)}}, lens...)
		})
		if r.Thorough {
			field[*lib.F62](r, "f62", 2, true)
			field[*lib.F62](r, "f62", 8, false)
			field[*lib.F62](r, "f62", 64, false)
			field[*bexp.Uint110](r, "u110", 4, true)
			field[*bexp.Uint220](r, "u220", 8, false)
			r.Case("approx/f62/r4096", func(c *lib.T) { approx[*lib.F62](c, 4096, 3) })
		}
	})
}
