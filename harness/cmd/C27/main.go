// C27: what is meant to be used by several threads at once works under every
// schedule: the packages are instrumented with a scheduling point before every
// statement, and a controlled scheduler preempts one thread at every kind of
// point, with the other thread running to its end (or up to any of its own
// points) meanwhile.
package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/sp301415/ringo-snark/buckler"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/math/csprng"
	"github.com/sp301415/ringo-snark/zzverif/circ"
	"github.com/sp301415/ringo-snark/zzverif/jx"
	"github.com/sp301415/ringo-snark/zzverif/lib"
	"github.com/sp301415/ringo-snark/zzverif/sched"
)

type E = *lib.F62

var _ bignum.Uint[E] = E(nil)

// job is the work of one thread; out is what it produced.
type job func() (out any)

// scenario makes fresh objects and the jobs of two threads over them.
type scenario func(t *lib.T) [2]job

type runner struct {
	t    *lib.T
	mk   scenario
	seed int
	solo [2]uint64
}

func (x *runner) fresh() ([2]job, [2]func()) {
	lib.Reseed(x.t.ID, x.seed)
	j := x.mk(x.t)
	return j, [2]func(){lib.Env("A", x.seed), lib.Env("B", x.seed)}
}

func (x *runner) run(stopA, stopB []int, order [2]int, log func(th, n, site int)) ([2]uint64, sched.Result) {
	jobs, env := x.fresh()
	var outs [2]any
	stop := [2][]int{stopA, stopB}
	var th []sched.Thread
	for _, k := range order {
		th = append(th, sched.Thread{Run: func() { outs[k] = jobs[k]() }, Env: env[k], Stop: stop[k]})
	}
	res := sched.Run(th, log)
	for i, p := range res.Panic {
		x.t.Check(p == nil, "thread %d panics: %v", order[i], p)
	}
	return [2]uint64{result(outs[0]), result(outs[1])}, res
}

// points picks the points of a thread at which it is preempted: for every
// statement the first keep executions, then those whose number is a power of
// two, and the last; with a negative keep only the first execution.
// Only points whose name starts with in count.
func points(ev []int, keep int, in string) (pts []int) {
	cnt := map[int]int{}
	last := map[int]int{}
	for n, s := range ev {
		if !strings.HasPrefix(sched.Sites[s], in) {
			continue
		}
		cnt[s]++
		last[s] = n + 1
		if k := cnt[s]; k <= keep || k&(k-1) == 0 && keep >= 0 || k == 1 {
			pts = append(pts, n+1)
		}
	}
	for _, n := range last {
		if keep < 0 {
			break
		}
		pts = append(pts, n)
	}
	sort.Ints(pts)
	var o []int
	for _, p := range pts {
		if len(o) == 0 || o[len(o)-1] != p {
			o = append(o, p)
		}
	}
	return o
}

func explore(r *lib.Run, name string, parts, keep int, two, sym bool, in string, stride int, mk scenario) {
	for part := range parts {
		r.Case(fmt.Sprintf("%s/%d", name, part), func(t *lib.T) {
			x := &runner{t: t, mk: mk, seed: r.Seed}
			var ev [2][]int
			log := func(th, n, site int) { ev[th] = append(ev[th], site) }
			// each thread alone: the other one runs later
			jobs, env := x.fresh()
			var outs [2]any
			sched.Run([]sched.Thread{{Run: func() { outs[0] = jobs[0]() }, Env: env[0]}}, log)
			x.solo[0] = result(outs[0])
			ev[1], ev[0] = nil, ev[0]
			jobs, env = x.fresh()
			sched.Run([]sched.Thread{{Run: func() { outs[1] = jobs[1]() }, Env: env[1]}}, func(th, n, site int) { log(1, n, site) })
			x.solo[1] = result(outs[1])

			pts := [2][]int{points(ev[0], keep, in), points(ev[1], keep, in)}
			blocked := 0
			try := func(first int, sa, sb []int) bool {
				if blocked >= 3 {
					t.Outcome("threads wait for each other: not explored further")
					return false
				}
				got, res := x.run(sa, sb, [2]int{first, 1 - first}, nil)
				t.Trans(1)
				for k := range got {
					where := func(k int, s []int) string {
						o := ""
						for _, n := range s {
							if n <= len(ev[k]) {
								o += " " + sched.Sites[ev[k][n-1]]
							}
						}
						return o
					}
					t.Check(got[k] == x.solo[k], "thread %d has another result than alone; thread %d first, thread 0 preempted before%s, thread 1 before%s", k, first, where(0, sa), where(1, sb))
				}
				if res.Blocked {
					blocked++
				} else {
					t.Check(res.Points[0] > 0, "harness: no scheduling points")
					t.State(name, first, fmt.Sprint(sa, sb))
					t.Outcome("same results as alone")
				}
				return true
			}
			n := 0
			for first := range 2 {
				if sym && first == 1 {
					break // the threads do the same
				}
				for i, p := range pts[first] {
					n++
					if n%stride != 0 || n/stride%parts != part {
						continue
					}
					var st [2][]int
					st[first] = []int{p}
					if !try(first, st[0], st[1]) || r.Out() {
						return
					}
					if two {
						// the other thread is preempted too, at a stride of its points
						o := pts[1-first]
						step := max(1, len(o)/40)
						for j := i % step; j < len(o); j += step {
							st[1-first] = []int{o[j]}
							if !try(first, st[0], st[1]) || r.Out() {
								return
							}
						}
					}
				}
			}
			t.Trace(1)
			t.Sample("%d and %d statements executed, %d and %d preemption points", len(ev[0]), len(ev[1]), len(pts[0]), len(pts[1]))
		})
	}
}

func vec(n, k int) []E {
	v := make([]E, n)
	for i := range v {
		v[i] = jx.El[E](int64(i*i + 7*k*i + k))
	}
	return v
}

type world struct {
	params jindo.Parameters
	prv    *jindo.Prover[E]
	com    []*jindo.Commitment
	op     []*jindo.Opening
	v      [][]E
	x      E
	ev     []E
	pf     *jindo.Proof
}

func newWorld(N, batch int) *world {
	lib.Reseed("C27 world", N)
	w := &world{params: jindo.NewParameters[E](N, batch)}
	w.prv = jindo.NewProver[E](w.params, []byte("C27"))
	for i := range batch {
		w.v = append(w.v, vec(w.params.Rank(), 3+i))
		c, o := w.prv.Commit(w.v[i])
		w.com, w.op = append(w.com, c), append(w.op, o)
	}
	w.x = jx.El[E](12345)
	w.ev, w.pf = w.prv.Evaluate(w.x, w.v, w.com, w.op)
	return w
}

type cc struct {
	in  circ.Inst
	sys *circ.Sys[E]
	pf  *buckler.Proof[E]
}

// later is a result that is worked out after the schedule.
type later func() any

func result(x any) uint64 {
	if f, ok := x.(later); ok {
		x = f()
	}
	return lib.DeepHash(x)
}

type pair struct{ a, b any }

func clone(p *bigpoly.Poly[E]) *bigpoly.Poly[E] {
	q := bigpoly.NewPoly[E](p.Rank(), p.IsNTT)
	q.CopyFrom(p)
	return q
}

func main() {
	lib.Main("C27", lib.Options{MaxProcs: 1, QuickBudget: 200 * time.Second, CaseTimeout: 240 * time.Second, Assumptions: []string{
		"a context switch happens between two statements of jindo, buckler, math/csprng and math/bigpoly; calls into other packages are atomic",
	}}, func(r *lib.Run) {
		keep, two := 0, false
		if r.Thorough {
			keep, two = 4, true
		}
		// in the quick tier the costly scenarios use every k-th statement only
		st := func(k int) int {
			if r.Thorough {
				return 1
			}
			return k
		}
		// with two polynomials the moduli are products of two primes
		w, w2 := newWorld(33, 1), newWorld(33, 2)
		if n := len(w2.params.RingQ().SubRings); n < 2 {
			panic("C27: parameters with a single prime")
		}
		commit := func(p *jindo.Prover[E], k int) job {
			return func() any { c, o := p.Commit(vec(w.params.Rank()-5*k, k)); return pair{c, o} }
		}
		eval := func(p *jindo.Prover[E], x int64) job {
			return func() any {
				e, pf := p.Evaluate(jx.El[E](x), w.v, w.com, w.op)
				return pair{e, pf}
			}
		}
		explore(r, "commit-commit", 8, keep, two, true, "", 1, func(*lib.T) [2]job {
			a, b := w.prv.SafeCopy(), w.prv.SafeCopy()
			return [2]job{commit(a, 1), commit(b, 2)}
		})
		explore(r, "commit-evaluate", 8, keep, two, false, "", 1, func(*lib.T) [2]job {
			a, b := w.prv.SafeCopy(), w.prv.SafeCopy()
			return [2]job{commit(a, 1), eval(b, 77)}
		})
		explore(r, "evaluate-evaluate", 4, keep, two, true, "", 1, func(*lib.T) [2]job {
			a, b := w.prv.SafeCopy(), w.prv.SafeCopy()
			return [2]job{eval(a, 5), eval(b, 77)}
		})
		explore(r, "commit-commit-2", 8, keep, two, true, "", st(2), func(*lib.T) [2]job {
			a, b := w2.prv.SafeCopy(), w2.prv.SafeCopy()
			return [2]job{commit(a, 1), commit(b, 2)}
		})
		explore(r, "evaluate-commit-2", 4, keep, two, false, "", st(2), func(*lib.T) [2]job {
			a, b := w2.prv.SafeCopy(), w2.prv.SafeCopy()
			return [2]job{func() any {
				e, pf := a.Evaluate(jx.El[E](5), w2.v, w2.com, w2.op)
				return pair{e, pf}
			}, commit(b, 2)}
		})
		// the original itself and a copy of a copy; the original is rebuilt for
		// every schedule, so fewer points are used
		explore(r, "original", 8, 0, false, false, "", st(2), func(*lib.T) [2]job {
			a := jindo.NewProver[E](w.params, []byte("C27"))
			b := a.SafeCopy().SafeCopy()
			return [2]job{commit(a, 1), commit(b, 2)}
		})
		explore(r, "prover-verifier", 4, 0, false, false, "", st(2), func(*lib.T) [2]job {
			a := w.prv.SafeCopy()
			v := jindo.NewVerifier[E](w.params, []byte("C27"))
			return [2]job{commit(a, 1), func() any { return v.Verify(w.x, w.com, w.ev, w.pf) }}
		})
		explore(r, "verifier-verifier", 4, 0, false, true, "", 1, func(*lib.T) [2]job {
			a, b := jindo.NewVerifier[E](w.params, []byte("C27")), jindo.NewVerifier[E](w.params, []byte("C27"))
			bad := []E{jx.El[E](1).Add(w.ev[0], jx.El[E](1))}
			return [2]job{
				func() any { return a.Verify(w.x, w.com, w.ev, w.pf) },
				func() any { return b.Verify(w.x, w.com, bad, w.pf) }}
		})
		explore(r, "verifier-verifier-2", 4, 0, false, true, "", st(2), func(*lib.T) [2]job {
			a, b := jindo.NewVerifier[E](w2.params, []byte("C27")), jindo.NewVerifier[E](w2.params, []byte("C27"))
			bad := []E{jx.El[E](1).Add(w2.ev[0], jx.El[E](1)), w2.ev[1]}
			return [2]job{
				func() any { return a.Verify(w2.x, w2.com, w2.ev, w2.pf) },
				func() any { return b.Verify(w2.x, w2.com, bad, w2.pf) }}
		})
		explore(r, "construction", 4, 0, false, true, "", st(5), func(*lib.T) [2]job {
			mk := func(N int) job {
				return func() any {
					p := jindo.NewParameters[E](N, 1)
					c, _ := jindo.NewProver[E](p, []byte("x")).Commit(vec(N, 1))
					return pair{[]int{p.Rank(), p.Rows(), p.Cols(), p.Slots()}, c}
				}
			}
			return [2]job{mk(20), mk(40)}
		})

		// copies of the sampler
		tw := csprng.NewTwinCDTGaussianSampler(3.7)
		explore(r, "sampler", 1, 3, true, true, "", 1, func(*lib.T) [2]job {
			f := func(s *csprng.TwinCDTGaussianSampler) job {
				return func() any {
					var o []int64
					for i := range 12 {
						o = append(o, s.Sample(float64(i)/7), int64(s.SampleCoset(float64(i)/5)*1e6))
					}
					return o
				}
			}
			return [2]job{f(tw.SafeCopy()), f(tw.SafeCopy())}
		})

		// one evaluator used by two threads on polynomials of their own
		cyc := bigpoly.NewCyclicEvaluator[E](8)
		ctm := bigpoly.NewCyclotomicEvaluator[E](8)
		explore(r, "evaluator", 4, keep, two, true, "", 1, func(*lib.T) [2]job {
			f := func(k int) job {
				return func() any {
					p, q := bigpoly.NewPoly[E](8, false), bigpoly.NewPoly[E](8, false)
					p.Coeffs, q.Coeffs = vec(8, k), vec(8, k+1)
					var o []any
					add := func(x *bigpoly.Poly[E]) { o = append(o, clone(x)) }
					c := q.Coeffs[1]
					{
						P, Q := cyc.NTT(p), cyc.NTT(q)
						add(cyc.Mul(P, Q))
						cyc.MulAddTo(Q, P, P)
						cyc.MulSubTo(Q, P, P)
						cyc.ScalarMulAddTo(Q, P, c)
						cyc.ScalarMulSubTo(Q, P, c)
						add(cyc.InvNTT(Q))
						add(cyc.Add(p, q))
					}
					{
						P, Q := ctm.NTT(p), ctm.NTT(q)
						add(ctm.Mul(P, Q))
						ctm.MulAddTo(Q, P, P)
						ctm.ScalarMulAddTo(Q, P, c)
						ctm.AutTo(Q, Q, 5)
						add(ctm.InvNTT(Q))
						ctm.AutTo(q, q, 3)
						add(q)
					}
					return o
				}
			}
			return [2]job{f(1), f(5)}
		})

		// circuits compiled separately
		mkc := func(k, salt int) *cc {
			names := []string{"mul", "lin-shift", "sumzero"}
			if k == 1 {
				names = []string{"inf3", "two3"}
			}
			var ls []circ.Letter
			for _, n := range names {
				ls = append(ls, circ.LetterByName(n))
			}
			in := circ.Word(4, circ.Order[E](), circ.NTTRoot[E](4), salt, 2, ls...)
			s, err := circ.Compile[E](in.Spec, "C27")
			if err != nil {
				panic(err)
			}
			return &cc{in: in, sys: s}
		}
		prove := func(in circ.Inst, s *circ.Sys[E]) job {
			return func() any {
				pf, err := s.Prv.Prove(circ.Assign[E](in.Spec, in.P, in.W))
				if err != nil {
					panic(err)
				}
				// proofs are not a function of the random draws alone (map order)
				return later(func() any { return s.Verify(in.P, pf) })
			}
		}
		var c0, c1, d0, d1 *cc
		in := "buckler/"
		if r.Thorough {
			in = ""
		}
		explore(r, "prove-prove", 8, -1, false, false, in, st(4), func(*lib.T) [2]job {
			if c0 == nil {
				c0, c1 = mkc(0, 1), mkc(1, 2)
			}
			return [2]job{prove(c0.in, c0.sys), prove(c1.in, c1.sys)}
		})
		explore(r, "prove-verify", 8, -1, false, false, in, st(4), func(*lib.T) [2]job {
			if d0 == nil {
				d0, d1 = mkc(0, 1), mkc(0, 2)
				d1.pf, _ = d1.sys.Prv.Prove(circ.Assign[E](d1.in.Spec, d1.in.P, d1.in.W))
			}
			return [2]job{prove(d0.in, d0.sys), func() any {
				return d1.sys.Vrf.Verify(circ.Assign[E](d1.in.Spec, d1.in.P, nil), d1.pf)
			}}
		})
	})
}
