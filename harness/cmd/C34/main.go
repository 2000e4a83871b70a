// C34: circuits whose constraints share witnesses are accepted exactly when
// every constraint holds: every pair (and triple) of an alphabet of constraints
// over the same few witnesses, with assignments that satisfy all, and
// assignments that violate exactly one.
package main

import (
	"fmt"
	"math/big"
	"slices"
	"sync"
	"time"

	bexp "github.com/sp301415/ringo-snark/buckler/zzexp"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/zzverif/circ"
	"github.com/sp301415/ringo-snark/zzverif/lib"
)

const rank = 4

// alphabet of constraints over w0..w2 and p0, p1.
func alphabet() []circ.Constraint {
	T := circ.Tm
	return []circ.Constraint{
		circ.Lin(1, 0, "shift"), circ.Lin(2, 0, "shift"), circ.Lin(0, 1, "shift"), circ.Lin(1, 2, "shift"), circ.Lin(0, 0, "shift"),
		circ.Lin(1, 0, "ntt"), circ.Lin(2, 1, "ntt"), circ.Lin(1, 0, "id"), circ.Lin(2, 0, "autc3"), circ.Lin(2, 1, "low"),
		circ.Arith(T(1, -1, 0), T(-1, -1, 1)),
		circ.Arith(T(1, -1, 0, 1), T(-1, -1, 2)),
		circ.Arith(T(1, -1, 0, 0), T(-1, -1, 0)),
		circ.Arith(T(1, -1, 0), T(-1, 0)),
		circ.Arith(T(1, 0, 1), T(-1, -1, 2)),
		circ.Arith(T(1, -1, 1), T(1, -1, 2), T(-1, 1)),
		circ.Arith(T(1, 1, 0, 0, 0), T(-1, 1, 0)),
		circ.Arith(T(1, 0), T(-1, 1)),
		circ.Arith(T(1, -1, 0), T(1, -1)),
		circ.Sum(0, T(1, -1, 0)), circ.Sum(1, T(1, -1, 0)), circ.Sum(0, T(1, -1, 1)), circ.Sum(4, T(1, -1, 0, 0)),
		circ.Sum(0, T(1, -1, 0), T(-1, -1, 2)), circ.Sum(2, T(1, 0, 1)), circ.Sum(-4, T(1, -1, 0, 1, 2), T(-1, -1)),
		circ.Inf(0, 0), circ.Inf(0, 1), circ.Inf(0, 3), circ.Inf(0, 2), circ.Inf(1, 1), circ.Inf(2, 2),
		circ.Two(0, 2), circ.Two(0, 3), circ.Two(0, 4), circ.Two(1, 5), circ.Two(2, 1),
	}
}

// asg is an assignment with the set of constraints it satisfies.
type asg struct {
	p, w []circ.Vec
	ok   uint64
}

func assignments(q, root *big.Int, al []circ.Constraint) []asg {
	red := func(v circ.Vec) circ.Vec {
		o := make(circ.Vec, len(v))
		for i := range v {
			o[i] = new(big.Int).Mod(v[i], q)
		}
		return o
	}
	var pool []circ.Vec
	seen := map[string]bool{}
	add := func(v circ.Vec) {
		v = red(v)
		if k := fmt.Sprint(v); !seen[k] {
			seen[k] = true
			pool = append(pool, v)
		}
	}
	base := []circ.Vec{circ.V(1, 0, 0, 0), circ.V(1, 1, 1, 1), circ.V(0, 0, 0, 0), circ.V(-1, -1, -1, -1), circ.V(1, -1, 0, 1), circ.V(3, 1, -2, 0)}
	for _, v := range base {
		add(v)
	}
	for _, v := range base {
		add(circ.LinApply("shift", red(v), q, root))
	}
	add(circ.LinApply("ntt", red(base[0]), q, root))
	add(circ.LinApply("ntt", red(base[4]), q, root))
	add(circ.LinApply("autc3", red(base[4]), q, root))
	add(circ.V(9, 1, 4, 0))
	pub := [][]circ.Vec{}
	for _, p := range [][2]circ.Vec{{base[0], base[0]}, {base[1], base[2]}, {base[4], base[4]}, {base[1], circ.V(2, 2, 2, 2)}, {base[5], circ.V(-2, 0, 1, 1)}} {
		pub = append(pub, []circ.Vec{red(p[0]), red(p[1])})
	}
	var out []asg
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, p := range pub {
		for _, a := range pool {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var l []asg
				for _, b := range pool {
					for _, c := range pool {
						x := asg{p: p, w: []circ.Vec{a, b, c}}
						for i, k := range al {
							if k.Holds(x.p, x.w, q, root) {
								x.ok |= 1 << i
							}
						}
						l = append(l, x)
					}
				}
				mu.Lock()
				out = append(out, l...)
				mu.Unlock()
			}()
		}
	}
	wg.Wait()
	return out
}

// choose picks the assignments to try for the constraints in set: some that
// satisfy all, and for each constraint some that violate only it.
func choose(all []asg, set []int, per, salt int) []int {
	var m uint64
	for _, i := range set {
		m |= 1 << i
	}
	buckets := make([][]int, len(set)+1)
	for i, a := range all {
		switch miss := m &^ a.ok; {
		case miss == 0:
			buckets[len(set)] = append(buckets[len(set)], i)
		case miss&(miss-1) == 0:
			for k, j := range set {
				if miss == 1<<j {
					buckets[k] = append(buckets[k], i)
				}
			}
		}
	}
	var out []int
	for _, b := range buckets {
		for k := 0; k < per && k < len(b); k++ {
			out = append(out, b[(salt*2654435761+k*len(b)/per)%len(b)])
		}
	}
	return out
}

func family[E bignum.Uint[E]](r *lib.Run, name string, size, per int, orders bool, keep func(set []int) bool) {
	al := alphabet()
	q, root := circ.Order[E](), circ.NTTRoot[E](rank)
	var all []asg
	var once sync.Once
	for first := range al {
		r.Case(fmt.Sprintf("%s/%d/%d", name, size, first), func(c *lib.T) {
			once.Do(func() {
				all = assignments(q, root, al)
				// in a fixed order
				sortAsg(all)
			})
			set := make([]int, size)
			set[0] = first
			var rec func(k int)
			rec = func(k int) {
				if k < size {
					for i := set[k-1]; i < len(al); i++ {
						set[k] = i
						rec(k + 1)
					}
					return
				}
				if !keep(set) {
					return
				}
				salt := 0
				for _, i := range set {
					salt = salt*37 + i
				}
				for ord := range 2 {
					if !orders && ord != salt&1 {
						continue
					}
					s := circ.Spec{Rank: rank, NP: 2, NW: 3}
					for k := range set {
						if ord == 1 {
							k = size - 1 - k
						}
						s.Cs = append(s.Cs, al[set[k]])
					}
					sys, err := circ.Compile[E](s, "crs")
					c.Check(err == nil, "compile: %v", err)
					for _, i := range choose(all, set, per, salt+ord) {
						a := all[i]
						holds := s.Holds(a.p, a.w, q, root)
						v := sys.Verdict(a.p, a.w)
						c.Check(holds == (v == "accept"), "%v p=%v w=%v: holds=%v verdict=%s", s, a.p, a.w, holds, v)
						c.Trans(2)
						c.Trace(1)
						c.State(s.String(), a.p, a.w)
						c.Outcome(fmt.Sprintf("%v/%s", holds, v))
					}
				}
			}
			rec(1)
			c.Sample("%v with every later constraint", al[first])
		})
	}
}

func main() {
	lib.Main("C34", lib.Options{QuickBudget: 200 * time.Second, CaseTimeout: 240 * time.Second, Assumptions: []string{
		"rejections are probabilistic with error below 2^-40 per proof",
		"alphabet of constraints over three witnesses and two public witnesses of rank 4; assignments from a finite pool",
	}}, func(r *lib.Run) {
		every := func([]int) bool { return true }
		family[*lib.F62](r, "F62", 2, 1, false, every)
		if r.Thorough {
			family[*lib.F62](r, "F62x", 2, 6, true, every)
			family[*lib.F62](r, "F62x", 3, 1, false, every)
			family[*bexp.Uint110](r, "Uint110", 2, 1, false, every)
		}
	})
}

func sortAsg(all []asg) {
	key := func(a asg) string { return fmt.Sprint(a.p, a.w) }
	ks := make(map[string]asg, len(all))
	var l []string
	for _, a := range all {
		k := key(a)
		ks[k] = a
		l = append(l, k)
	}
	slices.Sort(l)
	for i, k := range l {
		all[i] = ks[k]
	}
}
