// C30: jindo-modulus finds a usable modulus whenever there is one, says so
// otherwise, always ends, and generates a field package with which the scheme
// works.
package main

import (
	"bytes"
	"fmt"
	"maps"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"strings"
	"syscall"
	"time"

	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/zzverif/jx"
	"github.com/sp301415/ringo-snark/zzverif/lib"
	"github.com/sp301415/ringo-snark/zzverif/zpx"
)

const limit = 150 * time.Second

var outDir string

type outcome struct {
	code  int
	timed bool
	text  string
	p     *big.Int // modulus of the generated package, if there is one
	dir   string
}

var modRe = regexp.MustCompile(`_modulus\.SetString\("([0-9a-fA-F]+)", 16\)`)

// run executes the binary in a scratch directory that it removes.
func run(t *lib.T, args ...string) (o outcome) {
	tmp, err := os.MkdirTemp("", "c30")
	t.Check(err == nil, "harness: %v", err)
	defer os.RemoveAll(tmp)
	os.WriteFile(filepath.Join(tmp, "go.mod"), []byte("module zpgen\n\ngo 1.24\n"), 0o644)
	has := false
	for _, a := range args {
		has = has || a == "-o"
	}
	if !has {
		args = append(append([]string{}, args...), "-o", filepath.Join(tmp, "out"))
	}
	c := exec.Command(filepath.Join(outDir, "jm"), args...)
	c.Dir = tmp
	c.Env = append(os.Environ(), "PATH="+filepath.Join(outDir, "bin")+":"+os.Getenv("PATH"))
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	t.Check(c.Start() == nil, "harness: cannot start the binary")
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case err = <-done:
	case <-time.After(limit):
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
		<-done
		o.timed = true
		return
	}
	o.code = c.ProcessState.ExitCode()
	o.text = b.String()
	filepath.Walk(tmp, func(p string, fi os.FileInfo, err error) error {
		if err == nil && filepath.Base(p) == "element.go" {
			s, _ := os.ReadFile(p)
			if m := modRe.FindSubmatch(s); m != nil {
				o.p, _ = new(big.Int).SetString(string(m[1]), 16)
				o.dir, _ = filepath.Rel(tmp, filepath.Dir(p))
			}
		}
		return nil
	})
	return
}

// base writes p-1 as b^k with the largest k = 2^i.
func base(p *big.Int) (b *big.Int, k int) {
	b, k = new(big.Int).Sub(p, big.NewInt(1)), 1
	for {
		s := new(big.Int).Sqrt(b)
		if new(big.Int).Mul(s, s).Cmp(b) != 0 {
			return
		}
		b, k = s, 2*k
	}
}

// exists searches, independently, for a prime b^k+1 with start <= bits < end,
// k = 2^i >= 2, b <= 2^25 and 2^31 | b^k.
func exists(start, end int) (b uint64, k int) {
	for k = 2; k < end; k *= 2 {
		// the power of two in b
		tw := (31 + k - 1) / k
		step := uint64(1) << tw
		lo := new(big.Int).Lsh(big.NewInt(1), uint(max(start-1, 0)))
		root := func(x *big.Int) uint64 { // floor of the k-th root
			r := new(big.Int).Set(x)
			for i := 1; i < k; i *= 2 {
				r.Sqrt(r)
			}
			if !r.IsUint64() {
				return 1 << 62
			}
			return r.Uint64()
		}
		bLo := root(lo)
		bHi := min(root(new(big.Int).Lsh(big.NewInt(1), uint(end-1))), 1<<25)
		for b = bLo / step * step; b <= bHi; b += step {
			if b < 2 {
				continue
			}
			p := new(big.Int).Exp(new(big.Int).SetUint64(b), big.NewInt(int64(k)), nil)
			p.Add(p, big.NewInt(1))
			if p.BitLen() < start || p.BitLen() >= end {
				continue
			}
			if p.ProbablyPrime(20) {
				return b, k
			}
		}
	}
	return 0, 0
}

func (o outcome) tail() string {
	s := strings.TrimSpace(o.text)
	if len(s) > 300 {
		s = s[len(s)-300:]
	}
	return s
}

func search(r *lib.Run, arg string, start, end int) {
	r.Case("search/"+arg, func(t *lib.T) {
		o := run(t, "-n", arg)
		t.Check(!o.timed, "jindo-modulus -n %s has not ended after %v", arg, limit)
		t.Trans(1)
		t.State(arg)
		if o.p == nil {
			b, k := exists(start, end)
			t.Check(b == 0, "jindo-modulus -n %s makes no package although %d^%d+1 qualifies: %s", arg, b, k, o.tail())
			t.Check(o.code != 0, "jindo-modulus -n %s makes no package and exits with 0", arg)
			t.Outcome("no modulus")
			return
		}
		t.Check(o.code == 0, "jindo-modulus -n %s exits with %d after making a package: %s", arg, o.code, o.tail())
		b, k := base(o.p)
		t.Check(o.p.ProbablyPrime(40), "modulus %v is not prime", o.p)
		t.Check(o.p.BitLen() >= start && o.p.BitLen() < end, "modulus %v has %d bits, want [%d, %d)", o.p, o.p.BitLen(), start, end)
		t.Check(k >= 2 && b.Cmp(big.NewInt(1<<25)) <= 0, "modulus %v = %v^%d+1 has no small base", o.p, b, k)
		m := new(big.Int).Sub(o.p, big.NewInt(1))
		t.Check(m.TrailingZeroBits() >= 31, "modulus %v supports no large transforms", o.p)
		t.Outcome("modulus found")
		t.Sample("-n %s: %v^%d+1", arg, b, k)
	})
}

func refused(r *lib.Run, args ...string) {
	r.Case("refused/"+strings.Join(args, ""), func(t *lib.T) {
		o := run(t, args...)
		t.Check(!o.timed, "jindo-modulus %v has not ended", args)
		t.Check(o.p == nil && o.code != 0, "jindo-modulus %v is not refused: exit %d, package %v, %s", args, o.code, o.p, o.tail())
		t.Trans(1)
		t.State(fmt.Sprint(args))
		t.Outcome("refused")
	})
}

func field[E bignum.Uint[E]](r *lib.Run, f *zpx.Field[E]) {
	q := f.Modulus()
	nw := func() E { var z E; return z.New() }
	r.Case("package/"+f.Name+"/interface", func(t *lib.T) {
		al := f.Alphabet(0, r.Seed)
		if !r.Thorough && len(al) > 90 {
			al = al[:90]
		}
		ok := func(x E, v *big.Int, what string, a ...any) {
			m := zpx.OfLimbs(f.Limb(x))
			t.Check(m.Cmp(q) < 0, "%s: the result is not reduced", fmt.Sprintf(what, a...))
			w := new(big.Int).Mod(v, q)
			g := f.Val(x)
			t.Check(g.Cmp(w) == 0, "%s = %v, want %v", fmt.Sprintf(what, a...), g, w)
		}
		var z E
		t.Check(z.Limb() == f.Limbs && nw().Limb() == f.Limbs, "Limb() of a nil and a new element: %d, %d of %d", z.Limb(), nw().Limb(), f.Limbs)
		ok(nw(), new(big.Int), "New()")
		for i, x := range al {
			// Slice gives the words of the value
			for _, extra := range []int{0, 2} {
				s := make([]uint64, f.Limbs+extra)
				for k := range s {
					s[k] = 0xdead
				}
				x.X.Slice(s)
				t.Check(zpx.OfLimbs(s[:f.Limbs]).Cmp(x.V) == 0, "Slice of %v gives %v", x.V, s)
				for k := range extra {
					t.Check(s[f.Limbs+k] == 0xdead, "Slice writes beyond Limb() words")
				}
			}
			ok(x.X, x.V, "element after Slice")
			n := x.X.New()
			ok(n, new(big.Int), "New() of %v", x.V)
			n.SetUint64(77)
			ok(x.X, x.V, "element after its New() was set")
			y := al[(i*5+3)%len(al)]
			for _, y := range []zpx.El[E]{y, x, al[i/2]} {
				ok(nw().Add(x.X, y.X), new(big.Int).Add(x.V, y.V), "%v + %v", x.V, y.V)
				ok(nw().Sub(x.X, y.X), new(big.Int).Sub(x.V, y.V), "%v - %v", x.V, y.V)
				ok(nw().Mul(x.X, y.X), new(big.Int).Mul(x.V, y.V), "%v * %v", x.V, y.V)
				t.Check(x.X.Cmp(y.X) == x.V.Cmp(y.V), "Cmp(%v, %v)", x.V, y.V)
			}
			ok(nw().Neg(x.X), new(big.Int).Neg(x.V), "-%v", x.V)
			ok(nw().Set(x.X), x.V, "Set %v", x.V)
			if x.V.Sign() != 0 {
				ok(nw().Inverse(x.X), new(big.Int).ModInverse(x.V, q), "1/%v", x.V)
			}
			ok(nw().SetBigInt(x.V), x.V, "SetBigInt %v", x.V)
			ok(nw().SetBigInt(new(big.Int).Neg(x.V)), new(big.Int).Neg(x.V), "SetBigInt -%v", x.V)
			t.Check(x.X.BigInt(new(big.Int)).Cmp(x.V) == 0, "BigInt of %v", x.V)
			m := x.X.Marshal()
			u := nw()
			u.Unmarshal(m)
			ok(u, x.V, "Unmarshal(Marshal %v)", x.V)
			ok(nw().SetBytes(m), x.V, "SetBytes(Marshal %v)", x.V)
			t.State(f.Name, x.V)
			t.Trans(20)
		}
		for _, v := range []int64{0, 1, -1, 2, 1 << 40, -1 << 63, 1<<63 - 1} {
			ok(nw().SetInt64(v), big.NewInt(v), "SetInt64 %d", v)
			ok(nw().SetUint64(uint64(v)), new(big.Int).SetUint64(uint64(v)), "SetUint64 %d", uint64(v))
		}
		seen := map[string]bool{}
		for range 200 {
			x := nw().MustSetRandom()
			t.Check(zpx.OfLimbs(f.Limb(x)).Cmp(q) < 0, "MustSetRandom is not reduced")
			seen[f.Val(x).String()] = true
		}
		t.Check(len(seen) > 190, "MustSetRandom repeats")
		t.Outcome("field works")
	})
	r.Case("package/"+f.Name+"/transform", func(t *lib.T) {
		adic := int(new(big.Int).Sub(q, big.NewInt(1)).TrailingZeroBits())
		for lg := range 7 {
			n := 1 << lg
			if lg+1 > adic {
				break
			}
			for i := range n {
				v := make([]E, n)
				for k := range v {
					v[k] = nw()
				}
				v[i].SetUint64(5)
				c := bigpoly.NewCyclicTransformer[E](n)
				o := make([]E, n)
				for k := range o {
					o[k] = nw()
				}
				c.FwdNTTTo(o, v)
				s := nw()
				for k := range o {
					s.Add(s, o[k])
				}
				// the sum over all roots of 5 X^i is 5n for i=0 and 0 otherwise
				want := int64(0)
				if i == 0 {
					want = int64(5 * n)
				}
				t.Check(f.Val(s).Cmp(big.NewInt(want)) == 0, "transform of X^%d, rank %d", i, n)
				c.InvNTTTo(o, o)
				for k := range o {
					t.Check(f.Val(o[k]).Cmp(f.Val(v[k])) == 0, "inverse transform of X^%d, rank %d", i, n)
				}
				t.Trans(2)
			}
		}
	})
	r.Case("package/"+f.Name+"/scheme", func(t *lib.T) {
		for _, sh := range [][2]int{{1, 1}, {200, 1}, {37, 2}} {
			var params jindo.Parameters
			bad, e := lib.Try(func() { params = jindo.NewParameters[E](sh[0], sh[1]) })
			if bad {
				t.Check(strings.Contains(fmt.Sprint(e), "no parameters"), "NewParameters: %v", e)
				t.Outcome("no parameters for this modulus")
				continue
			}
			prv := jindo.NewProver[E](params, []byte("C30"))
			vrf := jindo.NewVerifier[E](params, []byte("C30"))
			var vs [][]E
			var com []*jindo.Commitment
			var op []*jindo.Opening
			for k := range sh[1] {
				v := make([]E, params.Rank()-k)
				for i := range v {
					v[i] = nw().MustSetRandom()
				}
				c, o := prv.Commit(v)
				vs, com, op = append(vs, v), append(com, c), append(op, o)
			}
			x := nw().MustSetRandom()
			ev, pf := prv.Evaluate(x, vs, com, op)
			for k := range vs {
				t.Check(jx.B(ev[k]).Cmp(jx.EvalRef(vs[k], x)) == 0, "wrong evaluation")
			}
			t.Check(vrf.Verify(x, com, ev, pf), "an honest proof is rejected (rank %d, batch %d)", sh[0], sh[1])
			for k := range ev {
				y := jx.Clone(ev)
				y[k].Add(y[k], nw().SetUint64(1))
				t.Check(!vrf.Verify(x, com, y, pf), "a wrong evaluation is accepted (rank %d, batch %d)", sh[0], sh[1])
			}
			t.Trans(2 + len(ev))
			t.Outcome("scheme works")
		}
	})
}

func main() {
	exe, _ := os.Executable()
	outDir = filepath.Dir(exe)
	lib.Main("C30", lib.Options{QuickBudget: 240 * time.Second, CaseTimeout: 300 * time.Second, Assumptions: []string{
		"asmfmt, a formatter that is not installed, is replaced by a program that does nothing",
		"the upper end of a range of bit lengths is not included, as in the tool",
	}}, func(r *lib.Run) {
		packages(r)
		for _, name := range slices.Sorted(maps.Keys(commands)) {
			args := commands[name]
			r.Case("generated/"+name, func(t *lib.T) {
				if !generated[name] {
					o := run(t, args...)
					t.Check(o.p != nil || o.code == 1 && strings.Contains(o.text, "cannot find") && name != "n60", "jindo-modulus %v makes no package: exit %d, timed out %v: %s", args, o.code, o.timed, o.tail())
				}
				t.Trans(1)
			})
		}
		top := 130
		if r.Thorough {
			top = 900
		}
		for n := 1; n <= top; n++ {
			search(r, fmt.Sprint(n), n, n+1)
		}
		for _, n := range []int{160, 192, 220, 255, 256, 257, 300, 384, 440, 512, 513, 700, 801, 880, 1024} {
			if n > top {
				search(r, fmt.Sprint(n), n, n+1)
			}
		}
		ends := []int{1, 32, 39, 45, 51, 53, 64, 65, 110, 128, 129, 300}
		for i, a := range ends {
			for j, b := range ends[i+1:] {
				// searching from far below a modulus takes seconds
				if a == 1 && b > 32 && !r.Thorough && j != 4 {
					continue
				}
				search(r, fmt.Sprintf("%d-%d", a, b), a, b)
			}
		}
		if r.Thorough {
			for _, s := range [][2]int{{51, 1000}, {52, 2000}, {400, 2000}, {1000, 1100}, {1400, 1500}, {1601, 1700}, {10, 3000}} {
				search(r, fmt.Sprintf("%d-%d", s[0], s[1]), s[0], s[1])
			}
		}
		for _, a := range []string{"x", "5-", "-5", "5-3", "7-7", "1-2-3", "0x20", " 60", "60 ", "6e1"} {
			refused(r, "-n", a)
		}
		refused(r)
		refused(r, "-b", "12640")
		refused(r, "-k", "8")
		for _, bk := range [][2]uint64{{7, 2}, {2, 3}, {2, 32}, {12640, 7}, {12642, 8}, {15, 16}, {65536, 2}} {
			refused(r, "-b", fmt.Sprint(bk[0]), "-k", fmt.Sprint(bk[1]))
		}
		// explicit base and exponent
		for b := uint64(2); b <= 64; b += 2 {
			for _, k := range []int{1, 2, 4, 8, 16, 32} {
				p := new(big.Int).Exp(new(big.Int).SetUint64(b), big.NewInt(int64(k)), nil)
				p.Add(p, big.NewInt(1))
				if !p.ProbablyPrime(20) || p.BitLen() < 5 {
					continue
				}
				if !r.Thorough && b > 24 && k < 16 {
					continue
				}
				r.Case(fmt.Sprintf("explicit/%d/%d", b, k), func(t *lib.T) {
					o := run(t, "-b", fmt.Sprint(b), "-k", fmt.Sprint(k))
					t.Check(o.code == 0 && o.p != nil && o.p.Cmp(p) == 0, "-b %d -k %d: exit %d, modulus %v: %s", b, k, o.code, o.p, o.tail())
					t.Trans(1)
					t.State("explicit", b, k)
					t.Outcome("explicit modulus")
				})
			}
		}
		// -n wins over -b and -k; name and directory of the package
		r.Case("options/override", func(t *lib.T) {
			o := run(t, "-n", "110", "-b", "2", "-k", "16")
			t.Check(o.code == 0 && o.p != nil && o.p.BitLen() == 110, "-n does not override -b and -k: %v", o.p)
		})
		for _, s := range [][3]string{{"a/b", "zq", "a/b/zq"}, {".", "ZQ", "zq"}, {"x/../y", "zp", "y/zp"}} {
			r.Case("options/"+s[0]+s[1], func(t *lib.T) {
				o := run(t, "-n", "60", "-o", s[0], "-p", s[1])
				t.Check(o.code == 0 && o.dir == s[2], "package in %q, want %q (exit %d)", o.dir, s[2], o.code)
				t.Outcome("options")
				t.Trans(1)
			})
		}
	})
}
