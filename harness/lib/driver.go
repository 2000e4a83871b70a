package lib

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Run enumerates the cases of one property. Every case is a deterministic
// function of its id and VERIF_SEED; the enumeration itself is exhaustive over
// the alphabet the check declares.
type Run struct {
	Prop     string
	Thorough bool
	Seed     int

	shard, shards int
	only          string
	deadline      time.Time
	caseTimeout   time.Duration
	caseNo        int
	beat          *os.File
	busySince     atomic.Int64
	busyCase      atomic.Pointer[string]
	mu            sync.Mutex
	res           shardResult
	states        map[uint64]struct{}
	failedGroups  map[string]int
	list          bool
}

type failure struct {
	Case   string `json:"case"`
	Detail string `json:"detail"`
}

type shardResult struct {
	Cases       int            `json:"cases"`
	Transitions int64          `json:"transitions"`
	Traces      int64          `json:"traces"`
	StateHashes []uint64       `json:"state_hashes"`
	Outcomes    map[string]int `json:"outcomes"`
	Samples     []string       `json:"samples"`
	Failures    []failure      `json:"failures"`
	Truncated   bool           `json:"truncated"`
	Done        bool           `json:"done"`
}

// T is the handle of one case.
type T struct {
	r      *Run
	ID     string
	failed bool
	detail string
	note   string
}

type failNow struct{ msg string }

// Failf records a violation of the property and ends the case.
func (t *T) Failf(format string, a ...any) {
	panic(failNow{fmt.Sprintf(format, a...)})
}

// Check fails the case when cond is false.
func (t *T) Check(cond bool, format string, a ...any) {
	if !cond {
		t.Failf(format, a...)
	}
}

// State records one visited state (deduplicated by hash).
func (t *T) State(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprint(h, p)
		h.Write([]byte{0})
	}
	t.r.mu.Lock()
	t.r.states[h.Sum64()] = struct{}{}
	t.r.mu.Unlock()
}

// StateHash records a visited state by a hash computed by the caller.
func (t *T) StateHash(h uint64) {
	t.r.mu.Lock()
	t.r.states[h] = struct{}{}
	t.r.mu.Unlock()
}

// Trans counts executed transitions (calls into the implementation).
func (t *T) Trans(n int) { atomic.AddInt64(&t.r.res.Transitions, int64(n)) }

// Trace counts model traces compared with the implementation step by step.
func (t *T) Trace(n int) { atomic.AddInt64(&t.r.res.Traces, int64(n)) }

// Outcome counts an observed outcome class (to expose vacuous exploration).
func (t *T) Outcome(o string) {
	t.r.mu.Lock()
	t.r.res.Outcomes[o]++
	t.r.mu.Unlock()
}

// Sample keeps a few written-out cases.
func (t *T) Sample(format string, a ...any) {
	t.r.mu.Lock()
	if len(t.r.res.Samples) < 3 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		t.r.res.Samples = append(t.r.res.Samples, t.ID+": "+s)
	}
	t.r.mu.Unlock()
}

// Try runs f and reports whether it panicked.
func Try(f func()) (panicked bool, val any) {
	defer func() {
		if e := recover(); e != nil {
			if fn, ok := e.(failNow); ok {
				panic(fn)
			}
			panicked, val = true, e
		}
	}()
	f()
	return
}

// Out reports whether the exploration budget is used up.
func (r *Run) Out() bool {
	if r.only != "" {
		return false
	}
	if time.Now().After(r.deadline) {
		r.res.Truncated = true
		return true
	}
	return false
}

// Case runs one case if it belongs to this shard.
func (r *Run) Case(id string, f func(t *T)) {
	if r.only != "" {
		if id != r.only {
			return
		}
	} else {
		n := r.caseNo
		r.caseNo++
		if n%r.shards != r.shard {
			return
		}
		if r.Out() {
			return
		}
		// After several failures of one group, more of them add nothing.
		if r.failedGroups[group(id)] >= 3 {
			r.res.Truncated = true
			return
		}
	}
	if r.list {
		fmt.Println(id)
		return
	}
	if r.beat != nil {
		b := make([]byte, 512)
		for i := range b {
			b[i] = ' '
		}
		copy(b, id)
		b[511] = '\n'
		r.beat.WriteAt(b, 0)
	}
	t := &T{r: r, ID: id}
	Reseed(id, r.Seed)
	Yield = nil
	idc := id
	r.busyCase.Store(&idc)
	r.busySince.Store(time.Now().UnixNano())
	func() {
		defer func() {
			if e := recover(); e != nil {
				t.failed = true
				if fn, ok := e.(failNow); ok {
					t.detail = fn.msg
				} else {
					st := string(debug.Stack())
					if len(st) > 3000 {
						st = st[:3000]
					}
					t.detail = fmt.Sprintf("panic: %v\n%s", e, st)
				}
			}
		}()
		f(t)
	}()
	if t.failed && t.note != "" {
		t.detail += "\n  while: " + t.note
	}
	r.busySince.Store(0)
	RandTape, Yield = nil, nil
	r.mu.Lock()
	r.res.Cases++
	if t.failed {
		r.failedGroups[group(id)]++
		r.res.Failures = append(r.res.Failures, failure{id, t.detail})
	}
	r.mu.Unlock()
}

func group(id string) string {
	if i := strings.IndexByte(id, '/'); i >= 0 {
		return id[:i]
	}
	return id
}

func (r *Run) flush(path string, done bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Done = done
	r.res.StateHashes = r.res.StateHashes[:0]
	for h := range r.states {
		r.res.StateHashes = append(r.res.StateHashes, h)
	}
	b, _ := json.Marshal(&r.res)
	os.WriteFile(path, b, 0o644)
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// Options tune a check.
type Options struct {
	QuickBudget    time.Duration // exploration budget, default 200s
	ThoroughBudget time.Duration // default 1h
	CaseTimeout    time.Duration // default 150s
	Shards         int
	Assumptions    []string
	MaxProcs       int
}

// Main is the entry point of every check binary.
func Main(prop string, opt Options, body func(r *Run)) {
	caseID := flag.String("case", "", "run only this case")
	listF := flag.Bool("list", false, "list cases")
	root := flag.String("verif", "/verif", "verification directory")
	flag.Parse()

	if opt.QuickBudget == 0 {
		opt.QuickBudget = 200 * time.Second
	}
	if opt.ThoroughBudget == 0 {
		opt.ThoroughBudget = time.Hour
	}
	if opt.CaseTimeout == 0 {
		opt.CaseTimeout = 150 * time.Second
	}
	if opt.Shards == 0 {
		opt.Shards = runtime.NumCPU()
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := envInt("VERIF_SEED", 1)
	budget := opt.QuickBudget
	if tier == "thorough" {
		budget = opt.ThoroughBudget
		opt.CaseTimeout *= 6
	}

	newRun := func() *Run {
		return &Run{
			Prop: prop, Thorough: tier == "thorough", Seed: seed, shards: 1,
			deadline: time.Now().Add(budget), caseTimeout: opt.CaseTimeout,
			states: map[uint64]struct{}{}, failedGroups: map[string]int{},
			res:  shardResult{Outcomes: map[string]int{}},
			list: *listF,
		}
	}

	if *listF {
		body(newRun())
		return
	}
	if *caseID != "" {
		r := newRun()
		r.only = *caseID
		watch(r, func() {
			fmt.Printf("case %s: did not finish within %v\n", *caseID, opt.CaseTimeout)
			os.Exit(3)
		})
		body(r)
		if r.res.Cases == 0 {
			fmt.Println("no such case")
			os.Exit(4)
		}
		for _, f := range r.res.Failures {
			fmt.Printf("case %s: %s\n", f.Case, f.Detail)
			os.Exit(3)
		}
		fmt.Println("case holds")
		return
	}
	if s := os.Getenv("VERIF_SHARD"); s != "" {
		runShard(s, newRun(), opt, body)
		return
	}
	os.Exit(parent(prop, tier, seed, *root, opt))
}

func watch(r *Run, onHang func()) {
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			s := r.busySince.Load()
			if s != 0 && time.Since(time.Unix(0, s)) > r.caseTimeout {
				onHang()
			}
		}
	}()
}

func runShard(spec string, r *Run, opt Options, body func(r *Run)) {
	var out string
	p := strings.SplitN(spec, ":", 3)
	r.shard, _ = strconv.Atoi(p[0])
	r.shards, _ = strconv.Atoi(p[1])
	out = p[2]
	r.beat, _ = os.Create(out + ".beat")
	watch(r, func() {
		id := *r.busyCase.Load()
		r.mu.Lock()
		r.res.Failures = append(r.res.Failures, failure{id, fmt.Sprintf("HANG: did not finish within %v", r.caseTimeout)})
		r.res.Truncated = true
		r.mu.Unlock()
		r.flush(out, true)
		os.Exit(0)
	})
	if opt.MaxProcs > 0 {
		runtime.GOMAXPROCS(opt.MaxProcs)
	} else {
		runtime.GOMAXPROCS(2)
	}
	debug.SetMemoryLimit(3 << 30)
	body(r)
	r.flush(out, true)
}

func parent(prop, tier string, seed int, root string, opt Options) int {
	start := time.Now()
	outDir := filepath.Join(root, "out", prop)
	os.MkdirAll(outDir, 0o755)
	self, _ := os.Executable()
	n := opt.Shards
	results := make([]shardResult, n)
	var wg sync.WaitGroup
	var crashes []failure
	var mu sync.Mutex
	for i := range n {
		wg.Add(1)
		go func() {
			defer wg.Done()
			out := filepath.Join(outDir, fmt.Sprintf("shard%d.json", i))
			os.Remove(out)
			cmd := exec.Command(self, "-verif", root)
			cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_SHARD=%d:%d:%s", i, n, out))
			log, err := cmd.CombinedOutput()
			b, rerr := os.ReadFile(out)
			if rerr == nil {
				json.Unmarshal(b, &results[i])
			}
			if err != nil || !results[i].Done {
				beat, _ := os.ReadFile(out + ".beat")
				if len(log) > 4000 {
					log = append(log[:2000:2000], log[len(log)-2000:]...)
				}
				mu.Lock()
				crashes = append(crashes, failure{strings.TrimSpace(string(beat)), fmt.Sprintf("CRASH: process ended abnormally (%v)\n%s", err, log)})
				mu.Unlock()
			}
		}()
	}
	wg.Wait()

	tot := shardResult{Outcomes: map[string]int{}}
	states := map[uint64]struct{}{}
	for _, s := range results {
		tot.Cases += s.Cases
		tot.Transitions += s.Transitions
		tot.Traces += s.Traces
		tot.Truncated = tot.Truncated || s.Truncated
		for _, h := range s.StateHashes {
			states[h] = struct{}{}
		}
		for k, v := range s.Outcomes {
			tot.Outcomes[k] += v
		}
		if len(tot.Samples) < 6 {
			tot.Samples = append(tot.Samples, s.Samples...)
		}
		tot.Failures = append(tot.Failures, s.Failures...)
	}
	if len(tot.Samples) > 6 {
		tot.Samples = tot.Samples[:6]
	}
	harnessErr := false
	for _, c := range crashes {
		tot.Truncated = true
		if c.Case == "" {
			fmt.Printf("ERROR: shard ended before its first case: %s\n", c.Detail)
			harnessErr = true
			continue
		}
		tot.Failures = append(tot.Failures, c)
	}
	sort.Slice(tot.Failures, func(i, j int) bool { return tot.Failures[i].Case < tot.Failures[j].Case })

	known := loadKnown(root, prop)
	knownHit := map[string]bool{}
	violations, unconfirmed := 0, 0
	perGroup := map[string]int{}
	for _, f := range tot.Failures {
		if what, ok := known[f.Case]; ok {
			if !knownHit[f.Case] {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", prop, f.Case, what)
			}
			knownHit[f.Case] = true
			continue
		}
		if perGroup[group(f.Case)] >= 2 || violations >= 6 {
			continue
		}
		// Re-run the case alone, in fresh processes, before believing it.
		hang := strings.HasPrefix(f.Detail, "HANG")
		tries := 5
		if hang {
			tries = 1
		}
		bad := 0
		var last string
		for range tries {
			cmd := exec.Command(self, "-verif", root, "-case", f.Case)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=4")
			o, err := cmd.CombinedOutput()
			if err != nil {
				if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 4 {
					continue
				}
				bad++
				last = string(o)
			}
		}
		if bad*2 <= tries && !(hang && bad == 1) {
			unconfirmed++
			fmt.Printf("note: case %s failed once but only %d of %d re-runs did; not reported\n%s\n", f.Case, bad, tries, f.Detail)
			continue
		}
		perGroup[group(f.Case)]++
		violations++
		replay := filepath.Join(outDir, fmt.Sprintf("replay-%d.json", violations))
		rb, _ := json.MarshalIndent(map[string]any{
			"property": prop, "case": f.Case, "detail": f.Detail, "rerun_output": last,
			"seed": seed, "tier": tier, "reruns_failing": fmt.Sprintf("%d/%d", bad, tries),
			"replay_cmd": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s %s/check.sh %s -case '%s'", seed, tier, root, prop, f.Case),
		}, "", " ")
		os.WriteFile(replay, rb, 0o644)
		d := f.Detail
		if len(d) > 500 {
			d = d[:500]
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n  case %s: %s\n", prop, replay, f.Case, strings.ReplaceAll(d, "\n", "\n    "))
	}
	stale := []string{}
	for k := range known {
		if !knownHit[k] {
			stale = append(stale, k)
		}
	}
	sort.Strings(stale)

	if tot.Samples == nil {
		tot.Samples = []string{}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": len(states), "transitions": tot.Transitions,
			"traces_validated_against_impl": tot.Traces,
			"evaluations":                   tot.Cases,
			"samples":                       tot.Samples,
			"outcomes":                      tot.Outcomes,
			"exhaustive":                    !tot.Truncated,
			"unconfirmed_failures":          unconfirmed,
			"known_findings_hit":            len(knownHit),
			"known_findings_not_hit":        stale,
		},
		"assumptions": opt.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(eb, '\n'), 0o644)
	fmt.Printf("%s %s: %d cases, %d states, %d transitions, %d traces, exhaustive=%v, violations=%d, %.1fs\n",
		prop, tier, tot.Cases, len(states), tot.Transitions, tot.Traces, !tot.Truncated, violations, time.Since(start).Seconds())
	switch {
	case violations > 0:
		return 1
	case harnessErr:
		return 2
	}
	return 0
}

// loadKnown reads /verif/known_findings.txt. Lines:
//
//	known: property=<id> case=<exact case id> <what fails>
//	fixed: property=<id> <commit> <what failed>
//
// Only "known:" lines suppress, and only the exact case they name.
func loadKnown(root, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 3 || f[0] != "known:" || f[1] != "property="+prop || !strings.HasPrefix(f[2], "case=") {
			continue
		}
		out[strings.TrimPrefix(f[2], "case=")] = strings.Join(f[3:], " ")
	}
	return out
}

// Note remembers what a case is doing, for the report of a failure.
func Note(t *T, a ...any) { t.note = fmt.Sprint(a...) }
