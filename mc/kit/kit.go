// Package kit is the shared driver of every check in /verif/mc: it enumerates cases, confirms and reports
// violations, honours the known-findings file and writes the evidence file.
package kit

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Options describes a check.
type Options struct {
	ID          string
	Level       string // evidence level
	Rule        string // how cases are made, and what makes one non-trivial
	Assumptions []string
	// Explain is added to the coverage block.
	Explain string
	// Procs > 1 runs the check in that many processes, each taking every Procs-th case.
	Procs int
}

// C is the state of one run of a check.
type C struct {
	Options
	Tier string
	Seed int64

	start    time.Time
	slowest  time.Duration
	deadline time.Time

	evals       int64
	states      int64
	transitions int64
	traces      int64

	mu         sync.Mutex
	distinct   map[uint64]struct{}
	distinctN  int64
	outcomes   map[string]int64
	parts      map[string]int64
	samples    []interface{}
	sampleKeys map[string]int
	violations []violation
	knownHit   map[string]string
	flaky      int64
	suspect    string // a case that failed once only
	truncated  map[string]bool
	known      map[string]string
	only       string
	replayTrap bool

	curMu sync.Mutex
	cur   map[int64]*running
	seq   int64

	shard, shards int
	caseNo        int64
	shardOut      string
}

type running struct {
	key   func() string
	start time.Time
	cpu   time.Duration
}

type violation struct {
	Key    string `json:"case"`
	Detail string `json:"detail"`
	Replay string `json:"replay,omitempty"`
}

// T is passed to each case.
type T struct {
	c        *C
	key      func() string
	fails    []string
	trivial  bool
	outcome  string
	sample   interface{}
	states   int64
	trans    int64
	traces   int64
	confirms bool
	r        *running
}

// Expired tells whether the time is over, and that the case is still getting on: a case of many executions asks
// between them, so that only a single execution can be taken for one that does not end.
func (t *T) Expired() bool {
	if t.r != nil {
		t.c.curMu.Lock()
		t.r.start, t.r.cpu = time.Now(), 0
		t.c.curMu.Unlock()
	}
	return t.c.Expired()
}

// Failf records a failure of the case.
func (t *T) Failf(format string, args ...interface{}) {
	if len(t.fails) < 5 {
		t.fails = append(t.fails, fmt.Sprintf(format, args...))
	}
}

// Definite marks a failure that is proof by itself and may not show again in the same process (a race report).
func (t *T) Definite() { t.confirms = true }

// Failed reports whether the case has failed already.
func (t *T) Failed() bool { return len(t.fails) > 0 }

// Trivial marks the case as not counting towards distinct_nontrivial.
func (t *T) Trivial() { t.trivial = true }

// Outcome classifies what was observed; a histogram goes into the evidence.
func (t *T) Outcome(s string) { t.outcome = s }

// Sample attaches a description used when the case is picked as a sample.
func (t *T) Sample(v interface{}) { t.sample = v }

// States, Transitions and Traces add to the model-checking counters.
func (t *T) States(n int)      { t.states += int64(n) }
func (t *T) Transitions(n int) { t.trans += int64(n) }
func (t *T) Traces(n int)      { t.traces += int64(n) }

// Do is Case for steps later cases depend on: it also runs, unreported, when another case is being replayed.
func (c *C) Do(key string, fn func(t *T)) bool {
	if c.only != "" && key != c.only {
		t := &T{c: c}
		fn(t)
		return !t.Failed()
	}
	return c.Case(key, fn)
}

// Thorough reports whether the deeper bounds should be used.
func (c *C) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and th in the thorough one.
func (c *C) Pick(q, th int) int {
	if c.Thorough() {
		return th
	}
	return q
}

// Main runs a check and exits.
func Main(o Options, body func(c *C)) {
	if o.Level == "" {
		o.Level = "exploration"
	}
	c := &C{
		Options: o, Tier: os.Getenv("VERIF_TIER"), start: time.Now(),
		distinct: map[uint64]struct{}{}, outcomes: map[string]int64{}, parts: map[string]int64{},
		sampleKeys: map[string]int{}, knownHit: map[string]string{}, truncated: map[string]bool{},
		cur: map[int64]*running{}, known: map[string]string{},
	}
	if c.Tier != "thorough" {
		c.Tier = "quick"
	}
	c.Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget := 540 * time.Second
	if c.Thorough() {
		budget = 3 * time.Hour
	}
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	c.deadline = c.start.Add(budget)
	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var v violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		c.only = v.Key
	}
	c.loadKnown()
	c.shards = 1
	if s := os.Getenv("VERIF_SHARD"); s != "" {
		fmt.Sscanf(s, "%d/%d", &c.shard, &c.shards)
		c.shardOut = os.Getenv("VERIF_SHARD_OUT")
	} else if o.Procs > 1 && c.only == "" {
		c.runShards()
		c.finish()
	}
	go c.watchdog()
	func() {
		defer func() {
			if r := recover(); r != nil {
				// A panic outside any case is an error of the harness unless the code under test raised it while
				// being set up; either way it is reported with its stack.
				c.report("harness-setup", fmt.Sprintf("panic outside a case: %v\n%s", r, debug.Stack()))
			}
		}()
		body(c)
	}()
	c.finish()
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// loadKnown reads known_findings.txt. Lines: "known: property=<id> case=<json string> what=<text>".
func (c *C) loadKnown() {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return
	}
	for _, line := range strings.Split(string(b), "\n") {
		pre := "known: property=" + c.ID + " case="
		if !strings.HasPrefix(line, pre) {
			continue
		}
		rest := line[len(pre):]
		dec := json.NewDecoder(strings.NewReader(rest))
		var key string
		if err := dec.Decode(&key); err != nil {
			continue
		}
		what := ""
		if i := strings.Index(rest, " what="); i >= 0 {
			what = rest[i+6:]
		}
		c.known[key] = what
	}
}

// Expired reports whether the internal deadline has passed; it marks the run as not exhaustive.
func (c *C) Expired() bool {
	if time.Now().After(c.deadline) {
		c.Truncate("internal deadline reached")
		return true
	}
	return false
}

// Enough reports that so many violations have been found that going on adds nothing.
func (c *C) Enough() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.violations) >= 8 || atomic.LoadInt64(&c.flaky) >= 100
}

// Stop is Expired or Enough.
func (c *C) Stop() bool { return c.Enough() || c.Expired() }

// Truncate records why the enumeration was not complete.
func (c *C) Truncate(why string) {
	c.mu.Lock()
	c.truncated[why] = true
	c.mu.Unlock()
}

// Part adds n to a named count reported in the evidence.
func (c *C) Part(name string, n int64) {
	c.mu.Lock()
	c.parts[name] += n
	c.mu.Unlock()
}

// Outcome adds to the outcome histogram.
func (c *C) Outcome(s string) {
	c.mu.Lock()
	c.outcomes[s]++
	c.mu.Unlock()
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// Case evaluates one case. key must identify it uniquely and reproducibly.
func (c *C) Case(key string, fn func(t *T)) bool { return c.CaseF(func() string { return key }, fn) }

// CaseF is Case with a lazily built key.
func (c *C) CaseF(key func() string, fn func(t *T)) bool {
	if c.only != "" && key() != c.only {
		return true
	}
	if c.shards > 1 {
		n := atomic.AddInt64(&c.caseNo, 1) - 1
		if int(n%int64(c.shards)) != c.shard {
			return true
		}
	}
	k := key()
	t := c.runCase(func() string { return k }, fn)
	atomic.AddInt64(&c.evals, 1)
	atomic.AddInt64(&c.states, t.states)
	atomic.AddInt64(&c.transitions, t.trans)
	atomic.AddInt64(&c.traces, t.traces)
	c.mu.Lock()
	if !t.trivial {
		c.distinct[hash64(k)] = struct{}{}
	}
	if t.outcome != "" {
		c.outcomes[t.outcome]++
	}
	if n := c.sampleKeys[t.outcome]; n < 2 && len(c.samples) < 12 && !t.trivial {
		c.sampleKeys[t.outcome] = n + 1
		var s interface{} = k
		if t.sample != nil {
			s = map[string]interface{}{"case": k, "observed": t.sample}
		} else if t.outcome != "" {
			s = map[string]interface{}{"case": k, "observed": t.outcome}
		}
		c.samples = append(c.samples, s)
	}
	c.mu.Unlock()
	if !t.Failed() {
		return true
	}
	// Confirm: the same case must fail every time.
	for i := 0; i < 4 && !t.confirms; i++ {
		t2 := c.runCase(func() string { return k }, fn)
		if !t2.Failed() {
			atomic.AddInt64(&c.flaky, 1)
			// One more round decides whether it is the code that is nondeterministic.
			fails := 1
			for j := 0; j < 20; j++ {
				if c.runCase(func() string { return k }, fn).Failed() {
					fails++
				}
			}
			if fails < 3 && os.Getenv("VERIF_SECOND") == "" {
				// It may depend on what the process did before: a second process decides, see doFinish.
				c.Outcome("failed once only")
				c.mu.Lock()
				if c.suspect == "" {
					c.suspect = fmt.Sprintf("%.300q: %.300s", k, strings.Join(t.fails, "; "))
				}
				c.mu.Unlock()
				return true
			}
			t.Failf("(fails when first evaluated in a process, and not always: it depends on state that is kept)")
			break
		}
	}
	c.report(k, strings.Join(t.fails, "\n"))
	return false
}

func (c *C) runCase(key func() string, fn func(t *T)) (t *T) {
	t = &T{c: c, key: key}
	id := atomic.AddInt64(&c.seq, 1)
	r := &running{key: key, start: time.Now()}
	if id%64 == 1 {
		r.cpu = cpuTime()
	}
	t.r = r
	c.curMu.Lock()
	c.cur[id] = r
	c.curMu.Unlock()
	begin := r.start
	defer func() {
		c.curMu.Lock()
		delete(c.cur, id)
		if d := time.Since(begin); slow != "" && d > c.slowest {
			c.slowest = d
			if f, err := os.OpenFile(slow, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o600); err == nil {
				fmt.Fprintf(f, "slow: %v %.100s\n", d, key())
				f.Close()
			}
		}
		c.curMu.Unlock()
		if p := recover(); p != nil {
			t.Failf("panic: %v\n%s", p, trimStack(string(debug.Stack())))
		}
	}()
	fn(t)
	return t
}

// slow names a file for the longest cases, to find those that come near the watchdog's limits.
var slow = os.Getenv("VERIF_SLOW")

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 30 {
		lines = lines[:30]
	}
	return strings.Join(lines, "\n")
}

// watchdog turns a case that never returns, or that eats all memory, into a violation: the process could not go on.
func (c *C) watchdog() {
	const wall, cpuMin = 100 * time.Second, 60 * time.Second
	var ms runtime.MemStats
	for {
		time.Sleep(500 * time.Millisecond)
		runtime.ReadMemStats(&ms)
		mem := ms.HeapAlloc > 10<<30
		c.curMu.Lock()
		var oldest *running
		for _, r := range c.cur {
			if oldest == nil || r.start.Before(oldest.start) {
				oldest = r
			}
		}
		c.curMu.Unlock()
		if oldest == nil {
			continue
		}
		if time.Since(oldest.start) > wall && oldest.cpu == 0 {
			// start counting the CPU from here
			oldest.cpu = cpuTime()
			oldest.start = time.Now()
			continue
		}
		stuck := oldest.cpu != 0 && time.Since(oldest.start) > wall && (cpuTime()-oldest.cpu > cpuMin || time.Since(oldest.start) > 2*wall)
		if mem || stuck {
			why := "the case does not terminate"
			if mem {
				why = "the case uses unbounded memory"
			}
			c.report(oldest.key(), why)
			c.Truncate(why)
			c.finish()
		}
	}
}

func (c *C) report(key, detail string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if what, ok := c.known[key]; ok {
		c.knownHit[key] = what
		return
	}
	for _, v := range c.violations {
		if v.Key == key {
			return
		}
	}
	v := violation{Key: key, Detail: detail}
	if len(c.violations) < 4 && c.shardOut == "" {
		dir := filepath.Join(verifDir(), "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		v.Replay = filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.ID, len(c.violations)+1))
		b, _ := json.MarshalIndent(map[string]interface{}{
			"property": c.ID, "case": key, "detail": detail, "tier": c.Tier,
			"rerun": fmt.Sprintf("VERIF_REPLAY=%s ./run.sh %s %s", v.Replay, c.ID, c.Tier),
		}, "", " ")
		os.WriteFile(v.Replay, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, v.Replay)
		d := detail
		if len(d) > 900 {
			d = d[:900] + "..."
		}
		kk := key
		if len(kk) > 500 {
			kk = kk[:500] + "..."
		}
		fmt.Printf("  case: %s\n  %s\n", kk, strings.ReplaceAll(d, "\n", "\n  "))
	}
	c.violations = append(c.violations, v)
}

// Violation reports a violation that was established outside Case.
func (c *C) Violation(key, detail string) { c.report(key, detail) }

var finishOnce sync.Once

func (c *C) finish() {
	finishOnce.Do(c.doFinish)
	select {}
}

func (c *C) doFinish() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.shardOut != "" {
		c.writeShard()
		os.Exit(0)
	}
	if c.flaky > 0 && len(c.violations) == 0 && os.Getenv("VERIF_SECOND") == "" {
		// Cases failed that did not fail again. If this happens in a new process too, it is not by chance.
		fmt.Printf("%s %s: %d cases failed once only, such as %s; running again\n", c.ID, c.Tier, c.flaky, c.suspect)
		left := 2*time.Until(c.deadline) + time.Since(c.start) - 240*time.Second
		if left < time.Minute {
			left = time.Minute
		}
		os.Setenv("VERIF_BUDGET_S", strconv.Itoa(int(left/time.Second)))
		os.Setenv("VERIF_SECOND", "1")
		err := syscall.Exec(os.Args[0], os.Args, os.Environ())
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var trunc []string
	for k := range c.truncated {
		trunc = append(trunc, k)
	}
	sort.Strings(trunc)
	cov := map[string]interface{}{
		"evaluations":         c.evals,
		"distinct_nontrivial": int64(len(c.distinct)) + c.distinctN,
		"rule":                c.Rule,
		"samples":             c.samples,
		"exhaustive":          len(trunc) == 0 && c.only == "",
		"distinct_outcomes":   len(c.outcomes),
	}
	if c.Level == "model_checking" {
		if c.transitions == 0 {
			c.transitions = c.evals // each case is one step from its initial state
		}
		cov["states"] = c.states
		cov["transitions"] = c.transitions
		cov["traces_validated_against_impl"] = c.traces
	}
	if len(c.outcomes) > 0 {
		// keep the histogram small
		type kv struct {
			k string
			v int64
		}
		var l []kv
		for k, v := range c.outcomes {
			l = append(l, kv{k, v})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v || l[i].v == l[j].v && l[i].k < l[j].k })
		m := map[string]int64{}
		for i, e := range l {
			if i == 40 {
				break
			}
			m[e.k] = e.v
		}
		cov["outcomes"] = m
	}
	if len(c.parts) > 0 {
		cov["parts"] = c.parts
	}
	if len(trunc) > 0 {
		cov["truncated"] = trunc
	}
	if c.Explain != "" {
		cov["explanation"] = c.Explain
	}
	if c.flaky > 0 {
		cov["unreproducible_failures"] = c.flaky
	}
	if len(c.samples) == 0 {
		cov["samples"] = []interface{}{"none"}
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Level, "coverage": cov,
		"assumptions": c.Assumptions, "wall_s": time.Since(c.start).Seconds(), "violations": len(c.violations),
	}
	if c.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	var ks []string
	for k := range c.knownHit {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s case=%s %s\n", c.ID, strconv.Quote(k), c.knownHit[k])
	}
	fmt.Printf("%s %s: evaluations=%d distinct=%d outcomes=%d states=%d transitions=%d traces=%d exhaustive=%v violations=%d %.1fs\n",
		c.ID, c.Tier, c.evals, int64(len(c.distinct))+c.distinctN, len(c.outcomes), c.states, c.transitions, c.traces, len(trunc) == 0, len(c.violations), time.Since(c.start).Seconds())
	for _, s := range trunc {
		fmt.Printf("  not exhaustive: %s\n", s)
	}
	if len(c.violations) > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

// Parallel runs f(0..n-1) on all cores.
func (c *C) Parallel(n int, f func(i int)) {
	var next int64 = -1
	var wg sync.WaitGroup
	w := runtime.NumCPU()
	if w > n {
		w = n
	}
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || c.Enough() {
					return
				}
				if c.Expired() {
					return
				}
				func() {
					defer func() {
						if r := recover(); r != nil {
							c.report(fmt.Sprintf("harness-shard-%d", i), fmt.Sprintf("panic outside a case: %v\n%s", r, debug.Stack()))
						}
					}()
					f(i)
				}()
			}
		}()
	}
	wg.Wait()
}
