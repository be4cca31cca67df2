// Package h is the shared runtime of all checks: supervisor/worker split,
// deterministic PRNG per case, journal, violation reporting and evidence.
package h

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Prop is one property check.
type Prop struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Serial      bool // runs in one process
	Run         func(c *Ctx)
}

// Ctx is the state of one worker run.
type Ctx struct {
	Prop       *Prop
	Seed       int64
	Tier       string
	mu         sync.Mutex
	evals      int64
	distinct   map[uint64]struct{}
	counters   map[string]int64
	samples    []string
	known      map[string]string
	knownHit   map[string]bool
	viol       []violation
	only       string // replay: run only this case
	journal    *os.File
	curCase    string
	log        []string
	caseCPU0   int64
	caseSeq    int64
	reserved   int64
	require    map[string]int64
	exhaustive bool
	maxViol    int
	haveCase   bool
	nsamples   int
	pick       func(int, string) bool // contexts made by Sub
	npick, ran int
	kept       []keptBytes
	nkept      int
	shard      uint32 // this worker runs the cases of one of `shards` parts
	shards     uint32
}

type violation struct {
	Key, Case, Msg string
	Log            []string
}

type caseAbort struct{}

// Thorough reports whether this is the thorough tier.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Reserve announces memory that is allocated but hardly touched.
func (c *Ctx) Reserve(n int64) { atomic.AddInt64(&c.reserved, n) }

// N picks a case count by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// scale multiplies the number of generated cases in the quick tier, so that
// each check takes about twenty seconds.
var scale = map[string]int{
	"B01": 9, "B02": 9, "B03": 9, "B04": 9, "B05": 9, "B06": 20,
	"C01": 4, "C02": 24, "C03": 20, "C04": 8, "C05": 6, "C06": 18, "C07": 4,
	"D01": 20, "D02": 8, "D03": 20, "D04": 8, "D05": 8, "D06": 4, "D07": 8, "D08": 10, "D09": 14, "D10": 15, "D11": 60, "D12": 8,
	"E01": 80, "F01": 60, "F02": 60, "F03": 2, "F04": 2, "F05": 40, "G01": 40, "G02": 30, "G03": 100, "G04": 100,
	"K01": 20, "S01": 30, "S02": 50, "S03": 80, "S04": 40, "U01": 20,
}

// M is N for the number of generated cases.
func (c *Ctx) M(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	n := 2 * quick * max(1, scale[c.Prop.ID])
	if d, _ := strconv.Atoi(os.Getenv("VERIF_DIVIDE")); d > 1 { // while developing
		n = (n + d - 1) / d
	}
	return n
}

// Rng returns a PRNG determined by seed, property and name only.
func (c *Ctx) Rng(name string) *rand.Rand {
	s := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%s", c.Seed, c.Prop.ID, name)))
	return rand.New(rand.NewSource(int64(binary.LittleEndian.Uint64(s[:8]))))
}

// Logf records an event in the current case's log (shown in the replay file).
func (c *Ctx) Logf(format string, a ...any) {
	c.mu.Lock()
	if len(c.log) < 4000 {
		c.log = append(c.log, fmt.Sprintf(format, a...))
	}
	c.mu.Unlock()
}

// Count adds to a coverage counter.
func (c *Ctx) Count(name string, n int64) {
	c.mu.Lock()
	c.counters[name] += n
	c.mu.Unlock()
}

type keptBytes struct {
	what  string
	b     []byte
	saved []byte
}

// Keep holds on to some bytes the code returned and reports when one of the
// results held has changed. What was returned belongs to the caller.
func (c *Ctx) Keep(what string, b []byte) {
	for _, k := range c.kept {
		if !bytes.Equal(k.b, k.saved) {
			c.Fail("result-changed", "the %d bytes %s returned changed with a later call: %s", len(k.b), k.what, FirstDiff(k.b, k.saved))
		}
	}
	if len(b) == 0 || len(b) > 1<<14 {
		return
	}
	k := keptBytes{what, b, append([]byte(nil), b...)}
	if len(c.kept) < 5 {
		c.kept = append(c.kept, k)
	} else {
		c.kept[c.nkept%5] = k
	}
	c.nkept++
}

// Distinct records a non-trivial case signature.
func (c *Ctx) Distinct(sig ...any) {
	s := sha256.Sum256([]byte(fmt.Sprint(sig...)))
	c.mu.Lock()
	c.distinct[binary.LittleEndian.Uint64(s[:8])] = struct{}{}
	c.mu.Unlock()
}

// Sample stores an example of a case (a few are kept).
func (c *Ctx) Sample(format string, a ...any) {
	c.mu.Lock()
	c.nsamples++
	if len(c.samples) < 5 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.samples = append(c.samples, s)
	}
	c.mu.Unlock()
}

// Eval counts evaluations inside a case.
func (c *Ctx) Eval(n int64) { atomic.AddInt64(&c.evals, n) }

// Require demands that a counter reached min by the end of the run.
func (c *Ctx) Require(name string, min int64) { c.require[name] = min }

// Exhaustive notes that the run enumerated a finite space completely.
func (c *Ctx) Exhaustive() { c.exhaustive = true }

// Fail reports a violation and aborts the current case. key identifies the
// finding for the known-findings file.
func (c *Ctx) Fail(key, format string, a ...any) {
	c.record(key, fmt.Sprintf(format, a...))
	panic(caseAbort{})
}

func (c *Ctx) record(key, msg string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.known[key]; ok {
		c.knownHit[key] = true
		return
	}
	c.viol = append(c.viol, violation{key, c.curCase, msg, append([]string(nil), c.log...)})
}

type stopRun struct{}

// Case runs one case. Panics raised by the code under test are violations.
func (c *Ctx) Case(name string, f func(r *rand.Rand)) {
	if c.pick != nil {
		c.subCase(name, f)
		return
	}
	if c.only != "" && c.only != name {
		return
	}
	if c.shards > 1 {
		f := fnv.New32a()
		f.Write([]byte(name))
		if f.Sum32()>>3%c.shards != c.shard {
			return
		}
	}
	c.haveCase = true
	c.curCase = name
	c.kept = c.kept[:0]
	c.log = c.log[:0]
	if c.journal != nil {
		c.journal.WriteAt([]byte(fmt.Sprintf("%-200s\n", name)), 0)
	}
	atomic.StoreInt64(&c.caseCPU0, cpuNow())
	atomic.AddInt64(&c.caseSeq, 1)
	c.Eval(1)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(caseAbort); ok {
					return
				}
				c.classify(r, debug.Stack())
			}
		}()
		f(c.Rng(name))
	}()
	if len(c.viol) >= c.maxViol {
		panic(stopRun{})
	}
}

// Panics runs f and returns the panic value, if the code under test panicked.
// Panics of the harness itself are re-raised.
func (c *Ctx) Protect(f func()) (pv any, stack string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(caseAbort); ok {
				panic(r)
			}
			if s, ok := r.(StepBudget); ok {
				pv, stack = s, ""
				return
			}
			st := string(debug.Stack())
			if Blame(st) != "disko" {
				panic(r)
			}
			pv, stack = r, st
		}
	}()
	f()
	return
}

// StepBudget is thrown by harness callbacks when the code under test exceeds
// its logical step budget.
type StepBudget struct{ What string }

func (c *Ctx) classify(r any, stack []byte) {
	if s, ok := r.(StepBudget); ok {
		c.record("nontermination", "does not terminate: step budget exceeded: "+s.What)
		return
	}
	b := Blame(string(stack))
	if b == "disko" {
		c.record("panic", fmt.Sprintf("panic in code under test: %v\n%s", r, trimStack(string(stack))))
		return
	}
	if b == "harness" && calledBack(string(stack)) {
		// The code under test called the harness's stand-in (a file system
		// implementation, stream or image) with something it cannot take.
		c.record("callback", fmt.Sprintf("the code under test made a call its implementation cannot take: %v\n%s", r, trimStack(string(stack))))
		return
	}
	if _, ok := r.(runtime.Error); ok && b == "harness" {
		// The oracles index and dereference what they were handed without
		// further ado where no sound result is nil or too short.
		c.record("unusable", fmt.Sprintf("a result is not usable: %v\n%s", r, trimStack(string(stack))))
		return
	}
	fmt.Fprintf(os.Stderr, "HARNESS ERROR in case %s: %v\n%s\n", c.curCase, r, stack)
	os.Exit(3)
}

// calledBack says whether the innermost harness frames of a panic were called
// by the code under test.
func calledBack(stack string) bool {
	i := strings.LastIndex(stack, "\npanic(")
	return i >= 0 && strings.Contains(stack[i:], "\ngithub.com/dargueta/disko")
}

func trimStack(s string) string {
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

var frameRe = regexp.MustCompile(`(?m)^(github\.com/dargueta/disko|verifharness|main)[./(]`)

// Blame says whose code raised a panic: the first frame below the panic call
// belonging to the code under test or to the harness.
func Blame(stack string) string {
	if i := strings.LastIndex(stack, "\npanic("); i >= 0 {
		stack = stack[i+1:]
		if j := strings.Index(stack, "\n"); j >= 0 {
			stack = stack[j:]
		}
	}
	m := frameRe.FindStringSubmatch(stack)
	if m == nil {
		return "unknown"
	}
	if strings.HasPrefix(m[1], "github.com/dargueta") {
		return "disko"
	}
	return "harness"
}

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

const (
	caseCPULimit     = 90 * time.Second // CPU, not wall-clock; cases take milliseconds
	thoroughCPULimit = 900 * time.Second
	memLimit         = 3 << 30
)

// Main is the entry point of every check binary.
func Main(props ...*Prop) {
	var id, replay string
	worker := false
	shard := ""
	root := os.Getenv("VERIF_ROOT")
	for i := 1; i < len(os.Args); i++ {
		switch os.Args[i] {
		case "-prop":
			i++
			id = os.Args[i]
		case "-replay":
			i++
			replay = os.Args[i]
		case "-worker":
			worker = true
		case "-shard":
			i++
			shard = os.Args[i]
		}
	}
	var p *Prop
	for _, q := range props {
		if q.ID == id {
			p = q
		}
	}
	if p == nil || root == "" {
		fmt.Fprintln(os.Stderr, "usage: VERIF_ROOT=... bin -prop ID [-replay CASE]")
		os.Exit(3)
	}
	if worker {
		runWorker(p, root, replay, shard)
		return
	}
	supervise(p, root, replay)
}

func evidencePath(root, id string) string { return filepath.Join(root, "evidence", id+".json") }

func replayDir(root string) string { return filepath.Join(root, "evidence", "replay") }

func supervise(p *Prop, root, replay string) {
	os.MkdirAll(replayDir(root), 0o755)
	os.Remove(evidencePath(root, p.ID))
	tmp, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	code := func() int {
		defer os.RemoveAll(tmp)
		t0 := time.Now()
		n := shards(p, replay)
		parts := make([]part, n)
		var wg sync.WaitGroup
		found := make(chan struct{}) // closed when a worker has found a violation
		var once sync.Once
		for i := range parts {
			wg.Add(1)
			go func() {
				defer wg.Done()
				parts[i] = runPart(p, replay, tmp, i, n, found)
				if len(parts[i].Viol) > 0 && os.Getenv("VERIF_TIER") != "thorough" {
					once.Do(func() { close(found) })
				}
			}()
		}
		wg.Wait()
		return merge(p, root, replay, parts, t0)
	}()
	os.Exit(code)
}

// shards is the number of worker processes the cases are spread over.
func shards(p *Prop, replay string) int {
	if s := os.Getenv("VERIF_SHARDS"); s != "" {
		if n, _ := strconv.Atoi(s); n > 0 {
			return n
		}
	}
	if p.Serial || replay != "" {
		return 1
	}
	return min(8, runtime.NumCPU())
}

// part is what one worker reports.
type part struct {
	Evals, Cases int64
	Distinct     []uint64
	Counters     map[string]int64
	Require      map[string]int64
	Samples      []string
	Viol         []violation
	Known        []string
	Exhaustive   bool
	Seed         int64
	Tier         string
	HaveCase     bool
	rc           int // 0: ran to its end
}

func runPart(p *Prop, replay, tmp string, i, n int, found chan struct{}) (out part) {
	fail := part{rc: 3}
	jpath := filepath.Join(tmp, fmt.Sprintf("journal-%d", i))
	ppath := filepath.Join(tmp, fmt.Sprintf("part-%d", i))
	args := []string{"-prop", p.ID, "-worker", "-shard", fmt.Sprintf("%d/%d", i, n)}
	if replay != "" {
		args = append(args, "-replay", replay)
	}
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(os.Environ(), "VERIF_JOURNAL="+jpath, "VERIF_PART="+ppath, "VERIF_TMP="+tmp, "GOTRACEBACK=all",
		"GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=50")
	if n > 1 {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=2")
	}
	cmd.Stdout = os.Stdout
	var errbuf tailBuf
	cmd.Stderr = &errbuf
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return fail
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	wall := 800 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		wall = 4 * time.Hour
	}
	if s := os.Getenv("VERIF_WALL"); s != "" {
		n, _ := strconv.Atoi(s)
		wall = time.Duration(n) * time.Second
	}
	select {
	case <-done:
	case <-found:
		cmd.Process.Kill()
		<-done
		return part{}
	case <-time.After(wall):
		cmd.Process.Kill()
		<-done
		fmt.Fprintf(os.Stderr, "INCONCLUSIVE: wall-clock watchdog of %v\n", wall)
		return fail
	}
	os.Stderr.Write(errbuf.head())
	rc := cmd.ProcessState.ExitCode()
	if rc == 3 {
		return fail
	}
	if rc == 0 {
		b, err := os.ReadFile(ppath)
		if err == nil {
			err = json.Unmarshal(b, &out)
		}
		if err != nil {
			fmt.Fprintf(os.Stderr, "HARNESS ERROR: no report of a worker: %v\n", err)
			return fail
		}
		return out
	}
	// The worker died: fatal runtime error, race report, hang or memory blow-up.
	j, _ := os.ReadFile(jpath)
	cs := strings.TrimSpace(string(j))
	text := string(errbuf.all())
	blame := strings.Contains(text, "github.com/dargueta/disko")
	what := ""
	switch {
	case rc == 66:
		what = "data race reported by the race detector"
		blame = blame && raceInDisko(text)
	case rc == 4:
		what = "case exceeded its CPU budget (non-termination)"
	case rc == 5:
		what = "case exceeded its memory budget"
	default:
		what = fmt.Sprintf("fatal runtime failure (exit %d)", rc)
	}
	if !blame {
		fmt.Fprintf(os.Stderr, "HARNESS ERROR: worker died in case %q: %s\n", cs, what)
		return fail
	}
	return part{Viol: []violation{{Key: "fatal", Case: cs, Msg: what + "\n" + trimStack(text)}}}
}

// merge reports what the workers observed and gives the verdict.
func merge(p *Prop, root, replay string, parts []part, t0 time.Time) int {
	t := part{Counters: map[string]int64{}, Require: map[string]int64{}, Seed: 1, Tier: "quick"}
	distinct := map[uint64]struct{}{}
	known := map[string]bool{}
	failed := false
	for _, q := range parts {
		if q.rc != 0 {
			failed = true
			continue
		}
		t.Evals += q.Evals
		t.Cases += q.Cases
		for _, d := range q.Distinct {
			distinct[d] = struct{}{}
		}
		for k, n := range q.Counters {
			t.Counters[k] += n
		}
		for k, n := range q.Require {
			t.Require[k] = n
		}
		if len(t.Samples) < 5 {
			t.Samples = append(t.Samples, q.Samples...)
			t.Samples = t.Samples[:min(5, len(t.Samples))]
		}
		t.Viol = append(t.Viol, q.Viol...)
		for _, k := range q.Known {
			if !known[k] {
				known[k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
			}
		}
		t.Exhaustive = t.Exhaustive || q.Exhaustive
		t.HaveCase = t.HaveCase || q.HaveCase
		if q.Tier != "" {
			t.Seed, t.Tier = q.Seed, q.Tier
		}
	}
	cov := map[string]any{"evaluations": t.Evals, "distinct_nontrivial": len(distinct), "rule": p.Rule,
		"samples": t.Samples, "seed_cases": t.Cases, "observed": t.Counters}
	if t.Exhaustive {
		cov["exhaustive"] = true
	}
	wall := time.Since(t0).Seconds()
	writeEvidence(root, p, t.Seed, t.Tier, cov, len(t.Viol), wall)
	if len(t.Viol) > 0 {
		for i, v := range t.Viol {
			if i == 3 {
				break
			}
			path := writeReplay(root, p.ID, v, i)
			fmt.Printf("%s case=%s: %s\n", p.ID, v.Case, firstLines(v.Msg, 12))
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		}
		return 1
	}
	if failed {
		return 3
	}
	if replay == "" {
		for k, min := range t.Require {
			if t.Counters[k] < min {
				fmt.Fprintf(os.Stderr, "INCONCLUSIVE: observed %q = %d, need at least %d\n", k, t.Counters[k], min)
				return 3
			}
		}
		if len(distinct) == 0 || t.Evals == 0 {
			fmt.Fprintln(os.Stderr, "INCONCLUSIVE: the run observed nothing")
			return 3
		}
	} else if !t.HaveCase {
		fmt.Fprintln(os.Stderr, "no such case")
		return 3
	}
	keys := make([]string, 0, len(t.Counters))
	for k := range t.Counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var sb strings.Builder
	for _, k := range keys {
		fmt.Fprintf(&sb, " %s=%d", k, t.Counters[k])
	}
	fmt.Printf("%s held: %d evaluations, %d distinct non-trivial, %.1fs;%s\n", p.ID, t.Evals, len(distinct), wall, sb.String())
	return 0
}

var accessRe = regexp.MustCompile(`(?m)^(Read|Write|Previous read|Previous write) at `)

// raceInDisko: at least one access of a race was made by the code under test,
// that is, its innermost frame outside libraries is there.
func raceInDisko(out string) bool {
	for _, m := range accessRe.FindAllStringIndex(out, -1) {
		block := out[m[1]:]
		if i := strings.Index(block, "\n\n"); i >= 0 {
			block = block[:i]
		}
		g := raceFrameRe.FindStringSubmatch(block)
		if g != nil && strings.HasPrefix(g[1], "github.com/dargueta") {
			return true
		}
	}
	return false
}

var raceFrameRe = regexp.MustCompile(`(?m)^\s+(github\.com/dargueta/disko|verifharness|main)[./(]`)

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<20 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuf) all() []byte { t.mu.Lock(); defer t.mu.Unlock(); return t.b }
func (t *tailBuf) head() []byte {
	b := t.all()
	if len(b) > 6000 {
		b = b[:6000]
	}
	return b
}

func loadKnown(root, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return m
	}
	re := regexp.MustCompile(`^known: property=(\S+) key=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if g := re.FindStringSubmatch(l); g != nil && g[1] == id {
			m[g[2]] = g[3]
		}
	}
	return m
}

func runWorker(p *Prop, root, replay, shard string) {
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	c := &Ctx{Prop: p, Seed: seed, Tier: tier, distinct: map[uint64]struct{}{}, counters: map[string]int64{},
		known: loadKnown(root, p.ID), knownHit: map[string]bool{}, require: map[string]int64{}, maxViol: 3, only: replay}
	fmt.Sscanf(shard, "%d/%d", &c.shard, &c.shards)
	if j := os.Getenv("VERIF_JOURNAL"); j != "" {
		c.journal, _ = os.Create(j)
	}
	debug.SetMaxStack(256 << 20)
	stop := make(chan struct{})
	go watchdog(c, stop)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopRun); ok {
					return
				}
				fmt.Fprintf(os.Stderr, "HARNESS ERROR outside a case: %v\n%s\n", r, debug.Stack())
				os.Exit(3)
			}
		}()
		p.Run(c)
	}()
	close(stop)
	out := part{Evals: c.evals, Cases: c.caseSeq, Counters: c.counters, Require: c.require, Samples: c.samples, Viol: c.viol,
		Exhaustive: c.exhaustive, Seed: c.Seed, Tier: c.Tier, HaveCase: c.haveCase}
	for d := range c.distinct {
		out.Distinct = append(out.Distinct, d)
	}
	for k := range c.knownHit {
		out.Known = append(out.Known, c.known[k])
	}
	b, err := json.Marshal(out)
	if err == nil {
		err = os.WriteFile(os.Getenv("VERIF_PART"), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Exit(0)
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func watchdog(c *Ctx, stop chan struct{}) {
	var seq int64 = -1
	limit := int64(caseCPULimit)
	if c.Thorough() {
		limit = int64(thoroughCPULimit)
	}
	for {
		select {
		case <-stop:
			return
		case <-time.After(200 * time.Millisecond):
		}
		s := atomic.LoadInt64(&c.caseSeq)
		if s == 0 {
			continue
		}
		if s != seq {
			seq = s
		}
		if cpuNow()-atomic.LoadInt64(&c.caseCPU0) > limit && atomic.LoadInt64(&c.caseSeq) == s {
			dump(4)
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if int64(ms.HeapAlloc) > memLimit+atomic.LoadInt64(&c.reserved) {
			dump(5)
		}
	}
}

func dump(code int) {
	buf := make([]byte, 1<<19)
	n := runtime.Stack(buf, true)
	os.Stderr.Write(buf[:n])
	os.Exit(code)
}

func writeReplay(root, id string, v violation, i int) string {
	path := filepath.Join(replayDir(root), fmt.Sprintf("%s-%d.json", id, i))
	b, _ := json.MarshalIndent(map[string]any{"property": id, "case": v.Case, "key": v.Key, "message": v.Msg, "log": v.Log,
		"seed": os.Getenv("VERIF_SEED"), "tier": os.Getenv("VERIF_TIER"),
		"rerun": fmt.Sprintf("VERIF_SEED=%s VERIF_TIER=%s bash run.sh %s replay '%s'", os.Getenv("VERIF_SEED"), os.Getenv("VERIF_TIER"), id, v.Case)}, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

func writeEvidence(root string, p *Prop, seed int64, tier string, cov map[string]any, viol int, wall float64) {
	m := map[string]any{"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov,
		"wall_s": wall, "violations": viol}
	if len(p.Assumptions) > 0 {
		m["assumptions"] = p.Assumptions
	}
	b, _ := json.MarshalIndent(m, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	os.WriteFile(evidencePath(root, p.ID), b, 0o644)
}

// Repo is the tree under test: /repo, unless a copy is examined while the
// checks are developed.
func Repo() string {
	if s := os.Getenv("VERIF_REPO"); s != "" {
		return s
	}
	return "/repo"
}

// TempDir is the scratch directory of this run (removed by the supervisor).
func TempDir() string { return os.Getenv("VERIF_TMP") }

var tempSeq int64

// TempName returns a name in the run's scratch directory not used before.
func TempName(prefix string) string {
	return filepath.Join(TempDir(), fmt.Sprintf("%s-%d-%d", prefix, os.Getpid(), atomic.AddInt64(&tempSeq, 1)))
}

// Hex abbreviates bytes.
func Hex(b []byte) string {
	if len(b) > 48 {
		return fmt.Sprintf("%x...(%d bytes)", b[:48], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// FirstDiff describes the first difference of two byte strings.
func FirstDiff(a, b []byte) string {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("lengths %d/%d, first difference at %d: %#02x vs %#02x", len(a), len(b), i, a[i], b[i])
		}
	}
	return fmt.Sprintf("lengths %d/%d, equal up to %d", len(a), len(b), n)
}
