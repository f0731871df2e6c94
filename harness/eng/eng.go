// Package eng enumerates the cases of a check, runs each of them on the code
// under test in worker processes, and reports what was covered.
//
// A check is a deterministic generator of cases; a case is a closed driver:
// everything nondeterministic (randomness, schedules, faults) is decided by
// the case.  Workers take cases by index, so the same case always runs the
// same way whatever the number of workers.
package eng

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"mc/env"
)

type Check struct {
	ID          string
	Level       string // exploration, fault_enumeration, model_checking
	Rule        string // how cases are made, what makes one non-trivial
	Bounds      string // what the enumeration covers completely
	Assumptions []string
	Gen         func(g *G)
	// Done sees the merged result (worker processes do not run it).
	Done func(tier string, r *Result) []string
}

var registry = map[string]*Check{}

func Register(c *Check) {
	if registry[c.ID] != nil {
		panic("duplicate " + c.ID)
	}
	registry[c.ID] = c
}

// Violation is one case on which the property did not hold.
type Violation struct {
	Case string
	Msg  string
}

type Result struct {
	Evaluations int64
	Transitions int64
	Cases       int64
	Skipped     map[string]int64
	Outcomes    map[string]int64
	States      map[string]bool `json:"-"`
	StateList   []string
	Samples     []string
	Violations  []Violation
	Known       []Violation
	Obs         map[string][]string // case -> observations, for cases replayed on BN254
	Complete    bool
	LastCase    string
	Elapsed     float64
}

// G is handed to the generator of a check.
type G struct {
	Thorough bool
	Seed     uint64
	idx      int64
	w        *worker
}

// Case emits one case.
func (g *G) Case(id string, run func(t *T)) { g.emit(id, false, run) }

// Real emits one case that is also replayed on the real group library.
func (g *G) Real(id string, run func(t *T)) { g.emit(id, true, run) }

// Quiet runs f outside of any case; what it finds is not recorded.
func (g *G) Quiet(f func(t *T)) {
	w := &worker{check: g.w.check, res: newResult()}
	defer func() { recover() }()
	f(&T{ID: "quiet", w: w})
}

// Stop tells a generator that nobody needs further cases.
func (g *G) Stop() bool { return g.w.stop }

func (g *G) emit(id string, real bool, run func(t *T)) {
	w := g.w
	idx := g.idx
	g.idx++
	if w.stop {
		return
	}
	if w.only != "" {
		if id != w.only {
			return
		}
	} else {
		if w.realOnly {
			if !real {
				return
			}
			idx = w.realIdx
			w.realIdx++
		}
		if idx%int64(w.shards) != int64(w.shard) {
			return
		}
	}
	if time.Now().After(w.deadline) {
		w.stop = true
		w.res.Complete = false
		return
	}
	w.run(id, real, run)
}

// T is handed to a running case.
type T struct {
	ID   string
	Seed uint64
	w    *worker
	obs  []string
	real bool
	bad  bool
	rng  uint64
}

type abort struct{}
type skip struct{ why string }

// Failf records that the property does not hold on this case.
func (t *T) Failf(format string, args ...interface{}) {
	t.bad = true
	msg := fmt.Sprintf(format, args...)
	if len(t.w.res.Violations) < 40 {
		t.w.res.Violations = append(t.w.res.Violations, Violation{t.ID, msg})
	}
	t.w.count("VIOLATION")
	if len(t.w.res.Violations) >= 40 {
		t.w.stop = true
	}
}

// Fatalf is Failf, and ends the case.
func (t *T) Fatalf(format string, args ...interface{}) {
	t.Failf(format, args...)
	panic(abort{})
}

// Skip ends the case without judging it.
func (t *T) Skip(why string) { panic(skip{why}) }

// Eval counts one evaluation of the property.
func (t *T) Eval() { t.w.res.Evaluations++ }

// Step counts one transition.
func (t *T) Step() { t.w.res.Transitions++ }

// Alive tells the watchdog that a long case makes progress.
func (t *T) Alive() { t.w.started.Store(time.Now().UnixNano()) }

// State records a state, described canonically.
func (t *T) State(parts ...interface{}) {
	h := sha256.Sum256([]byte(fmt.Sprint(parts...)))
	t.w.res.States[string(h[:10])] = true
}

// Outcome classifies what happened.
func (t *T) Outcome(s string) { t.w.count(s) }

// Obs records an observation compared between the two group libraries.
func (t *T) Obs(format string, args ...interface{}) {
	if t.real {
		t.obs = append(t.obs, fmt.Sprintf(format, args...))
	}
}

const cut = "(cut short)"

// Cut ends the case early when it runs on BN254.
func (t *T) Cut() {
	if !env.Toy {
		if t.real {
			t.obs = append(t.obs, cut)
		}
		panic(abort{})
	}
}

// Try runs f and returns the panic it raised, if any.
func Try(f func()) (p interface{}, stack string) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case abort, skip:
				panic(r)
			}
			p = r
			stack = string(debug.Stack())
		}
	}()
	f()
	return nil, ""
}

type worker struct {
	check    *Check
	shard    int
	shards   int
	only     string
	realOnly bool
	realIdx  int64
	seed     uint64
	res      *Result
	stop     bool
	deadline time.Time
	journal  *os.File
	started  atomic.Int64 // unix nanos of the start of the current case
	limit    time.Duration
}

func (w *worker) count(s string) { w.res.Outcomes[s]++ }

func caseSeed(seed uint64, id string) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d|%s", seed, id)))
	return binary.BigEndian.Uint64(h[:8])
}

func (w *worker) run(id string, real bool, f func(t *T)) {
	if w.journal != nil {
		w.journal.WriteAt([]byte(fmt.Sprintf("%-400s\n", id)), 0)
	}
	t := &T{ID: id, Seed: caseSeed(w.seed, id), w: w, real: real}
	env.Seed(t.Seed)
	env.Force(nil)
	env.OnScalar(nil)
	env.OnEqual(nil)
	env.SetWorlds(1)
	w.started.Store(time.Now().UnixNano())
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case abort:
				case skip:
					w.res.Skipped[x.why]++
				default:
					stack := string(debug.Stack())
					t.Failf("the code under test crashed: %v\n%s", r, stack)
				}
			}
		}()
		f(t)
	}()
	w.started.Store(0)
	w.res.Cases++
	if len(w.res.Samples) < 3 || (w.res.Cases%997 == 0 && len(w.res.Samples) < 6) {
		w.res.Samples = append(w.res.Samples, id)
	}
	if real {
		w.res.Obs[id] = t.obs
	}
	w.res.LastCase = id
}

const (
	exitHang = 78
	exitMem  = 77
	exitRace = 66
)

func (w *worker) watchdog() {
	var ms runtime.MemStats
	for {
		time.Sleep(500 * time.Millisecond)
		s := w.started.Load()
		if s != 0 && time.Since(time.Unix(0, s)) > w.limit {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "case ran for more than %v\n%s\n", w.limit, buf[:n])
			os.Exit(exitHang)
		}
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 3<<30 {
			fmt.Fprintf(os.Stderr, "heap of %d bytes\n", ms.HeapAlloc)
			os.Exit(exitMem)
		}
	}
}

type job struct {
	args []string
	env  []string
}

var (
	fID       = flag.String("check", "", "property id")
	fShard    = flag.Int("shard", -1, "")
	fShards   = flag.Int("shards", 1, "")
	fOut      = flag.String("out", "", "")
	fOnly     = flag.String("case", "", "replay one case")
	fReal     = flag.Bool("real", false, "only the cases replayed on the real group library")
	fLimit    = flag.Int("limit", 60, "seconds a case may take")
	fBudget   = flag.Int("budget", 0, "seconds of exploration")
	fRealBin  = flag.String("realbin", "", "the same program built with the real group library")
	fVerif    = flag.String("verif", "/verif", "")
	fParallel = flag.Int("j", 0, "")
)

// Main is the program: a parent that shards, or (with -shard) one worker.
func Main() {
	flag.Parse()
	c := registry[*fID]
	if c == nil {
		fmt.Println("unknown check", *fID)
		os.Exit(2)
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = uint64(v)
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if *fShard >= 0 {
		os.Exit(workerMain(c, seed, tier))
	}
	if *fOnly != "" {
		os.Exit(replayMain(c, seed, tier))
	}
	os.Exit(parentMain(c, seed, tier))
}

func newResult() *Result {
	return &Result{Skipped: map[string]int64{}, Outcomes: map[string]int64{}, States: map[string]bool{},
		Obs: map[string][]string{}, Complete: true}
}

func workerMain(c *Check, seed uint64, tier string) int {
	debug.SetGCPercent(400)
	w := &worker{check: c, shard: *fShard, shards: *fShards, only: *fOnly, realOnly: *fReal, seed: seed, res: newResult(),
		limit: time.Duration(*fLimit) * time.Second, deadline: time.Now().Add(time.Duration(*fBudget) * time.Second)}
	if *fOut != "" {
		w.journal, _ = os.Create(*fOut + ".journal")
	}
	go w.watchdog()
	c.Gen(&G{Thorough: tier == "thorough", Seed: seed, w: w})
	for s := range w.res.States {
		w.res.StateList = append(w.res.StateList, fmt.Sprintf("%x", s))
	}
	b, _ := json.Marshal(w.res)
	if err := os.WriteFile(*fOut, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	return 0
}

// replayMain runs one case in this process and says what it saw.
func replayMain(c *Check, seed uint64, tier string) int {
	w := &worker{check: c, shards: 1, only: *fOnly, realOnly: false, seed: seed, res: newResult(),
		limit: time.Duration(*fLimit) * time.Second, deadline: time.Now().Add(time.Hour)}
	go w.watchdog()
	c.Gen(&G{Thorough: tier == "thorough", Seed: seed, w: w})
	for id, o := range w.res.Obs {
		for _, l := range o {
			fmt.Printf("%s: %s\n", id, l)
		}
	}
	for _, v := range w.res.Violations {
		fmt.Printf("case %s: %s\n", v.Case, v.Msg)
	}
	if w.res.Cases == 0 {
		fmt.Println("no such case")
		return 2
	}
	if len(w.res.Violations) > 0 {
		return 1
	}
	fmt.Println("held")
	return 0
}

type outcome struct {
	res    *Result
	code   int
	stderr string
	last   string
}

func spawn(bin string, out string, extra ...string) outcome {
	os.Remove(out)
	os.Remove(out + ".journal")
	cmd := exec.Command(bin, append([]string{"-check", *fID, "-out", out}, extra...)...)
	var eb bytes.Buffer
	cmd.Stderr = &eb
	cmd.Stdout = &eb
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GOMAXPROCS=2")
	err := cmd.Run()
	o := outcome{stderr: eb.String()}
	if err != nil {
		o.code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			o.code = ee.ExitCode()
		}
		if j, e := os.ReadFile(out + ".journal"); e == nil {
			o.last = strings.TrimSpace(string(j))
		}
		return o
	}
	b, err := os.ReadFile(out)
	if err != nil {
		o.code = -2
		return o
	}
	r := newResult()
	if err := json.Unmarshal(b, r); err != nil {
		o.code = -3
		return o
	}
	o.res = r
	return o
}

var frameRE = regexp.MustCompile(`(?m)^pol/[a-z]+\.`)

func describeCrash(o outcome) string {
	lines := strings.Split(o.stderr, "\n")
	if len(lines) > 60 {
		lines = lines[:60]
	}
	why := "crashed"
	switch o.code {
	case exitHang:
		why = "did not terminate"
	case exitRace:
		why = "has a data race"
	case exitMem:
		why = "used memory without bound"
	}
	return fmt.Sprintf("the code under test %s (exit %d)\n%s", why, o.code, strings.Join(lines, "\n"))
}

func parentMain(c *Check, seed uint64, tier string) int {
	start := time.Now()
	self, err := os.Executable()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	dir, err := os.MkdirTemp("", "mc-"+c.ID)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	j := *fParallel
	if j == 0 {
		j = runtime.NumCPU()
	}
	budget := *fBudget
	if budget == 0 {
		budget = 150
		if tier == "thorough" {
			budget = 1500
		}
	}

	total := newResult()
	var notes []string
	phase := func(name, bin string, budget int, extra ...string) bool {
		outs := make([]outcome, j)
		var wg sync.WaitGroup
		for i := 0; i < j; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				outs[i] = spawn(bin, filepath.Join(dir, fmt.Sprintf("%s%d", name, i)),
					append([]string{"-shard", strconv.Itoa(i), "-shards", strconv.Itoa(j), "-budget", strconv.Itoa(budget), "-limit", strconv.Itoa(*fLimit)}, extra...)...)
			}(i)
		}
		wg.Wait()
		ok := true
		failed, redone, crashes := 0, 0, 0
		for _, o := range outs {
			if o.res != nil {
				merge(total, o.res, name == "real")
			}
		}
		for i, o := range outs {
			if o.res != nil {
				continue
			}
			failed++
			if crashes > 0 {
				// one reproduced crash decides; reproducing eight hangs takes too long
				notes = append(notes, fmt.Sprintf("case %q stopped worker %d as well (exit %d)", o.last, i, o.code))
				continue
			}
			if o.last == "" {
				notes = append(notes, fmt.Sprintf("worker %d of phase %s failed before its first case: exit %d: %s", i, name, o.code, o.stderr))
				continue
			}
			// Run the case alone, with twice the time, before believing it.
			again := spawn(bin, filepath.Join(dir, name+"again"), append([]string{"-shard", "0", "-shards", "1", "-case", o.last,
				"-budget", "600", "-limit", strconv.Itoa(2 * *fLimit)}, extra...)...)
			if again.res != nil {
				notes = append(notes, fmt.Sprintf("case %q stopped a worker (exit %d) but not when run alone: %s", o.last, o.code, firstLines(o.stderr, 5)))
				// the machine was busy, or the case depends on the ones before: give the shard another chance
				redo := spawn(bin, filepath.Join(dir, name+"redo"), append([]string{"-shard", strconv.Itoa(i), "-shards", strconv.Itoa(j),
					"-budget", strconv.Itoa(budget), "-limit", strconv.Itoa(2 * *fLimit)}, extra...)...)
				if redo.res != nil {
					merge(total, redo.res, name == "real")
					redone++
				} else {
					merge(total, again.res, name == "real")
				}
				continue
			}
			if again.code == exitHang || again.code == exitMem || again.code == exitRace || frameRE.MatchString(again.stderr) {
				total.Violations = append(total.Violations, Violation{o.last, describeCrash(again)})
				crashes++
			} else {
				notes = append(notes, fmt.Sprintf("case %q: the harness failed: exit %d: %s", o.last, again.code, firstLines(again.stderr, 12)))
			}
		}
		if failed > redone {
			ok = false
			total.Complete = false
		}
		return ok
	}

	ok := phase("toy", self, budget)
	toyObs := total.Obs
	validated, mismatches := int64(0), []string{}
	if *fRealBin != "" && len(toyObs) > 0 && len(total.Violations) == 0 {
		total.Obs = map[string][]string{}
		rb := 200
		if tier == "thorough" {
			rb = 900
		}
		ok = phase("real", *fRealBin, rb, "-real") && ok
		for id, ro := range total.Obs {
			to, have := toyObs[id]
			if !have {
				continue
			}
			// on BN254 a case may stop early, as group operations are slower there
			n := len(ro)
			if len(ro) > 0 && ro[n-1] == cut {
				n--
				if n < len(to) {
					to = to[:n]
				}
			}
			if strings.Join(to, "\n") == strings.Join(ro[:n], "\n") {
				validated++
			} else {
				for k := 0; k < len(to) && k < n; k++ {
					if to[k] != ro[k] {
						to, ro = to[k:k+1], ro[k:k+1]
						break
					}
				}
				mismatches = append(mismatches, fmt.Sprintf("%s: transparent group %q, BN254 %q", id, to, ro))
			}
		}
	}

	// Confirm violations: each must reproduce in a fresh process.
	var confirmed []Violation
	tried := map[string]bool{}
	for _, v := range total.Violations {
		if tried[v.Case] {
			continue
		}
		tried[v.Case] = true
		if strings.HasPrefix(v.Msg, "the code under test did not") || strings.HasPrefix(v.Msg, "the code under test used") ||
			strings.Contains(v.Msg, "(exit ") {
			confirmed = append(confirmed, v) // it has been run alone already
			continue
		}
		n, bin := 0, self
		var extra []string
		if strings.HasPrefix(v.Msg, "[BN254] ") {
			bin = *fRealBin
		}
		tries := 5
		for k := 0; k < tries; k++ {
			o := spawn(bin, filepath.Join(dir, "confirm"), append([]string{"-shard", "0", "-shards", "1", "-case", v.Case, "-budget", "600",
				"-limit", strconv.Itoa(*fLimit)}, extra...)...)
			if o.res == nil || len(o.res.Violations) > 0 {
				n++
				if k == 1 && n == 2 {
					break
				}
			}
			if k == 4 && n == 0 && tries == 5 {
				tries = 25
			}
		}
		if n > 0 {
			confirmed = append(confirmed, v)
		} else {
			notes = append(notes, fmt.Sprintf("case %q failed once and in none of %d further runs: %s", v.Case, tries, firstLines(v.Msg, 3)))
		}
		if len(confirmed) >= 3 {
			break
		}
	}

	known := loadKnown(filepath.Join(*fVerif, "known_findings.txt"), c.ID)
	var open []Violation
	for _, v := range confirmed {
		if k := known.match(v.Case); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k)
			continue
		}
		open = append(open, v)
	}
	var doneNotes []string
	if c.Done != nil && len(total.Violations) == 0 {
		doneNotes = c.Done(tier, total)
	}

	total.Elapsed = time.Since(start).Seconds()
	if err := writeEvidence(c, tier, seed, total, validated, len(open), notes, mismatches, doneNotes, j); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s %s: %d cases, %d evaluations, %d states, %d transitions, %d traces validated on BN254, complete=%v, %.1fs\n", c.ID, tier,
		total.Cases, total.Evaluations, len(total.States), total.Transitions, validated, total.Complete, total.Elapsed)
	var ks []string
	for k := range total.Outcomes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("  outcome %-60s %d\n", k, total.Outcomes[k])
	}
	for k, n := range total.Skipped {
		fmt.Printf("  skipped %s: %d\n", k, n)
	}
	for _, n := range append(notes, doneNotes...) {
		fmt.Println("  note:", n)
	}
	if len(open) > 0 {
		for i, v := range open {
			path := writeReplay(c, tier, seed, i, v)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
			fmt.Printf("  case %s\n  %s\n", v.Case, strings.ReplaceAll(firstLines(v.Msg, 25), "\n", "\n  "))
		}
		return 1
	}
	if len(mismatches) > 0 {
		for _, m := range mismatches {
			fmt.Println("  the transparent group disagrees with BN254:", m)
		}
		return 2
	}
	if !ok || total.Cases == 0 {
		return 2
	}
	return 0
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func merge(into, r *Result, real bool) {
	if real {
		for k, v := range r.Obs {
			into.Obs[k] = v
		}
		for _, v := range r.Violations {
			into.Violations = append(into.Violations, Violation{v.Case, "[BN254] " + v.Msg})
		}
		return
	}
	into.Evaluations += r.Evaluations
	into.Transitions += r.Transitions
	into.Cases += r.Cases
	into.Complete = into.Complete && r.Complete
	for k, v := range r.Skipped {
		into.Skipped[k] += v
	}
	for k, v := range r.Outcomes {
		into.Outcomes[k] += v
	}
	for _, s := range r.StateList {
		into.States[s] = true
	}
	if len(into.Samples) < 8 {
		into.Samples = append(into.Samples, r.Samples...)
	}
	into.Violations = append(into.Violations, r.Violations...)
	for k, v := range r.Obs {
		into.Obs[k] = v
	}
}

func writeReplay(c *Check, tier string, seed uint64, i int, v Violation) string {
	dir := filepath.Join(*fVerif, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.txt", c.ID, i))
	os.WriteFile(p, []byte(fmt.Sprintf("property %s\ncase %s\ntier %s\nseed %d\nreplay with: VERIF_SEED=%d VERIF_TIER=%s %s/check %s --case '%s'\n\n%s\n",
		c.ID, v.Case, tier, seed, seed, tier, *fVerif, c.ID, v.Case, v.Msg)), 0o644)
	return p
}

func writeEvidence(c *Check, tier string, seed uint64, r *Result, validated int64, open int, notes, mismatches, done []string, j int) error {
	samples := r.Samples
	if len(samples) > 8 {
		samples = samples[:8]
	}
	cov := map[string]interface{}{
		"evaluations":                   r.Evaluations,
		"rule":                          c.Rule,
		"samples":                       samples,
		"transitions":                   r.Transitions,
		"traces_validated_against_impl": validated,
		"cases":                         r.Cases,
		"exhaustive":                    r.Complete,
		"bounds":                        c.Bounds,
		"outcomes":                      r.Outcomes,
		"skipped":                       r.Skipped,
		"workers":                       j,
	}
	if c.Level == "model_checking" {
		cov["states"] = len(r.States)
	} else {
		cov["distinct_nontrivial"] = len(r.States)
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	if len(done) > 0 {
		cov["remarks"] = done
	}
	if len(mismatches) > 0 {
		cov["model_mismatches"] = mismatches
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": c.Level, "coverage": cov,
		"assumptions": c.Assumptions, "wall_s": r.Elapsed, "violations": open,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0o755)
	return os.WriteFile(filepath.Join(*fVerif, "evidence", c.ID+".json"), append(b, '\n'), 0o644)
}

type knownSet map[string]string

// A line "open: property=<id> case=<case id> | <what fails>" lists a finding.
func loadKnown(path, id string) knownSet {
	ks := knownSet{}
	b, err := os.ReadFile(path)
	if err != nil {
		return ks
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		pre := "open: property=" + id + " case="
		if strings.HasPrefix(l, pre) {
			rest := l[len(pre):]
			if i := strings.Index(rest, " | "); i >= 0 {
				ks[rest[:i]] = rest[i+3:]
			}
		}
	}
	return ks
}

func (k knownSet) match(c string) string { return k[c] }
