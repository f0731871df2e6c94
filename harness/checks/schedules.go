//go:build sched

package checks

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"testing/synctest"

	. "mc/eng"
	"mc/env"

	"pol/vsched"
)

// SchedT is the test within which executions run.
var SchedT *testing.T

func init() {
	Register(&Check{
		ID: "C15", Level: "model_checking",
		Rule: "closed drivers (proving, verifying, several of them at once; good and bad proofs) run on the real code, instrumented so that the explorer decides at every synchronisation operation, " +
			"goroutine start and access to a variable or heap object that goroutines share which goroutine continues; a schedule is distinct when its sequence of decisions is. Each driver also runs freely under the race detector",
		Bounds: "all schedules with at most 2 deviations from running the oldest goroutine until it blocks; in the quick run 1 for drivers with many decisions, in the thorough run 3 for those with few",
		Assumptions: []string{"goroutines switch only at instrumented points; what happens between them is left to the race detector",
			"sync.Mutex, RWMutex and Once are replaced by versions the explorer controls, other primitives are the real ones", "group elements are represented by discrete logarithms"},
		Gen: genC15,
	})
}

// execute runs a scenario under a schedule and judges it.
func execute(t *T, sc *scenario, prefix []int) (o vsched.Outcome) {
	x := sc.prepare(t)
	var bad string
	env.Seed(1)
	var died interface{}
	ok := SchedT.Run("x", func(tt *testing.T) {
		defer func() { died = recover() }()
		synctest.Test(tt, func(*testing.T) {
			o = vsched.Run(synctest.Wait, prefix, func() { bad = x.run(vsched.Go) })
		})
	})
	_ = ok
	t.Eval()
	at := func() string {
		var b strings.Builder
		fmt.Fprintf(&b, "under schedule %v (", prefix)
		for i, d := range o.Trace {
			if d.Chosen != 0 {
				fmt.Fprintf(&b, "at decision %d goroutine %s continues at %s; ", i, d.ID, d.Site)
			}
		}
		return strings.TrimSuffix(b.String(), "; ") + ")"
	}
	switch {
	case o.Deadlock != "":
		t.Failf("%s %s: %s", sc.name, at(), o.Deadlock)
		t.Fatalf("no further schedules are tried")
	case o.Crash != "":
		t.Fatalf("%s %s crashes: %s", sc.name, at(), o.Crash)
	case died != nil:
		t.Fatalf("%s %s: %v", sc.name, at(), died)
	case bad != "":
		t.Fatalf("%s %s: %s", sc.name, at(), bad)
	}
	if x.after != nil {
		if bad := x.after(); bad != "" {
			t.Fatalf("%s %s: %s", sc.name, at(), bad)
		}
	}
	if o.Diverged {
		t.Outcome("schedule diverged on replay")
	}
	return o
}

// explore runs every schedule that extends prefix with at most budget further
// deviations, at or after decision from.
func explore(t *T, sc *scenario, prefix []int, budget int) {
	t.Alive()
	o := execute(t, sc, prefix)
	var d []int
	for _, x := range o.Trace {
		d = append(d, x.Chosen)
	}
	t.State(sc.name, trim(d))
	for _, x := range o.Trace[len(prefix):] {
		_ = x
		t.Step()
	}
	t.Outcome(sc.name)
	if budget == 0 {
		return
	}
	for k := len(prefix); k < len(o.Trace); k++ {
		for c := 1; c < o.Trace[k].N; c++ {
			explore(t, sc, append(append([]int{}, d[:k]...), c), budget-1)
		}
	}
}

func trim(d []int) []int {
	n := len(d)
	for n > 0 && d[n-1] == 0 {
		n--
	}
	return d[:n]
}

func genC15(g *G) {
	for _, sc := range scenarios() {
		sc := sc
		g.Real("default/"+sc.name, func(t *T) {
			execute(t, sc, nil)
			t.Obs("held")
		})
		if !env.Toy {
			continue
		}
		rb := os.Getenv("VERIF_RACEBIN")
		if rb != "" {
			g.Case("race/"+sc.name, func(t *T) { race(t, rb, sc) })
		}
		// the decisions of the default schedule; a failure is reported by its case
		var trace []vsched.Decision
		g.Quiet(func(t *T) {
			x := sc.prepare(t)
			env.Seed(1)
			SchedT.Run("x", func(tt *testing.T) {
				defer func() { recover() }()
				synctest.Test(tt, func(*testing.T) {
					trace = vsched.Run(synctest.Wait, nil, func() { x.run(vsched.Go) }).Trace
				})
			})
		})
		if os.Getenv("SCHED_DEBUG") != "" {
			n := 0
			for _, d := range trace {
				n += d.N - 1
			}
			fmt.Println(sc.name, len(trace), n)
		}
		budget := []int{2, 2, 1}[sc.size]
		if g.Thorough {
			budget = []int{3, 2, 2}[sc.size]
		}
		for k := range trace {
			k := k
			for c := 1; c < trace[k].N; c++ {
				c := c
				g.Case(fmt.Sprintf("%s/%d.%d", sc.name, k, c), func(t *T) {
					explore(t, sc, append(make([]int, k), c), budget-1)
				})
			}
		}
	}
}

// race runs a scenario freely under the race detector.
func race(t *T, bin string, sc *scenario) {
	dir, err := os.MkdirTemp("", "race")
	if err != nil {
		t.Skip(err.Error())
	}
	defer os.RemoveAll(dir)
	t.Alive()
	cmd := exec.Command(bin, "-check", "C15", "-shard", "0", "-shards", "1", "-budget", "600", "-case", "free/"+sc.name, "-out", filepath.Join(dir, "out"))
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1", "GOMAXPROCS=4")
	out, err := cmd.CombinedOutput()
	t.Eval()
	if err != nil {
		t.Fatalf("%s, running freely under the race detector: %v\n%s", sc.name, err, out)
	}
	b, _ := os.ReadFile(filepath.Join(dir, "out"))
	if strings.Contains(string(b), `"Violations":[{`) {
		t.Fatalf("%s, running freely under the race detector: %s", sc.name, b)
	}
	t.Outcome("race detector: " + sc.name)
}
