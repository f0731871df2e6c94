//go:build !sched

package checks

import (
	"sync"

	. "mc/eng"

	"pol/pol"
)

// Without the instrumentation the drivers run under the schedules the runtime
// picks; this program is built with the race detector.
func init() {
	Register(&Check{
		ID: "C15", Level: "model_checking",
		Rule:        "closed drivers run freely, under the race detector",
		Bounds:      "a few executions of every driver",
		Assumptions: []string{"the instrumented program could not be built: no schedule was controlled"},
		Gen: func(g *G) {
			free, pol.ParallelismEnabled = true, true
			for _, sc := range scenarios() {
				sc := sc
				g.Case("free/"+sc.name, func(t *T) {
					for k := 0; k < 6; k++ {
						x := sc.prepare(t)
						var wg sync.WaitGroup
						bad := x.run(func(f func()) {
							wg.Add(1)
							go func() { defer wg.Done(); f() }()
						})
						wg.Wait()
						t.Eval()
						t.State(sc.name, k)
						if bad == "" && x.after != nil {
							bad = x.after()
						}
						if bad != "" {
							t.Fatalf("%s: %s", sc.name, bad)
						}
						t.Alive()
					}
				})
			}
		},
	})
}
