//go:build sched

//go:debug asynctimerchan=0

// Program sched is the explorer over an instrumented copy of the code under
// test.  Executions run in bubbles of testing/synctest, which tell when every
// goroutine is blocked.
package main

import (
	"os"
	"testing"

	"mc/checks"
	"mc/eng"
)

func main() {
	testing.Init()
	testing.Main(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "sched", F: func(t *testing.T) {
		checks.SchedT = t
		eng.Main()
	}}}, nil, nil)
	os.Exit(2)
}
