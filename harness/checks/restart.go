package checks

import (
	"fmt"
	"os"
	"os/exec"
	"strings"

	. "mc/eng"
	. "mc/lib"

	"pol/common"
	"pol/pol"
	"pol/pp"
	"pol/verkle"

	"mc/env"

	math "github.com/IBM/mathlib"
)

// Histories that span a restart: what is fresh in one process must not be what
// another process makes when it does the same.

const restartEnv = "VERIF_RESTART"

// Restarted does what a restarted process is asked to do.
func Restarted() bool {
	what := os.Getenv(restartEnv)
	if what == "" {
		return false
	}
	say := func(name, kind string, x interface{}) {
		fmt.Printf("fresh %s %s %v\n", strings.ReplaceAll(name, " ", "_"), kind, x)
	}
	elems := func(name string, p interface{}, skip func(string) bool) {
		for _, l := range Elems(Leaves(p)) {
			if skipIPP(l) || skip(l.Path) {
				continue
			}
			switch e := l.V.Interface().(type) {
			case *math.G1:
				say(name+l.Path, "G", fmt.Sprintf("%x", e.Bytes()))
			case *math.Zr:
				say(name+l.Path, "Z", Big(e))
			}
		}
	}
	no := func(string) bool { return false }
	switch what {
	case "setup":
		P := pp.NewPublicParams(3)
		say("power of the secret", "G", fmt.Sprintf("%x", P.G1s[0].Bytes()))
		_, Q := pol.GeneratePublicParams(3, pol.Dense)
		say("power of the secret of a setup", "G", fmt.Sprintf("%x", Q.PPPP.G1s[0].Bytes()))
		say("digest", "D", fmt.Sprintf("%x", Q.PPPP.Digest))
	case "masks":
		for i, z := range common.RandVec(3) {
			say(fmt.Sprintf("random vector %d", i), "Z", Big(z))
		}
		s := shallow(3, 2)
		db := NewDB()
		ls := pol.NewLiabilitySet(s.pp(), db, s.id2path)
		ls.Set("00", 5)
		ls.Set("12", 5)
		for k, raw := range db.M {
			v := &verkle.Vertex{}
			v.FromBytes(raw)
			say("blinding factor of vertex "+k, "Z", Big(v.BlindingFactor))
		}
		_, proof, _, _ := ls.ProveLiability("00")
		elems("proof", &proof, deterministic)
		elems("range", rangePart(2).proof, no)
		elems("sum", sumPart(2, 0).proof, no)
		elems("sums", sumPart(2, 2).proof, no)
		elems("equality", equalityPart(3, 0, 1).proof, no)
		elems("equalities", poePart(3, 2).proof, no)
	}
	return true
}

func restart(g *G, what string) {
	g.Real("restart/"+what, func(t *T) {
		if !env.Toy {
			exe, err := os.Executable()
			if err != nil {
				t.Skip("cannot be started again")
			}
			seen := map[string]string{}
			for i := 1; i <= 3; i++ {
				c := exec.Command(exe)
				c.Env = append(os.Environ(), restartEnv+"="+what)
				out, err := c.Output()
				if err != nil {
					t.Fatalf("process %d failed: %v", i, err)
				}
				n := 0
				for _, l := range strings.Split(string(out), "\n") {
					f := strings.Fields(l)
					if len(f) != 4 || f[0] != "fresh" {
						continue
					}
					n++
					t.Eval()
					k := f[2] + f[3]
					if old := seen[k]; old != "" && !strings.HasSuffix(old, fmt.Sprintf("process %d", i)) {
						t.Fatalf("%s is made again by another process: as %s", old, f[1])
					}
					seen[k] = fmt.Sprintf("%s of process %d", f[1], i)
				}
				if n == 0 {
					t.Fatalf("process %d made nothing", i)
				}
				t.Step()
			}
		}
		t.State("restart", what)
		t.Outcome("restart")
		t.Obs("fresh after a restart")
	})
}
