package checks

import (
	"bytes"
	"fmt"
	"math/big"

	. "mc/eng"
	. "mc/lib"

	"pol/pol"
	"pol/sparse"
	"pol/verkle"

	math "github.com/IBM/mathlib"
)

// Long histories: what only shows after many updates (in memories that fill
// up, are replaced, wrap around or are cleaned).  All words over an alphabet,
// repeated, and passes over all ids of a tree in several orders.
type program struct {
	s    shape
	name string
	ops  []setOp
}

func longPrograms(th bool) []program {
	var r []program
	words := func(s shape, alpha []setOp, length, total int) {
		sequences(alpha, length, func(w []setOp) {
			var ops []setOp
			for len(ops) < total {
				o := w[len(ops)%len(w)]
				ops = append(ops, setOp{o.id, o.v + int64(len(ops)/len(w))*2}) // another amount each time round
				if o.v == 0 {
					ops[len(ops)-1].v = 0
				}
			}
			r = append(r, program{s, fmt.Sprintf("%s/%v x %d", s.name, w, total), ops})
		})
	}
	passes := func(s shape, ids []string, name string) {
		n := len(ids)
		var ops []setOp
		for i, id := range ids {
			ops = append(ops, setOp{id, int64(i + 1)})
		}
		step := 1
		for _, k := range []int{5, 7, 11, 13} {
			if n%k != 0 {
				step = k
				break
			}
		}
		for i := range ids {
			ops = append(ops, setOp{ids[i*step%n], int64(3*i + 2)})
		}
		for i := range ids {
			v := int64(0)
			if i%2 == 0 {
				v = 1 << 40
			}
			ops = append(ops, setOp{ids[n-1-i], v})
		}
		r = append(r, program{s, s.name + "/" + name, ops})
	}
	more := 0
	if th {
		more = 1
	}
	words(shallow(3, 2), []setOp{{"00", 5}, {"00", 0}, {"01", 7}, {"12", 1}}, 2+more, 70)
	words(shallow(3, 3), []setOp{{"000", 5}, {"012", 0}, {"221", 7}}, 2+more, 50)
	for _, s := range []shape{shallow(3, 2), shallow(3, 3), shallow(3, 4), shallow(7, 2), shallow(15, 2)} {
		passes(s, s.ids(), "passes")
	}
	d7 := shape{"dense7", 7, 11, sparse.DigitPath(7), "dense"}
	var ids []string
	for i := 0; i < 40; i++ {
		ids = append(ids, fmt.Sprintf("%09d", i*24999983%1000000000))
	}
	passes(d7, ids, "passes")
	if th {
		passes(shallow(7, 3), shallow(7, 3).ids(), "passes")
		passes(shallow(3, 5), shallow(3, 5).ids(), "passes")
	}
	return r
}

// checkpoints says after which updates more is looked at.
func checkpoint(i, n int) bool { return i == n-1 || i%37 == 36 }

func longC01(g *G) {
	for _, p := range longPrograms(g.Thorough) {
		p := p
		g.Case("long/"+p.name, func(t *T) {
			ls := pol.NewLiabilitySet(p.s.pp(), NewDB(), p.s.id2path)
			l := Ledger{}
			var past []string
			for i, o := range p.ops {
				ls.Set(o.id, o.v)
				if _, have := l[o.id]; !have {
					past = append(past, o.id)
				}
				l[o.id] = o.v
				t.Step()
				look := []string{o.id, past[i%len(past)], past[0], p.ops[(i+1)%len(p.ops)].id}
				if checkpoint(i, len(p.ops)) {
					look = past
				}
				for _, id := range look {
					t.Eval()
					want, have := l[id]
					if got, ok := ls.Get(id); ok != have || got != want {
						t.Fatalf("after %d updates, Get(%s)=%d,%v; the ledger says %d,%v", i+1, id, got, ok, want, have)
					}
				}
			}
			t.State("long", p.name)
			t.Outcome("long history")
		})
	}
}

func longC02(g *G) {
	for _, p := range longPrograms(g.Thorough) {
		p := p
		g.Case("long/"+p.name, func(t *T) {
			tree := verkle.NewVerkleTree(uint16(p.s.fanout), p.s.id2path, NewDB())
			if p.s.full == "" {
				tree.PP = p.s.pp().PPPP
			}
			c := config{name: p.s.name, fanout: p.s.fanout, id2path: p.s.id2path}
			l := Ledger{}
			for i, o := range p.ops {
				tree.Put(o.id, o.v)
				l[o.id] = o.v
				t.Step()
				if checkpoint(i, len(p.ops)) {
					mirror(t, tree, c, l)
				}
			}
			t.State("long", p.name)
			t.Outcome("long history")
		})
	}
}

// longC05 reads the root after every update, and verifies new and old proofs.
func longC05(g *G) {
	for _, p := range longPrograms(g.Thorough) {
		p := p
		if p.s.name == "f15d2" || p.s.name == "f3d4" {
			continue
		}
		g.Case("long/"+p.name, func(t *T) {
			pp := p.s.pp()
			ls := pol.NewLiabilitySet(pp, NewDB(), p.s.id2path)
			l := Ledger{}
			type held struct {
				at   int
				id   string
				p    *pol.LiabilityProof
				tot  pol.TotalProof
				V, W *math.G1
			}
			var olds []held
			for i, o := range p.ops {
				ls.Set(o.id, o.v)
				l[o.id] = o.v
				t.Step()
				V, W := ls.Root()
				tot := ls.ProveTot()
				t.Eval()
				if err := tot.Verify(pp, V); err != nil || l.Sum().Cmp(big.NewInt(int64(tot.Sum))) != 0 {
					t.Fatalf("after %d updates the total %d (the ledger sums to %s) under the root: %v", i+1, tot.Sum, l.Sum(), err)
				}
				h := held{i, o.id, nil, tot, V, W}
				if checkpoint(i, len(p.ops)) {
					id := p.ops[i*7%(i+1)].id
					got, proof, _, ok := ls.ProveLiability(id)
					if !ok || got != l[id] {
						t.Fatalf("after %d updates ProveLiability(%s)=%d,%v", i+1, id, got, ok)
					}
					if _, err := proof.Verify(pp, id, V, W, p.s.id2path); err != nil {
						t.Fatalf("after %d updates the proof of %s is rejected: %v", i+1, id, err)
					}
					h.id, h.p = id, &proof
					for _, o := range olds {
						t.Eval()
						if err := o.tot.Verify(pp, o.V); err != nil {
							t.Fatalf("after %d updates the total proof made after %d is rejected under the root of its time: %v", i+1, o.at+1, err)
						}
						same := o.V.Equals(V) && o.W.Equals(W)
						if !o.V.Equals(V) && o.tot.Verify(pp, V) == nil {
							t.Fatalf("after %d updates the total proof made after %d is accepted", i+1, o.at+1)
						}
						if o.p == nil {
							continue
						}
						if _, err := o.p.Verify(pp, o.id, o.V, o.W, p.s.id2path); err != nil {
							t.Fatalf("after %d updates the proof made after %d is rejected under the root of its time: %v", i+1, o.at+1, err)
						}
						if _, err := o.p.Verify(pp, o.id, V, W, p.s.id2path); !same && err == nil {
							t.Fatalf("after %d updates the proof made after %d is accepted", i+1, o.at+1)
						}
					}
				}
				if len(olds) < 200 {
					olds = append(olds, h)
				}
			}
			t.State("long", p.name)
			t.Outcome("long history")
		})
	}
}

// longC03 proves every id (of the larger trees: every fifth) after a long history.
func longC03(g *G) {
	for _, p := range longPrograms(g.Thorough) {
		p := p
		if p.s.name == "dense7" || p.s.name == "f15d2" {
			continue
		}
		g.Case("long/"+p.name, func(t *T) {
			ls, l, _ := build(p.s, p.ops)
			if len(l) > 9 {
				few := Ledger{}
				for i, id := range l.IDs() {
					if i%7 == 0 {
						few[id] = l[id]
					}
				}
				V, W := ls.Root()
				for id, v := range few {
					got, proof, _, ok := ls.ProveLiability(id)
					t.Eval()
					if !ok || got != v {
						t.Fatalf("ProveLiability(%s)=%d,%v", id, got, ok)
					}
					if _, err := proof.Verify(p.s.pp(), id, V, W, p.s.id2path); err != nil {
						t.Fatalf("the proof of %s is rejected: %v", id, err)
					}
				}
			} else {
				proveAll(t, p.s, ls, l, nil)
			}
			t.State("long", p.name)
			t.Outcome("long history")
		})
	}
}

// longC22 checks the calls of long histories of insertions.
func longC22(g *G) {
	for _, p := range longPrograms(g.Thorough) {
		p := p
		g.Case("long/"+p.name, func(t *T) {
			c := config{name: p.s.name, fanout: p.s.fanout, id2path: p.s.id2path}
			seen := map[string]bool{}
			for _, o := range p.ops {
				if !seen[o.id] && len(c.ids) < 30 {
					seen[o.id] = true
					c.ids = append(c.ids, o.id)
				}
			}
			runC22(t, c, p.ops)
		})
	}
}

// longC16 repeats calls many times: the hundredth must do what the first did.
func longC16(g *G) {
	s := shallow(3, 2)
	ops := []setOp{{"00", 5}, {"01", 9}, {"12", 4}}
	repeat := func(word []int, total int) {
		for _, par := range []bool{false, true} {
			par := par
			g.Case(fmt.Sprintf("long/%v x %d/parallel=%v", word, total, par), func(t *T) {
				c := setCalls(t, s, ops, "12", "00")
				was, held := Dump(c.world), len(c.held)
				verdicts := map[int]string{0: "accepted", 1: "accepted", 2: "rejected"}
				run := func() {
					for i := 0; i < total; i++ {
						k := word[i%len(word)]
						v := c.fs[k]()
						t.Step()
						t.Eval()
						if old, have := verdicts[k]; have && old != v {
							t.Fatalf("call %d of %v: %s says %q and not %q as before", i, word, c.names[k], v, old)
						}
						verdicts[k] = v
						if i%60 == 59 || i == total-1 {
							if d := Changed(was, c.world); d != "" {
								t.Fatalf("after %d calls %v: %s changed", i, word, d)
							}
							c.check(t, fmt.Sprintf("%d calls %v", i, word))
							c.held = c.held[:held]
						}
					}
				}
				if par {
					inParallel(run)
				} else {
					run()
				}
				t.State("long", word, total, par)
				t.Outcome("long sequence")
			})
		}
	}
	n, m := 300, 70
	if g.Thorough {
		n, m = 3000, 700
	}
	for a := 0; a < 9; a++ {
		repeat([]int{a}, n)
		for b := 0; b < 9; b++ {
			if a != b {
				repeat([]int{a, b}, m)
			}
		}
	}
}

// longC17 exports after long histories.
func longC17(g *G) {
	for _, p := range longPrograms(g.Thorough) {
		p := p
		g.Case("long/"+p.name, func(t *T) {
			tree := verkle.NewVerkleTree(uint16(p.s.fanout), p.s.id2path, NewDB())
			if p.s.full == "" {
				tree.PP = p.s.pp().PPPP
			}
			c := config{name: p.s.name, fanout: p.s.fanout, id2path: p.s.id2path}
			l := Ledger{}
			for i, o := range p.ops {
				tree.Put(o.id, o.v)
				l[o.id] = o.v
				t.Step()
				if checkpoint(i, len(p.ops)) {
					dump := &bytes.Buffer{}
					tree.Serialize(dump)
					checkDump(t, dump.Bytes(), tree, c, l)
				}
			}
			t.State("long", p.name)
			t.Outcome("long history")
		})
	}
}

// longC18 interrupts many updates of a long history, each at one place, and
// repeats them.
func longC18(g *G) {
	for _, p := range longPrograms(g.Thorough) {
		p := p
		if p.s.name == "f15d2" || p.s.name == "f3d4" && !g.Thorough {
			continue
		}
		for kind := 0; kind < 4; kind++ {
			kind := kind
			g.Case(fmt.Sprintf("long/%s/%d", p.name, kind), func(t *T) {
				v := newVictim("tree", p.s)
				l := Ledger{}
				depth := len(p.s.id2path(p.ops[0].id))
				hit := 0
				for i, o := range p.ops {
					f := fault{kind < 2, i%(depth+1) + 1, kind%2 == 1}
					if v.try(t, f, o) {
						hit++
						t.State("long", p.name, i, f)
					}
					v.put(o)
					l[o.id] = o.v
					if checkpoint(i, len(p.ops)) {
						v.judge(t, p.s, fmt.Sprintf("after %d updates of which %d were interrupted", i+1, hit), l)
					}
				}
				t.Outcome("long history")
			})
		}
	}
}

// inParallel runs f with the provers' and verifiers' goroutines switched on.
// (Which schedules there are is C15's business.)
func inParallel(f func()) {
	old := pol.ParallelismEnabled
	pol.ParallelismEnabled = true
	defer func() { pol.ParallelismEnabled = old }()
	f()
}
