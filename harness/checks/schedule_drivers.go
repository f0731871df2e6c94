package checks

import (
	"fmt"

	. "mc/eng"
	"mc/env"
	. "mc/lib"

	"pol/bp"
	"pol/pol"

	math "github.com/IBM/mathlib"
)

// scenario is a closed concurrent driver.
type scenario struct {
	name    string
	size    int // 0: few decisions, 1: more, 2: many
	prepare func(t *T) *running
}

// running is a prepared scenario.  run starts further goroutines with spawn
// and does not wait for them; it returns what is wrong, if anything.  after
// judges once every goroutine has ended.
type running struct {
	run   func(spawn func(func())) string
	after func() string
}

type schedWorld struct {
	s      shape
	l      Ledger
	a, b   string // ids that share a part of their paths
	proofs map[string]*pol.LiabilityProof
	V, W   *math.G1
}

var schedWorlds = map[string]*schedWorld{}

func schedSet(s shape) (*pol.LiabilitySet, Ledger) {
	env.Seed(3)
	a, b, c := "00", "01", "12"
	for len(a) < s.depth {
		a, b, c = a+"0", b+"2", c+"1"
	}
	ls, l, db := build(s, []setOp{{a, 5}, {b, 9}, {c, 4}})
	db.ReadOnly = true
	return ls, l
}

func schedW(s shape) *schedWorld {
	if w := schedWorlds[s.name]; w != nil {
		return w
	}
	ls, l := schedSet(s)
	w := &schedWorld{s: s, l: l, proofs: map[string]*pol.LiabilityProof{}}
	w.V, w.W = ls.Root()
	w.a, w.b = l.IDs()[0], l.IDs()[1]
	for _, id := range l.IDs() {
		_, p, _, _ := ls.ProveLiability(id)
		w.proofs[id] = &p
	}
	schedWorlds[s.name] = w
	return w
}

// free is set while the runtime picks the schedules; parallelism is on then.
var free bool

// with runs f with parallelism, whatever was set before.
func with(parallel bool, f func()) {
	if free {
		f()
		return
	}
	old := pol.ParallelismEnabled
	pol.ParallelismEnabled = parallel
	defer func() { pol.ParallelismEnabled = old }()
	f()
}

// ways of spoiling a range proof, rejected for different reasons
var rangeSpoils = []struct {
	name string
	f    func(p *bp.RangeProof)
}{
	{"first", func(p *bp.RangeProof) { spoil(Leaves(p)[0]) }},
	{"scalar", func(p *bp.RangeProof) {
		for _, l := range Leaves(p) {
			if _, ok := l.V.Interface().(*math.Zr); ok {
				spoil(l)
				return
			}
		}
	}},
	{"shorter", func(p *bp.RangeProof) {
		for _, l := range Slices(p) {
			if l.V.Len() > 0 {
				l.V.Set(l.V.Slice(0, l.V.Len()-1))
				return
			}
		}
	}},
}

func spoil(l Leaf) {
	_, vals := Tampered(l.V)
	l.V.Set(vals[0])
}

// outcomeOf runs a verification and says what it returned, right then.
func outcomeOf(w *schedWorld, p *pol.LiabilityProof, id string) string {
	_, err := p.Verify(w.s.pp(), id, w.V, w.W, w.s.id2path)
	return verdictOf(err)
}

// complete judges a proof as it was when proving returned.
func complete(w *schedWorld, ls *pol.LiabilitySet, id string) (p *pol.LiabilityProof, bad string) {
	v, proof, _, ok := ls.ProveLiability(id)
	p = Clone(&proof).(*pol.LiabilityProof)
	if !ok || v != w.l[id] {
		return nil, fmt.Sprintf("proving %s gives %d %v", id, v, ok)
	}
	for i, r := range p.RangeProofs {
		if r == nil {
			return nil, fmt.Sprintf("proving %s returned before range proof %d was made", id, i)
		}
	}
	return p, ""
}

func scenarios() []*scenario {
	var r []*scenario
	d2, d3 := shallow(3, 2), shallow(3, 3)
	add := func(name string, size int, f func(t *T) *running) { r = append(r, &scenario{name, size, f}) }

	// one verification
	one := func(name string, s shape, size int, want string, spoil func(p *pol.LiabilityProof)) {
		add("verify/"+name+"/"+s.name, size, func(t *T) *running {
			w := schedW(s)
			id := w.a
			p := Clone(w.proofs[id]).(*pol.LiabilityProof)
			spoil(p)
			x := &running{run: func(spawn func(func())) (bad string) {
				if v := outcomeOf(w, p, id); v != want {
					return fmt.Sprintf("a proof that has to be %s is %s", want, v)
				}
				return ""
			}}
			return x
		})
	}
	nothing := func(*pol.LiabilityProof) {}
	one("good", d2, 0, "accepted", nothing)
	one("good", d3, 1, "accepted", nothing)
	for i := 0; i < 3; i++ {
		i := i
		for n, k := range rangeSpoils {
			k := k
			one(fmt.Sprintf("bad%d-%s", i, k.name), d3, []int{1, 2, 2}[(n+i)%3], "rejected", func(p *pol.LiabilityProof) { k.f(p.RangeProofs[i]) })
		}
	}
	for _, a := range rangeSpoils {
		for _, b := range rangeSpoils {
			a, b := a, b
			one("bad-"+a.name+"-"+b.name, d2, 0, "rejected", func(p *pol.LiabilityProof) {
				a.f(p.RangeProofs[0])
				b.f(p.RangeProofs[1])
			})
		}
	}
	one("all-bad", d3, 1, "rejected", func(p *pol.LiabilityProof) {
		for i, k := range rangeSpoils {
			k.f(p.RangeProofs[i])
		}
	})
	// rejected while range proofs are still being verified
	one("early-digest", d3, 0, "rejected", func(p *pol.LiabilityProof) {
		p.Digests[0] = p.Digests[0].Plus(Zr(1))
		rangeSpoils[0].f(p.RangeProofs[1])
		rangeSpoils[2].f(p.RangeProofs[0])
	})
	one("early-leaf", d3, 0, "rejected", func(p *pol.LiabilityProof) {
		p.Digests[1] = p.Digests[1].Plus(Zr(1))
		rangeSpoils[0].f(p.RangeProofs[0])
	})
	one("early-sum", d2, 0, "rejected", func(p *pol.LiabilityProof) { spoil(Leaves(p.SumArgumentProof)[0]) })
	one("late-liability", d2, 0, "rejected", func(p *pol.LiabilityProof) { p.LiabilityProof.Sum++ })

	// several verifications
	several := func(name string, s shape, shared bool, spoils ...func(p *pol.LiabilityProof)) {
		add("verifications/"+name+"/"+s.name, 2, func(t *T) *running {
			w := schedW(s)
			id, id2 := w.a, w.b
			got := make([]string, len(spoils))
			var ps []*pol.LiabilityProof
			var ids []string
			for i, f := range spoils {
				x := id
				if i > 0 && !shared {
					x = id2
				}
				p := Clone(w.proofs[x]).(*pol.LiabilityProof)
				if i > 0 && shared {
					p = ps[0]
				}
				if f != nil {
					f(p)
				}
				ps, ids = append(ps, p), append(ids, x)
			}
			return &running{
				run: func(spawn func(func())) string {
					for i := range ps {
						i := i
						spawn(func() { got[i] = outcomeOf(w, ps[i], ids[i]) })
					}
					return ""
				},
				after: func() string {
					for i, f := range spoils {
						want := "accepted"
						if f != nil || (shared && spoils[0] != nil) {
							want = "rejected"
						}
						if got[i] != want {
							return fmt.Sprintf("verification %d of %d has to be %s but is %q", i, len(got), want, got[i])
						}
					}
					return ""
				}}
		})
	}
	bad := func(i, k int) func(p *pol.LiabilityProof) {
		return func(p *pol.LiabilityProof) { rangeSpoils[k].f(p.RangeProofs[i]) }
	}
	several("same", d2, true, nil, nil)
	several("same-bad", d2, true, bad(1, 0), nil)
	several("two", d2, false, nil, nil)
	several("good-bad", d2, false, nil, bad(0, 0))
	several("bad-good", d2, false, bad(1, 1), nil)
	several("bad-bad", d2, false, bad(0, 2), bad(1, 0))
	several("early-good", d2, false, func(p *pol.LiabilityProof) { p.Digests[0] = p.Digests[0].Plus(Zr(1)) }, nil)

	// proving
	prove := func(name string, s shape, second func(ls *pol.LiabilitySet, w *schedWorld) string) {
		size := 2
		if second == nil {
			size = s.depth - 2
		}
		add("prove/"+name+"/"+s.name, size, func(t *T) *running {
			w := schedW(s)
			id := w.a
			ls, _ := schedSet(s)
			var p *pol.LiabilityProof
			var b1, b2 string
			return &running{
				run: func(spawn func(func())) string {
					if second != nil {
						spawn(func() { b2 = second(ls, w) })
					}
					p, b1 = complete(w, ls, id)
					return b1
				},
				after: func() (bad string) {
					if b2 != "" {
						return b2
					}
					V, W := ls.Root()
					with(false, func() {
						if _, err := p.Verify(s.pp(), id, V, W, s.id2path); err != nil {
							bad = fmt.Sprintf("the proof made is rejected: %v", err)
						}
					})
					return
				}}
		})
	}
	prove("one", d2, nil)
	prove("one", d3, nil)
	again := func(other bool) func(ls *pol.LiabilitySet, w *schedWorld) string {
		return func(ls *pol.LiabilitySet, w *schedWorld) string {
			id, id2 := w.a, w.b
			if other {
				id = id2
			}
			p, bad := complete(w, ls, id)
			if bad != "" {
				return bad
			}
			V, W := ls.Root()
			if _, err := p.Verify(w.s.pp(), id, V, W, w.s.id2path); err != nil {
				return fmt.Sprintf("the other proof is rejected: %v", err)
			}
			return ""
		}
	}
	prove("twice", d2, again(false))
	prove("two", d2, again(true))
	prove("and-verify", d2, func(ls *pol.LiabilitySet, w *schedWorld) string {
		id := w.a
		if v := outcomeOf(w, Clone(w.proofs[id]).(*pol.LiabilityProof), id); v != "accepted" {
			return "a good proof is rejected while another one is made"
		}
		return ""
	})
	prove("and-read", d2, func(ls *pol.LiabilitySet, w *schedWorld) string {
		id2 := w.b
		if tot := ls.ProveTot(); tot.Sum != 18 || tot.Verify(w.s.pp(), func() *math.G1 { V, _ := ls.Root(); return V }()) != nil {
			return "the total proof made at the same time is wrong"
		}
		if v, ok := ls.Get(id2); !ok || v != w.l[id2] {
			return fmt.Sprintf("Get(%s) = %d %v at the same time", id2, v, ok)
		}
		return ""
	})
	prove("and-other-set", d2, func(_ *pol.LiabilitySet, w *schedWorld) string {
		ls, l, _ := build(w.s, []setOp{{"00", 1}, {"21", 2}})
		V, W := ls.Root()
		p, bad := complete(&schedWorld{s: w.s, l: l}, ls, "21")
		if bad != "" {
			return bad
		}
		if _, err := p.Verify(w.s.pp(), "21", V, W, w.s.id2path); err != nil {
			return fmt.Sprintf("the proof from the other set is rejected: %v", err)
		}
		return ""
	})
	for _, sc := range r {
		f := sc.prepare
		sc.prepare = func(t *T) *running {
			var x *running
			with(false, func() { x = f(t) })
			run := x.run
			return &running{
				run: func(spawn func(func())) string {
					if !free {
						pol.ParallelismEnabled = true
					}
					return run(spawn)
				},
				after: func() string {
					if !free {
						pol.ParallelismEnabled = false
					}
					if x.after == nil {
						return ""
					}
					return x.after()
				},
			}
		}
	}
	return r
}
