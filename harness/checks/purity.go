package checks

import (
	"fmt"
	"math/big"

	. "mc/eng"
	"mc/env"
	. "mc/lib"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pol"
	"pol/pp"
	"pol/sum"

	math "github.com/IBM/mathlib"
)

func init() {
	Register(&Check{
		ID: "C16", Level: "model_checking",
		Rule: "every sequence of proving and verifying calls up to a length, on a liability set with two proofs and a spoilt one; before and after each call every element, scalar and byte string reachable from the proofs, roots, ids, " +
			"parameters, the tree and the database is compared, and every verdict must be the one of the first time; the same for the provers and verifiers of each argument alone. A state is distinct when a different sequence of calls has run",
		Bounds: "sequences up to length 3 (quick) / 4 (thorough) of 9 calls on trees of depth 2 and 3; every prover and verifier of the argument packages called twice on the same inputs, accepting and rejecting",
		Assumptions: []string{"a component that was nil and is filled in by a call (a remembered digest) is no change",
			"group elements are represented by discrete logarithms"},
		Gen: genC16,
	})
}

// calls is a world on which calls are made that must not change it.
type calls struct {
	world interface{} // pointer to a struct holding everything that must stay
	names []string
	fs    []func() string // returns the verdict
	held  []holding       // what earlier calls have returned
}

// holding is something that was handed out and must stay as it was.
type holding struct {
	what string
	p    interface{}
	was  map[string]string
}

func (c *calls) hold(what string, p interface{}) {
	c.held = append(c.held, holding{what, p, Dump(p)})
}

func (c *calls) check(t *T, what string) {
	for _, h := range c.held {
		t.Eval()
		if d := Changed(h.was, h.p); d != "" {
			t.Fatalf("%s changed %s of %s", what, d, h.what)
		}
	}
}

func (c *calls) add(name string, f func() string) {
	c.names = append(c.names, name)
	c.fs = append(c.fs, f)
}

// sequence runs calls and compares the world after each of them.
func (c *calls) sequence(t *T, what string, seq []int, verdicts map[int]string) {
	before := Dump(c.world)
	for _, k := range seq {
		v := c.fs[k]()
		t.Step()
		t.Eval()
		if d := Changed(before, c.world); d != "" {
			t.Fatalf("%s: %s changed %s", what, c.names[k], d)
		}
		c.check(t, what+": "+c.names[k])
		if old, have := verdicts[k]; have && old != v {
			t.Fatalf("%s: after the calls %v, %s says %q and not %q as before", what, seq, c.names[k], v, old)
		}
		verdicts[k] = v
	}
}

func verdictOf(err error) string {
	if err == nil {
		return "accepted"
	}
	return "rejected"
}

func genC16(g *G) {
	longC16(g)
	depth := 3
	if g.Thorough {
		depth = 4
	}
	type setup struct {
		s    shape
		ops  []setOp
		a, b string
	}
	for _, st := range []setup{
		{shallow(3, 2), []setOp{{"00", 5}, {"01", 9}, {"12", 4}}, "12", "00"},
		{shallow(3, 3), []setOp{{"000", 5}, {"112", 9}, {"012", 1}}, "112", "000"},
		{shallow(3, 4), []setOp{{"0000", 5}, {"0112", 9}, {"2222", 1}}, "0112", "2222"},
		{shallow(7, 2), []setOp{{"00", 5}, {"06", 9}}, "06", "00"},
	} {
		st := st
		d := depth
		if st.s.name != "f3d2" {
			d--
		}
		const n = 9
		var rec func(cur []int)
		rec = func(cur []int) {
			if len(cur) == d {
				cur := append([]int{}, cur...)
				run := func(t *T) {
					c := setCalls(t, st.s, st.ops, st.a, st.b)
					if len(c.fs) != n {
						panic("number of calls")
					}
					c.sequence(t, st.s.name, cur, map[int]string{0: "accepted", 1: "accepted", 2: "rejected"})
					t.State(st.s.name, cur)
				}
				id := fmt.Sprintf("seq/%s/%v", st.s.name, cur)
				if st.s.name == "f3d3" && cur[0] == 3 && cur[1] < 3 {
					g.Real(id, run)
				} else {
					g.Case(id, run)
				}
				return
			}
			for k := 0; k < n; k++ {
				rec(append(cur[:len(cur):len(cur)], k))
			}
		}
		rec(nil)
	}
	for _, m := range partCalls(g.Thorough) {
		m := m
		run := func(t *T) {
			c := m.f()
			v := map[int]string{}
			for a := range c.fs {
				for b := range c.fs {
					c.sequence(t, m.name, []int{a, b, a}, v)
					t.State("part", m.name, c.names[a], c.names[b])
				}
			}
			t.Outcome("part " + m.name)
		}
		if m.real {
			g.Real("part/"+m.name, run)
		} else {
			g.Case("part/"+m.name, run)
		}
	}
}

// setCalls are the calls on a liability set and its proofs.
func setCalls(t *T, s shape, ops []setOp, a, b string) *calls {
	ppp := s.pp()
	ls, l, db := build(s, ops)
	db.Alias = true // reads hand out what is stored
	V, W := ls.Root()
	c := &calls{}
	_, pa, _, ok1 := ls.ProveLiability(a)
	c.hold("the first proof of "+a, &pa)
	_, pb, _, ok2 := ls.ProveLiability(b)
	if !ok1 || !ok2 {
		t.Fatalf("no proofs")
	}
	c.check(t, s.name+": proving "+b)
	c.hold("the first proof of "+b, &pb)
	bad := Clone(pa).(pol.LiabilityProof)
	x := bad.V[len(bad.V)-1].Copy()
	x.Add(C.GenG1)
	bad.V[len(bad.V)-1] = x
	bad.LiabilityProof.Sum++
	tot := ls.ProveTot()
	c.check(t, s.name+": proving the total")
	paths := map[string][]uint16{}
	for _, id := range []string{a, b} {
		paths[id] = s.id2path(id)
	}
	shared := func(id string) []uint16 {
		if p := paths[id]; p != nil {
			return p
		}
		return s.id2path(id)
	}
	type world struct {
		A, B, Bad pol.LiabilityProof
		Tot       pol.TotalProof
		V, W      *math.G1
		PP        *pol.PublicParams
		DB        map[string][]byte
		Paths     map[string][]uint16
	}
	w := &world{pa, pb, bad, tot, V, W, ppp, db.M, paths}
	c.world = w
	c.add("verifying the first proof", func() string {
		_, err := w.A.Verify(w.PP, a, w.V, w.W, shared)
		return verdictOf(err)
	})
	c.add("verifying the second proof", func() string {
		_, err := w.B.Verify(w.PP, b, w.V, w.W, shared)
		return verdictOf(err)
	})
	c.add("verifying a bad proof", func() string {
		_, err := w.Bad.Verify(w.PP, a, w.V, w.W, shared)
		return verdictOf(err)
	})
	c.add("proving the first liability", func() string {
		n, p, _, ok := ls.ProveLiability(a)
		c.hold("a proof of "+a, &p)
		_, err := p.Verify(w.PP, a, w.V, w.W, shared)
		return fmt.Sprint(n, ok, verdictOf(err))
	})
	c.add("proving the second liability", func() string {
		n, p, _, ok := ls.ProveLiability(b)
		c.hold("a proof of "+b, &p)
		_, err := p.Verify(w.PP, b, w.V, w.W, shared)
		return fmt.Sprint(n, ok, verdictOf(err))
	})
	c.add("proving the total", func() string {
		p := ls.ProveTot()
		c.hold("a total proof", &p)
		return fmt.Sprint(p.Sum, verdictOf(p.Verify(w.PP, w.V)))
	})
	c.add("verifying the total", func() string { return verdictOf(w.Tot.Verify(w.PP, w.V)) })
	c.add("reading the root", func() string {
		V, W := ls.Root()
		return fmt.Sprint(V.Equals(w.V), W == nil || W.Equals(w.W))
	})
	c.add("reading amounts", func() string {
		r := ""
		for _, id := range l.IDs() {
			n, ok := ls.Get(id)
			r += fmt.Sprint(id, n, ok, ";")
		}
		n, _, _, ok := ls.ProveLiability(s.ids()[len(s.ids())-1])
		return r + fmt.Sprint(n, ok)
	})
	return c
}

type partCall struct {
	name string
	real bool
	f    func() *calls
}

func spoilt(proof interface{}, k int) interface{} {
	p := Clone(proof)
	ls := Leaves(p)
	l := ls[k%len(ls)]
	_, vals := Tampered(l.V)
	l.V.Set(vals[0])
	return p
}

func partCalls(thorough bool) []partCall {
	var r []partCall
	add := func(name string, real bool, f func() *calls) { r = append(r, partCall{name, real, f}) }
	for _, n := range []int{1, 2, 4} {
		n := n
		add(fmt.Sprintf("ipa%d", n), n == 2, func() *calls {
			type world struct {
				PP    *bp.PP
				A, B  common.Vec
				Proof *bp.InnerProductProof
				Bad   []*bp.InnerProductProof
			}
			a, b := make0(n), make0(n)
			for i := range a {
				a[i], b[i] = big.NewInt(int64(3+i)), new(big.Int).Sub(Order, big.NewInt(int64(7*i+2)))
			}
			w := &world{PP: bpPP(n), A: zrs(a), B: zrs(b)}
			w.Proof = bp.NewInnerProdArgument(w.PP, w.A, w.B).Prove()
			for k := range Leaves(w.Proof) {
				w.Bad = append(w.Bad, spoilt(w.Proof, k).(*bp.InnerProductProof))
			}
			c := &calls{world: w}
			c.add("verifying", func() string { return verdictOf(w.Proof.Verify(w.PP)) })
			c.add("verifying bad proofs", func() string {
				s := ""
				for _, b := range w.Bad {
					s += verdictOf(b.Verify(w.PP))
				}
				return s
			})
			arg := bp.NewInnerProdArgument(w.PP, w.A, w.B)
			c.add("proving", func() string { return verdictOf(arg.Prove().Verify(w.PP)) })
			c.add("building an argument", func() string { return verdictOf(bp.NewInnerProdArgument(w.PP, w.A, w.B).Prove().Verify(w.PP)) })
			return c
		})
	}
	for _, n := range []int{2, 4} {
		n := n
		add(fmt.Sprintf("range%d", n), false, func() *calls {
			type world struct {
				PP    *bp.RangeProofPublicParams
				V     *math.G1
				Vec   common.Vec
				R     *math.Zr
				Proof *bp.RangeProof
				Bad   []*bp.RangeProof
			}
			v := make0(n)
			for i := range v {
				v[i] = big.NewInt(int64(5 + i))
			}
			w := &world{PP: rangePP(n), Vec: zrs(v), R: common.RandVec(1)[0]}
			w.V = rangeCommit(w.PP, v, w.R)
			w.Proof = bp.ProveRange(w.PP, w.V, w.Vec, w.R)
			for k := range Leaves(w.Proof) {
				if !env.Toy && k > 1 {
					break
				}
				w.Bad = append(w.Bad, spoilt(w.Proof, k).(*bp.RangeProof))
			}
			c := &calls{world: w}
			c.add("verifying", func() string { return verdictOf(bp.VerifyRange(w.PP, w.Proof, w.V)) })
			c.add("verifying bad proofs", func() string {
				s := ""
				for _, b := range w.Bad {
					s += verdictOf(bp.VerifyRange(w.PP, b, w.V))
				}
				return s
			})
			c.add("proving", func() string { return verdictOf(bp.VerifyRange(w.PP, bp.ProveRange(w.PP, w.V, w.Vec, w.R), w.V)) })
			return c
		})
	}
	for _, x := range [][2]int{{2, 0}, {4, 0}, {4, 2}, {4, 3}} {
		n, m := x[0], x[1]
		add(fmt.Sprintf("sum%dx%d", n, m), n == 4 && m == 2, func() *calls {
			type world struct {
				PP    *sum.PP
				V     common.G1v
				Vs    []common.Vec
				R     common.Vec
				Proof *sum.Proof
				Bad   []*sum.Proof
				Arg   *sum.Argument
			}
			w := &world{PP: sumPP(n)}
			cnt := m
			if m == 0 {
				cnt = 1
			}
			w.R = common.RandVec(cnt)
			for j := 0; j < cnt; j++ {
				v := sumVec(n, 0, j)
				w.Vs = append(w.Vs, zrs(v))
				c := CommitRef(w.PP.Gs, v)
				c.Add(w.PP.F.Mul(w.R[j]))
				w.V = append(w.V, c)
			}
			w.Arg = &sum.Argument{V: w.V[0]}
			prove := func() *sum.Proof {
				if m == 0 {
					_, p := sum.NewArgument(w.PP, w.V[0], w.Vs[0], w.R[0])
					return p
				}
				return sum.NewAggregatedArgument(w.PP, w.V, w.Vs, w.R)
			}
			verify := func(p *sum.Proof) string {
				if m == 0 {
					return verdictOf(p.Verify(w.PP, w.Arg))
				}
				return verdictOf(p.VerifyAggregated(w.PP, w.V))
			}
			w.Proof = prove()
			for k := range Leaves(w.Proof) {
				w.Bad = append(w.Bad, spoilt(w.Proof, k).(*sum.Proof))
			}
			c := &calls{world: w}
			c.add("verifying", func() string { return verify(w.Proof) })
			c.add("verifying bad proofs", func() string {
				s := ""
				for _, b := range w.Bad {
					s += verify(b)
				}
				return s
			})
			c.add("proving", func() string { return verify(prove()) })
			c.add("committing", func() string {
				return fmt.Sprint(sum.NewCommitment(w.PP, w.Vs[0], w.R[0]).V.Equals(w.V[0]))
			})
			return c
		})
	}
	for _, x := range [][2]int{{4, 2}, {5, 4}} {
		n, m := x[0], x[1]
		add(fmt.Sprintf("poe%dx%d", n, m), m == 2, func() *calls {
			type world struct {
				E      *poe.Equalities
				Vs, Ws []common.Vec
				Proof  *poe.AggregatedProof
				Bad    []*poe.AggregatedProof
			}
			w := &world{E: &poe.Equalities{RO: poe.RO, PP: poePP(n, m)}}
			e := w.E
			for q := 0; q < m; q++ {
				i, j := q%(n-1), (q+1)%(n-1)
				a, b := entries(n, i, j, q+1, big.NewInt(int64(17*q+3)))
				e.I, e.J = append(e.I, i), append(e.J, j)
				e.V, e.W = append(e.V, CommitRef(e.PP.PP.G1s, a)), append(e.W, CommitRef(e.PP.PP.G1s, b))
				w.Vs, w.Ws = append(w.Vs, zrs(a)), append(w.Ws, zrs(b))
			}
			w.Proof = e.Prove(w.Vs, w.Ws)
			for k := range Leaves(w.Proof) {
				w.Bad = append(w.Bad, spoilt(w.Proof, k).(*poe.AggregatedProof))
			}
			c := &calls{world: w}
			c.add("verifying", func() string { return verdictOf(w.E.Verify(w.Proof)) })
			c.add("verifying bad proofs", func() string {
				s := ""
				for _, b := range w.Bad {
					s += verdictOf(w.E.Verify(b))
				}
				return s
			})
			c.add("proving", func() string { return verdictOf(w.E.Verify(w.E.Prove(w.Vs, w.Ws))) })
			return c
		})
	}
	for _, x := range [][3]int{{4, 0, 2}, {4, 1, 1}, {5, 3, 0}} {
		n, i, j := x[0], x[1], x[2]
		add(fmt.Sprintf("equality%d.%d.%d", n, i, j), n == 5, func() *calls {
			type world struct {
				E     *poe.Equality
				A, B  common.Vec
				Proof *poe.Proof
				Bad   []*poe.Proof
			}
			a, b := entries(n, i, j, 1, big.NewInt(42))
			P := poePP(n, 2)
			w := &world{E: &poe.Equality{RO: poe.RO, PP: P, V: CommitRef(P.PP.G1s, a), W: CommitRef(P.PP.G1s, b), I: i, J: j}, A: zrs(a), B: zrs(b)}
			w.Proof = w.E.Prove(w.A, w.B)
			for k := range Leaves(w.Proof) {
				w.Bad = append(w.Bad, spoilt(w.Proof, k).(*poe.Proof))
			}
			c := &calls{world: w}
			c.add("verifying", func() string { return verdictOf(w.E.Verify(w.Proof)) })
			c.add("verifying bad proofs", func() string {
				s := ""
				for _, b := range w.Bad {
					s += verdictOf(w.E.Verify(b))
				}
				return s
			})
			c.add("proving", func() string { return verdictOf(w.E.Verify(w.E.Prove(w.A, w.B))) })
			return c
		})
	}
	for _, n := range []int{3, 5} {
		n := n
		add(fmt.Sprintf("openings%d", n), n == 3, func() *calls {
			type world struct {
				PP     *pp.PP
				M      []common.Vec
				Com    common.G1v
				Vals   common.Vec
				Proofs common.G1v
				Wrong  *math.Zr
				Idx    []int
				Aggr   *math.G1
				Σ      *math.Zr
			}
			w := &world{PP: ppFor(n), Wrong: Zr(-3)}
			var coeff common.Vec
			for j := 0; j < 3; j++ {
				v := make0(n)
				for i := range v {
					v[i] = big.NewInt(int64(7*i + j + 1))
				}
				m := zrs(v)
				w.M = append(w.M, m)
				w.Com = append(w.Com, pp.Commit(w.PP, m))
				w.Idx = append(w.Idx, j%(n-1))
				x, π := pp.Open(w.PP, j%(n-1), m)
				w.Vals = append(w.Vals, x)
				w.Proofs = append(w.Proofs, π)
			}
			for j := range w.M {
				coeff = append(coeff, pp.RO(w.PP, w.Com, j))
			}
			w.Σ = w.Vals.InnerProd(coeff)
			w.Aggr = pp.Aggregate(w.PP, w.Com, w.Proofs, pp.RO)
			c := &calls{world: w}
			c.add("committing", func() string { return fmt.Sprint(pp.Commit(w.PP, w.M[0]).Equals(w.Com[0])) })
			c.add("opening", func() string {
				s := ""
				for j := range w.M {
					x, π := pp.Open(w.PP, w.Idx[j], w.M[j])
					s += verdictOf(pp.Verify(w.PP, x, π, w.Com[j], w.Idx[j]))
				}
				return s
			})
			c.add("verifying", func() string {
				s := ""
				for j := range w.M {
					s += verdictOf(pp.Verify(w.PP, w.Vals[j], w.Proofs[j], w.Com[j], w.Idx[j]))
				}
				return s
			})
			c.add("verifying a wrong value", func() string { return verdictOf(pp.Verify(w.PP, w.Wrong, w.Proofs[0], w.Com[0], w.Idx[0])) })
			c.add("aggregating", func() string {
				return fmt.Sprint(pp.Aggregate(w.PP, w.Com, w.Proofs, pp.RO).Equals(w.Aggr))
			})
			c.add("verifying the aggregate", func() string { return verdictOf(pp.VerifyAggregation(w.PP, w.Idx, w.Com, w.Aggr, w.Σ, pp.RO)) })
			c.add("verifying a wrong aggregate", func() string { return verdictOf(pp.VerifyAggregation(w.PP, w.Idx, w.Com, w.Aggr, w.Wrong, pp.RO)) })
			c.add("updating a copy", func() string {
				x := w.Com[0].Copy()
				pp.Update(w.PP, x, w.M[0], w.Wrong, 1)
				return fmt.Sprint(x.Equals(w.Com[0]))
			})
			return c
		})
	}
	return r
}
