package checks

import (
	"fmt"
	"math/big"
	"strings"

	. "mc/eng"
	"mc/env"
	. "mc/lib"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pp"
	"pol/sum"

	math "github.com/IBM/mathlib"
)

const attackNote = "adaptive provers: for every subset of the messages (and of the claimed statement) up to a size, the messages are solved for under the challenges of the rest of the proof, and the result is presented to the verifier"

func init() {
	Register(&Check{
		ID: "C11", Level: "model_checking",
		Rule: "vectors over a small alphabet are proved and verified; then every wrong product, wrong commitment and altered message must be rejected. " + attackNote +
			". A state is distinct when length and vectors (or the attacked messages) differ",
		Bounds:      "all vectors over {0,1,2,r-1,2^63} for lengths 1 and 2 (thorough: 4 over {0,1,r-1}), a family of patterns for lengths 4, 8, 16 (thorough 32, 64); attacks on all subsets of up to 3 messages for lengths 1, 2, 4, 8 (thorough 4 messages, length 16); lengths 16-512 (thorough 4096) with errors at the ends and around every power of two",
		Assumptions: []string{"group elements are represented by discrete logarithms (validated against BN254 on the listed traces)"},
		Gen:         genC11,
	})
	Register(&Check{
		ID: "C13", Level: "model_checking",
		Rule: "commitments to vectors whose last entry is (or is not) the sum of the others are proved by the library's prover, alone and aggregated, and must be accepted (or rejected); errors are placed at every position, " +
			"offset each other across vectors, and are combined with wrong, missing, additional and permuted commitments. " + attackNote + ". A state is distinct when length, number, errors and attacked messages differ",
		Bounds: "lengths 2, 4, 8 (thorough 16); 1-4 vectors (thorough 6); errors +1, -1, 2^63, 2^64, -2^32 at every position and at every pair of positions of different vectors; attacks on all subsets of up to 3 messages; 8-520 vectors at once with errors offset against each other over every distance",
		Assumptions: []string{"the prover's own sanity check is not relied upon (a panic of the prover counts as refusal)",
			"group elements are represented by discrete logarithms (validated against BN254 on the listed traces)"},
		Gen: genC13,
	})
	Register(&Check{
		ID: "C14", Level: "model_checking",
		Rule: "equalities between entries of two committed vectors are proved for all index pairs, singly and in batches, and must be accepted; with unequal entries (the prover claiming either vector to hold the other's value), wrong indices, permuted or foreign commitments " +
			"and altered messages they must be rejected. " + attackNote + ". A state is distinct when size, indices, error pattern and attacked messages differ",
		Bounds: "single: sizes 3-6, all index pairs; batches of 2 and 4 (thorough 8) over all pairs of index patterns, errors at every position and cancelling errors at every pair of positions; attacks on all subsets of up to 3 messages; 8-256 equalities in one proof with offsetting errors",
		Assumptions: []string{"no honest prover opens the last entry (the blinding factor), so it is not an index",
			"group elements are represented by discrete logarithms (validated against BN254 on the listed traces)"},
		Gen: genC14,
	})
}

var bpPPs = map[int]*bp.PP{}

func bpPP(n int) *bp.PP {
	if bpPPs[n] == nil {
		bpPPs[n] = bp.NewPublicParams(n)
	}
	return bpPPs[n]
}

// must makes sure that a verifier returns.
func verdict(t *T, what string, f func() error) error {
	t.Eval()
	var err error
	if p, stack := Try(func() { err = f() }); p != nil {
		t.Fatalf("%s: the verifier crashed: %v\n%s", what, p, stack)
	}
	return err
}

// attack tries adaptive provers on a transcript; for is called in the worlds of
// the attack.
func attack(t *T, what string, a *Attack) {
	t.Eval()
	broken := a.Run()
	for i := 0; i < a.Tried; i++ {
		t.Step()
	}
	if broken != "" {
		t.Fatalf("%s: a false statement is accepted: the prover %s", what, broken)
	}
	if a.Tried == 0 {
		t.Outcome("attack: nothing to choose")
	}
	t.Outcome(fmt.Sprintf("attack: equations solvable=%v", a.Solved > 0))
	t.State("attack", what, a.Tried)
}

// named picks leaves by suffix.
func named(ls []Leaf, suffix ...string) (in, out []Leaf) {
	for _, l := range ls {
		hit := false
		for _, s := range suffix {
			hit = hit || strings.HasSuffix(l.Path, s)
		}
		if hit {
			in = append(in, l)
		} else {
			out = append(out, l)
		}
	}
	return
}

// mutateAll alters every component of a proof, one at a time.
func mutateAll(t *T, what string, proof interface{}, skip func(Leaf) bool, verify func() error) {
	ls := Leaves(proof)
	for _, l := range ls {
		if skip != nil && skip(l) {
			continue
		}
		names, vals := Tampered(l.V)
		orig := Clone(l.V.Interface())
		_ = orig
		keep := l.V.Interface()
		for k := range vals {
			l.V.Set(vals[k])
			t.Step()
			if verdict(t, what, verify) == nil {
				t.Fatalf("%s: accepted although %s was changed (%s)", what, l.Path, names[k])
			}
			t.State("mutate", what, l.Path, names[k])
			if !env.Toy && k > 0 {
				break
			}
		}
		l.V.Set(refl(keep))
	}
}

func genC11(g *G) {
	wideC11(g)
	alpha := []*big.Int{new(big.Int), bigOne, bigTwo, rMinus1, two63}
	small := []*big.Int{new(big.Int), bigOne, rMinus1}
	run := func(t *T, a, b []*big.Int) {
		n := len(a)
		P := bpPP(n)
		want := new(big.Int)
		for i := range a {
			want.Add(want, new(big.Int).Mul(a[i], b[i]))
		}
		av, bv := zrs(a), zrs(b)
		ipa := bp.NewInnerProdArgument(P, av, bv)
		proof := ipa.Prove()
		what := fmt.Sprintf("length %d, %v * %v", n, a, b)
		if !ZrEq(proof.C, ZrBig(want)) {
			t.Fatalf("%s: the proof claims %s", what, proof.C)
		}
		ref := CommitRef(append(append(common.G1v{}, P.G...), P.H...), append(append([]*big.Int{}, a...), b...))
		if !proof.P.Equals(ref) {
			t.Fatalf("%s: the proof is for another commitment", what)
		}
		t.Step()
		t.State("ipa", what)
		if err := verdict(t, what, func() error { return proof.Verify(P) }); err != nil {
			t.Fatalf("%s: rejected: %v", what, err)
		}
		t.Obs("accepted")
		for i := range a {
			if !ZrEq(av[i], ZrBig(a[i])) || !ZrEq(bv[i], ZrBig(b[i])) {
				t.Fatalf("%s: proving changed the vectors", what)
			}
		}
		mutateAll(t, what, proof, nil, func() error { return proof.Verify(P) })
		t.Obs("alterations rejected")
		// the commitment to another pair of vectors
		for i := 0; i < n; i++ {
			for _, gen := range []*math.G1{P.G[i], P.H[i], P.U} {
				keep := proof.P
				p := proof.P.Copy()
				p.Add(gen)
				proof.P = p
				if verdict(t, what, func() error { return proof.Verify(P) }) == nil {
					t.Fatalf("%s: accepted for another commitment", what)
				}
				proof.P = keep
				t.Cut()
			}
		}
	}
	pairs := func(n int, al []*big.Int) [][]*big.Int { return vectors(2*n, al) }
	emit := func(n int, vs [][]*big.Int, chunk int, real bool) {
		for lo := 0; lo < len(vs); lo += chunk {
			lo := lo
			f := func(t *T) {
				for i := lo; i < lo+chunk && i < len(vs); i++ {
					run(t, vs[i][:n], vs[i][n:])
				}
			}
			id := fmt.Sprintf("vectors/%d/%d/%d", n, len(vs), lo)
			if real && lo == 0 {
				g.Real(id, f)
			} else {
				g.Case(id, f)
			}
		}
	}
	emit(1, pairs(1, alpha), 25, true)
	emit(2, pairs(2, alpha), 25, true)
	pattern := func(n int) [][]*big.Int {
		var r [][]*big.Int
		for i := 0; i < 2*n; i++ {
			for _, v := range alpha[1:] {
				x := make0(2 * n)
				for j := range x {
					x[j] = big.NewInt(int64(j % 3))
				}
				x[i] = v
				r = append(r, x)
			}
		}
		r = append(r, make0(2*n))
		full := make0(2 * n)
		for i := range full {
			full[i] = rMinus1
		}
		return append(r, full)
	}
	emit(4, pattern(4), 6, true)
	emit(8, pattern(8), 4, false)
	if g.Thorough {
		emit(4, pairs(4, small), 20, false)
		emit(16, pattern(16), 2, false)
		emit(32, pattern(32), 1, false)
		emit(64, pattern(64)[:16], 1, false)
	} else {
		emit(4, pairs(2, small)[:0], 1, false)
		emit(16, pattern(16)[:8], 1, false)
	}
	// adaptive provers
	sizes := []int{1, 2, 4, 8}
	depth := 3
	if g.Thorough {
		sizes = append(sizes, 16)
		depth = 4
	}
	for _, n := range sizes {
		for v := 0; v < 3; v++ {
			for _, δ := range []*big.Int{nil, bigOne, two63} {
				n, v, δ := n, v, δ
				g.Case(fmt.Sprintf("attack/%d/%d/%v", n, v, δ), func(t *T) {
					env.SetWorlds(Worlds)
					P := bp.NewPublicParams(n)
					a, b := make0(n), make0(n)
					for i := range a {
						switch v {
						case 0:
							a[i], b[i] = big.NewInt(int64(3+i)), big.NewInt(int64(7*i+2))
						case 1:
							a[i], b[i] = Big(common.RandVec(1)[0]), Big(common.RandVec(1)[0])
						case 2:
							a[i], b[i] = new(big.Int), new(big.Int)
						}
					}
					proof := bp.NewInnerProdArgument(P, zrs(a), zrs(b)).Prove()
					att := &Attack{Verify: func() error { return proof.Verify(P) }, Max: depth,
						Bases: []*math.G1{P.U, P.G[0], P.H[n-1]}, Lie: []*math.G1{P.U}}
					att.Stmt, att.Free = named(Elems(Leaves(proof)), "P", "C")
					if err := att.Verify(); err != nil {
						t.Fatalf("length %d: rejected: %v", n, err)
					}
					if δ != nil {
						proof.C = ZrBig(new(big.Int).Add(Big(proof.C), δ))
						att.False, att.Stmt = true, nil
						if verdict(t, "wrong product", att.Verify) == nil {
							t.Fatalf("length %d: accepted a product that is off by %s", n, δ)
						}
					}
					attack(t, fmt.Sprintf("length %d, product off by %v", n, δ), att)
				})
			}
		}
	}
	for _, n := range sizes {
		n := n
		g.Case(fmt.Sprintf("bind/%d", n), func(t *T) { bindIPA(t, n) })
	}
	// vectors of different lengths cannot be proved
	g.Case("lengths", func(t *T) {
		for _, n := range []int{1, 2, 4} {
			for _, m := range []int{n - 1, n + 1, 2 * n} {
				t.Eval()
				P := bpPP(n)
				if p, _ := Try(func() {
					bp.NewInnerProdArgument(P, zrs(make0(n)), zrs(make0(m))).Prove()
				}); p == nil {
					t.Fatalf("vectors of lengths %d and %d were proved", n, m)
				}
				t.State("lengths", n, m)
			}
		}
		// a proof does not verify under parameters of another size
		for _, n := range []int{1, 2, 4, 8} {
			pr := bp.NewInnerProdArgument(bpPP(n), zrs(make0(n)), zrs(make0(n))).Prove()
			for _, m := range []int{1, 2, 4, 8, 16} {
				if m != n && verdict(t, "other size", func() error { return pr.Verify(bpPP(m)) }) == nil {
					t.Fatalf("a proof for length %d is accepted for length %d", n, m)
				}
			}
		}
	})
	// sizes without a digest of the second base (used by the range proof) and fresh parameters
	for _, n := range []int{2, 4} {
		n := n
		g.Case(fmt.Sprintf("params/%d", n), func(t *T) {
			P := bpPP(n)
			pr := bp.NewInnerProdArgument(P, zrs(make0(n)), zrs(vectors(n, small)[5%len(vectors(n, small))])).Prove()
			muts := []func(*bp.PP){
				func(q *bp.PP) { q.U = shiftG(q.U); q.RecomputeDigest() },
				func(q *bp.PP) { q.U = shiftG(q.U) },
				func(q *bp.PP) { q.G[0] = shiftG(q.G[0]); q.RecomputeDigest() },
				func(q *bp.PP) { q.G[n-1] = shiftG(q.G[n-1]); q.RecomputeDigest() },
				func(q *bp.PP) { q.H[0] = shiftG(q.H[0]); q.RecomputeDigest() },
				func(q *bp.PP) { q.H[n-1] = shiftG(q.H[n-1]); q.RecomputeDigest() },
				func(q *bp.PP) { q.G[0], q.G[1] = q.G[1], q.G[0]; q.RecomputeDigest() },
			}
			a := make0(n)
			for i := range a {
				a[i] = big.NewInt(int64(i + 2))
			}
			pr = bp.NewInnerProdArgument(P, zrs(a), zrs(a)).Prove()
			for i, f := range muts {
				q := &bp.PP{G: append(common.G1v{}, P.G...), H: append(common.G1v{}, P.H...), U: P.U.Copy(), Digest: append([]byte{}, P.Digest...)}
				if verdict(t, "copy of the parameters", func() error { return pr.Verify(q) }) != nil {
					t.Fatalf("rejected under equal parameters")
				}
				f(q)
				if verdict(t, "other parameters", func() error { return pr.Verify(q) }) == nil {
					t.Fatalf("length %d: accepted under other parameters (%d)", n, i)
				}
				t.State("params", n, i)
			}
		})
	}
}

func shiftG(g *math.G1) *math.G1 {
	r := g.Copy()
	r.Add(C.GenG1)
	return r
}

// ---------------------------------------------------------------- sums

var sumPPs = map[int]*sum.PP{}

func sumPP(n int) *sum.PP {
	if sumPPs[n] == nil {
		sumPPs[n] = sum.NewPublicParams(n)
	}
	return sumPPs[n]
}

func skipIPP(l Leaf) bool {
	return l.Parent == tyIPP && (strings.HasSuffix(l.Path, ".P") || strings.HasSuffix(l.Path, ".C"))
}

// sumVec is a vector of n entries with a correct sum.
func sumVec(n, variant, j int) []*big.Int {
	v := make0(n)
	s := new(big.Int)
	for i := 0; i < n-1; i++ {
		switch variant {
		case 0:
			v[i] = big.NewInt(int64(3 + i + 10*j))
		case 1: // zeros
		case 2:
			v[i] = new(big.Int).Sub(two63, big.NewInt(int64(1+i)))
		case 3: // entries that only sum up modulo the order
			v[i] = new(big.Int).Sub(Order, big.NewInt(int64(i+j)))
		}
		s.Add(s, v[i])
	}
	v[n-1] = s.Mod(s, Order)
	return v
}

func genC13(g *G) {
	related(g, "sum")
	wideC13(g)
	errs := []*big.Int{bigOne, rMinus1, two63, new(big.Int).Lsh(bigOne, 64), new(big.Int).Neg(new(big.Int).Lsh(bigOne, 32))}
	sizes := []int{2, 4, 8}
	maxM := 4
	if g.Thorough {
		sizes = append(sizes, 16)
		maxM = 6
	}
	type errAt struct {
		vec, pos int
		δ        *big.Int
	}
	commitTo := func(P *sum.PP, v []*big.Int, r *math.Zr) *math.G1 {
		c := CommitRef(P.Gs, v)
		c.Add(P.F.Mul(r))
		return c
	}
	// prove the vectors; the commitments and the witness carry the errors
	prove := func(t *T, n, m, variant int, es []errAt, single bool, lieWitness bool) (*sum.Proof, common.G1v) {
		P := sumPP(n)
		var vs []common.Vec
		var V common.G1v
		r := common.RandVec(m)
		for j := 0; j < m; j++ {
			v := sumVec(n, variant, j)
			w := append([]*big.Int{}, v...)
			for _, e := range es {
				if e.vec == j {
					w[e.pos] = new(big.Int).Mod(new(big.Int).Add(w[e.pos], e.δ), Order)
				}
			}
			V = append(V, commitTo(P, w, r[j]))
			if lieWitness {
				vs = append(vs, zrs(v))
			} else {
				vs = append(vs, zrs(w))
			}
		}
		var proof *sum.Proof
		if p, _ := Try(func() {
			if single {
				_, proof = sum.NewArgument(P, V[0], vs[0], r[0])
			} else {
				proof = sum.NewAggregatedArgument(P, V, vs, r)
			}
		}); p != nil {
			return nil, nil
		}
		return proof, V
	}
	for _, n := range sizes {
		for m := 1; m <= maxM; m++ {
			for variant := 0; variant < 4; variant++ {
				for _, single := range []bool{false, true} {
					if single && m > 1 {
						continue
					}
					n, m, variant, single := n, m, variant, single
					P := func() *sum.PP { return sumPP(n) }
					ver := func(p *sum.Proof, V common.G1v) func() error {
						return func() error {
							if single {
								return p.Verify(P(), &sum.Argument{V: V[0]})
							}
							return p.VerifyAggregated(P(), V)
						}
					}
					name := fmt.Sprintf("%d/%d/%d/single=%v", n, m, variant, single)
					honest := func(t *T) {
						p, V := prove(t, n, m, variant, nil, single, false)
						if p == nil {
							t.Fatalf("%s: correct sums cannot be proved", name)
						}
						t.Step()
						t.State("sum", name)
						if err := verdict(t, name, ver(p, V)); err != nil {
							t.Fatalf("%s: correct sums are rejected: %v", name, err)
						}
						t.Obs("accepted")
						// other commitments
						bad := func(what string, V2 common.G1v) {
							if verdict(t, name, ver(p, V2)) == nil {
								t.Fatalf("%s: accepted for %s", name, what)
							}
							t.State("sum", name, what)
							t.Step()
						}
						for j := 0; j < m; j++ {
							for i := 0; i < n; i++ {
								V2 := append(common.G1v{}, V...)
								x := V[j].Copy()
								x.Add(P().Gs[i])
								V2[j] = x
								bad(fmt.Sprintf("a commitment %d with entry %d changed", j, i), V2)
							}
							V2 := append(common.G1v{}, V...)
							x := V[j].Copy()
							x.Add(P().F)
							V2[j] = x
							bad("another blinding factor", V2)
							t.Cut()
							for k := 0; k < j && !single; k++ {
								V2 := append(common.G1v{}, V...)
								V2[j], V2[k] = V2[k], V2[j]
								bad(fmt.Sprintf("commitments %d and %d swapped", j, k), V2)
								a, b := V[j].Copy(), V[k].Copy()
								a.Add(P().Gs[n-1])
								b.Sub(P().Gs[n-1])
								V2[j], V2[k] = a, b
								bad(fmt.Sprintf("offsetting errors in %d and %d", j, k), V2)
							}
							if !single {
								V3 := append(append(common.G1v{}, V[:j]...), V[j+1:]...)
								if len(V3) > 0 {
									bad(fmt.Sprintf("commitment %d left out", j), V3)
								}
								x := V[j].Copy()
								V4 := append(append(common.G1v{}, V...), x)
								bad("one more commitment", V4)
							}
						}
						mutateAll(t, name, p, skipIPP, ver(p, V))
					}
					if n == 4 && m == 2 && variant == 0 || n == 4 && single && variant == 2 {
						g.Real("honest/"+name, honest)
					} else {
						g.Case("honest/"+name, honest)
					}
					// errors
					wrong := func(t *T, es []errAt) {
						tot := map[int]*big.Int{}
						for _, e := range es {
							if tot[e.vec] == nil {
								tot[e.vec] = new(big.Int)
							}
							if e.pos == n-1 {
								tot[e.vec].Sub(tot[e.vec], e.δ)
							} else {
								tot[e.vec].Add(tot[e.vec], e.δ)
							}
						}
						isWrong := false
						for _, x := range tot {
							isWrong = isWrong || new(big.Int).Mod(x, Order).Sign() != 0
						}
						desc := fmt.Sprintf("%s, errors %v", name, es)
						for _, lie := range []bool{false, true} {
							p, V := prove(t, n, m, variant, es, single, lie)
							if p == nil {
								t.Outcome("the library refuses to prove")
								continue
							}
							t.Step()
							t.State("wrong", desc, lie)
							err := verdict(t, desc, ver(p, V))
							if isWrong && err == nil {
								t.Fatalf("%s: accepted (prover uses other numbers than it committed to: %v)", desc, lie)
							}
							if !isWrong && !lie && err != nil {
								t.Fatalf("%s: these errors keep every sum right, but it is rejected: %v", desc, err)
							}
							t.Obs("%v", err == nil)
							t.Cut()
						}
					}
					for j := 0; j < m; j++ {
						for i := 0; i < n; i++ {
							if n == 16 && i%5 != 0 {
								continue
							}
							for k, δ := range errs {
								if variant > 0 && k > 1 {
									continue
								}
								es := []errAt{{j, i, δ}}
								id := fmt.Sprintf("error/%s/%d.%d.%d", name, j, i, k)
								if n == 4 && m == 2 && variant == 0 && k == 0 && i > 1 {
									g.Real(id, func(t *T) { wrong(t, es) })
								} else {
									g.Case(id, func(t *T) { wrong(t, es) })
								}
							}
							if variant != 0 {
								continue
							}
							neg := new(big.Int).Neg(errs[0])
							for j2 := j; j2 < m; j2++ {
								for i2 := 0; i2 < n; i2++ {
									if (j2 == j && i2 <= i) || n == 16 {
										continue
									}
									es := []errAt{{j, i, errs[0]}, {j2, i2, neg}}
									es2 := []errAt{{j, i, errs[0]}, {j2, i2, errs[0]}}
									g.Case(fmt.Sprintf("errors/%s/%d.%d-%d.%d", name, j, i, j2, i2), func(t *T) { wrong(t, es); wrong(t, es2) })
								}
							}
						}
					}
				}
			}
		}
	}
	// adaptive provers
	for _, n := range []int{2, 4} {
		for m := 0; m <= 2; m++ { // 0: a single argument
			for _, e := range []int{-1, 0, n - 1} {
				for variant := 0; variant < 4; variant++ {
					n, m, e, variant, lie := n, m, e, variant%2, variant > 1
					if lie && e < 0 {
						continue
					}
					g.Case(fmt.Sprintf("attack/%d/%d/%d/%d/lie=%v", n, m, e, variant, lie), func(t *T) {
						env.SetWorlds(Worlds)
						P := sum.NewPublicParams(n)
						var vs []common.Vec
						var V common.G1v
						k := m
						if m == 0 {
							k = 1
						}
						r := common.RandVec(k)
						for j := 0; j < k; j++ {
							v := sumVec(n, variant, j)
							truth := append([]*big.Int{}, v...)
							if e >= 0 && j == k-1 {
								v[e] = new(big.Int).Add(v[e], bigOne)
							}
							if lie {
								vs = append(vs, zrs(truth))
							} else {
								vs = append(vs, zrs(v))
							}
							V = append(V, commitTo(P, v, r[j]))
						}
						var proof *sum.Proof
						att := &Attack{Max: 3, Bases: []*math.G1{P.Gs[0], P.Gs[n-1], P.F, P.U}, Lie: []*math.G1{P.Gs[0]}, False: e >= 0}
						if m == 0 {
							att.Prover = Recorded(func() { _, proof = sum.NewArgument(P, V[0], vs[0], r[0]) })
							att.Verify = func() error { return proof.Verify(P, &sum.Argument{V: V[0]}) }
						} else {
							att.Prover = Recorded(func() { proof = sum.NewAggregatedArgument(P, V, vs, r) })
							att.Verify = func() error { return proof.VerifyAggregated(P, V) }
						}
						att.Free = Elems(Leaves(proof))
						if e < 0 {
							att.Stmt = Elems(Leaves(&V))
						}
						if err := att.Verify(); (err == nil) != (e < 0) {
							t.Fatalf("length %d, error %d: verification says %v", n, e, err)
						}
						attack(t, fmt.Sprintf("length %d, %d vectors, variant %d, error %d", n, m, variant, e), att)
					})
				}
			}
		}
	}
	for _, n := range sizes {
		for m := 0; m <= maxM; m++ {
			n, m := n, m
			g.Case(fmt.Sprintf("bind/%d/%d", n, m), func(t *T) { bindSum(t, n, m) })
		}
	}
	// the commitment helper refuses wrong sums
	for _, n := range sizes {
		n := n
		g.Case(fmt.Sprintf("commit/%d", n), func(t *T) {
			P := sumPP(n)
			r := common.RandVec(1)[0]
			for variant := 0; variant < 3; variant++ {
				v := sumVec(n, variant, 1)
				a := sum.NewCommitment(P, zrs(v), r)
				if !a.V.Equals(commitTo(P, v, r)) {
					t.Fatalf("length %d: the commitment to %v is wrong", n, v)
				}
				for i := range v {
					w := append([]*big.Int{}, v...)
					w[i] = new(big.Int).Add(v[i], bigOne)
					t.Eval()
					if p, _ := Try(func() { sum.NewCommitment(P, zrs(w), r) }); p == nil {
						t.Fatalf("length %d: a vector whose last entry is not the sum was accepted for committing: %v", n, w)
					}
				}
				t.State("commit", n, variant)
			}
		})
	}
}

// ---------------------------------------------------------------- equalities

var poePPs = map[string]*poe.PP{}

func poePP(n, m int) *poe.PP {
	k := fmt.Sprintf("%d.%d", n, m)
	if poePPs[k] == nil {
		env.Seed(caseHash("poe" + k))
		poePPs[k] = poe.NewPublicParams(n, m)
	}
	return poePPs[k]
}

// entries are two vectors that agree at (i, j).
func entries(n, i, j, seed int, val *big.Int) (a, b []*big.Int) {
	a, b = make0(n), make0(n)
	for k := range a {
		a[k] = big.NewInt(int64(100*seed + 11*k + 5))
		b[k] = big.NewInt(int64(100*seed + 13*k + 7))
	}
	a[n-1], b[n-1] = Big(common.RandVec(1)[0]), Big(common.RandVec(1)[0])
	a[i], b[j] = new(big.Int).Set(val), new(big.Int).Set(val)
	return
}

func genC14(g *G) {
	related(g, "equalities")
	wideC14(g)
	vals := []*big.Int{new(big.Int), bigOne, new(big.Int).Sub(two63, bigOne), rMinus1}
	sizes := []int{3, 4, 5}
	if g.Thorough {
		sizes = append(sizes, 6, 9, 17)
	}
	errs := []*big.Int{bigOne, rMinus1, two63}
	for _, n := range sizes {
		for i := 0; i < n-1; i++ {
			for j := 0; j < n-1; j++ {
				n, i, j := n, i, j
				if n > 6 && (i*j)%3 != 0 {
					continue
				}
				run := func(t *T) {
					P := poePP(n, 2)
					for _, val := range vals {
						a, b := entries(n, i, j, 1, val)
						V, W := CommitRef(P.PP.G1s, a), CommitRef(P.PP.G1s, b)
						e := &poe.Equality{RO: poe.RO, PP: P, V: V, W: W, I: i, J: j}
						what := fmt.Sprintf("size %d, entries %d and %d equal to %s", n, i, j, val)
						p := e.Prove(zrs(a), zrs(b))
						t.Step()
						t.State("single", what)
						if err := verdict(t, what, func() error { return e.Verify(p) }); err != nil {
							t.Fatalf("%s: rejected: %v", what, err)
						}
						t.Obs("accepted")
						mutateAll(t, what, p, nil, func() error { return e.Verify(p) })
						t.Obs("alterations rejected")
						// another statement
						for i2 := 0; i2 < n-1; i2++ {
							for j2 := 0; j2 < n-1; j2++ {
								if i2 == i && j2 == j {
									continue
								}
								x := &poe.Equality{RO: poe.RO, PP: P, V: V, W: W, I: i2, J: j2}
								if verdict(t, what, func() error { return x.Verify(p) }) == nil {
									t.Fatalf("%s: accepted for indices %d and %d", what, i2, j2)
								}
							}
							t.Cut()
						}
						for k := 0; k < n; k++ {
							V2, W2 := V.Copy(), W.Copy()
							V2.Add(P.PP.G1s[k])
							W2.Add(P.PP.G1s[k])
							for _, x := range []*poe.Equality{{RO: poe.RO, PP: P, V: V2, W: W, I: i, J: j}, {RO: poe.RO, PP: P, V: V, W: W2, I: i, J: j}, {RO: poe.RO, PP: P, V: V2, W: W2, I: i, J: j}} {
								x := x
								if verdict(t, what, func() error { return x.Verify(p) }) == nil {
									t.Fatalf("%s: accepted for other commitments (entry %d)", what, k)
								}
							}
						}
						// unequal entries
						for _, δ := range errs {
							for side := 0; side < 2; side++ {
								a2, b2 := append([]*big.Int{}, a...), append([]*big.Int{}, b...)
								if side == 0 {
									a2[i] = new(big.Int).Mod(new(big.Int).Add(a[i], δ), Order)
								} else {
									b2[j] = new(big.Int).Mod(new(big.Int).Add(b[j], δ), Order)
								}
								x := &poe.Equality{RO: poe.RO, PP: P, V: CommitRef(P.PP.G1s, a2), W: CommitRef(P.PP.G1s, b2), I: i, J: j}
								// the true vectors, and either vector pretending to hold the other's value
								wits := [][2][]*big.Int{{a2, b2}, {a, b}}
								a3 := append([]*big.Int{}, a2...)
								a3[i] = b2[j]
								b3 := append([]*big.Int{}, b2...)
								b3[j] = a2[i]
								wits = append(wits, [2][]*big.Int{a3, b2}, [2][]*big.Int{a2, b3})
								for w, wit := range wits {
									var p *poe.Proof
									if pan, _ := Try(func() { p = x.Prove(zrs(wit[0]), zrs(wit[1])) }); pan != nil {
										t.Outcome("the library refuses to prove")
										continue
									}
									desc := fmt.Sprintf("size %d, entries %d and %d differ by %s (side %d, witness %d)", n, i, j, δ, side, w)
									t.State(desc, val)
									if verdict(t, desc, func() error { return x.Verify(p) }) == nil {
										t.Fatalf("%s: accepted", desc)
									}
								}
							}
						}
						t.Cut()
					}
				}
				id := fmt.Sprintf("single/%d/%d.%d", n, i, j)
				if n == 4 && i != j {
					g.Real(id, run)
				} else {
					g.Case(id, run)
				}
			}
		}
	}
	// batches
	ms := []int{2, 4}
	if g.Thorough {
		ms = append(ms, 8)
	}
	type idx struct{ I, J []int }
	for _, n := range []int{3, 5} {
		for _, m := range ms {
			var pats []idx
			mk := func(f func(k int) (int, int)) {
				var x idx
				for k := 0; k < m; k++ {
					i, j := f(k)
					x.I, x.J = append(x.I, i), append(x.J, j)
				}
				pats = append(pats, x)
			}
			for c := 0; c < n-1; c++ {
				c := c
				mk(func(k int) (int, int) { return c, n - 2 })                       // as in the tree
				mk(func(k int) (int, int) { return (k + c) % (n - 1), n - 2 })       // changing slots
				mk(func(k int) (int, int) { return (k * 2 % (n - 1)), c })           // changing slots
				mk(func(k int) (int, int) { return (c + k) % (n - 1), k % (n - 1) }) // both change
			}
			for pi, pat := range pats {
				n, m, pat, pi := n, m, pat, pi
				build := func(es map[int]*big.Int, side int, val *big.Int) (*poe.Equalities, [][]common.Vec) {
					P := poePP(n, m)
					e := &poe.Equalities{RO: poe.RO, PP: P, I: pat.I, J: pat.J}
					// witnesses: the committed vectors; either side pretending
					w := make([][]common.Vec, 6)
					for k := 0; k < m; k++ {
						a, b := entries(n, pat.I[k], pat.J[k], k+1, new(big.Int).Add(val, big.NewInt(int64(17*k))))
						a2, b2 := append([]*big.Int{}, a...), append([]*big.Int{}, b...)
						if δ := es[k]; δ != nil {
							if side == 0 {
								a2[pat.I[k]] = new(big.Int).Mod(new(big.Int).Add(a[pat.I[k]], δ), Order)
							} else {
								b2[pat.J[k]] = new(big.Int).Mod(new(big.Int).Add(b[pat.J[k]], δ), Order)
							}
						}
						e.V = append(e.V, CommitRef(P.PP.G1s, a2))
						e.W = append(e.W, CommitRef(P.PP.G1s, b2))
						w[0], w[1] = append(w[0], zrs(a2)), append(w[1], zrs(b2))
						a3 := append([]*big.Int{}, a2...)
						a3[pat.I[k]] = b2[pat.J[k]]
						b3 := append([]*big.Int{}, b2...)
						b3[pat.J[k]] = a2[pat.I[k]]
						w[2], w[3] = append(w[2], zrs(a3)), append(w[3], zrs(b2))
						w[4], w[5] = append(w[4], zrs(a2)), append(w[5], zrs(b3))
					}
					return e, w
				}
				name := fmt.Sprintf("%d/%d/%v.%v", n, m, pat.I, pat.J)
				honest := func(t *T) {
					for _, val := range []*big.Int{new(big.Int), big.NewInt(1 << 40), rMinus1} {
						e, w := build(nil, 0, val)
						p := e.Prove(w[0], w[1])
						t.Step()
						t.State("batch", name, val)
						if err := verdict(t, name, func() error { return e.Verify(p) }); err != nil {
							t.Fatalf("%s: equal entries are rejected: %v", name, err)
						}
						t.Obs("accepted")
						if val.Sign() != 0 && val.Cmp(rMinus1) != 0 {
							mutateAll(t, name, p, skipIPP, func() error { return e.Verify(p) })
						}
						t.Cut()
						bad := func(what string, f func(x *poe.Equalities)) {
							x := &poe.Equalities{RO: e.RO, PP: e.PP, V: append(common.G1v{}, e.V...), W: append(common.G1v{}, e.W...), I: append([]int{}, e.I...), J: append([]int{}, e.J...)}
							f(x)
							if verdict(t, name, func() error { return x.Verify(p) }) == nil {
								t.Fatalf("%s: accepted with %s", name, what)
							}
							t.State("batch", name, val, what)
						}
						for k := 0; k < m; k++ {
							k := k
							for o := 0; o < n-1; o++ {
								if o != e.I[k] {
									bad(fmt.Sprintf("index I[%d]=%d", k, o), func(x *poe.Equalities) { x.I[k] = o })
								}
								if o != e.J[k] {
									bad(fmt.Sprintf("index J[%d]=%d", k, o), func(x *poe.Equalities) { x.J[k] = o })
								}
							}
							for q := 0; q < n; q++ {
								bad(fmt.Sprintf("commitment V[%d] changed", k), func(x *poe.Equalities) { y := x.V[k].Copy(); y.Add(e.PP.PP.G1s[q]); x.V[k] = y })
								bad(fmt.Sprintf("commitment W[%d] changed", k), func(x *poe.Equalities) { y := x.W[k].Copy(); y.Add(e.PP.PP.G1s[q]); x.W[k] = y })
							}
							if !e.V[k].Equals(e.W[k]) {
								bad(fmt.Sprintf("V[%d] and W[%d] swapped", k, k), func(x *poe.Equalities) { x.V[k], x.W[k] = x.W[k], x.V[k] })
							}
							for l := 0; l < k; l++ {
								if !e.V[k].Equals(e.V[l]) {
									bad("V permuted", func(x *poe.Equalities) { x.V[k], x.V[l] = x.V[l], x.V[k] })
								}
								if !e.W[k].Equals(e.W[l]) {
									bad("W permuted", func(x *poe.Equalities) { x.W[k], x.W[l] = x.W[l], x.W[k] })
								}
							}
						}
					}
				}
				if pi == 1 && m == 2 && n == 3 {
					g.Real("batch/"+name, honest)
				} else {
					g.Case("batch/"+name, honest)
				}
				wrong := func(t *T, es map[int]*big.Int) {
					for side := 0; side < 2; side++ {
						e, w := build(es, side, big.NewInt(5))
						for wit := 0; wit < 3; wit++ {
							var p *poe.AggregatedProof
							desc := fmt.Sprintf("%s, differences %v (side %d, witness %d)", name, es, side, wit)
							if pan, _ := Try(func() { p = e.Prove(w[2*wit], w[2*wit+1]) }); pan != nil {
								t.Outcome("the library refuses to prove")
								continue
							}
							t.Step()
							t.State(desc)
							if verdict(t, desc, func() error { return e.Verify(p) }) == nil {
								t.Fatalf("%s: accepted", desc)
							}
							t.Obs("rejected")
							t.Cut()
						}
					}
				}
				for k := 0; k < m; k++ {
					for ei, δ := range errs {
						k, δ := k, δ
						id := fmt.Sprintf("differ/%s/%d.%d", name, k, ei)
						f := func(t *T) { wrong(t, map[int]*big.Int{k: δ}) }
						if pi == 1 && m == 2 && n == 3 && ei == 0 {
							g.Real(id, f)
						} else {
							g.Case(id, f)
						}
						for l := k + 1; l < m; l++ {
							l := l
							g.Case(fmt.Sprintf("differ/%s/%d-%d.%d", name, k, l, ei), func(t *T) {
								wrong(t, map[int]*big.Int{k: δ, l: new(big.Int).Neg(δ)})
								wrong(t, map[int]*big.Int{k: δ, l: δ})
							})
						}
					}
				}
			}
		}
	}
	for _, n := range []int{3, 5} {
		for _, m := range []int{1, 2, 4, 8} {
			n, m := n, m
			g.Case(fmt.Sprintf("bind/%d/%d", n, m), func(t *T) { bindPoE(t, n, m) })
		}
		for i := 0; i < n-1; i++ {
			n, i := n, i
			g.Case(fmt.Sprintf("bind-single/%d/%d", n, i), func(t *T) { bindEquality(t, n, i, n-2) })
		}
	}
	// adaptive provers
	for _, n := range []int{3, 4} {
		for m := 0; m <= 2; m++ { // 0: a single equality
			for _, ij := range [][2]int{{0, 0}, {0, 1}, {1, 0}} {
				for e := -1; e < 2; e++ {
					n, m, ij, e := n, m, ij, e
					g.Case(fmt.Sprintf("attack/%d/%d/%v/%d", n, m, ij, e), func(t *T) {
						env.SetWorlds(Worlds)
						k := m
						if m == 0 {
							k = 1
						}
						P := worldPoE(n, k)
						x := &poe.Equalities{RO: poe.RO, PP: P}
						var vs, ws []common.Vec
						for q := 0; q < k; q++ {
							i, j := ij[0], ij[1]
							if q > 0 {
								i, j = j, i
							}
							a, b := entries(n, i, j, q+1, big.NewInt(int64(40+q)))
							a2, b2 := append([]*big.Int{}, a...), append([]*big.Int{}, b...)
							if q == k-1 {
								if e == 0 {
									a2[i] = new(big.Int).Add(a2[i], bigOne)
								} else if e == 1 {
									b2[j] = new(big.Int).Add(b2[j], bigOne)
								}
							}
							x.I, x.J = append(x.I, i), append(x.J, j)
							x.V = append(x.V, CommitRef(P.PP.G1s, a2))
							x.W = append(x.W, CommitRef(P.PP.G1s, b2))
							vs, ws = append(vs, zrs(a)), append(ws, zrs(b))
						}
						depth := 2
						if g.Thorough || n == 3 && m < 2 && e != 1 {
							depth = 3
						}
						att := &Attack{Max: depth, False: e >= 0, Bases: append(append(common.G1v{}, P.PP.G1s...), P.G[0]), Also: 1}
						what := fmt.Sprintf("size %d, %d equalities, indices %v, error %d", n, m, ij, e)
						if m == 0 {
							s := &poe.Equality{RO: poe.RO, PP: P, V: x.V[0], W: x.W[0], I: x.I[0], J: x.J[0]}
							var p *poe.Proof
							att.Prover = Recorded(func() { p = s.Prove(vs[0], ws[0]) })
							att.Verify = func() error { return s.Verify(p) }
							att.Free = Elems(Leaves(p))
							if e < 0 {
								att.Stmt, att.Lie = Elems(Leaves(s))[:0], nil
								for _, l := range Elems(Leaves(s)) {
									if l.Path == ".V" {
										att.Stmt, att.Lie = append(att.Stmt, l), []*math.G1{P.PP.G1s[x.I[0]]}
									}
								}
							}
						} else {
							var p *poe.AggregatedProof
							att.Prover = Recorded(func() { p = x.Prove(vs, ws) })
							att.Verify = func() error { return x.Verify(p) }
							att.Free = Elems(Leaves(p))
							if e < 0 {
								att.Stmt, att.Lie = Elems(Leaves(&x.W)), []*math.G1{P.PP.G1s[x.J[0]]}
								if x.J[0] != x.J[k-1] {
									att.Stmt = att.Stmt[:1]
								}
							}
						}
						if err := att.Verify(); (err == nil) != (e < 0) {
							t.Fatalf("%s: verification says %v", what, err)
						}
						attack(t, what, att)
					})
				}
			}
		}
	}
}

// worldPoE are parameters whose secret is independent in every world.
func worldPoE(n, m int) *poe.PP {
	α := make([]*big.Int, Worlds)
	for w := range α {
		α[w] = Big(common.RandVec(1)[0])
	}
	pow := func(e int64) []*big.Int {
		r := make([]*big.Int, Worlds)
		for w := range r {
			r[w] = new(big.Int).Exp(α[w], big.NewInt(e), Order)
		}
		return r
	}
	q := &pp.PP{N: n}
	for i := 1; i <= 2*n; i++ {
		if i == n+1 {
			q.G1s = append(q.G1s, C.GenG1.Copy())
		} else {
			q.G1s = append(q.G1s, env.MakeG1(pow(int64(i))))
		}
		if i <= n {
			q.G2s = append(q.G2s, env.MakeG2(pow(int64(i))))
		}
	}
	q.Gt = env.MakeGt(pow(int64(n + 1)))
	q.SetupDigest()
	P := &poe.PP{PP: q, G: common.RandGenVec(m, "POE G"), H: common.RandGenVec(m, "POE H"), F: common.RandGenVec(1, "POE F")[0]}
	P.SetupDigest()
	return P
}
