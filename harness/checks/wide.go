package checks

import (
	"fmt"
	"math/big"

	. "mc/eng"
	. "mc/lib"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/sum"

	math "github.com/IBM/mathlib"
)

// Large arguments: as many vectors and entries as the trees of the supported
// fanouts need (up to 162 layers, up to 2^14 slots), where counters and
// batches wrap around.

// spots are the positions below n that matter: the ends, and around powers of two.
func spots(n int, dense bool) []int {
	seen := map[int]bool{}
	var r []int
	add := func(i int) {
		if i >= 0 && i < n && !seen[i] {
			seen[i] = true
			r = append(r, i)
		}
	}
	for i := 0; i < n && dense; i++ {
		add(i)
	}
	add(0)
	for p := 1; p <= n; p *= 2 {
		add(p - 1)
		add(p)
		add(n - p)
	}
	add(n / 3)
	return r
}

// gaps are distances at which positions could be confused.
var gaps = []int{1, 2, 3, 4, 8, 16, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512}

func wideC11(g *G) {
	sizes := []int{16, 32, 64, 128, 256, 512}
	if g.Thorough {
		sizes = append(sizes, 1024, 2048, 4096)
	}
	for _, n := range sizes {
		n := n
		g.Case(fmt.Sprintf("wide/%d", n), func(t *T) {
			P := bp.NewPublicParams(n)
			a, b := make0(n), make0(n)
			want := new(big.Int)
			for i := range a {
				a[i].Mod(new(big.Int).Mul(big.NewInt(int64(i+3)), rMinus1), Order)
				if i%5 == 1 {
					a[i].SetInt64(0)
				}
				b[i].SetInt64(int64(7*i + 2))
				want.Add(want, new(big.Int).Mul(a[i], b[i]))
			}
			proof := bp.NewInnerProdArgument(P, zrs(a), zrs(b)).Prove()
			t.Step()
			if !ZrEq(proof.C, ZrBig(want)) {
				t.Fatalf("length %d: the proof claims another product", n)
			}
			if err := verdict(t, "honest", func() error { return proof.Verify(P) }); err != nil {
				t.Fatalf("length %d: rejected: %v", n, err)
			}
			keep := proof.P
			for _, i := range spots(n, n <= 64) {
				for k, gen := range []*math.G1{P.G[i], P.H[i]} {
					x := keep.Copy()
					x.Add(gen)
					proof.P = x
					if verdict(t, "other", func() error { return proof.Verify(P) }) == nil {
						t.Fatalf("length %d: accepted for a commitment that differs at %d.%d", n, k, i)
					}
				}
				// generators exchanged
				if j := n - 1 - i; j != i {
					q := *P
					q.G = append(common.G1v{}, P.G...)
					q.G[i], q.G[j] = q.G[j], q.G[i]
					proof.P = keep
					if verdict(t, "other", func() error { return proof.Verify(&q) }) == nil && a[i].Cmp(a[j]) != 0 {
						t.Fatalf("length %d: accepted with generators %d and %d exchanged", n, i, j)
					}
				}
				t.State("wide", n, i)
				t.Cut()
			}
			proof.P = keep
			for i, lr := range proof.LRs {
				proof.LRs[i] = shiftG(lr)
				if verdict(t, "other", func() error { return proof.Verify(P) }) == nil {
					t.Fatalf("length %d: accepted with message %d changed", n, i)
				}
				proof.LRs[i] = lr
			}
			proof.C = ZrBig(new(big.Int).Add(want, bigOne))
			if verdict(t, "other", func() error { return proof.Verify(P) }) == nil {
				t.Fatalf("length %d: accepted for another product", n)
			}
			t.Outcome("long vectors")
		})
	}
}

func wideC13(g *G) {
	ms := []int{8, 16, 32, 63, 64, 65, 100, 127, 128, 129, 162, 255, 256, 257, 300, 520}
	for _, m := range ms {
		n, m := 4, m
		g.Case(fmt.Sprintf("wide/%d/%d", n, m), func(t *T) {
			P := sumPP(n)
			mk := func(es map[int]int64) (*sum.Proof, common.G1v) {
				var vs []common.Vec
				var V common.G1v
				r := common.RandVec(m)
				for j := 0; j < m; j++ {
					v := sumVec(n, 0, j)
					v[0] = new(big.Int).Mod(new(big.Int).Add(v[0], big.NewInt(es[j])), Order)
					vs = append(vs, zrs(v))
					V = append(V, commitSum(P, v, r[j]))
				}
				var p *sum.Proof
				if pan, _ := Try(func() { p = sum.NewAggregatedArgument(P, V, vs, r) }); pan != nil {
					return nil, nil
				}
				t.Step()
				return p, V
			}
			p, V := mk(nil)
			if p == nil {
				t.Fatalf("%d vectors with correct sums cannot be proved", m)
			}
			if err := verdict(t, "honest", func() error { return p.VerifyAggregated(P, V) }); err != nil {
				t.Fatalf("%d vectors with correct sums are rejected: %v", m, err)
			}
			wrong := func(what string, es map[int]int64) {
				p, V := mk(es)
				t.State("wide", m, what)
				if p != nil && verdict(t, what, func() error { return p.VerifyAggregated(P, V) }) == nil {
					t.Fatalf("%d vectors, %s: accepted", m, what)
				}
				t.Cut()
			}
			for _, j := range spots(m, false) {
				wrong(fmt.Sprintf("error in %d", j), map[int]int64{j: 1})
			}
			for _, d := range gaps {
				for _, j := range []int{0, 1, m/2 - d/2, m - 1 - d} {
					if j >= 0 && j+d < m {
						wrong(fmt.Sprintf("offsetting errors in %d and %d", j, j+d), map[int]int64{j: 1, j + d: -1})
						wrong(fmt.Sprintf("errors in %d and %d", j, j+d), map[int]int64{j: 1, j + d: 1})
						if V[j].Equals(V[j+d]) {
							continue
						}
						V2 := append(common.G1v{}, V...)
						V2[j], V2[j+d] = V2[j+d], V2[j]
						if verdict(t, "swap", func() error { return p.VerifyAggregated(P, V2) }) == nil {
							t.Fatalf("%d vectors: accepted with %d and %d exchanged", m, j, j+d)
						}
					}
				}
			}
			if verdict(t, "fewer", func() error { return p.VerifyAggregated(P, V[:m-1]) }) == nil {
				t.Fatalf("%d vectors: accepted with the last one left out", m)
			}
			t.Outcome("many vectors")
		})
	}
	sizes := []int{32, 64, 128, 256, 512}
	if g.Thorough {
		sizes = append(sizes, 1024, 2048)
	}
	for _, n := range sizes {
		n := n
		g.Case(fmt.Sprintf("wide/%d/1", n), func(t *T) {
			P := sum.NewPublicParams(n)
			v := sumVec(n, 0, 0)
			mk := func(es map[int]int64) (*sum.Proof, *math.G1) {
				w := append([]*big.Int{}, v...)
				for i, e := range es {
					w[i] = new(big.Int).Mod(new(big.Int).Add(w[i], big.NewInt(e)), Order)
				}
				r := common.RandVec(1)[0]
				V := commitSum(P, w, r)
				var p *sum.Proof
				if pan, _ := Try(func() { _, p = sum.NewArgument(P, V, zrs(w), r) }); pan != nil {
					return nil, V
				}
				t.Step()
				return p, V
			}
			p, V := mk(nil)
			if p == nil || verdict(t, "honest", func() error { return p.Verify(P, &sum.Argument{V: V}) }) != nil {
				t.Fatalf("length %d: a correct sum is not accepted", n)
			}
			for _, i := range spots(n, n < 40) {
				for _, es := range []map[int]int64{{i: 1}, {i: -5}, {i: 1, (i + n/2) % (n - 1): 1}} {
					if _, last := es[n-1]; last && len(es) > 1 {
						continue
					}
					p, V := mk(es)
					t.State("wide", n, i)
					if p != nil && verdict(t, "wrong", func() error { return p.Verify(P, &sum.Argument{V: V}) }) == nil {
						t.Fatalf("length %d: a wrong sum is accepted (%v)", n, es)
					}
				}
				x := V.Copy()
				x.Add(P.Gs[i])
				if verdict(t, "other", func() error { return p.Verify(P, &sum.Argument{V: x}) }) == nil {
					t.Fatalf("length %d: accepted for a commitment with entry %d changed", n, i)
				}
				if i < n-1 { // an error that another one makes up for keeps the sum right
					p, V := mk(map[int]int64{i: 3, n - 1: 3})
					if p == nil || verdict(t, "right", func() error { return p.Verify(P, &sum.Argument{V: V}) }) != nil {
						t.Fatalf("length %d: a correct sum is not accepted (entry %d)", n, i)
					}
				}
				t.Cut()
			}
			t.Outcome("long vectors")
		})
	}
}

func wideC14(g *G) {
	for _, m := range []int{8, 16, 32, 64, 128, 256} {
		for pat := 0; pat < 2; pat++ {
			n, m, pat := 4, m, pat
			g.Case(fmt.Sprintf("wide/%d/%d", m, pat), func(t *T) {
				P := poe.NewPublicParams(n, m)
				mk := func(va, vb map[int]int64) (*poe.Equalities, *poe.AggregatedProof) {
					e := &poe.Equalities{RO: poe.RO, PP: P}
					var vs, ws []common.Vec
					for k := 0; k < m; k++ {
						i, j := k%2, 2
						if pat == 1 {
							i, j = (k/3)%3, k%3
						}
						a, b := entries(n, i, j, k+1, big.NewInt(100))
						a[i], b[j] = big.NewInt(100+va[k]), big.NewInt(100+vb[k])
						e.I, e.J = append(e.I, i), append(e.J, j)
						e.V, e.W = append(e.V, CommitRef(P.PP.G1s, a)), append(e.W, CommitRef(P.PP.G1s, b))
						vs, ws = append(vs, zrs(a)), append(ws, zrs(b))
					}
					var p *poe.AggregatedProof
					if pan, _ := Try(func() { p = e.Prove(vs, ws) }); pan != nil {
						return e, nil
					}
					t.Step()
					return e, p
				}
				e, p := mk(nil, nil)
				if p == nil || verdict(t, "honest", func() error { return e.Verify(p) }) != nil {
					t.Fatalf("%d equalities are not accepted", m)
				}
				wrong := func(what string, va, vb map[int]int64) {
					e, p := mk(va, vb)
					t.State("wide", m, what)
					if p != nil && verdict(t, what, func() error { return e.Verify(p) }) == nil {
						t.Fatalf("%d equalities, %s: accepted", m, what)
					}
					t.Cut()
				}
				for _, k := range spots(m, false) {
					wrong(fmt.Sprintf("%d differs", k), map[int]int64{k: 1}, nil)
					wrong(fmt.Sprintf("%d differs the other way", k), nil, map[int]int64{k: 1})
				}
				for _, d := range gaps {
					for _, k := range []int{0, m - 1 - d} {
						if k < 0 || k+d >= m || k == 0 && d == m-1 && m > 8 {
							continue
						}
						what := fmt.Sprintf("%d and %d differ by the same", k, k+d)
						wrong(what+", crosswise", map[int]int64{k + d: 1}, map[int]int64{k: 1})
						wrong(what+", oppositely", map[int]int64{k: 1, k + d: -1}, nil)
						wrong(what, nil, map[int]int64{k: 1, k + d: -1})
						x := *e
						x.V = append(common.G1v{}, e.V...)
						x.V[k], x.V[k+d] = x.V[k+d], x.V[k]
						if verdict(t, "swap", func() error { return x.Verify(p) }) == nil {
							t.Fatalf("%d equalities: accepted with V[%d] and V[%d] exchanged", m, k, k+d)
						}
					}
				}
				t.Outcome("many equalities")
			})
		}
	}
	sizes := []int{33, 65, 130, 258}
	if g.Thorough {
		sizes = append(sizes, 513, 1025)
	}
	for _, n := range sizes {
		n := n
		g.Case(fmt.Sprintf("wide-vectors/%d", n), func(t *T) {
			P := poe.NewPublicParams(n, 1)
			sp := spots(n-1, false)
			for x, i := range sp {
				j := sp[(x*3+1)%len(sp)]
				for δ := int64(0); δ < 2; δ++ {
					a, b := entries(n, i, j, x, big.NewInt(55))
					if i == j && δ == 0 {
						a, b = entries(n, i, i, x, big.NewInt(55))
					}
					b[j] = new(big.Int).Add(b[j], big.NewInt(δ))
					V, W := CommitRef(P.PP.G1s, a), CommitRef(P.PP.G1s, b)
					one := &poe.Equality{RO: poe.RO, PP: P, V: V, W: W, I: i, J: j}
					many := &poe.Equalities{RO: poe.RO, PP: P, V: common.G1v{V}, W: common.G1v{W}, I: []int{i}, J: []int{j}}
					var errs [2]error
					if pan, _ := Try(func() {
						p := one.Prove(zrs(a), zrs(b))
						errs[0] = verdict(t, "single", func() error { return one.Verify(p) })
						q := many.Prove([]common.Vec{zrs(a)}, []common.Vec{zrs(b)})
						errs[1] = verdict(t, "batch", func() error { return many.Verify(q) })
					}); pan != nil && δ == 0 {
						t.Fatalf("size %d: entries %d and %d cannot be proved equal: %v", n, i, j, pan)
					} else if pan != nil {
						continue
					}
					t.Step()
					t.State("wide", n, i, j, δ)
					for k, err := range errs {
						if (err == nil) != (δ == 0) {
							t.Fatalf("size %d: entries %d and %d differ by %d, verification %d says %v", n, i, j, δ, k, err)
						}
					}
					t.Cut()
				}
			}
			t.Outcome("long vectors")
		})
	}
}

func wideC12(g *G) {
	sizes := []int{16, 32, 64}
	if g.Thorough {
		sizes = append(sizes, 128, 256)
	}
	for _, n := range sizes {
		n := n
		parts := 4
		for part := 0; part < parts; part++ {
			part := part
			g.Case(fmt.Sprintf("wide/%d/%d", n, part), func(t *T) {
				P := rangePP(n)
				v := make0(n)
				for i := range v {
					v[i].SetUint64(uint64(i*i) << uint(i%50))
				}
				v[part*(n-1)/(parts-1)] = new(big.Int).Sub(two63, bigOne)
				r := common.RandVec(1)[0]
				V := rangeCommit(P, v, r)
				p := bp.ProveRange(P, V, zrs(v), r)
				t.Step()
				if err := verdict(t, "honest", func() error { return bp.VerifyRange(P, p, V) }); err != nil {
					t.Fatalf("length %d: rejected: %v", n, err)
				}
				t.Cut()
				sp := spots(n, false)
				for x, i := range sp {
					if x%parts != part {
						continue
					}
					W := V.Copy()
					W.Add(P.Gs[i])
					if verdict(t, "other", func() error { return bp.VerifyRange(P, p, W) }) == nil {
						t.Fatalf("length %d: accepted for a commitment with entry %d changed", n, i)
					}
					for _, e := range []*big.Int{rMinus1, two63} {
						w := append([]*big.Int{}, v...)
						w[i] = e
						W := rangeCommit(P, w, r)
						var q *bp.RangeProof
						if pan, _ := Try(func() { q = bp.ProveRange(P, W, zrs(w), r) }); pan != nil {
							continue
						}
						if verdict(t, "outside", func() error { return bp.VerifyRange(P, q, W) }) == nil {
							t.Fatalf("length %d: entry %d may be %s", n, i, e)
						}
					}
					t.State("wide", n, i)
					t.Cut()
				}
				t.Outcome("long vectors")
			})
		}
	}
}

func commitSum(P *sum.PP, v []*big.Int, r *math.Zr) *math.G1 {
	V := CommitRef(P.Gs, v)
	V.Add(P.F.Mul(r))
	return V
}
