package checks

import (
	"fmt"
	"math/big"
	"reflect"

	. "mc/eng"
	"mc/env"
	. "mc/lib"

	"pol/common"
	"pol/pp"

	math "github.com/IBM/mathlib"
)

func init() {
	Register(&Check{
		ID: "C10", Level: "model_checking",
		Rule: "vectors over a small alphabet are committed and opened at every index; a claim must be accepted if and only if it is the committed value, for every claim of a family, every altered opening, " +
			"every opening combined with every published power, every other index and commitment; aggregates likewise for every tuple of indices; in-place updates are compared with fresh commitments after every step. " +
			"A state is distinct when size, vectors and indices differ",
		Bounds: "sizes 2-4 with all vectors over {0,1,2,r-1,2^63}, size 5 over {0,1,r-1}, sizes 8 and 16 with one-hot vectors; aggregates of 1-3 (thorough 4) commitments over all index tuples; all update sequences of length 3 (thorough 4) over 3 indices x 3 values; aggregates of up to 600 openings with values offset against each other at every distance",
		Assumptions: []string{"the coefficients of an aggregate do not depend on the opened values (the caller hashes those, see C06); the property is about the aggregate value",
			"group elements are represented by discrete logarithms (validated against BN254 on the listed traces)"},
		Gen: genC10,
	})
}

var pps = map[string]*pp.PP{}

func ppFor(n int) *pp.PP {
	k := fmt.Sprint(n)
	if pps[k] == nil {
		env.Seed(caseHash("pp" + k))
		pps[k] = pp.NewPublicParams(n)
	}
	return pps[k]
}

var (
	bigOne  = big.NewInt(1)
	bigTwo  = big.NewInt(2)
	rMinus1 = new(big.Int).Sub(Order, bigOne)
	two63   = new(big.Int).Lsh(bigOne, 63)
)

func zrs(v []*big.Int) common.Vec {
	r := make(common.Vec, len(v))
	for i := range v {
		r[i] = ZrBig(v[i])
	}
	return r
}

// vectors lists all vectors of a length over an alphabet.
func vectors(n int, alpha []*big.Int) [][]*big.Int {
	r := [][]*big.Int{nil}
	for i := 0; i < n; i++ {
		var x [][]*big.Int
		for _, p := range r {
			for _, a := range alpha {
				x = append(x, append(p[:len(p):len(p)], a))
			}
		}
		r = x
	}
	return r
}

func oneHots(n int, vals []*big.Int) [][]*big.Int {
	var r [][]*big.Int
	for i := 0; i < n; i++ {
		for _, v := range vals {
			x := make([]*big.Int, n)
			for j := range x {
				x[j] = new(big.Int)
			}
			x[i] = v
			r = append(r, x)
		}
	}
	return r
}

// claimsFor lists wrong claims for a value.
func claimsFor(m *big.Int) []*math.Zr {
	var r []*math.Zr
	seen := map[string]bool{new(big.Int).Mod(m, Order).String(): true}
	for _, x := range []*big.Int{new(big.Int), bigOne, bigTwo, rMinus1, two63, new(big.Int).Add(m, bigOne), new(big.Int).Sub(m, bigOne), new(big.Int).Neg(m), new(big.Int).Add(m, two63),
		new(big.Int).Lsh(m, 1), new(big.Int).Add(m, new(big.Int).Lsh(bigOne, 64)), new(big.Int).Add(m, new(big.Int).Lsh(bigOne, 128)), new(big.Int).Xor(m, new(big.Int).Lsh(bigOne, 253))} {
		y := new(big.Int).Mod(x, Order)
		if !seen[y.String()] {
			seen[y.String()] = true
			r = append(r, ZrBig(y))
		}
	}
	// scalars that are not reduced
	for _, n := range []int64{-1, -2, -1 << 62} {
		if !seen[new(big.Int).Mod(big.NewInt(n), Order).String()] {
			r = append(r, Zr(n))
		}
	}
	if m.IsInt64() && m.Sign() > 0 {
		r = append(r, Zr(-m.Int64())) // the negated value, unreduced
	}
	return r
}

func genC10(g *G) {
	alpha := []*big.Int{new(big.Int), bigOne, bigTwo, rMinus1, two63}
	type set struct {
		n  int
		vs [][]*big.Int
	}
	sets := []set{{2, vectors(2, alpha)}, {3, vectors(3, alpha)}, {4, vectors(4, alpha)}, {5, vectors(5, []*big.Int{new(big.Int), bigOne, rMinus1})},
		{8, oneHots(8, alpha)}, {16, oneHots(16, alpha)}}
	if g.Thorough {
		sets = append(sets, set{5, vectors(5, alpha)}, set{6, vectors(6, []*big.Int{new(big.Int), bigOne, rMinus1})}, set{9, oneHots(9, alpha)}, set{66, oneHots(66, alpha[:2])})
	}
	for _, s := range sets {
		for k := 0; k < len(s.vs); k += 25 {
			s, k := s, k
			run := func(t *T) {
				for i := k; i < k+25 && i < len(s.vs); i++ {
					if i > k {
						t.Cut()
					}
					openings(t, s.n, s.vs[i])
				}
			}
			id := fmt.Sprintf("open/%d/%d/%d", s.n, len(s.vs), k)
			if k == 0 && s.n < 6 {
				g.Real(id, run)
			} else {
				g.Case(id, run)
			}
		}
	}
	// aggregates
	max := 3
	if g.Thorough {
		max = 4
	}
	for _, n := range []int{2, 3, 5} {
		for k := 1; k <= max; k++ {
			idx := [][]int{nil}
			for j := 0; j < k; j++ {
				var x [][]int
				for _, p := range idx {
					for i := 0; i < n; i++ {
						x = append(x, append(p[:len(p):len(p)], i))
					}
				}
				idx = x
			}
			for v := 0; v < 3; v++ {
				for lo := 0; lo < len(idx); lo += 40 {
					n, k, v, lo, idx := n, k, v, lo, idx
					run := func(t *T) {
						for i := lo; i < lo+40 && i < len(idx); i++ {
							if i > lo+1 {
								t.Cut()
							}
							aggregate(t, n, v, idx[i])
						}
					}
					id := fmt.Sprintf("aggregate/%d/%d/%d/%d", n, k, v, lo)
					if lo == 0 && v == 1 && n == 3 {
						g.Real(id, run)
					} else {
						g.Case(id, run)
					}
				}
			}
		}
	}
	// updates in place
	depth := 3
	if g.Thorough {
		depth = 4
	}
	for _, n := range []int{2, 3, 5} {
		for _, start := range [][]*big.Int{make([]*big.Int, n), func() []*big.Int {
			r := make([]*big.Int, n)
			for i := range r {
				r[i] = big.NewInt(int64(5 + i))
			}
			return r
		}()} {
			for i := range start {
				if start[i] == nil {
					start[i] = new(big.Int)
				}
			}
			vals := []*big.Int{new(big.Int), rMinus1, big.NewInt(9)}
			at := []int{0, n - 1}
			if n > 2 {
				at = append(at, 1)
			}
			nOps := len(at) * len(vals)
			total := 1
			for d := 0; d < depth; d++ {
				total *= nOps
			}
			for lo := 0; lo < total; lo += 100 {
				n, start, lo := n, start, lo
				g.Case(fmt.Sprintf("update/%d/%s/%d", n, start[0], lo), func(t *T) {
					for c := lo; c < lo+100 && c < total; c++ {
						updates(t, n, start, c, depth, at, vals)
					}
				})
			}
		}
	}
	// misuse
	for _, n := range []int{2, 3, 5} {
		n := n
		for _, k := range []int{127, 129, 255, 256, 257, 300, 513} {
			k := k
			g.Case(fmt.Sprintf("many/%d/%d", n, k), func(t *T) { many(t, n, k) })
		}
		g.Case(fmt.Sprintf("misuse/%d", n), func(t *T) {
			P := ppFor(n)
			m := zrs(oneHots(n, []*big.Int{bigTwo})[0])
			for _, i := range []int{-1, n, n + 1, 2 * n, 1 << 20} {
				t.Eval()
				if p, _ := Try(func() { pp.Open(P, i, m) }); p == nil {
					t.Fatalf("size %d: index %d was opened", n, i)
				}
			}
			for _, k := range []int{0, 1, n - 1, n + 1, 2 * n} {
				if k == n {
					continue
				}
				t.Eval()
				if p, _ := Try(func() { pp.Commit(P, make(common.Vec, k)) }); p == nil {
					t.Fatalf("size %d: a vector of %d entries was committed", n, k)
				}
			}
			t.State("misuse", n)
		})
	}
}

func openings(t *T, n int, v []*big.Int) {
	P := ppFor(n)
	m := zrs(v)
	before := fmt.Sprint(v)
	cm := pp.Commit(P, m)
	t.Step()
	if !cm.Equals(CommitRef(P.G1s, v)) {
		t.Fatalf("size %d: the commitment to %v is not the product of powers", n, v)
	}
	for i := 0; i < n; i++ {
		mi, π := pp.Open(P, i, m)
		t.Eval()
		if !ZrEq(mi, m[i]) {
			t.Fatalf("size %d: opening index %d of %v yields %s", n, i, v, mi)
		}
		if err := pp.Verify(P, mi, π, cm, i); err != nil {
			t.Fatalf("size %d: the opening of index %d of %v is rejected: %v", n, i, v, err)
		}
		t.Obs("%d accepted", i)
		t.State("open", n, before, i)
		rej := 0
		for _, c := range claimsFor(v[i]) {
			t.Eval()
			var err error
			if p, stack := Try(func() { err = pp.Verify(P, c, π, cm, i) }); p != nil {
				t.Fatalf("size %d: checking a claim crashed: %v\n%s", n, p, stack)
			}
			if err == nil {
				t.Fatalf("size %d: index %d of %v is accepted to be %s", n, i, v, c)
			}
			rej++
			if !env.Toy && rej > 4 {
				break
			}
		}
		if !env.Toy {
			continue
		}
		// other indices, commitments and openings
		for j := 0; j < n; j++ {
			if j == i {
				continue
			}
			mj, πj := pp.Open(P, j, m)
			t.Eval()
			if !πj.Equals(π) && pp.Verify(P, mi, πj, cm, i) == nil {
				t.Fatalf("size %d: %v: the opening of index %d is accepted for index %d", n, v, j, i)
			}
			if !ZrEq(mi, mj) && pp.Verify(P, mj, π, cm, i) == nil {
				t.Fatalf("size %d: %v: the value of index %d is accepted for index %d", n, v, j, i)
			}
			if !(ZrEq(mi, mj) && πj.Equals(π)) && pp.Verify(P, mj, πj, cm, i) == nil {
				t.Fatalf("size %d: %v: the opening and value of index %d is accepted for index %d", n, v, j, i)
			}
		}
		for _, d := range []*math.G1{C.GenG1, P.G1s[0], P.G1s[n-1], P.G1s[i]} {
			for sgn := 0; sgn < 2; sgn++ {
				c2 := cm.Copy()
				if sgn == 0 {
					c2.Add(d)
				} else {
					c2.Sub(d)
				}
				t.Eval()
				if pp.Verify(P, mi, π, c2, i) == nil {
					t.Fatalf("size %d: the opening of index %d of %v is accepted for another commitment", n, i, v)
				}
			}
		}
		// openings combined with every published power
		for k := range P.G1s {
			for _, δ := range []int64{1, -1, 5} {
				for _, claim := range []*math.Zr{mi, ZrBig(new(big.Int).Add(v[i], big.NewInt(δ))), ZrBig(new(big.Int).Sub(v[i], big.NewInt(δ)))} {
					π2 := π.Copy()
					π2.Add(P.G1s[k].Mul(ZrBig(big.NewInt(δ))))
					t.Eval()
					if pp.Verify(P, claim, π2, cm, i) == nil {
						t.Fatalf("size %d: index %d of %v is accepted to be %s with an opening shifted by the published power %d", n, i, v, claim, k)
					}
				}
			}
		}
	}
	for i := range v {
		if Big(m[i]).Cmp(new(big.Int).Mod(v[i], Order)) != 0 {
			t.Fatalf("size %d: committing and opening changed entry %d of %v", n, i, v)
		}
	}
}

func aggregate(t *T, n, variant int, idx []int) {
	P := ppFor(n)
	k := len(idx)
	var cs common.G1v
	var πs []*math.G1
	var vals []*big.Int
	for j := 0; j < k; j++ {
		v := make([]*big.Int, n)
		for i := range v {
			switch variant {
			case 0: // equal vectors
				v[i] = big.NewInt(int64(1 + i))
			case 1:
				v[i] = big.NewInt(int64(10*j + i + 3))
			case 2: // zeros beside the opened entry, and large entries
				v[i] = new(big.Int)
				if i == idx[j] {
					v[i] = new(big.Int).Sub(Order, big.NewInt(int64(j+1)))
				}
			}
		}
		m := zrs(v)
		cs = append(cs, pp.Commit(P, m))
		_, π := pp.Open(P, idx[j], m)
		πs = append(πs, π)
		vals = append(vals, v[idx[j]])
	}
	π := pp.Aggregate(P, cs, πs, pp.RO)
	coef := make([]*big.Int, k)
	Σ := new(big.Int)
	for j := range coef {
		coef[j] = Big(pp.RO(P, cs, j))
		Σ.Add(Σ, new(big.Int).Mul(coef[j], vals[j]))
	}
	check := func(indices []int, cs common.G1v, π *math.G1, Σ *big.Int) error {
		t.Eval()
		var err error
		if p, stack := Try(func() { err = pp.VerifyAggregation(P, indices, cs, π, ZrBig(Σ), pp.RO) }); p != nil {
			t.Fatalf("size %d: checking an aggregate crashed: %v\n%s", n, p, stack)
		}
		return err
	}
	t.Step()
	t.State("agg", n, variant, fmt.Sprint(idx))
	if err := check(idx, cs, π, Σ); err != nil {
		t.Fatalf("size %d, indices %v, variant %d: the aggregate is rejected: %v", n, idx, variant, err)
	}
	// unreduced sums are the same claim; negative unreduced ones are another
	if err := pp.VerifyAggregation(P, idx, cs, π, ZrBig(Σ).Plus(C.GroupOrder), pp.RO); err != nil {
		t.Outcome("unreduced sum rejected")
	}
	neg := Zr(0)
	neg = C.ModSub(Zr(0), ZrBig(Σ), C.GroupOrder)
	if new(big.Int).Mod(Σ, Order).Sign() != 0 {
		if pp.VerifyAggregation(P, idx, cs, π, neg, pp.RO) == nil {
			t.Fatalf("size %d, indices %v, variant %d: the negated aggregate value is accepted", n, idx, variant)
		}
	}
	t.Obs("%v accepted", idx)
	bad := func(what string, err error) {
		if err == nil {
			t.Fatalf("size %d, indices %v, variant %d: an aggregate with %s is accepted", n, idx, variant, what)
		}
	}
	for _, d := range []int64{1, -1, 7} {
		bad("a wrong value", check(idx, cs, π, new(big.Int).Add(Σ, big.NewInt(d))))
	}
	if !env.Toy {
		return
	}
	for j := range coef {
		bad("a wrong entry", check(idx, cs, π, new(big.Int).Add(Σ, coef[j])))
		for i := range coef {
			if i != j && coef[i].Cmp(coef[j]) != 0 {
				// one entry up and another down
				x := new(big.Int).Add(Σ, coef[j])
				bad("two offsetting wrong entries", check(idx, cs, π, x.Sub(x, coef[i])))
			}
			if i != j && coef[i].Cmp(coef[j]) == 0 {
				t.Fatalf("size %d: commitments %d and %d of an aggregate of %d have the same coefficient", n, i, j, k)
			}
		}
		for o := 0; o < n; o++ {
			if o == idx[j] {
				continue
			}
			id2 := append([]int{}, idx...)
			id2[j] = o
			bad(fmt.Sprintf("index %d instead of %d", o, idx[j]), check(id2, cs, π, Σ))
		}
		c2 := append(common.G1v{}, cs...)
		x := cs[j].Copy()
		x.Add(P.G1s[idx[j]])
		c2[j] = x
		bad("another commitment", check(idx, c2, π, Σ))
		if j > 0 && !cs[j].Equals(cs[j-1]) {
			c2 := append(common.G1v{}, cs...)
			c2[j], c2[j-1] = c2[j-1], c2[j]
			bad("commitments swapped", check(idx, c2, π, Σ))
		}
	}
	for q := range P.G1s {
		π2 := π.Copy()
		π2.Add(P.G1s[q])
		bad("a shifted proof", check(idx, cs, π2, Σ))
		for _, j := range []int{0, k - 1} {
			bad("a shifted proof and value", check(idx, cs, π2, new(big.Int).Sub(Σ, coef[j])))
			bad("a shifted proof and value", check(idx, cs, π2, new(big.Int).Sub(Σ, bigOne)))
		}
	}
	// openings of the other values: one commitment opened at another index
	if plain := common.G1v(πs).Sum(); !plain.Equals(π) {
		bad("proofs summed without coefficients", check(idx, cs, plain, Σ))
	}
	if p, _ := Try(func() { pp.Aggregate(P, cs, πs[:k-1], pp.RO) }); p == nil {
		t.Fatalf("%d proofs were aggregated for %d commitments", k-1, k)
	}
	for i := range coef {
		if coef[i].Sign() == 0 {
			t.Fatalf("coefficient %d is zero", i)
		}
	}
}

// many aggregates more openings than a byte can count: no two of them may be
// weighted alike, or their values could be offset against each other.
func many(t *T, n, k int) {
	P := ppFor(n)
	var cs common.G1v
	var πs []*math.G1
	var idx []int
	var vals []*big.Int
	for j := 0; j < k; j++ {
		v := make([]*big.Int, n)
		for i := range v {
			v[i] = big.NewInt(int64(3*j + i + 1))
		}
		m := zrs(v)
		i := j % n
		cs = append(cs, pp.Commit(P, m))
		_, π := pp.Open(P, i, m)
		πs, idx, vals = append(πs, π), append(idx, i), append(vals, v[i])
	}
	π := pp.Aggregate(P, cs, πs, pp.RO)
	coef := make([]*big.Int, k)
	Σ := new(big.Int)
	at := map[string]int{}
	verify := func(x *big.Int) error {
		t.Eval()
		return pp.VerifyAggregation(P, idx, cs, π, ZrBig(x), pp.RO)
	}
	for j := range coef {
		coef[j] = Big(pp.RO(P, cs, j))
		Σ.Add(Σ, new(big.Int).Mul(coef[j], vals[j]))
		if coef[j].Sign() == 0 {
			t.Fatalf("coefficient %d of %d is zero", j, k)
		}
	}
	if err := verify(Σ); err != nil {
		t.Fatalf("an aggregate of %d openings is rejected: %v", k, err)
	}
	for j := range coef {
		t.Eval()
		if i, ok := at[coef[j].String()]; ok {
			// the claim that entry i is one more and entry j one less
			x := new(big.Int).Add(Σ, coef[i])
			if verify(x.Sub(x, coef[j])) == nil {
				t.Fatalf("of an aggregate of %d, entries %d and %d are weighted alike: claiming one more and one less is accepted", k, i, j)
			}
		}
		at[coef[j].String()] = j
	}
	for _, j := range []int{0, 1, k / 2, k - 1} {
		if verify(new(big.Int).Add(Σ, coef[j])) == nil {
			t.Fatalf("of an aggregate of %d, a wrong entry %d is accepted", k, j)
		}
		for _, d := range []int{1, 2, 128, 255, 256, 257, 512} {
			i := j + d
			if i >= k {
				continue
			}
			x := new(big.Int).Add(Σ, coef[i])
			if verify(x.Sub(x, coef[j])) == nil {
				t.Fatalf("of an aggregate of %d, wrong entries %d and %d are accepted", k, i, j)
			}
		}
	}
	for _, d := range []int{1, 128, 255, 256, 257, 512} {
		for _, j := range []int{0, k / 2} {
			if j+d >= k || n == 1 {
				continue
			}
			// swapped commitments, indices and values
			c2 := append(common.G1v{}, cs...)
			c2[j], c2[j+d] = c2[j+d], c2[j]
			t.Eval()
			if pp.VerifyAggregation(P, idx, c2, π, ZrBig(Σ), pp.RO) == nil {
				t.Fatalf("of an aggregate of %d, commitments %d and %d swapped are accepted", k, j, j+d)
			}
		}
	}
	t.Step()
	t.State("many", n, k)
	t.Outcome("aggregates of many")
}

func updates(t *T, n int, start []*big.Int, code, depth int, at []int, vals []*big.Int) {
	P := ppFor(n)
	cur := append([]*big.Int{}, start...)
	cm := pp.Commit(P, zrs(cur))
	name := fmt.Sprint(start)
	for d := 0; d < depth; d++ {
		op := code % (len(at) * len(vals))
		code /= len(at) * len(vals)
		i, v := at[op%len(at)], vals[op/len(at)]
		m := zrs(cur)
		x := ZrBig(v)
		pp.Update(P, cm, m, x, i)
		t.Step()
		t.Eval()
		for k := range m {
			if k != i && Big(m[k]).Cmp(cur[k]) != 0 {
				t.Fatalf("updating entry %d changed entry %d of the caller's vector", i, k)
			}
		}
		if Big(x).Cmp(v) != 0 {
			t.Fatalf("updating changed the caller's value")
		}
		cur = append([]*big.Int{}, cur...)
		cur[i] = v
		name += fmt.Sprintf(" %d:=%s", i, v)
		now := zrs(cur)
		if !cm.Equals(pp.Commit(P, now)) || !cm.Equals(CommitRef(P.G1s, cur)) {
			t.Fatalf("size %d: after %s the updated commitment differs from a fresh one", n, name)
		}
		t.State("update", n, name)
		mi, π := pp.Open(P, i, now)
		if err := pp.Verify(P, mi, π, cm, i); err != nil {
			t.Fatalf("size %d: after %s the updated entry does not open: %v", n, name, err)
		}
		if old := start[i]; old.Cmp(v) != 0 && pp.Verify(P, ZrBig(old), π, cm, i) == nil {
			t.Fatalf("size %d: after %s the old entry still opens", n, name)
		}
		if !pp.Commit(P, zrs(make0(n))).IsInfinity() {
			t.Fatalf("size %d: after %s the commitment to zeros is not the identity any more", n, name)
		}
	}
}

func make0(n int) []*big.Int {
	r := make([]*big.Int, n)
	for i := range r {
		r[i] = new(big.Int)
	}
	return r
}

func refl(x interface{}) reflect.Value { return reflect.ValueOf(x) }
