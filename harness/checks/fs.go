package checks

import (
	"fmt"
	"math/big"
	"math/bits"
	"strings"

	. "mc/eng"
	"mc/env"
	. "mc/lib"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pp"
	"pol/sum"

	math "github.com/IBM/mathlib"
)

func init() {
	Register(&Check{
		ID: "C19", Level: "model_checking",
		Rule: "a verifier is run to its end (comparisons of group elements are made to succeed) for an honest proof, and again after changing one message or part of the statement; " +
			"the challenges that survive the change are counted and compared with the number of challenges that precede that message in the protocol. A state is distinct when protocol, size and message differ",
		Bounds: "inner product (lengths 1-32), iterated reduction and range proofs (2, 4, 8 entries), sum arguments (2-8 entries, 1-4 vectors), equality proofs (single, and batches of 2-8), aggregated openings (1-4 commitments): every message, every element of the statement, the parameters that a challenge is documented to cover",
		Assumptions: []string{"a challenge is recognised by the scalar that is made from bytes",
			"the protocols' order of messages is that of the paper"},
		Gen: genC19,
	})
}

// bind checks that challenges depend on what precedes them: want says how
// many challenges must change with a message (negative: not a message).
func bind(t *T, what string, verify func() error, leaves []Leaf, total int, want func(path string) int) {
	if !env.Toy {
		return
	}
	base, err := Challenges(verify)
	if err != nil {
		t.Fatalf("%s: the verifier stopped: %v", what, err)
	}
	type res struct {
		l    Leaf
		name string
		kept map[string]bool
	}
	var rs []res
	for _, l := range leaves {
		if want(l.Path) < 0 {
			continue
		}
		names, vals := Tampered(l.V)
		keep := l.V.Interface()
		for k := range vals {
			if k > 1 && names[k] != "negated" {
				continue
			}
			t.Eval()
			t.Step()
			l.V.Set(vals[k])
			ch, err := Challenges(verify)
			l.V.Set(refl(keep))
			if err != nil {
				t.Outcome("the verifier stopped early")
				continue
			}
			m := map[string]bool{}
			for _, c := range ch {
				m[c] = true
			}
			rs = append(rs, res{l, names[k], m})
			t.State("bind", what, l.Path, names[k])
		}
	}
	// scalars that never change are not challenges
	distinct := map[string]bool{}
	for _, c := range base {
		for _, r := range rs {
			if !r.kept[c] {
				distinct[c] = true
				break
			}
		}
	}
	if len(distinct) < total {
		t.Fatalf("%s: there are only %d different challenges that depend on the proof, of %d", what, len(distinct), total)
	}
	for c := range distinct {
		if len(c) < 20 {
			t.Fatalf("%s: a challenge has only %d bytes", what, len(c))
		}
	}
	for _, r := range rs {
		changed := 0
		for c := range distinct {
			if !r.kept[c] {
				changed++
			}
		}
		if n := want(r.l.Path); changed < n {
			t.Fatalf("%s: after changing %s (%s) only %d challenges change, instead of %d", what, r.l.Path, r.name, changed, n)
		}
	}
}

func lg(n int) int { return bits.Len(uint(n)) - 1 }

// index reads the last index in a path: ".LRs[3]" is 3.
func index(path string) int {
	i, n := strings.LastIndex(path, "["), 0
	if i < 0 {
		return -1
	}
	fmt.Sscanf(path[i:], "[%d]", &n)
	return n
}

// ipaNeed is what an inner product proof of n entries needs below prefix.
func ipaNeed(path, prefix string, n int) int {
	if strings.HasPrefix(path, prefix+".LRs[") {
		return lg(n) - index(path)/2
	}
	return -1
}

func bindIPA(t *T, n int) {
	P := bpPP(n)
	a, b := make0(n), make0(n)
	for i := range a {
		a[i], b[i] = big.NewInt(int64(3+i)), big.NewInt(int64(7*i+2))
	}
	proof := bp.NewInnerProdArgument(P, zrs(a), zrs(b)).Prove()
	k := lg(n)
	bind(t, fmt.Sprintf("inner product of length %d", n), func() error { return proof.Verify(P) }, Elems(Leaves(proof)), 1+k, func(p string) int {
		if p == ".P" || p == ".C" {
			return 1 + k
		}
		return ipaNeed(p, "", n)
	})
}

func bindRange(t *T, n int) {
	P := rangePP(n)
	v := make0(n)
	for i := range v {
		v[i] = big.NewInt(int64(5 + i))
	}
	r := common.RandVec(1)[0]
	V := rangeCommit(P, v, r)
	proof := bp.ProveRange(P, V, zrs(v), r)
	l, k := lg(n), lg(n*64)
	total := 1 + l + 2 + 1 + 1 + k
	type st struct {
		Proof *bp.RangeProof
		V     *math.G1
	}
	s := &st{proof, V}
	bind(t, fmt.Sprintf("range proof of length %d", n), func() error { return bp.VerifyRange(P, s.Proof, s.V) }, Elems(Leaves(s)), total, func(p string) int {
		switch {
		case p == ".V", p == ".Proof.W", p == ".Proof.Q":
			return total - (l - 1) // rounds after the first are tied to it by the messages
		case p == ".Proof.γ":
			return 1 + 1 + k
		case strings.HasPrefix(p, ".Proof.Δ["):
			var i, j int
			fmt.Sscanf(p, ".Proof.Δ[%d][%d]", &i, &j)
			if j == 2 {
				i++
			}
			if i >= l {
				return 0
			}
			return 1 + 1 + k
		case p == ".Proof.R":
			return 2 + 1 + 1 + k
		case p == ".Proof.C1", p == ".Proof.C2":
			return 1 + 1 + k
		case p == ".Proof.ρ", p == ".Proof.c":
			return 1 + k
		}
		return ipaNeed(p, ".Proof.Π", n*64)
	})
}

func bindSum(t *T, n, m int) {
	P := sumPP(n)
	k := lg(n)
	type st struct {
		Proof *sum.Proof
		V     common.G1v
	}
	s := &st{}
	var vs []common.Vec
	cnt := m
	if m == 0 {
		cnt = 1
	}
	r := common.RandVec(cnt)
	for j := 0; j < cnt; j++ {
		v := sumVec(n, 0, j)
		vs = append(vs, zrs(v))
		c := CommitRef(P.Gs, v)
		c.Add(P.F.Mul(r[j]))
		s.V = append(s.V, c)
	}
	total := 1 + 1 + k
	verify := func() error { return s.Proof.Verify(P, &sum.Argument{V: s.V[0]}) }
	if m == 0 {
		_, s.Proof = sum.NewArgument(P, s.V[0], vs[0], r[0])
	} else {
		s.Proof = sum.NewAggregatedArgument(P, s.V, vs, r)
		verify = func() error { return s.Proof.VerifyAggregated(P, s.V) }
		total++
	}
	bind(t, fmt.Sprintf("sum argument of length %d for %d vectors", n, m), verify, Elems(Leaves(s)), total, func(p string) int {
		switch {
		case strings.HasPrefix(p, ".V["):
			return total
		case p == ".Proof.W", p == ".Proof.c":
			return 1 + 1 + k
		case p == ".Proof.ρ":
			return 1 + k
		}
		return ipaNeed(p, ".Proof.π", n)
	})
}

func bindPoE(t *T, n, m int) {
	P := poePP(n, m)
	k := lg(m)
	type st struct {
		Proof *poe.AggregatedProof
		E     *poe.Equalities
	}
	e := &poe.Equalities{RO: poe.RO, PP: P}
	var vs, ws []common.Vec
	for q := 0; q < m; q++ {
		i, j := q%(n-1), (q+1)%(n-1)
		a, b := entries(n, i, j, q+1, big.NewInt(int64(17*q+3)))
		e.I, e.J = append(e.I, i), append(e.J, j)
		e.V, e.W = append(e.V, CommitRef(P.PP.G1s, a)), append(e.W, CommitRef(P.PP.G1s, b))
		vs, ws = append(vs, zrs(a)), append(ws, zrs(b))
	}
	s := &st{E: e}
	s.Proof = e.Prove(vs, ws)
	total := 1 + 2*m + 1 + k
	var leaves []Leaf
	for _, l := range Elems(Leaves(s)) {
		if strings.HasPrefix(l.Path, ".Proof") || strings.HasPrefix(l.Path, ".E.V") || strings.HasPrefix(l.Path, ".E.W") {
			leaves = append(leaves, l)
		}
	}
	bind(t, fmt.Sprintf("batch of %d equalities", m), func() error { return e.Verify(s.Proof) }, leaves, total, func(p string) int {
		switch {
		case strings.HasPrefix(p, ".E.V["), strings.HasPrefix(p, ".E.W["), strings.HasPrefix(p, ".Proof.Vaggr["), strings.HasPrefix(p, ".Proof.Waggr["):
			return total
		case p == ".Proof.U", p == ".Proof.V":
			return 2*m + 1 + k
		case p == ".Proof.ρ", p == ".Proof.c":
			return 1 + k
		}
		return ipaNeed(p, ".Proof.IPP", m)
	})
}

func bindEquality(t *T, n, i, j int) {
	P := poePP(n, 2)
	a, b := entries(n, i, j, 1, big.NewInt(42))
	type st struct {
		Proof *poe.Proof
		V, W  *math.G1
		I, J  int
	}
	s := &st{V: CommitRef(P.PP.G1s, a), W: CommitRef(P.PP.G1s, b), I: i, J: j}
	s.Proof = (&poe.Equality{RO: poe.RO, PP: P, V: s.V, W: s.W, I: i, J: j}).Prove(zrs(a), zrs(b))
	verify := func() error {
		return (&poe.Equality{RO: poe.RO, PP: P, V: s.V, W: s.W, I: s.I, J: s.J}).Verify(s.Proof)
	}
	bind(t, fmt.Sprintf("equality of entries %d and %d of %d", i, j, n), verify, Elems(Leaves(s)), 3, func(p string) int {
		switch p {
		case ".V", ".W", ".Proof.V", ".Proof.W":
			return 3
		case ".Proof.C":
			return 2
		}
		return -1
	})
	base, _ := Challenges(verify)
	for _, x := range [][2]int{{(i + 1) % (n - 1), j}, {i, (j + 1) % (n - 1)}} {
		t.Eval()
		s.I, s.J = x[0], x[1]
		ch, _ := Challenges(verify)
		diff := 0
		for k := range base {
			if k < len(ch) && ch[k] != base[k] {
				diff++
			}
		}
		s.I, s.J = i, j
		if diff < 2 {
			t.Fatalf("equality of entries %d and %d of %d: the challenges do not depend on the indices", i, j, n)
		}
	}
}

func bindOpenings(t *T, n, m int) {
	P := ppFor(n)
	type st struct {
		Cs []*math.G1
	}
	s := &st{}
	var idx []int
	var πs []*math.G1
	Σ := new(big.Int)
	for j := 0; j < m; j++ {
		v := make0(n)
		for i := range v {
			v[i] = big.NewInt(int64(1 + i + 10*j))
		}
		s.Cs = append(s.Cs, CommitRef(P.G1s, v))
		idx = append(idx, j%(n-1))
		_, π := pp.Open(P, idx[j], zrs(v))
		πs = append(πs, π)
	}
	for j := 0; j < m; j++ {
		Σ.Add(Σ, new(big.Int).Mul(big.NewInt(int64(1+idx[j]+10*j)), Big(pp.RO(P, s.Cs, j))))
	}
	π := pp.Aggregate(P, s.Cs, πs, pp.RO)
	zΣ := ZrBig(Σ)
	verify := func() error { return pp.VerifyAggregation(P, idx, s.Cs, π, zΣ, pp.RO) }
	if m > 0 {
		if err := verify(); err != nil {
			t.Fatalf("aggregated opening of %d commitments is rejected: %v", m, err)
		}
	}
	bind(t, fmt.Sprintf("aggregated opening of %d commitments", m), verify, Elems(Leaves(s)), m, func(p string) int { return m })
	q := *P
	q.Digest = append([]byte{}, P.Digest...)
	q.Digest[len(q.Digest)-1] ^= 1
	for j := 0; j < m; j++ {
		t.Eval()
		if ZrEq(pp.RO(P, s.Cs, j), pp.RO(&q, s.Cs, j)) {
			t.Fatalf("the coefficients of an aggregated opening do not depend on the parameters")
		}
	}
}

// bindDigests checks that challenges depend on the parameters they name.
func bindDigests(t *T) {
	gs := common.RandGenVec(3, "some elements")
	d1, d2 := make([]byte, 32), make([]byte, 32)
	d2[31] = 1
	type in struct {
		gs  common.G1v
		ix  []int
		d   []byte
		tag string
	}
	ins := []in{{gs, nil, d1, "base"}, {gs, nil, d2, "digest"}, {gs[:2], nil, d1, "fewer"}, {common.G1v{gs[1], gs[0], gs[2]}, nil, d1, "order"},
		{gs, []int{0}, d1, "index 0"}, {gs, []int{1}, d1, "index 1"}, {gs, []int{256}, d1, "index 256"}, {gs, []int{0, 1}, d1, "indices 0 1"}, {gs, []int{1, 0}, d1, "indices 1 0"}}
	seen := map[string]string{}
	for _, x := range ins {
		for k, z := range poe.RO(x.gs, x.ix, x.d, 300) {
			t.Eval()
			key := z.String()
			if o, ok := seen[key]; ok {
				t.Fatalf("the challenges %s and %s/%d of equality proofs coincide", o, x.tag, k)
			}
			seen[key] = fmt.Sprintf("%s/%d", x.tag, k)
			if Big(z).BitLen() < 128 {
				t.Fatalf("a challenge has only %d bits", Big(z).BitLen())
			}
		}
		t.State("RO", x.tag)
	}
}

func genC19(g *G) {
	ns := []int{1, 2, 4, 8, 16, 32}
	rs := []int{2, 4}
	if g.Thorough {
		ns = append(ns, 64, 128)
		rs = append(rs, 8, 16)
	} else {
		rs = append(rs, 8)
	}
	for _, n := range ns {
		n := n
		g.Case(fmt.Sprintf("ipa/%d", n), func(t *T) { bindIPA(t, n) })
	}
	for _, n := range rs {
		n := n
		g.Case(fmt.Sprintf("range/%d", n), func(t *T) { bindRange(t, n) })
	}
	for _, n := range []int{2, 4, 8} {
		for m := 0; m <= 4; m++ {
			n, m := n, m
			g.Case(fmt.Sprintf("sum/%d/%d", n, m), func(t *T) { bindSum(t, n, m) })
		}
	}
	for _, n := range []int{3, 5} {
		for _, m := range []int{1, 2, 4, 8} {
			n, m := n, m
			g.Case(fmt.Sprintf("poe/%d/%d", n, m), func(t *T) { bindPoE(t, n, m) })
		}
		for i := 0; i < n-1; i++ {
			for j := 0; j < n-1; j++ {
				n, i, j := n, i, j
				g.Case(fmt.Sprintf("equality/%d/%d/%d", n, i, j), func(t *T) { bindEquality(t, n, i, j) })
			}
		}
	}
	for _, n := range []int{3, 5} {
		for m := 1; m <= 4; m++ {
			n, m := n, m
			g.Case(fmt.Sprintf("openings/%d/%d", n, m), func(t *T) { bindOpenings(t, n, m) })
		}
	}
	g.Case("digests", bindDigests)
}
