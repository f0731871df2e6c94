package checks

import (
	"bytes"
	"fmt"
	"math/big"
	"math/bits"
	"reflect"

	. "mc/eng"
	"mc/env"
	. "mc/lib"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pol"
	"pol/pp"
	"pol/sparse"
	"pol/sum"

	math "github.com/IBM/mathlib"
)

func init() {
	Register(&Check{
		ID: "C21", Level: "exploration",
		Rule: "parameters are generated for every configuration, twice; powers are decided by pairings and by discrete logarithms, relations between generators by comparing their logarithms in several independent worlds (proportional logarithms mean a known relation), " +
			"sharing by comparing elements, digests by changing each element on its own, and that the base of the product in an argument is related to no generator a prover could use. A state is distinct when the configuration and the relation that is decided differ",
		Bounds:      "fanouts 3-255 for both kinds of tree (thorough 3-2047), pairs of setups; sizes 1-64 of the parameters of each argument on its own; relations: all pairs of generators, and all sums and differences of two for small fanouts; fanouts 3 and 7 also on BN254",
		Assumptions: []string{"generators that are obtained by hashing have independent discrete logarithms in every world", "group elements are represented by discrete logarithms (validated against BN254 on the listed traces)"},
		Gen:         genC21,
	})
}

type role struct {
	name string
	g    *math.G1
}

func rolesOf(name string, gs common.G1v) (r []role) {
	for i, g := range gs {
		r = append(r, role{fmt.Sprintf("%s[%d]", name, i), g})
	}
	return
}

// powers checks that parameters for vectors of n entries are a power series.
func powers(t *T, what string, P *pp.PP, n int) {
	if P.N != n || len(P.G1s) != 2*n || len(P.G2s) != n || P.Gt == nil {
		t.Fatalf("%s: there are %d and %d powers for vectors of %d entries", what, len(P.G1s), len(P.G2s), P.N)
	}
	pair := func(a *math.G2, b *math.G1) *math.Gt { return C.FExp(C.Pairing(a, b)) }
	gt := pair(C.GenG2, C.GenG1)
	for i := 0; i < 2*n; i++ {
		if i == n {
			continue
		}
		t.Eval()
		if P.G1s[i] == nil || P.G1s[i].IsInfinity() || P.G1s[i].Equals(C.GenG1) {
			t.Fatalf("%s: power %d is trivial", what, i+1)
		}
		var prev *math.G1
		switch {
		case i == 0:
			prev = C.GenG1
		case i == n+1:
			// two steps over the missing power
			if !pair(P.G2s[1%n], P.G1s[n-1]).Equals(pair(C.GenG2, P.G1s[n+1])) && n > 1 {
				t.Fatalf("%s: power %d does not continue the series", what, i+1)
			}
			continue
		default:
			prev = P.G1s[i-1]
		}
		if !pair(P.G2s[0], prev).Equals(pair(C.GenG2, P.G1s[i])) {
			t.Fatalf("%s: power %d does not continue the series", what, i+1)
		}
	}
	for i := 0; i < n; i++ {
		t.Eval()
		if P.G2s[i] == nil || !pair(P.G2s[i], C.GenG1).Equals(pair(C.GenG2, P.G1s[i])) {
			t.Fatalf("%s: power %d in G2 is not that in G1", what, i+1)
		}
	}
	forbidden := pair(P.G2s[n-1], P.G1s[0])
	if !P.Gt.Equals(forbidden) {
		t.Fatalf("%s: the target element is not the forbidden power", what)
	}
	if P.G1s[n] != nil && pair(C.GenG2, P.G1s[n]).Equals(forbidden) {
		t.Fatalf("%s: the forbidden power is among the parameters", what)
	}
	for i, g := range P.G1s {
		t.Eval()
		if g != nil && i != n && pair(C.GenG2, g).Equals(forbidden) {
			t.Fatalf("%s: element %d is the forbidden power", what, i)
		}
	}
	if P.Gt.Equals(gt) || P.Gt.IsUnity() {
		t.Fatalf("%s: the target element is trivial", what)
	}
	t.State("powers", what)
	t.Outcome("power series")
}

// unrelated checks that no generator is a known multiple of another one or of
// the base point.  Transparent group with several worlds only.
func unrelated(t *T, what string, rs []role, sums bool) {
	seen := map[string]string{}
	key := func(g *math.G1) string {
		x := env.Log(g)
		inv := new(big.Int).ModInverse(x[0], Order)
		if inv == nil {
			return "zero"
		}
		var b bytes.Buffer
		for _, y := range x[1:] {
			z := new(big.Int).Mul(y, inv)
			b.WriteString(z.Mod(z, Order).Text(62) + ".")
		}
		return b.String()
	}
	seen[key(C.GenG1)] = "the base point"
	seen["zero"] = "infinity"
	for _, r := range rs {
		t.Eval()
		if r.g == nil {
			t.Fatalf("%s: %s is missing", what, r.name)
		}
		k := key(r.g)
		if o, ok := seen[k]; ok {
			t.Fatalf("%s: %s is a known multiple of %s", what, r.name, o)
		}
		seen[k] = r.name
		t.State("unrelated", what, r.name)
	}
	if !sums {
		return
	}
	for i := range rs {
		for j := 0; j < i; j++ {
			for sign := 0; sign < 2; sign++ {
				t.Eval()
				g := rs[i].g.Copy()
				if sign == 0 {
					g.Add(rs[j].g)
				} else {
					g.Sub(rs[j].g)
				}
				if o, ok := seen[key(g)]; ok {
					t.Fatalf("%s: %s is a combination of %s and %s", what, o, rs[i].name, rs[j].name)
				}
			}
		}
	}
}

func sameG1(t *T, what string, a, b *math.G1) {
	t.Eval()
	if a == nil || b == nil || !a.Equals(b) {
		t.Fatalf("%s do not agree", what)
	}
}

// covers checks that a digest changes with each element of the parameters p
// points to.
func covers(t *T, what string, p interface{}, digest func(q interface{}) []byte, skip func(path string) bool) {
	base := digest(Clone(p))
	if len(base) == 0 {
		t.Obs("the digest is not made from the elements alone")
		return
	}
	if again := digest(Clone(p)); !bytes.Equal(base, again) {
		t.Fatalf("%s have a digest that changes by itself", what)
	}
	q := Clone(p)
	leaves := Leaves(q)
	for _, l := range leaves {
		if skip(l.Path) || l.V.Kind() == reflect.Int {
			continue
		}
		t.Eval()
		keep := l.V.Interface()
		switch e := keep.(type) {
		case *math.G1:
			x := e.Copy()
			x.Add(C.GenG1)
			l.V.Set(reflect.ValueOf(x))
		case *math.G2:
			x := e.Copy()
			x.Add(C.GenG2)
			l.V.Set(reflect.ValueOf(x))
		case *math.Gt:
			l.V.Set(reflect.ValueOf(e.Exp(Zr(2))))
		default:
			continue
		}
		if bytes.Equal(digest(q), base) {
			t.Fatalf("%s: the digest does not depend on %s", what, l.Path)
		}
		l.V.Set(reflect.ValueOf(keep))
		t.State("digest", what, l.Path)
	}
}

// bare copies what is exported of parameters, without their digest, such that
// the digest is computed and not remembered.
func bare(q interface{}) interface{} {
	v := reflect.ValueOf(q).Elem()
	n := reflect.New(v.Type())
	for i := 0; i < v.NumField(); i++ {
		if f := v.Type().Field(i); f.PkgPath == "" && f.Name != "Digest" {
			n.Elem().Field(i).Set(v.Field(i))
		}
	}
	return n.Interface()
}

func digestPP(q interface{}) []byte {
	P := bare(q).(*pp.PP)
	P.SetupDigest()
	return P.Digest
}

func digestPoE(q interface{}) []byte {
	P := bare(q).(*poe.PP)
	P.SetupDigest()
	return P.Digest
}

func digestRange(q interface{}) []byte {
	return append([]byte{}, bare(q).(*bp.RangeProofPublicParams).Digest()...)
}

func digestIPA(q interface{}) []byte {
	P := bare(q).(*bp.PP)
	P.RecomputeDigest()
	return append([]byte{}, P.Digest...)
}

func none(string) bool { return false }

func rangeRoles(P *bp.RangeProofPublicParams) []role {
	r := []role{{"range G", P.G}, {"range H", P.H}}
	r = append(r, rolesOf("range Hs", P.Hs)...)
	return append(r, rolesOf("range Fs", P.Fs)...)
}

func configured(t *T, fanout int, dense bool, sums bool) {
	kind := pol.Sparse
	if dense {
		kind = pol.Dense
	}
	what := fmt.Sprintf("fanout %d, dense=%v", fanout, dense)
	id2path, P := pol.GeneratePublicParams(uint16(fanout), kind)
	n := fanout + 1
	id := "000000000"
	if !dense {
		id = fmt.Sprintf("%064x", 1)
	}
	depth := len(id2path(id))
	want := sparse.ExpectedHexPathLengthByFanOut[uint16(fanout)]
	if dense {
		want = sparse.DigitPathLen(uint16(fanout))
	}
	if depth != want {
		t.Fatalf("%s: paths have %d entries, not %d", what, depth, want)
	}
	if P.Fanout != fanout || P.PPPP.N != fanout+2 {
		t.Fatalf("%s: the parameters are for fanout %d and vectors of %d entries", what, P.Fanout, P.PPPP.N)
	}
	// sizes
	m := len(P.POEPP.G)
	if m < depth-1 || m < 2 || bits.OnesCount(uint(m)) != 1 || len(P.POEPP.H) != m {
		t.Fatalf("%s: %d and %d elements for equalities of a path of %d entries", what, m, len(P.POEPP.H), depth)
	}
	if len(P.SAPP.Gs) != n || len(P.SAPP.H) != n || len(P.RPPP.Gs) != n || len(P.RPPP.Hs) < n*(rangeM+1) || len(P.RPPP.Fs) < n*(rangeM+1) || bits.OnesCount(uint(len(P.RPPP.Hs))) != 1 {
		t.Fatalf("%s: sizes are %d, %d, %d, %d, %d", what, len(P.SAPP.Gs), len(P.SAPP.H), len(P.RPPP.Gs), len(P.RPPP.Hs), len(P.RPPP.Fs))
	}
	// sharing: sums and amounts are about the commitments of the tree
	for i := 0; i < n; i++ {
		sameG1(t, what+": bases of sum arguments and commitments", P.SAPP.Gs[i], P.PPPP.G1s[i])
		sameG1(t, what+": bases of range proofs and commitments", P.RPPP.Gs[i], P.PPPP.G1s[i])
	}
	sameG1(t, what+": blinding bases of sum arguments and commitments", P.SAPP.F, P.PPPP.G1s[n])
	sameG1(t, what+": blinding bases of range proofs and commitments", P.RPPP.F, P.PPPP.G1s[n])
	if len(P.POEPP.PP.G1s) != len(P.PPPP.G1s) || len(P.POEPP.PP.G2s) != len(P.PPPP.G2s) {
		t.Fatalf("%s: equalities are about other commitments", what)
	}
	for i := range P.PPPP.G1s {
		sameG1(t, what+": bases of equalities and commitments", P.POEPP.PP.G1s[i], P.PPPP.G1s[i])
	}
	if !bytes.Equal(P.POEPP.PP.Digest, P.PPPP.Digest) {
		t.Fatalf("%s: equalities have other digests", what)
	}
	sumB(t, what, P.SAPP, n)
	powers(t, what, P.PPPP, fanout+2)
	// the digest is that of the elements
	if d := digestPP(Clone(P.PPPP)); !bytes.Equal(d, P.PPPP.Digest) {
		t.Fatalf("%s: the digest of the commitment parameters is not that of their elements", what)
	}
	if d := digestPoE(Clone(P.POEPP)); !bytes.Equal(d, P.POEPP.Digest) {
		t.Fatalf("%s: the digest of the equality parameters is not that of their elements", what)
	}
	// another setup, and one for trees of the other kind, which leave these alone
	was := Dump(P)
	_, Q := pol.GeneratePublicParams(uint16(fanout), kind)
	unaffected := func(by string) {
		t.Eval()
		if d := Changed(was, P); d != "" {
			t.Fatalf("%s: %s changes the parameters at %s", what, by, d)
		}
	}
	unaffected("another setup")
	for i := 0; i < n; i++ {
		sameG1(t, what+": bases of range proofs and commitments of the second setup", Q.RPPP.Gs[i], Q.PPPP.G1s[i])
		sameG1(t, what+": bases of sum arguments and commitments of the second setup", Q.SAPP.Gs[i], Q.PPPP.G1s[i])
	}
	sameG1(t, what+": blinding bases of the second setup", Q.SAPP.F, Q.PPPP.G1s[n])
	sameG1(t, what+": blinding bases of the second setup", Q.RPPP.F, Q.PPPP.G1s[n])
	if fanout <= 63 {
		pol.GeneratePublicParams(uint16(fanout), !kind)
		unaffected("a setup for the other kind of tree")
	}
	for i := range P.PPPP.G1s {
		if i != P.PPPP.N && P.PPPP.G1s[i].Equals(Q.PPPP.G1s[i]) {
			t.Fatalf("%s: two setups have the same power %d", what, i+1)
		}
	}
	if bytes.Equal(P.PPPP.Digest, Q.PPPP.Digest) || bytes.Equal(P.POEPP.Digest, Q.POEPP.Digest) {
		t.Fatalf("%s: two setups have the same digest", what)
	}
	t.State("config", what)
	t.Obs("%s depth %d m %d", what, depth, m)
	t.Outcome("configuration")
	if !env.Toy {
		return
	}
	env.SetWorlds(Worlds)
	_, P = pol.GeneratePublicParams(uint16(fanout), kind)
	rs := rangeRoles(P.RPPP)
	rs = append(rs, rolesOf("equality G", P.POEPP.G)...)
	rs = append(rs, rolesOf("equality H", P.POEPP.H)...)
	rs = append(rs, role{"equality F", P.POEPP.F}, role{"sum U", P.SAPP.U})
	rs = append(rs, rolesOf("sum H", P.SAPP.H)...)
	unrelated(t, what, rs, sums)
	env.SetWorlds(1)
}

// sumB checks the fixed vector of a sum argument.
func sumB(t *T, what string, P *sum.PP, n int) {
	b := make0(n)
	for i := range b {
		b[i] = big.NewInt(1)
	}
	b[n-1] = big.NewInt(-1)
	sameG1(t, what+": commitment to the vector of signs", P.B, CommitRef(P.H, b))
}

func genC21(g *G) {
	restart(g, "setup")
	related(g, "")
	fan := []int{3, 7, 15, 31, 63, 127, 255}
	if g.Thorough {
		fan = append(fan, 511, 1023, 2047)
	}
	for _, f := range fan {
		for _, dense := range []bool{true, false} {
			f, dense := f, dense
			run := g.Case
			if f <= 7 {
				run = g.Real
			}
			run(fmt.Sprintf("config/%d/%v", f, dense), func(t *T) { configured(t, f, dense, f <= 3 || (f <= 7 && g.Thorough)) })
		}
	}
	// more generators than two bytes count
	g.Case("long/sum", func(t *T) {
		env.SetWorlds(2)
		P := sum.NewPublicParams(66000)
		rs := append(rolesOf("Gs", P.Gs), rolesOf("H", P.H)...)
		unrelated(t, "sum argument of 66000 entries", append(rs, role{"U", P.U}, role{"F", P.F}), false)
	})
	g.Case("long/ipa", func(t *T) {
		env.SetWorlds(2)
		P := bp.NewPublicParams(1 << 17)
		rs := append(rolesOf("G", P.G), rolesOf("H", P.H)...)
		unrelated(t, "inner product of 131072 entries", append(rs, role{"U", P.U}), false)
	})
	g.Case("long/range", func(t *T) {
		env.SetWorlds(2)
		P := bp.NewRangeProofPublicParams(2048)
		rs := append(rangeRoles(P), rolesOf("range Gs", P.Gs)...)
		unrelated(t, "range proof of 2048 entries", append(rs, role{"range F", P.F}), false)
	})
	ns := []int{1, 2, 3, 4, 5, 8, 9, 16, 33, 64}
	for _, n := range ns {
		n := n
		run := g.Case
		if n <= 4 {
			run = g.Real
		}
		if n > 1 {
			run(fmt.Sprintf("powers/%d", n), func(t *T) {
				P := pp.NewPublicParams(n)
				powers(t, fmt.Sprintf("vectors of %d entries", n), P, n)
				Q := pp.NewPublicParams(n)
				if P.G1s[0].Equals(Q.G1s[0]) || bytes.Equal(P.Digest, Q.Digest) {
					t.Fatalf("two setups for vectors of %d entries have the same secret", n)
				}
				if n <= 16 {
					// the element in place of the forbidden power is not used
					covers(t, fmt.Sprintf("parameters for vectors of %d entries", n), P, digestPP, func(p string) bool { return p == fmt.Sprintf(".G1s[%d]", n) })
				}
				t.Obs("powers")
			})
		}
		run(fmt.Sprintf("sum/%d", n), func(t *T) {
			what := fmt.Sprintf("sum argument of %d entries", n)
			P := sum.NewPublicParams(n)
			if len(P.Gs) != n || len(P.H) != n {
				t.Fatalf("%s: %d and %d elements", what, len(P.Gs), len(P.H))
			}
			sumB(t, what, P, n)
			if env.Toy {
				env.SetWorlds(Worlds)
				P = sum.NewPublicParams(n)
				rs := append(rolesOf("Gs", P.Gs), rolesOf("H", P.H)...)
				rs = append(rs, role{"U", P.U}, role{"F", P.F})
				unrelated(t, what, rs, n <= 16)
			}
			t.Obs("sum")
		})
		run(fmt.Sprintf("ipa/%d", n), func(t *T) {
			what := fmt.Sprintf("inner product of %d entries", n)
			P := bp.NewPublicParams(n)
			if len(P.G) != n || len(P.H) != n {
				t.Fatalf("%s: %d and %d elements", what, len(P.G), len(P.H))
			}
			covers(t, what, P, digestIPA, none)
			freshIPA(t, what, P)
			if env.Toy {
				env.SetWorlds(Worlds)
				P = bp.NewPublicParams(n)
				rs := append(rolesOf("G", P.G), rolesOf("H", P.H)...)
				unrelated(t, what, append(rs, role{"U", P.U}), n <= 16)
			}
			t.Obs("ipa")
		})
		if n > 1 {
			g.Case(fmt.Sprintf("equalities/%d", n), func(t *T) {
				for _, m := range []int{1, 2, 4, 8, 16} {
					what := fmt.Sprintf("%d equalities of vectors of %d entries", m, n)
					P := poe.NewPublicParams(n, m)
					if len(P.G) != m || len(P.H) != m {
						t.Fatalf("%s: %d and %d elements", what, len(P.G), len(P.H))
					}
					powers(t, what, P.PP, n)
					if n <= 9 {
						covers(t, what, P, digestPoE, func(p string) bool { return len(p) > 3 && p[:4] == ".PP." })
						q := Clone(P).(*poe.PP)
						q.PP.Digest[0] ^= 1
						if bytes.Equal(digestPoE(q), P.Digest) {
							t.Fatalf("%s: the digest does not depend on the commitment parameters", what)
						}
					}
					if env.Toy {
						env.SetWorlds(Worlds)
						P = poe.NewPublicParams(n, m)
						rs := append(rolesOf("G", P.G), rolesOf("H", P.H)...)
						unrelated(t, what, append(rs, role{"F", P.F}), true)
						env.SetWorlds(1)
					}
				}
			})
		}
		if n <= 16 {
			g.Case(fmt.Sprintf("range/%d", n), func(t *T) {
				what := fmt.Sprintf("range proof of %d entries", n)
				P := bp.NewRangeProofPublicParams(n)
				if len(P.Gs) != n || len(P.Hs) < n*(rangeM+1) || len(P.Fs) != len(P.Hs) {
					t.Fatalf("%s: %d, %d and %d elements", what, len(P.Gs), len(P.Hs), len(P.Fs))
				}
				if n <= 4 {
					covers(t, what, P, digestRange, none)
				}
				if env.Toy {
					env.SetWorlds(Worlds)
					P = bp.NewRangeProofPublicParams(n)
					rs := append(rangeRoles(P), rolesOf("range Gs", P.Gs)...)
					unrelated(t, what, append(rs, role{"range F", P.F}), n <= 4)
				}
			})
		}
	}
}

// products checks that the generator that carries the product of an inner
// product argument, which verifiers make up on the fly, is unrelated to those
// that carry the vectors.  It is found by what a change of the product does to
// the equations that are checked.
func products(t *T, what string, proof interface{}, verify func() error, rs []role) {
	direction := func(x []*big.Int) string {
		inv := new(big.Int).ModInverse(x[0], Order)
		if inv == nil {
			return ""
		}
		var b bytes.Buffer
		for _, y := range x[1:] {
			z := new(big.Int).Mul(y, inv)
			b.WriteString(z.Mod(z, Order).Text(62) + ".")
		}
		return b.String()
	}
	seen := map[string]string{}
	for _, r := range rs {
		seen[direction(env.Log(r.g))] = r.name
	}
	delete(seen, "")
	off, ch, err, crash := Probe(verify, nil)
	if err != nil || crash != nil {
		t.Skip("the verifier fails even if all equations hold")
	}
	for _, l := range Leaves(proof) {
		if l.Path != ".c" {
			continue
		}
		old, ok := l.V.Interface().(*math.Zr)
		if !ok {
			continue
		}
		l.V.Set(reflect.ValueOf(old.Plus(common.IntToZr(1))))
		off2, _, err, crash := Probe(verify, ch)
		l.V.Set(reflect.ValueOf(old))
		if err != nil || crash != nil || len(off2) != len(off) {
			continue
		}
		for k := range off {
			if len(off[k].Log) != len(off2[k].Log) || off[k].Group != 1 || off2[k].Group != 1 {
				continue
			}
			d := make([]*big.Int, len(off[k].Log))
			for w := range d {
				d[w] = new(big.Int).Mod(new(big.Int).Sub(off2[k].Log[w], off[k].Log[w]), Order)
			}
			t.Eval()
			x := direction(d)
			if x == "" {
				continue
			}
			t.State("product", what, k)
			t.Outcome("generator of the product")
			if o, related := seen[x]; related {
				t.Fatalf("%s: the generator of the product in equation %d is a known multiple of %s", what, k, o)
			}
		}
	}
}

// related registers these checks for one kind of argument, or all ("").
func related(g *G, kind string) {
	add := func(k string, n int, f func(t *T)) {
		if kind == "" || kind == k {
			g.Case(fmt.Sprintf("product/%s/%d", k, n), f)
		}
	}
	for _, n := range []int{1, 2, 4, 8} {
		n := n
		if n > 1 {
			add("range", n, func(t *T) {
				env.SetWorlds(Worlds)
				P := bp.NewRangeProofPublicParams(n)
				v := make0(n)
				for i := range v {
					v[i] = big.NewInt(int64(7*i + 1))
				}
				r := common.RandVec(1)[0]
				V := rangeCommit(P, v, r)
				p := bp.ProveRange(P, V, zrs(v), r)
				rs := append(rolesOf("Hs", P.Hs), rolesOf("Fs", P.Fs)...)
				products(t, fmt.Sprintf("range proof of %d entries", n), p, func() error { return bp.VerifyRange(P, p, V) }, rs)
			})
			add("sum", n, func(t *T) {
				env.SetWorlds(Worlds)
				P := sum.NewPublicParams(n)
				v := zrs(sumVec(n, 0, 1))
				r := common.RandVec(1)[0]
				V := CommitRef(P.Gs, sumVec(n, 0, 1))
				V.Add(P.F.Mul(r))
				_, p := sum.NewArgument(P, V, v, r)
				rs := append(rolesOf("Gs", P.Gs), rolesOf("H", P.H)...)
				products(t, fmt.Sprintf("sum argument of %d entries", n), p, func() error { return p.Verify(P, &sum.Argument{V: V}) }, rs)
			})
		}
		add("equalities", n, func(t *T) {
			env.SetWorlds(Worlds)
			P := worldPoE(5, n)
			e := &poe.Equalities{RO: poe.RO, PP: P}
			var vs, ws []common.Vec
			for k := 0; k < n; k++ {
				i, j := k%4, (k+1)%4
				a, b := entries(5, i, j, k+1, big.NewInt(int64(17*k+3)))
				e.I, e.J = append(e.I, i), append(e.J, j)
				e.V, e.W = append(e.V, CommitRef(P.PP.G1s, a)), append(e.W, CommitRef(P.PP.G1s, b))
				vs, ws = append(vs, zrs(a)), append(ws, zrs(b))
			}
			p := e.Prove(vs, ws)
			rs := append(rolesOf("G", P.G), rolesOf("H", P.H)...)
			products(t, fmt.Sprintf("%d equalities", n), p, func() error { return e.Verify(p) }, rs)
		})
	}
}

// freshIPA checks that challenges depend on which parameters are in use, as
// they come out of the constructor.
func freshIPA(t *T, what string, P *bp.PP) {
	n := len(P.G)
	if !env.Toy || n > 64 || n < 2 || n&(n-1) != 0 {
		return
	}
	v := make(common.Vec, n)
	for i := range v {
		v[i] = common.IntToZr(i + 3)
	}
	proof := bp.NewInnerProdArgument(P, v, v).Prove()
	Q := bp.NewPublicParams(2 * n)
	Q.G, Q.H = Q.G[n:], Q.H[n:]
	_, ch, _, _ := Probe(func() error { return proof.Verify(P) }, nil)
	_, ch2, _, _ := Probe(func() error { return proof.Verify(Q) }, nil)
	for i := range ch {
		t.Eval()
		if i < len(ch2) && bytes.Equal(ch[i], ch2[i]) {
			t.Fatalf("%s: challenge %d is the same with other parameters", what, i)
		}
	}
}
