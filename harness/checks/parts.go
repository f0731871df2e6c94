package checks

import (
	"fmt"
	"math/big"
	"reflect"

	. "mc/eng"
	. "mc/lib"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/sum"

	math "github.com/IBM/mathlib"
)

// part is a proof of one of the arguments, with its verifier.
type part struct {
	name   string
	proof  interface{} // a pointer
	verify func() error
}

func ipaPart(n int) part {
	P := bpPP(n)
	a, b := make0(n), make0(n)
	for i := range a {
		a[i], b[i] = big.NewInt(int64(3+i)), big.NewInt(int64(7*i+2))
	}
	proof := bp.NewInnerProdArgument(P, zrs(a), zrs(b)).Prove()
	return part{fmt.Sprintf("ipa%d", n), proof, func() error { return proof.Verify(P) }}
}

func rangePart(n int) part {
	P := rangePP(n)
	v := make0(n)
	for i := range v {
		v[i] = big.NewInt(int64(5 + i))
	}
	r := common.RandVec(1)[0]
	V := rangeCommit(P, v, r)
	proof := bp.ProveRange(P, V, zrs(v), r)
	return part{fmt.Sprintf("range%d", n), proof, func() error { return bp.VerifyRange(P, proof, V) }}
}

func sumPart(n, m int) part {
	P := sumPP(n)
	cnt := m
	if m == 0 {
		cnt = 1
	}
	r := common.RandVec(cnt)
	var vs []common.Vec
	var V common.G1v
	for j := 0; j < cnt; j++ {
		v := sumVec(n, 0, j)
		vs = append(vs, zrs(v))
		c := CommitRef(P.Gs, v)
		c.Add(P.F.Mul(r[j]))
		V = append(V, c)
	}
	if m == 0 {
		_, proof := sum.NewArgument(P, V[0], vs[0], r[0])
		return part{fmt.Sprintf("sum%d", n), proof, func() error { return proof.Verify(P, &sum.Argument{V: V[0]}) }}
	}
	proof := sum.NewAggregatedArgument(P, V, vs, r)
	return part{fmt.Sprintf("sum%dx%d", n, m), proof, func() error { return proof.VerifyAggregated(P, V) }}
}

func poePart(n, m int) part {
	P := poePP(n, m)
	e := &poe.Equalities{RO: poe.RO, PP: P}
	var vs, ws []common.Vec
	for q := 0; q < m; q++ {
		i, j := q%(n-1), (q+1)%(n-1)
		a, b := entries(n, i, j, q+1, big.NewInt(int64(17*q+3)))
		e.I, e.J = append(e.I, i), append(e.J, j)
		e.V, e.W = append(e.V, CommitRef(P.PP.G1s, a)), append(e.W, CommitRef(P.PP.G1s, b))
		vs, ws = append(vs, zrs(a)), append(ws, zrs(b))
	}
	proof := e.Prove(vs, ws)
	return part{fmt.Sprintf("poe%dx%d", n, m), proof, func() error { return e.Verify(proof) }}
}

func equalityPart(n, i, j int) part {
	P := poePP(n, 2)
	a, b := entries(n, i, j, 1, big.NewInt(42))
	e := &poe.Equality{RO: poe.RO, PP: P, V: CommitRef(P.PP.G1s, a), W: CommitRef(P.PP.G1s, b), I: i, J: j}
	proof := e.Prove(zrs(a), zrs(b))
	return part{fmt.Sprintf("equality%d", n), proof, func() error { return e.Verify(proof) }}
}

// genC08parts changes the lengths of the vectors of each argument on its own.
func genC08parts(g *G, judge func(t *T, what string, f func() error)) {
	type mk struct {
		name string
		f    func() part
	}
	mks := []mk{
		{"ipa1", func() part { return ipaPart(1) }}, {"ipa2", func() part { return ipaPart(2) }}, {"ipa4", func() part { return ipaPart(4) }}, {"ipa8", func() part { return ipaPart(8) }},
		{"range2", func() part { return rangePart(2) }}, {"range4", func() part { return rangePart(4) }},
		{"sum2", func() part { return sumPart(2, 0) }}, {"sum4", func() part { return sumPart(4, 0) }}, {"sum4x3", func() part { return sumPart(4, 3) }},
		{"poe4x2", func() part { return poePart(4, 2) }}, {"poe5x4", func() part { return poePart(5, 4) }},
	}
	if g.Thorough {
		mks = append(mks, mk{"ipa64", func() part { return ipaPart(64) }}, mk{"range8", func() part { return rangePart(8) }}, mk{"sum16x2", func() part { return sumPart(16, 2) }},
			mk{"poe4x8", func() part { return poePart(4, 8) }})
	}
	for _, m := range mks {
		m := m
		run := func(t *T) {
			p := m.f()
			if err := p.verify(); err != nil {
				t.Fatalf("%s: the honest proof is rejected: %v", m.name, err)
			}
			ls := Slices(p.proof)
			one := func(l Leaf) (names []string, vals []reflect.Value) {
				names, vals = resize(l.V)
				if l.V.Len() == 0 && l.V.Type().Elem() == reflect.TypeOf((*math.G1)(nil)) {
					for k := 1; k <= 3; k++ {
						var v []*math.G1
						for i := 0; i < k; i++ {
							v = append(v, C.GenG1.Copy())
						}
						names, vals = append(names, fmt.Sprintf("of %d elements instead of none", k)), append(vals, reflect.ValueOf(v).Convert(l.V.Type()))
					}
				}
				return
			}
			for i, l := range ls {
				orig := reflect.New(l.V.Type()).Elem()
				orig.Set(l.V)
				names, vals := one(l)
				for k := range vals {
					if vals[k].Len() == orig.Len() {
						continue // no change: nil for empty
					}
					l.V.Set(vals[k])
					judge(t, m.name+" "+l.Path+" "+names[k], p.verify)
					t.State("part", m.name, l.Path, names[k])
				}
				l.V.Set(orig)
				// together with every later vector
				for _, l2 := range ls[i+1:] {
					orig2 := reflect.New(l2.V.Type()).Elem()
					orig2.Set(l2.V)
					names2, vals2 := one(l2)
					for k := range vals {
						for k2 := range vals2 {
							if vals[k].Len() == orig.Len() || vals2[k2].Len() == orig2.Len() {
								continue
							}
							l.V.Set(vals[k])
							l2.V.Set(vals2[k2])
							judge(t, m.name+" "+l.Path+" "+names[k]+" and "+l2.Path+" "+names2[k2], p.verify)
							t.State("part", m.name, l.Path, names[k], l2.Path, names2[k2])
						}
					}
					l.V.Set(orig)
					l2.V.Set(orig2)
				}
			}
			if err := p.verify(); err != nil {
				t.Fatalf("%s: the restored proof is rejected: %v", m.name, err)
			}
			t.Outcome("part " + m.name)
		}
		if m.name == "ipa4" || m.name == "poe4x2" || m.name == "sum4" {
			g.Real("part/"+m.name, run)
		} else {
			g.Case("part/"+m.name, run)
		}
	}
}
