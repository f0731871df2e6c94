package checks

import (
	"fmt"
	"math/big"
	"reflect"

	. "mc/eng"
	"mc/env"
	. "mc/lib"

	"pol/bp"
	"pol/common"

	math "github.com/IBM/mathlib"
)

func init() {
	Register(&Check{
		ID: "C12", Level: "model_checking",
		Rule: "vectors with boundary amounts at every position are proved and must be accepted; out-of-range amounts given to the library's prover must be refused or rejected; a deviating prover (written out in the harness, and first shown to be accepted when it does not deviate) " +
			"commits to a non-binary or inconsistent digit at every digit position of every entry and must be rejected; every message of an accepted proof is altered; " + attackNote + ". A state is distinct when length, vector, deviation or altered message differ",
		Bounds: "lengths 2, 4, 8 (thorough 16); amounts 0, 1, 2^32, 2^62, 2^63-1 and -1, 2^63, 2^64-1, -2^63, 2^200 at every position; deviations at all 63 digits (quick: of two entries) in 6 ways; attacks on all subsets of up to 2 messages for length 2; lengths 16-64 (thorough 256)",
		Assumptions: []string{"amounts and sums are below 2^63, as documented",
			"group elements are represented by discrete logarithms (validated against BN254 on the listed traces)"},
		Gen: genC12,
	})
}

var rangePPs = map[int]*bp.RangeProofPublicParams{}

func rangePP(n int) *bp.RangeProofPublicParams {
	if rangePPs[n] == nil {
		rangePPs[n] = bp.NewRangeProofPublicParams(n)
	}
	return rangePPs[n]
}

func rangeCommit(P *bp.RangeProofPublicParams, v []*big.Int, r *math.Zr) *math.G1 {
	V := CommitRef(P.Gs, v)
	V.Add(P.F.Mul(r))
	return V
}

// dev is how the harness's own prover deviates.
type dev struct {
	value  map[int]*big.Int    // entries of the committed vector
	digits map[[2]int]*big.Int // digits that are committed
	compl  map[[2]int]*big.Int // digits of the complement that are committed
	mask   int                 // entry of the mask that differs between the two commitments (-1: none)
}

const rangeM = 63

// mimic is a prover that follows the protocol on whatever it is given, and
// learns the challenges from the verifier.
type mimic struct {
	P       *bp.RangeProofPublicParams
	n       int
	tpl     *bp.RangeProof
	tplV    *math.G1
	x, z    int
	xs      []int
	ys      [2]int
	total   int
	working bool
}

func set(p interface{}, name string, x interface{}) { Field(p, name).Set(reflect.ValueOf(x)) }

// newMimic finds out which of the verifier's challenges is which by what they
// depend on.
func newMimic(P *bp.RangeProofPublicParams, n int) *mimic {
	m := &mimic{P: P, n: n}
	v := make0(n)
	r := common.RandVec(1)[0]
	m.tplV = rangeCommit(P, v, r)
	m.tpl = bp.ProveRange(P, m.tplV, zrs(v), r)
	base := m.learn(m.tpl, m.tplV)
	changed := func(name string) map[int]bool {
		p := Clone(m.tpl).(*bp.RangeProof)
		for _, l := range Leaves(p) {
			if l.Path == name {
				_, vals := Tampered(l.V)
				l.V.Set(vals[0])
			}
		}
		ch := m.learn(p, m.tplV)
		d := map[int]bool{}
		for i := range base {
			if i >= len(ch) || ch[i].Cmp(base[i]) != 0 {
				d[i] = true
			}
		}
		return d
	}
	dr, dc, dρ := changed(".R"), changed(".C1"), changed(".ρ")
	round := map[int]bool{}
	for k := 0; k < lg(n); k++ {
		for i := range changed(fmt.Sprintf(".Δ[%d][0]", k)) {
			if !dr[i] && !round[i] {
				round[i] = true
				m.xs = append(m.xs, i)
			}
		}
	}
	var ys, zs, rest []int
	for i := range base {
		switch {
		case dr[i] && !dc[i]:
			ys = append(ys, i)
		case dc[i] && !dρ[i]:
			zs = append(zs, i)
		case !dr[i] && !round[i]:
			rest = append(rest, i)
		}
	}
	if len(ys) != 2 || len(zs) != 1 || len(rest) != 1 || len(m.xs) != lg(n) {
		return m
	}
	m.ys, m.z, m.x = [2]int{ys[0], ys[1]}, zs[0], rest[0]
	m.working = true
	return m
}

func (m *mimic) learn(p *bp.RangeProof, V *math.G1) []*big.Int {
	_, ch, _, _ := Probe(func() error { return bp.VerifyRange(m.P, p, V) }, nil)
	var r []*big.Int
	for _, c := range ch {
		r = append(r, new(big.Int).SetBytes(c))
	}
	return r
}

func sc(x *big.Int) *math.Zr { return ZrBig(new(big.Int).Mod(x, Order)) }

// prove runs the protocol; d says where it deviates.
func (m *mimic) prove(v []*big.Int, d dev) (*bp.RangeProof, *math.G1) {
	P, n, M := m.P, m.n, rangeM
	p := Clone(m.tpl).(*bp.RangeProof)
	val := append([]*big.Int{}, v...)
	for i, x := range d.value {
		val[i] = x
	}
	r := common.RandVec(1)[0]
	V := rangeCommit(P, val, r)
	zv := zrs(val)
	at := func(pos int) *math.Zr {
		ch := m.learn(p, V)
		if pos >= len(ch) {
			return common.IntToZr(1)
		}
		return ZrBig(ch[pos])
	}
	w, rPrime := common.RandVec(n), common.RandVec(1)[0]
	W := P.F.Mul(rPrime)
	W.Add(P.Gs.MulV(w).Sum())
	var dg, cp common.Vec
	for i := 0; i < n; i++ {
		for j := 0; j < M; j++ {
			b := big.NewInt(int64(v[i].Bit(j)))
			if x := d.digits[[2]int{i, j}]; x != nil {
				b = x
			}
			c := new(big.Int).Sub(bigOne, b)
			if x := d.compl[[2]int{i, j}]; x != nil {
				c = x
			}
			dg, cp = append(dg, sc(b)), append(cp, sc(c))
		}
	}
	w2 := append(common.Vec{}, w...)
	if d.mask >= 0 {
		w2[d.mask] = sc(new(big.Int).Add(Big(w2[d.mask]), bigOne))
	}
	all := append(append(common.Vec{}, dg...), w2...)
	ν, η := common.RandVec(1)[0], common.RandVec(1)[0]
	Q := P.F.Mul(ν)
	Q.Add(P.Hs.MulV(all).Sum())
	Q.Add(P.Fs[:n*M].MulV(cp).Sum())
	set(p, "W", W)
	set(p, "Q", Q)
	x := at(m.x)
	γ := common.NegZr(r.Plus(x.Mul(rPrime)))
	set(p, "γ", γ)
	// iterated reduction
	red := zv.Add(w.Mul(x))
	G := P.Gs
	Δ := make([][3]*math.G1, lg(n))
	for i := range Δ {
		Δ[i] = [3]*math.G1{C.GenG1, C.GenG1, C.GenG1}
	}
	var xs common.Vec
	for k := 0; k < lg(n); k++ {
		h := len(red) / 2
		Δ[k][0] = G[:h].MulV(red[h:]).Sum()
		Δ[k][1] = G[h:].MulV(red[:h]).Sum()
		set(p, "Δ", Δ)
		xk := at(m.xs[k])
		inv := xk.Copy()
		inv.InvModP(common.GroupOrder)
		G = G[:h].Add(G[h:].Mul(inv))
		red = red[:h].Add(red[h:].Mul(xk))
		Δ[k][2] = G.MulV(red).Sum()
		xs = append(xs, xk)
	}
	u := red[0]
	set(p, "Δ", Δ)
	set(p, "u", u)
	f := make(common.Vec, n)
	for i := range f {
		f[i] = common.IntToZr(1)
		for k := range xs {
			if i>>uint(len(xs)-1-k)&1 == 1 {
				f[i] = f[i].Mul(xs[k])
			}
		}
	}
	var dv common.Vec
	for i := 0; i < n; i++ {
		for j := 0; j < M; j++ {
			dv = append(dv, sc(new(big.Int).Mul(new(big.Int).Lsh(bigOne, uint(j)), Big(f[i]))))
		}
	}
	dv = append(dv, f.Mul(x)...)
	s, t := common.RandVec(n*M+n), common.RandVec(n*M)
	R := P.F.Mul(η)
	R.Add(P.Hs.MulV(s).Sum())
	R.Add(P.Fs[:n*M].MulV(t).Sum())
	set(p, "R", R)
	y0, y1 := at(m.ys[0]), at(m.ys[1])
	y0v := make(common.Vec, n*M)
	y1v := make(common.Vec, n*M)
	pw := common.IntToZr(1)
	for i := range y0v {
		y0v[i], y1v[i] = pw, y1
		pw = pw.Mul(y0)
	}
	zeros := make(common.Vec, n)
	zeros.Zero()
	aP := all.Add(y1v.Concat(zeros))
	bP := dv.Mul(y1.Mul(y1)).Add(y0v.Concat(zeros).Mul(y1)).Add(cp.HadamardProd(y0v).Concat(zeros))
	c1 := aP[:n*M].InnerProd(y0v.HadamardProd(t)).Plus(s.InnerProd(bP))
	c2 := s[:n*M].InnerProd(y0v.HadamardProd(t))
	τ1, τ2 := common.RandVec(1)[0], common.RandVec(1)[0]
	C1, C2 := P.G.Mul(c1), P.G.Mul(c2)
	C1.Add(P.H.Mul(τ1))
	C2.Add(P.H.Mul(τ2))
	set(p, "C1", C1)
	set(p, "C2", C2)
	z := at(m.z)
	set(p, "ρ", common.NegZr(ν.Plus(η.Mul(z))))
	set(p, "τ", τ1.Mul(z).Plus(τ2.Mul(z.Mul(z))))
	inv := y0.Copy()
	inv.InvModP(common.GroupOrder)
	Fp := make(common.G1v, len(P.Fs))
	pw = common.IntToZr(1)
	for i := range Fp {
		Fp[i] = P.Fs[i].Mul(pw)
		pw = pw.Mul(inv)
	}
	a, b := aP.Add(s.Mul(z)), bP.Add(y0v.HadamardProd(t).Concat(zeros).Mul(z))
	ipaPP := &bp.PP{U: common.RandGenVec(1, "u")[0], G: P.Hs, H: Fp}
	ipaPP.RecomputeDigest()
	Π := bp.NewInnerProdArgument(ipaPP, a, b).Prove()
	set(p, "Π", Π)
	set(p, "c", a.InnerProd(b))
	return p, V
}

var mimics = map[int]*mimic{}

func mimicFor(n int) *mimic {
	if mimics[n] != nil {
		return mimics[n]
	}
	m := newMimic(rangePP(n), n)
	mimics[n] = m
	if !m.working {
		return m
	}
	v := make0(n)
	for i := range v {
		v[i] = new(big.Int).Sub(two63, big.NewInt(int64(1+i*i)))
	}
	for k := 0; k < 2; k++ {
		ok := false
		Try(func() {
			p, V := m.prove(v, dev{mask: -1})
			ok = bp.VerifyRange(m.P, p, V) == nil
		})
		if ok {
			return m
		}
		m.ys[0], m.ys[1] = m.ys[1], m.ys[0]
	}
	m.working = false
	return m
}

func genC12(g *G) {
	related(g, "range")
	wideC12(g)
	good := []*big.Int{new(big.Int), bigOne, big.NewInt(1 << 32), big.NewInt(1 << 62), new(big.Int).Sub(two63, bigOne)}
	bad := []*big.Int{rMinus1, two63, new(big.Int).Sub(new(big.Int).Lsh(bigOne, 64), bigOne), new(big.Int).Sub(Order, two63), new(big.Int).Lsh(bigOne, 200), new(big.Int).Sub(Order, big.NewInt(1<<40))}
	sizes := []int{2, 4, 8}
	if g.Thorough {
		sizes = append(sizes, 16)
	}
	basev := func(n, variant int) []*big.Int {
		v := make0(n)
		for i := range v {
			switch variant {
			case 0:
				v[i] = big.NewInt(int64(3 + 5*i))
			case 1:
				v[i] = new(big.Int).Sub(two63, big.NewInt(int64(1+i)))
			case 2: // zeros
			}
		}
		return v
	}
	accept := func(t *T, P *bp.RangeProofPublicParams, v []*big.Int) (*bp.RangeProof, *math.G1) {
		r := common.RandVec(1)[0]
		V := rangeCommit(P, v, r)
		p := bp.ProveRange(P, V, zrs(v), r)
		what := fmt.Sprintf("amounts %v", v)
		t.Step()
		t.State("range", what)
		if err := verdict(t, what, func() error { return bp.VerifyRange(P, p, V) }); err != nil {
			t.Fatalf("%s: rejected: %v", what, err)
		}
		return p, V
	}
	for _, n := range sizes {
		for variant := 0; variant < 3; variant++ {
			for i := 0; i < n; i++ {
				n, variant, i := n, variant, i
				f := func(t *T) {
					P := rangePP(n)
					for _, x := range good {
						v := basev(n, variant)
						v[i] = x
						accept(t, P, v)
						t.Obs("accepted")
						t.Cut()
					}
				}
				if n == 2 && i == 0 || n == 4 && i == 2 && variant == 1 {
					g.Real(fmt.Sprintf("complete/%d/%d/%d", n, variant, i), f)
				} else {
					g.Case(fmt.Sprintf("complete/%d/%d/%d", n, variant, i), f)
				}
				g.Case(fmt.Sprintf("outside/%d/%d/%d", n, variant, i), func(t *T) {
					P := rangePP(n)
					for _, x := range bad {
						for lie := 0; lie < 2; lie++ {
							v := basev(n, variant)
							w := append([]*big.Int{}, v...)
							w[i] = x
							r := common.RandVec(1)[0]
							V := rangeCommit(P, w, r)
							wit := w
							if lie == 1 { // the prover pretends to have committed to something else
								wit = v
							}
							what := fmt.Sprintf("length %d: entry %d is %v (prover pretends otherwise: %v)", n, i, x, lie == 1)
							var p *bp.RangeProof
							t.Step()
							t.State("outside", what, variant)
							if pan, _ := Try(func() { p = bp.ProveRange(P, V, zrs(wit), r) }); pan != nil {
								t.Outcome("the library refuses to prove")
								continue
							}
							if verdict(t, what, func() error { return bp.VerifyRange(P, p, V) }) == nil {
								t.Fatalf("%s: accepted", what)
							}
						}
					}
				})
			}
		}
		n := n
		g.Case(fmt.Sprintf("other/%d", n), func(t *T) {
			P := rangePP(n)
			p, V := accept(t, P, basev(n, 0))
			bad := func(what string, V *math.G1) {
				if verdict(t, what, func() error { return bp.VerifyRange(P, p, V) }) == nil {
					t.Fatalf("length %d: accepted for %s", n, what)
				}
				t.State("other", n, what)
			}
			for i := 0; i < n; i++ {
				for _, δ := range append(append([]*big.Int{}, good[1:]...), bad0...) {
					V2 := V.Copy()
					V2.Add(P.Gs[i].Mul(ZrBig(δ)))
					bad(fmt.Sprintf("entry %d changed by %v", i, δ), V2)
				}
				for j := 0; j < i; j++ {
					V2 := V.Copy()
					V2.Add(P.Gs[i])
					V2.Sub(P.Gs[j])
					bad(fmt.Sprintf("entries %d and %d changed by opposite amounts", i, j), V2)
				}
			}
			V2 := V.Copy()
			V2.Add(P.F)
			bad("another blinding factor", V2)
			V2 = ZeroG1()
			V2.Sub(V)
			bad("the negated vector", V2)
			bad("the empty commitment", ZeroG1())
			p2, _ := accept(t, P, basev(n, 1))
			if verdict(t, "transplanted", func() error { return bp.VerifyRange(P, p2, V) }) == nil {
				t.Fatalf("length %d: the proof of another vector is accepted", n)
			}
			q := rangePP(map[int]int{2: 4, 4: 8, 8: 2, 16: 8}[n])
			if verdict(t, "other size", func() error { return bp.VerifyRange(q, p, V) }) == nil {
				t.Fatalf("length %d: accepted under parameters for length %d", n, len(q.Gs))
			}
		})
		parts := 8
		for part := 0; part < parts; part++ {
			part := part
			if n == 16 {
				break
			}
			f := func(t *T) {
				P := rangePP(n)
				p, V := accept(t, P, basev(n, 0))
				k := 0
				mutateAll(t, fmt.Sprintf("length %d", n), p, func(l Leaf) bool {
					k++
					return skipIPP(l) || k%parts != part
				}, func() error { return bp.VerifyRange(P, p, V) })
				t.Cut()
			}
			if n == 2 && part < 2 {
				g.Real(fmt.Sprintf("mutate/%d/%d", n, part), f)
			} else {
				g.Case(fmt.Sprintf("mutate/%d/%d", n, part), f)
			}
		}
	}
	// deviating provers
	for _, n := range sizes {
		if n == 16 {
			continue
		}
		for i := 0; i < n; i++ {
			if !g.Thorough && i != 0 && i != n-1 {
				continue
			}
			for lo := 0; lo < rangeM; lo += 7 {
				n, i, lo := n, i, lo
				g.Case(fmt.Sprintf("deviate/%d/%d/%d", n, i, lo), func(t *T) {
					m := mimicFor(n)
					if !m.working {
						t.Skip("the harness's prover does not know this protocol")
					}
					zero := make0(n)
					judge := func(what string, v []*big.Int, d dev) {
						p, V := m.prove(v, d)
						what = fmt.Sprintf("length %d, entry %d: %s", n, i, what)
						t.Step()
						t.State("deviate", what)
						if verdict(t, what, func() error { return bp.VerifyRange(m.P, p, V) }) == nil {
							t.Fatalf("%s: accepted", what)
						}
					}
					for j := lo; j < lo+7 && j < rangeM; j++ {
						at := [2]int{i, j}
						pow := new(big.Int).Lsh(bigOne, uint(j))
						neg := new(big.Int).Sub(Order, pow)
						for c, compl := range []map[[2]int]*big.Int{nil, {at: new(big.Int)}} {
							judge(fmt.Sprintf("digit %d is -1 (complement %d)", j, c), zero, dev{value: map[int]*big.Int{i: neg}, digits: map[[2]int]*big.Int{at: rMinus1}, compl: compl, mask: -1})
							big63 := new(big.Int).Lsh(bigOne, uint(63-j))
							judge(fmt.Sprintf("digit %d stands for 2^63 (complement %d)", j, c), zero, dev{value: map[int]*big.Int{i: two63}, digits: map[[2]int]*big.Int{at: big63}, compl: compl, mask: -1})
						}
						judge(fmt.Sprintf("the amount is -2^%d and all digits are 0", j), zero, dev{value: map[int]*big.Int{i: neg}, mask: -1})
						all := make0(n)
						all[i] = new(big.Int).Sub(two63, bigOne)
						judge(fmt.Sprintf("the amount is 2^63-1+2^%d and all digits are 1", j), all, dev{value: map[int]*big.Int{i: new(big.Int).Add(all[i], pow)}, mask: -1})
						if n > 1 {
							o := (i + 1) % n
							judge(fmt.Sprintf("amounts of neighbours off by opposite 2^%d", j), zero, dev{value: map[int]*big.Int{i: neg, o: pow}, mask: -1})
						}
					}
					judge("the mask differs", basev(n, 0), dev{value: map[int]*big.Int{i: rMinus1}, mask: i})
				})
			}
		}
	}
	// iterated reduction by itself
	ns := []int{2, 4, 8, 16}
	for _, n := range ns {
		n := n
		g.Case(fmt.Sprintf("reduce/%d", n), func(t *T) {
			P := bpPP(n)
			vs := oneHots(n, []*big.Int{bigOne, two63, rMinus1})
			vs = append(vs, make0(n), basev(n, 0), basev(n, 1))
			for _, v := range vs {
				V := CommitRef(P.G, v)
				Δ, _, u := bp.IterativeReduce(P, zrs(v), V)
				what := fmt.Sprintf("reduction of %v", v)
				t.State(what)
				t.Step()
				if err := verdict(t, what, func() error { _, _, err := bp.IterativeVerify(P, V, Δ, u); return err }); err != nil {
					t.Fatalf("%s: rejected: %v", what, err)
				}
				type st struct {
					Δ [][3]*math.G1
					U *math.Zr
					V *math.G1
				}
				s := &st{Δ, u, V}
				mutateAll(t, what, s, nil, func() error { _, _, err := bp.IterativeVerify(P, s.V, s.Δ, s.U); return err })
				for i := range v {
					V2 := V.Copy()
					V2.Add(P.G[i])
					if verdict(t, what, func() error { _, _, err := bp.IterativeVerify(P, V2, Δ, u); return err }) == nil {
						t.Fatalf("%s: accepted for entry %d changed", what, i)
					}
				}
			}
		})
	}
	// adaptive provers
	for variant := 0; variant < 3; variant++ {
		for e := -1; e < 4; e++ {
			variant, e := variant, e
			depth := 1
			if g.Thorough {
				depth = 2
			}
			g.Case(fmt.Sprintf("attack/2/%d/%d", variant, e), func(t *T) {
				env.SetWorlds(Worlds)
				P := bp.NewRangeProofPublicParams(2)
				v := basev(2, variant)
				w := append([]*big.Int{}, v...)
				if e >= 0 {
					w[e%2] = []*big.Int{rMinus1, two63}[e/2]
				}
				r := common.RandVec(1)[0]
				type st struct {
					P *bp.RangeProof
					V *math.G1
				}
				s := &st{V: rangeCommit(P, w, r)}
				att := &Attack{Max: depth, Bases: []*math.G1{P.Gs[0]}, Lie: []*math.G1{P.Gs[0]}, False: e >= 0}
				att.Prover = Recorded(func() { s.P = bp.ProveRange(P, s.V, zrs(v), r) })
				att.Verify = func() error { return bp.VerifyRange(P, s.P, s.V) }
				if err := att.Verify(); (err == nil) != (e < 0) {
					t.Fatalf("amounts %v: verification says %v", w, err)
				}
				att.Stmt, att.Free = named(Elems(Leaves(s)), ".V")
				if e >= 0 {
					att.Stmt = nil
				}
				var skip []Leaf
				for _, l := range att.Free {
					if !skipIPP(l) {
						skip = append(skip, l)
					}
				}
				att.Free = skip
				attack(t, fmt.Sprintf("amounts %v, prover uses %v", w, v), att)
			})
		}
	}
	for _, n := range sizes {
		n := n
		g.Case(fmt.Sprintf("bind/%d", n), func(t *T) { bindRange(t, n) })
	}
}

var bad0 = []*big.Int{rMinus1, two63, new(big.Int).Lsh(bigOne, 64)}
