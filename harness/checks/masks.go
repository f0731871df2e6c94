package checks

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"sort"
	"strings"

	. "mc/eng"
	"mc/env"
	. "mc/lib"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/sum"
	"pol/verkle"

	math "github.com/IBM/mathlib"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

func init() {
	Register(&Check{
		ID: "C23", Level: "model_checking",
		Rule: "every random draw of a prover is perturbed on its own with all challenges held fixed; the changes of the messages, as vectors of discrete logarithms, must be linearly independent for as many masks as the protocol has (so none is reused, constant or left out). " +
			"The messages of a range proof must have all degrees of freedom that fully masked vectors give them. For arguments whose messages depend linearly on the hidden vectors, every hidden entry is perturbed as well and the change must be one that masks can cause. Whole proofs and trees are made twice, and no randomized element may occur twice. A state is distinct when prover, size and perturbed draw or entry differ",
		Bounds: "range proofs of 2 and 4 entries (thorough 8; each mask of 2, thorough 4), sum arguments of 2-8 entries and 1-3 vectors, batches of 2-4 equalities, single equalities at all index pairs of 3-5 entries, vertices of all histories of up to 3 updates (thorough 4) on trees of depth 2-3; all draws, all hidden entries; pairs of whole proofs on both kinds of trees, and the same calls in three processes",
		Assumptions: []string{"randomness comes from the scalar generator of the group library; where it does not, the independence of masks is not judged", "group elements are represented by discrete logarithms (validated against BN254 on the listed traces)",
			"perturbations are local: they decide independence at the sampled point, which holds everywhere but on a negligible set"},
		Gen: genC23,
	})
}

// frozen runs f with the scalars made from bytes replaced: in the recording
// run by a hash of them, so that provers and verifiers agree, and later by
// what was recorded.
type freezer struct {
	set  byte
	tape [][]byte
}

// proving marks that the scalars being made are the prover's.
var proving bool

func prover(f func()) {
	proving = true
	defer func() { proving = false }()
	f()
}

func (z *freezer) record(f func()) {
	z.tape = nil
	env.OnScalar(func(b []byte) []byte {
		if !proving {
			return b
		}
		h := sha256.Sum256(append([]byte{z.set}, b...))
		h[0] &= 0x0f
		r := append([]byte{}, h[:]...)
		z.tape = append(z.tape, r)
		return append([]byte{}, r...)
	})
	defer env.OnScalar(nil)
	f()
}

func (z *freezer) replay(f func()) (ok bool) {
	k := 0
	env.OnScalar(func(b []byte) []byte {
		if !proving {
			return b
		}
		k++
		if k > len(z.tape) {
			return b
		}
		return append([]byte{}, z.tape[k-1]...)
	})
	defer env.OnScalar(nil)
	f()
	return k == len(z.tape)
}

type frow []fr.Element

// coords are the discrete logarithms and scalars of the messages, by path.
func coords(ls []Leaf) frow {
	var r frow
	put := func(x *big.Int) {
		var e fr.Element
		e.SetBigInt(x)
		r = append(r, e)
	}
	for _, l := range ls {
		switch e := l.V.Interface().(type) {
		case *math.G1:
			for _, x := range env.Log(e) {
				put(x)
			}
		case *math.Zr:
			put(Big(e))
		}
	}
	return r
}

func (a frow) minus(b frow) frow {
	r := make(frow, len(a))
	for i := range a {
		r[i].Sub(&a[i], &b[i])
	}
	return r
}

// basis is a row-reduced basis.
type basis struct {
	rows  []frow
	pivot []int
}

// reduce subtracts what the basis explains; it returns the rest, or nil.
func (s *basis) reduce(v frow) frow {
	v = append(frow{}, v...)
	var t fr.Element
	for k, b := range s.rows {
		p := s.pivot[k]
		if v[p].IsZero() {
			continue
		}
		f := v[p]
		for j := p; j < len(v); j++ {
			if !b[j].IsZero() {
				t.Mul(&f, &b[j])
				v[j].Sub(&v[j], &t)
			}
		}
	}
	for i := range v {
		if !v[i].IsZero() {
			return v
		}
	}
	return nil
}

func (s *basis) add(v frow) bool {
	v = s.reduce(v)
	if v == nil {
		return false
	}
	p := 0
	for v[p].IsZero() {
		p++
	}
	var inv fr.Element
	inv.Inverse(&v[p])
	for j := range v {
		v[j].Mul(&v[j], &inv)
	}
	k := sort.SearchInts(s.pivot, p)
	s.rows = append(s.rows, nil)
	copy(s.rows[k+1:], s.rows[k:])
	s.rows[k] = v
	s.pivot = append(s.pivot, 0)
	copy(s.pivot[k+1:], s.pivot[k:])
	s.pivot[k] = p
	return true
}

// A masked prover: run makes the messages from the hidden entries, which are
// changed by delta where it is not zero.
type masked struct {
	name   string
	hidden int // hidden entries that can be changed on their own
	masks  int // independent masks in the protocol
	eqs    int // equations between the messages of an accepted transcript (if otherwise free)
	linear bool
	run    func(delta []*big.Int) []Leaf
}

func withDraw(k uint64, d *big.Int, f func()) {
	seen := false
	env.Force(func(i uint64) *big.Int {
		if i != k {
			return nil
		}
		seen = true
		return d
	})
	defer env.Force(nil)
	f()
	_ = seen
}

// independent checks the masks of a prover.
func independent(t *T, p masked, seed uint64) {
	if !env.Toy {
		return
	}
	none := make([]*big.Int, p.hidden)
	for i := range none {
		none[i] = new(big.Int)
	}
	at := func(d []*big.Int) (r frow) {
		env.Seed(seed)
		r = coords(p.run(d))
		return
	}
	// randomness that is not under control
	var a, b frow
	z := &freezer{set: 1}
	z.record(func() { a = at(none) })
	draws := env.Draws()
	z.replay(func() { b = at(none) })
	for i := range a {
		if len(a) != len(b) || !a[i].Equal(&b[i]) {
			t.Skip("the prover has randomness of its own")
		}
	}
	var cols []frow
	var hid []frow
	rank := 0
	for set := byte(1); ; set++ {
		z := &freezer{set: set}
		var base frow
		z.record(func() { base = at(none) })
		for k := uint64(0); k < draws; k++ {
			t.Eval()
			t.Step()
			var m frow
			d := new(big.Int).SetUint64(1000 + k*7 + uint64(set))
			withDraw(k, d, func() { z.replay(func() { m = at(none) }) })
			if len(m) != len(base) {
				t.Fatalf("%s: the number of messages depends on randomness", p.name)
			}
			t.State("draw", p.name, k)
			t.Alive()
			m = m.minus(base)
			if int(k) < len(cols) {
				cols[k] = append(cols[k], m...)
			} else {
				cols = append(cols, m)
			}
		}
		if set == 1 && p.linear {
			for i := 0; i < p.hidden; i++ {
				d := append([]*big.Int{}, none...)
				d[i] = big.NewInt(5)
				var m frow
				z.replay(func() { m = at(d) })
				hid = append(hid, m.minus(base))
				t.State("hidden", p.name, i)
				t.Eval()
			}
		}
		if p.eqs > 0 {
			// The transcripts that occur are then the same whatever is hidden.
			sp, free := &basis{}, 0
			for _, c := range cols {
				if sp.add(c) {
					free++
				}
			}
			if free < len(base)-p.eqs {
				t.Fatalf("%s: the %d messages have only %d degrees of freedom, of %d", p.name, len(base), free, len(base)-p.eqs)
			}
			t.Outcome("transcripts have all degrees of freedom")
			return
		}
		if set == 1 && hid != nil {
			sp := &basis{}
			for _, c := range cols {
				sp.add(c)
			}
			for i, h := range hid {
				if r := sp.reduce(h); r != nil {
					t.Fatalf("%s: the masks do not hide entry %d", p.name, i)
				}
			}
		}
		sp := &basis{}
		rank = 0
		for _, c := range cols {
			if sp.add(c) {
				rank++
			}
		}
		if p.masks == 0 || rank >= p.masks {
			return
		}
		if int(set)*len(base) > 2*p.masks+2*len(base) {
			t.Fatalf("%s: the messages are masked by only %d independent random values of %d", p.name, rank, p.masks)
		}
	}
}

func messages(p interface{}) []Leaf {
	var r []Leaf
	for _, l := range Elems(Leaves(p)) {
		if !skipIPP(l) {
			r = append(r, l)
		}
	}
	return r
}

func plus(a []*big.Int, i int, d *big.Int) []*big.Int {
	r := append([]*big.Int{}, a...)
	r[i] = new(big.Int).Add(r[i], d)
	return r
}

func maskedRange(n int) masked {
	P := bp.NewRangeProofPublicParams(n)
	v := make0(n)
	for i := range v {
		v[i] = big.NewInt(int64(5 + 3*i))
	}
	return masked{fmt.Sprintf("range proof of %d entries", n), 0, 128*n + 6, 0, false, func([]*big.Int) []Leaf {
		r := common.RandVec(1)[0]
		V := rangeCommit(P, v, r)
		x := struct {
			V *math.G1
			P *bp.RangeProof
		}{V: V}
		vz := zrs(v)
		prover(func() { x.P = bp.ProveRange(P, V, vz, r) })
		return messages(&x)
	}}
}

// maskedSum has the blinding factors of the commitments among its draws.
func maskedSum(n, m int) masked {
	P := sum.NewPublicParams(n)
	k := m
	if m == 0 {
		k = 1
	}
	return masked{fmt.Sprintf("sum argument of %d entries for %d vectors", n, m), k * (n - 1), n + 1 + k, 0, true, func(d []*big.Int) []Leaf {
		r := common.RandVec(k)
		var vs []common.Vec
		x := struct {
			V common.G1v
			P *sum.Proof
		}{}
		for j := 0; j < k; j++ {
			v := sumVec(n, 0, j)
			for i := 0; i < n-1; i++ {
				v = plus(plus(v, i, d[j*(n-1)+i]), n-1, d[j*(n-1)+i])
			}
			vs = append(vs, zrs(v))
			c := CommitRef(P.Gs, v)
			c.Add(P.F.Mul(r[j]))
			x.V = append(x.V, c)
		}
		prover(func() {
			if m == 0 {
				_, x.P = sum.NewArgument(P, x.V[0], vs[0], r[0])
			} else {
				x.P = sum.NewAggregatedArgument(P, x.V, vs, r)
			}
		})
		return messages(&x)
	}}
}

func maskedPoE(P *poe.PP, n, m int) masked {
	// hidden: the common value of each pair, and every other entry of its vectors
	per := 1 + 2*(n-2)
	return masked{fmt.Sprintf("batch of %d equalities of %d entries", m, n), m * per, 3*m + 2 + 2*m, 0, true, func(d []*big.Int) []Leaf {
		x := struct {
			V, W common.G1v
			P    *poe.AggregatedProof
		}{}
		e := &poe.Equalities{RO: poe.RO, PP: P}
		var vs, ws []common.Vec
		for q := 0; q < m; q++ {
			i, j := q%(n-1), (q+1)%(n-1)
			a, b := pair(n, i, j, q+1, d[q*per:(q+1)*per])
			e.I, e.J = append(e.I, i), append(e.J, j)
			e.V, e.W = append(e.V, CommitRef(P.PP.G1s, a)), append(e.W, CommitRef(P.PP.G1s, b))
			vs, ws = append(vs, zrs(a)), append(ws, zrs(b))
		}
		x.V, x.W = e.V, e.W
		prover(func() { x.P = e.Prove(vs, ws) })
		return messages(&x)
	}}
}

// pair are vectors with random last entries that agree at (i, j).
func pair(n, i, j, seed int, d []*big.Int) (a, b []*big.Int) {
	a, b = entries(n, i, j, seed, big.NewInt(int64(17*seed+3)))
	a[i].Add(a[i], d[0])
	b[j].Add(b[j], d[0])
	k := 1
	for q := 0; q < n-1; q++ {
		if q != i {
			a[q].Add(a[q], d[k])
			k++
		}
	}
	for q := 0; q < n-1; q++ {
		if q != j {
			b[q].Add(b[q], d[k])
			k++
		}
	}
	return
}

func maskedEquality(P *poe.PP, n, i, j int) masked {
	return masked{fmt.Sprintf("equality of entries %d and %d of %d", i, j, n), 1 + 2*(n-2), 3 + 2, 0, true, func(d []*big.Int) []Leaf {
		a, b := pair(n, i, j, 1, d)
		x := struct {
			V, W *math.G1
			P    *poe.Proof
		}{V: CommitRef(P.PP.G1s, a), W: CommitRef(P.PP.G1s, b)}
		az, bz := zrs(a), zrs(b)
		prover(func() { x.P = (&poe.Equality{RO: poe.RO, PP: P, V: x.V, W: x.W, I: i, J: j}).Prove(az, bz) })
		return messages(&x)
	}}
}

// twice checks that no element of ps occurs in two places.
func distinctElements(t *T, what string, names []string, ps []interface{}, skip func(path string) bool) {
	seen := map[string]string{}
	for k, p := range ps {
		for _, l := range Elems(Leaves(p)) {
			if skipIPP(l) || skip(l.Path) {
				continue
			}
			var key string
			switch e := l.V.Interface().(type) {
			case *math.G1:
				key = fmt.Sprintf("G%x", e.Bytes())
			case *math.Zr:
				key = "Z" + Big(e).String()
			}
			t.Eval()
			at := names[k] + " " + l.Path
			if o, ok := seen[key]; ok {
				t.Fatalf("%s: %s and %s are the same", what, o, at)
			}
			seen[key] = at
		}
	}
}

// deterministic are the components of a liability proof that are determined
// by the tree.
func deterministic(path string) bool {
	for _, p := range []string{".PointProof", ".V[", ".W[", ".Digests[", ".LiabilityProof"} {
		if strings.HasPrefix(path, p) {
			return true
		}
	}
	return false
}

func genC23(g *G) {
	restart(g, "masks")
	rs := []int{2}
	us := []int{2, 4}
	if g.Thorough {
		rs = append(rs, 4)
		us = append(us, 8)
	}
	for _, n := range us {
		n := n
		g.Case(fmt.Sprintf("range-free/%d", n), func(t *T) {
			p := maskedRange(n)
			// the last equation, the inner product's, and those among the
			// messages of the reduction, which are made from n masked entries
			l := lg(n)
			p.eqs = 2 + 3*l + 2 - minInt(n, 2*l+1)
			independent(t, p, t.Seed)
		})
	}
	for _, n := range rs {
		n := n
		g.Case(fmt.Sprintf("range/%d", n), func(t *T) {
			env.SetWorlds(Worlds)
			independent(t, maskedRange(n), t.Seed)
		})
	}
	for _, n := range []int{2, 4, 8} {
		for m := 0; m <= 3; m++ {
			n, m := n, m
			g.Case(fmt.Sprintf("sum/%d/%d", n, m), func(t *T) {
				p := maskedSum(n, m)
				q := p
				q.masks = 0
				independent(t, q, t.Seed)
				env.SetWorlds(Worlds)
				p = maskedSum(n, m)
				p.linear = false
				independent(t, p, t.Seed)
			})
		}
	}
	for _, n := range []int{3, 5} {
		for _, m := range []int{2, 4} {
			n, m := n, m
			g.Case(fmt.Sprintf("poe/%d/%d", n, m), func(t *T) {
				p := maskedPoE(poePP(n, m), n, m)
				p.masks = 0
				independent(t, p, t.Seed)
				if env.Toy {
					env.SetWorlds(Worlds)
					p = maskedPoE(worldPoE(n, m), n, m)
					p.linear = false
					independent(t, p, t.Seed)
				}
			})
		}
		for i := 0; i < n-1; i++ {
			for j := 0; j < n-1; j++ {
				n, i, j := n, i, j
				g.Case(fmt.Sprintf("equality/%d/%d/%d", n, i, j), func(t *T) {
					p := maskedEquality(poePP(n, 2), n, i, j)
					p.masks = 0
					independent(t, p, t.Seed)
					if env.Toy {
						env.SetWorlds(Worlds)
						p = maskedEquality(worldPoE(n, 2), n, i, j)
						p.linear = false
						independent(t, p, t.Seed)
					}
				})
			}
		}
	}
	// vertices
	deep := 3
	if g.Thorough {
		deep = 4
	}
	for _, s := range []shape{shallow(3, 2), shallow(3, 3)} {
		s := s
		ids := []string{"00", "01", "10", "22"}
		if s.depth == 3 {
			ids = []string{"000", "001", "010", "221"}
		}
		sequences(alphabet(ids, []int64{7}), deep, func(ops []setOp) {
			ops = append([]setOp{}, ops...)
			g.Case(fmt.Sprintf("vertices/%s/%v", s.name, ops), func(t *T) { freshVertices(t, s, ops) })
		})
	}
	// whole proofs: equal amounts everywhere
	for _, s := range []shape{shallow(3, 2), shallow(3, 3), {"dense7", 7, 10, nil, "dense"}} {
		s := s
		run := g.Real
		if s.full != "" {
			run = g.Case
		}
		run("proofs/"+s.name, func(t *T) { wholeTwice(t, s) })
	}
	for _, n := range []int{2, 4} {
		n := n
		g.Real(fmt.Sprintf("parts/%d", n), func(t *T) {
			twice := func(what string, f func() interface{}, skip func(string) bool) {
				distinctElements(t, what, []string{"first", "second"}, []interface{}{f(), f()}, skip)
				t.Obs("%s ok", what)
				t.Outcome("proofs made twice")
			}
			no := func(string) bool { return false }
			twice("range proof", func() interface{} { return rangePart(n).proof }, no)
			twice("sum argument", func() interface{} { return sumPart(n, 0).proof }, func(p string) bool { return n == 1 })
			twice("aggregated sum argument", func() interface{} { return sumPart(n, 2).proof }, no)
			twice("batch of equalities", func() interface{} { return poePart(n+1, n).proof }, no)
			twice("equality", func() interface{} { return equalityPart(n+1, 0, 1%n).proof }, no)
		})
	}
}

func freshVertices(t *T, s shape, ops []setOp) {
	s.pp()
	all := func() (keys []string, bf []*big.Int, isNew []string) {
		db := NewDB()
		tr := verkle.NewVerkleTree(uint16(s.fanout), s.id2path, db)
		tr.PP = s.pp().PPPP
		known := map[string]*big.Int{}
		for _, o := range ops {
			tr.Put(o.id, o.v)
			for k, raw := range db.M {
				v := &verkle.Vertex{}
				v.FromBytes(raw)
				known[k] = Big(v.BlindingFactor)
			}
		}
		for k := range known {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			bf = append(bf, known[k])
		}
		return
	}
	env.Seed(t.Seed)
	keys, base, _ := all()
	draws := env.Draws()
	seen := map[string]string{}
	for i, b := range base {
		t.Eval()
		t.State("vertex", s.name, fmt.Sprint(ops), keys[i])
		if b.BitLen() < 128 {
			t.Fatalf("after %v the blinding factor of vertex %q is %v", ops, keys[i], b)
		}
		if o, ok := seen[b.String()]; ok {
			t.Fatalf("after %v vertices %q and %q have the same blinding factor", ops, o, keys[i])
		}
		seen[b.String()] = keys[i]
	}
	// a second tree with the same contents
	_, again, _ := all()
	for i, b := range again {
		if o, ok := seen[b.String()]; ok {
			t.Fatalf("after %v vertex %q of a second tree has the blinding factor of vertex %q of the first", ops, keys[i], o)
		}
	}
	if !env.Toy {
		return
	}
	env.Seed(t.Seed)
	_, same, _ := all()
	for i := range base {
		if same[i].Cmp(base[i]) != 0 {
			t.Skip("the tree has randomness of its own")
		}
	}
	sp := &basis{}
	rank := 0
	for k := uint64(0); k < draws; k++ {
		t.Step()
		env.Seed(t.Seed)
		var m []*big.Int
		withDraw(k, big.NewInt(int64(77+k)), func() { _, m, _ = all() })
		row := make(frow, len(base))
		for i := range base {
			row[i].SetBigInt(mod(new(big.Int).Sub(m[i], base[i])))
		}
		if sp.add(row) {
			rank++
		}
	}
	if rank < len(base) {
		t.Fatalf("after %v the %d vertices have only %d independent blinding factors", ops, len(base), rank)
	}
}

func mod(x *big.Int) *big.Int { return x.Mod(x, Order) }

func wholeTwice(t *T, s shape) {
	ids := []string{"00", "01", "10"}
	if s.depth == 3 {
		ids = []string{"000", "001", "110"}
	}
	if s.full != "" {
		ids = []string{"000000000", "000000001", "123456789"}
		s.id2path, _ = FullPP(s.fanout, true)
	}
	var ops []setOp
	for _, id := range ids {
		ops = append(ops, setOp{id, 42})
	}
	a, _, _ := build(s, ops)
	b, _, _ := build(s, ops)
	Va, Wa := a.Root()
	Vb, Wb := b.Root()
	t.Eval()
	if Va.Equals(Vb) || Wa.Equals(Wb) {
		t.Fatalf("two sets with the same liabilities have the same root")
	}
	var names []string
	var proofs []interface{}
	for k := 0; k < 2; k++ {
		for _, id := range ids {
			_, p, _, ok := a.ProveLiability(id)
			if !ok {
				t.Fatalf("no proof for %s", id)
			}
			names = append(names, fmt.Sprintf("proof %d of %s", k+1, id))
			proofs = append(proofs, &p)
		}
	}
	if _, p, _, ok := b.ProveLiability(ids[0]); ok {
		names, proofs = append(names, "proof in the second set"), append(proofs, &p)
	}
	distinctElements(t, s.name, names, proofs, deterministic)
	t.State("whole", s.name)
	t.Outcome("proofs made twice")
	t.Obs("proofs differ")
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
