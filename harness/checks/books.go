package checks

import (
	"encoding/asn1"
	"fmt"
	"math/big"

	. "mc/eng"
	"mc/env"
	. "mc/lib"

	"pol/common"
	"pol/pol"
	"pol/sparse"
	"pol/verkle"

	math "github.com/IBM/mathlib"
)

// A cooked book is a liability set whose database was rewritten by a dishonest
// provider: every vertex on one path is replaced by one that follows the
// broken rules and is otherwise consistent (commitments and digests are
// recomputed up to the root).  The proof is then made by the library itself.
type cooked struct {
	proof pol.LiabilityProof
	V, W  *math.G1
	tot   pol.TotalProof
	why   string // why there is no proof
}

// readRaw decodes a stored vertex.
func readRaw(b []byte) (r rawV, ok bool) {
	var rv verkle.RawVertex
	if rest, err := asn1.Unmarshal(b, &rv); err != nil || len(rest) != 0 {
		return
	}
	kvs := func(l []verkle.KV) map[uint16]*big.Int {
		m := map[uint16]*big.Int{}
		for _, kv := range l {
			if len(kv.K) != 2 {
				return nil
			}
			m[uint16(kv.K[0])<<8|uint16(kv.K[1])] = Big(C.NewZrFromBytes(kv.V))
		}
		return m
	}
	r = rawV{blind: Big(C.NewZrFromBytes(rv.BlindingFactor)), sum: Big(C.NewZrFromBytes(rv.Sum)), vals: kvs(rv.Values), digs: kvs(rv.Digests), V: rv.V, W: rv.W}
	return r, r.vals != nil && r.digs != nil
}

func at(m map[uint16]*big.Int, i int) *big.Int {
	if x := m[uint16(i)]; x != nil {
		return new(big.Int).Set(x)
	}
	return new(big.Int)
}

// cook keeps the books of ops, rewrites the path of id, and proves.
func cook(t *T, s shape, ppp *pol.PublicParams, ops []setOp, id string, knobs []knob) (c cooked) {
	has := func(kind string, level int) *knob {
		for i := range knobs {
			if knobs[i].kind == kind && knobs[i].level == level {
				return &knobs[i]
			}
		}
		return nil
	}
	db := NewDB()
	ls := pol.NewLiabilitySet(ppp, db, s.id2path)
	for _, o := range ops {
		ls.Set(o.id, o.v)
	}
	_, honest, _, ok := ls.ProveLiability(id)
	if !ok {
		t.Skip("no honest proof of " + id)
	}
	path := s.id2path(id)
	d := len(path)
	keys := make([]string, d)
	raws := make([]rawV, d)
	for k, b := range db.M {
		r, ok := readRaw(b)
		if !ok {
			t.Skip("the database does not hold vertices in the known form")
		}
		for i, V := range honest.V {
			if string(V.Bytes()) == string(r.V) {
				keys[i], raws[i] = k, r
			}
		}
	}
	N := s.fanout + 2
	var child *rawV
	for i := d - 1; i >= 0; i-- {
		r := raws[i]
		if r.blind == nil {
			t.Skip("a vertex on the path is not in the database")
		}
		on, off := int(path[i]), (int(path[i])+1)%s.fanout
		stop := false
		if child != nil {
			r.vals[uint16(on)] = new(big.Int).Set(child.sum)
			v := &verkle.Vertex{}
			v.FromBytes(child.encode(false))
			r.digs[uint16(on)] = Big(v.Digest())
		}
		if k := has("link", i); k != nil {
			r.vals[uint16(on)] = at(r.vals, on).Add(at(r.vals, on), k.delta)
		}
		if k := has("self", i); k != nil {
			r.vals[uint16(on)] = k.delta
		}
		if k := has("sibling", i); k != nil {
			r.vals[uint16(off)] = k.delta
		}
		if has("valueslot", i) != nil {
			r.vals[uint16(on)], r.vals[uint16(off)] = at(r.vals, off), at(r.vals, on)
		}
		if has("digestslot", i) != nil {
			r.digs[uint16(on)], r.digs[uint16(off)] = at(r.digs, off), at(r.digs, on)
		}
		if k := has("digest", i); k != nil {
			r.digs[uint16(on)] = at(r.digs, on).Add(at(r.digs, on), k.delta)
		}
		if k := has("stale-w", i); k != nil { // another digest commitment, behind the back of the layers above
			o := off
			if k.delta.Sign() < 0 {
				o = s.fanout // a slot without a child
			}
			r.digs[uint16(o)] = at(r.digs, o).Add(at(r.digs, o), bigTwo)
			stop = true
		}
		if k := has("stale-v", i); k != nil { // another value commitment, behind the back of the layers above
			r.blind = new(big.Int).Add(r.blind, bigOne)
			stop = true
		}
		if k := has("stale-amount", i); k != nil {
			r.vals[uint16(off)] = at(r.vals, off).Add(at(r.vals, off), k.delta)
			stop = true
		}
		r.sum = new(big.Int)
		for _, x := range r.vals {
			r.sum.Add(r.sum, x)
		}
		if k := has("sum", i); k != nil {
			r.sum.Add(r.sum, k.delta)
		}
		r.sum.Mod(r.sum, Order)
		vec := make([]*big.Int, N)
		dig := make([]*big.Int, N)
		for j := 0; j < N; j++ {
			vec[j], dig[j] = modn(at(r.vals, j)), modn(at(r.digs, j))
		}
		for j := range r.vals {
			r.vals[j] = modn(r.vals[j])
		}
		for j := range r.digs {
			r.digs[j] = modn(r.digs[j])
		}
		vec[s.fanout], vec[s.fanout+1] = r.sum, modn(r.blind)
		r.V = CommitRef(ppp.PPPP.G1s, vec).Bytes()
		if i < d-1 {
			r.W = CommitRef(ppp.PPPP.G1s, dig).Bytes()
		}
		ls.DB.Put([]byte(keys[i]), r.encode(false))
		if stop {
			break
		}
		child = &r
	}
	if p, _ := Try(func() {
		c.V, c.W = ls.Root()
		_, c.proof, _, ok = ls.ProveLiability(id)
	}); p != nil || !ok {
		c.why = fmt.Sprintf("refused: %v", p)
		return
	}
	if p, _ := Try(func() { c.tot = ls.ProveTot() }); p != nil {
		c.why = fmt.Sprintf("refused: %v", p)
	}
	return
}

var _ = common.IntToZr

type deep struct {
	s      shape
	ops    []setOp
	id     string
	layers []int
}

// longChain has a path of n layers, and neighbours that leave it at the layers
// that are looked at.
func longChain(n int, layers ...int) deep {
	id := ""
	for i := 0; i < n; i++ {
		id += string(Digits[i*i%3])
	}
	d := deep{shallow(3, n), []setOp{{id, 9}}, id, layers}
	for k, i := range layers {
		d.ops = append(d.ops, setOp{id[:i] + "2" + id[i+1:], int64(k + 1)})
	}
	return d
}

// books generates the cooked books with what a provider may gain from them.
func books(g *G, kinds map[string]bool) {
	bi := func(x int64) *big.Int { return big.NewInt(x) }
	p2 := func(k uint) *big.Int { return new(big.Int).Lsh(bi(1), k) }
	type base struct {
		s   shape
		ops []setOp
		ids []string
	}
	bases := []base{
		{shallow(3, 2), []setOp{{"00", 5}, {"01", 9}, {"12", 4}, {"10", 1}}, []string{"00", "12"}},
		{shallow(3, 3), []setOp{{"000", 5}, {"012", 9}, {"020", 4}, {"220", 4}, {"221", 7}}, []string{"012", "220"}},
		{shallow(3, 4), []setOp{{"0000", 5}, {"0120", 9}, {"0121", 1}, {"2201", 4}}, []string{"0120"}},
		{shallow(7, 2), []setOp{{"00", 5}, {"06", 9}, {"65", 4}}, []string{"06", "65"}},
	}
	if g.Thorough {
		bases = append(bases,
			base{shallow(3, 5), []setOp{{"00000", 5}, {"01201", 9}, {"01202", 1}, {"22010", 4}}, []string{"01201", "22010"}},
			base{shallow(7, 3), []setOp{{"000", 5}, {"061", 9}, {"605", 4}}, []string{"061"}},
			base{shallow(15, 2), []setOp{{"00", 5}, {"0e", 9}, {"e5", 4}}, []string{"0e"}})
	}
	// longer chains and wider vertices
	for _, b := range []deep{
		{shallow(3, 6), []setOp{{"000000", 5}, {"012021", 9}, {"012022", 1}, {"220100", 4}}, "012021", []int{0, 1, 2, 3, 4, 5}},
		{shallow(3, 10), []setOp{{"0000000000", 5}, {"2012021001", 9}, {"2012021000", 1}}, "2012021001", []int{0, 4, 7, 8, 9}},
		{shape{"dense7", 7, 11, sparse.DigitPath(7), "dense"}, []setOp{{"000000000", 5}, {"123456789", 9}, {"123456788", 3}}, "123456789", []int{0, 3, 4, 7, 8, 9, 10}},
		longChain(18, 1, 15, 16, 17),
		longChain(34, 0, 31, 32, 33),
		longChain(67, 0, 1, 63, 64, 65, 66),
		{shape{"f31d2", 31, 2, PathDot, ""}, []setOp{{"0.0", 5}, {"30.17", 9}, {"30.30", 9}, {"17.1", 2}}, "30.17", []int{0, 1}},
	} {
		b := b
		emit := func(knobs ...knob) {
			for _, k := range knobs {
				if !kinds[k.kind] {
					return
				}
			}
			g.Case(fmt.Sprintf("books/%s/%s/%v", b.s.name, b.id, knobs), func(t *T) { runBooks(t, b.s, b.ops, b.id, knobs) })
		}
		emit()
		for _, i := range b.layers {
			emit(knob{"sum", i, bi(1)})
			emit(knob{"sibling", i, bi(-1)})
			if i < b.s.depth-1 {
				emit(knob{"link", i, bi(-1)})
				emit(knob{"digest", i, bi(1)})
			}
			if i > 0 {
				emit(knob{"stale-v", i, bi(1)})
				emit(knob{"stale-amount", i, bi(1)})
				if i < b.s.depth-1 {
					emit(knob{"stale-w", i, bi(1)})
				}
			}
		}
	}
	for _, b := range bases {
		for n, id := range b.ids {
			b, id := b, id
			d := b.s.depth
			first := n == 0 && b.s.name == "f3d3"
			emit := func(real bool, knobs ...knob) {
				for _, k := range knobs {
					if !kinds[k.kind] {
						return
					}
				}
				name := fmt.Sprintf("books/%s/%s/%v", b.s.name, id, knobs)
				run := func(t *T) { runBooks(t, b.s, b.ops, id, knobs) }
				if real {
					g.Real(name, run)
				} else {
					g.Case(name, run)
				}
			}
			emit(first)
			for i := 0; i < d; i++ {
				for k, δ := range []*big.Int{bi(1), bi(-1), bi(-3), p2(62)} {
					real := first && k == 1
					neg := new(big.Int).Neg(δ)
					if i < d-1 {
						emit(real, knob{"link", i, δ})
						emit(false, knob{"digest", i, δ})
					}
					emit(real, knob{"sum", i, δ})
					if i > 0 {
						emit(false, knob{"stale-amount", i, δ})
					}
					for j := 0; j < d; j++ {
						if j == i {
							continue
						}
						emit(false, knob{"sum", i, δ}, knob{"sum", j, neg})
						if j < d-1 {
							emit(false, knob{"sum", i, δ}, knob{"link", j, neg})
							if i < j {
								emit(false, knob{"link", i, δ}, knob{"link", j, neg})
							}
						}
					}
				}
				if i < d-1 {
					for _, k := range []string{"digestslot", "valueslot"} {
						emit(false, knob{k, i, nil})
						for j := i + 1; j < d-1; j++ {
							emit(false, knob{k, i, nil}, knob{k, j, nil})
						}
					}
					emit(false, knob{"digestslot", i, nil}, knob{"valueslot", i, nil})
				}
				if i > 0 {
					emit(first, knob{"stale-v", i, bi(1)})
					if i < d-1 {
						emit(first, knob{"stale-w", i, bi(1)})
						emit(false, knob{"stale-w", i, bi(-1)})
					}
				}
				for _, x := range []*big.Int{bi(-1), bi(-3), new(big.Int).Neg(p2(32)), new(big.Int).Neg(p2(63)), p2(63), new(big.Int).Add(p2(63), bi(7)), p2(64), p2(127), new(big.Int).Rsh(Order, 1)} {
					emit(first && x.Int64() == -3, knob{"sibling", i, x})
					if i == d-1 {
						emit(false, knob{"self", i, x})
					}
				}
			}
		}
	}
}

func runBooks(t *T, s shape, ops []setOp, id string, knobs []knob) {
	ppp := s.pp()
	env.Seed(caseHash("books" + s.name + id))
	c := cook(t, s, ppp, ops, id, knobs)
	t.State("books", s.name, id, fmt.Sprint(knobs))
	t.Step()
	if c.why != "" && len(knobs) > 0 {
		t.Outcome("the library refuses to prove cooked books")
		t.Obs("refused")
		return
	}
	t.Eval()
	var err error
	pan, stack := Try(func() { _, err = c.proof.Verify(ppp, id, c.V, c.W, s.id2path) })
	if pan != nil {
		t.Fatalf("the verifier crashed: %v\n%s", pan, stack)
	}
	t.Obs("%v", err == nil)
	if len(knobs) == 0 {
		if err != nil || c.why != "" {
			t.Skip(fmt.Sprintf("rewriting the books honestly makes the proof fail: %v %s", err, c.why))
		}
		t.Outcome("rewritten books accepted")
		return
	}
	if err != nil {
		inParallel(func() { _, err = c.proof.Verify(ppp, id, c.V, c.W, s.id2path) })
	}
	if err == nil {
		t.Fatalf("accepted the library's own proof for %s (liability shown: %d, total %d) from books that break these rules: %v", id, c.proof.LiabilityProof.Sum, c.tot.Sum, knobs)
	}
	t.Outcome("cooked books rejected: " + firstWord(knobs))
}
