package checks

import (
	"fmt"
	"math/big"

	. "mc/eng"
	"mc/env"
	. "mc/lib"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pol"
	"pol/pp"
	"pol/sparse"
	"pol/sum"

	math "github.com/IBM/mathlib"
)

func init() {
	Register(&Check{
		ID: "C07", Level: "model_checking",
		Rule: "a dishonest provider builds a chain of commitments that breaks one of the tree's rules (a parent that books less than its child's sum, a sum that is not the sum, a negative or oversized amount, a parent that points at another child, " +
			"an opening of another slot, proofs that belong to other layers, additional layers, ...) and completes it with proofs made by the library itself as well as the broken data allows; the client must reject. " +
			"The same construction without a broken rule must be accepted. A state is distinct when shape and the set of broken rules differ",
		Bounds: "every rule broken at every layer by each of a family of amounts, and every pair of broken rules that offset each other, on depth-2, -3 and -4 trees with fanout 3 and a depth-2 tree with fanout 7, for first, middle and last slots; every rule at every layer and offsetting pairs in chains of up to 67 layers and vertices of up to 127 (thorough 255) slots",
		Assumptions: []string{"the dishonest prover follows the library's proving algorithms on inconsistent data (cheating inside the arguments is enumerated by C10-C14 and C19)",
			"group elements are represented by discrete logarithms (validated against BN254 on the listed traces)"},
		Gen: genC07,
	})
}

type knob struct {
	kind  string
	level int
	delta *big.Int
}

func (k knob) String() string {
	if k.delta == nil {
		return fmt.Sprintf("%s@%d", k.kind, k.level)
	}
	return fmt.Sprintf("%s@%d%+d", k.kind, k.level, k.delta)
}

type flayer struct {
	vals    []*big.Int
	sum     *big.Int
	blind   *big.Int
	digests []*big.Int
	V, W    *math.G1
	index   int // slot on the path
}

// full is the committed vector.
func (f *flayer) full() common.Vec {
	var r common.Vec
	for _, v := range f.vals {
		r = append(r, ZrBig(v))
	}
	return append(r, ZrBig(f.sum), ZrBig(f.blind))
}

func (f *flayer) hash() *big.Int {
	if f.W == nil {
		return HashRef(f.V.Bytes())
	}
	return HashRef(f.V.Bytes(), f.W.Bytes())
}

func rnd() *big.Int { return Big(common.RandVec(1)[0]) }

// forge builds the chain and its proof.
func forge(s shape, ppp *pol.PublicParams, path []uint16, liability int64, knobs []knob) (*pol.LiabilityProof, *math.G1, *math.G1) {
	has := func(kind string, level int) *knob {
		for i := range knobs {
			if knobs[i].kind == kind && knobs[i].level == level {
				return &knobs[i]
			}
		}
		return nil
	}
	N := s.fanout + 2
	d := len(path)
	layers := make([]*flayer, d)
	for i := d - 1; i >= 0; i-- {
		f := &flayer{blind: rnd(), index: int(path[i])}
		f.vals = make([]*big.Int, s.fanout)
		f.digests = make([]*big.Int, N)
		for j := range f.digests {
			f.digests[j] = new(big.Int)
		}
		for j := range f.vals {
			f.vals[j] = big.NewInt(int64(3 + j + 10*i))
			if i < d-1 {
				f.digests[j] = rnd()
			}
		}
		if i == d-1 {
			f.vals[path[i]] = big.NewInt(liability)
		} else {
			child := layers[i+1]
			f.vals[path[i]] = new(big.Int).Set(child.sum)
			f.digests[path[i]] = child.hash()
		}
		if k := has("link", i); k != nil { // the parent books another amount than its child's sum
			f.vals[path[i]].Add(f.vals[path[i]], k.delta)
		}
		if k := has("sibling", i); k != nil { // another child is given an amount outside of the range
			f.vals[(int(path[i])+1)%s.fanout] = new(big.Int).Set(k.delta)
		}
		if k := has("self", i); k != nil {
			f.vals[path[i]] = new(big.Int).Set(k.delta)
		}
		f.sum = new(big.Int)
		for _, v := range f.vals {
			f.sum.Add(f.sum, v)
		}
		f.sum.Mod(f.sum, Order)
		if k := has("sum", i); k != nil { // the committed sum is not the sum
			f.sum.Add(f.sum, k.delta)
		}
		if k := has("digest", i); k != nil { // the parent points at something else
			f.digests[path[i]].Add(f.digests[path[i]], k.delta)
		}
		if k := has("digestslot", i); k != nil { // the child hangs below another slot
			o := (int(path[i]) + 1) % s.fanout
			f.digests[path[i]], f.digests[o] = f.digests[o], f.digests[path[i]]
		}
		if k := has("valueslot", i); k != nil { // the amount is booked in another slot
			o := (int(path[i]) + 1) % s.fanout
			f.vals[path[i]], f.vals[o] = f.vals[o], f.vals[path[i]]
		}
		ref := append(append([]*big.Int{}, f.vals...), f.sum, f.blind)
		f.V = CommitRef(ppp.PPPP.G1s, modAll(ref))
		if i < d-1 {
			f.W = CommitRef(ppp.PPPP.G1s, modAll(f.digests))
		}
		layers[i] = f
	}

	p := &pol.LiabilityProof{}
	var openings common.G1v
	var rands common.Vec
	var vecs []common.Vec
	eq := &poe.Equalities{PP: ppp.POEPP, RO: poe.RO}
	var vEQ, wEQ []common.Vec
	for i, f := range layers {
		p.V = append(p.V, f.V)
		full := f.full()
		n := len(full) - 1
		vecs = append(vecs, full[:n])
		rands = append(rands, ZrBig(f.blind))
		// a range proof about the low 63 bits of whatever is committed
		low := make(common.Vec, n)
		for j := range low {
			low[j] = ZrBig(new(big.Int).And(Big(full[j]), big.NewInt(1<<63-1)))
		}
		if k := has("rangewitness", i); k != nil {
			low[(f.index+1)%s.fanout] = ZrBig(k.delta)
		}
		p.RangeProofs = append(p.RangeProofs, bp.ProveRange(ppp.RPPP, f.V, low, ZrBig(f.blind)))
		if i == d-1 {
			dg := new(big.Int)
			p.Digests = append(p.Digests, ZrBig(dg))
			continue
		}
		p.W = append(p.W, f.W)
		dv := make(common.Vec, N)
		for j := range dv {
			dv[j] = ZrBig(f.digests[j])
		}
		at := f.index
		if has("openslot", i) != nil {
			at = (f.index + 1) % s.fanout
		}
		dig, π := pp.Open(ppp.PPPP, at, dv)
		openings = append(openings, π)
		switch {
		case has("claimdigest", i) != nil: // shows the expected digest, whatever is committed
			dig = ZrBig(layers[i+1].hash())
		}
		p.Digests = append(p.Digests, dig)

		child := layers[i+1]
		I, J := f.index, s.fanout
		if has("eqslotI", i) != nil {
			I = (f.index + 1) % s.fanout
		}
		if has("eqslotJ", i) != nil {
			J = child.index
		}
		eq.I, eq.J = append(eq.I, I), append(eq.J, J)
		eq.V, eq.W = append(eq.V, f.V), append(eq.W, child.V)
		fv, cv := f.full(), child.full()
		if k := has("eqwitness", i); k != nil { // the prover claims to know that both are equal
			cv[J] = fv[I]
		}
		if k := has("eqwitness2", i); k != nil {
			fv[I] = cv[J]
		}
		vEQ, wEQ = append(vEQ, fv), append(wEQ, cv)
	}
	last := layers[d-1]
	at := last.index
	if has("leafslot", d-1) != nil {
		at = (last.index + 1) % s.fanout
	}
	lf := last.full()
	if has("leafsum", d-1) != nil {
		at = s.fanout
	}
	_, lπ := pp.Open(ppp.PPPP, at, lf)
	claim := Big(lf[at]).Int64()
	if k := has("claim", d-1); k != nil {
		claim += k.delta.Int64()
	}
	p.LiabilityProof = pol.TotalProof{LiabilityProof: lπ, Sum: int(claim)}

	exps := make(common.Vec, len(p.W))
	for i := range p.W {
		exps[i] = pp.RO(ppp.PPPP, p.W, i)
	}
	p.PointProofπ = pp.Aggregate(ppp.PPPP, p.W, openings, pp.RO)
	committed := make(common.Vec, len(p.W))
	for i := range committed {
		committed[i] = ZrBig(layers[i].digests[layers[i].index])
	}
	p.PointProofΣ = p.Digests[:len(exps)].InnerProd(exps)
	if has("sigma", 0) != nil { // the aggregate opens what is committed, not what is shown
		p.PointProofΣ = committed.InnerProd(exps)
	}
	p.SumArgumentProof = sum.NewAggregatedArgument(ppp.SAPP, p.V, vecs, rands)

	zero := make(common.Vec, N)
	zero.Zero()
	zc := pp.Commit(ppp.PPPP, zero)
	for !common.IsPowerOfTwo(uint16(len(vEQ))) {
		vEQ, wEQ = append(vEQ, zero), append(wEQ, zero)
		eq.I, eq.J = append(eq.I, 0), append(eq.J, 0)
		eq.V, eq.W = append(eq.V, zc), append(eq.W, zc)
	}
	p.EqualityProof = eq.Prove(vEQ, wEQ)

	for i := range layers {
		for j := range layers {
			if has(fmt.Sprintf("rangefrom%d", j), i) != nil {
				p.RangeProofs[i] = p.RangeProofs[j]
			}
		}
	}
	if has("extra", 0) != nil {
		// a further commitment below the leaf layer, and the liability opened there
		x := &flayer{blind: rnd(), index: last.index}
		for j := 0; j < s.fanout; j++ {
			x.vals = append(x.vals, big.NewInt(int64(j)))
		}
		x.vals[x.index] = big.NewInt(liability + 1000)
		x.sum = new(big.Int)
		for _, v := range x.vals {
			x.sum.Add(x.sum, v)
		}
		x.V = CommitRef(ppp.PPPP.G1s, append(append([]*big.Int{}, x.vals...), x.sum, x.blind))
		p.V = append(p.V, x.V)
		xf := x.full()
		vecs, rands = append(vecs, xf[:len(xf)-1]), append(rands, ZrBig(x.blind))
		p.SumArgumentProof = sum.NewAggregatedArgument(ppp.SAPP, p.V, vecs, rands)
		_, π := pp.Open(ppp.PPPP, x.index, xf)
		p.LiabilityProof = pol.TotalProof{LiabilityProof: π, Sum: int(liability + 1000)}
		if has("extra", 0).delta.Sign() > 0 {
			p.RangeProofs = append(p.RangeProofs, bp.ProveRange(ppp.RPPP, x.V, xf[:len(xf)-1], ZrBig(x.blind)))
		}
		if has("extra", 0).delta.Int64() > 1 {
			p.Digests = append(p.Digests, ZrBig(x.hash()))
		}
	}
	if has("fewer", 0) != nil {
		// the path ends one layer early: the parent's booking is shown as the liability
		q := layers[d-2]
		p.V = p.V[:d-1]
		p.RangeProofs = p.RangeProofs[:d-1]
		_, π := pp.Open(ppp.PPPP, int(path[d-1]), q.full())
		p.LiabilityProof = pol.TotalProof{LiabilityProof: π, Sum: int(q.vals[path[d-1]].Int64())}
	}
	return p, layers[0].V, layers[0].W
}

func modAll(v []*big.Int) []*big.Int {
	r := make([]*big.Int, len(v))
	for i := range v {
		r[i] = new(big.Int).Mod(v[i], Order)
	}
	return r
}

var forgerOK = map[string]bool{}

func genC07(g *G) {
	deepC07(g)
	type base struct {
		s     shape
		paths []string
	}
	bases := []base{
		{shallow(3, 2), []string{"00", "12", "21", "22"}},
		{shallow(3, 3), []string{"000", "121", "222"}},
		{shallow(3, 4), []string{"0120"}},
		{shallow(7, 2), []string{"36", "63"}},
	}
	if g.Thorough {
		bases[0].paths = shallow(3, 2).ids()
		bases[1].paths = shallow(3, 3).ids()
		bases[2].paths = append(bases[2].paths, "2221", "0000")
		bases = append(bases, base{shallow(3, 5), []string{"01201"}}, base{shallow(15, 2), []string{"e0"}})
	}
	books(g, map[string]bool{"link": true, "self": true, "sibling": true, "valueslot": true, "digestslot": true, "digest": true, "stale-w": true, "stale-v": true, "stale-amount": true, "sum": true})
	bi := func(x int64) *big.Int { return big.NewInt(x) }
	p2 := func(k uint) *big.Int { return new(big.Int).Lsh(bi(1), k) }
	for _, b := range bases {
		for _, id := range b.paths {
			b, id := b, id
			d := b.s.depth
			path := Path(id)
			emit := func(real bool, knobs ...knob) {
				name := fmt.Sprintf("%s/%s/%v", b.s.name, id, knobs)
				run := func(t *T) { runC07(t, b.s, id, path, knobs) }
				if real {
					g.Real(name, run)
				} else {
					g.Case(name, run)
				}
			}
			first := id == b.paths[0]
			// no rule broken
			emit(b.s.name == "f3d2" && first)
			deltas := []*big.Int{bi(1), bi(-1), bi(-5), bi(1000), p2(32), p2(62)}
			for i := 0; i < d; i++ {
				for k, δ := range deltas {
					if i < d-1 {
						emit(b.s.name == "f3d2" && first && k == 1, knob{"link", i, δ})
						emit(false, knob{"link", i, δ}, knob{"eqwitness", i, nil})
						emit(false, knob{"link", i, δ}, knob{"eqwitness2", i, nil})
						emit(false, knob{"digest", i, δ})
						emit(false, knob{"digest", i, δ}, knob{"claimdigest", i, nil})
						emit(false, knob{"digest", i, δ}, knob{"claimdigest", i, nil}, knob{"sigma", 0, nil})
					}
					emit(b.s.name == "f3d2" && first && k == 1, knob{"sum", i, δ})
					for j := 0; j < d; j++ {
						if j != i {
							emit(false, knob{"sum", i, δ}, knob{"sum", j, new(big.Int).Neg(δ)})
							if j < d-1 {
								// the parent takes back what the child's sum added
								emit(false, knob{"sum", i, δ}, knob{"link", j, new(big.Int).Neg(δ)})
							}
							if i < d-1 && j < d-1 && i < j {
								emit(false, knob{"link", i, δ}, knob{"link", j, new(big.Int).Neg(δ)})
								emit(false, knob{"digest", i, δ}, knob{"digest", j, new(big.Int).Neg(δ)}, knob{"claimdigest", i, nil}, knob{"claimdigest", j, nil})
							}
						}
					}
				}
				if i < d-1 {
					for _, k := range []string{"digestslot", "valueslot", "openslot", "eqslotI", "eqslotJ"} {
						emit(false, knob{k, i, nil})
						emit(false, knob{k, i, nil}, knob{"claimdigest", i, nil})
						emit(false, knob{k, i, nil}, knob{"claimdigest", i, nil}, knob{"sigma", 0, nil})
						emit(false, knob{k, i, nil}, knob{"eqwitness", i, nil})
					}
					emit(false, knob{"digestslot", i, nil}, knob{"openslot", i, nil})
					emit(false, knob{"valueslot", i, nil}, knob{"eqslotI", i, nil})
				}
				// amounts outside of the range, in a slot beside the path: negative, 2^63 and above
				for _, x := range []*big.Int{bi(-1), bi(-3), new(big.Int).Neg(p2(32)), new(big.Int).Neg(p2(63)), p2(63), new(big.Int).Add(p2(63), bi(7)), p2(64), p2(127), p2(200), new(big.Int).Rsh(Order, 1)} {
					emit(b.s.name == "f3d2" && first && i == 1 && x.Int64() == -3, knob{"sibling", i, x})
					emit(false, knob{"sibling", i, x}, knob{"rangewitness", i, bi(0)})
					emit(false, knob{"sibling", i, x}, knob{"rangewitness", i, bi(1<<63 - 1)})
					if i == d-1 {
						emit(false, knob{"self", i, x})
					}
				}
				// the proof is about other numbers than the commitment
				for _, x := range []*big.Int{bi(0), bi(1), bi(1<<63 - 1)} {
					emit(false, knob{"rangewitness", i, x})
				}
				for j := 0; j < d; j++ {
					if i != j {
						emit(false, knob{fmt.Sprintf("rangefrom%d", j), i, nil})
					}
				}
			}
			for _, δ := range []*big.Int{bi(1), bi(-1), bi(1 << 40)} {
				emit(false, knob{"claim", d - 1, δ})
			}
			emit(false, knob{"leafslot", d - 1, nil})
			emit(false, knob{"leafsum", d - 1, nil})
			for x := int64(0); x < 3; x++ {
				emit(false, knob{"extra", 0, bi(x)})
			}
			emit(false, knob{"fewer", 0, nil})
		}
	}
}

// deepC07 breaks one rule, or two that offset each other in layers at every
// distance, in chains that are longer or vertices that are wider than those
// all combinations are tried on.
func deepC07(g *G) {
	type base struct {
		s      shape
		id     string
		layers []int // where rules are broken
		core   bool  // the basic ways only
	}
	upTo := func(d int) (r []int) {
		for i := 0; i < d; i++ {
			r = append(r, i)
		}
		return
	}
	dot := func(f, d int) shape { return shape{fmt.Sprintf("f%dd%d", f, d), f, d, PathDot, ""} }
	bases := []base{
		{shallow(3, 6), "012021", upTo(6), false},
		{shallow(3, 10), "2012021001", []int{0, 4, 7, 8, 9}, !g.Thorough},
		{shape{"dense7", 7, 11, sparse.DigitPath(7), "dense"}, "123456789", upTo(11), !g.Thorough},
		{shallow(15, 3), "e07", upTo(3), false},
		{dot(31, 2), "30.17", upTo(2), !g.Thorough},
		{dot(127, 2), "126.0", upTo(2), true},
		{shallow(3, 34), longChain(34).id, []int{0, 15, 16, 31, 32, 33}, true},
		{shallow(3, 67), longChain(67).id, []int{0, 31, 32, 63, 64, 65, 66}, true},
	}
	if g.Thorough {
		bases = append(bases,
			base{shallow(3, 18), "201202100120120210", upTo(18), true},
			base{shape{"dense15", 15, 8, sparse.DigitPath(15), "dense"}, "123456789", upTo(8), false},
			base{shape{"dense31", 31, 7, sparse.DigitPath(31), "dense"}, "123456789", upTo(7), false},
			base{dot(63, 3), "62.0.31", upTo(3), false},
			base{dot(255, 2), "254.0", upTo(2), true},
			base{shape{"hex31", 31, 52, sparse.HexId2PathForFanOut(31), "hex"}, hexA, []int{0, 1, 7, 8, 15, 16, 31, 32, 33, 49, 50, 51}, true})
	}
	one := big.NewInt(1)
	minus := big.NewInt(-1)
	for _, b := range bases {
		b := b
		path := b.s.id2path(b.id)
		d := len(path)
		emit := func(knobs ...knob) {
			g.Case(fmt.Sprintf("deep/%s/%v", b.s.name, knobs), func(t *T) { runC07(t, b.s, b.id, path, knobs) })
		}
		emit()
		for _, i := range b.layers {
			emit(knob{"sum", i, one})
			emit(knob{"sibling", i, minus})
			if i < d-1 {
				emit(knob{"link", i, minus})
				emit(knob{"digest", i, one}, knob{"claimdigest", i, nil}, knob{"sigma", 0, nil})
			}
			if b.core {
				continue
			}
			emit(knob{"sibling", i, minus}, knob{"rangewitness", i, new(big.Int)})
			emit(knob{"rangewitness", i, one})
			emit(knob{fmt.Sprintf("rangefrom%d", (i+1)%d), i, nil})
			if i == d-1 {
				emit(knob{"self", i, minus})
				continue
			}
			emit(knob{"link", i, one}, knob{"eqwitness", i, nil})
			emit(knob{"link", i, one}, knob{"eqwitness2", i, nil})
			emit(knob{"digest", i, one})
			emit(knob{"digest", i, one}, knob{"claimdigest", i, nil})
			for _, k := range []string{"digestslot", "valueslot", "openslot", "eqslotI", "eqslotJ"} {
				emit(knob{k, i, nil})
				emit(knob{k, i, nil}, knob{"claimdigest", i, nil})
				emit(knob{k, i, nil}, knob{"eqwitness", i, nil})
			}
			for _, j := range b.layers {
				if i < j && j < d-1 {
					emit(knob{"link", i, one}, knob{"link", j, minus})
					emit(knob{"digest", i, one}, knob{"digest", j, minus}, knob{"claimdigest", i, nil}, knob{"claimdigest", j, nil})
				}
				if i < j {
					emit(knob{"sum", i, one}, knob{"sum", j, minus})
				}
				if j != i && j < d-1 {
					emit(knob{"sum", i, one}, knob{"link", j, minus})
				}
			}
		}
		emit(knob{"claim", d - 1, one})
		if b.core {
			continue
		}
		emit(knob{"leafslot", d - 1, nil})
		emit(knob{"leafsum", d - 1, nil})
		emit(knob{"extra", 0, one})
		emit(knob{"fewer", 0, nil})
	}
}

func runC07(t *T, s shape, id string, path []uint16, knobs []knob) {
	ppp := s.pp()
	if !forgerOK[s.name] {
		env.Seed(7)
		p, V, W := forge(s, ppp, path, 41, nil)
		if _, err := p.Verify(ppp, id, V, W, s.id2path); err != nil {
			t.Skip(fmt.Sprintf("the construction itself is rejected on %s: %v", s.name, err))
		}
		forgerOK[s.name] = true
		env.Seed(t.Seed)
	}
	var p *pol.LiabilityProof
	var V, W *math.G1
	if pan, _ := Try(func() { p, V, W = forge(s, ppp, path, 41, knobs) }); pan != nil {
		t.Outcome("the library refuses to prove: " + firstWord(knobs))
		t.State(s.name, id, fmt.Sprint(knobs))
		t.Obs("refused")
		return
	}
	t.Eval()
	t.Step()
	var err error
	pan, stack := Try(func() { _, err = p.Verify(ppp, id, V, W, s.id2path) })
	if pan != nil {
		t.Fatalf("the verifier crashed: %v\n%s", pan, stack)
	}
	t.Obs("%v", err == nil)
	t.State(s.name, id, fmt.Sprint(knobs))
	if len(knobs) == 0 {
		if err != nil {
			t.Skip("the construction itself is rejected")
		}
		t.Outcome("honest chain accepted")
		return
	}
	if err != nil && s.depth*s.fanout <= 24 {
		inParallel(func() { _, err = p.Verify(ppp, id, V, W, s.id2path) })
	}
	if err == nil {
		t.Fatalf("accepted a forged proof for %s (liability shown: %d), broken rules: %v", id, p.LiabilityProof.Sum, knobs)
	}
	t.Outcome("rejected: " + firstWord(knobs))
}

func firstWord(k []knob) string { return k[0].kind }
