package checks

import (
	"fmt"
	"math/big"

	. "mc/eng"
	. "mc/lib"

	"pol/pol"
	"pol/sparse"

	math "github.com/IBM/mathlib"
)

// shape is a tree in which proofs are made and verified.
type shape struct {
	name    string
	fanout  int
	depth   int // length of a path
	id2path func(string) []uint16
	full    string // "", "dense", "hex"
}

func (s shape) pp() *pol.PublicParams {
	switch s.full {
	case "dense":
		_, p := FullPP(s.fanout, true)
		return p
	case "hex":
		_, p := FullPP(s.fanout, false)
		return p
	}
	return MiniPP(s.fanout, M(s.depth))
}

func shallow(fanout, depth int) shape {
	return shape{fmt.Sprintf("f%dd%d", fanout, depth), fanout, depth, Path, ""}
}

// ids lists the ids of a shallow shape.
func (s shape) ids() []string {
	r := []string{""}
	for i := 0; i < s.depth; i++ {
		var n []string
		for _, p := range r {
			for d := 0; d < s.fanout; d++ {
				n = append(n, p+string(Digits[d]))
			}
		}
		r = n
	}
	return r
}

func build(s shape, ops []setOp) (*pol.LiabilitySet, Ledger, *DB) {
	db := NewDB()
	ls := pol.NewLiabilitySet(s.pp(), db, s.id2path)
	l := Ledger{}
	for _, o := range ops {
		ls.Set(o.id, o.v)
		l[o.id] = o.v
	}
	return ls, l, db
}

// proveAll proves and verifies every id of the ledger, and the total.
func proveAll(t *T, s shape, ls *pol.LiabilitySet, l Ledger, absent []string) {
	pp := s.pp()
	V, W := ls.Root()
	if V == nil || W == nil {
		if s.depth > 1 {
			t.Fatalf("a set holding %s has no root", l)
		}
	}
	for k, id := range l.IDs() {
		want := l[id]
		got, proof, _, ok := ls.ProveLiability(id)
		t.Eval()
		t.Step()
		if !ok || got != want || int64(proof.LiabilityProof.Sum) != want {
			t.Fatalf("ProveLiability(%s) = %d,%v with a proof of %d; the ledger %s says %d", id, got, ok, proof.LiabilityProof.Sum, l, want)
		}
		_, err := proof.Verify(pp, id, V, W, s.id2path)
		t.Obs("%s %d %v", id, got, err)
		if err != nil {
			t.Fatalf("ledger %s: the proof of %s is rejected: %v", l, id, err)
		}
		if k == len(l)-1 {
			inParallel(func() {
				t.Eval()
				got, proof, _, ok := ls.ProveLiability(id)
				if !ok || got != want {
					t.Fatalf("ProveLiability(%s) = %d,%v in parallel; the ledger %s says %d", id, got, ok, l, want)
				}
				if _, err := proof.Verify(pp, id, V, W, s.id2path); err != nil {
					t.Fatalf("ledger %s: the proof of %s, made and verified in parallel, is rejected: %v", l, id, err)
				}
			})
		}
	}
	for _, id := range absent {
		if _, have := l[id]; have {
			continue
		}
		t.Eval()
		got, _, _, ok := ls.ProveLiability(id)
		t.Obs("%s absent %v", id, ok)
		if ok || got != 0 {
			t.Fatalf("ledger %s: a liability of %d was proved for the absent id %s", l, got, id)
		}
	}
	tot := ls.ProveTot()
	t.Eval()
	if l.Sum().Cmp(big.NewInt(int64(tot.Sum))) != 0 {
		t.Fatalf("ProveTot says %d, the ledger %s sums to %s", tot.Sum, l, l.Sum())
	}
	if err := tot.Verify(pp, V); err != nil {
		t.Fatalf("ledger %s: the total proof is rejected: %v", l, err)
	}
	t.Obs("total %d", tot.Sum)
}

const maxL = int64(1<<63 - 1)

func init() {
	Register(&Check{
		ID: "C03", Level: "model_checking",
		Rule: "histories of Set operations, then every id of the ledger is proved and verified against the current root, and every other listed id must have no proof; " +
			"a state is distinct when tree shape and ledger differ",
		Bounds: "all sequences of up to 3 (quick) / 4 (thorough) operations on depths 2-5 and fanouts 3,7; every single id of the depth-2 trees with fanout 3,7,15 and the depth-3 tree with fanout 3; " +
			"amounts 0, 1, 2^32, 2^62, 2^63-1; the real dense (3, 7, 15) and hex (7, 31) trees (thorough: up to fanout 255); vertices of up to 511 slots; repeated words and passes over all ids; proofs made and verified with and without parallelism",
		Assumptions: []string{"liabilities and sums below 2^63", "path length at least 2", "group elements are represented by discrete logarithms (validated against BN254 on the listed traces)"},
		Gen:         genC03,
	})
	Register(&Check{
		ID: "C04", Level: "model_checking",
		Rule: "for every history, the total proof is verified with the true sum and with every candidate sum of a family around it (neighbours, negations, single bit flips, partial sums), with altered proof elements and other roots; " +
			"only the true sum under the current root may be accepted",
		Bounds:      "all sequences of up to 3 (quick) / 4 (thorough) operations over 3 ids x 4 amounts, fanouts 3,7,15; about 150 candidate sums per ledger",
		Assumptions: []string{"sums below 2^63", "group elements are represented by discrete logarithms (validated against BN254 on the listed traces)"},
		Gen:         genC04,
	})
	Register(&Check{
		ID: "C05", Level: "model_checking",
		Rule: "every interleaving of writes and reads (Set, Root, ProveTot, ProveLiability, Get, Serialize-free) up to a length; after every operation the published root must be the one recomputed from the ledger, " +
			"new proofs must verify under it, and every proof obtained under an older, different root must be rejected",
		Bounds:      "all sequences up to length 4 (quick) / 5 (thorough) over 4 writes and 4 kinds of read on a depth-2 fanout-3 tree; up to length 3 on a depth-3 tree and on a database that keeps the caller's slices; repeated words and passes over all ids (50-150 updates) and histories of 9 000-66 000 updates (thorough 30 000 of as many ids), with the root read after each",
		Assumptions: []string{"one goroutine uses a set at a time", "group elements are represented by discrete logarithms (validated against BN254 on the listed traces)"},
		Gen:         genC05,
	})
}

func genC03(g *G) {
	longC03(g)
	deep := func(n int) int {
		if g.Thorough {
			return n + 1
		}
		return n
	}
	// histories
	type hist struct {
		s      shape
		ids    []string
		vals   []int64
		absent []string
		depth  int
	}
	for _, h := range []hist{
		{shallow(3, 2), []string{"00", "01", "12"}, []int64{5, 0, 1 << 61}, []string{"02", "10", "22"}, deep(3)},
		{shallow(3, 3), []string{"000", "012", "220"}, []int64{9, 0}, []string{"001", "221", "100"}, deep(3)},
		{shallow(3, 4), []string{"0000", "2222"}, []int64{9, 0}, []string{"0001", "2221", "1000"}, deep(2)},
		{shallow(3, 5), []string{"00000", "20112"}, []int64{9, 4}, []string{"00001"}, deep(2)},
		{shallow(7, 2), []string{"00", "06", "65"}, []int64{9, 0}, []string{"66", "01"}, deep(2)},
		{shallow(7, 3), []string{"006", "660"}, []int64{9, 4}, []string{"666", "061"}, deep(2)},
	} {
		h := h
		sequences(alphabet(h.ids, h.vals), h.depth, func(ops []setOp) {
			run := func(t *T) {
				ls, l, _ := build(h.s, ops)
				proveAll(t, h.s, ls, l, append(append([]string{}, h.ids...), h.absent...))
				t.State(h.s.name, l)
				t.Outcome(fmt.Sprintf("%d ids", len(l)))
			}
			id := fmt.Sprintf("hist/%s/%v", h.s.name, ops)
			if h.s.name == "f3d3" && len(ops) == 2 && ops[0].id == h.ids[0] && ops[1].id == h.ids[1] {
				g.Real(id, run)
			} else {
				g.Case(id, run)
			}
		})
	}
	// every position
	for _, s := range []shape{shallow(3, 2), shallow(7, 2), shallow(15, 2), shallow(3, 3)} {
		s := s
		all := s.ids()
		for i, id := range all {
			i, id := i, id
			g.Case(fmt.Sprintf("pos/%s/%s", s.name, id), func(t *T) {
				ops := []setOp{{id, 7}}
				other := all[(i+1)%len(all)]
				far := all[(i+len(all)/2)%len(all)]
				if !g.Thorough && s.fanout == 15 {
					ls, l, _ := build(s, append(ops, setOp{far, 5}))
					_ = l
					V, W := ls.Root()
					_, p, _, ok := ls.ProveLiability(id)
					t.Eval()
					if !ok {
						t.Fatalf("no proof for %s", id)
					}
					if _, err := p.Verify(s.pp(), id, V, W, s.id2path); err != nil {
						t.Fatalf("the proof of %s is rejected: %v", id, err)
					}
				} else {
					ls, l, _ := build(s, append(ops, setOp{other, 0}, setOp{far, 5}))
					proveAll(t, s, ls, l, nil)
				}
				t.State("pos", s.name, id)
			})
		}
	}
	// full layers
	for _, s := range []shape{shallow(3, 2), shallow(7, 2)} {
		s := s
		g.Case("full/"+s.name, func(t *T) {
			var ops []setOp
			for i, id := range s.ids() {
				ops = append(ops, setOp{id, int64(i * i)})
			}
			ls, l, _ := build(s, ops)
			proveAll(t, s, ls, l, nil)
			t.State("full", s.name)
		})
	}
	// amounts
	edge := []int64{0, 1, 2, 3, 1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 1, 1<<53 + 1, 1<<62 - 1, 1 << 62, maxL - 1, maxL}
	for k := uint(0); k < 63; k++ {
		edge = append(edge, int64(1)<<k)
	}
	for _, v := range edge {
		v := v
		g.Case(fmt.Sprintf("amount/%d", v), func(t *T) {
			s := shallow(3, 2)
			ops := []setOp{{"01", v}, {"20", 0}}
			if v <= maxL-3 {
				ops[1].v = 3
			}
			ls, l, _ := build(s, ops)
			proveAll(t, s, ls, l, []string{"00"})
			// and down again
			ls.Set("01", 1)
			l["01"] = 1
			proveAll(t, s, ls, l, []string{"00"})
			t.State("amount", v)
		})
	}
	// wide vertices: slots that need more than seven or eight bits
	wide := []struct {
		f   int
		ids []string
	}{
		{31, []string{"30.30", "0.17", "16.15"}},
		{63, []string{"62.62", "0.33"}},
		{127, []string{"126.126", "64.63"}},
		{255, []string{"254.128"}},
		{511, []string{"510.256"}},
		{1023, []string{"1022.512"}},
	}
	if g.Thorough {
		wide = append(wide, wide[3], wide[4], wide[4])
		wide[5].ids, wide[6].ids, wide[7].ids = []string{"0.0", "127.254", "128.127"}, []string{"0.0", "255.128"}, []string{"257.510", "256.255"}
	}
	for _, w := range wide {
		for _, id := range w.ids {
			s, id := shape{fmt.Sprintf("f%dd2", w.f), w.f, 2, PathDot, ""}, id
			g.Case("wide/"+s.name+"/"+id, func(t *T) {
				p := PathDot(id)
				beside := fmt.Sprintf("%d.%d", p[0], (int(p[1])+1)%s.fanout)
				ls, l, _ := build(s, []setOp{{"0.1", 1}, {id, 5}, {beside, 1 << 40}, {fmt.Sprintf("%d.1", s.fanout-1), 3}, {id, 9}})
				few := Ledger{id: l[id]}
				if s.fanout < 127 {
					few[beside] = l[beside]
				}
				V, W := ls.Root()
				for id, want := range few {
					got, proof, _, ok := ls.ProveLiability(id)
					t.Eval()
					if !ok || got != want {
						t.Fatalf("ProveLiability(%s)=%d,%v instead of %d", id, got, ok, want)
					}
					if _, err := proof.Verify(s.pp(), id, V, W, s.id2path); err != nil {
						t.Fatalf("the proof of %s is rejected: %v", id, err)
					}
				}
				tot := ls.ProveTot()
				t.Eval()
				if err := tot.Verify(s.pp(), V); err != nil || int64(tot.Sum) != l.Sum().Int64() {
					t.Fatalf("the total %d of a ledger of %s: %v", tot.Sum, l.Sum(), err)
				}
				if _, _, _, ok := ls.ProveLiability(fmt.Sprintf("%d.%d", p[0], (int(p[1])+7)%s.fanout)); ok {
					t.Fatalf("an absent id was proved")
				}
				t.State("wide", s.name, id)
			})
		}
	}
	// the real trees
	type rt struct {
		s      shape
		ids    []string
		absent []string
	}
	rts := []rt{
		{shape{"dense7", 7, 11, sparse.DigitPath(7), "dense"}, []string{"000000000", "999999999", "000000007"}, []string{"000000001"}},
		{shape{"dense15", 15, 8, sparse.DigitPath(15), "dense"}, []string{"000000000", "123456789"}, []string{"000000001"}},
		{shape{"dense3", 3, 19, sparse.DigitPath(3), "dense"}, []string{"000000002", "999999999"}, []string{"000000001"}},
		{shape{"hex7", 7, 91, sparse.HexId2PathForFanOut(7), "hex"}, []string{hexA, hexB}, []string{hexC}},
		{shape{"hex31", 31, 52, sparse.HexId2PathForFanOut(31), "hex"}, []string{hexA}, []string{hexC}},
	}
	if g.Thorough {
		rts = append(rts,
			rt{shape{"hex255", 255, 32, sparse.HexId2PathForFanOut(255), "hex"}, []string{hexA}, []string{hexC}},
			rt{shape{"hex3", 3, 162, sparse.HexId2PathForFanOut(3), "hex"}, []string{hexA, hexB}, []string{hexC}},
			rt{shape{"dense63", 63, 5, sparse.DigitPath(63), "dense"}, []string{"000000000", "123456789"}, []string{"000000001"}},
			rt{shape{"dense255", 255, 4, sparse.DigitPath(255), "dense"}, []string{"000000000", "123456789"}, []string{"000000001"}})
	}
	for _, r := range rts {
		for _, id := range r.ids {
			r, id := r, id
			g.Case("tree/"+r.s.name+"/"+id, func(t *T) {
				ls, l, _ := build(r.s, []setOp{{r.ids[0], 100}, {r.ids[len(r.ids)-1], 7}, {id, 100}})
				for k := range l {
					if k != id {
						delete(l, k)
					}
				}
				V, W := ls.Root()
				got, p, _, ok := ls.ProveLiability(id)
				t.Eval()
				if !ok || got != l[id] {
					t.Fatalf("ProveLiability(%s)=%d,%v", id, got, ok)
				}
				if _, err := p.Verify(r.s.pp(), id, V, W, r.s.id2path); err != nil {
					t.Fatalf("rejected: %v", err)
				}
				for _, a := range r.absent {
					if _, _, _, ok := ls.ProveLiability(a); ok {
						t.Fatalf("proof for the absent id %s", a)
					}
				}
				t.State(r.s.name, id)
			})
		}
	}
}

// candidates is a family of wrong sums around the right one.
func candidates(sum int64, l Ledger) []int64 {
	seen := map[int64]bool{sum: true}
	var r []int64
	add := func(x int64) {
		if !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	for _, d := range []int64{1, -1, 2, -2, 1 << 8, 1 << 16, 1 << 32, -1 << 32} {
		add(sum + d)
	}
	add(-sum)
	add(^sum)
	add(0)
	add(1)
	add(-1)
	add(maxL)
	add(-maxL)
	add(-maxL - 1)
	add(2 * sum)
	for k := uint(0); k < 64; k++ {
		add(sum ^ (int64(1) << k))
	}
	for _, v := range l {
		add(v)
		add(sum - v)
		add(sum + v)
		add(-v)
	}
	return r
}

func genC04(g *G) {
	depth := 3
	if g.Thorough {
		depth = 4
	}
	for _, s := range []shape{shallow(3, 2), shallow(7, 2), shallow(15, 2), shallow(3, 3)} {
		s := s
		id := func(a ...int) string {
			b := make([]byte, s.depth)
			for i := range b {
				b[i] = Digits[a[i%len(a)]]
			}
			return string(b)
		}
		ids := []string{id(0), id(0, s.fanout-1), id(s.fanout-1, 1)}
		d := depth
		if s.fanout > 3 || s.depth > 2 {
			d = 2
		}
		sequences(alphabet(ids, []int64{5, 0, 1, 1 << 61}), d, func(ops []setOp) {
			run := func(t *T) {
				pp := s.pp()
				ls, l, _ := build(s, ops)
				tot := ls.ProveTot()
				V, W := ls.Root()
				t.Step()
				if !l.Sum().IsInt64() || l.Sum().Int64() != int64(tot.Sum) {
					t.Fatalf("ProveTot says %d, the ledger %s sums to %s", tot.Sum, l, l.Sum())
				}
				err := tot.Verify(pp, V)
				t.Obs("true sum %d: %v", tot.Sum, err)
				if err != nil {
					t.Fatalf("ledger %s: the true total is rejected: %v", l, err)
				}
				reject := func(what string, p pol.TotalProof, V *math.G1) {
					t.Eval()
					if err := p.Verify(pp, V); err == nil {
						t.Fatalf("ledger %s, sum %d: accepted %s", l, tot.Sum, what)
					}
				}
				for _, x := range candidates(int64(tot.Sum), l) {
					reject(fmt.Sprintf("a total of %d", x), pol.TotalProof{Sum: int(x), LiabilityProof: tot.LiabilityProof}, V)
				}
				for name, π := range tamperG1(tot.LiabilityProof) {
					reject("a proof element "+name, pol.TotalProof{Sum: tot.Sum, LiabilityProof: π}, V)
				}
				if W != nil {
					reject("the digest commitment as root", tot, W)
				}
				for name, X := range tamperG1(V) {
					reject("a root "+name, tot, X)
				}
				// openings of other entries do not prove the total
				for _, o := range ops {
					_, p, _, ok := ls.ProveLiability(o.id)
					if !ok {
						t.Fatalf("no proof for %s", o.id)
					}
					reject("a client opening of "+o.id+" as total", p.LiabilityProof, V)
					if int64(p.LiabilityProof.Sum) != int64(tot.Sum) || s.depth > 1 {
						reject("a client opening as total of the leaf layer", p.LiabilityProof, p.V[len(p.V)-1])
					}
					break
				}
				// after another change the old total is refused, unless nothing changed
				ls.Set(ids[1], l[ids[1]]+3)
				V2, _ := ls.Root()
				reject("the previous total after a change", tot, V2)
				tot2 := ls.ProveTot()
				if int64(tot2.Sum) != int64(tot.Sum)+3 {
					t.Fatalf("ledger %s: the total went from %d to %d after adding 3", l, tot.Sum, tot2.Sum)
				}
				reject("the next total under the previous root", tot2, V)
				reject("the previous sum with the next proof", pol.TotalProof{Sum: tot.Sum, LiabilityProof: tot2.LiabilityProof}, V2)
				if err := tot2.Verify(pp, V2); err != nil {
					t.Fatalf("the total proof after a change is rejected: %v", err)
				}
				// amounts move from one id to another and the total stays
				l[ids[1]] += 3
				ls.Set(ids[1], l[ids[1]]-2)
				if s.depth == 2 && s.fanout == 3 { // also with the intermediate total proved
					x := ls.ProveTot()
					V, _ := ls.Root()
					t.Eval()
					if int64(x.Sum) != int64(tot.Sum)+1 || x.Verify(pp, V) != nil {
						t.Fatalf("ledger %s: after taking 2 from %s the total is %d, proof %v", l, ids[1], x.Sum, x.Verify(pp, V))
					}
				}
				l[ids[1]] -= 2
				l[ids[2]] += 2
				ls.Set(ids[2], l[ids[2]])
				tot3 := ls.ProveTot()
				V3, _ := ls.Root()
				t.Eval()
				if tot3.Sum != tot2.Sum {
					t.Fatalf("ledger %s: the total is %d instead of %d", l, tot3.Sum, tot2.Sum)
				}
				if err := tot3.Verify(pp, V3); err != nil {
					t.Fatalf("ledger %s: the total proof is rejected after amounts moved within the same total %d: %v", l, tot3.Sum, err)
				}
				reject("the proof of the same total before amounts moved", tot2, V3)
				reject("the proof of the same total after amounts moved, under the root before", tot3, V2)
				t.State(s.name, l)
				t.Outcome(fmt.Sprintf("%d ids", len(l)))
			}
			name := fmt.Sprintf("%s/%v", s.name, ops)
			if s.fanout == 3 && s.depth == 2 && len(ops) == 2 && ops[0].id == ids[0] && ops[1].id == ids[2] && ops[0].v == 5 && ops[1].v < 2 {
				g.Real(name, run)
			} else {
				g.Case(name, run)
			}
		})
	}
	g.Case("max", func(t *T) {
		s := shallow(3, 2)
		ls, l, _ := build(s, []setOp{{"00", maxL - 5}, {"12", 5}})
		tot := ls.ProveTot()
		V, _ := ls.Root()
		t.Eval()
		if int64(tot.Sum) != maxL {
			t.Fatalf("total %d", tot.Sum)
		}
		if err := tot.Verify(s.pp(), V); err != nil {
			t.Fatalf("%v", err)
		}
		for _, x := range candidates(maxL, l) {
			t.Eval()
			if (pol.TotalProof{Sum: int(x), LiabilityProof: tot.LiabilityProof}).Verify(s.pp(), V) == nil {
				t.Fatalf("accepted %d for %d", x, maxL)
			}
		}
		t.State("max")
	})
}

func tamperG1(p *math.G1) map[string]*math.G1 {
	r := map[string]*math.G1{}
	a := p.Copy()
	a.Add(C.GenG1)
	r["plus g"] = a
	if !p.IsInfinity() {
		r["at infinity"] = ZeroG1()
		n := ZeroG1()
		n.Sub(p)
		r["negated"] = n
		d := p.Copy()
		d.Add(p)
		r["doubled"] = d
	}
	return r
}

type rop struct {
	kind string
	set  setOp
}

func (r rop) String() string {
	if r.kind == "set" {
		return r.set.String()
	}
	return r.kind
}

func genC05(g *G) {
	longC05(g)
	hugeC05(g)
	type cfg struct {
		s     shape
		ops   []rop
		depth int
		alias bool
	}
	w := func(id string, v int64) rop { return rop{"set", setOp{id, v}} }
	reads := []rop{{kind: "root"}, {kind: "tot"}, {kind: "prove"}, {kind: "get"}}
	d := 0
	if g.Thorough {
		d = 1
	}
	for _, c := range []cfg{
		{shallow(3, 2), append([]rop{w("00", 5), w("00", 8), w("01", 3), w("21", 0)}, reads...), 4 + d, false},
		{shallow(3, 3), append([]rop{w("000", 5), w("012", 8), w("000", 0)}, reads[:3]...), 3 + d, false},
		{shallow(3, 2), append([]rop{w("00", 5), w("00", 8), w("21", 1)}, reads[:2]...), 4 + d, true},
		{shape{"dense7", 7, 11, sparse.DigitPath(7), "dense"}, []rop{w("000000000", 5), w("999999999", 8), w("000000007", 1), {kind: "root"}, {kind: "tot"}}, 3, false},
	} {
		c := c
		var rec func(cur []rop)
		rec = func(cur []rop) {
			if len(cur) > 0 && cur[len(cur)-1].kind != "get" {
				cur := cur
				run := func(t *T) { runC05(t, c.s, cur, c.alias) }
				id := fmt.Sprintf("%s/alias=%v/%v", c.s.name, c.alias, cur)
				if c.s.name == "f3d2" && !c.alias && len(cur) == 3 && cur[0].kind == "set" && cur[1].kind == "root" && cur[2].kind == "set" {
					g.Real(id, run)
				} else {
					g.Case(id, run)
				}
			}
			if len(cur) == c.depth {
				return
			}
			for _, o := range c.ops {
				rec(append(cur[:len(cur):len(cur)], o))
			}
		}
		rec(nil)
	}
}

func runC05(t *T, s shape, ops []rop, alias bool) {
	pp := s.pp()
	db := NewDB()
	db.Alias = alias
	ls := pol.NewLiabilitySet(pp, db, s.id2path)
	l := Ledger{}
	type old struct {
		id     string
		proof  pol.LiabilityProof
		ledger string
		V, W   *math.G1
	}
	var olds []old
	type oldTot struct {
		p      pol.TotalProof
		ledger string
		V      *math.G1
	}
	var tots []oldTot
	var prevV, prevW *math.G1
	var prev string
	written := false // since the root was read
	for i, o := range ops {
		t.Step()
		last := i == len(ops)-1
		switch o.kind {
		case "set":
			ls.Set(o.set.id, o.set.v)
			l[o.set.id] = o.set.v
			written = true
		case "root":
			V, W := ls.Root()
			t.Eval()
			if (len(l) == 0) != (V == nil) {
				t.Fatalf("after %v the root is %v", ops[:i+1], V)
			}
			if prevV != nil && !written && (!prevV.Equals(V) || !prevW.Equals(W)) {
				t.Fatalf("after %v the root changed although nothing was written", ops[:i+1])
			}
			if prevV != nil && prev != l.String() && prevW.Equals(W) && s.depth > 1 {
				t.Fatalf("after %v the root is still the one of %s", ops[:i+1], prev)
			}
			prevV, prevW, prev, written = V, W, l.String(), false
		case "tot":
			if len(l) == 0 {
				continue
			}
			p := ls.ProveTot()
			V, _ := ls.Root()
			t.Eval()
			if l.Sum().Cmp(big.NewInt(int64(p.Sum))) != 0 {
				t.Fatalf("after %v ProveTot says %d for %s", ops[:i+1], p.Sum, l)
			}
			if err := p.Verify(pp, V); err != nil {
				t.Fatalf("after %v the total proof is rejected under the root: %v", ops[:i+1], err)
			}
			tots = append(tots, oldTot{p, l.String(), V})
		case "get":
			for id, v := range l {
				if got, ok := ls.Get(id); !ok || got != v {
					t.Fatalf("Get(%s)=%d,%v", id, got, ok)
				}
			}
		case "prove":
			for _, id := range l.IDs() {
				got, p, _, ok := ls.ProveLiability(id)
				V, W := ls.Root()
				t.Eval()
				if !ok || got != l[id] {
					t.Fatalf("after %v ProveLiability(%s)=%d,%v", ops[:i+1], id, got, ok)
				}
				if !p.V[0].Equals(V) || !p.W[0].Equals(W) {
					t.Fatalf("after %v the proof of %s does not start at the published root", ops[:i+1], id)
				}
				if last {
					if _, err := p.Verify(pp, id, V, W, s.id2path); err != nil {
						t.Fatalf("after %v the proof of %s is rejected under the root: %v", ops[:i+1], id, err)
					}
				}
				olds = append(olds, old{id, p, l.String(), V, W})
			}
		}
	}
	// The published root is the root of the ledger as it stands.
	if len(l) > 0 && (s.full == "" || ops[len(ops)-1].kind == "set") {
		V, W := ls.Root()
		tot := ls.ProveTot()
		t.Eval()
		if err := tot.Verify(pp, V); err != nil || l.Sum().Cmp(big.NewInt(int64(tot.Sum))) != 0 {
			t.Fatalf("after %v the total %d of %s is not the one of the root: %v", ops, tot.Sum, l, err)
		}
		id := anyMin(l)
		got, p, _, ok := ls.ProveLiability(id)
		if !ok || got != l[id] {
			t.Fatalf("after %v ProveLiability(%s)=%d,%v", ops, id, got, ok)
		}
		if _, err := p.Verify(pp, id, V, W, s.id2path); err != nil {
			t.Fatalf("after %v the proof of %s is rejected under the published root: %v", ops, id, err)
		}
		for _, o := range olds {
			t.Eval()
			_, err := o.proof.Verify(pp, o.id, V, W, s.id2path)
			same := o.V.Equals(V) && o.W.Equals(W)
			if same && o.ledger != l.String() {
				t.Fatalf("after %v: %s and %s have the same root", ops, o.ledger, l)
			}
			if same != (err == nil) {
				t.Fatalf("after %v: a proof made for %s, verified under the root of %s: %v", ops, o.ledger, l, err)
			}
			// a root handed out earlier still is what it was
			if _, err := o.proof.Verify(pp, o.id, o.V, o.W, s.id2path); err != nil {
				t.Fatalf("after %v: a proof made for %s no longer verifies under the root of its time: %v", ops, o.ledger, err)
			}
		}
		for _, o := range tots {
			t.Eval()
			if (o.p.Verify(pp, V) == nil) != (o.V.Equals(V)) {
				t.Fatalf("after %v: total proof of %s under the root of %s", ops, o.ledger, l)
			}
			if err := o.p.Verify(pp, o.V); err != nil {
				t.Fatalf("after %v: total proof of %s no longer verifies under the root of its time: %v", ops, o.ledger, err)
			}
		}
		t.Obs("%s root current", l)
	}
	t.State(s.name, l, len(olds), len(tots), prev)
	t.Outcome(fmt.Sprintf("%d ids, %d proofs held", len(l), len(olds)))
}

func anyMin(l Ledger) string {
	m := ""
	for id := range l {
		if m == "" || id < m {
			m = id
		}
	}
	return m
}
