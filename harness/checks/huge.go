package checks

import (
	"fmt"
	"math/big"

	. "mc/eng"
	. "mc/lib"

	"pol/pol"
	"pol/verkle"
)

// Huge histories: more updates than any counter of 16 bits can tell apart, and
// more accounts than a memory of tens of thousands of vertices can hold.
type ref struct {
	path  func(string) []uint16
	known map[string]int64
	sums  map[string]map[uint16]*big.Int
}

func newRef(path func(string) []uint16) *ref {
	return &ref{path, map[string]int64{}, map[string]map[uint16]*big.Int{}}
}

func (r *ref) set(id string, v int64) {
	diff := big.NewInt(v - r.known[id])
	r.known[id] = v
	p := r.path(id)
	for i, c := range p {
		k := fmt.Sprint(p[:i])
		if r.sums[k] == nil {
			r.sums[k] = map[uint16]*big.Int{}
		}
		if r.sums[k][c] == nil {
			r.sums[k][c] = new(big.Int)
		}
		r.sums[k][c].Add(r.sums[k][c], diff)
	}
}

type hugeHistory struct {
	s     shape
	name  string
	total int
	op    func(i int) setOp
}

func hugeHistories(th bool) []hugeHistory {
	word := []setOp{{"00", 5}, {"01", 7}, {"12", 1}, {"22", 0}}
	r := []hugeHistory{{shallow(3, 2), "word x 66000", 66000, func(i int) setOp {
		o := word[i%len(word)]
		return setOp{o.id, o.v + int64(i%1000)}
	}}}
	many := func(s shape, total int) {
		ids := s.ids()
		r = append(r, hugeHistory{s, fmt.Sprintf("%d over %d ids", total, len(ids)), total, func(i int) setOp {
			return setOp{ids[i*1009%len(ids)], int64(i)*1000003%(1<<41) + 1}
		}})
	}
	many(shallow(3, 8), 9000)
	many(shallow(15, 4), 9000)
	if th {
		many(shallow(3, 9), 25000)
		many(shallow(7, 5), 30000)
	}
	return r
}

func hugeC01(g *G) {
	for _, h := range hugeHistories(g.Thorough) {
		h := h
		g.Case("huge/"+h.s.name+"/"+h.name, func(t *T) {
			ls := pol.NewLiabilitySet(h.s.pp(), NewDB(), h.s.id2path)
			last := map[string]int64{}
			var past []string
			look := func(i int, id string) {
				t.Eval()
				want, have := last[id]
				if got, ok := ls.Get(id); ok != have || got != want {
					t.Fatalf("after %d updates, Get(%s)=%d,%v; the ledger says %d,%v", i+1, id, got, ok, want, have)
				}
			}
			for i := 0; i < h.total; i++ {
				o := h.op(i)
				ls.Set(o.id, o.v)
				if _, have := last[o.id]; !have {
					past = append(past, o.id)
				}
				last[o.id] = o.v
				t.Step()
				look(i, o.id)
				look(i, past[i*7919%len(past)])
				look(i, h.op(i+1).id)
			}
			for _, id := range past {
				look(h.total-1, id)
			}
			t.State("huge", h.name)
			t.Outcome("huge history")
		})
	}
}

func hugeC02(g *G) {
	for _, h := range hugeHistories(g.Thorough) {
		h := h
		g.Case("huge/"+h.s.name+"/"+h.name, func(t *T) {
			tree := verkle.NewVerkleTree(uint16(h.s.fanout), h.s.id2path, NewDB())
			tree.PP = h.s.pp().PPPP
			r := newRef(h.s.id2path)
			for i := 0; i < h.total; i++ {
				o := h.op(i)
				tree.Put(o.id, o.v)
				r.set(o.id, o.v)
				t.Step()
			}
			blind := map[string]string{}
			done := map[string]bool{}
			for id, want := range r.known {
				p := h.s.id2path(id)
				if leaf := fmt.Sprint(p[:len(p)-1]); done[leaf] {
					continue
				}
				got, vs, ok := tree.Get(id)
				if !ok || got != want || len(vs) != len(p) {
					t.Fatalf("Get(%s) = %d,%v with %d vertices, want %d", id, got, ok, len(vs), want)
				}
				for i, v := range vs {
					k := fmt.Sprint(p[:i])
					if done[k] {
						continue
					}
					done[k] = true
					t.Eval()
					full := make([]*big.Int, tree.PP.N)
					sum := new(big.Int)
					for j := range full {
						full[j] = new(big.Int)
						if x := r.sums[k][uint16(j)]; x != nil && j < h.s.fanout {
							full[j] = x
							sum.Add(sum, x)
						}
					}
					b := Big(v.BlindingFactor)
					full[h.s.fanout], full[h.s.fanout+1] = sum, b
					for j, x := range v.Values(h.s.fanout + 1) {
						if Big(x).Cmp(full[j]) != 0 {
							t.Fatalf("vertex %s holds %s at %d and not %s", k, Big(x), j, full[j])
						}
					}
					if o, dup := blind[b.String()]; dup || b.Sign() == 0 {
						t.Fatalf("vertices %s and %s share a blinding factor, or it is zero", o, k)
					}
					blind[b.String()] = k
					if !CommitRef(tree.PP.G1s, full).Equals(v.V) {
						t.Fatalf("the commitment of vertex %s does not open to its values, sum and blinding factor", k)
					}
				}
			}
			t.State("huge", h.name)
			t.Outcome("huge history")
		})
	}
}

// hugeC05 reads the root after every update and verifies totals now and then.
func hugeC05(g *G) {
	for _, h := range hugeHistories(g.Thorough) {
		h := h
		g.Case("huge/"+h.s.name+"/"+h.name, func(t *T) {
			pp := h.s.pp()
			ls := pol.NewLiabilitySet(pp, NewDB(), h.s.id2path)
			last := map[string]int64{}
			sum := int64(0)
			var prev []byte
			for i := 0; i < h.total; i++ {
				o := h.op(i)
				ls.Set(o.id, o.v)
				changed := last[o.id] != o.v
				sum += o.v - last[o.id]
				last[o.id] = o.v
				t.Step()
				V, W := ls.Root()
				now := append(V.Bytes(), W.Bytes()...)
				if changed && string(now) == string(prev) {
					t.Fatalf("after %d updates the root is what it was before the last of them", i+1)
				}
				prev = now
				t.Eval()
				if tot := ls.ProveTot(); int64(tot.Sum) != sum || tot.Verify(pp, V) != nil {
					t.Fatalf("after %d updates the total is %d, the ledger sums to %d; %v", i+1, tot.Sum, sum, tot.Verify(pp, V))
				}
				if i%9973 == 0 || i == h.total-1 || i == 65535 || i == 65536 {
					got, proof, _, ok := ls.ProveLiability(o.id)
					if !ok || got != o.v {
						t.Fatalf("after %d updates ProveLiability(%s)=%d,%v", i+1, o.id, got, ok)
					}
					if _, err := proof.Verify(pp, o.id, V, W, h.s.id2path); err != nil {
						t.Fatalf("after %d updates the proof of %s is rejected: %v", i+1, o.id, err)
					}
				}
			}
			t.State("huge", h.name)
			t.Outcome("huge history")
		})
	}
}

// hugeC22 checks the calls of huge histories of insertions.
func hugeC22(g *G) {
	for _, h := range hugeHistories(g.Thorough) {
		h := h
		g.Case("huge/"+h.s.name+"/"+h.name, func(t *T) {
			c := config{name: h.s.name, fanout: h.s.fanout, id2path: h.s.id2path}
			seen := map[string]bool{}
			var ops []setOp
			for i := 0; i < h.total; i++ {
				o := h.op(i)
				if !seen[o.id] && len(c.ids) < 5 {
					seen[o.id] = true
					c.ids = append(c.ids, o.id)
				}
				ops = append(ops, o)
			}
			runC22(t, c, ops)
		})
	}
}
