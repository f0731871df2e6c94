package checks

import (
	"bytes"
	"fmt"
	"math/big"

	. "mc/eng"
	. "mc/lib"

	"pol/pol"
	"pol/sparse"
	"pol/verkle"

	math "github.com/IBM/mathlib"
)

var _ = math.Curves

type setOp struct {
	id string
	v  int64
}

func (o setOp) String() string { return fmt.Sprintf("%s=%d", o.id, o.v) }

// sequences calls f with every sequence of 1..depth operations.
func sequences(ops []setOp, depth int, f func([]setOp)) {
	var rec func(cur []setOp)
	rec = func(cur []setOp) {
		if len(cur) > 0 {
			f(cur)
		}
		if len(cur) == depth {
			return
		}
		for _, o := range ops {
			rec(append(cur[:len(cur):len(cur)], o))
		}
	}
	rec(nil)
}

func alphabet(ids []string, vals []int64) []setOp {
	var r []setOp
	for _, v := range vals {
		for _, id := range ids {
			r = append(r, setOp{id, v})
		}
	}
	return r
}

func apply(l Ledger, ops []setOp) Ledger {
	for _, o := range ops {
		l[o.id] = o.v
	}
	return l
}

type config struct {
	name    string
	fanout  int
	id2path func(string) []uint16
	ids     []string // used by operations
	absent  []string // never set
	vals    []int64
	depth   int // operations
	real    bool
}

const (
	hexA = "ab00000000000000000000000000000000000000000000000000000000000001"
	hexB = "ab00000000000000000000000000000000000000000000000000000000000008"
	hexC = "0000000000000000000000000000000000000000000000000000000000000002"
)

// treeConfigs are the tree shapes and operation alphabets of the histories.
func treeConfigs(th bool) []config {
	d := func(q, t int) int {
		if th {
			return t
		}
		return q
	}
	big := int64(1)<<60 + 1
	return []config{
		{"f3d2", 3, Path, []string{"00", "01", "10", "22"}, []string{"02", "11", "20", "12"}, []int64{5, 0, big}, d(4, 5), true},
		{"f3d3", 3, Path, []string{"000", "001", "010", "200"}, []string{"002", "011", "020", "100", "222"}, []int64{7, 0}, d(4, 5), true},
		{"f3d1", 3, Path, []string{"0", "1", "2"}, nil, []int64{5, 0, big}, d(4, 6), true},
		{"f7d2", 7, Path, []string{"00", "06", "60", "65"}, []string{"01", "66", "33"}, []int64{1, 0, big}, d(3, 4), true},
		{"f15d2", 15, Path, []string{"00", "0e", "e0"}, []string{"ee", "0d"}, []int64{3, 0}, d(3, 5), false},
		{"f15d3", 15, Path, []string{"1b0", "b10", "1b1"}, []string{"b11", "110", "bb0"}, []int64{3, 0}, d(3, 4), false},
		{"f127d3", 127, PathDot, []string{"1.12.3", "11.2.3", "1.1.23"}, []string{"1.2.3", "11.1.23", "1.12.2"}, []int64{3}, d(3, 4), false},
		{"f31d2", 31, PathDot, []string{"0.0", "30.30", "0.30"}, []string{"30.0", "1.1"}, []int64{3, 0}, d(2, 4), false},
		{"f255d2", 255, PathDot, []string{"0.0", "254.254", "0.254"}, []string{"254.0", "1.1"}, []int64{3, 0}, d(2, 3), false},
		{"f1023d2", 1023, PathDot, []string{"0.0", "1022.1022", "0.256"}, []string{"256.256", "0.1"}, []int64{3, 1}, d(2, 3), false},
		{"dense7", 7, sparse.DigitPath(7), []string{"000000000", "999999999", "000000007"}, []string{"000000001", "100000000"}, []int64{5, 0}, d(3, 4), true},
		{"hex7", 7, sparse.HexId2PathForFanOut(7), []string{hexA, hexB, hexC}, []string{"ff00000000000000000000000000000000000000000000000000000000000001"}, []int64{5, 0}, d(2, 3), true},
		{"hex255", 255, sparse.HexId2PathForFanOut(255), []string{hexA, hexB}, []string{hexC}, []int64{5}, d(2, 3), false},
	}
}

func init() {
	Register(&Check{
		ID: "C01", Level: "model_checking",
		Rule: "every sequence of Set operations over a small alphabet of colliding ids and values, on every tree shape; after each operation every id (set or not) is read and compared with a map; " +
			"a state is distinct when tree shape and ledger differ",
		Bounds:      "sequences up to length 4 (quick) / 6 (thorough) over 3-4 ids x 1-3 values; fanouts 3,7,15,31,255,1023 with depths 1-3 and the real dense and hex paths; also two sets side by side, rejected operations interleaved; histories of 66 000 updates of four ids and of 9 000 updates of up to 9 000 ids (thorough 30 000), histories of 50-675 updates: all words of length 2 (thorough 3) repeated, and passes over all ids in three orders",
		Assumptions: []string{"liabilities and sums below 2^63", "one goroutine uses a set at a time"},
		Gen:         genC01,
	})
	Register(&Check{
		ID: "C02", Level: "model_checking",
		Rule: "every sequence of Set operations over a small alphabet; after the last one every vertex on every path is compared with one recomputed from the ledger: " +
			"values, sum, value commitment (term by term), child digests (hash recomputed), digest commitment; a state is distinct when shape and ledger differ",
		Bounds:      "sequences up to length 4 (quick) / 6 (thorough) over 3-4 ids x 1-3 values; fanouts 3..1023; histories of 66 000 updates of four ids and of 9 000 updates of up to 9 000 ids (thorough 30 000), histories of 50-675 updates: all words of length 2 (thorough 3) repeated, and passes over all ids in three orders",
		Assumptions: []string{"liabilities and sums below 2^63", "group elements are represented by discrete logarithms (validated against BN254 on the listed traces)"},
		Gen:         genC02,
	})
}

// store is what C01 drives: the liability set, or one of the layers below.
type store interface {
	Set(id string, v int64)
	Get(id string) (int64, bool)
}
type treeStore struct{ t *verkle.Tree }

func (s treeStore) Set(id string, v int64) { s.t.Put(id, v) }
func (s treeStore) Get(id string) (int64, bool) {
	v, path, ok := s.t.Get(id)
	if ok && len(path) == 0 {
		return v, false
	}
	return v, ok
}

type sparseStore struct{ t *sparse.Tree }

func (s sparseStore) Set(id string, v int64) { s.t.Put(id, v) }
func (s sparseStore) Get(id string) (int64, bool) {
	v, _, ok := s.t.Get(id)
	if !ok {
		return 0, false
	}
	return v.(int64), true
}

func newStore(kind string, c config) store {
	switch kind {
	case "set":
		return pol.NewLiabilitySet(MiniPP(c.fanout, 2), NewDB(), c.id2path)
	case "verkle":
		return treeStore{verkle.NewVerkleTree(uint16(c.fanout), c.id2path, NewDB())}
	}
	t := &sparse.Tree{FanOut: c.fanout, ID2Path: c.id2path}
	t.UpdateInnerVertex = func(key string, node interface{}, d []interface{}, leaves bool, i int) interface{} { return key }
	return sparseStore{t}
}

func genC01(g *G) {
	longC01(g)
	hugeC01(g)
	for _, c := range treeConfigs(g.Thorough) {
		c := c
		for _, kind := range []string{"set", "verkle", "sparse"} {
			kind := kind
			depth := c.depth
			if kind == "verkle" && depth > 3 {
				depth-- // the set runs on the same tree
			}
			sequences(alphabet(c.ids, c.vals), depth, func(ops []setOp) {
				id := fmt.Sprintf("%s/%s/%v", c.name, kind, ops)
				run := func(t *T) {
					s := newStore(kind, c)
					l := Ledger{}
					check := func(when string) {
						for _, id := range append(append([]string{}, c.ids...), c.absent...) {
							got, ok := s.Get(id)
							want, have := l[id]
							t.Eval()
							t.Obs("%s %s %d %v", when, id, got, ok)
							if ok != have || (ok && got != want) {
								t.Fatalf("%s: after %s, Get(%s) = %d,%v; the ledger says %d,%v", c.name, when, id, got, ok, want, have)
							}
							if !ok && got != 0 {
								t.Fatalf("Get(%s) of an absent id returned the amount %d", id, got)
							}
						}
						t.State(c.name, kind, l)
					}
					check("start")
					for i, o := range ops {
						s.Set(o.id, o.v)
						l[o.id] = o.v
						t.Step()
						check(fmt.Sprintf("op %d", i))
					}
					t.Outcome(fmt.Sprintf("%d ids", len(l)))
				}
				if c.real && kind == "set" && len(ops) == 2 && ops[0].id != ops[1].id && ops[1].v == c.vals[0] && ops[0].v == c.vals[len(c.vals)-1] {
					g.Real(id, run)
				} else {
					g.Case(id, run)
				}
			})
		}
	}

	// All ids of a full layer, in ascending and descending order: no two alias.
	for _, f := range []int{3, 7, 15} {
		for _, rev := range []bool{false, true} {
			f, rev := f, rev
			g.Case(fmt.Sprintf("full/f%d/rev=%v", f, rev), func(t *T) {
				s := pol.NewLiabilitySet(MiniPP(f, 2), NewDB(), Path)
				var ids []string
				for a := 0; a < f; a++ {
					for b := 0; b < f; b++ {
						ids = append(ids, string([]byte{Digits[a], Digits[b]}))
					}
				}
				if rev {
					for i := 0; i < len(ids)/2; i++ {
						ids[i], ids[len(ids)-1-i] = ids[len(ids)-1-i], ids[i]
					}
				}
				l := Ledger{}
				for i, id := range ids {
					s.Set(id, int64(i+1))
					l[id] = int64(i + 1)
					t.Step()
					for _, q := range ids {
						t.Eval()
						if got, ok := s.Get(q); ok != (l[q] != 0) || got != l[q] {
							t.Fatalf("after setting %d ids, Get(%s)=%d,%v want %d", i+1, q, got, ok, l[q])
						}
					}
				}
				t.State("full", f, rev)
			})
		}
	}

	// Operations that must be refused leave no trace; two sets do not mix.
	type op struct {
		kind string
		id   string
		v    int64
	}
	ops := []op{
		{"A", "00", 4}, {"B", "00", 6}, {"A", "12", 9}, {"B", "12", 1},
		{"Aneg", "00", -1}, {"Aneg", "21", -5}, {"Aneg", "00", -1 << 63}, {"A", "00", 0},
	}
	depth := 4
	if g.Thorough {
		depth = 5
	}
	var rec func(cur []op)
	rec = func(cur []op) {
		if len(cur) > 0 {
			cur := cur
			g.Case(fmt.Sprintf("two/%v", cur), func(t *T) {
				pp := MiniPP(3, 2)
				dbs := map[string]*DB{"A": NewDB(), "B": NewDB()}
				sets := map[string]*pol.LiabilitySet{"A": pol.NewLiabilitySet(pp, dbs["A"], Path), "B": pol.NewLiabilitySet(pp, dbs["B"], Path)}
				ls := map[string]Ledger{"A": {}, "B": {}}
				for _, o := range cur {
					t.Step()
					n := o.kind[:1]
					if len(o.kind) > 1 {
						before := dbs["A"].Snapshot()
						if p, _ := Try(func() { sets[n].Set(o.id, o.v) }); p == nil {
							t.Fatalf("Set(%s,%d) was accepted", o.id, o.v)
						}
						if dbs["A"].Snapshot() != before {
							t.Fatalf("the refused Set(%s,%d) changed the database", o.id, o.v)
						}
					} else {
						sets[n].Set(o.id, o.v)
						ls[n][o.id] = o.v
					}
					for n, s := range sets {
						for _, id := range []string{"00", "12", "21", "01"} {
							got, ok := s.Get(id)
							want, have := ls[n][id]
							t.Eval()
							if ok != have || got != want {
								t.Fatalf("set %s: Get(%s)=%d,%v want %d,%v", n, id, got, ok, want, have)
							}
						}
					}
				}
				t.State("two", ls["A"], "|", ls["B"])
			})
		}
		if len(cur) == depth {
			return
		}
		for _, o := range ops {
			rec(append(cur[:len(cur):len(cur)], o))
		}
	}
	rec(nil)
}

func genC02(g *G) {
	longC02(g)
	hugeC02(g)
	for _, c := range treeConfigs(g.Thorough) {
		c := c
		sequences(alphabet(c.ids, c.vals), c.depth, func(ops []setOp) {
			id := fmt.Sprintf("%s/%v", c.name, ops)
			run := func(t *T) {
				db := NewDB()
				tree := verkle.NewVerkleTree(uint16(c.fanout), c.id2path, db)
				l := Ledger{}
				for _, o := range ops {
					tree.Put(o.id, o.v)
					l[o.id] = o.v
					t.Step()
				}
				mirror(t, tree, c, l)
				t.State(c.name, l)
				t.Outcome(fmt.Sprintf("%d ids", len(l)))
			}
			if c.real && len(ops) == 2 && ops[0].v == c.vals[0] && ops[1].v == c.vals[0] {
				g.Real(id, run)
			} else {
				g.Case(id, run)
			}
		})
		// through a liability set, whose tree has its own parameters and database layers
		if c.fanout <= 7 {
			sequences(alphabet(c.ids, c.vals[:1]), 3, func(ops []setOp) {
				g.Case(fmt.Sprintf("set/%s/%v", c.name, ops), func(t *T) {
					pp := MiniPP(c.fanout, 2)
					ls := pol.NewLiabilitySet(pp, NewDB(), c.id2path)
					l := Ledger{}
					for i, o := range ops {
						ls.Set(o.id, o.v+int64(i))
						l[o.id] = o.v + int64(i)
						t.Step()
					}
					tree, ok := FieldOfType(ls, (*verkle.Tree)(nil)).(*verkle.Tree)
					if !ok {
						t.Skip("the set has no tree field")
					}
					if !bytes.Equal(tree.PP.Digest, pp.PPPP.Digest) {
						t.Fatalf("the set commits under other parameters than its own")
					}
					mirror(t, tree, c, l)
					t.State("set", c.name, l)
				})
			})
		}
	}
}

// mirror compares every vertex on every path with the ledger.
func mirror(t *T, tree *verkle.Tree, c config, l Ledger) {
	vertices := map[string]*verkle.Vertex{}
	prefixes := map[string][]uint16{}
	for _, id := range l.IDs() {
		want := l[id]
		got, vs, ok := tree.Get(id)
		if !ok || got != want {
			t.Fatalf("Get(%s) = %d,%v, want %d", id, got, ok, want)
		}
		p := c.id2path(id)
		if len(vs) != len(p) {
			t.Fatalf("%d vertices along a path of %d", len(vs), len(p))
		}
		for i, v := range vs {
			k := fmt.Sprint(p[:i])
			if old := vertices[k]; old != nil && !bytes.Equal(old.V.Bytes(), v.V.Bytes()) {
				t.Fatalf("two reads of vertex %s differ", k)
			}
			vertices[k] = v
			prefixes[k] = p[:i]
		}
	}
	checkVertices(t, vertices, prefixes, tree.PP.G1s, tree.PP.N, c, l)
}

func checkVertices(t *T, vertices map[string]*verkle.Vertex, prefixes map[string][]uint16, gens []*math.G1, N int, c config, l Ledger) {
	blind := map[string]string{}
	for k, v := range vertices {
		t.Eval()
		prefix := prefixes[k]
		want := l.Children(c.id2path, prefix)
		sum := new(big.Int)
		for _, x := range want {
			sum.Add(sum, x)
		}
		vals := v.Values(c.fanout + 1)
		ref := make([]*big.Int, N)
		for j := 0; j <= c.fanout; j++ {
			w := want[uint16(j)]
			if w == nil {
				w = new(big.Int)
			}
			if j == c.fanout {
				w = sum
			}
			ref[j] = w
			if Big(vals[j]).Cmp(w) != 0 {
				t.Fatalf("vertex %s holds %s at %d, the ledger %s has %s", k, Big(vals[j]), j, l, w)
			}
		}
		b := Big(v.BlindingFactor)
		if b.Sign() == 0 {
			t.Fatalf("vertex %s is not blinded", k)
		}
		if o, dup := blind[b.String()]; dup {
			t.Fatalf("vertices %s and %s share a blinding factor", o, k)
		}
		blind[b.String()] = k
		ref[c.fanout+1] = b
		if !CommitRef(gens, ref).Equals(v.V) {
			t.Fatalf("the commitment of vertex %s does not open to its values, sum and blinding factor (ledger %s)", k, l)
		}
		if len(prefix) == len(c.id2path(anyID(l)))-1 {
			if v.W != nil {
				t.Fatalf("leaf layer vertex %s has a digest commitment", k)
			}
			continue
		}
		if v.W == nil {
			t.Fatalf("inner vertex %s has no digest commitment", k)
		}
		dig := make([]*big.Int, N)
		for j := range want {
			child := vertices[fmt.Sprint(append(append([]uint16{}, prefix...), j))]
			if child == nil {
				t.Fatalf("no vertex below %s at %d", k, j)
			}
			var parts [][]byte
			parts = append(parts, child.V.Bytes())
			if child.W != nil {
				parts = append(parts, child.W.Bytes())
			}
			dig[j] = HashRef(parts...)
			d := v.Digests[j]
			if d == nil || Big(d).Cmp(dig[j]) != 0 {
				t.Fatalf("vertex %s does not hold the digest of its child %d", k, j)
			}
		}
		if len(v.Digests) != len(want) {
			t.Fatalf("vertex %s holds %d digests for %d children", k, len(v.Digests), len(want))
		}
		if !CommitRef(gens, dig).Equals(v.W) {
			t.Fatalf("the digest commitment of vertex %s does not open to its digests", k)
		}
	}
	t.Obs("%d vertices mirror %s", len(vertices), l)
}

func anyID(l Ledger) string {
	for id := range l {
		return id
	}
	return ""
}
