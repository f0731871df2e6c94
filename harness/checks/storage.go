package checks

import (
	"bytes"
	"encoding/asn1"
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"

	. "mc/eng"
	. "mc/lib"

	"pol/sparse"
	"pol/verkle"
)

func init() {
	Register(&Check{
		ID: "C17", Level: "model_checking",
		Rule: "every vertex over sets of occupied slots and boundary scalars is decoded from its stored form and encoded again, and both are compared component by component; every ledger of a family of histories is exported, " +
			"the dump is parsed by an independent reader, and must have exactly one entry per vertex of the ledger, with the content the tree itself reads for it. A state is distinct when slots and scalars, or shape and ledger, differ",
		Bounds:      "all subsets of 5 slots (0, 1, 255, 256, 65535) for values x digests, 6 scalars, with and without digest commitment; all histories of up to 3 (quick) / 4 (thorough) operations on the listed tree shapes, the empty tree, and trees of 1 000 and 2 187 accounts; re-import of every dumped vertex",
		Assumptions: []string{"group elements are represented by discrete logarithms (validated against BN254 on the listed traces)"},
		Gen:         genC17,
	})
}

type rawV struct {
	blind, sum *big.Int
	vals, digs map[uint16]*big.Int
	V, W       []byte
}

func (r rawV) encode(descending bool) []byte {
	rv := verkle.RawVertex{BlindingFactor: ZrBig(r.blind).Bytes(), Sum: ZrBig(r.sum).Bytes(), V: r.V, W: r.W}
	kv := func(m map[uint16]*big.Int) []verkle.KV {
		var ks []int
		for k := range m {
			ks = append(ks, int(k))
		}
		sort.Ints(ks)
		var out []verkle.KV
		for i := range ks {
			k := ks[i]
			if descending {
				k = ks[len(ks)-1-i]
			}
			b := make([]byte, 2)
			binary.BigEndian.PutUint16(b, uint16(k))
			out = append(out, verkle.KV{K: b, V: ZrBig(m[uint16(k)]).Bytes()})
		}
		return out
	}
	rv.Values, rv.Digests = kv(r.vals), kv(r.digs)
	b, err := asn1.Marshal(rv)
	if err != nil {
		panic(err)
	}
	return b
}

func decodeKV(t *T, kvs []verkle.KV) map[uint16]*big.Int {
	m := map[uint16]*big.Int{}
	for _, kv := range kvs {
		if len(kv.K) != 2 {
			t.Fatalf("a slot is stored in %d bytes", len(kv.K))
		}
		k := binary.BigEndian.Uint16(kv.K)
		if m[k] != nil {
			t.Fatalf("slot %d is stored twice", k)
		}
		m[k] = Big(C.NewZrFromBytes(kv.V))
	}
	return m
}

func sameMap(a, b map[uint16]*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if b[k] == nil || a[k].Cmp(b[k]) != 0 {
			return false
		}
	}
	return true
}

// compareVertex compares a decoded vertex with what it must hold.
func compareVertex(t *T, what string, v *verkle.Vertex, r rawV) {
	t.Eval()
	if Big(v.BlindingFactor).Cmp(new(big.Int).Mod(r.blind, Order)) != 0 {
		t.Fatalf("%s: the blinding factor became %s", what, Big(v.BlindingFactor))
	}
	if !bytes.Equal(v.V.Bytes(), r.V) {
		t.Fatalf("%s: V differs", what)
	}
	if (v.W != nil) != (len(r.W) > 0) || (v.W != nil && !bytes.Equal(v.W.Bytes(), r.W)) {
		t.Fatalf("%s: W differs", what)
	}
	d := map[uint16]*big.Int{}
	for k, z := range v.Digests {
		d[k] = Big(z)
	}
	if !sameMap(d, r.digs) {
		t.Fatalf("%s: the digests are %v instead of %v", what, d, r.digs)
	}
	// through the accessor, for sizes beyond and below the last slot
	for _, n := range []int{1, 2, 3, 257, 65535} {
		vals := v.Values(n)
		if len(vals) != n {
			t.Fatalf("%s: Values(%d) has %d entries", what, n, len(vals))
		}
		if Big(vals[n-1]).Cmp(r.sum) != 0 {
			t.Fatalf("%s: the sum became %s", what, Big(vals[n-1]))
		}
		for j := 0; j < n-1; j++ {
			w := r.vals[uint16(j)]
			if w == nil {
				w = new(big.Int)
			}
			if (w.Sign() != 0 || j < 300) && Big(vals[j]).Cmp(w) != 0 {
				t.Fatalf("%s: slot %d holds %s instead of %s", what, j, Big(vals[j]), w)
			}
		}
	}
	var rv verkle.RawVertex
	b := v.Bytes()
	if rest, err := asn1.Unmarshal(b, &rv); err != nil || len(rest) != 0 {
		t.Fatalf("%s: the stored form does not parse: %v, %d bytes left", what, err, len(rest))
	}
	if Big(C.NewZrFromBytes(rv.BlindingFactor)).Cmp(new(big.Int).Mod(r.blind, Order)) != 0 || Big(C.NewZrFromBytes(rv.Sum)).Cmp(new(big.Int).Mod(r.sum, Order)) != 0 {
		t.Fatalf("%s: blinding factor or sum are stored wrongly", what)
	}
	if !bytes.Equal(rv.V, r.V) || !bytes.Equal(rv.W, r.W) {
		t.Fatalf("%s: the commitments are stored wrongly", what)
	}
	if x := decodeKV(t, rv.Values); !sameMap(x, r.vals) {
		t.Fatalf("%s: the values are stored as %v instead of %v", what, x, r.vals)
	}
	if x := decodeKV(t, rv.Digests); !sameMap(x, r.digs) {
		t.Fatalf("%s: the digests are stored as %v instead of %v", what, x, r.digs)
	}
}

func genC17(g *G) {
	longC17(g)
	slots := []uint16{0, 1, 255, 256, 65535}
	scalars := []*big.Int{new(big.Int), bigOne, new(big.Int).Sub(two63, bigOne), new(big.Int).Lsh(bigOne, 248), rMinus1, big.NewInt(256)}
	pick := func(mask, shift int) map[uint16]*big.Int {
		m := map[uint16]*big.Int{}
		for i, s := range slots {
			if mask&(1<<uint(i)) != 0 {
				m[s] = scalars[(i+shift)%len(scalars)]
			}
		}
		return m
	}
	for mask := 0; mask < 32; mask++ {
		for shift := range scalars {
			mask, shift := mask, shift
			run := func(t *T) {
				for dm := 0; dm < 32; dm++ {
					if dm != 0 && dm != mask && dm != 31^mask && !(g.Thorough || shift == 0) {
						continue
					}
					for _, withW := range []bool{false, true} {
						V := C.GenG1.Mul(Zr(int64(mask*7 + shift + 3)))
						if shift == 5 {
							V = ZeroG1()
						}
						r := rawV{blind: scalars[shift], sum: scalars[(shift+2)%len(scalars)], vals: pick(mask, shift), digs: pick(dm, shift+1), V: V.Bytes()}
						if withW {
							r.W = C.GenG1.Mul(Zr(int64(dm + 2))).Bytes()
						}
						v := &verkle.Vertex{}
						v.FromBytes(r.encode(dm%2 == 1))
						what := fmt.Sprintf("vertex with slots %05b, digests %05b", mask, dm)
						compareVertex(t, what, v, r)
						// and again, over an object that held something else
						u := &verkle.Vertex{}
						u.FromBytes(rawV{blind: bigTwo, sum: bigTwo, vals: pick(31, 1), digs: pick(31, 2), V: C.GenG1.Bytes()}.encode(false))
						u.FromBytes(v.Bytes())
						compareVertex(t, what+", reused", u, r)
						if withW || dm != 0 {
							d := HashRef(r.V, r.W)
							if Big(v.Digest()).Cmp(d) != 0 || Big(u.Digest()).Cmp(d) != 0 {
								t.Fatalf("%s: the digest changed over storing", what)
							}
						}
						t.State("vertex", mask, dm, shift, withW)
						t.Step()
						t.Cut()
					}
				}
				t.Obs("held")
			}
			id := fmt.Sprintf("vertex/%05b/%d", mask, shift)
			if shift == 0 && mask%8 == 5 {
				g.Real(id, run)
			} else {
				g.Case(id, run)
			}
		}
	}

	for _, c := range treeConfigs(g.Thorough) {
		c := c
		depth := c.depth
		if depth > 3 && !g.Thorough {
			depth = 3
		}
		sequences(append(alphabet(c.ids, c.vals[:1]), setOp{c.ids[0], 12}), depth, func(ops []setOp) {
			run := func(t *T) {
				db := NewDB()
				tree := verkle.NewVerkleTree(uint16(c.fanout), c.id2path, db)
				l := Ledger{}
				for i, o := range ops {
					tree.Put(o.id, o.v+int64(i))
					l[o.id] = o.v + int64(i)
					t.Step()
				}
				before := db.Snapshot()
				dump := &bytes.Buffer{}
				tree.Serialize(dump)
				if db.Snapshot() != before {
					t.Fatalf("exporting changed the database")
				}
				checkDump(t, dump.Bytes(), tree, c, l)
				for _, id := range l.IDs() {
					if n, _, ok := tree.Get(id); !ok || n != l[id] {
						t.Fatalf("after exporting, Get(%s)=%d,%v", id, n, ok)
					}
				}
				again := &bytes.Buffer{}
				tree.Serialize(again)
				checkDump(t, again.Bytes(), tree, c, l)
				t.State("dump", c.name, l)
				t.Outcome(fmt.Sprintf("dump of %d ids", len(l)))
				t.Obs("%d ids dumped", len(l))
			}
			id := fmt.Sprintf("dump/%s/%v", c.name, ops)
			if c.real && len(ops) == 2 && ops[0].id != ops[1].id && c.fanout == 3 {
				g.Real(id, run)
			} else {
				g.Case(id, run)
			}
		})
		g.Case("dump/"+c.name+"/empty", func(t *T) {
			tree := verkle.NewVerkleTree(uint16(c.fanout), c.id2path, NewDB())
			dump := &bytes.Buffer{}
			t.Eval()
			tree.Serialize(dump)
			if es := readDump(t, dump.Bytes()); len(es) != 0 {
				t.Fatalf("the dump of an empty tree has %d entries", len(es))
			}
			t.State("dump", c.name, "empty")
		})
	}
	// vertices of every size class of the length prefixes: single records up to hundreds of kilobytes
	for _, n := range []int{1, 3, 4, 7, 300, 600, 1000, 2000} {
		for _, f := range []int{1023, 2047} {
			n, f := n, f
			if n >= f {
				continue
			}
			g.Case(fmt.Sprintf("wide/f%d/%d", f, n), func(t *T) {
				db := NewDB()
				c := config{name: "wide", fanout: f, id2path: PathDot}
				tree := verkle.NewVerkleTree(uint16(f), PathDot, db)
				// the digits of 1024 records below one vertex, put there one by one, cost 1024 commitments of 1024 terms each
				l := Ledger{}
				for i := 0; i < n; i++ {
					id := fmt.Sprintf("%d", (i*7)%f)
					tree.Put(id, int64(i+1))
					l[id] = int64(i + 1)
				}
				dump := &bytes.Buffer{}
				tree.Serialize(dump)
				checkDump(t, dump.Bytes(), tree, c, l)
				t.State("wide", f, n)
			})
		}
	}
	// every vertex along every path, through a liability set: what was stored is what is read
	for _, s := range []shape{shallow(3, 2), shallow(3, 3), shallow(7, 2), shallow(15, 2)} {
		s := s
		all := s.ids()
		for k := 0; k < len(all); k += 9 {
			k := k
			g.Case(fmt.Sprintf("all/%s/%d", s.name, k), func(t *T) {
				db := NewDB()
				tree := verkle.NewVerkleTree(uint16(s.fanout), s.id2path, db)
				l := Ledger{}
				for i := 0; i < 9; i++ {
					id := all[(k+i*(1+k%5))%len(all)]
					tree.Put(id, int64(1)<<uint(7*i))
					l[id] = int64(1) << uint(7*i)
				}
				dump := &bytes.Buffer{}
				tree.Serialize(dump)
				checkDump(t, dump.Bytes(), tree, config{name: s.name, fanout: s.fanout, id2path: s.id2path}, l)
				t.State("all", s.name, k)
			})
		}
	}
	// a tree of more than a thousand vertices
	for _, s := range []shape{shallow(3, 7), shallow(15, 3)} {
		s := s
		g.Case("all/"+s.name, func(t *T) {
			tree := verkle.NewVerkleTree(uint16(s.fanout), s.id2path, NewDB())
			tree.PP = s.pp().PPPP
			l := Ledger{}
			all := s.ids()
			for i := 0; i < len(all) && i < 2187; i++ {
				id := all[i*1009%len(all)]
				tree.Put(id, int64(i)<<20+1)
				l[id] = int64(i)<<20 + 1
			}
			dump := &bytes.Buffer{}
			tree.Serialize(dump)
			checkDump(t, dump.Bytes(), tree, config{name: s.name, fanout: s.fanout, id2path: s.id2path}, l)
			t.State("all", s.name)
		})
	}
}

type entry struct {
	path   string
	vertex []byte
}

// readDump parses the export format.
func readDump(t *T, b []byte) []entry {
	var r []entry
	for len(b) > 0 {
		if len(b) < 32 {
			t.Fatalf("%d stray bytes at the end of the dump", len(b))
		}
		n := int(binary.BigEndian.Uint32(b[:4]))
		b = b[32:]
		if n > len(b) {
			t.Fatalf("an entry of %d bytes, but only %d are left", n, len(b))
		}
		var rv sparse.RawVertex
		rest, err := asn1.Unmarshal(b[:n], &rv)
		if err != nil || len(rest) != 0 {
			t.Fatalf("an entry does not parse: %v, %d bytes left", err, len(rest))
		}
		r = append(r, entry{rv.Path, rv.Vertex})
		b = b[n:]
	}
	return r
}

func pathKey(p []uint16) string {
	s := ""
	for _, x := range p {
		s += fmt.Sprintf(".%d", x)
	}
	return s
}

func checkDump(t *T, b []byte, tree *verkle.Tree, c config, l Ledger) {
	t.Eval()
	want := map[string]*verkle.Vertex{}
	leaf := map[string]bool{}
	for _, id := range l.IDs() {
		p := c.id2path(id)
		_, vs, ok := tree.Get(id)
		if !ok {
			t.Fatalf("no vertices for %s", id)
		}
		for i := range p {
			want[pathKey(p[:i])] = vs[i]
		}
		want[pathKey(p)] = nil
		leaf[pathKey(p)] = true
	}
	seen := map[string]bool{}
	vertices := map[string]*verkle.Vertex{}
	prefixes := map[string][]uint16{}
	for _, e := range readDump(t, b) {
		w, have := want[e.path]
		if !have {
			t.Fatalf("the dump has an entry for %q, which the ledger %s does not have", e.path, l)
		}
		if seen[e.path] {
			t.Fatalf("the dump has two entries for %q", e.path)
		}
		seen[e.path] = true
		if leaf[e.path] {
			continue
		}
		if len(e.vertex) == 0 {
			t.Fatalf("the entry for %q is empty", e.path)
		}
		v := &verkle.Vertex{}
		if p, _ := Try(func() { v.FromBytes(e.vertex) }); p != nil {
			t.Fatalf("the entry for %q cannot be read back: %v", e.path, p)
		}
		r := rawV{blind: Big(w.BlindingFactor), vals: map[uint16]*big.Int{}, digs: map[uint16]*big.Int{}, V: w.V.Bytes()}
		for j, z := range w.Values(c.fanout + 1) {
			if j == c.fanout {
				r.sum = Big(z)
			} else if x := Big(z); x.Sign() != 0 {
				r.vals[uint16(j)] = x
			}
		}
		for k, z := range w.Digests {
			r.digs[k] = Big(z)
		}
		if w.W != nil {
			r.W = w.W.Bytes()
		}
		if Big(v.BlindingFactor).Cmp(r.blind) != 0 || !bytes.Equal(v.V.Bytes(), r.V) || (v.W == nil) != (w.W == nil) || (v.W != nil && !bytes.Equal(v.W.Bytes(), r.W)) {
			t.Fatalf("the entry for %q is not the vertex of the tree", e.path)
		}
		k := fmt.Sprint(parsePath(e.path))
		vertices[k] = v
		prefixes[k] = parsePath(e.path)
	}
	if len(seen) != len(want) {
		t.Fatalf("the dump has %d entries for %d vertices of %s", len(seen), len(want), l)
	}
	checkVertices(t, vertices, prefixes, tree.PP.G1s, tree.PP.N, c, l)
}

func parsePath(s string) []uint16 {
	p := []uint16{}
	n := -1
	for _, ch := range s {
		if ch == '.' {
			if n >= 0 {
				p = append(p, uint16(n))
			}
			n = 0
			continue
		}
		n = 10*n + int(ch-'0')
	}
	if n >= 0 {
		p = append(p, uint16(n))
	}
	return p
}
