package checks

import (
	"fmt"
	"sort"

	. "mc/eng"
	. "mc/lib"

	"pol/sparse"
)

func init() {
	Register(&Check{
		ID: "C22", Level: "model_checking",
		Rule: "every history of insertions with a callback that records its arguments and returns a token never seen before; every call is compared with a reference tree: which vertex, its data, the data of all children, layer, slot and order; " +
			"after every insertion every id is looked up and the data along its path must be the tokens returned last. A state is distinct when shape and history (as the set of ids and last tokens' order) differ",
		Bounds:      "sequences up to length 4 (quick) / 6 (thorough) over 3-5 ids on fanouts 2-1023 and depths 1-5, including ids whose concatenated path digits coincide; up to length 2-3 (thorough 5) with stored values nil, zero, empty and repeated and callbacks that return nothing or overwrite the children they are given; all insertion orders of full depth-2 layers of fanout 2 and of 6 scattered ids; repeated words and passes over all ids (50-675 insertions), and histories of 9 000-66 000 insertions",
		Assumptions: []string{"the callback does not touch the tree"},
		Gen:         genC22,
	})
}

type token struct{ n int }

func genC22(g *G) {
	longC22(g)
	hugeC22(g)
	d := 4
	if g.Thorough {
		d = 6
	}
	dd := func(x int) int {
		if x > d {
			return d
		}
		return x
	}
	cfgs := []config{
		{name: "f2d1", fanout: 2, id2path: Path, ids: []string{"0", "1"}, depth: dd(6)},
		{name: "f3d2", fanout: 3, id2path: Path, ids: []string{"00", "01", "12", "20"}, absent: []string{"22", "02"}, depth: d},
		{name: "f3d3", fanout: 3, id2path: Path, ids: []string{"000", "001", "010", "200"}, absent: []string{"222", "011"}, depth: d},
		{name: "f4d5", fanout: 4, id2path: Path, ids: []string{"00000", "00003", "33333"}, absent: []string{"00001"}, depth: d},
		{name: "f1023d2", fanout: 1023, id2path: PathDot, ids: []string{"1.11", "11.1", "111.1", "1.111", "1022.1022"}, absent: []string{"11.11"}, depth: d - 1},
		{name: "f1023d3", fanout: 1023, id2path: PathDot, ids: []string{"1.1.11", "1.11.1", "11.1.1", "256.0.256"}, absent: []string{"11.1.11", "0.256.0"}, depth: d - 1},
		{name: "f65535d2", fanout: 65535, id2path: PathDot, ids: []string{"0.65534", "65534.0"}, absent: []string{"0.0"}, depth: 2},
		{name: "dense7", fanout: 7, id2path: sparse.DigitPath(7), ids: []string{"000000000", "999999999", "000000007"}, absent: []string{"100000000"}, depth: 3},
		{name: "hex31", fanout: 31, id2path: sparse.HexId2PathForFanOut(31), ids: []string{hexA, hexB}, absent: []string{hexC}, depth: 2},
	}
	for _, c := range cfgs {
		c := c
		sequences(alphabet(c.ids, []int64{1}), c.depth, func(ops []setOp) {
			run := func(t *T) { runC22(t, c, ops) }
			id := fmt.Sprintf("%s/%v", c.name, ops)
			if len(ops) == 2 {
				g.Real(id, run)
			} else {
				g.Case(id, run)
			}
		})
	}
	// stored values of all kinds, among them none, zero values and repeated ones
	values := []interface{}{nil, int64(0), 0, "", "x", []byte(nil), false, (*token)(nil), struct{}{}}
	for _, c := range []config{
		{name: "f3d2", fanout: 3, id2path: Path, ids: []string{"00", "01", "12"}, absent: []string{"22", "02"}, depth: d - 1},
		{name: "f3d3", fanout: 3, id2path: Path, ids: []string{"000", "001", "200"}, absent: []string{"222", "011"}, depth: 2},
		{name: "f2d1", fanout: 2, id2path: Path, ids: []string{"0", "1"}, depth: d - 1},
	} {
		c := c
		kinds := []int64{0, 1, 4}
		if c.depth < 3 {
			kinds = nil
			for k := range values {
				kinds = append(kinds, int64(k))
			}
		}
		sequences(alphabet(c.ids, kinds), c.depth, func(ops []setOp) {
			for _, silent := range []bool{false, true} {
				silent := silent
				g.Case(fmt.Sprintf("values/%s/%v/silent=%v", c.name, ops, silent), func(t *T) { runC22Leaf(t, c, ops, values, silent, false) })
			}
			g.Case(fmt.Sprintf("values/%s/%v/overwritten", c.name, ops), func(t *T) { runC22Leaf(t, c, ops, values, false, true) })
		})
	}
	// all orders
	for _, c := range []config{
		{name: "orders4", fanout: 2, id2path: Path, ids: []string{"00", "01", "10", "11"}},
		{name: "orders6", fanout: 3, id2path: Path, ids: []string{"000", "001", "012", "100", "122", "222"}},
	} {
		c := c
		var rec func(cur []setOp, left []string)
		rec = func(cur []setOp, left []string) {
			if len(left) == 0 {
				g.Case(fmt.Sprintf("%s/%v", c.name, cur), func(t *T) { runC22(t, c, cur) })
				return
			}
			for i := range left {
				rest := append(append([]string{}, left[:i]...), left[i+1:]...)
				rec(append(cur[:len(cur):len(cur)], setOp{left[i], 1}), rest)
			}
		}
		rec(nil, c.ids)
	}
}

func runC22(t *T, c config, ops []setOp) {
	runC22Leaf(t, c, ops, nil, false, false)
}

// runC22Leaf stores values[amount] for an operation if values are given; the
// callback returns nil if silent, and overwrites the children it is given if
// scribble.
func runC22Leaf(t *T, c config, ops []setOp, values []interface{}, silent, scribble bool) {
	type call struct {
		key   string
		node  interface{}
		desc  []interface{}
		leaf  bool
		index int
		out   interface{}
	}
	var calls []call
	n := 0
	tree := &sparse.Tree{FanOut: c.fanout, ID2Path: c.id2path}
	tree.UpdateInnerVertex = func(key string, node interface{}, desc []interface{}, leaves bool, index int) interface{} {
		n++
		var out interface{} = &token{n}
		if silent {
			out = nil
		}
		calls = append(calls, call{key, node, append([]interface{}{}, desc...), leaves, index, out})
		for i := range desc {
			if scribble {
				desc[i] = &token{-n}
			}
		}
		return out
	}
	data := map[string]interface{}{} // prefix -> data
	kids := map[string]map[uint16]bool{}
	keyOf, prefixOf := map[string]string{}, map[string]string{}
	lookup := func(when string) {
		for _, id := range append(append([]string{}, c.ids...), c.absent...) {
			p := c.id2path(id)
			want, have := data[pathKey(p)]
			got, vs, ok := tree.Get(id)
			t.Eval()
			if ok != have || (ok && !identical(got, want)) || (!ok && got != nil) {
				t.Fatalf("%s: looking up %s gives %v,%v instead of %v,%v", when, id, got, ok, want, have)
			}
			if !ok {
				continue
			}
			if len(vs) != len(p) {
				t.Fatalf("%s: %d vertices along the path %v", when, len(vs), p)
			}
			for i, v := range vs {
				if x := v.(*sparse.Vertex).Data; !identical(x, data[pathKey(p[:i])]) {
					t.Fatalf("%s: vertex %v holds %v and not what the callback returned last, %v", when, p[:i], x, data[pathKey(p[:i])])
				}
			}
		}
	}
	lookup("at the start")
	show := ops
	if len(show) > 700 {
		show = show[:10]
	}
	for step, o := range ops {
		calls = nil
		n++
		var leaf interface{} = &token{n}
		if values != nil {
			leaf = values[o.v]
		}
		p := c.id2path(o.id)
		tree.Put(o.id, leaf)
		t.Step()
		data[pathKey(p)] = leaf
		for i := range p {
			k := pathKey(p[:i])
			if kids[k] == nil {
				kids[k] = map[uint16]bool{}
			}
			kids[k][p[i]] = true
		}
		what := fmt.Sprintf("%s: insertion %d of %v", c.name, step, show)
		if len(calls) != len(p) {
			t.Fatalf("%s: %d vertices were recomputed for a path of length %d", what, len(calls), len(p))
		}
		for q, cl := range calls {
			i := len(p) - 1 - q
			prefix := pathKey(p[:i])
			if old, have := keyOf[prefix]; have && old != cl.key {
				t.Fatalf("%s: the key of vertex %q went from %q to %q", what, prefix, old, cl.key)
			}
			if old, have := prefixOf[cl.key]; have && old != prefix {
				t.Fatalf("%s: vertices %q and %q have the same key %q", what, old, prefix, cl.key)
			}
			keyOf[prefix], prefixOf[cl.key] = cl.key, prefix
			if !identical(cl.node, data[prefix]) {
				t.Fatalf("%s: call %d is given %v as the data of vertex %q, which is %v", what, q, cl.node, prefix, data[prefix])
			}
			if cl.leaf != (q == 0) {
				t.Fatalf("%s: call %d says leaves=%v", what, q, cl.leaf)
			}
			if cl.index != int(p[i]) {
				t.Fatalf("%s: call %d names slot %d instead of %d", what, q, cl.index, p[i])
			}
			if len(cl.desc) != c.fanout {
				t.Fatalf("%s: call %d is given %d children", what, q, len(cl.desc))
			}
			for j := range cl.desc {
				var want interface{}
				if kids[prefix][uint16(j)] {
					want = data[prefix+fmt.Sprintf(".%d", j)]
				}
				if !identical(cl.desc[j], want) {
					t.Fatalf("%s: call %d is given %v as child %d of %q instead of %v", what, q, cl.desc[j], j, prefix, want)
				}
			}
			data[prefix] = cl.out
		}
		lookup(what)
	}
	var ks []string
	for k := range data {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var order []string
	for _, k := range ks {
		if x, is := data[k].(*token); is && x != nil {
			order = append(order, fmt.Sprint(x.n))
		} else {
			order = append(order, fmt.Sprintf("%T %v", data[k], data[k]))
		}
	}
	t.State(c.name, ks, order, silent, scribble)
	t.Obs("%d vertices", len(data))
	t.Outcome(fmt.Sprintf("%d insertions", len(ops)))
}

// identical compares stored values, byte strings included.
func identical(a, b interface{}) bool {
	if x, is := a.([]byte); is {
		y, is := b.([]byte)
		return is && (x == nil) == (y == nil) && string(x) == string(y)
	}
	if _, is := b.([]byte); is {
		return false
	}
	return a == b
}
