package checks

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"

	. "mc/eng"
	"mc/env"
	. "mc/lib"

	"pol/bp"
	"pol/pol"
	"pol/sparse"

	math "github.com/IBM/mathlib"
)

func init() {
	Register(&Check{
		ID: "C06", Level: "model_checking",
		Rule: "honest proofs are altered in every component they consist of (found by walking the proof), one at a time in up to six ways, two at a time by opposite amounts, by swapping neighbours, " +
			"and by transplanting every component from proofs of another id, another history and the same statement; and are verified for every other id, amount, root and parameter set. A state is distinct when a different component and alteration is applied",
		Bounds: "every component and every pair of components of depth-2 proofs (quick) and of depth-3 proofs (thorough: pairs as well); all ids of the tree as wrong ids; every single component of a depth-3, a padded depth-4 and a fanout-7 proof, with and without parallelism; single components of layers 15-17, 32-33 and 63-66 of proofs with up to 67 layers",
		Assumptions: []string{"the inner product proofs' own copies of the commitment and product (recomputed by the verifier) and the digest slot of the last layer (not part of the statement) are exempt",
			"group elements are represented by discrete logarithms (validated against BN254 on the listed traces)"},
		Gen: genC06,
	})
	Register(&Check{
		ID: "C08", Level: "model_checking",
		Rule: "every vector inside an honest proof is shortened, emptied, dropped, extended and repeated; every pair of such changes to matching vectors is tried as well; the verifier must return an error: not accept, not crash, not hang, " +
			"with and without parallelism; a state is distinct when a different vector and change is applied",
		Bounds:      "all vectors of a liability proof (depths 2-4), range proof, sum proof, aggregated equality proof and inner product proof; all pairs of top-level vectors; all pairs of simultaneous failures in two layers",
		Assumptions: []string{"no component is a nil pointer (there is no decoder that would produce one)"},
		Gen:         genC08,
	})
}

type honest struct {
	s     shape
	pp    *pol.PublicParams
	id    string
	l     Ledger
	V, W  *math.G1
	proof pol.LiabilityProof
}

var honests = map[string]*honest{}

// prepare builds a proof once per process, from a fixed seed.
func prepare(key string, s shape, ops []setOp, id string) *honest {
	if h := honests[key]; h != nil {
		return h
	}
	pp := s.pp()
	env.Seed(caseHash(key))
	ls, l, _ := build(s, ops)
	V, W := ls.Root()
	_, p, _, ok := ls.ProveLiability(id)
	if !ok {
		panic("no honest proof for " + id)
	}
	h := &honest{s, pp, id, l, V, W, p}
	honests[key] = h
	if _, err := p.Verify(pp, id, V, W, s.id2path); err != nil {
		panic(fmt.Sprintf("the honest proof of %s is rejected: %v", id, err))
	}
	return h
}

func caseHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func (h *honest) clone() *pol.LiabilityProof {
	p := Clone(h.proof).(pol.LiabilityProof)
	return &p
}

func (h *honest) verify(p *pol.LiabilityProof) error {
	_, err := p.Verify(h.pp, h.id, h.V, h.W, h.s.id2path)
	return err
}

var tyIPP = reflect.TypeOf(bp.InnerProductProof{})

// exempt are components the verifier recomputes, or that carry no statement.
func exempt(l Leaf, layers int) bool {
	if l.Parent == tyIPP && (strings.HasSuffix(l.Path, ".P") || strings.HasSuffix(l.Path, ".C")) {
		return true
	}
	return l.Path == fmt.Sprintf(".Digests[%d]", layers-1)
}

func components(p interface{}, layers int) []Leaf {
	var r []Leaf
	for _, l := range Leaves(p) {
		if !exempt(l, layers) {
			r = append(r, l)
		}
	}
	return r
}

func proofShapes() []struct {
	key string
	s   shape
	ops []setOp
	id  string
} {
	return []struct {
		key string
		s   shape
		ops []setOp
		id  string
	}{
		{"f3d2", shallow(3, 2), []setOp{{"00", 5}, {"01", 9}, {"12", 4}}, "12"},
		{"f3d3", shallow(3, 3), []setOp{{"000", 5}, {"012", 9}, {"220", 4}}, "012"},
		{"f3d4", shallow(3, 4), []setOp{{"0000", 5}, {"0120", 9}, {"2201", 4}}, "0120"},
		{"f7d2", shallow(7, 2), []setOp{{"00", 5}, {"06", 9}, {"65", 4}}, "06"},
	}
}

func genC06(g *G) {
	books(g, map[string]bool{"stale-w": true, "stale-v": true, "stale-amount": true, "digest": true, "digestslot": true})
	deepC06(g)
	for _, ps := range proofShapes() {
		ps := ps
		get := func() *honest { return prepare("C06"+ps.key, ps.s, ps.ops, ps.id) }
		n := len(components(get().clone(), ps.s.depth))
		// single components
		for i := 0; i < n; i++ {
			i := i
			run := func(t *T) {
				h := get()
				p := h.clone()
				leaf := components(p, ps.s.depth)[i]
				names, vals := Tampered(leaf.V)
				orig := reflect.New(leaf.V.Type()).Elem()
				orig.Set(leaf.V)
				for k := range vals {
					leaf.V.Set(vals[k])
					t.Eval()
					t.Step()
					err := h.verify(p)
					t.Obs("%s %s rejected=%v", leaf.Path, names[k], err != nil)
					if err == nil {
						t.Fatalf("%s: accepted although %s was changed (%s)", ps.key, leaf.Path, names[k])
					}
					t.State(ps.key, leaf.Path, names[k])
					if k < 2 || g.Thorough {
						inParallel(func() {
							t.Eval()
							if h.verify(p) == nil {
								t.Fatalf("%s: accepted with parallelism although %s was changed (%s)", ps.key, leaf.Path, names[k])
							}
						})
					}
				}
				leaf.V.Set(orig)
				if err := h.verify(p); err != nil {
					t.Fatalf("the restored proof is rejected: %v", err)
				}
			}
			id := fmt.Sprintf("one/%s/%d", ps.key, i)
			if ps.key == "f3d2" && i%11 == 3 {
				g.Real(id, run)
			} else {
				g.Case(id, run)
			}
		}
		// pairs, by opposite amounts
		if ps.key == "f3d2" || (g.Thorough && ps.key == "f3d3") {
			for i := 0; i < n; i++ {
				i := i
				g.Case(fmt.Sprintf("two/%s/%d", ps.key, i), func(t *T) {
					h := get()
					p := h.clone()
					ls := components(p, ps.s.depth)
					for j := i + 1; j < n; j++ {
						if ls[i].V.Type() != ls[j].V.Type() {
							continue
						}
						a, b := reflect.ValueOf(ls[i].V.Interface()), reflect.ValueOf(ls[j].V.Interface())
						var alts [][2]interface{}
						switch x := a.Interface().(type) {
						case *math.G1:
							y := b.Interface().(*math.G1)
							up, down := x.Copy(), y.Copy()
							up.Add(C.GenG1)
							down.Sub(C.GenG1)
							alts = append(alts, [2]interface{}{up, down})
							if !x.Equals(y) {
								alts = append(alts, [2]interface{}{y, x})
							}
						case *math.Zr:
							y := b.Interface().(*math.Zr)
							one := big.NewInt(1)
							alts = append(alts, [2]interface{}{ZrBig(new(big.Int).Add(Big(x), one)), ZrBig(new(big.Int).Sub(Big(y), one))})
							if !ZrEq(x, y) {
								alts = append(alts, [2]interface{}{y, x})
							}
						}
						for k, alt := range alts {
							ls[i].V.Set(reflect.ValueOf(alt[0]))
							ls[j].V.Set(reflect.ValueOf(alt[1]))
							t.Eval()
							t.Step()
							if h.verify(p) == nil {
								t.Fatalf("%s: accepted although %s and %s were changed (alteration %d)", ps.key, ls[i].Path, ls[j].Path, k)
							}
							t.State(ps.key, i, j, k)
						}
						ls[i].V.Set(a)
						ls[j].V.Set(b)
					}
				})
			}
		}
		// the statement
		ids := ps.s.ids()
		if len(ids) > 100 {
			ids = ids[:100]
		}
		g.Case("ids/"+ps.key, func(t *T) {
			h := get()
			for _, id := range ids {
				if id == h.id {
					continue
				}
				t.Eval()
				t.State("id", ps.key, id)
				if _, err := h.proof.Verify(h.pp, id, h.V, h.W, h.s.id2path); err == nil {
					t.Fatalf("%s: the proof of %s is accepted for %s", ps.key, h.id, id)
				}
			}
		})
		g.Real("amounts/"+ps.key, func(t *T) {
			h := get()
			cand := candidates(int64(h.proof.LiabilityProof.Sum), h.l)
			if !env.Toy {
				cand = cand[:8]
			}
			for _, x := range cand {
				p := h.clone()
				p.LiabilityProof.Sum = int(x)
				t.Eval()
				t.State("amount", ps.key, x)
				if h.verify(p) == nil {
					t.Fatalf("%s: a liability of %d is accepted as %d", ps.key, h.proof.LiabilityProof.Sum, x)
				}
			}
			t.Obs("no other amount accepted")
		})
		g.Case("roots/"+ps.key, func(t *T) {
			h := get()
			other := prepare("C06other"+ps.key, ps.s, append(append([]setOp{}, ps.ops...), setOp{ps.ops[0].id, 77}), ps.id)
			var Vs, Ws []*math.G1
			for _, x := range tamperG1(h.V) {
				Vs = append(Vs, x)
			}
			for _, x := range tamperG1(h.W) {
				Ws = append(Ws, x)
			}
			Vs = append(Vs, other.V, h.W)
			Ws = append(Ws, other.W, h.V)
			for _, V := range Vs {
				t.Eval()
				if _, err := h.proof.Verify(h.pp, h.id, V, h.W, h.s.id2path); err == nil {
					t.Fatalf("accepted under another value commitment")
				}
			}
			for _, W := range Ws {
				t.Eval()
				if _, err := h.proof.Verify(h.pp, h.id, h.V, W, h.s.id2path); err == nil {
					t.Fatalf("accepted under another digest commitment")
				}
			}
			if _, err := h.proof.Verify(h.pp, h.id, other.V, other.W, h.s.id2path); err == nil {
				t.Fatalf("accepted under another root")
			}
			t.State("roots", ps.key)
		})
		g.Case("params/"+ps.key, func(t *T) {
			h := get()
			env.Seed(caseHash("otherparams"))
			pp2 := NewMiniPP(ps.s.fanout, M(ps.s.depth))
			t.Eval()
			if p, _ := Try(func() {
				if _, err := h.proof.Verify(pp2, h.id, h.V, h.W, h.s.id2path); err == nil {
					t.Fatalf("accepted under other public parameters")
				}
			}); p != nil {
				t.Fatalf("crashed under other public parameters: %v", p)
			}
			t.State("params", ps.key)
		})
		// transplants
		donors := []struct {
			name string
			ops  []setOp
			id   string
		}{
			{"again", ps.ops, ps.id},
			{"otherid", ps.ops, ps.ops[0].id},
			{"later", append(append([]setOp{}, ps.ops...), setOp{ps.id, 1000}), ps.id},
			{"sameamount", append(append([]setOp{}, ps.ops...), setOp{ps.ops[0].id, 6}, setOp{ps.ops[0].id, 5}), ps.id},
		}
		for _, d := range donors {
			d := d
			g.Case("transplant/"+ps.key+"/"+d.name, func(t *T) {
				h := get()
				o := prepare("C06donor"+ps.key+d.name, ps.s, d.ops, d.id)
				from := components(o.clone(), ps.s.depth)
				p := h.clone()
				to := components(p, ps.s.depth)
				if len(from) != len(to) {
					t.Skip("proofs of one shape differ in size")
				}
				for i := range to {
					if SameElem(to[i].V, from[i].V) {
						continue
					}
					orig := reflect.New(to[i].V.Type()).Elem()
					orig.Set(to[i].V)
					to[i].V.Set(from[i].V)
					t.Eval()
					t.Step()
					if h.verify(p) == nil {
						t.Fatalf("%s: accepted with %s taken from another proof (%s)", ps.key, to[i].Path, d.name)
					}
					to[i].V.Set(orig)
					t.State("transplant", ps.key, d.name, i)
				}
			})
			// whole sub-proofs of the proof of another statement
			if d.name == "otherid" || d.name == "later" {
				g.Case("graft/"+ps.key+"/"+d.name, func(t *T) {
					h := get()
					o := prepare("C06donor"+ps.key+d.name, ps.s, d.ops, d.id)
					tv := reflect.TypeOf(h.proof)
					n := tv.NumField()
					for mask := 1; mask < 1<<uint(n)-1; mask++ {
						p, q := h.clone(), o.clone()
						changed := false
						for f := 0; f < n; f++ {
							if mask&(1<<uint(f)) != 0 {
								a, b := reflect.ValueOf(p).Elem().Field(f), reflect.ValueOf(q).Elem().Field(f)
								a.Set(b)
								changed = true
							}
						}
						if !changed {
							continue
						}
						t.Eval()
						err := h.verify(p)
						t.State("graft", ps.key, d.name, mask)
						if err == nil && (p.LiabilityProof.Sum != h.proof.LiabilityProof.Sum) {
							t.Fatalf("%s: accepted a proof of %d instead of %d, mask %b of %s", ps.key, p.LiabilityProof.Sum, h.proof.LiabilityProof.Sum, mask, d.name)
						}
					}
				})
			}
		}
	}
	// the real dense tree
	d7 := shape{"dense7", 7, 11, sparse.DigitPath(7), "dense"}
	dops := []setOp{{"000000000", 5}, {"999999999", 9}, {"123456789", 4}}
	nd := 0
	if h := prepare("C06dense7", d7, dops, "123456789"); h != nil {
		nd = len(components(h.clone(), d7.depth))
	}
	for i := 0; i < nd; i++ {
		i := i
		if !g.Thorough && i%5 != 0 {
			continue
		}
		g.Case(fmt.Sprintf("one/dense7/%d", i), func(t *T) {
			h := prepare("C06dense7", d7, dops, "123456789")
			p := h.clone()
			leaf := components(p, d7.depth)[i]
			_, vals := Tampered(leaf.V)
			leaf.V.Set(vals[0])
			t.Eval()
			t.Step()
			t.State("dense7", i)
			if h.verify(p) == nil {
				t.Fatalf("dense7: accepted although %s was changed", leaf.Path)
			}
		})
	}
	for _, wrong := range []string{"123456788", "000000000", "999999999", "012345678", "123456780"} {
		wrong := wrong
		g.Case("ids/dense7/"+wrong, func(t *T) {
			h := prepare("C06dense7", d7, dops, "123456789")
			t.Eval()
			if _, err := h.proof.Verify(h.pp, wrong, h.V, h.W, h.s.id2path); err == nil {
				t.Fatalf("the proof of 123456789 is accepted for %s", wrong)
			}
			t.State("dense7 id", wrong)
		})
	}
}

// resize lists changed lengths of a slice.
func resize(v reflect.Value) (names []string, vals []reflect.Value) {
	n := v.Len()
	add := func(name string, x reflect.Value) { names = append(names, name); vals = append(vals, x) }
	grow := func(k int) reflect.Value {
		r := reflect.MakeSlice(v.Type(), 0, n+k)
		r = reflect.AppendSlice(r, v)
		for i := 0; i < k; i++ {
			r = reflect.Append(r, v.Index(i%n))
		}
		return r
	}
	if n == 0 {
		return
	}
	add("dropped", reflect.Zero(v.Type()))
	if n > 1 {
		add("one short at the end", v.Slice(0, n-1))
		add("one short at the front", v.Slice(1, n))
		add("halved", v.Slice(0, n/2))
		add("one element", v.Slice(0, 1))
	}
	add("one more", grow(1))
	add("two more", grow(2))
	add("doubled", grow(n))
	r := reflect.MakeSlice(v.Type(), 0, n+1)
	r = reflect.Append(r, v.Index(0))
	r = reflect.AppendSlice(r, v)
	add("one more in front", r)
	return
}

func genC08(g *G) {
	judge := func(t *T, what string, f func() error) {
		t.Eval()
		t.Step()
		var err error
		p, stack := Try(func() { err = f() })
		if p != nil {
			t.Fatalf("crashed on a proof with %s: %v\n%s", what, p, stack)
		}
		t.Obs("%s rejected=%v", what, err != nil)
		if err == nil {
			t.Fatalf("accepted a proof with %s", what)
		}
	}
	for _, ps := range proofShapes() {
		ps := ps
		get := func() *honest { return prepare("C06"+ps.key, ps.s, ps.ops, ps.id) }
		n := len(Slices(get().clone()))
		for i := 0; i < n; i++ {
			for _, par := range []bool{false, true} {
				i, par := i, par
				run := func(t *T) {
					pol.ParallelismEnabled = par
					defer func() { pol.ParallelismEnabled = false }()
					h := get()
					p := h.clone()
					v := Slices(p)[i]
					orig := reflect.New(v.V.Type()).Elem()
					orig.Set(v.V)
					names, vals := resize(orig)
					for k := range vals {
						v.V.Set(vals[k])
						judge(t, v.Path+" "+names[k], func() error { return h.verify(p) })
						t.State(ps.key, v.Path, names[k])
					}
				}
				id := fmt.Sprintf("vec/%s/%d/parallel=%v", ps.key, i, par)
				if ps.key == "f3d2" && i%3 == 1 && !par {
					g.Real(id, run)
				} else {
					g.Case(id, run)
				}
			}
		}
		// pairs of top-level vectors changed together
		g.Case("pairs/"+ps.key, func(t *T) {
			h := get()
			top := func(p *pol.LiabilityProof) []Leaf {
				var r []Leaf
				for _, l := range Slices(p) {
					if strings.Count(l.Path, ".") <= 2 && !strings.Contains(l.Path, "[") {
						r = append(r, l)
					}
				}
				return r
			}
			n := len(top(h.clone()))
			for i := 0; i < n; i++ {
				for j := i + 1; j < n; j++ {
					p := h.clone()
					ls := top(p)
					ni, vi := resize(ls[i].V)
					nj, vj := resize(ls[j].V)
					for a := range vi {
						for b := range vj {
							if ni[a] != nj[b] && !(strings.HasPrefix(ni[a], "one short") && strings.HasPrefix(nj[b], "one short")) {
								continue
							}
							p := h.clone()
							ls := top(p)
							ls[i].V.Set(vi[a])
							ls[j].V.Set(vj[b])
							judge(t, fmt.Sprintf("%s %s and %s %s", ls[i].Path, ni[a], ls[j].Path, nj[b]), func() error { return h.verify(p) })
							t.State(ps.key, i, j, a, b)
						}
					}
				}
			}
			// all of them together
			for _, how := range []string{"one more", "one short at the end", "one short at the front", "dropped", "doubled"} {
				p := h.clone()
				for _, l := range top(p) {
					ns, vs := resize(l.V)
					for k := range ns {
						if ns[k] == how {
							l.V.Set(vs[k])
						}
					}
				}
				judge(t, "every vector "+how, func() error { return h.verify(p) })
			}
		})
		// two layers fail in different ways at once, in parallel
		g.Case("twofail/"+ps.key, func(t *T) {
			pol.ParallelismEnabled = true
			defer func() { pol.ParallelismEnabled = false }()
			h := get()
			layers := len(h.proof.RangeProofs)
			ways := len(Leaves(h.clone().RangeProofs[0]))
			sway := len(Slices(h.clone().RangeProofs[0]))
			spoil := func(rp *bp.RangeProof, k int) {
				if k < ways {
					l := Leaves(rp)[k]
					_, vals := Tampered(l.V)
					l.V.Set(vals[0])
					return
				}
				v := Slices(rp)[k-ways]
				v.V.Set(v.V.Slice(0, v.V.Len()-1))
			}
			for a := 0; a < ways+sway; a++ {
				for b := a % 3; b < ways+sway; b += 3 {
					p := h.clone()
					spoil(p.RangeProofs[0], a)
					spoil(p.RangeProofs[layers-1], b)
					la := ""
					if a < ways {
						l := Leaves(h.clone().RangeProofs[0])[a]
						if exempt(l, layers) {
							continue
						}
						la = l.Path
					}
					judge(t, fmt.Sprintf("two bad range proofs (%s, way %d)", la, b), func() error { return h.verify(p) })
					t.State("twofail", ps.key, a, b)
				}
			}
		})
	}
	genC08parts(g, judge)
}

// deepC06 alters one component of proofs with longer paths, in the layers
// next to a machine word's worth of them.
func deepC06(g *G) {
	ds := []deep{longChain(18, 15, 16, 17), longChain(34, 32, 33), longChain(67, 63, 64, 65, 66)}
	if g.Thorough {
		ds = append(ds, longChain(19, 0, 1, 15, 16, 17, 18), longChain(66, 0, 31, 32, 63, 64, 65))
	}
	for _, d := range ds {
		d := d
		n := d.s.depth
		get := func() *honest { return prepare("C06deep"+d.s.name, d.s, d.ops, d.id) }
		const parts = 16
		for part := 0; part < parts; part++ {
			part := part
			g.Case(fmt.Sprintf("deep/%s/%d", d.s.name, part), func(t *T) {
				h := get()
				near := 0
				for _, l := range components(h.clone(), n) {
					ok := false
					for _, k := range d.layers {
						ok = ok || strings.Contains(l.Path, fmt.Sprintf("[%d]", k))
					}
					if !ok {
						continue
					}
					near++
					if near%parts != part {
						continue
					}
					p := h.clone()
					for _, leaf := range components(p, n) {
						if leaf.Path != l.Path {
							continue
						}
						names, vals := Tampered(leaf.V)
						if !g.Thorough {
							vals = vals[:1]
						}
						for k := range vals {
							leaf.V.Set(vals[k])
							t.Eval()
							t.Step()
							if h.verify(p) == nil {
								t.Fatalf("%s: accepted although %s was changed (%s)", d.s.name, leaf.Path, names[k])
							}
							t.State(d.s.name, leaf.Path, names[k])
						}
						break
					}
				}
			})
		}
	}
}
