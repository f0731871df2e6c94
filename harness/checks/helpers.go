package checks

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"
	"math/bits"

	. "mc/eng"
	"mc/env"
	. "mc/lib"

	"pol/common"

	math "github.com/IBM/mathlib"
)

func init() {
	Register(&Check{
		ID: "C20", Level: "exploration",
		Rule: "every vector helper is run on all vectors of small length over an alphabet of boundary scalars (reduced, negative and beyond the order) and group elements, and compared with big-integer arithmetic; operands are compared before and after, " +
			"and group-valued results are overwritten to see that operands keep their value. An input is distinct when helper, vectors and sizes differ",
		Bounds: "all vectors of length 1-2 over 8 scalars and of length 3 (thorough 4) over 4 scalars, all pairs of them for binary helpers; all 2^16 inputs of IsPowerOfTwo; all values below 2^11 and all powers of two +-1 for bit decompositions; " +
			"2401 digests with boundary words for the hash to a scalar; lengths up to 64 for series and generators; up to 70000 on selected vectors",
		Assumptions: []string{"vectors have matching lengths (the helpers panic otherwise)", "group elements are represented by discrete logarithms (validated against BN254 on the listed traces)"},
		Gen:         genC20,
	})
}

type scalar struct {
	name string
	z    *math.Zr
	x    *big.Int
}

func scalars() []scalar {
	mk := func(name string, z *math.Zr, x *big.Int) scalar { return scalar{name, z, new(big.Int).Mod(x, Order)} }
	r := []scalar{}
	for _, x := range []*big.Int{new(big.Int), bigOne, big.NewInt(3), rMinus1, two63, new(big.Int).Rsh(Order, 1)} {
		r = append(r, mk(x.String(), ZrBig(x), x))
	}
	r = append(r, mk("-1", Zr(-1), big.NewInt(-1)))
	big1 := ZrBig(rMinus1).Plus(Zr(3)) // r+2, not reduced
	r = append(r, mk("r+2", big1, bigTwo))
	return r
}

func modn(x *big.Int) *big.Int { return new(big.Int).Mod(x, Order) }

type hv struct {
	name string
	v    common.Vec
	x    []*big.Int
}

func hvecs(n int, alpha []scalar) []hv {
	r := []hv{{}}
	for i := 0; i < n; i++ {
		var next []hv
		for _, p := range r {
			for _, a := range alpha {
				next = append(next, hv{p.name + " " + a.name, append(p.v[:len(p.v):len(p.v)], a.z.Copy()), append(p.x[:len(p.x):len(p.x)], a.x)})
			}
		}
		r = next
	}
	return r
}

func genC20(g *G) {
	all := scalars()
	few := []scalar{all[0], all[1], all[3], all[6]}
	type fam struct {
		n int
		f func() []hv
	}
	n3 := 3
	if g.Thorough {
		n3 = 4
	}
	fams := []fam{
		{1, func() []hv { return hvecs(1, all) }},
		{2, func() []hv { return hvecs(2, all) }},
		{3, func() []hv { return hvecs(n3, few) }},
	}
	for _, f := range fams {
		vs := f.f()
		for k := range vs {
			f, k := f, k
			run := func(t *T) {
				vs := f.f()
				unary(t, vs[k])
				for j := range vs {
					binary2(t, vs[k], vs[j])
				}
				t.Obs("held for %d", len(vs))
			}
			id := fmt.Sprintf("vec/%d/%d", f.n, k)
			if f.n == 1 || (f.n == 2 && k%16 == 5) {
				g.Real(id, run)
			} else {
				g.Case(id, run)
			}
		}
	}
	// long vectors, of lengths around powers of two and of all lengths up to 40
	var ls []int
	for n := 4; n <= 40; n++ {
		ls = append(ls, n)
	}
	for _, n := range []int{64, 128, 256, 512, 1024, 2048} {
		for d := -2; d <= 3; d++ {
			ls = append(ls, n+d)
		}
	}
	ls = append(ls, 100, 162, 192, 200, 300, 320, 384, 640, 768, 1000, 1500)
	if g.Thorough {
		for n := 41; n <= 700; n++ {
			ls = append(ls, n)
		}
		ls = append(ls, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 16384, 16385)
	}
	for _, n := range ls {
		n := n
		g.Case(fmt.Sprintf("long/%d", n), func(t *T) {
			vec := func(p int) hv {
				r := hv{name: fmt.Sprintf("%d entries, pattern %d", n, p)}
				for i := 0; i < n; i++ {
					var s scalar
					switch p {
					case 0:
						s = all[(i*i+3*i)%len(all)]
					case 1:
						x := new(big.Int).Mul(big.NewInt(int64(i+2)), rMinus1)
						x.Rsh(x, uint(i%200))
						x.Mod(x, Order)
						s = scalar{"", ZrBig(x), x}
					case 2: // few that are not zero, at the ends
						x := new(big.Int)
						if i == 0 || i == n-1 || i == n/2 {
							x.SetInt64(int64(i + 1))
						}
						s = scalar{"", ZrBig(x), x}
					}
					r.v, r.x = append(r.v, s.z.Copy()), append(r.x, s.x)
				}
				return r
			}
			if n > 3000 {
				unary(t, vec(1))
				binary2(t, vec(1), vec(0))
				return
			}
			for p := 0; p < 3; p++ {
				unary(t, vec(p))
				binary2(t, vec(p), vec((p+1)%3))
			}
			t.Outcome("long vectors")
		})
	}
	g.Case("long/generators", func(t *T) {
		for _, ctx := range []string{"range proof Fs", "POE G"} {
			seen := map[string]int{}
			gs := common.RandGenVec(70000, ctx)
			for i, x := range gs {
				t.Eval()
				k := string(x.Bytes())
				if j, dup := seen[k]; dup {
					t.Fatalf("generators %d and %d of %q coincide", j, i, ctx)
				}
				seen[k] = i
			}
			few := common.RandGenVec(300, ctx)
			for i := range few {
				if !few[i].Equals(gs[i]) {
					t.Fatalf("generator %d of %q depends on how many there are", i, ctx)
				}
			}
		}
		t.State("generators")
	})
	g.Case("long/series", func(t *T) {
		for _, a := range all {
			s := common.PowerSeries(70000, a.z)
			x := big.NewInt(1)
			for i := range s {
				t.Eval()
				if Big(s[i]).Cmp(x) != 0 {
					t.Fatalf("power %d of %s is wrong", i, a.name)
				}
				x.Mul(x, a.x)
				x.Mod(x, Order)
			}
			t.State("series", a.name, len(s))
		}
		v := common.RandVec(3000)
		seen := map[string]bool{}
		for _, z := range v {
			seen[Big(z).String()] = true
		}
		if len(seen) != len(v) {
			t.Fatalf("a random vector repeats entries")
		}
	})
	g.Real("bits", func(t *T) {
		var ns []*big.Int
		lim := int64(1 << 11)
		if !env.Toy {
			lim = 64
		}
		for n := int64(0); n < lim; n++ {
			ns = append(ns, big.NewInt(n))
		}
		for k := uint(11); k < 254; k++ {
			p := new(big.Int).Lsh(bigOne, k)
			for _, d := range []int64{-1, 0, 1} {
				if x := new(big.Int).Add(p, big.NewInt(d)); x.Cmp(Order) < 0 {
					ns = append(ns, x)
				}
			}
		}
		for _, n := range ns {
			for _, l := range []int{0, 1, 2, 7, 8, 9, 12, 63, 64, 65} {
				z := ZrBig(n)
				b := common.Bits(z, l)
				be := common.BitsBigEndian(z, l)
				want := l
				if n.BitLen() > l {
					want = n.BitLen()
				}
				t.Eval()
				if len(b) != want || len(be) != want {
					t.Fatalf("Bits(%s, %d) has %d digits", n, l, len(b))
				}
				for i := range b {
					if uint(b[i]) != n.Bit(i) || b[i] != be[want-1-i] {
						t.Fatalf("Bits(%s, %d) = %v", n, l, b)
					}
				}
				if Big(z).Cmp(n) != 0 {
					t.Fatalf("Bits changed its operand %s", n)
				}
				t.State("bits", n, l)
			}
		}
		v := common.Vec{ZrBig(big.NewInt(5)), ZrBig(new(big.Int)), ZrBig(new(big.Int).Sub(two63, bigOne))}
		b := v.Bits(63)
		if len(b) != 189 {
			t.Fatalf("Vec.Bits has %d digits", len(b))
		}
		for i := range v {
			for j := 0; j < 63; j++ {
				if uint(b[63*i+j]) != Big(v[i]).Bit(j) {
					t.Fatalf("Vec.Bits puts %d at digit %d of entry %d", b[63*i+j], j, i)
				}
			}
		}
		for n := 0; n < 9; n++ {
			var in []uint8
			for i := 0; i < n; i++ {
				in = append(in, uint8(i*3+1))
			}
			keep := append([]uint8{}, in...)
			out := common.ReverseBits(in)
			zs := common.IntsToZr(in)
			for i := range in {
				if out[n-1-i] != in[i] || Big(zs[i]).Int64() != int64(in[i]) {
					t.Fatalf("ReverseBits(%v)=%v", in, out)
				}
			}
			if !bytes.Equal(in, keep) {
				t.Fatalf("ReverseBits changed its operand")
			}
		}
		t.Obs("held")
	})
	g.Case("powers", func(t *T) {
		for n := 0; n < 600; n++ {
			t.Eval()
			if Big(common.Pow2(n)).Cmp(new(big.Int).Exp(bigTwo, big.NewInt(int64(n)), Order)) != 0 {
				t.Fatalf("Pow2(%d)", n)
			}
			t.State("pow2", n)
		}
		for n := 0; n < 1<<16; n++ {
			t.Eval()
			if common.IsPowerOfTwo(uint16(n)) != (n > 1 && bits.OnesCount(uint(n)) == 1) {
				t.Fatalf("IsPowerOfTwo(%d)=%v", n, common.IsPowerOfTwo(uint16(n)))
			}
		}
		t.State("ispow")
		for _, n := range []int{0, 1, -1, 5, 1<<31 - 1, 1 << 31, 1<<63 - 1, -1 << 63} {
			if Big(common.IntToZr(n)).Cmp(modn(big.NewInt(int64(n)))) != 0 {
				t.Fatalf("IntToZr(%d)", n)
			}
		}
		for _, a := range scalars() {
			for n := 0; n <= 65; n++ {
				s := common.PowerSeries(n, a.z)
				t.Eval()
				if len(s) != n {
					t.Fatalf("PowerSeries(%d) has %d entries", n, len(s))
				}
				for i := range s {
					if Big(s[i]).Cmp(new(big.Int).Exp(a.x, big.NewInt(int64(i)), Order)) != 0 {
						t.Fatalf("PowerSeries(%d, %s)[%d] = %s", n, a.name, i, Big(s[i]))
					}
				}
				t.State("series", a.name, n)
			}
			if Big(a.z).Cmp(a.x) != 0 {
				t.Fatalf("PowerSeries changed its operand")
			}
			if Big(common.NegZr(a.z)).Cmp(modn(new(big.Int).Neg(a.x))) != 0 {
				t.Fatalf("NegZr(%s)", a.name)
			}
		}
	})
	g.Real("hash", func(t *T) {
		words := []uint64{0, 1, 1<<64 - 1, 4891460686036598785, 2896914383306846353, 13281191951274694749, 3486998266802970665}
		top := append([]uint64{3486998266802970664, 3486998266802970666, 2 * 3486998266802970665}, words...)
		d := make([]byte, 32)
		seen := map[string]string{}
		for _, a := range words {
			for _, b := range words {
				for _, c := range words {
					for _, e := range top {
						binary.BigEndian.PutUint64(d, a)
						binary.BigEndian.PutUint64(d[8:], b)
						binary.BigEndian.PutUint64(d[16:], c)
						binary.BigEndian.PutUint64(d[24:], e)
						keep := append([]byte{}, d...)
						z := common.FieldElementFromBytes(d)
						t.Eval()
						if Big(z).Cmp(MontRef(d)) != 0 {
							t.Fatalf("FieldElementFromBytes(%x) = %s instead of %s", d, Big(z), MontRef(d))
						}
						if new(big.Int).SetBytes(z.Bytes()).Cmp(Order) >= 0 {
							t.Fatalf("FieldElementFromBytes(%x) is not reduced", d)
						}
						if !bytes.Equal(keep, d) {
							t.Fatalf("FieldElementFromBytes changed its operand")
						}
						// digests that differ in the lower words are told apart
						k := fmt.Sprint(e%3486998266802970665, Big(z))
						if o, dup := seen[k]; dup && o != fmt.Sprint(a, b, c) {
							t.Fatalf("two digests with different words give the same scalar")
						}
						seen[k] = fmt.Sprint(a, b, c)
						t.State("hash", a, b, c, e)
					}
				}
			}
		}
		for _, s := range []string{"", "a", "PoL"} {
			h := sha256.Sum256([]byte(s))
			if !bytes.Equal(common.SHA256Digest(s), h[:]) {
				t.Fatalf("SHA256Digest(%q)", s)
			}
		}
		t.Obs("held")
	})
	g.Real("generators", func(t *T) {
		seen := map[string]string{}
		n := 64
		if !env.Toy {
			n = 9
		}
		for _, ctx := range []string{"a", "b", "a 1", "", "POE G", "POE H", "range proof Fs", "range proof Hs"} {
			v := common.RandGenVec(n, ctx)
			w := common.RandGenVec(n/2, ctx)
			for i := range v {
				t.Eval()
				if v[i].IsInfinity() {
					t.Fatalf("RandGenVec(%q)[%d] is the neutral element", ctx, i)
				}
				k := string(v[i].Bytes())
				if o, dup := seen[k]; dup {
					t.Fatalf("generators %s and %q %d coincide", o, ctx, i)
				}
				seen[k] = fmt.Sprintf("%q %d", ctx, i)
				if i < n/2 && !v[i].Equals(w[i]) {
					t.Fatalf("RandGenVec(%q)[%d] depends on the length", ctx, i)
				}
				t.State("gen", ctx, i)
			}
		}
		for _, n := range []int{0, 1, 2, 7} {
			a, b := common.RandVec(n), common.RandVec(n)
			if len(a) != n {
				t.Fatalf("RandVec(%d) has %d entries", n, len(a))
			}
			s := map[string]bool{}
			for i := range a {
				s[Big(a[i]).String()], s[Big(b[i]).String()] = true, true
			}
			if len(s) != 2*n || s["0"] {
				t.Fatalf("RandVec(%d) repeats entries", n)
			}
		}
		if !common.HashToG1([]byte("x")).Equals(common.HashToG1([]byte("x"))) || common.HashToG1([]byte("x")).Equals(common.HashToG1([]byte("y"))) {
			t.Fatalf("HashToG1 is not a function of its input")
		}
		t.Obs("held")
	})
}

// g1s are powers of the generator.
func g1s(x []*big.Int) common.G1v {
	var r common.G1v
	for _, a := range x {
		r = append(r, C.GenG1.Mul(ZrBig(a)))
	}
	return r
}
func g2s(x []*big.Int) common.G2v {
	var r common.G2v
	for _, a := range x {
		r = append(r, C.GenG2.Mul(ZrBig(a)))
	}
	return r
}

type holder struct {
	V, W   common.Vec
	G, G1b common.G1v
	H      common.G2v
}

func wantVec(t *T, what string, got common.Vec, want []*big.Int) {
	t.Eval()
	if len(got) != len(want) {
		t.Fatalf("%s has %d entries instead of %d", what, len(got), len(want))
	}
	for i := range got {
		if Big(got[i]).Cmp(modn(want[i])) != 0 {
			t.Fatalf("%s has %s at %d instead of %s", what, Big(got[i]), i, modn(want[i]))
		}
	}
}

func wantG1(t *T, what string, got common.G1v, want []*big.Int) {
	t.Eval()
	if len(got) != len(want) {
		t.Fatalf("%s has %d entries instead of %d", what, len(got), len(want))
	}
	for i := range got {
		if !got[i].Equals(C.GenG1.Mul(ZrBig(want[i]))) {
			t.Fatalf("%s is wrong at %d", what, i)
		}
	}
}

func wantG2(t *T, what string, got common.G2v, want []*big.Int) {
	t.Eval()
	if len(got) != len(want) {
		t.Fatalf("%s has %d entries instead of %d", what, len(got), len(want))
	}
	for i := range got {
		if !got[i].Equals(C.GenG2.Mul(ZrBig(want[i]))) {
			t.Fatalf("%s is wrong at %d", what, i)
		}
	}
}

func each(n int, f func(i int) *big.Int) []*big.Int {
	r := make([]*big.Int, n)
	for i := range r {
		r[i] = f(i)
	}
	return r
}

func scribble(v common.G1v) {
	for _, x := range v {
		x.Add(C.GenG1)
	}
}

func scribble2(v common.G2v) {
	for _, x := range v {
		x.Add(C.GenG2)
	}
}

func unary(t *T, a hv) {
	n := len(a.x)
	w := &holder{V: a.v, G: g1s(a.x), H: g2s(a.x)}
	before := Dump(w)
	still := func(what string) {
		if d := Changed(before, w); d != "" {
			t.Fatalf("%s of (%s) changed an operand: %s", what, a.name, d)
		}
	}
	nm := func(s string) string { return s + " of (" + a.name + ")" }
	wantVec(t, nm("Reverse"), w.V.Reverse(), each(n, func(i int) *big.Int { return a.x[n-1-i] }))
	prod := big.NewInt(1)
	for _, x := range a.x {
		prod.Mul(prod, x)
	}
	wantVec(t, nm("Product"), common.Vec{w.V.Product()}, []*big.Int{prod})
	still("Product")
	if n%2 == 0 {
		e, o := w.V.Evens(), w.V.Odds()
		wantVec(t, nm("Evens"), e, each(n/2, func(i int) *big.Int { return a.x[2*i] }))
		wantVec(t, nm("Odds"), o, each(n/2, func(i int) *big.Int { return a.x[2*i+1] }))
		still("Evens/Odds")
	}
	masks := 1 << uint(n%20)
	if n > 10 {
		masks = 7
	}
	for mask := 0; mask < masks; mask++ {
		exp := make([]uint8, n)
		for i := range exp {
			exp[i] = uint8(mask >> uint(i%10) & 1)
			if n > 10 {
				exp[i] = uint8(mask >> uint(i%3) & 1)
			}
		}
		wantVec(t, nm(fmt.Sprintf("PowBitVec with mask %b", mask)), w.V.PowBitVec(exp), each(n, func(i int) *big.Int {
			if exp[i] == 1 {
				return a.x[i]
			}
			return bigOne
		}))
	}
	for _, s := range scalars() {
		wantVec(t, nm("Mul by "+s.name), w.V.Mul(s.z), each(n, func(i int) *big.Int { return new(big.Int).Mul(a.x[i], s.x) }))
		m1 := w.G.Mul(s.z)
		want := each(n, func(i int) *big.Int { return new(big.Int).Mul(a.x[i], s.x) })
		wantG1(t, nm("G1v.Mul by "+s.name), m1, want)
		scribble(m1)
		m2 := w.H.Mul(s.z)
		wantG2(t, nm("G2v.Mul by "+s.name), m2, want)
		scribble2(m2)
		still("Mul")
	}
	neg := w.G.Neg()
	wantG1(t, nm("Neg"), neg, each(n, func(i int) *big.Int { return new(big.Int).Neg(a.x[i]) }))
	scribble(neg)
	still("Neg")
	sum := new(big.Int)
	for _, x := range a.x {
		sum.Add(sum, x)
	}
	s1 := w.G.Sum()
	wantG1(t, nm("Sum"), common.G1v{s1}, []*big.Int{sum})
	s1.Add(C.GenG1)
	s2 := w.H.Sum()
	wantG2(t, nm("G2v.Sum"), common.G2v{s2}, []*big.Int{sum})
	s2.Add(C.GenG2)
	still("Sum")
	if n == 1 {
		for k := 0; k < 4; k++ {
			d1, d2 := w.G.Duplicate(k), w.H.Duplicate(k)
			wantG1(t, nm("Duplicate"), d1, each(k, func(int) *big.Int { return a.x[0] }))
			wantG2(t, nm("Duplicate"), d2, each(k, func(int) *big.Int { return a.x[0] }))
			if k > 1 {
				d1[0].Add(C.GenG1)
				if !d1[1].Equals(w.G[0]) {
					t.Fatalf("%s: copies are shared", nm("Duplicate"))
				}
			}
			scribble(d1)
		}
		still("Duplicate")
	}
	var bb []byte
	for _, x := range w.G {
		bb = append(bb, x.Bytes()...)
	}
	if !bytes.Equal(bb, w.G.Bytes()) {
		t.Fatalf("%s", nm("Bytes"))
	}
	bb = nil
	for _, x := range w.H {
		bb = append(bb, x.Bytes()...)
	}
	if !bytes.Equal(bb, w.H.Bytes()) {
		t.Fatalf("%s", nm("G2v.Bytes"))
	}
	z := append(common.Vec{}, w.V...)
	z.Zero()
	wantVec(t, nm("Zero"), z, each(n, func(int) *big.Int { return new(big.Int) }))
	still("Zero")
	t.State("unary", a.name)
	t.Step()
}

func binary2(t *T, a, b hv) {
	n := len(a.x)
	w := &holder{V: a.v, W: b.v, G: g1s(a.x), G1b: g1s(b.x), H: g2s(b.x)}
	before := Dump(w)
	still := func(what string) {
		if d := Changed(before, w); d != "" {
			t.Fatalf("%s of (%s) and (%s) changed an operand: %s", what, a.name, b.name, d)
		}
	}
	nm := func(s string) string { return s + " of (" + a.name + ") and (" + b.name + ")" }
	add := each(n, func(i int) *big.Int { return new(big.Int).Add(a.x[i], b.x[i]) })
	mul := each(n, func(i int) *big.Int { return new(big.Int).Mul(a.x[i], b.x[i]) })
	dot := new(big.Int)
	for _, x := range mul {
		dot.Add(dot, x)
	}
	wantVec(t, nm("Concat"), w.V.Concat(w.W), append(append([]*big.Int{}, a.x...), b.x...))
	wantVec(t, nm("Concat"), w.V[:1].Concat(w.W), append(append([]*big.Int{}, a.x[:1]...), b.x...))
	wantVec(t, nm("Add"), w.V.Add(w.W), add)
	still("Add")
	wantVec(t, nm("Sub"), w.V.Sub(w.W), each(n, func(i int) *big.Int { return new(big.Int).Sub(a.x[i], b.x[i]) }))
	still("Sub")
	wantVec(t, nm("HadamardProd"), w.V.HadamardProd(w.W), mul)
	wantVec(t, nm("InnerProd"), common.Vec{w.V.InnerProd(w.W)}, []*big.Int{dot})
	still("InnerProd")
	for _, z := range append(append(w.V.Add(w.W), w.V.Sub(w.W)...), w.V.InnerProd(w.W)) {
		if x := new(big.Int).SetBytes(z.Bytes()); x.Cmp(Order) >= 0 || !z.Equals(ZrBig(x)) {
			t.Fatalf("%s is not reduced", nm("a result"))
		}
	}
	// an operand twice
	wantVec(t, nm("Add, twice the same,"), w.V.Add(w.V), each(n, func(i int) *big.Int { return new(big.Int).Lsh(a.x[i], 1) }))
	still("Add")
	x1 := w.V.Exp(w.G1b)
	wantG1(t, nm("Exp"), common.G1v{x1}, []*big.Int{dot})
	x1.Add(C.GenG1)
	still("Exp")
	a1 := w.G.Add(w.G1b)
	wantG1(t, nm("G1v.Add"), a1, add)
	scribble(a1)
	h1 := w.G.HadamardProd(w.G1b)
	wantG1(t, nm("G1v.HadamardProd"), h1, add)
	scribble(h1)
	still("G1v.Add")
	v1 := w.G1b.MulV(w.V)
	wantG1(t, nm("MulV"), v1, mul)
	scribble(v1)
	still("MulV")
	wantG1(t, nm("the sum of MulV"), common.G1v{w.G1b.MulV(w.V).Sum()}, []*big.Int{dot})
	still("MulV")
	v2 := w.H.Mulv(w.V)
	wantG2(t, nm("G2v.Mulv"), v2, mul)
	scribble2(v2)
	still("G2v.Mulv")
	a2 := w.H.Add(w.H)
	wantG2(t, nm("G2v.Add"), a2, each(n, func(i int) *big.Int { return new(big.Int).Lsh(b.x[i], 1) }))
	scribble2(a2)
	still("G2v.Add")
	gt := w.G.InnerProd(w.H)
	t.Eval()
	if !gt.Equals(C.GenGt.Exp(ZrBig(modn(dot)))) {
		t.Fatalf("%s is not the product of the pairings", nm("G1v.InnerProd"))
	}
	gt.Mul(C.GenGt)
	still("G1v.InnerProd")
	t.State("binary", a.name, "|", b.name)
	t.Step()
}
