package checks

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	. "mc/eng"

	"pol/sparse"
)

func init() {
	Register(&Check{
		ID: "C09", Level: "exploration",
		Rule: "ids are mapped to paths for every fanout; length, slot range, repeatability and absence of state are checked on each, and one-to-one-ness by inverting the path (or, failing that, by comparing all paths of a case). " +
			"Malformed ids are generated by replacing, inserting and dropping characters at every position and must be refused. An evaluation is distinct when fanout and id differ",
		Bounds: "quick: for all 14 decimal fanouts the 150 ids around every multiple of every power of the fanout up to 40 multiples, both ends of the space and a stride of 100 003 (about 130 000 ids per fanout); for all 13 hexadecimal fanouts ids around powers of the fanout and of two; " +
			"thorough: all 10^9 decimal ids for fanouts 7, 3, 15, 255 and then the rest as time permits",
		Assumptions: []string{"hexadecimal ids whose first path has another length are rehashed; two ids one of which is such a hash of the other share a path, which the code's design accepts",
			"upper and lower case of one hexadecimal number are the same id"},
		Gen: genC09,
	})
}

func digitFanouts() []uint16 {
	var r []uint16
	for k := uint(2); k <= 15; k++ {
		r = append(r, uint16(1<<k-1))
	}
	return r
}

// decode inverts a path, least or most significant digit first.
func decode(p []uint16, f uint16, lsf bool) uint64 {
	var n uint64
	for i := range p {
		d := p[i]
		if lsf {
			d = p[len(p)-1-i]
		}
		n = n*uint64(f) + uint64(d)
	}
	return n
}

// digits checks one batch of decimal ids.
func digits(t *T, f uint16, ids []uint32, deep bool) {
	m := sparse.DigitPath(f)
	m2 := sparse.DigitPath(f)
	L := sparse.DigitPathLen(f)
	lsf, msf := true, true
	var kept []uint16 // the path handed out before, and a copy of it
	var was string
	for _, n := range ids {
		s := fmt.Sprintf("%09d", n)
		p := m(s)
		if deep {
			if kept != nil && fmt.Sprint(kept) != was {
				t.Fatalf("fanout %d: a path that was handed out changed from %s to %v when %s was mapped", f, was, kept, s)
			}
			kept, was = p, fmt.Sprint(p)
		}
		if len(p) != L {
			t.Fatalf("fanout %d: the path of %s has length %d, not %d", f, s, len(p), L)
		}
		for _, x := range p {
			if x >= f {
				t.Fatalf("fanout %d: the path of %s contains %d: %v", f, s, x, p)
			}
		}
		lsf = lsf && decode(p, f, true) == uint64(n)
		msf = msf && decode(p, f, false) == uint64(n)
		if deep {
			q := m2(s)
			if fmt.Sprint(q) != fmt.Sprint(p) {
				t.Fatalf("fanout %d: the path of %s is %v and %v", f, s, p, q)
			}
			p[0] ^= 1
			if r := m(s); fmt.Sprint(r) != fmt.Sprint(q) {
				t.Fatalf("fanout %d: the path of %s changed when the caller wrote to the one it got", f, s)
			}
			p[0] ^= 1
		}
		t.Eval()
	}
	if !lsf && !msf {
		// some other map: look for two ids with one path
		type pair struct {
			path string
			id   uint32
		}
		var all []pair
		seen := map[string]uint32{}
		_ = all
		for _, n := range ids {
			k := fmt.Sprint(m(fmt.Sprintf("%09d", n)))
			if o, ok := seen[k]; ok && o != n {
				t.Fatalf("fanout %d: %09d and %09d have the same path %s", f, o, n, k)
			}
			seen[k] = n
		}
		t.Outcome("injectivity by comparison")
		return
	}
	t.Outcome("injectivity by inversion")
}

func uniq(ids []uint32) []uint32 {
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	var r []uint32
	for i, x := range ids {
		if i == 0 || x != ids[i-1] {
			r = append(r, x)
		}
	}
	return r
}

const space = 1000000000

func genC09(g *G) {
	for _, f := range digitFanouts() {
		f := f
		g.Case(fmt.Sprintf("length/%d", f), func(t *T) {
			L := sparse.DigitPathLen(f)
			t.Eval()
			n := new(big.Int).Exp(big.NewInt(int64(f)), big.NewInt(int64(L)), nil)
			if n.Cmp(big.NewInt(space)) < 0 {
				t.Fatalf("fanout %d: paths of length %d cannot tell 10^9 ids apart", f, L)
			}
			t.State("len", f)
		})
		g.Case(fmt.Sprintf("blocks/%d", f), func(t *T) {
			var ids []uint32
			add := func(c int64) {
				for d := int64(-75); d < 75; d++ {
					if x := c + d; x >= 0 && x < space {
						ids = append(ids, uint32(x))
					}
				}
			}
			for p := int64(1); p < space; p *= int64(f) {
				for k := int64(1); k <= 40 && k*p < space; k++ {
					add(k * p)
				}
				add(space - p)
			}
			for p := int64(1); p < space; p *= 10 {
				add(p)
			}
			for p := int64(1); p < space; p *= 2 {
				add(p)
			}
			add(space)
			digits(t, f, uniq(ids), true)
			t.State("blocks", f)
		})
		for part := 0; part < 4; part++ {
			part := part
			g.Case(fmt.Sprintf("stride/%d/%d", f, part), func(t *T) {
				var ids []uint32
				for x := part; x < space; x += 4 * 25013 {
					ids = append(ids, uint32(x))
				}
				for x := uint32(0); x < 6000; x++ { // a dense head and tail, and a dense stretch per part
					ids = append(ids, x, space-1-x, uint32(part)*250000000+77777777+x)
				}
				digits(t, f, uniq(ids), false)
				t.State("stride", f, part)
			})
		}
		g.Case(fmt.Sprintf("malformed/%d", f), func(t *T) { malformedDigits(t, f) })
	}
	for _, f := range []uint16{2, 4, 5, 6, 8, 9, 12, 16, 30, 32, 100, 254, 256, 1000, 1024, 32766, 32768, 65534, 65535} {
		f := f
		g.Case(fmt.Sprintf("unsupported/%d", f), func(t *T) {
			t.Eval()
			if p, _ := Try(func() { sparse.DigitPath(f) }); p == nil {
				t.Fatalf("a decimal map for fanout %d, which is not a power of two minus one, was handed out", f)
			}
			if p, _ := Try(func() { sparse.HexId2PathForFanOut(f) }); p == nil {
				t.Fatalf("a hexadecimal map for the unsupported fanout %d was handed out", f)
			}
			t.State("unsupported", f)
		})
	}
	var hf []uint16
	for f := range sparse.ExpectedHexPathLengthByFanOut {
		hf = append(hf, f)
	}
	sort.Slice(hf, func(i, j int) bool { return hf[i] < hf[j] })
	for _, f := range hf {
		f := f
		g.Case(fmt.Sprintf("hex/%d", f), func(t *T) { hexIds(t, f) })
		g.Case(fmt.Sprintf("hexmalformed/%d", f), func(t *T) { malformedHex(t, f) })
	}
	// every fanout that both real kinds of tree are offered for must be there
	g.Case("hexfanouts", func(t *T) {
		for _, f := range []uint16{3, 7, 15, 31, 63, 127, 255, 511, 1023, 2047, 4095, 8191, 16383} {
			t.Eval()
			L := sparse.ExpectedHexPathLengthByFanOut[f]
			if L < 2 {
				t.Fatalf("no hexadecimal paths for fanout %d", f)
			}
			// at least one in eight of all hashes must be usable as is, or the map would be slow, and never more than fit
			lo := new(big.Int).Exp(big.NewInt(int64(f)), big.NewInt(int64(L-1)), nil)
			if lo.BitLen() > 256 {
				t.Fatalf("fanout %d: no hash has a path of length %d", f, L)
			}
			t.State("hexfanout", f)
		}
	})
	if g.Thorough {
		order := []uint16{7, 3, 15, 255, 31, 63, 127, 511, 1023, 2047, 4095, 8191, 16383, 32767}
		const chunk = 2000000
		for _, f := range order {
			for lo := 0; lo < space; lo += chunk {
				f, lo := f, lo
				g.Case(fmt.Sprintf("all/%d/%d", f, lo), func(t *T) {
					ids := make([]uint32, chunk)
					for i := range ids {
						ids[i] = uint32(lo + i)
					}
					digits(t, f, ids, false)
					t.State("all", f, lo)
				})
			}
		}
	}
}

func refused(t *T, what string, f func() []uint16) {
	t.Eval()
	var p []uint16
	if pan, _ := Try(func() { p = f() }); pan == nil {
		t.Fatalf("%s was mapped to %v", what, p)
	}
}

func malformedDigits(t *T, f uint16) {
	m := sparse.DigitPath(f)
	bases := []string{"123456789", "000000000", "999999999", "000000001", "100000000"}
	for _, b := range bases {
		for n := 0; n <= 24; n++ {
			if n == 9 {
				continue
			}
			s := strings.Repeat(b, 3)[:n]
			refused(t, fmt.Sprintf("%q", s), func() []uint16 { return m(s) })
		}
		for pos := 0; pos < 9; pos++ {
			for ch := 0; ch < 256; ch++ {
				if ch >= '0' && ch <= '9' {
					continue
				}
				s := b[:pos] + string([]byte{byte(ch)}) + b[pos+1:]
				refused(t, fmt.Sprintf("fanout %d: %q", f, s), func() []uint16 { return m(s) })
				s2 := b[:pos] + string([]byte{byte(ch)}) + b[pos:]
				refused(t, fmt.Sprintf("fanout %d: %q", f, s2), func() []uint16 { return m(s2) })
			}
			for _, w := range []string{"１", "٣", "०", "é", "0x", "1e", "..", "--", "_1"} {
				if pos+len(w) <= 9 {
					s := b[:pos] + w + b[pos+len(w):]
					refused(t, fmt.Sprintf("fanout %d: %q", f, s), func() []uint16 { return m(s) })
				}
			}
		}
		for _, w := range []string{" ", "\n", "\t", "\x00", "0", "+", "-"} {
			refused(t, fmt.Sprintf("%q", w+b), func() []uint16 { return m(w + b) })
			refused(t, fmt.Sprintf("%q", b+w), func() []uint16 { return m(b + w) })
		}
	}
	t.State("malformed", f)
}

func hexIds(t *T, f uint16) {
	m := sparse.HexId2PathForFanOut(f)
	m2 := sparse.HexId2PathForFanOut(f)
	L := sparse.ExpectedHexPathLengthByFanOut[f]
	top := new(big.Int).Lsh(big.NewInt(1), 256)
	seen := map[string]string{}
	one := big.NewInt(1)
	var all []*big.Int
	have := map[string]bool{}
	add := func(c *big.Int, r int64) {
		for d := -r; d <= r; d++ {
			x := new(big.Int).Add(c, big.NewInt(d))
			if x.Sign() < 0 || x.Cmp(top) >= 0 || have[x.String()] {
				continue
			}
			have[x.String()] = true
			all = append(all, x)
		}
	}
	add(new(big.Int), 40)
	add(top, 40)
	fb := big.NewInt(int64(f))
	p := new(big.Int).Set(one)
	for p.Cmp(top) < 0 {
		add(p, 3)
		p = new(big.Int).Mul(p, fb)
	}
	for b := uint(0); b < 256; b++ {
		add(new(big.Int).Lsh(one, b), 1)
	}
	// around the longest and the shortest id that is used as it is, and multiples
	lo := new(big.Int).Exp(fb, big.NewInt(int64(L-1)), nil)
	hi := new(big.Int).Exp(fb, big.NewInt(int64(L)), nil)
	add(lo, 60)
	add(hi, 60)
	for i := int64(1); i < 64; i++ {
		x := new(big.Int).Mul(top, big.NewInt(i))
		add(x.Rsh(x, 6), 2)
		y := new(big.Int).Mul(lo, big.NewInt(i))
		add(y, 2)
	}
	// ids that differ by what a path of one slot less or more counts
	for _, x := range all[:len(all):len(all)] {
		for _, y := range []*big.Int{lo, hi} {
			add(new(big.Int).Add(x, y), 0)
			add(new(big.Int).Sub(x, y), 0)
		}
	}
	pat := new(big.Int)
	for i := 0; i < 64; i++ {
		for _, h := range []int64{1, 7, 15} {
			add(new(big.Int).Add(lo, new(big.Int).Lsh(big.NewInt(h), uint(4*i))), 0)
		}
		pat.Or(pat.Lsh(pat, 4), big.NewInt(int64(i*7%16)))
	}
	add(pat, 20)
	var kept []uint16 // the path handed out before, and a copy of it
	var was string
	for _, x := range all {
		s := fmt.Sprintf("%064x", x)
		p := m(s)
		if kept != nil && fmt.Sprint(kept) != was {
			t.Fatalf("fanout %d: a path that was handed out changed from %s to %v when %s was mapped", f, was, kept, s)
		}
		kept, was = p, fmt.Sprint(p)
		t.Eval()
		if len(p) != L {
			t.Fatalf("fanout %d: the path of %s has length %d, not %d", f, s, len(p), L)
		}
		for _, d := range p {
			if d >= f {
				t.Fatalf("fanout %d: the path of %s contains %d", f, s, d)
			}
		}
		k := fmt.Sprint(p)
		if q := fmt.Sprint(m2(s)); q != k {
			t.Fatalf("fanout %d: the path of %s is %s and %s", f, s, k, q)
		}
		if o, ok := seen[k]; ok {
			t.Fatalf("fanout %d: %s and %s have the same path", f, o, s)
		}
		seen[k] = s
		p[len(p)-1] ^= 1
		if fmt.Sprint(m(s)) != k {
			t.Fatalf("fanout %d: the path of %s changed when the caller wrote to the one it got", f, s)
		}
		p[len(p)-1] ^= 1
		t.State("hex", f, s)
	}
}

func malformedHex(t *T, f uint16) {
	m := sparse.HexId2PathForFanOut(f)
	base := "00112233445566778899aabbccddeeff0123456789abcdef0f1e2d3c4b5a6978"
	refused(t, "the empty id", func() []uint16 { return m("") })
	for pos := 0; pos < 64; pos++ {
		for ch := 0; ch < 256; ch++ {
			c := byte(ch)
			if c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' {
				continue
			}
			if pos > 1 && pos < 62 && ch%5 != pos%5 {
				continue
			}
			s := base[:pos] + string([]byte{c}) + base[pos+1:]
			refused(t, fmt.Sprintf("fanout %d: %q", f, s), func() []uint16 { return m(s) })
		}
	}
	for _, w := range []string{"+", "-", " ", "\n", "0x", "_", "x"} {
		for _, s := range []string{w + base, base + w, w + base[len(w):], base[:64-len(w)] + w, w} {
			s := s
			if s == "0x"+base || true {
				refused(t, fmt.Sprintf("fanout %d: %q", f, s), func() []uint16 { return m(s) })
			}
		}
	}
	t.State("hexmalformed", f)
}
