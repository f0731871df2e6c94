package lib

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"mc/env"

	math "github.com/IBM/mathlib"
)

// Worlds is the number of independent discrete logarithms of an element
// during attacks.
const Worlds = 4

// A Deviation is by how much a comparison of group elements was off.
type Deviation struct {
	Group byte
	Log   []*big.Int
}

// Probe runs a verifier in which every comparison of group elements succeeds.
// It returns by how much each comparison was off, and the scalars derived from
// bytes on the way (the challenges).  With frozen set, those scalars are
// replaced by the given ones.  Transparent group only.
func Probe(verify func() error, frozen [][]byte) (off []Deviation, challenges [][]byte, err error, crash interface{}) {
	k := 0
	env.OnScalar(func(b []byte) []byte {
		if frozen != nil && k < len(frozen) {
			b = frozen[k]
		}
		k++
		challenges = append(challenges, append([]byte{}, b...))
		return b
	})
	env.OnEqual(func(group byte, diff []*big.Int) bool {
		off = append(off, Deviation{group, diff})
		return true
	})
	defer func() {
		env.OnScalar(nil)
		env.OnEqual(nil)
		crash = recover()
	}()
	err = verify()
	return
}

// Challenges runs a verifier to its end and lists the scalars it derived.
func Challenges(verify func() error) ([]string, error) {
	_, ch, err, crash := Probe(verify, nil)
	if crash != nil {
		return nil, fmt.Errorf("crashed: %v", crash)
	}
	var r []string
	for _, c := range ch {
		r = append(r, string(c))
	}
	return r, err
}

// An Attack is the search for a way to complete a false or altered transcript
// by choosing some of its messages last.
//
// Group elements are held in several worlds (independent choices of discrete
// logarithms), and equations must hold in each, so that only identities that a
// prover without discrete logarithms can use are solutions.
type Attack struct {
	Verify func() error
	Free   []Leaf     // the messages of the proof
	Stmt   []Leaf     // parts of the statement: changing one by Falsify makes the statement false
	Bases  []*math.G1 // elements the prover may add to its messages
	Also   int        // messages that only enter equations over G1 are also changed by multiples of the last so many bases alone
	Lie    []*math.G1 // elements whose addition to a commitment of the statement falsifies it
	False  bool       // the statement is false to begin with
	Prover [][]byte   // the challenges that the prover saw, if in the order of the verifier
	Max    int        // how many messages are chosen last
	Tried  int
	Solved int
}

func flat(off []Deviation) []*big.Int {
	var r []*big.Int
	for _, d := range off {
		r = append(r, d.Log...)
	}
	return r
}

func mod(x *big.Int) *big.Int { return x.Mod(x, Order) }

func addTo(l Leaf, g *math.G1, t *big.Int) {
	if l.V.Type() == tyZr {
		l.V.Set(reflect.ValueOf(ZrBig(mod(new(big.Int).Add(Big(l.V.Interface().(*math.Zr)), t)))))
		return
	}
	r := l.V.Interface().(*math.G1).Copy()
	r.Add(g.Mul(ZrBig(t)))
	l.V.Set(reflect.ValueOf(r))
}

func save(l Leaf) func() {
	k := l.V.Interface()
	return func() { l.V.Set(reflect.ValueOf(k)) }
}

// Run explores all choices and describes the first that is accepted.
func (a *Attack) Run() string {
	var inits []func() string
	if a.False {
		inits = append(inits, func() string { return "" })
	}
	for _, l := range a.Free {
		l := l
		if l.V.Type() == tyZr {
			inits = append(inits, func() string { addTo(l, nil, big.NewInt(1)); return l.Path + " altered; " })
			continue
		}
		for bi, b := range a.Bases {
			bi, b := bi, b
			inits = append(inits, func() string {
				addTo(l, b, big.NewInt(3))
				return fmt.Sprintf("%s altered by base %d; ", l.Path, bi)
			})
		}
	}
	var undo []func()
	for _, l := range append(append([]Leaf{}, a.Free...), a.Stmt...) {
		undo = append(undo, save(l))
	}
	for _, f := range inits {
		pre := f()
		r := a.from(a.False, a.Stmt)
		for _, u := range undo {
			u()
		}
		if r != "" {
			return pre + r
		}
	}
	// the statement falsified to begin with
	for i, l := range a.Stmt {
		rest := append(append([]Leaf{}, a.Stmt[:i]...), a.Stmt[i+1:]...)
		n := len(a.Lie)
		if l.V.Type() == tyZr {
			n = 1
		}
		for b := 0; b < n; b++ {
			if l.V.Type() == tyZr {
				addTo(l, nil, big.NewInt(1))
			} else {
				addTo(l, a.Lie[b], big.NewInt(3))
			}
			r := a.from(true, rest)
			for _, u := range undo {
				u()
			}
			if r != "" {
				return fmt.Sprintf("lied in %s, ", l.Path) + r
			}
		}
	}
	return ""
}

// effect is the change of every comparison when f is done, under fixed challenges.
func (a *Attack) effect(l Leaf, f func(), ch [][]byte, base []*big.Int) ([]*big.Int, bool) {
	u := save(l)
	f()
	off, _, err, crash := Probe(a.Verify, ch)
	u()
	if err != nil || crash != nil {
		return nil, false
	}
	d := flat(off)
	if len(d) != len(base) {
		return nil, false
	}
	any := false
	for i := range d {
		d[i] = mod(new(big.Int).Sub(d[i], base[i]))
		any = any || d[i].Sign() != 0
	}
	return d, any
}

func (a *Attack) from(isFalse bool, stmt []Leaf) string {
	if r := a.under(nil, isFalse, stmt); r != "" || a.Prover == nil {
		return r
	}
	return a.under(a.Prover, isFalse, stmt)
}

// Recorded lists the scalars derived from bytes while f runs.
func Recorded(f func()) (ch [][]byte) {
	env.OnScalar(func(b []byte) []byte {
		ch = append(ch, append([]byte{}, b...))
		return b
	})
	defer env.OnScalar(nil)
	f()
	return
}

func (a *Attack) under(frozen [][]byte, isFalse bool, stmt []Leaf) string {
	off, ch, err, crash := Probe(a.Verify, frozen)
	if err != nil || crash != nil || len(off) == 0 {
		return ""
	}
	base := flat(off)
	one := big.NewInt(1)
	gen := C.GenG1
	// the ways to change each message: each is a list of alternatives
	type choice struct {
		leaf Leaf
		stmt bool
		alts []int // base indices; -1 scalar; -2 any element
		cols map[int][]*big.Int
	}
	var cs []choice
	collect := func(ls []Leaf, bases []*math.G1, stmt bool) {
		for _, l := range ls {
			l := l
			c := choice{leaf: l, stmt: stmt, cols: map[int][]*big.Int{}}
			if l.V.Type() == tyZr {
				d, ok := a.effect(l, func() { addTo(l, nil, one) }, ch, base)
				if ok {
					c.alts, c.cols[-1] = []int{-1}, d
				}
			} else if d, ok := a.effect(l, func() { addTo(l, gen, one) }, ch, base); ok {
				target := false
				for i, o := range off {
					for w := 0; w < len(o.Log); w++ {
						target = target || (o.Group == 3 && d[i*len(o.Log)+w].Sign() != 0)
					}
				}
				if !target && !stmt {
					c.alts, c.cols[-2] = []int{-2}, d
				}
				if target || stmt || a.Also > 0 {
					for bi, b := range bases {
						if !target && !stmt && bi < len(bases)-a.Also {
							continue
						}
						if d, ok := a.effect(l, func() { addTo(l, b, one) }, ch, base); ok {
							c.alts = append(c.alts, bi)
							c.cols[bi] = d
						}
					}
				}
			}
			if len(c.alts) > 0 {
				cs = append(cs, c)
			}
		}
	}
	collect(a.Free, a.Bases, false)
	collect(stmt, a.Lie, true)

	type pick struct{ c, alt int }
	var picks []pick
	try := func() string {
		falsified := isFalse
		for _, p := range picks {
			falsified = falsified || cs[p.c].stmt
		}
		if !falsified {
			return ""
		}
		a.Tried++
		// one column per unknown
		var cols [][]*big.Int
		var owner []int
		W := len(off[0].Log)
		for k, p := range picks {
			c := cs[p.c]
			if p.alt != -2 {
				cols, owner = append(cols, c.cols[p.alt]), append(owner, k)
				continue
			}
			for w := 0; w < W; w++ {
				col := make([]*big.Int, len(base))
				for i := range col {
					col[i] = new(big.Int)
					if i%W == w {
						col[i] = c.cols[-2][i]
					}
				}
				cols, owner = append(cols, col), append(owner, k)
			}
		}
		x := solve(base, cols)
		if x == nil {
			return ""
		}
		used := make([]bool, len(picks))
		for i := range x {
			used[owner[i]] = used[owner[i]] || x[i].Sign() != 0
		}
		for _, u := range used {
			if !u {
				return "" // a smaller choice
			}
		}
		var undo []func()
		var names []string
		defer func() {
			for _, u := range undo {
				u()
			}
		}()
		for k, p := range picks {
			l := cs[p.c].leaf
			undo = append(undo, save(l))
			names = append(names, l.Path)
			var mine []*big.Int
			for i := range x {
				if owner[i] == k {
					mine = append(mine, x[i])
				}
			}
			switch {
			case p.alt == -2:
				// the unit was a generator, with logarithm 1 in every world
				addTo(l, env.MakeG1(mine), one)
			case p.alt == -1:
				addTo(l, nil, mine[0])
			case cs[p.c].stmt:
				addTo(l, a.Lie[p.alt], mine[0])
			default:
				addTo(l, a.Bases[p.alt], mine[0])
			}
		}
		o2, _, err, crash := Probe(a.Verify, ch)
		if err != nil || crash != nil {
			return ""
		}
		for _, v := range flat(o2) {
			if v.Sign() != 0 {
				return ""
			}
		}
		a.Solved++
		if a.Verify() == nil {
			return "then chose " + strings.Join(names, ", ") + " last"
		}
		return ""
	}
	var rec func(from int) string
	rec = func(from int) string {
		if len(picks) > 0 {
			if r := try(); r != "" {
				return r
			}
		}
		if len(picks) == a.Max {
			return ""
		}
		for i := from; i < len(cs); i++ {
			for _, alt := range cs[i].alts {
				picks = append(picks, pick{i, alt})
				if r := rec(i + 1); r != "" {
					return r
				}
				picks = picks[:len(picks)-1]
			}
		}
		return ""
	}
	return rec(0)
}

// solve finds the unique x with base + sum x_i cols_i = 0.
func solve(base []*big.Int, cols [][]*big.Int) []*big.Int {
	k := len(cols)
	rows := make([][]*big.Int, 0, len(base))
	for r := range base {
		zero := true
		for i := range cols {
			zero = zero && cols[i][r].Sign() == 0
		}
		if zero {
			if base[r].Sign() != 0 {
				return nil
			}
			continue
		}
		row := make([]*big.Int, k+1)
		for i := range cols {
			row[i] = new(big.Int).Set(cols[i][r])
		}
		row[k] = mod(new(big.Int).Neg(base[r]))
		rows = append(rows, row)
	}
	if len(rows) < k {
		return nil
	}
	t := new(big.Int)
	for c := 0; c < k; c++ {
		p := -1
		for r := c; r < len(rows); r++ {
			if rows[r][c].Sign() != 0 {
				p = r
				break
			}
		}
		if p < 0 {
			return nil
		}
		rows[c], rows[p] = rows[p], rows[c]
		inv := new(big.Int).ModInverse(rows[c][c], Order)
		for j := c; j <= k; j++ {
			rows[c][j].Mod(rows[c][j].Mul(rows[c][j], inv), Order)
		}
		for r := range rows {
			if r == c || rows[r][c].Sign() == 0 {
				continue
			}
			f := new(big.Int).Set(rows[r][c])
			for j := c; j <= k; j++ {
				rows[r][j].Mod(rows[r][j].Sub(rows[r][j], t.Mul(f, rows[c][j])), Order)
			}
		}
	}
	for r := k; r < len(rows); r++ {
		if rows[r][k].Sign() != 0 {
			return nil
		}
	}
	x := make([]*big.Int, k)
	for i := range x {
		x[i] = rows[i][k]
	}
	return x
}

// Elems are the group elements and scalars among leaves.
func Elems(ls []Leaf) []Leaf {
	var r []Leaf
	for _, l := range ls {
		switch l.V.Interface().(type) {
		case *math.G1, *math.Zr:
			r = append(r, l)
		}
	}
	return r
}
